"""Generic batch execution: many generated models in few executables, exact-size inputs, table of doubles in and out."""
import os, struct
from concurrent.futures import ThreadPoolExecutor
import numpy
from . import cbuild

MAIN = r'''
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <math.h>
%(head)s
%(code)s
typedef void (*runner_t)(const double *in, int rows, double *out);
%(runners)s
static const struct { runner_t fn; int nf; int no; } table[] = { %(table)s };
int main(int argc, char **argv) {
    FILE *in = fopen(argv[1], "rb"), *out = fopen(argv[2], "wb");
    for (int i=0; i<(int)(sizeof(table)/sizeof(table[0])); i++) {
        int32_t rows;
        if (fread(&rows, 4, 1, in) != 1) return 7;
        double *x = malloc(sizeof(double)*rows*table[i].nf+1), *y = malloc(sizeof(double)*rows*table[i].no+1);
        if (fread(x, sizeof(double), (size_t)rows*table[i].nf, in) != (size_t)rows*table[i].nf) return 7;
        fprintf(stderr, "@%%d\n", i);
        table[i].fn(x, rows, y);
        fwrite(y, sizeof(double), (size_t)rows*table[i].no, out);
        free(x); free(y);
    }
    fclose(out);
    return 0;
}
'''
RUN = r'''
static void run_%(i)d(const double *in, int rows, double *out) {
    %(ctype)s *f = malloc(sizeof(%(ctype)s)*%(nf)d);
    for (int r=0; r<rows; r++) {
        double *o = out + (size_t)r*%(no)d;
        for (int k=0; k<%(nf)d; k++) f[k] = (%(ctype)s)in[(size_t)r*%(nf)d+k];
        %(body)s
    }
    free(f);
}
'''


class Job:
    """body: C statements using f (features), o (output row)"""
    def __init__(self, code, body, nf, no, X, ctype='float', tag=None):
        self.code, self.body, self.nf, self.no, self.ctype, self.tag = code, body, nf, no, ctype, tag
        self.X = numpy.asarray(X, float).reshape(-1, nf)


def run_jobs(c, jobs, chunk=60, head='', flags=cbuild.FAST, label='batch', extra=()):
    d = c.dir(label)
    chunks = [jobs[i:i+chunk] for i in range(0, len(jobs), chunk)]
    def work(ci):
        js = chunks[ci]
        runners = '\n'.join(RUN % dict(i=i, ctype=j.ctype, nf=j.nf, no=j.no, body=j.body) for i, j in enumerate(js))
        table = ',\n'.join('{run_%d,%d,%d}' % (i, j.nf, j.no) for i, j in enumerate(js))
        src = cbuild.write(os.path.join(d, f'c{ci}.c'), MAIN % dict(head=head, code='\n'.join(j.code for j in js), runners=runners, table=table))
        exe = cbuild.compile_c([src], os.path.join(d, f'c{ci}.exe'), flags=flags, extra=['-Werror=implicit-function-declaration', *extra], key='generated-code-does-not-compile')
        fin, fout = os.path.join(d, f'c{ci}.in'), os.path.join(d, f'c{ci}.out')
        with open(fin, 'wb') as f:
            for j in js:
                f.write(struct.pack('<i', len(j.X)))
                f.write(numpy.ascontiguousarray(j.X, dtype='<f8').tobytes())
        try:
            cbuild.run_exe(exe, [fin, fout], key='generated-code-fails')
        except cbuild.ImplFailure as e:
            marks = [l for l in e.detail.get('stderr', '').split('\n') if l.startswith('@')]
            if marks:
                e.detail['model'] = str(js[int(marks[-1][1:])].tag)[:3000]
            raise
        raw = numpy.fromfile(fout, dtype='<f8')
        res, o = [], 0
        for j in js:
            n = len(j.X)*j.no
            res.append(raw[o:o+n].reshape(len(j.X), j.no)); o += n
        for p in (src, exe, fin, fout):
            os.unlink(p)
        return res
    with ThreadPoolExecutor(8) as ex:
        out = list(ex.map(work, range(len(chunks))))
    return [r for ch in out for r in ch]
