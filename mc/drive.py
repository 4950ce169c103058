"""C drivers that enumerate themselves and report one line per failure; parsed into the bookkeeping of a check."""
import os
from . import cbuild
from .core import Harness

PRELUDE = r'''
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <stdarg.h>
static long mc_states, mc_transitions, mc_traces, mc_failures;
static void mc_fail(const char *key, const char *fmt, ...) {
    if (mc_failures++ < 40) {
        va_list ap; va_start(ap, fmt);
        printf("F %s|", key); vprintf(fmt, ap); printf("\n"); fflush(stdout);
        va_end(ap);
    }
}
static void mc_sample(const char *fmt, ...) {
    va_list ap; va_start(ap, fmt); printf("S "); vprintf(fmt, ap); printf("\n"); va_end(ap);
}
static void mc_dist(const char *name, long n) { printf("D %s %ld\n", name, n); }
static void mc_where(const char *fmt, ...) { /* last position, shown when the run crashes */
    va_list ap; va_start(ap, fmt); fprintf(stderr, "@"); vfprintf(stderr, fmt, ap); fprintf(stderr, "\n"); va_end(ap);
}
static int mc_end(void) { printf("N %ld %ld %ld\n", mc_states, mc_transitions, mc_traces); return 0; }
/* exact-size heap buffer, so that AddressSanitizer sees any access outside of it; never NULL */
static void *mc_buf(size_t n) { void *p = malloc(n ? n : 1); if (n) memset(p, 0xa5, n); return n ? p : (free(p), malloc(0)); }
'''


def drive(c, name, code, flags=cbuild.ASAN, extra=(), args=(), timeout=3000, cc='gcc', stdin=b'', base=cbuild.BASE, ext='.c', key=None):
    """compile and run a driver (text appended to PRELUDE); returns its other output lines"""
    d = c.dir('drive')
    src = cbuild.write(os.path.join(d, name + ext), PRELUDE + code)
    key = key or name
    exe = cbuild.compile_c([src], os.path.join(d, name + '.exe'), flags=flags, extra=extra, cc=cc, key=f'{key}:compile', base=base)
    return parse(c, cbuild.run_exe(exe, args, stdin=stdin, timeout=timeout, key=f'{key}:crash', check=False), key)


def run_many(c, exe, arglists, key, timeout=3000, workers=8):
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(workers) as ex:
        ps = list(ex.map(lambda a: cbuild.run_exe(exe, a, timeout=timeout, key=f'{key}:crash', check=False), arglists))
    out = []
    for p in ps:
        out += parse(c, p, key)
    return out


def build(c, name, code, flags=cbuild.ASAN, extra=(), cc='gcc', base=cbuild.BASE, ext='.c', key=None):
    d = c.dir('drive')
    src = cbuild.write(os.path.join(d, name + ext), PRELUDE + code)
    return cbuild.compile_c([src], os.path.join(d, name + '.exe'), flags=flags, extra=extra, cc=cc, key=f'{key or name}:compile', base=base)


def parse(c, p, key):
    ended = False
    rest = []
    for line in p.stdout.decode('utf8', 'replace').split('\n'):
        if line.startswith('F '):
            k, _, what = line[2:].partition('|')
            c.violation(k, what=what)
        elif line.startswith('S '):
            c.sample(text=line[2:])
        elif line.startswith('D '):
            n, v = line[2:].rsplit(' ', 1)
            c.count(n, int(v))
        elif line.startswith('N '):
            a, b, t = map(int, line[2:].split())
            c.states += a; c.transitions += b; c.traces += t
            ended = True
        elif line:
            rest.append(line)
    if p.returncode != 0 or not ended:
        err = p.stderr.decode('utf8', 'replace')
        marks = [l for l in err.split('\n') if l.startswith('@')]
        if p.returncode == 77:
            raise Harness(f'{key}: driver error: {err[-500:]}')
        i = err.find('ERROR:')
        j = err.find('runtime error')
        at = max(0, min(x for x in (i, j, len(err)) if x >= 0)-200)
        c.violation(f'{key}:crash', at=marks[-1] if marks else None, returncode=p.returncode, stderr=err[at:at+2500])
    return rest
