"""Neural networks with given weights as real scikit-learn / Keras models, error-bounded references and batch execution."""
import os, struct, itertools, re, warnings
from concurrent.futures import ThreadPoolExecutor
import numpy
from . import cbuild
from .core import Harness

EPS = 2.0**-23


def no_compile():
    """conversion compiles an executable per model; skip that while generating code in bulk (slow but right if it has no effect)"""
    import emlearn.common as cm
    class Ctx:
        def __enter__(self):
            self.old = getattr(cm, 'build_classifier', None)
            if self.old is not None:
                cm.build_classifier = lambda *a, **k: '/bin/false'
        def __exit__(self, *a):
            if self.old is not None:
                cm.build_classifier = self.old
    return Ctx()


def weights_for(n_in, n_out, pattern, layer):
    """deterministic weight matrices; every entry of 'distinct' is different so that any index mix-up changes the result"""
    i, o = numpy.meshgrid(numpy.arange(n_in), numpy.arange(n_out), indexing='ij')
    k = i*n_out+o
    sign = 1-2*((i+2*o+layer) % 2)
    b = numpy.arange(n_out)
    if pattern == 'distinct':
        return sign*(0.3+0.017*k)/numpy.sqrt(n_in), 0.11*(b+1)*(1-2*(b % 2))
    if pattern == 'small':
        return sign*(1e-3+1e-5*k), 1e-4*(b-1.0)
    if pattern == 'tiny':
        return sign*(1e-7+1e-9*k), 1e-8*(b-1.0)+2e-7
    if pattern == 'large':
        return sign*(7.5+0.37*k), 3.0*(b-0.5)
    if pattern == 'huge':
        return sign*(1234.5+10.1*k), 100.0*(b-0.5)
    if pattern == 'mixed':
        return sign*10.0**((k % 9)-5)*1.2345678, 10.0**(b % 5-3)*-1.1
    if pattern == 'diag':
        return 1.0*(i == o) - 0.5*(i == (o+1) % max(n_in, 1)), numpy.zeros(n_out)
    if pattern == 'zero':
        return numpy.zeros((n_in, n_out)), 0.25*b
    if pattern == 'int':
        return sign*(k % 5).astype(float), (b % 3-1).astype(float)
    raise Harness(pattern)


class Net:
    def __init__(self, sizes, activations, pattern):
        self.sizes, self.activations, self.pattern = list(sizes), list(activations), pattern
        self.W, self.B = [], []
        for l, (a, b) in enumerate(zip(sizes, sizes[1:])):
            w, bias = weights_for(a, b, pattern if isinstance(pattern, str) else pattern[l % len(pattern)], l)
            self.W.append(w); self.B.append(bias)

    def describe(self):
        return dict(sizes=self.sizes, activations=self.activations, pattern=self.pattern)

    def forward(self, X):
        """float64 outputs and a rigorous bound for single-precision evaluation error"""
        a = X.astype(float)
        e = numpy.abs(a)*EPS
        for w, b, act in zip(self.W, self.B, self.activations):
            n = w.shape[0]
            mag = numpy.abs(a) @ numpy.abs(w) + numpy.abs(b)
            e = e @ numpy.abs(w) + (n+4)*EPS*mag + 1e-40
            z = a @ w + b
            if act == 'relu':
                a = numpy.maximum(z, 0)
            elif act == 'identity':
                a = z
            elif act == 'tanh':
                a = numpy.tanh(z); e = numpy.minimum(e, 2.0) + 4*EPS*numpy.abs(a)
            elif act == 'logistic':
                with numpy.errstate(over='ignore'):
                    a = 1/(1+numpy.exp(-z))
                e = numpy.minimum(e/4, 1.0) + 4*EPS
            elif act == 'softmax':
                m = z.max(axis=1, keepdims=True)
                p = numpy.exp(z-m); p /= p.sum(axis=1, keepdims=True)
                emax = e.max(axis=1, keepdims=True)+EPS*(numpy.abs(m)+numpy.log(z.shape[1])+3)*3
                a = p
                e = numpy.minimum(1.0, numpy.where(emax < 20, numpy.expm1(2*numpy.minimum(emax, 20)), 1.0)) * numpy.ones_like(p) + 8*EPS*z.shape[1]
            else:
                raise Harness(act)
        return a, e


def sk_model(net, kind):
    """kind: classifier / regressor"""
    from sklearn.neural_network import MLPClassifier, MLPRegressor
    warnings.simplefilter('ignore')
    n_out = net.sizes[-1]
    hidden = tuple(net.sizes[1:-1])
    act = net.activations[0]
    if any(a != act for a in net.activations[:-1]):
        raise Harness('scikit-learn has one hidden activation')
    if kind == 'classifier':
        n_classes = 2 if n_out == 1 else n_out
        y = numpy.arange(max(n_classes, 2)) % n_classes
        m = MLPClassifier(hidden_layer_sizes=hidden, activation=act, max_iter=1)
    else:
        y = numpy.arange(2*n_out, dtype=float).reshape(2, n_out) if n_out > 1 else numpy.arange(2.0)
        m = MLPRegressor(hidden_layer_sizes=hidden, activation=act, max_iter=1)
    m.fit(numpy.arange(len(y)*net.sizes[0], dtype=float).reshape(len(y), -1), y)
    m.coefs_ = [w.copy() for w in net.W]
    m.intercepts_ = [b.copy() for b in net.B]
    if m.out_activation_ != net.activations[-1]:
        raise Harness(f'{m.out_activation_} {net.activations}')
    return m


def keras_model(layers, n_in):
    """layers: list of ('dense', W, b, activation or None) / ('activation', name) / ('relu',) / ('softmax',) / ('dropout',)"""
    import keras
    L = [keras.layers.Input((n_in,))]
    ws = []
    for l in layers:
        if l[0] == 'dense':
            d = keras.layers.Dense(l[1].shape[1], activation=l[3])
            ws.append((d, l[1], l[2])); L.append(d)
        elif l[0] == 'activation':
            L.append(keras.layers.Activation(l[1]))
        elif l[0] == 'relu':
            L.append(keras.layers.ReLU(**(l[1] if len(l) > 1 else {})))
        elif l[0] == 'softmax':
            L.append(keras.layers.Softmax())
        elif l[0] == 'dropout':
            L.append(keras.layers.Dropout(0.5))
        else:
            L.append(l[1])
    m = keras.Sequential(L)
    for d, w, b in ws:
        d.set_weights([w.astype('float32'), b.astype('float32')])
    for l, o in zip(L[1:], layers):
        if o[0] != 'dense' and len(o) > 1 and l.weights and l.trainable_weights + l.non_trainable_weights: # parameters of other layers: distinct, positive
            if type(l).__name__ != 'Normalization':
                l.set_weights([(0.4+0.3*k+0.25*numpy.arange(w.size)).reshape(w.shape).astype(w.dtype) for k, w in enumerate(l.get_weights())])
    return m


RUN = r'''
static void run_%(i)d(const double *in, int rows, double *out) {
    float *f = malloc(sizeof(float)*%(nf)d);
    float *v = malloc(sizeof(float)*%(no)d), *p = malloc(sizeof(float)*%(np)d);
    for (int r=0; r<rows; r++) {
        double *o = out + (size_t)r*%(width)d;
        for (int k=0; k<%(width)d; k++) o[k] = -999;
        for (int k=0; k<%(nf)d; k++) f[k] = (float)in[r*%(nf)d+k];
        %(body)s
    }
    free(f); free(v); free(p);
}
'''
# row: [class, err_regress, err_proba, regress1, outputs..., probabilities...]
LOADABLE = r'''
        o[0] = %(name)s_predict(f, %(nf)d);
        o[1] = eml_net_regress(&%(name)s, f, %(nf)d, v, %(no)d);
        for (int k=0; k<%(no)d; k++) o[4+k] = v[k];
        o[2] = eml_net_predict_proba(&%(name)s, f, %(nf)d, p, %(np)d);
        for (int k=0; k<%(np)d; k++) o[4+%(no)d+k] = p[k];
        o[3] = %(name)s_regress1(f, %(nf)d);
        if (%(name)s_regress(f, %(nf)d, v, %(no)d) != (int)o[1]) o[1] = 555;
        for (int k=0; k<%(no)d; k++) if (o[4+k] != v[k] && !(o[4+k] != o[4+k])) o[1] = 556;
'''
INLINE = r'''
        o[0] = %(name)s_predict(f, %(nf)d);
        o[1] = o[2] = 0;
        %(infer)s
'''
INFER = r'''
        { float *b1 = malloc(sizeof(float)*%(name)s_activations_length), *b2 = malloc(sizeof(float)*%(name)s_activations_length);
          o[1] = %(name)s_infer(f, %(nf)d, b1, b2, %(name)s_activations_length);
          for (int k=0; k<%(no)d; k++) o[4+k] = b2[k];
          free(b1); free(b2); }
'''
MAIN = r'''
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <math.h>
%(code)s
typedef void (*runner_t)(const double *in, int rows, double *out);
%(runners)s
static const struct { runner_t fn; int nf; int no; } table[] = { %(table)s };
int main(int argc, char **argv) {
    FILE *in = fopen(argv[1], "rb"), *out = fopen(argv[2], "wb");
    for (int i=0; i<(int)(sizeof(table)/sizeof(table[0])); i++) {
        int32_t rows;
        if (fread(&rows, 4, 1, in) != 1) return 7;
        double *x = malloc(sizeof(double)*rows*table[i].nf+1), *y = malloc(sizeof(double)*rows*table[i].no+1);
        if (fread(x, sizeof(double), (size_t)rows*table[i].nf, in) != (size_t)rows*table[i].nf) return 7;
        fprintf(stderr, "@%%d\n", i);
        table[i].fn(x, rows, y);
        fwrite(y, sizeof(double), (size_t)rows*table[i].no, out);
        free(x); free(y);
    }
    fclose(out);
    return 0;
}
'''


class Job:
    def __init__(self, code, name, method, nf, no, X, tag):
        self.code, self.name, self.method, self.nf, self.no, self.X, self.tag = code, name, method, nf, no, numpy.asarray(X, float), tag
        self.np = 2 if no == 1 else no
        self.width = 4 + self.no + self.np
        self.values = method == 'loadable' or bool(re.search(
            name + r'_infer\s*\(\s*const float \*\w+,\s*int32_t \w+,\s*float \*\w+,\s*float \*\w+,\s*int32_t \w+\s*\)', code))
        if method == 'inline' and f'{name}_activations_length' not in code:
            self.values = False


def run_jobs(c, jobs, chunk=40, label='nets', flags=cbuild.FAST):
    d = c.dir(label)
    chunks = [jobs[i:i+chunk] for i in range(0, len(jobs), chunk)]
    def work(ci):
        js = chunks[ci]
        runners, table = [], []
        for i, j in enumerate(js):
            v = dict(i=i, nf=j.nf, no=j.no, np=j.np, width=j.width, name=j.name)
            v['infer'] = INFER % v if j.values else ''
            v['body'] = (LOADABLE if j.method == 'loadable' else INLINE) % v
            runners.append(RUN % v)
            table.append('{run_%d,%d,%d}' % (i, j.nf, j.width))
        src = cbuild.write(os.path.join(d, f'c{ci}.c'), MAIN % dict(code='\n'.join(j.code for j in js), runners='\n'.join(runners), table=',\n'.join(table)))
        exe = cbuild.compile_c([src], os.path.join(d, f'c{ci}.exe'), flags=flags, extra=['-Werror=overflow', '-Werror=implicit-function-declaration'], key='generated-code-does-not-compile')
        fin, fout = os.path.join(d, f'c{ci}.in'), os.path.join(d, f'c{ci}.out')
        with open(fin, 'wb') as f:
            for j in js:
                f.write(struct.pack('<i', len(j.X)))
                f.write(numpy.ascontiguousarray(j.X, dtype='<f8').tobytes())
        try:
            cbuild.run_exe(exe, [fin, fout], key='generated-code-fails')
        except cbuild.ImplFailure as e:
            marks = [l for l in e.detail.get('stderr', '').split('\n') if l.startswith('@')]
            if marks:
                e.detail['model'] = str(js[int(marks[-1][1:])].tag)[:3000]
            raise
        raw = numpy.fromfile(fout, dtype='<f8')
        res, o = [], 0
        for j in js:
            n = len(j.X)*j.width
            res.append(raw[o:o+n].reshape(len(j.X), j.width)); o += n
        for p in (src, exe, fin, fout):
            os.unlink(p)
        return res
    with ThreadPoolExecutor(8) as ex:
        out = list(ex.map(work, range(len(chunks))))
    return [r for ch in out for r in ch]


def grid(n, values, limit=250):
    if len(values)**n <= limit:
        return numpy.array(list(itertools.product(values, repeat=n)), float)
    rows = []
    for f in range(min(n, 40)):
        for v in values:
            r = [0.0]*n; r[f] = v; rows.append(r)
            r = [0.5]*n; r[f] = v; rows.append(r)
    for v in values:
        rows.append([v]*n)
        rows.append([v*(1-2*(k % 2)) for k in range(n)])
        rows.append([v*(k+1)/n for k in range(n)])
    return numpy.array(rows[:limit*2], float)
