"""C08 networks compute the source function: enumerate architectures x activations x weights x inputs, run generated code, rigorous error bound."""
import itertools
from concurrent.futures import ThreadPoolExecutor
import numpy
from mc import drive, netlib as nl

HID = ['identity', 'relu', 'logistic', 'tanh']
VALUES = [-1000.0, -3.0, -0.5, 0.0, 0.25, 1.0, 50.0]


def sk_programs(c):
    """(kind, Net)"""
    outs = [('classifier', 1, 'logistic'), ('classifier', 3, 'softmax'), ('regressor', 1, 'identity'), ('regressor', 2, 'identity')]
    widths = c.pick((1, 2, 3, 5), (1, 2, 3, 4, 5, 7))
    # (i) every architecture of one and two hidden layers (three in thorough) x activation x output
    n = 0
    for depth in (1, 2, 3):
        for ws in itertools.product(widths if depth < 3 else (1, 2, 4), repeat=depth):
            for ni in (1, 2, 4):
                for act in HID:
                    for kind, no, oa in outs:
                        n += 1
                        if depth == 1 or n % c.pick(11 if depth == 2 else 17, 2) == 0:
                            yield 'arch', kind, nl.Net([ni, *ws, no], [act]*depth+[oa], 'distinct')
    # (ii) every weight magnitude x activation x output
    for pat in ['small', 'tiny', 'large', 'huge', 'mixed', 'diag', 'zero', 'int']:
        for act in HID:
            for kind, no, oa in outs:
                for sizes in ([2, 3, no], [3, 2, 3, no]):
                    yield 'weights', kind, nl.Net(sizes, [act]*(len(sizes)-2)+[oa], pat)
    # (iii) different magnitudes per layer
    for p in itertools.permutations(['small', 'large', 'distinct']):
        for act in HID:
            yield 'layer-weights', 'classifier', nl.Net([2, 3, 4, 3], [act]*2+['softmax'], list(p))
    # (iv) size ladders
    for w in [8, 15, 16, 17, 31, 32, 33, 64, 100, 127, 128, 129, 200, 255, 256, 257] + c.pick([], [512, 1000, 1025]):
        for sizes in ([2, w, 3], [w, 2, 3], [2, 3, w]) if w < 300 else ([2, w, 3],):
            oa = 'softmax'
            yield 'width', 'classifier', nl.Net(sizes, ['relu', oa], 'distinct')
        yield 'width', 'regressor', nl.Net([3, w, 2, w if w < 130 else 5, 1], ['tanh']*3+['identity'], 'distinct')
    for d in [4, 5, 6, 8, 10, 16] + c.pick([], [20, 32, 64]):
        for act in HID:
            yield 'depth', 'classifier', nl.Net([2]+[3, 2]*(d//2)+[3]*(d % 2)+[3], [act]*(d)+['softmax'], 'diag')
            yield 'depth', 'regressor', nl.Net([2]+[2, 4]*(d//2)+[3]*(d % 2)+[1], [act]*(d)+['identity'], 'diag')
    for no in list(range(2, 21)) + [50, 100, 255, 256, 257]:
        if no > 2:
            yield 'outputs', 'classifier', nl.Net([2, 4, no], ['tanh', 'softmax'], 'distinct')
        yield 'outputs', 'regressor', nl.Net([2, 4, no], ['tanh', 'identity'], 'distinct')


def keras_programs(c):
    """(tag, layers, Net equivalent or None when it may be refused, n_in)"""
    def dense(net, l, act):
        return ('dense', net.W[l], net.B[l], act)
    K = {'identity': [None, 'linear'], 'relu': ['relu'], 'logistic': ['sigmoid'], 'tanh': ['tanh'], 'softmax': ['softmax']}
    # every activation per layer, in the Dense layer or as a layer of its own
    for a1, a2, oa in itertools.product(HID, HID, ['softmax', 'identity', 'logistic', 'tanh', 'relu']):
        for form in range(4):
            if c.quick and (form + HID.index(a1) + 2*HID.index(a2)) % 4:
                continue
            net = nl.Net([2, 3, 4, 3], [a1, a2, oa], 'distinct')
            layers = []
            for l, a in enumerate((a1, a2, oa)):
                own = (form >> (l % 2)) & 1
                if own and a != 'identity':
                    layers.append(dense(net, l, None))
                    layers.append(('relu',) if a == 'relu' else ('softmax',) if a == 'softmax' else ('activation', K[a][0]))
                    if l == 0:
                        layers.append(('dropout',))
                else:
                    if l == 1:
                        layers.append(('dropout',))
                    layers.append(dense(net, l, K[a][-1]))
                    if own:
                        layers.append(('activation', 'linear'))
            yield f'merge{form}', layers, net, True
    for no, oa in ((1, 'logistic'), (1, 'identity'), (2, 'softmax'), (5, 'softmax'), (2, 'identity')):
        for act in HID:
            net = nl.Net([3, 2, no], [act, oa], 'distinct')
            yield 'out', [dense(net, 0, K[act][0]), dense(net, 1, K[oa][0])], net, True
    # arrangements that must be computed or refused
    for first, second in itertools.product(['relu', 'sigmoid', 'tanh', 'linear'], repeat=2):
        net = nl.Net([2, 3, 3], ['identity', 'softmax'], 'distinct')
        yield f'two-activations:{first}:{second}', [dense(net, 0, first), ('activation', second), dense(net, 1, 'softmax')], None, False
        yield f'two-activations-out:{first}:{second}', [dense(net, 0, 'relu'), dense(net, 1, first), ('activation', second)], None, False
        yield f'three:{first}:{second}', [dense(net, 0, None), ('activation', first), ('dropout',), ('activation', second), dense(net, 1, None), ('softmax',)], None, False
    net = nl.Net([2, 3, 3], ['identity', 'softmax'], 'distinct')
    for kw in (dict(max_value=1.0), dict(max_value=0.5), dict(negative_slope=0.1), dict(threshold=0.2), dict(max_value=6.0, threshold=0.1)):
        yield f'relu:{kw}', [dense(net, 0, None), ('relu', kw), dense(net, 1, 'softmax')], None, False
    wide = nl.Net([2, 3, 3], ['identity', 'identity'], ['large', 'distinct'])
    for kw in [dict(max_value=v) for v in (0.0, 1.0, 5.0, 6.0, 6.5, 20.0, 100.0)] + [dict(threshold=v) for v in (1e-3, 1.0, 10.0)] + [dict(negative_slope=v) for v in (1e-3, 0.5, 1.0, 2.0)]:
        yield f'wide-relu:{kw}', [dense(wide, 0, None), ('relu', kw), dense(wide, 1, None)], None, False
        yield f'wide-relu-out:{kw}', [dense(wide, 0, None), dense(wide, 1, None), ('relu', kw)], None, False
    for act in ('elu', 'selu', 'softplus', 'softsign', 'exponential', 'hard_sigmoid', 'gelu', 'swish', 'relu6', 'leaky_relu', 'log_softmax'):
        yield f'unsupported:{act}', [dense(net, 0, act), dense(net, 1, 'softmax')], None, False
        yield f'unsupported-layer:{act}', [dense(net, 0, None), ('activation', act), dense(net, 1, 'softmax')], None, False
    yield 'first-activation', [('activation', 'tanh'), dense(net, 0, 'relu'), dense(net, 1, 'softmax')], None, False
    yield 'first-relu', [('relu',), dense(net, 0, 'tanh'), dense(net, 1, 'softmax')], None, False
    for act in ('relu', 'sigmoid', 'tanh', 'linear', 'softmax'):
        for ni, no in ((2, 1), (2, 2), (3, 3), (1, 4)):
            net = nl.Net([ni, no], ['identity'], 'distinct')
            yield f'single:{act}', [dense(net, 0, act)], None, False
            yield f'single-own:{act}', [dense(net, 0, None), ('activation', act)], None, False
    net = nl.Net([2, 3, 3], ['identity', 'softmax'], 'distinct')
    import keras
    for axis in (0, 1, -1, -2, [0, 1], [1], [-1]):
        for own in (False, True):
            try:
                sm = keras.layers.Softmax(axis=axis)
                nl.keras_model([dense(net, 0, 'relu'), dense(net, 1, None), ('layer', sm)], 2)(numpy.zeros((3, 2), 'float32'))
            except Exception:
                continue # not possible in Keras either
            sm = keras.layers.Softmax(axis=axis)
            yield f'softmax-axis:{axis}:{own}', [dense(net, 0, None), ('layer', sm), dense(net, 1, None)] if own else [dense(net, 0, 'relu'), dense(net, 1, None), ('layer', sm)], None, False
    # other layers, at every position, with parameters that make a difference
    K = keras.layers
    extra = {'batchnorm': lambda n: K.BatchNormalization(), 'batchnorm-plain': lambda n: K.BatchNormalization(center=False, scale=False), 'layernorm': lambda n: K.LayerNormalization(), 'unitnorm': lambda n: K.UnitNormalization(),
             'rescale': lambda n: K.Rescaling(0.5, offset=1.0), 'normalization': lambda n: K.Normalization(mean=[0.5]*n, variance=[4.0]*n), 'leaky': lambda n: K.LeakyReLU(), 'elu': lambda n: K.ELU(), 'prelu': lambda n: K.PReLU(),
             'nobias': lambda n: K.Dense(n, use_bias=False, activation='relu'), 'flatten': lambda n: K.Flatten(), 'reshape': lambda n: K.Reshape((n,)), 'noise': lambda n: K.GaussianNoise(0.5), 'gauss-dropout': lambda n: K.GaussianDropout(0.5),
             'repeat': lambda n: K.RepeatVector(2), 'softmax': lambda n: K.Softmax(), 'activity': lambda n: K.ActivityRegularization(0.1)}
    for nm, mk in extra.items():
        for at, n in ((0, 2), (1, 3), (2, 3)):
            l = [dense(net, 0, 'relu'), dense(net, 1, 'softmax')]
            l.insert(at, (nm, mk(n)))
            yield f'layer:{nm}:{at}', l, None, False


LARGE = r'''
#include <eml_net.h>
/* integer weights: every sum is exact in single precision, so the outputs are known exactly */
static int wt(long i) { return (int)((i*7919) % 5) - 2; }
static void layer(int ni, int no, int depth, int at) {
    const long nw = (long)ni*no;
    float *w = mc_buf(sizeof(float)*nw), *b = mc_buf(sizeof(float)*no), *in = mc_buf(sizeof(float)*ni), *out = mc_buf(sizeof(float)*no);
    long *want = calloc(no, sizeof(long));
    for (long i=0; i<nw; i++) w[i] = wt(i);
    for (int i=0; i<ni; i++) in[i] = (i % 13)-4;
    for (int o=0; o<no; o++) { b[o] = o % 7; want[o] = o % 7; }
    for (int i=0; i<ni; i++) for (int o=0; o<no; o++) want[o] += (long)wt((long)i*no+o)*((i % 13)-4);
    mc_states++; mc_transitions += no; mc_traces++;
    EmlError e = eml_net_forward(in, ni, w, b, EmlNetActivationIdentity, out, no);
    for (int o=0; o<no && !e; o++) if (out[o] != (float)want[o]) { mc_fail("large-layer", "%d inputs, %d outputs: output %d is %g, expected %ld", ni, no, o, out[o], want[o]); break; }
    if (e) mc_fail("large-layer", "%d inputs, %d outputs: error %d", ni, no, (int)e);
    /* the layer as first, middle or last one of a network of identity maps */
    int most = ni > no ? ni : no; EmlNetLayer L[3]; int n = 0;
    float *one = mc_buf(sizeof(float)), *zero = mc_buf(sizeof(float)), *big1 = mc_buf(sizeof(float)*most), *fan = mc_buf(sizeof(float)*ni), *fanb = mc_buf(sizeof(float)*ni); *one = 1; *zero = 0;
    float *sumw = mc_buf(sizeof(float)*no); for (int o=0; o<no; o++) sumw[o] = o % 3-1; long sum = 0; for (int o=0; o<no; o++) sum += (o % 3-1)*want[o];
    for (int i=0; i<ni; i++) { fan[i] = (i % 13)-5; fanb[i] = 1; }           /* from an input of 1 to `in` */
    EmlNetLayer big = { no, ni, w, b, EmlNetActivationIdentity }, spread = { ni, 1, fan, fanb, EmlNetActivationIdentity }, gather = { 1, no, sumw, zero, EmlNetActivationIdentity };
    if (at == 0) { L[0] = big; L[1] = gather; n = 2; } else if (at == 1) { L[0] = spread; L[1] = big; L[2] = gather; n = 3; } else { L[0] = spread; L[1] = big; n = 2; }
    float *a1 = mc_buf(sizeof(float)*most), *a2 = mc_buf(sizeof(float)*most);
    EmlNet net = { n, L, a1, a2, most };
    float *res = mc_buf(sizeof(float)*(at == 2 ? no : 1));
    e = eml_net_regress(&net, at == 0 ? in : one, at == 0 ? ni : 1, res, at == 2 ? no : 1);
    mc_transitions++;
    if (e) mc_fail("large-net", "%d inputs, %d outputs, position %d: error %d", ni, no, at, (int)e);
    else if (at == 2) { for (int o=0; o<no; o++) if (res[o] != (float)want[o]) { mc_fail("large-net", "%d inputs, %d outputs, last: output %d is %g, expected %ld", ni, no, o, res[o], want[o]); break; } }
    else if (labs(sum) < (1 << 24) && res[0] != (float)sum) mc_fail("large-net", "%d inputs, %d outputs, position %d: %g, expected %ld", ni, no, at, res[0], sum);
    if (at == 2 && no > 1 && !e) { /* class: first of the largest outputs, or any of them */
        const int k = eml_net_predict(&net, one, 1); long top = want[0]; for (int o=1; o<no; o++) if (want[o] > top) top = want[o];
        if (k < 0 || k >= no || want[k] != top) mc_fail("large-class", "%d inputs, %d outputs: class %d", ni, no, k);
    }
    free(res); free(a1); free(a2); free(sumw); free(fanb); free(fan); free(big1); free(zero); free(one); free(want); free(out); free(in); free(b); free(w);
}
int main(int argc, char **argv) {
    const int part = atoi(argv[1]), thorough = atoi(argv[2]); int k = 0;
    static const int S[][2] = { {11,11},{11,12},{15,17},{16,16},{16,17},{2,127},{2,128},{127,2},{128,2},{1,255},{1,256},{1,257},{255,1},{256,1},{257,1},{181,181},{181,182},{182,180},{128,256},{256,128},{129,256},{255,257},{256,256},{256,257},{257,256},{300,300},
        {1,32767},{1,32768},{1,40000},{32767,1},{32768,1},{40000,1},{2,20000},{20000,2},{1,65535},{1,65536},{1,65537},{65535,1},{65536,1},{65537,1},{2,70000},{70000,2},{400,500},{1000,1000},{1025,1023} };
    for (unsigned q=0; q<sizeof S/sizeof S[0]; q++) for (int at=0; at<3; at++) if (k++ % 8 == part) layer(S[q][0], S[q][1], 2, at);
    /* every product of inputs and outputs up to a bound */
    for (int ni=1; ni<=(thorough ? 300 : 40); ni++) for (int no=1; no<=(thorough ? 300 : 40); no++) if (k++ % 8 == part) layer(ni, no, 2, (ni+no) % 3);
    if (thorough) { static const int T[][2] = { {4096,4097},{4097,4096},{5000,4000},{1,20000000},{20000000,1} }; for (unsigned q=0; q<5; q++) for (int at=0; at<3; at++) if (k++ % 8 == part) layer(T[q][0], T[q][1], 2, at); }
    return mc_end();
}
'''


def judge(c, j, o, Y, E, net, kind, key, desc):
    """Y, E: source outputs and error bound; None for E: relative 1e-4"""
    no = j.no
    decisive = numpy.zeros(len(Y), bool)
    if j.values:
        got = o[:, 4:4+no]
        bad = (o[:, 1] != 0) | ~(numpy.abs(got-Y) <= E).all(axis=1)
        what = 'output'
    else:
        bad = numpy.zeros(len(Y), bool); what = ''
    if kind == 'regressor' and j.method == 'loadable' and no == 1:
        bad |= ~(numpy.abs(o[:, 3]-Y[:, 0]) <= E[:, 0])
    if kind == 'classifier':
        if no == 1:
            want = (Y[:, 0] > 0.5).astype(int)
            decisive = numpy.abs(Y[:, 0]-0.5) > E[:, 0]
        else:
            want = numpy.argmax(Y, axis=1)
            s = numpy.sort(Y, axis=1)
            decisive = (s[:, -1]-s[:, -2]) > 2*E.max(axis=1)
        wrong = decisive & (o[:, 0] != want)
        if wrong.any():
            bad |= wrong; what += ' class'
    c.count('decisive-rows', int(decisive.sum()))
    if bad.any():
        r = numpy.nonzero(bad)[0][0]
        c.violation(f'{key}:{j.method}', **desc, method=j.method, what=what, features=j.X[r][:20].tolist(), expected=Y[r][:20].tolist(), bound=E[r][:20].tolist(),
                    got=dict(cls=o[r][0], err=o[r][1], regress1=o[r][3], outputs=o[r][4:4+min(no, 20)].tolist()), bad_rows=int(bad.sum()))


def run(c):
    import emlearn
    c.assume('scikit-learn / Keras forward pass in double/single precision is the reference',
             'tolerance: rigorous forward error bound of single-precision evaluation, propagated through the layers')
    jobs, info = [], []
    with nl.no_compile():
        for i, (tag, kind, net) in enumerate(sk_programs(c)):
            m = nl.sk_model(net, kind)
            X = nl.grid(net.sizes[0], VALUES if net.sizes[0] < 4 else VALUES[1:-1], limit=c.pick(130, 700))
            Y, E = net.forward(X)
            src = m.predict_proba(X) if kind == 'classifier' else m.predict(X).reshape(len(X), -1)
            if kind == 'classifier' and net.sizes[-1] == 1:
                src = src[:, 1:]
            if not (numpy.abs(src-Y) <= 1e-9*(1+numpy.abs(Y))).all():
                from mc.core import Harness
                raise Harness(f'reference mismatch {net.describe()}')
            c.states += 1
            c.count(tag)
            for method in ('loadable', 'inline') if kind == 'classifier' else ('loadable',):
                name = f'n{i}_{method[0]}'
                w = emlearn.convert(m, method=method, return_type=kind)
                jobs.append(nl.Job(w.save(name=name), name, method, net.sizes[0], net.sizes[-1], X, (tag, kind, net.describe())))
                info.append((Y, E, net, kind, f'{tag}:{net.sizes}:{net.activations[0]}:{net.activations[-1]}:{net.pattern}', net.describe()))
        c.log('scikit-learn models', len(jobs))
        n_ref = 0
        for i, (tag, layers, net, must) in enumerate(keras_programs(c)):
            n_in = next(l for l in layers if l[0] == 'dense')[1].shape[0]
            n_out = [l for l in layers if l[0] == 'dense'][-1][1].shape[1]
            km = nl.keras_model(layers, n_in)
            X = nl.grid(n_in, [-20.0, -3.0, -0.5, 0.0, 0.25, 1.0, 5.0], limit=60)
            Y = numpy.array(km(X.astype('float32'))).astype(float)
            c.states += 1
            c.count('keras')
            for kind, method in (('classifier', 'loadable'), ('classifier', 'inline'), ('regressor', 'loadable')):
                if c.quick and kind == 'regressor' and i % 4:
                    continue
                if n_out == 1 and kind == 'classifier' and net is not None and net.activations[-1] != 'logistic':
                    continue
                name = f'k{i}_{method[0]}{kind[0]}'
                try:
                    code = emlearn.convert(km, method=method, return_type=kind).save(name=name)
                except Exception as e:
                    n_ref += 1
                    c.transitions += 1
                    if must:
                        c.violation(f'keras:{tag}:refused', layers=[(l[0], l[3]) if l[0] == 'dense' else l for l in layers], method=method, kind=kind, error=f'{type(e).__name__}: {e}')
                    continue
                if net is not None:
                    _, E = net.forward(X)
                    E = 2*E + 1e-6
                else:
                    E = 1e-4*(1+numpy.abs(Y))
                jobs.append(nl.Job(code, name, method, n_in, n_out, X, ('keras', tag, method)))
                info.append((Y, E, net, kind, f'keras:{tag}', dict(layers=[(l[0], str(l[3])) if l[0] == 'dense' else str(l) for l in layers])))
    c.count('keras-refused', n_ref)
    c.log('models', len(jobs))
    outs = nl.run_jobs(c, jobs)
    for j, o, (Y, E, net, kind, key, desc) in zip(jobs, outs, info):
        c.transitions += len(o); c.traces += len(o)
        judge(c, j, o, Y, E, net, kind, key, desc)
    k = len(jobs)//3
    c.sample(model=jobs[k].tag, input=jobs[k].X[1], outputs=outs[k][1], expected=info[k][0][1])
    # end to end through Python
    todo = []
    for kind, sizes, act, oa in (('classifier', [2, 3, 1], 'relu', 'logistic'), ('classifier', [3, 2, 4, 3], 'tanh', 'softmax'), ('regressor', [2, 4, 1], 'logistic', 'identity')):
        net = nl.Net(sizes, [act]*(len(sizes)-2)+[oa], 'distinct')
        for method in ('loadable', 'inline', None):
            if kind == 'regressor' and method == 'inline':
                continue
            todo.append((kind, net, method, nl.sk_model(net, kind)))
    def one(t):
        kind, net, method, m = t
        X = nl.grid(net.sizes[0], VALUES[:6], limit=216)
        return X, numpy.array(emlearn.convert(m, method=method, return_type=kind).predict(X))
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, todo))
    for (kind, net, method, m), (X, got) in zip(todo, res):
        Y, E = net.forward(X)
        c.states += 1; c.transitions += len(X); c.traces += len(X)
        if kind == 'regressor':
            bad = ~(numpy.abs(got-Y[:, 0]) <= E[:, 0]+1e-6)
        elif net.sizes[-1] == 1:
            bad = (got != (Y[:, 0] > 0.5)) & (numpy.abs(Y[:, 0]-0.5) > E[:, 0])
        else:
            s = numpy.sort(Y, axis=1)
            bad = (got != numpy.argmax(Y, axis=1)) & ((s[:, -1]-s[:, -2]) > 2*E.max(axis=1))
        if got.shape != (len(X),) or bad.any():
            c.violation(f'python:{kind}:{net.sizes}:{method}', got=got.tolist(), want=Y.tolist())
    exe = drive.build(c, 'large', LARGE, extra=['-O1'])
    drive.run_many(c, exe, [(str(i), c.pick('0', '1')) for i in range(8)], 'large', workers=c.pick(8, 4))
    c.bound(large_layers='integer weights, every shape to 40x40 (300x300 thorough), ladder to 70000 weights per side and 1025x1023', hidden_layers_exhaustive='1 (2 and 3 strided)', widths=c.pick('1,2,3,5', '1..7'), ladders='width 8..257, depth 4..16, outputs 2..257')
