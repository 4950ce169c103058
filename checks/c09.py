"""C09 class probabilities of networks: enumerate outputs x activations x weights x inputs (including saturating ones) on the generated code."""
import itertools
from concurrent.futures import ThreadPoolExecutor
import numpy
from mc import netlib as nl

HID = ['identity', 'relu', 'logistic', 'tanh']


def programs(c):
    pats = ['small', 'tiny', 'large', 'huge', 'mixed', 'diag', 'zero', 'int', 'distinct']
    for no in [1, 2, 3, 4, 5, 7, 10]:
        for act in HID:
            for pat in pats:
                for hidden in ((3,), (2, 4), (5,)) if c.quick else ((1,), (2,), (3,), (4,), (5,), (2, 4), (4, 2), (3, 3, 3)):
                    yield no, nl.Net([2, *hidden, no], [act]*len(hidden) + ['logistic' if no == 1 else 'softmax'], pat)
    for no in list(range(6, 40)) + [64, 100, 127, 128, 129, 200, 255, 256, 257] + c.pick([], [1000]):
        yield no, nl.Net([2, 3, no], ['tanh', 'softmax'], 'distinct')
        yield no, nl.Net([2, 2, no], ['relu', 'softmax'], 'large')
    # output layer magnitudes around saturation
    for scale in (1e-3, 1.0, 10.0, 16.5, 20.0, 87.0, 88.5, 89.0, 100.0, 103.5, 104.5, 700.0, 1e4, 1e8):
        for no in (1, 2, 3):
            net = nl.Net([1, 1, no], ['identity', 'logistic' if no == 1 else 'softmax'], 'diag')
            net.W[0][:] = 1.0; net.B[0][:] = 0
            net.W[1][:] = scale*(1-numpy.arange(no)); net.B[1][:] = 0
            if no == 1:
                net.W[1][:] = scale
            net.pattern = f'scale{scale}'
            yield no, net


def run(c):
    import emlearn
    c.assume('scikit-learn predict_proba / Keras outputs in float64/float32 are the reference', 'final activation logistic (one output) or softmax')
    jobs, info = [], []
    with nl.no_compile():
        for i, (no, net) in enumerate(programs(c)):
            X = nl.grid(net.sizes[0], [-1e6, -1000.0, -3.0, -1.0, -0.5, 0.0, 0.25, 1.0, 2.0, 50.0, 1e5], limit=130)
            Y, E = net.forward(X)
            use_keras = no == 2 or (no == 1 and i % 10 == 0)
            if use_keras:
                K = {'identity': 'linear', 'logistic': 'sigmoid'}
                m = nl.keras_model([('dense', w, b, K.get(a, a)) for w, b, a in zip(net.W, net.B, net.activations)], net.sizes[0])
            else:
                m = nl.sk_model(net, 'classifier')
                src = m.predict_proba(X)
                if not (numpy.abs((src[:, 1:] if no == 1 else src)-Y) <= 1e-9).all():
                    from mc.core import Harness
                    raise Harness(f'reference {net.describe()}')
            if no == 1:
                Y = numpy.hstack([1-Y, Y]); E = numpy.hstack([E, E]) + 1e-7
            name = f'n{i}'
            c.states += 1
            c.count('keras' if use_keras else 'scikit-learn')
            jobs.append(nl.Job(emlearn.convert(m, method='loadable').save(name=name), name, 'loadable', net.sizes[0], no, X, net.describe()))
            info.append((Y, E, net, no))
    c.log('models', len(jobs))
    outs = nl.run_jobs(c, jobs)
    for j, o, (Y, E, net, no) in zip(jobs, outs, info):
        c.transitions += len(o); c.traces += len(o)
        P = o[:, 4+no:4+no+j.np]
        cls = o[:, 0].astype(int)
        checks = [('error', o[:, 2] != 0), ('range', ~((P >= 0) & (P <= 1)).all(axis=1)), ('sum', ~(numpy.abs(P.sum(axis=1)-1) <= 1e-4)),
                  ('value', ~(numpy.abs(P-Y) <= E).all(axis=1)), ('class-range', (cls < 0) | (cls >= j.np))]
        ok = ~checks[-1][1]
        mism = numpy.zeros(len(P), bool)
        mism[ok] = P[ok, cls[ok]] < P[ok].max(axis=1)-1e-6
        checks.append(('argmax', mism))
        c.count('saturated-rows', int((P.max(axis=1) >= 1).sum()))
        for what, bad in checks:
            if bad.any():
                r = numpy.nonzero(bad)[0][0]
                c.violation(f'{what}:{net.sizes}:{net.activations[0]}:{net.pattern}', **net.describe(), what=what, features=j.X[r].tolist(), probabilities=P[r][:20].tolist(),
                            expected=Y[r][:20].tolist(), bound=E[r][:20].tolist(), predicted=int(cls[r]), status=o[r][2], bad_rows=int(bad.sum()))
                break
    k = len(jobs)//4
    c.sample(model=jobs[k].tag, input=jobs[k].X[1], probabilities=outs[k][1][4+info[k][3]:], expected=info[k][0][1])
    # Python API, every output count 1..4 and both front ends
    todo = []
    for no in (1, 2, 3, 4):
        net = nl.Net([2, 3, no], ['tanh', 'logistic' if no == 1 else 'softmax'], 'large')
        K = {'identity': 'linear', 'logistic': 'sigmoid'}
        todo.append((no, net, nl.keras_model([('dense', w, b, K.get(a, a)) for w, b, a in zip(net.W, net.B, net.activations)], 2)))
        if no != 2:
            todo.append((no, net, nl.sk_model(net, 'classifier')))
    def one(t):
        X = nl.grid(2, [-3.0, -0.5, 0.0, 0.1, 0.4, 50.0])
        w = emlearn.convert(t[2])
        return X, numpy.array(w.predict_proba(X)), numpy.array(w.predict(X))
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, todo))
    for (no, net, m), (X, P, cls) in zip(todo, res):
        Y, E = net.forward(X)
        if no == 1:
            Y = numpy.hstack([1-Y, Y]); E = numpy.hstack([E, E])
        c.states += 1; c.transitions += len(X); c.traces += len(X)
        if P.shape != Y.shape or not (numpy.abs(P-Y) <= E+1e-6).all() or (P[numpy.arange(len(P)), cls] < P.max(axis=1)-1e-6).any():
            c.violation(f'python:{no}:{type(m).__name__}', X=X[:5].tolist(), proba=P[:5].tolist(), expected=Y[:5].tolist(), cls=cls[:5].tolist())
    c.bound(outputs='1..257', patterns=9, hidden='1..3 layers')
