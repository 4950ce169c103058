"""C11 Gaussian Naive Bayes: enumerate means x deviations x classes x features x inputs; fixed-point error bound decides which rows are decisive."""
import itertools
from concurrent.futures import ThreadPoolExecutor
import numpy
from mc import big, batch
from mc.netlib import no_compile

U = 2.0**-16
A, C0 = 0.7213475204444817, 1.3257480647361592


def model(theta, std, prior=None):
    from sklearn.naive_bayes import GaussianNB
    theta = numpy.array(theta, float)
    m = GaussianNB()
    m.theta_ = theta
    m.var_ = numpy.array(std, float)**2
    n = len(theta)
    m.classes_ = numpy.arange(n)
    m.class_prior_ = numpy.array(prior if prior is not None else [1.0/n]*n)
    m.class_count_ = m.class_prior_*100
    m.n_features_in_ = theta.shape[1]
    m.epsilon_ = 1e-9
    return m


def reference(m, X):
    """log2 joint density per class and the bound of the fixed-point evaluation error (inf where the format saturates)"""
    mean, std = m.theta_, numpy.sqrt(m.var_)
    d = numpy.abs(X[:, None, :] - mean[None])                # rows, classes, features
    z = d/std
    logp = -A*z*z - C0 - numpy.log2(std)
    ds = 2.1*U                                               # truncation of input and mean (and single-precision input)
    with numpy.errstate(divide='ignore', invalid='ignore'):
        low = std - U
        zmax = numpy.where(low > 0, (d+ds)/numpy.maximum(low, 1e-12), numpy.inf) + U
        dz = zmax - z
        zz = zmax*zmax
        e = A*(zz - z*z) + 2.5*U*zz*1.0 + 6*U                # a is truncated to 16 bits: relative to zz
    e = numpy.where((d >= 32766) | (zmax >= 32766), numpy.inf, e)
    lp = logp.sum(axis=2) + numpy.log2(m.class_prior_)
    return lp, e.sum(axis=2) + 2*U


def programs(c):
    means = [0.0, 1.0, -2.5, 100.25, -1000.0, 20000.0]
    stds = c.pick([0.01, 0.5, 1.0, 3.0, 100.0, 5000.0], [0.001, 0.01, 0.05, 0.5, 1.0, 1.5, 3.0, 100.0, 5000.0, 30000.0])
    P = list(itertools.product(means, stds))
    # two classes, one feature: every pair of distributions
    for (m1, s1), (m2, s2) in itertools.product(P, repeat=2):
        yield 'pair', model([[m1], [m2]], [[s1], [s2]])
    # two classes, two features: every assignment from small grids
    g = [(0.0, 1.0), (2.0, 0.5), (-30.0, 10.0)]
    for a in itertools.product(g, repeat=4):
        yield 'two-features', model([[a[0][0], a[1][0]], [a[2][0], a[3][0]]], [[a[0][1], a[1][1]], [a[2][1], a[3][1]]])
    # three classes
    for a in itertools.product(g + [(5.0, 2.0)], repeat=3):
        yield 'three-classes', model([[a[0][0]], [a[1][0]], [a[2][0]]], [[a[0][1]], [a[1][1]], [a[2][1]]])
    # number of classes, through the former limit of 10
    for n in list(range(2, 16)) + [20, 30, 31, 32, 64, 100, 127, 128, 129, 200, 255, 256, 257]:
        for order in (1, -1):
            k = numpy.arange(n)[::order]
            yield 'classes', model((k*10.0-50)[:, None], numpy.full((n, 1), 2.0) + (k % 3)[:, None])
    # number of features
    for nf in list(range(1, 12)) + [16, 31, 32, 33, 64, 127, 128, 129, 200, 300]:
        f = numpy.arange(nf)
        yield 'features', model([f*0.5, -f*0.25+1, (f % 3)*2.0], [1+(f % 4), 2+(f % 3), 0.5+(f % 2)])
    # priors
    for pr in ([0.5, 0.5], [0.9, 0.1], [0.01, 0.99], [0.999, 0.001], [1e-6, 1-1e-6]):
        for a in itertools.product(g, repeat=2):
            yield 'prior', model([[a[0][0]], [a[1][0]]], [[a[0][1]], [a[1][1]]], pr)
            yield 'prior', model([[a[0][0], 1.0], [a[1][0], 1.5]], [[a[0][1], 3.0], [a[1][1], 2.0]], pr)
    yield 'prior', model([[0.0], [1.0], [2.0]], [[1.0]]*3, [0.2, 0.1, 0.7])
    # a class far behind on one value that is ahead with the rest: the far value first, in the middle, last; every order of the classes
    for nf, std in ((12, 2.0**-7), (24, 2.0**-7), (40, 2.0**-6)):
        for far in (0, nf//2, nf-1):
            for sigmas in (11.0, 16.0, 20.0):
                wide = (numpy.full(nf, 0.5), numpy.full(nf, 16.0))
                narrow = (numpy.zeros(nf), numpy.where(numpy.arange(nf) == far, 1.0, std))
                third = (numpy.where(numpy.arange(nf) == far, sigmas, 30.0), numpy.full(nf, 4.0))
                rows = [numpy.where(numpy.arange(nf) == far, s*sigmas, 0.0) for s in (1, -1)] + [wide[0], narrow[0]]
                for ks in list(itertools.permutations((wide, narrow))) + list(itertools.permutations((wide, narrow, third))):
                    m = model([k[0] for k in ks], [k[1] for k in ks])
                    m.mc_rows = numpy.array(rows)
                    yield 'comeback', m
    # tiny deviations, extremes
    for s in (2**-15, 2**-14, 3e-4, 1e-3):
        yield 'tiny', model([[0.0], [1.0]], [[s], [s]])
        yield 'tiny', model([[0.0], [1.0]], [[s], [1.0]])
        yield 'tiny', model([[5.0, 0.0], [5.0, 1.0]], [[s, 1.0], [s, 1.0]])
    for mu in (32767.0, -32767.0, 30000.5):
        yield 'limit', model([[mu], [0.0]], [[10.0], [10.0]])
        yield 'limit', model([[mu], [-mu]], [[1000.0], [500.0]])
    # what the format cannot hold: refused, or right where the reference can tell
    for mu in (32768.0, -32768.5, 33000.0, -40000.0, 65536.0, 98304.0, 1e6, -1e9):
        for s in (10.0, 1000.0, 20000.0):
            yield 'beyond', model([[mu], [0.0]], [[s], [s]])
            yield 'beyond', model([[0.0, 5.0], [1.0, mu]], [[3.0, s], [2.0, s]])
    for s in (32768.0, 40000.0, 65536.0, 65537.0, 1e6, 2**-17, 1e-6):
        yield 'beyond', model([[0.0], [100.0]], [[s], [10.0]])
        yield 'beyond', model([[0.0, 1.0], [100.0, -3.0]], [[50.0, 10.0], [10.0, s]])
    for pr in ([0.0, 1.0], [1.0, 0.0], [0.0, 0.5, 0.5]):
        yield 'beyond', model([[5.0*k] for k in range(len(pr))], [[1.0+k] for k in range(len(pr))], pr)


def inputs(m, nf, limit):
    vals = set()
    for f in range(nf):
        for mu, sd in zip(m.theta_[:, f], numpy.sqrt(m.var_[:, f])):
            for k in (0, 1, -1, 2.5, -6, 30):
                vals.add(float(numpy.float32(mu+k*sd)))
    vals |= {0.0, 0.5, -32767.0, 32767.0, 1000.0, -5.0, 7.25}
    vals = sorted(v for v in vals if abs(v) < 32767.5)
    if len(vals) > 60:
        vals = vals[::max(1, len(vals)//60)]
    if nf == 1:
        return numpy.array(vals)[:, None]
    if nf == 2:
        v = vals[::max(1, len(vals)//9)]
        return numpy.array(list(itertools.product(v, repeat=2)))
    rows = []
    for k in range(len(m.theta_)):
        for d in (0.0, 0.3, -1.0, 5.0):
            rows.append(m.theta_[k]+d)
            rows.append(m.theta_[k]+d*(1-2*(numpy.arange(nf) % 2)))
    for v in vals[:20]:
        rows.append([v]*nf)
    rows.extend(getattr(m, 'mc_rows', ()))
    return numpy.array(rows, numpy.float32).astype(float)


BODY = r'''
        o[0] = %(n)s_predict(f, %(nf)d);
        o[1] = 0;
        if (r < 2) { const int bad[] = {-1, 0, %(nf)d-1, %(nf)d+1, %(nf)d+256, -%(nf)d};
            for (int q=0; q<6; q++) { const int len = bad[q]; if (len == %(nf)d) continue;
                float *g = malloc(sizeof(float)*(len > 0 ? len : 0)); for (int k=0; k<len; k++) g[k] = f[0];
                if (%(n)s_predict(g, len) >= 0) o[1] = 1; free(g); } }
        for (int k=0; k<%(nf)d; k++) if (f[k] != (float)in[(size_t)r*%(nf)d+k]) o[1] = 2;
        if (%(n)s_predict(f, %(nf)d) != o[0]) o[1] = 3;
'''


def run(c):
    import emlearn
    c.assume('joint log density of scikit-learn GaussianNB in float64 is the reference',
             'error bound: truncation of inputs, means, deviations and constants to Q16.16; rows where the format saturates are not decisive')
    jobs, info, tags = [], [], []
    with no_compile():
        for i, (tag, m) in enumerate(programs(c)):
            nf = m.theta_.shape[1]
            X = inputs(m, nf, 200)
            c.states += 1
            c.count(tag)
            name = f'b{i}'
            try:
                code = emlearn.convert(m).save(name=name)
            except Exception:
                if tag != 'beyond': raise
                c.count('refused'); continue
            jobs.append(batch.Job(code, BODY % dict(n=name, nf=nf), nf, 2, X,
                                  tag=dict(tag=tag, mean=m.theta_.tolist()[:6], std=numpy.sqrt(m.var_).tolist()[:6])))
            lp, e = reference(m, X)
            src = m.predict_joint_log_proba(X)/numpy.log(2)
            if i % 20 == 0 and not (numpy.abs((src-src.max(axis=1, keepdims=True))-(lp-lp.max(axis=1, keepdims=True))) <= 1e-6*(1+numpy.abs(lp))).all():
                from mc.core import Harness
                raise Harness('reference')
            info.append((m, lp, e)); tags.append(tag)
    c.log('models', len(jobs))
    outs = batch.run_jobs(c, jobs, chunk=80)
    for i, (j, o, (m, lp, e)) in enumerate(zip(jobs, outs, info)):
        n = lp.shape[1]
        c.transitions += len(o); c.traces += len(o)
        best = numpy.argmax(lp, axis=1)
        rows = numpy.arange(len(lp))
        others = lp + e
        others[rows, best] = -numpy.inf
        decisive = (lp[rows, best]-e[rows, best]) > others.max(axis=1)
        c.count('decisive-rows', int(decisive.sum())); c.count('rows', len(lp))
        bad = (decisive & (o[:, 0] != best)) | (o[:, 1] != 0) | (o[:, 0] < 0) | (o[:, 0] >= n)
        if bad.any():
            r = numpy.nonzero(bad)[0][0]
            c.violation(f'{tags[i]}:{i}', **j.tag, features=j.X[r][:30].tolist(), expected=int(best[r]), got=int(o[r, 0]), flag=int(o[r, 1]),
                        log2_density=lp[r][:20].tolist(), bound=e[r][:20].tolist(), bad_rows=int(bad.sum()),
                        note='flag 1: wrong feature count accepted, 2: input modified, 3: not repeatable')
    k = len(jobs)//2
    c.sample(model=jobs[k].tag, inputs=jobs[k].X[:4], classes=outs[k][:4, 0], log2_density=info[k][1][:4])
    # through Python
    ms = [model([[0.0, 1.0], [3.0, -1.0], [-200.0, 5.0]], [[1.0, 2.0], [0.5, 0.5], [30.0, 1.0]]), model([[float(10*k)] for k in range(14)], [[2.0]]*14)]
    with ThreadPoolExecutor(8) as ex:
        ws = list(ex.map(lambda m: emlearn.convert(m), ms))
    for m, w in zip(ms, ws):
        X = inputs(m, m.theta_.shape[1], 100)
        lp, e = reference(m, X)
        got = numpy.array(w.predict(X))
        s = numpy.sort(lp, axis=1)
        dec = (s[:, -1]-s[:, -2]) > 2*e.max(axis=1)
        c.traces += len(X); c.transitions += len(X); c.states += 1
        if (dec & (got != numpy.argmax(lp, axis=1))).any():
            c.violation('python', got=got.tolist(), want=numpy.argmax(lp, axis=1).tolist())
        for width in (1, 2, 3):
            if width == m.theta_.shape[1]:
                continue
            try:
                r = w.predict(numpy.ones((1, width)))
                c.violation(f'python-length:{width}', got=numpy.array(r).tolist())
            except Exception:
                pass
            c.transitions += 1
    big.large(c, 'bayes')
    c.bound(classes='2..257', features='1..300', models=len(jobs))
