"""C17 transport between Python and C: rows, features, magnitudes, text forms and containers; the Python answer equals that of the saved code run in C."""
import itertools
from concurrent.futures import ThreadPoolExecutor
import numpy
from mc import batch, ccache, treelib as tl
from mc.treelib import soft

MAG = [0.0, 1.0, -1.0, 0.1, 1/3, -2/3, 1e-3, 1.5e-5, -7.25e-7, 1.2345678e-8, 1e-9, -3.3e-12, 1.1754944e-38, 1e-40, -1.4e-45, 16777215.0, 16777216.0, 123456.789, -98765.4321, 1e7, 1e10, -2.5e15, 1e20, 3.4e38, -3.4e38,
       0.30000001192092896, 0.9999999403953552, 1.0000001192092896, -1.2345678901234567e-30, 255.0, 256.0, 32767.0, -32768.0, 1e-5, 1e16, 1e17, 123456789012345680.0]
MAG += [s*float(f'1e{e}') for e in range(-38, 39, 3) for s in (1, -1)]


def ident(nf, k):
    """network that returns feature k"""
    from sklearn.neural_network import MLPRegressor
    m = MLPRegressor(hidden_layer_sizes=(1,), activation='identity')
    W = numpy.zeros((nf, 1)); W[k] = 1.0
    m.coefs_, m.intercepts_ = [W, numpy.ones((1, 1))], [numpy.zeros(1), numpy.zeros(1)]
    m.n_layers_, m.n_outputs_, m.out_activation_, m.n_features_in_, m.n_iter_, m.t_ = 3, 1, 'identity', nf, 1, 1
    return m


def softmax(nf, no):
    from sklearn.neural_network import MLPClassifier
    m = MLPClassifier(hidden_layer_sizes=(2,), activation='tanh')
    a = numpy.arange
    m.coefs_ = [((a(nf*2) % 5)-2.0).reshape(nf, 2)*0.3, ((a(2*no) % 7)-3.0).reshape(2, no)*0.4]
    m.intercepts_ = [numpy.array([0.1, -0.2]), (a(no) % 3)*0.05]
    m.n_layers_, m.n_outputs_, m.out_activation_, m.n_features_in_, m.n_iter_, m.t_ = 3, no, 'softmax', nf, 1, 1
    m.classes_ = a(no)
    return m


def rows(n, nf, values):
    """distinct rows; every value passes through the first, middle and last feature"""
    i = numpy.arange(n*nf).reshape(n, nf)
    return numpy.array(values, float)[(i*7 + i//nf*3) % len(values)]


def single(X):
    with numpy.errstate(over='ignore', under='ignore'):
        return numpy.asarray(X, numpy.float32).astype(float)


def same(got, want):
    got, want = numpy.asarray(got, float), numpy.asarray(want, float)
    return got.shape == want.shape and bool((numpy.abs(got-want) <= 1e-6*numpy.abs(want) + 1.5e-45).all())


def differ(got, want):
    got, want = numpy.asarray(got, float).ravel(), numpy.asarray(want, float).ravel()
    if got.shape != want.shape:
        return dict(got_shape=got.shape, want_shape=want.shape, got=got[:6], want=want[:6])
    i = numpy.nonzero(~(numpy.abs(got-want) <= 1e-6*numpy.abs(want) + 1.5e-45))[0]
    return dict(index=i[:5], got=got[i[:5]], want=want[i[:5]])


def run(c):
    import emlearn, pandas
    ccache.install(c)
    c.assume('values are representable in the feature type of the model', 'single precision: a relative difference of 1e-6')
    pool = ThreadPoolExecutor(8)
    # ---- 1. feature counts x feature position: value of one feature comes back
    ladder = list(range(1, 12)) + [16, 31, 32, 33, 63, 64, 65, 81, 82, 99, 100, 101, 127, 128, 129, 200, 254, 255, 256, 257, 258, 300, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 2047, 2048, 2049, 4000] + c.pick([8000], [8000, 16000, 20000, 32000])
    work = [(nf, k) for nf in ladder for k in sorted({0, nf//2, nf-1})]
    long_text = [-1.2345678901234567e-30, 3.3333333333333335e-05, -0.30000001192092896, 1.7976931348623157e+30, -1.1754943508222875e-38, 123456.78901234567, -9.8765432109876543e-21]
    def one(a):
        nf, k = a
        w = emlearn.convert(ident(nf, k), method='loadable', return_type='regressor')
        bad = []
        for values in (MAG, long_text, [float(v) for v in range(-40, 40)]):
            X = rows(min(40, len(values)) if nf < 2000 else 3, nf, values)
            got = w.predict(X)
            if not same(got, single(X)[:, k]):
                bad.append(dict(features=nf, feature=k, **differ(got, single(X)[:, k])))
        return bad
    for a, bad in zip(work, pool.map(one, work)):
        c.states += 1; c.transitions += 3; c.traces += 3; c.count('feature-positions')
        for b in bad:
            c.violation(f'features:{a[0]}:{a[1]}', **b)
    w = None
    try:
        w = emlearn.convert(ident(40000, 39999), method='loadable', return_type='regressor')
        X = rows(2, 40000, MAG[:9])
        got = w.predict(X)
    except Exception:
        got = None
    c.states += 1; c.transitions += 1
    if got is not None and not same(got, single(X)[:, -1]):
        c.violation('features:40000', **differ(got, single(X)[:, -1]))
    c.log('features')
    # ---- 2. number of rows
    w3 = emlearn.convert(ident(3, 1), method='loadable', return_type='regressor')
    for n in list(range(1, 34)) + [100, 255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 20000] + c.pick([], [100000, 300000]):
        X = rows(n, 3, MAG); X[:, 1] = numpy.arange(n)+0.125
        got = w3.predict(X)
        c.states += 1; c.transitions += n; c.traces += 1
        if not same(got, single(X)[:, 1]):
            c.violation(f'rows:{n}', **differ(got, single(X)[:, 1]))
    # ---- 2b. many rows through every kind and every operation: rows drawn in an irregular order from a few with known answers
    from sklearn.naive_bayes import GaussianNB
    from sklearn.neighbors import KNeighborsClassifier
    from checks import c11, c14, c15
    base = numpy.array([[float(a*3), float(b*5)] for a in range(-4, 13) for b in range(-4, 7)])
    tree = tl.TreeSpec(((None, None), None), [(0, 10.5), (1, 4.5)], [soft(0, 3), soft(1, 3), soft(2, 3)])
    many = dict(tree=emlearn.convert(tl.sk_estimator('RandomForestClassifier', [tree, tree], 2, 3), method='inline', leaf_bits=8), loadable=emlearn.convert(tl.sk_estimator('RandomForestClassifier', [tree, tree], 2, 3), method='loadable'),
                regressor=emlearn.convert(tl.sk_estimator('DecisionTreeRegressor', [tl.TreeSpec(((None, None), None), [(0, 10.5), (1, 4.5)], [[1.5], [-2.5], [1e-9]])], 2, 0), method='inline'),
                net=emlearn.convert(softmax(2, 3), method='loadable'), bayes=emlearn.convert(c11.model([[0.0, 0.0], [9.0, 9.0], [30.0, -9.0]], [[20.0, 30.0]]*3)),
                neighbors=emlearn.convert(KNeighborsClassifier(n_neighbors=1, algorithm='brute').fit([[0, 0], [9, 9], [30, -9]], [0, 1, 2])),
                elliptic=emlearn.convert(c14.model(numpy.array([0.25, 3.0]), numpy.eye(2)*1e-2, -2.0), method='inline'),
                mixture=emlearn.convert(c15.gmm('diag', [[0.0, 0.0], [9.0, 9.0], [30.0, -9.0]], [[20.0, 30.0]]*3, [0.25, 0.25, 0.5])))
    def rowcount(a):
        kind, n = a
        w, bad = many[kind], []
        pick = (numpy.arange(n)*37 + numpy.arange(n)//len(base)*11) % len(base)
        ops = ['predict'] + [o for o in ('predict_proba', 'score_samples', 'predict_log_proba', 'mahalanobis') if hasattr(w, o) and kind not in ('regressor', 'bayes', 'neighbors')]
        for o in ops:
            few, got = numpy.asarray(getattr(w, o)(base), float), numpy.asarray(getattr(w, o)(base[pick]), float)
            if got.shape != few[pick].shape or not numpy.array_equal(got, few[pick], equal_nan=False):
                bad.append(dict(operation=o, **differ(got, few[pick])))
        return len(ops), bad
    for a, (k, bad) in zip(work2 := [(kind, n) for n in (1, 2, 700, 3000, 70000) + c.pick((), (140000, 400000)) for kind in many if kind != 'mixture' or n <= c.pick(700, 3000)], pool.map(rowcount, work2)):
        c.states += 1; c.transitions += a[1]*k; c.traces += k; c.count('row-counts')
        for b in bad:
            c.violation(f'rows:{a[0]}:{a[1]}', **b)
    c.log('rows')
    # ---- 3. every magnitude on every feature of a small model, alone and beside another
    for k in range(3):
        wk = w3 if k == 1 else emlearn.convert(ident(3, k), method='loadable', return_type='regressor')
        P = numpy.array(list(itertools.product(MAG, repeat=2)))
        for other in (0.0, -1.2345678e-8, 1e20):
            X = numpy.full((len(P), 3), other); X[:, k] = P[:, 0]; X[:, (k+1) % 3] = P[:, 1]
            got = wk.predict(X)
            c.states += 1; c.transitions += len(X); c.traces += 1
            if not same(got, single(X)[:, k]):
                c.violation(f'magnitude:{k}', **differ(got, single(X)[:, k]))
        c.sample(model=f'network returning feature {k} of 3', input=P[40], output=got[40])
    # ---- 4. containers
    X = rows(12, 3, [float(v) for v in range(-100, 100, 7)])
    big = numpy.zeros((24, 6)); big[::2, ::2] = X
    neg = X[::-1]
    for name, Z in dict(list=X.tolist(), tuple=tuple(map(tuple, X.tolist())), float32=X.astype('f4'), float16=X.astype('f2'), int64=X.astype('i8'), int8=X.astype('i1'), int32=X.astype('i4'), fortran=numpy.asfortranarray(X),
                        strided=big[::2, ::2], reversed=neg[::-1], bigendian=X.astype('>f8'), pandas=pandas.DataFrame(X, columns=list('abc')), pandas_index=pandas.DataFrame(X, index=range(50, 38, -1)),
                        readonly=X.copy(), matrix_row=X[:1], object=X.astype(object)).items():
        if name == 'readonly': Z.setflags(write=False)
        got = w3.predict(Z)
        c.states += 1; c.transitions += 1; c.traces += 1; c.count('containers')
        if not same(got, X[:len(Z), 1]):
            c.violation(f'container:{name}', **differ(got, X[:len(Z), 1]))
    B = numpy.array([[True, False, True], [False, True, True]])
    if not same(w3.predict(B), B[:, 1].astype(float)):
        c.violation('container:bool', got=w3.predict(B))
    for name, Z in dict(one_dimension=[1.0, 2.0, 3.0], scalar=5.0, three_dimensions=numpy.zeros((2, 3, 1)), no_rows=numpy.zeros((0, 3)), nan=[[1.0, float('nan'), 2.0]], inf=[[1.0, float('inf'), 2.0]], text=[['a', 'b', 'c']],
                        few=[[1.0, 2.0]], many=[[1.0, 2.0, 3.0, 4.0]], no_columns=numpy.zeros((2, 0))).items():
        c.states += 1; c.transitions += 1; c.traces += 1
        try:
            got = w3.predict(Z)
        except Exception:
            continue
        c.violation(f'container-not-refused:{name}', got=got)
    c.log('containers')
    # ---- 5. every kind of model: the Python answer is that of the saved code
    jobs, ws = [], []
    def add(est, X, name, no, body, ctype='float', call=None, **kw):
        jobs.append((est, numpy.asarray(X, float), name, no, body, ctype, call, kw))
    P2 = 'float p[{nc}]; {n}_predict_proba(f, {nf}, p, {nc}); o[0] = {n}_predict(f, {nf}); for (int i=0; i<{nc}; i++) o[1+i] = p[i];'
    both = lambda w, X: numpy.column_stack([w.predict(X), w.predict_proba(X)])
    n = 0
    ints = [-32768.0, -1.0, 0.0, 1.0, 7.0, 100.0, 32767.0]
    for nc in (2, 3, 9, 10, 11, 29, 30):
        for nf in (1, 2, 9, 127):
            for bits in (0, 8):
                for method in ('inline', 'loadable'):
                    tree = tl.TreeSpec(tl.comb(nc-1, 0), tl.comb_splits(nc-1, 0), [soft(k, nc) for k in range(nc)])
                    flat = tl.TreeSpec((None, None), [(nf-1, 0.5)], [soft(0, nc), soft(nc-1, nc)])
                    n += 1
                    if c.quick and n % 2: continue
                    X = numpy.concatenate([rows(30, nf, ints), rows(nc+2, nf, [float(v) for v in range(nc+1)])])
                    add(tl.sk_estimator('RandomForestClassifier', [tree, flat, flat], nf, nc), X, f't{n}', 1+nc, P2.format(nc=nc, n=f't{n}', nf=nf), 'int16_t', both, method=method, leaf_bits=bits)
    vals = [1e-38, -1e-38, 3e38, -3e38, 1.2345678, 1/3, 1e-7, 123456789.0, -0.1, 0.0, 1e-10, 2e9]
    for i, v in enumerate(vals):
        for method in ('inline', 'loadable'):
            n += 1
            est = tl.sk_estimator('DecisionTreeRegressor', [tl.TreeSpec((None, None), [(0, 0.5)], [[v], [v/7]])], 2, 0)
            add(est, rows(6, 2, ints), f't{n}', 1, f'o[0] = t{n}_predict(f, 2);', 'int16_t', lambda w, X: numpy.reshape(w.predict(X), (-1, 1)), method=method)
    for thr in (1e-30, 1e-8, 0.1, 1e20, -1e-20, 3e38):
        n += 1
        est = tl.sk_estimator('DecisionTreeClassifier', [tl.TreeSpec((None, None), [(1, thr)], [soft(0, 2), soft(1, 2)])], 2, 2)
        t32 = numpy.float32(thr)
        near = [float(numpy.nextafter(t32, numpy.float32(d))) for d in (-numpy.inf, numpy.inf)] + [float(t32), 0.0, float(thr*2) if abs(thr) < 1e38 else 0.0, float(thr/2)]
        add(est, [[0.0, v] for v in near] + [[v, near[0]] for v in near], f't{n}', 3, P2.format(nc=2, n=f't{n}', nf=2), 'float', both, method='inline', dtype='float')
    for nf, no in ((1, 2), (2, 3), (3, 10), (5, 64), (300, 4), (2, 100), (2, 257), (4, 300)):
        n += 1
        Xs = rows(20, nf, [0.0, 1.0, -1.0, 0.1, 1e-8, 3.25, -40.0, 1e5, 2.5e-4])
        add(softmax(nf, no), Xs, f't{n}', 1+no, f'float p[{no}]; eml_net_predict_proba(&t{n}, f, {nf}, p, {no}); o[0] = eml_net_predict(&t{n}, f, {nf}); for (int i=0; i<{no}; i++) o[1+i] = p[i];', 'float', both, method='loadable')
        n += 1
        add(softmax(nf, no), Xs, f't{n}', 1, f'o[0] = t{n}_predict(f, {nf});', 'float', lambda w, X: numpy.reshape(w.predict(X), (-1, 1)), method='inline')
    from sklearn.naive_bayes import GaussianNB
    from sklearn.neighbors import KNeighborsClassifier
    from checks import c11, c14, c15
    for nf, nc in ((1, 2), (3, 14), (257, 3), (400, 2)):
        n += 1
        m = c11.model([[(k*5+f) % 13-3.0 for f in range(nf)] for k in range(nc)], [[1.0+f % 3 for f in range(nf)]]*nc)
        add(m, rows(25, nf, [0.0, 1.0, 0.1, -3.7, 1e-4, 100.5, -2e4, 1/3]), f't{n}', 1, f'o[0] = t{n}_predict(f, {nf});', 'float', lambda w, X: numpy.reshape(w.predict(X), (-1, 1)))
    for nf in (1, 4, 300):
        n += 1
        m = KNeighborsClassifier(n_neighbors=1, algorithm='brute').fit(rows(9, nf, ints+[3.0, 11.0]), [k % 9 for k in range(9)])
        add(m, rows(25, nf, ints+[5.0]), f't{n}', 1, f'EmlNeighborsDistanceItem d[9]; int16_t out; if (eml_neighbors_predict(&t{n}, f, {nf}, d, 9, &out) != 0) out = -1; o[0] = out;', 'int16_t', lambda w, X: numpy.reshape(w.predict(X), (-1, 1)))
    for nf in (1, 3, 65, 300):
        n += 1
        add(c14.model(numpy.arange(nf)*0.25, numpy.eye(nf)*1e-3, -5.0), rows(25, nf, [0.0, 1.0, 0.1, -3.7e3, 1e-8, 1e9, -2e-20, 1/3]), f't{n}', 1, f'o[0] = t{n}_predict(f, {nf});', 'float', lambda w, X: numpy.reshape(w.mahalanobis(X), (-1, 1)), method='inline')
    for nf, k in ((1, 1), (3, 2), (20, 3), (300, 2), (2, 40)):
        n += 1
        add(c15.gmm('diag', [[ci*1.5+f % 3 for f in range(nf)] for ci in range(k)], [[1.0+f % 2 for f in range(nf)]]*k, [1.0/k]*k), rows(8, nf, [0.0, 1.0, 0.1, -3.7, 1e-8, 40.0, -2e-20, 1/3]), f't{n}', 1+2*k,
            f'float p[{k}], q[{k}], s; t{n}_predict_proba(f, {nf}, p, &s, q); o[0] = s; for (int i=0; i<{k}; i++) {{ o[1+i] = p[i]; o[1+{k}+i] = q[i]; }}', 'float', lambda w, X: numpy.column_stack([w.score_samples(X), w.predict_log_proba(X), w.predict_proba(X)]))
    def conv(j):
        w = emlearn.convert(j[0], **j[7])
        return w.save(name=j[2]), j[6](w, j[1])
    res = list(pool.map(conv, jobs))
    outs = batch.run_jobs(c, [batch.Job(code, j[4], j[1].shape[1], j[3], j[1], j[5], tag=j[2]) for j, (code, _) in zip(jobs, res)], chunk=30)
    for j, (code, got), o in zip(jobs, res, outs):
        c.states += 1; c.transitions += len(o); c.traces += len(o); c.count(type(j[0]).__name__)
        got = numpy.asarray(got, float)
        if got.shape != o.shape or not (numpy.abs(got-o) <= 2e-6*numpy.abs(o) + 1e-44).all():
            c.violation(f'kind:{type(j[0]).__name__}:{j[7]}:{j[1].shape[1]}', **differ(got, o))
    c.bound(features=f'1..{ladder[-1]}', rows='1..20000 (300000 thorough)', magnitudes='1.4e-45..3.4e38', models=len(jobs)+len(work))
