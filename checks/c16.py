"""C16 independence of converted models: every sequence of convert/predict/save/drop/refit over two models of each kind in one process,
and every interleaving (bounded preemptions) of two processes that share a working directory, scheduled at their compiler runs."""
import copy, gc, itertools, json, multiprocessing, os, shutil, subprocess, sys, tempfile
import numpy
from mc import ccache
from mc.core import Harness

X2 = numpy.array([[0, 0], [1, 5], [5, 1], [9, 9], [4, 4], [-3, 7], [100, -50], [200, 200]], float)


def sources(kind):
    """two different models of a kind, conversion arguments, and a way to train a model further"""
    from sklearn.tree import DecisionTreeClassifier, DecisionTreeRegressor
    from sklearn.ensemble import RandomForestClassifier
    from sklearn.neural_network import MLPClassifier, MLPRegressor
    from sklearn.naive_bayes import GaussianNB
    from sklearn.neighbors import KNeighborsClassifier
    from sklearn.covariance import EllipticEnvelope
    from sklearn.mixture import GaussianMixture
    D = numpy.array(list(itertools.product(range(0, 10, 3), repeat=2)), float)
    Y = [(D[:, 0] > 4).astype(int), (D[:, 1] <= 4).astype(int)]
    V = [D[:, 0]*2+1, D[:, 1]*-3.5]
    refit = lambda m: m.fit(D[::-1].copy(), (D[:, 0]+D[:, 1] > 9).astype(int))
    part = lambda m: (m.partial_fit(D, (D[:, 0]+D[:, 1] > 9).astype(int)), m)[1]
    if kind.endswith('~'):
        # twins: the models differ in the very last number only, and their code has the same length
        ms, kw, refit = sources(kind[:-1])
        ms = [copy.deepcopy(ms[0]), copy.deepcopy(ms[0])]
        for i, m in enumerate(ms):
            twin(kind[:-1].split('-'), m, i)
        return ms, kw, refit
    k = kind.split('-')
    if k[0] == 'tree':
        if k[1] == 'reg':
            return [DecisionTreeRegressor(max_depth=3, random_state=i).fit(D, V[i]) for i in (0, 1)], dict(method=k[2]), refit
        bits = dict(hard=0, soft=8)[k[1]]
        return [RandomForestClassifier(n_estimators=3, max_depth=3, random_state=i).fit(D, Y[i]) for i in (0, 1)], dict(method=k[2], leaf_bits=bits), refit
    if k[0] == 'net':
        if k[1] == 'reg':
            return [MLPRegressor(hidden_layer_sizes=(3,), max_iter=60, random_state=i, solver='lbfgs').fit(D, V[i]) for i in (0, 1)], dict(method='loadable', return_type='regressor'), refit
        return [MLPClassifier(hidden_layer_sizes=(3,), max_iter=60, random_state=i, solver='adam').fit(D, Y[i]) for i in (0, 1)], dict(method=k[1]), part
    if k[0] == 'bayes':
        return [GaussianNB().fit(D, Y[i]) for i in (0, 1)], dict(method=k[1]), part
    if k[0] == 'neighbors':
        ms = [KNeighborsClassifier(n_neighbors=1, algorithm='brute').fit(D.copy(), Y[i]) for i in (0, 1)]
        def mutate(m):
            m._fit_X[:] = m._fit_X[::-1].copy()
            return m
        return ms, dict(), mutate
    if k[0] == 'elliptic':
        return [EllipticEnvelope(random_state=1, contamination=0.3).fit(D*[1+i, 1]+[0, 4*i]) for i in (0, 1)], dict(method='inline'), lambda m: m.fit(D*0.5)
    if k[0] == 'mixture':
        return [GaussianMixture(2, covariance_type=k[1], random_state=i, reg_covar=0.1).fit(D*[1+3*i, 1]) for i in (0, 1)], dict(), lambda m: m.fit(D*3)
    raise Harness(kind)


KINDS = ['tree-hard-inline', 'tree-hard-loadable', 'tree-soft-inline', 'tree-soft-loadable', 'tree-reg-inline', 'tree-reg-loadable', 'net-loadable', 'net-inline', 'net-reg',
         'bayes-loadable', 'neighbors', 'elliptic', 'mixture-full', 'mixture-diag']
SENTINELS = ['mytree.c', 'mytree.h', 'mytree', 'mynet.c', 'gmm.c', 'main', 'mybayes.h', 'shared.c', 'mymodel.h']


T = 64      # twins of the other kinds have this many times the features, for texts of some thousand characters


def twin(k, m, i):
    """models of several thousand characters that differ in the very last number only"""
    G = numpy.array(list(itertools.product(range(0, 30, 2), repeat=2)), float)
    if k[0] == 'tree':
        if k[1] == 'reg':
            m.set_params(max_depth=None).fit(G, numpy.arange(len(G))*7 % 101+0.5)
            m.tree_.value[-1] = 250.5 + i
            return m
        m.set_params(n_estimators=101, max_depth=4, max_features=None).fit(G, (G[:, 0] > 4).astype(int))
        e = m.estimators_
        for j, t in enumerate(e[:-1]):
            t.tree_.value[...] = [[1.0, 0.0], [0.0, 1.0]][j % 2]        # the last tree decides
        v = e[-1].tree_.value
        v[-1] = [[1.0, 0.0], [0.0, 1.0]][i]; v[-2] = [[1.0, 0.0]]
    elif k[0] == 'net':
        m.coefs_[0] = numpy.zeros((2*T, 3)); m.n_features_in_ = 2*T
        for a in m.coefs_ + m.intercepts_: a[...] = 0
        m.intercepts_[0][...] = 5; m.coefs_[-1][0] = -1     # the output is the last intercept less 5
        m.intercepts_[-1][-1] = [1.5, 8.5][i]
    elif k[0] == 'bayes':
        m.theta_ = numpy.tile(m.theta_, (1, T)); m.var_ = numpy.tile(m.var_, (1, T)); m.n_features_in_ = 2*T
        m.theta_[-1][-1] = [1.5, 8.5][i]; m.var_[...] = 400.0; m.var_[-1][-1] = 0.5; m.var_[0][-1] = 0.5
    elif k[0] == 'neighbors':
        m.fit(numpy.tile(m._fit_X, (1, T)), m._y); m._y = m._y.copy(); m._y[-1] = i
    elif k[0] == 'elliptic':
        m.location_ = numpy.tile(m.location_, T); m.precision_ = numpy.eye(2*T); m.precision_[-1, -1] = [1.5, 2.5][i]; m.n_features_in_ = 2*T
    elif k[0] == 'mixture':
        m.weights_ = numpy.array([0.5, 0.5]); m.means_ = numpy.tile(numpy.round(m.means_, 1), (1, T)); m.means_[-1][-1] = [1.5, 6.5][i]; m.n_features_in_ = 2*T
        P = numpy.ones((2, 2*T)) if k[1] == 'diag' else numpy.stack([numpy.eye(2*T)]*2)
        m.precisions_cholesky_ = P; m.precisions_ = P.copy(); m.covariances_ = P.copy()
    return m


def rows(kind):
    return numpy.tile(X2, (1, T)) if kind.endswith('~') and not kind.startswith('tree') else X2


def observe(kind, w, X):
    out = [numpy.asarray(w.predict(X)).astype(float).round(6).tolist()]
    if kind.startswith('tree') and 'reg' not in kind or kind.startswith('net-loadable') or kind.startswith('mixture'):
        out.append(numpy.asarray(w.predict_proba(X)).round(6).tolist())
    if kind.startswith('mixture') or kind.startswith('elliptic'):
        out.append(numpy.asarray(w.score_samples(X)).round(4).tolist())
    return out


def texts(w):
    return w.save(name='shared')


class Broken(Exception):
    pass


def scramble(m):
    """change all arrays of a source model in place"""
    def one(v):
        if isinstance(v, numpy.ndarray) and v.dtype.kind == 'f' and v.flags.writeable and v.size:
            v[...] = v.ravel()[::-1].reshape(v.shape) * -1.5 + 0.25
        elif isinstance(v, (list, tuple)):
            for x in v:
                one(x)
    for v in list(vars(m).values()):
        one(v)
    for e in list(getattr(m, 'estimators_', [])) + [m]:
        if hasattr(e, 'tree_'):
            one([e.tree_.threshold, e.tree_.value])




SRC = {}


def source(kind):
    if kind not in SRC:
        SRC[kind] = sources(kind)
    return SRC[kind]


def convert(kind, s):
    import emlearn
    ms, kw, refit = source(kind)
    m = copy.deepcopy(ms[s])
    return m, emlearn.convert(m, **kw)


def expect_one(a):
    kind, s = a
    d = tempfile.mkdtemp(dir=BASE)
    os.chdir(d)
    try:
        m, w = convert(kind, s)
        text = texts(w)
        return a, (observe(kind, w, rows(kind)), text)
    finally:
        os.chdir(BASE); shutil.rmtree(d, ignore_errors=True)


def run_sequence(a):
    """a = (kinds of the two slots, ops); returns None or what broke"""
    kinds, ops = a
    d = tempfile.mkdtemp(dir=BASE)
    os.makedirs(os.path.join(d, 'one')); os.makedirs(os.path.join(d, 'two'))
    os.chdir(os.path.join(d, 'one'))
    for f in SENTINELS:
        for sub in ('one', 'two'):
            open(os.path.join(d, sub, f), 'w').write('user data')
    live, n = [None, None], 0
    env = dict(os.environ)
    try:
        for step, op in enumerate(list(ops) + ['p0', 'p1']):
            o, s = op[0], int(op[1])
            if o in 'pP' and live[s] is None:
                continue
            n += 1
            cwd, rng = os.getcwd(), numpy.random.get_state()[1].tobytes()
            if o == 'C':
                live[s] = convert(kinds[s], s)
            elif o == 'D':
                live[s] = None; gc.collect()
            elif o == 'R':
                scramble(live[s][0])
                source(kinds[s])[2](live[s][0])
            elif o == 'W':
                os.chdir('../two' if cwd.endswith('one') else '../one')
                cwd = os.getcwd()
            elif o == 'S':
                w = live[s][1]
                t1 = texts(w)
                path = os.path.join(d, 'shared.h')
                t2 = w.save(name='shared', file=path)
                if t1 != EXPECT[(kinds[s], s)][1] or t2 != t1 or open(path).read() != t1:
                    return f'step {step} {op}: saved code differs from that of the model on its own'
            else:
                X = rows(kinds[s]).copy()
                got = observe(kinds[s], live[s][1], X)
                if got != EXPECT[(kinds[s], s)][0]:
                    return f'step {step} {op}: got {got} expected {EXPECT[(kinds[s], s)][0]}'
                if not numpy.array_equal(X, rows(kinds[s])):
                    return f'step {step} {op}: input modified'
                if texts(live[s][1]) != EXPECT[(kinds[s], s)][1]:
                    return f'step {step} {op}: saved code changed after predicting'
            if os.getcwd() != cwd or dict(os.environ) != env:
                return f'step {step} {op}: working directory or environment changed'
            if o not in 'R' and numpy.random.get_state()[1].tobytes() != rng:
                return f'step {step} {op}: random state of the caller changed'
            for sub in ('one', 'two'):
                for f in SENTINELS:
                    p = os.path.join(d, sub, f)
                    if not os.path.exists(p) or open(p).read() != 'user data':
                        return f'step {step} {op}: file {f} of the caller was changed'
        return n
    except Exception as e:
        import traceback
        return f'{type(e).__name__}: {e}\n' + traceback.format_exc()[-1500:]
    finally:
        os.chdir(BASE); shutil.rmtree(d, ignore_errors=True)


def sequences(length, ops):
    """well-formed sequences; the first operation converts model 0 (slots are otherwise symmetric in kind)"""
    def rec(seq, live):
        if len(seq) == length:
            if sum(1 for o in seq if o[0] == 'C') >= 2 or any(o[0] == 'R' for o in seq):
                yield tuple(seq)
            return
        for o in ops:
            k, s = o[0], int(o[1])
            if not seq and o != 'C0': continue
            if k in 'PSDR' and not live[s]: continue
            if k == 'W' and seq[-1] == 'W0': continue
            if k in 'PS' and seq[-1] == o: continue
            if k == 'P' and len(seq) == length-1: continue     # every live model is observed at the end anyway
            l = list(live)
            if k == 'C': l[s] = True
            if k == 'D': l[s] = False
            yield from rec(seq+[o], l)
    return rec([], [False, False])


# ---------------- two processes, one working directory
def worker(kind, s, sched):
    """runs in its own process: convert, predict, predict again; every compiler run and every step is a scheduling point"""
    def point(tag):
        with open(sched + '.req', 'w') as f: f.write(tag + '\n')
        with open(sched + '.go') as f: f.readline()
    try:
        os.environ['MC_SCHED'] = sched
        point('S')
        m, w = convert(kind, s)
        point('S')
        a = observe(kind, w, X2)
        point('S')
        b = observe(kind, w, X2)
        ok = a == EXPECT[(kind, s)][0] and b == a and texts(w) == EXPECT[(kind, s)][1]
        res = 'ok' if ok else f'got {a} then {b}, expected {EXPECT[(kind, s)][0]}'
    except BaseException as e:
        res = f'{type(e).__name__}: {e}'
    with open(sched + '.res', 'w') as f: f.write(res)
    with open(sched + '.req', 'w') as f: f.write('E\n')


def run_schedule(kinds, prefix, d):
    """returns (choices made, number of points, preemptions, results); choice 0/1 = which process runs next"""
    for f in os.listdir(d):
        p = os.path.join(d, f)
        shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
    os.chdir(d)
    ps, req, go, alive = [], [], [], [True, True]
    for i in (0, 1):
        s = os.path.join(d, f'.sched{i}')
        for e in ('.req', '.go'):
            os.mkfifo(s+e)
        req.append(os.fdopen(os.open(s+'.req', os.O_RDWR), 'rb', 0))
        go.append(os.open(s+'.go', os.O_RDWR))
        pid = os.fork()
        if pid == 0:
            try:
                worker(kinds[i], i, s)
            finally:
                os._exit(0)
        ps.append(pid)
    def wait(i):
        line = req[i].readline()
        if line == b'E\n':
            alive[i] = False
    for i in (0, 1): wait(i)
    choices, cur, pre, enabled = [], 0, 0, []
    while alive[0] or alive[1]:
        en = [i for i in (0, 1) if alive[i]]
        n = len(choices)
        if n < len(prefix):
            x = prefix[n]
            if x not in en:
                raise Harness(f'schedule diverged at {n}: {prefix}')
        else:
            x = cur if cur in en else en[0]
        if x != cur and cur in en and n: pre += 1
        choices.append(x); enabled.append((en, cur, pre))
        cur = x
        os.write(go[x], b'g\n')
        wait(x)
    for p in ps: os.waitpid(p, 0)
    res = [open(os.path.join(d, f'.sched{i}.res')).read() for i in (0, 1)]
    for i in (0, 1):
        req[i].close(); os.close(go[i])
    return choices, enabled, res


def explore_processes(a):
    kinds, bound = a
    d = tempfile.mkdtemp(dir=BASE)
    runs = points = 0
    try:
        stack = [()]
        while stack:
            prefix = stack.pop()
            choices, enabled, res = run_schedule(kinds, prefix, d)
            runs += 1; points += len(choices)
            if res != ['ok', 'ok']:
                return kinds, runs, points, dict(schedule=choices, results=res)
            for i in range(len(prefix), len(choices)):
                en, cur, pre = enabled[i]
                base = enabled[i-1][2] if i else 0
                for alt in en:
                    if alt == choices[i]: continue
                    cost = base + (1 if i and cur in en and alt != cur else 0)
                    if cost <= bound:
                        stack.append(tuple(choices[:i]) + (alt,))
        return kinds, runs, points, None
    finally:
        os.chdir(BASE); shutil.rmtree(d, ignore_errors=True)


def run(c):
    global BASE, EXPECT
    import emlearn
    BASE = c.dir('work')
    ccache.install(c)
    c.assume('expected answers: the model converted alone in a fresh directory, checked against its source',
             'compiler results are reused for identical sources and headers', 'processes are interleaved at their compiler runs and at each operation, not inside of them')
    for k in KINDS:
        source(k)
    ctx = multiprocessing.get_context('fork')
    twins = [k+'~' for k in KINDS]
    for k in twins:
        source(k)
    with ctx.Pool(8, maxtasksperchild=1) as pool:       # a process of its own for each
        EXPECT = dict(pool.map(expect_one, [(k, s) for k in KINDS+twins for s in (0, 1)], chunksize=1))
    for (k, s), (obs, text) in EXPECT.items():
        m = source(k)[0][s]
        if k.startswith('elliptic') or k.startswith('mixture'):
            if not numpy.allclose(obs[-1], m.score_samples(rows(k)), rtol=1e-3, atol=1e-2):
                c.violation(f'alone-score:{k}:{s}', got=obs[-1], source=m.score_samples(rows(k)))
        elif not numpy.allclose(obs[0], m.predict(rows(k)), rtol=1e-4, atol=1e-4):
            c.violation(f'alone:{k}:{s}', got=obs[0], source=m.predict(rows(k)))
        if s and obs == EXPECT[(k, 0)][0]:
            raise Harness(f'models of kind {k} do not differ')
        if s and k.endswith('~') and not 0 < sum(a != b for a, b in zip(text, EXPECT[(k, 0)][1])) < 12 or s and k.endswith('~') and len(text) < 3000:
            raise Harness(f'twins of kind {k} differ too much')
    ops = [o+s for o in 'CPSDR' for s in '01'] + ['W0']
    # the same kind in both slots: full alphabet; different kinds: shorter
    L = c.pick(4, 5)
    same = list(sequences(L, ops))
    mixed = list(sequences(3, ['C0', 'C1', 'P0', 'S1', 'D0']))
    short = list(sequences(3, ops))
    deep = c.pick(('tree-hard-inline', 'net-loadable', 'neighbors', 'elliptic'), KINDS)
    work = [((k, k), s) for k in KINDS for s in (same if k in deep else short)]
    work += [((k, k), s) for k in twins for s in [('C0', 'C1'), ('C1', 'C0', 'P1'), ('C0', 'P0', 'C1'), ('C1', 'P1', 'C0', 'D1', 'C1'), ('C0', 'P0', 'D0', 'C1', 'P1', 'C0')]]
    work += [((a, b), s) for a in KINDS for b in KINDS if a != b for s in (mixed if not c.quick else mixed[:2])]
    c.log('sequences', len(same), 'work', len(work))
    with ctx.Pool(8) as pool:
        for (kinds, seq), r in zip(work, pool.imap(run_sequence, work, chunksize=16)):
            c.states += 1; c.count('sequences-same-kind' if kinds[0] == kinds[1] else 'sequences-mixed')
            if isinstance(r, str):
                c.violation(f'history:{kinds[0]}:{kinds[1]}:{"".join(seq)}', sequence=seq, what=r)
            else:
                c.transitions += r; c.traces += 1
        c.log('histories done')
        pairs = [(k, k) for k in c.pick(['tree-hard-inline', 'tree-reg-loadable', 'net-loadable', 'bayes-loadable', 'neighbors', 'elliptic', 'mixture-full'], KINDS)] + [('net-inline', 'net-loadable'), ('tree-soft-loadable', 'tree-soft-inline')]
        for kinds, runs, points, bad in pool.imap_unordered(explore_processes, [(p, c.pick(1, 2)) for p in pairs], chunksize=1):
            c.states += runs; c.transitions += points; c.traces += runs
            c.count('schedules', runs)
            if bad:
                c.violation(f'processes:{kinds[0]}:{kinds[1]}', **bad)
    c.sample(kind='tree-hard-inline', sequence=same[len(same)//2], expected=EXPECT[('tree-hard-inline', 0)][0])
    c.bound(history_length=L, history_length_other_kinds=3 if c.quick else L, mixed_history_length=3, kinds=len(KINDS), processes=2, preemptions=c.pick(1, 2))
