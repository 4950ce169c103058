"""C03 tree regressors: every leaf-value assignment from a set spanning magnitudes and near-duplicates, on the generated C code."""
import itertools
import numpy
from mc import treelib as tl
from mc.treelib import comb, comb_splits

# near-duplicates: consecutive float32 values, values equal to 6-7 digits, doubles that round to the same float
f32 = numpy.float32
NEAR = [1.0, float(numpy.nextafter(f32(1), f32(2))), 1.0+1e-10, 1.000001, 1.0000015, 123456.7, 123456.71, 16777216.0, 16777217.0, 16777218.0]
SPAN = [0.0, 1.0, -1.0, 0.1, -0.1, 1/3, 2/3, 1e-3, 1e-6, -1e-6, 1e-7, 1.5e-8, 1e-20, 1e-37, 1e-40, 1e6, 1234567.0, -7654321.0, 1e9, 3.3e9, 1e20, -1e30, 3e38, 127.0, 128.0, 255.0, 256.0, 32767.0, 32768.0, -32768.0, 65536.0, 0.5, 100.25]


def programs(c):
    every = sorted(set(NEAR + SPAN))
    # (i) all values as leaves of one tree; both growth sides
    for side in (0, 1):
        d = len(every)-1
        yield 'values', 'DecisionTreeRegressor', [tl.TreeSpec(comb(d, side), comb_splits(d, side), [[v] for v in every])], 1
    # (ii) every pair of leaf values in a stump (leaf sharing between near duplicates)
    for a, b in itertools.product(every, repeat=2):
        yield 'pair', 'DecisionTreeRegressor', [tl.TreeSpec((None, None), [(0, 0.5)], [[a], [b]])], 1
    # (iii) every pair averaged over two trees, including single-leaf trees
    vals = NEAR + [0.0, -1.0, 0.1, 1e-3, 1e-6, 1e6, -7654321.0, 1e20, 32768.0]
    for i, (a, b) in enumerate(itertools.product(vals, repeat=2)):
        yield 'mean', ['RandomForestRegressor', 'ExtraTreesRegressor'][i % 2], [
            tl.TreeSpec((None, None), [(0, 0.5)], [[a], [b]]), tl.TreeSpec(None, [], [[b]])], 1
    # (iv) every shape x node order
    for n in range(0, c.pick(4, 5)):
        for sh in tl.shapes(n):
            ords = tl.orders(sh)
            if n == 4:
                ords = [tl.preorder(sh), tl.bfs_order(sh)] + ords[::37]
            for o in ords:
                splits = [(k % 2, [0.5, 1.5, -0.5, 2.5][(k*3) % 4]) for k in range(n)]
                yield 'order', 'DecisionTreeRegressor', [tl.TreeSpec(sh, splits, [[k*1.25-1.3] for k in range(n+1)], o)], 2
    # (v) every assignment of 4 values to the leaves of every shape up to 3 splits
    alpha = [0.0, 1.0, 1.0000001, -250.5]
    for n in range(0, 4):
        for sh in tl.shapes(n):
            splits = [(k % 2, [0.5, 1.5, -0.5][k % 3]) for k in range(n)]
            for vs in itertools.product(alpha, repeat=n+1):
                if n == 3 and c.quick and vs[0] == vs[-1]:
                    continue
                yield 'assign', 'DecisionTreeRegressor', [tl.TreeSpec(sh, splits, [[v] for v in vs])], 2
    # (vi) larger forests and leaf counts (leaf table offsets beyond 255 and 32767 bytes)
    for nt in [3, 7, 10, 50, 100, 127, 128, 129, 255, 256, 257, 300] + c.pick([], [400, 512, 1000]):
        yield 'trees', 'RandomForestRegressor', [tl.TreeSpec((None, None), [(0, float(k % 7)-3.5)], [[k*0.5], [100.0-k]]) for k in range(nt)], 1
    for nl in [63, 64, 65, 127, 128, 129, 255, 256, 257] + c.pick([1025], [1025, 8193]):
        specs = []
        done = 0
        t = 0
        while done < nl:
            m = min(64, nl-done)
            specs.append(tl.TreeSpec(comb(m-1, t % 2), comb_splits(m-1, t % 2), [[(done+k)*1.5+0.25] for k in range(m)]))
            done += m; t += 1
        yield 'leaves', 'RandomForestRegressor', specs, 1
    for nf in [1, 2, 3, 15, 16, 17, 64, 126, 127]:
        specs = [tl.TreeSpec((None, None), [(f, 0.5)], [[1.0*f], [-2.0-f]]) for f in sorted({0, nf//2, nf-1})]
        yield 'features', 'ExtraTreesRegressor', specs, nf


def run(c):
    import emlearn
    c.assume('scikit-learn Tree.apply and leaf values are the reference',
             'tolerance: single precision relative to the largest leaf value involved, growing with the number of trees summed')
    jobs, exp = [], []
    for i, (tag, kind, specs, nf) in enumerate(programs(c)):
        est = tl.sk_estimator(kind, specs, nf)
        X = tl.inputs(specs, nf, limit=700)
        lv = tl.source_leaf_values(est, X)[:, :, 0]
        mean = lv.mean(axis=0)
        big = numpy.abs(lv).max(axis=0)
        c.states += 1
        c.transitions += len(X)*len(specs)
        c.count(tag)
        for m in ('inline', 'loadable'):
            name = f'm{i}_{m[0]}'
            code = emlearn.convert(est, method=m).save(name=name)
            jobs.append(tl.Job(code, name, nf, 0, False, X, tag=(tag, m, [s.describe() for s in specs[:3]])))
            exp.append((mean, big, len(specs), tag, m, specs))
    c.log('models', len(jobs))
    outs = tl.run_jobs(c, jobs)
    for k, (j, o, (mean, big, nt, tag, m, specs)) in enumerate(zip(jobs, outs, exp)):
        c.traces += len(o)
        # one rounding per leaf, one per addition, one for the division; denormals absolutely
        tol = big*(1.2e-7*(nt+2)) + 1.5e-45
        bad = ~(numpy.abs(o[:, 0]-mean) <= tol) | (o[:, 1] != 0)
        what = 'value'
        if m == 'loadable' and not bad.any():
            bad = ~(numpy.abs(o[:, 0]-outs[k-1][:, 0]) <= tol)
            what = 'inline!=loadable'
        bad = numpy.nonzero(bad)[0]
        if len(bad):
            r = bad[0]
            c.violation(f'{tag}:{m}:{what}', trees=[s.describe() for s in specs][:3], features=j.X[r].tolist(), expected=mean[r],
                        got=o[r].tolist(), tolerance=tol[r], bad_rows=len(bad))
    k = len(jobs)//2
    c.sample(model=jobs[k].tag, input=jobs[k].X[0], output=outs[k][0], expected=exp[k][0][0])
    specs = [tl.TreeSpec((None, None), [(0, 0.5)], [[v], [-v]]) for v in (1e-6, 3.25, 1234567.0)]
    for kind, ss in (('RandomForestRegressor', specs), ('DecisionTreeRegressor', specs[:1]), ('DecisionTreeRegressor', specs[2:]),
                     ('ExtraTreesRegressor', specs[1:])):
        est = tl.sk_estimator(kind, ss, 1)
        X = tl.inputs(ss, 1)
        lv = tl.source_leaf_values(est, X)[:, :, 0]
        for m in ('inline', 'loadable', None):
            got = numpy.array(emlearn.convert(est, method=m).predict(X))
            c.traces += len(X); c.transitions += len(X)
            if got.shape != (len(X),) or not (numpy.abs(got-lv.mean(axis=0)) <= numpy.abs(lv).max(axis=0)*6e-7).all():
                c.violation(f'python:{kind}:{m}', X=X.tolist(), got=got.tolist(), want=lv.mean(axis=0).tolist())
    tl.large(c, 32)
    c.bound(values=len(set(NEAR+SPAN)), pairs='all', leaves_up_to=c.pick(1025, 8193))
