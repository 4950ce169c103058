"""C01 hard-voting tree classifiers: exhaustive enumeration of trees/forests x inputs on the generated C code."""
import itertools
import numpy
from mc import treelib as tl
from mc.treelib import onehot, soft, small_library, comb


def programs(c):
    """yield (tag, kind, specs, n_features, n_classes)"""
    # (i) every shape x every node order, distinct leaves, generic splits
    for n in range(0, c.pick(4, 5)):
        for sh in tl.shapes(n):
            ords = tl.orders(sh)
            if n >= 4:
                ords = [tl.preorder(sh), tl.bfs_order(sh)] + ords[::37]
                c.exhaustive = c.exhaustive  # order space of 4-split trees is strided; see bounds
            for o in ords:
                splits = [(k % 2, [0.5, 1.5, -0.5, 2.5][(k*3) % 4]) for k in range(n)]
                nl = n+1
                nc = max(2, nl)
                yield ('order', 'DecisionTreeClassifier', [tl.TreeSpec(sh, splits, [onehot(k, nc) for k in range(nl)], o)], 2, nc)
    # (ii) every split assignment
    ths = [-1.5, 0.0, 0.5, 2.0]
    for n in range(1, 3):
        for sh in tl.shapes(n):
            for sp in itertools.product(itertools.product(range(2), ths), repeat=n):
                nc = max(2, n+1)
                yield ('split', 'DecisionTreeClassifier', [tl.TreeSpec(sh, list(sp), [soft(n-k, nc) for k in range(n+1)])], 2, nc)
    for sh in tl.shapes(3):
        for sp in itertools.product(itertools.product(range(2), [0.5, 1.0]), repeat=3):
            yield ('split', 'DecisionTreeClassifier', [tl.TreeSpec(sh, list(sp), [onehot(k, 4) for k in range(4)])], 2, 4)
    # (iii) every leaf-class assignment (exercises leaf sharing)
    for n in range(0, 4):
        for si, sh in enumerate(tl.shapes(n)):
            splits = [(k % 2, [0.5, 1.5, -0.5][k % 3]) for k in range(n)]
            for cl in itertools.product(range(3), repeat=n+1):
                o = [tl.preorder(sh), tl.bfs_order(sh)][sum(cl) % 2]
                yield ('leaves', 'DecisionTreeClassifier', [tl.TreeSpec(sh, splits, [soft(k, 3) for k in cl], o)], 2, 3)
    # (iv) every forest of up to 2 (3 thorough) library trees, and a slice of triples
    lib = small_library(3)
    kinds = ['RandomForestClassifier', 'ExtraTreesClassifier']
    for r in (1, 2):
        for i, combo in enumerate(itertools.product(lib, repeat=r)):
            yield ('forest', kinds[i % 2], list(combo), 2, 3)
    trip = list(itertools.product(range(len(lib)), repeat=3))
    for i, ix in enumerate(trip):
        if c.quick and len(set(ix)) == 3 and list(ix) != sorted(ix):
            continue
        yield ('forest', kinds[i % 2], [lib[k] for k in ix], 2, 3)
    # (v) ladders: classes, features, depth, trees
    for nc in range(2, 31):
        d = nc-1
        for side in (0, 1):
            sh = comb(d, side)
            th = [(0, (d-k-0.5) if side == 0 else k+0.5) for k in range(d)]
            yield ('classes', 'DecisionTreeClassifier', [tl.TreeSpec(sh, th, [onehot(k, nc) for k in range(nc)])], 1, nc)
    for nf in list(range(1, 20)) + [31, 32, 33, 63, 64, 65, 100, 126, 127]:
        specs = [tl.TreeSpec((None, None), [(f, 0.5)], [onehot(0, 2), onehot(1, 2)]) for f in ({0, nf//2, nf-1})]
        yield ('features', 'RandomForestClassifier', specs, nf, 2)
    for d in c.pick([8, 16, 40], [8, 16, 40, 100, 200]):
        for side in (0, 1):
            sh = comb(d, side)
            th = [(k % 2, float(10*((d-k) if side == 0 else k))) for k in range(d)]
            yield ('depth', 'DecisionTreeClassifier', [tl.TreeSpec(sh, th, [onehot(k % 5, 5) for k in range(d+1)])], 2, 5)
    for d in c.pick([300, 700], [300, 520, 700, 900]):
        for side in (0, 1):
            th = [(0, float(2*((d-k) if side == 0 else k))) for k in range(d)]
            yield ('very-deep', 'DecisionTreeClassifier', [tl.TreeSpec(comb(d, side), th, [onehot(k % 5, 5) for k in range(d+1)])], 1, 5)
    # leaves whose two best classes are nearly tied, down to the last bit, either way around
    for eps in [1e-2, 1e-4, 1e-6, 1e-7, 1e-8, 1e-9, 1e-12, 2.0**-52]:
        for flip in itertools.product((0, 1), repeat=3):
            for nc in (2, 3):
                leaf = lambda f, k: [[.5-eps, .5+eps][::[1, -1][f]], [.5-eps, 0., .5+eps][::[1, -1][f]]][nc-2]
                ls = [leaf(f, k) for k, f in enumerate(flip)]
                yield ('near-tie', 'DecisionTreeClassifier', [tl.TreeSpec(((None, None), None), [(0, 1.5), (1, .5)], ls)], 2, nc)
                yield ('near-tie', kinds[flip[0]], [tl.TreeSpec((None, None), [(k % 2, .5)], [l, leaf(1-flip[k], k)]) for k, l in enumerate(ls)], 2, nc)
    # every tree votes for the same class, so the count for it passes every byte boundary
    for nt in [127, 128, 255, 256, 257, 300] + c.pick([], [129, 400, 512, 1000, 2000]):
        agree = [tl.TreeSpec((None, None), [(t % 2, [0.5, 1.5][t//2 % 2])], [onehot(0, 3), onehot(2, 3)]) for t in range(nt)]
        yield ('agree', kinds[nt % 2], agree, 2, 3)
    for nt in [4, 5, 7, 10, 16, 33, 100, 256, 300] + c.pick([], [127, 128, 129, 255, 257, 512]):
        yield ('trees', 'RandomForestClassifier', [lib[k % len(lib)] for k in range(nt)], 2, 3)
        yield ('trees', 'ExtraTreesClassifier', [lib[(k*5+nt) % len(lib)] for k in range(nt)], 2, 3)
    # mixed-size forest with a wide feature range and big nodes count
    big = []
    for t in range(12):
        d = 30
        sh = comb(d, t % 2)
        th = [((k+t) % 3, float(((d-k) if t % 2 == 0 else k)*7-40)) for k in range(d)]
        big.append(tl.TreeSpec(sh, th, [soft((k*t+k) % 4, 4) for k in range(d+1)]))
    yield ('big', 'RandomForestClassifier', big, 3, 4)


def expected(est, X, nc):
    vals = tl.source_leaf_values(est, X)          # trees, rows, classes
    votes = numpy.zeros((X.shape[0], nc))
    for t in range(vals.shape[0]):
        votes[numpy.arange(X.shape[0]), numpy.argmax(vals[t], axis=1)] += 1
    return numpy.argmax(votes, axis=1), votes/vals.shape[0]


def run(c):
    import emlearn
    c.assume('scikit-learn tree traversal (Tree.apply) is the reference for the source model',
             'gcc implements C99 for the generated code; int16_t features')
    jobs, exp = [], []
    for i, (tag, kind, specs, nf, nc) in enumerate(programs(c)):
        est = tl.sk_estimator(kind, specs, nf, nc)
        X = tl.inputs(specs, nf)
        e = expected(est, X, nc)
        c.states += 1
        c.transitions += len(X)*len(specs)
        c.count(tag)
        methods = ('loadable',) if tag == 'very-deep' else ('inline', 'loadable') # nested deeper than what C compilers have to support
        for m in methods:
            name = f'm{i}_{m[0]}'
            code = emlearn.convert(est, method=m).save(name=name)
            jobs.append(tl.Job(code, name, nf, nc, True, X, tag=(tag, m, [s.describe() for s in specs])))
            exp.append((e, tag, m, specs, kind))
    c.log('models', len(jobs))
    outs = tl.run_jobs(c, jobs)
    seen = set()
    for j, o, (e, tag, m, specs, kind) in zip(jobs, outs, exp):
        cls, share = e
        c.traces += len(o)
        bad = numpy.nonzero((o[:, 0] != cls) | (o[:, 1] != 0) | (numpy.abs(o[:, 2:2+j.nc]-share).max(axis=1) > 1e-5) | (o[:, 2+j.nc] != 0))[0]
        seen |= set(map(int, o[:, 0]))
        if len(bad):
            r = bad[0]
            c.violation(f'{tag}:{m}', kind=kind, method=m, trees=[s.describe() for s in specs][:6], n_features=j.nf, n_classes=j.nc,
                        features=j.X[r].tolist(), expected_class=int(cls[r]), expected_share=share[r].tolist(),
                        got=o[r].tolist(), bad_rows=len(bad), note='got = [class, proba status, shares..., flag 1=input modified 2=not repeatable]')
    c.count('distinct_classes_observed', len(seen))
    j = jobs[len(jobs)//2]
    c.sample(model=j.tag, input=j.X[0], output=outs[len(jobs)//2][0])
    # end to end through the Python API
    lib = small_library(3)
    for kind, specs in (('DecisionTreeClassifier', [lib[-1]]), ('RandomForestClassifier', lib), ('ExtraTreesClassifier', lib[3:6])):
        est = tl.sk_estimator(kind, specs, 2, 3)
        X = tl.inputs(specs, 2)
        cls, share = expected(est, X, 3)
        for m in ('inline', 'loadable', None):
            w = emlearn.convert(est, method=m)
            got = numpy.array(w.predict(X))
            prob = w.predict_proba(X)
            c.traces += len(X)
            c.transitions += len(X)
            if got.shape != cls.shape or (got != cls).any() or numpy.abs(prob-share).max() > 1e-5:
                c.violation(f'python:{kind}:{m}', kind=kind, method=m, trees=[s.describe() for s in specs],
                            expected=cls.tolist(), got=got.tolist(), proba=prob.tolist(), X=X.tolist())
    tl.large(c, 0)
    c.bound(max_internal_nodes_exhaustive=3, max_trees_exhaustive=2, classes_ladder='2..30', features_ladder='1..127')
