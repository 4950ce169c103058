"""C02 soft-voting forests: every leaf bit width x class proportions x forests, on the generated C code."""
import itertools
import numpy
from mc import treelib as tl
from mc.treelib import comb, comb_splits


def compositions(total, parts):
    if parts == 1:
        yield (total,)
        return
    for i in range(total+1):
        for r in compositions(total-i, parts-1):
            yield (i,) + r


def proportions(nc, c):
    """class proportion vectors: every composition of N samples, plus dominated / tiny / uniform ones"""
    N = {2: c.pick(12, 40), 3: c.pick(6, 14), 4: c.pick(4, 8)}.get(nc, 2)
    if nc <= 4:
        out = [tuple(v/N for v in p) for p in compositions(N, nc)]
    else:
        out = []
        for k in (0, nc//2, nc-1):
            v = [0.0]*nc; v[k] = 1.0
            out.append(tuple(v))
        for a, b in ((0, nc-1), (1, 2)):
            v = [0.0]*nc; v[a] += 0.5; v[b] += 0.5
            out.append(tuple(v))
    out.append(tuple([1.0/nc]*nc))
    for eps in (1e-9, 1e-3, 0.004, 0.01, 0.02, 0.05, 0.1, 0.2, 0.249, 0.251, 0.499):
        for k in (0, nc-1):
            v = [eps/(nc-1)]*nc
            v[k] = 1.0-eps
            out.append(tuple(v))
        v = [(1-eps)/(nc-1)]*nc
        v[nc//2] = eps
        out.append(tuple(v))
    return out


def programs(c):
    for bits in range(2, 9):
        # (i) one leaf per proportion vector
        for nc in [2, 3, 4, 5, 8, 13, 21, 30]:
            P = proportions(nc, c)
            for part in range(0, len(P), 40):
                ps = [list(p) for p in P[part:part+40]]
                d = len(ps)-1
                side = (part//40 + bits) % 2
                yield bits, 'proportions', 'DecisionTreeClassifier', [tl.TreeSpec(comb(d, side), comb_splits(d, side), ps)], 1, nc
        # (ii) every pair of leaves in two single-leaf trees / stump forests (averaging across trees)
        P = [list(p) for p in proportions(3, c)][::c.pick(5, 2)]
        for i, (a, b) in enumerate(itertools.product(P, repeat=2)):
            yield bits, 'pairs', 'RandomForestClassifier', [tl.TreeSpec(None, [], [a]), tl.TreeSpec((None, None), [(0, 0.5)], [b, a])], 1, 3
        # (iii) every shape and node order with distinct leaves
        for n in range(0, 4):
            for sh in tl.shapes(n):
                ords = tl.orders(sh)
                if c.quick and len(ords) > 6:
                    ords = [tl.preorder(sh), tl.bfs_order(sh), ords[-1]]
                for o in ords:
                    splits = [(k % 2, [0.5, 1.5, -0.5, 2.5][(k*3) % 4]) for k in range(n)]
                    leaves = [[(k+1)/(2.0*n+4), 1-(k+1)/(2.0*n+4)] for k in range(n+1)]
                    yield bits, 'order', 'DecisionTreeClassifier', [tl.TreeSpec(sh, splits, leaves, o)], 2, 2
    # (iv) forests of library trees
    lib = tl.small_library(3)
    for r in (2, 3):
        for i, ix in enumerate(itertools.product(range(len(lib)), repeat=r)):
            if r == 3 and (list(ix) != sorted(ix) or (c.quick and sum(ix) % 3)):
                continue
            yield 2 + (sum(ix) % 7), 'forest', ['RandomForestClassifier', 'ExtraTreesClassifier'][i % 2], [lib[k] for k in ix], 2, 3
    # (v) many trees
    for nt in [5, 10, 33, 100, 150, 256, 300] + c.pick([], [255, 257, 400]):
        for bits in (2, 3, 8):
            yield bits, 'trees', 'RandomForestClassifier', [lib[(k*3) % len(lib)] for k in range(nt)], 2, 3
    # (v') leaf tables past every byte / word boundary: all leaves distinct after quantisation, every tree selects a leaf on each row
    for nc, nl in [(2, 140), (30, 600), (30, 1150), (30, 2250)] + c.pick([], [(13, 2600), (30, 2500)]):
        sp, k = [], 0
        while k < nl:
            n = min(100, nl-k)
            lv = []
            for q in range(k, k+n):
                v = [0.0]*nc
                if nc == 2:
                    v = [(q+1)/(nl+1), 1-(q+1)/(nl+1)]
                else:
                    a = q % nc; b = (a+1+(q//nc) % (nc-1)) % nc; w = [0.6, 0.75, 0.9, 0.67, 0.82, 0.97, 0.55, 0.71, 0.87][q//(nc*(nc-1))]
                    v[a], v[b] = w, 1-w
                lv.append(v)
            sp.append(tl.TreeSpec(comb(n-1, len(sp) % 2), comb_splits(n-1, len(sp) % 2), lv)); k += n
        yield 8, f'leaftable', 'RandomForestClassifier', sp, 1, nc
    # (vi) classes ladder, with leaves that quantise to nothing at low widths; inline only above 30
    for nc in range(2, 31):
        for bits in (2, 3, 5, 8):
            uni = [1.0/nc]*nc
            skew = [2.0*(k+1)/(nc*(nc+1)) for k in range(nc)]
            rev = skew[::-1]
            yield bits, 'classes', 'RandomForestClassifier', [tl.TreeSpec((None, None), [(0, 0.5)], [uni, skew]), tl.TreeSpec((None, None), [(0, 1.5)], [rev, skew])], 1, nc


def run(c):
    import emlearn
    c.assume('scikit-learn tree traversal (Tree.apply) and leaf values are the reference',
             'tolerance per probability: half a quantisation level 0.5/(2^bits-2) plus one stored level 1/255')
    jobs, exp = [], []
    for i, (bits, tag, kind, specs, nf, nc) in enumerate(programs(c)):
        est = tl.sk_estimator(kind, specs, nf, nc)
        X = tl.inputs(specs, nf)
        mean = tl.source_leaf_values(est, X).mean(axis=0)
        c.states += 1
        c.transitions += len(X)*len(specs)
        c.count(tag)
        c.count(f'bits{bits}')
        for m in ('inline', 'loadable'):
            name = f'm{i}_{m[0]}'
            code = emlearn.convert(est, method=m, leaf_bits=bits).save(name=name)
            jobs.append(tl.Job(code, name, nf, nc, True, X, tag=(tag, m, bits, [s.describe() for s in specs])))
            exp.append((mean, bits, tag, m, specs))
    c.log('models', len(jobs))
    outs = tl.run_jobs(c, jobs)
    classes = set()
    for k, (j, o, (mean, bits, tag, m, specs)) in enumerate(zip(jobs, outs, exp)):
        c.traces += len(o)
        p = o[:, 2:2+j.nc]
        cls = o[:, 0].astype(int)
        classes |= set(cls.tolist())
        tol = 0.5/(2**bits-2) + 1/255 + 1e-4
        problems = {}
        problems['range'] = (p < 0).any(axis=1) | (p > 1+1e-5).any(axis=1) | ~numpy.isfinite(p).all(axis=1)
        problems['value'] = ~(numpy.abs(p-mean).max(axis=1) <= tol)
        okc = (cls >= 0) & (cls < j.nc)
        pc = p[numpy.arange(len(p)), numpy.clip(cls, 0, j.nc-1)]
        problems['class'] = ~okc | (pc < p.max(axis=1) - 1e-6)
        problems['status'] = o[:, 1] != 0
        problems['stable'] = o[:, 2+j.nc] != 0
        if m == 'loadable':
            problems['inline!=loadable'] = (numpy.abs(p-outs[k-1][:, 2:2+j.nc]).max(axis=1) > 1e-6) | (cls != outs[k-1][:, 0])
            # the two may only differ in class when tied
            tied = numpy.sort(p, axis=1)[:, -1] - numpy.sort(p, axis=1)[:, -2] < 1e-6 if j.nc > 1 else False
            problems['inline!=loadable'] &= ~((numpy.abs(p-outs[k-1][:, 2:2+j.nc]).max(axis=1) <= 1e-6) & tied)
        for what, bad in problems.items():
            bad = numpy.nonzero(bad)[0]
            if len(bad):
                r = bad[0]
                c.violation(f'{tag}:{m}:{what}', leaf_bits=bits, trees=[s.describe() for s in specs][:4], features=j.X[r].tolist(),
                            source_mean=mean[r].tolist(), got_proba=p[r].tolist(), got_class=int(cls[r]), tolerance=tol,
                            inline=outs[k-1][r].tolist() if m == 'loadable' else None, bad_rows=len(bad))
                break
    c.count('distinct_classes_observed', len(classes))
    k = len(jobs)//3
    c.sample(model=jobs[k].tag, input=jobs[k].X[0], output=outs[k][0])
    # through Python
    lib = tl.small_library(3)
    est = tl.sk_estimator('RandomForestClassifier', lib, 2, 3)
    X = tl.inputs(lib, 2)
    mean = tl.source_leaf_values(est, X).mean(axis=0)
    for m, bits in itertools.product(('inline', 'loadable'), c.pick((2, 8), range(2, 9))):
        w = emlearn.convert(est, method=m, leaf_bits=bits)
        p = w.predict_proba(X)
        cls = numpy.array(w.predict(X))
        tol = 0.5/(2**bits-2) + 1/255 + 1e-4
        c.traces += len(X); c.transitions += len(X)
        if p.shape != mean.shape or not numpy.abs(p-mean).max() <= tol or (p[numpy.arange(len(p)), cls] < p.max(axis=1)-1e-6).any():
            c.violation(f'python:{m}:{bits}', X=X.tolist(), got=p.tolist(), want=mean.tolist(), cls=cls.tolist())
    tl.large(c, 8)
    c.bound(leaf_bits='2..8', classes='2..30', compositions={2: c.pick(12, 40), 3: c.pick(6, 14), 4: c.pick(4, 8)}, forest_trees_exhaustive=2)
