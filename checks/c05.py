"""C05 CSV export of tree models: parse the exported text as documented, evaluate it, and compare with the source model."""
import itertools
import numpy
from mc import treelib as tl
from mc.treelib import onehot, soft, small_library, comb, comb_splits

DYADIC = [(0.0, 1.0), (1.0, 0.0), (0.5, 0.5), (0.25, 0.75), (0.1, 0.9), (0.999, 0.001), (1/3, 2/3)]


class Malformed(Exception):
    pass


def parse(text):
    """documented format: f,<features> c,<classes> lb,<leaf bits> l,<leaf...> r,<root> n,<feature>,<threshold>,<left>,<right>"""
    m = dict(f=None, c=None, lb=None, l=[], r=[], n=[])
    for line in text.splitlines():
        if not line.strip():
            continue
        t = line.split(',')
        try:
            if t[0] in ('f', 'c', 'lb'):
                if m[t[0]] is not None or len(t) != 2:
                    raise Malformed(line)
                m[t[0]] = int(t[1])
            elif t[0] == 'l':
                m['l'].append([float(v) for v in t[1:]])
            elif t[0] == 'r':
                if len(t) != 2:
                    raise Malformed(line)
                m['r'].append(int(t[1]))
            elif t[0] == 'n':
                if len(t) != 5:
                    raise Malformed(line)
                m['n'].append((int(t[1]), float(t[2]), int(t[3]), int(t[4])))
            else:
                raise Malformed(line)
        except ValueError:
            raise Malformed(line)
    return m


def reach(m, X):
    """[trees, rows] leaf index, feature <= threshold goes left, children >= 0 are jumps relative to the node"""
    out = numpy.zeros((len(m['r']), len(X)), dtype=int)
    for t, root in enumerate(m['r']):
        for r, x in enumerate(X):
            k, steps = root, 0
            while True:
                if not 0 <= k < len(m['n']):
                    raise Malformed(f'node {k} of {len(m["n"])}')
                f, th, l, rr = m['n'][k]
                if not 0 <= f < m['f']:
                    raise Malformed(f'feature {f}')
                child = l if x[f] <= th else rr
                steps += 1
                if child < 0:
                    leaf = -child-1
                    break
                k += child
                if steps > len(m['n']):
                    raise Malformed('cycle')
            if leaf >= len(m['l']):
                raise Malformed(f'leaf {leaf} of {len(m["l"])}')
            out[t, r] = leaf
    return out


def programs(c):
    alpha = [0.0, 1.0, 1.0000001, -250.5, 1e-7, 123456789.0]
    ths = [0.5, -1.5, 0.1, 1/3, 2.0, 1e-7]
    # as close as can be to a feature value, on either side of it
    close = [float(numpy.nextafter(numpy.float64(numpy.float32(v)), d)) for v in (0.1, 3.3333333, -12345.678, 1e-20, 16777216.0) for d in (-numpy.inf, numpy.inf)]
    digits = [float(v) for v in numpy.nextafter(numpy.float32([1.0, -1.0, 123456784.0, 1.0e-10, 9.9999997e9, 0.015625, -3.3e38]), numpy.float32(0))]
    for i, t in enumerate(close):
        yield 'close', 'DecisionTreeClassifier', [tl.TreeSpec((None, None), [(i % 2, t)], [onehot(0, 2), onehot(1, 2)])], 2, 2, 0
        yield 'close', 'DecisionTreeRegressor', [tl.TreeSpec((None, None), [(i % 2, t)], [[digits[i % 7]], [digits[(i+3) % 7]]])], 2, 0, None
    for v in digits:
        for d in (-numpy.inf, numpy.inf):
            yield 'digits', 'DecisionTreeRegressor', [tl.TreeSpec((None, None), [(0, 0.5)], [[v], [float(numpy.nextafter(numpy.float32(v), numpy.float32(d)))]])], 1, 0, None
            yield 'digits', 'RandomForestRegressor', [tl.TreeSpec(None, [], [[v]]), tl.TreeSpec(None, [], [[float(numpy.nextafter(numpy.float32(v), numpy.float32(d)))]])], 1, 0, None
    # shapes x node orders x voting mode
    for n in range(0, c.pick(4, 5)):
        for sh in tl.shapes(n):
            ords = tl.orders(sh)
            if n == 4:
                ords = [tl.preorder(sh), tl.bfs_order(sh)] + ords[::17]
            for oi, o in enumerate(ords):
                splits = [(k % 2, ths[(k*3+oi) % len(ths)]) for k in range(n)]
                nl, nc = n+1, max(2, n+1)
                yield 'hard', 'DecisionTreeClassifier', [tl.TreeSpec(sh, splits, [onehot(k, nc) for k in range(nl)], o)], 2, nc, 0
                yield 'soft', 'DecisionTreeClassifier', [tl.TreeSpec(sh, splits, [soft(k, nc) for k in range(nl)], o)], 2, nc, 2+oi % 7
                yield 'value', 'DecisionTreeRegressor', [tl.TreeSpec(sh, splits, [[alpha[(k+oi) % 6]] for k in range(nl)], o)], 2, 0, None
    # every leaf assignment (sharing)
    for n in (0, 1, 2):
        for sh in tl.shapes(n):
            splits = [(k % 2, ths[k]) for k in range(n)]
            for cl in itertools.product(range(3), repeat=n+1):
                yield 'hard', 'DecisionTreeClassifier', [tl.TreeSpec(sh, splits, [soft(k, 3) for k in cl])], 2, 3, 0
            for pl in itertools.product(DYADIC, repeat=n+1):
                yield 'soft', 'DecisionTreeClassifier', [tl.TreeSpec(sh, splits, [list(p) for p in pl])], 2, 2, 4 + len(set(pl))
            for vs in itertools.product(alpha, repeat=n+1):
                yield 'value', 'DecisionTreeRegressor', [tl.TreeSpec(sh, splits, [[v] for v in vs])], 2, 0, None
    # forests
    lib = small_library(3)
    for r in (2, 3):
        for i, ix in enumerate(itertools.product(range(len(lib)), repeat=r)):
            if r == 3 and (len(set(ix)) < 3 or (c.quick and i % 3)):
                continue
            yield 'forest', ['RandomForestClassifier', 'ExtraTreesClassifier'][i % 2], [lib[k] for k in ix], 2, 3, [0, 8, 3, 0, 2][i % 5]
    rl = [tl.TreeSpec(None, [], [[v]]) for v in alpha[:3]] + [tl.TreeSpec((None, None), [(0, 0.1)], [[a], [b]]) for a in alpha[:3] for b in alpha[2:5]]
    for i, ix in enumerate(itertools.product(range(len(rl)), repeat=2)):
        yield 'forest-value', ['RandomForestRegressor', 'ExtraTreesRegressor'][i % 2], [rl[k] for k in ix], 1, 0, None
    # ladders
    for nc in [2, 3, 5, 9, 10, 11, 29, 30, 31, 50, 127, 128, 255]:
        sh = comb(nc-1, nc % 2)
        yield 'classes', 'DecisionTreeClassifier', [tl.TreeSpec(sh, comb_splits(nc-1, nc % 2), [onehot(k, nc) for k in range(nc)])], 1, nc, 0
        yield 'classes-soft', 'DecisionTreeClassifier', [tl.TreeSpec(sh, comb_splits(nc-1, nc % 2), [soft(k, nc) for k in range(nc)])], 1, nc, 8
    for nf in [1, 3, 10, 100, 127, 128, 300]:
        specs = [tl.TreeSpec((None, None), [(f, 0.1)], [onehot(0, 2), onehot(1, 2)]) for f in sorted({0, nf//2, nf-1})]
        yield 'features', 'RandomForestClassifier', specs, nf, 2, 0
    for nt in (10, 100, 301):
        yield 'trees', 'RandomForestClassifier', [lib[k % len(lib)] for k in range(nt)], 2, 3, 0
    yield 'many-leaves', 'RandomForestRegressor', [tl.TreeSpec(comb(60, t % 2), comb_splits(60, t % 2), [[t*61+k+0.1] for k in range(61)]) for t in range(20)], 1, 0, None
    for n, nt in ((60, 20), (130, 9)) if c.quick else ((60, 20), (130, 9), (250, 30)):
        specs = [tl.TreeSpec(comb(n, t % 2), [((k*5+t) % 3, th) for k, (_, th) in enumerate(comb_splits(n, t % 2))], [[t*(n+1)+k+0.1] for k in range(n+1)]) for t in range(nt)]
        yield 'many-nodes', 'RandomForestRegressor', specs, 3, 0, None
        specs = [tl.TreeSpec(comb(n, t % 2), [((k*5+t) % 3, th) for k, (_, th) in enumerate(comb_splits(n, t % 2))], [soft((k+t) % 5, 5) for k in range(n+1)]) for t in range(nt)]
        yield 'many-nodes', 'RandomForestClassifier', specs, 3, 5, 0
        yield 'many-nodes', 'RandomForestClassifier', specs, 3, 5, 4


def run(c):
    import emlearn, os
    c.assume('scikit-learn Tree.apply and its leaf values are the reference',
             'documented format: children >= 0 are jumps relative to the node, children < 0 are leaf -child-1, left when feature <= threshold')
    for i, (tag, kind, specs, nf, nc, lb) in enumerate(programs(c)):
        est = tl.sk_estimator(kind, specs, nf, nc)
        reg = kind.endswith('Regressor')
        X = tl.inputs(specs, nf, limit=150)
        # inputs also on and next to fractional thresholds
        ths = sorted({(s.feature[k], s.threshold[k]) for s in specs for k in range(s.n) if s.left[k] >= 0})[:40]
        extra = []
        for f, t in ths:
            x = numpy.float32(t)
            for v in (x, numpy.nextafter(x, numpy.float32(-1e9)), numpy.nextafter(x, numpy.float32(1e9))):
                row = numpy.zeros(nf); row[f] = float(v); extra.append(row)
        if not X.size:
            X = numpy.zeros((1, nf))
        if extra:
            X = numpy.vstack([X, extra])
        if len(specs) > 50:
            X = X[:60]
        c.states += 1
        c.transitions += len(X)*len(specs)
        c.traces += len(X)
        c.count(tag)
        desc = dict(kind=kind, trees=[s.describe() for s in specs[:4]], leaf_bits=lb, n_features=nf, n_classes=nc)
        method = ('inline', 'loadable')[i % 2] if nc <= 30 and nf <= 127 else 'inline'
        kw = {} if lb is None else dict(leaf_bits=lb)
        wrapped = emlearn.convert(est, method=method, **kw)
        before = wrapped.save(name='m') if tag in ('many-nodes', 'forest') and method == 'inline' else None
        text = wrapped.save(name='m', format='csv')
        # saving changes nothing: neither the table nor the code
        if parse(wrapped.save(name='m', format='csv')) != parse(text):
            c.violation(f'second-save:{tag}:{i}', kind=kind, leaf_bits=lb, nodes=sum(s.n for s in specs))
        if before is not None and wrapped.save(name='m') != before:
            c.violation(f'save-changes-model:{tag}:{i}', kind=kind, leaf_bits=lb, nodes=sum(s.n for s in specs))
        try:
            m = parse(text)
            if m['f'] != nf or m['c'] != (0 if reg else nc) or m['lb'] != (32 if reg else lb) or len(m['r']) != len(specs):
                c.violation(f'header:{tag}:{i}', **desc, header={k: m[k] for k in ('f', 'c', 'lb')}, roots=len(m['r']))
                continue
            leaves = reach(m, X)
        except Malformed as e:
            c.violation(f'malformed:{tag}:{i}', **desc, what=str(e), text=text[:1500])
            continue
        src = tl.source_leaf_values(est, X)
        width = 1 if (reg or lb == 0) else nc
        wrong = [l for l in m['l'] if len(l) != width]
        if wrong:
            c.violation(f'leaf-width:{tag}:{i}', **desc, expected=width, leaf=wrong[0])
            continue
        L = numpy.array(m['l'])
        got = L[leaves]             # trees, rows, width
        if reg:
            bad = got[:, :, 0].astype('f4') != src[:, :, 0].astype('f4')
        elif lb == 0:
            bad = got[:, :, 0] != numpy.argmax(src, axis=2)
        else:
            tol = (0.5/(2**lb-2) + 1/255 + 1e-4)
            bad = numpy.abs(got/255.0-src).max(axis=2) > tol
        if bad.any():
            t, r = numpy.argwhere(bad)[0]
            c.violation(f'leaf:{tag}:{i}', **desc, tree=int(t), features=X[r].tolist(), source=src[t, r].tolist(), exported=got[t, r].tolist(), text=text[:1500])
        if tag == 'forest' and i % 50 == 0:
            c.sample(text=text, input=X[0], reached=leaves[:, 0])
    # files: same content, name derived
    est = tl.sk_estimator('RandomForestClassifier', small_library(3), 2, 3)
    p = os.path.join(c.scratch, 'model_x.csv')
    w = emlearn.convert(est, method='inline')
    t = w.save(file=p, format='csv')
    if parse(open(p).read()) != parse(t) or parse(t) != parse(w.save(name='m', format='csv')):
        c.violation('file', text=t[:500])
    c.bound(splits_exhaustive=3, forests='all pairs, triples of the library')
