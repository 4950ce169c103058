"""C06 tree conversion: the whole configuration lattice and size ladders through every capacity limit; faithful or refused."""
import itertools, warnings
from concurrent.futures import ThreadPoolExecutor
import numpy
from mc import treelib as tl, cbuild
from mc.treelib import onehot, soft, small_library, comb, comb_splits

CL = ['DecisionTreeClassifier', 'RandomForestClassifier', 'ExtraTreesClassifier']
RE = ['DecisionTreeRegressor', 'RandomForestRegressor', 'ExtraTreesRegressor']
DTYPES = [None, 'float', 'double', 'int8_t', 'int16_t', 'int32_t', 'uint8_t', 'uint16_t', 'uint32_t', 'int64_t', 'uint64_t', 'char', 'short', 'int', 'long',
          'unsigned char', 'unsigned short', 'unsigned int', 'unsigned long', 'float32', 'float64', 'int8', 'int16', 'uint8', 'uint16',
          'int4_t', 'half', 'int24_t', 'void', '', 'float16', 'bogus', 'int16_t*', 'const float']
METHODS = [None, 'inline', 'loadable', 'pymodule', 'bogus', '', 'Inline']
BITS = [None, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 31, 32, 33, 64, -1, -8, 255, 256, 1000]
RANGES = {'int8_t': (-128, 127), 'uint8_t': (0, 255), 'uint16_t': (0, 65535), 'uint32_t': (0, 10**6), 'char': (-128, 127), 'unsigned char': (0, 255),
          'int8': (-128, 127), 'uint8': (0, 255), 'uint16': (0, 65535), 'uint64_t': (0, 10**6), 'unsigned short': (0, 65535), 'unsigned int': (0, 10**6), 'unsigned long': (0, 10**6)}
CTYPE = {None: 'int16_t', 'float32': 'float', 'float64': 'double', 'int8': 'int8_t', 'int16': 'int16_t', 'uint8': 'uint8_t', 'uint16': 'uint16_t'}
# what the documentation promises to work: refusing these is not an option
MUST = lambda kind, m, d, b: (m in (None, 'inline', 'loadable') and (d in (None, 'int16_t') or (m != 'loadable' and d in ('float', 'int8_t', 'uint8_t', 'int32_t')))
                              and (b is None or (b in range(0, 9) and kind in CL) or (b == 32 and kind in RE)))


def expect(est, X, reg, lb, nc):
    """(value, probabilities, tolerance)"""
    v = tl.source_leaf_values(est, X)
    if reg:
        return v[:, :, 0].mean(axis=0), None, numpy.abs(v).max()*1e-6*(len(v)+2)
    if lb in (None, 0, 1):
        votes = numpy.zeros((len(X), nc))
        for t in range(len(v)):
            votes[numpy.arange(len(X)), numpy.argmax(v[t], axis=1)] += 1
        return numpy.argmax(votes, axis=1), votes/len(v), 1e-5
    return None, v.mean(axis=0), 0.5/(2**lb-2) + 1/255 + 1e-4


def judge(c, key, j, o, e, reg, detail):
    value, proba, tol = e
    if reg:
        bad = ~(numpy.abs(o[:, 0]-value) <= tol) | (o[:, 1] != 0)
    else:
        P = o[:, 2:2+j.nc]
        bad = (o[:, 1] != 0) | (o[:, 2+j.nc] != 0) | ~(numpy.abs(P-proba).max(axis=1) <= tol)
        if value is not None:
            bad |= o[:, 0] != value
        else:
            # the class with the highest reported probability; averages that only differ by rounding are ties
            cls = numpy.clip(o[:, 0], 0, j.nc-1).astype(int)
            bad |= (cls != o[:, 0]) | (P[numpy.arange(len(P)), cls] < P.max(axis=1)-1e-6)
    bad = numpy.nonzero(bad)[0]
    if len(bad):
        r = bad[0]
        c.violation(key, **detail, features=j.X[r][:40].tolist(), got=o[r][:60].tolist(), expected=None if value is None else value[r],
                    proba=None if proba is None else proba[r][:60].tolist(), tolerance=tol, bad_rows=len(bad))


def lattice(c):
    lib = small_library(3)
    pos = [tl.TreeSpec((None, None), [(0, 0.5)], [soft(0, 3), soft(1, 3)]), tl.TreeSpec(None, [], [soft(2, 3)]),
           tl.TreeSpec(((None, None), None), [(1, 2.5), (0, 7.0)], [soft(2, 3), soft(1, 3), soft(0, 3)])]
    neg = lib
    r_pos = [tl.TreeSpec((None, None), [(0, 0.5)], [[1.5], [-250.25]]), tl.TreeSpec(((None, None), None), [(1, 2.5), (0, 7.0)], [[3.0], [0.001], [7e5]])]
    r_neg = r_pos + [tl.TreeSpec((None, None), [(1, -3.5)], [[1.5], [9.0]])]
    for kind, m, d, b in itertools.product(CL+RE, METHODS, DTYPES, BITS):
        if c.quick and kind in (CL[2], RE[2]) and (d not in (None, 'float', 'int8_t', 'bogus')):
            continue
        if c.quick and m in ('pymodule', '', 'Inline') and d not in (None, 'float'):
            continue
        for sign in ('pos', 'neg'):
            reg = kind in RE
            if reg:
                specs = r_pos if sign == 'pos' else r_neg
            else:
                specs = pos if sign == 'pos' else neg
            if kind.startswith('DecisionTree'):
                specs = specs[-1:]
            yield (kind, m, d, b, sign), specs, 2, 0 if reg else 3


def ladders(c):
    """tag, kind, method, leaf_bits, specs, nf, nc, must_succeed"""
    for nc in [2, 3, 10, 29, 30, 31, 32, 33, 63, 64, 65, 100, 126, 127, 128, 129, 130, 254, 255, 256, 257, 300]:
        for side in (0, 1):
            sp = [tl.TreeSpec(comb(nc-1, side), comb_splits(nc-1, side), [soft(k, nc) for k in range(nc)])]
            for m, b in itertools.product(('inline', 'loadable'), (0, 8)):
                if side and m == 'inline' and nc > 100:
                    continue
                yield f'classes{nc}', CL[0], m, b, sp, 1, nc, nc <= 30
    for nf in [1, 2, 126, 127, 128, 129, 130, 254, 255, 256, 257, 300] + c.pick([1000], [1000, 5000, 9999, 10000, 10001, 20000]):
        fs = sorted({0, nf//2, nf-2 if nf > 1 else 0, nf-1})
        sp = [tl.TreeSpec((None, None), [(f, 0.5)], [onehot(0, 2), onehot(1, 2)]) for f in fs] + [tl.TreeSpec((None, None), [(nf-1, 0.5)], [onehot(0, 2), onehot(1, 2)])]*(len(fs)+1)
        rp = [tl.TreeSpec((None, None), [(f, 0.5)], [[1.0*k], [-7.0*k-1]]) for k, f in enumerate(fs)]
        for m in ('inline', 'loadable'):
            yield f'features{nf}', CL[1], m, 0, sp, nf, 2, nf <= 127
            yield f'features{nf}', RE[1], m, None, rp, nf, 0, nf <= 127
    # distance between a node and its right child, through the int16 limit
    def balanced(n):
        if n == 0:
            return None
        return (balanced((n-1)//2), balanced(n-1-(n-1)//2))
    for n in [126, 127, 128, 129, 254, 255, 256, 257] + c.pick([32766, 32767, 32768], [1000, 16384, 32764, 32765, 32766, 32767, 32768, 32769, 40000, 65534, 65535, 65536, 65537, 70000]):
        yield f'jump{n}', CL[0], 'loadable', 0, ('balanced', n, balanced), 2, 3, n < 32000
        if n < 1000:
            yield f'jump{n}', CL[0], 'inline', 0, ('balanced', n, balanced), 2, 3, True
    # many trees, so that node and leaf offsets grow through the limits of 8 and 16 bits
    for nt in [127, 128, 129, 255, 256, 257] + c.pick([700], [700, 2000, 5000]):
        lib = small_library(3)
        for m in ('inline', 'loadable'):
            if nt > 700 and m == 'inline':
                continue
            yield f'trees{nt}', CL[1], m, 0, [lib[k % len(lib)] for k in range(nt)], 2, 3, True
            yield f'trees{nt}', CL[2], m, 6, [lib[(3*k) % len(lib)] for k in range(nt)], 2, 3, True
    for nl in c.pick([130, 260, 1100, 2250], [130, 260, 1090, 1100, 2180, 2190, 2250, 4000]):
        # unique soft leaves x classes: byte offsets into the leaf table beyond 32767
        sp, k = [], 0
        while k < nl:
            n = min(50, nl-k)
            lv = []
            for q in range(k, k+n):
                v = [0.0]*30
                w = [0.6, 0.75, 0.9, 0.67, 0.82][q//870]
                v[q % 30] = w; v[(q + 1 + (q//30) % 29) % 30] = 1-w
                lv.append(v)
            sp.append(tl.TreeSpec(comb(n-1, len(sp) % 2), comb_splits(n-1, len(sp) % 2), lv)); k += n
        for m in ('inline', 'loadable'):
            yield f'softleaves{nl}', CL[1], m, 8, sp, 1, 30, True
    # deep trees
    for d in [30, 60] + c.pick([120], [90, 120, 180, 250, 400, 900]):
        for side in (0, 1):
            for m in ('inline', 'loadable'):
                yield f'depth{d}', CL[0], m, 0, [tl.TreeSpec(comb(d, side), comb_splits(d, side), [onehot(k % 4, 4) for k in range(d+1)])], 1, 4, d <= 120


def run(c):
    import emlearn
    warnings.simplefilter('ignore')
    c.assume('scikit-learn Tree.apply and its leaf values are the reference; a refusal is any Python exception')
    jobs, info = [], []
    n_refused = n_ok = 0
    for i, ((kind, m, d, b, sign), specs, nf, nc) in enumerate(lattice(c)):
        reg = nc == 0
        est = tl.sk_estimator(kind, specs, nf, nc)
        c.states += 1
        detail = dict(kind=kind, method=m, dtype=d, leaf_bits=b, trees=sign)
        try:
            w = emlearn.convert(est, method=m, dtype=d, leaf_bits=b)
            code = w.save(name=f'm{i}')
            if not isinstance(code, str):
                raise TypeError('no code')
        except Exception as e:
            n_refused += 1
            c.transitions += 1
            if MUST(kind, m, d, b) and not (sign == 'neg' and d in RANGES and RANGES[d][0] == 0):
                c.violation(f'refused:{kind}:{m}:{d}:{b}:{sign}', **detail, error=f'{type(e).__name__}: {e}')
            continue
        n_ok += 1
        lo, hi = RANGES.get(d, (-32768, 32767))
        X = tl.grid_for(specs, nf, lo=lo, hi=hi, extra=(lo, hi, max(lo, -1)))
        c.transitions += len(X)
        ct = CTYPE.get(d, d)
        jobs.append(tl.Job(code, f'm{i}', nf, nc, not reg, X, dtype=ct, tag=(kind, m, d, b, sign)))
        info.append((f'lattice:{kind}:{m}:{d}:{b}:{sign}', expect(est, X, reg, b, nc), reg, detail))
    c.count('lattice-accepted', n_ok); c.count('lattice-refused', n_refused)
    c.log('lattice', n_ok, 'accepted', n_refused, 'refused')
    for i, (tag, kind, m, b, specs, nf, nc, must) in enumerate(ladders(c)):
        if isinstance(specs, tuple):
            # balanced tree of n decision nodes below the left child of the root
            n, balanced = specs[1], specs[2]
            sh = (balanced(n), (None, None))
            specs = [tl.TreeSpec(sh, [(0, -0.5)] + [(1, float(k % 60000 - 30000)) for k in range(n)] + [(1, 0.5)], [onehot(k % 3, nc) for k in range(n+3)])]
            X = numpy.array([[a, v] for a in (-1, 0, 1) for v in (-32768, -30000, -29999, -15000, -1, 0, 1, 2, 100, 15000, 29999, 32767)], dtype=float)
        else:
            X = tl.inputs(specs, nf, limit=700)
            if nf > 150:
                X = X[:120]
        reg = nc == 0
        est = tl.sk_estimator(kind, specs, nf, nc)
        c.states += 1
        c.count('ladder')
        detail = dict(ladder=tag, kind=kind, method=m, leaf_bits=b, n_features=nf, n_classes=nc, n_trees=len(specs))
        try:
            code = emlearn.convert(est, method=m, leaf_bits=b).save(name=f'l{i}')
        except (Exception, RecursionError) as e:
            c.transitions += 1
            c.count('ladder-refused')
            if must:
                c.violation(f'refused:{tag}:{kind}:{m}:{b}', **detail, error=f'{type(e).__name__}: {str(e)[:300]}')
            continue
        c.transitions += len(X)
        jobs.append(tl.Job(code, f'l{i}', nf, nc, not reg, X, tag=(tag, kind, m, b)))
        info.append((f'ladder:{tag}:{kind}:{m}:{b}', expect(est, X, reg, b, nc), reg, detail))
    c.log('models to run', len(jobs))
    outs = tl.run_jobs(c, jobs, chunk=60)
    for j, o, (key, e, reg, detail) in zip(jobs, outs, info):
        c.traces += len(o)
        judge(c, key, j, o, e, reg, detail)
    c.sample(configuration=jobs[0].tag, inputs=jobs[0].X[:3], outputs=outs[0][:3])
    c.sample(configuration=jobs[-1].tag, inputs=jobs[-1].X[:3], outputs=outs[-1][:3])

    # save-time options
    lib = small_library(3)
    jobs, info = [], []
    k = 0
    for kind, d, m, inf, fmt, proba in itertools.product((CL[1], RE[1]), ('int16_t', 'float', 'int8_t'), ('inline', 'loadable'),
                                                         (None, ['inline'], ['loadable'], ['bogus'], []), ('c', 'bogus', None, 'C'), (True, False)):
        reg = kind in RE
        specs = lib if not reg else [tl.TreeSpec((None, None), [(0, 0.5)], [[1.5], [-250.25]])]
        est = tl.sk_estimator(kind, specs, 2, 0 if reg else 3)
        c.states += 1; c.transitions += 1
        k += 1
        try:
            code = emlearn.convert(est, method=m, dtype=d).save(name=f's{k}', inference=inf, format=fmt, include_proba=proba)
        except Exception as e:
            continue
        if fmt != 'c' or (inf is not None and inf not in (['inline'], ['loadable'])):
            c.violation(f'ignored-option:{inf}:{fmt}', kind=kind, inference=inf, format=fmt)
            continue
        if not proba and not reg:
            if f's{k}_predict_proba' in code:
                c.violation(f'include_proba:{m}', note='include_proba=False still generates the function')
            code += f'\nint s{k}_predict_proba(const {d} *f, int n, float *out, int no) {{ memset(out, 0, sizeof(float)*no); return 0; }}\n'
        X = tl.inputs(specs, 2)
        X = X[(X >= -128).all(axis=1) & (X <= 127).all(axis=1)]
        jobs.append(tl.Job(code, f's{k}', 2, 0 if reg else 3, not reg, X, dtype=d, tag=(kind, d, m, inf, proba)))
        info.append((expect(est, X, reg, None, 3), reg, proba))
    outs = tl.run_jobs(c, jobs)
    for j, o, (e, reg, proba) in zip(jobs, outs, info):
        c.traces += len(o)
        bad = numpy.abs(o[:, 0]-e[0]) > (e[2] if reg else 0)
        if proba and not reg:
            bad |= numpy.abs(o[:, 2:5]-e[1]).max(axis=1) > e[2]
        if bad.any():
            r = numpy.nonzero(bad)[0][0]
            c.violation(f'save:{j.tag}', configuration=str(j.tag), features=j.X[r].tolist(), got=o[r].tolist(), expected=e[0][r])

    # an error status must never be reported as a class or value through the Python API
    todo = []
    for kind, m, b, d in [(CL[1], 'inline', 0, None), (CL[1], 'loadable', 0, None), (CL[1], 'inline', 8, 'float'), (CL[1], 'loadable', 8, None),
                          (RE[1], 'inline', None, None), (RE[1], 'loadable', None, None), (RE[1], 'inline', None, 'float'), (CL[0], 'inline', 3, 'int8_t')]:
        reg = kind in RE
        specs = lib if not reg else [tl.TreeSpec((None, None), [(1, 0.5)], [[1.5], [-250.25]])]
        if kind == CL[0]:
            specs = specs[-1:]
        est = tl.sk_estimator(kind, specs, 2, 0 if reg else 3)
        todo.append((kind, m, b, d, est, emlearn.convert(est, method=m, leaf_bits=b, dtype=d), reg))
    def probe(t):
        kind, m, b, d, est, w, reg = t
        out = []
        for width in (1, 2, 3, 5):
            for fn in ('predict',) + (() if reg else ('predict_proba',)):
                X = numpy.ones((2, width))
                try:
                    r = getattr(w, fn)(X)
                    out.append((width, fn, 'value', numpy.array(r).tolist()))
                except Exception as e:
                    out.append((width, fn, 'error', f'{type(e).__name__}'))
        return out
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(probe, todo))
    for t, out in zip(todo, res):
        for width, fn, what, val in out:
            c.states += 1; c.transitions += 1; c.traces += 1
            if (what == 'error') != (width != 2):
                c.violation(f'python-error:{t[0]}:{t[1]}:{t[2]}:{fn}:{width}', kind=t[0], method=t[1], leaf_bits=t[2], features_given=width, features_model=2, call=fn, outcome=what, value=val)
    c.bound(methods=[str(m) for m in METHODS], dtypes=[str(d) for d in DTYPES], leaf_bits=[str(b) for b in BITS],
            classes='2..300', features=c.pick('1..1000', '1..20000'), jump=c.pick('up to 32769', 'up to 70001'), trees=c.pick('up to 700', 'up to 5000'))
