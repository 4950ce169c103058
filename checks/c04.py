"""C04 exact split boundaries: every feature type x threshold grid x inputs next to the threshold and at the type limits."""
import itertools
import numpy
from mc import treelib as tl

f32 = numpy.float32
INTS = {'int8_t': (-128, 127), 'uint8_t': (0, 255), 'int16_t': (-32768, 32767), 'uint16_t': (0, 65535),
        'int32_t': (-2**31, 2**31-1), 'uint32_t': (0, 2**32-1)}
tl.CT.update({'uint32_t': numpy.uint32})


def thresholds_int(lo, hi, c):
    base = {0, 1, 2, 3, 7, 10, 63, 64, 100, lo, lo+1, lo+2, hi, hi-1, hi-2, lo-1, hi+1, lo//2, hi//2}
    for p in range(0, 33, c.pick(3, 1)):
        base |= {2**p, -2**p, 2**p-1, -2**p+1}
    out = set()
    for b in base:
        if b < 4*lo-10 or b > 4*hi+10:
            continue
        for d in c.pick((0.0, 0.5, 0.25, 0.999, 1e-3), (0.0, 0.5, -0.5, 0.25, 0.75, 0.999, 0.001, 1e-9, -1e-9, 0.49999999, 0.50000001)):
            out.add(float(b+d))
    out |= {1e-10, -1e-10, 1e10, -1e10, 1e300, -1e300, 0.1, 0.3, -0.1, -0.7}
    return sorted(out)


def thresholds_float(c):
    base = [0.0, 1e-45, 1.4e-45, 1e-40, 1.17549435e-38, 1e-30, 1e-20, 1e-10, 1e-8, 1.19e-7, 1e-7, 5e-7, 1e-6, 4.9e-7, 1e-5, 1e-4, 1e-3, 0.01, 0.1, 0.3,
            1/3, 0.5, 2/3, 0.9999999, 1.0, 1.0000001, 1.5, 2.0, 3.14159274, 10.1, 99.999, 100.0, 127.5, 1000.123, 12345.678, 65535.9, 99999.99,
            123456.789, 1e6, 1234567.8, 8388608.5, 16777216.0, 16777217.0, 16777219.0, 1e8, 2147483647.0, 2147483648.0, 4294967296.0, 1e10, 1e15, 1e20, 1e30, 1e38, 3.4028234e38,
            3.4028234663852886e38, 3.4028235677973366e38, 3.5e38, 1e39, 1e300]
    out = set()
    for b in base:
        with numpy.errstate(all='ignore'):
            x = f32(b)
        cand = {b}
        if numpy.isfinite(x):
            up, dn = float(numpy.nextafter(x, f32(numpy.inf))), float(numpy.nextafter(x, f32(-numpy.inf)))
            x = float(x)
            cand |= {x, (x+up)/2 if numpy.isfinite(up) else x, (x+dn)/2, x*(1+1e-9), x*(1-1e-9), x+(up-x)*0.49 if numpy.isfinite(up) else x}
        out |= cand | {-v for v in cand}
    return sorted(out)


def int_inputs(ths, lo, hi):
    vals = {lo, lo+1, hi-1, hi, 0, 1}
    if lo < 0:
        vals |= {-1}
    for t in ths:
        if abs(t) < 1e12:
            f = int(numpy.floor(t))
            vals |= {f-2, f-1, f, f+1, f+2}
    # neighbours which single precision can hold, so that the source model sees the same value
    for t in ths:
        if abs(t) < 2**33:
            x = f32(t)
            for v in (x, numpy.nextafter(x, f32(numpy.inf)), numpy.nextafter(x, f32(-numpy.inf))):
                if float(v) == int(v):
                    vals.add(int(v))
    return sorted(v for v in vals if lo <= v <= hi and float(f32(v)) == v)


def float_inputs(ths):
    vals = {0.0, 1.0, -1.0, float(f32(1e-45)), float(f32(-1e-45)), 3.4028234663852886e38, -3.4028234663852886e38}
    for t in ths:
        with numpy.errstate(all='ignore'):
            x = f32(t)
        if not numpy.isfinite(x):
            x = f32(numpy.copysign(3.4028234663852886e38, t))
        for v in (x, numpy.nextafter(x, f32(numpy.inf)), numpy.nextafter(x, f32(-numpy.inf))):
            if numpy.isfinite(v):
                vals.add(float(v))
    return sorted(vals)


def run(c):
    import emlearn
    c.assume('inputs are values that single precision holds exactly, so that scikit-learn (which casts to float32) and the C code see the same number',
             'scikit-learn Tree.apply is the reference')
    configs = []
    for d, (lo, hi) in INTS.items():
        ths = thresholds_int(lo, hi, c)
        for t in ths:
            configs.append((d, 'inline', [t]))
            if d == 'int16_t':
                configs.append((d, 'loadable', [t]))
    for d in ('float', 'double'):
        for t in thresholds_float(c):
            configs.append((d, 'inline', [t]))
    # two and three thresholds on one feature, close together
    for d, (lo, hi) in INTS.items():
        near = [t for t in (0.0, 0.5, 1.0, 1.5, 2.0, float(hi-1), hi-0.5, float(lo), lo+0.5) if lo <= t < hi]
        for a, b in itertools.product(near, repeat=2):
            for m in ('inline', 'loadable') if d == 'int16_t' else ('inline',):
                configs.append((d, m, [a, b]))
    near = [0.0, 1e-45, 1.0, 1.0000001, 0.99999997, 1e-7, 2e-7, 16777216.0, 16777217.0, 0.1]
    for a, b in itertools.product(near, repeat=2):
        configs.append(('float', 'inline', [a, b]))
    jobs, exp, refused = [], [], 0
    for i, (d, m, ths) in enumerate(configs):
        if len(ths) == 1:
            spec = tl.TreeSpec((None, None), [(0, ths[0])], [[1, 0], [0, 1]])
            nc = 2
        else:
            spec = tl.TreeSpec((None, (None, None)), [(0, t) for t in ths], [[1, 0, 0], [0, 1, 0], [0, 0, 1]])
            nc = 3
        est = tl.sk_estimator('DecisionTreeClassifier', [spec], 1, nc)
        c.states += 1
        c.count(d)
        if d in INTS:
            lo, hi = INTS[d]
            inside = all(lo <= t < hi for t in ths)
        else:
            lo, hi = -3.4028234663852886e38, 3.4028234663852886e38
            inside = all(lo <= t <= hi for t in ths)
        try:
            code = emlearn.convert(est, method=m, dtype=d).save(name=f'm{i}')
        except Exception as e:
            refused += 1
            c.transitions += 1
            if inside:
                c.violation(f'refused:{d}:{m}:{ths}', dtype=d, method=m, thresholds=ths, error=f'{type(e).__name__}: {e}')
            continue
        vals = int_inputs(ths, lo, hi) if d in INTS else float_inputs(ths)
        X = numpy.array(vals, dtype=float).reshape(-1, 1)
        leaves = est.tree_.apply(numpy.ascontiguousarray(X, dtype=f32))
        want = numpy.argmax(est.tree_.value[leaves, 0, :], axis=1)
        c.transitions += len(X)
        jobs.append(tl.Job(code, f'm{i}', 1, nc, True, X, dtype=d, tag=(d, m, ths)))
        exp.append(want)
    c.count('refused', refused)
    c.log('models', len(jobs), 'refused', refused)
    outs = tl.run_jobs(c, jobs, chunk=150)
    for j, o, want in zip(jobs, outs, exp):
        c.traces += len(o)
        bad = numpy.nonzero(o[:, 0] != want)[0]
        if len(bad):
            r = bad[0]
            d, m, ths = j.tag
            c.violation(f'branch:{d}:{m}:{ths}', dtype=d, method=m, thresholds=ths, feature=j.X[r][0],
                        feature_hex=float(j.X[r][0]).hex(), expected=int(want[r]), got=int(o[r][0]), bad_rows=len(bad))
    k = len(jobs)//2
    c.sample(model=jobs[k].tag, inputs=jobs[k].X[:5], outputs=outs[k][:5, 0])
    # the same through the Python API
    for d in ('int16_t', 'int8_t', 'float', 'int32_t', 'uint8_t'):
        ths = [0.5, 1.5, 100.0] if d != 'float' else [0.1, 1e-7, 16777217.0]
        for t in ths:
            spec = tl.TreeSpec((None, None), [(0, t)], [[1, 0], [0, 1]])
            est = tl.sk_estimator('DecisionTreeClassifier', [spec], 1, 2)
            X = numpy.array((int_inputs([t], -100 if d[0] != 'u' else 0, 120) if d != 'float' else float_inputs([t]))).reshape(-1, 1)
            want = numpy.argmax(est.tree_.value[est.tree_.apply(X.astype(f32)), 0, :], axis=1)
            got = numpy.array(emlearn.convert(est, method='inline', dtype=d).predict(X))
            c.traces += len(X); c.transitions += len(X)
            if (got != want).any():
                c.violation(f'python:{d}:{t}', X=X.tolist(), want=want.tolist(), got=got.tolist())
    c.bound(dtypes=list(INTS)+['float', 'double'], configurations=len(configs))
