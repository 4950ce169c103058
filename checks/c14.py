"""C14 elliptic envelope: precision matrices x means x offsets x inputs on the generated code, rigorous single-precision bound."""
import itertools
from concurrent.futures import ThreadPoolExecutor
import numpy
from mc import big, batch
from mc.netlib import no_compile

U = 2.0**-24


def model(mean, prec, offset):
    from sklearn.covariance import EllipticEnvelope
    m = EllipticEnvelope()
    m.location_ = numpy.array(mean, float)
    m.precision_ = numpy.array(prec, float)
    m.covariance_ = numpy.linalg.inv(m.precision_)
    m.support_ = numpy.ones(3, bool)
    m.offset_ = float(offset)
    m.dist_ = numpy.zeros(3)
    m.n_features_in_ = len(mean)
    return m


def reference(m, X):
    d = X - m.location_
    P = m.precision_
    dist = numpy.einsum('ri,ij,rj->r', d, P, d)
    n = len(P)
    a = numpy.abs(d)
    big = a + 1.01*U*(numpy.abs(m.location_) + 2*a)
    e = numpy.einsum('ri,ij,rj->r', big, numpy.abs(P), big)*(1+(2*n+8)*1.01*U) - numpy.einsum('ri,ij,rj->r', a, numpy.abs(P), a)
    return dist, e + 1e-37*n*n*(1+a.max(axis=1))**2      # underflow of products


def spd(n, diags, offs):
    """all symmetric positive definite matrices with entries from the grids (off-diagonals relative to the diagonal)"""
    for dg in itertools.product(diags, repeat=n):
        for of in itertools.product(offs, repeat=n*(n-1)//2):
            P = numpy.diag(numpy.array(dg, float))
            for (i, j), r in zip(itertools.combinations(range(n), 2), of):
                P[i, j] = P[j, i] = r*numpy.sqrt(dg[i]*dg[j])
            if numpy.linalg.eigvalsh(P/numpy.sqrt(numpy.outer(dg, dg)))[0] > 1e-4:
                yield P


def programs(c):
    means1 = [0.0, 1.5, -1000.25, 1e6, 1e-5]
    offs = [-1e-6, -0.5, -3.84, -10.0, -1e4, -12345678.0]
    for mu, p, o in itertools.product(means1, [1e-8, 1e-3, 0.7, 1.0, 50.0, 1e6, 1e9], offs):
        yield '1-feature', model([mu], [[p]], o)
    for P in spd(2, [1e-6, 0.3, 1.0, 2000.0], [0, 0.5, -0.5, 0.99, -0.99, 0.1]):
        for mu, o in (([0, 0], -1.0), ([3.0, -2.0], -7.38), ([1e3, 1e-3], -0.01), ([-5.0, 1e5], -300.0)):
            yield '2-features', model(mu, P, o)
    for P in spd(3, c.pick([0.1, 30.0], [0.1, 1.0, 30.0]), c.pick([0, 0.6, -0.45], [0, 0.9, 0.6, -0.45, -0.9])):
        yield '3-features', model([1.0, -20.0, 0.25], P, -9.2)
        yield '3-features', model([0.0, 0.0, 0.0], P, -2.0)
    for nf in list(range(4, 20)) + [31, 32, 33, 63, 64, 65, 100, 127, 128, 129] + c.pick([], [200, 255, 256, 257]):
        i = numpy.arange(nf)
        R = numpy.eye(nf) + 0.3*(numpy.abs(i[:, None]-i[None]) == 1) - 0.05*(numpy.abs(i[:, None]-i[None]) == 2)
        s = 1.0 + (i % 4)
        yield 'features', model((i*7 % 11)-5.0, R*numpy.outer(s, s), -1.5*nf)
        yield 'features', model(i*0.5, numpy.diag(1.0/(1+i)), -float(nf))


def exact_models():
    """distances and boundaries without any rounding, so that points exactly on the boundary are decided too"""
    for mu, P in (([0], [[1]]), ([3], [[4]]), ([1, -2], [[1, 0], [0, 1]]), ([0, 0], [[2, 1], [1, 3]]), ([2, 1], [[1, -0.5], [-0.5, 0.5]]), ([1, 0, -1], [[2, 1, 0], [1, 2, 0.5], [0, 0.5, 1]])):
        d = sorted(set(reference(model(mu, P, -1), lattice(len(mu)))[0]))
        for v in [v for v in d if v > 0 and float(2*numpy.sqrt(v)).is_integer()]: # scikit-learn takes the square root in between
            yield 'exact', model(mu, P, -v)


def lattice(n):
    return numpy.array(list(itertools.product(range(-4, 5) if n < 3 else range(-2, 4), repeat=n)), float)


def inputs(m):
    n = len(m.location_)
    if hasattr(m, 'exact'): return lattice(n)
    sd = 1/numpy.sqrt(numpy.diag(m.precision_))
    edge = numpy.sqrt(-m.offset_)
    ks = [0, 1, -1, 2.5, edge*0.98, edge*1.02, -edge*1.02, 30, -1e3]
    if n == 1:
        rows = [m.location_+k*sd for k in ks] + [[v] for v in (0.0, 1.0, -1.0, 1e4, -3e5)]
    elif n == 2:
        rows = [m.location_+sd*numpy.array(k) for k in itertools.product(ks, repeat=2)] + [[0, 0], [1e4, -1e4]]
    elif n == 3:
        rows = [m.location_+sd*numpy.array(k) for k in itertools.product([0, 1, -edge*0.6, 3.0], repeat=3)]
    else:
        rows = [m.location_, m.location_*0, m.location_+sd, m.location_-3*sd, m.location_ + sd*((numpy.arange(n) % 2)*2-1)]
        for k in range(n):
            for t in (2.0, -edge*1.01, edge*0.99):
                rows.append(m.location_+t*sd*(numpy.arange(n) == k))
    return numpy.array(rows, numpy.float32).astype(float)


BODY = r'''
    float dist = -77.0f;
    o[0] = eml_elliptic_envelope_predict(&%(n)s_classifier, f, %(nf)d, &dist);
    o[1] = dist;
    o[2] = %(n)s_predict(f, %(nf)d);
    o[3] = eml_elliptic_envelope_predict(&%(n)s_classifier, f, %(nf)d, NULL);
    o[4] = 0;
    if (r < 2) { const int bad[] = {-1, 0, %(nf)d-1, %(nf)d+1, %(nf)d+256, -%(nf)d, 2*%(nf)d};
        for (int q=0; q<7; q++) { const int len = bad[q];
            float *g = malloc(sizeof(float)*(len > 0 ? len : 0)); for (int k=0; k<len; k++) g[k] = f[0];
            float d2 = -5.0f;
            if (eml_elliptic_envelope_predict(&%(n)s_classifier, g, len, &d2) >= 0) o[4] = 1;
            if (!isnan(%(n)s_predict(g, len))) o[4] = 2;
            free(g); } }
    for (int k=0; k<%(nf)d; k++) if (f[k] != (float)in[(size_t)r*%(nf)d+k]) o[4] = 3;
    if (r > 0) { float d3; float *g = malloc(sizeof(float)*%(nf)d); for (int k=0; k<%(nf)d; k++) g[k] = (float)in[(size_t)(r-1)*%(nf)d+k];
        eml_elliptic_envelope_predict(&%(n)s_classifier, g, %(nf)d, &d3); if (d3 != (float)o[-4]) o[4] = 4; free(g); }
'''


def run(c):
    import emlearn
    c.assume('reference: float64 quadratic form of the source model, checked against scikit-learn', 'decisions are compared where the distance is further from the boundary than the rounding bound, and everywhere for models computed without rounding')
    jobs, info = [], []
    with no_compile():
        for i, (tag, m) in enumerate(itertools.chain(programs(c), exact_models())):
            if tag == 'exact': m.exact = True
            X = inputs(m)
            dist, e = reference(m, X)
            if i % 25 == 0 and m.precision_.max() < 1e3:
                src = m.mahalanobis(X)
                if not numpy.allclose(src, dist, rtol=1e-6, atol=1e-9) or (m.predict(X) != numpy.where(-dist >= m.offset_, 1, -1)).any():
                    from mc.core import Harness
                    raise Harness(f'reference {m.location_} {m.precision_}')
            keep = dist < 1e37
            if tag == 'exact': e = e*0
            X, dist, e = X[keep], dist[keep], e[keep]
            c.states += 1; c.count(tag)
            name = f'e{i}'
            jobs.append(batch.Job(emlearn.convert(m, method='inline').save(name=name), BODY % dict(n=name, nf=X.shape[1]), X.shape[1], 5, X,
                                  tag=dict(tag=tag, mean=m.location_[:6], precision=m.precision_[:4, :4], offset=m.offset_)))
            info.append((m, dist, e))
    c.log('models', len(jobs))
    outs = batch.run_jobs(c, jobs, chunk=40)
    for j, o, (m, dist, e) in zip(jobs, outs, info):
        c.transitions += len(o); c.traces += len(o)
        tol = e + 3*U*numpy.abs(m.offset_) + 2*U*numpy.abs(dist)
        far = (numpy.abs(-dist - m.offset_) > tol) | hasattr(m, 'exact')
        want = (-dist < m.offset_).astype(int)
        bad = (numpy.abs(o[:, 1]-dist) > e) | (o[:, 2] != o[:, 1]) | (o[:, 0] != o[:, 3]) | (far & (o[:, 0] != want)) | ~numpy.isin(o[:, 0], (0, 1)) | (o[:, 4] != 0)
        c.count('outliers', int(want.sum())); c.count('inliers', int((1-want).sum())); c.count('undecided', int((~far).sum()))
        if bad.any():
            r = numpy.nonzero(bad)[0][0]
            c.violation(j.tag['tag'], **{k: v for k, v in j.tag.items()}, features=j.X[r][:20], got=o[r], expected_distance=dist[r], bound=e[r], expected_outlier=int(want[r]),
                        note='got: decision, distance, <name>_predict, decision without distance, flag (1,2: wrong feature count accepted, 3: input modified, 4: not repeatable)')
    c.sample(model=jobs[1].tag, inputs=jobs[1].X[:4], out=outs[1][:4], bound=info[1][2][:4])
    # through Python
    ms = [model([0.0], [[1.0]], -2.0), model([3.0, -2.0], [[2.0, 0.5], [0.5, 1.0]], -4.0), model(numpy.arange(12.0), numpy.eye(12)*0.5, -20.0)]
    from sklearn.covariance import EllipticEnvelope
    grid = numpy.array(list(itertools.product(range(6), range(7))), float)
    fitted = EllipticEnvelope(random_state=1, contamination=0.2).fit(grid)
    ms.append(fitted)
    ms.append(EllipticEnvelope(random_state=1, contamination=0.1, store_precision=False).fit(grid*[1, 0.1]+[5, 7]))
    for t, m in list(exact_models())[::3]:
        m.exact = True; ms.append(m)
    with ThreadPoolExecutor(8) as ex:
        ws = list(ex.map(lambda m: emlearn.convert(m, method='inline'), ms))
    for k, (m, w) in enumerate(zip(ms, ws)):
        X = grid if k in (3, 4) else inputs(m)
        m2 = model(m.location_, m.get_precision(), m.offset_)
        dist, e = reference(m2, X.astype(numpy.float32).astype(float))
        e = e + numpy.abs(m.mahalanobis(X) - dist)
        c.states += 1; c.transitions += 4*len(X); c.traces += len(X)
        got = numpy.asarray(w.mahalanobis(X)); sc = numpy.asarray(w.score_samples(X)); pr = numpy.asarray(w.predict(X))
        far = (numpy.abs(-dist-m.offset_) > e + 1e-6*numpy.abs(m.offset_)) | hasattr(m, 'exact')
        if got.shape != dist.shape or (numpy.abs(got-dist) > e+1e-30).any() or (sc != -got).any() or (far & (pr != m.predict(X))).any() or not numpy.isin(pr, (-1, 1)).all():
            c.violation(f'python:{k}', got=got[:10], want=dist[:10], predict=pr[:20], source=m.predict(X)[:20])
        n = X.shape[1]
        for width in (n-1, n+1, 2*n):
            for fn in ('predict', 'score_samples', 'mahalanobis'):
                c.transitions += 1
                if width:
                    try:
                        r = getattr(w, fn)(numpy.ones((2, width)))
                        c.violation(f'python-length:{fn}', width=width, features=n, got=r)
                    except Exception:
                        pass
    big.large(c, 'envelope')
    c.bound(features='1..129 (257 thorough)', models=len(jobs))
