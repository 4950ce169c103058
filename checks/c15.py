"""C15 Gaussian mixtures: covariance types x components x features x weights x inputs on the generated code, rigorous single-precision bound."""
import itertools
from concurrent.futures import ThreadPoolExecutor
import numpy
from mc import big, batch, drive
from mc.netlib import no_compile

U = 2.0**-24
TYPES = ('full', 'tied', 'diag', 'spherical')


def gmm(ctype, means, covs, weights, bayes=None):
    from sklearn.mixture import GaussianMixture, BayesianGaussianMixture
    from sklearn.mixture._gaussian_mixture import _compute_precision_cholesky
    means = numpy.array(means, float)
    k, n = means.shape
    if bayes is None:
        m = GaussianMixture(n_components=k, covariance_type=ctype)
        m.weights_ = numpy.array(weights, float)
    else:
        prior, dof, mp = bayes
        m = BayesianGaussianMixture(n_components=k, covariance_type=ctype, weight_concentration_prior_type=prior)
        w = numpy.array(weights, float)
        m.weight_concentration_ = (1+w*20, 1+(1-w)*7) if prior == 'dirichlet_process' else 1+w*20
        m.weights_ = w
        m.degrees_of_freedom_ = n + numpy.array([dof+0.5*i for i in range(k)]) if ctype != 'tied' else float(n+dof)
        m.mean_precision_ = numpy.array([mp+i for i in range(k)], float)
    m.means_ = means
    m.covariances_ = numpy.array(covs, float)
    m.precisions_cholesky_ = _compute_precision_cholesky(m.covariances_, ctype)
    m.converged_, m.n_iter_, m.lower_bound_, m.n_features_in_ = True, 1, 0.0, n
    return m


def chol(m):
    k, n = m.means_.shape
    P = m.precisions_cholesky_
    t = m.covariance_type
    if t == 'full': return P
    if t == 'tied': return numpy.array([P]*k)
    if t == 'diag': return numpy.array([numpy.diag(a) for a in P])
    return numpy.array([a*numpy.eye(n) for a in P])


def reference(m, X):
    """weighted log densities of the source, bound of the error of each"""
    k, n = m.means_.shape
    P = chol(m)
    lp = m._estimate_weighted_log_prob(X) if hasattr(m, '_estimate_weighted_log_prob') else None
    lw = numpy.abs(m._estimate_log_weights())
    e = numpy.zeros((len(X), k))
    for c in range(k):
        y = (X-m.means_[c])@P[c]
        mag = (numpy.abs(X)+numpy.abs(m.means_[c]))@numpy.abs(P[c])
        ey = mag*(n+6)*1.01*U
        q = (2*numpy.abs(y)*ey + ey*ey + (n+3)*1.01*U*(numpy.abs(y)+ey)**2).sum(axis=1)
        ld = numpy.abs(numpy.log(numpy.abs(numpy.diag(P[c])))).sum()
        extra = 40*n if hasattr(m, 'degrees_of_freedom_') else 0
        e[:, c] = 0.5*q + 4*U*(0.5*(n*1.84 + (y*y).sum(axis=1)) + ld + lw[c] + extra) + 4*U*numpy.abs(lp[:, c])
    return lp, e


def covariances(ctype, k, n, s, r):
    """s: scale, r: correlation"""
    def full(a):
        C = numpy.full((n, n), 0.0)
        for i in range(n):
            for j in range(n):
                C[i, j] = (r if i != j and abs(i-j) == 1 else (1.0 if i == j else 0.0))*numpy.sqrt((1+i % 3)*(1+j % 3))
        return C*a
    sc = [s*(1+0.75*(c % 4)) for c in range(k)]
    if ctype == 'full': return [full(a) for a in sc]
    if ctype == 'tied': return full(s)
    if ctype == 'diag': return [[a*(1+(i+c) % 3) for i in range(n)] for c, a in enumerate(sc)]
    return sc


def programs(c):
    scales = c.pick([1e-4, 1.0, 900.0], [1e-6, 1e-4, 0.3, 1.0, 900.0, 1e6])
    weights = {1: [[1.0]], 2: [[0.5, 0.5], [0.999, 0.001], [1e-9, 1-1e-9]], 3: [[0.2, 0.5, 0.3]]}
    bayes = [None] + [(p, d, mp) for p in ('dirichlet_process', 'dirichlet_distribution') for d, mp in ((1.0, 1.0), (30.0, 200.0))]
    for t, k, n, s, b in itertools.product(TYPES, (1, 2, 3), (1, 2, 3), scales, bayes):
        for w in weights[k]:
            for r in ((0.0, 0.49, -0.3) if t in ('full', 'tied') and n > 1 else (0.0,)):
                if c.quick and b is not None and r == 0.49:
                    continue
                for gap in (0.0, 2.0, 40.0):
                    if k == 1 and gap: continue
                    if c.quick and b is not None and gap == 40.0: continue
                    means = [[gap*numpy.sqrt(s)*ci*(1 if f % 2 == 0 else -1) + f for f in range(n)] for ci in range(k)]
                    yield f'{t}{"-bayes" if b else ""}', gmm(t, means, covariances(t, k, n, s, r), w, b)
    for n in list(range(4, 12)) + [15, 16, 17, 31, 32, 33, 64, 65, 100, 128]:
        for t in TYPES if n < 40 else ('full', 'diag'):
            yield f'features-{t}', gmm(t, [[(f*3+ci*2) % 7 for f in range(n)] for ci in range(2)], covariances(t, 2, n, 1.5, 0.3), [0.4, 0.6])
    for k in list(range(4, 12)) + [15, 16, 17, 31, 32, 33, 64, 100, 128, 200, 256, 300]:
        for t in TYPES if k < 40 else ('full', 'spherical'):
            yield f'components-{t}', gmm(t, [[ci*1.5, -ci] for ci in range(k)], covariances(t, k, 2, 1.0, 0.2), [(1+ci % 3)/sum(1+i % 3 for i in range(k)) for ci in range(k)])
    for b in bayes[1:]:
        for n, k in ((5, 5), (9, 3), (17, 2)):
            for t in TYPES:
                yield f'size-{t}-bayes', gmm(t, [[(f+ci) % 4 for f in range(n)] for ci in range(k)], covariances(t, k, n, 2.0, 0.25), [1.0/k]*k, b)


def inputs(m):
    k, n = m.means_.shape
    sd = float(1/numpy.abs(chol(m)[0, 0, 0]))
    rows = []
    for c in range(min(k, 4)):
        for d in (0.0, 1.0, -2.5, 6.0):
            rows.append(m.means_[c]+d*sd)
            rows.append(m.means_[c]+d*sd*((numpy.arange(n) % 2)*2-1))
    rows.append((m.means_[0]+m.means_[-1])/2)
    for far in (50.0, -1e3, 1e4, 3e5):
        rows.append(m.means_[0]+far*sd)
        rows.append((m.means_[0]+m.means_[-1])/2 + far*sd*((numpy.arange(n) % 2)*2-1))
    rows += [[0.0]*n, [1.0]*n, [-3.5]*n]
    return numpy.array(rows, numpy.float32).astype(float)


BODY = r'''
    const int k = %(k)d;
    float *p = malloc(sizeof(float)*k), *q = malloc(sizeof(float)*k), *s = malloc(sizeof(float)), *g = malloc(sizeof(float)*k);
    o[0] = 0;
    if (%(n)s_predict_log_proba(f, %(nf)d, p) != 0) o[0] = 1;
    for (int i=0; i<k; i++) o[2+i] = p[i];
    memset(g, 0, sizeof(float)*k);
    if (%(n)s_score(f, %(nf)d, g, s) != 0) o[0] = 2;
    if (memcmp(g, p, sizeof(float)*k)) o[0] = 3;
    o[1] = *s;
    memset(g, 0, sizeof(float)*k); *s = -1;
    if (%(n)s_predict_proba(f, %(nf)d, g, s, q) != 0) o[0] = 4;
    if (memcmp(g, p, sizeof(float)*k) || *s != (float)o[1]) o[0] = 5;
    for (int i=0; i<k; i++) o[2+k+i] = q[i];
    for (int i=0; i<%(nf)d; i++) if (f[i] != (float)in[(size_t)r*%(nf)d+i]) o[0] = 6;
    if (r < 2) { const int bad[] = {-1, 0, %(nf)d-1, %(nf)d+1, %(nf)d+256, 2*%(nf)d};
        for (int t=0; t<6; t++) { const int len = bad[t];
            float *h = malloc(sizeof(float)*(len > 0 ? len : 0)); for (int i=0; i<len; i++) h[i] = f[0];
            if ((int32_t)%(n)s_predict_log_proba(h, len, p) >= 0 || (int32_t)%(n)s_score(h, len, p, s) >= 0 || (int32_t)%(n)s_predict_proba(h, len, p, s, q) >= 0) o[0] = 7;
            free(h); } }
    free(p); free(q); free(s); free(g);
'''
HELPERS = r'''
#include <eml_mixture.h>
static const float A[] = { -3e38f, -87.5f, -1.5f, 0, 2, 88.25f, 3e38f };
static void one(float *x, int n, const char *how) {
    float lo = x[0], hi = x[0]; for (int i=1; i<n; i++) { if (x[i] < lo) lo = x[i]; if (x[i] > hi) hi = x[i]; }
    mc_states++; mc_traces++; mc_transitions += 5;
    for (int m=0; m<4; m++) {
        float a = 7, b = 7; EmlError e = eml_minmax(x, n, m & 1 ? &a : NULL, m & 2 ? &b : NULL);
        if (e != EmlOk || a != (m & 1 ? lo : 7) || b != (m & 2 ? hi : 7)) mc_fail("minmax", "%s %d values, first %g last %g: %g %g expected %g %g", how, n, x[0], x[n-1], a, b, lo, hi);
    }
    double sum = 0; for (int i=0; i<n; i++) sum += exp((double)x[i]-hi);
    float s = 7; EmlError e = eml_logsumexp(x, n, &s); double want = hi+log(sum);
    if (e != EmlOk || !(fabs(s-want) <= 1e-6*fabs(want)+n*2e-7+1e-6)) mc_fail("logsumexp", "%s %d values, first %g last %g: %g expected %g", how, n, x[0], x[n-1], s, want);
}
int main(int argc, char **argv) {
    for (int n=1; n<=atoi(argv[1]); n++) { long total = 1; for (int i=0; i<n; i++) total *= 7;
        for (long w=0; w<total; w++) { float *x = mc_buf(sizeof(float)*n), *k = mc_buf(sizeof(float)*n); long v = w; for (int i=0; i<n; i++) { x[i] = k[i] = A[v%7]; v /= 7; } one(x, n, "word"); if (memcmp(x, k, sizeof(float)*n)) mc_fail("changed", "%d values", n); free(x); free(k); } }
    for (int n=1; n<=70000; n = n < 300 ? n+1 : n*2+1) for (int up=-1; up<=1; up++) { float *x = mc_buf(sizeof(float)*n); for (int i=0; i<n; i++) x[i] = up ? up*(i-n/2)*0.5f : (float)((i*7919LL)%1009)-500; one(x, n, "ladder"); free(x); }
    for (int n=0; n<=40; n++) for (int i=0; i<=n; i++) { float *a = mc_buf(sizeof(float)*n), *b = mc_buf(sizeof(float)*n); long want = 0; for (int j=0; j<n; j++) { a[j] = (float)(j%5-2+(j==i)*100); b[j] = (float)(j%7-3); want += (j%5-2+(j==i)*100)*(j%7-3); } mc_states++; mc_transitions++; float g = eml_dot_product(a, b, n); if (g != want) mc_fail("dot", "%d values: %g expected %ld", n, g, want); free(a); free(b); }
    return mc_end();
}
'''
NOTE = 'status 1,2,4: call failed; 3,5: entry points disagree; 6: input modified; 7: wrong feature count accepted'


def verdict(lp, e, src_score, src_resp, score, resp, logp=None):
    """rows that are wrong"""
    from scipy.special import logsumexp
    bad = numpy.zeros(len(lp), bool)
    emax = e.max(axis=1)
    if logp is not None:
        bad |= (numpy.abs(logp-lp) > e).any(axis=1)
    if score is not None:
        bad |= numpy.abs(score-src_score) > emax + 6*U*(1+numpy.abs(src_score)) + (lp.shape[1]+4)*U
    if resp is not None:
        # likely components decide: error of a log difference
        two = 2*emax[:, None]
        lr = lp - logsumexp(lp, axis=1, keepdims=True)
        lo, hi = numpy.exp(lr-two)-1e-5, numpy.exp(numpy.minimum(lr+two, 1))+1e-5
        assert (numpy.abs(numpy.exp(lr)-src_resp) < 1e-4).all() or (numpy.abs(lp) > 1e9).any()
        bad |= ((resp < numpy.maximum(lo, 0)) | (resp > numpy.minimum(hi, 1.000001))).any(axis=1) | (numpy.abs(resp.sum(axis=1)-1) > 1e-5 + lp.shape[1]*2*U) | ~numpy.isfinite(resp).all(axis=1)
        s = numpy.sort(lp, axis=1)
        if lp.shape[1] > 1:
            dec = (s[:, -1]-s[:, -2]) > two[:, 0] + 1e-6
            bad |= dec & (numpy.argmax(resp, axis=1) != numpy.argmax(lp, axis=1))
    return bad


def run(c):
    import emlearn
    c.assume('scikit-learn log densities, scores and responsibilities in float64 are the reference', 'bound: standard rounding analysis of the dot products, norm and sums in single precision')
    jobs, info = [], []
    with no_compile():
        for i, (tag, m) in enumerate(programs(c)):
            X = inputs(m)
            lp, e = reference(m, X)
            keep = numpy.abs(lp).max(axis=1) < 1e37
            X, lp, e = X[keep], lp[keep], e[keep]
            c.states += 1; c.count(tag)
            k, n = m.means_.shape
            name = f'g{i}'
            method = ('loadable', 'inline', None)[i % 3]
            jobs.append(batch.Job(emlearn.convert(m, method=method).save(name=name), BODY % dict(n=name, nf=n, k=k), n, 2+2*k, X,
                                  tag=dict(tag=tag, means=m.means_[:4, :6], chol=chol(m)[:2, :4, :4], weights=m.weights_[:6])))
            info.append((m, lp, e, m.score_samples(X), m.predict_proba(X)))
    c.log('models', len(jobs))
    outs = batch.run_jobs(c, jobs, chunk=60)
    for j, o, (m, lp, e, ss, pp) in zip(jobs, outs, info):
        k = lp.shape[1]
        c.transitions += len(o)*3; c.traces += len(o)
        bad = verdict(lp, e, ss, pp, o[:, 1], o[:, 2+k:], o[:, 2:2+k]) | (o[:, 0] != 0)
        c.count('tight-rows', int((e.max(axis=1) < 1e-2).sum())); c.count('rows', len(o))
        if bad.any():
            r = numpy.nonzero(bad)[0][0]
            c.violation(j.tag['tag'], **{a: b for a, b in j.tag.items()}, features=j.X[r][:20], status=o[r, 0], note=NOTE, log_proba=o[r, 2:2+k][:10], source_log_proba=lp[r][:10], bound=e[r][:10],
                        score=o[r, 1], source_score=ss[r], resp=o[r, 2+k:][:10], source_resp=pp[r][:10])
    c.sample(model=jobs[40].tag, inputs=jobs[40].X[:3], out=outs[40][:3], bound=info[40][2][:3])
    # through Python: every covariance type, both estimators
    ms = [gmm(t, [[0.0, 1.0], [3.0, -1.0], [-200.0, 5.0]], covariances(t, 3, 2, 2.0, 0.3), [0.2, 0.5, 0.3], b) for t in TYPES for b in (None, ('dirichlet_process', 2.0, 3.0), ('dirichlet_distribution', 2.0, 3.0))]
    ms += [gmm('full', [[float(ci)]*9 for ci in range(12)], covariances('full', 12, 9, 1.0, 0.1), [1/12]*12), gmm('diag', [[2.0]], [[0.5]], [1.0])]
    # features in very small and in large units
    for unit in (1e-7, 1e-5, 1e3):
        ms += [gmm(t, [[0.0, unit], [3.0*unit, -unit], [-20.0*unit, 5.0*unit]], covariances(t, 3, 2, 2.0*unit*unit, 0.3), [0.2, 0.5, 0.3]) for t in TYPES]
    def work(m):
        w = emlearn.convert(m)
        X = inputs(m)[::3]
        X = X[numpy.abs(X).max(axis=1) < 1e7]
        r = X, w.score_samples(X), w.predict_proba(X), w.predict(X), w.predict_log_proba(X)
        errs = []
        for width in (X.shape[1]-1, X.shape[1]+1):
            for fn in ('predict', 'predict_proba', 'score_samples'):
                if width:
                    try:
                        errs.append((fn, width, getattr(w, fn)(numpy.ones((1, width)))))
                    except Exception:
                        pass
        return r, errs
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(work, ms))
    for m, ((X, score, resp, cls, logp), errs) in zip(ms, rs):
        lp, e = reference(m, X)
        c.states += 1; c.transitions += 4*len(X); c.traces += len(X)
        bad = verdict(lp, e, m.score_samples(X), m.predict_proba(X), numpy.asarray(score), numpy.asarray(resp), numpy.asarray(logp))
        s = numpy.sort(lp, axis=1)
        dec = (s[:, -1]-s[:, -2] > 2*e.max(axis=1)+1e-6) if lp.shape[1] > 1 else numpy.ones(len(X), bool)
        bad |= dec & (numpy.asarray(cls) != m.predict(X))
        if bad.any() or errs:
            c.violation(f'python:{m.covariance_type}', rows=X[bad][:4], score=score[bad][:4], resp=resp[bad][:4], cls=cls[bad][:4], source=lp[bad][:4], wrong_length_accepted=errs)
    big.large(c, 'mixture')
    drive.drive(c, 'helpers', HELPERS, extra=['-lm'], args=[c.pick('5', '7')])
    c.bound(features='1..128', components='1..300', models=len(jobs), python_models=len(ms))
