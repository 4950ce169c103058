"""C13 kNN distance, ordering and converted classifiers over the full 16-bit value range."""
import itertools
from concurrent.futures import ThreadPoolExecutor
import numpy
from mc import big, drive, batch
from mc.netlib import no_compile

CODE = r'''
#include <eml_neighbors.h>
typedef unsigned __int128 u128;
static int right(u128 s, uint32_t r) { return (u128)r*r <= s && (u128)(r+(u128)1)*(r+(u128)1) > s; }
static int16_t *xa, *xb; static int xn;
static void sizes(int n) { if (xn) { free(xa); free(xb); } xn = n; xa = mc_buf(2*n); xb = mc_buf(2*n); }
static void dist1(void) {
    u128 s = 0; for (int i=0; i<xn; i++) { const int64_t d = (int64_t)xa[i]-xb[i]; s += (u128)(d*d); }
    const uint32_t r = eml_distance_euclidean_int16(xa, xb, xn), q = eml_distance_euclidean_int16(xb, xa, xn);
    mc_transitions++;
    if (!right(s, r) || q != r) mc_fail("distance", "features=%%d a=%%d,%%d.. b=%%d,%%d.. sum of squares %%llu: distance %%u, reversed %%u", xn, xa[0], xn > 1 ? xa[1] : 0, xb[0], xn > 1 ? xb[1] : 0, (unsigned long long)s, r, q);
}
/* two vectors with the given sum of squared differences */
static void sum_of_squares(uint64_t s, int base) {
    int16_t a[64], b[64]; int n = 0;
    while (s && n < 64) { uint64_t m = (uint64_t)__builtin_sqrt((double)s); while (m*m > s) m--; if (m > 65535) m = 65535; s -= m*m;
        const int32_t lo = base - (int32_t)(m/2); int32_t l = lo < -32768 ? -32768 : lo; if (l + (int32_t)m > 32767) l = 32767 - (int32_t)m;
        a[n] = (n&1) ? l : l+(int32_t)m; b[n] = (n&1) ? l+(int32_t)m : l; n++; }
    if (s) return;
    if (n == 0) { a[0] = b[0] = base; n = 1; }
    sizes(n); memcpy(xa, a, 2*n); memcpy(xb, b, 2*n); dist1();
}
static void sort1(EmlNeighborsDistanceItem *d, const uint32_t *v, int n, const char *what) {
    for (int i=0; i<n; i++) { d[i].index = i; d[i].distance = v[i]; }
    const EmlError e = eml_neighbors_sort_distances(d, n);
    mc_transitions++; mc_traces++;
    int ok = e == EmlOk; unsigned char seen[40000]; if (n > 40000) exit(77); memset(seen, 0, n);
    for (int i=0; i<n && ok; i++) { const int x = d[i].index; if (x < 0 || x >= n || seen[x] || v[x] != d[i].distance || (i && d[i-1].distance > d[i].distance)) ok = 0; else seen[x] = 1; }
    if (!ok) { char t[600]; int o = 0; for (int i=0; i<n && o < 500; i++) o += snprintf(t+o, sizeof t-o, "%%u ", v[i]); mc_fail("sort", "%%s length %%d: %%s", what, n, t); }
}
static void sequences(int n, int k, long from, long step) { /* all sequences of length n over k values */
    long total = 1; for (int i=0; i<n; i++) total *= k;
    EmlNeighborsDistanceItem *d = mc_buf(sizeof(*d)*n); uint32_t v[64];
    for (long s=from; s<total; s+=step) { long q = s; for (int i=0; i<n; i++) { v[i] = (uint32_t[]){5, 0, 4294967295u, 2147483648u, 6, 7, 8, 65536}[q%%k]; q /= k; } mc_states++; sort1(d, v, n, "sequence"); }
    free(d);
}
static void perms(EmlNeighborsDistanceItem *d, uint32_t *v, int n, int i) {
    if (i == n) { mc_states++; sort1(d, v, n, "permutation"); return; }
    for (int j=i; j<n; j++) { uint32_t t = v[i]; v[i] = v[j]; v[j] = t; perms(d, v, n, i+1); t = v[i]; v[i] = v[j]; v[j] = t; }
}
/* permutations of a window of a longer ordered array: around the partition points */
static void window(int n, int at, int len, int desc) {
    EmlNeighborsDistanceItem *d = mc_buf(sizeof(*d)*n); uint32_t v[256], p[8];
    for (int i=0; i<n; i++) v[i] = desc ? n-i : i;
    int idx[8]; for (int i=0; i<len; i++) idx[i] = i;
    (void)p;
    /* Heap's algorithm over the window */
    int cst[8] = {0}; sort1(d, v, n, "window"); mc_states++;
    for (int i=0; i<len; ) { if (cst[i] < i) { const int j = i%%2 ? cst[i] : 0; const uint32_t t = v[at+i]; v[at+i] = v[at+j]; v[at+j] = t; mc_states++; sort1(d, v, n, "window"); cst[i]++; i = 0; } else { cst[i] = 0; i++; } }
    free(d);
}
int main(int argc, char **argv) {
    const int part = atoi(argv[1]), thorough = %(thorough)d;
    static const int16_t G[] = { 0, 1, -1, 2, 3, -3, 7, 100, -181, 181, 182, 255, 256, -256, 1000, 16383, 16384, -16384, 23170, 23171, -23171, 32766, 32767, -32767, -32768 };
    const int NG = sizeof(G)/sizeof(G[0]);
    if (part == 0) { /* every pair of vectors over the value grid */
        sizes(1); for (int i=-32768; i<=32767; i+=(thorough ? 1 : 13)) for (int j=0; j<NG; j++) { mc_states++; xa[0] = i; xb[0] = G[j]; dist1(); }
        sizes(2); for (int a=0; a<NG; a++) for (int b=0; b<NG; b++) for (int e=0; e<NG; e++) for (int f=0; f<NG; f++) { mc_states++; xa[0]=G[a]; xa[1]=G[b]; xb[0]=G[e]; xb[1]=G[f]; dist1(); }
        mc_traces += mc_transitions;
    }
    if (part == 1) { /* around every perfect square, and all small sums */
        for (uint64_t s=0; s<=(thorough ? 3000000 : 300000); s++) { mc_states++; sum_of_squares(s, (int)(s%%7)*3000-9000); }
        for (uint64_t m=1; m<=(thorough ? 262144*16ull : 262144); m += (m < 70000 || thorough ? (m > 300000 ? 61 : 1) : 7)) for (int d=-2; d<=2; d++) if (m*m+d < 64ull*65535*65535 && m*m+d >= 0) { mc_states++; sum_of_squares(m*m+d, 0); }
        mc_traces += mc_transitions;
    }
    if (part == 2) { /* number of features, extremes and mixtures at every position */
        for (int n=0; n<=(thorough ? 3000 : 600); n++) { sizes(n); if (n == 0) { if (eml_distance_euclidean_int16(xa, xb, 0) != 0) mc_fail("distance", "no features"); continue; }
            for (int style=0; style<6; style++) { mc_states++; for (int i=0; i<n; i++) { xa[i] = style == 5 ? (i == n-1) : style == 4 ? i*37 : (style&1) ? 32767 : -32768; xb[i] = style == 5 ? 0 : style == 4 ? -i*91 : (style&2) ? -32768 : 32767; } dist1(); }
            if (n <= 64) for (int p=0; p<n; p++) { mc_states++; for (int i=0; i<n; i++) { xa[i] = 3; xb[i] = 3; } xa[p] = 32767; xb[p] = -32768; dist1(); } }
        static const int big[] = { 4096, 10000, 32767, 65535 };
        for (int q=0; q<4; q++) for (int s=0; s<2; s++) { sizes(big[q]); for (int i=0; i<big[q]; i++) { xa[i] = 32767; xb[i] = s ? i : -32768; } mc_states++; dist1(); }
        mc_traces += mc_transitions;
    }
    if (part >= 3 && part < 11) { /* sorting: all short sequences, every part of the work */
        for (int n=0; n<=10; n++) sequences(n, 3, part-3, 8);
        for (int n=0; n<=7; n++) sequences(n, 6, part-3, 8);
        for (int n=11; n<=(thorough ? 22 : 19); n++) sequences(n, 2, part-3, 8);
        if (thorough) for (int n=15; n<=16; n++) sequences(n, 3, part-3, 8);
        uint32_t v[16]; EmlNeighborsDistanceItem *d = mc_buf(sizeof(*d)*9);
        for (int i=0; i<9; i++) v[i] = i*1000;
        { uint32_t t = v[0]; v[0] = v[part-3]; v[part-3] = t; perms(d+1, v+1, 8, 0); } free(d);
        for (int n=16; n<=(thorough ? 128 : 40); n++) for (int at=part-3; at+6<=n; at+=8) { window(n, at, 6, 0); window(n, at, 6, 1); }
    }
    if (part == 11) { /* long arrays with patterns, every length */
        static uint32_t v[32767];
        for (int n=0; n<=32767; n += n < (thorough ? 2000 : 400) ? 1 : 10789) { EmlNeighborsDistanceItem *d = mc_buf(sizeof(*d)*n);
            for (int style=0; style<12; style++) { for (int i=0; i<n; i++) v[i] = style == 0 ? i : style == 1 ? n-i : style == 2 ? 7 : style == 3 ? i%%2 : style == 4 ? (i < n/2 ? i : n-i) : style == 5 ? (i < n/2 ? n-i : i) : style == 6 ? i%%17
                    : style == 7 ? (uint32_t)i*2654435761u : style == 8 ? (i == n-1 ? 0 : i+1) : style == 9 ? (i == 0 ? n : i) : style == 10 ? (i%%3)*1431655765u : (uint32_t)(i*7919)%%(n+1);
                mc_states++; sort1(d, v, n, "pattern"); }
            if (n && n < 120) for (int r=0; r<n; r++) { for (int i=0; i<n; i++) v[i] = (i+r)%%n; mc_states++; sort1(d, v, n, "rotation"); for (int i=0; i<n; i++) v[i] = n-(i+r)%%n; sort1(d, v, n, "rotation"); }
            free(d); }
    }
    if (part == 0) mc_sample("32767,-32768 and -32768,32767: distance %%u", (sizes(2), xa[0] = xb[1] = 32767, xa[1] = xb[0] = -32768, eml_distance_euclidean_int16(xa, xb, 2)));
    return mc_end();
}
'''

BODY = '''
    static EmlNeighborsDistanceItem d_%(n)s[%(items)d]; int16_t out = -99;
    o[0] = eml_neighbors_predict(&%(n)s, f, %(nf)d, d_%(n)s, %(items)d, &out); o[1] = out;
'''


def isqrt(a):
    a = numpy.asarray(a, dtype=numpy.int64)
    r = numpy.floor(numpy.sqrt(a.astype(float))).astype(numpy.int64)
    r = numpy.where(r*r > a, r-1, r)
    return numpy.where((r+1)*(r+1) <= a, r+1, r)


def answers(X, y, k, Q):
    """possible majority labels of the k nearest, ties by (integer) distance free"""
    d = isqrt(((Q[:, None, :].astype(numpy.int64)-X[None].astype(numpy.int64))**2).sum(axis=2))
    for row in d:
        dk = numpy.sort(row)[k-1]
        sure = numpy.bincount(y[row < dk], minlength=10)
        tied = numpy.bincount(y[row == dk], minlength=10)
        slots = k - sure.sum()
        ok = set()
        for a in range(len(sure)):
            take = min(tied[a], slots)
            mine = sure[a]+take
            rest = slots-take
            room = sum(min(tied[b], max(0, mine-sure[b])) for b in range(len(sure)) if b != a)
            if mine > 0 and all(sure[b] <= mine for b in range(len(sure))) and room >= rest:
                ok.add(a)
        yield ok


def models(c):
    from sklearn.neighbors import KNeighborsClassifier
    def m(X, y, k):
        return KNeighborsClassifier(n_neighbors=k, algorithm='brute').fit(numpy.array(X, float).reshape(len(y), -1), y)
    pts = [-32768, -200, 0, 1, 150, 32767]
    # every labelling of a line of points, every k
    for n in (1, 2, 3, 4):
        for y in itertools.product(range(3), repeat=n):
            if c.quick and n == 4 and y[0] > 0:
                continue
            for k in range(1, n+1):
                yield 'line', m(pts[1:n+1], list(y), k)
    for X in itertools.product([(-32768, 32767), (0, 0), (1, 0), (32767, -32768)], repeat=3):
        yield 'plane', m(X, [0, 1, 2], 1)
        yield 'plane', m(X, [1, 1, 0], 2)
        yield 'plane', m(X, [2, 0, 2], 3)
    # class labels and counts
    for n in range(1, 11):
        yield 'classes', m([[i*10, -i] for i in range(n)], list(range(n)), 1)
        yield 'classes', m([[i*10, -i] for i in range(n)], list(range(n))[::-1], 1)
        yield 'classes', m([[i*10, -i] for i in range(n)]*2, list(range(n))*2, 2)
    for lab in ([5, 7], [-3, 100], ['a', 'b'], [True, False], [1000, 1], [2.0, 3.0]):
        yield 'labels', m([[0, 0], [10, 10], [20, 20]], [lab[0], lab[1], lab[1]], 1)
    # sizes
    for n in (15, 16, 17, 31, 33, 64, 100, 255, 256, 257, 1000):
        yield 'items', m([[(i*37) % 1000, i] for i in range(n)], [i % 7 for i in range(n)], 1)
        yield 'items', m([[(i*37) % 1000, i] for i in range(n)], [i % 7 for i in range(n)], 5)
    for nf in (1, 2, 5, 16, 63, 127, 128, 129, 255, 256, 300, 1000):
        yield 'features', m([[(i*f) % 91 - 45 for f in range(nf)] for i in range(6)], [0, 1, 2, 0, 1, 2], 1)
        yield 'features', m([[32767 if (i+f) % 2 else -32768 for f in range(nf)] for i in range(3)], [0, 1, 2], 2)


def queries(X):
    nf = X.shape[1]
    rows = [list(r) for r in X[:40]]
    rows += [[v]*nf for v in (-32768, -1, 0, 1, 75, 76, 10000, 32767)]
    rows += [[32767 if i % 2 else -32768 for i in range(nf)], [i*100 % 3000 for i in range(nf)]]
    rows += [list(numpy.clip(r+d, -32768, 32767)) for r in X[:10] for d in (3, -50)]
    return numpy.array(rows, float)


def run(c):
    import emlearn
    c.assume('oracle: 128-bit integer arithmetic', 'ties in distance or votes may be broken either way')
    exe = drive.build(c, 'dist', CODE % dict(thorough=0 if c.quick else 1), extra=[] if c.quick else ['-O2'])
    drive.run_many(c, exe, [[i] for i in (*range(3, 11), 1, 2, 0, 11)], 'dist')
    jobs, info = [], []
    with no_compile():
        for i, (tag, m) in enumerate(models(c)):
            X = m._fit_X
            c.states += 1; c.count(tag)
            code = emlearn.convert(m).save(name=f'k{i}')
            jobs.append(batch.Job(code, BODY % dict(n=f'k{i}', nf=X.shape[1], items=len(X)), X.shape[1], 2, queries(X), ctype='int16_t', tag=dict(tag=tag, X=X.tolist()[:8], y=m._y.tolist()[:20], k=m.n_neighbors)))
            info.append(m)
    outs = batch.run_jobs(c, jobs, chunk=60)
    wrong = 0
    for j, o, m in zip(jobs, outs, info):
        want = list(answers(m._fit_X, numpy.asarray(m._y), m.n_neighbors, j.X))
        c.transitions += len(want); c.traces += len(want)
        for r, w in enumerate(want):
            if o[r, 0] != 0 or int(o[r, 1]) not in w:
                c.violation(f'converted:{j.tag["tag"]}', model=j.tag, query=j.X[r].tolist()[:20], error=o[r, 0], got=o[r, 1], correct=sorted(w))
                break
    c.sample(model=jobs[3].tag, query=jobs[3].X[:3], classes=outs[3][:3, 1])
    # through Python, and what must be refused
    from sklearn.neighbors import KNeighborsClassifier
    def fit(X, y, k=1, **kw):
        return KNeighborsClassifier(n_neighbors=k, **{'algorithm': 'brute', **kw}).fit(numpy.array(X, float), y)
    good = [fit([[32767, -32768], [-32768, 32767], [0, 0]], [0, 1, 2]), fit([[i, i*i] for i in range(20)], [i % 10 for i in range(20)], 3),
            fit([[0], [100], [200]], ['x', 'y', 'z'])]
    good += [fit([[i*9 % 31, i*i % 29] for i in range(40)], [i % 4 for i in range(40)], 3, algorithm=a, **kw) for a, kw in (('auto', {}), ('kd_tree', dict(leaf_size=2)), ('ball_tree', dict(leaf_size=3)), ('brute', dict(metric='euclidean', p=1)), ('brute', dict(p=2, n_jobs=2)))]
    with ThreadPoolExecutor(8) as ex:
        ws = list(ex.map(emlearn.convert, good))
    for m, w in zip(good, ws):
        Q = queries(m._fit_X)
        got = w.predict(Q)
        c.states += 1; c.transitions += len(Q); c.traces += len(Q)
        for r, a in enumerate(answers(m._fit_X, numpy.asarray(m._y), m.n_neighbors, Q)):
            if int(got[r]) not in a:
                c.violation('python', query=Q[r], got=got[r], correct=sorted(a)); break
        for width in (m._fit_X.shape[1]+1, m._fit_X.shape[1]-1):
            if width:
                try:
                    r = w.predict(numpy.zeros((2, width))); c.violation('python-length', width=width, got=list(r))
                except Exception:
                    pass
    bad = {'11 classes': fit([[i] for i in range(11)], list(range(11))), '30 classes': fit([[i] for i in range(30)], list(range(30))), 'value 32768': fit([[32768], [0]], [0, 1]),
           'value -32769': fit([[-32769], [0]], [0, 1]), 'value 1e6': fit([[1e6], [0]], [0, 1]), 'fractions': fit([[0.25], [0.75]], [0, 1]), 'manhattan': fit([[1], [0]], [0, 1], metric='manhattan'),
           'distance weights': fit([[1], [0]], [0, 1], weights='distance'), 'p=1': fit([[1], [0]], [0, 1], p=1), 'p=3': fit([[1], [0]], [0, 1], p=3), 'weighted metric': fit([[1, 0], [0, 9]], [0, 1], metric_params=dict(w=[100, 1])), 'chebyshev': fit([[1], [0]], [0, 1], metric='chebyshev'), 'cosine': fit([[1, 5], [3, 2]], [0, 1], metric='cosine'), 'sqeuclidean': fit([[1], [0]], [0, 1], metric='sqeuclidean'), 'multi-output': fit([[1], [0]], [[0, 1], [1, 0]])}
    for name, m in bad.items():
        c.states += 1; c.transitions += 1; c.traces += 1
        try:
            w = emlearn.convert(m)
        except Exception:
            continue
        try:
            got = list(w.predict(m._fit_X))
        except Exception as e:
            c.violation(f'not-refused:{name}', predict=f'{type(e).__name__}: {e}')
            continue
        if numpy.asarray(m._y).ndim > 1 or any(int(g) != int(y) for g, y in zip(got, m._y)) or name in ('manhattan', 'distance weights', 'p=1', 'p=3', 'weighted metric', 'chebyshev', 'cosine', 'multi-output'):
            c.violation(f'not-refused:{name}', got=got)
    c.count('converted-models', len(jobs))
    big.large(c, 'neighbors')
    c.bound(sort='all sequences over 3 values to length 10, 6 values to 7, 2 values to 19 (22 thorough); permutations of 8', features='0..65535', items='to 32767 (sort), 1000 (converted)')
