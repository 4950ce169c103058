"""Models larger than narrow integers can count, built by hand with values whose results are exact, through the real C functions."""
from . import drive

BAYES = r'''
#include <eml_bayes.h>
/* deviations are all 1, so the class whose means are the input is the one with the highest density; the means of feature 0 differ between all classes */
static int mean(int c, int f, int nc) { return f == 0 ? c-nc/2 : (int)(((uint32_t)c*2654435761u + (uint32_t)f*40503u) >> 13) % 5 - 2; }
static void run(int nc, int nf) {
    EmlBayesSummary *s = mc_buf(sizeof(*s)*(size_t)nc*nf);
    for (int c=0; c<nc; c++) for (int f=0; f<nf; f++) s[(size_t)c*nf+f] = (EmlBayesSummary){ EML_Q16_FROMINT(mean(c, f, nc)), EML_Q16_ONE, 0 };
    EmlBayesModel m = { nc, nf, s };
    float *x = mc_buf(sizeof(float)*nf);
    const int pick[] = { 0, 1, nc/3, nc/2, nc-2, nc-1, 127, 128, 255, 256, 32767, 32768 };
    mc_states++;
    for (int q=0; q<12; q++) { const int t = pick[q]; if (t < 0 || t >= nc) continue;
        for (int f=0; f<nf; f++) x[f] = mean(t, f, nc);
        const int32_t got = eml_bayes_predict(&m, x, nf); mc_transitions++; mc_traces++;
        if (got != t) mc_fail("large", "%d classes, %d features: class %d answered for the means of class %d", nc, nf, got, t); }
    free(x); free(s);
}
int main(int argc, char **argv) {
    const int part = atoi(argv[1]); int k = 0;
    static const int S[][2] = { {2,127},{2,128},{2,255},{2,256},{2,257},{127,3},{128,3},{129,3},{255,2},{256,2},{257,2},{2,16384},{3,16384},{181,182},{182,183},{256,128},{129,255},{257,255},{256,256},{257,257},{300,300},{32767,1},{32768,1},{40000,1},{40000,2},{2,32768},{2,40000},{2,70000},{3,65536},{60000,3} };
    for (unsigned q=0; q<sizeof S/sizeof S[0]; q++) if (k++ % 8 == part) run(S[q][0], S[q][1]);
    return mc_end();
}
'''

ENVELOPE = r'''
#include <eml_distance.h>
static int pr(int j, int i) { return ((j*7+i*13+(j^i)) % 5)-2; }
static void run(int n) {
    float *p = mc_buf(sizeof(float)*(size_t)n*n), *x = mc_buf(sizeof(float)*n), *mu = mc_buf(sizeof(float)*n);
    for (int j=0; j<n; j++) for (int i=0; i<n; i++) p[(size_t)j*n+i] = pr(j, i);
    mc_states++;
    for (int style=0; style<4; style++) {
        for (int i=0; i<n; i++) { mu[i] = i % 100; x[i] = mu[i] + (style == 0 ? (i*3) % 5 - 2 : style == 1 ? (i == n-1) : style == 2 ? (i == 0 || i == n-1) : (i % 64) == 63); }
        long want = 0; for (int i=0; i<n; i++) { long a = 0; for (int j=0; j<n; j++) a += pr(j, i)*(long)(x[j]-mu[j]); want += a*(long)(x[i]-mu[i]); }
        const float got = eml_mahalanobis_distance_squared(x, mu, p, n); mc_transitions += 3; mc_traces++;
        if (got != (float)want) mc_fail("large", "%d features, input %d: distance %.9g, expected %ld", n, style, got, want);
        for (int side=-1; side<=1; side+=2) { EmlEllipticEnvelope e = { n, -(float)want + side, mu, p }; float d = -1; const int r = eml_elliptic_envelope_predict(&e, x, n, &d);
            if (r != (side > 0) || d != (float)want) mc_fail("large-decision", "%d features, input %d, boundary %+d: decision %d distance %.9g, expected %ld", n, style, side, r, d, want); }
    }
    free(p); free(x); free(mu);
}
int main(int argc, char **argv) {
    const int part = atoi(argv[1]), thorough = atoi(argv[2]); int k = 0;
    for (int n=1; n<=(thorough ? 300 : 40); n++) if (k++ % 8 == part) run(n);
    static const int S[] = { 63, 64, 127, 128, 129, 180, 181, 182, 183, 200, 255, 256, 257, 300, 500, 1000 };
    for (int q=0; q<16; q++) if (k++ % 8 == part) run(S[q]);
    return mc_end();
}
'''

MIXTURE = r'''
#include <eml_mixture.h>
static int ch(int c, int p, int f) { return (p*7+f*13+c*5) % 11 == 0; }
static int mu(int c, int f) { return (c*3+f*5) % 7 - 3; }
static void run(int k, int n) {
    float *means = mc_buf(sizeof(float)*(size_t)k*n), *pr = mc_buf(sizeof(float)*(size_t)k*n*n), *det = mc_buf(sizeof(float)*k), *w = mc_buf(sizeof(float)*k), *x = mc_buf(sizeof(float)*n), *out = mc_buf(sizeof(float)*k), *resp = mc_buf(sizeof(float)*k);
    double *want = calloc(k, sizeof(double));
    for (int c=0; c<k; c++) { det[c] = (c*11) % 13; w[c] = -(c % 7); for (int p=0; p<n; p++) { means[(size_t)c*n+p] = mu(c, p); for (int f=0; f<n; f++) pr[((size_t)c*n+p)*n+f] = ch(c, p, f); } }
    EmlMixtureModel m = { k, n, EmlCovarianceFull, means, pr, det, w };
    mc_states++;
    if (eml_mixture_precisions_length(&m) != k*n*n) mc_fail("large-length", "%d components, %d features: %d", k, n, eml_mixture_precisions_length(&m));
    for (int style=0; style<3; style++) {
        for (int i=0; i<n; i++) x[i] = style == 0 ? mu(k-1, i) : style == 1 ? mu(0, i) + (i == n-1) : (i % 5)-2;
        double top = -INFINITY;
        for (int c=0; c<k; c++) { long s = 0; for (int f=0; f<n; f++) { long y = 0; for (int p=0; p<n; p++) y += ch(c, p, f)*((long)x[p]-mu(c, p)); s += y*y; }
            want[c] = -0.5*(n*1.8378770664093453+s) + det[c] + w[c]; if (want[c] > top) top = want[c]; }
        double sum = 0; for (int c=0; c<k; c++) sum += exp(want[c]-top);
        const double score = top+log(sum); float got = -1;
        mc_transitions += 2; mc_traces++;
        if (eml_mixture_predict_log_proba(&m, x, n, out) != EmlOk) { mc_fail("large", "%d components, %d features: error", k, n); continue; }
        for (int c=0; c<k; c++) if (!(fabs(out[c]-want[c]) <= 1e-6*fabs(want[c])+2e-6*(n+20))) { mc_fail("large", "%d components, %d features, input %d: component %d is %.9g, expected %.9g", k, n, style, c, out[c], want[c]); break; }
        if (eml_mixture_predict_proba(&m, x, n, out, &got, resp) != EmlOk) { mc_fail("large", "%d components, %d features: error", k, n); continue; }
        if (!(fabs(got-score) <= 1e-5*(fabs(score)+n+20))) mc_fail("large-score", "%d components, %d features, input %d: %.9g, expected %.9g", k, n, style, got, score);
        double total = 0; for (int c=0; c<k; c++) { total += resp[c]; const double e = exp(want[c]-score); if (!(fabs(resp[c]-e) <= 1e-3*e+1e-6)) { mc_fail("large-resp", "%d components, %d features, input %d: component %d %.9g, expected %.9g", k, n, style, c, resp[c], e); break; } }
    }
    free(means); free(pr); free(det); free(w); free(x); free(out); free(resp); free(want);
}
int main(int argc, char **argv) {
    const int part = atoi(argv[1]), thorough = atoi(argv[2]); int q = 0;
    static const int S[][2] = { {1,181},{1,182},{1,255},{1,256},{1,257},{1,300},{2,129},{2,182},{5,115},{3,257},{16,64},{17,64},{127,5},{128,5},{129,5},{255,3},{256,3},{257,3},{300,15},{300,20},{8192,2},{16384,2},{16385,2},{10923,3},{21846,3},{32767,1},{32768,1},{40000,1},{65535,1},{65537,1},{40000,2} };
    for (unsigned i=0; i<sizeof S/sizeof S[0]; i++) if (q++ % 8 == part) run(S[i][0], S[i][1]);
    for (int k=1; k<=(thorough ? 40 : 12); k++) for (int n=1; n<=(thorough ? 40 : 12); n++) if (q++ % 8 == part) run(k, n);
    return mc_end();
}
'''

NEIGHBORS = r'''
#include <eml_neighbors.h>
static int16_t val(int i, int f) { return f == 0 ? i-16384 : (int16_t)((((uint32_t)i*2654435761u + (uint32_t)f*40503u) >> 9) % 400) - 200; }
static int with_check;
static int label(int i) { return (i*7+i/10) % 10; }
static void run(int items, int nf, int initial) {
    int16_t *data = mc_buf(sizeof(int16_t)*(size_t)items*nf), *labels = mc_buf(sizeof(int16_t)*items), *v = mc_buf(sizeof(int16_t)*nf);
    EmlNeighborsDistanceItem *d = mc_buf(sizeof(*d)*items);
    for (int i=0; i<initial; i++) { for (int f=0; f<nf; f++) data[(size_t)i*nf+f] = val(i, f); labels[i] = label(i); }
    EmlNeighborsModel m = { nf, initial, items, data, labels, 1 };
    mc_states++;
    for (int i=initial; i<items; i++) { for (int f=0; f<nf; f++) v[f] = val(i, f); mc_transitions++; if (eml_neighbors_add_item(&m, v, nf, label(i)) != EmlOk) { mc_fail("large-add", "%d items, %d features: item %d refused", items, nf, i); goto end; } }
    if (eml_neighbors_add_item(&m, v, nf, 1) == EmlOk || m.n_items != items) { mc_fail("large-capacity", "%d items, %d features", items, nf); goto end; }
    for (int i=0; i<items; i++) { int bad = labels[i] != label(i); for (int f=0; f<nf; f++) bad |= data[(size_t)i*nf+f] != val(i, f); if (bad) { mc_fail("large-stored", "%d items, %d features: item %d", items, nf, i); goto end; } }
    const int pick[] = { 0, 1, items/3, items/2, items-2, items-1, 127, 128, 255, 256, 65536/nf, 65536/nf+1, 32768/nf, 32768/nf+1 };
    for (int q=0; q<14; q++) { const int t = pick[q]; if (t < 0 || t >= items) continue;
        for (int f=0; f<nf; f++) v[f] = val(t, f);
        for (int i=0; i<items; i++) { d[i].index = -1; d[i].distance = 77; }
        int16_t out = -9; const EmlError e = eml_neighbors_predict(&m, v, nf, d, items, &out); mc_transitions++; mc_traces++;
        if (e != EmlOk || out != label(t)) mc_fail("large-predict", "%d items, %d features: item %d with label %d: error %d, answer %d", items, nf, t, label(t), (int)e, out);
    }
    /* many voters: the first `a` items have label 3, the rest label 4 */
    for (int i=0; i<items; i++) labels[i] = i < (items+1)/2 + (items > 2 ? 1 : 0) ? 3 : 4;
    m.k_neighbors = items; int16_t out = -9; const EmlError e = eml_neighbors_predict(&m, v, nf, d, items, &out); mc_transitions++; mc_traces++;
    if (e != EmlOk || out != 3) mc_fail("large-vote", "%d items, %d features, all vote: error %d, answer %d", items, nf, (int)e, out);
    if (!with_check) goto end;
    /* buffer lengths */
    { const int32_t need = items*nf;
    for (int a=-1; a<=1; a++) for (int b=-1; b<=1; b++) for (int g=-1; g<=1; g++) { mc_transitions++;
        if ((eml_neighbors_check(&m, need+a, items+b, items+g) == EmlOk) != (a >= 0 && b >= 0 && g >= 0)) mc_fail("large-check", "%d items, %d features: data %d%+d, labels %+d, distances %+d", items, nf, need, a, b, g); } }
end:
    free(data); free(labels); free(v); free(d);
}
int main(int argc, char **argv) {
    const int part = atoi(argv[1]), thorough = atoi(argv[2]); int q = 0; with_check = argc > 3;
    static const int S[][2] = { {127,3},{128,3},{129,3},{255,2},{256,2},{257,2},{300,100},{1000,33},{1000,66},{1000,100},{255,257},{256,256},{257,255},{3,32767},{4,20000},{2,10923},{32767,1},{32766,1},{32767,2},{32767,3},{32767,40},{129,255},{128,256},{256,128},{16384,2},{16385,2},{16384,4},{5000,14} };
    for (unsigned i=0; i<sizeof S/sizeof S[0]; i++) for (int part2=0; part2<2; part2++) if (q++ % 8 == part) run(S[i][0], S[i][1], part2 ? S[i][0]/2 : 0);
    for (int k=1; k<=(thorough ? 300 : 40); k++) for (int n=1; n<=(thorough ? 60 : 12); n++) if (q++ % 8 == part) run(k, n, k/2);
    return mc_end();
}
'''

IIR = r'''
#include <eml_iir.h>
/* stages that are delays and changes of sign, so that every output is known exactly */
static void run(int n, int style) {
    float *co = mc_buf(sizeof(float)*6*(size_t)n), *st = mc_buf(sizeof(float)*4*(size_t)n); memset(st, 0, sizeof(float)*4*(size_t)n);
    long delay = 0; int sign = 1;
    for (int i=0; i<n; i++) { const int d = style == 0 ? (i == n-1 || i == n/2) : style == 1 ? i % 3 : style == 2 ? (i % 97 == 96 ? 2 : 0) : (i < 2); const int s = (i*7+style) % 3 == 0 ? -1 : 1; float *c = co+6*(size_t)i;
        c[0] = c[1] = c[2] = 0; c[d] = s; c[3] = 1; c[4] = c[5] = 0; delay += d; sign *= s; }
    /* a last touch of feedback: an accumulator in one stage, which undoes a difference in another one */
    EmlIIR f = { n, st, 4*n, co, 6*n };
    mc_states++;
    if (eml_iir_check(f) != EmlOk) mc_fail("large-check", "%d stages", n);
    const long samples = delay+6; if ((double)samples*n > 3e8) { free(co); free(st); return; }
    for (long t=0; t<samples; t++) { const float got = eml_iir_filter(f, t+1); const float want = t < delay ? 0 : sign*(float)(t-delay+1); mc_transitions++;
        if (got != want) { mc_fail("large-stages", "%d stages, arrangement %d, sample %ld: %.9g, expected %.9g", n, style, t, got, want); break; } }
    mc_traces++;
    /* feedback coefficients at every place: stage at takes the difference, stage at2 sums up */
    memset(st, 0, sizeof(float)*4*(size_t)n);
    for (int i=0; i<n; i++) { float *c = co+6*(size_t)i; c[0] = 1; c[1] = c[2] = 0; c[3] = 1; c[4] = c[5] = 0; }
    const int places[] = { 0, 1, 20, 21, 22, 31, 32, 42, 43, 63, 64, n/2, n-2, n-1 };
    for (int a=0; a<14; a++) { const int at = places[a], to = n-1-at; if (at < 0 || at >= n || to < 0 || to == at) continue;
        for (int two=0; two<2; two++) { float *c = co+6*(size_t)at, *d = co+6*(size_t)to; c[1+two] = -1; d[4+two] = -1; memset(st, 0, sizeof(float)*4*(size_t)n);
            for (int t=0; t<8; t++) { const float got = eml_iir_filter(f, t*t-3); mc_transitions++; if (got != t*t-3) { mc_fail("large-feedback", "%d stages, difference in %d, sum in %d, sample %d: %.9g", n, at, to, t, got); break; } }
            c[1+two] = 0; d[4+two] = 0; } }
    free(co); free(st);
}
int main(int argc, char **argv) {
    const int part = atoi(argv[1]), thorough = atoi(argv[2]); int q = 0;
    for (int n=1; n<=(thorough ? 400 : 70); n++) for (int s=0; s<4; s++) if (q++ % 8 == part) run(n, s);
    static const int S[] = { 85, 86, 100, 127, 128, 129, 255, 256, 257, 1000, 5461, 5462, 8191, 8192, 10922, 10923, 16384, 16385, 20000, 70000 };
    for (int i=0; i<20; i++) for (int s=0; s<4; s++) if (q++ % 8 == part) run(S[i], s);
    return mc_end();
}
'''

CODE = dict(bayes=BAYES, envelope=ENVELOPE, mixture=MIXTURE, neighbors=NEIGHBORS, iir=IIR)
WHAT = dict(bayes='to 60000 classes, 70000 features, 196608 products', envelope='to 1000 features', mixture='to 65537 components, 300 features, 198147 precisions', neighbors='to 32767 items, 32767 features, 1310680 values',
            iir='to 70000 stages')


def large(c, kind, *more):
    exe = drive.build(c, f'large-{kind}', CODE[kind], extra=['-O1'])
    drive.run_many(c, exe, [(str(i), c.pick('0', '1'), *more) for i in range(8)], 'large')
    c.bound(large_models=WHAT[kind])
