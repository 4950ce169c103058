"""C12 kNN as a growing list: every sequence of add/predict operations (right and wrong) on the real C API against a list model."""
from mc import big, drive

CODE = r'''
#include <eml_neighbors.h>
#define MAXI 8
/* ---- reference: a list of labelled points */
typedef struct { int n; int16_t x[MAXI][4]; int16_t y[MAXI]; } List;
static uint64_t isq(uint64_t v) { uint64_t lo = 0, hi = 4294967295u; while (lo < hi) { uint64_t m = (lo+hi+1)/2; if (m*m <= v) lo = m; else hi = m-1; } return lo; }
static uint64_t dist(const int16_t *a, const int16_t *b, int nf) { uint64_t s = 0; for (int i=0; i<nf; i++) { int64_t d = (int64_t)a[i]-b[i]; s += d*d; } return isq(s); }
#define ANSWER_ERROR (1u<<31)
/* the set of correct answers (bits of labels), over every choice of k nearest among ties */
static uint32_t answers(const List *l, const int16_t *q, int nf, int k) {
    if (k > l->n) return ANSWER_ERROR;
    uint64_t d[MAXI], s[MAXI];
    for (int i=0; i<l->n; i++) { d[i] = dist(q, l->x[i], nf); int j = i; while (j > 0 && s[j-1] > d[i]) { s[j] = s[j-1]; j--; } s[j] = d[i]; }
    const uint64_t dk = s[k-1];
    uint32_t out = 0;
    for (unsigned m=0; m < (1u<<l->n); m++) {
        if (__builtin_popcount(m) != k) continue;
        int ok = 1; int votes[16] = {0}, bad = 0;
        for (int i=0; i<l->n; i++) { const int in = (m>>i)&1; if ((d[i] < dk && !in) || (d[i] > dk && in)) { ok = 0; break; }
            if (in) { if (l->y[i] < 0 || l->y[i] >= EML_NEIGHBORS_MAX_CLASSES) bad = 1; else votes[l->y[i]]++; } }
        if (!ok) continue;
        if (bad) { out |= ANSWER_ERROR; continue; }
        int best = 0; for (int i=0; i<16; i++) if (votes[i] > best) best = votes[i];
        for (int i=0; i<16; i++) if (votes[i] == best) out |= 1u<<i;
    }
    return out;
}
/* ---- the system */
typedef struct { EmlNeighborsModel m; int16_t *data, *labels; List l; int nf, cap, k; } Sys;
typedef struct { int model, kind, a, b; } Op; /* kind 0: add point a label b  1: add wrong length a  2: predict point a, distances n+b  3: predict with wrong length a */
static const int16_t *POINTS[4]; static int n_points; static const int16_t *LABELS; static int n_labels;
static Sys sys[2]; static int n_sys;
static Op ops[128]; static int n_ops;

static void setup(Sys *s, int nf, int cap, int k, int initial) {
    s->nf = nf; s->cap = cap; s->k = k;
    s->data = mc_buf(sizeof(int16_t)*nf*cap); s->labels = mc_buf(sizeof(int16_t)*cap);
    s->m = (EmlNeighborsModel){ nf, initial, cap, s->data, s->labels, k };
    s->l.n = initial;
    for (int i=0; i<initial; i++) { memcpy(s->data+i*nf, POINTS[i%%n_points], sizeof(int16_t)*nf); memcpy(s->l.x[i], POINTS[i%%n_points], sizeof(int16_t)*nf);
        s->labels[i] = s->l.y[i] = LABELS[(i+1)%%n_labels]; }
}
static char *trace(const int *seq, int n) { static char t[600]; int o = 0; for (int i=0; i<n; i++) { const Op *p = &ops[seq[i]]; o += snprintf(t+o, sizeof t-o, " %%d:%%s(%%d,%%d)", p->model, (const char*[]){"add","add-length","predict","predict-length"}[p->kind], p->a, p->b); } return t; }
static long outcomes[4];

static void step(const int *seq, int n) {
    const Op *p = &ops[seq[n-1]];
    Sys *s = &sys[p->model];
    const size_t dn = sizeof(int16_t)*s->nf*s->cap, ln = sizeof(int16_t)*s->cap;
    static int16_t bd[2][64], bl[2][16]; EmlNeighborsModel bm[2];
    for (int i=0; i<n_sys; i++) { memcpy(bd[i], sys[i].data, sizeof(int16_t)*sys[i].nf*sys[i].cap); memcpy(bl[i], sys[i].labels, sizeof(int16_t)*sys[i].cap); bm[i] = sys[i].m; }
    mc_transitions++;
    if (p->kind < 2) {
        const int len = p->kind == 0 ? s->nf : s->nf + p->a;
        int16_t *v = mc_buf(sizeof(int16_t)*(len > 0 ? len : 0));
        for (int i=0; i<len; i++) v[i] = POINTS[p->kind == 0 ? p->a : 0][i %% 4];
        const EmlError e = eml_neighbors_add_item(&s->m, v, len, LABELS[p->b]);
        const int want = p->kind == 0 && s->l.n < s->cap;
        if ((e == EmlOk) != want) mc_fail("add", "features=%%d capacity=%%d k=%%d items=%%d:%%s returned %%d", s->nf, s->cap, s->k, s->l.n, trace(seq, n), e);
        if (want) { memcpy(s->l.x[s->l.n], v, sizeof(int16_t)*s->nf); s->l.y[s->l.n] = LABELS[p->b];
            memcpy(bd[p->model] + s->nf*s->l.n, v, sizeof(int16_t)*s->nf); bl[p->model][s->l.n] = LABELS[p->b]; s->l.n++; bm[p->model].n_items++; outcomes[0]++; } else outcomes[1]++;
        free(v);
    } else {
        const int len = p->kind == 2 ? s->nf : s->nf + p->a;
        const int dl = s->l.n + (p->kind == 2 ? p->b : 0);
        if (dl >= 0) {
        int16_t *v = mc_buf(sizeof(int16_t)*(len > 0 ? len : 0));
        for (int i=0; i<len; i++) v[i] = POINTS[p->kind == 2 ? p->a : 0][i %% 4];
        EmlNeighborsDistanceItem *d = mc_buf(sizeof(EmlNeighborsDistanceItem)*dl);
        int16_t *out = mc_buf(sizeof(int16_t));
        const EmlError e = eml_neighbors_predict(&s->m, v, len, d, dl, out);
        uint32_t want = (p->kind == 3 || dl < s->l.n) ? ANSWER_ERROR : answers(&s->l, v, s->nf, s->k);
        const uint32_t got = e != EmlOk ? ANSWER_ERROR : (*out >= 0 && *out < 16 ? 1u << *out : 0);
        if (!(got & want)) mc_fail("predict", "features=%%d capacity=%%d k=%%d items=%%d:%%s returned %%d class %%d; correct answers %%x", s->nf, s->cap, s->k, s->l.n, trace(seq, n), e, e == EmlOk ? *out : -1, want);
        outcomes[e == EmlOk ? 2 : 3]++;
        for (int i=0; i<len; i++) if (v[i] != POINTS[p->kind == 2 ? p->a : 0][i %% 4]) mc_fail("input-modified", "%%s", trace(seq, n));
        free(v); free(d); free(out); }
    }
    for (int i=0; i<n_sys; i++)
        if (memcmp(bd[i], sys[i].data, sizeof(int16_t)*sys[i].nf*sys[i].cap) || memcmp(bl[i], sys[i].labels, sizeof(int16_t)*sys[i].cap) || memcmp(&bm[i], &sys[i].m, sizeof bm[i]))
            mc_fail("stored-items", "features=%%d capacity=%%d k=%%d:%%s changed the stored items of model %%d", s->nf, s->cap, s->k, trace(seq, n), i);
}
static void explore(int *seq, int n, int depth) { /* state = stored items of both models; restored on return */
    mc_states++;
    if (n == depth) { mc_traces++; return; }
    for (int o=0; o<n_ops; o++) {
        Sys *s = &sys[ops[o].model]; Sys keep = *s; int16_t d[64], l[16];
        memcpy(d, s->data, sizeof(int16_t)*s->nf*s->cap); memcpy(l, s->labels, sizeof(int16_t)*s->cap);
        seq[n] = o; step(seq, n+1);
        explore(seq, n+1, depth);
        *s = keep; memcpy(s->data, d, sizeof(int16_t)*s->nf*s->cap); memcpy(s->labels, l, sizeof(int16_t)*s->cap);
    }
}
static void alphabet(int model, int points, int labels, int wrong) {
    for (int a=0; a<points; a++) for (int b=0; b<labels; b++) ops[n_ops++] = (Op){model, 0, a, b};
    for (int a=0; a<points; a++) ops[n_ops++] = (Op){model, 2, a, 0};
    if (!wrong) return;
    ops[n_ops++] = (Op){model, 1, -1, 0}; ops[n_ops++] = (Op){model, 1, 1, 0}; ops[n_ops++] = (Op){model, 2, 0, -1}; ops[n_ops++] = (Op){model, 2, 1, 3};
    ops[n_ops++] = (Op){model, 3, -1, 0}; ops[n_ops++] = (Op){model, 3, 1, 0};
}
static const int16_t near_[4][4] = { {0,0,0,0}, {1,1,1,1}, {-2,3,0,1}, {40,-7,2,9} };
static const int16_t far_[4][4] = { {32767,-32768,32767,-32768}, {-32768,32767,-32768,32767}, {0,0,0,0}, {32767,32767,-32768,-32768} };
static const int16_t lab_[] = { 0, 1, 2 }, labx[] = { 9, 0, 10 }, laby[] = { 5, -1, 9 }, labz[] = { 3, 32767, 4 };

int main(int argc, char **argv) {
    const int part = atoi(argv[1]);
    const int depth = %(depth)d;
    int seq[16];
    /* one model: every shape, number of neighbours and initial number of items */
    if (part < 8) for (int nf=1; nf<=3; nf++) for (int cap=0; cap<=4; cap++) for (int k=1; k<=cap+1; k++) for (int init=0; init<=cap; init++) for (int v=0; v<2; v++) {
        if ((nf*31+cap*7+k*3+init*2+v) %% 8 != part) continue;
        for (int i=0; i<4; i++) POINTS[i] = v ? far_[i] : near_[i];
        n_points = 3; LABELS = lab_; n_labels = 3;
        n_sys = 1; n_ops = 0; alphabet(0, 3, 2, 1);
        setup(&sys[0], nf, cap, k, init);
        mc_where("features=%%d capacity=%%d k=%%d initial=%%d values=%%d", nf, cap, k, init, v);
        explore(seq, 0, depth);
    }
    /* labels at and beyond the limits */
    if (part == 8) for (int which=0; which<3; which++) for (int cap=1; cap<=4; cap++) for (int k=1; k<=cap; k++) {
        for (int i=0; i<4; i++) POINTS[i] = near_[i];
        n_points = 3; LABELS = which == 0 ? labx : (which == 1 ? laby : labz); n_labels = 3;
        n_sys = 1; n_ops = 0; alphabet(0, 2, 3, 0);
        setup(&sys[0], 2, cap, k, 0);
        mc_where("labels=%%d capacity=%%d k=%%d", which, cap, k);
        explore(seq, 0, depth+1);
    }
    /* two models, every interleaving */
    if (part == 9 || part == 10) for (int k1=1; k1<=3; k1++) for (int k2=1; k2<=2; k2++) {
        if ((k1+k2)%%2 != part-9) continue;
        for (int i=0; i<4; i++) POINTS[i] = near_[i];
        n_points = 2; LABELS = lab_; n_labels = 3;
        n_sys = 2; n_ops = 0; alphabet(0, 2, 2, 0); alphabet(1, 2, 2, 0); ops[n_ops++] = (Op){0, 3, 1, 0}; ops[n_ops++] = (Op){1, 1, 1, 0};
        setup(&sys[0], 2, 3, k1, 1); setup(&sys[1], 1, 2, k2, 1);
        mc_where("two models k=%%d,%%d", k1, k2);
        explore(seq, 0, depth);
    }
    /* growth through and past the algorithm switch of the sort, and wide items */
    if (part == 11) for (int w=0; w<%(wide)d; w++) {
        const int nf = (const int[]){1, 2, 33, 300, 1000}[w], cap = (const int[]){ 300, 40, 70, 100, 20 }[w];
        for (int k=1; k<=17; k+=4) for (int style=0; style<4; style++) {
            EmlNeighborsModel m = { nf, 0, cap, mc_buf(sizeof(int16_t)*nf*cap), mc_buf(sizeof(int16_t)*cap), k };
            int16_t *v = mc_buf(sizeof(int16_t)*nf), *copy = mc_buf(sizeof(int16_t)*nf*cap), *q = mc_buf(sizeof(int16_t)*nf);
            mc_where("growth features=%%d capacity=%%d k=%%d style=%%d", nf, cap, k, style);
            for (int i=0; i<cap+2; i++) {
                for (int f=0; f<nf; f++) v[f] = style == 0 ? i*100 : style == 1 ? -i*100 : style == 2 ? (i*7919+f*31)%%2000-1000 : (i%%2 ? i*100 : -i*100);
                const EmlError e = eml_neighbors_add_item(&m, v, nf, (i*7)%%10);
                mc_states++; mc_transitions++;
                if ((e == EmlOk) != (i < cap)) mc_fail("growth", "features=%%d capacity=%%d item %%d returned %%d", nf, cap, i, e);
                if (i < cap) memcpy(copy+(size_t)i*nf, v, sizeof(int16_t)*nf);
                if (memcmp(copy, m.data, sizeof(int16_t)*nf*(i < cap ? i+1 : cap))) mc_fail("growth-content", "features=%%d capacity=%%d item %%d", nf, cap, i);
                const int n = m.n_items;
                if (n != (i < cap ? i+1 : cap)) mc_fail("growth-count", "features=%%d capacity=%%d item %%d: %%d items", nf, cap, i, n);
                for (int t=0; t<3; t++) {
                    for (int f=0; f<nf; f++) q[f] = t == 0 ? 0 : (t == 1 ? 9000 : (f*11)%%500);
                    EmlNeighborsDistanceItem *d = mc_buf(sizeof(EmlNeighborsDistanceItem)*n); int16_t out = -7;
                    const EmlError pe = eml_neighbors_predict(&m, q, nf, d, n, &out);
                    mc_transitions++; mc_traces++;
                    if ((pe == EmlOk) != (k <= n)) { mc_fail("growth-predict", "items=%%d k=%%d returned %%d", n, k, pe); free(d); continue; }
                    if (pe == EmlOk) { /* votes: certain members plus any of the tied ones */
                        uint64_t *ds = malloc(8*n), *so = malloc(8*n);
                        for (int a=0; a<n; a++) { ds[a] = dist(q, copy+(size_t)a*nf, nf); int j = a; while (j > 0 && so[j-1] > ds[a]) { so[j] = so[j-1]; j--; } so[j] = ds[a]; }
                        int sure[10] = {0}, tied[10] = {0}, slots = k;
                        for (int a=0; a<n; a++) { if (ds[a] < so[k-1]) { sure[(a*7)%%10]++; slots--; } else if (ds[a] == so[k-1]) tied[(a*7)%%10]++; }
                        /* label is possible if with as many of its ties as fit, no other sure count exceeds it */
                        const int mine = out >= 0 && out < 10 ? sure[out] + (tied[out] < slots ? tied[out] : slots) : -1;
                        int best = 1, others = slots - (out >= 0 && out < 10 ? (tied[out] < slots ? tied[out] : slots) : 0);
                        int room = 0;
                        for (int a=0; a<10; a++) if (a != out) { if (sure[a] > mine) best = 0; const int r = mine - sure[a]; room += r > tied[a] ? tied[a] : (r > 0 ? r : 0); }
                        if (mine <= 0 || !best || room < others) mc_fail("growth-class", "features=%%d items=%%d k=%%d style=%%d query=%%d: class %%d", nf, n, k, style, t, out);
                        free(ds); free(so);
                    }
                    free(d);
                }
            }
            free(m.data); free(m.labels); free(v); free(copy); free(q);
        }
    }
    for (int i=0; i<4; i++) if (outcomes[i]) mc_dist((const char*[]){"added","refused","classified","errors"}[i], outcomes[i]);
    if (part == 8) mc_sample("labels 9,0,10: sequences of add/predict up to depth %%d, predictions meeting label 10 are errors", depth+1);
    return mc_end();
}
'''


def run(c):
    c.assume('among items at equal (integer) distance either may be taken; among equally voted labels any is a majority label', 'AddressSanitizer observes accesses outside of exact-size buffers')
    depth = c.pick(4, 5)
    for tag, extra in [('', [])] + ([] if c.quick else [('log', ['-DEML_NEIGHBORS_LOG_LEVEL=0', '-DEML_NEIGHBORS_MAX_CLASSES=10', '-O2'])]):
        exe = drive.build(c, 'knn' + tag, CODE % dict(depth=depth, wide=c.pick(4, 5)), extra=extra)
        drive.run_many(c, exe, [[i] for i in range(12)], 'knn', workers=8)
    big.large(c, 'neighbors', 'check')
    c.bound(depth=depth, label_depth=depth+1, features='1..3 (sequences), up to 1000 (growth)', capacity='0..4 (sequences), up to 300 (growth)', k='1..capacity+1')
