"""C07 tree inference C API: every wrong/right length combination and every short call sequence, exact-size buffers under ASan/UBSan."""
import numpy
from mc import treelib as tl, drive
from mc.treelib import soft, small_library

DRIVER = r'''
#include <math.h>
%(code)s

static EmlTrees *models[] = { %(models)s };
static const char *names[] = { %(names)s };
#define N_MODELS ((int)(sizeof(models)/sizeof(models[0])))
typedef int32_t (*predict_f)(const int16_t *, int32_t);
typedef int (*proba_f)(const int16_t *, int32_t, float *, int);
typedef float (*regress_f)(const int16_t *, int32_t);
static const predict_f w_predict[] = { %(wp)s };
static const proba_f w_proba[] = { %(wq)s };
static const regress_f w_regress[] = { %(wr)s };

static uint32_t fingerprint(const EmlTrees *m) {
    uint32_t h = 2166136261u;
#define EAT(p, n) do { const uint8_t *q = (const uint8_t *)(p); for (size_t i=0; i<(size_t)(n); i++) { h = (h ^ q[i])*16777619u; } } while (0)
    EAT(m, sizeof(*m)); EAT(m->nodes, sizeof(EmlTreesNode)*m->n_nodes); EAT(m->tree_roots, 4*m->n_trees); EAT(m->leaves, m->n_leaves);
    return h;
}
static const int16_t pool[][2] = { {-32768, 32767}, {0, 0}, {1, 1}, {2, 32767}, {-1, 2} };
#define N_INPUTS 5
static int16_t *input(int k, int nf) { int16_t *f = mc_buf(sizeof(int16_t)*(nf > 0 ? nf : 0)); for (int i=0; i<nf; i++) f[i] = pool[k][i%%2]; return f; }
static int same(const float *a, const float *b, int n) { return memcmp(a, b, sizeof(float)*(n > 0 ? n : 0)) == 0; }

typedef struct { int cls; int perr; float proba[130]; int rerr; float value; float value1; } Result;
static int is_reg(int m) { return models[m]->leaf_bits == 32; }

/* all entry points with right lengths */
static Result call_all(int m, int k) {
    Result r; memset(&r, 0, sizeof r);
    const EmlTrees *t = models[m];
    int16_t *f = input(k, t->n_features);
    float *out = mc_buf(sizeof(float)*t->n_classes);
    float *one = mc_buf(sizeof(float));
    r.cls = eml_trees_predict(t, f, t->n_features);
    r.perr = eml_trees_predict_proba(t, f, t->n_features, out, t->n_classes);
    if (r.perr == EmlOk) memcpy(r.proba, out, sizeof(float)*t->n_classes);
    r.rerr = eml_trees_regress(t, f, t->n_features, one, 1);
    r.value = r.rerr == EmlOk ? one[0] : -1;
    r.value1 = eml_trees_regress1(t, f, t->n_features);
    if (isnan(r.value1)) r.value1 = -12345;
    for (int i=0; i<t->n_features; i++) if (f[i] != pool[k][i%%2]) mc_fail("input-modified", "model %%s", names[m]);
    free(f); free(out); free(one);
    return r;
}
static int call_one(int op, int m, int k, Result *r) { /* one entry point; result left in r */
    const EmlTrees *t = models[m];
    int16_t *f = input(k, t->n_features);
    int bad = 0;
    if (op == 0) bad = eml_trees_predict(t, f, t->n_features) != r->cls;
    if (op == 1) { float *out = mc_buf(sizeof(float)*t->n_classes);
        int e = eml_trees_predict_proba(t, f, t->n_features, out, t->n_classes);
        bad = e != r->perr || (e == EmlOk && !same(out, r->proba, t->n_classes)); free(out); }
    if (op == 2) { float *out = mc_buf(sizeof(float)); int e = eml_trees_regress(t, f, t->n_features, out, 1);
        bad = e != r->rerr || (e == EmlOk && !same(out, &r->value, 1)); free(out); }
    free(f);
    return bad;
}

int main(void) {
    /* 1. lengths */
    for (int m=0; m<N_MODELS; m++) {
        const EmlTrees *t = models[m];
        const uint32_t h = fingerprint(t);
        const int too_many = t->n_classes > EMTREES_MAX_CLASSES;
        mc_states++;
        const int nf = t->n_features, nc = t->n_classes;
        for (int fl=-2; fl<=nf+3+256; fl++) {
            if (fl > nf+3 && fl != nf+256) continue;
            const int rightf = fl == nf;
            for (int k=0; k<N_INPUTS; k++) {
                mc_where("%%s features_length=%%d of %%d input=%%d", names[m], fl, nf, k);
                int16_t *f = input(k, fl);
                const int32_t cls = eml_trees_predict(t, f, fl);
                mc_transitions++; mc_traces++;
                const int ok = rightf && !is_reg(m) && !too_many;
                if (ok ? (cls < 0 || cls >= nc) : cls >= 0) mc_fail("predict-length", "%%s features_length=%%d of %%d classes=%%d returned %%d", names[m], fl, nf, nc, cls);
                const float v = eml_trees_regress1(t, f, fl);
                if ((rightf && is_reg(m)) == !!isnan(v)) mc_fail("regress1-length", "%%s features_length=%%d of %%d returned %%f", names[m], fl, nf, v);
                if (!is_reg(m) && w_predict[m]) {
                    const int32_t c2 = w_predict[m](f, fl);
                    if (c2 != cls) mc_fail("wrapper-predict", "%%s features_length=%%d: %%d != %%d", names[m], fl, c2, cls);
                }
                if (is_reg(m) && w_regress[m]) {
                    const float v2 = w_regress[m](f, fl);
                    if (!(v2 == v || (isnan(v) && isnan(v2)))) mc_fail("wrapper-regress", "%%s features_length=%%d: %%f != %%f", names[m], fl, v2, v);
                }
                for (int ol=-1; ol<=nc+3+256; ol++) {
                    if (ol > nc+3 && ol != nc+256) continue;
                    const size_t on = ol > 0 ? ol : 0;
                    float *out = mc_buf(sizeof(float)*on), *ref = malloc(sizeof(float)*on+1);
                    memcpy(ref, out, sizeof(float)*on);
                    const int e = eml_trees_predict_proba(t, f, fl, out, ol);
                    mc_transitions++; mc_traces++;
                    const int good = rightf && ol == nc && !is_reg(m);
                    if (good != (e == EmlOk)) mc_fail("proba-length", "%%s features_length=%%d of %%d out_length=%%d of %%d returned %%d", names[m], fl, nf, ol, nc, e);
                    if (e != EmlOk && e != EmlUnsupported && !same(out, ref, on)) mc_fail("proba-writes-on-error", "%%s features_length=%%d out_length=%%d", names[m], fl, ol);
                    if (good) { float s = 0; for (int i=0; i<nc; i++) { if (!(out[i] >= 0 && out[i] <= 1.0001f)) mc_fail("proba-range", "%%s", names[m]); s += out[i]; }
                        if (s < 0.5f || s > 1.5f) mc_fail("proba-sum", "%%s %%f", names[m], s); }
                    if (w_proba[m]) {
                        memset(out, 0xa5, sizeof(float)*on);
                        const int e2 = w_proba[m](f, fl, out, ol);
                        if (e2 != e) mc_fail("wrapper-proba", "%%s %%d != %%d", names[m], e2, e);
                    }
                    memcpy(out, ref, sizeof(float)*on);
                    if (ol <= 3) {
                        const int r = eml_trees_regress(t, f, fl, out, ol);
                        const int rgood = rightf && ol >= 1 && is_reg(m);
                        mc_transitions++; mc_traces++;
                        if (rgood != (r == EmlOk)) mc_fail("regress-length", "%%s features_length=%%d of %%d out_length=%%d returned %%d", names[m], fl, nf, ol, r);
                        if (!rgood && !same(out, ref, on)) mc_fail("regress-writes-on-error", "%%s", names[m]);
                        if (rgood && !same(out+1, ref+1, (int)on-1)) mc_fail("regress-writes-too-much", "%%s", names[m]);
                    }
                    free(out); free(ref);
                }
                free(f);
            }
            if (fl >= 0) {
                float *out = mc_buf(sizeof(float)*nc);
                int16_t *f = input(0, fl);
                if (eml_trees_predict_proba(t, NULL, fl, out, nc) == EmlOk) mc_fail("null-features", "%%s", names[m]);
                if (eml_trees_predict_proba(t, f, fl, NULL, nc) == EmlOk) mc_fail("null-output", "%%s", names[m]);
                if (!is_reg(m) && eml_trees_predict(t, NULL, fl) >= 0) mc_fail("null-features", "%%s predict", names[m]);
                mc_transitions += 3;
                free(out); free(f);
            }
        }
        if (fingerprint(t) != h) mc_fail("model-modified", "%%s", names[m]);
    }
    /* 2. every sequence of calls of bounded depth: same results as the first time */
    static Result ref[N_MODELS][N_INPUTS];
    for (int m=0; m<N_MODELS; m++) for (int k=0; k<N_INPUTS; k++) ref[m][k] = call_all(m, k);
    int ops[512][3], n = 0;
    for (int m=0; m<N_MODELS && n<500; m++) if (models[m]->n_classes <= 4) for (int k=0; k<N_INPUTS; k+=2) for (int op=0; op<3; op++)
        if (op < 2 ? !is_reg(m) : is_reg(m)) { ops[n][0]=op; ops[n][1]=m; ops[n][2]=k; n++; }
    const int depth = %(depth)d;
    long total = 1; for (int i=0; i<depth; i++) total *= n;
    for (long s=0; s<total; s++) {
        long q = s; mc_states++; mc_traces++;
        for (int i=0; i<depth; i++) { int o = q %% n; q /= n; mc_transitions++;
            if (call_one(ops[o][0], ops[o][1], ops[o][2], &ref[ops[o][1]][ops[o][2]]))
                mc_fail("history", "sequence %%ld step %%d: op %%d on %%s input %%d differs from its first result", s, i, ops[o][0], names[ops[o][1]], ops[o][2]); }
    }
    mc_dist("call-alphabet", n); mc_dist("sequences", total);
    mc_sample("model %%s input {%%d,%%d}: class %%d", names[0], pool[3][0], pool[3][1], ref[0][3].cls);
    return mc_end();
}
'''


def run(c):
    import emlearn
    c.assume('gcc AddressSanitizer/UndefinedBehaviorSanitizer observe accesses outside of exact-size heap buffers')
    lib = small_library(3)
    lib2 = [tl.TreeSpec((None, None), [(0, 0.5)], [soft(0, 2), soft(1, 2)]), tl.TreeSpec(None, [], [soft(1, 2)])]
    reg = [tl.TreeSpec((None, None), [(1, 0.5)], [[1.5], [-250.25]]), tl.TreeSpec(((None, None), None), [(0, 2.5), (1, 7.0)], [[3.0], [0.001], [7e5]])]
    cfg = [('RandomForestClassifier', lib, 2, 3, 0), ('RandomForestClassifier', lib, 2, 3, 8), ('ExtraTreesClassifier', lib2, 2, 2, 3),
           ('DecisionTreeClassifier', lib[-1:], 2, 3, 0), ('DecisionTreeClassifier', lib[-1:], 2, 3, 4), ('RandomForestRegressor', reg, 2, 0, None),
           ('DecisionTreeRegressor', reg[:1], 2, 0, None)]
    for nf in (1, 5, 16, 127):
        sp = [tl.TreeSpec((None, None), [(f, 0.5)], [soft(0, 2), soft(1, 2)]) for f in sorted({0, nf-1})]
        rp = [tl.TreeSpec((None, None), [(f, 0.5)], [[0.5], [2.0]]) for f in sorted({0, nf-1})]
        cfg += [('RandomForestClassifier', sp, nf, 2, 0), ('RandomForestClassifier', sp, nf, 2, 8), ('RandomForestRegressor', rp, nf, 0, None)]
    for nc in (9, 16, 17, 29, 30):
        sp = [tl.TreeSpec(tl.comb(nc-1, 0), tl.comb_splits(nc-1, 0), [soft(k, nc) for k in range(nc)])]
        cfg += [('DecisionTreeClassifier', sp, 1, nc, b) for b in (0, 8)]
    code, models, wp, wq, wr = [], [], [], [], []
    for i, (kind, sp, nf, nc, b) in enumerate(cfg):
        est = tl.sk_estimator(kind, sp, nf, nc)
        kw = {} if b is None else dict(leaf_bits=b)
        code.append(emlearn.convert(est, method='loadable', **kw).save(name=f'm{i}'))
        models.append(f'm{i}')
        wp.append(f'm{i}_predict' if nc else '0'); wq.append(f'm{i}_predict_proba' if nc else '0'); wr.append('0' if nc else f'm{i}_predict')
    # models with more classes than EMTREES_MAX_CLASSES, through the C API
    for nc in (31, 32, 64, 127):
        nodes = ',\n'.join('{0, %d, %d, %d}' % (k, -k-1, 1 if k < nc-2 else -nc) for k in range(nc-1))
        leaves = ','.join(str(k) for k in range(nc))
        n = f'big{nc}'
        code.append(f'static EmlTreesNode {n}_nodes[] = {{ {nodes} }}; static int32_t {n}_roots[] = {{0}}; static uint8_t {n}_leaves[] = {{ {leaves} }};\n'
                    f'static EmlTrees {n} = {{ {nc-1}, {n}_nodes, 1, {n}_roots, {nc}, {n}_leaves, 0, 1, {nc} }};')
        models.append(n); wp.append('0'); wq.append('0'); wr.append('0')
    for tag, extra in (('default', []), ('max2', ['-DEMTREES_MAX_CLASSES=2']), ('trace', ['-DEML_TREES_TRACE=0', '-DEML_LOG_ENABLE=0'])):
        if tag == 'trace' and c.quick:
            continue
        drive.drive(c, 'trees_' + tag, DRIVER % dict(code='\n'.join(code), models=', '.join('&'+m for m in models), names=', '.join(f'"{m}"' for m in models),
                    wp=','.join(wp), wq=','.join(wq), wr=','.join(wr), depth=2 if tag != 'default' else c.pick(3, 4)), extra=extra)
    c.bound(models=len(models), feature_lengths='-2..n+3, n+256', output_lengths='-1..n+3, n+256', sequence_depth=c.pick(3, 4))
