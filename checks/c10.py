"""C10 networks: every single/double defect of description and call, every call sequence to a bounded depth; oracle decides which must fail."""
import numpy
from mc import netlib as nl, drive

DRIVER = r'''
#include <math.h>
#include <stdbool.h>
#include <eml_net.h>
%(inline_code)s

/* ---- networks described in C; weight arrays are exactly as large as the (possibly altered) description asks for */
typedef struct { int n_layers; int sizes[6]; EmlNetActivationFunction act[5]; } Desc;
static const Desc base[] = {
    { 2, {3, 2, 2}, {EmlNetActivationRelu, EmlNetActivationSoftmax} },
    { 3, {2, 4, 1, 3}, {EmlNetActivationTanh, EmlNetActivationRelu, EmlNetActivationSoftmax} },
    { 2, {1, 3, 1}, {EmlNetActivationIdentity, EmlNetActivationLogistic} },
    { 4, {2, 1, 5, 2, 2}, {EmlNetActivationLogistic, EmlNetActivationTanh, EmlNetActivationIdentity, EmlNetActivationSoftmax} },
};
#define N_BASE 4
typedef struct { EmlNet net; EmlNetLayer layers[5]; float *w[5], *b[5]; float *a1, *a2; } Built;
static float weight(int l, int k) { return ((k*7+l*3) %% 11 - 5) * 0.25f; }
static void fill(Built *B) {
    for (int l=0; l<B->net.n_layers && l<5; l++) {
        EmlNetLayer *L = &B->layers[l];
        const int nw = L->n_inputs > 0 && L->n_outputs > 0 ? L->n_inputs*L->n_outputs : 0, nb = L->n_outputs > 0 ? L->n_outputs : 0;
        B->w[l] = mc_buf(sizeof(float)*nw); B->b[l] = mc_buf(sizeof(float)*nb);
        for (int k=0; k<nw; k++) B->w[l][k] = weight(l, k);
        for (int k=0; k<nb; k++) B->b[l][k] = 0.1f*(k+1);
        if (L->weights) L->weights = B->w[l];
        if (L->biases) L->biases = B->b[l];
    }
}
static void release(Built *B) { for (int l=0; l<5; l++) { free(B->w[l]); free(B->b[l]); } free(B->a1); free(B->a2); }
static void start(Built *B, const Desc *d) {
    memset(B, 0, sizeof *B);
    int big = 0; for (int i=0; i<=d->n_layers; i++) if (d->sizes[i] > big) big = d->sizes[i];
    B->net.n_layers = d->n_layers; B->net.layers = B->layers; B->net.activations_length = big;
    for (int l=0; l<d->n_layers; l++) { B->layers[l].n_inputs = d->sizes[l]; B->layers[l].n_outputs = d->sizes[l+1]; B->layers[l].activation = d->act[l];
        static const float dummy[1]; B->layers[l].weights = dummy; B->layers[l].biases = dummy; }
}
static void buffers(Built *B, int null1, int null2) {
    const int n = B->net.activations_length > 0 ? B->net.activations_length : 0;
    B->a1 = mc_buf(sizeof(float)*n); B->a2 = mc_buf(sizeof(float)*n);
    for (int i=0; i<n; i++) B->a1[i] = B->a2[i] = NAN;
    B->net.activations1 = null1 ? NULL : B->a1; B->net.activations2 = null2 ? NULL : B->a2;
}
/* reference: double precision */
static int reference(const EmlNet *net, const float *in, double *out) {
    double a[64], z[64];
    for (int i=0; i<net->layers[0].n_inputs; i++) a[i] = in[i];
    for (int l=0; l<net->n_layers; l++) {
        const EmlNetLayer *L = &net->layers[l];
        double mx = -1e300, s = 0;
        for (int o=0; o<L->n_outputs; o++) { z[o] = L->biases[o]; for (int i=0; i<L->n_inputs; i++) z[o] += (double)L->weights[o+i*L->n_outputs]*a[i]; if (z[o] > mx) mx = z[o]; }
        for (int o=0; o<L->n_outputs; o++) s += exp(z[o]-mx);
        for (int o=0; o<L->n_outputs; o++) switch (L->activation) {
            case EmlNetActivationRelu: a[o] = z[o] > 0 ? z[o] : 0; break;
            case EmlNetActivationLogistic: a[o] = 1/(1+exp(-z[o])); break;
            case EmlNetActivationTanh: a[o] = tanh(z[o]); break;
            case EmlNetActivationSoftmax: a[o] = exp(z[o]-mx)/s; break;
            default: a[o] = z[o]; }
    }
    const int n = net->layers[net->n_layers-1].n_outputs;
    for (int o=0; o<n; o++) out[o] = a[o];
    return n;
}

/* ---- defects */
typedef struct { int features_null, features_delta, out_null, out_delta, null1, null2; } Call;
enum { FNULL, FLEN_M, FLEN_P, FLEN_0, FLEN_NEG, FLEN_BIG, ONULL, OLEN_M, OLEN_P, OLEN_0, OLEN_NEG, OLEN_BIG, LNULL, A1NULL, A2NULL, BUF_M, BUF_0, BUF_NEG, NL_0, NL_1, NL_NEG,
       PER_LAYER };
enum { WNULL, BNULL, IN_P, IN_M, OUT_P, OUT_M, ACT_99, ACT_NEG, ACT_END, N_PER_LAYER };
static const char *dnames[] = {"features NULL","features_length-1","features_length+1","features_length 0","features_length -1","features_length+256","out NULL","out_length-1","out_length+1","out_length 0","out_length -1","out_length+256",
  "layers NULL","activations1 NULL","activations2 NULL","activations_length-1","activations_length 0","activations_length -1","n_layers 0","n_layers 1","n_layers -1"};
static const char *lnames[] = {"weights NULL","biases NULL","n_inputs+1","n_inputs-1","n_outputs+1","n_outputs-1","activation 99","activation -1","activation end of enum"};
static void dname(int d, char *s) { if (d < 0) strcpy(s, "none"); else if (d < PER_LAYER) strcpy(s, dnames[d]); else sprintf(s, "layer %%d %%s", (d-PER_LAYER)/N_PER_LAYER, lnames[(d-PER_LAYER)%%N_PER_LAYER]); }

typedef struct { int fl, ol, fnull, onull, lnull, n1, n2; } Args;
static void apply(Built *B, Args *a, int d) {
    switch (d) {
    case FNULL: a->fnull = 1; break; case FLEN_M: a->fl--; break; case FLEN_P: a->fl++; break; case FLEN_0: a->fl = 0; break; case FLEN_NEG: a->fl = -1; break; case FLEN_BIG: a->fl += 256; break;
    case ONULL: a->onull = 1; break; case OLEN_M: a->ol--; break; case OLEN_P: a->ol++; break; case OLEN_0: a->ol = 0; break; case OLEN_NEG: a->ol = -1; break; case OLEN_BIG: a->ol += 256; break;
    case LNULL: a->lnull = 1; break; case A1NULL: a->n1 = 1; break; case A2NULL: a->n2 = 1; break;
    case BUF_M: B->net.activations_length--; break; case BUF_0: B->net.activations_length = 0; break; case BUF_NEG: B->net.activations_length = -1; break;
    case NL_0: B->net.n_layers = 0; break; case NL_1: B->net.n_layers = 1; break; case NL_NEG: B->net.n_layers = -1; break;
    default: { EmlNetLayer *L = &B->layers[(d-PER_LAYER)/N_PER_LAYER];
        switch ((d-PER_LAYER)%%N_PER_LAYER) {
        case WNULL: L->weights = NULL; break; case BNULL: L->biases = NULL; break;
        case IN_P: L->n_inputs++; break; case IN_M: L->n_inputs--; break; case OUT_P: L->n_outputs++; break; case OUT_M: L->n_outputs--; break;
        case ACT_99: L->activation = (EmlNetActivationFunction)99; break; case ACT_NEG: L->activation = (EmlNetActivationFunction)-1; break; case ACT_END: L->activation = EmlNetActivationFunctions; break; } }
    }
}
/* must the call fail? (oracle over the final description) */
static int net_ok(const EmlNet *n, const Args *a) {
    if (a->lnull || a->n1 || a->n2 || a->fnull || n->n_layers < 2) return 0;
    int big = 0;
    for (int l=0; l<n->n_layers; l++) { const EmlNetLayer *L = &n->layers[l];
        if (!L->weights || !L->biases || (unsigned)L->activation >= EmlNetActivationFunctions) return 0;
        if (l && L->n_inputs != n->layers[l-1].n_outputs) return 0;
        if (L->n_inputs > big) big = L->n_inputs;
        if (L->n_outputs > big) big = L->n_outputs; }
    return n->activations_length >= big && a->fl == n->layers[0].n_inputs;
}
static void one(int b, int d1, int d2) {
    Built B; Args a; char s1[40], s2[40];
    dname(d1, s1); dname(d2, s2);
    start(&B, &base[b]);
    memset(&a, 0, sizeof a); a.fl = base[b].sizes[0];
    const int n0 = base[b].sizes[base[b].n_layers];
    a.ol = n0;
    if (d1 >= 0) apply(&B, &a, d1);
    if (d2 >= 0) apply(&B, &a, d2);
    for (int l=0; l<base[b].n_layers; l++) if (B.layers[l].n_inputs < 1 || B.layers[l].n_outputs < 1) { memset(B.w, 0, sizeof B.w); return; } /* empty layers: not specified */
    mc_states++;
    mc_where("net %%d: %%s + %%s", b, s1, s2);
    const int real_layers = B.net.n_layers;
    B.net.n_layers = base[b].n_layers; fill(&B); B.net.n_layers = real_layers;
    buffers(&B, a.n1, a.n2);
    if (a.lnull) B.net.layers = NULL;
    const int ok = net_ok(&B.net, &a);
    const int nout = base[b].n_layers > 0 ? B.layers[base[b].n_layers-1].n_outputs : 0;
    const size_t fn = a.fl > 0 ? a.fl : 0;
    float *f = mc_buf(sizeof(float)*fn), *f0 = malloc(sizeof(float)*fn+1);
    for (size_t i=0; i<fn; i++) f[i] = 0.5f*(i%%3)-0.25f;
    memcpy(f0, f, sizeof(float)*fn);
    const float *fp = a.fnull ? NULL : f;
    double want[16]; if (ok) reference(&B.net, f, want);
    /* predict */
    const int cls = eml_net_predict(&B.net, fp, a.fl); mc_transitions++; mc_traces++;
    if (ok ? (cls < 0 || cls >= (nout == 1 ? 2 : nout)) : cls >= 0) mc_fail("predict", "net %%d with %%s, %%s: returned %%d", b, s1, s2, cls);
    /* regress */
    { const size_t on = a.ol > 0 ? a.ol : 0; float *o = mc_buf(sizeof(float)*on), *r = malloc(sizeof(float)*on+1); memcpy(r, o, sizeof(float)*on);
      const int e = eml_net_regress(&B.net, fp, a.fl, a.onull ? NULL : o, a.ol); mc_transitions++; mc_traces++;
      const int good = ok && !a.onull && a.ol == nout;
      if (good != (e == EmlOk)) mc_fail("regress", "net %%d with %%s, %%s: returned %%d", b, s1, s2, e);
      if (good) for (int i=0; i<nout; i++) if (!(fabs(o[i]-want[i]) <= 1e-5*(1+fabs(want[i])))) mc_fail("regress-value", "net %%d with %%s, %%s: output %%d is %%g not %%g", b, s1, s2, i, o[i], want[i]);
      if (!good && memcmp(o, r, sizeof(float)*on)) mc_fail("regress-writes-on-error", "net %%d with %%s, %%s", b, s1, s2);
      free(o); free(r); }
    /* regress1 */
    { const float v = eml_net_regress1(&B.net, fp, a.fl); mc_transitions++; mc_traces++;
      const int good = ok && nout == 1;
      if (good != !isnan(v)) mc_fail("regress1", "net %%d with %%s, %%s: returned %%g", b, s1, s2, v); }
    /* probabilities */
    { const int np = nout == 1 ? 2 : nout, ol = a.ol + (n0 == 1 && a.ol >= n0 ? 1 : 0); const size_t on = ol > 0 ? ol : 0;
      float *o = mc_buf(sizeof(float)*on);
      const int e = eml_net_predict_proba(&B.net, fp, a.fl, a.onull ? NULL : o, ol); mc_transitions++; mc_traces++;
      double sum = 0; if (ok) for (int i=0; i<nout; i++) sum += want[i];
      const int good = ok && !a.onull && ol == np && (nout == 1 || fabs(sum-1) < 1e-4);
      if (good != (e == EmlOk)) mc_fail("proba", "net %%d with %%s, %%s: returned %%d", b, s1, s2, e);
      if (good && nout > 1) for (int i=0; i<nout; i++) if (!(fabs(o[i]-want[i]) <= 1e-5)) mc_fail("proba-value", "net %%d with %%s, %%s", b, s1, s2);
      if (good && nout == 1) if (!(fabs(o[1]-want[0]) <= 1e-5) || !(fabs(o[0]-1+want[0]) <= 1e-5)) mc_fail("proba-value", "net %%d with %%s, %%s", b, s1, s2);
      free(o); }
    if (memcmp(f, f0, sizeof(float)*fn)) mc_fail("features-modified", "net %%d with %%s, %%s", b, s1, s2);
    free(f); free(f0); release(&B);
}

/* ---- histories: three networks, two of them sharing their work buffers */
static Built H[4];
static const float inputs[3][3] = { {0.5f, -1.0f, 2.0f}, {-3.0f, 0.0f, 0.25f}, {100.0f, 50.0f, -20.0f} };
typedef struct { int net, entry, in; } Op;
static int call(const Op *op, float *res) { /* returns the status/class, outputs in res[8] */
    EmlNet *n = &H[op->net].net;
    const int nf = n->layers[0].n_inputs, no = n->layers[n->n_layers-1].n_outputs, np = no == 1 ? 2 : no;
    const float *f = inputs[op->in];
    memset(res, 0, sizeof(float)*8);
    switch (op->entry) {
    case 0: return eml_net_predict(n, f, nf);
    case 1: return eml_net_predict_proba(n, f, nf, res, np);
    case 2: return eml_net_regress(n, f, nf, res, no);
    case 3: res[0] = eml_net_regress1(n, f, nf); if (isnan(res[0])) res[0] = -12345; return 0;
    case 4: return eml_net_predict(n, f, nf+1);              /* rejected calls */
    case 5: return eml_net_regress(n, f, nf, res, no+1);
    default: return eml_net_predict_proba(n, NULL, nf, res, np);
    }
}
static void scramble(float v) { for (int h=0; h<4; h++) for (int i=0; i<H[h].net.activations_length; i++) H[h].net.activations1[i] = H[h].net.activations2[i] = v; }

%(inline_driver)s

/* many features: inputs that differ in a single element, one after the other, through every entry point */
static void wide(void) {
    static const Desc descs[] = { { 3, {20, 6, 5, 3}, {EmlNetActivationTanh, EmlNetActivationRelu, EmlNetActivationSoftmax} }, { 2, {40, 7, 1}, {EmlNetActivationRelu, EmlNetActivationLogistic} }, { 4, {33, 3, 9, 2, 2}, {EmlNetActivationRelu, EmlNetActivationTanh, EmlNetActivationIdentity, EmlNetActivationSoftmax} } };
    for (int d=0; d<3; d++) {
        static Built B[2];
        for (int k=0; k<2; k++) { start(&B[k], &descs[d]); fill(&B[k]); buffers(&B[k], 0, 0);
            if (k) for (int i=0; i<descs[d].sizes[0]*descs[d].sizes[1]; i++) B[k].w[0][i] = weight(3, i)*0.5f; } /* same shape, other weights */
        const int nf = descs[d].sizes[0], no = descs[d].sizes[descs[d].n_layers], np = no == 1 ? 2 : no, ni = nf+1;
        static float in[64][64]; static double ref[2][64][64];
        for (int i=0; i<ni; i++) { for (int j=0; j<nf; j++) in[i][j] = 0.125f*((j*5)%%7-3); if (i) in[i][i-1] += 2.0f;
            for (int k=0; k<2; k++) reference(&B[k].net, in[i], ref[k][i]); }
        float *buf = mc_buf(sizeof(float)*nf);
        for (int a=0; a<ni; a++) for (int b=0; b<ni; b++) for (int m=0; m<4; m++) for (int e=0; e<3; e++) {
            const int seq_in[3] = {a, b, a}, seq_net[3] = {0, m & 1, m >> 1};
            mc_states++; mc_traces++;
            for (int s=0; s<3; s++) {
                memcpy(buf, in[seq_in[s]], sizeof(float)*nf);
                float out[8]; EmlNet *net = &B[seq_net[s]].net; mc_transitions++;
                const double *w = ref[seq_net[s]][seq_in[s]];
                if (e == 0) { const int st = eml_net_regress(net, buf, nf, out, no);
                    for (int o=0; o<no; o++) if (st || !(fabs(out[o]-w[o]) <= 1e-4)) mc_fail("wide-history", "net %%d/%%d inputs %%d,%%d,%%d step %%d: output %%d is %%g not %%g", d, seq_net[s], a, b, a, s, o, out[o], w[o]); }
                else if (e == 1) { const int st = eml_net_predict_proba(net, buf, nf, out, np);
                    for (int o=0; o<no; o++) if (st || !(fabs(out[no == 1 ? 1 : o]-w[o]) <= 1e-4)) mc_fail("wide-history", "net %%d/%%d inputs %%d,%%d,%%d step %%d: probability %%d is %%g not %%g", d, seq_net[s], a, b, a, s, o, out[no == 1 ? 1 : o], w[o]); }
                else { const int cl = eml_net_predict(net, buf, nf); double mx = -1; for (int o=0; o<no; o++) if (w[o] > mx) mx = w[o];
                    if (cl < 0 || cl >= np || (no == 1 ? fabs(w[0]-0.5) > 1e-4 && cl != (w[0] > 0.5) : w[cl] < mx-1e-4)) mc_fail("wide-history", "net %%d/%%d inputs %%d,%%d,%%d step %%d: class %%d", d, seq_net[s], a, b, a, s, cl); }
            } }
        free(buf); release(&B[0]); release(&B[1]);
        mc_dist("wide", ni*ni*12);
    }
}
/* outputs that are no probabilities are refused by predict_proba */
static void sums(void) {
    static const double dev[] = {0, 1e-5, -1e-5, 0.05, -0.05, 0.1, -0.1, 0.5, -0.5, 1, -1, -2, 10, -10, 1e6, INFINITY, NAN};
    for (int n=2; n<6; n++) for (unsigned k=0; k<sizeof dev/sizeof *dev; k++) for (int pos=0; pos<n; pos++) {
        Desc d = { 2, {2, 3, n}, {EmlNetActivationIdentity, EmlNetActivationIdentity} };
        Built B; start(&B, &d); fill(&B); buffers(&B, 0, 0);
        for (int i=0; i<3*n; i++) B.w[1][i] = 0;
        for (int i=0; i<n; i++) B.b[1][i] = 1.0f/n;
        B.b[1][pos] += dev[k];
        const float f[2] = {1, 2}; float out[8];
        const int e = eml_net_predict_proba(&B.net, f, 2, out, n); mc_states++; mc_transitions++; mc_traces++;
        if ((e == EmlOk) != (fabs(dev[k]) < 1e-4)) mc_fail("sum-of-probabilities", "%%d outputs with sum %%g: returned %%d", n, 1+dev[k], e);
        release(&B); }
}

int main(void) {
    for (int b=0; b<N_BASE; b++) {
        const int nd = PER_LAYER + N_PER_LAYER*base[b].n_layers;
        one(b, -1, -1);
        for (int d=0; d<nd; d++) one(b, d, -1);
        for (int d=0; d<nd; d++) for (int e=0; e<nd; e++) if (d != e) one(b, d, e);
    }
    for (int h=0; h<4; h++) { start(&H[h], &base[h]); fill(&H[h]); H[h].net.activations_length = 6; buffers(&H[h], 0, 0); }
    H[1].net.activations1 = H[0].net.activations1; H[1].net.activations2 = H[0].net.activations2; /* shared */
    H[3].net.activations1 = H[0].net.activations2; H[3].net.activations2 = H[0].net.activations1; /* shared crosswise */
    Op ops[128]; int n = 0;
    for (int h=0; h<4; h++) for (int e=0; e<7; e++) for (int i=0; i<(e < 4 ? %(hin)d : 1); i++) if (e != 3 || h == 2) { ops[n].net = h; ops[n].entry = e; ops[n].in = i; n++; }
    static int want_s[128]; static float want[128][8];
    for (int k=0; k<n; k++) { scramble(0.0f); want_s[k] = call(&ops[k], want[k]);
        double ref[16]; const int no = reference(&H[ops[k].net].net, inputs[ops[k].in], ref);
        if (ops[k].entry == 2) for (int i=0; i<no; i++) if (!(fabs(want[k][i]-ref[i]) <= 1e-4*(1+fabs(ref[i])))) mc_fail("value", "net %%d input %%d output %%d: %%g not %%g", ops[k].net, ops[k].in, i, want[k][i], ref[i]); }
    const int depth = %(depth)d; long total = 1; for (int i=0; i<depth; i++) total *= n;
    for (long s=0; s<total; s++) {
        long q = s; mc_states++; mc_traces++;
        scramble(NAN);
        for (int i=0; i<depth; i++) { const int k = q %% n; q /= n; float got[8]; mc_transitions++;
            const int st = call(&ops[k], got);
            if (st != want_s[k] || memcmp(got, want[k], sizeof got)) { mc_fail("history", "sequence %%ld step %%d: net %%d entry %%d input %%d: %%d %%g %%g, alone %%d %%g %%g", s, i, ops[k].net, ops[k].entry, ops[k].in, st, got[0], got[1], want_s[k], want[k][0], want[k][1]); } }
    }
    mc_dist("call-alphabet", n); mc_dist("sequences", total);
    wide();
    sums();
    inline_checks();
    mc_sample("net 0 input 0: class %%d", want_s[0]);
    return mc_end();
}
'''

INLINE = r'''
typedef int32_t (*inl_f)(const float *, int32_t);
static const inl_f inl[] = { %(fns)s };
static const int inl_nf[] = { %(nfs)s };
static void inline_checks(void) {
    const int n = sizeof(inl)/sizeof(inl[0]);
    for (int m=0; m<n; m++) for (int fl=-2; fl<=inl_nf[m]+3; fl++) {
        const size_t fn = fl > 0 ? fl : 0;
        float *f = mc_buf(sizeof(float)*fn);
        for (size_t i=0; i<fn; i++) f[i] = 0.5f;
        mc_states++; mc_transitions++; mc_traces++;
        mc_where("inline %%d features_length=%%d", m, fl);
        const int c = inl[m](f, fl);
        if ((fl == inl_nf[m]) != (c >= 0)) mc_fail("inline-length", "inline net %%d with %%d features, given %%d, returned %%d", m, inl_nf[m], fl, c);
        free(f);
    }
    int want[16][3];
    for (int m=0; m<n; m++) for (int i=0; i<3; i++) want[m][i] = inl[m](inputs[i], inl_nf[m]);
    const int k = n*4;
    for (int a=0; a<k; a++) for (int b=0; b<k; b++) for (int d=0; d<k; d++) {
        const int seq[3] = {a, b, d}; mc_states++; mc_traces++;
        for (int s=0; s<3; s++) { const int m = seq[s]/4, i = seq[s]%%4; mc_transitions++;
            if (i == 3) { inl[m](inputs[0], inl_nf[m]+1); continue; }
            if (inl[m](inputs[i], inl_nf[m]) != want[m][i]) mc_fail("inline-history", "sequence %%d,%%d,%%d step %%d", a, b, d, s); } }
}
'''


def run(c):
    import emlearn
    c.assume('oracle: independent validity predicate over the altered description; double-precision forward pass', 'layers of zero width are not specified')
    nets = [nl.Net([3, 2, 3], ['relu', 'softmax'], 'distinct'), nl.Net([2, 5, 1, 1], ['tanh', 'tanh', 'logistic'], 'large'), nl.Net([1, 2, 4, 3], ['relu', 'relu', 'softmax'], 'int')]
    code, fns, nfs = [], [], []
    with nl.no_compile():
        for i, n in enumerate(nets):
            code.append(emlearn.convert(nl.sk_model(n, 'classifier'), method='inline').save(name=f'inl{i}'))
            fns.append(f'inl{i}_predict'); nfs.append(str(n.sizes[0]))
    inline = INLINE % dict(fns=', '.join(fns), nfs=', '.join(nfs))
    drive.drive(c, 'net', DRIVER % dict(inline_code='\n'.join(code), inline_driver=inline, hin=2, depth=3), extra=[])
    if not c.quick:
        drive.drive(c, 'net4', DRIVER % dict(inline_code='\n'.join(code), inline_driver=inline, hin=2, depth=4), extra=['-O2'])
    c.bound(networks=4, defects='every single and ordered pair', sequence_depth=c.pick(3, 4), inline_sequences='depth 3')
