"""C25 FFT: every basis vector of every power-of-two length, every small-alphabet vector of short lengths, every other length and every mismatch."""
import itertools
import numpy
from mc import drive, ext

DRIVER = r'''
#include <eml_fft.h>
static EmlFFT table(int length) { EmlFFT t = { length, mc_buf(sizeof(float)*length), mc_buf(sizeof(float)*length) }; return t; }
static void drop(EmlFFT t) { free(t.sin); free(t.cos); }
static double *C, *S;      /* reference: cos and sin of 2 pi i/n */
static void angles(size_t n) { C = realloc(C, sizeof(double)*(n+1)); S = realloc(S, sizeof(double)*(n+1)); for (size_t i=0; i<n; i++) { C[i] = cos(2*M_PI*(double)i/n); S[i] = sin(2*M_PI*(double)i/n); } }
static EmlFFT filled(size_t n) {
    EmlFFT t = table(n/2); EmlError e = eml_fft_fill(t, n);
    if (e != EmlOk) mc_fail("fill:refused", "length %zu error %d", n, e);
    for (size_t i=0; i<n/2; i++) if (!(fabs(t.cos[i]-C[i]) < 4e-7 && fabs(t.sin[i]-S[i]) < 4e-7)) { mc_fail("fill:values", "length %zu at %zu: cos %g sin %g", n, i, t.cos[i], t.sin[i]); break; }
    return t;
}
static void basis(size_t n, int part, int parts, size_t step) {
    angles(n); EmlFFT t = filled(n); float *copy = mc_buf(sizeof(float)*n); memcpy(copy, t.sin, sizeof(float)*(n/2));
    float *re = mc_buf(sizeof(float)*n), *im = mc_buf(sizeof(float)*n);
    double tol = 5e-7*(2+log2((double)n));
    for (size_t j=part*step; j<n; j+=parts*step) for (int v=0; v<4; v++) {
        /* real, imaginary, both, and next to a constant */
        double a = v == 1 ? 0 : 1, b = v == 0 ? 0 : v == 1 ? 1 : -2, base = v == 3 ? 0.5 : 0;
        for (size_t i=0; i<n; i++) { re[i] = base; im[i] = 0; }
        re[j] += a; im[j] += b;
        EmlError e = eml_fft_forward(t, re, im, n); mc_states++; mc_transitions++; mc_traces++;
        if (e != EmlOk) { mc_fail("forward:refused", "length %zu error %d", n, e); break; }
        for (size_t k=0; k<n; k++) {
            size_t w = (unsigned long long)j*k % n; double x = a*C[w]+b*S[w] + (k == 0 ? base*n : 0), y = -a*S[w]+b*C[w], lim = v == 3 ? tol*n/2+tol : tol*3;
            if (v == 3 && k) lim = tol*4;
            if (!(fabs(re[k]-x) <= lim && fabs(im[k]-y) <= lim)) { mc_fail("forward:value", "length %zu input at %zu (%g,%g)+%g: output %zu is (%.9g,%.9g) expected (%.9g,%.9g)", n, j, a, b, base, k, re[k], im[k], x, y); break; }
        }
    }
    if (memcmp(copy, t.sin, sizeof(float)*(n/2))) mc_fail("table-changed", "length %zu", n);
    free(re); free(im); free(copy); drop(t);
}
static void alphabet(size_t n, int imag, int part, int parts, const float *L, int nl) {
    angles(n); EmlFFT t = filled(n); float *re = mc_buf(sizeof(float)*n), *im = mc_buf(sizeof(float)*n); double r[16], q[16];
    size_t cells = imag ? 2*n : n; long total = 1; for (size_t i=0; i<cells; i++) total *= nl;
    for (long w=part; w<total; w+=parts) {
        long x = w; for (size_t i=0; i<n; i++) { re[i] = r[i] = L[x%nl]; x /= nl; } for (size_t i=0; i<n; i++) { im[i] = q[i] = imag ? L[x%nl] : 0; x /= nl; }
        EmlError e = eml_fft_forward(t, re, im, n); mc_states++; mc_transitions++; mc_traces++;
        if (e != EmlOk) { mc_fail("forward:refused", "length %zu", n); break; }
        double mag = 0; for (size_t i=0; i<n; i++) mag += fabs(r[i])+fabs(q[i]);
        for (size_t k=0; k<n; k++) {
            double X = 0, Y = 0; for (size_t j=0; j<n; j++) { size_t a = j*k % n; X += r[j]*C[a]+q[j]*S[a]; Y += q[j]*C[a]-r[j]*S[a]; }
            if (!(fabs(X-re[k]) <= 1e-6*mag && fabs(Y-im[k]) <= 1e-6*mag)) { mc_fail("forward:value", "length %zu word %ld output %zu: (%.9g,%.9g) expected (%.9g,%.9g)", n, w, k, re[k], im[k], X, Y); break; }
        }
    }
    free(re); free(im); drop(t);
}
/* a call that must be refused: data and tables stay */
static void refused(int tl, size_t n, size_t room) {
    EmlFFT t = table(tl > 0 ? tl : 0); t.length = tl; for (int i=0; i<tl; i++) { t.sin[i] = i; t.cos[i] = -i; }
    float *re = mc_buf(sizeof(float)*room), *im = mc_buf(sizeof(float)*room);
    for (size_t i=0; i<room; i++) { re[i] = i+1; im[i] = -(float)i; }
    mc_states++; mc_transitions++; mc_traces++;
    if (eml_fft_forward(t, re, im, n) == EmlOk) mc_fail("forward:accepted", "length %zu table %d", n, tl);
    for (size_t i=0; i<room; i++) if (re[i] != i+1 || im[i] != -(float)i) { mc_fail("forward:refused-but-changed", "length %zu table %d", n, tl); break; }
    for (int i=0; i<tl; i++) if (t.sin[i] != i || t.cos[i] != -i) { mc_fail("table-changed", "length %zu table %d", n, tl); break; }
    free(re); free(im); drop(t);
}
/* the same buffers used for one length after another: nothing of the earlier lengths remains */
static void histories(int part, int parts, int top, int depth) {
    int total = 1; for (int i=0; i<depth; i++) total *= top+1;
    size_t room = (size_t)1 << top; float *sn = mc_buf(sizeof(float)*room), *cs = mc_buf(sizeof(float)*room), *re = mc_buf(sizeof(float)*room), *im = mc_buf(sizeof(float)*room);
    for (int w=part; w<total; w+=parts) {
        int x = w; mc_traces++;
        for (int i=0; i<depth; i++) {
            size_t n = (size_t)1 << (x % (top+1)); x /= top+1; EmlFFT t = { (int)(n/2), sn, cs };
            if (eml_fft_fill(t, n) != EmlOk) { mc_fail("history:fill-refused", "length %zu", n); break; }
            int bad = 0; for (size_t k=0; k<n/2 && !bad; k++) if (!(fabs(cs[k]-cos(2*M_PI*(double)k/n)) < 4e-7 && fabs(sn[k]-sin(2*M_PI*(double)k/n)) < 4e-7)) { mc_fail("history:fill", "step %d of word %d length %zu at %zu: cos %g sin %g", i, w, n, k, cs[k], sn[k]); bad = 1; }
            for (size_t k=0; k<n; k++) { re[k] = k == n/2 ? 1 : 0; im[k] = k == 1 % n ? 1 : 0; }
            if (eml_fft_forward(t, re, im, n) != EmlOk) { mc_fail("history:refused", "length %zu", n); break; }
            for (size_t k=0; k<n && !bad; k++) {
                double a = 2*M_PI*(double)(k*(n/2) % n)/n, b = 2*M_PI*(double)(k*(1 % n) % n)/n, X = cos(a)+sin(b), Y = -sin(a)+cos(b);
                if (!(fabs(re[k]-X) < 1e-5 && fabs(im[k]-Y) < 1e-5)) { mc_fail("history:value", "step %d of word %d length %zu output %zu: (%g,%g) expected (%g,%g)", i, w, n, k, re[k], im[k], X, Y); bad = 1; }
            }
            mc_states++; mc_transitions += 2;
            if (bad) break;
        }
    }
    free(sn); free(cs); free(re); free(im);
}
/* the transform is linear: an input scaled by a power of two gives exactly the scaled output */
static void scaled(size_t n) {
    angles(n); EmlFFT t = filled(n); float *re = mc_buf(sizeof(float)*n), *im = mc_buf(sizeof(float)*n), *r0 = mc_buf(sizeof(float)*n), *i0 = mc_buf(sizeof(float)*n);
    static const int E[] = { 0, -20, -45, -70, -90, 20, 45, 70, 90 };
    for (int v=0; v<5; v++) for (int q=0; q<9; q++) {
        for (size_t i=0; i<n; i++) { re[i] = ldexpf(v == 0 ? i == n/2 : v == 1 ? 1 : v == 2 ? (float)((i*7) % 5)-2 : v == 3 ? (i & 1 ? -1.5f : 0.25f) : 0, E[q]); im[i] = ldexpf(v == 2 ? (float)((i*3) % 7)-3 : v == 4 ? (i == 1 % n) : 0, E[q]); }
        mc_states++; mc_transitions++; mc_traces++;
        if (eml_fft_forward(t, re, im, n) != EmlOk) { mc_fail("scaled:refused", "length %zu", n); break; }
        for (size_t k=0; k<n; k++) {
            if (!q) { r0[k] = re[k]; i0[k] = im[k]; }
            else if (re[k] != ldexpf(r0[k], E[q]) || im[k] != ldexpf(i0[k], E[q])) { mc_fail("scaled:value", "length %zu pattern %d times 2^%d output %zu: (%g,%g) expected (%g,%g)", n, v, E[q], k, re[k], im[k], ldexpf(r0[k], E[q]), ldexpf(i0[k], E[q])); break; }
        }
    }
    free(re); free(im); free(r0); free(i0); drop(t);
}
int main(int argc, char **argv) {
    int part = atoi(argv[1]), parts = atoi(argv[2]), thorough = atoi(argv[3]);
    histories(part, parts, 10, 2); histories(part, parts, thorough ? 9 : 6, thorough ? 4 : 3);
    if (part == 1) for (int l=0; l<=(thorough ? 15 : 12); l++) scaled((size_t)1 << l);
    for (int l=0; l<=(thorough ? 13 : 11); l++) basis((size_t)1 << l, part, parts, 1);
    for (int l=12; l<=(thorough ? 20 : 17); l++) basis((size_t)1 << l, part, parts, ((size_t)1 << (l-4))+1);
    static const float L3[] = { 0, 1, -1 }, L4[] = { 0, 1, -2, 0.5f }, LB[] = { 0, 1e6f, -3e-3f };
    alphabet(1, 1, part, parts, L4, 4); alphabet(2, 1, part, parts, L4, 4); alphabet(4, 1, part, parts, L4, 4); alphabet(4, 1, part, parts, LB, 3);
    alphabet(8, 0, part, parts, L4, 4); alphabet(8, 0, part, parts, LB, 3);
    if (thorough) { alphabet(8, 1, part, parts, L3, 3); alphabet(16, 0, part, parts, L3, 3); }
    else { static const float L2[] = { 1, -1 }; alphabet(8, 1, part, parts, L2, 2); alphabet(16, 0, part, parts, L2, 2); }
    for (size_t n=part; n<=(thorough ? 1100 : 300); n+=parts) {
        int pow2 = n && !(n & (n-1));
        for (int tl=-1; tl<=(int)n+2; tl++) {
            if (!(pow2 && tl == (int)(n/2))) refused(tl, n, n);
            if (tl < 0) continue;
            EmlFFT t = table(tl); for (int i=0; i<tl; i++) t.sin[i] = t.cos[i] = 7;
            EmlError e = eml_fft_fill(t, n); mc_states++; mc_transitions++; mc_traces++;
            if (tl != (int)(n/2)) { if (e == EmlOk) mc_fail("fill:accepted", "length %zu table %d", n, tl); for (int i=0; i<tl; i++) if (t.sin[i] != 7 || t.cos[i] != 7) { mc_fail("fill:refused-but-changed", "length %zu table %d", n, tl); break; } }
            else if (e != EmlOk && pow2) mc_fail("fill:refused", "length %zu", n);
            drop(t);
        }
    }
    if (part == 0) {
        static const size_t N[] = { (size_t)1 << 31, (size_t)1 << 32, ((size_t)1 << 32)+2, ((size_t)1 << 32)+1, (size_t)1 << 63, SIZE_MAX, SIZE_MAX/2, ((size_t)1 << 33)+4 };
        for (int i=0; i<8; i++) for (int tl=-2; tl<=4; tl++) refused(tl, N[i], 8);
        refused(INT32_MIN, 8, 8); refused(INT32_MIN, 1, 1); refused(-4, 8, 8); refused(INT32_MIN, 0, 0);
    }
    free(C); free(S);
    return mc_end();
}
'''

LAYOUT = r'''
import numpy, eml_audio
n = t = 0
for N in list(range(0, 70)) + [127, 128, 129, 255, 256, 257, 1000, 1024, 2048, 4096, 5000]:
    for x in (numpy.ones(N, 'f4'), numpy.ones(N, 'f8'), numpy.ones(2*N, 'f4')[::2], numpy.ones((N, 2), 'i4')[:, 0]):
        n += 1
        try: out = eml_audio.rfft(x)
        except Exception: out = None
        pow2 = N > 0 and N & (N-1) == 0
        if pow2 != (out is not None): print(f'F python:length|{N} accepted={out is not None}')
        elif out is not None and (out.shape != (N,) or abs(out[0]-N) > 1e-3 or abs(out[1:]).max(initial=0) > 1e-3): print(f'F python:value|{N}')
for bad in (numpy.ones((4, 4)), numpy.float32(1), numpy.ones((1, 4)), numpy.ones((4, 1)), numpy.zeros((0, 4))):
    n += 1
    try: eml_audio.rfft(bad); print(f'F python:accepted|shape {bad.shape}')
    except Exception: pass
print('N', n, n, n)
'''


def run(c):
    exe = drive.build(c, 'fft', DRIVER)
    drive.run_many(c, exe, [(str(i), '16', c.pick('0', '1')) for i in range(16)], 'fft')
    c.count('c', c.states)
    ext.run_asan(c, 'eml_audio', LAYOUT, 'python')
    m = ext.load(c, 'eml_audio')
    lengths = [2**i for i in range(0, c.pick(10, 12))]
    for n in lengths:
        eye = numpy.eye(n, dtype='f4')
        want = numpy.cos(2*numpy.pi*numpy.outer(numpy.arange(n), numpy.arange(n))/n)
        for j in range(n):
            for scale in (1, -3):
                x = eye[j]*scale
                c.states += 1; c.transitions += 1; c.traces += 1
                out = m.rfft(x)
                if out.shape != (n,) or not numpy.abs(out-scale*want[j]).max() < 3e-6*(2+numpy.log2(n)):
                    c.violation('python:value', length=n, input=j, scale=scale)
                if x[j] != scale or numpy.count_nonzero(x) != 1:
                    c.violation('python:input-modified', length=n)
    def dft(x):
        n = len(x)
        return (numpy.cos(2*numpy.pi*(numpy.outer(numpy.arange(n), numpy.arange(n)) % n)/n) @ numpy.asarray(x, 'f4').astype(float)) if n <= 64 else numpy.fft.fft(numpy.asarray(x, 'f4').astype(float)).real
    # every layout of the values
    for n in (1, 2, 4, 8, 64, 512):
        x = (numpy.arange(n)*7919 % 13-6)*0.37
        for how, v in ext.layouts(x):
            c.states += 1; c.transitions += 1; c.traces += 1
            held = numpy.array(v); out = m.rfft(v)
            if out.shape != (n,) or not numpy.abs(out-dft(x)).max() < 3e-6*(2+numpy.log2(n))*numpy.abs(x).sum(): c.violation(f'python:layout:{how}:{n}', got=out[:8], expected=dft(x)[:8])
            if not numpy.array_equal(held, v): c.violation(f'python:input-modified:{how}')
    # every order of lengths, refused ones too: no call leaves anything behind
    sizes = (1, 2, 8, 16, 128, 3, 0)
    for seq in itertools.product(sizes, repeat=c.pick(3, 5)):
        c.states += 1; c.traces += 1
        for k, n in enumerate(seq):
            x = (numpy.arange(n)*(k+3) % 7)-3.0
            c.transitions += 1
            try: out = m.rfft(x.astype('f4'))
            except Exception: out = None
            if (out is None) != (n in (0, 3)) or (out is not None and not numpy.abs(out-dft(x)).max() < 3e-6*(2+numpy.log2(n))*(numpy.abs(x).sum()+1)): c.violation(f'python:history:{seq[:k+1]}', got=None if out is None else out[:8])
    c.sample(length=8, input='basis vector 3 in the imaginary part')
    c.bound(basis_lengths=c.pick(2048, 8192), lengths=c.pick(131072, 1048576), mismatch_lengths=c.pick(300, 1100), python_lengths=lengths[-1])
