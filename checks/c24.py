"""C24 IIR: every short signal through every cascade over a coefficient grid, exactly; every interleaving of filters; every size description; designs through the Python module."""
import itertools
import numpy
from mc import big, cbuild, drive, ext

EXACT = r'''
#include <eml_iir.h>
/* the recursion y[n] = b0 x[n] + b1 x[n-1] + b2 x[n-2] - a1 y[n-1] - a2 y[n-2] of each stage, in double: exact on these grids */
typedef struct { double x1, x2, y1, y2; } Ref;
static double ref(Ref *r, int stages, const double (*k)[6], double x) {
    for (int s=0; s<stages; s++) {
        double y = k[s][0]*x + k[s][1]*r[s].x1 + k[s][2]*r[s].x2 - k[s][4]*r[s].y1 - k[s][5]*r[s].y2;
        r[s].x2 = r[s].x1; r[s].x1 = x; r[s].y2 = r[s].y1; r[s].y1 = y; x = y;
    }
    return x;
}
#define MAXS 24
typedef struct { EmlIIR f; double k[MAXS][6]; float *coef; Ref r[MAXS]; } Filter;
static void make(Filter *o, int stages, const double (*k)[6]) {
    memset(o, 0, sizeof *o); memcpy(o->k, k, sizeof(double)*6*stages);
    o->coef = mc_buf(sizeof(float)*6*stages); for (int i=0; i<stages*6; i++) o->coef[i] = (float)k[i/6][i%6];
    o->f.n_stages = stages; o->f.coefficients = o->coef; o->f.coefficients_length = 6*stages;
    o->f.states = mc_buf(sizeof(float)*4*stages); for (int i=0; i<4*stages; i++) o->f.states[i] = 0; o->f.states_length = 4*stages;
    if (eml_iir_check(o->f) != EmlOk) mc_fail("check:refused", "%d stages", stages);
}
static void reset(Filter *o) { memset(o->r, 0, sizeof(Ref)*o->f.n_stages); for (int i=0; i<o->f.states_length; i++) o->f.states[i] = 0; }
static void drop(Filter *o) {
    for (int i=0; i<o->f.n_stages*6; i++) if (o->coef[i] != (float)o->k[i/6][i%6]) { mc_fail("coefficients-changed", "%d", i); break; }
    free(o->coef); free(o->f.states);
}
static int step(Filter *o, double x, const char *what, int at) {
    EmlIIR copy = o->f;     /* a caller may hold the description anywhere: only the states matter */
    float got = eml_iir_filter(copy, (float)x); double want = ref(o->r, o->f.n_stages, o->k, x);
    mc_transitions++;
    if ((double)got != want) {
        char t[300] = ""; for (int i=0; i<o->f.n_stages*6 && i<18; i++) sprintf(t+strlen(t), "%g ", o->k[i/6][i%6]);
        mc_fail("output", "%s %d stages (%s) sample %d: %.9g expected %.9g", what, o->f.n_stages, t, at, got, want); return 0;
    }
    return 1;
}
static const double B[] = { 0, 1, -1, 0.5 }, A[] = { 0, 0.5, -0.5, 1 }, X[] = { 0, 1, -1, 2 };
static void stage(double *k, int w) { k[0] = B[w%4]; k[1] = B[w/4%4]; k[2] = B[w/16%4]; k[3] = 1; k[4] = A[w/64%4]; k[5] = A[w/256%4]; }
/* a filter is linear: an input scaled by a power of two gives exactly the scaled output */
static void scaled(int stages, const double (*k)[6], int signals) {
    static const int E[] = { -110, -90, -60, -30, 30, 60, 100 };
    Filter o; make(&o, stages, k);
    for (int e=0; e<7; e++) for (int v=0; v<signals; v++) {
        reset(&o); mc_states++; mc_traces++;
        for (int i=0; i<24; i++) { double x = v == 0 ? i == 0 : v == 1 ? 1 : v == 2 ? X[i%4] : i % 3 == 1 ? -2 : 0; if (!step(&o, ldexp(x, E[e]), "scaled", i)) { drop(&o); return; } }
    }
    drop(&o);
}
static void signals(Filter *o, int n, const char *what) {
    /* depth-first over all signals: every prefix is a state */
    int total = 1; for (int i=0; i<n; i++) total *= 4;
    for (int w=0; w<total; w++) {
        reset(o); int x = w; mc_traces++; mc_states++;
        for (int i=0; i<n; i++) { if (!step(o, X[x%4], what, i)) return; x /= 4; }
    }
}
int main(int argc, char **argv) {
    int part = atoi(argv[1]), parts = atoi(argv[2]), thorough = atoi(argv[3]); long q = 0;
    Filter o; double k[MAXS][6];
    for (int w=0; w<1024; w++) { if (q++ % parts != part) continue; stage(k[0], w); make(&o, 1, k); signals(&o, thorough ? 8 : 6, "one stage"); drop(&o); }
    static const int W[] = { 1, 4, 16, 65, 257, 1+4*2+16*3, 1+64*1, 2+256*2, 1+4+64*2+256*1, 3+16*1+64*1, 3+4*3+16*3+64*1+256*2, 5+64*3 };
    for (int i=0; i<12; i++) for (int j=0; j<12; j++) {
        if (q++ % parts != part) continue;
        stage(k[0], W[i]); stage(k[1], W[j]); make(&o, 2, k); signals(&o, 4, "two stages"); drop(&o);
        for (int l=0; l<12; l++) { stage(k[2], W[l]); make(&o, 3, k); signals(&o, thorough ? 5 : 4, "three stages"); drop(&o); }
    }
    for (int i=0; i<192; i++) if (q++ % parts == part) { stage(k[0], i); scaled(1, k, k[0][4] == 0 ? 4 : 1); }     /* impulses only where there is feedback: the decay stays exact */
    for (int i=0; i<12; i++) for (int j=0; j<12; j++) if (q++ % parts == part) { stage(k[0], W[i]); stage(k[1], W[j]); for (int s=0; s<2; s++) k[s][4] = k[s][5] = 0; scaled(2, k, 4); }
    /* cascades of any length: stages that delay, each distinguishable */
    for (int n=1; n<=MAXS; n++) for (int v=0; v<4; v++) {
        if (q++ % parts != part) continue;
        for (int s=0; s<n; s++) { memset(k[s], 0, sizeof k[s]); k[s][3] = 1; k[s][v == 0 ? 0 : v == 1 ? 1 : v == 2 ? 2 : s % 3] = s % 2 ? 1 : -1; if (v == 3 && s == n-1) k[s][4] = -1; }
        make(&o, n, k); mc_states++; mc_traces++;
        for (int i=0; i<80; i++) if (!step(&o, i == 0 ? 1 : i % 7 == 3 ? -2 : 0, "cascade", i)) break;
        drop(&o);
    }
    /* two filters (and a third of the same design) running alongside: every interleaving of their steps */
    for (int i=0; i<12; i++) for (int j=0; j<12; j++) {
        if (q++ % parts != part) continue;
        Filter f[3];
        stage(k[0], W[i]); stage(k[1], W[j]); make(&f[0], 2, k);
        stage(k[0], W[j]); make(&f[1], 1, k); make(&f[2], 1, k);
        int n = thorough ? 9 : 7, total = 1; for (int s=0; s<n; s++) total *= 3;
        for (int w=0; w<total; w++) {
            for (int s=0; s<3; s++) reset(&f[s]);
            int x = w; mc_traces++; mc_states++;
            for (int s=0; s<n; s++) { if (!step(&f[x%3], X[(s*3+x)%4], "interleaved", s)) break; x /= 3; }
        }
        for (int s=0; s<3; s++) drop(&f[s]);
    }
    /* long streams: integer coefficients, values stay small */
    if (part == 0) for (int v=0; v<6; v++) {
        memset(k, 0, sizeof k); k[0][3] = k[1][3] = 1;
        if (v == 0) { k[0][0] = 1; k[0][4] = 1; }                /* y = x - y1 */
        if (v == 1) { k[0][0] = 1; k[0][5] = 1; }                /* period 4 */
        if (v == 2) { k[0][0] = 1; k[0][4] = 1; k[0][5] = 1; }   /* period 3 */
        if (v == 3) { k[0][0] = 1; k[0][4] = -1; k[0][5] = 1; }  /* period 6 */
        if (v == 4) { k[0][0] = 0.5; k[0][1] = 0.5; k[0][2] = 1; }
        if (v == 5) { k[0][0] = 1; k[0][5] = -1; }
        k[1][0] = 1; k[1][2] = -1;
        make(&o, 2, k); mc_states++; mc_traces++;
        for (int i=0; i<70000; i++) if (!step(&o, i == 0 ? 1 : i % 12 == 0 ? 1 : i % 12 == 6 ? -1 : 0, "long", i)) break;
        drop(&o);
    }
    return mc_end();
}
'''

LATTICE = r'''
#include <eml_iir.h>
int main(void) {
    static float st[400], co[400];
    static const int S[] = { INT32_MIN, -7, -1, 0, 1, 2, 3, 4, 5, 8, 16, 24, 32767, 65536, 0x20000000, 0x40000000, 0x2aaaaaab, INT32_MAX };
    for (int i=0; i<18; i++) for (int a=-13; a<=13; a++) for (int b=-13; b<=13; b++) for (int nul=0; nul<4; nul++) for (int base=0; base<2; base++) {
        int n = S[i]; long long sl = (base ? (long long)n*4 : 0)+a, cl = (base ? (long long)n*6 : 0)+b;
        for (int wrap=0; wrap<2; wrap++) {
            if (!wrap && (sl != (int)sl || cl != (int)cl)) continue;
            EmlIIR f; memset(&f, 0, sizeof f);
            f.n_stages = n; f.states_length = (int)sl; f.coefficients_length = (int)cl; f.states = nul & 1 ? NULL : st; f.coefficients = nul & 2 ? NULL : co;
            int ok = n >= 1 && !nul && (long long)f.states_length == (long long)n*4 && (long long)f.coefficients_length == (long long)n*6;
            mc_states++; mc_transitions++; mc_traces++;
            EmlError e = eml_iir_check(f);
            if ((e == EmlOk) != ok) mc_fail(ok ? "check:refused" : "check:accepted", "stages %d states %d coefficients %d null %d", n, f.states_length, f.coefficients_length, nul);
        }
    }
    EmlIIR zero; memset(&zero, 0, sizeof zero); mc_states++; if (eml_iir_check(zero) == EmlOk) mc_fail("check:accepted", "zeroed filter");
    return mc_end();
}
'''


def accepted(c, m, sos, data):
    c.transitions += 1
    try:
        return m.iirfilter(sos, data)
    except Exception:
        return None


def sos_layouts(base):
    f = base.astype('f4'); n = len(f)
    yield 'fortran', numpy.asfortranarray(f)
    w = numpy.full((n*2, 6), 1e6, 'f4'); w[::2] = f
    yield 'every second row', w[::2]
    w = numpy.full((n, 12), 1e6, 'f4'); w[:, ::2] = f
    yield 'every second column', w[:, ::2]
    yield 'reversed', f[::-1].copy()[::-1]
    w = numpy.full((n, 8), 1e6, 'f4'); w[:, 1:7] = f
    yield 'part of wider rows', w[:, 1:7]
    yield 'other byte order', f.astype(f.dtype.newbyteorder())
    yield 'nested lists', [[float(v) for v in r] for r in f]


def run(c):
    c.assume('denominators are normalised (a0 = 1) as scipy.signal.sosfilt requires')
    exe = drive.build(c, 'exact', EXACT)
    drive.run_many(c, exe, [(str(i), '32', c.pick('0', '1')) for i in range(32)], 'exact')
    c.count('exact', c.states)
    s = c.states
    drive.drive(c, 'lattice', LATTICE)
    c.count('descriptions', c.states-s)
    c.log('C driver')

    import scipy.signal as ss
    m = ext.load(c, 'eml_signal')
    # shapes
    sizes = range(0, 10)
    for n in range(0, 6):
        for k in sizes:
            sos = numpy.zeros((n, k), dtype='f4')
            if k == 6: sos[:, 0] = 1; sos[:, 3] = 1
            for length in (0, 1, 5):
                c.states += 1; c.traces += 1
                x = numpy.arange(1, length+1, dtype='f4')
                out = accepted(c, m, sos, x)
                if (n >= 1 and k == 6) != (out is not None):
                    c.violation('python:shape', stages=n, columns=k, samples=length, accepted=out is not None)
                elif out is not None and not numpy.array_equal(out, x):
                    c.violation('python:identity', stages=n, samples=length, got=out)
    one = numpy.array([[1, 0, 0, 1, 0, 0]], dtype='f4')
    for sos, x in [(one[0], [1, 2]), (one[None], [1, 2]), (numpy.float32(1), [1]), (one, [[1, 2]]), (one, [[1], [2]]), (one, 1.0), (one, numpy.ones((1, 2, 3))), (numpy.zeros((0, 6)), [1, 2])]:
        c.states += 1; c.traces += 1
        if accepted(c, m, numpy.asarray(sos), numpy.asarray(x, dtype='f4')) is not None:
            c.violation('python:accepted', sos=numpy.shape(sos), data=numpy.shape(x))
    # memory layouts and dtypes give the same result
    base = ss.butter(4, 0.3, output='sos')
    x = numpy.sin(numpy.arange(60)*0.7)*3
    want = ss.sosfilt(base.astype('f4').astype(float), x)
    for sname, sos in dict(f8=base, f4=base.astype('f4'), fortran=numpy.asfortranarray(base), strided=numpy.repeat(numpy.repeat(base, 2, 0), 2, 1)[::2, ::2], reversed=base[::-1][::-1].copy()[:, ::-1][:, ::-1]).items():
        for dname, d in dict(f8=x, f4=x.astype('f4'), strided=numpy.repeat(x, 3)[::3], reversed=x[::-1].copy()[::-1], column=numpy.stack([x, x], 1)[:, 1], f2=x.astype('f2'), i=(x*10).astype('i4'), i8=(x*10).astype('i8'), u1=(numpy.abs(x)*10).astype('u1'), list=list(x)).items():
            c.states += 1; c.traces += 1
            before = numpy.array(d)
            out = accepted(c, m, sos, d)
            w = ss.sosfilt(base.astype('f4').astype(float), before.astype('f4').astype(float))
            if out is None or out.shape != w.shape or numpy.abs(out-w).max() > 2e-5*numpy.abs(w).max():
                c.violation(f'python:layout:{sname}:{dname}', got=out, expected=w)
            if not numpy.array_equal(before, d):
                c.violation(f'python:input-modified:{sname}:{dname}')
    # every layout of single precision values, alone and together
    for (sname, k), (dname, d) in itertools.product([('rows', base.astype('f4'))]+list(sos_layouts(base)), ext.layouts(x)):
        c.states += 1; c.traces += 1
        held = numpy.array(d), numpy.array(k)
        out = accepted(c, m, k, d)
        if out is None or out.shape != (len(x),) or not numpy.abs(out-want).max() <= 2e-5*numpy.abs(want).max():
            c.violation(f'python:layout:{sname}:{dname}', got=out, expected=want)
        if not numpy.array_equal(held[0], d) or not numpy.array_equal(held[1], k): c.violation(f'python:input-modified:{sname}:{dname}')
    lengths = (32767, 32768, 65535, 65536, 65537, 70000, 131072, 131077, 200000)
    signals = [(numpy.arange(n)*7919 % 13-6).astype('f4') for n in lengths]
    for n, d, out in zip(lengths, signals, ext.guarded(c, 'python:long', lambda: [accepted(c, m, base, d) for d in signals])):
        c.states += 1; c.traces += 1; c.transitions += 1
        w = ss.sosfilt(base.astype('f4').astype(float), d.astype(float))
        if out is None or out.shape != w.shape or not numpy.abs(out-w).max() <= 1e-4*numpy.abs(w).max(): c.violation(f'python:long:{n}')
    # designs
    n = c.pick(400, 4000)
    t = numpy.arange(n)
    tests = dict(impulse=(t == 0)*1.0, step=numpy.ones(n), alternating=(-1.0)**t, ramp=t/n, sine=numpy.sin(0.3*t), chirp=numpy.cos(t*t*0.002)*100, tiny=1e-6*numpy.sin(t), burst=((t // 50) % 2)*1000.0, silence_after=(t < 20)*1.0)
    designs = {}
    orders = range(1, c.pick(9, 17))
    for o in orders:
        for wn in (0.05, 0.1, 0.25, 0.5, 0.9):
            for kind in ('low', 'high'):
                designs[f'butter{o}{kind}{wn}'] = ss.butter(o, wn, kind, output='sos')
                if o <= 8: designs[f'cheby1{o}{kind}{wn}'] = ss.cheby1(o, 1, wn, kind, output='sos')
                if o <= 6: designs[f'ellip{o}{kind}{wn}'] = ss.ellip(o, 1, 40, wn, kind, output='sos')
        for wn in ((0.1, 0.3), (0.2, 0.6), (0.4, 0.5)):
            if o <= 6:
                designs[f'bp{o}{wn}'] = ss.butter(o, wn, 'band', output='sos')
                designs[f'bs{o}{wn}'] = ss.butter(o, wn, 'bandstop', output='sos')
    for q in (1, 5, 30):
        b, a = ss.iirnotch(0.2, q); designs[f'notch{q}'] = ss.tf2sos(b, a)
        b, a = ss.iirpeak(0.4, q); designs[f'peak{q}'] = ss.tf2sos(b, a)
    for name, sos in designs.items():
        k = sos.astype('f4').astype(float)
        # rounding in single precision, amplified by the feedback of each stage
        gain = 1.0
        for s in range(len(k)):
            h = ss.lfilter([1], k[s, 3:], (t == 0)*1.0)
            gain = max(gain, numpy.abs(h).sum())
        for sig, d in tests.items():
            c.states += 1; c.traces += 1
            d = d.astype('f4')
            mags = [numpy.abs(d).max()]
            for s in range(len(k)):
                mags.append(numpy.abs(ss.sosfilt(k[:s+1], d.astype(float))).max())
                mags.append(numpy.abs(ss.lfilter([1], k[s, 3:], ss.sosfilt(k[:s], d.astype(float)) if s else d.astype(float))).max()*numpy.abs(k[s, :3]).sum())
            want = ss.sosfilt(k, d.astype(float))
            out = accepted(c, m, sos, d)
            tol = 6e-8*30*gain*max(mags)*len(k)+1e-30
            err = numpy.abs(out-want).max()
            if not err <= tol:
                c.violation(f'python:design:{name}:{sig}', at=int(numpy.abs(out-want).argmax()), error=err, tolerance=tol)
            c.count('loose' if tol > 0.02*numpy.abs(want).max() else 'tight')
            # a stream fed in two calls to the same module starts afresh each time
        c.count('designs')
    a = m.iirfilter(base, x); m.iirfilter(one, x[:3]); b = m.iirfilter(base, x)
    if not numpy.array_equal(a, b):
        c.violation('python:history', first=a, second=b)
    c.sample(cascade='ellip 6 lowpass 0.1', signal='step')
    big.large(c, 'iir')
    c.bound(signal_length=c.pick(6, 8), stages=24, interleaving_steps=c.pick(7, 9), designs=len(designs), samples=n)
