"""C26 mel spectra: the product of transform sizes, filter counts, sample rates and limits; every basis spectrum; every buffer length around the required one."""
import numpy
import inspect
from mc import drive, ext

REF = r'''
#include <eml_audio.h>
#include <math.h>
/* triangular filters of the Hidden Markov Toolkit, in double */
static double to_mel(double hz) { return 2595.0*log10(1.0+hz/700.0); }
static double to_hz(double mel) { return 700.0*(pow(10.0, mel/2595.0)-1.0); }
typedef struct { int n, bins; double *w, *err, *near; } Bank;
static double relu(double a, double b) { double m = a < b ? a : b; return m > 0 ? m : 0; }
static Bank bank(EmlAudioMel p) {
    Bank b = { p.n_mels, 1+p.n_fft/2, NULL, NULL, NULL };
    b.near = malloc(sizeof(double)*b.n*b.bins+8); b.w = malloc(sizeof(double)*b.n*b.bins+8); b.err = malloc(sizeof(double)*b.n+8);
    double a = to_mel(p.fmin), z = to_mel(p.fmax), st = (z-a)/(b.n+1);
    for (int m=0; m<b.n; m++) {
        double l = to_hz(a+m*st), c = to_hz(a+(m+1)*st), u = to_hz(a+(m+2)*st);
        /* single precision: frequencies are off by a few units in the last place of mel and Hz */
        double hz_err = 1e-6*(u+700); b.err[m] = 4*hz_err/((c-l) < (u-c) ? c-l : u-c)+1e-5;
        for (int k=0; k<b.bins; k++) { double f = k*(double)p.samplerate/p.n_fft; b.w[m*b.bins+k] = relu((f-l)/(c-l), (u-f)/(u-c)); b.near[m*b.bins+k] = f > l-4*hz_err && f < u+4*hz_err; }
    }
    return b;
}
static void unbank(Bank b) { free(b.w); free(b.err); free(b.near); }
static const char *show(EmlAudioMel p) { static char t[120]; snprintf(t, 120, "n_fft %d mels %d rate %d from %g to %g", p.n_fft, p.n_mels, p.samplerate, p.fmin, p.fmax); return t; }
/* -1: has to be refused, 1: has to work, 0: either (right at the edge of the spectrum) */
static int expect(EmlAudioMel p) {
    if (!(p.samplerate > 0) || !(p.fmin >= 0) || !(p.fmin < p.fmax)) return -1;
    double step = (double)p.samplerate/p.n_fft;
    if (p.fmax > p.samplerate/2.0 + step) return -1;
    if (p.fmax <= p.samplerate/2.0) return 1;
    return 0;
}
static EmlVector vec(int n) { EmlVector v = { mc_buf(sizeof(float)*(n > 0 ? n : 0)), n }; return v; }
'''

PARAMS = r'''
static const int RATES[] = { 8000, 16000, 44100, 7, 1000, 192000, 1, 11025, 13 };
static const double LOW[] = { 0, 20, 300, 0.01, -1 }, HIGH[] = { 1.0, 0.5, 0.9, 0.1, 1.02, 1.5, 2.0, 3.0, 0.999, 1.0001 };
static EmlAudioMel params(int n_fft, int n_mels, int r, int l, int h) { EmlAudioMel p = { n_mels, (float)(LOW[l] < 1 && LOW[l] > 0 ? LOW[l]*RATES[r] : LOW[l]), (float)(HIGH[h]*RATES[r]/2), n_fft, RATES[r] }; return p; }
'''

FILTER = REF + PARAMS + r'''
static long tight, loose;
static void filterbank(EmlAudioMel p) {
    int want = expect(p), bins = 1+p.n_fft/2;
    EmlVector spec = vec(bins), mels = vec(p.n_mels);
    for (int k=0; k<bins; k++) spec.data[k] = 1;
    EmlError e = eml_audio_melspec(p, spec, mels); mc_states++; mc_transitions++;
    if (e != EmlOk && want == 1) mc_fail("melspec:refused", "%s: error %d", show(p), e);
    if (e == EmlOk && want == -1) mc_fail("melspec:accepted", "%s", show(p));
    if (e == EmlOk && want >= 0) {
        Bank b = bank(p);
        int step = bins*p.n_mels > 6000 ? bins/40+1 : 1;
        for (int j=-1; j<bins; j += j < 2 || j > bins-4 ? 1 : step) for (int v=0; v<(j < 0 ? 2 : 1); v++) {
            for (int k=0; k<bins; k++) spec.data[k] = j < 0 ? (v ? 1+k%5*0.25f : 1) : k == j ? 4 : 0;
            for (int m=0; m<p.n_mels; m++) mels.data[m] = NAN;
            e = eml_audio_melspec(p, spec, mels); mc_transitions++; mc_traces++;
            if (e != EmlOk) { mc_fail("melspec:refused", "%s", show(p)); break; }
            for (int m=0; m<p.n_mels; m++) {
                double x = 0, tol = 0; for (int k=0; k<bins; k++) { double s = j < 0 ? (v ? 1+k%5*0.25 : 1) : k == j ? 4 : 0; x += s*b.w[m*bins+k]; tol += s*b.err[m]*b.near[m*bins+k]; }
                if (b.err[m] > 0.05) loose++; else tight++;
                if (!(fabs(mels.data[m]-x) <= tol+1e-6*fabs(x))) { mc_fail("melspec:value", "%s: filter %d with %s %d is %.8g expected %.8g", show(p), m, j < 0 ? "flat spectrum" : "bin", j, mels.data[m], x); j = bins; break; }
            }
        }
        unbank(b);
    }
    free(spec.data); free(mels.data);
}
/* wrong buffer lengths and unusual sizes: refused or without effect outside */
static void buffers(EmlAudioMel p) {
    int bins = 1+p.n_fft/2;
    for (int a=-2; a<=2; a++) for (int b=-2; b<=2; b++) {
        if (bins+a < 0 || p.n_mels+b < 0) continue;
        EmlVector spec = vec(bins+a), mels = vec(p.n_mels+b); for (int k=0; k<bins+a; k++) spec.data[k] = 1;
        EmlError e = eml_audio_melspec(p, spec, mels); mc_states++; mc_transitions++; mc_traces++;
        if (e == EmlOk && (a < 0 || b != 0)) mc_fail("melspec:buffers", "%s: spectrum %+d output %+d", show(p), a, b);
        if (e != EmlOk && a >= 0 && b == 0 && expect(p) == 1 && p.n_fft >= 2) mc_fail("melspec:refused", "%s: spectrum %+d", show(p), a);
        free(spec.data); free(mels.data);
    }
}
int main(int argc, char **argv) {
    int part = atoi(argv[1]), parts = atoi(argv[2]), thorough = atoi(argv[3]), q = 0;
    static const int F[] = { 2, 4, 8, 16, 64, 256, 512, 6, 10, 30, 100, 1024, 128, 32, 2048, 400 }, M[] = { 1, 2, 3, 8, 20, 32, 5, 64, 13, 40, 128 };
    for (int f=0; f<(thorough ? 16 : 12); f++) for (int m=0; m<(thorough ? 11 : 7); m++) for (int r=0; r<(thorough ? 9 : 5); r++) for (int l=0; l<5; l++) for (int h=0; h<10; h++) {
        if (q++ % parts != part) continue;
        EmlAudioMel p = params(F[f], M[m], r, l, h);
        filterbank(p); if (F[f] <= 16 && M[m] <= 8) buffers(p);
    }
    /* transforms longer than narrow integers count */
    static const int LONG[] = { 4096, 32768, 65536, 131072, 100000 };
    for (int f=0; f<5; f++) for (int m=0; m<6; m++) for (int h=0; h<10; h++) { if (q++ % parts != part || (!thorough && (m > 2 || h > 2))) continue; filterbank(params(LONG[f], M[m], (f+m) % 5, h % 3, h)); }
    static const int FINE[] = { 1024, 2048, 4096 }, MANY[] = { 64, 80, 128, 200 };
    for (int f=0; f<3; f++) for (int m=0; m<4; m++) for (int r=0; r<(thorough ? 5 : 3); r++) for (int l=0; l<(thorough ? 5 : 2); l++) for (int h=0; h<(thorough ? 10 : 3); h++) { if (q++ % parts != part) continue; filterbank(params(FINE[f], MANY[m], r, l, h)); }
    static const double odd[] = { NAN, INFINITY, -INFINITY, -1, 0, 1e-30, 100, 4000, 4001, 8000, 8001, 1e30 };
    if (part == 0) {
        for (int i=0; i<12; i++) for (int j=0; j<12; j++) for (int n=-5; n<=9; n++) for (int r=-1; r<=1; r++) for (int m=-1; m<=3; m++) {
            EmlAudioMel p = { m, (float)odd[i], (float)odd[j], n, r*8000 }; int bins = 1+n/2; if (bins < 0) bins = 0;
            EmlVector spec = vec(bins), mels = vec(m); for (int k=0; k<bins; k++) spec.data[k] = 1;
            EmlError e = eml_audio_melspec(p, spec, mels); mc_states++; mc_transitions++; mc_traces++;
            if (e == EmlOk && expect(p) == -1 && n >= 2 && m >= 1) mc_fail("melspec:accepted", "%s", show(p));
            free(spec.data); free(mels.data);
        }
        /* pieces that users call on their own */
        for (int n=0; n<40; n++) {
            EmlVector a = vec(n); for (int i=0; i<n; i++) a.data[i] = 2; mc_states++; mc_transitions += 3; mc_traces++;
            if (n > 1) { eml_signal_hann_apply(a.data, n); for (int i=0; i<n; i++) if (!(fabs(a.data[i]-(1-cos(2*M_PI*i/(n-1)))) < 1e-6)) mc_fail("hann", "length %d at %d: %g", n, i, a.data[i]); }
            eml_vector_set_value(a, -3); for (int i=0; i<n; i++) if (a.data[i] != -3) mc_fail("set_value", "length %d", n);
            for (int i=0; i<n; i++) a.data[i] = i*i; double mean = 0; for (int i=0; i<n; i++) mean += (double)i*i/n; if (n && !(fabs(eml_signal_mean(a.data, n)-mean) < 1e-4*(1+mean))) mc_fail("mean", "length %d", n);
            for (int s=0; s<=n+2; s++) for (int at=-3; at<=n+3; at++) {
                EmlVector b = vec(s); for (int i=0; i<s; i++) b.data[i] = 100+i; for (int i=0; i<n; i++) a.data[i] = i;
                int e = eml_vector_set(a, b, at); int ok = at >= 0 && at+s <= n; mc_transitions++;
                if ((e == 0) != ok) mc_fail("vector_set", "%d into %d at %d: %d", s, n, at, e);
                for (int i=0; i<n; i++) if (a.data[i] != (ok && i >= at && i < at+s ? 100+i-at : i)) { mc_fail("vector_set:content", "%d into %d at %d", s, n, at); break; }
                free(b.data);
            }
            for (int s=0; s<=n; s++) for (int e=s; e<=n; e++) { EmlVector v = eml_vector_view(a, s, e); if (v.data != a.data+s || v.length != e-s) mc_fail("view", "%d %d", s, e); }
            free(a.data);
        }
        /* frequencies and mels, there and back */
        for (int i=0; i<=4000; i++) {
            float hz = i < 2000 ? i*0.5f : i < 3000 ? (i-2000)*50.0f : ldexpf(1, (i-3000) % 30 - 12); mc_states++; mc_transitions += 2;
            float m = eml_audio_mels_from_hz(hz), back = eml_audio_mels_to_hz(m);
            if (!(fabs(m-to_mel(hz)) <= 1e-6*(m+1))) mc_fail("hz-to-mel", "%g gives %g expected %g", hz, m, to_mel(hz));
            if (!(fabs(back-hz) <= 5e-6*(hz+700))) mc_fail("mel-to-hz", "%g gives %g gives %g", hz, m, back);
            if (!(fabs(eml_audio_mels_to_hz(i*1.5f)-to_hz(i*1.5)) <= 5e-6*(to_hz(i*1.5)+700))) mc_fail("mel-to-hz", "%g gives %g", i*1.5, eml_audio_mels_to_hz(i*1.5f));
        }
        static const int NF[] = { 2, 4, 16, 512, 1024, 400, 32768, 65536, 131072 };
        for (int f=0; f<9; f++) for (int r=0; r<9; r++) for (int h=0; h<10; h++) for (int m=1; m<=40; m += m < 5 ? 1 : 7) {
            EmlAudioMel p = params(NF[f], m, r, h % 3, h); if (!(p.fmin < p.fmax)) continue; double lo = to_mel(p.fmin), hi = to_mel(p.fmax), last = -1;
            for (int i=0; i<=m+1; i++) { float x = eml_audio_mel_center(p, i); double w = to_hz(lo+i*(hi-lo)/(m+1)); mc_transitions++; if (!(fabs(x-w) <= 1e-5*(w+700)) || !(x >= last)) mc_fail("mel-center", "%s: %d is %g expected %g", show(p), i, x, w); last = x; }
            for (int i=0; i<=p.n_fft/2; i += p.n_fft < 100 ? 1 : p.n_fft/37) { double w = (double)i*p.samplerate/p.n_fft; mc_transitions++; if (!(fabs(eml_fft_freq(p, i)-w) <= 1e-6*w)) mc_fail("bin-frequency", "%s: %d is %g expected %g", show(p), i, eml_fft_freq(p, i), w); }
            mc_states++; mc_traces++;
        }
        for (int n=1<<14; n<=1<<18; n*=2) { int bins = 1+n/2; EmlVector a = vec(bins), b = vec(bins); for (int i=0; i<bins; i++) a.data[i] = (float)(i%200-100); mc_states++; mc_transitions++; EmlError e = eml_audio_power_spectrogram(a, b, n); if (e != EmlOk) mc_fail("power:sizes", "n_fft %d: %d", n, e); else for (int i=0; i<bins; i++) { double x = i%200-100; if (!(fabs(b.data[i]-x*x/n) <= 1e-6*x*x)) { mc_fail("power:value", "n_fft %d at %d", n, i); break; } } free(a.data); free(b.data); }
        for (int n=0; n<=70; n+=2) for (int d=-3; d<=3; d++) for (int o=-3; o<=3; o++) {
            int bins = 1+n/2; if (bins+d < 0 || bins+o < 0) continue; EmlVector a = vec(bins+d), b = vec(bins+o); for (int i=0; i<bins+d; i++) a.data[i] = (i%3-1)*(i+1)*0.5f;
            mc_states++; mc_transitions++; mc_traces++;
            EmlError e = eml_audio_power_spectrogram(a, b, n);
            if ((e == EmlOk) != (d >= 0 && o == 0)) mc_fail("power:sizes", "n_fft %d spectrum %+d output %+d error %d", n, d, o, e);
            if (e == EmlOk && n) for (int i=0; i<bins; i++) { double x = (i%3-1)*(i+1)*0.5; if (!(fabs(b.data[i]-x*x/n) <= 1e-6*x*x)) { mc_fail("power:value", "n_fft %d at %d", n, i); break; } }
            free(a.data); free(b.data);
        }
    }
    mc_dist("filters-tight", tight); mc_dist("filters-loose", loose);
    return mc_end();
}
'''

PIPELINE = REF + PARAMS + r'''
static EmlFFT table(int n) { EmlFFT t = { n, mc_buf(sizeof(float)*(n > 0 ? n : 0)), mc_buf(sizeof(float)*(n > 0 ? n : 0)) }; if (n >= 0) eml_fft_fill(t, 2*n); return t; }
static void drop(EmlFFT t) { free(t.sin); free(t.cos); }
static double value(int kind, int i, int n) {
    switch (kind) { case 0: return 1; case 1: return i % 2 ? -1 : 1; case 2: return sin(2*M_PI*i*3.3/n)*2; case 3: return 100*cos(i*i*0.05); case 4: return (i*7919 % 13)/13.0-0.5; case 5: return i*1e-4; }
    return i == kind-6;
}
static void pipeline(EmlAudioMel p, int kinds, int jstep) {
    int n = p.n_fft, bins = 1+n/2, want = expect(p);
    EmlFFT t = table(n/2); Bank b = bank(p);
    double *P = malloc(sizeof(double)*bins), *x = malloc(sizeof(double)*n);
    for (int kind=0; kind<6+n; kind += kind < 6 ? 1 : jstep) {
        if (kind < 6 && kind >= kinds) continue;
        EmlVector io = vec(n), tmp = vec(n); for (int i=0; i<n; i++) io.data[i] = value(kind, i, n);
        EmlError e = eml_audio_melspectrogram(p, t, io, tmp); mc_states++; mc_transitions++; mc_traces++;
        if (want == 1 && e != EmlOk) { mc_fail("melspectrogram:refused", "%s: %d", show(p), e); kind = 6+n; }
        if (want == -1 && e == EmlOk) { mc_fail("melspectrogram:accepted", "%s", show(p)); kind = 6+n; }
        if (e == EmlOk && want >= 0) {
            double total = 0;
            for (int i=0; i<n; i++) x[i] = value(kind, i, n)*0.5*(1-cos(2*M_PI*i/(n-1)));
            for (int k=0; k<bins; k++) { double re = 0, im = 0; for (int i=0; i<n; i++) { double a = 2*M_PI*(i*(long)k % n)/n; re += x[i]*cos(a); im -= x[i]*sin(a); } P[k] = (re*re+im*im)/n; total += P[k]; }
            for (int m=0; m<p.n_mels; m++) {
                double y = 0, s = 0; for (int k=0; k<bins; k++) { y += P[k]*b.w[m*bins+k]; s += P[k]*b.near[m*bins+k]; }
                double tol = s*b.err[m]+1e-5*sqrt(total*s)*n/8+1e-10*total+1e-20;
                if (!(fabs(io.data[m]-y) <= tol+2e-5*y)) { mc_fail("melspectrogram:value", "%s input %d: filter %d is %.8g expected %.8g", show(p), kind, m, io.data[m], y); kind = 6+n; break; }
            }
        }
        free(io.data); free(tmp.data);
    }
    free(P); free(x); unbank(b); drop(t);
}
int main(int argc, char **argv) {
    int part = atoi(argv[1]), parts = atoi(argv[2]), thorough = atoi(argv[3]), q = 0;
    static const int F[] = { 2, 4, 8, 16, 32, 64, 256, 512, 1024 }, M[] = { 1, 2, 5, 8, 20, 32, 64 };
    for (int f=0; f<(thorough ? 9 : 8); f++) for (int m=0; m<(thorough ? 7 : 6); m++) for (int r=0; r<4; r++) for (int l=0; l<5; l++) for (int h=0; h<10; h++) {
        if (M[m] > F[f]) continue;
        if (q++ % parts != part) continue;
        if (F[f] > 64 && !thorough && (r > 1 || l > 2 || h > 5)) continue;
        pipeline(params(F[f], M[m], r, l, h), 6, F[f] <= 16 ? 1 : F[f] <= 64 ? 5 : F[f]/3+1);
    }
    /* long transforms: one value in an otherwise silent block has a flat spectrum */
    static const int LONG[] = { 4096, 32768, 65536, 131072 };
    for (int f=0; f<4; f++) for (int m=0; m<3; m++) for (int at=0; at<4; at++) {
        if (q++ % parts != part) continue;
        EmlAudioMel p = { 3+m*9, m*30.0f, 8000, LONG[f], 16000 }; int n = LONG[f], bins = 1+n/2, i = at == 0 ? n/2 : at == 1 ? n/3 : at == 2 ? n-n/5 : 32767*(n/32768)+5; if (i >= n) i = n-2;
        EmlFFT t = table(n/2); Bank b = bank(p); EmlVector io = vec(n), tmp = vec(n); for (int k=0; k<n; k++) io.data[k] = k == i ? 8 : 0;
        EmlError e = eml_audio_melspectrogram(p, t, io, tmp); mc_states++; mc_transitions++; mc_traces++;
        if (e != EmlOk) mc_fail("melspectrogram:refused", "%s: %d", show(p), e);
        else for (int j=0; j<p.n_mels; j++) {
            double w = 8*0.5*(1-cos(2*M_PI*i/(n-1))), y = 0, s = 0; for (int k=0; k<bins; k++) { y += w*w/n*b.w[j*bins+k]; s += w*w/n*b.near[j*bins+k]; }
            if (!(fabs(io.data[j]-y) <= s*b.err[j]+1e-4*s)) { mc_fail("melspectrogram:long", "%s impulse at %d: filter %d is %.8g expected %.8g", show(p), i, j, io.data[j], y); break; }
        }
        free(io.data); free(tmp.data); unbank(b); drop(t);
    }
    /* every buffer length and table around the required ones, lengths that are not powers of two */
    for (int n=1; n<=20; n++) for (int a=-2; a<=2; a++) for (int t=-2; t<=2; t++) for (int d=-2; d<=2; d++) for (int m=0; m<=24; m += m < 4 ? 1 : 5) {
        if (q++ % parts != part || n+a < 0 || n+t < 0) continue;
        EmlAudioMel p = { m, 0, 4000, n, 8000 }; EmlFFT fft = table(n/2+d); if (n/2+d < 0) fft.length = -1;
        EmlVector io = vec(n+a), tmp = vec(n+t); for (int i=0; i<n+a; i++) io.data[i] = 1;
        int pow2 = !(n & (n-1)), ok = pow2 && a == 0 && t >= 0 && d == 0 && m <= n;
        EmlError e = eml_audio_melspectrogram(p, fft, io, tmp); mc_states++; mc_transitions++; mc_traces++;
        if (e == EmlOk && !ok) mc_fail("melspectrogram:buffers", "n_fft %d input %d temporary %d table %d mels %d", n, n+a, n+t, n/2+d, m);
        if (e != EmlOk && ok && n >= 2) mc_fail("melspectrogram:refused", "n_fft %d temporary %d mels %d: error %d", n, n+t, m, e);
        free(io.data); free(tmp.data); drop(fft);
    }
    return mc_end();
}
'''

PYTHON = r'''
import numpy, eml_audio
n = t = 0
def htk(sr, n_fft, n_mels, fmin, fmax):
    mel = lambda f: 2595*numpy.log10(1+f/700); hz = lambda m: 700*(10**(m/2595)-1)
    e = hz(numpy.linspace(mel(fmin), mel(fmax), n_mels+2)); f = numpy.arange(1+n_fft//2)*sr/n_fft
    return numpy.array([numpy.maximum(0, numpy.minimum((f-e[i])/(e[i+1]-e[i]), (e[i+2]-f)/(e[i+2]-e[i+1]))) for i in range(n_mels)])
def call(fn, *a):
    global t
    t += 1
    try: return fn(*a)
    except Exception as e: return None
for sr in (8000, 16000, 44100):
  for n_fft in (2, 4, 16, 64, 100, 512, 1024):
    for n_mels in (1, 3, 8, 32):
      for fmin in (0, 50, 300):
        for fmax in (0.5, 0.3, 0.1, 0.7, 1.5):
          n += 1
          top = fmax*sr
          bins = 1+n_fft//2
          if fmin >= top: continue
          W = htk(sr, n_fft, n_mels, fmin, top)
          for off in (-1, 0, 1):
            x = (numpy.arange(bins+off) % 5).astype('f4') if bins+off >= 0 else None
            out = call(eml_audio.melfilter, x, sr, n_fft, n_mels, fmin, top)
            ok = off == 0 and fmax <= 0.5
            if (out is not None) != ok: print(f'F python:melfilter|sr {sr} n_fft {n_fft} mels {n_mels} {fmin}..{top} length {bins+off}: accepted={out is not None}')
            elif ok and (out.shape != (n_mels,) or abs(out-W@x).max() > 2e-3*(abs(W)@abs(x)).max()+2e-3): print(f'F python:melfilter:value|sr {sr} n_fft {n_fft} mels {n_mels} {fmin}..{top}: {out} {W@x}')
          for off in (-1, 0, 1):
            x = numpy.sin(numpy.arange(n_fft+off)*0.9).astype('f4')
            y = x.copy()
            out = call(eml_audio.melspectrogram, x, sr, n_fft, n_mels, fmin, top)
            ok = off == 0 and fmax <= 0.5 and n_fft & (n_fft-1) == 0 and n_mels <= n_fft
            if (out is not None) != ok: print(f'F python:melspectrogram|sr {sr} n_fft {n_fft} mels {n_mels} {fmin}..{top} length {n_fft+off}: accepted={out is not None}')
            elif ok:
                P = abs(numpy.fft.rfft(x*0.5*(1-numpy.cos(2*numpy.pi*numpy.arange(n_fft)/(n_fft-1)))))**2/n_fft
                if out.shape != (n_mels,) or not abs(out-W@P).max() <= 2e-3*P.max()+1e-5: print(f'F python:melspectrogram:value|sr {sr} n_fft {n_fft} mels {n_mels} {fmin}..{top}: {out} {W@P}')
            if not numpy.array_equal(x, y): print(f'F python:input-modified|n_fft {n_fft}')
# limits that are no whole numbers
for sr in (100, 250, 1000):
  for n_fft in (64, 512):
    for n_mels in (1, 4, 8):
      for fmin in (0.5, 0.9, 1.25, 7.9):
        for fmax in (0.5*sr, 41.7, 33.3):
          n += 1
          W = htk(sr, n_fft, n_mels, fmin, fmax); x = (1+numpy.arange(1+n_fft//2) % 5).astype('f4')
          out = call(eml_audio.melfilter, x, sr, n_fft, n_mels, fmin, fmax)
          if out is None or not (abs(out-W@x) <= 5e-3*(W@x)+2e-3).all(): print(f'F python:melfilter:fraction|sr {sr} n_fft {n_fft} mels {n_mels} {fmin}..{fmax}: {out} {W@x}')
          y = numpy.sin(numpy.arange(n_fft)*0.9).astype('f4')+1; P = abs(numpy.fft.rfft(y*0.5*(1-numpy.cos(2*numpy.pi*numpy.arange(n_fft)/(n_fft-1)))))**2/n_fft
          out = call(eml_audio.melspectrogram, y, sr, n_fft, n_mels, fmin, fmax)
          if out is None or not (abs(out-W@P) <= 5e-3*(W@P)+2e-4*P.max()).all(): print(f'F python:melspectrogram:fraction|sr {sr} n_fft {n_fft} mels {n_mels} {fmin}..{fmax}: {out} {W@P}')
# every layout of the values, every order of calls
spec = (numpy.arange(33)*7919 % 13).astype('f4'); wave = numpy.sin(numpy.arange(64)*0.9).astype('f4')
first = [call(fn, v, 8000, 64, 6, 100, 3900) for fn, v in ((eml_audio.melfilter, spec), (eml_audio.melspectrogram, wave))]
for k, (fn, v) in enumerate(((eml_audio.melfilter, spec), (eml_audio.melspectrogram, wave))):
    for how, a in layouts(v):
        if 'unaligned' in how: continue
        n += 1
        held = numpy.array(a); out = call(fn, a, 8000, 64, 6, 100, 3900)
        if out is None or not numpy.array_equal(out, first[k]): print(f'F python:layout|{k} {how}: {out} {first[k]}')
        if not numpy.array_equal(held, a): print(f'F python:input-modified|{how}')
calls = [(eml_audio.melfilter, spec, 8000, 64, 6, 100, 3900), (eml_audio.melspectrogram, wave, 8000, 64, 6, 100, 3900), (eml_audio.melfilter, spec[:9], 8000, 16, 3, 0, 4000), (eml_audio.melspectrogram, wave[:16], 8000, 16, 3, 0, 4000), (eml_audio.melspectrogram, wave[:32], 16000, 32, 5, 50, 4000), (eml_audio.melspectrogram, wave, 8000, 64, 6, 3900, 100), (eml_audio.rfft, wave[:16])]
alone = [call(*a) for a in calls]
for seq in itertools.product(range(len(calls)), repeat=4):
    n += 1
    for k in seq:
        out = call(*calls[k])
        if (out is None) != (alone[k] is None) or (out is not None and not numpy.array_equal(out, alone[k])): print(f'F python:history|{seq} call {k}: {out} {alone[k]}')
for n_fft in (-4, -2, -1, 0, 1, 2, 3):
    for n_mels in (-2, -1, 0, 1, 2, 5):
        for sr in (-8000, 0, 8000):
            for length in range(0, 5):
                n += 1
                x = numpy.ones(length, 'f4')
                for fn in (eml_audio.melfilter, eml_audio.melspectrogram): call(fn, x, sr, n_fft, n_mels, 0, 4000)
for bad in (numpy.ones((3, 3)), numpy.float32(1), numpy.ones((1, 3)), numpy.ones((3, 1))):
    n += 1
    if call(eml_audio.melfilter, bad, 8000, 4, 2, 0, 4000) is not None or call(eml_audio.melspectrogram, bad, 8000, 4, 2, 0, 4000) is not None: print(f'F python:accepted|shape {bad.shape}')
print('N', n, t, t)
'''


def run(c):
    c.assume('even transform lengths', 'filters right at the edge of the spectrum may be computed or refused', 'single precision: weights of filters narrower than about 1e-5 of their frequency are not judged')
    exe = drive.build(c, 'filter', FILTER)
    drive.run_many(c, exe, [(str(i), '64', c.pick('0', '1')) for i in range(64)], 'filter')
    c.count('filterbanks', c.states); s = c.states
    c.log('filter')
    exe = drive.build(c, 'pipeline', PIPELINE)
    drive.run_many(c, exe, [(str(i), '64', c.pick('0', '1')) for i in range(64)], 'pipeline')
    c.count('pipelines', c.states-s)
    c.log('pipeline')
    ext.run_asan(c, 'eml_audio', 'import itertools\n' + inspect.getsource(ext.layouts) + PYTHON, 'python')
    c.sample(n_fft=512, n_mels=32, samplerate=16000, fmin=20, fmax=8000, input='one bin')
    c.bound(n_fft=c.pick(1024, 2048), n_mels=c.pick(32, 128), limits='5 lower x 10 upper, to 3x Nyquist', buffer_lengths='required +-2')
