"""C36 vector, window and benchmark helpers: every shape and position of copies and views, every short vector, every window length; the benchmark generator at every one of its 2^31-2 states."""
import numpy
from mc import cbuild, drive

VECTOR = r'''
#include <eml_vector.h>
#include <math.h>
#include <limits.h>
static int same(const float *a, const float *b, int n) { return n <= 0 || memcmp(a, b, sizeof(float)*n) == 0; }
static void window(int n, int k) {
        const double pi = 3.14159265358979323846;
        float *x = mc_buf(sizeof(float)*n), *y = mc_buf(sizeof(float)*n); for (int i=0; i<n; i++) x[i] = y[i] = k == 0 ? 1.0f : k == 1 ? (i % 5 - 2)*3.25f : ldexpf(i % 2 ? -1 : 1, i % 60 - 30);
        mc_states++; mc_transitions++; mc_traces++;
        EmlError e = eml_signal_hann_apply(x, n); if (e != EmlOk) mc_fail("window:status", "length %d: %d", n, e);
        for (int i=0; i<n; i++) { double w = n == 1 ? 1.0 : 0.5*(1-cos(2*pi*i/(n-1))), want = w*y[i]; if (!(fabs(x[i]-want) <= fabs(want)*3e-7+fabs(y[i])*1e-12)) { mc_fail("window", "length %d position %d: %.9g expected %.9g", n, i, x[i], want); break; } }
        free(x); free(y);
}
int main(int argc, char **argv) {
    const int thorough = atoi(argv[1]), M = thorough ? 24 : 14;
    /* copy: every destination and source length and position, and positions at the limits of int */
    for (int d=0; d<=M; d++) for (int s=0; s<=M; s++) for (int q=-2*M-8; q<=2*M+8; q++) {
        int pos = q; if (q <= -2*M-5) pos = INT_MIN+(q+2*M+8); if (q >= 2*M+5) pos = INT_MAX-(2*M+8-q);
        float *dst = mc_buf(sizeof(float)*d), *src = mc_buf(sizeof(float)*s), *was = mc_buf(sizeof(float)*d), *sw = mc_buf(sizeof(float)*s);
        for (int i=0; i<d; i++) dst[i] = was[i] = 100+i; for (int i=0; i<s; i++) src[i] = sw[i] = -1-i;
        EmlVector D = { dst, d }, S = { src, s };
        int ok = pos >= 0 && (long long)pos+s <= d;
        mc_states++; mc_transitions++; mc_traces++;
        int e = eml_vector_set(D, S, pos);
        if (ok) for (int i=0; i<s; i++) was[pos+i] = sw[i];
        if ((e == 0) != ok) mc_fail(ok ? "set:refused" : "set:accepted", "%d values into %d at %d: %d", s, d, pos, e);
        if (!same(dst, was, d)) mc_fail("set:contents", "%d values into %d at %d", s, d, pos);
        if (!same(src, sw, s)) mc_fail("set:source", "%d values into %d at %d", s, d, pos);
        free(dst); free(src); free(was); free(sw);
    }
    /* positions and lengths that overflow together (the data cannot exist, and must not be looked at) */
    { float one[1] = { 5 }; static const int L[] = { 0, 1, 2, 0x40000000, INT_MAX-1, INT_MAX }, P[] = { INT_MIN, -1, 0, 1, 2, 0x40000000, INT_MAX-1, INT_MAX };
      for (int a=0; a<6; a++) for (int p=0; p<8; p++) { EmlVector D = { one, 1 }, S = { one, L[a] }; if (P[p] >= 0 && (long long)P[p]+L[a] <= 1) continue; mc_states++; mc_transitions++; if (eml_vector_set(D, S, P[p]) == 0 || one[0] != 5) mc_fail("set:overflow", "%d values into 1 at %d", L[a], P[p]); } }
    /* fill */
    static const float V[] = { 0.0f, -0.0f, 1.5f, -3e38f, 1e-45f, INFINITY, -INFINITY };
    for (int n=0; n<=300; n++) for (unsigned v=0; v<sizeof V/sizeof *V; v++) {
        float *x = mc_buf(sizeof(float)*n); EmlVector X = { x, n }; mc_states++; mc_transitions++; mc_traces++;
        EmlError e = eml_vector_set_value(X, V[v]); if (e != EmlOk) mc_fail("fill:status", "%d", e);
        for (int i=0; i<n; i++) if (memcmp(&x[i], &V[v], 4)) { mc_fail("fill", "%d values of %g: position %d is %g", n, V[v], i, x[i]); break; }
        free(x);
    }
    { static const int N[] = { 32767, 32768, 65535, 65536, 65537, 1000000 }; for (int k=0; k<6; k++) { float *x = mc_buf(sizeof(float)*N[k]); EmlVector X = { x, N[k] }; mc_states++; mc_transitions++; eml_vector_set_value(X, 7); for (int i=0; i<N[k]; i++) if (x[i] != 7) { mc_fail("fill", "%d values: position %d", N[k], i); break; }
        float *y = mc_buf(sizeof(float)*(N[k]+3)); EmlVector Y = { y, N[k]+3 }; y[0] = y[1] = y[N[k]+2] = 9; for (int i=0; i<N[k]; i++) x[i] = (float)i; if (eml_vector_set(Y, X, 2) || y[0] != 9 || y[1] != 9 || y[N[k]+2] != 9) mc_fail("set:large", "%d", N[k]); for (int i=0; i<N[k]; i++) if (y[i+2] != i) { mc_fail("set:large", "%d values: position %d", N[k], i); break; }
        free(x); free(y); } }
    /* views, and views of views */
    { float x[12]; EmlVector X = { x, 12 }; for (int i=0; i<12; i++) x[i] = (float)i;
      for (int a=0; a<=12; a++) for (int b=a; b<=12; b++) { EmlVector v = eml_vector_view(X, a, b); mc_states++; mc_transitions++; mc_traces++; if (v.data != x+a || v.length != b-a) mc_fail("view", "%d to %d: at %d, length %d", a, b, (int)(v.data-x), v.length);
        for (int e=0; e<=b-a; e++) for (int f=e; f<=b-a; f++) { EmlVector w = eml_vector_view(v, e, f); mc_transitions++; if (w.data != x+a+e || w.length != f-e) mc_fail("view:nested", "%d to %d of %d to %d", e, f, a, b); } } }
    /* mean: every vector over an alphabet whose sums are exact */
    static const float A[] = { 0, 1, -1, 2.5f, -1024 };
    for (int n=1; n<=(thorough ? 8 : 6); n++) { int total = 1; for (int i=0; i<n; i++) total *= 5; for (int w=0; w<total; w++) {
        float *x = mc_buf(sizeof(float)*n); double sum = 0; int q = w; for (int i=0; i<n; i++) { x[i] = A[q%5]; sum += x[i]; q /= 5; } mc_states++; mc_transitions++; mc_traces++;
        float m = eml_signal_mean(x, n); if (!(fabs(m-sum/n) <= fabs(sum/n)*1.2e-7)) mc_fail("mean", "%d values word %d: %g expected %g", n, w, m, sum/n); free(x); } }
    for (int k=1; k<=2020; k++) { static const int BIG[] = { 4099, 9001, 16385, 32767, 32768, 32769, 40000, 65535, 65536, 65537, 70001, 100000, 131073 }; const int n = k <= 2000 ? k : k-2001 < 13 ? BIG[k-2001] : 0; if (!n) continue; float *x = mc_buf(sizeof(float)*n); double sum = 0; for (int i=0; i<n; i++) { x[i] = (float)((i*37)%61); sum += x[i]; } mc_states++; mc_transitions++; float m = eml_signal_mean(x, n); if (!(fabs(m-sum/n) <= sum/n*2e-7)) mc_fail("mean", "%d values: %g expected %g", n, m, sum/n); free(x); }
    /* window: every length, in place, each value on its own (zero stays zero, sign and size kept) */
    for (int n=0; n<=(thorough ? 20000 : 3000); n = n < 2100 ? n+1 : n+n/9+1) for (int k=0; k<3; k++) window(n, k);
    { static const int N[] = { 32767, 32768, 32769, 40000, 65535, 65536, 65537, 70001, 100000, 131073 }; for (int i=0; i<10; i++) for (int k=0; k<3; k++) window(N[i], k); }
    /* larger and smaller of two */
    static const float W[] = { 0, 1, -1, 1e-45f, -1e-45f, 3e38f, -3e38f, INFINITY, -INFINITY, 0.5f, 16777216.0f, 16777215.0f };
    for (int a=0; a<12; a++) for (int b=0; b<12; b++) { mc_states++; mc_transitions += 2; if (eml_max(W[a], W[b]) != (W[a] > W[b] ? W[a] : W[b]) || eml_min(W[a], W[b]) != (W[a] < W[b] ? W[a] : W[b])) mc_fail("minmax", "%g %g", W[a], W[b]); }
    return mc_end();
}
'''

GENERATOR = r'''
#include <eml_benchmark.h>
#define N 2147483647u
int main(int argc, char **argv) {
    const long part = atol(argv[1]), parts = atol(argv[2]);
    if (part < parts) {
        /* every state of the generator has the successor of its definition */
        const uint32_t from = 1+(uint32_t)((uint64_t)(N-1)*part/parts), to = 1+(uint32_t)((uint64_t)(N-1)*(part+1)/parts);
        uint64_t want = (uint64_t)from*48271u % N;
        for (uint32_t s=from; s<to; s++) {
            uint32_t st = s, r = eml_lcg_parkmiller(&st);
            if (r != (uint32_t)want || st != r) { mc_fail("step", "%u gives %u (state %u), expected %u", s, r, st, (uint32_t)want); break; }
            want += 48271u; if (want >= N) want -= N;
        }
        mc_states += to-from; mc_transitions += to-from; mc_traces += to-from;
    } else {
        /* the cycle from the fixed seed visits every state once */
        uint32_t s = 1; uint64_t n = 0; do { eml_lcg_parkmiller(&s); n++; } while (s != 1 && s && n < 3000000000u);
        mc_transitions += (long)n; mc_traces++;
        if (n != N-1) mc_fail("period", "%llu", (unsigned long long)n);
    }
    return mc_end();
}
'''

FILL = r'''
#include <eml_benchmark.h>
#include <sys/time.h>
int main(void) {
    static const int L[] = { 0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 32, 33, 100, 127, 128, 255, 256, 257, 1000, 4095, 4096, 32767, 32768, 65535, 65536, 65537, 300000 };
    for (unsigned k=0; k<sizeof L/sizeof *L; k++) for (int again=0; again<2; again++) {
        float *x = mc_buf(sizeof(float)*L[k]); mc_states++; mc_transitions++; mc_traces++;
        EmlError e = eml_benchmark_fill(x, L[k]); if (e != EmlOk) mc_fail("fill:status", "%d values: %d", L[k], e);
        uint64_t s = 1; for (int i=0; i<L[k]; i++) { s = s*48271u % 2147483647u; if (x[i] != (float)s) { mc_fail("fill", "%d values, time %d: position %d is %.9g expected %.9g", L[k], again, i, x[i], (float)s); break; } }
        free(x);
    }
    int64_t last = eml_benchmark_micros(); for (int i=0; i<2000; i++) { int64_t t = eml_benchmark_micros(); mc_transitions++; if (t < last-1000000 || t > last+60000000) mc_fail("clock", "%lld after %lld", (long long)t, (long long)last); last = t; }
    if (last < 1000000000LL*1000000LL) mc_fail("clock:unit", "%lld", (long long)last);
    /* microseconds of the clock of the machine */
    for (int i=0; i<20000; i++) {
        struct timeval a, b; gettimeofday(&a, NULL); int64_t t = eml_benchmark_micros(); gettimeofday(&b, NULL); mc_states++; mc_transitions++;
        int64_t from = a.tv_sec*1000000LL+a.tv_usec, to = b.tv_sec*1000000LL+b.tv_usec;
        if (to >= from && (t < from-1000000 || t > to+1000000)) { mc_fail("clock:value", "%lld between %lld and %lld", (long long)t, (long long)from, (long long)to); break; }
    }
    return mc_end();
}
'''


def run(c):
    from mc.core import Harness
    c.assume('vectors do not overlap, except a view and what it views', 'the mean of no values is not defined',
             'the clock of the machine is not set while the check runs (a second either way is allowed)')
    exe = drive.build(c, 'vector', VECTOR)
    drive.run_many(c, exe, [(c.pick('0', '1'),)], 'vector')
    c.count('vector', c.states)
    drive.drive(c, 'fill', FILL)
    exe = drive.build(c, 'generator', GENERATOR, flags=['-O2'])
    drive.run_many(c, exe, [(str(i), '31') for i in range(32)], 'generator')
    c.bound(generator_states='all 2147483646 and the whole cycle', window_lengths=c.pick('0..2100, sparser to 3000, ten to 131073', '0..2100, sparser to 20000, ten to 131073'), copies=c.pick('lengths to 14', 'lengths to 24'))
