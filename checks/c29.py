"""C29 fixed point: all pairs over a dense operand grid (around every power of two and the limits) through the C operations; every format and value through Python, the code generator and C."""
import itertools
import numpy
from mc import cbuild, drive

DRIVER = r'''
#include <eml_fixedpoint.h>
#include <eml_bayes.h>
#include <eml_net_fixedpoint.h>
#include <math.h>
typedef __int128 big;
static int32_t *G; static long n;
static void add(int64_t v) { if (v >= INT32_MIN && v <= INT32_MAX) G[n++] = (int32_t)v; }
static int cmp(const void *a, const void *b) { int32_t x = *(int32_t *)a, y = *(int32_t *)b; return x < y ? -1 : x > y; }
static void grid(int dense, int around, long step) {
    G = malloc(sizeof(int32_t)*4000000);
    for (int v=-dense; v<=dense; v++) { add(v); add((int64_t)v << 16); add(((int64_t)v << 16)+v); }
    for (int b=0; b<32; b++) for (int d=-around; d<=around; d++) for (int s=-1; s<=1; s+=2) { add(s*((int64_t)1 << b)+d); add(s*((int64_t)3 << b)+d); add(s*((int64_t)1 << b)/3+d); }
    for (int d=0; d<=around; d++) { add((int64_t)INT32_MIN+d); add((int64_t)INT32_MAX-d); add(INT32_MAX/2-d); add(INT32_MIN/2+d); add(0xffff-d); add(46340+d); add(185363800/1+d); }
    if (step) for (int64_t v=INT32_MIN; v<=INT32_MAX; v+=step) add(v);
    qsort(G, n, sizeof *G, cmp); long k = 0; for (long i=0; i<n; i++) if (!i || G[i] != G[i-1]) G[k++] = G[i]; n = k;
}
/* |got - num/den| <= 1 unit (half a unit: nearest), where the real result is inside the format; else the nearest limit */
static int close_enough(int32_t got, big num, big den, int nearest) {
    if (den < 0) { num = -num; den = -den; }
    if (num > (big)INT32_MAX*den) return got == INT32_MAX;
    if (num < (big)INT32_MIN*den) return got == INT32_MIN;
    big d = (big)got*den-num; if (d < 0) d = -d;
    return d*(nearest ? 2 : 1) <= den;
}
int main(int argc, char **argv) {
    int part = atoi(argv[1]), parts = atoi(argv[2]), thorough = atoi(argv[3]);
    grid(thorough ? 700 : 150, thorough ? 12 : 4, thorough ? 2000003 : 30000001);
    for (long i=part; i<n; i+=parts) for (long j=0; j<n; j++) {
        int32_t a = G[i], b = G[j]; mc_states++; mc_transitions += 2; mc_traces++;
        int32_t m = eml_q16_mul(a, b);
        if (!close_enough(m, (big)a*b, 65536, 0)) mc_fail("mul", "%d * %d gives %d, real %.17g", a, b, m, (double)a*b/65536);
        if (m && (m < 0) != ((a < 0) != (b < 0))) mc_fail("mul:sign", "%d * %d gives %d", a, b, m);
        int32_t q = eml_q16_div(a, b);
        if (b == 0) { if ((a > 0 && q != INT32_MAX) || (a < 0 && q != INT32_MIN)) mc_fail("div:zero", "%d / 0 gives %d", a, q); continue; }
        if (!close_enough(q, (big)a*65536, b, 1)) mc_fail("div", "%d / %d gives %d, real %.17g", a, b, q, (double)a*65536/b);
        if (q && a && (q < 0) != ((a < 0) != (b < 0))) mc_fail("div:sign", "%d / %d gives %d", a, b, q);
    }
    /* conversions */
    for (long i=part; i<n; i+=parts) {
        int32_t v = G[i]; mc_states++; mc_transitions += 4; mc_traces++;
        float f = EML_Q16_TOFLOAT(v); if (!(fabs(f-v/65536.0) <= fabs(v/65536.0)*6e-8)) mc_fail("tofloat", "%d gives %g", v, f);
        if (f < 32768.0f) { int32_t r = EML_Q16_FROMFLOAT(f); if (llabs((long long)r-v) > fabs(v*6e-8)+1) mc_fail("roundtrip", "%d gives %d", v, r); }
        double d = v/65536.0; for (int e=-3; e<=3; e++) {
            double x = d+e*0.2/65536; if (x >= 32768 || x <= -32768) continue;
            int32_t r = EML_Q16_FROMFLOAT(x); if (!(fabs(r-x*65536) < 1)) mc_fail("fromdouble", "%.17g gives %d", x, r);
            float y = (float)x; if (y >= 32768 || y <= -32768) continue;
            r = EML_Q16_FROMFLOAT(y); if (!(fabs(r-(double)y*65536) < 1)) mc_fail("fromfloat", "%.9g gives %d", y, r);
        }
        int t = EML_Q16_TOINT(v); if (!(fabs(t-d) < 1 )) mc_fail("toint", "%d gives %d", v, t);
        if (v >= -32768 && v <= 32767) { int32_t r = EML_Q16_FROMINT(v); if (r != v*65536LL) mc_fail("fromint", "%d gives %d", v, r); if (EML_Q16_TOINT(EML_Q16_FROMINT(v)) != v) mc_fail("int-roundtrip", "%d", v); }
    }
    if (part == 0) for (int v=-32768; v<=32767; v++) { mc_states++; mc_transitions++; int32_t r = EML_Q16_FROMINT(v); if (r != v*65536LL || EML_Q16_TOINT(r) != v || EML_Q16_TOFLOAT(r) != v) mc_fail("fromint", "%d gives %d", v, r); if (EML_Q16_FROMFLOAT((float)v) != r) mc_fail("fromfloat", "%d", v); }
    if (EML_Q16_ONE != 65536 || EML_Q16_FRACT_BITS != 16) mc_fail("one", "%d", EML_Q16_ONE);
    /* macros with expressions as arguments */
    { int32_t a = 3, b = 4; float x = 1.5f; mc_states++; mc_transitions++; if (EML_Q16_FROMINT(a+b) != 7*65536 || EML_Q16_FROMFLOAT(x+1) != 163840 || EML_Q16_TOINT(65536*a+b) != 3 || EML_Q16_TOFLOAT(65536*a+32768) != 3.5f || EML_Q16_TOINT(EML_Q16_ONE*2) != 2) mc_fail("macro-arguments", "conversion of an expression"); }
    /* base 2 logarithm of positive values */
    int32_t last = INT32_MIN; 
    for (uint64_t x=1+part; x<((uint64_t)1 << 32); x += x < (thorough ? 40000000 : 3000000) ? parts : x/(thorough ? 400000 : 20000)) {
        int32_t y = eml_bayes_log2fix((uint32_t)x, 16); double e = y-(log2((double)x)-16)*65536; mc_states++; mc_transitions++; mc_traces++;
        if (!(e > -5 && e < 2)) mc_fail("log2", "%llu gives %d, off by %g", (unsigned long long)x, y, e);
        if (y < last) mc_fail("log2:order", "%llu gives %d after %d", (unsigned long long)x, y, last);
        last = y;
    }
    for (int p=1; p<=26; p++) for (long i=part; i<n; i+=parts) {
        uint32_t x = (uint32_t)G[i]; if (!x) continue; int32_t y = eml_bayes_log2fix(x, p); double e = y-(log2((double)x)-p)*pow(2, p); mc_states++; mc_transitions++;
        if (!(e > -5 && e < 2)) mc_fail("log2", "%u with %d bits gives %d, off by %g", x, p, y, e);
    }
    for (int p=1; p<=40; p++) { mc_states++; mc_transitions++; if (p <= 30 && eml_bayes_log2fix(0, p) != INT32_MIN) mc_fail("log2:zero", "%d bits", p); if (p > 31 && eml_bayes_log2fix(77, p) != INT32_MAX) mc_fail("log2:precision", "%d bits", p); eml_bayes_log2fix(UINT32_C(1) << 31, p); }
    /* arg max over fixed-point values */
    static const int32_t A[] = { INT32_MIN, -1, 0, 1, INT32_MAX };
    if (part == 0) for (int len=0; len<=5; len++) { int total = 1; for (int i=0; i<len; i++) total *= 5; for (int w=0; w<total; w++) {
        int32_t *v = mc_buf(sizeof(int32_t)*len); int x = w; for (int i=0; i<len; i++) { v[i] = A[x%5]; x /= 5; }
        int got = eml_argmax_fixed32(v, len); mc_states++; mc_transitions++; mc_traces++;
        int bad = len ? got < 0 || got >= len : got != -1; for (int i=0; !bad && i<len; i++) if (v[i] > v[got]) bad = 1;
        if (bad) mc_fail("argmax", "%d values, word %d: %d", len, w, got);
        free(v); } }
    return mc_end();
}
'''


def run(c):
    from emlearn import fixedpoint, cgen
    from fractions import Fraction
    c.assume('the logarithm is allowed five units in the last place', 'operands of conversions lie inside the format')
    exe = drive.build(c, 'arith', DRIVER)
    drive.run_many(c, exe, [(str(i), '16', c.pick('0', '1')) for i in range(16)], 'arith')
    c.log('C')
    # every format: exact values, and values between two steps
    raw = sorted({s*(2**b)+d for b in range(32) for d in range(-3, 4) for s in (1, -1)} | set(range(-40, 41)) | {s*(3**b) for b in range(20) for s in (1, -1)})
    raw = [v for v in raw if -2**31 <= v < 2**31]
    decl, prints, expect = [], [], []
    for fraction in range(0, 32):
        for sign in (1, 0):
            integer = 32-sign-fraction
            if integer < 0: continue
            fmt = fixedpoint.FixedPointFormat(integer_bits=integer, fraction_bits=fraction, sign_bits=sign)
            if fmt.total_bits != 32: c.violation('format:bits', format=repr(fmt), got=fmt.total_bits)
            if fmt.ctype != ('eml_q16_t' if (integer, fraction, sign) == (15, 16, 1) else 'eml_fixed32_t'): c.violation('format:ctype', format=repr(fmt), got=fmt.ctype)
            values, want = [], []
            for v in raw:
                for part in (0, 0.25, 0.5, 0.75):
                    x = (v+part)/2**fraction
                    if not -2**31 < x*2**fraction < 2**31: continue
                    values.append(x); want.append(v+part)
            a = numpy.array(values)
            kept = a.copy()
            for form in (a, a.reshape(-1, 1), numpy.repeat(a, 2)[::2]):
                got = fixedpoint.from_float(form, fmt)
                c.states += len(a); c.transitions += len(a)
                if got.shape != form.shape or not numpy.issubdtype(got.dtype, numpy.integer) or not numpy.array_equal(a, kept):
                    c.violation('python:shape', format=repr(fmt)); continue
                bad = ~(numpy.abs(got.reshape(-1)-numpy.array(want)) < 1)
                exact = numpy.array([w == int(w) for w in want])
                bad |= exact & (got.reshape(-1) != numpy.array(want))
                if bad.any():
                    i = int(numpy.argmax(bad)); c.violation('python:from_float', format=repr(fmt), value=values[i], got=got.reshape(-1)[i], expected=want[i])
            got = fixedpoint.from_float(a, fmt)
            back = fixedpoint.to_float(got, fmt)
            if not (numpy.abs(back-a) < 1.0/2**fraction).all(): c.violation('python:roundtrip', format=repr(fmt))
            ints = numpy.array(raw)
            back = fixedpoint.to_float(ints, fmt)
            c.transitions += len(ints)
            if any(Fraction(float(b)) != Fraction(v, 2**fraction) for b, v in zip(back, raw)): c.violation('python:to_float', format=repr(fmt))
            if not numpy.array_equal(fixedpoint.from_float(back, fmt), ints): c.violation('python:inverse', format=repr(fmt))
            f4 = a.astype('f4'); f4 = f4[numpy.abs(f4.astype(float)*2**fraction) < 2**31]
            if not numpy.array_equal(fixedpoint.from_float(f4, fmt), numpy.trunc(f4.astype(float)*2**fraction).astype(int)):
                diff = numpy.abs(fixedpoint.from_float(f4, fmt)-f4.astype(float)*2**fraction)
                if not (diff < 1).all(): c.violation('python:single', format=repr(fmt))
            # through the code generator into C, and next to the conversion that C does itself
            if sign == 1:
                name = f'v{fraction}'
                decl.append(cgen.array_declare_fixedpoint(name, fixedpoint=fmt, values=a, size=len(a)))
                prints.append(f'for (unsigned i=0; i<sizeof({name})/sizeof({name}[0]); i++) printf("%d %ld\\n", {fraction}, (long){name}[i]);')
                if fraction == 16:
                    decl.append('static const double source[] = { ' + ', '.join(v.hex() for v in map(float, a)) + ' };\nstatic const float single[] = { ' + ', '.join(float(numpy.float32(v)).hex() + 'f' for v in a) + ' };')
                    prints.append('for (unsigned i=0; i<sizeof(source)/sizeof(source[0]); i++) printf("100 %ld\\n", (long)EML_Q16_FROMFLOAT(source[i]));')
                    prints.append('for (unsigned i=0; i<sizeof(single)/sizeof(single[0]); i++) if (single[i] < 32768.0f) printf("101 %ld\\n", (long)EML_Q16_FROMFLOAT(single[i]));')
                    s = numpy.array([numpy.float32(v) for v in a]); s = s[s < 32768]
                    expect += [(100, int(v)) for v in fixedpoint.from_float(a, fmt)] if False else []
                    q16 = [(100, int(v)) for v in fixedpoint.from_float(a, fmt)] + [(101, int(v)) for v in fixedpoint.from_float(s, fmt)]
                expect += [(fraction, int(v)) for v in got]
                if fraction == 16: expect += q16
            # values that do not fit are refused
            for v in (2.0**integer, -2.0**integer*1.5, 1e30, float('nan'), float('inf')) if sign == 1 else ():
                c.states += 1; c.transitions += 1
                try:
                    with numpy.errstate(all='ignore'):
                        text = cgen.array_declare_fixedpoint('x', fixedpoint=fmt, values=numpy.array([0.0, v]), size=2)
                except Exception:
                    continue
                c.violation('cgen:out-of-range', format=repr(fmt), value=v, text=text)
    out = drive.drive(c, 'declared', '#include <eml_fixedpoint.h>\n' + '\n'.join(decl) + '\nint main(void) { ' + '\n'.join(prints) + ' mc_states++; mc_transitions++; return mc_end(); }\n', flags=['-O0'])
    got = [tuple(map(int, l.split())) for l in out if l]
    c.traces += len(got)
    if len(got) != len(expect): c.violation('cgen:count', got=len(got), expected=len(expect))
    bad = [(g, e) for g, e in zip(got, expect) if g != e]
    if bad: c.violation('cgen:value', first=bad[:5])
    c.sample(a=-65536, b=3, operation='div')
    c.bound(formats=63, raw_values=len(raw), log2='all x to 3000000 and a ladder to 2^32 (thorough 40000000)', pairs='grid squared')
