"""C40 structured log: every sequence of entries to a depth through each output, against the documented line format."""
import itertools, os, subprocess
from mc import cbuild, drive

CAPTURE = r'''
#include <limits.h>
#include <stdbool.h>
#include <math.h>
static char got[1<<16]; static int got_n;
static void out(const char *fmt, ...) { va_list ap; va_start(ap, fmt); got_n += vsnprintf(got+got_n, sizeof(got)-got_n, fmt, ap); va_end(ap); }
#define EML_LOG_ENABLE 1
#define EML_LOG_PRINTF(...) out(__VA_ARGS__)
#include <eml_log.h>
static char want[1<<16]; static int want_n;
static void w(const char *s) { int n = (int)strlen(s); memcpy(want+want_n, s, n+1); want_n += n; }
static void wi(long long v) { char b[40]; int k = 39, neg = v < 0; unsigned long long u = neg ? 0ULL-(unsigned long long)v : (unsigned long long)v; b[k] = 0; do { b[--k] = (char)('0'+u%10); u /= 10; } while (u); if (neg) b[--k] = '-'; w(b+k); }
/* four decimals, from the exact value (the values of the alphabet are multiples of 2^-10, below 2^40; halves to even) */
static void wf(double v) {
    if (isinf(v)) { w(v < 0 ? "-inf" : "inf"); return; } if (isnan(v)) { w(signbit(v) ? "-nan" : "nan"); return; }
    if (signbit(v)) { w("-"); v = -v; }
    __int128 m = (__int128)(v*1024)*10000, q = m/1024, r = m%1024; if (r > 512 || (r == 512 && (q & 1))) q++;
    wi((long long)(q/10000)); char b[8]; snprintf(b, sizeof(b), ".%04d", (int)(q%10000)); w(b);
}
static int calls; static int once_i(int v) { calls++; return v; } static double once_d(double v) { calls++; return v; } static const char *once_s(const char *v) { calls++; return v; }
static const char *STR[] = { "", "value", "two words", "100%", "%s%d%n", "a=b", "\"q\"", "\xc3\xa6", "x\ty" };
static const char *KEYS[] = { "k", "key1", "%d", "long_key_name_of_many_letters", "" };
static const int INTS[] = { 0, 1, -1, 9, 10, 127, 128, 255, 256, -32768, 32767, 32768, 65535, 65536, 99999, 1000000, INT_MAX, INT_MIN };
static const double FLTS[] = { 0, -0.0, 1, -1, 0.5, 0.25, 0.0625, 3.140625, -2.71875, 0.0009765625, 100000, 123456.75, 16777217, -1099511627775.5, 9.9990234375, 0.9990234375, 0.03125, 0.09375, INFINITY, -INFINITY };
#define NS 9
#define NI 18
#define NF 20
#define OPS (NS+NI+NF+6+8)
static int op(int k, const char *key) {
    int c0 = calls, uses = 1;
    if (k < NS) { EML_LOG_ADD(once_s(key), once_s(STR[k])); uses = 2; w(" "); w(key); w("="); w(STR[k]); }
    else if ((k -= NS) < NI) { EML_LOG_ADD_INTEGER(key, once_i(INTS[k])); w(" "); w(key); w("="); wi(INTS[k]); }
    else if ((k -= NI) < NF) { if (k & 1) EML_LOG_ADD_FLOAT(key, once_d(FLTS[k])); else { float f = (float)FLTS[k]; EML_LOG_ADD_FLOAT(key, (calls++, f)); w(" "); w(key); w("="); wf(f); goto counted; } w(" "); w(key); w("="); wf(FLTS[k]); }
    else if ((k -= NF) < 6) {
        static const int B[] = { 0, 1, 2, -1, 256, INT_MIN }; int v = B[k];
        if (k & 1) EML_LOG_ADD_BOOL(key, once_i(v)); else EML_LOG_ADD_BOOL(key, once_i(v) != 0 || v == 7);
        w(" "); w(key); w("="); w(v ? "true" : "false");
        EML_LOG_ADD_BOOL("b", v && k); w(" b="); w(v && k ? "true" : "false");
        EML_LOG_PRINTF("%s", EML_LOG_BOOL_STR(v)); w(v ? "true" : "false");
    } else {
        k -= 6; static const int len[] = { 0, 1, 2, 3, 7, 100, 1000, 2 }; static int a[1000]; static float f[1000]; for (int j=0; j<1000; j++) { a[j] = (j*7919) % 1000-500; f[j] = (float)a[j]/8; }
        w(" "); w(key); w("=["); for (int j=0; j<len[k]; j++) { if (j) w(","); if (k & 1) wf(f[j]); else wi(a[j]); } w("]");
        if (k & 1) EML_LOG_ADD_ARRAY(key, f, len[k], "%.4f"); else EML_LOG_ADD_ARRAY(key, a, len[k], "%d");
        uses = 0;
    }
counted:
    return calls-c0 == uses;
}
static void compare(const char *what, const int *seq, int n) {
    mc_states++; mc_traces++;
    if (got_n != want_n || memcmp(got, want, want_n)) { int i = 0; while (i < got_n && i < want_n && got[i] == want[i]) i++; mc_fail("entry", "%s of %d values (first %d): differs after %d characters: \"%.60s\" expected \"%.60s\"", what, n, n ? seq[0] : -1, i, got+(i > 20 ? i-20 : 0), want+(i > 20 ? i-20 : 0)); }
    got_n = want_n = 0; got[0] = want[0] = 0;
}
int main(int argc, char **argv) {
    int part = atoi(argv[1]), parts = atoi(argv[2]), depth = atoi(argv[3]); long q = 0;
    for (int n=0; n<=depth; n++) { long total = 1; for (int i=0; i<n; i++) total *= OPS;
        for (long x=0; x<total; x++) { if (q++ % parts != part) continue;
            int seq[8]; long y = x; for (int i=0; i<n; i++) { seq[i] = (int)(y % OPS); y /= OPS; }
            EML_LOG_BEGIN("my-event"); w("my-event"); mc_transitions += n+2;
            for (int i=0; i<n; i++) if (!op(seq[i], KEYS[(seq[i]+i+x) % 5])) mc_fail("evaluated", "operation %d", seq[i]);
            EML_LOG_END(); w("\n"); compare("entry", seq, n); } }
    if (part == 0) {
        /* every number of decimals that a value of this grid has, every power of two */
        for (int k=-40960; k<=40960; k++) { double v = k/1024.0; EML_LOG_ADD_FLOAT("f", v); w(" f="); wf(v); mc_transitions++; compare("number", &k, 1); }
        for (int b=0; b<32; b++) for (int d=-2; d<=2; d++) { int v = (int)((1LL << b)+d > INT_MAX ? INT_MAX : (1LL << b)+d); for (int s=0; s<2; s++) { int u = s ? -v : v; EML_LOG_ADD_INTEGER("i", u); w(" i="); wi(u); mc_transitions++; compare("integer", &u, 1); } }
        /* as the branches of a decision; with expressions and with names of the caller as arguments */
        for (int v=0; v<4; v++) { if (v & 1) EML_LOG_BEGIN("a"); else EML_LOG_BEGIN("b"); if (v & 2) EML_LOG_ADD_BOOL("t", v > 1 && v < 9); else EML_LOG_ADD_INTEGER("u", v+1); EML_LOG_END();
            w(v & 1 ? "a" : "b"); w(v & 2 ? " t=true" : v ? " u=2" : " u=1"); w("\n"); compare("branches", &v, 1); mc_transitions += 3; }
        int a[6] = { 5, -4, 3, -2, 1, 0 };
        /* variables of the caller with short names, and expressions that need their own parentheses */
        for (int i=0; i<=6; i++) { int len = i, j = 0, arr = 1; (void)j; (void)arr;
            EML_LOG_BEGIN("own"); EML_LOG_ADD_ARRAY("i", a, i, "%d"); EML_LOG_ADD_ARRAY("l", a, len, "%d"); EML_LOG_ADD_ARRAY("e", a, i > 3 ? i-3 : 1, "%d"); EML_LOG_ADD_ARRAY("m", a, i & 3, "%d"); EML_LOG_ADD_ARRAY("p", i > 2 ? a+1 : a, 2, "%d"); EML_LOG_ADD_INTEGER("v", i > 2 ? i : -i); EML_LOG_ADD_BOOL("b", i > 2 ? 0 : 1); EML_LOG_END();
            const char *names[5] = { " i=[", " l=[", " e=[", " m=[", " p=[" }; int counts[5] = { i, i, i > 3 ? i-3 : 1, i & 3, 2 }, first[5] = { 0, 0, 0, 0, i > 2 };
            w("own"); for (int k=0; k<5; k++) { w(names[k]); for (int q=0; q<counts[k]; q++) { if (q) w(","); wi(a[first[k]+q]); } w("]"); } w(" v="); wi(i > 2 ? i : -i); w(i > 2 ? " b=false" : " b=true"); w("\n");
            compare("caller", &i, 1); mc_transitions += 9; }
        for (int n=0; n<=6; n++) for (int from=0; from+n<=6; from++) {
            w("e xs=["); for (int j=0; j<n; j++) { if (j) w(","); wi(a[from+j]); } w("] ys=["); for (int j=0; j<n; j++) { if (j) w(","); wi(a[from+j]); } w("]\n");
            EML_LOG_BEGIN("e"); EML_LOG_ADD_ARRAY("xs", (a+from), (from+n)-from, "%d"); if (n >= 0) EML_LOG_ADD_ARRAY("ys", (&a[from]), n, "%d"); else EML_LOG_END(); EML_LOG_END();
            compare("array", &n, 1); mc_transitions += 4; }
    }
    return mc_end();
}
'''

PLAIN = r'''%s
#include <stdio.h>
#include <eml_log.h>
%s
int main(void) {
    const int values[] = { 3, -1, 4 }; const float reals[] = { 0.5f, -2.25f };
    int ok = 1;
    EML_LOG_BEGIN("my-event");
    EML_LOG_ADD("key1", "string-value");
    EML_LOG_ADD_INTEGER("key2", 123);
    EML_LOG_ADD_BOOL("key3", ok);
    EML_LOG_ADD_BOOL("key4", !ok);
    EML_LOG_ADD_FLOAT("key5", 3.14);
    EML_LOG_ADD_ARRAY("key6", values, 3, "%%d");
    EML_LOG_ADD_ARRAY("key7", reals, 2, "%%.2f");
    EML_LOG_END();
    if (ok) EML_LOG_BEGIN("second"); else EML_LOG_BEGIN("third");
    EML_LOG_END();
    printf("done\n");
    return 0;
}
'''
TEXT = 'my-event key1=string-value key2=123 key3=true key4=false key5=3.1400 key6=[3,-1,4] key7=[0.50,-2.25]\nsecond\n'


def run(c):
    c.assume('event names are string literals without percent signs', 'the C library rounds decimal output correctly')
    depth = c.pick(2, 3)
    exe = drive.build(c, 'log', CAPTURE)
    drive.run_many(c, exe, [(str(i), '8', str(depth)) for i in range(8)], 'log')
    c.count('entries', c.states)
    c.log('captured')
    # by default nothing is written; on request, to standard error; or to where the program says; the same after other headers
    others = sorted(f for f in os.listdir(cbuild.INCLUDE) if f.startswith('eml_') and f.endswith('.h') and f not in ('eml_log.h', 'eml_test.h'))
    d = c.dir('plain')
    jobs = []
    for k, (mode, head, want) in enumerate([('default', '', ('done\n', '')), ('off', '#define EML_LOG_ENABLE 0', ('done\n', '')), ('on', '#define EML_LOG_ENABLE 1', ('done\n', TEXT)),
                                            ('stdout', '#define EML_LOG_ENABLE 1\n#define EML_LOG_PRINTF(...) printf(__VA_ARGS__)', (TEXT+'done\n', ''))]):
        for cc, std, ext in (('gcc', '-std=c99', '.c'), ('gcc', '-std=gnu17', '.c'), ('clang', '-std=c11', '.c'), ('g++', '-std=c++11', '.cpp'), ('clang++', '-std=c++17', '.cpp')):
            for opt in ('-O0', '-O2'):
                for where in ['alone', 'twice'] + (others if cc == 'gcc' and std == '-std=c99' and opt == '-O0' else []):
                    extra = '' if where == 'alone' else '#include <eml_log.h>' if where == 'twice' else f'#include <{where}>'
                    name = f'{k}-{cc}-{std}-{opt}-{where}'.replace('+', 'p').replace('/', '_')
                    jobs.append((mode, cc, std, opt, where, os.path.join(d, name), ext, PLAIN % (head, extra), want))

    def one(job):
        mode, cc, std, opt, where, path, ext, code, want = job
        with open(path + ext, 'w') as f: f.write(code)
        p = subprocess.run([cc, std, opt, '-w', '-I', cbuild.INCLUDE, path + ext, '-o', path + '.exe', '-lm'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=300)
        if p.returncode: return ('compile', p.stdout[:1500])
        r = subprocess.run([path + '.exe'], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=60)
        return (r.returncode, r.stdout, r.stderr)
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(one, jobs))
    for job, got in zip(jobs, res):
        mode, cc, std, opt, where, path, ext, code, want = job
        c.states += 1; c.traces += 1; c.transitions += 10
        if got != (0, *want): c.violation(f'output:{mode}:{cc}:{std}:{where}', options=opt, got=got, expected=want)
    c.count('programs', len(jobs))
    c.bound(depth=depth, operations=61, programs=len(jobs))
    c.sample(entry='my-event k=value', expected='one line')
