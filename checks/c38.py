"""C38 reentrancy: two calls of the library run as coroutines with a scheduling point at every basic block and every access to memory outside their stacks;
every schedule of every pair of calls with a bounded number of preemptions, compared with the answers of each call alone."""
import os, re, subprocess, warnings
from concurrent.futures import ThreadPoolExecutor
import numpy
from mc import cbuild, ccache
from mc.core import INCLUDE, Harness
from checks import c18, c19

SCHED = r'''
#define _GNU_SOURCE
#include <ucontext.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <signal.h>
#include <unistd.h>
#include "tasks.h"
enum { STACK = 1<<18 };
static ucontext_t back, ctx[2];
static char *stack[2];
static int cur = -1, done[2], task[2], input[2], seg, nseg;
static long at[4], seen[2], limit;
static long schedules, points;
double mc_out[2][MC_OUT];
static const char *phase = "alone";
static void describe(const char *what) {
    printf("FAIL %s %s(%d) with %s(%d); %s, preempted at", what, mc_tasks[task[0]].name, input[0], mc_tasks[task[1]].name, input[1], phase);
    for (int i=0; i<nseg; i++) printf(" %ld", at[i]);
    printf("\n"); fflush(stdout);
}
static void crash(int sig) { (void)sig; describe("crash"); _exit(4); }
static void hit(void) {
    seen[cur]++; points++;
    if (seen[cur] > limit) { describe("hang"); _exit(4); }
    if (seg < nseg && seen[cur] == at[seg]) {
        seg++;
        const int o = 1-cur;
        if (!done[o]) { const int me = cur; cur = o; swapcontext(&ctx[me], &ctx[o]); }
    }
}
static int reduced;
extern char __executable_start, __data_start;
static inline int within(const char *p, const void *from, size_t n) { return p >= (const char *)from && p < (const char *)from+n; }
/* reduced: what only this call can reach, and what nobody can write, needs no scheduling point */
static inline void access_(char *p) {
    if (cur < 0 || within(p, stack[cur], STACK)) return;
    if (reduced && (within(p, mc_private[cur], mc_private_size) || within(p, mc_out[cur], sizeof mc_out[cur]) || (p >= &__executable_start && p < &__data_start))) return;
    hit();
}
#define CB(n) void __sanitizer_cov_load##n(char *p) { access_(p); } void __sanitizer_cov_store##n(char *p) { access_(p); }
CB(1) CB(2) CB(4) CB(8) CB(16)
void __sanitizer_cov_trace_pc(void) { if (cur >= 0) hit(); }
static void entry(int s) {
    mc_tasks[task[s]].body(s, input[s]);
    done[s] = 1;
    const int o = 1-s;
    if (task[o] >= 0 && !done[o]) { cur = o; setcontext(&ctx[o]); }
    cur = -1;
    setcontext(&back);
}
/* one execution: slot `first` starts; at[] are the preemption points */
static void execute(int first) {
    seg = 0; schedules++;
    for (int s=0; s<2; s++) {
        done[s] = task[s] < 0; seen[s] = 0;
        if (task[s] < 0) continue;
        for (int k=0; k<MC_OUT; k++) mc_out[s][k] = 0;
        mc_tasks[task[s]].setup(s, input[s]);
        getcontext(&ctx[s]);
        ctx[s].uc_stack.ss_sp = stack[s]; ctx[s].uc_stack.ss_size = STACK; ctx[s].uc_link = NULL;
        makecontext(&ctx[s], (void (*)(void))entry, 1, s);
    }
    cur = first;
    swapcontext(&back, &ctx[first]);
}
static double want[MC_TASKS][MC_INPUTS][2][MC_OUT]; static long length[MC_TASKS][MC_INPUTS];
static int judge(void) {
    for (int s=0; s<2; s++) if (memcmp(mc_out[s], want[task[s]][input[s]][s], sizeof mc_out[s])) {
        describe("answer"); int k = 0; while (mc_out[s][k] == want[task[s]][input[s]][s][k] && k < MC_OUT-1) k++;
        printf("  %s output %d is %.9g, alone %.9g\n", mc_tasks[task[s]].name, k, mc_out[s][k], want[task[s]][input[s]][s][k]); fflush(stdout); return 1; }
    return 0;
}
int main(int argc, char **argv) {
    (void)argc;
    const int part = atoi(argv[1]), parts = atoi(argv[2]); const long full = atol(argv[3]), three = atol(argv[4]); reduced = atoi(argv[5]);
    stack_t ss = { .ss_sp = malloc(1<<16), .ss_size = 1<<16 }; sigaltstack(&ss, NULL);
    struct sigaction sa = { .sa_handler = crash, .sa_flags = SA_ONSTACK }; sigaction(SIGSEGV, &sa, NULL); sigaction(SIGBUS, &sa, NULL); sigaction(SIGFPE, &sa, NULL); sigaction(SIGABRT, &sa, NULL); sigaction(SIGILL, &sa, NULL);
    for (int s=0; s<2; s++) stack[s] = malloc(STACK);
    limit = 100000000;
    for (int t=0; t<MC_TASKS; t++) for (int i=0; i<MC_INPUTS; i++) for (int s=0; s<2; s++) {
        task[s] = t; input[s] = i; task[1-s] = -1; nseg = 0;
        execute(s); memcpy(want[t][i][s], mc_out[s], sizeof mc_out[s]); length[t][i] = seen[s];
        if (s && memcmp(want[t][i][0], want[t][i][1], sizeof mc_out[0])) { printf("FAIL alone %s(%d) differs between runs\n", mc_tasks[t].name, i); return 4; }
        if (part == 0 && s == 0) { printf("TASK %s %d %ld", mc_tasks[t].name, i, seen[s]); for (int k=0; k<8; k++) printf(" %.9g", mc_out[s][k]); printf("\n"); }
    }
    long one = 0, two = 0, tri = 0, partial = 0; int q = 0;
    for (int a=0; a<MC_TASKS; a++) for (int b=0; b<MC_TASKS; b++) for (int i=0; i<(a == b ? MC_INPUTS : 3); i++) for (int w=1; w<(a == b ? MC_INPUTS : 2); w++) {
        if (a == b && mc_tasks[a].exclusive) continue;
        if (mc_tasks[a].exclusive && mc_tasks[a].exclusive == mc_tasks[b].exclusive) continue;
        if (q++ % parts != part) continue;
        task[0] = a; task[1] = b; input[0] = i; input[1] = (i+w) % MC_INPUTS;
        const long n = length[a][i], m = length[b][input[1]];
        limit = 20*(n+m)+10000;
        /* every point of a with one preemption: b runs to its end there */
        phase = "one preemption"; nseg = 1;
        for (at[0]=1; at[0]<=n; at[0]++) { execute(0); one++; if (judge()) return 4; }
        /* two: a to its point, b to its point, then a and b to their ends */
        if (n*m <= full || (a == b && w == 1)) { phase = "two preemptions"; nseg = 2;
            for (at[0]=1; at[0]<=n; at[0]++) for (at[1]=1; at[1]<=m; at[1]++) { execute(0); two++; if (judge()) return 4; } }
        else partial++;
        /* three: back into b */
        if (n*m*n <= three) { phase = "three preemptions"; nseg = 3;
            for (at[0]=1; at[0]<=n; at[0]++) for (at[1]=1; at[1]<=m; at[1]++) for (at[2]=at[0]+1; at[2]<=n; at[2]++) { execute(0); tri++; if (judge()) return 4; } }
    }
    printf("COUNT %ld %ld %ld %ld %ld %ld\n", schedules, points, one, two, tri, partial);
    return 0;
}
'''
HEAD = r'''
#include <stdint.h>
#include <stddef.h>
#define MC_OUT 32
#define MC_INPUTS 5
typedef struct { const char *name; int exclusive; void (*setup)(int slot, int in); void (*body)(int slot, int in); } mc_task;
extern const mc_task mc_tasks[];
extern double mc_out[2][MC_OUT];
extern char *mc_private[2]; extern size_t mc_private_size;
'''
# calls of the headers; everything they write is in their slot
CALLS = r'''
static struct { float re[32], im[32], mel[8], signal[16], state[8], sum; int16_t q[16]; float back[16]; uint8_t store[64]; char text[96]; int length, position; char line[64]; char *columns[4]; int16_t data[20], labels[6], query[2]; EmlNeighborsDistanceItem dist[6];
    EmlArray array; EmlVector va, vb; EmlCsvWriter writer; EmlCsvReader reader; int status; float *row; } M[2];
char *mc_private[2] = { (char *)&M[0], (char *)&M[1] }; size_t mc_private_size = sizeof M[0];
static float fft_sin[16], fft_cos[16]; static EmlFFT shared_fft = { 8, fft_sin, fft_cos };
static void fill(float *x, int n, int in) { for (int i=0; i<n; i++) x[i] = (float)((i*7+in*5+3) % 11) - 4.5f; }
static void begin(int s, int in) { memset(&M[s], 0, sizeof M[s]); fill(M[s].re, 32, in); fill(M[s].im, 32, in+3); fill(M[s].signal, 16, in+1); if (fft_cos[0] == 0) eml_fft_fill(shared_fft, 16); }
static void put(int s, int k, const float *x, int n) { for (int i=0; i<n && k+i<MC_OUT; i++) mc_out[s][k+i] = (double)x[i]; }
static void t_fft(int s, int in) { (void)in; M[s].status = eml_fft_forward(shared_fft, M[s].re, M[s].im, 16); put(s, 0, M[s].re, 16); put(s, 16, M[s].im, 16); }
static void t_fft_fill(int s, int in) { (void)in; EmlFFT f = { 16, M[s].re, M[s].im }; M[s].status = eml_fft_fill(f, 32); put(s, 0, M[s].re, 16); put(s, 16, M[s].im, 16); }
static const float iir_coefficients[12] = { 0.5f, 0.25f, 0.125f, 1, -0.5f, 0.25f, 1, 0.5f, 0, 1, 0.25f, -0.125f };
static void t_iir(int s, int in) { (void)in; EmlIIR f = { 2, M[s].state, 8, iir_coefficients, 12 }; M[s].status = eml_iir_check(f); for (int i=0; i<4; i++) mc_out[s][i] = (double)eml_iir_filter(f, M[s].signal[i]); put(s, 4, M[s].state, 8); }
static void t_power(int s, int in) { (void)in; EmlVector a = { M[s].re, 32 }, b = { M[s].im, 17 }; M[s].status = eml_audio_power_spectrogram(a, b, 32); put(s, 0, M[s].im, 17); }
static void t_melspec(int s, int in) { EmlAudioMel mel = { 3, 0, in ? 4000.0f : 2000.0f, 32, 8000 }; EmlVector a = { M[s].re, 17 }, b = { M[s].mel, 3 }; mc_out[s][31] = eml_audio_melspec(mel, a, b); put(s, 0, M[s].mel, 3); }
static void t_melspectrogram(int s, int in) { EmlAudioMel mel = { 3, 0, in ? 4000.0f : 2000.0f, 16, 8000 }; EmlVector a = { M[s].re, 16 }, b = { M[s].im, 16 }; mc_out[s][31] = eml_audio_melspectrogram(mel, shared_fft, a, b); put(s, 0, M[s].re, 3); }
static const int fb_start[3] = { 0, 1, 3 }, fb_stop[3] = { 1, 3, 4 }; static const float fb_lut[7] = { 1, 0.5f, 0.25f, 1, 0.5f, 2, 1 };
static void t_sparse(int s, int in) { (void)in; mc_out[s][31] = eml_sparse_filterbank(M[s].re, M[s].mel, 3, fb_start, fb_stop, fb_lut); put(s, 0, M[s].mel, 3); }
static void t_quantize(int s, int in) { (void)in; EmlQuantizer z = { 1000.5f }; int u = 0, o = 0; mc_out[s][31] = eml_quantizer_check_forward_int16(&z, M[s].signal, 6, M[s].q, 6, &u, &o); eml_quantizer_inverse_int16(&z, M[s].q, 6, M[s].back, 6); for (int i=0; i<6; i++) mc_out[s][i] = M[s].q[i]; put(s, 6, M[s].back, 6); mc_out[s][29] = u; mc_out[s][30] = o; }
static void t_array(int s, int in) { int32_t dims[2] = { 3, 2 }; mc_out[s][31] = eml_array_init_full(&M[s].array, 2, dims, 2, M[s].store, sizeof M[s].store); eml_array_fill(&M[s].array, (float)(in+2)); *(int16_t *)eml_array_data_2d(&M[s].array, 1, 0) = (int16_t)(7+in);
    mc_out[s][30] = eml_array_shift_rows(&M[s].array, -1); float sum = 0; eml_array_sum(&M[s].array, &sum); mc_out[s][0] = (double)sum; for (int i=0; i<12; i++) mc_out[s][1+i] = M[s].store[i]; }
static void t_array_copy(int s, int in) { int32_t dims[2] = { 3, 2 }, d1[2] = { 1, 2 }; EmlArray other; uint8_t small[4] = { 1, 2, 3, (uint8_t)in }; eml_array_init_full(&M[s].array, 2, dims, 2, M[s].store, sizeof M[s].store); eml_array_init_full(&other, 2, d1, 2, small, 4); eml_array_fill(&M[s].array, (float)(in+5)); mc_out[s][31] = eml_array_copy_rows(&M[s].array, 1, &other); for (int i=0; i<12; i++) mc_out[s][1+i] = M[s].store[i]; }
static void t_vector(int s, int in) { EmlVector a = { M[s].re, 12 }, b = { M[s].signal, 5 }; mc_out[s][31] = eml_vector_set(a, b, 3+in); mc_out[s][30] = (double)eml_signal_mean(M[s].re, 12); eml_signal_hann_apply(M[s].re, 12); put(s, 0, M[s].re, 12); }
static int x_write(void *c, const uint8_t *d, size_t n) { int s = (int)(intptr_t)c; for (size_t i=0; i<n && M[s].length < 95; i++) M[s].text[M[s].length++] = (char)d[i]; return (int)n; }
static int x_read(void *c, uint8_t *d, size_t n) { int s = (int)(intptr_t)c; size_t i = 0; for (; i<n && i<5 && M[s].position < M[s].length; i++) d[i] = (uint8_t)M[s].text[M[s].position++]; return (int)i; }
static int x_seek(void *c, size_t p) { int s = (int)(intptr_t)c; if ((int)p > M[s].length) return -1; M[s].position = (int)p; return 0; }
static void t_csv_write(int s, int in) { const char *names[2] = { in ? "ab" : "x", "c" }; M[s].writer.write = x_write; M[s].writer.seek = x_seek; M[s].writer.stream = (void *)(intptr_t)s; mc_out[s][31] = eml_csv_writer_write_header(&M[s].writer, names, 2); mc_out[s][30] = eml_csv_writer_write_data(&M[s].writer, M[s].signal, 2);
    for (int i=0; i<30; i++) mc_out[s][i] = M[s].text[i]; }
static void s_csv_read(int s, int in) { begin(s, in); strcpy(M[s].text, in ? "p,q\n1,25\n" : "abc,d\n-3,4\n"); M[s].length = (int)strlen(M[s].text); }
static void t_csv_read(int s, int in) { (void)in; M[s].reader.read = x_read; M[s].reader.seek = x_seek; M[s].reader.stream = (void *)(intptr_t)s; char b[24]; char *c[3] = { 0, 0, 0 }; mc_out[s][31] = eml_csv_reader_read_header(&M[s].reader, b, 24, c, 3); mc_out[s][0] = c[0][0]; mc_out[s][1] = c[1][0];
    mc_out[s][30] = eml_csv_reader_read_data(&M[s].reader, b, 24, c, 3); mc_out[s][2] = c[0][0]; mc_out[s][3] = c[1][0]; mc_out[s][4] = c[1][1]; }
static const int16_t n_items[12] = { 0,0, 5,9, -3,4, 7,7, 1,-8, 2,6 }; static const int16_t n_labels[6] = { 0, 1, 2, 1, 0, 2 };
static void t_neighbors(int s, int in) { for (int i=0; i<8; i++) M[s].data[i] = n_items[i]; for (int i=0; i<4; i++) M[s].labels[i] = n_labels[i]; EmlNeighborsModel m = { 2, 4, 5, M[s].data, M[s].labels, 3 }; int16_t v[2] = { (int16_t)(in*4), 5 }; mc_out[s][31] = eml_neighbors_add_item(&m, v, 2, 2); int16_t o = -1; mc_out[s][30] = eml_neighbors_predict(&m, v, 2, M[s].dist, 5, &o); mc_out[s][0] = o; for (int i=0; i<5; i++) { mc_out[s][1+i] = M[s].dist[i].index; mc_out[s][6+i] = M[s].dist[i].distance; } }
static void t_fixedpoint(int s, int in) { eml_q16_t a = EML_Q16_FROMFLOAT(3.25f), b = EML_Q16_FROMINT(in+2); mc_out[s][0] = (double)eml_q16_mul(a, b); mc_out[s][1] = (double)eml_q16_div(a, b); mc_out[s][2] = (double)eml_bayes_logpdf_std(in*1000+77777); }
static void t_benchmark(int s, int in) { eml_benchmark_fill(M[s].re, 5+in); put(s, 0, M[s].re, 8); }
'''
HTASKS = '''fft fft_fill iir power melspec melspectrogram sparse quantize array array_copy vector csv_write neighbors benchmark'''.split()


def models():
    import emlearn
    from sklearn import neighbors, naive_bayes
    E, G = c19.generators()
    # few items keep the number of scheduling points small
    P = numpy.array([[0, 0], [9, 9], [0, 9], [9, 0], [4, 4]], float)
    E['KNeighborsClassifier'] = neighbors.KNeighborsClassifier(n_neighbors=3, algorithm='brute').fit(P, [0, 1, 2, 1, 2])
    G['KNeighborsClassifier'] = ('KNeighborsClassifier', {}, emlearn.convert(E['KNeighborsClassifier']))
    # classes with room: far inputs have different answers, all of them less probable than near ones
    Q = numpy.array([[0, 6], [2, 8], [1, 9], [8, 1], [9, 4], [11, 2], [3, 1], [5, 2], [4, -2]], float)
    E['GaussianNB'] = naive_bayes.GaussianNB().fit(Q, [0]*3+[1]*3+[2]*3)
    G['GaussianNB'] = ('GaussianNB', {}, emlearn.convert(E['GaussianNB']))
    for n, kw in (('DecisionTreeClassifier-impure', dict(method='loadable', leaf_bits=5)), ('MLPClassifier-binary', dict(method='loadable')), ('MLPClassifier-binary', dict(method='inline'))):
        G[n+''.join(f'-{v}' for v in kw.values())+'-b'] = (n, kw, emlearn.convert(E[n], **kw))
    return E, G


def program(E, G):
    code, tasks = [], []
    for k, (label, (en, kw, w)) in enumerate(G.items()):
        name = f'gen{k}'
        code.append(w.save(name=name))
        r = c18.reference(en, E[en])
        o = dict(kwargs=kw, method=kw.get('method'), return_type=kw.get('return_type', 'classifier'), dtype=kw.get('dtype'))
        b, no = c18.body(en, r, o, name, r['soft'].shape[1] if 'soft' in r else 0)
        if 'Neighbors' in en: b = b.replace(f'd[{len(c18.D)}]', 'd[5]').replace(f'd, {len(c18.D)}', 'd, 5')
        if 'outputs' in r and kw.get('method') == 'loadable' and 'Classifier' in en: b += f' {{ float zz_p[4] = {{ 0 }}; o[1] = eml_net_predict_proba(&{name}, f, 2, zz_p, {max(2, r["outputs"].shape[1])}); for (int i=0; i<4; i++) o[2+i] = zz_p[i]; }}'
        t = c18.ctype(r, o)
        code.append(f'static void t_gen{k}(int mc_s, int mc_in) {{ static const int mc_x[5][2] = {{ {{ 1, 8 }}, {{ 9, 2 }}, {{ 30, 40 }}, {{ 40, -30 }}, {{ -30, -25 }} }}; {t} f[2] = {{ ({t})mc_x[mc_in][0], ({t})mc_x[mc_in][1] }}; double *o = mc_out[mc_s]; {b} }}')
        # networks keep their activations in the model, or in buffers of the generated function: one user at a time
        tasks.append((f'gen{k}', 't_gen%d' % k, k+1 if 'outputs' in r else 0, label))
    return code, tasks


def run(c):
    warnings.simplefilter('ignore')
    d = c.dir('work')
    ccache.install(c)
    E, G = models()
    code, gen = program(E, G)
    extra = [(f'{n}', f't_{n}', 0, n) for n in HTASKS + ['csv_read', 'fixedpoint']]
    tasks = gen + extra
    heads = ''.join(f'#include <{h}>\n' for h in ('eml_trees.h', 'eml_net.h', 'eml_bayes.h', 'eml_distance.h', 'eml_mixture.h', 'eml_neighbors.h', 'eml_fft.h', 'eml_iir.h', 'eml_audio.h', 'eml_quantizer.h', 'eml_array.h', 'eml_vector.h', 'eml_csv.h', 'eml_fixedpoint.h', 'eml_benchmark.h'))
    table = 'const mc_task mc_tasks[] = {\n' + ',\n'.join('{ "%s", %d, %s, %s }' % (label, ex, 's_csv_read' if n == 'csv_read' else 'begin', fn) for n, fn, ex, label in tasks) + '\n};\n'
    cbuild.write(os.path.join(d, 'tasks.h'), HEAD + f'#define MC_TASKS {len(tasks)}\n')
    src = cbuild.write(os.path.join(d, 'tasks.c'), '#include "tasks.h"\n#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <math.h>\n' + heads + CALLS + '\n'.join(code) + '\n' + table)
    sched = cbuild.write(os.path.join(d, 'sched.c'), SCHED)
    outs = []
    parts = 32
    def work(a):
        exe, i, mode = a
        try:
            return subprocess.run([exe, str(i), str(parts), *map(str, mode)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=cbuild.remaining(20000))
        except subprocess.TimeoutExpired:
            return None
    # optimised, every basic block and access; not optimised (no value is kept in a register across accesses), only accesses that the other call could see
    for kind, flags, mode in (('all', ['-O1', '-fsanitize-coverage=bb,trace-pc,trace-loads,trace-stores'], (c.pick(40000, 10**9), c.pick(0, 3*10**6), 0)),
                              ('reduced', ['-O0', '-fsanitize-coverage=func,trace-pc,trace-loads,trace-stores'], (c.pick(10**5, 10**9), c.pick(4*10**4, 10**7), 1))):
        exe, obj = os.path.join(d, 'reent-'+kind), f'{src}.{kind}.o'
        p = subprocess.run(['clang', '-std=c99', '-D_GNU_SOURCE', '-w', *flags, '-I', INCLUDE, '-I', d, '-c', src, '-o', obj], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            c.violation('does-not-compile', what='\n'.join(l for l in p.stdout.splitlines() if 'error' in l)[:2000]); return
        p = subprocess.run(['gcc', '-O2', '-w', '-I', d, sched, obj, '-o', exe, '-lm'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode: raise Harness(p.stdout[-2000:])
        with ThreadPoolExecutor(8) as ex:
            outs += list(ex.map(work, [(exe, i, mode) for i in range(parts)]))
        c.log(kind)
    totals = numpy.zeros(6, int)
    for i, p in enumerate(outs):
        if p is None: c.violation('hang', part=i); continue
        lines = p.stdout.splitlines()
        for l in lines:
            if l.startswith('TASK'): c.log(l)
        if p.returncode:
            bad = [j for j, l in enumerate(lines) if l.startswith('FAIL')]
            if not bad: c.violation(f'fails-{p.returncode}', part=i, stderr=p.stderr[-1500:]); continue
            w = lines[bad[0]].split()
            c.violation(':'.join(w[1:3]+w[4:5]).rstrip(';'), what=' | '.join(lines[bad[0]:bad[0]+2]))
            continue
        k = numpy.array([int(x) for x in lines[-1].split()[1:]])
        totals += k
        c.count('schedules-all' if i < parts else 'schedules-reduced', int(k[0]))
    c.states += int(totals[0]); c.traces += int(totals[0]); c.transitions += int(totals[1])
    for k, v in zip(('one-preemption', 'two-preemptions', 'three-preemptions', 'pairs-only-one-preemption'), totals[2:]): c.count(k, int(v))
    c.sample(calls=[label for _, _, _, label in tasks], inputs=5)
    c.bound(calls=len(tasks), inputs='5 for a call with itself, 3 otherwise', preemptions=c.pick('1 for every pair, 2 for pairs of one call and pairs of few points, 3 for pairs of few points that both calls can see', '2 for every pair, 3 for pairs of few points'))
    c.assume('each call has its own buffers, outputs and mutable model; the same network is not used twice at once, because its activations belong to the model', 'code in libc and libm runs without preemption', 'sequentially consistent memory; one processor')
