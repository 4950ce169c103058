"""C33 headers: every header alone, twice and before every other in every language mode; every combination of logging, trace and debug options with the same
answers from every kind of model and function; every log entry parsed; every error code."""
import itertools, os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
import numpy
from mc import batch, cbuild, drive
from mc.core import INCLUDE

STRICT = ['-w', '-Werror=implicit-function-declaration', '-Werror=implicit-int', '-Werror=int-conversion', '-Werror=incompatible-pointer-types', '-Werror=return-type']


def headers():
    return sorted(f for f in os.listdir(INCLUDE) if re.fullmatch(r'eml_\w+\.h', f) and f != 'eml_test.h')


def compile_text(a):
    key, text, cc, std, extra = a
    lang = 'c++' if '++' in std else 'c'
    flags = [f for f in STRICT if lang == 'c' or f in ('-w', '-Werror=return-type')]
    p = subprocess.run([cc, '-x', lang, '-std='+std, *flags, *extra, '-I', INCLUDE, '-'] + (['-x', 'none', '-lm'] if '-o' in extra else ['-fsyntax-only']), input=text, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=120)
    return key, p.returncode == 0 and 'redefined' not in p.stdout, p.stdout[:1500], text


def inc(*hs): return ''.join(f'#include <{h}>\n' for h in hs)


def combinations(c):
    H = headers()
    c.count('headers', len(H))
    if len(H) < 15: c.violation('headers:missing', found=H)
    jobs = []
    stds = [('gcc', 'c99'), ('gcc', 'gnu99'), ('gcc', 'c11'), ('gcc', 'gnu17'), ('g++', 'c++11'), ('g++', 'gnu++17'), ('clang', 'c99'), ('clang++', 'c++14')]
    for h in H:
        for cc, std in stds:
            jobs.append((f'alone:{h}:{std}', inc(h), cc, std, []))
            jobs.append((f'twice:{h}:{std}', inc(h, h), cc, std, []))
            # every function of the header refers only to what it can link with
            jobs.append((f'link:{h}:{std}', inc(h)+'int main(void) { return 0; }\n', cc, std, ['-O0', '-fno-inline', '-o', os.path.join(c.scratch, f'l{len(jobs)}')] + (['-fkeep-static-functions', '-fkeep-inline-functions'] if cc.startswith('g') else [])))
    for a, b in itertools.permutations(H, 2):
        jobs.append((f'pair:{a}:{b}:c99', inc(a, b), 'gcc', 'c99', []))
        jobs.append((f'pair:{a}:{b}:c++11', inc(a, b), 'g++', 'c++11', []))
        if not c.quick:
            jobs.append((f'pair:{a}:{b}:again', inc(a, b, a), 'clang', 'c11', []))
    if not c.quick:
        for t in itertools.permutations(H, 3):
            jobs.append((f'triple:{":".join(t)}', inc(*t), 'gcc', 'c99', []))
    for k in range(len(H)):
        for order in (H[k:]+H[:k], (H[k:]+H[:k])[::-1], H[k:]+H[:k]+H):
            for cc, std in stds[:2]+stds[4:5]:
                jobs.append((f'all:{k}:{std}', inc(*order), cc, std, []))
    # options, defined on the command line or before the header
    opts = [['-DEML_LOG_ENABLE=0', '-DEML_LOG_ENABLE=1', None], ['-DEML_DEBUG', None], ['-DEML_NEIGHBORS_LOG_LEVEL=%d' % i for i in (0, 1, 2, 3)], ['-DEML_TREES_TRACE=0', '-DEML_TREES_TRACE=1']]
    for o in itertools.product(*opts):
        o = [x for x in o if x]
        for h in (H if not c.quick else [h for h in H if re.search('trees|neighbors|array|net|mixture|audio|csv|common|log', h)]):
            for cc, std in (('gcc', 'c99'), ('g++', 'c++11')):
                jobs.append((f'options:{h}:{"".join(o)}:{std}', inc(h)+'int main(void) { return 0; }\n', cc, std, o))
    with ThreadPoolExecutor(8) as ex:
        for key, ok, out, text in ex.map(compile_text, jobs, chunksize=16):
            c.states += 1; c.transitions += text.count('#include')
            if not ok: c.violation(key if not key.startswith(('pair', 'triple', 'options')) else ':'.join(key.split(':')[:2]), what=key, text=text, compiler=out)
    c.count('translation-units', len(jobs))


CONFIGS = [[], ['-DEML_DEBUG'], ['-DEML_LOG_ENABLE=1'], ['-DEML_LOG_ENABLE=1', '-DEML_TREES_TRACE=1'], ['-DEML_TREES_TRACE=1'], ['-DEML_NEIGHBORS_LOG_LEVEL=3'],
           ['-DEML_LOG_ENABLE=1', '-DEML_NEIGHBORS_LOG_LEVEL=1'], ['-DEML_LOG_ENABLE=1', '-DEML_NEIGHBORS_LOG_LEVEL=2'], ['-DEML_LOG_ENABLE=1', '-DEML_NEIGHBORS_LOG_LEVEL=3'],
           ['-DEML_LOG_ENABLE=1', '-DEML_DEBUG', '-DEML_NEIGHBORS_LOG_LEVEL=3', '-DEML_TREES_TRACE=1'], ['-DUSER_LOG', '-DEML_LOG_ENABLE=1', '-DEML_NEIGHBORS_LOG_LEVEL=3', '-DEML_TREES_TRACE=1', '-DEML_DEBUG'],
           ['-DEML_LOG_ENABLE=0', '-DUSER_LOG', '-DEML_NEIGHBORS_LOG_LEVEL=3', '-DEML_TREES_TRACE=1']]
USER = '#ifdef USER_LOG\n#include <stdio.h>\n#include <stdarg.h>\nstatic int user_log(const char *f, ...) { va_list a; va_start(a, f); int n = vfprintf(stderr, f, a); va_end(a); return n; }\n%s\n#endif\n'
# a user's own printf is given together with enabling the log
USER = USER % '#if EML_LOG_ENABLE\n#define EML_LOG_PRINTF(...) user_log(__VA_ARGS__)\n#endif'


def models(c):
    """every kind of converted model gives the same answers under every configuration"""
    import emlearn
    from checks import c18
    E = c18.estimators()
    jobs = []
    for name, m in sorted(E.items()):
        r = c18.reference(name, m)
        k = r['kind']
        if k in c18.TREES: os_ = [dict(method=me, kwargs=dict(kw), dtype='int16_t', return_type='classifier') for me in ('inline', 'loadable') for kw in ([dict()] if 'Regressor' in k else [dict(leaf_bits=0), dict(leaf_bits=4)])]
        elif 'outputs' in r: os_ = [dict(method='loadable', kwargs={}, dtype='float', return_type='regressor' if 'Regressor' in k and r['outputs'].shape[1] == 1 else 'classifier')]
        elif k in ('KNeighborsClassifier', 'GaussianNB'): os_ = [dict(method=None, kwargs={}, dtype='float', return_type='classifier')]
        else: os_ = [dict(method='inline', kwargs={}, dtype='float', return_type='classifier')]
        for o in os_:
            if k in c18.TREES and 'Regressor' in k and o['method'] == 'loadable': continue
            w = emlearn.convert(m, method=o['method'], dtype=o['dtype'] if k in c18.TREES else None, return_type=o['return_type'], **o['kwargs']) if o['method'] else emlearn.convert(m)
            n = f'm{len(jobs)}'
            nc = r['soft'].shape[1] if 'soft' in r else 0
            body, no = c18.body(name, r, o, n, nc)
            jobs.append(batch.Job(w.save(name=n), body, 2, no, c18.X[::c.pick(3, 1)], c18.ctype(r, o), tag=(name, o)))
    head = inc('eml_trees.h', 'eml_net.h', 'eml_bayes.h', 'eml_distance.h', 'eml_mixture.h', 'eml_neighbors.h', 'eml_log.h')
    base = None
    flags = ['-O0', '-g', '-fsanitize=address,undefined', '-fno-sanitize=shift', '-fno-sanitize-recover=all']
    def one(a):
        i, (cfg, env) = a
        old = dict(cbuild.ENV)
        return batch.run_jobs(c, jobs, chunk=100, head=USER+head, flags=flags, label=f'models{i}', extra=cfg)
    runs = [(cfg, {}) for cfg in CONFIGS]
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, enumerate(runs)))
    cbuild.ENV['EML_DEBUG_LOG'] = '1'
    try:
        more = [(cfg, dict(EML_DEBUG_LOG='1')) for cfg in (CONFIGS[1], CONFIGS[9])]
        res += [one((100+i, a)) for i, a in enumerate(more)]
    finally:
        del cbuild.ENV['EML_DEBUG_LOG']
    for (cfg, env), r in zip(runs+more, res):
        for j, a, b in zip(jobs, res[0], r):
            c.states += 1; c.transitions += len(a); c.traces += len(a)
            if not numpy.array_equal(a, b, equal_nan=True): c.violation(f'answers:{j.tag[0]}', model=str(j.tag), options=cfg, environment=env, plain=a[:5], got=b[:5])
    c.count('configurations', len(runs+more))
    c.count('models', len(jobs))


FUNCTIONS = r'''
/* every precondition of the functions that do not belong to a generated model, one at a time */
#ifdef EML_DEBUG
static int hook_calls; static EmlError hook_code;
static void hook(EmlError code, const char *file, int line) { hook_calls++; hook_code = code; if (!file || line <= 0) mc_fail("hook", "no place"); }
#endif
static void report(const char *what, EmlError e) {
    mc_states++; mc_transitions++; mc_traces++;
    printf("R %s %d\n", what, (int)e);
#ifdef EML_DEBUG
    if (eml_debug == hook) {
        if (e == EmlOk && hook_calls) mc_fail("hook", "%s succeeded but an error was reported", what);
        if (hook_calls && hook_code != e) mc_fail("hook", "%s returned %d but %d was reported", what, (int)e, (int)hook_code);
        hook_calls = 0;
    }
#endif
}
#define R(expr) report(#expr, (expr))
/* functions that answer otherwise than with an EmlError: a reported error has to be a valid one */
static int other(int v) {
#ifdef EML_DEBUG
    if (eml_debug == hook && hook_calls && (!eml_error_valid(hook_code) || hook_code == EmlOk)) mc_fail("hook", "%d was reported", (int)hook_code);
    hook_calls = 0;
#endif
    return v;
}
static int io_read(void *p, uint8_t *b, size_t n) { const char **s = (const char **)p; size_t k = strlen(*s) < n ? strlen(*s) : n; memcpy(b, *s, k); *s += k; return (int)k; }
static int io_seek(void *p, size_t at) { (void)p; (void)at; return 0; }
static int io_write(void *p, const uint8_t *b, size_t n) { printf("W %.*s|\n", (int)n, (const char *)b); return (int)n; }
static void all(void) {
    /* arrays */
    for (int cols=-1; cols<=3; cols++) for (int rows=-1; rows<=3; rows++) for (int vs=1; vs<=4; vs*=2) for (int sz=0; sz<=18; sz+=6) {
        int16_t buf[24]; memset(buf, 0, sizeof(buf));
        EmlArray a; int32_t dims[2]; dims[0] = cols; dims[1] = rows;
        EmlError e = eml_array_init_full(&a, 2, dims, (int8_t)vs, (uint8_t *)buf, sz);
        R(e);
        if (e != EmlOk) continue;
        float sum = -1; R(eml_array_fill(&a, 7)); R(eml_array_sum(&a, &sum)); printf("V %g\n", sum);
        for (int s=-4; s<=4; s++) R(eml_array_shift_rows(&a, s));
        for (int s=-1; s<=3; s++) R(eml_array_copy_rows(&a, s, &a));
        R(eml_array_append(&a, &a));
        for (int i=0; i<24; i++) printf("%d ", buf[i]);
        printf("\n");
    }
    /* transforms */
    for (int len=0; len<=9; len++) for (int n=0; n<=16; n++) {
        float sn[16], cs[16], re[16], im[16];
        for (int i=0; i<16; i++) { re[i] = (float)(i*i%7); im[i] = 0; sn[i] = cs[i] = 0; }
        EmlFFT t; t.length = len; t.sin = sn; t.cos = cs;
        R(eml_fft_fill(t, n)); R(eml_fft_forward(t, re, im, n));
        for (int i=0; i<16; i++) printf("%.5g/%.5g ", re[i], im[i]);
        printf("\n");
    }
    /* filters */
    for (int n=-1; n<=3; n++) for (int sl=0; sl<=12; sl+=4) for (int cl=0; cl<=18; cl+=6) for (int nul=0; nul<4; nul++) {
        static const float co[18] = { 1, 0.5f, 0.25f, 1, -0.5f, 0.125f, 1, 0, 0, 1, 0, 0, 0.5f, 0, 0, 1, 0.25f, 0 };
        float st[12]; memset(st, 0, sizeof(st));
        EmlIIR f; f.n_stages = n; f.states = nul & 1 ? NULL : st; f.states_length = sl; f.coefficients = nul & 2 ? NULL : co; f.coefficients_length = cl;
        EmlError e = eml_iir_check(f); R(e);
        if (e == EmlOk) for (int i=0; i<5; i++) printf("V %.7g\n", eml_iir_filter(f, (float)(i%3)));
    }
    /* quantizer */
    for (int n=0; n<=3; n++) for (int o=0; o<=3; o++) {
        float v[3] = { 1.5f, -70000.0f, 70000.0f }, back[3] = { 0, 0, 0 }; int16_t q[3] = { 0, 0, 0 }; int u = -1, ov = -1;
        EmlQuantizer qz; qz.scale = 10;
        R(eml_quantizer_check_forward_int16(&qz, v, n, q, o, &u, &ov)); R(eml_quantizer_forward_int16(&qz, v, n, q, o)); R(eml_quantizer_inverse_int16(&qz, q, n, back, o));
        printf("V %d %d %d %d %d %g %g %g\n", u, ov, q[0], q[1], q[2], back[0], back[1], back[2]);
    }
    /* vectors and spectra */
    for (int a=0; a<=4; a++) for (int b=0; b<=4; b++) for (int at=-1; at<=4; at++) {
        float x[4] = { 0, 0, 0, 0 }, y[4] = { 1, 2, 3, 4 };
        EmlVector X = { x, (size_t)a }, Y = { y, (size_t)b };
        printf("V %d\n", other(eml_vector_set(X, Y, at))); printf("V %g %g %g %g\n", x[0], x[1], x[2], x[3]);
        if (at > 0) { EmlAudioMel mel; mel.n_mels = at; mel.fmin = 0; mel.fmax = 4000; mel.n_fft = 8; mel.samplerate = 8000;
            EmlVector S = { y, (size_t)b }; R(eml_audio_melspec(mel, S, X)); printf("V %.6g %.6g %.6g %.6g\n", x[0], x[1], x[2], x[3]); }
    }
    /* tables */
    static const char *const texts[] = { "a,b\n1.5,2\n3,4\n", "a\n1\n", "a,b,c\n1,2,3\n", "", "a,b\n1\n", "a,b", "a,b\nx,1e3\n", ",\n,\n" };
    for (int t=0; t<8; t++) for (int len=1; len<=20; len+=3) for (int cols=1; cols<=3; cols++) {
        const char *s = texts[t]; char buf[20]; char *names[3] = { NULL, NULL, NULL }; EmlCsvReader r; memset(&r, 0, sizeof(r)); r.read = io_read; r.seek = io_seek; r.stream = &s;
        printf("V %d\n", other((int)eml_csv_reader_read_header(&r, buf, (size_t)len, names, (size_t)cols)));
        char *fields[3] = { NULL, NULL, NULL };
        int got = other((int)eml_csv_reader_read_data(&r, buf, (size_t)len, fields, (size_t)cols));
        printf("V %d", got); for (int i=0; i<got && i<3; i++) printf(" %s", fields[i]); printf("\n");
        mc_transitions += 2;
    }
    for (int n=0; n<=3; n++) for (int m=0; m<=3; m++) {
        static const char *names[3] = { "x", "yy", "z" }; static const float v[3] = { 1, -2.5f, 1e6f };
        EmlCsvWriter w; memset(&w, 0, sizeof(w)); w.write = io_write; w.seek = io_seek;
        R(eml_csv_writer_write_header(&w, names, (size_t)n)); R(eml_csv_writer_write_data(&w, v, (size_t)m));
    }
    /* neighbours */
    for (int mx=0; mx<=3; mx++) for (int k=0; k<=3; k++) for (int nd=0; nd<=3; nd++) {
        int16_t data[6], labels[3], q[2] = { 1, 2 }, out = -7; EmlNeighborsDistanceItem d[3]; memset(d, 0, sizeof(d)); memset(data, 0, sizeof(data)); memset(labels, 0, sizeof(labels));
        EmlNeighborsModel m; m.n_features = 2; m.n_items = 0; m.max_items = (int16_t)mx; m.data = data; m.labels = labels; m.k_neighbors = (int16_t)k;
        R(eml_neighbors_check(&m, 6, 3, (int16_t)nd));
        for (int i=0; i<4; i++) { int16_t it[2]; it[0] = (int16_t)(i*3); it[1] = (int16_t)(5-i); R(eml_neighbors_add_item(&m, it, (int16_t)(i == 1 ? 1 : 2), (int16_t)(i%2))); }
        EmlError e = eml_neighbors_predict(&m, q, 2, d, nd, &out); R(e); printf("V %d\n", out);
        out = -7; R(eml_neighbors_predict(&m, q, 1, d, nd, &out)); printf("V %d\n", out);
    }
    /* a tree of its own: answers and refusals */
    for (int nf=1; nf<=3; nf++) for (int bits=0; bits<=32; bits += bits == 0 ? 4 : bits == 4 ? 4 : 24) for (int x=-2; x<=2; x++) {
        static uint8_t leaves[12] = { 1, 0, 0, 0, 0, 0, 128, 63, 9, 9, 9, 9 };
        EmlTreesNode nodes[1]; nodes[0].feature = 0; nodes[0].value = 0; nodes[0].left = -1; nodes[0].right = -2;
        int32_t roots[1] = { 0 }; EmlTrees t; t.n_nodes = 1; t.nodes = nodes; t.n_trees = 1; t.tree_roots = roots; t.n_leaves = 12; t.leaves = leaves; t.leaf_bits = (int8_t)bits; t.n_features = 2; t.n_classes = 2;
        int16_t f[3] = { (int16_t)x, 0, 0 }; float p[3] = { -1, -1, -1 };
        int32_t cls = bits < 32 ? other(eml_trees_predict(&t, f, nf)) : -9;
        printf("V %d\n", (int)cls);
        if (bits < 32) { R(eml_trees_predict_proba(&t, f, nf, p, 2)); R(eml_trees_predict_proba(&t, f, nf, p, 1)); }
        printf("V %g %g\n", p[0], p[1]);
        float o[1] = { -1 }; R(eml_trees_regress(&t, f, nf, o, 1)); R(eml_trees_regress(&t, f, nf, o, 0)); printf("V %g\n", o[0]);
    }
}
int main(void) {
#ifdef EML_DEBUG
    eml_debug = HOOK;
#endif
    all();
    return mc_end();
}
'''


def functions(c):
    pre = inc('eml_array.h', 'eml_audio.h', 'eml_fft.h', 'eml_iir.h', 'eml_quantizer.h', 'eml_csv.h', 'eml_neighbors.h', 'eml_trees.h', 'eml_vector.h')
    variants = [(cfg, cc) for cfg in CONFIGS for cc in ('gcc', 'g++')]
    variants = [(cfg + (['-DHOOK='+h] if '-DEML_DEBUG' in cfg else []), cc) for cfg, cc in variants for h in (('hook', 'NULL', 'eml_debug_stderr') if '-DEML_DEBUG' in cfg else ('',))]
    d = c.dir('functions')
    def one(a):
        i, (cfg, cc) = a
        src = cbuild.write(os.path.join(d, f'f{i}.c' if cc == 'gcc' else f'f{i}.cpp'), drive.PRELUDE + USER + pre + FUNCTIONS)
        base = ['-std='+('c99' if cc == 'gcc' else 'c++11'), '-D_GNU_SOURCE', '-w', '-I', INCLUDE]
        exe = cbuild.compile_c([src], src+'.exe', flags=['-O0', '-g', '-fsanitize=address,undefined', '-fno-sanitize=shift', '-fno-sanitize-recover=all'], extra=cfg, cc=cc, key='functions:compile', base=base)
        return [cbuild.run_exe(exe, key='functions:crash', env=env) for env in ([{}] if '-DEML_DEBUG' not in cfg else [{}, dict(EML_DEBUG_LOG='1')])]
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, enumerate(variants)))
    ref = None
    names = {}
    for (cfg, cc), ps in zip(variants, res):
        for k, p in enumerate(ps):
            out = [l for l in p.stdout.decode('latin1').split('\n') if l[:2] not in ('N ', 'F ')]
            drive.parse(c, p, 'functions')
            if ref is None: ref = out
            if out != ref:
                i = next((i for i, (a, b) in enumerate(zip(out, ref)) if a != b), min(len(out), len(ref)))
                c.violation('functions:answers', options=cfg, compiler=cc, plain=ref[i-1:i+2], got=out[i-1:i+2], line=i)
            err = p.stderr.decode('latin1')
            # the debug hook says which error happened where
            told = re.findall(r'^EmlError (.*) at (.*):(\d+) *$', err, re.M)
            if ('-DHOOK=eml_debug_stderr' in cfg and k == 1) != bool(told): c.violation('functions:debug-log', options=cfg, environment=k, lines=len(told))
            if told:
                codes = [int(l.rsplit(' ', 1)[1]) for l in out if l.startswith('R ')]
                kinds = {n for n, f, _ in told}
                for n, f, line in told:
                    if not os.path.basename(f).startswith('eml_'): c.violation('functions:debug-log:place', place=f)
                c.count('reported-errors', len(told))
                names['told'] = kinds
            log = [l for l in err.split('\n') if l and not l.startswith('EmlError ')]
            if '-DEML_LOG_ENABLE=1' not in cfg:
                if log: c.violation('log:unasked', options=cfg, lines=log[:5])
                continue
            check_log(c, log, cfg)


ENTRY = re.compile(r'[A-Za-z_][A-Za-z0-9_\-]*( [A-Za-z_][A-Za-z0-9_\-]*=\S+)* *')


def check_log(c, lines, cfg):
    """every entry is an event name followed by key=value pairs, and the values are the ones computed"""
    c.count('log-entries', len(lines))
    for l in lines:
        c.states += 1
        if not ENTRY.fullmatch(l): c.violation('log:format', line=l, options=cfg); return
    level = max([0] + [int(f[-1]) for f in cfg if 'LOG_LEVEL' in f])
    trace = '-DEML_TREES_TRACE=1' in cfg
    events = {l.split(' ')[0] for l in lines}
    for want, on in (('neighbors', level > 1), ('tree-iter', trace), ('trees-predict-end', True)):
        if any(want in e for e in events) != on: c.violation('log:events', wanted=want, enabled=on, events=sorted(events), options=cfg)


MACROS = r'''
#include <eml_log.h>
int main(void) {
    static const char *const strings[] = { "a", "value", "0", "%d", "%s%n" };
    static const int ints[] = { 0, 1, -1, 2147483647, -2147483647-1, 42 };
    static const float floats[] = { 0, 1.5f, -2.25f, 1e6f, 0.125f };
    int a[5] = { 1, -2, 3, 400, 5 }; float f[3] = { 1.5f, 2, -3 };
    for (int s=0; s<5; s++) for (int i=0; i<6; i++) for (int x=0; x<5; x++) for (int b=0; b<3; b++) {
        printf("E my-event s=%s i=%d b=%s f=%.4f\n", strings[s], ints[i], b ? "true" : "false", floats[x]);
        EML_LOG_BEGIN("my-event"); EML_LOG_ADD("s", strings[s]); EML_LOG_ADD_INTEGER("i", ints[i]); EML_LOG_ADD_BOOL("b", b); EML_LOG_ADD_FLOAT("f", floats[x]); EML_LOG_END();
        mc_states++; mc_transitions += 6; mc_traces++;
    }
    for (int n=0; n<=5; n++) {
        printf("E arrays one=["); for (int i=0; i<n; i++) printf("%s%d", i ? "," : "", a[i]); printf("] two=["); for (int i=0; i<n && i<3; i++) printf("%s%.2f", i ? "," : "", f[i]); printf("] last=%d\n", n);
        if (n) EML_LOG_BEGIN("arrays"); else EML_LOG_BEGIN("arrays");
        EML_LOG_ADD_ARRAY("one", a, n, "%d"); EML_LOG_ADD_ARRAY("two", f, (n < 3 ? n : 3), "%.2f"); EML_LOG_ADD_INTEGER("last", n); EML_LOG_END();
        mc_states++; mc_transitions += 4; mc_traces++;
    }
    /* what is logged is an expression */
    int k = 3; printf("E expressions b=true b=false i=7 last=4\n");
    EML_LOG_BEGIN("expressions"); EML_LOG_ADD_BOOL("b", k > 2 || k < 0); EML_LOG_ADD_BOOL("b", k == 2); EML_LOG_ADD_INTEGER("i", k+4); EML_LOG_ADD_INTEGER("last", k > 3 ? 5 : 4); EML_LOG_END();
    if (k) EML_LOG_END(); else EML_LOG_BEGIN("never");
    printf("E \n");
    return mc_end();
}
'''


def macros(c):
    """the logging macros as a user of the library calls them"""
    d = c.dir('macros')
    for cc, cfg in itertools.product(('gcc', 'g++', 'clang'), (['-DEML_LOG_ENABLE=1'], ['-DEML_LOG_ENABLE=1', '-DUSER_LOG'], [], ['-DEML_LOG_ENABLE=0'])):
        src = cbuild.write(os.path.join(d, 'm.c' if cc != 'g++' else 'm.cpp'), drive.PRELUDE + USER + MACROS)
        exe = cbuild.compile_c([src], src+'.exe', flags=['-O0', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=all'], extra=cfg, cc=cc, key='macros:compile', base=['-std='+('c++11' if cc == 'g++' else 'c99'), '-w', '-I', INCLUDE])
        p = cbuild.run_exe(exe, key='macros:crash')
        want = [l[2:] for l in drive.parse(c, p, 'macros') if l.startswith('E ')]
        got = p.stderr.decode('latin1').split('\n')[:-1]
        if not cfg or cfg == ['-DEML_LOG_ENABLE=0']: want = []
        if got != want:
            i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
            c.violation('macros:entries', options=cfg, compiler=cc, line=i, got=got[i:i+1], expected=want[i:i+1])


ERRORS = r'''
int main(void) {
    static const struct { int code; const char *name; } known[] = { { EmlOk, "ok" }, { EmlSizeMismatch, "sizemismatch" }, { EmlUnsupported, "unsupported" }, { EmlUninitialized, "uninitialized" }, { EmlPostconditionFailed, "postcondition" }, { EmlUnknownError, "unknown" } };
    for (int i=0; i<6; i++) { mc_states++; printf("K %d %s|%s\n", known[i].code, known[i].name, eml_error_str((EmlError)known[i].code)); }
    for (int e=-300; e<=300; e++) { mc_states++; mc_transitions++; mc_traces++; printf("C %d %d|%s\n", e, eml_error_valid((EmlError)e) ? 1 : 0, eml_error_str((EmlError)e)); }
    static const int far[] = { 2147483647, -2147483647-1, 65536, 65542, 1 << 30, -65536, 256+1, 65536+2 };
    for (int i=0; i<8; i++) { mc_states++; mc_transitions++; mc_traces++; printf("C %d %d|%s\n", far[i], eml_error_valid((EmlError)far[i]) ? 1 : 0, eml_error_str((EmlError)far[i])); }
    printf("L %d\n", (int)EmlErrors);
    static const struct { int code; const char *name; } trees[] = { { EmlTreesOK, "ok" }, { EmlTreesUnknownError, "unknown" }, { EmlTreesInvalidClassPredicted, "invalidclass" }, { EmlTreesErrorLength, "length" } };
    for (int i=0; i<4; i++) { mc_states++; mc_transitions++; mc_traces++; printf("T %d %s|%s\n", trees[i].code, trees[i].name, eml_trees_errors[trees[i].code]); }
    return mc_end();
}
'''


def errors(c):
    norm = lambda s: re.sub('[^a-z0-9]', '', s.lower())
    for cc, ext, cfg in (('gcc', '.c', []), ('g++', '.cpp', []), ('gcc', '.c', ['-DEML_DEBUG', '-DEML_LOG_ENABLE=1']), ('clang', '.c', [])):
        lines = drive.drive(c, 'errors'+cc.replace('+', 'p')+str(len(cfg)), inc('eml_common.h', 'eml_trees.h')+ERRORS, cc=cc, ext=ext, extra=cfg, flags=['-O1', '-g', '-fsanitize=address'] if ext == '.cpp' else cbuild.ASAN, base=cbuild.BASE if ext == '.c' else ['-std=c++11', '-w', '-I', INCLUDE], key='errors')
        known, trees = {}, {}
        for l in lines:
            if l[0] in 'KT':
                (code, name), s = l[2:].split('|')[0].split(' '), l.split('|', 1)[1]
                (known if l[0] == 'K' else trees)[int(code)] = s
                if name not in norm(s): c.violation(f'errors:{name}', code=code, described_as=s)
        for d in (known, trees):
            if len(set(d.values())) != len(d): c.violation('errors:shared', descriptions=d)
        count = next(int(l[2:]) for l in lines if l.startswith('L '))
        for l in lines:
            if not l.startswith('C '): continue
            code, valid = map(int, l[2:].split('|')[0].split(' ')); s = l.split('|', 1)[1]
            real = code in known
            if bool(valid) != real and not (0 <= code < count): c.violation('errors:valid', code=code, valid=valid)
            if real and s != known[code]: c.violation('errors:string', code=code, got=s)
            if not real and not (0 <= code < count) and (s in known.values() or s == '(null)' or not s): c.violation('errors:invalid', code=code, got=s)


FATAL = r'''
#include <sys/wait.h>
#include <unistd.h>
#define MODE_CALLS 6
static int mode_call(int k, int bad) {
    /* calls that are refused (bad) or accepted, also negative status and errors passed on from a function that is called inside */
    static float x[8], y[8], back[8]; static int16_t q[8]; int u, o; EmlQuantizer qz; qz.scale = 1; float st[4], co[6] = { 1, 0, 0, 1, 0, 0 };
    switch (k) {
    case 0: return (int)eml_quantizer_forward_int16(&qz, x, 4, q, bad ? 5 : 4);
    case 1: return (int)eml_quantizer_check_forward_int16(&qz, x, 4, q, bad ? 3 : 4, &u, &o);
    case 2: { EmlIIR f; f.n_stages = 1; f.states = st; f.states_length = bad ? 3 : 4; f.coefficients = co; f.coefficients_length = 6; return (int)eml_iir_check(f); }
    case 3: { EmlVector a = { x, 4 }, b = { y, bad ? 3 : 4 }; return (int)eml_audio_power_spectrogram(a, b, 6); }
    case 4: { float sn[4], cs[4]; EmlFFT t = { 4, sn, cs }; EmlError e = eml_fft_fill(t, bad ? 10 : 8); return (int)e; }
    case 5: { float sn[4], cs[4]; EmlFFT t = { 4, sn, cs }; eml_fft_fill(t, 8); EmlAudioMel m = { 2, 0, 4000, 8, 8000 }; EmlVector io = { back, 8 }, tm = { y, bad ? 7 : 8 }; return (int)eml_audio_melspectrogram(m, t, io, tm); }
    }
    return 0;
}
static int count; static int last_code;
static void counting(EmlError code, const char *file, int line) { count++; last_code = (int)code; }
int main(void) {
    EmlDebugFunction standard = eml_debug;
    for (int env=0; env<4; env++) for (int hook=0; hook<3; hook++) for (int k=0; k<MODE_CALLS; k++) for (int before=0; before<3; before++) for (int bad=0; bad<2; bad++) {
        if (env & 1) setenv("EML_DEBUG_LOG", "1", 1); else unsetenv("EML_DEBUG_LOG");
        if (env & 2) setenv("EML_DEBUG_FATAL_ERRORS", before ? "1" : "", 1); else unsetenv("EML_DEBUG_FATAL_ERRORS");
        count = 0; eml_debug = counting; int r = mode_call(k, bad); int told = count;
        mc_states++; mc_transitions += 2; mc_traces++;
        if ((r != 0) != bad || (told != 0) != bad) mc_fail("hook", "call %d refused %d: status %d, %d reports", k, bad, r, told);
        if (bad && last_code != abs(r)) mc_fail("hook:code", "call %d: status %d reported as %d", k, r, last_code);
        int io[2]; if (pipe(io)) return 3;
        fflush(stdout); fflush(stderr);
        int pid = fork();
        if (!pid) {
            dup2(io[1], 2); close(io[0]); close(io[1]);
            eml_debug = hook == 0 ? standard : hook == 1 ? (EmlDebugFunction)NULL : counting;
            for (int i=0; i<before; i++) mode_call((k+i) % MODE_CALLS, 0);
            _exit(mode_call(k, bad) == r ? 0 : 1);
        }
        close(io[1]); char text[2000]; int n = 0, g; while (n < 1999 && (g = (int)read(io[0], text+n, 1999-n)) > 0) n += g; text[n] = 0; close(io[0]);
        int st = -1; waitpid(pid, &st, 0);
        const int stops = hook == 0 && (env & 2) && bad, logs = hook == 0 && (env & 1) && bad; int lines = 0; for (int i=0; i<n; i++) lines += text[i] == '\n';
        if (!WIFEXITED(st) || (WEXITSTATUS(st) != 0) != stops || (stops && WEXITSTATUS(st) == 1)) mc_fail("fatal", "call %d refused %d, environment %d, hook %d: ended with %x", k, bad, env, hook, st);
        if (logs ? lines != (stops ? 1 : told) : n != 0) mc_fail("reports", "call %d refused %d, environment %d, hook %d: %d lines for %d reports: %s", k, bad, env, hook, lines, told, text);
        if (logs && strncmp(text, "EmlError ", 9)) mc_fail("reports", "%s", text);
    }
    return mc_end();
}
'''


def fatal(c):
    '''with debugging on, every error is reported to the hook; the standard hook logs and stops when (and only when) the environment asks for it'''
    pre = inc('eml_quantizer.h', 'eml_iir.h', 'eml_audio.h')
    for cc, ext in (('gcc', '.c'), ('g++', '.cpp')):
        drive.drive(c, 'fatal'+ext[1:], pre+FATAL, cc=cc, ext=ext, extra=['-DEML_DEBUG'], flags=['-O1', '-g'], base=['-std='+('gnu99' if ext == '.c' else 'gnu++11'), '-w', '-I', INCLUDE], key='fatal')


def run(c):
    c.assume('eml_test.h belongs to the tests of the library and is not judged', 'one translation unit includes the headers, as the library asks for')
    errors(c)
    c.log('errors')
    combinations(c)
    c.log('combinations')
    functions(c)
    c.log('functions')
    fatal(c)
    models(c)
    macros(c)
    c.sample(headers=['eml_trees.h', 'eml_net.h'], std='c++11')
    c.sample(options=CONFIGS[9], model='RandomForestClassifier loadable')
    c.bound(header_orders='all ordered pairs' if c.quick else 'all ordered pairs and triples', configurations=len(CONFIGS))
