"""C37 several models in one program: every ordered pair of generators (and every pair of adversarial names for two models of one generator) in one C99 and one C++ program,
every call sequence of bounded depth, compared with the answers of each model compiled alone; programs with all models."""
import itertools, os, re, subprocess, warnings
from concurrent.futures import ThreadPoolExecutor
import numpy
from mc import batch, cbuild, ccache
from mc.core import INCLUDE, Harness
from checks import c18, c19

INPUTS = numpy.array([[0, 0], [4, 9], [10, 1], [6, 6]], float)
NAMES = [('m', 'm1'), ('m1', 'm'), ('model', 'model2'), ('a', 'A'), ('xy', 'x_y'), ('tree', 'trees'), ('n1', 'n11'), ('nodes', 'leaves'), ('mode', 'model'), ('_m', 'm'), ('m_', 'mm'), ('x'*63, 'x'*63+'y'), ('predict', 'predict2'),
         ('values', 'features'), ('data', 'length'), ('i', 'j'), ('out', 'err')]
MAIN = r'''
%(code)s
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
typedef void (*mc_fn)(const double *, double *);
%(wrappers)s
static const struct { mc_fn fn; int no; const char *name; } mc_models[] = { %(table)s };
#define MC_M ((int)(sizeof(mc_models)/sizeof(mc_models[0])))
static const double mc_inputs[][2] = { %(inputs)s };
#define MC_I ((int)(sizeof(mc_inputs)/sizeof(mc_inputs[0])))
static double mc_first[MC_M][MC_I][16];
static int mc_seen[MC_M*MC_I], mc_path[16];
static long mc_sequences, mc_calls;
static int mc_call(int s, int depth) {
    double o[16]; memset(o, 0, sizeof o);
    const int m = s / MC_I, i = s %% MC_I;
    mc_models[m].fn(mc_inputs[i], o); mc_calls++;
    if (!mc_seen[s]) { mc_seen[s] = 1; memcpy(mc_first[m][i], o, sizeof o); return 0; }
    if (memcmp(mc_first[m][i], o, sizeof(double)*(size_t)mc_models[m].no) == 0) return 0;
    printf("DIFFERS %%s input %%d: %%.9g, before %%.9g; calls", mc_models[m].name, i, o[0], mc_first[m][i][0]);
    for (int k=0; k<=depth; k++) printf(" %%s(%%d)", mc_models[mc_path[k]/MC_I].name, mc_path[k]%%MC_I);
    printf("\n");
    return 1;
}
static int mc_explore(int depth, int limit) {
    /* every sequence of `limit` calls, each run in full */
    if (depth == limit) { mc_sequences++; for (int k=0; k<limit; k++) if (mc_call(mc_path[k], k)) return 1; return 0; }
    for (int s=0; s<MC_M*MC_I; s++) { mc_path[depth] = s; if (mc_explore(depth+1, limit)) return 1; }
    return 0;
}
int main(int argc, char **argv) {
    (void)argc;
    if (mc_explore(0, atoi(argv[1]))) return 3;
    printf("COUNT %%ld %%ld\n", mc_sequences, mc_calls);
    for (int m=0; m<MC_M; m++) for (int i=0; i<MC_I; i++) for (int k=0; k<mc_models[m].no; k++) printf("%%.17g\n", mc_first[m][i][k]);
    return 0;
}
'''
CC = {'c99': ['gcc', '-std=c99', '-pedantic-errors', '-D_DEFAULT_SOURCE', '-O0', '-w', '-Werror=implicit-function-declaration', '-Werror=incompatible-pointer-types', '-x', 'c'],
      'c++': ['g++', '-std=c++11', '-O0', '-w', '-x', 'c++'],
      'asan': ['gcc', '-std=c99', '-O1', '-w', '-fsanitize=address,undefined', '-fno-sanitize=float-divide-by-zero,shift', '-fno-sanitize-recover=all', '-x', 'c']}


def models():
    """label -> (estimator name, options, converted model)"""
    import emlearn
    E, G = c19.generators()
    for n, kw in (('DecisionTreeClassifier-impure', dict(method='inline')), ('DecisionTreeClassifier-impure', dict(method='loadable', leaf_bits=5)), ('DecisionTreeRegressor', dict(method='inline', dtype='float')), ('ExtraTreesClassifier', dict(method='inline', dtype='uint8_t')),
                  ('ExtraTreesClassifier-impure', dict(method='loadable', leaf_bits=3)), ('ExtraTreesRegressor', dict(method='inline', dtype='int32_t')), ('MLPClassifier-binary', dict(method='loadable')), ('MLPClassifier-binary', dict(method='inline')),
                  ('GaussianMixture-tied', {}), ('BayesianGaussianMixture', {})):
        G[n+''.join(f'-{v}' for v in kw.values())+'-b'] = (n, kw, emlearn.convert(E[n], **kw))
    return E, G


def wrapper(label, name, k):
    en, kw, _ = G[label]
    r = REF[en]
    o = dict(kwargs=kw, method=kw.get('method'), return_type=kw.get('return_type', 'classifier'), dtype=kw.get('dtype'))
    b, no = c18.body(en, r, o, 'MODEL', r['soft'].shape[1] if 'soft' in r else 0)
    t = c18.ctype(r, o)
    text = re.sub(r'\b(f|o|p|q|s|d|i|out)\b', r'zz_\1', b).replace('MODEL', name)
    return f'static void mc_call_{k}(const double *zz_in, double *zz_o) {{ {t} zz_f[2]; zz_f[0] = ({t})zz_in[0]; zz_f[1] = ({t})zz_in[1]; {text} }}\n', no


def program(parts):
    """parts: [(label, name)]"""
    code, wr, table = [], [], []
    for k, (label, name) in enumerate(parts):
        code.append(CODE[label, name] if (label, name) in CODE else G[label][2].save(name=name))
        w, no = wrapper(label, name, k)
        wr.append(w); table.append('{mc_call_%d, %d, "%s"}' % (k, no, label))
    return MAIN % dict(code='\n'.join(code), wrappers=''.join(wr), table=', '.join(table), inputs=', '.join('{%g, %g}' % tuple(x) for x in INPUTS))


def number_of_outputs(label):
    return wrapper(label, 'x', 0)[1]


def one(a):
    """compile and run one program; returns (error key, detail, sequences, calls, answers)"""
    n, how, parts, depth = a
    src = cbuild.write(os.path.join(BASE, f'{n}.c'), program(parts))
    exe = src[:-2]+'.exe'
    p = subprocess.run([*CC[how], '-I', INCLUDE, src, '-o', exe, '-lm'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=600)
    if p.returncode:
        os.unlink(src)
        return 'does-not-compile', '\n'.join(l for l in p.stdout.splitlines() if 'error' in l)[:800] or p.stdout[:800], 0, 0, None
    try:
        p = subprocess.run([exe, str(depth)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=cbuild.remaining(300), env=cbuild.ENV)
    except subprocess.TimeoutExpired:
        return 'hangs', '', 0, 0, None
    finally:
        os.unlink(src); os.unlink(exe)
    if p.returncode:
        return ('changes' if p.returncode == 3 else f'fails-{p.returncode}'), (p.stdout[-600:]+p.stderr[:2500]), 0, 0, None
    lines = p.stdout.split()
    return None, None, int(lines[1]), int(lines[2]), [float(x) for x in lines[3:]]


def run(c):
    global G, REF, BASE, CODE
    warnings.simplefilter('ignore')
    BASE = c.dir('work')
    ccache.install(c)
    c.assume('names are legal, differ, and neither is the other followed by an underscore and more', 'one translation unit: library headers define functions that are not static', 'C++: generated code compiles with g++ -std=c++11')
    E, G = models()
    REF = {}
    for en, _, _ in G.values():
        if en not in REF: REF[en] = c18.reference(en, E[en])
    CODE = {}
    # each model alone
    alone = {}
    with ThreadPoolExecutor(8) as ex:
        for label, (e, det, s, t, ans) in zip(G, ex.map(one, [(f'alone{i}', 'c99', [(label, 'zzqx')], 1) for i, label in enumerate(G)])):
            c.states += s; c.transitions += t; c.traces += s
            if e: c.violation(f'alone:{e}:{label}', what=det)
            else: alone[label] = ans
    if c.violations: return
    # the alone answers are those of the source estimator (one more reference than the code itself): labels of two kinds are settled here, the rest by C18
    labels = list(G)
    jobs = []
    for i, (a, b) in enumerate(itertools.product(labels, repeat=2)):
        for q in range(c.pick(1, len(NAMES))):
            n1, n2 = NAMES[(i+q) % len(NAMES)]
            jobs.append(('c99', [(a, n1), (b, n2)], 3))
        if c.quick and (labels.index(a)+labels.index(b)) % 3 and a != b: continue
        n1, n2 = NAMES[(i+3) % len(NAMES)]
        jobs.append(('c++', [(a, n1), (b, n2)], 2))
    # two models of one generator under every pair of names, both orders
    for a in labels:
        b = next((x for x in labels if x != a and x.split('-')[0] == a.split('-')[0]), a)
        for n1, n2 in NAMES:
            jobs.append(('c99', [(a, n1), (a, n2)], 2))
            if not c.quick or (labels.index(a)+NAMES.index((n1, n2))) % 2 == 0: jobs.append(('c99', [(b, n2), (a, n1)], 2))
    if not c.quick:
        jobs += [('c99', [(a, 'm'), (b, 'm1'), (d, 'M')], 2) for a, b, d in itertools.product(labels, repeat=3)]
    everything = [(l, f'm{i}') for i, l in enumerate(labels)]
    jobs += [(how, list(p), 2) for how in CC for p in (everything, reversed(everything), everything+[(l, f'M{i}') for i, l in enumerate(labels)])]
    for l, n in {p for _, parts, _ in jobs for p in parts}: CODE[l, n] = G[l][2].save(name=n)
    c.log('programs', len(jobs))
    order = sorted(range(len(jobs)), key=lambda i: -len(jobs[i][1]))
    with ThreadPoolExecutor(8) as ex:
        for i, (e, det, s, t, ans) in zip(order, ex.map(one, [(f'p{i}', *jobs[i]) for i in order])):
            how, parts, depth = jobs[i]
            c.states += s; c.transitions += t; c.traces += s; c.count('programs'); c.count(f'programs-{how}')
            what = '+'.join(f'{l}:{n}' for l, n in parts[:3])
            if e: c.violation(f'{e}:{how}:{what}', programs=parts[:6], what=det); continue
            want = [x for l, _ in parts for x in alone[l]]
            if not numpy.allclose(ans, want, rtol=1e-6, atol=1e-7, equal_nan=False) if how != "c99" else ans != want:
                c.violation(f'answers:{how}:{what}', programs=parts[:6], got=ans[:40], expected=want[:40])
    c.sample(models=labels, names=NAMES, program=[list(p) for p in jobs[0][1]])
    c.bound(models=len(labels), name_pairs=len(NAMES), inputs=len(INPUTS), programs=len(jobs), call_depth=3)
