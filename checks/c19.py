"""C19 names: every short string over an adversarial alphabet, every keyword and its neighbours, every name used inside of generated code - through every generator;
accepted names give code that compiles as C and C++, defines only symbols that start with the name, and answers as under any other name."""
import itertools, os, re, subprocess, sys, multiprocessing, shutil, tempfile, warnings
from concurrent.futures import ThreadPoolExecutor
import numpy
from mc import batch, cbuild, ccache
from mc.core import Harness, INCLUDE
from checks import c18

KEYWORDS = '''auto break case char const continue default do double else enum extern float for goto if inline int long register restrict return short signed sizeof static struct switch typedef union unsigned void volatile while
_Alignas _Alignof _Atomic _Bool _Complex _Generic _Imaginary _Noreturn _Static_assert _Thread_local alignas alignof bool constexpr false nullptr static_assert thread_local true typeof typeof_unqual _BitInt _Decimal32 _Decimal64 _Decimal128'''.split()
UNJUDGED = {'_Packed'}         # a keyword for some compilers only
VALID = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_'), set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789')
ALPHABET = ['a', 'Z', '_', '0', '9', ' ', '-', '.', '\n', '\t', '+', '$', '\u00e9', '\u0661', '\u00b2', '"', '/', '\\', '\0', '(', '*', '\u00aa', ';', '#', '\r', '\u2028']


def legal(s):
    return len(s) > 0 and s[0] in VALID[0] and all(ch in VALID[1] for ch in s) and s not in KEYWORDS


def generators():
    """name -> (estimator, converted model, how it is saved)"""
    import emlearn
    E = c18.estimators()
    M = {}
    for n, kw in (('DecisionTreeClassifier', dict(method='inline')), ('DecisionTreeClassifier', dict(method='loadable')), ('RandomForestClassifier-impure', dict(method='inline', leaf_bits=8)), ('RandomForestClassifier-impure', dict(method='loadable', leaf_bits=8)),
                  ('DecisionTreeClassifier-stump', dict(method='inline', dtype='float')), ('RandomForestRegressor', dict(method='inline')), ('RandomForestRegressor', dict(method='loadable')), ('MLPClassifier', dict(method='inline')), ('MLPClassifier', dict(method='loadable')),
                  ('MLPRegressor', dict(method='loadable', return_type='regressor')), ('GaussianNB', {}), ('EllipticEnvelope', dict(method='inline')), ('GaussianMixture-full', {}), ('GaussianMixture-diag', {}), ('KNeighborsClassifier', {})):
        M[n+''.join(f'-{v}' for v in kw.values())] = (n, kw, emlearn.convert(E[n], **kw))
    return E, M


def names(c):
    out = []
    for n in range(0, 3):
        out += [''.join(t) for t in itertools.product(ALPHABET, repeat=n)]
    small = ALPHABET[:10]
    out += [''.join(t) for t in itertools.product(small, repeat=3)]
    if not c.quick: out += [''.join(t) for t in itertools.product(small, repeat=4)]
    for k in KEYWORDS:
        out += [k, k+'_', '_'+k, k+'0', '0'+k, k.upper(), k.capitalize(), k+' ', ' '+k, k+'\n', '\n'+k, k+'.', k[:-1], k+k, k+'\u200b', k.swapcase()]
    out += ['a'*n for n in (31, 32, 63, 64, 255, 256, 1000)] + ['_'*40, 'x'+'0'*300]
    out += ['model'+chr(i) for i in range(1, 0x250)] + [chr(i)+'m' for i in range(1, 0x250)] + ['a'+chr(i)+'b' for i in range(1, 0x100)]
    return list(dict.fromkeys(out))


def accept(a):
    """which of the names are accepted by one generator; also checks refusals leave no file behind"""
    g, ns = a
    out = []
    base = G[g][2].save(name='zzqx')
    for s in ns:
        try:
            code = G[g][2].save(name=s)
        except ValueError:
            out.append((s, False, None)); continue
        except Exception as e:
            out.append((s, False, f'{type(e).__name__}: {e}' if not isinstance(e, ValueError) else None)); continue
        out.append((s, True, None if code.replace(s, '') == base.replace('zzqx', '') or s in base else 'code differs by more than the name'))
    return g, out


def derived(g):
    """the same rule for the name derived from the file; nothing is written when it is refused"""
    d = tempfile.mkdtemp(dir=BASE)
    out = []
    stems = ['model', '_m', 'M0', '0m', 'a-b', 'a b', 'a.b', 'for', 'for_', 'int', 'bool', 'nullptr', 'x'*100, '.hidden', 'a\nb', '\u00e9t\u00e9', 'm\u0661', '-', '$x', 'While', 'while', '_BitInt', 'a.b.c', 'typeof']
    for stem, ext in itertools.product(stems, ['.h', '.c', '', '.txt', '.', '.hpp']):
        f = os.path.join(d, stem+ext)
        want = os.path.splitext(os.path.basename(f))[0]
        try:
            code = G[g][2].save(file=f)
            ok = True
        except ValueError:
            ok = False
        except Exception as e:
            out.append((stem+ext, f'{type(e).__name__}: {e}')); continue
        files = [x for x in os.listdir(d) if x != 'sub-dir.1']
        if ok != legal(want): out.append((stem+ext, 'accepted' if ok else 'refused'))
        elif ok and (files != [stem+ext] or open(f, newline='').read() != code or code != G[g][2].save(name=want)): out.append((stem+ext, f'wrong output, files {files}'))
        elif not ok and files: out.append((stem+ext, f'refused, but wrote {files}'))
        for x in files: os.unlink(os.path.join(d, x))
        # explicit name wins over the file
        f2 = os.path.join(d, 'sub-dir.1', stem.replace('/', '')+ext)
        os.makedirs(os.path.dirname(f2), exist_ok=True)
        if G[g][2].save(name='explicit', file=f2) != G[g][2].save(name='explicit'): out.append((stem+ext, 'explicit name not used'))
        os.unlink(f2)
    shutil.rmtree(d)
    return g, len(stems)*6, out


def symbols(path):
    p = subprocess.run(['nm', '-P', path], stdout=subprocess.PIPE, text=True, check=True)
    return {l.split()[0] for l in p.stdout.splitlines() if l.split()[1] in 'TtDdBbRrCcVvWw'}


LIBRARY = {}
CPP = set('''and and_eq asm bitand bitor catch char16_t char32_t class compl const_cast decltype delete dynamic_cast explicit export friend mutable namespace new noexcept not not_eq operator or or_eq private protected public
reinterpret_cast static_cast template this throw try typeid typename using virtual wchar_t xor xor_eq'''.split())
KEEP = ['-O0', '-fkeep-static-functions', '-fkeep-inline-functions', '-fkeep-static-consts']


def compile_one(a):
    """compile as C99, C11, gnu17 and C++; returns problems"""
    g, s, code, d = a
    out = []
    cbuild.write(os.path.join(d, 'm.c'), code+'\n')
    incs = '\n'.join(re.findall(r'^\s*#\s*include.*$', code, re.M))
    for cc, flags in (('gcc', ['-std=c99', '-D_DEFAULT_SOURCE', '-Werror=incompatible-pointer-types']), ('g++', ['-x', 'c++', '-std=c++11', '-w'])):
        if cc == 'g++' and s in CPP: continue
        o = os.path.join(d, 'm.o')
        p = subprocess.run([cc, *KEEP, *flags, '-I', INCLUDE, '-c', os.path.join(d, 'm.c'), '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            out.append((f'does-not-compile-{cc}', '\n'.join(l for l in p.stdout.splitlines() if 'error' in l)[:600]))
        elif cc == 'gcc':
            mine = symbols(o)
            if incs not in LIBRARY:
                i = os.path.join(d, 'i.o')
                cbuild.write(os.path.join(d, 'i.c'), incs+'\n')
                subprocess.run([cc, *KEEP, *flags, '-I', INCLUDE, '-c', os.path.join(d, 'i.c'), '-o', i], check=True)
                LIBRARY[incs] = symbols(i)
            new = [x for x in mine-LIBRARY[incs] if not x.startswith(s)]
            if new: out.append(('foreign-symbols', new[:10]))
            if not any(x.startswith(s) for x in mine): out.append(('no-symbols', sorted(mine)[:10]))
    shutil.rmtree(d)
    return g, s, out


def run(c):
    global G, BASE
    warnings.simplefilter('ignore')
    BASE = c.dir('work')
    ccache.install(c)
    E, G = generators()
    c.assume('names declared by the included headers (eml_*, Eml*, stdint types) collide loudly when compiled and are not judged', '_Packed, a keyword of some compilers only, is not judged',
             'non-ASCII letters are not C identifiers: compilers accept them only as an extension or after normalisation')
    # the reference itself: each keyword fails as a name for gcc with -std=c2x, each legal sample compiles
    kw = {}
    for k in KEYWORDS + ['model', '_m', 'For', 'int_', 'x'*255]:
        p = subprocess.run(['gcc', '-std=c2x', '-x', 'c', '-fsyntax-only', '-'], input=f'static const float {k}[2] = {{1, 2}};\n', text=True, capture_output=True)
        kw[k] = p.returncode != 0
        if kw[k] != (k in KEYWORDS) and k not in ('_Imaginary', '_BitInt'):
            raise Harness(f'keyword reference is wrong about {k}')
    ns = names(c)
    c.log('names', len(ns), 'legal', sum(map(legal, ns)))
    ctx = multiprocessing.get_context('fork')
    used = {}
    HEADER = set()
    for f in os.listdir(INCLUDE):
        if f.endswith('.h'): HEADER |= set(re.findall(r'[A-Za-z_]\w*', open(os.path.join(INCLUDE, f)).read()))
    lib = {t for t in HEADER if re.match(r'(?i)_?eml', t)} | {'NULL', 'NAN', 'INFINITY', 'errno', 'stdin', 'stdout', 'stderr', 'main', 'printf', 'FILE'}
    lib |= {f'{u}int{p}{b}_t' for u in ('', 'u') for p in ('', '_fast', '_least') for b in (8, 16, 32, 64)}
    with ctx.Pool(8) as pool:
        for g, out in pool.imap(accept, [(g, ns) for g in G], chunksize=1):
            for s, ok, e in out:
                c.states += 1; c.transitions += 1; c.traces += 1; c.count('accepted' if ok else 'refused')
                if s in UNJUDGED: continue
                if e: c.violation(f'error:{g}:{s!r}', what=e)
                elif ok != legal(s): c.violation(f'{"accepted" if ok else "refused"}:{g}:{s!r}')
        for g, n, out in pool.imap(derived, list(G), chunksize=1):
            c.states += n; c.transitions += n; c.traces += n; c.count('derived-from-file', n)
            for f, e in out: c.violation(f'file:{g}:{f!r}', what=e)
    c.log('accepted/refused')
    # the table generators apply the same rule
    tables(c, ns)
    # compile: unusual names, and every name that occurs in the generated code itself
    todo, jobs = [], []
    n = 0
    for g, (en, kwargs, w) in G.items():
        code = w.save(name='zzqx')
        tokens = sorted({t for t in re.findall(r'[A-Za-z_]\w*', code) if 'zzqx' not in t and legal(t) and t not in lib and not re.match('(?i)_?eml', t)})
        extra = ['m', '_m', 'M0', 'x'*200, '__', 'While', 'int_', 'nodes', 'leaves', 'values', 'features', 'length', 'n_features', 'model', 'i', 'j', 'out', 'data', 'labels', 'err', 'out_length', 'features_length', 'probabilities', 'score', 'resp', 'votes', 'offset',
                 'distances', 'layer', 'weights', 'self', 'dist', 'summaries', 'avg', 'rows', 'predict', 'tree', 'class', 'new', 'template', 'this', 'private']
        for s in dict.fromkeys(tokens+extra):
            n += 1
            code = w.save(name=s)
            todo.append((g, s, code, c.dir(f'compile/{n}')))
            r = REFS.setdefault(en, c18.reference(en, E[en]))
            o = dict(kwargs=kwargs, method=kwargs.get('method'), return_type=kwargs.get('return_type', 'classifier'), dtype=kwargs.get('dtype'))
            b, no = c18.body(en, r, o, 'MODEL', r['soft'].shape[1] if 'soft' in r else 0)
            # own function, so that the locals of the driver cannot hide the name
            wrapper = f'static void call_{n}(const {c18.ctype(r, o)} *zz_f, double *zz_o) {{\n' + re.sub(r'\b(f|o|p|q|s|d|i|out)\b', r'zz_\1', b).replace('MODEL', s) + '\n}'
            jobs.append((g, s, batch.Job(code+'\n'+wrapper, f'call_{n}(f, o);', 2, no, c18.X, c18.ctype(r, o), tag=(g, s))))
    c.log('compile', len(todo))
    with ThreadPoolExecutor(8) as ex:
        for g, s, out in ex.map(compile_one, todo):
            c.states += 1; c.transitions += 2; c.traces += 1; c.count('compiled')
            for k, e in out:
                c.violation(f'{k}:{g}:{s}', what=e)
    if c.violations: return
    outs = batch.run_jobs(c, [j for _, _, j in jobs], chunk=1)
    first = {}
    for (g, s, j), o in zip(jobs, outs):
        c.states += 1; c.transitions += len(o); c.traces += len(o); c.count('answers')
        f = first.setdefault(g, o)
        if not numpy.array_equal(f, o, equal_nan=True) or numpy.isnan(o).any():
            i = int(numpy.argmax((f != o).any(axis=1)))
            c.violation(f'answers-depend-on-name:{g}:{s}', input=c18.X[i], got=o[i], expected=f[i])
    c.sample(generators=list(G), name='features', legal=True)
    c.bound(names=len(ns), alphabet=len(ALPHABET), full_length=2, reduced_alphabet_length=c.pick(3, 4), generators=len(G), compiled=len(todo))


REFS = {}


def tables(c, ns):
    import argparse
    import emlearn.signal
    from emlearn.tools import window_function
    sparse = emlearn.signal.sparse_filterbank(numpy.eye(3))
    for g, f in (('window', lambda s: window_function.window_function(s, 'hann', 4, True, 70)), ('filterbank', lambda s: emlearn.signal.sparse_filterbank_serialize(sparse, s))):
        for s in ns:
            c.states += 1; c.transitions += 1; c.traces += 1; c.count('tables')
            try:
                f(s); ok = True
            except ValueError:
                ok = False
            if s not in UNJUDGED and ok != legal(s): c.violation(f'{"accepted" if ok else "refused"}:{g}:{s!r}')
