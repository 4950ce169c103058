"""C20 literals: every declared type x a lattice of values (all exponents, mantissa patterns, ties, limits) emitted with the code generators,
compiled for several compilers and targets, and compared bit by bit with the value rounded to the declared type."""
import fractions, itertools, math, os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
import numpy
from mc import cbuild
from mc.core import Harness, INCLUDE

STDINT = '\n'.join(f'typedef __{u}INT{b}_TYPE__ {l}int{b}_t;' for b in (8, 16, 32, 64) for u, l in (('', ''), ('U', 'u')))
INTS = {f'{u}int{b}_t': ((0, 2**b-1) if u else (-2**(b-1), 2**(b-1)-1), f'{"u" if u else "i"}{b//8}') for u in ('', 'u') for b in (8, 16, 32, 64)}
INTS['int'] = ((-2**31, 2**31-1), 'i4')
INTS['unsigned int'] = ((0, 2**32-1), 'u4')


def float_values(quick):
    """doubles: all exponents of single precision x mantissa patterns, exact ties between neighbours and one double beside them, decimals"""
    out = []
    pats = [0, 1, 2, 0x200000, 0x2aaaaa, 0x400000, 0x555555, 0x7ffffe, 0x7fffff, 0x123456, 0x6543ff] + ([] if quick else [1 << k for k in range(2, 23)] + [0x7fffff ^ (1 << k) for k in range(23)])
    bits = numpy.array([(e << 23) | p for e in range(0, 255) for p in pats], dtype='u4')
    f = bits.view('f4').astype('f8')
    out.append(f)
    with numpy.errstate(all='ignore'):
        nxt = numpy.nextafter(bits.view('f4'), numpy.float32(numpy.inf)).astype('f8')
    ok = numpy.isfinite(nxt)
    tie = (f[ok]+nxt[ok])/2
    out += [tie, numpy.nextafter(tie, -numpy.inf), numpy.nextafter(tie, numpy.inf)]
    out.append(numpy.array([float(f'{k}e{e}') for k in [1, 2, 3, 5, 7, 9, 11, 99, 123, 999, 1234567, 12345678, 123456789, 16777217] for e in range(-50, 38) if abs(float(f'{k}e{e}')) < 3.4e38]))
    out.append(numpy.array([k/1e6 for k in range(0, 2000 if quick else 20000)] + [k/1e7+0.5 for k in range(0, 300)] + [float(k) for k in range(0, 300)] + [2.0**k for k in range(-155, 128)]
                           + [2.0**k+d for k in range(0, 60) for d in (-1, 1, 0.5, -0.5)]))
    a = numpy.concatenate(out)
    return numpy.concatenate([a, -a])


def int_values(lo, hi, quick):
    s = {0}
    for k in range(0, 65):
        for d in ((-1, 0, 1) if quick else range(-5, 6)):
            s |= {2**k+d, -2**k+d}
    for k in range(0, 20): s |= {10**k, -10**k, 10**k-1, 10**k+1}
    s |= {lo, hi, lo+1, hi-1}
    s |= set(range(-130, 300))
    if hi-lo < 70000: s |= set(range(lo, hi+1)) if not quick or hi-lo < 300 else set(range(lo, hi+1, 7))
    return sorted(v for v in s if lo <= v <= hi)


def exact(v):
    """the real number of a Python or numpy number"""
    if isinstance(v, (numpy.floating, float)):
        return fractions.Fraction(float(v)) if not isinstance(v, numpy.longdouble) else fractions.Fraction(*v.as_integer_ratio())
    if isinstance(v, (bool, numpy.bool_)): return fractions.Fraction(int(v))
    return fractions.Fraction(int(v)) if isinstance(v, (int, numpy.integer)) else fractions.Fraction(v)


def f32(values):
    with numpy.errstate(all='ignore'):
        return numpy.asarray(values, 'f8').astype('f4')


COMPILERS = [('gcc', ['-std=c99']), ('gcc', ['-O2', '-std=gnu17']), ('clang', ['-std=c99']), ('g++', ['-x', 'c++', '-std=c++11']), ('arm-none-eabi-gcc', ['-mcpu=cortex-m4', '-std=c99']), ('avr-gcc', ['-mmcu=atmega2560', '-std=c99'])]


def image(c, text, cc, flags, name, fatal=True):
    """bytes of the read-only data of a source text, in declaration order; None when it does not compile"""
    d = c.dir('lit')
    src = cbuild.write(os.path.join(d, name+'.c'), STDINT + '\ntypedef int32_t eml_q16_t; typedef int32_t eml_fixed32_t;\n' + text)
    o = os.path.join(d, name+'.o')
    if subprocess.run(['which', cc], stdout=subprocess.DEVNULL).returncode: raise Harness(f'{cc} not installed')
    p = subprocess.run([cc, *flags, '-w', '-fno-toplevel-reorder' if cc != 'clang' else '-w', '-c', src, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        if fatal: c.violation(f'does-not-compile:{cc}:{name}', what='\n'.join(l for l in p.stdout.splitlines() if 'error' in l)[:600])
        return None
    b = os.path.join(d, name+'.bin')
    subprocess.run(['objcopy' if cc in ('gcc', 'g++', 'clang') else cc.replace('gcc', 'objcopy'), '-O', 'binary', '-j', 'mydata', o, b], check=True)
    data = open(b, 'rb').read()
    for f in (src, o, b): os.unlink(f)
    return data


MOD = '__attribute__((section("mydata"), used, aligned(1))) const'


def run(c):
    from emlearn import cgen
    from emlearn.fixedpoint import FixedPointFormat
    c.assume('round to nearest even from double to single precision', 'types without a fixed width ("int", "unsigned int") are declared for 32 bits; on AVR, where int has 16, only the fixed-width types are compared',
             'fixed-point: within one unit in the last place')
    jobs = []        # (name, dtype, values, expected bytes, text)
    def add(name, dtype, values, exp, skip=()):
        text = cgen.array_declare('x', dtype=dtype, modifiers=MOD, values=values)
        jobs.append((name, dtype, values, exp, text, skip))
    fv = float_values(c.quick)
    for i in range(0, len(fv), 20000):
        add(f'float-{i}', 'float', list(fv[i:i+20000]), f32(fv[i:i+20000]).tobytes())
    fl = [numpy.float32(v) for v in f32(fv[::7])] + [numpy.float16(v) for v in (0.1, 65504, 6e-8, -1.5)] + [3, -7, 2**24+1, 2**40+1, True, False, numpy.int64(2**53+1), numpy.int8(-128), numpy.uint64(2**63+2**39), numpy.bool_(True), 10**30]
    add('float-other-python-types', 'float', fl, b''.join(numpy.float32(float(v)).tobytes() for v in fl))
    dv = list(fv[::3 if c.quick else 1]) + [numpy.finfo('f8').max, -numpy.finfo('f8').max, 5e-324, 2.2250738585072014e-308, 0.1+0.2, 1/3, 1e22, 1e23, 123456789.123456789, 2.0**53+2] + [float(f'{m}e{e}') for m in (1, 1.7976931348623157, 4.9406564584124654) for e in range(-323, 308, 5)]
    dl = dv + [3, -7, numpy.float32(0.1), numpy.int16(5), True]
    add('double', 'double', dl, numpy.array([float(v) for v in dl], 'f8').tobytes(), skip=('avr-gcc',))
    for t, ((lo, hi), code) in INTS.items():
        vs = int_values(lo, hi, c.quick)
        # Python ints, numpy ints, integral floats, booleans
        vs += [numpy.dtype(code).type(v) for v in (lo, hi, hi//3, 1)] + [float(v) for v in (lo//2, hi//2+1, 0.0, 7.0) if float(v) == int(v)] + [numpy.float32(3.0), True, False, numpy.bool_(True), numpy.int8(5), numpy.uint64(7)]
        add(f'int:{t}', t, vs, numpy.array([int(v) for v in vs], code).tobytes(), skip=('avr-gcc',) if t in ('int', 'unsigned int') else ())
    # size and order ladders
    for n in [1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 99, 100, 127, 128, 255, 256, 257, 999, 1000, 1001, 4095, 4096, 10001] + ([] if c.quick else [65535, 65536, 100000]):
        vals = [((k*2654435761) % 2**32)-2**31 for k in range(n)]
        add(f'order-int-{n}', 'int32_t', vals, numpy.array(vals, 'i4').tobytes())
        add(f'order-float-{n}', 'float', numpy.arange(n)*0.5-n, (numpy.arange(n)*0.5-n).astype('f4').tobytes())
        add(f'order-u8-{n}', 'uint8_t', numpy.arange(n) % 251, (numpy.arange(n) % 251).astype('u1').tobytes())
    # constants
    consts = []
    for t, vs in (('float', list(fv[::41])), ('double', dv[::41]), *((t, int_values(*INTS[t][0], True)[::5]) for t in INTS)):
        consts.append((t, vs))
    def compile_job(a):
        (name, dtype, values, exp, text, skip), (cc, flags) = a
        return image(c, text, cc, flags, re.sub(r'\W', '_', name+cc+str(flags)))
    work = [(j, k) for j in jobs for k in COMPILERS if k[0] not in j[5] and not (k[0] == 'avr-gcc' and len(j[3]) > 30000)]
    with ThreadPoolExecutor(8) as ex:
        for (j, (cc, flags)), got in zip(work, ex.map(compile_job, work)):
            c.states += len(j[2]); c.transitions += 1; c.traces += len(j[2]); c.count(j[0].split('-')[0], len(j[2]))
            if got is not None and got != j[3]:
                w = max(1, len(j[3])//len(j[2]))
                i = next((i for i in range(len(j[2])) if got[i*w:i*w+w] != j[3][i*w:i*w+w]), -1)
                c.violation(f'value:{cc}:{j[0]}:{j[2][i]!r}', got=got[i*w:i*w+w].hex(), expected=j[3][i*w:i*w+w].hex(), bytes=len(got), expected_bytes=len(j[3]), literal=cgen.constant(j[2][i], dtype=j[1]))
    c.log('arrays', len(work))
    # constant_declare and constant agree with the arrays
    for t, vs in consts:
        text = '\n'.join(cgen.constant_declare(f'k{i}', v, dtype=t) for i, v in enumerate(vs)) + f'\n{MOD} {t} x[{len(vs)}] = {{' + ','.join(cgen.constant(v, dtype=t) for v in vs) + '};\n' + \
            f'int main(void) {{ {t} y[] = {{' + ','.join(f'k{i}' for i in range(len(vs))) + '}; return sizeof(y) == sizeof(x) && __builtin_memcmp(x, y, sizeof(x)) == 0 ? 0 : 1; }\n'
        code = {'float': 'f4', 'double': 'f8'}.get(t) or INTS[t][1]
        exp = f32(vs).tobytes() if t == 'float' else numpy.array(vs, code).tobytes()
        c.states += len(vs); c.transitions += 1; c.traces += len(vs); c.count('constants', len(vs))
        got = image(c, text, 'gcc', ['-std=c99'], 'const_'+re.sub(r'\W', '_', t))
        if got is not None and got != exp: c.violation(f'constant:{t}')
        src = cbuild.write(os.path.join(c.dir('lit'), 'cmain.c'), STDINT+text)
        exe = cbuild.compile_c([src], src+'.exe', flags=['-O0', '-std=c99', '-w'], key=f'constant-does-not-compile:{t}', base=[])
        if subprocess.run([exe]).returncode: c.violation(f'constant-declare:{t}')
    # values the type cannot hold: refused, or code that does not compile
    bad = [('float', v) for v in (float('nan'), float('inf'), -float('inf'), 3.5e38, -1e39, 1e300, 3.402823669209385e38, 10**40, numpy.float64('nan'), numpy.float32('inf'))]
    bad += [('double', v) for v in (float('nan'), float('inf'), -float('inf'), numpy.float32('nan'))]
    for t, ((lo, hi), _) in INTS.items():
        bad += [(t, v) for v in (lo-1, hi+1, lo-2**20, hi+2**20, 2**64, -2**63-1, 2**70, 0.5, -0.5, 1.0000001, 1e-9, float('nan'), float('inf'), -float('inf'), numpy.float32(2.5), 1e30, -1e30)]
        bad += [(t, v) for v in ((-1, -0.25, numpy.int8(-1)) if lo == 0 else ())]
    for t, v in bad:
        for how in ('constant_declare', 'array_declare', 'constant'):
            c.states += 1; c.transitions += 1; c.traces += 1; c.count('unrepresentable')
            try:
                text = dict(constant_declare=lambda: cgen.constant_declare('x', v, dtype=t), array_declare=lambda: cgen.array_declare('x', dtype=t, values=[1, v]),
                            constant=lambda: f'static const {t} x = ' + cgen.constant(v, dtype=t) + ';')[how]()
            except (ValueError, OverflowError, TypeError):
                continue
            if image(c, text, 'gcc', ['-std=c99'], 'bad', fatal=False) is not None:
                c.violation(f'unrepresentable:{t}:{v!r}:{how}', text=text)
    for kw in (dict(size=2, values=[1, 2, 3]), dict(size=4, values=[1, 2, 3]), dict(size=0, values=[1])):
        c.states += 1; c.transitions += 1; c.traces += 1
        try:
            text = cgen.array_declare('x', dtype='int', **kw)
        except (AssertionError, ValueError):
            continue
        c.violation(f'size-mismatch:{kw}', text=text)
    # declarations without values, other modifiers, indentation
    for t, n, mod in itertools.product(['float', 'int8_t', 'uint32_t', 'double'], [1, 2, 77], ['static', 'const', 'static const', 'extern', '']):
        c.states += 1; c.transitions += 1; c.traces += 1
        text = cgen.array_declare('x', n, dtype=t, modifiers=mod, indent='  ') + f'\ntypedef char check[sizeof(x) == {n}*sizeof({t}) ? 1 : -1];'
        image(c, text, 'gcc', ['-std=c99'], 'decl')
    # storage: the modifiers of a declaration decide linkage and whether the data is read-only
    LINK = {'static const': 'r', 'const': 'R', 'static': 'db', '': 'DB', 'extern': 'U', 'static volatile': 'db', 'volatile': 'DB', 'const volatile': 'RD'}
    TS = 'typedef struct { int32_t a; int16_t b; float c; double d; uint8_t e; const void *p; } Record;\nextern const int other[1];\n'
    def linkage(key, text, mod):
        c.states += 1; c.transitions += 1; c.traces += 1; c.count('storage')
        d = c.dir('lit')
        src = cbuild.write(os.path.join(d, 'storage.c'), STDINT + '\n' + TS + text + '\nconst volatile void *use(void) { return &x; }\n')
        o = os.path.join(d, 'storage.o')
        q = subprocess.run(['gcc', '-std=c99', '-w', '-fno-common', '-fno-pie', '-fno-pic', '-c', src, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if q.returncode: c.violation(f'storage-does-not-compile:{key}', text=text, what=q.stdout[:300]); return
        kinds = {l.split()[-1]: l.split()[-2] for l in subprocess.run(['nm', o], capture_output=True, text=True, check=True).stdout.splitlines()}
        if kinds.get('x') not in set(LINK[mod]): c.violation(f'storage:{key}', text=text, symbol=kinds.get('x'), expected=LINK[mod])
    for mod in LINK:
        if mod != 'extern':
            for n in (1, 2, 50):
                linkage(f'array:{mod!r}:{n}', cgen.array_declare('x', dtype='int16_t', modifiers=mod, values=list(range(1, n+1))), mod)
        linkage(f'array-only:{mod!r}', cgen.array_declare('x', 9, dtype='float', modifiers=mod), mod) if 'const' not in mod else None
        if mod != 'extern':
            for vals in ([1], [1, 2, 0.5], [-2**31, -32768, 0.1, 1e-300, 255, 'other'], [7, 8, 9, 10, 11, '0']):
                linkage(f'struct:{mod!r}:{vals}', cgen.struct_declare('x', 'Record', vals, modifiers=mod), mod)
        if mod in ('static', '', 'extern'):
            linkage(f'struct-only:{mod!r}', cgen.struct_declare('x', 'Record', None, modifiers=mod), mod)
    linkage('struct:default', cgen.struct_declare('x', 'Record', [1, 2]), 'static const')
    linkage('array:default', cgen.array_declare('x', 2, values=[1, 2]), 'static const')
    linkage('constant:default', cgen.constant_declare('x', 3), 'static const')
    # members of structures keep value and order
    rows = list(itertools.product([0, -2**31+1, 2**31-1], [-32768, 5, 32767], [0.1, -1e30, 16777217.0, numpy.float32(0.3)], [1/3, 5e-324, -1.7976931348623157e308], [0, 255]))
    c.states += len(rows); c.transitions += len(rows); c.traces += len(rows); c.count('struct members', len(rows))
    P = 'typedef struct __attribute__((packed)) { int32_t a; int16_t b; float c; double d; uint8_t e; } Packed;\n'
    text = P + '\n'.join(cgen.struct_declare(f'x{i}', 'Packed', list(v), modifiers=MOD) for i, v in enumerate(rows)) 
    got = image(c, text, 'gcc', ['-std=c99'], 'members')
    exp = b''.join(numpy.int32(v[0]).tobytes()+numpy.int16(v[1]).tobytes()+numpy.float32(v[2]).tobytes()+numpy.float64(v[3]).tobytes()+numpy.uint8(v[4]).tobytes() for v in rows)
    if got is not None and got != exp:
        c.violation(f'struct-members:{next((str(rows[i]) for i in range(len(rows)) if got[19*i:19*i+19] != exp[19*i:19*i+19]), len(got))}')
    # fixed point
    for fmt in [FixedPointFormat(i, 31-i) for i in range(0, 32)] + [FixedPointFormat(i, 32-i, 0) for i in (0, 1, 16, 31, 32)]:
        one = 2.0**fmt.fraction_bits
        hi, lo = (2**31-1)/one, -2**31/one
        vs = numpy.array([v for v in [0.0, 1/one, -1/one, 0.5, -0.5, 1.0, -1.0, 0.1, -0.1, 1/3, -1/3, 0.999999, -0.999999, hi, lo, hi/2, lo/2, hi/3, 1.5/one, -1.5/one, 2.7/one] + [2.0**k for k in range(-32, 31)] + [-2.0**k*1.3 for k in range(-32, 31)] if lo <= v <= hi])
        text = cgen.array_declare_fixedpoint('x', fixedpoint=fmt, values=vs, modifiers=MOD)
        got = image(c, text, 'gcc', ['-std=c99'], 'fixed')
        c.states += len(vs); c.transitions += 1; c.traces += len(vs); c.count('fixed-point', len(vs))
        if got is None: continue
        g = numpy.frombuffer(got, 'i4')
        if len(g) != len(vs): c.violation(f'fixed-count:{fmt}'); continue
        err = numpy.array([abs(fractions.Fraction(int(a)) - fractions.Fraction(float(v))*fractions.Fraction(one)) for a, v in zip(g, vs)])
        for a, v, e in zip(g, vs, err):
            if e >= 1: c.violation(f'fixed:{fmt}:{v!r}', got=int(a)); break
        for v in (hi+1.5/one, lo-1.5/one, 2*hi+1/one, 2*lo, one*2**33, -one*2**33, 1e18, -1e18, 1e300, float('nan'), float('inf')):
            c.states += 1; c.transitions += 1; c.traces += 1; c.count('unrepresentable')
            with numpy.errstate(all='ignore'):
                try:
                    text = cgen.array_declare_fixedpoint('x', fixedpoint=fmt, values=numpy.array([v]))
                except (ValueError, OverflowError, AssertionError):
                    continue
            if image(c, text, 'gcc', ['-std=c99'], 'bad', fatal=False) is not None:
                c.violation(f'fixed-unrepresentable:{fmt}:{v!r}', text=text)
    none = cgen.array_declare_fixedpoint('x', values=[0.5, 1e-9], modifiers=MOD)
    if image(c, none, 'gcc', ['-std=c99'], 'nofixed') != f32([0.5, 1e-9]).tobytes(): c.violation('fixed-point-none')
    c.sample(value=float(fv[1234]), literal=cgen.constant(fv[1234], 'float'), expected=f32(fv[1234:1235]).tobytes().hex())
    c.bound(float_values=len(fv), compilers=[k[0] for k in COMPILERS], integer_types=len(INTS), exponents='all 255 of single precision', mantissa_patterns=c.pick(11, 55), array_lengths=f'1..{c.pick(10001, 100000)}')
