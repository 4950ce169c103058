"""C27 sparse filterbanks: every small matrix through the sparse form, the Python reduction, the C function and the serialised tables, against the dense product."""
import itertools, os, re
import numpy
from mc import cbuild, drive, ext

MALFORMED = r'''
import itertools, numpy, eml_audio
n = 0
def dense(x, st, en, co):
    out, o = [], 0
    for a, b in zip(st, en):
        v = 0.0
        for j in range(a, b+1): v += x[j]*co[o]; o += 1
        out.append(v)
    return out
for length in range(0, 4):
    x = numpy.arange(1, length+1).astype('f4')
    for bands in range(0, 3):
        for st in itertools.product(range(-2, length+2), repeat=bands):
            for en in itertools.product(range(-2, length+2), repeat=bands):
                need = sum(b-a+1 for a, b in zip(st, en) if b >= a)
                inside = all(b < a or (a >= 0 and b < length) for a, b in zip(st, en))
                for extra in (-1, 0, 1):
                    if need+extra < 0: continue
                    n += 1
                    co = (numpy.arange(need+extra)*0.5+1).astype('f4')
                    try: out = eml_audio.sparse_filterbank(x, numpy.array(st, 'i4'), numpy.array(en, 'i4'), co)
                    except Exception: out = None
                    if out is not None and not inside: print(f'F python:outside|input {length} starts {st} ends {en}')
                    elif out is not None and extra < 0: print(f'F python:coefficients|input {length} starts {st} ends {en}: {need+extra} of {need} coefficients accepted')
                    elif inside and extra == 0:
                        if out is None: print(f'F python:refused|input {length} starts {st} ends {en}')
                        elif list(out) != dense(x, st, en, co): print(f'F python:value|input {length} starts {st} ends {en}: {list(out)}')
for st, en in (([0], [0, 1]), ([0, 1], [0]), ([[0]], [[0]]), (0, 0), ([2**31-1], [2**31-1]), ([-2**31], [0]), ([0], [2**31-1]), ([-2**31], [2**31-1]), ([], [0])):
    for co in ([1, 2], [[1, 2]], 1, []):
        for x in ([1, 2, 3], [[1, 2, 3]], 1.0, []):
            n += 1
            try: eml_audio.sparse_filterbank(numpy.array(x, 'f4'), numpy.array(st), numpy.array(en), numpy.array(co, 'f4')); print(f'F python:accepted|input {x} starts {st} ends {en} coefficients {co}')
            except Exception: pass
print('N', n, n, n)
'''


def unit(n, j):
    x = numpy.zeros(n)
    x[j] = 1
    return x


def matrices(c):
    V = (0.0, 1.0, -2.0)
    for r, k, vals in [(1, 1, V), (1, 2, V), (1, 3, V), (1, 4, V), (1, 5, V), (2, 1, V), (2, 2, V), (2, 3, V), (3, 1, V), (3, 2, V), (2, 4, (0.0, 0.5)), (3, 3, (0.0, 3.0)), (4, 2, (0.0, -1.0))] + ([] if c.quick else [(2, 4, V), (3, 3, V), (4, 3, (0.0, 1.5)), (3, 4, (0.0, 1.0)), (2, 5, (0.0, 1.0)), (1, 7, V), (1, 10, (0.0, 1.0))]):
        for flat in itertools.product(vals, repeat=r*k):
            yield numpy.array(flat).reshape(r, k)
    # triangular banks with overlap, as they occur, and long ones
    for bands in (1, 2, 5, 16, 40, 64):
        for width in (1, 3, 8, 33, 129, 513):
            for spread in (0.4, 1.0, 2.5):
                at = numpy.linspace(0, width-1, bands+2)
                half = max((width-1)/(bands+1)*spread, 0.01)
                M = numpy.maximum(0, 1-numpy.abs(numpy.arange(width)[None]-at[1:-1, None])/half)
                yield M
                yield M/3.0
    # more coefficients than narrow integers count
    for shape in ((70, 1000), (1, 70000), (66000, 1), (257, 256)):
        yield ((numpy.arange(shape[0]*shape[1])*7919 % 11)-5.0).reshape(shape)
    for width, places in ((40000, (32766, 32767, 32768, 39999)), (70000, (0, 40000, 65535, 65536, 69999))):
        M = numpy.zeros((len(places), width))
        for i, a in enumerate(places): M[i, max(a-2, 0):a+1] = (0.5, -2.0, 3.0)[-min(a+1, 3):]
        yield M
    yield numpy.zeros((3, 4)); yield numpy.zeros((1, 1)); yield numpy.ones((2, 300)); yield numpy.eye(12); yield numpy.eye(12)[::-1]
    yield numpy.array([[1e-30, 0, 1e30], [-1e-38, 1e38, 0], [0, 0, 1e-45]])


def run(c):
    from emlearn import signal
    m = ext.load(c, 'eml_audio')
    total = 0
    serial = []
    for M in matrices(c):
        total += 1
        rows, width = M.shape
        kept = M.copy()
        what = M.tolist() if M.size < 40 else f'{rows}x{width}'
        for form in (M,) if total % 7 else (M, M.astype('f4'), numpy.asfortranarray(M)):
            c.states += 1
            sparse = signal.sparse_filterbank(form)
            if not numpy.array_equal(kept, M):
                c.violation('matrix-modified', matrix=what)
            starts, ends, coeffs = sparse
            if not (len(starts) == len(ends) == rows):
                c.violation('encode:bands', matrix=what, sparse=sparse); continue
            inputs = [unit(width, j) for j in (range(width) if width < 12 else sorted({0, 1, width//2, width-2, width-1}))] + [numpy.arange(1.0, width+1)]
            for x in inputs:
                want = form.astype(float) @ x
                scale = numpy.abs(form.astype(float)) @ numpy.abs(x)
                c.transitions += 2; c.traces += 1
                got = signal.sparse_filterbank_reduce(sparse, x)
                if got.shape != want.shape or not (numpy.abs(got-want) <= 1e-9*scale+1e-300).all():
                    c.violation('python:reduce', matrix=what, sparse=sparse, input=x, got=got, expected=want)
                if total % 3 == 0:
                    for kind in ('i2', 'u1', 'f4', '?', object):
                        got = signal.sparse_filterbank_reduce(sparse, (x % 200).astype(kind)); w = form.astype(float) @ (x % 200).astype(kind).astype(float)
                        if got.shape != w.shape or not (numpy.abs(got.astype(float)-w) <= 1e-6*scale+1e-300).all(): c.violation(f'python:reduce:{kind}', matrix=what, input=x, got=got, expected=w)
                f4 = form.astype('f4').astype(float) @ x.astype('f4').astype(float)
                got = m.sparse_filterbank(x, starts, ends, coeffs)
                if got.shape != want.shape or not (numpy.abs(got-f4) <= 1e-6*scale*max(1, numpy.sqrt(width))+1e-44).all():
                    c.violation('binding:reduce', matrix=what, sparse=sparse, input=x, got=got, expected=f4)
            # lists survive a round through other containers
            if total % 50 == 0:
                other = signal.sparse_filterbank_reduce((numpy.array(starts), numpy.array(ends), numpy.array(coeffs)), list(inputs[-1]))
                if not numpy.allclose(other, form @ inputs[-1]): c.violation('python:containers', matrix=what)
        serial.append((M, sparse))
    c.count('matrices', total)
    # every layout of the arguments
    M = numpy.array([[0, 1.5, 2, 0, 0, 0], [0, 0, 0.25, 3, -1, 0], [0, 0, 0, 0, 0, 0], [4, 0, 0, 0, 0, 0.5]]); x = numpy.array([1.0, -2.0, 0.5, 3.0, 7.0, -0.125])
    starts, ends, coeffs = signal.sparse_filterbank(M); want = M @ x
    index = [('list', lambda v: list(v)), ('i4', lambda v: numpy.array(v, 'i4')), ('i8', lambda v: numpy.array(v, 'i8')), ('i2', lambda v: numpy.array(v, 'i2')), ('every 2', lambda v: numpy.stack([numpy.array(v, 'i4'), numpy.full(len(v), 77, 'i4')], 1)[:, 0]), ('reversed', lambda v: numpy.array(v, 'i4')[::-1].copy()[::-1]), ('other byte order', lambda v: numpy.array(v, '>i4'))]
    for (a, xs), (b, co), (d, f), (e, g) in itertools.product(ext.layouts(x), ext.layouts(coeffs), index, index):
        c.states += 1; c.transitions += 1; c.traces += 1
        got = m.sparse_filterbank(xs, f(starts), g(ends), co)
        if got.shape != want.shape or not numpy.abs(got-want).max() < 1e-4: c.violation(f'binding:layout:{a}:{b}:{d}:{e}', got=got, expected=want)
    c.log('python')

    # serialised tables, compiled and applied
    picks = serial if not c.quick else [s for i, s in enumerate(serial) if i % 3 == 0 or s[0].size > 20 or not len(s[1][2]) or s[0].shape[0] == 1]
    code, calls, expect = [], [], []
    for i, (M, sparse) in enumerate(picks):
        options = {}
        if i % 5 == 1: options = dict(n_fft=512, sr=16000, fmin=20, fmax=8000)
        if i % 5 == 2: options = dict(frequencies=[0.5, 1e-3, 12345.678][:M.shape[0]], sr=44100.5, fmin=0.1, fmax=7999.9)
        if i % 5 == 3: options = dict(fmin=0, fmax=22050.0, frequencies=numpy.arange(M.shape[0])*1.1)
        if i % 5 == 4: options = dict(n_fft=numpy.int64(64), sr=numpy.float64(1e5), fmin=numpy.float32(0.25), fmax=numpy.int32(7))
        name = f'fb{i}'
        text = signal.sparse_filterbank_serialize(sparse, name, **options)
        code.append(text)
        rows, width = M.shape
        calls.append(f'static void run{i}(void) {{ table({i}, {width}, {name}_bands, sizeof({name}_starts)/sizeof({name}_starts[0]), sizeof({name}_ends)/sizeof({name}_ends[0]), {name}_length, {name}_starts, {name}_ends, {name}_lut);'
                     + ''.join(f' printf("%a ", (double){name}_{s});' for s in {'n_fft': 'nfft', 'sr': 'samplerate', 'fmin': 'fmin', 'fmax': 'fmax'}.values() if {'nfft': 'n_fft', 'samplerate': 'sr'}.get(s, s) in options)
                     + (f' for (int q=0; q<{len(options["frequencies"])}; q++) printf("%a ", (double){name}_frequencies[q]); printf(" %zu", sizeof({name}_frequencies)/sizeof({name}_frequencies[0]));' if 'frequencies' in options else '') + ' printf("\\n"); }')
        expect.append((M, options, sparse))
    head = '''#include <eml_audio.h>
static void table(int i, int width, int bands, int a, int b, int length, const int *st, const int *en, const float *lut) {
    mc_states++; mc_traces++;
    printf("T %d %d %d %d %d|", i, bands, a, b, length);
    float *x = mc_buf(sizeof(float)*width), *out = mc_buf(sizeof(float)*bands); float *l = mc_buf(sizeof(float)*length); memcpy(l, lut, sizeof(float)*length);
    for (int j=-1; j<width; j += width > 20 && j > 2 && j < width-3 ? width/6+1 : 1) {
        for (int k=0; k<width; k++) x[k] = j < 0 ? k+1 : k == j;
        EmlError e = eml_sparse_filterbank(x, out, bands, st, en, l); mc_transitions++;
        printf("%d:%d:", j, e); for (int k=0; k<bands; k++) printf("%a ", (double)out[k]); printf(";");
    }
    free(x); free(out); free(l); printf("|");
}
'''
    chunk = 400
    exes = []
    for a in range(0, len(picks), chunk):
        ids = range(a, min(a+chunk, len(picks)))
        exes.append((f'tables{a}', head + '\n'.join(code[a:a+chunk]) + '\n' + '\n'.join(calls[a:a+chunk]) + '\nint main(void) { ' + ' '.join(f'run{i}();' for i in ids) + ' return mc_end(); }\n'))
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(lambda e: drive.drive(c, e[0], e[1], flags=['-O0', '-fsanitize=address'], key='tables'), exes))
    seen = 0
    for line in (l for o in outs for l in o if l.startswith('T ')):
        seen += 1
        h, body, tail = line[2:].split('|')
        i, bands, a, b, length = map(int, h.split())
        M, options, sparse = expect[i]
        rows, width = M.shape
        if (bands, a, b) != (rows, rows, rows) or length != len(sparse[2]):
            c.violation('tables:lengths', shape=M.shape, got=[bands, a, b, length]); continue
        f4 = M.astype('f4').astype(float)
        for part in body.split(';')[:-1]:
            j, e, vals = part.split(':')
            got = numpy.array([float.fromhex(v) for v in vals.split()])
            x = numpy.arange(1.0, width+1) if int(j) < 0 else unit(width, int(j))
            want = f4 @ x; scale = numpy.abs(f4) @ numpy.abs(x)
            if int(e) or got.shape != want.shape or not (numpy.abs(got-want) <= 2e-7*scale*(1 if int(j) >= 0 else numpy.sqrt(width)*2)+1e-44).all():
                c.violation('tables:value', matrix=M.tolist() if M.size < 40 else M.shape, input=x if width < 40 else j, got=got, expected=want)
                break
        got = [float.fromhex(v) if 'x' in v else float(v) for v in tail.split()]
        want = [float(options[k]) for k in ('n_fft', 'sr', 'fmin', 'fmax') if k in options]
        if 'frequencies' in options: want += list(map(float, options['frequencies'])) + [len(options['frequencies'])]
        if len(got) != len(want) or any(abs(g-w) > 1e-7*abs(w) for g, w in zip(got, want)):
            c.violation('tables:constants', options=options, got=got, expected=want)
    if seen != len(picks):
        c.violation('tables:missing', seen=seen, expected=len(picks))
    c.count('serialised', len(picks))
    c.log('tables')
    ext.run_asan(c, 'eml_audio', MALFORMED, 'malformed')
    c.sample(matrix=[[0, 1, 0, -2], [0, 0, 0, 0]])
    c.bound(matrices='all up to 3 rows x 3 columns over 2-3 values; ladder to 70000 coefficients', serialised=len(picks), malformed_input=3, malformed_bands=2)
