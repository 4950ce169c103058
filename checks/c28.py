"""C28 tools: the product of options of the window and mel-filterbank generators; every header compiled as C and C++ and its tables read back."""
import itertools, math, os, struct, subprocess, sys
import numpy
from mc import cbuild
from mc.core import REPO

HEAD = r'''
#include <stdio.h>
#include <stdlib.h>
static void dump(const void *p, unsigned size, unsigned n) { fwrite(&n, 4, 1, stdout); fwrite(p, size, n, stdout); }
static void number(double v) { fwrite(&v, 8, 1, stdout); }
#define TABLE(a) dump(a, sizeof(a[0]), sizeof(a)/sizeof(a[0]))
'''


def call(c, module, argv, cwd):
    """main() of a tool as a user runs it; returns None, or what refused it"""
    c.transitions += 1
    old, cur = sys.argv, os.getcwd()
    sys.argv = ['tool'] + argv
    os.chdir(cwd)
    try:
        module.main()
        return None
    except (Exception, SystemExit) as e:
        return e
    finally:
        sys.argv = old
        os.chdir(cur)


class Batch:
    """headers compiled together; each with what to print and a function that judges the bytes"""
    def __init__(self, c, tag, cxx=False):
        self.c, self.tag, self.cxx, self.items = c, tag, cxx, []

    def add(self, path, prints, judge, what):
        self.items.append((path, prints, judge, what))

    def run(self, chunk):
        from concurrent.futures import ThreadPoolExecutor
        c = self.c

        def one(a):
            part = self.items[a:a+chunk]
            d = c.dir(self.tag)
            text = HEAD + '\n'.join(f'#include "{os.path.relpath(p, d)}"' for p, _, _, _ in part) + '\nint main(void) {\n' + '\n'.join(pr for _, pr, _, _ in part) + '\nreturn 0; }\n'
            src = cbuild.write(os.path.join(d, f't{a}.' + ('cpp' if self.cxx else 'c')), text)
            try:
                exe = cbuild.compile_c([src], src + '.exe', flags=['-O0'], cc='g++' if self.cxx else 'gcc', base=['-std=c++11' if self.cxx else '-std=c99', '-Wall', '-Werror', '-Wno-unused-variable', '-Wno-unused-const-variable'], key=self.tag + ':compile')
            except cbuild.ImplFailure as e:
                if len(part) > 1:       # find out which
                    return [one_of(x) for x in part]
                return [(part[0], e)]
            return [(part, cbuild.run_exe(exe, key=self.tag + ':run').stdout)]

        def one_of(x):
            b = Batch(c, self.tag + 's', self.cxx)
            b.items = [x]
            d = c.dir(self.tag)
            text = HEAD + f'#include "{os.path.relpath(x[0], d)}"\nint main(void) {{ {x[1]} return 0; }}\n'
            n = abs(hash(x[0]))
            src = cbuild.write(os.path.join(d, f's{n}.' + ('cpp' if self.cxx else 'c')), text)
            try:
                exe = cbuild.compile_c([src], src + '.exe', flags=['-O0'], cc='g++' if self.cxx else 'gcc', base=['-std=c++11' if self.cxx else '-std=c99', '-Wall', '-Werror', '-Wno-unused-variable'], key=self.tag + ':compile')
                return ([x], cbuild.run_exe(exe, key=self.tag + ':run').stdout)
            except cbuild.ImplFailure as e:
                return (x, e)
        with ThreadPoolExecutor(8) as ex:
            res = [r for rs in ex.map(one, range(0, len(self.items), chunk)) for r in rs]
        for part, data in res:
            if isinstance(data, Exception):
                c.violation(f'{self.tag}:compile', options=part[3], output=data.detail.get('output', '')[:800])
                continue
            pos = 0
            for _, _, judge, what in part:
                pos = judge(data, pos, what)
                c.states += 1; c.traces += 1


def table(data, pos, dtype='f4'):
    n, = struct.unpack_from('<I', data, pos)
    a = numpy.frombuffer(data, dtype, n, pos+4)
    return a, pos+4+a.nbytes


WINDOWS = 'boxcar triang blackman hamming hann bartlett flattop parzen bohman blackmanharris nuttall barthann'.split()


def window_reference(kind, n, sym):
    import scipy.signal.windows as w
    if n == 1:
        return numpy.ones(1)
    m = n if sym else n+1
    k = numpy.arange(m)
    cosines = dict(hann=[.5, .5], hamming=[.54, .46], blackman=[.42, .5, .08], blackmanharris=[.35875, .48829, .14128, .01168], nuttall=[.3635819, .4891775, .1365995, .0106411], flattop=[.21557895, .41663158, .277263158, .083578947, .006947368])
    if kind in cosines:
        r = sum(a*(-1)**i*numpy.cos(2*math.pi*i*k/(m-1)) for i, a in enumerate(cosines[kind]))
    elif kind == 'boxcar':
        r = numpy.ones(m)
    elif kind == 'bartlett':
        r = 1-numpy.abs(2*k/(m-1)-1)
    elif kind == 'triang':
        r = 1-numpy.abs((2*k-(m-1))/(m+1 if m % 2 else m))
    else:
        r = getattr(w, kind)(m, sym=True)
    return r[:n]


def mel_reference(sr, n_fft, bands, fmin, fmax, htk, norm):
    def mel(f):
        if htk: return 2595*math.log10(1+f/700)
        return f*3/200 if f < 1000 else 15+math.log(f/1000)/(math.log(6.4)/27)
    def hz(m):
        m = numpy.asarray(m, float)
        if htk: return 700*(10**(m/2595)-1)
        return numpy.where(m < 15, m*200/3, 1000*numpy.exp((m-15)*math.log(6.4)/27))
    e = hz(numpy.linspace(mel(fmin), mel(fmax), bands+2))
    f = numpy.arange(1+n_fft//2)*sr/n_fft
    W = numpy.array([numpy.maximum(0, numpy.minimum((f-e[i])/(e[i+1]-e[i]), (e[i+2]-f)/(e[i+2]-e[i+1])))*(2/(e[i+2]-e[i]) if norm else 1) for i in range(bands)])
    width = numpy.diff(e)
    err = 1e-6+4e-7*(e[2:]+1)/numpy.minimum(width[:-1], width[1:])
    return W, hz(numpy.linspace(mel(fmin), mel(fmax), bands)), err*([2/(e[i+2]-e[i]) if norm else 1 for i in range(bands)] if True else 1)


def windows(c, batches):
    from emlearn.tools import window_function as tool
    lengths = c.pick([1, 2, 3, 4, 5, 8, 9, 31, 64, 100, 257], [1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 64, 100, 127, 128, 257, 500, 1024])
    wraps = c.pick([None, 1, 7, 20, 79], [None, 1, 2, 3, 5, 7, 10, 15, 20, 40, 70, 79, 120, 100000])
    k = 0
    d = c.dir('windows')

    def judge(kind, n, sym):
        def f(data, pos, what):
            a, pos = table(data, pos)
            length, = struct.unpack_from('<d', data, pos)
            want = window_reference(kind, n, sym)
            if len(a) != n or length != n:
                c.violation('window:length', options=what, got=[len(a), length])
            elif not (numpy.abs(a-want) < 2e-7+3e-7*numpy.abs(want)).all():
                c.violation('window:value', options=what, at=int(numpy.abs(a-want).argmax()), got=a[:20], expected=want[:20])
            return pos+8
        return f

    for kind, n, sym, wrap in itertools.product(WINDOWS, lengths, (False, True), wraps):
        k += 1
        name = f'w{k}' if k % 3 else f'Window_{kind}_{"x"*(k % 40)}{k}'
        argv = ['--window', kind, '--length', str(n), '--name', name]
        if sym: argv.append('--symmetric')
        if wrap: argv += ['--linewrap', str(wrap)]
        path = os.path.join(d, name + '.h')
        if k % 4 == 1:
            path = os.path.join(c.dir(f'windows/sub dir{k % 7}'), f'o{k}.hpp')
            argv += ['--out', path if k % 8 == 1 else os.path.relpath(path, d)]
        if k % 3 == 2: cbuild.write(path, 'what was here before;\n'*3000)   # replaced, whatever its length
        e = call(c, tool, argv, d)
        if e is not None or not os.path.exists(path):
            c.violation('window:refused', options=argv, error=repr(e)); continue
        batches[k % 2].add(path, f'TABLE({name}); number({name}_length);', judge(kind, n, sym), argv)
    c.count('windows', k)
    # defaults: the name of the array and of the file
    for kind in WINDOWS + ['cosine', 'lanczos', 'nonexistent', 'kaiser']:
        for n in (None, 12):
            cwd = c.dir(f'defaults-{kind}-{n}')
            e = call(c, tool, ['--window', kind] + (['--length', str(n)] if n else []), cwd)
            files = sorted(os.listdir(cwd))
            name = f'{kind}_{n or 1024}_lut'
            c.states += 1
            if kind in ('nonexistent', 'kaiser'):
                if e is None or files: c.violation('window:unknown', window=kind, error=repr(e), files=files)
                continue
            if kind not in WINDOWS:
                continue
            if e is not None or files != [name + '.h']:
                c.violation('window:defaults', window=kind, length=n, error=repr(e), files=files); continue
            batches[2].add(os.path.join(cwd, name + '.h'), f'TABLE({name}); number({name}_length);', judge(kind, n or 1024, False), [kind, n])
    # the function itself
    for kind, n, fft, wrap in itertools.product(WINDOWS[:6], (3, 10), (False, True), (1, 30, 200)):
        name = f'f{k}'; k += 1
        c.transitions += 1
        text = tool.window_function(name, kind, n, fft, wrap)
        if max(map(len, text.split('\n'))) > max(wrap, max(map(len, text.split()))):
            c.violation('window:wrap', window=kind, length=n, wrap=wrap)
        path = cbuild.write(os.path.join(d, name + '.h'), text)
        batches[2].add(path, f'TABLE({name}); number({name}_length);', judge(kind, n, not fft), [kind, n, fft, wrap])
    # not sensible: refused, or what was asked for
    for argv in (['--length', '0'], ['--length', '-1'], ['--length', 'x'], ['--linewrap', '0'], ['--linewrap', '-5'], ['--name', '1a'], ['--name', 'a b'], ['--name', 'int'], ['--name', 'a-b'], ['--name', 'a;'], ['--window', ''], ['--unknown']):
        cwd = c.dir('bad' + str(k)); k += 1
        e = call(c, tool, argv, cwd)
        c.states += 1
        if e is None and argv[0] != '--length':
            c.violation('window:accepted', options=argv, files=os.listdir(cwd))
        elif e is None and argv[1] != '0':
            c.violation('window:accepted', options=argv, files=os.listdir(cwd))
        elif e is not None and os.listdir(cwd):
            c.violation('window:refused-but-written', options=argv, files=os.listdir(cwd))


def mels(c, batches):
    from emlearn.tools import mel_filterbank as tool
    import librosa
    full = dict(bands=c.pick([32, 1, 2, 8, 20], [32, 1, 2, 3, 8, 20, 64, 100]), fft=c.pick([1024, 64, 256], [1024, 64, 100, 256, 512, 2048]), samplerate=c.pick([16000, 8000, 44100, 11025], [16000, 8000, 11025, 22050, 22051, 44100, 48000]),
                fmin=[0, 20, 300], fmax=[None, 'half', 'quarter', 4000], htk=[None, 'True', 'False', 'no'], normalize=[None, 'False', 'true'], linewrap=[None, 1, 25, 300])
    keys = list(full)
    default = {k: v[0] for k, v in full.items()}
    combos = []
    far = c.pick(3, 4)
    for n in range(0, far+1):
        for which in itertools.combinations(keys, n):
            if n == far and far == 3 and 'linewrap' in which: continue
            if n == far and far == 4 and ('linewrap' in which or 'htk' not in which): continue
            for vals in itertools.product(*[full[w][1:] for w in which]):
                combos.append(dict(default, **dict(zip(which, vals))))
    d = c.dir('mels')

    def judge(o, sr, fmax, htk, norm):
        def f(data, pos, what):
            st, pos = table(data, pos, 'i4'); en, pos = table(data, pos, 'i4'); lut, pos = table(data, pos); fr, pos = table(data, pos)
            bands, length, nfft, rate, lo, hi = struct.unpack_from('<6d', data, pos)
            W, freqs, err = mel_reference(sr, o['fft'], o['bands'], o['fmin'], fmax, htk, norm)
            got = numpy.zeros_like(W)
            if not (len(st) == len(en) == bands == o['bands']) or length != len(lut) or len(fr) != o['bands']:
                c.violation('mel:lengths', options=what); return pos+48
            if (nfft, rate, lo, hi) != (o['fft'], sr, o['fmin'], fmax):
                c.violation('mel:constants', options=what, got=[nfft, rate, lo, hi], expected=[o['fft'], sr, o['fmin'], fmax])
            at = 0
            for i, (a, b) in enumerate(zip(st, en)):
                if b >= a:
                    if a < 0 or b >= W.shape[1] or at+b-a+1 > len(lut): c.violation('mel:outside', options=what, band=i); break
                    got[i, a:b+1] = lut[at:at+b-a+1]; at += b-a+1
            if at != len(lut): c.violation('mel:length', options=what, used=at, length=len(lut))
            bad = numpy.abs(got-W) > err[:, None]+1e-6*W
            if bad.any():
                i, j = numpy.argwhere(bad)[0]
                c.violation('mel:value', options=what, band=i, bin=j, got=got[i, j], expected=W[i, j])
            if not (numpy.abs(fr-freqs) <= 1e-6*freqs+1e-4).all():
                c.violation('mel:frequencies', options=what, got=fr, expected=freqs)
            return pos+48
        return f

    k = 0
    for o in combos:
        sr = o['samplerate']
        fmax = {None: sr/2, 'half': sr//2, 'quarter': sr//4}.get(o['fmax'], o['fmax'])
        if o['fmin'] >= fmax or fmax > sr/2: continue
        k += 1
        name = f'mel{k}'
        argv = ['--name', name]
        for key, v in o.items():
            if v != default[key] or (v is not None and k % 2):
                argv += [f'--{key}', str(int(fmax) if key == 'fmax' else v)]
        path = os.path.join(d, name + '.h')
        if k % 5 == 1:
            path = os.path.join(c.dir('mels/out'), f'm{k}.inc'); argv += ['--out', path]
        if k % 3 == 2: cbuild.write(path, 'what was here before;\n'*3000)   # replaced, whatever its length
        e = call(c, tool, argv, d)
        if e is not None or not os.path.exists(path):
            c.violation('mel:refused', options=argv, error=repr(e)); continue
        batches[k % 2].add(path, ' '.join(f'TABLE({name}_{t});' for t in ('starts', 'ends', 'lut', 'frequencies')) + ' '.join(f'number({name}_{t});' for t in ('bands', 'length', 'nfft', 'samplerate', 'fmin', 'fmax')),
                           judge(o, sr, fmax, o['htk'] == 'True', o['normalize'] != 'False'), argv)
    c.count('filterbanks', k)
    for bands, fft in itertools.product((None, 5, 40), (None, 256)):
        cwd = c.dir(f'mdef-{bands}-{fft}')
        e = call(c, tool, (['--bands', str(bands)] if bands else []) + (['--fft', str(fft)] if fft else []), cwd)
        name = f'mel_{fft or 1024}_{bands or 32}'
        c.states += 1
        if e is not None or os.listdir(cwd) != [name + '.h']:
            c.violation('mel:defaults', bands=bands, fft=fft, error=repr(e), files=os.listdir(cwd)); continue
        batches[2].add(os.path.join(cwd, name + '.h'), ' '.join(f'TABLE({name}_{t});' for t in ('starts', 'ends', 'lut', 'frequencies')) + ' '.join(f'number({name}_{t});' for t in ('bands', 'length', 'nfft', 'samplerate', 'fmin', 'fmax')),
                       judge(dict(default, bands=bands or 32, fft=fft or 1024), 16000, 8000.0, False, True), [bands, fft])
    for argv in (['--htk', 'maybe'], ['--normalize', '2'], ['--bands', 'x'], ['--linewrap', '0'], ['--name', '9'], ['--name', 'for'], ['--name', 'a.b'], ['--unknown'], ['--samplerate', '1.5']):
        cwd = c.dir('mbad' + str(k)); k += 1
        e = call(c, tool, argv, cwd)
        c.states += 1
        if e is None: c.violation('mel:accepted', options=argv, files=os.listdir(cwd))
        elif os.listdir(cwd): c.violation('mel:refused-but-written', options=argv, files=os.listdir(cwd))


def run(c):
    import contextlib, io, warnings
    warnings.simplefilter('ignore')
    W = [Batch(c, 'window-c'), Batch(c, 'window-cxx', True), Batch(c, 'window-defaults')]
    M = [Batch(c, 'mel-c'), Batch(c, 'mel-cxx', True), Batch(c, 'mel-defaults')]
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        windows(c, W)
        mels(c, M)
    c.log('generated')
    for b in W: b.run(60 if b is not W[2] else 1000)
    c.log('windows')
    for b in M: b.run(40 if b is not M[2] else 1000)
    # as console programs
    for tool, argv, name in (('window_function', ['--length', '16'], 'hann_16_lut'), ('mel_filterbank', ['--bands', '4', '--fft', '64'], 'mel_64_4')):
        cwd = c.dir('cli-' + tool)
        p = subprocess.run([sys.executable, '-m', 'emlearn.tools.' + tool, *argv], cwd=cwd, env=dict(os.environ, PYTHONPATH=REPO), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        c.states += 1; c.transitions += 1
        if p.returncode or os.listdir(cwd) != [name + '.h']:
            c.violation('cli:' + tool, returncode=p.returncode, files=os.listdir(cwd), stderr=p.stderr.decode()[-500:])
    c.sample(tool='window', window='hann', length=64, symmetric=True, linewrap=20)
    c.bound(windows='12 types x lengths x symmetry x line widths', mel_options_from_default=c.pick(3, 4))
