"""Builds the Python extension modules from /repo/bindings into scratch space and loads them."""
import importlib.util, os, subprocess, sys, sysconfig
from .cbuild import INCLUDE, ImplFailure
from .core import REPO


def build(c, name, flags=('-O1',)):
    import pybind11
    out = os.path.join(c.dir('ext-' + ''.join(x for x in '-'.join(flags) if x.isalnum())), name + sysconfig.get_config_var('EXT_SUFFIX'))
    args = ['g++', '-std=c++14', '-fvisibility=hidden', '-shared', '-fPIC', '-w', *flags, '-I', INCLUDE, '-I', pybind11.get_include(), '-I', sysconfig.get_paths()['include'],
            os.path.join(REPO, 'bindings', name + '.cpp'), '-o', out]
    p = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=600)
    if p.returncode:
        raise ImplFailure(f'{name}:compile', output=p.stdout[:3000])
    return out


def load(c, name):
    path = build(c, name)
    spec = importlib.util.spec_from_file_location(name, path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    sys.modules[name] = m
    return m


ASAN = ('-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=vptr', '-fno-omit-frame-pointer')


def run_asan(c, name, script, key, timeout=800, args=()):
    """run a Python script with the module built with AddressSanitizer; the script prints lines as C drivers do"""
    path = build(c, name, ASAN)
    lib = subprocess.run(['g++', '-print-file-name=libasan.so'], stdout=subprocess.PIPE, text=True).stdout.strip()
    libu = subprocess.run(['g++', '-print-file-name=libubsan.so'], stdout=subprocess.PIPE, text=True).stdout.strip()
    env = dict(os.environ, LD_PRELOAD=f'{lib} {libu}', PYTHONPATH=os.path.dirname(path) + ':' + REPO, PYTHONMALLOC='malloc',
               ASAN_OPTIONS='detect_leaks=0:exitcode=99:allocator_may_return_null=1', UBSAN_OPTIONS='exitcode=98:print_stacktrace=1', OPENBLAS_NUM_THREADS='1')
    from . import drive
    class P: pass
    try:
        p = subprocess.run([sys.executable, '-c', script, *map(str, args)], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ImplFailure(f'{key}:timeout')
    return drive.parse(c, p, key)


def layouts(x):
    """the same values as single precision numbers in every place an array can be"""
    import numpy
    f = numpy.array(x, 'f4'); n = len(f)
    yield 'plain', f
    yield 'double', f.astype('f8')
    yield 'list', [float(v) for v in f]
    for k in (2, 3):
        w = numpy.full(n*k, 1e6, 'f4'); w[::k] = f
        yield f'every {k}', w[::k]
    yield 'reversed', f[::-1].copy()[::-1]
    w = numpy.full(2*n, -1e6, 'f4'); w[::2] = f[::-1]
    yield 'reversed every 2', w[::2][::-1]
    w = numpy.full((n, 3), 1e6, 'f4'); w[:, 1] = f
    yield 'column', w[:, 1]
    w = numpy.full((3, n), 1e6, 'f4'); w[1] = f
    yield 'row of a Fortran array', numpy.asfortranarray(w)[1]
    yield 'other byte order', f.astype(f.dtype.newbyteorder())
    w = numpy.frombuffer(b'x'+f.tobytes(), 'u1')[1:].view('f4')
    yield 'unaligned and read only', w
    w = f.astype('f8'); w.flags.writeable = False
    yield 'read only double', w
    r = numpy.rec.fromarrays([numpy.full(n, 1e6), f, numpy.arange(n)], formats=['u1', 'f4', 'i2'])
    yield 'field of records', r['f1']


def guarded(c, key, fn, seconds=240):
    """calls fn in a child process; one that does not end, or crashes, is a violation"""
    import multiprocessing
    ctx = multiprocessing.get_context('fork')
    a, b = ctx.Pipe(False)
    p = ctx.Process(target=lambda: b.send(fn()))
    p.start(); b.close()
    try:
        if not a.poll(seconds): raise ImplFailure(f'{key}:timeout')
        return a.recv()
    except EOFError:
        raise ImplFailure(f'{key}:crash')
    finally:
        p.kill(); p.join()
