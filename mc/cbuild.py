"""Compile and run C drivers against /repo/emlearn at check time, in scratch space."""
import os, subprocess, hashlib, time
from concurrent.futures import ThreadPoolExecutor
from .core import INCLUDE, Harness

ASAN = ['-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize=float-divide-by-zero,shift',
        '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
# bulk generated code: compile time dominates
FAST = ['-O0', '-fsanitize=address']
PLAIN = ['-O1']
# warnings that would break a user's build of generated code are made errors where they mean wrong code
BASE = ['-std=c99', '-D_GNU_SOURCE', '-w', '-I', INCLUDE]
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1',
           UBSAN_OPTIONS='print_stacktrace=1:exitcode=98')


BUDGET = {}         # in the quick tier: the time by which all runs have to end (ordinary checks take a tenth of it)


def remaining(timeout):
    return max(1, min(timeout, BUDGET['until']-time.time())) if 'until' in BUDGET else timeout


class ImplFailure(Exception):
    """The code under test failed in a way that is itself a violation (does not compile, crashes, hangs)."""
    def __init__(self, key, **detail):
        super().__init__(key)
        self.key, self.detail = key, detail


def compile_c(sources, out, flags=ASAN, extra=(), cc='gcc', shared=False, key='compile', base=BASE):
    """sources: list of paths. Raises ImplFailure on a compile error (harness sources are known to compile)."""
    objs = []
    def one(src):
        obj = src + '.' + hashlib.md5((' '.join(flags)+out).encode()).hexdigest()[:6] + '.o'
        args = [cc] + list(base) + list(flags) + list(extra) + (['-fPIC'] if shared else []) + ['-c', src, '-o', obj]
        p = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=600)
        if p.returncode != 0:
            raise ImplFailure(key, compiler=' '.join(args), output=p.stdout[:4000])
        return obj
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, sources))
    args = [cc] + list(flags) + (['-shared'] if shared else []) + objs + ['-o', out, '-lm']
    p = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=600)
    if p.returncode != 0:
        raise ImplFailure(key, compiler=' '.join(args), output=p.stdout[:4000])
    for o in objs:
        os.unlink(o)
    return out


def run_exe(exe, args=(), stdin=b'', timeout=300, key='crash', check=True, env=None):
    e = dict(ENV)
    if env: e.update(env)
    try:
        p = subprocess.run([exe] + [str(a) for a in args], input=stdin, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=remaining(timeout), env=e)
    except subprocess.TimeoutExpired:
        raise ImplFailure(key + ':timeout', exe=exe, args=list(map(str, args)))
    if check and p.returncode != 0:
        raise ImplFailure(key + f':exit{p.returncode}', args=list(map(str, args)),
                          stderr=p.stderr.decode('utf8', 'replace')[:4000],
                          stdout_tail=p.stdout[-500:].decode('utf8', 'replace'))
    return p


def write(path, text):
    with open(path, 'w') as f:
        f.write(text)
    return path
