"""Shared machinery of the checks: bookkeeping, evidence, known findings, scratch space."""
import atexit, faulthandler, json, os, shutil, sys, tempfile, threading, time, traceback
from concurrent.futures import BrokenExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
INCLUDE = os.path.join(REPO, 'emlearn')
KNOWN = os.path.join(VERIF, 'known_findings.txt')
EVIDENCE = os.path.join(VERIF, 'evidence')


class Harness(Exception):
    """The check itself is broken (never reported as a violation)."""


class Enough(Exception):
    """Stop exploring: enough violations were found."""


def jsonable(x):
    import numpy
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in x]
    if isinstance(x, numpy.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, numpy.generic):
        return jsonable(x.item())
    if isinstance(x, bytes):
        return x.decode('latin1')
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


def load_known(prop):
    """known_findings.txt lines:  finding: property=<id> key=<key> <what fails>"""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if not line.startswith('finding:'):
                continue
            parts = line[len('finding:'):].split(None, 2)
            if parts[0] == f'property={prop}' and parts[1].startswith('key='):
                out[parts[1][4:]] = parts[2] if len(parts) > 2 else ''
    return out


MEMORY = '/dev/shm'
SMALL_FILES = {'C34'}    # hundreds of thousands of tiny files: slow on a busy disk


def roomy(d):
    try:
        s = os.statvfs(d)
        return os.access(d, os.W_OK | os.X_OK) and s.f_bavail*s.f_frsize > 2**30
    except OSError:
        return False


class Check:
    MAX_REPORT = 5

    def __init__(self, prop, level='model_checking'):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.quick = self.tier == 'quick'
        self.start = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.dist = {}
        self.assumptions = []
        self.bounds = {}
        self.violations = []
        self.known = load_known(prop)
        self.known_seen = {}
        self.exhaustive = True
        base = os.environ.get('VERIF_SCRATCH') or (MEMORY if prop in SMALL_FILES and roomy(MEMORY) else tempfile.gettempdir())
        self.scratch = tempfile.mkdtemp(prefix=f'verif-{prop}-', dir=base)
        self._pid = os.getpid()
        atexit.register(self._cleanup)
        os.chdir(self.scratch)
        if self.quick:
            from . import cbuild
            cbuild.BUDGET['until'] = self.start+600
            t = threading.Timer(800, self._hang)
            t.daemon = True
            t.start()

    def _hang(self):
        """nothing the check runs takes more than a minute or two: the code under test does not come back"""
        if os.getpid() != self._pid: return
        faulthandler.dump_traceback(file=sys.stderr, all_threads=True)
        self.violations.append(dict(key='does-not-finish', detail=dict(after=round(time.time()-self.start))))
        self.exhaustive = False
        self.finish()
        sys.stdout.flush(); sys.stderr.flush()
        self._cleanup()
        os._exit(1)

    def _cleanup(self):
        if os.getpid() == self._pid:
            os.chdir('/')
            shutil.rmtree(self.scratch, ignore_errors=True)

    def dir(self, name):
        d = os.path.join(self.scratch, name)
        os.makedirs(d, exist_ok=True)
        return d

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    # --- bookkeeping
    def sample(self, **kw):
        if len(self.samples) < 6:
            self.samples.append(jsonable(kw))

    def count(self, name, n=1):
        self.dist[name] = self.dist.get(name, 0) + n

    def assume(self, *texts):
        self.assumptions += [t for t in texts if t not in self.assumptions]

    def bound(self, **kw):
        self.bounds.update(jsonable(kw))

    def violation(self, key, **detail):
        """key identifies the specific failing input/configuration/history."""
        key = str(key).replace(' ', '_')
        if key in self.known:
            self.known_seen[key] = self.known_seen.get(key, 0) + 1
            return
        self.violations.append(dict(key=key, detail=jsonable(detail)))
        if len(self.violations) >= 25:
            raise Enough()

    def log(self, *a):
        print(f'[{self.prop} {time.time()-self.start:6.1f}s]', *a, file=sys.stderr, flush=True)

    def finish(self):
        for key, what in self.known.items():
            if key in self.known_seen:
                print(f'KNOWN-FINDING: property={self.prop} {what} [{key}]')
        replay_dir = os.path.join(EVIDENCE, 'replay')
        os.makedirs(replay_dir, exist_ok=True)
        for i, v in enumerate(self.violations[:self.MAX_REPORT]):
            path = os.path.join(replay_dir, f'{self.prop}-{i}.json')
            with open(path, 'w') as f:
                json.dump(dict(property=self.prop, tier=self.tier, seed=self.seed, **v), f, indent=1)
            print(f'VIOLATION property={self.prop} replay={path}')
            print('  key:', v['key'], file=sys.stderr)
            print('  ', json.dumps(v['detail'])[:1500], file=sys.stderr)
        if not self.violations and (self.states == 0 or self.transitions == 0 or self.traces == 0):
            raise Harness('vacuous run: nothing was explored')
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces,
                   exhaustive=bool(self.exhaustive and not self.violations),
                   samples=self.samples or [dict(note='stopped at the first violations')],
                   distribution=self.dist, bounds=self.bounds)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time()-self.start, 2), violations=len(self.violations))
        os.makedirs(EVIDENCE, exist_ok=True)
        with open(os.path.join(EVIDENCE, f'{self.prop}.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        self.log(f'states={self.states} transitions={self.transitions} traces={self.traces} '
                 f'violations={len(self.violations)} dist={self.dist}')
        return 1 if self.violations else 0


def impl_frame(tb):
    """innermost-first: the deepest /repo frame of a traceback, if the failure is inside or below /repo code"""
    frames = traceback.extract_tb(tb)
    for fr in reversed(frames):
        if fr.filename.startswith(REPO + '/'):
            return fr
        if fr.filename.startswith(VERIF + '/'):
            return None
    return None


UNREADABLE = (TypeError, ValueError, LookupError, AttributeError, StopIteration, ArithmeticError, AssertionError, RuntimeError)


def main(prop, fn):
    c = Check(prop)
    try:
        try:
            fn(c)
        except Enough:
            c.exhaustive = False
        except Harness:
            raise
        except Exception as e:
            fr = impl_frame(e.__traceback__)
            from . import cbuild
            if isinstance(e, cbuild.ImplFailure):
                c.violations.append(dict(key=e.key, detail=jsonable(e.detail)))
            elif fr is not None:
                c.violations.append(dict(key=f'exception:{type(e).__name__}', detail=jsonable(dict(
                    error=f'{type(e).__name__}: {e}', where=f'{fr.filename}:{fr.lineno}',
                    traceback=traceback.format_exc()[-3000:]))))
            elif c.violations:
                # whatever went wrong after a violation had been found does not take it back
                traceback.print_exc()
            elif isinstance(e, UNREADABLE) and not isinstance(e, (ImportError, OSError, BrokenExecutor)):
                # the comparison with the oracle could not even be made: an answer of a wrong form (type, shape, missing output), or an error raised by a compiled extension
                c.violations.append(dict(key=f'unreadable-answer:{type(e).__name__}', detail=jsonable(dict(
                    error=f'{type(e).__name__}: {e}', traceback=traceback.format_exc()[-3000:]))))
            else:
                raise
            c.exhaustive = False
        rc = c.finish()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.stdout.flush(); sys.stderr.flush()
        c._cleanup()
        os._exit(3)
    sys.stdout.flush(); sys.stderr.flush()
    c._cleanup()
    os._exit(rc)
