"""C34 Arduino installation: explicit-state exploration of install/update/user-edit/new-release histories over file trees, every fault point of every step,
the command line with every choice of directories, real releases."""
import contextlib, hashlib, io, itertools, os, shutil, sys
from mc.core import INCLUDE


FAULT = dict(at=None, n=0, root=None, kind=28)
KINDS = (28, 13, 5)  # no space left, permission denied, input/output error
EVENTS = ('open', 'os.mkdir', 'os.rename', 'os.remove', 'os.link', 'os.symlink', 'os.truncate', 'shutil.copyfile', 'shutil.copymode', 'shutil.copystat', 'shutil.copytree', 'shutil.move', 'shutil.rmtree', 'os.rmdir', 'os.chmod', 'os.utime', 'os.listdir', 'os.scandir')


def hook(event, args):
    if FAULT['root'] is None or event not in EVENTS: return
    if not any(isinstance(a, (str, bytes)) and os.fsdecode(a).startswith(FAULT['root']) for a in args): return
    FAULT['n'] += 1
    if FAULT['at'] == FAULT['n']: raise OSError(FAULT['kind'], os.strerror(FAULT['kind']), event)  # the class that belongs to the number


def snap(root):
    """path -> content: bytes of a file, 'dir', or the target of a symbolic link"""
    out = {}
    for d, ds, fs in os.walk(root):
        for x in ds + fs:
            p = os.path.join(d, x); r = os.path.relpath(p, root)
            out[r] = 'link:'+os.readlink(p) if os.path.islink(p) else 'dir' if os.path.isdir(p) else open(p, 'rb').read()
    return out


def put(root, tree, when=1600000000):
    if os.path.isdir(root):
        for x in os.listdir(root):
            p = os.path.join(root, x)
            shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)
    os.makedirs(root, exist_ok=True)
    for p in sorted(tree):
        v, f = tree[p], os.path.join(root, p)
        if v == 'dir': os.mkdir(f)
        elif isinstance(v, str): os.symlink(v[5:], f)
        else:
            open(f, 'wb').write(v)
            os.utime(f, (when, when))   # as in an archive: times do not tell releases or edits apart


RELEASES = [
    {'eml_a.h': b'// a 1\n', 'eml_bb.h': b'// bb 1\r\n', 'VERSION.txt': b'1.0\n', 'notes.txt': b'private\n', 'convert.py': b'pass\n'},
    {'eml_a.h': b'// a 2\n', 'eml_bb.h': b'// bb 1\r\n', 'eml_c.h': b'', 'VERSION.txt': b'2.0\n', 'sub': 'dir', 'sub/eml_d.h': b'deep\n'},
    {'eml_a.h': b'// a 3 \xff\x00\n', 'VERSION.txt': b'1.0\n', 'eml_c.h': b'c'*70000, 'xeml_q.h': b'no\n'},
    # as a package manager lays it out: the names are links to a store
    {'eml_a.h': 'link:store/x1', 'eml_c.h': b'// c 4\n', 'VERSION.txt': 'link:store/x2', 'store': 'dir', 'store/x1': b'// a 4\n', 'store/x2': b'4.0\n'},
]
INCOMPLETE = [{'eml_a.h': b'// a 9\n'}, {'VERSION.txt': b'9\n'}, {'VERSION.txt': b'9\n', 'notes.h': b'\n'}, {}]
PLACES = ['src', 's [r]c*', 'ein Ordner', 'src/']


def public(release): return {k: release[v[5:]] if isinstance(v, str) else v for k, v in release.items() if '/' not in k and (k.startswith('eml_') and k.endswith('.h') or k == 'VERSION.txt')}


OTHERS = {'L/emlearn/examples': 'dir', 'L/emlearn/examples/eml_a.h': b'example\n', 'L/emlearn/my_own.h': b'mine\n', 'L/emlearn/eml_a.h.orig': b'backup\n', 'L/emlearn/library.properties': b'name=emlearn\n', 'L/emlearn/eml_mine.h': b'mine\n'}
NEIGHBOURS = {'L/Servo': 'dir', 'L/Servo/eml_a.h': b'servo\n', 'L/eml_a.h': b'stray\n', 'L/VERSION.txt': b'stray\n', 'Lx': 'dir', 'Lx/emlearn': 'dir', 'Lx/emlearn/eml_a.h': b'other\n'}


def starts():
    yield {}
    yield {'L': 'dir'}
    yield dict(NEIGHBOURS, L='dir')
    yield {'L': b'a file\n'}
    yield {'L': 'dir', 'L/emlearn': b'a file\n'}
    yield {'L': 'dir', 'L/emlearn': 'link:nowhere'}
    lib = {'L': 'dir', 'L/emlearn': 'dir'}
    yield lib
    old = {'L/emlearn/eml_a.h': b'// old\n', 'L/emlearn/eml_bb.h': b'// bb 1\r\n', 'L/emlearn/VERSION.txt': b'0.9\n'}
    for k in range(1, 4):
        for part in itertools.combinations(old, k):
            yield dict(lib, **{p: old[p] for p in part})
    for k in (1, 2, len(OTHERS)):
        for part in itertools.combinations(OTHERS, k):
            if ('L/emlearn/examples/eml_a.h' in part) and 'L/emlearn/examples' not in part: part += ('L/emlearn/examples',)
            yield dict(lib, **{p: OTHERS[p] for p in part}, **(old if k > 1 else {}))
    yield dict(lib, **OTHERS, **old, **NEIGHBOURS)
    yield dict(lib, **old, **{'L/emlearn/eml_c.h': 'dir'})
    yield dict(lib, **{'L/emlearn/eml_a.h': 'dir', 'L/emlearn/eml_a.h/x': b'x'})
    yield {'L': 'dir', 'elsewhere': 'dir', 'elsewhere/my.h': b'mine\n', 'L/emlearn': 'link:../elsewhere'}
    yield {'R': 'dir', 'R/keep': b'keep\n', 'L': 'link:R'}


def judge(c, before, after, release, update, raised, returned, where, faulted=False):
    """what one call may do to the tree below the parent of the library directory"""
    lib = 'L/emlearn'
    link = before.get('L', '')
    base = 'L'
    if isinstance(link, str) and link.startswith('link:'): base = link[5:]
    lib = base+'/emlearn'
    real = before.get(lib, '')
    if isinstance(real, str) and real.startswith('link:') and real != 'link:nowhere': lib = 'elsewhere'
    want = {f'{lib}/{k}': v for k, v in public(release).items()}
    bad = None
    complete = all(after.get(k) == v for k, v in want.items()) and any(k.endswith('.h') for k in want) and any(k.endswith('.txt') for k in want)
    # files that are not part of the release stay as they are
    for p, v in before.items():
        if p not in want and after.get(p) != v: bad = ('other-files', p, v, after.get(p))
    for p, v in after.items():
        inside = p in want or p in (base, lib)
        if p not in before and not inside and not (p.startswith(lib+'/') and p[len(lib)+1:] in release): bad = ('stray-files', p)
    installed = any(p.startswith(lib+'/') for p in before)
    if not raised:
        if not complete: bad = ('incomplete', {k: after.get(k) for k in want if after.get(k) != want[k]})
        if installed and not update: bad = ('overwrote',)
        if returned is not None and os.path.normpath(returned) != os.path.normpath(where): bad = ('returned', returned)
    elif faulted:
        for k, v in want.items():
            if after.get(k) not in (before.get(k), v) and not (isinstance(after.get(k), bytes) and v.startswith(after[k])): bad = ('broken', k, after.get(k))
    else:
        whole = any(k.endswith('.h') for k in want) and any(k.endswith('.txt') for k in want)
        usable = (before.get(base) == 'dir') and before.get(lib) in (None, 'dir') and not any(before.get(k) == 'dir' for k in want)
        if whole and usable and (update or before.get(lib) is None): bad = ('refused', raised)
        changed = {p for p in set(before) | set(after) if before.get(p) != after.get(p)}
        # a call that is refused leaves everything alone; where a directory stands in the place of a file the other files may have been brought up to date
        if changed and not any(before.get(k) == 'dir' for k in want) and before.get(base) != b'a file\n' and before.get(lib) != b'a file\n' and before.get(lib) != 'link:nowhere': bad = ('not-clean', sorted(changed))
        if any(p not in want for p in changed if p not in (base, lib)): bad = ('not-clean', sorted(changed))
    return bad


def histories(c):
    from emlearn.arduino import install as I
    root = os.path.join(c.dir('hist'), 'tree')
    srcs = []
    for k, r in enumerate(RELEASES):
        for place in (PLACES if k == 0 else PLACES[:1]):
            d = os.path.join(c.dir('src%d-%d' % (k, PLACES.index(place))), place)
            put(d.rstrip('/'), r); srcs.append((d, r))
    nbase = len(srcs)
    for k, r in enumerate(INCOMPLETE):
        d = os.path.join(c.dir(f'inc{k}'), 'src'); put(d, r); srcs.append((d, r))
    absent = os.path.join(c.dir('none'), 'src'); srcs.append((absent, {}))
    pairs = [(d, r) for d, r in srcs]
    small = [pairs[0]] + pairs[nbase-3:nbase+1]
    frozen = {d: snap(d) for d, _ in srcs if os.path.isdir(d)}
    edits = [('L/emlearn/eml_a.h', b'// edited\n'), ('L/emlearn/eml_a.h', None), ('L/emlearn/my_own.h', b'new\n'), ('L/emlearn/VERSION.txt', None)]

    def call(src, update, fault=None, kind=28):
        FAULT.update(at=fault, n=0, root=c.scratch, kind=kind)
        try:
            return None, I.install_arduino_library(src, os.path.join(root, 'L'), update=update)
        except Exception as e: return e, None
        finally: FAULT['root'] = None

    def step(before, src, rel, update, what):
        # what is installed can be older or newer than the release, by any clock
        for when in (1500000000, 1700000000) if update and len(before) > 2 else ():
            put(root, before, when)
            raised, ret = call(src, update)
            after = snap(root)
            c.transitions += 1
            bad = judge(c, before, after, rel, update, raised, ret, os.path.join(root, 'L', 'emlearn'))
            if bad: c.violation(f'histories:times:{bad[0]}', detail=bad[1:], times=when, update=update, source=rel.keys(), before=before, after=after, history=what, raised=repr(raised))
        put(root, before)
        raised, ret = call(src, update)
        n = FAULT['n']
        after = snap(root)
        c.states += 1; c.transitions += 1
        if isinstance(raised, (NameError, TypeError, AttributeError, UnboundLocalError)): raise raised
        bad = judge(c, before, after, rel, update, raised, ret, os.path.join(root, 'L', 'emlearn'))
        if bad: c.violation(f'histories:{bad[0]}', detail=bad[1:], update=update, source=rel.keys(), before=before, after=after, history=what, raised=repr(raised))
        if src in frozen and snap(src) != frozen[src]: c.violation('histories:source-changed', source=src)
        return after, n

    def key(t): return hashlib.md5(repr(sorted(t.items())).encode()).hexdigest()
    # all first steps, from every starting tree, every source
    seen, frontier = {}, []
    for s in starts():
        for src, rel in pairs:
            for update in (False, True):
                after, n = step(s, src, rel, update, 'first')
                # every point at which the file system may fail in this step
                if (src, rel) in small:
                    for f, kind in itertools.product(range(1, n+1), KINDS):
                        put(root, s)
                        raised, ret = call(src, update, f, kind)
                        got = snap(root)
                        c.states += 1; c.transitions += 2; c.traces += 1
                        bad = judge(c, s, got, rel, update, raised, ret, os.path.join(root, 'L', 'emlearn'), faulted=raised is not None)
                        if bad: c.violation(f'faults:{bad[0]}', detail=bad[1:], fault=f, of=n, error=os.strerror(kind), update=update, before=s, after=got, raised=repr(raised))
                        # the next update makes the library whole
                        if rel in RELEASES and got.get('L') == 'dir' and got.get('L/emlearn', 'dir') == 'dir' and not any(v == 'dir' for p, v in got.items() if p.endswith('.h')):
                            raised, _ = call(src, True)
                            now = snap(root)
                            if raised or any(now.get('L/emlearn/'+k) != v for k, v in public(rel).items()): c.violation('faults:not-recovered', fault=f, of=n, error=os.strerror(kind), before=s, between=got, after=now, raised=repr(raised))
                        c.count('fault-points')
        frontier.append((s, ()))
        seen[key(s)] = 0
    # histories: breadth first over distinct trees
    for depth in range(1, c.pick(4, 7)):
        nxt = []
        for t, hist in frontier:
            moves = []
            for i, (src, rel) in enumerate(small):
                for update in (False, True):
                    moves.append((('update' if update else 'install', i), step(t, src, rel, update, hist)[0]))
            for i, (p, v) in enumerate(edits):
                if t.get('L') == 'dir' and t.get('L/emlearn') == 'dir' and not isinstance(t.get(p), str) and t.get(p) != v:
                    u = dict(t)
                    if v is None: u.pop(p)
                    else: u[p] = v
                    moves.append((('edit', i), u))
            for m, u in moves:
                c.transitions += 1
                k = key(u)
                if k not in seen:
                    seen[k] = depth; nxt.append((u, hist+(m,)))
        frontier = nxt
        if not frontier: c.exhaustive_histories = depth; break
    c.count('distinct-trees', len(seen))
    c.traces += len(seen)
    c.bound(history_depth=depth, closed=not frontier)
    shutil.rmtree(root, ignore_errors=True)


def command_line(c):
    """through main(): every choice of explicit and default directories"""
    from emlearn.arduino import install as I
    import emlearn
    real = {f: open(os.path.join(INCLUDE, f), 'rb').read() for f in os.listdir(INCLUDE) if f.startswith('eml_') and f.endswith('.h') or f == 'VERSION.txt'}
    if os.path.realpath(I.get_include_dir()) != os.path.realpath(INCLUDE) or os.path.realpath(emlearn.includedir) != os.path.realpath(INCLUDE): c.violation('main:include-dir', got=I.get_include_dir())
    src = os.path.join(c.dir('cli-src'), 'inc'); put(src, RELEASES[0])
    keep = os.environ.get('HOME'), sys.argv, sys.platform, os.environ.get('USERPROFILE'), os.getcwd()
    n = 0
    try:
        for platform, books, explicit, inc, update, lib in itertools.product(('linux', 'darwin', 'freebsd13', 'win32'), itertools.chain.from_iterable(itertools.combinations(('Arduino', 'Documents/Arduino'), r) for r in range(3)), (False, True), (None, src), (False, True), (None, 'libraries', 'libraries/emlearn')):
            if platform == 'win32' and not explicit: continue  # its separators mean nothing here
            n += 1
            home = c.dir(f'home{n}')
            os.environ['HOME'] = os.environ['USERPROFILE'] = home
            where = os.path.join(home, 'given') if explicit else os.path.join(home, 'Documents/Arduino' if platform == 'darwin' else 'Arduino', 'libraries')
            for b in books: os.makedirs(os.path.join(home, b))
            if lib and os.path.isdir(os.path.dirname(where)): os.makedirs(os.path.join(where, 'emlearn') if lib.endswith('emlearn') else where)
            if lib and lib.endswith('emlearn') and os.path.isdir(where): open(os.path.join(where, 'emlearn', 'eml_a.h' if inc else 'eml_net.h'), 'wb').write(b'old')
            before = snap(home)
            sys.argv = ['install'] + (['--arduino-library-dir', where] if explicit else []) + (['--emlearn-include-dir', inc] if inc else []) + (['--update'] if update else [])
            os.chdir(home)
            out = io.StringIO()
            sys.platform = platform
            raised = None
            try:
                with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out): I.main()
            except (Exception, SystemExit) as e: raised = e
            finally: sys.platform = keep[2]
            after = snap(home)
            c.states += 1; c.transitions += 1; c.traces += 1
            possible = os.path.isdir(os.path.dirname(where)) and not (lib == 'libraries/emlearn' and not update)
            want = public(RELEASES[0]) if inc else real
            what = dict(platform=platform, sketchbooks=books, explicit=explicit, argv=sys.argv[1:], existing=lib, raised=repr(raised))
            if possible:
                got = {os.path.relpath(os.path.join(home, p), os.path.join(where, 'emlearn')): v for p, v in after.items()}
                if raised: c.violation('main:refused', **what)
                elif any(got.get(k) != v for k, v in want.items()): c.violation('main:incomplete', missing=[k for k, v in want.items() if got.get(k) != v], **what)
                elif os.path.join(where, 'emlearn') not in out.getvalue(): c.violation('main:report', output=out.getvalue(), **what)
            elif not raised: c.violation('main:accepted', **what)
            elif after != before: c.violation('main:not-clean', changed=sorted(set(before) ^ set(after)), **what)
            if any(after.get(p) != v for p, v in before.items() if not p.endswith(('eml_a.h', 'eml_net.h'))): c.violation('main:other-files', **what)
            os.chdir(keep[4]); shutil.rmtree(home)
        for argv in (['--bogus'], ['--arduino-library-dir'], ['positional']):
            sys.argv = ['install']+argv
            os.environ['HOME'] = c.dir('nohome')
            try:
                with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()): I.main()
                c.violation('main:arguments', argv=argv)
            except (SystemExit, Exception) as e: pass
            c.states += 1
    finally:
        sys.argv, sys.platform = keep[1], keep[2]
        for k, v in (('HOME', keep[0]), ('USERPROFILE', keep[3])):
            if v is None: os.environ.pop(k, None)
            else: os.environ[k] = v
        os.chdir(keep[4])
    c.count('command-lines', n)


def directories(c):
    from emlearn.utils import fileutils as F
    root = os.path.join(c.dir('dirs'), 'r')
    for name, fn in (('ensure_dir', F.ensure_dir), ('ensure_dir_single', F.ensure_dir_single)):
        for tree in ({}, {'a': 'dir'}, {'a': 'dir', 'a/b': 'dir', 'a/b/x': b'x'}, {'a': b'file'}, {'a': 'dir', 'a/b': 'dir', 'a/b/c': 'dir'}, {'z': 'dir', 'a': 'link:z'}):
            for path in ('a', 'a/b', 'a/b/c', 'a/', 'n ew'):
                put(root, tree)
                c.states += 1; c.transitions += 1
                try: fn(os.path.join(root, path)); ok = True
                except OSError: ok = False
                after = snap(root)
                if any(after.get(p) != v for p, v in tree.items()): c.violation(f'{name}:changed', tree=tree, path=path, after=after)
                there = os.path.isdir(os.path.join(root, path))
                usable = not isinstance(tree.get('a'), bytes) or path == 'n ew'
                parent = path in ('a', 'a/', 'n ew') or tree.get('a') in ('dir', 'link:z') and (path == 'a/b' or tree.get('a/b') == 'dir')
                if usable and (parent or name == 'ensure_dir') and not (ok and there): c.violation(f'{name}:missing', tree=tree, path=path)
                if name == 'ensure_dir_single' and not parent and (ok or after != tree): c.violation(f'{name}:parents', tree=tree, path=path)


def run(c):
    sys.addaudithook(hook)
    c.assume('files of a release are eml_*.h and VERSION.txt', 'an empty library directory may be filled or refused', 'headers that a new release no longer has may stay')
    directories(c)
    histories(c)
    c.log('histories')
    command_line(c)
    c.sample(history=['install release 1', 'edit eml_a.h', 'update to release 2', 'install'], start='library with foreign files')
