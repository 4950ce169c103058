"""C39 Host compilation: explicit-state exploration of histories of edits, compilations (source, headers, output place, include order, failures) and runs,
against a reference that says what every executable prints."""
import contextlib, io, itertools, multiprocessing, os, shutil, subprocess, tempfile

SOURCES = ('p/main.c', 'q/main.c', 'p 2/other.v2.c')
HEADERS = ('inc 1/v.h', 'inc2/v.h')


def source(f, version):
    return ('#include <stdio.h>\n#include <math.h>\n#include "v.h"\nint main(int argc, char **argv) { double x = argc; for (int i=0; i<1; i++) '
            f'printf("%s {f} {version} %d %.17g %s\\n", "is", V, cbrt(x)+pow(x+1, 0.5), argc > 1 ? argv[1] : ""); return {version}; }}\n')


def header(f, version): return f'#define V {HEADERS.index(f)*10+version}\n'


BROKEN = {'syntax': 'int main(void) { return 0;\n', 'link': '#include "v.h"\nint missing(void);\nint main(void) { return missing(); }\n', 'error': '#error no\nint main(void) { return 0; }\n'}


def compiles(full):
    """what one call can ask for"""
    out = []
    for src in SOURCES + (('absent.c',) if full else ()):
        for place in (('o1', 'main'), ('o1', 'two'), ('o 2', 'main'), ('deep/er', 'v1.3'), ('o1', 'a name')) if full else (('o1', 'main'), ('o 2', 'main'), ('o1', 'v1.2')):
            for inc in ((0,), (1,), (0, 1), (1, 0), ()) if full else ((0,), (1, 0)):
                for absolute in (False, True):
                    out.append(('compile', src, place, inc, absolute))
    return out


def edits():
    out = [('edit', f) for f in SOURCES] + [('edit', f) for f in HEADERS]
    out += [('break', SOURCES[0], kind) for kind in BROKEN]
    out += [('remove', SOURCES[0]), ('remove', HEADERS[0]), ('delete', 'o1'), ('chdir',)]
    return out


class World:
    def __init__(self, root):
        self.root, self.cwd = root, root
        self.version = {f: 1 for f in SOURCES+HEADERS}
        self.kind = {}
        self.made = {}          # absolute path -> (text, status) that it prints
        self.unsure = set()
        for f in self.version: self.write(f)

    def write(self, f):
        p = os.path.join(self.root, f); os.makedirs(os.path.dirname(p), exist_ok=True)
        v = self.version[f]
        text = None if v is None else BROKEN[self.kind[f]] if f in self.kind else source(f, v) if f.endswith('.c') else header(f, v)
        if text is None:
            if os.path.exists(p): os.unlink(p)
            return
        with open(p, 'w') as h: h.write(text)
        os.utime(p, (1600000000, 1600000000))   # times of files do not tell that they changed

    def expect(self, src, inc):
        if src not in self.version or self.version[src] is None: return 'fails'
        k = self.kind.get(src)
        if k in ('syntax', 'error'): return 'fails'
        found = [HEADERS[i] for i in inc if self.version[HEADERS[i]] is not None]
        if not found: return 'fails'
        if k == 'link': return 'fails-late'
        h, v = found[0], self.version[src]
        hv = self.version[h]
        return lambda arg: (f"is {src} {v} {HEADERS.index(h)*10+hv} {self.value(arg)} {arg}\n", v)

    def value(self, arg):
        x = 2.0 if arg else 1.0
        return VALUES[x]

    def inputs(self):
        return {f: open(os.path.join(self.root, f)).read() for f, v in self.version.items() if v is not None}


VALUES = {}


def run_one(path, arg):
    r = subprocess.run([path] + ([arg] if arg else []), capture_output=True, timeout=60, cwd='/')
    return r.stdout.decode(), r.returncode


def history(ops, base):
    """-> list of problems"""
    from emlearn.common import compile_executable
    root = tempfile.mkdtemp(dir=base)
    w = World(root); bad = []; n = 0
    os.chdir(root)
    try:
        for step, op in enumerate(ops):
            if op[0] == 'edit':
                f = op[1]; w.kind.pop(f, None); w.version[f] = 2 if w.version[f] == 1 else 1; w.write(f)
            elif op[0] == 'break': w.version[op[1]] = 1; w.kind[op[1]] = op[2]; w.write(op[1])
            elif op[0] == 'remove': w.version[op[1]] = None; w.kind.pop(op[1], None); w.write(op[1])
            elif op[0] == 'delete':
                d = os.path.join(root, op[1]); shutil.rmtree(d, ignore_errors=True)
                w.made = {p: e for p, e in w.made.items() if not p.startswith(d+'/')}
            elif op[0] == 'chdir':
                w.cwd = os.path.join(root, 'p') if w.cwd == root else root; os.chdir(w.cwd)
            else:
                _, src, (out, name), inc, absolute = op
                place = (lambda p: os.path.join(root, p)) if absolute else (lambda p: os.path.relpath(os.path.join(root, p), w.cwd))
                dirs = [place(os.path.dirname(HEADERS[i])) for i in inc]; given = list(dirs)
                before = w.inputs(); want = w.expect(src, inc); target = os.path.join(root, out, name)
                kw = {}
                if name != 'main' or absolute: kw['name'] = name
                if inc or absolute: kw['include_dirs'] = dirs
                try: got = compile_executable(place(src), place(out), **kw)
                except Exception as e: got = e
                if dirs != given: bad.append(('include-dirs', step, dict(before=given, after=dirs)))
                if w.inputs() != before: bad.append(('inputs-changed', step, {}))
                if want in ('fails', 'fails-late'):
                    if not isinstance(got, Exception): bad.append(('not-refused', step, dict(returned=repr(got))))
                    if want == 'fails-late': w.made.pop(target, None)   # a linker may take the old one away
                elif isinstance(got, Exception): bad.append(('refused', step, dict(error=repr(got)[:300])))
                elif os.path.abspath(got) != target or os.path.isabs(got) != absolute: bad.append(('path', step, dict(returned=got, want=place(os.path.join(out, name)))))
                else: w.made[target] = [want(a) for a in ('', 'x')]
                if os.getcwd() != w.cwd: bad.append(('cwd', step, dict(cwd=os.getcwd())))
            for p, e in w.made.items():
                n += 1
                try: r = [run_one(p, a) for a in ('', 'x')]
                except OSError as x: r = repr(x)
                if r != e: bad.append(('prints', step, dict(executable=os.path.relpath(p, root), got=r, want=e)))
            if bad: break
    finally:
        os.chdir('/')
        shutil.rmtree(root, ignore_errors=True)
    return bad, n


def work(job):
    ops, base = job
    try: return ops, *history(ops, base)
    except Exception as e:
        import traceback
        return ops, [('harness', 0, dict(error=traceback.format_exc()))], 0


def quiet():
    null = os.open(os.devnull, os.O_WRONLY); os.dup2(null, 2); os.dup2(null, 1)


def values(c):
    """cbrt and pow of this machine, from a program compiled directly"""
    p = os.path.join(c.scratch, 'ref.c')
    open(p, 'w').write('#include <stdio.h>\n#include <math.h>\nint main(int argc, char **argv) { for (double x=1; x<3; x++) { volatile double y = x; printf("%.17g\\n", cbrt(y)+pow(y+1, 0.5)); } return 0; }\n')
    subprocess.run(['gcc', '-O0', '-o', p[:-2], p, '-lm'], check=True)
    VALUES.update(zip((1.0, 2.0), subprocess.check_output([p[:-2]]).decode().split()))


def run(c):
    values(c)
    full, few, ed = compiles(True), compiles(False), edits()
    small = [o for o in few if o[1] != SOURCES[2] and o[2] in (('o1', 'main'), ('o 2', 'main')) and not o[4]]
    jobs = [[a] for a in full]
    jobs += [[a, b] for a in ed for b in full if not c.quick or b in few or a[0] == 'remove']
    jobs += [[a, b] for a in few for b in few]
    jobs += [[a, e, b] for a in (small if c.quick else few) for e in ed for b in (small if c.quick else few)]
    if not c.quick:
        jobs += [[a, b, d] for a in few for b in small for d in small]
        jobs += [[e, a, f, b] for e in ed for a in small[:4] for f in ed for b in small[:4]]
        jobs += [[a, b] for a in full for b in full]
    c.log('histories', len(jobs))
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(8, initializer=quiet) as pool:
        for ops, bad, n in pool.imap_unordered(work, [(j, c.scratch) for j in jobs], chunksize=8):
            c.traces += 1; c.transitions += len(ops); c.states += len(ops)+1; c.count('runs', n)
            for o in ops: c.count(o[0])
            for what, step, detail in bad:
                if what == 'harness': raise RuntimeError(detail['error'])
                c.violation(what+':'+repr(ops[step])+':after:'+repr(ops[:step]), history=ops, step=step, **detail)
    c.sample(history=jobs[-1]); c.sample(history=jobs[len(jobs)//2])
    c.bound(depth='all pairs of compilations, and compilation, edit, compilation over a reduced set' if c.quick else 'all pairs, compilation-edit-compilation, reduced sequences of four')
    c.assume('the compiler of the machine is right', 'where object files go is not judged')
