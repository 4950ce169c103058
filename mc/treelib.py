"""Exhaustive generation of decision trees / forests, real scikit-learn estimators built from them,
and batch execution of the C code emlearn generates for them."""
import itertools, os, struct
from concurrent.futures import ThreadPoolExecutor
import numpy
from . import cbuild
from .core import Harness

DOUBLE, INTP = numpy.float64, numpy.int64

# ---------------------------------------------------------------- tree specs
# A shape is None (leaf) or (left, right).

def shapes(n_internal):
    if n_internal == 0:
        return [None]
    out = []
    for l in range(n_internal):
        for a in shapes(l):
            for b in shapes(n_internal-1-l):
                out.append((a, b))
    return out


def shape_nodes(shape):
    """list of (parent, side) per node in preorder; node 0 is the root. Returns also the leaf flags."""
    parents, leaf = [], []
    def rec(s, parent, side):
        idx = len(parents)
        parents.append((parent, side))
        leaf.append(s is None)
        if s is not None:
            rec(s[0], idx, 0)
            rec(s[1], idx, 1)
    rec(shape, -1, 0)
    return parents, leaf


def orders(shape):
    """all node numberings in which a parent comes before its children (positions: preorder idx -> number)"""
    parents, leaf = shape_nodes(shape)
    n = len(parents)
    kids = {i: [] for i in range(n)}
    for i, (p, _) in enumerate(parents):
        if p >= 0:
            kids[p].append(i)
    out = []
    def rec(seq, avail):
        if len(seq) == n:
            pos = [0]*n
            for k, i in enumerate(seq):
                pos[i] = k
            out.append(tuple(pos))
            return
        for a in sorted(avail):
            rec(seq+[a], (avail - {a}) | set(kids[a]))
    rec([], {0})
    return out


def preorder(shape):
    return tuple(range(len(shape_nodes(shape)[0])))


def bfs_order(shape):
    parents, leaf = shape_nodes(shape)
    n = len(parents)
    depth = [0]*n
    for i, (p, _) in enumerate(parents):
        depth[i] = 0 if p < 0 else depth[p]+1
    seq = sorted(range(n), key=lambda i: (depth[i], i))
    pos = [0]*n
    for k, i in enumerate(seq):
        pos[i] = k
    return tuple(pos)


class TreeSpec:
    """children as arrays, like scikit-learn; splits: list of (feature, threshold) in preorder of internal nodes;
    leaves: list of value vectors (classes proportions or [value]) in preorder of leaves"""
    def __init__(self, shape, splits, leaves, order=None):
        parents, leaf = shape_nodes(shape)
        n = len(parents)
        order = order or preorder(shape)
        self.n = n
        self.left = [-1]*n
        self.right = [-1]*n
        self.feature = [-2]*n
        self.threshold = [-2.0]*n
        n_out = len(leaves[0])
        self.value = [[0.0]*n_out for _ in range(n)]
        si = li = 0
        for i in range(n):
            k = order[i]
            p, side = parents[i]
            if p >= 0:
                (self.left if side == 0 else self.right)[order[p]] = k
            if leaf[i]:
                self.value[k] = list(leaves[li]); li += 1
            else:
                self.feature[k], self.threshold[k] = splits[si]; si += 1
        assert si == len(splits) and li == len(leaves), (shape, splits, leaves)
        # inner node values: the average, as a fitted tree would hold something non-trivial
        def fill(k):
            if self.left[k] < 0:
                return numpy.array(self.value[k], float)
            v = (fill(self.left[k]) + fill(self.right[k])) / 2
            self.value[k] = list(v)
            return v
        if n < 400:
            fill(0)
        self.shape = shape

    def describe(self):
        return dict(left=self.left, right=self.right, feature=self.feature, threshold=self.threshold, value=self.value)

    def depth(self):
        d = [0]*self.n
        best = 0
        stack = [(0, 0)]
        while stack:
            k, dd = stack.pop()
            best = max(best, dd)
            if self.left[k] >= 0:
                stack += [(self.left[k], dd+1), (self.right[k], dd+1)]
        return best


_dtype_cache = {}

def sk_tree(spec, n_features, n_outputs_classes):
    """a genuine sklearn Tree holding exactly this structure"""
    from sklearn.tree._tree import Tree
    nc = numpy.array([n_outputs_classes], dtype=INTP)
    t = Tree(n_features, nc, 1)
    st = t.__getstate__()
    if 'nodes' not in _dtype_cache:
        # get the node dtype from a fitted tree
        from sklearn.tree import DecisionTreeClassifier
        d = DecisionTreeClassifier(max_depth=1).fit([[0.], [1.]], [0, 1])
        _dtype_cache['nodes'] = d.tree_.__getstate__()['nodes'].dtype
    nodes = numpy.zeros(spec.n, dtype=_dtype_cache['nodes'])
    nodes['left_child'] = spec.left
    nodes['right_child'] = spec.right
    nodes['feature'] = spec.feature
    nodes['threshold'] = spec.threshold
    nodes['impurity'] = 0.1
    nodes['n_node_samples'] = 10
    nodes['weighted_n_node_samples'] = 10.0
    values = numpy.array(spec.value, dtype=DOUBLE).reshape(spec.n, 1, n_outputs_classes)
    t.__setstate__(dict(max_depth=spec.depth(), node_count=spec.n, nodes=nodes, values=values))
    return t


def sk_estimator(kind, specs, n_features, n_classes=0):
    """kind: DecisionTreeClassifier / RandomForestClassifier / ExtraTrees... ; returns a real estimator object"""
    from sklearn import tree as sktree, ensemble
    reg = kind.endswith('Regressor')
    base = sktree.DecisionTreeRegressor if reg else sktree.DecisionTreeClassifier
    if kind.startswith('ExtraTrees'):
        base = sktree.ExtraTreeRegressor if reg else sktree.ExtraTreeClassifier
    def one(spec):
        e = base()
        e.tree_ = sk_tree(spec, n_features, 1 if reg else n_classes)
        e.n_features_in_ = n_features
        e.n_outputs_ = 1
        e.max_features_ = n_features
        if not reg:
            e.n_classes_ = n_classes
            e.classes_ = numpy.arange(n_classes)
        return e
    ests = [one(s) for s in specs]
    if kind.startswith('DecisionTree'):
        assert len(ests) == 1
        return ests[0]
    f = getattr(ensemble, kind)(n_estimators=len(ests))
    f.estimators_ = ests
    f.n_features_in_ = n_features
    f.n_outputs_ = 1
    f.estimator_ = base()
    if not reg:
        f.n_classes_ = n_classes
        f.classes_ = numpy.arange(n_classes)
    return f


def source_leaf_values(est, X):
    """[n_trees, n_rows, n_outputs]: values of the leaves the SOURCE model reaches (scikit-learn's own traversal)"""
    ests = list(est.estimators_) if hasattr(est, 'estimators_') else [est]
    Xf = numpy.ascontiguousarray(X, dtype=numpy.float32)
    out = []
    for e in ests:
        leaves = e.tree_.apply(Xf)
        out.append(e.tree_.value[leaves, 0, :])
    return numpy.array(out)


# ---------------------------------------------------------------- batch execution of generated code

CT = {'int16_t': numpy.int16, 'int8_t': numpy.int8, 'int32_t': numpy.int32, 'uint8_t': numpy.uint8,
      'uint16_t': numpy.uint16, 'float': numpy.float32}

RUNNER = r'''
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
%(code)s

typedef void (*runner_t)(const double *in, int rows, double *out);
%(runners)s
static const struct { runner_t fn; int nf; int no; } table[] = { %(table)s };

int main(int argc, char **argv) {
    FILE *in = fopen(argv[1], "rb"), *out = fopen(argv[2], "wb");
    const int n = sizeof(table)/sizeof(table[0]);
    for (int i=0; i<n; i++) {
        int32_t rows;
        if (fread(&rows, 4, 1, in) != 1) return 7;
        double *x = malloc(sizeof(double)*rows*table[i].nf+1);
        double *y = malloc(sizeof(double)*rows*table[i].no+1);
        if (fread(x, sizeof(double), (size_t)rows*table[i].nf, in) != (size_t)rows*table[i].nf) return 7;
        fprintf(stderr, "@%%d\n", i);
        table[i].fn(x, rows, y);
        fwrite(y, sizeof(double), (size_t)rows*table[i].no, out);
        free(x); free(y);
    }
    fclose(out);
    return 0;
}
'''

CLS = r'''
static void run_%(i)d(const double *in, int rows, double *out) {
    %(t)s *f = malloc(sizeof(%(t)s)*%(nf)d);
    float *p = malloc(sizeof(float)*%(nc)d);
    for (int r=0; r<rows; r++) {
        for (int k=0; k<%(nf)d; k++) f[k] = (%(t)s)in[r*%(nf)d+k];
        double *o = out + r*%(no)d;
        o[0] = %(name)s_predict(f, %(nf)d);
        for (int k=0; k<%(nc)d; k++) p[k] = -77.0f;
        o[1] = %(name)s_predict_proba(f, %(nf)d, p, %(nc)d);
        for (int k=0; k<%(nc)d; k++) o[2+k] = p[k];
        o[2+%(nc)d] = 0;
        for (int k=0; k<%(nf)d; k++) if (f[k] != (%(t)s)in[r*%(nf)d+k]) o[2+%(nc)d] = 1; /* input modified */
        const double again = %(name)s_predict(f, %(nf)d);
        if (again != o[0]) o[2+%(nc)d] = 2; /* not repeatable */
    }
    free(f); free(p);
}
'''
REG = r'''
static void run_%(i)d(const double *in, int rows, double *out) {
    %(t)s *f = malloc(sizeof(%(t)s)*%(nf)d);
    for (int r=0; r<rows; r++) {
        for (int k=0; k<%(nf)d; k++) f[k] = (%(t)s)in[r*%(nf)d+k];
        double *o = out + r*2;
        o[0] = %(name)s_predict(f, %(nf)d);
        o[1] = 0;
        const double again = %(name)s_predict(f, %(nf)d);
        if (!(again == o[0])) o[1] = 2;
    }
    free(f);
}
'''


class Job:
    """one converted model to be executed on a grid of inputs"""
    def __init__(self, code, name, n_features, n_classes, classifier, X, dtype='int16_t', tag=None):
        self.code, self.name, self.nf, self.nc = code, name, n_features, n_classes
        self.classifier, self.X, self.dtype, self.tag = classifier, numpy.asarray(X, dtype=float), dtype, tag
        self.no = (3 + n_classes) if classifier else 2


def run_jobs(c, jobs, label='trees', flags=cbuild.FAST, chunk=80):
    """compile and run; returns list of output arrays [rows, no]. A crash is turned into ImplFailure naming the model"""
    d = c.dir(label)
    chunks = [jobs[i:i+chunk] for i in range(0, len(jobs), chunk)]
    def work(ci):
        js = chunks[ci]
        runners, table = [], []
        for i, j in enumerate(js):
            runners.append((CLS if j.classifier else REG) % dict(i=i, t=j.dtype, nf=j.nf, nc=j.nc, no=j.no, name=j.name))
            table.append('{run_%d,%d,%d}' % (i, j.nf, j.no))
        src = cbuild.write(os.path.join(d, f'c{ci}.c'), RUNNER % dict(
            code='\n'.join(j.code for j in js), runners='\n'.join(runners), table=',\n'.join(table)))
        exe = cbuild.compile_c([src], os.path.join(d, f'c{ci}.exe'), flags=flags, extra=['-Werror=overflow', '-Werror=implicit-function-declaration'], key='generated-code-does-not-compile')
        fin, fout = os.path.join(d, f'c{ci}.in'), os.path.join(d, f'c{ci}.out')
        with open(fin, 'wb') as f:
            for j in js:
                f.write(struct.pack('<i', len(j.X)))
                f.write(numpy.ascontiguousarray(j.X, dtype='<f8').tobytes())
        try:
            cbuild.run_exe(exe, [fin, fout], key='generated-code-fails')
        except cbuild.ImplFailure as e:
            err = e.detail.get('stderr', '')
            marks = [l for l in err.split('\n') if l.startswith('@')]
            if marks:
                j = js[int(marks[-1][1:])]
                e.detail['model'] = str(j.tag)[:3000]
            raise
        raw = numpy.fromfile(fout, dtype='<f8')
        res, o = [], 0
        for j in js:
            n = len(j.X)*j.no
            res.append(raw[o:o+n].reshape(len(j.X), j.no)); o += n
        if o != len(raw):
            raise Harness('output size')
        for p in (src, exe, fin, fout):
            os.unlink(p)
        return res
    with ThreadPoolExecutor(8) as ex:
        out = list(ex.map(work, range(len(chunks))))
    return [r for ch in out for r in ch]


def grid_for(specs, n_features, lo=-32768, hi=32767, extra=(), integral=True, limit=4000):
    """all combinations of per-feature representatives: every region and every boundary neighbour of the thresholds used"""
    per = []
    for f in range(n_features):
        vals = set()
        for s in specs:
            for k in range(s.n):
                if s.left[k] >= 0 and s.feature[k] == f:
                    th = s.threshold[k]
                    fl = int(numpy.floor(th))
                    vals |= {fl-1, fl, fl+1, fl+2}
        vals |= set(extra)
        if not vals:
            vals = {0}
        per.append(sorted(v for v in vals if lo <= v <= hi))
    total = 1
    for v in per:
        total *= len(v)
    if total <= limit:
        return numpy.array(list(itertools.product(*per)), dtype=float)
    return None


def inputs(specs, nf, limit=400):
    X = grid_for(specs, nf, limit=limit)
    if X is None:
        # too many combinations: per feature representatives with the others at low / middle / high
        rows = []
        base = [[-32768]*nf, [0]*nf, [32767]*nf, [1]*nf]
        for f in range(nf):
            vals = set()
            for s in specs:
                for k in range(s.n):
                    if s.left[k] >= 0 and s.feature[k] == f:
                        fl = int(numpy.floor(s.threshold[k])); vals |= {fl, fl+1}
            for b in base:
                for v in sorted(vals):
                    r = list(b); r[f] = v; rows.append(r)
        rows += base
        X = numpy.array(rows, dtype=float)
    return X



def onehot(k, n):
    v = [0.0]*n
    v[k] = 1.0
    return v


def soft(k, n):
    """leaf whose arg-max is class k but which is not pure"""
    v = [0.3/(n-1) if n > 1 else 0.0]*n
    v[k] = 0.7 if n > 1 else 1.0
    return v


def small_library(ncls):
    """small trees used to compose forests"""
    S0, S1 = None, (None, None)
    L, R, B = ((None, None), None), (None, (None, None)), ((None, None), (None, None))
    T = []
    for k in range(ncls):
        T.append(TreeSpec(S0, [], [soft(k, ncls)]))
    T.append(TreeSpec(S1, [(0, 0.5)], [soft(0, ncls), soft(1, ncls)]))
    T.append(TreeSpec(S1, [(1, 1.0)], [soft(2, ncls), soft(0, ncls)], order=(0, 2, 1)))
    T.append(TreeSpec(S1, [(1, -0.5)], [soft(1, ncls), soft(1, ncls)]))
    T.append(TreeSpec(L, [(0, 1.5), (1, 0.5)], [soft(2, ncls), soft(1, ncls), soft(0, ncls)]))
    T.append(TreeSpec(R, [(1, 0.5), (0, 0.0)], [soft(1, ncls), soft(0, ncls), soft(2, ncls)], order=(0, 4, 1, 2, 3)))
    T.append(TreeSpec(B, [(0, 0.5), (1, 1.5), (1, 0.5)], [soft(0, ncls), soft(2, ncls), soft(2, ncls), soft(1, ncls)], order=bfs_order(B)))
    T.append(TreeSpec((L, R), [(0, 0.5), (1, 1.5), (0, -1.5), (1, -0.5), (0, 1.5)], [soft(k % ncls, ncls) for k in (1, 0, 2, 2, 0, 1)]))
    return T



def comb(d, side):
    """a degenerate tree of depth d, growing to the left (side 0) or right"""
    s = None
    for _ in range(d):
        s = (s, None) if side == 0 else (None, s)
    return s


def comb_splits(d, side, feature=0, step=1.0, offset=0.5):
    """thresholds such that consecutive values of the feature reach the leaves in order"""
    return [(feature, step*(d-k-1)+offset if side == 0 else step*k+offset) for k in range(d)]


def regrid(leaves):
    return [[float(v)] for v in leaves]


# Models as large as the loadable format can index: balanced trees with 32768 leaves (the node and leaf references use all of
# their 16 bits), several of them sharing one leaf table, so that nodes, roots and leaf offsets pass every 8, 15 and 16 bit limit.
# The layout is that of generated code: an EmlTrees initialised in declaration order.
BIG = r'''
#include <eml_trees.h>
static EmlTreesNode *N; static int32_t nn; static int feature; static int variant; static int32_t leaves_n;
static int32_t leaf_of(int32_t position) { return variant ? leaves_n-1-position : position; }
/* subtree over the leaf positions [a, b); returns the index of its root. The feature value of position p is p-16384 */
static int32_t grow(int32_t a, int32_t b) {
    int32_t me = nn++, mid = a+(b-a)/2; if (mid == a) mid = a+1;
    N[me].feature = feature; N[me].value = (int16_t)(mid-16384);
    int32_t l = mid-a > 1 ? grow(a, mid)-me : -leaf_of(a)-1; N[me].left = (int16_t)l;
    int32_t r = b-mid > 1 ? grow(mid, b)-me : -leaf_of(mid)-1; N[me].right = (int16_t)r;
    return me;
}
#define MAXT 4
static int32_t roots[MAXT]; static int16_t x[127];
static int byte_at(int32_t leaf, int c) { return (int)((leaf*31u + c*17u + (unsigned)leaf/256u*7u) & 255u); }
static float value_at(int32_t leaf) { return leaf*0.5f-3000.25f; }
int main(int argc, char **argv) {
    const int bits = atoi(argv[1]), thorough = atoi(argv[2]);
    static const int32_t SIZES[] = { 2, 255, 256, 257, 8191, 8192, 8193, 16383, 16384, 16385, 21846, 32767, 32768 };
    static const int CLASSES[] = { 2, 3, 4, 8, 10, 30 };
    static float out[40];
    for (unsigned s=0; s<sizeof SIZES/sizeof *SIZES; s++) for (int trees=1; trees<=MAXT; trees++) for (unsigned ci=0; ci<(bits == 32 ? 1u : 6u); ci++) {
        if (!thorough && trees > 1 && ci != s % 6 && bits != 32) continue;
        const int32_t L = SIZES[s]; const int C = bits == 32 ? 0 : CLASSES[ci]; leaves_n = L;
        const size_t bytes = (size_t)L*(bits == 0 ? 1 : bits == 8 ? C : 4);
        N = mc_buf(sizeof(EmlTreesNode)*(size_t)(L-1)*trees); nn = 0;
        uint8_t *held = mc_buf(bytes+1), *leaves = held+1; /* no alignment is promised */
        for (int32_t l=0; l<L; l++) {
            if (bits == 0) leaves[l] = (uint8_t)(byte_at(l, 0) % C);
            else if (bits == 8) for (int c=0; c<C; c++) leaves[(size_t)l*C+c] = (uint8_t)byte_at(l, c);
            else { float v = value_at(l); memcpy(leaves+(size_t)l*4, &v, 4); }
        }
        for (int t=0; t<trees; t++) { feature = t == 0 ? 0 : t == 1 ? 126 : t == 2 ? 63 : 1; variant = t & 1; roots[t] = grow(0, L); }
        EmlTrees f = { nn, N, trees, roots, (int32_t)bytes, leaves, (int8_t)bits, 127, (int8_t)C };
        if (bits == 32) f.n_leaves = (int32_t)bytes;
        const int32_t step = trees == 1 && (thorough || L < 9000 || ci == 5 || bits == 32) ? 1 : 7;
        mc_states++;
        for (int32_t p=0; p<L; p++) {
            if (p % step && p < L-200 && p > 200 && (p & 255) > 1 && (p & 255) < 254) continue;
            const int32_t pos[MAXT] = { p, (int32_t)(((int64_t)p*7919+13) % L), L-1-p, (int32_t)(((int64_t)p*104729+5) % L) };
            memset(x, 0, sizeof x); x[0] = (int16_t)(pos[0]-16384); x[126] = (int16_t)(pos[1]-16384); x[63] = (int16_t)(pos[2]-16384); x[1] = (int16_t)(pos[3]-16384);
            mc_transitions += trees; mc_traces++;
            double want[40] = {0};
            for (int t=0; t<trees; t++) { variant = t & 1; const int32_t l = leaf_of(pos[t]);
                if (bits == 0) want[byte_at(l, 0) % C] += 1.0/trees; else if (bits == 8) for (int c=0; c<C; c++) want[c] += byte_at(l, c)/255.0/trees; else want[0] += (double)value_at(l)/trees; }
            if (bits == 32) {
                out[0] = -1e30f; const EmlError e = eml_trees_regress(&f, x, 127, out, 1);
                if (e != EmlOk || !(fabs(out[0]-want[0]) <= 20000*1e-6) || eml_trees_regress1(&f, x, 127) != out[0]) { mc_fail("large:value", "%d leaves %d trees position %d: %g expected %g, status %d", L, trees, p, out[0], want[0], e); goto next; }
                continue;
            }
            for (int c=0; c<C; c++) out[c] = -7;
            const EmlError e = eml_trees_predict_proba(&f, x, 127, out, C);
            for (int c=0; c<C; c++) if (e != EmlOk || !(fabs(out[c]-want[c]) <= 2e-6)) { mc_fail("large:probability", "%d leaves %d trees %d classes position %d class %d: %g expected %g, status %d", L, trees, C, p, c, out[c], want[c], e); goto next; }
            const int32_t cls = eml_trees_predict(&f, x, 127); double best = -1; for (int c=0; c<C; c++) if (want[c] > best) best = want[c];
            int first = 0; while (first < C && out[first] < best-3e-6) first++;
            if (cls < 0 || cls >= C || want[cls] < best-4e-6 || (bits == 0 && cls != first)) { mc_fail("large:class", "%d leaves %d trees %d classes position %d: class %d expected %d", L, trees, C, p, cls, first); goto next; }
        }
        next: free(N); free(held);
    }
    return mc_end();
}
'''


def large(c, bits):
    """hand-built models at the limits of the loadable format, every leaf visited"""
    from . import drive
    exe = drive.build(c, f'large{bits}', BIG)
    drive.run_many(c, exe, [(str(bits), c.pick('0', '1'))], f'large{bits}')
    c.bound(large_models='balanced trees to 32768 leaves, 1-4 trees on one leaf table')
