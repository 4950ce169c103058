"""C31 Pareto front: every results table up to a number of rows over a small grid of costs and scores, every option, any index and other columns."""
import itertools, math
import numpy


def dominated(i, rows, higher):
    ci, si = rows[i]
    for j, (cj, sj) in enumerate(rows):
        if j == i: continue
        a, b = (sj >= si, sj > si) if higher else (sj <= si, sj < si)
        if cj <= ci and a and (cj < ci or b): return True
    return False


def drawn(ax):
    """(lines, points) of a plot: every line as (label, distinct points in order)"""
    lines = []
    for l in ax.lines:
        pts = []
        for q in zip(map(float, l.get_xdata()), map(float, l.get_ydata())):
            if not pts or pts[-1] != q: pts.append(q)
        if pts: lines.append((str(l.get_label()), tuple(pts)))
    points = [tuple(map(float, q)) for k in ax.collections if hasattr(k, 'get_offsets') for q in k.get_offsets() if tuple(q) != (0.0, 0.0)]
    return sorted(lines), sorted(points)


def plots(c, pandas):
    """the plot shows the results and their front"""
    import os
    os.environ['MPLCONFIGDIR'] = c.dir('mpl')
    try:
        import matplotlib; matplotlib.use('Agg')
        import seaborn, matplotlib.pyplot as plt
    except ImportError:
        c.assume('seaborn is not installed, plots are not compared'); return
    from emlearn.evaluate.pareto import plot_pareto_front
    A, B = [(2, 2), (1, 1), (3, 2), (4, 5), (3, 4)], [(4, 1), (1, 4), (2, 5), (2, 5)]
    tables = [A, B, A[::-1], [(1, 1)], [(3, 1), (2, 1), (1, 1)], [(1, 1), (2, 2), (3, 3), (4, 4)]]
    options = [dict(zip(('hue', 'pareto_global', 'pareto_cut', 'plot_other', 'plot_pareto', 'names'), v)) for v in
               itertools.product((None, 'kind', 'number'), (False, True), (None, 2, 9), (True, False), (True, False), (False, True))]
    for ti, rows in enumerate(tables):
        for oi, o in enumerate(options):
            if (oi*5+ti) % (c.pick(9, 2)): continue
            cost, perf, size = ('c', 'p', 's') if o['names'] else ('mean_test_compute', 'mean_test_accuracy', 'mean_test_size')
            df = pandas.DataFrame({cost: [r[0] for r in rows], perf: [r[1] for r in rows], size: list(range(1, len(rows)+1)), 'kind': ['xyx'[i % 3] for i in range(len(rows))], 'number': [i % 2 for i in range(len(rows))]})
            before = df.copy(deep=True)
            kw = {k: v for k, v in o.items() if k != 'names' and not (k == 'hue' and v is None) and not (k == 'pareto_cut' and v is None) and not (k == 'pareto_global' and not v) and not (k in ('plot_other', 'plot_pareto') and v)}
            if o['names']: kw.update(cost_metric=cost, performance_metric=perf, size_metric=size)
            c.states += 1; c.transitions += 1; c.traces += 1; c.count('plots')
            try:
                g = plot_pareto_front(df, **kw)
                lines, points = drawn(g.axes[0, 0])
            except Exception as e:
                c.violation(f'plot-fails:{sorted(kw)}', rows=rows, options=kw, error=f'{type(e).__name__}: {e}'); continue
            finally:
                plt.close('all')
            front = [i for i in range(len(rows)) if not dominated(i, rows, True) and (o['pareto_cut'] is None or rows[i][1] >= o['pareto_cut'])]
            groups = [None] if o['hue'] is None else list(dict.fromkeys(df[o['hue']]))
            want = []
            for k in groups if o['plot_pareto'] else ():
                pts = sorted({rows[i] for i in front if o['hue'] is None or o['pareto_global'] or df[o['hue']][i] == k})
                if pts: want.append((str(k), tuple((float(a), float(b)) for a, b in pts)))
            if o['hue'] is None: lines = [('None', p) for _, p in lines]
            if lines != sorted(want): c.violation('plot-front', rows=rows, options=kw, drawn=lines, expected=sorted(want))
            if points != (sorted((float(a), float(b)) for a, b in rows) if o['plot_other'] else []): c.violation('plot-points', rows=rows, options=kw, drawn=points)
            if not df.equals(before): c.violation('plot-modifies-input', rows=rows, options=kw)


def run(c):
    import pandas
    from emlearn.evaluate.pareto import find_pareto_front
    c.assume('costs and scores are numbers (no NaN)')
    memo = {}

    def check(rows, cost='mean_test_compute', perf='mean_test_accuracy', higher=True, cut=None, index=None, dtype=(float, float), extra=True, explicit=False, order=0):
        cols = {cost: numpy.array([r[0] for r in rows], dtype=dtype[0]), perf: numpy.array([r[1] for r in rows], dtype=dtype[1])}
        if extra:
            cols['params'] = [{'n': i} for i in range(len(rows))]
            cols['name'] = [f'r{i}' for i in range(len(rows))]
            cols['mean_test_size'] = list(range(len(rows)))[::-1]
        keys = list(cols)
        if order: keys = keys[order:] + keys[:order]
        df = pandas.DataFrame({k: cols[k] for k in keys}, index=index)
        before = df.copy(deep=True)
        kw = {}
        if explicit or cost != 'mean_test_compute': kw['cost_metric'] = cost
        if explicit or perf != 'mean_test_accuracy': kw['performance_metric'] = perf
        if explicit or not higher: kw['higher_is_better'] = higher
        if cut is not None: kw['min_performance'] = cut
        out = find_pareto_front(df, **kw)
        c.transitions += 1
        key = (tuple(rows), higher)
        if key not in memo:
            if len(memo) > 200000: memo.clear()
            memo[key] = [i for i in range(len(rows)) if not dominated(i, rows, higher)]
        want = [i for i in memo[key] if cut is None or (rows[i][1] >= cut if higher else rows[i][1] <= cut)]
        what = dict(rows=rows if len(rows) < 20 else len(rows), higher=higher, cut=cut, index=None if index is None else list(index)[:10])
        expect = before.iloc[want]
        if list(out.columns) != list(before.columns):
            c.violation('columns', got=list(out.columns), **what); return
        same = len(out) == len(expect) and list(out.index) == list(expect.index) and all(list(out[k]) == list(expect[k]) for k in out.columns)
        if not same:
            c.violation('front', got=list(out.index), got_rows=[tuple(r) for r in out[[cost, perf]].values], expected=[rows[i] for i in want], **what)
        if not df.equals(before) or list(df.index) != list(before.index):
            c.violation('input-modified', **what)
        if not all(out[k].dtype == before[k].dtype for k in out.columns):
            c.violation('dtypes', **what)
        # the result is a table of its own
        if len(out):
            out.iloc[0, out.columns.get_loc(cost)] = 99
            if not df.equals(before): c.violation('result-shares-input', **what)

    # every table, every direction, every cut
    for n, grid in [(0, 3), (1, 3), (2, 3), (3, 3)] + ([(4, 2)] if c.quick else [(4, 3), (5, 2)]):
        cells = list(itertools.product(range(1, grid+1), repeat=2))
        for rows in itertools.product(cells, repeat=n):
            c.states += 1; c.traces += 1
            for higher in (True, False):
                cuts = [None, 0, 1, 2, grid+1] if n <= 2 else [None, 2] if n == 3 else [None, 1+len(rows) % 2]
                for cut in cuts:
                    check(list(rows), higher=higher, cut=cut, extra=n <= 2)
    c.count('tables', c.states)
    c.log('tables')
    # other numbers, types, names, indices, options
    grids = [(-1.5, 0.0, 1e-300, 1e300), (0.1+0.2, 0.3, 0.30000000000000004), (-math.inf, 0, math.inf), (1e16, 1e16+2, -1), (-0.0, 0.0, 1)]
    for g in grids:
        for rows in itertools.product(list(itertools.product(g, repeat=2)), repeat=2):
            for higher in (True, False):
                c.states += 1; c.traces += 1
                check(list(rows), higher=higher)
                check(list(rows), higher=higher, cut=g[1], extra=False)
    ints = (0, 1, 200) if c.quick else (0, 1, 127, 200, 255)
    for dt in [('u1', 'u1'), ('i2', float), (float, 'u2'), (int, int), ('f4', 'f4'), (object, object), ('i4', 'u8'), (int, bool)]:
        for rows in itertools.product(list(itertools.product(ints if dt[1] is not bool else (0, 1), repeat=2)), repeat=2):
            for higher in (True, False):
                c.states += 1; c.traces += 1
                check(list(rows), higher=higher, dtype=dt, extra=False)
                check(list(rows), higher=higher, dtype=dt, cut=1, extra=False)
    base = [(3, 1), (1, 1), (2, 2), (2, 2), (5, 5), (4, 0), (1, 1)]
    for index in [None, list('abcdefg'), [0]*7, [5, 3, 3, 5, 0, 0, 9], list(range(7))[::-1], pandas.MultiIndex.from_product([[0], range(7)]), pandas.date_range('2020', periods=7), [float(i) for i in range(7)], [None]*7]:
        for higher, cut, order, explicit in itertools.product((True, False), (None, 0, 1, 1.5, 5, 6, -1, False, numpy.float32(2)), range(4), (False, True)):
            c.states += 1; c.traces += 1
            check(base, higher=higher, cut=cut, index=index, order=order, explicit=explicit)
    for cost, perf in [('cost', 'score'), ('mean_test_size2', 'mean_test_accuracy'), ('mean_test_compute', 'f1'), (0, 1), ('a b', 'c d'), (('m', 'x'), ('m', 'y'))][:5]:
        for perm in itertools.permutations(base[:5]):
            c.states += 1; c.traces += 1
            check(list(perm), cost=cost, perf=perf, explicit=True)
    # every order of distinct front members and a shadow
    for perm in itertools.permutations([(1, 1), (2, 2), (3, 3), (3, 2), (1, 0), (2, 2)]):
        c.states += 1; c.traces += 1
        check(list(perm), extra=False); check(list(perm), higher=False, extra=False)
    # long tables with a known front
    for n in c.pick([50, 333, 1000], [50, 333, 1000, 5000, 20000]):
        for kind in range(4):
            rows = [(i*7919 % n, (i*104729+i*i) % 97) for i in range(n)] if kind == 0 else [(i, i) for i in range(n)] if kind == 1 else [(i, -i) for i in range(n)] if kind == 2 else [(1, 1)]*n
            if kind == 0: rows = rows[:400 if c.quick else 1500]
            if kind == 1: memo[(tuple(rows), True)] = list(range(n)); memo[(tuple(rows), False)] = [0]
            if kind == 2: memo[(tuple(rows), True)] = [0]; memo[(tuple(rows), False)] = list(range(n))
            if kind == 3: memo[(tuple(rows), True)] = memo[(tuple(rows), False)] = list(range(n))
            c.states += 1; c.traces += 1
            check(rows, extra=False); check(rows, higher=False, extra=False, cut=50)
    plots(c, pandas)
    c.sample(rows=[(1, 2), (2, 2), (1, 2)], higher=True, expected=[(1, 2), (1, 2)])
    c.bound(rows=c.pick(4, 5), grid='3x3', exhaustive_tables=c.dist['tables'])
