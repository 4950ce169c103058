"""C30 quantiser: every output type, range option and input type with values at, around and far beyond each limit; every short sequence of kinds of values through the C functions."""
import itertools
import numpy
from mc import drive

DRIVER = r'''
#include <eml_quantizer.h>
#include <math.h>
static const float SCALES[] = { 1, 0.5f, 2, 0.25f, 4096, 32767, 3276.7f, 0.001f, 1e6f, 1e-30f, 327.67f, 1e-6f };
static const double KINDS[] = { -INFINITY, -1e9, -32769, -32768, -32767.5, -32767, -32766.5, -1.5, -1, -0.5, 0, 0.25, 1, 1.75, 32766.5, 32767, 32767.5, 32768, 40000, 1e9, INFINITY };
#define NK 21
static void word(float scale, const float *v, int n) {
    float *in = mc_buf(sizeof(float)*n); memcpy(in, v, sizeof(float)*n); int16_t *out = mc_buf(sizeof(int16_t)*n), *out2 = mc_buf(sizeof(int16_t)*n); EmlQuantizer q = { scale };
    int under = -7, over = -7, u0 = 0, u1 = 0, o0 = 0, o1 = 0;
    EmlError e = eml_quantizer_check_forward_int16(&q, in, n, out, n, &under, &over); EmlError e2 = eml_quantizer_forward_int16(&q, in, n, out2, n);
    mc_states++; mc_traces++; mc_transitions += 2;
    if (e != EmlOk || e2 != EmlOk) { mc_fail("refused", "%d values: %d %d", n, e, e2); goto done; }
    if (memcmp(out, out2, sizeof(int16_t)*n)) mc_fail("two-functions", "%d values scale %g", n, scale);
    if (memcmp(in, v, sizeof(float)*n) || q.scale != scale) mc_fail("input-changed", "%d values", n);
    for (int i=0; i<n; i++) {
        double p = (double)v[i]*scale, exact = (double)(float)p == p, slack = exact ? 0 : fabs(p)*1e-7;
        if (p < -32767-slack) u0++; if (p < -32767+slack) u1++; if (p > 32767+slack) o0++; if (p > 32767-slack) o1++;
        double lim = p < -32767 ? -32767 : p > 32767 ? 32767 : p;
        if (!(fabs(out[i]-lim) < 1+slack)) mc_fail("value", "%.9g scale %.9g gives %d (%d of %d)", v[i], scale, out[i], i, n);
        if (lim == 32767 && p > 32767+slack && out[i] != 32767) mc_fail("saturation", "%.9g scale %.9g gives %d", v[i], scale, out[i]);
        if (lim == -32767 && p < -32767-slack && out[i] != -32767) mc_fail("saturation", "%.9g scale %.9g gives %d", v[i], scale, out[i]);
        if (exact && p == (int)lim && out[i] != (int)lim) mc_fail("exact", "%.9g scale %.9g gives %d", v[i], scale, out[i]);
    }
    if (u1 < u0) u1 = u0; if (o1 < o0) o1 = o0;
    if (under < u0 || under > u1) mc_fail("underflows", "%d values scale %g: %d expected %d", n, scale, under, u0);
    if (over < o0 || over > o1) mc_fail("overflows", "%d values scale %g: %d expected %d", n, scale, over, o0);
    float *back = mc_buf(sizeof(float)*n);
    if (eml_quantizer_inverse_int16(&q, out, n, back, n) != EmlOk) mc_fail("inverse:refused", "%d values", n);
    else for (int i=0; i<n; i++) {
        double p = (double)v[i]*scale; mc_transitions++;
        if (!(fabs((double)back[i]*scale-out[i]) <= fabs(out[i])*3e-7)) mc_fail("inverse", "%d scale %.9g gives %.9g", out[i], scale, back[i]);
        if (fabs(p) <= 32767 && !(fabs((double)back[i]-v[i])*scale < 1.001+fabs(p)*3e-7)) mc_fail("roundtrip", "%.9g scale %.9g gives %.9g", v[i], scale, back[i]);
    }
    free(back);
done:
    free(in); free(out); free(out2);
}
int main(int argc, char **argv) {
    int part = atoi(argv[1]), parts = atoi(argv[2]), thorough = atoi(argv[3]); long k = 0;
    for (int s=0; s<12; s++) {
        float A[NK]; for (int i=0; i<NK; i++) A[i] = (float)(KINDS[i]/SCALES[s]);
        for (int n=0; n<=(thorough ? 5 : 3); n++) {
            if (n > 3 && s > 3) continue;
            long total = 1; for (int i=0; i<n; i++) total *= NK;
            for (long w=0; w<total; w++) { if (k++ % parts != part) continue; float v[8]; long x = w; for (int i=0; i<n; i++) { v[i] = A[x%NK]; x /= NK; } word(SCALES[s], v, n); }
        }
        /* monotone over every step, with neighbours of each boundary */
        if (s % parts == part || s+8 == part) {
            EmlQuantizer q = { SCALES[s] }; int last = -40000; float prev = -INFINITY;
            for (int i=-33000; i<=33000; i++) for (int d=-2; d<=2; d++) {
                float v = (float)(i/(double)SCALES[s]); for (int z=0; z<abs(d); z++) v = nextafterf(v, d < 0 ? -INFINITY : INFINITY);
                if (v < prev) continue; prev = v;
                int16_t o; int u, x; EmlError e = eml_quantizer_check_forward_int16(&q, &v, 1, &o, 1, &u, &x); mc_states++; mc_transitions++;
                if (e != EmlOk || o < last) mc_fail("monotone", "%.9g scale %.9g gives %d after %d", v, SCALES[s], o, last);
                last = o; if (u + x > 1 || u < 0 || x < 0 || (i > -32766 && i < 32766 && (u || x))) mc_fail("counts", "%.9g scale %.9g: %d %d", v, SCALES[s], u, x);
            }
            for (int i=-32768; i<=32767; i++) { int16_t o = i; float b; eml_quantizer_inverse_int16(&q, &o, 1, &b, 1); mc_states++; mc_transitions++; if (!(fabs((double)b*SCALES[s]-i) <= abs(i)*3e-7)) mc_fail("inverse", "%d scale %g gives %g", i, SCALES[s], b); }
        }
    }
    /* lengths that differ, also long ones */
    if (part == 0) for (int n=0; n<=5; n++) for (int m=-1; m<=7; m++) {
        float *v = mc_buf(sizeof(float)*n); int16_t *o = mc_buf(sizeof(int16_t)*(m > 0 ? m : 0)); for (int i=0; i<n; i++) v[i] = i+1; for (int i=0; i<m; i++) o[i] = -99;
        EmlQuantizer q = { 2 }; int a = -5, b = -5; mc_states++; mc_transitions += 3; mc_traces++;
        EmlError e = eml_quantizer_check_forward_int16(&q, v, n, o, m, &a, &b);
        if ((e == EmlOk) != (n == m)) mc_fail("lengths", "%d to %d: %d", n, m, e);
        if (e != EmlOk) for (int i=0; i<m; i++) if (o[i] != -99) mc_fail("lengths:written", "%d to %d", n, m);
        for (int i=0; i<m; i++) o[i] = -99;
        if ((eml_quantizer_forward_int16(&q, v, n, o, m) == EmlOk) != (n == m)) mc_fail("lengths", "%d to %d", n, m);
        float *r = mc_buf(sizeof(float)*n); for (int i=0; i<n; i++) r[i] = -99; for (int i=0; i<m; i++) o[i] = 4;
        e = eml_quantizer_inverse_int16(&q, o, m, r, n); if ((e == EmlOk) != (n == m)) mc_fail("inverse:lengths", "%d to %d", m, n);
        if (e != EmlOk) for (int i=0; i<n; i++) if (r[i] != -99) mc_fail("inverse:lengths:written", "%d to %d", m, n);
        free(v); free(o); free(r);
    }
    if (part == 1) for (int n=250; n<200000; n = n*2+7) for (int kind=0; kind<4; kind++) {
        /* all in range, all over, all under, every kind: more of each than narrow integers count */
        float *v = malloc(sizeof(float)*n), *r = mc_buf(sizeof(float)*n); int eu = 0, eo = 0;
        for (int i=0; i<n; i++) { v[i] = kind == 0 ? (float)(i%1001-500) : kind == 1 ? 40000.0f+i : kind == 2 ? -40000.0f-i : (float)(i%5-2)*20000; eu += v[i] < -32767; eo += v[i] > 32767; }
        EmlQuantizer q = { 1 }; int16_t *o = mc_buf(sizeof(int16_t)*n); int a = -1, b = -1;
        EmlError e = eml_quantizer_check_forward_int16(&q, v, n, o, n, &a, &b); mc_states++; mc_transitions += 3; mc_traces++;
        if (e != EmlOk || a != eu || b != eo) mc_fail("counts", "%d values: %d, %d %d expected %d %d", n, e, a, b, eu, eo);
        for (int again=0; again<2; again++) {
            for (int i=0; i<n; i++) { int w = v[i] < -32767 ? -32767 : v[i] > 32767 ? 32767 : (int)v[i]; if (o[i] != w) { mc_fail("long:value", "%d of %d values: %d expected %d", i, n, o[i], w); break; } }
            memset(o, 1, sizeof(int16_t)*n); e = eml_quantizer_forward_int16(&q, v, n, o, n); if (e != EmlOk) mc_fail("refused", "%d values: %d", n, e);
        }
        e = eml_quantizer_inverse_int16(&q, o, n, r, n); if (e != EmlOk) mc_fail("inverse:refused", "%d values: %d", n, e);
        else for (int i=0; i<n; i++) if (r[i] != o[i]) { mc_fail("inverse:long", "%d of %d values: %g expected %d", i, n, r[i], o[i]); break; }
        free(v); free(r); free(o);
    }
    return mc_end();
}
'''


def reference(x, scale, out_max, dtype):
    """limits of the range, exact positions"""
    low, high = -out_max, out_max
    if numpy.issubdtype(dtype, numpy.integer):
        info = numpy.iinfo(dtype)
        low, high = max(low, info.min), min(high, info.max)
    else:
        low, high = max(low, float(numpy.finfo(dtype).min)), min(high, float(numpy.finfo(dtype).max))
    return low, high


def run(c):
    import warnings
    warnings.simplefilter('ignore')
    from emlearn.preprocessing.quantizer import Quantizer
    c.assume('finite data with a positive range', 'values that fall between two steps may go to either', 'the scale itself is representable in double precision')
    exe = drive.build(c, 'quantizer', DRIVER)
    drive.run_many(c, exe, [(str(i), '16', c.pick('0', '1')) for i in range(16)], 'c')
    c.count('c', c.states)
    c.log('C')

    dtypes = ['int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'float32', 'float64', numpy.int16, numpy.dtype('int8'), 'float16']
    ranges = [None, 1, 10, 127, 100.0, 255, 1000, 32767, 32768, 0.5, 2**31-1]
    maxes = [1.0, 0.1, 8, 10.0, 127, 1000.0, 1e-6, 3e38, 32767]
    inputs = ['f8', 'f4', 'i2', 'i4', 'i8', 'u1', 'f2', 'i1', '>f8', '>i4', '?']
    cases = []
    for dt in dtypes:
        for om in ranges:
            for mv in maxes:
                cases.append((dt, om, mv))
    kinds = [-numpy.inf, -1e30, -1000.0, -2, -1.001, -1-1e-9, -1, -1+1e-9, -0.999, -0.5, -1/3, -1e-3, 0, 1e-9, 1e-3, 0.25, 1/3, 0.5, 0.999, 1-1e-9, 1, 1+1e-9, 1.001, 2, 1000, 1e30, numpy.inf]
    compare = []
    for dt, om, mv in cases:
        dtype = numpy.dtype(dt)
        q = Quantizer(max_value=mv, out_max=om, dtype=dt)
        real_max = om if om is not None else (numpy.iinfo(dtype).max if dtype.kind in 'iu' else float(numpy.finfo(dtype).max))
        low, high = reference(None, None, real_max, dtype)
        fitted = q.fit(numpy.array([[1.0, -3]]))
        if fitted is not q: c.violation('fit:returns', dtype=dtype, out_max=om)
        scale = real_max/mv
        if not numpy.isfinite(scale): continue
        for it in inputs:
            with numpy.errstate(all='ignore'):
                x = numpy.array([k*mv for k in kinds])
                x = x[numpy.isfinite(x)] if numpy.dtype(it).kind in 'iu?' else x
                if numpy.dtype(it).kind in 'iu':
                    info = numpy.iinfo(it); x = numpy.concatenate([x, [0, 1, 2, 5, 100, info.max, info.min]]); x = numpy.round(numpy.clip(x, max(info.min, -2.0**62), min(info.max, 2.0**62)))
                x = numpy.sort(numpy.unique(x.astype(it).astype(float) if it != '?' else numpy.array([0.0, 1.0]))).astype(it)
            x = x[~numpy.isnan(x.astype(float))]
            c.states += 1; c.traces += 1; c.transitions += 1
            X = x.reshape(-1, 1) if len(x) % 2 else x.reshape(-1, 2)
            kept = X.copy()
            what = dict(dtype=str(dtype), out_max=om, max_value=mv, input=it)
            key = f'{dtype}:{om}:{mv}:{it}'
            out = q.transform(X)
            if out.shape != X.shape or out.dtype != dtype: c.violation('python:shape:' + key, **what); continue
            if not numpy.array_equal(kept, X): c.violation('python:input-modified:' + key, **what)
            flat, xf = out.reshape(-1), X.reshape(-1).astype(float)
            asint = dtype.kind in 'iu'
            vals = [int(v) for v in flat] if asint else [float(v) for v in flat]
            if any(b < a for a, b in zip(vals, vals[1:])): c.violation('python:monotone:' + key, values=vals, at=xf, **what)
            tol = 1e-6 if dtype != numpy.float16 else 2e-3
            for v, xx in zip(vals, xf):
                with numpy.errstate(all='ignore'): want = xx*scale
                lim = min(max(want, low), high)
                unit = (1.0 if asint else 0)
                if not abs(v-lim) <= unit*(1+1e-9)+abs(lim)*(tol if not asint else 1e-12)+(1e-30 if dtype != numpy.float16 else 1e-3):
                    c.violation('python:value:' + key, value=xx, got=v, expected=lim, **what); break
                # beyond the range: the limits themselves (64-bit limits are not exact in double precision)
                if asint and dtype.itemsize < 8 and (want > high*(1+1e-12)+1e-9 or want < low*(1+1e-12)-1e-9):
                    if v != int(high if want > high else low): c.violation('python:saturation:' + key, value=xx, got=v, limit=high if want > 0 else low, **what); break
                if asint and dtype.itemsize == 8 and want > 2*high and v < int(high)*(1-1e-9): c.violation('python:saturation:' + key, value=xx, got=v, **what); break
            # inverse, from the quantised values and from plain ones
            held = out.copy()
            back = q.inverse_transform(out).reshape(-1)
            if not numpy.array_equal(held, out): c.violation('python:inverse-input-modified:' + key, **what)
            plain = xf.copy()
            held = plain.copy(); q.inverse_transform(plain)
            if not numpy.array_equal(held, plain): c.violation('python:inverse-input-modified:float64:' + key, **what)
            c.transitions += 1
            step = mv/real_max
            for b, v, xx in zip(back, vals, xf):
                lim = min(max(xx, low/scale), high/scale)
                if not abs(b-lim) <= (step if asint else 0)*(1+1e-6)+abs(lim)*max(tol, 1e-9)+mv*(1e-12 if dtype != numpy.float16 else 1e-3):
                    c.violation('python:inverse:' + key, value=xx, quantised=v, got=b, step=step, **what); break
            if dtype == numpy.int16 and om is None and it in ('f4', 'f8', 'i2') and real_max == 32767:
                ok = numpy.isfinite(xf) & (numpy.abs(xf) < 3e38)
                ok &= xf.astype('f4') == xf
                compare.append((float(numpy.float32(scale)), xf[ok].astype('f4'), flat[ok], key))
    c.count('configurations', len(cases)*len(inputs))
    c.log('python')
    # learned ranges
    data = [numpy.array([[1.0, 2], [3, -4]]), numpy.array([[-5.0, -1]]), numpy.array([[0.0, 7]]), numpy.arange(100.0).reshape(10, 10), -numpy.arange(1000.0).reshape(-1, 2), numpy.array([[1, 200], [-300, 4]], dtype='i2'), numpy.ones((3, 3), 'f4'), numpy.linspace(-1, 3, 20001).reshape(-1, 3), numpy.array([[-32768, 5]], dtype='i2'), numpy.array([[-128, 5]], dtype='i1'), numpy.array([[200, 5]], dtype='u1')]
    for X, quant, dt, om in itertools.product(data, (None, 0.0001, 0.0, 0.01, 0.25), ('int16', 'int8', 'int32', 'float32'), (None, 100)):
        q = Quantizer(max_quantile=quant, dtype=dt, out_max=om)
        f = numpy.sort(X.astype(float).reshape(-1))
        def quantile(p):
            pos = p*(len(f)-1); i = int(numpy.floor(pos)); return f[i]+(pos-i)*(f[min(i+1, len(f)-1)]-f[i])
        a = quant or 0.0
        largest = max(quantile(1-a), -quantile(a))
        c.states += 1; c.traces += 1; c.transitions += 2
        out = q.fit_transform(X) if om is None else q.fit(X).transform(X)
        top = om or (numpy.iinfo(dt).max if dt != 'float32' else float(numpy.finfo('f4').max))
        want = numpy.clip(X.astype(float)*top/largest, -top, top)
        if out.shape != X.shape or out.dtype != numpy.dtype(dt) or not (numpy.abs(out.astype(float)-want) <= (1.001 if dt != 'float32' else 0)+numpy.abs(want)*2e-6).all():
            c.violation('python:learned', data=X[:3], quantile=quant, dtype=dt, out_max=om, got=out[:3], expected=want[:3])
        # later data does not change what was learned
        other = q.transform(numpy.array([[largest*1e6, -largest*1e6, 0.0]]))
        if dt != 'float32' and list(map(int, other[0])) != [top, -top, 0]: c.violation('python:saturation', data=X[:3], quantile=quant, dtype=dt, got=other)
        if not numpy.array_equal(q.transform(X), out): c.violation('python:history', quantile=quant, dtype=dt)
    # the largest value is found wherever it stands among many rows
    for n, at in itertools.product((1001, 65537, 131075, 300007), (0, 0.5, 1)):
        X = numpy.zeros((n, 1)); X[1::3] = 3; X[2::3] = -2; X[int((n-1)*at)] = -9
        q = Quantizer(dtype='int16', max_quantile=0.0).fit(X)
        c.states += 1; c.traces += 1; c.transitions += 2
        out = q.transform(numpy.array([[9.0, -9, 3, -2, 0]]))[0].astype(int)
        want = numpy.array([32767, -32767, 32767/3, -32767*2/9, 0])
        if (numpy.abs(out-want) > 1.001).any(): c.violation('python:learned:rows', rows=n, at=at, got=out, expected=want)
        back = q.inverse_transform(q.transform(X))
        if back.shape != X.shape or (numpy.abs(back-X) > 9/32767*1.01).any(): c.violation('python:many', rows=n, at=at)
    # shapes and orders
    q = Quantizer(max_value=10.0).fit(numpy.ones((1, 1)))
    base = numpy.linspace(-12, 12, 24)
    want = numpy.clip(numpy.trunc(base*3276.7), -32767, 32767).astype('i2')
    for shape in [(24,), (24, 1), (1, 24), (4, 6), (2, 3, 4), (0,), (0, 3), (2, 2, 2, 3)]:
        n = int(numpy.prod(shape))
        for how in ('c', 'f', 'strided', 'reversed'):
            x = base[:n].reshape(shape); w = want[:n].reshape(shape)
            if how == 'f': x = numpy.asfortranarray(x)
            if how == 'strided': x = numpy.repeat(x, 2, axis=-1)[..., ::2]
            if how == 'reversed': x, w = x[::-1], w[::-1]
            c.states += 1; c.traces += 1; c.transitions += 1
            out = q.transform(x)
            if out.shape != x.shape or (numpy.abs(out.astype(int)-w.astype(int)) > 1).any(): c.violation('python:order', shape=shape, layout=how, got=out)
            inv = q.inverse_transform(out)
            if inv.shape != x.shape or (numpy.abs(inv-numpy.clip(x, -10, 10)) > 10/32767*1.001).any(): c.violation('python:inverse:order', shape=shape, layout=how)
    y = [1, 2]
    r = q.transform(numpy.ones((2, 1)), y)
    if not (isinstance(r, tuple) and len(r) == 2 and r[1] is y): c.violation('python:labels', got=r)
    # C against Python on the same values
    lines, at = [], 0
    text = '#include <eml_quantizer.h>\n'
    for i, (scale, x, _, _) in enumerate(compare):
        text += f'static float x{i}[] = {{ ' + ', '.join(float(v).hex() + 'f' for v in x) + ' };\n'
    text += 'static void show(float scale, float *x, int n) { int16_t o[200]; EmlQuantizer q = { scale }; EmlError e = eml_quantizer_forward_int16(&q, x, n, o, n); mc_states++; mc_transitions++; mc_traces++; printf("%d", e); for (int i=0; i<n; i++) printf(" %d", o[i]); printf("\\n"); }\nint main(void) {\n'
    text += '\n'.join(f'show({s.hex()}f, x{i}, {len(x)});' for i, (s, x, _, _) in enumerate(compare)) + ' return mc_end(); }\n'
    out = [l for l in drive.drive(c, 'compare', text, flags=['-O0']) if l]
    if len(out) != len(compare): c.violation('compare:count', got=len(out), expected=len(compare))
    for l, (scale, x, py, key) in zip(out, compare):
        e, *v = map(int, l.split())
        if e or (numpy.abs(numpy.array(v)-py.astype(int)) > 1).any():
            c.violation('compare:' + key, scale=scale, values=x, c=v, python=py)
        exact = (x.astype(float)*scale).astype('f4').astype(float) == x.astype(float)*scale
        if scale == 1.0 and (numpy.array(v)[exact] != py[exact].astype(int)).any(): c.violation('compare:exact:' + key, values=x, c=v, python=py)
    c.sample(dtype='int8', out_max=None, max_value=10.0, input='f4', values='at, around and beyond +-10')
    c.bound(dtypes=len(dtypes), ranges=len(ranges), max_values=len(maxes), inputs=len(inputs), sequence=c.pick(3, 5))
