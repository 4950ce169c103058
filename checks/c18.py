"""C18 conversion options: every combination of estimator x kind x method x dtype x return_type x further options is refused or honoured:
Python answers agree with the source model, and the code that save() writes gives the same answers when run in C."""
import hashlib, itertools, multiprocessing, os, shutil, tempfile, warnings
from concurrent.futures import ThreadPoolExecutor
import numpy
from mc import batch, ccache
from mc.core import Harness

D = numpy.array(list(itertools.product(range(0, 10, 3), repeat=2)), float)
X = numpy.array(list(itertools.product(range(0, 11), repeat=2)), float)
TREES = ['DecisionTreeClassifier', 'RandomForestClassifier', 'ExtraTreesClassifier', 'DecisionTreeRegressor', 'RandomForestRegressor', 'ExtraTreesRegressor']
KINDS = TREES + ['MLPClassifier', 'MLPRegressor', 'Sequential', 'GaussianNB', 'EllipticEnvelope', 'GaussianMixture', 'BayesianGaussianMixture', 'KNeighborsClassifier']
METHODS = [None, 'inline', 'loadable', 'bogus', '']
INTS = ['int8_t', 'int16_t', 'int32_t', 'int64_t', 'uint8_t', 'uint16_t', 'uint32_t', 'uint64_t', 'char', 'short', 'int', 'long', 'unsigned char', 'unsigned short', 'unsigned int', 'unsigned long']
ALIAS = {'float32': 'float', 'float64': 'double', 'int8': 'int8_t', 'int16': 'int16_t', 'int32': 'int32_t', 'int64': 'int64_t', 'uint8': 'uint8_t', 'uint16': 'uint16_t', 'uint32': 'uint32_t', 'uint64': 'uint64_t'}
DTYPES = [None, 'float', 'double'] + INTS + list(ALIAS) + ['bogus', '', 'int32_t;', 'q16']


def estimators():
    from sklearn import tree, ensemble, neural_network, naive_bayes, neighbors, covariance, mixture
    Y3 = (D[:, 0]//4).astype(int)
    Y2 = (D[:, 0]+D[:, 1] > 9).astype(int)
    V = D[:, 0]*2-D[:, 1]*0.75+1
    V2 = numpy.column_stack([V, -V])
    E = {}
    for k in TREES:
        M = getattr(tree, k, None) or getattr(ensemble, k)
        kw = {} if 'Decision' in k else dict(n_estimators=3)
        y = V if 'Regressor' in k else Y3
        E[k] = M(random_state=1, **kw).fit(D, y)
        if 'Classifier' in k:
            E[k+'-impure'] = M(random_state=2, max_depth=2, **kw).fit(D, (D[:, 0]*7+D[:, 1]*3).astype(int) % 4)
    E['DecisionTreeClassifier-stump'] = tree.DecisionTreeClassifier(max_depth=1).fit(D, Y2)
    E['MLPClassifier'] = neural_network.MLPClassifier(hidden_layer_sizes=(4,), solver='lbfgs', max_iter=300, random_state=1).fit(D, Y3)
    E['MLPClassifier-binary'] = neural_network.MLPClassifier(hidden_layer_sizes=(4, 3), activation='tanh', solver='lbfgs', max_iter=300, random_state=1).fit(D, Y2)
    E['MLPRegressor'] = neural_network.MLPRegressor(hidden_layer_sizes=(4,), solver='lbfgs', max_iter=300, random_state=1).fit(D, (V-V.mean())/4)
    E['MLPRegressor-multi'] = neural_network.MLPRegressor(hidden_layer_sizes=(4,), solver='lbfgs', max_iter=300, random_state=1).fit(D, V2)
    E['GaussianNB'] = naive_bayes.GaussianNB().fit(D, Y3)
    E['EllipticEnvelope'] = covariance.EllipticEnvelope(random_state=1, contamination=0.3).fit(D)
    for t in ('full', 'diag', 'tied', 'spherical'):
        E[f'GaussianMixture-{t}'] = mixture.GaussianMixture(2, covariance_type=t, random_state=1, reg_covar=0.1).fit(D*[3, 1])
    E['BayesianGaussianMixture'] = mixture.BayesianGaussianMixture(n_components=2, random_state=1, reg_covar=0.1, max_iter=500).fit(D*[3, 1])
    E['KNeighborsClassifier'] = neighbors.KNeighborsClassifier(n_neighbors=1, algorithm='brute').fit(D, Y3)
    return E


def keras_models():
    import keras
    out = {}
    for name, no, act in (('softmax', 3, 'softmax'), ('sigmoid', 1, 'sigmoid'), ('linear', 1, 'linear'), ('linear2', 2, 'linear')):
        m = keras.Sequential([keras.layers.Input((2,)), keras.layers.Dense(3, activation='relu'), keras.layers.Dense(no, activation=act)])
        rng = numpy.random.RandomState(4+no)
        m.set_weights([rng.uniform(-1, 1, w.shape) for w in m.get_weights()])
        out['Sequential-'+name] = m
    return out


def refused_estimators():
    from sklearn import tree, ensemble, neural_network, naive_bayes, neighbors, linear_model, svm, covariance, mixture, cluster, pipeline, preprocessing
    Y = (D[:, 0] > 4).astype(int)
    V = D[:, 0]*2
    multi = numpy.column_stack([Y, 1-Y])
    R = {}
    for k, M, y in (('multi-output-tree', tree.DecisionTreeClassifier, multi), ('multi-output-forest', ensemble.RandomForestClassifier, multi), ('multi-output-regression-tree', tree.DecisionTreeRegressor, multi*1.5),
                    ('multi-output-regression-forest', ensemble.ExtraTreesRegressor, multi*1.5), ('gradient-boosting', ensemble.GradientBoostingClassifier, Y), ('gradient-boosting-regressor', ensemble.GradientBoostingRegressor, V),
                    ('hist-gradient-boosting', ensemble.HistGradientBoostingClassifier, Y), ('adaboost', ensemble.AdaBoostClassifier, Y), ('bagging', ensemble.BaggingClassifier, Y), ('extra-tree', tree.ExtraTreeClassifier, Y),
                    ('isolation-forest', ensemble.IsolationForest, Y), ('logistic', linear_model.LogisticRegression, Y), ('svc', svm.SVC, Y), ('bernoulli', naive_bayes.BernoulliNB, Y), ('multinomial', naive_bayes.MultinomialNB, Y),
                    ('knn-regressor', neighbors.KNeighborsRegressor, V), ('radius', neighbors.RadiusNeighborsClassifier, Y), ('empirical-covariance', covariance.EmpiricalCovariance, Y), ('kmeans', cluster.KMeans, Y)):
        R[k] = M().fit(D, y)
    R['multilabel-mlp'] = neural_network.MLPClassifier(hidden_layer_sizes=(3,), max_iter=5).fit(D, multi)
    R['pipeline'] = pipeline.make_pipeline(preprocessing.StandardScaler(), tree.DecisionTreeClassifier()).fit(D, Y)
    for kw in (dict(weights='distance'), dict(metric='manhattan'), dict(metric='chebyshev'), dict(metric='cosine'), dict(p=1), dict(p=3)):
        R['knn-'+'-'.join(map(str, kw.values()))+'-'+list(kw)[0]] = neighbors.KNeighborsClassifier(n_neighbors=3, algorithm='brute', **kw).fit(D, Y)
    own = lambda d: numpy.exp(numpy.minimum(d, 300)*0.5)       # the farther ones count more
    R['knn-own-weights'] = neighbors.KNeighborsClassifier(n_neighbors=3, algorithm='brute', weights=own).fit(D, Y)
    R['knn-own-metric'] = neighbors.KNeighborsClassifier(n_neighbors=3, algorithm='brute', metric=lambda a, b: abs(a-b).max()).fit(D, Y)
    for M in (tree.DecisionTreeClassifier, tree.DecisionTreeRegressor, ensemble.RandomForestClassifier, ensemble.ExtraTreesRegressor, neural_network.MLPClassifier, neural_network.MLPRegressor, naive_bayes.GaussianNB,
              covariance.EllipticEnvelope, mixture.GaussianMixture, mixture.BayesianGaussianMixture, neighbors.KNeighborsClassifier):
        R['unfitted-'+M.__name__] = M()
    R.update({'none': None, 'text': 'DecisionTreeClassifier', 'class': tree.DecisionTreeClassifier, 'number': 3})
    return R


def reference(name, m):
    """what any conversion has to answer on X: dict of arrays"""
    k = name.split('-')[0]
    r = dict(kind=k)
    if k in TREES:
        if 'Regressor' in k:
            r['value'] = m.predict(X)
        else:
            ests = getattr(m, 'estimators_', [m])
            P = numpy.mean([e.predict_proba(X) for e in ests], axis=0)
            votes = numpy.mean([numpy.eye(P.shape[1])[numpy.argmax(e.predict_proba(X), axis=1)] for e in ests], axis=0)
            r.update(soft=P, hard=votes)
    elif k == 'MLPClassifier' or k == 'Sequential' or k == 'MLPRegressor':
        if k == 'MLPClassifier':
            o = m.predict_proba(X)
            o = o[:, 1:] if o.shape[1] == 2 else o
        else:
            o = (m.predict(X, verbose=0) if k == 'Sequential' else m.predict(X)).reshape(len(X), -1)
        r['outputs'] = numpy.asarray(o, float)
    elif k == 'GaussianNB':
        r['log'] = m.predict_log_proba(X)
    elif k == 'EllipticEnvelope':
        r.update(distance=m.mahalanobis(X), offset=m.offset_)
    elif 'Mixture' in k:
        r.update(proba=m.predict_proba(X), score=m.score_samples(X))
    else:
        r['label'] = m.predict(X)
    return r


def top(P, margin):
    s = numpy.sort(P, axis=1)
    ok = (s[:, -1]-s[:, -2] > margin) if P.shape[1] > 1 else numpy.ones(len(P), bool)
    return P.argmax(axis=1), ok


def judge(name, r, o, w):
    """None when the converted model agrees with the source; the Python answers as a table to compare with the saved code"""
    k = r['kind']
    p = numpy.asarray(w.predict(X))
    if p.shape != (len(X),):
        return f'predict returned shape {p.shape}', None
    cols = [p]
    def wrong(what, ref, got, ok=None):
        ref, got = numpy.asarray(ref, float), numpy.asarray(got, float)
        bad = ~numpy.isclose(got, ref, rtol=1e-4, atol=1e-4)
        if ok is not None: bad &= ok.reshape((-1,)+(1,)*(bad.ndim-1))
        if bad.any():
            i = numpy.argwhere(bad)[0]
            return f'{what}: at {X[i[0]].tolist()} got {got[tuple(i)]} source {ref[tuple(i)]}'
    e = None
    if k in TREES and 'Regressor' in k:
        e = wrong('predict', r['value'], p)
    elif k in TREES:
        bits = o['kwargs'].get('leaf_bits') or 0
        P = r['hard'] if bits < 2 else r['soft']
        step = 0 if bits < 2 else 2/(2**bits-1)
        cls, ok = top(P, 2*step+1e-6)
        q = numpy.asarray(w.predict_proba(X))
        e = wrong('predict', cls, p, ok)
        if not e and (q.shape != P.shape or (abs(q-P) > step+1e-5).any()):
            e = f'predict_proba: shape {q.shape}, off by {abs(q-P).max() if q.shape == P.shape else None}, step {step}'
        cols += list(q.T)
    elif 'outputs' in r:
        y = r['outputs']
        if o['return_type'] == 'regressor':
            if y.shape[1] != 1: e = 'a model with several outputs was answered with one'
            else: e = wrong('predict', y[:, 0], p)
        elif y.shape[1] == 1:
            e = wrong('predict', y[:, 0] > 0.5, p, abs(y[:, 0]-0.5) > 1e-4)
        else:
            cls, ok = top(y, 1e-4)
            e = wrong('predict', cls, p, ok)
        if not e and k != 'MLPRegressor' and 'linear' not in name and o['return_type'] == 'classifier' and o['method'] != 'inline':
            q = numpy.asarray(w.predict_proba(X))
            e = wrong('predict_proba', numpy.column_stack([1-y, y]) if y.shape[1] == 1 else y, q)
    elif 'log' in r:
        cls, ok = top(r['log'], 0.5)
        e = wrong('predict', cls, p, ok)
    elif 'distance' in r:
        d = numpy.asarray(w.mahalanobis(X))
        e = wrong('mahalanobis', r['distance'], d) or wrong('predict', numpy.where(-r['distance'] >= r['offset'], 1, -1), p, abs(r['distance']+r['offset']) > 1e-3) \
            or wrong('score_samples', -r['distance'], w.score_samples(X))
        cols = [d]
    elif 'score' in r:
        q = numpy.asarray(w.predict_proba(X))
        cls, ok = top(r['proba'], 1e-3)
        e = wrong('predict', cls, p, ok) or wrong('predict_proba', r['proba'], q) or wrong('score_samples', r['score'], w.score_samples(X))
        cols = list(q.T) + [w.score_samples(X)]
    else:
        e = wrong('predict', r['label'], p)
    return e, numpy.column_stack(cols).astype(float)


def body(name, r, o, n, nc):
    """C statements that evaluate the saved code and give the columns of judge()"""
    k = r['kind']
    if k in TREES and 'Regressor' in k:
        return f'o[0] = {n}_predict(f, 2);', 1
    if k in TREES:
        return f'float p[{nc}]; if ({n}_predict_proba(f, 2, p, {nc}) != 0) p[0] = -99; o[0] = {n}_predict(f, 2); for (int i=0; i<{nc}; i++) o[1+i] = p[i];', 1+nc
    if 'outputs' in r:
        if o['method'] == 'inline': return f'o[0] = {n}_predict(f, 2);', 1
        if o['return_type'] == 'regressor': return f'o[0] = eml_net_regress1(&{n}, f, 2);', 1
        return f'o[0] = eml_net_predict(&{n}, f, 2);', 1
    if k == 'KNeighborsClassifier':
        return f'EmlNeighborsDistanceItem d[{len(D)}]; int16_t out = -1; if (eml_neighbors_predict(&{n}, f, 2, d, {len(D)}, &out) != 0) out = -99; o[0] = out;', 1
    if 'score' in r:
        return f'float p[2], q[2], s = 0; if ({n}_predict_proba(f, 2, p, &s, q) != 0) s = -99; o[0] = q[0]; o[1] = q[1]; o[2] = s;', 3
    return f'o[0] = {n}_predict(f, 2);', 1


def ctype(r, o):
    if r['kind'] in TREES:
        return ALIAS.get(o['dtype'], o['dtype']) or 'int16_t'
    return 'int16_t' if r['kind'] == 'KNeighborsClassifier' else 'float'


def combos(name, quick):
    """every combination of options for one estimator"""
    k = name.split('-')[0]
    kinds = [None, k]
    rts = ['classifier', 'regressor', 'bogus', None]
    if k in TREES:
        kws = [{}] + [dict(leaf_bits=b) for b in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 32, -1, None)] + [dict(bogus=1), dict(use_fixedpoint=True)]
    elif 'MLP' in k or k == 'Sequential':
        kws = [{}, dict(use_fixedpoint=False), dict(use_fixedpoint=True), dict(leaf_bits=0), dict(bogus=1)]
    else:
        kws = [{}, dict(leaf_bits=0), dict(bogus=1), dict(use_fixedpoint=False)]
    for kind in [None, k] + [x for x in KINDS if x != k] + ['bogus', k.lower(), '']:
        other = kind not in (None, k)
        for method in METHODS:
            for dtype in DTYPES:
                for rt in rts:
                    for kw in kws:
                        # away from the defaults in at most three options; the remaining product adds only repetitions of refusals
                        off = (kind is not None)+(method is not None)+(dtype is not None)+(rt != 'classifier')+bool(kw)
                        bad = other+(method in ('bogus', ''))+(dtype in DTYPES[-4:])+(rt in ('bogus', None))+('bogus' in kw)
                        if bad > 1 or (other and off > 2): continue
                        if off > (3 if quick else 4): continue
                        if quick and off == 3 and (bad or name in ('ExtraTreesClassifier', 'ExtraTreesRegressor', 'DecisionTreeClassifier-stump', 'RandomForestClassifier-impure', 'ExtraTreesClassifier-impure') or dtype in INTS+list(ALIAS) and dtype not in ('int16_t', 'uint8_t', 'int16') or kind is not None): continue
                        if quick and off == 2 and bad and '-' in name: continue
                        if quick and off == 2 and '-' in name and name not in ('MLPClassifier-binary', 'GaussianMixture-full') and dtype in INTS[4:]+list(ALIAS): continue
                        yield dict(kind=kind, method=method, dtype=dtype, return_type=rt, kwargs=kw)


def must(name, o):
    """'accept' or 'refuse' when the documentation settles it"""
    k = name.split('-')[0]
    kind = o['kind']
    if o['method'] in ('bogus', '') or o['dtype'] in DTYPES[-4:] or o['return_type'] in ('bogus', None) or 'bogus' in o['kwargs'] or kind in ('bogus', ''):
        return 'refuse'
    if kind not in (None, k):
        return None
    kw = o['kwargs']
    if k in TREES:
        b = kw.get('leaf_bits')
        if 'use_fixedpoint' in kw or b in (9, 16, -1) or (b == 32 and 'Classifier' in k): return 'refuse'
        if 'Regressor' in k and b is not None: return None
        if o['method'] == 'loadable': return 'accept' if o['dtype'] in (None, 'int16_t', 'int16') else None
        return 'accept'
    if o['dtype'] not in (None, 'float'): return 'refuse'
    if 'MLP' in k or k == 'Sequential':
        if 'leaf_bits' in kw: return 'refuse'
        if kw.get('use_fixedpoint') or o['method'] == 'inline' and o['return_type'] == 'regressor': return None
        return 'accept' if o['return_type'] == 'classifier' or name in ('MLPRegressor', 'MLPClassifier-binary') or name in ('Sequential-linear', 'Sequential-sigmoid') else None
    if kw: return 'refuse'
    if o['return_type'] != 'classifier': return None
    return 'accept' if o['method'] in dict(GaussianNB=(None, 'loadable'), EllipticEnvelope=('inline',), KNeighborsClassifier=(None, 'loadable')).get(k, (None, 'inline', 'loadable')) else None


def one(a):
    """convert and judge one combination: (verdict, detail, text, table)"""
    name, o = a
    import emlearn
    m, r = EST[name], REF[name]
    try:
        w = emlearn.convert(m, kind=o['kind'], method=o['method'], dtype=o['dtype'], return_type=o['return_type'], **o['kwargs'])
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            e, table = judge(name, r, o, w)
            code = w.save(name='m')
            n = 'm' + hashlib.md5(repr((code, ctype(r, o), o['return_type'], o['method'])).encode()).hexdigest()[:12]
            code = w.save(name=n)
    except Exception as ex:
        return 'refused', f'{type(ex).__name__}: {ex}', None, None, None
    return ('disagrees' if e else 'ok'), e, n, code, table


def work(items):
    return [one(a) for a in items]


def save_variants(a):
    """every way of calling save() on one converted model: returns a list of (variant, problem or None, code to run or None)"""
    name, o = a
    import emlearn
    w = emlearn.convert(EST[name], method=o['method'], **o['kwargs'])
    d = tempfile.mkdtemp(dir=BASE)
    out = []
    tree, net = name.split('-')[0] in TREES, 'outputs' in REF[name]
    base = w.save(name='base')
    infs = [None, ['inline'], ['loadable'], ['inline', 'loadable'], ['bogus'], []] if tree or net else [None]
    forms = [None, 'c', 'csv', 'bogus'] if tree else [None]
    probas = [None, True, False] if tree else [None]
    for i, (inf, form, proba, how) in enumerate(itertools.product(infs, forms, probas, ['name', 'file', 'both', 'neither'])):
        kw = {}
        if inf is not None: kw['inference'] = inf
        if form is not None: kw['format'] = form
        if proba is not None: kw['include_proba'] = proba
        n = f'{name.replace("-", "_")}_{o["tag"]}_{i}'
        f = os.path.join(d, n+'.h')
        if how in ('name', 'both'): kw['name'] = n
        if how == 'both': f = os.path.join(d, 'other_name.h')
        if how in ('file', 'both'): kw['file'] = f
        v = dict(inference=inf, format=form, include_proba=proba, how=how)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                code = w.save(**kw)
        except Exception as ex:
            need = inf in (None, [o['method']]) and form in (None, 'c', 'csv') and how != 'neither'
            left = [x for x in os.listdir(d)]
            out.append((v, f'refused: {type(ex).__name__}: {ex}' if need else f'refused but wrote {left}' if left else None, None, None))
            continue
        e = None
        if how == 'neither' or form == 'bogus' or (inf in (['bogus'], []) and form != 'csv'): e = 'accepted'
        elif how in ('file', 'both'):
            if os.listdir(d) != [os.path.basename(f)]: e = f'wrote {os.listdir(d)}'
            elif open(f, newline='').read() != code: e = 'file differs from the returned text'
        if how == 'name' and os.listdir(d): e = f'wrote {os.listdir(d)}'
        for x in os.listdir(d): os.unlink(os.path.join(d, x))
        if form != 'csv' and not e and how in ('name', 'file', 'both') and proba is not False and inf in (None, ['inline'], ['loadable'], ['inline', 'loadable']):
            if inf is None or inf == [o['method']]:
                # the same code as any other way of asking for it, apart from the name
                if code.replace(n, 'base') != base: e = 'differs from save(name=...)'
            out.append((v, e, n, code if inf != None and how != 'both' else None))
        elif form != 'csv' and not e and proba is False and how == 'name' and inf is None:
            out.append((v, e, n, code))
        else:
            out.append((v, e, None, None))
    shutil.rmtree(d)
    return out


SUBCLASSED = ['DecisionTreeClassifier', 'DecisionTreeRegressor', 'RandomForestClassifier', 'RandomForestRegressor', 'ExtraTreesClassifier', 'ExtraTreesRegressor', 'MLPClassifier', 'MLPRegressor', 'GaussianNB', 'EllipticEnvelope',
              'GaussianMixture-full', 'BayesianGaussianMixture', 'KNeighborsClassifier']


def subclass(a):
    """a subclass of any name converts with explicit kind as its parent does, and is refused without; returns None or (key, what)"""
    import emlearn
    name, sub, method = a
    parent, k = EST[name], name.split('-')[0]
    S = type(sub, (type(parent),), {})
    m = S.__new__(S); m.__dict__.update(parent.__dict__)
    try:
        w = emlearn.convert(m, kind=k, method=method)
        e, _ = judge(name, REF[name], dict(kind=k, method=method, dtype=None, return_type='classifier', kwargs={}), w)
    except Exception as ex:
        e = None
        if must(name, dict(kind=k, method=method, dtype=None, return_type='classifier', kwargs={})) == 'accept':
            e = f'refused: {type(ex).__name__}: {ex}'
    if e: return e
    if sub not in KINDS:
        try:
            emlearn.convert(m, method=method)
        except Exception:
            return None
        return 'accepted without naming the kind'


def unsupported(a):
    import emlearn
    k, method = a
    try:
        got = emlearn.convert(REFUSED[k], method=method).predict(X)
    except Exception:
        return None
    return numpy.asarray(got)[:10].tolist()


def run(c):
    global EST, REF, BASE, REFUSED
    import emlearn
    BASE = c.dir('work')
    ccache.install(c)
    c.assume('training data are integers, so that every feature type holds thresholds and inputs', 'rows where the source itself is undecided within the tolerance are not judged', 'compiler results are reused for identical sources')
    warnings.simplefilter('ignore')
    EST = estimators()
    REF = {n: reference(n, m) for n, m in EST.items()}
    REFUSED = refused_estimators()
    unsup = [(k, method) for k in REFUSED for method in (None, 'inline', 'loadable')]
    subs = [(n, s, method) for n in SUBCLASSED for s in ('Custom', 'MyClassifier', 'MyRegressor', 'Regressor', 'DecisionTreeRegressor', 'DecisionTreeClassifier', 'GaussianNB', 'Sequential') if s != n.split('-')[0]
            for method in (None, 'inline', 'loadable')]
    per = {n: list(combos(n, c.quick)) for n in EST}
    items = [(n, o) for n in EST for o in per[n]]
    c.log('combinations', len(items))
    chunks = [items[i:i+8] for i in range(0, len(items), 8)]
    ctx = multiprocessing.get_context('fork')
    variants = [(n, dict(method=m, kwargs=kw, tag=f'{m}{i}')) for n in EST for m in ('inline', 'loadable')
                for i, kw in enumerate([{}, dict(leaf_bits=0), dict(leaf_bits=5)] if n.split('-')[0] in TREES and 'Classifier' in n else [{}])
                if must(n, dict(kind=None, method=m, dtype=None, return_type='classifier', kwargs=kw)) == 'accept']
    with ctx.Pool(8) as pool:
        res = [r for ch in pool.imap(work, chunks, chunksize=1) for r in ch]
        c.log('converted')
        saves = pool.map(save_variants, variants, chunksize=1)
        subres = pool.map(subclass, subs, chunksize=2)
        unres = pool.map(unsupported, unsup, chunksize=2)
    c.log('save variants', sum(map(len, saves)))
    # Keras models do not survive a fork: same checks in threads of this process
    K = keras_models()
    EST.update(K); REF.update({n: reference(n, m) for n, m in K.items()})
    kitems = [(n, o) for n in K for o in combos(n, c.quick)]
    with ThreadPoolExecutor(8) as ex:
        kres = list(ex.map(one, kitems))
        variants += [(n, dict(method=m, kwargs={}, tag=m)) for n in K for m in ('inline', 'loadable')]
        saves += list(ex.map(save_variants, variants[-2*len(K):]))
    c.log('keras', len(kitems))
    jobs, seen, default = [], {}, {}
    for (n, o), (verdict, e, sym, code, table) in zip(items+kitems, res+kres):
        c.states += 1; c.count(verdict); c.count(n.split('-')[0])
        key = f'{n}:{o}'
        need = must(n, o)
        if verdict == 'disagrees':
            c.violation(f'disagrees:{key}', what=e)
        elif verdict == 'refused' and need == 'accept':
            c.violation(f'refused:{key}', what=e)
        elif verdict == 'ok' and need == 'refuse':
            c.violation(f'accepted:{key}')
        if verdict != 'ok':
            c.transitions += 1; c.traces += 1
            continue
        c.transitions += len(X); c.traces += len(X)
        if o['kind'] is None and o['dtype'] is None and o['return_type'] == 'classifier':
            default[(n, o['method'], repr(o['kwargs']))] = table
        if sym in seen:
            if not numpy.array_equal(seen[sym][2], table): c.violation(f'same-code-other-answers:{key}')
            continue
        seen[sym] = (n, o, table)
        b, no = body(n, REF[n], o, sym, REF[n]['soft'].shape[1] if 'soft' in REF[n] else 0)
        jobs.append((key, table[:, :no], batch.Job(code, b, 2, no, X, ctype(REF[n], o), tag=key)))
    for (n, o), vs in zip(variants, saves):
        for v, e, sym, code in vs:
            c.states += 1; c.transitions += 1; c.traces += 1; c.count('save-variants')
            key = f'save:{n}:{o}:{v}'
            if e: c.violation(key, what=e)
            if code:
                kw = dict(o, return_type='classifier', dtype=None, method=v['inference'][0] if v['inference'] else o['method'])
                b, no = body(n, REF[n], kw, sym, REF[n]['soft'].shape[1] if 'soft' in REF[n] else 0)
                if v['include_proba'] is False and 'Classifier' in n: b, no = f'o[0] = {sym}_predict(f, 2);', 1
                t = default.get((n, o['method'], repr(o['kwargs'])))
                if t is None: raise Harness(f'no answers to compare with: {key}')
                jobs.append((key, t[:, :no], batch.Job(code, b, 2, no, X, ctype(REF[n], kw), tag=key)))
    c.log('saved models to run', len(jobs))
    outs = batch.run_jobs(c, [j for _, _, j in jobs], chunk=40)
    for (key, table, j), got in zip(jobs, outs):
        c.transitions += len(X); c.traces += len(X); c.count('saved-models-run')
        if key.startswith('save:') and table.shape[1] > 2 and 'Classifier' in key:
            # the other method may break ties between classes differently
            und = ~top(table[:, 1:], 1e-5)[1]
            got = got.copy(); got[und, 0] = table[und, 0]
        if got.shape != table.shape or not numpy.allclose(got, table, rtol=1e-5, atol=1e-6):
            i = int(numpy.argmax(abs(got-table).max(axis=1))) if got.shape == table.shape else 0
            c.violation(f'saved-code:{key}', input=X[i], got=got[i], python=table[i])
    for a, e in zip(subs, subres):
        c.states += 1; c.count('subclasses'); c.transitions += len(X); c.traces += len(X)
        if e: c.violation('subclass:%s:%s:%s' % a, what=e)
    for a, e in zip(unsup, unres):
        c.states += 1; c.transitions += 1; c.traces += 1; c.count('unsupported-estimators')
        if e is not None: c.violation('unsupported-accepted:%s:%s' % a, got=e)
    c.sample(estimator=items[len(items)//2][0], options=items[len(items)//2][1], verdict=res[len(items)//2][0])
    c.bound(combinations=len(items)+len(kitems), options_away_from_default=c.pick(3, 4), estimators=len(EST), save_variants=sum(map(len, saves)), saved_models_run=len(jobs))
