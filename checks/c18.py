"""Training, applying and testing agree with each other."""
import inspect
import os
import warnings

import numpy as np

from vlib import gen, model
from vlib.model import Table, NAN, isNan, isNumber
from vlib.runner import where, Skip
from checks.common import call, must, freeze, frozenDiff, typesFor, scribble

PROPERTY = 'C18'
RULE = ('learners of scikit-learn (all that accept plain data), built-in and '
        'custom ones trained, applied and tested by every route (train then '
        'apply, train-and-apply, train-and-test, saved and loaded, retrained, '
        'class object or any alias of the name, arguments by dict or keyword, '
        'labels inside or beside the data) on all representations; '
        'predictions, scores and performances compared with each other and '
        'with the package called directly; inputs compared before and after; '
        'data modified after training; invalid calls; non-trivial: distinct '
        '(learner, arguments, type, label form)')
QUICK = {'cases': 1400, 'seconds': 90}
THOROUGH = {'cases': 30000, 'seconds': 820}
MIN = {'direct': 110, 'routes': 500, 'learners_seen': 70, 'scores': 60,
       'inputs_compared': 900, 'later_changes': 80, 'retrained': 40,
       'refused': 60, 'performances': 150, 'votes': 80, 'saved': 20,
       'used_again': 80, 'nested_objects': 20, 'text_transformed': 12,
       'keras_direct': 8}
CASE_SECONDS = 60

CLASSES = {}
STATE = {'names': {}, 'seen': set()}


def quiet(f, *args, **kwargs):
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        return f(*args, **kwargs)


SLOW = {'HistGradientBoostingRegressor', 'HistGradientBoostingClassifier',
        'MiniBatchDictionaryLearning', 'DictionaryLearning',
        'BisectingKMeans', 'TheilSenRegressor', 'MeanShift',
        'IsolationForest', 'LogisticRegressionCV', 'PoissonRegressor',
        'GradientBoostingClassifier', 'Birch', 'TweedieRegressor',
        'GammaRegressor', 'MDS', 'MiniBatchSparsePCA', 'SparsePCA',
        'SpectralClustering', 'LatentDirichletAllocation',
        'CountVectorizer', 'TfidfVectorizer', 'PatchExtractor', 'TSNE',
        'GaussianRandomProjection', 'SparseRandomProjection',
        'SpectralEmbedding'}  # the last: no unique answer

# arguments worth varying; everything listed is a valid value
ARGS = {
    'KNeighborsClassifier': {'n_neighbors': [1, 3, 4],
                             'weights': ['uniform', 'distance'],
                             'algorithm': ['brute', 'kd_tree', 'ball_tree'],
                             'p': [1, 2]},
    'KNeighborsRegressor': {'n_neighbors': [1, 3], 'algorithm': ['brute',
                                                                 'kd_tree']},
    'RadiusNeighborsRegressor': {'radius': [50.], 'algorithm': ['brute']},
    'RadiusNeighborsClassifier': {'radius': [50.], 'algorithm': ['brute']},
    'Ridge': {'alpha': [0, .5, 3], 'fit_intercept': [True, False],
              'copy_X': [True, False]},
    'LinearRegression': {'fit_intercept': [True, False],
                         'copy_X': [True, False]},
    'Lasso': {'alpha': [.1, 1], 'copy_X': [True, False]},
    'ElasticNet': {'alpha': [.1, 1], 'copy_X': [True, False]},
    'Lars': {'copy_X': [True, False]},
    'LassoLars': {'copy_X': [True, False]},
    'BayesianRidge': {'copy_X': [True, False]},
    'ARDRegression': {'copy_X': [True, False]},
    'SVC': {'C': [.1, 1, 10], 'kernel': ['linear', 'rbf', 'poly'],
            'gamma': ['scale', .1]},
    'LinearSVC': {'C': [.1, 1]},
    'LogisticRegression': {'C': [.1, 1.0], 'fit_intercept': [True, False]},
    'DecisionTreeClassifier': {'max_depth': [1, 2, None],
                               'criterion': ['gini', 'entropy']},
    'DecisionTreeRegressor': {'max_depth': [1, 3]},
    'RandomForestClassifier': {'n_estimators': [2, 3]},
    'RandomForestRegressor': {'n_estimators': [2, 3]},
    'ExtraTreesClassifier': {'n_estimators': [2, 3]},
    'ExtraTreesRegressor': {'n_estimators': [2]},
    'AdaBoostClassifier': {'n_estimators': [2, 5]},
    'GaussianNB': {'var_smoothing': [1e-9, 1e-2]},
    'MultinomialNB': {'alpha': [.5, 1.0], 'fit_prior': [True, False]},
    'GaussianProcessRegressor': {'copy_X_train': [True, False]},
    'GaussianProcessClassifier': {'copy_X_train': [True, False]},
    'KernelRidge': {'alpha': [1, .1]},
    'MLPClassifier': {'max_iter': [5]}, 'MLPRegressor': {'max_iter': [5]},
    'SGDClassifier': {'max_iter': [20], 'loss': ['hinge', 'log_loss']},
    'StandardScaler': {'copy': [True, False], 'with_mean': [True, False]},
    'MinMaxScaler': {'copy': [True, False], 'feature_range': [(0, 1),
                                                              (-2, 3)]},
    'MaxAbsScaler': {'copy': [True, False]},
    'RobustScaler': {'copy': [True, False]},
    'Normalizer': {'copy': [True, False], 'norm': ['l1', 'l2', 'max']},
    'Binarizer': {'threshold': [0., 2.5], 'copy': [True, False]},
    'PowerTransformer': {'copy': [True, False]},
    'QuantileTransformer': {'n_quantiles': [4], 'copy': [True, False]},
    'PCA': {'n_components': [1, 2], 'copy': [True, False]},
    'FactorAnalysis': {'n_components': [1, 2], 'copy': [True, False]},
    'PLSRegression': {'n_components': [1, 2], 'copy': [True, False]},
    'SimpleImputer': {'strategy': ['mean', 'median'], 'copy': [True, False]},
    'KNNImputer': {'n_neighbors': [1, 2], 'copy': [True, False]},
    'TfidfTransformer': {'norm': ['l1', 'l2']},
    'PolynomialFeatures': {'degree': [1, 2]},
    'SelectKBest': {'k': [1, 2]},
    'TruncatedSVD': {'n_components': [1]},
    'KMeans': {'n_clusters': [2, 3], 'n_init': [1],
               'copy_x': [True, False]},
    'MiniBatchKMeans': {'n_clusters': [2, 3], 'n_init': [1]},
    'AgglomerativeClustering': {'n_clusters': [2, 3]},
    'AffinityPropagation': {'copy': [True, False]},
    'GaussianMixture': {'n_components': [1, 2]},
    'FunctionTransformer': {},
    'HuberRegressor': {'alpha': [.01]},
    'BaggingClassifier': {'n_estimators': [2]},
    'BaggingRegressor': {'n_estimators': [2]},
    'DummyClassifier': {'strategy': ['most_frequent', 'prior', 'stratified']},
    'LinearDiscriminantAnalysis': {'solver': ['svd', 'lsqr']},
    'NearestCentroid': {},
}


def setup(nimble):
    class Mean(nimble.CustomLearner):
        """Additive: training on more data is the same as training at once."""
        learnerType = 'regression'

        def train(self, trainX, trainY, scale=1):
            self.scale = scale
            self.s = [0.] * (len(trainX.features) + 1)
            self.n = 0
            self.more(trainX, trainY)

        def incrementalTrain(self, trainX, trainY):
            self.more(trainX, trainY)

        def more(self, trainX, trainY):
            for r, q in zip(model.rawRows(trainX), model.rawRows(trainY)):
                for j, v in enumerate(r):
                    self.s[j] += v
                self.s[-1] += q[0]
                self.n += 1

        def apply(self, testX):
            return nimble.data(
                [[(sum(a * b for a, b in zip(self.s, r)) + self.s[-1])
                  * self.scale / self.n] for r in model.rawRows(testX)],
                useLog=False)

    class Keeper(nimble.CustomLearner):
        """Keeps the objects it was given and looks at them when applied."""
        learnerType = 'classification'

        def train(self, trainX, trainY, shift=0):
            self.y = sorted({r[0] for r in model.rawRows(trainY)}, key=str)
            self.shift = shift
            self.w = [sum(c) for c in zip(*model.rawRows(trainX))]

        def apply(self, testX):
            k = len(self.y)
            return nimble.data(
                [[self.y[int(abs(sum(a * b for a, b in zip(self.w, r)))
                             + self.shift) % k]]
                 for r in model.rawRows(testX)], useLog=False)

        def getScores(self, testX):
            k = len(self.y)
            return nimble.data(
                [[float((int(abs(sum(a * b for a, b in zip(self.w, r)))
                             + self.shift) - i) % k == 0) + i / 10
                  for i in range(k)] for r in model.rawRows(testX)],
                useLog=False)

    class Needs(nimble.CustomLearner):
        """A learner with an argument that has no default."""
        learnerType = 'undefined'

        def train(self, trainX, trainY, weight):
            self.weight = weight

        def apply(self, testX, power=1):
            return nimble.data([[self.weight * power]
                                for _ in range(len(testX.points))],
                               useLog=False)
    CLASSES.update(Mean=Mean, Keeper=Keeper, Needs=Needs)
    for name in nimble.learnerNames('sklearn'):
        if name in SLOW:
            continue
        t = nimble.learnerType('sklearn.' + name)
        STATE['names'].setdefault(t, []).append(name)


BUILTIN = [('nimble.KNNClassifier', 'classification', {'k': [1, 3, 5]}),
           ('nimble.RidgeRegression', 'regression', {'lamb': [0, 1, 2.5]}),
           ('nimble.MultiOutputRidgeRegression', 'multi', {'lamb': [1, 2]}),
           ('nimble.MultiOutputLinearRegression', 'multi', {})]


# -- data --------------------------------------------------------------------

class Problem:
    def __init__(self, rng, goal, n=None, d=None, plain=False):
        self.goal = goal
        self.n = n or rng.randint(9, 22)
        self.d = d or rng.randint(2, 4)
        self.m = rng.randint(1, 8)
        form = rng.choice(['int', 'float', 'float', 'sparse'])
        self.neg = rng.random() < .3

        def v():
            if form == 'sparse' and rng.random() < .5:
                return 0
            x = rng.randint(0, 9)
            if form != 'int':
                x += rng.choice([0, .5, .25, .125])
            return -x if self.neg and rng.random() < .3 else x
        self.x = [[v() for _ in range(self.d)] for _ in range(self.n)]
        self.t = [[v() for _ in range(self.d)] for _ in range(self.m)]
        if rng.random() < .4 and self.m > 1:
            self.t[0] = list(self.x[0])
        k = rng.choice([2, 2, 3, 3, 4])
        self.labels = rng.choice([list(range(k)), list(range(k)),
                                  [-1, 1, 5, 2][:k],
                                  ['a', 'b', 'c', 'd'][:k],
                                  ['no', 'yes', 'maybe', 'red'][:k],
                                  [.5, 1.5, 2.5, 4][:k],
                                  ['1', '2', '3', '10'][:k]])
        if plain and isinstance(self.labels[0], (str, float)):
            self.labels = [3, 1, 2, 7][:k]
        if goal == 'classification':
            y = [self.labels[i % k] for i in range(self.n)]
            for i in range(self.n):
                if i >= 2 * k and rng.random() < .7:
                    y[i] = self.labels[int(sum(self.x[i])) % k]
            self.y = [[q] for q in y]
            self.ty = [[rng.choice(self.labels)] for _ in range(self.m)]
        elif goal == 'multi':
            self.y = [[rng.randint(0, 9) / 2 for _ in range(2)]
                      for _ in range(self.n)]
            self.ty = [[rng.randint(0, 9) / 2 for _ in range(2)]
                       for _ in range(self.m)]
        else:
            self.y = [[r[0] * 2 - r[-1] + rng.randint(0, 4) / 4]
                      for r in self.x]
            self.ty = [[rng.randint(0, 9) / 2] for _ in range(self.m)]
        self.pmode = rng.choice(['none', 'all', 'some'])
        self.fmode = rng.choice(['none', 'all', 'some'])
        self.fn = gen.nameList(rng, self.d, 'f', self.fmode)
        self.pn = gen.nameList(rng, self.n, 'p', self.pmode)
        self.tpn = gen.nameList(rng, self.m, 't', self.pmode)
        self.ylab = [rng.choice([None, f'label{j}'])
                     for j in range(len(self.y[0]))]
        if goal in ('transformation', 'cluster', 'UNKNOWN'):
            self.y = None

    def object(self, nimble, rng, rows, pn, fn, typ=None):
        t = Table([list(r) for r in rows], pn, fn, len(fn))
        if typ is None or typ not in typesFor(t):
            typ = rng.choice(typesFor(t))
        route = gen.anyRoute(rng)
        return gen.build(nimble, t, typ, route, rng)

    def make(self, nimble, rng, form=None, typ=None):
        """X, Y, and a function making (T, TY) of one of the label forms"""
        self.typ = typ
        if self.y is None:
            self.form = 'none'
            return (self.object(nimble, rng, self.x, self.pn, self.fn, typ),
                    None)
        form = form or rng.choice(['object', 'object', 'index', 'name',
                                   'negative', 'npindex'])
        if len(self.y[0]) > 1:
            form = 'object'
        self.form = form
        if form == 'object':
            return (self.object(nimble, rng, self.x, self.pn, self.fn, typ),
                    self.object(nimble, rng, self.y,
                                self.pn if rng.random() < .5 else
                                [None] * self.n, self.ylab))
        self.at = rng.randint(0, self.d)
        self.ylab = ['lab'] if form == 'name' else self.ylab
        return (self.object(nimble, rng,
                            [r[:self.at] + q + r[self.at:]
                             for r, q in zip(self.x, self.y)], self.pn,
                            self.withLabel(), typ), self.identifier())

    def withLabel(self):
        return self.fn[:self.at] + self.ylab + self.fn[self.at:]

    def identifier(self):
        if self.form == 'name':
            return 'lab'
        if self.form == 'negative':
            return self.at - self.d - 1
        if self.form == 'npindex':
            return np.int64(self.at)
        return self.at

    def testX(self, nimble, rng, typ=None):
        return self.object(nimble, rng, self.t, self.tpn, self.fn, typ)

    def testXY(self, nimble, rng):
        """Test data with labels in one of the forms."""
        form = self.form if self.form not in ('object', 'none') else None
        if form and rng.random() < .6:
            T = self.object(nimble, rng,
                            [r[:self.at] + q + r[self.at:]
                             for r, q in zip(self.t, self.ty)], self.tpn,
                            self.withLabel())
            return T, rng.choice([None, self.identifier(), 'id'])
        return (self.testX(nimble, rng),
                self.object(nimble, rng, self.ty, [None] * self.m, self.ylab))


def pickLearner(rng, nimble, goal=None):
    """name, goal, arguments"""
    if goal is None and rng.random() < .25:
        if rng.random() < .5:
            name, goal, args = rng.choice(BUILTIN)
        else:
            name = rng.choice(['Mean', 'Keeper'])
            goal = 'regression' if name == 'Mean' else 'classification'
            args = {'scale': [1, 2]} if name == 'Mean' else {'shift': [0, 1]}
        return name, goal, pickArgs(rng, args)
    goal = goal or rng.choice(['regression'] * 3 + ['classification'] * 4
                              + ['transformation'] * 3 + ['cluster',
                                                          'UNKNOWN'])
    pool = STATE['names'].get(goal, [])
    rich = [p for p in pool if p in ARGS]
    name = rng.choice(rich if rich and rng.random() < .5 else pool)
    return 'sklearn.' + name, goal, pickArgs(rng, ARGS.get(name, {}))


def pickArgs(rng, options):
    return {k: rng.choice(v) for k, v in options.items()
            if rng.random() < .6}


def given(rng, args):
    """The same arguments in one of the forms a call accepts them."""
    r = rng.random()
    if r < .4:
        return {'arguments': dict(args)}
    if r < .7:
        return dict(args)
    half = {k: v for i, (k, v) in enumerate(args.items()) if i % 2}
    ret = {k: v for i, (k, v) in enumerate(args.items()) if not i % 2}
    if rng.random() < .3:
        half.update(ret)
    ret['arguments'] = half
    return ret


def spelled(rng, nimble, name):
    """A name or object which stands for the learner."""
    if name in CLASSES:
        return CLASSES[name]
    package, short = name.split('.')
    if package == 'sklearn':
        r = rng.random()
        if r < .4:
            return name
        if r < .7:
            return rng.choice(['sciKitLearn.', 'skl.', 'scikit-learn.',
                               'SKLEARN.']) + short
        return estimator(nimble, name)
    r = rng.random()
    if r < .7:
        return name
    return getattr(nimble.learners, short, name)


def estimator(nimble, name):
    return nimble.core.interfaces.available['sklearn'].findCallable(
        name.split('.')[1])


class Kept:
    def __init__(self, ctx, **objs):
        self.ctx = ctx
        self.objs = {k: v for k, v in objs.items() if v is not None}
        self.before = {k: freeze(v) for k, v in self.objs.items()}

    def check(self, label):
        for k, v in self.objs.items():
            self.ctx.event('inputs_compared')
            d = frozenDiff(self.before[k], freeze(v))
            self.ctx.check(d is None, f'input-changed:{k}',
                           lambda: f'{label} changed {k}: {d}')


# -- comparing ---------------------------------------------------------------

def rows(x):
    if hasattr(x, 'points'):
        return model.rawRows(x)
    if hasattr(x, 'toarray'):
        x = x.toarray()
    x = np.asarray(x)
    if x.ndim == 1:
        x = x.reshape(-1, 1)
    return [list(r) for r in x.tolist()]


def alike(a, b, tol=1e-6):
    if len(a) != len(b):
        return False
    for r, s in zip(a, b):
        if len(r) != len(s):
            return False
        for v, w in zip(r, s):
            if isinstance(v, str) or isinstance(w, str):
                if v != w:
                    return False
            elif isNan(v) or isNan(w):
                if not (isNan(v) and isNan(w)):
                    return False
            elif v != w and abs(v - w) > tol * max(1, abs(v), abs(w)):
                return False
    return True


def matrixForms(raw):
    """Arrays a package may see the data as; identical values."""
    import scipy.sparse as sp
    a = np.array(raw)
    yield 'dense', a
    if any(isinstance(v, float) for r in raw for v in r) or True:
        yield 'float', np.array(raw, dtype=float)
    yield 'fortran', np.asfortranarray(np.array(raw, dtype=float))
    yield 'coo', sp.coo_matrix(np.array(raw, dtype=float))


def directFit(nimble, name, args, seed, x, y):
    cls = estimator(nimble, name)
    params = dict(args)
    if 'random_state' in cls().get_params():
        params['random_state'] = seed
    est = cls(**params)
    yy = None
    if y is not None:
        yy = np.array(y)
        if yy.dtype.kind == 'U':
            yy = yy.astype(object)
        if yy.shape[1] == 1:
            yy = yy.ravel()
    x = x.copy()
    if yy is None:
        est.fit(x)
    else:
        est.fit(x, yy)
    return est


def directApply(est, t):
    t = t.copy()
    if hasattr(est, 'predict'):
        return est.predict(t)
    if hasattr(est, 'transform'):
        return est.transform(t)
    if hasattr(est, 'labels_'):
        return est.labels_
    return est.embedding_


def directScores(est, t):
    if hasattr(est, 'decision_function'):
        s = est.decision_function(t)
    else:
        s = est.predict_proba(t)
    if s.ndim == 1:
        s = np.stack([-s, s], axis=1)
    return s


def alternatives(nimble, name, args, seed, x, y, t, what=directApply):
    """What the package itself answers for the same data in each layout."""
    out = []
    for lab, a in matrixForms(x):
        for lab2, b in matrixForms(t):
            if lab2 != lab and not (lab == 'dense' and lab2 == 'float'):
                if {lab, lab2} != {'coo', 'float'}:
                    continue
            try:
                est = quiet(directFit, nimble, name, args, seed, a, y)
                out.append(rows(quiet(what, est, b)))
            except Exception as e:
                out.append(e)
    return out


def performanceOf(rng, nimble, goal):
    c = nimble.calculate
    if goal == 'classification':
        return rng.choice([c.fractionIncorrect, c.fractionCorrect])
    if goal == 'multi':
        return rng.choice([c.meanFeaturewiseRootMeanSquareError])
    return rng.choice([c.meanAbsoluteError, c.rootMeanSquareError,
                       c.rSquared])


def performance(func, known, pred):
    n = len(known)
    name = func.__name__
    if name in ('fractionIncorrect', 'fractionCorrect'):
        wrong = sum(not model.same(a[0], b[0])
                    for a, b in zip(known, pred)) / n
        return wrong if name == 'fractionIncorrect' else 1 - wrong
    if name == 'meanFeaturewiseRootMeanSquareError':
        k = len(known[0])
        return sum((sum((a[j] - b[j]) ** 2 for a, b in zip(known, pred))
                    / n) ** .5 for j in range(k)) / k
    err = [a[0] - b[0] for a, b in zip(known, pred)]
    if name == 'meanAbsoluteError':
        return sum(map(abs, err)) / n
    if name == 'rootMeanSquareError':
        return (sum(e * e for e in err) / n) ** .5
    mean = sum(a[0] for a in known) / n
    var = sum((a[0] - mean) ** 2 for a in known)
    if var == 0:
        return None
    return 1 - sum(e * e for e in err) / var


# -- kinds -------------------------------------------------------------------

def start(ctx, goal=None):
    rng, nimble = ctx.rng, ctx.nimble
    name, goal, args = pickLearner(rng, nimble, goal)
    p = Problem(rng, goal)
    X, Y = p.make(nimble, rng)
    seed = rng.randint(1, 9999)
    if name not in STATE['seen']:
        STATE['seen'].add(name)
    ctx.state(name, tuple(sorted(args.items(), key=str)), X.getTypeString(),
              p.form)
    label = (f'{name} {args} on {X.getTypeString()} {p.n}x{p.d} labels='
             f'{p.form}')
    return name, goal, args, p, X, Y, seed, label


def asObject(v):
    return None if v is None or isinstance(v, (int, str, np.integer)) else v


def unlabelled(name, p):
    """-1 stands for a missing label in semi-supervised learners."""
    return ('Label' in name or 'SelfTraining' in name) and \
        -1 in getattr(p, 'labels', [])


def usedAgain(ctx, tl, T, first, label, p):
    """nothing asked of a trained learner changes what it answers"""
    rng = ctx.rng
    got, names = rows(first), list(first.features.getNames())
    points = list(first.points.getNames())
    told = (tl.learnerName, repr(tl.arguments), tl.randomSeed,
            tl.learnerType)
    wide = ctx.nimble.data([[0] * (p.d + 3)], useLog=False)
    calls = {
        'bestScore': lambda: tl.apply(T, scoreMode='bestScore',
                                      useLog=False),
        'allScores': lambda: tl.apply(T, scoreMode='allScores',
                                      useLog=False),
        'getScores': lambda: tl.getScores(T),
        'apply': lambda: tl.apply(T, useLog=False),
        'one point': lambda: tl.apply(T.points.copy(0), useLog=False),
        'attributes': lambda: tl.getAttributes(),
        'unknown argument': lambda: tl.apply(T, {'noSuchArgument': 3},
                                             useLog=False),
        'wrong width': lambda: tl.apply(wide, useLog=False),
        'mode': lambda: tl.apply(T, scoreMode='worst', useLog=False),
        'rename result': lambda: first.features.setNames(
            [f'other{i}' for i in range(len(first.features))],
            useLog=False),
        'text': lambda: (repr(tl), str(tl)),
    }
    done = []
    for what in rng.sample(sorted(calls), 3) + ['bestScore'] * (
            rng.random() < .3):
        st, _ = call(ctx, lambda: quiet(calls[what]))
        done.append(f'{what}:{st}')
    ctx.event('used_again')
    st, again = call(ctx, lambda: quiet(tl.apply, T, useLog=False))
    ctx.check(st != 'exc', 'used-again:raises', lambda: f'{label}: after '
              f'{done} apply raised {type(again).__name__}: '
              f'{str(again)[:200]} (in {where(again)})')
    ctx.check(alike(rows(again), got, 1e-12), 'used-again:predictions',
              lambda: f'{label}: predictions {got[:5]} became '
              f'{rows(again)[:5]} after {done}')
    ctx.check(list(again.features.getNames()) == names and
              list(again.points.getNames()) == points, 'used-again:names',
              lambda: f'{label}: the names of the predictions {names} became '
              f'{again.features.getNames()} after {done}')
    now = (tl.learnerName, repr(tl.arguments), tl.randomSeed, tl.learnerType)
    ctx.check(now == told, 'used-again:description', lambda: f'{label}: '
              f'{told} became {now} after {done}')


def kindRoutes(ctx):
    rng, nimble = ctx.rng, ctx.nimble
    name, goal, args, p, X, Y, seed, label = start(ctx)
    T = p.testX(nimble, rng)
    ctx.log(f'{label} tested on {T.getTypeString()} {p.m}')
    kept = Kept(ctx, X=X, Y=asObject(Y), T=T)
    how = given(rng, args)
    keptArgs = Kept(ctx, arguments=how)
    st, tl = call(ctx, lambda: quiet(
        nimble.train, spelled(rng, nimble, name), X, Y, randomSeed=seed,
        useLog=False, **how))
    kept.check(f'training {label}')
    keptArgs.check(f'training {label}')
    package = name.startswith('sklearn.')
    refs = None
    if package:
        refs = alternatives(nimble, name, args, seed, p.x, p.y, p.t)
    if st == 'exc':
        ok = package and any(isinstance(r, Exception) for r in refs)
        ctx.check(ok, f'train:raises-{type(tl).__name__}',
                  lambda: f'training {label} raised {type(tl).__name__}: '
                          f'{str(tl)[:200]} (in {where(tl)}); the package '
                          f'itself accepts the data')
        ctx.event('refused_by_package')
        return
    ctx.event('routes')
    st, pred = call(ctx, lambda: quiet(tl.apply, T, useLog=False))
    kept.check(f'applying {label}')
    if st == 'exc':
        ok = package and any(isinstance(r, Exception) for r in refs)
        ctx.check(ok, f'apply:raises-{type(pred).__name__}',
                  lambda: f'applying {label} raised {type(pred).__name__}: '
                          f'{str(pred)[:200]} (in {where(pred)})')
        ctx.event('refused_by_package')
        return
    got = rows(pred)
    if package:
        good = [r for r in refs if not isinstance(r, Exception)]
        ctx.event('direct')
        ctx.check(any(alike(got, r) for r in good), 'direct',
                  lambda: f'{label}: predictions {got[:6]}, the package gives '
                          f'{good[0][:6] if good else refs}')
    # the description of the trained learner
    ctx.check(tl.learnerName == name.split('.')[-1], 'learnerName',
              lambda: f'{label}: learnerName {tl.learnerName}')
    ctx.check(tl.arguments == args, 'arguments',
              lambda: f'{label}: arguments of the trained learner '
                      f'{tl.arguments}')
    ctx.check(tl.randomSeed == seed, 'randomSeed',
              lambda: f'{label}: randomSeed {tl.randomSeed}, given {seed}')
    if len(pred.points) == p.m:
        ctx.check(list(pred.points.getNames()) == list(T.points.getNames()),
                  'point-names',
                  lambda: f'{label}: predictions are named '
                          f'{pred.points.getNames()}, the points '
                          f'{T.points.getNames()}')
    if goal in ('classification', 'regression'):
        ctx.check(list(pred.features.getNames()) == p.ylab, 'label-name',
                  lambda: f'{label}: predictions of {p.ylab} are named '
                          f'{pred.features.getNames()}')
    if rng.random() < .4:
        usedAgain(ctx, tl, T, pred, label, p)
    later = rng.random() < .6
    # the same predictions through every other route
    fixed = package or name in CLASSES or name.startswith('nimble.')
    st, both = call(ctx, lambda: quiet(
        nimble.trainAndApply, spelled(rng, nimble, name), X, Y, T,
        randomSeed=seed, useLog=False, **given(rng, args)))
    kept.check(f'trainAndApply {label}')
    ctx.event('routes')
    ctx.check(st != 'exc' and alike(rows(both), got), 'trainAndApply',
              lambda: f'{label}: trainAndApply gives '
                      f'{both if st == "exc" else rows(both)[:6]}, apply '
                      f'gives {got[:6]}')
    if rng.random() < .4 and p.y is not None:
        st, own = call(ctx, lambda: quiet(
            nimble.trainAndApply, spelled(rng, nimble, name), X, Y,
            randomSeed=seed, useLog=False, **given(rng, args)))
        X0 = X
        if p.form != 'object':
            X0 = X.copy()
            X0.features.delete(p.at, useLog=False)
        want = rows(quiet(tl.apply, X0, useLog=False))
        ctx.event('routes')
        ctx.check(st != 'exc' and alike(rows(own), want),
                  'trainAndApply-no-testX',
                  lambda: f'{label}: trainAndApply without testX gives '
                          f'{own if st == "exc" else rows(own)[:6]}, '
                          f'applying to the training data {want[:6]}')
    if p.y is not None and goal in ('classification', 'regression', 'multi'):
        kindPerformance(ctx, name, goal, args, p, X, Y, seed, label, tl, got,
                        refs)
    if later:
        # later changes to the training data do not matter
        for o in (X, asObject(Y)):
            if o is not None and not isView(o):
                scribble(o, rng)
        again = rows(quiet(tl.apply, T, useLog=False))
        ctx.event('later_changes')
        ctx.check(alike(again, got, 1e-12), 'later-changes',
                  lambda: f'{label}: predictions {got[:6]} became '
                          f'{again[:6]} after the training data was '
                          f'modified')
    if rng.random() < .3 and name not in CLASSES:
        path = os.path.join(os.getcwd(), f'tl{rng.randrange(10**9)}.pickle')
        must(ctx, 'save', f'saving {label}', lambda: tl.save(path))
        back = must(ctx, 'load', f'loading {label}',
                    lambda: nimble.loadTrainedLearner(path, useLog=False))
        again = rows(quiet(back.apply, T, useLog=False))
        os.remove(path)
        ctx.event('saved')
        ctx.check(alike(again, got, 1e-12), 'saved-predictions',
                  lambda: f'{label}: the loaded learner predicts {again[:6]}, '
                          f'the saved one {got[:6]}')
        ctx.check(back.arguments == args and back.randomSeed == seed,
                  'saved-description', lambda: f'{label}: loaded '
                  f'{back.arguments} {back.randomSeed}')


def isView(o):
    return type(o).__name__.endswith('View')


def kindPerformance(ctx, name, goal, args, p, X, Y, seed, label, tl, got,
                    refs):
    rng, nimble = ctx.rng, ctx.nimble
    func = performanceOf(rng, nimble, goal)
    want = performance(func, p.ty, got)
    if want is None or any(isNan(v) for r in got for v in r):
        return
    T, TY = p.testXY(nimble, rng)
    if isinstance(TY, str) and TY == 'id':
        TY = rng.choice([p.at, 'lab' if p.form == 'name' else p.at])
    if TY is None and rng.random() < .5:
        TY = p.identifier()
    kept = Kept(ctx, X=X, Y=asObject(Y), T=T, TY=asObject(TY))
    refused = any(isinstance(r, Exception) for r in refs or [])
    form = 'none' if TY is None else type(TY).__name__
    ctx.event('performances')
    st, res = call(ctx, lambda: quiet(
        nimble.trainAndTest, spelled(rng, nimble, name), func, X, Y, T, TY,
        randomSeed=seed, useLog=False, **given(rng, args)))
    kept.check(f'trainAndTest {label}')
    ctx.event('routes')
    if st == 'exc' and refused:
        return
    ctx.check(st != 'exc' and abs(res - want) <= 1e-6 * max(1, abs(want)),
              'trainAndTest',
              lambda: f'{label}: trainAndTest with {func.__name__} and test '
                      f'labels as {form} gives {res}, the predictions give '
                      f'{want}')
    if TY is not None:
        st, res = call(ctx, lambda: quiet(tl.test, func, T, TY,
                                          useLog=False))
        kept.check(f'test {label}')
        ctx.event('routes')
        if st == 'exc' and refused:
            return
        ctx.check(st != 'exc' and abs(res - want) <= 1e-6 * max(1, abs(want)),
                  'test',
                  lambda: f'{label}: test with {func.__name__} and labels as '
                          f'{form} gives {res}, the predictions give {want}')


def kindScores(ctx):
    rng, nimble = ctx.rng, ctx.nimble
    goal = 'classification'
    if rng.random() < .15:
        name, args = 'Keeper', {}
    else:
        name, goal, args = pickLearner(rng, nimble, 'classification')
    p = Problem(rng, goal)
    X, Y = p.make(nimble, rng)
    if unlabelled(name, p):
        raise Skip('-1 is no label')
    T = p.testX(nimble, rng)
    seed = rng.randint(1, 9999)
    label = f'{name} {args} on {X.getTypeString()} scores for {p.labels}'
    ctx.log(label)
    ctx.state('scores', name, X.getTypeString(), p.form, tuple(p.labels))
    kept = Kept(ctx, X=X, Y=asObject(Y), T=T)
    st, tl = call(ctx, lambda: quiet(
        nimble.train, spelled(rng, nimble, name), X, Y, randomSeed=seed,
        useLog=False, **given(rng, args)))
    if st == 'exc':
        raise Skip('the learner refuses the data')
    if name == 'Keeper':
        pred = quiet(tl.apply, T, useLog=False)
        want = [rows(CLASSES['Keeper'].getScores(tl._backend, T))]
    else:
        want = alternatives(nimble, name, args, seed, p.x, p.y, p.t,
                            directScores)
        refused = sum(isinstance(w, Exception) for w in want)
        if 0 < refused < len(want):
            st, _ = call(ctx, lambda: quiet(tl.apply, T, useLog=False))
            if st == 'exc':
                raise Skip('the learner refuses the data')
        want = [w for w in want if not isinstance(w, Exception)]
        if not want:
            try:
                quiet(tl.apply, T, scoreMode='allScores', useLog=False)
                raised = False
            except Exception:
                raised = True
            ctx.check(raised, 'scores:invented',
                      lambda: f'{label}: scores of a learner without any')
            return
        pred = quiet(tl.apply, T, useLog=False)
    present = sorted({r[0] for r in p.y})
    k = len(present)
    st, alls = call(ctx, lambda: quiet(
        tl.apply, T, scoreMode='allScores', useLog=False))
    kept.check(label)
    if st == 'exc':
        ctx.violation('scores:raises',
                      f'{label} raised {type(alls).__name__}: {alls} (in '
                      f'{where(alls)})')
    ctx.event('scores')
    ctx.check(any(alike(rows(alls), w) for w in want), 'scores:values',
              lambda: f'{label}: scores {rows(alls)[:4]}, the package gives '
                      f'{want[0][:4]}')
    asked = [str(v) for v in present]
    names = alls.features.getNames()
    same = len(names) == k and all(
        a == b or (not isinstance(v, str) and float(a) == v)
        for a, b, v in zip(names, asked, present))
    ctx.check(same, 'scores:names',
              lambda: f'{label}: score features {names}, labels {present}')
    ctx.check(list(alls.points.getNames()) == list(T.points.getNames()),
              'scores:point-names', lambda: f'{label}: '
              f'{alls.points.getNames()}')
    viaGet = rows(quiet(tl.getScores, T))
    ctx.check(alike(viaGet, rows(alls)), 'scores:getScores',
              lambda: f'{label}: getScores {viaGet[:4]}, allScores '
                      f'{rows(alls)[:4]}')
    best = must(ctx, 'scores:best', label, lambda: quiet(
        tl.apply, T, scoreMode='bestScore', useLog=False))
    ctx.check(best.shape == (p.m, 2), 'scores:best-shape',
              lambda: f'{label}: bestScore gives {best.shape}')
    for r, pr, s in zip(rows(best), rows(pred), rows(alls)):
        i = [j for j, v in enumerate(present) if model.same(v, pr[0])]
        ctx.check(model.same(r[0], pr[0]) and i and
                  (isNan(r[1]) and isNan(s[i[0]]) or
                   abs(r[1] - s[i[0]]) <= 1e-9 * max(1, abs(r[1]))),
                  'scores:best',
                  lambda: f'{label}: bestScore {r}, predicted {pr}, scores '
                          f'{s} of {present}')
    usedAgain(ctx, tl, T, pred, label, p)
    own = rows(quiet(nimble.trainAndApply, spelled(rng, nimble, name), X, Y,
                     T, scoreMode='allScores', randomSeed=seed, useLog=False,
                     **given(rng, args)))
    ctx.event('routes')
    ctx.check(alike(own, rows(alls)), 'scores:trainAndApply',
              lambda: f'{label}: trainAndApply gives the scores {own[:4]}, '
                      f'apply {rows(alls)[:4]}')


def kindRetrain(ctx):
    rng, nimble = ctx.rng, ctx.nimble
    goal = rng.choice(['regression', 'classification', 'transformation',
                       'custom', 'builtin'])
    if goal == 'custom':
        name = rng.choice(['Mean', 'Keeper'])
        goal = 'regression' if name == 'Mean' else 'classification'
        options = {'scale': [1, 2, 3]} if name == 'Mean' else \
            {'shift': [0, 1, 2]}
    elif goal == 'builtin':
        name, goal, options = rng.choice(BUILTIN)
    else:
        name = rng.choice([n for n in STATE['names'][goal] if n in ARGS])
        options = ARGS[name]
        name = 'sklearn.' + name
    p = Problem(rng, goal)
    q = Problem(rng, goal, d=rng.choice([p.d, p.d, p.d + 1]))
    X, Y = p.make(nimble, rng)
    X2, Y2 = q.make(nimble, rng)
    T = q.testX(nimble, rng)
    first = pickArgs(rng, options)
    second = pickArgs(rng, options)
    seed = rng.randint(1, 9999)
    label = (f'{name} {first} retrained with {second} ({p.d} then {q.d} '
             f'features, labels {p.form} then {q.form})')
    ctx.log(label)
    ctx.state('retrain', name, tuple(sorted(second, key=str)), p.form, q.form)
    st, tl = call(ctx, lambda: quiet(
        nimble.train, spelled(rng, nimble, name), X, Y, first,
        randomSeed=seed, useLog=False))
    merged = {**first, **second}
    st2, fresh = call(ctx, lambda: quiet(
        nimble.train, spelled(rng, nimble, name), X2, Y2, merged,
        randomSeed=seed + 1, useLog=False))
    if st == 'exc' or st2 == 'exc':
        raise Skip('the learner refuses the data')
    kept = Kept(ctx, X=X2, Y=asObject(Y2), arguments=second)
    st, want = call(ctx, lambda: quiet(fresh.apply, T, useLog=False))
    if st == 'exc':
        raise Skip('the learner refuses the data')
    must(ctx, 'retrain', label, lambda: quiet(
        tl.retrain, X2, Y2, second, randomSeed=seed + 1, useLog=False))
    kept.check(f'retraining {label}')
    ctx.event('retrained')
    pred = must(ctx, 'retrain:apply', label,
                lambda: quiet(tl.apply, T, useLog=False))
    got, want_ = rows(pred), rows(want)
    ctx.check(alike(got, want_), 'retrain:predictions',
              lambda: f'{label}: predicts {got[:6]}, a learner trained '
                      f'freshly {want_[:6]}')
    ctx.check(list(pred.features.getNames()) == list(want.features.getNames()),
              'retrain:label-name',
              lambda: f'{label}: names {pred.features.getNames()}, freshly '
                      f'{want.features.getNames()}')
    ctx.check(tl.arguments == merged, 'retrain:arguments',
              lambda: f'{label}: arguments {tl.arguments}, expected {merged}')
    ctx.check(tl.randomSeed == seed + 1, 'retrain:randomSeed',
              lambda: f'{label}: randomSeed {tl.randomSeed}')
    if rng.random() < .4:
        third = pickArgs(rng, options)
        merged.update(third)
        st2, fresh = call(ctx, lambda: quiet(
            nimble.train, spelled(rng, nimble, name), X2, Y2, merged,
            randomSeed=seed, useLog=False))
        if st2 == 'exc':
            return
        must(ctx, 'retrain', label + f' then {third}', lambda: quiet(
            tl.retrain, X2, Y2, randomSeed=seed, useLog=False, **third))
        ctx.event('retrained')
        got = rows(quiet(tl.apply, T, useLog=False))
        want = rows(quiet(fresh.apply, T, useLog=False))
        ctx.check(alike(got, want), 'retrain:predictions',
                  lambda: f'{label} then {third}: predicts {got[:6]}, a '
                          f'learner trained freshly {want[:6]}')


def kindIncremental(ctx):
    """Training on two pieces is training on both (an additive learner)."""
    rng, nimble = ctx.rng, ctx.nimble
    p = Problem(rng, 'regression')
    q = Problem(rng, 'regression', d=p.d)
    q.fn, q.ylab = p.fn, p.ylab
    X, Y = p.make(nimble, rng)
    X2, Y2 = q.make(nimble, rng)
    T = p.testX(nimble, rng)
    args = pickArgs(rng, {'scale': [2, 3]})
    label = f'Mean {args} trained incrementally (labels {p.form}, {q.form})'
    ctx.log(label)
    ctx.state('incremental', p.form, q.form, X.getTypeString(),
              tuple(args.items()))
    tl = must(ctx, 'incremental:train', label, lambda: quiet(
        nimble.train, CLASSES['Mean'], X, Y, args, useLog=False))
    kept = Kept(ctx, X=X2, Y=asObject(Y2))
    if args:
        # the method declares no argument: nothing stored is passed to it
        pass
    must(ctx, 'incremental', label, lambda: quiet(
        tl.incrementalTrain, X2, Y2, useLog=False))
    kept.check(label)
    ctx.event('retrained')
    got = rows(quiet(tl.apply, T, useLog=False))
    full = quiet(nimble.train, CLASSES['Mean'],
                 nimble.data(p.x + q.x, useLog=False),
                 nimble.data(p.y + q.y, useLog=False), args, useLog=False)
    want = rows(quiet(full.apply, T, useLog=False))
    ctx.check(alike(got, want), 'incremental:predictions',
              lambda: f'{label}: predicts {got[:4]}, trained at once '
                      f'{want[:4]}')


def kindNormalize(ctx):
    """normalizeData is training and applying a transformation."""
    rng, nimble = ctx.rng, ctx.nimble
    name = rng.choice(['StandardScaler', 'MinMaxScaler', 'MaxAbsScaler',
                       'RobustScaler', 'Normalizer', 'PCA', 'Binarizer',
                       'PolynomialFeatures', 'SimpleImputer', 'SelectKBest'])
    args = pickArgs(rng, ARGS[name])
    needs = name == 'SelectKBest'
    p = Problem(rng, 'classification' if needs else 'transformation')
    X, Y = p.make(nimble, rng, 'object')
    T = p.testX(nimble, rng) if rng.random() < .7 else None
    seed = rng.randint(1, 999)
    full = 'sklearn.' + name
    label = f'normalizeData {name} {args} on {X.getTypeString()}'
    ctx.log(label)
    ctx.state('normalize', name, tuple(sorted(args.items(), key=str)),
              X.getTypeString(), T is None)
    kept = Kept(ctx, X=X, Y=asObject(Y), T=T)
    refs = alternatives(nimble, full, args, seed, p.x, p.y, p.x)
    st, res = call(ctx, lambda: quiet(
        nimble.normalizeData, spelled(rng, nimble, full), X, Y, T,
        randomSeed=seed, useLog=False, **given(rng, args)))
    kept.check(label)
    if st == 'exc':
        ctx.check(any(isinstance(r, Exception) for r in refs),
                  'normalize:raises', lambda: f'{label} raised '
                  f'{type(res).__name__}: {res} (in {where(res)})')
        return
    ctx.event('routes')
    pieces = [(res, X, refs)] if T is None else \
        [(res[0], X, refs), (res[1], T, alternatives(
            nimble, full, args, seed, p.x, p.y, p.t))]
    for got, src, want in pieces:
        good = [w for w in want if not isinstance(w, Exception)]
        ctx.check(any(alike(rows(got), w) for w in good), 'normalize:values',
                  lambda: f'{label}: {rows(got)[:4]}, the package gives '
                          f'{good[0][:4] if good else want}')
        ctx.check(got.getTypeString() == src.getTypeString(),
                  'normalize:type', lambda: f'{label}: {src.getTypeString()} '
                  f'became {got.getTypeString()}')
        ctx.check(list(got.points.getNames()) == list(src.points.getNames()),
                  'normalize:point-names',
                  lambda: f'{label}: {got.points.getNames()}')
        if len(got.features) == len(src.features):
            ctx.check(list(got.features.getNames()) ==
                      list(src.features.getNames()),
                      'normalize:feature-names',
                      lambda: f'{label}: {got.features.getNames()}')


def kindRefused(ctx):
    rng, nimble = ctx.rng, ctx.nimble
    goal = rng.choice(['classification', 'regression'])
    p = Problem(rng, goal, plain=True)
    dense = ['Matrix', 'List', 'DataFrame']
    X, Y = p.make(nimble, rng, typ=rng.choice(dense))
    seed = rng.randint(1, 9999)
    name = rng.choice(['sklearn.Ridge', 'nimble.RidgeRegression', 'Mean'] if
                      goal == 'regression' else
                      ['sklearn.GaussianNB', 'nimble.KNNClassifier',
                       'Keeper'])
    args = {'lamb': 1} if 'RidgeReg' in name else {}
    T = p.testX(nimble, rng, rng.choice(dense))
    learner = spelled(rng, nimble, name)
    how = rng.choice(['extra', 'learner', 'package', 'length', 'label',
                      'trainX', 'arguments', 'scoreMode', 'strategy',
                      'features', 'testLength', 'contradiction', 'tune',
                      'retrainExtra', 'retrainTune', 'retrainLength',
                      'testExtra', 'testFeatures', 'missing', 'testType'])
    func = performanceOf(rng, nimble, goal)
    label = f'{name} refusing {how}'
    ctx.log(label)
    ctx.state('refused', how, name, p.form)
    kept = Kept(ctx, X=X, Y=asObject(Y), T=T)
    tl = must(ctx, 'refused:train', f'{label} valid training', lambda: quiet(
        nimble.train, learner, X, Y, args, randomSeed=seed, useLog=False))
    before = rows(quiet(tl.apply, T, useLog=False))
    route = rng.choice(['train', 'apply', 'test'])

    def go(L=learner, X_=X, Y_=Y, T_=T, A=args, **kw):
        if route == 'train' and 'scoreMode' not in kw:
            return nimble.train(L, X_, Y_, A, useLog=False, **kw)
        if route == 'apply' or 'scoreMode' in kw:
            return nimble.trainAndApply(L, X_, Y_, T_, A, useLog=False, **kw)
        return nimble.trainAndTest(
            L, func, X_, Y_, T_, nimble.data(p.ty, useLog=False), A,
            useLog=False, **kw)
    onlyY = p.y
    longer = nimble.data(onlyY + onlyY[:1], useLog=False)
    wide = nimble.data([r + [1] for r in p.t], useLog=False)
    cases = {
        'extra': lambda: go(A={**args, 'notAnArgument': 1}),
        'learner': lambda: go(L='sklearn.NoSuchLearner'),
        'package': lambda: go(L=rng.choice(['nopackage.Ridge', 'Ridge'])),
        'length': lambda: go(Y_=longer),
        'label': lambda: go(Y_=rng.choice(['no such feature', 99, -99])),
        'trainX': lambda: go(X_=rng.choice([p.x, None, np.array(p.x)])),
        'arguments': lambda: go(A=rng.choice([[1], 'alpha', 3])),
        'scoreMode': lambda: go(scoreMode=rng.choice(['worst', 'all'])),
        'strategy': lambda: go(multiClassStrategy='OneVsMany'),
        'features': lambda: (nimble.trainAndApply(learner, X, Y, wide, args,
                                                  useLog=False)),
        'testLength': lambda: nimble.trainAndTest(
            learner, func, X, Y, T, nimble.data(p.ty + p.ty[:1],
                                                useLog=False), args,
            useLog=False),
        'contradiction': lambda: go(A={**args, 'zz': 1}, zz=2),
        'tune': lambda: nimble.train(
            learner, X, Y, {**args, 'notAnArgument': nimble.Tune([1, 2])},
            tuning=func, useLog=False),
        'retrainExtra': lambda: tl.retrain(X, Y, {'notAnArgument': 1},
                                           useLog=False),
        'retrainTune': lambda: tl.retrain(
            X, Y, {'sklearn.Ridge': {'alpha': nimble.Tune([1, 2])},
                   'nimble.RidgeRegression': {'lamb': nimble.Tune([1, 2])},
                   'Mean': {'scale': nimble.Tune([1, 2])},
                   'sklearn.GaussianNB': {'var_smoothing':
                                          nimble.Tune([1, 2])},
                   'nimble.KNNClassifier': {'k': nimble.Tune([1, 3])},
                   'Keeper': {'shift': nimble.Tune([1, 2])}}[name],
            useLog=False),
        'retrainLength': lambda: tl.retrain(X, longer, useLog=False),
        'testExtra': lambda: tl.apply(T, {'notAnArgument': 1}, useLog=False),
        'testFeatures': lambda: tl.apply(wide, useLog=False),
        'missing': lambda: go(L=CLASSES['Needs'], A={}),
        'testType': lambda: tl.apply(rng.choice([p.t, None, 'x']),
                                     useLog=False)}
    try:
        quiet(cases[how])
        raised = None
    except Exception as e:
        raised = e
    ctx.event('refused')
    ctx.check(raised is not None, f'accepted:{how}',
              lambda: f'{label} ({route}): accepted')
    kept.check(label)
    again = rows(quiet(tl.apply, T, useLog=False))
    ctx.check(alike(again, before, 1e-12), f'refused-but-changed:{how}',
              lambda: f'{label}: the learner predicts {again[:4]} after '
                      f'refusing, {before[:4]} before')
    ctx.check(tl.arguments == args, f'refused-but-arguments:{how}',
              lambda: f'{label}: the learner has arguments {tl.arguments} '
                      f'after refusing, {args} before')


def strategyVotes(nimble, name, strat, args, seed, p):
    """The votes of learners trained one by one for each point."""
    labels = sorted({r[0] for r in p.y})
    votes = [{k: 0 for k in labels} for _ in p.t]
    T = nimble.data(p.t, useLog=False)
    if strat == 'OneVsAll':
        for k in labels:
            tl = quiet(nimble.train, name, nimble.data(p.x, useLog=False),
                       nimble.data([[int(r[0] == k)] for r in p.y],
                                   useLog=False), args, randomSeed=seed,
                       useLog=False)
            for v, r in zip(votes, rows(quiet(tl.apply, T, useLog=False))):
                v[k] += r[0]
        return votes
    for i, a in enumerate(labels):
        for b in labels[i + 1:]:
            keep = [j for j, r in enumerate(p.y) if r[0] in (a, b)]
            tl = quiet(nimble.train, name,
                       nimble.data([p.x[j] for j in keep], useLog=False),
                       nimble.data([p.y[j] for j in keep], useLog=False),
                       args, randomSeed=seed, useLog=False)
            for v, r in zip(votes, rows(quiet(tl.apply, T, useLog=False))):
                v[r[0]] += 1
    return votes


def kindStrategy(ctx):
    """Multiclass strategies agree between the routes; every accepted
    spelling is acted upon."""
    rng, nimble = ctx.rng, ctx.nimble
    name, _, args = rng.choice([
        ('sklearn.LogisticRegression', 0, {}), ('sklearn.GaussianNB', 0, {}),
        ('sklearn.DecisionTreeClassifier', 0, {'max_depth': 2}),
        ('nimble.KNNClassifier', 0, {'k': 3}),
        ('sklearn.SVC', 0, {'kernel': 'linear'})])
    p = Problem(rng, 'classification', plain=True)
    typs = [rng.choice(gen.TYPES) for _ in range(2)]
    if name in ('sklearn.GaussianNB', 'sklearn.SVC'):
        typs = [rng.choice(['Matrix', 'List', 'DataFrame']) for _ in typs]
    X, Y = p.make(nimble, rng, typ=typs[0])
    T = p.testX(nimble, rng, typs[1])
    strat = rng.choice(['OneVsAll', 'OneVsOne'])
    spell = strat if rng.random() < .7 else strat.lower()
    seed = rng.randint(1, 999)
    label = f'{name} {spell} on {X.getTypeString()} labels={p.form} {p.labels}'
    ctx.log(label)
    ctx.state('strategy', name, spell, X.getTypeString(), p.form,
              len(p.labels))
    kept = Kept(ctx, X=X, Y=asObject(Y), T=T)
    tl = must(ctx, 'strategy:train', label, lambda: quiet(
        nimble.train, name, X, Y, args, multiClassStrategy=spell,
        randomSeed=seed, useLog=False))
    kept.check(label)
    ctx.check(type(tl).__name__ == 'TrainedLearners' and tl.method == strat,
              'strategy:ignored',
              lambda: f'{label}: training gives a {type(tl).__name__}')
    got = rows(must(ctx, 'strategy:apply', label,
                    lambda: quiet(tl.apply, T, useLog=False)))
    # the same training with the labels beside the data
    base = quiet(nimble.train, name, nimble.data(p.x, useLog=False),
                 nimble.data(p.y, useLog=False), args,
                 multiClassStrategy=strat, randomSeed=seed, useLog=False)
    want = rows(quiet(base.apply, nimble.data(p.t, useLog=False),
                      useLog=False))
    ctx.event('routes')
    ctx.check(alike(got, want), 'strategy:label-form',
              lambda: f'{label}: predicts {got[:6]}, with the labels in an '
                      f'object {want[:6]}')
    votes = strategyVotes(nimble, name, strat, args, seed, p)
    for r, v in zip(got, votes):
        best = [k for k in v if v[k] == max(v.values())]
        if len(best) == 1:
            ctx.event('votes')
            ctx.check(model.same(r[0], best[0]), 'strategy:winner',
                      lambda: f'{label}: predicts {r[0]} where the separate '
                              f'learners vote {v}')
    both = rows(quiet(nimble.trainAndApply, name, X, Y, T, args,
                      multiClassStrategy=spell, randomSeed=seed,
                      useLog=False))
    ctx.check(alike(both, got), 'strategy:trainAndApply',
              lambda: f'{label}: trainAndApply gives {both[:6]}, apply '
                      f'{got[:6]}')
    func = performanceOf(rng, nimble, 'classification')
    TY = nimble.data(p.ty, useLog=False)
    want = performance(func, p.ty, got)
    one = quiet(tl.test, func, T, TY, useLog=False)
    two = quiet(nimble.trainAndTest, name, func, X, Y, T, TY, args,
                multiClassStrategy=spell, randomSeed=seed, useLog=False)
    ctx.event('performances', 2)
    ctx.check(abs(one - want) < 1e-9 and abs(two - want) < 1e-9,
              'strategy:performance',
              lambda: f'{label}: test {one}, trainAndTest {two}, the '
                      f'predictions give {want}')
    kept.check(label)
    one = must(ctx, 'strategy:scores', label, lambda: quiet(
        tl.apply, T, scoreMode='allScores', useLog=False))
    two = must(ctx, 'strategy:scores', label, lambda: quiet(tl.getScores, T))
    ctx.event('scores')
    ctx.check(rows(one) == rows(two) and len(one.features) ==
              len({r[0] for r in p.y}), 'strategy:scores',
              lambda: f'{label}: allScores {rows(one)[:3]}, getScores '
                      f'{rows(two)[:3]}')
    if rng.random() < .5:
        q = Problem(rng, 'classification', d=p.d, plain=True)
        X2, Y2 = q.make(nimble, rng, typ=typs[0])
        fresh = must(ctx, 'strategy:train', label, lambda: quiet(
            nimble.train, name, X2, Y2, args, multiClassStrategy=strat,
            randomSeed=seed, useLog=False))
        must(ctx, 'strategy:retrain', label, lambda: quiet(
            tl.retrain, X2, Y2, randomSeed=seed, useLog=False))
        ctx.event('retrained')
        one = rows(quiet(tl.apply, T, useLog=False))
        two = rows(quiet(fresh.apply, T, useLog=False))
        ctx.check(alike(one, two), 'strategy:retrain',
                  lambda: f'{label}: predicts {one[:6]} after retraining, '
                          f'trained freshly {two[:6]}')


def kindParameters(ctx):
    """The parameters and defaults reported are those of the package."""
    rng, nimble = ctx.rng, ctx.nimble
    goal = rng.choice([g for g in STATE['names']])
    name = rng.choice(STATE['names'][goal])
    est = estimator(nimble, 'sklearn.' + name)
    spell = spelled(rng, nimble, 'sklearn.' + name)
    ctx.log(f'parameters of {name}')
    ctx.state('parameters', name)
    own = est().get_params()
    params = must(ctx, 'parameters', name,
                  lambda: nimble.learnerParameters(spell))
    defaults = must(ctx, 'parameters', name,
                    lambda: nimble.learnerParameterDefaults(spell))
    own.pop('random_state', None)
    ctx.check(set(own) <= set(params), 'parameters:names',
              lambda: f'{name}: parameters {params} lack '
                      f'{set(own) - set(params)}')
    for k, v in own.items():
        if any(k in inspect.signature(getattr(est, m)).parameters
               for m in ('fit', 'transform', 'predict') if hasattr(est, m)):
            continue
        same = k in defaults and (
            defaults[k] is v or defaults[k] == v or
            (isNan(v) and isNan(defaults[k])) or
            type(defaults[k]) is type(v))
        ctx.check(same, 'parameters:defaults',
                  lambda: f'{name}: default of {k} is {defaults.get(k)!r}, '
                          f'the package uses {v!r}')
    spell = spell if isinstance(spell, str) else 'sklearn.' + name
    ctx.check(nimble.learnerType(spell) == goal, 'learnerType',
              lambda: f'{name}: {nimble.learnerType(spell)}, {goal} before')
    ctx.event('routes')


# -- objects of a package as arguments ---------------------------------------

def kindNested(ctx):
    """Arguments given by Init are the objects of the package."""
    rng, nimble = ctx.rng, ctx.nimble
    goal = rng.choice(['classification', 'classification', 'regression'])
    p = Problem(rng, goal)
    X, Y = p.make(nimble, rng)
    T = p.testX(nimble, rng)
    if goal == 'classification':
        bases = [('KNeighborsClassifier', {'n_neighbors': [1, 2, 3]}),
                 ('GaussianNB', {'var_smoothing': [1e-9, .1]}),
                 ('RidgeClassifier', {'alpha': [.1, 1, 5]}),
                 ('DecisionTreeClassifier', {'max_depth': [1, 2],
                                             'random_state': [0, 5]})]
        wrappers = [('OneVsRestClassifier', {}),
                    ('OneVsOneClassifier', {}),
                    ('BaggingClassifier', {'bootstrap': [False],
                                           'n_estimators': [2, 3]}),
                    ('CalibratedClassifierCV', {'cv': [2]}),
                    ('SelfTrainingClassifier', {}),
                    ('OutputCodeClassifier', {'code_size': [2]})]
        outer = 'estimator'
    else:
        bases = [('KNeighborsRegressor', {'n_neighbors': [1, 2, 3]}),
                 ('Ridge', {'alpha': [.1, 1, 5]}),
                 ('LinearRegression', {'fit_intercept': [True, False]}),
                 ('DecisionTreeRegressor', {'max_depth': [1, 2],
                                            'random_state': [0, 5]})]
        wrappers = [('BaggingRegressor', {'bootstrap': [False],
                                          'n_estimators': [2, 3]}),
                    ('TransformedTargetRegressor', {}),
                    ('AdaBoostRegressor', {'n_estimators': [2]}),
                    ('GaussianProcessRegressor', {'alpha': [.1, 1.]})]
        outer = 'estimator'
    names = {n for g in STATE['names'].values() for n in g}
    wrappers = [w for w in wrappers if w[0] in names]
    name, options = rng.choice(wrappers)
    args = {k: rng.choice(v) for k, v in options.items()}
    if name == 'TransformedTargetRegressor':
        outer = 'regressor'
    if name == 'GaussianProcessRegressor':
        outer = 'kernel'
        bases = [('RBF', {'length_scale': [.5, 1., 2.]}),
                 ('Matern', {'length_scale': [1., 2.], 'nu': [.5, 1.5]})]
        args['optimizer'] = None
    base, bo = rng.choice(bases)
    inner = {k: rng.choice(v) for k, v in bo.items() if rng.random() < .8}
    if base.startswith('DecisionTree'):
        inner['random_state'] = rng.choice([0, 5])

    def given():
        arg = nimble.Init(base, **inner)
        if deep:
            arg = nimble.Init(deep, **{'estimator': arg, 'bootstrap': False,
                                       'n_estimators': 2, 'random_state': 3})
        return arg
    deep = None
    if outer == 'estimator' and rng.random() < .3:
        deep = 'BaggingClassifier' if goal == 'classification' \
            else 'BaggingRegressor'
    seed = rng.randint(1, 9999)
    label = f'sklearn.{name} {args} with {outer}={given()}'
    ctx.log(label)
    ctx.state('nested', name, base, bool(deep), tuple(sorted(inner)))
    arg = given()
    text = repr(arg)
    kept = Kept(ctx, X=X, Y=asObject(Y))
    st, tl = call(ctx, lambda: quiet(
        nimble.train, 'sklearn.' + name, X, Y, {**args, outer: arg},
        randomSeed=seed, useLog=False))

    own = lambda o: estimator(nimble, 'sklearn.' + o)
    if outer == 'kernel':
        from sklearn.gaussian_process import kernels
        sub = getattr(kernels, base)(**inner)
    else:
        sub = own(base)(**inner)
    if deep:
        sub = own(deep)(estimator=sub, bootstrap=False, n_estimators=2,
                        random_state=3)
    refs = alternatives(nimble, 'sklearn.' + name, {**args, outer: sub}, seed,
                        p.x, p.y, p.t)
    answers = [a for a in refs if not isinstance(a, Exception)]
    if st == 'exc':
        ctx.check(len(answers) < len(refs), 'nested:raises', lambda: f'{label}: raised '
                  f'{type(tl).__name__}: {tl} (in {where(tl)}), the package '
                  'accepts it')
        raise Skip('the learner refuses the data')
    kept.check(label)
    ctx.check(repr(arg) == text, 'nested:changed', lambda: f'{label}: the '
              f'argument is now {arg!r}')
    st, pred = call(ctx, lambda: quiet(tl.apply, T, useLog=False))
    if st == 'exc':
        ctx.check(len(answers) < len(refs), 'nested:raises', lambda:
                  f'{label}: raised {type(pred).__name__}: {pred} (in '
                  f'{where(pred)}), the package accepts it')
        raise Skip('the learner refuses the data')
    got = rows(pred)
    ctx.check(not answers or any(alike(got, a) for a in answers),
              'nested:predictions', lambda: f'{label}: predicts {got[:6]}, '
              f'the package {answers[0][:6]}')
    ctx.event('nested_objects', bool(answers))
    again = must(ctx, 'nested:again', label, lambda: quiet(
        nimble.train, 'sklearn.' + name, X, Y, {**args, outer: arg},
        randomSeed=seed, useLog=False))
    got2 = rows(quiet(again.apply, T, useLog=False))
    ctx.check(alike(got, got2), 'nested:again', lambda: f'{label}: trained '
              f'again with the same argument predicts {got2[:6]}, first '
              f'{got[:6]}')


def kerasLayers(rng, nimble, outputs, act):
    """
    [(layer arguments for nimble, for the package with a seed)]
    """
    import keras
    kinds = {
        None: (lambda: {}, lambda s: keras.initializers.GlorotUniform(s)),
        'he_normal': (lambda: {'kernel_initializer': 'he_normal'},
                      lambda s: keras.initializers.HeNormal(s)),
        'ones': (lambda: {'kernel_initializer': 'ones'},
                 lambda s: keras.initializers.Ones()),
        'Init': (lambda: {'kernel_initializer': nimble.Init(
            'RandomUniform', minval=-.3, maxval=.2)},
            lambda s: keras.initializers.RandomUniform(-.3, .2, seed=s)),
        'InitFixed': (lambda: {'kernel_initializer': nimble.Init(
            'Constant', value=.25)},
            lambda s: keras.initializers.Constant(.25)),
        'object': (lambda: {'kernel_initializer':
                            keras.initializers.RandomNormal(seed=4)},
                   lambda s: keras.initializers.RandomNormal(seed=4))}
    made = []
    for units, a in ((rng.choice([2, 4, 5]), rng.choice(
            ['relu', 'tanh', 'linear'])), (outputs, act)):
        k = rng.choice([None, None] + list(kinds))
        made.append((units, a, k) + kinds[k])
    given = lambda: [nimble.Init('Dense', units=u, activation=a, **f())
                     for u, a, k, f, g in made]
    own = lambda s: [keras.layers.Dense(u, a, kernel_initializer=g(s))
                     for u, a, k, f, g in made]
    return given, own, tuple(m[2] for m in made)


def kindText(ctx):
    """Transformations of text and of a mixture of text and numbers."""
    rng, nimble = ctx.rng, ctx.nimble
    name = rng.choice(['FunctionTransformer', 'SimpleImputer',
                       'OrdinalEncoder', 'OneHotEncoder'])
    n, d = rng.randint(2, 6), rng.randint(1, 3)
    encoder = name.endswith('Encoder')
    words = ['a', 'b', 'c d', 'x1']
    cols = []
    for _ in range(d):
        kind = rng.choice(['text', 'number', 'first'])
        if kind == 'text' or encoder and kind == 'first':
            col = [rng.choice(words) for _ in range(n)]
        else:
            col = [rng.choice([0, 1, 2.5, 7]) for _ in range(n)]
            if kind == 'first':
                col[0] = rng.choice(words)
        cols.append(col)
    rows = [list(r) for r in zip(*cols)]
    args = {'SimpleImputer': {'strategy': 'most_frequent'},
            'OneHotEncoder': {'sparse_output': rng.random() < .5}
            }.get(name, {})
    rt = rng.choice(['List', 'Matrix', 'DataFrame'])
    import sklearn.impute
    import sklearn.preprocessing as sp
    cls = getattr(sp, name, None) or getattr(sklearn.impute, name)
    label = f'{name}({args}) on {rt} {rows}'
    ctx.log(label)

    def own():
        ret = quiet(cls(**args).fit_transform,
                    np.array(rows, dtype=object))
        return ret.toarray() if hasattr(ret, 'toarray') else ret
    try:
        exp = [list(r) for r in own()]
    except Exception as e:
        raise Skip('refused by the package') from e
    pn = [f'q{i}' for i in range(n)] if rng.random() < .5 else None
    x = nimble.data([list(r) for r in rows], pointNames=pn or False,
                    featureNames=False, returnType=rt, useLog=False)
    before = freeze(x)
    route = rng.choice(['train', 'trainAndApply', 'normalizeData'])
    if route == 'normalizeData':
        got = must(ctx, 'text', label, lambda: quiet(
            nimble.normalizeData, 'skl.' + name, x, useLog=False,
            arguments=dict(args)))
    elif route == 'train':
        tl = must(ctx, 'text', label, lambda: quiet(
            nimble.train, 'skl.' + name, x, useLog=False,
            arguments=dict(args)))
        got = must(ctx, 'text', label, lambda: quiet(
            tl.apply, x, useLog=False))
    else:
        got = must(ctx, 'text', label, lambda: quiet(
            nimble.trainAndApply, 'skl.' + name, x, testX=x, useLog=False,
            arguments=dict(args)))
    res = got.copy('pythonlist')
    ctx.check(len(res) == n and all(
        len(a) == len(b) and all(u == v and isinstance(u, str) is
                                 isinstance(v, str) for u, v in zip(a, b))
        for a, b in zip(res, exp)), 'text:values', lambda:
        f'{label} by {route} gave {res}, the package itself gives {exp}')
    if pn:
        ctx.check(got.points.getNames() == pn, 'text:names', lambda:
                  f'{label} by {route} has the point names '
                  f'{got.points.getNames()}, expected {pn}')
    ctx.check(frozenDiff(before, freeze(x)) is None, 'text:input', lambda:
              f'{label} by {route} changed its input')
    ctx.event('text_transformed')
    ctx.state('text', name, rt, route)


def kindKeras(ctx):
    """Neural networks: the package called directly, points one by one,
    scores and predictions, the same layers used again."""
    rng, nimble = ctx.rng, ctx.nimble
    try:
        nimble.learnerParameters('keras.Sequential')
        import keras
    except Exception as e:
        raise Skip('no keras') from e
    goal = rng.choice(['labels', 'labels', 'onehot', 'binary', 'logits',
                       'regression', 'many'])
    k = {'labels': rng.choice([2, 3, 3, 4]), 'onehot': rng.choice([2, 3]),
         'many': 2}.get(goal, 1)
    n, d = rng.randint(6, 16), rng.randint(1, 3)
    # sparse arrays without any value are refused by tensorflow
    xs = [[rng.choice([-2, -1, -.25, .25, .5, 1, 2])]
          + [rng.randint(-8, 8) / 4 for _ in range(d - 1)] for _ in range(n)]
    if goal == 'labels':
        present = rng.sample(range(k), rng.choice([k, k, max(1, k - 1)]))
        ys = [[rng.choice(present)] for _ in range(n)]
    elif goal == 'onehot':
        ys = [[float(j == c) for j in range(k)]
              for c in (rng.randrange(k) for _ in range(n))]
    elif goal in ('binary', 'logits'):
        ys = [[rng.randrange(2)] for _ in range(n)]
        ys[:2] = [[0], [1]]
    else:
        ys = [[rng.randint(-4, 4) / 2 for _ in range(k)] for _ in range(n)]
    act = {'labels': 'softmax', 'onehot': 'softmax',
           'binary': 'sigmoid'}.get(goal, 'linear')
    lossName, lossKw = {
        'labels': ('SparseCategoricalCrossentropy', {}),
        'onehot': ('CategoricalCrossentropy', {}),
        'binary': ('BinaryCrossentropy', {}),
        'logits': ('BinaryCrossentropy', {'from_logits': True})}.get(
            goal, ('MeanSquaredError', {}))
    lossText = {'SparseCategoricalCrossentropy':
                'sparse_categorical_crossentropy',
                'CategoricalCrossentropy': 'categorical_crossentropy',
                'BinaryCrossentropy': 'binary_crossentropy',
                'MeanSquaredError': 'mean_squared_error'}[lossName]
    asText = not lossKw and rng.random() < .5

    def loss():
        return lossText if asText else nimble.Init(lossName, **lossKw)
    given, own, inits = kerasLayers(rng, nimble, k, act)
    rate = rng.choice([.01, .1])
    epochs = rng.choice([1, 2])
    seed = rng.randint(1, 9999)
    types = ['List', 'Matrix', 'DataFrame', 'Sparse']
    typ = rng.choice(types)
    X = nimble.data(xs, returnType=typ, useLog=False)
    Y = nimble.data(ys, returnType=rng.choice(types), useLog=False)
    label = (f'keras.Sequential for {goal} ({n} points, {d} features, {k} '
             f'outputs, initializers {inits}, {typ})')
    ctx.log(label)
    ctx.state('keras', goal, k, inits, typ, asText)
    layers = given()
    optimizer = nimble.Init('SGD', learning_rate=rate)
    theLoss = loss()
    text = repr((layers, optimizer, theLoss))
    common = {'epochs': epochs, 'verbose': 0, 'shuffle': False,
              'batch_size': n}
    kept = Kept(ctx, X=X, Y=Y)

    def train(layers, s, x=X):
        return must(ctx, 'keras:train', label, lambda: quiet(
            nimble.train, 'keras.Sequential', x, Y, randomSeed=s,
            useLog=False, arguments={
                'layers': layers, 'optimizer': optimizer, 'loss': theLoss,
                **common}))
    tl = train(layers, seed)
    kept.check(label)
    ctx.check(repr((layers, optimizer, theLoss)) == text, 'keras:changed',
              lambda: f'{label}: the arguments {text} are now '
                      f'{(layers, optimizer, theLoss)!r}')
    m = rng.randint(1, 5)
    ts = [[rng.choice([-2, -1, -.25, .25, .5, 1, 2])]
          + [rng.randint(-8, 8) / 4 for _ in range(d - 1)] for _ in range(m)]
    T = nimble.data(ts, returnType=rng.choice(types),
                    pointNames=[f't{i}' for i in range(m)], useLog=False)
    # the package itself
    net = keras.Sequential(own(seed))
    net.compile(optimizer=keras.optimizers.SGD(rate),
                loss=getattr(keras.losses, lossName)(**lossKw))
    arr = np.array(ys, dtype=float)
    quiet(net.fit, np.array(xs, dtype=float),
          arr if k > 1 and goal in ('onehot', 'many') else arr[:, 0],
          **common)
    out = np.array(quiet(net.predict, np.array(ts, dtype=float), verbose=0))
    out = out.reshape(m, -1)
    # values at a decision boundary may fall on either side
    if goal in ('labels', 'onehot'):
        want = [[int(np.argmax(r))] for r in out]
        near = [len(r) > 1 and float(np.sort(r)[-1] - np.sort(r)[-2]) < 1e-4
                for r in out]
    elif goal in ('binary', 'logits'):
        cut = .5 if goal == 'binary' else 0
        want = [[int(r[0] >= cut)] for r in out]
        near = [abs(r[0] - cut) < 1e-4 for r in out]
    else:
        want = out.tolist()
        near = [False] * m
    args = {'verbose': 0}

    def apply(tl, x, **kw):
        return must(ctx, 'keras:apply', label, lambda: quiet(
            tl.apply, x, arguments=dict(args), useLog=False, **kw))

    def close(a, b):
        return len(a) == len(b) and all(
            nr or (len(p) == len(q) and all(abs(float(x) - float(y)) <= 1e-3
                                            for x, y in zip(p, q)))
            for p, q, nr in zip(a, b, near))
    got = rows(apply(tl, T))
    ctx.check(close(got, want), 'keras:predictions', lambda: f'{label}: '
              f'predicts {got} for {ts}, the package gives {out.tolist()}')
    ctx.event('keras_direct')
    each = [r for i in range(m) for r in rows(apply(
        tl, T.points.copy(i, useLog=False)))]
    ctx.check(close(each, want), 'keras:single', lambda: f'{label}: predicts '
              f'{each} for each point of {ts}, {got} together')
    if goal in ('labels', 'binary', 'logits') and (
            goal == 'labels' or m):
        labelsOf = range(k) if goal == 'labels' and k > 1 else (
            sorted({y[0] for y in ys}))
        scores = apply(tl, T, scoreMode='allScores')
        sc = rows(scores)
        best = rows(apply(tl, T, scoreMode='bestScore'))
        ctx.event('keras_scores')
        if k > 1 or goal != 'labels':
            ctx.check(all(len(r) == len(labelsOf) for r in sc),
                      'keras:scores', lambda: f'{label}: scores {sc} for the '
                      f'labels {list(labelsOf)}')
            for i, r in enumerate(sc):
                if near[i]:
                    continue
                top = list(labelsOf)[int(np.argmax(r))]
                ctx.check(top == best[i][0] == want[i][0],
                          'keras:scores', lambda: f'{label}: the scores {r} '
                          f'and best {best[i]} of a point predicted '
                          f'{want[i]}')
                ctx.check(abs(best[i][1] - max(r)) < 1e-6,
                          'keras:scores', lambda: f'{label}: best score '
                          f'{best[i]} of {r}')
    if goal not in ('onehot', 'many') and rng.random() < .6:
        perf = nimble.calculate.fractionIncorrect if goal in (
            'labels', 'binary', 'logits') else \
            nimble.calculate.rootMeanSquareError
        ty = [[rng.randrange(2)] if perf is nimble.calculate.fractionIncorrect
              else [rng.randint(-4, 4) / 2 for _ in range(k)]
              for _ in range(m)]
        res = must(ctx, 'keras:test', label, lambda: quiet(
            tl.test, perf, T, nimble.data(ty, useLog=False),
            arguments=dict(args), useLog=False))
        if perf is nimble.calculate.fractionIncorrect:
            exp = sum(float(g[0]) != y[0] for g, y in zip(got, ty)) / m
        else:
            exp = (sum((a - b) ** 2 for g, y in zip(got, ty)
                       for a, b in zip(g, y)) / (m * k)) ** .5
        ctx.check(abs(res - exp) < 1e-4, 'keras:test', lambda: f'{label}: '
                  f'performance {res} of {got} for {ty}')
    r = rng.random()
    if r < .4:
        # other training in between leaves no trace
        train(layers, seed + 1)
        tl2 = train(layers, seed)
        ctx.event('keras_again')
    elif r < .7:
        tl2 = train(given(), seed, X.copy(rng.choice(types)))
        ctx.event('keras_again')
    else:
        tl2 = tl
        must(ctx, 'keras:retrain', label, lambda: quiet(
            tl2.retrain, X, Y, randomSeed=seed, useLog=False))
        ctx.event('keras_again')
    got2 = rows(apply(tl2, T))
    ctx.check(close(got2, want), 'keras:again', lambda: f'{label}: trained '
              f'again predicts {got2} for {ts}, first {got}')


def counted(f):
    def wrapped(ctx):
        n = len(STATE['seen'])
        try:
            return f(ctx)
        finally:
            k = len(STATE['seen']) - n
            if k:
                ctx.event('learners_seen', k)
    wrapped.__name__ = f.__name__
    return wrapped


KINDS = [('routes', 10, counted(kindRoutes)), ('scores', 4, kindScores),
         ('retrain', 3, kindRetrain), ('incremental', 1, kindIncremental),
         ('normalize', 2, kindNormalize), ('refused', 3, kindRefused),
         ('strategy', 2, kindStrategy), ('parameters', 1, kindParameters),
         ('nested', 1.5, kindNested), ('text', .8, kindText), ('keras', .6, kindKeras)]
ASSUMPTIONS = ['scikit-learn itself is the reference for its learners; where '
               'it answers differently for dense, Fortran-ordered and sparse '
               'arrays of the same values any of its answers is accepted']
LEVEL = 'runtime monitor: differential oracle between routes and packages'
PROBES = {}
