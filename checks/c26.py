"""A trained learner changes only when it is trained."""
import copy
import os
import warnings

import numpy as np

from vlib import gen, model
from vlib.model import Table, NAN
from vlib.runner import where
from checks.common import call, freeze, frozenDiff, pickType
from checks.failing import Fault, describe

PROPERTY = 'C26'
RULE = ('a learner (of nimble, scikit-learn, the user; wrapped for several '
        'classes; with or without labels) is trained on data of a random type '
        'and then lives through a random history of uses, modifications of '
        'everything it was given or returned, trainings of other learners, '
        'failing calls, saves and retrains; its predictions, scores, '
        'arguments and attributes are pictured after every step; all objects '
        'given to learning functions are compared with their pictures; '
        'non-trivial: distinct (step, learner, outcome)')
QUICK = {'cases': 1200, 'seconds': 90}
THOROUGH = {'cases': 20000, 'seconds': 800}
CASE_SECONDS = 60

SHARED = {}


def setup(nimble):
    class Moody(nimble.CustomLearner):
        """Sums the features, fails when it is told to."""
        learnerType = 'regression'

        def train(self, trainX, trainY, scale=1.0, fail=''):
            # what it holds is complete only at the end
            self.w = None
            if fail == 'train':
                raise Fault('train')
            self.n = len(trainX.features)
            self.w = scale
            self.b = float(sum(trainY))

        def incrementalTrain(self, trainX, trainY, fail=''):
            if fail == 'incrementalTrain':
                raise Fault('incrementalTrain')
            self.b += float(sum(trainY))

        def apply(self, testX, fail=''):
            if fail == 'apply':
                raise Fault('apply')
            if len(testX.features) != self.n:
                raise Fault('features')
            return nimble.data([[sum(p) * self.w + self.b]
                                for p in testX.points], useLog=False)
    SHARED['Moody'] = Moody

    class Classy(nimble.CustomLearner):
        """Predicts the most frequent label, counts per label."""
        learnerType = 'classification'

        def train(self, trainX, trainY, fail=''):
            self.counts = {}
            if fail == 'train':
                raise Fault('train')
            self.incrementalTrain(trainX, trainY)

        def incrementalTrain(self, trainX, trainY, fail=''):
            if fail == 'incrementalTrain':
                raise Fault('incrementalTrain')
            for v in trainY:
                self.counts[v] = self.counts.get(v, 0) + 1

        def apply(self, testX, fail=''):
            if fail == 'apply':
                raise Fault('apply')
            best = max(self.counts, key=self.counts.get)
            return nimble.data([[best]] * len(testX.points), useLog=False,
                               pointNames=False, featureNames=False)

        def getScores(self, testX):
            return nimble.data([[self.counts.get(v, 0)
                                 for v in self.labelList]
                                for _ in range(len(testX.points))],
                               useLog=False, pointNames=False,
                               featureNames=False)
    SHARED['Classy'] = Classy


def learnTable(rng, n=None, text=False, labels='y'):
    n = n or rng.randint(6, 10)
    rows = [[rng.randint(-3, 3), rng.randint(0, 5) + .5, i % 3, i % 2]
            for i in range(n)]
    if text:
        rows[-1][rng.randrange(3)] = rng.choice(['text', NAN, None])
    t = Table(rows, None if rng.random() < .5 else
              [f'p{i}' for i in range(n)], ['a', 'b', 'c', labels], 4)
    t.kind = 'mixed' if text else 'int'
    return t


def holder(ctx, text=False):
    rng = ctx.rng
    t = learnTable(rng, text=text)
    return gen.build(ctx.nimble, t, pickType(rng, t), gen.anyRoute(rng), rng)


def badData(ctx, good):
    """something to train or test with that does not fit"""
    rng = ctx.rng
    r = rng.random()
    if r < .35:
        return holder(ctx, True)
    if r < .6:
        n = len(good.features)
        return good.features.copy(range(rng.randint(1, max(1, n - 1))),
                                  useLog=False)
    if r < .8:
        return good.points.copy(rng.randint(0, len(good.points) - 1),
                                useLog=False)
    return rng.choice([None, [[1, 2]], 'text', 5, np.ones((2, 3))])


def badLabels(ctx, good):
    rng = ctx.rng
    n = len(good.points)
    return rng.choice([
        'y', 'notThere', 99, -1, 'y', None, 'text', [0], ['y', 'a'],
        ctx.nimble.data([[i % 2] for i in range(n + 1)], useLog=False),
        ctx.nimble.data([['u' if i % 2 else NAN] for i in range(n)],
                        useLog=False),
        ctx.nimble.data([[i % 2, 1] for i in range(n)], useLog=False)])


NAMES = ['nimble.KNNClassifier', 'nimble.RidgeRegression', 'Moody', 'Moody',
         'skl.LinearRegression', 'skl.SGDClassifier', 'skl.KMeans']


def learnerArg(rng, name):
    r = rng.random()
    if r < .1:
        return rng.choice(['noLearner', 'nimble.noLearner', 5, None])
    return SHARED['Moody'] if name == 'Moody' else name


def badArguments(rng, name):
    if name == 'Moody':
        return rng.choice([{'fail': 'train'}, {'fail': 'apply'},
                           {'fail': 'incrementalTrain'}, {'notThere': 1},
                           {'scale': None}, {}])
    return rng.choice([{'notThere': 1}, {'k': 'x'}, {'lamb': None},
                       {'alpha': 'z'}, {'n_clusters': -4}, {}, {'k': 0},
                       {'max_iter': -5}])


def randomState(nimble):
    r = nimble.random
    n = r.numpyRandom.get_state()
    return (r.pythonRandom.getstate(), n[0], n[1].tobytes(), n[2:])


def watched(ctx, name, label, objs, func, extra=None):
    """Run func; if it raises everything in objs is what it was before."""
    before = [freeze(o) for o in objs]
    names = [None if not hasattr(o, 'points') else model.invariants(o)
             for o in objs]
    ctx.log(label)
    ctx.event('attempts')
    st, res = call(ctx, func)
    if st == 'ok':
        ctx.event('accepted')
    else:
        ctx.event('failed_calls')
        ctx.event('failed_learning')
        how = 'fault' if isinstance(res, Fault) else type(res).__name__
        ctx.state(name, how)
        label += f' raised {type(res).__name__}: {str(res)[:200]}'
    for o, b, bad in zip(objs, before, names):
        d = frozenDiff(b, freeze(o))
        ctx.check(d is None, f'{name}:data-changed', lambda: f'{label}: {d}')
        if hasattr(o, 'points') and bad is None:
            d = model.invariants(o)
            ctx.check(d is None, f'{name}:inconsistent',
                      lambda: f'{label}: {d}')
    return st, res


def kindLearn(ctx):
    """functions that learn from data: refused or not, the data stays"""
    rng, nimble = ctx.rng, ctx.nimble
    name = rng.choice(NAMES)
    obj = holder(ctx, rng.random() < .2)
    test = holder(ctx, rng.random() < .2)
    if rng.random() < .4:
        test = badData(ctx, obj)
    y = 'y' if rng.random() < .5 else badLabels(ctx, obj)
    ty = 'y' if rng.random() < .6 else badLabels(ctx, obj)
    args = badArguments(rng, name) if rng.random() < .6 else {}
    learner = learnerArg(rng, name)
    op = rng.choice(['train', 'trainAndApply', 'trainAndTest',
                     'trainAndTestOnTrainingData', 'normalizeData',
                     'crossValidate', 'fillUsingAllData', 'partition'])
    perf = rng.choice([nimble.calculate.fractionIncorrect,
                       nimble.calculate.rootMeanSquareError, 'bad', None,
                       lambda a, b: 1 / 0])
    multi = rng.choice(['default', 'default', 'OneVsAll', 'OneVsOne', 'bad'])
    objs = [obj, test, y, ty, args]

    def func():
        if op == 'train':
            return nimble.train(learner, obj, y, arguments=args,
                                multiClassStrategy=multi, useLog=False)
        if op == 'trainAndApply':
            return nimble.trainAndApply(learner, obj, y, test,
                                        arguments=args,
                                        multiClassStrategy=multi,
                                        useLog=False)
        if op == 'trainAndTest':
            return nimble.trainAndTest(learner, perf, obj, y, test, ty,
                                       arguments=args, useLog=False)
        if op == 'trainAndTestOnTrainingData':
            return nimble.trainAndTestOnTrainingData(
                learner, perf, obj, y, arguments=args, useLog=False)
        if op == 'normalizeData':
            return nimble.normalizeData(
                rng.choice(['skl.StandardScaler', 'skl.PCA', learner]), obj,
                y, test, arguments=args, useLog=False)
        if op == 'crossValidate':
            return nimble.Tune and nimble.train(
                learner, obj, y, arguments=args,
                performanceFunction=perf, tuning=nimble.Tuning(
                    validation='cross validation',
                    folds=rng.choice([2, 3, 99])), useLog=False)
        if op == 'fillUsingAllData':
            return obj.copy().points.fillMatching(
                nimble.fill.kNeighborsClassifier, nimble.match.missing,
                useLog=False, k=rng.choice([1, 99]))
        return obj.trainAndTestSets(testFraction=rng.choice([.5, 2, -1, 'a']),
                                    labels=y, useLog=False)
    label = f'{op}({describe(learner)}, {describe(obj)}, {describe(y)}, ' \
            f'{describe(test)}, {describe(ty)}, {args}, {multi})'
    watched(ctx, op, label, objs, func)



# -- the life of a trained learner --------------------------------------------

LIFE = [  # name, arguments, labels: 'class' | 'number' | None
    ('nimble.KNNClassifier', {'k': 3}, 'class'),
    ('nimble.RidgeRegression', {'lamb': 1}, 'number'),
    ('nimble.MultiOutputRidgeRegression', {'lamb': 1}, 'several'),
    ('Moody', {'scale': 2.0}, 'number'),
    ('Classy', {}, 'class'),
    ('skl.LinearRegression', {}, 'number'),
    ('skl.LogisticRegression', {'C': .5}, 'class'),
    ('skl.SGDClassifier', {'max_iter': 8}, 'class'),
    ('skl.RandomForestClassifier', {'n_estimators': 3}, 'class'),
    ('skl.DecisionTreeRegressor', {}, 'number'),
    ('skl.KNeighborsRegressor', {'n_neighbors': 2}, 'number'),
    ('skl.GaussianNB', {}, 'class'),
    ('skl.SVC', {'C': .5}, 'class'),
    ('skl.MLPRegressor', {'hidden_layer_sizes': [3, 2], 'max_iter': 5},
     'number'),
    ('skl.KMeans', {'n_clusters': 2}, None),
    ('skl.PCA', {'n_components': 2}, None),
    ('skl.StandardScaler', {}, None),
    ('skl.SimpleImputer', {}, None)]


def lifeData(rng, labels, n=None):
    n = n or rng.randint(7, 11)
    X = [[rng.randint(-3, 3), rng.randint(0, 5) + .5, i % 4]
         for i in range(n)]
    classes = rng.choice([[0, 1, 2], [0, 1], ['u', 'v', 'w'], [3, 1, 2]])
    if labels == 'class':
        Y = [[classes[i % len(classes)]] for i in range(n)]
    elif labels == 'several':
        Y = [[i * .5, rng.randint(0, 9)] for i in range(n)]
    else:
        Y = [[rng.randint(-4, 9) + .25] for _ in range(n)]
    fn = ['a', 'b', 'c'] if rng.random() < .6 else [None] * 3
    pn = [f'p{i}' for i in range(n)] if rng.random() < .3 else [None] * n
    X = Table(X, pn, fn, 3)
    yn = ['y'] if rng.random() < .5 else [None]
    if labels == 'several':
        yn = ['y', 'z'] if rng.random() < .5 else [None, None]
    Y = Table(Y, pn, yn, len(yn))
    X.kind = Y.kind = 'mixed'
    return X, Y


def scribbleOver(rng, obj):
    """the caller goes on working with an object that was given away"""
    for _ in range(rng.randint(1, 2)):
        n, m = obj.shape
        if not n or not m:
            return
        how = rng.randrange(7)
        if how == 0:
            obj[rng.randrange(n), rng.randrange(m)] = 77
        elif how == 1:
            obj.transformElements(lambda v: 55, useLog=False)
        elif how == 2:
            obj.points.delete(rng.randrange(n), useLog=False)
        elif how == 3:
            obj.points.permute(list(range(n))[::-1], useLog=False)
        elif how == 4:
            obj.features.setNames([f'new{j}' for j in range(m)],
                                  useLog=False)
        elif how == 5:
            obj.replaceRectangle(99, 0, 0, n - 1, m - 1, useLog=False)
        else:
            obj.transpose(useLog=False)


def quiet(f, *args, **kwargs):
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        return f(*args, **kwargs)


def attributes(tl):
    out = {}
    for k, v in tl.getAttributes().items():
        if isinstance(v, (list, tuple)) and not all(
                isinstance(e, (int, float, str, np.ndarray)) for e in v):
            continue
        if isinstance(v, np.ndarray) and v.dtype == object:
            continue
        if isinstance(v, (int, float, str, np.ndarray, list, tuple)):
            out[k] = v
    return out


class Life:
    def __init__(self, ctx):
        rng, nimble = ctx.rng, ctx.nimble
        self.ctx = ctx
        self.name, args, self.labels = rng.choice(LIFE)
        self.args = copy.deepcopy(args)
        self.strategy = None
        if self.labels == 'class' and rng.random() < .25:
            self.strategy = rng.choice(['OneVsAll', 'OneVsOne'])
        tx, ty = lifeData(rng, self.labels)
        dense = self.name in ('skl.PCA', 'skl.StandardScaler')
        self.X = gen.build(nimble, tx, rng.choice(
            ['List', 'Matrix', 'DataFrame'] if dense else gen.TYPES),
                           gen.anyRoute(rng, views=False), rng)
        self.Y = None
        if self.labels:
            self.Y = gen.build(nimble, ty, pickType(rng, ty),
                               gen.anyRoute(rng, views=False), rng)
        t, _ = lifeData(rng, self.labels, rng.randint(3, 6))
        if anyNames(tx.fn):
            t.fn = list(tx.fn)
        else:
            t.fn = [None] * 3
        self.T = gen.build(nimble, t, rng.choice(['List', 'Matrix', 'DataFrame']),
                           'direct', rng)
        self.learner = SHARED.get(self.name, self.name)
        self.seed = rng.randint(1, 99)
        self.held = []

    def train(self, X=None, Y=None, args=None, seed=None):
        return quiet(self.ctx.nimble.train, self.learner,
                     X if X is not None else self.X,
                     Y if Y is not None else self.Y,
                     arguments=args if args is not None else self.args,
                     multiClassStrategy=self.strategy,
                     randomSeed=seed or self.seed, useLog=False)

    def picture(self, tl, keep=True):
        out = quiet(tl.apply, self.T, useLog=False)
        pic = {'predictions': freeze(out),
               'arguments': freeze(getattr(tl, 'arguments', None)),
               'name': getattr(tl, 'learnerName', None),
               'type': getattr(tl, 'learnerType', None),
               'seed': getattr(tl, 'randomSeed', None)}
        if self.labels == 'class' and hasattr(tl, 'getScores'):
            try:
                sc = quiet(tl.getScores, self.T)
                pic['scores'] = freeze(sc)
                self.held.append(sc)
            except Exception as e:  # pylint: disable=broad-except
                pic['scores'] = type(e).__name__
        if self.strategy is None:
            for k, v in attributes(tl).items():
                pic['attribute ' + k] = freeze(v)
        if keep:
            self.held.append(out)
        return pic


def anyNames(nms):
    return any(n is not None for n in nms)


def differs(a, b):
    for k in a:
        if a[k] != b.get(k):
            return f'{k}: {str(b.get(k))[:300]}, before {str(a[k])[:300]}'
    return None


def kindLife(ctx):
    rng, nimble = ctx.rng, ctx.nimble
    life = Life(ctx)
    label = f'{life.name} {life.args} {life.strategy} trained on ' \
            f'{describe(life.X)} and {describe(life.Y)}'
    ctx.log(label)
    st, tl = call(ctx, life.train)
    if st == 'exc':
        if life.strategy is not None or life.labels == 'class':
            ctx.event('not_trained')
            ctx.state('untrained', life.name, type(tl).__name__)
            return
        ctx.violation(f'{life.name}:untrained', f'{label}: {tl!r} '
                      f'{where(tl)}')
    # what it was trained with, for new trainings
    safeX, safeY = life.X.copy(), life.Y.copy() if life.Y is not None else None
    safeArgs = copy.deepcopy(life.args)
    before = life.picture(tl)
    steps = []
    saved = None
    others = []
    for _ in range(rng.randint(3, 7)):
        step = rng.choice(['rewriteX', 'rewriteX', 'rewriteY', 'arguments',
                           'returned', 'other', 'other', 'tune', 'apply',
                           'test', 'fail', 'fail', 'fail', 'save', 'retrain',
                           'attributes'])
        expectSame = True
        if step == 'rewriteX':
            scribbleOver(rng, life.X)
        elif step == 'rewriteY':
            if life.Y is not None:
                scribbleOver(rng, life.Y)
        elif step == 'arguments':
            for k in list(life.args):
                life.args[k] = None
            life.args['surprise'] = 1
        elif step == 'returned':
            for o in life.held:
                if rng.random() < .7:
                    scribbleOver(rng, o)
            life.held.clear()
        elif step == 'other':
            x, y = lifeData(rng, life.labels)
            x = nimble.data(x.rows, useLog=False, pointNames=False,
                            featureNames=False)
            y = nimble.data(y.rows, useLog=False, pointNames=False,
                            featureNames=False) if life.labels else None
            st, res = call(ctx, lambda: life.train(
                x, y, copy.deepcopy(safeArgs), rng.randint(1, 99)))
            if st == 'ok':
                others.append((res, safePredict(life, res)))
        elif step == 'tune':
            st, res = call(ctx, lambda: tuned(ctx, life, safeX, safeY))
        elif step == 'apply':
            t, _ = lifeData(rng, life.labels)
            t = nimble.data(t.rows, useLog=False, pointNames=False,
                            featureNames=False,
                            returnType=rng.choice(gen.TYPES))
            st, res = call(ctx, lambda: quiet(tl.apply, t, useLog=False))
            if st == 'ok':
                scribbleOver(rng, res)
            scribbleOver(rng, t)
        elif step == 'test':
            if safeY is not None:
                call(ctx, lambda: quiet(
                    tl.test, nimble.calculate.fractionIncorrect
                    if life.labels == 'class' else
                    nimble.calculate.rootMeanSquareError, safeX, safeY,
                    useLog=False))
        elif step == 'attributes':
            if life.strategy is None:
                got = tl.getAttributes()
                got.clear()
                got['k'] = 9
        elif step == 'save':
            st, res = call(ctx, lambda: saveAndLoad(nimble, tl))
            ctx.check(st == 'ok', f'{life.name}:save',
                      lambda: f'{label}; after {steps} saving and loading: '
                      f'{res!r}')
            saved = res
            ctx.event('saved')
            d = differs(before, life.picture(saved))
            ctx.check(d is None, f'{life.name}:loaded-differs',
                      lambda: f'{label}; after {steps} the learner loaded '
                      f'from its file: {d}')
        elif step == 'retrain':
            expectSame = not retrain(ctx, life, label, steps, tl, saved,
                                     safeX, safeY, safeArgs)
        else:
            if fails(ctx, life, label, tl, safeX, safeY):
                return
        steps.append(step)
        ctx.event('steps')
        ctx.state(step, life.name, life.strategy)
        st, after = call(ctx, lambda: life.picture(tl))
        ctx.check(st == 'ok', f'{step}:unusable',
                  lambda: f'{label}; after {steps}: {after!r}')
        if expectSame:
            d = differs(before, after)
            ctx.check(d is None, f'{step}:changed', lambda: f'{label}; after '
                      f'{steps} its {d}')
        before = after
    for o, pic in others:
        ctx.check(pic is None or safePredict(life, o) == pic,
                  'other:changed', lambda: f'{label}; another learner of the '
                  f'kind predicts differently after {steps}')
        ctx.event('others_checked')


def safePredict(life, tl):
    try:
        return freeze(quiet(tl.apply, life.T.copy(to='Matrix').features.copy(
            [0, 1, 2], useLog=False), useLog=False))
    except Exception:  # pylint: disable=broad-except
        return None


def tuned(ctx, life, X, Y):
    nimble, rng = ctx.nimble, ctx.rng
    k, values = {'nimble.KNNClassifier': ('k', [1, 2]),
                 'nimble.RidgeRegression': ('lamb', [0, 2]),
                 'skl.SVC': ('C', [1, 2]),
                 'Moody': ('scale', [1.0, 3.0])}.get(life.name, (None, None))
    if k is None:
        return None
    f = nimble.calculate.fractionIncorrect if life.labels == 'class' else \
        nimble.calculate.rootMeanSquareError
    return quiet(nimble.train, life.learner, X, Y,
                 arguments={k: nimble.Tune(values)},
                 tuning=nimble.Tuning(validation='cross validation', folds=2,
                                      performanceFunction=f),
                 useLog=False)


def saveAndLoad(nimble, tl):
    path = os.path.join(os.environ['HOME'], f'life{os.getpid()}.pickle')
    try:
        tl.save(path)
        return nimble.loadTrainedLearner(path, useLog=False)
    finally:
        if os.path.exists(path):
            os.remove(path)


def retrain(ctx, life, label, steps, tl, saved, X, Y, args):
    """True if tl itself was trained again"""
    rng = ctx.rng
    if life.strategy is not None:
        return False
    target = saved if saved is not None and rng.random() < .6 else tl
    seed = rng.randint(1, 99)
    x, y = lifeData(rng, life.labels)
    if anyNames(X.features.getNames()):
        x.fn = X.features.getNames()
    x = gen.build(ctx.nimble, x, rng.choice(gen.TYPES), 'direct', rng)
    y = gen.build(ctx.nimble, y, pickType(rng, y), 'direct', rng) \
        if life.labels else None
    now = dict(tl.arguments or {}) if target is tl else \
        dict(target.arguments or {})
    st, res = call(ctx, lambda: quiet(
        target.retrain, x, y, arguments={}, randomSeed=seed, useLog=False))
    if st == 'exc':
        ctx.event('retrain_refused')
        return False
    ctx.event('retrained')
    fresh = quiet(ctx.nimble.train, life.learner, x, y, arguments=now,
                  randomSeed=seed, useLog=False)
    d = differs(life.picture(fresh), life.picture(target))
    ctx.check(d is None, f'{life.name}:retrain', lambda: f'{label}; after '
              f'{steps} retrained on {describe(x)}, {describe(y)}: {d} (in a '
              'new training)')
    return target is tl


def fails(ctx, life, label, tl, X, Y):
    """a call that should fail; True if it was a training after all"""
    rng, nimble = ctx.rng, ctx.nimble
    op = rng.choice(['apply', 'test', 'retrain', 'retrain', 'incremental',
                     'getScores', 'save', 'train'])
    n = len(X.points)
    bad = rng.choice([
        nimble.data([['t', 'u', 1, 2, 3]] * n, useLog=False, pointNames=False,
                    featureNames=False),
        nimble.data([['t', 'u', 1]] * n, useLog=False, pointNames=False,
                    featureNames=False),
        None, 'text', [[1, 2]]])
    mode = {'incremental': 'incrementalTrain', 'retrain': 'train',
            'apply': 'apply', 'test': 'apply'}.get(op, 'apply')
    args = {'fail': mode} if life.name in ('Moody', 'Classy') else \
        {'notThere': 1}
    useX = X.copy() if rng.random() < .6 else bad
    short = None
    if Y is not None:
        short = rng.choice([Y, Y.points.copy([0], useLog=False)])
    kw = {'arguments': args} if useX is not bad or rng.random() < .5 else {}
    objs = [o for o in (useX, short, X, Y) if o is not None]
    perf = rng.choice(['bad', None, lambda a, b: 1 / 0])

    def func():
        if op == 'apply':
            return quiet(tl.apply, useX, useLog=False, **kw)
        if op == 'test':
            return quiet(tl.test, perf, useX, short, useLog=False, **kw)
        if op == 'retrain':
            return quiet(tl.retrain, useX, short, useLog=False, **kw)
        if op == 'incremental':
            return quiet(tl.incrementalTrain, useX, short, useLog=False, **kw)
        if op == 'getScores':
            return quiet(tl.getScores, useX, **kw)
        if op == 'save':
            return tl.save('/nonexistent/folder/x.pickle')
        return quiet(nimble.train, life.learner, useX, short, useLog=False,
                     **kw)
    backup = None
    if op in ('retrain', 'incremental') and life.strategy is None:
        backup = dict(tl.__dict__)
        backup['_backend'] = copy.deepcopy(tl._backend)
    st, res = watched(ctx, 'life.' + op,
                      f'{label}; {op}({describe(useX)}, {describe(short)}, '
                      f'{kw})', objs, func)
    if st == 'ok' and op in ('retrain', 'incremental'):
        # a training after all
        ctx.event('trained_after_all')
        if backup is None:
            return True
        tl.__dict__.clear()
        tl.__dict__.update(backup)
    return False


KINDS = [('life', 5, kindLife), ('learn', 3, kindLearn)]
MIN = {'steps': 800, 'failed_learning': 300, 'retrained': 30,
       'others_checked': 60, 'saved': 30}
ASSUMPTIONS = ['predictions of a trained learner are reproducible']
