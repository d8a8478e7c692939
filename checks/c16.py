"""Randomness is reproducible, controlled and isolated."""
import os
import pickle
import random
import struct
import warnings

import numpy as np

from vlib import gen, model
from vlib.model import Table
from vlib.runner import where
from checks.common import call, must, freeze, frozenDiff, typesFor

PROPERTY = 'C16'
RULE = ('random operations (draws, generated data, shuffles, samples, splits, '
        'training, cross validation, tuning, scaling) run twice from the same '
        'seed with an arbitrary history of draws, other operations, failures '
        'and alternate sections in between, and once in a process that did '
        'nothing before; the state of both generators compared before and '
        'after every call with an explicit seed and every alternate section '
        '(nested, raising, abandoned); contents of shuffles, samples and '
        'generated data judged by a reference; non-trivial: distinct '
        '(operation, form, history length, type)')
QUICK = {'cases': 2000, 'seconds': 70}
THOROUGH = {'cases': 40000, 'seconds': 800}
MIN = {'repeated': 315, 'fresh_process': 67, 'history_steps': 675,
       'explicit_seeds': 225, 'alternate': 135, 'alternate_raised': 27,
       'setSeed_refused': 45, 'generated': 180, 'samples': 135,
       'learner_runs': 90, 'bad_seeds': 36, 'all_orders_seen': 3}
CASE_SECONDS = 60


# -- states ------------------------------------------------------------------

def state(nimble):
    r = nimble.random
    n = r.numpyRandom.get_state()
    return (r.pythonRandom.getstate(), n[0], n[1].tobytes(), n[2:])


def digest(x):
    """A picture of a result without anything that is not content."""
    if hasattr(x, 'points') and hasattr(x, 'getTypeString'):
        return ('nimble', x.getTypeString(), tuple(x.dimensions),
                freeze(model.rawRows(x)), tuple(x.points.getNames()),
                tuple(x.features.getNames()))
    if isinstance(x, (list, tuple)):
        return tuple(digest(v) for v in x)
    if isinstance(x, dict):
        return tuple((digest(k), digest(v)) for k, v in x.items())
    return freeze(x)


def quiet(f, *args, **kwargs):
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        return f(*args, **kwargs)


# -- learners ----------------------------------------------------------------

LEARNERS = {}


def setup(nimble):
    class Noisy(nimble.CustomLearner):
        """Remembers numbers it drew while training."""
        learnerType = 'regression'

        def train(self, trainX, trainY, scale=1.0):
            self.w = [nimble.random.numpyRandom.rand() * scale
                      for _ in range(len(trainX.features))]
            self.b = nimble.random.pythonRandom.random()

        def incrementalTrain(self, trainX, trainY):
            self.b += nimble.random.pythonRandom.random()
            self.w[0] += float(nimble.random.numpyRandom.normal())

        def apply(self, testX):
            rows = model.rawRows(testX)
            return nimble.data([[sum(a * b for a, b in zip(self.w, r)) +
                                 self.b] for r in rows], useLog=False)

    class Guess(nimble.CustomLearner):
        """Predicts labels drawn while training."""
        learnerType = 'classification'

        def train(self, trainX, trainY, k=1):
            labels = sorted({r[0] for r in model.rawRows(trainY)})
            self.k = k
            self.table = [nimble.random.pythonRandom.choice(labels)
                          for _ in range(7)]
            nimble.random.numpyRandom.shuffle(self.table)

        def apply(self, testX):
            return nimble.data([[self.table[int(abs(sum(r)) * self.k) % 7]]
                                for r in model.rawRows(testX)], useLog=False)
    LEARNERS.update(Noisy=Noisy, Guess=Guess)


def dataset(rng, n=None):
    n = n or rng.randint(12, 20)
    x = [[rng.randint(-4, 9) + rng.choice([0, .5, .25]) for _ in range(3)]
         for _ in range(n)]
    y = [[rng.choice([0, 1, 2])] for _ in range(n)]
    for i in range(3):
        y[i] = [i]
        y[i + 3] = [i]
    return x, y


PACKAGE = [('sklearn.RandomForestClassifier', {'n_estimators': 3}, 'c'),
           ('sklearn.SGDClassifier', {'max_iter': 5, 'tol': None}, 'c'),
           ('sklearn.RandomForestRegressor', {'n_estimators': 2}, 'r'),
           ('sklearn.ExtraTreeClassifier', {}, 'c'),
           ('sklearn.DecisionTreeClassifier', {'splitter': 'random'}, 'c'),
           ('sklearn.SGDRegressor', {'max_iter': 5, 'tol': None}, 'r'),
           ('sklearn.MLPRegressor', {'max_iter': 2}, 'r'),
           ('sklearn.KMeans', {'n_clusters': 3, 'n_init': 1}, 'u')]


def pickLearner(rng):
    r = rng.random()
    if r < .3:
        return 'Noisy', {}, 'r'
    if r < .55:
        return 'Guess', {}, 'c'
    return rng.choice(PACKAGE)


# -- operations --------------------------------------------------------------
# each maker draws its parameters from rng and returns (name, run(nimble,
# randomSeed)); run builds everything it uses

def opDraw(rng):
    how = rng.choice(['py', 'np', 'seed', 'gauss'])
    n = rng.randint(1, 5)

    def run(nimble, seed):
        r = nimble.random
        if how == 'py':
            return [r.pythonRandom.random() for _ in range(n)]
        if how == 'np':
            return r.numpyRandom.rand(n).tolist()
        if how == 'gauss':
            # an odd number leaves a cached value in both generators
            return [r.pythonRandom.gauss(0, 1), r.numpyRandom.randn()]
        return [r.generateSubsidiarySeed() for _ in range(n)]
    return 'draw-' + how, run, False


def opData(rng):
    args = [rng.randint(1, 7), rng.randint(1, 7),
            rng.choice([0, 0, .1, .5, .9, .99,
                        min(round(rng.random(), 3), .999)])]
    kw = dict(elementType=rng.choice(['int', 'float']),
              returnType=rng.choice(gen.TYPES + [None]))

    def run(nimble, seed):
        return nimble.random.data(*args, randomSeed=seed, **kw)
    return 'data', run, True


def opShuffle(rng):
    t = gen.table(rng, 'int', minP=1, minF=1)
    typ, axis = rng.choice(gen.TYPES), rng.choice(['points', 'features'])

    def run(nimble, seed):
        obj = gen.build(nimble, t, typ, 'direct', random.Random(0))
        getattr(obj, axis).permute(useLog=False)
        return obj
    return 'permute', run, False


def opSample(rng):
    t = gen.table(rng, 'int', minP=2, minF=2)
    typ, axis = rng.choice(gen.TYPES), rng.choice(['points', 'features'])
    what = rng.choice(['copy', 'extract', 'delete', 'retain'])
    n = t.np if axis == 'points' else t.nf
    k = rng.randint(1, n)

    def run(nimble, seed):
        obj = gen.build(nimble, t, typ, 'direct', random.Random(0))
        ret = getattr(getattr(obj, axis), what)(number=k, randomize=True)
        return [obj] if ret is None else [obj, ret]
    return 'sample-' + what, run, False


def opSplit(rng):
    t = gen.table(rng, 'int', minP=2, minF=2)
    typ = rng.choice(gen.TYPES)
    frac = rng.random()
    labels = rng.choice([None, 0])

    def run(nimble, seed):
        obj = gen.build(nimble, t, typ, 'direct', random.Random(0))
        return obj.trainAndTestSets(frac, labels=labels, useLog=False)
    return 'split', run, False


def _xy(nimble, data, typ):
    return (nimble.data(data[0], returnType=typ, useLog=False),
            nimble.data(data[1], returnType=typ, useLog=False))


def opLearn(rng):
    data = dataset(rng)
    name, args, kind = pickLearner(rng)
    typ = rng.choice(gen.TYPES)
    how = rng.choice(['train', 'trainAndApply', 'trainAndTest', 'retrain',
                      'incremental', 'onTraining', 'cross'])
    if name not in ('Noisy', ) and how == 'incremental' or \
            kind == 'u' and how not in ('train', 'trainAndApply'):
        how = 'trainAndApply'
    folds = rng.randint(2, 4)

    def run(nimble, seed):
        x, y = _xy(nimble, data, typ)
        learner = LEARNERS.get(name, name)
        kw = dict(randomSeed=seed, useLog=False, arguments=dict(args))
        perf = nimble.calculate.fractionIncorrect if kind == 'c' \
            else nimble.calculate.rootMeanSquareError
        if kind == 'u':
            y = None
        if how == 'trainAndApply':
            return nimble.trainAndApply(learner, x, y, x, **kw)
        if how == 'trainAndTest':
            return nimble.trainAndTest(learner, perf, x, y, x, y, **kw)
        if how == 'onTraining':
            return nimble.trainAndTestOnTrainingData(learner, perf, x, y, **kw)
        if how == 'cross':
            return nimble.trainAndTestOnTrainingData(
                learner, perf, x, y, crossValidationFolds=folds, **kw)
        if how in ('retrain', 'incremental'):
            tl = nimble.train(learner, x, y, arguments=dict(args),
                              randomSeed=1, useLog=False)
            if how == 'retrain':
                tl.retrain(x, y, randomSeed=seed, useLog=False)
            else:
                tl.incrementalTrain(x, y, randomSeed=seed, useLog=False)
            return tl.apply(x, useLog=False)
        tl = nimble.train(learner, x, y, **kw)
        return [tl.apply(x, useLog=False)]
    return f'learn-{how}-{name}', run, True


def opMulti(rng):
    data = dataset(rng)
    name = rng.choice(['Guess', 'sklearn.SGDClassifier',
                       'sklearn.ExtraTreeClassifier'])
    how = rng.choice(['OneVsOne', 'OneVsAll', 'scores'])
    if how != 'OneVsOne' and name == 'Guess':
        how = 'OneVsOne'

    def run(nimble, seed):
        x, y = _xy(nimble, data, 'Matrix')
        learner = LEARNERS.get(name, name)
        kw = dict(randomSeed=seed, useLog=False)
        if how == 'scores':
            return nimble.trainAndApply(learner, x, y, x,
                                        scoreMode='allScores', **kw)
        return nimble.trainAndApply(learner, x, y, x, multiClassStrategy=how,
                                    **kw)
    return f'multi-{how}-{name}', run, True


def opTune(rng):
    data = dataset(rng, 15)
    sel = rng.choice(['consecutive', 'brute force', 'bayesian', 'iterative',
                      'storm'])
    val = rng.choice(['cross validation', 'leave one out', 'proportion'])
    if sel in ('bayesian', 'iterative', 'storm'):
        val = 'data'
    learner = rng.choice(['nimble.KNNClassifier', 'Guess'])
    folds = rng.randint(2, 5)

    def run(nimble, seed):
        x, y = _xy(nimble, data, 'Matrix')
        perf = nimble.calculate.fractionIncorrect
        kw = {'folds': folds} if val == 'cross validation' else {}
        if val == 'data':
            kw = {'validateX': x.points.copy([0, 3, 5, 7]),
                  'validateY': y.points.copy([0, 3, 5, 7]),
                  'maxIterations': 4}
        if val == 'proportion':
            kw = {'proportion': .3}
        tl = nimble.train(LEARNERS.get(learner, learner), x, y,
                          k=nimble.Tune([1, 2, 3, 4]), randomSeed=seed,
                          tuning=nimble.Tuning(sel, val, perf, **kw),
                          useLog=False)
        t = tl.tuning
        return [t.bestArguments, t.bestResult, t.allArguments, t.allResults,
                tl.apply(x, useLog=False)]
    return f'tune-{sel}-{val}', run, True


def opScale(rng):
    data = dataset(rng)
    name, args = rng.choice([
        ('sklearn.PCA', {'n_components': 2, 'svd_solver': 'randomized'}),
        ('sklearn.QuantileTransformer', {'n_quantiles': 4, 'subsample': 8}),
        ('sklearn.GaussianRandomProjection', {'n_components': 2})])

    def run(nimble, seed):
        x, _ = _xy(nimble, data, 'Matrix')
        return nimble.normalizeData(name, x, arguments=dict(args),
                                    randomSeed=seed, useLog=False)
    return f'normalizeData-{name}', run, True


def opFill(rng):
    data = dataset(rng)
    gaps = sorted({(rng.randrange(1, 5), j) for j in range(2)})
    strategy = rng.choice(['random', 'norm', 'stochastic'])
    typ = rng.choice(gen.TYPES)
    viaTrain = rng.random() < .5

    def run(nimble, seed):
        x, _ = _xy(nimble, data, typ)
        for i, j in gaps:
            x.replaceRectangle(nimble.data([[float('nan')]], useLog=False),
                               i, j, useLog=False)
        if viaTrain:
            return nimble.trainAndApply(
                'autoimpute.SingleImputer', x, strategy=strategy,
                randomSeed=seed, useLog=False)
        nimble.fillMatching('autoimpute.SingleImputer', nimble.match.missing,
                            x, strategy=strategy, useLog=False)
        return x
    return f'fillMatching-{strategy}', run, viaTrain


OPS = [(opDraw, 5), (opData, 6), (opShuffle, 3), (opSample, 3), (opSplit, 2),
       (opLearn, 5), (opMulti, 1), (opTune, 1), (opScale, 1),
       (opFill, .7)]
CHEAP = [(opDraw, 5), (opData, 3), (opShuffle, 2), (opSample, 2),
         (opSplit, 1), (opLearn, .4)]


def pickOp(rng, ops=OPS, explicit=False):
    while True:
        f = rng.choices([o for o, _ in ops], [w for _, w in ops])[0]
        name, run, seedable = f(rng)
        if seedable or not explicit:
            return name, run, seedable


def pickSeed(rng):
    return rng.choice([0, 1, 42, 2 ** 32 - 1, rng.randrange(2 ** 32),
                       rng.randrange(1000)])


# -- a process that did nothing before ---------------------------------------

ZYGOTE = {}


def workerSetup(nimble, work):
    """Fork a child that never runs any operation itself: it forks again for
    every request and so answers from an untouched library."""
    toR, toW = os.pipe()
    backR, backW = os.pipe()
    pid = os.fork()
    if pid:
        os.close(toR)
        os.close(backW)
        ZYGOTE.update(w=toW, r=backR)
        return
    try:
        os.close(toW)
        os.close(backR)
        import ctypes
        import signal
        signal.setitimer(signal.ITIMER_REAL, 0)
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)
        while True:
            head = readAll(toR, 4)
            if head is None:
                break
            req = pickle.loads(readAll(toR, struct.unpack('<I', head)[0]))
            child = os.fork()
            if child == 0:
                send(backW, answer(nimble, req))
                os._exit(0)
            _, status = os.waitpid(child, 0)
            if status:
                send(backW, ('died', status))
    finally:
        os._exit(0)


def readAll(fd, n):
    out = b''
    while len(out) < n:
        part = os.read(fd, n - len(out))
        if not part:
            return None
        out += part
    return out


def send(fd, obj):
    raw = pickle.dumps(obj)
    raw = struct.pack('<I', len(raw)) + raw
    while raw:
        raw = raw[os.write(fd, raw):]


def answer(nimble, req):
    opSeed, seed, explicit = req
    _, run, _ = pickOp(random.Random(opSeed), OPS, explicit)
    try:
        if explicit:
            res = quiet(run, nimble, seed)
        else:
            nimble.random.setSeed(seed, useLog=False)
            res = quiet(run, nimble, None)
        return ('ok', digest(res))
    except Exception as e:  # pylint: disable=broad-except
        return ('exc', type(e).__name__)


def inFreshProcess(opSeed, seed, explicit):
    send(ZYGOTE['w'], (opSeed, seed, explicit))
    head = readAll(ZYGOTE['r'], 4)
    return pickle.loads(readAll(ZYGOTE['r'], struct.unpack('<I', head)[0]))


# -- histories ---------------------------------------------------------------

class Boom(Exception):
    pass


def alternate(ctx, depth=0):
    """One alternate section with arbitrary contents; returns how it ended."""
    rng, nimble = ctx.rng, ctx.nimble
    R = nimble.random
    seed = rng.choice([None, pickSeed(rng), pickSeed(rng)])
    end = rng.choice(['normal', 'normal', 'raise', 'bad-op', 'abandon'])
    before = state(nimble)
    settable = R.setSeed._settable
    drew = []

    def body():
        for _ in range(rng.randint(0, 3)):
            k = rng.random()
            if k < .25 and depth < 3:
                alternate(ctx, depth + 1)
            elif k < .45:
                ctx.event('setSeed_refused')
                mid = state(nimble)
                try:
                    R.setSeed(rng.randrange(99), useLog=False)
                except RuntimeError:
                    pass
                else:
                    ctx.violation('alternate:setSeed-accepted', 'setSeed '
                                  'works within an alternate section')
                ctx.check(state(nimble) == mid, 'alternate:refused-setSeed',
                          'a refused setSeed changed the random state')
            else:
                _, run, _ = pickOp(rng, CHEAP)
                drew.append(digest(quiet(run, nimble, None)))
    try:
        if end == 'abandon':
            def section():
                with R.alternateControl(seed, useLog=False):
                    body()
                    yield 1
                    body()
            g = section()
            next(g)
            if rng.random() < .5:
                g.close()
            else:
                del g
        else:
            with R.alternateControl(seed, useLog=False):
                if seed is not None:
                    first = R.pythonRandom.random(), R.numpyRandom.rand()
                    ctx.check(first == (random.Random(seed).random(),
                                        np.random.RandomState(seed).rand()),
                              'alternate:seeded', lambda: 'an alternate '
                              f'section with seed {seed} draws {first} first')
                body()
                if end == 'raise':
                    raise Boom()
                if end == 'bad-op':
                    R.data(0, 3, 0)
    except Boom:
        ctx.event('alternate_raised')
    except nimble.exceptions.InvalidArgumentValue:
        ctx.check(end == 'bad-op', 'alternate:refused', 'an alternate section '
                  f'ending with {end} was refused')
        ctx.event('alternate_raised')
    ctx.event('alternate')
    ctx.check(state(nimble) == before, f'alternate:state:{end}', lambda:
              f'an alternate section (seed {seed}, end {end}, depth {depth}) '
              'left a different random state')
    ctx.check(R.setSeed._settable == settable, f'alternate:settable:{end}',
              'setSeed is allowed within, or refused after, an alternate '
              'section')
    return end


def history(ctx, steps):
    """Arbitrary things that happen between two uses of a seed."""
    rng, nimble = ctx.rng, ctx.nimble
    done = []
    for _ in range(steps):
        ctx.event('history_steps')
        k = rng.random()
        if k < .45:
            name, run, seedable = pickOp(rng, CHEAP)
            quiet(run, nimble, pickSeed(rng) if seedable and rng.random() < .4
                  else None)
            done.append(name)
        elif k < .6:
            alternate(ctx)
            done.append('alternate')
        elif k < .75:
            np.random.seed(rng.randrange(2 ** 32))
            random.seed(rng.randrange(2 ** 32))
            done.append('scramble')
        elif k < .9:
            nimble.random.setSeed(rng.choice([pickSeed(rng), None]),
                                  useLog=False)
            done.append('setSeed')
        else:
            for bad in (lambda: nimble.random.data(3, 3, 1),
                        lambda: nimble.random.data(3, 3, 0, randomSeed=-1),
                        lambda: nimble.random.setSeed(-5),
                        lambda: nimble.random.setSeed('seed', useLog=False)):
                try:
                    bad()
                except Exception:  # pylint: disable=broad-except
                    pass
            done.append('refused')
    return done


# -- cases -------------------------------------------------------------------

def repeatCase(ctx):
    rng, nimble = ctx.rng, ctx.nimble
    opSeed = rng.randrange(2 ** 40)
    explicit = rng.random() < .4
    name, run, _ = pickOp(random.Random(opSeed), OPS, explicit)
    seed = pickSeed(rng)
    key = f'repeat:{"explicit" if explicit else "global"}:' + \
        name.split('sklearn')[0]
    label = f'{name} with {"randomSeed=" if explicit else "seed "}{seed}'
    steps = [rng.choice([0, 1, 2, 5]), rng.choice([1, 2, 4])]
    results, states, done = [], [], []

    def once():
        if explicit:
            before = state(nimble)
            res = must(ctx, key, label, lambda: quiet(run, nimble, seed))
            ctx.event('explicit_seeds')
            ctx.check(state(nimble) == before, key + ':main-state', lambda:
                      f'{label} changed the state of the main generator')
        else:
            nimble.random.setSeed(seed, useLog=False)
            res = must(ctx, key, label, lambda: quiet(run, nimble, None))
            states.append(state(nimble))
        results.append(digest(res))
    for n in steps:
        done.append(history(ctx, n))
        once()
    if 'learn' in name or 'multi' in name or 'tune' in name:
        ctx.event('learner_runs', 2)
    ctx.event('repeated')
    ctx.state(name, explicit, tuple(steps), results[0][:2])
    for h in done:
        ctx.log(repr(h))
    ctx.check(results[0] == results[1], key, lambda: f'{label} gives '
              f'{results[0]} and then {results[1]} after {done[1]}')
    if states:
        ctx.check(states[0] == states[1], key + ':end-state', lambda:
                  f'{label} ends in different random states')
    if rng.random() < .4:
        res = inFreshProcess(opSeed, seed, explicit)
        ctx.event('fresh_process')
        ctx.check(res == ('ok', results[0]), key + ':fresh', lambda: f'{label} '
                  f'gives {results[0]} here, {res} in a process that did '
                  'nothing before')


def alternateCase(ctx):
    nimble, rng = ctx.nimble, ctx.rng
    nimble.random.setSeed(pickSeed(rng), useLog=False)
    quiet(pickOp(rng, CHEAP)[1], nimble, None)
    twinP, twinN = random.Random(), np.random.RandomState()
    twinP.setstate(nimble.random.pythonRandom.getstate())
    twinN.set_state(nimble.random.numpyRandom.get_state())
    for _ in range(rng.randint(1, 3)):
        end = alternate(ctx)
        ctx.state('alternate', end)
        ctx.check((nimble.random.pythonRandom.random(),
                   nimble.random.numpyRandom.randn()) ==
                  (twinP.random(), twinN.randn()), 'alternate:next-draw',
                  lambda: 'the next draw after an alternate section differs')
    nimble.random.setSeed(5, useLog=False)


def dataCase(ctx):
    nimble, rng = ctx.nimble, ctx.rng
    P, F = rng.randint(1, 12), rng.randint(1, 12)
    if rng.random() < .05:
        P, F = rng.randint(40, 60), rng.randint(30, 50)
    sp = rng.choice([0, 0, .01, .1, .5, .9, .99,
                     min(round(rng.random(), 3), .999)])
    elem = rng.choice(['int', 'float'])
    typ = rng.choice(gen.TYPES + [None])
    pn = gen.nameList(rng, P, 'p', rng.choice(['all', 'none', 'some']))
    fn = gen.nameList(rng, F, 'f', rng.choice(['all', 'none', 'some']))
    kw = {}
    if rng.random() < .6:
        kw['pointNames'] = pn
    else:
        pn = [None] * P
    if rng.random() < .6:
        kw['featureNames'] = fn
    else:
        fn = [None] * F
    seed = pickSeed(rng)
    label = f'random.data({P}, {F}, {sp}, {elem}, {typ}, seed {seed})'
    key = f'data:{elem}'
    ctx.state('data', P, F, sp, elem, typ)
    before = state(nimble)
    obj = must(ctx, key, label, lambda: nimble.random.data(
        P, F, sp, elementType=elem, returnType=typ, randomSeed=seed,
        name='nm', useLog=False, **kw))
    ctx.check(state(nimble) == before, key + ':main-state', f'{label} changed '
              'the state of the main generator')
    ctx.event('generated')
    rows = model.rawRows(obj)
    d = model.diff(obj, Table(rows, pn, fn, F))
    ctx.check(tuple(obj.shape) == (P, F) and d is None and obj.name == 'nm',
              key + ':shape', lambda: f'{label}: shape {obj.shape}, {d}')
    p = model.invariants(obj)
    ctx.check(p is None, key + ':structure', lambda: f'{label}: {p}')
    ctx.check(typ in (None, obj.getTypeString()), key + ':type', lambda:
              f'{label} is a {obj.getTypeString()}')
    flat = [v for r in rows for v in r]
    nz = [v for v in flat if v != 0]
    want = len(flat) * (1 - sp)
    ctx.check(abs(len(nz) - want) < 1 + 1e-9, key + ':sparsity', lambda:
              f'{label} has {len(nz)} non-zero values of {len(flat)}')
    if elem == 'int':
        ctx.check(all(v == int(v) and 1 <= v <= 100 for v in nz),
                  key + ':values', lambda: f'{label} holds {sorted(nz)}')
    else:
        ctx.check(all(np.isfinite(v) and abs(v) < 9 for v in nz),
                  key + ':values', lambda: f'{label} holds {sorted(nz)}')
    if len(nz) > 900:
        m = sum(nz) / len(nz)
        s = (sum((v - m) ** 2 for v in nz) / len(nz)) ** .5
        em, es = (0, 1) if elem == 'float' else (50, 28.7)
        ctx.check(abs(m - em) < 7 * es / len(nz) ** .5 + (elem == 'int') and
                  abs(s - es) < .15 * es, key + ':distribution', lambda:
                  f'{label} has mean {m}, deviation {s}')
        ctx.event('distributions')
    other = rng.choice(gen.TYPES)
    again = nimble.random.data(P, F, sp, elementType=elem, returnType=other,
                               randomSeed=seed, useLog=False)
    ctx.check(freeze(model.rawRows(again)) == freeze(rows) or
              model.sameRows(model.rawRows(again), rows), key + ':types',
              lambda: f'{label}: {other} holds different values')


def sampleCase(ctx):
    nimble, rng = ctx.nimble, ctx.rng
    t = gen.table(rng, rng.choice(['int', 'mixedcols', 'nan', 'intsparse']),
                  minP=1, minF=1)
    typ = rng.choice(typesFor(t))
    route = gen.anyRoute(rng)
    obj = gen.build(nimble, t, typ, route, rng)
    axis = rng.choice(['points', 'features'])
    n = t.np if axis == 'points' else t.nf
    what = rng.choice(['permute', 'copy', 'copy', 'extract', 'delete',
                       'retain', 'filter', 'range', 'too-many'])
    if route == 'view' and what in ('permute', 'extract', 'delete', 'retain'):
        what = 'copy'
    ax = getattr(obj, axis)
    label = f'{typ} ({route}) {axis} {what}'
    key = f'sample:{what}:{axis}'
    ctx.state('sample', what, axis, typ, route, t.np, t.nf)
    ctx.event('samples')

    def taken(got, allowed, count, used=()):
        """got must be `count` different vectors of the allowed ones that
        are not used yet; returns what is used then."""
        cands = {i: t.take([i], range(t.nf)) if axis == 'points' else
                 t.take(range(t.np), [i]) for i in allowed}
        m = len(got.points) if axis == 'points' else len(got.features)
        ctx.check(m == count, key + ':count', lambda: f'{label} took {m} of '
                  f'{n}, expected {count}', table=t)
        p = model.invariants(got)
        ctx.check(p is None, key + ':structure', lambda: f'{label}: {p}')
        # greedy match on full vectors: contents with names
        pool = {}
        for i in allowed:
            pool.setdefault(vec(cands[i], axis), []).append(i)
        for one in used:
            pool[one].pop()
        used = list(used)
        for k in range(m):
            rows = model.rawRows(got)
            if axis == 'points':
                one = names(got.points)[k], tuple(map(model.key, rows[k]))
            else:
                one = (names(got.features)[k],
                       tuple(model.key(r[k]) for r in rows))
            free = pool.get(one)
            ctx.check(bool(free), key + ':content', lambda: f'{label}: vector '
                      f'{k} {one} is no (unused) vector of the source',
                      table=t)
            free.pop()
            used.append(one)
        return used

    def names(ax2):
        return ax2._getNamesNoGeneration() or [None] * len(ax2)

    def vecOf(tab, k, axis):
        if axis == 'points':
            return (tab.pn[k], tuple(model.key(v) for v in tab.rows[k]))
        return (tab.fn[k], tuple(model.key(r[k]) for r in tab.rows))

    def vec(tab, axis):
        return vecOf(tab, 0, axis)
    everything = list(range(n))
    if what == 'permute':
        must(ctx, key, label, lambda: ax.permute(useLog=False))
        taken(obj, everything, n)
    elif what == 'too-many':
        st, res = call(ctx, lambda: ax.copy(number=n + rng.randint(1, 3),
                                            randomize=True))
        ctx.check(st == 'exc', key + ':accepted', lambda: f'{label}: sampled '
                  f'more than there are')
    else:
        allowed, kw = everything, {}
        if what == 'filter':
            allowed = sorted(rng.sample(everything, rng.randint(1, n)))
            kw[('toCopy')] = rng.choice([allowed, list(allowed)[::-1]])
        elif what == 'range':
            a = rng.randrange(n)
            b = rng.randrange(a, n)
            allowed = list(range(a, b + 1))
            kw = {'start': a, 'end': b}
        k = rng.randint(1, len(allowed))
        meth = what if what in ('copy', 'extract', 'delete', 'retain') \
            else 'copy'
        res = must(ctx, key, label, lambda: getattr(ax, meth)(
            number=k, randomize=True, **kw))
        if meth == 'copy':
            taken(res, allowed, k)
        elif meth == 'extract':
            # both parts use up the vectors of the source
            left = taken(res, allowed, k)
            if n - k:
                taken(obj, everything, n - k, left)
        elif meth == 'retain':
            taken(obj, everything, k)
        else:
            taken(obj, everything, n - k)


def reachCase(ctx):
    """Every order and every sample can come out."""
    nimble, rng = ctx.nimble, ctx.rng
    how = rng.choice(['permute', 'split', 'copy'])
    axis = rng.choice(['points', 'features'])
    rows = [[0], [1], [2]] if axis == 'points' else [[0, 1, 2]]
    src = nimble.data(rows, returnType=rng.choice(gen.TYPES), useLog=False)
    if how == 'split':
        axis, src = 'points', nimble.data([[0], [1], [2]], useLog=False)
    seen = {}
    for _ in range(220):
        if how == 'permute':
            obj = src.copy()
            getattr(obj, axis).permute(useLog=False)
        elif how == 'copy':
            obj = getattr(src, axis).copy(number=3, randomize=True)
        else:
            a, b = src.trainAndTestSets(.34, useLog=False)
            obj = [model.rawRows(a), model.rawRows(b)]
        if how != 'split':
            obj = model.rawRows(obj)
        k = tuple(v for r in (obj if how != 'split' else obj[0] + obj[1])
                  for v in r)
        seen[k] = seen.get(k, 0) + 1
    ctx.state('reach', how, axis, src.getTypeString())
    ctx.event('all_orders_seen')
    ctx.check(len(seen) == 6 and max(seen.values()) < 90, f'reach:{how}',
              lambda: f'220 draws of {how} on {axis} give {seen}')


def seedCase(ctx):
    """Seeds that are refused change nothing, accepted ones decide."""
    nimble, rng = ctx.nimble, ctx.rng
    R = nimble.random
    R.setSeed(rng.randrange(2 ** 32), useLog=False)
    R.pythonRandom.random()
    before = state(nimble)
    bad = rng.choice([-1, 2 ** 32, 'text', 1.5, -2 ** 40, [1, 2], (3,), {}])
    how = rng.choice(['setSeed', 'alternate', 'data', 'train'])
    ctx.state('seed', repr(bad), how)
    ctx.event('bad_seeds')
    label = f'{how} with seed {bad!r}'

    def f():
        if how == 'setSeed':
            R.setSeed(bad, useLog=False)
        elif how == 'alternate':
            with R.alternateControl(bad, useLog=False):
                R.pythonRandom.random()
        elif how == 'data':
            R.data(3, 3, 0, randomSeed=bad)
        else:
            x, y = _xy(nimble, dataset(random.Random(1)), 'Matrix')
            nimble.train(LEARNERS['Noisy'], x, y, randomSeed=bad,
                         useLog=False)
    st, res = call(ctx, f)
    if st == 'exc' or how != 'setSeed':
        ctx.check(state(nimble) == before, f'seed:{how}:state', lambda:
                  f'{label} ({res if st == "exc" else "accepted"}) changed '
                  'the random state')
    ctx.check(R.setSeed._settable, f'seed:{how}:settable', lambda:
              f'setSeed is refused after {label}')
    good = pickSeed(rng)
    R.setSeed(good, useLog=False)
    got = (R.pythonRandom.random(), R.numpyRandom.rand())
    exp = (random.Random(good).random(), np.random.RandomState(good).rand())
    ctx.check(got == exp, 'seed:accepted', lambda: f'the first draws with '
              f'seed {good} are {got}')


KINDS = [('repeat', 10, repeatCase), ('alternate', 3, alternateCase),
         ('data', 5, dataCase), ('sample', 5, sampleCase),
         ('reach', .2, reachCase), ('seed', 2, seedCase)]
