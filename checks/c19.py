"""Hyperparameter search tries what it says and keeps the best."""
import itertools
import math
import warnings

import numpy as np

from vlib import model


from checks.common import freeze, frozenDiff

PROPERTY = 'C19'
RULE = ('random search spaces (Tune of values, ranges and multiplied ranges '
        'mixed with plain arguments, single values, lists, strings) and '
        'random performance surfaces with ties, over every selection method, '
        'validation method and direction; a recording learner logs the '
        'arguments of every training; an offline checker compares the log '
        'with the search space, a model of the method (exact for brute force, '
        'consecutive and one-argument iterative), the recomputed performance '
        'of every recorded combination and the learner returned; non-trivial: '
        'distinct (selection, validation, direction, space shape)')
QUICK = {'cases': 1500, 'seconds': 60}
THOROUGH = {'cases': 25000, 'seconds': 800}
MIN = {'searches': 600, 'trainings': 5000, 'recorded': 2500,
       'exact_searches': 280, 'returned_checked': 600, 'fold_results': 1500,
       'tune_values': 70, 'refused': 45, 'trials_checked': 300}
CASE_SECONDS = 60

LOG = []
PERF = []
STATE = {}
DEFAULTS = {'a': 0, 'b': 0, 'c': None, 'd': 'x', 'e': (), 'f': 1.5}


def quiet(f, /, *args, **kwargs):
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        return f(*args, **kwargs)


def ids(data):
    return [int(r[0]) for r in model.rawRows(data)]


def label(i):
    return (i * 7 + i // 5) % 3


def weight(i):
    return [1, 2, 4, 1][(i * 5 + i // 3) % 4]


def predict(kind, s, i):
    """
    The prediction for the point i of a learner with the surface value s.
    """
    if kind == 'c': # the larger s, the more points are wrong
        return label(i) if (i * 7 + 3) % 8 >= s else (label(i) + 1) % 3
    return label(i) + s * weight(i)


def key(v):
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(key(u) for u in v)
    if isinstance(v, (bool, np.bool_)):
        return ('bool', bool(v))
    if isinstance(v, (int, float, np.number)):
        return ('num', float(v))
    return (type(v).__name__, v)


def akey(args):
    return tuple(sorted((k, key(v)) for k, v in args.items()))


def full(args):
    return {**DEFAULTS, **args}


def surface(args):
    return STATE['surface'](full(args))


def setup(nimble):
    class Recorder(nimble.CustomLearner):
        learnerType = 'regression'

        def train(self, trainX, trainY, a=0, b=0, c=None, d='x', e=(),
                  f=1.5):
            args = {'a': a, 'b': b, 'c': c, 'd': d, 'e': e, 'f': f}
            self.args = args
            self.s = surface(args)
            LOG.append((args, ids(trainX), [r[0] for r in
                                            model.rawRows(trainY)]))

        def apply(self, testX):
            return nimble.data([[predict(STATE['kind'], self.s, i)]
                                for i in ids(testX)], useLog=False)

    class Adding(nimble.CustomLearner):
        """
        Every training moves the state, a smaller distance is better.
        """
        learnerType = 'regression'

        def train(self, trainX, trainY, a=0, b=0):
            self.total = [a + 2 * b]
            LOG.append(('train', {'a': a, 'b': b}, self.total[0]))

        def incrementalTrain(self, trainX, trainY, a=0, b=0):
            # in place: a copy that shares it would move with it
            self.total[0] += a + 2 * b
            LOG.append(('more', {'a': a, 'b': b}, self.total[0]))

        def apply(self, testX):
            s = abs(self.total[0] - STATE['target'])
            return nimble.data([[predict(STATE['kind'], s, i)]
                                for i in ids(testX)], useLog=False)

    STATE['learner'] = Recorder
    STATE['adding'] = Adding

    @nimble.calculate.performanceFunction('min', 0, validate=False)
    def off(knownValues, predictedValues):
        ret = distance(knownValues, predictedValues)
        PERF.append(ret)
        return ret

    @nimble.calculate.performanceFunction('max', 0, validate=False)
    def on(knownValues, predictedValues):
        ret = -distance(knownValues, predictedValues)
        PERF.append(ret)
        return ret
    STATE['perf'] = {
        'off': off, 'on': on,
        'meanAbsoluteError': nimble.calculate.meanAbsoluteError,
        'rootMeanSquareError': nimble.calculate.rootMeanSquareError,
        'fractionIncorrect': nimble.calculate.fractionIncorrect,
        'fractionCorrect': nimble.calculate.fractionCorrect}


def distance(known, pred):
    known = [r[0] for r in model.rawRows(known)]
    pred = [r[0] for r in model.rawRows(pred)]
    tot = sum(abs(v - w) for v, w in zip(known, pred))
    return tot / max(1, len(known)) + (1e6 if len(known) != len(pred) else 0)


def reference(name, s, points):
    """The performance of a learner with the surface value s."""
    kind = STATE['kind']
    diff = [abs(predict(kind, s, i) - label(i)) for i in points]
    n = len(points)
    if name in ('off', 'meanAbsoluteError'):
        return sum(diff) / n
    if name == 'on':
        return -sum(diff) / n
    if name == 'rootMeanSquareError':
        return math.sqrt(sum(d * d for d in diff) / n)
    wrong = sum(d != 0 for d in diff) / n
    return wrong if name == 'fractionIncorrect' else 1 - wrong


def close(a, b):
    return abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))


# ------------------------------------------------------------- generation

def space(ctx, small=False, numeric=False, names='abcdef', atLeast=0):
    """
    Arguments to search over: ({name: Tune or value}, {name: values}).
    """
    rng = ctx.rng
    Tune = ctx.nimble.Tune
    args, values = {}, {}
    names = list(names)
    rng.shuffle(names)
    count = max(atLeast, rng.choice([1, 1, 2, 2, 3] if small else
                                    [0, 1, 1, 2, 2, 3, 4]))
    limit = 4 if small else 5
    for j, name in enumerate(names[:count]):
        if rng.random() < .25 and (j >= atLeast):
            val = plain(rng, name)
            args[name], values[name] = val, [val]
            continue
        if name in 'ab' or numeric or rng.random() < .2:
            form = rng.choice(['list', 'start', 'range', 'multiply', 'tuple',
                               'gap', 'one'])
        else:
            form = 'mixed'
        if form == 'one':
            v = rng.randint(0, 5)
            vals = [v]
            arg = rng.choice([lambda: Tune([v]), lambda: Tune(range(v, v + 1)),
                              lambda: Tune(start=v, end=v)])()
        elif form == 'list':
            vals = rng.sample([-3, 0, 1, 2, 4, 8, 16, 2.5, 10],
                              rng.randint(1, limit))
            arg = Tune(list(vals))
        elif form == 'tuple':
            vals = rng.sample([1, 2, 3, 4, 5], rng.randint(2, limit))
            arg = Tune(tuple(vals))
        elif form == 'gap':
            first, gap = rng.randint(-4, 5), rng.choice([1, 2, 3, .5, .1])
            vals = [first + gap * k for k in range(rng.randint(3, limit))]
            if rng.random() < .5:
                vals.reverse()
            elif rng.random() < .5:
                rng.shuffle(vals)
            arg = Tune(list(vals))
        elif form == 'range':
            first, gap = rng.randint(-3, 4), rng.choice([1, 1, 2, 3])
            vals = list(range(first, first + gap * rng.randint(2, limit),
                              gap))
            arg = Tune(range(first, vals[-1] + 1, gap))
        elif form == 'start':
            first = rng.choice([0, 0, 1, -2, 3, .5])
            gap = rng.choice([1, 1, 2, .5, 3, -1, .25])
            n = rng.randint(2, limit)
            vals = [first + gap * k for k in range(n)]
            end = vals[-1]
            kwargs = {'start': first, 'end': end, 'change': gap}
            if first == 0 and rng.random() < .4:
                del kwargs['start']
            if gap == 1 and rng.random() < .4:
                del kwargs['change']
            if rng.random() < .4:
                kwargs['changeType'] = 'add'
            arg = Tune(**kwargs)
        elif form == 'multiply':
            first = rng.choice([1, 2, .5, 3])
            gap = rng.choice([2, 4, 10, .5])
            vals = [first * gap ** k for k in range(rng.randint(2, limit))]
            arg = Tune(start=first, end=vals[-1], change=gap,
                       changeType='multiply')
        else:
            vals = rng.sample(['x', 'yy', None, True, (1, 2), [1, 2], 'z', 7,
                               [], 2.5], rng.randint(1, limit))
            arg = Tune(list(vals))
        args[name], values[name] = arg, vals
    ctx.log(f'space { {n: (repr(a), values[n]) for n, a in args.items()} }')
    return args, values


def plain(rng, name):
    if name in 'ab':
        return rng.choice([0, 1, 3, 2.5])
    return rng.choice(['x', None, 3, (1, 2), [1, 2], [], True])


def newSurface(ctx, values, top=6):
    """
    A random function of all the arguments with small integer values.
    """
    rng = ctx.rng
    form = rng.choice(['table', 'separable', 'convex', 'flat'])
    if form == 'flat':
        flat = rng.randint(0, 3)
        seen = {}

        def func(args):
            k = akey(args)
            if k not in seen:
                seen[k] = flat if rng2.random() < .8 else flat + 1
            return seen[k]
    elif form == 'table':
        seen = {}

        def func(args):
            k = akey(args)
            if k not in seen:
                seen[k] = rng2.randint(0, top)
            return seen[k]
    elif form == 'separable':
        seen = {}

        def func(args):
            tot = 0
            for item in sorted((k, key(v)) for k, v in args.items()):
                if item not in seen:
                    seen[item] = rng2.randint(0, 3)
                tot += seen[item]
            return tot
    else:
        goal = {n: rng.choice([v for v in vals]) for n, vals in
                values.items()}

        def func(args):
            tot = 0
            for n, vals in values.items():
                v = args[n]
                if key(v) in [key(u) for u in vals]:
                    idx = [key(u) for u in vals].index(key(v))
                    tot += abs(idx - [key(u) for u in
                                      vals].index(key(goal[n])))
                else:
                    tot += 40
            return tot
    import random
    rng2 = random.Random(rng.random())
    STATE['surface'] = func
    return form


def dataFor(ctx, n=None, base=1000):
    """X, Y, Y as it may be given to the training, ids."""
    nimble, rng = ctx.nimble, ctx.rng
    n = n or rng.randint(6, 14)
    pts = [base + i for i in range(n)]
    rng.shuffle(pts)
    typ = rng.choice(['List', 'Matrix', 'DataFrame', 'Sparse'])
    rows = [[i, (i * 3) % 5] for i in pts]
    labels = [[label(i)] for i in pts]
    fn = ['id', 'other']
    form = rng.choice(['object', 'name', 'index'])
    if form == 'object':
        X = nimble.data(rows, featureNames=fn, returnType=typ, useLog=False)
        Y = nimble.data(labels, featureNames=['y'], returnType=typ,
                        useLog=False)
    else:
        X = nimble.data([r + y for r, y in zip(rows, labels)],
                        featureNames=fn + ['y'], returnType=typ,
                        useLog=False)
        Y = 'y' if form == 'name' else 2
    return X, Y, pts


VALIDATIONS = ['cross', 'cross', 'loo', 'group', 'data', 'data', 'proportion']


def tuningFor(ctx, selection, validation, perf, **extra):
    """(keyword arguments for Tuning, folds or None, validation ids)."""
    rng = ctx.rng
    kwargs = dict(extra)
    kwargs['selection'] = selection
    if perf is not None:
        kwargs['performanceFunction'] = STATE['perf'][perf]
    folds, points = None, None
    if validation == 'cross':
        kwargs['validation'] = rng.choice(['cross validation',
                                           'cross-validation',
                                           'Cross Validation'])
        folds = rng.choice([2, 3, 5])
        if folds != 5 or rng.random() < .5:
            kwargs['folds'] = folds
    elif validation == 'loo':
        kwargs['validation'] = rng.choice(['leave one out', 'leave-one-out'])
    elif validation == 'group':
        kwargs['validation'] = rng.choice(['leave one group out',
                                           'leaveOneGroupOut'])
        kwargs['foldFeature'] = rng.choice(['other', 1])
    elif validation == 'data':
        kwargs['validation'] = 'data'
        X, Y, points = dataFor(ctx, base=2000)
        kwargs['validateX'] = X
        kwargs['validateY'] = Y
    elif rng.random() < .5:
        kwargs['validation'] = 'proportion'
        kwargs['proportion'] = rng.choice([.2, .3, .5])
    else:
        kwargs['validation'] = rng.choice([.2, .3, .5])
    return kwargs, folds, points


def pickPerf(rng, optimal=None):
    STATE['kind'] = rng.choice(['r', 'c'])
    if STATE['kind'] == 'r':
        names = ['off', 'on', 'off', 'on', 'meanAbsoluteError',
                 'rootMeanSquareError']
    else:
        names = ['off', 'on', 'fractionIncorrect', 'fractionCorrect']
    if optimal == 'min':
        names = [n for n in names if n not in ('on', 'fractionCorrect')]
    return rng.choice(names)


def optimalOf(name):
    return 'max' if name in ('on', 'fractionCorrect') else 'min'


def better(name, a, b):
    return a > b if optimalOf(name) == 'max' else a < b


# ------------------------------------------------------------- judging

def product(values):
    return [dict(zip(values, combo))
            for combo in itertools.product(*values.values())]


def judgeRecorded(ctx, tl, tuning, values, perf, table, points):
    """
    The recorded combinations are in the space, with their performance.
    """
    allArgs, results = tuning.allArguments, tuning.allResults
    ctx.event('recorded', len(results))
    ctx.check(len(allArgs) == len(results) and results, 'record-lengths',
              lambda: f'{len(allArgs)} argument sets, {len(results)} results',
              table=table)
    inSpace = {n: {key(v) for v in vals} for n, vals in values.items()}
    for args, res in zip(allArgs, results):
        ctx.check(set(args) == set(values)
                  and all(key(v) in inSpace[n] for n, v in args.items()),
                  'outside-space', lambda: f'{args!r} is not a combination of '
                  f'{values!r}', table=table)
        if points is not None:
            want = reference(perf, surface(args), points)
            ctx.check(close(res, want), 'recorded-performance',
                      lambda: f'{args!r} is recorded with {res!r}, its '
                      f'{perf} is {want!r}', table=table)
    order = sorted(results, reverse=optimalOf(perf) == 'max')
    ctx.check(list(results) == order, 'results-order',
              lambda: f'{perf}: {results}', table=table)
    ctx.check(not any(better(perf, r, tuning.bestResult) for r in results),
              'best-beaten', lambda: f'best {tuning.bestResult!r} of '
              f'{results}', table=table)
    ctx.check(any(akey(a) == akey(tuning.bestArguments)
                  and r == tuning.bestResult
                  for a, r in zip(allArgs, results)), 'best-not-recorded',
              lambda: f'{tuning.bestArguments!r} with {tuning.bestResult!r} '
              f'is not in {list(zip(allArgs, results))}', table=table)


def judgeReturned(ctx, tl, tuning, table, X, points, perf=None, vx=None,
                  vy=None):
    """
    The learner returned was trained with the best combination.
    """
    ctx.event('returned_checked')
    best = tuning.bestArguments
    ctx.check(akey(full(tl.arguments)) == akey(full(best)),
              'returned-arguments', lambda: f'learner has {tl.arguments!r}, '
              f'best is {best!r}', table=table)
    rows = X.features.copy(['id', 'other'], useLog=False)
    out = quiet(tl.apply, rows, useLog=False)
    want = [predict(STATE['kind'], surface(best), i) for i in points]
    got = [r[0] for r in model.rawRows(out)]
    ctx.check(got == want, 'returned-model', lambda: f'trained with {best!r} '
              f'(surface {surface(best)}) predicts {got} for {points}, the '
              f'combination predicts {want}', table=table)
    if vx is not None:
        res = quiet(tl.test, STATE['perf'][perf], vx, vy, useLog=False)
        ctx.check(close(res, tuning.bestResult), 'returned-performance',
                  lambda: f'tests as {res!r}, best result is '
                  f'{tuning.bestResult!r}', table=table)


def modelConsecutive(values, tuned, perfOf, perf, loops, order):
    """
    The combinations one-argument-at-a-time tuning evaluates.
    """
    curr = {n: vals[0] for n, vals in values.items()}
    tried = [dict(curr)]
    seen = {akey(curr)}
    best, bestPerf = dict(curr), perfOf(curr)
    for loop in range(loops):
        for name in order:
            base = dict(best)
            for v in values[name]:
                if loop == 0 and key(v) == key(base[name]):
                    continue
                args = {**base, name: v}
                if akey(args) in seen:
                    continue
                seen.add(akey(args))
                tried.append(args)
                p = perfOf(args)
                if better(perf, p, bestPerf):
                    best, bestPerf = args, p
    return tried, best


def runSearch(ctx, args, kwargs, route, perf, X, Y, tuning=None, seed=None):
    """Train through the route; (trained learner, Tuning)."""
    nimble, rng = ctx.nimble, ctx.rng
    LOG.clear()
    PERF.clear()
    if tuning is None:
        tuning = nimble.Tuning(**kwargs)
    pos = {}
    kw = {}
    # arguments given both ways have no particular order
    mixed = 'order' in (kwargs or {}) or tuning._selection != 'consecutive'
    dictOnly = rng.random() < .5
    for n, v in args.items():
        if rng.random() < .5 if mixed else dictOnly:
            pos[n] = v
        else:
            kw[n] = v
    argDict = pos if pos or rng.random() < .5 else None
    before = dict(pos)
    opts = {'useLog': False}
    if seed is not None:
        opts['randomSeed'] = seed
    ctx.event('searches')
    if route == 'train':
        tl = quiet(nimble.train, STATE['learner'], X, Y, argDict,
                   tuning=tuning, **opts, **kw)
        out = tl
    elif route == 'test':
        vx, vy = STATE['test']
        out = quiet(nimble.trainAndTest, STATE['learner'],
                    STATE['perf'][perf], X, Y, vx, vy, argDict, tuning=tuning,
                    **opts, **kw)
    elif route == 'apply':
        vx, vy = STATE['test']
        out = quiet(nimble.trainAndApply, STATE['learner'], X, Y,
                    vx.features.copy(['id', 'other'], useLog=False), argDict,
                    tuning=tuning, **opts, **kw)
    else:
        out = quiet(nimble.trainAndTestOnTrainingData, STATE['learner'],
                    STATE['perf'][perf], X, Y, arguments=argDict, tuning=tuning,
                    **opts, **kw)
    ctx.event('trainings', len(LOG))
    ctx.check(pos == before, 'arguments-modified',
              lambda: f'{pos!r}, was {before!r}')
    return out, tuning


def makeKind(selection):
    def kind(ctx):
        rng, nimble = ctx.rng, ctx.nimble
        dataOnly = selection in ('bayesian', 'iterative', 'storm')
        perf = pickPerf(rng, 'min' if selection == 'bayesian' else None)
        validation = 'data' if dataOnly else rng.choice(VALIDATIONS)
        numeric = selection == 'iterative'
        args, values = space(ctx, small=selection != 'brute force',
                             numeric=numeric,
                             names='ab' if numeric else 'abcdef')
        if numeric:
            for n, vals in values.items():
                if len(vals) > 1:
                    values[n] = sorted(vals)
        tuned = [n for n, a in args.items() if isinstance(a, nimble.Tune)]
        shape = newSurface(ctx, values)
        X, Y, pts = dataFor(ctx)
        extra = {}
        loops, order = 1, tuned
        if selection == 'consecutive':
            loops = rng.choice([1, 1, 2, 3])
            if loops > 1:
                extra['loops'] = loops
            if rng.random() < .4:
                order = list(tuned)
                rng.shuffle(order)
                extra['order'] = list(order)
        limit, threshold = None, None
        if dataOnly:
            limit = rng.choice([1, 3, 8, 12, None])
            if limit is None:
                limit = 15
            extra['maxIterations'] = limit
            if rng.random() < .3:
                s = rng.randint(0, 4)
                vals = [reference(perf, s, pts)]
                threshold = vals[0]
                extra['threshold'] = threshold
            if selection == 'storm' and rng.random() < .4:
                extra['initRandom'] = rng.choice([1, 3, 5])
            if selection == 'storm' and rng.random() < .4:
                extra['randomizeAxisFactor'] = rng.choice([.3, .5, .9])
        kwargs, folds, vpoints = tuningFor(ctx, selection, validation, perf,
                                           **extra)
        if vpoints is None and validation != 'proportion':
            vpoints = pts
        route = rng.choice(['train', 'train', 'train', 'test', 'apply',
                            'self'])
        tx, ty, tpts = dataFor(ctx, base=3000)
        STATE['test'] = tx, ty
        seed = rng.choice([None, None, rng.randint(1, 10000)])
        if route in ('test', 'self') and tuned and rng.random() < .3:
            del kwargs['performanceFunction'] # that of the call is used
        ctx.log(f'{selection} {validation} {perf} {route} {extra} '
                f'shape={shape} seed={seed} '
                f'kind={STATE["kind"]} n={len(pts)}')
        ctx.state(selection, validation, optimalOf(perf), route, len(tuned),
                  tuple(sorted(len(v) for v in values.values())))
        table = f'{selection}/{validation}'
        inputs = [(name, o, freeze(o)) for name, o in
                  (('X', X), ('tx', tx), ('vx', kwargs.get('validateX')))
                  if o is not None]
        frozenTune = {n: list(args[n]) for n in tuned}
        out, tuning = runSearch(ctx, args, kwargs, route, perf, X, Y,
                                seed=seed)
        for n in tuned:
            ctx.check([key(v) for v in args[n]]
                      == [key(v) for v in frozenTune[n]]
                      == [key(v) for v in
                          (frozenTune[n] if numeric else values[n])],
                      'tune-values', lambda: f'{args[n]!r} has the values '
                      f'{list(args[n])}, not {values[n]}', table=table)
        for name, o, f in inputs:
            ctx.check(frozenDiff(f, freeze(o)) is None, 'input-modified',
                      lambda: f'{name}: {frozenDiff(f, freeze(o))}', table=table)
        log = list(LOG)
        # every training used a combination of the space and the right data
        inSpace = {akey(full(a)) for a in product(values)}
        for a, trained, ys in log:
            ctx.check(akey(a) in inSpace, 'trained-outside-space',
                      lambda: f'{a!r} was trained, not in {values!r}',
                      table=table)
            ctx.check(ys == [label(i) for i in trained], 'training-pairs',
                      lambda: f'{trained} with {ys}', table=table)
        if validation == 'proportion':
            # the held out points are those never seen during the search
            held = set(pts) - set(log[0][1])
            vpoints = [i for i in pts if i in held]
        judgeRecorded(ctx, None, tuning, values, perf, table, vpoints)
        allArgs = tuning.allArguments
        recorded = {akey(a): r for a, r in zip(allArgs, tuning.allResults)}
        if selection == 'brute force':
            ctx.event('exact_searches')
            want = [akey(a) for a in product(values)]
            got = [akey(a) for a in allArgs]
            ctx.check(len(got) == len(set(got)), 'brute-repeats',
                      lambda: f'{allArgs}', table=table)
            ctx.check(set(got) == set(want), 'brute-incomplete',
                      lambda: f'{len(set(got))} of {len(set(want))} '
                      f'combinations: {allArgs}', table=table)
        elif selection == 'consecutive':
            ctx.event('exact_searches')
            tried, best = modelConsecutive(
                values, tuned, lambda a: recorded.get(akey(a)) if akey(a)
                in recorded else reference(perf, surface(a), vpoints), perf,
                loops, order)
            want = sorted(map(akey, tried), key=repr)
            got = sorted(map(akey, allArgs), key=repr)
            ctx.check(len(got) == len(set(got)), 'consecutive-repeats',
                      lambda: f'{allArgs}', table=table)
            ctx.check(want == got, 'consecutive-tried', lambda: 'missing '
                      f'{[a for a in want if a not in got]}, not expected '
                      f'{[a for a in got if a not in want]} (values '
                      f'{values}, order {order}, {loops} loops, recorded '
                      f'{list(zip(allArgs, tuning.allResults))})',
                      table=table)
            ctx.check(akey(best) == akey(tuning.bestArguments),
                      'consecutive-best', lambda: f'{tuning.bestArguments!r}, '
                      f'expected {best!r}', table=table)
        else:
            judgeLimited(ctx, tuning, values, tuned, perf, selection, limit,
                         threshold, table, log, vpoints)
        if folds is not None or validation in ('loo', 'group'):
            judgeFolds(ctx, tuning, validation, folds, pts, table, perf)
        else:
            ctx.check(tuning.deepResults is None, 'deep-results',
                      lambda: f'{tuning.deepResults}', table=table)
        best = tuning.bestArguments
        if route == 'train':
            vx = kwargs.get('validateX') if validation == 'data' else None
            judgeReturned(ctx, out, tuning, table, X, pts, perf, vx,
                          kwargs.get('validateY'))
            ctx.check(akey(out.tuning.bestArguments) == akey(best)
                      and out.tuning.bestResult == tuning.bestResult
                      and out.tuning.allResults == tuning.allResults,
                      'attached-tuning', lambda: f'{out.tuning.bestArguments}'
                      f', {out.tuning.bestResult}', table=table)
        elif route in ('test', 'self'):
            ctx.event('returned_checked')
            want = reference(perf, surface(best), tpts if route == 'test'
                             else pts)
            ctx.check(close(out, want), 'route-performance',
                      lambda: f'{route}: {out!r}, the best combination has '
                      f'{want!r}', table=table)
        else:
            ctx.event('returned_checked')
            want = [predict(STATE['kind'], surface(best), i) for i in tpts]
            got = [r[0] for r in model.rawRows(out)]
            ctx.check(got == want, 'route-predictions',
                      lambda: f'{got}, expected {want}', table=table)
        if validation == 'data' and seed is None and rng.random() < .3:
            again(ctx, args, values, tuning, X, Y, pts, perf, vpoints, table,
                  kwargs)
    return kind


def again(ctx, args, values, tuning, X, Y, pts, perf, vpoints, table, kwargs):
    """
    A Tuning object used for another search, with another performance.
    """
    if tuning._selection == 'bayesian' and optimalOf(perf) == 'max':
        return
    first = (tuning.allArguments, tuning.allResults)
    newSurface(ctx, values)
    perf2 = perf
    route = 'train'
    if 'performanceFunction' not in kwargs:
        route = 'test'
        perf2 = 'off' if tuning._selection == 'bayesian' else \
            ctx.rng.choice(['off', 'on'])
        STATE['test'] = kwargs['validateX'], kwargs['validateY']
    ctx.log(f'again with {perf2} {route}')
    out, tuning = runSearch(ctx, args, None, route, perf2, X, Y,
                            tuning=tuning)
    judgeRecorded(ctx, None, tuning, values, perf2, table + '/again', vpoints)
    if route == 'train':
        judgeReturned(ctx, out, tuning, table + '/again', X, pts)
    else:
        ctx.check(close(out, tuning.bestResult), 'again-performance',
                  lambda: f'{out!r}, best {tuning.bestResult!r}',
                  table=table)


def judgeLimited(ctx, tuning, values, tuned, perf, selection, limit,
                 threshold, table, log, vpoints):
    results = tuning.validator._results
    count = len(results)
    ctx.check(1 <= count <= max(1, limit), 'iterations', lambda: f'{count} '
              f'evaluations recorded, at most {limit} allowed', table=table)
    if threshold is not None:
        good = [j for j, r in enumerate(results)
                if r == threshold or better(perf, r, threshold)]
        ctx.check(not good or good[0] >= count - 1, 'threshold-passed',
                  lambda: f'went on after {results} met {threshold}',
                  table=table)
    if selection == 'storm':
        total = len(product(values))
        ctx.check(count <= total, 'storm-repeats', lambda: f'{count} '
                  f'evaluations of {total} combinations', table=table)
        got = [akey(a) for a in tuning.allArguments]
        ctx.check(len(got) == len(set(got)), 'storm-repeats',
                  lambda: f'{tuning.allArguments}', table=table)
    if selection != 'iterative':
        return
    # the search moves along one argument as the performance tells
    args = tuning.validator._arguments
    start = {n: vals[len(vals) // 2] for n, vals in values.items()}
    ctx.check(akey(args[0]) == akey(start), 'iterative-start',
              lambda: f'{args[0]!r}, the middle is {start!r}', table=table)
    for prev, nxt in zip(args, args[1:]):
        for n in values:
            old = [key(v) for v in values[n]].index(key(prev[n]))
            new = [key(v) for v in values[n]].index(key(nxt[n]))
            ctx.check(abs(old - new) <= 1 or len(tuned) > 1,
                      'iterative-step', lambda: f'{n}: {prev[n]} to '
                      f'{nxt[n]} of {values[n]}', table=table)
    if len(tuned) != 1:
        return
    ctx.event('exact_searches')
    name = tuned[0]
    vals = values[name]

    def perfOf(v):
        return reference(perf, surface({**start, name: v}), vpoints)
    idx = len(vals) // 2
    want = [vals[idx]]
    while len(want) < limit:
        here = perfOf(vals[idx])
        if threshold is not None and (here == threshold
                                      or better(perf, here, threshold)):
            break
        options = [(perfOf(vals[j]), j) for j in (idx - 1, idx + 1)
                   if 0 <= j < len(vals)
                   and better(perf, perfOf(vals[j]), here)]
        if not options:
            break
        if len(options) == 2:
            if options[0][0] == options[1][0]:
                return # either direction will do
            if better(perf, options[1][0], options[0][0]):
                options.reverse()
        idx = options[0][1]
        want.append(vals[idx])
    got = [a[name] for a in args]
    ctx.check(list(map(key, got)) == list(map(key, want)), 'iterative-path',
              lambda: f'went through {got}, expected {want} (performance '
              f'{[(v, perfOf(v)) for v in vals]}, {optimalOf(perf)})',
              table=table)


def judgeFolds(ctx, tuning, validation, folds, pts, table, perf):
    """
    The fold results belong to the combination they are recorded with.
    """
    n = {'cross': folds, 'loo': len(pts),
         'group': len({(i * 3) % 5 for i in pts})}[validation]
    deep = tuning.deepResults
    ctx.check(deep is not None and len(deep) == len(tuning.allResults),
              'deep-results', lambda: f'{deep}', table=table)
    for args, row, res in zip(tuning.allArguments, deep, tuning.allResults):
        ctx.event('fold_results', len(row))
        ctx.check(len(row) == n, 'fold-count', lambda: f'{len(row)} fold '
                  f'results for {n} folds', table=table)
        if perf in ('off', 'on', 'meanAbsoluteError') or 'fraction' in perf:
            # the overall result lies between those of the folds
            ctx.check(min(row) - 1e-9 <= res <= max(row) + 1e-9,
                      'fold-results', lambda: f'{args!r}: folds {row}, '
                      f'overall {res}', table=table)
        if validation == 'loo':
            want = sorted(reference(perf, surface(args), [i]) for i in pts)
            ctx.check(all(close(a, b) for a, b in zip(sorted(row), want)),
                      'fold-results', lambda: f'{args!r}: {row}, expected '
                      f'(in any order) {want}', table=table)


def kindIncremental(ctx):
    """
    Iterative tuning of a learner whose training continues.
    """
    rng, nimble = ctx.rng, ctx.nimble
    STATE['kind'] = 'r'
    perf = rng.choice(['off', 'on', 'meanAbsoluteError'])
    STATE['target'] = rng.randint(0, 30)
    args, values = space(ctx, small=True, numeric=True, names='ab')
    limit = rng.choice([2, 4, 8])
    kwargs, _, vpoints = tuningFor(ctx, 'iterative', 'data', perf,
                                   maxIterations=limit)
    X, Y, pts = dataFor(ctx)
    tuning = nimble.Tuning(**kwargs)
    ctx.log(f'incremental {perf} target {STATE["target"]} limit {limit}')
    LOG.clear()
    ctx.event('searches')
    tl = quiet(nimble.train, STATE['adding'], X, Y, tuning=tuning,
               useLog=False, **args)
    ctx.event('trainings', len(LOG))
    tuned = [n for n, a in args.items() if isinstance(a, nimble.Tune)]
    ctx.state('incremental', optimalOf(perf), len(tuned), limit)
    allowed = {n: {key(v) for v in vals} for n, vals in values.items()}
    for _, a, _ in LOG:
        ctx.check(all(key(a[n]) in allowed[n] for n in values),
                  'trained-outside-space', lambda: f'{a!r}, not in {values}')
    results = tuning.allResults
    ctx.event('recorded', len(results))
    ctx.check(not any(better(perf, r, tuning.bestResult) for r in results),
              'best-beaten', lambda: f'{tuning.bestResult!r} of {results}')
    # the learner returned performs as recorded
    got = quiet(tl.test, STATE['perf'][perf], kwargs['validateX'],
                kwargs['validateY'], useLog=False)
    ctx.event('returned_checked')
    ctx.check(close(got, tuning.bestResult), 'returned-performance',
              lambda: f'tests as {got!r}, best result {tuning.bestResult!r}; '
              f'log {LOG}')
    # every recorded result is that of the evaluations made: each step is
    # one more training with the recorded arguments
    args_, results = tuning.validator._arguments, tuning.validator._results
    total = None
    for a, r in zip(args_, results):
        inc = a.get('a', 0) + 2 * a.get('b', 0)
        total = inc if total is None else total + inc
        ctx.event('trials_checked')
        want = reference(perf, abs(total - STATE['target']), vpoints)
        ctx.check(close(r, want), 'recorded-performance',
                  lambda: f'{a!r} is recorded with {r!r}; training on from '
                  f'{args_} gives {want!r}; log {LOG}')


def kindTune(ctx):
    """
    The values a Tune object stands for.
    """
    rng, nimble = ctx.rng, ctx.nimble
    Tune = nimble.Tune
    form = rng.choice(['add', 'multiply', 'values', 'bad', 'equal', 'range'])
    ctx.state('tune', form)
    ctx.event('tune_values')
    if form == 'add':
        first = rng.choice([0, 1, -3, .1, 10, -.5])
        gap = rng.choice([1, 2, 3, .1, .25, .01, -1, -.1, -2])
        n = rng.randint(2, 30)
        extra = rng.choice([0, 0, .4])
        end = first + gap * (n - 1 + extra)
        if isinstance(first, int) and isinstance(gap, int) and not extra:
            end = int(end)
        got = list(Tune(start=first, end=end, change=gap))
        want = [first + gap * k for k in range(n)]
        ctx.log(f'Tune(start={first}, end={end}, change={gap})')
    elif form == 'multiply':
        first = rng.choice([1, 2, .01, .5, 100])
        gap = rng.choice([2, 3, 10, .5, .1, 1.5])
        n = rng.randint(2, 8)
        extra = rng.choice([0, 0, .4])
        end = first * gap ** (n - 1 + extra)
        got = list(Tune(start=first, end=end, change=gap,
                        changeType='multiply'))
        want = [first * gap ** k for k in range(n)]
        ctx.log(f'Tune(start={first}, end={end}, change={gap}, multiply)')
    elif form == 'values':
        want = [rng.choice([1, 2, 3.5, 'a', None, [1], 0, -4, True])
                for _ in range(rng.randint(1, 6))]
        got = list(Tune(rng.choice([list, tuple])(want)))
        ctx.log(f'Tune({want})')
    elif form == 'range':
        r = range(rng.randint(-3, 5), rng.randint(6, 12),
                  rng.choice([1, 2, 3]))
        if rng.random() < .3:
            r = range(r.stop, r.start, -r.step)
        want = list(r)
        got = list(Tune(r))
        ctx.log(f'Tune({r})')
    elif form == 'equal':
        v = rng.choice([0, 1, 2.5])
        typ = rng.choice(['add', 'multiply', None])
        ctx.log(f'Tune(start={v}, end={v}, changeType={typ})')
        kw = {} if typ is None else {'changeType': typ}
        try:
            got = list(Tune(start=v, end=v, **kw))
        except Exception as e:
            ctx.check(isinstance(e, ValueError) or isinstance(e, TypeError),
                      'tune-error', lambda: f'{type(e).__name__}: {e}')
            ctx.event('refused')
            return
        want = [v]
    else:
        kw = rng.choice([{}, {'start': 1}, {'start': 1, 'end': 5,
                                            'change': 0},
                         {'start': 1, 'end': 5, 'change': -1},
                         {'start': 5, 'end': 1, 'change': 1},
                         {'start': 5, 'end': 1},
                         {'start': 1, 'end': 8, 'change': 1,
                          'changeType': 'multiply'},
                         {'start': 1, 'end': 8, 'change': .5,
                          'changeType': 'multiply'},
                         {'start': 8, 'end': 1, 'change': 2,
                          'changeType': 'multiply'},
                         {'start': 0, 'end': 8, 'change': 2,
                          'changeType': 'multiply'},
                         {'end': 8, 'change': 2, 'changeType': 'multiply'},
                         {'start': -1, 'end': 8, 'change': 2,
                          'changeType': 'multiply'},
                         {'start': 8, 'end': 0, 'change': .5,
                          'changeType': 'multiply'},
                         {'start': 8, 'end': -1, 'change': .5,
                          'changeType': 'multiply'},
                         {'end': 5, 'changeType': 'other'},
                         {'values': [1, 2], 'end': 5},
                         {'values': 5}, {'values': []},
                         {'values': range(0)}])
        ctx.log(f'Tune(**{kw})')
        import signal

        def stop(*_):
            raise TimeoutError('no end')
        left = signal.getitimer(signal.ITIMER_REAL)
        old = signal.signal(signal.SIGALRM, stop)
        signal.setitimer(signal.ITIMER_REAL, 3)
        try:
            t = Tune(**kw)
            n = len(t)
        except TimeoutError:
            ctx.violation('tune-endless', f'Tune(**{kw}) does not end')
            return
        except Exception as e:
            ctx.event('refused')
            ctx.check(isinstance(e, (ValueError, TypeError)), 'tune-error',
                      lambda: f'Tune(**{kw}): {type(e).__name__}: {e}')
            return
        finally:
            signal.signal(signal.SIGALRM, old)
            signal.setitimer(signal.ITIMER_REAL, *left)
        ctx.violation('tune-accepted', f'Tune(**{kw}) has the values '
                      f'{list(t)[:20]} ({n})')
        return
    same = len(got) == len(want) and all(
        close(a, b) if isinstance(a, (int, float)) and isinstance(
            b, (int, float)) and not isinstance(a, bool) else key(a) == key(b)
        for a, b in zip(got, want))
    ctx.check(same, 'tune-values', lambda: f'{got}, expected {want}')


def kindReal(ctx):
    """
    A search over a real learner agrees with evaluating each combination.
    """
    rng, nimble = ctx.rng, ctx.nimble
    n = rng.randint(12, 25)
    rows = [[rng.gauss(0, 1) for _ in range(3)] for _ in range(n)]
    vrows = [[rng.gauss(0, 1) for _ in range(3)] for _ in range(8)]
    regress = rng.random() < .5

    def lab(r):
        v = r[0] - .5 * r[1] + rng.gauss(0, .4)
        return [round(v, 3)] if regress else [int(v > 0) + int(v > .8)]
    ty, vy = [lab(r) for r in rows], [lab(r) for r in vrows]
    ty[0], ty[1] = ([0.], [1.]) if regress else ([0], [1])
    ty[2] = [2.] if regress else [2]
    X, VX = (nimble.data(r, useLog=False) for r in (rows, vrows))
    Y, VY = (nimble.data(r, useLog=False) for r in (ty, vy))
    Tune = nimble.Tune
    if regress:
        perf = rng.choice([nimble.calculate.rootMeanSquareError,
                           nimble.calculate.meanAbsoluteError,
                           nimble.calculate.rSquared])
        name, args = rng.choice([
            ('sklearn.Ridge', {'alpha': [.1, 1, 10],
                               'fit_intercept': [True, False]}),
            ('sklearn.KNeighborsRegressor', {'n_neighbors': [1, 2, 3, 5],
                                             'weights': ['uniform',
                                                         'distance']}),
            ('sklearn.DecisionTreeRegressor', {'max_depth': [1, 2, None],
                                               'min_samples_leaf': [1, 3]}),
            ('nimble.RidgeRegression', {'lamb': [0, .5, 2, 10]})])
    else:
        perf = rng.choice([nimble.calculate.fractionIncorrect,
                           nimble.calculate.fractionCorrect])
        name, args = rng.choice([
            ('nimble.KNNClassifier', {'k': [1, 2, 3, 5]}),
            ('sklearn.LogisticRegression', {'C': [.01, 1, 100]}),
            ('sklearn.DecisionTreeClassifier', {'max_depth': [1, 2, None],
                                                'min_samples_leaf': [1, 3]}),
            ('sklearn.RandomForestClassifier', {'n_estimators': [3, 5],
                                                'max_depth': [1, 3]})])
    strategy = None
    if not regress and 'Random' not in name and rng.random() < .3:
        strategy = rng.choice(['OneVsAll', 'OneVsOne'])
    optimal = perf.optimal
    selection = rng.choice(['brute force', 'consecutive', 'storm'] +
                           (['bayesian'] if optimal == 'min' else []))
    seed = rng.randint(1, 10000)
    validation = rng.choice(['data', 'data', 'cross'])
    if selection in ('storm', 'bayesian'):
        validation = 'data'
    ctx.log(f'{name} {args} {perf.__name__} {selection} {validation} '
            f'{strategy} seed {seed} rows {rows} {ty} validate {vrows} {vy}')
    ctx.state('real', name, perf.__name__, selection, validation)
    kw = {'selection': selection, 'performanceFunction': perf}
    if validation == 'data':
        kw.update(validation='data', validateX=VX, validateY=VY)
    else:
        kw.update(folds=3)
    if selection in ('storm', 'bayesian'):
        kw['maxIterations'] = 8
    tuning = nimble.Tuning(**kw)
    ctx.event('searches')
    tl = quiet(nimble.train, name, X, Y, tuning=tuning, randomSeed=seed,
               multiClassStrategy=strategy, useLog=False, **{k: Tune(v) for k, v in args.items()})
    better_ = (lambda a, b: a > b) if optimal == 'max' else \
        (lambda a, b: a < b)
    results = tuning.allResults
    ctx.event('recorded', len(results))
    combos = {akey(a) for a in product(args)}
    for a, r in zip(tuning.allArguments, results):
        ctx.check(akey(a) in combos, 'outside-space', lambda: f'{a!r}')
        if validation == 'data':
            want = quiet(nimble.trainAndTest, name, perf, X, Y, VX, VY,
                         arguments=a, randomSeed=seed, useLog=False)
            ctx.event('trials_checked')
            ctx.check(close(r, want), 'recorded-performance',
                      lambda: f'{a!r} is recorded with {r!r}, training it '
                      f'gives {want!r}', table=f'real/{selection}')
    ctx.check(not any(better_(r, tuning.bestResult) for r in results),
              'best-beaten', lambda: f'{tuning.bestResult} of {results}')
    best = tuning.bestArguments
    got = quiet(tl.apply, VX, useLog=False)
    want = quiet(nimble.trainAndApply, name, X, Y, VX, arguments=best,
                 multiClassStrategy=strategy, randomSeed=seed, useLog=False)
    ctx.event('returned_checked')
    a, b = model.rawRows(got), model.rawRows(want)
    ctx.check(all(close(u[0], v[0]) for u, v in zip(a, b)), 'returned-model',
              lambda: f'{best!r}: {a}, training it gives {b}',
              table=f'real/{selection}')
    ctx.check(akey({k: tl.arguments[k] for k in args if k in tl.arguments})
              == akey(best), 'returned-arguments',
              lambda: f'{tl.arguments!r}, best {best!r}')


def kindRefused(ctx):
    """
    Searches that cannot be made are refused, with the package's errors.
    """
    rng, nimble = ctx.rng, ctx.nimble
    pickPerf(rng)
    X, Y, pts = dataFor(ctx)
    vx, vy, _ = dataFor(ctx, base=2000)
    perf = STATE['perf']
    STATE['surface'] = lambda args: 1
    Tune = nimble.Tune
    learner = STATE['learner']
    data = {'validation': 'data', 'validateX': vx, 'validateY': vy}

    def run(**kw):
        return quiet(nimble.train, learner, X, Y, useLog=False,
                     a=Tune([1, 2]), b=Tune([1, 2]),
                     tuning=nimble.Tuning(**kw))
    cases = {
        'no tuning': lambda: quiet(nimble.train, learner, X, Y, a=Tune([1]),
                                   useLog=False),
        'no performance': lambda: run(),
        'selection': lambda: run(selection='other',
                                 performanceFunction=perf['off']),
        'validation': lambda: run(validation='other',
                                  performanceFunction=perf['off']),
        'validation type': lambda: run(validation=3,
                                       performanceFunction=perf['off']),
        'bayesian cross': lambda: run(selection='bayesian',
                                      performanceFunction=perf['off']),
        'iterative cross': lambda: run(selection='iterative',
                                       performanceFunction=perf['off']),
        'bayesian max': lambda: run(selection='bayesian',
                                    performanceFunction=perf['on'], **data),
        'no limit': lambda: run(selection='storm', maxIterations=None,
                                performanceFunction=perf['off'], **data),
        'no validateX': lambda: run(validation='data',
                                    performanceFunction=perf['off']),
        'lengths': lambda: run(validation='data', validateX=vx,
                               validateY=nimble.data([[1], [2]],
                                                     useLog=False),
                               performanceFunction=perf['off']),
        'folds 0': lambda: run(folds=0, performanceFunction=perf['off']),
        'folds many': lambda: run(folds=len(pts) + 1,
                                  performanceFunction=perf['off']),
        'proportion 0': lambda: run(validation=0.,
                                    performanceFunction=perf['off']),
        'proportion 1': lambda: run(validation=1.,
                                    performanceFunction=perf['off']),
        'loops 0': lambda: run(loops=0, performanceFunction=perf['off']),
        'order missing': lambda: run(order=['a'],
                                     performanceFunction=perf['off']),
        'order unknown': lambda: run(order=['a', 'b', 'zz'],
                                     performanceFunction=perf['off']),
        'group none': lambda: run(validation='leave one group out',
                                  performanceFunction=perf['off']),
        'unknown argument': lambda: quiet(
            nimble.train, learner, X, Y, useLog=False, zz=Tune([1, 2]),
            tuning=nimble.Tuning(performanceFunction=perf['off'])),
    }
    name = rng.choice(sorted(cases))
    ctx.log(f'refused: {name}')
    ctx.state('refused', name)
    before = freeze(X)
    LOG.clear()
    try:
        cases[name]()
    except Exception as e:
        ctx.event('refused')
        ctx.check(isinstance(e, nimble.exceptions.NimbleException),
                  'refusal-type', lambda: f'{name}: {type(e).__name__}: {e}',
                  table=name)
        ctx.check(frozenDiff(before, freeze(X)) is None, 'input-modified',
                  lambda: f'{name}')
        return
    ctx.violation('accepted', f'{name} was accepted', table=name)


KINDS = [('brute', 14, makeKind('brute force')),
         ('consecutive', 26, makeKind('consecutive')),
         ('bayesian', 14, makeKind('bayesian')),
         ('iterative', 14, makeKind('iterative')),
         ('storm', 10, makeKind('storm')),
         ('incremental', 8, kindIncremental),
         ('real', 6, kindReal),
         ('tune', 12, kindTune),
         ('refused', 6, kindRefused)]
