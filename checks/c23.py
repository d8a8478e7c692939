"""Built-in and custom learners honour their definitions."""
import math
from fractions import Fraction
from itertools import combinations

import numpy as np

from vlib import gen, model
from vlib.model import Table, NAN, isNan, isNumber
from checks.common import call, must, typesFor, freeze, frozenDiff

PROPERTY = 'C23'
RULE = ('nearest neighbour classification and imputation, ridge and linear '
        'regression (single and several outputs) over small datasets with '
        'ties, duplicates, close points of large values, booleans and '
        'missing values, every representation of every argument, through '
        'train/apply/test/normalizeData/fillMatching, against exact '
        'definitions; recording custom learners with random signatures '
        '(train only, apply only and shared parameters, defaults, '
        'incremental, scores, every form of output) against what their '
        'methods received; non-trivial: distinct (learner, route, types, '
        'signature)')
QUICK = {'cases': 6000, 'seconds': 80}
THOROUGH = {'cases': 40000, 'seconds': 800}
MIN = {'knn_points': 1500, 'knn_ties': 300, 'knn_scores': 200,
       'imputed': 250, 'imputed_other': 120, 'ridge': 180, 'multi': 150,
       'custom_calls': 600, 'apply_only': 400, 'shared_names': 80,
       'outputs': 250, 'identity': 30, 'incremental': 100, 'label_lists': 80,
       'scores_given': 80, 'views': 650, 'signatures': 60, 'retrained': 60}
MIN['class_refusals'] = 40
MIN['strategy_steps'] = 70
CASE_SECONDS = 40


def short(x):
    if hasattr(x, 'getTypeString'):
        return f'{x.getTypeString()} {model.rawRows(x)}'
    return repr(x)


def names(rng, n, prefix):
    return [None] * n if rng.random() < .5 else \
        [f'{prefix}{i}' for i in range(n)]


def build(ctx, rows, typ=None, cols=None, fn=None, pn=None, views=True):
    rng = ctx.rng
    cols = len(rows[0]) if cols is None else cols
    t = Table([list(r) for r in rows],
              names(rng, len(rows), 'p') if pn is None else pn,
              names(rng, cols, 'f') if fn is None else fn, cols)
    typ = typ or rng.choice(typesFor(t))
    obj = gen.build(ctx.nimble, t, typ, gen.anyRoute(rng, views=views), rng)
    if 'View' in type(obj).__name__:
        ctx.event('views')
    return obj, typ


def grid(rng, n, m, kind):
    """Rows of numbers; exact values of what nimble is given."""
    if kind == 'int':
        return [[rng.randint(-3, 4) for _ in range(m)] for _ in range(n)]
    if kind == 'bool':
        return [[rng.random() < .5 for _ in range(m)] for _ in range(n)]
    if kind == 'tenth':
        return [[rng.randint(-9, 9) * .1 for _ in range(m)] for _ in range(n)]
    if kind == 'large':
        base = rng.choice([1e6, 1e8, 12345678.5])
        return [[base + rng.randint(0, 4) for _ in range(m)]
                for _ in range(n)]
    return [[rng.uniform(-5, 5) for _ in range(m)] for _ in range(n)]


KINDS_OF_X = ['int', 'int', 'bool', 'tenth', 'large', 'float']


def distances(X, pt):
    return [sum((Fraction(a) - Fraction(b)) ** 2 for a, b in zip(r, pt))
            for r in X]


def neighbourSets(d, k):
    """Every set of k nearest points, values closer together than the
    arithmetic can distinguish count as equal."""
    order = sorted(range(len(d)), key=lambda i: d[i])
    k = min(k, len(d))
    last = d[order[k - 1]]
    eps = max(last, max(d) * Fraction(1, 10 ** 14)) * Fraction(1, 10 ** 9)
    eps = max(eps, Fraction(1, 10 ** 18))
    sure = [i for i in order if d[i] < last - eps]
    edge = [i for i in order if last - eps <= d[i] <= last + eps]
    need = k - len(sure)
    tie = len(edge) > need
    if math.comb(len(edge), need) > 300:
        return None, tie
    return [sure + list(c) for c in combinations(edge, need)], tie


def knnLabels(d, y, k):
    """The labels the definition allows, and whether there was a tie."""
    sets, tie = neighbourSets(d, k)
    if sets is None:
        return None, True
    allowed = set()
    for s in sets:
        votes = {}
        for i in s:
            votes[y[i]] = votes.get(y[i], 0) + 1
        top = max(votes.values())
        best = {l for l, c in votes.items() if c == top}
        if len(best) > 1:
            tie = True
            near = min(d[i] for i in s)
            eps = near * Fraction(1, 10 ** 9) + Fraction(1, 10 ** 18)
            # the nearest of all or the nearest of the tied labels
            allowed |= {y[i] for i in range(len(d)) if d[i] <= near + eps}
            inTie = min(d[i] for i in s if y[i] in best)
            allowed |= {y[i] for i in s if y[i] in best and
                        d[i] <= inTie + inTie * Fraction(1, 10 ** 9) +
                        Fraction(1, 10 ** 18)}
        else:
            allowed |= best
    return allowed, tie


def mergeForms(ctx, X, y, ty):
    """The training data with the labels apart, or inside of it."""
    rng = ctx.rng
    if rng.random() < .6:
        xo, tx = build(ctx, X)
        yo, tl = build(ctx, [[v] for v in y], fn=names(rng, 1, 'label'))
        return xo, yo, f'{tx} and {tl}'
    pos = rng.randint(0, len(X[0]))
    rows = [r[:pos] + [v] + r[pos:] for r, v in zip(X, y)]
    fn = [f'f{i}' for i in range(len(X[0]))]
    fn.insert(pos, 'label')
    xo, tx = build(ctx, rows, fn=fn)
    return xo, rng.choice([pos, 'label', pos - len(fn)]), \
        f'{tx} with the labels in {pos}'


def unchanged(ctx, key, label, before, objs):
    for b, o in zip(before, objs):
        d = frozenDiff(b, freeze(o))
        ctx.check(d is None, key + ':argument', lambda: f'{label}: argument '
                  f'{d}')


def labelPool(rng):
    return rng.choice([[0, 1], [1, 2, 3], ['a', 'b'], ['x', 'y', 'z'],
                       [-1., 2.5], [False, True]])


def sameLabel(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    return float(a) == float(b)


def knnCase(ctx):
    rng = ctx.rng
    nb = ctx.nimble
    kind = rng.choice(KINDS_OF_X)
    n, m, q = rng.randint(1, 9), rng.randint(1, 4), rng.randint(1, 5)
    X = grid(rng, n, m, kind)
    if rng.random() < .4 and n > 1:
        X[rng.randrange(n)] = list(X[rng.randrange(n)])
    T = grid(rng, q, m, kind)
    if rng.random() < .5:
        T[rng.randrange(q)] = list(X[rng.randrange(n)])
    if kind == 'large':
        T = [[v - T[0][j] + X[0][j] for j, v in enumerate(r)] for r in T]
    y = [rng.choice(labelPool(rng) if False else pool_) for pool_ in
         [labelPool(rng)] * n]
    k = rng.choice([1, 2, 3, 3, 5, 5, n, n + 2])
    kw = {} if k == 5 and rng.random() < .5 else {'k': k}
    xo, yo, how = mergeForms(ctx, X, y, None)
    to, tt = build(ctx, T)
    learner = rng.choice(['nimble.KNNClassifier', 'Nimble.KNNClassifier',
                          'class'])
    if learner == 'class':
        learner = nb.learners.KNNClassifier
    label = f'KNNClassifier({how}: {X} -> {y}, test {tt} {T}, k={k})'
    ctx.log(label)
    ctx.state('knn', kind, how, tt, k > n)
    objs = [o for o in (xo, yo, to) if hasattr(o, 'getTypeString')]
    before = [freeze(o) for o in objs]
    allowed, ties = zip(*[knnLabels(distances(X, p), y, k) for p in T])
    ctx.event('knn_ties', sum(ties))
    route = rng.choice(['trainAndApply', 'train', 'train', 'scores', 'test'])
    key = 'knn:' + route
    if route == 'trainAndApply':
        res = must(ctx, key, label, lambda: nb.trainAndApply(
            learner, xo, yo, to, useLog=False, **kw))
    else:
        tl = must(ctx, key, label, lambda: nb.train(learner, xo, yo,
                                                    useLog=False, **kw))
        if rng.random() < .3 and not any('View' in type(o).__name__
                                         for o in objs):
            # the data used for training is not part of the learner
            for o in objs[:-1]:
                if 0 not in o.shape and rng.random() < .7:
                    o.points.sort(by=lambda pt: rng.random(), useLog=False)
            before = [freeze(o) for o in objs]
        if route == 'test':
            perf = nb.calculate.fractionIncorrect
            if any(a is None or len(a) > 1 for a in allowed):
                return
            truth = [rng.choice(sorted(set(y))) for _ in T]
            tv, _ = build(ctx, [[v] for v in truth])
            got = must(ctx, key, label, lambda: tl.test(perf, to, tv,
                                                        useLog=False))
            exp = sum(not sameLabel(t, next(iter(a))) for t, a in
                      zip(truth, allowed)) / q
            ctx.check(abs(got - exp) < 1e-12, key, lambda: f'{label} tested '
                      f'with {truth} gave {got}, the labels {allowed} give '
                      f'{exp}')
            ctx.event('knn_points', q)
            unchanged(ctx, key, label, before, objs)
            return
        res = must(ctx, key, label, lambda: tl.apply(to, useLog=False))
    ctx.check(list(res.shape) == [q, 1], key + ':shape', lambda:
              f'{label} has the shape {res.shape}')
    got = [r[0] for r in model.rawRows(res)]
    for p, g, a in zip(T, got, allowed):
        ctx.event('knn_points')
        if a is None:
            continue
        ctx.check(any(sameLabel(g, v) for v in a), key, lambda: f'{label}: '
                  f'{p} was labelled {g!r}, the nearest give {a}')
    if route == 'scores':
        sc = must(ctx, key, label, lambda: tl.apply(to, scoreMode='allScores',
                                                    useLog=False))
        classes = sorted(set(y))
        rows = model.rawRows(sc)
        ctx.check(list(sc.shape) == [q, len(classes)], key + ':shape',
                  lambda: f'{label} scores {rows} for {classes}')
        for p, row in zip(T, rows):
            ctx.event('knn_scores')
            sets, _ = neighbourSets(distances(X, p), k)
            if sets is None:
                continue
            ok = [[sum(y[i] == c for i in s) for c in classes] for s in sets]
            ctx.check([int(v) for v in row] in ok, key, lambda: f'{label}: '
                      f'the votes at {p} are {row}, expected {ok[:5]}')
    unchanged(ctx, key, label, before, objs)


def imputation(X, T, m, k, mode):
    """The rows of T with the sets of allowed values in the holes, None
    where there are too many ties; None without enough neighbours."""
    exp = []
    for r in T:
        hole = [j for j in range(m) if isNan(r[j])]
        keep = [j for j in range(m) if j not in hole]
        row = list(r)
        for j in hole:
            use = [s for s in X if not any(isNan(s[c]) for c in keep + [j])]
            if len(use) < k:
                return None
            d = distances([[s[c] for c in keep] for s in use],
                          [r[c] for c in keep])
            sets, _ = neighbourSets(d, k)
            if sets is None:
                row[j] = None
                continue
            vals = []
            for s in sets:
                col = [use[i][j] for i in s]
                if mode == 'regression':
                    vals.append(sum(col) / k)
                else:
                    top = max(col.count(v) for v in col)
                    vals += [v for v in col if col.count(v) == top]
            row[j] = set(vals)
        exp.append(row)
    return exp


def imputeCase(ctx):
    rng = ctx.rng
    nb = ctx.nimble
    n, m = rng.randint(4, 8), rng.randint(2, 4)
    mode = rng.choice(['regression', 'classification'])
    kind = rng.choice(['float', 'int', 'tenth'])
    X = grid(rng, n, m, kind)
    k = rng.choice([1, 2, 3])

    def holes(rows, most):
        for _ in range(rng.randint(0, most)):
            r = rng.choice(rows)
            j = rng.randrange(m)
            if sum(isNan(v) for v in r) < m - 1:
                r[j] = NAN

    holes(X, 3)
    other = rng.random() < .55
    if other:
        T = grid(rng, rng.randint(1, 6), m, kind)
        holes(T, 5)
    else:
        T = [list(r) for r in X]
    if mode == 'classification' and kind != 'int':
        return
    exp = imputation(X, T, m, k, mode)
    # every needed regression has enough neighbours
    if exp is None or imputation(X, X, m, k, mode) is None:
        return
    xo, tx = build(ctx, X)
    to, tt = build(ctx, T) if other else (xo, tx)
    label = f'KNNImputation({tx} {X}, test {tt} {T if other else "same"}, ' \
            f'k={k}, {mode})'
    ctx.log(label)
    route = rng.choice(['apply', 'normalize', 'fill'] if not other else
                       ['apply', 'normalize', 'apply'])
    ctx.state('impute', tx, tt, mode, kind, route)
    key = 'impute:' + route
    before = [freeze(xo), freeze(to)]
    kw = {'k': k, 'mode': mode, 'useLog': False}
    name = 'nimble.KNNImputation'
    if route == 'fill':
        if 'View' in type(xo).__name__:
            xo = xo.copy()
        must(ctx, key, label, lambda: nb.fillMatching(
            name, nb.match.missing, xo, **kw))
        res = xo
    elif route == 'normalize':
        res = must(ctx, key, label, lambda: nb.normalizeData(
            name, xo, testX=to, **kw))[1]
    else:
        tl = must(ctx, key, label, lambda: nb.train(name, xo, **kw))
        if rng.random() < .3:
            # another application in between has no effect
            must(ctx, key, label, lambda: tl.apply(xo, useLog=False))
        res = must(ctx, key, label, lambda: tl.apply(to, useLog=False))
    ctx.event('imputed')
    if other:
        ctx.event('imputed_other')
    got = model.rawRows(res)
    ctx.check(len(got) == len(exp), key + ':shape', lambda: f'{label} has '
              f'{len(got)} points')
    for g, e in zip(got, exp):
        for j in range(m):
            if e[j] is None:
                continue
            want = e[j] if isinstance(e[j], set) else {e[j]}
            ctx.check(not isNan(g[j]) and
                      any(abs(g[j] - w) <= 1e-9 * max(1, abs(w))
                          for w in want), key, lambda: f'{label}: {g} where '
                      f'the definition gives {e}')
    if route != 'fill':
        unchanged(ctx, key, label, before, [xo, to])
        ctx.check(res.points.getNames() == to.points.getNames() and
                  res.features.getNames() == to.features.getNames(),
                  key + ':names', lambda: f'{label} has the names '
                  f'{res.points.getNames()}, {res.features.getNames()}')


def fullRank(rng, n, m, kind):
    for _ in range(30):
        X = grid(rng, n, m, kind)
        A = np.array(X, float)
        if np.linalg.matrix_rank(A) == m and np.linalg.cond(A) < 1e3:
            return X
    return None


def ridgeCase(ctx):
    rng = ctx.rng
    nb = ctx.nimble
    m = rng.randint(1, 3)
    n, q, out = rng.randint(m, m + 5), rng.randint(1, 4), rng.randint(1, 3)
    which = rng.choice(['RidgeRegression', 'MultiOutputRidgeRegression',
                        'MultiOutputLinearRegression'])
    if which == 'RidgeRegression':
        out = 1
    lamb = rng.choice([0, 0, 1, .5, 10])
    kind = rng.choice(['int', 'tenth', 'float', 'bool'])
    if lamb and rng.random() < .3:
        X = grid(rng, n, m, kind)
    else:
        X = fullRank(rng, n, m, kind)
        if X is None:
            return
    Y = grid(rng, n, out, rng.choice(['int', 'tenth', 'float', 'bool']))
    T = grid(rng, q, m, kind)
    kw = {'lamb': lamb} if 'Ridge' in which else {}
    if kw and lamb == 0 and rng.random() < .5:
        kw = {}
    A, B = np.array(X, float), np.array(Y, float)
    if 'Ridge' in which:
        W = np.linalg.solve(A.T @ A + lamb * np.eye(m), A.T @ B)
        exp = np.array(T, float) @ W
    else:
        A1 = np.hstack([A, np.ones((n, 1))])
        if np.linalg.matrix_rank(A1) < m + 1 or np.linalg.cond(A1) > 1e3:
            return
        W = np.linalg.pinv(A1) @ B
        exp = np.hstack([np.array(T, float), np.ones((q, 1))]) @ W
    if out == 1:
        xo, yo, how = mergeForms(ctx, X, [r[0] for r in Y], None)
    else:
        xo, tx = build(ctx, X)
        yo, ty = build(ctx, Y)
        how = f'{tx} and {ty}'
    to, tt = build(ctx, T)
    label = f'{which}({how}: {X} -> {Y}, test {tt} {T}, {kw})'
    ctx.log(label)
    ctx.state(which, how, tt, kind, bool(lamb), out)
    objs = [o for o in (xo, yo, to) if hasattr(o, 'getTypeString')]
    before = [freeze(o) for o in objs]
    name = 'nimble.' + which
    if rng.random() < .5:
        res = must(ctx, which, label, lambda: nb.trainAndApply(
            name, xo, yo, to, useLog=False, **kw))
    else:
        tl = must(ctx, which, label, lambda: nb.train(
            name, xo, yo, useLog=False, **kw))
        if which == 'RidgeRegression':
            w = tl.getAttributes().get('w')
            ctx.check(w is not None and np.allclose(
                np.ravel(w), W.ravel(), rtol=1e-6, atol=1e-8), which +
                ':attributes', lambda: f'{label} learned {w}, the definition '
                f'gives {W.tolist()}')
        res = must(ctx, which, label, lambda: tl.apply(to, useLog=False))
    rows = np.array(model.rawRows(res), float)
    ctx.check(rows.shape == exp.shape and np.allclose(
        rows, exp, rtol=1e-6, atol=1e-7 * max(1, np.abs(exp).max())), which,
        lambda: f'{label} gave {rows.tolist()}, the definition gives '
        f'{exp.tolist()}')
    unchanged(ctx, which, label, before, objs)
    ctx.event('ridge' if out == 1 else 'multi')


# -- custom learners ---------------------------------------------------------

POOL = ['alpha', 'beta', 'gamma', 'depth']
MISSING = object()


def makeLearner(nimble, lType, trainP, applyP, seen, output,
                incremental=None):
    """A recording custom learner with the given parameters: lists of
    (name, default)."""
    def sig(params):
        return ''.join(f', {n}' if d is MISSING else f', {n}={d!r}'
                       for n, d in params)

    def bag(params):
        return '{' + ', '.join(f'{n!r}: {n}' for n, _ in params) + '}'

    src = ['class Recorder(nimble.CustomLearner):',
           f'    learnerType = {lType!r}']
    if incremental != 'only':
        src += [f'    def train(self, trainX, trainY{sig(trainP)}):',
                f'        self.kept = {bag(trainP)}',
                f'        seen.append(("train", trainX, trainY, '
                f'{bag(trainP)}, self))']
    if incremental:
        src += [f'    def incrementalTrain(self, trainX, trainY'
                f'{sig(trainP if incremental == "only" else [])}):',
                f'        seen.append(("incremental", trainX, trainY, '
                f'{bag(trainP if incremental == "only" else [])}, self))']
    src += [f'    def apply(self, testX{sig(applyP)}):',
            f'        seen.append(("apply", testX, None, {bag(applyP)}, '
            'self))',
            '        return output(testX)']
    space = {'nimble': nimble, 'seen': seen, 'output': output}
    exec('\n'.join(src), space)  # pylint: disable=exec-used
    return space['Recorder'], '\n'.join(src)


def rowsOf(x):
    return model.rawRows(x)


def equalRows(a, b):
    return len(a) == len(b) and all(
        len(r) == len(s) and all(model.same(u, v) for u, v in zip(r, s))
        for r, s in zip(a, b))


def customCase(ctx):
    """What the methods of a custom learner receive."""
    rng = ctx.rng
    nb = ctx.nimble
    seen = []
    lType = rng.choice(['regression', 'classification', 'transformation',
                        'cluster', 'undefined'])
    pool = list(POOL)
    rng.shuffle(pool)

    def params(some):
        return sorted([(n, MISSING if rng.random() < .25 else
                        rng.choice([1, 2.5, None, 'text', [1, 2]]))
                       for n in some], key=lambda p: p[1] is not MISSING)

    trainP = params(pool[:rng.randint(0, 2)])
    shared = rng.random() < .35
    start = rng.randint(0, 1) if shared else len(trainP)
    applyP = params(pool[start:start + rng.randint(0, 2)])
    if shared and set(n for n, _ in trainP) & set(n for n, _ in applyP):
        ctx.event('shared_names')
    supervised = lType in ('regression', 'classification') or \
        rng.random() < .3
    n, m, q = rng.randint(2, 5), rng.randint(1, 3), rng.randint(1, 4)
    X = grid(rng, n, m, rng.choice(['int', 'float', 'tenth']))
    T = grid(rng, q, m, rng.choice(['int', 'float', 'tenth']))
    pool_ = labelPool(rng) if lType == 'classification' else [1, 2.5, -3]
    y = [rng.choice(pool_) for _ in range(n)]
    form = rng.choice(['list', 'numpy', 'nimble', 'frame', 'sparse', 'view',
                       'self'])
    base = [[rng.choice(pool_)] for _ in T]
    if lType == 'transformation' and form in ('list', 'numpy', 'frame') and \
            rng.random() < .6:
        # several features, text in the first point only looks like names
        w = rng.randint(1, 3)
        base = [rng.sample(['a', 'bb', 'c d', 'x1'], w)] + \
            [[rng.choice([0, 2.5, 7]) for _ in range(w)] for _ in T[1:]]
        ctx.event('text_first_outputs')
    held = []

    def output(testX):
        k = len(testX.points)
        rows = [base[i % len(base)] for i in range(k)]
        if form == 'list':
            return [list(r) for r in rows]
        if form == 'numpy':
            return np.array(rows, dtype=object if isinstance(
                rows[0][0], str) else None)
        if form == 'frame':
            import pandas as pd
            return pd.DataFrame(rows)
        if form == 'sparse' and isNumber(rows[0][0]) and \
                not isinstance(rows[0][0], bool):
            import scipy.sparse as sp
            return sp.coo_matrix(np.array(rows, dtype=float))
        if form == 'self':
            return testX
        if form == 'view':
            o = nb.data([list(r) + [0] for r in rows], useLog=False,
                        featureNames=['own', 'other'])
            held.append(o)
            return o[:, 0]
        o = nb.data([list(r) for r in rows], useLog=False,
                    featureNames=['own'])
        held.append(o)
        return o

    if form == 'self' and m != 1 and lType in ('regression',
                                               'classification'):
        form = 'nimble'
    cls, src = makeLearner(nb, lType, trainP, applyP, seen, output)
    given = {}
    for p, d in trainP + applyP:
        if (d is MISSING or rng.random() < .5) and p not in given:
            given[p] = rng.choice([3, 'v', None, [4], {'a': 1}, 0.])
    kw, argD = {}, {}
    for p, v in given.items():
        (kw if rng.random() < .6 else argD)[p] = v
    extra = {'arguments': dict(argD)} if argD or rng.random() < .3 else {}
    late = {}
    if supervised:
        xo, yo, how = mergeForms(ctx, X, y, None)
    else:
        xo, tx = build(ctx, X)
        yo, how = None, f'{tx} alone'
    same = rng.random() < .15
    to, tt = (xo, 'same') if same and yo is None else build(ctx, T)
    testRows = X if to is xo else T
    label = f'{src}\non {how}: {X} -> {y if supervised else None}, test ' \
            f'{tt} {testRows}, arguments {argD}, keywords {kw}, ' \
            f'output as {form}'
    ctx.log(label)
    ctx.state('custom', lType, len(trainP), len(applyP), shared, form, tt,
              how.split()[0])
    key = 'custom'
    objs = [o for o in (xo, yo, to) if hasattr(o, 'getTypeString')]
    before = [freeze(o) for o in objs] + [freeze(argD)]
    route = rng.choice(['train', 'train', 'trainAndApply'])
    needsLate = False
    if route == 'trainAndApply':
        res = must(ctx, key, label, lambda: nb.trainAndApply(
            cls, xo, yo, to, useLog=False, **extra, **kw))
    else:
        tl = must(ctx, key, label, lambda: nb.train(
            cls, xo, yo, useLog=False, **extra, **kw))
        for p, d in applyP:
            if rng.random() < .4:
                late[p] = rng.choice(['late', 17, None])
        res = must(ctx, key, label, lambda: tl.apply(to, useLog=False,
                                                     **late))
        needsLate = True
    ctx.event('custom_calls')
    if {n for n, _ in applyP} - {n for n, _ in trainP}:
        ctx.event('apply_only')
    kinds = [s[0] for s in seen]
    ctx.check(kinds == ['train', 'apply'], key + ':calls', lambda: f'{label} '
              f'made the calls {kinds}')
    tr, ap = seen
    ctx.check(tr[4] is ap[4], key + ':calls', lambda: f'{label}: apply of '
              'another object')
    # arguments
    for what, call_, params_ in (('train', tr, trainP), ('apply', ap,
                                                         applyP)):
        for p, d in params_:
            exp = given.get(p, d)
            if what == 'apply' and p in late:
                exp = late[p]
            got = call_[3][p]
            ctx.check(freeze(got) == freeze(exp) and
                      type(got) is type(exp), key + f':{what}-argument',
                      lambda: f'{label}: {what} received {p}={got!r}, '
                      f'expected {exp!r} (late {late})')
    # data
    ctx.check(equalRows(rowsOf(tr[1]), X), key + ':trainX', lambda:
              f'{label}: trainX is {short(tr[1])}')
    ctx.check(equalRows(rowsOf(ap[1]), testRows), key + ':testX', lambda:
              f'{label}: testX is {short(ap[1])}')
    ctx.check(tr[1].getTypeString() == xo.getTypeString() and
              ap[1].getTypeString() == to.getTypeString(), key + ':type',
              lambda: f'{label}: {short(tr[1])}, {short(ap[1])}')
    if supervised:
        ctx.check(hasattr(tr[2], 'getTypeString') and
                  equalRows(rowsOf(tr[2]), [[v] for v in y]), key +
                  ':trainY', lambda: f'{label}: trainY is {short(tr[2])}')
    else:
        ctx.check(tr[2] is None, key + ':trainY', lambda: f'{label}: trainY '
                  f'is {short(tr[2])}')
    if lType == 'classification':
        labs = list(tr[4].labelList)
        want = sorted(set(y))
        ctx.check(len(labs) == len(want) and
                  all(sameLabel(a, b) for a, b in zip(labs, want)), key +
                  ':labelList', lambda: f'{label}: labelList is {labs}')
        ctx.event('label_lists')
    # the output
    exp = testRows if form == 'self' else [base[i % len(base)]
                                           for i in range(len(testRows))]
    ctx.event('outputs')
    if form == 'self':
        ctx.event('identity')
    ctx.check(equalRows(rowsOf(res), [[_loose(v) for v in r] for r in exp]) or
              equalRows(rowsOf(res), exp), key + ':output', lambda:
              f'{label} gave {short(res)}, apply returned {exp}')
    ctx.check(all(res is not o for o in objs), key + ':output-alias', lambda:
              f'{label} gave the object of the user')
    pn = to.points._getNamesNoGeneration()
    ctx.check(pn is None or res.points.getNames() == to.points.getNames(),
              key + ':output-names', lambda: f'{label} has the point names '
              f'{res.points.getNames()}')
    for o in held:
        ctx.check(o.features.getNames()[0] == 'own' and
                  all(p is None for p in o.points.getNames()), key +
                  ':output-alias', lambda: f'{label}: an object kept by the '
                  f'learner was renamed {o.features.getNames()} '
                  f'{o.points.getNames()}')
    unchanged(ctx, key, label, before, objs + [argD])
    if needsLate and rng.random() < .5:
        # another application starts from the arguments of the training
        must(ctx, key, label, lambda: tl.apply(to, useLog=False))
        for p, d in applyP:
            exp = given.get(p, d)
            ctx.check(freeze(seen[-1][3][p]) == freeze(exp), key +
                      ':apply-again', lambda: f'{label}: a second apply '
                      f'received {p}={seen[-1][3][p]!r}, expected {exp!r} '
                      f'(first {late})')
    if needsLate and applyP and rng.random() < .5:
        from nimble.exceptions import NimbleException
        st, r = call(ctx, lambda: tl.apply(to, notThere=1, useLog=False))
        ctx.check(st == 'exc' and isinstance(r, NimbleException), key +
                  ':unknown', lambda: f'{label}: apply with an unknown '
                  f'argument gave {r!r}')
    if needsLate and trainP and rng.random() < .6:
        again = {p: rng.choice(['again', 5]) for p, d in trainP
                 if rng.random() < .7 and p not in dict(applyP)}
        if supervised:
            yo2, _ = build(ctx, [[v] for v in y])
            xo2, _ = build(ctx, X)
        else:
            xo2, yo2 = build(ctx, X)[0], None
        if supervised and (xo2.shape != tr[1].shape):
            return
        must(ctx, key + ':retrain', label, lambda: tl.retrain(
            xo2, yo2, useLog=False, **again))
        ctx.event('retrained')
        for p, d in trainP:
            exp = again.get(p, given.get(p, d))
            ctx.check(seen[-1][0] == 'train' and
                      freeze(seen[-1][3][p]) == freeze(exp), key + ':retrain',
                      lambda: f'{label}: retrain with {again} received '
                      f'{p}={seen[-1][3].get(p)!r}, expected {exp!r}')


def _loose(v):
    return float(v) if isNumber(v) and not isinstance(v, bool) else v


def scoreCase(ctx):
    """Scores of a custom classifier, in every score mode."""
    rng = ctx.rng
    nb = ctx.nimble
    pool = labelPool(rng)
    n, q = rng.randint(4, 7), rng.randint(1, 4)
    y = [rng.choice(pool) for _ in range(n)]
    classes = sorted(set(y))
    X, T = grid(rng, n, 2, 'int'), grid(rng, q, 2, 'int')
    a, b = rng.randint(1, 10), rng.randint(1, 10)

    def score(row, count):
        return [(int(sum(row) * a) + j * b) % 11 + j / 100
                for j in range(count)]

    raw = [score(r, len(classes)) for r in T]
    labels = [classes[max(range(len(classes)), key=lambda j: r[j])]
              for r in raw]
    form = rng.choice(['nimble', 'numpy', 'list'])
    kept = []

    class Scorer(nb.CustomLearner):
        learnerType = 'classification'

        def train(self, trainX, trainY):
            pass

        def scoreRows(self, testX):
            return [score(r, len(self.labelList)) for r in rowsOf(testX)]

        def apply(self, testX):
            out = nb.data([[self.labelList[max(range(len(r)),
                                               key=lambda j: r[j])]]
                           for r in self.scoreRows(testX)], useLog=False)
            kept.append((out, rowsOf(out)))
            return out

        def getScores(self, testX):
            rows = self.scoreRows(testX)
            if form == 'nimble':
                return nb.data(rows, useLog=False)
            return np.array(rows) if form == 'numpy' else rows

    cls = Scorer
    xo, yo, how = mergeForms(ctx, X, y, None)
    to, tt = build(ctx, T)
    label = f'custom classifier of {y}, scores {raw} as {form}, test {tt}'
    ctx.log(label)
    ctx.state('scores', form, tt, len(classes), str(type(pool[0])))
    tl = must(ctx, 'scores', label, lambda: nb.train(cls, xo, yo,
                                                     useLog=False))
    ctx.event('scores_given')
    modes = ['allScores', 'bestScore', None, 'bestScore']
    rng.shuffle(modes)
    for mode in modes:
        res = must(ctx, 'scores', f'{label} mode {mode}', lambda: tl.apply(
            to, scoreMode=mode, useLog=False))
        got = rowsOf(res)
        if mode == 'allScores':
            exp = raw
            fn = res.features.getNames()
            ctx.check(len(fn) == len(classes) and all(
                f == str(c) or isNumber(c) and not isinstance(c, str) and
                _asNumber(f) == float(c) for f, c in zip(fn, classes)),
                'scores:names', lambda: f'{label}: all scores of {classes} '
                f'are named {fn}')
        elif mode == 'bestScore':
            exp = [[l, max(r)] for l, r in zip(labels, raw)]
        else:
            exp = [[l] for l in labels]
        ctx.check(equalRows(got, exp) or all(
            len(g) == len(e) and all(sameLabel(u, v) for u, v in zip(g, e))
            for g, e in zip(got, exp)) and len(got) == len(exp),
            f'scores:{mode}', lambda: f'{label}: mode {mode} gave {got}, '
            f'expected {exp}')
    for o, was in kept:
        ctx.check(equalRows(rowsOf(o), was), 'scores:kept', lambda:
                  f'{label}: the labels kept by the learner became '
                  f'{rowsOf(o)}')


def _asNumber(s):
    try:
        return {'True': 1., 'False': 0.}.get(s, None) if s in \
            ('True', 'False') else float(s)
    except ValueError:
        return None


def incrementalCase(ctx):
    """Training step by step."""
    rng = ctx.rng
    nb = ctx.nimble
    seen = []
    lType = rng.choice(['regression', 'classification'])
    how = rng.choice(['only', 'both'])
    pool = labelPool(rng) if lType == 'classification' else [1, 2, 3.5]
    trainP = [('alpha', 1)] if rng.random() < .6 else []
    cls, src = makeLearner(nb, lType, trainP, [], seen,
                           lambda testX: [[0]] * len(testX.points),
                           incremental=how)
    m = rng.randint(1, 3)
    batches = []
    for _ in range(rng.randint(2, 4)):
        n = rng.randint(1, 4)
        batches.append((grid(rng, n, m, 'int'),
                        [rng.choice(pool) for _ in range(n)]))
    kw = {'alpha': 9} if trainP and rng.random() < .6 else {}
    label = f'{src}\nbatches {batches}, {kw}'
    ctx.log(label)
    ctx.state('incremental', lType, how, len(batches), bool(kw))
    ctx.event('incremental')
    key = 'incremental'
    labels = set()
    tl = None
    for i, (X, y) in enumerate(batches):
        xo, _ = build(ctx, X)
        yo, _ = build(ctx, [[v] for v in y])
        labels |= set(y)
        before = [freeze(xo), freeze(yo)]
        if tl is None:
            tl = must(ctx, key, label, lambda: nb.train(cls, xo, yo,
                                                        useLog=False, **kw))
            want = 'incremental' if how == 'only' else 'train'
        else:
            must(ctx, key, label, lambda: tl.incrementalTrain(xo, yo,
                                                              useLog=False))
            want = 'incremental'
        ctx.check(len(seen) == i + 1 and seen[-1][0] == want, key + ':calls',
                  lambda: f'{label}: step {i} made the calls '
                  f'{[s[0] for s in seen]}')
        s = seen[-1]
        ctx.check(s[4] is seen[0][4], key + ':object', lambda: f'{label}: '
                  f'step {i} used another learner object')
        ctx.check(equalRows(rowsOf(s[1]), X) and
                  equalRows(rowsOf(s[2]), [[v] for v in y]), key + ':data',
                  lambda: f'{label}: step {i} received {short(s[1])}, '
                  f'{short(s[2])}')
        if trainP and (i == 0 or how == 'only'):
            ctx.check(s[3].get('alpha') == kw.get('alpha', 1), key +
                      ':argument', lambda: f'{label}: step {i} received '
                      f'{s[3]}')
        if lType == 'classification':
            got = list(s[4].labelList)
            ctx.check(len(got) == len(labels) and all(
                sameLabel(a, b) for a, b in zip(got, sorted(labels))), key +
                ':labelList', lambda: f'{label}: after step {i} labelList is '
                f'{got}')
        unchanged(ctx, key, label, before, [xo, yo])


def strategyCase(ctx):
    """Training step by step with one learner per label or pair."""
    rng = ctx.rng
    nb = ctx.nimble
    seen = []
    method = rng.choice(['OneVsAll', 'OneVsOne'])
    pool = labelPool(rng)
    cls, src = makeLearner(nb, 'classification', [], [], seen,
                           lambda testX: [[0]] * len(testX.points),
                           incremental=rng.choice(['only', 'both']))
    m = rng.randint(1, 3)
    n = rng.randint(len(set(pool)) + 1, 8)
    y = [pool[i % len(pool)] for i in range(n)]
    rng.shuffle(y)
    X = grid(rng, n, m, 'int')
    key = 'strategy'
    label = f'{src} {method} {X} {y}'
    xo, _ = build(ctx, X)
    yo, _ = build(ctx, [[v] for v in y])
    tl = must(ctx, key, label, lambda: nb.train(
        cls, xo, yo, multiClassStrategy=method, useLog=False))
    first = list(seen)
    labels = sorted(set(y), key=str)

    def expected(rows, lab):
        if method == 'OneVsAll':
            return [(rows, [[1 if sameLabel(v, c) else 0] for v in lab])
                    for c in labels]
        out = []
        for i, a in enumerate(labels):
            for b in labels[i + 1:]:
                keep = [k for k, v in enumerate(lab)
                        if sameLabel(v, a) or sameLabel(v, b)]
                if keep:
                    out.append(([rows[k] for k in keep],
                                [[lab[k]] for k in keep]))
        return out

    def verify(what, calls, want):
        left = list(want)
        for c in calls:
            hit = next((w for w in left if equalRows(rowsOf(c[1]), w[0]) and
                        equalRows(rowsOf(c[2]), w[1])), None)
            ctx.check(hit is not None, f'{key}:{what}-data', lambda: f'{label}'
                      f': a learner received {short(c[1])}, {short(c[2])}; '
                      f'expected one of {left}')
            left.remove(hit)
        ctx.check(not left, f'{key}:{what}-missing', lambda: f'{label}: no '
                  f'learner received {left}')
    verify('train', first, expected(X, y))
    for _ in range(rng.randint(1, 2)):
        k = rng.randint(1, 5)
        X2 = grid(rng, k, m, 'int')
        y2 = [rng.choice(y) for _ in range(k)]
        known = True
        if rng.random() < .2:
            y2[-1] = 'neverSeen' if isinstance(y2[0], str) else 987
            known = False
        xo, _ = build(ctx, X2)
        yo, _ = build(ctx, [[v] for v in y2])
        before = [freeze(xo), freeze(yo)]
        del seen[:]
        label += f' then {X2} {y2}'
        ctx.log(label)
        if not known:
            st, res = call(ctx, lambda: tl.incrementalTrain(xo, yo,
                                                            useLog=False))
            ctx.check(st == 'exc' and not seen, f'{key}:unknown-label',
                      lambda: f'{label}: {res!r}, {len(seen)} learners '
                      'trained')
        else:
            if rng.random() < .3:
                both = xo.copy()
                both.points.setNames(None, useLog=False)
                lab = yo.copy(to=both.getTypeString()) if \
                    isNumber(y2[0]) or both.getTypeString() != 'Sparse' \
                    else None
                if lab is None:
                    continue
                lab.points.setNames(None, useLog=False)
                lab.features.setNames(['theLabels'], useLog=False)
                both.features.append(lab, useLog=False)
                must(ctx, key, label, lambda: tl.incrementalTrain(
                    both, 'theLabels', useLog=False))
            else:
                must(ctx, key, label, lambda: tl.incrementalTrain(
                    xo, yo, useLog=False))
            verify('incremental', seen, expected(X2, y2))
            old = {id(c[4]) for c in first}
            ctx.check(all(id(c[4]) in old for c in seen), f'{key}:object',
                      lambda: f'{label}: other learner objects were used')
            ctx.event('strategy_steps')
        unchanged(ctx, key, label, before, [xo, yo])
    ctx.state('strategy', method, len(labels))


def signatureCase(ctx):
    """Learner queries of random signatures; unacceptable classes."""
    rng = ctx.rng
    nb = ctx.nimble
    some = list(POOL)
    rng.shuffle(some)
    trainP = [(p, rng.choice([1, None, 'x', 2.5])) for p in
              some[:rng.randint(0, 2)]]
    applyP = [(p, rng.choice([1, None, 'x', 2.5])) for p in some[2:
              2 + rng.randint(0, 2)]]
    need = rng.random() < .3 and trainP
    if need:
        trainP[0] = (trainP[0][0], MISSING)
    lType = rng.choice(['regression', 'classification', 'transformation',
                        'cluster', 'undefined'])
    cls, src = makeLearner(nb, lType, trainP, applyP, [],
                           lambda t: [[0]] * len(t.points))
    label = src
    ctx.log(label)
    ctx.state('signature', lType, len(trainP), len(applyP), bool(need))
    ctx.event('signatures')
    got = must(ctx, 'signature', label, lambda: nb.learnerParameters(cls))
    want = {p for p, _ in trainP + applyP}
    ctx.check(set(got or []) == want, 'signature:parameters', lambda:
              f'{label}: learnerParameters gives {got}')
    got = must(ctx, 'signature', label, lambda:
               nb.learnerParameterDefaults(cls))
    exp = {p: d for p, d in trainP + applyP if d is not MISSING}
    ctx.check(dict(got or {}) == exp, 'signature:defaults', lambda:
              f'{label}: learnerParameterDefaults gives {got}')
    ctx.check(must(ctx, 'signature', label, lambda: nb.learnerType(cls)) ==
              lType, 'signature:type', lambda: f'{label}: learnerType')
    X, _ = build(ctx, [[1, 2], [3, 4]])
    Y, _ = build(ctx, [[1], [2]])
    from nimble.exceptions import NimbleException
    if need:
        st, r = call(ctx, lambda: nb.train(cls, X, Y, useLog=False))
        ctx.check(st == 'exc' and isinstance(r, (NimbleException,
                                                 TypeError)),
                  'signature:required', lambda: f'{label}: training without '
                  f'the required parameter gave {r!r}')
    st, r = call(ctx, lambda: nb.train(cls, X, Y, nothing=1, useLog=False,
                                       **{p: 1 for p, d in trainP}))
    ctx.check(st == 'exc' and isinstance(r, NimbleException),
              'signature:unknown', lambda: f'{label}: training with an '
              f'unknown argument gave {r!r}')
    bad = rng.choice(['type', 'train', 'apply', 'none', 'init', 'scores'])
    body = {'type': "    learnerType = 'magic'\n"
            "    def train(self, trainX, trainY): pass\n"
            "    def apply(self, testX): return testX",
            'train': "    learnerType = 'regression'\n"
            "    def train(self, X, Y): pass\n"
            "    def apply(self, testX): return testX",
            'apply': "    learnerType = 'regression'\n"
            "    def train(self, trainX, trainY): pass\n"
            "    def apply(self, X): return X",
            'none': "    learnerType = 'regression'\n"
            "    def apply(self, testX): return testX",
            'init': "    learnerType = 'regression'\n"
            "    def __init__(self, a): self.a = a\n"
            "    def train(self, trainX, trainY): pass\n"
            "    def apply(self, testX): return testX",
            'scores': "    learnerType = 'classification'\n"
            "    def train(self, trainX, trainY): pass\n"
            "    def apply(self, testX): return testX\n"
            "    def getScores(self, testX, other): return testX"}[bad]
    space = {'nimble': nb}
    exec('class Bad(nimble.CustomLearner):\n' + body, space)
    st, r = call(ctx, lambda: nb.train(space['Bad'], X, Y, useLog=False))
    ctx.event('class_refusals')
    ctx.check(st == 'exc' and isinstance(r, (NimbleException, TypeError)),
              'signature:bad-class', lambda: f'the class with a wrong {bad} '
              f'gave {r!r}')


KINDS = [('knn', 4, knnCase), ('impute', 2.5, imputeCase),
         ('ridge', 2.5, ridgeCase), ('custom', 5, customCase),
         ('scores', .8, scoreCase), ('incremental', .8, incrementalCase), ('strategy', .6, strategyCase),
         ('signature', .6, signatureCase)]
