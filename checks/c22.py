"""Performance and calculator functions match their definitions."""
import math

import numpy as np

from vlib import gen, model
from vlib.model import Table, NAN, isNan, isNumber
from vlib.runner import where
from checks.common import call, must, typesFor, freeze, frozenDiff

PROPERTY = 'C22'
RULE = ('performance functions over label and score vectors (classes of any '
        'type, constant, perfect, inverted, one sided, named, permuted), '
        'confusion matrices with every form of labels, confidence intervals, '
        'residuals, covariance with missing values, inverse, pseudo inverse, '
        'linear systems (singular, rectangular, rank deficient), element '
        'calculators, in every pair of representations, histories and views, '
        'against closed form definitions; refusals of empty, missing and '
        'mismatched input; the optimal direction of declared and undeclared '
        'functions; non-trivial: distinct (function, kind of labels, types)')
QUICK = {'cases': 14000, 'seconds': 80}
THOROUGH = {'cases': 120000, 'seconds': 800}
MIN = {'performances': 1500, 'zero_denominators': 60, 'permuted': 800,
       'binary': 500, 'refusals': 500, 'confusions': 500, 'label_lists': 80,
       'label_dicts': 80, 'intervals': 200, 'residuals': 100,
       'covariances': 150, 'inverses': 150, 'pseudo_inverses': 150,
       'solved': 120, 'least_squares': 120, 'singular': 60,
       'elementwise': 200, 'decorated': 300, 'directions': 40, 'views': 1000,
       'named': 600}

INF = float('inf')


def show(x):
    if hasattr(x, 'getTypeString'):
        return f'{x.getTypeString()} {x.shape}'
    return repr(x)


def near(a, b, tol=1e-8):
    if isNan(a) or isNan(b):
        return isNan(a) and isNan(b)
    if a in (INF, -INF) or b in (INF, -INF):
        return a == b
    return abs(a - b) <= tol * max(1., abs(a), abs(b))


def names(rng, n, prefix):
    """Names for one axis: none, own, or shared."""
    r = rng.random()
    if r < .5:
        return [None] * n
    if r < .75:
        return [f'{prefix}{i}' for i in range(n)]
    out = [f'n{i}' for i in range(n)]
    rng.shuffle(out)
    return out


def vector(ctx, vals, typ=None, route=None, cols=1):
    """A nimble column of the values, any representation and history."""
    rng = ctx.rng
    n = len(vals) // cols if cols else 0
    rows = [list(vals[i * cols:(i + 1) * cols]) for i in range(n)]
    t = Table(rows, names(rng, n, 'p'), names(rng, cols, 'f'), cols)
    if typ is None:
        typ = rng.choice(typesFor(t))
    if route is None:
        route = gen.anyRoute(rng, views=True)
    obj = gen.build(ctx.nimble, t, typ, route, rng)
    if obj.isView if hasattr(obj, 'isView') else 'View' in type(obj).__name__:
        ctx.event('views')
    if any(e is not None for e in t.pn + t.fn):
        ctx.event('named')
    return obj, typ


def value(ctx, key, label, func, *args):
    """Call a function documented to give a number."""
    res = must(ctx, key, label, func, *args)
    ctx.check(isNumber(res) or isinstance(res, (np.generic, float)),
              key + ':kind', lambda: f'{label} gave {res!r}')
    return float(res)


def refused(ctx, key, label, func, *args):
    from nimble.exceptions import NimbleException
    st, res = call(ctx, func, *args)
    ctx.event('refusals')
    ctx.check(st == 'exc', key + ':accepted', lambda: f'{label} was accepted '
              f'and gave {res!r}')
    ctx.check(isinstance(res, (NimbleException, TypeError, ValueError,
                               KeyError, IndexError)),
              key + ':refusal-kind', lambda: f'{label} raised '
              f'{type(res).__name__}: {res}')


def unchanged(ctx, key, label, before, *objs):
    for b, o in zip(before, objs):
        d = frozenDiff(b, freeze(o))
        ctx.check(d is None, key + ':argument', lambda: f'{label}: argument '
                  f'{d}')


def pairs(rng, n, kind):
    """Known and predicted values of a kind."""
    if kind == 'float':
        k = [round(rng.uniform(-9, 9), 3) for _ in range(n)]
        p = [round(v + rng.gauss(0, 2), 3) for v in k]
    elif kind == 'int':
        k = [rng.randint(-5, 5) for _ in range(n)]
        p = [rng.randint(-5, 5) for _ in range(n)]
    elif kind == 'mixed':
        k = [rng.choice([0, 1, 2, .5, 2.5, -3]) for _ in range(n)]
        p = [rng.choice([0, 1, 2, .5, 2.5, -3]) for _ in range(n)]
    elif kind == 'bool':
        k = [rng.random() < .5 for _ in range(n)]
        p = [rng.random() < .5 for _ in range(n)]
    else:
        words = rng.choice([['cat', 'dog', 'emu'], ['50%', '100%', '%d'],
                            ['a', 'A', ' a'], ['x=1', '1', '01']])
        k = [rng.choice(words) for _ in range(n)]
        p = [rng.choice(words) for _ in range(n)]
    shape = rng.random()
    if shape < .1:
        p = list(k)
    elif shape < .18 and kind in ('float', 'int', 'mixed'):
        p = [-v for v in k]
    elif shape < .26:
        k = [k[0]] * n
    elif shape < .32 and kind in ('float', 'int', 'mixed'):
        k = [0] * n
    elif shape < .38:
        p = [p[0]] * n
    elif shape < .42 and kind in ('float', 'int', 'mixed'):
        p = [0] * n
    return k, p


# -- definitions -------------------------------------------------------------

def sse(k, p):
    return math.fsum((float(a) - float(b)) ** 2 for a, b in zip(k, p))


def refRmse(k, p):
    return math.sqrt(sse(k, p) / len(k))


def refMae(k, p):
    return math.fsum(abs(float(a) - float(b)) for a, b in zip(k, p)) / len(k)


def refWrong(k, p):
    return sum(a != b for a, b in zip(k, p)) / len(k)


def refVariance(k, p):
    m = math.fsum(map(float, k)) / len(k)
    tot = math.fsum((float(a) - m) ** 2 for a in k)
    if len(set(k)) == 1:
        return NAN if sse(k, p) == 0 else INF
    return sse(k, p) / tot


def refCosine(k, p):
    dot = math.fsum(float(a) * float(b) for a, b in zip(k, p))
    nk = math.sqrt(math.fsum(float(a) ** 2 for a in k))
    np_ = math.sqrt(math.fsum(float(a) ** 2 for a in p))
    if nk == 0 or np_ == 0:
        return NAN
    return dot / (nk * np_)


NUMERIC = {'rootMeanSquareError': refRmse, 'meanAbsoluteError': refMae,
           'varianceFractionRemaining': refVariance,
           'rSquared': lambda k, p: 1 - refVariance(k, p),
           'cosineSimilarity': refCosine,
           'meanFeaturewiseRootMeanSquareError': refRmse}
ANY = {'fractionIncorrect': refWrong,
       'fractionCorrect': lambda k, p: 1 - refWrong(k, p)}
OPTIMAL = {'rootMeanSquareError': ('min', 0), 'meanAbsoluteError': ('min', 0),
           'varianceFractionRemaining': ('min', 0), 'rSquared': ('max', 1),
           'cosineSimilarity': ('max', 1), 'fractionIncorrect': ('min', 0),
           'fractionCorrect': ('max', 1),
           'meanFeaturewiseRootMeanSquareError': ('min', 0)}


def div(a, b):
    return a / b if b else NAN


def binaryRefs(k, p):
    tp = sum(bool(a) and bool(b) for a, b in zip(k, p))
    tn = sum(not a and not b for a, b in zip(k, p))
    fp = sum(not a and bool(b) for a, b in zip(k, p))
    fn = sum(bool(a) and not b for a, b in zip(k, p))
    rec, prec, spec = div(tp, tp + fn), div(tp, tp + fp), div(tn, tn + fp)
    f1 = div(2 * rec * prec, rec + prec) if not (isNan(rec) or isNan(prec)) \
        else NAN
    return {'truePositive': tp, 'trueNegative': tn, 'falsePositive': fp,
            'falseNegative': fn, 'recall': rec, 'precision': prec,
            'specificity': spec, 'balancedAccuracy': (rec + spec) / 2,
            'f1Score': f1}


BINARY = {'truePositive': 'max', 'trueNegative': 'max',
          'falsePositive': 'min', 'falseNegative': 'min', 'recall': 'max',
          'precision': 'max', 'specificity': 'max', 'balancedAccuracy': 'max',
          'f1Score': 'max'}


def judge(ctx, name, func, k, p, expected, kind):
    """One performance function on one pair of vectors."""
    rng = ctx.rng
    known, tk = vector(ctx, k)
    pred, tp = vector(ctx, p)
    key = f'{name}'
    label = f'{name}(known {tk} {k}, predicted {tp} {p})'
    ctx.log(f'{name} {tk} {tp} {k} {p}')
    ctx.state(name, kind, tk, tp)
    before = [freeze(known), freeze(pred)]
    if isNan(expected) or expected in (INF, -INF):
        ctx.event('zero_denominators')
        # the definition gives no number: the answer must say so, the same
        # way whatever the representation
        got = value(ctx, key + ':undefined', label, func, known, pred)
        ctx.check(isNan(got) or abs(got) > 1e20, key + ':undefined',
                  lambda: f'{label} gave {got}, the definition divides by '
                  'zero')
    else:
        got = value(ctx, key, label, func, known, pred)
        ctx.check(near(got, expected), key, lambda: f'{label} gave {got}, '
                  f'the definition gives {expected}')
    unchanged(ctx, key, label, before, known, pred)
    ctx.event('performances')
    order = list(range(len(k)))
    rng.shuffle(order)
    known2, tk2 = vector(ctx, [k[i] for i in order])
    pred2, tp2 = vector(ctx, [p[i] for i in order])
    got2 = value(ctx, key + ':order', label + f' in the order {order} as '
                 f'{tk2}, {tp2}', func, known2, pred2)
    ctx.event('permuted')
    ctx.check(near(got, got2) or not math.isfinite(got) and
              not math.isfinite(got2), key + ':order', lambda:
              f'{label} gave {got}; the same pairs in the order {order} as '
              f'{tk2}, {tp2} gave {got2}')


def perfCase(ctx):
    rng = ctx.rng
    calc = ctx.nimble.calculate
    kind = rng.choice(['float', 'int', 'mixed', 'text', 'bool', 'int'])
    k, p = pairs(rng, rng.choice([1, 2, 3, 4, 6, 9, 9, 40, 101]), kind)
    table = dict(ANY)
    if kind != 'text':
        table.update(NUMERIC)
    name = rng.choice(sorted(table))
    func = getattr(calc, name)
    judge(ctx, name, func, k, p, table[name](k, p), kind)
    ctx.check((func.optimal, func.best) == OPTIMAL[name], name + ':optimal',
              lambda: f'{name} declares {func.optimal}, {func.best}')


def featurewiseCase(ctx):
    rng = ctx.rng
    f = rng.randint(2, 4)
    n = rng.randint(1, 5)
    ks, ps = zip(*[pairs(rng, n, rng.choice(['int', 'float', 'mixed']))
                   for _ in range(f)])
    flat = lambda cols: [cols[j][i] for i in range(n) for j in range(f)]
    known, tk = vector(ctx, flat(ks), cols=f)
    pred, tp = vector(ctx, flat(ps), cols=f)
    exp = sum(refRmse(k, p) for k, p in zip(ks, ps)) / f
    name = 'meanFeaturewiseRootMeanSquareError'
    label = f'{name}({tk} {ks}, {tp} {ps}) (features)'
    ctx.log(label)
    ctx.state(name, f, tk, tp)
    got = value(ctx, name, label, getattr(ctx.nimble.calculate, name), known,
                pred)
    ctx.check(near(got, exp), name, lambda: f'{label} gave {got}, the '
              f'definition gives {exp}')
    ctx.event('performances')


def binaryCase(ctx):
    rng = ctx.rng
    n = rng.choice([1, 2, 3, 5, 8, 12, 12, 45, 110])
    style = rng.choice([(0, 1), (0., 1.), (False, True), (0, 1)])
    k = [rng.choice(style) for _ in range(n)]
    p = [rng.choice(style) for _ in range(n)]
    side = rng.random()
    if side < .15:
        k = [style[0]] * n
    elif side < .3:
        k = [style[1]] * n
    elif side < .4:
        p = [style[0]] * n
    elif side < .5:
        p = [style[1]] * n
    elif side < .6:
        p = [style[1] if v == style[0] else style[0] for v in k]
    name = rng.choice(sorted(BINARY))
    func = getattr(ctx.nimble.calculate, name)
    exp = binaryRefs(k, p)[name]
    if name == 'f1Score' and isNan(exp) and any(k) and any(p):
        # no true positive at all: 0 by the counts, 0/0 by the means
        known, _ = vector(ctx, k)
        pred, _ = vector(ctx, p)
        got = value(ctx, name, f'{name}({k}, {p})', func, known, pred)
        ctx.check(isNan(got) or got == 0, name, lambda: f'{name}({k}, {p}) '
                  f'gave {got}')
        ctx.event('zero_denominators')
    else:
        judge(ctx, name, func, k, p, exp, str(style))
    ctx.event('binary')
    ctx.check(func.optimal == BINARY[name], name + ':optimal', lambda:
              f'{name} declares {func.optimal}')
    if rng.random() < .3:
        bad = rng.choice([2, -1, .5, 'yes', 3.0])
        vec = [style[0]] * n
        vec[rng.randrange(n)] = bad
        b, tb = vector(ctx, vec)
        o, to = vector(ctx, p)
        args = (b, o) if rng.random() < .5 else (o, b)
        refused(ctx, name + ':not-binary', f'{name} with the label {bad!r} '
                f'({tb}, {to})', func, *args)


def refusalCase(ctx):
    rng = ctx.rng
    name = rng.choice(sorted(list(NUMERIC) + list(ANY) + list(BINARY)))
    func = getattr(ctx.nimble.calculate, name)
    n = rng.randint(2, 6)
    k = [rng.choice([0, 1]) for _ in range(n)]
    p = [rng.choice([0, 1]) for _ in range(n)]
    how = rng.choice(['missing', 'points', 'features', 'empty', 'raw',
                      'wide'])
    swap = rng.random() < .5
    key = f'{name}:{how}'
    if how == 'missing':
        bad = list(p)
        bad[rng.randrange(n)] = NAN
        a, b = vector(ctx, k)[0], vector(ctx, bad)[0]
    elif how == 'points':
        m = rng.choice([x for x in (1, n - 1, n + 1, 2 * n) if x != n])
        a, b = vector(ctx, k)[0], vector(ctx, [rng.choice([0, 1]) for _ in
                                                range(m)])[0]
    elif how == 'features':
        a, b = vector(ctx, k)[0], vector(ctx, p * 2, cols=2)[0]
    elif how == 'wide':
        if name == 'meanFeaturewiseRootMeanSquareError':
            return
        a, b = vector(ctx, k * 2, cols=2)[0], vector(ctx, p * 2, cols=2)[0]
    elif how == 'empty':
        typ = rng.choice(gen.TYPES)
        shape = rng.choice([(0, 1), (1, 0), (0, 0)])
        a = ctx.nimble.data(np.empty(shape), returnType=typ, useLog=False)
        b = a.copy() if rng.random() < .5 else vector(ctx, p)[0]
    else:
        a, b = vector(ctx, k)[0], rng.choice([p, np.array(p), None, 1])
    if swap:
        a, b = b, a
    ctx.log(f'refusal {key}')
    ctx.state('refusal', name, how, swap)
    refused(ctx, key, f'{name} with {how} input ({show(a)}, {show(b)})', func,
            a, b)


# -- confusion matrices -------------------------------------------------------

def confusionCase(ctx):
    rng = ctx.rng
    n = rng.choice([1, 2, 4, 7, 10])
    mode = rng.choice(['none', 'none', 'list', 'dict'])
    fractions = rng.random() < .3
    if mode == 'list':
        labels = rng.sample(['cat', 'dog', 'emu', '', 'x y', 5, 2.5],
                            rng.randint(1, 4))
        as_ = rng.choice([int, float])
        pool = [as_(i) for i in range(len(labels))]
        given = list(labels)
        shown = labels
    else:
        pool = rng.choice([[0, 1, 2], [1., 2., 2.5], ['cat', 'dog', 'emu'],
                           [False, True], ['50%', '%d', '7'], [-1, 10, 9],
                           ['b', 'B', 'a'], [1, 0]])
        pool = list(pool)
        if mode == 'dict':
            items = [(v, rng.choice(['L', 'M']) + str(i))
                     for i, v in enumerate(pool)]
            rng.shuffle(items)
            given = dict(items)
        else:
            given = None
    k = [rng.choice(pool) for _ in range(n)]
    inside = sorted(set(k)) if mode == 'none' else pool
    p = [rng.choice(inside) for _ in range(n)]
    if mode == 'none':
        axis = inside
        shown = axis
    elif mode == 'dict':
        axis = sorted(pool)
        shown = [given[v] for v in axis]
    else:
        axis = pool
    known, tk = vector(ctx, k)
    pred, tp = vector(ctx, p)
    key = f'confusionMatrix:{mode}'
    label = f'confusionMatrix({tk} {k}, {tp} {p}, labels={given}, ' \
            f'fractions={fractions})'
    ctx.log(label)
    ctx.state('confusion', mode, fractions, tk, tp, str(type(pool[0])))
    before = [freeze(known), freeze(pred), freeze(given)]
    res = must(ctx, key, label, lambda: ctx.nimble.calculate.confusionMatrix(
        known, pred, labels=given, convertCountsToFractions=fractions))
    ctx.event('confusions')
    ctx.event({'list': 'label_lists', 'dict': 'label_dicts',
               'none': 'label_none'}[mode])
    unchanged(ctx, key, label, before, known, pred, given)
    exp = [[sum(a == kv and b == pv for a, b in zip(k, p)) for kv in axis]
           for pv in axis]
    if fractions:
        exp = [[v / n for v in r] for r in exp]
    rows = model.rawRows(res)
    ctx.check(len(rows) == len(exp) and all(
        len(r) == len(e) and all(near(x, y) for x, y in zip(r, e))
        for r, e in zip(rows, exp)), key, lambda: f'{label} gave {rows}, the '
        f'counts are {exp}')
    for pre, got in (('known_', res.features.getNames()),
                     ('predicted_', res.points.getNames())):
        ok = len(got) == len(shown) and all(
            g is not None and g.startswith(pre) and
            (g[len(pre):] == str(s) or isNumber(s) and
             text(g[len(pre):]) == s) for g, s in zip(got, shown))
        ctx.check(ok, key + ':names', lambda: f'{label} has the names {got} '
                  f'for the labels {shown}')
    ctx.check(res.getTypeString() == tk, key + ':type', lambda:
              f'{label} is a {res.getTypeString()}')
    if rng.random() < .4:
        how = rng.choice(['points', 'wide', 'raw', 'labels', 'unknown'])
        a, b, lab = known, pred, given
        if how == 'points':
            b = vector(ctx, p + [p[0]])[0]
        elif how == 'wide':
            b = vector(ctx, p * 2, cols=2)[0]
        elif how == 'raw':
            b = p
        elif how == 'labels':
            lab = rng.choice(['cat', 7, ('a', 'b')])
        elif mode == 'list':
            b = vector(ctx, p[:-1] + [len(labels)])[0]
        elif mode == 'dict':
            b = vector(ctx, p[:-1] + ['zzz' if isinstance(p[0], str)
                                      else 77])[0]
        else:
            return
        refused(ctx, key + ':' + how, f'{label} with wrong {how}', lambda:
                ctx.nimble.calculate.confusionMatrix(a, b, labels=lab))


def text(s):
    try:
        return {'True': True, 'False': False}.get(s, float(s)
                                                  if s not in ('True',
                                                               'False')
                                                  else None)
    except ValueError:
        return None


# -- intervals ---------------------------------------------------------------

def intervalCase(ctx):
    import scipy.stats
    rng = ctx.rng
    name = rng.choice(['rootMeanSquareError', 'meanAbsoluteError',
                       'fractionIncorrect'])
    kind = rng.choice(['float', 'int', 'mixed'] if name != 'fractionIncorrect'
                      else ['int', 'text', 'bool', 'mixed'])
    n = rng.choice([2, 3, 6, 12, 29, 31, 60, 120])
    k, p = pairs(rng, n, kind)
    conf = rng.choice([.5, .9, .95, .99])
    func = getattr(ctx.nimble.calculate, name + 'ConfidenceInterval')
    known, tk = vector(ctx, k)
    pred, tp = vector(ctx, p)
    label = f'{name}ConfidenceInterval({tk} {k}, {tp} {p}, {conf})'
    key = 'interval:' + name
    ctx.log(label)
    ctx.state('interval', name, kind, tk, tp, conf)
    if name == 'fractionIncorrect':
        errs = [float(a != b) for a, b in zip(k, p)]
        m = sum(errs) / n
        sd = math.sqrt(m * (1 - m))
    else:
        errs = [(a - b) ** 2 if name[0] == 'r' else abs(a - b)
                for a, b in zip(k, p)]
        m = math.fsum(errs) / n
        sd = math.sqrt(math.fsum((e - m) ** 2 for e in errs) / (n - 1))
    half = scipy.stats.t.ppf(1 - (1 - conf) / 2, n - 1) * sd / math.sqrt(n)
    exp = [m - half, m + half]
    if name[0] == 'r':
        exp = [math.sqrt(e) if e >= 0 else NAN for e in exp]
    before = [freeze(known), freeze(pred)]
    if rng.random() < .5:
        res = must(ctx, key, label, lambda: func(known, pred, conf))
    else:
        res = must(ctx, key, label, lambda: func(known, pred,
                                                 confidence=conf))
    unchanged(ctx, key, label, before, known, pred)
    ctx.event('intervals')
    ctx.check(len(res) == 2, key + ':form', lambda: f'{label} gave {res}')
    for g, e, side in zip(res, exp, ('low', 'high')):
        if isNan(e) or name[0] == 'r' and abs(e) < 1e-5:
            continue
        ctx.check(near(float(g), e, 1e-6), key, lambda: f'{label} gave {res},'
                  f' the {side} end is {e}')
    if rng.random() < .3:
        q, _ = vector(ctx, (p + p)[:rng.choice([1, n + 1])])
        if len(q.points) != n:
            refused(ctx, key + ':points', f'{label} with '
                    f'{len(q.points)} predictions', lambda: func(known, q))


# -- residuals, covariance ----------------------------------------------------

def matrix(ctx, rows, route=None, typ=None):
    flat = [v for r in rows for v in r]
    return vector(ctx, flat, typ=typ, route=route, cols=len(rows[0]))


def close(ctx, key, label, res, exp, tol=1e-6):
    rows = model.rawRows(res)
    exp = np.asarray(exp, dtype=float)
    ok = (len(rows), len(rows[0]) if rows else 0) == exp.shape
    if ok:
        scale = max(1., float(np.nanmax(np.abs(exp))) if exp.size and
                    not np.isnan(exp).all() else 1.)
        ok = all((isNan(a) and isNan(b)) or
                 (not isNan(a) and not isNan(b) and
                  abs(float(a) - float(b)) <= tol * scale)
                 for r, e in zip(rows, exp.tolist()) for a, b in zip(r, e))
    ctx.check(ok, key, lambda: f'{label} gave {rows}, expected '
              f'{exp.tolist()}')


def ints(rng, n, m, lo=-4, hi=5):
    return [[rng.randint(lo, hi) for _ in range(m)] for _ in range(n)]


def residualCase(ctx):
    rng = ctx.rng
    n, f, c = rng.randint(2, 7), rng.randint(1, 2), rng.randint(1, 3)
    T, C = ints(rng, n, f), ints(rng, n, c)
    to, tt = matrix(ctx, T)
    con, tc = matrix(ctx, C)
    label = f'residuals({tt} {T}, {tc} {C})'
    ctx.log(label)
    ctx.state('residuals', tt, tc, n > c + 1)
    before = [freeze(to), freeze(con)]
    res = must(ctx, 'residuals', label, ctx.nimble.calculate.residuals, to,
               con)
    unchanged(ctx, 'residuals', label, before, to, con)
    X = np.hstack([np.array(C, float), np.ones((n, 1))])
    T = np.array(T, float)
    exp = T - X @ (np.linalg.pinv(X) @ T)
    close(ctx, 'residuals', label, res, exp)
    ctx.event('residuals')
    if rng.random() < .3:
        other, _ = matrix(ctx, ints(rng, n + 1, c))
        refused(ctx, 'residuals:points', label + ' with another point',
                ctx.nimble.calculate.residuals, to, other)


def covarianceCase(ctx):
    rng = ctx.rng
    n, m = rng.randint(1, 4), rng.randint(2, 6)
    rows = ints(rng, n, m)
    if rng.random() < .15:
        rows[0] = [rows[0][0]] * m
    miss = rng.random() < .5
    if miss:
        for _ in range(rng.randint(1, 3)):
            rows[rng.randrange(n)][rng.randrange(m)] = NAN
    obj, typ = matrix(ctx, rows)
    corr = rng.random() < .4
    sample = rng.random() < .6
    name = 'correlation' if corr else 'covariance'
    kw = {} if corr or sample and rng.random() < .5 else {'sample': sample}
    if not corr and not kw:
        sample = True
    if rng.random() < .3:
        kw['X_T'] = obj.T
    label = f'{name}({typ} {rows}, {sorted(kw)}, sample={sample})'
    ctx.log(label)
    ctx.state(name, typ, miss, sample, 'X_T' in kw)
    before = [freeze(obj)]
    res = must(ctx, name, label, lambda:
               getattr(ctx.nimble.calculate, name)(obj, **kw))
    unchanged(ctx, name, label, before, obj)
    ctx.event('covariances')
    got = model.rawRows(res)
    ctx.check(len(got) == n and all(len(r) == n for r in got), name +
              ':shape', lambda: f'{label} has shape {res.shape}')
    for i in range(n):
        for j in range(n):
            use = [(a, b) for a, b in zip(rows[i], rows[j])
                   if not isNan(a) and not isNan(b)]
            if not use:
                exp = [NAN]
            else:
                a, b = zip(*use)
                ma, mb = sum(a) / len(a), sum(b) / len(b)
                s = sum((x - ma) * (y - mb) for x, y in use)
                if corr:
                    d = math.sqrt(sum((x - ma) ** 2 for x in a) *
                                  sum((y - mb) ** 2 for y in b))
                    if len(set(a)) == 1 or len(set(b)) == 1:
                        exp = [NAN]
                    else:
                        exp = [s / d]
                else:
                    d = len(use) - 1 if sample else len(use)
                    exp = [s / d if d else NAN]
            ctx.check(any(near(float(got[i][j]), e) for e in exp), name,
                      lambda: f'{label}: entry {i}, {j} is {got[i][j]}, the '
                      f'definition gives {exp[0]}')


# -- linear algebra ----------------------------------------------------------

def square(rng, n, singular=False):
    while True:
        A = np.array(ints(rng, n, n), float)
        if rng.random() < .3:
            A[np.array(ints(rng, n, n, 0, 2)) == 0] = 0
        if singular:
            if n == 1:
                A[:] = 0
            else:
                # exactly singular also for a computation in floats
                if rng.random() < .6:
                    A[rng.randrange(n)] = 0
                else:
                    A[:, rng.randrange(n)] = 0
            return A.astype(int).tolist()
        if abs(np.linalg.det(A)) > .5 and np.linalg.cond(A) < 1e4:
            out = A.astype(int).tolist()
            if rng.random() < .3:
                out = [[v + 0. for v in r] for r in out]
            return out


def inverseCase(ctx):
    rng = ctx.rng
    n = rng.randint(1, 4)
    singular = rng.random() < .25
    A = square(rng, n, singular)
    obj, typ = matrix(ctx, A)
    label = f'inverse({typ} {A})'
    ctx.log(label)
    ctx.state('inverse', typ, n, singular)
    before = [freeze(obj)]
    if rng.random() < .2:
        wide, _ = matrix(ctx, ints(rng, n, n + 1))
        refused(ctx, 'inverse:shape', 'inverse of a rectangle',
                ctx.nimble.calculate.inverse, wide)
    if singular:
        refused(ctx, 'inverse:singular', label, ctx.nimble.calculate.inverse,
                obj)
        ctx.event('singular')
    else:
        res = must(ctx, 'inverse', label, ctx.nimble.calculate.inverse, obj)
        close(ctx, 'inverse', label, res, np.linalg.inv(np.array(A, float)))
        ctx.check(res.getTypeString() == typ, 'inverse:type', lambda: label +
                  f' is a {res.getTypeString()}')
        ctx.event('inverses')
    unchanged(ctx, 'inverse', label, before, obj)


def pseudoCase(ctx):
    rng = ctx.rng
    n, m = rng.randint(1, 4), rng.randint(1, 4)
    A = ints(rng, n, m)
    if rng.random() < .3:
        A[-1] = list(A[0])
    if rng.random() < .1:
        A = [[0] * m for _ in range(n)]
    obj, typ = matrix(ctx, A)
    label = f'pseudoInverse({typ} {A})'
    ctx.log(label)
    ctx.state('pinv', typ, n, m)
    before = [freeze(obj)]
    res = must(ctx, 'pseudoInverse', label,
               ctx.nimble.calculate.pseudoInverse, obj)
    unchanged(ctx, 'pseudoInverse', label, before, obj)
    close(ctx, 'pseudoInverse', label, res, np.linalg.pinv(np.array(A,
                                                                    float)))
    ctx.check(res.getTypeString() == typ, 'pseudoInverse:type', lambda: label
              + f' is a {res.getTypeString()}')
    ctx.event('pseudo_inverses')
    if rng.random() < .05:
        e = ctx.nimble.data(np.empty((0, 0)), returnType=typ, useLog=False)
        for name in ('inverse', 'pseudoInverse'):
            r = must(ctx, name + ':empty', f'{name} of an empty {typ}',
                     getattr(ctx.nimble.calculate, name), e)
            ctx.check(r is not e, name + ':empty', lambda: f'{name} of an '
                      'empty object gives the argument itself')


def solveCase(ctx):
    rng = ctx.rng
    least = rng.random() < .5
    name = 'leastSquaresSolution' if least else 'solve'
    func = getattr(ctx.nimble.calculate, name)
    if rng.random() < .3:
        func = lambda a, b: a.solveLinearSystem(
            b, *(['least squares'] if least else rng.choice([[], ['solve']])))
    singular = False
    if least:
        n, m = rng.randint(1, 6), rng.randint(1, 4)
        A = ints(rng, n, m)
        if rng.random() < .2:
            for r in A:
                r[-1] = r[0]
    else:
        n = m = rng.randint(1, 4)
        singular = rng.random() < .2
        A = square(rng, n, singular)
    b = [rng.randint(-6, 6) for _ in range(n)]
    aObj, ta = matrix(ctx, A)
    col = rng.random() < .5
    bObj, tb = vector(ctx, b, cols=1 if col else n)
    label = f'{name}({ta} {A}, {tb} {"column" if col else "row"} {b})'
    ctx.log(label)
    ctx.state(name, ta, tb, n, m, col, singular)
    before = [freeze(aObj), freeze(bObj)]
    if singular:
        refused(ctx, name + ':singular', label, func, aObj, bObj)
        ctx.event('singular')
    else:
        res = must(ctx, name, label, func, aObj, bObj)
        got = [float(v) for r in model.rawRows(res) for v in r]
        A_ = np.array(A, float)
        exp = np.linalg.pinv(A_) @ np.array(b, float)
        scale = max(1., float(np.abs(exp).max()))
        # which singular values count as zero is decided by the rounding of
        # the solver: the values are judged where the rank is full
        full = np.linalg.matrix_rank(A_) == min(n, m) or not A_.any()
        ctx.check(len(got) == m and (not full or all(
            abs(x - y) <= 1e-5 * scale for x, y in zip(got, exp.tolist()))),
                  name,
                  lambda: f'{label} gave {got}, expected {exp.tolist()}')
        ctx.event('least_squares' if least else 'solved')
        fn = aObj.features.getNames()
        ctx.check(res.getTypeString() == ta, name + ':type', lambda:
                  f'{label} is a {res.getTypeString()}')
        ctx.check(len(res.features) != m or
                  all(e is None or g == e for g, e in
                      zip(res.features.getNames(), fn)), name + ':names',
                  lambda: f'{label} has the features '
                  f'{res.features.getNames()}, the object has {fn}')
    unchanged(ctx, name, label, before, aObj, bObj)
    if rng.random() < .2:
        wrong, _ = vector(ctx, b + [1, 2], cols=1)
        refused(ctx, name + ':size', f'{name} with {n + 2} values for {n} '
                'equations', func, aObj, wrong)


def elementCase(ctx):
    rng = ctx.rng
    n, m = rng.randint(1, 4), rng.randint(1, 4)
    power = rng.random() < .5
    A = ints(rng, n, m, 1 if power else -4, 4)
    B = ints(rng, n, m, 0, 3)
    a, ta = matrix(ctx, A)
    b, tb = matrix(ctx, B)
    a.points.setNames(None, useLog=False) if 'View' not in \
        type(a).__name__ else None
    name = 'elementwisePower' if power else 'elementwiseMultiply'
    func = getattr(ctx.nimble.calculate, name)
    # objects whose names contradict each other are refused by arithmetic
    pa, pb = a.points._getNamesNoGeneration(), b.points._getNamesNoGeneration()
    fa, fb = (a.features._getNamesNoGeneration(),
              b.features._getNamesNoGeneration())
    if (pa and pb and pa != pb) or (fa and fb and fa != fb):
        return
    label = f'{name}({ta} {A}, {tb} {B})'
    ctx.log(label)
    ctx.state(name, ta, tb)
    before = [freeze(a), freeze(b)]
    res = must(ctx, name, label, func, a, b)
    unchanged(ctx, name, label, before, a, b)
    exp = [[x ** y if power else x * y for x, y in zip(r, s)]
           for r, s in zip(A, B)]
    close(ctx, name, label, res, exp)
    ctx.event('elementwise')
    if rng.random() < .3:
        w, _ = matrix(ctx, ints(rng, n, m + 1))
        refused(ctx, name + ':shape', f'{name} of different shapes', func, a,
                w)
        refused(ctx, name + ':raw', f'{name} of a list', func, A, b)


# -- normalizing functions -----------------------------------------------------

def normalCase(ctx):
    rng = ctx.rng
    n, m = rng.randint(1, 6), rng.randint(1, 4)
    a = [rng.randint(-4, 6) for _ in range(n)]
    if rng.random() < .15:
        a = [a[0]] * n
    if rng.random() < .3:
        a[rng.randrange(n)] = NAN
    b = [rng.choice([rng.randint(-6, 8), rng.choice(a)]) for _ in range(m)]
    real = [v for v in a if not isNan(v)]
    if not real:
        return
    mean = sum(real) / len(real)
    sd = math.sqrt(sum((v - mean) ** 2 for v in real) / len(real))
    lo, hi = min(real), max(real)
    name = rng.choice(['meanNormalize', 'meanStandardDeviationNormalize',
                       'range0to1Normalize', 'rangeNormalize'])
    kw = {}
    if name == 'meanNormalize':
        f = lambda v: v - mean
    elif name == 'meanStandardDeviationNormalize':
        f = lambda v: (v - mean) / (sd if hi > lo else 1)
    else:
        s, e = (0, 1) if name == 'range0to1Normalize' else \
            (rng.randint(-3, 3), rng.randint(-3, 6))
        if name == 'rangeNormalize':
            kw = {'start': s, 'end': e}
        f = lambda v: s + (e - s) * (v - lo) / ((hi - lo) or 1)
    row = rng.random() < .3
    x, tx = vector(ctx, a, cols=n if row else 1)
    y, ty = vector(ctx, b, cols=m if row else 1)
    two = rng.random() < .6
    label = f'{name}({tx} {a}, {ty + " " + str(b) if two else None}, {kw})'
    ctx.log(label)
    ctx.state(name, tx, ty, two, row)
    before = [freeze(x), freeze(y)]
    from nimble.calculate import normalize
    func = getattr(normalize, name)
    res = must(ctx, name, label, lambda: func(x, y, **kw) if two
               else func(x, **kw))
    unchanged(ctx, name, label, before, x, y)
    ctx.event('normalized')
    outs = list(res) if two else [res]
    for out, src, vals in zip(outs, (x, y), (a, b)):
        exp = [NAN if isNan(v) else f(v) for v in vals]
        close(ctx, name, label, out, [exp] if row else [[v] for v in exp])
        ctx.check(out.points.getNames() == src.points.getNames() and
                  out.features.getNames() == src.features.getNames(), name +
                  ':names', lambda: f'{label}: names '
                  f'{out.points.getNames()}, {out.features.getNames()}')


# -- the decorator --------------------------------------------------------------

def decoratedCase(ctx):
    rng = ctx.rng
    from nimble.calculate import performanceFunction
    flags = {f: rng.random() < .5 for f in
             ('requires1D', 'samePtCount', 'sameFtCount', 'allowEmpty',
              'allowMissing')}
    validate = rng.random() < .85
    default = {'requires1D': True, 'samePtCount': True, 'sameFtCount': True,
               'allowEmpty': False, 'allowMissing': False}
    kw = {f: v for f, v in flags.items() if v != default[f] or
          rng.random() < .5}
    if not validate:
        kw['validate'] = False
    optimal = rng.choice(['min', 'max'])
    best = rng.choice([None, 0, 1.5])
    seen = []

    def perf(knownValues, predictedValues):
        """mine"""
        seen.append((knownValues, predictedValues))
        return 42

    func = performanceFunction(optimal, best, **kw)(perf)
    ctx.check(func.optimal == optimal and func.best == best and
              callable(func.predict), 'decorator:attributes', lambda:
              f'{optimal}, {best} gave {func.optimal}, {func.best}')
    ctx.check(func.__name__ == 'perf' and func.__doc__ == 'mine',
              'decorator:wraps', lambda: f'{func.__name__}, {func.__doc__}')

    def make():
        n = rng.choice([0, 1, 2, 3, 3, 3])
        c = rng.choice([1, 1, 1, 2, 0])
        vals = [rng.randint(0, 4) for _ in range(n * c)]
        miss = False
        if vals and rng.random() < .25:
            vals[rng.randrange(len(vals))] = NAN
            miss = True
        if n and c:
            return vector(ctx, vals, cols=c)[0], n, c, miss
        typ = rng.choice(gen.TYPES)
        return ctx.nimble.data(np.empty((n, c)), returnType=typ,
                               useLog=False), n, c, miss

    a, an, ac, am = make()
    b, bn, bc, bm = make()
    why = []
    if validate:
        if not flags['allowEmpty'] and 0 in (an, ac, bn, bc):
            why.append('empty')
        if flags['samePtCount'] and an != bn:
            why.append('points')
        if flags['sameFtCount'] and ac != bc:
            why.append('features')
        if flags['requires1D'] and bc > 1:
            why.append('1D')
        if not flags['allowMissing'] and (am or bm):
            why.append('missing')
    label = f'performanceFunction({optimal}, {kw}) on {an}x{ac} ' \
            f'(missing {am}), {bn}x{bc} (missing {bm})'
    ctx.log(label)
    ctx.state('decorator', str(sorted(kw)), str(why))
    ctx.event('decorated')
    if why:
        key = 'decorator:' + why[0]
        refused(ctx, key, label, func, a, b)
        ctx.check(not seen, key, lambda: f'{label}: the function was called')
    else:
        res = must(ctx, 'decorator:call', label, func, a, b)
        ctx.check(res == 42 and len(seen) == 1 and seen[0][0] is a and
                  seen[0][1] is b, 'decorator:call', lambda: f'{label} gave '
                  f'{res}, calls {len(seen)}')
    if validate and rng.random() < .3:
        bad = rng.choice([[1], np.array([[1]]), None])
        args = (bad, b) if rng.random() < .5 else (a, bad)
        refused(ctx, 'decorator:raw', f'{label} with {bad!r}', func, *args)
    if rng.random() < .2:
        refused(ctx, 'decorator:optimal', 'optimal best', lambda:
                performanceFunction(rng.choice(['best', None, 'Min', 1])))
        refused(ctx, 'decorator:predict', 'predict median', lambda:
                performanceFunction('max',
                                    predict=rng.choice(['median', 'scores'])))


def directionCase(ctx):
    """The optimal direction of a function without a declaration."""
    rng = ctx.rng
    from nimble.calculate.utility import detectBestResult
    names_ = [n for n in list(NUMERIC) + list(ANY) + list(BINARY)]
    name = rng.choice(names_)
    func = getattr(ctx.nimble.calculate, name)
    ctx.check(detectBestResult(func) == func.optimal, 'direction:declared',
              lambda: f'{name}: {detectBestResult(func)}')
    sign = rng.choice([1, -1])
    plain = lambda k, p: sign * func(k, p)
    exp = func.optimal
    if sign == -1:
        exp = {'min': 'max', 'max': 'min'}[exp]
    label = f'detectBestResult({sign} * {name}, undeclared)'
    ctx.log(label)
    ctx.state('direction', name, sign)
    st, res = call(ctx, detectBestResult, plain)
    ctx.event('directions')
    if st == 'exc':
        from nimble.exceptions import NimbleException
        ctx.check(isinstance(res, NimbleException), 'direction:refusal',
                  lambda: f'{label} raised {type(res).__name__}: {res}')
        ctx.event('direction_refused')
    else:
        ctx.event('direction_detected')
        ctx.check(res == exp, 'direction', lambda: f'{label} gave {res}, '
                  f'the better values are the {exp}')


KINDS = [('perf', 5, perfCase), ('featurewise', 1, featurewiseCase),
         ('binary', 3, binaryCase), ('refusal', 2.5, refusalCase),
         ('confusion', 3, confusionCase), ('interval', 1.5, intervalCase),
         ('residual', .8, residualCase), ('covariance', 1.2, covarianceCase),
         ('inverse', 1.3, inverseCase), ('pinv', 1.2, pseudoCase),
         ('solve', 2, solveCase), ('element', 1.5, elementCase),
         ('normal', 1, normalCase), ('decorated', 2, decoratedCase),
         ('direction', .3, directionCase)]
