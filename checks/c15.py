"""Grouping, splitting, combining, statistics match their definitions."""
import math

import numpy as np

from vlib import gen, model
from vlib.model import Table, NAN, isNan, isNumber, same
from vlib.runner import where
from checks.common import call, must, typesFor, freeze, frozenDiff

PROPERTY = 'C15'
RULE = ('statistics (every name and form, by axis, whole object, per group), '
        'similarities, normalizations, reports, grouping, collapsing, '
        'expanding, parsing and encoding of features over tables with '
        'missing, constant, text, boolean and single vectors, every type, '
        'history and view, against definitions in plain python; conservation '
        'of every value is counted for the structural ones; non-trivial: '
        'distinct (operation, variant, kind, type, route)')
QUICK = {'cases': 9000, 'seconds': 80}
THOROUGH = {'cases': 120000, 'seconds': 800}
MIN = {'statistics': 2000, 'vectors': 4000, 'grouped': 400, 'similarities':
       500, 'normalized': 600, 'grouping': 600, 'reports': 200, 'collapsed':
       200, 'expanded': 150, 'parsed': 150, 'encoded': 300, 'missing_keys': 60,
       'nontext_keys': 60, 'views': 400, 'second_object': 200}

INF = float('inf')


# -- definitions -------------------------------------------------------------

def real(vec):
    return [v for v in vec if not isNan(v)]


def numbersOnly(vec):
    return all(isNumber(v) for v in real(vec))


def quantile(s, q):
    pos = (len(s) - 1) * q
    lo = math.floor(pos)
    hi = math.ceil(pos)
    return s[lo] + (s[hi] - s[lo]) * (pos - lo)


def variance(vals, ddof):
    if len(vals) - ddof <= 0:
        return NAN
    m = math.fsum(vals) / len(vals)
    return math.fsum((v - m) ** 2 for v in vals) / (len(vals) - ddof)


class Undefined(Exception):
    """The definition gives no value."""


def stat(name, vec):
    vals = real(vec)
    if name == 'uniqueCount':
        return len({model.key(v) for v in vals})
    if name == 'count':
        return len(vals)
    if name == 'proportionMissing':
        return (len(vec) - len(vals)) / len(vec)
    if name == 'proportionZero':
        return sum(isNumber(v) and v == 0 for v in vals) / len(vec)
    if name == 'mode':
        if not vals:
            raise Undefined()
        counts = {}
        for v in vals:
            counts.setdefault(model.key(v), []).append(v)
        most = max(map(len, counts.values()))
        modes = [c[0] for c in counts.values() if len(c) == most]
        try:
            modes.sort()
        except TypeError:
            raise Undefined() from None
        return modes[(len(modes) - 1) // 2]
    none = [NAN] * 3 if name == 'quartiles' else NAN
    if not numbersOnly(vec):
        return none
    vals = [float(v) for v in vals]
    if name == 'sum':
        return math.fsum(vals)
    if not vals:
        return none
    s = sorted(vals)
    if name == 'max':
        return s[-1]
    if name == 'min':
        return s[0]
    if name == 'mean':
        return math.fsum(vals) / len(vals)
    if name == 'median':
        return quantile(s, .5)
    if name == 'quartiles':
        return [quantile(s, q) for q in (.25, .5, .75)]
    if name == 'medianAbsoluteDeviation':
        m = quantile(s, .5)
        return quantile(sorted(abs(v - m) for v in s), .5)
    if name == 'variance':
        return variance(vals, 1)
    if name == 'standardDeviation':
        return math.sqrt(variance(vals, 1))
    if name == 'populationStandardDeviation':
        return math.sqrt(variance(vals, 0))
    raise ValueError(name)


METHODS = ['max', 'mean', 'median', 'min', 'uniqueCount', 'proportionMissing',
           'proportionZero', 'standardDeviation', 'mode', 'sum', 'variance',
           'medianAbsoluteDeviation', 'quartiles',
           'populationStandardDeviation']
STRINGS = {'max': ['max', 'Max'], 'mean': ['mean', 'MEAN'],
           'median': ['median'], 'min': ['min'],
           'uniqueCount': ['unique count', 'uniqueCount', 'Unique Count'],
           'proportionMissing': ['proportion missing', 'proportionMissing'],
           'proportionZero': ['proportion zero', 'proportionzero'],
           'standardDeviation': ['standard deviation', 'std', 'sample std',
                                 'sample standard deviation'],
           'populationStandardDeviation': [
               'population std', 'population standard deviation'],
           'mode': ['mode'], 'sum': ['sum'], 'variance': ['variance'],
           'medianAbsoluteDeviation': ['median absolute deviation'],
           'quartiles': ['quartiles'], 'count': ['count']}
FUNCTIONS = {'max': 'maximum', 'min': 'minimum'}


def statTable(rng, minP=1, minF=1):
    kind = rng.choice(['int', 'intsparse', 'float', 'nan', 'nan', 'str',
                       'mixed', 'mixedcols', 'floatsparse', 'bool', 'const',
                       'allnan', 'boolcols'])
    if kind in ('const', 'allnan', 'boolcols'):
        t = gen.table(rng, rng.choice(['int', 'nan', 'float']), minP=minP,
                      minF=minF)
        for j in range(t.nf):
            if rng.random() < .5:
                c = NAN if kind == 'allnan' else rng.choice([0, 2, -1.5, 4])
                for r in t.rows:
                    r[j] = rng.random() < .5 if kind == 'boolcols' else c
        t.kind = kind
    else:
        t = gen.table(rng, kind, minP=minP, minF=minF)
        # text that reads as a number is left out
        t.rows = [['11 o' if v == '10' else v for v in r] for r in t.rows]
    return t


def hasBool(t):
    return any(type(v) is bool for r in t.rows for v in r)


def build(ctx, t, routes=None):
    rng = ctx.rng
    types = typesFor(t)
    route = rng.choice(routes) if routes else gen.anyRoute(rng)
    if hasBool(t):
        types = [x for x in types if x != 'Sparse' or t.kind == 'bool']
        route = 'direct'
    typ = rng.choice(types)
    if route == 'view':
        ctx.event('views')
    return gen.build(ctx.nimble, t, typ, route, rng), typ, route


def equal(a, b, tol=1e-9):
    if isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(equal(x, y, tol)
                                        for x, y in zip(a, b))
    if isNumber(a) and isNumber(b) and not isNan(a) and not isNan(b):
        return a == b or abs(a - b) <= tol * max(1, abs(a), abs(b))
    return same(a, b)


def quiet(f, *args):
    import warnings
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        return f(*args)


# -- statistics --------------------------------------------------------------

def checkStats(ctx, key, label, res, vecs, names, name, statNames, byPoint, t):
    """An object of one value (or three) per vector, named."""
    got = model.rawRows(res) if byPoint else \
        [list(c) for c in zip(*model.rawRows(res))]
    ctx.check(len(got) == len(vecs), key + ':shape', lambda: f'{label} has '
              f'{len(got)} vectors, expected {len(vecs)}', table=t)
    for k, v in enumerate(vecs):
        exp = stat(name, v)
        exp = list(exp) if isinstance(exp, list) else [exp]
        ctx.check(equal(got[k], exp), key, lambda: f'{label}: vector {k} {v} '
                  f'gives {got[k]}, expected {exp}', table=t)
        ctx.event('vectors')
    mine = res.points if byPoint else res.features
    off = res.features if byPoint else res.points
    ctx.check(all(e is None or g == e for g, e in
                  zip(mine.getNames(), names)), key + ':names', lambda:
              f'{label} is named {mine.getNames()}, expected {names}', table=t)
    if statNames:
        ctx.check([str(x).lower() for x in off.getNames()] ==
                  [x.lower() for x in statNames], key + ':stat-name',
                  lambda: f'{label} has {off.getNames()}, expected '
                  f'{statNames}', table=t)


def statCase(ctx):
    rng, nimble = ctx.rng, ctx.nimble
    t = statTable(rng)
    byPoint = rng.random() < .5
    obj, typ, route = build(ctx, t)
    vecs = t.rows if byPoint else [t.col(j) for j in range(t.nf)]
    names = t.pn if byPoint else t.fn
    axis = 'points' if byPoint else 'features'
    how = rng.choice(['method', 'string', 'function', 'whole', 'calculate'])
    name = rng.choice(METHODS)
    if how in ('function', 'calculate') and rng.random() < .1 or \
            how == 'string' and rng.random() < .06:
        name = 'count'
    if how == 'whole' and name in ('standardDeviation',
                                   'populationStandardDeviation'):
        name = 'variance'
    key = f'stat:{how}:{name}:{axis if how != "whole" else "all"}'
    ctx.state(how, name, axis, typ, route, t.kind)
    before = freeze(obj)
    flat = [v for r in t.rows for v in r]
    try:
        for v in ([flat] if how == 'whole' else vecs):
            stat(name, v)
    except Undefined:
        return
    if how == 'whole':
        label = f'{typ} ({route}) {name}()'
        if name == 'uniqueCount' and not numbersOnly(flat):
            return
        res = must(ctx, key, label, lambda: quiet(getattr(obj, name)))
        exp = stat(name, flat)
        if name == 'quartiles' and not numbersOnly(flat):
            exp = NAN
        tol = 1e-9
        if name.startswith('proportion') and not numbersOnly(flat):
            # rounded to three digits
            tol = 5.1e-4
        ctx.check(equal(res, exp, tol), key, lambda: f'{label} is {res}, '
                  f'expected {exp}', table=t)
    elif how == 'function':
        k = rng.randrange(len(vecs))
        f = FUNCTIONS.get(name, name)
        label = f'calculate.{f}({typ} {route} {axis} {vecs[k]})'
        args = {}
        if name == 'populationStandardDeviation':
            f, args = 'standardDeviation', {'sample': False}
        vec = (obj.points if byPoint else obj.features)[k]
        if rng.random() < .5:
            vec = vec.copy()
        res = must(ctx, key, label, lambda: quiet(
            lambda: getattr(nimble.calculate, f)(vec, **args)))
        exp = stat(name, vecs[k])
        ctx.check(equal(res, exp), key, lambda: f'{label} is {res}, expected '
                  f'{exp}', table=t)
        ctx.event('vectors')
    else:
        a = getattr(obj, axis)
        if how == 'method':
            label = f'{typ} ({route}) {axis}.{name}()'
            st, res = call(ctx, lambda: quiet(getattr(a, name)))
        elif how == 'string':
            s = rng.choice(STRINGS[name])
            label = f'{typ} ({route}) {axis}.statistics({s!r})'
            st, res = call(ctx, lambda: quiet(a.statistics, s))
        else:
            f = FUNCTIONS.get(name, name)
            if not hasattr(nimble.calculate, f):
                return
            label = f'{typ} ({route}) {axis}.calculate(calculate.{f})'
            st, res = call(ctx, lambda: quiet(lambda: a.calculate(
                getattr(nimble.calculate, f), useLog=False)))
        if st == 'exc':
            ctx.violation(f'{key}:raises-{type(res).__name__}', f'{label} '
                          f'raised {type(res).__name__}: {res} (in '
                          f'{where(res)})', table=t)
            return
        sn = None
        if how == 'method':
            sn = ['quartile1', 'quartile2', 'quartile3'] \
                if name == 'quartiles' else [name]
        checkStats(ctx, key, label, res, vecs, names, name, sn, byPoint, t)
    ctx.event('statistics')
    d = frozenDiff(before, freeze(obj))
    ctx.check(d is None, key + ':changed', lambda: f'{label}: {d}', table=t)


# -- grouping ----------------------------------------------------------------

def keyTable(rng, minF=1):
    t = gen.table(rng, rng.choice(['int', 'nan', 'float', 'mixedcols', 'str']),
                  minP=1, maxP=8, minF=minF, maxF=4)
    t.rows = [['11 o' if v == '10' else v for v in r] for r in t.rows]
    pools = [['a', 'b', 'c'], [0, 1, 2], [1.0, 2.5, 2.0], [0, 1, NAN],
             ['a', 'b', NAN], [0.5, NAN], [1, 1, 1], [1, INF, 2.0],
             ['a', 1, 2], [True, False], ['NaN', NAN, 'a'], ['1', 1, 'a'],
             ['a', 'nan'], ['x y', 'é']]
    by = rng.sample(range(t.nf), min(t.nf, rng.choice([1, 1, 1, 2])))
    for j in by:
        pool = rng.choice(pools)
        for r in t.rows:
            r[j] = rng.choice(pool)
    if any(isinstance(v, bool) for r in t.rows for v in r):
        t.kind = 'boolcols'
    return t, by


def sameKey(got, vals, single, missing='NaN'):
    """Is the key the one of these values (missing values are given by
    a text that no value of the features has)?"""
    got = (got,) if single else got
    if not isinstance(got, tuple) or len(got) != len(vals):
        return False
    for g, v in zip(got, vals):
        if isNan(v):
            if g != missing:
                return False
        elif isinstance(v, str) != isinstance(g, str) or g != v:
            return False
    return True


def groupCase(ctx):
    rng = ctx.rng
    t, by = keyTable(rng)
    single = len(by) == 1 and rng.random() < .75
    groups, order = {}, []
    for i, r in enumerate(t.rows):
        k = tuple(model.key(r[j]) for j in by)
        if k not in groups:
            groups[k] = []
            order.append(k)
        groups[k].append(i)
    obj, typ, route = build(ctx, t)

    def ident(j):
        r = rng.random()
        return t.fn[j] if t.fn[j] is not None and r < .5 else (
            j - t.nf if r > .85 else j)
    arg = ident(by[0]) if single else [ident(j) for j in by]
    mode = rng.choice(['objects', 'objects', 'count', 'calculate', 'stat'])
    if mode == 'stat' and not single:
        mode = 'calculate'
    rest = [j for j in range(t.nf) if j not in by]
    if not rest and mode in ('calculate', 'stat'):
        return
    name = rng.choice(METHODS)
    if mode in ('calculate', 'stat'):
        try:
            for pts in groups.values():
                for j in rest:
                    stat(name, [t.rows[i][j] for i in pts])
        except Undefined:
            return
    label = f'{typ} ({route}) groupByFeature({arg!r}) {mode} {name}'
    key = f'group:{mode}'
    ctx.state('group', mode, typ, route, single, len(groups),
              name if mode in ('calculate', 'stat') else None)
    ctx.event('grouping')
    vals = [r[j] for r in t.rows for j in by]
    if any(isNan(v) for v in vals):
        ctx.event('missing_keys')
    if any(isNumber(v) for v in vals):
        ctx.event('nontext_keys')
    before = freeze(obj)
    sn = None
    if mode == 'objects':
        f = lambda: obj.groupByFeature(arg, useLog=False)
    elif mode == 'count':
        f = lambda: obj.groupByFeature(arg, countUniqueValueOnly=True,
                                       useLog=False)
    elif mode == 'calculate':
        s = rng.choice(STRINGS[name])
        f = lambda: obj.groupByFeature(arg, calculate=s, useLog=False)
    elif rng.random() < .6:
        sn = ['quartile1', 'quartile2', 'quartile3'] \
            if name == 'quartiles' else [name]
        f = lambda: getattr(obj.features, name)(groupByFeature=arg)
    else:
        f = lambda: obj.features.statistics(rng.choice(STRINGS[name]),
                                            groupByFeature=arg)
    res = must(ctx, key, label, lambda: quiet(f))
    d = frozenDiff(before, freeze(obj))
    ctx.check(d is None, key + ':changed', lambda: f'{label}: {d}', table=t)
    ctx.check(len(res) == len(groups), key + ':groups', lambda: f'{label} has '
              f'the keys {list(res)}, expected {order}', table=t)
    total = 0
    missing = 'numpy.nan' if any(t.rows[i][j] == 'NaN' for i in range(t.np)
                                 for j in by) else 'NaN'
    for k in order:
        pts = groups[k]
        vals = [t.rows[pts[0]][j] for j in by]
        mine = [g for g in res if sameKey(g, vals, single, missing)]
        ctx.check(len(mine) == 1, key + ':key', lambda: f'{label}: {mine} keys '
                  f'of {list(res)} stand for {vals}', table=t)
        got = res[mine[0]]
        sub = t.take(pts, rest)
        if mode == 'count':
            ctx.check(got == len(pts), key, lambda: f'{label}: {got} points '
                      f'for {vals}, expected {len(pts)}', table=t)
            total += got
        elif mode == 'objects':
            d = model.diff(got, sub)
            ctx.check(d is None, key, lambda: f'{label}: group {vals}: {d}',
                      table=t)
            p = model.invariants(got)
            ctx.check(p is None, key + ':structure', lambda: f'{label}: group '
                      f'{vals}: {p}', table=t)
            ctx.check(got.getTypeString() == typ, key + ':type', lambda:
                      f'{label}: group {vals} is a {got.getTypeString()}')
            total += len(got.points)
        else:
            checkStats(ctx, key + ':' + name, f'{label} group {vals}', got,
                       [sub.col(j) for j in range(sub.nf)], sub.fn, name,
                       sn, False, t)
            ctx.event('grouped')
    if mode in ('count', 'objects'):
        ctx.check(total == t.np, key + ':conservation', lambda: f'{label}: '
                  f'{total} of {t.np} points are in a group', table=t)


# -- similarities ------------------------------------------------------------

def pair(name, a, b):
    if name == 'dot product':
        if any(isNan(v) for v in a + b):
            return NAN
        return math.fsum(x * y for x, y in zip(a, b))
    use = [(x, y) for x, y in zip(a, b) if not isNan(x) and not isNan(y)]
    if not use:
        return NAN
    x, y = [float(u[0]) for u in use], [float(u[1]) for u in use]
    mx, my = math.fsum(x) / len(x), math.fsum(y) / len(y)
    c = math.fsum((p - mx) * (q - my) for p, q in zip(x, y))
    if name == 'correlation':
        sx = math.fsum((p - mx) ** 2 for p in x)
        sy = math.fsum((q - my) ** 2 for q in y)
        return c / math.sqrt(sx * sy) if sx and sy else NAN
    d = len(x) - (0 if 'population' in name else 1)
    return c / d if d else NAN


def similarCase(ctx):
    rng = ctx.rng
    kind = rng.choice(['int', 'float', 'nan', 'nan', 'intsparse', 'const'])
    t = gen.table(rng, 'int' if kind == 'const' else kind, minP=1, minF=1)
    if kind == 'const':
        # exactly representable whatever the count
        for r in t.rows:
            r[0] = 2
        if t.np > 1 and rng.random() < .5:
            t.rows[0] = [4] * t.nf
    name = rng.choice(['correlation', 'covariance', 'dot product',
                       'sample covariance', 'population covariance'])
    byPoint = rng.random() < .5
    obj, typ, route = build(ctx, t)
    vecs = t.rows if byPoint else [t.col(j) for j in range(t.nf)]
    names = t.pn if byPoint else t.fn
    axis = 'points' if byPoint else 'features'
    label = f'{typ} ({route}) {axis}.similarities({name})'
    key = f'similar:{name}:{axis}'
    ctx.state('similar', name, axis, typ, route, kind)
    ctx.event('similarities')
    before = freeze(obj)
    s = name if rng.random() < .7 else name.title().replace(' ', '')
    res = must(ctx, key, label, lambda: quiet(
        getattr(obj, axis).similarities, s))
    d = frozenDiff(before, freeze(obj))
    ctx.check(d is None, key + ':changed', lambda: f'{label}: {d}', table=t)
    n = len(vecs)
    exp = Table([[pair(name, a, b) for b in vecs] for a in vecs], names,
                names, n)
    got = model.rawRows(res)
    ctx.check(len(got) == n and len(got[0]) == n, key + ':shape', lambda:
              f'{label} is {got}', table=t)
    for i in range(n):
        for j in range(n):
            e = exp.rows[i][j]
            if name == 'correlation' and isNan(e) and not isNan(got[i][j]):
                # a vector without spread; the mean may not be exact
                sd = [variance([float(v) for v in x if not isNan(v)], 0)
                      for x in (vecs[i], vecs[j])]
                if min(sd) and min(sd) < 1e-20:
                    continue
            ctx.check(equal(got[i][j], e, 1e-7), key, lambda: f'{label}: of '
                      f'{vecs[i]} and {vecs[j]} is {got[i][j]}, expected {e}',
                      table=t)
    ctx.check(res.points.getNames() == res.features.getNames() and
              all(e is None or g == e for g, e in
                  zip(res.points.getNames(), names)), key + ':names', lambda:
              f'{label} is named {res.points.getNames()}, '
              f'{res.features.getNames()}; expected {names}', table=t)


# -- normalizations ----------------------------------------------------------

def percentile(vals, v):
    s = sorted(real(vals))
    n = len(s)
    if isNan(v):
        return NAN
    pos = [i for i, x in enumerate(s) if x == v]

    def at(x):
        p = [i for i, y in enumerate(s) if y == x]
        if n == 1:
            raise Undefined()
        return sum(p) / len(p) / (n - 1)
    if pos:
        return at(v)
    if v < s[0]:
        return 0.0
    if v > s[-1]:
        return 1.0
    lo = max(x for x in s if x < v)
    hi = min(x for x in s if x > v)
    return at(lo) + (at(hi) - at(lo)) * (v - lo) / (hi - lo)


def normal(name, base, v):
    if isNan(v):
        return NAN
    vals = [float(x) for x in real(base)]
    if not vals:
        raise Undefined()
    if name == 'percentileNormalize':
        s = sorted(vals)
        # the end points of the range take precedence for a second object
        return percentile(base, v)
    if name == 'range0to1Normalize':
        lo, hi = min(vals), max(vals)
        return (v - lo) / (hi - lo) if hi != lo else v - lo
    m = math.fsum(vals) / len(vals)
    if name == 'meanNormalize':
        return v - m
    sd = math.sqrt(variance(vals, 0))
    return (v - m) / sd if sd > 1e-12 else v - m


NORMS = ['meanNormalize', 'meanStandardDeviationNormalize',
         'range0to1Normalize', 'percentileNormalize']


def normalCase(ctx):
    rng, nimble = ctx.rng, ctx.nimble
    kind = rng.choice(['int', 'float', 'nan', 'intsparse', 'const', 'nan'])
    t = gen.table(rng, 'int' if kind == 'const' else kind, minP=1, maxP=7)
    t.kind = kind
    if kind == 'const':
        for r in t.rows:
            r[rng.randrange(t.nf) * 0] = 3
    name = rng.choice(NORMS + ['own'])
    mode = rng.choice(['features', 'features', 'direct'])
    two = rng.random() < .5
    other = None
    if two:
        other = gen.table(rng, rng.choice(['int', 'float', 'nan']), minP=1,
                          minF=t.nf, maxF=t.nf)
        if rng.random() < .3:
            src = rng.choice(t.rows)
            other.rows[0] = list(src)
        other.fn = list(t.fn) if rng.random() < .7 else [None] * t.nf
        if any(n is not None for n in other.fn) and \
                any(n is None for n in other.fn):
            other.fn = list(t.fn)
        ctx.event('second_object')
    idx = list(range(t.nf))
    lim, limit = 'none', None
    if mode == 'direct':
        idx = [rng.randrange(t.nf)]
    elif rng.random() < .5:
        lim = rng.choice(['one', 'list', 'name'])
        idx = rng.sample(idx, rng.randint(1, t.nf))
        if lim != 'list':
            idx = idx[:1]
        limit = [t.fn[j] if t.fn[j] is not None and rng.random() < .5 else j
                 for j in idx]
        if lim == 'name':
            limit = t.fn[idx[0]] if t.fn[idx[0]] is not None else idx[0]
        elif lim == 'one':
            limit = idx[0]

    def own(v1, v2=None):
        r1 = [x * 2 + 1 for x in v1]
        if v2 is None:
            return r1
        return r1, [x - max(real(list(v1)) or [0]) for x in v2]

    def ref(base, v, second):
        if name != 'own':
            return normal(name, base, v)
        if second:
            return v - max(real(base) or [0])
        return v * 2 + 1
    try:
        exp = t.copy()
        for j in idx:
            for i in range(t.np):
                exp.rows[i][j] = ref(t.col(j), t.rows[i][j], False)
        exp2 = other.copy() if two else None
        if two:
            for j in idx:
                for i in range(other.np):
                    exp2.rows[i][j] = ref(t.col(j), other.rows[i][j], True)
        undefined = False
    except Undefined:
        undefined = True
    if undefined:
        return
    f = own if name == 'own' else getattr(nimble.calculate, name)
    obj, typ, route = build(ctx, t, ['direct', 'shuffled', 'transposed',
                                     'converted', 'extracted', 'appended']
                            if mode == 'features' else None)
    obj2 = None
    if two:
        obj2 = gen.build(nimble, other, rng.choice(gen.TYPES)
                         if mode == 'features' else typ, 'direct', rng)
    label = (f'{typ} ({route}) {mode} {name}, features={limit!r}, second='
             f'{other}')
    key = f'normal:{name}:{mode}:{"two" if two else "one"}'
    ctx.state('normal', name, mode, two, lim, typ, route, kind)
    ctx.event('normalized')
    if mode == 'features':
        kw = {} if limit is None else {'features': limit}
        if two:
            kw['applyResultTo'] = obj2
        res = must(ctx, key, label, lambda: quiet(
            lambda: obj.features.normalize(f, useLog=False, **kw)))
        ctx.check(res is None, key + ':returns', lambda: f'{label} gave {res}')
        d = model.diff(obj, exp)
        ctx.check(d is None, key, lambda: f'{label}: {d}', table=t)
        p = model.invariants(obj)
        ctx.check(p is None, key + ':structure', lambda: f'{label}: {p}',
                  table=t)
        if two:
            d = model.diff(obj2, exp2)
            ctx.check(d is None, key + ':second', lambda: f'{label}: second: '
                      f'{d}', table=t)
        return
    if name == 'own':
        return
    j = idx[0]
    v1 = obj.features[j]
    turn = [rng.random() < .4, rng.random() < .4]
    label += f', as points: {turn}'
    args = [v1.T if turn[0] else v1]
    if two:
        v2 = obj2.features[j]
        args.append(v2.T if turn[1] else v2)
    before = [freeze(obj), freeze(obj2) if two else None]
    res = must(ctx, key, label, lambda: quiet(lambda: f(*args)))
    d = frozenDiff(before[0], freeze(obj)) or (
        two and frozenDiff(before[1], freeze(obj2))) or None
    ctx.check(d is None, key + ':changed', lambda: f'{label}: {d}', table=t)
    outs = list(res) if two else [res]
    for o, e, which in zip(outs, [exp, exp2], ['first', 'second']):
        got = [v for r in model.rawRows(o) for v in r]
        ctx.check(equal(got, e.col(j)), f'{key}:{which}', lambda: f'{label}: '
                  f'{which} is {got}, expected {e.col(j)}', table=t)
        ctx.check(shapeOf(o) == shapeOf(args[which == 'second']),
                  f'{key}:{which}-shape', lambda: f'{label}: {which} is '
                  f'{shapeOf(o)}', table=t)


def shapeOf(x):
    return len(x.points), len(x.features)


# -- reports -----------------------------------------------------------------

BASIC = ['mean', 'mode', 'minimum', 'Q1', 'median', 'Q3', 'maximum',
         'uniqueCount', 'count', 'standardDeviation']


def reportCase(ctx):
    rng, nimble = ctx.rng, ctx.nimble
    t = statTable(rng)
    obj, typ, route = build(ctx, t)
    before = freeze(obj)
    ctx.event('reports')
    if rng.random() < .35:
        label = f'{typ} ({route}) report()'
        key = 'report:base'
        ctx.state('report', 'base', typ, route, t.kind)
        res = must(ctx, key, label, lambda: obj.report(useLog=False))
        cells = [v for r in t.rows for v in r]
        want = {'Points': t.np, 'Features': t.nf,
                'proportionZero': stat('proportionZero', cells),
                'proportionMissing': stat('proportionMissing', cells)}
        for n, e in want.items():
            got = res[0, n]
            ctx.check(equal(got, e), f'{key}:{n}', lambda: f'{label}: {n} is '
                      f'{got}, expected {e}', table=t)
    else:
        which = True if rng.random() < .5 else \
            rng.sample(BASIC, rng.randint(1, 5))
        extra = []
        if rng.random() < .3:
            def lengthOf(ft):
                return len(ft)

            def mean(ft):
                return 7
            extra = rng.sample([lengthOf, mean], rng.randint(1, 2))
        if t.kind == 'allnan' or any(not real(t.col(j))
                                     for j in range(t.nf)):
            if which is True or 'mode' in which:
                which = [b for b in BASIC if b != 'mode']
        try:
            for j in range(t.nf):
                stat('mode', t.col(j))
        except Undefined:
            if which is True or 'mode' in which:
                return
        label = f'{typ} ({route}) features.report({which}, {extra})'
        key = 'report:features'
        ctx.state('report', 'features', typ, route, t.kind, which is True)
        res = must(ctx, key, label, lambda: quiet(
            lambda: obj.features.report(which, extra, useLog=False)))
        names = (BASIC if which is True else list(which))
        fnames = res.features.getNames()
        ctx.check(len(fnames) == 1 + len(names) + len(extra), key + ':names',
                  lambda: f'{label} has {fnames}')
        ctx.check(all(e is None or g == e for g, e in
                      zip(res.points.getNames(), t.fn)), key + ':points',
                  lambda: f'{label} has points {res.points.getNames()}, '
                  f'expected {t.fn}', table=t)
        rows = model.rawRows(res)
        for j in range(t.nf):
            col = t.col(j)
            q = stat('quartiles', col)
            exp = [j]
            for n in names:
                exp.append({'Q1': lambda: q[0], 'Q3': lambda: q[2],
                            'minimum': lambda: stat('min', col),
                            'maximum': lambda: stat('max', col)}.get(
                                n, lambda: stat(n, col))())
            exp += [t.np if f.__name__ == 'lengthOf' else 7 for f in extra]
            ctx.check(equal(rows[j], exp), key, lambda: f'{label}: of {col} '
                      f'is {dict(zip(fnames, rows[j]))}, expected {exp}',
                      table=t)
    d = frozenDiff(before, freeze(obj))
    ctx.check(d is None, key + ':changed', lambda: f'{label}: {d}', table=t)


# -- structural --------------------------------------------------------------

MUTABLE = ['direct', 'shuffled', 'transposed', 'converted', 'extracted',
           'appended', 'copied', 'set']


def collapseCase(ctx):
    rng = ctx.rng
    t = gen.table(rng, rng.choice(['int', 'nan', 'str', 'mixedcols', 'float',
                                   'mixed']), minF=1, maxF=5)
    if any(n is None for n in t.fn) and rng.random() < .8:
        t.fn = [f'c{j}' for j in range(t.nf)]
    if t.nf > 1 and rng.random() < .3 and all(n is not None for n in t.fn):
        j = rng.randrange(t.nf)
        t.fn[j] = rng.choice(['3', 'x y', 'é', 'nan'])
    cols = rng.sample(range(t.nf), rng.randint(1, t.nf))
    args = [t.fn[j] if t.fn[j] is not None and rng.random() < .5 else j
            for j in cols]
    rest = [j for j in range(t.nf) if j not in cols]
    typ = rng.choice([x for x in typesFor(t) if x != 'Sparse'])
    obj = gen.build(ctx.nimble, t, typ, rng.choice(MUTABLE), rng)
    nn, vn = rng.choice([('what', 'value'), ('v1', 'n1')])
    label = f'{typ} splitByCollapsingFeatures({args}, {nn!r}, {vn!r})'
    ctx.state('collapse', typ, len(cols), len(rest), t.kind)
    ctx.event('collapsed')
    must(ctx, 'collapse', label, lambda: obj.points.splitByCollapsingFeatures(
        args, nn, vn, useLog=False))
    rows, pn = [], []
    for i, r in enumerate(t.rows):
        for k, j in enumerate(cols):
            nm = t.fn[j] if t.fn[j] is not None else j
            rows.append([r[x] for x in rest] + [nm, r[j]])
            pn.append(None if t.pn[i] is None else f'{t.pn[i]}_{k}')
    exp = Table(rows, pn, [t.fn[j] for j in rest] + [nn, vn], len(rest) + 2)
    got = model.rawRows(obj)
    # the name of a feature without one is its index
    d = model.diff(obj, exp)
    ctx.check(d is None, 'collapse', lambda: f'{label}: {d}', table=t)
    p = model.invariants(obj)
    ctx.check(p is None, 'collapse:structure', lambda: f'{label}: {p}',
              table=t)


def expandCase(ctx):
    """Points holding (shared..., name, values...) become one per shared."""
    rng = ctx.rng
    nShared, nVals = rng.randint(0, 2), rng.choice([1, 1, 1, 2])
    names = rng.sample(['n1', 'n2', 'x y', 'é', 'q'], rng.randint(1, 3)) \
        if rng.random() < .7 else rng.sample([1, 2, 5, 2.5], rng.randint(1, 3))
    shared = [[rng.choice([['a', 'b', 'c'], [0, 1, 2]][k % 2])
               for k in range(nShared)] for _ in range(rng.randint(1, 3))]
    uniq = []
    for s in shared:
        if s not in uniq:
            uniq.append(s)
    cells = [(s, n) for s in uniq for n in names if rng.random() < .8]
    if not cells:
        return
    rng.shuffle(cells)
    kindv = rng.choice(['int', 'float', 'str', 'nan'])
    layout = ['s'] * nShared + ['n'] + ['v'] * nVals
    rng.shuffle(layout)
    rows = []
    for s, n in cells:
        vals = [gen.value(rng, kindv) for _ in range(nVals)]
        row, si, vi = [], 0, 0
        for what in layout:
            if what == 's':
                row.append(s[si])
                si += 1
            elif what == 'n':
                row.append(n)
            else:
                row.append(vals[vi])
                vi += 1
        rows.append(row)
    t = Table(rows, gen.nameList(rng, len(rows), 'p', gen.modes(rng)),
              gen.nameList(rng, len(layout), 'f', gen.modes(rng)))
    ni = layout.index('n')
    vi = [j for j, w in enumerate(layout) if w == 'v']
    si = [j for j, w in enumerate(layout) if w == 's']
    typ = rng.choice(typesFor(t))
    obj = gen.build(ctx.nimble, t, typ, rng.choice(MUTABLE), rng)
    ident = lambda j: t.fn[j] if t.fn[j] is not None and rng.random() < .5 \
        else j
    valArg = ident(vi[0]) if nVals == 1 and rng.random() < .6 else \
        [ident(j) for j in vi]
    nameArg = ident(ni)
    label = (f'{typ} combineByExpandingFeatures({nameArg!r}, {valArg!r}) '
             f'{layout}')
    key = f'expand:{nVals}'
    ctx.state('expand', typ, tuple(layout), kindv, len(names), t.fn[0] is None)
    ctx.event('expanded')
    must(ctx, key, label, lambda: obj.points.combineByExpandingFeatures(
        nameArg, valArg, useLog=False))
    order, seenNames, first = [], [], {}
    for i, r in enumerate(t.rows):
        s = tuple(r[j] for j in si)
        if s not in first:
            first[s] = i
            order.append(s)
        if r[ni] not in seenNames:
            seenNames.append(r[ni])
    got = model.rawRows(obj)
    nf = nShared + len(seenNames) * nVals
    ctx.check(list(obj.shape) == [len(order), nf], key + ':shape', lambda:
              f'{label} has shape {obj.shape}, expected {len(order)} x {nf}',
              table=t)
    at = sum(j < ni for j in si)
    fn = obj.features.getNames()
    p = model.invariants(obj)
    ctx.check(p is None, key + ':structure', lambda: f'{label}: {p}', table=t)
    for k, s in enumerate(order):
        mine = got[k][:at] + got[k][at + len(seenNames) * nVals:]
        ctx.check(equal(mine, list(s)), key + ':shared', lambda: f'{label}: '
                  f'point {k} is {got[k]}, expected the shared {s}', table=t)
        if t.pn[first[s]] is not None:
            ctx.check(obj.points.getName(k) == t.pn[first[s]], key +
                      ':point-name', lambda: f'{label}: point {k} is named '
                      f'{obj.points.getName(k)}, expected {t.pn[first[s]]}',
                      table=t)
    # every value sits under its name, nothing else is there
    want = {}
    for r in t.rows:
        k = order.index(tuple(r[j] for j in si))
        for m, j in enumerate(vi):
            want[(k, r[ni], m)] = r[j]
    for k in range(len(order)):
        for c, n in enumerate(seenNames):
            for m in range(nVals):
                col = at + c * nVals + m
                v = got[k][col]
                e = want.get((k, n, m), NAN)
                ctx.check(same(v, e), key, lambda: f'{label}: point {k}, name '
                          f'{n!r} value {m} is {v!r}, expected {e!r} ({got})',
                          table=t)
                tag = model.key(n)
                text = str(n) if isinstance(n, str) else None
                if text is not None and fn[col] is not None:
                    ctx.check(fn[col] == text if nVals == 1 else
                              fn[col].startswith(text + '_'),
                              key + ':name', lambda: f'{label}: feature {col} '
                              f'is named {fn[col]!r}, holds {tag}', table=t)
                elif text is None and fn[col] is not None:
                    head = fn[col].split('_')[0]
                    ctx.check(float(head) == float(n), key + ':name', lambda:
                              f'{label}: feature {col} is named {fn[col]!r}, '
                              f'holds {tag}', table=t)
                else:
                    ctx.violation(key + ':name', f'{label}: feature {col} has '
                                  f'no name, holds {tag}', table=t)
    kept = fn[:at] + fn[at + len(seenNames) * nVals:]
    ctx.check(all(t.fn[j] is None or t.fn[j] == kept[k]
                  for k, j in enumerate(si)), key + ':kept-names', lambda:
              f'{label} has {fn}', table=t)


def parseCase(ctx):
    rng = ctx.rng
    np_, nf = rng.randint(1, 5), rng.randint(1, 3)
    j = rng.randrange(nf)
    mode = rng.choice(['str', 'int', 'list', 'func', 'multi', 'neg',
                       'listlong'])
    parts = {'str': 2, 'int': 2, 'list': 3, 'func': 2, 'multi': 3, 'neg': 2,
             'listlong': 3}[mode]
    words = ['a', 'bc', 'def', 'é', 'xyz', 'q r', 'ab']
    rows, expect = [], []
    for _ in range(np_):
        w = [rng.choice(words) for _ in range(parts)]
        if mode == 'str':
            s, e = ', '.join(w), w
        elif mode == 'multi':
            s, e = '-'.join(w), w
        elif mode in ('int', 'neg'):
            s = w[0] + w[1] + 'zz'
            cut = 1 if mode == 'int' else -2
            e = [s[:cut], s[cut:]]
        elif mode == 'list':
            s = f'{w[0]}:{w[1]}|{w[2]}'
            e = w
        elif mode == 'listlong':
            s = f'{w[0]}::{w[1]}->{w[2]}'
            e = w
        else:
            s = w[0] + '/' + w[1]
            e = [w[1], w[0]]
        rows.append([s if c == j else rng.choice([1, 'k', 2.5, NAN])
                     for c in range(nf)])
        expect.append(e)
    rule = {'str': ', ', 'multi': '-', 'int': 1, 'neg': -2,
            'list': [':', '|'], 'listlong': ['::', '->'],
            'func': lambda v: v.split('/')[::-1]}[mode]
    t = Table(rows, gen.nameList(rng, np_, 'p', gen.modes(rng)),
              gen.nameList(rng, nf, 'f', gen.modes(rng)), nf)
    typ = rng.choice([x for x in gen.TYPES if x != 'Sparse'])
    obj = gen.build(ctx.nimble, t, typ, rng.choice(MUTABLE), rng)
    newNames = [f'r{k}' for k in range(parts)]
    bad = rng.random() < .15
    if bad:
        newNames = newNames + ['more'] if rng.random() < .5 else newNames[1:]
    arg = t.fn[j] if t.fn[j] is not None and rng.random() < .5 else j
    label = f'{typ} splitByParsing({arg!r}, {rule}, {newNames})'
    key = f'parse:{mode}'
    ctx.state('parse', mode, typ, bad, nf, j)
    ctx.event('parsed')
    before = freeze(obj)
    st, res = call(ctx, lambda: obj.features.splitByParsing(
        arg, rule, newNames, useLog=False))
    if bad:
        ctx.check(st == 'exc', key + ':not-refused', lambda: f'{label} with '
                  f'{parts} parts was accepted', table=t)
        d = frozenDiff(before, freeze(obj))
        ctx.check(d is None, key + ':refused-changed', lambda: f'{label}: '
                  f'{d}', table=t)
        return
    if st == 'exc':
        ctx.violation(f'{key}:raises-{type(res).__name__}', f'{label} raised '
                      f'{type(res).__name__}: {res} (in {where(res)})',
                      table=t)
    exp = Table([r[:j] + e + r[j + 1:] for r, e in zip(t.rows, expect)], t.pn,
                t.fn[:j] + newNames + t.fn[j + 1:], nf - 1 + parts)
    d = model.diff(obj, exp)
    ctx.check(d is None, key, lambda: f'{label}: {d}', table=t)
    p = model.invariants(obj)
    ctx.check(p is None, key + ':structure', lambda: f'{label}: {p}', table=t)


def encodeCase(ctx):
    """Binary features and integer codes stand for the values."""
    rng = ctx.rng
    t, by = keyTable(rng)
    j = by[0]
    # one feature with missing values is one more value, or none
    obj, typ, route = build(ctx, t, MUTABLE)
    arg = t.fn[j] if t.fn[j] is not None and rng.random() < .5 else j
    col = t.col(j)
    miss = any(isNan(v) for v in col)
    if len({type(v) for v in col if isNumber(v)} & {bool}) and \
            len({type(v) for v in col}) > 1:
        return
    if rng.random() < .5:
        label = f'{typ} ({route}) transformFeatureToIntegers({arg!r})'
        key = 'encode:integers'
        ctx.state('integers', typ, route, miss, len({model.key(v)
                                                     for v in col}))
        ctx.event('encoded')
        res = must(ctx, key, label, lambda: obj.transformFeatureToIntegers(
            arg, useLog=False))
        rows = model.rawRows(obj)
        ctx.check(list(obj.shape) == [t.np, t.nf], key + ':shape',
                  lambda: f'{label} has shape {obj.shape}', table=t)
        back = []
        for i in range(t.np):
            code = rows[i][j]
            ctx.check(isNumber(code) and not isNan(code) and code in res,
                      key + ':code', lambda: f'{label}: code {code} is not in '
                      f'{res}', table=t)
            back.append(res[code])
        ctx.check(equal(back, col), key, lambda: f'{label}: codes '
                  f'{[r[j] for r in rows]} with {res} stand for {back}, not '
                  f'{col}', table=t)
        n = len({model.key(v) for v in col})
        ctx.check(sorted(res) == list(range(n)), key + ':range', lambda:
                  f'{label}: {n} values have the codes {sorted(res)}',
                  table=t)
        others = [x for x in range(t.nf) if x != j]
        ctx.check(all(same(rows[i][x], t.rows[i][x]) for i in range(t.np)
                      for x in others), key + ':others', lambda: f'{label} '
                  f'changed another feature: {rows}', table=t)
        ctx.check(all(e is None or g == e for g, e in
                      zip(obj.features.getNames(), t.fn)), key + ':names',
                  lambda: f'{label} has {obj.features.getNames()}', table=t)
    else:
        label = f'{typ} ({route}) replaceFeatureWithBinaryFeatures({arg!r})'
        key = 'encode:binary'
        ctx.state('binary', typ, route, miss, len({model.key(v)
                                                   for v in col}))
        ctx.event('encoded')
        st, res = call(ctx, lambda: obj.replaceFeatureWithBinaryFeatures(
            arg, useLog=False))
        texts = {}
        for v in col:
            if not isNan(v):
                texts.setdefault(str(v), set()).add(model.key(v))
        if st == 'exc' and any(len(s) > 1 for s in texts.values()):
            return
        if st == 'exc':
            ctx.violation(f'{key}:raises-{type(res).__name__}', f'{label} '
                          f'raised {type(res).__name__}: {res} (in '
                          f'{where(res)})', table=t)
        rows = model.rawRows(obj)
        kinds = {model.key(v) for v in col if not isNan(v)}
        k = len(res)
        ctx.check(k in (len(kinds), len(kinds) + miss), key + ':count',
                  lambda: f'{label} made {res} for {col}', table=t)
        ctx.check(list(obj.shape) == [t.np, t.nf - 1 + k], key + ':shape',
                  lambda: f'{label} has shape {obj.shape}', table=t)
        ctx.check(obj.features.getNames()[j:j + k] == res if t.nf > 1 else
                  obj.features.getNames() == res, key + ':names', lambda:
                  f'{label} returned {res}, has {obj.features.getNames()}',
                  table=t)
        seen = {}
        for i in range(t.np):
            bits = rows[i][j:j + k] if t.nf > 1 else rows[i]
            ones = [c for c, b in enumerate(bits) if b == 1]
            ctx.check(all(b in (0, 1) for b in bits), key + ':bits', lambda:
                      f'{label}: point {i} has {bits}', table=t)
            if isNan(col[i]):
                ctx.check(len(ones) <= 1, key + ':missing', lambda: f'{label}:'
                          f' the missing point {i} has {bits}', table=t)
                continue
            ctx.check(len(ones) == 1, key + ':one', lambda: f'{label}: point '
                      f'{i} ({col[i]!r}) has {bits} of {res}', table=t)
            c = ones[0]
            tail = res[c].split('=')[-1]
            good = tail == str(col[i]) if isinstance(col[i], str) else \
                _num(tail) == col[i]
            ctx.check(good, key, lambda: f'{label}: point {i} ({col[i]!r}) is '
                      f'marked by {res[c]!r}', table=t)
            seen.setdefault(c, set()).add(model.key(col[i]))
        ctx.check(all(len(s) == 1 for s in seen.values()), key + ':merged',
                  lambda: f'{label}: {seen}', table=t)
        got = [r[:j] + r[j + k:] for r in rows]
        ctx.check(all(equal(g, r[:j] + r[j + 1:])
                      for g, r in zip(got, t.rows)), key + ':others', lambda:
                  f'{label} changed another feature: {rows}', table=t)
    p = model.invariants(obj)
    ctx.check(p is None, key + ':structure', lambda: f'{label}: {p}', table=t)
    ctx.check(all(e is None or g == e for g, e in
                  zip(obj.points.getNames(), t.pn)), key + ':point-names',
              lambda: f'{label} has {obj.points.getNames()}', table=t)


def _num(text):
    if text in ('True', 'False'):
        return text == 'True'
    try:
        return float(text)
    except ValueError:
        return None


KINDS = [('stat', 5, statCase), ('group', 3, groupCase),
         ('similar', 2, similarCase), ('normal', 3, normalCase),
         ('report', 1.2, reportCase), ('collapse', 1, collapseCase),
         ('expand', 1.2, expandCase), ('parse', .8, parseCase),
         ('encode', 2, encodeCase)]
