"""Filling replaces exactly the matched elements."""
import math

import numpy as np

from vlib import gen, model
from vlib.model import Table, NAN, isNan, isNumber, same
from vlib.runner import where
from checks.common import call, must, typesFor, freeze, frozenDiff

PROPERTY = 'C14'
RULE = ('tables of every kind, type and history filled along both axes with '
        'constants, every strategy of nimble.fill and recorded functions, '
        'matching by value, list, function, query or boolean object, limited '
        'to single, listed (in any order), named or negative identifiers; '
        'fill functions called on vectors; whole objects filled by learners; '
        'compared with a reference in plain python; non-trivial: distinct '
        '(strategy, match form, limit form, axis, type, route, match '
        'pattern)')
QUICK = {'cases': 9000, 'seconds': 70}
THOROUGH = {'cases': 120000, 'seconds': 800}
MIN = {'filled': 3000, 'elements_filled': 4000, 'untouched': 20000,
       'refused': 250, 'mask_unsorted': 60, 'direct': 900, 'learner': 300,
       'recorded_calls': 400, 'views_refused': 30, 'no_match': 150,
       'all_match': 120, 'learner_refused': 10}

STRATEGIES = ['constant', 'constant', 'mean', 'median', 'mode', 'forwardFill',
              'backwardFill', 'interpolate', 'recorder']


class Refuse(Exception):
    """The reference says there is no value to fill with."""


# -- reference ---------------------------------------------------------------

def numeric(vals):
    return all(isNumber(v) and type(v) is not bool for v in vals)


def average(how, vals):
    if not all(isNumber(v) for v in vals if not isNan(v)):
        raise Refuse('non-numeric')
    vals = sorted(v for v in vals if not isNan(v))
    if not vals:
        raise Refuse('nothing to use')
    if how == 'mean':
        return math.fsum(vals) / len(vals)
    n = len(vals)
    return vals[n // 2] if n % 2 else (vals[n // 2 - 1] + vals[n // 2]) / 2


def theMode(vals):
    """The single documented mode, or the list of candidates if the
    documented order does not exist."""
    counts = {}
    for v in vals:
        if not isNan(v):
            counts.setdefault(model.key(v), []).append(v)
    if not counts:
        raise Refuse('nothing to use')
    most = max(map(len, counts.values()))
    modes = [c[0] for c in counts.values() if len(c) == most]
    try:
        modes.sort()
    except TypeError:
        raise Refuse('maybe') from None
    return modes[(len(modes) - 1) // 2]


def interp(x, xp, fp, left=None, right=None):
    if not xp:
        raise Refuse('nothing to use')
    if x < xp[0]:
        return fp[0] if left is None else left
    if x > xp[-1]:
        return fp[-1] if right is None else right
    for k in range(len(xp) - 1):
        if xp[k] <= x <= xp[k + 1]:
            if x == xp[k]:
                return fp[k]
            if x == xp[k + 1]:
                return fp[k + 1]
            return fp[k] + (fp[k + 1] - fp[k]) * (x - xp[k]) / (
                xp[k + 1] - xp[k])
    return fp[-1]


def fillVector(how, vec, match, arg=None, kw=None):
    """The vector after filling."""
    kw = kw or {}
    keep = [v for v, m in zip(vec, match) if not m]
    if how == 'constant':
        return [arg if m else v for v, m in zip(vec, match)]
    if how in ('mean', 'median', 'mode'):
        if not any(match):
            return list(vec)
        f = theMode(keep) if how == 'mode' else average(how, keep)
        return [f if m else v for v, m in zip(vec, match)]
    if how == 'forwardFill':
        if match[0]:
            raise Refuse('first')
        ret = []
        for v, m in zip(vec, match):
            ret.append(ret[-1] if m else v)
        return ret
    if how == 'backwardFill':
        return fillVector('forwardFill', vec[::-1], match[::-1])[::-1]
    if how == 'interpolate':
        if not any(match):
            if not numeric(keep):
                raise Refuse('maybe')
            return list(vec)
        if not numeric(keep):
            raise Refuse('non-numeric')
        xp = [i for i, m in enumerate(match) if not m]
        return [interp(i, kw.get('xp', xp), kw.get('fp', keep),
                       kw.get('left'), kw.get('right')) if m else v
                for i, (v, m) in enumerate(zip(vec, match))]
    raise ValueError(how)


# -- what matches ------------------------------------------------------------

def matchForm(rng, t, nimble, mask=True):
    """(form, argument builder(obj), predicate(value, i, j), text)."""
    flat = [v for r in t.rows for v in r]
    # '>' alone can be read as a query
    real = [v for v in flat if not isNan(v) and v != '>']
    forms = ['value', 'value', 'list', 'missing', 'nan', 'function', 'query',
             'nanlist']
    if mask:
        forms += ['mask', 'mask']
    form = rng.choice(forms)
    if form == 'value':
        c = rng.choice(real) if real and rng.random() < .85 else 'nope'
        return form, lambda o: c, lambda v, i, j: same(v, c, 0), repr(c)
    if form in ('list', 'nanlist'):
        c = rng.sample(real, min(len(real), rng.randint(1, 3)))
        if rng.random() < .3:
            c.append('nope')
        if form == 'nanlist':
            c.insert(rng.randint(0, len(c)), rng.choice([NAN, np.nan]))
        arg = rng.choice([list, tuple])(c)
        return (form, lambda o: arg,
                lambda v, i, j: any(same(v, x, 0) for x in c), repr(arg))
    if form == 'nan':
        return form, lambda o: NAN, lambda v, i, j: isNan(v), 'nan'
    if form == 'missing':
        return (form, lambda o: nimble.match.missing,
                lambda v, i, j: isNan(v), 'match.missing')
    if form == 'function':
        k = rng.choice(['zero', 'positive', 'nonNumeric', 'all', 'numeric',
                        'own'])
        if k == 'all':
            return (form, lambda o: lambda v: True, lambda v, i, j: True,
                    'everything')
        num = lambda v: isNumber(v) and not isNan(v)
        preds = {'zero': lambda v: num(v) and v == 0,
                 'positive': lambda v: num(v) and v > 0,
                 'nonNumeric': lambda v: not isNumber(v),
                 'numeric': isNumber,
                 'own': lambda v: num(v) and v >= 2}
        p = preds[k]
        arg = p if k == 'own' else getattr(nimble.match, k)
        return form, lambda o: arg, lambda v, i, j: bool(p(v)), k
    if form == 'query':
        if any(isinstance(v, str) for v in real):
            s = [v for v in real if isinstance(v, str)]
            w = rng.choice([x for x in s if not x.isdigit()] or ['zz'])
            q = rng.choice([f'== {w}', 'is missing', f'!={w}'])
            preds = {f'== {w}': lambda v: v == w,
                     'is missing': isNan, f'!={w}': lambda v: v != w}
            return form, lambda o: q, lambda v, i, j: preds[q](v), q
        c = rng.choice([0, 1, 2.5, -1])
        op = rng.choice(['==', '<', '>', '<=', '>=', 'is zero',
                         'is missing', 'is not missing'])
        if op.startswith('is'):
            f = {'is zero': lambda v: not isNan(v) and v == 0,
                 'is missing': isNan,
                 'is not missing': lambda v: not isNan(v)}[op]
            return form, lambda o: op, lambda v, i, j: f(v), op
        f = {'==': lambda v: v == c, '<': lambda v: v < c,
             '>': lambda v: v > c, '<=': lambda v: v <= c,
             '>=': lambda v: v >= c}[op]
        q = f'{op} {c}' if rng.random() < .5 else f'{op}{c}'
        return form, lambda o: q, lambda v, i, j: f(v), q
    p = rng.choice([.15, .4, .7, 1])
    bits = [[rng.random() < p for _ in r] for r in t.rows]
    typ = rng.choice([None] + gen.TYPES)

    def makeMask(o):
        if rng.random() < .3:
            # the way a user gets one
            return o.matchingElements(lambda v, i, j: bits[i][j],
                                      useLog=False)
        names = {}
        if rng.random() < .3:
            names = {'pointNames': [f'mp{i}' for i in range(t.np)],
                     'featureNames': [f'mf{i}' for i in range(t.nf)]}
        return nimble.data(bits, returnType=typ, useLog=False, **names)
    return 'mask', makeMask, lambda v, i, j: bits[i][j], f'mask {bits}'


def limitForm(rng, n, names):
    """(form, argument, indices in order)."""
    form = rng.choice(['none', 'none', 'index', 'list', 'list', 'sorted',
                       'name', 'mixed', 'negative'])
    if form == 'none':
        return form, None, list(range(n))
    if form == 'index':
        i = rng.randrange(n)
        return form, i, [i]
    if form == 'negative':
        i = rng.randrange(n)
        return form, i - n, [i]
    idx = rng.sample(range(n), rng.randint(1, n))
    if form == 'sorted':
        idx.sort()
    if form in ('list', 'sorted'):
        arg = idx if rng.random() < .7 else tuple(idx)
        return form, arg, idx
    if form == 'name':
        i = idx[0]
        if names[i] is None:
            return 'index', i, [i]
        return form, names[i], [i]
    arg = [names[i] if names[i] is not None and rng.random() < .6 else
           (i if rng.random() < .6 else i - n) for i in idx]
    return form, arg, idx


def fillTable(rng):
    kind = rng.choice(['int', 'intsparse', 'float', 'nan', 'nan', 'str',
                       'mixed', 'mixedcols', 'strnan', 'floatsparse', 'bool',
                       'numnan'])
    if kind in ('strnan', 'numnan'):
        t = gen.table(rng, 'int')
        pool = ['a', 'b', 'a', NAN, 'c', NAN] if kind == 'strnan' else \
            [NAN, NAN, NAN, 1, 2, 4.5]
        t.rows = [[rng.choice(pool) for _ in r] for r in t.rows]
        t.kind = kind
        return t
    t = gen.table(rng, kind)
    # text that reads as a number is left out
    t.rows = [['11 o' if v == '10' else v for v in r] for r in t.rows]
    return t


def build(ctx, t, routes=None):
    rng = ctx.rng
    typ = rng.choice(typesFor(t))
    route = rng.choice(routes) if routes else gen.anyRoute(rng)
    if t.kind == 'bool':
        route = 'direct'
    return gen.build(ctx.nimble, t, typ, route, rng), typ, route


FILLS = [0, 1, -7, 2.5, NAN, None, 'new', 1e6, 99]


def strategy(rng, nimble, t, typ):
    """(name, argument, fillWith, keywords)."""
    how = rng.choice(STRATEGIES)
    kw = {}
    if t.kind == 'bool':
        how = rng.choice(['constant', 'mode', 'forwardFill', 'backwardFill'])
    if how == 'constant':
        c = rng.choice([f for f in FILLS if typ != 'Sparse'
                        or f is None or isNumber(f)])
        if t.kind == 'bool':
            c = rng.random() < .5
        if rng.random() < .15:
            return how, c, nimble.fill.constant, {'constantValue': c}
        return how, c, c, kw
    if how == 'recorder':
        return how, None, None, kw
    if how == 'interpolate' and rng.random() < .3:
        for side in rng.sample(['left', 'right'], rng.randint(1, 2)):
            kw[side] = rng.choice([0, -100, 3.5])
    return how, None, getattr(nimble.fill, how), kw


def pattern(masks):
    s = set()
    for m in masks:
        if not any(m):
            s.add('none')
        elif all(m):
            s.add('all')
        else:
            s.add('some')
            if m[0]:
                s.add('first')
            if m[-1]:
                s.add('last')
    return ''.join(sorted(x[0] for x in s))


def methodCase(ctx):
    rng, nimble = ctx.rng, ctx.nimble
    t = fillTable(rng)
    byPoint = rng.random() < .5
    form, makeArg, pred, text = matchForm(rng, t, nimble)
    obj, typ, route = build(ctx, t)
    how, const, fillWith, kw = strategy(rng, nimble, t, typ)
    if t.kind == 'bool' and form in ('function', 'query', 'value', 'list',
                                     'nanlist'):
        return
    n = t.np if byPoint else t.nf
    names = t.pn if byPoint else t.fn
    limForm, lim, idx = limitForm(rng, n, names)
    chosen = set(idx)
    match = [[bool(pred(v, i, j)) for j, v in enumerate(r)]
             for i, r in enumerate(t.rows)]
    vecs, masks = t.rows, match
    if not byPoint:
        vecs, masks = [list(c) for c in zip(*t.rows)], \
            [list(c) for c in zip(*match)]
    arg = makeArg(obj)
    seen = []
    if how == 'recorder':
        kw = rng.choice([{}, {'extra': 5}])

        def fillWith(vector, match, **kwargs):
            seen.append((model.rawRows(vector), list(vector.dimensions),
                         vector.points.getNames(), vector.features.getNames(),
                         match, kwargs))
            return [f'{typ}!' if typ != 'Sparse' else 41
                    for _ in range(len(vector))]
    exp, refuse = [], None
    for k, (v, m) in enumerate(zip(vecs, masks)):
        if k not in chosen:
            exp.append(list(v))
            continue
        try:
            if how == 'recorder':
                exp.append([f'{typ}!' if typ != 'Sparse' else 41] * len(v))
            else:
                exp.append(fillVector(how, v, m, const, kw))
        except Refuse as e:
            refuse = refuse if refuse not in (None, 'maybe') else str(e)
            exp.append(list(v))
    axis = 'points' if byPoint else 'features'
    label = (f'{typ} ({route}) {axis}.fillMatching({how} {const!r}, {text}, '
             f'{lim!r}, {kw})')
    key = f'fill:{how}:{form}:{axis}'
    ctx.state(how, form, limForm, axis, typ, route,
              pattern([masks[k] for k in chosen]), refuse)
    for k in chosen:
        if all(masks[k]):
            ctx.event('all_match')
        elif not any(masks[k]):
            ctx.event('no_match')
    before = freeze(obj)
    argBefore = freeze(arg) if form in ('mask', 'list', 'nanlist') else None
    f = getattr(obj, axis).fillMatching

    def go():
        if lim is None and rng.random() < .5:
            return f(fillWith, arg, useLog=False, **kw)
        return f(fillWith, arg, lim, useLog=False, **kw)
    st, res = call(ctx, go)
    if route == 'view':
        ctx.check(st == 'exc', key + ':view', lambda: f'{label} on a view was '
                  f'not refused', table=t)
        d = frozenDiff(before, freeze(obj))
        ctx.check(d is None, key + ':view-changed', lambda: f'{label}: {d}',
                  table=t)
        ctx.event('views_refused')
        return
    if form == 'mask' and idx != sorted(idx):
        ctx.event('mask_unsorted')
    if argBefore is not None:
        d = frozenDiff(argBefore, freeze(arg))
        ctx.check(d is None, key + ':argument', lambda: f'{label}: the '
                  f'matching argument {d}', table=t)
    if refuse is not None:
        if st == 'exc':
            ctx.event('refused')
            # whatever was not matched, and the names, stay
            got = model.rawRows(obj)
            want = [[(None if m else v) for v, m in zip(r, mr)]
                    for r, mr in zip(t.rows, match)]
            bad = [(i, j) for i, r in enumerate(want)
                   for j, v in enumerate(r)
                   if not match[i][j] and not same(got[i][j], v)]
            ctx.check(not bad, key + ':refused-changed', lambda: f'{label} '
                      f'raised {res} but changed {bad}', table=t)
            p = model.invariants(obj)
            ctx.check(p is None, key + ':refused-structure',
                      lambda: f'after {label} raised {res}: {p}', table=t)
        elif refuse != 'maybe':
            ctx.violation(f'{key}:not-refused', f'{label} was accepted though '
                          f'there is {refuse}: {model.rawRows(obj)}', table=t)
        return
    if st == 'exc':
        ctx.violation(f'{key}:raises-{type(res).__name__}', f'{label} raised '
                      f'{type(res).__name__}: {res} (in {where(res)})',
                      table=t)
        return
    ctx.check(res is None, key + ':returns', lambda: f'{label} returned '
              f'{res!r}')
    rows = exp if byPoint else [list(r) for r in zip(*exp)]
    d = model.diff(obj, Table(rows, t.pn, t.fn, t.nf))
    ctx.check(d is None, key, lambda: f'{label}: {d}', table=t)
    p = model.invariants(obj)
    ctx.check(p is None, key + ':structure', lambda: f'after {label}: {p}',
              table=t)
    ctx.event('filled')
    hit = sum(masks[k][c] for k in chosen for c in range(len(masks[k])))
    ctx.event('elements_filled', hit)
    ctx.event('untouched', t.np * t.nf - hit)
    if how == 'recorder':
        checkSeen(ctx, key, label, t, byPoint, idx, seen, arg, form, masks,
                  kw)


def checkSeen(ctx, key, label, t, byPoint, idx, seen, arg, form, masks, kw):
    """The function got each selected vector once, with the arguments."""
    left = sorted(idx)
    ctx.check(len(seen) == len(left), key + ':calls', lambda: f'{label} called '
              f'the function {len(seen)} times, for {left}', table=t)
    for k, (rows, dims, pn, fn, match, kwargs) in zip(left, seen):
        e = t.take([k]) if byPoint else t.take(None, [k])
        ctx.event('recorded_calls')
        ctx.check(model.sameRows(rows, e.rows), key + ':vector', lambda:
                  f'{label} gave the function {rows} for {k}, expected '
                  f'{e.rows}', table=t)
        ctx.check(all(a is None or a == b for a, b in zip(e.pn, pn))
                  and all(a is None or a == b for a, b in zip(e.fn, fn)),
                  key + ':vector-names', lambda: f'{label} gave the function a '
                  f'vector named {pn} {fn}, expected {e.pn} {e.fn}', table=t)
        ctx.check(kwargs == kw, key + ':keywords', lambda: f'{label} passed '
                  f'{kwargs}', table=t)
        if form == 'mask':
            got = [bool(v) for r in model.rawRows(match) for v in r]
            ctx.check(got == masks[k], key + ':mask', lambda: f'{label} gave '
                      f'{k} the matches {got}, expected {masks[k]}', table=t)
        elif form == 'query':
            ctx.check(callable(match) or match == arg, key + ':match',
                      lambda: f'{label} gave {match!r}')
        else:
            ctx.check(match is arg or match == arg or match != match,
                      key + ':match', lambda: f'{label} gave {match!r}')


def directCase(ctx):
    """The fill functions called on a point or a feature."""
    rng, nimble = ctx.rng, ctx.nimble
    t = fillTable(rng)
    isPoint = rng.random() < .5
    k = rng.randrange(t.np if isPoint else t.nf)
    v = t.take([k]) if isPoint else t.take(None, [k])
    v.kind = t.kind
    if t.kind == 'bool':
        return
    form, makeArg, pred, text = matchForm(rng, v, nimble, mask=True)
    if form == 'query':
        return
    if rng.random() < .5:
        obj, typ, route = build(ctx, v)
    else:
        big, typ, route = build(ctx, t)
        obj = big.points[k] if isPoint else big.features[k]
        route = 'axis'
    how = rng.choice([s for s in STRATEGIES if s != 'recorder'])
    kw, const = {}, None
    if how == 'constant':
        const = rng.choice([f for f in FILLS if typ != 'Sparse'
                            or f is None or isNumber(f)])
        kw = {'constantValue': const}
    match = [[bool(pred(x, i, j)) for j, x in enumerate(r)]
             for i, r in enumerate(v.rows)]
    vec = [x for r in v.rows for x in r]
    m = [x for r in match for x in r]
    if how == 'interpolate' and rng.random() < .3:
        n = rng.randint(2, 4)
        kw = {'xp': sorted(rng.sample(range(-2, 9), n)),
              'fp': [rng.choice([0, 1.5, -3, 8]) for _ in range(n)]}
    try:
        exp, refuse = fillVector(how, vec, m, const, kw), None
    except Refuse as e:
        exp, refuse = None, str(e)
    if kw.get('xp') and not numeric([x for x, y in zip(vec, m) if not y]):
        return
    arg = makeArg(obj)
    label = (f'fill.{how}({typ} {route} {"point" if isPoint else "feature"} '
             f'{vec}, {text}, {kw})')
    key = f'direct:{how}:{form}:{"point" if isPoint else "feature"}'
    ctx.state('direct', how, form, isPoint, typ, route, pattern([m]), refuse)
    ctx.event('direct')
    before = freeze(obj)
    st, res = call(ctx, lambda: getattr(nimble.fill, how)(obj, arg, **kw))
    d = frozenDiff(before, freeze(obj))
    ctx.check(d is None, key + ':changed', lambda: f'{label}: the vector {d}',
              table=t)
    if refuse is not None:
        ctx.check(st == 'exc' or refuse == 'maybe', key + ':not-refused',
                  lambda: f'{label} was accepted though there is {refuse}: '
                  f'{res!r}')
        if st == 'exc' and how != 'interpolate' and refuse != 'maybe':
            ok = type(res).__name__ == 'InvalidArgumentValue'
            ctx.check(ok, key + ':exception', lambda: f'{label} raised '
                      f'{type(res).__name__}: {res} (in {where(res)})')
            if ok and refuse != 'non-numeric' and '{' not in str(res) and \
                    v.shape != (1, 1):
                other = 'feature' if isPoint else 'point'
                ctx.check(f'the {other} ' not in str(res).lower(),
                          key + ':message', lambda: f'{label} blames the '
                          f'wrong axis: {res}')
        ctx.event('refused')
        return
    if st == 'exc':
        ctx.violation(f'{key}:raises-{type(res).__name__}', f'{label} raised '
                      f'{type(res).__name__}: {res} (in {where(res)})',
                      table=t)
        return
    rows = model.rawRows(res)
    ctx.check(model.sameRows(rows, [exp] if isPoint else [[x] for x in exp]),
              key, lambda: f'{label} is {rows}, expected {exp}', table=t)
    ctx.check(res.getTypeString() == typ, key + ':type', lambda: f'{label} is '
              f'a {res.getTypeString()}')


# -- learners ----------------------------------------------------------------

def makeLearner(nimble):
    class Stamp(nimble.CustomLearner):
        """Replaces every element by a number telling its position, and
        checks nothing else arrives."""
        learnerType = 'transformation'

        def train(self, trainX, trainY=None, bad=False):
            self.bad = bad
            self.seen = model.rawRows(trainX)

        def apply(self, testX):
            if self.bad == 'raise':
                raise ValueError('the learner failed')
            Stamp.last = (self.seen, model.rawRows(testX))
            rows = [[1000 + 100 * i + j for j in range(len(testX.features))]
                    for i in range(len(testX.points))]
            if self.bad == 'narrow':
                rows = [r[1:] for r in rows]
            return nimble.data(rows, useLog=False)
    return Stamp


def learnerCase(ctx):
    rng, nimble = ctx.rng, ctx.nimble
    from nimble.exceptions import ImproperObjectAction
    t = gen.table(rng, rng.choice(['int', 'nan', 'float', 'intsparse']))
    form, makeArg, pred, text = matchForm(rng, t, nimble)
    if form == 'query':
        return
    obj, typ, route = build(ctx, t, ['direct', 'shuffled', 'transposed',
                                     'converted', 'extracted'])
    match = [[bool(pred(v, i, j)) for j, v in enumerate(r)]
             for i, r in enumerate(t.rows)]
    uncovered = any(isNan(v) and not m for r, mr in zip(t.rows, match)
                    for v, m in zip(r, mr))
    which = rng.choice(['stamp', 'stamp', 'simple', 'simple', 'auto', 'bad'])
    pf, pLim, pIdx = limitForm(rng, t.np, t.pn)
    ff, fLim, fIdx = limitForm(rng, t.nf, t.fn)
    kw, refuse = {}, 'nan left' if uncovered else None
    if which == 'simple':
        learner = 'skl.SimpleImputer'
        how = rng.choice(['mean', 'median', 'most_frequent', 'constant'])
        kw = {'strategy': how}
        if how == 'constant':
            kw['fill_value'] = 55
        fillVals = []
        for j in range(t.nf):
            keep = [r[j] for r, mr in zip(t.rows, match) if not mr[j]]
            try:
                if how == 'constant':
                    fv = 55
                elif how == 'most_frequent':
                    theMode(keep)
                    counts = {}
                    for v in keep:
                        counts[v] = counts.get(v, 0) + 1
                    most = max(counts.values())
                    fv = min(v for v, c in counts.items() if c == most)
                else:
                    fv = average(how, keep)
            except Refuse:
                # sklearn drops a feature holding nothing
                refuse = refuse or 'empty feature'
                fv = None
            if not keep:
                refuse = refuse or 'empty feature'
            fillVals.append(fv)
        value = lambda i, j: fillVals[j]
    elif which == 'auto':
        learner = 'autoimpute.SingleImputer'
        how = rng.choice(['mean', 'median', 'locf', 'nocb'])
        kw = {'strategy': how}
        columns = []
        for j in range(t.nf):
            col = [None if mr[j] else r[j] for r, mr in zip(t.rows, match)]
            keep = [v for v in col if v is not None]
            if not keep or uncovered:
                refuse = refuse or 'empty feature'
                columns.append([None] * t.np)
            elif how in ('mean', 'median'):
                columns.append([average(how, keep)] * t.np)
            else:
                # the last one seen is carried on; before the first one,
                # the first is used
                order = range(t.np) if how == 'locf' \
                    else range(t.np - 1, -1, -1)
                col2, seen = list(col), None
                for i in order:
                    if col[i] is not None:
                        seen = col[i]
                    elif seen is not None:
                        col2[i] = seen
                edge = keep[0] if how == 'locf' else keep[-1]
                columns.append([edge if v is None else v for v in col2])
        value = lambda i, j: columns[j][i]
    else:
        learner = makeLearner(nimble)
        value = lambda i, j: 1000 + 100 * i + j
        if which == 'bad':
            kw = {'bad': rng.choice(['raise', 'narrow'])}
            refuse = refuse or kw['bad']
    arg = makeArg(obj)
    label = (f'nimble.fillMatching({which}, {text}, {typ}, {kw}, points='
             f'{pLim!r}, features={fLim!r})')
    key = f'learner:{which}:{form}'
    ctx.state('learner', which, form, pf, ff, typ, route, refuse)
    ctx.event('learner')
    before = freeze(obj)
    inArgs = rng.random() < .5

    def go():
        lims = {}
        if pLim is not None:
            lims['points'] = pLim
        if fLim is not None:
            lims['features'] = fLim
        if inArgs:
            return nimble.fillMatching(learner, arg, obj, kw, useLog=False,
                                       **lims)
        return nimble.fillMatching(learner, arg, obj, useLog=False, **lims,
                                   **kw)
    st, res = call(ctx, go)
    if refuse:
        if refuse == 'nan left':
            ctx.check(st == 'exc' and type(res) is ImproperObjectAction,
                      key + ':nan-left', lambda: f'{label} with missing '
                      f'elements that do not match gave {res!r}', table=t)
        elif refuse == 'empty feature' and st == 'ok':
            # values must then at least be right where they can be
            got = model.rawRows(obj)
            for i in range(t.np):
                for j in range(t.nf):
                    m = match[i][j] and i in pIdx and j in fIdx
                    e = value(i, j) if m else t.rows[i][j]
                    if e is None:
                        continue
                    ctx.check(same(got[i][j], e), key + ':empty-feature',
                              lambda: f'{label}: element {i},{j} became '
                              f'{got[i][j]}, expected {e}', table=t)
            return
        else:
            ctx.check(st == 'exc', key + ':not-refused', lambda: f'{label} '
                      f'was accepted, {refuse}: {model.rawRows(obj)}',
                      table=t)
        ctx.event('learner_refused')
        d = frozenDiff(before, freeze(obj))
        ctx.check(d is None, key + ':refused-changed', lambda: f'{label} '
                  f'raised {res!r} but {d}', table=t)
        return
    if st == 'exc' and kw.get('strategy') == 'constant' and typ == 'Sparse' \
            and 'cannot be cast' in str(res):
        # scikit-learn does not fill integer sparse data with a constant
        ctx.event('sklearn_sparse_constant')
        return
    if st == 'exc':
        ctx.violation(f'{key}:raises-{type(res).__name__}', f'{label} raised '
                      f'{type(res).__name__}: {res} (in {where(res)})',
                      table=t)
        return
    exp = [[value(i, j) if match[i][j] and i in pIdx and j in fIdx else v
            for j, v in enumerate(r)] for i, r in enumerate(t.rows)]
    d = model.diff(obj, Table(exp, t.pn, t.fn, t.nf))
    ctx.check(d is None, key, lambda: f'{label}: {d}', table=t)
    p = model.invariants(obj)
    ctx.check(p is None, key + ':structure', lambda: f'after {label}: {p}',
              table=t)
    if which == 'stamp':
        want = [[NAN if m else v for v, m in zip(r, mr)]
                for r, mr in zip(t.rows, match)]
        for got in learner.last:
            ctx.check(model.sameRows(got, want), key + ':given', lambda:
                      f'{label} gave the learner {got}, expected {want}',
                      table=t)


KINDS = [('method', 7, methodCase), ('direct', 2.5, directCase),
         ('learner', 1.5, learnerCase)]
