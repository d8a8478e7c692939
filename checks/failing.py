"""Calls that are refused, or fail half way (cases of C06)."""
import math
import operator

import numpy as np

from vlib import gen, model
from vlib.model import Table, NAN, isNumber
from vlib.runner import Skip, where
from checks.common import call, freeze, frozenDiff, pickType, typesFor

class Fault(Exception):
    pass


# things that are rarely the right argument
def hostile(rng, t, axis='feature'):
    a = t.fn if axis == 'feature' else t.pn
    n = len(a)
    good = [x for x in a if x is not None]
    return rng.choice([
        'notAName', n, n + 3, -n - 1, 1.5, NAN, None, [], {}, object(),
        [0, 'notAName'], ['notAName', 0], [0, n], [n, 0], [0, 0], True,
        [None], {'a': 1}, (0, 1), 'a=b=c', 'f0 >', '> 3', '', b'x',
        slice(0, 1), {0, 1}, 1j, np.array([0, 9]), [[0]], good + ['x y'],
        good[:1] * 2, lambda: 1, lambda a, b, c: 1, 'all', float('inf')])


def ident(rng, t, axis):
    a = t.fn if axis == 'feature' else t.pn
    if not a:
        return 0
    j = rng.randrange(len(a))
    return rng.choice([j, j - len(a), a[j] if a[j] is not None else j])


def idents(rng, t, axis):
    a = t.fn if axis == 'feature' else t.pn
    k = rng.randint(0, len(a))
    js = rng.sample(range(len(a)), k)
    return [rng.choice([j, j - len(a), a[j] if a[j] is not None else j])
            for j in js]


def some(rng, t, axis):
    """an identifier argument: fine, or spoiled"""
    r = rng.random()
    if r < .25:
        return ident(rng, t, axis)
    if r < .5:
        return idents(rng, t, axis)
    if r < .75:
        lst = idents(rng, t, axis)
        lst.insert(rng.randint(0, len(lst)), hostile(rng, t, axis))
        return lst
    return hostile(rng, t, axis)


class Faulty:
    """A user function that behaves until its k-th call."""

    def __init__(self, rng, good, bad, held):
        self.k = rng.randint(0, 6)
        self.n = 0
        self.good = good
        self.bad = bad
        self.held = held
        self.mode = rng.choice(['raise', 'raise', 'bad', 'late'])

    def function(self):
        def func(x):
            self.held.append(x)
            self.n += 1
            if self.n > self.k:
                if self.mode == 'raise':
                    raise Fault('user function')
                if self.mode == 'bad':
                    return self.bad
                if self.mode == 'late' and self.n > self.k + 2:
                    raise Fault('user function')
            return self.good(x)
        return func


def hostileValue(rng):
    return rng.choice([None, [], {}, object(), 'text', 1j, [1, 2, 3], NAN,
                       (1,), [[1]], {1: 2}, np.array([[1, 2]]), 3, True,
                       float('inf')])


def other(ctx, t, sameP=None, sameF=None):
    """another object: sizes and names that fit, nearly fit or collide"""
    rng = ctx.rng
    P = t.np if sameP else max(0, t.np + rng.choice([0, -1, 1, 2]))
    F = t.nf if sameF else max(0, t.nf + rng.choice([0, -1, 1]))
    if not P or not F:
        P = P or 1
        F = F or 1
    kind = rng.choice(['int', 'nan', 'str', 'mixed', 'float'])

    def nms(base, n, pre):
        r = rng.random()
        if r < .25:
            return None
        own = [x for x in base if x is not None]
        pool = own + [f'{pre}new{i}' for i in range(n)]
        if r < .6 and len(own) >= n:
            return rng.sample(own, n)
        lst = rng.sample(pool, n)
        if r > .9:
            lst[rng.randrange(n)] = None
        return lst
    rows = [[gen.value(rng, kind, j) for j in range(F)] for _ in range(P)]
    o = Table(rows, nms(t.pn, P, 'p'), nms(t.fn, F, 'f'), F)
    o.kind = kind
    return gen.build(ctx.nimble, o, pickType(rng, o), gen.anyRoute(rng), rng)


def keep(rng, op, t, axis, held):
    off = 'point' if axis == 'feature' else 'feature'
    d = rng.random()
    kw = {}
    if d < .45:
        sel = some(rng, t, axis)
    elif d < .6:
        sel = Faulty(rng, lambda v: rng.random() < .5, hostileValue(rng),
                     held).function()
        kw = rng.choice([{}, {}, {'number': 1}])
    elif d < .7:
        name = ident(rng, t, off)
        sel = f'{name} {rng.choice(["==", ">", "<", "=", "in", ">=<"])} ' \
              f'{rng.choice(["1", "x", "0.5", "", "missing"])}'
        kw = rng.choice([{}, {'number': 2}, {'number': -1},
                         {'randomize': True}])
    else:
        sel = None
        kw = {}
        for k in ('start', 'end'):
            if rng.random() < .6:
                kw[k] = rng.choice([ident(rng, t, axis),
                                    hostile(rng, t, axis)])
        if rng.random() < .5:
            kw['number'] = rng.choice([0, 1, -1, 99, None, 'a', 1.5])
        if rng.random() < .3:
            kw['randomize'] = True
    if rng.random() < .15:
        kw['points' if axis == 'feature' else 'features'] = \
            some(rng, t, off)
    return sel, kw


def opStructural(ctx, t, obj, axis, held):
    rng = ctx.rng
    op = rng.choice(['extract', 'delete', 'retain'])
    sel, kw = keep(rng, op, t, axis, held)
    ax = getattr(obj, axis + 's')
    if op == 'retain' and rng.random() < .2:
        pass
    return f'{axis}s.{op}', [sel, kw], lambda: getattr(ax, op)(
        sel, useLog=False, **kw)


def opSort(ctx, t, obj, axis, held):
    rng = ctx.rng
    off = 'point' if axis == 'feature' else 'feature'
    r = rng.random()
    if r < .7:
        by = some(rng, t, off)
        if rng.random() < .1 and t.nf > 1 and off == 'feature':
            by = operator.itemgetter(0, hostile(rng, t, off))
    else:
        by = Faulty(rng, lambda v: len(held), hostileValue(rng),
                    held).function()
    rev = rng.random() < .3
    return f'{axis}s.sort', [by], lambda: getattr(obj, axis + 's').sort(
        by, reverse=rev, useLog=False)


def opPermute(ctx, t, obj, axis, held):
    rng = ctx.rng
    n = t.np if axis == 'point' else t.nf
    order = list(range(n))
    rng.shuffle(order)
    nms = t.pn if axis == 'point' else t.fn
    order = [nms[i] if nms[i] is not None and rng.random() < .3 else i
             for i in order]
    if rng.random() < .8 and n:
        i = rng.randrange(n)
        order[i] = rng.choice([order[(i + 1) % n], n, -1, 'notAName', None,
                               1.5])
        if rng.random() < .3:
            order = order[:-1] or [5]
    return f'{axis}s.permute', [order], lambda: getattr(
        obj, axis + 's').permute(order, useLog=False)


def opInsert(ctx, t, obj, axis, held):
    rng = ctx.rng
    what = other(ctx, t, sameP=axis == 'feature' and rng.random() < .7,
                 sameF=axis == 'point' and rng.random() < .7)
    if rng.random() < .1:
        what = rng.choice([obj, [[1, 2]], None, obj.points, 'text'])
    ax = getattr(obj, axis + 's')
    if rng.random() < .5:
        return f'{axis}s.append', [what], lambda: ax.append(
            what, useLog=False)
    at = rng.choice([ident(rng, t, axis), None, hostile(rng, t, axis)])
    return f'{axis}s.insert', [at, what], lambda: ax.insert(
        at, what, useLog=False)


def opNames(ctx, t, obj, axis, held):
    rng = ctx.rng
    nms = t.pn if axis == 'point' else t.fn
    n = len(nms)
    r = rng.random()
    ax = getattr(obj, axis + 's')
    if r < .35:
        new = [f'n{i}' for i in range(n)]
        if n:
            new[rng.randrange(n)] = rng.choice(
                ['n0', 'n1', 5, None, NAN, object(), '', [1]])
        if rng.random() < .3:
            new = new + ['extra']
        if rng.random() < .3:
            new = {(v if isinstance(v, str) else 'd'): i
                   for i, v in enumerate(new)}
            if new and rng.random() < .7:
                new[rng.choice(list(new))] = rng.choice([0, 99, -1, 'x',
                                                         None])
        return f'{axis}s.setNames', [new], lambda: ax.setNames(
            new, useLog=False)
    if r < .75:
        old = some(rng, t, axis)
        k = len(old) if isinstance(old, (list, tuple)) else 1
        pool = [x for x in nms if x is not None] + ['new1', 'new2', 'new3']
        new = [rng.choice(pool) for _ in range(k)]
        if k == 1 and rng.random() < .5:
            new = new[0]
        if rng.random() < .15:
            new = rng.choice([5, None, [5], ['a', 'b', 'c', 'd']])
        return f'{axis}s.setNames', [new, old], lambda: ax.setNames(
            new, oldIdentifiers=old, useLog=False)
    if r < .85:
        val = rng.choice([5, 'name', None, [1], object(), 1.5])
        return 'name=', [val], lambda: setattr(obj, 'name', val)
    new = rng.choice(['text', 5, object(), {'a': 'b'}, [[1]], (),
                      {None: 0}, iter(['z']), np.array(['a', 'a', 'b'])])
    return f'{axis}s.setNames', [new], lambda: ax.setNames(new, useLog=False)


def elemFault(ctx, t, held):
    rng = ctx.rng
    good = rng.choice([
        lambda v: v + 1 if isNumber(v) and not isinstance(v, bool) else v,
        lambda v: 0, lambda v: v, lambda v: 'z',
        lambda v: None, lambda v: 2.5])
    return Faulty(rng, good, hostileValue(rng), held)


def opElements(ctx, t, obj, axis, held):
    rng = ctx.rng
    r = rng.random()
    if r < .8:
        f = elemFault(ctx, t, held).function()
        if rng.random() < .3:
            g = f

            def f(v, i, j):  # pylint: disable=function-redefined
                return g(v)
    elif r < .95:
        f = {k: hostileValue(rng) for k in (0, 1, 'a', 'b') if
             rng.random() < .7}
        if rng.random() < .3:
            f['zz'] = 1
    else:
        f = hostileValue(rng)
    kw = {}
    for k in ('points', 'features'):
        if rng.random() < .3:
            kw[k] = some(rng, t, k[:-1])
    for k in ('preserveZeros', 'skipNoneReturnValues'):
        if rng.random() < .2:
            kw[k] = True
    return 'transformElements', [f, kw], lambda: obj.transformElements(
        f, useLog=False, **kw)


def opTransform(ctx, t, obj, axis, held):
    rng = ctx.rng
    n = t.nf if axis == 'point' else t.np
    good = rng.choice([lambda v: [1] * len(v), lambda v: [0] * len(v),
                       lambda v: [x for x in v], lambda v: v,
                       lambda v: ['s'] * len(v)])
    bad = rng.choice([None, [1] * (n + 1), [], 5, 'text', [[1]] * n, {},
                      [None] * n, [object()] * n, [1] * max(n - 1, 0)])
    f = Faulty(rng, good, bad, held).function()
    kw = {}
    if rng.random() < .4:
        kw[axis + 's'] = some(rng, t, axis)
    if rng.random() < .05:
        f = hostileValue(rng)
    return f'{axis}s.transform', [f, kw], lambda: getattr(
        obj, axis + 's').transform(f, useLog=False, **kw)


def opFill(ctx, t, obj, axis, held):
    rng = ctx.rng
    nimble = ctx.nimble
    r = rng.random()
    if r < .3:
        matching = rng.choice([nimble.match.missing, 0, [0, 1, 'a'],
                               nimble.match.numeric, 'a'])
    elif r < .5:
        matching = other(ctx, t, True, True)
    else:
        matching = Faulty(rng, lambda v: v in (0, 1) or v != v,
                          hostileValue(rng), held).function()
    r = rng.random()
    fill = nimble.fill
    if r < .3:
        good = rng.choice([lambda v: [0] * len(v), lambda v: 0,
                           lambda v: [x for x in v]])
        faulty = Faulty(rng, good, rng.choice([None, [1], 'x', {}, []]),
                        held).function()

        def filler(vec, match):
            return faulty(vec)
    elif r < .65:
        filler = rng.choice([fill.mean, fill.median, fill.mode,
                             fill.forwardFill, fill.backwardFill,
                             fill.interpolate])
    elif r < .9:
        filler = rng.choice([0, 'a', None, NAN, [1] * t.nf, [1, 2], {},
                             object(), 'skl.SimpleImputer', 'noLearner'])
    else:
        filler = other(ctx, t, rng.random() < .7, rng.random() < .7)
    kw = {}
    if rng.random() < .4:
        kw[axis + 's'] = some(rng, t, axis)
    if rng.random() < .15:
        kw[rng.choice(['strategy', 'notThere', 'points', 'features'])] = \
            rng.choice(['mean', 'bad', 0])
    return f'{axis}s.fillMatching', [filler, matching, kw], lambda: getattr(
        obj, axis + 's').fillMatching(filler, matching, useLog=False, **kw)


def opReplace(ctx, t, obj, axis, held):
    rng = ctx.rng
    r = rng.random()
    if r < .6:
        data = other(ctx, t, axis == 'feature' and rng.random() < .7,
                     axis == 'point' and rng.random() < .7)
    else:
        data = rng.choice([[[1, 2]], [[1], [2]], [1] * t.nf, [1] * t.np,
                           None, 'text', 5, np.ones((t.np, t.nf)),
                           [['a'] * t.nf], {}, [[1, 2], [3]]])
    args = [data]
    if rng.random() < .7:
        args.append(some(rng, t, axis))
    kw = {}
    if rng.random() < .1:
        kw = {'notThere': 1}
    return f'{axis}s.replace', args + [kw], lambda: getattr(
        obj, axis + 's').replace(*args, useLog=False, **kw)


def opRectangle(ctx, t, obj, axis, held):
    rng = ctx.rng
    what = rng.choice([0, 5, 'a', None, NAN, other(ctx, t, True, True),
                       other(ctx, t), [[1]], obj, object()])
    pos = [rng.choice([ident(rng, t, ax), ident(rng, t, ax),
                       hostile(rng, t, ax)])
           for ax in ('point', 'feature', 'point', 'feature')]
    pos = pos[:rng.choice([2, 4, 4])]
    return 'replaceRectangle', [what] + pos, lambda: obj.replaceRectangle(
        what, *pos, useLog=False)


def opSetitem(ctx, t, obj, axis, held):
    rng = ctx.rng
    i = rng.choice([ident(rng, t, 'point'), hostile(rng, t, 'point'),
                    slice(0, 9)])
    j = rng.choice([ident(rng, t, 'feature'), hostile(rng, t, 'feature')])
    v = rng.choice([hostileValue(rng), 5, other(ctx, t)])
    key = (i, j) if rng.random() < .8 else i
    return 'setitem', [key, v], lambda: operator.setitem(obj, key, v)


def opMerge(ctx, t, obj, axis, held):
    rng = ctx.rng
    modes = ['strict', 'union', 'left', 'intersection', 'bad']
    what = other(ctx, t, rng.random() < .6, rng.random() < .6)
    kw = {'point': rng.choice(modes), 'feature': rng.choice(modes)}
    if rng.random() < .6:
        kw['onFeature'] = rng.choice([ident(rng, t, 'feature'),
                                      hostile(rng, t, 'feature')])
    if rng.random() < .4:
        kw['force'] = True
    return 'merge', [what, kw], lambda: obj.merge(what, useLog=False, **kw)


def opFeatureOps(ctx, t, obj, axis, held):
    rng = ctx.rng
    op = rng.choice(['binary', 'integers', 'parse', 'parse', 'collapse',
                     'expand', 'normalize', 'normalize', 'repeat',
                     'flatten', 'unflatten', 'transpose'])
    f = rng.choice([ident(rng, t, 'feature'), hostile(rng, t, 'feature')])
    if op == 'binary':
        return op, [f], lambda: obj.replaceFeatureWithBinaryFeatures(
            f, useLog=False)
    if op == 'integers':
        return op, [f], lambda: obj.transformFeatureToIntegers(
            f, useLog=False)
    if op == 'parse':
        rule = rng.choice([1, [1], '_', 'b', 99, None, Faulty(
            rng, lambda v: [str(v), 'b'], rng.choice([None, ['a'], 5,
                                                      ['a', 'b', 'c']]),
            held).function()])
        new = rng.choice([['u', 'v'], ['u'], ['u', 'u'], 'uv', None,
                          [x for x in t.fn if x is not None][:2], [1, 2]])
        return op, [f, rule, new], lambda: obj.features.splitByParsing(
            f, rule, new, useLog=False)
    if op == 'collapse':
        fs = some(rng, t, 'feature')
        own = [x for x in t.fn if x is not None] + ['u', 'v']
        a, b = rng.choice(own), rng.choice(own + [5, None])
        return op, [fs], lambda: obj.points.splitByCollapsingFeatures(
            fs, a, b, useLog=False)
    if op == 'expand':
        vals = some(rng, t, 'feature')
        mod = rng.random() < .4
        return op, [f, vals], lambda: obj.points.combineByExpandingFeatures(
            f, vals, modifyDuplicateFeatureNames=mod, useLog=False)
    if op == 'normalize':
        n = t.np
        ap = other(ctx, t, rng.random() < .5, rng.random() < .7) \
            if rng.random() < .5 else None

        def shift(v):
            return v - 1
        good = rng.choice([shift, lambda v: v, lambda v: v * 2])
        faulty = Faulty(rng, good, rng.choice([None, 5, [1] * (n + 1), 'x']),
                        held).function()
        fun = faulty
        if ap is not None:
            def fun(v1, v2):  # pylint: disable=function-redefined
                faulty(v2)
                return faulty(v1), good(v2)
            if rng.random() < .1:
                fun = faulty
        r = rng.random()
        nm = ctx.nimble.calculate
        if r < .2:
            fun = rng.choice([getattr(nm, n) for n in dir(nm)
                              if n.endswith('Normalize')])
        kw = {}
        if rng.random() < .4:
            kw['features'] = some(rng, t, 'feature')
        return op, [ap, kw], lambda: obj.features.normalize(
            fun, applyResultTo=ap, useLog=False, **kw)
    if op == 'repeat':
        ax = getattr(obj, axis + 's')
        a, b = rng.choice([0, -1, 1.5, 'a', None, 2]), rng.choice(
            [True, False, None, 'x'])
        return op, [a, b], lambda: ax.repeat(a, b, useLog=False)
    if op == 'flatten':
        a = rng.choice(['point', 'feature', 'bad', None, 5])
        return op, [a], lambda: obj.flatten(order=a, useLog=False)
    if op == 'unflatten':
        a = rng.choice([(2, 2), (t.np, t.nf), (1, 3), 5, None, (0,),
                        (2, -1), 'a', (2, 2, 2), (t.nf, 1)])
        o = rng.choice(['point', 'feature', 'bad'])
        return op, [a], lambda: obj.unflatten(a, order=o, useLog=False)
    a = rng.choice([1, None])
    return op, [], lambda: obj.transpose(*([] if a else [1]), useLog=False)


INPLACE = ['iadd', 'isub', 'imul', 'itruediv', 'ifloordiv', 'imod', 'ipow',
           'imatmul', 'iand', 'ior', 'ixor']


def opInplace(ctx, t, obj, axis, held):
    rng = ctx.rng
    name = rng.choice(INPLACE)
    r = rng.random()
    if r < .4:
        what = rng.choice([0, 1, 2.5, -1, True, None, 'a', NAN, [1], object(),
                           1j, .5, np.float64(0), 400])
    elif r < .8:
        what = other(ctx, t, rng.random() < .8, rng.random() < .8)
    else:
        what = obj if 1 not in (t.np, t.nf) else rng.choice([obj, obj.stretch
                                   if len(obj.dimensions) < 3 else 2])
    return name, [what], lambda: getattr(operator, name)(obj, what)


OPS = [(opStructural, 3), (opSort, 2), (opPermute, 1), (opInsert, 2.5),
       (opNames, 2), (opElements, 2.5), (opTransform, 2.5), (opFill, 3),
       (opReplace, 2), (opRectangle, 1.5), (opSetitem, 1.5), (opMerge, 3),
       (opFeatureOps, 4), (opInplace, 2)]


def table(rng):
    t = gen.table(rng, maxP=5, maxF=4)
    if rng.random() < .3 and t.np and t.nf and t.kind in (
            'int', 'float', 'nan', 'str'):
        # something that only fails on the way
        t.rows[-1][-1] = rng.choice(['late', NAN, None, 0])
    return t


def kindOps(ctx):
    rng = ctx.rng
    t = table(rng)
    typ = pickType(rng, t)
    route = gen.anyRoute(rng, views=False)
    obj = gen.build(ctx.nimble, t, typ, route, rng)
    held = []
    axis = rng.choice(['point', 'feature'])
    op = rng.choices([o for o, _ in OPS], [w for _, w in OPS])[0]
    name, args, func = op(ctx, t, obj, axis, held)
    judge(ctx, name, typ, obj, args, func, t, route)


def judge(ctx, name, typ, obj, args, func, t, route):
    text = name + '(' + ', '.join(describe(a) for a in args) + ')'
    label = f'{text} on {typ} ({route}) {t.rows} points {t.pn} features ' \
            f'{t.fn}'
    ctx.log(label)
    before = freeze(obj)
    argsBefore = [freeze(a) if not isinstance(a, type(iter([]))) else None
                  for a in args]
    ctx.event('attempts')
    st, res = call(ctx, func)
    if st == 'ok':
        ctx.event('accepted')
        return
    ctx.event('failed_calls')
    how = 'fault' if isinstance(res, Fault) or isinstance(
        res.__cause__, Fault) else type(res).__name__
    if how == 'fault':
        ctx.event('user_faults')
    ctx.state(name, how, typ)
    label += f' raised {type(res).__name__}: {str(res)[:200]}'
    d = frozenDiff(before, freeze(obj))
    ctx.check(d is None, f'{name}:changed-by-{how}', lambda: f'{label}: {d}')
    for b, a in zip(argsBefore, args):
        if b is not None:
            ctx.check(frozenDiff(b, freeze(a)) is None, f'{name}:argument',
                      lambda: f'{label}: an argument was changed, '
                      f'{frozenDiff(b, freeze(a))}')
    bad = model.invariants(obj)
    ctx.check(bad is None, f'{name}:inconsistent', lambda: f'{label}: {bad}')
    # it can still be used
    st, res = call(ctx, lambda: obj.copy())
    ctx.check(st == 'ok' and frozenDiff(before, freeze(obj)) is None,
              f'{name}:unusable', lambda: f'{label}; copying it afterwards '
              f'gives {res!r}')


def describe(a):
    if hasattr(a, 'getTypeString'):
        try:
            return f'{a.getTypeString()}({model.rawRows(a)}, ' \
                   f'{a.points.getNames()}, {a.features.getNames()})'
        except Exception:  # pylint: disable=broad-except
            return 'object'
    if callable(a):
        return 'func'
    return repr(a)[:200]


# -- more than two dimensions -------------------------------------------------

def kindCube(ctx):
    rng = ctx.rng
    raw, dims = gen.cube(rng)
    typ = rng.choice(gen.TYPES)
    obj = gen.buildCube(ctx.nimble, rng, raw, dims, typ)
    flat = math.prod(dims[1:])
    t = Table([[0] * flat for _ in range(dims[0])], [None] * dims[0],
              [None] * flat, flat)
    t.kind = 'int'
    held = []
    axis = rng.choice(['point', 'feature'])
    op = rng.choices([o for o, _ in OPS], [w for _, w in OPS])[0]
    name, args, func = op(ctx, t, obj, axis, held)
    if op in (opInsert, opReplace, opMerge) and rng.random() < .5:
        raw2, dims2 = gen.cube(rng)
        what = gen.buildCube(ctx.nimble, rng, raw2, dims2,
                             rng.choice(gen.TYPES))
        name, args = 'points.append', [what]

        def func():  # pylint: disable=function-redefined
            return obj.points.append(what, useLog=False)
    ctx.event('cubes')
    judge(ctx, name + ':cube', typ, obj, args, func, t, f'dimensions {dims}')
