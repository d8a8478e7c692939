"""Operators and broadcast arithmetic against python scalar arithmetic."""
import math
import operator

from vlib import gen, model
from vlib.model import Table, NAN, isNan, isNumber, same
from vlib.runner import where
from checks.common import call, freeze, frozenDiff, okForSparse, typesFor

PROPERTY = 'C07'
RULE = ('random numeric tables (zeros, missing, negative, large and '
        'fractional values) and scalars, every operator in plain, reflected '
        'and in-place form, every representation on either side reached '
        'through different histories, equal / absent / partial / disjoint / '
        'conflicting names, broadcasting in both directions, two to four '
        'dimensional objects, matrix products and powers, logical operators, '
        'equality against single changes; non-trivial: distinct (operator, '
        'form, representations, name pattern, shape class, outcome)')
QUICK = {'cases': 12000, 'seconds': 90}
THOROUGH = {'cases': 250000, 'seconds': 800}
MIN = {'elements_compared': 40000, 'zero_division_refused': 200,
       'names_refused': 100, 'names_merged': 500, 'stretched': 1000,
       'in_place': 500, 'matrix_products': 300}

OPS = {'+': operator.add, '-': operator.sub, '*': operator.mul,
       '/': operator.truediv, '//': operator.floordiv, '%': operator.mod,
       '**': operator.pow}
INPLACE = {'+': operator.iadd, '-': operator.isub, '*': operator.imul,
           '/': operator.itruediv, '//': operator.ifloordiv,
           '%': operator.imod, '**': operator.ipow}
LOGIC = {'&': operator.and_, '|': operator.or_, '^': operator.xor}
VALUES = {
    'int': lambda r: r.randint(-4, 9),
    'sparse': lambda r: r.choice([0, 0, 0, 1, -2, 3]),
    'odd': lambda r: r.choice([49, 98, 103, 107, 1002, 147]),
    'tenths': lambda r: r.choice([.1, .2, .3, .7, 1.1, 2.1, 6.3, -.9]),
    'nozero': lambda r: r.choice([1, 2, 3, -1, -4, 5]),
    'float': lambda r: r.choice([.5, -1.5, 2.25, 0., 3., 1e3, -.125, 7.75]),
    'floatnz': lambda r: r.choice([.5, -1.5, 2.25, 3., 1e3, -.125]),
    'posfloat': lambda r: r.choice([.5, 1.5, 4., 9., .25, 2.]),
    'nan': lambda r: r.choice([0, 1, 2.5, -3, NAN, 4]),
    'nannz': lambda r: r.choice([1, 2.5, -3, NAN, 4, -.5]),
    'small': lambda r: r.choice([0, 1, 2, 3]),
    'big': lambda r: r.choice([2 ** 40, -2 ** 41, 3 ** 25, 1, 10 ** 12, 0]),
    'negexp': lambda r: r.choice([-1, -2, 2, 0, 1]),
}


class Bad(Exception):
    pass


def scalar(o, x, y):
    """python's answer, or Bad(kind) when the operation must / may refuse"""
    if (isNan(x) or isNan(y)) and o != '**':
        if o in '/ // %'.split() and not isNan(y) and y == 0:
            raise Bad('zero')
        return NAN
    try:
        if o == '**':
            v = float(x) ** float(y)
        else:
            v = OPS[o](x, y)
    except ZeroDivisionError as e:
        raise Bad('zero') from e
    except OverflowError as e:
        raise Bad('overflow') from e
    if isinstance(v, complex):
        raise Bad('complex')
    if isinstance(v, int) and abs(v) > 2 ** 62:
        raise Bad('overflow')
    if isinstance(v, float) and math.isinf(v):
        raise Bad('overflow')
    return v


def grid(o, a, b):
    bad = set()
    rows = []
    for ra, rb in zip(a, b):
        row = []
        for x, y in zip(ra, rb):
            try:
                row.append(scalar(o, x, y))
            except Bad as e:
                bad.add(str(e))
                row.append(None)
        rows.append(row)
    return rows, bad


def tab(rng, p, f, kind, pn=None, fn=None):
    t = Table([[VALUES[kind](rng) for _ in range(f)] for _ in range(p)],
              pn, fn, f)
    t.kind = kind
    return t


def someNames(rng, n, prefix):
    return gen.nameList(rng, n, prefix,
                        rng.choice(['none', 'all', 'all', 'some']))


def otherNames(rng, nms, prefix):
    n = len(nms)
    r = rng.random()
    if r < .4:
        return list(nms)
    if r < .55:
        return [None] * n
    if r < .7:
        return [f'{prefix}q{i}' for i in range(n)]
    if r < .8:
        return [None if rng.random() < .4 else x for x in nms]
    if r < .9:
        sh = list(nms)
        rng.shuffle(sh)
        return sh
    return [x if rng.random() < .6 else f'{prefix}z{i}'
            for i, x in enumerate(nms)]


def consistent(la, lb):
    for one, two in ((la, lb), (lb, la)):
        for x, y in zip(one, two):
            if x is None:
                continue
            if y is not None and x != y:
                return False
            if y is None and x in two:
                return False
    return True


def disjoint(la, lb):
    return not set(x for x in la if x is not None) & set(lb)


def mergeNames(la, lb):
    return [x if x is not None else y for x, y in zip(la, lb)]


def kindPair(rng, o):
    if o == '**':
        ka = rng.choice(['int', 'small', 'posfloat', 'floatnz', 'nan',
                         'sparse', 'nozero'])
        kb = rng.choice(['small', 'small', 'negexp', 'nan', 'posfloat'])
        return ka, kb
    ka = rng.choice(list(VALUES))
    if o in ('/', '//', '%') and rng.random() < .8:
        if rng.random() < .2:
            ka = rng.choice(['odd', 'tenths'])
            return ka, ka
        return ka, rng.choice(['nozero', 'floatnz', 'nannz', 'posfloat'])
    return ka, rng.choice(list(VALUES))


def outcome(ctx, key, label, st, res, bad, namesBad, want, tol=1e-9,
            lefttype=None):
    """judge one call; returns True when there is a result to compare"""
    if namesBad:
        ctx.event('names_refused')
        if st == 'ok':
            ctx.violation(key + ':names-accepted',
                          f'{label} succeeded, but the names conflict')
        return False
    if bad:
        if 'zero' in bad:
            ctx.event('zero_division_refused')
        if st == 'ok' and bad & {'zero', 'complex'}:
            ctx.violation(key + ':impossible-accepted',
                          f'{label} succeeded although python refuses '
                          f'({sorted(bad)}): {model.rawRows(res)}')
        if st == 'ok':
            ctx.event('overflow')
        elif 'zero' in bad and 'complex' not in bad and 'overflow' not in \
                bad and not isinstance(res, ZeroDivisionError):
            ctx.violation(key + ':zero-kind', f'{label} raised '
                          f'{type(res).__name__}: {res}, not '
                          f'ZeroDivisionError')
        return False
    if st == 'exc':
        ctx.violation(f'{key}:raises-{type(res).__name__}',
                      f'{label} raised {type(res).__name__}: {res} '
                      f'(in {where(res)})')
    d = model.diff(res, want, tol)
    ctx.check(d is None, key + (':names' if d and 'names' in d else ':value'),
              lambda: f'{label}: {d}; expected {want}')
    ctx.event('elements_compared', want.np * want.nf)
    inv = model.invariants(res)
    ctx.check(inv is None, key + ':invariant', lambda: f'{label}: {inv}')
    if lefttype:
        ctx.check(res.getTypeString() == lefttype, key + ':type',
                  lambda: f'{label} is a {res.getTypeString()}, left operand '
                  f'a {lefttype}')
    return True


def unchanged(ctx, key, label, obj, before):
    d = frozenDiff(before, freeze(obj))
    ctx.check(d is None, key + ':operand', lambda: f'{label}: operand {d}')


def pairwise(ctx):
    rng = ctx.rng
    o = rng.choice(list(OPS))
    ka, kb = kindPair(rng, o)
    p, f = rng.randint(1, 4), rng.randint(1, 4)
    a = tab(rng, p, f, ka, someNames(rng, p, 'p'), someNames(rng, f, 'f'))
    b = tab(rng, p, f, kb, otherNames(rng, a.pn, 'p'),
            otherNames(rng, a.fn, 'f'))
    inplace = rng.random() < .3
    ta, tb = rng.choice(gen.TYPES), rng.choice(gen.TYPES)
    ra = gen.anyRoute(rng, views=not inplace)
    rb = gen.anyRoute(rng)
    A = gen.build(ctx.nimble, a, ta, ra, rng)
    B = gen.build(ctx.nimble, b, tb, rb, rng)
    A.name = 'left'
    rows, bad = grid(o, a.rows, b.rows)
    pe, fe = consistent(a.pn, b.pn), consistent(a.fn, b.fn)
    namesBad = False
    pn, fn = mergeNames(a.pn, b.pn), mergeNames(a.fn, b.fn)
    if not pe and not fe:
        namesBad = True
    elif not fe:
        namesBad = not disjoint(a.fn, b.fn) or inplace
        fn = [None] * f
    elif not pe:
        namesBad = not disjoint(a.pn, b.pn) or inplace
        pn = [None] * p
    zeroFirst = o in ('/', '//', '%') and any(
        not isNan(v) and v == 0 for r in b.rows for v in r)
    want = None
    if not bad and not namesBad:
        want = Table(rows, pn, fn, f)
    form = o + ('=' if inplace else '')
    label = f'{ta}/{ra} {a} {form} {tb}/{rb} {b}'
    ctx.log(label)
    beforeA, beforeB = freeze(A), freeze(B)
    fun = INPLACE[o] if inplace else OPS[o]
    st, res = call(ctx, fun, A, B)
    key = f'{form}:{ta}:{tb}'
    ctx.state(form, ta, tb, pe, fe, any(a.pn), any(b.pn), any(a.fn),
              any(b.fn), tuple(sorted(bad)), ka)
    unchanged(ctx, key, label, B, beforeB)
    if not inplace or st == 'exc':
        unchanged(ctx, key, label, A, beforeA)
    if zeroFirst and st == 'exc':
        ctx.event('zero_division_refused')
        return
    if outcome(ctx, key, label, st, res, bad, namesBad, want,
               lefttype=ta):
        ctx.event('pairs')
        if pn != a.pn or fn != a.fn:
            ctx.event('names_merged')
        if inplace:
            ctx.event('in_place')
            ctx.check(res is A, key + ':identity',
                      lambda: f'{label} did not modify the left object')
            ctx.check(A.name == 'left', key + ':name',
                      lambda: f'{label} renamed the object to {A.name}')


def withScalar(ctx):
    import numpy as np
    rng = ctx.rng
    o = rng.choice(list(OPS))
    ka, kb = kindPair(rng, o)
    reflected = rng.random() < .4
    inplace = not reflected and rng.random() < .35
    p, f = rng.randint(1, 4), rng.randint(1, 4)
    a = tab(rng, p, f, kb if reflected else ka, someNames(rng, p, 'p'),
            someNames(rng, f, 'f'))
    s = VALUES[ka if reflected else kb](rng)
    if rng.random() < .3:
        s = rng.choice([0, 1, -1, 2, 1.0, 0.5, .0])
    given = s
    if rng.random() < .2:
        given = np.float64(s) if isinstance(s, float) else np.int64(s)
    ta = rng.choice(gen.TYPES)
    ra = gen.anyRoute(rng, views=not inplace)
    A = gen.build(ctx.nimble, a, ta, ra, rng)
    other = [[s] * f for _ in range(p)]
    if reflected:
        rows, bad = grid(o, other, a.rows)
    else:
        rows, bad = grid(o, a.rows, other)
    want = None if bad else Table(rows, a.pn, a.fn, f)
    form = ('s' + o) if reflected else (o + ('=' if inplace else '') + 's')
    shown = f'{type(given).__name__} {given!r}'
    label = (f'({shown}) {o} {ta}/{ra} {a}' if reflected
             else f'{ta}/{ra} {a} {form} ({shown})')
    ctx.log(label)
    before = freeze(A)
    if reflected:
        # the object defines what numpy scalars mean to it
        name = {'+': '__radd__', '-': '__rsub__', '*': '__rmul__',
                '/': '__rtruediv__', '//': '__rfloordiv__',
                '%': '__rmod__', '**': '__rpow__'}[o]
        if given is not s:
            st, res = call(ctx, lambda: getattr(A, name)(given))
        else:
            st, res = call(ctx, OPS[o], given, A)
    else:
        st, res = call(ctx, INPLACE[o] if inplace else OPS[o], A, given)
    key = f'{form}:{ta}'
    ctx.state(form, ta, ra, type(given).__name__, tuple(sorted(bad)), ka, kb,
              s in (0, 1) if not isNan(s) else 'nan')
    if not inplace or st == 'exc':
        unchanged(ctx, key, label, A, before)
    if outcome(ctx, key, label, st, res, bad, False, want, lefttype=ta):
        ctx.event('scalars')
        if inplace:
            ctx.event('in_place')
            ctx.check(res is A, key + ':identity',
                      lambda: f'{label} did not modify the left object')


def stretched(ctx):
    rng = ctx.rng
    o = rng.choice(list(OPS))
    ka, kb = kindPair(rng, o)
    p, f = rng.randint(1, 4), rng.randint(1, 4)
    both = rng.random() < .3
    left = rng.random() < .5     # the stretched one is on the left
    point = rng.random() < .5    # it is a single point
    vk, gk = (ka, kb) if left else (kb, ka)
    vp, vf = (1, f) if point else (p, 1)
    v = tab(rng, vp, vf, vk, gen.nameList(rng, vp, 'p', rng.choice(
        ['none', 'all'])), gen.nameList(rng, vf, 'f', rng.choice(
            ['none', 'all'])))
    if both:
        gp, gf = (p, 1) if point else (1, f)
    else:
        gp, gf = p, f
    g = tab(rng, gp, gf, gk, gen.nameList(rng, gp, 'p', rng.choice(
        ['none', 'all'])), gen.nameList(rng, gf, 'f', rng.choice(
            ['none', 'all'])))
    if not both and rng.random() < .7:
        # agree along the axis that is matched
        if point and any(g.fn) and any(v.fn):
            v.fn = list(g.fn)
        if not point and any(g.pn) and any(v.pn):
            v.pn = list(g.pn)
    tv, tg = rng.choice(gen.TYPES), rng.choice(gen.TYPES)
    rv, rg = gen.anyRoute(rng), gen.anyRoute(rng)
    V = gen.build(ctx.nimble, v, tv, rv, rng)
    G = gen.build(ctx.nimble, g, tg, rg, rng)

    def spread(t):
        return [[t.rows[i if t.np > 1 else 0][j if t.nf > 1 else 0]
                 for j in range(f)] for i in range(p)]
    ev, eg = spread(v), spread(g)
    rows, bad = grid(o, ev, eg) if left else grid(o, eg, ev)
    namesBad = False
    if not both:
        namesBad = not (consistent(v.fn, g.fn) if point
                        else consistent(v.pn, g.pn))
    oneByOne = v.np == 1 and v.nf == 1
    label = (f'{tv}/{rv} {v}.stretch {o} {tg}/{rg} {g}' if left
             else f'{tg}/{rg} {g} {o} {tv}/{rv} {v}.stretch') + (
                 ' (both stretched)' if both else '')
    ctx.log(label)
    bv, bg = freeze(V), freeze(G)

    def go():
        x, y = V.stretch, (G.stretch if both else G)
        return OPS[o](x, y) if left else OPS[o](y, x)
    st, res = call(ctx, go)
    key = f'stretch:{o}:{tv if left else tg}:{tg if left else tv}'
    ctx.state('stretch', o, tv, tg, left, point, both, namesBad,
              tuple(sorted(bad)), p > 1, f > 1)
    unchanged(ctx, key, label, V, bv)
    unchanged(ctx, key, label, G, bg)
    if oneByOne and not both and (p > 1 and f > 1):
        ctx.check(st == 'exc', key + ':ambiguous', lambda: label +
                  ' must be refused')
        return
    if namesBad and st == 'exc':
        ctx.event('names_refused')
        return
    if bad and bad != {'overflow'} and st == 'exc':
        ctx.event('zero_division_refused')
        return
    if oneByOne or g.np == 1 and g.nf == 1 or (both and (p == 1 or f == 1)):
        # which name pairing applies to a single element is not documented
        namesBad = False
        if st == 'exc':
            ctx.check(bad or type(res).__name__.startswith('InvalidArgument'),
                      f'{key}:one:raises-{type(res).__name__}',
                      lambda: f'{label} raised {res} (in {where(res)})')
        elif not bad:
            d = model.diff(res, Table(rows, [None] * p, [None] * f, f),
                           checkNames=False)
            ctx.check(d is None, key + ':value', lambda: f'{label}: {d}')
        return
    want = None
    if not bad and not namesBad:
        pn, fn = stretchNames(v, g, p, f, point, both)
        want = Table(rows, [None] * p if pn is None else pn,
                     [None] * f if fn is None else fn, f)
        if st == 'ok':
            if pn is None:
                want.pn = model.names(res.points)
            if fn is None:
                want.fn = model.names(res.features)
    if outcome(ctx, key, label, st, res, bad, namesBad, want,
               lefttype=tv if left else tg):
        ctx.event('stretched')


def stretchNames(v, g, p, f, point, both):
    """names per axis; None where no rule is documented. Along the matched
    axis names are merged, along the stretched one those of the full operand
    are kept."""
    if both:
        sp, sf = (g, v) if point else (v, g)

        def pick(full, other):
            if any(full) and not any(other):
                return full
            return None
        return (pick(sp.pn, sf.pn), pick(sf.fn, sp.fn))
    if point:
        fn = mergeNames(v.fn, g.fn)
        pn = list(g.pn) if any(g.pn) and not any(v.pn) else None
        if not any(g.pn) and not any(v.pn):
            pn = [None] * p
    else:
        pn = mergeNames(v.pn, g.pn)
        fn = list(g.fn) if any(g.fn) and not any(v.fn) else None
        if not any(g.fn) and not any(v.fn):
            fn = [None] * f
    # an axis of a single element is not stretched at all
    if point and p == 1 and any(v.pn) and (not any(g.pn) or v.pn == g.pn):
        pn = list(v.pn)
    if not point and f == 1 and any(v.fn) and (not any(g.fn)
                                               or v.fn == g.fn):
        fn = list(v.fn)
    return pn, fn


def matrixProduct(ctx):
    rng = ctx.rng
    p, m, f = (rng.randint(1, 4) for _ in range(3))
    kinds = ['int', 'sparse', 'float', 'nan', 'nozero']
    a = tab(rng, p, m, rng.choice(kinds), someNames(rng, p, 'p'),
            someNames(rng, m, 'm'))
    b = tab(rng, m, f, rng.choice(kinds), otherNames(rng, a.fn, 'm'),
            someNames(rng, f, 'f'))
    if rng.random() < .1 and m > 1:
        b = b.take(range(m - 1))
    ta, tb = rng.choice(gen.TYPES), rng.choice(gen.TYPES)
    ra, rb = gen.anyRoute(rng), gen.anyRoute(rng)
    A = gen.build(ctx.nimble, a, ta, ra, rng)
    B = gen.build(ctx.nimble, b, tb, rb, rng)
    method = rng.choice(['@', 'matrixMultiply', '@='])
    if method == '@=' and ra == 'view':
        method = '@'
    label = f'{ta}/{ra} {a} {method} {tb}/{rb} {b}'
    ctx.log(label)
    ba, bb = freeze(A), freeze(B)
    fun = {'@': lambda: A @ B, 'matrixMultiply': lambda: A.matrixMultiply(B),
           '@=': lambda: operator.imatmul(A, B)}[method]
    st, res = call(ctx, fun)
    key = f'{method}:{ta}:{tb}'
    ctx.state(method, ta, tb, ra == 'view', rb == 'view', p > 1, m > 1, f > 1,
              st)
    unchanged(ctx, key, label, B, bb)
    if method != '@=' or st == 'exc':
        unchanged(ctx, key, label, A, ba)
    if a.nf != b.np:
        ctx.check(st == 'exc', key + ':shape', lambda: f'{label} succeeded')
        return
    namesBad = not consistent(a.fn, b.pn)
    want = Table([[sum((x * y for x, y in zip(r, b.col(j))), 0)
                   for j in range(f)] for r in a.rows], a.pn, b.fn, f)
    if outcome(ctx, key, label, st, res, set(), namesBad, want):
        ctx.event('matrix_products')
        if method == '@=':
            ctx.check(res is A, key + ':identity', lambda: label)


def matrixPower(ctx):
    rng = ctx.rng
    n = rng.randint(1, 3)
    kind = rng.choice(['int', 'sparse', 'small', 'nozero', 'floatnz'])
    a = tab(rng, n, n, kind, someNames(rng, n, 'p'), someNames(rng, n, 'f'))
    k = rng.choice([-2, -1, 0, 1, 2, 3])
    ta = rng.choice(gen.TYPES)
    ra = gen.anyRoute(rng)
    A = gen.build(ctx.nimble, a, ta, ra, rng)
    label = f'{ta}/{ra} {a}.matrixPower({k})'
    ctx.log(label)
    before = freeze(A)
    st, res = call(ctx, lambda: A.matrixPower(k))
    key = f'matrixPower:{ta}'
    ctx.state('matrixPower', ta, ra == 'view', k, n)
    unchanged(ctx, key, label, A, before)
    from fractions import Fraction
    m = [[Fraction(v) for v in r] for r in a.rows]

    def mul(x, y):
        return [[sum(x[i][t] * y[t][j] for t in range(n)) for j in range(n)]
                for i in range(n)]
    if k < 0:
        m = inverse(m)
        if m is None:
            if st == 'ok':
                # floating point may not notice the singular matrix
                ctx.event('singular_not_noticed')
            return
        det = abs(determinant([[Fraction(v) for v in r] for r in a.rows]))
        if det < Fraction(1, 1000):
            return
    out = [[Fraction(int(i == j)) for j in range(n)] for i in range(n)]
    for _ in range(abs(k)):
        out = mul(out, m)
    want = Table([[float(v) for v in r] for r in out], a.pn, a.fn, n)
    if outcome(ctx, key, label, st, res, set(), False, want, 1e-6,
               lefttype=ta):
        ctx.event('matrix_powers')


def determinant(m):
    n = len(m)
    if n == 1:
        return m[0][0]
    return sum((-1) ** j * m[0][j] * determinant(
        [r[:j] + r[j + 1:] for r in m[1:]]) for j in range(n))


def inverse(m):
    n = len(m)
    d = determinant(m)
    if d == 0:
        return None
    if n == 1:
        return [[1 / d]]
    return [[(-1) ** (i + j) * determinant(
        [r[:i] + r[i + 1:] for k, r in enumerate(m) if k != j]) / d
        for j in range(n)] for i in range(n)]


def unary(ctx):
    rng = ctx.rng
    p, f = rng.randint(1, 4), rng.randint(1, 4)
    a = tab(rng, p, f, rng.choice(list(VALUES)), someNames(rng, p, 'p'),
            someNames(rng, f, 'f'))
    o = rng.choice(['abs', '-', '+', 'round'][:3])
    ta = rng.choice(gen.TYPES)
    ra = gen.anyRoute(rng)
    A = gen.build(ctx.nimble, a, ta, ra, rng)
    fun = {'abs': abs, '-': operator.neg, '+': operator.pos}[o]
    label = f'{o} {ta}/{ra} {a}'
    ctx.log(label)
    before = freeze(A)
    st, res = call(ctx, fun, A)
    ctx.state(o, ta, ra, a.shapeKey())
    key = f'{o}:{ta}'
    unchanged(ctx, key, label, A, before)
    want = Table([[fun(v) for v in r] for r in a.rows], a.pn, a.fn, f)
    if outcome(ctx, key, label, st, res, set(), False, want, lefttype=ta):
        ctx.event('unary')
        ctx.check(res is not A, key + ':identity', lambda: label)


def logical(ctx):
    rng = ctx.rng
    o = rng.choice(list(LOGIC) + ['~'])
    p, f = rng.randint(1, 4), rng.randint(1, 4)
    pools = [[True, False], [0, 1], [0., 1.], [0, 1, 2]]

    def one(names):
        pool = rng.choice(pools[:3] if rng.random() < .9 else pools)
        t = Table([[rng.choice(pool) for _ in range(f)] for _ in range(p)],
                  names[0], names[1], f)
        t.kind = 'bool'
        return t
    a = one((someNames(rng, p, 'p'), someNames(rng, f, 'f')))
    b = one((list(a.pn), list(a.fn)))
    ta, tb = rng.choice(gen.TYPES), rng.choice(gen.TYPES)
    ra, rb = gen.anyRoute(rng), gen.anyRoute(rng)
    A = gen.build(ctx.nimble, a, ta, ra, rng)
    B = gen.build(ctx.nimble, b, tb, rb, rng)
    label = f'{ta}/{ra} {a} {o} {tb}/{rb} {b}'
    ctx.log(label)
    ba, bb = freeze(A), freeze(B)
    if o == '~':
        st, res = call(ctx, operator.invert, A)
    else:
        st, res = call(ctx, LOGIC[o], A, B)
    key = f'{o}:{ta}:{tb}' if o != '~' else f'~:{ta}'
    unchanged(ctx, key, label, A, ba)
    unchanged(ctx, key, label, B, bb)
    used = [a] if o == '~' else [a, b]
    invalid = any(v not in (0, 1) for t in used for r in t.rows for v in r)
    ctx.state('logic', o, ta, tb, ra == 'view', rb == 'view', invalid)
    if invalid:
        ctx.check(st == 'exc', key + ':accepted',
                  lambda: f'{label} succeeded with values other than 0, 1')
        return
    if o == '~':
        rows = [[not v for v in r] for r in a.rows]
    else:
        rows = [[LOGIC[o](bool(x), bool(y)) for x, y in zip(r, s)]
                for r, s in zip(a.rows, b.rows)]
    want = Table(rows, a.pn, a.fn, f)
    if outcome(ctx, key, label, st, res, set(), False, want, lefttype=ta):
        ctx.event('logical')


def equality(ctx):
    """== / != / isIdentical / isApproximatelyEqual after a copy reached by
    another history, and after exactly one change."""
    rng = ctx.rng
    t = gen.table(rng)
    if rng.random() < .3:
        t = tab(rng, rng.randint(1, 4), rng.randint(1, 4), 'nan')
    typ = rng.choice(typesFor(t))
    r1, r2 = gen.anyRoute(rng), gen.anyRoute(rng)
    u = t.copy()
    change = rng.choice(['none', 'none', 'value', 'pname', 'fname', 'rows'])
    if change == 'value':
        i, j = rng.randrange(t.np), rng.randrange(t.nf)
        v = t.rows[i][j]
        u.rows[i][j] = (v + rng.choice([1, -1, 4])
                        if isNumber(v) and not isNan(v)
                        and not isinstance(v, bool)
                        else (not v if isinstance(v, bool) else
                              (5 if isNan(v) else v + 'x')))
    elif change == 'pname':
        u.pn[rng.randrange(t.np)] = 'changed'
    elif change == 'fname':
        u.fn[rng.randrange(t.nf)] = 'changed'
    elif change == 'rows':
        u = t.take(list(range(t.np)) + [0])
        u.pn = [None] * u.np
    A = gen.build(ctx.nimble, t, typ, r1, rng)
    B = gen.build(ctx.nimble, u, typ, r2, rng)
    if not okForSparse(u) and typ == 'Sparse':
        return
    label = f'{typ}: {r1} {t} and {r2} {u}'
    ctx.log(label)
    same_ = change == 'none'
    key = f'equality:{typ}:{change}'
    ba, bb = freeze(A), freeze(B)
    ctx.state('eq', typ, r1, r2, change, t.kind)
    for nm, fun, exp in (
            ('==', lambda: A == B, same_), ('!=', lambda: A != B, not same_),
            ('isIdentical', lambda: A.isIdentical(B), same_),
            ('reversed ==', lambda: B == A, same_)):
        st, res = call(ctx, fun)
        ctx.check(st == 'ok' and bool(res) is exp, key + ':' + nm,
                  lambda: f'{nm} is {res!r} for {label}')
    ctx.event('equality_answers', 4)
    other = rng.choice(typesFor(t))
    C = gen.build(ctx.nimble, t, other, gen.anyRoute(rng), rng)
    st, res = call(ctx, lambda: A.isApproximatelyEqual(C))
    ctx.check(st == 'ok' and res is True,
              f'isApproximatelyEqual:{typ}:{other}',
              lambda: f'{typ}/{r1} isApproximatelyEqual({other}) is {res!r} '
              f'for the same data {t}')
    ctx.event('equality_answers')
    if other != typ:
        st, res = call(ctx, lambda: A == C)
        ctx.event('equality_answers')
    unchanged(ctx, key, label, A, ba)
    unchanged(ctx, key, label, B, bb)


def highDimension(ctx):
    """operators on objects of more than two dimensions work elementwise and
    keep the dimensions"""
    rng = ctx.rng
    nimble = ctx.nimble
    dims = [rng.randint(1, 3) for _ in range(rng.choice([3, 3, 4]))]
    o = rng.choice(['+', '-', '*', '/', '//', '%', 'abs', '-x', '+x'])
    ka, kb = kindPair(rng, o) if o in OPS else ('int', 'int')

    def make(ds, kind):
        if not ds:
            return VALUES[kind](rng)
        return [make(ds[1:], kind) for _ in range(ds[0])]
    a, b = make(dims, ka), make(dims, kb)
    ta, tb = rng.choice(gen.TYPES), rng.choice(gen.TYPES)
    A = nimble.data(a, returnType=ta, useLog=False)
    B = nimble.data(b, returnType=tb, useLog=False)
    useScalar = o in OPS and rng.random() < .4
    s = VALUES[kb](rng)
    label = f'{ta} {a} {o} ' + (repr(s) if useScalar else f'{tb} {b}')
    ctx.log(label)

    def each(x, y):
        if isinstance(x, list):
            return [each(p, y if useScalar else q) for p, q in
                    zip(x, x if useScalar else y)]
        if o == 'abs':
            return abs(x)
        if o == '-x':
            return -x
        if o == '+x':
            return x
        return scalar(o, x, y)
    bad = False
    try:
        want = each(a, s if useScalar else b)
    except Bad:
        bad = True
    before = freeze(A)
    if o == 'abs':
        st, res = call(ctx, abs, A)
    elif o == '-x':
        st, res = call(ctx, operator.neg, A)
    elif o == '+x':
        st, res = call(ctx, operator.pos, A)
    else:
        st, res = call(ctx, OPS[o], A, s if useScalar else B)
    key = f'dims:{o}:{ta}'
    ctx.state('dims', o, ta, tb, len(dims), useScalar, bad)
    unchanged(ctx, key, label, A, before)
    if bad:
        return
    if st == 'exc':
        ctx.violation(f'{key}:raises-{type(res).__name__}',
                      f'{label} raised {type(res).__name__}: {res} '
                      f'(in {where(res)})')
    ctx.check(tuple(res.dimensions) == tuple(dims), key + ':dimensions',
              lambda: f'{label} has dimensions {res.dimensions}')
    flat = model.rawRows(
        __import__('checks.common', fromlist=['flatCopy']).flatCopy(res))
    got = [v for r in flat for v in r]
    exp = []

    def fl(x):
        if isinstance(x, list):
            for y in x:
                fl(y)
        else:
            exp.append(x)
    fl(want)
    ctx.check(len(got) == len(exp)
              and all(same(x, y) for x, y in zip(got, exp)), key + ':value',
              lambda: f'{label}: elements {got}, expected {exp}')
    ctx.event('elements_compared', len(exp))
    ctx.event('high_dimension')


def nonNumeric(ctx):
    """text is refused by arithmetic in any position, nothing is changed"""
    rng = ctx.rng
    p, f = rng.randint(1, 3), rng.randint(1, 3)
    a = tab(rng, p, f, 'nozero')
    b = tab(rng, p, f, 'nozero')
    b.rows[rng.randrange(p)][rng.randrange(f)] = rng.choice(['a', 'é', ''])
    o = rng.choice([x for x in OPS])
    ta, tb = rng.choice(gen.TYPES), rng.choice(typesFor(b))
    A = gen.build(ctx.nimble, a, ta, gen.anyRoute(rng), rng)
    B = gen.build(ctx.nimble, b, tb, gen.anyRoute(rng), rng)
    form = rng.choice(['ab', 'ba', 'bs', 'sb', 'as'])
    s = rng.choice([2, 1, 0.5])
    bad = rng.choice(['x', None, [1], object])
    label = f'{form} {o}: {ta} {a}, {tb} {b}, {s!r} {bad!r}'
    ctx.log(label)
    ba, bb = freeze(A), freeze(B)
    fun = {'ab': lambda: OPS[o](A, B), 'ba': lambda: OPS[o](B, A),
           'bs': lambda: OPS[o](B, s), 'sb': lambda: OPS[o](s, B),
           'as': lambda: OPS[o](A, bad)}[form]
    st, res = call(ctx, fun)
    key = f'text:{form}:{o}:{ta}:{tb}'
    ctx.state('text', form, o, ta, tb)
    ctx.check(st == 'exc', key, lambda: f'{label} succeeded: '
              f'{model.rawRows(res)}')
    ctx.event('text_refused')
    unchanged(ctx, key, label, A, ba)
    unchanged(ctx, key, label, B, bb)


KINDS = [('pairwise', 5, pairwise), ('scalar', 4, withScalar),
         ('stretched', 3, stretched), ('product', 1.2, matrixProduct),
         ('power', .4, matrixPower), ('unary', .5, unary),
         ('logical', .8, logical), ('equality', 1.2, equality),
         ('highdim', .7, highDimension), ('text', .5, nonNumeric)]
