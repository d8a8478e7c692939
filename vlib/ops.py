"""
A catalogue of operations. Each generator draws one operation that the
specification says is valid on the given table, and returns an Op holding how
to issue it to a nimble object and what the reference model says about it.
"""
import copy
import operator

import numpy as np

from vlib import gen
from vlib.model import Table, NAN, same, isNan, isNumber, key, norm, names
from vlib.model import diff, rawRows


class Op:
    def __init__(self, label, call, model, mutates, args=(), group=None,
                 sameType=False, tol=1e-9):
        self.label = label          # readable, with arguments
        self.name = label.split('(')[0]
        self.call = call            # call(obj) -> result
        self.model = model          # model(Table) -> (newTable, expected)
        self.mutates = mutates      # changes the object in place
        self.args = list(args)      # user supplied argument objects
        self.group = group or self.name
        self.sameType = sameType    # the result has the caller's type
        self.tol = tol

    def __repr__(self):
        return self.label


# -- expectations ----------------------------------------------------------

class Expect:
    """kind: none | table | value | rows | list | counts"""

    def __init__(self, kind, want=None, checkNames=True):
        self.kind = kind
        self.want = want
        self.checkNames = checkNames

    def diff(self, got, tol=1e-9):
        if self.kind == 'any':
            return None
        if self.kind == 'none':
            return None if got is None else f'returned {got!r}, expected None'
        if self.kind == 'table':
            if not hasattr(got, 'points'):
                return f'returned {type(got).__name__}, expected a data object'
            return diff(got, self.want, tol, self.checkNames)
        if self.kind == 'value':
            return (None if same(got, self.want, tol)
                    else f'returned {got!r}, expected {self.want!r}')
        if self.kind == 'list':
            got = list(got)
            if (len(got) != len(self.want)
                    or not all(same(a, b, tol)
                               for a, b in zip(got, self.want))):
                return f'returned {got!r}, expected {self.want!r}'
            return None
        if self.kind == 'counts':
            g = {}
            for k, v in got.items():
                g[key(k)] = g.get(key(k), 0) + v
            w = {}
            for k in self.want:
                w[key(k)] = w.get(key(k), 0) + 1
            return None if g == w else f'returned {got!r}, expected {w!r}'
        raise ValueError(self.kind)


NONE = Expect('none')


def isEnvLimit(exc):
    """Failures that belong to the installed scipy, not to nimble: scipy >=
    1.11 cannot hold object values in a sparse matrix at all."""
    text = str(exc)
    return 'object dtype is not supported by sparse' in text


# -- helpers ---------------------------------------------------------------

def onAxis(axis, f):
    """Lift a model function over points to the requested axis: the feature
    operation is by definition the point operation on the transpose."""
    def model(t):
        if axis == 'points':
            return f(t)
        new, exp = f(t.T())
        new = new.T() if new is not None else None
        if exp.kind == 'table':
            exp = Expect('table', exp.want.T(), exp.checkNames)
        return new, exp
    return model


def axisTable(t, axis):
    return t if axis == 'points' else t.T()


def ident(rng, nms, i):
    """Identify position i by index, negative index, or name."""
    r = rng.random()
    if nms[i] is not None and r < .5:
        return nms[i]
    if r < .6:
        return i - len(nms)
    return i


class VecPred:
    """A deterministic predicate of a point (feature) view."""

    def __init__(self, j, opname, val):
        self.j, self.opname, self.val = j, opname, val

    def raw(self, vec):
        v = vec[self.j]
        return _cmp(v, self.opname, self.val)

    def __call__(self, view):
        return self.raw(view)

    def __repr__(self):
        return f'[{self.j}]{self.opname}{self.val!r}'


def _cmp(v, opname, val):
    v = norm(v)
    if opname in ('==', '!='):
        r = same(v, val, 0)
        return r if opname == '==' else not r
    if isNan(v) or isinstance(v, str) != isinstance(val, str):
        return False
    return {'<': operator.lt, '<=': operator.le, '>': operator.gt,
            '>=': operator.ge}[opname](v, val)


def pickPred(rng, t):
    """a predicate over points of t, from a value that occurs in it"""
    j = rng.randrange(t.nf)
    v = t.rows[rng.randrange(t.np)][j]
    if isNan(v):
        v = 1
    return VecPred(j, rng.choice(['==', '!=', '<', '<=', '>', '>=']), v)


def queryable(name):
    return name is not None and name.strip() == name and name


def pickQuery(rng, t):
    """A query string with an exact model: (string, predicate) or None."""
    if not t.nf or not t.np:
        return None
    j = rng.randrange(t.nf)
    if t.fn[j] is None:
        return None
    col = t.col(j)
    v = rng.choice(col)
    kinds = {('s' if isinstance(x, str) else 'nan' if isNan(x) else
              'b' if isinstance(x, bool) else 'n') for x in col}
    if not kinds <= {'n', 'nan'}:
        return None
    if isNan(v):
        r = rng.choice(['missing', 'nonMissing'])
        return (f'{t.fn[j]} is {r}',
                lambda row: isNan(row[j]) == (r == 'missing'))
    r = rng.random()
    if r < .75:
        o = rng.choice(['==', '!=', '<', '<=', '>', '>='])
        return f'{t.fn[j]} {o} {v}', lambda row: _cmp(row[j], o, v)
    r = rng.choice(['zero', 'nonZero', 'positive', 'negative', 'missing',
                    'nonMissing'])
    f = {'zero': lambda x: not isNan(x) and x == 0,
         'nonZero': lambda x: isNan(x) or x != 0,
         'positive': lambda x: x > 0, 'negative': lambda x: x < 0,
         'missing': isNan, 'nonMissing': lambda x: not isNan(x)}[r]
    return f'{t.fn[j]} is {r}', lambda row: f(row[j])


def pickTarget(rng, t):
    """How to pick points of t: (description, kwargs/args, positions)."""
    n = t.np
    r = rng.random()
    if r < .35:
        k = rng.randint(1, n)
        pos = rng.sample(range(n), k)
        ids = [ident(rng, t.pn, i) for i in pos]
        if len(ids) == 1 and rng.random() < .6:
            return repr(ids[0]), (ids[0],), {}, pos
        return repr(ids), (ids,), {}, pos
    if r < .5:
        a = rng.randrange(n)
        b = rng.randrange(a, n)
        kw = {}
        if rng.random() < .85 or a:
            kw['start'] = ident(rng, t.pn, a)
        if rng.random() < .85 or b != n - 1:
            kw['end'] = ident(rng, t.pn, b)
        if not kw:
            kw['start'] = 0
        lo = a if 'start' in kw else 0
        hi = b if 'end' in kw else n - 1
        pos = list(range(lo, hi + 1))
        if rng.random() < .3:
            kw['number'] = rng.randint(1, len(pos))
            pos = pos[:kw['number']]
        return repr(kw), (), kw, pos
    if r < .7:
        q = pickQuery(rng, t)
        if q:
            string, f = q
            if string in t.pn:
                return pickTarget(rng, t)
            pos = [i for i, row in enumerate(t.rows) if f(row)]
            kw = {}
            if pos and rng.random() < .2:
                kw['number'] = rng.randint(1, len(pos))
                pos = pos[:kw['number']]
            return repr(string) + (repr(kw) if kw else ''), (string,), kw, pos
    if r < .92:
        p = pickPred(rng, t)
        pos = [i for i, row in enumerate(t.rows) if p.raw(row)]
        return repr(p), (p,), {}, pos
    k = rng.randint(1, n)
    return f'number={k}', (), {'number': k}, list(range(k))


# -- axis operations -------------------------------------------------------

def _ax(rng):
    return rng.choice(['points', 'features'])


def structural(rng, t, nimble, typ, which=None):
    axis = _ax(rng)
    a = axisTable(t, axis)
    if not a.np or not a.nf:
        return None
    what = which or rng.choice(['extract', 'delete', 'retain', 'copy'])
    text, args, kw, pos = pickTarget(rng, a)
    rest = [i for i in range(a.np) if i not in set(pos)]

    def call(obj):
        return getattr(getattr(obj, axis), what)(
            *copy.copy(args), **dict(kw, **({} if what == 'copy'
                                            else {'useLog': False})))

    def f(t):
        taken = t.take(pos)
        if what == 'extract':
            return t.take(rest), Expect('table', taken)
        if what == 'delete':
            return t.take(rest), NONE
        if what == 'retain':
            return taken, NONE
        return None, Expect('table', taken)
    return Op(f'{axis}.{what}({text})', call, onAxis(axis, f),
              what != 'copy', args, sameType=what in ('copy', 'extract'))


def countOp(rng, t, nimble, typ):
    axis = _ax(rng)
    a = axisTable(t, axis)
    if not a.np or not a.nf:
        return None
    q = pickQuery(rng, a) if rng.random() < .5 else None
    if q and q[0] not in a.pn:
        arg, f = q
    else:
        arg = pickPred(rng, a)
        f = arg.raw
    want = sum(bool(f(r)) for r in a.rows)
    return Op(f'{axis}.count({arg!r})',
              lambda obj: getattr(obj, axis).count(arg),
              lambda t: (None, Expect('value', want)), False)


def sortable(col):
    return (all(isinstance(v, str) for v in col)
            or all(isNumber(v) and not isNan(v) for v in col))


def sortOp(rng, t, nimble, typ):
    axis = _ax(rng)
    a = axisTable(t, axis)
    if not a.np or not a.nf:
        return None
    reverse = rng.random() < .4
    r = rng.random()
    good = [j for j in range(a.nf) if sortable(a.col(j))]
    if r < .25:
        if any(n is None for n in a.pn):
            return None
        order = sorted(range(a.np), key=lambda i: a.pn[i], reverse=reverse)
        by, text = None, 'None'
    elif not good:
        return None
    elif r < .5:
        j = rng.choice(good)
        by = ident(rng, a.fn, j)
        text = repr(by)
        order = sorted(range(a.np), key=lambda i: a.rows[i][j],
                       reverse=reverse)
    elif r < .7:
        js = rng.sample(good, min(len(good), rng.randint(1, 3)))
        by = [ident(rng, a.fn, j) for j in js]
        text = repr(by)
        order = list(range(a.np))
        for j in js[::-1]:
            order.sort(key=lambda i: a.rows[i][j], reverse=reverse)
    elif r < .75:
        js = rng.sample(good, min(len(good), rng.randint(1, 3)))
        by = operator.itemgetter(*[ident(rng, a.fn, j) for j in js])
        text = repr(by)
        order = list(range(a.np))
        for j in js[::-1]:
            order.sort(key=lambda i: a.rows[i][j], reverse=reverse)
    elif r < .85:
        j = rng.choice(good)

        def by(view):
            return view[j]
        text = f'key[{j}]'
        order = sorted(range(a.np), key=lambda i: a.rows[i][j],
                       reverse=reverse)
    else:
        j = rng.choice(good)

        def by(x, y):
            return (x[j] > y[j]) * 1 - (x[j] < y[j]) * 1
        text = f'cmp[{j}]'
        order = sorted(range(a.np), key=lambda i: a.rows[i][j],
                       reverse=reverse)

    def call(obj):
        return getattr(obj, axis).sort(by=by, reverse=reverse, useLog=False)
    return Op(f'{axis}.sort({text}, reverse={reverse})', call,
              onAxis(axis, lambda t: (t.take(order), NONE)), True, [by]
              if isinstance(by, list) else [])


def permuteOp(rng, t, nimble, typ):
    axis = _ax(rng)
    a = axisTable(t, axis)
    if not a.np:
        return None
    order = list(range(a.np))
    rng.shuffle(order)
    arg = [ident(rng, a.pn, i) for i in order]

    def call(obj):
        return getattr(obj, axis).permute(arg, useLog=False)
    return Op(f'{axis}.permute({arg})', call,
              onAxis(axis, lambda t: (t.take(order), NONE)), True, [arg])


def _fresh(rng, used, n, prefix):
    out = []
    k = 0
    while len(out) < n:
        c = f'{prefix}{k}'
        k += 1
        if c not in used:
            out.append(c)
    rng.shuffle(out)
    return out


def insertOp(rng, t, nimble, typ):
    axis = _ax(rng)
    a = axisTable(t, axis)
    if not a.np or not a.nf or a.np > 9:
        return None
    k = rng.randint(1, 2)
    rows = []
    for _ in range(k):
        src = rng.choice(a.rows)
        row = list(src)
        for j in range(a.nf):
            if rng.random() < .5:
                row[j] = rng.choice(a.rows)[j]
        if all(isNumber(v) for v in row) and rng.random() < .4:
            row = [v if isNan(v) or isinstance(v, bool) else v + 10
                   for v in row]
        rows.append(row)
    pn = [None] * k
    if rng.random() < .6:
        pn = _fresh(rng, set(a.pn), k, 'n')
    fn = list(a.fn)
    perm = list(range(a.nf))
    if any(n is not None for n in fn):
        r = rng.random()
        if r < .3:
            fn = [None] * a.nf
        elif r < .7 and all(n is not None for n in fn):
            rng.shuffle(perm)
    add = Table([[r[j] for j in perm] for r in rows], pn,
                [fn[j] for j in perm], a.nf)
    toAdd = axisTable(add, axis)
    otherType = rng.choice(gen.TYPES)
    if otherType == 'Sparse' and not all(
            isNumber(v) for r in add.rows for v in r):
        otherType = 'List'
    route = gen.anyRoute(rng)
    seed = rng.randrange(10**9)
    append = rng.random() < .4
    pos = a.np if append else rng.randrange(a.np)
    where = None if append else ident(rng, a.pn, pos)
    import random as _r
    other = gen.build(nimble, toAdd, otherType, route, _r.Random(seed))

    def call(obj):
        if append:
            return getattr(obj, axis).append(other, useLog=False)
        return getattr(obj, axis).insert(where, other, useLog=False)

    def f(t):
        new = Table(t.rows[:pos] + rows + t.rows[pos:],
                    t.pn[:pos] + pn + t.pn[pos:], t.fn, t.nf)
        return new, NONE
    return Op(f'{axis}.{"append" if append else "insert"}({where}, '
              f'{toAdd} as {otherType}/{route})', call, onAxis(axis, f), True,
              [other])


def numericTable(t):
    return all(isNumber(v) and not isNan(v) and not isinstance(v, bool)
               for r in t.rows for v in r)


def _vecFunc(rng, a):
    """(nimble function over a view, model function over a list)"""
    c = rng.choice([2, -1, 0, 0.5, 3])
    r = rng.random()
    if not numericTable(a):
        def rev(view):
            return [v for v in view][::-1]
        return 'reverse', rev, lambda row: row[::-1]
    if r < .35:
        def add(view):
            return [v + c for v in view]
        return f'+{c}', add, lambda row: [v + c for v in row]
    if r < .6:
        def mul(view):
            return [v * c for v in view]
        return f'*{c}', mul, lambda row: [v * c for v in row]
    if r < .8:
        def rev2(view):
            return [v for v in view][::-1]
        return 'reverse', rev2, lambda row: row[::-1]

    def cum(view):
        tot = 0
        out = []
        for v in view:
            tot += v
            out.append(tot)
        return out
    return 'cumsum', cum, cum


def limit(rng, nms, empty=False):
    """an optional subset of an axis as identifiers: (arg, positions)"""
    n = len(nms)
    if empty and rng.random() < .04:
        return [], []
    if rng.random() < .5:
        return None, list(range(n))
    pos = rng.sample(range(n), rng.randint(1, n))
    arg = [ident(rng, nms, i) for i in pos]
    if len(arg) == 1 and rng.random() < .5:
        return arg[0], pos
    return arg, pos


def transformAxisOp(rng, t, nimble, typ):
    axis = _ax(rng)
    a = axisTable(t, axis)
    if not a.np or not a.nf:
        return None
    text, func, mf = _vecFunc(rng, a)
    if text == 'reverse' and not homogeneous(a):
        return None
    arg, pos = limit(rng, a.pn)

    def call(obj):
        return getattr(obj, axis).transform(func, arg, useLog=False)

    def f(t):
        sel = set(pos)
        rows = [mf(list(r)) if i in sel else r for i, r in enumerate(t.rows)]
        return Table(rows, t.pn, t.fn, t.nf), NONE
    return Op(f'{axis}.transform({text}, {arg})', call, onAxis(axis, f), True,
              [arg] if isinstance(arg, list) else [])


def homogeneous(t):
    kinds = {('s' if isinstance(v, str) else 'n') for r in t.rows for v in r}
    return len(kinds) <= 1


def calculateAxisOp(rng, t, nimble, typ):
    axis = _ax(rng)
    a = axisTable(t, axis)
    if not a.np or not a.nf:
        return None
    arg, pos = limit(rng, a.pn)
    names = None
    if not numericTable(a) or rng.random() < .3:
        p = pickPred(rng, a)
        text, width = repr(p), 1

        def func(view):
            return 1 if p.raw(view) else 0

        def mf(row):
            return [1 if p.raw(row) else 0]
    elif rng.random() < .3:
        # objects made of the point or feature keep the names they hold
        keep = rng.sample(range(a.nf), rng.randint(1, a.nf))
        other = 'features' if axis == 'points' else 'points'
        double = rng.random() < .5
        text, width = f'object {keep} {double}', len(keep)
        names = [a.fn[j] for j in keep]

        def func(view):
            res = getattr(view, other).copy(keep, useLog=False)
            return res * 2 if double else res

        def mf(row):
            return [row[j] * (2 if double else 1) for j in keep]
    elif rng.random() < .6:
        text, width = 'sum', 1

        def func(view):
            return sum(v for v in view)

        def mf(row):
            return [sum(row)]
    else:
        text, width = 'list', 2

        def func(view):
            vals = [v for v in view]
            return [vals[0], vals[-1] * 2]

        def mf(row):
            return [row[0], row[-1] * 2]

    def call(obj):
        return getattr(obj, axis).calculate(func, arg, useLog=False)

    def f(t):
        rows = [mf(list(t.rows[i])) for i in pos]
        return None, Expect('table', Table(rows, [t.pn[i] for i in pos],
                                           names, width))
    return Op(f'{axis}.calculate({text}, {arg})', call, onAxis(axis, f),
              False, [arg] if isinstance(arg, list) else [], sameType=True)


def matchingAxisOp(rng, t, nimble, typ):
    axis = _ax(rng)
    a = axisTable(t, axis)
    if not a.np or not a.nf:
        return None
    p = pickPred(rng, a)

    def myMatch(view):
        return bool(p.raw(view))

    def call(obj):
        return getattr(obj, axis).matching(myMatch, useLog=False)

    def f(t):
        rows = [[bool(p.raw(r))] for r in t.rows]
        return None, Expect('table', Table(rows, t.pn, ['myMatch'], 1))
    return Op(f'{axis}.matching({p!r})', call, onAxis(axis, f), False,
              sameType=True)


def repeatOp(rng, t, nimble, typ):
    axis = _ax(rng)
    a = axisTable(t, axis)
    if not a.np or not a.nf:
        return None
    n = rng.randint(1, 3)
    each = rng.random() < .5

    def call(obj):
        return getattr(obj, axis).repeat(n, each)

    def nm(name, i):
        if n == 1 or name is None:
            return name
        return f'{name}_{i + 1}'

    def f(t):
        if each:
            idx = [(i, k) for i in range(t.np) for k in range(n)]
        else:
            idx = [(i, k) for k in range(n) for i in range(t.np)]
        return None, Expect('table', Table(
            [t.rows[i] for i, _ in idx], [nm(t.pn[i], k) for i, k in idx],
            t.fn, t.nf))
    return Op(f'{axis}.repeat({n}, {each})', call, onAxis(axis, f), False,
              sameType=True)


def uniqueOp(rng, t, nimble, typ):
    axis = _ax(rng)
    a = axisTable(t, axis)
    if not a.np or not a.nf:
        return None

    def call(obj):
        return getattr(obj, axis).unique()

    def f(t):
        seen = set()
        keep = []
        for i, r in enumerate(t.rows):
            k = tuple(key(v) for v in r)
            if k not in seen:
                seen.add(k)
                keep.append(i)
        return None, Expect('table', t.take(keep))
    if any(isNan(v) for r in t.rows for v in r):
        return None      # equality of missing values is not specified
    return Op(f'{axis}.unique()', call, onAxis(axis, f), False, sameType=True)


def mapReduceOp(rng, t, nimble, typ):
    axis, a = 'points', t
    if not a.np or not a.nf or not numericTable(a):
        return None
    j = rng.randrange(a.nf)
    k = rng.randrange(a.nf)
    m = rng.choice([2, 3])
    words = typ != 'Sparse' and rng.random() < .3
    common = rng.random() < .5

    def mapper(view):
        key = int(view[j]) % m
        if words and key == 0:
            return [('none', 'zero')]
        return [(key, view[k])] + ([(9, 1)] if common else [])

    def reducer(identifier, values):
        if identifier == 1 and m == 3:
            return None
        if identifier == 'none':
            return (identifier, values[0])
        return (identifier, sum(values))

    def model(t):
        res = {}
        for r in t.rows:
            for kk, v in mapper(r):
                res.setdefault(kk, []).append(v)
        out = [list(reducer(kk, v)) for kk, v in res.items()
               if reducer(kk, v) is not None]
        if not out:
            return None, None
        return None, Expect('table', Table(out, None, None, 2))
    if model(t)[1] is None:
        return None
    return Op(f'{axis}.mapReduce({j}%{m}, {k}, {words}, {common})',
              lambda obj: getattr(obj, axis).mapReduce(mapper, reducer,
                                                       useLog=False),
              model, False, sameType=True)


def replaceAxisOp(rng, t, nimble, typ):
    axis = _ax(rng)
    a = axisTable(t, axis)
    if not a.np or not a.nf:
        return None
    k = rng.randint(1, a.np)
    pos = rng.sample(range(a.np), k)
    rows = [list(rng.choice(a.rows)) for _ in pos]
    if numericTable(a) and rng.random() < .5:
        rows = [[v + rng.choice([1, .5]) for v in r] for r in rows]
    arg = [ident(rng, a.pn, i) for i in pos]
    byName = all(a.pn[i] is not None for i in pos) and k < a.np \
        and rng.random() < .5
    kw, names = {}, None
    if byName:
        # located by the names of the new data
        arg = None
        names = [a.pn[i] for i in pos]
        kw = {axis[:-1] + 'Names': names}
    elif k == a.np and rng.random() < .5:
        arg, pos = None, list(range(a.np))
    data = axisTable(Table(rows, names, None, a.nf), axis)
    asObj = rng.random() < .5
    other = gen.build(nimble, data, typ, gen.anyRoute(rng), rng)
    raw = [list(r) for r in data.rows]
    if byName and k == 1 and numericTable(data) and rng.random() < .5:
        asObj, raw = False, list(rows[0])
        if rng.random() < .5:
            raw = tuple(raw)
    if 1 in data.shape and not byName:
        asObj = True
    if asObj:
        kw = {}
    elif byName and 1 in data.shape and isinstance(raw, list) \
            and isinstance(raw[0], list):
        asObj, kw = True, {}

    def call(obj):
        return getattr(obj, axis).replace(other if asObj else raw, arg,
                                          useLog=False, **kw)

    def f(t):
        new = [list(r) for r in t.rows]
        for i, r in zip(pos, rows):
            new[i] = r
        return Table(new, t.pn, t.fn, t.nf), NONE
    return Op(f'{axis}.replace({raw}, {arg}, obj={asObj}, {kw})', call,
              onAxis(axis, f), True, [arg, other, raw])


def setNamesOp(rng, t, nimble, typ):
    axis = _ax(rng)
    a = axisTable(t, axis)
    n = a.np
    if not n:
        return None
    r = rng.random()
    if r < .35:
        arg = gen.nameList(rng, n, 'z', gen.modes(rng))
        new = list(arg)
        text = repr(arg)
        kw = {}
    elif r < .5:
        nms = _fresh(rng, set(), n, 'y')
        arg = {nm: i for i, nm in enumerate(nms)}
        new = list(nms)
        kw = {}
        text = repr(arg)
    elif r < .65:
        arg = None
        new = [None] * n
        kw = {}
        text = 'None'
    else:
        k = rng.randint(1, n)
        pos = rng.sample(range(n), k)
        nms = _fresh(rng, set(a.pn), k, 'w')
        ids = [ident(rng, a.pn, i) for i in pos]
        if rng.random() < .25:   # some of the names are removed
            nms = [None if rng.random() < .6 else nm for nm in nms]
        new = list(a.pn)
        for i, nm in zip(pos, nms):
            new[i] = nm
        arg = nms if k > 1 or rng.random() < .5 else nms[0]
        kw = {'oldIdentifiers': ids if isinstance(arg, list) else ids[0]}
        text = f'{arg}, {kw}'

    def call(obj):
        return getattr(obj, axis).setNames(arg, useLog=False, **kw)
    return Op(f'{axis}.setNames({text})', call,
              onAxis(axis, lambda t: (Table(t.rows, new, t.fn, t.nf), NONE)),
              True, [arg] + list(kw.values()))


# -- element operations ----------------------------------------------------

def _elemFunc(rng, t, typ='Sparse'):
    if not numericTable(t) and rng.random() < .6:
        if rng.random() < .5:
            return 'same', (lambda v: v), False
        return 'swap', (lambda v: len(v) if isinstance(v, str)
                        else 'low' if not isNan(v) and v < 1 else v), False
    if typ != 'Sparse' and numericTable(t) and rng.random() < .1:
        c = rng.choice([v for r in t.rows for v in r])
        return f'text where {c}', (lambda v: f'w{float(v)}' if not isNan(v)
                                   and v <= c else v), False
    if numericTable(t):
        c = rng.choice([1, 2, -1, .5])
        r = rng.random()
        if r < .4:
            return f'+{c}', (lambda v: v + c), False
        if r < .7:
            return f'*{c}', (lambda v: v * c), True
        return 'gt0', (lambda v: 1 if v > 0 else 0), True
    return 'isstr', (lambda v: 1 if isinstance(v, str) else 0), True


def transformElementsOp(rng, t, nimble, typ):
    if not t.np or not t.nf:
        return None
    pa, pp = limit(rng, t.pn, True)
    fa, fp = limit(rng, t.fn, True)
    kw = {}
    if numericTable(t) and rng.random() < .25:
        # a mapping, plus a three argument function
        vals = sorted({v for r in t.rows for v in r}, key=float)
        picks = rng.sample(vals, min(2, len(vals)))
        arg = {float(v) if rng.random() < 0 else v: v + 20 for v in picks}
        mf = lambda v, i, j: arg.get(v, v)
        text = repr(arg)
    elif numericTable(t) and rng.random() < .25:
        def arg(v, i, j):
            return v + 10 * i + 100 * j
        mf = arg
        text = '3arg'
    else:
        text, g, zero = _elemFunc(rng, t)

        def arg(v):
            return g(v)
        mf = lambda v, i, j: g(v)
        if zero and rng.random() < .3 and numericTable(t):
            kw['preserveZeros'] = True

    def call(obj):
        return obj.transformElements(arg, pa, fa, useLog=False, **kw)

    def model(t):
        P, F = set(pp), set(fp)
        rows = [[mf(v, i, j) if i in P and j in F else v
                 for j, v in enumerate(r)] for i, r in enumerate(t.rows)]
        return Table(rows, t.pn, t.fn, t.nf), NONE
    return Op(f'transformElements({text}, {pa}, {fa}, {kw})', call, model,
              True, [x for x in (pa, fa) if isinstance(x, list)]
              + ([arg] if isinstance(arg, dict) else []))


def calculateOnElementsOp(rng, t, nimble, typ):
    if not t.np or not t.nf:
        return None
    pa, pp = limit(rng, t.pn, True)
    fa, fp = limit(rng, t.fn, True)
    if pa is not None:
        pp = sorted(pp)
        pa = pp if not isinstance(pa, list) or True else pa
    if fa is not None:
        fp = sorted(fp)
        fa = fp
    kw = {}
    if numericTable(t) and rng.random() < .3:
        def arg(v, i, j):
            return v + 10 * i + 100 * j
        mf = arg
        text = '3arg'
    else:
        text, g, zero = _elemFunc(rng, t, typ)

        def arg(v):
            return g(v)
        mf = lambda v, i, j: g(v)
        if zero and rng.random() < .3 and numericTable(t):
            kw['preserveZeros'] = True

    def call(obj):
        return obj.calculateOnElements(arg, pa, fa, useLog=False, **kw)

    def model(t):
        rows = [[mf(t.rows[i][j], i, j) for j in fp] for i in pp]
        return None, Expect('table', Table(rows, None, None, len(fp)))
    return Op(f'calculateOnElements({text}, {pa}, {fa}, {kw})', call, model,
              False, [x for x in (pa, fa) if isinstance(x, list)],
              sameType=True)


def _elemQuery(rng, t):
    vals = [v for r in t.rows for v in r
            if isNumber(v) and not isNan(v) and not isinstance(v, bool)]
    if not vals or not all(isNumber(v) for r in t.rows for v in r):
        return None
    v = rng.choice(vals)
    o = rng.choice(['==', '!=', '<', '<=', '>', '>='])
    return f'{o}{v}' if rng.random() < .5 else f'{o} {v}', \
        lambda x: _cmp(x, o, v)


def matchingElementsOp(rng, t, nimble, typ):
    if not t.np or not t.nf:
        return None
    q = _elemQuery(rng, t)
    if q and rng.random() < .6:
        arg, f = q
        text = repr(arg)
    else:
        f = lambda v: isinstance(v, str) or (not isNan(v) and v == 0)
        text = 'str-or-0'

        def arg(v):
            return bool(f(v))

    pa, pp = limit(rng, t.pn, True)
    fa, fp = limit(rng, t.fn, True)

    def model(t):
        u = t.take(pp, fp)
        rows = [[bool(f(v)) for v in r] for r in u.rows]
        return None, Expect('table', Table(rows, u.pn, u.fn, u.nf))
    return Op(f'matchingElements({text}, {pa}, {fa})',
              lambda obj: obj.matchingElements(arg, pa, fa, useLog=False),
              model, False, [x for x in (pa, fa) if isinstance(x, list)],
              sameType=True)


def countElementsOp(rng, t, nimble, typ):
    if not t.np or not t.nf:
        return None
    q = _elemQuery(rng, t)
    if q and rng.random() < .6:
        arg, f = q
        text = repr(arg)
    else:
        f = lambda v: isinstance(v, str) or (not isNan(v) and v == 0)
        text = 'str-or-0'

        def arg(v):
            return bool(f(v))
    return Op(f'countElements({text})', lambda obj: obj.countElements(arg),
              lambda t: (None, Expect('value', sum(
                  bool(f(v)) for r in t.rows for v in r))), False)


def countUniqueOp(rng, t, nimble, typ):
    if not t.np or not t.nf:
        return None
    if any(isNan(v) for r in t.rows for v in r):
        return None
    pa, pp = limit(rng, t.pn, True)
    fa, fp = limit(rng, t.fn, True)
    return Op(f'countUniqueElements({pa}, {fa})',
              lambda obj: obj.countUniqueElements(pa, fa),
              lambda t: (None, Expect('counts', [t.rows[i][j] for i in pp
                                                 for j in fp])), False,
              [x for x in (pa, fa) if isinstance(x, list)])


def iterateOp(rng, t, nimble, typ):
    order = rng.choice(['point', 'feature'])
    only = None
    if rng.random() < .4 and numericTable(t):
        only = lambda v: v > 0

    def model(t):
        u = t if order == 'point' else t.T()
        vals = [v for r in u.rows for v in r]
        if only:
            vals = [v for v in vals if only(v)]
        return None, Expect('list', vals)
    if not t.np or not t.nf:
        return None
    return Op(f'iterateElements({order}, {only is not None})',
              lambda obj: list(obj.iterateElements(order=order, only=only)),
              model, False)


def stepSlice(rng, nms):
    """a slice (both ends included) with any step: (slice, positions)"""
    n = len(nms)
    x = rng.randrange(n)
    y = rng.randrange(x, n)
    step = rng.choice([None, None, 1, 2, -1, -1, -2, 3])
    if step is not None and step < 0:
        x, y = y, x
    s = slice(ident(rng, nms, x) if rng.random() < .75 else None,
              ident(rng, nms, y) if rng.random() < .75 else None, step)
    step = step or 1
    first, last = (0, n - 1) if step > 0 else (n - 1, 0)
    lo = x if s.start is not None else first
    hi = y if s.stop is not None else last
    return s, list(range(lo, hi + (1 if step > 0 else -1), step))


def getitemOp(rng, t, nimble, typ):
    if not t.np or not t.nf:
        return None
    r = rng.random()
    if r < .3:
        i, j = rng.randrange(t.np), rng.randrange(t.nf)
        a, b = ident(rng, t.pn, i), ident(rng, t.fn, j)
        # integral floats and numpy integers are indices too
        if not isinstance(a, str) and rng.random() < .2:
            a = rng.choice([float, np.float64, np.int64])(a)
        if not isinstance(b, str) and rng.random() < .2:
            b = rng.choice([float, np.float64, np.int64])(b)
        return Op(f'getitem({a!r}, {b!r})', lambda obj: obj[a, b],
                  lambda t: (None, Expect('value', t.rows[i][j])), False)

    def part(nms):
        n = len(nms)
        q = rng.random()
        if q < .25:
            i = rng.randrange(n)
            return ident(rng, nms, i), [i]
        if q < .5:
            return stepSlice(rng, nms)
        if q < .75:
            pos = rng.sample(range(n), rng.randint(1, n))
            return [ident(rng, nms, i) for i in pos], pos
        mask = [rng.random() < .6 for _ in range(n)]
        if not any(mask):
            mask[0] = True
        return mask, [i for i, m in enumerate(mask) if m]
    a, pp = part(t.pn)
    b, fp = part(t.fn)
    if not isinstance(a, (slice, list)) and not isinstance(b, (slice, list)):
        i, j = pp[0], fp[0]
        return Op(f'getitem({a!r}, {b!r})', lambda obj: obj[a, b],
                  lambda t: (None, Expect('value', t.rows[i][j])), False)
    if isinstance(a, list) and isinstance(b, (str, int)) and len(pp) == 0:
        return None
    return Op(f'getitem({a!r}, {b!r})', lambda obj: obj[a, b],
              lambda t: (None, Expect('table', t.take(pp, fp))), False,
              [x for x in (a, b) if isinstance(x, list)], sameType=True)


def vectorItemOp(rng, t, nimble, typ):
    """point/feature access through the axis and pointView/featureView"""
    axis = _ax(rng)
    a = axisTable(t, axis)
    if not a.np or not a.nf:
        return None
    if rng.random() < .3:
        s, pos = stepSlice(rng, a.pn)
        return Op(f'{axis}[{s}]', lambda obj: getattr(obj, axis)[s],
                  onAxis(axis, lambda t: (None, Expect(
                      'table', t.take(pos)))), False, sameType=True)
    if a.np == 1 and a.nf > 1 and rng.random() < .5:
        # an object with one point or feature is sliced as a sequence
        s, pos = stepSlice(rng, a.fn)
        return Op(f'obj[{s}]', lambda obj: obj[s],
                  onAxis(axis, lambda t: (None, Expect(
                      'table', t.take([0], pos)))), False, sameType=True)
    i = rng.randrange(a.np)
    d = ident(rng, a.pn, i)
    how = rng.choice(['index', 'view', 'iter'])

    def call(obj):
        if how == 'index':
            return getattr(obj, axis)[d]
        if how == 'view':
            return (obj.pointView if axis == 'points'
                    else obj.featureView)(d)
        return list(getattr(obj, axis))[i]
    return Op(f'{axis}.vector-{how}({d!r})', call,
              onAxis(axis, lambda t: (None, Expect('table', t.take([i])))),
              False, sameType=True)


def viewOp(rng, t, nimble, typ):
    if not t.np or not t.nf:
        return None
    a = rng.randrange(t.np)
    b = rng.randrange(a, t.np)
    c = rng.randrange(t.nf)
    d = rng.randrange(c, t.nf)
    args = [ident(rng, t.pn, a), ident(rng, t.pn, b), ident(rng, t.fn, c),
            ident(rng, t.fn, d)]
    return Op(f'view({args})', lambda obj: obj.view(*args),
              lambda t: (None, Expect('table', t.take(range(a, b + 1),
                                                      range(c, d + 1)))),
              False, sameType=True)


def setitemOp(rng, t, nimble, typ):
    if not t.np or not t.nf:
        return None
    i, j = rng.randrange(t.np), rng.randrange(t.nf)
    v = rng.choice(t.rows)[rng.randrange(t.nf)]
    if numericTable(t) and rng.random() < .5:
        v = rng.choice([0, 5, 2.5, -7])
    elif not homogeneous(t):
        v = t.rows[rng.randrange(t.np)][j]
    a, b = ident(rng, t.pn, i), ident(rng, t.fn, j)

    def call(obj):
        obj[a, b] = v

    def model(t):
        rows = [list(r) for r in t.rows]
        rows[i][j] = v
        return Table(rows, t.pn, t.fn, t.nf), NONE
    return Op(f'setitem({a!r}, {b!r}, {v!r})', call, model, True)


def setitemsOp(rng, t, nimble, typ):
    """several elements at once: a single value or one for each"""
    if not t.np or not t.nf:
        return None

    def pick(nms):
        n = len(nms)
        r = rng.random()
        if r < .3:
            i = rng.randrange(n)
            return ident(rng, nms, i), [i]
        if r < .6:
            js = rng.sample(range(n), rng.randint(1, n))
            return [ident(rng, nms, j) for j in js], js
        if r < .75:
            return slice(None), list(range(n))
        i, j = sorted(rng.randrange(n) for _ in range(2))
        return slice(ident(rng, nms, i), ident(rng, nms, j)), \
            list(range(i, j + 1))
    (a, xs), (b, ys) = pick(t.pn), pick(t.fn)
    pool = [[t.rows[rng.randrange(t.np)][j] for j in ys] for _ in xs]
    if numericTable(t):
        pool = [[rng.choice([0, 0, 5, 2.5, -7, v]) for v in r] for r in pool]
    r = rng.random()
    if r < .25:
        v = pool[0][0]
        if not homogeneous(t) and not numericTable(t):
            ys = ys[:1]
            b = ident(rng, t.fn, ys[0])
        new = [[v] * len(ys) for _ in xs]
        form = v
    else:
        new = pool
        form = rng.choice(['list', 'list', 'nimble', 'array', 'tuple'])
        if 1 in (len(xs), len(ys)) and rng.random() < .5 and \
                form != 'nimble':
            flat = [v for q in new for v in q]
            form = {'array': np.array(flat, dtype=object),
                    'tuple': tuple(flat)}.get(form, flat)
        elif form == 'nimble':
            form = nimble.data([list(q) for q in new], useLog=False,
                               pointNames=False, featureNames=False)
        elif form == 'array':
            form = np.empty((len(xs), len(ys)), dtype=object)
            form[:] = [list(q) for q in new]
        else:
            form = [list(q) for q in new]

    def call(obj):
        obj[a, b] = form

    def model(t):
        rows = [list(r) for r in t.rows]
        for i, q in zip(xs, new):
            for j, v in zip(ys, q):
                rows[i][j] = v
        return Table(rows, t.pn, t.fn, t.nf), NONE
    return Op(f'setitems({a!r}, {b!r}, {form!r})', call, model, True,
              args=[form])


def replaceRectangleOp(rng, t, nimble, typ):
    if not t.np or not t.nf:
        return None
    a = rng.randrange(t.np)
    b = rng.randrange(a, t.np)
    c = rng.randrange(t.nf)
    d = rng.randrange(c, t.nf)
    ends = [ident(rng, t.pn, b), ident(rng, t.fn, d)]
    starts = [ident(rng, t.pn, a), ident(rng, t.fn, c)]
    if rng.random() < .4 and numericTable(t):
        v = rng.choice(rng.choice(t.rows))
        if numericTable(t):
            v = rng.choice([0, 5, 2.5, v])
        rows = [[v] * (d - c + 1) for _ in range(b - a + 1)]
        arg = v
        text = repr(v)
        other = None
        if isNan(v):
            return None
    else:
        rows = [list(rng.choice(t.rows)[c:d + 1]) for _ in range(b - a + 1)]
        if numericTable(t) and rng.random() < .4:
            rows = [[v + rng.choice([0, .5, 10]) for v in r] for r in rows]
        sub = Table(rows, None, None, d - c + 1)
        text = repr(sub)
        typ2 = rng.choice(gen.TYPES)
        if typ2 == 'Sparse' and not all(isNumber(v) for r in rows for v in r):
            typ2 = 'List'
        other = gen.build(nimble, sub, typ2, gen.anyRoute(rng), rng)
        arg = other
        if rng.random() < .25:
            ends = [None, None]

    def call(obj):
        return obj.replaceRectangle(arg, starts[0], starts[1], ends[0],
                                    ends[1], useLog=False)

    def model(t):
        new = [list(r) for r in t.rows]
        for i in range(a, b + 1):
            new[i][c:d + 1] = rows[i - a]
        return Table(new, t.pn, t.fn, t.nf), NONE
    return Op(f'replaceRectangle({text}, {starts}, {ends})', call, model,
              True, [other] if other is not None else [])


def transposeOp(rng, t, nimble, typ):
    if rng.random() < .5:
        return Op('transpose()', lambda obj: obj.transpose(useLog=False),
                  lambda t: (t.T(), NONE), True)
    return Op('T()', lambda obj: obj.T,
              lambda t: (None, Expect('table', t.T())), False, sameType=True)


def copyOp(rng, t, nimble, typ):
    return Op('copy()', lambda obj: obj.copy(),
              lambda t: (None, Expect('table', t)), False, sameType=True)


def copyToOp(rng, t, nimble, typ):
    to = rng.choice(gen.TYPES)
    if to == 'Sparse' and not all(isNumber(v) for r in t.rows for v in r):
        return None
    return Op(f'copyTo({to})', lambda obj: obj.copy(to=to),
              lambda t: (None, Expect('table', t)), False)


def flattenOp(rng, t, nimble, typ):
    """flatten then unflatten: the intermediate object has the documented
    order, the round trip restores the table (names included)."""
    if not t.np or not t.nf:
        return None
    order = rng.choice(['point', 'feature'])
    if not homogeneous(t):
        return None

    def call(obj):
        c = obj.copy()
        c.flatten(order=order, useLog=False)
        return c

    def model(t):
        u = t if order == 'point' else t.T()
        vals = [v for r in u.rows for v in r]
        return None, Expect('table', Table([vals], None, None, len(vals)),
                            checkNames=False)
    return Op(f'flatten({order})', call, model, False, sameType=True)


def renameOp(rng, t, nimble, typ):
    nm = rng.choice(['obj', 'x', None])

    def call(obj):
        obj.name = nm
    return Op(f'name({nm})', call, lambda t: (t, NONE), True)


AXIS_OPS = [structural, structural, structural, countOp, sortOp, permuteOp,
            insertOp, insertOp, transformAxisOp, calculateAxisOp,
            matchingAxisOp, repeatOp, uniqueOp, mapReduceOp, replaceAxisOp,
            setNamesOp]
ELEMENT_OPS = [transformElementsOp, calculateOnElementsOp, matchingElementsOp,
               countElementsOp, countUniqueOp, iterateOp, getitemOp,
               getitemOp, vectorItemOp, viewOp, setitemOp, setitemsOp,
               replaceRectangleOp,
               transposeOp, copyOp, copyToOp, flattenOp]
ALL_OPS = AXIS_OPS + ELEMENT_OPS


def draw(rng, t, nimble, typ, pool=None, view=False, tries=40):
    """One operation applicable to the table (None if unlucky)."""
    pool = pool or ALL_OPS
    for _ in range(tries):
        g = rng.choice(pool)
        op = g(rng, t, nimble, typ)
        if op is None:
            continue
        if view and op.mutates:
            continue
        return op
    return None


def okNumeric(t):
    return all(isNumber(v) for r in t.rows for v in r)
