"""Seeded generators of tables and of nimble objects holding them."""
from vlib.model import Table, NAN, isNumber

TYPES = ['List', 'Matrix', 'Sparse', 'DataFrame']
WORDS = ['a', 'b', 'c', 'red', 'blue', 'x y', 'Z', 'd1', 'é', "it's", 'a,b',
         '>', '10', 'true']

KINDS = ['int', 'intsparse', 'float', 'floatsparse', 'nan', 'bool', 'str',
         'mixed', 'mixedcols']
NUMERIC = ['int', 'intsparse', 'float', 'floatsparse']


def value(rng, kind, j=0):
    if kind == 'int':
        return rng.randint(-3, 9)
    if kind == 'posint':
        return rng.randint(1, 9)
    if kind == 'intsparse':
        return rng.choice([0, 0, 0, 1, 2, -1])
    if kind == 'float':
        return rng.choice([0.5, -1.5, 2.25, 3.0, 0.0, 1e3, -0.125, 7.75])
    if kind == 'floatsparse':
        return rng.choice([0.0, 0.0, 0.0, 1.5, -2.5, 4.0])
    if kind == 'nan':
        return rng.choice([0, 1, 2.5, -3, NAN, NAN, 0])
    if kind == 'bool':
        return rng.choice([True, False])
    if kind == 'str':
        return rng.choice(WORDS)
    if kind == 'mixed':
        return rng.choice([0, 1, -2.5, 'a', 'b', NAN, 0, 'red', 3])
    if kind == 'mixedcols':
        return value(rng, ['int', 'str', 'float', 'intsparse', 'nan'][j % 5])
    raise ValueError(kind)


def nameList(rng, n, prefix, mode):
    """mode: none | all | some"""
    if mode == 'none' or n == 0:
        return [None] * n
    pool = [f'{prefix}{i}' for i in range(n + 4)]
    if rng.random() < .15:
        odd = [f'{prefix} {n}', f'{prefix}_x', f'{n}']
        pool[:len(odd)] = odd
    rng.shuffle(pool)
    ret = pool[:n]
    if mode == 'some':
        for i in range(n):
            if rng.random() < .4:
                ret[i] = None
        if all(r is None for r in ret):
            ret[rng.randrange(n)] = pool[n]
    return ret


def modes(rng, some=True):
    r = rng.random()
    if r < .3:
        return 'none'
    if r < .85 or not some:
        return 'all'
    return 'some'


def likeHeaders(rng, rows):
    """Put text in the first point or feature only, where it looks like
    names."""
    p, f = len(rows), len(rows[0]) if rows else 0
    if not p or not f:
        return
    if rng.random() < .6:
        for k, w in enumerate(rng.sample(WORDS, min(len(WORDS), f))):
            rows[0][k] = w
            for r in rows[1:]:
                r[k] = rng.choice([0, 1, 2.5, NAN, 7])
    if rng.random() < .4:
        for r, w in zip(rows, rng.sample(WORDS, min(len(WORDS), p))):
            r[0] = w


def table(rng, kind=None, minP=1, maxP=6, minF=1, maxF=5, pmode=None,
          fmode=None, some=True, dups=True):
    kind = kind or rng.choice(KINDS)
    p = rng.randint(minP, maxP)
    f = rng.randint(minF, maxF)
    # sometimes many: indices of several digits, long lists of names
    if maxP > max(4, minP) and rng.random() < .03:
        p = rng.choice([11, 12, 17, 33, 60])
    if maxF > max(3, minF) and rng.random() < .02:
        f = rng.choice([11, 12, 17, 26])
    rows = [[value(rng, kind, j) for j in range(f)] for _ in range(p)]
    if dups and p > 1 and rng.random() < .3:
        rows[rng.randrange(p)] = list(rng.choice(rows))
    if dups and f > 1 and rng.random() < .2:
        a, b = rng.randrange(f), rng.randrange(f)
        if kind != 'mixedcols':
            for r in rows:
                r[a] = r[b]
    if kind == 'mixed' and rng.random() < .35:
        likeHeaders(rng, rows)
    t = Table(rows, nameList(rng, p, 'p', pmode or modes(rng, some)),
              nameList(rng, f, 'f', fmode or modes(rng, some)), f)
    t.kind = kind
    return t


ROUTES = ['direct', 'direct', 'view', 'view', 'shuffled', 'transposed',
          'extracted', 'appended', 'copied', 'converted', 'set', 'inserted', 'deleted',
          'flattened', 'replaced', 'arith']


def construct(nimble, t, typ):
    """nimble object of the given type holding the table."""
    pn = t.pn if any(n is not None for n in t.pn) else None
    fn = t.fn if any(n is not None for n in t.fn) else None
    if t.np == 0 or t.nf == 0:
        import numpy as np
        return nimble.data(np.empty(t.shape), pointNames=pn or False,
                           featureNames=fn or False, returnType=typ,
                           useLog=False)
    return nimble.data([list(r) for r in t.rows], pointNames=pn or False,
                       featureNames=fn or False, returnType=typ,
                       treatAsMissing=[None, NAN], useLog=False)


def build(nimble, t, typ, route='direct', rng=None):
    """The same logical table reached through different histories, so the
    internal state (sortedness, column labels, dtype, view or not) varies."""
    if t.np == 0 or t.nf == 0:
        route = 'direct'
    if route == 'direct':
        return construct(nimble, t, typ)
    if route == 'view' or route == 'extracted':
        # surround the table by junk, then look at / take out the middle
        junkP, junkF = rng.randint(0, 2), rng.randint(0, 2)
        endP, endF = rng.randint(0, 1), rng.randint(0, 1)

        def filler():
            return rng.choice(t.rows[rng.randrange(t.np)])
        rows = []
        for i in range(junkP + t.np + endP):
            inside = junkP <= i < junkP + t.np
            row = []
            for j in range(junkF + t.nf + endF):
                if inside and junkF <= j < junkF + t.nf:
                    row.append(t.rows[i - junkP][j - junkF])
                else:
                    row.append(filler())
            rows.append(row)

        def nm(lst, before, after, tag):
            if not any(n is not None for n in lst):
                return [None] * (before + len(lst) + after)
            return ([f'{tag}B{i}' for i in range(before)] + list(lst)
                    + [f'{tag}A{i}' for i in range(after)])
        big = Table(rows, nm(t.pn, junkP, endP, 'q'),
                    nm(t.fn, junkF, endF, 'g'), junkF + t.nf + endF)
        obj = construct(nimble, big, typ)
        if route == 'view':
            return obj.view(junkP, junkP + t.np - 1, junkF, junkF + t.nf - 1)
        obj = obj.points.extract(start=junkP, end=junkP + t.np - 1,
                                 useLog=False)
        return obj.features.extract(start=junkF, end=junkF + t.nf - 1,
                                    useLog=False)
    if route == 'shuffled':
        po = list(range(t.np))
        fo = list(range(t.nf))
        rng.shuffle(po)
        rng.shuffle(fo)
        obj = construct(nimble, t.take(po, fo), typ)
        obj.points.permute([po.index(i) for i in range(t.np)], useLog=False)
        obj.features.permute([fo.index(j) for j in range(t.nf)], useLog=False)
        return obj
    if route == 'transposed':
        obj = construct(nimble, t.T(), typ)
        obj.transpose(useLog=False)
        return obj
    if route == 'appended':
        if t.np < 2:
            return construct(nimble, t, typ)
        k = rng.randint(1, t.np - 1)
        obj = construct(nimble, t.take(range(k)), typ)
        obj.points.append(construct(nimble, t.take(range(k, t.np)), typ),
                          useLog=False)
        return obj
    if route == 'copied':
        return construct(nimble, t, typ).copy()
    if route == 'converted':
        # the installed scipy cannot keep objects: text never goes by Sparse
        numeric = all(isNumber(v) for r in t.rows for v in r)
        return construct(nimble, t, rng.choice(
            TYPES if numeric else ['List', 'Matrix', 'DataFrame'])
            ).copy(to=typ)
    if route == 'set':
        # some elements held another value of their feature before
        old = t.copy()
        cells = [(rng.randrange(t.np), rng.randrange(t.nf))
                 for _ in range(rng.randint(1, 3))]
        for i, j in cells:
            old.rows[i][j] = rng.choice(t.rows)[j]
        obj = construct(nimble, old, typ)
        for i, j in cells:
            obj[i, j] = t.rows[i][j]
        return obj
    if route == 'inserted':
        ax = rng.choice(['points', 'features'])
        n = t.np if ax == 'points' else t.nf
        if n < 2:
            return construct(nimble, t, typ)
        lo = rng.randrange(n)
        hi = rng.randint(lo + 1, n)
        inner = list(range(lo, hi))
        outer = [i for i in range(n) if i not in inner]
        if not outer:
            return construct(nimble, t, typ)
        a, b = ((t.take(outer), t.take(inner)) if ax == 'points' else
                (t.take(None, outer), t.take(None, inner)))
        obj = construct(nimble, a, typ)
        getattr(obj, ax).insert(lo, construct(nimble, b, typ), useLog=False) \
            if lo < len(outer) else getattr(obj, ax).append(
                construct(nimble, b, typ), useLog=False)
        return obj
    if route == 'deleted':
        # every element has a twin that is taken away afterwards
        ax = rng.choice(['points', 'features'])
        n = t.np if ax == 'points' else t.nf
        order = [k for i in range(n) for k in ((i, i) if rng.random() < .4
                                               else (i,))]
        big = t.take(order) if ax == 'points' else t.take(None, order)
        names = big.pn if ax == 'points' else big.fn
        gone = [k for k in range(1, len(order)) if order[k] == order[k - 1]]
        for k in gone:
            if names[k] is not None:
                names[k] = f'twin {k}'
        obj = construct(nimble, big, typ)
        if gone:
            getattr(obj, ax).delete(gone, useLog=False)
        return obj
    if route == 'flattened':
        names = list(t.pn) + list(t.fn)
        if len({n is None for n in names}) != 1 or any(
                n and ('|' in n or n.startswith('_')) for n in names):
            return construct(nimble, t, typ)
        obj = construct(nimble, t, typ)
        order = rng.choice(['point', 'feature'])
        obj.flatten(order, useLog=False)
        obj.unflatten((t.np, t.nf), order, useLog=False)
        return obj
    if route == 'replaced':
        old = t.copy()
        a, b = sorted((rng.randrange(t.np), rng.randrange(t.np)))
        c, d = sorted((rng.randrange(t.nf), rng.randrange(t.nf)))
        for i in range(a, b + 1):
            for j in range(c, d + 1):
                old.rows[i][j] = rng.choice(t.rows)[j]
        part = t.take(range(a, b + 1), range(c, d + 1))
        obj = construct(nimble, old, typ)
        obj.replaceRectangle(construct(nimble, part, typ), a, c, b, d,
                             useLog=False)
        return obj
    if route == 'arith':
        if not all(type(v) is int and abs(v) < 10 ** 6 for r in t.rows
                   for v in r):
            return construct(nimble, t, typ)
        # zero and other values appear by subtraction
        k = t.copy()
        k.rows = [[rng.choice([0, 1, -1, v, -v, 7]) for v in r]
                  for r in t.rows]
        big = t.copy()
        big.rows = [[v + w for v, w in zip(r, s)]
                    for r, s in zip(t.rows, k.rows)]
        obj = construct(nimble, big, typ)
        obj -= construct(nimble, k, typ)
        return obj
    raise ValueError(route)


def anyRoute(rng, views=True):
    r = rng.choice(ROUTES)
    if r == 'view' and not views:
        return 'direct'
    return r


def cube(rng, text=False):
    """Nested lists of more than two dimensions: (lists, dimensions)."""
    dims = [rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 3)]
    if rng.random() < .25:
        dims.append(rng.randint(1, 2))

    def make(ds):
        if not ds:
            return rng.choice(['a', 'b', 'c']) if text else \
                rng.choice([0, 1, 2, 3, -1, 2.5])
        return [make(ds[1:]) for _ in range(ds[0])]
    return make(dims), tuple(dims)


def buildCube(nimble, rng, raw, dims, typ, names=None):
    import numpy as np
    kw = {}
    if names is not None:
        kw['pointNames'] = names
    return nimble.data(raw, returnType=typ, useLog=False, **kw)
