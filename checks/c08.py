"""Transpose, flatten/unflatten and data of more than two dimensions against
nested python lists."""
import numpy as np

from vlib import gen, model
from vlib.model import Table, NAN, isNumber, same, norm
from vlib.runner import where, Skip
from checks.common import call, must, freeze, frozenDiff, typesFor, pickType

PROPERTY = 'C08'
RULE = ('two dimensional tables of every shape (single points, single '
        'features, unequal sides), name pattern, element kind, '
        'representation and construction history flattened in both orders, '
        'unflattened to every factorisation and transposed; three to five '
        'dimensional data from nested lists, arrays, dictionaries and lists '
        'of data objects, taken through random sequences of the operations '
        'allowed on their points and read back through every accessor; '
        'non-trivial: distinct (operation, representation, route, '
        'dimensions)')
QUICK = {'cases': 6000, 'seconds': 90}
THOROUGH = {'cases': 120000, 'seconds': 800}
MIN = {'ragged': 150, 'roundtrips': 800, 'elements_located': 15000, 'cube_steps': 3000,
       'cube_readbacks': 4000, 'names_restored': 100, 'labelled_cells': 2000}


def homog(t):
    return all(isNumber(v) for r in t.rows for v in r) or \
        all(isinstance(v, str) for r in t.rows for v in r)


def factors(n, depth=2):
    out = []
    for a in range(1, n + 1):
        if n % a == 0:
            if depth == 2:
                out.append((a, n // a))
            else:
                out += [(a,) + f for f in factors(n // a, depth - 1)]
    return out


def flat(ctx):
    """flatten order, names, and unflatten to the same or another shape"""
    rng = ctx.rng
    t = gen.table(rng)
    typ = pickType(rng, t)
    route = gen.anyRoute(rng, views=False)
    O = gen.build(ctx.nimble, t, typ, route, rng)
    order = rng.choice(['point', 'feature'])
    src = O.copy()
    label = f'{typ}/{route} {t} flatten({order})'
    ctx.log(label)
    ctx.state('flat', typ, route, order, t.shapeKey(), t.kind)
    key = f'flatten:{order}:{typ}'
    st, res = call(ctx, lambda: O.flatten(order=order, useLog=False))
    if st == 'exc':
        ctx.violation(f'{key}:raises-{type(res).__name__}',
                      f'{label} raised {res} (in {where(res)})')
    u = t if order == 'point' else t.T()
    vals = [v for r in u.rows for v in r]
    n = len(vals)
    cells = [(i, j) for i in range(t.np) for j in range(t.nf)]
    if order == 'feature':
        cells = [(i, j) for j in range(t.nf) for i in range(t.np)]
    named = any(t.pn) or any(t.fn)

    def cellName(c):
        p, f = t.pn[c[0]], t.fn[c[1]]
        return (p if p is not None else f'_PT#{c[0]}') + ' | ' + (
            f if f is not None else f'_FT#{c[1]}')
    fn = [cellName(c) for c in cells] if named else [None] * n
    want = Table([vals], ['Flattened'], fn, n)
    d = model.diff(O, want)
    ctx.check(d is None, key + ':result', lambda: f'{label}: {d}')
    ctx.check(tuple(O.dimensions) == (1, n), key + ':dimensions',
              lambda: f'{label}: dimensions {O.dimensions}')
    d = model.invariants(O)
    ctx.check(d is None, key + ':invariant', lambda: f'{label}: {d}')
    ctx.event('elements_located', n)
    d = model.diff(src, t)
    ctx.check(d is None, key + ':shared', lambda: f'{label}: the copy taken '
              f'before flattening: {d}')
    # back: same dimensions, or any other
    if rng.random() < .3:
        O.transpose(useLog=False)
    dims = t.shape if rng.random() < .55 else rng.choice(factors(n))
    back = order if rng.random() < .7 else (
        'point' if order == 'feature' else 'feature')
    arg = rng.choice([tuple, list])(dims)
    lab2 = f'{label} then unflatten({arg}, {back})'
    ctx.log(f'unflatten({arg}, {back})')
    st, res = call(ctx, lambda: O.unflatten(arg, order=back, useLog=False))
    key = f'unflatten:{back}:{typ}'
    if st == 'exc':
        ctx.violation(f'{key}:raises-{type(res).__name__}',
                      f'{lab2} raised {res} (in {where(res)})')
    a, b = dims
    if back == 'point':
        pos = [[i * b + j for j in range(b)] for i in range(a)]
    else:
        pos = [[j * a + i for j in range(b)] for i in range(a)]
    want = Table([[vals[k] for k in r] for r in pos])
    if dims == t.shape and back == order:
        want.pn, want.fn = t.pn, t.fn
        d = model.diff(O, want)
        ctx.check(d is None, key + ':roundtrip', lambda: f'{lab2}: {d}')
        ctx.event('roundtrips')
        if named:
            ctx.event('names_restored')
    else:
        d = model.diff(O, want, checkNames=False)
        ctx.check(d is None, key + ':result', lambda: f'{lab2}: {d}')
        # names may be given up, but must not label other cells
        pn, fn2 = model.names(O.points), model.names(O.features)
        for i in range(a):
            for j in range(b):
                cp, cf = cells[pos[i][j]]
                ok = (pn[i] is None or t.pn[cp] == pn[i]) and (
                    fn2[j] is None or t.fn[cf] == fn2[j])
                # the same dimensions in the other order: the names are taken
                # for those of the new object
                if dims == t.shape:
                    continue
                ctx.check(ok, key + ':mislabelled', lambda: f'{lab2}: the '
                          f'value named {cellName((cp, cf))} is at point '
                          f'{pn[i]!r}, feature {fn2[j]!r}')
                ctx.event('labelled_cells')
    d = model.invariants(O)
    ctx.check(d is None, key + ':invariant', lambda: f'{lab2}: {d}')
    ctx.event('elements_located', n)


def transpose(ctx):
    rng = ctx.rng
    t = gen.table(rng)
    typ = pickType(rng, t)
    route = gen.anyRoute(rng)
    O = gen.build(ctx.nimble, t, typ, route, rng)
    label = f'{typ}/{route} {t}'
    ctx.log(label)
    ctx.state('T', typ, route, t.shapeKey(), t.kind)
    before = freeze(O)
    X = must(ctx, f'T:{typ}', label + '.T', lambda: O.T)
    d = model.diff(X, t.T()) or model.invariants(X)
    ctx.check(d is None, f'T:{typ}', lambda: f'{label}.T: {d}')
    d = frozenDiff(before, freeze(O))
    ctx.check(d is None, f'T:{typ}:source', lambda: f'{label}.T: source {d}')
    ctx.check(X.getTypeString() == typ, f'T:{typ}:type', lambda: label)
    Y = must(ctx, f'T:{typ}', label + '.T.T', lambda: X.T)
    d = model.diff(Y, t)
    ctx.check(d is None, f'TT:{typ}', lambda: f'{label}.T.T: {d}')
    if route != 'view':
        k = rng.randint(1, 3)
        for _ in range(k):
            must(ctx, f'transpose:{typ}', label, lambda: O.transpose(
                useLog=False))
        w = t.T() if k % 2 else t
        d = model.diff(O, w) or model.invariants(O)
        ctx.check(d is None, f'transpose:{typ}', lambda: f'{label} transposed '
                  f'{k} times: {d}')
        d = model.diff(X, t.T())
        ctx.check(d is None, f'T:{typ}:shared', lambda: f'{label}.T after '
                  f'transposing the source: {d}')
    if homog(t):
        target = rng.choice(['pythonlist', 'numpyarray'] + typesFor(t))
        C = must(ctx, f'copyT:{typ}', label, lambda: Y.copy(
            target, rowsArePoints=False))
        if target in gen.TYPES:
            d = model.diff(C, t.T())
            ctx.check(d is None, f'copyT:{typ}:{target}',
                      lambda: f'{label} copied as columns: {d}')
        else:
            got = C if isinstance(C, list) else C.tolist()
            ctx.check(model.sameRows(got, t.T().rows),
                      f'copyT:{typ}:{target}', lambda: f'{label} copied to '
                      f'{target} with rowsArePoints=False is {got}')
    ctx.event('roundtrips')
    ctx.event('elements_located', 4 * t.np * t.nf)


# -- more than two dimensions ------------------------------------------------

def draw(rng, dims, kind):
    if not dims:
        if kind == 'str':
            return rng.choice(['a', 'b', 'x y', 'é'])
        if kind == 'nan':
            return rng.choice([0, 1, 2.5, -3, NAN])
        if kind == 'sparse':
            return rng.choice([0, 0, 0, 1, -2, 4])
        return rng.randint(-9, 99)
    return [draw(rng, dims[1:], kind) for _ in range(dims[0])]


def flatList(x):
    if not isinstance(x, list):
        return [x]
    return [v for y in x for v in flatList(y)]


def sameNested(x, y):
    if isinstance(x, list) != isinstance(y, list):
        return False
    if isinstance(x, list):
        return len(x) == len(y) and all(sameNested(a, b)
                                        for a, b in zip(x, y))
    return same(x, y)


def plainNested(x):
    if hasattr(x, 'tolist'):
        x = x.tolist()
    if isinstance(x, (list, tuple)):
        return [plainNested(y) for y in x]
    return norm(x)


class Cube:
    def __init__(self, pts, tail, pn):
        self.pts, self.tail, self.pn = pts, tuple(tail), pn

    def take(self, ix):
        return Cube([self.pts[i] for i in ix], self.tail,
                    [self.pn[i] for i in ix])

    def copy(self):
        return self.take(range(len(self.pts)))

    @property
    def dims(self):
        return (len(self.pts),) + self.tail

    def __repr__(self):
        return f'Cube({self.pts}, names={self.pn})'


def readCube(ctx, obj, c, label, key, deep=True):
    ctx.event('cube_readbacks')
    ctx.check(tuple(obj.dimensions) == c.dims, key + ':dimensions',
              lambda: f'{label}: dimensions {obj.dimensions}, expected '
              f'{c.dims}')
    n = len(c.pts)
    width = int(np.prod(c.tail))
    ctx.check(tuple(obj.shape) == (n, width), key + ':shape',
              lambda: f'{label}: shape {obj.shape}')
    ctx.check(model.names(obj.points) == c.pn, key + ':names',
              lambda: f'{label}: point names {obj.points.getNames()}, '
              f'expected {c.pn}')
    d = model.invariants(obj)
    ctx.check(d is None, key + ':invariant', lambda: f'{label}: {d}')
    if not n:
        return
    got = plainNested(must(ctx, key, label, lambda: obj.copy('pythonlist')))
    ctx.check(sameNested(got, c.pts), key + ':value',
              lambda: f'{label}: python list {got}, expected {c.pts}')
    ctx.event('elements_located', n * width)
    if not deep:
        return
    arr = must(ctx, key, label, lambda: obj.copy('numpyarray'))
    ctx.check(arr.shape == c.dims and sameNested(plainNested(arr), c.pts),
              key + ':numpy', lambda: f'{label}: array {arr.tolist()}')
    seen = 0
    for i, p in enumerate(obj.points):
        readPoint(ctx, p, c.pts[i], c.tail, c.pn[i], f'{label} point {i} of '
                  'iteration', key + ':iter')
        seen += 1
    ctx.check(seen == n, key + ':iter', lambda: f'{label}: iteration gave '
              f'{seen} points')
    i = ctx.rng.randrange(n)
    ident = c.pn[i] if c.pn[i] is not None and ctx.rng.random() < .5 else \
        ctx.rng.choice([i, i - n])
    p = must(ctx, key + ':getitem', f'{label} points[{ident!r}]',
             lambda: obj.points[ident])
    readPoint(ctx, p, c.pts[i], c.tail, c.pn[i],
              f'{label} points[{ident!r}]', key + ':getitem')
    p = must(ctx, key + ':pointView', f'{label} pointView({ident!r})',
             lambda: obj.pointView(ident))
    readPoint(ctx, p, c.pts[i], c.tail, c.pn[i],
              f'{label} pointView({ident!r})', key + ':pointView')


def readPoint(ctx, p, nested, tail, name, label, key):
    """one point of a cube: an object of one dimension less"""
    if len(tail) == 1:
        return
    ctx.check(tuple(p.dimensions) == tuple(tail), key + ':dimensions',
              lambda: f'{label}: dimensions {p.dimensions}, expected {tail}')
    got = plainNested(p.copy('pythonlist'))
    ctx.check(sameNested(got, nested), key + ':value',
              lambda: f'{label}: {got}, expected {nested}')
    ctx.event('elements_located', len(flatList(nested)))
    if len(tail) == 2:
        i, j = ctx.rng.randrange(tail[0]), ctx.rng.randrange(tail[1])
        ctx.check(same(p[i, j], nested[i][j]), key + ':element',
                  lambda: f'{label}: [{i}, {j}] is {p[i, j]!r}')
    else:
        for k, q in enumerate(p.points):
            readPoint(ctx, q, nested[k], tail[1:], None, f'{label} > {k}',
                      key)


def raw(ctx, c, typ, numeric):
    """the nested data in some raw form nimble.data accepts"""
    rng = ctx.rng
    nimble = ctx.nimble
    kw = {'returnType': typ, 'useLog': False, 'treatAsMissing': [None, NAN]}
    names = {'pointNames': c.pn} if any(c.pn) else {}
    forms = ['list', 'tuple', 'array', 'arrays', 'objects', 'dict', 'cube',
             'objarray']
    form = rng.choice(forms)
    pts = plainNested(c.pts)
    if form == 'dict' and not all(c.pn):
        form = 'list'
    if form == 'objects' and len(c.tail) == 2 and 1 in c.tail:
        form = 'list'  # two dimensional vectors in a list are points
    if form == 'list':
        data = pts
    elif form == 'tuple':
        data = tuple(pts)
    elif form == 'array':
        data = np.array(pts, dtype=float if numeric else object)
    elif form == 'objarray':
        data = np.array(pts, dtype=object)
    elif form == 'arrays':
        data = [np.array(p, dtype=float if numeric else object) for p in pts]
    elif form == 'objects':
        types = gen.TYPES if numeric else ['List', 'Matrix', 'DataFrame']
        data = [nimble.data(p, returnType=rng.choice(types), useLog=False,
                            treatAsMissing=[None, NAN]) for p in pts]
    elif form == 'dict':
        data = dict(zip(c.pn, pts))
        names = {}
    elif form == 'cube':
        types = gen.TYPES if numeric else ['List', 'Matrix', 'DataFrame']
        data = nimble.data(pts, returnType=rng.choice(types), useLog=False,
                           treatAsMissing=[None, NAN])
    return form, lambda: nimble.data(data, **names, **kw), data


def makeCube(rng, kind=None):
    nd = rng.choice([3, 3, 3, 4, 4, 5])
    dims = [rng.randint(1, 4)] + [rng.randint(1, 3) for _ in range(nd - 1)]
    kind = kind or rng.choice(['int', 'sparse', 'nan', 'str'])
    pts = draw(rng, dims, kind)
    return Cube(pts, dims[1:], gen.nameList(rng, dims[0], 'p', gen.modes(
        rng))), kind


def cube(ctx):
    rng = ctx.rng
    c, kind = makeCube(rng)
    numeric = kind != 'str'
    typ = rng.choice(gen.TYPES if numeric else ['List', 'Matrix',
                                                'DataFrame'])
    form, fun, data = raw(ctx, c, typ, numeric)
    label = f'{typ} from {form} {c}'
    ctx.log(label)
    key = f'create:{typ}:{form}'
    before = freeze(data) if form != 'objects' else None
    obj = must(ctx, key, label, fun)
    if before is not None:
        d = frozenDiff(before, freeze(data))
        ctx.check(d is None, key + ':raw', lambda: f'{label}: raw data {d}')
    if form == 'objects' and len(c.tail) == 1:
        return
    ctx.state('create', typ, form, len(c.dims), c.dims[0] > 1, kind)
    readCube(ctx, obj, c, label, key)
    for _ in range(rng.randint(1, 4)):
        c, obj = step(ctx, obj, c, typ, numeric, kind)
        if not c.pts:
            break


def chosen(rng, c):
    """identifiers of distinct points: (argument kwargs, indices)"""
    n = len(c.pts)
    r = rng.random()
    if r < .6:
        ix = rng.sample(range(n), rng.randint(1, n))
        if rng.random() < .5:
            ix.sort()
        ids = [c.pn[i] if c.pn[i] is not None and rng.random() < .5 else i
               for i in ix]
        if len(ids) == 1 and rng.random() < .5:
            return {'to': ids[0]}, ix
        return {'to': ids}, ix
    a = rng.randrange(n)
    b = rng.randrange(a, n)
    return {'start': a, 'end': b}, list(range(a, b + 1))


def step(ctx, obj, c, typ, numeric, kind):
    rng = ctx.rng
    nimble = ctx.nimble
    n = len(c.pts)
    what = rng.choice(['copy', 'extract', 'delete', 'retain', 'permute',
                       'sortnames', 'sortfunc', 'append', 'insert', 'repeat',
                       'setNames', 'flatten', 'copyto', 'view', 'extractfunc',
                       'replace', 'unflatten', 'split'])
    ctx.event('cube_steps')
    ctx.state('step', what, typ, len(c.dims), any(c.pn))
    key = f'{what}:{typ}'

    def run(label, f):
        ctx.log(label)
        return must(ctx, key, label, f)
    if what in ('copy', 'extract', 'delete', 'retain'):
        kw, ix = chosen(rng, c)
        arg = {'copy': 'toCopy', 'extract': 'toExtract', 'delete': 'toDelete',
               'retain': 'toRetain'}[what]
        kw = {arg if k == 'to' else k: v for k, v in kw.items()}
        rest = [i for i in range(n) if i not in ix]
        label = f'points.{what}({kw})'
        res = run(label, lambda: getattr(obj.points, what)(useLog=False,
                                                           **kw))
        if what == 'delete':
            # deletion keeps the order of the others
            new = c.take(rest)
            readCube(ctx, obj, new, label, key)
            return new, obj
        if what == 'retain':
            new = c.take(ix)
            readCube(ctx, obj, new, label, key)
            return new, obj
        readCube(ctx, res, c.take(ix), label + ' returned', key)
        if what == 'extract':
            new = c.take(rest)
            readCube(ctx, obj, new, label + ' left', key)
            return new, obj
        readCube(ctx, obj, c, label + ' source', key, deep=False)
        return c, obj
    if what == 'extractfunc':
        # functions of points are only supported in two dimensions
        method = rng.choice(['extract', 'delete', 'retain', 'copy'])
        label = f'points.{method}(function)'
        ctx.log(label)
        before = freeze(obj)
        st, res = call(ctx, lambda: getattr(obj.points, method)(
            lambda p: True, useLog=False))
        if st == 'exc':
            ctx.event('refused')
            d = frozenDiff(before, freeze(obj))
            ctx.check(d is None, key + ':changed', lambda: f'{label}: {d}')
            return c, obj
        if method in ('extract', 'copy'):
            readCube(ctx, res, c, label + ' returned', key)
        if method in ('extract', 'delete'):
            c = c.take([])
        readCube(ctx, obj, c, label + ' left', key)
        return c, obj
    if what == 'permute':
        order = rng.sample(range(n), n)
        label = f'points.permute({order})'
        run(label, lambda: obj.points.permute(order, useLog=False))
        new = c.take(order)
        readCube(ctx, obj, new, label, key)
        return new, obj
    if what == 'sortnames':
        if not all(c.pn):
            return c, obj
        rev = rng.random() < .5
        label = f'points.sort(reverse={rev})'
        run(label, lambda: obj.points.sort(reverse=rev, useLog=False))
        new = c.take(sorted(range(n), key=lambda i: c.pn[i], reverse=rev))
        readCube(ctx, obj, new, label, key)
        return new, obj
    if what == 'sortfunc':
        k = rng.randrange(int(np.prod(c.tail)))

        def val(p):
            v = flatList(p)[k]
            return -100 if not isinstance(v, str) and v != v else v
        label = f'points.sort(by value {k})'
        run(label, lambda: obj.points.sort(
            by=lambda p: val(plainNested(p.copy('pythonlist'))),
            useLog=False))
        new = c.take(sorted(range(n), key=lambda i: val(c.pts[i])))
        readCube(ctx, obj, new, label, key)
        return new, obj
    if what in ('append', 'insert'):
        m = rng.randint(1, 2)
        pts = draw(rng, (m,) + c.tail, kind)
        used = {x for x in c.pn if x}
        pn = [f'n{rng.randrange(10**6)}' if any(c.pn) else None
              for _ in range(m)]
        if set(pn) & used:
            return c, obj
        other = Cube(pts, c.tail, pn)
        atyp = rng.choice(gen.TYPES if numeric else ['List', 'Matrix'])
        add = nimble.data(pts, pointNames=pn if any(pn) else None,
                          returnType=atyp, useLog=False,
                          treatAsMissing=[None, NAN])
        at = n if what == 'append' else rng.randrange(n)
        label = f'points.{what}({at}, {atyp} {other})'
        if what == 'append':
            run(label, lambda: obj.points.append(add, useLog=False))
        else:
            run(label, lambda: obj.points.insert(at, add, useLog=False))
        new = Cube(c.pts[:at] + pts + c.pts[at:], c.tail,
                   c.pn[:at] + pn + c.pn[at:])
        readCube(ctx, obj, new, label, key)
        readCube(ctx, add, other, label + ' argument', key, deep=False)
        return new, obj
    if what == 'repeat':
        k = rng.randint(1, 3)
        by = rng.random() < .5
        label = f'points.repeat({k}, {by})'
        res = run(label, lambda: obj.points.repeat(k, by, useLog=False))
        ix = ([i for i in range(n) for _ in range(k)] if by
              else list(range(n)) * k)
        new = c.take(ix)
        new.pn = model.names(res.points)
        readCube(ctx, res, new, label, key)
        if all(c.pn) and k > 1:
            cnt = {}
            for pos, i in enumerate(ix):
                cnt[i] = cnt.get(i, 0) + 1
                ctx.check(new.pn[pos] == f'{c.pn[i]}_{cnt[i]}',
                          key + ':names', lambda: f'{label}: {new.pn}')
        readCube(ctx, obj, c, label + ' source', key, deep=False)
        return c, obj
    if what == 'setNames':
        pn = gen.nameList(rng, n, 'r', gen.modes(rng))
        label = f'points.setNames({pn})'
        run(label, lambda: obj.points.setNames(
            pn if any(pn) else None, useLog=False))
        new = Cube(c.pts, c.tail, pn)
        readCube(ctx, obj, new, label, key)
        return new, obj
    if what in ('flatten', 'unflatten'):
        # to one row and back: element order is the nested one
        o = obj.copy()
        label = 'flatten()'
        run(label, lambda: o.flatten(useLog=False))
        vals = flatList(c.pts)
        d = model.diff(o, Table([vals]), checkNames=False) \
            or model.invariants(o)
        ctx.check(d is None, key + ':result', lambda: f'{label} of {c}: {d}')
        dims = c.dims
        if what == 'unflatten':
            dims = rng.choice(factors(len(vals), rng.choice([2, 3, 4])))
        arg = rng.choice([tuple, list])(dims)
        label = f'unflatten({arg})'
        run(label, lambda: o.unflatten(arg, useLog=False))
        nested = np.array(vals + [None], dtype=object)[:-1].reshape(
            dims).tolist()
        new = Cube(nested, dims[1:], model.names(o.points))
        if len(dims) > 2:
            ctx.check(not any(new.pn), key + ':names',
                      lambda: f'{label}: names {new.pn}')
            readCube(ctx, o, new, label, key)
        else:
            d = model.diff(o, Table(nested), checkNames=False) \
                or model.invariants(o)
            ctx.check(d is None, key + ':result', lambda: f'{label}: {d}')
        readCube(ctx, obj, c, label + ' source', key, deep=False)
        ctx.event('roundtrips')
        return c, obj
    if what == 'copyto':
        to = rng.choice(gen.TYPES if numeric else ['List', 'Matrix',
                                                   'DataFrame'])
        label = f'copy({to})'
        res = run(label, lambda: obj.copy(to))
        readCube(ctx, res, c, label, key + ':' + to)
        ctx.check(res.getTypeString() == to, key + ':type', lambda: label)
        same_ = obj == res
        ctx.check(bool(same_) == (to == typ), key + ':identical',
                  lambda: f'{label} == source is {same_}')
        ctx.check(obj.isApproximatelyEqual(res), key + ':approx',
                  lambda: f'{label} is not approximately equal')
        return c, obj
    if what == 'view':
        a = rng.randrange(n)
        b = rng.randrange(a, n)
        label = f'view({a}, {b})'
        v = run(label, lambda: obj.view(a, b))
        readCube(ctx, v, c.take(range(a, b + 1)), label, key)
        w = run(label + '.copy()', v.copy)
        readCube(ctx, w, c.take(range(a, b + 1)), label + '.copy()', key)
        readCube(ctx, obj, c, label + ' source', key, deep=False)
        return c, obj
    if what == 'replace':
        i = rng.randrange(n)
        pts = draw(rng, (1,) + c.tail, kind)
        other = nimble.data(pts, returnType=typ, useLog=False,
                            treatAsMissing=[None, NAN])
        label = f'points.replace({pts}, {i})'
        ctx.log(label)
        before = freeze(obj)
        st, res = call(ctx, lambda: obj.points.replace(other, [i],
                                                       useLog=False))
        if st == 'exc':
            ctx.event('refused')
            d = frozenDiff(before, freeze(obj))
            ctx.check(d is None, key + ':changed', lambda: f'{label}: {d}')
            return c, obj
        new = c.copy()
        new.pts[i] = pts[0]
        readCube(ctx, obj, new, label, key)
        return new, obj
    if what == 'split':
        frac = rng.choice([.3, .5, .75])
        label = f'trainAndTestSets({frac}, randomOrder=False)'
        res = run(label, lambda: obj.trainAndTestSets(
            frac, randomOrder=False, useLog=False))
        train, test = res
        k = len(test.points)
        new = [c.take(range(n - k)), c.take(range(n - k, n))]
        for part, want in zip((train, test), new):
            readCube(ctx, part, want, label, key)
        return c, obj
    raise AssertionError(what)


def refusals(ctx):
    """shape arguments that do not fit are refused, nothing changes; so are
    operations that only make sense in two dimensions"""
    rng = ctx.rng
    c, kind = makeCube(rng, rng.choice(['int', 'sparse']))
    typ = rng.choice(gen.TYPES)
    obj = ctx.nimble.data(c.pts, returnType=typ, useLog=False,
                          pointNames=c.pn if any(c.pn) else None)
    n = len(flatList(c.pts))
    flatObj = obj.copy()
    flatObj.flatten(useLog=False)
    bad = {
        'unflatten product': lambda: flatObj.unflatten((n + 1, 1)),
        'unflatten one dimension': lambda: flatObj.unflatten((n,)),
        'unflatten feature order': lambda: flatObj.unflatten(
            (1, 1, n), order='feature'),
        'unflatten order': lambda: flatObj.unflatten((n, 1), order='x'),
        'flatten feature order': lambda: obj.flatten(order='feature'),
        'transpose': lambda: obj.transpose(), 'T': lambda: obj.T,
        'unflatten cube': lambda: obj.unflatten((n, 1)),
        'getitem': lambda: obj[0, 0],
        'matmul': lambda: obj @ obj,
        'features.delete': lambda: obj.features.delete(0),
        'features.sort': lambda: obj.features.permute(),
        'transformElements': lambda: obj.transformElements(lambda v: v + 1),
        'points.transform': lambda: obj.points.transform(lambda p: p),
        'featureView': lambda: obj.featureView(0),
        'merge': lambda: obj.merge(obj),
        'list of dict': lambda: obj.copy('list of dict'),
        'scipy csr': lambda: obj.copy('scipy csr'),
        'append other dimensions': lambda: obj.points.append(
            ctx.nimble.data([draw(rng, c.tail + (2,), 'int')], useLog=False)),
        'ragged': lambda: ctx.nimble.data(
            [[[1, 2], [3, 4]], [[1, 2]]], useLog=False),
    }
    name = rng.choice(list(bad))
    label = f'{name} on {typ} {c}'
    ctx.log(label)
    before, fb = freeze(obj), freeze(flatObj)
    st, res = call(ctx, bad[name])
    ctx.state('refuse', name, typ, len(c.dims))
    key = f'refuse:{name}:{typ}'
    ctx.check(st == 'exc', key, lambda: f'{label} succeeded: {res!r}')
    d = frozenDiff(before, freeze(obj)) or frozenDiff(fb, freeze(flatObj))
    ctx.check(d is None, key + ':changed', lambda: f'{label}: object {d}')
    ctx.event('refused')


def ragged(ctx):
    """points of different dimensions, with or without the same number of
    values, are no object"""
    rng = ctx.rng
    nd = rng.choice([2, 2, 3])
    tail = [rng.randint(1, 4) for _ in range(nd)]
    other = list(tail)
    how = rng.choice(['order', 'order', 'split', 'length', 'depth', 'flat'])
    if how == 'order':
        rng.shuffle(other)
    elif how == 'split':
        other = list(rng.choice(factors(int(np.prod(tail)), nd)))
    elif how == 'length':
        other[rng.randrange(nd)] += 1
    elif how == 'depth':
        other.insert(rng.randint(0, nd), 1)
    else:
        other = [int(np.prod(tail))]
    if other == tail:
        raise Skip()
    n = rng.randint(2, 5)
    kind = rng.choice(['int', 'str'])
    pts = [draw(rng, tail, kind) for _ in range(n)]
    at = rng.randrange(n)
    pts[at] = draw(rng, other, kind)
    form = rng.choice(['lists', 'tuples', 'arrays', 'objects', 'dict'])
    typ = rng.choice([*gen.TYPES, None])
    pn = None
    if form == 'tuples':
        raw = tuple(tuple(p) for p in pts)
    elif form == 'arrays':
        raw = [np.array(p, dtype=object if kind == 'str' else None)
               for p in pts]
    elif form == 'objects':
        # vectors in a list are points of two dimensions
        if len(other) == 1 or 1 in tail or 1 in other:
            raise Skip()
        raw = [ctx.nimble.data(p, useLog=False) for p in pts]
    elif form == 'dict' and nd == 2 and len(other) == 2:
        raw, pn = {f'p{i}': p for i, p in enumerate(pts)}, True
    else:
        raw = pts
    label = f'{form} with {how} {other} at {at}, others {tail}: {raw!r}'
    ctx.log(label)
    st, res = call(ctx, lambda: ctx.nimble.data(
        raw, returnType=typ, useLog=False))
    ctx.state('ragged', form, how, typ, nd)
    ctx.check(st == 'exc', f'ragged:{form}:{how}', lambda:
              f'{label} succeeded: {res.dimensions} {res!r}')
    ctx.event('ragged')


KINDS = [('ragged', 1, ragged), ('flat', 3, flat), ('transpose', 2, transpose), ('cube', 5, cube),
         ('refusals', .6, refusals)]
