"""Saving and loading: what a written file gives back, for every format."""
import datetime
import os

import numpy as np

from vlib import gen, model
from vlib.model import Table, NAN, isNumber, isNan, same
from vlib.runner import where
from checks.common import (call, must, freeze, frozenDiff, okForSparse,
                           typesFor)

PROPERTY = 'C11'
RULE = ('tables of every element kind with ordinary, odd (separators, '
        'quotes, unicode, comment characters, line breaks), partial or no '
        'names, held by every type through every construction history and '
        'as views, saved as csv, mtx, hdf5 and pickle with and without '
        'names, loaded from the path or an open file, to every type; '
        'objects of more than two dimensions as hdf5 and pickle; chains of '
        'saves; non-trivial: distinct (format, type, history, names, '
        'element kind, shape class)')
QUICK = {'cases': 12000, 'seconds': 90}
THOROUGH = {'cases': 90000, 'seconds': 800}
MIN = {'saved': 8000, 'loaded': 8000, 'round_trip_equal': 7000,
       'odd_text': 500, 'saved_views': 300, 'partial_names': 200,
       'high_dimension': 300, 'other_files_intact': 8000,
       'names_detected': 100}

DEFAULT = ['', 'None', 'nan', 'NULL', 'NA']
ODD = ['a,b', 'say "x"', '"q"', "it's", 'é', '漢字', ' lead', 'trail ', '#x',
       'a;b', 'tab\there', 'x,"y"', 'pct%', 'a|b', '1', 'nan?', 'True',
       'line\nbreak', 'gap\n\nhere', 'a:b', '%#', '\\', "'q'", '=1+1', '']
ODDNAMES = [o for o in ODD if o]


def pickType(rng, t):
    types = typesFor(t)
    if len({type(v) is bool for r in t.rows for v in r}) == 2:
        # this needs the object dtype, which the installed scipy lacks
        types = [x for x in types if x != 'Sparse']
    return rng.choice(types)


def makeTable(rng, numeric=False, odd=None):
    kind = rng.choice(['int', 'float', 'nan', 'intsparse'] if numeric else
                      ['int', 'float', 'nan', 'bool', 'str', 'mixed', 'odd',
                       'mixedcols', 'intsparse', 'date', 'precise'])
    p, f = rng.randint(1, 6), rng.randint(1, 5)
    if rng.random() < .1:
        p = rng.randint(9, 14)

    def val(j):
        if kind == 'odd':
            return rng.choice(ODD) if j % 2 == 0 else rng.choice([0, 1, 2.5])
        if kind == 'date':
            return datetime.datetime(2020, rng.randint(1, 12),
                                     rng.randint(1, 28),
                                     rng.choice([0, 13])) if j % 2 == 0 \
                else rng.randint(0, 5)
        if kind == 'precise':
            return rng.choice([1 / 3, 0.1, 1e-300, 1.7e308, 2 ** 52 + 1,
                               -5e-324, 123456789.125, 1e22, 0])
        if kind == 'bool' and j % 3 == 2:
            return rng.randint(0, 3)
        return gen.value(rng, kind, j)
    rows = [[val(j) for j in range(f)] for _ in range(p)]
    if kind == 'mixed' and rng.random() < .5:
        gen.likeHeaders(rng, rows)
    t = Table(rows, nameList(rng, p, 'p', odd), nameList(rng, f, 'f', odd), f)
    t.kind = kind
    return t


def nameList(rng, n, prefix, odd=None):
    mode = rng.choice(['none', 'all', 'all', 'odd', 'odd', 'some'])
    if odd is False and mode == 'odd':
        mode = 'all'
    if mode != 'odd':
        return gen.nameList(rng, n, prefix, mode)
    pool = list(ODDNAMES) + [f'{prefix}{i}' for i in range(n)]
    if rng.random() < .7:
        pool = [o for o in pool if '\n' not in o]
    return rng.sample(pool, n)


def hasNames(lst):
    return any(n is not None for n in lst)


def isMissingText(v):
    return v is None or isNan(v) or v in DEFAULT if not isinstance(
        v, np.ndarray) else False


def parse(text):
    try:
        return float(text)
    except ValueError:
        return None


def csvKeeps(v, loaded):
    """The value loaded is what the text of the value stands for."""
    if v is None or isNan(v):
        return isNan(loaded)
    if isinstance(v, str):
        if v in DEFAULT:
            return isNan(loaded)
        if loaded == v and isinstance(loaded, str):
            return True
        if v in ('True', 'False') and loaded in (True, False):
            return str(bool(loaded)) == v
        num = parse(v)
        return num is not None and isNumber(loaded) and \
            (loaded == num or isNan(num) and isNan(loaded))
    if isinstance(v, (bool, np.bool_)):
        return str(loaded) == str(v)
    if isNumber(v):
        if isinstance(loaded, str):
            num = parse(loaded)
            return num is not None and num == v
        return isNumber(loaded) and loaded == v
    import pandas as pd
    try:
        return pd.Timestamp(str(loaded)) == pd.Timestamp(v)
    except ValueError:
        return False


def describe(t, typ, route):
    return (f'{typ} ({route}) rows={t.rows!r} pointNames={t.pn!r} '
            f'featureNames={t.fn!r}')


def snapshot(folder):
    ret = {}
    for n in sorted(os.listdir(folder)):
        with open(os.path.join(folder, n), 'rb') as f:
            ret[n] = f.read()
    return ret


class Folder:
    """A scratch directory holding other files that must not change."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.path = os.path.join(os.getcwd(), 'files')
        os.makedirs(self.path, exist_ok=True)
        for n in os.listdir(self.path):
            os.remove(os.path.join(self.path, n))
        rng = ctx.rng
        for n in rng.sample(['a.csv', 'b', 'x.mtx', 'z.pickle', 'out.csv.bak',
                             'out', 'out.hdf5', 'keep.txt'], 3):
            with open(os.path.join(self.path, n), 'wb') as f:
                f.write(rng.choice([b'1,2\n3,4\n', b'', b'junk\x00']))

    def file(self, rng, name):
        """Path of the file to write; sometimes it exists already."""
        full = os.path.join(self.path, name)
        if rng.random() < .25:
            with open(full, 'wb') as f:
                f.write(b'9,9,9\n' * rng.randint(0, 40))
        return os.path.relpath(full) if rng.random() < .3 else full

    def check(self, before, key, written, label):
        after = snapshot(self.path)
        after.pop(written, None)
        before = dict(before)
        before.pop(written, None)
        self.ctx.check(after == before, f'{key}:other-files',
                       lambda: f'{label}: other files in the folder changed: '
                       f'{sorted(set(before) ^ set(after))}')
        self.ctx.event('other_files_intact')


def saveIt(ctx, folder, key, obj, path, label, **kw):
    before = snapshot(folder.path)
    frozen = freeze(obj)
    label = f'{label}.save({os.path.basename(path)!r}, {kw})'
    must(ctx, f'{key}:save', label, lambda: obj.save(path, **kw))
    ctx.event('saved')
    d = frozenDiff(frozen, freeze(obj))
    ctx.check(d is None, f'{key}:save-changes-object',
              lambda: f'{label}: the saved object: {d}')
    ctx.check(os.path.exists(path), f'{key}:no-file',
              lambda: f'{label} wrote no file')
    folder.check(before, key, os.path.basename(path), label)
    return label


def loadIt(ctx, key, path, label, binary, **kw):
    nimble = ctx.nimble
    rng = ctx.rng
    how = rng.choice(['path', 'path', 'path', 'file'])
    desc = f'{label}; nimble.data({how}, {kw})'
    with open(path, 'rb') as f:
        content = f.read()
    if how == 'path':
        ret = must(ctx, f'{key}:load', desc,
                   lambda: nimble.data(path, useLog=False, **kw))
        ctx.check(ret.absolutePath == os.path.abspath(path)
                  or key.startswith('pickle'), f'{key}:path', lambda: f'{desc}: absolutePath is '
                  f'{ret.absolutePath!r}')
    else:
        mode = 'rb' if binary or rng.random() < .5 else 'r'
        with open(path, mode, **({} if mode == 'rb' else
                                 {'encoding': 'utf-8'})) as f:
            ret = must(ctx, f'{key}:load-{how}', desc,
                       lambda: nimble.data(f, useLog=False, **kw))
    with open(path, 'rb') as f:
        ctx.check(f.read() == content, f'{key}:load-changes-file',
                  lambda: f'{desc} changed the file')
    ctx.event('loaded')
    problem = model.invariants(ret)
    ctx.check(problem is None, f'{key}:invariant',
              lambda: f'{desc}: {problem}')
    return ret, desc


def checkNames(ctx, key, got, want, axis, desc):
    ctx.check(got == want, f'{key}:{axis}-names',
              lambda: f'{desc}: {axis} names {got!r}, expected {want!r}')


def shapeClass(t):
    return ('one' if t.np == 1 else 'many', 'one' if t.nf == 1 else 'many')


def event(ctx, t):
    odd = [n for n in t.pn + t.fn + [v for r in t.rows for v in r]
           if isinstance(n, str) and n in ODD]
    if odd:
        ctx.event('odd_text')
    for lst in (t.pn, t.fn):
        if hasNames(lst) and None in lst:
            ctx.event('partial_names')


def csvCase(ctx):
    rng, nimble = ctx.rng, ctx.nimble
    t = makeTable(rng)
    typ = pickType(rng, t)
    route = gen.anyRoute(rng)
    obj = gen.build(nimble, t, typ, route, rng)
    folder = Folder(ctx)
    include = rng.random() < .75
    name = rng.choice(['out.csv', 'out.csv', 'out', 'OUT.CSV', 'my data.csv',
                       'out.txt', 'out.csv.gz', 'sub.v1.csv'])
    kw = {} if include and rng.random() < .5 else {'includeNames': include}
    if name not in ('out.csv', 'out', 'OUT.CSV', 'my data.csv',
                    'sub.v1.csv') or rng.random() < .2:
        kw['fileFormat'] = 'csv'
    path = folder.file(rng, name)
    event(ctx, t)
    if route == 'view':
        ctx.event('saved_views')
    ctx.log(f'csv {describe(t, typ, route)} {name} {kw}')
    key = f'csv-{typ}'
    label = saveIt(ctx, folder, key, obj, path, describe(t, typ, route), **kw)

    pHas = include and hasNames(t.pn)
    fHas = include and hasNames(t.fn)
    rows = model.rawRows(obj)
    if not (fHas and t.fn[-1] is not None) and \
            all(r[-1] == '' for r in rows):
        return  # "remove last feature if all values are ''"
    text = [n for n in (t.fn if fHas else rows[0])] + [t.pn[0]]
    plain = not any(isinstance(v, str) and not v.replace('.', '').replace(
        '_', '').isalnum()
                    or isinstance(v, datetime.datetime) or v is None
                    for v in text)
    load = {'pointNames': pHas, 'featureNames': fHas}
    if not plain or rng.random() < .4:
        load['inputSeparator'] = ','
    # the documented detection: text in the first line and not the second,
    # and the word pointNames written first
    detect = (plain and fHas and not (None in t.fn)
              and all(parse(n) is None for n in t.fn)
              and any(isNumber(v) and not isNan(v) and not
                      isinstance(v, (bool, np.bool_)) for v in rows[0])
              and len(t.fn) > 1 and rng.random() < .7)
    if detect:
        load.pop('pointNames')
        load.pop('featureNames')
        ctx.event('names_detected')
    # missing text is only seen when no name stands in for it
    toTypes = ['List', 'Matrix', 'DataFrame']
    if okForSparse(t) and t.kind != 'bool':
        toTypes.append('Sparse')
    to = rng.choice(toTypes + [None])
    if to is not None:
        load['returnType'] = to
    ret, desc = loadIt(ctx, key, path, label, False, **load)
    ctx.state('csv', typ, route == 'view', pHas, fHas, t.kind,
              shapeClass(t), detect)
    got = model.rawRows(ret)
    ctx.check((len(got), len(got[0]) if got else 0) == t.shape,
              f'{key}:shape', lambda: f'{desc}: loaded '
              f'{len(got)}x{len(got[0]) if got else 0}: {got!r}')
    for i, r in enumerate(rows):
        for j, v in enumerate(r):
            ctx.check(csvKeeps(v, got[i][j]), f'{key}:values',
                      lambda: f'{desc}: [{i}, {j}] was {v!r} and was loaded '
                      f'as {got[i][j]!r}')
    for j in range(t.nf):
        col = [r[j] for r in rows]
        if all((isNumber(v) and not isinstance(v, (bool, np.bool_)))
               or isMissingText(v) for v in col):
            ctx.check(all(isNumber(r[j]) for r in got), f'{key}:numbers',
                      lambda: f'{desc}: feature {j} holds only numbers and '
                      f'was loaded as {[r[j] for r in got]!r}')
    checkNames(ctx, key, model.names(ret.points),
               t.pn if pHas else [None] * t.np, 'point', desc)
    checkNames(ctx, key, model.names(ret.features),
               t.fn if fHas else [None] * t.nf, 'feature', desc)
    ctx.event('round_trip_equal')
    if rng.random() < .3:
        # a second generation has nothing left to lose
        label2 = saveIt(ctx, folder, key + '-again', ret, path, desc,
                        fileFormat='csv')
        load2 = dict(load, pointNames=pHas, featureNames=fHas)
        ret2, desc2 = loadIt(ctx, key + '-again', path, label2, False,
                             **load2)
        want = Table(got, model.names(ret.points), model.names(ret.features),
                     t.nf)
        got2 = Table(model.rawRows(ret2), model.names(ret2.points),
                     model.names(ret2.features), t.nf)
        ctx.check(want.rows == got2.rows or all(
            csvKeeps(a, b) for r, s in zip(want.rows, got2.rows)
            for a, b in zip(r, s)), f'{key}:again',
            lambda: f'{desc2}: {got2.rows!r}')
        ctx.check((want.pn, want.fn) == (got2.pn, got2.fn), f'{key}:again',
                  lambda: f'{desc2}: names {(got2.pn, got2.fn)!r}')


def mtxCase(ctx):
    rng, nimble = ctx.rng, ctx.nimble
    t = makeTable(rng, numeric=True)
    if rng.random() < .15:
        t.rows = [[rng.choice([True, False]) for _ in range(t.nf)]
                  for _ in range(t.np)]
        t.kind = 'bool'
    elif rng.random() < .15:
        t.rows = [[rng.choice([1 / 3, 1e-300, 0, 2 ** 52 + 1, 1e22])
                   for _ in range(t.nf)] for _ in range(t.np)]
        t.kind = 'precise'
    typ = pickType(rng, t)
    route = gen.anyRoute(rng)
    obj = gen.build(nimble, t, typ, route, rng)
    folder = Folder(ctx)
    include = rng.random() < .8
    name = rng.choice(['out.mtx', 'out.mtx', 'OUT.MTX', 'out', 'v.1.mtx'])
    kw = {} if include else {'includeNames': False}
    if name == 'out':
        kw['fileFormat'] = 'mtx'
    path = folder.file(rng, name)
    event(ctx, t)
    if route == 'view':
        ctx.event('saved_views')
    pHas = include and hasNames(t.pn)
    fHas = include and hasNames(t.fn)
    ctx.log(f'mtx {describe(t, typ, route)} {name} {kw}')
    key = f'mtx-{typ}'
    if any('\n' in n for n in (t.pn + t.fn if include else []) if n):
        # each name must be on one line of the file
        st, res = call(ctx, lambda: obj.save(path, **kw))
        ctx.check(st == 'exc', f'{key}:line-breaks', lambda: f'{typ} with '
                  f'pointNames={t.pn!r} featureNames={t.fn!r}: save({kw}) '
                  f'accepted names which the format cannot hold')
        ctx.event('refusals')
        return
    label = saveIt(ctx, folder, key, obj, path, describe(t, typ, route), **kw)
    load = {}
    to = rng.choice(gen.TYPES + [None])
    if to is not None:
        load['returnType'] = to
    ret, desc = loadIt(ctx, key, path, label, True, **load)
    ctx.state('mtx', typ, route == 'view', pHas, fHas, t.kind, shapeClass(t))
    rows = [[float(v) for v in r] for r in model.rawRows(obj)]
    want = Table(rows, t.pn if pHas else [None] * t.np,
                 t.fn if fHas else [None] * t.nf, t.nf)
    d = model.diff(ret, want, checkNames=False)
    ctx.check(d is None, f'{key}:values', lambda: f'{desc}: {d}')
    checkNames(ctx, key, model.names(ret.points), want.pn, 'point', desc)
    checkNames(ctx, key, model.names(ret.features), want.fn, 'feature', desc)
    ctx.event('round_trip_equal')


def hdfCase(ctx):
    """The points are datasets; their names are kept, feature names are
    not."""
    rng, nimble = ctx.rng, ctx.nimble
    folder = Folder(ctx)
    name = rng.choice(['out.hdf5', 'out.h5', 'OUT.H5', 'out'])
    include = rng.random() < .8
    kw = {} if include else {'includeNames': False}
    if name == 'out':
        kw['fileFormat'] = rng.choice(['hdf5', 'h5'])
    path = folder.file(rng, name)
    high = rng.random() < .5
    if high:
        nested, dims = gen.cube(rng)
        if rng.random() < .15:
            nested = [nested[0]] * rng.randint(9, 13)
            nested = [[[rng.randint(0, 5) for _ in range(dims[2])]
                       for _ in range(dims[1])] for _ in range(len(nested))]
            dims = (len(nested),) + tuple(dims[1:3])
        typ = rng.choice(gen.TYPES)
        pn = nameList(rng, dims[0], 'p')
        obj = nimble.data(nested, pointNames=pn if None not in pn else False,
                          returnType=typ, useLog=False)
        if None in pn:
            pn = [None] * dims[0]
        shown = f'{typ} {nested!r} pointNames={pn!r}'
        ctx.event('high_dimension')
        kind, route = 'cube', 'direct'
        if rng.random() < .2:
            k = rng.randrange(dims[0])
            obj = obj.view(pointStart=k)
            route = 'view'
            nested, dims, pn = nested[k:], tuple(obj.dimensions), pn[k:]
            if len(dims) == 2 or dims[0] != len(nested):
                return  # a view of one point is an object of that point
        want = np.array(nested, dtype=float)
    else:
        t = makeTable(rng, numeric=True)
        typ = pickType(rng, t)
        route = gen.anyRoute(rng)
        obj = gen.build(nimble, t, typ, route, rng)
        shown = describe(t, typ, route)
        pn, dims, kind = t.pn, t.shape, t.kind
        want = np.array(t.rows, dtype=float)
        event(ctx, t)
    if route == 'view':
        ctx.event('saved_views')
    ctx.log(f'hdf {shown} {name} {kw}')
    key = f'hdf-{"cube" if high else "table"}'
    label = saveIt(ctx, folder, key, obj, path, shown, **kw)
    load = {'returnType': rng.choice(gen.TYPES)}
    pHas = include and hasNames(pn)
    ret, desc = loadIt(ctx, key, path, label, True, **load)
    ctx.state('hdf', typ, route, pHas, kind, dims[0] > 10, len(dims))
    ctx.check(tuple(ret.dimensions) == tuple(dims), f'{key}:dimensions',
              lambda: f'{desc}: dimensions {tuple(ret.dimensions)}, expected '
              f'{tuple(dims)}')
    got = np.array(ret.copy('numpyarray'), dtype=float)
    ctx.check(got.shape == want.shape
              and np.array_equal(got, want, equal_nan=True),
              f'{key}:values', lambda: f'{desc}: {got.tolist()!r}')
    checkNames(ctx, key, model.names(ret.points),
               list(pn) if pHas else [None] * dims[0], 'point', desc)
    ctx.event('round_trip_equal')


def pickleCase(ctx):
    rng, nimble = ctx.rng, ctx.nimble
    folder = Folder(ctx)
    name = rng.choice(['out.pickle', 'out.p', 'out.pkl', 'OUT.PKL', 'out'])
    kw = {'includeNames': False} if rng.random() < .2 else {}
    if name == 'out':
        kw['fileFormat'] = rng.choice(['pickle', 'p', 'pkl'])
    path = folder.file(rng, name)
    if rng.random() < .3:
        nested, dims = gen.cube(rng)
        typ = rng.choice(gen.TYPES)
        pn = nameList(rng, dims[0], 'p')
        obj = nimble.data(nested, pointNames=pn if None not in pn else False,
                          returnType=typ, useLog=False,
                          name=rng.choice([None, 'cube']))
        route = 'direct'
        if rng.random() < .3:
            obj, route = obj.view(), 'view'
        shown, kind = f'{typ} {nested!r} {route}', 'cube'
        ctx.event('high_dimension')
    else:
        t = makeTable(rng)
        typ = pickType(rng, t)
        route = gen.anyRoute(rng)
        obj = gen.build(nimble, t, typ, route, rng)
        if rng.random() < .5:
            obj.name = rng.choice(['given', 'x_y', 'é'])
        shown, kind = describe(t, typ, route), t.kind
        event(ctx, t)
    if route == 'view':
        ctx.event('saved_views')
    ctx.log(f'pickle {shown} {name} {kw}')
    key = f'pickle-{typ}'
    label = saveIt(ctx, folder, key, obj, path, shown, **kw)
    frozen = freeze(obj)
    load = {}
    if kind == 'odd' and '' in [v for r in t.rows for v in r]:
        load['treatAsMissing'] = []
    ret, desc = loadIt(ctx, key, path, label, True, **load)
    ctx.state('pickle', typ, route, kind)
    got = freeze(ret)
    # the paths say where it was loaded from
    d = frozenDiff(frozen[:6], got[:6])
    ctx.check(d is None, f'{key}:equal', lambda: f'{desc}: {d}')
    ctx.check(obj.isIdentical(ret) or kind in ('mixed', 'mixedcols', 'nan'),
              f'{key}:identical', lambda: f'{desc}: not identical to the '
              f'saved object')
    # the loaded object is an object of its own: it can be modified
    try:
        ret.points.setNames([f'n{i}' for i in range(len(ret.points))],
                            useLog=False)
        if len(ret.points) > 1:
            ret.points.permute(list(range(len(ret.points)))[::-1],
                               useLog=False)
    except TypeError as e:
        ctx.check(route == 'view', f'{key}:usable', lambda: f'{desc}: '
                  f'modifying the loaded object raised {e}')
    d = frozenDiff(frozen, freeze(obj))
    ctx.check(d is None, f'{key}:shared', lambda: f'{desc}: modifying the '
              f'loaded object changed the saved one: {d}')
    ctx.event('round_trip_equal')


def refusedCase(ctx):
    """Objects a format cannot hold are refused, before any file is
    touched."""
    rng, nimble = ctx.rng, ctx.nimble
    folder = Folder(ctx)
    what = rng.choice(['format', 'empty', 'highcsv', 'highmtx'])
    kw = {}
    if what == 'format':
        t = makeTable(rng)
        obj = gen.build(nimble, t, pickType(rng, t), 'direct', rng)
        name = rng.choice(['out.xlsx', 'out.json', 'out.csv'])
        if name == 'out.csv':
            kw['fileFormat'] = rng.choice(['xls', 'CSVS', ''])
    elif what == 'empty':
        shape = rng.choice([(0, 3), (3, 0), (0, 0)])
        obj = nimble.data(np.empty(shape), returnType=rng.choice(gen.TYPES),
                          useLog=False)
        name = rng.choice(['out.csv', 'out.mtx', 'out.hdf5'])
    else:
        nested, _ = gen.cube(rng)
        obj = nimble.data(nested, returnType=rng.choice(gen.TYPES),
                          useLog=False)
        name = 'out.csv' if what == 'highcsv' else 'out.mtx'
    path = folder.file(rng, name)
    before = snapshot(folder.path)
    frozen = freeze(obj)
    ctx.log(f'refused {what} {name} {kw}')
    st, res = call(ctx, lambda: obj.save(path, **kw))
    ctx.check(st == 'exc', f'refused-{what}:accepted',
              lambda: f'{what}: save({name!r}, {kw}) was accepted')
    ctx.check(snapshot(folder.path) == before, f'refused-{what}:files',
              lambda: f'{what}: save({name!r}, {kw}) was refused and changed '
              f'the files')
    ctx.check(frozenDiff(frozen, freeze(obj)) is None,
              f'refused-{what}:object', lambda: f'{what}: the object changed')
    ctx.event('refusals')


KINDS = [('csv', 10, csvCase), ('mtx', 5, mtxCase), ('hdf', 5, hdfCase),
         ('pickle', 4, pickleCase), ('refused', 1, refusedCase)]
