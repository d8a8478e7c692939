"""Creation from raw data and copying out: the values and names given are the
values and names held, in every raw form, orientation and type."""
import datetime

import numpy as np
import pandas as pd
import scipy.sparse as sp

from vlib import gen, model
from vlib.model import Table, NAN, isNumber, isNan, same, norm
from vlib.runner import where
from checks.common import (call, must, freeze, frozenDiff, okForSparse,
                           scribble)

PROPERTY = 'C10'
RULE = ('tables of every element kind (numbers, booleans, text, dates, '
        'missing, mixed, wide and tall and empty) written in 25 raw forms, '
        'with names embedded, passed as list, dict or iterator, refused or '
        'detected, in both orientations, with missing value treatments and '
        'type conversions, to every type; copied out to every raw form and '
        'created again; non-trivial: distinct (raw form, type, name '
        'sources, orientation, element kind)')
QUICK = {'cases': 16000, 'seconds': 90}
THOROUGH = {'cases': 150000, 'seconds': 800}
MIN = {'created': 5000, 'names_extracted': 1500, 'copied_out': 3000,
       'recreated': 2500, 'missing_replaced': 1500, 'raw_unchanged': 3500,
       'converted': 250, 'header_detected': 50}

DEFAULT = [NAN, None, '', 'None', 'nan', 'NULL', 'NA']


def isIn(v, missing):
    if isNan(v):
        return any(isNan(m) for m in missing)
    return any(not isNan(m) and type(m) is type(v) and m == v
               or isNumber(m) and isNumber(v) and m == v for m in missing)


def makeTable(rng):
    kind = rng.choice(['int', 'float', 'nan', 'bool', 'str', 'mixed',
                       'mixedcols', 'intsparse', 'date', 'text', 'boolcols'])
    p, f = rng.randint(1, 5), rng.randint(1, 5)
    # names identify every point: no two of them may be equal
    def val(j):
        if kind == 'date':
            return datetime.datetime(2020, rng.randint(1, 12),
                                     rng.randint(1, 28)) if j % 2 else \
                rng.randint(0, 5)
        if kind == 'text':
            return rng.choice(['a', 'b', '', 'None', 'nan', 'c d', '1', '0'])
        if kind == 'boolcols':
            return rng.choice([True, False]) if j % 2 else rng.randint(0, 3)
        return gen.value(rng, kind, j)
    rows = [[val(j) for j in range(f)] for _ in range(p)]
    if kind == 'mixed' and rng.random() < .5:
        gen.likeHeaders(rng, rows)
    if rng.random() < .3 and kind not in ('bool', 'boolcols', 'int',
                                          'intsparse', 'float'):
        rows[rng.randrange(p)][rng.randrange(f)] = rng.choice([None, NAN])
    t = Table(rows, gen.nameList(rng, p, 'p', 'all'),
              gen.nameList(rng, f, 'f', 'all'))
    t.kind = kind
    return t


NUMERIC = ('int', 'float', 'nan', 'intsparse')


def npDtype(t, rng):
    flat = [v for r in t.rows for v in r]
    if all(type(v) is bool for v in flat):
        return rng.choice([bool, object])
    if all(isNumber(v) and type(v) is not bool for v in flat):
        if all(type(v) is int for v in flat):
            return rng.choice([int, float, 'int32', 'float32', 'int8',
                               object])
        return rng.choice([float, object])
    if all(isinstance(v, str) for v in flat):
        return rng.choice(['U', object])
    return object


# forms: func(t, rng, nimble, pEmbed, fEmbed) -> (raw, allowed) where t is
# oriented (rows are what the raw form's rows are). Embedding says the names
# must be in the raw data. Returns None when it cannot carry what is asked.

def embed(t, rng, pe, fe):
    rows = [list(r) for r in t.rows]
    if pe:
        rows = [[n] + r for n, r in zip(t.pn, rows)]
    if fe:
        head = list(t.fn)
        if pe:
            head = [rng.choice(['ID', 'pointNames', 'x'])] + head
        rows = [head] + rows
    return rows


def fList(t, rng, nimble, pe, fe):
    rows = embed(t, rng, pe, fe)
    return rows


def fTupleOfLists(t, rng, nimble, pe, fe):
    return tuple(embed(t, rng, pe, fe))


def fListOfTuples(t, rng, nimble, pe, fe):
    if pe or fe:
        return None
    return [tuple(r) for r in t.rows]


def fListOfArrays(t, rng, nimble, pe, fe):
    if pe or fe:
        return None
    d = npDtype(t, rng)
    return [np.array(r, dtype=d) for r in t.rows]


def fGenerator(t, rng, nimble, pe, fe):
    rows = embed(t, rng, pe, fe)
    return iter(rows) if rng.random() < .5 else (r for r in rows)


def fListOfDicts(t, rng, nimble, pe, fe):
    if pe:
        return None
    ret = [dict(zip(t.fn, r)) for r in t.rows]
    for i in range(1, len(ret)):
        if rng.random() < .4:  # key order does not matter
            items = list(ret[i].items())
            rng.shuffle(items)
            ret[i] = dict(items)
    return ret


def fDictOfLists(t, rng, nimble, pe, fe):
    if fe:
        return None
    make = rng.choice([list, tuple, lambda r: np.array(r, dtype=object)])
    return {n: make(r) for n, r in zip(t.pn, t.rows)}


def fDictOfScalars(t, rng, nimble, pe, fe):
    if fe or t.nf != 1:
        return None
    return {n: r[0] for n, r in zip(t.pn, t.rows)}


def fDictOfDicts(t, rng, nimble, pe, fe):
    return {n: dict(zip(t.fn, r)) for n, r in zip(t.pn, t.rows)}


def fArray(t, rng, nimble, pe, fe):
    if pe or fe:
        a = np.array(embed(t, rng, pe, fe), dtype=object)
    else:
        a = np.array(t.rows, dtype=npDtype(t, rng))
    r = rng.random()
    if r < .2:
        return np.asfortranarray(a)
    if r < .35:
        return a[::1][:, :]
    return a


def fMatrix(t, rng, nimble, pe, fe):
    a = fArray(t, rng, nimble, pe, fe)
    return np.matrix(a)


def fFlatList(t, rng, nimble, pe, fe):
    if pe or fe or t.np != 1:
        return None
    r = list(t.rows[0])
    return rng.choice([list, tuple])(r)


def fFlatArray(t, rng, nimble, pe, fe):
    if pe or fe or t.np != 1:
        return None
    return np.array(t.rows[0], dtype=npDtype(t, rng))


def fScipy(t, rng, nimble, pe, fe):
    if pe or fe or t.kind not in NUMERIC:
        return None
    if not all(isNumber(v) for r in t.rows for v in r):
        return None
    a = np.array(t.rows, dtype=rng.choice(
        [float, int]) if t.kind in ('int', 'intsparse') else float)
    form = rng.choice(['csr', 'csc', 'coo', 'lil', 'dok', 'dup', 'zeros',
                       'shuffled'])
    if form in ('csr', 'csc', 'coo', 'lil', 'dok'):
        return getattr(sp, form + '_matrix')(a)
    r, c = np.nonzero(a)
    v = a[r, c]
    if form == 'dup' and len(v):
        # an entry stored in two parts is their sum
        k = rng.randrange(len(v))
        r = np.append(r, r[k])
        c = np.append(c, c[k])
        v = np.append(v, 1)
        v[k] -= 1
    elif form == 'zeros':
        z = [(i, j) for i in range(t.np) for j in range(t.nf)
             if a[i, j] == 0]
        if z:
            i, j = rng.choice(z)
            r, c, v = np.append(r, i), np.append(c, j), np.append(v, 0)
    elif form == 'shuffled' and len(v):
        o = np.array(rng.sample(range(len(v)), len(v)))
        r, c, v = r[o], c[o], v[o]
    return sp.coo_matrix((v, (r, c)), shape=a.shape)


def fFrame(t, rng, nimble, pe, fe):
    idx = t.pn if pe or rng.random() < .3 else None
    col = t.fn if fe or rng.random() < .3 else None
    df = pd.DataFrame([list(r) for r in t.rows], index=idx, columns=col)
    if t.kind in ('mixed', 'text', 'str', 'date'):
        df = df.astype(object)
        for i, r in enumerate(t.rows):
            for j, v in enumerate(r):
                df.iat[i, j] = v
    return df


def fSeries(t, rng, nimble, pe, fe):
    # a series is a point whose index holds the feature names
    if pe or fe or t.np != 1:
        return None
    return pd.Series(list(t.rows[0]), dtype=object if t.kind not in NUMERIC
                     else None)


def fPandasSparse(t, rng, nimble, pe, fe):
    if pe or fe or t.kind not in ('intsparse', 'float', 'int'):
        return None
    return pd.DataFrame.sparse.from_spmatrix(sp.csr_matrix(
        np.array(t.rows, dtype=float)))


def fNimble(t, rng, nimble, pe, fe):
    types = gen.TYPES if okForSparse(t) else ['List', 'Matrix', 'DataFrame']
    route = rng.choice(['direct', 'view', 'shuffled', 'transposed',
                        'appended'])
    u = t.copy()
    if not pe and rng.random() < .6:
        u.pn = [None] * t.np
    if not fe and rng.random() < .6:
        u.fn = [None] * t.nf
    return gen.build(nimble, u, rng.choice(types), route, rng)


def fListOfNimble(t, rng, nimble, pe, fe):
    types = gen.TYPES if okForSparse(t) else ['List', 'Matrix', 'DataFrame']
    out = []
    for i in range(t.np):
        u = t.take([i])
        if not pe:
            u.pn = [None]
        if not fe:
            u.fn = [None] * t.nf
        # points of one object, or separate objects
        out.append(gen.build(nimble, u, rng.choice(types),
                             rng.choice(['direct', 'view']), rng))
    return out


FORMS = {f.__name__[1:]: f for f in (
    fList, fList, fTupleOfLists, fListOfTuples, fListOfArrays, fGenerator,
    fListOfDicts, fDictOfLists, fDictOfScalars, fDictOfDicts, fArray,
    fMatrix, fFlatList, fFlatArray, fScipy, fFrame, fSeries, fPandasSparse,
    fNimble, fListOfNimble)}


def spoken(rng, names):
    """the names as an argument"""
    r = rng.random()
    if r < .4:
        return list(names)
    if r < .6:
        d = {n: i for i, n in enumerate(names)}
        items = list(d.items())
        rng.shuffle(items)
        return dict(items)
    if r < .75:
        return tuple(names)
    if r < .9:
        return iter(list(names))
    return np.array(names, dtype=object)


def hasKeys(form, axis):
    """raw forms which hold names in their keys"""
    return (axis == 'p' and form.startswith('Dict')) or (
        axis == 'f' and form in ('ListOfDicts', 'DictOfDicts'))


def create(ctx):
    rng = ctx.rng
    nimble = ctx.nimble
    t = makeTable(rng)
    rowsArePoints = rng.random() < .7
    form = rng.choice(list(FORMS))
    # t is in the orientation of the raw rows; r* are the raw axes
    modes = {}
    for axis in 'pf':
        modes[axis] = rng.choice(['embedded', 'spoken', 'none', 'false'])
        if hasKeys(form, axis):
            modes[axis] = rng.choice(['embedded', 'auto', 'false'])
    if form == 'Nimble':
        for axis in 'pf':
            if modes[axis] == 'embedded' and rng.random() < .5:
                modes[axis] = 'auto'
    pe = modes['p'] in ('embedded', 'auto')
    fe = modes['f'] in ('embedded', 'auto')
    raw = FORMS[form](t, rng, nimble, pe, fe)
    if raw is None:
        form = rng.choice(['List', 'Array', 'TupleOfLists'])
        for axis in 'pf':
            if modes[axis] == 'auto':
                modes[axis] = 'embedded'
        pe, fe = modes['p'] == 'embedded', modes['f'] == 'embedded'
        raw = FORMS[form](t, rng, nimble, pe, fe)
    if form == 'ListOfNimble' and t.nf == 1 and t.np > 1:
        pass
    args = {}
    for axis, names in (('p', t.pn), ('f', t.fn)):
        m = modes[axis]
        args[axis] = {'embedded': True, 'auto': 'automatic', 'none': None,
                      'false': False}.get(m) if m != 'spoken' else spoken(
                          rng, names)
    want = t.copy()
    if modes['p'] in ('none', 'false'):
        want.pn = [None] * t.np
    if modes['f'] in ('none', 'false'):
        want.fn = [None] * t.nf
    kw = {'pointNames': args['p'], 'featureNames': args['f']}
    if not rowsArePoints:
        want = want.T()
        kw = {'pointNames': args['f'], 'featureNames': args['p'],
              'rowsArePoints': False}
    # missing values
    m = rng.random()
    missing, repl = DEFAULT, NAN
    if m < .2:
        kw['treatAsMissing'] = missing = rng.choice([None, []]) or []
    elif m < .45:
        flat = [v for r in t.rows for v in r] + [-99, 'zz']
        pick = [rng.choice(flat) for _ in range(rng.randint(1, 3))]
        pick = [v for v in pick if not isinstance(v, (bool,
                                                      datetime.datetime))]
        if t.kind in ('bool', 'boolcols'):
            pick = ['zz']  # True == 1: which of them is meant is open
        if any(isNan(v) for v in pick):
            pick += [None, NAN]  # arrays may turn one into the other
        kw['treatAsMissing'] = missing = pick
    if rng.random() < .3:
        kw['replaceMissingWith'] = repl = rng.choice([0, -1, 2.5, 'Mis', None, 1000])
    n = 0
    for i, r in enumerate(want.rows):
        for j, v in enumerate(r):
            if isIn(v, missing):
                want.rows[i][j] = repl
                n += 1
    flat = [v for r in want.rows for v in r]
    types = ['List', 'Matrix', 'DataFrame', None]
    if all(isNumber(v) for v in flat) and okForSparse(t):
        types.append('Sparse')
    typ = rng.choice(types)
    if form in ('Scipy', 'PandasSparse') and not all(isNumber(v)
                                                     for v in flat):
        kw.pop('treatAsMissing', None)
        kw.pop('replaceMissingWith', None)
        want = t if rowsArePoints else t.T()
        want = want.copy()
        for axis in ('pn', 'fn'):
            arg = kw['pointNames' if axis == 'pn' else 'featureNames']
            setattr(want, axis, [None if arg is None or arg is False else x
                                 for x in getattr(want, axis)])
        n = 0
    if typ is None and form in ('Scipy', 'PandasSparse') and not all(
            isNumber(v) for r in want.rows for v in r):
        typ = 'List'
    copyData = rng.random() < .75
    kw['copyData'] = copyData
    if rng.random() < .2:
        kw['name'] = 'nm'
    shown = {k: v for k, v in kw.items()}
    label = f'nimble.data({form} of {t}, returnType={typ}, {shown})'
    ctx.log(label)
    ctx.state('create', form, typ, modes['p'], modes['f'], rowsArePoints,
              t.kind)
    once = form == 'Generator'
    before = None if once else freeze(raw)
    # feature shaped two dimensional rows with rowsArePoints False are
    # documented to be vectors, so nothing here is of higher dimension
    key = f'create:{form}:{typ}'
    obj = must(ctx, key, label,
               lambda: nimble.data(raw, returnType=typ, useLog=False, **kw))
    ctx.event('created')
    if pe or fe:
        ctx.event('names_extracted')
    if n:
        ctx.event('missing_replaced', n)
    d = model.diff(obj, want)
    ctx.check(d is None, key + ':result', lambda: f'{label}: {d}')
    d = model.invariants(obj)
    ctx.check(d is None, key + ':invariant', lambda: f'{label}: {d}')
    if typ is not None:
        ctx.check(obj.getTypeString() == typ, key + ':type',
                  lambda: f'{label} is a {obj.getTypeString()}')
    if 'name' in kw:
        ctx.check(obj.name == 'nm', key + ':name', lambda: label)
    # kinds of values: booleans, numbers and text stay what they are
    if form in ('List', 'TupleOfLists', 'ListOfDicts', 'DictOfLists') \
            and typ in ('List', 'DataFrame') and not n:
        got = obj.copy('pythonlist')
        for i, r in enumerate(got):
            for j, v in enumerate(r):
                w = want.rows[i][j]
                if isinstance(w, (str, bool, datetime.datetime)):
                    colTypes = {type(x) for x in want.col(j)}
                    if typ == 'DataFrame' and len(colTypes) > 1:
                        continue
                    ctx.check(isinstance(v, type(w)) or isinstance(
                        v, np.bool_), key + ':kind', lambda: f'{label}: [{i}, '
                        f'{j}] is {v!r} ({type(v).__name__}), given {w!r}')
    if not once:
        if copyData or form in ('Nimble', 'ListOfNimble'):
            d = frozenDiff(before, freeze(raw))
            ctx.check(d is None, key + ':raw', lambda: f'{label}: raw {d}')
            ctx.event('raw_unchanged')
        if copyData and rng.random() < .3:
            scribble(obj, rng)
            d = frozenDiff(before, freeze(raw))
            ctx.check(d is None, key + ':shared', lambda: f'{label}: '
                      f'modifying the object: raw {d}')


def detect(ctx):
    """'automatic' names of raw data: a first row of distinct strings above
    a row with numbers is the feature names; 'pointNames' in its corner says
    the first column is the point names; otherwise there are none"""
    rng = ctx.rng
    p, f = rng.randint(1, 4), rng.randint(1, 4)
    rows = [[rng.randint(0, 9) if rng.random() < .8 else rng.choice(
        ['a', 'bb']) for _ in range(f)] for _ in range(p)]
    head = rng.random() < .7
    corner = head and rng.random() < .5
    raw = [list(r) for r in rows]
    fn = [None] * f
    pn = [None] * p
    if corner:
        raw = [[f'p{i}'] + r for i, r in enumerate(raw)]
    if head:
        hd = gen.nameList(rng, f, 'f', 'all')
        if rng.random() < .15 and f > 1:
            hd[1] = rng.choice([3, 2.5])  # not text: no header
        raw = [(['pointNames'] if corner else []) + hd] + raw
    first = raw[0]
    second = raw[1] if len(raw) > 1 else None
    if second is None:
        isHead = False
        corner = False
    else:
        # the corner cell takes no part in deciding
        k = 1 if first[0] == 'pointNames' else 0
        isHead = (all(isinstance(x, str) for x in first[k:])
                  and len(set(first[1:])) == len(first[1:])
                  and len(set(first)) == len(first)
                  and any(isNumber(x) for x in second[k:]))
    if isHead:
        want = raw[1:]
        fn = first
        if first[0] == 'pointNames':
            pn = [r[0] for r in want]
            fn = fn[1:]
            want = [r[1:] for r in want]
        else:
            pn = [None] * len(want)
        ctx.event('header_detected')
    else:
        want = raw
        pn, fn = [None] * len(raw), [None] * len(first)
    if not isHead and first[0] != 'pointNames' and all(
            isinstance(x, str) for x in first) and second is not None and \
            any(isNumber(x) for x in second):
        return  # repeated names: which reading is right is open
    t = Table(want, pn, fn)
    flat = [v for r in want for v in r]
    typ = rng.choice(['List', 'Matrix', 'DataFrame', None] + (
        ['Sparse'] if all(isNumber(v) for v in flat) else []))
    form = rng.choice(['list', 'array', 'frame?'])
    src = raw if form != 'array' else np.array(raw, dtype=object)
    rap = rng.random() < .7
    if not rap:
        t = t.T()
    label = f'nimble.data({form} {raw}, returnType={typ}, rowsArePoints={rap})'
    ctx.log(label)
    ctx.state('detect', form, typ, isHead, corner, rap)
    key = f'detect:{form}:{typ}'
    obj = must(ctx, key, label, lambda: ctx.nimble.data(
        src, returnType=typ, rowsArePoints=rap, useLog=False))
    d = model.diff(obj, t) or model.invariants(obj)
    ctx.check(d is None, key, lambda: f'{label}: {d}')
    ctx.event('created')


def structured(ctx):
    """structured arrays, series, constants, empty data"""
    rng = ctx.rng
    nimble = ctx.nimble
    what = rng.choice(['ones', 'zeros', 'identity', 'structured', 'emptyArr',
                       'emptyList', 'series', 'emptyDict', 'framenames'])
    ctx.state(what)
    typ = rng.choice(gen.TYPES)
    key = f'{what}:{typ}'
    if what in ('ones', 'zeros'):
        p, f = rng.randint(0, 4), rng.randint(0, 4)
        if not p and not f:
            p = 1
        v = 1 if what == 'ones' else 0
        t = Table([[v] * f for _ in range(p)],
                  gen.nameList(rng, p, 'p', rng.choice(['none', 'all'])),
                  gen.nameList(rng, f, 'f', rng.choice(['none', 'all'])), f)
        kw = {}
        if any(t.pn):
            kw['pointNames'] = t.pn
        if any(t.fn):
            kw['featureNames'] = t.fn
        label = f'nimble.{what}({p}, {f}, {kw}, {typ})'
        ctx.log(label)
        obj = must(ctx, key, label, lambda: getattr(nimble, what)(
            p, f, returnType=typ, **kw))
    elif what == 'identity':
        n = rng.randint(1, 5)
        nm = gen.nameList(rng, n, 'f', 'all')
        t = Table([[int(i == j) for j in range(n)] for i in range(n)], None,
                  nm)
        label = f'nimble.identity({n}, {typ})'
        ctx.log(label)
        obj = must(ctx, key, label, lambda: nimble.identity(
            n, featureNames=nm, returnType=typ))
    elif what == 'structured':
        p, f = rng.randint(1, 4), rng.randint(1, 4)
        nm = gen.nameList(rng, f, 'f', 'all')
        rows = [tuple(rng.randint(0, 9) for _ in range(f)) for _ in range(p)]
        raw = np.array(rows, dtype=[(n, rng.choice([int, float]))
                                    for n in nm])
        t = Table(rows, None, nm)
        label = f'nimble.data({raw!r}, {typ})'
        ctx.log(label)
        before = freeze(raw)
        obj = must(ctx, key, label, lambda: nimble.data(
            raw, returnType=typ, featureNames=True, useLog=False))
        d = frozenDiff(before, freeze(raw))
        ctx.check(d is None, key + ':raw', lambda: f'{label}: {d}')
    elif what in ('emptyArr', 'emptyList', 'emptyDict'):
        p, f = rng.choice([(0, rng.randint(1, 3)), (rng.randint(1, 3), 0)])
        pn = gen.nameList(rng, p, 'p', rng.choice(['none', 'all']))
        fn = gen.nameList(rng, f, 'f', rng.choice(['none', 'all']))
        if what == 'emptyArr':
            raw = np.empty((p, f))
        elif p:
            raw = [[] for _ in range(p)]
        else:
            raw = rng.choice([sp.csr_matrix, pd.DataFrame, np.matrix])(
                np.empty((0, f)))
        t = Table([[] for _ in range(p)], pn, fn, f)
        kw = {}
        if any(pn):
            kw['pointNames'] = pn
        if any(fn):
            kw['featureNames'] = fn
        label = f'nimble.data({raw!r}, {kw}, {typ})'
        ctx.log(label)
        obj = must(ctx, key, label, lambda: nimble.data(
            raw, returnType=typ, useLog=False, **kw))
    elif what == 'series':
        f = rng.randint(1, 4)
        nm = gen.nameList(rng, f, 'f', 'all')
        vals = [rng.randint(0, 5) for _ in range(f)]
        t = Table([vals], None, [None] * f)
        label = f'nimble.data(Series {vals} index {nm}, {typ})'
        ctx.log(label)
        obj = must(ctx, key, label, lambda: nimble.data(
            pd.Series(vals, index=nm), returnType=typ, useLog=False))
    else:
        t = gen.table(rng, 'int', pmode='all', fmode='all')
        pe, fe = rng.random() < .5, rng.random() < .5
        df = pd.DataFrame(t.rows, index=t.pn, columns=t.fn)
        if not pe:
            t.pn = [None] * t.np
        if not fe:
            t.fn = [None] * t.nf
        label = f'nimble.data(frame {t}, {typ}, {pe}, {fe})'
        ctx.log(label)
        obj = must(ctx, key, label, lambda: nimble.data(
            df, pe, fe, returnType=typ, useLog=False))
    d = model.diff(obj, t) or model.invariants(obj)
    ctx.check(d is None, key, lambda: f'{label}: {d}')
    ctx.check(obj.getTypeString() == typ, key + ':type', lambda: label)
    ctx.event('created')


# -- copying out -------------------------------------------------------------

RAWTO = ['python list', 'numpy array', 'numpy matrix', 'scipy csr',
         'scipy csc', 'scipy coo', 'pandas dataframe', 'list of dict',
         'dict of list']


def spelled(rng, to):
    return rng.choice([to, to.upper(), to.replace(' ', ''), ' ' + to,
                       to.title(), to.replace(' ', '.')])


def copyOut(ctx):
    rng = ctx.rng
    nimble = ctx.nimble
    t = gen.table(rng, some=False)
    types = gen.TYPES if okForSparse(t) else ['List', 'Matrix', 'DataFrame']
    typ = rng.choice(types)
    route = gen.anyRoute(rng)
    obj = gen.build(nimble, t, typ, route, rng)
    rap = rng.random() < .65
    u = t if rap else t.T()
    numeric = all(isNumber(v) for r in t.rows for v in r)
    to = rng.choice(RAWTO + types)
    if to.startswith('scipy') and not numeric:
        to = 'python list'
    asked = to if to in gen.TYPES else spelled(rng, to)
    one = (t.np == 1 or t.nf == 1) and to in ('python list', 'numpy array') \
        and rng.random() < .5
    kw = {} if rap else {'rowsArePoints': False}
    if one:
        kw = {'outputAs1D': True}
        u = t
    label = f'{typ}/{route} {t}.copy({asked!r}, {kw})'
    ctx.log(label)
    ctx.state('copy', typ, route, to, rap, one, t.kind)
    before = freeze(obj)
    key = f'copy:{typ}:{to}'
    out = must(ctx, key, label, lambda: obj.copy(asked, **kw))
    ctx.event('copied_out')
    d = frozenDiff(before, freeze(obj))
    ctx.check(d is None, key + ':source', lambda: f'{label}: {d}')
    again = {}
    if one:
        got = list(out)
        wantFlat = [v for r in t.rows for v in r]
        ctx.check(model.sameRows([got], [wantFlat]), key + ':result',
                  lambda: f'{label} is {out!r}')
        ctx.check(isinstance(out, list if to == 'python list'
                             else np.ndarray), key + ':kind', lambda: label)
        again = None
    elif to in gen.TYPES:
        d = model.diff(out, u) or model.invariants(out)
        ctx.check(d is None, key + ':result', lambda: f'{label}: {d}')
        ctx.check(out.getTypeString() == to, key + ':kind', lambda: label)
        again = {'pointNames': True, 'featureNames': True}
    elif to == 'list of dict':
        ok = isinstance(out, list) and len(out) == u.np and all(
            isinstance(r, dict) and len(r) == u.nf for r in out)
        ctx.check(ok and (not any(u.fn) or all(
            list(r) == u.fn for r in out)), key + ':names',
            lambda: f'{label} is {out!r}')
        ctx.check(model.sameRows([list(r.values()) for r in out], u.rows),
                  key + ':result', lambda: f'{label} is {out!r}')
        again = {'featureNames': bool(any(u.fn))}
    elif to == 'dict of list':
        ok = isinstance(out, dict) and len(out) == u.nf
        ctx.check(ok and (not any(u.fn) or list(out) == u.fn),
                  key + ':names', lambda: f'{label} is {out!r}')
        ctx.check(model.sameRows([list(c) for c in out.values()],
                                 u.T().rows), key + ':result',
                  lambda: f'{label} is {out!r}')
        again = {'featureNames': bool(any(u.fn)), 'rowsArePoints': False}
    else:
        cls = {'python list': list, 'numpy array': np.ndarray,
               'numpy matrix': np.matrix, 'scipy csr': sp.csr_matrix,
               'scipy csc': sp.csc_matrix, 'scipy coo': sp.coo_matrix,
               'pandas dataframe': pd.DataFrame}[to]
        ctx.check(isinstance(out, cls) and (to != 'numpy array' or not
                                            isinstance(out, np.matrix)),
                  key + ':kind', lambda: f'{label} is {type(out)}')
        got = out
        if sp.issparse(out):
            coo = out.tocoo() if out.dtype != object else out
            got = np.zeros(out.shape, dtype=object)
            if out.dtype == object and out.format != 'coo':
                raise Skip() # scipy cannot convert these
            for i, j, v in zip(coo.row, coo.col, coo.data):
                got[i, j] += v
            ctx.check(out.shape == u.shape, key + ':shape', lambda: label)
        elif isinstance(out, pd.DataFrame):
            got = out.values
            if any(u.fn):
                ctx.check(list(out.columns) == u.fn, key + ':names',
                          lambda: f'{label}: columns {list(out.columns)}')
            if any(u.pn):
                ctx.check(list(out.index) == u.pn, key + ':names',
                          lambda: f'{label}: index {list(out.index)}')
        got = got.tolist() if not isinstance(got, list) else got
        ctx.check(model.sameRows(got, u.rows), key + ':result',
                  lambda: f'{label} is {out!r}')
        # every value keeps its kind where the format has kinds
        if to == 'python list':
            for i, r in enumerate(out):
                for j, v in enumerate(r):
                    ctx.check(not isinstance(v, np.ndarray), key + ':kind',
                              lambda: label)
        again = {}
        if isinstance(out, pd.DataFrame):
            again = {'pointNames': bool(any(u.pn)),
                     'featureNames': bool(any(u.fn))}
    if again is not None:
        w = u.copy()
        if not again.get('pointNames'):
            w.pn = [None] * u.np
            again['pointNames'] = False
        if not again.get('featureNames'):
            w.fn = [None] * u.nf
            again['featureNames'] = False
        typ2 = rng.choice(types)
        lab2 = f'{label} created again as {typ2} with {again}'
        back = must(ctx, key + ':again', lab2, lambda: nimble.data(
            out, returnType=typ2, treatAsMissing=[None, NAN], useLog=False,
            **again))
        if again.get('rowsArePoints') is False:
            pass
        d = model.diff(back, w)
        ctx.check(d is None, key + f':again:{typ2}', lambda: f'{lab2}: {d}')
        ctx.event('recreated')
        if typ2 == typ and to in gen.TYPES and rap:
            ctx.check(back == obj, key + ':identical', lambda: lab2)


# -- conversion of types -----------------------------------------------------

def convert(ctx):
    """convertToType gives every value of the feature that type"""
    rng = ctx.rng
    nimble = ctx.nimble
    p, f = rng.randint(1, 4), rng.randint(1, 4)
    kinds = [rng.choice(['int', 'digits', 'float', 'str', 'date'])
             for _ in range(f)]
    if rng.random() < .4:
        kinds = [kinds[0]] * f

    def val(k):
        if k == 'int':
            return rng.randint(-5, 20)
        if k == 'digits':
            return str(rng.randint(0, 30))
        if k == 'float':
            return rng.choice([1.5, 2.0, -3.25])
        if k == 'date':
            return f'2021-0{rng.randint(1, 9)}-1{rng.randint(0, 9)}'
        return rng.choice(['a', 'bc', 'd e'])
    rows = [[val(k) for k in kinds] for _ in range(p)]
    fn = gen.nameList(rng, f, 'f', 'all')
    options = {'int': [int, float, None], 'digits': [int, float, str, None],
               'float': [float, None, int], 'str': [str, None],
               'date': [datetime.datetime, None, str]}
    conv = [rng.choice(options[k]) for k in kinds]
    single = len(set(kinds)) == 1 and rng.random() < .5
    if single:
        conv = [conv[0]] * f
        arg = conv[0]
    elif rng.random() < .5:
        arg = list(conv)
    else:
        arg = {}
        for j, c in enumerate(conv):
            if c is not None:
                arg[fn[j] if rng.random() < .6 else j] = c
    form = rng.choice(['list', 'frame', 'array'])
    raw = rows
    if form == 'array':
        raw = np.array(rows, dtype=object)
    elif form == 'frame':
        raw = pd.DataFrame(rows)
    typ = rng.choice(['List', 'DataFrame', None])
    label = (f'nimble.data({form} {rows}, featureNames={fn}, returnType='
             f'{typ}, convertToType={arg})')
    ctx.log(label)
    ctx.state('convert', form, typ, single, type(arg).__name__,
              tuple(sorted(set(kinds))))
    key = f'convert:{form}:{typ}'
    before = freeze(raw)
    argBefore = dict(arg) if isinstance(arg, dict) else arg
    obj = must(ctx, key, label, lambda: nimble.data(
        raw, featureNames=fn, returnType=typ, convertToType=arg,
        useLog=False))
    ctx.check(arg == argBefore, key + ':argument',
              lambda: f'{label}: the argument became {arg}')
    d = frozenDiff(before, freeze(raw))
    ctx.check(d is None, key + ':raw', lambda: f'{label}: raw {d}')

    def conv1(v, c):
        if c is None:
            return v
        if c is datetime.datetime:
            return datetime.datetime.fromisoformat(v)
        return c(v)
    want = Table([[conv1(v, c) for v, c in zip(r, conv)] for r in rows],
                 None, fn)
    d = model.diff(obj, want)
    ctx.check(d is None, key + ':result', lambda: f'{label}: {d}')
    got = obj.copy('pythonlist')
    if obj.getTypeString() == 'Matrix':
        conv = []  # one kind for all values
    for j, c in enumerate(conv):
        ok = {int: (int, np.integer, float), float: (float, int, np.number),
              str: str, datetime.datetime: datetime.datetime}.get(c, object)
        for r in got:
            ctx.check(isinstance(r[j], ok), key + ':kind', lambda: f'{label}:'
                      f' {r[j]!r} is {type(r[j])}, asked for {c}')
    ctx.event('converted')


def refused(ctx):
    """raw data that cannot be a table, and names that do not fit, are
    refused and left as they were"""
    rng = ctx.rng
    nimble = ctx.nimble
    typ = rng.choice(gen.TYPES)
    rows = [[1, 2, 3], [4, 5, 6]]
    bad = {
        'ragged': ([[1, 2], [3]], {}),
        'ragged late': ([[1, 2], [3, 4], [5, 6, 7]], {}),
        'object element': ([[1, object()]], {}),
        'object late': ([[1, 2], [3, object()]], {}),
        'set element': ([[1, {2}]], {}),
        'few names': (rows, {'pointNames': ['a']}),
        'many names': (rows, {'featureNames': ['a', 'b', 'c', 'd']}),
        'twice names': (rows, {'featureNames': ['a', 'b', 'a']}),
        'dict names': (rows, {'featureNames': {'a': 0, 'b': 1}}),
        'keys differ': ([{'a': 1, 'b': 2}, {'a': 1, 'c': 3}], {}),
        'keys missing': ([{'a': 1, 'b': 2}, {'a': 1}], {}),
        'dict other names': ({'a': [1, 2], 'b': [3, 4]},
                             {'pointNames': ['a', 'c']}),
        'embedded twice': ([['a', 'a'], [1, 2]], {'featureNames': True}),
        'embedded points twice': ([['a', 1], ['a', 2]],
                                  {'pointNames': True}),
        'convert': ([['a', 1]], {'convertToType': int}),
        'convert list': (rows, {'convertToType': [int, float]}),
        'convert key': (rows, {'convertToType': {'zz': int}}),
        'copyData': (rows, {'copyData': 'x'}),
        'returnType': (rows, {'returnType': 'matrix'}),
        'number': (5, {}),
    }
    name = rng.choice(list(bad))
    raw, kw = bad[name]
    kw = dict(kw)
    kw.setdefault('returnType', typ)
    label = f'nimble.data({raw!r}, {kw})'
    ctx.log(label)
    ctx.state('refused', name, typ)
    before = freeze(raw)
    st, res = call(ctx, lambda: nimble.data(raw, useLog=False, **kw))
    ctx.check(st == 'exc', f'refuse:{name}:{typ}',
              lambda: f'{label} gave {res!r}')
    ctx.check(not isinstance(res, (AttributeError, UnboundLocalError,
                                   NameError)), f'refuse:{name}:{typ}:how',
              lambda: f'{label} raised {type(res).__name__}: {res}')
    d = frozenDiff(before, freeze(raw))
    ctx.check(d is None or isinstance(raw, int), f'refuse:{name}:{typ}:raw',
              lambda: f'{label}: raw {d}')
    ctx.event('refused')


KINDS = [('create', 6, create), ('detect', 1, detect),
         ('structured', 1, structured), ('copyOut', 4, copyOut),
         ('convert', 1, convert), ('refused', .5, refused)]
