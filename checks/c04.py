"""Purity and independence: operations that return a new object leave the
caller and every argument as they were, and what they return shares no
storage with either; in place operations leave their arguments alone."""
import copy

import numpy as np
import pandas as pd
import scipy.sparse

from vlib import gen, model, ops, rich
from vlib.model import isNumber
from vlib.runner import Skip
from checks.common import (call, freeze, frozenDiff, pickType, scribble,
                           typesFor)

PROPERTY = 'C04'
RULE = ('a case is one operation on a random object (type x construction '
        'route x operation), the caller, every argument and the result '
        'fingerprinted, then the result / caller / argument scribbled over '
        'in place and the others fingerprinted again')
QUICK = {'cases': 13000, 'seconds': 60}
THOROUGH = {'cases': 150000, 'seconds': 700}
MIN = {'purity': 4000, 'independence': 4000, 'raw': 500,
       'conversions': 1000}


def isView(x):
    return type(x).__name__.endswith('View')


def isData(x):
    return hasattr(x, 'points') and hasattr(x, 'getTypeString')


def pairs(nimble, rng, t, typ):
    """non-mutating binary operations, outside the catalogue"""
    if not ops.numericTable(t):
        raise Skip()
    other = gen.build(nimble, gen.Table(
        [[rng.choice([1, 2, 3.5]) for _ in r] for r in t.rows], None, None,
        t.nf), rng.choice(gen.TYPES), gen.anyRoute(rng), rng)
    opn = rng.choice(['__add__', '__sub__', '__mul__', '__truediv__',
                      '__floordiv__', '__mod__', '__lt__', '__eq__', '__ge__',
                      '__neg__', '__pos__', '__abs__', '__iadd__', '__imul__',
                      '__isub__', 'stretch', 'T', 'copyto', '__pow__',
                      'matmul', 'normalize', 'similar', 'stats'])
    return opn, other


def check(ctx, label, key, before, obj):
    d = frozenDiff(before, freeze(obj))
    ctx.check(d is None, key, lambda: f'{label}: {d}')


def opCase(ctx):
    rng = ctx.rng
    nimble = ctx.nimble
    t = gen.table(rng)
    typ = pickType(rng, t)
    op = ops.draw(rng, t, nimble, typ, CATALOG)
    if op is None:
        raise Skip()
    route = gen.anyRoute(rng, views=not op.mutates)
    obj = gen.build(nimble, t, typ, route, rng)
    if rng.random() < .5:
        obj.name = 'caller'
    ctx.log(f'{typ}/{route} {t}')
    ctx.log(op.label)
    key = f'{op.name}:{typ}'
    argBefore = [freeze(a) for a in op.args]
    before = freeze(obj)
    st, res = call(ctx, op.call, obj)
    if st == 'exc':
        raise Skip()     # C02 decides whether the call should work
    ctx.event('purity')
    ctx.state(op.name, typ, route, t.shapeKey())
    for a, b in zip(op.args, argBefore):
        check(ctx, f'{op.label} modified its argument', key + ':argument',
              b, a)
    if not op.mutates:
        check(ctx, f'{op.label} modified the caller', key + ':caller',
              before, obj)
    after(ctx, op.label, key, obj, res, op.args, isView(obj))


def after(ctx, label, key, obj, res, args, objIsView=False):
    """storage independence between caller, result and arguments"""
    rng = ctx.rng
    group = [('the caller', obj)]
    if isData(res) and res is not obj:
        group.append(('the result', res))
    for a in args:
        if isData(a):
            group.append(('an argument', a))
    writable = [g for g in group if not isView(g[1])]
    if len(group) < 2 or not writable:
        return
    rng.shuffle(writable)
    for lab, target in writable:
        if lab == 'the caller' and any(isView(g[1]) for g in group):
            continue     # a view follows its source
        if lab == 'an argument' and isView(res):
            continue
        others = [(l2, o, freeze(o)) for l2, o in group if o is not target]
        how = scribble(target, rng)
        ctx.event('independence')
        for l2, o, b in others:
            check(ctx, f'{label}, then {how} on {lab}, changed {l2}',
                  f'{key}:alias:{lab}->{l2}'.replace(' ', '_'), b, o)


def binary(ctx):
    rng = ctx.rng
    nimble = ctx.nimble
    t = gen.table(rng, rng.choice(gen.NUMERIC))
    typ = pickType(rng, t)
    opn, other = pairs(nimble, rng, t, typ)
    inplace = opn.startswith('__i')
    route = gen.anyRoute(rng, views=not inplace)
    obj = gen.build(nimble, t, typ, route, rng)
    ctx.log(f'{typ}/{route} {t}')
    ctx.log(opn)
    scalar = rng.random() < .3
    arg = 2 if scalar else other

    def run():
        if opn == 'stretch':
            return obj.stretch + other.pointView(0)
        if opn == 'T':
            return obj.T
        if opn == 'copyto':
            return obj.copy(to=rng.choice(gen.TYPES))
        if opn == 'matmul':
            return obj @ other.T
        if opn == 'similar':
            return obj.points.similarities('dot product')
        if opn == 'stats':
            return obj.features.statistics('mean')
        if opn == 'normalize':
            c = obj.copy()
            return c.features.normalize(
                nimble.calculate.meanNormalize, applyResultTo=other)
        if opn == '__pow__':
            return obj ** 2
        if opn in ('__neg__', '__pos__', '__abs__'):
            return getattr(obj, opn)()
        return getattr(obj, opn)(arg)
    before, oBefore = freeze(obj), freeze(other)
    if opn == 'normalize' and isView(other):
        raise Skip()
    st, res = call(ctx, run)
    key = f'binary-{opn}:{typ}'
    if st == 'exc':
        check(ctx, f'{opn} failed ({res}) and modified the caller',
              key + ':caller', before, obj)
        check(ctx, f'{opn} failed and modified its argument',
              key + ':argument', oBefore, other)
        return
    ctx.event('purity')
    ctx.state(opn, typ, route, other.getTypeString(), scalar, t.shapeKey())
    if opn != 'normalize':
        check(ctx, f'{opn} modified its argument', key + ':argument',
              oBefore, other)
    if inplace:
        ctx.check(res is obj, key + ':identity',
                  'in place operator did not return the caller')
    else:
        check(ctx, f'{opn} modified the caller', key + ':caller', before,
              obj)
    after(ctx, opn, key, obj, res, [other])


def rawForm(rng, t):
    """a python/numpy/pandas/scipy source holding the table"""
    num = all(isNumber(v) for r in t.rows for v in r)
    forms = ['list', 'array', 'frame']
    if num:
        forms += ['coo', 'csr', 'array', 'csc']
    if t.np == 1 or t.nf == 1:
        forms += ['vector', 'series']
    form = rng.choice(forms)
    if form == 'list':
        return form, [list(r) for r in t.rows]
    if form == 'array':
        return form, (np.array(t.rows) if num
                      else np.array(t.rows, dtype=object))
    if form == 'frame':
        return form, pd.DataFrame([list(r) for r in t.rows])
    if form == 'vector':
        return form, [v for r in t.rows for v in r]
    if form == 'series':
        return form, pd.Series([v for r in t.rows for v in r])
    a = np.array(t.rows, dtype=float)
    return form, {'coo': scipy.sparse.coo_matrix,
                  'csr': scipy.sparse.csr_matrix,
                  'csc': scipy.sparse.csc_matrix}[form](a)


def overwrite(raw):
    if isinstance(raw, list):
        for i, r in enumerate(raw):
            if isinstance(r, list):
                for j in range(len(r)):
                    r[j] = 1234
            else:
                raw[i] = 1234
    elif isinstance(raw, np.ndarray):
        raw[...] = 1234
    elif isinstance(raw, pd.DataFrame):
        raw.iloc[:, :] = 1234
    elif isinstance(raw, pd.Series):
        raw.iloc[:] = 1234
    else:
        raw.data[:] = 1234


def rawCase(ctx):
    """raw sources given to nimble.data and raw copies taken out of an object
    are independent of the object"""
    rng = ctx.rng
    nimble = ctx.nimble
    t = gen.table(rng)
    typ = pickType(rng, t)
    if rng.random() < .6:
        form, raw = rawForm(rng, t)
        kw = {}
        if rng.random() < .5 and form not in ('vector', 'series'):
            kw['pointNames'] = [f'p{i}' for i in range(t.np)]
            kw['featureNames'] = [f'f{i}' for i in range(t.nf)]
        else:
            kw['pointNames'] = kw['featureNames'] = False
        keep = copy.deepcopy(kw)
        if rng.random() < .3:
            kw['treatAsMissing'] = keep['treatAsMissing'] = ['red', 2]
            kw['replaceMissingWith'] = keep['replaceMissingWith'] = 99
        if rng.random() < .2:
            kw['convertToType'] = keep['convertToType'] = object
        ctx.log(f'{form} -> {typ} {t} {kw}')
        before = freeze(raw)
        st, obj = call(ctx, lambda: nimble.data(
            raw, returnType=typ, useLog=False, **kw))
        if st == 'exc':
            raise Skip()
        ctx.event('raw')
        ctx.state('data', form, typ, tuple(kw), t.shapeKey())
        key = f'data:{form}:{typ}'
        check(ctx, 'nimble.data modified its source', key + ':source',
              before, raw)
        ctx.check(freeze(keep) == freeze(kw), key + ':kwargs',
                  'nimble.data modified an argument')
        if rng.random() < .5:
            how = scribble(obj, rng)
            check(ctx, f'{how} on the object changed the source',
                  key + ':alias', before, raw)
            ctx.check(freeze(keep) == freeze(kw), key + ':kwargs-alias',
                      f'{how} on the object modified an argument')
        else:
            b = freeze(obj)
            overwrite(raw)
            if isinstance(kw.get('pointNames'), list):
                kw['pointNames'][0] = 'changed'
                kw['featureNames'].append('changed')
            check(ctx, 'overwriting the source changed the object',
                  key + ':alias', b, obj)
    else:
        route = gen.anyRoute(rng)
        obj = gen.build(nimble, t, typ, route, rng)
        forms = ['pythonlist', 'numpyarray', 'numpymatrix', 'pandasdataframe',
                 'listofdict', 'dictoflist']
        if ops.okNumeric(t):
            forms += ['scipycsr', 'scipycsc', 'scipycoo']
        to = rng.choice(forms)
        ctx.log(f'{typ}/{route} {t} -> {to}')
        before = freeze(obj)
        kw = {}
        if to not in ('pandasdataframe', 'listofdict', 'dictoflist'):
            kw['rowsArePoints'] = rng.random() < .7
        st, out = call(ctx, lambda: obj.copy(to=to, **kw))
        if st == 'exc':
            raise Skip()
        ctx.event('raw')
        ctx.state('copy', to, typ, route, tuple(kw.values()), t.shapeKey())
        key = f'copy-{to}:{typ}'
        check(ctx, f'copy(to={to}) modified the object', key + ':caller',
              before, obj)
        if not isView(obj) and rng.random() < .4:
            b = freeze(out)
            how = scribble(obj, rng)
            check(ctx, f'{how} changed an earlier copy(to={to})',
                  key + ':alias-out', b, out)
            return
        if to == 'listofdict':
            for d in out:
                for k in list(d):
                    d[k] = 'over'
        elif to == 'dictoflist':
            for k in out:
                out[k][:] = ['over'] * len(out[k])
        elif to == 'pandasdataframe':
            try:
                out.iloc[:, :] = 1234
            except (TypeError, ValueError):
                pass
            out.columns = [f'zz{i}' for i in range(out.shape[1])]
        else:
            overwrite(out)
        check(ctx, f'overwriting copy(to={to}) changed the object',
              key + ':alias', before, obj)


def namesCase(ctx):
    """names handed in and out are private copies"""
    rng = ctx.rng
    t = gen.table(rng, pmode='all', fmode='all')
    typ = pickType(rng, t)
    obj = gen.build(ctx.nimble, t, typ, gen.anyRoute(rng), rng)
    before = freeze(obj)
    for ax in (obj.points, obj.features):
        nm = ax.getNames()
        nm[0] = 'hijacked'
        nm.append('more')
        idx = ax.getIndices(ax.getNames())
        idx.append(3)
        if hasattr(obj, 'dimensions'):
            d = obj.dimensions
            if isinstance(d, list):
                d.append(3)
    ctx.event('raw')
    ctx.state('names', typ, t.shapeKey())
    check(ctx, 'modifying getNames() output changed the object',
          f'getNames:{typ}', before, obj)
    if isView(obj):
        return
    k = len(obj.points)
    arg = [f'w{i}' for i in range(k)]
    obj.points.setNames(arg, useLog=False)
    b = freeze(obj)
    arg[0] = 'hijacked'
    check(ctx, 'modifying the list given to setNames changed the object',
          f'setNames:{typ}', b, obj)
    # a dict of names is private too, in both directions
    k = len(obj.features)
    given = {f'v{i}': i for i in range(k)}
    keep = dict(given)
    obj.features.setNames(given, useLog=False)
    b = freeze(obj)
    obj.features.setNames('other', k - 1, useLog=False)
    ctx.check(given == keep, f'setNames-dict:{typ}:argument',
              f'renaming changed the dict given to setNames: {given}')
    obj.features.setNames(given, useLog=False)
    given['v77'] = given.pop(f'v{k - 1}')
    check(ctx, 'modifying the dict given to setNames changed the object',
          f'setNames-dict:{typ}', b, obj)
    ctx.check(not obj.features.hasName('v77'), f'setNames-dict:{typ}:lookup',
              'a name added to the dict given to setNames is found')


def richCase(ctx):
    """the wider pool of operations: statistics, merging, grouping,
    splitting, filling, normalizing, stretching..."""
    rng = ctx.rng
    nimble = ctx.nimble
    t = gen.table(rng)
    typ = pickType(rng, t)
    op = rich.draw(rng, t, nimble)
    if op is None:
        raise Skip()
    route = gen.anyRoute(rng, views=not op.mutates)
    obj = gen.build(nimble, t, typ, route, rng)
    made = []

    def mk(tab, mutable=False):
        x = gen.build(nimble, tab, pickType(rng, tab),
                      gen.anyRoute(rng, views=not mutable), rng)
        if not mutable:
            made.append((x, freeze(x)))
        return x
    ctx.log(f'{typ}/{route} {t}')
    ctx.log(op.label)
    before = freeze(obj)
    st, res = call(ctx, op.call, obj, mk)
    key = f'rich-{op.name}:{typ}'
    ctx.event('purity')
    ctx.state('rich', op.name, typ, route, st, t.shapeKey())
    for x, b in made:
        check(ctx, f'{op.label} modified its argument', key + ':argument',
              b, x)
    if not op.mutates:
        check(ctx, f'{op.label} modified the caller', key + ':caller',
              before, obj)
    if st == 'ok':
        after(ctx, op.label, key, obj, res,
              [x for x, b in made if x is not res],
              isView(obj))


def numberText(ctx):
    """operations that have to convert text or bool values to numbers do so
    on their own copy"""
    rng = ctx.rng
    nimble = ctx.nimble

    def table(P, F):
        kind = rng.choice(['text', 'text', 'bool', 'int', 'mix'])

        def v():
            x = rng.randint(1, 4)
            return {'text': str(x), 'bool': x > 2, 'int': x,
                    'mix': rng.choice([x, str(x)])}[kind]
        return [[v() for _ in range(F)] for _ in range(P)], kind
    P, F = rng.randint(1, 3), rng.randint(1, 3)

    def make(P, F):
        rows, kind = table(P, F)
        typ = rng.choice(['List', 'Matrix', 'DataFrame'])
        o = nimble.data(rows, returnType=typ, pointNames=False,
                        featureNames=False, convertToType=object
                        if kind in ('text', 'mix') else None, useLog=False)
        ctx.log(f'{typ} {rows}')
        return o, rng.random() < .3
    a, av = make(P, F)
    how = rng.choice(['matmul', 'rmatmul', 'stretch', 'stretch2', 'binary',
                      'plot', 'hdf', 'power', 'inverse', 'statistics',
                      'similarities', 'normalizeCopy', 'features.mean',
                      'neg', 'save', 'str', 'report'])
    o = rng.choice(['+', '-', '*', '/', '**', '//', '%'])
    if how in ('matmul', 'rmatmul'):
        b, bv = make(F, P)
    elif how == 'stretch':
        b, bv = make(*rng.choice([(1, F), (P, 1)]))
    elif how == 'stretch2':
        a, av = make(1, F)
        b, bv = make(P, 1)
    else:
        b, bv = make(P, F)
    full = [a, b]
    x = a.view() if av else a
    y = b.view() if bv else b
    before = [freeze(q) for q in full]

    def run():
        if how == 'matmul':
            return x @ y
        if how == 'rmatmul':
            return y.__rmatmul__(x)
        if how == 'stretch':
            return rich._op(x, o, y.stretch) if rng.random() < .5 else \
                rich._op(y.stretch, o, x)
        if how == 'stretch2':
            return rich._op(x.stretch, o, y.stretch)
        if how == 'binary':
            return rich._op(x, o, y)
        if how == 'plot':
            import matplotlib.pyplot as plt
            try:
                return x.plot(show=False, outPath='p.png') \
                    and None
            finally:
                plt.close('all')
        if how == 'hdf':
            return x.save('o.hdf5')
        if how == 'save':
            return x.save('o.csv')
        if how == 'power':
            return x.matrixPower(2)
        if how == 'inverse':
            return x.inverse(pseudoInverse=True)
        if how == 'statistics':
            return x.features.statistics('mean')
        if how == 'similarities':
            return x.points.similarities('dot product')
        if how == 'normalizeCopy':
            return x.copy().features.normalize(nimble.calculate.meanNormalize)
        if how == 'features.mean':
            return x.features.mean()
        if how == 'neg':
            return -x
        if how == 'report':
            return x.features.report(useLog=False)
        return str(x)
    ctx.log(f'{how} {o} views={av, bv}')
    st, res = call(ctx, run)
    ctx.event('conversions')
    ctx.state('numberText', how, o if how[:2] in ('st', 'bi') else '', av, bv,
              a.getTypeString(), b.getTypeString(), st)
    for q, f, n in zip(full, before, ('left', 'right')):
        check(ctx, f'{how} {o} changed its {n} operand',
              f'numberText-{how}:{n}:{q.getTypeString()}', f, q)


def highDim(ctx):
    """data of more than two dimensions: copies out are independent"""
    rng = ctx.rng
    nimble = ctx.nimble
    raw, dims = gen.cube(rng)
    typ = rng.choice(['List', 'Matrix', 'DataFrame'])
    keep = copy.deepcopy(raw)
    src = raw if rng.random() < .5 else np.array(raw)
    obj = nimble.data(src, returnType=typ, useLog=False)
    ctx.log(f'{typ} {dims} {raw}')
    ctx.event('raw')
    before = freeze(obj)

    def spoil(x, depth=0):
        if isinstance(x, np.ndarray):
            x[...] = 77
        elif isinstance(x, list):
            for i, v in enumerate(x):
                if isinstance(v, list):
                    spoil(v)
                else:
                    x[i] = 77
    spoil(src)
    check(ctx, 'overwriting the source changed the object',
          f'highDim-source:{typ}', before, obj)
    for to in rng.sample(['numpyarray', 'pythonlist', 'List', 'Matrix',
                          'DataFrame', 'point', 'copy'], 4):
        st, out = call(ctx, lambda: obj.points[0].copy('numpyarray')
                       if to == 'point' else obj.points.copy(0)
                       if to == 'copy' else obj.copy(to))
        if st == 'exc':
            continue
        ctx.state('high', typ, to, dims)
        if isData(out):
            out.flatten(useLog=False)
            out *= 3
        else:
            spoil(out)
        check(ctx, f'changing copy({to}) changed the object',
              f'highDim-copy-{to}:{typ}', before, obj)
        mine = obj.copy()
        st, out = call(ctx, lambda: mine.copy(to)
                       if to not in ('point', 'copy') else None)
        if st == 'exc' or out is None:
            continue
        b = freeze(out) if not isinstance(out, list) else copy.deepcopy(out)
        mine *= 2
        mine.flatten(useLog=False)
        now = freeze(out) if not isinstance(out, list) else out
        ctx.check(b == now, f'highDim-out-{to}:{typ}',
                  f'changing the object changed its earlier copy({to})')


CATALOG = ops.ALL_OPS
KINDS = [('op', 10, opCase), ('binary', 4, binary), ('raw', 4, rawCase),
         ('names', 1, namesCase), ('rich', 6, richCase),
         ('numberText', 3, numberText), ('highDim', 1, highDim)]
