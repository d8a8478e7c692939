"""Pieces shared by the checks on data objects."""
import datetime

from vlib import gen, model, ops
from vlib.runner import Skip, where
from vlib.model import isNumber, isNan


def okForSparse(t):
    return all(isNumber(v) for r in t.rows for v in r)


def pickType(rng, t):
    types = gen.TYPES if okForSparse(t) else [x for x in gen.TYPES
                                              if x != 'Sparse']
    return rng.choice(types)


def typesFor(t):
    return gen.TYPES if okForSparse(t) else [x for x in gen.TYPES
                                             if x != 'Sparse']


def call(ctx, func, *args):
    """Issue one call to nimble: ('ok', result) or ('exc', exception). A
    failure that belongs to the installed scipy skips the case."""
    try:
        ctx.event('calls')
        return 'ok', func(*args)
    except Exception as e:  # pylint: disable=broad-except
        if ops.isEnvLimit(e):
            ctx.event('scipy_object_dtype_unsupported')
            raise Skip() from e
        return 'exc', e


def must(ctx, key, label, func, *args):
    """Issue a call the specification says succeeds."""
    st, res = call(ctx, func, *args)
    if st == 'exc':
        ctx.violation(f'{key}:raises-{type(res).__name__}',
                      f'{label} raised {type(res).__name__}: {res} '
                      f'(in {where(res)})')
    return res


# -- fingerprints ----------------------------------------------------------

def freeze(x):
    """An exact, comparable picture of any argument or nimble object."""
    import numpy as np
    import scipy.sparse as sp
    import pandas as pd
    if x is None or isinstance(x, (str, bytes)):
        return (type(x).__name__, x)
    if isinstance(x, (bool, int, float)):
        return ('num', 'nan' if x != x else x)
    if hasattr(x, 'points') and hasattr(x, 'getTypeString'):
        rows = model.rawRows(x) if len(x.dimensions) == 2 else \
            model.rawRows(flatCopy(x))
        return ('nimble', x.getTypeString(), tuple(x.dimensions),
                tuple(tuple(freeze(v) for v in r) for r in rows),
                tuple(x.points.getNames()), tuple(x.features.getNames()),
                x.name, x.absolutePath, x.relativePath)
    if isinstance(x, np.ndarray):
        return ('ndarray', str(x.dtype), x.shape,
                tuple(freeze(v) for v in x.ravel().tolist()))
    if sp.issparse(x):
        try:
            d = x.toarray()
        except ValueError:
            # a data type (object) scipy does not expand
            c = x.tocoo()
            d = [x.shape] + sorted(zip(c.row.tolist(), c.col.tolist(),
                                       map(repr, c.data.tolist())))
        return ('scipy', type(x).__name__, str(x.dtype), freeze(d))
    if isinstance(x, pd.DataFrame):
        return ('pandas', tuple(x.index), tuple(x.columns),
                tuple(str(d) for d in x.dtypes),
                tuple(tuple(freeze(v) for v in r)
                      for r in x.values.tolist()))
    if isinstance(x, pd.Series):
        return ('series', tuple(x.index), str(x.dtype),
                tuple(freeze(v) for v in x.tolist()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(freeze(v) for v in x))
    if isinstance(x, dict):
        return ('dict', tuple((freeze(k), freeze(v)) for k, v in x.items()))
    if isinstance(x, slice):
        return ('slice', freeze(x.start), freeze(x.stop), freeze(x.step))
    if isinstance(x, (np.datetime64, datetime.date, datetime.timedelta)):
        return (type(x).__name__, str(x))
    if isinstance(x, (np.generic,)):
        return (type(x).__name__, freeze(x.item()))
    return (type(x).__name__, id(x))


def flatCopy(x):
    """A 2D copy of a high dimension object (its stored form)."""
    c = x.copy()
    c._dims = [len(c.points), len(c.features)]
    return c


def frozenDiff(a, b):
    if a == b:
        return None
    if a[0] == 'nimble' and b[0] == 'nimble':
        for i, lab in enumerate(['', 'type', 'dimensions', 'data',
                                 'point names', 'feature names', 'name',
                                 'absolute path', 'relative path']):
            if a[i] != b[i]:
                return f'{lab} changed from {show(a[i])} to {show(b[i])}'
    return f'changed from {show(a)} to {show(b)}'


def show(f):
    s = repr(f)
    return s if len(s) < 600 else s[:600] + '...'


def scribble(obj, rng, deep=True):
    """Modify an object in place through many different paths: every value
    and name it holds ends up different, so anything sharing storage with it
    changes too."""
    P, F = obj.shape
    steps = []
    num = all(isNumber(v) for r in model.rawRows(obj) for v in r)

    def names():
        if P:
            obj.points.setNames([f'scr{i}' for i in range(P)], useLog=False)
        if F:
            obj.features.setNames([f'scf{i}' for i in range(F)],
                                  useLog=False)

    def assign():
        for i in range(P):
            for j in range(F):
                obj[i, j] = 77 if num else 'scribble'

    def zero():
        if num:
            obj[rng.randrange(P), rng.randrange(F)] = 0

    def rect():
        if num and P and F:
            obj.replaceRectangle(55, 0, 0, P - 1, F - 1, useLog=False)

    def elems():
        obj.transformElements(lambda v: 66 if num else 'scrib', useLog=False)

    def partial():
        obj.transformElements(lambda v: 67 if num else 'scrib', [P - 1],
                              [F - 1], useLog=False)

    def order():
        obj.points.permute(list(range(P))[::-1], useLog=False)
        obj.features.permute(list(range(F))[::-1], useLog=False)

    def axis():
        obj.points.transform(lambda p: [88 if num else 'scr'] * F,
                             useLog=False)

    def renameOne():
        if P:
            obj.points.setNames(f'uniq{rng.randrange(10**9)}', 0, useLog=False)
        if F:
            obj.features.setNames(f'uniqf{rng.randrange(10**9)}', F - 1,
                                  useLog=False)

    def cut():
        if len(obj.points) > 1:
            obj.points.delete(0, useLog=False)

    def turn():
        obj.transpose(useLog=False)
    pool = [renameOne, names]
    if P and F:
        pool += [assign, rect, elems, partial, order, axis, zero]
    rng.shuffle(pool)
    pool = pool[:rng.randint(2, len(pool))]
    pool += rng.sample([cut, turn], rng.randint(0, 2))
    done = []
    for s in pool:
        s()
        done.append(s.__name__)
    return '+'.join(done)
