"""
The reference model: a table is a list of rows of plain python values plus a
name (or None) per point and per feature. Nothing here calls nimble except
`observe`, which reads a nimble object through its public accessors.
"""
import datetime
import math

import numpy as np

NAN = float('nan')


def isNan(v):
    try:
        return v is None or v != v
    except Exception:  # pylint: disable=broad-except
        return False


def isNumber(v):
    return isinstance(v, (bool, int, float, np.number, np.bool_))


def norm(v):
    """Canonical form of an element: plain python, None/nan/NaT -> nan."""
    if v is None:
        return NAN
    if isinstance(v, np.generic):
        v = v.item() if not isinstance(v, np.datetime64) else v
    if v is None:
        return NAN
    try:
        if v != v:
            return NAN
    except Exception:  # pylint: disable=broad-except
        pass
    return v


def same(a, b, tol=1e-9):
    a = norm(a)
    b = norm(b)
    na, nb = isNan(a), isNan(b)
    if na or nb:
        return na and nb
    if isNumber(a) and isNumber(b):
        if a == b:
            return True
        if not tol:
            return False
        if isinstance(a, complex) or isinstance(b, complex):
            return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
        if math.isinf(a) or math.isinf(b):
            return False
        return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
    if isNumber(a) != isNumber(b):
        return False
    return a == b


def sameRows(x, y, tol=1e-9):
    return (len(x) == len(y)
            and all(len(p) == len(q) and all(same(a, b, tol)
                                             for a, b in zip(p, q))
                    for p, q in zip(x, y)))


def key(v):
    """Hashable identity of an element (nan equal to itself, 1 == 1.0)."""
    v = norm(v)
    if isNan(v):
        return ('nan',)
    if isNumber(v):
        return ('n', float(v) if not isinstance(v, complex) else v)
    return (type(v).__name__, v)


class Table:
    """rows, point names, feature names. Names are None when default."""

    def __init__(self, rows, pn=None, fn=None, nf=None):
        self.rows = [list(r) for r in rows]
        self.nf = nf if nf is not None else (
            len(rows[0]) if rows else (len(fn) if fn else 0))
        self.pn = list(pn) if pn is not None else [None] * len(self.rows)
        self.fn = list(fn) if fn is not None else [None] * self.nf
        assert len(self.pn) == len(self.rows), (self.pn, self.rows)
        assert len(self.fn) == self.nf
        assert all(len(r) == self.nf for r in self.rows)

    @property
    def np(self):
        return len(self.rows)

    @property
    def shape(self):
        return (len(self.rows), self.nf)

    def copy(self):
        return Table(self.rows, self.pn, self.fn, self.nf)

    def T(self):
        rows = [[r[j] for r in self.rows] for j in range(self.nf)]
        return Table(rows, self.fn, self.pn, len(self.rows))

    def take(self, pts=None, fts=None):
        pts = range(self.np) if pts is None else pts
        fts = range(self.nf) if fts is None else fts
        fts = list(fts)
        return Table([[self.rows[i][j] for j in fts] for i in pts],
                     [self.pn[i] for i in pts], [self.fn[j] for j in fts],
                     len(fts))

    def col(self, j):
        return [r[j] for r in self.rows]

    def __repr__(self):
        return f'Table({self.rows}, pn={self.pn}, fn={self.fn})'

    def shapeKey(self):
        return (self.shape, any(n is not None for n in self.pn),
                any(n is not None for n in self.fn))


def rawRows(obj):
    """The elements as plain python lists."""
    p, f = obj.shape
    if p == 0 or f == 0:
        return [[] for _ in range(p)]
    data = obj.copy('pythonlist')
    return [[norm(v) for v in row] for row in data]


def names(axis):
    ret = axis.getNames()
    return [None if n is None else n for n in ret]


def observe(obj):
    """Read a nimble object through its public interface. Works on the 2D
    (flattened) form of the object."""
    if len(obj.dimensions) > 2:
        rows = []
        shp = obj.shape
        for i in range(shp[0]):
            rows.append([norm(obj[i, j]) for j in range(shp[1])]
                        if False else None)
        raise ValueError('observe() is for two dimensional objects')
    return Table(rawRows(obj), names(obj.points), names(obj.features),
                 obj.shape[1])


def diff(obj, table, tol=1e-9, checkNames=True):
    """None if the nimble object is the table, else a description."""
    if tuple(obj.shape) != table.shape:
        return f'shape is {tuple(obj.shape)}, expected {table.shape}'
    if len(obj.points) != table.np or len(obj.features) != table.nf:
        return (f'axis lengths {len(obj.points)}, {len(obj.features)}, '
                f'expected {table.shape}')
    got = rawRows(obj)
    if len(got) != table.np and table.nf:
        return f'{len(got)} rows of data, expected {table.np}'
    for i, row in enumerate(got if table.nf else []):
        if len(row) != table.nf:
            return f'row {i} has {len(row)} values, expected {table.nf}'
        for j, v in enumerate(row):
            if not same(v, table.rows[i][j], tol):
                return (f'element [{i}, {j}] is {v!r}, expected '
                        f'{table.rows[i][j]!r}')
    if checkNames:
        pn = names(obj.points)
        if pn != table.pn:
            return f'point names are {pn}, expected {table.pn}'
        fn = names(obj.features)
        if fn != table.fn:
            return f'feature names are {fn}, expected {table.fn}'
    return None


def invariants(obj, deep=True):
    """Structural self-consistency of one object, through its public
    accessors. Returns None or a description of what disagrees."""
    shp = tuple(obj.shape)
    dims = tuple(obj.dimensions)
    if len(obj.points) != shp[0]:
        return f'len(points) {len(obj.points)} != shape {shp}'
    if len(obj.features) != shp[1]:
        return f'len(features) {len(obj.features)} != shape {shp}'
    if dims[0] != shp[0] or int(np.prod(dims[1:])) != shp[1]:
        return f'dimensions {dims} do not agree with shape {shp}'
    for label, axis in (('point', obj.points), ('feature', obj.features)):
        nms = axis.getNames()
        if len(nms) != len(axis):
            return f'{len(nms)} {label} names for {len(axis)} {label}s'
        real = [n for n in nms if n is not None]
        if len(set(real)) != len(real):
            return f'duplicate {label} names {nms}'
        for i, n in enumerate(nms):
            if axis.getName(i) != n:
                return (f'{label} getName({i}) is {axis.getName(i)!r} but '
                        f'getNames() has {n!r}')
            if n is not None:
                if not isinstance(n, str):
                    return f'{label} name {n!r} is not a string'
                if axis.getIndex(n) != i:
                    return (f'{label} getIndex({n!r}) is {axis.getIndex(n)}, '
                            f'name is at {i}')
                if not axis.hasName(n):
                    return f'{label} hasName({n!r}) is False'
        ghost = 'no such name#'
        if axis.hasName(ghost):
            return f'{label} hasName is True of an absent name'
    try:
        obj.checkInvariants(2)
    except AssertionError as e:
        import traceback
        return ('checkInvariants fails: '
                + traceback.format_tb(e.__traceback__)[-1].strip())
    if deep and len(dims) == 2 and shp[0] and shp[1]:
        rows = rawRows(obj)
        if len(rows) != shp[0] or any(len(r) != shp[1] for r in rows):
            return 'copied rows do not have the shape of the object'
        for i in range(shp[0]):
            for j in range(shp[1]):
                if not same(obj[i, j], rows[i][j]):
                    return (f'obj[{i}, {j}] is {obj[i, j]!r} but the data '
                            f'copied out has {rows[i][j]!r}')
    return None
