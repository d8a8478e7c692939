"""
A second pool of operations: only how to issue them, no reference model. Used
by the relational checks (representations agree, purity), where the oracle is
agreement between executions rather than a model.

Each generator (rng, table, nimble) returns (label, call) or None, where
call(obj, mk) issues the operation; mk(table) builds a data object argument
(in a representation and route picked by the check).
"""
import re

from vlib import gen, model, ops
from vlib.model import Table, NAN, isNan, isNumber, norm


class R:
    def __init__(self, label, call, mutates=False, dense=False):
        self.dense = dense
        self.label = label
        self.name = label.split('(')[0]
        self.call = call
        self.mutates = mutates


def fromOps(pool):
    """The catalogue of vlib.ops as rich operations."""
    def g(rng, t, nimble):
        op = ops.draw(rng, t, nimble, 'List', pool)
        if op is None:
            return None
        return R(op.label, lambda obj, mk: op.call(obj), op.mutates)
    return g


def numeric(t):
    return all(isNumber(v) for r in t.rows for v in r)


def arith(t):
    """numbers, no booleans: what numpy, scipy and pandas make of arithmetic
    on bool dtype (True - True, True ** False...) is not nimble's promise"""
    return all(isNumber(v) and not isinstance(v, bool)
               for r in t.rows for v in r)


def noBool(t):
    return not any(isinstance(v, bool) for r in t.rows for v in r)


def noMissing(t):
    return not any(isNan(v) for r in t.rows for v in r)


def columns(o):
    """Features by name, number names written one way ('100' and '100.0'):
    a picture that leaves out the order of generated features."""
    out = {}
    for name, col in zip(o.features.getNames(),
                         zip(*model.rawRows(o))):
        name = re.sub(r'(-?[0-9]+)\.0$', r'\1', str(name))
        out[name] = [v for v in col]
    return out


def exact(t):
    """no rounding errors, so that equality of values means something"""
    return all(isinstance(v, str) or isNan(v) or
               (abs(v) < 1e6 and float(v) * 1024 == int(v * 1024))
               for r in t.rows for v in r)


def plain(t):
    return ops.numericTable(t)


def _axis(rng):
    return rng.choice(['points', 'features'])


STATS = ['max', 'mean', 'median', 'min', 'uniqueCount', 'proportionMissing',
         'proportionZero', 'standardDeviation', 'mode', 'sum', 'variance',
         'medianAbsoluteDeviation', 'quartiles',
         'populationStandardDeviation']


def statAxis(rng, t, nimble):
    if not noBool(t):
        return None
    axis = _axis(rng)
    s = rng.choice(STATS)
    r = rng.random()
    if r < .5:
        return R(f'{axis}.{s}()', lambda o, mk: getattr(getattr(o, axis), s)())
    name = {'max': 'maximum', 'min': 'minimum'}.get(s, s)
    if name == 'populationStandardDeviation':
        name = 'populationStd'
    if name == 'quartiles':
        name = 'mean'
    return R(f'{axis}.statistics({name})',
             lambda o, mk: getattr(o, axis).statistics(name))


def statGroup(rng, t, nimble):
    if not noBool(t):
        return None
    if t.nf < 2:
        return None
    s = rng.choice([x for x in STATS if x not in ('mode', 'quartiles')])
    j = rng.randrange(t.nf)
    if any(isNan(v) for v in t.col(j)):
        return None
    by = ops.ident(rng, t.fn, j)
    return R(f'features.{s}(groupBy {by!r})',
             lambda o, mk: getattr(o.features, s)(groupByFeature=by))


def statWhole(rng, t, nimble):
    if not noBool(t):
        return None
    s = rng.choice([x for x in STATS if x not in (
        'standardDeviation', 'populationStandardDeviation')])
    return R(f'{s}()', lambda o, mk: getattr(o, s)())


def similarities(rng, t, nimble):
    if not noBool(t):
        return None
    axis = _axis(rng)
    s = rng.choice(['correlation', 'covariance', 'dot product',
                    'sample covariance', 'population covariance'])
    if s == 'dot product' and not noMissing(t):
        return None
    return R(f'{axis}.similarities({s})',
             lambda o, mk: getattr(o, axis).similarities(s))


def normalize(rng, t, nimble):
    if not noBool(t):
        return None
    f = rng.choice(['meanNormalize', 'meanStandardDeviationNormalize',
                    'range0to1Normalize', 'percentileNormalize'])
    func = getattr(nimble.calculate, f)
    fts, pos = ops.limit(rng, t.fn)
    r = rng.random()
    if r < .6:
        return R(f'features.normalize({f}, {fts})',
                 lambda o, mk: o.features.normalize(func, features=fts,
                                                    useLog=False), True)
    rows = [[v if isNan(v) or isinstance(v, str) else v + 1 for v in row]
            for row in t.rows]
    other = Table(rows, None, t.fn, t.nf)

    def call(o, mk):
        x = mk(other, True)
        o.features.normalize(func, x, features=fts, useLog=False)
        return x
    return R(f'features.normalize({f}, applyTo, {fts})', call, True)


def fill(rng, t, nimble):
    axis = _axis(rng)
    a = ops.axisTable(t, axis)
    pa, pp = ops.limit(rng, a.pn)
    lim = {axis: pa} if pa is not None else {}
    F = nimble.fill
    M = nimble.match
    vals = [v for r in t.rows for v in r]
    m = rng.choice([M.missing, M.zero, 'v0', 'list'])
    text = getattr(m, '__name__', str(m))
    if m == 'v0':
        m = rng.choice(vals)
        text = repr(m)
        if isNan(m):
            return None
    elif m == 'list':
        m = rng.sample(vals, min(2, len(vals)))
        text = repr(m)
        if any(isNan(v) for v in m) or len({type(v) for v in m}) > 1:
            return None
    w = rng.choice([0, 99, F.mean, F.median, F.mode, F.forwardFill,
                    F.backwardFill, F.interpolate])
    return R(f'{axis}.fillMatching({getattr(w, "__name__", w)}, {text}, '
             f'{lim})',
             lambda o, mk: getattr(o, axis).fillMatching(w, m, useLog=False,
                                                         **lim), True)


def group(rng, t, nimble):
    if t.nf < 2:
        return None
    j = rng.randrange(t.nf)
    if any(isNan(v) for v in t.col(j)):
        return None
    by = ops.ident(rng, t.fn, j)
    r = rng.random()
    if r < .3 and t.nf > 2:
        k = rng.choice([x for x in range(t.nf) if x != j])
        if any(isNan(v) for v in t.col(k)):
            return None
        by = [by, ops.ident(rng, t.fn, k)]
    kw = {}
    if r > .8:
        kw['countUniqueValueOnly'] = True
    return R(f'groupByFeature({by!r}, {kw})',
             lambda o, mk: o.groupByFeature(by, useLog=False, **kw))


SCAL = ['+', '-', '*', '/', '//', '%', '**']


def _op(a, o, b):
    import operator
    return {'+': operator.add, '-': operator.sub, '*': operator.mul,
            '/': operator.truediv, '//': operator.floordiv,
            '%': operator.mod, '**': operator.pow, '==': operator.eq,
            '!=': operator.ne, '<': operator.lt, '<=': operator.le,
            '>': operator.gt, '>=': operator.ge, '&': operator.and_,
            '|': operator.or_, '^': operator.xor,
            '@': operator.matmul}[o](a, b)


def scalarOp(rng, t, nimble):
    if not arith(t):
        return None
    o = rng.choice(SCAL + ['==', '!=', '<', '<=', '>', '>='])
    c = rng.choice([0, 1, 2, -1, .5, 3])
    refl = rng.random() < .4
    return R(f'scalar({"c " + o + " x" if refl else "x " + o + " c"}, {c})',
             lambda obj, mk: _op(c, o, obj) if refl else _op(obj, o, c))


def pairOp(rng, t, nimble):
    if not arith(t):
        return None
    o = rng.choice(SCAL + ['==', '!=', '<', '<=', '>', '>='])
    rows = [[rng.choice([v, 0, 1, 2.5, -1]) for v in r] for r in t.rows]
    other = Table(rows, t.pn if rng.random() < .6 else None,
                  t.fn if rng.random() < .6 else None, t.nf)
    inplace = rng.random() < .3 and o in SCAL

    def call(obj, mk):
        x = mk(other)
        if o in ('==', '!='):
            # these compare objects of one representation
            x = x.copy(obj.getTypeString())
        if inplace:
            import operator
            f = {'+': operator.iadd, '-': operator.isub, '*': operator.imul,
                 '/': operator.itruediv, '//': operator.ifloordiv,
                 '%': operator.imod, '**': operator.ipow}[o]
            return f(obj, x)
        return _op(obj, o, x)
    return R(f'pair(x {o}{"=" if inplace else ""} y)', call, inplace)


def unaryOp(rng, t, nimble):
    if not arith(t):
        return None
    o = rng.choice(['neg', 'pos', 'abs', 'invert'])
    import operator
    return R(f'unary({o})', lambda obj, mk: getattr(operator, {
        'neg': 'neg', 'pos': 'pos', 'abs': 'abs', 'invert': 'invert'}[o])(
            obj))


def logicOp(rng, t, nimble):
    if t.kind != 'bool' and not all(v in (0, 1) for r in t.rows for v in r
                                    if isNumber(v)):
        return None
    if not numeric(t):
        return None
    o = rng.choice(['&', '|', '^'])
    rows = [[rng.random() < .5 for v in r] for r in t.rows]
    other = Table(rows, None, None, t.nf)
    return R(f'logic({o})', lambda obj, mk: _op(obj, o, mk(other)))


def stretchOp(rng, t, nimble):
    if not arith(t):
        return None
    o = rng.choice(SCAL + ['&', '|', '^'][:0])
    axis = _axis(rng)
    i = rng.randrange(len(t.rows) if axis == 'points' else t.nf)
    vec = t.take([i]) if axis == 'points' else t.take(None, [i])
    left = rng.random() < .5

    def call(obj, mk):
        v = mk(vec)
        return _op(v.stretch, o, obj) if left else _op(obj, o, v.stretch)
    return R(f'stretch({axis} {o} {"left" if left else "right"})', call)


def matmulOp(rng, t, nimble):
    if not plain(t):
        return None
    other = t.T()
    return R('matmul()', lambda obj, mk: _op(obj, '@', mk(other)))


def powerOp(rng, t, nimble):
    if not plain(t) or t.np != t.nf:
        return None
    p = rng.choice([0, 1, 2, 3])
    return R(f'matrixPower({p})', lambda obj, mk: obj.matrixPower(p))


def inverseOp(rng, t, nimble):
    if not plain(t):
        return None
    pseudo = rng.random() < .5
    if not pseudo:
        import numpy as np
        if t.np != t.nf:
            return None
        d = np.linalg.det(np.array(t.rows, dtype=float))
        if 0 < abs(d) < 1e-6:
            return None
    return R(f'inverse({pseudo})', lambda obj, mk: obj.inverse(pseudo))


def flattenOp(rng, t, nimble):
    order = rng.choice(['point', 'feature'])

    def call(obj, mk):
        c = obj.copy()
        c.flatten(order=order, useLog=False)
        one = model.observe(c)
        c.unflatten(obj.dimensions, order=order, useLog=False)
        return [one.rows, one.pn, one.fn, c]
    return R(f'flatten({order})', call)


def splitTest(rng, t, nimble):
    frac = rng.choice([.2, .5, .34, 0, 1])
    lab = None
    if t.nf > 1 and rng.random() < .4:
        lab = ops.ident(rng, t.fn, rng.randrange(t.nf))
    rand = rng.random() < .6
    return R(f'trainAndTestSets({frac}, {lab}, {rand})',
             lambda o, mk: o.trainAndTestSets(frac, lab, randomOrder=rand,
                                              useLog=False))


def shuffle(rng, t, nimble):
    axis = _axis(rng)
    what = rng.choice(['permute', 'copy', 'extract', 'delete', 'retain'])
    if what == 'permute':
        return R(f'{axis}.permute(random)',
                 lambda o, mk: getattr(o, axis).permute(useLog=False), True)
    n = rng.randint(1, ops.axisTable(t, axis).np)
    kw = {} if what == 'copy' else {'useLog': False}
    return R(f'{axis}.{what}(random {n})',
             lambda o, mk: getattr(getattr(o, axis), what)(
                 number=n, randomize=True, **kw), what != 'copy')


def collapse(rng, t, nimble):
    if t.nf < 2:
        return None
    a = rng.randrange(t.nf)
    b = rng.randrange(a, t.nf)
    fts = [ops.ident(rng, t.fn, j) for j in range(a, b + 1)]
    if any(t.fn[j] is None for j in range(a, b + 1)):
        return None
    return R(f'points.splitByCollapsingFeatures({fts})',
             lambda o, mk: o.points.splitByCollapsingFeatures(
                 fts, 'cNames', 'cValues', useLog=False), True, dense=True)


def expand(rng, t, nimble):
    # build a long table from t and expand it again
    if t.nf < 2 or any(n is None for n in t.fn):
        return None
    keyCol = rng.randrange(t.nf)
    rows = []
    for i, r in enumerate(t.rows):
        for j in range(t.nf):
            if j != keyCol and rng.random() < .9:
                rows.append([i % 3 if rng.random() < .5 else i, 'k%d' % j,
                             r[j]])
    seen = set()
    keep = []
    for r in rows:
        if (r[0], r[1]) not in seen:
            seen.add((r[0], r[1]))
            keep.append(r)
    if not keep:
        return None
    asText = rng.random() < .5
    if not asText:
        keep = [[r[0], int(r[1][1:]) + 100, r[2]] for r in keep]
    long = Table(keep, None, ['id', 'nm', 'val'], 3)

    def call(o, mk):
        x = mk(long, True)
        x.points.combineByExpandingFeatures('nm', 'val', useLog=False)
        return columns(x)
    return R(f'points.combineByExpandingFeatures({long})', call)


def binary(rng, t, nimble):
    j = rng.randrange(t.nf)
    by = ops.ident(rng, t.fn, j)
    if t.nf < 2 or any(isNan(v) for v in t.col(j)):
        return None
    if rng.random() < .5:
        if not noBool(t):
            return None

        def call(o, mk):
            c = o.copy()
            names = c.replaceFeatureWithBinaryFeatures(by, useLog=False)
            return [len(names), columns(c)]
        return R(f'replaceFeatureWithBinaryFeatures({by!r})', call)
    return R(f'transformFeatureToIntegers({by!r})',
             lambda o, mk: o.transformFeatureToIntegers(by, useLog=False),
             True)


def parsing(rng, t, nimble):
    j = rng.randrange(t.nf)
    by = ops.ident(rng, t.fn, j)

    def rule(v):
        s = str(norm(v)) if isinstance(v, str) else '%g' % float(v)
        return [s[:1], s[1:] + '_']
    return R(f'features.splitByParsing({by!r})',
             lambda o, mk: o.features.splitByParsing(
                 by, rule, ['s0', 's1'], useLog=False), True)


def mergeOp(rng, t, nimble):
    mode = ['strict', 'union', 'intersection', 'left']
    pm, fm = rng.choice(mode), rng.choice(mode)
    if pm == 'strict' and fm == 'strict':
        pm = 'union'
    # a second table that overlaps on names
    pts = rng.sample(range(t.np), rng.randint(1, t.np))
    fts = rng.sample(range(t.nf), rng.randint(1, t.nf))
    b = t.take(pts, fts)
    extraP = rng.randint(0, 2)
    pn = list(b.pn)
    fn = list(b.fn)
    rows = [list(r) for r in b.rows]
    if rng.random() < .5:
        for k in range(extraP):
            rows.append(list(rng.choice(t.rows)[:1]) * b.nf)
            pn.append(None if all(n is None for n in t.pn) else f'xp{k}')
    if rng.random() < .5:
        for r in rows:
            r.append(rng.choice(rng.choice(t.rows)))
        fn.append(None if all(n is None for n in t.fn) else 'xf')
    other = Table(rows, pn, fn, len(fn))
    kw = {}
    if rng.random() < .4 and t.fn[fts[0]] is not None \
            and not any(isNan(r[fts[0]]) for r in t.rows):
        # how missing keys match is not documented
        kw['onFeature'] = t.fn[fts[0]]
    if rng.random() < .2:
        kw['force'] = True

    def call(o, mk):
        x = mk(other)
        o.merge(x, point=pm, feature=fm, useLog=False, **kw)
        return x
    return R(f'merge({pm}, {fm}, {kw}, {other})', call, True)


def identity(rng, t, nimble):
    rows = [list(r) for r in t.rows]
    if rng.random() < .6:
        i, j = rng.randrange(t.np), rng.randrange(t.nf)
        rows[i][j] = rng.choice(rng.choice(t.rows))
    other = Table(rows, t.pn, t.fn, t.nf)
    how = rng.choice(['isIdentical', 'isApproximatelyEqual', 'eq', 'hash',
                      'zero'])

    def call(o, mk):
        x = mk(other)
        if how == 'isIdentical':
            x = x.copy(o.getTypeString())
            return [bool(o.isIdentical(x)), bool(o.isIdentical(o.copy()))]
        if how == 'isApproximatelyEqual':
            return bool(o.isApproximatelyEqual(x))
        if how == 'hash':
            return o.hashCode()
        if how == 'zero':
            return bool(o.containsZero())
        return o == x.copy(o.getTypeString())
    return R(f'{how}()', call)


def features2(rng, t, nimble):
    """selection by function/query over a limited other axis"""
    axis = _axis(rng)
    a = ops.axisTable(t, axis)
    other = 'features' if axis == 'points' else 'points'
    arg, pos = ops.limit(rng, a.fn)
    if arg is None:
        return None
    what = rng.choice(['copy', 'extract', 'delete', 'retain', 'count'])
    j = rng.randrange(len(pos))
    v = rng.choice(a.col(pos[j]))
    if isNan(v):
        v = 1
    pred = ops.VecPred(j, '==', v)
    kw = {other: arg}
    if what not in ('copy', 'count'):
        kw['useLog'] = False
    return R(f'{axis}.{what}({pred}, {arg})',
             lambda o, mk: getattr(getattr(o, axis), what)(pred, **kw),
             what not in ('copy', 'count'))


def matchCount(rng, t, nimble):
    if not noBool(t):
        return None
    names = ['missing', 'nonMissing', 'numeric', 'nonNumeric', 'zero',
             'nonZero', 'positive', 'negative', 'infinity', 'boolean',
             'integer', 'floating', 'true', 'false']
    M = nimble.match
    n = rng.choice(names[:9])
    r = rng.random()
    if r < .4:
        return R(f'countElements({n})',
                 lambda o, mk: o.countElements(getattr(M, n)))
    axis = _axis(rng)
    q = rng.choice(['any', 'all']) + n[0].upper() + n[1:]
    if n == 'missing' or True:
        if not hasattr(M, q):
            return None
    if r < .7:
        return R(f'{axis}.count({q})',
                 lambda o, mk: getattr(o, axis).count(getattr(M, q)))
    return R(f'match.{q}()', lambda o, mk: bool(getattr(M, q)(o)))


def report(rng, t, nimble):
    if not noBool(t):
        return None
    return R('features.report()',
             lambda o, mk: o.features.report(useLog=False))


def text(rng, t, nimble):
    return R('len()', lambda o, mk: [len(o), bool(o), list(o.dimensions)])


def iterate(rng, t, nimble):
    return R('iter()', lambda o, mk: [
        [x.copy() for x in o.points], [x.copy() for x in o.features]])


def copyAs(rng, t, nimble):
    to = rng.choice(['pythonlist', 'numpyarray', 'listofdict', 'dictoflist',
                     'pandasdataframe', 'numpy matrix'])
    rap = rng.random() < .6

    def call(o, mk):
        if to in ('listofdict', 'dictoflist') and any(
                n is None for n in o.features.getNames()):
            o = o.copy()
            o.features.setNames([f'q{j}' for j in range(len(o.features))],
                                useLog=False)
        c = o.copy(to, rowsArePoints=rap)
        if to == 'pandasdataframe':
            return [list(map(list, c.values.tolist()))]
        if hasattr(c, 'tolist'):
            return c.tolist()
        return c
    return R(f'copy({to}, {rap})', call)


POOL = [(fromOps(ops.AXIS_OPS), 14), (fromOps(ops.ELEMENT_OPS), 10),
        (statAxis, 5), (statGroup, 2), (statWhole, 2), (similarities, 3),
        (normalize, 4), (fill, 6), (group, 2), (scalarOp, 4), (pairOp, 6),
        (unaryOp, 1), (logicOp, 1), (stretchOp, 3), (matmulOp, 1),
        (powerOp, 1), (inverseOp, 1), (flattenOp, 2), (splitTest, 2),
        (shuffle, 2), (collapse, 2), (expand, 2), (binary, 3), (parsing, 1),
        (mergeOp, 7), (identity, 4), (features2, 2), (matchCount, 3),
        (report, 1), (text, 1), (iterate, 1), (copyAs, 2)]


def draw(rng, t, nimble, tries=30):
    gens = [g for g, w in POOL]
    weights = [w for g, w in POOL]
    for _ in range(tries):
        op = rng.choices(gens, weights)[0](rng, t, nimble)
        if op is not None:
            return op
    return None


# -- comparable pictures of outcomes ---------------------------------------

def pic(x, depth=0):
    import numpy as np
    if x is None:
        return ('none',)
    if hasattr(x, 'points') and hasattr(x, 'getTypeString'):
        dims = tuple(x.dimensions)
        if len(dims) > 2:
            from checks.common import flatCopy
            rows = model.rawRows(flatCopy(x))
        else:
            rows = model.rawRows(x)
        return ('obj', dims, rows, list(x.points.getNames()),
                list(x.features.getNames()))
    if isinstance(x, str):
        return ('str', x)
    if isinstance(x, (bool, int, float, np.number, np.bool_)):
        return ('num', x)
    if isinstance(x, dict):
        return ('dict', sorted(([pic(k), pic(v)] for k, v in x.items()),
                               key=repr))
    if isinstance(x, (list, tuple)):
        return ('list', [pic(v) for v in x])
    if isinstance(x, np.ndarray):
        return ('list', [pic(v) for v in x.tolist()])
    return ('other', type(x).__name__, str(x))


def picDiff(a, b, tol=1e-7):
    """None, or what differs between two pictures."""
    if a[0] != b[0]:
        if {a[0], b[0]} <= {'num', 'none'}:
            # None and nan both stand for a missing value
            if all(p[0] == 'none' or isNan(p[1]) for p in (a, b)):
                return None
        return f'{a!r} vs {b!r}'
    k = a[0]
    if k == 'none':
        return None
    if k == 'str':
        return None if a == b else f'{a[1]!r} vs {b[1]!r}'
    if k == 'num':
        x, y = norm(a[1]), norm(b[1])
        if model.same(x, y, tol):
            return None
        return f'{x!r} vs {y!r}'
    if k == 'obj':
        if a[1] != b[1]:
            return f'dimensions {a[1]} vs {b[1]}'
        for i, (r, s) in enumerate(zip(a[2], b[2])):
            for j, (v, w) in enumerate(zip(r, s)):
                if not model.same(v, w, tol):
                    return f'element [{i}, {j}] {v!r} vs {w!r}'
        if len(a[2]) != len(b[2]):
            return f'{len(a[2])} vs {len(b[2])} rows'
        if a[3] != b[3]:
            return f'point names {a[3]} vs {b[3]}'
        if a[4] != b[4]:
            return f'feature names {a[4]} vs {b[4]}'
        return None
    if k == 'list':
        if len(a[1]) != len(b[1]):
            return f'{a!r} vs {b!r}'
        for x, y in zip(a[1], b[1]):
            d = picDiff(x, y, tol)
            if d:
                return d
        return None
    if k == 'dict':
        if len(a[1]) != len(b[1]):
            return f'{a!r} vs {b!r}'
        for (k1, v1), (k2, v2) in zip(a[1], b[1]):
            d = picDiff(k1, k2, tol) or picDiff(v1, v2, tol)
            if d:
                return d
        return None
    return None if a == b else f'{a!r} vs {b!r}'
