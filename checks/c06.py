"""Failed calls are rejected with an exception and leave no trace."""
import operator

from vlib import gen, model, ops
from vlib.model import isNumber
from vlib.runner import Skip
from checks import failing
from checks.common import call, freeze, frozenDiff, pickType

PROPERTY = 'C06'
RULE = ('one rejected call (invalid identifier, shape, name, argument value '
        'or combination, unparsable query, or a user function that raises '
        'part way), or one modifying call with arguments drawn from valid, '
        'almost valid and hostile ones and functions that raise or misbehave '
        'from their k-th call, on a random object; whenever it raises, object '
        'and arguments are compared with their fingerprints from before')
QUICK = {'cases': 24000, 'seconds': 90}
THOROUGH = {'cases': 300000, 'seconds': 700}
MIN = {'rejected': 5000, 'callback_failures': 500, 'collisions': 150,
       'collisions_refused': 60, 'failed_calls': 4000, 'user_faults': 200,
       'cubes': 500}


class Boom(Exception):
    pass


class Fuse:
    """A user function which works a few times and then raises."""

    def __init__(self, n, func):
        self.left = n
        self.func = func
        self.blown = False

    def __call__(self, *args):
        if self.left <= 0:
            self.blown = True
            raise Boom('user function failed')
        self.left -= 1
        return self.func(*args)


def fuse1(n, func):
    f = Fuse(n, func)

    def call1(x):
        return f(x)
    call1.fuse = f
    return call1


def _axisInvalid(rng, nimble, t, axn, add, build):
    a = t if axn == 'points' else t.T()
    n, m = a.shape
    ax = lambda o, axn=axn: getattr(o, axn)
    bad = rng.choice([n, n + 3, -n - 1, 'no such', 'nope nope'])
    for what in ('extract', 'delete', 'retain', 'copy'):
        add(f'{axn}.{what}({bad!r})',
            lambda o, what=what: getattr(ax(o), what)(bad))
        lst = list(range(n)) + [bad]
        rng.shuffle(lst)
        add(f'{axn}.{what}({lst})',
            lambda o, what=what, lst=lst: getattr(ax(o), what)(lst), lst)
        add(f'{axn}.{what}(dup)',
            lambda o, what=what: getattr(ax(o), what)([0, 0]))
        add(f'{axn}.{what}(number={n + 1})',
            lambda o, what=what: getattr(ax(o), what)(number=n + 1))
        add(f'{axn}.{what}(start>end)',
            lambda o, what=what: getattr(ax(o), what)(
                start=n - 1, end=n + 1))
        if n > 1:
            add(f'{axn}.{what}(start 1 end 0)',
                lambda o, what=what: getattr(ax(o), what)(
                    start=1, end=0))
        add(f'{axn}.{what}(target+start)',
            lambda o, what=what: getattr(ax(o), what)(0, start=0))
        add(f'{axn}.{what}(query of absent name)',
            lambda o, what=what: getattr(ax(o), what)('absentQ == 1'))
        add(f'{axn}.{what}(no arguments)',
            lambda o, what=what: getattr(ax(o), what)())
    add(f'{axn}.sort({bad!r})', lambda o: ax(o).sort(
        by=m + 2 if isinstance(bad, int) else bad))
    add(f'{axn}.permute(short)', lambda o: ax(o).permute(
        list(range(n - 1))) if n > 1 else ax(o).permute([0, 0]))
    add(f'{axn}.permute(dup)', lambda o: ax(o).permute([0] * (n + 1)))
    add(f'{axn}.permute(bad)', lambda o: ax(o).permute(
        list(range(n - 1)) + [bad]))
    rows = [list(rng.choice(a.rows)) + [1] for _ in range(2)]
    wide = gen.Table(rows, None, None, m + 1)
    wide = build(wide if axn == 'points' else wide.T())
    add(f'{axn}.append(wrong width)', lambda o, wide=wide:
        ax(o).append(wide), wide)
    add(f'{axn}.insert(wrong width)', lambda o, wide=wide:
        ax(o).insert(0, wide), wide)
    one = gen.Table([list(rng.choice(a.rows))], None, None, m)
    oneO = build(one if axn == 'points' else one.T())
    add(f'{axn}.insert({bad!r})', lambda o, oneO=oneO: ax(o).insert(
        n + 2 if isinstance(bad, int) else bad, oneO), oneO)
    add(f'{axn}.insert(None)', lambda o, oneO=oneO: ax(o).insert(
        None, oneO), oneO)
    add(f'{axn}.append(raw)', lambda o: ax(o).append([[1] * m]))
    if any(x is not None for x in a.pn):
        nm = rng.choice([x for x in a.pn if x is not None])
        dup = gen.Table(one.rows, [nm], None, m)
        dupO = build(dup if axn == 'points' else dup.T())
        add(f'{axn}.append(existing name)', lambda o, dupO=dupO:
            ax(o).append(dupO), dupO)
        add(f'{axn}.insert(existing name)', lambda o, dupO=dupO:
            ax(o).insert(0, dupO), dupO)
    if all(x is not None for x in a.fn) and m:
        mis = gen.Table(one.rows, None,
                        ['other'] + list(a.fn[1:]), m)
        misO = build(mis if axn == 'points' else mis.T())
        add(f'{axn}.append(other names)', lambda o, misO=misO:
            ax(o).append(misO), misO)
    add(f'{axn}.transform(limit)', lambda o: ax(o).transform(
        lambda v: [x for x in v], [0, bad]))
    add(f'{axn}.transform(wrong length)', lambda o: ax(o).transform(
        lambda v: [x for x in v] + [1]))
    add(f'{axn}.transform(None)', lambda o: ax(o).transform(None))
    add(f'{axn}.calculate(None)', lambda o: ax(o).calculate(None))
    add(f'{axn}.calculate(limit)', lambda o: ax(o).calculate(
        lambda v: 1, [bad]))
    add(f'{axn}.setNames(short)', lambda o: ax(o).setNames(
        ['q'] * (n + 1) if n == 1 else ['q']))
    if n > 1:
        dn = ['q'] * n
        add(f'{axn}.setNames(dup)', lambda o, dn=dn:
            ax(o).setNames(dn), dn)
        dd = {f'q{i}': i for i in range(n)}
        dd['q0'] = n
        add(f'{axn}.setNames(bad dict)', lambda o, dd=dd:
            ax(o).setNames(dd), dd)
        add(f'{axn}.setNames(dup old)', lambda o:
            ax(o).setNames(['q', 'q2'], [0, 0]))
        add(f'{axn}.setNames(dup new)', lambda o:
            ax(o).setNames(['q', 'q'], [0, 1]))
    add(f'{axn}.setNames(number)', lambda o: ax(o).setNames(
        [1.5] * n))
    add(f'{axn}.setNames(old bad)', lambda o: ax(o).setNames(
        'q', bad))
    if n > 1 and all(x is not None for x in a.pn):
        add(f'{axn}.setNames(taken)', lambda o, x=a.pn[1]:
            ax(o).setNames(x, 0))
    add(f'{axn}.repeat(0)', lambda o: ax(o).repeat(0, True))
    add(f'{axn}.repeat(1.5)', lambda o: ax(o).repeat(1.5, True))
    add(f'{axn}.fillMatching(limit)', lambda o: ax(o).fillMatching(
        1, 0, [bad]))
    add(f'{axn}.replace(wrong width)', lambda o, wide=wide:
        ax(o).replace(wide, [0, min(1, n - 1)] if n > 1 else 0), wide)
    add(f'{axn}.replace({bad!r})', lambda o, oneO=oneO: ax(o).replace(
        oneO, [bad]), oneO)
    add(f'{axn}.getIndex({bad!r})', lambda o: ax(o).getIndex(bad))
    add(f'{axn}[{bad!r}]', lambda o: ax(o)[bad])
    add(f'{axn}.count(bad query)', lambda o: ax(o).count('a b c'))
    add(f'{axn}.mapReduce-unhashable' if axn == 'points' else
        f'{axn}.normalize(bad)',
        (lambda o: o.points.mapReduce(lambda v: [([], 1)],
                                      lambda i, v: (1, 2)))
        if axn == 'points' else
        (lambda o: o.features.normalize('no such')))


def invalid(rng, nimble, typ, t):
    """[(label, call(obj), arguments)] calls which are invalid on t whatever
    the representation"""
    P, F = t.shape
    num = ops.numericTable(t)
    num = num and P and F
    build = lambda tab: gen.build(nimble, tab, rng.choice(
        gen.TYPES if all(isNumber(v) for r in tab.rows for v in r)
        else ['List', 'Matrix', 'DataFrame']), gen.anyRoute(rng), rng)
    ret = []

    def add(label, f, *args):
        ret.append((label, f, args))
    for axn in ('points', 'features'):
        _axisInvalid(rng, nimble, t, axn, add, build)
    badP = rng.choice([P, -P - 1, 'no such'])
    badF = rng.choice([F, -F - 1, 'no such'])
    add('getitem bad point', lambda o: o[badP, 0])
    add('getitem bad feature', lambda o: o[0, badF])
    add('getitem list', lambda o: o[[0, badP], :])
    add('setitem bad point', lambda o: o.__setitem__((badP, 0), 1))
    add('setitem bad feature', lambda o: o.__setitem__((0, badF), 1))
    add('setitem list bad', lambda o: o.__setitem__(
        ([0], [0, badF]), 1))
    add('transformElements(points)', lambda o: o.transformElements(
        lambda v: v, [0, badP]))
    add('transformElements(features)', lambda o: o.transformElements(
        lambda v: v, None, [badF]))
    add('calculateOnElements(features)', lambda o: o.calculateOnElements(
        lambda v: v, None, [badF]))
    add('transformElements(None)', lambda o: o.transformElements(None))
    big = build(gen.Table([[1] * (F + 1) for _ in range(P + 1)], None, None,
                          F + 1))
    add('replaceRectangle(size)', lambda o: o.replaceRectangle(
        big, 0, 0, P - 1, F - 1), big)
    add('replaceRectangle(no end)', lambda o: o.replaceRectangle(5, 0, 0))
    add('replaceRectangle(bad start)', lambda o: o.replaceRectangle(
        5, badP, 0, P - 1, F - 1))
    add('replaceRectangle(bad end)', lambda o: o.replaceRectangle(
        5, 0, 0, P - 1, badF))
    if P > 1:
        add('replaceRectangle(reversed)', lambda o: o.replaceRectangle(
            5, 1, 0, 0, F - 1))
    add('replaceRectangle(overflow)', lambda o: o.replaceRectangle(
        big, 0, 0), big)
    add('unflatten', lambda o: o.unflatten((P + 1, F + 1)))
    add('view(bad)', lambda o: o.view(0, badP))
    add('merge(bad point)', lambda o: o.merge(big, point='no'), big)
    add('merge(bad feature)', lambda o: o.merge(
        big, point='union', feature='no'), big)
    add('merge(strict size)', lambda o: o.merge(big, point='strict'), big)
    add('merge(onFeature absent)', lambda o: o.merge(
        big, point='union', onFeature='absentQ'), big)
    add('countElements(bad)', lambda o: o.countElements('garbage query'))
    add('matchingElements(points)', lambda o: o.matchingElements(
        lambda v: True, [badP]))
    add('groupByFeature(bad)', lambda o: o.groupByFeature(badF))
    add('flatten(order)', lambda o: o.flatten(order='diagonal'))
    add('iterateElements(order)', lambda o: list(o.iterateElements(
        order='diagonal')))
    add('replaceFeatureWithBinaryFeatures(bad)',
        lambda o: o.replaceFeatureWithBinaryFeatures(badF))
    add('transformFeatureToIntegers(bad)',
        lambda o: o.transformFeatureToIntegers(badF))
    add('splitByParsing(bad)', lambda o: o.features.splitByParsing(
        badF, lambda x: [1, 2], ['a', 'b']))
    add('splitByParsing(count)', lambda o: o.features.splitByParsing(
        0, lambda x: [1, 2, 3], ['a', 'b']))
    two = lambda v: [1, 2]
    add('splitByParsing(duplicates)', lambda o: o.features.splitByParsing(
        0, two, ['a', 'a']))
    add('splitByParsing(name)', lambda o: o.features.splitByParsing(
        0, two, ['a', rng.choice([7, 2.5])]))
    taken = [n for n in t.fn[1:] if n is not None]
    if taken:
        add('splitByParsing(taken)', lambda o: o.features.splitByParsing(
            0, two, ['a', taken[0]]))
        add('splitByCollapsing(taken)',
            lambda o: o.points.splitByCollapsingFeatures([0], 'n', taken[-1]))
        add('splitByCollapsing(taken2)',
            lambda o: o.points.splitByCollapsingFeatures([0], taken[-1], 'v'))
    add('splitByCollapsing(same)',
        lambda o: o.points.splitByCollapsingFeatures([0], 'n', 'n'))
    add('splitByCollapsing(name)',
        lambda o: o.points.splitByCollapsingFeatures([0], 'n', 8))
    add('splitByCollapsing(bad)',
        lambda o: o.points.splitByCollapsingFeatures([0, badF], 'n', 'v'))
    add('splitByCollapsing(twice)',
        lambda o: o.points.splitByCollapsingFeatures([0, 0], 'n', 'v'))
    add('combineByExpanding(twice)',
        lambda o: o.points.combineByExpandingFeatures(0, F - 1 and [F - 1, 0]))
    add('combineByExpanding(twice2)',
        lambda o: o.points.combineByExpandingFeatures(
            F - 1, [F - 1] if F == 1 else [0, 0]))
    add('combineByExpanding(bad)',
        lambda o: o.points.combineByExpandingFeatures(badF, 0))
    add('copy(to)', lambda o: o.copy(to='no such type'))
    add('inverse-nonsquare' if P != F else 'copy(to2)',
        (lambda o: o.inverse()) if P != F else
        (lambda o: o.copy(to='nothing')))
    add('trainAndTestSets(fraction)', lambda o: o.trainAndTestSets(7.5))
    if num:
        for o2 in ('__add__', '__iadd__', '__isub__', '__imul__',
                   '__itruediv__', '__lt__', '__imatmul__', '__matmul__'):
            if o2 in ('__matmul__', '__imatmul__'):
                # inner dimensions disagree
                bad2 = build(gen.Table([[1] for _ in range(F + 1)], None,
                                       None, 1))
            else:
                bad2 = big
            f = getattr(operator, o2.strip('_'))
            add(o2 + ' shape', lambda o, f=f, b=bad2: f(o, b), bad2)
        strs = gen.build(nimble, gen.Table([['s'] * F for _ in range(P)],
                                           None, None, F),
                         rng.choice(['List', 'Matrix', 'DataFrame']))
        for o2 in ('__iadd__', '__isub__', '__imul__', '__itruediv__',
                   '__ipow__', '__imod__', '__ifloordiv__'):
            add(o2 + ' strings', lambda o, o2=o2: getattr(o, o2)(strs), strs)
        zero = build(gen.Table([[0] * F for _ in range(P)], None, None, F))
        for o2 in ('__itruediv__', '__ifloordiv__', '__imod__',
                   '__truediv__'):
            add(o2 + ' zero', lambda o, o2=o2: getattr(o, o2)(0))
            add(o2 + ' zeros', lambda o, o2=o2: getattr(o, o2)(zero), zero)
        if all(x is not None for x in t.pn + t.fn) and P > 1 \
                and t.pn != t.fn:
            ren = build(gen.Table(t.rows, ['diff'] + t.pn[1:], t.fn, F))
            # same names in another order are unequal names
            rev = build(gen.Table(t.rows[::-1], t.pn[::-1], t.fn, F))
            add('__iadd__ reordered names', lambda o: o.__iadd__(rev), rev)
    return ret


def rejected(ctx):
    rng = ctx.rng
    nimble = ctx.nimble
    t = gen.table(rng)
    typ = pickType(rng, t)
    route = gen.anyRoute(rng, views=False)
    obj = gen.build(nimble, t, typ, route, rng)
    ctx.log(f'{typ}/{route} {t}')
    pool = invalid(rng, nimble, typ, t)
    for label, f, args in rng.sample(pool, 4):
        name = label.split('(')[0]
        # only the call's own name, not random identifiers, in the key
        key = f'{label if "(" not in label else name}:{typ}'
        before = freeze(obj)
        argBefore = [freeze(a) for a in args]
        ctx.log(label)
        st, res = call(ctx, f, obj)
        ctx.check(st == 'exc', f'accepted-{key}',
                  lambda: f'{label} on {typ} {t} was accepted, returned '
                  f'{res!r}')
        ctx.event('rejected')
        ctx.state(label.split("'")[0], typ, route, t.shapeKey())
        d = frozenDiff(before, freeze(obj))
        ctx.check(d is None, f'trace-{key}',
                  lambda: f'failed {label} ({type(res).__name__}: {res}) '
                  f'left the {typ}: {d}', table=t)
        for a, b in zip(args, argBefore):
            d = frozenDiff(b, freeze(a))
            ctx.check(d is None, f'argument-{key}',
                      lambda: f'failed {label} changed its argument: {d}')
        d = model.invariants(obj)
        ctx.check(d is None, f'invariant-{key}',
                  lambda: f'after failed {label}: {d}')


def callbacks(ctx):
    """the user's own function raises after a few successful calls"""
    rng = ctx.rng
    nimble = ctx.nimble
    t = gen.table(rng, minP=2, minF=2)
    typ = pickType(rng, t)
    obj = gen.build(nimble, t, typ, gen.anyRoute(rng, views=False), rng)
    ctx.log(f'{typ} {t}')
    num = ops.numericTable(t)
    axn = rng.choice(['points', 'features'])
    n, m = t.shape if axn == 'points' else t.shape[::-1]
    ax = getattr(obj, axn)
    k = rng.randrange(n)
    e = rng.randrange(t.np * t.nf)
    new = lambda v: [x for x in v][::-1] if ops.homogeneous(t) else \
        [x for x in v]
    pool = [(f'{axn}.{w}', k, lambda v: True,
             lambda f, w=w: getattr(ax, w)(f))
            for w in ('extract', 'delete', 'retain', 'copy', 'count')]
    pool += [
        (f'{axn}.transform', k, new, lambda f: ax.transform(f)),
        (f'{axn}.calculate', k, lambda v: 1, lambda f: ax.calculate(f)),
        (f'{axn}.matching', k, lambda v: True, lambda f: ax.matching(f)),
        (f'{axn}.sort', k, lambda v: 1, lambda f: ax.sort(by=f)),
        ('transformElements', e, lambda v: 5 if num else v,
         lambda f: obj.transformElements(f)),
        ('calculateOnElements', e, lambda v: 5,
         lambda f: obj.calculateOnElements(f)),
        ('matchingElements', e, lambda v: True,
         lambda f: obj.matchingElements(f)),
        (f'{axn}.fillMatching-match', e, lambda v: True,
         lambda f: ax.fillMatching(1, f)),
        ('features.splitByParsing', rng.randrange(t.np), lambda v: [1, 2],
         lambda f: obj.features.splitByParsing(0, f, ['a!', 'b!'])),
        ('points.mapReduce', rng.randrange(t.np), lambda v: [(1, 1)],
         lambda f: obj.points.mapReduce(f, lambda i, v: (i, 1))),
    ]
    label, n0, base, run = rng.choice(pool)
    f = fuse1(n0, base)
    before = freeze(obj)
    ctx.log(f'{label} raising after {n0}')
    st, res = call(ctx, run, f)
    if not f.fuse.blown:
        raise Skip()
    ctx.event('callback_failures')
    ctx.state('callback', label, typ, n0, t.shapeKey())
    key = f'{label}:{typ}'
    ctx.check(st == 'exc', 'swallowed-' + key,
              f'{label}: the exception of the user function was swallowed, '
              f'returned {res!r}')
    d = frozenDiff(before, freeze(obj))
    ctx.check(tuple(obj.shape) == t.shape
              and obj.points.getNames() == t.pn
              and obj.features.getNames() == t.fn, 'callback-shape-' + key,
              f'{label}: shape or names changed')
    ctx.check(d is None, 'callback-' + key,
              lambda: f'{label} with a function raising after {n0} calls '
              f'left the {typ}: {d}')
    d = model.invariants(obj)
    ctx.check(d is None, 'callback-invariant-' + key, lambda: d)


def highDim(ctx):
    """rejected calls on data of more than two dimensions"""
    rng = ctx.rng
    nimble = ctx.nimble
    text = rng.random() < .5
    raw, dims = gen.cube(rng, text)
    typ = rng.choice(['List', 'Matrix', 'DataFrame'])
    names = [f'p{i}' for i in range(dims[0])] if rng.random() < .5 else None
    obj = gen.buildCube(nimble, rng, raw, dims, typ, names)
    if rng.random() < .3:
        v = obj.view(0, dims[0] - 1)
    else:
        v = obj
    isView = v is not obj
    ctx.log(f'{typ} {dims} view={isView} {raw}')
    n = dims[0]

    def boom(*args):
        raise Boom('user function failed')
    pool = [
        ('getitem', lambda: v.points[n + 4]),
        ('copy', lambda: v.points.copy([n + 1])),
        ('add text', lambda: v + 'no'),
        ('add shape', lambda: v + nimble.ones(n + 1, 2)),
        ('mul text', lambda: v * 'no'),
        ('calculate', lambda: v.points.calculate(boom)),
        ('count', lambda: v.points.count(boom)),
        ('matching', lambda: v.points.matching(boom)),
        ('calculateOnElements', lambda: v.calculateOnElements(boom)),
        ('countElements', lambda: v.countElements(boom)),
        ('matchingElements', lambda: v.matchingElements(boom)),
        ('features.copy', lambda: v.features.copy(0)),
        ('features.calculate', lambda: v.features.calculate(boom)),
        ('matmul', lambda: v @ v),
        ('T', lambda: v.T),
        ('groupByFeature', lambda: v.groupByFeature(0)),
        ('inverse', lambda: v.inverse()),
        ('points.similarities', lambda: v.points.similarities('no')),
        ('save', lambda: v.save('/nonexistent-dir/x.csv')),
    ]
    if text:
        pool += [('abs', lambda: abs(v)), ('neg', lambda: -v)]
    if not isView:
        pool += [
            ('transform', lambda: v.points.transform(boom)),
            ('transformElements', lambda: v.transformElements(boom)),
            ('extract', lambda: v.points.extract(boom)),
            ('sort', lambda: v.points.sort(by=boom)),
            ('sort feature', lambda: v.points.sort(by=0)),
            ('permute', lambda: v.points.permute([0] * (n + 1))),
            ('flatten order', lambda: v.flatten(order='sideways')),
            ('unflatten', lambda: v.unflatten((n + 1, 7, 5, 3))),
            ('setNames', lambda: v.points.setNames(['q'] * (n + 1))),
            ('append', lambda: v.points.append(nimble.ones(1, 91))),
            ('insert', lambda: v.points.insert(n + 3, v.points.copy(0))),
            ('features.append', lambda: v.features.append(
                nimble.ones(n, 1))),
            ('iadd text', lambda: v.__iadd__('no')),
            ('transpose', lambda: v.transpose()),
            ('merge', lambda: v.merge(v.copy())),
            ('replaceRectangle', lambda: v.replaceRectangle(
                5, 0, 0, n + 3, 1)),
            ('setitem', lambda: v.__setitem__((n + 2, 0), 5)),
        ]
    for label, run in rng.sample(pool, 5):
        before, bv = freeze(obj), freeze(v)
        ctx.log(label)
        st, res = call(ctx, run)
        if st == 'ok':
            if label in ('transpose', 'T'):
                return
            ctx.event('accepted')
            if frozenDiff(before, freeze(obj)):
                return
            continue
        ctx.event('rejected')
        ctx.state('high', label, typ, dims, isView)
        d = frozenDiff(before, freeze(obj))
        ctx.check(d is None, f'highDim-{label}:{typ}',
                  lambda: f'failed {label} ({type(res).__name__}: {res}) '
                  f'left the {typ}: {d}')
        d = frozenDiff(bv, freeze(v))
        ctx.check(d is None, f'highDim-view-{label}:{typ}',
                  lambda: f'failed {label} left the view: {d}')


def _collision(rng):
    """(label, table, call(obj)): an operation that derives names from the
    names and values of the object, which here coincide"""
    P = rng.randint(1, 4)
    val = lambda: rng.choice([0, 1, 2, 5])
    what = rng.choice(['flatten', 'flattenDefault', 'binary', 'binaryText',
                       'expand', 'expandKept', 'parse', 'collapse', 'repeat',
                       'unflatten'])
    if what in ('flatten', 'flattenDefault'):
        if what == 'flatten':
            pn, fn = ['a | b', 'a'], ['c', 'b | c']
        else:
            pn, fn = [None, '_PT#0'], ['f', None]
            if rng.random() < 0.5:
                pn, fn = ['p', None], [None, '_FT#0']
        order = rng.choice(['point', 'feature'])
        if rng.random() < 0.5:
            pn.append('other')
        t = gen.Table([[val() for _ in fn] for _ in pn], pn, fn, len(fn))
        return what, t, lambda o: o.flatten(order=order)
    if what == 'binary':
        at = rng.randrange(2)
        v = val()
        key = rng.choice(['f', None])
        clash = f'{at if key is None else key}={v}'
        rows = [[v, val()] for _ in range(P)]
        fn = [key, clash]
        if at:
            rows = [r[::-1] for r in rows]
            fn = fn[::-1]
        rows = [r + [val()] for r in rows]
        t = gen.Table(rows, None, fn + [None], 3)
        return what, t, lambda o: o.replaceFeatureWithBinaryFeatures(at)
    if what == 'binaryText':
        t = gen.Table([[1, 'x'], ['1', 'y'], [2, 'z']], None, ['f', 'g'], 2)
        return what, t, lambda o: o.replaceFeatureWithBinaryFeatures(0)
    if what in ('expand', 'expandKept'):
        taken = 'k' if what == 'expandKept' else rng.choice(['n', 'v'])
        t = gen.Table([['g', taken, 'q', 1], ['g', 'z', 'q', 2],
                       ['h', 'z', 'r', 3]], None, ['g', 'n', 'k', 'v'], 4)
        return what, t, lambda o: o.points.combineByExpandingFeatures(
            'n', 'v')
    if what == 'parse':
        names = rng.choice([['x', 'b'], ['b', 'b'], ['a', 'x'], ['t', 'u']])
        t = gen.Table([['a-b', 1, 2], ['c-d', 3, 4]], None, ['t', 'x', 'u'],
                      3)
        return what, t, lambda o: o.features.splitByParsing('t', '-', names)
    if what == 'collapse':
        names = rng.choice([('k', 'v'), ('n', 'k'), ('n', 'n'), ('a', 'b'),
                            ('a', 'k')])
        t = gen.Table([['x', 1, 2], ['y', 3, 4]], None, ['k', 'a', 'b'], 3)
        return what, t, lambda o: o.points.splitByCollapsingFeatures(
            ['a', 'b'], *names)
    if what == 'repeat':
        fn = ['a', 'a_1', 'a_1_1', 'a_2']
        each = rng.random() < 0.5
        t = gen.Table([[val() for _ in fn] for _ in range(P)], None, fn, 4)
        return what, t, lambda o: o.features.repeat(2, each)
    fn = ['a | b', 'a | c', 'd | b', 'd | b | c']
    t = gen.Table([[val() for _ in fn]], None, fn, 4)
    return what, t, lambda o: o.unflatten((2, 2))


def collisions(ctx):
    """names derived from names and values coincide with each other or with
    names in use: refused without a trace, or consistent"""
    rng = ctx.rng
    label, t, f = _collision(rng)
    typ = pickType(rng, t)
    obj = gen.build(ctx.nimble, t, typ, gen.anyRoute(rng, views=False), rng)
    ctx.log(f'{label} on {typ} {t}')
    before = freeze(obj)
    st, res = call(ctx, f, obj)
    ctx.event('collisions')
    ctx.state('collision', label, typ, st, t.shapeKey())
    if st == 'exc':
        ctx.event('collisions_refused')
        d = frozenDiff(before, freeze(obj))
        ctx.check(d is None, f'trace-collision-{label}:{typ}',
                  lambda: f'failed {label} ({type(res).__name__}: {res}) on '
                  f'{t} left the {typ}: {d}')
    for o in (obj, res):
        if hasattr(o, 'features') and hasattr(o, 'points'):
            d = model.invariants(o)
            ctx.check(d is None, f'invariant-collision-{label}:{typ}',
                      lambda: f'after {label} on {typ} {t}: {d}')


KINDS = [('rejected', 8, rejected), ('callbacks', 4, callbacks),
         ('highdim', 3, highDim), ('collisions', 0.7, collisions),
         ('hostile', 16, failing.kindOps), ('cube', 2, failing.kindCube)]
