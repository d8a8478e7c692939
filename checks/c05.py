"""Views: a window on its source with exactly the windowed content, read only,
and undisturbed by (and not disturbing) any reading of the source."""
from vlib import gen, model, ops
from vlib.runner import Skip
from checks.common import (call, freeze, frozenDiff, must, pickType)

PROPERTY = 'C05'
RULE = ('histories of reads over a source object and several live views of '
        'it (windows, single points/features, views of views); every read '
        'is compared with the windowed table; every modifying method is '
        'called on the views and has to be rejected; value changes of the '
        'source through every modifying path have to show in views taken '
        '(and read) before them')
QUICK = {'cases': 7000, 'seconds': 60}
THOROUGH = {'cases': 80000, 'seconds': 700}
MIN = {'reads': 6000, 'rejections': 2500, 'nested': 500,
       'live_reads': 2000}


def partView(ctx, obj, t):
    """a view with only some of the limits given"""
    rng = ctx.rng
    a = rng.randrange(t.np)
    b = rng.randrange(a, t.np)
    c = rng.randrange(t.nf)
    d = rng.randrange(c, t.nf)
    limits = {'pointStart': (t.pn, a), 'pointEnd': (t.pn, b),
              'featureStart': (t.fn, c), 'featureEnd': (t.fn, d)}
    kw = {k: ops.ident(rng, *v) for k, v in limits.items()
          if rng.random() < .5}
    if 'pointStart' not in kw:
        a = 0
    if 'pointEnd' not in kw:
        b = t.np - 1
    if 'featureStart' not in kw:
        c = 0
    if 'featureEnd' not in kw:
        d = t.nf - 1
    v = must(ctx, 'make-view', f'view({kw})', lambda: obj.view(**kw))
    return v, t.take(range(a, b + 1), range(c, d + 1)), f'view({kw})'


def makeView(ctx, obj, t):
    """(view, its table, description)"""
    rng = ctx.rng
    how = rng.choice(['view', 'view', 'view', 'points.view', 'features.view',
                      'pointView', 'featureView', 'iter'])
    if how == 'view':
        if rng.random() < .4:
            return partView(ctx, obj, t)
        op = ops.viewOp(rng, t, ctx.nimble, None)
        v = must(ctx, 'make-view', op.label, op.call, obj)
        return v, op.model(t)[1].want, op.label
    if how == 'points.view':
        a = rng.randrange(t.np)
        b = rng.randrange(a, t.np)
        args = (ops.ident(rng, t.pn, a), ops.ident(rng, t.pn, b))
        v = must(ctx, 'make-points.view', f'points.view{args}',
                 obj.points.view, *args) if hasattr(obj.points, 'view') \
            else obj.view(pointStart=args[0], pointEnd=args[1])
        return v, t.take(range(a, b + 1)), f'points.view{args}'
    if how == 'features.view':
        a = rng.randrange(t.nf)
        b = rng.randrange(a, t.nf)
        args = (ops.ident(rng, t.fn, a), ops.ident(rng, t.fn, b))
        v = obj.view(featureStart=args[0], featureEnd=args[1])
        return v, t.take(None, range(a, b + 1)), f'features.view{args}'
    if how == 'pointView':
        i = rng.randrange(t.np)
        d = ops.ident(rng, t.pn, i)
        return (must(ctx, 'make-pointView', f'pointView({d!r})',
                     obj.pointView, d), t.take([i]), f'pointView({d!r})')
    if how == 'featureView':
        i = rng.randrange(t.nf)
        d = ops.ident(rng, t.fn, i)
        return (must(ctx, 'make-featureView', f'featureView({d!r})',
                     obj.featureView, d), t.take(None, [i]),
                f'featureView({d!r})')
    axis = rng.choice(['points', 'features'])
    vs = list(getattr(obj, axis))
    n = t.np if axis == 'points' else t.nf
    ctx.check(len(vs) == n, 'iter-length', f'{len(vs)} {axis} iterated')
    i = rng.randrange(n)
    return (vs[i], t.take([i]) if axis == 'points' else t.take(None, [i]),
            f'iter {axis} {i}')


def reads(ctx):
    rng = ctx.rng
    nimble = ctx.nimble
    t = gen.table(rng, maxP=6, maxF=6)
    typ = pickType(rng, t)
    route = gen.anyRoute(rng)
    obj = gen.build(nimble, t, typ, route, rng)
    ctx.log(f'{typ}/{route} {t}')
    live = [('source', obj, t, 0)]
    for _ in range(rng.randint(3, 9)):
        if len(live) < 5 and rng.random() < .5:
            lab, o, tt, depth = rng.choice(live)
            v, vt, text = makeView(ctx, o, tt)
            ctx.log(f'{text} of {lab}')
            if depth:
                ctx.event('nested')
            ctx.state('view', typ, text.split('(')[0], depth, vt.shape,
                      tt.shape)
            name = f'{text} of {lab}'
            key = f'view:{typ}:depth{min(depth + 1, 2)}'
            d = model.diff(v, vt)
            ctx.check(d is None, key, lambda: f'{name}: {d}')
            d = model.invariants(v)
            ctx.check(d is None, key + ':invariant', lambda: f'{name}: {d}')
            ctx.check(v.getTypeString() == typ, key + ':type',
                      f'the view is a {v.getTypeString()}')
            live.append((f'v{len(live)}', v, vt, depth + 1))
            continue
        lab, o, tt, depth = rng.choice(live)
        op = ops.draw(rng, tt, nimble, typ, view=True)
        if op is None:
            continue
        ctx.log(f'{lab}.{op.label}')
        key = f'read-{op.name}:{typ}:{"view" if depth else "source"}'
        st, res = call(ctx, op.call, o)
        if st == 'exc':
            if not depth and route != 'view':
                raise Skip()     # C02 decides
            ctx.violation(f'{key}:raises-{type(res).__name__}',
                          f'{op.label} on a {typ} view raised '
                          f'{type(res).__name__}: {res}', table=tt)
        ctx.event('reads')
        ctx.state(op.name, typ, bool(depth), tt.shapeKey())
        _, exp = op.model(tt)
        d = exp.diff(res, op.tol)
        ctx.check(d is None, key, lambda: f'{lab}.{op.label}: {d}', table=tt)
    for lab, o, tt, depth in live:
        d = model.diff(o, tt)
        ctx.check(d is None, f'undisturbed:{typ}',
                  lambda: f'at the end {lab}: {d}')


def modifiers(rng, nimble, v, t):
    """(label, call) of every method that modifies its object"""
    P, F = t.shape
    other = nimble.zeros(P, F)
    row = nimble.zeros(1, F)
    col = nimble.zeros(P, 1)
    num = ops.numericTable(t)
    ret = [
        ('transformElements', lambda: v.transformElements(lambda x: 1)),
        ('transpose', lambda: v.transpose()),
        ('replaceRectangle',
         lambda: v.replaceRectangle(5, 0, 0, P - 1, F - 1)),
        ('flatten', lambda: v.flatten()),
        ('unflatten', lambda: v.unflatten((F, 1))),
        ('merge', lambda: v.merge(other)),
        ('setitem', lambda: v.__setitem__((0, 0), 5)),
        ('setitem-slice',
         lambda: v.__setitem__((slice(None), slice(None)), 5)),
        ('replaceFeatureWithBinaryFeatures',
         lambda: v.replaceFeatureWithBinaryFeatures(0)),
        ('transformFeatureToIntegers',
         lambda: v.transformFeatureToIntegers(0)),
        ('features.splitByParsing',
         lambda: v.features.splitByParsing(0, lambda x: [1, 2], ['q', 'r'])),
        ('features.normalize', lambda: v.features.normalize(
            nimble.calculate.meanNormalize)),
        ('points.splitByCollapsingFeatures',
         lambda: v.points.splitByCollapsingFeatures([0], 'n', 'v')),
        ('points.combineByExpandingFeatures',
         lambda: v.points.combineByExpandingFeatures(0, 0)),
    ]
    for axn, vec, n in (('points', row, P), ('features', col, F)):
        ax = getattr(v, axn)
        ret += [
            (axn + '.setNames', lambda ax=ax, n=n: ax.setNames(
                [f'w{i}' for i in range(n)])),
            (axn + '.setNames-one', lambda ax=ax: ax.setNames('w', 0)),
            (axn + '.setNames-None', lambda ax=ax: ax.setNames(None)),
            (axn + '.extract', lambda ax=ax: ax.extract(0)),
            (axn + '.delete', lambda ax=ax: ax.delete(0)),
            (axn + '.retain', lambda ax=ax: ax.retain(0)),
            (axn + '.insert', lambda ax=ax, x=vec: ax.insert(0, x)),
            (axn + '.append', lambda ax=ax, x=vec: ax.append(x)),
            (axn + '.permute', lambda ax=ax, n=n: ax.permute(
                list(range(n))[::-1])),
            (axn + '.sort', lambda ax=ax: ax.sort(by=0)),
            (axn + '.transform', lambda ax=ax: ax.transform(
                lambda x: [1 for _ in x])),
            (axn + '.fillMatching', lambda ax=ax: ax.fillMatching(
                9, lambda x: True)),
            (axn + '.replace', lambda ax=ax, x=vec: ax.replace(x, 0)),
        ]
    if num:
        for o in ('__iadd__', '__isub__', '__imul__', '__itruediv__',
                  '__ifloordiv__', '__imod__', '__ipow__'):
            ret.append((o, lambda o=o: getattr(v, o)(1)))
        ret.append(('__imatmul__', lambda: v.__imatmul__(nimble.ones(F, F))))
    return ret


def readOnly(ctx):
    rng = ctx.rng
    nimble = ctx.nimble
    t = gen.table(rng)
    typ = pickType(rng, t)
    obj = gen.build(nimble, t, typ, gen.anyRoute(rng, views=False), rng)
    v, vt, text = makeView(ctx, obj, t)
    if rng.random() < .3:
        v, vt, text2 = makeView(ctx, v, vt)
        text += ' / ' + text2
    ctx.log(f'{typ} {t}')
    ctx.log(text)
    before, vBefore = freeze(obj), freeze(v)
    pool = modifiers(rng, nimble, v, vt)
    for label, f in rng.sample(pool, 6):
        ctx.log(label)
        try:
            f()
            ok = False
            got = 'was accepted'
        except nimble.exceptions.ImproperObjectAction:
            ok, got = True, ''
        except Exception as e:  # pylint: disable=broad-except
            ok = ops.isEnvLimit(e)
            got = f'raised {type(e).__name__}: {e}'
        ctx.event('rejections')
        ctx.state('reject', label, typ, vt.shape)
        ctx.check(ok, f'readonly-{label}:{typ}',
                  f'{label} on a view ({text}) {got}')
        d = frozenDiff(vBefore, freeze(v))
        ctx.check(d is None, f'readonly-{label}:{typ}:view',
                  lambda: f'{label} modified the view: {d}')
        d = frozenDiff(before, freeze(obj))
        ctx.check(d is None, f'readonly-{label}:{typ}:source',
                  lambda: f'{label} on a view modified the source: {d}')


def valueChanges(rng, t, nimble):
    """(label, change the source object, the changed table)"""
    P, F = t.shape
    num = ops.numericTable(t)
    new = rng.choice([50, 51, 0, 7.5, 1]) if num else rng.choice(
        ['red', 'zz'])
    i, j = rng.randrange(P), rng.randrange(F)
    rows = [list(r) for r in t.rows]
    how = rng.choice(['setitem', 'setitem', 'row', 'rect', 'elements',
                      'partElements', 'points', 'features', 'fill', 'iadd',
                      'imul', 'replace'])
    if not num and how in ('rect', 'iadd', 'imul', 'fill', 'elements'):
        how = 'setitem'
    pid, fid = ops.ident(rng, t.pn, i), ops.ident(rng, t.fn, j)
    if how == 'setitem':
        rows[i][j] = new

        def f(o):
            o[pid, fid] = new
    elif how == 'row':
        rows[i] = [new] * F

        def f(o):
            o[i, :] = [new] * F
    elif how == 'rect':
        i2, j2 = rng.randrange(i, P), rng.randrange(j, F)
        for a in range(i, i2 + 1):
            for b in range(j, j2 + 1):
                rows[a][b] = new

        def f(o):
            o.replaceRectangle(new, i, j, i2, j2, useLog=False)
    elif how == 'elements':
        rows = [[v + 10 for v in r] for r in rows]

        def f(o):
            o.transformElements(lambda v: v + 10, useLog=False)
    elif how == 'partElements':
        rows[i][j] = new

        def f(o):
            o.transformElements(lambda v: new, points=[pid], features=[fid],
                                useLog=False)
    elif how == 'points':
        rows[i] = [new] * F

        def f(o):
            o.points.transform(lambda p: [new] * F, points=[pid],
                               useLog=False)
    elif how == 'features':
        for r in rows:
            r[j] = new

        def f(o):
            o.features.transform(lambda p: [new] * P, features=[fid],
                                 useLog=False)
    elif how == 'fill':
        old = rows[i][j]
        if old != old:
            old = 0
        rows = [[(99 if v == old else v) for v in r] for r in rows]

        def f(o):
            o.features.fillMatching(99, old, useLog=False)
    elif how == 'iadd':
        rows = [[v + 3 for v in r] for r in rows]

        def f(o):
            o += 3
    elif how == 'imul':
        rows = [[v * 2 for v in r] for r in rows]

        def f(o):
            o *= 2
    else:
        rows[i] = [new] * F

        def f(o):
            o.points.replace([[new] * F], points=[pid], useLog=False)
    return (f'{how} at {pid!r}, {fid!r}', f,
            model.Table(rows, t.pn, t.fn, F))


def live(ctx):
    """views taken before a value change of the source show it afterwards,
    however they were read in between"""
    rng = ctx.rng
    nimble = ctx.nimble
    t = gen.table(rng, rng.choice(['int', 'intsparse', 'float', 'floatsparse',
                                   'str', 'nan', 'mixed']), maxP=6, maxF=6)
    typ = pickType(rng, t)
    obj = gen.build(nimble, t, typ, gen.anyRoute(rng, views=False), rng)
    ctx.log(f'{typ} {t}')
    # which region of the source each view covers, by position
    pos = model.Table([[(i, j) for j in range(t.nf)] for i in range(t.np)],
                      t.pn, t.fn, t.nf)
    views = []
    for _ in range(rng.randint(1, 4)):
        src, spos, depth = rng.choice([(obj, pos, 0)] + views)
        cur = model.Table([[t.rows[i][j] for i, j in r] for r in spos.rows],
                          spos.pn, spos.fn, spos.nf)
        state = rng.getstate()
        v, _vt, text = makeView(ctx, src, cur)
        rng.setstate(state)
        # the same draws on the table of positions give the region
        _v2, vpos, _t2 = makeView(ctx, src, spos)
        ctx.log(f'v{len(views)} = {text} (depth {depth})')
        views.append((v, vpos, depth + 1))
    for step in range(rng.randint(1, 3)):
        for k, (v, vpos, depth) in enumerate(views):
            if rng.random() < .6:
                vt = model.Table([[t.rows[i][j] for i, j in r]
                                  for r in vpos.rows],
                                 vpos.pn, vpos.fn, vpos.nf)
                op = ops.draw(rng, vt, nimble, typ, view=True)
                if op is not None:
                    ctx.log(f'read v{k}.{op.label}')
                    call(ctx, op.call, v)
        if rng.random() < .4:
            obj.features.copy(rng.randrange(t.nf))
            obj.pointView(rng.randrange(t.np))
        label, change, t2 = valueChanges(rng, t, nimble)
        ctx.log(label)
        st, res = call(ctx, change, obj)
        if st == 'exc' or model.diff(obj, t2) is not None:
            raise Skip()     # C02 decides what the change has to do
        t = t2
        ctx.event('changes')
        for k, (v, vpos, depth) in enumerate(views):
            vt = model.Table([[t.rows[i][j] for i, j in r]
                              for r in vpos.rows], vpos.pn, vpos.fn, vpos.nf)
            ctx.event('live_reads')
            ctx.state('live', typ, label.split(' ')[0], vt.shape, depth)
            d = model.diff(v, vt)
            ctx.check(d is None, f'live:{typ}:{label.split(" ")[0]}',
                      lambda: f'after {label} on the source, v{k}: {d}')
            op = ops.draw(rng, vt, nimble, typ, view=True)
            if op is None:
                continue
            st, res = call(ctx, op.call, v)
            if st == 'exc':
                continue
            _, exp = op.model(vt)
            d = exp.diff(res, op.tol)
            ctx.check(d is None, f'live-read:{typ}:{op.name}',
                      lambda: f'after {label} on the source, v{k}.{op.label}:'
                      f' {d}')


KINDS = [('reads', 3, reads), ('readonly', 1, readOnly), ('live', 2, live)]
