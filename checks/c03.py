"""Structural and naming invariants hold of the caller, every result and every
argument at every step of a history (the monitor runs after each call)."""
from vlib import gen, model, ops
from vlib.runner import Skip
from checks.common import call, pickType, must

PROPERTY = 'C03'
RULE = ('histories of random operations (including set/unset/rename of names '
        'and empty results); after every call the invariant monitor reads '
        'every name, index and element of the caller and the results')
QUICK = {'cases': 5000, 'seconds': 60}
THOROUGH = {'cases': 90000, 'seconds': 700}
MIN = {'monitored': 10000, 'name_ops': 1500}


def isData(x):
    return hasattr(x, 'points') and hasattr(x, 'getTypeString')


def watch(ctx, key, label, x):
    if not isData(x):
        return
    ctx.event('monitored')
    d = model.invariants(x)
    ctx.check(d is None, key, lambda: f'{label}: {d}')


def history(ctx):
    rng = ctx.rng
    nimble = ctx.nimble
    t = gen.table(rng)
    typ = pickType(rng, t)
    route = gen.anyRoute(rng)
    obj = gen.build(nimble, t, typ, route, rng)
    ctx.log(f'{typ}/{route} {t}')
    watch(ctx, f'build:{route}:{typ}', f'built by {route}', obj)
    alive = []
    for _ in range(rng.randint(2, 10)):
        view = type(obj).__name__.endswith('View')
        op = ops.draw(rng, t, nimble, typ, view=view)
        if op is None:
            break
        ctx.log(op.label)
        key = f'{op.name}:{typ}'
        st, res = call(ctx, op.call, obj)
        ctx.state(op.name, typ, t.shapeKey(), view)
        watch(ctx, key + ':caller', f'after {op.label}', obj)
        if st == 'exc':
            break
        watch(ctx, key + ':result', f'result of {op.label}', res)
        for a in op.args:
            watch(ctx, key + ':argument', f'argument of {op.label}', a)
        if isData(res) and not view and not type(res).__name__.endswith(
                'View') and res is not obj:
            alive.append((op.label, key, res))
        new, exp = op.model(t)
        t = new if new is not None else t
        if exp.kind == 'table' and rng.random() < .25 and isData(res):
            # carry on with the result
            obj, t = res, exp.want
            typ = res.getTypeString()
            if not exp.checkNames:
                t = gen.Table(t.rows, res.points.getNames(),
                              res.features.getNames(), t.nf)
        if not t.np or not t.nf:
            break
    for label, key, res in alive:
        watch(ctx, key + ':result-later', f'result of {label}, at the end',
              res)


def naming(ctx):
    """a history of name operations against a list of names"""
    rng = ctx.rng
    t = gen.table(rng, maxP=5, maxF=5)
    typ = pickType(rng, t)
    obj = gen.build(ctx.nimble, t, typ, gen.anyRoute(rng, views=False), rng)
    ctx.log(f'{typ} {t}')
    for _ in range(rng.randint(2, 7)):
        ax = rng.choice(['points', 'features'])
        a = t if ax == 'points' else t.T()
        axis = getattr(obj, ax)
        nms = a.pn
        what = rng.choice(['set', 'set', 'read', 'read', 'construct',
                           'permute', 'extract', 'append', 'transpose'])
        key = f'names-{what}:{ax}:{typ}'
        ctx.event('name_ops')
        ctx.state(what, ax, typ, tuple(n is None for n in nms), t.shape)
        if what == 'set':
            op = ops.setNamesOp(rng, t, ctx.nimble, typ)
            if op is None:
                continue
            ctx.log(op.label)
            must(ctx, key, op.label, op.call, obj)
            t, _ = op.model(t)
        elif what == 'read':
            real = [n for n in nms if n is not None]
            got = axis.getNames()
            ctx.check(got == nms, key + ':getNames',
                      lambda: f'getNames {got}, expected {nms}')
            k = rng.randrange(len(nms))
            for d in (k, k - len(nms)):
                g = must(ctx, key, f'getName({d})', axis.getName, d)
                ctx.check(g == nms[k], key + ':getName',
                          lambda: f'getName({d}) is {g!r}, expected '
                          f'{nms[k]!r}')
                g2 = must(ctx, key, f'getIndex({d})', axis.getIndex, d)
                ctx.check(g2 == k, key + ':getIndex',
                          lambda: f'getIndex({d}) is {g2}')
            if real:
                some = rng.sample(real, rng.randint(1, len(real)))
                g3 = must(ctx, key, f'getIndices({some})', axis.getIndices,
                          some)
                w3 = [nms.index(n) for n in some]
                ctx.check(list(g3) == w3, key + ':getIndices',
                          lambda: f'getIndices({some}) is {g3}, expected '
                          f'{w3}')
            for n in real + ['zz none', 'p0', 'f0', 'z1']:
                ctx.check(axis.hasName(n) == (n in real), key + ':hasName',
                          lambda: f'hasName({n!r}) is {axis.hasName(n)}')
        elif what == 'permute':
            op = ops.permuteOp(rng, t, ctx.nimble, typ)
            ctx.log(op.label)
            must(ctx, key, op.label, op.call, obj)
            t, _ = op.model(t)
        elif what in ('extract', 'append'):
            op = (ops.structural(rng, t, ctx.nimble, typ)
                  if what == 'extract'
                  else ops.insertOp(rng, t, ctx.nimble, typ))
            if op is None:
                continue
            ctx.log(op.label)
            must(ctx, key, op.label, op.call, obj)
            new, _ = op.model(t)
            t = new if new is not None else t
        elif what == 'transpose':
            ctx.log('transpose')
            obj.transpose(useLog=False)
            t = t.T()
        else:
            ctx.log('rebuild')
            how = rng.choice(['dict', 'list'])
            kw = {}
            for label, n in (('pointNames', t.pn), ('featureNames', t.fn)):
                if any(x is None for x in n):
                    kw[label] = list(n) if any(n) else False
                elif how == 'dict':
                    kw[label] = {x: i for i, x in enumerate(n)}
                else:
                    kw[label] = list(n)
            obj = ctx.nimble.data([list(r) for r in t.rows], returnType=typ,
                                  useLog=False, treatAsMissing=[None,
                                  float('nan')], **kw)
        d = model.invariants(obj)
        ctx.check(d is None, key + ':invariant', lambda: d)
        d2 = model.diff(obj, t)
        ctx.check(d2 is None, key + ':model', lambda: d2)
        if not t.np or not t.nf:
            break


def empties(ctx):
    """objects with no points and/or no features"""
    rng = ctx.rng
    nimble = ctx.nimble
    t = gen.table(rng)
    typ = pickType(rng, t)
    obj = gen.build(nimble, t, typ, gen.anyRoute(rng, views=False), rng)
    ctx.log(f'{typ} {t}')
    what = rng.choice(['p', 'f', 'pf'])
    if 'p' in what:
        obj.points.delete(number=t.np, useLog=False)
        t = t.take([], None)
    if 'f' in what:
        if len(obj.points) == 0 and rng.random() < .5:
            obj = obj.features.copy([])if False else obj
        obj.features.delete(number=t.nf, useLog=False)
        t = t.take(None, [])
    ctx.event('name_ops')
    ctx.state('empty', what, typ, t.shapeKey())
    for label, f in (('delete', lambda: obj), ('copy', lambda: obj.copy()),
                     ('T', lambda: obj.T),
                     ('view', lambda: obj.view()),
                     ('copyTo', lambda: obj.copy(to=rng.choice(gen.TYPES)))):
        st, res = call(ctx, f)
        if st == 'exc':
            ctx.violation(f'empty-{label}:{typ}',
                          f'{label} of an empty {typ} raised {res!r}')
        watch(ctx, f'empty-{label}:{typ}', label, res)
        want = t.T() if label == 'T' else t
        d = model.diff(res, want)
        ctx.check(d is None, f'empty-{label}:{typ}:model',
                  lambda: f'{label}: {d}')


KINDS = [('history', 6, history), ('naming', 4, naming),
         ('empties', 1, empties)]
