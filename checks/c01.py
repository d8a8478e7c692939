"""All representations agree: differential execution of one operation
sequence on every representation, reached through different histories."""
import random

from vlib import gen, model, ops, rich
from checks.common import call, typesFor
from vlib.runner import where

PROPERTY = 'C01'
RULE = ('a random table, its four representations each built through its own '
        'random route (direct, view, shuffled, converted, ...), and 1-3 '
        'random operations with data arguments in random representations; '
        'non-trivial: distinct (operation, representation, route, shape '
        'class) with an outcome compared')
QUICK = {'cases': 7000, 'seconds': 90}
THOROUGH = {'cases': 130000, 'seconds': 800}
MIN = {'compared': 12000, 'compared_ok': 8000}


def agree(ctx):
    rng = ctx.rng
    nimble = ctx.nimble
    t = gen.table(rng)
    types = typesFor(t)
    objs = {}
    routes = {}
    for typ in types:
        route = gen.anyRoute(rng, views=rng.random() < .5)
        routes[typ] = route
        objs[typ] = gen.build(nimble, t, typ, route, rng)
    ctx.log(f'{t} {routes}')
    for _ in range(rng.randint(1, 3)):
        if not t.np or not t.nf:
            break
        op = rich.draw(rng, t, nimble)
        if op is None:
            return
        if op.mutates:
            for typ in types:
                if routes[typ] == 'view':
                    objs[typ] = objs[typ].copy()
                    routes[typ] = 'viewcopy'
        if op.dense:
            types = [x for x in types if x != 'Sparse']
        ctx.log(op.label)
        seed = rng.randrange(2**30)
        outs = {}
        argTypes = {}
        for typ in types:
            argRng = random.Random(rng.randrange(2**40))

            def mk(tab, mutable=False, argRng=argRng, typ=typ):
                at = argRng.choice(typesFor(tab))
                if argRng.random() < .4 and typ in typesFor(tab):
                    at = typ
                route = gen.anyRoute(argRng, views=not mutable)
                argTypes[typ] = f'{at}/{route}'
                return gen.build(nimble, tab, at, route, argRng)
            nimble.random.setSeed(seed, useLog=False)
            st, res = call(ctx, op.call, objs[typ], mk)
            outs[typ] = (st, rich.pic(res) if st == 'ok' else res)
        base = types[0]
        for typ in types[1:]:
            ctx.event('compared')
            ctx.state(op.name, typ, routes[typ], routes[base], t.shapeKey())
            pair = f'{base}({routes[base]}, arg {argTypes.get(base)}) vs ' \
                f'{typ}({routes[typ]}, arg {argTypes.get(typ)})'
            key = f'{op.name}:{_odd(outs)}'
            if outs[base][0] != outs[typ][0]:
                e = outs[base][1] if outs[base][0] == 'exc' else outs[typ][1]
                ctx.violation(key + ':status', (
                    f'{op.label}: {pair}: {outs[base][0]} vs {outs[typ][0]}: '
                    f'{type(e).__name__}: {e} (in {where(e)})'), table=t)
            if outs[typ][0] == 'exc':
                ctx.event('compared_refused')
                continue
            ctx.event('compared_ok')
            ctx.event('op:' + op.name)
            d = rich.picDiff(outs[base][1], outs[typ][1])
            ctx.check(d is None, key + ':result',
                      lambda: f'{op.label}: {pair}: {d}', table=t)
        if outs[base][0] == 'exc':
            break
        first = None
        for typ in types:
            p = rich.pic(objs[typ])
            if first is None:
                first = p
            d = rich.picDiff(first, p)
            ctx.check(d is None, f'{op.name}:{typ}:object',
                      lambda: f'after {op.label}: {base} vs {typ} '
                      f'({routes[typ]}): {d}', table=t)
            inv = model.invariants(objs[typ], deep=False)
            ctx.check(inv is None, f'{op.name}:{typ}:invariant',
                      lambda: f'after {op.label} {typ}: {inv}', table=t)
        try:
            kind = t.kind
            t = model.observe(objs[base])
            t.kind = kind
        except ValueError:
            return
        if not rich.exact(t):
            return


def _odd(outs):
    """The representation(s) in the minority, for grouping reports."""
    groups = []
    for typ, o in outs.items():
        for g in groups:
            p = outs[g[0]]
            if p[0] == o[0] and (p[0] == 'exc'
                                 or rich.picDiff(p[1], o[1]) is None):
                g.append(typ)
                break
        else:
            groups.append([typ])
    if len(groups) == 1:
        return '-'
    groups.sort(key=len)
    return '+'.join(groups[0])


KINDS = [('agree', 1, agree)]
