"""Point/feature operations follow the table model (histories)."""
from vlib import gen, model, ops
from checks.common import call, must, pickType

PROPERTY = 'C02'
RULE = ('histories of 1-8 random operations on random tables')
QUICK = {'cases': 4000, 'seconds': 60}
THOROUGH = {'cases': 100000, 'seconds': 800}


def history(ctx):
    rng = ctx.rng
    t = gen.table(rng)
    typ = pickType(rng, t)
    route = gen.anyRoute(rng, views=False)
    obj = gen.build(ctx.nimble, t, typ, route, rng)
    ctx.log(f'{typ}/{route} {t}')
    for _ in range(rng.randint(1, 8)):
        op = ops.draw(rng, t, ctx.nimble, typ)
        if op is None:
            break
        ctx.log(op.label)
        ctx.state(op.name, typ, t.shapeKey())
        key = f'{op.name}:{typ}'
        st, res = call(ctx, op.call, obj)
        if st == 'exc':
            ctx.violation(f'{key}:raises-{type(res).__name__}',
                          f'{op.label} on {typ} raised {type(res).__name__}: '
                          f'{res}', table=t)
        new, exp = op.model(t)
        ctx.event('op:' + op.name)
        d = exp.diff(res, op.tol)
        ctx.check(d is None, key + ':result', lambda: f'{op.label}: {d}',
                  table=t, typ=typ)
        if new is None:
            new = t
        d2 = model.diff(obj, new, op.tol)
        ctx.check(d2 is None, key + ':object',
                  lambda: f'after {op.label}: {d2}', table=t, typ=typ)
        t = new
        d3 = model.invariants(obj)
        ctx.check(d3 is None, key + ':invariant', lambda: f'{op.label}: {d3}',
                  table=t)
        if not t.np or not t.nf:
            break


KINDS = [('history', 1, history)]
