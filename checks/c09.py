"""merge against a relational reference join."""
from vlib import gen, model
from vlib.model import Table, NAN, isNan, key, same
from checks.common import call, freeze, frozenDiff, typesFor
from vlib.runner import where

PROPERTY = 'C09'
RULE = ('two random tables overlapping in point names, feature names and key '
        'values (zeros, duplicates, unmatched, different orders, unnamed '
        'points/features), every point x feature mode, on names or on a key '
        'feature, with and without force, in all representation pairs; '
        'non-trivial: distinct (modes, key form, overlap pattern, '
        'representations, outcome)')
QUICK = {'cases': 6000, 'seconds': 90}
THOROUGH = {'cases': 120000, 'seconds': 800}
MIN = {'joined': 2500, 'conflicts_refused': 200, 'unmatched_left': 500,
       'unmatched_right': 300, 'filled_from_right': 50}

MODES = ['strict', 'union', 'intersection', 'left']


class Refuse(Exception):
    pass


def matched(names, other):
    return [n for n in names if n is not None and n in other]


def reference(a, b, pm, fm, on, force, unnamed=False):
    """The documented join on plain tables. on: None or a feature name.
    Raises Refuse when the call must be refused."""
    if pm == 'strict' and fm == 'strict':
        raise Refuse('both strict')
    a, b = a.copy(), b.copy()
    dropPn = dropFn = False
    if pm == 'strict':
        if a.np != b.np:
            raise Refuse('strict length')
        if on is not None:
            if on not in a.fn or on not in b.fn:
                raise Refuse('no key')
            ka = [key(v) for v in a.col(a.fn.index(on))]
            kb = [key(v) for v in b.col(b.fn.index(on))]
            if len(set(ka)) != len(ka) or sorted(ka) != sorted(kb):
                raise Refuse('strict keys')
        else:
            a.pn, b.pn, endP = strictNames(a.pn, b.pn, force)
        pm2 = 'intersection'
    else:
        pm2 = pm
    if fm == 'strict':
        if a.nf != b.nf:
            raise Refuse('strict length')
        a.fn, b.fn, endF = strictNames(a.fn, b.fn, force)
        fm2 = 'intersection'
    else:
        fm2 = fm
    # whether an axis holding nothing but default names counts as named is
    # not documented: both answers are accepted
    if not unnamed:
        if on is None and (not anyName(a.pn) or not anyName(b.pn)):
            raise Refuse('names required')
        if not anyName(a.fn) or not anyName(b.fn):
            raise Refuse('names required')
    if on is not None and (on not in a.fn or on not in b.fn):
        raise Refuse('no key')
    both = matched(a.fn, b.fn)
    if on is not None:
        ka = [key(v) for v in a.col(a.fn.index(on))]
        kb = [key(v) for v in b.col(b.fn.index(on))]
        if len(set(ka)) != len(ka) and len(set(kb)) != len(kb):
            raise Refuse('keys not unique')
    else:
        ka = [('u', i) if n is None else n for i, n in enumerate(a.pn)]
        kb = [('v', i) if n is None else n for i, n in enumerate(b.pn)]
    if fm2 == 'union':
        outF = [('a', j) for j in range(a.nf)] + [
            ('b', j) for j in range(b.nf) if b.fn[j] not in both]
    elif fm2 == 'intersection':
        outF = [('a', j) for j in range(a.nf) if a.fn[j] in both]
    else:
        outF = [('a', j) for j in range(a.nf)]
    stats = {'filled': 0, 'ul': 0, 'ur': 0}

    def combine(i, k):
        row = []
        # conflicts matter on every shared feature that is part of the result
        for j, n in enumerate(a.fn):
            if n in both and i is not None and k is not None:
                x, y = a.rows[i][j], b.rows[k][b.fn.index(n)]
                if not isNan(x) and not isNan(y) and not same(x, y, 0):
                    raise Refuse('conflict')
        for side, j in outF:
            if side == 'b':
                row.append(b.rows[k][j] if k is not None else NAN)
                continue
            x = a.rows[i][j] if i is not None else NAN
            if isNan(x) and k is not None and a.fn[j] in both:
                x = b.rows[k][b.fn.index(a.fn[j])]
                if i is not None and not isNan(x):
                    stats['filled'] += 1
            row.append(x)
        return row
    rows, pn, order = [], [], []
    seen = set()
    for i in range(a.np):
        hits = [k for k in range(b.np) if kb[k] == ka[i]]
        for k in hits:
            seen.add(k)
            rows.append(combine(i, k))
            pn.append(a.pn[i])
            order.append(ka[i])
        if not hits:
            stats['ul'] += 1
            if pm2 in ('union', 'left'):
                rows.append(combine(i, None))
                pn.append(a.pn[i])
                order.append(ka[i])
    for k in range(b.np):
        if k not in seen:
            stats['ur'] += 1
            if pm2 == 'union':
                rows.append(combine(None, k))
                pn.append(b.pn[k])
                order.append(kb[k])
    fn = [a.fn[j] if s == 'a' else b.fn[j] for s, j in outF]
    if on is not None:
        pn = [None] * len(rows)
        if pm2 == 'union':
            ix = sorted(range(len(rows)), key=lambda x: order[x])
            rows = [rows[x] for x in ix]
    if pm == 'strict' and on is None:
        pn = endP
    if fm == 'strict':
        fn = endF
    return Table(rows, pn, fn, len(fn)), stats


def anyName(nms):
    return any(n is not None for n in nms)


def strictNames(la, lb, force):
    """names to use on each side during the join, and those of the result"""
    allA = all(n is not None for n in la)
    allB = all(n is not None for n in lb)
    if allA and allB:
        if sorted(la) != sorted(lb):
            raise Refuse('strict names')
        return la, lb, la
    if not force:
        raise Refuse('strict without names')
    out = []
    for x, y in zip(la, lb):
        if x is not None and y is not None and x != y:
            raise Refuse('force names differ')
        out.append(x if x is not None else y)
    real = [n for n in out if n is not None]
    if len(set(real)) != len(real):
        raise Refuse('force names differ')
    tmp = [n if n is not None else f'_TMP{i}' for i, n in enumerate(out)]
    return tmp, tmp, out


def draw(rng):
    """Two tables that overlap."""
    kind = rng.choice(['int', 'intsparse', 'floatsparse', 'nan', 'nan', 'str',
                       'mixedcols'])
    nPool = rng.randint(2, 7)
    fPool = rng.randint(1, 6)
    pn = [f'p{i}' for i in range(nPool)]
    fn = [f'f{i}' for i in range(fPool)]
    if rng.random() < .1:
        pn = [str(i) for i in range(nPool)]
    base = {(p, f): gen.value(rng, kind, j) for p in pn
            for j, f in enumerate(fn)}

    def one():
        ps = rng.sample(pn, rng.randint(1, nPool))
        fs = rng.sample(fn, rng.randint(1, fPool))
        return ps, fs
    (pa, fa), (pb, fb) = one(), one()
    if rng.random() < .3:
        pb = rng.sample(pa, len(pa))
    if rng.random() < .3:
        fb = rng.sample(fa, len(fa))
    ra = [[base[p, f] for f in fa] for p in pa]
    rb = [[base[p, f] for f in fb] for p in pb]
    for rows in (ra, rb):
        for r in rows:
            for j in range(len(r)):
                if kind in ('nan', 'mixedcols') and rng.random() < .1:
                    r[j] = NAN
    if rng.random() < .25 and rb:
        i, j = rng.randrange(len(rb)), rng.randrange(len(fb))
        rb[i][j] = gen.value(rng, kind, int(fb[j][1:]))
    r = rng.random()
    na, nb = list(pa), list(pb)
    if r < .1:
        na = [None if rng.random() < .4 else n for n in na]
    elif r < .2:
        nb = [None if rng.random() < .4 else n for n in nb]
    elif r < .3:
        na = [None] * len(na)
    elif r < .35:
        nb = [None] * len(nb)
    ga, gb = list(fa), list(fb)
    r = rng.random()
    if r < .1:
        ga = [None if rng.random() < .3 else n for n in ga]
    elif r < .2:
        gb = [None if rng.random() < .3 else n for n in gb]
    elif r < .25:
        ga = [None] * len(ga)
    return (Table(ra, na, ga, len(ga)), Table(rb, nb, gb, len(gb)), pa, pb,
            kind)


def addKey(rng, a, b, pa, pb):
    """a shared key column (duplicates possible on one side)"""
    ids = sorted(set(pa) | set(pb))
    form = rng.choice(['int', 'int', 'float', 'str', 'mixed'])
    vals = {p: i for i, p in enumerate(rng.sample(ids, len(ids)))}
    if form == 'float':
        vals = {p: v * .5 - 1 for p, v in vals.items()}
    elif form == 'str':
        vals = {p: f'k{v}' for p, v in vals.items()}
    elif form == 'mixed':
        vals = {p: f'k{v}' if v % 2 else v for p, v in vals.items()}
    elif rng.random() < .5:
        vals = {p: v - 2 for p, v in vals.items()}
    ka = [vals[p] for p in pa]
    kb = [vals[p] for p in pb]
    r = rng.random()
    if r < .2 and len(ka) > 1:
        ka[rng.randrange(len(ka))] = rng.choice(ka)
    elif r < .4 and len(kb) > 1:
        kb[rng.randrange(len(kb))] = rng.choice(kb)
    if form in ('int', 'float') and rng.random() < .2:
        # missing keys: all of them are the same key
        for k in rng.sample([ka, kb], rng.randint(1, 2)):
            for _ in range(rng.choice([1, 1, 2])):
                k[rng.randrange(len(k))] = NAN
    ja, jb = rng.randint(0, a.nf), rng.randint(0, b.nf)

    def put(t, j, col):
        return Table([r[:j] + [v] + r[j:] for r, v in zip(t.rows, col)], t.pn,
                     t.fn[:j] + ['id'] + t.fn[j:], t.nf + 1)
    return put(a, ja, ka), put(b, jb, kb)


def join(ctx):
    rng = ctx.rng
    a, b, pa, pb, kind = draw(rng)
    on = None
    if rng.random() < .5:
        a, b = addKey(rng, a, b, pa, pb)
        on = 'id'
    pm, fm = rng.choice(MODES), rng.choice(MODES)
    force = rng.random() < .25
    nameless = on is not None and a.nf == b.nf and None not in b.fn and \
        a.fn.index(on) == b.fn.index(on) and rng.random() < .4
    if nameless:
        # the names of the features come from the other object
        fm, force = 'strict', True
        a.fn = [None] * a.nf
        ctx.event('names_from_right')
    a.kind = b.kind = kind
    ta = rng.choice(typesFor(a))
    tb = rng.choice(typesFor(b))
    if ta == 'Sparse' and 'Sparse' not in typesFor(b):
        ta = 'List'
    ra = gen.anyRoute(rng, views=False)
    rb = gen.anyRoute(rng)
    A = gen.build(ctx.nimble, a, ta, ra, rng)
    B = gen.build(ctx.nimble, b, tb, rb, rng)
    ctx.log(f'{ta}/{ra} {a}')
    ctx.log(f'{tb}/{rb} {b}')
    arg = on
    if on is not None and arg in a.fn and a.fn.index(on) == b.fn.index(on) \
            and rng.random() < .5:
        arg = a.fn.index(on)
    if nameless:
        arg = b.fn.index(on)
    label = f'merge({pm}, {fm}, onFeature={arg!r}, force={force})'
    ctx.log(label)
    want = also = None
    try:
        want, stats = reference(a, b, pm, fm, on, force)
        refuse = None
    except Refuse as e:
        refuse = str(e)
        if refuse == 'names required':
            try:
                also, stats = reference(a, b, pm, fm, on, force, True)
            except Refuse:
                pass
    beforeA, beforeB = freeze(A), freeze(B)
    st, res = call(ctx, lambda: A.merge(B, point=pm, feature=fm,
                                        onFeature=arg, force=force,
                                        useLog=False))
    keyBase = f'{ta}:{pm}-{fm}:{"on" if on else "names"}'
    ctx.state(pm, fm, on is not None, ta, tb, force, refuse,
              want is not None and (stats['ul'] > 0, stats['ur'] > 0,
                                    stats['filled'] > 0))
    d = frozenDiff(beforeB, freeze(B))
    ctx.check(d is None, keyBase + ':right-changed',
              lambda: f'{label}: right object {d}')
    if also is not None and st == 'ok':
        want, refuse = also, None
        ctx.event('unnamed_axis_joined')
    if refuse is not None:
        ctx.event('conflicts_refused' if refuse == 'conflict'
                  else 'refused')
        if st == 'ok':
            ctx.violation(keyBase + ':accepted',
                          f'{label} succeeded, must be refused: {refuse}')
        d = frozenDiff(beforeA, freeze(A))
        ctx.check(d is None, keyBase + ':refused-but-changed',
                  lambda: f'{label} was refused ({refuse}: {res}) yet left '
                  f'object {d}')
        return
    if st == 'exc':
        ctx.violation(f'{keyBase}:raises-{type(res).__name__}',
                      f'{label} raised {type(res).__name__}: {res} '
                      f'(in {where(res)})')
    ctx.event('joined')
    ctx.event('unmatched_left', stats['ul'])
    ctx.event('unmatched_right', stats['ur'])
    ctx.event('filled_from_right', stats['filled'])
    d = model.diff(A, want)
    ctx.check(d is None, keyBase + ':result', lambda: f'{label}: {d}; '
              f'expected {want}')
    d = model.invariants(A)
    ctx.check(d is None, keyBase + ':invariant', lambda: f'{label}: {d}')


KINDS = [('join', 1, join)]
