"""Query strings and match functions select what they say."""
import datetime
import math
import re

import numpy as np

from vlib import gen, model
from vlib.model import Table, NAN, isNan
from vlib.runner import where
from checks.common import call, must, typesFor, freeze, frozenDiff

PROPERTY = 'C13'
RULE = ('query strings built from names (plain, with operators, keywords, '
        'spaces, quotes, unicode), every operator and special value, numbers '
        'and text as values, parsed directly and used to count, copy, '
        'extract, delete, retain and match on every type, history and view; '
        'an independent enumeration of all readings of a string decides '
        'which are ambiguous or malformed; match functions on scalars of '
        'every python and numpy type, quantifiers on vectors, tables, lists; '
        'non-trivial: distinct (grammar shape, operator, value kind, method, '
        'type)')
QUICK = {'cases': 20000, 'seconds': 80}
THOROUGH = {'cases': 200000, 'seconds': 800}
MIN = {'parsed': 3500, 'refused_ambiguous': 250, 'refused_malformed': 250,
       'awkward_names': 1200, 'selections': 3000, 'element_queries': 2500,
       'special_values': 1500, 'text_values': 1500, 'scalar_calls': 8000,
       'quantifier_calls': 3000, 'single_offaxis': 200, 'views': 300,
       'empty_quantifier': 30}

OPS = ['==', '!=', '>=', '<=', '>', '<']
SPECIAL = ['missing', 'nonMissing', 'numeric', 'nonNumeric', 'zero',
           'nonZero', 'positive', 'negative', 'infinity', 'boolean',
           'integer', 'floating', 'true', 'false', 'True', 'False', 'None']
FUNCS = SPECIAL[:-3]


# -- definitions -------------------------------------------------------------

def isBool(v):
    return isinstance(v, (bool, np.bool_))


def isNum(v):
    return isinstance(v, (int, float, complex, np.number)) and not isBool(v)


def define(name, v):
    """Meaning of a match function; None where the documentation leaves it
    open."""
    if name == 'missing':
        return isNan(v) or bool(v is None)
    if name == 'nonMissing':
        return not define('missing', v)
    if name == 'numeric':
        return isNum(v)
    if name == 'nonNumeric':
        return not isNum(v)
    if name in ('zero', 'nonZero'):
        if isBool(v):
            return None
        z = isNum(v) and not isNan(v) and v == 0
        return z if name == 'zero' else not z
    if name in ('positive', 'negative'):
        if isBool(v):
            return None
        if not isNum(v) or isNan(v) or isinstance(v, complex):
            return False
        return bool(v > 0) if name == 'positive' else bool(v < 0)
    if name == 'infinity':
        return isNum(v) and not isinstance(v, complex) and \
            bool(abs(v) == math.inf)
    if name == 'boolean':
        return isBool(v)
    if name == 'integer':
        if isBool(v):
            return None
        return isinstance(v, (int, np.integer))
    if name == 'floating':
        return isinstance(v, (float, np.floating))
    if name in ('true', 'True'):
        return isBool(v) and bool(v) is True
    if name in ('false', 'False'):
        return isBool(v) and bool(v) is False
    if name == 'None':
        return v is None
    raise ValueError(name)


def compare(op, v, f):
    """v op f by python, None if python leaves it undefined."""
    if isBool(v):
        return None
    try:
        with np.errstate(all='ignore'):
            r = {'==': lambda: v == f, '!=': lambda: v != f,
                 '<=': lambda: v <= f, '>=': lambda: v >= f,
                 '<': lambda: v < f, '>': lambda: v > f}[op]()
    except TypeError:
        return None
    return bool(r)


def number(text):
    try:
        return float(text)
    except ValueError:
        return None


# -- all readings of a query string ------------------------------------------

def readings(s, elementQuery):
    """Every (name or None, operator, negated, value) the documented grammar
    allows for the string."""
    ret = set()
    if elementQuery is not False:
        m = re.match(r'(==|!=|>=|<=|>|<) ?', s)
        if m:
            ret.add((None, m.group(1), False, s[m.end():]))
        for neg, lead in ((False, 'is '), (True, 'is not ')):
            if s.startswith(lead) and s[len(lead):] in SPECIAL:
                ret.add((None, 'is', neg, s[len(lead):]))
    if elementQuery is not True:
        for op in OPS:
            for m in re.finditer('(?= ' + op + ' )', s):
                ret.add((s[:m.start()], op, False,
                         s[m.start() + len(op) + 2:]))
        for neg, mid in ((False, ' is '), (True, ' is not ')):
            for m in re.finditer('(?=' + mid + ')', s):
                value = s[m.start() + len(mid):]
                if value in SPECIAL:
                    ret.add((s[:m.start()], 'is', neg, value))
    return ret


def clear(s, reading):
    """No other part of the string holds an operator or keyword."""
    name, op, neg, value = reading
    pad = r' (==|!=|>=|<=|>|<|is) '
    parts = [value] + ([name] if name is not None else [])
    # 'not' after 'is' is part of the operator
    return not any(re.search(pad, ' ' + p + ' ') for p in parts)


def meaning(reading, v):
    name, op, neg, value = reading
    if op == 'is':
        r = define(value, v)
        return None if r is None else (r != neg)
    f = number(value)
    return compare(op, v, value if f is None else f)


NAMES = ['a', 'ft1', 'age', 'x y', 'this', 'is it', 'island', 'what is',
         'a>b', '>50k', 'x==y', '<=', 'not', 'is', 'a is b', 'q != r',
         'his not', "it's", 'é', '1', '=', 'a  b', 'is not', 'p is not q',
         'v > w', '%', '==', 'true', 'b <', '! =']
PLAIN = ['a', 'ft1', 'age', 'x y', 'this', 'island', "it's", 'é', 'a>b',
         'x==y', '%', 'not', 'q!=r', 'isolate', '>50k', '<b', 'his', '=']
VALUES = ['3', '-1', '0', '2.5', '1e3', 'red', 'x y', 'True', 'is', '>3',
          'a == b', 'this is', '', 'missing', 'nan', 'é', "it's", '= 4',
          'is missing', 'not', 'inf', 'a>b', '< 2', 'None']
SCALARS = [0, 1, -1, 3, 2.5, -0.5, 1e3, NAN, None, 'red', 'x y', 'True', '',
           'a>b', 'is', True, False, float('inf'), -float('inf'), 'é',
           'missing', 'nan', "it's", 'this is', 'not', 'None']


def numpyForms(v):
    ret = [v]
    if type(v) is bool:
        ret.append(np.bool_(v))
    elif type(v) is int:
        ret += [np.int64(v), np.float64(v), float(v), np.int8(v % 100)
                if 0 <= v < 100 else np.int16(v), np.float32(v)]
    elif type(v) is float:
        ret += [np.float64(v), np.float32(v)]
    return ret


def pick(value):
    """Something indexable which holds one value under every name."""
    class Item:  # pylint: disable=too-few-public-methods
        def __init__(self):
            self.asked = []

        def __getitem__(self, name):
            self.asked.append(name)
            return value
    return Item()


def parseCase(ctx):
    rng, nimble = ctx.rng, ctx.nimble
    from nimble.exceptions import InvalidArgumentValue
    axis = rng.random() < .65
    op = rng.choice(OPS + ['is', 'is not'])
    if op.startswith('is'):
        value = rng.choice(SPECIAL) if rng.random() < .9 else \
            rng.choice(VALUES)
    else:
        value = rng.choice(VALUES)
    if axis:
        name = rng.choice(NAMES if rng.random() < .6 else PLAIN)
        gap = ' ' if rng.random() < .93 else rng.choice(['', '  '])
        s = f'{name}{gap}{op} {value}'
        if name in NAMES:
            ctx.event('awkward_names')
    else:
        s = op + (' ' if op.startswith('is') or rng.random() < .5 else '') \
            + value
    if rng.random() < .05:
        s = rng.choice([s.replace(' ', ''), s + ' ', ' ' + s, s[:-1], s[1:],
                        '', '3', 'red', s + ' == 3', s + ' is missing',
                        op, op + op + ' 3'])
    eq = rng.choice([None, True, False, axis is False, axis is False])
    poss = readings(s, eq)
    special = [r for r in poss if r[1] == 'is' and r[0] is not None]
    if len(poss) > 1 and len(special) == 1:
        # a special value at the end decides that this "is" is the operator
        ctx.event('decided_by_special')
        poss = set(special)
    label = f'QueryString({s!r}, elementQuery={eq})'
    st, q = call(ctx, lambda: nimble.match.QueryString(s, eq))
    ctx.state('parse', axis, op, len(poss), st, eq,
              number(value) is not None)
    if st == 'exc':
        ctx.check(type(q) is InvalidArgumentValue, 'parse:exception',
                  lambda: f'{label} raised {type(q).__name__}: {q}')
        if len(poss) > 1:
            ctx.event('refused_ambiguous')
        elif not poss:
            ctx.event('refused_malformed')
        else:
            r = next(iter(poss))
            # a special value at the end is understood whatever the name
            ctx.check(r[1] != 'is' or r[0] is None, 'parse:refused-special',
                      lambda: f'{label} was refused though it can only mean '
                      f'{r}: {q}')
            ctx.check(not clear(s, r), 'parse:refused-clear', lambda: f'{label} '
                      f'was refused though it can only mean {r}: {q}')
        return
    ctx.event('parsed')
    ctx.check(len(poss) > 0, 'parse:accepted-malformed', lambda: f'{label} '
              f'was accepted but is not a query (means {q.identifier!r}, '
              f'{q.filter!r})')
    ctx.check(len(poss) == 1, 'parse:accepted-ambiguous', lambda: f'{label} '
              f'was accepted as ({q.identifier!r}, {q.filter!r}) but it has '
              f'the readings {sorted(map(str, poss))}')
    ctx.check(str(q) == s, 'parse:str', lambda: f'str({label}) is {str(q)!r}')
    r = next(iter(poss))
    for v in rng.sample(SCALARS, 8):
        v = rng.choice(numpyForms(v))
        exp = meaning(r, v)
        if exp is None:
            continue
        arg = v if r[0] is None else pick(v)
        st, got = call(ctx, q, arg)
        if st == 'exc':
            ctx.violation(f'parse:call:{r[1]}:raises-{type(got).__name__}',
                          f'{label}({v!r}) raised {type(got).__name__}: '
                          f'{got}')
        ctx.check(bool(got) == exp, f'parse:meaning:{r[1]}',
                  lambda: f'{label} on {v!r} ({type(v).__name__}) is {got}, '
                  f'expected {exp}')
        if r[0] is not None:
            ctx.check(arg.asked == [r[0]], 'parse:identifier',
                      lambda: f'{label} asked for {arg.asked}, the name is '
                      f'{r[0]!r}')
        if r[1] == 'is':
            ctx.event('special_values')
        elif number(r[3]) is None:
            ctx.event('text_values')


# -- queries used by the data objects ----------------------------------------

def queryTable(rng):
    """A table with features of one clear kind each and awkward names."""
    np_, nf = rng.randint(1, 6), rng.randint(1, 4)
    kinds = [rng.choice(['int', 'float', 'nan', 'text', 'textnan', 'bool',
                         'int', 'float']) for _ in range(nf)]
    if rng.random() < .4:
        kinds = [rng.choice(['int', 'float', 'nan'])] * nf

    def val(k):
        return {'int': lambda: rng.randint(-2, 4),
                'float': lambda: rng.choice([.5, -1.5, 0.0, 2.5, 1e3]),
                'nan': lambda: rng.choice([0, 1, 2.5, -1, NAN]),
                'text': lambda: rng.choice(['red', 'blue', 'x y', 'a>b',
                                            'is', 'True', "it's", 'not']),
                'textnan': lambda: rng.choice(['red', 'blue', 'x y', NAN]),
                'bool': lambda: rng.random() < .5}[k]()
    rows = [[val(k) for k in kinds] for _ in range(np_)]
    fn = rng.sample(PLAIN, nf)
    if rng.random() < .15:
        fn[rng.randrange(nf)] = None
    pn = rng.sample([f'p{i}' for i in range(9)], np_) \
        if rng.random() < .6 else [None] * np_
    t = Table(rows, pn, fn, nf)
    t.kinds = kinds
    return t


def queryValue(rng, kind):
    if kind in ('text', 'textnan'):
        return rng.choice(['red', 'blue', 'x y', 'a>b', 'is', 'True', 'nope',
                           "it's", 'not'])
    return rng.choice(['0', '1', '2', '2.5', '-1', '-1.5', '1e3', '3.0'])


def build(ctx, t):
    rng = ctx.rng
    types = typesFor(t)
    flat = [v for r in t.rows for v in r]
    if any(type(v) is bool for v in flat) and \
            not all(type(v) is bool for v in flat):
        types = [x for x in types if x != 'Sparse']
    typ = rng.choice(types)
    route = gen.anyRoute(rng)
    if ('Sparse' not in types or typ == 'Sparse') \
            and any(type(v) is bool for v in flat):
        # some histories turn booleans beside (or stored as) numbers into
        # numbers
        route = 'direct'
    if route == 'view':
        ctx.event('views')
    return gen.build(ctx.nimble, t, typ, route, rng), typ, route


def makeQuery(rng, kind, prefix):
    """(query text, predicate)."""
    if rng.random() < .35:
        word = rng.choice(SPECIAL)
        neg = rng.random() < .3
        text = f'{prefix}is {"not " if neg else ""}{word}'
        return text, lambda v: meaning((None, 'is', neg, word), v), 'is'
    op = rng.choice(OPS if kind not in ('textnan', 'bool')
                    else ['==', '!='])
    value = queryValue(rng, kind)
    gap = ' ' if prefix or rng.random() < .5 else ''
    text = f'{prefix}{op}{gap}{value}'
    return text, lambda v: meaning((None, op, False, value), v), op


def loose(v, how):
    """None is stored as nan, and integers may be stored as floats."""
    return how in ('None',) and isNan(v)


def selectCase(ctx):
    """Points (or features) selected by a query on one feature (point)."""
    rng = ctx.rng
    t = queryTable(rng)
    byPoint = rng.random() < .7
    base = t
    if not byPoint:
        if 0 < base.kinds.count('bool') < base.nf:
            # numbers and booleans in one feature may be kept as numbers
            return
        t = t.T()
        ctx.event('feature_queries')
    off = [j for j in range(base.nf) if base.fn[j] is not None]
    if not off:
        return
    j = rng.choice(off)
    kind = base.kinds[j]
    text, pred, op = makeQuery(rng, kind, base.fn[j] + ' ')
    if len(readings(text, False)) != 1:
        return
    col = [r[j] for r in base.rows]
    if ' integer' in text or ' floating' in text or ' None' in text:
        # how a type keeps the numbers is its own choice
        return
    want = [pred(v) for v in col]
    if any(w is None for w in want):
        return
    obj, typ, route = build(ctx, t)
    ax = obj.points if byPoint else obj.features
    axisNames = base.pn
    if any(text == n for n in axisNames):
        return
    keep = [i for i, w in enumerate(want) if w]
    rest = [i for i, w in enumerate(want) if not w]
    method = rng.choice(['count', 'copy', 'matching'] if route == 'view' else
                        ['count', 'copy', 'extract', 'delete', 'retain',
                         'matching'])
    key = f'select:{method}:{op}:{kind}'
    label = (f'{typ} {"points" if byPoint else "features"}.{method}'
             f'({text!r})')
    ctx.state('select', byPoint, op, kind, method, typ, route,
              len(keep) in (0, len(want)))
    if base.nf == 1:
        ctx.event('single_offaxis')
    before = freeze(obj)

    def sub(idx):
        s = Table([base.rows[i] for i in idx], [base.pn[i] for i in idx],
                  base.fn, base.nf)
        return s if byPoint else s.T()
    f = getattr(ax, method)
    if method == 'count':
        res = must(ctx, key, label, lambda: f(text))
        ctx.check(res == len(keep), key, lambda: f'{label} is {res}, expected '
                  f'{len(keep)} ({want})', table=t)
    elif method == 'matching':
        res = must(ctx, key, label, lambda: f(text, useLog=False))
        got = model.rawRows(res)
        flat = [v for r in got for v in r]
        ctx.check([bool(v) for v in flat] == want, key, lambda: f'{label} is '
                  f'{flat}, expected {want}', table=t)
    else:
        res = must(ctx, key, label, lambda: f(text, useLog=False))
        if method in ('copy', 'extract'):
            d = model.diff(res, sub(keep))
            ctx.check(d is None, key, lambda: f'{label}: {d}', table=t)
        if method != 'copy':
            d = model.diff(obj, sub(keep if method == 'retain' else rest))
            ctx.check(d is None, key + ':object', lambda: f'after {label}: '
                      f'{d}', table=t)
    if method in ('count', 'copy', 'matching'):
        d = frozenDiff(before, freeze(obj))
        ctx.check(d is None, key + ':changed', lambda: f'{label}: {d}',
                  table=t)
    ctx.event('selections')


def elementCase(ctx):
    """matchingElements and countElements with queries, values, functions."""
    rng, nimble = ctx.rng, ctx.nimble
    t = queryTable(rng)
    kind = rng.choice(t.kinds)
    how = rng.choice(['query', 'query', 'query', 'function', 'value',
                      'function3'])
    if how == 'query':
        text, pred, op = makeQuery(rng, kind, '')
        arg = text
    elif how == 'function':
        op = rng.choice(FUNCS)
        arg = getattr(nimble.match, op)
        text = f'match.{op}'
        pred = lambda v, op=op: define(op, v)
    elif how == 'function3':
        k = rng.randint(0, 5)
        op = 'position'
        text = f'(v, i, j) -> (i + j) == {k}'
        arg = lambda v, i, j: (i + j) == k
        pred = None
    else:
        arg = rng.choice([0, 1, 2.5, 'red', 'x y', -1.5, 'nope'])
        op, text = 'value', repr(arg)
        pred = lambda v: None if isBool(v) else compare('==', v, arg)
    if any(w in text for w in ('integer', 'floating', 'None')):
        return
    want = [[(pred(v) if pred else None) for v in r] for r in t.rows]
    pts, fts = list(range(t.np)), list(range(t.nf))
    count = rng.random() < .3 and how != 'value' and how != 'function3'
    if not count:
        if rng.random() < .3:
            pts = rng.sample(pts, rng.randint(1, t.np))
        if rng.random() < .3:
            fts = rng.sample(fts, rng.randint(1, t.nf))
    if pred is None:
        want = [[(i + j) == k for j in range(t.nf)] for i in range(t.np)]
    exp = [[want[i][j] for j in fts] for i in pts]
    if any(w is None for r in exp for w in r):
        return
    obj, typ, route = build(ctx, t)
    before = freeze(obj)
    ctx.state('element', how, op, kind, typ, route, count)
    ctx.event('element_queries')
    if count:
        label = f'{typ} countElements({text})'
        res = must(ctx, f'countElements:{op}', label,
                   lambda: obj.countElements(arg))
        n = sum(map(sum, exp))
        ctx.check(res == n and type(res) is int, f'countElements:{op}',
                  lambda: f'{label} is {res!r}, expected {n}', table=t)
    else:
        limP = None if pts == list(range(t.np)) and rng.random() < .9 else pts
        limF = None if fts == list(range(t.nf)) and rng.random() < .9 else fts
        label = f'{typ} matchingElements({text}, {limP}, {limF})'
        res = must(ctx, f'matchingElements:{op}', label,
                   lambda: obj.matchingElements(arg, limP, limF,
                                                useLog=False))
        e = Table(exp, [t.pn[i] for i in pts], [t.fn[j] for j in fts],
                  len(fts))
        d = model.diff(res, e)
        ctx.check(d is None, f'matchingElements:{op}:{how}',
                  lambda: f'{label}: {d}', table=t)
        p = model.invariants(res)
        ctx.check(p is None, 'matchingElements:structure',
                  lambda: f'{label}: {p}', table=t)
    d = frozenDiff(before, freeze(obj))
    ctx.check(d is None, 'element:changed', lambda: f'{label}: {d}', table=t)


# -- match functions ---------------------------------------------------------

MORE = [datetime.datetime(2020, 1, 2), datetime.date(2020, 1, 2),
        np.datetime64('2020-01-02'), 0.0, -0.0, 1e-300, -1e-300, 2 ** 40,
        np.uint8(3), np.uint8(0), np.float16(0), np.str_('x'), 5 + 2j]


def scalarCase(ctx):
    rng, nimble = ctx.rng, ctx.nimble
    for _ in range(8):
        v = rng.choice(numpyForms(rng.choice(SCALARS + MORE)))
        name = rng.choice(FUNCS)
        exp = define(name, v)
        if exp is None:
            continue
        st, got = call(ctx, getattr(nimble.match, name), v)
        ctx.event('scalar_calls')
        ctx.state('scalar', name, type(v).__name__, exp)
        label = f'match.{name}({v!r}) ({type(v).__name__})'
        if st == 'exc':
            ctx.violation(f'scalar:{name}:raises-{type(got).__name__}',
                          f'{label} raised {type(got).__name__}: {got}')
            continue
        ctx.check(isBool(got) and bool(got) == exp, f'scalar:{name}',
                  lambda: f'{label} is {got!r}, expected {exp}')


def quantCase(ctx):
    rng, nimble = ctx.rng, ctx.nimble
    name = rng.choice(FUNCS)
    quant = rng.choice(['any', 'all'])
    kind = rng.choice(['int', 'float', 'nan', 'bool', 'str', 'mixed',
                       'mixedcols', 'intsparse', 'const', 'almost'])
    p, f = rng.choice([(1, 1), (1, rng.randint(2, 5)), (rng.randint(2, 5), 1),
                       (rng.randint(2, 5), rng.randint(2, 4)),
                       (rng.randint(2, 5), rng.randint(2, 4))])
    if kind in ('const', 'almost'):
        c = rng.choice([0, 1, -2, NAN, 'a', True, False, 2.5, float('inf')])
        rows = [[c] * f for _ in range(p)]
        if kind == 'almost':
            rows[rng.randrange(p)][rng.randrange(f)] = (
                not c if type(c) is bool else rng.choice(['b', 'a'])
                if isinstance(c, str) else rng.choice([0, 1, -1, NAN]))
    else:
        rows = [[gen.value(rng, kind, j) for j in range(f)]
                for _ in range(p)]
    t = Table(rows)
    form = rng.choice(['object', 'object', 'object', 'list', 'empty',
                       'numpy', 'iter'])
    how = rng.choice(['named', 'named', 'values', 'func'])
    if how == 'named':
        fn = getattr(nimble.match, quant + name[0].upper() + name[1:])
        pred = lambda v: define(name, v)
    elif how == 'func':
        fn = getattr(nimble.match, quant + 'Values')(
            getattr(nimble.match, name))
        pred = lambda v: define(name, v)
    else:
        targets = rng.sample([0, 1, 'a', 2.5, -1, 'b'], rng.randint(1, 3))
        single = rng.random() < .4
        if single:
            targets = targets[:1]
        fn = getattr(nimble.match, quant + 'Values')(
            targets[0] if single else list(targets))
        pred = lambda v: None if isBool(v) else any(
            compare('==', v, x) for x in targets)
        name = 'values'
    if name in ('integer', 'floating') and form != 'list':
        return
    typ = None
    if form == 'object':
        types = typesFor(t)
        if len({type(v) is bool for r in rows for v in r}) == 2:
            types = [x for x in types if x != 'Sparse']
        typ = rng.choice(types)
        if typ == 'Sparse' and type(rows[0][0]) is bool and \
                not any(v for r in rows for v in r):
            # nothing is stored: only zeros are known of it
            return
        route = gen.anyRoute(rng)
        if typ == 'Sparse' and type(rows[0][0]) is bool:
            route = 'direct'
        data = gen.build(nimble, t, typ, route, rng)
    elif form == 'empty':
        shape = rng.choice([(0, 0), (0, 3), (2, 0), (0, 1), (1, 0)])
        data = nimble.data(np.empty(shape), returnType=rng.choice(gen.TYPES),
                           useLog=False)
        rows = []
        ctx.event('empty_quantifier')
    elif form == 'list':
        rows = [[v for r in rows for v in r]]
        data = rows[0] if rng.random() < .7 else tuple(rows[0])
    elif form == 'numpy':
        rows = [[v for r in rows for v in r]]
        if len({type(v) for v in rows[0]}) > 1:
            return
        data = np.array(rows[0])
    else:
        if typ is None and (p != 1 and f != 1):
            return
        rows = [[v for r in rows for v in r]]
        data = iter(rows[0])
    vals = [pred(v) for r in rows for v in r]
    if any(v is None for v in vals):
        return
    exp = any(vals) if quant == 'any' else all(vals)
    before = freeze(data) if form != 'iter' else None
    label = f'{quant}:{name} over {form} {typ or ""} {t.rows}'
    ctx.state('quant', quant, name, form, typ, how, exp, (p > 1) + 2 * (f > 1))
    ctx.event('quantifier_calls')
    st, got = call(ctx, fn, data)
    key = f'quant:{quant}:{name}:{form}'
    if st == 'exc':
        ctx.violation(f'{key}:raises-{type(got).__name__}', f'{label} raised '
                      f'{type(got).__name__}: {got} (in {where(got)})')
        return
    ctx.check(isBool(got) and bool(got) == exp, key, lambda: f'{label} is '
              f'{got!r}, expected {exp}')
    if before is not None:
        d = frozenDiff(before, freeze(data))
        ctx.check(d is None, key + ':changed', lambda: f'{label}: {d}')


KINDS = [('parse', 5, parseCase), ('select', 4, selectCase),
         ('element', 4, elementCase), ('scalar', 1.5, scalarCase),
         ('quant', 4, quantCase)]
