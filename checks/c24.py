"""Displayed forms agree with the data and stay within their limits."""
import contextlib
import io
import os
import re
import shutil
import signal

from vlib import gen, model
from vlib.model import isNan
from vlib.runner import where, Skip
from checks.common import call as callAny, must, typesFor, freeze, frozenDiff, flatCopy

PROPERTY = 'C24'
RULE = ('toString, show, repr and str of objects and of their points and '
        'features: tables of every kind, type, history and view, objects of '
        'more than two dimensions and without points or features, with every '
        'combination of limits, ranges, counts, names and indices; the lines '
        'are cut into cells at positions computed from the expected texts '
        'and compared with the values read one by one; non-trivial: distinct '
        '(call, type, route, shape, options that are limiting)')
QUICK = {'cases': 5000, 'seconds': 60}
THOROUGH = {'cases': 60000, 'seconds': 800}
MIN = {'strings': 900, 'shown': 350, 'represented': 350, 'automatic': 600,
       'axes': 350, 'axis_cut': 45, 'axis_values': 3000, 'cells': 50000,
       'columns_cut': 380, 'rows_cut': 320, 'width_limited': 280,
       'height_limited': 180, 'empty_objects': 120, 'high_dimension': 120,
       'refused': 50}

HOLDC, HOLDR, SEP, CORNER, DASH = ('\u2500\u2500', '\u2502', '\u2502',
                                   '\u250c', '\u2500')


def text(v, sig):
    import numpy as np
    if isinstance(v, (float, np.floating)) and not isinstance(v, bool):
        if isNan(v):
            return ''
        if sig is not None and isinstance(v, float):
            return format(v, f'.{sig}f')
    return str(v)


def cut(s, limit, quote=False):
    """The texts a cell may have: whole, or cut to the limit with a mark."""
    if quote:
        if len(s) + 2 <= limit:
            return "'" + s + "'"
        return "'" + s[:max(limit - 3, 0)] + DASH + "'"
    if len(s) <= limit:
        return s
    return s[:limit - 1] + DASH


def splits(n):
    """Possible (first, last) counts of what is shown of n."""
    yield n, 0
    for k in range(n - 1, -1, -1):
        a = (k + 1) // 2
        yield a, k - a


class Expect:
    """Expected cells of one object for one set of options."""

    def __init__(self, obj, points, features, sig, colLimit, withP, withF,
                 quote, indent):
        self.flat = obj if len(obj.dimensions) == 2 else flatCopy(obj)
        n, m = len(obj.points), len(obj.features)
        self.rows = self.range(points, n)
        self.cols = self.range(features, m)
        pn, fn = obj.points.getNames(), obj.features.getNames()
        self.indent = indent
        self.pn = {i: cut(pn[i], colLimit, quote) if withP and
                   pn[i] is not None else str(i) for i in self.rows}
        self.fn = {j: cut(fn[j], colLimit, quote) if withF and
                   fn[j] is not None else str(j) for j in self.cols}
        self.sig, self.colLimit = sig, colLimit
        self.cells = {}

    @staticmethod
    def range(given, n):
        if isinstance(given, range):
            return [i for i in given if 0 <= i < n]
        return list(range(n))

    def cell(self, i, j):
        if (i, j) not in self.cells:
            self.cells[i, j] = cut(text(self.flat[i, j], self.sig),
                                   self.colLimit)
        return self.cells[i, j]

    def matrix(self, rsplit, csplit):
        """(row labels, header, body) as texts, holders included."""
        a, b = rsplit
        rows = self.rows[:a] + ([None] if a + b < len(self.rows) else []) \
            + (self.rows[len(self.rows) - b:] if b else [])
        a, b = csplit
        cols = self.cols[:a] + ([None] if a + b < len(self.cols) else []) \
            + (self.cols[len(self.cols) - b:] if b else [])
        head = [HOLDC if j is None else self.fn[j] for j in cols]
        labels = [HOLDR if i is None else self.pn[i] for i in rows]
        body = [[HOLDC if j is None else HOLDR if i is None else
                 self.cell(i, j) for j in cols] for i in rows]
        return labels, head, body

    def matches(self, lines, rsplit, csplit):
        labels, head, body = self.matrix(rsplit, csplit)
        if len(lines) != len(labels) + 2:
            return 'number of lines'
        wide = max(map(len, labels), default=0)
        start = len(self.indent) + wide + 3
        ends = []
        at = start
        for j, h in enumerate(head):
            w = max([len(h)] + [len(r[j]) for r in body])
            ends.append((at, at + w))
            at += w + 2

        def cells(line):
            out = [line[x:y].strip() for x, y in ends]
            between = ''.join(line[y:y + 2] for x, y in ends)
            return out, between.strip() == '' and \
                line[at:].strip() == ''
        got, clean = cells(lines[0])
        if got != [h.strip() for h in head] or not clean or \
                lines[0][:start].strip():
            return f'names {got}, expected {head}'
        if lines[1].strip(DASH + ' ') != CORNER or \
                lines[1].index(CORNER) != start - 2:
            return 'line below the names'
        for label, want, line in zip(labels, body, lines[2:]):
            left = line[:start]
            if left.rstrip() != self.indent + label.rjust(wide) + ' ' + SEP \
                    and left.strip().rstrip(SEP).strip() != label.strip():
                return f'label {left!r}, expected {label!r}'
            got, clean = cells(line)
            if got != [c.strip() for c in want] or not clean:
                return f'line {got}, expected {want}'
        return None

    def width(self, csplit, rsplit):
        labels, head, body = self.matrix(rsplit, csplit)
        w = len(self.indent) + max(map(len, labels), default=0) + 3
        for j, h in enumerate(head):
            w += max([len(h)] + [len(r[j]) for r in body]) + (2 if j else 0)
        return w


def judge(ctx, key, label, out, exp, points, features, lineLimit, widthLimit,
          extra=0):
    """The lines agree with the expected cells for some cut of the middle,
    the cut is inside of every limit, and nothing is cut without need."""
    ctx.check(out.endswith('\n'), key + ':end', lambda: f'{label} does not '
              f'end with a line break: {out!r}')
    lines = out.split('\n')[:-1]
    n, m = len(exp.rows), len(exp.cols)
    found = None
    why = []
    held = 0
    if len(lines) == 2 and m and CORNER in lines[1] and \
            lines[0].strip() == HOLDC:
        # not even one column fits: nothing but the mark
        ctx.event('nothing_fits')
        first = exp.width((1, 0), ((n, 0)))
        ctx.check(m > 0 and (features == 0 or
                             (widthLimit is not None and max(
                                 exp.width((1, 0), r) for r in splits(n))
                              + (4 if m > 1 else 0) > widthLimit)),
                  key + ':empty', lambda: f'{label} shows nothing, the first '
                  f'column needs {first}:\n{out}')
        return
    rcand = [s for s in splits(n)
             if sum(s) + (sum(s) < n) == len(lines) - 2]
    for r in rcand:
        for c in splits(m):
            if m and sum(c) == 0 and m > 0:
                continue
            bad = exp.matches(lines, r, c)
            if bad is None:
                found = (r, c)
                break
            if len(why) < 3 or sum(c) == m:
                why.append((r, c, bad))
        if found:
            break
    ctx.check(found is not None, key, lambda: f'{label} does not agree with '
              f'the data for any part shown ({why[:2]}):\n{out}')
    r, c = found
    ctx.event('cells', sum(r) * sum(c))
    ctx.event('lines', len(lines))
    if sum(r) < n:
        ctx.event('rows_cut')
        held = 1
    if sum(c) < m:
        ctx.event('columns_cut')
    # limits
    if widthLimit is not None:
        longest = max(map(len, lines))
        ctx.check(longest <= widthLimit or not m, key + ':width', lambda: f'{label} '
                  f'has a line of {longest} characters:\n{out}')
        full = exp.width((m, 0), r)
        need = sum(c) < m and not (isinstance(features, int) and
                                   sum(c) >= min(features, m))
        # a column narrower than the mark of the columns left out may go
        ctx.check(not need or full + 1 > widthLimit, key + ':columns', lambda:
                  f'{label} leaves out columns, all of them need {full}'
                  f':\n{out}')
        if need:
            ctx.event('width_limited')
    elif not isinstance(features, int):
        ctx.check(sum(c) == m, key + ':columns', lambda: f'{label} leaves out'
                  f' columns:\n{out}')
    if isinstance(features, int):
        ctx.check(sum(c) <= features and (widthLimit is not None or
                                          sum(c) == min(features, m)),
                  key + ':features', lambda: f'{label} shows {sum(c)} '
                  f'features:\n{out}')
    want = n
    if isinstance(points, int) and points < n:
        want = points
        ctx.check(sum(r) <= points, key + ':points', lambda: f'{label} shows '
                  f'{sum(r)} points:\n{out}')
    if lineLimit is not None:
        ctx.check(len(lines) + extra <= lineLimit, key + ':height', lambda:
                  f'{label} has {len(lines) + extra} lines:\n{out}')
        ctx.check(sum(r) == n or n + 2 + extra > lineLimit or want < n,
                  key + ':rows', lambda: f'{label} leaves out points:\n{out}')
        if sum(r) < n and want == n:
            ctx.event('height_limited')
        ctx.check(want == n or sum(r) >= min(want, lineLimit - 3 - extra) - 1,
                  key + ':rows', lambda: f'{label} shows only {sum(r)} points'
                  f':\n{out}')
    else:
        ctx.check(sum(r) >= (want if want == n else want - 1), key + ':rows',
                  lambda: f'{label} shows only {sum(r)} points:\n{out}')
    ctx.check(held + 2 + sum(r) == len(lines), key + ':lines', lambda:
              f'{label} has other lines:\n{out}')


# -- cases -------------------------------------------------------------------

LONG = ['a rather long name', 'x' * 40, 'the name of this point is long',
        '2026-11-20 02:00', "it's", 'a', 'b c', '\u00e9\u00e9', '1', '-']



class Endless(Exception):
    pass


def endless(signum, frame):
    raise Endless('no end after 6 seconds of processor time')


def call(ctx, func, *args):
    """A call which has to end: processor time, so that a busy machine makes
    no difference. Printing takes some milliseconds."""
    signal.signal(signal.SIGVTALRM, endless)
    signal.setitimer(signal.ITIMER_VIRTUAL, 6)
    try:
        st, out = callAny(ctx, func, *args)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    if isinstance(out, Endless):
        ctx.violation('endless', f'printing does not end: {ctx.trace[-1:]}')
    return st, out


def subject(ctx, small=False):
    rng, nimble = ctx.rng, ctx.nimble
    r = rng.random()
    if not small and r < .06:
        shape = rng.choice([(0, 0), (0, rng.randint(1, 4)),
                            (rng.randint(1, 4), 0)])
        import numpy as np
        typ = rng.choice(gen.TYPES)
        obj = nimble.data(np.empty(shape), returnType=typ, useLog=False)
        if rng.random() < .5 and shape[0]:
            obj.points.setNames([f'p{i}' for i in range(shape[0])],
                                useLog=False)
        if rng.random() < .5 and shape[1]:
            obj.features.setNames([f'f{i}' for i in range(shape[1])],
                                  useLog=False)
        ctx.event('empty_objects')
        return obj, typ, 'empty'
    if not small and r < .12:
        raw, dims = gen.cube(rng)
        typ = rng.choice(gen.TYPES)
        obj = gen.buildCube(nimble, rng, raw, dims, typ,
                            [f'c{i}' for i in range(dims[0])]
                            if rng.random() < .4 else None)
        ctx.event('high_dimension')
        return obj, typ, 'cube'
    r = rng.random()
    if r < .06:
        t = gen.table(rng, rng.choice(gen.KINDS), 1, 5, 1, 2)
    elif r < .45:
        t = gen.table(rng, rng.choice(gen.KINDS), 1, 7, 1, 7)
    elif r < .7:
        t = gen.table(rng, rng.choice(gen.KINDS), 8, 60, 1, 5)
    elif r < .9:
        t = gen.table(rng, rng.choice(gen.KINDS), 1, 5, 8, 60)
    else:
        t = gen.table(rng, rng.choice(gen.KINDS), 20, 45, 15, 45)
    for row in t.rows:
        for v in row:
            if isinstance(v, str) and ('\n' in v or '\r' in v):
                raise Skip()
    if rng.random() < .3:
        for names in (t.pn, t.fn):
            for i in range(len(names)):
                if rng.random() < .5:
                    names[i] = rng.choice(LONG) + (str(i) if
                                                   rng.random() < .9 else '')
            seen = set()
            for i, nm in enumerate(names):
                if nm in seen:
                    names[i] = None
                seen.add(nm)
    if rng.random() < .2 and t.np and t.nf:
        for _ in range(3):
            i, j = rng.randrange(t.np), rng.randrange(t.nf)
            v = t.rows[i][j]
            if isinstance(v, float):
                t.rows[i][j] = rng.choice([1e-9, -1e-9, 1e12, 123456.789,
                                           -0.0005, 1e30, .1 + .2])
            elif isinstance(v, str):
                t.rows[i][j] = rng.choice(LONG)
    typ = rng.choice(typesFor(t))
    route = gen.anyRoute(rng, views=True)
    obj = gen.build(nimble, t, typ, route, rng)
    # what is shown is compared with the element by element reading; that
    # one must be the table
    if t.np and t.nf:
        i, j = rng.randrange(t.np), rng.randrange(t.nf)
        ctx.check(model.same(obj[i, j], t.rows[i][j]), 'reading', lambda:
                  f'[{i}, {j}] is {obj[i, j]!r}, built from {t.rows[i][j]!r}')
    return obj, typ, str(route)


def pick(rng, n):
    r = rng.random()
    if r < .5:
        return None
    if r < .75:
        return rng.choice([0, 1, 2, 3, 5, 8, n, n + 1, max(n - 1, 0)])
    a = rng.randint(-1, n + 1)
    return range(a, a + rng.choice([0, 1, 1, 2, 3, 5, 12, n, n + 3]))


def options(ctx, obj):
    rng = ctx.rng
    n, m = len(obj.points), len(obj.features)
    kw = {}
    p, f = pick(rng, n), pick(rng, m)
    if p is not None:
        kw['points'] = p
    if f is not None:
        kw['features'] = f
    if rng.random() < .4:
        kw['lineLimit'] = rng.choice([4, 5, 6, 8, 9, 10, 15, 16, 40, 100,
                                      None, n + 2, n + 3, n + 4, n + 1])
    if rng.random() < .5:
        kw['lineWidthLimit'] = rng.choice([5, 6, 7, 8, 10, 12, 14, 17, 20, 25, 30,
                                           40, 60, 79, 100, 200, None])
    if rng.random() < .25:
        kw['sigDigits'] = rng.choice([0, 1, 2, 3, 5, 8, None])
    if rng.random() < .3:
        kw['columnWidthLimit'] = rng.choice([3, 4, 5, 6, 8, 12, 19, 40])
    if rng.random() < .2:
        kw['includePointNames'] = rng.random() < .5
    if rng.random() < .2:
        kw['includeFeatureNames'] = rng.random() < .5
    return kw


def expectation(obj, kw, columnLimit, indent='', quote=False):
    return Expect(obj, kw.get('points'), kw.get('features'),
                  kw.get('sigDigits', 3), columnLimit,
                  kw.get('includePointNames', True),
                  kw.get('includeFeatureNames', True), quote, indent)


def shownPoints(kw, obj):
    p = kw.get('points')
    if isinstance(p, range):
        return len(Expect.range(p, len(obj.points)))
    return len(obj.points)


def stringCase(ctx):
    rng = ctx.rng
    obj, typ, route = subject(ctx)
    kw = options(ctx, obj)
    if rng.random() < .2:
        kw['indent'] = ' ' * rng.randint(1, 6)
    if rng.random() < .2:
        kw['quoteNames'] = rng.random() < .7
    label = f'toString({kw}) of a {typ} {tuple(obj.shape)} by {route}'
    ctx.log(label)
    before = freeze(obj)
    status, out = call(ctx, lambda: obj.toString(**kw))
    limit = kw.get('lineLimit', 30)
    n = shownPoints(kw, obj)
    if status == 'exc':
        ok = type(out).__name__ == 'InvalidArgumentValue' and \
            limit is not None and limit - 2 < min(n, 2)
        ctx.check(ok, 'toString:raised', lambda: f'{label} raised '
                  f'{type(out).__name__} at {where(out)}: {out}')
        ctx.event('refused_limits')
        return
    ctx.state('toString', typ, route.split('(')[0], tuple(sorted(kw)),
              min(n, 4), min(len(obj.features), 4))
    exp = expectation(obj, kw, kw.get('columnWidthLimit', 19),
                      kw.get('indent', ''), kw.get('quoteNames', False))
    judge(ctx, 'toString', label, out, exp, kw.get('points'),
          kw.get('features'), limit, kw.get('lineWidthLimit', 79))
    ctx.event('strings')
    ctx.check(freeze(obj) == before, 'toString:changed', lambda: f'{label} '
              f'changed the object: {frozenDiff(freeze(obj), before)}')


def header(ctx, key, label, out, obj, indent, named, prefix=''):
    dims = ' x '.join(map(str, obj.dimensions)) + \
        ' dimensions encoded as ' if len(obj.dimensions) > 2 else ''
    name = f'"{obj.name}" ' if named and obj.name is not None else ''
    want = (prefix + name + dims +
            f'{len(obj.points)}pt x {len(obj.features)}ft\n')
    ctx.check(out.startswith(want), key + ':header', lambda: f'{label} '
              f'begins with {out[:120]!r}, expected {want!r}')
    return out[len(want):]


@contextlib.contextmanager
def terminal(columns, rows):
    """A terminal of the given size."""
    old = {k: os.environ.get(k) for k in ('COLUMNS', 'LINES')}
    os.environ['COLUMNS'], os.environ['LINES'] = str(columns), str(rows)
    try:
        yield
    finally:
        for k, v in old.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v


def showCase(ctx):
    rng = ctx.rng
    obj, typ, route = subject(ctx)
    kw = options(ctx, obj)
    auto = 'columnWidthLimit' not in kw
    if rng.random() < .3:
        kw['description'] = rng.choice(['some words', 'x', '1pt x 1ft', ''])
    if rng.random() < .3:
        kw['includeObjectName'] = rng.random() < .5
    if rng.random() < .4:
        obj.name = rng.choice(['data', 'ab_1', '"q"'])
    size = rng.choice([(80, 24), (80, 24), (120, 50), (40, 10), (200, 100)])
    how = rng.choice(['show', 'show', 'repr', 'str'])
    if how != 'show':
        kw = {}
        auto = True
    label = f'{how}({kw}) of a {typ} {tuple(obj.shape)} by {route}, ' \
        f'terminal {size}'
    ctx.log(label)
    before = freeze(obj)
    with terminal(*size):
        if how == 'show':
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                status, out = call(ctx, lambda: obj.show(**kw))
            if status == 'ok':
                out = buf.getvalue()
                ctx.check(out.endswith('\n\n'), 'show:end', lambda: f'{label}'
                          f' printed {out[-20:]!r} at its end')
                out = out[:-1]
        else:
            status, out = call(ctx, repr if how == 'repr' else str, obj)
    limit = kw.get('lineLimit', None if 'points' in kw else
                   max(30, size[1] - 1))
    extra = 2 + ('description' in kw)
    n = shownPoints(kw, obj)
    if status == 'exc':
        ok = type(out).__name__ == 'InvalidArgumentValue' and \
            limit is not None and limit - extra - 2 < min(n, 2)
        ctx.check(ok, f'{how}:raised', lambda: f'{label} raised '
                  f'{type(out).__name__} at {where(out)}: {out}')
        ctx.event('refused_limits')
        return
    whole = out
    indent = ''
    if how == 'repr':
        ctx.check(out.endswith('>'), 'repr:end', lambda: f'{label} ends with '
                  f'{out[-20:]!r}')
        out = out[:-1]
        indent = ' '
        out = header(ctx, how, label, out, obj, indent, True,
                     f'<{obj.getTypeString()} ')
    else:
        if 'description' in kw:
            d = kw['description'] + '\n'
            ctx.check(out.startswith(d), 'show:description', lambda:
                      f'{label} begins with {out[:80]!r}')
            out = out[len(d):]
        out = header(ctx, how, label, out, obj, indent,
                     kw.get('includeObjectName', True))
    ctx.state(how, typ, route.split('(')[0], tuple(sorted(kw)), min(n, 4),
              min(len(obj.features), 4), size)
    width = kw.get('lineWidthLimit', None if 'features' in kw else
                   max(79, size[0] - 1))
    if auto:
        # the width of the columns is chosen by the object: any choice that
        # agrees with all the cells will do
        limits = chosen(obj, kw, out)
    else:
        limits = [kw['columnWidthLimit']]
    for i, col in enumerate(limits):
        exp = expectation(obj, kw, col, indent)
        if i < len(limits) - 1 and not fits(exp, out):
            continue
        judge(ctx, how, label, out, exp, kw.get('points'),
              kw.get('features'), limit, width, extra)
        break
    ctx.event('shown' if how == 'show' else 'represented')
    if auto:
        ctx.event('automatic')
    del whole
    ctx.check(freeze(obj) == before, f'{how}:changed', lambda: f'{label} '
              f'changed the object: {frozenDiff(freeze(obj), before)}')


def chosen(obj, kw, out):
    """Column limits worth trying: those at least 8 where a longer cell of
    the object would be cut, from the widest."""
    lens = {10 ** 6}
    exp = expectation(obj, kw, 10 ** 6)
    for s in list(exp.pn.values()) + list(exp.fn.values()):
        lens.add(len(s))
    for i in exp.rows:
        for j in exp.cols:
            lens.add(len(exp.cell(i, j)))
    long = sorted(x for x in lens if x > 8)
    if len(long) == 1:
        return [10 ** 6]
    # every limit under the longest cell gives another picture; those marks
    # visible in the output tell which
    marks = re.findall(r'[^\s\u2502\u2500\u250c][^\u2502\n]*?\u2500(?=\s|$)', out)
    if not marks:
        return [10 ** 6]
    top = max(x for x in long if x < 10 ** 6)
    return list(range(top, 7, -1))


def fits(exp, out):
    lines = out.split('\n')[:-1]
    n, m = len(exp.rows), len(exp.cols)
    for r in splits(n):
        if sum(r) + (sum(r) < n) != len(lines) - 2:
            continue
        for c in splits(m):
            if m and not sum(c):
                continue
            if exp.matches(lines, r, c) is None:
                return True
    return False


def sameNumber(x, y):
    """Transposing may make a float of an integer."""
    try:
        return float(x) == float(y)
    except ValueError:
        return False


def axisCase(ctx):
    """The list of points or features: position, name and values."""
    rng = ctx.rng
    obj, typ, route = subject(ctx)
    which = rng.choice(['points', 'features'])
    axis = getattr(obj, which)
    label = f'repr of the {which} of a {typ} {tuple(obj.shape)} by {route}'
    ctx.log(label)
    before = freeze(obj)
    size = rng.choice([(80, 24), (120, 50), (40, 10)])
    with terminal(*size):
        status, out = call(ctx, repr, axis)
        ctx.check(status == 'ok', f'{which}:raised', lambda: f'{label} raised'
                  f' {type(out).__name__} at {where(out)}: {out}')
        s = str(axis)
    n = len(axis)
    ctx.check(s == out[2:-2] and out.startswith(f'< {n} {axis._axis}s\n')
              and out.endswith(' >'), f'{which}:form', lambda: f'{label} is '
              f'{out[:60]!r} … {out[-20:]!r}, str {s[:60]!r}')
    names = axis.getNames()
    flat = obj if len(obj.dimensions) == 2 else flatCopy(obj)
    if which == 'points':
        vals = [[text(flat[i, j], 3) for j in range(flat.shape[1])]
                for i in range(n)]
    else:
        vals = [[text(flat[i, j], 3) for i in range(flat.shape[0])]
                for j in range(n)]
    lines = out.split('\n')[1:-1]
    ctx.state(which, typ, route.split('(')[0], min(n, 4), size)
    shown = []
    for line in lines:
        parts = line.split(SEP, 1)
        pos = parts[0].strip()
        if not pos:
            shown.append(None)
            continue
        ctx.check(pos.isdigit() and int(pos) < n, f'{which}:position',
                  lambda: f'{label}: line {line!r}:\n{out}')
        shown.append(int(pos))
        i = int(pos)
        rest = parts[1]
        nm = names[i]
        if any(x is not None for x in names) or rest.count(SEP):
            got, rest = rest.split(SEP, 1) if SEP in rest else (rest, '')
            got = got.strip()
            want = str(i) if nm is None else nm.strip()
            ctx.check(got == want or (got.endswith(DASH) and
                                      want.startswith(got[:-1].strip())),
                      f'{which}:names', lambda: f'{label}: line {line!r}, the'
                      f' name is {nm!r}:\n{out}')
        # the first and the last value of a line are those of the data
        v = vals[i]
        tokens = rest.split()
        if v and v[0].strip() and tokens:
            a = v[0].split()[0]
            ctx.check(tokens[0] == a or tokens[0].endswith(DASH) or
                      sameNumber(tokens[0], a),
                      f'{which}:values', lambda: f'{label}: line {line!r}, '
                      f'the values are {v[:3]}:\n{out}')
            ctx.event('axis_values')
    k = shown.count(None)
    want = list(range(n))
    good = shown == want
    if k == 1:
        a = shown.index(None)
        b = len(shown) - a - 1
        good = shown[:a] == want[:a] and (not b or shown[a + 1:] ==
                                          want[-b:]) and abs(a - b) <= 1 \
            and a + b < n
        ctx.event('axis_cut')
    empty = not vals or not any(vals) or not lines
    ctx.check(good or (empty and not shown), f'{which}:lines', lambda:
              f'{label} has the positions {shown} of {n}:\n{out}')
    ctx.event('axes')
    ctx.check(freeze(obj) == before, f'{which}:changed', lambda: f'{label} '
              f'changed the object: {frozenDiff(freeze(obj), before)}')


def refusedCase(ctx):
    """Ranges with steps and other kinds of arguments are refused."""
    rng = ctx.rng
    obj, typ, route = subject(ctx, small=True)
    bad = rng.choice([range(0, 6, 2), range(5, 0, -1), 'a', [0, 1], 1.5,
                      slice(0, 2)])
    which = rng.choice(['points', 'features'])
    how = rng.choice(['toString', 'show'])
    label = f'{how}({which}={bad!r}) of a {typ}'
    ctx.log(label)
    with contextlib.redirect_stdout(io.StringIO()):
        status, out = call(ctx, lambda: getattr(obj, how)(
            **{which: bad}))
    ctx.check(status == 'exc' and type(out).__name__.startswith('Invalid'),
              'refused', lambda: f'{label} gave {out!r}')
    ctx.event('refused')


KINDS = [('toString', 5, stringCase), ('show', 4, showCase),
         ('axis', 2, axisCase), ('refused', .3, refusedCase)]
