"""Plots draw the values of the object."""
import math
import os

import numpy as np

from vlib import gen, model
from vlib.model import isNan
from vlib.runner import where
from checks.common import call, typesFor, freeze, frozenDiff

PROPERTY = 'C25'
RULE = ('every plotting method on numeric, grouped and text data of every '
        'type, history and view, with names, limits, labels, figure ids, '
        'output paths and show settings; what was drawn is read back from '
        'the artists of the figure (bars, lines, error bars, images, ticks, '
        'legends) and compared with the definition over the table; the '
        'figures saved and shown are recorded by stand-ins; non-trivial: '
        'distinct (plot, type, route, options)')
QUICK = {'cases': 3000, 'seconds': 60}
THOROUGH = {'cases': 20000, 'seconds': 800}
MIN = {'automatic_bins': 100, 'averages': 100, 'axis_limits': 200, 'bars':
       1800, 'bins': 800, 'comparisons': 280, 'coordinates': 1700, 'crosses':
       160, 'distributions': 180, 'figure_saves': 320, 'figure_shows': 130,
       'figure_steps': 700, 'group_means': 100, 'group_statistics': 160,
       'grouped': 85, 'heat_maps': 85, 'intervals': 380, 'means': 480,
       'reused': 120, 'saves': 420, 'shows': 430, 'subgroups': 50,
       'text_distributions': 25, 'trends': 80}
CASE_SECONDS = 30

saved = []
shown = []


def workerSetup(nimble, work):
    """No window and no file: record what would be saved and shown."""
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    from matplotlib.figure import Figure

    def savefig(self, fname, *args, **kwargs):
        saved.append((self, fname, kwargs.get('format')))

    def show(*args, **kwargs):
        shown.append(list(map(plt.figure, plt.get_fignums())))
        plt.close('all')
    Figure.savefig = savefig
    plt.show = show


def near(a, b, tol=1e-7):
    if isNan(a) or isNan(b):
        return isNan(a) and isNan(b)
    return abs(a - b) <= tol * max(1., abs(a), abs(b))


def nearAll(x, y):
    x, y = list(x), list(y)
    return len(x) == len(y) and all(near(a, b) for a, b in zip(x, y))


class Scene:
    """One call of a plotting method and the figure it drew on."""

    def __init__(self, ctx):
        import matplotlib.pyplot as plt
        self.ctx = ctx
        self.plt = plt
        plt.close('all')
        del saved[:], shown[:]
        ctx.nimble.core.data._plotFigures = {}

    def draw(self, key, label, obj, func, *args, **kw):
        """Call; the figure with the drawing, checked against what was saved
        and shown."""
        ctx, plt = self.ctx, self.plt
        before = freeze(obj)
        had = set(plt.get_fignums())
        ns, nh = len(saved), len(shown)
        status, out = call(ctx, lambda: func(*args, **kw))
        ctx.check(status == 'ok', key + ':raised', lambda: f'{label} raised '
                  f'{type(out).__name__} at {where(out)}: {out}')
        ctx.check(freeze(obj) == before, key + ':changed', lambda: f'{label}'
                  f' changed the object: {frozenDiff(freeze(obj), before)}')
        ctx.event('plots')
        if kw.get('show', True):
            ctx.check(len(shown) == nh + 1, key + ':show', lambda: f'{label} '
                      f'showed {len(shown) - nh} times')
            figs = shown[-1]
            ctx.event('shows')
        else:
            ctx.check(len(shown) == nh, key + ':show', lambda: f'{label} '
                      'was shown')
            figs = list(map(plt.figure, sorted(set(plt.get_fignums())
                                               - had)))
        return figs, saved[ns:]

    def one(self, key, label, obj, func, *args, **kw):
        """A plot of its own: exactly one new figure."""
        ctx = self.ctx
        figs, files = self.draw(key, label, obj, func, *args, **kw)
        ctx.check(len(figs) == 1, key + ':figures', lambda: f'{label} made '
                  f'{len(figs)} figures')
        path = kw.get('outPath')
        if path is None:
            ctx.check(not files, key + ':saved', lambda: f'{label} saved '
                      f'{files}')
        else:
            ctx.check(files and files[-1][0] is figs[0] and
                      all(f[1] == path for f in files) and
                      files[-1][2] == (None if '.' in path else 'png'),
                      key + ':saved', lambda: f'{label} saved {files}, the '
                      f'figure is {figs[0]}')
            ctx.event('saves')
        return figs[0], figs[0].axes[0]


# -- data --------------------------------------------------------------------

def names(rng, n, stem):
    r = rng.random()
    if r < .35:
        return None
    if r < .8:
        return [f'{stem}{i}' for i in range(n)]
    return [f'{stem}{i}' if rng.random() < .6 else None for i in range(n)]


def numbers(rng, n, m, missing=False):
    floats = rng.random() < .5

    def one():
        if missing and rng.random() < .2:
            return float('nan')
        if rng.random() < .2:
            return 0. if floats else 0
        return rng.randint(-40, 40) / 4 if floats else rng.randint(-20, 20)
    return [[one() for _ in range(m)] for _ in range(n)]


def make(ctx, rows, pn=None, fn=None, groups=()):
    """Build the object of a table, some columns may be of groups."""
    rng, nimble = ctx.rng, ctx.nimble
    n, m = len(rows), len(rows[0])
    pn = pn if pn is not None else names(rng, n, 'p')
    fn = fn if fn is not None else names(rng, m, 'f')
    t = model.Table(rows, pn or [None] * n, fn or [None] * m, m)
    typ = rng.choice(typesFor(t))
    route = gen.anyRoute(rng, views=True)
    obj = gen.build(nimble, t, typ, route, rng)
    return obj, t, typ, str(route)


def ident(rng, t, j, axis='features'):
    nm = (t.fn if axis == 'features' else t.pn)[j]
    return nm if nm is not None and rng.random() < .5 else j


def nameOf(t, j, axis='feature'):
    nm = (t.fn if axis == 'feature' else t.pn)[j]
    return nm if nm is not None else f'{axis.capitalize()} #{j}'


def output(rng, kw):
    kw['show'] = rng.random() < .4
    if rng.random() < .4:
        kw['outPath'] = rng.choice(['plot.png', 'plot.pdf', 'plot'])
    return kw


def labelled(ctx, key, label, ax, kw, title=None, x=None, y=None):
    """Titles and axis labels: given, automatic or none."""
    for opt, got, auto in (('title', ax.get_title(), title),
                           ('xAxisLabel', ax.get_xlabel(), x),
                           ('yAxisLabel', ax.get_ylabel(), y)):
        v = kw.get(opt, True)
        if v is True:
            ok = auto is None or got == auto
            want = auto
        else:
            want = '' if v is False else v
            ok = got == want
        ctx.check(ok, f'{key}:{opt}', lambda: f'{label}: {opt} is {got!r}, '
                  f'expected {want!r}')


def labels(rng, kw):
    for opt in ('title', 'xAxisLabel', 'yAxisLabel'):
        if rng.random() < .15:
            kw[opt] = rng.choice([False, 'text', True])
    return kw


# -- plots -------------------------------------------------------------------

def heatCase(ctx):
    rng = ctx.rng
    rows = numbers(rng, rng.randint(1, 6), rng.randint(1, 6),
                   rng.random() < .3)
    if rng.random() < .15:
        rows = [[rng.random() < .5 for _ in r] for r in rows]
    obj, t, typ, route = make(ctx, rows)
    kw = labels(rng, output(rng, {}))
    if rng.random() < .3:
        kw['includeColorbar'] = True
    if rng.random() < .3:
        obj.name = 'obj1'
    label = f'plotHeatMap({kw}) of a {typ} by {route}'
    ctx.log(label)
    s = Scene(ctx)
    fig, ax = s.one('heatMap', label, obj, obj.plotHeatMap, **kw)
    got = np.ma.filled(np.ma.asarray(ax.images[0].get_array(), float),
                       np.nan).tolist()
    want = [[float(v) for v in r] for r in rows]
    ctx.check(len(got) == len(want) and all(nearAll(a, b) for a, b in
                                            zip(got, want)), 'heatMap',
              lambda: f'{label} shows {got}, the data is {want}')
    bars = len(fig.axes) - 1
    ctx.check(bars == int(kw.get('includeColorbar', False)),
              'heatMap:colorbar', lambda: f'{label} has {bars} colorbars')
    # the labels go to the plot, whatever the colorbar
    labelled(ctx, 'heatMap', label, ax, kw, obj.name or '',
             'Feature Values', 'Point Values')
    ctx.state('heat', typ, route, tuple(sorted(kw)))
    ctx.event('heat_maps')


def limits(rng, kw, which):
    for k in which:
        if rng.random() < .15:
            kw[k] = rng.randint(-30, 0) if k.endswith('Min') else \
                rng.randint(1, 30)
    return kw


def limited(ctx, key, label, ax, kw):
    for i, k in enumerate(('xMin', 'xMax', 'yMin', 'yMax')):
        if kw.get(k) is not None:
            got = (ax.get_xlim() + ax.get_ylim())[i]
            ctx.check(near(got, kw[k]), key + ':limits', lambda: f'{label}: '
                      f'{k} is {got}')
            ctx.event('axis_limits')


def quantile(s, q):
    pos = (len(s) - 1) * q
    lo, hi = math.floor(pos), math.ceil(pos)
    return s[lo] + (s[hi] - s[lo]) * (pos - lo)


def histogram(ctx, key, label, ax, vals, kw):
    bars = [p for p in ax.patches]
    edges = [(b.get_x(), b.get_x() + b.get_width(), b.get_height())
             for b in bars]
    total = sum(e[2] for e in edges)
    inside = vals
    if isinstance(kw.get('bins'), list):
        inside = [v for v in vals if kw['bins'][0] <= v <= kw['bins'][-1]]
    ctx.check(total == len(inside), key + ':count', lambda: f'{label} shows '
              f'{total} values, there are {len(inside)}: {vals}')
    span = max((e[1] for e in edges), default=0) - \
        min((e[0] for e in edges), default=0)
    eps = 1e-9 * max([1., span] + [abs(e[0]) for e in edges])
    for i, (a, b, h) in enumerate(edges):
        last = i == len(edges) - 1
        low = sum(a + eps < v < b - eps for v in inside)
        high = sum(a - eps <= v <= b + eps for v in inside)
        ctx.check(low <= h <= high and (not last or True), key + ':bins',
                  lambda: f'{label} has {h} values from {a} to {b}, the data '
                  f'has {high}: {sorted(vals)}')
    ctx.event('bins', len(edges))
    return edges


def distributionCase(ctx):
    rng = ctx.rng
    n = rng.choice([1, 2, 3, 5, 8, 13, 30])
    m = rng.randint(1, 4)
    kind = rng.choice(['num', 'num', 'miss', 'text', 'const', 'bool'])
    rows = numbers(rng, n, m, kind == 'miss')
    j = rng.randrange(m)
    if kind == 'text':
        pool = rng.sample(['a', 'bb', 'c c', 'd', 'é', 'f', 'g'], 4)
        for r in rows:
            r[j] = rng.choice(pool)
    elif kind == 'const':
        for r in rows:
            r[j] = rows[0][j]
    elif kind == 'bool':
        rows = [[rng.random() < .5 for _ in r] for r in rows]
    col = [r[j] for r in rows]
    vals = [v for v in col if not isNan(v)]
    if not vals and rng.random() < .5:
        rows[0][j] = 1
        col = [r[j] for r in rows]
        vals = [v for v in col if not isNan(v)]
    obj, t, typ, route = make(ctx, rows)
    kw = limits(rng, labels(rng, output(rng, {})), ['xMin', 'xMax'])
    if kind != 'text' and rng.random() < .25:
        kw['bins'] = rng.choice([1, 3, 7, [-100, -3, 0, 4, 100]])
    fid = ident(rng, t, j)
    label = f'plotFeatureDistribution({fid!r}, {kw}) of {col} in a {typ} ' \
        f'by {route}'
    ctx.log(label)
    s = Scene(ctx)
    fig, ax = s.one('distribution', label, obj, obj.plotFeatureDistribution,
                    fid, **kw)
    if kind == 'text':
        cats = [x.get_text() for x in ax.get_xticklabels()]
        fig.canvas.draw()
        cats = [x.get_text() for x in ax.get_xticklabels()]
        pos = dict(zip(cats, ax.get_xticks()))
        ctx.check(set(vals) <= set(cats), 'distribution:categories', lambda:
                  f'{label} has the categories {cats}')
        histogram(ctx, 'distribution', label, ax, [pos[v] for v in vals], kw)
        ctx.event('text_distributions')
    else:
        edges = histogram(ctx, 'distribution', label, ax,
                          [float(v) for v in vals], kw)
        if isinstance(kw.get('bins'), int):
            ctx.check(len(edges) == kw['bins'], 'distribution:bins', lambda:
                      f'{label} has {len(edges)} bins')
        elif 'bins' not in kw and kind != 'bool' and vals:
            srt = sorted(vals)
            w = 2 * (quantile(srt, .75) - quantile(srt, .25)) / \
                len(vals) ** (1 / 3)
            want = 1 if w == 0 else (srt[-1] - srt[0]) / w
            ctx.check(abs(math.ceil(want - 1e-9) - len(edges)) == 0 or
                      math.ceil(want + 1e-9) == len(edges),
                      'distribution:width', lambda: f'{label} has '
                      f'{len(edges)} bins, the rule gives {want}')
            ctx.event('automatic_bins')
    nm = t.fn[j]
    labelled(ctx, 'distribution', label, ax, kw,
             f'Distribution of feature named: {nm}' if nm is not None else
             f'Distribution of feature #{j}', 'Values', 'Number of Values')
    limited(ctx, 'distribution', label, ax, kw)
    ctx.state('distribution', typ, route, kind, tuple(sorted(kw)))
    ctx.event('distributions')


def trendline(ctx, key, label, line, xs, ys):
    n = len(xs)
    # drawn over the visible part
    mx, my = sum(xs) / n, sum(ys) / n
    sxx = sum((x - mx) ** 2 for x in xs)
    slope = sum((x - mx) * (y - my) for x, y in zip(xs, ys)) / sxx
    gx, gy = list(line.get_xdata()), list(line.get_ydata())
    want = [my + slope * (x - mx) for x in gx]
    ctx.check(len(gx) >= 2 and nearAll(gy, want), key + ':trend', lambda: f'{label}'
              f' draws the trend {list(zip(gx, gy))}, expected {want}')
    ctx.event('trends')


def rolling(xs, ys, k):
    pairs = sorted(zip(xs, ys), key=lambda p: p[0])
    gx, gy = [], []
    for i in range(len(pairs) - k + 1):
        w = pairs[i:i + k]
        gx.append(sum(p[0] for p in w) / k)
        gy.append(sum(p[1] for p in w) / k)
    return gx, gy


def crossCase(ctx):
    rng = ctx.rng
    n, m = rng.randint(2, 12), rng.randint(2, 4)
    rows = numbers(rng, n, m)
    x, y = rng.sample(range(m), 2)
    if rng.random() < .05:
        y = x
    # the ordering by x is unique
    used = rng.sample(range(-30, 30), n)
    for r, v in zip(rows, used):
        r[x] = v / 2 if rng.random() < .5 else v
    if len({r[x] for r in rows}) < n:
        for r, v in zip(rows, used):
            r[x] = v
    g = None
    if m > 2 and rng.random() < .5:
        g = next(j for j in range(m) if j not in (x, y))
        pool = rng.choice([['a', 'b'], ['u v', 'w', 'z'], [0, 1], [3, 1, 2]])
        for r in rows:
            r[g] = rng.choice(pool)
    obj, t, typ, route = make(ctx, rows)
    k = None
    if rng.random() < .4:
        k = rng.choice([1, 2, 3, 4])
    kw = limits(rng, labels(rng, output(rng, {})),
                ['xMin', 'xMax', 'yMin', 'yMax'])
    if rng.random() < .3:
        obj.name = 'obj1'
    xi, yi = ident(rng, t, x), ident(rng, t, y)
    key = 'against'
    args = [xi, yi]
    func = obj.plotFeatureAgainstFeature
    if k is not None:
        key = 'rolling'
        func = obj.plotFeatureAgainstFeatureRollingAverage
        kw['sampleSizeForAverage'] = k
    groups = {None: rows}
    if g is not None:
        kw['groupByFeature'] = ident(rng, t, g)
        groups = {}
        for r in rows:
            groups.setdefault(r[g], []).append(r)
        if min(map(len, groups.values())) < (k or 1):
            kw['sampleSizeForAverage'] = k = 1 if k else None
        if k is None:
            kw.pop('sampleSizeForAverage', None)
    elif k and k > n:
        kw['sampleSizeForAverage'] = k = n
    want = {}
    for lab, rs in groups.items():
        xs, ys = [float(r[x]) for r in rs], [float(r[y]) for r in rs]
        want[lab] = rolling(xs, ys, k) if k else (xs, ys)
    if rng.random() < .3 and all(len(set(w[0])) > 1 for w in want.values()):
        kw['trend'] = 'linear'
    label = f'{func.__name__}({xi!r}, {yi!r}, {kw}) of a {typ} {rows} by ' \
        f'{route}'
    ctx.log(label)
    if rng.random() < .05:
        try:
            func(*args, **{**kw, 'trend': 'cubic', 'show': False,
                           'outPath': None, 'figureID': None})
            ctx.violation(f'{key}:trend-accepted', f'{label}: the trend '
                          f'"cubic" is accepted')
        except ctx.nimble.exceptions.InvalidArgumentValue:
            pass
        import matplotlib.pyplot as plt
        plt.close('all')
    s = Scene(ctx)
    fig, ax = s.one(key, label, obj, func, *args, **kw)
    lines = ax.get_lines()
    per = 2 if 'trend' in kw else 1
    ctx.check(len(lines) == per * len(want), key + ':lines', lambda: f'{label}'
              f' draws {len(lines)} lines for {len(want)} groups')
    data = lines[::per]
    if g is None:
        pairs = [(data[0], want[None])]
    else:
        byLabel = {str(ln.get_label()): ln for ln in data}
        ok = len(byLabel) == len(want) and all(
            tick(byLabel, lab) is not None for lab in want)
        ctx.check(ok, key + ':labels', lambda: f'{label} labels the groups '
                  f'{list(byLabel)}, expected {list(want)}')
        pairs = [(tick(byLabel, lab), w) for lab, w in want.items()]
        leg = ax.get_legend()
        got = sorted(str(x.get_text()) for x in leg.get_texts()) if leg else []
        ctx.check(got == sorted(byLabel), key + ':legend', lambda: f'{label} '
                  f'has the legend {got}, the groups {sorted(byLabel)}')
        ctx.event('grouped')
    for ln, (xs, ys) in pairs:
        gx, gy = list(ln.get_xdata()), list(ln.get_ydata())
        ctx.check(nearAll(gx, xs) and nearAll(gy, ys), key, lambda: f'{label} '
                  f'draws {list(zip(gx, gy))}, expected {list(zip(xs, ys))}')
        ctx.event('coordinates', len(xs))
        if 'trend' in kw:
            trendline(ctx, key, label, lines[lines.index(ln) + 1]
                      if isinstance(lines, list) else
                      list(lines)[list(lines).index(ln) + 1], xs, ys)
    avg = f' ({k} sample average)' if k else ''
    xn, yn = nameOf(t, x), nameOf(t, y)
    a = ' average' if k else ''
    title = f'{xn}{a} vs. {yn}{a}'
    if obj.name is not None:
        title = None if g is not None else f'{obj.name}: {title}'
    labelled(ctx, key, label, ax, kw, title, xn + avg, yn + avg)
    limited(ctx, key, label, ax, kw)
    ctx.state(key, typ, route, g is None, tuple(sorted(kw)))
    ctx.event('averages' if k else 'crosses')


def mean(v):
    return math.fsum(v) / len(v)


def ticks(ax, horizontal):
    axis = ax.yaxis if horizontal else ax.xaxis
    return {x.get_text(): p for x, p in zip(axis.get_ticklabels(),
                                            axis.get_ticklocs())}


def tick(found, name):
    if name in found:
        return found[name]
    if not isinstance(name, str):
        for lab, p in found.items():
            if isFloat(lab) == float(name):
                return p
    return None


def isFloat(s):
    try:
        return float(s)
    except ValueError:
        return None


def critical(n):
    from scipy.stats import t
    return float(t.ppf(.975, n - 1))


def errorBars(ctx, key, label, ax, horizontal, groups, named):
    """Means and their intervals at the positions of the names."""
    box = ax.containers[0]
    data = box.lines[0]
    pos = list(data.get_ydata() if horizontal else data.get_xdata())
    val = list(data.get_xdata() if horizontal else data.get_ydata())
    segs = box.lines[2][0].get_segments()
    found = ticks(ax, horizontal)
    ctx.check(len(pos) == len(groups) and len(found) == len(groups),
              key + ':count', lambda: f'{label} draws {len(pos)} means with '
              f'the ticks {found} for {len(groups)}')
    for name, vals in groups.items():
        p = tick(found, name)
        ctx.check(p is not None, key + ':names', lambda: f'{label}: no tick '
                  f'for {name!r} in {found}')
        i = next(i for i, q in enumerate(pos) if near(q, p))
        ctx.check(near(val[i], mean(vals)), key, lambda: f'{label}: {name!r} '
                  f'has the mean {val[i]}, expected {mean(vals)}')
        if len(vals) > 1:
            mu = mean(vals)
            sd = math.sqrt(math.fsum((v - mu) ** 2 for v in vals)
                           / (len(vals) - 1))
            e = critical(len(vals)) * sd / math.sqrt(len(vals))
            a = 0 if horizontal else 1
            got = sorted(float(q[a]) for q in segs[i])
            ctx.check(nearAll(got, [mu - e, mu + e]), key + ':interval',
                      lambda: f'{label}: {name!r} has the interval {got}, '
                      f'expected {[mu - e, mu + e]}')
            ctx.event('intervals')
        ctx.event('means')
    del named


def bars(ax, horizontal):
    """{label: [(position of the centre, length)]}"""
    out = []
    for box in ax.containers:
        out.append((str(box.get_label()),
                    [((b.get_y() + b.get_height() / 2, b.get_width())
                      if horizontal else
                      (b.get_x() + b.get_width() / 2, b.get_height()))
                     for b in box.patches]))
    return out


STATS = {'mean': mean, 'sum': math.fsum, 'maximum': max, 'minimum': min,
         'count': len, 'median': lambda v: quantile(sorted(v), .5)}


def statistic(ctx, name):
    if name == 'sum':
        return sum
    return getattr(ctx.nimble.calculate, name)


def groupCase(ctx):
    rng = ctx.rng
    n, m = rng.randint(2, 14), rng.randint(2, 4)
    rows = numbers(rng, n, m)
    f, g = rng.sample(range(m), 2)
    pool = rng.choice([['a', 'b'], ['u v', 'w', 'z'], [0, 1], [3, 1, 2],
                       ['a long name of a group', 'b' * 30, 'c']])
    for r in rows:
        r[g] = rng.choice(pool)
    sub = None
    if m > 2 and rng.random() < .35:
        sub = next(j for j in range(m) if j not in (f, g))
        spool = rng.choice([['s', 't'], [0, 1], ['s', 't', 'u']])
        for r in rows:
            r[sub] = rng.choice(spool)
    elif rng.random() < .1:
        sub = f
    obj, t, typ, route = make(ctx, rows)
    kw = labels(rng, output(rng, {}))
    kw['horizontal'] = horizontal = rng.random() < .4
    fi, gi = ident(rng, t, f), ident(rng, t, g)
    groups = {}
    for r in rows:
        groups.setdefault(r[g], []).append(float(r[f]))
    s = Scene(ctx)
    if rng.random() < .4:
        label = f'plotFeatureGroupMeans({fi!r}, {gi!r}, {kw}) of a {typ} ' \
            f'{rows} by {route}'
        ctx.log(label)
        fig, ax = s.one('groupMeans', label, obj, obj.plotFeatureGroupMeans,
                        fi, gi, **kw)
        errorBars(ctx, 'groupMeans', label, ax, horizontal, groups, True)
        labelled(ctx, 'groupMeans', label, ax, kw, '95% Confidence Intervals '
                 f'for Mean of {nameOf(t, f)}',
                 *(('mean', nameOf(t, g)) if horizontal else
                   (nameOf(t, g), 'mean')))
        ctx.state('groupMeans', typ, route, horizontal, tuple(sorted(kw)))
        ctx.event('group_means')
        return
    name = rng.choice(list(STATS))
    calc = STATS[name]
    if sub is not None:
        kw['subgroupFeature'] = ident(rng, t, sub)
    label = f'plotFeatureGroupStatistics({name}, {fi!r}, {gi!r}, {kw}) of a ' \
        f'{typ} {rows} by {route}'
    ctx.log(label)
    fig, ax = s.one('groupStatistics', label, obj,
                    obj.plotFeatureGroupStatistics, statistic(ctx, name), fi,
                    gi, **kw)
    key = 'groupStatistics'
    found = ticks(ax, horizontal)
    drawn = bars(ax, horizontal)
    ctx.check(len(found) == len(groups), key + ':ticks', lambda: f'{label} '
              f'has the ticks {found}, the groups are {list(groups)}')
    if sub is None:
        ctx.check(len(drawn) == 1, key + ':count', lambda: f'{label} draws '
                  f'{drawn}')
        for lab, vals in groups.items():
            p = tick(found, lab)
            got = [h for q, h in drawn[0][1] if p is not None and near(q, p)]
            ctx.check(len(got) == 1 and near(got[0], calc(vals)), key, lambda:
                      f'{label}: {lab!r} has {got} at {p}, expected '
                      f'{calc(vals)}')
            ctx.event('bars')
    else:
        subs = {}
        for r in rows:
            subs.setdefault(r[sub], {}).setdefault(r[g], []).append(
                float(r[f]))
        compareBars(ctx, key, label, found, drawn, {
            sl: {lab: calc(by[lab]) if lab in by else 0. for lab in groups}
            for sl, by in subs.items()})
        leg = ax.get_legend()
        ctx.check(leg is not None and leg.get_title().get_text() ==
                  nameOf(t, sub), key + ':legend', lambda: f'{label} has the '
                  f'legend {leg and leg.get_title().get_text()!r}')
        ctx.event('subgroups')
    statName = name if name != 'sum' else 'sum'
    labelled(ctx, key, label, ax, kw, f'{nameOf(t, f)} {statName} by '
             f'{nameOf(t, g)}', *((statName, nameOf(t, g)) if horizontal else
                                  (nameOf(t, g), statName)))
    ctx.state(key, typ, route, horizontal, name, tuple(sorted(kw)))
    ctx.event('group_statistics')


def compareBars(ctx, key, label, found, drawn, want):
    """Several bars around each tick: {bar label: {tick name: length}}"""
    ctx.check(len(drawn) == len(want), key + ':count', lambda: f'{label} '
              f'draws {len(drawn)} kinds of bars for {list(want)}')
    taken = []
    for sl, by in want.items():
        mine = [b for lab, b in drawn if lab == str(sl) or not
                isinstance(sl, str) and isFloat(lab) == float(sl)]
        ctx.check(len(mine) == 1 and len(mine[0]) == len(by),
                  key + ':labels', lambda: f'{label} draws the bars '
                  f'{[lab for lab, _ in drawn]}, expected {list(want)} over '
                  f'{list(by)}')
        for lab, v in by.items():
            p = tick(found, lab)
            got = [(q, h) for q, h in mine[0] if p is not None and
                   abs(q - p) < .45]
            ctx.check(len(got) == 1 and near(got[0][1], v), key, lambda:
                      f'{label}: {sl!r} of {lab!r} has {got} near {p}, '
                      f'expected {v}')
            ctx.check(not any(near(got[0][0], q) for q in taken),
                      key + ':overlap', lambda: f'{label}: two bars at '
                      f'{got[0][0]}')
            taken.append(got[0][0])
            ctx.event('bars')


def compareCase(ctx):
    """points/features .plot, .plotMeans and .plotStatistics"""
    rng = ctx.rng
    n, m = rng.randint(1, 5), rng.randint(1, 5)
    rows = numbers(rng, n, m)
    obj, t, typ, route = make(ctx, rows)
    which = rng.choice(['points', 'features'])
    axis = getattr(obj, which)
    vecs = [list(map(float, r)) for r in rows] if which == 'points' else \
        [[float(r[j]) for r in rows] for j in range(m)]
    other = 'feature' if which == 'points' else 'point'
    count = len(vecs)
    sel = None
    if rng.random() < .4:
        sel = rng.sample(range(count), rng.randint(1, count))
    kw = labels(rng, output(rng, {}))
    kw['horizontal'] = horizontal = rng.random() < .4
    if sel is not None:
        kw[which] = [ident(rng, t, i, which) for i in sel]
    if rng.random() < .2:
        obj.name = 'obj1'
    wanted = {nameOf(t, i, which[:-1]): vecs[i]
              for i in (sel if sel is not None else range(count))}
    how = rng.choice(['plot', 'plotMeans', 'plotStatistics'])
    args = []
    name = None
    if how == 'plotStatistics':
        name = rng.choice(list(STATS) + ['vector'])
        nimble = ctx.nimble
        if name == 'vector':
            def vector(vec):
                return nimble.data([[nimble.calculate.minimum(vec)],
                                    [nimble.calculate.maximum(vec)]]
                                   if which == 'features' else
                                   [[nimble.calculate.minimum(vec),
                                     nimble.calculate.maximum(vec)]],
                                   useLog=False)
            args = [vector]
        else:
            args = [statistic(ctx, name)]
    if how != 'plotMeans' and rng.random() < .2:
        kw['legendTitle'] = 'legend'
    label = f'{which}.{how}({name or ""}, {kw}) of a {typ} {rows} by {route}'
    ctx.log(label)
    s = Scene(ctx)
    key = f'{how}'
    fig, ax = s.one(key, label, obj, getattr(axis, how), *args, **kw)
    if how == 'plotMeans':
        errorBars(ctx, key, label, ax, horizontal, wanted, True)
    else:
        found = ticks(ax, horizontal)
        drawn = bars(ax, horizontal)
        if how == 'plot':
            k = len(vecs[0])
            each = {nameOf(t, i, other): {nm: v[i] for nm, v in
                                          wanted.items()} for i in range(k)}
        elif name == 'vector':
            k = 2
            low = [f'{other.capitalize()} #{i}' for i in range(2)]
            each = {low[0]: {nm: min(v) for nm, v in wanted.items()},
                    low[1]: {nm: max(v) for nm, v in wanted.items()}}
        else:
            k = 1
            each = {None: {nm: STATS[name](v) for nm, v in wanted.items()}}
        ctx.check(len(found) == len(wanted), key + ':ticks', lambda: f'{label}'
                  f' has the ticks {found}, expected {list(wanted)}')
        if k == 1:
            ctx.check(len(drawn) == 1 and len(drawn[0][1]) == len(wanted),
                      key + ':count', lambda: f'{label} draws {drawn}')
            for nm, v in list(each.values())[0].items():
                p = tick(found, nm)
                got = [h for q, h in drawn[0][1] if p is not None
                       and near(q, p)]
                ctx.check(len(got) == 1 and near(got[0], v), key, lambda:
                          f'{label}: {nm!r} has {got} at {p}, expected {v}')
                ctx.event('bars')
        else:
            compareBars(ctx, key, label, found, drawn, each)
            leg = ax.get_legend()
            ctx.check(leg is not None and leg.get_title().get_text() ==
                      kw.get('legendTitle', ''), key + ':legend', lambda:
                      f'{label} has the legend '
                      f'{leg and leg.get_title().get_text()!r}')
    base = which[:-1].capitalize()
    stat = {'plotMeans': 'mean', 'plot': ''}.get(how, name)
    labelled(ctx, key, label, ax, kw, None,
             *((stat, base) if horizontal else (base, stat)))
    ctx.state(which, how, typ, route, name, horizontal, tuple(sorted(kw)))
    ctx.event('comparisons')


def figureCase(ctx):
    """A history of plots over several figures: a figure id names one figure
    until something is shown, every drawing goes to its figure only and that
    figure is the one saved."""
    rng = ctx.rng
    import matplotlib.pyplot as plt
    rows = numbers(rng, rng.randint(3, 6), 3)
    for i, r in enumerate(rows):
        r[0] = i
        r[2] = rng.choice([0, 1])
    obj, t, typ, route = make(ctx, rows)
    Scene(ctx)
    known = {}      # id -> (figure, drawings)
    log = []
    for step in range(rng.randint(2, 8)):
        fid = rng.choice([None, 'a', 'b', 3])
        show = rng.random() < .2
        path = rng.choice([None, f'out{step}.png'])
        kind = rng.choice(['cross', 'dist', 'bars', 'grouped'])
        kw = {'show': show, 'figureID': fid, 'outPath': path}
        had = list(map(plt.figure, plt.get_fignums()))
        if had and rng.random() < .3:
            plt.figure(rng.choice(had).number)   # the user looks at another
        counts = {f: artists(f) for f in had}
        ns, nh = len(saved), len(shown)
        text = f'{kind} {kw}'
        log.append(text)
        label = f'history {log} on a {typ}'
        ctx.log(label)
        if kind == 'cross':
            f = lambda: obj.plotFeatureAgainstFeature(0, 1, **kw)
        elif kind == 'grouped':
            f = lambda: obj.plotFeatureAgainstFeature(0, 1, groupByFeature=2,
                                                      **kw)
        elif kind == 'dist':
            f = lambda: obj.plotFeatureDistribution(0, **kw)
        else:
            f = lambda: obj.features.plot([0, 1], **kw)
        status, out = call(ctx, f)
        ctx.check(status == 'ok', 'figures:raised', lambda: f'{label} raised '
                  f'{type(out).__name__} at {where(out)}: {out}')
        figs = shown[-1] if show and len(shown) > nh else \
            list(map(plt.figure, plt.get_fignums()))
        new = [x for x in figs if not any(x is h for h in had)]
        if fid is not None and fid in known:
            target = known[fid]
            ctx.check(not new, 'figures:new', lambda: f'{label}: another '
                      f'figure was made for the id {fid!r}')
            ctx.event('reused')
        else:
            ctx.check(len(new) == 1, 'figures:new', lambda: f'{label}: the '
                      f'last step made {len(new)} figures')
            target = new[0]
            if fid is not None:
                known[fid] = target
        for h in had:
            if h is not target:
                ctx.check(artists(h) == counts[h], 'figures:other', lambda:
                          f'{label}: the last step drew on another figure')
        ctx.check(artists(target) > counts.get(target, 0), 'figures:drawn',
                  lambda: f'{label}: the last step did not draw on the figure')
        files = saved[ns:]
        if path is None:
            ctx.check(not files, 'figures:saved', lambda: f'{label}: saved '
                      f'{files}')
        else:
            ctx.check(files and files[-1][0] is target and
                      all(x[1] == path for x in files), 'figures:saved',
                      lambda: f'{label}: the last step saved another figure')
            ctx.event('figure_saves')
        ctx.check((len(shown) > nh) == show, 'figures:show', lambda:
                  f'{label}: shown {len(shown) - nh} times in the last step')
        if show:
            known = {}
            ctx.check(any(x is target for x in shown[-1]), 'figures:shown',
                      lambda: f'{label}: the figure is not among those shown')
            ctx.event('figure_shows')
        ctx.event('figure_steps')
    ctx.state('figures', typ, tuple(log)[:3])


def artists(fig):
    return sum(len(ax.get_lines()) + len(ax.patches) + len(ax.containers)
               for ax in fig.axes)


def setup(nimble):
    os.environ.setdefault('MPLBACKEND', 'Agg')


KINDS = [('heat', 1, heatCase), ('distribution', 2, distributionCase),
         ('cross', 3, crossCase), ('group', 3, groupCase),
         ('compare', 3, compareCase), ('figures', 1.5, figureCase)]
