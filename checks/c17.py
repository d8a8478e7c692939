"""Train/test splits and folds partition the data."""
import warnings

import numpy as np

from vlib import gen, model
from vlib.model import Table, NAN, isNan
from vlib.runner import where, Skip
from checks.common import call, must, freeze, frozenDiff, typesFor

PROPERTY = 'C17'
RULE = ('random data sets whose points carry a unique identity in several '
        'features, split by trainAndTestSets (all label forms, fractions, '
        'orders, representations, views, 3-D) or searched over by cross '
        'validation, leave one out, leave one group out, holdout data and '
        'holdout proportion; a recording learner logs every point each '
        'training and applying call saw, and the recorded events are checked '
        'offline: partition, alignment, proportions, no leak, performance '
        'equal to that of the recorded predictions; non-trivial: distinct '
        '(kind, form, type, size, folds)')
QUICK = {'cases': 2600, 'seconds': 60}
THOROUGH = {'cases': 30000, 'seconds': 800}
MIN = {'splits': 200, 'split_points': 1500, 'folds': 700, 'train_calls': 900,
       'points_tested': 4000, 'groups': 60, 'holdout': 60,
       'performance_checked': 300, 'refused': 60, 'inputs_compared': 500}
CASE_SECONDS = 60

LOG = []
PERF = []
STATE = {}


def quiet(f, *args, **kwargs):
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        return f(*args, **kwargs)


def rowId(row):
    """The identity of a point from any features it kept."""
    ids = [v for v in row if not isinstance(v, str) and not isNan(v)
           and 1000 <= v < 10000]
    big = [v for v in row if not isinstance(v, str) and not isNan(v)
           and v >= 100000]
    if len(ids) != 1 or len(big) > 1 or (big and big[0] != ids[0] * 100):
        return ('torn', tuple(row))
    return int(ids[0])


def guess(i, arg, kind, outputs):
    """The prediction of the recording learner for the point i."""
    if kind == 'c':
        return [STATE['classes'][(i * 7 + arg + (i // 3) * o) % 3]
                for o in range(outputs)]
    return [i % 10 + ((i * 13 + arg * 5 + o) % 7) / 4 for o in range(outputs)]


def setup(nimble):
    class Recorder(nimble.CustomLearner):
        learnerType = 'regression'

        def train(self, trainX, trainY, arg=0, other=0):
            self.ids = [rowId(r) for r in model.rawRows(trainX)]
            self.arg = arg
            self.outputs = len(trainY.features)
            LOG.append({'event': 'train', 'ids': self.ids, 'arg': arg,
                        'other': other, 'y': model.rawRows(trainY),
                        'pn': trainX.points.getNames(),
                        'ypn': trainY.points.getNames(),
                        'fn': trainX.features.getNames(),
                        'rows': model.rawRows(trainX)})

        def apply(self, testX):
            ids = [rowId(r) for r in model.rawRows(testX)]
            LOG.append({'event': 'apply', 'ids': ids, 'trained': self.ids,
                        'arg': self.arg, 'pn': testX.points.getNames(),
                        'rows': model.rawRows(testX)})
            return nimble.data([guess(i, self.arg, STATE['kind'],
                                      self.outputs)
                                if isinstance(i, int) else [0] * self.outputs
                                for i in ids], useLog=False)

    STATE['learner'] = Recorder

    @nimble.calculate.performanceFunction('min', 0, validate=False)
    def recorded(knownValues, predictedValues):
        known = model.rawRows(knownValues)
        pred = model.rawRows(predictedValues)
        PERF.append((known, pred))
        return distance(known, pred)

    @nimble.calculate.performanceFunction('max', 0, validate=False)
    def closeness(knownValues, predictedValues):
        known = model.rawRows(knownValues)
        pred = model.rawRows(predictedValues)
        PERF.append((known, pred))
        return -distance(known, pred)
    STATE['perf'] = {'recorded': recorded, 'closeness': closeness}


def distance(known, pred):
    """Order of the points is irrelevant, pairing is not."""
    tot = 0.
    for a, b in zip(known, pred):
        for v, w in zip(a, b):
            if isinstance(v, str) or isinstance(w, str):
                tot += v != w
            else:
                tot += abs(v - w) ** 1.5
    return tot / max(1, len(known)) + (1000 if len(known) != len(pred) else 0)


def reference(name, known, pred):
    n = len(known)
    if name == 'recorded':
        return distance(known, pred)
    if name == 'closeness':
        return -distance(known, pred)
    wrong = sum(not model.same(a[0], b[0]) for a, b in zip(known, pred))
    if name == 'fractionIncorrect':
        return wrong / n
    if name == 'fractionCorrect':
        return 1 - wrong / n
    err = [abs(a[0] - b[0]) for a, b in zip(known, pred)]
    if name == 'meanAbsoluteError':
        return sum(err) / n
    if name == 'rootMeanSquareError':
        return (sum(e * e for e in err) / n) ** .5
    raise KeyError(name)


# -- data sets ---------------------------------------------------------------

class Data:
    """Points with an identity, features around it and labels."""

    def __init__(self, rng, n=None, text=None, outputs=None):
        self.n = n = n or rng.choice([2, 3, 4, 5, 6, 7, 9, 10, 13, 20])
        self.kind = rng.choice('cr')
        self.text = rng.random() < .3 if text is None else text
        if self.text:
            self.kind = 'c'
        self.classes = ['a', 'b', 'c'] if self.text else [0, 1, 2]
        self.outputs = outputs or (2 if rng.random() < .15 else 1)
        STATE.update(kind=self.kind, classes=self.classes)
        ids = rng.sample(range(1000, 1100), n)
        self.ids = ids
        cols = [('id', ids)]
        if rng.random() < .7:
            cols.append(('idx', [i * 100 for i in ids]))
        for k in range(rng.randint(0, 2)):
            cols.append((f'v{k}', [gen.value(rng, 'intsparse')
                                   for _ in ids]))
        if self.kind == 'c':
            self.label = {i: [self.classes[(i + 2 * o) % 3]
                              for o in range(self.outputs)] for i in ids}
        else:
            self.label = {i: [i % 10 + o * 3 for o in range(self.outputs)]
                          for i in ids}
        rng.shuffle(cols)
        self.cols = cols
        self.group = None
        self.pmode = rng.choice(['none', 'all', 'all', 'some'])
        self.fmode = rng.choice(['none', 'all', 'all', 'some'])
        self.pn = gen.nameList(rng, n, 'p', self.pmode)
        self.fn = gen.nameList(rng, len(cols), 'f', self.fmode)
        self.name = rng.choice([None, None, 'obj'])

    def x(self):
        return [[c[1][k] for c in self.cols] for k in range(self.n)]

    def y(self):
        return [self.label[i] for i in self.ids]

    def addGroup(self, rng):
        k = rng.randint(2, max(2, self.n - 1))
        form = rng.random()
        if form < .25:
            vals = [f'g{v}' for v in range(k)]
        elif form < .35: # a number and its text are different
            vals = [(v // 2 if v % 2 else str(v // 2)) for v in range(k)]
        elif form < .5: # not whole
            vals = [1 + v / 4 for v in range(k)]
        elif form < .6:
            vals = [-(v + 1) * 10 ** rng.randint(0, 12) for v in range(k)]
        else:
            vals = list(range(k))
        self.group = [vals[j % k] if j < 2 else rng.choice(vals)
                      for j in range(self.n)]
        rng.shuffle(self.group)
        if rng.random() < .4:
            for j in range(self.n):
                if rng.random() < .25 and len({
                        g for m, g in enumerate(self.group)
                        if m != j and g is not None}) > 1:
                    self.group[j] = None

    def objects(self, nimble, rng, form=None, group=None, learn=True):
        """X, the labels argument, the group argument. group: None, 'in' or
        'out' of X."""
        form = form or rng.choice(['object', 'object', 'index', 'name',
                                   'negative', 'list', 'npindex'])
        if learn and (self.outputs > 1 or form == 'list'):
            form = 'object'
        rows = [list(r) for r in self.x()]
        names = list(self.fn)
        extra = []
        if form != 'object':
            extra += [('y', o) for o in range(self.outputs)]
        if group == 'in':
            extra.append(('g', 0))
        order = list(range(len(rows[0]))) + extra
        rng.shuffle(order)
        full = [[rows[k][c] if isinstance(c, int) else
                 (self.label[self.ids[k]][c[1]] if c[0] == 'y' else
                  (NAN if self.group[k] is None else self.group[k]))
                 for c in order] for k in range(self.n)]
        fn = [names[c] if isinstance(c, int) else
              ('lab%d' % c[1] if c[0] == 'y' else 'grp') for c in order]
        byName = form == 'name' or (form == 'list' and rng.random() < .5)
        if any(f is not None for f in names) or byName:
            pass
        else:
            fn = [None] * len(fn)
        hasNames = any(f is not None for f in fn)
        self.xt = Table(full, self.pn, fn, len(fn))
        typ = rng.choice(typesFor(self.xt))
        if any(isinstance(v, str) for r in full for v in r):
            typ = rng.choice([t for t in typesFor(self.xt)
                              if t in ('List', 'DataFrame', 'Matrix')])
        self.typ = typ
        X = gen.build(nimble, self.xt, typ, gen.anyRoute(rng), rng)
        if not hasattr(X, '_source') and self.name:
            X.name = self.name
        pos = {c: j for j, c in enumerate(order)}
        if form == 'object':
            pn = self.pn if rng.random() < .6 else [None] * self.n
            yfn = [rng.choice([None, f'lab{o}']) for o in range(self.outputs)]
            self.yt = Table([list(r) for r in self.y()], pn, yfn,
                            self.outputs)
            Y = gen.build(nimble, self.yt, rng.choice(typesFor(self.yt)),
                          gen.anyRoute(rng), rng)
        else:
            ident = []
            for o in range(self.outputs):
                j = pos[('y', o)]
                if form == 'name' or (form == 'list' and byName):
                    ident.append(fn[j])
                elif form == 'negative':
                    ident.append(j - len(fn))
                elif form == 'npindex':
                    ident.append(np.int64(j))
                else:
                    ident.append(j)
            Y = ident if self.outputs > 1 or form == 'list' else ident[0]
        self.form = form
        G = None
        if group == 'in':
            j = pos[('g', 0)]
            G = fn[j] if hasNames and rng.random() < .5 else j
        elif group == 'out':
            t = Table([[NAN if g is None else g] for g in self.group],
                      [None] * self.n, [None], 1)
            G = gen.build(nimble, t, rng.choice(typesFor(t)),
                          gen.anyRoute(rng), rng)
        self.rest = [c for c in order if not (isinstance(c, tuple) and
                                              c[0] == 'y')]
        self.restFn = [fn[pos[c]] for c in self.rest]
        return X, Y, G

    def restRow(self, k):
        full = self.x()[k]
        return [full[c] if isinstance(c, int) else
                (NAN if self.group[k] is None else self.group[k])
                for c in self.rest]

    def where(self, i):
        return self.ids.index(i)


class Kept:
    """Objects given to a call: unchanged afterwards."""

    def __init__(self, ctx, **objs):
        self.ctx = ctx
        self.objs = {k: v for k, v in objs.items() if v is not None}
        self.before = {k: freeze(v) for k, v in self.objs.items()}

    def check(self, label):
        for k, v in self.objs.items():
            self.ctx.event('inputs_compared')
            d = frozenDiff(self.before[k], freeze(v))
            self.ctx.check(d is None, f'input-changed:{k}',
                           lambda: f'{label} changed {k}: {d}')


def alignedNames(ctx, key, label, data, ids, names):
    """The names of the points follow the points."""
    for i, nm in zip(ids, names):
        want = data.pn[data.where(i)]
        ctx.check(nm == want, key,
                  lambda: f'{label}: the point with id {i} is named {nm!r}, '
                          f'was {want!r}')


# -- trainAndTestSets --------------------------------------------------------

def identify(ctx, label, data, obj):
    ids = [rowId(r) for r in model.rawRows(obj)]
    for i in ids:
        ctx.check(isinstance(i, int) and i in data.ids, 'split:torn-point',
                  lambda: f'{label}: a point mixes values of different '
                          f'points: {i}')
    return ids


def kindSplit(ctx):
    rng, nimble = ctx.rng, ctx.nimble
    n = rng.choice([1, 2, 3, 4, 5, 6, 7, 9, 10, 13, 20])
    data = Data(rng, n=n)
    useLabels = rng.random() < .75
    X, Y, _ = data.objects(nimble, rng, None if useLabels else 'object',
                            learn=False)
    frac = rng.choice([0, 1, 0.0, 1.0, .5, .25, .2, .34, 1 / 3, .1, .9, .29,
                       .75, .99, .01, round(rng.random(), 3)])
    order = rng.random() < .6
    overlap = False
    if useLabels and data.form == 'object' and rng.random() < .35:
        # labels carrying names of features of X: those leave X
        if any(f is not None for f in data.fn):
            j = rng.randrange(data.outputs)
            nm = [f for f in data.fn if f is not None
                  and data.cols[data.fn.index(f)][0] != 'id']
            if nm:
                overlap = rng.choice(nm)
                Y = Y.copy()
                Y.features.setNames(overlap, j, useLog=False)
    kept = Kept(ctx, X=X, **({'labels': Y} if useLabels and
                             not isinstance(Y, (int, str, np.integer)) else {}))
    args = {'randomOrder': order} if not order or rng.random() < .5 else {}
    if useLabels:
        args['labels'] = Y
    label = (f'{data.typ} {data.n}x{len(data.restFn)} trainAndTestSets({frac}'
             f', labels={data.form if useLabels else None}, '
             f'randomOrder={order})')
    ctx.log(label)
    ctx.state('split', data.typ, data.form if useLabels else None, n, frac,
              order, bool(overlap))
    ret = must(ctx, 'split', label,
               lambda: X.trainAndTestSets(frac, useLog=False, **args))
    ctx.event('splits')
    kept.check(label)
    ctx.check(isinstance(ret, tuple) and len(ret) == (4 if useLabels else 2),
              'split:tuple', lambda: f'{label} returned {type(ret)} of '
                                     f'{len(ret)}')
    if useLabels:
        trX, trY, teX, teY = ret
    else:
        (trX, teX), trY, teY = ret, None, None
    ctx.check(len(trX.points) + len(teX.points) == n, 'split:number',
              lambda: f'{label}: {len(trX.points)} + {len(teX.points)} points')
    size = len(teX.points)
    ctx.check(abs(size - frac * n) <= .5 + 1e-9, 'split:proportion',
              lambda: f'{label}: {size} of {n} points in the testing set')
    base = data.name if data.name and X.name else None
    wantNames = ([f'{base}_{s}' for s in
                  (['trainX', 'trainY', 'testX', 'testY'] if useLabels else
                   ['train', 'test'])] if base else
                 (['trainX', 'trainY', 'testX', 'testY'] if useLabels else
                  ['train', 'test']))
    if X.name is None or base:
        ctx.check([r.name for r in ret] == wantNames, 'split:object-names',
                  lambda: f'{label}: sets named {[r.name for r in ret]}, '
                          f'expected {wantNames}')
    dropCol = None
    if overlap:
        dropCol = data.restFn.index(overlap)
    wantF = [f for j, f in enumerate(data.restFn) if j != dropCol]
    seen = []
    for which, sx, sy in (('train', trX, trY), ('test', teX, teY)):
        lab = f'{label} {which}X'
        ctx.check(len(sx.features) == len(wantF), 'split:features',
                  lambda: f'{lab} has {len(sx.features)} features, expected '
                          f'{len(wantF)}')
        ctx.check(list(sx.features.getNames()) == wantF,
                  'split:feature-names',
                  lambda: f'{lab} has features {sx.features.getNames()}, '
                          f'expected {wantF}')
        if sy is not None:
            ctx.check(sy.shape == (len(sx.points), data.outputs),
                      'split:label-shape',
                      lambda: f'{label}: {which}Y has shape {sy.shape}, '
                              f'{which}X {sx.shape}')
        if not len(sx.points):
            continue
        ids = identify(ctx, lab, data, sx)
        ctx.event('split_points', len(ids))
        seen += ids
        want = [[v for j, v in enumerate(data.restRow(data.where(i)))
                 if j != dropCol] for i in ids]
        got = model.rawRows(sx)
        ctx.check(model.sameRows(got, want), 'split:values',
                  lambda: f'{lab} holds {got}, expected {want}')
        alignedNames(ctx, 'split:point-names', lab, data, ids,
                     sx.points.getNames())
        if sy is not None:
            rows = model.rawRows(sy)
            for i, r in zip(ids, rows):
                ctx.check(model.sameRows([r], [data.label[i]]),
                          'split:label-alignment',
                          lambda: f'{label}: {which}Y gives point {i} the '
                                  f'labels {r}, its own are {data.label[i]}')
            if data.form == 'object':
                for i, nm in zip(ids, sy.points.getNames()):
                    want = data.yt.pn[data.where(i)]
                    ctx.check(nm == want, 'split:label-point-names',
                              lambda: f'{label}: {which}Y names point {i} '
                                      f'{nm!r}, was {want!r}')
            else:
                alignedNames(ctx, 'split:label-point-names', label, data, ids,
                             sy.points.getNames())
        if not order:
            at = [data.where(i) for i in ids]
            start = 0 if which == 'train' else n - size
            ctx.check(at == list(range(start, start + len(at))),
                      'split:order-kept',
                      lambda: f'{lab}: points at {at} with randomOrder=False')
    ctx.check(sorted(seen) == sorted(data.ids), 'split:partition',
              lambda: f'{label}: sets hold {sorted(seen)}, the points are '
                      f'{sorted(data.ids)}')
    for o in ret:
        bad = model.invariants(o)
        ctx.check(not bad, 'split:representation', lambda: f'{label}: {bad}')


def kindSplitRefused(ctx):
    """Fractions outside [0, 1] and labels that do not belong to the data."""
    rng, nimble = ctx.rng, ctx.nimble
    data = Data(rng, n=rng.randint(2, 7))
    X, Y, _ = data.objects(nimble, rng, 'object', learn=False)
    how = rng.choice(['fraction', 'length', 'names', 'missing'])
    frac, labels = .5, Y
    if how == 'fraction':
        frac = rng.choice([-.1, 1.5, 2, -1])
    elif how == 'length':
        labels = nimble.data([[0]] * (data.n + rng.choice([-1, 1, 3])),
                             useLog=False)
    elif how == 'names':
        if data.pmode != 'all':
            raise Skip('names')
        pn = list(data.pn)
        pn = pn[1:] + pn[:1]
        labels = nimble.data([[v] for v in range(data.n)], pointNames=pn,
                             useLog=False)
    else:
        labels = rng.choice(['no such feature', 99, [0, 'nothing']])
    kept = Kept(ctx, X=X)
    label = f'{data.typ} trainAndTestSets refusing {how} ({frac})'
    ctx.log(label)
    ctx.state('refused', how, data.typ)
    try:
        X.trainAndTestSets(frac, labels, useLog=False)
        ok = None
    except Exception as e:
        ok = e
    ctx.event('refused')
    ctx.check(ok is not None, f'split:accepted-{how}',
              lambda: f'{label}: accepted')
    kept.check(label)


def kindCube(ctx):
    """Splits of data with more than two dimensions."""
    rng, nimble = ctx.rng, ctx.nimble
    n = rng.randint(1, 8)
    d = (rng.randint(1, 3), rng.randint(1, 3))
    raw = [[[1000 * (p + 1) + 10 * r + c for c in range(d[1])]
            for r in range(d[0])] for p in range(n)]
    pn = [f'p{i}' for i in range(n)] if rng.random() < .5 else None
    X = nimble.data(raw, pointNames=pn or False, useLog=False,
                    returnType=rng.choice(gen.TYPES))
    Y = nimble.data([[p + 1] for p in range(n)], useLog=False) \
        if rng.random() < .6 else None
    frac = rng.choice([0, 1, .5, .25, .3, .8])
    order = rng.random() < .5
    kept = Kept(ctx, X=X)
    label = f'{X.dimensions} trainAndTestSets({frac}, randomOrder={order})'
    ctx.log(label)
    ctx.state('cube', n, d, frac, order, Y is None)
    ret = must(ctx, 'cube', label, lambda: X.trainAndTestSets(
        frac, Y, order, useLog=False))
    kept.check(label)
    xs = (ret[0], ret[2]) if Y is not None else ret
    ys = (ret[1], ret[3]) if Y is not None else (None, None)
    seen = []
    ctx.event('splits')
    for sx, sy in zip(xs, ys):
        ctx.check(list(sx.dimensions) == [len(sx.points)] + list(d),
                  'cube:dimensions', lambda: f'{label}: a set has dimensions '
                                             f'{sx.dimensions}')
        if not len(sx.points):
            continue
        got = sx.copy('pythonlist')
        for k, p in enumerate(got):
            i = p[0][0] // 1000
            seen.append(i)
            ctx.check(p == raw[i - 1], 'cube:values',
                      lambda: f'{label}: {p} is no point of the data')
            if sy is not None:
                ctx.check(sy[k, 0] == i, 'cube:label-alignment',
                          lambda: f'{label}: label {sy[k, 0]} for point {i}')
            if pn:
                nm = sx.points.getName(k)
                ctx.check(nm == pn[i - 1], 'cube:point-names',
                          lambda: f'{label}: point {i} is named {nm}')
    ctx.check(sorted(seen) == list(range(1, n + 1)), 'split:partition',
              lambda: f'{label}: sets hold {sorted(seen)} of {n} points')


def kindReach(ctx):
    """Random orders really assign every point to either set."""
    rng, nimble = ctx.rng, ctx.nimble
    n = rng.randint(3, 6)
    X = nimble.data([[1000 + i] for i in range(n)], useLog=False,
                    returnType=rng.choice(gen.TYPES))
    tested = {i: 0 for i in range(n)}
    for _ in range(80):
        tr, te = X.trainAndTestSets(.5, useLog=False)
        for r in model.rawRows(te):
            tested[r[0] - 1000] += 1
    ctx.event('split_points', 80)
    ctx.state('reach', n)
    bad = [i for i, c in tested.items() if c in (0, 80)]
    ctx.check(not bad, 'split:not-random',
              lambda: f'80 splits of {n} points: points {bad} never changed '
                      f'set')


# -- validation of learners --------------------------------------------------

def perfFor(rng, nimble, data):
    names = ['recorded', 'closeness']
    if data.outputs == 1:
        if data.kind == 'c':
            names += ['fractionIncorrect', 'fractionCorrect'] * 2
        else:
            names += ['meanAbsoluteError', 'rootMeanSquareError'] * 2
    name = rng.choice(names)
    return name, STATE['perf'].get(name) or getattr(nimble.calculate, name)


def near(a, b):
    return abs(a - b) <= 1e-7 * max(1, abs(b))


class Pass:
    """The recorded events of one validation of one argument set."""

    def __init__(self, ctx, label, data, events):
        self.ctx, self.label, self.data = ctx, label, data
        self.folds = []
        it = iter(events)
        for tr in it:
            te = next(it, None)
            ctx.check(tr['event'] == 'train' and te is not None
                      and te['event'] == 'apply'
                      and te['trained'] is tr['ids'], 'folds:event-order',
                      lambda: f'{label}: recorded events do not alternate '
                              f'between training and applying: '
                              f'{[e["event"] for e in events]}')
            self.folds.append((tr, te))
        self.calls()

    def calls(self):
        """Every call saw whole, aligned points."""
        ctx, data = self.ctx, self.data
        for tr, te in self.folds:
            ctx.event('folds')
            ctx.event('train_calls')
            ctx.event('points_tested', len(te['ids']))
            for e in (tr, te):
                for i, row, nm in zip(e['ids'], e['rows'], e['pn']):
                    ctx.check(isinstance(i, int) and i in data.ids,
                              'folds:torn-point',
                              lambda: f'{self.label}: {e["event"]} got a '
                                      f'point mixing others: {i}')
                    want = data.restRow(data.where(i))
                    ctx.check(model.sameRows([row], [want]), 'folds:values',
                              lambda: f'{self.label}: {e["event"]} got {row} '
                                      f'for point {i}, which is {want}')
                    ctx.check(nm is None or nm == data.pn[data.where(i)],
                              'folds:point-names',
                              lambda: f'{self.label}: {e["event"]} got point '
                                      f'{i} named {nm}')
            for i, r in zip(tr['ids'], tr['y']):
                ctx.check(model.sameRows([r], [data.label[i]]),
                          'folds:label-alignment',
                          lambda: f'{self.label}: trained on the labels {r} '
                                  f'for point {i}, its own are '
                                  f'{data.label[i]}')
            both = set(tr['ids']) & set(te['ids'])
            ctx.check(not both, 'folds:leak',
                      lambda: f'{self.label}: points {sorted(both)} trained '
                              f'on and tested in one fold')
            ctx.check(len(set(tr['ids'])) == len(tr['ids']),
                      'folds:trained-twice',
                      lambda: f'{self.label}: points {tr["ids"]} repeat in a '
                              f'training set')

    def cross(self, expect, folds=None, groups=None):
        """Cross validation of the points in expect."""
        ctx, label = self.ctx, self.label
        tested = [i for _, te in self.folds for i in te['ids']]
        ctx.check(sorted(tested) == sorted(expect), 'folds:tested-once',
                  lambda: f'{label}: tested {sorted(tested)}, the points are '
                          f'{sorted(expect)}')
        for tr, te in self.folds:
            ctx.check(sorted(tr['ids'] + te['ids']) == sorted(expect),
                      'folds:partition',
                      lambda: f'{label}: a fold trains on {sorted(tr["ids"])} '
                              f'and tests {sorted(te["ids"])} of '
                              f'{sorted(expect)}')
        sizes = [len(te['ids']) for _, te in self.folds]
        if folds is not None:
            ctx.check(len(sizes) == folds, 'folds:number',
                      lambda: f'{label}: {len(sizes)} folds, asked for '
                              f'{folds}')
            ctx.check(max(sizes) - min(sizes) <= 1, 'folds:sizes',
                      lambda: f'{label}: fold sizes {sizes}')
        if groups is not None:
            got = sorted(sorted(te['ids']) for _, te in self.folds)
            ctx.event('groups', len(got))
            ctx.check(got == sorted(groups), 'folds:groups',
                      lambda: f'{label}: folds {got}, groups '
                              f'{sorted(groups)}')

    def values(self, name):
        """Performance over all the predictions and for each fold."""
        data = self.data
        known, pred, deep = [], [], []
        for tr, te in self.folds:
            k = [data.label[i] for i in te['ids']]
            p = [guess(i, te['arg'], data.kind, data.outputs)
                 for i in te['ids']]
            known += k
            pred += p
            deep.append(reference(name, k, p))
        return reference(name, known, pred), deep


def learnerFor(rng):
    return STATE['learner']


def checkPairs(ctx, label, data, arg=None):
    """Performance functions were given each label with its prediction."""
    pairs = {}
    for i in data.ids:
        pairs.setdefault(tuple(data.label[i]), set())
        for a in ([arg] if arg is not None else range(6)):
            pairs[tuple(data.label[i])].add(
                tuple(guess(i, a, data.kind, data.outputs)))
    for known, pred in PERF:
        ctx.check(len(known) == len(pred), 'performance:lengths',
                  lambda: f'{label}: the performance function got '
                          f'{len(known)} labels and {len(pred)} predictions')
        for k, p in zip(known, pred):
            ctx.check(tuple(p) in pairs.get(tuple(k), ()),
                      'performance:pairing',
                      lambda: f'{label}: the performance function got the '
                              f'label {k} with {p}, predicted for another '
                              f'point')


def kindTraining(ctx):
    """trainAndTestOnTrainingData with and without folds."""
    rng, nimble = ctx.rng, ctx.nimble
    data = Data(rng)
    X, Y, _ = data.objects(nimble, rng)
    name, perf = perfFor(rng, nimble, data)
    k = rng.choice([None, 2, 3, data.n, rng.randint(2, data.n)])
    arg = rng.randint(1, 5)
    kept = Kept(ctx, X=X, Y=None if isinstance(Y, (int, str, np.integer)) else Y)
    learner = learnerFor(rng)
    label = (f'{data.typ} {data.n} points trainAndTestOnTrainingData({name}, '
             f'{data.form}, crossValidationFolds={k})')
    ctx.log(label)
    ctx.state('training', data.typ, data.form, data.n, k, name)
    bad = k is not None and k > data.n
    LOG.clear()
    PERF.clear()
    kw = {'randomSeed': rng.randint(1, 999)} if rng.random() < .5 else {}
    st, res = call(ctx, lambda: quiet(
        nimble.trainAndTestOnTrainingData, learner, perf, X, Y,
        crossValidationFolds=k, arguments={'arg': arg}, useLog=False, **kw))
    kept.check(label)
    if st == 'exc':
        ctx.check(bad, f'training:raises-{type(res).__name__}',
                  lambda: f'{label} raised {type(res).__name__}: {res} (in '
                          f'{where(res)})')
        ctx.event('refused')
        return
    ctx.check(not bad, 'training:accepted-folds', lambda: f'{label}: accepted')
    first = LOG[0]
    ctx.check(sorted(first['ids']) == sorted(data.ids), 'training:all-points',
              lambda: f'{label}: first trained on {sorted(first["ids"])}')
    ctx.check(all(e['arg'] == arg for e in LOG), 'training:arguments',
              lambda: f'{label}: trained with {[e["arg"] for e in LOG]}, '
                      f'asked for {arg}')
    if k is None:
        te = [e for e in LOG if e['event'] == 'apply']
        ctx.check(len(te) == 1 and sorted(te[0]['ids']) == sorted(data.ids),
                  'training:tested-all',
                  lambda: f'{label}: applied to {[e["ids"] for e in te]}')
        known = [data.label[i] for i in te[0]['ids']]
        pred = [guess(i, arg, data.kind, data.outputs)
                for i in te[0]['ids']]
        want = reference(name, known, pred)
    else:
        # the training on everything comes first, the folds after it
        events = LOG[2:]
        run = Pass(ctx, label, data, events)
        run.cross(data.ids, folds=k)
        want, _ = run.values(name)
    ctx.event('performance_checked')
    ctx.check(near(res, want), 'training:performance',
              lambda: f'{label} = {res}, the recorded predictions give '
                      f'{want}')
    checkPairs(ctx, label, data, arg)


def tuningFor(ctx, data, X, Y, G, perf, how):
    """Arguments of a Tuning object for the validation how, and a judge of a
    pass."""
    rng, nimble = ctx.rng, ctx.nimble
    kw = {}
    if how == 'cross validation':
        k = rng.choice([2, 3, 5, rng.randint(2, data.n)])
        if k == 5 and rng.random() < .5:
            pass
        else:
            kw['folds'] = k
        return kw, k <= data.n, lambda p: p.cross(data.ids, folds=k)
    if how == 'leave one out':
        return kw, True, lambda p: p.cross(data.ids, folds=data.n)
    if how == 'leave one group out':
        kw['foldFeature'] = G
        groups = {}
        for i, g in zip(data.ids, data.group):
            if g is not None:
                groups.setdefault(g, []).append(i)
        groups = [sorted(g) for g in groups.values()]
        keep = [i for g in groups for i in g]
        return kw, True, lambda p: p.cross(keep, groups=groups)
    raise KeyError(how)


def finalTraining(ctx, label, data, learner, key):
    """The learner returned knows all of the training data."""
    size = len(LOG)
    x = [data.restRow(k) for k in range(data.n)]
    learner.apply(ctx.nimble.data(x, useLog=False), useLog=False)
    last = LOG[-1]
    del LOG[size:]
    ctx.check(sorted(last['trained']) == sorted(data.ids),
              f'{key}:final-training',
              lambda: f'{label}: the learner returned was trained on '
                      f'{sorted(last["trained"])}')
    best = learner.tuning.bestArguments['arg']
    ctx.check(last['arg'] == best, f'{key}:final-arguments',
              lambda: f'{label}: the learner returned was trained with '
                      f'arg={last["arg"]}, the best is {best}')


def kindFolds(ctx):
    """Cross validations while searching for arguments."""
    rng, nimble = ctx.rng, ctx.nimble
    how = rng.choice(['cross validation', 'cross validation', 'leave one out',
                      'leave one group out', 'leave one group out'])
    data = Data(rng, n=rng.choice([3, 4, 5, 6, 7, 9, 10, 12]))
    group = None
    if how == 'leave one group out':
        data.addGroup(rng)
        group = rng.choice(['in', 'out'])
    X, Y, G = data.objects(nimble, rng, group=group)
    name, perf = perfFor(rng, nimble, data)
    kw, fine, judge = tuningFor(ctx, data, X, Y, G, perf, how)
    args = sorted(rng.sample(range(6), rng.randint(1, 3)))
    rng.shuffle(args)
    kept = Kept(ctx, X=X, Y=None if isinstance(Y, (int, str, np.integer)) else Y,
                G=None if isinstance(G, (int, str, np.integer)) else G)
    label = (f'{data.typ} {data.n} points tuning by {how} {kw if group != "out" else ""}'
             f' labels={data.form} group={group} {name}')
    ctx.log(label)
    ctx.state(how, data.typ, data.form, data.n, group, name, len(args),
              kw.get('folds'))
    validation = how if rng.random() < .7 else how.replace(
        ' ', rng.choice(['-', '']))
    tuning = nimble.Tuning(selection='brute force', validation=validation,
                           performanceFunction=perf, **kw)
    LOG.clear()
    PERF.clear()
    seed = {'randomSeed': rng.randint(1, 999)} if rng.random() < .5 else {}
    st, res = call(ctx, lambda: quiet(
        nimble.train, learnerFor(rng), X, Y,
        arguments={'arg': nimble.Tune(args) if len(args) > 1 else args[0],
                   'other': nimble.Tune([1]) if len(args) == 1 else 0},
        tuning=tuning, useLog=False, **seed))
    kept.check(label)
    if st == 'exc':
        ctx.check(not fine, f'folds:raises-{type(res).__name__}',
                  lambda: f'{label} raised {type(res).__name__}: {res} (in '
                          f'{where(res)})')
        ctx.event('refused')
        return
    ctx.check(fine, 'folds:accepted-number', lambda: f'{label}: accepted')
    LOG.pop() if LOG[-1]['event'] == 'train' else None
    finalTraining(ctx, label, data, res, 'folds')
    t = res.tuning
    found = {}
    for a in args:
        run = Pass(ctx, f'{label} arg={a}', data,
                   [e for e in LOG if e['arg'] == a])
        judge(run)
        found[a] = run.values(name)
    ctx.check(len(t.allArguments) == len(args), 'folds:results',
              lambda: f'{label}: {len(t.allArguments)} results for '
                      f'{len(args)} argument sets')
    ctx.check(len(t.deepResults) == len(args), 'folds:deep-results',
              lambda: f'{label}: {len(t.deepResults)} deep results')
    for a, r, deep in zip(t.allArguments, t.allResults, t.deepResults):
        want, wantDeep = found[a['arg']]
        ctx.event('performance_checked')
        ctx.check(near(r, want), 'folds:performance',
                  lambda: f'{label}: recorded performance {r} for {a}, the '
                          f'recorded predictions give {want}')
        ctx.check(len(deep) == len(wantDeep) and
                  all(near(x, y) for x, y in zip(deep, wantDeep)),
                  'folds:deep-performance',
                  lambda: f'{label}: performances of the folds {deep}, the '
                          f'recorded predictions give {wantDeep}')
    checkPairs(ctx, label, data)


def kindHoldout(ctx):
    """Holdout data and holdout proportion."""
    rng, nimble = ctx.rng, ctx.nimble
    prop = rng.random() < .5
    name = None
    data = Data(rng, n=rng.choice([4, 5, 6, 8, 10, 14, 20]))
    X, Y, _ = data.objects(nimble, rng)
    pname, perf = perfFor(rng, nimble, data)
    nArgs = rng.randint(1, 3)
    args = rng.sample(range(6), nArgs)
    kw, objs = {}, {}
    if prop:
        p = rng.choice([.2, .25, .5, .3, .75, .9, None])
        if p is None:
            kw = {'validation': 'proportion'}
            p = .2
        elif rng.random() < .5:
            kw = {'validation': p}
        else:
            kw = {'validation': 'proportion', 'proportion': p}
        number = p * data.n
        fine = int(number + 1e-9) >= 1 and number < data.n
    else:
        other = Data(rng, n=rng.randint(1, 8), text=data.text,
                     outputs=data.outputs)
        # the same columns and label rules for the second set
        other.kind, other.cols = data.kind, []
        other.ids = rng.sample(range(2000, 2100), other.n)
        for c, v in data.cols:
            other.cols.append((c, other.ids if c == 'id' else
                               [i * 100 for i in other.ids] if c == 'idx'
                               else [rng.choice(v) for _ in other.ids]))
        if data.kind == 'c':
            other.label = {i: [data.classes[(i + 2 * o) % 3]
                               for o in range(data.outputs)]
                           for i in other.ids}
        else:
            other.label = {i: [i % 10 + o * 3 for o in range(data.outputs)]
                           for i in other.ids}
        STATE.update(kind=data.kind, classes=data.classes)
        full = []
        xf = [c for c in data.rest]
        vx = [[other.x()[k][c] for c in xf] for k in range(other.n)]
        vfn = list(data.restFn)
        vy = [other.label[i] for i in other.ids]
        form = rng.choice(['object', 'inside', 'default'])
        if data.form == 'object' and form == 'default':
            form = 'object'
        if form == 'default':
            # the same place as in the training data
            at = Y if isinstance(Y, list) else [Y]
            cols = {}
            for o, a in enumerate(at):
                j = data.xt.fn.index(a) if isinstance(a, str) else \
                    a % data.xt.nf
                cols[j] = o
            rest = iter(range(len(xf)))
            plan = [('y', cols[j]) if j in cols else ('x', next(rest))
                    for j in range(data.xt.nf)]
            vrows = [[vy[k][c] if t == 'y' else vx[k][c] for t, c in plan]
                     for k in range(other.n)]
            vt = Table(vrows, [None] * other.n, data.xt.fn, data.xt.nf)
            vY = None
        elif form == 'inside':
            vrows = [vx[k] + vy[k] for k in range(other.n)]
            vt = Table(vrows, [None] * other.n,
                       vfn + ['vlab%d' % o for o in range(data.outputs)],
                       len(vrows[0]))
            pick = [len(xf) + o if rng.random() < .5 else 'vlab%d' % o
                    for o in range(data.outputs)]
            vY = pick if data.outputs > 1 else pick[0]
        else:
            vt = Table(vx, other.pn, vfn, len(xf))
            vyt = Table(vy, [None] * other.n, [None] * data.outputs,
                        data.outputs)
            vY = gen.build(nimble, vyt, rng.choice(typesFor(vyt)),
                           gen.anyRoute(rng), rng)
            objs['validateY'] = vY
        vX = gen.build(nimble, vt, rng.choice(typesFor(vt)),
                       gen.anyRoute(rng), rng)
        objs['validateX'] = vX
        kw = {'validation': 'data', 'validateX': vX}
        if vY is not None or rng.random() < .5:
            kw['validateY'] = vY
        fine = True
    kept = Kept(ctx, X=X, Y=None if isinstance(Y, (int, str, np.integer)) else Y, **objs)
    label = (f'{data.typ} {data.n} points holdout '
             f'{p if prop else form} labels={data.form} {pname}')
    ctx.log(label)
    ctx.state('holdout', prop, data.typ, data.form, data.n, pname, len(args),
              None if prop else form)
    tuning = nimble.Tuning(selection=rng.choice(['brute force',
                                                 'consecutive']),
                           performanceFunction=perf, **kw)
    LOG.clear()
    PERF.clear()
    seed = {'randomSeed': rng.randint(1, 999)} if rng.random() < .5 else {}
    st, res = call(ctx, lambda: quiet(
        nimble.train, learnerFor(rng), X, Y,
        arguments={'arg': nimble.Tune(args) if len(args) > 1 else args[0],
                   'other': nimble.Tune([1]) if len(args) == 1 else 0},
        tuning=tuning, useLog=False, **seed))
    kept.check(label)
    if st == 'exc':
        ctx.check(not fine, f'holdout:raises-{type(res).__name__}',
                  lambda: f'{label} raised {type(res).__name__}: {res} (in '
                          f'{where(res)})')
        ctx.event('refused')
        return
    ctx.event('holdout')
    finalTraining(ctx, label, data, res, 'holdout')
    t = res.tuning
    got = {a['arg']: r for a, r in zip(t.allArguments, t.allResults)}
    ctx.check(sorted(got) == sorted(args), 'holdout:results',
              lambda: f'{label}: results for {sorted(got)}, asked for '
                      f'{sorted(args)}')
    for a in args:
        # a search may need no second training for one argument set
        events = [e for e in LOG if e['arg'] == a]
        trains = [e for e in events if e['event'] == 'train']
        tests = [e for e in events if e['event'] == 'apply']
        ctx.event('train_calls', len(trains))
        ctx.check(trains and tests, 'holdout:events',
                  lambda: f'{label}: {len(trains)} trainings and '
                          f'{len(tests)} applications for arg={a}')
        for e in tests:
            source = data if prop else other
            tr = sorted(e['trained'])
            te = sorted(e['ids'])
            ctx.event('points_tested', len(te))
            if prop:
                ctx.check(sorted(tr + te) == sorted(data.ids),
                          'holdout:partition',
                          lambda: f'{label}: trained on {tr} and tested {te} '
                                  f'of {sorted(data.ids)}')
                ctx.check(abs(len(te) - number) < 1, 'holdout:proportion',
                          lambda: f'{label}: {len(te)} of {data.n} points '
                                  f'held out')
            else:
                ctx.check(tr == sorted(data.ids), 'holdout:trained-on',
                          lambda: f'{label}: trained on {tr}, the training '
                                  f'data is {sorted(data.ids)}')
                ctx.check(te == sorted(other.ids), 'holdout:tested-on',
                          lambda: f'{label}: tested {te}, the validation '
                                  f'data is {sorted(other.ids)}')
            known = [source.label[i] for i in e['ids']]
            pred = [guess(i, a, data.kind, data.outputs) for i in e['ids']]
            want = reference(pname, known, pred)
            ctx.event('performance_checked')
            ctx.check(near(got[a], want), 'holdout:performance',
                      lambda: f'{label}: recorded performance {got[a]} for '
                              f'arg={a}, the recorded predictions give '
                              f'{want}')
        for e in trains:
            for i, r in zip(e['ids'], e['y']):
                ctx.check(model.sameRows([r], [data.label[i]]),
                          'holdout:label-alignment',
                          lambda: f'{label}: trained on the labels {r} for '
                                  f'point {i}, its own are {data.label[i]}')


def kindRefused(ctx):
    """Numbers of folds and groups that cannot be used."""
    rng, nimble = ctx.rng, ctx.nimble
    data = Data(rng, n=rng.randint(2, 6))
    how = rng.choice(['zero', 'negative', 'many', 'same', 'none', 'length',
                      'proportion'])
    group = 'in' if how == 'same' else None
    if group:
        data.addGroup(rng)
    form = rng.choice(['index', 'name']) if how == 'same' else None
    X, Y, G = data.objects(nimble, rng, form, group=group)
    kw = {'validation': 'cross validation'}
    if how == 'zero':
        kw['folds'] = 0
    elif how == 'negative':
        kw['folds'] = -rng.randint(1, 3)
    elif how == 'many':
        kw['folds'] = data.n + rng.randint(1, 3)
    elif how == 'same':
        kw = {'validation': 'leave one group out', 'foldFeature': Y}
    elif how == 'none':
        kw = {'validation': 'leave one group out'}
    elif how == 'length':
        kw = {'validation': 'leave one group out',
              'foldFeature': nimble.data([[0], [1]] * data.n, useLog=False)}
    else:
        kw = {'validation': rng.choice([0.0, 1.0, 1.5, -.2])}
    label = f'{data.n} points validation refusing {how}'
    ctx.log(label)
    ctx.state('refused', how, data.n)
    kept = Kept(ctx, X=X, Y=None if isinstance(Y, (int, str, np.integer)) else Y)
    name, perf = perfFor(rng, nimble, data)
    LOG.clear()
    try:
        quiet(nimble.train, learnerFor(rng), X, Y,
              arguments={'arg': nimble.Tune([1, 2])},
              tuning=nimble.Tuning('brute force', performanceFunction=perf,
                                   **kw), useLog=False)
        ok = None
    except Exception as e:
        ok = e
    ctx.event('refused')
    ctx.check(ok is not None, f'folds:accepted-{how}',
              lambda: f'{label}: accepted')
    ctx.check(not LOG, f'folds:trained-before-refusal-{how}',
              lambda: f'{label}: trained {len(LOG)} times before refusing')
    kept.check(label)


KINDS = [('split', 6, kindSplit), ('splitRefused', 2, kindSplitRefused),
         ('cube', 1, kindCube), ('reach', .2, kindReach),
         ('training', 4, kindTraining), ('folds', 6, kindFolds),
         ('holdout', 4, kindHoldout), ('refused', 2, kindRefused)]
ASSUMPTIONS = ['the recording learner is a CustomLearner: what it is given '
               'stands for what any learner is given',
               'the number of points held out by a proportion may be rounded '
               'either way']
LEVEL = 'runtime monitor: offline checker over recorded training events'
PROBES = {}
