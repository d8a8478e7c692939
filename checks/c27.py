"""The catalogue of learners and parameters tells the truth."""
import contextlib
import inspect
import io
import warnings

import numpy as np

from vlib.runner import where
from checks.common import call, freeze

PROPERTY = 'C27'
RULE = ('every learner of scikit-learn, keras and nimble and user defined '
        'learners of random signatures; every spelling (package aliases, '
        'class objects, lists of learners); answers compared with the '
        'signatures in the packages read independently, printed forms with '
        'the answers; random subsets of arguments given in the dictionary '
        'or by keyword, defaults given explicitly, nested Init objects, '
        'unknown and missing arguments; user learners redefined under the '
        'same name; non-trivial: distinct (learner or signature, form, '
        'outcome)')
QUICK = {'cases': 3600, 'seconds': 90}
THOROUGH = {'cases': 60000, 'seconds': 800}
CASE_SECONDS = 60
MIN = {'calls': 10000, 'calls_recorded': 1100, 'defaults_compared': 4000,
       'defaults_given': 180, 'learners_described': 550,
       'nested_objects': 70, 'printed_defaults': 5500, 'refused': 550,
       'types_compared': 400, 'user_learners': 750}
PROBES = ['what a learner is given, recorded by user defined learners']
ASSUMPTIONS = ['inspect.signature describes the methods of the packages',
               'a parameter accepted by two methods with different defaults '
               'has no single documented default']

ALIASES = {'sklearn': ['sklearn', 'skl', 'scikit-learn', 'scikitlearn', 'SKL',
                       'SciKitLearn'],
           'keras': ['keras', 'Keras', 'tf.keras', 'tensorflow.keras'],
           'nimble': ['nimble']}
RESERVED = {'self', 'X', 'x', 'Y', 'y', 'obs', 'T', 'raw_documents'}
SHARED = {}


def setup(nimble):
    warnings.simplefilter('ignore')
    from sklearn.utils import all_estimators
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        nimble.learnerNames()
        SHARED['skl'] = dict(all_estimators())
        SHARED['listed'] = {p: list(nimble.learnerNames(p)) for p in
                            ['sklearn', 'nimble', 'keras']}


def sameValue(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    try:
        if a != a and b != b:
            return True
        return bool(a == b)
    except Exception:                                    # noqa: BLE001
        return repr(a) == repr(b)


def sklearnTruth(name):
    """{parameter: the set of defaults of the methods which accept it}"""
    cls = SHARED['skl'][name]
    has = [m for m in ('predict', 'transform', 'fit_predict', 'fit_transform')
           if hasattr(cls, m)]
    methods = {'predict': ['fit', 'predict'], 'transform': ['fit', 'transform'],
               'fit_predict': ['fit_predict'],
               'fit_transform': ['fit_transform']}[has[0]]
    out = {}
    # the class accepts what its constructor stores; the estimators nested in
    # it have their own, with two underscores
    for p, v in cls().get_params().items():
        out[p] = [v]
    first = set(out)
    for m in methods:
        for p in inspect.signature(getattr(cls, m)).parameters.values():
            if p.name in RESERVED or p.kind in (p.VAR_KEYWORD,
                                                p.VAR_POSITIONAL,
                                                p.KEYWORD_ONLY):
                continue
            if p.name == 'random_state' and p.name not in first:
                continue
            out.setdefault(p.name, []).append(p.default)
    return out


def truthType(name):
    from sklearn import base
    cls = SHARED['skl'][name]
    for mixin, kind in ((base.ClusterMixin, 'cluster'),
                        (base.ClassifierMixin, 'classification'),
                        (base.RegressorMixin, 'regression'),
                        (base.TransformerMixin, 'transformation')):
        if issubclass(cls, mixin):
            return kind
    return None


def printed(ctx, key, func, *args):
    out = io.StringIO()

    def go():
        with contextlib.redirect_stdout(out):
            return func(*args)
    st, res = call(ctx, go)
    if st == 'exc':
        ctx.violation(f'{key}:raises-{type(res).__name__}',
                      f'{func.__name__}{args} raised {res} '
                      f'(in {where(res)})')
    return out.getvalue()


def must(ctx, key, label, func):
    st, res = call(ctx, func)
    if st == 'exc':
        ctx.violation(f'{key}:raises-{type(res).__name__}',
                      f'{label} raised {res} (in {where(res)})')
    return res


def catalogue(ctx):
    """what is told about one of the available learners"""
    rng, nimble = ctx.rng, ctx.nimble
    pack = rng.choice(['sklearn'] * 6 + ['nimble', 'keras'])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        listed = must(ctx, 'names', f'learnerNames({pack!r})', lambda:
                      nimble.learnerNames(rng.choice(ALIASES[pack])))
        ctx.check(listed == SHARED['listed'][pack], f'names:{pack}:changed',
                  lambda: f'learnerNames({pack!r}) is no longer what it was: '
                  f'{set(listed) ^ set(SHARED["listed"][pack])}')
        ctx.check(len(set(listed)) == len(listed) and all(
            isinstance(n, str) for n in listed), f'names:{pack}:unique',
            lambda: 'learnerNames has duplicates')
        name = rng.choice(listed)
        spell = f'{rng.choice(ALIASES[pack])}.{name}' if pack != 'keras' else \
            f'{rng.choice(ALIASES[pack][:2])}.{name}'
        obj = spell
        if pack == 'sklearn' and rng.random() < .3:
            obj = SHARED['skl'][name]
        label = f'{obj}'
        ctx.log(label)
        key = f'{pack}:{name}'
        params = must(ctx, key, f'learnerParameters({label})',
                      lambda: nimble.learnerParameters(obj))
        defs = must(ctx, key, f'learnerParameterDefaults({label})',
                    lambda: nimble.learnerParameterDefaults(obj))
        kind = must(ctx, key, f'learnerType({label})',
                    lambda: nimble.learnerType(obj))
        ctx.state(pack, name, type(obj).__name__)
        ctx.event('learners_described')
        ctx.check(isinstance(params, list) and params == sorted(set(params)),
                  key + ':parameters-form', lambda: f'learnerParameters('
                  f'{label}) is {params}')
        ctx.check(isinstance(defs, dict) and set(defs) <= set(params),
                  key + ':defaults-form', lambda: 'defaults of unknown '
                  f'parameters {set(defs) - set(params)} for {label}')
        if pack == 'sklearn':
            truth = sklearnTruth(name)
            ctx.check(set(params) == set(truth), key + ':parameters', lambda:
                      f'learnerParameters({label}) differs from the methods: '
                      f'{set(params) ^ set(truth)}')
            for p, ds in truth.items():
                if p in defs:
                    ctx.check(any(sameValue(defs[p], d) or
                                  repr(defs[p]) == repr(d) for d in ds),
                              key + ':default', lambda: f'the default of {p} '
                              f'of {label} is {ds}, not {defs[p]!r}')
                    ctx.event('defaults_compared')
                else:
                    ctx.check(inspect._empty in ds, key + ':no-default',
                              lambda: f'no default for {p} of {label}')
            want = truthType(name)
            if want is not None:
                ctx.check(kind == want, key + ':type', lambda: f'learnerType('
                          f'{label}) is {kind}, not {want}')
                ctx.event('types_compared')
        # the answers belong to whoever asked
        before = (freeze(sorted(params)), sorted(map(repr, defs.items())))
        params.append('intruder')
        listed.append('intruder')
        defs['intruder'] = 1
        again = (must(ctx, key, label, lambda: nimble.learnerParameters(obj)),
                 must(ctx, key, label,
                      lambda: nimble.learnerParameterDefaults(obj)))
        ctx.check((freeze(sorted(again[0])),
                   sorted(map(repr, again[1].items()))) == before,
                  key + ':isolated', lambda: f'modifying the answers about '
                  f'{label} changed the next ones')
        # printed forms
        text = printed(ctx, 'show', nimble.showLearnerParameters, obj)
        ctx.check(text.split() == again[0], key + ':show-parameters',
                  lambda: f'showLearnerParameters({label}) printed {text!r}')
        text = printed(ctx, 'show', nimble.showLearnerParameterDefaults, obj)
        rows = {line.split()[0]: line for line in text.splitlines()
                if line.split()}
        if not any('\n' in repr(v) or '\n' in str(v)
                   for v in again[1].values()):
            ctx.check(set(rows) == set(again[1]), key + ':show-defaults',
                      lambda: f'showLearnerParameterDefaults({label}) printed '
                      f'{text!r}')
            for p, v in again[1].items():
                if isinstance(v, (str, bool, int, type(None))):
                    want = f"'{v}'" if isinstance(v, str) else str(v)
                    ctx.check(rows[p].split(None, 1)[1].strip() == want,
                              key + ':show-default', lambda: f'{p}={v!r} is '
                              f'printed {rows[p]!r}')
                    ctx.event('printed_defaults')
        if rng.random() < .1:
            text = printed(ctx, 'show', nimble.showLearnerNames, pack)
            ctx.check(text.split() == SHARED['listed'][pack],
                      f'{pack}:show-names', lambda: 'showLearnerNames('
                      f'{pack!r}) printed {text[:200]!r}')
        if rng.random() < .2:
            # several at once, in the order asked for
            several = [f'sklearn.{n}' for n in
                       rng.sample(SHARED['listed']['sklearn'], 3)]
            several += rng.sample(['nimble.RidgeRegression',
                                   'nimble.KNNClassifier'], 1)
            rng.shuffle(several)
            one = [nimble.learnerType(n) for n in several]
            res = must(ctx, 'types', several,
                       lambda: nimble.learnerType(list(several)))
            ctx.check(res == one, 'types:list', lambda: f'learnerType('
                      f'{several}) is {res}, one by one {one}')
        if rng.random() < .3:
            bad = rng.choice([name.lower() + '_', name[:-1] + '?', name + 's',
                              name + '.' + name, ''])
            bad = f'{pack}.{bad}'
            if rng.random() < .2:
                # a class of the package, but not a learner
                from sklearn.model_selection import KFold
                from sklearn.pipeline import Pipeline
                bad = rng.choice([KFold, Pipeline])
            st, res = call(ctx, lambda: getattr(nimble, rng.choice(
                ['learnerParameters', 'learnerParameterDefaults',
                 'learnerType']))(bad))
            ctx.check(st == 'exc', 'unknown-learner', lambda: f'{bad} '
                      f'is described by {res}')
            ctx.check(type(res).__name__.startswith('InvalidArgument'),
                      'unknown-learner:error', lambda: f'asking about {bad} '
                      f'raised {type(res).__name__}: {res}')
            ctx.event('refused')


# -- user defined learners ---------------------------------------------------

NAMES = ['alpha', 'beta', 'k', 'mode', 'Z', 'x_', 'opt', 'name', 'labels',
         'data', 'package']
VALUES = [0, 1, -2, 2.5, 'a', '', None, True, (1, 2), 'testX']


def signature(rng, common):
    names = rng.sample(NAMES, rng.randint(0, 4))
    need = rng.randint(0, len(names)) if rng.random() < .4 else 0
    out = []
    for i, n in enumerate(names):
        if i < need and n not in common:
            out.append((n, inspect._empty))
        else:
            out.append((n, common.get(n, rng.choice(VALUES))))
    # parameters with defaults come last
    out.sort(key=lambda nd: nd[1] is not inspect._empty)
    return out


def text(sig):
    return ''.join(f', {n}' + ('' if d is inspect._empty else f'={d!r}')
                   for n, d in sig)


def makeClass(nimble, name, train, apply, kind, record):
    body = f'''
def train(self, trainX, trainY{text(train)}):
    record['train'] = dict({', '.join(f'{n}={n}' for n, _ in train)})

def apply(self, testX{text(apply)}):
    record['apply'] = dict({', '.join(f'{n}={n}' for n, _ in apply)})
    return nimble.data([[1]] * len(testX.points), useLog=False)
'''
    space = {'nimble': nimble, 'record': record}
    exec(body, space)                                    # noqa: S102
    return type(name, (nimble.CustomLearner,), {
        'train': space['train'], 'apply': space['apply'],
        'learnerType': kind, '__module__': '__main__'})


def custom(ctx):
    """a learner of a random signature, described and called"""
    rng, nimble = ctx.rng, ctx.nimble
    record = {}
    # the same name is often defined again, with another signature
    name = f'User{rng.randint(0, 5)}'
    trainSig = signature(rng, {})
    # a parameter of both methods has one default
    applySig = signature(rng, dict(trainSig))
    applySig = [(n, d) for n, d in applySig
                if dict(trainSig).get(n, 1) is not inspect._empty
                and not (n in dict(trainSig) and d is inspect._empty)]
    kind = rng.choice(['classification', 'regression', 'transformation',
                       'cluster'])
    cls = makeClass(nimble, name, trainSig, applySig, kind, record)
    truth = {**dict(trainSig), **dict(applySig)}
    label = f'{name}(train: {trainSig}, apply: {applySig})'
    ctx.log(label)
    st, _ = call(ctx, lambda: nimble.learnerParameters(cls))
    obj = cls if rng.random() < .5 else f'custom.{name}'
    key = 'custom'
    ctx.state('custom', len(trainSig), len(applySig),
              tuple(sorted(type(d).__name__ for d in truth.values())))
    params = must(ctx, key, f'learnerParameters({label})',
                  lambda: nimble.learnerParameters(obj))
    ctx.check(params == sorted(truth), key + ':parameters', lambda:
              f'learnerParameters is {params} for {label}')
    defs = must(ctx, key, label, lambda: nimble.learnerParameterDefaults(obj))
    want = {n: d for n, d in truth.items() if d is not inspect._empty}
    ctx.check(set(defs) == set(want) and all(
        sameValue(defs[n], d) for n, d in want.items()), key + ':defaults',
        lambda: f'learnerParameterDefaults is {defs} for {label}')
    got = must(ctx, key, label, lambda: nimble.learnerType(obj))
    ctx.check(got == kind, key + ':type', lambda: f'learnerType is {got}, '
              f'not {kind} for {label}')
    for form in ('custom', None):
        names = must(ctx, key, label, lambda: nimble.learnerNames(form)) \
            if form or rng.random() < .05 else None
        if names is not None:
            n = name if form else f'custom.{name}'
            ctx.check(names.count(n) == 1, key + ':listed', lambda: f'{n} is '
                      f'listed {names.count(n)} times by learnerNames({form})')
    ctx.event('user_learners')
    # a call receives the arguments given, the defaults otherwise
    given = {}
    for n, d in truth.items():
        if d is inspect._empty or rng.random() < .4:
            given[n] = rng.choice(VALUES)
    problem = rng.choice(['', '', '', 'unknown', 'missing', 'conflict'])
    twice = None
    if problem == 'unknown':
        extra = rng.choice([n for n in NAMES + ['Alpha', 'kk', '', 'trainX']
                            if n not in truth])
        given[extra] = 1
    elif problem == 'missing':
        required = [n for n, d in truth.items() if d is inspect._empty]
        if not required:
            problem = ''
        else:
            given.pop(rng.choice(required))
    elif problem == 'conflict':
        options = [n for n in given if n not in (
            'name', 'labels', 'data', 'package', 'trainX')]
        problem = 'conflict' if options else ''
        twice = rng.choice(options) if options else None
    elif given and rng.random() < .3:
        # the same value given in both ways is no conflict
        twice = rng.choice(sorted(given))
    inDict = {n: v for n, v in given.items()
              if rng.random() < .5 or not n.isidentifier()}
    kw = {n: v for n, v in given.items() if n not in inDict}
    clash = [n for n in kw if n in ('name', 'labels', 'data', 'package',
                                    'trainX')]
    for n in clash:
        inDict[n] = kw.pop(n)
    if twice is not None and twice not in clash and twice.isidentifier() \
            and twice not in ('name', 'labels', 'data', 'package', 'trainX'):
        one, two = given[twice], given[twice]
        if problem == 'conflict':
            two = rng.choice([v for v in VALUES if not (v == one)])
            if rng.random() < .5:
                one, two = two, one
        inDict[twice], kw[twice] = one, two
    X = nimble.data([[1, 2], [3, 4], [5, 6]], useLog=False)
    Y = nimble.data([[0], [1], [0]], useLog=False)
    held = dict(inDict)
    how = rng.choice(['train', 'trainAndApply', 'trainAndApply'])
    ctx.log(f'{how} {inDict} {kw} {problem}')
    desc = f'{how}({label}, arguments={inDict}, **{kw})'
    record.clear()

    def go():
        if how == 'train':
            return nimble.train(obj, X, Y, arguments=inDict, useLog=False,
                                **kw)
        return nimble.trainAndApply(obj, X, Y, X, arguments=inDict,
                                    useLog=False, **kw)
    st, res = call(ctx, go)
    ctx.check(inDict == held and list(inDict) == list(held),
              key + ':arguments-modified', lambda: f'{desc}: the dictionary '
              f'of arguments became {inDict}')
    if problem:
        ctx.check(st == 'exc', f'{key}:{problem}', lambda: f'{desc}: accepted')
        ctx.check('train' not in record, f'{key}:{problem}:called', lambda:
                  f'{desc}: refused after training')
        ctx.event('refused')
        return
    if st == 'exc':
        ctx.violation(f'{key}:call:raises-{type(res).__name__}',
                      f'{desc} raised {res} (in {where(res)})')

    def compare(method, sig):
        ex = {n: given.get(n, d) for n, d in sig}
        ctx.check(method in record and set(record[method]) == set(ex) and all(
            sameValue(record[method][n], v) for n, v in ex.items()),
            f'{key}:{method}-arguments', lambda: f'{desc}: {method} was given '
            f'{record.get(method)}, not {ex}')
        ctx.event('calls_recorded')
    compare('train', trainSig)
    if how == 'trainAndApply':
        compare('apply', applySig)
        return
    ctx.check({n: v for n, v in res.arguments.items()
               if n in given} == given, key + ':stored', lambda: f'{desc}: '
              f'the arguments of the learner are {res.arguments}')
    onlyTrain = [n for n in dict(trainSig) if n not in dict(applySig)]
    if onlyTrain and rng.random() < .4:
        # a parameter of training only cannot be changed afterwards
        extra = rng.choice(onlyTrain)
        st, out = call(ctx, lambda: res.apply(X, arguments={extra: 1},
                                              useLog=False))
        ctx.check(st == 'exc', key + ':apply-extra', lambda: f'{desc}: apply '
                  f'accepted {extra}')
        ctx.event('refused')
    # applying uses what was given in training unless it is given again
    later = {n: rng.choice(VALUES) for n, _ in applySig if rng.random() < .3}
    record.clear()
    st, out = call(ctx, lambda: res.apply(X, arguments=later, useLog=False))
    if st == 'exc':
        ctx.violation(f'{key}:apply:raises-{type(out).__name__}',
                      f'{desc} then apply({later}) raised {out}')
    given.update(later)
    compare('apply', applySig)
    if rng.random() < .5:
        record.clear()
        for n in later:
            given.pop(n)
        given.update({n: v for n, v in held.items() if n in later})
        given.update({n: v for n, v in kw.items() if n in later})
        st, out = call(ctx, lambda: res.apply(X, useLog=False))
        if st == 'exc':
            ctx.violation(f'{key}:apply:raises-{type(out).__name__}',
                          f'{desc} then apply again raised {out}')
        compare('apply', applySig)


# -- arguments of packages ---------------------------------------------------

FAST = ['LinearRegression', 'Ridge', 'Lasso', 'KNeighborsClassifier',
        'KNeighborsRegressor', 'GaussianNB', 'DecisionTreeClassifier',
        'DecisionTreeRegressor', 'LogisticRegression', 'StandardScaler',
        'MinMaxScaler', 'PCA', 'SVC', 'BernoulliNB', 'NearestCentroid',
        'KMeans', 'RidgeClassifier', 'LinearDiscriminantAnalysis',
        'ElasticNet', 'HuberRegressor', 'PolynomialFeatures', 'MaxAbsScaler']
NESTED = [('AdaBoostClassifier', 'estimator', 'DecisionTreeClassifier',
           {'max_depth': [1, 2, 3], 'min_samples_leaf': [1, 2]},
           {'n_estimators': [3, 5]}),
          ('BaggingRegressor', 'estimator', 'KNeighborsRegressor',
           {'n_neighbors': [1, 2, 3], 'weights': ['uniform', 'distance']},
           {'n_estimators': [3, 4]}),
          ('BaggingClassifier', 'estimator', 'DecisionTreeClassifier',
           {'max_depth': [1, 2], 'criterion': ['gini', 'entropy']},
           {'n_estimators': [3, 4]}),
          ('TransformedTargetRegressor', 'regressor', 'Ridge',
           {'alpha': [.1, 1.0, 10.0], 'fit_intercept': [True, False]}, {}),
          ('BaggingRegressor', 'estimator', 'TransformedTargetRegressor',
           {'regressor': [('Ridge', {'alpha': 10.0}),
                          ('KNeighborsRegressor', {'n_neighbors': 1}),
                          ('DecisionTreeRegressor', {'max_depth': 1})],
            'check_inverse': [True, False]},
           {'n_estimators': [3, 4]})]


def trainData(rng):
    n = rng.randint(10, 16)
    X = [[rng.randint(-3, 3) + .5 * (i % 2), rng.randint(0, 5), i % 4]
         for i in range(n)]
    Y = [[i % 2] for i in range(n)]
    return X, Y


def raw(res):
    return np.array(res.copy('numpyarray'), dtype=float)


def explicit(ctx):
    """defaults given explicitly change nothing, unknown names are refused"""
    rng, nimble = ctx.rng, ctx.nimble
    name = rng.choice(FAST)
    rx, ry = trainData(rng)
    X = nimble.data(rx, useLog=False)
    Y = nimble.data(ry, useLog=False)
    learner = f'sklearn.{name}'
    truth = sklearnTruth(name)
    kind = truthType(name)
    trainY = None if kind in ('transformation', 'cluster') else Y
    defs = must(ctx, 'explicit', learner,
                lambda: nimble.learnerParameterDefaults(learner))
    some = [p for p in sorted(defs) if len(truth.get(p, [1, 2])) == 1
            and p != 'random_state' and rng.random() < .7]
    args = {p: defs[p] for p in some}
    inDict = {p: v for p, v in args.items() if rng.random() < .5}
    kw = {p: v for p, v in args.items() if p not in inDict}
    label = f'{learner} with {args}'
    ctx.log(label)
    ctx.state('explicit', name, len(args))

    def run(**extra):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return nimble.trainAndApply(learner, X, trainY, X, useLog=False,
                                        randomSeed=7, multiClassStrategy=None,
                                        **extra)
    st, base = call(ctx, run)
    if st == 'exc':
        ctx.violation(f'explicit:{name}:raises-{type(base).__name__}',
                      f'{learner} raised {base} (in {where(base)})')
    st, res = call(ctx, lambda: run(arguments=inDict, **kw))
    if st == 'exc':
        ctx.violation(f'explicit:{name}:raises-{type(res).__name__}',
                      f'{label} raised {res} (in {where(res)})')
    ctx.check(raw(base).shape == raw(res).shape and np.allclose(
        raw(base), raw(res), equal_nan=True), f'explicit:{name}',
        lambda: f'{label} differs from the defaults')
    ctx.event('defaults_given')
    extra = rng.choice(['unknownParameter', some[0] + '_' if some else 'q',
                        'UnknownParameter'])
    st, res = call(ctx, lambda: run(arguments={extra: 1}))
    ctx.check(st == 'exc', f'explicit:{name}:unknown', lambda: f'{learner} '
              f'accepted {extra}')
    ctx.event('refused')


def nested(ctx):
    """an Init object stands for the object it describes"""
    rng, nimble = ctx.rng, ctx.nimble
    name, param, inner, innerArgs, outerArgs = rng.choice(NESTED)
    rx, ry = trainData(rng)
    X = nimble.data(rx, useLog=False)
    Y = nimble.data(ry, useLog=False)
    ia = {p: rng.choice(v) for p, v in innerArgs.items() if rng.random() < .7}
    oa = {p: rng.choice(v) for p, v in outerArgs.items()}
    label = f'sklearn.{name}({param}=Init({inner!r}, {ia}), {oa})'
    ctx.log(label)
    ctx.state('nested', name, str(sorted(ia)))
    cls = SHARED['skl']
    # an Init object may itself hold an Init object
    direct = {p: cls[v[0]](**v[1]) if isinstance(v, tuple) else v
              for p, v in ia.items()}
    ia = {p: nimble.Init(v[0], **v[1]) if isinstance(v, tuple) else v
          for p, v in ia.items()}
    init = nimble.Init(inner, **ia)
    bad = rng.random() < .2
    if bad:
        init = rng.choice([nimble.Init(inner, **ia, notOne=1),
                           nimble.Init(inner + 'x', **ia)])
    args = {param: init, **oa}
    where_ = rng.random() < .5
    st, tl = call(ctx, lambda: nimble.train(
        f'sklearn.{name}', X, Y, useLog=False, randomSeed=5,
        arguments=args if where_ else None, **({} if where_ else args)))
    if bad:
        ctx.check(st == 'exc', 'nested:unknown', lambda: f'{label} with '
                  f'{init} was accepted')
        ctx.event('refused')
        return
    if st == 'exc':
        ctx.violation(f'nested:{name}:raises-{type(tl).__name__}',
                      f'{label} raised {tl} (in {where(tl)})')
    ctx.check(args[param] is init and init.kwargs == ia, 'nested:modified',
              lambda: f'{label}: the Init object became {init}')
    used = tl._backend.get_params()
    ctx.check(type(used[param]) is cls[inner], f'nested:{name}:object',
              lambda: f'{label}: {param} is {used[param]!r}')
    for p, v in cls[inner](**direct).get_params().items():
        if p == 'random_state' or p.endswith('__random_state'):
            continue
        got = used[f'{param}__{p}']
        if hasattr(v, 'get_params'):
            ctx.check(type(got) is type(v), f'nested:{name}:argument', lambda:
                      f'{label}: {param}.{p} is {got!r}, not {v!r}')
            ctx.event('nested_twice')
            continue
        ctx.check(sameValue(got, v), f'nested:{name}:argument', lambda:
                  f'{label}: {param}.{p} is {got!r}, not {v!r}')
    for p, v in oa.items():
        ctx.check(used[p] == v, f'nested:{name}:outer', lambda: f'{label}: '
                  f'{p} is {used[p]!r}')
    ctx.event('nested_objects')
    if 'random_state' not in used:
        out = call(ctx, lambda: tl.apply(X, useLog=False))[1]
        ref = cls[name](**{param: cls[inner](**direct)}, **oa).fit(
            np.array(rx), np.array(ry).ravel()).predict(np.array(rx))
        ctx.check(np.allclose(raw(out).ravel(), ref), f'nested:{name}:result',
                  lambda: f'{label}: predictions differ from the package')


KINDS = [('catalogue', 6, catalogue), ('custom', 8, custom),
         ('explicit', 2, explicit), ('nested', 1, nested)]
