"""The log records each logged operation exactly once."""
import ast
import copy
import contextlib
import datetime
import functools
import importlib
import inspect
import io
import json
import math
import os
import random
import re
import shutil
import signal
import sqlite3
import sys
import time
import warnings

import numpy as np
import pandas as pd

from vlib import env, gen, model, ops
from vlib.model import Table
from vlib.runner import where, Skip
from checks import c06
from checks.common import call, must, freeze, frozenDiff, typesFor, pickType

PROPERTY = 'C20'
RULE = ('random histories of data operations (valid, failing, with user '
        'functions that run logged operations themselves, with every form of '
        'argument), learning calls (plain, tuned, cross validated, failing, '
        'trained learner methods, nested), loads, seeds and user entries, '
        'under random logging settings and per-call choices; after every step '
        'the rows of the log are read by an independent sqlite connection: '
        'exactly the expected entries were added, older ones are unchanged, '
        'and the same step without logging gave the same result; queries over '
        'several sessions are compared with a model; writers are killed and '
        'run concurrently; the workloads of the other checks are run with '
        'logging on, where each call of the program adds at most the one '
        'entry of this call, however many operations nimble runs for it; non-trivial: distinct (kind, operation, choice, '
        'outcome)')
QUICK = {'cases': 2600, 'seconds': 90}
THOROUGH = {'cases': 24000, 'seconds': 800}
MIN = {'borrowed': 500, 'borrowed_calls_logged': 2500, 'runs_described': 120,
       'tunings_described': 30, 'deep_described': 25, 'steps': 1900,
       'entries': 1000, 'entries_described': 700,
       'steps_without_entry': 700, 'failed_steps': 400, 'queries': 400,
       'query_entries': 750, 'learning_steps': 350, 'learning_entries': 350,
       'twins_compared': 1300, 'killed': 20, 'acknowledged': 350,
       'argument_forms': 500}
CASE_SECONDS = 60
TYPES = {'load', 'tl', 'prep', 'run', 'report', 'tuning', 'deepRun',
         'setSeed'}
COUNTER = [0]
SECOND = datetime.timedelta(seconds=1) # clocks of different precision


def quiet(f, /, *args, **kwargs):
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        return f(*args, **kwargs)


# -- the log under test ----------------------------------------------------

class Log:
    """
    The log of one case, read independently of nimble.
    """
    def __init__(self, ctx, default=None, deep=False):
        COUNTER[0] += 1
        self.ctx = ctx
        self.nimble = ctx.nimble
        self.dir = os.path.join(os.getcwd(), f'log{os.getpid()}_'
                                f'{COUNTER[0]}')
        self.name = ctx.rng.choice(['log-nimble', 'other', 'a b'])
        self.file = os.path.join(self.dir, self.name + '.db')
        st = self.nimble.settings
        self.saved = {k: st.get('logger', k) for k in
                      ('location', 'name', 'enabledByDefault',
                       'enableDeepLogging')}
        st.set('logger', 'location', self.dir)
        st.set('logger', 'name', self.name)
        self.setDefault(ctx.rng.random() < .6 if default is None else default)
        self.deep = deep
        st.set('logger', 'enableDeepLogging',
               ctx.rng.choice(['True', 'true', 'TRUE']) if deep else
               ctx.rng.choice(['False', 'false']))
        self.sessions = set()
        self.current = None
        self.last = []

    def setDefault(self, on):
        self.default = on
        self.nimble.settings.set(
            'logger', 'enabledByDefault',
            self.ctx.rng.choice(['True', 'true'] if on else
                                ['False', 'false']))

    def close(self):
        for k, v in self.saved.items():
            self.nimble.settings.set('logger', k, v)
        shutil.rmtree(self.dir, ignore_errors=True)

    def on(self, mode):
        return self.default if mode is None else mode

    def rows(self):
        if not os.path.exists(self.file):
            return []
        with contextlib.closing(sqlite3.connect(self.file)) as con:
            cur = con.execute("SELECT name FROM sqlite_master WHERE "
                              "name='logger'")
            if not cur.fetchall():
                return []
            return con.execute('SELECT * FROM logger ORDER BY entry'
                               ).fetchall()

    def newSession(self):
        self.nimble.core.logger.active.cleanup()
        self.nimble.settings.set('logger', 'name', self.name)
        if self.current is not None:
            self.sessions.add(self.current)
        self.current = None

    def take(self, key, label, started):
        """
        The entries added since the last look, everything older unchanged.
        """
        rows = self.rows()
        ctx = self.ctx
        if rows[:len(self.last)] != self.last:
            bad = [(a, b) for a, b in zip(self.last, rows) if a != b]
            ctx.violation(f'{key}:older-entries-changed',
                          f'{label}: entries changed: {bad[:2]!r} '
                          f'({len(self.last)} before, {len(rows)} after)')
        new = rows[len(self.last):]
        self.last = rows
        ended = datetime.datetime.now()
        for entry, stamp, session, typ, info in new:
            t = datetime.datetime.strptime(stamp, '%Y-%m-%d %H:%M:%S')
            ctx.check(started.replace(microsecond=0) - SECOND <= t <= ended,
                      f'{key}:timestamp', lambda: f'{label}: logged at '
                      f'{stamp}, ran between {started} and {ended}')
            if self.current is None:
                ctx.check(session not in self.sessions and
                          session == max(self.sessions, default=-1) + 1,
                          f'{key}:session', lambda: f'{label}: session '
                          f'{session} after the sessions {self.sessions}')
                self.current = session
            ctx.check(session == self.current, f'{key}:session', lambda:
                      f'{label}: session {session}, not {self.current}')
        return new


@contextlib.contextmanager
def logged(ctx, **kwargs):
    log = Log(ctx, **kwargs)
    try:
        yield log
    finally:
        log.close()


def pickMode(rng):
    return rng.choice([None, None, True, True, False])


# -- recording what is called ----------------------------------------------

REPORTS = {'report'}


class Proxy:
    """
    Stands for a data object (or its points or features): every method that
    can be logged is called with the useLog of this proxy, and the calls that
    return are recorded.
    """
    def __init__(self, obj, mode, calls, base=None, axis=''):
        self.__dict__.update(_obj=obj, _mode=mode, _calls=calls,
                             _data=obj if base is None else base, _axis=axis)

    def __getattr__(self, name):
        val = getattr(self._obj, name)
        if name in ('points', 'features') and not self._axis:
            return Proxy(val, self._mode, self._calls, self._obj,
                         name + '.')
        if not callable(val) or not inspect.ismethod(val):
            return val
        try:
            params = inspect.signature(val).parameters
        except (ValueError, TypeError):
            return val
        if 'useLog' not in params:
            return val

        def run(*args, **kwargs):
            kwargs.pop('useLog', None)
            given = dict(zip(params, args))
            given.update(kwargs)
            before = (self._data.name, )
            if self._mode is not None or random.random() < .5:
                ret = val(*args, useLog=self._mode, **kwargs)
            else:
                ret = val(*args, **kwargs)
            self._calls.append({
                'type': 'report' if name in REPORTS else 'prep',
                'function': self._axis + name, 'data': self._data,
                'given': given, 'params': params, 'returned': ret})
            return ret
        return run

    def __setattr__(self, name, value):
        setattr(self._obj, name, value)

    def __getitem__(self, k):
        return self._obj[k]

    def __setitem__(self, k, v):
        self._obj[k] = v

    def __len__(self):
        return len(self._obj)

    def __iter__(self):
        return iter(self._obj)

    def __reversed__(self):
        return reversed(self._obj)

    def __contains__(self, v):
        return v in self._obj


def plainValue(v):
    return v is None or type(v) in (str, int, float, bool) or (
        type(v) is list and all(type(u) in (str, int) for u in v))


def ident(obj):
    name = getattr(obj, 'name', None)
    return obj.logID if name is None else name


def describes(ctx, key, label, row, c, identifier):
    """
    The entry of a data operation describes the call.
    """
    typ, text = row[3], row[4]
    ctx.check(typ == c['type'], f'{key}:type', lambda:
              f'{label}: logged as {typ!r}')
    try:
        info = ast.literal_eval(text)
    except (ValueError, SyntaxError):
        ctx.violation(f'{key}:unreadable', f'{label}: the entry {text[:300]!r}'
                      f' is no description')
        return
    if typ == 'report':
        want = 'feature' if c['function'].startswith('features') else \
            'summary'
        ctx.check(info['reportType'] == want, f'{key}:report-type', lambda:
                  f'{label}: logged {info["reportType"]!r}')
        ctx.check(info['reportInfo'] == str(c['returned']),
                  f'{key}:report-text', lambda: f'{label}: logged '
                  f'{info["reportInfo"][:300]!r}')
        ctx.event('entries_described')
        return
    ctx.check(info['function'] == c['function'], f'{key}:function', lambda:
              f'{label}: logged the function {info["function"]!r}')
    ctx.check(info['identifier'] == identifier, f'{key}:identifier',
              lambda: f'{label}: logged the object {info["identifier"]!r}, '
              f'it was {identifier!r}')
    args = info['arguments']
    for name, v in c['given'].items():
        param = c['params'].get(name)
        default = inspect.Parameter.empty if param is None else param.default
        if param is None or param.kind in (param.VAR_POSITIONAL,
                                           param.VAR_KEYWORD):
            continue
        if default is inspect.Parameter.empty:
            same = False
        elif plainValue(v) and plainValue(default):
            same = v == default
            if same and type(v) is not type(default):
                continue # 0 and False
        elif plainValue(v) != plainValue(default):
            same = False
            if not plainValue(v) and not callable(v):
                continue
        else:
            continue
        ctx.check((name in args) != same, f'{key}:arguments', lambda:
                  f'{label}: the argument {name}={v!r} (default {default!r}) '
                  f'is {"in" if same else "not in"} the entry {args!r}')
        if not same and plainValue(v) and name in args:
            ctx.check(args[name] == str(v), f'{key}:argument-value', lambda:
                      f'{label}: the argument {name}={v!r} is described as '
                      f'{args[name]!r}')
    for name in args:
        ctx.check(name in c['given'], f'{key}:arguments', lambda:
                  f'{label}: the entry has an argument {name}, given were '
                  f'{sorted(c["given"])}')
    ret = c['returned']
    if hasattr(ret, 'logID'):
        ctx.check(info.get('returned') == ident(ret), f'{key}:returned',
                  lambda: f'{label}: the entry says '
                  f'{info.get("returned")!r} was returned, it was '
                  f'{ident(ret)!r}')
    ctx.event('entries_described')


def picture(x):
    """
    What a call returned, comparable between two runs.
    """
    f = freeze(x)
    if len(f) == 2 and f[1] == id(x):
        if hasattr(x, 'items') or isinstance(x, (set, frozenset)):
            return (type(x).__name__, repr(x))
        return (type(x).__name__,)
    return f


def outcome(f, *args):
    try:
        return 'ok', quiet(f, *args)
    except Exception as e:  # pylint: disable=broad-except
        if ops.isEnvLimit(e):
            raise Skip() from e
        return 'exc', e


# -- operations on data ----------------------------------------------------

class Nested:
    """
    A user function which performs logged operations itself.
    """
    def __init__(self, nimble, rng):
        self.nimble = nimble
        self.mode = rng.choice([None, True, False])
        self.failAt = rng.choice([None, None, 1, 2])
        self.what = rng.choice(['load', 'prep', 'user', 'fail', 'seed'])
        self.other = nimble.data([[3, 1], [2, 5]], name='inner', useLog=False)
        self.silent = False
        self.done = []
        self.count = 0

    def start(self, silent):
        self.silent, self.done, self.count = silent, [], 0

    def __call__(self, v, *more):
        mode = False if self.silent else self.mode
        self.count += 1
        if self.what == 'load':
            self.nimble.data([[1]], useLog=mode)
            self.done.append(('load', mode))
        elif self.what == 'prep':
            self.other.points.sort(by=0, useLog=mode)
            self.done.append(('prep', mode))
        elif self.what == 'seed':
            with self.nimble.random.alternateControl(3, useLog=mode):
                pass
            self.done += [('setSeed', mode)] * 2
        elif self.what == 'user' and not self.silent:
            self.nimble.log('inner', 'text')
            self.done.append(('User - inner', True))
        elif self.what == 'fail':
            try:
                self.other.points.sort(by='no such', useLog=mode)
            except Exception:  # pylint: disable=broad-except
                pass
        if self.failAt == self.count:
            raise ValueError('user failure')
        return 1

    def __repr__(self):
        return f'<user function: {self.what}, {self.mode}, {self.failAt}>'


def moreOps(rng, t, nimble, build):
    """
    Operations the catalogue of vlib.ops lacks: [(label, call, nested)]
    """
    P, F = t.shape
    ret = []

    def add(label, f, nested=None):
        ret.append((label, f, nested))
    j = rng.randrange(F) if F else 0
    other = build(t)
    other.name = rng.choice([None, 'second'])
    add('report()', lambda o: o.report())
    add('features.report()', lambda o: o.features.report())
    add('features.report(dtypes)', lambda o: o.features.report(dtypes=True))
    add('features.report(basic)', lambda o: o.features.report(
        basicStatistics=False))
    add(f'groupByFeature({j})', lambda o: o.groupByFeature(j))
    add(f'replaceFeatureWithBinaryFeatures({j})', lambda o:
        o.replaceFeatureWithBinaryFeatures(j))
    add(f'transformFeatureToIntegers({j})', lambda o:
        o.transformFeatureToIntegers(j))
    add('trainAndTestSets(.5)', lambda o: o.trainAndTestSets(.5))
    add('trainAndTestSets(.5, 0)', lambda o: o.trainAndTestSets(
        .5, 0, randomOrder=False))
    add('features.normalize()', lambda o: o.features.normalize(
        lambda c: [v for v in c]))
    add('points.fillMatching', lambda o: o.points.fillMatching(0, None))
    add('features.fillMatching', lambda o: o.features.fillMatching(
        7, 0, features=[j]))
    add('merge', lambda o: o.merge(other, point='union', feature='union'))
    add('merge(strict)', lambda o: o.merge(other, point='strict',
                                           feature='strict'))
    add('append', lambda o: o.points.append(other))
    add('replaceRectangle(obj)', lambda o: o.replaceRectangle(other, 0, 0))
    add('matchingElements', lambda o: o.matchingElements('==1'))
    add('combineByExpanding', lambda o: o.points.combineByExpandingFeatures(
        0, 1 if F > 1 else 0))
    add('splitByCollapsing', lambda o: o.points.splitByCollapsingFeatures(
        [j], 'key', 'val'))
    add('splitByParsing', lambda o: o.features.splitByParsing(
        j, lambda v: [1, 2], ['spl1', 'spl2']))
    add('unflatten', lambda o: o.unflatten((F, P)))
    add('permute', lambda o: o.points.permute(list(range(P))))
    add('sort', lambda o: o.points.sort(by=j))
    add('unique', lambda o: o.points.unique())
    add('copy', lambda o: o.points.copy([0]) if P else None)
    add('transpose', lambda o: o.transpose())
    n = Nested(nimble, rng)
    which = rng.randrange(4)
    if which == 0:
        add(f'features.calculate({n})', lambda o: o.features.calculate(n), n)
    elif which == 1:
        add(f'points.calculate({n})', lambda o: o.points.calculate(n), n)
    elif which == 2:
        add(f'transformElements({n})', lambda o: o.transformElements(n), n)
    else:
        add(f'points.extract({n})', lambda o: o.points.extract(n), n)
    return ret


LAYOUTS = '''
import functools

def plain(v):
    return 1

simple = lambda v: 1
wrapped = (
    lambda v: (
        1 if v is None
        else 1))
later = (None,
         lambda v:
         1)[1]
inDict = {'a': lambda v: 1, 'b': lambda v: (1,
    2)}['a']
inCall = functools.reduce(lambda a, b: b, [lambda v: 1])
deep = [[lambda v: 1]][0][0]
braces = (lambda v: {'a': [1, (2, 3)]}['a'][0])
text = lambda v: len("a)(,") - 3
listed = [
    lambda v: 1,
    lambda v: 2,
][0]

def outer():
    x = 1
    return lambda v: x

closure = outer()
colon = lambda v: [5, 1][1:][0]
default = lambda v, w=(1, 2): 1
part = functools.partial(lambda a, v: 1, 0)

class Callable:
    def __call__(self, v):
        return 1

class Named:
    __name__ = 'named'
    def __call__(self, v):
        return 1

obj = Callable()
named = Named()

class Holder:
    def method(self, v):
        return 1
    @staticmethod
    def static(v):
        return 1
    @classmethod
    def klass(cls, v):
        return 1

method = Holder().method
static = Holder.static
klass = Holder.klass
def unicodé(v):
    return 1
'''
FORMS = ['plain', 'simple', 'wrapped', 'later', 'inDict', 'inCall', 'deep',
         'braces', 'text', 'listed', 'closure', 'colon', 'default', 'part',
         'obj', 'named', 'method', 'static', 'klass', 'unicodé']
ELSEWHERE = {}


def functionForm(ctx):
    """
    A function of one argument that gives 1, defined in some way.
    """
    rng = ctx.rng
    if 'file' not in ELSEWHERE:
        path = os.path.join(os.getcwd(), f'layouts_{os.getpid()}.py')
        with open(path, 'w', encoding='utf-8') as f:
            f.write(LAYOUTS)
        space = {}
        exec(compile(LAYOUTS, path, 'exec'), space) # pylint: disable=exec-used
        ELSEWHERE['file'] = space
        space = {}
        # no source is available for these
        exec(compile(LAYOUTS, '<no source>', 'exec'), space) # pylint: disable=exec-used
        ELSEWHERE['none'] = space
        # the file was edited after its functions were defined
        path = os.path.join(os.getcwd(), f'edited_{os.getpid()}.py')
        with open(path, 'w', encoding='utf-8') as f:
            f.write('x = 1\n' * 60)
        space = {}
        exec(compile(LAYOUTS, path, 'exec'), space) # pylint: disable=exec-used
        ELSEWHERE['edited'] = space
    source = rng.choice(['file', 'file', 'none', 'edited'])
    name = rng.choice(FORMS)
    return f'{name} ({source})', ELSEWHERE[source][name]


def formOps(ctx, t, build):
    """
    Operations with unusual forms of argument, which still are valid.
    """
    rng = ctx.rng
    nimble = ctx.nimble
    P, F = t.shape
    idx = sorted(rng.sample(range(P), rng.randint(1, P)))
    fidx = sorted(rng.sample(range(F), rng.randint(1, F)))

    def vec(ids, what=None):
        what = what or rng.choice(['array', 'tuple', 'range', 'series',
                                   'nimble', 'nplist', 'index', 'gen'])
        if what == 'array':
            return what, np.array(ids)
        if what == 'tuple':
            return what, tuple(ids)
        if what == 'range':
            return what, range(ids[0], ids[0] + 1)
        if what == 'series':
            return what, pd.Series(ids)
        if what == 'index':
            return what, pd.Index(ids)
        if what == 'nimble':
            return what, nimble.data([ids], useLog=False)
        if what == 'gen':
            return what, None
        return what, [np.int64(i) for i in ids]
    w, v = vec(idx)
    if v is None:
        mk = lambda: (i for i in idx)
    else:
        mk = lambda: v
    fw, fv = vec(fidx)
    if fv is None:
        fmk = lambda: (i for i in fidx)
    else:
        fmk = lambda: fv
    lab, func = functionForm(ctx)
    labels = build(Table([[i] for i in range(P)], None, None, 1))
    other = build(t)
    other.name = rng.choice([None, 'second'])
    ret = [
        (f'points.copy({w})', lambda o: o.points.copy(mk())),
        (f'points.extract({w})', lambda o: o.points.extract(mk())),
        (f'points.delete({w})', lambda o: o.points.delete(mk())),
        (f'points.retain({w})', lambda o: o.points.retain(mk())),
        (f'points.retain(toRetain={w})',
         lambda o: o.points.retain(toRetain=mk())),
        (f'features.copy({fw})', lambda o: o.features.copy(mk() if False
                                                           else fmk())),
        (f'features.extract({fw})', lambda o: o.features.extract(fmk())),
        (f'points.calculate(points={w})', lambda o: o.points.calculate(
            len, mk())),
        (f'features.calculate(features={fw})',
         lambda o: o.features.calculate(len, fmk())),
        (f'points.calculate({lab})', lambda o: o.points.calculate(func)),
        (f'features.calculate({lab})', lambda o: o.features.calculate(func)),
        (f'transformElements({lab})', lambda o: o.transformElements(func)),
        (f'calculateOnElements({lab})',
         lambda o: o.calculateOnElements(func)),
        (f'points.extract({lab})', lambda o: o.points.extract(func)),
        (f'features.delete({lab})', lambda o: o.features.delete(func)),
        (f'transformElements({w}, {fw})', lambda o: o.transformElements(
            lambda v: 1, mk(), fmk())),
        (f'fillMatching({fw})', lambda o: o.features.fillMatching(
            1, 0, fmk())),
        ('points.replace(object)', lambda o: o.points.replace(other)),
        ('features.replace(array)', lambda o: o.features.replace(
            np.ones((P, len(fidx))), fmk())),
        ('points.insert(object)', lambda o: o.points.insert(0, other)),
        ('points.setNames(array)', lambda o: o.points.setNames(
            np.array([f'n{i}' for i in range(P)]))),
        ('features.setNames(series)', lambda o: o.features.setNames(
            pd.Series([f'n{i}' for i in range(F)]))),
        ('points.setNames(array, array)', lambda o: o.points.setNames(
            np.array([f'n{i}' for i in idx]), np.array(idx))),
        (f'points.permute(array)', lambda o: o.points.permute(
            np.array(range(P))[::-1])),
        ('points.sort(by=array)', lambda o: o.points.sort(
            by=np.array(fidx))),
        (f'points.sort(by={lab})', lambda o: o.points.sort(by=func)),
        ('replaceRectangle(object)', lambda o: o.replaceRectangle(
            other, 0, 0, P - 1, F - 1)),
        ('features.fillMatching(object)', lambda o: o.features.fillMatching(
            1, o._obj.matchingElements(lambda v: v == 1, useLog=False))),
        ('features.normalize(array)', lambda o: o.features.normalize(
            lambda c: [v for v in c], features=fmk())),
        ('features.normalize(applyResultTo)', lambda o: o.features.normalize(
            lambda a, b: (list(a), list(b)), applyResultTo=other.copy())),
        ('merge(object)', lambda o: o.merge(other, 'union', 'union')),
        ('trainAndTestSets(object)', lambda o: o.trainAndTestSets(
            .5, labels)),
        ('trainAndTestSets(array)', lambda o: o.trainAndTestSets(
            .5, fmk())),
        ('groupByFeature(numpy)', lambda o: o.groupByFeature(
            np.int64(fidx[0]))),
        ('groupByFeature(array)', lambda o: o.groupByFeature(fmk())),
        ('features.matching', lambda o: o.matchingElements(
            func if callable(func) else None)),
        ('replaceFeatureWithBinaryFeatures(np)', lambda o:
         o.replaceFeatureWithBinaryFeatures(np.int64(fidx[0]))),
        ('combineByExpanding(array)', lambda o:
         o.points.combineByExpandingFeatures(np.array([0]), np.array([1]))),
        ('splitByCollapsing(array)', lambda o:
         o.points.splitByCollapsingFeatures(fmk(), 'key', 'val')),
        ('splitByParsing(names array)', lambda o: o.features.splitByParsing(
            fidx[0], lambda v: [1, 2], np.array(['s1', 's2']))),
        ('unflatten(array)', lambda o: o.unflatten(np.array([F, P]))),
        ('flatten(order)', lambda o: o.flatten(order='feature')),
        ('repeat', lambda o: o.points.repeat(np.int64(2), np.bool_(True))),
        ('mapReduce', lambda o: o.points.mapReduce(
            lambda p: [('a', 1)], lambda i, v: (i, 1))),
        ('shuffle', lambda o: o.points.permute()),
    ]
    return [(a, b, None) for a, b in ret]


def step(ctx, log, obj, label, f, nested, kind, valid=None):
    """
    Run one operation on the object, and without logging on a twin. Returns
    the twin outcome.
    """
    rng = ctx.rng
    nimble = ctx.nimble
    mode = pickMode(rng)
    label = f'{label} [useLog={mode}, default={log.default}]'
    key = f'{kind}:{label.split("(")[0].split(" ")[0]}'
    # views are read only
    twin = (obj.view() if isinstance(obj, nimble.core.data.BaseView)
            else obj.copy())
    twin.name = obj.name
    seed = rng.randrange(1000)
    if nested is not None:
        nested.start(True)
    with nimble.random.alternateControl(seed, useLog=False):
        want = outcome(f, Proxy(twin, False, []))
    started = datetime.datetime.now()
    quietRows = log.take(key, label + ' (without logging)', started)
    ctx.check(not quietRows, f'{key}:logged-when-off', lambda: f'{label}: '
              f'with useLog=False, the entries {quietRows[:3]!r} were added')
    if nested is not None:
        nested.start(False)
    calls = []
    if obj.name is None:
        # identifiers are taken after the operation
        pass
    with nimble.random.alternateControl(seed, useLog=False):
        got = outcome(f, Proxy(obj, mode, calls))
    ctx.log(f'{label}: {got[0]}')
    ctx.event('steps')
    if got[0] == 'exc':
        ctx.event('failed_steps')
    if got[0] != want[0] or (got[0] == 'exc'
                             and type(got[1]) is not type(want[1])):
        exc = got[1] if got[0] == 'exc' else want[1]
        ctx.violation(f'{key}:outcome-{type(exc).__name__}', f'{label}: gave '
                      f'{got[0]} {str(got[1])[:300]!r}, without logging '
                      f'{want[0]} {str(want[1])[:300]!r} (in {where(exc)})')
    d = frozenDiff(freeze(twin), freeze(obj))
    ctx.check(d is None, f'{key}:object', lambda: f'{label}: the object '
              f'differs from that of the same operation without logging: {d}')
    if got[0] == want[0] == 'ok':
        pa, pb = picture(want[1]), picture(got[1])
        ctx.check(pa == pb, f'{key}:result', lambda: f'{label}: gave '
                  f'{str(pb)[:300]}, without logging {str(pa)[:300]}')
    ctx.event('twins_compared')
    rows = log.take(key, label, started)
    inner = nested.done if nested is not None else []
    expect = [typ for typ, m in inner if log.on(m)]
    if log.on(mode):
        expect += [c['type'] for c in calls]
    types = [r[3] for r in rows]
    ctx.check(types == expect, f'{key}:entries', lambda: f'{label} '
              f'({got[0]}): added the entries {types}, expected {expect}')
    ctx.event('entries', len(rows))
    if not rows:
        ctx.event('steps_without_entry')
    if types == expect and log.on(mode):
        for row, c in zip(rows[len(rows) - len(calls):], calls):
            describes(ctx, key, label, row, c, ident(c['data']))
    ctx.state(kind, label.split('[')[0][:40], mode, log.default, got[0])
    return want


def newData(ctx, minimum=1, numeric=None):
    rng = ctx.rng
    return gen.table(rng)


def checkDataOps(ctx):
    rng = ctx.rng
    nimble = ctx.nimble
    t = None
    for _ in range(20):
        t = newData(ctx)
        if t.shape[0] and t.shape[1]:
            break
    else:
        raise Skip()

    def build(tab):
        return gen.build(nimble, tab, pickType(rng, tab), 'rows'
                         if False else gen.anyRoute(rng), rng)
    obj = build(t)
    if rng.random() < .5:
        obj.name = rng.choice(['data', 'a"b"\'c\'', 'x\\y', '{}', 'é'])
    with logged(ctx) as log:
        for _ in range(rng.randint(3, 8)):
            r = rng.random()
            if r < .12:
                log.setDefault(not log.default)
            elif r < .18:
                log.newSession()
            elif r < .24:
                plainStep(ctx, log)
            if rng.random() < .1:
                obj.name = rng.choice([None, 'renamed', 'data'])
            if len(obj.dimensions) > 2 or not all(
                    0 < n <= 40 for n in obj.shape):
                break
            for axis in (obj.points, obj.features):
                # no names at all, instead of a list without any name
                if names(axis) is not None and not any(names(axis)):
                    if isinstance(obj, nimble.core.data.BaseView):
                        raise Skip()
                    axis.setNames(None, useLog=False)
            for axis in (obj.points, obj.features):
                n = len(axis) if names(axis) is None else len(names(axis))
                ctx.check(n == len(axis), 'data:names-do-not-fit', lambda:
                          f'{n} names for {len(axis)}')
            t = model.Table(model.rawRows(obj), names(obj.points),
                            names(obj.features), len(obj.features))
            typ = obj.getTypeString()
            r = rng.random()
            nested = None
            if r < .5:
                op = ops.draw(rng, t, nimble, typ)
                if op is None:
                    continue
                label, f = op.label, op.call
            elif r < .65:
                label, f, _ = rng.choice(c06.invalid(rng, nimble, typ, t))
            else:
                label, f, nested = rng.choice(moreOps(rng, t, nimble, build))
            step(ctx, log, obj, label, f, nested, 'data')


def names(axis):
    return axis._getNamesNoGeneration()


def checkForms(ctx):
    rng = ctx.rng
    nimble = ctx.nimble
    P, F = rng.randint(2, 4), rng.randint(2, 4)
    t = Table([[rng.randint(0, 3) for _ in range(F)] for _ in range(P)],
              [f'p{i}' for i in range(P)] if rng.random() < .5 else None,
              [f'f{i}' for i in range(F)] if rng.random() < .5 else None, F)

    def build(tab):
        return gen.build(nimble, tab, rng.choice(gen.TYPES),
                         gen.anyRoute(rng), rng)
    with logged(ctx, default=True) as log:
        for _ in range(rng.randint(3, 6)):
            obj = build(t)
            obj.name = rng.choice([None, 'data'])
            label, f, nested = rng.choice(formOps(ctx, t, build))
            if rng.random() < .1:
                log.setDefault(not log.default)
            step(ctx, log, obj, label, f, nested, 'form')
            ctx.event('argument_forms')


def plainStep(ctx, log):
    """
    A logged operation that is no method of a data object.
    """
    rng = ctx.rng
    nimble = ctx.nimble
    mode = pickMode(rng)
    kw = {} if mode is None and rng.random() < .5 else {'useLog': mode}
    n = rng.randrange(5000)
    bad = rng.random() < .25
    which = rng.choice(['data', 'data', 'random', 'seed', 'alternate', 'log',
                        'nested', 'raises'])
    state = (nimble.random.pythonRandom.getstate(),
             nimble.random.numpyRandom.get_state())
    started = datetime.datetime.now()
    expect = []
    info = []
    f = None
    if which == 'data':
        raw = rng.choice([[[1, 2], [3, n]], np.ones((2, 2)),
                          pd.DataFrame({'a': [1, 2]}), {'a': [1, n]}])
        nm = rng.choice([None, f'new{n}', 'q"\'\\'])
        f = lambda: nimble.data(raw, name=nm, returnType='Bad' if bad else
                                rng.choice([None, 'List']), **kw)
        expect = ['load']
    elif which == 'random':
        f = lambda: nimble.random.data(2, 3, 5 if bad else .5, **kw)
        expect = ['load']
    elif which == 'seed':
        f = lambda: nimble.random.setSeed('bad' if bad else n, **kw)
        expect = ['setSeed']
    elif which == 'alternate':
        def f():
            with nimble.random.alternateControl('bad' if bad else n, **kw):
                pass
        expect = ['setSeed', 'setSeed']
    elif which == 'raises':
        class Own(Exception):
            pass

        def f():
            try:
                with nimble.random.alternateControl(n, **kw):
                    raise Own()
            except Own:
                pass
        bad = False
        expect = ['setSeed', 'setSeed']
    elif which == 'nested':
        def f():
            with nimble.random.alternateControl(n, **kw):
                try:
                    nimble.random.setSeed(3, **kw)
                except RuntimeError:
                    pass
                with nimble.random.alternateControl(n + 1, **kw):
                    nimble.random.data(1, 1, 0, **kw)
        bad = False
        expect = ['setSeed', 'setSeed', 'load', 'setSeed', 'setSeed']
    else:
        head = 'h' * 51 if bad else rng.choice(['note', f'h{n}', "it's"])
        body = rng.choice(['text', f'{n}', ['a', n], {'a': n}, "q\"'\n%_"])
        bodyCopy = copy.deepcopy(body)
        mode = True
        f = lambda: nimble.log(head, body)
        expect = ['User - ' + head]
        info = [body]
    label = f'{which} [{kw}, default={log.default}, bad={bad}]'
    got = outcome(f)
    nimble.random.pythonRandom.setstate(state[0])
    nimble.random.numpyRandom.set_state(state[1])
    ctx.log(label)
    ctx.event('steps')
    if (got[0] == 'exc') != bad:
        ctx.violation(f'plain:{which}:outcome', f'{label}: gave {got!r}')
    if got[0] == 'exc':
        ctx.event('failed_steps')
    if bad or not log.on(mode):
        expect = []
    rows = log.take(f'plain:{which}', label, started)
    types = [r[3] for r in rows]
    ctx.check(types == expect, f'plain:{which}:entries', lambda: f'{label}: '
              f'added {types}, expected {expect}')
    ctx.event('entries', len(rows))
    if not rows:
        ctx.event('steps_without_entry')
    if types == expect:
        if which == 'data' and rows:
            d = ast.literal_eval(rows[0][4])
            ctx.check((d['numPoints'], d['numFeatures']) == got[1].shape
                      and d['identifier'] == ident(got[1]),
                      'plain:data:described', lambda: f'{label}: logged {d}')
            ctx.event('entries_described')
        elif which == 'seed' and rows:
            d = ast.literal_eval(rows[0][4])
            ctx.check(d['seed'] == n, 'plain:seed:described', lambda:
                      f'{label}: logged {d}, the seed is {n}')
            ctx.event('entries_described')
        elif which == 'log' and rows:
            d = ast.literal_eval(rows[0][4])
            ctx.check(d == bodyCopy, 'plain:log:described', lambda:
                      f'{label}: logged {d}')
            ctx.event('entries_described')
    ctx.state('plain', which, mode, log.default, bad)


# -- learning --------------------------------------------------------------

STATE = {}


def setup(nimble):
    class Counting(nimble.CustomLearner):
        """
        Counts its trainings, and can run other operations while training.
        """
        learnerType = 'regression'

        def train(self, trainX, trainY, a=0, b=None, inner=0, fail=False):
            STATE['trained'] = STATE.get('trained', 0) + 1
            self.a = a
            for k in range(inner):
                nimble.train('nimble.RidgeRegression', trainX, trainY, lamb=1)
            if fail:
                raise ValueError('user failure')

        def apply(self, testX):
            return nimble.data([[self.a + i % 2] for i in
                                range(len(testX.points))], useLog=False)

    class Unsupervised(nimble.CustomLearner):
        learnerType = 'transformation'

        def train(self, trainX):
            self.n = len(trainX.features)

        def apply(self, testX):
            return testX.copy()

    class Growing(nimble.CustomLearner):
        learnerType = 'regression'

        def train(self, trainX, trainY, a=0):
            self.n = a

        def incrementalTrain(self, trainX, trainY, a=0):
            self.n += len(trainX.points)

        def apply(self, testX):
            return nimble.data([[self.n]] * len(testX.points), useLog=False)
    STATE.update(counting=Counting, unsupervised=Unsupervised,
                 growing=Growing)
    STATE['borrowed'] = {}
    for name in BORROWED:
        mod = importlib.import_module('checks.' + name)
        STATE['borrowed'][name] = mod
        if hasattr(mod, 'setup'):
            mod.setup(nimble)


def workerSetup(nimble, work):
    for mod in STATE['borrowed'].values():
        if hasattr(mod, 'workerSetup'):
            mod.workerSetup(nimble, work)


def learnData(ctx, n=None):
    rng = ctx.rng
    n = n or rng.randint(6, 10)
    rows = [[i, rng.randint(0, 5), rng.randint(0, 5) + .5, i % 2]
            for i in range(n)]
    t = Table(rows, None, ['a', 'b', 'c', 'y'], 4)
    return gen.build(ctx.nimble, t, rng.choice(gen.TYPES), gen.anyRoute(rng),
                     rng)


def checkLearning(ctx):
    rng = ctx.rng
    deep = rng.random() < .5
    with logged(ctx, deep=deep) as log:
        for _ in range(rng.randint(2, 4)):
            if rng.random() < .2:
                log.setDefault(not log.default)
            learnStep(ctx, log)


def learnStep(ctx, log):
    rng = ctx.rng
    nimble = ctx.nimble
    mode = pickMode(rng)
    kw = {} if mode is None and rng.random() < .5 else {'useLog': mode}
    learner = rng.choice([STATE['counting'], 'nimble.KNNClassifier',
                          'nimble.RidgeRegression', STATE['counting'],
                          'sklearn.LinearRegression'])
    data = learnData(ctx)
    named = rng.random() < .5
    if named:
        data.name = 'training'
    form = rng.choice(['name', 'index', 'numpy', 'object'])
    if form == 'object':
        X = data.copy()
        X.name = data.name
        y = X.features.extract('y', useLog=False)
        if named:
            y.name = 'labels'
        testX = learnData(ctx).copy()
        testY = testX.features.extract('y', useLog=False)
        if rng.random() < .5:
            testX.name = 'testing'
            testY.name = 'testLabels'
        test = (testX, testY)
        applyTo = testX
    else:
        X = data
        y = {'name': 'y', 'index': 3, 'numpy': np.int64(3)}[form]
        test = (learnData(ctx), y)
        if rng.random() < .5:
            test[0].name = 'testing'
        applyTo = test[0].features.copy([0, 1, 2], useLog=False)
        if rng.random() < .5:
            applyTo.name = 'applied'
    args = {}
    tuneCount = 0
    combos = 1
    if learner is STATE['counting']:
        args = rng.choice([{}, {'a': 1}, {'b': np.array([1, 2])},
                           {'b': X}, {'b': len}, {'b': [1, {'c': (2, 3)}]},
                           {'b': pd.DataFrame({'q': [1, 2]})},
                           {'b': float('nan')}, {'b': 'it\'s "x"\n'}])
    elif learner == 'nimble.KNNClassifier':
        args = rng.choice([{}, {'k': 1}, {'k': np.int64(3)}])
    elif learner == 'nimble.RidgeRegression':
        args = {'lamb': rng.choice([0, 1, .5])}
    perf = rng.choice([nimble.calculate.rootMeanSquareError,
                       nimble.calculate.meanAbsoluteError])
    fail = rng.random() < .15
    which = rng.choice(['train', 'train', 'tuned', 'tuned', 'trainAndApply',
                        'trainAndTest', 'onTraining', 'onTrainingCV',
                        'normalize', 'fill', 'apply', 'test', 'retrain',
                        'incremental', 'load', 'nested', 'tunedTest',
                        'multi'])
    seed = rng.choice([None, 7])
    expect = ['run']
    function = which
    tuning = None
    used = []
    if which in ('tuned', 'tunedTest'):
        learner = STATE['counting']
        values = rng.sample(range(5), rng.randint(2, 3))
        args = {**{k: v for k, v in args.items() if k == 'b'},
                'a': nimble.Tune(values)}
        combos = len(values)
        val = rng.choice(['cv', 'cv', 'holdout', 'data'])
        if val == 'cv':
            k = rng.randint(2, 3)
            tuning = lambda: nimble.Tuning(
                'brute force', 'cross validation', perf, folds=k)
            deepCount = combos * k
        elif val == 'holdout':
            tuning = lambda: nimble.Tuning('brute force', .3, perf)
            deepCount = combos
        else:
            vX = learnData(ctx).copy()
            vY = vX.features.extract('y', useLog=False)
            tuning = lambda: nimble.Tuning('brute force', 'data', perf,
                                           validateX=vX, validateY=vY)
            # validating with other data has no entries of its own
            deepCount = 0
        expect = ['deepRun'] * (deepCount if log.deep else 0) + ['tuning',
                                                                 'run']
    if which in ('nested',):
        learner = STATE['counting']
        inner = rng.randint(1, 3)
        args = {'inner': inner}
    if fail and learner is STATE['counting']:
        args = {**args, 'fail': True}
    elif fail:
        args = {**args, 'noSuchArgument': 1}
    if which in ('normalize', 'fill', 'load', 'incremental', 'multi'):
        fail = False
    fresh = lambda: copy.copy(args)
    prepared = None

    def extra():
        if tuning is not None:
            return {'tuning': tuning()}
        return {}
    fit = fresh if not fail else (lambda: {})
    if which in ('apply', 'test', 'retrain'):
        try:
            base = {k: v for k, v in args.items()
                    if k not in ('fail', 'noSuchArgument')}
            prepared = nimble.train(learner, X, y, arguments=base,
                                    useLog=False)
        except Exception as e:  # pylint: disable=broad-except
            raise Skip() from e
    if which in ('train', 'tuned', 'nested'):
        f = lambda kw: nimble.train(learner, X, y, arguments=fresh(),
                                    randomSeed=seed, **extra(), **kw)
        function = 'train'
    elif which == 'trainAndApply':
        f = lambda kw: nimble.trainAndApply(learner, X, y, applyTo,
                                            arguments=fresh(),
                                            randomSeed=seed, **kw)
    elif which in ('trainAndTest', 'tunedTest'):
        f = lambda kw: nimble.trainAndTest(
            learner, perf, X, y, *test, arguments=fresh(), randomSeed=seed,
            **extra(), **kw)
        function = 'trainAndTest'
    elif which == 'onTraining':
        f = lambda kw: nimble.trainAndTestOnTrainingData(
            learner, perf, X, y, arguments=fresh(), randomSeed=seed, **kw)
        function = 'trainAndTestOnTrainingData'
    elif which == 'onTrainingCV':
        folds = rng.randint(2, 3)
        f = lambda kw: nimble.trainAndTestOnTrainingData(
            learner, perf, X, y, crossValidationFolds=folds,
            arguments=fresh(), randomSeed=seed, **kw)
        expect = ['deepRun'] * (folds if log.deep else 0) + ['tuning', 'run']
        function = 'trainAndTestOnTrainingData'
    elif which == 'normalize':
        lr = rng.choice([STATE['unsupervised'], 'sklearn.StandardScaler'])
        tX = rng.choice([None, learnData(ctx)])
        f = lambda kw: nimble.normalizeData(lr, data, testX=tX, **kw)
        function = 'normalizeData'
    elif which == 'fill':
        lr = 'nimble.KNNImputation'
        bad = rng.random() < .3

        def f(kw):
            d = data.copy()
            d[0, 1] = float('nan')
            nimble.fillMatching(lr, nimble.match.missing, d,
                                k=3, mode='regression' if not bad else 'no',
                                **kw)
            return d
        fail = bad
        function = 'fillMatching'
    elif which == 'load':
        target = nimble.train('nimble.RidgeRegression', X, y, lamb=1,
                              useLog=False)
        path = os.path.join(log.dir, 'model.pickle')
        os.makedirs(log.dir, exist_ok=True)
        target.save(path)
        fail = rng.random() < .3
        if fail:
            with open(path, 'wb') as h:
                import pickle
                pickle.dump([1, 2], h)
        f = lambda kw: nimble.loadTrainedLearner(path, **kw)
        expect = ['tl']
        function = None
    elif which == 'incremental':
        target = nimble.train(STATE['growing'], X, y, useLog=False)
        f = lambda kw: copy.copy(target).incrementalTrain(X, y, **kw)
    elif which == 'multi':
        strategy = rng.choice(['OneVsAll', 'OneVsOne'])
        multiX = data.copy()
        multiX.features.delete('y', useLog=False)
        labels = nimble.data([[i % 3] for i in range(len(data.points))],
                             useLog=False)
        sub = rng.choice(['train', 'trainAndApply', 'apply'])
        function = sub
        lr = 'nimble.KNNClassifier'
        if sub == 'train':
            f = lambda kw: nimble.train(lr, multiX, labels, k=1,
                                        multiClassStrategy=strategy, **kw)
        elif sub == 'trainAndApply':
            f = lambda kw: nimble.trainAndApply(
                lr, multiX, labels, multiX, k=1, multiClassStrategy=strategy,
                **kw)
        else:
            pre = nimble.train(lr, multiX, labels, k=1, useLog=False,
                               multiClassStrategy=strategy)
            f = lambda kw: pre.apply(multiX, **kw)
    elif which == 'apply':
        badData = data if fail else applyTo
        f = lambda kw: prepared.apply(badData, **kw)
    elif which == 'test':
        badY = 'nothing' if fail else test[1]
        f = lambda kw: prepared.test(perf, test[0], badY, **kw)
    elif which == 'retrain':
        def f(kw):
            tl = copy.copy(prepared)
            tl.retrain(X, y, arguments=fresh() if fail else None, **kw)
            return tl
    label = (f'{which}({learner}, trainY={form}, {args}) [{kw}, default='
             f'{log.default}, deep={log.deep}]')
    label = label.replace(os.getcwd(), '')
    key = f'learn:{which}'
    before = [freeze(o) for o in (data, X, applyTo, test[0])]
    control = nimble.random.alternateControl
    started = datetime.datetime.now()
    with control(5, useLog=False):
        want = outcome(f, {'useLog': False})
    plain = log.take(key, label, started)
    innerCount = 0
    if which == 'nested':
        # operations inside of a learner
        innerCount = len(plain)
        ctx.check(innerCount in ((0, inner) if log.default else (0,)),
                  f'{key}:nested-entries', lambda: f'{label}: {inner} equal '
                  f'nested calls added {innerCount} entries')
    else:
        ctx.check(not plain, f'{key}:logged-when-off', lambda: f'{label}: '
                  f'with useLog=False added {[r[3] for r in plain]}')
    with control(5, useLog=False):
        got = outcome(f, kw)
    ctx.log(f'{label}: {got[0]} {str(got[1])[:80] if got[0] == "exc" else ""}')
    ctx.event('learning_steps')
    ctx.event('steps')
    if got[0] == 'exc':
        ctx.event('failed_steps')
    if got[0] != want[0] or (got[0] == 'exc'
                             and type(got[1]) is not type(want[1])):
        exc = got[1] if got[0] == 'exc' else want[1]
        ctx.violation(f'{key}:outcome-{type(exc).__name__}', f'{label}: gave '
                      f'{got[0]} {str(got[1])[:300]!r}, without logging '
                      f'{want[0]} {str(want[1])[:300]!r} (in {where(exc)})')
    elif got[0] == 'ok':
        pa, pb = ([describe(ctx, r, applyTo, X) for r in (
            x if isinstance(x, tuple) else (x,))]
            for x in (want[1], got[1]))
        ctx.check(pa == pb, f'{key}:result', lambda: f'{label}: gave '
                  f'{str(pb)[:300]}, without logging {str(pa)[:300]}')
    for o, b, lab in zip((data, X, applyTo, test[0]), before,
                         ('the data', 'trainX', 'the applied data', 'testX')):
        d = frozenDiff(b, freeze(o))
        ctx.check(d is None, f'{key}:altered', lambda: f'{label}: {lab} '
                  f'changed: {d}')
    rows = log.take(key, label, started)
    if got[0] == 'exc' and tuning is not None:
        expectTypes = None
    elif got[0] == 'exc':
        expectTypes = []
    elif log.on(mode):
        expectTypes = expect
    else:
        expectTypes = []
    types = [r[3] for r in rows]
    if got[0] == 'exc' and 'run' in types and which != 'nested':
        ctx.violation(f'{key}:logged-failure', f'{label}: failed, but added '
                      f'{types}')
    if expectTypes is not None:
        if which == 'nested':
            ok = types in (expectTypes, ['run'] * inner + expectTypes) or (
                not log.default and types == expectTypes)
            ctx.check(ok and len(types) - len(expectTypes) in
                      ((0, inner) if log.default else (0,)),
                      f'{key}:nested-entries', lambda: f'{label}: added '
                      f'{types}, {inner} equal calls are nested')
        else:
            ctx.check(types == expectTypes, f'{key}:entries', lambda:
                      f'{label} ({got[0]}): added {types}, expected '
                      f'{expectTypes}')
    ctx.event('learning_entries', len(rows))
    ctx.event('entries', len(rows))
    if not rows:
        ctx.event('steps_without_entry')
    if rows and types == expectTypes and function is not None:
        text = rows[-1][4]
        if 'nan' not in text:
            try:
                d = ast.literal_eval(text)
            except (ValueError, SyntaxError):
                ctx.violation(f'{key}:unreadable', f'{label}: the entry '
                              f'{text[:400]!r} is no description')
                return
            ctx.check(d['function'].split('.')[-1] == {
                'incremental': 'incrementalTrain'}.get(function, function),
                f'{key}:function', lambda: f'{label}: logged {d["function"]}')
            src = multiX if which == 'multi' else data
            if which not in ('apply', 'test', 'load', 'multi'):
                sizes = (d.get('trainDataPoints'), d.get('trainDataFeatures'))
                shape = (len(src.points), 3 if which not in
                         ('normalize', 'fill') else 4)
                ctx.check(sizes == shape, f'{key}:described', lambda:
                          f'{label}: logged training data of {sizes}, it was '
                          f'{shape}')
            ctx.event('entries_described')
            if which in RUNS:
                runDescribed(ctx, key, label, which, d, {
                    'X': X, 'y': y, 'test': test, 'applyTo': applyTo,
                    'named': named, 'form': form, 'args': args, 'seed': seed,
                    'perf': perf, 'got': got[1], 'learner': learner,
                    'data': data})
                if len(rows) > 1 and which != 'nested':
                    tuningDescribed(ctx, key, label, which, rows, perf, args,
                                    got[1], len(data.points))
    ctx.state('learn', which, mode, log.default, log.deep, got[0])


# which -> (trains, tests, the performance is returned, data is returned)
RUNS = {'train': (1, 0, 0, 1), 'tuned': (1, 0, 0, 1), 'nested': (1, 0, 0, 1),
        'trainAndApply': (1, 1, 0, 1), 'trainAndTest': (1, 1, 1, 0),
        'tunedTest': (1, 1, 1, 0), 'onTraining': (1, 0, 1, 0),
        'onTrainingCV': (1, 0, 1, 0), 'apply': (0, 1, 0, 1),
        'test': (0, 1, 1, 0)}


def runDescribed(ctx, key, label, which, d, v):
    """
    The entry of a learning call says what was given and returned.
    """
    trains, tests, scored, returns = RUNS[which]
    want = {}
    name = v['learner']
    want['learner'] = name if isinstance(name, str) else 'custom.' + \
        name.__name__

    def sized(prefix, obj, features, called='?'):
        want[prefix] = obj.name if called == '?' else called
        want[prefix + 'Points'] = len(obj.points)
        want[prefix + 'Features'] = features
    isObject = v['form'] == 'object'
    if trains:
        sized('trainData', v['X'], 3)
        sized('trainLabels', v['X'], 1, v['y'].name if isObject else None)
    if tests and scored:
        sized('testData', v['test'][0], 3)
        sized('testLabels', v['test'][0], 1, v['test'][1].name if isObject
              else None)
    elif tests:
        sized('testData', v['applyTo'], 3)
    wrong = {k: (d.get(k, 'nothing'), w) for k, w in want.items()
             if d.get(k, 'nothing') != w}
    ctx.check(not wrong, f'{key}:data-described', lambda: f'{label}: logged '
              f'(what, expected) {wrong}')
    parts = {'trainData', 'trainLabels', 'testData', 'testLabels'}
    extra = (parts & set(d)) - set(want)
    ctx.check(not extra, f'{key}:data-described', lambda: f'{label}: logged '
              f'{extra}, which were not given')
    if trains:
        given = d.get('arguments', {})
        for k, val in v['args'].items():
            if type(val) in (int, str, float, bool) and which not in (
                    'tuned', 'tunedTest') and val == val:
                ctx.check(given.get(k) == val, f'{key}:arguments', lambda:
                          f'{label}: the argument {k}={val!r} is logged in '
                          f'{given!r}')
        ctx.check(set(given) == set(v['args']), f'{key}:arguments', lambda:
                  f'{label}: logged the arguments {given!r}')
        if v['seed'] is not None:
            ctx.check(d.get('randomSeed') == v['seed'], f'{key}:seed', lambda:
                      f'{label}: logged the seed {d.get("randomSeed")}, '
                      f'given was {v["seed"]}')
    if scored:
        metrics = d.get('metrics', {})
        ok = set(metrics) == {v['perf'].__name__} and abs(
            metrics[v['perf'].__name__] - v['got']) < 1e-9
        ctx.check(ok, f'{key}:metrics', lambda: f'{label}: returned '
                  f'{v["got"]}, logged {metrics}')
    if returns:
        ctx.check(d.get('returned') == ident(v['got']), f'{key}:returned',
                  lambda: f'{label}: the entry says {d.get("returned")!r} '
                  f'was returned, it was {ident(v["got"])!r}')
    ctx.event('runs_described')


def tuningDescribed(ctx, key, label, which, rows, perf, args, got, n):
    """
    The entries of a tuning say what was tried and what came of it.
    """
    if 'nan' in ''.join(r[4] for r in rows[:-1]):
        return
    infos = []
    for r in rows[:-1]:
        try:
            infos.append(ast.literal_eval(r[4]))
        except (ValueError, SyntaxError):
            ctx.violation(f'{key}:unreadable', f'{label}: the entry '
                          f'{r[4][:400]!r} is no description')
            return
    d = infos.pop()
    ctx.check(d['metric'] == (perf.optimal, perf.__name__),
              f'{key}:tuning-metric', lambda: f'{label}: logged the metric '
              f'{d["metric"]}')
    tried = [a.get('a') for _, a in d['performances']]
    values = list(args['a']) if type(args.get('a')).__name__ == 'Tune' else \
        [args.get('a')]
    ctx.check(sorted(tried, key=repr) == sorted(values, key=repr),
              f'{key}:tuning-tried', lambda: f'{label}: logged performances '
              f'of {d["performances"]}')
    if which == 'tuned':
        best = min(p for p, _ in d['performances'])
        ok = [a for p, a in d['performances'] if p == best]
        ctx.check(any(a['a'] == got.arguments['a'] for a in ok),
                  f'{key}:tuning-best', lambda: f'{label}: kept '
                  f'{got.arguments}, logged {d["performances"]}')
        real = list(zip(got.tuning.allResults,
                        [a['a'] for a in got.tuning.allArguments]))
        ctx.check(sorted(real) == sorted(
            (p, a['a']) for p, a in d['performances']),
            f'{key}:tuning-results', lambda: f'{label}: the results are '
            f'{real}, logged {d["performances"]}')
    elif which == 'onTrainingCV':
        ctx.check(abs(d['performances'][0][0] - got) < 1e-9,
                  f'{key}:tuning-results', lambda: f'{label}: returned '
                  f'{got}, logged {d["performances"]}')
    ctx.event('tunings_described')
    sizes = [(i.get('trainDataPoints', 0), i.get('testDataPoints', 0))
             for i in infos]
    ctx.check(all(a > 0 and b > 0 and a + b == n for a, b in sizes),
              f'{key}:deep-sizes', lambda: f'{label}: runs of {sizes} points '
              f'are logged, there are {n}')
    ctx.check(all(set(i.get('metrics', ())) == {perf.__name__}
                  for i in infos), f'{key}:deep-metrics', lambda:
              f'{label}: logged {[i.get("metrics") for i in infos]}')
    if infos and d['validation'] == 'cross validation':
        # the performance is the one of the folds, which are equal parts
        tally = {}
        for i in infos:
            tally.setdefault(i.get('arguments', {}).get('a'), []).append(i)
        ctx.check(sorted(tally, key=repr) == sorted(values, key=repr) and
                  all(sum(i['testDataPoints'] for i in g) == n
                      for g in tally.values()), f'{key}:deep-folds', lambda:
                  f'{label}: the folds logged for each argument are '
                  f'{ {k: [i["testDataPoints"] for i in g] for k, g in tally.items()} }')
    ctx.event('deep_described', len(infos))


def describe(ctx, x, applyTo, X):
    if hasattr(x, 'apply') and hasattr(x, 'learnerName'):
        return ('learner', x.learnerName, str(sorted(
            (k, type(v).__name__) for k, v in (x.arguments or {}).items())))
    return picture(x)


# -- queries ---------------------------------------------------------------

WORDS = ['alpha', 'be_ta', '100%', "it's", 'a"b', 'back\\slash', 'x.y', 'Up',
         'up', 'né', 'line\nbreak', '[q]', 'tab\tbed', 'a*b', 'z']
LEVELS = {'load': 1, 'tl': 1, 'report': 1, 'setSeed': 1, 'prep': 2, 'run': 2,
          'tuning': 2, 'deepRun': 3}


def fillSession(ctx, log, entries, session):
    """
    Entries of every type, each with a token of its own.
    """
    rng = ctx.rng
    nimble = ctx.nimble
    for _ in range(rng.randint(1, 5)):
        COUNTER[0] += 1
        tok = f'tok{COUNTER[0]:06d}'
        word = rng.choice(WORDS)
        started = datetime.datetime.now()
        which = rng.choice(['user', 'user', 'userlist', 'userdict', 'load',
                            'prep', 'run', 'tuning', 'report', 'setSeed'])
        if which in ('load', 'prep'): # names have no whitespace
            word = ''.join(word.split())
        texts = [word, tok]
        if which == 'user':
            nimble.log(tok, word)
        elif which == 'userlist':
            nimble.log(tok, [word, 5])
        elif which == 'userdict':
            nimble.log(tok, {'k': word, 'f': rng.choice(
                [1.5, math.nan, -math.inf, [math.inf, word], None])})
        elif which == 'load':
            nimble.data([[1, 2]], name=tok + word, useLog=True)
        elif which == 'prep':
            d = nimble.data([[1, 2]], name=tok + word, useLog=False)
            d.points.copy(0, useLog=True)
        elif which == 'run':
            d = nimble.data([[1, 2, 3], [2, 3, 4]], name=tok, useLog=False)
            if rng.random() < .4:
                # the performance need not be finite
                v = rng.choice([math.nan, math.inf, -math.inf, .5])
                nimble.trainAndTest(
                    STATE['counting'], constantMetric(nimble, v), d, 2, d, 2,
                    b=word, useLog=True)
                ctx.event('nonfinite_entries', v != .5)
            else:
                nimble.train(STATE['counting'], d, 2, b=word, useLog=True)
        elif which == 'tuning':
            nimble.settings.set('logger', 'enableDeepLogging', 'True')
            d = nimble.data([[1, 2, 3], [2, 3, 4], [1, 1, 1], [4, 3, 2]],
                            name=tok, useLog=False)
            nimble.train(STATE['counting'], d, 2, a=nimble.Tune([1, 2]),
                         b=tok, useLog=True, tuning=nimble.Tuning(
                             'brute force', 'cross validation',
                             rng.choice([
                                 nimble.calculate.rootMeanSquareError,
                                 constantMetric(nimble, math.inf)]),
                             folds=2))
            nimble.settings.set('logger', 'enableDeepLogging', 'False')
            texts = [tok]
        elif which == 'report':
            nimble.data([[1, 2], [3, 4]], featureNames=[tok, 'q'],
                        useLog=False).features.report(useLog=True)
            texts = [tok]
        else:
            nimble.random.setSeed(COUNTER[0] + 5000000, useLog=True)
            tok = str(COUNTER[0] + 5000000)
            texts = [tok]
        rows = log.take('query:fill', which, started)
        want = {'tuning': ['deepRun'] * 4 + ['tuning', 'run']}.get(
            which, [None])
        ctx.check(len(rows) == len(want), f'query:fill-{which}', lambda:
                  f'{which}: added {[r[3] for r in rows]}')
        for r in rows:
            typ = r[3]
            entries.append({'id': r[0], 'session': r[2], 'type': typ,
                            'level': LEVELS.get(typ, 0), 'token': tok,
                            'texts': texts + [typ], 'word': word,
                            'info': r[4]})


def constantMetric(nimble, value):
    @nimble.calculate.performanceFunction('min', 0)
    def constantMetric(known, predicted):
        return value
    return constantMetric


def evaluate(text):
    """
    The information of an entry, floats need not be finite.
    """
    try:
        return ast.literal_eval(text)
    except ValueError:
        tree = ast.parse(text, mode='eval')
        for node in ast.walk(tree):
            if isinstance(node, ast.Call) or isinstance(node, ast.Name) and \
                    node.id not in ('nan', 'inf'):
                raise
        return eval(text, {'__builtins__': {}, 'nan': math.nan,
                           'inf': math.inf})


def stampAll(ctx, log, entries):
    """
    Move the entries through time, in order.
    """
    t = datetime.datetime(2024, 2, 27, 22, 30, 0)
    log.nimble.core.logger.active.cleanup()
    with contextlib.closing(sqlite3.connect(log.file)) as con:
        for e in entries:
            t += ctx.rng.choice([
                datetime.timedelta(0), datetime.timedelta(seconds=1),
                datetime.timedelta(seconds=30), datetime.timedelta(minutes=7),
                datetime.timedelta(hours=5), datetime.timedelta(days=1)])
            e['time'] = t
            con.execute('UPDATE logger SET timestamp=? WHERE entry=?',
                        (t.strftime('%Y-%m-%d %H:%M:%S'), e['id']))
        con.commit()
    log.last = log.rows()


def dateForms(rng, t):
    """
    [(argument, moment)]: ways to give (almost) the moment t.
    """
    r = rng.random()
    if r < .25:
        return t.strftime('%Y-%m-%d'), t.replace(hour=0, minute=0, second=0)
    if r < .5:
        return t.strftime('%Y-%m-%d %H:%M'), t.replace(second=0)
    if r < .75:
        return t.strftime('%Y-%m-%d %H:%M:%S'), t
    if r < .9:
        return t, t
    return (t + datetime.timedelta(microseconds=3),) * 2


def shown(text):
    """
    The sessions and entries shown: [(session, block)]
    """
    blocks = text.split('.' * 79)
    session = None
    ret = []
    pending = None
    for i, b in enumerate(blocks):
        m = re.fullmatch(r'\n?\n?\. *SESSION (\d+) *\.\n', b)
        if m:
            session = int(m.group(1))
            continue
        if i == 0 and 'NIMBLE LOGS' in b:
            continue
        if b.strip():
            ret.append((session, b))
    return ret


def shownParts(e):
    """
    What has to be shown of an entry, whitespace aside.
    """
    try:
        info = evaluate(e['info'])
    except (ValueError, SyntaxError):
        return []
    pairs = lambda x: [f'{k}={v}' for k, v in x.items()]
    cell = lambda x: x if len(x) < 26 else x[:22]
    typ = e['type']
    if typ == 'load':
        ret = [f'Loaded: {info["identifier"]}',
               f'# of points {info["numPoints"]}',
               f'# of features {info["numFeatures"]}']
        ret += [f'{k} {v}' for k, v in info.items() if v is not None and
                k not in ('identifier', 'numPoints', 'numFeatures')]
    elif typ == 'prep':
        ret = [f'{info["identifier"]}.{info["function"]}']
        ret += pairs(info['arguments'])
        if 'returned' in info:
            ret.append(f'Returned: {info["returned"]}')
    elif typ in ('run', 'deepRun'):
        ret = [f'{info["function"]}("{info["learner"]}")']
        for part, name in (('trainData', 'trainX'), ('trainLabels', 'trainY'),
                           ('testData', 'testX'), ('testLabels', 'testY')):
            if part in info:
                name = name if info[part] is None else cell(info[part])
                if len(name) == 22:
                    name += '...'
                ret.append(f'{name} {info[part + "Points"]} '
                           f'{info[part + "Features"]}')
        ret += pairs(info.get('arguments', {}))
        ret += pairs(info.get('metrics', {}))
        ret += [f'{k}: {v}' for k, v in info.get('extraInfo', {}).items()]
        if 'randomSeed' in info:
            ret.append(f'Random Seed: {info["randomSeed"]}')
        if 'returned' in info:
            ret.append(f'Returned: {info["returned"]}')
        if 'time' in info:
            ret.append(f'in {info["time"]:.3f} seconds')
    elif typ == 'tuning':
        ret = [f'"{info["selection"]}" method', f'"{info["validation"]}"',
               f'{info["metric"][1]} function', f'{info["learnerName"]}',
               f'{info["metric"][0]} values being optimal']
        ret += pairs(info['selectionArgs']) + pairs(info['validationArgs'])
        ret += [f'{p:.3f} ' + ', '.join(pairs(a))
                for p, a in info['performances']]
    elif typ == 'setSeed':
        ret = [f'{info["action"]}(seed={info["seed"]})']
    elif typ == 'report':
        ret = [f'{info["reportType"]} Report'.capitalize()[:3],
               info['reportInfo']]
    elif isinstance(info, str):
        ret = [typ, info]
    elif isinstance(info, list):
        ret = [typ, str(info)] if len(str(info)) < 79 else [typ]
    else:
        ret = [typ] + pairs(info)
    return ret


def checkQueries(ctx):
    rng = ctx.rng
    nimble = ctx.nimble
    with logged(ctx) as log:
        entries = []
        for s in range(rng.randint(1, 5)):
            if s:
                log.newSession()
            fillSession(ctx, log, entries, s)
        # blank sessions (nothing logged) do not count
        stampAll(ctx, log, entries)
        for _ in range(rng.randint(3, 6)):
            query(ctx, log, entries)


def query(ctx, log, entries):
    rng = ctx.rng
    nimble = ctx.nimble
    kw = {}
    if rng.random() < .8:
        kw['levelOfDetail'] = rng.choice([1, 2, 3, 3])
    if rng.random() < .7:
        kw['mostSessionsAgo'] = rng.choice([None, 1, 2, 3, 6, 9])
    if rng.random() < .3 and 'mostSessionsAgo' in kw:
        most = kw['mostSessionsAgo']
        kw['leastSessionsAgo'] = rng.choice(
            [None, 0] + [k for k in (1, 2, 3) if most is None or k <= most])
    moments = {}
    if rng.random() < .5:
        picks = sorted(rng.choice(entries)['time'] + datetime.timedelta(
            seconds=rng.choice([0, 0, 0, -1, 1, -3600, 86400]))
            for _ in range(2))
        r = rng.random()
        if r < .65:
            kw['startDate'], moments['start'] = dateForms(rng, picks[0])
        if r > .35:
            kw['endDate'], moments['end'] = dateForms(rng, picks[1])
    if rng.random() < .5:
        kw['maximumEntries'] = rng.choice([None, 1, 2, 3, 5, 8])
    matches = lambda e: True
    r = rng.random()
    if r < .2:
        e = rng.choice(entries)
        text = rng.choice([e['token'], e['type'], e['token'][2:],
                           e['token'].upper()])
        kw['searchForText'] = text
        matches = lambda e: any(text.lower() in t.lower()
                                for t in e['texts'] + [e['info']])
    elif r < .45:
        text = rng.choice(WORDS)
        kw['searchForText'] = text
        matches = lambda e: (any(text.lower() in t.lower()
                                 for t in e['texts'])
                             or text.lower() in e['info'].lower())
    elif r < .6:
        e = rng.choice(entries)
        text = rng.choice([
            e['token'], '^' + e['type'] + '$', r'tok\d+', r'1\d\d', '.*',
            'tok0*' + (e['token'].lstrip('tok0') or '0'),
            re.compile(e['token']),
            re.compile(e['token'].upper(), re.IGNORECASE),
            'prep|load', r'^(run|tuning)$', 'no such text'])
        kw['searchForText'] = text
        kw['regex'] = True
        matches = lambda e: any(re.search(text, t) for t in
                                (e['type'], e['info'], e['token']))
    if moments.get('start') and moments.get('end') and \
            moments['start'] > moments['end']:
        refused = True
    else:
        refused = False
    mx = max(e['session'] for e in entries)
    least = kw.get('leastSessionsAgo', 0)
    most = kw.get('mostSessionsAgo', 1)
    sel = [e for e in entries
           if (least is None or e['session'] <= mx - least)
           and (most is None or e['session'] > mx - most)
           and ('start' not in moments or e['time'] >= moments['start'])
           and ('end' not in moments or e['time'] <= moments['end'])
           and matches(e)]
    level = kw.get('levelOfDetail', 2)
    limit = kw.get('maximumEntries', 100)
    visible = lambda es: [e for e in es if e['level'] <= level]
    first = visible(sel if limit is None else sel[-limit:])
    second = visible(sel)
    second = second if limit is None else second[-limit:]
    label = f'showLog({kw})'
    key = 'query:' + ('+'.join(sorted(kw)) or 'all')
    out = io.StringIO()
    target = rng.choice(['print', 'file', 'append'])
    path = None
    before = ''
    started = datetime.datetime.now()

    def run():
        if target == 'print':
            with contextlib.redirect_stdout(out):
                return nimble.showLog(**kw)
        return nimble.showLog(saveToFileName='shown.txt',
                              append=target == 'append', **kw)
    path = os.path.join(log.dir, 'shown.txt')
    if target != 'print' and os.path.exists(path):
        with open(path, encoding='utf-8') as f:
            before = f.read()
    got = outcome(run)
    ctx.log(label)
    ctx.event('queries')
    if got[0] == 'exc':
        if not refused:
            ctx.violation(f'query:raises-{type(got[1]).__name__}', f'{label} '
                          f'raised {type(got[1]).__name__}: {got[1]} (in '
                          f'{where(got[1])})')
        ctx.event('refused_queries')
        return
    if refused:
        ctx.violation('query:reversed-dates', f'{label} was accepted, the '
                      f'start is after the end')
        return
    if target == 'print':
        text = out.getvalue()
    else:
        with open(path, encoding='utf-8') as f:
            text = f.read()
        if target == 'append':
            ctx.check(text.startswith(before), 'query:append', lambda:
                      f'{label}: appending changed the previous text')
            text = text[len(before):]
    blocks = shown(text)
    wants = [first, second] if first != second else [first]

    def diff(want):
        if len(blocks) != len(want):
            return (f'shows {len(blocks)} entries, expected {len(want)}: '
                    f'{[(e["type"], e["token"]) for e in want][:8]}')
        for (s, b), e in zip(blocks, want):
            flat = b.replace('\n' + ' ' * 16, '').replace('\n', '')
            if s != e['session']:
                return f'{e["token"]} is shown in session {s}'
            if e['token'] not in b and e['token'] not in flat:
                return (f'the entry {e["type"]} {e["token"]} is shown as '
                        f'{b[:300]!r}')
            if e['time'].strftime('%Y-%m-%d %H:%M:%S') not in b:
                return (f'the entry {e["token"]} of {e["time"]} is shown as '
                        f'{b[:300]!r}')
            packed = ''.join(b.split())
            for part in shownParts(e):
                if ''.join(part.split()) not in packed:
                    return (f'{part!r} of the entry {e["type"]} '
                            f'{e["token"]} is not shown: {b[:900]!r}')
        return None
    diffs = [diff(w) for w in wants]
    what = ('text' if 'searchForText' in kw else 'dates' if moments
            else 'sessions')
    ctx.check(None in diffs, f'query:entries-{what}', lambda:
              f'{label}: {diffs[0]}')
    ctx.event('query_entries', len(blocks))
    rows = log.take('query', label, started)
    ctx.check(not rows, 'query:logged', lambda: f'{label}: added {rows!r}')
    ctx.state('query', what, len(blocks) > 0, level, target)


# -- crashes and concurrent writers ----------------------------------------

def child(f):
    """
    Run f in a child process, which reports what it did to a pipe.
    """
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            signal.setitimer(signal.ITIMER_REAL, 0)
            os.close(r)
            f(lambda text: os.write(w, (text + '\n').encode()))
        finally:
            os._exit(0)
    os.close(w)
    return pid, r


def readSome(fd, n, limit=20):
    """
    Lines from the pipe until n were read (or it was closed).
    """
    import select
    data = b''
    end = time.time() + limit
    while data.count(b'\n') < n and time.time() < end:
        ready, _, _ = select.select([fd], [], [], .5)
        if not ready:
            continue
        part = os.read(fd, 65536)
        if not part:
            break
        data += part
    return data.decode().splitlines()


def checkKilled(ctx):
    """
    A process is killed at any moment: what it completed is in the log.
    """
    rng = ctx.rng
    nimble = ctx.nimble
    with logged(ctx, default=True) as log:
        n0 = rng.randint(0, 2)
        for i in range(n0):
            nimble.log(f'before{i}', 'x')
        nimble.core.logger.active.cleanup()
        before = log.rows()
        big = rng.choice([10, 10, 20000])

        def work(say):
            obj = nimble.data([[3, 1], [2, 5]], useLog=False)
            for i in range(100000):
                nimble.log(f'w{i}', 'y' * big)
                say(f'w{i}')
                obj.name = f'p{i}'
                obj.points.sort(by=0, useLog=True)
                say(f'p{i}')
        pid, fd = child(work)
        n = rng.randint(0, 12)
        acks = readSome(fd, n) if n else []
        time.sleep(rng.choice([0, 0, .001, .004]))
        os.kill(pid, signal.SIGKILL)
        acks += [a for a in readSome(fd, 10 ** 9, 10)]
        os.close(fd)
        os.waitpid(pid, 0)
        ctx.event('killed')
        ctx.event('acknowledged', len(acks))
        if not acks and not os.path.exists(log.file):
            ctx.event('killed_before_the_first_entry')
            return
        try:
            with contextlib.closing(sqlite3.connect(log.file)) as con:
                good = con.execute('PRAGMA integrity_check').fetchall()
            rows = log.rows()
        except sqlite3.DatabaseError as e:
            ctx.violation('killed:unreadable', f'after a kill: {e}')
            return
        ctx.check(good == [('ok',)], 'killed:integrity', lambda: str(good))
        ctx.check(rows[:len(before)] == before, 'killed:older-changed',
                  lambda: 'older entries changed')
        done = []
        for r in rows[len(before):]:
            if r[3].startswith('User'):
                done.append(r[3].split(' - ')[1])
                ctx.check(r[4] == repr('y' * big), 'killed:torn', lambda:
                          f'the entry {r[3]} is torn: {r[4][:50]!r}')
            else:
                done.append(ast.literal_eval(r[4])['identifier'])
        # what was acknowledged is there, and at most one more
        ctx.check(done[:len(acks)] == acks and len(done) <= len(acks) + 1,
                  'killed:entries', lambda: f'acknowledged {acks}, the log '
                  f'holds {done}')
        # and the log continues to work
        started = datetime.datetime.now()
        nimble.settings.set('logger', 'name', log.name)
        must(ctx, 'killed:after', 'nimble.log after a kill', nimble.log,
             'after', 'z')
        rows2 = log.rows()
        ctx.check(rows2[:-1] == rows and rows2[-1][3] == 'User - after' and
                  (not rows or rows2[-1][2] > max(r[2] for r in rows)),
                  'killed:after', lambda: f'after a kill {rows2[-1:]!r}')
        ctx.state('killed', len(acks), len(done) - len(acks), big)


def checkWriters(ctx):
    """
    Several processes log to the same file at once.
    """
    rng = ctx.rng
    nimble = ctx.nimble
    with logged(ctx, default=True) as log:
        if rng.random() < .5:
            nimble.log('before', 'x')
        nimble.core.logger.active.cleanup()
        nimble.settings.set('logger', 'name', log.name)
        before = log.rows()
        k = rng.randint(2, 4)
        per = rng.randint(3, 8)
        kids = []
        for j in range(k):
            def work(say, j=j):
                for i in range(per):
                    try:
                        nimble.log(f'c{j}e{i}', 'y')
                        say('ok')
                    except Exception as e:  # pylint: disable=broad-except
                        say(f'failed {type(e).__name__} {e}')
            kids.append(child(work))
        for j, (pid, fd) in enumerate(kids):
            acks = readSome(fd, 10 ** 9, 40)
            os.close(fd)
            os.waitpid(pid, 0)
            bad = [a for a in acks if a != 'ok']
            ctx.check(not bad and len(acks) == per, 'writers:failed', lambda:
                      f'with {k} writers: {bad[:2]} ({len(acks)} of {per})')
            ctx.event('acknowledged', len(acks))
        rows = log.rows()
        got = [r[3].split(' - ')[1] for r in rows[len(before):]]
        for j in range(k):
            mine = [g for g in got if g.startswith(f'c{j}e')]
            ctx.check(mine == [f'c{j}e{i}' for i in range(per)],
                      'writers:entries', lambda: f'writer {j} of {k}: the '
                      f'log holds {mine}, {per} were written')
        ctx.event('concurrent_entries', len(got))
        inter = sum(a[:2] != b[:2] for a, b in zip(got, got[1:]))
        ctx.event('interleavings', inter)
        ctx.state('writers', k, per, inter)


# -- the workloads of the other checks ---------------------------------------

BORROWED = ['c01', 'c02', 'c04', 'c05', 'c06', 'c07', 'c08', 'c09', 'c10',
            'c11', 'c12', 'c13', 'c14', 'c15', 'c17', 'c18', 'c19', 'c22',
            'c23', 'c24', 'c25']
NIMBLE = os.path.join(env.REPO, 'nimble') + os.sep
LOGGER = os.path.join(NIMBLE, 'core', 'logger') + os.sep
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + os.sep
# calls that add several entries: the search for arguments and its validations
TUNED = {'tuning', 'deepRun'}


def entryCall(frame):
    """
    The frame of the call of nimble by code that is not nimble's, in which the
    frame is.
    """
    called = None
    while frame is not None:
        name = frame.f_code.co_filename
        if name.startswith(NIMBLE):
            called = frame
        elif name.startswith(HERE) and called is not None:
            break
        frame = frame.f_back
    return called


def direct(frame):
    """
    Whether the frame is the one of the call by the program, decorations
    aside.
    """
    while (frame is not None
           and frame.f_code.co_filename.startswith(LOGGER)):
        frame = frame.f_back
    while frame is not None:
        before = frame.f_back
        if before is None:
            return False
        if before.f_code.co_filename.startswith(NIMBLE):
            if before.f_code.co_name not in ('wrapped', 'wrapper'):
                return False
            frame = before
        else:
            return before.f_code.co_filename.startswith(HERE)
    return False


class Recorder:
    """
    Takes the place of the function that writes an entry: notes for which call
    of the program (a function of nimble called by code that is not nimble's)
    the entry is.
    """
    def __init__(self, original):
        self.original = original
        self.entries = []
        self.forced = 0

    def log(self, logger, logType, logInfo):
        called = entryCall(sys._getframe(1)) # pylint: disable=protected-access
        what, useLog = None, 'none'
        if called is not None:
            what = called.f_code.co_name
            useLog = called.f_locals.get('useLog', 'none')
            for inner in called.f_locals.values():
                if what == 'wrapped' and inspect.isfunction(inner):
                    what = inner.__name__
                    if 'useLog' in inspect.signature(inner).parameters:
                        useLog = None
                    break
        self.entries.append((called, what, useLog, logType, repr(logInfo)))

    def enabled(self, useLog):
        """
        A call by the program is logged, also if the workload asks for no
        entry; what it calls itself is as it says.
        """
        if useLog is False:
            frame = sys._getframe(1) # pylint: disable=protected-access
            if direct(frame):
                self.forced += 1
                return True
        return self.original(useLog)


class Guest:
    """
    The context of a borrowed workload.
    """
    def __init__(self, ctx, name):
        self._ctx = ctx
        self._name = name

    def __getattr__(self, name):
        return getattr(self._ctx, name)

    def event(self, name, n=1):
        pass

    def state(self, *args):
        self._ctx.state('borrowed', self._name, *args[:2])

    def check(self, cond, key, msg, **kwargs):
        return self._ctx.check(cond, f'borrowed:{self._name}:{key}', msg,
                               **kwargs)

    def violation(self, key, msg, **kwargs):
        self._ctx.violation(f'borrowed:{self._name}:{key}', msg, **kwargs)


def checkBorrowed(ctx):
    """
    Another check's workload with logging on: a call adds no entry or the one
    entry of this call, and everything gives what it gives without logging.
    """
    rng = ctx.rng
    name = rng.choice(BORROWED)
    mod = STATE['borrowed'][name]
    kinds = mod.KINDS
    kind, _, func = rng.choices(kinds, [w for _, w, _ in kinds])[0]
    st = ctx.nimble.settings
    saved = st.get('logger', 'enabledByDefault')
    source = ctx.nimble.core.logger.session_logger
    logger = type(ctx.nimble.core.logger.active)
    log, enabled = logger.log, source.loggingEnabled
    rec = Recorder(enabled)
    st.set('logger', 'enabledByDefault', 'True')
    logger.log = lambda self, logType, logInfo: rec.log(self, logType, logInfo)
    source.loggingEnabled = rec.enabled
    try:
        func(Guest(ctx, name))
    finally:
        logger.log, source.loggingEnabled = log, enabled
        st.set('logger', 'enabledByDefault', saved)
    calls = {}
    for called, *entry in rec.entries:
        calls.setdefault(id(called), []).append(entry)
    for entries in calls.values():
        what, useLog = entries[0][:2]
        types = [e[2] for e in entries]
        label = f'{name} {kind}: {what} added {[e[2:] for e in entries]}'
        ctx.check(what is not None, 'borrowed:origin', lambda:
                  f'{label} in no call of the program')
        ctx.check(useLog != 'none', f'borrowed:silent:{what}', lambda:
                  f'{label}, it is no logged operation')
        if what == 'alternateControl':
            most = 2
        else:
            most = 1
            types = [t for t in types if t not in TUNED]
        ctx.check(len(types) <= most, f'borrowed:entries:{what}', lambda:
                  label)
        for _, _, typ, info in entries:
            if typ == 'prep':
                function = ast.literal_eval(info)['function']
                ctx.check(function.split('.')[-1] == what,
                          f'borrowed:function:{what}', lambda: label)
        ctx.state('logged', what, tuple(types))
        ctx.event('borrowed_calls_logged')
    ctx.event('borrowed_entries', len(rec.entries))
    ctx.event('borrowed')
    rec.entries.clear()


KINDS = [('data', 6, checkDataOps), ('borrowed', 18, checkBorrowed),
         ('forms', 4, checkForms), ('learning', 4, checkLearning),
         ('queries', 3, checkQueries),
         ('killed', .8, checkKilled), ('writers', .5, checkWriters)]
ASSUMPTIONS = [
    'processes that start logging to the same file at the same moment may '
    'share a session number',
]
LEVEL = 'exploration'
