"""Settings behave as a layered store and survive crashes."""
import configparser
import contextlib
import json
import os
import pathlib
import pickle
import random
import re
import resource
import shutil
import signal
import subprocess
import sys
import time

from vlib.runner import where, Skip
from checks.common import call

PROPERTY = 'C21'
RULE = ('random histories of set, get, setDefault, saveChanges and hooks over '
        'one or two sessions sharing a configuration file, with any text as '
        'names and values, interleaved with data, learning and log '
        'operations; after every step every setting read in every session '
        'and by a new session is compared with a layered model; saving is '
        'killed at interpreter events and at bytes written, made to fail, '
        'and run concurrently with readers; non-trivial: distinct (kind, '
        'operation, outcome, kind of text)')
QUICK = {'cases': 800, 'seconds': 60}
THOROUGH = {'cases': 12000, 'seconds': 800}
MIN = {'sets': 1200, 'saves': 1100, 'settings_read': 30000, 'steps': 2600,
       'files_read': 3800, 'crashes': 200, 'recoveries': 80, 'faults': 50,
       'work_steps': 380, 'hooks': 60, 'concurrent_saves': 120,
       'processes': 4, 'second_sessions': 80}
CASE_SECONDS = 90
SEQ = [0]


# -- texts -----------------------------------------------------------------

PLAINNAME = re.compile(r'[A-Za-z][A-Za-z0-9]*([._ -]?[A-Za-z0-9]+)*\Z')
# kept apart by case, prefixes of one another
SECTIONS = ['alpha', 'Alpha', 'beta.x', 'beta', 'zzz last', 'gamma-1']
OPTIONS = ['one', 'One', 'two.three', 'two', 'four five', 'n-1', 'location',
           'name']
ODDNAMES = ['', ' pad', 'pad ', 'a=b', 'a:b', '#hash', '; semi', '[x', 'x]',
            'a]b', 'rem x', 'ü', 'a%b', 'line\nbreak', 'DEFAULT', 'tab\tx',
            '\udc80', '=', ':', 'é=']
VALUES = ['plain', '', '0', '17', '-2.5', 'True', 'False', 'none',
          '/path/to/data', 'C:\\dir\\x', './logs', 'two words', 'x=y',
          'k: v', '#starts', '; starts', 'in # the middle', 'a ; b',
          '[section]', '50%', '%(one)s', '%%', '100%% sure', '%', '${one}',
          '"quoted"', "it's", 'é ü ß', '日本語', 'a' * 3000, 'x,y,z', '= lead',
          ': lead', '\\n', '{"a": [1, 2]}', 'tab\tinside', '=', '%s %d',
          'ends with %', '${alpha:one}', '😀']
ODDVALUES = [' lead', 'trail ', 'a\nb', 'a\n\nb', 'a\n#b', 'a\n[b]\nc = d',
             '\n', '\t', 'a\rb', 'a\r\nb', 'x\x0cy', 'x\u2028y', '\xa0nbsp',
             'a\n b', '\udc80bad', 'nul\x00', 'a\nb = c', 'a\n', None, 5,
             2.5, True, False, ['l'], b'bytes']


def plainValue(v):
    return (isinstance(v, str) and v == v.strip() and v.isprintable()
            or v in ('tab\tinside',))


def plain(section, option, value):
    return (PLAINNAME.match(section) and PLAINNAME.match(option)
            and section != 'DEFAULT' and plainValue(value))


def drawName(rng, pool):
    if rng.random() < .08:
        return rng.choice(ODDNAMES)
    return rng.choice(pool[:rng.choice([2, 3, len(pool)])])


def drawValue(rng, odd=.12):
    if rng.random() < odd:
        return rng.choice(ODDVALUES)
    if rng.random() < .3:
        return f'v{rng.randrange(10 ** 6)}'
    return rng.choice(VALUES)


def textKind(v):
    if not isinstance(v, str):
        return type(v).__name__
    if plainValue(v):
        return ('percent' if '%' in v else 'empty' if not v else
                'ascii' if v.isascii() else 'unicode')
    return 'odd'


# -- files and sessions ----------------------------------------------------

def newDir():
    SEQ[0] += 1
    d = os.path.join(os.getcwd(), f'settings{os.getpid()}_{SEQ[0]}')
    os.makedirs(d)
    return d


@contextlib.contextmanager
def place(kind):
    """a scratch folder as home and, for kind 'cwd', as working directory
    of a session"""
    start = os.getcwd()
    home = os.environ['HOME']
    d = newDir()
    try:
        os.environ['HOME'] = os.path.join(d, 'home')
        os.makedirs(os.environ['HOME'])
        work = os.path.join(d, 'work')
        os.makedirs(work)
        os.chdir(work)
        path = os.path.join(work if kind == 'cwd' else os.environ['HOME'],
                            '.nimble.ini')
        yield d, path
    finally:
        os.chdir(start)
        os.environ['HOME'] = home
        shutil.rmtree(d, ignore_errors=True)


def writeFile(rng, path, settings):
    """an initial configuration file, as a person could have written it"""
    sep = rng.choice([' = ', '=', ': ', ' : '])
    with open(path, 'w', encoding='utf-8') as f:
        if rng.random() < .3:
            f.write('# my settings\n\n')
        for section, options in settings.items():
            f.write(f'[{section}]\n')
            for option, value in options.items():
                f.write(f'{option}{sep}{value}\n')
            f.write('\n' * rng.randint(0, 2))


def deep(d):
    return {k: dict(v) for k, v in d.items()}


def startSettings(rng):
    ret = {}
    for sec in rng.sample(SECTIONS, rng.randint(0, 3)):
        ret[sec] = {opt: rng.choice([v for v in VALUES if v and
                                     v[0] not in '=:'])
                    for opt in rng.sample(OPTIONS, rng.randint(1, 3))}
    return ret


def readAll(config):
    return {k: dict(v) for k, v in config.get().items() if v}


def clean(d):
    """without empty sections, which cannot be observed by reading"""
    return {k: dict(v) for k, v in d.items() if v}


class Session:
    """the model of one session"""

    def __init__(self, config, saved):
        self.config = config
        self.view = deep(saved)
        self.changes = {}
        self.hooked = {}

    def expected(self, section, option, current):
        """every acceptable value; another session may have saved a newer
        one, which this session may or may not see"""
        if option in self.changes.get(section, {}):
            return [self.changes[section][option]]
        ret = []
        for layer in (self.view, current):
            if option in layer.get(section, {}):
                ret.append(layer[section][option])
            else:
                ret.append(KeyError)
        return ret


def same(a, b):
    return type(a) is type(b) and a == b


def readOption(config, section, option):
    try:
        return config.get(section, option)
    except (configparser.NoSectionError, configparser.NoOptionError):
        return KeyError


def known(model):
    ret = []
    for layer in model:
        for sec, options in layer.items():
            for opt in options:
                if (sec, opt) not in ret:
                    ret.append((sec, opt))
    return ret


def judgeSession(ctx, s, current, label, ident):
    """everything a session reads, against the model"""
    rng = ctx.rng
    pairs = known([s.changes, s.view, current])
    for sec, opt in pairs + [('noSuch', 'one')]:
        if opt == '__name__':
            continue
        got = readOption(s.config, sec, opt)
        want = s.expected(sec, opt, current)
        ctx.check(any(same(got, w) for w in want), f'read-option:{label}',
                  lambda: f'after {ident}, get({sec!r}, {opt!r}) is {got!r}, '
                  f'not {want!r}')
        ctx.event('settings_read')
    full = s.config.get()
    for sec in {p[0] for p in pairs} - {'DEFAULT'}:
        want = {opt: s.expected(sec, opt, current) for x, opt in pairs
                if x == sec}
        try:
            one = s.config.get(sec)
        except configparser.NoSectionError:
            one = {}
        for name, got in (('section', one), ('all', full.get(sec, {}))):
            for opt, allowed in want.items():
                v = got.get(opt, KeyError)
                ctx.check(any(same(v, w) for w in allowed),
                          f'read-{name}:{label}',
                          lambda: f'after {ident}, the option {opt!r} of '
                          f'{sec!r} is {v!r} in the {name} query, not '
                          f'{allowed!r}')
            ctx.check(set(got) <= set(want), f'read-{name}-extra:{label}',
                      lambda: f'after {ident}, the {name} query of {sec!r} '
                      f'has options {sorted(got)} instead of {sorted(want)}')
    extra = {k for k, v in full.items() if v} - {p[0] for p in pairs}
    ctx.check(not extra, f'read-all-extra:{label}',
              lambda: f'after {ident}, get() has the sections {extra!r}')
    # what was returned is not connected to the settings
    if rng.random() < .5:
        for part in full.values():
            part['scribbled'] = 'x'
        full['scribbled'] = {'x': 'y'}
        for sec in list({p[0] for p in pairs})[:1]:
            with contextlib.suppress(configparser.NoSectionError):
                s.config.get(sec)['scribbled'] = 'x'
        after = s.config.get()
        ctx.check('scribbled' not in after and
                  not any('scribbled' in v for v in after.values()),
                  f'returned-shared:{label}',
                  lambda: f'changing what get returned changed the settings '
                  f'to {after!r}')


def judgeFile(ctx, path, current, label, ident, oneOf=None):
    """what a new session reads is what was saved"""
    config = ctx.nimble.core.configuration.SessionConfiguration
    try:
        fresh = readAll(config(path))
    except Exception as e:  # pylint: disable=broad-except
        ctx.violation(f'file-broken:{label}',
                      f'after {ident}, the configuration does not load: '
                      f'{type(e).__name__}: {e}')
    want = clean(current)
    ctx.event('files_read')
    if oneOf is None:
        ctx.check(fresh == want, f'file:{label}',
                  lambda: f'after {ident}, a new session reads {fresh!r}, '
                  f'saved were {want!r}')
        return fresh
    for sec, opt in known([fresh, want, oneOf]):
        allowed = [x.get(sec, {}).get(opt, KeyError) for x in (want, oneOf)]
        got = fresh.get(sec, {}).get(opt, KeyError)
        ctx.check(got in allowed, f'file:{label}',
                  lambda: f'after {ident}, a new session reads {got!r} for '
                  f'{opt!r} of {sec!r}, which was {allowed[0]!r} before and '
                  f'{allowed[1]!r} was being saved')
    return fresh


REFUSAL = (ValueError, TypeError, configparser.Error)


def pending(s, section, option):
    """[(section, option, value)] that saving would write"""
    return [(sec, opt, v) for sec, options in s.changes.items()
            for opt, v in options.items()
            if (section is None or sec == section)
            and (option is None or opt == option)]


def applySave(s, current, items):
    for sec, opt, v in items:
        for layer in (s.view, current):
            layer.setdefault(sec, {})[opt] = v if isinstance(v, str) else \
                str(v)
        del s.changes[sec][opt]
        if not s.changes[sec]:
            del s.changes[sec]


def tokens(obj):
    return repr(obj)[:60]


class History:
    def __init__(self, ctx, path, saved):
        self.ctx = ctx
        self.path = path
        self.current = deep(saved)
        self.sessions = []
        self.calls = []
        self.two = False

    def open(self, config):
        s = Session(config, self.current)
        self.sessions.append(s)
        return s

    def setOption(self, s, sec, opt, value, label='set'):
        ctx = self.ctx
        before = s.expected(sec, opt, self.current)
        self.calls.clear()
        st, e = call(ctx, lambda: s.config.set(sec, opt, value))
        if st == 'exc':
            ctx.check(not plain(sec, opt, value), f'refused-{label}',
                      lambda: f'set({sec!r}, {opt!r}, {value!r}) failed: '
                      f'{type(e).__name__}: {e}')
            ctx.check(isinstance(e, REFUSAL), f'refused-kind-{label}',
                      lambda: f'set({sec!r}, {opt!r}, {value!r}) failed: '
                      f'{type(e).__name__}: {e}')
            return False
        s.changes.setdefault(sec, {})[opt] = value
        hooked = (sec, opt) in s.hooked
        mine = [v for k, v in self.calls if k == (id(s), sec, opt)]
        changed = not any(same(value, b) for b in before)
        ok = ([value],) if changed else ([value], [])
        ctx.check(any(mine == o for o in ok) if hooked else not mine,
                  'hook',
                  lambda: f'set({sec!r}, {opt!r}, {value!r}) from {before!r} '
                  f'called the hook with {mine!r}')
        ctx.check(len(self.calls) == len(mine), 'hook-other',
                  lambda: f'set({sec!r}, {opt!r}) called hooks of '
                  f'{[k for k, _ in self.calls]!r}')
        if hooked:
            ctx.event('hooks')
        ctx.event('sets')
        return True

    def save(self, s, sec, opt, how):
        """save, with the outcome judged; returns False if refused"""
        ctx = self.ctx
        items = pending(s, sec, opt)
        st, e = call(ctx, how)
        ident = f'saving {items!r:.300}'
        if st == 'exc':
            ctx.check(not all(plain(*i) for i in items), 'save-refused',
                      lambda: f'{ident} failed: {type(e).__name__}: {e}')
            ctx.check(isinstance(e, REFUSAL), 'save-refused-kind',
                      lambda: f'{ident} failed: {type(e).__name__}: {e}')
            ctx.event('saves_refused')
            return False
        applySave(s, self.current, items)
        ctx.event('saves')
        ctx.event('settings_saved', len(items))
        return True

    def stale(self, s, sec, opt, v):
        """set to the value this session knows to be saved, which another
        session could change: not a change for this session"""
        return self.two and s.view.get(sec, {}).get(opt) == v

    def step(self, s):
        ctx = self.ctx
        rng = ctx.rng
        sec = drawName(rng, SECTIONS)
        opt = drawName(rng, OPTIONS)
        what = rng.choice(['set'] * 6 + ['setDefault'] * 2 + ['saveAll',
                          'saveSection', 'saveSection', 'saveOption',
                          'saveOption', 'saveBad', 'setBack', 'setBack',
                          'hook', 'hook', 'resave', 'string'])
        ident = what
        if s.hooked and rng.random() < .4:
            sec, opt = rng.choice(list(s.hooked))
        if what == 'set':
            v = drawValue(rng)
            if self.stale(s, sec, opt, v):
                return None
            ident = f'set({sec!r}, {opt!r}, {tokens(v)})'
            ctx.log(ident)
            self.setOption(s, sec, opt, v)
            ctx.state('set', textKind(v))
        elif what == 'setBack':
            # to the value read before, saved or not
            pairs = known([s.changes, s.view])
            if not pairs:
                return None
            sec, opt = rng.choice(pairs)
            v = s.view.get(sec, {}).get(opt, 'v')
            if self.stale(s, sec, opt, v):
                return None
            ident = f'set({sec!r}, {opt!r}, {tokens(v)}) as saved'
            ctx.log(ident)
            self.setOption(s, sec, opt, v, 'setBack')
            if s.view.get(sec, {}).get(opt) == v:
                del s.changes[sec][opt]
                if not s.changes[sec]:
                    del s.changes[sec]
            ctx.event('set_back')
        elif what == 'setDefault':
            v = drawValue(rng)
            if self.stale(s, sec, opt, v):
                return None
            ident = f'setDefault({sec!r}, {opt!r}, {tokens(v)})'
            ctx.log(ident)
            had = s.expected(sec, opt, self.current)
            pairs = len(self.calls)
            s.changes.setdefault(sec, {})[opt] = v
            good = self.save(s, sec, opt,
                             lambda: s.config.setDefault(sec, opt, v))
            if not good:
                # the value may or may not apply to this session
                got = readOption(s.config, sec, opt)
                del s.changes[sec][opt]
                if same(got, v) or not any(same(got, h) for h in had):
                    s.changes[sec][opt] = v
                elif any(same(got, h) for h in had) and got is not KeyError \
                        and s.view.get(sec, {}).get(opt) != got:
                    s.changes[sec][opt] = got
                if not s.changes[sec]:
                    del s.changes[sec]
            elif (sec, opt) in s.hooked:
                mine = [x for k, x in self.calls[pairs:]
                        if k == (id(s), sec, opt)]
                changed = not any(same(v, h) for h in had)
                ctx.check(mine == [v] or not changed and not mine,
                          'hook-setDefault',
                          lambda: f'{ident} called the hook with {mine!r}')
            ctx.state('setDefault', textKind(v), good)
        elif what in ('saveAll', 'saveSection', 'saveOption', 'resave'):
            pairs = known([s.changes])
            if pairs and rng.random() < .8:
                sec, opt = rng.choice(pairs)
            args = {'saveAll': (None, None), 'resave': (None, None),
                    'saveSection': (sec, None),
                    'saveOption': (sec, opt)}[what]
            ident = f'saveChanges{args!r}'
            ctx.log(ident)
            good = self.save(s, *args, lambda: s.config.saveChanges(
                *(a for a in args if a is not None)))
            ctx.state(what, good, len(s.changes))
            if what == 'resave':
                self.save(s, None, None, s.config.saveChanges)
        elif what == 'saveBad':
            ident = f'saveChanges(None, {opt!r})'
            ctx.log(ident)
            if not s.changes:
                return None
            st, e = call(ctx, lambda: s.config.saveChanges(option=opt))
            ctx.check(st == 'exc', 'save-option-only',
                      lambda: f'{ident} was accepted')
        elif what == 'hook':
            ident = f'hook({sec!r}, {opt!r})'
            ctx.log(ident)
            key = (id(s), sec, opt)
            calls = self.calls
            s.config.hook(sec, opt, lambda v: calls.append((key, v)))
            s.hooked[sec, opt] = True
        elif what == 'string':
            ident = 'str'
            text = str(s.config)
            for sec, options in s.changes.items():
                for opt, v in options.items():
                    ctx.check(f'{opt} = {v}' in text, 'str',
                              lambda: f'{opt!r} of {sec!r} is not in the '
                              f'representation {text!r:.500}')
            repr(s.config)
        return what, ident

    def judge(self, what, ident):
        for s in self.sessions:
            judgeSession(self.ctx, s, self.current, what, ident)
        judgeFile(self.ctx, self.path, self.current, what, ident)


def history(ctx):
    rng = ctx.rng
    nimble = ctx.nimble
    with place(rng.choice(['cwd', 'home'])) as (_, path):
        saved = startSettings(rng)
        exists = bool(saved) or rng.random() < .5
        if 'work' in path or exists:
            writeFile(rng, path, saved)
        h = History(ctx, path, saved)
        ctx.log(f'saved {saved}')
        config = nimble.core.configuration.loadSettings()
        ctx.check(os.path.realpath(config.path) == os.path.realpath(path),
                  'path', lambda: f'the settings are loaded from '
                  f'{config.path}, not {path}')
        h.current.setdefault('fetch', {}).setdefault(
            'location', str(pathlib.Path.home()))
        first = h.open(config)
        h.judge('load', 'loading')
        two = h.two = rng.random() < .35
        for i in range(rng.randint(6, 18)):
            if two and i == 3:
                h.open(nimble.core.configuration.loadSettings())
                h.judge('second session', 'opening a second session')
                ctx.event('second_sessions')
            s = rng.choice(h.sessions)
            done = h.step(s)
            if done is not None:
                h.judge(*done)
                ctx.event('steps')
            if rng.random() < .05:
                # a session ends, its unsaved changes are gone
                h.sessions.remove(s)
                s = h.open(nimble.core.configuration.loadSettings())
                h.judge('new session', 'a new session')
                ctx.event('new_sessions')
        del first


# -- other operations never write unsaved changes --------------------------

def work(ctx):
    """a session used by the library itself"""
    rng = ctx.rng
    nimble = ctx.nimble
    logger = nimble.core.logger
    original = nimble.settings
    active = logger.active
    with place(rng.choice(['cwd', 'home'])) as (d, path):
        saved = startSettings(rng)
        saved['logger'] = {'location': os.path.join(d, 'log0'),
                           'name': 'log', 'enabledByDefault':
                           rng.choice(['True', 'False']),
                           'enableDeepLogging': 'False'}
        missing = rng.choice([None, None, 'name', 'enabledByDefault',
                              'enableDeepLogging'])
        saved['logger'].pop(missing, None)
        writeFile(rng, path, saved)
        ctx.log(f'saved {saved}')
        try:
            config = nimble.settings = nimble.core.configuration.loadSettings()
            # loading the library saves default values that are missing
            logger.session_logger.initLoggerAndLogConfig()
            h = History(ctx, path, saved)
            h.current.setdefault('fetch', {}).setdefault(
                'location', str(pathlib.Path.home()))
            default = {'name': 'log-nimble', 'enabledByDefault': 'True',
                       'enableDeepLogging': 'False'}
            for opt, v in default.items():
                h.current['logger'].setdefault(opt, v)
            s = h.open(config)
            h.judge('init', 'initialising')
            for _ in range(rng.randint(3, 8)):
                what, ident = workStep(ctx, h, s, d)
                h.judge(what, ident)
                ctx.event('work_steps')
                ctx.state('work', what)
                loc = config.get('logger', 'location')
                name = config.get('logger', 'name')
                now = logger.active
                ctx.check(os.path.realpath(str(now.logLocation)) ==
                          os.path.realpath(loc) and
                          os.path.basename(now.logFileName).startswith(name),
                          f'setting-effect:{what}',
                          lambda: f'after {ident} the log is '
                          f'{now.logFileName}, the settings are {loc!r} and '
                          f'{name!r}')
        finally:
            with contextlib.suppress(Exception):
                logger.active.cleanup()
            nimble.settings = original
            logger.active = active


def workStep(ctx, h, s, d):
    rng = ctx.rng
    nimble = ctx.nimble
    what = rng.choice(['pending', 'location', 'location', 'locationBack',
                       'name', 'enabled', 'data', 'train', 'showLog',
                       'packages', 'learners', 'interface', 'step', 'step',
                       'failing', 'option', 'seed', 'savefile'])
    ident = what
    ctx.log(what)
    if what == 'pending':
        h.setOption(s, rng.choice(SECTIONS), rng.choice(OPTIONS), 'unsaved')
    elif what == 'location':
        v = os.path.join(d, f'log{rng.randint(1, 3)}')
        ident = f'set logger location {v}'
        h.setOption(s, 'logger', 'location', v)
    elif what == 'locationBack':
        v = s.view['logger']['location']
        ident = f'set logger location back to {v}'
        h.setOption(s, 'logger', 'location', v)
        del s.changes['logger']['location']
        if not s.changes['logger']:
            del s.changes['logger']
    elif what == 'name':
        h.setOption(s, 'logger', 'name', rng.choice(['log', 'other']))
        if s.changes['logger']['name'] == s.view['logger']['name']:
            del s.changes['logger']['name']
            if not s.changes['logger']:
                del s.changes['logger']
    elif what == 'enabled':
        v = rng.choice(['True', 'False', True, False, 'true'])
        ident = f'set logger enabledByDefault {v!r}'
        opt = rng.choice(['enabledByDefault', 'enableDeepLogging'])
        h.setOption(s, 'logger', opt, v)
        if same(v, s.view['logger'][opt]):
            del s.changes['logger'][opt]
            if not s.changes['logger']:
                del s.changes['logger']
    elif what == 'data':
        for b in (None, None, True, False):
            obj = nimble.data([[1, 2], [3, 4]], useLog=b)
            obj.points.sort(by=0, useLog=b)
    elif what == 'train':
        X = nimble.data([[1, 2], [3, 4], [4, 5], [7, 3]])
        nimble.trainAndApply('nimble.KNNClassifier', X, 0, X[:, 1:], k=1)
    elif what == 'showLog':
        with contextlib.redirect_stdout(None):
            nimble.log('heading', 'text')
            nimble.showLog()
    elif what == 'packages':
        with contextlib.redirect_stdout(open(os.devnull, 'w')):
            nimble.showAvailablePackages()
    elif what == 'learners':
        nimble.learnerNames('nimble')
    elif what == 'interface':
        # an interface only allows its own options
        bad = rng.random() < .5
        opt = 'noSuchOption' if bad else 'location'
        sec = rng.choice(['sklearn', 'nimble', 'custom'])
        st, e = call(ctx, lambda: s.config.set(sec, opt, '/some/path'))
        ok = sec == 'sklearn' and not bad
        ctx.check((st != 'exc') == ok, 'interface-option',
                  lambda: f'set({sec!r}, {opt!r}) gave {e!r}')
        ident = f'set({sec!r}, {opt!r})'
        if st != 'exc':
            s.changes.setdefault(sec, {})[opt] = '/some/path'
            iface = nimble.core.interfaces.available['sklearn']
            got = iface.getOption('location')
            ctx.check(got == '/some/path', 'interface-value',
                      lambda: f'getOption is {got!r}')
    elif what == 'step':
        done = h.step(s)
        return done if done is not None else ('nothing', 'nothing')
    elif what == 'failing':
        call(ctx, lambda: nimble.data('no such file.csv'))
        call(ctx, lambda: nimble.train('nimble.NoSuch', None))
    elif what == 'option':
        # the settings are used for fetching, without writing them
        h.setOption(s, 'fetch', 'location', os.path.join(d, 'fetched'))
    elif what == 'seed':
        nimble.random.setSeed(3)
    elif what == 'savefile':
        obj = nimble.data([[1, 2], [3, 4]], useLog=False)
        obj.save(os.path.join(d, 'x.csv'))
        nimble.data(os.path.join(d, 'x.csv'))
    return what, ident


# -- crashes and failures while saving -------------------------------------

def inChild(f):
    """run f in a child; (status, what f returned or None)"""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        code = 1
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            signal.setitimer(signal.ITIMER_REAL, 0)
            ret = pickle.dumps(f())
            with os.fdopen(w, 'wb') as h:
                h.write(ret)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as h:
        data = h.read()
    _, status = os.waitpid(pid, 0)
    return status, pickle.loads(data) if data else None


class Killer:
    """ends the process without any cleanup at the n-th event"""

    def __init__(self, n):
        self.n = n
        self.count = 0

    def __call__(self, frame, event, arg):
        self.count += 1
        if self.count == self.n:
            os.kill(os.getpid(), signal.SIGKILL)


def crashScene(ctx, path):
    """an initial file, and an operation which saves"""
    rng = ctx.rng
    nimble = ctx.nimble
    saved = startSettings(rng)
    for i in range(rng.choice([0, 0, 3, 40])):
        saved.setdefault('bulk', {})[f'o{i}'] = 'x' * rng.randint(0, 400)
    saved.setdefault('fetch', {})['location'] = '/old'
    new = deep(saved)
    what = rng.choice(['saveAll', 'saveSection', 'saveOption', 'setDefault',
                       'first'])
    if what == 'first':
        # the first session ever, on a missing or an empty file
        saved = {}
        if 'work' in path or rng.random() < .5:
            writeFile(rng, path, {})

        def op():
            config = nimble.core.configuration.loadSettings()
            config.setDefault('logger', 'location', './logs-nimble')
        new = {'fetch': {'location': str(pathlib.Path.home())},
               'logger': {'location': './logs-nimble'}}
        return what, saved, new, op, {}
    writeFile(rng, path, saved)
    changes = {}
    for _ in range(rng.randint(1, 5)):
        sec = rng.choice(SECTIONS + list(saved))
        opt = rng.choice(list(saved.get(sec, {})) + OPTIONS)
        changes.setdefault(sec, {})[opt] = \
            f'new {rng.randrange(1000)}' + 'y' * rng.choice([0, 0, 9000])
    sec = rng.choice(list(changes))
    opt = rng.choice(list(changes[sec]))
    config = nimble.core.configuration.loadSettings()
    for x, options in changes.items():
        for o, v in options.items():
            if what != 'setDefault' or (x, o) != (sec, opt):
                config.set(x, o, v)
    args = {'saveAll': (), 'saveSection': (sec,), 'saveOption': (sec, opt),
            'setDefault': None}[what]
    if args is None:
        final = changes[sec][opt]
        op = lambda: config.setDefault(sec, opt, final)
        args = sec, opt
    else:
        op = lambda: config.saveChanges(*args)
    for x, options in changes.items():
        for o, v in options.items():
            if (not args or args[0] == x) and (len(args) < 2 or args[1] == o):
                new.setdefault(x, {})[o] = v
    return what, saved, new, op, {'config': config, 'changes': changes}


def snapshot(root):
    ret = {}
    for base, _, files in os.walk(root):
        for f in files:
            p = os.path.join(base, f)
            with open(p, 'rb') as h:
                ret[p] = h.read()
    return ret


def restore(root, files):
    for p in snapshot(root):
        if p not in files:
            os.remove(p)
    for p, data in files.items():
        with open(p, 'wb') as h:
            h.write(data)


def crash(ctx):
    rng = ctx.rng
    nimble = ctx.nimble
    with place(rng.choice(['cwd', 'home'])) as (d, path):
        what, saved, new, op, _ = crashScene(ctx, path)
        ctx.log(f'{what} {str(saved):.400} -> {str(new):.400}')
        files = snapshot(d)
        how = rng.choice(['event', 'event', 'event', 'byte'])

        def counted(n):
            def f():
                k = Killer(n)
                sys.setprofile(k)
                op()
                sys.setprofile(None)
                return k.count
            return f

        def limited(n):
            def f():
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))
                op()
                resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))
                return n
            return f
        status, total = inChild(counted(0))
        if status:
            raise Skip()
        done = judgeFile(ctx, path, saved, f'complete-{what}',
                         f'{what} (complete)', oneOf=new)
        ctx.check(done == clean(new), f'complete:{what}',
                  lambda: f'{what} left {done!r:.500}, not {new!r:.500}')
        ctx.event('complete_saves')
        size = max(len(v) for p, v in snapshot(d).items())
        if how == 'event':
            points = rng.sample(range(1, total + 1), min(total, 9))
            # the last ones are where the file is replaced
            points += [total - i for i in range(1, 9) if total > i + 1]
        else:
            points = [0, 1, size - 1] + [rng.randrange(size)
                                         for _ in range(4)]
        for n in points:
            restore(d, files)
            ident = f'a crash of {what} at {how} {n} of ' \
                f'{total if how == "event" else size}'
            status, _ = inChild((counted if how == 'event' else limited)(n))
            if os.WIFSIGNALED(status):
                ctx.event('crashes')
            else:
                ctx.event('crash_points_not_reached')
            got = judgeFile(ctx, path, saved, f'crash-{how}-{what}', ident,
                            oneOf=new)
            ctx.state('crash', what, how, got == clean(saved),
                      got == clean(new))
            ctx.event('crash_kept_old' if got == clean(saved) else
                      'crash_has_new')
            if rng.random() < .4:
                # the next session can save again
                st, e = call(ctx, lambda: recover(nimble, got))
                ctx.check(st != 'exc' and e is None,
                          f'after-crash-{how}-{what}',
                          lambda: f'after {ident}, the next session cannot '
                          f'save: {e!r}')
                ctx.event('recoveries')


def recover(nimble, got):
    loadSettings = nimble.core.configuration.loadSettings
    config = loadSettings()
    config.setDefault('recovered', 'now', 'yes')
    config.set('recovered', 'unsaved', 'x')
    now = readAll(loadSettings())
    want = deep(got)
    want['recovered'] = {'now': 'yes'}
    want.setdefault('fetch', {}).setdefault('location',
                                            str(pathlib.Path.home()))
    return None if now == want else f'{now!r} instead of {want!r}'


def faults(ctx):
    """saving fails because nothing more can be written"""
    rng = ctx.rng
    with place(rng.choice(['cwd', 'home'])) as (d, path):
        what, saved, new, op, more = crashScene(ctx, path)
        if not more:
            raise Skip()
        ctx.log(f'{what} {str(saved):.400} -> {str(new):.400}')
        config = more['config']
        files = snapshot(d)
        size = sum(len(f'{o} = {v}\n') for options in new.values()
                   for o, v in options.items())
        view = deep(new)
        for sec, options in more['changes'].items():
            view.setdefault(sec, {}).update(options)
        for n in [0, 1] + [rng.randrange(size + 5) for _ in range(3)]:
            restore(d, files)

            def f():
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                hard = resource.getrlimit(resource.RLIMIT_FSIZE)[1]
                resource.setrlimit(resource.RLIMIT_FSIZE, (n, hard))
                error = None
                try:
                    op()
                except BaseException as e:  # pylint: disable=broad-except
                    error = f'{type(e).__name__}: {e}'
                resource.setrlimit(resource.RLIMIT_FSIZE, (hard, hard))
                inSession = readAll(config)
                try:
                    cls = type(config)
                    kept = readAll(cls(path))
                except Exception as e:  # pylint: disable=broad-except
                    kept = f'{type(e).__name__}: {e}'
                again = None
                try:
                    op()
                except BaseException as e:  # pylint: disable=broad-except
                    again = f'{type(e).__name__}: {e}'
                return error, inSession, kept, again
            status, got = inChild(f)
            ident = f'{what} failing at byte {n}'
            ctx.check(got is not None, f'fault-died-{what}',
                      lambda: f'{ident}: status {status}')
            error, inSession, kept, again = got
            ctx.event('faults' if error else 'fault_not_reached')
            ctx.state('fault', what, error is None)
            ctx.check(isinstance(kept, dict), f'fault-broken-{what}',
                      lambda: f'after {ident} ({error}) the configuration '
                      f'does not load: {kept}')
            allowed = [clean(saved), clean(new)] if error else [clean(new)]
            ctx.check(kept in allowed, f'fault-file-{what}',
                      lambda: f'after {ident} ({error}) a new session reads '
                      f'{kept!r:.600}')
            # setDefault may or may not have set the value
            views = [clean(view)]
            if what == 'setDefault' and error:
                old = deep(view)
                for sec, options in new.items():
                    for o, v in options.items():
                        was = saved.get(sec, {}).get(o)
                        if was is None and v != was:
                            old[sec].pop(o)
                        elif v != was:
                            old[sec][o] = was
                views.append(clean(old))
            ctx.check(inSession in views, f'fault-session-{what}',
                      lambda: f'after {ident} ({error}) the session reads '
                      f'{inSession!r:.600}, not {view!r:.600}')
            ctx.check(again is None, f'fault-again-{what}',
                      lambda: f'after {ident} ({error}), saving again '
                      f'fails: {again}')
            final = judgeFile(ctx, path, new, f'fault-again-{what}',
                              f'saving again after {ident}')
            del final


# -- several processes -----------------------------------------------------

def concurrent(ctx):
    rng = ctx.rng
    nimble = ctx.nimble
    loadSettings = nimble.core.configuration.loadSettings
    with place(rng.choice(['cwd', 'home'])) as (_, path):
        base = {'fetch': {'location': '/x'},
                'kept': {f'k{i}': 'z' * rng.randint(0, 2000)
                         for i in range(rng.randint(1, 8))}}
        writeFile(rng, path, base)
        n = rng.randint(2, 4)
        rounds = rng.randint(3, 8)
        ctx.log(f'{n} writers, {rounds} rounds')
        seeds = [rng.random() for _ in range(n)]
        pids = []
        for w in range(n):
            pid = os.fork()
            if not pid:
                code = 1
                try:
                    signal.setitimer(signal.ITIMER_REAL, 0)
                    r = random.Random(seeds[w])
                    config = loadSettings()
                    config.set(f'writer{w}', 'unsaved', 'never')
                    for i in range(rounds):
                        config.setDefault(f'writer{w}', 'count', str(i))
                        time.sleep(r.random() * .004)
                        if r.random() < .3:
                            config = loadSettings()
                    code = 0
                finally:
                    os._exit(code)
            pids.append(pid)
        alive = set(pids)
        failed = None
        reads = 0
        try:
            while alive:
                for pid in list(alive):
                    done, status = os.waitpid(pid, os.WNOHANG)
                    if done:
                        alive.discard(pid)
                        if status:
                            failed = status
                judgeShared(ctx, path, base, n, rounds)
                reads += 1
        finally:
            for pid in alive:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
        ctx.check(failed is None, 'concurrent-failed',
                  lambda: f'a process saving settings failed: {failed}')
        seen = judgeShared(ctx, path, base, n, rounds)
        ctx.event('concurrent_saves', n * rounds)
        ctx.event('concurrent_reads', reads)
        ctx.state('concurrent', n, len(seen))


def judgeShared(ctx, path, base, n, rounds):
    try:
        got = readAll(ctx.nimble.core.configuration.SessionConfiguration(path))
    except Exception as e:  # pylint: disable=broad-except
        ctx.violation('concurrent-broken',
                      'the configuration does not load while others save: '
                      f'{type(e).__name__}: {e}')
    for sec, options in base.items():
        ctx.check(got.get(sec) == options, 'concurrent-lost',
                  lambda: f'saved settings of {sec!r} read {got.get(sec)!r} '
                  'while others save')
    rest = {k: v for k, v in got.items() if k not in base}
    allowed = [str(i) for i in range(rounds)]
    ctx.check(all(k in [f'writer{i}' for i in range(n)]
                  and list(v) == ['count'] and v['count'] in allowed
                  for k, v in rest.items()), 'concurrent-other',
              lambda: f'while others save, a session reads {rest!r}')
    return rest


SCRIPT = '''
import sys, json, os, signal
sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1])
plan = json.load(open(sys.argv[2], encoding='utf-8'))
import nimble
out = {'start': nimble.settings.get()}
errors = []
for op, *args in plan['ops']:
    if op == 'data':
        nimble.data([[1, 2], [3, 4]]).points.sort(by=0)
    elif op == 'set':
        nimble.settings.set(*args)
    elif op == 'setDefault':
        nimble.settings.setDefault(*args)
    elif op == 'save':
        nimble.settings.saveChanges(*args)
    elif op == 'learners':
        nimble.learnerNames('sklearn')
out['end'] = nimble.settings.get()
with open(sys.argv[3], 'w', encoding='utf-8') as f:
    json.dump(out, f)
if plan['end'] == 'kill':
    os.kill(os.getpid(), signal.SIGKILL)
if plan['end'] == '_exit':
    os._exit(0)
'''
INTERFACES = {'sklearn', 'keras', 'autoimpute'}


def meaningful(d):
    """without the options of interfaces left at their default"""
    return {k: {o: v for o, v in x.items() if v != '' or k not in INTERFACES}
            for k, x in d.items()
            if any(v != '' or k not in INTERFACES for v in x.values())}


def fresh(ctx):
    """processes that import the library"""
    rng = ctx.rng
    nimble = ctx.nimble
    repo = os.path.dirname(os.path.dirname(nimble.__file__))
    with place(rng.choice(['cwd', 'home'])) as (d, path):
        saved = startSettings(rng)
        if 'work' in path or saved:
            writeFile(rng, path, saved)
        current = deep(saved)
        current.setdefault('fetch', {}).setdefault('location',
                                                   os.environ['HOME'])
        for opt, v in {'location': './logs-nimble', 'name': 'log-nimble',
                       'enabledByDefault': 'True',
                       'enableDeepLogging': 'False'}.items():
            current.setdefault('logger', {}).setdefault(opt, v)
        for process in range(2):
            ops = []
            changes = {}
            expected = deep(current)
            for _ in range(rng.randint(0, 6)):
                op = rng.choice(['set', 'set', 'setDefault', 'save', 'data',
                                 'learners'])
                sec, opt = rng.choice(SECTIONS), rng.choice(OPTIONS)
                v = drawValue(rng, odd=0)
                if op == 'set':
                    ops.append([op, sec, opt, v])
                    changes.setdefault(sec, {})[opt] = v
                elif op == 'setDefault':
                    ops.append([op, sec, opt, v])
                    expected.setdefault(sec, {})[opt] = v
                    changes.get(sec, {}).pop(opt, None)
                elif op == 'save':
                    if changes and rng.random() < .8:
                        sec = rng.choice(list(changes))
                    part = rng.random() < .7
                    ops.append([op, sec] if part else [op])
                    for x in [sec] if part else list(changes):
                        expected.setdefault(x, {}).update(
                            changes.pop(x, {}))
                else:
                    ops.append([op])
            end = deep(expected)
            for x, options in changes.items():
                end.setdefault(x, {}).update(options)
            plan = os.path.join(d, 'plan.json')
            out = os.path.join(d, f'out{process}.json')
            how = rng.choice(['normal', 'kill', '_exit'])
            with open(plan, 'w', encoding='utf-8') as f:
                json.dump({'ops': ops, 'end': how}, f)
            env = dict(os.environ)
            locale = rng.choice(['C.UTF-8', 'POSIX', 'POSIX'])
            env.update(LC_ALL=locale, LANG=locale)
            if locale == 'POSIX':
                env.update(PYTHONUTF8='0', PYTHONCOERCECLOCALE='0')
            ctx.log(f'{locale} {how} {str(ops):.600}')
            p = subprocess.run([sys.executable, '-c', SCRIPT, repo, plan,
                                out], env=env, capture_output=True,
                               timeout=80, check=False)
            ctx.check(os.path.exists(out), 'process-failed',
                      lambda: f'a session in the locale {locale} with the '
                      f'saved settings {current!r:.500} and {ops!r:.500} '
                      'failed: ' + p.stderr.decode(errors='replace')[-700:])
            with open(out, encoding='utf-8') as f:
                got = json.load(f)
            ctx.check(meaningful(got['start']) == meaningful(clean(current)),
                      'process-start',
                      lambda: f'a new process reads '
                      f'{meaningful(got["start"])!r:.700}, saved were '
                      f'{current!r:.700}')
            ctx.check(meaningful(got['end']) == meaningful(clean(end)),
                      'process-end',
                      lambda: f'after {ops!r} a process reads '
                      f'{meaningful(got["end"])!r:.700} instead of '
                      f'{end!r:.700}')
            current = expected
            cls = nimble.core.configuration.SessionConfiguration
            now = readAll(cls(path))
            ctx.check(meaningful(now) == meaningful(clean(current)),
                      'process-file',
                      lambda: f'after a process did {ops!r} and ended '
                      f'({how}), saved are {meaningful(now)!r:.700} instead '
                      f'of {current!r:.700}')
            ctx.event('processes')
            ctx.state('process', locale, how, bool(changes))


def workerSetup(nimble, work):
    # available interfaces add their options to the settings once
    nimble.core._learnHelpers.initAvailablePredefinedInterfaces()
    for name in ('nimble', 'noSuchSection'):
        with contextlib.suppress(Exception):
            nimble.core._learnHelpers.findBestInterface(name)


KINDS = [('history', 14, history), ('work', 4, work), ('crash', 1, crash),
         ('faults', 1, faults), ('concurrent', .6, concurrent),
         ('fresh', .15, fresh)]
