"""
The harness every check runs on.

A check module declares its property and a set of case kinds. A case is a
function of (Ctx); everything random in it comes from ctx.rng, which is seeded
by (VERIF_SEED, property, kind, index), so any case replays on its own.
Cases are spread over worker processes. The oracle inside a case reports with
ctx.violation(); the monitors count what they observed with ctx.event().

Verdicts are three-valued:
  exit 0  held on everything observed (and the monitors did observe enough)
  exit 1  violated, with a VIOLATION line and a replay file
  exit 2  inconclusive (a monitor was starved, cases timed out, harness error)
"""
import hashlib
import importlib
import json
import os
import pickle
import random
import select
import signal
import struct
import sys
import time
import traceback

from vlib import cover, env

VERIF = env.VERIF


class Violation(Exception):
    def __init__(self, key, message, detail=None):
        super().__init__(message)
        self.key = key
        self.message = message
        self.detail = detail or {}


class CaseTimeout(BaseException):
    pass


class Skip(Exception):
    """The generated case does not apply (counted, never a verdict)."""


class Ctx:
    """What a case gets: randomness, counters and the violation reporter."""

    def __init__(self, prop, tier, seed, kind, index, nimble, replay=False):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.kind = kind
        self.index = index
        self.nimble = nimble
        self.replay = replay
        self.rng = random.Random(f'{seed}:{prop}:{kind}:{index}')
        self.events = {}
        self.states = set()
        self.trace = []
        self.sample = None
        self.found = []

    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def state(self, *parts):
        """Note a distinct, non-trivial state/situation that was observed."""
        raw = repr(parts).encode()
        self.states.add(hashlib.blake2b(raw, digest_size=8).digest())

    def log(self, what):
        """One step of the history, kept for the replay file."""
        self.trace.append(what)

    def violation(self, key, message, **detail):
        raise Violation(key, message, detail)

    def check(self, cond, key, message, **detail):
        self.event('oracle_evaluations')
        if not cond:
            if callable(message):
                message = message()
            raise Violation(key, message, detail)


def short(obj, limit=1500):
    text = obj if isinstance(obj, str) else repr(obj)
    return text if len(text) <= limit else text[:limit] + '...'


def _alarm(signum, frame):
    raise CaseTimeout()


def envLimit(exc):
    """Failures that belong to the installed scipy, not to nimble: scipy >=
    1.11 cannot hold object values in a sparse matrix at all."""
    return 'object dtype is not supported by sparse' in str(exc)


def fromNimble(exc):
    """True if the exception was raised by (or below) nimble code rather than
    by the harness itself."""
    tb = exc.__traceback__
    while tb is not None:
        name = tb.tb_frame.f_code.co_filename
        if name.startswith(os.path.join(env.REPO, 'nimble')):
            return True
        tb = tb.tb_next
    return False


def where(exc):
    """Innermost nimble function the exception came through (mechanism)."""
    tb = exc.__traceback__
    ret = '?'
    while tb is not None:
        code = tb.tb_frame.f_code
        if code.co_filename.startswith(os.path.join(env.REPO, 'nimble')):
            ret = code.co_name
        tb = tb.tb_next
    return ret


def runCase(mod, kind, func, index, tier, seed, nimble, limit, replay=False):
    ctx = Ctx(mod.PROPERTY, tier, seed, kind, index, nimble, replay)
    nimble.random.setSeed(abs(hash(f'{seed}{kind}{index}')) % 2**31,
                          useLog=False)
    import numpy
    numpy.random.seed(ctx.rng.randrange(2**31))
    random.seed(ctx.rng.randrange(2**31))
    out = {'kind': kind, 'index': index, 'status': 'ok'}
    signal.signal(signal.SIGALRM, _alarm)
    began = time.thread_time()
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        func(ctx)
    except Skip:
        out['status'] = 'skip'
    except Violation as v:
        out['status'] = 'violation'
        out['violation'] = {
            'key': v.key, 'message': short(v.message, 3000),
            'detail': {k: short(d) for k, d in v.detail.items()},
            'trace': [short(t, 600) for t in ctx.trace[-60:]]}
    except CaseTimeout:
        out['status'] = 'timeout'
        out['error'] = ctx.trace[-3:]
        # cases take milliseconds, some seconds for the slowest learners. A
        # case that computed all this time (not one that had to wait) is not
        # going to end.
        used = time.thread_time() - began
        if used > .8 * limit:
            out['status'] = 'violation'
            out['violation'] = {
                'key': f'{kind}:endless',
                'message': f'no end after {used:.0f} s of computing: '
                           + short(str(ctx.trace[-1:]), 1500),
                'detail': {},
                'trace': [short(t, 600) for t in ctx.trace[-60:]]}
    except MemoryError:
        out['status'] = 'timeout'
    except Exception as e:  # pylint: disable=broad-except
        text = traceback.format_exc()
        if envLimit(e):
            out['status'] = 'skip'
            ctx.event('scipy_object_dtype_unsupported')
        elif fromNimble(e):
            # the workload only issues operations that the specification
            # says succeed, so an exception escaping nimble is a violation
            out['status'] = 'violation'
            out['violation'] = {
                'key': f'{kind}:unexpected-{type(e).__name__}:{where(e)}',
                'message': 'unexpected exception: ' + short(text, 3000),
                'detail': {},
                'trace': [short(t, 600) for t in ctx.trace[-60:]]}
        else:
            out['status'] = 'error'
            out['error'] = text
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    out['events'] = ctx.events
    out['states'] = ctx.states
    if ctx.sample is not None:
        out['sample'] = short(ctx.sample, 1200)
    elif index < 2:
        out['sample'] = short({'kind': kind, 'index': index,
                               'trace': ctx.trace[:8]}, 1200)
    return out


def _schedule(mod, tier):
    """Deterministic list of (kind, index): kinds interleaved by weight."""
    per = {}
    for kind, weight, _ in mod.KINDS:
        per[kind] = weight
    total = (mod.QUICK if tier == 'quick' else mod.THOROUGH)['cases']
    norm = sum(per.values())
    order = []
    counts = {k: 0 for k in per}
    credit = {k: 0.0 for k in per}
    for _ in range(total):
        for k in per:
            credit[k] += per[k] / norm
        k = max(credit, key=lambda x: credit[x])
        credit[k] -= 1.0
        order.append((k, counts[k]))
        counts[k] += 1
    return order


def _send(fd, obj):
    data = pickle.dumps(obj)
    data = struct.pack('>I', len(data)) + data
    while data:
        n = os.write(fd, data)
        data = data[n:]


def _worker(mod, tier, seed, nimble, tasks, wid, nwork, fd, deadline, limit):
    funcs = {k: f for k, _, f in mod.KINDS}
    work = os.path.join(env.scratch(), f'w{wid}')
    os.makedirs(work, exist_ok=True)
    os.chdir(work)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get('VERIF_STDERR'):
        os.dup2(devnull, 2)
    cover.start()
    if hasattr(mod, 'workerSetup'):
        mod.workerSetup(nimble, work)
    batch = []
    last = time.monotonic()
    for pos in range(wid, len(tasks), nwork):
        if time.monotonic() > deadline:
            batch.append({'status': 'cut', 'events': {}, 'states': set()})
            break
        kind, index = tasks[pos]
        try:
            res = runCase(mod, kind, funcs[kind], index, tier, seed,
                               nimble, limit)
        except CaseTimeout:
            res = {'kind': kind, 'index': index, 'status': 'timeout',
                   'events': {}, 'states': set()}
        batch.append(res)
        if time.monotonic() - last > 0.5:
            _send(fd, batch)
            batch = []
            last = time.monotonic()
    _send(fd, batch)
    _send(fd, None)
    cover.dump(mod.PROPERTY)
    os._exit(0)


def explore(mod, tier, seed, nimble, jobs, maxKeys):
    conf = mod.QUICK if tier == 'quick' else mod.THOROUGH
    tasks = _schedule(mod, tier)
    start = time.monotonic()
    deadline = start + conf['seconds']
    limit = getattr(mod, 'CASE_SECONDS', 30)
    hard = deadline + limit + 20
    fds = {}
    pids = []
    for wid in range(jobs):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            code = 3
            try:
                _worker(mod, tier, seed, nimble, tasks, wid, jobs, w,
                        deadline, limit)
                code = 0
            except BaseException:  # pylint: disable=broad-except
                traceback.print_exc()
            finally:
                os._exit(code)
        os.close(w)
        fds[r] = b''
        pids.append(pid)
    results = {'events': {}, 'states': set(), 'status': {}, 'violations': {},
               'errors': [], 'samples': [], 'kinds': {}, 'distinct': 0,
               'timeouts': []}
    clean = 0
    stop = False
    while fds and not stop:
        if time.monotonic() > hard:
            results['errors'].append('watchdog: workers did not finish')
            break
        ready, _, _ = select.select(list(fds), [], [], 1.0)
        for fd in ready:
            chunk = os.read(fd, 1 << 20)
            if not chunk:
                del fds[fd]
                os.close(fd)
                continue
            buf = fds[fd] + chunk
            while len(buf) >= 4:
                n = struct.unpack('>I', buf[:4])[0]
                if len(buf) < 4 + n:
                    break
                msg = pickle.loads(buf[4:4 + n])
                buf = buf[4 + n:]
                if msg is None:
                    clean += 1
                    continue
                for res in msg:
                    _absorb(results, res)
            fds[fd] = buf
        if len(results['violations']) >= maxKeys:
            stop = True
    for pid in pids:
        if stop or fds:
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        os.waitpid(pid, 0)
    if not stop and clean < jobs and not results['errors']:
        results['errors'].append(f'{jobs - clean} worker(s) died')
    results['wall'] = time.monotonic() - start
    return results


def _absorb(results, res):
    st = res['status']
    results['status'][st] = results['status'].get(st, 0) + 1
    for k, v in res['events'].items():
        results['events'][k] = results['events'].get(k, 0) + v
    results['states'] |= res['states']
    if st == 'cut':
        return
    results['kinds'][res['kind']] = results['kinds'].get(res['kind'], 0) + 1
    if st == 'violation':
        key = res['violation']['key']
        entry = results['violations'].setdefault(
            key, {'count': 0, 'first': res})
        entry['count'] += 1
        if res['index'] < entry['first']['index']:
            entry['first'] = res
    elif st == 'error':
        results['errors'].append(res['error'])
    elif st == 'timeout':
        results['timeouts'].append((res['kind'], res['index']))
    if 'sample' in res and len(results['samples']) < 6:
        if not any(s[0] == res['kind'] for s in results['samples']):
            results['samples'].append((res['kind'], res['sample']))


def knownFindings(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [e for e in data['findings'] if e['property'] == prop]


def writeEvidence(mod, tier, seed, coverage, wall, violations):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    out = {'property': mod.PROPERTY, 'tier': tier, 'seed': seed,
           'level': getattr(mod, 'LEVEL', 'exploration'),
           'coverage': coverage,
           'assumptions': getattr(mod, 'ASSUMPTIONS', []),
           'wall_s': round(wall, 2), 'violations': violations}
    path = os.path.join(VERIF, 'evidence', mod.PROPERTY + '.json')
    tmp = path + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(out, f, indent=1, default=str)
    os.replace(tmp, path)


def writeReplay(mod, tier, seed, key, res):
    folder = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(folder, exist_ok=True)
    tag = hashlib.blake2b(key.encode(), digest_size=4).hexdigest()
    path = os.path.join(folder, f'{mod.PROPERTY}-{tag}.json')
    with open(path, 'w') as f:
        json.dump({'property': mod.PROPERTY, 'tier': tier, 'seed': seed,
                   'kind': res['kind'], 'index': res['index'],
                   'violation': res['violation']}, f, indent=1, default=str)
    return path


def runProbes(mod, nimble, prop):
    """Known findings are pinned to one concrete failing input each. Every run
    executes that input: still failing the recorded way prints KNOWN-FINDING,
    failing in another way is a violation, passing is noted (a listed finding
    that no longer fails suppresses nothing)."""
    found = knownFindings(prop)
    out = []
    bad = []
    for entry in found:
        if entry['status'] != 'open':
            continue
        probe = mod.PROBES[entry['id']]
        try:
            got = probe(nimble)
        except Exception as e:  # pylint: disable=broad-except
            got = f'raised {type(e).__name__}'
        if got == entry['fails_as']:
            print(f"KNOWN-FINDING: property={prop} {entry['id']}: "
                  f"{entry['what']}")
            out.append(entry['id'])
        elif got == 'ok':
            print(f"note: known finding {entry['id']} no longer fails")
        else:
            bad.append((entry, got))
    return out, bad


def main(argv):
    prop = argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    replay = None
    dev = False
    only = None
    cases = None
    jobs = int(os.environ.get('VERIF_JOBS', '0')) or min(
        8, len(os.sched_getaffinity(0)))
    args = argv[2:]
    while args:
        a = args.pop(0)
        if a in ('quick', 'thorough'):
            tier = a
        elif a == '--replay':
            replay = os.path.abspath(args.pop(0))
        elif a == '--dev':
            dev = True
        elif a == '--kind':
            only = args.pop(0)
        elif a == '--cases':
            cases = int(args.pop(0))
        elif a == '--seed':
            seed = int(args.pop(0))
        else:
            print('unknown argument ' + a, file=sys.stderr)
            return 2
    start = time.monotonic()
    nimble = env.setup()
    mod = importlib.import_module('checks.' + prop.lower())
    if only:
        mod.KINDS = [k for k in mod.KINDS if k[0] == only]
    if cases:
        mod.QUICK = dict(mod.QUICK, cases=cases)
        mod.THOROUGH = dict(mod.THOROUGH, cases=cases)
    if hasattr(mod, 'setup'):
        mod.setup(nimble)

    if replay:
        with open(replay) as f:
            rep = json.load(f)
        funcs = {k: f for k, _, f in mod.KINDS}
        if hasattr(mod, 'workerSetup'):
            mod.workerSetup(nimble, os.getcwd())
        res = runCase(mod, rep['kind'], funcs[rep['kind']], rep['index'],
                      rep['tier'], rep['seed'], nimble, 600, True)
        print(res['status'])
        if res['status'] == 'violation':
            v = res['violation']
            print('key:', v['key'])
            print(v['message'])
            for k, d in v['detail'].items():
                print(f'  {k}: {d}')
            for t in v['trace']:
                print('  |', t)
            print(f'VIOLATION property={prop} replay={replay}')
            return 1
        if res['status'] == 'error':
            print(res['error'])
            return 2
        return 0

    known, bad = ([], []) if only else runProbes(mod, nimble, prop)
    res = explore(mod, tier, seed, nimble, jobs, 10**9 if dev else 1)
    wall = time.monotonic() - start

    done = sum(res['kinds'].values())
    coverage = {
        'evaluations': done,
        'distinct_nontrivial': len(res['states']),
        'rule': mod.RULE,
        'samples': [s[1] for s in res['samples']] or ['none'],
        'cases_by_kind': res['kinds'],
        'case_outcomes': res['status'],
        'monitor_events': dict(sorted(res['events'].items())),
        'known_findings_reproduced': known,
    }
    writeEvidence(mod, tier, seed, coverage, wall,
                  len(res['violations']) + len(bad))

    if dev:
        for key, entry in sorted(res['violations'].items(),
                                 key=lambda x: -x[1]['count']):
            first = entry['first']
            path = writeReplay(mod, tier, seed, key, first)
            print(f"--- {key} x{entry['count']} (first: {first['kind']} "
                  f"#{first['index']}) {path}")
            print('    ' + first['violation']['message'][-700:].replace(
                '\n', '\n    '))
            for k, d in first['violation']['detail'].items():
                print(f'      {k}: {d[:400]}')
            for t in first['violation']['trace'][-6:]:
                print('      |', t[:300])
        print(json.dumps(coverage['monitor_events']))
        kinds = {}
        for e in res['errors']:
            lines = [x.strip() for x in e.strip().split('\n')]
            own = [x for x in lines if '/verif/' in x]
            k = (own[-1][-40:] if own else '') + ' ' + lines[-1][:160]
            kinds[k] = kinds.get(k, 0) + 1
        for k, n in sorted(kinds.items(), key=lambda x: -x[1])[:25]:
            print(f'error x{n}: {k}')
        print(json.dumps(coverage['case_outcomes']),
              json.dumps(coverage['cases_by_kind']))
    for entry, got in bad:
        path = writeReplay(mod, tier, seed, 'probe-' + entry['id'], {
            'kind': 'probe', 'index': 0, 'violation': {
                'key': entry['id'], 'message': f'probe answered {got}',
                'detail': {}, 'trace': []}})
        print(f'known finding {entry["id"]} fails in a new way: {got}')
        print(f'VIOLATION property={prop} replay={path}')
    if bad:
        return 1
    if res['violations']:
        key, entry = sorted(res['violations'].items())[0]
        path = writeReplay(mod, tier, seed, key, entry['first'])
        print(f"{key}: {entry['first']['violation']['message'][:1500]}")
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    print(f'{prop} {tier} seed={seed}: {done} cases, '
          f'{len(res["states"])} distinct, {wall:.1f}s')
    if res['errors']:
        print('ERROR (harness): ' + res['errors'][0], file=sys.stderr)
        return 2
    problems = []
    if not only and not cases:
        for name, least in getattr(mod, 'MIN', {}).items():
            if res['events'].get(name, 0) < least:
                problems.append(f'{name}={res["events"].get(name, 0)} '
                                f'(need {least})')
        if len(res['timeouts']) > max(3, done // 50):
            problems.append(f'{len(res["timeouts"])} cases timed out '
                            f'{res["timeouts"][:3]}')
    if problems:
        print('INCONCLUSIVE: ' + '; '.join(problems), file=sys.stderr)
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv))
