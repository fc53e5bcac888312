"""
Driver of the checks: makes the cases, runs them in forked workers, gathers what
the monitors observed, writes the evidence and decides the verdict.

Exit codes: 0 the property held on everything explored; 1 violation (with a
VIOLATION line); 2 inconclusive (the monitors did not observe enough, or the
harness itself failed).
"""
import argparse
import collections
import hashlib
import importlib
import json
import os
import random
import re
import select
import signal
import sys
import tempfile
import threading
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('NFMON_REPO', '/repo')
KNOWN_FILE = os.path.join(VERIF, 'known_findings.txt')

sys.path.insert(0, REPO)

# CPU seconds after which a case is judged not to terminate. Normal cases use
# less than a tenth of this.
CPU_LIMIT = 150.
# wall clock watchdog: inconclusive
WALL_LIMIT = 600.


class Violation(Exception):
    """The observed execution contradicts the property."""
    def __init__(self, message, key=None, **details):
        super().__init__(message)
        self.message = message
        self.key = key
        self.details = details


class Obs:
    """What the monitors observed during one case."""
    def __init__(self):
        self.counters = collections.Counter()
        self.maxima = {}
        self.keys = set()
        self.sample = None

    def count(self, name, num=1):
        self.counters[name] += int(num)

    def maximum(self, name, value):
        self.maxima[name] = max(self.maxima.get(name, value), value)

    def key(self, *parts):
        """Register the observed behaviour, used to count distinct cases."""
        self.keys.add(
            hashlib.sha1(repr(parts).encode()).hexdigest()[:16]
        )

    def as_dict(self):
        return dict(
            counters=dict(self.counters),
            maxima=self.maxima,
            keys=sorted(self.keys),
            sample=self.sample
        )


def jsonable(val):
    import numpy as np
    if isinstance(val, dict):
        return {str(k): jsonable(v) for k, v in val.items()}
    if isinstance(val, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in val]
    if isinstance(val, np.ndarray):
        return jsonable(val.tolist())
    if isinstance(val, np.generic):
        return jsonable(val.item())
    if isinstance(val, (str, int, float, bool)) or val is None:
        return val
    return repr(val)


def _repo_frames(exc):
    """Location of the innermost frame inside the checked code, if any."""
    pkg = os.path.join(REPO, 'nodefinder') + os.sep
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        frames = [
            f for f in traceback.extract_tb(exc.__traceback__)
            if os.path.abspath(f.filename).startswith(pkg)
        ]
        if frames:
            frame = frames[-1]
            return '{}:{}'.format(os.path.relpath(frame.filename, REPO), frame.name)
        exc = exc.__cause__ or exc.__context__
    return None


UNEXPECTED = (TypeError, ValueError, LookupError, AttributeError, ArithmeticError)


def run_one(module, case):
    """Run a single case in the current process, return the result dict."""
    import numpy as np
    from .monitor import TooLong
    obs = Obs()
    res = dict(case=case, violation=None, error=None)
    seed = int.from_bytes(
        hashlib.sha1(json.dumps(case, sort_keys=True).encode()).digest()[:4],
        'big'
    )
    random.seed(seed)
    np.random.seed(seed)
    begin = time.process_time()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            module.run_case(case, obs)
    except Violation as exc:
        res['violation'] = dict(
            message=exc.message, key=exc.key, details=jsonable(exc.details)
        )
    except TooLong:
        # the call limit of the recorder: nothing is decided about this case
        obs.count('abandoned')
    except BaseException as exc:  # pylint: disable=broad-except
        where = _repo_frames(exc)
        tb = traceback.format_exc()
        if where is not None:
            res['violation'] = dict(
                message='unexpected {} in {}: {}'.format(
                    type(exc).__name__, where, exc
                ),
                key=None,
                details=dict(traceback=tb)
            )
        elif isinstance(exc, UNEXPECTED):
            # a value of another kind than on any execution of intact code
            res['violation'] = dict(
                message='unexpected {} when using or examining what was returned: {}'.format(
                    type(exc).__name__, exc
                ),
                key=None,
                details=dict(traceback=tb)
            )
        else:
            res['error'] = tb
    res['obs'] = obs.as_dict()
    res['cpu'] = time.process_time() - begin
    return res


def clear_scratch():
    """Remove the files in the scratch directory of this worker."""
    path = os.path.realpath(os.getcwd())
    if os.path.basename(path).startswith('nfmon.'):
        for name in os.listdir(path):
            full = os.path.join(path, name)
            if os.path.isfile(full) or os.path.islink(full):
                os.remove(full)


# ---------------------------------------------------------------- workers


class _Watchdog(threading.Thread):
    """
    Ends a case which does not finish. Uses the CPU time of the process, or the
    fact that no thread which could wake the main thread exists.
    """
    def __init__(self, send):
        super().__init__(daemon=True)
        self.send = send
        self.case = None
        self.cpu0 = self.wall0 = 0
        self.limit = CPU_LIMIT
        self.lock = threading.Lock()

    def begin(self, case, limit):
        with self.lock:
            self.case = case
            self.limit = limit
            self.cpu0 = time.process_time()
            self.wall0 = time.monotonic()

    def end(self):
        with self.lock:
            self.case = None

    def run(self):
        main = threading.main_thread()
        while True:
            time.sleep(0.5)
            with self.lock:
                if self.case is None:
                    continue
                cpu = time.process_time() - self.cpu0
                wall = time.monotonic() - self.wall0
                stack = ''.join(
                    traceback.format_stack(
                        sys._current_frames()[main.ident]
                    )
                )
                res = dict(
                    case=self.case,
                    violation=None,
                    error=None,
                    obs=Obs().as_dict()
                )
                others = [
                    t for t in threading.enumerate()
                    if t not in (main, self) and t.is_alive()
                ]
                if cpu > self.limit:
                    if '/nodefinder/' not in stack and not others:
                        res['error'] = 'CPU limit in harness\n' + stack
                    else:
                        res['violation'] = dict(
                            message='no end after {:.0f} s of CPU time'.
                            format(cpu),
                            key=None,
                            details=dict(stack=stack)
                        )
                elif wall > 30 and not others and cpu < 0.5 * wall and (
                    'queue.py' in stack.splitlines()[-2] or 'threading.py'
                    in stack.splitlines()[-2]
                ) and '/nodefinder/' in stack:
                    res['violation'] = dict(
                        message=
                        'deadlock: waiting, and no thread exists which could continue',
                        key=None,
                        details=dict(stack=stack)
                    )
                elif wall > WALL_LIMIT:
                    res['error'] = 'wall clock watchdog\n' + stack
                else:
                    continue
                self.send(res)
                os._exit(0)


def _worker(module, rfd, wfd):
    for sig in (signal.SIGINT, signal.SIGTERM):
        signal.signal(sig, signal.SIG_DFL)
    rfile = os.fdopen(rfd, 'r')
    out = os.fdopen(wfd, 'w')
    lock = threading.Lock()

    def send(res):
        with lock:
            out.write(json.dumps(jsonable(res)) + '\n')
            out.flush()

    dog = _Watchdog(send)
    dog.start()
    # the output of the code under test is not interesting
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    if not os.environ.get('NFMON_STDERR'):
        os.dup2(null, 2)
    # each worker has its own scratch directory, also as current directory
    scratch = tempfile.mkdtemp(prefix='nfmon.')
    os.chdir(scratch)
    send('ready ' + scratch)
    for line in rfile:
        case = json.loads(line)
        dog.begin(case, getattr(module, 'CPU_LIMIT', CPU_LIMIT))
        res = run_one(module, case)
        dog.end()
        send(res)
    os._exit(0)


class Pool:
    """Forked workers which take the cases one by one."""
    def __init__(self, module, size):
        self.module = module
        self.workers = {}
        self.scratch = []
        for _ in range(size):
            self._start()

    def _start(self):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                for wrk in self.workers.values():
                    os.close(wrk['w'])
                    os.close(wrk['r'])
                _worker(self.module, r1, w2)
            finally:
                os._exit(3)
        os.close(r1)
        os.close(w2)
        self.workers[r2] = dict(pid=pid, w=w1, r=r2, buf=b'', case=None, idle=False)

    def run(self, cases, *, deadline, on_result, stop):
        cases = iter(cases)
        exhausted = False
        while True:
            for wrk in list(self.workers.values()):
                if wrk['idle'] and not exhausted:
                    case = None
                    if time.monotonic() < deadline and not stop():
                        case = next(cases, None)
                    if case is None:
                        exhausted = True
                        break
                    wrk['case'] = case
                    wrk['idle'] = False
                    os.write(wrk['w'], (json.dumps(case) + '\n').encode())
            if exhausted and all(w['idle'] for w in self.workers.values()):
                return
            ready, _, _ = select.select(list(self.workers), [], [], 1.)
            for rfd in ready:
                wrk = self.workers[rfd]
                data = os.read(rfd, 1 << 20)
                if not data:
                    case = wrk['case']
                    os.close(wrk['w'])
                    os.close(rfd)
                    del self.workers[rfd]
                    _, status = os.waitpid(wrk['pid'], 0)
                    if case is not None:
                        on_result(
                            dict(
                                case=case,
                                violation=None,
                                error='worker ended with status {}'.format(
                                    status
                                ),
                                obs=Obs().as_dict()
                            )
                        )
                    self._start()
                    continue
                wrk['buf'] += data
                while b'\n' in wrk['buf']:
                    line, wrk['buf'] = wrk['buf'].split(b'\n', 1)
                    res = json.loads(line)
                    wrk['idle'] = True
                    wrk['case'] = None
                    if isinstance(res, str):
                        self.scratch.append(res.split(' ', 1)[1])
                        continue
                    on_result(res)

    def close(self):
        import shutil
        for wrk in self.workers.values():
            os.close(wrk['w'])
        for wrk in self.workers.values():
            try:
                os.kill(wrk['pid'], signal.SIGKILL)
            except ProcessLookupError:
                pass
            os.waitpid(wrk['pid'], 0)
        for path in self.scratch:
            if path.startswith(tempfile.gettempdir() + '/nfmon.'):
                shutil.rmtree(path, ignore_errors=True)


# ---------------------------------------------------------------- known findings


def load_known(prop):
    """Keys of the listed findings of this property: {key: description}."""
    known = {}
    try:
        with open(KNOWN_FILE) as f:
            for line in f:
                match = re.match(
                    r'known: property=(\S+) key=(\S+) (.*)', line.strip()
                )
                if match and match.group(1) == prop:
                    known[match.group(2)] = match.group(3)
    except FileNotFoundError:
        pass
    return known


# ---------------------------------------------------------------- main


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('property')
    parser.add_argument('--replay')
    parser.add_argument('--cases', type=int)
    parser.add_argument('--workers', type=int, default=8)
    parser.add_argument('--verbose', action='store_true')
    parser.add_argument('--max-violations', type=int, default=3)
    args = parser.parse_args()

    prop = args.property
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    module = importlib.import_module('nfmon.checks.' + prop.lower())

    try:
        import nodefinder
        import nodefinder.search
        import nodefinder.identify
        import nodefinder.io
        path = os.path.abspath(nodefinder.__file__)
        assert path.startswith(REPO + os.sep), path
        if hasattr(module, 'prepare'):
            module.prepare()
    except Exception:  # pylint: disable=broad-except
        traceback.print_exc()
        print('INCONCLUSIVE property={} the package cannot be imported'.format(prop))
        sys.exit(2)

    if args.replay:
        with open(args.replay) as f:
            case = json.load(f)['case']
        cases = [case]
        workers = 1
    if args.replay and case.get('kind') == 'aggregate':
        # of all cases together
        seed, tier = case['seed'], case['tier']
    if not args.replay or case.get('kind') == 'aggregate':
        cases = module.cases(seed, tier)
        workers = args.workers
    if args.cases:
        import itertools
        cases = itertools.islice(cases, args.cases)

    start = time.monotonic()
    budget = getattr(module, 'BUDGET', {}).get(
        tier, 100 if tier == 'quick' else 600
    )
    if os.environ.get('NFMON_BUDGET'):
        budget = float(os.environ['NFMON_BUDGET'])
    known = load_known(prop)
    total = Obs()
    samples = []
    violations = []
    known_seen = collections.Counter()
    errors = []
    num = [0]
    kinds = collections.Counter()
    nontrivial = [0]
    slowest = [0., None]

    def on_result(res):
        num[0] += 1
        kinds[str(res['case'].get('kind', '-'))] += 1
        obs = res['obs']
        if res.get('cpu', 0) > slowest[0]:
            slowest[:] = [res['cpu'], res['case']]
        total.counters.update(obs['counters'])
        for name, val in obs['maxima'].items():
            total.maximum(name, val)
        if obs['keys']:
            nontrivial[0] += 1
        total.keys.update(obs['keys'])
        if obs['sample'] is not None and len(samples) < 6 and (
            all(s['case'].get('kind') != res['case'].get('kind') for s in samples)
        ):
            samples.append(dict(case=res['case'], observed=obs['sample']))
        if res['violation']:
            key = res['violation'].get('key')
            if key in known:
                known_seen[key] += 1
            else:
                violations.append(res)
                if args.verbose:
                    print('violation', res['case'], res['violation']['message'],
                          json.dumps(res['violation']['details'])[:3000], flush=True)
        if res['error']:
            errors.append(res)
            if args.verbose:
                print(res['case'], res['error'], flush=True)

    required = {} if args.cases else dict(getattr(module, 'REQUIRED', {}))

    def missing_observations():
        return {
            name: (total.counters.get(name, 0), minimum)
            for name, minimum in required.items()
            if total.counters.get(name, 0) < minimum
        }

    def stop():
        if len(violations) >= args.max_violations or len(errors) > 3:
            return True
        # on a slow machine, go on until enough has been observed
        return time.monotonic() > start + budget and not missing_observations()

    pool = Pool(module, workers)
    try:
        pool.run(
            cases,
            deadline=start + max(budget, 600),
            on_result=on_result,
            stop=stop
        )
    finally:
        pool.close()
    wall = time.monotonic() - start

    missing = missing_observations()

    if hasattr(module, 'aggregate') and not violations and workers > 1:
        # what can only be judged from all cases together
        message = module.aggregate(total.counters)
        if message:
            violations.append(dict(
                case=dict(kind='aggregate', seed=seed, tier=tier),
                violation=dict(message=message, key=None, details=dict(observed=dict(total.counters)))
            ))

    if not args.replay:
        coverage = dict(
            evaluations=num[0],
            distinct_nontrivial=len(total.keys),
            rule=module.RULE,
            samples=samples,
            cases_by_kind=dict(kinds),
            observed=dict(sorted(total.counters.items())),
            observed_maxima=total.maxima,
            required_observations=required,
            violations=len(violations),
            harness_errors=len(errors),
            known_findings_seen=dict(known_seen),
        )
        evidence = dict(
            property=prop,
            tier=tier,
            seed=seed,
            level=module.LEVEL,
            coverage=jsonable(coverage),
            wall_s=round(wall, 2)
        )
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        target = os.path.join(VERIF, 'evidence', prop + '.json')
        with open(target + '.tmp', 'w') as f:
            json.dump(evidence, f, indent=1, sort_keys=True)
        os.rename(target + '.tmp', target)

    for key, text in sorted(known.items()):
        print('KNOWN-FINDING: property={} {}'.format(prop, text))

    for i, res in enumerate(violations):
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        replay = args.replay or os.path.join(
            VERIF, 'replays', '{}-{}.json'.format(prop, i)
        )
        if not args.replay:
            with open(replay, 'w') as f:
                json.dump(
                    dict(case=res['case'], violation=res['violation']),
                    f,
                    indent=1
                )
        print('VIOLATION property={} replay={}'.format(prop, replay))
        print('   case: {}'.format(json.dumps(res['case'])[:600]))
        print('   {}'.format(res['violation']['message'][:1500]))
        if args.replay or args.verbose:
            for key, val in res['violation']['details'].items():
                text = val if isinstance(val, str) else json.dumps(val)
                print('   {}: {}'.format(key, text[:6000]))

    print(
        '{}: {} cases, {} distinct, {} violations, {} errors, {:.1f} s; observed {}'
        .format(
            prop, num[0], len(total.keys), len(violations), len(errors), wall,
            dict(sorted(total.counters.items()))
        )
    )
    if args.verbose:
        print('slowest case: {:.1f} s {}'.format(*slowest))
    if violations:
        sys.exit(1)
    if errors:
        print('INCONCLUSIVE property={} harness error:'.format(prop))
        print(json.dumps(errors[0]['case']))
        print(errors[0]['error'])
        sys.exit(2)
    if missing and not args.replay and not args.cases:
        print(
            'INCONCLUSIVE property={} not enough observed: {}'.format(
                prop, missing
            )
        )
        sys.exit(2)
    sys.exit(0)
