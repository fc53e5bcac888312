"""C07: the save file is complete and consistent at every crash point."""
import asyncio
import collections
import contextlib
import json
import os
import resource
import shutil
import signal
import sys
import tempfile
import time

import numpy as np
import h5py

from nodefinder import io, search

from .. import world as w
from ..core import Violation, clear_scratch, run_one
from ..coverage import check_state
from ..faults import failing_saves
from ..linewatch import LineWatch
from ..monitor import require, result_content, result_probe, container_content, TooLong
from ..runner import observe_search

PROPERTY = 'C07'
LEVEL = 'fault_enumeration'
RULE = (
    'watch: a random search saves as often as it can, and before each executed line of '
    'the code involved in saving the save file is examined; each version must load and '
    'account for all the work, and keep the results of the version before. crash: a '
    'forked search ends by os._exit at a sampled line, the file left behind is judged. '
    'fault: a rename, HDF5 operation or write (file size limit) fails at a sampled '
    'call. timing: times of saves and results on a virtual clock. final: saves at many moments between the last steps of a search, with a '
    'virtual clock. Each finished search: the file holds the returned result. Distinct by '
    'number of versions, crash line and fault.'
)
REQUIRED = {
    'lines_watched': 50000, 'versions': 300, 'final_files': 60, 'crashes': 100,
    'crashes_in_save': 40, 'other_tempdir': 15, 'faults': 60, 'recovered': 10, 'failed_saves': 12, 'states_checked': 300, 'schedules': 200, 'saved_in_time': 60, 'save_intervals': 60,
}
BUDGET = {'quick': 75, 'thorough': 700}


def cases(seed, tier):
    num = 1020 if tier == 'quick' else 10200
    for i in range(num):
        kind = ['watch', 'crash', 'fault', 'final', 'crash', 'watch', 'timing', 'final'][i % 8]
        yield dict(kind=kind, seed=seed * 1000003 + i)


def make(rng):
    problem = w.random_problem(
        rng, dims=(1, 2, 3), dim_weights=(2, 4, 1), fake=0.2, max_mesh=2, small_stencil=True,
        parallel=(1, 1, 2, 5, 50), feature_range=(0.3, 0.8),
        gap_kinds=['points', 'points', 'walls', 'rugged', 'line', 'const']
    )
    kwargs = dict(
        use_coro=bool(rng.random() < 0.4),
        delay=w.pick(rng, ['none', 'uniform', 'long', 'timers']),
        max_calls=3000,
    )
    return problem, kwargs


class Files:
    """The save file of one search, and what may be in it."""
    def __init__(self, rng, problem, obs, *, where=None):
        clear_scratch()
        self.problem = problem
        self.obs = obs
        self.path = where or w.pick(rng, ['c07.hdf5', os.path.abspath('c07.hdf5'), './c07.hdf5'])
        self.before = None
        kind = w.pick(rng, ['absent', 'garbage', 'other'], [4, 1, 1])
        if where is None and kind == 'garbage':
            with open(self.path, 'wb') as f:
                f.write(b'previous content' * 20)
        elif where is None and kind == 'other':
            from nodefinder.coordinate_system import CoordinateSystem
            io.save(CoordinateSystem(limits=[(0, 1)], periodic=True), self.path)
        self.before = self.read()
        self.signature = self.stat()
        self.results = collections.Counter()
        self.versions = 0
        # the content is compared with this, not with the file itself
        self.copy = os.path.join(os.getcwd() + '.copy')

    def read(self):
        try:
            with open(self.path, 'rb') as f:
                return f.read()
        except FileNotFoundError:
            return None

    def stat(self):
        try:
            st = os.stat(self.path)
        except FileNotFoundError:
            return None
        return (st.st_ino, st.st_size, st.st_mtime_ns)

    def changed(self):
        sig = self.stat()
        if sig == self.signature:
            return False
        self.signature = sig
        return True

    def judge(self, *, where):
        """Judge the current version of the file, returns the loaded state."""
        content = self.read()
        if content == self.before and self.versions == 0:
            return None
        require(content is not None, 'the save file has disappeared', where=where)
        with open(self.copy, 'wb') as f:
            f.write(content)
        try:
            state = io.load(self.copy)
        except Exception as exc:
            raise Violation(
                'the save file cannot be loaded', where=where, error=repr(exc),
                size=len(content), versions=self.versions
            ) from None
        finally:
            os.remove(self.copy)
        require(
            type(state).__name__ == 'ControllerState',
            'the save file holds something else', type=type(state).__name__, where=where
        )
        check_state(self.problem, state, self.obs)
        results = collections.Counter(
            result_content(r) for r in state.result.minimization_results
        )
        lost = self.results - results
        require(
            not lost, 'results of an earlier saved state are missing in a later one',
            lost=sum(lost.values()), before=sum(self.results.values()),
            now=sum(results.values()), where=where
        )
        self.results = results
        self.versions += 1
        self.obs.count('versions')
        return state

    def others(self):
        return sorted(f for f in os.listdir('.') if f != os.path.basename(self.path))


def check_final(files, result, obs):
    state = files.judge(where='end of the search')
    require(state is not None, 'no save file at the end of the search')
    require(
        container_content(state.result) == container_content(result),
        'the save file at the end of the search differs from the result',
        saved=len(state.result.minimization_results), returned=len(result.minimization_results)
    )
    require(
        not list(state.simplex_queue.objects) and not list(state.position_queue.objects),
        'the queues in the save file are not empty at the end of the search'
    )
    require(not files.others(), 'files are left behind', files=files.others())
    obs.count('final_files')


@contextlib.contextmanager
def other_tempdir():
    """
    The default directory for temporary files is not on the file system of the
    save file (or does not exist, if there is no other one).
    """
    path = None
    try:
        if os.stat('/dev/shm').st_dev != os.stat('.').st_dev:
            path = tempfile.mkdtemp(dir='/dev/shm', prefix='nfmon.')
    except OSError:
        pass
    saved = tempfile.tempdir
    tempfile.tempdir = path or os.path.abspath('not_existing')
    try:
        yield
    finally:
        tempfile.tempdir = saved
        if path is not None:
            for name in os.listdir(path):
                os.remove(os.path.join(path, name))
            os.rmdir(path)


def run_watch(case, rng, obs):
    problem, kwargs = make(rng)
    files = Files(rng, problem, obs)
    delay = float(w.pick(rng, [0., 0., 1e-3, 1000.]))
    if kwargs['delay'] == 'timers':
        delay = float(w.pick(rng, [0., 3e-4, 1e-3, 3e-3, 1e-2]))
    found = []

    def on_line(idx, kind):
        if found:
            return
        if files.changed():
            try:
                files.judge(where='before line event {} ({})'.format(idx, kind))
            except Violation as exc:
                found.append(exc)

    elsewhere = contextlib.nullcontext()
    if rng.random() < 0.2:
        elsewhere = other_tempdir()
        obs.count('other_tempdir')
    with elsewhere, LineWatch(on_line) as watch:
        run = observe_search(
            problem, seed=case['seed'], extra=dict(save_file=files.path, save_delay=delay), **kwargs
        )
    obs.count('lines_watched', watch.index)
    if found:
        raise found[0]
    if run.abandoned:
        obs.count('abandoned')
        return
    check_final(files, run.result, obs)
    obs.key('watch', files.versions, len(run.added), problem['dim'])
    obs.sample = dict(versions=files.versions, lines=watch.index, results=len(run.added))


def run_final(case, rng, obs):
    """Saves at different moments between the last steps of a search."""
    problem, kwargs = make(rng)
    kwargs.update(use_coro=True, delay='timers')
    problem['options']['num_minimize_parallel'] = int(w.pick(rng, [1, 1, 1, 2, 5]))
    saves = []
    for i in range(4):
        files = Files(rng, problem, obs)
        delay = float(w.pick(rng, [3e-4, 1e-3, 3e-3, 1e-2, 3e-2]))
        run = observe_search(
            problem, seed=case['seed'] * 4 + i, extra=dict(save_file=files.path, save_delay=delay), **kwargs
        )
        if run.abandoned:
            obs.count('abandoned')
            return
        check_final(files, run.result, obs)
        obs.count('schedules')
        saves.append(delay)
    obs.key('final', saves, len(run.added), problem['dim'])


# more than the time between a timer and the step which follows from it
SLACK = 0.05


def run_timing(case, rng, obs):
    """
    On a virtual clock, saves are save_delay apart, and each result is in the file
    at most that time after it was found.
    """
    problem, kwargs = make(rng)
    kwargs.update(use_coro=True, delay='timers')
    files = Files(rng, problem, obs)
    delay = float(w.pick(rng, [0.01, 0.05, 0.2, 0.7, 2., 1000.]))
    saves, results, fails, last = [], [], [], [None, 0.]
    failing = contextlib.nullcontext()
    if rng.random() < 0.4:
        failing = failing_saves(
            rng, first=int(rng.integers(0, w.pick(rng, [2, 8]))), number=int(rng.integers(1, 4)),
            on_failure=lambda: fails.append(now(asyncio.get_event_loop_policy()))
        )

    def now(policy):
        return policy.loops[-1].virtual if policy.loops else 0.

    def call(gap, **kwargs):
        policy = asyncio.get_event_loop_policy()
        inner = policy.progress

        def progress():
            if files.changed():
                # in the previous step
                saves.append(last[1])
            last[1] = now(policy)
            return inner()

        policy.progress = progress
        with result_probe(lambda *args: results.append(now(policy))), failing:
            return search.run(gap, **kwargs)

    try:
        run = observe_search(
            problem, seed=case['seed'], extra=dict(save_file=files.path, save_delay=delay), call=call, **kwargs
        )
    except OSError:
        # also the last one has failed
        if not [f for f in fails if f >= last[1] - SLACK]:
            raise
        obs.count('last_save_failed')
        return
    if run.abandoned:
        obs.count('abandoned')
        return
    end = last[1]
    # the last one is made when the search ends, at any time
    obs.count('failed_saves', len(fails))
    tried = sorted(saves + fails)
    last_tries = 2 + len([f for f in fails if f >= end - SLACK])
    for first, second in zip(tried[:-last_tries], tried[1:-last_tries + 1]):
        require(
            second - first >= delay - 1e-6, 'saved again before the time of save_delay is over',
            save_delay=delay, saves=saves[:20], failed=fails[:20]
        )
        obs.count('save_intervals')
    for when in results:
        if when + delay + SLACK < end:
            require(
                any(when <= s <= when + delay + SLACK for s in tried),
                'a result is not in the file after the time of save_delay', save_delay=delay, result=when,
                saves=saves[:20], failed=fails[:20], end=end
            )
            obs.count('saved_in_time')
    check_final(files, run.result, obs)
    obs.key('timing', delay, len(saves), len(results))


# ------------------------------------------------------------------ crashes

CRASHED = 99


def forked(fct, limit=90.):
    """Run in a forked child, returns the exit status (None if it does not end)."""
    pid = os.fork()
    if pid == 0:
        try:
            code = fct()
            os._exit(code or 0)
        except BaseException:  # pylint: disable=broad-except
            import traceback
            traceback.print_exc()
            os._exit(98)
    end = time.monotonic() + limit
    while time.monotonic() < end:
        done, status = os.waitpid(pid, os.WNOHANG)
        if done:
            return os.waitstatus_to_exitcode(status)
        time.sleep(0.002)
    os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    return None


def run_crash(case, rng, obs):
    problem, kwargs = make(rng)
    kwargs['max_calls'] = 1500
    probe = Files(rng, problem, obs)
    extra = dict(save_file=probe.path, save_delay=0.)
    before = probe.before
    kinds = []
    with LineWatch(lambda idx, kind: kinds.append(kind)):
        run = observe_search(problem, seed=case['seed'], extra=extra, **kwargs)
    if run.abandoned or not kinds:
        obs.count('abandoned')
        return
    classes = {}
    for i, kind in enumerate(kinds):
        classes.setdefault(kind, []).append(i)
    final = container_content(run.result)
    for _ in range(4):
        names = sorted(classes)
        weights = [dict(save=4, io=4, search=2)[n] for n in names]
        name = w.pick(rng, names, weights)
        at = classes[name][int(rng.integers(len(classes[name])))]
        clear_scratch()
        if before is not None:
            with open(probe.path, 'wb') as f:
                f.write(before)
        files = Files.__new__(Files)
        files.__dict__.update(
            problem=problem, obs=obs, path=probe.path, before=before, versions=0,
            results=collections.Counter(), copy=probe.copy, signature=probe.stat()
        )

        def child():
            seen = files.stat()
            kept = files.copy + '.kept'

            def on_line(idx, kind):
                nonlocal seen
                if idx == at:
                    os._exit(CRASHED)
                if idx % 7 == 0:
                    sig = files.stat()
                    if sig != seen:
                        # the version which a later one has to extend
                        seen = sig
                        shutil.copyfile(files.path, kept + '.tmp')
                        os.rename(kept + '.tmp', kept)

            with LineWatch(on_line):
                observe_search(problem, seed=case['seed'], extra=extra, **kwargs)
            return 0

        status = forked(child)
        kept = files.copy + '.kept'
        try:
            if status == 0:
                obs.count('crash_not_reached')
                continue
            if status is None:
                obs.count('child_timeout')
                continue
            require(status == CRASHED, 'the search ends abnormally', status=status)
            if os.path.exists(kept):
                now = files.read()
                require(now is not None, 'the save file has disappeared after a crash')
                shutil.copyfile(files.path, files.copy + '.now')
                shutil.copyfile(kept, files.path)
                files.judge(where='kept version')
                shutil.copyfile(files.copy + '.now', files.path)
                os.remove(files.copy + '.now')
            files.judge(where='after a crash before line event {} ({})'.format(at, name))
        finally:
            for suffix in ('.kept', '.kept.tmp', '.now'):
                if os.path.exists(files.copy + suffix):
                    os.remove(files.copy + suffix)
        obs.count('crashes')
        if name != 'search':
            obs.count('crashes_in_save')
        if files.versions:
            obs.count('crashes_with_file')
        obs.key('crash', at, len(run.added))
        # the search can be continued from what is left
        if files.versions and rng.random() < 0.3:
            again = observe_search(
                problem, seed=1, extra=dict(save_file=files.path, save_delay=1000., load=True, load_quiet=False),
                **kwargs
            )
            if not again.abandoned:
                lost = files.results - collections.Counter(
                    result_content(r) for r in again.result.minimization_results
                )
                require(not lost, 'results are lost when resuming after a crash', lost=sum(lost.values()))
                obs.count('resumed_after_crash')
    obs.sample = dict(lines=len(kinds), results=len(final['nodes']) + len(final['rejected']))


# ------------------------------------------------------------------ faults


class Fault:
    """Lets operations fail."""
    def __init__(self, what, at, always, files):
        self.what = what
        self.at = at
        self.always = always
        self.files = files
        self.calls = 0
        self.fired = 0
        self.content = None
        self.armed = False

    def hit(self):
        if not self.armed:
            return
        idx = self.calls
        self.calls += 1
        if idx == self.at or (self.always and idx > self.at):
            if not self.fired:
                self.content = self.files.read()
            self.fired += 1
            raise OSError(28, 'No space left on device (injected)')

    @contextlib.contextmanager
    def install(self):
        saved = []

        def patch(obj, name):
            orig = getattr(obj, name)
            saved.append((obj, name, orig))

            def wrapper(*args, **kwargs):
                self.hit()
                return orig(*args, **kwargs)

            setattr(obj, name, wrapper)

        if self.what == 'rename':
            patch(os, 'rename')
            patch(os, 'replace')
            patch(os, 'link')
            patch(shutil, 'move')
        elif self.what == 'setitem':
            patch(h5py.Group, '__setitem__')
        elif self.what == 'group':
            patch(h5py.Group, 'create_group')
        elif self.what == 'open':
            patch(h5py.File, '__init__')
        elif self.what == 'any':
            patch(h5py.Group, '__setitem__')
            patch(h5py.Group, 'create_group')
            patch(os, 'rename')
            patch(os, 'replace')
        self.armed = True
        try:
            yield self
        finally:
            self.armed = False
            for obj, name, orig in saved:
                setattr(obj, name, orig)


def run_fault(case, rng, obs):
    what = w.pick(rng, ['rename', 'setitem', 'group', 'open', 'any', 'fsize', 'directory'],
                  [4, 3, 2, 2, 2, 3, 1])
    problem, kwargs = make(rng)
    if what == 'directory':
        files = Files(rng, problem, obs, where=os.path.abspath('missing_directory/c07.hdf5'))
    else:
        files = Files(rng, problem, obs)
    delay = float(w.pick(rng, [0., 1000.]))
    extra = dict(save_file=files.path, save_delay=delay)
    details = dict(fault=what, save_delay=delay)
    if what == 'fsize':
        run_fsize(case, rng, obs, problem, kwargs, files, extra)
        return
    at = int(rng.integers(0, 3) if rng.random() < 0.4 or delay else rng.integers(0, 60))
    if what in ('setitem', 'group', 'any') and rng.random() < 0.5:
        at *= 20
    fault = Fault(what, at, bool(rng.random() < 0.5), files)
    raised = None
    run = None
    with fault.install():
        try:
            run = observe_search(problem, seed=case['seed'], extra=extra, **kwargs)
        except Violation:
            raise
        except Exception as exc:  # pylint: disable=broad-except
            raised = exc
    if what == 'directory':
        fault.fired = 1
    if run is not None and run.abandoned:
        obs.count('abandoned')
        return
    if not fault.fired:
        if raised is not None:
            raise raised
        check_final(files, run.result, obs)
        obs.count('fault_not_reached')
        return
    details.update(failed=fault.fired, always=fault.always)
    if raised is None:
        # tried again
        require(
            not fault.always and what != 'directory', 'saving fails, but the search does not raise an error', **details
        )
        check_final(files, run.result, obs)
        obs.count('recovered')
        obs.count('faults')
        obs.count('fault_' + what)
        return
    require(
        fault.always or what == 'directory',
        'the search fails if saving failed before, but not at its end', raised=repr(raised), **details
    )
    require(
        isinstance(raised, OSError), 'the search raises something else than the error of the save',
        raised=repr(raised), **details
    )
    content = files.read()
    if content != fault.content:
        # a later save may have succeeded
        require(content is not None, 'the previous save file has disappeared after a failing save', **details)
        files.before = None
        files.judge(where='after a failing save')
    elif content is not None and content != files.before:
        files.judge(where='after a failing save')
    require(not files.others(), 'temporary files are left behind by a failing save',
            files=files.others(), **details)
    obs.count('faults')
    obs.count('fault_' + what)
    obs.key(what, at, delay, fault.calls)
    obs.sample = dict(at=at, calls=fault.calls, raised=repr(raised), **details)


def run_fsize(case, rng, obs, problem, kwargs, files, extra):
    """Writes fail from some file size on."""
    limit = int(w.pick(rng, [0, 1000, 4000, 20000, 60000, 200000]))

    def child():
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
        try:
            run = observe_search(problem, seed=case['seed'], extra=extra, **kwargs)
        except Violation:
            return 5
        except Exception as exc:  # pylint: disable=broad-except
            return 3 if isinstance(exc, (OSError, RuntimeError)) else 4
        return 6 if run.abandoned else 0

    status = forked(child)
    obs.count('fsize_status_{}'.format(status))
    if status in (6, None) or (status is not None and status < 0):
        # the HDF5 library itself may crash when it cannot write
        return
    require(status != 5, 'the search hangs when the save file cannot be written')
    require(status in (0, 3), 'unexpected error when the save file cannot be written', status=status)
    content = files.read()
    if status == 3:
        require(not files.others(), 'temporary files are left behind by a failing save',
                files=files.others(), fault='fsize', limit=limit)
        obs.count('faults')
        obs.count('fault_fsize')
    if content != files.before:
        files.judge(where='after a failing write (limit {})'.format(limit))
    else:
        require(status == 3, 'nothing was saved, but no error raised', limit=limit)
    obs.key('fsize', limit, status, len(content or b''))


def run_case(case, obs):
    rng = w.rng_of(case)
    dict(watch=run_watch, final=run_final, timing=run_timing, crash=run_crash, fault=run_fault)[case['kind']](case, rng, obs)
