"""C20: operations leave no resources, tasks or changed settings behind."""
import asyncio
import contextlib
import gc
import os
import random
import tempfile
import warnings
import weakref

import h5py
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import numpy as np

from nodefinder import identify, io, search

from .. import clouds, features
from .. import world as w
from ..contexts import CONTEXTS
from ..core import Violation, clear_scratch
from ..monitor import Recorder, Stall, TooLong, event_loops
from ..residue import nothing_left, require_freed
from ..runner import DELAYS, TIMERS

PROPERTY = 'C20'
LEVEL = 'exploration'
RULE = (
    'search: random searches (with or without save file, new or resumed, synchronous or '
    'asynchronous) in all calling contexts which return, raise, are cancelled or '
    'interrupted at a random call; repeat: many searches in one process; identify, plot, '
    'io: the same for the other operations, also failing ones. Threads, tasks, event '
    'loops, file descriptors, files, figures, process settings and weak references to '
    'arguments and results are observed before and after each operation. Distinct by '
    'context, outcome and options.'
)
REQUIRED = {
    'searches': 500, 'returned': 150, 'raised': 100, 'cancelled': 60, 'interrupted': 30, 'freed': 800,
    'save_files': 150, 'resumed': 60, 'identified': 150, 'plots': 50, 'saved': 80, 'failed_loads': 60,
    'loops_closed': 300, 'repeated': 70, 'not_saved': 30, 'saving_interrupted': 15,
}
BUDGET = {'quick': 60, 'thorough': 500}


class Failure(Exception):
    pass


def cases(seed, tier):
    num = 1400 if tier == 'quick' else 20000
    for i in range(num):
        kind = ['search', 'identify', 'search', 'io', 'search', 'plot', 'search', 'repeat'][i % 8]
        yield dict(kind=kind, seed=seed * 1000003 + i)


class Gap:
    """A gap function object, to which weak references can be made."""
    def __init__(self, rec, use_coro, at_call, action):
        self.rec = rec
        self.calls = 0
        self.at_call = at_call
        self.action = action
        self.fired = False
        self.coroutine = use_coro

    def check(self):
        self.calls += 1
        if self.action is not None and self.calls > self.at_call and not self.fired:
            self.fired = True
            self.action()

    def __call__(self, pos):
        if self.coroutine:
            return self.later(pos)
        self.check()
        return self.rec(pos)

    async def later(self, pos):
        self.check()
        return await self.rec.coro(pos)


def make_problem(rng):
    return w.random_problem(
        rng, dims=(1, 2, 3), dim_weights=(2, 4, 1), fake=0.2, max_mesh=3, small_stencil=True,
        parallel=(1, 2, 5, 50), stencil_none=0.3, feature_range=(0.2, 0.8)
    )


def check_tasks(loop, known, what):
    left = [t for t in asyncio.all_tasks(loop) if t not in known and not t.done()]
    if left:
        raise Violation('tasks of {} are left on the event loop'.format(what),
                        tasks=[str(t)[:300] for t in left])


def in_context(name, action_box, what):
    """Functions to call a search, which look for tasks that are left."""
    def own_loop(gap, **kwargs):
        loop = asyncio.new_event_loop()
        asyncio.set_event_loop(loop)
        try:
            try:
                return search.run(gap, **kwargs)
            finally:
                check_tasks(loop, (), what)
                if asyncio.get_event_loop() is not loop:
                    raise Violation('the current event loop is exchanged by ' + what)
                if loop.is_closed():
                    raise Violation('the event loop of the caller is closed by ' + what)
        finally:
            asyncio.set_event_loop(None)
            loop.close()

    def awaited(gap, **kwargs):
        async def main():
            known = set(asyncio.all_tasks())
            try:
                return await search.run_async(gap, **kwargs)
            finally:
                check_tasks(asyncio.get_running_loop(), known, what)

        return asyncio.run(main())

    def nested(gap, **kwargs):
        async def main():
            known = set(asyncio.all_tasks())
            try:
                return search.run(gap, **kwargs)
            finally:
                check_tasks(asyncio.get_running_loop(), known, what)

        return asyncio.run(main())

    def cancelled(gap, **kwargs):
        async def main():
            known = set(asyncio.all_tasks())
            inner = asyncio.ensure_future(search.run_async(gap, **kwargs))
            action_box.append(inner)
            try:
                return await inner
            finally:
                check_tasks(asyncio.get_running_loop(), known, what)
                action_box.clear()

        return asyncio.run(main())

    return dict(
        own_loop=own_loop, awaited=awaited, nested=nested, cancelled=cancelled,
        plain=CONTEXTS['plain'], threaded=CONTEXTS['threaded'], gathered=CONTEXTS['gathered']
    )[name]


def check_loops(policy, before, what, obs):
    """All event loops which were made are closed, except for the current one."""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            current = asyncio.get_event_loop()
    except RuntimeError:
        current = None
    for loop in policy.loops[before:]:
        if loop is current:
            check_tasks(loop, (), what)
            continue
        if not loop.is_closed():
            raise Violation('an event loop made by {} is not closed'.format(what))
        obs.count('loops_closed')


@contextlib.contextmanager
def failing_write(exc, at_write):
    """Writing to HDF5 files fails at the given write. Counts the failures."""
    group = h5py.Group
    orig = group.__setitem__
    state = dict(writes=0, failed=0)

    def setitem(self, name, obj):
        state['writes'] += 1
        if state['writes'] == at_write:
            state['failed'] += 1
            raise exc('write failed')
        orig(self, name, obj)

    group.__setitem__ = setitem
    try:
        yield state
    finally:
        group.__setitem__ = orig


def one_search(rng, case, obs, policy, problem, number=0):
    """Returns whether the search could be judged."""
    name = w.pick(rng, ['plain', 'own_loop', 'awaited', 'nested', 'threaded', 'gathered', 'cancelled'])
    outcome = w.pick(rng, ['return', 'raise', 'interrupt'])
    if name == 'cancelled':
        outcome = 'cancel'
    if name in ('awaited', 'gathered', 'nested') and outcome == 'interrupt':
        # raised through the event loop of asyncio.run
        outcome = 'raise'
    use_coro = bool(rng.random() < 0.5)
    delay = w.pick(rng, ['none', 'uniform', 'long', 'timers'])
    rec = Recorder(
        w.Gap(problem['gap'], problem['box']), delay=DELAYS[delay], timer=TIMERS.get(delay),
        rng=np.random.default_rng([case['seed'], number, 5]), max_calls=6000
    )
    box = []

    def action():
        if outcome == 'raise':
            raise Failure('failed')
        if outcome == 'interrupt':
            raise KeyboardInterrupt('interrupted')
        if box:
            box[0].cancel()

    gap = Gap(rec, use_coro, int(rng.integers(0, 60)), None if outcome == 'return' else action)
    kwargs = w.search_kwargs(problem)
    allowed = []
    if rng.random() < 0.5:
        path = w.pick(rng, ['c20.hdf5', os.path.abspath('c20.hdf5')])
        allowed = ['c20.hdf5']
        kwargs.update(save_file=path, save_delay=float(w.pick(rng, [0., 1e-3, 1000.])))
        obs.count('save_files')
        if rng.random() < 0.5:
            kwargs.update(load=True)
            obs.count('resumed', os.path.exists(path))
    fault = None
    if allowed:
        fault = w.pick(rng, [None, 'rename', 'write', 'interrupt'], [3, 1, 1, 1])
        if fault == 'interrupt' and name in ('awaited', 'gathered', 'nested', 'cancelled'):
            fault = 'write'
        if fault == 'rename':
            # cannot be replaced by the save file
            os.makedirs('directory', exist_ok=True)
            kwargs.update(save_file='directory', load=False)
            allowed = []
    details = dict(context=name, outcome=outcome, use_coro=use_coro, delay=delay,
                   save_file=kwargs.get('save_file'), fault=fault)
    what = 'a search which is to ' + outcome
    call = in_context(name, box, what)
    refs = [weakref.ref(gap)]
    loops = len(policy.loops)
    done = None
    failing = contextlib.nullcontext(dict(failed=0))
    if fault in ('write', 'interrupt'):
        failing = failing_write(
            OSError if fault == 'write' else KeyboardInterrupt,
            1 + int(rng.integers(0, w.pick(rng, [10, 500])))
        )
    failed = 0
    # the task which saves can be interrupted while the search already stops
    noise = "exception=KeyboardInterrupt('write failed')" if fault == 'interrupt' else None
    with nothing_left(what, allowed_files=allowed, allowed_noise=noise, details=details):
        try:
            with failing as state:
                try:
                    result = call(gap, **kwargs)
                finally:
                    failed = state['failed']
                    state = failing = None
            done = 'returned'
            refs.append(weakref.ref(result))
            refs += [weakref.ref(r) for r in list(result.nodes)[:1]]
        except Failure:
            done = 'raised'
        except KeyboardInterrupt:
            done = 'interrupted'
        except asyncio.CancelledError:
            done = 'cancelled'
        except TooLong:
            done = 'abandoned'
        except Stall:
            raise Violation('search does not make progress', **details)
        except OSError as exc:
            if not (failed or fault == 'rename'):
                raise Violation('{} fails: {}'.format(what, exc), **details)
            done = 'not_saved'
        result = call = None
        del gap, action
        rec.on_call = None
    check_loops(policy, loops, what, obs)
    if done == 'abandoned':
        obs.count('abandoned')
        return
    require_freed(
        list(zip(refs, ['gap function', 'result', 'node'])),
        'the {} of a search which ' + done + ' is kept alive', obs, **details
    )
    obs.count('searches')
    obs.count(done)
    obs.count('saving_interrupted', failed and fault == 'interrupt' and done == 'interrupted')
    obs.key(name, done, use_coro, delay, bool(allowed), fault, problem['dim'])


def first_use():
    """Makes what is kept for later uses, as the default event loop."""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        search.run(lambda pos: 1., limits=[(0, 1)], initial_mesh_size=1, refinement_stencil=None)


def run_searches(case, rng, obs):
    clear_scratch()
    num = 1 if case['kind'] == 'search' else 6
    problem = make_problem(rng)
    with event_loops(lambda: object(), 10**9,
                     clock_seed=case['seed'] if rng.random() < 0.5 else None) as policy:
        first_use()
        for i in range(num):
            one_search(rng, case, obs, policy, problem, i)
        if num > 1:
            open_loops = [l for l in policy.loops if not l.is_closed()]
            if len(open_loops) > 1:
                raise Violation('event loops accumulate', number=len(open_loops), searches=num)
            obs.count('repeated')


def make_cloud(rng):
    dim = int(w.pick(rng, [1, 2, 3]))
    box = w.random_box(rng, dim)
    low, size = w.box_arrays(box)
    fs = float(np.min(size) * rng.uniform(0.05, 0.3))
    num = int(w.pick(rng, [1, 3, 20, 60]))
    pts = low + size * rng.random((num, dim))
    if rng.random() < 0.6:
        start = low + size * rng.random(dim)
        step = rng.normal(size=dim)
        step *= 0.4 * fs / np.linalg.norm(step)
        pts = np.concatenate([pts, start + step * np.arange(12)[:, None]])
        if box['periodic']:
            pts = low + (pts - low) % size
        else:
            pts = pts[np.all((pts >= low) & (pts <= low + size), axis=1)]
    return box, fs, pts


def run_identify(case, rng, obs, plot=False):
    from nodefinder.coordinate_system import CoordinateSystem
    clear_scratch()
    box, fs, pts = make_cloud(rng)
    if not len(pts):
        return
    system = CoordinateSystem(limits=box['limits'], periodic=box['periodic'])
    method = w.pick(rng, ['ballistic', 'shortest_path', 'dominating_set'])
    kwargs = dict(feature_size=fs, coordinate_system=system, evaluate_line_method=method)
    details = dict(box=box, method=method, number=len(pts))
    fail = rng.random() < 0.1
    if fail:
        kwargs['evaluate_line_method'] = 'unknown'
    states = []
    for seed in range(2):
        random.seed(int(rng.integers(10**9)) * 2 + seed)
        with nothing_left('identification', details=details):
            result = None
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    result = identify.run_from_positions(list(pts), **kwargs)
            except (ValueError, KeyError):
                if not fail:
                    raise
        states.append(random.getstate())
    if states[0] == states[1]:
        raise Violation('identification resets the random number generator', **details)
    obs.count('identified')
    obs.key('identify', box['periodic'], len(box['limits']), method, len(pts), fail)
    if result is None:
        return
    if plot and len(box['limits']) in (2, 3):
        dim = len(box['limits'])
        plt.close('all')
        given = rng.random() < 0.5
        if given:
            axis = plt.figure().add_subplot(111, projection='3d' if dim == 3 else None)
        with nothing_left('plot', figures=0 if given else 1, details=details):
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                identify.plot.result(result, axis=axis if given else None)
        axis = None
        obs.count('plots')
        plt.close('all')
    with nothing_left('saving', allowed_files=['r.hdf5'], details=details):
        io.save(result, 'r.hdf5')
    with nothing_left('loading', details=details):
        loaded = io.load('r.hdf5')
        # freed later
    obs.count('saved')
    refs = [weakref.ref(result), weakref.ref(loaded), weakref.ref(system)]
    del result, loaded, system, kwargs
    require_freed(
        list(zip(refs, ['identification result', 'loaded result', 'coordinate system'])),
        'the {} is kept alive', obs, **details
    )


def run_io(case, rng, obs):
    """Also failing operations leave nothing open."""
    clear_scratch()
    problem = make_problem(rng)
    with event_loops():
        try:
            result = search.run(
                Recorder(w.Gap(problem['gap'], problem['box']), max_calls=3000),
                save_file='state.hdf5', **w.search_kwargs(problem)
            )
        except TooLong:
            obs.count('abandoned')
            return
    for obj in [result, io.load('state.hdf5')]:
        with nothing_left('saving', allowed_files=['o.hdf5']):
            io.save(obj, 'o.hdf5')
        with nothing_left('loading'):
            loaded = io.load('o.hdf5')
            # can be replaced or removed, as nothing refers to the file
            os.rename('o.hdf5', 'p.hdf5')
            os.rename('p.hdf5', 'o.hdf5')
            del loaded
        obs.count('saved')
    how = w.pick(rng, ['missing', 'empty', 'cut', 'noise', 'directory', 'wrong'])
    path = 'bad.hdf5'
    with open('state.hdf5', 'rb') as file:
        data = file.read()
    if how == 'empty':
        data = b''
    elif how == 'cut':
        data = data[:int(rng.integers(1, len(data)))]
    elif how == 'noise':
        data = rng.bytes(500)
    if how == 'directory':
        os.mkdir(path)
    elif how == 'wrong':
        with h5py.File(path, 'w') as file:
            file['some'] = 1
    elif how != 'missing':
        with open(path, 'wb') as file:
            file.write(data)
    with nothing_left('loading which fails', details=dict(file=how)):
        try:
            io.load(path)
        except Exception:  # pylint: disable=broad-except
            obs.count('failed_loads')
    with nothing_left('saving which fails'):
        try:
            io.save(result, os.path.join('missing_directory', 'x.hdf5'))
        except OSError:
            obs.count('failed_saves')
    with event_loops():
        first_use()
        with nothing_left('a search which cannot be loaded', details=dict(file=how)):
            try:
                search.run(lambda pos: 1., save_file=path, load=True, load_quiet=False,
                           **w.search_kwargs(problem))
            except Exception:  # pylint: disable=broad-except
                obs.count('failed_loads')
            else:
                if how in ('missing', 'empty', 'noise'):
                    raise Violation('a file which cannot be read is ignored', file=how)
    obs.key('io', how, problem['dim'])


_FROZEN = []


def run_case(case, obs):
    rng = w.rng_of(case)
    if not _FROZEN:
        # what exists already need not be looked at in each garbage collection
        gc.collect()
        gc.freeze()
        _FROZEN.append(True)
    # all temporary files are seen
    clear_scratch()
    for name in ['bad.hdf5', 'directory']:
        if os.path.isdir(name):
            os.rmdir(name)
    tempdir = tempfile.tempdir
    os.makedirs('tmp', exist_ok=True)
    tempfile.tempdir = os.path.abspath('tmp')
    try:
        if case['kind'] in ('search', 'repeat'):
            run_searches(case, rng, obs)
        elif case['kind'] == 'io':
            run_io(case, rng, obs)
        else:
            run_identify(case, rng, obs, plot=case['kind'] == 'plot')
    finally:
        tempfile.tempdir = tempdir
