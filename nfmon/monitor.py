"""
Instrumentation: recording gap functions, event loops which count their steps, and
probes on the public methods of the search result.
"""
import asyncio
import contextlib
import math
import time

import numpy as np

from nodefinder.search.result import SearchResultContainer

from .core import Violation


class TooLong(BaseException):
    """The workload is larger than the budget of a case; not a verdict."""


class Stall(BaseException):
    """Event loop makes steps without any progress of the search."""


class Recorder:
    """
    Gap function which records each call with a logical time stamp. Can be used
    as a synchronous or (`.coro`) asynchronous function.

    delay: function rng -> number of loop steps a call takes (async only)
    timer: function rng -> time which a call takes (async only)
    """
    def __init__(self, fct, *, max_calls=150000, max_cpu=4., delay=None, rng=None, on_call=None,
                 timer=None, modify=None):
        self.fct = fct
        # changes the argument in place at the end of each call
        self.modify = modify
        self.timer = timer
        self.pos = []
        self.val = []
        self.start_time = []
        self.end_time = []
        self.clock = 0
        self.in_flight = 0
        self.max_in_flight = 0
        self.max_calls = max_calls
        self.delay = delay
        self.rng = rng
        self.on_call = on_call
        self.closed = False
        self.max_cpu = max_cpu
        self.cpu0 = time.process_time()
        self.late_calls = 0

    def tick(self):
        self.clock += 1
        return self.clock

    @property
    def num(self):
        return len(self.pos)

    def _begin(self, pos):
        if self.closed:
            self.late_calls += 1
        if len(self.pos) >= self.max_calls or (
            len(self.pos) % 64 == 0 and
            time.process_time() - self.cpu0 > self.max_cpu
        ):
            raise TooLong()
        idx = len(self.pos)
        self.pos.append(tuple(float(v) for v in pos))
        self.val.append(None)
        self.start_time.append(self.tick())
        self.end_time.append(None)
        self.in_flight += 1
        self.max_in_flight = max(self.max_in_flight, self.in_flight)
        if self.on_call is not None:
            self.on_call(idx)
        return idx

    def __call__(self, pos):
        idx = self._begin(pos)
        try:
            val = self.fct(pos)
            self.val[idx] = val
            return val
        finally:
            if self.modify is not None:
                self.modify(pos)
            self.end_time[idx] = self.tick()
            self.in_flight -= 1

    async def coro(self, pos):
        idx = self._begin(pos)
        try:
            saved = np.array(pos, dtype=float)
            if self.timer is not None:
                await asyncio.sleep(self.timer(self.rng))
            elif self.delay is not None:
                for _ in range(self.delay(self.rng)):
                    await asyncio.sleep(0)
            val = self.fct(saved)
            self.val[idx] = val
            return val
        finally:
            if self.modify is not None:
                self.modify(pos)
            self.end_time[idx] = self.tick()
            self.in_flight -= 1


# ------------------------------------------------------------------ event loops


# average time for which one step of a loop with a virtual clock takes
TICK = 1e-3


class CountingLoop(asyncio.SelectorEventLoop):
    """
    Event loop which counts its steps, and raises Stall after too many steps
    without progress (as told by `progress`).
    """
    def __init__(self):
        super().__init__()
        self.steps = 0
        self.last_progress = 0
        self.progress_value = None
        self.progress = None
        self.stall_limit = 20000
        self.stalled = False
        # time of a virtual clock, which goes on by a random amount in each step
        self.virtual = None
        self.rng = None

    def time(self):
        return super().time() if self.virtual is None else self.virtual

    def _run_once(self):
        self.steps += 1
        if self.virtual is not None:
            self.virtual += float(self.rng.exponential(TICK))
            if not self._ready and self._scheduled:
                # nothing happens until the next timer
                self.virtual = max(self.virtual, self._scheduled[0]._when)
        if self.progress is not None:
            val = self.progress()
            if val != self.progress_value:
                self.progress_value = val
                self.last_progress = self.steps
            elif self.steps - self.last_progress > self.stall_limit:
                self.stalled = True
                self.last_progress = self.steps
                raise Stall()
        super()._run_once()


class CountingPolicy(asyncio.DefaultEventLoopPolicy):
    """Policy which makes counting loops, with a common progress function."""
    def __init__(self, progress=None, stall_limit=20000, clock_seed=None):
        super().__init__()
        self.clock_seed = clock_seed
        self.progress = progress
        self.stall_limit = stall_limit
        self.loops = []

    def new_event_loop(self):
        loop = CountingLoop()
        loop.progress = self.progress
        loop.stall_limit = self.stall_limit
        if self.clock_seed is not None:
            loop.rng = np.random.default_rng([self.clock_seed, len(self.loops)])
            loop.virtual = 1.
        self.loops.append(loop)
        return loop


@contextlib.contextmanager
def event_loops(progress=None, stall_limit=20000, clock_seed=None):
    """
    Use counting loops in this block, starting without a current event loop. With
    a seed, they have a virtual clock, such that many timers run out together.
    Yields the policy; all loops are closed afterwards.
    """
    old = asyncio.get_event_loop_policy()
    policy = CountingPolicy(progress, stall_limit, clock_seed)
    asyncio.set_event_loop_policy(policy)
    try:
        yield policy
    finally:
        asyncio.set_event_loop_policy(old)
        for loop in policy.loops:
            if not loop.is_closed() and not loop.is_running():
                loop.close()


# ------------------------------------------------------------------ probes


@contextlib.contextmanager
def result_probe(on_result=None, on_refined=None):
    """
    Observe the public methods add_result / set_refined of all search results.
    The callbacks get (container, argument, return value) after the call.
    """
    saved = {}

    def wrap(name, callback):
        orig = SearchResultContainer.__dict__.get(name)
        if orig is None or callback is None:
            return
        saved[name] = orig

        def wrapper(self, *args, **kwargs):
            ret = orig(self, *args, **kwargs)
            callback(self, args[0] if args else next(iter(kwargs.values())), ret)
            return ret

        setattr(SearchResultContainer, name, wrapper)

    wrap('add_result', on_result)
    wrap('set_refined', on_refined)
    try:
        yield
    finally:
        for name, orig in saved.items():
            setattr(SearchResultContainer, name, orig)


# ------------------------------------------------------------------ comparison


def same(val1, val2):
    """Equality of plain values and arrays, NaN equal to itself."""
    if isinstance(val1, np.ndarray) or isinstance(val2, np.ndarray):
        arr1, arr2 = np.asarray(val1), np.asarray(val2)
        if arr1.shape != arr2.shape:
            return False
        if arr1.dtype.kind in 'fc' and arr2.dtype.kind in 'fc':
            return bool(np.array_equal(arr1, arr2, equal_nan=True))
        return bool(np.array_equal(arr1, arr2))
    if isinstance(val1, (float, np.floating)) and isinstance(val2, (float, np.floating)):
        return val1 == val2 or (math.isnan(val1) and math.isnan(val2))
    return bool(val1 == val2)


RES_FIELDS = ['pos', 'value', 'num_fev', 'num_iter', 'status', 'success', 'message', 'simplex_history']


def is_joined(res):
    return 'ancestor' in vars(res)


def result_content(res):
    """The public content of a minimization result, as hashable data."""
    if is_joined(res):
        return (
            'joined', result_content(res.ancestor), result_content(res.child),
            _fields(res, RES_FIELDS + ['fun_simplex_history'])
        )
    return ('single', _fields(res, RES_FIELDS + ['fun_simplex_history']))


def _fields(res, keys):
    out = []
    for key in keys:
        val = getattr(res, key, None)
        if isinstance(val, bytes):
            val = ('bytes', val)
        elif isinstance(val, (np.ndarray, list, tuple)):
            arr = np.asarray(val, dtype=float)
            val = (arr.shape, arr.tobytes())
        elif isinstance(val, (bool, np.bool_)):
            val = ('bool', bool(val))
        elif isinstance(val, (int, float, np.number)):
            val = ('num', repr(float(val)))
        out.append((key, val))
    return tuple(out)


def container_content(res):
    """Content of a search result, in order."""
    return dict(
        limits=np.asarray(res.coordinate_system.limits, dtype=float).tobytes(),
        periodic=bool(res.coordinate_system.periodic),
        dist_cutoff=float(res.dist_cutoff),
        gap_threshold=float(res.gap_threshold),
        nodes=[result_content(r) for r in res.nodes],
        rejected=[result_content(r) for r in res.rejected_results],
        refined=[tuple(float(v) for v in p) for p in res.refined_results],
    )


def require(cond, message, **details):
    if not cond:
        raise Violation(message, **details)
