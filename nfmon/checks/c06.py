"""C06: a failing or interrupted search raises, stops and keeps its progress."""
import asyncio
import collections
import contextlib
import os

import numpy as np

from nodefinder import search, io

from .. import world as w
from ..contexts import CONTEXTS
from ..core import Violation, clear_scratch
from ..coverage import check_state
from ..faults import failing_saves
from ..monitor import (
    require, result_content, Recorder, event_loops, result_probe, Stall, TooLong
)
from ..runner import DELAYS, TIMERS, observe_search

PROPERTY = 'C06'
LEVEL = 'exploration'
RULE = (
    'a seeded random search is interrupted at a random call of the gap function: by an '
    'exception of any kind (Exception, BaseException, KeyboardInterrupt, SystemExit, '
    'CancelledError) raised by a synchronous or asynchronous gap function, or by '
    'cancelling the awaiting task; in each calling context, with and without save '
    'file (saving can fail some times before, or always). Observed: exception, calls after the end, the save file, and a later '
    'search in the same context. Distinct by exception, context, number of finished '
    'and unfinished minimizations.'
)
REQUIRED = {
    'interrupted': 150, 'cancelled': 20, 'states_checked': 60, 'saves_complete': 60, 'later_searches': 40,
    'interrupted_in_progress': 30, 'failed_saves_before': 20, 'failed_saves_always': 10,
}
BUDGET = {'quick': 60, 'thorough': 700}


class GapError(Exception):
    pass


class GapBaseError(BaseException):
    pass


EXCEPTIONS = [
    GapError, ValueError, KeyError, RuntimeError, OSError, asyncio.TimeoutError,
    AssertionError, GapBaseError, asyncio.CancelledError, KeyboardInterrupt, SystemExit
]


def cases(seed, tier):
    num = 1000 if tier == 'quick' else 12000
    for i in range(num):
        yield dict(kind='cancel' if i % 4 == 3 else 'raise', seed=seed * 1000003 + i)


async def _linger(num=100):
    for _ in range(num):
        await asyncio.sleep(0)


def lingering(gap, *, closing, **kwargs):
    """Awaited, and the loop continues for a while after the search has ended."""
    async def main():
        try:
            return await search.run_async(gap, **kwargs)
        finally:
            closing()
            await _linger()

    return asyncio.run(main())


def lingering_loop(gap, *, closing, **kwargs):
    loop = asyncio.new_event_loop()
    asyncio.set_event_loop(loop)
    try:
        return search.run(gap, **kwargs)
    finally:
        closing()
        loop.run_until_complete(_linger())
        asyncio.set_event_loop(None)
        loop.close()


def default_loop(gap, *, closing, **kwargs):
    """The event loop which `run` leaves behind continues."""
    try:
        return search.run(gap, **kwargs)
    finally:
        closing()
        for loop in asyncio.get_event_loop_policy().loops:
            if not loop.is_closed() and not loop.is_running():
                loop.run_until_complete(_linger())


def run_case(case, obs):
    rng = w.rng_of(case)
    problem = w.random_problem(rng, fake=0.15, max_mesh=3, small_stencil=True,
                               parallel=(1, 2, 5, 50))
    reference = observe_search(problem, max_calls=6000)
    total = reference.rec.num
    if total < 2:
        return
    use_coro = bool(rng.random() < 0.6)
    delay = w.pick(rng, ['none', 'uniform', 'long', 'one', 'timers'])
    at_call = int(rng.integers(0, total)) if rng.random() < 0.8 else int(rng.integers(0, min(total, 8)))
    save = bool(rng.random() < 0.6)
    kwargs = w.search_kwargs(problem)
    path = None
    if save:
        clear_scratch()
        path = os.path.abspath('c06.hdf5')
        kwargs.update(save_file=path, save_delay=float(w.pick(rng, [0., 1e-3, 3e-3, 5., 1000.])))
    cancel = case['kind'] == 'cancel'
    exc_type = asyncio.CancelledError if cancel else w.pick(rng, EXCEPTIONS)
    exc = exc_type('interrupted') if exc_type is not SystemExit else SystemExit(7)
    # the gap function keeps failing
    again = bool(rng.random() < 0.3) and issubclass(exc_type, Exception)

    # saving fails some times before that, or also afterwards
    faults = w.pick(rng, [None, 'before', 'always'], [6, 2, 1]) if save else None
    failing = contextlib.nullcontext(dict(failed=0))
    if faults is not None:
        failing = failing_saves(
            rng, first=int(rng.integers(0, w.pick(rng, [2, 20]))),
            number=int(rng.integers(1, 5)) if faults == 'before' else 10**9
        )

    state = dict(fired=0, task=None, finished_at_fire=0)
    finished = []
    gap = w.Gap(problem['gap'], problem['box'])

    def fct(pos):
        if len(finished) >= 0 and rec.num > at_call and (not state['fired'] or again):
            if not state['fired']:
                state['in_progress'] = rec.in_flight
                if faults == 'before':
                    saving['armed'] = False
            state['fired'] += 1
            if cancel:
                state['task'].cancel()
            else:
                raise exc
        return gap(pos)

    rec = Recorder(
        fct, delay=DELAYS[delay], timer=TIMERS.get(delay), rng=np.random.default_rng([case['seed'], 5]),
        max_calls=20000
    )
    fun = rec.coro if use_coro else rec

    def closing():
        rec.closed = True

    def on_result(container, res, ret):
        finished.append(result_content(res))

    if cancel:
        name = w.pick(rng, ['task', 'wait_for', 'sibling'])
        call = None
    else:
        name = w.pick(rng, ['lingering', 'lingering_loop', 'default_loop'] + list(CONTEXTS),
                      [3, 3, 2] + [1] * len(CONTEXTS))
        if name in CONTEXTS:
            def call(fun, closing, **kwargs):
                return CONTEXTS[name](fun, **kwargs)
        else:
            call = dict(lingering=lingering, lingering_loop=lingering_loop,
                        default_loop=default_loop)[name]

    async def cancelled_main():
        inner = asyncio.ensure_future(search.run_async(fun, **kwargs))
        state['task'] = inner
        try:
            if name == 'wait_for':
                return await asyncio.wait_for(inner, timeout=None)
            if name == 'sibling':
                return (await asyncio.gather(inner))[0]
            return await inner
        finally:
            closing()
            await _linger()

    raised = result = None
    with failing as saving, result_probe(on_result), event_loops(
        lambda: rec.clock, 20000, clock_seed=case['seed'] if delay in TIMERS else None
    ):
        try:
            if cancel:
                result = asyncio.run(cancelled_main())
            else:
                result = call(fun, closing=closing, **kwargs)
        except TooLong:
            obs.count('abandoned')
            return
        except Stall:
            raise Violation(
                'the search hangs after the interruption' if state['fired'] else 'the search hangs',
                exception=repr(exc), context=name, fired=state['fired'], calls=rec.num
            )
        except BaseException as err:  # pylint: disable=broad-except
            raised = err
        closing()
    details = dict(exception=repr(exc), context=name, raised=repr(raised), use_coro=use_coro,
                   at_call=at_call, calls=rec.num, save_file=save,
                   save_delay=kwargs.get('save_delay'), failing_saves=faults, failed=saving['failed'])
    if not state['fired']:
        if raised is not None and not saving['failed']:
            raise raised
        obs.count('not_fired')
        return
    require(
        raised is not None, 'the search returns a result although it was interrupted', **details
    )
    require(
        raised is exc or type(raised) is exc_type,  # pylint: disable=unidiomatic-typecheck
        'the search does not end with the exception of the interruption', **details
    )
    if raised is not exc and not cancel and exc_type is not asyncio.CancelledError:
        require(raised.args == exc.args, 'another exception of this type', **details)
    require(
        rec.late_calls == 0, 'the gap function is called after the search has ended',
        late_calls=rec.late_calls, **details
    )
    obs.count('cancelled' if cancel else 'interrupted')
    obs.count('exc_' + exc_type.__name__)
    obs.count('context_' + name)
    if state.get('in_progress', 0) > 1:
        obs.count('interrupted_in_progress')

    if saving['failed']:
        obs.count('failed_saves_' + faults)
    if save and faults == 'always' and saving['failed']:
        if os.path.exists(path):
            check_state(problem, io.load(path), obs)
            os.remove(path)
        left = [f for f in os.listdir('.') if f != os.path.basename(path)]
        require(not left, 'files are left behind', files=left, **details)
    elif save:
        require(os.path.exists(path), 'no save file after the interruption', **details)
        loaded = io.load(path)
        saved = collections.Counter(result_content(r) for r in loaded.result.minimization_results)
        missing = collections.Counter(finished) - saved
        # these exceptions interrupt the event loop itself, which belongs to the
        # caller if the search is awaited
        own_loop = name not in ('awaited', 'gathered', 'lingering') or issubclass(
            exc_type, Exception) or exc_type in (asyncio.CancelledError, GapBaseError)
        require(
            not missing or not own_loop, 'the save file does not hold all finished minimizations',
            missing=sum(missing.values()), finished=len(finished), **details
        )
        check_state(problem, loaded, obs)
        if own_loop:
            obs.count('saves_complete')
        left = [f for f in os.listdir('.') if f != os.path.basename(path)]
        require(not left or not own_loop, 'files are left behind', files=left, **details)
        os.remove(path)

    # a later search is not affected
    if rng.random() < 0.4 and not reference.abandoned:
        before = rec.num
        again_run = observe_search(problem, use_coro=False, max_calls=20000)
        require(not again_run.abandoned, 'a later search does not end', **details)
        require(
            again_run.rec.pos == reference.rec.pos,
            'a later search makes different evaluations', **details
        )
        require(rec.num == before, 'calls on behalf of the interrupted search', **details)
        obs.count('later_searches')
    obs.key(exc_type.__name__, name, len(finished), rec.num, save)
    obs.sample = dict(finished=len(finished), **details)
