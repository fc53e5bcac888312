"""Runs searches under observation."""
import asyncio
import json
import zlib

import numpy as np

from nodefinder import search

from . import world as w
from .core import Violation
from .monitor import (
    Recorder, event_loops, result_probe, TICK, TooLong, Stall, is_joined
)

DELAYS = {
    'none': None,
    'uniform': lambda rng: int(rng.integers(0, 4)),
    'long': lambda rng: int(rng.integers(0, 25)) if rng.random() < 0.2 else 0,
    'one': lambda rng: 1,
    # in units of time
    'timers': None,
}
TIMERS = {
    'timers': lambda rng: float(rng.choice([0., 0.3, 1., 3., 10.]) * TICK * rng.random()),
}


def _modify(problem):
    """How the gap function changes its argument, if it does."""
    code = zlib.crc32(json.dumps(problem, sort_keys=True, default=repr).encode())
    low, size = w.box_arrays(problem['box'])

    def wrap(pos):
        pos -= low
        pos %= size

    def shift(pos):
        pos += 0.3 * size

    def fill(pos):
        pos[:] = low

    def reverse(pos):
        pos[:] = pos[::-1] * 0.5

    return {0: wrap, 1: shift, 2: fill, 3: reverse}.get(code % 32)


class Run:
    """A finished search with everything that was observed."""
    def __init__(self):
        self.result = None
        self.rec = None
        self.added = []  # (clock, result object, position before, return value)
        self.added_step = []  # step of the event loop for each added result
        self.refined = []  # (clock, position)
        self.start_step = []  # step of the event loop for each call
        self.kwargs = None
        self.abandoned = False
        self.modified = False
        self.loop_steps = 0


def observe_search(
    problem, *, use_coro=False, delay='none', seed=0, extra=None, fct=None,
    max_calls=25000, stall_limit=20000, call=None, extra_progress=None, max_cpu=4.
):
    """
    Run a search for the given problem. If the workload is larger than the
    budget, `abandoned` is set.
    """
    run = Run()
    fct = fct or w.Gap(problem['gap'], problem['box'])
    rec = Recorder(
        fct,
        delay=DELAYS[delay],
        timer=TIMERS.get(delay),
        rng=np.random.default_rng([seed, 77]),
        max_calls=max_calls,
        max_cpu=max_cpu,
        modify=_modify(problem)
    )
    run.modified = rec.modify is not None
    run.rec = rec
    run.kwargs = w.search_kwargs(problem)
    run.kwargs.update(extra or {})

    policies = []

    def step():
        return sum(l.steps for l in policies[0].loops) if policies else 0

    def on_call(idx):
        run.start_step.append(step())

    rec.on_call = on_call

    def on_result(container, res, ret):
        run.added.append((rec.tick(), res, ret))
        run.added_step.append(step())

    def on_refined(container, pos, ret):
        run.refined.append((rec.tick(), tuple(float(v) for v in pos)))

    def progress():
        return (rec.clock, )

    call = call or search.run
    with result_probe(on_result, on_refined), event_loops(
        progress, stall_limit, clock_seed=seed if delay in TIMERS else None
    ) as policy:
        policies.append(policy)
        try:
            run.result = call(rec.coro if use_coro else rec, **run.kwargs)
        except TooLong:
            run.abandoned = True
        except Stall:
            raise Violation(
                'search does not make progress: {} steps of the event loop without any call of the gap function'
                .format(stall_limit),
                calls=rec.num
            )
        finally:
            run.loop_steps = sum(l.steps for l in policy.loops)
    rec.closed = True
    return run


def starting_simplex(res):
    """Vertices of the starting simplex, in any order."""
    res = res.ancestor if is_joined(res) else res
    return np.array(res.simplex_history[0], dtype=float)


def final_simplex(res):
    res = res.child if is_joined(res) else res
    return np.array(res.simplex_history[-1], dtype=float)
