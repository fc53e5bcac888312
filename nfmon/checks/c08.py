"""C08: resuming a search loses nothing and repeats nothing that is finished."""
import asyncio
import collections
import copy
import os
import shutil

import numpy as np

from nodefinder import io, search

from .. import world as w
from ..core import Violation, clear_scratch
from ..coverage import (
    Work, check_refinement, check_start_times, check_starts, check_state, expected_starts,
    queued_positions, queued_simplices
)
from ..monitor import (
    require, result_content, container_content, Recorder, event_loops, TooLong
)
from ..runner import observe_search

PROPERTY = 'C08'
LEVEL = 'exploration'
RULE = (
    'history: a random search is interrupted at random calls of the gap function '
    '(exception, or a copy of the save file made while it runs, as after a kill), up to '
    'four times, and resumed from the file or from the loaded state, in part with '
    'changed options; after each stage the starting simplices, results and refined '
    'positions are accounted for. finished: resuming a finished search. loading: '
    'missing files and conflicting arguments. Distinct by number of results, remaining '
    'work and options at each interruption.'
)
REQUIRED = {
    'resumed': 300, 'resumed_with_work': 200, 'finished_resumed': 60, 'whole_accounted': 80,
    'changed_options': 40, 'forced_mesh': 20, 'missing_file': 20, 'queued_positions': 20, 'waiting_added': 300, 'waiting_covered': 500,
}
BUDGET = {'quick': 60, 'thorough': 700}


class Interrupt(Exception):
    pass


def cases(seed, tier):
    num = 900 if tier == 'quick' else 10000
    for i in range(num):
        yield dict(kind='loading' if i % 8 == 7 else 'history', seed=seed * 1000003 + i)


def counter(results):
    return collections.Counter(result_content(r) for r in results)


def point_counter(points):
    return collections.Counter(tuple(float(v) for v in p) for p in points)


def make(rng):
    problem = w.random_problem(
        rng, dims=(1, 2, 3), dim_weights=(2, 5, 1), fake=0.15, max_mesh=3, small_stencil=True,
        parallel=(1, 1, 2, 5, 50), stencil_none=0.1, feature_range=(0.12, 0.6),
    )
    return problem


def change_options(rng, problem):
    """The same problem with other options for the resumed search."""
    problem = copy.deepcopy(problem)
    opts = problem['options']
    for _ in range(int(rng.integers(1, 3))):
        which = w.pick(rng, ['threshold', 'feature', 'stencil', 'mesh'])
        if which == 'threshold':
            opts['gap_threshold'] *= float(10**rng.uniform(-3, 3))
        elif which == 'feature':
            opts['feature_size'] *= float(rng.uniform(0.7, 2.))
        elif which == 'stencil':
            problem['stencil'] = w.random_stencil_spec(rng, problem['dim'], none=0.4, small=True)
        else:
            opts['initial_mesh_size'] = [int(v) for v in rng.integers(1, 4, size=problem['dim'])]
    return problem


def stage(problem, rng, obs, *, state, extra, at, how, path, seed):
    """
    Run one stage. Returns (run, interrupted), where run.result is None if the
    search was interrupted.
    """
    gap = w.Gap(problem['gap'], problem['box'])
    box = dict(calls=0, fired=False)

    def fct(pos):
        box['calls'] += 1
        if at is not None and box['calls'] > at:
            if how == 'raise':
                box['fired'] = True
                raise Interrupt('interrupted')
            if not box['fired'] and os.path.exists(path):
                # what a killed search would leave behind
                shutil.copyfile(path, path + '.killed')
                box['fired'] = True
        return gap(pos)

    try:
        run = observe_search(
            problem, fct=fct, seed=seed, use_coro=bool(rng.random() < 0.5),
            delay=w.pick(rng, ['none', 'uniform', 'long', 'timers']), extra=extra, max_calls=6000
        )
    except Interrupt:
        return None, True
    if box['fired'] and how == 'kill':
        os.replace(path + '.killed', path)
        return run, True
    return run, False


def check_stage(problem, state, run, obs, *, force, same_options, details):
    """Judge a completed stage which started from the given (loaded) state."""
    result = run.result
    before = counter(state.result.minimization_results)
    final = counter(result.minimization_results)
    lost = before - final
    require(
        not lost, 'results are lost when resuming', lost=sum(lost.values()),
        before=sum(before.values()), after=sum(final.values()), **details
    )
    ref_before = point_counter(state.result.refined_results)
    ref_lost = ref_before - point_counter(result.refined_results)
    require(not ref_lost, 'refined positions are lost when resuming', lost=len(ref_lost), **details)

    # classification by the current threshold
    threshold = problem['options']['gap_threshold']
    nodes = counter(result.nodes)
    for res in result.minimization_results:
        is_node = bool(res.success) and res.value <= threshold
        require(
            (nodes[result_content(res)] > 0) == is_node,
            'a result of the resumed search is not classified by its gap threshold',
            value=res.value, success=res.success, gap_threshold=threshold, **details
        )
    require(
        result.gap_threshold == threshold, 'gap threshold of the resumed result',
        found=result.gap_threshold, **details
    )
    require(
        abs(result.dist_cutoff * 3 - problem['options']['feature_size']) <=
        1e-12 * problem['options']['feature_size'],
        'distance cutoff of the resumed result', found=result.dist_cutoff, **details
    )

    # new work: exactly the remaining simplices and the new refinements
    left = collections.Counter(before)
    new_results = []
    for res in result.minimization_results:
        key = result_content(res)
        if left[key] > 0:
            left[key] -= 1
        else:
            new_results.append(res)
    left = collections.Counter(ref_before)
    new_refined = []
    for pos in result.refined_results:
        key = tuple(float(v) for v in pos)
        if left[key] > 0:
            left[key] -= 1
        else:
            new_refined.append(pos)
    work = Work(result=result)
    work.results = new_results
    expected = expected_starts(
        problem, new_refined, with_mesh=force, extra=queued_simplices(state)
    )
    check_starts(problem, work, obs, expected=expected)
    if not len(queued_simplices(state)) and not force and not len(queued_positions(state)):
        require(
            run.rec.num == 0 and not new_results,
            'resuming a finished search calls the gap function', calls=run.rec.num, **details
        )
        obs.count('finished_resumed')
    # waiting positions are refined, unless a refined position is near
    if problem['stencil'] is not None and queued_positions(state):
        dc = problem['options']['feature_size'] / 3
        low, size = w.box_arrays(problem['box'])
        eps = 1e-10 * float(np.max(np.abs(low)) + np.max(size))
        refined = np.array([np.asarray(p, dtype=float) for p in result.refined_results])
        for pos in queued_positions(state):
            nearest = np.min(w.brute_dist(problem['box'], pos, refined)) if len(refined) else np.inf
            require(
                nearest < dc * (1 + 1e-9) + eps,
                'a waiting position is neither refined nor near to a refined position',
                pos=pos, nearest=nearest, dist_cutoff=dc, **details
            )
            obs.count('waiting_covered')
    if new_results:
        obs.count('resumed_with_work')
    if queued_positions(state):
        obs.count('queued_positions')
    obs.count('resumed')


def add_waiting(rng, problem, state, obs):
    """
    A state with more waiting positions: chains of which only the neighbouring
    positions are near to each other, also starting at refined or other nodes.
    """
    low, size = w.box_arrays(problem['box'])
    dim = problem['dim']
    dc = problem['options']['feature_size'] / 3
    waiting = [tuple(p) for p in queued_positions(state)]
    for _ in range(int(rng.integers(1, 4))):
        bases = [low + size * rng.random(dim)]
        bases += [np.asarray(p, dtype=float) for p in list(state.result.refined_results)[:5]]
        bases += [np.asarray(r.pos, dtype=float) for r in list(state.result.nodes)[:5]]
        start = bases[int(rng.integers(len(bases)))]
        direction = rng.normal(size=dim)
        direction *= rng.uniform(0.4, 0.99) * dc / np.linalg.norm(direction)
        waiting += [tuple(start + i * direction) for i in range(int(rng.integers(2, 6)))]
    order = rng.permutation(len(waiting))
    obs.count('waiting_added', len(waiting))
    return search.result.ControllerState(
        result=state.result, simplex_queue=state.simplex_queue,
        position_queue=type(state.position_queue)([waiting[i] for i in order])
    )


def run_history(case, rng, obs):
    problem = make(rng)
    clear_scratch()
    path = os.path.abspath('c08.hdf5')
    reference = observe_search(problem, max_calls=4000)
    if reference.abandoned:
        obs.count('abandoned')
        return
    total = max(1, reference.rec.num)
    change = rng.random() < 0.35
    first_problem = problem
    options_same = True
    forced = False
    stages = []
    state = None
    for num in range(int(rng.integers(2, 6))):
        force = False
        extra = dict(save_file=path, save_delay=float(w.pick(rng, [0., 0., 1e-3, 3e-3, 1000.])))
        opts = problem['options']
        if num:
            require(os.path.exists(path), 'no save file after the interruption')
            state = io.load(path)
            if options_same and not forced:
                check_state(problem, state, obs)
            if change and rng.random() < 0.7:
                problem = change_options(rng, problem)
                options_same = False
                obs.count('changed_options')
            problem = copy.deepcopy(problem)
            opts = problem['options']
            opts['num_minimize_parallel'] = int(w.pick(rng, [1, 2, 5, 50]))
            opts['use_fake_potential'] = bool(rng.random() < 0.2)
            force = bool(rng.random() < 0.15)
            forced = forced or force
            if rng.random() < 0.25 and problem['stencil'] is not None:
                state = add_waiting(rng, problem, state, obs)
                io.save(state, path)
                forced = True
            if rng.random() < 0.6:
                extra.update(load=True)
                if rng.random() < 0.5:
                    extra.update(load_quiet=bool(rng.random() < 0.5))
            else:
                extra.update(initial_state=io.load(path))
            if force:
                extra.update(force_initial_mesh=True)
                obs.count('forced_mesh')
            elif rng.random() < 0.2:
                extra.update(force_initial_mesh=False)
        last = rng.random() < 0.3
        remaining = total if state is None else max(
            3, int(total * min(1., len(state.simplex_queue.objects) / 10)))
        at = None if last else int(rng.integers(0, max(1, remaining)))
        how = w.pick(rng, ['raise', 'kill'])
        if how == 'kill':
            extra['save_delay'] = 0.
        details = dict(stage=num, history=stages, force=force, how=how, at=at,
                       resumed_by='load' if 'load' in extra else 'initial_state')
        run, interrupted = stage(
            problem, rng, obs, state=state, extra=extra, at=at, how=how, path=path,
            seed=case['seed'] + num
        )
        if run is not None and run.abandoned:
            obs.count('abandoned')
            return
        if run is not None and state is not None:
            check_stage(problem, state, run, obs, force=force, same_options=options_same,
                        details=details)
        if run is not None and options_same and not forced:
            # the whole history
            work = Work(run)
            check_starts(problem, work, obs)
            check_refinement(problem, work, obs)
            obs.count('whole_accounted')
        elif run is not None and not interrupted and state is None:
            obs.count('uninterrupted')
        if run is None and state is not None:
            # interrupted again: nothing is lost
            now = io.load(path)
            lost = counter(state.result.minimization_results) - counter(
                now.result.minimization_results)
            require(not lost, 'results are lost when a resumed search is interrupted',
                    lost=sum(lost.values()), **details)
        stages.append([how if interrupted else 'end', at, len(run.added) if run else None,
                       len(state.simplex_queue.objects) if state else None])
        if not interrupted:
            # the search is finished: continuing it does nothing
            break
    if os.path.exists(path):
        finished = io.load(path)
        if not len(finished.simplex_queue.objects) and not len(finished.position_queue.objects):
            problem = copy.deepcopy(problem)
            problem['options']['num_minimize_parallel'] = int(w.pick(rng, [1, 50]))
            extra = dict(load=True, save_file=path)
            if rng.random() < 0.5:
                extra = dict(initial_state=finished)
            again = observe_search(problem, extra=extra)
            require(
                again.rec.num == 0, 'resuming a finished search calls the gap function',
                calls=again.rec.num, history=stages
            )
            require(
                container_content(again.result) == container_content(finished.result),
                'resuming a finished search changes the result', history=stages
            )
            obs.count('finished_resumed')
    obs.key(stages, options_same, forced, problem['dim'])
    obs.sample = dict(history=stages, options=problem['options'])


def run_loading(case, rng, obs):
    problem = make(rng)
    clear_scratch()
    path = os.path.abspath('c08.hdf5')
    reference = observe_search(problem, max_calls=3000)
    if reference.abandoned:
        obs.count('abandoned')
        return
    what = w.pick(rng, ['quiet', 'default', 'loud', 'both'])
    extra = dict(save_file=path, load=True)
    if what == 'quiet':
        extra.update(load_quiet=True)
    elif what == 'loud':
        extra.update(load_quiet=False)
    elif what == 'both':
        observe_search(problem, extra=dict(save_file=path))
        extra.update(initial_state=io.load(path), load_quiet=bool(rng.random() < 0.5))
    calls = []

    def fct(pos):
        calls.append(1)
        return gap(pos)

    gap = w.Gap(problem['gap'], problem['box'])
    before = os.listdir('.')
    try:
        run = observe_search(problem, fct=fct, extra=extra)
        exc = None
    except Violation:
        raise
    except Exception as err:  # pylint: disable=broad-except
        exc = err
    if what in ('quiet', 'default'):
        if exc is not None:
            raise exc
        require(
            run.rec.pos == reference.rec.pos,
            'with a missing file and load_quiet, the search differs from a new one', what=what
        )
        require(os.path.exists(path), 'no save file')
        obs.count('missing_file')
    elif what == 'loud':
        require(
            isinstance(exc, OSError), 'loading from a missing file does not raise an error',
            exception=repr(exc)
        )
        require(not calls, 'the search runs although the file is missing')
        require(os.listdir('.') == before, 'files are created although loading failed')
        obs.count('missing_file')
    else:
        require(
            isinstance(exc, ValueError), 'load and initial_state together do not raise ValueError',
            exception=repr(exc)
        )
        require(not calls, 'the search runs with conflicting arguments')
        obs.count('conflicting')
    obs.key(what, problem['dim'], reference.rec.num)


def run_case(case, obs):
    rng = w.rng_of(case)
    if case['kind'] == 'history':
        run_history(case, rng, obs)
    else:
        run_loading(case, rng, obs)
