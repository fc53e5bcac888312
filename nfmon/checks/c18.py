"""C18: the fake potential repels from known nodes without distorting results."""
import math

import numpy as np

from nodefinder import search

from .. import world as w
from ..core import Violation
from ..monitor import event_loops, is_joined, require, same, Recorder, TooLong
from ..nm import check_run, split_sequential
from ..runner import observe_search, starting_simplex

PROPERTY = 'C18'
LEVEL = 'exploration'
RULE = (
    'trace: random searches with the fake potential and one minimization at a time; for '
    'each evaluation of a first step the value with the potential is computed from the '
    'nodes known at that time, and both steps are checked against the rules of the '
    'minimization. parallel: many minimizations at once; each value in the history of '
    'each first step is justified by the nodes known between start and end of the '
    'evaluation. resume: the same with nodes from a loaded state. without: searches '
    'without the potential. Distinct by numbers of evaluations of the steps.'
)
REQUIRED = {
    'first_steps': 700, 'second_steps': 700, 'repelled_evaluations': 3000, 'repelled_runs': 200,
    'first_steps_moved': 50, 'parallel_values': 5000, 'parallel_infinite': 300, 'known_from_load': 60,
    'single_steps': 300, 'joined_nodes': 150, 'same_position_not_repelled': 1,
}
BUDGET = {'quick': 80, 'thorough': 700}


def cases(seed, tier):
    num = 1000 if tier == 'quick' else 12000
    for i in range(num):
        kind = ['trace', 'parallel', 'trace', 'resume', 'trace', 'without'][i % 6]
        yield dict(kind=kind, seed=seed * 1000003 + i)


class Ambiguous(Exception):
    """Whether a position is repelled depends on rounding."""


def repelled(box, pos, known, cutoff):
    """Whether a node different from pos is closer than the cutoff."""
    if not len(known):
        return False
    arr = np.array(known)
    pos = np.asarray(pos, dtype=float)
    other = arr[~np.all(arr == pos, axis=1)]
    if not len(other):
        return False
    low, size = w.box_arrays(box)
    scale = float(np.max(np.abs(low)) + np.max(size) + np.max(np.abs(pos)))
    dist = w.brute_dist(box, pos, other)
    near = dist < cutoff
    edge = (np.abs(dist - cutoff) < 1e-9 * cutoff + 1e-13 * scale) | (dist < 1e-13 * scale)
    if np.any(near & ~edge):
        return True
    if np.any(edge):
        raise Ambiguous()
    return False


def make(case, rng):
    kind = case['kind']
    problem = w.random_problem(
        rng, dims=(1, 2, 3, 4), dim_weights=(1, 5, 3, 1), fake=0. if kind == 'without' else 1.1,
        max_mesh=3 if kind != 'parallel' else None, small_stencil=True, stencil_none=0.4,
        parallel=(1, ) if kind != 'parallel' else (2, 5, 50),
        gap_kinds=['points', 'points', 'line', 'surface', 'rugged', 'const', 'plateau', 'walls'],
        feature_range=(0.3, 1.8)
    )
    opts = problem['options']
    if kind == 'without' and rng.random() < 0.5:
        # the default
        opts.pop('use_fake_potential')
    if rng.random() < 0.6:
        # start also near to nodes
        opts['simplex_check_cutoff'] = problem['dim'] + 2
    return problem


def tolerances(problem):
    box = problem['box']
    low, size = w.box_arrays(box)
    dc = problem['options']['feature_size'] / 3
    nm = problem['options'].get('nelder_mead_kwargs', {})
    eps = 1e-10 * float(np.max(size) + np.max(np.abs(low)))
    kwargs = dict(
        xtol=nm.get('xtol', 0.03 * dc), maxiter=nm.get('maxiter'), maxfev=nm.get('maxfev'),
        fprime=nm.get('fprime_cutoff'), pos_equal=lambda p, v: w.brute_dist(box, p, v) < eps
    )
    ftol = nm.get('ftol', 0.05 * problem['options']['gap_threshold'])
    return kwargs, ftol


def check_joined(problem, res, nodes, rejected, obs):
    """The second step counts, the rest is joined in order."""
    first, second = res.ancestor, res.child
    box = problem['box']
    low, size = w.box_arrays(box)
    eps = 1e-10 * float(np.max(size) + np.max(np.abs(low)))
    require(
        w.brute_dist(box, np.asarray(res.pos, dtype=float), np.asarray(second.simplex_history[-1][0])) < eps,
        'position is not that of the second step', pos=res.pos, second=second.simplex_history[-1][0]
    )
    for key in ('value', 'success', 'status', 'message'):
        require(
            same(getattr(res, key), getattr(second, key)), key + ' is not that of the second step',
            values=[getattr(res, key), getattr(second, key)]
        )
    for key in ('num_fev', 'num_iter'):
        require(
            int(getattr(res, key)) == int(getattr(first, key)) + int(getattr(second, key)),
            key + ' is not the sum of both steps',
            values=[getattr(r, key) for r in (res, first, second)]
        )
    for key in ('simplex_history', 'fun_simplex_history'):
        expect = list(np.asarray(getattr(first, key))) + list(np.asarray(getattr(second, key)))
        require(
            same(np.asarray(getattr(res, key), dtype=float), np.array(expect, dtype=float)),
            key + ' is not joined in order'
        )
    good = bool(second.success) and second.value <= problem['options']['gap_threshold']
    require(
        (id(res) in nodes) == good and (id(res) in rejected) == (not good),
        'classification does not follow the second step', value=second.value, success=second.success,
        threshold=problem['options']['gap_threshold']
    )
    obs.count('joined_nodes', good)


def blowup(first):
    final = np.array(first.simplex_history[-1], dtype=float)
    return final[0] + 1.5 * (final - final[0])


def check_trace(problem, run, obs, known=()):
    box = problem['box']
    dc = problem['options']['feature_size'] / 3
    kwargs, ftol = tolerances(problem)
    kwargs['obs'] = obs
    known = [tuple(p) for p in known]
    nodes = {id(r) for r in run.result.nodes}
    rejected = {id(r) for r in run.result.rejected_results}
    parts = []
    new = [r for r in run.result.minimization_results if id(r) not in run.loaded]
    view = type('View', (), {})()
    view.rec, view.result = run.rec, type('Result', (), dict(minimization_results=new))()
    for res, begin, end in split_sequential(view):
        seq = [(np.array(run.rec.pos[i]), float(run.rec.val[i])) for i in range(begin, end)]
        require(is_joined(res), 'a minimization with fake potential has a single step')
        split = int(res.ancestor.num_fev)
        require(0 < split < len(seq), 'numbers of evaluations of the steps', num=[split, len(seq)])
        effective, num = [], 0
        for pos, val in seq[:split]:
            inside = repelled(box, pos, known, dc)
            num += inside
            if known and not inside:
                arr = np.array(known)
                obs.count('same_position_not_repelled', np.any(np.all(arr == pos, axis=1)))
            effective.append((pos, val + (math.inf if inside else 0.)))
        obs.count('repelled_evaluations', num)
        obs.count('repelled_runs', num > 0)
        check_run(
            effective, res.ancestor, initial=starting_simplex(res), ftol=math.inf, what='first step',
            exact=False, **kwargs
        )
        obs.count('first_steps')
        check_run(
            seq[split:], res.child, initial=blowup(res.ancestor), ftol=ftol, what='second step', **kwargs
        )
        obs.count('second_steps')
        obs.count('first_steps_moved', num > 0 and len(res.ancestor.simplex_history) > 3)
        check_joined(problem, res, nodes, rejected, obs)
        if id(res) in nodes:
            known.append(tuple(float(v) for v in res.pos))
        parts.append((split, len(seq)))
    return parts


def check_parallel(problem, run, obs, parts):
    """
    Each value in the histories has to be the gap, or infinity if and only if a
    node was near.
    """
    box = problem['box']
    dc = problem['options']['feature_size'] / 3
    nodes = {id(r) for r in run.result.nodes}
    rejected = {id(r) for r in run.result.rejected_results}
    kwargs, ftol = tolerances(problem)
    events = [(clock, tuple(float(v) for v in res.pos)) for clock, res, ret in run.added if id(res) in nodes]
    calls = {}
    rec = run.rec
    for i, pos in enumerate(rec.pos):
        calls.setdefault(pos, []).append(i)
    done = [0]

    def explained(pos, val, with_potential):
        """True / False, or None if it depends on rounding."""
        unclear = False
        for i in calls.get(tuple(float(v) for v in pos), ()):
            gap = float(rec.val[i])
            if not with_potential:
                if same(val, gap):
                    return True
                continue
            before = [p for c, p in events if c < rec.start_time[i]]
            until = [p for c, p in events if c < rec.end_time[i]]
            try:
                if repelled(box, pos, until, dc) and same(val, gap + math.inf):
                    return True
                if same(val, gap) and not repelled(box, pos, before, dc):
                    return True
            except Ambiguous:
                unclear = True
        return None if unclear else False

    for res in run.result.minimization_results:
        require(is_joined(res), 'a minimization with fake potential has a single step')
        require(
            np.max(np.abs(
                np.sort(np.asarray(res.child.simplex_history[0], dtype=float), axis=0) -
                np.sort(blowup(res.ancestor), axis=0)
            )) <= 1e-12 * float(np.max(np.abs(blowup(res.ancestor)))) + 1e-300,
            'second step does not start from the enlarged final simplex of the first one',
            start=res.child.simplex_history[0], expected=blowup(res.ancestor)
        )
        check_joined(problem, res, nodes, rejected, obs)
        for part, with_potential in ((res.ancestor, True), (res.child, False)):
            seen = set()
            for sim, fsim in zip(part.simplex_history, part.fun_simplex_history):
                for pos, val in zip(sim, fsim):
                    key = (tuple(float(v) for v in pos), repr(float(val)))
                    if key in seen:
                        continue
                    seen.add(key)
                    obs.count('parallel_values')
                    obs.count('parallel_infinite', math.isinf(val))
                    done[0] += 1
                    ok = explained(pos, float(val), with_potential)
                    if ok is False:
                        raise Violation(
                            'value in the history of the {} step is neither the gap function nor '
                            'due to known nodes'.format('first' if with_potential else 'second'),
                            pos=pos, value=float(val), dist_cutoff=dc, box=box,
                            gap=[rec.val[i] for i in calls.get(tuple(float(v) for v in pos), ())]
                        )
        parts.append((int(res.ancestor.num_fev), int(res.child.num_fev)))
    return parts


def run_case(case, obs):
    rng = w.rng_of(case)
    problem = make(case, rng)
    kind = case['kind']
    use_coro = bool(rng.random() < (0.7 if kind == 'parallel' else 0.3))
    delay = w.pick(rng, ['none', 'uniform', 'long', 'timers'])
    extra, known = {}, []
    loaded = set()
    if kind == 'resume':
        fct = Recorder(w.Gap(problem['gap'], problem['box']), max_calls=4000)
        kwargs = w.search_kwargs(problem)
        kwargs.update(use_fake_potential=bool(rng.random() < 0.5), save_file='first.hdf5')
        if isinstance(kwargs['initial_mesh_size'], int):
            kwargs['initial_mesh_size'] = 2
        try:
            with event_loops():
                before = search.run(fct, **kwargs)
        except TooLong:
            obs.count('abandoned')
            return
        known = [tuple(float(v) for v in r.pos) for r in before.nodes]
        extra = dict(load=True, save_file='first.hdf5', force_initial_mesh=True)
        obs.count('known_from_load', len(known) > 0)
    old = len(known)
    run = observe_search(
        problem, use_coro=use_coro, delay=delay, seed=case['seed'], max_calls=8000, extra=extra
    )
    if run.abandoned:
        obs.count('abandoned')
        return
    if kind == 'resume':
        # the loaded results are added before the first call
        first_call = run.rec.start_time[0] if run.rec.num else math.inf
        loaded = {id(r) for clock, r, _ in run.added if clock < first_call}
    run.loaded = loaded
    if kind == 'without':
        kwargs, ftol = tolerances(problem)
        parts = []
        for res, begin, end in split_sequential(run):
            require(not is_joined(res), 'two steps without fake potential')
            seq = [(np.array(run.rec.pos[i]), float(run.rec.val[i])) for i in range(begin, end)]
            check_run(
                seq, res, initial=starting_simplex(res), ftol=ftol, what='minimization', obs=obs, **kwargs
            )
            obs.count('single_steps')
            parts.append(len(seq))
    elif kind == 'parallel':
        parts = check_parallel(problem, run, obs, [])
    else:
        try:
            parts = check_trace(problem, run, obs, known)
        except Ambiguous:
            obs.count('ambiguous')
            return
    obs.key(kind, old, parts[:50])
    obs.sample = dict(minimizations=len(parts), known=old, first=parts[:5], kind=kind)
