"""C03: every starting simplex is minimized exactly once unless it is near a node."""
import numpy as np

from .. import world as w
from ..core import Violation
from ..coverage import Work, check_starts, check_start_times
from ..runner import observe_search, starting_simplex

PROPERTY = 'C03'
LEVEL = 'exploration'
RULE = (
    'a seeded random search problem (stencils with identical simplices, all cutoffs, '
    'sync / async gap function with random delays, 1 to 50 minimizations in parallel) '
    'runs; the starting simplices observed in the results are matched with an '
    'independent model of mesh and refinement, left-out ones are compared with the '
    'nodes, and for each start the nodes known at that time are compared. lattice: '
    'positions on a lattice, where different refinements lead to identical simplices. Distinct '
    'by number of starts, left-out simplices, refined positions and parallelism.'
)
REQUIRED = {'starts_matched': 1000, 'left_out_justified': 200, 'start_times_checked': 300,
            'with_refinement': 50, 'lattice_coinciding': 300}
BUDGET = {'quick': 60, 'thorough': 700}


def cases(seed, tier):
    num = 1200 if tier == 'quick' else 14000
    for i in range(num):
        yield dict(kind='lattice' if i % 10 == 9 else 'search', seed=seed * 1000003 + i)


def make(case):
    rng = w.rng_of(case)
    problem = w.random_problem(
        rng, parallel=(1, 1, 2, 5, 50), fake=0.1, stencil_none=0.1,
        gap_kinds=['points', 'points', 'line', 'surface', 'rugged', 'const', 'plateau', 'walls'],
        small_stencil=bool(rng.random() < 0.5)
    )
    opts = problem['options']
    if rng.random() < 0.3:
        opts['simplex_check_cutoff'] = int(rng.integers(0, problem['dim'] + 3))
    kwargs = dict(
        use_coro=bool(rng.random() < 0.6),
        delay=w.pick(rng, ['none', 'uniform', 'long', 'one', 'timers']),
        seed=case['seed']
    )
    return problem, kwargs


def make_lattice(case):
    """
    All positions are on a lattice without rounding, such that refinement of
    different positions leads to identical simplices.
    """
    rng = w.rng_of(case)
    dim = int(w.pick(rng, [1, 2, 3], [1, 4, 1]))
    unit = float(2.**int(rng.integers(-6, 4)))
    num = {1: 16, 2: 8, 3: 4}[dim]
    low = unit * num * rng.integers(-2, 2, size=dim)
    box = dict(
        limits=[[float(l), float(l + unit * num)] for l in low], periodic=bool(rng.random() < 0.5)
    )
    # in units of the cutoff
    corners = np.concatenate([np.zeros((1, dim)), 0.5 * np.eye(dim)])
    reach = int(w.pick(rng, [1, 2]))
    shifts = [reach * s * np.eye(dim)[i] for i in range(dim) for s in (1, -1)]
    stencil = [(corners + s).tolist() for s in shifts]
    options = dict(
        initial_mesh_size=int(w.pick(rng, [1, 2])) if box['periodic'] else 1,
        gap_threshold=0.5, feature_size=3 * unit,
        num_minimize_parallel=int(w.pick(rng, [1, 2, 5, 50])),
        recheck_pos_dist=bool(rng.random() < 0.5),
        simplex_check_cutoff=int(w.pick(rng, [0, dim + 2])),
        nelder_mead_kwargs=dict(xtol=100 * unit),
    )
    problem = dict(
        dim=dim, box=box, gap=dict(kind='const', offset=0., features=[]),
        stencil=dict(kind='explicit', simplices=stencil), options=options
    )
    low, size = w.box_arrays(box)
    # all positions in the box are nodes
    fct = lambda pos: 0. if np.all(pos >= low) and np.all(pos < low + size) else 1.
    if box['periodic']:
        fct = lambda pos: 0.
    kwargs = dict(
        use_coro=bool(rng.random() < 0.6), fct=fct,
        delay=w.pick(rng, ['none', 'uniform', 'long', 'one', 'timers']),
        seed=case['seed']
    )
    return problem, kwargs


def check_identical(problem, work, obs):
    """No two minimizations start from exactly the same vertices."""
    seen = set()
    for res in work.results:
        key = tuple(sorted(tuple(float(v) + 0. for v in p) for p in starting_simplex(res)))
        if key in seen:
            raise Violation(
                'a starting simplex is minimized more than once', simplex=key, box=problem['box'],
                stencil=problem['stencil'], options=problem['options']
            )
        seen.add(key)
    return len(seen)


def coinciding(problem, work):
    """Number of simplices which belong to the refinement of several positions."""
    _, stencil = w.make_stencil(problem['stencil'], problem['dim'])
    dc = problem['options']['feature_size'] / 3
    all_sims = [
        tuple(map(tuple, pos + s * dc)) for pos in work.refined for s in stencil
    ]
    return len(all_sims) - len(set(all_sims))


def run_case(case, obs):
    lattice = case['kind'] == 'lattice'
    problem, kwargs = make_lattice(case) if lattice else make(case)
    run = observe_search(problem, **kwargs)
    work = Work(run)
    check_identical(problem, work, obs)
    if lattice:
        obs.count('lattice_coinciding', coinciding(problem, work))
    if run.abandoned:
        obs.count('abandoned')
    left = check_starts(problem, work, obs)
    check_start_times(problem, run, work, obs)
    if work.refined:
        obs.count('with_refinement')
    obs.key(len(work.results), left, len(work.refined), problem['options']['num_minimize_parallel'])
    obs.sample = dict(
        started=len(work.results), left_out=left, refined=len(work.refined),
        nodes=len(work.nodes), parallel=problem['options']['num_minimize_parallel']
    )
