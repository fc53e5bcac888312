"""C04: refinement covers every node, from positions which are well separated."""
from .. import world as w
from ..coverage import Work, check_refinement
from ..runner import observe_search

PROPERTY = 'C04'
LEVEL = 'exploration'
RULE = (
    'a seeded random search problem with a refinement stencil (or none) and random '
    're-check options, schedule and parallelism runs; all nodes and refined positions '
    'of the result are compared pairwise by brute force in the metric of the box. '
    'Distinct by number of nodes, refined positions and re-check options.'
)
REQUIRED = {'nodes_covered': 1000, 'refined_separated': 100, 'first_check_observed': 50, 'far_node_refined': 400,
            'recheck_off': 10, 'recheck_count': 10, 'no_stencil': 5}
BUDGET = {'quick': 60, 'thorough': 700}


def cases(seed, tier):
    num = 1200 if tier == 'quick' else 14000
    for i in range(num):
        yield dict(kind='search', seed=seed * 1000003 + i)


def make(case):
    rng = w.rng_of(case)
    problem = w.random_problem(
        rng, parallel=(1, 2, 5, 50), fake=0.15, stencil_none=0.05,
        gap_kinds=['points', 'line', 'line', 'surface', 'rugged', 'const', 'plateau', 'walls'],
    )
    opts = problem['options']
    for key in ('recheck_pos_dist', 'recheck_count_cutoff'):
        opts.pop(key, None)
    which = w.pick(rng, ['default', 'off', 'count', 'explicit'], [4, 1, 2, 1])
    if which == 'off':
        opts['recheck_pos_dist'] = False
        if rng.random() < 0.5:
            # has no effect
            opts['recheck_count_cutoff'] = int(rng.integers(1, 4))
    elif which == 'count':
        opts['recheck_count_cutoff'] = int(rng.integers(1, 4))
    elif which == 'explicit':
        opts['recheck_pos_dist'] = True
        opts['recheck_count_cutoff'] = 0
    kwargs = dict(
        use_coro=bool(rng.random() < 0.5),
        delay=w.pick(rng, ['none', 'uniform', 'long', 'one', 'timers']),
        seed=case['seed']
    )
    return problem, kwargs, which


def run_case(case, obs):
    problem, kwargs, which = make(case)
    run = observe_search(problem, **kwargs)
    work = Work(run)
    if run.abandoned:
        obs.count('abandoned')
    check_refinement(problem, work, obs, run)
    if which == 'off':
        obs.count('recheck_off')
    if which == 'count':
        obs.count('recheck_count')
    if problem['stencil'] is None:
        obs.count('no_stencil')
    obs.key(len(work.nodes), len(work.refined), which)
    obs.sample = dict(nodes=len(work.nodes), refined=len(work.refined), options=problem['options'])
