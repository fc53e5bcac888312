"""C05: results do not depend on scheduling; parallelism is bounded and used."""
import asyncio

import numpy as np

from nodefinder import search

from .. import world as w
from ..contexts import CONTEXTS
from ..core import Violation
from ..coverage import mesh_simplices
from ..monitor import (
    require, container_content, result_content, result_probe, event_loops, Stall,
    Recorder,
)
from ..runner import Run, observe_search, starting_simplex, DELAYS

PROPERTY = 'C05'
LEVEL = 'exploration'
RULE = (
    'equal: the same search with independent minimizations runs with different '
    'parallelism, random delays of the gap function, sync / async and in different '
    'calling contexts, and the multisets of results are compared; together: two '
    'searches share an event loop; repeat: any search (refinement, fake potential) is '
    'repeated and compared including the order; barrier: an asynchronous gap function '
    'which lets no call return until the number of minimizations in progress is the '
    'allowed one. Distinct by results, parallelism, context and interleaving of the calls.'
)
REQUIRED = {
    'variants_compared': 100, 'repeats_compared': 20, 'barriers_passed': 200,
    'bounded_runs': 50, 'limit_reached': 10, 'together': 5,
}
BUDGET = {'quick': 60, 'thorough': 700}


def cases(seed, tier):
    num = 1000 if tier == 'quick' else 12000
    kinds = ['equal', 'barrier', 'repeat', 'equal', 'together']
    for i in range(num):
        yield dict(kind=kinds[i % 5], seed=seed * 1000003 + i)


def run_case(case, obs):
    rng = w.rng_of(case)
    globals()['_' + case['kind']](rng, case, obs)


def _independent(rng, **kwargs):
    problem = w.random_problem(
        rng, stencil_none=1., fake=0., dims=(1, 2, 3, 4), dim_weights=(2, 4, 4, 1),
        max_mesh=4, **kwargs
    )
    problem['options']['simplex_check_cutoff'] = problem['dim'] + 1
    problem['options']['use_fake_potential'] = False
    return problem


def intervals(run):
    """[first call, registration] of each minimization, as logical times."""
    calls = {}
    for i, pos in enumerate(run.rec.pos):
        calls.setdefault(pos, []).append(run.rec.start_time[i])
    out = []
    for clock, res, _ in run.added:
        # another minimization can have called the function at the same position
        # before: the latest possible time is used
        times = []
        for p in starting_simplex(res):
            before = [t for t in calls.get(tuple(float(v) for v in p), []) if t < clock]
            times += before[-1:]
        if times:
            out.append((min(times), clock))
    return out


def max_overlap(spans):
    events = sorted([(a, 1) for a, _ in spans] + [(b, -1) for _, b in spans])
    cur = best = 0
    for _, step in events:
        cur += step
        best = max(best, cur)
    return best


def check_bound(run, problem, obs):
    parallel = problem['options']['num_minimize_parallel']
    spans = intervals(run)
    if spans:
        num = max_overlap(spans)
        require(
            num <= parallel, 'more minimizations in progress than allowed',
            in_progress=num, num_minimize_parallel=parallel
        )
        obs.count('bounded_runs')
        obs.maximum('max_in_progress', num)
        if num == parallel and parallel > 1:
            obs.count('limit_reached')
    require(
        run.rec.max_in_flight <= parallel * (problem['dim'] + 1),
        'too many simultaneous calls of the gap function',
        calls=run.rec.max_in_flight, num_minimize_parallel=parallel
    )


def _multiset(result):
    return dict(
        nodes=sorted(map(repr, (result_content(r) for r in result.nodes))),
        rejected=sorted(map(repr, (result_content(r) for r in result.rejected_results))),
        refined=sorted(tuple(map(float, p)) for p in result.refined_results)
    )


def _equal(rng, case, obs):
    problem = _independent(rng)
    reference = None
    variants = []
    for i in range(4):
        variants.append(dict(
            parallel=1 if i == 0 else int(w.pick(rng, [1, 2, 3, 7, 50])),
            use_coro=i > 0 and bool(rng.random() < 0.75),
            delay='none' if i == 0 else w.pick(rng, ['none', 'uniform', 'long', 'one', 'timers']),
            context='plain' if i == 0 else w.pick(rng, list(CONTEXTS))
        ))
    for i, var in enumerate(variants):
        prob = dict(problem, options=dict(
            problem['options'], num_minimize_parallel=var['parallel']
        ))
        run = observe_search(
            prob, use_coro=var['use_coro'], delay=var['delay'],
            seed=case['seed'] + i, call=CONTEXTS[var['context']]
        )
        if run.abandoned:
            obs.count('abandoned')
            return
        check_bound(run, prob, obs)
        content = _multiset(run.result)
        if reference is None:
            reference = content, var
            continue
        for key in content:
            require(
                content[key] == reference[0][key],
                'results depend on the schedule: ' + key,
                variants=[reference[1], var],
                numbers=[len(reference[0][key]), len(content[key])]
            )
        obs.count('variants_compared')
        obs.count('context_' + var['context'])
        obs.key(len(content['nodes']), len(content['rejected']), tuple(var.values()),
                hash(tuple(run.rec.start_time[:200])))
    obs.sample = dict(variants=variants, nodes=len(reference[0]['nodes']),
                      rejected=len(reference[0]['rejected']))


def _repeat(rng, case, obs):
    problem = w.random_problem(rng, fake=0.3)
    kwargs = dict(
        use_coro=bool(rng.random() < 0.5),
        delay=w.pick(rng, ['none', 'uniform', 'long', 'timers']),
        seed=case['seed'],
        call=CONTEXTS[w.pick(rng, ['plain', 'awaited', 'threaded', 'nested'])]
    )
    first = observe_search(problem, **kwargs)
    if first.abandoned:
        obs.count('abandoned')
        return
    check_bound(first, problem, obs)
    second = observe_search(problem, **kwargs)
    if second.abandoned:
        return
    require(
        first.rec.pos == second.rec.pos,
        'repeating the search leads to different evaluations',
        calls=[first.rec.num, second.rec.num]
    )
    c1, c2 = container_content(first.result), container_content(second.result)
    for key in c1:
        require(c1[key] == c2[key], 'repeating the search gives a different result: ' + key)
    obs.count('repeats_compared')
    obs.key('repeat', len(c1['nodes']), len(c1['rejected']), first.rec.num)


def _together(rng, case, obs):
    """Two searches on the same event loop do not influence each other."""
    problems = [_independent(rng), _independent(rng)]
    alone = []
    for prob in problems:
        run = observe_search(prob, use_coro=False)
        if run.abandoned:
            obs.count('abandoned')
            return
        alone.append(_multiset(run.result))
    recs = [
        Recorder(w.Gap(p['gap'], p['box']), delay=DELAYS['uniform'],
                 rng=np.random.default_rng([case['seed'], i]), max_calls=40000)
        for i, p in enumerate(problems)
    ]

    async def main():
        return await asyncio.gather(*[
            search.run_async(rec.coro, **w.search_kwargs(p))
            for rec, p in zip(recs, problems)
        ])

    with event_loops(lambda: (recs[0].clock, recs[1].clock)):
        results = asyncio.run(main())
    for res, expected in zip(results, alone):
        content = _multiset(res)
        for key in content:
            require(content[key] == expected[key],
                    'searches on the same event loop influence each other: ' + key)
    obs.count('together')
    obs.key('together', recs[0].num, recs[1].num)


def _barrier(rng, case, obs):
    problem = _independent(rng, gap_kinds=['points', 'line', 'rugged', 'walls'])
    opts = problem['options']
    opts['nelder_mead_kwargs'] = dict(
        opts.get('nelder_mead_kwargs', {}), maxiter=int(rng.integers(2, 15))
    )
    opts['num_minimize_parallel'] = parallel = int(w.pick(rng, [1, 2, 3, 5, 8, 20, 100]))
    sims = mesh_simplices(problem['box'], opts['initial_mesh_size'])
    total = len(sims)
    scale = np.max(np.abs(sims))
    vertices = np.concatenate(sims)
    owner = np.repeat(np.arange(total), problem['dim'] + 1)
    gap = w.Gap(problem['gap'], problem['box'])
    # simplices of which any vertex has been evaluated
    started, finished = set(), [0]
    order = []
    watched = Run()
    rec = watched.rec = Recorder(gap)
    lookup = {}

    def start_of(pos):
        key = tuple(map(float, pos))
        if key not in lookup:
            dist = np.max(np.abs(vertices - np.asarray(pos)), axis=-1)
            idx = int(np.argmin(dist))
            lookup[key] = int(owner[idx]) if dist[idx] <= 1e-9 * scale else None
        return lookup[key]

    async def fct(pos):
        pos = np.array(pos)
        rec(pos)
        idx = start_of(pos)
        if idx is not None:
            if idx not in started:
                started.add(idx)
                order.append(idx)
        waiting = 0
        while True:
            in_progress = len(started) - finished[0]
            target = min(parallel, total - finished[0])
            if in_progress >= target:
                break
            waiting += 1
            require(
                waiting < 5000,
                'starting simplices are waiting, but fewer minimizations than allowed are in progress',
                in_progress=in_progress, num_minimize_parallel=parallel,
                waiting_simplices=total - len(started)
            )
            await asyncio.sleep(0)
        obs.count('barriers_passed')
        for _ in range(int(rng.integers(0, 3))):
            await asyncio.sleep(0)
        return gap(pos)

    def on_result(container, res, ret):
        finished[0] += 1
        watched.added.append((rec.tick(), res, ret))

    with result_probe(on_result), event_loops(lambda: (len(started), finished[0], obs.counters['barriers_passed']), 40000):
        try:
            res = search.run(fct, **w.search_kwargs(problem))
        except Stall:
            raise Violation('the search does not continue', started=len(started), finished=finished[0])
    require(len(res.minimization_results) == total, 'not all minimizations are finished',
            number=len(res.minimization_results), expected=total)
    check_bound(watched, problem, obs)
    if not finished[0]:
        obs.count('probe_not_reached')
    obs.key('barrier', parallel, total, tuple(order[:50]))
