"""C01: nodes are real, every minimization is classified and kept exactly once."""
import numpy as np

from nodefinder.coordinate_system import CoordinateSystem
from nodefinder.search.result import SearchResultContainer, MinimizationResult

from .. import world as w
from ..core import Violation
from ..monitor import require, is_joined
from ..runner import observe_search, starting_simplex

PROPERTY = 'C01'
LEVEL = 'exploration'
RULE = (
    'search: a seeded random search problem (box, gap function with points, lines, '
    'surfaces, plateaus, inf/NaN walls or rugged, stencil, options, schedule) runs '
    'under a recording gap function, and every reported result is compared with the '
    'record; direct: random results (values at and around the threshold, any success '
    'flag, positions on and beyond the boundary) are added to a container. '
    'Non-trivial: at least one minimization finished; distinct by number of nodes, '
    'rejected results, calls, status counts and box type.'
)
REQUIRED = {
    'nodes_checked': 500, 'rejected_checked': 300, 'containers_checked': 20, 'modifying_gap': 50,
}
BUDGET = {'quick': 60, 'thorough': 700}


def cases(seed, tier):
    num = 1100 if tier == 'quick' else 12000
    for i in range(num):
        kind = 'direct' if i % 10 == 9 else 'search'
        yield dict(kind=kind, seed=seed * 1000003 + i)


def run_case(case, obs):
    rng = w.rng_of(case)
    if case['kind'] == 'direct':
        return _direct(rng, obs)
    problem = w.random_problem(rng, fake=0.35)
    use_coro = bool(rng.random() < 0.5)
    delay = w.pick(rng, ['none', 'uniform', 'long', 'timers'])
    # a gap function may return any number type
    conv = w.pick(rng, [float, np.float64, np.float32, lambda x: np.array(x)], [6, 2, 1, 1])
    gap = w.Gap(problem['gap'], problem['box'])
    run = observe_search(
        problem, use_coro=use_coro, delay=delay, seed=case['seed'],
        fct=lambda pos: conv(gap(pos)),
    )
    if run.abandoned:
        obs.count('abandoned')
        return
    if run.modified:
        obs.count('modifying_gap')
    check_result(run, problem, obs)


def check_result(run, problem, obs):
    res, rec = run.result, run.rec
    box = problem['box']
    low, size = w.box_arrays(box)
    thr = problem['options']['gap_threshold']
    eps = 1e-9 * (np.max(size) + np.max(np.abs(low)))
    log_pos = w.brute_norm(box, np.array(rec.pos).reshape(rec.num, -1))
    log_val = np.array([float(v) for v in rec.val])

    require(
        res.gap_threshold == thr and np.isclose(
            res.dist_cutoff, problem['options']['feature_size'] / 3, rtol=1e-12
        ) and np.array_equal(
            np.array(res.coordinate_system.limits), np.stack([low, low + size]).T
        ) or np.allclose(np.array(res.coordinate_system.limits), np.array(box['limits'])),
        'the result does not describe the given search'
    )

    nodes = list(res.nodes)
    rejected = list(res.rejected_results)
    everything = list(res.minimization_results)
    require(
        sorted(map(id, everything)) == sorted(map(id, nodes + rejected)),
        'minimization_results are not the nodes and rejected results',
        num=[len(everything), len(nodes), len(rejected)]
    )
    require(
        len(set(map(id, everything))) == len(everything),
        'a minimization is in the result twice'
    )
    for val in nodes:
        value = float(val.value)
        pos = np.asarray(val.pos, dtype=float)
        require(bool(val.success), 'node of a minimization which did not succeed',
                pos=pos, value=value, status=val.status)
        require(value <= thr, 'node above the gap threshold', pos=pos, value=value, threshold=thr)
        # evaluated at this position, up to a period
        dist = w.brute_dist(box, pos, log_pos)
        hits = (dist <= eps) & (
            np.isclose(log_val, value, rtol=1e-12, atol=0) | (log_val == value)
        )
        require(
            np.any(hits),
            'the gap function has not this value at the reported node',
            pos=pos, value=value,
            nearest=log_pos[np.argmin(dist)], distance=np.min(dist),
            nearest_value=log_val[np.argmin(dist)]
        )
        if box['periodic']:
            require(
                np.all(pos >= low) and np.all(pos <= low + size * (1 + 1e-12)),
                'node outside of the limits', pos=pos, limits=box['limits']
            )
        obs.count('nodes_checked')
    for val in rejected:
        value = float(val.value)
        require(
            not (bool(val.success) and value <= thr),
            'a successful minimization below the threshold is rejected',
            pos=val.pos, value=value, threshold=thr
        )
        obs.count('rejected_checked')

    # each finished minimization once
    starts = {}
    for val in everything:
        key = w.canon_simplex(starting_simplex(val))
        starts[key] = starts.get(key, 0) + 1
    dup = [k for k, n in starts.items() if n > 1]
    require(not dup, 'two results have the same starting simplex', simplex=dup[:1])
    if run.added:
        obs.count('add_result_observed', len(run.added))
        require(
            sorted(id(r) for _, r, _ in run.added) == sorted(map(id, everything)),
            'the finished minimizations are not those of the result',
            finished=len(run.added), in_result=len(everything)
        )
    fev = sum(int(val.num_fev) for val in everything)
    require(
        fev == rec.num,
        'the minimizations of the result do not account for all evaluations',
        num_fev=fev, calls=rec.num
    )
    obs.count('evaluations_recorded', rec.num)
    obs.count('joined', sum(is_joined(r) for r in everything))
    obs.count('infinite_values', int(np.sum(np.isinf(log_val))))
    obs.count('nan_values', int(np.sum(np.isnan(log_val))))
    if everything:
        obs.key(len(nodes), len(rejected), rec.num, box['periodic'])
        obs.sample = dict(
            nodes=len(nodes), rejected=len(rejected), calls=rec.num,
            example=dict(pos=list(map(float, everything[0].pos)), value=float(everything[0].value),
                         success=bool(everything[0].success))
        )


def _direct(rng, obs):
    dim = int(rng.integers(1, 5))
    box = w.random_box(rng, dim)
    low, size = w.box_arrays(box)
    thr = float(10**rng.uniform(-8, 1))
    coords = CoordinateSystem(limits=box['limits'], periodic=box['periodic'])
    kwargs = dict(
        coordinate_system=coords,
        gap_threshold=thr,
        dist_cutoff=float(np.min(size) * rng.uniform(0.01, 1.5))
    )
    results, expected = [], []
    for i in range(int(rng.integers(1, 40))):
        frac = rng.uniform(-1.5, 2.5, size=dim)
        snap = rng.random(dim) < 0.2
        frac[snap] = rng.integers(-1, 3, size=int(snap.sum()))
        pos = low + size * frac
        value = float(w.pick(rng, [
            0., thr, np.nextafter(thr, 0), np.nextafter(thr, np.inf), thr / 2, 2 * thr,
            np.inf, -thr
        ]))
        success = bool(rng.random() < 0.7)
        results.append(MinimizationResult(
            pos=np.array(pos), value=value, success=success, status=0 if success else 1,
            message='', num_fev=i, num_iter=1, simplex_history=np.zeros((1, dim + 1, dim))
        ))
        expected.append((pos, success and value <= thr))

    def compare(container, expected):
        nodes, rejected = list(container.nodes), list(container.rejected_results)
        ids = {id(r): i for i, r in enumerate(results)}
        require(
            sorted(ids[id(r)] for r in nodes) == [i for i, (_, e) in enumerate(expected) if e],
            'wrong classification by success and threshold',
            threshold=thr,
            nodes=[(r.value, r.success) for r in nodes],
            rejected=[(r.value, r.success) for r in rejected]
        )
        require(
            sorted(ids[id(r)] for r in rejected) ==
            [i for i, (_, e) in enumerate(expected) if not e],
            'rejected results are not the others'
        )
        require(
            len(container.minimization_results) == len(results) and
            len(container.nodes) == len(nodes),
            'minimization_results is incomplete'
        )
        for r in results:
            pos = np.asarray(r.pos)
            orig = expected[ids[id(r)]][0]
            eps = 1e-9 * (np.max(size) + np.max(np.abs(low)) + np.max(np.abs(orig)))
            require(
                w.brute_dist(box, pos, orig) < eps, 'the position has changed',
                before=orig, after=pos, box=box
            )
            if box['periodic']:
                require(
                    np.all(pos >= low) and np.all(pos <= (low + size) + eps),
                    'position outside of the limits', pos=pos, limits=box['limits']
                )
            else:
                require(np.array_equal(pos, orig), 'non-periodic position has changed')

    if rng.random() < 0.5:
        container = SearchResultContainer(**kwargs)
        for res, (_, is_node) in zip(results, expected):
            ret = container.add_result(res)
            require(bool(ret) == is_node, 'add_result returns the wrong classification',
                    value=res.value, success=res.success, threshold=thr, returned=ret)
    else:
        container = SearchResultContainer(minimization_results=results, **kwargs)
    compare(container, expected)
    # another threshold classifies the same results again
    thr2 = thr * float(w.pick(rng, [0.4, 1., 3.]))
    container2 = SearchResultContainer(
        minimization_results=container.minimization_results,
        **dict(kwargs, gap_threshold=thr2)
    )
    compare(container2, [(p, r.success and r.value <= thr2) for (p, _), r in zip(expected, results)])
    obs.count('containers_checked')
    obs.key('direct', dim, box['periodic'], len(results), sum(e for _, e in expected))
