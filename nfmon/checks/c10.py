"""C10: neighbour lookup finds exactly the positions within the cutoff."""
import numpy as np

from nodefinder import io
from nodefinder.search.result import (
    JoinedMinimizationResult, MinimizationResult, SearchResultContainer
)

from .. import clouds
from .. import world as w
from ..core import Violation
from ..monitor import result_probe
from ..runner import observe_search

PROPERTY = 'C10'
LEVEL = 'exploration'
RULE = (
    'cloud: positions of random clouds (uniform, grouped, lattice, with a shared '
    'coordinate, at the boundary, outside of the limits, repeated) are added one by one '
    'or at construction to a search result with random box (dimension 1 to 4, aspect '
    'ratio up to 50) and cutoff (zero to twice the box size), mixed with rejected '
    'results; all lookups are compared with a direct comparison of all positions, at '
    'several times. search: the same monitor is attached to running searches. Distinct '
    'by dimension, cell numbers, number of positions and of neighbours.'
)
REQUIRED = {
    'lookups': 12000, 'near_found': 15000, 'far_reported': 2000, 'refined_lookups': 5000,
    'across_boundary': 1000, 'outside_queries': 1000, 'single_cell': 60, 'two_cells': 60,
    'same_position_excluded': 2000, 'shared_coordinate': 2000, 'search_lookups': 1500,
}
BUDGET = {'quick': 45, 'thorough': 500}


def cases(seed, tier):
    num = 1500 if tier == 'quick' else 18000
    for i in range(num):
        yield dict(kind='search' if i % 10 == 9 else 'cloud', seed=seed * 1000003 + i)


def make_cutoff(rng, box, ratio=None):
    _, size = w.box_arrays(box)
    dim = len(size)
    kind = w.pick(rng, ['few', 'few', 'normal', 'small', 'huge', 'divisor', 'zero'])
    ref = float(w.pick(rng, [np.min(size), np.max(size), np.exp(np.mean(np.log(size)))]))
    if kind == 'few':
        cut = ref / rng.uniform(0.9, 4.1)
    elif kind == 'normal':
        cut = ref / rng.uniform(4, 30)
    elif kind == 'small':
        cut = ref / 10**rng.uniform(1.5, 4)
    elif kind == 'huge':
        cut = ref * rng.uniform(1, 2)
    elif kind == 'divisor':
        cut = ref / int(rng.integers(1, 12))
    else:
        cut = 0.
    # keep the number of cells reasonable
    def cells(value):
        if value == 0:
            return 100.**dim
        return float(np.prod(np.minimum(100, np.maximum(1, np.floor(size / value)))))

    if cut == 0 and dim > 2:
        cut = ref / 10
    while cells(cut) > 2e4:
        cut *= 1.5
    return float(cut)


def compare(box, cutoff, pos, others, reported, obs, *, what, exclude_same):
    """
    others: positions which were added (in order); reported: distances given by the
    code under test.
    """
    low, size = w.box_arrays(box)
    reported = np.array([float(v) for v in reported])
    obs.count('lookups')
    if len(others) == 0:
        if len(reported):
            raise Violation('{}: distances without any position'.format(what), reported=reported)
        return
    arr = np.array(others, dtype=float)
    exact = np.all(arr == np.asarray(pos), axis=1)
    norm = np.array([w.brute_norm(box, p) for p in arr])
    dist = w.brute_dist(box, np.asarray(pos, dtype=float), arr)
    scale = float(np.max(np.abs(low)) + np.max(size) + np.max(np.abs(pos)) + np.max(np.abs(arr)))
    eps = 1e-12 * scale
    optional = dist <= eps
    if exclude_same:
        obs.count('same_position_excluded', exact.sum())
        # an image of the same position may be left out or reported with zero
        dist_needed = dist[~exact]
        optional_needed = optional[~exact]
    else:
        dist_needed = dist
        optional_needed = optional
    shared = np.any(arr == np.asarray(pos), axis=1) & ~exact
    obs.count('shared_coordinate', shared.sum())
    need = dist_needed < cutoff - eps - 1e-9 * cutoff
    # all reported distances belong to different positions
    order = np.argsort(dist_needed, kind='stable')
    dist_sorted = dist_needed[order]
    must = (need & ~optional_needed)[order]
    rep = np.sort(reported)
    used = np.zeros(len(dist_sorted), dtype=bool)
    idx = 0
    # positions which have to be reported first claim their distance
    claimed = np.zeros(len(rep), dtype=bool)
    for i in np.flatnonzero(must):
        while idx < len(rep) and rep[idx] < dist_sorted[i] - eps:
            idx += 1
        if idx >= len(rep) or rep[idx] > dist_sorted[i] + eps:
            raise Violation(
                '{}: a position at distance {!r} (cutoff {!r}) is missing'.
                format(what, float(dist_sorted[i]), cutoff),
                pos=pos, box=box, num=len(others), reported=rep[:50], expected=dist_sorted[must][:50]
            )
        claimed[idx] = True
        used[i] = True
        idx += 1
    # the remaining ones may belong to any other position
    idx = 0
    rest = dist_sorted[~used]
    for val in rep[~claimed]:
        while idx < len(rest) and rest[idx] < val - eps:
            idx += 1
        if idx >= len(rest) or rest[idx] > val + eps:
            raise Violation(
                '{}: reported distance {!r} does not belong to a (further) position at a '
                'different place'.format(what, float(val)),
                pos=pos, box=box, cutoff=cutoff, num=len(others), reported=rep[:50],
                expected=dist_sorted[:50]
            )
        idx += 1
    obs.count('near_found', must.sum())
    obs.count('far_reported', np.sum(rep > cutoff))
    if box['periodic']:
        direct = np.sqrt(np.sum((norm - w.brute_norm(box, pos))**2, axis=1))
        obs.count('across_boundary', np.sum((direct > dist + eps) & (dist < cutoff)))
    if np.any(np.asarray(pos) < low) or np.any(np.asarray(pos) > low + size):
        obs.count('outside_queries')


def lookups(container, box, cutoff, nodes, refined, pos, obs):
    compare(
        box, cutoff, pos, nodes, list(container.get_neighbour_distance_iterator(pos)), obs,
        what='get_neighbour_distance_iterator', exclude_same=True
    )
    compare(
        box, cutoff, pos, nodes, list(container.get_all_neighbour_distances(pos)), obs,
        what='get_all_neighbour_distances', exclude_same=True
    )
    obs.count('refined_lookups')
    compare(
        box, cutoff, pos, refined, list(container.get_refined_neighbour_distance_iterator(pos)), obs,
        what='get_refined_neighbour_distance_iterator', exclude_same=False
    )


def query_positions(rng, box, cutoff, known, num):
    low, size = w.box_arrays(box)
    dim = len(low)
    out = []
    for _ in range(num):
        kind = w.pick(rng, ['any', 'known', 'near', 'shared', 'boundary', 'outside'])
        pos = low + size * rng.random(dim)
        if known:
            base = np.array(known[int(rng.integers(len(known)))])
            if kind == 'known':
                pos = base
            elif kind == 'near':
                vec = rng.normal(size=dim)
                pos = base + vec / np.linalg.norm(vec) * cutoff * w.pick(rng, [0.5, 0.9, 0.999, 1.001, 1.5])
            elif kind == 'shared':
                col = rng.integers(dim)
                pos[col] = base[col]
                if rng.random() < 0.7:
                    pos = base.copy()
                    pos[col] += cutoff * rng.uniform(-1, 1)
        if kind == 'boundary':
            col = rng.integers(dim)
            pos[col] = low[col] + w.pick(rng, [0, 1]) * size[col] + cutoff * w.pick(
                rng, [0, 0, 1e-9, -1e-9, 0.3, -0.3]
            )
        elif kind == 'outside':
            pos = pos + size * rng.integers(-2, 3, size=dim)
        out.append(pos)
    return out


def make_result(rng, pos, threshold):
    kwargs = dict(
        pos=np.array(pos), value=float(threshold * rng.random()), success=True, status=0,
        message='', num_fev=3, num_iter=1
    )
    res = MinimizationResult(**kwargs)
    if rng.random() < 0.2:
        other = MinimizationResult(**dict(kwargs, pos=np.array(pos) + 1))
        res = JoinedMinimizationResult(child=res, ancestor=other)
    return res


def run_cloud(case, obs):
    rng = w.rng_of(case)
    dim = int(w.pick(rng, [1, 2, 3, 4], [2, 4, 4, 1]))
    box = w.random_box(rng, dim, max_aspect=float(w.pick(rng, [2., 50.])))
    low, size = w.box_arrays(box)
    cutoff = make_cutoff(rng, box)
    threshold = float(10**rng.uniform(-8, 0))
    system = clouds.system(box)
    nodes_in = clouds.random_cloud(rng, box)
    if rng.random() < 0.3:
        # moved out of the limits
        nodes_in = [
            tuple(np.array(p) + size * rng.integers(-1, 2, size=dim)) for p in nodes_in
        ]
    refined_in = clouds.random_cloud(rng, box)
    if nodes_in and rng.random() < 0.5:
        refined_in += [nodes_in[i] for i in rng.integers(len(nodes_in), size=5)]
    nodes, refined = [], []
    bulk = rng.random() < 0.3
    results = [make_result(rng, p, threshold) for p in nodes_in]
    rejected = []
    for _ in range(int(rng.integers(0, 10))):
        res = make_result(rng, low + size * rng.random(dim), threshold)
        if rng.random() < 0.5:
            res = MinimizationResult(**dict(vars(res), success=False)) if 'child' not in vars(res) else \
                MinimizationResult(**dict(vars(res.child), success=False))
        else:
            inner = res if 'child' not in vars(res) else res.child
            res = MinimizationResult(**dict(vars(inner), value=threshold * 2 + 1))
        rejected.append(res)
    todo = [('node', r) for r in results] + [('rejected', r) for r in rejected] + \
        [('refined', p) for p in refined_in]
    rng.shuffle(todo)
    kwargs = dict(coordinate_system=system, gap_threshold=threshold, dist_cutoff=cutoff)
    if bulk:
        container = SearchResultContainer(
            minimization_results=[r for k, r in todo if k != 'refined'],
            refined_results=[np.array(p) for k, p in todo if k == 'refined'], **kwargs
        )
        nodes = [tuple(r.pos) for k, r in todo if k == 'node']
        refined = [p for k, p in todo if k == 'refined']
        if rng.random() < 0.5:
            io.save(container, 'c.hdf5')
            container = io.load('c.hdf5')
    else:
        container = SearchResultContainer(**kwargs)
    known = [tuple(r.pos) for k, r in todo if k == 'node'] + [
        p for k, p in todo if k == 'refined'
    ]
    if not bulk:
        stops = set(int(v) for v in rng.integers(0, len(todo) + 1, size=3))
        for i, (kind, item) in enumerate(todo):
            if i in stops:
                for pos in query_positions(rng, box, cutoff, nodes + refined, 2):
                    lookups(container, box, cutoff, nodes, refined, pos, obs)
            if kind == 'refined':
                container.set_refined(np.array(item))
                refined.append(item)
            else:
                container.add_result(item)
                if kind == 'node':
                    nodes.append(tuple(item.pos))
    # the result stores normalized positions, which have to be equivalent
    for res, pos in zip(container.nodes, nodes):
        if w.brute_dist(box, np.array(res.pos), np.array(pos)) > 1e-9 * (
            np.max(np.abs(low)) + np.max(size) * 3
        ):
            raise Violation('stored position differs', stored=res.pos, added=pos)
    items = list(container.nodes)
    if len(container.nodes) != len(items):
        raise Violation('length of the nodes', length=len(container.nodes), nodes=len(items))
    for i in {0, len(items) // 2, len(items) - 1, -1} if items else ():
        if container.nodes[i] is not items[i]:
            raise Violation('node {} is not that of the iteration'.format(i), node=repr(container.nodes[i])[:200])
    stored = [tuple(r.pos) for r in container.nodes]
    if len(stored) != len(nodes):
        raise Violation('number of nodes differs', stored=len(stored), added=len(nodes))
    for pos in query_positions(rng, box, cutoff, known + stored, 8):
        lookups(container, box, cutoff, stored, refined, pos, obs)
    if cutoff > 0:
        num = np.maximum(1, np.floor(size / cutoff))
        obs.count('single_cell', np.any(num == 1))
        obs.count('two_cells', np.any(num == 2))
    else:
        num = ['zero']
    obs.key(dim, box['periodic'], [str(v) for v in num], len(nodes), len(refined))
    obs.sample = dict(box=box, cutoff=cutoff, nodes=len(nodes), refined=len(refined), bulk=bool(bulk))


def run_search(case, obs):
    rng = w.rng_of(case)
    problem = w.random_problem(rng, dims=(1, 2, 3), small_stencil=True)
    box = problem['box']
    cutoff = problem['options']['feature_size'] / 3
    record = {}
    count = [0]

    def state(container):
        return record.setdefault(id(container), dict(keep=container, nodes=[], refined=[]))

    def look(container):
        count[0] += 1
        if count[0] % max(1, count[0] // 20) == 0:
            st = state(container)
            for pos in query_positions(rng, box, cutoff, st['nodes'] + st['refined'], 2):
                lookups(container, box, cutoff, st['nodes'], st['refined'], pos, obs)
                obs.count('search_lookups')

    def on_result(container, res, ret):
        if res.success and res.value <= container.gap_threshold:
            state(container)['nodes'].append(tuple(float(v) for v in res.pos))
        look(container)

    def on_refined(container, pos, ret):
        state(container)['refined'].append(tuple(float(v) for v in np.asarray(pos)))
        look(container)

    with result_probe(on_result, on_refined):
        observe_search(problem, use_coro=bool(rng.random() < 0.5), delay='uniform', seed=case['seed'])
    obs.key('search', problem['dim'], count[0])
    obs.sample = dict(events=count[0])


def run_case(case, obs):
    if case['kind'] == 'search':
        run_search(case, obs)
    else:
        run_cloud(case, obs)
