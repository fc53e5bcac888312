"""C13: identified clusters are the connected groups of the positions."""
import numpy as np

from nodefinder import identify, io
from nodefinder.search.result import ControllerState, MinimizationResult, SearchResultContainer

from .. import clouds
from .. import world as w
from ..content import PositionQueue, SimplexQueue
from ..core import Violation
from ..runner import observe_search

PROPERTY = 'C13'
LEVEL = 'exploration'
RULE = (
    'cloud: random clouds of positions (uniform, grouped, lattice, chains, with shared '
    'coordinates, repeated, moved by periods) in random boxes (dimension 1 to 4) with '
    'feature sizes which give few to many groups; the objects are compared with the '
    'connected components found by direct comparison of all pairs. many: up to 2000 positions with few '
    'neighbours. exact: integer '
    'lattices where positions are exactly the feature size apart. result: search results '
    'and saved search states (synthetic and from real searches, with rejected results), '
    'with default or explicit feature size. Distinct by box kind, number of positions and '
    'sizes of groups.'
)
REQUIRED = {
    'positions': 20000, 'objects': 5000, 'multi_object': 500, 'connected_across_boundary': 100,
    'exact_lattices': 150, 'default_feature_size': 200, 'loaded_states': 60, 'duplicates': 200,
    'many_positions': 15, 'empty': 10, 'from_search': 50, 'moved_by_periods': 50,
}
BUDGET = {'quick': 60, 'thorough': 600}
METHODS = ['ballistic', 'shortest_path', 'dominating_set']


def cases(seed, tier):
    num = 1800 if tier == 'quick' else 24000
    for i in range(num):
        kind = ['cloud', 'cloud', 'exact', 'result', 'cloud', 'search'][i % 6]
        if i % 60 == 0:
            kind = 'many'
        yield dict(kind=kind, seed=seed * 1000003 + i)


def nearest_median(box, positions):
    arr = np.array(positions)
    dist = np.array([w.brute_dist(box, p, arr) for p in arr])
    dist = dist + np.where(dist == 0, np.inf, 0)
    near = np.min(dist, axis=1)
    near = near[np.isfinite(near)]
    return float(np.median(near)) if len(near) else 1.


def feature_size(rng, box, positions):
    low, size = w.box_arrays(box)
    unique = list(dict.fromkeys(positions))
    if len(unique) < 2 or rng.random() < 0.3:
        return float(np.min(size) * 10**rng.uniform(-3, 0.3))
    return nearest_median(box, unique) * float(10**rng.uniform(-0.7, 0.9))


def check(box, positions, fs, result, obs, groups=None):
    """Compare the identified objects with the connected groups."""
    if groups is None:
        groups, decided = clouds.brute_clusters(box, positions, fs)
    else:
        decided = True
    items = list(result)
    if len(result) != len(items) or any(
            result[i] is not items[i] for i in range(-1, len(items)) if items
    ):
        raise Violation('length or elements of the result are not those of the iteration', length=len(result))
    if not all(isinstance(p, tuple) for obj in items for p in obj.positions):
        raise Violation('positions of an object are not tuples')
    found = [[tuple(float(v) for v in p) for p in obj.positions] for obj in result]
    if len(result) != len(found):
        raise Violation('length of the result', len=len(result), objects=len(found))
    flat = [p for f in found for p in f]
    given = {tuple(float(v) for v in p) for p in positions}
    obs.count('positions', len(given))
    obs.count('objects', len(found))
    obs.count('empty', not given)
    obs.count('duplicates', len(given) < len(positions))
    if len(flat) != len(set(flat)):
        raise Violation('a position is part of more than one object, or twice in one', box=box, fs=fs,
                        positions=positions, found=found)
    if set(flat) != given:
        raise Violation(
            'positions are added or lost: {} added, {} lost'.
            format(len(set(flat) - given), len(given - set(flat))),
            box=box, fs=fs, positions=positions, found=found
        )
    if any(not f for f in found):
        raise Violation('an identified object without positions', box=box, found=found)
    if not decided:
        obs.count('undecided')
        return groups
    if {frozenset(f) for f in found} != {frozenset(g) for g in groups}:
        raise Violation(
            'objects are not the connected groups: sizes {} instead of {}'.format(
                sorted(map(len, found)), sorted(map(len, groups))
            ), box=box, fs=fs, positions=positions, found=found
        )
    obs.count('multi_object', len(found) > 1)
    if box['periodic'] and len(given) <= 60:
        direct, _ = clouds.brute_clusters(dict(box, periodic=False), positions, fs)
        obs.count('connected_across_boundary', len(direct) != len(groups))
    return groups


def thin(box, positions, fs, most=60):
    """Limit the number of neighbours, the dimension is slow to find otherwise."""
    arr = np.array(list(dict.fromkeys(positions)))
    if len(arr) <= most:
        return positions
    return positions[:most]


def as_argument(rng, positions):
    kind = rng.integers(4)
    if kind == 0:
        return [np.array(p) for p in positions]
    if kind == 1 and positions:
        return np.array(positions)
    if kind == 2:
        return tuple(positions)
    return list(positions)


def run_cloud(case, obs):
    rng = w.rng_of(case)
    dim = int(w.pick(rng, [1, 2, 3, 4], [2, 4, 4, 1]))
    box = w.random_box(rng, dim, max_aspect=float(w.pick(rng, [1., 4., 50.])))
    low, size = w.box_arrays(box)
    positions = thin(box, clouds.random_cloud(rng, box), None)
    if positions and rng.random() < 0.25:
        # images count as different positions, in the same group
        positions = [
            tuple(float(v) for v in np.array(p) + size * rng.integers(-2, 3, size=dim)) for p in positions
        ]
        if box['periodic']:
            obs.count('moved_by_periods')
    fs = feature_size(rng, box, positions)
    kwargs = {}
    if rng.random() < 0.8:
        kwargs['evaluate_line_method'] = w.pick(rng, METHODS)
    result = identify.run_from_positions(
        as_argument(rng, positions), coordinate_system=clouds.system(box), feature_size=fs, **kwargs
    )
    groups = check(box, positions, fs, result, obs)
    check_attributes(box, fs, result)
    obs.key(dim, box['periodic'], len(positions), sorted(map(len, groups))[-5:])
    obs.sample = dict(box=box, feature_size=fs, groups=sorted(map(len, groups)))


def run_many(case, obs):
    """Many positions with few neighbours each."""
    rng = w.rng_of(case)
    dim = int(w.pick(rng, [1, 2, 3]))
    box = w.random_box(rng, dim, max_aspect=4.)
    low, size = w.box_arrays(box)
    num = int(10**rng.uniform(2.5, 3.3))
    chain = bool(rng.random() < 0.4)
    if chain:
        axis = int(rng.integers(dim))
        frac = np.tile(rng.random(dim), (num, 1))
        frac[:, axis] = (np.arange(num) + 0.2 * rng.random(num)) / num
        # missing parts
        keep = np.ones(num, dtype=bool)
        for _ in range(int(rng.integers(0, 6))):
            start = int(rng.integers(num))
            keep[start:start + int(rng.integers(1, 20))] = False
        frac = frac[keep]
        fs = size[axis] / num * rng.uniform(1.3, 1.7)
    else:
        frac = rng.random((num, dim))
        degree = rng.uniform(0.1, 1.5)
        volume = {1: 2., 2: np.pi, 3: 4 / 3 * np.pi}[dim]
        fs = (degree * np.prod(size) / (num * volume))**(1 / dim)
    pos = low + frac * size
    positions = [tuple(float(v) for v in pos[i]) for i in rng.permutation(len(pos))]
    result = identify.run_from_positions(
        as_argument(rng, positions), coordinate_system=clouds.system(box), feature_size=fs,
        evaluate_line_method=w.pick(rng, METHODS[:1] if chain else METHODS)
    )
    groups = check(box, positions, fs, result, obs)
    obs.count('many_positions')
    obs.key('many', dim, box['periodic'], chain, len(positions), len(groups))


def check_attributes(box, fs, result):
    limits = np.array([sorted(l) for l in box['limits']])
    scale = np.max(np.abs(limits))
    system = result.coordinate_system
    if not abs(float(result.feature_size) - fs) <= 1e-12 * fs:
        raise Violation('feature_size of the result', found=result.feature_size, expected=fs)
    if bool(system.periodic) != box['periodic'] or \
            not np.allclose(np.asarray(system.limits, dtype=float), limits, rtol=0, atol=1e-12 * scale):
        raise Violation('coordinate system of the result', found=repr(system), box=box)


def run_exact(case, obs):
    """Integer coordinates times a power of two: distances are exact along axes."""
    rng = w.rng_of(case)
    for _ in range(50):
        dim = int(rng.integers(1, 4))
        unit = 2.**int(rng.integers(-20, 20))
        size = rng.integers(3, 20, size=dim)
        low = rng.integers(-20, 20, size=dim)
        periodic = bool(rng.random() < 0.5)
        box = dict(
            limits=[[float(l * unit), float((l + s) * unit)] for l, s in zip(low, size)], periodic=periodic
        )
        num = int(rng.integers(2, 25))
        idx = np.array(list({tuple(int(v) for v in rng.integers(0, size)) for _ in range(num)}))
        fs = int(rng.integers(1, 5))
        delta = np.abs(idx[:, None, :] - idx[None, :, :])
        if periodic:
            delta = np.minimum(delta, size - delta)
        square = np.sum(delta**2, axis=-1)
        oblique = (square == fs**2) & (np.sum(delta != 0, axis=-1) > 1)
        if np.any(oblique) or not np.any(square == fs**2):
            continue
        break
    else:
        return
    positions = [tuple(float(v) for v in (p + low) * unit) for p in idx]
    near = square <= fs**2
    groups, left = [], set(range(len(idx)))
    while left:
        todo = [left.pop()]
        group = set(todo)
        while todo:
            i = todo.pop()
            new = {int(j) for j in np.flatnonzero(near[i])} & left
            left -= new
            group |= new
            todo.extend(new)
        groups.append(frozenset(positions[i] for i in group))
    result = identify.run_from_positions(
        positions, coordinate_system=clouds.system(box), feature_size=float(fs * unit)
    )
    check(box, positions, fs * unit, result, obs, groups=groups)
    obs.count('exact_lattices')
    obs.key('exact', dim, periodic, fs, len(groups))
    obs.sample = dict(box=box, feature_size=fs * unit, groups=len(groups))


def run_result(case, obs):
    rng = w.rng_of(case)
    dim = int(rng.integers(1, 4))
    box = w.random_box(rng, dim)
    low, size = w.box_arrays(box)
    positions = thin(box, clouds.random_cloud(rng, box), None)
    fs = feature_size(rng, box, positions)
    while np.prod(np.maximum(1, np.minimum(100, 3 * size / fs))) > 2e4:
        fs *= 1.5
    threshold = float(10**rng.uniform(-6, 0))

    def result_at(pos, **kwargs):
        return MinimizationResult(**dict(dict(
            pos=np.array(pos), value=threshold * float(rng.random()), success=True, status=0, message='',
            num_fev=1, num_iter=1
        ), **kwargs))

    entries = [result_at(p) for p in positions]
    # rejected results are not part of the objects
    for _ in range(int(rng.integers(0, 8))):
        pos = low + size * rng.random(dim)
        entries.append(
            result_at(pos, success=False) if rng.random() < 0.5 else result_at(pos, value=2 * threshold + 1)
        )
    rng.shuffle(entries)
    container = SearchResultContainer(
        coordinate_system=clouds.system(box), gap_threshold=threshold, dist_cutoff=fs / 3,
        minimization_results=entries,
    )
    arg = container
    state = rng.random() < 0.6
    if state:
        arg = ControllerState(
            result=container,
            simplex_queue=SimplexQueue([low + rng.random((dim + 1, dim)) for _ in range(2)]),
            position_queue=PositionQueue([low + size * rng.random(dim)])
        )
    if rng.random() < 0.7:
        io.save(arg, 'state.hdf5')
        arg = io.load('state.hdf5')
        obs.count('loaded_states', state)
    nodes = [tuple(float(v) for v in r.pos) for r in container.nodes]
    kwargs = {}
    if rng.random() < 0.4:
        fs = fs * float(rng.uniform(0.3, 3))
        kwargs['feature_size'] = fs
    else:
        obs.count('default_feature_size')
    if rng.random() < 0.5:
        kwargs['evaluate_line_method'] = w.pick(rng, METHODS)
    result = identify.run(arg, **kwargs)
    check_attributes(box, fs, result)
    groups = check(box, nodes, fs, result, obs)
    obs.key('result', dim, bool(state), len(nodes), len(groups))
    obs.sample = dict(box=box, feature_size=fs, state=bool(state), groups=len(groups))


def run_search(case, obs):
    rng = w.rng_of(case)
    problem = w.random_problem(
        rng, dims=(1, 2, 3), small_stencil=True, gap_kinds=['points', 'points', 'line', 'surface', 'rugged']
    )
    run = observe_search(
        problem, use_coro=False, seed=case['seed'], extra=dict(save_file='search.hdf5'), max_calls=8000
    )
    if run.abandoned or run.result is None:
        obs.count('abandoned')
        return
    nodes = [tuple(float(v) for v in r.pos) for r in run.result.nodes]
    box = problem['box']
    fs = problem['options']['feature_size']
    arr = np.array(nodes)
    if len(nodes) and max(np.sum(w.brute_dist(box, p, arr) <= fs) for p in arr) > 70:
        obs.count('too_dense')
        return
    result = identify.run(run.result)
    check_attributes(box, fs, result)
    groups = check(box, nodes, fs, result, obs)
    again = identify.run(io.load('search.hdf5'))
    check_attributes(box, fs, again)
    check(box, nodes, fs, again, obs)
    obs.count('loaded_states')
    obs.count('default_feature_size', 2)
    obs.count('from_search')
    obs.key('search', problem['dim'], len(nodes), len(groups))
    obs.sample = dict(nodes=len(nodes), groups=len(groups))


def run_case(case, obs):
    dict(cloud=run_cloud, many=run_many, exact=run_exact, result=run_result, search=run_search)[case['kind']](case, obs)
