"""C15: identified shapes describe their cluster: point centres and line graphs."""
import contextlib
import io as _io
import random
import warnings

import networkx as nx
import numpy as np

from nodefinder import identify
from nodefinder.identify.result import NodalLine, NodalPoint
from nodefinder.search.result import MinimizationResult, SearchResultContainer

from .. import clouds, features
from .. import world as w
from ..core import Violation

PROPERTY = 'C15'
LEVEL = 'exploration'
RULE = (
    'scene: densely sampled points and simple lines (straight, arcs, helices, circles, '
    'ellipses, closed through a periodic boundary); branch: lines with crossings, '
    'junctions and figures of eight; arbitrary: random clouds. Each is identified with '
    'each of the three methods, and the shapes of all objects are checked against the '
    'positions of their cluster. given: search results are identified with each of the '
    'methods, and with none given; the lines must be those of this method. Distinct by method, kinds of features and numbers of '
    'nodes and edges of the lines.'
)
REQUIRED = {
    'points': 1200, 'points_across_boundary': 60, 'lines_ballistic': 200, 'lines_shortest_path': 200,
    'lines_dominating_set': 200, 'closed_named': 120, 'open_named': 250, 'kind_span1': 40,
    'branched': 60, 'arbitrary_lines': 100, 'no_shape': 150, 'edges': 8000, 'given_decided': 50,
    'unknown_method': 20,
}
BUDGET = {'quick': 100, 'thorough': 800}
METHODS = ['ballistic', 'shortest_path', 'dominating_set']


def cases(seed, tier):
    num = 2500 if tier == 'quick' else 30000
    for i in range(num):
        if i % 12 == 7:
            yield dict(kind='given', seed=seed * 1000003 + i)
            continue
        yield dict(kind=['scene', 'scene', 'branch', 'arbitrary', 'scene'][i % 5], seed=seed * 1000003 + i)


def identified(positions, box, fs, method):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with contextlib.redirect_stdout(_io.StringIO()):
            return identify.run_from_positions(
                positions, coordinate_system=clouds.system(box), feature_size=fs,
                evaluate_line_method=method
            )


def centre(box, arr):
    """(Average, decided) of positions, in the metric of the box."""
    low, size = w.box_arrays(box)
    if not box['periodic']:
        return np.mean(arr, axis=0), True
    delta = w.brute_delta(box, np.broadcast_to(arr[0], arr.shape), arr)
    decided = bool(np.all(np.ptp(delta, axis=0) < 0.45 * size))
    return arr[0] + np.mean(delta, axis=0), decided


def check_point(box, obj, obs):
    low, size = w.box_arrays(box)
    arr = np.array(obj.positions, dtype=float)
    if not isinstance(obj.shape, NodalPoint):
        raise Violation('shape of an object of dimension zero is {!r}'.format(obj.shape))
    pos = np.asarray(obj.shape.position, dtype=float)
    if pos.shape != (len(low), ):
        raise Violation('nodal point has position {!r}'.format(obj.shape.position))
    scale = float(np.max(np.abs(low)) + np.max(size) + np.max(np.abs(arr)))
    tol = 1e-12 * scale
    expect, decided = centre(box, arr)
    if decided and not w.brute_dist(box, pos, expect) <= tol:
        raise Violation(
            'nodal point is not at the average of its positions', box=box, positions=arr, point=pos,
            expected=expect
        )
    if box['periodic'] and not (np.all(pos >= low - tol) and np.all(pos <= low + size + tol)):
        raise Violation('nodal point is outside of the limits', box=box, point=pos)
    obs.count('points')
    obs.count('points_undecided', not decided)
    if box['periodic'] and np.any(np.ptp(arr, axis=0) > 0.5 * size):
        obs.count('points_across_boundary')


def check_line(box, fs, obj, method, obs):
    line = obj.shape
    if not isinstance(line, NodalLine):
        raise Violation(
            'shape of an object of dimension one is {!r} ({})'.format(line, method), box=box, fs=fs,
            positions=obj.positions
        )
    graph = line.graph
    given = {tuple(float(v) for v in p) for p in obj.positions}
    nodes = [tuple(float(v) for v in p) for p in graph.nodes]
    if not nodes or not set(nodes) <= given:
        raise Violation(
            'nodes of the line are not positions of the object ({})'.format(method), nodes=nodes[:50],
            number=len(set(nodes) - given)
        )
    arr = np.array(sorted(given))
    low, size = w.box_arrays(box)
    limit = fs * (1 + 1e-9) + 1e-12 * float(np.max(np.abs(low)) + np.max(size) + np.max(np.abs(arr)))
    for a, b in graph.edges:
        obs.count('edges')
        if a == b or not w.brute_dist(box, np.array(a), np.array(b)) <= limit:
            raise Violation(
                'edge of the line ({}) which is longer than the feature size, or leads back '
                'to its start'.format(method), edge=[a, b], fs=fs, box=box
            )
    narr = np.array(nodes)
    for pos in arr:
        if not np.min(w.brute_dist(box, pos, narr)) <= limit:
            raise Violation(
                'position of the object is not within the feature size of its line ({})'.format(method),
                pos=pos, fs=fs, box=box, positions=arr, nodes=nodes
            )
    if method != 'ballistic':
        obs.count('connected')
        if not nx.is_connected(graph):
            raise Violation(
                'line of a connected object has several parts (method {})'.format(method), box=box, fs=fs,
                positions=obj.positions
            )
    degrees = {}
    for _, deg in graph.degree:
        if deg != 2:
            degrees[deg] = degrees.get(deg, 0) + 1
    found = {int(k): int(v) for k, v in dict(line.degree_count).items() if v}
    if found != degrees:
        raise Violation(
            'degree count of the line ({}) is {}, its graph has {}'.format(method, found, degrees)
        )
    name = {(): 'CLOSED LOOP', ((1, 2), ): 'OPEN LINE'}.get(tuple(sorted(degrees.items())), 'UNKNOWN')
    if line.shape_name != name:
        raise Violation('name of the line with degrees {} is {!r}'.format(degrees, line.shape_name))
    obs.count('lines_' + method)


def check_shapes(box, fs, result, method, obs):
    for obj in result:
        if obj.dimension == 0:
            check_point(box, obj, obs)
        elif obj.dimension == 1:
            check_line(box, fs, obj, method, obs)
        else:
            obs.count('no_shape')
            if obj.shape is not None:
                raise Violation('object of dimension {} has shape {!r}'.format(obj.dimension, obj.shape))


def check_curve(box, fs, feat, obj, method, obs):
    """The line of a densely sampled simple curve."""
    line = obj.shape
    if line.shape_name != feat['name']:
        raise Violation(
            '{} ({} positions) is named {!r} with method {}, degrees {}'.format(
                feat['kind'], len(feat['pts']), line.shape_name, method, dict(line.degree_count)
            ), box=box, fs=fs, positions=obj.positions
        )
    if not nx.is_connected(line.graph):
        raise Violation(
            'line of {} has several parts (method {})'.format(feat['kind'], method), box=box, fs=fs,
            positions=obj.positions
        )
    obs.count('closed_named' if feat['name'] == 'CLOSED LOOP' else 'open_named')
    obs.count('kind_' + feat['kind'])
    if feat['name'] == 'OPEN LINE':
        ends = [np.array(n) for n, deg in line.graph.degree if deg == 1]
        true = [feat['pts'][0], feat['pts'][-1]]
        near = sorted(
            [[float(w.brute_dist(box, t, e)) for e in ends] for t in true],
            key=lambda row: row[0]
        )
        if not (near[0][0] <= 1.2 * fs and near[1][1] <= 1.2 * fs):
            raise Violation(
                'line of {} does not run from end to end (method {})'.format(feat['kind'], method),
                box=box, fs=fs, positions=obj.positions, ends=ends, true=true
            )


def run_scene(case, obs):
    rng = w.rng_of(case)
    dims = (0, 1) if rng.random() < 0.85 else (0, 1, 2)
    scene = features.any_scene(rng, dims=dims, span_prob=0 if 2 in dims else 0.15)
    if all(f['dim'] == 0 for f in scene['features']):
        # points are cheap, have more of them
        scene = features.any_scene(rng, dims=(0, 1), span_prob=0, max_features=5)
    box, fs = scene['box'], scene['fs']
    parts = []
    for method in METHODS:
        result = identified(features.all_positions(rng, scene), box, fs, method)
        check_shapes(box, fs, result, method, obs)
        pairs = features.match(scene, result)
        if pairs is None:
            raise Violation('objects do not match the features', box=box, fs=fs)
        for feat, obj in pairs:
            if feat['dim'] == 1 and obj.dimension == 1:
                check_curve(box, fs, feat, obj, method, obs)
                parts.append((method, feat['kind'], len(obj.shape.graph.nodes)))
    obs.key(parts, len(box['limits']), box['periodic'])
    obs.sample = dict(box=box, fs=fs, kinds=[f['kind'] for f in scene['features']], lines=parts)


# ------------------------------------------------------------------ branches


def branched(rng):
    """Curves with junctions, as positions around the origin in units of fs."""
    kind = w.pick(rng, ['cross', 'tee', 'star', 'eight', 'theta', 'lollipop', 'random_lines', 'knot'])
    spacing = rng.uniform(0.15, 0.3)

    def straight(a, b):
        a, b = np.array(a, dtype=float), np.array(b, dtype=float)
        num = max(2, int(np.ceil(np.linalg.norm(b - a) / spacing)))
        return a + (b - a) * np.linspace(0, 1, num)[:, None]

    def circle(c, r):
        num = int(np.ceil(2 * np.pi * r / spacing))
        phi = np.arange(num) / num * 2 * np.pi
        return np.array([np.cos(phi), np.sin(phi)]).T * r + c

    length = rng.uniform(3, 6)
    if kind == 'cross':
        pts = [straight([-length, 0], [length, 0]), straight([0, -length], [0.2, length])]
    elif kind == 'tee':
        pts = [straight([-length, 0], [length, 0]), straight([0, 0], [0, length])]
    elif kind == 'star':
        num = int(rng.integers(3, 7))
        pts = [
            straight([0, 0], [length * np.cos(p), length * np.sin(p)])
            for p in np.arange(num) / num * 2 * np.pi
        ]
    elif kind == 'eight':
        r = rng.uniform(1.8, 3)
        pts = [circle([-r, 0], r), circle([r, 0], r)]
    elif kind == 'theta':
        r = rng.uniform(2, 3.5)
        pts = [circle([0, 0], r), straight([-r, 0], [r, 0])]
    elif kind == 'lollipop':
        r = rng.uniform(1.8, 3)
        pts = [circle([0, 0], r), straight([r, 0], [r + length, 0])]
    elif kind == 'random_lines':
        ends = rng.normal(size=(int(rng.integers(2, 6)), 2)) * length
        pts = [straight(a, b) for a, b in zip(ends[:-1], ends[1:])]
    else:
        pts = [
            clouds.sample_closed_curve(
                lambda t: np.array([
                    length * np.sin(2 * np.pi * t), 0.7 * length * np.sin(4 * np.pi * t + 0.5)
                ]), spacing, rng
            )
        ]
    pts = np.concatenate(pts)
    return kind, pts + rng.uniform(-1, 1, size=pts.shape) * 0.03


def run_branch(case, obs):
    rng = w.rng_of(case)
    kind, pts = branched(rng)
    dim = int(rng.integers(2, 4))
    fs = float(10**rng.uniform(-2, 2))
    if dim == 3:
        pts = np.concatenate([pts, rng.uniform(-0.03, 0.03, size=(len(pts), 1))], axis=1)
        rot, _ = np.linalg.qr(rng.normal(size=(3, 3)))
        pts = pts @ rot.T
    pts = pts * fs
    extent = np.ptp(pts, axis=0) + 1.3 * fs
    low = fs * rng.uniform(-20, 20, size=dim)
    # sometimes the curve overlaps with its images
    size = extent * (rng.uniform(0.6, 1) if rng.random() < 0.3 else 1.)
    box = dict(limits=[[float(l), float(l + s)] for l, s in zip(low, size)], periodic=bool(rng.random() < 0.6))
    pts = pts - np.min(pts, axis=0) + low
    if box['periodic']:
        pts = clouds.wrap(box, pts + rng.random(dim) * size)
    positions = clouds.tuples(pts)
    rng.shuffle(positions)
    parts = []
    method = w.pick(rng, METHODS)
    result = identified(positions, box, fs, method)
    check_shapes(box, fs, result, method, obs)
    for obj in result:
        if obj.dimension == 1:
            obs.count('branched')
            parts.append((method, len(obj.shape.graph.nodes), len(obj.shape.graph.edges)))
    obs.key(kind, parts)
    obs.sample = dict(box=box, fs=fs, branch=kind, lines=parts)


def clumped(rng, dim):
    """A chain of groups of close positions with large steps in between."""
    bend = rng.uniform(0, 0.9)
    gap = rng.uniform(0.4, 1)
    vec = rng.normal(size=dim)
    vec /= np.linalg.norm(vec)
    pts = [np.zeros(dim)]
    for _ in range(int(rng.integers(2, 12))):
        for _ in range(int(rng.integers(0, 4))):
            pts.append(pts[-1] + vec * rng.uniform(0.02, 0.34) + rng.normal(size=dim) * 0.02)
        turn = rng.normal(size=dim)
        vec = (1 - bend) * vec + bend * turn / np.linalg.norm(turn)
        vec /= np.linalg.norm(vec)
        pts.append(pts[-1] + vec * rng.uniform(0.6, 0.999) * gap**rng.random())
    return np.array(pts)


def run_arbitrary(case, obs):
    rng = w.rng_of(case)
    parts = []
    for i in range(3):
        dim = int(rng.integers(1, 4))
        box = w.random_box(rng, dim)
        low, size = w.box_arrays(box)
        if i == 2:
            fs = float(10**rng.uniform(-2, 2))
            pts = clumped(rng, dim) * fs
            low, size = np.min(pts, axis=0), np.ptp(pts, axis=0) + 1.3 * fs
            box = dict(
                limits=[[float(l), float(l + s)] for l, s in zip(low, size)], periodic=box['periodic']
            )
            positions = clouds.tuples(pts)
        elif rng.random() < 0.5:
            positions = clouds.random_cloud(rng, box)[:60]
            fs = float(np.min(size) * 10**rng.uniform(-1.5, 0.5))
        else:
            # sparse random chains
            fs = float(np.min(size)) * rng.uniform(0.1, 0.4)
            pts = [low + size * rng.random(dim)]
            for _ in range(int(rng.integers(1, 25))):
                base = pts[-1] if rng.random() < 0.8 else pts[int(rng.integers(len(pts)))]
                vec = rng.normal(size=dim)
                pts.append(base + vec / np.linalg.norm(vec) * fs * rng.uniform(0.3, 1.))
            pts = np.array(pts)
            positions = clouds.tuples(clouds.wrap(box, pts))
        if rng.random() < 0.3:
            # images of the same position
            positions += [
                tuple(float(v) for v in np.array(p) + size * rng.integers(-1, 2, size=dim))
                for p in positions[:5]
            ]
        for method in METHODS:
            result = identified(positions, box, fs, method)
            check_shapes(box, fs, result, method, obs)
            for obj in result:
                if obj.dimension == 1:
                    obs.count('arbitrary_lines')
                    parts.append((method, len(obj.shape.graph.nodes), len(obj.shape.graph.edges)))
    obs.key('arbitrary', parts)
    obs.sample = dict(lines=parts[:20])


# ------------------------------------------------------------------ chosen method


def lines_of(result):
    return [(
        frozenset(tuple(float(v) for v in p) for p in obj.shape.graph.nodes),
        frozenset(
            frozenset(tuple(float(v) for v in p) for p in edge) for edge in obj.shape.graph.edges
        )
    ) for obj in result if obj.dimension == 1]


def run_given(case, obs):
    """The lines of a search result are those of the method which is asked for."""
    rng = w.rng_of(case)
    scene = features.any_scene(rng, dims=(0, 1), span_prob=0.)
    box, fs = scene['box'], scene['fs']
    positions = features.all_positions(rng, scene)
    container = SearchResultContainer(
        coordinate_system=clouds.system(box), gap_threshold=1., dist_cutoff=fs / 3,
        minimization_results=[
            MinimizationResult(
                pos=np.array(p), value=0., success=True, status=0, message='', num_fev=1, num_iter=1
            ) for p in positions
        ],
    )
    # in the order of the result
    positions = [tuple(float(v) for v in r.pos) for r in container.nodes]

    def lines(func, *args, **kwargs):
        random.seed(case['seed'])
        np.random.seed(case['seed'] % 2**32)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with contextlib.redirect_stdout(_io.StringIO()):
                return lines_of(func(*args, **kwargs))

    def from_positions(**kwargs):
        return lines(
            identify.run_from_positions, positions, coordinate_system=clouds.system(box), feature_size=fs,
            **kwargs
        )

    if not from_positions(evaluate_line_method='shortest_path'):
        return
    obs.count('given_results')
    reference = {m: from_positions(evaluate_line_method=m) for m in METHODS}
    calls = [('run', m, lines(identify.run, container, feature_size=fs, evaluate_line_method=m)) for m in METHODS]
    calls.append(('run', None, lines(identify.run, container, feature_size=fs)))
    calls.append(('run_from_positions', None, from_positions()))
    defaults = dict(run='ballistic', run_from_positions='shortest_path')
    for name, method, found in calls:
        asked = method or defaults[name]
        if found == reference[asked]:
            obs.count('given_decided', any(reference[m] != found for m in METHODS))
            continue
        for other in METHODS:
            # the lines need not be the same in each run, but may not be those of another method
            if found == reference[other]:
                raise Violation(
                    '{} with evaluate_line_method {} gives the lines of the method {}'.format(
                        name, asked if method else 'not given ({})'.format(asked), other
                    ), box=box, fs=fs, positions=positions
                )
        obs.count('given_undecided')
    # an unknown method may fail, or give no shape
    for func, args in [
        (identify.run, (container, )),
        (lambda pos, **kw: identify.run_from_positions(pos, coordinate_system=clouds.system(box), **kw),
         (positions, )),
    ]:
        try:
            with warnings.catch_warnings(record=True) as caught:
                warnings.simplefilter('always')
                result = func(*args, feature_size=fs, evaluate_line_method='straight')
        except ValueError:
            obs.count('unknown_method')
            continue
        if any(obj.dimension == 1 and obj.shape is not None for obj in result):
            raise Violation('a line is evaluated with an unknown evaluate_line_method', box=box, fs=fs)
        if not caught:
            raise Violation('an unknown evaluate_line_method is ignored without a warning')
        obs.count('unknown_method')
    obs.key('given', [len(r[0]) for r in reference['ballistic']])


def run_case(case, obs):
    dict(given=run_given, scene=run_scene, branch=run_branch, arbitrary=run_arbitrary)[case['kind']](case, obs)
