"""C17: plots show exactly the result."""
import contextlib
import io as _io
import itertools
import warnings

import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from matplotlib.colors import to_rgba
import networkx as nx
import numpy as np

from nodefinder import identify, search
from nodefinder.identify.result import (
    IdentificationResult, IdentificationResultContainer, NodalLine, NodalPoint
)
from nodefinder.search import refinement_stencil as rs
from nodefinder.search.result import JoinedMinimizationResult, MinimizationResult, SearchResultContainer

from .. import artists, clouds, features
from .. import world as w
from ..content import content
from ..core import Violation

PROPERTY = 'C17'
LEVEL = 'exploration'
RULE = (
    'points, simplices: search results with random nodes, histories (also joined) and '
    'rejected results. identify: real identification results of dense scenes and random '
    'clouds, and synthetic ones with random line graphs (several parts, branches, '
    'isolated nodes, edges across periodic boundaries). stencil: all stencils, with default '
    'or given settings. shape: single points and lines in a given colour. The artists '
    'on the axes (new or given, 2D or 3D) are read back and compared with the content of '
    'the result. Distinct by dimension, number and kind of the drawn things.'
)
REQUIRED = {
    'points_drawn': 1500, 'simplex_edges': 5000, 'line_edges': 8000, 'crossing_edges': 300,
    'nodal_points': 700, 'plain_positions': 3000, 'stencils': 60, 'spheres': 25, 'given_axis': 250, 'new_axis': 250,
    'three_d': 250, 'two_d': 250, 'isolated_lines': 20, 'joined_nodes': 100,
    'settings_used': 300, 'single_points': 3, 'single_lines': 15,
}
BUDGET = {'quick': 80, 'thorough': 600}


def cases(seed, tier):
    num = 4000 if tier == 'quick' else 40000
    for i in range(num):
        kind = ['points', 'simplices', 'identify', 'synthetic', 'stencil', 'identify', 'synthetic'][i % 7]
        if i % 21 == 6:
            kind = 'shape'
        yield dict(kind=kind, seed=seed * 1000003 + i)


# ------------------------------------------------------------------ helpers


@contextlib.contextmanager
def plotted(rng, dim, obs, func, obj, *args, **kwargs):
    """Plot on a new or given axis; yields the axis which was used."""
    plt.close('all')
    try:
        axis = None
        if rng.random() < 0.5:
            fig0 = plt.figure()
            axis = fig0.add_subplot(121, projection='3d' if dim == 3 else None)
            other = fig0.add_subplot(122)
            if rng.random() < 0.5:
                # something which is there already
                axis.plot(*np.zeros((dim, 2)), color='k')
        before = None if axis is None else (len(axis.lines), len(axis.collections))
        figures = plt.get_fignums()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            res = func(obj, *args, axis=axis, **kwargs)
        fig, used = res
        if axis is not None:
            obs.count('given_axis')
            if used is not axis or plt.get_fignums() != figures:
                raise Violation('the given axes object is not used')
            if other.lines or other.collections:
                raise Violation('drawn on an axes object which was not given')
        else:
            obs.count('new_axis')
            if fig is None or used not in fig.axes or used.figure is not fig:
                raise Violation('returned figure and axes do not belong together')
        if artists.is_3d(used) != (dim == 3):
            raise Violation('dimension of the axes, for a result of dimension {}'.format(dim))
        obs.count('three_d' if dim == 3 else 'two_d')
        yield used, before or (0, 0)
    finally:
        plt.close('all')


def check_limits(axis, box):
    low, size = w.box_arrays(box)
    lim = np.sort(artists.limits(axis), axis=1)
    scale = float(np.max(np.abs(low)) + np.max(size))
    if not np.allclose(lim, np.array([low, low + size]).T, rtol=0, atol=1e-9 * scale):
        raise Violation('limits of the axes are not those of the box', box=box, limits=lim)


def new_points(axis, before):
    return artists.points(axis)[before[1]:]


def new_lines(axis, before):
    return artists.lines(axis)[before[0]:]


class Lookup:
    """Finds the index of given positions."""
    def __init__(self, pts, scale):
        self.pts = np.array(pts, dtype=float)
        self.tol = 1e-10 * scale

    def __call__(self, pos):
        if not len(self.pts):
            return None
        err = np.max(np.abs(self.pts - np.asarray(pos)), axis=1)
        idx = int(np.argmin(err))
        return idx if err[idx] <= self.tol else None


def match_points(expected, drawn, scale, what):
    """Expected and drawn positions are the same, as multisets. Returns pairs."""
    if len(expected) != len(drawn):
        raise Violation(
            '{}: {} positions are drawn instead of {}'.format(what, len(drawn), len(expected)),
            expected=expected, drawn=drawn
        )
    left = list(range(len(expected)))
    pairs = []
    exp = np.array(expected, dtype=float)
    for i, pos in enumerate(drawn):
        if not left:
            break
        err = np.max(np.abs(exp[left] - pos), axis=1)
        k = int(np.argmin(err))
        if not err[k] <= 1e-10 * scale:
            raise Violation('{}: a position is drawn which is not part of the result'.format(what),
                            drawn=pos, expected=expected)
        pairs.append((left.pop(k), i))
    return pairs


def unchanged(obj, before):
    if content(obj) != before:
        raise Violation('plotting modifies the result')


# ------------------------------------------------------------------ search


def make_box(rng):
    return w.random_box(rng, int(rng.integers(2, 4)))


def minimization(rng, box, threshold, *, history=True, good=True):
    low, size = w.box_arrays(box)
    dim = len(low)
    num = int(rng.integers(1, 5))
    pos = low + size * rng.random(dim)
    hist = pos + size * 0.1 * rng.normal(size=(num, dim + 1, dim))
    kwargs = dict(
        pos=pos, value=float(threshold * rng.random()), success=True, status=0, message='', num_fev=3, num_iter=1
    )
    if history:
        kwargs.update(simplex_history=hist, fun_simplex_history=rng.random((num, dim + 1)))
    if not good:
        if rng.random() < 0.5:
            kwargs['success'] = False
        else:
            kwargs['value'] = 2 * threshold + 1
    res = MinimizationResult(**kwargs)
    if rng.random() < 0.3:
        res = JoinedMinimizationResult(
            child=res, ancestor=MinimizationResult(**dict(
                kwargs, pos=pos + 1, value=-1.,
                simplex_history=low + size * rng.random((2, dim + 1, dim)),
                fun_simplex_history=rng.random((2, dim + 1))
            ))
        ) if history else res
    return res


def make_container(rng, box):
    threshold = float(10**rng.uniform(-6, 0))
    num = int(w.pick(rng, [0, 1, 2, 3, 4, int(rng.integers(5, 40))]))
    entries = [minimization(rng, box, threshold) for _ in range(num)]
    entries += [minimization(rng, box, threshold, good=False) for _ in range(int(rng.integers(0, 5)))]
    rng.shuffle(entries)
    low, size = w.box_arrays(box)
    return SearchResultContainer(
        coordinate_system=clouds.system(box), minimization_results=entries, gap_threshold=threshold,
        dist_cutoff=float(np.min(size) * rng.uniform(0.1, 0.4)),
        refined_results=[low + size * rng.random(len(low))]
    )


def run_points(case, obs):
    rng = w.rng_of(case)
    box = make_box(rng)
    low, size = w.box_arrays(box)
    scale = float(np.max(np.abs(low)) + np.max(size))
    container = make_container(rng, box)
    before = content(container)
    with plotted(rng, len(low), obs, search.plot.points, container) as (axis, prev):
        check_limits(axis, box)
        groups = new_points(axis, prev)
        drawn = [p for pos, _, _ in groups for p in pos]
        nodes = list(container.nodes)
        pairs = match_points([n.pos for n in nodes], drawn, scale, 'nodes')
        values = [v for pos, vals, _ in groups for v in (vals if vals is not None else [np.nan] * len(pos))]
        for i, j in pairs:
            if not abs(values[j] - nodes[i].value) <= 1e-12 * abs(nodes[i].value):
                raise Violation('node is not coloured by its value', value=nodes[i].value, drawn=values[j])
        obs.count('points_drawn', len(drawn))
        if new_lines(axis, prev):
            raise Violation('lines in the plot of the nodes')
    unchanged(container, before)
    obs.key('points', len(low), len(nodes))
    obs.sample = dict(box=box, nodes=len(nodes))


def segments(lines, lookup, what):
    out = []
    for pos, _ in lines:
        idx = [lookup(p) for p in pos]
        if None in idx:
            raise Violation('{}: line through a position which is not part of it'.format(what), line=pos)
        out += [tuple(sorted(e)) for e in zip(idx[:-1], idx[1:])]
    return out


def run_simplices(case, obs):
    rng = w.rng_of(case)
    box = make_box(rng)
    low, size = w.box_arrays(box)
    scale = float(np.max(np.abs(low)) + np.max(size))
    container = make_container(rng, box)
    before = content(container)
    pool = list(container.minimization_results)
    nodes = [pool[i] for i in rng.permutation(len(pool))[:int(rng.integers(0, 4))]]
    kwargs = {}
    if rng.random() < 0.3:
        kwargs['line_settings'] = dict(color='C3', linewidth=0.5)
    with plotted(rng, len(low), obs, search.plot.simplices, container, nodes=nodes, **kwargs) as (axis, prev):
        check_limits(axis, box)
        vertices, edges = [], set()
        for node in nodes:
            obs.count('joined_nodes', 'ancestor' in vars(node))
            parts = [node.ancestor, node.child] if 'ancestor' in vars(node) else [node]
            for part in parts:
                for sim in np.asarray(part.simplex_history):
                    idx = list(range(len(vertices), len(vertices) + len(sim)))
                    vertices += list(sim)
                    edges |= set(itertools.combinations(idx, 2))
        drawn = set(segments(new_lines(axis, prev), Lookup(vertices, scale), 'simplices'))
        if drawn != edges:
            raise Violation(
                'simplex plot: {} edges are missing, {} are not in the history'.
                format(len(edges - drawn), len(drawn - edges))
            )
        if new_points(axis, prev):
            raise Violation('points in the plot of the simplices')
        obs.count('simplex_edges', len(edges))
        if 'line_settings' in kwargs and any(
            to_rgba(c) != to_rgba('C3') for _, c in new_lines(axis, prev)
        ):
            raise Violation('line settings are not used')
    unchanged(container, before)
    obs.key('simplices', len(low), len(nodes), len(edges))
    obs.sample = dict(box=box, nodes=len(nodes), edges=len(edges))


def face_colours(coll):
    return {tuple(np.round(c[:3], 6)) for c in np.atleast_2d(coll.get_facecolor())}


def check_settings(axis, prev, dim, settings, edges_of, obs):
    """The given settings are used for the simplices, origin and sphere."""
    for line in list(axis.lines)[prev[0]:]:
        data = line.get_data_3d() if dim == 3 else line.get_data(orig=True)
        is_edge = edges_of(np.array([np.asarray(d, dtype=float) for d in data]).T)
        name = 'line_settings' if is_edge else 'sphere_settings'
        if name not in settings:
            continue
        if to_rgba(line.get_color())[:3] != to_rgba(settings[name]['color'])[:3]:
            raise Violation('stencil plot: {} are not used'.format(name), found=line.get_color())
        if 'linestyle' in settings[name] and line.get_linestyle() != settings[name]['linestyle']:
            raise Violation('stencil plot: {} are not used (line style)'.format(name))
        obs.count('settings_used')
    for coll in list(axis.collections)[prev[1]:]:
        if type(coll).__name__.startswith('Path') and 'Poly' not in type(coll).__name__:
            if settings.get('origin_settings'):
                expect = tuple(np.round(to_rgba(settings['origin_settings']['color'])[:3], 6))
                if face_colours(coll) != {expect}:
                    raise Violation('stencil plot: origin_settings are not used')
                obs.count('settings_used')
        elif 'sphere_settings' in settings:
            if coll.get_alpha() != settings['sphere_settings']['alpha']:
                raise Violation('stencil plot: sphere_settings are not used', found=coll.get_alpha())
            obs.count('settings_used')


def check_round(axis, prev, dim, expected, obs):
    """The unit sphere is drawn around the origin, in all directions."""
    if dim == 2:
        round_lines = [
            pos for pos, _ in new_lines(axis, prev)
            if len(pos) > 10 and np.all(np.abs(np.linalg.norm(pos, axis=1) - 1) < 1e-6)
        ]
    else:
        round_lines = artists.surfaces(axis)
        if any(np.any(np.abs(np.linalg.norm(pos, axis=1) - 1) > 1e-6) for pos in round_lines):
            raise Violation('stencil plot: a surface which is not the unit sphere')
    if bool(round_lines) != expected:
        raise Violation('stencil plot: sphere', dim=dim, expected=expected, found=len(round_lines))
    if not expected:
        return
    pts = np.concatenate(round_lines)
    directions = np.random.default_rng(7).normal(size=(200, dim))
    directions /= np.linalg.norm(directions, axis=1)[:, None]
    gap = np.max(np.min(np.linalg.norm(directions[:, None] - pts[None, ::1 + len(pts) // 20000], axis=-1), axis=1))
    if gap > 0.25:
        raise Violation('stencil plot: the sphere is not complete', gap=gap)
    obs.count('spheres')


def run_stencil(case, obs):
    rng = w.rng_of(case)
    dim = int(rng.integers(2, 4))
    kind = w.pick(rng, ['auto', 'mesh', 'round', 'random'])
    if kind == 'auto':
        stencil = rs.get_auto_stencil(dim=dim)
    elif kind == 'mesh':
        stencil = rs.get_mesh_stencil(mesh_size=[int(v) for v in rng.integers(2, 4, size=dim)])
    elif kind == 'round':
        num = int(rng.integers(1, 20))
        stencil = rs.get_circle_stencil(num_points=num) if dim == 2 else rs.get_sphere_stencil(num_points=num)
    else:
        stencil = rng.normal(size=(int(rng.integers(1, 6)), dim + 1, dim))
    stencil = np.array(stencil)
    before = np.array(stencil)
    plain = bool(rng.random() < 0.5)
    origin = bool(rng.random() < 0.5)
    kwargs = {}
    if plain or rng.random() < 0.3:
        kwargs.update(plot_sphere=not plain)
    if not origin:
        kwargs.update(origin_settings=None)
    given = {}
    if rng.random() < 0.5:
        given['line_settings'] = dict(color='C4', linestyle='--')
        if origin:
            given['origin_settings'] = dict(color='C5')
        given['sphere_settings'] = dict(color='C6', alpha=0.35)
    kwargs.update(given)
    with plotted(rng, dim, obs, search.plot.stencil, stencil, **kwargs) as (axis, prev):
        check_round(axis, prev, dim, not plain, obs)
        found = [p for pos, _, _ in new_points(axis, prev) for p in pos]
        if len(found) != int(origin) or not np.all(np.abs(found) < 1e-9):
            raise Violation('stencil plot: the points are not the origin', origin=origin, points=found)
        # vertices which are equal up to rounding have the same index
        flat, vertices, index = stencil.reshape(-1, dim), [], []
        for p in flat:
            if vertices:
                err = np.max(np.abs(np.array(vertices) - p), axis=1)
                k = int(np.argmin(err))
                if err[k] < 1e-9:
                    index.append(k)
                    continue
            index.append(len(vertices))
            vertices.append(p)
        index = np.array(index).reshape(stencil.shape[:2])
        edges = {tuple(sorted((int(a), int(b)))) for row in index for a, b in itertools.combinations(row, 2)}
        lookup = Lookup(vertices, 10.)
        drawn = set()
        for pos, _ in new_lines(axis, prev):
            idx = [lookup(p) for p in pos]
            if plain and None in idx:
                raise Violation('stencil plot: line through a position which is no vertex', line=pos)
            drawn |= {tuple(sorted(e)) for e in zip(idx[:-1], idx[1:]) if None not in e}
        if not edges <= drawn:
            raise Violation('stencil plot: {} edges are missing'.format(len(edges - drawn)))
        if plain and drawn != edges:
            raise Violation('stencil plot: {} edges which do not exist'.format(len(drawn - edges)))
        check_settings(
            axis, prev, dim, given, lambda pos: None not in [lookup(p) for p in pos], obs
        )
        lim = np.sort(artists.limits(axis), axis=1)
        if not (np.all(lim[:, 0] <= np.min(flat, axis=0) + 1e-9) and
                np.all(lim[:, 1] >= np.max(flat, axis=0) - 1e-9)):
            raise Violation('stencil plot: a vertex is outside of the limits', limits=lim)
        obs.count('stencils')
    if not np.array_equal(stencil, before):
        raise Violation('plotting modifies the stencil')
    obs.key('stencil', kind, len(stencil), plain)
    obs.sample = dict(kind=kind, simplices=len(stencil))


# ------------------------------------------------------------------ identify


def crossing(box, fs, a, b):
    """Whether the edge crosses a periodic boundary; None if not clear."""
    raw = float(np.linalg.norm(np.array(a) - np.array(b)))
    if not box['periodic']:
        return False
    if raw <= fs * (1 + 1e-6):
        return False
    return True if raw > 2.01 * fs else None


def check_result(result, box, fs, axis, prev, obs):
    """All artists belong to the objects of the result, and the other way round."""
    low, size = w.box_arrays(box)
    scale = float(np.max(np.abs(low)) + np.max(size))
    check_limits(axis, box)
    points = [(p, tuple(np.round(c[0][:3], 9)) if len(c) else None)
              for p, _, c in new_points(axis, prev) if len(p)]
    lines = [(p, tuple(np.round(to_rgba(c)[:3], 9))) for p, c in new_lines(axis, prev) if len(p)]
    for p, c in lines:
        if len(p) == 0:
            raise Violation('empty line')
    used_points, used_lines = set(), set()
    colours = []
    for obj in result:
        shape = obj.shape
        mine = set()
        if isinstance(shape, NodalLine) and len(shape.graph.edges):
            nodes = list(shape.graph.nodes)
            lookup = Lookup(nodes, scale)
            index = {n: i for i, n in enumerate(nodes)}
            drawn = []
            for k, (pos, colour) in enumerate(lines):
                idx = [lookup(p) for p in pos]
                if None in idx:
                    continue
                if k in used_lines:
                    raise Violation('a line belongs to two objects')
                used_lines.add(k)
                mine.add(colour)
                drawn += [tuple(sorted(e)) for e in zip(idx[:-1], idx[1:])]
            expect, unclear = [], set()
            for a, b in shape.graph.edges:
                edge = tuple(sorted((index[a], index[b])))
                cross = crossing(box, fs, a, b)
                if cross is None:
                    unclear.add(edge)
                elif cross:
                    obs.count('crossing_edges')
                else:
                    expect.append(edge)
            obs.count('line_edges', len(expect))
            drawn = [e for e in drawn if e not in unclear]
            if sorted(drawn) != sorted(expect):
                twice = len(drawn) - len(set(drawn))
                raise Violation(
                    'nodal line: {} edges are missing, {} drawn which are not in the graph or cross a '
                    'boundary, {} drawn more than once'.format(
                        len(set(expect) - set(drawn)), len(set(drawn) - set(expect)), twice
                    ), box=box, fs=fs, nodes=nodes, edges=list(shape.graph.edges)
                )
            colours.append((mine, obj))
            continue
        if isinstance(shape, NodalPoint):
            expect = [shape.position]
            obs.count('nodal_points')
        elif isinstance(shape, NodalLine):
            expect = list(shape.graph.nodes)
            obs.count('isolated_lines')
        else:
            expect = list(obj.positions)
            obs.count('plain_positions', len(expect))
        lookup = Lookup(expect, scale)
        found = []
        for k, (pos, colour) in enumerate(points):
            if k not in used_points and all(lookup(p) is not None for p in pos):
                used_points.add(k)
                found += list(pos)
                mine.add(colour)
        match_points(expect, found, scale, 'object with shape {}'.format(type(shape).__name__))
        colours.append((mine, obj))
    if len(used_points) != len(points) or len(used_lines) != len(lines):
        raise Violation(
            'something is drawn which is not part of the result',
            points=[p for k, (p, _) in enumerate(points) if k not in used_points],
            lines=[p for k, (p, _) in enumerate(lines) if k not in used_lines]
        )
    last = None
    for mine, obj in colours:
        if len(mine) > 1:
            raise Violation('an object is drawn with several colours', colours=sorted(mine))
        if mine:
            colour = next(iter(mine))
            if colour == last:
                raise Violation('consecutive objects are drawn with the same colour')
            last = colour


def plot_and_check(rng, result, box, fs, obs):
    before = content(result)
    with plotted(rng, len(box['limits']), obs, identify.plot.result, result) as (axis, prev):
        check_result(result, box, fs, axis, prev, obs)
    unchanged(result, before)


def run_identify(case, obs):
    rng = w.rng_of(case)
    if rng.random() < 0.7:
        scene = features.any_scene(rng, dims=(0, 1, 2) if rng.random() < 0.7 else (0, 1), span_prob=0.3,
                                   max_features=4)
        while len(scene['box']['limits']) == 1:
            scene = features.any_scene(rng, dims=(0, 1), span_prob=0, max_features=4)
        box, fs = scene['box'], scene['fs']
        positions = features.all_positions(rng, scene)
    else:
        box = make_box(rng)
        _, size = w.box_arrays(box)
        positions = clouds.random_cloud(rng, box)[:60]
        fs = float(np.min(size) * rng.uniform(0.05, 0.3))
    method = w.pick(rng, ['ballistic', 'shortest_path', 'dominating_set'])
    with warnings.catch_warnings(), contextlib.redirect_stdout(_io.StringIO()):
        warnings.simplefilter('ignore')
        result = identify.run_from_positions(
            positions, coordinate_system=clouds.system(box), feature_size=fs, evaluate_line_method=method
        )
    plot_and_check(rng, result, box, fs, obs)
    obs.key('identify', len(box['limits']), box['periodic'], len(result), len(positions))
    obs.sample = dict(box=box, objects=len(result), method=method)


def random_line(rng, box, fs):
    """Random graph with edges of at most fs, in the metric of the box."""
    low, size = w.box_arrays(box)
    dim = len(low)
    kind = w.pick(rng, ['walk', 'cloud', 'loop', 'nodes', 'cliques'])
    graph = nx.Graph()

    def norm(p):
        return tuple(float(v) for v in (clouds.wrap(box, p) if box['periodic'] else np.clip(p, low, low + size)))

    if kind == 'nodes':
        for _ in range(int(rng.integers(1, 5))):
            graph.add_node(norm(low + size * rng.random(dim)))
        return graph
    if kind == 'walk':
        for _ in range(int(rng.integers(1, 4))):
            pos = low + size * rng.random(dim)
            node = norm(pos)
            graph.add_node(node)
            for _ in range(int(rng.integers(1, 20))):
                vec = rng.normal(size=dim)
                pos = np.array(node) + vec / np.linalg.norm(vec) * fs * rng.uniform(0.2, 0.95)
                new = norm(pos)
                if new != node and w.brute_dist(box, np.array(new), np.array(node)) <= fs:
                    graph.add_edge(node, new)
                    node = new if rng.random() < 0.8 else list(graph.nodes)[int(rng.integers(len(graph)))]
    elif kind == 'loop':
        center = low + size * rng.random(dim)
        num = int(rng.integers(3, 25))
        radius = 0.45 * fs * num / (2 * np.pi)
        phi = np.arange(num) / num * 2 * np.pi
        pts = np.zeros((num, dim))
        pts[:, 0], pts[:, 1] = radius * np.cos(phi), radius * np.sin(phi)
        nodes = [norm(center + p) for p in pts]
        for a, b in zip(nodes, nodes[1:] + nodes[:1]):
            if a != b and w.brute_dist(box, np.array(a), np.array(b)) <= fs:
                graph.add_edge(a, b)
        graph.add_nodes_from(nodes)
    else:
        pts = [norm(low + size * rng.random(dim)) for _ in range(int(rng.integers(2, 40)))]
        graph.add_nodes_from(pts)
        for a, b in itertools.combinations(pts, 2):
            if w.brute_dist(box, np.array(a), np.array(b)) <= fs and (kind == 'cliques' or rng.random() < 0.5):
                graph.add_edge(a, b)
    return graph


def run_synthetic(case, obs):
    rng = w.rng_of(case)
    box = make_box(rng)
    low, size = w.box_arrays(box)
    dim = len(low)
    fs = float(np.min(size) * rng.uniform(0.05, 0.3))
    results = []
    for _ in range(int(rng.integers(0, 7))):
        kind = w.pick(rng, ['point', 'line', 'line', 'none'])
        if kind == 'point':
            positions = low + size * rng.random((int(rng.integers(1, 5)), dim))
            results.append(IdentificationResult(
                positions=clouds.tuples(positions), dimension=0, shape=NodalPoint(low + size * rng.random(dim))
            ))
        elif kind == 'line':
            graph = random_line(rng, box, fs)
            count = {}
            for _, deg in graph.degree:
                if deg != 2:
                    count[deg] = count.get(deg, 0) + 1
            results.append(IdentificationResult(
                positions=list(graph.nodes), dimension=1, shape=NodalLine(graph, degree_count=count)
            ))
        else:
            positions = clouds.tuples(low + size * rng.random((int(rng.integers(1, 30)), dim)))
            results.append(IdentificationResult(
                positions=positions, dimension=w.pick(rng, [2, 3, None]), shape=None
            ))
    result = IdentificationResultContainer(
        coordinate_system=clouds.system(box), feature_size=fs, results=results
    )
    plot_and_check(rng, result, box, fs, obs)
    obs.key('synthetic', dim, box['periodic'], len(results), [len(r.positions) for r in results])
    obs.sample = dict(box=box, objects=len(results))


def run_shape(case, obs):
    """The functions which plot a single point or line, in a given colour."""
    rng = w.rng_of(case)
    dim = int(rng.integers(2, 4))
    num = int(rng.integers(1, 20))
    scale = float(10**rng.uniform(-3, 3))
    nodes = [tuple(float(v) for v in p) for p in scale * rng.normal(size=(num, dim))]
    colour = w.pick(rng, ['C3', 'C7', '#123456'])
    expect_colour = tuple(np.round(to_rgba(colour)[:3], 6))
    point = num < 4
    fig = plt.figure()
    try:
        axis = fig.add_subplot(111, projection='3d' if dim == 3 else None)
        if point:
            kwargs = dict(feature_size=scale) if rng.random() < 0.5 else {}
            identify.plot.nodal_point(NodalPoint(position=nodes[0]), axis=axis, color=colour, **kwargs)
            match_points([nodes[0]], [p for pos, _, _ in artists.points(axis) for p in pos], 10 * scale, 'point')
            obs.count('single_points')
        else:
            graph = nx.Graph()
            nx.add_path(graph, nodes)
            for _ in range(int(rng.integers(0, 4))):
                a, b = rng.choice(num, size=2, replace=False)
                graph.add_edge(nodes[a], nodes[b])
            line = NodalLine(
                graph=graph, degree_count={}
            )
            # without feature size, no boundary is taken into account
            identify.plot.nodal_line(line, axis=axis, color=colour)
            found = sorted(segments(artists.lines(axis), Lookup(nodes, 10 * scale), 'line'))
            index = {n: i for i, n in enumerate(nodes)}
            if found != sorted(tuple(sorted((index[a], index[b]))) for a, b in graph.edges):
                raise Violation('plot of a single line: the edges are not those of its graph', nodes=nodes)
            obs.count('single_lines')
        colours = {tuple(np.round(to_rgba(c)[:3], 6)) for _, c in artists.lines(axis)}
        for _, _, cols in artists.points(axis):
            colours |= {tuple(np.round(c[:3], 6)) for c in cols}
        if colours != {expect_colour}:
            raise Violation('plot of a single shape: the given colour is not used', colour=colour, found=colours)
    finally:
        plt.close('all')
    obs.key('shape', dim, num)


def run_case(case, obs):
    dict(shape=run_shape, 
        points=run_points, simplices=run_simplices, stencil=run_stencil, identify=run_identify,
        synthetic=run_synthetic
    )[case['kind']](case, obs)
