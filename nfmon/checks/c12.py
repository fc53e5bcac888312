"""C12: the starting mesh samples the whole box, stencils surround the cutoff sphere."""
import itertools

import numpy as np

from nodefinder import io, search
from nodefinder.search.refinement_stencil import get_auto_stencil, get_mesh_stencil
from nodefinder.search import refinement_stencil as rs

from .. import world as w
from ..core import Violation
from ..coverage import Expected
from ..monitor import Recorder, event_loops

PROPERTY = 'C12'
LEVEL = 'exploration'
RULE = (
    'mesh: searches with a gap function which rejects everything, in random boxes '
    '(dimension 1 to 4, limits in any order, aspect ratio up to 100) with random mesh '
    'sizes (also one point, integers of numpy, lists and tuples), new, loaded or forced '
    'on top of an initial state; the starting simplices in the results are matched one to '
    'one with the documented grid. dims: inconsistent dimensions. stencil: all stencils '
    'for all sizes, shape and geometry asserted. Distinct by mesh or stencil.'
)
REQUIRED = {
    'mesh_simplices': 15000, 'periodic': 100, 'non_periodic': 100, 'single_point': 50,
    'forced': 30, 'default_values': 100, 'dimension_errors': 100, 'circle': 60, 'sphere': 60, 'mesh_stencil': 60, 'auto': 12,
}
BUDGET = {'quick': 40, 'thorough': 400}


def cases(seed, tier):
    num = 3000 if tier == 'quick' else 40000
    for i in range(num):
        kind = ['mesh', 'mesh', 'stencil', 'mesh', 'dims'][i % 5]
        yield dict(kind=kind, seed=seed * 1000003 + i, num=i // 5)


# ------------------------------------------------------------------ mesh


def grid_axes(box, mesh):
    low, size = w.box_arrays(box)
    axes = []
    for l, s, m in zip(low, size, mesh):
        if box['periodic']:
            axes.append([l + s * i / m for i in range(m)])
        elif m == 1:
            axes.append([l])
        else:
            axes.append([l + s * i / (m - 1) for i in range(m)])
    return axes


def expected_mesh(box, mesh):
    low, size = w.box_arrays(box)
    dim = len(low)
    edges = np.zeros((dim + 1, dim))
    for i in range(dim):
        edges[i + 1, i] = size[i] / (2 * mesh[i])
    return [np.array(p) + edges for p in itertools.product(*grid_axes(box, mesh))]


def make_mesh(rng, dim):
    top = {1: 40, 2: 9, 3: 5, 4: 3}[dim]
    mesh = [int(v) for v in rng.integers(1, top + 1, size=dim)]
    kind = w.pick(rng, ['tuple', 'list', 'int', 'numpy'])
    if kind == 'int':
        mesh = [min(mesh)] * dim
        return mesh, w.pick(rng, [int(mesh[0]), np.int64(mesh[0])])
    if kind == 'numpy':
        return mesh, np.array(mesh)
    return mesh, tuple(mesh) if kind == 'tuple' else list(mesh)


def run_mesh(case, obs):
    rng = w.rng_of(case)
    dim = int(w.pick(rng, [1, 2, 3, 4], [2, 4, 4, 2]))
    box = w.random_box(rng, dim, max_aspect=float(w.pick(rng, [1., 4., 100.])))
    low, size = w.box_arrays(box)
    scale = float(np.max(np.abs(low)) + np.max(size))
    limits = [tuple(l[::-1]) if rng.random() < 0.2 else tuple(l) for l in box['limits']]
    mesh, given = make_mesh(rng, dim)
    if rng.random() < 0.2:
        axis = int(rng.integers(dim))
        mesh[axis] = 1
        given = tuple(mesh)
    obs.count('single_point', 1 in mesh)
    left_out = []
    if rng.random() < 0.04:
        # documented defaults
        if rng.random() < 0.5:
            dim, left_out = 3, ['limits']
            box = dict(limits=[[0., 1.]] * 3, periodic=box['periodic'])
            limits = [(0, 1)] * 3
            low, size, scale = np.zeros(3), np.ones(3), 1.
            mesh, given = make_mesh(rng, dim)
        if dim <= 2 or rng.random() < 0.5 and 'limits' in left_out:
            mesh, given = [10] * dim, 10
            left_out.append('initial_mesh_size')
    if box['periodic'] and rng.random() < 0.3:
        left_out.append('periodic')
    obs.count('default_values', len(left_out))
    feature = float(np.min(size) * rng.uniform(0.05, 0.5))
    while np.prod(np.maximum(1, np.minimum(100, 3 * size / feature))) > 2e4:
        feature *= 1.5
    kwargs = dict(
        limits=limits,
        periodic=box['periodic'],
        gap_threshold=1e-3,
        feature_size=feature,
        num_minimize_parallel=int(w.pick(rng, [1, 3, 50])),
        nelder_mead_kwargs={'maxiter': int(rng.integers(1, 3))},
        use_fake_potential=bool(rng.random() < 0.3),
        refinement_stencil=w.pick(rng, [None, 'auto']),
    )
    for name in left_out:
        kwargs.pop(name, None)
    given = {} if 'initial_mesh_size' in left_out else dict(initial_mesh_size=given)
    fct = Recorder(lambda pos: 10. + float(np.sum(np.abs(pos - low) / size)))
    forced = rng.random() < 0.25
    expected = expected_mesh(box, mesh)
    with event_loops():
        if forced:
            first_mesh, first_given = make_mesh(rng, dim)
            search.run(fct, initial_mesh_size=first_given, save_file='s.hdf5', **kwargs)
            state = io.load('s.hdf5')
            expected = expected + expected_mesh(box, first_mesh)
            result = search.run(
                fct, **given, initial_state=state, force_initial_mesh=True, **kwargs
            )
            obs.count('forced')
        else:
            result = search.run(fct, **given, **kwargs)
    results = list(result.minimization_results)
    todo = Expected(expected, 1e-12 * scale * 10)
    starts = []
    for res in results:
        sim = np.asarray(res.simplex_history[0])
        starts.append(sim)
        idx = todo.take(sim)
        if idx is None:
            raise Violation(
                'a starting simplex which is not part of the documented mesh', box=box, mesh=mesh,
                simplex=sim
            )
        if idx < 0 and not forced:
            raise Violation('a simplex of the mesh is used more than once', box=box, mesh=mesh, simplex=sim)
        obs.count('mesh_simplices')
    if forced:
        # common simplices of both meshes are either minimized once or twice
        missing = [
            s for s in todo.left()
            if not any(np.max(np.abs(np.sort(s, axis=0) - np.sort(t, axis=0))) < 1e-11 * scale for t in starts)
        ]
    else:
        missing = todo.left()
    if len(missing):
        raise Violation(
            'part of the mesh is not sampled: {} of {} simplices'.format(len(missing), len(expected)),
            box=box, mesh=mesh, missing=missing[:5]
        )
    # the vertices given to the gap function
    evaluated = {tuple(p) for p in fct.pos}
    for sim in starts:
        for vertex in sim:
            if tuple(float(v) for v in vertex) not in evaluated:
                raise Violation('vertex of a starting simplex is not evaluated', simplex=sim)
    obs.count('periodic' if box['periodic'] else 'non_periodic')
    obs.key(box['periodic'], mesh)
    obs.sample = dict(box=box, mesh=mesh, starts=len(starts), forced=bool(forced))


def run_dims(case, obs):
    rng = w.rng_of(case)
    dim = int(rng.integers(1, 5))
    wrong = int(w.pick(rng, [d for d in range(0, 6) if d != dim]))
    box = w.random_box(rng, dim)
    calls = []

    def fct(pos):
        calls.append(pos)
        return 1.

    mesh = [int(v) for v in rng.integers(1, 4, size=wrong)]
    mesh = w.pick(rng, [tuple, list, np.array])(mesh)
    try:
        with event_loops():
            search.run(
                fct, limits=[tuple(l) for l in box['limits']], periodic=box['periodic'],
                initial_mesh_size=mesh, gap_threshold=1e-3, feature_size=0.1,
            )
    except ValueError:
        obs.count('dimension_errors')
    else:
        raise Violation('inconsistent dimensions are accepted', dim=dim, mesh=mesh)
    if calls:
        raise Violation('gap function called in spite of inconsistent dimensions', dim=dim, mesh=mesh)
    obs.key('dims', dim, wrong)
    obs.sample = dict(dim=dim, wrong=wrong)


# ------------------------------------------------------------------ stencils


def check_shape(name, stencil, num, dim):
    arr = np.asarray(stencil)
    if arr.shape != (num, dim + 1, dim) or arr.dtype.kind != 'f':
        raise Violation(
            '{} stencil has shape {}, expected {}'.format(name, arr.shape, (num, dim + 1, dim))
        )
    if not np.all(np.isfinite(arr)):
        raise Violation('{} stencil has values which are not finite'.format(name))
    for sim in arr:
        edges = sim[1:] - sim[0]
        length = np.max(np.linalg.norm(edges, axis=1))
        if length == 0 or abs(np.linalg.det(edges / length)) < 1e-3:
            raise Violation('{} stencil has a degenerate simplex'.format(name), simplex=sim)
    return arr


def pair_distances(sim):
    d = np.linalg.norm(sim[:, None, :] - sim[None, :, :], axis=-1)
    return np.sort(d[np.triu_indices(len(sim), 1)])


def check_outward(name, arr, num):
    """Congruent simplices outside of the unit sphere, pointing away from the origin."""
    first = pair_distances(arr[0])
    radii = np.sort(np.linalg.norm(arr[0], axis=1))
    for sim in arr:
        if np.max(np.abs(pair_distances(sim) - first)) > 1e-9 or \
                np.max(np.abs(np.sort(np.linalg.norm(sim, axis=1)) - radii)) > 1e-9:
            raise Violation('{} stencil with {}: simplices are not congruent'.format(name, num), simplex=sim)
        rad = np.linalg.norm(sim, axis=1)
        near = int(np.argmin(rad))
        if not rad[near] >= 1 + 1e-6:
            raise Violation('{} stencil with {}: inside the unit sphere'.format(name, num), simplex=sim)
        # the whole simplex is outside: on the far side of the tangent plane at
        # its nearest vertex
        direction = sim[near] / rad[near]
        ahead = (sim - sim[near]) @ direction
        ahead = np.delete(ahead, near)
        if not np.all(ahead > 1e-6):
            raise Violation(
                '{} stencil with {}: does not point away from the origin'.format(name, num), simplex=sim
            )
        centre = np.mean(sim, axis=0)
        if np.linalg.norm(centre / np.linalg.norm(centre) - direction) > 1e-6:
            raise Violation('{} stencil with {}: simplex is tilted'.format(name, num), simplex=sim)


def run_stencil(case, obs):
    rng = w.rng_of(case)
    kind = ['circle', 'sphere', 'mesh', 'auto'][case['num'] % 4] if case['num'] % 20 else 'auto'
    if kind == 'circle':
        num = int(case['num'] // 4 + 1 if case['num'] < 200 else rng.integers(1, 200))
        arr = check_shape('circle', rs.get_circle_stencil(num_points=num), num, 2)
        check_outward('circle', arr, num)
        angles = np.arctan2(*np.mean(arr, axis=1).T[::-1])
        gaps = np.diff(np.sort(angles))
        if num > 1:
            gaps = np.append(gaps, 2 * np.pi - np.sum(gaps))
            if np.max(np.abs(gaps - 2 * np.pi / num)) > 1e-9:
                raise Violation('circle stencil with {} points is not evenly spread'.format(num), gaps=gaps)
        obs.key('circle', num)
    elif kind == 'sphere':
        num = int(case['num'] // 4 + 1 if case['num'] < 200 else rng.integers(1, 300))
        arr = check_shape('sphere', rs.get_sphere_stencil(num_points=num), num, 3)
        check_outward('sphere', arr, num)
        centre = np.mean(arr, axis=1)
        direction = centre / np.linalg.norm(centre, axis=1, keepdims=True)
        if num > 1:
            cosine = direction @ direction.T - 3 * np.eye(num)
            closest = np.arccos(np.clip(np.max(cosine), -1, 1)) * np.sqrt(num)
            probe = rng.normal(size=(2000, 3))
            probe /= np.linalg.norm(probe, axis=1, keepdims=True)
            hole = np.max(np.arccos(np.clip(np.max(probe @ direction.T, axis=1), -1, 1))) * np.sqrt(num)
            obs.maximum('sphere_hole_times_sqrt_n', float(hole))
            if closest < 0.8 or hole > 4.5:
                raise Violation(
                    'sphere stencil with {} points is not evenly spread'.format(num), closest=closest,
                    hole=hole
                )
        obs.key('sphere', num)
    elif kind == 'mesh':
        dim = int(rng.integers(1, 5))
        mesh = [int(v) for v in rng.integers(2, {1: 30, 2: 9, 3: 5, 4: 4}[dim], size=dim)]
        mult = float(10**rng.uniform(-1, 1)) if rng.random() < 0.7 else None
        kwargs = {} if mult is None else dict(dist_multiplier=mult)
        mult = 2.5 if mult is None else mult
        given = w.pick(rng, [list, tuple])(mesh)
        box = dict(limits=[[-mult, mult]] * dim, periodic=False)
        expect = [s for s in expected_mesh(box, mesh) if np.max(np.abs(s[0])) > 1e-9 * mult]
        arr = check_shape('mesh', get_mesh_stencil(mesh_size=given, **kwargs), len(expect), dim)
        todo = Expected(expect, 1e-11 * mult)
        for sim in arr:
            idx = todo.take(sim)
            if idx is None or idx < 0:
                raise Violation(
                    'mesh stencil {} x {}: simplex is not part of the grid, or there twice'.
                    format(mesh, mult), simplex=sim
                )
        obs.count('mesh_stencil')
        obs.key('mesh', mesh, mult)
        obs.sample = dict(mesh=mesh, mult=mult)
        return
    else:
        for dim in range(1, 6):
            arr = np.asarray(get_auto_stencil(dim=dim))
            check_shape('auto', arr, len(arr), dim)
            if len(arr) < 2:
                raise Violation('automatic stencil for dimension {} is (almost) empty'.format(dim))
            # simplices on all sides
            centre = np.mean(arr, axis=1)
            direction = centre / np.linalg.norm(centre, axis=1, keepdims=True)
            probe = np.concatenate([np.eye(dim), -np.eye(dim)])
            if np.any(np.max(probe @ direction.T, axis=1) < 0.3):
                raise Violation('automatic stencil for dimension {} does not surround the origin'.format(dim))
        obs.key('auto')
    obs.count(kind)
    obs.sample = dict(stencil=kind)


def run_case(case, obs):
    dict(mesh=run_mesh, dims=run_dims, stencil=run_stencil)[case['kind']](case, obs)
