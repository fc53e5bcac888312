"""
Random boxes, gap functions and search options. Everything is described by plain
(JSON) data, so that each case can be replayed.
"""
import json
import math
import zlib

import numpy as np

from nodefinder.search.refinement_stencil import (
    get_auto_stencil, get_mesh_stencil, get_circle_stencil, get_sphere_stencil
)


def rng_of(case):
    words = [case['seed']]
    kind = str(case.get('kind', ''))
    words.append(sum((i + 1) * ord(c) for i, c in enumerate(kind)))
    return np.random.default_rng(words)


def pick(rng, options, weights=None):
    if weights is not None:
        weights = np.array(weights, dtype=float)
        weights = weights / weights.sum()
    return options[int(rng.choice(len(options), p=weights))]


# ------------------------------------------------------------------ boxes


def random_box(rng, dim, *, periodic=None, scales=(1e-2, 1., 50.), max_aspect=4.):
    """Limits and periodicity of a box, with at most the given aspect ratio."""
    if periodic is None:
        periodic = bool(rng.random() < 0.5)
    kind = pick(rng, ['unit', 'shifted', 'anisotropic', 'negative'], [2, 3, 4, 1])
    scale = 1.
    if kind == 'unit':
        limits = [[0., 1.]] * dim
    elif kind == 'shifted':
        scale = float(pick(rng, scales))
        low = scale * rng.uniform(-3, 3, size=dim)
        limits = [[float(l), float(l + scale)] for l in low]
    elif kind == 'negative':
        limits = [[-0.5, 0.5]] * dim
    else:
        scale = float(pick(rng, scales))
        low = scale * rng.uniform(-3, 3, size=dim)
        size = scale * rng.uniform(1, max_aspect, size=dim)
        limits = [[float(l), float(l + s)] for l, s in zip(low, size)]
    return dict(limits=limits, periodic=periodic)


def box_arrays(box):
    limits = np.array([sorted(l) for l in box['limits']], dtype=float)
    return limits[:, 0], limits[:, 1] - limits[:, 0]


def brute_delta(box, pos1, pos2):
    """
    Shortest vector from pos1 to pos2, found by comparing the images explicitly.
    """
    _, size = box_arrays(box)
    delta = np.asarray(pos2, dtype=float) - np.asarray(pos1, dtype=float)
    if not box['periodic']:
        return delta
    base = delta - np.floor(delta / size) * size
    cands = np.stack([base - size, base, base + size])
    idx = np.argmin(np.abs(cands), axis=0)
    return np.take_along_axis(cands, idx[None, ...], axis=0)[0]


def brute_dist(box, pos1, pos2):
    return np.sqrt(np.sum(brute_delta(box, pos1, pos2)**2, axis=-1))


def brute_norm(box, pos):
    """Position mapped into the limits."""
    low, size = box_arrays(box)
    pos = np.asarray(pos, dtype=float)
    if not box['periodic']:
        return pos
    rel = pos - low
    rel = rel - np.floor(rel / size) * size
    return rel + low


# ------------------------------------------------------------------ gap functions


class Gap:
    """
    A gap function made from a description. Distances to the features are taken
    in the metric of the box, so the function is periodic if the box is.
    """
    def __init__(self, spec, box):
        self.spec = spec
        self.box = box
        self.low, self.size = box_arrays(box)
        self.dim = len(self.low)
        self.slope = spec.get('slope', 1.)
        self.power = spec.get('power', 1)
        self.offset = spec.get('offset', 0.)
        self.features = [
            {
                k: (np.array(v, dtype=float) if isinstance(v, list) else v)
                for k, v in f.items()
            } for f in spec.get('features', [])
        ]

    def delta(self, pos, center):
        """Vector from center to pos in the metric of the box."""
        d = pos - center
        if self.box['periodic']:
            d = d - self.size * np.round(d / self.size)
        return d

    def feature_dist(self, feature, pos):
        kind = feature['type']
        d = self.delta(pos, feature['center'])
        if kind == 'point':
            if 'stretch' in feature:
                d = d * feature['stretch']
            return math.sqrt(d @ d)
        if kind == 'plane':  # all positions with given coordinate
            return abs(d[feature['axis']])
        if kind == 'axis_line':  # line along an axis
            d = np.delete(d, feature['axis'])
            return math.sqrt(d @ d)
        if kind == 'sphere':
            return abs(math.sqrt(d @ d) - feature['radius'])
        if kind == 'circle3':  # circle in 3D with given normal
            n = feature['normal']
            h = d @ n
            q = d - h * n
            return math.hypot(math.sqrt(q @ q) - feature['radius'], h)
        if kind == 'segment':  # open straight line
            v = feature['vector']
            t = min(max((d @ v) / (v @ v), -1.), 1.)
            q = d - t * v
            return math.sqrt(q @ q)
        raise ValueError(kind)

    def dist(self, pos):
        return min(self.feature_dist(f, pos) for f in self.features)

    def __call__(self, pos):
        pos = np.asarray(pos, dtype=float)
        kind = self.spec['kind']
        if kind == 'features':
            val = self.slope * self.dist(pos)**self.power + self.offset
        elif kind == 'const':
            val = self.offset
        elif kind == 'rugged':
            x = 2 * np.pi * (pos - self.low) / self.size
            k = self.features[0]['k']
            p = self.features[0]['p']
            val = self.slope * float(
                np.sum(np.abs(np.sin(k * x + p))) +
                0.3 * np.abs(np.sum(np.sin((k + 2) * x)))
            ) + self.offset
        else:
            raise ValueError(kind)
        step = self.spec.get('step')
        if step:
            val = math.floor(val / step) * step
        for wall in self.spec.get('walls', []):
            d = self.delta(pos, np.array(wall['center']))
            if math.sqrt(d @ d) < wall['radius']:
                return {'inf': float('inf'), 'nan': float('nan'),
                        'big': 1e300}[wall['value']]
        return val


def random_gap(rng, box, *, kinds=None, offset_scale=0.):
    """A random description of a gap function for the given box."""
    low, size = box_arrays(box)
    dim = len(low)
    scale = float(np.min(size))
    if kinds is None:
        kinds = ['points', 'line', 'surface', 'rugged', 'const', 'plateau', 'walls']
    kind = pick(rng, kinds)

    def center():
        return [float(v) for v in low + size * rng.random(dim)]

    def point(**kwargs):
        res = dict(type='point', center=center())
        if rng.random() < 0.4:
            res['stretch'] = [float(v) for v in rng.uniform(0.4, 2.5, size=dim)]
        res.update(kwargs)
        return res

    slope = float(10**rng.uniform(-0.5, 1)) / scale
    spec = dict(kind='features', slope=slope, features=[])
    if kind in ('points', 'plateau', 'walls'):
        spec['features'] = [point() for _ in range(int(rng.integers(1, 5)))]
        if kind == 'points' and rng.random() < 0.3:
            # node exactly on the boundary
            c = spec['features'][0]['center']
            axis = int(rng.integers(dim))
            c[axis] = float(low[axis])
        if rng.random() < 0.3:
            spec['power'] = 2
        if kind == 'plateau':
            spec['step'] = slope * scale * float(pick(rng, [0.02, 0.1, 0.3]))
        if kind == 'walls':
            spec['walls'] = [
                dict(
                    center=center(),
                    radius=float(scale * rng.uniform(0.05, 0.4)),
                    value=pick(rng, ['inf', 'nan', 'big'], [3, 2, 1])
                ) for _ in range(int(rng.integers(1, 4)))
            ]
    elif kind == 'line' and dim >= 2:
        axis = int(rng.integers(dim))
        if dim == 2:
            if rng.random() < 0.5:
                spec['features'] = [
                    dict(type='sphere', center=center(), radius=float(scale * rng.uniform(0.15, 0.35)))
                ]
            else:
                spec['features'] = [dict(type='plane', center=center(), axis=axis)]
        else:
            if rng.random() < 0.5 and dim == 3:
                n = rng.normal(size=3)
                n = n / np.linalg.norm(n)
                spec['features'] = [
                    dict(type='circle3', center=center(), normal=[float(v) for v in n],
                         radius=float(scale * rng.uniform(0.15, 0.35)))
                ]
            else:
                spec['features'] = [dict(type='axis_line', center=center(), axis=axis)]
    elif kind == 'surface' or (kind == 'line' and dim < 2):
        if rng.random() < 0.5 and dim >= 2:
            spec['features'] = [
                dict(type='sphere', center=center(), radius=float(scale * rng.uniform(0.15, 0.35)))
            ]
        else:
            spec['features'] = [
                dict(type='plane', center=center(), axis=int(rng.integers(dim)))
            ]
    elif kind == 'rugged':
        spec = dict(
            kind='rugged',
            slope=1.,
            offset=float(pick(rng, [0., 0., 1e-3, 0.2])),
            features=[
                dict(
                    k=[float(v) for v in rng.integers(1, 4, size=dim)],
                    p=[float(v) for v in rng.uniform(0, 6, size=dim)]
                )
            ]
        )
    elif kind == 'const':
        spec = dict(kind='const', offset=float(pick(rng, [0., 1e-9, 1e-3, 1., 1e6])))
    else:
        raise ValueError(kind)
    if rng.random() < offset_scale:
        spec['offset'] = float(pick(rng, [1e-8, 1e-5, 1e-3]))
    return spec


# ------------------------------------------------------------------ stencils


def random_stencil_spec(rng, dim, *, none=0.1, small=False):
    if rng.random() < none:
        return None
    kinds = ['random', 'random_dup']
    if not small:
        kinds += ['auto', 'auto']
        if dim == 2:
            kinds += ['circle']
        if dim == 3:
            kinds += ['sphere']
    if dim <= 2:
        kinds += ['mesh']
    kind = pick(rng, kinds)
    spec = dict(kind=kind)
    if kind == 'circle':
        spec['num'] = int(rng.integers(3, 9))
    elif kind == 'sphere':
        spec['num'] = int(rng.integers(4, 13))
    elif kind == 'mesh':
        spec['size'] = [int(v) for v in rng.integers(2, 4, size=dim)]
        spec['mult'] = float(rng.uniform(1.5, 3))
    elif kind in ('random', 'random_dup'):
        num = int(rng.integers(1, 5))
        sims = []
        for _ in range(num):
            direction = rng.normal(size=dim)
            direction = direction / np.linalg.norm(direction)
            edge = rng.uniform(0.4, 1.2)
            sim = np.zeros((dim + 1, dim))
            sim[1:] = np.eye(dim) * edge
            sim = sim + direction * rng.uniform(1.2, 2.2)
            sims.append([[float(v) for v in p] for p in sim])
        if kind == 'random_dup':
            sims.append([list(p) for p in sims[0]])
            # the same simplex with the vertices in a different order
            sims.append([list(p) for p in sims[-1][::-1]])
        spec['simplices'] = sims
    return spec


def make_stencil(spec, dim):
    """Returns (argument passed to the search, array or None)."""
    if spec is None:
        return None, None
    kind = spec['kind']
    if kind == 'auto':
        return 'auto', np.array(get_auto_stencil(dim=dim))
    if kind == 'circle':
        res = get_circle_stencil(num_points=spec['num'])
    elif kind == 'sphere':
        res = get_sphere_stencil(num_points=spec['num'])
    elif kind == 'mesh':
        res = get_mesh_stencil(mesh_size=spec['size'], dist_multiplier=spec['mult'])
    else:
        res = np.array(spec['simplices'])
    return res, np.array(res)


def canon_simplex(sim):
    return tuple(sorted(tuple(float(v) for v in p) for p in sim))


# ------------------------------------------------------------------ problems


def random_problem(
    rng,
    *,
    dims=(1, 2, 3),
    dim_weights=(1, 4, 3),
    gap_kinds=None,
    stencil_none=0.15,
    small_stencil=False,
    max_mesh=None,
    feature_range=(0.08, 0.5),
    periodic=None,
    parallel=(1, 2, 5, 50),
    fake=0.2,
):
    """
    A complete search problem: {dim, box, gap, stencil, options}, sized such that
    a search takes a fraction of a second.
    """
    dim = int(pick(rng, list(dims), dim_weights))
    box = random_box(rng, dim, periodic=periodic)
    low, size = box_arrays(box)
    scale = float(np.min(size))
    gap = random_gap(rng, box, kinds=gap_kinds)
    if max_mesh is None:
        max_mesh = {1: 6, 2: 4, 3: 3, 4: 2}[dim]
    mesh = [int(v) for v in rng.integers(1, max_mesh + 1, size=dim)]
    # extended features need a coarser resolution to stay small
    extended = any(
        f.get('type') not in ('point', None) for f in gap['features']
    ) if gap['kind'] == 'features' else True
    lo, hi = feature_range
    if extended:
        lo = max(lo, {1: 0.08, 2: 0.15, 3: 0.45, 4: 0.8}[dim])
        hi = max(hi, 2 * lo)
    feature = float(scale * rng.uniform(lo, hi))
    stencil = random_stencil_spec(rng, dim, none=stencil_none, small=small_stencil)
    if gap['kind'] == 'const' or gap.get('step'):
        # everything may be a node
        feature = float(scale * rng.uniform(0.4, 0.9))
        if dim >= 3 and stencil is not None:
            stencil = random_stencil_spec(rng, dim, none=0.5, small=True)
    value_scale = gap.get('slope', 1.) * scale if gap['kind'] == 'features' else 1.
    options = dict(
        initial_mesh_size=mesh if rng.random() < 0.7 else int(max(1, min(mesh))),
        gap_threshold=float(value_scale * 10**rng.uniform(-6, -2)),
        feature_size=feature,
        num_minimize_parallel=int(pick(rng, list(parallel))),
        use_fake_potential=bool(rng.random() < fake),
    )
    nm = {}
    if rng.random() < 0.25:
        nm['maxiter'] = int(rng.integers(1, 60))
    if rng.random() < 0.15:
        nm['maxfev'] = int(rng.integers(dim + 1, 100))
    if rng.random() < 0.15:
        nm['fprime_cutoff'] = float(value_scale / scale * 10**rng.uniform(-1, 1.5))
    if nm:
        options['nelder_mead_kwargs'] = nm
    if rng.random() < 0.25:
        options['simplex_check_cutoff'] = int(rng.integers(0, dim + 3))
    if rng.random() < 0.2:
        options['recheck_count_cutoff'] = int(rng.integers(0, 3))
    if rng.random() < 0.15:
        options['recheck_pos_dist'] = False
    return dict(dim=dim, box=box, gap=gap, stencil=stencil, options=options)


def search_kwargs(problem):
    arg, _ = make_stencil(problem['stencil'], problem['dim'])
    kwargs = dict(
        limits=[tuple(l) for l in problem['box']['limits']],
        periodic=problem['box']['periodic'],
        refinement_stencil=arg,
        **problem['options']
    )
    # arguments can be left out if they are the documented defaults
    code = zlib.crc32(json.dumps(problem, sort_keys=True, default=repr).encode())
    for i, (key, default) in enumerate(DEFAULTS.items()):
        if key in kwargs and type(kwargs[key]) is type(default) and kwargs[key] == default:
            if code >> (i + 8) & 1:
                del kwargs[key]
    return kwargs


DEFAULTS = dict(
    periodic=True, use_fake_potential=False, num_minimize_parallel=50, recheck_pos_dist=True,
    recheck_count_cutoff=0, simplex_check_cutoff=0, refinement_stencil='auto',
    initial_mesh_size=10
)
