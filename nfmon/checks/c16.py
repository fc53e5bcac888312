"""C16: identification does not depend on the frame of reference."""
import contextlib
import copy
import io as _io
import warnings

import numpy as np

from nodefinder import identify

from .. import clouds, features
from .. import world as w
from ..core import Violation

PROPERTY = 'C16'
LEVEL = 'exploration'
RULE = (
    'a cloud or scene with dense features is identified, then again after a random '
    'sequence of one to four transformations (permute, duplicate, permute or mirror axes, '
    'translate with the limits, translate modulo the period, move the limits only, move '
    'single positions by periods, rescale); partition of the positions, positions of '
    'nodal points, dimensions and line names are compared, and the inputs are compared '
    'with copies. Distinct by sequence of transformations and size of the groups.'
)
REQUIRED = {
    'compared': 1200, 'objects': 5000, 'points_compared': 2500, 'dims_compared': 500, 'names_compared': 200,
    't_permute': 150, 't_duplicate': 150, 't_axes': 150, 't_mirror': 150, 't_translate': 150,
    't_roll': 120, 't_limits': 120, 't_periods': 120, 't_scale': 150,
}
BUDGET = {'quick': 80, 'thorough': 600}


def cases(seed, tier):
    num = 2500 if tier == 'quick' else 25000
    for i in range(num):
        yield dict(kind=['cloud', 'scene', 'cloud'][i % 3], seed=seed * 1000003 + i)


class Frame:
    """Positions in a box, and how they are obtained from the original ones."""
    def __init__(self, pts, box, fs):
        self.pts = np.array(pts, dtype=float)
        self.index = list(range(len(pts)))  # original position for each position
        self.box = box
        self.fs = fs
        self.maps = []

    def apply(self, func):
        """`func` maps positions to equivalent positions in the new frame."""
        self.pts = func(self.pts)
        self.maps.append(func)

    def image(self, pos):
        res = np.array([pos], dtype=float)
        for func in self.maps:
            res = func(res)
        return res[0]

    @property
    def scale(self):
        low, size = w.box_arrays(self.box)
        return float(np.max(np.abs(low)) + np.max(size) + np.max(np.abs(self.pts)))


def transform(rng, frame, obs):
    box = frame.box
    low, size = w.box_arrays(box)
    dim = len(low)
    names = ['permute', 'duplicate', 'axes', 'mirror', 'translate', 'scale']
    if box['periodic']:
        names += ['roll', 'roll', 'limits', 'limits', 'periods', 'periods']
    name = w.pick(rng, names)
    obs.count('t_' + name)
    if name == 'permute':
        order = rng.permutation(len(frame.pts))
        frame.pts = frame.pts[order]
        frame.index = [frame.index[i] for i in order]
    elif name == 'duplicate':
        extra = rng.integers(len(frame.pts), size=int(rng.integers(1, 6)))
        frame.pts = np.concatenate([frame.pts, frame.pts[extra]])
        frame.index = frame.index + [frame.index[i] for i in extra]
    elif name == 'axes':
        order = rng.permutation(dim)
        frame.box = dict(box, limits=[box['limits'][i] for i in order])
        frame.apply(lambda p: p[:, order])
    elif name == 'mirror':
        axis = int(rng.integers(dim))
        sign = np.ones(dim)
        sign[axis] = -1
        limits = [sorted(l) for l in box['limits']]
        limits[axis] = [-limits[axis][1], -limits[axis][0]]
        frame.box = dict(box, limits=limits)
        frame.apply(lambda p: p * sign)
    elif name == 'translate':
        vec = size * rng.uniform(-3, 3, size=dim)
        frame.box = dict(box, limits=[[float(l + v), float(l + v + s)] for l, v, s in zip(low, vec, size)])
        # the period changes by rounding, keep inside
        frame.apply(lambda p: p + vec)
    elif name == 'scale':
        # rescaling by powers of two is exact
        factor = float(w.pick(rng, [2.**int(rng.integers(-20, 20)), 10**rng.uniform(-4, 4)]))
        frame.box = dict(box, limits=[[l * factor, h * factor] for l, h in box['limits']])
        frame.fs = frame.fs * factor
        frame.apply(lambda p: p * factor)
    elif name == 'roll':
        vec = size * rng.uniform(-1, 1, size=dim)
        frame.apply(lambda p: clouds.wrap(box, p + vec))
    elif name == 'limits':
        vec = size * rng.uniform(-2, 2, size=dim)
        frame.box = dict(box, limits=[[float(l + v), float(l + v + s)] for l, v, s in zip(low, vec, size)])
        if rng.random() < 0.5:
            new = frame.box
            frame.apply(lambda p: clouds.wrap(new, p))
    elif name == 'periods':
        # equal positions are moved equally, as they count once
        shifts = rng.integers(-2, 3, size=(1 + max(frame.index), dim))
        shifts *= rng.random((len(shifts), 1)) < rng.random()
        frame.pts = frame.pts + shifts[frame.index] * size
    return name


def separate(box, pts, scale):
    """Leave out positions which could become equal by rounding."""
    out = []
    for p in pts:
        if not out or np.min(w.brute_dist(box, p, np.array(out))) > 1e-10 * scale:
            out.append(p)
    return np.array(out)


def identified(frame, method, rng):
    positions = clouds.tuples(frame.pts)
    kind = rng.integers(3)
    if kind == 0:
        positions = [np.array(p) for p in positions]
    elif kind == 1:
        positions = np.array(positions)
    system = clouds.system(frame.box)
    before = copy.deepcopy((positions, system.limits, system.size))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with contextlib.redirect_stdout(_io.StringIO()):
            result = identify.run_from_positions(
                positions, coordinate_system=system, feature_size=frame.fs, evaluate_line_method=method
            )
    same = np.array_equal(np.array(before[0]), np.array(positions)) and len(before[0]) == len(positions) \
        and np.array_equal(before[1], system.limits) and np.array_equal(before[2], system.size)
    if not same:
        raise Violation('the inputs are modified by the identification', box=frame.box)
    return result


def by_index(frame, result):
    """{frozenset of original indices: object}"""
    lookup = {}
    for pos, idx in zip(clouds.tuples(frame.pts), frame.index):
        lookup.setdefault(pos, set()).add(idx)
    out = {}
    for obj in result:
        group = set()
        for pos in obj.positions:
            pos = tuple(float(v) for v in pos)
            if pos not in lookup:
                raise Violation('object with a position which was not given', pos=pos, box=frame.box)
            group |= lookup[pos]
        out[frozenset(group)] = obj
    return out


def compact(box, pts, fs):
    """Average is well defined and the dimension is clear."""
    _, size = w.box_arrays(box)
    delta = w.brute_delta(box, np.broadcast_to(pts[0], pts.shape), pts)
    return bool(np.all(np.ptp(delta, axis=0) < 0.45 * size))


def run_case(case, obs):
    rng = w.rng_of(case)
    dims = None
    if case['kind'] == 'scene':
        scene = features.any_scene(rng, dims=(0, 1, 2) if rng.random() < 0.7 else (0, 1, 2, 3), span_prob=0.15)
        box, fs = scene['box'], scene['fs']
        pts, dims = [], []
        for i, f in enumerate(scene['features']):
            pts += list(f['pts'])
            dims += [i] * len(f['pts'])
        pts = np.array(pts)
    else:
        for _ in range(20):
            dim = int(rng.integers(1, 5))
            box = w.random_box(rng, dim)
            low, size = w.box_arrays(box)
            cloud = clouds.random_cloud(rng, box, num=int(rng.integers(2, 50)), duplicates=False)
            scale = float(np.max(np.abs(low)) + np.max(size)) * 3
            pts = separate(box, np.array(cloud), scale)
            fs = float(np.min(size) * 10**rng.uniform(-2, 0.2))
            if clouds.brute_clusters(box, clouds.tuples(pts), fs, margin=1e-7)[1]:
                break
        else:
            return
    frame = Frame(pts, box, fs)
    method = w.pick(rng, ['ballistic', 'shortest_path', 'dominating_set'])
    original = by_index(frame, identified(frame, method, rng))
    names = [transform(rng, frame, obs) for _ in range(int(rng.integers(1, 5)))]
    obs.count('compared')
    changed = by_index(frame, identified(frame, method, rng))
    if set(original) != set(changed):
        raise Violation(
            'objects change by {}: sizes {} and {}'.format(
                names, sorted(map(len, original)), sorted(map(len, changed))
            ), box=box, fs=fs, new_box=frame.box, new_fs=frame.fs, positions=pts
        )
    tol = 1e-11 * frame.scale
    for group, obj1 in original.items():
        obj2 = changed[group]
        obs.count('objects')
        arr = pts[sorted(group)]
        if obj1.dimension == 0 and obj2.dimension == 0 and compact(box, arr, fs):
            obs.count('points_compared')
            image = frame.image(np.asarray(obj1.shape.position, dtype=float))
            factor = frame.fs / fs
            err = w.brute_dist(frame.box, image, np.asarray(obj2.shape.position, dtype=float))
            low, size = w.box_arrays(box)
            limit = tol + 1e-11 * factor * float(np.max(np.abs(low)) + np.max(size))
            if not err <= limit:
                raise Violation(
                    'position of a nodal point changes by {}'.format(names), box=box, new_box=frame.box,
                    positions=arr, point=obj1.shape.position, expected=image, found=obj2.shape.position
                )
        if dims is not None:
            feat = scene['features'][dims[min(group)]]
            obs.count('dims_compared')
            if obj1.dimension != obj2.dimension:
                raise Violation(
                    'dimension of {} changes by {}: {} and {}'.format(
                        feat['kind'], names, obj1.dimension, obj2.dimension
                    ), box=box, fs=fs, new_box=frame.box, positions=arr
                )
            if obj1.dimension == 1:
                obs.count('names_compared')
                if obj1.shape.shape_name != obj2.shape.shape_name:
                    raise Violation(
                        'name of {} changes by {} (method {}): {} and {}'.format(
                            feat['kind'], names, method, obj1.shape.shape_name, obj2.shape.shape_name
                        ), box=box, fs=fs, new_box=frame.box, positions=arr
                    )
    obs.key(names, len(frame.box['limits']), sorted(map(len, original))[-4:])
    obs.sample = dict(box=box, transformations=names, groups=sorted(map(len, original)), method=method)
