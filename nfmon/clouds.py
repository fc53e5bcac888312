"""
Sets of positions: arbitrary ones, and dense samplings of features with known
dimension and shape.
"""
import numpy as np

from nodefinder.coordinate_system import CoordinateSystem

from . import world as w


def system(box):
    return CoordinateSystem(limits=[tuple(l) for l in box['limits']], periodic=box['periodic'])


def wrap(box, pos):
    """Mapped into the limits of a periodic box."""
    low, size = w.box_arrays(box)
    if not box['periodic']:
        return pos
    rel = np.mod(pos - low, size)
    return rel + low


# ------------------------------------------------------------------ arbitrary


def random_cloud(rng, box, *, num=None, duplicates=True):
    """An arbitrary set of positions in the box, as list of tuples."""
    low, size = w.box_arrays(box)
    dim = len(low)
    if num is None:
        num = int(w.pick(rng, [0, 1, 2, 5, 20, 60], [1, 1, 1, 3, 6, 5]))
    kind = w.pick(rng, ['uniform', 'groups', 'grid', 'shared', 'boundary', 'chain'])
    frac = rng.random((num, dim))
    if kind == 'groups' and num:
        centers = rng.random((int(rng.integers(1, 5)), dim))
        which = rng.integers(len(centers), size=num)
        frac = centers[which] + rng.normal(size=(num, dim)) * 10**rng.uniform(-4, -1)
    elif kind == 'grid':
        div = int(rng.integers(2, 9))
        frac = rng.integers(0, div, size=(num, dim)) / div
    elif kind == 'shared' and num:
        col = rng.integers(dim)
        frac[:, col] = frac[0, col]
    elif kind == 'boundary' and num:
        col = rng.integers(dim)
        frac[:, col] = np.where(rng.random(num) < 0.5, 1, -1) * 10**rng.uniform(-9, -1, size=num)
    elif kind == 'chain' and num:
        step = rng.normal(size=dim)
        step *= 10**rng.uniform(-2, -1) / np.linalg.norm(step)
        frac = rng.random(dim) + step * np.arange(num)[:, None]
    if box['periodic']:
        frac = np.mod(frac, 1)
    else:
        frac = np.clip(frac, -0.5, 1.5)
    pos = low + frac * size
    res = [tuple(float(v) for v in p) for p in pos]
    if duplicates and res and rng.random() < 0.5:
        res += [res[int(rng.integers(len(res)))] for _ in range(int(rng.integers(1, 5)))]
    return res


def brute_clusters(box, positions, fs, *, margin=1e-9):
    """
    Connected groups of the distinct positions: (list of sets, decided), where
    decided is False if the groups depend on rounding.
    """
    unique = list(dict.fromkeys(tuple(p) for p in positions))
    if not unique:
        return [], True
    arr = np.array(unique, dtype=float)
    low, size = w.box_arrays(box)
    eps = 1e-13 * (np.max(np.abs(low)) + np.max(size)) * 10
    dist = np.array([w.brute_dist(box, p, arr) for p in arr]).reshape(len(arr), len(arr))
    out = []
    for limit in (fs * (1 - margin) - eps, fs * (1 + margin) + eps):
        near = dist <= limit
        left = set(range(len(arr)))
        groups = []
        while left:
            todo = [left.pop()]
            group = set(todo)
            while todo:
                idx = todo.pop()
                new = [i for i in np.flatnonzero(near[idx]) if i in left]
                for i in new:
                    left.discard(i)
                group.update(new)
                todo.extend(new)
            groups.append(frozenset(unique[i] for i in group))
        out.append(set(groups))
    return list(out[1]), out[0] == out[1]


# ------------------------------------------------------------------ features


def _rotation(rng, dim):
    mat, _ = np.linalg.qr(rng.normal(size=(dim, dim)))
    return mat


def _embed(rng, pts, dim):
    """Put points of lower dimension into `dim` dimensions and rotate them."""
    full = np.zeros((len(pts), dim))
    full[:, :pts.shape[1]] = pts
    return full @ _rotation(rng, dim).T


def _jitter(rng, pts, amount):
    return pts + rng.uniform(-amount, amount, size=pts.shape)


def sample_closed_curve(curve, spacing, rng):
    """Points on the curve t -> position, t in [0, 1), evenly spaced."""
    t = np.linspace(0, 1, 4001)
    p = np.array([curve(x) for x in t])
    seg = np.linalg.norm(np.diff(p, axis=0), axis=1)
    s = np.concatenate([[0], np.cumsum(seg)])
    num = max(6, int(np.ceil(s[-1] / spacing)))
    at = (np.arange(num) + rng.random()) / num * s[-1]
    return np.array([np.interp(at, s, p[:, i]) for i in range(p.shape[1])]).T


def sample_open_curve(curve, spacing):
    t = np.linspace(0, 1, 4001)
    p = np.array([curve(x) for x in t])
    seg = np.linalg.norm(np.diff(p, axis=0), axis=1)
    s = np.concatenate([[0], np.cumsum(seg)])
    num = max(6, int(np.ceil(s[-1] / spacing)))
    at = np.linspace(0, s[-1], num)
    return np.array([np.interp(at, s, p[:, i]) for i in range(p.shape[1])]).T


def point_feature(rng, dim, fs):
    num = int(rng.integers(1, 20))
    pts = rng.normal(size=(num, dim))
    norm = np.linalg.norm(pts, axis=1, keepdims=True)
    pts = pts / norm * rng.random((num, 1)) * fs * 10**rng.uniform(-6, -1.3)
    return pts


def line_feature(rng, dim, fs, kind, *, spacing=None, noise=None):
    """Closed or open curve with radius of curvature of at least 1.5 fs."""
    spacing = fs * (rng.uniform(0.12, 0.3) if spacing is None else spacing)
    noise = rng.uniform(0, 0.02) if noise is None else noise
    if kind == 'circle':
        r = fs * rng.uniform(1.6, 4)
        pts = sample_closed_curve(
            lambda t: np.array([r * np.cos(2 * np.pi * t), r * np.sin(2 * np.pi * t)]), spacing, rng
        )
    elif kind == 'ellipse':
        a = fs * rng.uniform(2.6, 5)
        b = a * rng.uniform(0.8, 1)
        pts = sample_closed_curve(
            lambda t: np.array([a * np.cos(2 * np.pi * t), b * np.sin(2 * np.pi * t)]), spacing, rng
        )
    elif kind == 'straight':
        length = fs * rng.uniform(4, 12)
        pts = sample_open_curve(lambda t: np.array([length * (t - 0.5)]), spacing)
    elif kind == 'arc':
        r = fs * rng.uniform(2.5, 5)
        angle = rng.uniform(0.6, 1.3) * np.pi
        pts = sample_open_curve(
            lambda t: np.array([r * np.cos(angle * t), r * np.sin(angle * t)]), spacing
        )
        pts = pts - np.mean(pts, axis=0)
    elif kind == 'helix':
        r = fs * rng.uniform(2, 3)
        pitch = fs * rng.uniform(4, 6)
        turns = rng.uniform(0.6, 1.5)
        pts = sample_open_curve(
            lambda t: np.array([
                r * np.cos(2 * np.pi * turns * t), r * np.sin(2 * np.pi * turns * t), pitch * turns * (t - 0.5)
            ]), spacing
        )
    else:
        raise ValueError(kind)
    pts = _embed(rng, pts, dim)
    return _jitter(rng, pts, noise * fs)


def _grid(shape, spacing):
    axes = [(np.arange(n) - (n - 1) / 2) * spacing for n in shape]
    return np.array(np.meshgrid(*axes, indexing='ij')).reshape(len(shape), -1).T


def surface_feature(rng, dim, fs, kind):
    spacing = fs * rng.uniform(0.3, 0.4)
    if kind == 'sphere':
        r = fs * rng.uniform(2.8, 3.4)
        num = int(4 * np.pi * r**2 / spacing**2)
        i = np.arange(num) + 0.5
        phi = np.pi * (1 + 5**0.5) * i
        z = 1 - 2 * i / num
        q = np.sqrt(1 - z**2)
        pts = r * np.array([q * np.cos(phi), q * np.sin(phi), z]).T
    elif kind == 'patch':
        num = int(np.ceil(rng.uniform(3.5, 5.) * fs / spacing))
        pts = _grid((num, num), spacing)
        pts = _jitter(rng, pts, 0.1 * spacing)
    else:
        raise ValueError(kind)
    pts = _embed(rng, pts, dim)
    return _jitter(rng, pts, 0.01 * fs)


def volume_feature(rng, dim, fs):
    assert dim == 3
    spacing = fs * rng.uniform(0.45, 0.55)
    num = int(np.ceil(rng.uniform(3.5, 4.2) * fs / spacing))
    pts = _grid((num, ) * 3, spacing)
    pts = _jitter(rng, pts, 0.1 * spacing)
    return pts @ _rotation(rng, 3).T


LINE_NAMES = dict(circle='CLOSED LOOP', ellipse='CLOSED LOOP', straight='OPEN LINE',
                  arc='OPEN LINE', helix='OPEN LINE')


def feature(rng, dim, fs, *, dims=(0, 1, 2, 3)):
    """
    Random feature around the origin:
    dict(dim, kind, name, pts) where name is the line name or None.
    """
    d = int(w.pick(rng, [x for x in dims if x <= dim]))
    kind, name = None, None
    if d == 0:
        kind = 'point'
        pts = point_feature(rng, dim, fs)
    elif d == 1:
        kinds = ['straight']
        if dim >= 2:
            kinds = ['circle', 'ellipse', 'straight', 'arc']
        if dim >= 3:
            kinds.append('helix')
        kind = w.pick(rng, kinds)
        name = LINE_NAMES[kind]
        pts = line_feature(rng, dim, fs, kind)
    elif d == 2:
        kind = w.pick(rng, ['sphere', 'patch'] if dim == 3 else ['patch'])
        pts = surface_feature(rng, dim, fs, kind)
    else:
        kind = 'volume'
        pts = volume_feature(rng, dim, fs)
    center = (np.max(pts, axis=0) + np.min(pts, axis=0)) / 2
    return dict(dim=d, kind=kind, name=name, pts=pts - center)


def scene(rng, dim, *, dims=(0, 1, 2, 3), max_features=3, periodic=None, scale=None):
    """
    A box with separated features: dict(box, fs, features), each feature with its
    positions inside the box (wrapped if periodic).
    """
    if scale is None:
        scale = float(10**w.pick(rng, [rng.uniform(-2, 2), rng.uniform(-7, 7)]))
    num = int(rng.integers(1, max_features + 1))
    feats = [feature(rng, dim, scale, dims=dims) for _ in range(num)]
    return place(rng, dim, feats, scale, periodic)


def place(rng, dim, feats, scale, periodic=None):
    """Put features one after the other into a box. The feature size is `scale`."""
    fs = scale
    extent = np.array([np.ptp(f['pts'], axis=0) + 2.6 * fs for f in feats])
    periodic = bool(rng.random() < 0.5) if periodic is None else periodic
    # the features are placed one after the other along one axis
    axis = int(rng.integers(dim))
    size = np.max(extent, axis=0) * rng.uniform(1., 1.3, size=dim)
    size[axis] = np.sum(extent[:, axis]) * rng.uniform(1., 1.2)
    low = scale * rng.uniform(-30, 30, size=dim) if rng.random() < 0.7 else np.zeros(dim)
    box = dict(limits=[[float(l), float(l + s)] for l, s in zip(low, size)], periodic=periodic)
    low, size = w.box_arrays(box)
    start = 0.
    shift = rng.random(dim) * size if periodic else np.zeros(dim)
    for f, e in zip(feats, extent):
        center = low + size / 2
        center[axis] = low[axis] + start + e[axis] / 2
        start += e[axis]
        f['pts'] = wrap(box, f['pts'] + center + shift)
    return dict(box=box, fs=fs, features=feats)


def path_of_three(rng, dim, fs):
    """
    Three positions of which two are connected only to the one between them, and
    which span a large triangle.
    """
    while True:
        first, second = rng.uniform(0.8, 0.95, size=2) * fs
        angle = np.deg2rad(rng.uniform(75, 115))
        pts = np.array([
            [first, 0.], [0., 0.], [second * np.cos(angle), second * np.sin(angle)]
        ])
        if np.linalg.norm(pts[0] - pts[2]) > 1.05 * fs:
            return dict(kind='path_of_three', pts=_embed(rng, pts, dim))


def line_with_patch(rng, dim, fs):
    """A line of which a small part is widened to a surface."""
    spacing = rng.uniform(0.1, 0.15) * fs
    radius = rng.uniform(0.8, 1.2) * fs
    grid = _grid([15, 15], 0.25 * fs) - 1.75 * fs
    patch = grid[np.linalg.norm(grid, axis=-1) <= radius]
    num = int(6 * len(patch) + 4 * radius / spacing)
    line = np.zeros((num, 2))
    line[:, 0] = spacing * (np.arange(num) - int(rng.integers(num)))
    pts = _jitter(rng, np.concatenate([patch, line]), 0.01 * fs)
    return dict(kind='line_with_patch', pts=_embed(rng, pts, dim))


def tuples(pts):
    return [tuple(float(v) for v in p) for p in pts]
