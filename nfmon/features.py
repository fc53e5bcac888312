"""Scenes with features of known dimension and shape: more than `clouds.scene`."""
import numpy as np

from . import clouds
from . import world as w

# volume of the unit of spacing which keeps the number of neighbours moderate
SPAN_SPACING = {1: (0.12, 0.3), 2: (0.3, 0.4), 3: (0.45, 0.55)}


def span(rng, *, dims=(1, 2, 3), dim=None):
    """
    One feature which extends through the whole periodic box in some directions:
    dict(box, fs, features), as made by `clouds.scene`.
    """
    d = int(w.pick(rng, list(dims)))
    if dim is None:
        dim = int(rng.integers(d, 4))
    scale = float(10**w.pick(rng, [rng.uniform(-2, 2), rng.uniform(-7, 7)]))
    fs = scale
    axes = rng.permutation(dim)
    inside = axes[:d]
    count = {1: (10.5, 16.), 2: (4., 5.), 3: (3.6, 4.)}[d]
    size = scale * rng.uniform(4., 8., size=dim)
    size[inside] = scale * rng.uniform(*count, size=d)
    spacing = fs * rng.uniform(*SPAN_SPACING[d])
    num = [int(np.ceil(size[a] / spacing)) for a in inside]
    grids = np.meshgrid(*[np.arange(n) / n for n in num], indexing='ij')
    frac = np.array([g.ravel() for g in grids]).T
    pts = np.zeros((len(frac), dim))
    pts[:, inside] = frac * size[inside]
    # slow waves perpendicular to the feature
    for a in axes[d:]:
        for j, b in enumerate(inside):
            # radius of curvature of at least 2.5 fs
            amp = (size[b] / (2 * np.pi))**2 / (2.5 * fs) * rng.uniform(0, 1) / d
            amp = min(amp, 0.12 * size[a])
            pts[:, a] += amp * np.sin(2 * np.pi * (frac[:, j] + rng.random()))
    pts = pts + rng.uniform(-1, 1, size=pts.shape) * 0.02 * fs
    pts = pts + rng.random(dim) * size
    low = scale * rng.uniform(-30, 30, size=dim) if rng.random() < 0.7 else np.zeros(dim)
    box = dict(limits=[[float(l), float(l + s)] for l, s in zip(low, size)], periodic=True)
    pts = clouds.wrap(box, pts + low)
    feat = dict(dim=d, kind='span{}'.format(d), name='CLOSED LOOP' if d == 1 else None, pts=pts)
    return dict(box=box, fs=fs, features=[feat])


def any_scene(rng, *, dims=(0, 1, 2, 3), max_features=3, span_prob=0.2):
    if rng.random() < span_prob and max(dims) > 0:
        return span(rng, dims=[d for d in dims if d > 0])
    low = max(1, min(dims))
    dim = int(w.pick(rng, [d for d in (1, 2, 3) if d >= low]))
    return clouds.scene(rng, dim, dims=[d for d in dims if d <= dim], max_features=max_features)


def all_positions(rng, scene, shuffle=True):
    pts = [p for f in scene['features'] for p in clouds.tuples(f['pts'])]
    if shuffle:
        pts = [pts[i] for i in rng.permutation(len(pts))]
    return pts


def match(scene, result):
    """
    Pairs (feature, object), where the object has exactly the positions of the
    feature; None if they do not match.
    """
    by_pos = {frozenset(clouds.tuples(f['pts'])): f for f in scene['features']}
    out = []
    for obj in result:
        feat = by_pos.pop(frozenset(tuple(float(v) for v in p) for p in obj.positions), None)
        if feat is None:
            return None
        out.append((feat, obj))
    return None if by_pos else out
