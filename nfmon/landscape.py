"""Gap functions whose zeros are known points, lines and surfaces."""
import math

import numpy as np

from . import world as w


# lines which are not simple: three or four lines from a point, a circle with a diameter
JUNCTIONS = ('fork', 'cross', 'theta')


class Feature:
    """Point, line, surface or volume in units of the coordinates."""
    def __init__(self, kind, box, center, fs, *, rng):
        self.kind = kind
        self.box = box
        self.low, self.size = w.box_arrays(box)
        self.space = len(self.low)
        self.center = np.array(center, dtype=float)
        self.name = None
        space = self.space
        if kind == 'point':
            self.dim = 0
            self.stretch = rng.uniform(0.5, 2., size=space) if rng.random() < 0.5 else np.ones(space)
        elif kind == 'segment':
            self.dim = 1
            self.name = 'OPEN LINE'
            vec = rng.normal(size=space)
            self.half = 0.5 * fs * rng.uniform(5., 9.)
            self.vec = vec / np.linalg.norm(vec)
        elif kind == 'circle':
            self.dim = 1
            self.name = 'CLOSED LOOP'
            self.radius = fs * rng.uniform(1.75, 2.6)
            self.basis = np.linalg.qr(rng.normal(size=(space, space)))[0]
        elif kind == 'arc':
            self.dim = 1
            self.name = 'OPEN LINE'
            self.radius = fs * rng.uniform(2.5, 3.2)
            self.half = 0.5 * math.pi * rng.uniform(0.6, 1.2)
            self.basis = np.linalg.qr(rng.normal(size=(space, space)))[0]
        elif kind in JUNCTIONS:
            self.dim = 1
            self.name = 'UNKNOWN'
            self.radius = fs * rng.uniform(2.5, 4.)
            self.basis = np.linalg.qr(rng.normal(size=(space, space)))[0]
            first, second = rng.uniform(-0.3, 0.3, size=2)
            # directions of the lines which start at the center, number of ends of
            # the line, and of closed loops
            if kind == 'fork':
                angles, self.ends, self.loops = [0., 2.1 + first, 4.2 + second], 3, 0
            elif kind == 'cross':
                angles, self.ends, self.loops = [0., math.pi, 1.5 + first, 1.5 + first + math.pi], 4, 0
            else:
                angles, self.ends, self.loops = [0., math.pi], 0, 2
            self.directions = [
                math.cos(phi) * self.basis[:, 0] + math.sin(phi) * self.basis[:, 1] for phi in angles
            ]
        elif kind == 'span_line':
            self.dim = 1
            self.name = 'CLOSED LOOP'
            self.axis = int(np.argmin(np.abs(self.size / fs - 11.5)))
        elif kind == 'span_plane':
            self.dim = 2
            self.axis = int(np.argmax(self.size))
        elif kind == 'sphere':
            self.dim = 2
            self.radius = fs * rng.uniform(2.6, 2.8)
        else:
            raise ValueError(kind)

    def delta(self, pos):
        d = pos - self.center
        if self.box['periodic']:
            d = d - self.size * np.round(d / self.size)
        return d

    def measure(self, pos):
        """Value of the well-behaved function which is zero on the feature."""
        d = self.delta(np.asarray(pos, dtype=float))
        kind = self.kind
        if kind == 'point':
            d = d * self.stretch
            return math.sqrt(d @ d)
        if kind == 'segment':
            q = d - min(max(d @ self.vec, -self.half), self.half) * self.vec
            return math.sqrt(q @ q)
        if kind == 'circle':
            x = self.basis.T @ d
            return math.hypot(math.hypot(x[0], x[1]) - self.radius, math.sqrt(x[2:] @ x[2:]))
        if kind == 'arc':
            x = self.basis.T @ d
            phi = math.atan2(x[1], x[0])
            phi = min(max(phi, -self.half), self.half)
            q = x.copy()
            q[0] -= self.radius * math.cos(phi)
            q[1] -= self.radius * math.sin(phi)
            return math.sqrt(q @ q)
        if kind in JUNCTIONS:
            rest = [d - min(max(d @ v, 0.), self.radius) * v for v in self.directions]
            dist = min(math.sqrt(q @ q) for q in rest)
            if kind == 'theta':
                x = self.basis.T @ d
                dist = min(dist, math.hypot(math.hypot(x[0], x[1]) - self.radius, math.sqrt(x[2:] @ x[2:])))
            return dist
        if kind == 'span_line':
            q = np.delete(d, self.axis)
            return math.sqrt(q @ q)
        if kind == 'span_plane':
            return abs(d[self.axis])
        if kind == 'sphere':
            return abs(math.sqrt(d @ d) - self.radius)
        raise ValueError(kind)

    def accuracy(self, measure):
        """Largest distance from the feature for which the measure may be found."""
        if self.kind == 'point':
            return measure / float(np.min(self.stretch))
        return measure

    def samples(self, spacing):
        """Positions on the feature with at most this spacing, not normalized."""
        kind, space = self.kind, self.space
        if kind == 'point':
            return self.center[None, :]
        if kind == 'segment':
            t = np.linspace(-self.half, self.half, int(2 * self.half / spacing) + 2)
            return self.center + t[:, None] * self.vec
        if kind in ('circle', 'arc'):
            half = math.pi if kind == 'circle' else self.half
            t = np.linspace(-half, half, int(2 * half * self.radius / spacing) + 2)
            x = np.zeros((len(t), space))
            x[:, 0], x[:, 1] = self.radius * np.cos(t), self.radius * np.sin(t)
            return self.center + x @ self.basis.T
        if kind in JUNCTIONS:
            t = np.linspace(0, self.radius, int(self.radius / spacing) + 2)
            parts = [t[:, None] * v for v in self.directions]
            if kind == 'theta':
                phi = np.linspace(-math.pi, math.pi, int(2 * math.pi * self.radius / spacing) + 2)
                parts.append(self.radius * (
                    np.cos(phi)[:, None] * self.basis[:, 0] + np.sin(phi)[:, None] * self.basis[:, 1]
                ))
            return self.center + np.concatenate(parts)
        if kind == 'span_line':
            num = int(self.size[self.axis] / spacing) + 2
            res = np.repeat(self.center[None, :], num, axis=0)
            res[:, self.axis] += np.linspace(0, self.size[self.axis], num)
            return res
        if kind == 'span_plane':
            grids = [
                np.zeros(1) if a == self.axis else
                np.linspace(0, self.size[a], int(self.size[a] / spacing) + 2) for a in range(space)
            ]
            return self.center + np.array([g.ravel() for g in np.meshgrid(*grids, indexing='ij')]).T
        if kind == 'sphere':
            num = int(4 * np.pi * (self.radius / spacing)**2) + 2
            i = np.arange(num) + 0.5
            z = 1 - 2 * i / num
            q = np.sqrt(1 - z**2)
            phi = np.pi * (1 + 5**0.5) * i
            return self.center + self.radius * np.array([q * np.cos(phi), q * np.sin(phi), z]).T
        raise ValueError(kind)

    def radius_of(self):
        """Radius of a ball around the center which has the feature."""
        if self.kind == 'point':
            return 0.
        if self.kind == 'segment':
            return self.half
        return self.radius


class Landscape:
    """Gap function with the given features."""
    def __init__(self, features, *, slope, power):
        self.features = features
        self.slope = slope
        self.power = power

    def __call__(self, pos):
        return self.slope * min(f.measure(pos) for f in self.features)**self.power

    def accuracy(self, threshold):
        return (threshold / self.slope)**(1 / self.power)


SEPARATION = 2.6


def random_landscape(rng, *, heavy=False):
    """dict(box, fs, features, fct, mesh, threshold)"""
    space = int(w.pick(rng, [1, 2, 3, 4], [1, 5, 2.5, 0.3]))
    scale = float(10**w.pick(rng, [rng.uniform(-2, 2), rng.uniform(-4, 4)]))
    fs = scale
    periodic = bool(rng.random() < 0.5)
    low = scale * rng.uniform(-30, 30, size=space) if rng.random() < 0.7 else np.zeros(space)

    def make_box(size):
        return dict(limits=[[float(l), float(l + s)] for l, s in zip(low, size)], periodic=periodic)

    span = periodic and space in (2, 3) and rng.random() < (0.25 if space == 2 else 0.4)
    if span:
        kind = 'span_line' if space == 2 or rng.random() < 0.6 else 'span_plane'
        if kind == 'span_line':
            size = scale * rng.uniform(5, 7, size=space)
            size[rng.integers(space)] = scale * rng.uniform(10.5, 12.5)
        else:
            size = scale * rng.uniform(3.6, 4., size=space)
            size[rng.integers(space)] = scale * rng.uniform(5, 6)
        box = make_box(size)
        feats = [Feature(kind, box, low + rng.random(space) * size, fs, rng=rng)]
        if kind == 'span_line' and rng.random() < 0.3:
            # a point at a distance from the line
            center = feats[0].center + 0.5 * size
            center[feats[0].axis] = low[feats[0].axis] + rng.random() * size[feats[0].axis]
            feats.append(Feature('point', box, center, fs, rng=rng))
        separation = 2.5
    else:
        kinds = {
            1: ['point'],
            2: ['point', 'segment', 'circle', 'arc'],
            3: ['point', 'point', 'circle'] + ['segment', 'arc', 'sphere'] * heavy,
            4: ['point'],
        }[space]
        num = int(w.pick(rng, [1, 2, 3], [3, 2, 2])) if space < 4 else 1
        chosen = [w.pick(rng, kinds) for _ in range(num)]
        if space == 2 and rng.random() < 0.3:
            chosen[0] = w.pick(rng, JUNCTIONS)
        elif space == 3 and rng.random() < 0.15:
            chosen = [w.pick(rng, JUNCTIONS)]
            num = 1
        if space == 3:
            # at most one line
            lines = [k for k in chosen if k != 'point'][:1]
            chosen = lines + ['point'] * (num - len(lines))
        dummy = make_box(np.ones(space))
        feats = [Feature(k, dummy, np.zeros(space), fs, rng=rng) for k in chosen]
        gap = fs * rng.uniform(SEPARATION, 4.)
        if space == 3 and len(feats) > 1:
            gap = fs * rng.uniform(3.8, 5.)
        extent = np.array([2 * f.radius_of() + gap for f in feats])
        axis = int(rng.integers(space))
        size = np.full(space, np.max(extent)) * rng.uniform(1., 1.3, size=space)
        size[axis] = np.sum(extent)
        box = make_box(size)
        start = 0.
        # sometimes across the boundary
        shift = rng.random(space) * size if periodic else np.zeros(space)
        for f, e in zip(feats, extent):
            center = low + rng.uniform(0.45, 0.55, size=space) * size
            center[axis] = low[axis] + start + e / 2
            start += e
            center = center + shift
            f.box, f.low, f.size = box, low, size
            f.center = low + np.mod(center - low, size) if periodic else center
        separation = gap / fs
    if len(feats) == 1:
        # any starting point reaches the feature
        # (the ends of an open line only from one side)
        mesh = [int(v) for v in rng.integers(1, 5 if space < 4 else 3, size=space)]
        if feats[0].dim:
            fine = fs * (1.2 if feats[0].name == 'OPEN LINE' else 2. if feats[0].kind in JUNCTIONS else 4.)
            mesh = [
                max(m, space, int(np.ceil(s / fine)))
                for m, s in zip(mesh, w.box_arrays(box)[1])
            ]
    else:
        # each feature is reached from starting points close to it
        spacing = fs * separation / rng.uniform(2.2, 2.6)
        if space == 3:
            spacing = fs * separation / 1.8
        if any(f.name == 'OPEN LINE' or f.kind in JUNCTIONS for f in feats):
            spacing = min(spacing, 1.2 * fs)
        mesh = [int(np.ceil(s / spacing)) + (0 if periodic else 1) for s in w.box_arrays(box)[1]]
    slope = float(10**rng.uniform(-2, 2)) / scale
    power = int(w.pick(rng, [1, 2], [3, 1]))
    if power == 2:
        slope = slope / scale
    accuracy = fs * 10**rng.uniform(-4, -1.5)
    threshold = float(slope * accuracy**power)
    # the simplices have to be as small as the positions are accurate
    xtol = None if accuracy > 0.011 * fs else float(accuracy * rng.uniform(0.3, 0.9))
    return dict(
        xtol=xtol, box=box, fs=fs, features=feats, fct=Landscape(feats, slope=slope, power=power), mesh=mesh,
        threshold=threshold, accuracy=accuracy, space=space
    )
