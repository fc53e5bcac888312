"""Gap functions which are zero where smooth functions vanish, with sampled zeros."""
import numpy as np
from scipy.spatial import cKDTree
from scipy.sparse import coo_matrix
from scipy.sparse.csgraph import connected_components

from . import world as w


class Smooth:
    """
    Functions of a unit torus (or of the plane or space around the box) whose
    common zeros are lines or surfaces. Works with arrays of positions.
    """
    def __init__(self, rng, space, num, periodic):
        self.space = space
        self.num = num
        self.periodic = periodic
        self.modes = []
        for _ in range(num):
            waves = []
            for _ in range(int(rng.integers(2, 6))):
                k = rng.integers(-1, 2, size=space)
                if not np.any(k):
                    k[rng.integers(space)] = 1
                if rng.random() < 0.3:
                    k = k * int(rng.integers(1, 3))
                waves.append(k)
            waves = np.array(waves, dtype=float)
            amplitudes = rng.normal(size=len(waves)) / np.linalg.norm(waves, axis=1)**2.5
            phases = rng.uniform(0, 2 * np.pi, size=len(waves))
            self.modes.append((waves, amplitudes, phases, float(rng.uniform(-0.4, 0.4))))
        self.axes = rng.uniform(0.18, 0.35, size=space)
        self.weight = float(rng.uniform(0.03, 0.15))
        self.normal = rng.normal(size=space)
        self.normal /= np.linalg.norm(self.normal)

    def _trig(self, i, x):
        waves, amplitudes, phases, offset = self.modes[i]
        arg = 2 * np.pi * (x @ waves.T) + phases
        val = np.cos(arg) @ amplitudes + offset
        grad = -(np.sin(arg) * amplitudes) @ (2 * np.pi * waves)
        return val, grad

    def values(self, x):
        """(values [n, num], gradients [n, num, space]) for positions in units of the box."""
        vals, grads = [], []
        for i in range(self.num):
            val, grad = self._trig(i, x)
            if not self.periodic:
                # an ellipsoid and a plane, both deformed
                d = x - 0.5
                if i == 0:
                    q = d / self.axes
                    half = 0.5 * float(np.mean(self.axes))
                    val = half * (np.sum(q**2, axis=-1) - 1 + self.weight * val)
                    grad = half * (2 * q / self.axes + self.weight * grad)
                else:
                    val = d @ self.normal + 0.2 * self.weight * val
                    grad = self.normal + 0.2 * self.weight * grad
            vals.append(val)
            grads.append(grad)
        return np.stack(vals, axis=-1), np.stack(grads, axis=-2)


class Part:
    """Connected part of the zeros."""
    kind = 'level'

    def __init__(self, dim, samples, closed):
        self.dim = dim
        self.points = samples
        self.name = 'CLOSED LOOP' if closed else None
        self.center = samples[0]

    def accuracy(self, measure):
        return measure


def connection(delta, size, periodic):
    return delta - size * np.round(delta / size) if periodic else delta


def newton(fct, x, size, steps=12):
    """Move positions (in units of the box) to the zeros, along the gradients."""
    for _ in range(steps):
        val, grad = fct.values(x)
        grad = grad / size
        gram = np.einsum('nik,njk->nij', grad, grad) + 1e-300 * np.eye(fct.num)
        coeff = np.linalg.solve(gram, val[..., None])[..., 0]
        x = x - np.einsum('ni,nik->nk', coeff, grad) / size
    return x


class Level:
    """
    A box with smooth functions, whose common zeros are lines with a reach of at
    least two feature sizes.
    """
    def __init__(self, rng, space, num, periodic, *, heavy=False):
        self.ok = False
        self.space, self.dim = space, space - num
        self.periodic = periodic
        self.scale = scale = float(10**rng.uniform(-3, 3))
        self.low = scale * rng.uniform(-10, 10, size=space)
        self.size = scale * rng.uniform(0.7, 1.4, size=space)
    
        self.fct = fct = Smooth(rng, space, num, periodic)
        self.box = dict(
            limits=[[float(l), float(l + s)] for l, s in zip(self.low, self.size)], periodic=periodic
        )
        rel = self.size / scale
        samples = self._zeros(fct, rel)
        if samples is None:
            return
        # spacing of the samples, normals and local reach, in units of scale
        reach = self._reach(samples, rel)
        if reach is None:
            return
        fs = reach / rng.uniform(2., 3.)
        if self.dim == 1 and space == 2:
            total = len(np.unique(np.floor(samples * rel / (fs / 3)), axis=0))
        else:
            total = len(np.unique(np.floor(samples * rel / (fs / 2)), axis=0))
        self.total = total
        if total > {(2, 1): 260, (3, 1): 110}[(space, self.dim)] * (3 if heavy else 1):
            return
        if fs > 0.2 * np.min(rel):
            fs = 0.2 * np.min(rel)
        if self.spacing > 0.15 * fs:
            return
        val, grad = fct.values(samples)
        grad = grad / rel
        sing = np.linalg.svd(grad, compute_uv=False)
        self.slope_min, self.slope_max = float(np.min(sing)), float(np.max(sing))
        if self.slope_max > 6 * self.slope_min:
            return
        # the functions are close to linear on the scale of the feature size
        for _ in range(4):
            d = rng.normal(size=samples.shape)
            d *= 0.5 * fs / np.linalg.norm(d, axis=-1, keepdims=True)
            _, other = fct.values(samples + d / rel)
            change = np.linalg.norm((other / rel - grad).reshape(len(samples), -1), axis=-1)
            if np.max(change) > 0.4 * self.slope_min:
                return
        self.fs = float(fs * scale)
        self.parts = self._parts(samples, rel, fs)
        self.slope = float(10**rng.uniform(-2, 2))
        acc = fs * 10**rng.uniform(-4, -1.5)
        self.accuracy = float(acc * scale)
        self.threshold = float(self.slope * acc * self.slope_min)
        self.xtol = None if acc > 0.011 * fs else float(self.accuracy * rng.uniform(0.3, 0.9))
        self.norm = w.pick(rng, ['sum', 'max', 'square']) if num > 1 else 'sum'
        if self.norm == 'square':
            self.threshold = float(self.slope * (acc * self.slope_min)**2)
        self.ok = True

    def _zeros(self, fct, rel):
        """Positions on the zeros, from a grid which is refined near them."""
        num, levels = {(2, 1): (40, 3), (3, 1): (20, 4)}[(self.space, self.dim)]
        x = np.stack(np.meshgrid(*[(np.arange(num) + 0.5) / num] * self.space, indexing='ij'), axis=-1)
        x = x.reshape(-1, self.space)
        for level in range(levels):
            val, grad = fct.values(x)
            norm = np.linalg.norm(grad / rel, axis=-1)
            step = float(np.max(rel)) / num
            near = np.all(np.abs(val) < (4, 3, 2, 2)[level] * step * norm, axis=-1)
            if not np.any(near):
                return None
            start = x[near]
            if level == levels - 1:
                break
            if len(start) > 30000:
                return None
            num = num * 2
            offsets = np.stack(
                np.meshgrid(*[[-0.5 / num, 0.5 / num]] * self.space, indexing='ij'), axis=-1
            ).reshape(-1, self.space)
            x = (start[:, None] + offsets).reshape(-1, self.space)
        with np.errstate(all='ignore'):
            try:
                end = newton(fct, start, rel)
            except np.linalg.LinAlgError:
                return None
            val, grad = fct.values(end)
        good = np.all(np.isfinite(end), axis=-1)
        good &= np.all(np.abs(val) < 1e-10 * (1 + np.linalg.norm(grad, axis=-1)), axis=-1)
        good &= np.linalg.norm((end - start) * rel, axis=-1) < 4 * step
        if np.mean(good) < 0.7:
            return None
        end = end[good]
        if self.periodic:
            end = end % 1.
        # thin out
        self.spacing = 1.2 * step
        cells = np.floor(end * rel / ((0.25 if self.space == 2 else 0.7) * step)).astype(int)
        _, index = np.unique(cells, axis=0, return_index=True)
        end = end[np.sort(index)]
        if not self.periodic and (np.min(end) < 0.02 or np.max(end) > 0.98):
            return None
        return end if 20 < len(end) < 20000 else None

    def _tree(self, samples, rel):
        if self.periodic:
            return cKDTree(np.minimum(samples * rel, rel * (1 - 1e-15)), boxsize=rel)
        return cKDTree(samples * rel)

    def _reach(self, samples, rel):
        """Federer's formula, for the sampled positions."""
        tree = self._tree(samples, rel)
        _, grad = self.fct.values(samples)
        normals = np.linalg.qr(np.swapaxes(grad / rel, -1, -2))[0]
        best = 0.2 * float(np.min(rel))
        pairs = tree.query_pairs(2 * best, output_type='ndarray')
        if len(pairs) > 4000000:
            return None
        i, j = pairs.T
        d = connection((samples[j] - samples[i]) * rel, rel, self.periodic)
        dist2 = np.sum(d**2, axis=-1)
        for a in (i, j):
            across = np.linalg.norm(np.einsum('nk,nkc->nc', d, normals[a]), axis=-1)
            use = dist2 > (0.3 * self.spacing)**2
            with np.errstate(divide='ignore'):
                reach = dist2[use] / (2 * across[use])
            if len(reach):
                best = min(best, float(np.min(reach)))
        return best

    def _parts(self, samples, rel, fs):
        tree = self._tree(samples, rel)
        pairs = tree.query_pairs(max(2 * self.spacing, 0.3 * fs), output_type='ndarray')
        num = len(samples)
        graph = coo_matrix((np.ones(len(pairs)), (pairs[:, 0], pairs[:, 1])), shape=(num, num))
        count, labels = connected_components(graph, directed=False)
        return [
            Part(self.dim, self.low + self.size * samples[labels == c], self.dim == 1)
            for c in range(count)
        ]

    def __call__(self, pos):
        x = (np.asarray(pos, dtype=float) - self.low) / self.size
        val = self.fct.values(x[None, :])[0][0]
        if self.norm == 'max':
            return self.slope * float(np.max(np.abs(val)))
        if self.norm == 'square':
            return self.slope * float(np.sum(val**2))
        return self.slope * float(np.linalg.norm(val))

    def samples(self, part):
        res = part.points
        if self.periodic:
            res = self.low + np.mod(res - self.low, self.size)
        return res


def random_level(rng, *, heavy=False, tries=30):
    space = int(w.pick(rng, [2, 3], [4, 1]))
    num = space - 1
    periodic = bool(rng.random() < (0.6 if space == 2 else 0.1))
    for _ in range(tries if space == 2 or not periodic else 10):
        level = Level(rng, space, num, periodic, heavy=heavy)
        if level.ok:
            return level
    return None
