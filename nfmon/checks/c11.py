"""C11: the coordinate system measures distances and maps positions consistently."""
import itertools

import numpy as np

from nodefinder.coordinate_system import CoordinateSystem

from .. import world as w
from ..core import Violation

PROPERTY = 'C11'
LEVEL = 'exploration'
RULE = (
    'random boxes (dimension 1 to 5, aspect ratio up to 1000, lengths from 1e-6 to 1e6, '
    'limits in any order, far from the origin) and pairs, arrays and groups of positions '
    '(inside, at and next to the limits, half a period apart, several periods outside); '
    'every value returned by the public methods is compared with the minimum over '
    'explicitly enumerated periodic images, and the laws (symmetry, triangle inequality, '
    'shifts, inverse functions, broadcasting) are asserted. Distinct by box and kind of '
    'positions.'
)
REQUIRED = {
    'distances': 60000, 'vectors': 25000, 'vector_errors': 0, 'frac': 20000, 'normalized': 20000,
    'averages': 4000, 'average_across_boundary': 500, 'triangles': 20000, 'half_period': 2000,
    'at_limit': 2000,
}
BUDGET = {'quick': 40, 'thorough': 400}


def cases(seed, tier):
    num = 5000 if tier == "quick" else 70000
    for i in range(num):
        yield dict(kind=['pairs', 'average', 'map'][i % 3], seed=seed * 1000003 + i)


def make_box(rng):
    dim = int(w.pick(rng, [1, 2, 3, 4, 5], [2, 4, 4, 1, 1]))
    scale = 10**rng.uniform(-6, 6) if rng.random() < 0.5 else 1.
    aspect = w.pick(rng, [1., 5., 1000.])
    size = scale * aspect**rng.random(dim)
    low = size * w.pick(rng, [0., 1., 1000.]) * rng.uniform(-1, 1, size=dim)
    if rng.random() < 0.2:
        size = np.round(size / scale) * scale
        low = np.round(low / scale) * scale
    limits = [[float(l), float(l + s)] for l, s in zip(low, size)]
    given = [l[::-1] if rng.random() < 0.3 else l for l in limits]
    if rng.random() < 0.3:
        given = np.array(given)
    elif rng.random() < 0.5:
        given = [tuple(l) for l in given]
    return dict(limits=limits, periodic=bool(rng.random() < 0.65)), given


def make_system(rng, box, given):
    """Also with the default boundary condition, which is periodic."""
    if box['periodic'] and rng.random() < 0.3:
        return CoordinateSystem(limits=given)
    return CoordinateSystem(limits=given, periodic=box['periodic'])


def position(rng, box, obs, base=None):
    low, size = w.box_arrays(box)
    dim = len(low)
    kind = w.pick(rng, ['in', 'limit', 'near_limit', 'half', 'outside', 'same', 'center'])
    pos = low + size * rng.random(dim)
    if kind == 'limit':
        which = rng.integers(0, 3, size=dim)
        pos = np.where(which == 0, low, np.where(which == 1, low + size, pos))
        obs.count('at_limit')
    elif kind == 'near_limit':
        which = rng.integers(0, 2, size=dim)
        pos = low + which * size + size * rng.choice([-1, 1], size=dim) * 10**rng.uniform(-17, -3, size=dim)
    elif kind == 'outside':
        pos = pos + size * rng.integers(-5, 6, size=dim)
    elif kind == 'center':
        pos = low + size / 2
    elif base is not None and kind == 'half':
        pos = base + size / 2 * rng.integers(-3, 4, size=dim)
        obs.count('half_period')
    elif base is not None and kind == 'same':
        pos = base + size * (rng.integers(-1, 2, size=dim) if rng.random() < 0.5 else 0)
    return pos


def tolerance(box, *positions):
    low, size = w.box_arrays(box)
    res = np.max(np.abs(low)) + np.max(size)
    for pos in positions:
        res = res + np.max(np.abs(pos))
    return 1e-13 * float(res) * 5


def images_dist(box, pos1, pos2):
    """Minimum over explicitly enumerated images."""
    _, size = w.box_arrays(box)
    delta = np.asarray(pos2) - np.asarray(pos1)
    if not box['periodic']:
        return float(np.sqrt(np.sum(delta**2)))
    base = np.round(delta / size)
    best = np.inf
    for offset in itertools.product([-1, 0, 1], repeat=len(size)):
        vec = delta - (base + offset) * size
        best = min(best, np.sqrt(np.sum(vec**2)))
    return float(best)


def fail(message, box, **details):
    raise Violation(message, box=box, **details)


def copies(*arrays):
    return [np.array(a) for a in arrays]


def run_pairs(case, obs):
    rng = w.rng_of(case)
    box, given = make_box(rng)
    system = make_system(rng, box, given)
    low, size = w.box_arrays(box)
    dim = len(low)
    scale = float(np.max(np.abs(low)) + np.max(size))
    if not (
        np.allclose(system.limits, np.array([low, low + size]).T, rtol=0, atol=1e-13 * scale) and
        np.allclose(system.size, size, rtol=0, atol=1e-13 * scale) and system.dim == dim and
        bool(system.periodic) == box['periodic']
    ):
        fail('limits, size, dim or periodic of the coordinate system', box, given=given,
             limits=system.limits, size=system.size)
    for _ in range(15):
        p = position(rng, box, obs)
        q = position(rng, box, obs, p)
        r = position(rng, box, obs, q)
        p0, q0, r0 = copies(p, q, r)
        tol = tolerance(box, p, q, r)
        d = {}
        for name, a, b in [('pq', p, q), ('qr', q, r), ('pr', p, r), ('qp', q, p)]:
            val = float(system.distance(a, b))
            ref = images_dist(box, a, b)
            obs.count('distances')
            if not abs(val - ref) <= tol:
                fail('distance is {!r}, shortest connection has {!r}'.format(val, ref), box, a=a, b=b)
            d[name] = val
        obs.count('triangles')
        if abs(d['pq'] - d['qp']) > tol or d['pr'] > d['pq'] + d['qr'] + 2 * tol:
            fail('distance is not symmetric, or violates the triangle inequality', box, d=d, p=p, q=q, r=r)
        if box['periodic']:
            n = rng.integers(-3, 4, size=dim)
            tol2 = tolerance(box, p, q, n * size)
            val = float(system.distance(p + n * size, q))
            obs.count('distances')
            if abs(val - d['pq']) > tol2:
                fail('distance changes when moved by periods', box, p=p, q=q, n=n, d=d['pq'], moved=val)
        vec = np.asarray(system.connecting_vector(p, q))
        obs.count('vectors')
        check_vector(box, p, q, vec, tol)
        if not all(np.array_equal(a, b) for a, b in zip((p, q, r), (p0, q0, r0))):
            fail('positions are modified', box)
    # arrays of positions
    num = int(rng.integers(1, 20))
    base = position(rng, box, obs)
    arr = np.array([position(rng, box, obs, base) for _ in range(num)])
    other = np.array([position(rng, box, obs, base) for _ in range(num)])
    tol = tolerance(box, arr, other, base)
    for name, a, b in [('one-many', base, arr), ('many-one', arr, base), ('many-many', arr, other)]:
        val = np.asarray(system.distance(a, b))
        vec = np.asarray(system.connecting_vector(a, b))
        aa, bb = np.broadcast_arrays(a, b)
        if val.shape != (num, ) or vec.shape != (num, dim):
            fail('shape of the result for arrays ({})'.format(name), box, distance=val.shape, vec=vec.shape)
        for x, y, v, c in zip(aa, bb, val, vec):
            obs.count('distances')
            obs.count('vectors')
            if not abs(v - images_dist(box, x, y)) <= tol:
                fail('distance for arrays ({})'.format(name), box, a=x, b=y, value=v)
            check_vector(box, x, y, c, tol)
    obs.key(dim, box['periodic'], round(np.log10(scale)), round(np.log10(np.max(size) / np.min(size))))
    obs.sample = dict(box=box, array=num)


def check_vector(box, p, q, vec, tol):
    """`vec` leads from p to q and has minimum length."""
    _, size = w.box_arrays(box)
    ref = images_dist(box, p, q)
    if np.shape(vec) != np.shape(p):
        fail('shape of connecting vector', box, vec=vec)
    if not abs(np.sqrt(np.sum(vec**2)) - ref) <= tol:
        fail('connecting vector is not the shortest', box, p=p, q=q, vec=vec, length=ref)
    rest = p + vec - q
    if box['periodic']:
        rest = rest - np.round(rest / size) * size
    if not np.all(np.abs(rest) <= tol):
        fail('connecting vector does not lead to the second position', box, p=p, q=q, vec=vec)


def run_map(case, obs):
    rng = w.rng_of(case)
    box, given = make_box(rng)
    system = make_system(rng, box, given)
    low, size = w.box_arrays(box)
    scale = float(np.max(np.abs(low)) + np.max(size))
    for _ in range(25):
        pos = position(rng, box, obs)
        if rng.random() < 0.3:
            pos = np.array([pos, position(rng, box, obs)])
        before = np.array(pos)
        tol = tolerance(box, pos)
        frac = np.asarray(system.get_frac(pos))
        obs.count('frac')
        ftol = tol / size
        if frac.shape != pos.shape:
            fail('shape of fractional coordinates', box, pos=pos, frac=frac)
        ref = (pos - low) / size
        delta = frac - ref
        if box['periodic']:
            if not (np.all(frac >= 0) and np.all(frac < 1)):
                fail('periodic fractional coordinates are not in [0, 1)', box, pos=pos, frac=frac)
            delta = delta - np.round(delta)
        if not np.all(np.abs(delta) <= ftol):
            fail('fractional coordinates', box, pos=pos, frac=frac, expected=ref)
        back = np.asarray(system.get_pos(frac))
        if not np.all(equiv(box, back - pos) <= 2 * tol):
            fail('get_pos(get_frac(pos)) is not the position', box, pos=pos, back=back)
        frac2 = np.where(rng.random(np.shape(pos)) < 0.2, 0., rng.random(np.shape(pos)))
        real = np.asarray(system.get_pos(frac2))
        if not np.all(np.abs(real - (low + frac2 * size)) <= tol):
            fail('position of fractional coordinates', box, frac=frac2, pos=real)
        again = np.asarray(system.get_frac(real)) - frac2
        if box['periodic']:
            again = again - np.round(again)
        if not np.all(np.abs(again) <= 2 * ftol):
            fail('get_frac(get_pos(frac)) is not frac', box, frac=frac2, back=again + frac2)
        norm = np.asarray(system.normalize_position(pos))
        obs.count('normalized')
        if norm.shape != pos.shape:
            fail('shape of normalized position', box, pos=pos, norm=norm)
        if box['periodic']:
            eps = 1e-15 * scale * 4
            if not (np.all(norm >= low - eps) and np.all(norm <= low + size + eps)):
                fail('normalized position is outside of the limits', box, pos=pos, norm=norm)
            if not np.all(equiv(box, norm - pos) <= tol):
                fail('normalized position is not equivalent', box, pos=pos, norm=norm)
            twice = np.asarray(system.normalize_position(norm))
            if not np.all(np.abs(twice - norm) <= tol):
                fail('normalizing twice gives another position', box, pos=pos, norm=norm, twice=twice)
            shifted = np.asarray(system.normalize_position(pos + size * rng.integers(-3, 4, size=len(size))))
            if not np.all(equiv(box, norm - shifted) <= 4 * tol + 4e-13 * np.max(size)):
                fail('normalized position of an image is not equivalent', box, pos=pos, norm=norm,
                     shifted=shifted)
        elif not np.array_equal(norm, before):
            fail('position is changed by normalizing without periodicity', box, pos=pos, norm=norm)
        if not np.array_equal(pos, before):
            fail('position is modified', box)
    obs.key(len(low), box['periodic'], round(np.log10(scale)))
    obs.sample = dict(box=box)


def equiv(box, delta):
    _, size = w.box_arrays(box)
    if box['periodic']:
        delta = delta - np.round(delta / size) * size
    return np.abs(delta)


def run_average(case, obs):
    rng = w.rng_of(case)
    box, given = make_box(rng)
    system = make_system(rng, box, given)
    low, size = w.box_arrays(box)
    dim = len(low)
    for _ in range(12):
        center = position(rng, box, obs)
        num = int(rng.integers(1, 12))
        # at most a fifth of the period wide
        offsets = rng.uniform(-1, 1, size=(num, dim)) * size * 0.1 * 10**rng.uniform(-4, 0)
        true = center + offsets
        expect = np.mean(true, axis=0)
        given_pos = true
        if box['periodic']:
            given_pos = true + size * rng.integers(-1, 2, size=(num, dim)) * (rng.random() < 0.3)
            if rng.random() < 0.6:
                given_pos = np.array([w.brute_norm(box, p) for p in given_pos])
            span = np.ptp(given_pos, axis=0)
            if np.any(span > 0.5 * size):
                obs.count('average_across_boundary')
        order = rng.permutation(num)
        arg = given_pos[order]
        kind = rng.integers(3)
        before = np.array(arg)
        if kind == 1:
            arg = [np.array(p) for p in arg]
        tol = tolerance(box, true, given_pos) * 4
        res = np.asarray(system.average(arg), dtype=float)
        obs.count('averages')
        if res.shape != (dim, ):
            fail('shape of the average', box, res=res)
        if not np.all(equiv(box, res - expect) <= tol):
            fail('average of a group is not its centre', box, positions=before, average=res, expected=expect)
        if box['periodic']:
            eps = 4e-15 * float(np.max(np.abs(low)) + np.max(size))
            if not (np.all(res >= low - eps) and np.all(res <= low + size + eps)):
                fail('average is outside of the limits', box, positions=before, average=res)
        if not np.array_equal(np.array(arg), before):
            fail('positions are modified', box)
    obs.key(dim, box['periodic'], num)
    obs.sample = dict(box=box, last_group=num)


def run_case(case, obs):
    dict(pairs=run_pairs, average=run_average, map=run_map)[case['kind']](case, obs)
