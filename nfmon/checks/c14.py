"""C14: densely sampled features are assigned their true dimension."""
import os
import random
import warnings

import numpy as np

from nodefinder import identify

from .. import clouds, features
from .. import world as w
from ..core import Violation

PROPERTY = 'C14'
LEVEL = 'exploration'
RULE = (
    'scene: dense samples of points, straight and curved lines, flat and curved surfaces, '
    'volumes and features which extend through a periodic box, in one to three dimensions, '
    'randomly rotated, placed (also across boundaries), scaled and ordered; each identified '
    'object is matched with its feature. repeat: the same positions in other orders and '
    'with other states of the random number generator. arbitrary: random clouds, where the '
    'dimension is bounded by the space and None needs a warning. mixed: clusters where the '
    'dimension is not the same everywhere, but for at least two thirds of the positions. Distinct by the kinds of '
    'features, space dimension, periodicity and number of positions.'
)
REQUIRED = {
    'dim0': 500, 'dim1': 400, 'dim2': 250, 'dim3': 100, 'kind_sphere': 20, 'kind_helix': 15,
    'kind_span1': 20, 'kind_span2': 20, 'kind_span3': 20, 'across_boundary': 200, 'repeats': 100,
    'arbitrary_objects': 1000, 'mixed_path_of_three': 100, 'mixed_line_with_patch': 10,
}
BUDGET = {'quick': 100, 'thorough': 700}


def cases(seed, tier):
    num = 1800 if tier == 'quick' else 20000
    for i in range(num):
        yield dict(kind=['scene', 'scene', 'repeat', 'arbitrary', 'scene', 'mixed', 'repeat', 'arbitrary'][i % 8], seed=seed * 1000003 + i)


def _own_warning(caught):
    """Not a warning of one of the libraries, such as for an empty average."""
    return not any(
        part in ('numpy', 'scipy', 'networkx') for part in caught.filename.split(os.sep)
    )


def identified(positions, box, fs, method, obs):
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter('always')
        result = identify.run_from_positions(
            positions, coordinate_system=clouds.system(box), feature_size=fs, evaluate_line_method=method
        )
    nones = sum(1 for obj in result if obj.dimension is None)
    if nones:
        obs.count('undetermined', nones)
        if not any(_own_warning(c) for c in caught):
            raise Violation('undetermined dimension without a warning', box=box, fs=fs, positions=positions)
    limit = len(box['limits'])
    for obj in result:
        dim = obj.dimension
        if dim is None:
            continue
        if dim not in range(0, limit + 1):
            raise Violation(
                'dimension {!r} in {}-dimensional space'.format(dim, limit), positions=obj.positions[:50]
            )
        if dim > 0 and len(set(obj.positions)) == 1:
            raise Violation('single position has dimension {}'.format(dim), positions=obj.positions)
    return result


def check_scene(scene, result, obs):
    pairs = features.match(scene, result)
    if pairs is None:
        raise Violation(
            'objects do not match the features: {} objects for {} features'.format(
                len(result), len(scene['features'])
            ), box=scene['box'], fs=scene['fs'],
            kinds=[f['kind'] for f in scene['features']]
        )
    low, size = w.box_arrays(scene['box'])
    for feat, obj in pairs:
        if obj.dimension != feat['dim']:
            raise Violation(
                '{} (dimension {}, {} positions) is assigned dimension {}'.format(
                    feat['kind'], feat['dim'], len(feat['pts']), obj.dimension
                ), box=scene['box'], fs=scene['fs'], positions=feat['pts']
            )
        obs.count('dim{}'.format(feat['dim']))
        obs.count('kind_' + feat['kind'])
        if scene['box']['periodic'] and np.any(np.ptp(feat['pts'], axis=0) > 0.9 * size):
            obs.count('across_boundary')


def run_scene(case, obs):
    rng = w.rng_of(case)
    dims = (0, 1, 2, 3) if rng.random() < 0.5 else (2, 3)
    scene = features.any_scene(rng, dims=dims, span_prob=0.25, max_features=3)
    method = w.pick(rng, ['ballistic', 'dominating_set'])
    repeats = 1 if case['kind'] == 'scene' else 4
    for i in range(repeats):
        positions = features.all_positions(rng, scene)
        if i:
            seed = int(rng.integers(2**31))
            random.seed(seed)
            np.random.seed(seed)
            obs.count('repeats')
        result = identified(positions, scene['box'], scene['fs'], method, obs)
        check_scene(scene, result, obs)
    kinds = sorted(f['kind'] for f in scene['features'])
    obs.key(kinds, len(scene['box']['limits']), scene['box']['periodic'], len(positions))
    obs.sample = dict(kinds=kinds, box=scene['box'], fs=scene['fs'], positions=len(positions))


def run_mixed(case, obs):
    """
    Clusters for which the dimension is not the same everywhere, but for at least
    two thirds of the positions.
    """
    rng = w.rng_of(case)
    dim = int(rng.integers(2, 4))
    scale = float(10**rng.uniform(-2, 2))
    make = clouds.line_with_patch if rng.random() < 0.2 else clouds.path_of_three
    num = 1 if make is clouds.line_with_patch else int(rng.integers(1, 8))
    scene = clouds.place(rng, dim, [make(rng, dim, scale) for _ in range(num)], scale)
    positions = [p for f in scene['features'] for p in clouds.tuples(f['pts'])]
    random.shuffle(positions)
    result = identified(positions, scene['box'], scene['fs'], 'ballistic', obs)
    if len(result) != num:
        raise Violation('{} objects instead of {}'.format(len(result), num), box=scene['box'], fs=scene['fs'])
    for obj in result:
        if obj.dimension is None:
            raise Violation(
                'dimension is not determined, although two thirds of the positions agree',
                box=scene['box'], fs=scene['fs'], positions=obj.positions[:50]
            )
        obs.count('mixed_' + make.__name__)
    obs.key('mixed', make.__name__, dim, num)
    obs.sample = dict(box=scene['box'], kind=make.__name__, num=num)


def run_arbitrary(case, obs):
    rng = w.rng_of(case)
    dim = int(rng.integers(1, 5))
    box = w.random_box(rng, dim)
    _, size = w.box_arrays(box)
    positions = clouds.random_cloud(rng, box)[:60]
    fs = float(np.min(size) * 10**rng.uniform(-1.5, 0.5))
    result = identified(positions, box, fs, w.pick(rng, ['ballistic', 'shortest_path', 'dominating_set']), obs)
    obs.count('arbitrary_objects', len(result))
    obs.key('arbitrary', dim, len(positions), len(result))
    obs.sample = dict(box=box, positions=len(positions), dims=[obj.dimension for obj in result][:20])


def run_case(case, obs):
    if case['kind'] == 'arbitrary':
        run_arbitrary(case, obs)
    elif case['kind'] == 'mixed':
        run_mixed(case, obs)
    else:
        run_scene(case, obs)
