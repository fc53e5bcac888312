"""C22: files written by this and by earlier versions can be loaded and used."""
import copy
import os
import random
from collections import Counter

import h5py
import networkx as nx
import numpy as np

from nodefinder import identify, io, search
from nodefinder.search.result import ControllerState, SearchResultContainer
from nodefinder.identify.result import NodalLine, NodalPoint

from .. import clouds
from .. import world as w
from ..content import PositionQueue, SimplexQueue, content, describe_difference
from ..core import REPO, Violation, clear_scratch
from ..monitor import is_joined, require
from ..runner import observe_search
from .c09 import any_result, drawn, identification, line_shape, search_result, state, unordered

PROPERTY = 'C22'
LEVEL = 'exploration'
RULE = (
    'written: a file with the content of a random object is written directly with h5py, in '
    'the layout of this version or with features of the layouts of earlier versions '
    '(former type tags, missing optional parts, nested positions, kinds of strings and '
    'numbers, positions outside of the limits), loaded, and compared with the object. use: '
    'a search is resumed from, objects are identified in, or a plot is made of such a file, '
    'compared with the same for the object. sample: the files which come with the package '
    'are loaded, compared with their content as read with h5py, and used. Distinct by '
    'content and features of the layout.'
)
FEATURES = [
    'former_tag', 'former_joined_tag', 'no_refined', 'fixed_message', 'nested_positions',
    'plain_dimension', 'no_edges', 'legacy_dict', 'integers', 'unwrapped', 'no_history', 'reordered',
]
REQUIRED = dict(
    {'layout_' + name: 8 for name in FEATURES},
    loaded=700, resumed=30, identified=30, plotted=30, samples=2, from_class=100, saved_again=300,
)
BUDGET = {'quick': 40, 'thorough': 300}
SAMPLES = [
    'tests/samples/identify/point.hdf5', 'tests/samples/search/line_1d.hdf5',
    'tests/samples/search/point.hdf5', 'examples/identify/point/point.hdf5',
]


def cases(seed, tier):
    num = 2000 if tier == 'quick' else 24000
    for i in range(num):
        if i < len(SAMPLES):
            yield dict(kind='sample', seed=seed * 1000003 + i, path=SAMPLES[i])
            continue
        yield dict(kind=['written', 'written', 'written', 'use'][i % 4], seed=seed * 1000003 + i)


# ------------------------------------------------------------------ writing


class Layout:
    """The features of the layout which are used for a file."""
    def __init__(self, rng, obs):
        self.rng = rng
        self.obs = obs
        self.chosen = {
            name: bool(rng.random() < 0.3) for name in FEATURES
        }
        if rng.random() < 0.25:
            # the layout of this version
            self.chosen = dict.fromkeys(FEATURES, False)
        self.used = set()

    def __call__(self, name):
        if self.chosen[name]:
            self.used.add(name)
        return self.chosen[name]


def tag(group, name):
    group['type_tag'] = name


def write_text(group, key, val, layout):
    if layout('fixed_message'):
        group[key] = np.bytes_(val.encode('utf-8')) if val else h5py.Empty('S1')
        if not val:
            # a fixed length string of length zero does not exist
            del group[key]
            group[key] = val
    else:
        group[key] = val


def write_number(group, val):
    tag(group, 'builtins.number')
    group['value'] = val


def write_list(group, key, values, write_one, layout):
    if not values:
        group[key] = np.array([])
        return
    part = group.create_group(key)
    tag(part, 'builtins.list')
    for i, val in enumerate(values):
        write_one(part.create_group(str(i)), val, layout)


def write_minimization(group, res, layout):
    if is_joined(res):
        tag(
            group, 'nodefinder.joined_result'
            if layout('former_joined_tag') else 'nodefinder.joined_minimization_result'
        )
        write_minimization(group.create_group('ancestor'), res.ancestor, layout)
        write_minimization(group.create_group('child'), res.child, layout)
        return
    tag(group, 'nodefinder.minimization_result')
    for key, val in vars(res).items():
        if key == 'message':
            write_text(group, key, val, layout)
        else:
            group[key] = val


def write_coordinate_system(group, system, layout):
    tag(group, 'nodefinder.coordinate_system')
    limits = np.array(system.limits)
    if layout('integers') and np.all(limits == np.rint(limits)):
        limits = limits.astype(int)
    group['limits'] = limits
    group['periodic'] = bool(system.periodic)


def write_search_result(group, res, layout, results):
    tag(
        group, 'nodefinder.result_container'
        if layout('former_tag') else 'nodefinder.search_result_container'
    )
    write_coordinate_system(group.create_group('coordinate_system'), res.coordinate_system, layout)
    group['gap_threshold'] = res.gap_threshold
    group['dist_cutoff'] = res.dist_cutoff
    write_list(group, 'minimization_results', results, write_minimization, layout)
    if not layout('no_refined'):
        group['refined_results'] = np.array([tuple(p) for p in res.refined_results])


def write_state(group, obj, layout, results):
    tag(group, 'nodefinder.controller_state')
    write_search_result(group.create_group('result'), obj.result, layout, results)
    for name in ('simplex_queue', 'position_queue'):
        part = group.create_group(name)
        tag(part, 'nodefinder.' + name)
        part['objects'] = np.array(getattr(obj, name).objects)


def write_tuple(group, values):
    tag(group, 'builtins.tuple')
    for i, val in enumerate(values):
        write_number(group.create_group(str(i)), val)


def write_counts(group, counts, layout):
    tag(group, 'builtins.dict')
    if not counts and layout('legacy_dict'):
        group.create_group('value')
        return
    items = group.create_group('items')
    tag(items, 'builtins.list')
    for i, item in enumerate(counts.items()):
        write_tuple(items.create_group(str(i)), [int(v) for v in item])


def write_shape(group, shape, layout):
    if shape is None:
        tag(group, 'builtins.none')
    elif isinstance(shape, NodalPoint):
        tag(group, 'nodefinder.nodal_point')
        group['position'] = np.array(shape.position)
    else:
        tag(group, 'nodefinder.nodal_line')
        graph = group.create_group('graph')
        graph['nodes'] = np.array(list(shape.graph.nodes))
        edges = np.array(list(shape.graph.edges))
        if edges.size:
            graph['edges'] = edges
        else:
            layout.used.add('no_edges')
        write_counts(group.create_group('degree_count'), shape.degree_count, layout)


def write_identification(group, obj, layout):
    tag(group, 'nodefinder.identification_result_container')
    write_coordinate_system(group.create_group('coordinate_system'), obj.coordinate_system, layout)
    group['feature_size'] = obj.feature_size
    write_list(group, 'results', list(obj), write_object, layout)


def write_object(group, res, layout):
    tag(group, 'nodefinder.identification_result')
    if res.dimension is not None and layout('plain_dimension'):
        group['dimension'] = res.dimension
    elif res.dimension is None:
        tag(group.create_group('dimension'), 'builtins.none')
    else:
        write_number(group.create_group('dimension'), res.dimension)
    if layout('nested_positions'):
        part = group.create_group('positions')
        tag(part, 'builtins.list')
        for i, pos in enumerate(res.positions):
            write_tuple(part.create_group(str(i)), [float(v) for v in pos])
    else:
        group['positions'] = np.array(res.positions)
    write_shape(group.create_group('shape'), res.shape, layout)


def write(path, obj, layout, results=None):
    with h5py.File(path, 'w') as group:
        name = type(obj).__name__
        if name == 'ControllerState':
            write_state(group, obj, layout, results)
        elif name == 'SearchResultContainer':
            write_search_result(group, obj, layout, results)
        elif name == 'IdentificationResultContainer':
            write_identification(group, obj, layout)
        elif name == 'IdentificationResult':
            write_object(group, obj, layout)
        elif name in ('NodalPoint', 'NodalLine'):
            write_shape(group, obj, layout)
        elif name == 'CoordinateSystem':
            write_coordinate_system(group, obj, layout)
        elif name in ('SimplexQueue', 'PositionQueue'):
            tag(group, 'nodefinder.' + dict(
                SimplexQueue='simplex_queue', PositionQueue='position_queue')[name])
            group['objects'] = np.array(obj.objects)
        else:
            write_minimization(group, obj, layout)


# ------------------------------------------------------------------ objects


def stored(rng, res, layout):
    """
    The minimization results as they are in the file, and the search result
    with the same content.
    """
    results = copy.deepcopy(res.minimization_results)
    system = res.coordinate_system
    if layout('reordered'):
        results = [results[i] for i in rng.permutation(len(results))]
    for sub in results:
        for part in ([sub.ancestor, sub.child] if is_joined(sub) else [sub]):
            if layout('no_history') and not is_joined(sub):
                for key in ('simplex_history', 'fun_simplex_history'):
                    vars(part).pop(key, None)
        if system.periodic and layout('unwrapped'):
            part = sub.child if is_joined(sub) else sub
            part.pos = part.pos + rng.integers(-1, 2, size=system.dim) * system.size
    expected = SearchResultContainer(
        coordinate_system=system, gap_threshold=res.gap_threshold, dist_cutoff=res.dist_cutoff,
        minimization_results=copy.deepcopy(results),
        refined_results=[] if layout('no_refined') else [np.array(p) for p in res.refined_results]
    )
    return results, expected


def integer_box(rng, dim):
    box = w.random_box(rng, dim)
    limits = []
    for _ in range(dim):
        low = int(rng.integers(-3, 3))
        limits.append([float(low), float(low + rng.integers(1, 4))])
    return dict(box, limits=limits)


def random_object(rng, layout, kind=None):
    """An object, and the minimization results to write."""
    dim = int(rng.integers(1, 5))
    box = integer_box(rng, dim) if layout.chosen['integers'] else w.random_box(rng, dim)
    kind = kind or w.pick(
        rng, ['search', 'state', 'ident', 'object', 'shape', 'min', 'cs', 'queue'], [4, 4, 4, 1, 2, 1, 1, 1]
    )
    if kind == 'search':
        results, obj = stored(rng, search_result(rng, box), layout)
        return obj, results
    if kind == 'state':
        obj = state(rng, box)
        results, res = stored(rng, obj.result, layout)
        return ControllerState(
            result=res, simplex_queue=obj.simplex_queue, position_queue=obj.position_queue
        ), results
    if kind == 'ident':
        return identification(rng, box), None
    if kind == 'object':
        return (list(identification(rng, box)) + [NodalPoint(np.zeros(dim))])[0], None
    if kind == 'shape':
        cloud = clouds.random_cloud(rng, box, num=int(rng.integers(1, 15)))
        if layout.chosen['no_edges']:
            cloud = cloud[:1]
        if layout.chosen['legacy_dict'] and len(set(cloud)) > 2:
            # a closed loop has no exceptional degrees
            return NodalLine(
                graph=nx.cycle_graph(list(dict.fromkeys(cloud))), degree_count=Counter()
            ), None
        return line_shape(rng, box, cloud), None
    if kind == 'queue':
        obj = state(rng, box)
        return obj.simplex_queue if rng.random() < 0.5 else obj.position_queue, None
    if kind == 'min':
        return any_result(rng, box), None
    return clouds.system(box), None


# ------------------------------------------------------------------ oracle


def load(path, fct=io.load):
    try:
        return fct(path)
    except Exception as exc:  # pylint: disable=broad-except
        raise Violation(
            'a file in a known layout cannot be loaded', error=repr(exc)
        ) from exc


def within_limits(res):
    """The positions of periodic results are within the limits."""
    system = res.coordinate_system
    low, high = np.array(system.limits, dtype=float).T
    for sub in res.minimization_results:
        require(
            not system.periodic or (np.all(sub.pos >= low) and np.all(sub.pos <= high)),
            'a loaded position is outside of the periodic limits', limits=system.limits, pos=sub.pos
        )


def compare(loaded, obj, message, **details):
    require(
        type(loaded) is type(obj),  # pylint: disable=unidiomatic-typecheck
        message + ': type', expected=type(obj).__name__, loaded=type(loaded).__name__, **details
    )
    before, now = content(obj), content(loaded)
    require(
        before == now, message + ': content', type=type(obj).__name__,
        difference=describe_difference(before, now), **details
    )
    res = getattr(loaded, 'result', loaded)
    if isinstance(res, SearchResultContainer):
        within_limits(res)


def run_written(case, rng, obs):
    layout = Layout(rng, obs)
    obj, results = random_object(rng, layout)
    path = os.path.abspath('c22.hdf5')
    write(path, obj, layout, results)
    used = sorted(layout.used)
    loaded = load(path)
    compare(loaded, obj, 'a file in a known layout is loaded differently', layout=used)
    obs.count('loaded')
    if rng.random() < 0.3 and hasattr(type(obj), 'from_hdf5_file'):
        compare(
            load(path, type(obj).from_hdf5_file), obj, 'a file in a known layout is loaded differently by the class',
            layout=used
        )
        obs.count('from_class')
    if rng.random() < 0.5:
        io.save(loaded, path)
        compare(load(path), obj, 'the object from a file in a known layout is saved differently', layout=used)
        obs.count('saved_again')
    for name in used:
        obs.count('layout_' + name)
    obs.key(type(obj).__name__, used, hash(repr(content(obj))))
    obs.sample = dict(type=type(obj).__name__, layout=used)
    os.remove(path)


def run_use(case, rng, obs):
    layout = Layout(rng, obs)
    path = os.path.abspath('c22.hdf5')
    which = w.pick(rng, ['resume', 'identify', 'plot', 'plot_identify'])
    if which == 'resume':
        problem = w.random_problem(rng, fake=0., max_mesh=2, small_stencil=True, parallel=(1, ))
        low, size = w.box_arrays(problem['box'])
        run = observe_search(problem, max_calls=3000)
        if run.abandoned:
            return
        extra = [
            low + size * (rng.random(problem['dim']) + 0.1 * rng.random((problem['dim'] + 1, problem['dim'])))
            for _ in range(int(rng.integers(1, 4)))
        ]
        results, res = stored(rng, run.result, layout)
        obj = ControllerState(
            result=res, simplex_queue=SimplexQueue(extra),
            position_queue=PositionQueue([n.pos for n in list(res.nodes)[:1]])
        )
        write(path, obj, layout, results)
        runs = [
            observe_search(problem, extra=extra, max_calls=6000) for extra in (
                dict(initial_state=obj),
                dict(save_file=path, load=True, load_quiet=bool(rng.random() < 0.5))
                if rng.random() < 0.6 else dict(initial_state=load(path))
            )
        ]
        if any(r.abandoned for r in runs):
            return
        require(
            runs[0].rec.pos == runs[1].rec.pos, 'resuming from a file in a known layout differs',
            calls=[r.rec.num for r in runs], layout=sorted(layout.used)
        )
        compare(
            runs[1].result, runs[0].result, 'resuming from a file in a known layout', layout=sorted(layout.used)
        )
        obs.count('resumed')
    elif which == 'plot_identify':
        box = w.random_box(rng, int(rng.integers(2, 4)))
        obj = identification(rng, box)
        write(path, obj, layout)
        require(
            unordered(drawn(identify.plot.result, obj)) ==
            unordered(drawn(identify.plot.result, load(path))),
            'the plot of an identification result from a file in a known layout differs'
        )
        obs.count('plotted')
    else:
        kind = w.pick(rng, ['search', 'state']) if which == 'identify' else 'search'
        if which == 'plot':
            box = w.random_box(rng, int(rng.integers(2, 4)))
            results, obj = stored(rng, search_result(rng, box), layout)
        else:
            obj, results = random_object(rng, layout, kind)
        write(path, obj, layout, results)
        loaded = load(path)
        if which == 'plot':
            require(
                drawn(search.plot.points, obj) == drawn(search.plot.points, loaded),
                'the plot of a search result from a file in a known layout differs'
            )
            obs.count('plotted')
        else:
            res = []
            for val in (obj, loaded):
                random.seed(case['seed'])
                out = content(identify.run(val, feature_size=float(10**rng.uniform(-2, 0)) if not res else fs))
                fs = out[2]
                res.append(out)
            require(
                sorted((r[2], str(r[1])) for r in res[0][3]) == sorted((r[2], str(r[1])) for r in res[1][3]),
                'identifying the objects in a file in a known layout differs'
            )
            obs.count('identified')
    for name in layout.used:
        obs.count('layout_' + name)
    os.remove(path)
    obs.key(which, case['seed'])


# ------------------------------------------------------------------ sample files


def raw(group):
    """Data in a file, without interpretation."""
    if isinstance(group, h5py.Dataset):
        val = group[()]
        return val.decode() if isinstance(val, bytes) else val
    items = {key: raw(val) for key, val in group.items()}
    kind = items.pop('type_tag', None)
    if kind == 'builtins.number':
        return items['value']
    if kind in ('builtins.list', 'builtins.tuple'):
        return [items[key] for key in sorted(items, key=int)]
    if kind == 'builtins.none':
        return None
    return dict(items, type_tag=kind)


def equal(val1, val2):
    return np.array_equal(np.asarray(val1, dtype=float), np.asarray(val2, dtype=float))


def check_minimization(res, data, system, path):
    if 'ancestor' in data:
        check_minimization(res.ancestor, data['ancestor'], None, path)
        check_minimization(res.child, data['child'], system, path)
        return
    for key, val in data.items():
        if key == 'type_tag':
            continue
        now = getattr(res, key)
        if key == 'message':
            same = now == val
        elif key == 'pos' and system is not None:
            low, size = w.box_arrays(system)
            same = np.all(now >= low) and np.all(now <= low + size) and \
                w.brute_dist(system, now, val) < 1e-12
        else:
            same = equal(now, val)
        require(same, 'a value in a sample file is loaded differently', path=path, key=key)


def run_sample(case, rng, obs):
    path = os.path.join(REPO, case['path'])
    if not os.path.exists(path):
        obs.count('missing')
        return
    with h5py.File(path, 'r') as file:
        data = raw(file)
    obj = load(path)
    box = dict(
        limits=[[float(v) for v in lim] for lim in data['coordinate_system']['limits']],
        periodic=bool(data['coordinate_system']['periodic'])
    )
    system = obj.coordinate_system
    require(
        equal(system.limits, box['limits']) and bool(system.periodic) == box['periodic'],
        'the coordinate system of a sample file is loaded differently', path=path
    )
    if 'results' in data:
        require(float(obj.feature_size) == float(data['feature_size']), 'feature size', path=path)
        require(len(obj) == len(data['results']), 'number of objects in a sample file', path=path)
        for res, val in zip(obj, data['results']):
            require(
                (val['dimension'] is None) == (res.dimension is None) and
                (res.dimension is None or int(res.dimension) == int(val['dimension'])) and
                equal(res.positions, val['positions']), 'an object of a sample file is loaded differently',
                path=path
            )
            require(
                all(isinstance(p, tuple) for p in res.positions), 'positions which are not tuples', path=path
            )
            if val['shape'] is None:
                require(res.shape is None, 'the shape in a sample file', path=path)
            elif 'position' in val['shape']:
                require(
                    equal(res.shape.position, val['shape']['position']), 'the shape in a sample file', path=path
                )
        drawing = drawn(identify.plot.result, obj)
        require(bool(drawing), 'nothing is drawn for a sample file', path=path)
    else:
        require(
            float(obj.gap_threshold) == float(data['gap_threshold']) and
            float(obj.dist_cutoff) == float(data['dist_cutoff']),
            'the settings in a sample file are loaded differently', path=path
        )
        nodes, rejected = [], []
        for val in data['minimization_results']:
            last = val.get('child', val)
            good = bool(last['success']) and not last['value'] > data['gap_threshold']
            (nodes if good else rejected).append(val)
        require(
            len(obj.nodes) == len(nodes) and len(obj.rejected_results) == len(rejected),
            'number of results in a sample file', path=path, expected=[len(nodes), len(rejected)],
            loaded=[len(obj.nodes), len(obj.rejected_results)]
        )
        def order(res):
            val = getattr(res, 'ancestor', res)
            return (int(val.num_fev), tuple(np.ravel(val.simplex_history)))

        def raw_order(val):
            val = val.get('ancestor', val)
            return (int(val['num_fev']), tuple(np.ravel(val['simplex_history'])))

        for have, want in ((obj.nodes, nodes), (obj.rejected_results, rejected)):
            for res, val in zip(sorted(have, key=order), sorted(want, key=raw_order)):
                check_minimization(res, val, box, path)
        groups = identify.run(obj)
        require(
            sum(len(r.positions) for r in groups) == len({tuple(n.pos) for n in obj.nodes}),
            'objects identified in a sample file', path=path
        )
    target = os.path.abspath('sample.hdf5')
    io.save(obj, target)
    compare(load(target), obj, 'a sample file which is saved again', path=case['path'])
    os.remove(target)
    obs.count('samples')
    obs.count('loaded')
    obs.key(case['path'])


def run_case(case, obs):
    rng = w.rng_of(case)
    clear_scratch()
    dict(written=run_written, use=run_use, sample=run_sample)[case['kind']](case, rng, obs)
