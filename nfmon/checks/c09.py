"""C09: saving and loading any result gives back the same result."""
import copy
import os
import pickle
import random
import subprocess
import sys

import numpy as np
import networkx as nx

from nodefinder import io, search, identify
from nodefinder.coordinate_system import CoordinateSystem
from nodefinder.search.result import (
    ControllerState, JoinedMinimizationResult, MinimizationResult, SearchResultContainer
)
from nodefinder.identify.result import (
    IdentificationResult, IdentificationResultContainer, NodalLine, NodalPoint
)

from .. import artists, clouds
from .. import world as w
from ..content import PositionQueue, SimplexQueue, content, describe_difference
from ..core import REPO, VERIF, Violation, clear_scratch
from ..monitor import is_joined, require
from ..runner import observe_search

PROPERTY = 'C09'
LEVEL = 'exploration'
RULE = (
    'synthetic: objects of each class with random content (special floating point '
    'values, empty containers, undetermined dimensions, lines of each method). search: '
    'results and states of real, in part interrupted searches. identify: real '
    'identification results. use: plotting, identifying and resuming from the loaded '
    'object compared with the original. process: loading in a new interpreter. copies: '
    'copied and pickled objects, also used instead of the original. Distinct by content of '
    'the object.'
)
REQUIRED = {
    'round_trips': 1500, 'plots_compared': 40, 'identified': 40, 'resumed': 40,
    'type_MinimizationResult': 30, 'type_JoinedMinimizationResult': 30,
    'type_SearchResultContainer': 100, 'type_ControllerState': 100,
    'type_IdentificationResultContainer': 60, 'type_NodalLine': 10, 'type_CoordinateSystem': 10,
    'lines_in_result': 30, 'copies': 600, 'copies_changed': 30, 'joined_of_search': 10,
}
BUDGET = {'quick': 60, 'thorough': 600}


def cases(seed, tier):
    num = 1600 if tier == 'quick' else 20000
    kinds = ['synthetic', 'search', 'identify', 'use', 'synthetic', 'copies']
    for i in range(num):
        kind = kinds[i % 6]
        if i % 200 == 7:
            kind = 'process'
        yield dict(kind=kind, seed=seed * 1000003 + i)


# ------------------------------------------------------------------ objects


def number(rng, special=0.2):
    if rng.random() < special:
        return float(w.pick(rng, [
            0., -0., float('inf'), float('-inf'), float('nan'), 5e-324, 1e308, 1e-300, 1 + 2**-52
        ]))
    return float(rng.normal() * 10**rng.uniform(-10, 10))


def minimization(rng, box, *, history=None, nan=True):
    low, size = w.box_arrays(box)
    dim = len(low)
    num = int(rng.integers(1, 6))
    history = (rng.random() < 0.8) if history is None else history
    kwargs = dict(
        # possibly outside of the limits
        pos=low + size * rng.uniform(*w.pick(rng, [(0, 1), (-1, 2)]), size=dim),
        value=number(rng) if nan else float(rng.random()),
        success=bool(rng.random() < 0.7),
        status=int(rng.integers(0, 4)),
        message=str(w.pick(rng, [
            'Optimization terminated successfully.', 'Maximum number of iterations has been exceeded.',
            '', 'f\u00fcr \u0394 \u2260 0'
        ])),
        num_fev=int(rng.integers(1, 1000)),
        num_iter=num,
    )
    if history:
        kwargs.update(
            simplex_history=low + size * rng.random((num, dim + 1, dim)),
            fun_simplex_history=np.array([[number(rng, 0.1) for _ in range(dim + 1)] for _ in range(num)])
        )
    return MinimizationResult(**kwargs)


def any_result(rng, box, **kwargs):
    if rng.random() < 0.35:
        return JoinedMinimizationResult(
            child=minimization(rng, box, history=True, **kwargs),
            ancestor=minimization(rng, box, history=True, **kwargs)
        )
    return minimization(rng, box, **kwargs)


def search_result(rng, box, *, num=None):
    _, size = w.box_arrays(box)
    num = int(w.pick(rng, [0, 1, 3, 15])) if num is None else num
    res = SearchResultContainer(
        coordinate_system=clouds.system(box),
        gap_threshold=float(10**rng.uniform(-8, 2)),
        # the cell list has up to (size / cutoff)^dim cells
        dist_cutoff=float(np.min(size) * 10**rng.uniform({1: -2, 2: -1.6, 3: -0.8}.get(len(size), -0.3), 0.3)),
    )
    for _ in range(num):
        res.add_result(any_result(rng, box))
    for node in list(res.nodes):
        if rng.random() < 0.5:
            res.set_refined(np.array(node.pos))
    return res


def state(rng, box):
    low, size = w.box_arrays(box)
    dim = len(low)
    queue = SimplexQueue(low + size * rng.random((int(rng.integers(0, 8)), dim + 1, dim)))
    for _ in range(int(rng.integers(0, 4))):
        if queue.has_queued:
            queue.pop_queued()
    pos = PositionQueue(low + size * rng.random((int(rng.integers(0, 5)), dim)))
    return ControllerState(
        result=search_result(rng, box), simplex_queue=queue, position_queue=pos
    )


def line_shape(rng, box, cloud):
    graph = nx.Graph()
    cloud = list(dict.fromkeys(cloud)) or [tuple(float(v) for v in w.box_arrays(box)[0])]
    graph.add_nodes_from(cloud)
    if len(cloud) > 1 and rng.random() < 0.85:
        for _ in range(int(rng.integers(1, 2 * len(cloud)))):
            a, b = rng.choice(len(cloud), size=2, replace=False)
            graph.add_edge(cloud[a], cloud[b])
    from collections import Counter
    degrees = Counter(d for _, d in graph.degree)
    degrees.pop(2, None)
    return NodalLine(graph=graph, degree_count=degrees)


def identification(rng, box):
    out = []
    for _ in range(int(w.pick(rng, [0, 1, 2, 5]))):
        cloud = clouds.random_cloud(rng, box, num=int(rng.integers(1, 15)))
        dim = w.pick(rng, [0, 1, 2, 3, None])
        shape = None
        if dim == 0:
            shape = NodalPoint(np.mean(cloud, axis=0))
        elif dim == 1:
            shape = line_shape(rng, box, cloud)
        out.append(IdentificationResult(positions=cloud, dimension=dim, shape=shape))
    return IdentificationResultContainer(
        coordinate_system=clouds.system(box), feature_size=float(10**rng.uniform(-3, 1)), results=out
    )


# ------------------------------------------------------------------ oracle


def round_trip(obj, obs, *, again=True):
    """Save and load an object, returns the loaded one."""
    path = os.path.abspath('c09.hdf5')
    before = content(obj)
    io.save(obj, path)
    after = content(obj)
    require(
        before == after, 'saving modifies the object', type=type(obj).__name__,
        difference=describe_difference(before, after)
    )
    loaded = io.load(path)
    require(
        type(loaded) is type(obj),  # pylint: disable=unidiomatic-typecheck
        'the loaded object has another type', saved=type(obj).__name__, loaded=type(loaded).__name__
    )
    now = content(loaded)
    require(
        now == before, 'the loaded object differs', type=type(obj).__name__,
        difference=describe_difference(before, now)
    )
    obs.count('round_trips')
    obs.count('type_' + type(obj).__name__)
    if again:
        other = os.path.abspath('c09b.hdf5')
        io.save(loaded, other)
        second = content(io.load(other))
        require(
            second == before, 'saving the loaded object gives something else',
            type=type(obj).__name__, difference=describe_difference(before, second)
        )
        obs.count('round_trips')
        os.remove(other)
    obs.key(hash(repr(before)))
    os.remove(path)
    return loaded


def copied(obj, obs):
    """Copies of an object have the same content, and the original stays as it is."""
    before = content(obj)
    out = {}
    for how, fct in COPIES.items():
        out[how] = fct(obj)
        require(
            type(out[how]) is type(obj),  # pylint: disable=unidiomatic-typecheck
            'a copy has another type', how=how, original=type(obj).__name__,
            copy=type(out[how]).__name__
        )
        now = content(out[how])
        require(
            now == before, 'a copy differs', how=how, type=type(obj).__name__,
            difference=describe_difference(before, now)
        )
        obs.count('copies')
    after = content(obj)
    require(
        before == after, 'copying modifies the object', type=type(obj).__name__,
        difference=describe_difference(before, after)
    )
    obs.key('copy', hash(repr(before)))
    return out


def change(rng, obj, box):
    """Change an object in the way a search does."""
    low, size = w.box_arrays(box)
    dim = len(low)
    name = type(obj).__name__
    if name == 'SearchResultContainer':
        for _ in range(3):
            obj.add_result(any_result(rng, box))
        for node in list(obj.nodes)[-2:]:
            obj.set_refined(np.array(node.pos))
    elif name == 'ControllerState':
        change(rng, obj.result, box)
        obj.simplex_queue.add_objects(low + size * rng.random((2, dim + 1, dim)))
        obj.position_queue.add_objects(low + size * rng.random((2, dim)))
        obj.simplex_queue.pop_queued()


def run_copies(case, rng, obs):
    dim = int(rng.integers(1, 5))
    box = w.random_box(rng, dim)
    kind = w.pick(rng, ['joined', 'search', 'state', 'ident', 'shape', 'cs', 'min'], [2, 3, 2, 3, 1, 1, 1])
    if kind == 'joined':
        obj = JoinedMinimizationResult(
            child=minimization(rng, box, history=True), ancestor=minimization(rng, box, history=True)
        )
    elif kind == 'search':
        obj = search_result(rng, box)
        for res in obj.minimization_results[:3]:
            round_trip(res, obs, again=False)
    elif kind == 'state':
        obj = state(rng, box)
    elif kind == 'ident':
        obj = identification(rng, box)
    elif kind == 'shape':
        cloud = clouds.random_cloud(rng, box, num=int(rng.integers(1, 15)))
        obj = line_shape(rng, box, cloud) if rng.random() < 0.6 else NodalPoint(np.array(cloud[0]))
    elif kind == 'cs':
        obj = clouds.system(box)
    else:
        obj = minimization(rng, box)
    # the queues cannot be pickled, only saved
    copies = copied(obj.result if kind == 'state' else obj, obs)
    if kind == 'joined':
        for other in copies.values():
            compare_joined(obj, other)
    if kind == 'ident':
        for part in list(obj)[:3]:
            copied(part, obs)
            if part.shape is not None:
                copied(part.shape, obs)
    if kind in ('search', 'state'):
        before = content(obj)
        for how in ('deepcopy', 'pickle'):
            other = copies[how]
            # the copy finds the same neighbours, and goes its own way
            res = obj.result if kind == 'state' else obj
            low, size = w.box_arrays(box)
            for _ in range(3):
                pos = low + size * rng.random(dim)
                require(
                    sorted(res.get_neighbour_distance_iterator(pos)) ==
                    sorted(other.get_neighbour_distance_iterator(pos)),
                    'a copied search result has other neighbours', how=how
                )
            change(rng, other, box)
            require(
                content(obj) == before, 'changing a deep copy changes the original', how=how
            )
            obs.count('copies_changed')
    round_trip(copies['pickle'], obs, again=False)
    obs.sample = dict(type=type(obj).__name__, dim=dim)


def compare_joined(obj, loaded):
    for key in ('pos', 'value', 'num_fev', 'num_iter', 'success', 'status', 'message',
                'simplex_history', 'fun_simplex_history'):
        one = np.asarray(getattr(obj, key))
        two = np.asarray(getattr(loaded, key))
        same = one.shape == two.shape and (
            np.array_equal(one, two, equal_nan=True) if one.dtype.kind == 'f' else np.array_equal(one, two)
        )
        require(same, 'attribute of the loaded two-step result differs', attribute=key)


COPIES = {
    'copy': copy.copy,
    'deepcopy': copy.deepcopy,
    'pickle': lambda obj: pickle.loads(pickle.dumps(obj)),
}


def run_synthetic(case, rng, obs):
    dim = int(rng.integers(1, 5))
    box = w.random_box(rng, dim)
    kind = w.pick(rng, ['cs', 'min', 'joined', 'search', 'state', 'ident', 'single', 'shape', 'queues'])
    if kind == 'cs':
        obj = clouds.system(box)
    elif kind == 'min':
        obj = minimization(rng, box)
    elif kind == 'joined':
        obj = JoinedMinimizationResult(
            child=minimization(rng, box, history=True), ancestor=minimization(rng, box, history=True)
        )
    elif kind == 'search':
        obj = search_result(rng, box)
    elif kind == 'state':
        obj = state(rng, box)
    elif kind == 'ident':
        obj = identification(rng, box)
        obs.count('lines_in_result', sum(type(r.shape).__name__ == 'NodalLine' for r in obj))
    elif kind == 'single':
        objs = list(identification(rng, box))
        if not objs:
            return
        obj = objs[0]
    elif kind == 'shape':
        cloud = clouds.random_cloud(rng, box, num=int(rng.integers(1, 15)))
        obj = line_shape(rng, box, cloud) if rng.random() < 0.6 else NodalPoint(np.array(cloud[0]))
    else:
        st = state(rng, box)
        obj = st.simplex_queue if rng.random() < 0.5 else st.position_queue
    loaded = round_trip(obj, obs)
    if kind == 'joined':
        compare_joined(obj, loaded)
    obs.sample = dict(type=type(obj).__name__, dim=dim)


def run_search(case, rng, obs):
    problem = w.random_problem(rng, fake=0.4, max_mesh=3, small_stencil=True)
    path = os.path.abspath('run.hdf5')
    gap = w.Gap(problem['gap'], problem['box'])
    at = int(rng.integers(5, 400))
    calls = [0]

    class Stop(Exception):
        pass

    def fct(pos):
        calls[0] += 1
        if calls[0] > at:
            raise Stop
        return gap(pos)

    try:
        run = observe_search(
            problem, fct=fct, max_calls=4000, extra=dict(save_file=path, save_delay=1000.),
            use_coro=bool(rng.random() < 0.5), delay='uniform'
        )
        if not run.abandoned:
            round_trip(run.result, obs)
            for res in run.result.minimization_results[:5]:
                loaded = round_trip(res, obs, again=False)
                if is_joined(res):
                    compare_joined(res, loaded)
                    obs.count('joined_of_search')
    except Stop:
        pass
    if os.path.exists(path):
        saved = io.load(path)
        round_trip(saved, obs)
        round_trip(saved.result, obs)
        obs.count('states')
        for res in saved.result.minimization_results[:3]:
            round_trip(res, obs, again=False)
    obs.sample = dict(calls=calls[0])


def identified(rng, obs):
    dim = int(w.pick(rng, [2, 3], [3, 2]))
    scene = clouds.scene(rng, dim, dims=(0, 1, 1, 2), max_features=2)
    pts = [p for f in scene['features'] for p in clouds.tuples(f['pts'])]
    method = w.pick(rng, ['ballistic', 'shortest_path', 'dominating_set'])
    return scene, pts, identify.run_from_positions(
        pts, coordinate_system=clouds.system(scene['box']), feature_size=scene['fs'],
        evaluate_line_method=method
    )


def run_identify(case, rng, obs):
    if rng.random() < 0.15:
        box = w.random_box(rng, int(rng.integers(1, 4)))
        cloud = clouds.random_cloud(rng, box)
        res = identify.run_from_positions(
            cloud, coordinate_system=clouds.system(box),
            feature_size=float(np.min(w.box_arrays(box)[1]) * 10**rng.uniform(-2, -0.7))
        )
    else:
        _, _, res = identified(rng, obs)
    loaded = round_trip(res, obs)
    obs.count('lines_in_result', sum(type(r.shape).__name__ == 'NodalLine' for r in res))
    for one, two in zip(res, loaded):
        if one.shape is not None:
            round_trip(one.shape, obs, again=False)
        round_trip(two, obs, again=False)
    obs.sample = dict(objects=len(res), dimensions=[r.dimension for r in res])


def drawn(fct, obj, **kwargs):
    import matplotlib.pyplot as plt
    fig, axis = fct(obj, **kwargs)
    res = artists.drawn(axis)
    plt.close(fig)
    return res


def unordered(drawing):
    """The order of the paths of a line depends on the order of its graph."""
    def segments(lines):
        out = []
        for shape, data in lines:
            arr = np.frombuffer(data).reshape(shape)
            for a, b in zip(arr[:-1], arr[1:]):
                out.append(tuple(sorted((tuple(a), tuple(b)))))
        return sorted(out)
    return dict(points=drawing['points'], lines=segments(drawing['lines']), limits=drawing['limits'])


def run_use(case, rng, obs):
    """The loaded object can be used like the original."""
    path = os.path.abspath('use.hdf5')
    which = w.pick(rng, ['plot_search', 'plot_identify', 'identify', 'resume'])
    if which == 'plot_search':
        box = w.random_box(rng, int(rng.integers(2, 4)))
        obj = search_result(rng, box, num=int(rng.integers(0, 12)))
        io.save(obj, path)
        loaded = io.load(path)
        require(
            drawn(search.plot.points, obj) == drawn(search.plot.points, loaded),
            'the plot of the loaded search result differs'
        )
        nodes = [n for n in obj.nodes if hasattr(n, 'simplex_history')]
        nodes2 = [n for n in loaded.nodes if hasattr(n, 'simplex_history')]
        require(
            drawn(search.plot.simplices, obj, nodes=nodes) ==
            drawn(search.plot.simplices, loaded, nodes=nodes2),
            'the simplex plot of the loaded search result differs'
        )
        obs.count('plots_compared')
    elif which == 'plot_identify':
        _, _, obj = identified(rng, obs)
        io.save(obj, path)
        loaded = io.load(path)
        require(
            unordered(drawn(identify.plot.result, obj)) ==
            unordered(drawn(identify.plot.result, loaded)),
            'the plot of the loaded identification result differs'
        )
        obs.count('plots_compared')
    elif which == 'identify':
        scene, pts, _ = identified(rng, obs)
        obj = SearchResultContainer(
            coordinate_system=clouds.system(scene['box']), gap_threshold=1., dist_cutoff=scene['fs'] / 3
        )
        for p in pts:
            obj.add_result(MinimizationResult(
                pos=np.array(p), value=0., success=True, status=0, message='', num_fev=1, num_iter=1))
        if rng.random() < 0.5:
            obj = ControllerState(
                result=obj, simplex_queue=SimplexQueue(), position_queue=PositionQueue())
        io.save(obj, path)
        loaded = io.load(path)
        random.seed(case['seed'])
        res1 = content(identify.run(obj))
        random.seed(case['seed'])
        res2 = content(identify.run(loaded))
        require(
            sorted(r[2] for r in res1[3]) == sorted(r[2] for r in res2[3]),
            'identifying the loaded search result gives other objects'
        )
        require(
            sorted(str(r[1]) for r in res1[3]) == sorted(str(r[1]) for r in res2[3]),
            'identifying the loaded search result gives other dimensions'
        )
        obs.count('identified')
    else:
        problem = w.random_problem(rng, fake=0., max_mesh=2, small_stencil=True, parallel=(1, ))
        low, size = w.box_arrays(problem['box'])
        run = observe_search(problem, max_calls=3000)
        if run.abandoned:
            return
        extra = [
            low + size * (rng.random(problem['dim']) + 0.1 * rng.random((problem['dim'] + 1, problem['dim'])))
            for _ in range(int(rng.integers(1, 4)))
        ]
        obj = ControllerState(
            result=run.result, simplex_queue=SimplexQueue(extra),
            position_queue=PositionQueue([n.pos for n in list(run.result.nodes)[:1]])
        )
        io.save(obj, path)
        loaded = io.load(path)
        runs = [
            observe_search(problem, extra=dict(initial_state=st), max_calls=6000)
            for st in (obj, loaded)
        ]
        if any(r.abandoned for r in runs):
            return
        require(
            runs[0].rec.pos == runs[1].rec.pos, 'resuming from the loaded state differs',
            calls=[r.rec.num for r in runs]
        )
        obs.count('resumed')
    os.remove(path)
    obs.key(which, case['seed'])


def run_process(case, rng, obs):
    """Load in a new interpreter which has only imported the package."""
    dim = int(rng.integers(1, 4))
    box = w.random_box(rng, dim)
    objs = [state(rng, box), identification(rng, box), clouds.system(box), any_result(rng, box)]
    paths = []
    for i, obj in enumerate(objs):
        paths.append(os.path.abspath('process{}.hdf5'.format(i)))
        io.save(obj, paths[-1])
    code = (
        'import sys; sys.path[:0] = {!r}\n'
        'import warnings; warnings.simplefilter("ignore")\n'
        'import nodefinder\n'
        'objs = [nodefinder.io.load(p) for p in sys.argv[1:]]\n'
        'from nfmon.content import content\n'
        'import hashlib\n'
        'for o in objs: print(hashlib.sha1(repr(content(o)).encode()).hexdigest())\n'
    ).format([REPO, VERIF])
    res = subprocess.run(
        [sys.executable, '-c', code] + paths, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
        timeout=300, check=False, text=True
    )
    require(res.returncode == 0, 'objects cannot be loaded in a new process', error=res.stderr[-2000:])
    import hashlib
    expected = [hashlib.sha1(repr(content(o)).encode()).hexdigest() for o in objs]
    require(res.stdout.split() == expected, 'objects differ when loaded in a new process')
    obs.count('processes')
    obs.count('round_trips', len(objs))
    for path in paths:
        os.remove(path)


def run_case(case, obs):
    rng = w.rng_of(case)
    clear_scratch()
    dict(
        synthetic=run_synthetic, search=run_search, identify=run_identify, use=run_use,
        process=run_process, copies=run_copies
    )[case['kind']](case, rng, obs)
