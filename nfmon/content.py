"""Public content of all objects of the package, as comparable data."""
import functools
import os
import tempfile

import numpy as np

from nodefinder import io, search

from .monitor import container_content, is_joined, result_content


def _floats(arr):
    arr = np.asarray(arr, dtype=float)
    return (arr.shape, arr.tobytes())


def _point(pos):
    return tuple(float(v) for v in pos)


def _scalar(val):
    if val is None:
        return None
    arr = np.asarray(val)
    if arr.shape != ():
        return ('array', _floats(arr))
    return float(arr)


def simplices(queue):
    return sorted(
        tuple(sorted(_point(v) for v in simplex)) for simplex in queue.objects
    )


def graph_content(graph):
    return dict(
        nodes=sorted(_point(n) for n in graph.nodes),
        edges=sorted(
            tuple(sorted((_point(a), _point(b)))) for a, b in graph.edges
        ),
        same_nodes=all(n in graph for e in graph.edges for n in e),
    )


def content(obj):
    if obj is None:
        return None
    if isinstance(obj, (list, tuple)):
        return ('list', [content(o) for o in obj])
    name = type(obj).__name__
    if name == 'CoordinateSystem':
        return (
            name, _floats(obj.limits), bool(obj.periodic), int(obj.dim), _floats(obj.size)
        )
    if name in ('MinimizationResult', 'JoinedMinimizationResult'):
        return (name, result_content(obj))
    if name == 'SearchResultContainer':
        res = container_content(obj)
        res['all'] = [result_content(r) for r in obj.minimization_results]
        return (name, res)
    if name == 'ControllerState':
        return (
            name, content(obj.result), simplices(obj.simplex_queue),
            sorted(_point(p) for p in obj.position_queue.objects)
        )
    if name == 'SimplexQueue':
        return (name, simplices(obj))
    if name == 'PositionQueue':
        return (name, [_point(p) for p in obj.objects])
    if name == 'IdentificationResultContainer':
        return (
            name, content(obj.coordinate_system), _scalar(obj.feature_size),
            [content(r) for r in obj], len(obj)
        )
    if name == 'IdentificationResult':
        return (
            name, _scalar(obj.dimension),
            [_point(p) if isinstance(p, tuple) else ('no tuple', _point(p)) for p in obj.positions],
            content(obj.shape)
        )
    if name == 'NodalPoint':
        return (name, _point(obj.position))
    if name == 'NodalLine':
        return (
            name, graph_content(obj.graph),
            sorted((int(k), int(v)) for k, v in obj.degree_count.items()), obj.shape_name
        )
    raise TypeError(name)


def describe_difference(val1, val2, path=''):
    """Where two contents differ, in words."""
    if type(val1) is not type(val2):
        return '{}: {!r} <-> {!r}'.format(path, val1, val2)[:300]
    if isinstance(val1, dict):
        for key in val1:
            if val1[key] != val2.get(key):
                return describe_difference(val1[key], val2.get(key), path + '/' + str(key))
    if isinstance(val1, (list, tuple)):
        if len(val1) != len(val2):
            return '{}: length {} <-> {}'.format(path, len(val1), len(val2))
        for i, (v1, v2) in enumerate(zip(val1, val2)):
            if v1 != v2:
                return describe_difference(v1, v2, path + '/' + str(i))
    return '{}: {!r} <-> {!r}'.format(path, val1, val2)[:300]


@functools.lru_cache(maxsize=None)
def queue_types():
    """The types of the simplex queue and position queue of a saved state."""
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, 'state.hdf5')
        search.run(
            lambda pos: 1., limits=[(0, 1)], initial_mesh_size=1, feature_size=1, gap_threshold=0.1,
            refinement_stencil=None, save_file=path
        )
        state = io.load(path)
    return type(state.simplex_queue), type(state.position_queue)


def SimplexQueue(objects=()):  # pylint: disable=invalid-name
    return queue_types()[0](objects)


def PositionQueue(objects=()):  # pylint: disable=invalid-name
    return queue_types()[1](objects)
