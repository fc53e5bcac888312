"""Reads what has been drawn on matplotlib axes."""
import numpy as np


def _plain(arr):
    arr = np.ma.filled(np.ma.asarray(arr, dtype=float), np.nan)
    return np.atleast_1d(arr)


def is_3d(axis):
    return hasattr(axis, 'get_zlim')


def points(axis):
    """List of (positions (N, dim), values or None, colours) for each scatter."""
    out = []
    for coll in axis.collections:
        name = type(coll).__name__
        if not name.startswith('Path') or 'Poly' in name:
            continue
        if hasattr(coll, '_offsets3d'):
            xs, ys, zs = coll._offsets3d
            pos = np.array([_plain(xs), _plain(ys), _plain(zs)]).T
        else:
            pos = np.ma.filled(np.ma.asarray(coll.get_offsets(), dtype=float), np.nan)
        array = coll.get_array()
        values = None if array is None else np.ma.filled(np.ma.asarray(array, dtype=float), np.nan)
        colours = np.array(coll.get_facecolor())
        dim = 3 if is_3d(axis) else 2
        out.append((np.asarray(pos, dtype=float).reshape(-1, dim), values, colours))
    return out


def lines(axis):
    """List of (positions (N, dim), colour) for each line."""
    out = []
    for line in axis.lines:
        if hasattr(line, 'get_data_3d'):
            data = line.get_data_3d()
        else:
            data = line.get_data(orig=True)
        pos = np.array([np.asarray(d, dtype=float) for d in data]).T
        out.append((pos, line.get_color()))
    return out


def surfaces(axis):
    """List of the vertices (N, 3) of each surface."""
    out = []
    for coll in axis.collections:
        if 'Poly' in type(coll).__name__ and hasattr(coll, '_vec'):
            out.append(np.asarray(coll._vec, dtype=float)[:3].T)
    return out


def limits(axis):
    res = [axis.get_xlim(), axis.get_ylim()]
    if is_3d(axis):
        res.append(axis.get_zlim())
    return np.array(res, dtype=float)


def drawn(axis):
    """Everything of interest, as comparable data."""
    def key(arr):
        arr = np.asarray(arr, dtype=float)
        return (arr.shape, arr.tobytes())

    return dict(
        points=[(key(p), None if v is None else key(v)) for p, v, _ in points(axis)],
        lines=[key(p) for p, _ in lines(axis)],
        limits=key(limits(axis)),
    )
