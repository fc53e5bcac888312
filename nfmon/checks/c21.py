"""C21: the form of the arguments does not matter, and they are not modified."""
import asyncio
import collections
import functools
import os
import pathlib
import random
import types
import warnings

import numpy as np

from nodefinder import identify, io, search
from nodefinder.coordinate_system import CoordinateSystem

from .. import clouds
from .. import world as w
from ..content import content, describe_difference
from ..core import Violation, clear_scratch
from ..monitor import Recorder, Stall, TooLong, event_loops

PROPERTY = 'C21'
LEVEL = 'exploration'
RULE = (
    'search: a random search with plain arguments, and the same one with arguments of '
    'another form (kind of callable and of its value, containers, number types, memory '
    'layout, read-only arrays, path types); the sequences of gap function calls and the '
    'results are compared, the arguments with copies made before. resume: the same for '
    'searches which start from a state. identify: the same for sets of positions. After '
    'the call, arguments and the positions given to the gap function are overwritten, '
    'and results compared again. Distinct by the forms.'
)
REQUIRED = {
    'searches': 500, 'same_calls': 400, 'resumed': 80, 'identified': 250, 'arguments_unchanged': 2500,
    'not_aliased': 400, 'positions_kept': 20000, 'read_only': 60, 'asynchronous': 100, 'objects': 100,
    'paths': 100, 'other_threads': 10,
}
BUDGET = {'quick': 50, 'thorough': 500}


def cases(seed, tier):
    num = 1400 if tier == 'quick' else 20000
    for i in range(num):
        yield dict(kind=['search', 'identify', 'search', 'resume'][i % 4], seed=seed * 1000003 + i)


# ------------------------------------------------------------------ gap functions


class Callable:
    def __init__(self, fct):
        self.fct = fct

    def __call__(self, pos):
        return self.fct(pos)

    def method(self, pos):
        return self.fct(pos)

    async def later(self, pos):
        return self.fct(pos)


class Later(Callable):
    async def __call__(self, pos):
        await asyncio.sleep(0)
        return self.fct(pos)


class Awaitable:
    """Neither a coroutine nor a future."""
    def __init__(self, fct, pos):
        self.fct = fct
        self.pos = pos

    def __await__(self):
        yield from asyncio.sleep(0).__await__()
        return self.fct(self.pos)


def _first(_, fct, pos):
    return fct(pos)


async def _first_later(_, fct, pos):
    return fct(pos)


def gap_forms(fct):
    def future(pos):
        res = asyncio.get_running_loop().create_future()
        res.set_result(fct(pos))
        return res

    async def coroutine(pos):
        return fct(pos)

    return dict(
        function=lambda pos: fct(pos),  # pylint: disable=unnecessary-lambda
        default_argument=lambda pos, more=None: fct(pos),
        varargs=lambda *args: fct(*args),
        callable_object=Callable(fct),
        method=Callable(fct).method,
        partial=functools.partial(_first, 0, fct),
        coroutine=coroutine,
        coroutine_method=Callable(fct).later,
        coroutine_object=Later(fct),
        coroutine_partial=functools.partial(_first_later, 0, fct),
        future=future,
        task=lambda pos: asyncio.ensure_future(coroutine(pos)),
        awaitable=lambda pos: Awaitable(fct, pos),
        thread=lambda pos: asyncio.get_running_loop().run_in_executor(None, fct, pos),
    )


VALUES = dict(
    same=lambda v: v,
    python=float,
    numpy=np.float64,
    array=np.array,
    long=np.longdouble,
)


# ------------------------------------------------------------------ other arguments


def number(rng, val):
    """The same number with another type."""
    forms = [float, np.float64]
    if float(val) == int(val):
        forms += [int, np.int64, np.float32] if abs(val) < 1000 else [int, np.int64]
    return w.pick(rng, forms)(val)


def read_only(arr):
    arr = np.array(arr)
    arr.setflags(write=False)
    return arr


def array_form(rng, arr, obs):
    """The same array with another memory layout."""
    arr = np.array(arr, dtype=float)
    form = w.pick(rng, ['fortran', 'read_only', 'strided', 'negative', 'byteswapped', 'subclass', 'long'])
    if form == 'fortran':
        return np.asfortranarray(arr)
    if form == 'read_only':
        obs.count('read_only')
        return read_only(arr)
    if form == 'strided':
        big = np.full(tuple(2 * n for n in arr.shape), np.nan)
        view = big[tuple(slice(None, None, 2) for _ in arr.shape)]
        view[...] = arr
        return view
    if form == 'negative':
        return np.array(arr[::-1])[::-1]
    if form == 'byteswapped':
        return arr.astype('>f8')
    if form == 'subclass':
        return arr.view(np.ma.MaskedArray) if rng.random() < 0 else np.array(arr).view(type('Arr', (np.ndarray, ), {}))
    return np.array(arr)


def limits_form(rng, limits, obs):
    if rng.random() < 0.25:
        return array_form(rng, limits, obs)
    pair = w.pick(rng, [list, tuple, np.array, reversed_pair, lambda x: types_pair(rng, x)])
    outer = w.pick(rng, [list, tuple])
    return outer(pair(list(l)) for l in limits)


def reversed_pair(pair):
    return tuple(pair[::-1])


def types_pair(rng, pair):
    return [number(rng, v) for v in pair]


def mesh_form(rng, mesh):
    if isinstance(mesh, (int, np.integer)):
        return w.pick(rng, [int, np.int64, np.int32, np.uint8])(mesh)
    return w.pick(rng, [list, tuple, np.array, lambda m: [np.int32(v) for v in m], lambda m: np.array(m, dtype=np.uint8)])(
        list(mesh))


def mapping_form(rng, nm):
    return w.pick(rng, [
        dict, types.MappingProxyType, collections.OrderedDict, lambda d: collections.ChainMap({}, d),
        lambda d: {k: number(rng, v) if isinstance(v, float) else v for k, v in d.items()}
    ])(dict(nm))


def path_form(rng, name):
    full = os.path.abspath(name)
    return w.pick(rng, [name, './' + name, full, pathlib.Path(name), pathlib.Path(full),
                        os.path.join('sub', '..', name)])


def snapshot(val):
    """The value of an argument, as comparable data."""
    if val is None or isinstance(val, (str, pathlib.Path, bool)):
        return repr(val)
    if isinstance(val, np.ndarray):
        return ('array', val.dtype.str, val.shape, np.array(val, dtype=float).tobytes(), val.flags.writeable)
    if isinstance(val, (np.generic, int, float)):
        return (type(val).__name__, float(val))
    if isinstance(val, collections.abc.Mapping):
        return (type(val).__name__, [(k, snapshot(v)) for k, v in val.items()])
    if isinstance(val, (list, tuple)):
        return (type(val).__name__, [snapshot(v) for v in val])
    return content(val)


def overwrite(val):
    """Change an argument in place, as far as possible."""
    if isinstance(val, np.ndarray):
        if val.flags.writeable:
            val[...] = 7.
            return 1
        return 0
    if isinstance(val, list):
        num = sum(overwrite(v) for v in val)
        val.clear()
        return num + 1
    if isinstance(val, tuple):
        return sum(overwrite(v) for v in val)
    if isinstance(val, (dict, collections.ChainMap)):
        val.clear()
        return 1
    return 0


# ------------------------------------------------------------------ searches


class Kept(Recorder):
    """Keeps the positions which it was given."""
    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self.given = []

    def __call__(self, pos):
        self.given.append(pos)
        return super().__call__(pos)


def check_kept(rec, obs, **details):
    for pos, given in zip(rec.pos, rec.given):
        if tuple(float(v) for v in given) != pos:
            raise Violation(
                'a position which was given to the gap function is changed afterwards',
                given=pos, now=given, **details
            )
    obs.count('positions_kept', len(rec.given))


def compare(first, second, message, **details):
    if first != second:
        raise Violation(message, difference=describe_difference(first, second), **details)


def run_search(case, rng, obs):
    clear_scratch()
    problem = w.random_problem(
        rng, dims=(1, 2, 3), dim_weights=(2, 4, 1), fake=0.2, max_mesh=3, small_stencil=True,
        parallel=(1, ), stencil_none=0.25, feature_range=(0.2, 0.8)
    )
    if rng.random() < 0.3:
        problem['box']['limits'] = [
            [float(np.floor(a)), float(np.floor(a) + max(1., np.round(b - a)))]
            for a, b in problem['box']['limits']
        ]
    kwargs = w.search_kwargs(problem)
    gap = w.Gap(problem['gap'], problem['box'])
    resume = case['kind'] == 'resume'
    with event_loops():
        state = None
        if resume:
            # an interrupted search
            stop = int(rng.integers(1, 80))

            def failing(pos):
                if stopper.num > stop:
                    raise RuntimeError('stop')
                return gap(pos)

            stopper = Recorder(failing, max_calls=5000)
            try:
                search.run(stopper, save_file='state.hdf5', **kwargs)
            except RuntimeError:
                pass
            except TooLong:
                obs.count('abandoned')
                return
            if not os.path.exists('state.hdf5'):
                return
            state = io.load('state.hdf5')
            if rng.random() < 0.4:
                # continued with other settings
                low, size = w.box_arrays(problem['box'])
                shift = size * rng.uniform(-1.5, 1.5, size=len(size))
                kwargs['limits'] = [(a, a + b) for a, b in zip(low + shift, size)]
                kwargs['periodic'] = bool(rng.random() < 0.7)
                kwargs['feature_size'] = kwargs.get('feature_size', 2e-3) * rng.uniform(0.7, 1.5)
                obs.count('other_settings')
        try:
            rec = Kept(gap, max_calls=5000)
            extra = dict(initial_state=io.load('state.hdf5')) if resume else {}
            plain = search.run(rec, **kwargs, **extra)
        except TooLong:
            obs.count('abandoned')
            return
        expected = content(plain)
        check_kept(rec, obs, form='plain')

        form = dict(value=w.pick(rng, list(VALUES)))
        inner = Kept(lambda pos: VALUES[form['value']](gap(pos)), max_calls=5000)
        forms = gap_forms(inner)
        form['gap'] = w.pick(rng, list(forms), [1] * (len(forms) - 1) + [0.5])
        other = dict(kwargs)
        other['limits'] = limits_form(rng, kwargs['limits'], obs)
        if 'initial_mesh_size' in other:
            other['initial_mesh_size'] = mesh_form(rng, kwargs['initial_mesh_size'])
        stencil = kwargs.get('refinement_stencil')
        if isinstance(stencil, np.ndarray):
            other['refinement_stencil'] = array_form(rng, stencil, obs)
        if 'nelder_mead_kwargs' in other:
            other['nelder_mead_kwargs'] = mapping_form(rng, kwargs['nelder_mead_kwargs'])
        for key in ('feature_size', 'gap_threshold'):
            other[key] = number(rng, kwargs[key])
        for key in ('recheck_count_cutoff', 'simplex_check_cutoff', 'num_minimize_parallel'):
            if key in other:
                other[key] = w.pick(rng, [int, np.int64, np.uint8])(other[key])
        for key in ('periodic', 'use_fake_potential', 'recheck_pos_dist'):
            if key in other:
                other[key] = w.pick(rng, [bool, np.bool_, int])(other[key])
        if resume:
            other['initial_state'] = state
        if rng.random() < 0.4:
            os.makedirs('sub', exist_ok=True)
            other['save_file'] = path_form(rng, 'c21.hdf5')
            other['save_delay'] = number(rng, 0.)
            if resume and rng.random() < 0.5:
                # through the file
                io.save(other.pop('initial_state'), w.pick(rng, ['c21.hdf5', other['save_file']]))
                other['load'] = True
            obs.count('paths')
        form.update({k: type(v).__name__ for k, v in other.items()})
        names = sorted(other)
        before = {k: snapshot(other[k]) for k in names}
        use_async = rng.random() < 0.2
        try:
            if use_async:
                result = asyncio.run(search.run_async(forms[form['gap']], **other))
            else:
                result = search.run(forms[form['gap']], **other)
        except TooLong:
            obs.count('abandoned')
            return
        except Stall:
            raise Violation('search does not make progress', form=form)
        after = {k: snapshot(other[k]) for k in names}
    for key in names:
        if before[key] != after[key]:
            raise Violation('the search modifies its argument ' + key, form=form)
        obs.count('arguments_unchanged')
    if rec.pos != inner.pos:
        raise Violation('the calls of the gap function depend on the form of the arguments',
                        calls=[rec.num, inner.num], form=form)
    obs.count('same_calls')
    check_kept(inner, obs, form=form)
    compare(expected, content(result), 'the result depends on the form of the arguments', form=form)
    if 'save_file' in other:
        saved = io.load(path_form(rng, 'c21.hdf5'))
        if content(saved.result) != content(result):
            raise Violation('the saved result depends on the form of the arguments', form=form)
        if os.listdir('sub'):
            raise Violation('the save file is at another place', files=os.listdir('sub'), form=form)
    # results do not refer to the arguments
    done = sum(
        overwrite(v) for k, v in other.items() if k not in ('initial_state', )
    )
    for given in inner.given + rec.given:
        if isinstance(given, np.ndarray) and given.flags.writeable:
            given[...] = np.nan
    if resume:
        obs.count('resumed')
        for res in state.result.minimization_results:
            res.pos[...] = np.nan
    compare(expected, content(result), 'the result changes when the arguments are modified afterwards', form=form)
    compare(expected, content(plain), 'the result changes when the given positions are modified afterwards', form=form)
    obs.count('not_aliased', done > 0)
    obs.count('asynchronous', form['gap'] in (
        'coroutine', 'coroutine_method', 'coroutine_object', 'coroutine_partial', 'future', 'task', 'awaitable'))
    obs.count('objects', form['gap'] in ('callable_object', 'method', 'partial', 'coroutine_object', 'coroutine_method'))
    obs.count('other_threads', form['gap'] == 'thread')
    obs.count('searches')
    obs.key(sorted(form.items()), problem['dim'])
    obs.sample = dict(form=form, calls=rec.num)


# ------------------------------------------------------------------ identification


def positions_form(rng, pts, obs):
    pts = np.array(pts)
    form = w.pick(rng, ['array', 'tuples', 'lists', 'arrays', 'mixed', 'rows', 'layout', 'iterator', 'int'])
    if form == 'array':
        return form, np.array(pts)
    if form == 'tuples':
        return form, [tuple(float(v) for v in p) for p in pts]
    if form == 'lists':
        return form, tuple([float(v) for v in p] for p in pts)
    if form == 'arrays':
        return form, [np.array(p) for p in pts]
    if form == 'mixed':
        return form, [w.pick(rng, [tuple, list, np.array, read_only])(list(p)) for p in pts]
    if form == 'rows':
        return form, list(pts)
    if form == 'layout':
        return form, array_form(rng, pts, obs)
    if form == 'iterator':
        return form, (tuple(p) for p in pts)
    if np.all(pts == np.round(pts)):
        return form, [tuple(int(v) for v in p) for p in pts]
    return 'array', np.array(pts)


def run_identify(case, rng, obs):
    dim = int(w.pick(rng, [1, 2, 3]))
    box = w.random_box(rng, dim)
    low, size = w.box_arrays(box)
    fs = float(np.min(size) * rng.uniform(0.05, 0.3))
    if rng.random() < 0.25:
        # integers
        box = dict(limits=[[0., 12.]] * dim, periodic=box['periodic'])
        low, size = w.box_arrays(box)
        fs = float(w.pick(rng, [1., 2.]))
        pts = rng.integers(0, 12, size=(int(rng.integers(1, 40)), dim)).astype(float)
    else:
        pts = np.array(clouds.random_cloud(rng, box), dtype=float).reshape(-1, dim)
    pts = pts[:80]
    method = w.pick(rng, ['ballistic', 'shortest_path', 'dominating_set', None])
    kwargs = {} if method is None else dict(evaluate_line_method=method)
    seed = int(rng.integers(10**9))

    def call(positions, system, feature_size):
        random.seed(seed)
        np.random.seed(seed % 2**32)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return identify.run_from_positions(
                positions, coordinate_system=system, feature_size=feature_size, **kwargs
            )

    system = CoordinateSystem(limits=[tuple(l) for l in box['limits']], periodic=box['periodic'])
    reference = [tuple(float(v) for v in p) for p in pts]
    plain = call(list(reference), system, fs)
    expected = content(plain)
    name, given = positions_form(rng, pts, obs)
    limits = limits_form(rng, box['limits'], obs)
    feature = number(rng, fs)
    other_system = CoordinateSystem(
        limits=limits, periodic=w.pick(rng, [bool, np.bool_, int])(box['periodic'])
    )
    form = dict(positions=name, limits=type(limits).__name__, feature_size=type(feature).__name__,
                periodic=type(other_system.periodic).__name__)
    args = dict(positions=given, limits=limits, feature_size=feature, coordinate_system=other_system)
    if name == 'iterator':
        args.pop('positions')
    before = {k: snapshot(v) for k, v in args.items()}
    result = call(given, other_system, feature)
    for key, val in args.items():
        if snapshot(val) != before[key]:
            raise Violation('the identification modifies its argument ' + key, form=form)
        obs.count('arguments_unchanged')
    compare(expected, content(result), 'identified objects depend on the form of the arguments', form=form)
    done = overwrite(limits)
    if name != 'iterator':
        done += overwrite(given)
    compare(expected, content(result), 'the identification result changes when the arguments are modified afterwards',
            form=form)
    obs.count('not_aliased', done > 0)
    obs.count('identified')
    obs.key('identify', sorted(form.items()), dim, box['periodic'])
    obs.sample = dict(form=form, positions=len(pts))


def run_case(case, obs):
    rng = w.rng_of(case)
    if case['kind'] == 'identify':
        run_identify(case, rng, obs)
    else:
        try:
            run_search(case, rng, obs)
        finally:
            if os.path.isdir('sub'):
                for name in os.listdir('sub'):
                    os.remove(os.path.join('sub', name))
                os.rmdir('sub')
