"""C23: nothing unexpected is printed or warned about, and printed objects are described correctly."""
import asyncio
import contextlib
import gc
import logging
import os
import random
import re
import sys
import tempfile
import warnings

import matplotlib.pyplot as plt
import numpy as np

from nodefinder import identify, io, search
from nodefinder.coordinate_system import CoordinateSystem

from .. import clouds
from .. import world as w
from ..content import content, describe_difference
from ..core import Violation, clear_scratch
from ..monitor import require
from ..runner import observe_search
from . import c09

PROPERTY = 'C23'
LEVEL = 'exploration'
RULE = (
    'search: a random search (also with infinite and NaN values, saved, loaded and plotted), '
    'watching the output on the level of file descriptors and all warnings; repeated with '
    'warnings turned into errors, and with all log messages switched on. failing: searches '
    'which raise or are cancelled. identify: the same for sets of positions. describe: '
    'repr and str of random objects of all classes. Distinct by options and content.'
)
REQUIRED = {
    'quiet_searches': 120, 'warnings_as_errors': 120, 'logged': 120, 'records': 1500, 'special_values': 15,
    'failed': 40, 'identified': 120, 'described': 800, 'quiet_plots': 40, 'lines_found': 50,
    'asynchronous': 30, 'bundles': 15,
}
BUDGET = {'quick': 60, 'thorough': 500}
METHODS = ['ballistic', 'shortest_path', 'dominating_set']


def cases(seed, tier):
    num = 1600 if tier == 'quick' else 24000
    for i in range(num):
        yield dict(
            kind=['search', 'identify', 'describe', 'search', 'failing', 'identify', 'search', 'bundle'][i % 8], seed=seed * 1000003 + i
        )


# ------------------------------------------------------------------ output


class Captured:
    """What was written to standard output and standard error."""
    def __init__(self):
        self.out = self.err = None


@contextlib.contextmanager
def captured():
    """Watch the file descriptors, such that no way of printing is missed."""
    result = Captured()
    sys.stdout.flush()
    sys.stderr.flush()
    saved = [os.dup(1), os.dup(2)]
    files = [tempfile.TemporaryFile(dir='.'), tempfile.TemporaryFile(dir='.')]
    try:
        os.dup2(files[0].fileno(), 1)
        os.dup2(files[1].fileno(), 2)
        yield result
    finally:
        sys.stdout.flush()
        sys.stderr.flush()
        for num, desc in enumerate(saved, 1):
            os.dup2(desc, num)
            os.close(desc)
        texts = []
        for file in files:
            file.seek(0)
            texts.append(file.read().decode('utf-8', 'replace'))
            file.close()
        result.out, result.err = texts


@contextlib.contextmanager
def log_level(level, obs):
    """Log everything, and see that it can be written."""
    logger = logging.getLogger('nodefinder')
    before = logger.level
    logger.setLevel(level)
    records = []

    class Handler(logging.Handler):
        def emit(self, record):
            records.append(record.getMessage())

    handler = Handler()
    logger.addHandler(handler)
    try:
        yield records
    finally:
        logger.removeHandler(handler)
        logger.setLevel(before)
        obs.count('records', len(records))


def unexpected(text):
    """Output apart from messages of the logger with at least level warning."""
    return [l for l in text.splitlines() if not re.match(r'\S+ \S+ - (WARNING|ERROR|CRITICAL) - ', l)]


@contextlib.contextmanager
def watched(action='always'):
    """Warnings for users; those for developers depend on the versions of the libraries."""
    with warnings.catch_warnings(record=action == 'always') as warned:
        warnings.simplefilter(action)
        for kind in (DeprecationWarning, PendingDeprecationWarning, FutureWarning, ResourceWarning):
            warnings.simplefilter('ignore', kind)
        yield warned


def quiet(what, seen, warned, allowed_warnings=False, **details):
    if unexpected(seen.out):
        raise Violation(what + ' prints to standard output', output=seen.out[:2000], **details)
    if seen.err:
        raise Violation(what + ' prints to standard error', output=seen.err[:2000], **details)
    if warned and not allowed_warnings:
        raise Violation(
            what + ' emits a warning', warnings=[
                '{}: {} ({}:{})'.format(m.category.__name__, m.message, m.filename, m.lineno) for m in warned[:5]
            ], **details
        )


# ------------------------------------------------------------------ search


def make_problem(rng):
    return w.random_problem(
        rng, dims=(1, 2, 3), dim_weights=(2, 4, 1), fake=0.3, max_mesh=3, small_stencil=True,
        stencil_none=0.2, feature_range=(0.15, 0.8)
    )


class Wild:
    """Gap function with a region of special values."""
    def __init__(self, fct, box, rng):
        self.fct = fct
        self.low, self.size = w.box_arrays(box)
        self.axis = int(rng.integers(len(self.low)))
        self.cut = rng.uniform(0.1, 0.7)
        self.value = w.pick(rng, [float('inf'), float('nan'), 1e100, np.float64('inf'), np.float64('nan')])

    def __call__(self, pos):
        frac = (pos[self.axis] - self.low[self.axis]) / self.size[self.axis]
        if (frac % 1.) < self.cut:
            return self.value
        return self.fct(pos)


def same_run(first, second, how):
    if len(first.rec.pos) != len(second.rec.pos) or any(
        np.any(np.array(a) != np.array(b)) for a, b in zip(first.rec.pos, second.rec.pos)
    ):
        raise Violation('the search calls the gap function differently ' + how)
    before, after = content(first.result), content(second.result)
    if repr(before) != repr(after):
        raise Violation(
            'the result of the search is different ' + how, difference=describe_difference(before, after)
        )


def run_searches(case, rng, obs):
    clear_scratch()
    problem = make_problem(rng)
    gap = w.Gap(problem['gap'], problem['box'])
    wild = rng.random() < 0.3
    wild_seed = int(rng.integers(10**9))
    delay = w.pick(rng, ['none', 'uniform', 'long'])
    use_coro = bool(rng.random() < 0.4)
    kwargs = {}
    details = dict(options=problem['options'], box=problem['box'], wild=wild)
    if rng.random() < 0.3:
        problem['options']['nelder_mead_kwargs'] = {
            w.pick(rng, ['maxiter', 'maxfev']): int(rng.integers(1, 60)),
            **({'fprime_cutoff': float(10**rng.uniform(-4, 1))} if rng.random() < 0.5 else {})
        }

    def run(save=False):
        fct = Wild(gap, problem['box'], np.random.default_rng(wild_seed)) if wild else gap
        extra = dict(kwargs)
        if save:
            extra.update(save_file=os.path.abspath('s.hdf5'), save_delay=float(w.pick(rng, [0., 0.01, 5.])))
        return observe_search(
            problem, fct=fct, seed=case['seed'], delay=delay, use_coro=use_coro, extra=extra, max_calls=3000
        )

    with captured() as seen, watched() as warned:
        save = rng.random() < 0.3
        first = run(save=save)
    quiet('search', seen, warned, **details)
    if first.abandoned:
        obs.count('abandoned')
        return
    obs.count('quiet_searches')
    obs.count('special_values', wild)
    obs.count('asynchronous', use_coro)
    with captured() as seen, watched('error'):
        second = run()
    quiet('search', seen, (), **details)
    same_run(first, second, 'if warnings are errors')
    obs.count('warnings_as_errors')
    with captured() as seen, watched('error'):
        with log_level(w.pick(rng, [logging.DEBUG, logging.INFO]), obs):
            second = run()
    require(not seen.err, 'search with log messages prints to standard error', output=seen.err[:2000], **details)
    same_run(first, second, 'if log messages are shown')
    obs.count('logged')
    with captured() as seen, watched() as warned:
        io.save(first.result, 'r.hdf5')
        loaded = io.load('r.hdf5')
        if save:
            io.load('s.hdf5')
    quiet('saving and loading', seen, warned, **details)
    describe(first.result, obs)
    if problem['dim'] in (2, 3) and rng.random() < 0.5:
        with captured() as seen, watched() as warned:
            if loaded.nodes:
                search.plot.points(loaded)
            search.plot.simplices(loaded)
            plt.close('all')
        quiet('plot of the search', seen, warned, **details)
        obs.count('quiet_plots')
    obs.key(problem['dim'], wild, delay, use_coro, len(first.result.nodes), len(first.rec.pos))


class Failure(Exception):
    """Raised by a gap function."""


def run_failing(case, rng, obs):
    """The exception is raised, and nothing else is said about it."""
    clear_scratch()
    problem = make_problem(rng)
    gap = w.Gap(problem['gap'], problem['box'])
    at = int(10**rng.uniform(0, 2.5))
    several = bool(rng.random() < 0.5)
    context = w.pick(rng, ['run', 'async', 'nested', 'cancel', 'load'])
    calls = [0]
    tasks = []
    delays = np.random.default_rng(case['seed'])

    def step():
        calls[0] += 1
        if calls[0] > 3000:
            raise Failure()
        if calls[0] == at or (several and calls[0] > at):
            if context == 'cancel':
                tasks[0].cancel()
            else:
                raise Failure()

    def fct(pos):
        step()
        return gap(pos)

    async def coro(pos):
        for _ in range(int(delays.integers(0, 4))):
            await asyncio.sleep(0)
        step()
        return gap(pos)

    kwargs = w.search_kwargs(problem)
    fct = coro if rng.random() < 0.6 or context == 'cancel' else fct
    if rng.random() < 0.4:
        kwargs.update(save_file=os.path.abspath('f.hdf5'), save_delay=float(w.pick(rng, [0., 0.01, 5.])))
    if context == 'load':
        kwargs.update(save_file=os.path.abspath('missing.hdf5'), load=True, load_quiet=False)

    async def main():
        if context == 'nested':
            return search.run(fct, **kwargs)
        tasks.append(asyncio.ensure_future(search.run_async(fct, **kwargs)))
        return await tasks[0]

    raised = None
    with captured() as seen, watched() as warned:
        try:
            if context in ('run', 'load'):
                search.run(fct, **kwargs)
            else:
                asyncio.run(main())
        except (Failure, asyncio.CancelledError, OSError) as exc:
            raised = type(exc).__name__
            del exc
        tasks.clear()
        gc.collect()
    quiet('search which ends with an exception', seen, warned, context=context, at=at, raised=raised)
    obs.count('failed', raised is not None)
    obs.key('failing', context, raised, min(at, 20), several)


# ------------------------------------------------------------------ identify


def bundle(rng, fs):
    """Several lines between the same two points."""
    num = int(rng.integers(3, 8))
    height, width = fs * rng.uniform(2.5, 5), fs * rng.uniform(2, 3)
    t = np.linspace(0, np.pi, int(4 * (height + width) / (0.7 * fs)))
    parts = []
    for i in range(num):
        phi = 2 * np.pi * i / num
        parts.append(np.array([
            width * np.sin(t) * np.cos(phi), width * np.sin(t) * np.sin(phi), height * np.cos(t)
        ]).T)
    # most positions are near these points
    for sign in (-1, 1):
        parts.append(
            0.15 * fs * rng.normal(size=(int(rng.integers(60, 200)), 3)) + np.array([0, 0, sign * height])
        )
    pts = np.concatenate(parts)
    return dict(kind='bundle', num=num, pts=pts + rng.normal(size=pts.shape) * 0.01 * fs)


def make_positions(rng, bundled=False):
    """(positions, box, feature size)"""
    if not bundled and rng.random() < 0.4:
        dim = int(w.pick(rng, [1, 2, 3]))
        box = w.random_box(rng, dim)
        _, size = w.box_arrays(box)
        return clouds.random_cloud(rng, box), box, float(np.min(size) * 10**rng.uniform(-1.3, -0.3))
    dim = int(w.pick(rng, [2, 3], [2, 1]))
    if bundled:
        scale = float(10**rng.uniform(-2, 2))
        scn = clouds.place(rng, 3, [bundle(rng, scale)], scale)
    elif rng.random() < 0.6:
        num = int(rng.integers(1, 3))
        scale = float(10**rng.uniform(-2, 2))
        feats = []
        for _ in range(num):
            if rng.random() < 0.3:
                feats.append(clouds.line_with_patch(rng, dim, scale))
            else:
                feats.append(clouds.feature(rng, dim, scale, dims=(0, 1)))
        scn = clouds.place(rng, dim, feats, scale)
    else:
        scn = clouds.scene(rng, dim, dims=(0, 1, 2), max_features=2)
    pts = np.concatenate([f['pts'] for f in scn['features']])
    return clouds.tuples(pts), scn['box'], scn['fs']


def run_identify(case, rng, obs):
    bundled = case['kind'] == 'bundle'
    pts, box, fs = make_positions(rng, bundled)
    if len(pts) > 800 or not len(pts):
        return
    method = w.pick(rng, METHODS, [1, 1, 1] if not bundled else [1, 8, 1])
    system = CoordinateSystem(limits=box['limits'], periodic=box['periodic'])
    details = dict(method=method, box=box, fs=fs, number=len(pts))

    def run():
        random.seed(case['seed'])
        return identify.run_from_positions(
            list(pts), coordinate_system=system, feature_size=fs, evaluate_line_method=method
        )

    with captured() as seen, watched() as warned:
        first = run()
    undetermined = sum(o.dimension is None for o in first) + sum(
        o.dimension == 1 and o.shape is None for o in first
    )
    quiet('identification', seen, warned, allowed_warnings=undetermined > 0, **details)
    if undetermined:
        obs.count('undetermined')
    require(
        len(warned) >= (undetermined > 0), 'no warning about an object which could not be identified', **details
    )
    obs.count('identified')
    obs.count('lines_found', sum(o.dimension == 1 for o in first))
    obs.count('bundles', bundled and method == 'shortest_path')
    with captured() as seen, watched('ignore' if undetermined else 'error'):
        with log_level(w.pick(rng, [logging.DEBUG, logging.INFO]), obs):
            second = run()
    require(
        not seen.err, 'identification with log messages prints to standard error', output=seen.err[:2000], **details
    )
    before, after = content(first), content(second)
    if repr(before) != repr(after):
        raise Violation(
            'the result of the identification is different if log messages are shown',
            difference=describe_difference(before, after), **details
        )
    with captured() as seen, watched() as warned:
        io.save(first, 'i.hdf5')
        io.load('i.hdf5')
        if len(box['limits']) in (2, 3) and rng.random() < 0.4:
            identify.plot.result(first)
            plt.close('all')
            obs.count('quiet_plots')
    quiet('saving, loading and plotting the identified objects', seen, warned, **details)
    describe(first, obs)
    obs.key('identify', method, box['periodic'], len(pts), [o.dimension for o in first])


# ------------------------------------------------------------------ descriptions


def numbers(text):
    return [int(v) for v in re.findall(r'(?<![\w.+-])\d+(?![\w.])', text)]


def describe(obj, obs):
    """The description of an object names its contents, and does not change it."""
    before = repr(content(obj))
    with captured() as seen, watched() as warned:
        texts = [repr(obj), str(obj), '{}'.format(obj)]
    quiet('describing an object', seen, warned)
    name = type(obj).__name__
    for text in texts:
        require(isinstance(text, str) and text, 'empty description', type=name)
    require(repr(content(obj)) == before, 'describing an object changes it', type=name)
    text = texts[0]
    obs.count('described')

    def has(condition, what):
        if not condition:
            raise Violation('the description of the {} does not have {}'.format(name, what), text=text[:2000])

    if name in (
        'CoordinateSystem', 'SearchResultContainer', 'MinimizationResult', 'NodalPoint', 'NodalLine',
        'IdentificationResult', 'IdentificationResultContainer'
    ):
        has(name in text, 'the name of its class')
    if name == 'CoordinateSystem':
        made = eval(text, dict(CoordinateSystem=CoordinateSystem, array=np.array))  # pylint: disable=eval-used
        limits = np.array(obj.limits, dtype=float)
        # arrays are shown with eight digits
        error = np.max(np.abs(np.array(made.limits, dtype=float) - limits))
        has(error <= 1e-6 * np.max(np.abs(limits)), 'the limits')
        has(np.all(np.array(made.periodic) == np.array(obj.periodic)), 'the kind of boundary')
    elif name == 'SearchResultContainer':
        has(len(obj.minimization_results) in numbers(text), 'the number of results')
        has(repr(obj.coordinate_system) in text, 'the coordinate system')
        has(repr(obj.gap_threshold) in text, 'the gap threshold')
        has(repr(obj.dist_cutoff) in text, 'the distance cutoff')
        describe(obj.coordinate_system, obs)
        for res in obj.minimization_results[:5]:
            describe(res, obs)
    elif name == 'NodalLine':
        has(obj.graph.number_of_nodes() in numbers(text), 'the number of nodes')
        has(obj.graph.number_of_edges() in numbers(text), 'the number of edges')
        has(obj.shape_name in text, 'the name of the shape')
        for deg, num in obj.degree_count.items():
            has('{}: {}'.format(deg, num) in text, 'the degree count')
    elif name == 'IdentificationResult':
        has(len(obj.positions) in numbers(text), 'the number of positions')
        has('dimension={}'.format(obj.dimension) in text, 'the dimension')
        has(repr(obj.shape) in text, 'the shape')
        if obj.shape is not None:
            describe(obj.shape, obs)
    elif name == 'IdentificationResultContainer':
        has(repr(obj.coordinate_system) in text, 'the coordinate system')
        has(repr(obj.feature_size) in text, 'the feature size')
        for res in obj.results:
            has(repr(res) in text, 'one of the objects')
            describe(res, obs)


def run_describe(case, rng, obs):
    for _ in range(5):
        dim = int(w.pick(rng, [1, 2, 3]))
        box = w.random_box(rng, dim)
        which = w.pick(rng, ['search', 'state', 'identify', 'identify'])
        if which == 'search':
            obj = c09.search_result(rng, box)
        elif which == 'state':
            obj = c09.state(rng, box)
        else:
            obj = c09.identification(rng, box)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            describe(obj, obs)
            if rng.random() < 0.5:
                path = os.path.abspath('d.hdf5')
                io.save(obj, path)
                describe(io.load(path), obs)
        obs.key('describe', which, dim, hash(repr(content(obj))) % 1000)


def run_case(case, obs):
    rng = w.rng_of(case)
    return dict(
        search=run_searches, failing=run_failing, identify=run_identify, describe=run_describe,
        bundle=run_identify
    )[case['kind']](case, rng, obs)
