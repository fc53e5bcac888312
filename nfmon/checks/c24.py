"""C24: searches and identifications end, with bounded effort."""
import contextlib
import itertools
import math
import signal
import time
import warnings
import zlib

import numpy as np

from nodefinder import identify, search
from nodefinder.search.result import SearchResultContainer

from .. import clouds
from .. import world as w
from ..core import Violation
from ..coverage import mesh_simplices
from ..monitor import require
from ..runner import observe_search

PROPERTY = 'C24'
LEVEL = 'exploration'
RULE = (
    'feature: searches for random features, most of them extended, with few or many '
    'starting simplices. wild: functions for which a minimization has nothing to converge '
    'to: noise (deterministic or not), values which fall with each call or without bound, '
    'plateaus, functions which are zero, infinite or NaN (almost) everywhere. The refined '
    'positions, minimizations and calls of the gap function are counted while the search '
    'runs, and compared with what fits into the box. resume: the same for a search which '
    'is stopped many times after a few calls and goes on from the save file. identify: '
    'sets of positions chosen to be hard for the identification, which has to end within '
    'a limit of CPU time. open: known finding, a feature which leaves a box that is not '
    'periodic. Distinct by kind of function, space and effort.'
)
REQUIRED = {
    'ended': 700, 'refined': 1800, 'minimizations': 7500, 'wild': 400, 'wild_refined': 1200, 'periodic': 350,
    'open_box': 280, 'exhausted_limit': 2500, 'identified': 150, 'resumed': 40, 'full': 80, 'single': 150,
}
BUDGET = {'quick': 80, 'thorough': 700}
CPU_LIMIT = 250.
METHODS = ['ballistic', 'shortest_path', 'dominating_set']
# CPU time after which an identification is judged not to end; the slowest ones of
# intact code take about a hundredth of it
IDENTIFY_LIMIT = 60.


def cases(seed, tier):
    num = 2400 if tier == 'quick' else 12000
    kinds = ['open'] + ['wild', 'feature', 'wild', 'identify', 'wild', 'feature', 'wild', 'identify', 'resume']
    for i in range(num):
        kind = kinds[i % 10]
        if kind == 'open' and i:
            kind = 'wild'
        yield dict(kind=kind, seed=seed * 1000003 + i)


# ------------------------------------------------------------------ functions


class Wild:
    """A function without anything a minimization could converge to."""
    def __init__(self, kind, rng, box, threshold):
        self.kind = kind
        self.low, self.size = w.box_arrays(box)
        self.rng = rng
        self.threshold = threshold
        self.periodic = box['periodic']
        self.frac = float(w.pick(rng, [0.02, 0.3, 0.9]))
        self.direction = rng.normal(size=len(self.low))
        self.calls = 0
        # where the function is defined, if the box is not periodic
        self.margin = 0.2

    def __call__(self, pos):
        self.calls += 1
        pos = np.asarray(pos, dtype=float)
        rel = (pos - self.low) / self.size
        if not self.periodic and not (np.all(rel >= -self.margin) and np.all(rel <= 1 + self.margin)):
            return 1e3 + float(np.sum(np.abs(rel)))
        if self.kind == 'noise':
            val = zlib.crc32(pos.tobytes()) / 2**32
            return self.threshold * val / self.frac
        if self.kind == 'random':
            return self.threshold * self.rng.random() / self.frac
        if self.kind == 'falling':
            return self.threshold * 30 / self.calls
        if self.kind == 'negative':
            return -float(self.calls)
        if self.kind == 'slope':
            return float(rel @ self.direction)
        if self.kind == 'zero':
            return 0.
        if self.kind == 'above':
            return self.threshold * (1 + 1e-3)
        if self.kind == 'nan':
            return float('nan')
        if self.kind == 'inf':
            return float('inf')
        if self.kind == 'minus_inf':
            return -float('inf')
        if self.kind == 'partly_nan':
            return float('nan') if self.rng.random() < 0.1 else self.threshold * self.rng.random() / self.frac
        if self.kind == 'partly_inf':
            return float('inf') if self.rng.random() < 0.3 else 0.
        if self.kind == 'steps':
            return self.threshold * 3 * math.floor(4 * self.rng.random() * self.frac)
        raise ValueError(self.kind)


WILD = [
    'noise', 'random', 'falling', 'negative', 'slope', 'zero', 'zero', 'above', 'nan', 'inf', 'minus_inf',
    'partly_nan', 'partly_inf', 'steps'
]


# ------------------------------------------------------------------ bounds


def fitting(box, dc, count, margin):
    """
    How many positions fit into the box, if each is closer than the cutoff to at
    most `count` earlier ones: two positions in the same part of the box are closer
    than the cutoff.
    """
    low, size = w.box_arrays(box)
    if not box['periodic']:
        size = size * (1 + 2 * margin)
    edge = dc / math.sqrt(len(low)) * (1 - 1e-6)
    return (count + 1) * int(np.prod(np.ceil(size / edge)))


def run_bound(dim, options):
    """How many calls of the gap function a minimization makes at most."""
    nm = options.get('nelder_mead_kwargs', {})
    maxfev = nm.get('maxfev', 200 * dim)
    maxiter = nm.get('maxiter', 200 * dim)
    # the limits are checked before each iteration
    each = dim + 2
    bound = dim + 1 + min(maxfev + each, maxiter * each)
    return (2 if options.get('use_fake_potential') else 1) * bound


class Effort:
    """Counts what a search does, and compares it with the bounds."""
    def __init__(self, problem, margin):
        opts = problem['options']
        self.problem = problem
        self.dim = problem['dim']
        stencil = w.make_stencil(problem['stencil'], self.dim)[1]
        self.stencil = 0 if stencil is None else len(stencil)
        mesh = opts['initial_mesh_size']
        mesh = [mesh] * self.dim if isinstance(mesh, int) else mesh
        self.starts = len(mesh_simplices(problem['box'], mesh))
        self.max_refined = fitting(
            problem['box'], opts['feature_size'] / 3, opts.get('recheck_count_cutoff', 0), margin
        ) if self.stencil else 0
        self.max_run = run_bound(self.dim, opts)
        self.refined = 0
        self.runs = 0
        self.calls = 0
        # with one minimization at a time, calls belong to the one which ends next
        self.single = opts['num_minimize_parallel'] == 1
        self.in_run = 0
        self.longest = 0

    def details(self):
        return dict(
            refined=self.refined, fitting=self.max_refined, runs=self.runs, calls=self.calls, starts=self.starts,
            stencil=self.stencil, per_run=self.max_run, problem=self.problem
        )

    @property
    def allowed_runs(self):
        return self.starts + self.stencil * self.refined

    def on_refined(self):
        self.refined += 1
        if self.refined > self.max_refined:
            raise Violation('search goes on: it refines more positions than fit into the box', **self.details())

    def on_run(self):
        self.runs += 1
        self.longest = max(self.longest, self.in_run)
        self.in_run = 0
        if self.runs > self.allowed_runs:
            raise Violation(
                'search goes on: more minimizations than starting simplices and refinements', **self.details()
            )

    def on_call(self):
        self.calls += 1
        self.in_run += self.single
        if self.in_run > self.max_run:
            raise Violation('minimization goes on: more calls of the gap function than allowed', **self.details())
        # some minimizations are not finished
        if self.calls > self.allowed_runs * self.max_run:
            raise Violation('search goes on: more calls of the gap function than allowed', **self.details())


def make(case, rng):
    kind = case['kind']
    problem = w.random_problem(
        rng, dims=(1, 2, 3), dim_weights=(2, 5, 2), stencil_none=0.05, max_mesh=4 if kind != 'resume' else 3,
        feature_range=(0.15, 1.5), periodic=True if kind == 'resume' else None,
        gap_kinds=['points', 'line', 'line', 'surface', 'rugged', 'const', 'plateau', 'walls']
    )
    opts = problem['options']
    opts.pop('recheck_pos_dist', None)
    box = problem['box']
    low, size = w.box_arrays(box)
    dim = problem['dim']
    # keep the number of refined positions moderate
    limit = {1: 150, 2: 500, 3: 500}[dim]
    if problem['stencil'] is not None:
        if dim == 3:
            problem['stencil'] = w.random_stencil_spec(rng, 3, none=0., small=True)
        while fitting(box, opts['feature_size'] / 3, opts.get('recheck_count_cutoff', 0), 0.2) > limit:
            opts['feature_size'] *= 1.1
    return problem


def observed(problem, fct, effort, case, extra=None, stop_after=None):
    """Run a search and count; Violation if it does more than allowed."""
    calls = itertools.count(1)
    found = []

    def counting(pos):
        try:
            effort.on_call()
        except Violation as exc:
            found.append(exc)
            raise
        if stop_after is not None and next(calls) > stop_after:
            raise Interrupt()
        return fct(pos)

    orig_init = SearchResultContainer.__init__
    orig_add = SearchResultContainer.add_result
    orig_set = SearchResultContainer.set_refined

    def init(self, *args, **kwargs):
        # existing results are added
        watch[0] = False
        try:
            orig_init(self, *args, **kwargs)
        finally:
            watch[0] = True

    def add_result(self, *args, **kwargs):
        ret = orig_add(self, *args, **kwargs)
        if watch[0]:
            try:
                effort.on_run()
            except Violation as exc:
                found.append(exc)
                raise
        return ret

    def set_refined(self, *args, **kwargs):
        ret = orig_set(self, *args, **kwargs)
        if watch[0]:
            try:
                effort.on_refined()
            except Violation as exc:
                found.append(exc)
                raise
        return ret

    watch = [True]
    SearchResultContainer.__init__ = init
    SearchResultContainer.add_result = add_result
    SearchResultContainer.set_refined = set_refined
    rng = np.random.default_rng([case['seed'], 5])
    try:
        return observe_search(
            problem, fct=counting, use_coro=bool(rng.random() < 0.4), delay=w.pick(rng, ['none', 'uniform', 'long']),
            seed=case['seed'], extra=extra, max_calls=10**9, max_cpu=25.
        )
    finally:
        SearchResultContainer.__init__ = orig_init
        SearchResultContainer.add_result = orig_add
        SearchResultContainer.set_refined = orig_set
        if found:
            raise found[0]


class Interrupt(Exception):
    """Ends a search."""


def record(problem, effort, run, obs):
    obs.count('ended')
    obs.count('refined', effort.refined)
    obs.count('minimizations', effort.runs)
    obs.count('calls', effort.calls)
    obs.count('periodic', problem['box']['periodic'])
    obs.count('open_box', not problem['box']['periodic'])
    if effort.max_refined:
        obs.count('full', effort.refined > 0.15 * effort.max_refined)
        obs.maximum('refined_of_fitting', effort.refined / effort.max_refined)
    if effort.single:
        obs.count('single')
        obs.maximum('longest_of_allowed', effort.longest / effort.max_run)
    obs.maximum('calls_of_allowed', effort.calls / (effort.allowed_runs * effort.max_run))
    res = run.result
    obs.count('exhausted_limit', sum(int(r.status) in (1, 2) for r in itertools.chain(res.nodes, res.rejected_results)))


def run_feature(case, obs):
    rng = w.rng_of(case)
    problem = make(case, rng)
    box = problem['box']
    fct = w.Gap(problem['gap'], box)
    margin = 0.
    if not box['periodic']:
        # the features end where the function is not defined
        inner, margin = fct, 0.2
        low, size = w.box_arrays(box)

        def fct(pos):
            rel = (np.asarray(pos, dtype=float) - low) / size
            if not (np.all(rel >= -margin) and np.all(rel <= 1 + margin)):
                return 1e6 + float(np.sum(np.abs(rel)))
            return inner(pos)

    if problem['gap']['kind'] == 'const' and not box['periodic']:
        problem['options']['gap_threshold'] = min(problem['options']['gap_threshold'], 1e5)
    effort = Effort(problem, margin)
    run = observed(problem, fct, effort, case)
    if run.abandoned or run.result is None:
        obs.count('abandoned')
        return
    record(problem, effort, run, obs)
    obs.key('feature', problem['dim'], problem['gap']['kind'], effort.refined, effort.runs)
    obs.sample = dict(box=box, refined=effort.refined, fitting=effort.max_refined, calls=effort.calls)


def run_wild(case, obs):
    rng = w.rng_of(case)
    problem = make(case, rng)
    box, opts = problem['box'], problem['options']
    opts['gap_threshold'] = float(10**rng.uniform(-6, 0))
    kind = w.pick(rng, WILD)
    # default limits are not reached often, so that they are used here as well
    if problem['stencil'] is not None and rng.random() < 0.6 and problem['dim'] > 1:
        opts.setdefault('nelder_mead_kwargs', {}).setdefault('maxfev', int(rng.integers(10, 60)))
    effort = Effort(problem, 0.2)
    run = observed(problem, Wild(kind, rng, box, opts['gap_threshold']), effort, case)
    if run.abandoned or run.result is None:
        obs.count('abandoned')
        return
    record(problem, effort, run, obs)
    obs.count('wild')
    obs.count('wild_' + kind)
    obs.count('wild_refined', effort.refined)
    obs.key(kind, problem['dim'], box['periodic'], effort.refined, effort.runs)
    obs.sample = dict(kind=kind, refined=effort.refined, fitting=effort.max_refined, calls=effort.calls)


def run_resume(case, obs):
    """Each part makes progress, and the effort of all parts together is bounded."""
    rng = w.rng_of(case)
    problem = make(case, rng)
    box, opts = problem['box'], problem['options']
    kind = w.pick(rng, ['feature', 'noise', 'zero', 'random'])
    if kind == 'feature':
        fct = w.Gap(problem['gap'], box)
    else:
        opts['gap_threshold'] = float(10**rng.uniform(-6, 0))
        fct = Wild(kind, rng, box, opts['gap_threshold'])
        opts.setdefault('nelder_mead_kwargs', {}).setdefault('maxfev', int(rng.integers(10, 60)))
    opts.setdefault('nelder_mead_kwargs', {}).setdefault('maxfev', int(rng.integers(30, 100)))
    parallel = int(rng.integers(1, 4))
    opts['num_minimize_parallel'] = parallel
    effort = Effort(problem, 0.)
    # more than what is needed for all minimizations which are started together,
    # so that each part finishes at least one of them
    enough = parallel * effort.max_run + 1
    parts = 0
    while True:
        before = effort.runs
        # what has been begun is done again
        calls = effort.calls
        try:
            run = observed(
                problem, fct, effort, case, extra=dict(save_file='part.hdf5', save_delay=5., load=parts > 0),
                stop_after=enough
            )
            break
        except Interrupt:
            parts += 1
            effort.in_run = 0
            enough = int(1.3 * enough)
            # without calls for minimizations which did not end
            effort.calls = min(effort.calls, calls + (effort.runs - before) * effort.max_run)
            require(
                effort.runs > before, 'resumed search does not make progress: no minimization has ended',
                part=parts, **effort.details()
            )
    if run.abandoned or run.result is None:
        obs.count('abandoned')
        return
    record(problem, effort, run, obs)
    obs.count('resumed', parts > 0)
    obs.count('parts', parts)
    obs.key('resume', kind, parts, effort.refined, effort.runs)
    obs.sample = dict(kind=kind, parts=parts, refined=effort.refined, runs=effort.runs)


# ------------------------------------------------------------------ known finding


def run_open(case, obs):
    """A feature which leaves the box is followed outside of it."""
    count = [0]

    class Enough(Exception):
        pass

    def gap(pos):
        count[0] += 1
        if count[0] > 30000:
            raise Enough()
        return abs(pos[1] - 0.5)

    obs.count('open')
    try:
        search.run(
            gap, limits=[(0, 1)] * 2, periodic=False, initial_mesh_size=2, feature_size=0.3, gap_threshold=1e-3
        )
    except Enough:
        raise Violation(
            'the search follows a line out of a box which is not periodic, and does not end', key='leaves-open-box'
        )


# ------------------------------------------------------------------ identification


@contextlib.contextmanager
def cpu_limit(limit, what):
    def handler(signum, frame):
        raise Violation('{} does not end within {:.0f} s of CPU time'.format(what, limit))

    old = signal.signal(signal.SIGPROF, handler)
    signal.setitimer(signal.ITIMER_PROF, limit)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)


def hard_cloud(rng, box, fs):
    """Sets of positions which are hard in one way or another."""
    low, size = w.box_arrays(box)
    dim = len(low)
    kind = w.pick(rng, ['cloud', 'equal', 'ring', 'grid', 'same', 'tree', 'dense', 'antipodal', 'tiny', 'far', 'strip', 'strip', 'lasso'])
    center = low + 0.5 * size
    if kind == 'cloud':
        pts = np.array(clouds.random_cloud(rng, box), dtype=float).reshape(-1, dim)
    elif kind == 'equal':
        # all distances to the centre are the same
        pts = rng.normal(size=(int(rng.integers(2, 40)), dim))
        pts = pts / np.linalg.norm(pts, axis=1)[:, None] * fs * float(w.pick(rng, [0.25, 0.5, 0.999, 1.]))
        pts = np.vstack([np.zeros((1, dim)), pts]) + center
    elif kind == 'ring':
        num = int(rng.integers(3, 60))
        phi = 2 * np.pi * np.arange(num) / num
        pts = np.zeros((num, dim))
        radius = fs * float(rng.uniform(0.2, 5))
        pts[:, 0] = np.cos(phi) * radius
        if dim > 1:
            pts[:, 1] = np.sin(phi) * radius
        pts = pts + center
    elif kind == 'grid':
        num = int(rng.integers(2, 6 if dim < 3 else 4))
        step = fs * float(w.pick(rng, [0.25, 0.5, 0.7, 1.]))
        pts = center + step * np.array(list(itertools.product(range(num), repeat=dim)), dtype=float)
    elif kind == 'same':
        pts = np.repeat(center[None], int(rng.integers(2, 30)), axis=0)
    elif kind == 'tree':
        pts = [center]
        for _ in range(int(rng.integers(5, 80))):
            step = rng.normal(size=dim)
            pts.append(pts[int(rng.integers(len(pts)))] + fs * 0.9 * step / np.linalg.norm(step))
        pts = np.array(pts)
    elif kind == 'dense':
        pts = center + fs * float(rng.uniform(0.5, 2)) * rng.random((int(rng.integers(15, 60)), dim))
    elif kind == 'antipodal':
        # distances of half of the size of the box
        num = int(rng.integers(2, 7))
        pts = low + size * rng.integers(0, 2, size=(num, dim)) / 2
        pts = np.vstack([pts, pts + size * 1e-12])
    elif kind == 'strip':
        # of a width for which the dimension is hard to tell
        pts = fs * (rng.random((int(rng.integers(12, 50)), dim)) - 0.5) * np.array(
            [1.] + [float(10**rng.uniform(-0.8, 0)) for _ in range(dim - 1)]
        ) + center
    elif kind == 'lasso':
        # closed, with a tail
        num = int(rng.integers(12, 60))
        phi = 2 * np.pi * np.arange(num) / num
        radius = fs * num / float(rng.uniform(7, 14))
        pts = np.zeros((num, dim))
        pts[:, 0] = np.cos(phi) * radius
        if dim > 1:
            pts[:, 1] = np.sin(phi) * radius
        line = np.zeros((int(rng.integers(0, 20)), dim))
        line[:, 0] = radius + fs * 0.7 * np.arange(len(line))
        pts = np.vstack([pts, line])
        pts = center + pts + fs * 0.05 * rng.normal(size=pts.shape)
    elif kind == 'tiny':
        pts = center + 1e-9 * size * rng.random((int(rng.integers(2, 60)), dim))
    else:
        pts = center + fs * np.arange(int(rng.integers(2, 80)))[:, None] * np.ones(dim) / math.sqrt(dim)
    pts = clouds.wrap(box, pts)
    return kind, [tuple(float(v) for v in p) for p in pts]


def largest_effort(box, fs, pts):
    """How many tuples of neighbours there are."""
    arr = np.array(sorted(set(pts)), dtype=float).reshape(-1, len(box['limits']))
    total = 0
    for pos in arr:
        num = int(np.sum(w.brute_dist(box, pos, arr) <= fs * (1 + 1e-6)))
        total += sum(math.comb(num, k) for k in range(1, min(arr.shape[1], 3) + 1))
    return total


def run_identify(case, obs):
    rng = w.rng_of(case)
    dim = int(w.pick(rng, [1, 2, 3, 4], [1, 4, 4, 1]))
    box = w.random_box(rng, dim)
    low, size = w.box_arrays(box)
    fs = float(np.min(size) * 10**rng.uniform(-1.5, 0.5))
    kind, pts = hard_cloud(rng, box, fs)
    method = w.pick(rng, METHODS)
    if largest_effort(box, fs, pts) > 150000:
        # all tuples of neighbours may be needed to decide on the dimension, which
        # takes long
        obs.count('too_dense')
        return
    begin = time.process_time()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with cpu_limit(IDENTIFY_LIMIT, 'identification of {} positions ({}, {})'.format(len(pts), kind, method)):
            result = identify.run_from_positions(
                pts, coordinate_system=clouds.system(box), feature_size=fs, evaluate_line_method=method
            )
    obs.maximum('identify_cpu', round(time.process_time() - begin, 1))
    obs.count('identified')
    obs.count('positions', len(pts))
    obs.key('identify', kind, dim, method, len(pts), len(list(result.results)))
    obs.sample = dict(kind=kind, method=method, positions=len(pts), objects=len(list(result.results)))


def run_case(case, obs):
    dict(
        feature=run_feature, wild=run_wild, resume=run_resume, open=run_open, identify=run_identify
    )[case['kind']](case, obs)
