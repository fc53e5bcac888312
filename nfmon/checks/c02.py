"""C02: minimization results faithfully describe a Nelder-Mead run."""
import numpy as np

from .. import world as w
from ..core import Violation
from ..monitor import require, is_joined, result_content, same
from ..nm import check_run, split_sequential
from ..runner import observe_search, starting_simplex
from .c18 import Ambiguous, repelled

PROPERTY = 'C02'
LEVEL = 'exploration'
RULE = (
    'trace: a seeded random search with one minimization at a time; the recorded gap '
    'function calls and the simplex histories are checked step by step against the '
    'rules of the Nelder-Mead method, the tolerances and limits; history: the same '
    'search with and without keep_history is compared. Distinct by the sequence of '
    'statuses and evaluation counts of the minimizations.'
)
REQUIRED = {
    'steps_checked': 5000, 'runs_checked': 300, 'status_0': 50, 'status_1': 5,
    'status_2': 5, 'status_3': 3, 'step_shrink': 20, 'step_expansion': 100,
    'step_outside_contraction': 50, 'step_inside_contraction': 50,
    'history_pairs': 20, 'first_steps': 100,
}
BUDGET = {'quick': 60, 'thorough': 700}


def cases(seed, tier):
    num = 900 if tier == 'quick' else 12000
    for i in range(num):
        yield dict(kind='history' if i % 8 == 7 else 'trace', seed=seed * 1000003 + i)


def make_problem(rng):
    problem = w.random_problem(
        rng, dims=(1, 2, 3, 4), dim_weights=(1, 3, 3, 1), max_mesh=2,
        parallel=(1, ), stencil_none=0.5, small_stencil=True, fake=0.3
    )
    opts = problem['options']
    nm = dict(opts.get('nelder_mead_kwargs', {}))
    _, size = w.box_arrays(problem['box'])
    scale = float(np.min(size))
    if rng.random() < 0.3:
        nm['xtol'] = float(w.pick(rng, [0., 1e-12 * scale, 1e-4 * scale, 0.05 * scale, 10 * scale]))
    if rng.random() < 0.3:
        nm['ftol'] = float(w.pick(rng, [0., 1e-12, 1e-3, 0.3, np.inf]))
    if nm:
        opts['nelder_mead_kwargs'] = nm
    return problem


def run_case(case, obs):
    rng = w.rng_of(case)
    problem = make_problem(rng)
    use_coro = bool(rng.random() < 0.3)
    delay = w.pick(rng, ['none', 'uniform'])
    # a number type of the gap function, as used by real models
    run = observe_search(problem, use_coro=use_coro, delay=delay, seed=case['seed'],
                         max_calls=12000)
    if run.abandoned:
        obs.count('abandoned')
        return
    if case['kind'] == 'history':
        _compare_history(run, problem, obs, use_coro, delay, case['seed'])
    check_trace(run, problem, obs)
    obs.key(tuple((int(r.status), int(r.num_fev)) for r in run.result.minimization_results))
    res = run.result.minimization_results
    if res:
        obs.sample = dict(
            minimizations=len(res), calls=run.rec.num,
            first=dict(status=int(res[0].status), num_fev=int(res[0].num_fev),
                       num_iter=int(res[0].num_iter), value=float(res[0].value))
        )


def check_trace(run, problem, obs):
    box = problem['box']
    low, size = w.box_arrays(box)
    eps = 1e-10 * float(np.max(size) + np.max(np.abs(low)))
    nm = problem['options'].get('nelder_mead_kwargs', {})
    dc = problem['options']['feature_size'] / 3
    kwargs = dict(
        xtol=nm.get('xtol', 0.03 * dc),
        maxiter=nm.get('maxiter'),
        maxfev=nm.get('maxfev'),
        fprime=nm.get('fprime_cutoff'),
        obs=obs,
    )
    ftol = nm.get('ftol', 0.05 * problem['options']['gap_threshold'])

    def pos_equal(pos, vertex):
        return w.brute_dist(box, pos, vertex) < eps

    nodes = {id(r) for r in run.result.nodes}
    known = []

    def found(res):
        if id(res) in nodes:
            known.append(tuple(float(v) for v in res.pos))

    for res, first, last in split_sequential(run):
        seq = [
            (np.array(run.rec.pos[i]), float(run.rec.val[i]))
            for i in range(first, last)
        ]
        if not is_joined(res):
            check_run(
                seq, res, initial=starting_simplex(res), ftol=ftol,
                pos_equal=pos_equal, what='minimization', **kwargs
            )
            continue
        split = int(res.ancestor.num_fev)
        # the first step sees the gap function with the potential of the known nodes
        try:
            effective = [
                (pos, val + (np.inf if repelled(box, pos, known, dc) else 0.))
                for pos, val in seq[:split]
            ]
            check_run(
                effective, res.ancestor, initial=starting_simplex(res), ftol=None,
                pos_equal=pos_equal, what='first step', exact=False, **kwargs
            )
            obs.count('first_steps')
        except Ambiguous:
            obs.count('ambiguous')
        found(res)
        child_start = np.array(res.child.simplex_history[0])
        check_run(
            seq[split:], res.child, initial=child_start, ftol=ftol,
            pos_equal=pos_equal, what='second step', **kwargs
        )
        require(
            int(res.num_fev) == len(seq), 'num_fev of both steps is not their sum',
            num_fev=res.num_fev, calls=len(seq)
        )


def _compare_history(run, problem, obs, use_coro, delay, seed):
    def last(res):
        res = res.child if is_joined(res) else res
        return np.array(res.simplex_history[-1])

    opts = dict(problem['options'])
    opts['nelder_mead_kwargs'] = dict(opts.get('nelder_mead_kwargs', {}), keep_history=False)
    other = observe_search(
        dict(problem, options=opts), use_coro=use_coro, delay=delay, seed=seed
    )
    require(
        run.rec.pos == other.rec.pos, 'keep_history changes the evaluations',
        calls=[run.rec.num, other.rec.num]
    )
    for group in ('nodes', 'rejected_results', 'refined_results'):
        first, second = list(getattr(run.result, group)), list(getattr(other.result, group))
        require(len(first) == len(second), 'keep_history changes the results', group=group)
        if group == 'refined_results':
            require(
                all(np.array_equal(a, b) for a, b in zip(first, second)),
                'keep_history changes the refined positions'
            )
            continue
        for a, b in zip(first, second):
            for key in ('pos', 'value', 'num_fev', 'num_iter', 'status', 'success', 'message'):
                require(
                    same(getattr(a, key), getattr(b, key)),
                    'keep_history=False changes ' + key,
                    values=[getattr(a, key), getattr(b, key)]
                )
            require(
                np.array_equal(last(a), last(b)),
                'the last simplex is not kept without history',
                expected=last(a), found=last(b)
            )
            single = b.child if is_joined(b) else b
            require(
                len(single.simplex_history) == 1 and
                not hasattr(single, 'fun_simplex_history'),
                'the history is kept although it is switched off',
                length=len(single.simplex_history)
            )
            obs.count('history_pairs')
