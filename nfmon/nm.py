"""
Specification of a Nelder-Mead run as a checker of observed traces: each step of
the simplex history has to be one of the steps which the rules allow for the
values that were returned by the gap function. Rounding of positions and NaN values
are resolved in favour of the observed trace.
"""
import math

import numpy as np

from .core import Violation
from .monitor import require, is_joined

MESSAGES = {0: 'success', 1: 'function evaluations', 2: 'iterations', 3: 'derivative'}


def cmp_le(val, limit):
    """val <= limit as True / False, or None if too close to call."""
    if math.isnan(val) or math.isnan(limit):
        return False
    if math.isinf(val) or math.isinf(limit):
        return val <= limit
    if abs(val - limit) <= 1e-9 * max(abs(val), abs(limit)) and val != limit:
        return None
    return val <= limit


def both(*vals):
    if any(v is False for v in vals):
        return False
    if any(v is None for v in vals):
        return None
    return True


def converged(sim, fsim, xtol, ftol):
    size = float(np.max(np.abs(sim[1:] - sim[0])))
    with np.errstate(all='ignore'):
        diff = float(np.max(np.abs(fsim[0] - fsim[1:])))
    xok = cmp_le(size, xtol)
    # rounding of the coordinates limits the accuracy of the edge length
    noise = 1e-15 * float(np.max(np.abs(sim)))
    if abs(size - xtol) <= 8 * noise:
        xok = None
    if ftol is None:
        return False if xok is False else None
    return both(xok, cmp_le(diff, ftol))


def fprime_exceeded(sim, fval, cutoff):
    if cutoff is None:
        return False
    edges = sim[:, None, :] - sim[None, :, :]
    longest = float(np.sqrt(np.max(np.sum(edges**2, axis=-1))))
    if longest == 0:
        return None
    est = float(fval) / longest
    if math.isnan(est):
        return None
    le = cmp_le(est, cutoff)
    return None if le is None else not le


def sorted_ok(fsim):
    vals = [v for v in fsim if not math.isnan(v)]
    nan_last = not any(
        math.isnan(a) and not math.isnan(b) for a, b in zip(fsim[:-1], fsim[1:])
    )
    return nan_last and all(a <= b for a, b in zip(vals[:-1], vals[1:]))


def same_val(a, b):
    return a == b or (math.isnan(a) and math.isnan(b)) or (
        not math.isinf(a) and not math.isinf(b) and
        abs(a - b) <= 1e-12 * max(abs(a), abs(b))
    )


def match(sim, fsim, pairs, tol):
    """Are the vertices and values those in pairs, in any order?"""
    if len(pairs) != len(sim):
        return False
    fits = [
        [
            i for i, (px, pf) in enumerate(pairs)
            if same_val(float(f), float(pf)) and np.max(np.abs(px - x)) <= tol
        ]
        for x, f in zip(sim, fsim)
    ]

    def assign(idx, used):
        return idx == len(fits) or any(
            assign(idx + 1, used | {i}) for i in fits[idx] if i not in used
        )

    return assign(0, frozenset())


def check_run(
    seq, res, *, initial, xtol, ftol, maxiter=None, maxfev=None, fprime=None,
    pos_equal, obs, what, exact=True
):
    """
    seq: the evaluations of this run, as list of (position, effective value).
    exact: the values are exactly those which were returned
    """
    hist = np.array(res.simplex_history, dtype=float)
    fhist = np.array(res.fun_simplex_history, dtype=float)
    num, n1, dim = hist.shape
    require(n1 == dim + 1 and fhist.shape == (num, n1), what + ': wrong shape of the history',
            shapes=[hist.shape, fhist.shape])
    maxiter = dim * 200 if maxiter is None else maxiter
    maxfev = dim * 200 if maxfev is None else maxfev

    require(
        int(res.num_fev) == len(seq),
        what + ': num_fev is not the number of calls',
        num_fev=res.num_fev, calls=len(seq)
    )
    require(
        int(res.num_iter) == num, what + ': num_iter is not the length of the history',
        num_iter=res.num_iter, length=num
    )
    magn = float(np.max(np.abs(hist)))
    eps = 1e-13 * magn

    start = [(np.array(x), float(v)) for x, v in seq[:n1]]
    require(
        match(initial, np.zeros(n1), [(x, 0.) for x, _ in start], eps),
        what + ': the first evaluations are not the starting simplex',
        initial=initial, evaluated=[x for x, _ in start]
    )
    require(
        match(hist[0], fhist[0], start, eps),
        what + ': first entry of the history is not the starting simplex with its values',
        history=[hist[0], fhist[0]], evaluated=start
    )
    # steps can be ambiguous: all possible numbers of evaluations so far
    idxs = {n1}
    for k in range(num):
        sim, fsim = hist[k], fhist[k]
        require(sorted_ok(fsim), what + ': vertices are not sorted by value', step=k, values=fsim)
        conv = converged(sim, fsim, xtol, ftol)
        over = fprime_exceeded(sim, fsim[0], fprime)
        if k == num - 1:
            break
        require(
            conv is not True, what + ': continues after the tolerances are met',
            step=k, simplex=sim, values=fsim, xtol=xtol, ftol=ftol
        )
        require(over is not True, what + ': continues after fprime_cutoff is exceeded',
                step=k, simplex=sim, values=fsim, fprime_cutoff=fprime)
        require(min(idxs) < maxfev, what + ': continues after maxfev', step=k, calls=min(idxs), maxfev=maxfev)
        require(k + 1 < maxiter, what + ': continues after maxiter', step=k, maxiter=maxiter)
        if float(np.max(np.abs(sim - sim[0]))) < 1e-9 * magn or len(idxs) > 50:
            # positions can not be told apart any more
            obs.count('runs_followed_to_rounding')
            idxs = None
            break
        new, failure = set(), None
        for idx in idxs:
            if idx < maxfev:
                try:
                    new.update(_check_step(seq, idx, sim, fsim, hist[k + 1], fhist[k + 1], eps, obs, what, k, exact))
                except Violation as exc:
                    failure = exc
        if not new:
            raise failure
        idxs = new
    require(
        idxs is None or len(seq) in idxs, what + ': evaluations which are not part of any step',
        used=sorted(idxs or ()), calls=len(seq)
    )
    sim, fsim = hist[-1], fhist[-1]
    conv = converged(sim, fsim, xtol, ftol)
    over = fprime_exceeded(sim, fsim[0], fprime)
    require(
        pos_equal(np.asarray(res.pos, dtype=float), sim[0]),
        what + ': pos is not the best vertex', pos=res.pos, vertex=sim[0]
    )
    require(
        same_val(float(res.value), float(fsim[0])),
        what + ': value is not the value of the best vertex',
        value=res.value, expected=fsim[0]
    )
    finite = [float(v) for _, v in seq if not math.isnan(float(v))]
    if finite and not any(math.isnan(float(v)) for _, v in seq):
        require(
            same_val(float(res.value), min(finite)),
            what + ': not the best evaluated point', value=res.value, best=min(finite)
        )
    hit = {1: len(seq) >= maxfev, 2: num >= maxiter, 3: over}
    status = int(res.status)
    require(
        bool(res.success) == (status == 0), what + ': success contradicts status',
        success=res.success, status=status
    )
    limit_reached = any(v is True for v in hit.values())
    maybe_limit = any(v is not False for v in hit.values())
    if status == 0:
        require(
            not limit_reached, what + ': success although a limit was reached', limits=hit
        )
        require(
            conv is not False,
            what + ': success although the tolerances are not met',
            simplex=sim, values=fsim, xtol=xtol, ftol=ftol
        )
    else:
        require(status in hit, what + ': unknown status', status=status)
        require(
            hit[status] is not False,
            what + ': status names a limit which was not reached',
            status=status, limits=hit, calls=len(seq), iterations=num
        )
    require(
        conv is not False or maybe_limit,
        what + ': ended without meeting the tolerances or a limit',
        simplex=sim, values=fsim, xtol=xtol, ftol=ftol
    )
    message = res.message
    require(isinstance(message, str), what + ': message is not a string', found=repr(message))
    require(
        MESSAGES[status] in message, what + ': message does not name the reason',
        found=message, status=status
    )
    obs.count('runs_checked')
    obs.count('status_{}'.format(status))


def _check_step(seq, idx, sim, fsim, new_sim, new_fsim, eps, obs, what, k, exact):
    n = sim.shape[1]
    rest = [(np.array(x), float(v)) for x, v in seq[idx:idx + n + 2]]
    size = float(np.max(np.abs(sim - sim[0])))
    tol = 1e-12 * size + 4 * eps
    xbar = np.mean(sim[:-1], axis=0)
    d = xbar - sim[-1]
    keep = [(sim[i], float(fsim[i])) for i in range(n)]
    f0, f2, f1 = float(fsim[0]), float(fsim[-2]), float(fsim[-1])

    def at(i, x):
        """The i-th evaluation of this step, if it is at x."""
        if i < len(rest) and np.max(np.abs(rest[i][0] - x)) <= tol:
            return rest[i][1]
        return None

    fr = at(0, xbar + d)
    require(
        fr is not None, what + ': the step does not start with a reflection',
        step=k, simplex=sim, values=fsim, expected=xbar + d,
        evaluated=rest[:1]
    )
    nan = any(math.isnan(v) for v in fsim) or any(math.isnan(v) for _, v in rest)

    def accept(x, f, used, name):
        if match(new_sim, new_fsim, keep + [(x, f)], tol):
            obs.count('step_' + name)
            return idx + used
        return None

    def shrink(used):
        pairs = [(sim[0], f0)]
        free = set(range(used, min(used + n, len(rest))))
        for j in range(1, n + 1):
            x = sim[0] + 0.5 * (sim[j] - sim[0])
            # the order of the evaluations is not specified
            cands = [i for i in sorted(free) if np.max(np.abs(rest[i][0] - x)) <= tol]
            if not cands:
                return None
            pairs.append((x, rest[cands[0]][1]))
            free.remove(cands[0])
        if match(new_sim, new_fsim, pairs, tol):
            obs.count('step_shrink')
            return idx + used + n
        return None

    def lt(v1, v2):
        """v1 < v2, or possibly so"""
        return nan or v1 < v2 or (not exact and v1 == v2)

    def le(v1, v2):
        return nan or v1 <= v2

    # ties are resolved as in Lagarias et al., SIAM J. Optim. 9, 112 (1998)
    options = []
    if lt(fr, f0):
        fe = at(1, xbar + 2 * d)
        if fe is not None:
            if lt(fe, fr):
                options.append(accept(rest[1][0], fe, 2, 'expansion'))
            if le(fr, fe):
                options.append(accept(rest[0][0], fr, 2, 'reflection_after_expansion'))
    if le(f0, fr) and (lt(fr, f2)):
        options.append(accept(rest[0][0], fr, 1, 'reflection'))
    if le(f2, fr) and lt(fr, f1):
        fc = at(1, xbar + 0.5 * d)
        if fc is not None:
            if le(fc, fr):
                options.append(accept(rest[1][0], fc, 2, 'outside_contraction'))
            if lt(fr, fc):
                options.append(shrink(2))
    if le(f1, fr):
        fc = at(1, xbar - 0.5 * d)
        if fc is not None:
            if lt(fc, f1):
                options.append(accept(rest[1][0], fc, 2, 'inside_contraction'))
            if le(f1, fc):
                options.append(shrink(2))
    options = [o for o in options if o is not None]
    require(
        options, what + ': not a step of the Nelder-Mead method',
        step=k, simplex=sim, values=fsim, reflected=fr, next_evaluations=rest,
        new_simplex=new_sim, new_values=new_fsim
    )
    obs.count('steps_checked')
    if nan:
        obs.count('steps_with_nan')
    return options


def split_sequential(run):
    """
    Split the record of a search with one minimization at a time into the
    evaluations of each result, in the order in which they ran.
    Returns list of (result, first index, last index).
    """
    from .runner import starting_simplex
    rec = run.rec
    left = {}
    for res in run.result.minimization_results:
        left.setdefault(_key(starting_simplex(res)), []).append(res)
    idx = 0
    out = []
    while idx < rec.num:
        dim = len(rec.pos[idx])
        key = _key(rec.pos[idx:idx + dim + 1])
        cands = left.get(key)
        if not cands:
            raise Violation(
                'evaluations do not start with a starting simplex of any result',
                index=idx, evaluated=rec.pos[idx:idx + dim + 1], calls=rec.num
            )
        res = cands.pop()
        out.append((res, idx, idx + int(res.num_fev)))
        idx += int(res.num_fev)
    if idx != rec.num or any(left.values()):
        raise Violation(
            'number of calls is not the sum of num_fev', calls=rec.num, num_fev=idx
        )
    return out


def _key(sim):
    return tuple(sorted(tuple(float(v) for v in p) for p in sim))
