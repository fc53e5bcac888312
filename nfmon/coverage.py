"""
Oracles for the work done by a search: which starting simplices have to be
minimized, which can be left out, and from where refinement has to start.
"""
import itertools

import numpy as np

from . import world as w
from .core import Violation
from .monitor import require, is_joined
from .runner import starting_simplex

REL = 1e-9


def mesh_simplices(box, mesh):
    """The starting simplices of the initial mesh, as documented."""
    low, size = w.box_arrays(box)
    dim = len(low)
    if isinstance(mesh, int):
        mesh = [mesh] * dim
    axes = []
    for l, s, m in zip(low, size, mesh):
        if box['periodic']:
            axes.append([l + s * i / m for i in range(m)])
        elif m == 1:
            axes.append([l])
        else:
            axes.append([l + s * i / (m - 1) for i in range(m)])
    edges = np.zeros((dim + 1, dim))
    for i in range(dim):
        edges[i + 1, i] = size[i] / (2 * mesh[i])
    return [np.array(p) + edges for p in itertools.product(*axes)]


def unique_simplices(sims, tol):
    out = []
    for sim in sims:
        if not any(set_dist(sim, o) <= tol for o in out):
            out.append(np.array(sim))
    return out


def set_dist(sim1, sim2):
    """Distance between two simplices as sets of vertices."""
    d = np.max(np.abs(np.asarray(sim1)[:, None, :] - np.asarray(sim2)[None, :, :]), axis=-1)
    return max(np.max(np.min(d, axis=0)), np.max(np.min(d, axis=1)))


class Expected:
    """Starting simplices which are expected, to be ticked off."""
    def __init__(self, sims, tol):
        self.sims = list(sims)
        self.cent = np.array([np.mean(s, axis=0) for s in self.sims]) if self.sims else None
        self.used = np.zeros(len(self.sims), dtype=bool)
        self.tol = tol

    def take(self, sim):
        """Index of the matching simplex, None if unknown, -1 if already used."""
        if not self.sims:
            return None
        cent = np.mean(sim, axis=0)
        dist = np.max(np.abs(self.cent - cent), axis=-1)
        cands = [i for i in np.flatnonzero(dist <= 10 * self.tol)
                 if set_dist(self.sims[i], sim) <= self.tol]
        if not cands:
            return None
        cands.sort(key=lambda i: (self.used[i], dist[i]))
        if self.used[cands[0]]:
            return -1
        self.used[cands[0]] = True
        return int(cands[0])

    def left(self):
        """
        Simplices which are not ticked off. Those which coincide with another one
        that is ticked off (around a different position) need no own minimization.
        """
        out = []
        for idx in np.flatnonzero(~self.used):
            sim = self.sims[idx]
            dist = np.max(np.abs(self.cent - self.cent[idx]), axis=-1)
            same = np.flatnonzero((dist <= 10 * self.tol) & self.used)
            if not any(set_dist(self.sims[i], sim) <= self.tol for i in same):
                out.append(sim)
        return out


class Work:
    """
    What a search has done, from its result (complete) or from the observation
    of an unfinished search.
    """
    def __init__(self, run=None, result=None):
        if result is None and run is not None:
            result = run.result
        if result is not None:
            self.results = list(result.minimization_results)
            self.nodes = list(result.nodes)
            self.refined = [np.array(p, dtype=float) for p in result.refined_results]
            self.complete = True
        else:
            self.results = [r for _, r, _ in run.added]
            self.nodes = [r for _, r, ret in run.added if ret]
            self.refined = [np.array(p) for _, p in run.refined]
            self.complete = False
        self.node_pos = np.array([np.asarray(n.pos, dtype=float) for n in self.nodes])


def near_count(box, sim, node_pos, dc, *, lenient):
    """
    Number of vertices which are near to a node at a different position. Ties are
    counted if lenient.
    """
    if len(node_pos) == 0:
        return 0
    count = 0
    low, size = w.box_arrays(box)
    eps = 1e-12 * (np.max(np.abs(low)) + np.max(size)) * 100
    for vertex in sim:
        dist = w.brute_dist(box, vertex, node_pos)
        if lenient:
            near = dist < dc * (1 + REL) + eps
        else:
            near = (dist < dc * (1 - REL) - eps) & (dist > eps)
        count += bool(np.any(near))
    return count


def expected_starts(problem, refined, *, with_mesh=True, extra=()):
    box = problem['box']
    low, size = w.box_arrays(box)
    scale = np.max(np.abs(low)) + np.max(size)
    tol = 1e-10 * scale
    dc = problem['options']['feature_size'] / 3
    sims = list(extra)
    if with_mesh:
        sims += mesh_simplices(box, problem['options']['initial_mesh_size'])
    _, stencil = w.make_stencil(problem['stencil'], problem['dim'])
    if stencil is not None:
        stencil = unique_simplices(stencil * dc, 1e-9 * dc)
        for pos in refined:
            sims += [np.asarray(pos) + s for s in stencil]
    return Expected(sims, tol)


def check_starts(problem, work, obs, *, expected=None, already=0):
    """
    Each expected starting simplex is minimized exactly once, or left out because
    it is near to nodes. Returns the number of left out simplices.
    """
    box = problem['box']
    dc = problem['options']['feature_size'] / 3
    cutoff = problem['options'].get('simplex_check_cutoff', 0)
    if expected is None:
        expected = expected_starts(problem, work.refined)
    for res in work.results[already:]:
        sim = starting_simplex(res)
        idx = expected.take(sim)
        require(
            idx is not None,
            'minimization of a simplex which is neither in the mesh nor around a refined position',
            simplex=sim, refined=work.refined[:20]
        )
        require(idx >= 0, 'a starting simplex is minimized more than once', simplex=sim)
        obs.count('starts_matched')
    left = expected.left()
    if work.complete:
        for sim in left:
            count = near_count(box, sim, work.node_pos, dc, lenient=True)
            require(
                count > cutoff,
                'a starting simplex is not minimized, although it is not near a node',
                simplex=sim, near_vertices=count, simplex_check_cutoff=cutoff,
                dist_cutoff=dc, box=box
            )
            obs.count('left_out_justified')
    return len(left)


def check_start_times(problem, run, work, obs, *, initial_nodes=()):
    """
    No minimization is started from a simplex that is near to known nodes.
    """
    box = problem['box']
    dc = problem['options']['feature_size'] / 3
    cutoff = problem['options'].get('simplex_check_cutoff', 0)
    if not run.added:
        return
    rec = run.rec
    first_call = {}
    for i, pos in enumerate(rec.pos):
        first_call.setdefault(pos, i)
    node_info = [
        (rec_clock, step, np.asarray(res.pos, dtype=float))
        for (rec_clock, res, ret), step in zip(run.added, run.added_step) if ret
    ]
    parallel = problem['options']['num_minimize_parallel']
    initial = [np.asarray(p, dtype=float) for p in initial_nodes]
    for _, res, _ in run.added:
        sim = starting_simplex(res)
        calls = [first_call.get(tuple(float(v) for v in p)) for p in sim]
        calls = [c for c in calls if c is not None]
        if not calls:
            continue
        idx = min(calls)
        if parallel == 1:
            known = [p for clock, _, p in node_info if clock < rec.start_time[idx]]
        else:
            # the decision is made a few steps of the event loop earlier
            known = [p for _, step, p in node_info if step <= run.start_step[idx] - 6]
        known = initial + known
        if not known:
            continue
        count = near_count(box, sim, np.array(known), dc, lenient=False)
        require(
            count <= cutoff,
            'minimization started from a simplex which is near to known nodes',
            simplex=sim, near_vertices=count, simplex_check_cutoff=cutoff,
            dist_cutoff=dc, known=known[:30], box=box
        )
        obs.count('start_times_checked')


def check_refinement(problem, work, obs, run=None, *, initial_refined=0):
    """Coverage and separation of the refined positions."""
    box = problem['box']
    dc = problem['options']['feature_size'] / 3
    opts = problem['options']
    low, size = w.box_arrays(box)
    eps = 1e-12 * (np.max(np.abs(low)) + np.max(size)) * 100
    refined = np.array(work.refined).reshape(len(work.refined), problem['dim'])
    if problem['stencil'] is None:
        require(
            len(refined) == initial_refined, 'refinement without a stencil',
            refined=refined
        )
        return
    if work.complete:
        for res in work.nodes:
            pos = np.asarray(res.pos, dtype=float)
            dist = w.brute_dist(box, pos, refined) if len(refined) else np.array([np.inf])
            require(
                np.min(dist) < dc * (1 + REL) + eps,
                'node which is not near any refined position',
                pos=pos, nearest=np.min(dist), dist_cutoff=dc, refined=len(refined)
            )
            obs.count('nodes_covered')
    for i, pos in enumerate(refined):
        dist = w.brute_dist(box, pos, work.node_pos) if len(work.node_pos) else np.array([np.inf])
        require(
            i < initial_refined or np.min(dist) <= eps,
            'refined position which is not a node', pos=pos, nearest=np.min(dist)
        )
        if i and i >= initial_refined and opts.get('recheck_pos_dist', True):
            others = w.brute_dist(box, pos, refined[:i])
            near = int(np.sum(others < dc * (1 - REL) - eps))
            allowed = opts.get('recheck_count_cutoff', 0)
            require(
                near <= allowed,
                'refined position with too many refined neighbours',
                pos=pos, near=near, allowed=allowed, dist_cutoff=dc,
                distances=np.sort(others)[:5]
            )
            obs.count('refined_separated')
    obs.count('refined_positions', len(refined))
    if run is not None and run.added and run.refined:
        # refined positions known when the node was found
        first = {}
        for clock, res, ret in run.added:
            if ret:
                first.setdefault(tuple(float(v) for v in res.pos), clock)
        for clock, pos in run.refined:
            found = first.get(pos)
            if found is None:
                continue
            known = np.array([p for c, p in run.refined if c < found])
            if len(known):
                dist = w.brute_dist(box, np.array(pos), known)
                require(
                    np.min(dist) >= dc * (1 - REL) - eps,
                    'refinement of a node which was found near to an already refined position',
                    pos=pos, nearest=np.min(dist), dist_cutoff=dc
                )
                obs.count('first_check_observed')
    if run is not None and work.complete and not initial_refined:
        # nodes which were found far from all refined positions
        recheck = opts.get('recheck_pos_dist', True)
        allowed = opts.get('recheck_count_cutoff', 0)
        for clock, res, ret in run.added:
            if not ret:
                continue
            pos = np.array([float(v) for v in res.pos])
            dist = w.brute_dist(box, pos, refined) if len(refined) else np.zeros((0,))
            known = np.array([p for c, p in run.refined if c < clock])
            if len(known) and np.min(w.brute_dist(box, pos, known)) < dc * (1 + REL) + eps:
                continue
            if len(dist) and np.min(dist) <= eps:
                obs.count('far_node_refined')
                continue
            near = int(np.sum(dist < dc * (1 + REL) + eps))
            require(
                recheck, 'node which was found far from the refined positions is not refined,'
                ' although the positions are not checked again', pos=pos, near=near
            )
            require(
                near > allowed,
                'node which was found far from the refined positions is not refined, although'
                ' the number of refined neighbours is allowed', pos=pos, near=near, allowed=allowed
            )
            obs.count('far_node_dropped')


# ------------------------------------------------------------------ saved states


def queued_simplices(state):
    return [np.array(s, dtype=float) for s in state.simplex_queue.objects]


def queued_positions(state):
    return [np.array(p, dtype=float) for p in state.position_queue.objects]


def check_state(problem, state, obs, *, with_mesh=True, extra=(), initial_refined=()):
    """
    A saved state accounts for all the work: each expected starting simplex is
    finished, queued, or near a node of this state, and each node is covered by a
    refined or queued position.
    """
    box = problem['box']
    dc = problem['options']['feature_size'] / 3
    low, size = w.box_arrays(box)
    eps = 1e-12 * (np.max(np.abs(low)) + np.max(size)) * 100
    cutoff = problem['options'].get('simplex_check_cutoff', 0)
    work = Work(result=state.result)
    refined = [p for p in work.refined]
    expected = expected_starts(problem, refined, with_mesh=with_mesh, extra=extra)
    finished = []
    for res in work.results:
        idx = expected.take(starting_simplex(res))
        require(idx is not None, 'saved state has a minimization which does not belong to the search',
                simplex=starting_simplex(res))
        require(idx >= 0, 'saved state has a minimization twice', simplex=starting_simplex(res))
    queued = queued_simplices(state)
    for sim in queued:
        idx = expected.take(sim)
        require(
            idx is not None, 'saved state has a queued simplex which does not belong to the search',
            simplex=sim
        )
        require(idx >= 0, 'saved state has a simplex both queued and finished, or queued twice', simplex=sim)
    for sim in expected.left():
        count = near_count(box, sim, work.node_pos, dc, lenient=True)
        require(
            count > cutoff,
            'a starting simplex is lost: neither finished, nor queued, nor near a saved node',
            simplex=sim, near_vertices=count, results=len(work.results), queued=len(queued)
        )
    if problem['stencil'] is not None:
        pos_queue = queued_positions(state)
        cover = np.array(refined + pos_queue).reshape(-1, problem['dim'])
        for res in work.nodes:
            pos = np.asarray(res.pos, dtype=float)
            dist = w.brute_dist(box, pos, cover) if len(cover) else np.array([np.inf])
            require(
                np.min(dist) < dc * (1 + REL) + eps,
                'a node of the saved state is covered by no refined or queued position',
                pos=pos, nearest=np.min(dist), dist_cutoff=dc, refined=len(refined),
                queued=len(pos_queue)
            )
    obs.count('states_checked')
    return work, queued
