From 6b1ee92601cceea9c0d807dffe334ceafef87adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:34 +0000
Subject: [PATCH 01/34] fix: draw the neighbour tuples from a sequence

random.sample does not accept sets since Python 3.11, so that identify.run
failed for every cluster with more than one position.
---
 nodefinder/identify/_dimension.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nodefinder/identify/_dimension.py b/nodefinder/identify/_dimension.py
index e87d207..7ce0f45 100644
--- a/nodefinder/identify/_dimension.py
+++ b/nodefinder/identify/_dimension.py
@@ -155,7 +155,8 @@ def _has_dimension(
         num_draws = 10
         while neighbour_tuples:
             vals = random.sample(
-                neighbour_tuples, min(num_draws, len(neighbour_tuples))
+                list(neighbour_tuples),
+                min(num_draws, len(neighbour_tuples))
             )
             yield from vals
             neighbour_tuples -= set(vals)
-- 
2.43.0


From 6276fc9f16fe2f02a159788391d64e6649818738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:34 +0000
Subject: [PATCH 02/34] fix: load identification results with current h5py
 versions

Indexing a HDF5 group with an empty tuple raises a TypeError instead of an
AttributeError since h5py 3.7, so that no IdentificationResult could be
loaded.
---
 nodefinder/identify/result/_containers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nodefinder/identify/result/_containers.py b/nodefinder/identify/result/_containers.py
index 22b5062..9cbf4a9 100644
--- a/nodefinder/identify/result/_containers.py
+++ b/nodefinder/identify/result/_containers.py
@@ -83,10 +83,10 @@ class IdentificationResult(SimpleNamespace, HDF5Enabled):
         shape = from_hdf5(hdf5_handle['shape'])
         try:
             dimension = hdf5_handle['dimension'][()]
-        except AttributeError:
+        except (AttributeError, TypeError):
             dimension = from_hdf5(hdf5_handle['dimension'])
         try:
             positions = [tuple(x) for x in hdf5_handle['positions'][()]]
-        except AttributeError:
+        except (AttributeError, TypeError):
             positions = from_hdf5(hdf5_handle['positions'])
         return cls(positions=positions, dimension=dimension, shape=shape)
-- 
2.43.0


From 34294a53099fcc552672ac8758987f538d2167f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:34 +0000
Subject: [PATCH 03/34] fix: map the periodic average into the limits of the
 box

The average was taken modulo the size of the box only, which puts it outside
of the limits when the lower limit is not zero.
---
 nodefinder/coordinate_system.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nodefinder/coordinate_system.py b/nodefinder/coordinate_system.py
index 3291463..c6e4a69 100644
--- a/nodefinder/coordinate_system.py
+++ b/nodefinder/coordinate_system.py
@@ -100,7 +100,9 @@ class CoordinateSystem(SimpleHDF5Mapping):
         else:
             origin = positions[0]
             deltas = [self.connecting_vector(origin, pos) for pos in positions]
-            return (origin + np.average(deltas, axis=0)) % self.size
+            return self.normalize_position(
+                origin + np.average(deltas, axis=0)
+            )
 
     def normalize_position(self, pos):
         """
-- 
2.43.0


From 6abf115453dfce7c858b8c0774c293a26bdace41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 04/34] fix: identify a ControllerState with the default
 feature_size

The state loaded from the save file of a search has no 'dist_cutoff', so the
result needs to be extracted first.
---
 nodefinder/identify/_run.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nodefinder/identify/_run.py b/nodefinder/identify/_run.py
index 233b13a..1ab7379 100644
--- a/nodefinder/identify/_run.py
+++ b/nodefinder/identify/_run.py
@@ -30,10 +30,10 @@ def run(result, feature_size=None, evaluate_line_method='ballistic'):
         Distance between two nodal points at which they are considered distinct.
         Uses the ``feature_size`` used in the search step by default.
     """
-    if feature_size is None:
-        feature_size = result.dist_cutoff * _DIST_CUTOFF_FACTOR
     if isinstance(result, ControllerState):
         result = result.result
+    if feature_size is None:
+        feature_size = result.dist_cutoff * _DIST_CUTOFF_FACTOR
     positions = [node.pos for node in result.nodes]
     coordinate_system = result.coordinate_system
     return run_from_positions(
-- 
2.43.0


From f5f8c5c259d2d0ccc0d17b66422276ec60209639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 05/34] fix: visit each neighbouring cell only once

With less than three cells in a periodic dimension, different offsets wrap
around to the same cell. Neighbours were then reported multiple times.
---
 nodefinder/search/result/_cell_list.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nodefinder/search/result/_cell_list.py b/nodefinder/search/result/_cell_list.py
index 1d6c232..d484bd9 100644
--- a/nodefinder/search/result/_cell_list.py
+++ b/nodefinder/search/result/_cell_list.py
@@ -50,7 +50,10 @@ class CellList:
         indices = idx + self._neighbour_offset
 
         if self.periodic:
-            return [tuple(i % self._total_num_cells) for i in indices]
+            # with less than three cells, different offsets lead to the same cell
+            return list(
+                dict.fromkeys(tuple(i % self._total_num_cells) for i in indices)
+            )
         return [
             tuple(i) for i in indices
             if np.all(i >= 0) and np.all(i < self._total_num_cells)
-- 
2.43.0


From 298458a8ab0e163f5ec2b613d2588b5bb0f51358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 06/34] fix: queue duplicates within the added objects only
 once

Identical objects given in the same call were all queued. For the simplex
queue, this led to a KeyError when the second one was set to finished.
---
 nodefinder/search/_queue.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nodefinder/search/_queue.py b/nodefinder/search/_queue.py
index 549816c..46498b7 100644
--- a/nodefinder/search/_queue.py
+++ b/nodefinder/search/_queue.py
@@ -23,7 +23,7 @@ class ObjectQueue(HDF5Enabled, ABC):
     HDF5_ATTRIBUTES = ['objects']
 
     def __init__(self, objects=frozenset()):
-        all_objects = self.normalize(objects)
+        all_objects = list(dict.fromkeys(self.normalize(objects)))
         self._queued_objects = Queue()
         self._extend_queue(all_objects)
 
@@ -45,7 +45,7 @@ class ObjectQueue(HDF5Enabled, ABC):
         """
         Add new objects to the queue.
         """
-        new_objects = self.normalize(objects)
+        new_objects = dict.fromkeys(self.normalize(objects))
         new_objects_filtered = [
             obj for obj in new_objects if obj not in self._all_objects
         ]
-- 
2.43.0


From f92055c2a9cf309d1681d466d06b9220d67c0c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 07/34] fix: mark the container for saving when a result is
 added

The assignment was placed after the return statements.
---
 nodefinder/search/result/_search_result_container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nodefinder/search/result/_search_result_container.py b/nodefinder/search/result/_search_result_container.py
index 75ee09d..26db42f 100644
--- a/nodefinder/search/result/_search_result_container.py
+++ b/nodefinder/search/result/_search_result_container.py
@@ -97,13 +97,13 @@ class SearchResultContainer(SimpleHDF5Mapping):
             Minimization result to add.
         """
         res.pos = self.coordinate_system.normalize_position(res.pos)
+        self.needs_saving = True
         if not res.success or res.value > self.gap_threshold:  # pylint: disable=no-else-return
             self.rejected_results.append(res)
             return False
         else:
             self.nodes.add_point(self.coordinate_system.get_frac(res.pos), res)
             return True
-        self.needs_saving = True
 
     def set_refined(self, pos):
         """
-- 
2.43.0


From a211fe6d06397cc47e044fa89540ec6da756cac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 08/34] fix: pass on all exceptions from the search thread

Exceptions which do not inherit from Exception (such as CancelledError) were
not put into the queue, and the calling thread waited for a result forever.
---
 nodefinder/search/_run.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nodefinder/search/_run.py b/nodefinder/search/_run.py
index 32d7c54..57527a5 100644
--- a/nodefinder/search/_run.py
+++ b/nodefinder/search/_run.py
@@ -187,11 +187,12 @@ def _run_in_thread(*args, res_queue, exc_queue, **kwargs):
     Helper function that runs the search function, to be used as a thread target.
     This assumes that no (running or other) loop exists.
     """
+    loop = asyncio.new_event_loop()
     try:
-        loop = asyncio.new_event_loop()
         res = loop.run_until_complete(run_async(*args, **kwargs))
-        loop.close()
         res_queue.put(res)
-    except Exception as exc:
+    except BaseException as exc:
         exc_queue.put(exc)
         raise
+    finally:
+        loop.close()
-- 
2.43.0


From d1814dadf60623174b3f50d65cf56d72c175f140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 09/34] fix: stop the running minimizations when the search is
 aborted

The other minimizations were left pending on the event loop when one of them
raised an exception or the search was cancelled, and continued to evaluate
the gap function the next time the loop was run.
---
 nodefinder/search/_controller.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nodefinder/search/_controller.py b/nodefinder/search/_controller.py
index f504854..2927f9f 100644
--- a/nodefinder/search/_controller.py
+++ b/nodefinder/search/_controller.py
@@ -186,7 +186,13 @@ class Controller:
         )
 
     async def run(self):
-        await self.create_tasks()
+        try:
+            await self.create_tasks()
+        finally:
+            # do not leave minimizations running if the search was aborted
+            for fut in self.task_futures:
+                fut.cancel()
+            await asyncio.gather(*self.task_futures, return_exceptions=True)
 
     async def create_tasks(self):
         """
-- 
2.43.0


From 87551f45786f63fc2de117e5a0ac0edf879190ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 10/34] fix: resume without a refinement stencil

A TypeError was raised when an initial state with queued positions was
continued with 'refinement_stencil=None'.
---
 nodefinder/search/_controller.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/nodefinder/search/_controller.py b/nodefinder/search/_controller.py
index 2927f9f..b53ae9f 100644
--- a/nodefinder/search/_controller.py
+++ b/nodefinder/search/_controller.py
@@ -210,11 +210,13 @@ class Controller:
                     while not self.state.simplex_queue.has_queued:
                         if self.state.position_queue.has_queued:
                             pos = self.state.position_queue.pop_queued()
-                            if (not self.recheck_pos_dist
-                                ) or self._check_pos_refinement(
+                            if self.refinement_stencil is not None and (
+                                (not self.recheck_pos_dist)
+                                or self._check_pos_refinement(
                                     pos,
                                     count_cutoff=self.recheck_count_cutoff
-                                ):
+                                )
+                            ):
                                 self.state.simplex_queue.add_objects(
                                     pos + self.refinement_stencil
                                 )
-- 
2.43.0


From 6be42b18ab37fa69adcdea40e27f6cd2e3bb3a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 11/34] fix: load the message of a minimization result as
 string

Strings are loaded as bytes since h5py 3.
---
 nodefinder/search/result/_minimization.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/nodefinder/search/result/_minimization.py b/nodefinder/search/result/_minimization.py
index cd1ec82..03c0854 100644
--- a/nodefinder/search/result/_minimization.py
+++ b/nodefinder/search/result/_minimization.py
@@ -103,9 +103,11 @@ class MinimizationResult(SimpleNamespace, HDF5Enabled):
 
     @classmethod
     def from_hdf5(cls, hdf5_handle):
-        return cls(
-            **{
-                key: val[()]
-                for key, val in hdf5_handle.items() if key != 'type_tag'
-            }
-        )
+        kwargs = {
+            key: val[()]
+            for key, val in hdf5_handle.items() if key != 'type_tag'
+        }
+        # h5py version 3 and later does not decode strings
+        if isinstance(kwargs.get('message'), bytes):
+            kwargs['message'] = kwargs['message'].decode('utf-8')
+        return cls(**kwargs)
-- 
2.43.0


From 241d9cf3ee0f0abb3877346f83707cbad20ebb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 12/34] fix: do not truncate the simplex vertices to integers

With an initial simplex of integer type, the new vertices were truncated when
assigning them to the simplex.
---
 nodefinder/search/_minimization/_nelder_mead.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nodefinder/search/_minimization/_nelder_mead.py b/nodefinder/search/_minimization/_nelder_mead.py
index bafc0cb..026a0f7 100644
--- a/nodefinder/search/_minimization/_nelder_mead.py
+++ b/nodefinder/search/_minimization/_nelder_mead.py
@@ -110,7 +110,7 @@ async def root_nelder_mead(
     sigma = 0.5
     one2np1 = list(range(1, N + 1))
 
-    sim = np.array(initial_simplex)
+    sim = np.array(initial_simplex, dtype=float)
     assert sim.shape == (N + 1, N)
 
     fsim = np.array(await asyncio.gather(*[func(x) for x in sim]), dtype=float)
-- 
2.43.0


From d02e6acb20011237e23e7d8a597d3f871c53dabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 13/34] fix: keep the periodic fractional coordinates below one

For positions just below the lower limit the fractional coordinate was one,
which is not a valid position in the cell list.
---
 nodefinder/coordinate_system.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nodefinder/coordinate_system.py b/nodefinder/coordinate_system.py
index c6e4a69..da22643 100644
--- a/nodefinder/coordinate_system.py
+++ b/nodefinder/coordinate_system.py
@@ -59,6 +59,8 @@ class CoordinateSystem(SimpleHDF5Mapping):
         frac = (pos - self._lower_limits) / self.size
         if self.periodic:
             frac %= 1
+            # the modulo of a very small negative value is rounded up to one
+            frac = np.where(frac == 1, 0., frac)
         return frac
 
     def get_pos(self, frac):
-- 
2.43.0


From afb60b94f5988c2ac6c3bd2215aeef1db4c72012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 14/34] fix: scale the accuracy check of the connecting vector

The check used an absolute tolerance, which cannot be reached in floating
point arithmetic for large limits or positions.
---
 nodefinder/coordinate_system.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nodefinder/coordinate_system.py b/nodefinder/coordinate_system.py
index da22643..248f433 100644
--- a/nodefinder/coordinate_system.py
+++ b/nodefinder/coordinate_system.py
@@ -90,7 +90,10 @@ class CoordinateSystem(SimpleHDF5Mapping):
             delta = (pos2 - pos1) % self.size
             delta_negative = delta - self.size
             res = np.where(-delta_negative < delta, delta_negative, delta)
-            assert np.all(self.distance((res + pos1), pos2) < 1e-8)
+            scale = max(
+                1, *(np.max(np.abs(x)) for x in (self.size, pos1, pos2))
+            )
+            assert np.all(self.distance((res + pos1), pos2) < 1e-8 * scale)
             return res
 
     def average(self, positions):
-- 
2.43.0


From 71f009cb1dc50ecdbbfaaae078d9770f121493c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 15/34] fix: keep the edge weights in the dominating set

The subgraph was taken from the graph without weights, and removing the
duplicate paths raised a TypeError.
---
 nodefinder/identify/_evaluate/_line/_dominating_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nodefinder/identify/_evaluate/_line/_dominating_set.py b/nodefinder/identify/_evaluate/_line/_dominating_set.py
index 6da810d..6016c19 100644
--- a/nodefinder/identify/_evaluate/_line/_dominating_set.py
+++ b/nodefinder/identify/_evaluate/_line/_dominating_set.py
@@ -36,7 +36,7 @@ def _evaluate_line_dominating_set(*, graph, coordinate_system, feature_size):
             graph_reduced_neighbours.add_edge(*edge)
 
     dominating_set = nx.algorithms.dominating_set(graph_reduced_neighbours)
-    subgraph = graph.subgraph(dominating_set).copy()
+    subgraph = graph_copy.subgraph(dominating_set).copy()
 
     _patch_all_subgraph_holes(
         subgraph=subgraph,
-- 
2.43.0


From 4a2d043995a39365b4fe37fe2feab547738c9bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 16/34] fix: patch holes between disconnected parts of the
 dominating set

A NetworkXNoPath exception was raised if the positions of the dominating set
are not connected to each other.
---
 .../_evaluate/_line/_dominating_set.py        | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/nodefinder/identify/_evaluate/_line/_dominating_set.py b/nodefinder/identify/_evaluate/_line/_dominating_set.py
index 6016c19..d4acb3c 100644
--- a/nodefinder/identify/_evaluate/_line/_dominating_set.py
+++ b/nodefinder/identify/_evaluate/_line/_dominating_set.py
@@ -76,9 +76,7 @@ def _patch_all_subgraph_holes(
             np.array(pos1), np.array(pos2)
         )
         if dist_minimal < 2 * feature_size:
-            dist_reduced = nx.algorithms.shortest_path_length(
-                subgraph, pos1, pos2, weight=weight
-            )
+            dist_reduced = _path_length(subgraph, pos1, pos2, weight=weight)
             if dist_reduced > max(feature_size, patch_cutoff * dist_minimal):
                 dist_original = nx.algorithms.shortest_path_length(
                     graph, pos1, pos2, weight=weight
@@ -93,9 +91,7 @@ def _patch_all_subgraph_holes(
     to_patch = sorted(to_patch, key=operator.attrgetter('dist_original'))
     for edge, dist_original in to_patch:
         # might have changed since the subgraph is being patched
-        dist_reduced = nx.algorithms.shortest_path_length(
-            subgraph, *edge, weight=_DISTANCE_KEY
-        )
+        dist_reduced = _path_length(subgraph, *edge, weight=_DISTANCE_KEY)
         if dist_reduced > 2 * dist_original:
             IDENTIFY_LOGGER.debug(
                 'Patching hole {} in sub-graph.'.format(edge)
@@ -106,6 +102,19 @@ def _patch_all_subgraph_holes(
             )
 
 
+def _path_length(graph, pos1, pos2, *, weight):
+    """
+    Length of the shortest path between two positions, or infinity if they are
+    not connected.
+    """
+    try:
+        return nx.algorithms.shortest_path_length(
+            graph, pos1, pos2, weight=weight
+        )
+    except nx.NetworkXNoPath:
+        return float('inf')
+
+
 def _patch_subgraph_hole(*, subgraph, graph, start, end):
     """
     Patch a single hole in the subgraph between the given start and end points.
-- 
2.43.0


From ae098a198092df9fd6efc783a12e777cb41ac7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:59 +0000
Subject: [PATCH 17/34] fix: stop the search when the event loop is interrupted

After a KeyboardInterrupt, the search was left pending on the event loop
without saving its state. It was continued by the next search using the same
loop, which then failed with the KeyboardInterrupt of the first one.
---
 nodefinder/search/_run.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/nodefinder/search/_run.py b/nodefinder/search/_run.py
index 57527a5..ef78509 100644
--- a/nodefinder/search/_run.py
+++ b/nodefinder/search/_run.py
@@ -175,13 +175,28 @@ def run(*args, **kwargs):
             res = res_queue.get()
         else:
             SEARCH_LOGGER.debug('Running in the current thread.')
-            res = loop.run_until_complete(run_async(*args, **kwargs))
+            res = _run_in_loop(loop, *args, **kwargs)
     finally:
         if close_loop:
             loop.close()
     return res
 
 
+def _run_in_loop(loop, *args, **kwargs):
+    """
+    Helper function that runs the search function on the given event loop. If
+    the loop itself is interrupted (for example by a KeyboardInterrupt), the
+    search is stopped before passing on the exception.
+    """
+    task = loop.create_task(run_async(*args, **kwargs))
+    try:
+        return loop.run_until_complete(task)
+    finally:
+        if not task.done():
+            task.cancel()
+            loop.run_until_complete(asyncio.wait([task]))
+
+
 def _run_in_thread(*args, res_queue, exc_queue, **kwargs):
     """
     Helper function that runs the search function, to be used as a thread target.
@@ -189,7 +204,7 @@ def _run_in_thread(*args, res_queue, exc_queue, **kwargs):
     """
     loop = asyncio.new_event_loop()
     try:
-        res = loop.run_until_complete(run_async(*args, **kwargs))
+        res = _run_in_loop(loop, *args, **kwargs)
         res_queue.put(res)
     except BaseException as exc:
         exc_queue.put(exc)
-- 
2.43.0


From 3b6ac067c9400d09a9b02208ee56186a23259ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:05 +0000
Subject: [PATCH 18/34] fix: report the value of the best vertex of the final
 simplex

---
 nodefinder/search/_minimization/_nelder_mead.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nodefinder/search/_minimization/_nelder_mead.py b/nodefinder/search/_minimization/_nelder_mead.py
index 026a0f7..8d98c22 100644
--- a/nodefinder/search/_minimization/_nelder_mead.py
+++ b/nodefinder/search/_minimization/_nelder_mead.py
@@ -201,7 +201,7 @@ async def root_nelder_mead(
             simplex_history[0] = np.copy(sim)
 
     x = sim[0]
-    fval = np.min(fsim)
+    fval = fsim[0]
     warnflag = 0
 
     if fcalls[0] >= maxfun:
-- 
2.43.0


From b0614385fd5a26bafd8e73437f6ffa3daf1ae7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:09 +0000
Subject: [PATCH 19/34] fix: save after the running minimizations are stopped

---
 nodefinder/search/_controller.py | 102 ++++++++++++++++---------------
 nodefinder/search/_run.py        |   7 ++-
 2 files changed, 58 insertions(+), 51 deletions(-)

diff --git a/nodefinder/search/_controller.py b/nodefinder/search/_controller.py
index b53ae9f..3f87346 100644
--- a/nodefinder/search/_controller.py
+++ b/nodefinder/search/_controller.py
@@ -186,68 +186,70 @@ class Controller:
         )
 
     async def run(self):
-        try:
-            await self.create_tasks()
-        finally:
-            # do not leave minimizations running if the search was aborted
-            for fut in self.task_futures:
-                fut.cancel()
-            await asyncio.gather(*self.task_futures, return_exceptions=True)
+        async with PeriodicTask(self.save, delay=self.save_delay):
+            try:
+                await self.create_tasks()
+            finally:
+                # do not leave minimizations running if the search was aborted
+                for fut in self.task_futures:
+                    fut.cancel()
+                await asyncio.gather(
+                    *self.task_futures, return_exceptions=True
+                )
 
     async def create_tasks(self):
         """
         Create minimization tasks until the calculation is finished.
         """
-        async with PeriodicTask(self.save, delay=self.save_delay):
+        while (
+            not self.state.simplex_queue.finished
+        ) or self.state.position_queue.has_queued:
+            # if (not self.state.simplex_queue.has_queued) and (self.state.position_queue.has_queued):
             while (
-                not self.state.simplex_queue.finished
-            ) or self.state.position_queue.has_queued:
-                # if (not self.state.simplex_queue.has_queued) and (self.state.position_queue.has_queued):
-                while (
-                    self.state.simplex_queue.num_running <
-                    self.num_minimize_parallel
-                ):
-                    while not self.state.simplex_queue.has_queued:
-                        if self.state.position_queue.has_queued:
-                            pos = self.state.position_queue.pop_queued()
-                            if self.refinement_stencil is not None and (
-                                (not self.recheck_pos_dist)
-                                or self._check_pos_refinement(
-                                    pos,
-                                    count_cutoff=self.recheck_count_cutoff
-                                )
-                            ):
-                                self.state.simplex_queue.add_objects(
-                                    pos + self.refinement_stencil
-                                )
-                                self.state.result.set_refined(np.array(pos))
-                            else:
-                                SEARCH_LOGGER.debug(
-                                    'Discarding refinement of position {}'.
-                                    format(pos)
-                                )
+                self.state.simplex_queue.num_running <
+                self.num_minimize_parallel
+            ):
+                while not self.state.simplex_queue.has_queued:
+                    if self.state.position_queue.has_queued:
+                        pos = self.state.position_queue.pop_queued()
+                        if self.refinement_stencil is not None and (
+                            (not self.recheck_pos_dist)
+                            or self._check_pos_refinement(
+                                pos,
+                                count_cutoff=self.recheck_count_cutoff
+                            )
+                        ):
+                            self.state.simplex_queue.add_objects(
+                                pos + self.refinement_stencil
+                            )
+                            self.state.result.set_refined(np.array(pos))
                         else:
-                            break
-                    if self.state.simplex_queue.has_queued:
-                        simplex = self.state.simplex_queue.pop_queued()
-                        if self._check_simplex(simplex):
-                            self.schedule_minimization(simplex)
-                        else:
-                            self.state.simplex_queue.set_finished(simplex)
+                            SEARCH_LOGGER.debug(
+                                'Discarding refinement of position {}'.
+                                format(pos)
+                            )
                     else:
                         break
+                if self.state.simplex_queue.has_queued:
+                    simplex = self.state.simplex_queue.pop_queued()
+                    if self._check_simplex(simplex):
+                        self.schedule_minimization(simplex)
+                    else:
+                        self.state.simplex_queue.set_finished(simplex)
+                else:
+                    break
 
-                await asyncio.sleep(0.)
+            await asyncio.sleep(0.)
 
-                # Retrieve all exceptions, to avoid 'exception never retrieved'
-                # warning, but raise only the first one.
-                done_futures = [fut for fut in self.task_futures if fut.done()]
-                exceptions = [fut.exception() for fut in done_futures]
-                exceptions = [exc for exc in exceptions if exc is not None]
-                if exceptions:
-                    raise exceptions[0]
+            # Retrieve all exceptions, to avoid 'exception never retrieved'
+            # warning, but raise only the first one.
+            done_futures = [fut for fut in self.task_futures if fut.done()]
+            exceptions = [fut.exception() for fut in done_futures]
+            exceptions = [exc for exc in exceptions if exc is not None]
+            if exceptions:
+                raise exceptions[0]
 
-                self.task_futures.difference_update(done_futures)
+            self.task_futures.difference_update(done_futures)
         await asyncio.gather(*self.task_futures)
 
     def schedule_minimization(self, simplex):
diff --git a/nodefinder/search/_run.py b/nodefinder/search/_run.py
index ef78509..14ed23b 100644
--- a/nodefinder/search/_run.py
+++ b/nodefinder/search/_run.py
@@ -194,7 +194,12 @@ def _run_in_loop(loop, *args, **kwargs):
     finally:
         if not task.done():
             task.cancel()
-            loop.run_until_complete(asyncio.wait([task]))
+        while not task.done():
+            # The interrupt is raised by each of the nested tasks.
+            try:
+                loop.run_until_complete(asyncio.wait([task]))
+            except (KeyboardInterrupt, SystemExit):
+                pass
 
 
 def _run_in_thread(*args, res_queue, exc_queue, **kwargs):
-- 
2.43.0


From 23f9ad500c66e8d73c811c124de574d70ba58263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:44 +0000
Subject: [PATCH 20/34] fix: normalizing a periodic position again does not
 move it

---
 nodefinder/coordinate_system.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nodefinder/coordinate_system.py b/nodefinder/coordinate_system.py
index 248f433..0515b3d 100644
--- a/nodefinder/coordinate_system.py
+++ b/nodefinder/coordinate_system.py
@@ -115,7 +115,10 @@ class CoordinateSystem(SimpleHDF5Mapping):
         boundary conditions for the periodic case.
         """
         if self.periodic:
-            return ((pos - self._lower_limits) %
-                    self.size) + self._lower_limits
+            res = ((pos - self._lower_limits) %
+                   self.size) + self._lower_limits
+            # the modulo of a very small negative value is rounded up, which
+            # would give a different position when normalizing again
+            return np.where(res == self._upper_limits, self._lower_limits, res)
         else:
             return pos
-- 
2.43.0


From 352d76d73f125a55c2b3b73d162fb9336258eaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:57 +0000
Subject: [PATCH 21/34] fix: find neighbours on opposite sides of a box smaller
 than the cutoff

---
 nodefinder/search/result/_cell_list.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nodefinder/search/result/_cell_list.py b/nodefinder/search/result/_cell_list.py
index d484bd9..161eedf 100644
--- a/nodefinder/search/result/_cell_list.py
+++ b/nodefinder/search/result/_cell_list.py
@@ -23,7 +23,9 @@ class CellList:
         self.num_cells = np.array(num_cells, dtype=int)
         self._total_num_cells = np.copy(self.num_cells)
         if not self.periodic:
-            self._total_num_cells += 2  # add 'boundary' boxes for outside points.
+            # Add 'boundary' boxes for outside points. A single cell can be
+            # smaller than the cutoff, it also contains the outside points.
+            self._total_num_cells[self.num_cells > 1] += 2
         assert np.all(self.num_cells > 0)
         self._cells = np.empty(shape=self._total_num_cells, dtype=np.object)
         filler = np.frompyfunc(lambda x: list(), 1, 1)
-- 
2.43.0


From 87d7aa75646d514dc52f13c27d0d5135248fc4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:25 +0000
Subject: [PATCH 22/34] fix: save the state after a queued position was
 discarded

---
 nodefinder/search/_queue.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nodefinder/search/_queue.py b/nodefinder/search/_queue.py
index 46498b7..1c85944 100644
--- a/nodefinder/search/_queue.py
+++ b/nodefinder/search/_queue.py
@@ -151,3 +151,9 @@ class PositionQueue(ObjectQueue):
     @staticmethod
     def normalize(objects):
         return [tuple(pos) for pos in objects]
+
+    def pop_queued(self):
+        # Unlike running objects, the position is gone from the saved state.
+        pos = super().pop_queued()
+        self.needs_saving = True
+        return pos
-- 
2.43.0


From 394f30ef59eb22346096c26886a80b2e665706e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:08 +0000
Subject: [PATCH 23/34] fix: copying and unpickling of two-step minimization
 results

The lookup of missing attributes in the child recursed infinitely if the
child itself was not set yet.
---
 nodefinder/search/result/_minimization.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nodefinder/search/result/_minimization.py b/nodefinder/search/result/_minimization.py
index 03c0854..e59b9c4 100644
--- a/nodefinder/search/result/_minimization.py
+++ b/nodefinder/search/result/_minimization.py
@@ -51,6 +51,9 @@ class JoinedMinimizationResult(SimpleHDF5Mapping):
         Joins child and ancestor values where that makes sense, and returns the
         child value otherwise.
         """
+        if key in self.HDF5_ATTRIBUTES:
+            # not set yet, while the object is being copied or unpickled
+            raise AttributeError(key)
         if key in self.JOIN_KEYS:
             return self._join(
                 getattr(self.ancestor, key), getattr(self.child, key)
-- 
2.43.0


From 40361b53fd56c83128c8677717f21c1f7dc38310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:08 +0000
Subject: [PATCH 24/34] fix: copying and unpickling of identification results

The reduce method of SimpleNamespace calls the constructor without
arguments, which fails for these classes.
---
 nodefinder/identify/result/_containers.py |  8 ++++----
 nodefinder/identify/result/_namespace.py  | 20 ++++++++++++++++++++
 nodefinder/identify/result/_shapes.py     |  8 ++++----
 3 files changed, 28 insertions(+), 8 deletions(-)
 create mode 100644 nodefinder/identify/result/_namespace.py

diff --git a/nodefinder/identify/result/_containers.py b/nodefinder/identify/result/_containers.py
index 9cbf4a9..44ebbcc 100644
--- a/nodefinder/identify/result/_containers.py
+++ b/nodefinder/identify/result/_containers.py
@@ -6,16 +6,16 @@
 Defines the container classes for the identification results.
 """
 
-from types import SimpleNamespace
-
 import numpy as np
 from fsc.export import export
 from fsc.hdf5_io import subscribe_hdf5, SimpleHDF5Mapping, HDF5Enabled, to_hdf5, from_hdf5
 
+from ._namespace import ResultNamespace
+
 
 @export
 @subscribe_hdf5('nodefinder.identification_result_container')
-class IdentificationResultContainer(SimpleNamespace, SimpleHDF5Mapping):
+class IdentificationResultContainer(ResultNamespace, SimpleHDF5Mapping):
     """Container class for the result of the identification step.
 
     Attributes
@@ -46,7 +46,7 @@ class IdentificationResultContainer(SimpleNamespace, SimpleHDF5Mapping):
 
 @export
 @subscribe_hdf5('nodefinder.identification_result')
-class IdentificationResult(SimpleNamespace, HDF5Enabled):
+class IdentificationResult(ResultNamespace, HDF5Enabled):
     """Contains the attributes of an identified object.
 
     Attributes
diff --git a/nodefinder/identify/result/_namespace.py b/nodefinder/identify/result/_namespace.py
new file mode 100644
index 0000000..7d9098e
--- /dev/null
+++ b/nodefinder/identify/result/_namespace.py
@@ -0,0 +1,20 @@
+# -*- coding: utf-8 -*-
+
+# © 2017-2019, ETH Zurich, Institut für Theoretische Physik
+# Author: Dominik Gresch <greschd@gmx.ch>
+"""
+Defines the base class for the identification results.
+"""
+
+import copyreg
+from types import SimpleNamespace
+
+
+class ResultNamespace(SimpleNamespace):
+    """
+    Namespace for classes with required constructor arguments. These cannot be
+    copied or pickled with the method of the built-in namespace, which calls
+    the constructor without arguments.
+    """
+    def __reduce__(self):
+        return copyreg.__newobj__, (type(self), ), self.__dict__
diff --git a/nodefinder/identify/result/_shapes.py b/nodefinder/identify/result/_shapes.py
index a6b1b6c..d3298ca 100644
--- a/nodefinder/identify/result/_shapes.py
+++ b/nodefinder/identify/result/_shapes.py
@@ -6,18 +6,18 @@
 Defines the container classes for object shapes.
 """
 
-from types import SimpleNamespace
-
 import numpy as np
 import networkx as nx
 
 from fsc.export import export
 from fsc.hdf5_io import SimpleHDF5Mapping, subscribe_hdf5, to_hdf5, from_hdf5
 
+from ._namespace import ResultNamespace
+
 
 @export
 @subscribe_hdf5('nodefinder.nodal_point')
-class NodalPoint(SimpleNamespace, SimpleHDF5Mapping):
+class NodalPoint(ResultNamespace, SimpleHDF5Mapping):
     """
     Shape class defining a nodal point.
 
@@ -34,7 +34,7 @@ class NodalPoint(SimpleNamespace, SimpleHDF5Mapping):
 
 @export
 @subscribe_hdf5('nodefinder.nodal_line')
-class NodalLine(SimpleNamespace):
+class NodalLine(ResultNamespace):
     """
     Shape class defining a nodal line.
 
-- 
2.43.0


From 5c60e1f1b7c9e560b1c5503c845b208b3a02760c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:24 +0000
Subject: [PATCH 25/34] fix: gap functions which modify their argument

The position passed to the gap function was the array used by the Nelder-Mead
algorithm, so that a function modifying its argument in place changed the
simplex.
---
 nodefinder/search/_controller.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/nodefinder/search/_controller.py b/nodefinder/search/_controller.py
index 3f87346..5119c17 100644
--- a/nodefinder/search/_controller.py
+++ b/nodefinder/search/_controller.py
@@ -29,6 +29,17 @@ from .refinement_stencil import get_auto_stencil
 _DIST_CUTOFF_FACTOR = 3
 
 
+def _copy_argument(func):
+    """
+    Pass a copy of the position to the function, such that the minimization is
+    not affected if the function modifies its argument.
+    """
+    async def evaluate(pos):
+        return await func(np.copy(pos))
+
+    return evaluate
+
+
 @export
 class Controller:
     """
@@ -59,7 +70,7 @@ class Controller:
         recheck_count_cutoff=0,
         simplex_check_cutoff=0
     ):
-        self.gap_fct = wrap_to_coroutine(gap_fct)
+        self.gap_fct = _copy_argument(wrap_to_coroutine(gap_fct))
 
         self.coordinate_system = CoordinateSystem(
             limits=limits, periodic=periodic
-- 
2.43.0


From 2493aea833ba19266616e68523ab7da85e031f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:24 +0000
Subject: [PATCH 26/34] fix: saving the position of two-step minimization
 results

The position mapped into the limits of a periodic box was set on the wrapper
only, and lost when saving the minimization result.
---
 nodefinder/search/result/_minimization.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/nodefinder/search/result/_minimization.py b/nodefinder/search/result/_minimization.py
index e59b9c4..dee3c83 100644
--- a/nodefinder/search/result/_minimization.py
+++ b/nodefinder/search/result/_minimization.py
@@ -46,6 +46,15 @@ class JoinedMinimizationResult(SimpleHDF5Mapping):
         self.child = child
         self.ancestor = ancestor
 
+    @property
+    def pos(self):
+        return self.child.pos
+
+    @pos.setter
+    def pos(self, value):
+        # not an attribute of the wrapper itself, which would not be saved
+        self.child.pos = value
+
     def __getattr__(self, key):
         """
         Joins child and ancestor values where that makes sense, and returns the
-- 
2.43.0


From 3fb2c1dbb2c6d9cf7b99039c6cf20737b60f9624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:56 +0000
Subject: [PATCH 27/34] fix: stop the other evaluations of a starting simplex
 if one of them fails

---
 nodefinder/search/_minimization/_nelder_mead.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/nodefinder/search/_minimization/_nelder_mead.py b/nodefinder/search/_minimization/_nelder_mead.py
index 8d98c22..8364940 100644
--- a/nodefinder/search/_minimization/_nelder_mead.py
+++ b/nodefinder/search/_minimization/_nelder_mead.py
@@ -51,6 +51,21 @@ def wrap_function(function):
     return ncalls, function_wrapper
 
 
+async def _gather(*coroutines):
+    """
+    Evaluate the coroutines concurrently. If one of them fails, the others are
+    stopped before passing on the exception.
+    """
+    tasks = [asyncio.ensure_future(coro) for coro in coroutines]
+    try:
+        return await asyncio.gather(*tasks)
+    except BaseException:
+        for task in tasks:
+            task.cancel()
+        await asyncio.gather(*tasks, return_exceptions=True)
+        raise
+
+
 @export
 async def root_nelder_mead(
     func,
@@ -113,7 +128,7 @@ async def root_nelder_mead(
     sim = np.array(initial_simplex, dtype=float)
     assert sim.shape == (N + 1, N)
 
-    fsim = np.array(await asyncio.gather(*[func(x) for x in sim]), dtype=float)
+    fsim = np.array(await _gather(*[func(x) for x in sim]), dtype=float)
     assert fsim.shape == (N + 1, )
 
     ind = np.argsort(fsim)
-- 
2.43.0


From 7bcce48b36850bb4a3456ea78efb296ef671c669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:04 +0000
Subject: [PATCH 28/34] fix: remove the temporary file if saving is interrupted

---
 nodefinder/search/_controller.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/nodefinder/search/_controller.py b/nodefinder/search/_controller.py
index 5119c17..e947f68 100644
--- a/nodefinder/search/_controller.py
+++ b/nodefinder/search/_controller.py
@@ -10,6 +10,7 @@ import os
 import numbers
 import asyncio
 import tempfile
+from contextlib import suppress
 from collections import ChainMap
 
 import numpy as np
@@ -337,6 +338,8 @@ class Controller:
                     io.save(self.state, tmpf.name)
                     os.rename(tmpf.name, self.save_file)
                     self.state.needs_saving = False
-                except Exception as exc:
-                    os.remove(tmpf.name)
-                    raise exc
+                except BaseException:
+                    # also if saving is interrupted
+                    with suppress(FileNotFoundError):
+                        os.remove(tmpf.name)
+                    raise
-- 
2.43.0


From d72d6e1e86eab5d65f6f57c2a8ca72ed9afabddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:04 +0000
Subject: [PATCH 29/34] fix: leave no task on the event loop if saving is
 interrupted

---
 nodefinder/search/_run.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/nodefinder/search/_run.py b/nodefinder/search/_run.py
index 14ed23b..eefa9ab 100644
--- a/nodefinder/search/_run.py
+++ b/nodefinder/search/_run.py
@@ -194,12 +194,16 @@ def _run_in_loop(loop, *args, **kwargs):
     finally:
         if not task.done():
             task.cancel()
-        while not task.done():
-            # The interrupt is raised by each of the nested tasks.
-            try:
-                loop.run_until_complete(asyncio.wait([task]))
-            except (KeyboardInterrupt, SystemExit):
-                pass
+            waiter = loop.create_task(asyncio.wait([task]))
+            while not waiter.done():
+                # The interrupt is raised by each of the nested tasks.
+                try:
+                    loop.run_until_complete(waiter)
+                except (KeyboardInterrupt, SystemExit):
+                    pass
+            if not task.cancelled():
+                # avoid 'exception never retrieved' warning
+                task.exception()
 
 
 def _run_in_thread(*args, res_queue, exc_queue, **kwargs):
-- 
2.43.0


From 0f97febd4e3c6a1692b2999427ae10cb785fecef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:04 +0000
Subject: [PATCH 30/34] fix: changed positions in the initial state of a search

---
 nodefinder/search/_controller.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nodefinder/search/_controller.py b/nodefinder/search/_controller.py
index e947f68..5b9641c 100644
--- a/nodefinder/search/_controller.py
+++ b/nodefinder/search/_controller.py
@@ -7,6 +7,7 @@ Defines the Controller, which implements the evaluation of the search step.
 """
 
 import os
+import copy
 import numbers
 import asyncio
 import tempfile
@@ -157,7 +158,10 @@ class Controller:
         if initial_state is not None:
             result = SearchResultContainer(
                 coordinate_system=self.coordinate_system,
-                minimization_results=initial_state.result.minimization_results,
+                # the positions are mapped to the current coordinate system
+                minimization_results=copy.deepcopy(
+                    initial_state.result.minimization_results
+                ),
                 gap_threshold=gap_threshold,
                 dist_cutoff=dist_cutoff,
                 refined_results=initial_state.result.refined_results
-- 
2.43.0


From 21da30a9caf9350615cf006147d9570607c8b985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:13 +0000
Subject: [PATCH 31/34] fix: do not average an empty list of volumes

A position with fewer neighbours than the dimension which is tested for, such
as a single node, has no volumes to average. The dimension was correct, but
NumPy emits warnings (or raises, if floating point errors or warnings do).
---
 nodefinder/identify/_dimension.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nodefinder/identify/_dimension.py b/nodefinder/identify/_dimension.py
index 7ce0f45..b65afc3 100644
--- a/nodefinder/identify/_dimension.py
+++ b/nodefinder/identify/_dimension.py
@@ -175,6 +175,9 @@ def _has_dimension(
                 coordinate_system=coordinate_system
             )
         )
+    if not results:
+        # not enough neighbours
+        return False
     return np.average(results) > limit_value
 
 
-- 
2.43.0


From 2f940cf05c5d8412cfc08471c9646e6f1cc0aeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:13 +0000
Subject: [PATCH 32/34] fix: do not raise an exception again in the search
 thread

The exception is passed on to the calling thread, which raises it. Raising it
also in the search thread only leads to a second traceback on standard error,
even if the caller handles the exception.
---
 nodefinder/search/_run.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/nodefinder/search/_run.py b/nodefinder/search/_run.py
index eefa9ab..f3ab82f 100644
--- a/nodefinder/search/_run.py
+++ b/nodefinder/search/_run.py
@@ -217,6 +217,5 @@ def _run_in_thread(*args, res_queue, exc_queue, **kwargs):
         res_queue.put(res)
     except BaseException as exc:
         exc_queue.put(exc)
-        raise
     finally:
         loop.close()
-- 
2.43.0


From 8e4eb24743787d6a9badb215cc0b75cbde01be57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:31 +0000
Subject: [PATCH 33/34] fix: do not print paths to standard output

Lines on which there are more than three paths between two points had these
paths printed; they are a debug message now.
---
 nodefinder/identify/_evaluate/_line/_shortest_path.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nodefinder/identify/_evaluate/_line/_shortest_path.py b/nodefinder/identify/_evaluate/_line/_shortest_path.py
index 11942c0..fc5cb50 100644
--- a/nodefinder/identify/_evaluate/_line/_shortest_path.py
+++ b/nodefinder/identify/_evaluate/_line/_shortest_path.py
@@ -93,7 +93,10 @@ def _evaluate_line_shortest_path(  # pylint: disable=too-many-locals,too-many-st
                     break
 
                 if num_paths > 3:
-                    print(path)
+                    IDENTIFY_LOGGER.debug(
+                        'Path number %s between %s and %s: %s', num_paths + 1,
+                        start_pos, end_pos, path
+                    )
                 new_neighbours = set()
                 for node in path:
                     new_neighbours.update(tmp_graph.neighbors(node))
-- 
2.43.0


From f82e233462a2b9c6b03f560e0e65a781376f4245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:57 +0000
Subject: [PATCH 34/34] fix: keep saving after a save has failed

If saving failed once during a search (for example because the disk was full
for a moment), the task which saves had ended: the progress was not saved any
more, and when the search ended it raised the error instead of returning its
result. Saving is tried again now, and an error raised only if the result can
not be saved at the end. If the search itself fails, its exception is raised
also if saving fails.
---
 nodefinder/search/_controller.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/nodefinder/search/_controller.py b/nodefinder/search/_controller.py
index 5b9641c..9020038 100644
--- a/nodefinder/search/_controller.py
+++ b/nodefinder/search/_controller.py
@@ -202,7 +202,7 @@ class Controller:
         )
 
     async def run(self):
-        async with PeriodicTask(self.save, delay=self.save_delay):
+        async with PeriodicTask(self.try_save, delay=self.save_delay):
             try:
                 await self.create_tasks()
             finally:
@@ -212,6 +212,8 @@ class Controller:
                 await asyncio.gather(
                     *self.task_futures, return_exceptions=True
                 )
+        # raises an error if the result is still not saved
+        self.save()
 
     async def create_tasks(self):
         """
@@ -330,6 +332,16 @@ class Controller:
                     break
         return True
 
+    def try_save(self):
+        """
+        Store the current ControllerState to the save file. If this fails, it is
+        tried again the next time, instead of ending the periodic saving.
+        """
+        try:
+            self.save()
+        except Exception as exc:  # pylint: disable=broad-except
+            SEARCH_LOGGER.error('Saving the state failed: {!r}'.format(exc))
+
     def save(self):
         """
         Store the current ControllerState to the save file.
-- 
2.43.0

