From 31fd67fdc860d051710131d91455381572d74cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:58 +0000
Subject: [PATCH 01/50] fix: generate_initial_sol yields a label array for
 n_regions=1

It yielded a dict, on which every AZP variant raised TypeError, and it
accepted one region for a disconnected map.
---
 region/util.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/region/util.py b/region/util.py
index ff3721c..927d58b 100755
--- a/region/util.py
+++ b/region/util.py
@@ -611,9 +611,6 @@ def generate_initial_sol(adj, n_regions):
             "less than or equal to the number of areas "
             "({}).".format(n_regions, n_areas)
         )
-    if n_regions == 1:
-        yield {area: 0 for area in range(n_areas)}
-        return
 
     n_comps, comp_labels = csg.connected_components(adj)
     if n_comps > n_regions:
-- 
2.43.0


From e773aa2a83e72acab776a051963454539081f043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:58 +0000
Subject: [PATCH 02/50] fix: array_from_dict_values shapes its result by the
 selected keys

The documented use of sorted_keys for a subset of the keys, or for repeated
keys, raised or returned rows of the wrong length.
---
 region/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/region/util.py b/region/util.py
index 927d58b..d0ea1d4 100755
--- a/region/util.py
+++ b/region/util.py
@@ -74,7 +74,7 @@ def array_from_dict_values(dct, sorted_keys=None, flat_output=False, dtype=np.fl
     flat_arr = np.fromiter(it, dtype=dtype)
     if flat_output:
         return flat_arr
-    return flat_arr.reshape((len(dct), -1))
+    return flat_arr.reshape((len(sorted_keys), -1))
 
 
 def scipy_sparse_matrix_from_dict(neighbors):
-- 
2.43.0


From 546238c75d407b310c8228bb0f2266ef9a667df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:58 +0000
Subject: [PATCH 03/50] fix: rows of a networkx graph's attributes follow the
 graph's node order

The adjacency matrix has the nodes in graph order, the attributes came in
sorted order, so attributes were assigned to the wrong areas for graphs
whose nodes were not inserted in ascending order.
---
 region/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/region/util.py b/region/util.py
index d0ea1d4..56517e1 100755
--- a/region/util.py
+++ b/region/util.py
@@ -245,7 +245,8 @@ def array_from_graph(graph, attr):
     True
     """
     dct = dict_from_graph_attr(graph, attr)
-    return array_from_dict_values(dct)
+    # rows in the order of the graph's nodes, like the adjacency matrix
+    return array_from_dict_values(dct, list(graph.nodes()))
 
 
 def array_from_graph_or_dict(graph, attr):
-- 
2.43.0


From 4968262a672e68ee9c4791ca14cee19821373811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:58 +0000
Subject: [PATCH 04/50] fix: accept initial_labels in the networkx interface of
 AZP and AZP-SA

The labels were passed on as a two-dimensional array, on which the
feasibility check raised TypeError.
---
 region/p_regions/azp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/region/p_regions/azp.py b/region/p_regions/azp.py
index 42027f4..29705bb 100755
--- a/region/p_regions/azp.py
+++ b/region/p_regions/azp.py
@@ -189,7 +189,8 @@ class AZP:
         adj = nx.to_scipy_sparse_matrix(graph)
         attr = array_from_graph_or_dict(graph, attr)
         if initial_labels is not None:
-            initial_labels = array_from_graph_or_dict(graph, initial_labels)
+            initial_labels = array_from_graph_or_dict(
+                graph, initial_labels).flatten()
         self.fit_from_scipy_sparse_matrix(
             adj,
             attr,
@@ -573,7 +574,8 @@ class AZPSimulatedAnnealing:
         adj = nx.to_scipy_sparse_matrix(graph)
         attr = array_from_graph_or_dict(graph, attr)
         if initial_labels is not None:
-            initial_labels = array_from_graph_or_dict(graph, initial_labels)
+            initial_labels = array_from_graph_or_dict(
+                graph, initial_labels).flatten()
         self.fit_from_scipy_sparse_matrix(
             adj,
             attr,
-- 
2.43.0


From e677f3ed245569f9bf8b6384ece9dca4cfca84b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:16 +0000
Subject: [PATCH 05/50] fix: ObjectiveFunctionCenter.update is the change of
 the whole objective

Reducing only the donor and the recipient region is wrong for reductions
like np.max or np.mean as soon as there are other regions, and raised for a
donor region of one area.
---
 region/objective_function.py | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/region/objective_function.py b/region/objective_function.py
index 2cb51bb..080027b 100755
--- a/region/objective_function.py
+++ b/region/objective_function.py
@@ -146,20 +146,11 @@ class ObjectiveFunctionCenter(ObjectiveFunction):
     def update(self, moving_area, recipient_region, labels, attr):
         donor_region = labels[moving_area]
 
-        donor_before = self._intraregional_heterogeneity(
-            labels, donor_region, attr)
-        recipient_before = self._intraregional_heterogeneity(
-            labels, recipient_region, attr)
-
+        # The reduction need not be additive (e.g. np.max) and the donor region
+        # may vanish, so the whole objective is evaluated.
+        overall_before = self(labels, attr)
         labels[moving_area] = recipient_region
-        donor_after = self._intraregional_heterogeneity(
-            labels, donor_region, attr)
-        recipient_after = self._intraregional_heterogeneity(
-            labels, recipient_region, attr)
+        overall_after = self(labels, attr)
         labels[moving_area] = donor_region
 
-        overall_before = self.reduction((donor_before, recipient_before))
-        overall_after = self.reduction((donor_after, recipient_after))
-        diff = overall_after - overall_before
-
-        return diff
+        return overall_after - overall_before
-- 
2.43.0


From 6689cad64332cc749eb3852d210ec2691bdb6824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:16 +0000
Subject: [PATCH 06/50] fix: a tabu move must not empty its donor region

Aspiration moves, and the move following one, are not checked for the
number of areas in the donor region, so the number of regions could drop.
---
 region/p_regions/azp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/region/p_regions/azp.py b/region/p_regions/azp.py
index 29705bb..b822877 100755
--- a/region/p_regions/azp.py
+++ b/region/p_regions/azp.py
@@ -715,7 +715,9 @@ class AZPTabu(AZP, abc.ABC):
     def _make_move(self, area, new_region, labels, adj):
         old_region = labels[area]
         make_move(area, new_region, labels)
-        if not boolean_assert_feasible(labels, adj): # If the move breaks the contiguity, revert it!
+        # If the move breaks the contiguity or empties the donor, revert it!
+        if count(labels, old_region) == 0 \
+                or not boolean_assert_feasible(labels, adj):
             make_move(area, old_region, labels) # Revert Move!
             reverse_move = Move(area, new_region, old_region)
             self.tabu.append(reverse_move)
-- 
2.43.0


From 8bc0b42a5f6624b57798cf346ea0ffcda4d3205b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:50 +0000
Subject: [PATCH 07/50] fix: AZPBasicTabu terminates on plateaus of the
 objective function

A solution visited repetitions_before_termination times only ended the search
once no move of equal value was left. With areas of equal attributes that
never happened.
---
 region/p_regions/azp.py | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/region/p_regions/azp.py b/region/p_regions/azp.py
index b822877..c462761 100755
--- a/region/p_regions/azp.py
+++ b/region/p_regions/azp.py
@@ -799,12 +799,11 @@ class AZPBasicTabu(AZPTabu):
         labels = initial_clustering
 
         visited = []
-        stop = False
         while True:
             # added termination condition (not in Openshaw & Rao (1995))
             label_tup = tuple(labels)
             if visited.count(label_tup) >= self.reps_before_termination:
-                stop = True
+                break
 
             visited.append(label_tup)
 
@@ -851,17 +850,12 @@ class AZPBasicTabu(AZPTabu):
                     
                         self._make_move(aspiration_move.area, aspiration_move.new_region, labels, adj)
                         
-                if stop:
-                        break
-                else:
-                    # step 4: If there is no improving move and no aspirational
-                    # move, then make the best move even if it is nonimproving
-                    # (that is, results in a worse value of the objective
-                    # function).
-                    if stop:
-                        break
-                    if best_move is not None and self.allow_move_strategy(best_move.area, best_move.new_region, labels):
-                        self._make_move(best_move.area, best_move.new_region, labels, adj)
+                # step 4: If there is no improving move and no aspirational
+                # move, then make the best move even if it is nonimproving
+                # (that is, results in a worse value of the objective
+                # function).
+                if best_move is not None and self.allow_move_strategy(best_move.area, best_move.new_region, labels):
+                    self._make_move(best_move.area, best_move.new_region, labels, adj)
         return labels
 
 
-- 
2.43.0


From 3ecbfaf9f35050a8a4198211794b1dbf9ea7daba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:50 +0000
Subject: [PATCH 08/50] fix: AZPReactiveTabu starts each component with no
 visited solutions

Solutions of the previous component, or of the previous fit, could be
returned as the labels of the current one, and counted as repetitions.
---
 region/p_regions/azp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/region/p_regions/azp.py b/region/p_regions/azp.py
index c462761..6e0bfa6 100755
--- a/region/p_regions/azp.py
+++ b/region/p_regions/azp.py
@@ -934,6 +934,7 @@ class AZPReactiveTabu(AZPTabu):
         #  step 2: make a list of the M regions
         labels = initial_labels
 
+        self.visited = []
         it_since_tabu_len_changed = 0
         obj_val_start = float("inf")
         # step 12: Repeat steps 3-11 until either no further improvements are
-- 
2.43.0


From cc1b1e230d63d03086be5d73c42c7c007a8d7d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:50 +0000
Subject: [PATCH 09/50] fix: AZPReactiveTabu handles solutions without any
 possible move

It raised AttributeError, for example if every area is a region.
---
 region/p_regions/azp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/region/p_regions/azp.py b/region/p_regions/azp.py
index 6e0bfa6..051597a 100755
--- a/region/p_regions/azp.py
+++ b/region/p_regions/azp.py
@@ -973,7 +973,7 @@ class AZPReactiveTabu(AZPTabu):
                     best_move_index, best_move = i, move
                     best_objval_diff = obj_val_diff
             # step 5: Make the move if possible. Update the tabu status.
-            if self.allow_move_strategy(best_move.area, best_move.new_region, labels):
+            if best_move is not None and self.allow_move_strategy(best_move.area, best_move.new_region, labels):
                 self._make_move(best_move.area, best_move.new_region, labels, adj)
             # step 6: Look up the current zoning system in a list of all zoning
             # systems visited so far during the search. If not found then go
-- 
2.43.0


From 8911dc46340091d383b7f5c8b9310b20b11e9050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:50 +0000
Subject: [PATCH 10/50] fix: AZPSimulatedAnnealing does not carry its search
 state into the next fit

Solutions visited in earlier fits counted as repetitions and ended later
fits early.
---
 region/p_regions/azp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/region/p_regions/azp.py b/region/p_regions/azp.py
index 051597a..fb395f5 100755
--- a/region/p_regions/azp.py
+++ b/region/p_regions/azp.py
@@ -628,6 +628,8 @@ class AZPSimulatedAnnealing:
         self.azp = AZP(
             allow_move_strategy=self.allow_move_strategy,
             random_state=self.random_state)
+        self.visited = []
+        self.move_made = False
         # step a
         t = self.init_temperature
         nonmoving_steps = 0
-- 
2.43.0


From e2323701e389608218336c7ef46cb12c5f274e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:50 +0000
Subject: [PATCH 11/50] fix: the max-p local search sees the current objective
 value

The threshold strategy kept the value of the initial solution, so the AZP
saw no improvement and stopped after its first pass.
---
 region/p_regions/azp_util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/region/p_regions/azp_util.py b/region/p_regions/azp_util.py
index 683da60..57efde2 100755
--- a/region/p_regions/azp_util.py
+++ b/region/p_regions/azp_util.py
@@ -177,8 +177,8 @@ class AllowMoveAZPMaxPRegions(AllowMoveStrategy):
                             comp_idx):
         self.spatially_extensive_attr = self.spatially_extensive_attr_all[
             comp_idx]
-        super().start_new_component(initial_labels, attr, objective_func,
-                                    comp_idx)
+        # attr, objective_func, and objective_val are those of the decorated
+        # strategy (see __getattr__)
         self._decorated_strategy.start_new_component(initial_labels, attr,
                                                      objective_func, comp_idx)
 
-- 
2.43.0


From 23fd4a4be1d7a459b49d871596f5e86cd6573294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:50 +0000
Subject: [PATCH 12/50] fix: check the recipient region when moving an area
 with a negative attribute

The comparison was applied to the result of any(), so the threshold of the
recipient region was never checked.
---
 region/p_regions/azp_util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/region/p_regions/azp_util.py b/region/p_regions/azp_util.py
index 57efde2..1fa1b63 100755
--- a/region/p_regions/azp_util.py
+++ b/region/p_regions/azp_util.py
@@ -185,7 +185,7 @@ class AllowMoveAZPMaxPRegions(AllowMoveStrategy):
     def __call__(self, moving_area, new_region, labels):
         sp_ext = self.spatially_extensive_attr
 
-        if (sp_ext[moving_area]).any() > 0:
+        if (sp_ext[moving_area] > 0).any():
             donor_region = labels[moving_area]
             donor_idx = np.where(labels == donor_region)[0]
             donor_sum = sum(sp_ext[donor_idx]) - sp_ext[moving_area]
@@ -193,7 +193,7 @@ class AllowMoveAZPMaxPRegions(AllowMoveStrategy):
             if not threshold_reached_donor:
                 return False
 
-        elif (sp_ext[moving_area]).any() < 0:
+        if (sp_ext[moving_area] < 0).any():
             recipient_idx = np.where(labels == new_region)[0]
             recipient_sum = sum(sp_ext[recipient_idx]) + sp_ext[moving_area]
             threshold_reached_recipient = (recipient_sum >=
-- 
2.43.0


From 915e4437b70687e5ef06f1bcf13930b3a54575ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:50 +0000
Subject: [PATCH 13/50] fix: MaxPRegionsHeu leaves no threshold condition in
 its local search

Every fit wrapped the local search once more, so a second fit also applied
the attributes and threshold of the first one, or raised IndexError.
---
 region/max_p_regions/heuristics.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/region/max_p_regions/heuristics.py b/region/max_p_regions/heuristics.py
index d491871..17b6f8b 100755
--- a/region/max_p_regions/heuristics.py
+++ b/region/max_p_regions/heuristics.py
@@ -100,27 +100,30 @@ class MaxPRegionsHeu:
             feasible_partitions.append(
                 self.assign_enclaves(partition, enclaves, areas_dict, attr))
 
-        for partition in feasible_partitions:
-
-            # local search phase
-            if self.local_search is None:
-                self.local_search = AZP()
-            self.local_search.allow_move_strategy = AllowMoveAZPMaxPRegions(
-                spatially_extensive_attr, threshold,
-                self.local_search.allow_move_strategy)
+        # local search phase
+        local_search = self.local_search
+        if local_search is None:
+            local_search = AZP()
+        allow_move_strategy = local_search.allow_move_strategy
+        local_search.allow_move_strategy = AllowMoveAZPMaxPRegions(
+            spatially_extensive_attr, threshold, allow_move_strategy)
+        try:
             for partition in feasible_partitions:
-                self.local_search.fit_from_scipy_sparse_matrix(
+                local_search.fit_from_scipy_sparse_matrix(
                     adj,
                     attr,
                     max_p,
                     initial_labels=array_from_region_list(partition),
                     objective_func=objective_func)
-                partition = self.local_search.labels_
+                partition = local_search.labels_
                 obj_value = objective_func(partition, attr)
                 if obj_value < best_obj_value:
                     best_obj_value = obj_value
                     best_partition = partition
-            self.labels_ = best_partition
+        finally:
+            # the threshold condition belongs to this call only
+            local_search.allow_move_strategy = allow_move_strategy
+        self.labels_ = best_partition
 
     fit = copy_func(fit_from_scipy_sparse_matrix)
     fit.__doc__ = "Alias for :meth:`fit_from_scipy_sparse_matrix`.\n\n" \
-- 
2.43.0


From 365976c8acc5bd504770e6f158812bfc333b0bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:50 +0000
Subject: [PATCH 14/50] fix: MaxPRegionsHeu with a random_state is reproducible

Creating the default local search seeded the random numbers anew from the
operating system.
---
 region/max_p_regions/heuristics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/region/max_p_regions/heuristics.py b/region/max_p_regions/heuristics.py
index 17b6f8b..dde8deb 100755
--- a/region/max_p_regions/heuristics.py
+++ b/region/max_p_regions/heuristics.py
@@ -103,7 +103,7 @@ class MaxPRegionsHeu:
         # local search phase
         local_search = self.local_search
         if local_search is None:
-            local_search = AZP()
+            local_search = AZP(random_state=self.random_state)
         allow_move_strategy = local_search.allow_move_strategy
         local_search.allow_move_strategy = AllowMoveAZPMaxPRegions(
             spatially_extensive_attr, threshold, allow_move_strategy)
-- 
2.43.0


From 46413c3d6c051b45142c85cdffe88f0b2b977424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:50 +0000
Subject: [PATCH 15/50] fix: simulated annealing as max-p local search respects
 the threshold

It replaced the strategy set by MaxPRegionsHeu, so regions could fall below
the threshold.
---
 region/p_regions/azp.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/region/p_regions/azp.py b/region/p_regions/azp.py
index fb395f5..ce1993d 100755
--- a/region/p_regions/azp.py
+++ b/region/p_regions/azp.py
@@ -10,6 +10,7 @@ from region.csgraph_utils import sub_adj_matrix, neighbors, is_connected
 from region.objective_function import ObjectiveFunctionPairwise
 from region.p_regions.azp_util import AllowMoveStrategy, \
                                             AllowMoveAZP,\
+                                            AllowMoveAZPMaxPRegions,\
                                             AllowMoveAZPSimulatedAnnealing
 from region.util import array_from_df_col, array_from_dict_values, \
     assert_feasible, boolean_assert_feasible, copy_func, count, generate_initial_sol, \
@@ -619,9 +620,14 @@ class AZPSimulatedAnnealing:
                              "than 0 and less than 1")
         if attr.ndim == 1:
             attr = attr.reshape(adj.shape[0], -1)
-        self.allow_move_strategy = AllowMoveAZPSimulatedAnnealing(
+        sa_strategy = AllowMoveAZPSimulatedAnnealing(
             init_temperature=self.init_temperature,
             sa_moves_term=self.sa_moves_term)
+        if isinstance(self.allow_move_strategy, AllowMoveAZPMaxPRegions):
+            # keep the threshold condition set by MaxPRegionsHeu
+            self.allow_move_strategy._decorated_strategy = sa_strategy
+        else:
+            self.allow_move_strategy = sa_strategy
         self.allow_move_strategy.register_sa_moves_term(self.sa_moves_alert)
         self.allow_move_strategy.register_move_made(self.move_made_alert)
 
-- 
2.43.0


From c1e101afe3fe0f734ed5052c9f1ec9f4bcc0aab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:16 +0000
Subject: [PATCH 16/50] fix: exact p-regions measures distances between areas,
 not attributes

The attribute vectors were passed as columns, so with several attributes the
objective summed the differences between every pair of attributes.
---
 region/p_regions/exact.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/region/p_regions/exact.py b/region/p_regions/exact.py
index 5f62ab0..1fb39e1 100755
--- a/region/p_regions/exact.py
+++ b/region/p_regions/exact.py
@@ -330,8 +330,8 @@ def _flow(adj, attr, n_regions, solver, metric):
     K = range(n_regions)  # index for regions
     d = {
         (i, j): metric(
-            attr[i].reshape(attr.shape[1], 1),  # reshaping to...
-            attr[j].reshape(attr.shape[1], 1))  # ...avoid warnings
+            attr[i].reshape(1, -1),  # reshaping to...
+            attr[j].reshape(1, -1))  # ...avoid warnings
         for i, j in II_upper_triangle
     }
 
@@ -442,8 +442,8 @@ def _order(adj, attr, n_regions, solver, metric):
     O = range(n_areas - n_regions)  # index for orders
     d = {
         (i, j): metric(
-            attr[i].reshape(attr.shape[1], 1),  # reshaping to...
-            attr[j].reshape(attr.shape[1], 1))  # ...avoid warnings
+            attr[i].reshape(1, -1),  # reshaping to...
+            attr[j].reshape(1, -1))  # ...avoid warnings
         for i, j in II_upper_triangle
     }
 
@@ -527,8 +527,8 @@ def _tree(adj, attr, n_regions, solver, metric):
     II_upper_triangle = [(i, j) for i, j in II if i < j]
     d = {
         (i, j): metric(
-            attr[i].reshape(attr.shape[1], 1),  # reshaping to...
-            attr[j].reshape(attr.shape[1], 1))  # ...avoid warnings
+            attr[i].reshape(1, -1),  # reshaping to...
+            attr[j].reshape(1, -1))  # ...avoid warnings
         for i, j in II
     }
     # Decision variables
-- 
2.43.0


From 1ecf0f99465451913c61ae4c610e32fbf00e9c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:16 +0000
Subject: [PATCH 17/50] fix: exact p-regions allows regions of n_areas -
 n_regions + 1 areas

That is the size of a region if all others consist of one area. The models
excluded it (flow), or had no solution at all for as many regions as areas or
one less, and returned meaningless labels.
---
 region/p_regions/exact.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/region/p_regions/exact.py b/region/p_regions/exact.py
index 1fb39e1..a1c57e4 100755
--- a/region/p_regions/exact.py
+++ b/region/p_regions/exact.py
@@ -386,7 +386,7 @@ def _flow(adj, attr, n_regions, solver, metric):
     for i in I:
         for k in K:
             lhs = sum(f[i, j, k] - f[j, i, k] for j in neighbors(adj, i))
-            prob += lhs >= y[i, k] - (n_areas - n_regions) * w[i, k]
+            prob += lhs >= y[i, k] - (n_areas - n_regions + 1) * w[i, k]
     # (27) in Duque et al. (2011): "The p-Regions Problem"
     for i, j in II_upper_triangle:
         for k in K:
@@ -439,7 +439,7 @@ def _order(adj, attr, n_regions, solver, metric):
     II = [(i, j) for i in I for j in I]
     II_upper_triangle = [(i, j) for i, j in II if i < j]
     K = range(n_regions)  # index for regions
-    O = range(n_areas - n_regions)  # index for orders
+    O = range(n_areas - n_regions + 1)  # index for orders
     d = {
         (i, j): metric(
             attr[i].reshape(1, -1),  # reshaping to...
@@ -565,12 +565,12 @@ def _tree(adj, attr, n_regions, solver, metric):
     # (9) in Duque et al. (2011): "The p-Regions Problem"
     for i in I:
         for j in neighbors(adj, i):
-            prob += u[i] - u[j] + (n_areas - n_regions) * x[i, j] \
-                    + (n_areas - n_regions - 2) * x[j, i] \
-                    <= n_areas - n_regions - 1
+            prob += u[i] - u[j] + (n_areas - n_regions + 1) * x[i, j] \
+                    + (n_areas - n_regions - 1) * x[j, i] \
+                    <= n_areas - n_regions
     # (10) in Duque et al. (2011): "The p-Regions Problem"
     for i in I:
-        prob += u[i] <= n_areas - n_regions
+        prob += u[i] <= n_areas - n_regions + 1
         prob += u[i] >= 1
     # (11) in Duque et al. (2011): "The p-Regions Problem"
     # already in LpVariable-definition
-- 
2.43.0


From 77f6406375ebbc779f270c4f8bc8005cb5eabd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:16 +0000
Subject: [PATCH 18/50] fix: the tree model's regions are its trees

Areas of equal attributes may be linked by t across regions at no cost; that
raised KeyError or gave regions which are not contiguous.
---
 region/p_regions/exact.py | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/region/p_regions/exact.py b/region/p_regions/exact.py
index a1c57e4..0331f24 100755
--- a/region/p_regions/exact.py
+++ b/region/p_regions/exact.py
@@ -4,11 +4,12 @@ import numbers
 from geopandas import GeoDataFrame
 import numpy as np
 import networkx as nx
+from scipy.sparse import csgraph as csg, csr_matrix
 from pulp import LpProblem, LpMinimize, LpVariable, LpInteger, lpSum
 
 from region.csgraph_utils import neighbors
 from region.util import array_from_df_col, array_from_dict_values,\
-    array_from_graph_or_dict, array_from_region_list, check_solver, copy_func,\
+    array_from_graph_or_dict, check_solver, copy_func,\
     get_metric_function, get_solver_instance, raise_distance_metric_not_set,\
     scipy_sparse_matrix_from_dict, scipy_sparse_matrix_from_w, w_from_gdf
 
@@ -581,18 +582,12 @@ def _tree(adj, attr, n_regions, solver, metric):
     solver = get_solver_instance(solver)
     prob.solve(solver)
 
-    # build a list of regions like [[0, 1, 2, 5], [3, 4, 6, 7, 8]]
-    idx_copy = set(I)
-    regions = [[] for _ in range(n_regions)]
-    for i in range(n_regions):
-        area = idx_copy.pop()
-        regions[i].append(area)
-
-        for other_area in idx_copy:
-            if t[area, other_area].varValue == 1:
-                regions[i].append(other_area)
-
-        idx_copy.difference_update(regions[i])
-
-    result = array_from_region_list(regions)
-    return result
+    # The regions are the trees. (t may also connect areas of different regions
+    # if that costs nothing, i.e. if their attributes are equal.)
+    links = np.zeros((n_areas, n_areas))
+    for i in I:
+        for j in neighbors(adj, i):
+            if x[i, j].varValue == 1:
+                links[i, j] = 1
+    result = csg.connected_components(csr_matrix(links), directed=False)[1]
+    return result.astype(float)
-- 
2.43.0


From 1444388c6bc5e895c64a24ed0a44bfa76992fb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:41 +0000
Subject: [PATCH 19/50] fix: exact methods raise ValueError if there is no
 feasible solution

For fewer regions than connected components, or a threshold which cannot be
reached, they assigned meaningless region labels to labels_.
---
 region/max_p_regions/exact.py |  4 +++-
 region/p_regions/exact.py     |  7 +++++--
 region/util.py                | 21 +++++++++++++++++++++
 3 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/region/max_p_regions/exact.py b/region/max_p_regions/exact.py
index 978d7bc..3e07dfe 100755
--- a/region/max_p_regions/exact.py
+++ b/region/max_p_regions/exact.py
@@ -9,7 +9,8 @@ from pulp import LpProblem, LpMinimize, LpVariable, LpInteger, lpSum
 
 from region.csgraph_utils import neighbors
 from region.util import array_from_df_col, array_from_dict_values,\
-    array_from_graph_or_dict, check_solver, copy_func, get_metric_function,\
+    array_from_graph_or_dict, check_solution_found, check_solver, copy_func,\
+    get_metric_function,\
     get_solver_instance, raise_distance_metric_not_set,\
     scipy_sparse_matrix_from_dict, scipy_sparse_matrix_from_w, w_from_gdf
 
@@ -155,6 +156,7 @@ class MaxPRegionsExact:
         # Solve the optimization problem
         solver = get_solver_instance(solver)
         prob.solve(solver=solver)
+        check_solution_found(prob)
         result = np.zeros(n_areas)
         for i in I:
             for k in K:
diff --git a/region/p_regions/exact.py b/region/p_regions/exact.py
index 0331f24..7f0de94 100755
--- a/region/p_regions/exact.py
+++ b/region/p_regions/exact.py
@@ -9,8 +9,8 @@ from pulp import LpProblem, LpMinimize, LpVariable, LpInteger, lpSum
 
 from region.csgraph_utils import neighbors
 from region.util import array_from_df_col, array_from_dict_values,\
-    array_from_graph_or_dict, check_solver, copy_func,\
-    get_metric_function, get_solver_instance, raise_distance_metric_not_set,\
+    array_from_graph_or_dict, check_solution_found, check_solver,\
+    copy_func, get_metric_function, get_solver_instance, raise_distance_metric_not_set,\
     scipy_sparse_matrix_from_dict, scipy_sparse_matrix_from_w, w_from_gdf
 
 
@@ -404,6 +404,7 @@ def _flow(adj, attr, n_regions, solver, metric):
     # Solve the optimization problem
     solver = get_solver_instance(solver)
     prob.solve(solver)
+    check_solution_found(prob)
     result = np.zeros(n_areas)
     for i in I:
         for k in K:
@@ -490,6 +491,7 @@ def _order(adj, attr, n_regions, solver, metric):
     # Solve the optimization problem
     solver = get_solver_instance(solver)
     prob.solve(solver)
+    check_solution_found(prob)
     result = np.zeros(n_areas)
     for i in I:
         for k in K:
@@ -581,6 +583,7 @@ def _tree(adj, attr, n_regions, solver, metric):
     # Solve the optimization problem
     solver = get_solver_instance(solver)
     prob.solve(solver)
+    check_solution_found(prob)
 
     # The regions are the trees. (t may also connect areas of different regions
     # if that costs nothing, i.e. if their attributes are equal.)
diff --git a/region/util.py b/region/util.py
index 56517e1..e3e27d5 100755
--- a/region/util.py
+++ b/region/util.py
@@ -899,6 +899,27 @@ def check_solver(solver):
         )
 
 
+def check_solution_found(prob):
+    """
+    Parameters
+    ----------
+    prob : :class:`pulp.LpProblem`
+        A problem the solver was run on.
+
+    Raises
+    ------
+    exc : `ValueError`
+        If the solver did not find an optimal solution, so the values of the
+        problem's variables are meaningless.
+    """
+    if prob.status != pulp.LpStatusOptimal:
+        raise ValueError(
+            "The solver found no solution (status: {}).".format(
+                pulp.LpStatus[prob.status]
+            )
+        )
+
+
 def get_solver_instance(solver_string):
     solver = {
         "cbc": pulp.solvers.PULP_CBC_CMD,
-- 
2.43.0


From 512df4231aed405c40a358c2c47ad9df2a359329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:41 +0000
Subject: [PATCH 20/50] fix: exact max-p handles areas with equal attributes

The logarithm of the sum of all distances raised ValueError for a sum of 0,
which a map of a single area has, too.
---
 region/max_p_regions/exact.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/region/max_p_regions/exact.py b/region/max_p_regions/exact.py
index 3e07dfe..4ce11dc 100755
--- a/region/max_p_regions/exact.py
+++ b/region/max_p_regions/exact.py
@@ -90,7 +90,8 @@ class MaxPRegionsExact:
         d = {(i, j): self.metric(attr[i].reshape(1, -1), attr[j].reshape(
             1, -1))
              for i, j in II_upper_triangle}
-        h = 1 + floor(log10(sum(d[(i, j)] for i, j in II_upper_triangle)))
+        d_sum = sum(d[(i, j)] for i, j in II_upper_triangle)
+        h = 1 + floor(log10(d_sum)) if d_sum > 0 else 0
 
         # Decision variables
         t = LpVariable.dicts(
-- 
2.43.0


From 08adca529c7f4e251a3c1f752b459753c6c86ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:41 +0000
Subject: [PATCH 21/50] fix: SKATER can be fit with an affinity

The score passes two keyword arguments to the metric, the inverted affinity
took only one.
---
 region/skater/skater.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/region/skater/skater.py b/region/skater/skater.py
index 240edf9..cf79054 100755
--- a/region/skater/skater.py
+++ b/region/skater/skater.py
@@ -32,7 +32,7 @@ class Spanning_Forest(object):
         if affinity is not None:
             # invert the 0,1 affinity to 
             # to an unbounded positive dissimilarity
-            metric = lambda x: -np.log(affinity(x))
+            metric = lambda X, Y=None: -np.log(affinity(X, Y))
         else:
             metric = dissimilarity
         self.metric = metric
-- 
2.43.0


From d810ff19d487370a932827f2acbcd6bf4befb6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:41 +0000
Subject: [PATCH 22/50] fix: SKATER keeps links between neighbors with equal
 data

Their dissimilarity of zero was treated as a missing link, so maps with
repeated values fell apart into islands.
---
 region/skater/skater.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/region/skater/skater.py b/region/skater/skater.py
index cf79054..08791a0 100755
--- a/region/skater/skater.py
+++ b/region/skater/skater.py
@@ -79,7 +79,9 @@ class Spanning_Forest(object):
         super_verbose = verbose > 1
         start_W = time.time()
         dissim = W.multiply(attribute_kernel)
-        dissim.eliminate_zeros()
+        # neighbors with equal data stay neighbors: a weight of zero would be
+        # taken for a missing link
+        dissim.data[dissim.data == 0] = np.finfo(float).tiny
         end_W = time.time() - start_W
         
         if super_verbose:
-- 
2.43.0


From 72536372463d3a29b4ec3eba525be7cf047e409d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:41 +0000
Subject: [PATCH 23/50] fix: SKATER leaves the transform of the W object it is
 passed as it was

---
 region/skater/skater.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/region/skater/skater.py b/region/skater/skater.py
index 08791a0..53214c9 100755
--- a/region/skater/skater.py
+++ b/region/skater/skater.py
@@ -72,8 +72,11 @@ class Spanning_Forest(object):
             data = np.ones((W.n,1))
         else:
             attribute_kernel = self.metric(data)
+        transform = W.transform
         W.transform = 'b'
-        W = W.sparse
+        sparse = W.sparse
+        W.transform = transform
+        W = sparse
         start = time.time()
 
         super_verbose = verbose > 1
-- 
2.43.0


From 2b268e98353b0eddf80d1811bcacc3e084b70278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:41 +0000
Subject: [PATCH 24/50] fix: SKATER scores labels other than 0, ..., n - 1

Regions with other labels were left out of the score, or an empty region
raised ValueError.
---
 region/skater/skater.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/region/skater/skater.py b/region/skater/skater.py
index 53214c9..1ab20ab 100755
--- a/region/skater/skater.py
+++ b/region/skater/skater.py
@@ -173,15 +173,14 @@ class Spanning_Forest(object):
                 raise ValueError('Labels not provided and MSF_Prune object has not been fit to data yet.')
         assert data.shape[0] == len(labels), "Length of label array ({}) does not match "\
                                              "length of data ({})! ".format(labels.shape[0], data.shape[0])
-        _, subtree_quorums = np.unique(labels, return_counts=True)
-        n_subtrees = len(subtree_quorums)
+        unique_labels, subtree_quorums = np.unique(labels, return_counts=True)
         if (subtree_quorums < quorum).any():
             return np.inf
         part_scores = [self.reduction(self.metric(X=data[labels==l],
                                                   Y=self.center(data[labels==l], 
                                                                 axis=0).reshape(1,-1)
                                                  )
-                                     ) for l in range(n_subtrees)]
+                                     ) for l in unique_labels]
         return self.reduction(part_scores).item()
     
     def find_cut(self, MSF, data=None, quorum=-np.inf, 
-- 
2.43.0


From 19c69a2cd021973cae42ff1feb662463e5752abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:43 +0000
Subject: [PATCH 25/50] fix: the pairwise objective's update leaves out the
 distance of an area to itself

---
 region/objective_function.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/region/objective_function.py b/region/objective_function.py
index 080027b..3659214 100755
--- a/region/objective_function.py
+++ b/region/objective_function.py
@@ -82,9 +82,15 @@ class ObjectiveFunctionPairwise(ObjectiveFunction):
     def update(self, moving_area, recipient_region, labels, attr):
         donor_region = labels[moving_area]
 
-        attr_donor = attr[labels == donor_region]
-        donor_diff = sum(
-            self.metric(attr_donor, attr[moving_area].reshape(1, -1)))
+        # The moving area itself is left out: the distance of an area to itself
+        # is no part of the objective and need not be computed as exactly zero.
+        rest_of_donor = labels == donor_region
+        rest_of_donor[moving_area] = False
+        donor_diff = 0
+        if rest_of_donor.any():
+            donor_diff = sum(
+                self.metric(attr[rest_of_donor],
+                            attr[moving_area].reshape(1, -1)))
 
         attr_recipient = attr[labels == recipient_region]
         recipient_diff = sum(
-- 
2.43.0


From 29e579ce833068b3f61ff10451866e0db9ab4226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:40 +0000
Subject: [PATCH 26/50] fix: exact max-p maximizes the number of regions also
 if attributes hardly differ

---
 region/max_p_regions/exact.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/region/max_p_regions/exact.py b/region/max_p_regions/exact.py
index 4ce11dc..43a6181 100755
--- a/region/max_p_regions/exact.py
+++ b/region/max_p_regions/exact.py
@@ -91,7 +91,9 @@ class MaxPRegionsExact:
             1, -1))
              for i, j in II_upper_triangle}
         d_sum = sum(d[(i, j)] for i, j in II_upper_triangle)
-        h = 1 + floor(log10(d_sum)) if d_sum > 0 else 0
+        # 10**h > d_sum; at least 1, otherwise the number of regions would be
+        # lost in the solver's tolerances if the attributes hardly differ
+        h = max(0, 1 + floor(log10(d_sum))) if d_sum > 0 else 0
 
         # Decision variables
         t = LpVariable.dicts(
-- 
2.43.0


From 64267fe726430d7cca31819c62577b8a0f5782c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:33 +0000
Subject: [PATCH 27/50] fix: sparse matrix from a neighbors dict does not
 depend on the order of sets

---
 region/util.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/region/util.py b/region/util.py
index e3e27d5..88d75fc 100755
--- a/region/util.py
+++ b/region/util.py
@@ -119,7 +119,10 @@ def scipy_sparse_matrix_from_dict(neighbors):
     for i in neighbors:
         for j in neighbors[i]:
             adj[name_to_int[i], name_to_int[j]] = 1
-    return adj.tocsr()
+    adj = adj.tocsr()
+    # independent of the (for strings: random) order of neighbors in a set
+    adj.sort_indices()
+    return adj
 
 
 def scipy_sparse_matrix_from_w(w):
-- 
2.43.0


From d6e621dcb78fe0ac4c98aa29fb99449efe2879d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:22 +0000
Subject: [PATCH 28/50] fix: stored zeros of an adjacency matrix are no links

---
 region/csgraph_utils.py            | 38 ++++++++++++++++++++++++++++--
 region/max_p_regions/heuristics.py |  3 ++-
 region/util.py                     |  4 +++-
 3 files changed, 41 insertions(+), 4 deletions(-)

diff --git a/region/csgraph_utils.py b/region/csgraph_utils.py
index 364b079..064156a 100755
--- a/region/csgraph_utils.py
+++ b/region/csgraph_utils.py
@@ -5,10 +5,43 @@ Utility functions for graph-related operations with sparse adjacency matrices
 https://docs.scipy.org/doc/scipy/reference/sparse.csgraph.html).
 """
 from scipy.sparse import csgraph as csg
-from scipy.sparse import csr_matrix
+from scipy.sparse import csr_matrix, issparse
 import numpy as np
 
 
+def eliminate_zeros(adj):
+    """
+    Scipy's graph routines take stored zeros (they are left behind e.g. by
+    `adj[i, j] = 0`) for links.
+
+    Parameters
+    ----------
+    adj : :class:`scipy.sparse.csr_matrix`
+        Adjacency matrix.
+
+    Returns
+    -------
+    adj : :class:`scipy.sparse.csr_matrix`
+        The matrix passed as argument if it does not store any zero.
+        Otherwise a copy of it without stored zeros.
+
+    Examples
+    --------
+    >>> from scipy.sparse import csr_matrix
+    >>> adj = csr_matrix(np.array([[0, 1],
+    ...                            [1, 0]]))
+    >>> adj[0, 1] = adj[1, 0] = 0
+    >>> adj.nnz
+    2
+    >>> eliminate_zeros(adj).nnz
+    0
+    """
+    if issparse(adj) and adj.count_nonzero() < adj.nnz:
+        adj = csr_matrix(adj, copy=True)
+        adj.eliminate_zeros()
+    return adj
+
+
 def is_connected(adj):
     """
     Parameters
@@ -35,7 +68,8 @@ def is_connected(adj):
     >>> is_connected(disconnected)
     False
     """
-    n_connected_components = csg.connected_components(adj, directed=False,
+    n_connected_components = csg.connected_components(eliminate_zeros(adj),
+                                                      directed=False,
                                                       return_labels=False)
     return True if n_connected_components == 1 else False
 
diff --git a/region/max_p_regions/heuristics.py b/region/max_p_regions/heuristics.py
index dde8deb..6854e88 100755
--- a/region/max_p_regions/heuristics.py
+++ b/region/max_p_regions/heuristics.py
@@ -3,6 +3,7 @@ import random
 import networkx as nx
 from libpysal import weights
 
+from region.csgraph_utils import eliminate_zeros
 from region.objective_function import ObjectiveFunctionPairwise
 from region.p_regions.azp import AZP
 from region.p_regions.azp_util import AllowMoveAZPMaxPRegions
@@ -74,7 +75,7 @@ class MaxPRegionsHeu:
             The objective function to use.
         """
 
-        w = weights.WSP(adj).to_W()
+        w = weights.WSP(eliminate_zeros(adj)).to_W()
         areas_dict = w.neighbors
         self.metric = objective_func.metric
 
diff --git a/region/util.py b/region/util.py
index 88d75fc..537a014 100755
--- a/region/util.py
+++ b/region/util.py
@@ -12,7 +12,7 @@ import networkx as nx
 from libpysal import weights
 import pulp
 
-from region.csgraph_utils import sub_adj_matrix, is_connected
+from region.csgraph_utils import eliminate_zeros, sub_adj_matrix, is_connected
 
 Move = collections.namedtuple("move", "area old_region new_region")
 "A named tuple representing a move from `old_region` to `new_region`."  # sphinx
@@ -616,6 +616,7 @@ def generate_initial_sol(adj, n_regions):
             "({}).".format(n_regions, n_areas)
         )
 
+    adj = eliminate_zeros(adj)
     n_comps, comp_labels = csg.connected_components(adj)
     if n_comps > n_regions:
         raise ValueError(
@@ -841,6 +842,7 @@ def separate_components(adj, labels):
     >>> (yielded[1] == np.array([-1, -1, -1, -1, -1, -1, 3, 3, 3, 3])).all()
     True
     """
+    adj = eliminate_zeros(adj)
     n_comps, comp_labels = csg.connected_components(adj)
     for comp in set(comp_labels):
         region_labels = -np.ones(len(comp_labels), dtype=np.int32)
-- 
2.43.0


From 78d00b0f8ccbc42f51887243841d6d930d6283c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:37 +0000
Subject: [PATCH 29/50] fix: growing max-p regions copes with areas linked to
 themselves

---
 region/max_p_regions/heuristics.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/region/max_p_regions/heuristics.py b/region/max_p_regions/heuristics.py
index 6854e88..8190fa1 100755
--- a/region/max_p_regions/heuristics.py
+++ b/region/max_p_regions/heuristics.py
@@ -393,12 +393,11 @@ class MaxPRegionsHeu:
                         neigh = self.find_best_area(region, unassigned_neighs,
                                                     attr)
                         region.add(neigh)
-                        unassigned_neighs.remove(neigh)
+                        unassigned_areas.remove(neigh)
+                        assigned_areas.append(neigh)
                         unassigned_neighs.update(set(adj[neigh].nonzero()[1]))
                         unassigned_neighs.difference_update(assigned_areas)
                         spat_ext_attr += spatially_extensive_attr[neigh]
-                        unassigned_areas.remove(neigh)
-                        assigned_areas.append(neigh)
                     else:
                         enclave_areas.extend(region)
                         feasible = False
-- 
2.43.0


From 74f26bdf377839575cd9d4bee224c52b6d2bdc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:29 +0000
Subject: [PATCH 30/50] fix: AZPReactiveTabu accepts k1=0

---
 region/p_regions/azp.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/region/p_regions/azp.py b/region/p_regions/azp.py
index ce1993d..2371bf7 100755
--- a/region/p_regions/azp.py
+++ b/region/p_regions/azp.py
@@ -1016,8 +1016,9 @@ class AZPReactiveTabu(AZPTabu):
                         last_step = (11, tuple(labels))
                         self.visited = []
                         p = math.floor(1 + self.avg_it_until_rep / 2)
-                        possible_moves.pop(best_move_index)
-                        for _ in range(p):
+                        if best_move_index is not None:
+                            possible_moves.pop(best_move_index)
+                        for _ in range(min(p, len(possible_moves))):
                             move = possible_moves.pop(random.randrange(len(possible_moves)))
                             if self.allow_move_strategy(move.area, move.new_region, labels):
                                 self._make_move(move.area, move.new_region, labels, adj)
@@ -1030,7 +1031,8 @@ class AZPReactiveTabu(AZPTabu):
                     self.avg_it_until_rep = 1 / self.rep_counter * \
                         ((self.rep_counter-1)*avg_it + it_until_repetition)
 
-                    self.tabu = deque(self.tabu, 1.1 * self.tabu.maxlen)
+                    new_tabu_len = math.ceil(1.1 * self.tabu.maxlen)
+                    self.tabu = deque(self.tabu, new_tabu_len)
                     # step 9: If the number of iterations since R was last
                     # changed exceeds self.avg_it_until_rep, then decrease R to
                     # max(0.9*R, 1).
-- 
2.43.0


From 1db62fe71c6d1f7bddc98c7734e88bbea87d9a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:24 +0000
Subject: [PATCH 31/50] fix: after an aspiration move AZPBasicTabu makes no
 non-improving move

---
 region/p_regions/azp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/region/p_regions/azp.py b/region/p_regions/azp.py
index 2371bf7..3940e9d 100755
--- a/region/p_regions/azp.py
+++ b/region/p_regions/azp.py
@@ -851,18 +851,19 @@ class AZPBasicTabu(AZPTabu):
                     and self.objective_func.update(move.area, move.new_region,
                                                    labels, attr) < 0
                 ]
+                aspiration_move_made = False
                 if improving_tabus:
                     aspiration_move = random_element_from(improving_tabus)
                     
                     if self.allow_move_strategy(aspiration_move.area, aspiration_move.new_region, labels):
                     
-                        self._make_move(aspiration_move.area, aspiration_move.new_region, labels, adj)
+                        aspiration_move_made = self._make_move(aspiration_move.area, aspiration_move.new_region, labels, adj)
                         
                 # step 4: If there is no improving move and no aspirational
                 # move, then make the best move even if it is nonimproving
                 # (that is, results in a worse value of the objective
                 # function).
-                if best_move is not None and self.allow_move_strategy(best_move.area, best_move.new_region, labels):
+                if not aspiration_move_made and best_move is not None and self.allow_move_strategy(best_move.area, best_move.new_region, labels):
                     self._make_move(best_move.area, best_move.new_region, labels, adj)
         return labels
 
-- 
2.43.0


From f0cacd0e63b98d7f0c2818876412c0a1b2f23f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:10 +0000
Subject: [PATCH 32/50] fix: AZPReactiveTabu returns the last improvement

---
 region/p_regions/azp.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/region/p_regions/azp.py b/region/p_regions/azp.py
index 3940e9d..6bd5cc7 100755
--- a/region/p_regions/azp.py
+++ b/region/p_regions/azp.py
@@ -1048,9 +1048,9 @@ class AZPReactiveTabu(AZPTabu):
             last_step = 10
 
         if last_step == 10:
-            try:
-                return np.array(self.visited[-2])
-            except IndexError:
-                return np.array(self.visited[-1])
+            # the last solution unless the last move was a worsening one
+            return np.array(min(
+                reversed(self.visited[-2:]),
+                key=lambda labels: self.objective_func(np.array(labels), attr)))
         # if step 11 was the last one, the result is in last_step[1]
         return np.array(last_step[1])
-- 
2.43.0


From 709ad16c89b81549e887a31f8b1508a702915fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:08 +0000
Subject: [PATCH 33/50] fix: objective functions accept metrics that return
 scalars

---
 region/objective_function.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/region/objective_function.py b/region/objective_function.py
index 3659214..bf56e2b 100755
--- a/region/objective_function.py
+++ b/region/objective_function.py
@@ -2,6 +2,7 @@ from abc import ABC, abstractmethod
 
 import itertools
 import numpy as np
+from sklearn.metrics.pairwise import distance_metrics
 
 from region.util import get_metric_function
 
@@ -17,6 +18,19 @@ class ObjectiveFunction(ABC):
         """
         self.metric = get_metric_function(metric)
 
+    def _distances(self, attr, point):
+        """
+        Distances of several areas to one point as array of shape (number of
+        areas, 1). Only scikit-learn's metrics are known to handle many areas
+        at once, other functions return one scalar for two areas.
+        """
+        point = point.reshape(1, -1)
+        if self.metric in distance_metrics().values():
+            return self.metric(attr, point)
+        return np.array([
+            self.metric(area.reshape(1, -1), point) for area in attr
+        ]).reshape(-1, 1)
+
     @abstractmethod
     def __call__(self, labels, attr):
         """
@@ -89,12 +103,11 @@ class ObjectiveFunctionPairwise(ObjectiveFunction):
         donor_diff = 0
         if rest_of_donor.any():
             donor_diff = sum(
-                self.metric(attr[rest_of_donor],
-                            attr[moving_area].reshape(1, -1)))
+                self._distances(attr[rest_of_donor], attr[moving_area]))
 
         attr_recipient = attr[labels == recipient_region]
         recipient_diff = sum(
-            self.metric(attr_recipient, attr[moving_area].reshape(1, -1)))
+            self._distances(attr_recipient, attr[moving_area]))
         return recipient_diff - donor_diff
 
 
@@ -144,9 +157,9 @@ class ObjectiveFunctionCenter(ObjectiveFunction):
 
     def _intraregional_heterogeneity(self, labels, region, attr):
         return self.reduction(
-            self.metric(
+            self._distances(
                 attr[labels == region],
-                self.center(attr[labels == region], axis=0).reshape(1, -1)),
+                self.center(attr[labels == region], axis=0)),
             axis=0)
 
     def update(self, moving_area, recipient_region, labels, attr):
-- 
2.43.0


From ca849718155ae4f16627004e5fdfd02b473e1112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:00 +0000
Subject: [PATCH 34/50] fix: MaxPRegionsHeu takes one-dimensional attributes
 with any objective

---
 region/max_p_regions/heuristics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/region/max_p_regions/heuristics.py b/region/max_p_regions/heuristics.py
index 8190fa1..447ebc7 100755
--- a/region/max_p_regions/heuristics.py
+++ b/region/max_p_regions/heuristics.py
@@ -75,6 +75,8 @@ class MaxPRegionsHeu:
             The objective function to use.
         """
 
+        if attr.ndim == 1:
+            attr = attr.reshape(adj.shape[0], -1)
         w = weights.WSP(eliminate_zeros(adj)).to_W()
         areas_dict = w.neighbors
         self.metric = objective_func.metric
-- 
2.43.0


From 162acd1143c5ee7d5ef8f0a748b17a9964a60374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:53 +0000
Subject: [PATCH 35/50] fix: max-p heuristic sums narrow integers without
 overflow

---
 region/max_p_regions/heuristics.py | 3 ++-
 region/p_regions/azp_util.py       | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/region/max_p_regions/heuristics.py b/region/max_p_regions/heuristics.py
index 447ebc7..b91c14c 100755
--- a/region/max_p_regions/heuristics.py
+++ b/region/max_p_regions/heuristics.py
@@ -389,7 +389,8 @@ class MaxPRegionsHeu:
                 unassigned_neighs = set(
                     adj[area].nonzero()[1]).difference(assigned_areas)
                 feasible = True
-                spat_ext_attr = spatially_extensive_attr[area].copy()
+                # sums must not overflow (e.g. those of int8 attributes)
+                spat_ext_attr = spatially_extensive_attr[area].astype(float)
                 while (spat_ext_attr < threshold).any():
                     if unassigned_neighs:
                         neigh = self.find_best_area(region, unassigned_neighs,
diff --git a/region/p_regions/azp_util.py b/region/p_regions/azp_util.py
index 1fa1b63..4e24e5d 100755
--- a/region/p_regions/azp_util.py
+++ b/region/p_regions/azp_util.py
@@ -169,7 +169,9 @@ class AllowMoveAZPMaxPRegions(AllowMoveStrategy):
             search.
         """
         self._decorated_strategy = decorated_strategy
-        self.spatially_extensive_attr_all = spatially_extensive_attr
+        # sums must not overflow (e.g. those of int8 attributes)
+        self.spatially_extensive_attr_all = spatially_extensive_attr.astype(
+            float)
         self.spatially_extensive_attr = None
         self.threshold = threshold
 
-- 
2.43.0


From 6379e2eb600ca272b8d8449e48d959712e65c22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:36 +0000
Subject: [PATCH 36/50] fix: exact max-p heeds boolean spatially extensive
 attributes

---
 region/max_p_regions/exact.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/region/max_p_regions/exact.py b/region/max_p_regions/exact.py
index 43a6181..8ad7514 100755
--- a/region/max_p_regions/exact.py
+++ b/region/max_p_regions/exact.py
@@ -126,6 +126,8 @@ class MaxPRegionsExact:
                     prob += x[i, k, o] <= lpSum(x[j, k, o - 1]
                                                 for j in neighbors(adj, i))
         # (5) in Duque et al. (2012): "The Max-p-Regions Problem"
+        # (numpy's bool is no number)
+        spatially_extensive_attr = spatially_extensive_attr.astype(float)
         if isinstance(spatially_extensive_attr[I[0]], numbers.Real):
             for k in K:
                 lhs = lpSum(x[i, k, o] * spatially_extensive_attr[i] for i in I
-- 
2.43.0


From 27ee7cc79543335b245c89f952f0d78e81d29488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:43 +0000
Subject: [PATCH 37/50] fix: SKATER does not touch the W object, which other
 threads may use

---
 region/skater/skater.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/region/skater/skater.py b/region/skater/skater.py
index 1ab20ab..adec87c 100755
--- a/region/skater/skater.py
+++ b/region/skater/skater.py
@@ -72,11 +72,9 @@ class Spanning_Forest(object):
             data = np.ones((W.n,1))
         else:
             attribute_kernel = self.metric(data)
-        transform = W.transform
-        W.transform = 'b'
-        sparse = W.sparse
-        W.transform = transform
-        W = sparse
+        # binary weights; others may be using the W object at the same time
+        W = W.sparse.copy()
+        W.data = np.ones(len(W.data))
         start = time.time()
 
         super_verbose = verbose > 1
-- 
2.43.0


From 4ab88ceb51a820072bff4761cfe2f674d775b49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:17 +0000
Subject: [PATCH 38/50] fix: initial labels may be negative, fractional or
 large

---
 region/p_regions/azp.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/region/p_regions/azp.py b/region/p_regions/azp.py
index 6bd5cc7..7671ddd 100755
--- a/region/p_regions/azp.py
+++ b/region/p_regions/azp.py
@@ -91,8 +91,18 @@ class AZP:
         # step 1
         if initial_labels is not None:
             assert_feasible(initial_labels, adj, n_regions)
+            label_names, positions = np.unique(initial_labels,
+                                               return_inverse=True)
+            if (label_names < 0).any() or \
+                    (label_names.astype(np.int32) != label_names).any():
+                # below, -1 marks other components' areas and the rest of the
+                # labels are 32 bit integers
+                initial_labels = positions
+            else:
+                label_names = None
             initial_labels_gen = separate_components(adj, initial_labels)
         else:
+            label_names = None
             initial_labels_gen = generate_initial_sol(adj, n_regions)
         labels = -np.ones(adj.shape[0])
         for labels_comp in initial_labels_gen:
@@ -107,6 +117,8 @@ class AZP:
                 adj_comp, labels_comp, attr_comp)
             labels[comp_idx] = labels_comp
 
+        if label_names is not None:
+            labels = label_names[labels.astype(int)].astype(float)
         self.n_regions = n_regions
         self.labels_ = labels
 
-- 
2.43.0


From 3f0de33357f6153c788b43107a86c182b370a797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:15 +0000
Subject: [PATCH 39/50] fix: initial labels in dicts may be fractional or large

---
 region/p_regions/azp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/region/p_regions/azp.py b/region/p_regions/azp.py
index 7671ddd..48611c8 100755
--- a/region/p_regions/azp.py
+++ b/region/p_regions/azp.py
@@ -287,7 +287,7 @@ class AZP:
 
         if initial_labels is not None:
             initial_labels = array_from_dict_values(
-                initial_labels, sorted_areas, flat_output=True, dtype=np.int32)
+                initial_labels, sorted_areas, flat_output=True)
         self.fit_from_scipy_sparse_matrix(
             adj,
             attr_arr,
@@ -546,7 +546,7 @@ class AZPSimulatedAnnealing:
 
         if initial_labels is not None:
             initial_labels = array_from_dict_values(
-                initial_labels, sorted_areas, flat_output=True, dtype=np.int32)
+                initial_labels, sorted_areas, flat_output=True)
         self.fit_from_scipy_sparse_matrix(
             adj,
             attr_arr,
-- 
2.43.0


From 4d172c1fc5e215f75190c3995960d45cdc499076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:13 +0000
Subject: [PATCH 40/50] fix: strategies of max-p local searches can be copied
 and pickled

---
 region/p_regions/azp_util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/region/p_regions/azp_util.py b/region/p_regions/azp_util.py
index 4e24e5d..d2658d1 100755
--- a/region/p_regions/azp_util.py
+++ b/region/p_regions/azp_util.py
@@ -210,4 +210,7 @@ class AllowMoveAZPMaxPRegions(AllowMoveStrategy):
         Forward calls to unimplemented methods to _decorated_strategy
         (necessary e.g. for :class:`AllowMoveAZPSimulatedAnnealing`).
         """
+        if name == "_decorated_strategy":
+            # not set yet, as the object is being copied or unpickled
+            raise AttributeError(name)
         return getattr(self._decorated_strategy, name)
-- 
2.43.0


From 3b5b65d1496ea923b5f799472a53d7429784cb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:33 +0000
Subject: [PATCH 41/50] fix: fitted tabu searches can be pickled

---
 region/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/region/util.py b/region/util.py
index 537a014..d504361 100755
--- a/region/util.py
+++ b/region/util.py
@@ -14,7 +14,7 @@ import pulp
 
 from region.csgraph_utils import eliminate_zeros, sub_adj_matrix, is_connected
 
-Move = collections.namedtuple("move", "area old_region new_region")
+Move = collections.namedtuple("Move", "area old_region new_region")
 "A named tuple representing a move from `old_region` to `new_region`."  # sphinx
 
 
-- 
2.43.0


From e36e1a0fa16be42908ed79057c4f331f64efe730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:12 +0000
Subject: [PATCH 42/50] fix: SKATER with an affinity can be pickled

---
 region/skater/skater.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/region/skater/skater.py b/region/skater/skater.py
index adec87c..840e460 100755
--- a/region/skater/skater.py
+++ b/region/skater/skater.py
@@ -2,12 +2,17 @@ from sklearn.metrics import pairwise as skm
 from scipy.sparse import csgraph as cg
 from scipy.optimize import OptimizeWarning
 from collections import namedtuple
+from functools import partial
 from warnings import warn
 import time
 import numpy as np
 import copy
 deletion = namedtuple('deletion', ('in_node', 'out_node', 'score'))
 
+def _inverted(affinity, X, Y=None):
+    return -np.log(affinity(X, Y))
+
+
 class Spanning_Forest(object):
     def __init__(self,
                  dissimilarity=skm.manhattan_distances,
@@ -32,7 +37,7 @@ class Spanning_Forest(object):
         if affinity is not None:
             # invert the 0,1 affinity to 
             # to an unbounded positive dissimilarity
-            metric = lambda X, Y=None: -np.log(affinity(X, Y))
+            metric = partial(_inverted, affinity)
         else:
             metric = dissimilarity
         self.metric = metric
-- 
2.43.0


From a9b9d5f1d7318076971d5fe107fa068ce08157e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:45 +0000
Subject: [PATCH 43/50] fix: an update of the center based objective that is
 broken off restores the labels

---
 region/objective_function.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/region/objective_function.py b/region/objective_function.py
index bf56e2b..12d79bc 100755
--- a/region/objective_function.py
+++ b/region/objective_function.py
@@ -169,7 +169,10 @@ class ObjectiveFunctionCenter(ObjectiveFunction):
         # may vanish, so the whole objective is evaluated.
         overall_before = self(labels, attr)
         labels[moving_area] = recipient_region
-        overall_after = self(labels, attr)
-        labels[moving_area] = donor_region
+        try:
+            overall_after = self(labels, attr)
+        finally:
+            # also if the metric, center or reduction raises
+            labels[moving_area] = donor_region
 
         return overall_after - overall_before
-- 
2.43.0


From 7f4e6a8e337a9b836eb979846b6c0685c2cbd712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:58 +0000
Subject: [PATCH 44/50] fix: a cut sought without data takes a column of ones
 as data

---
 region/skater/skater.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/region/skater/skater.py b/region/skater/skater.py
index 840e460..8c279b8 100755
--- a/region/skater/skater.py
+++ b/region/skater/skater.py
@@ -208,7 +208,7 @@ class Spanning_Forest(object):
         Returns a namedtuple with in_node, out_node, and score. 
         """
         if data is None:
-            data = np.ones(MSF.shape)            
+            data = np.ones((MSF.shape[0], 1))
         
         if (labels is None) != (target_label is None):
             raise ValueError("Both labels and target_label must be supplied! Only {} provided."\
-- 
2.43.0


From 06b9eab9e0f9e75df1cbd261bf89b85742f7c3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:25 +0000
Subject: [PATCH 45/50] fix: exact methods tell regionalizations apart if
 attributes are small numbers

---
 region/max_p_regions/exact.py |  5 ++++-
 region/p_regions/exact.py     | 12 ++++++++----
 region/util.py                | 24 ++++++++++++++++++++++++
 3 files changed, 36 insertions(+), 5 deletions(-)

diff --git a/region/max_p_regions/exact.py b/region/max_p_regions/exact.py
index 8ad7514..84b83e6 100755
--- a/region/max_p_regions/exact.py
+++ b/region/max_p_regions/exact.py
@@ -12,7 +12,8 @@ from region.util import array_from_df_col, array_from_dict_values,\
     array_from_graph_or_dict, check_solution_found, check_solver, copy_func,\
     get_metric_function,\
     get_solver_instance, raise_distance_metric_not_set,\
-    scipy_sparse_matrix_from_dict, scipy_sparse_matrix_from_w, w_from_gdf
+    scipy_sparse_matrix_from_dict, scipy_sparse_matrix_from_w, solver_scale, \
+    w_from_gdf
 
 
 class MaxPRegionsExact:
@@ -90,6 +91,8 @@ class MaxPRegionsExact:
         d = {(i, j): self.metric(attr[i].reshape(1, -1), attr[j].reshape(
             1, -1))
              for i, j in II_upper_triangle}
+        scale = solver_scale(d.values())
+        d = {ij: scale * d_ij for ij, d_ij in d.items()}
         d_sum = sum(d[(i, j)] for i, j in II_upper_triangle)
         # 10**h > d_sum; at least 1, otherwise the number of regions would be
         # lost in the solver's tolerances if the attributes hardly differ
diff --git a/region/p_regions/exact.py b/region/p_regions/exact.py
index 7f0de94..ac0a303 100755
--- a/region/p_regions/exact.py
+++ b/region/p_regions/exact.py
@@ -11,7 +11,8 @@ from region.csgraph_utils import neighbors
 from region.util import array_from_df_col, array_from_dict_values,\
     array_from_graph_or_dict, check_solution_found, check_solver,\
     copy_func, get_metric_function, get_solver_instance, raise_distance_metric_not_set,\
-    scipy_sparse_matrix_from_dict, scipy_sparse_matrix_from_w, w_from_gdf
+    scipy_sparse_matrix_from_dict, scipy_sparse_matrix_from_w, solver_scale, \
+    w_from_gdf
 
 
 class PRegionsExact:
@@ -360,7 +361,8 @@ def _flow(adj, attr, n_regions, solver, metric):
 
     # Objective function
     # (20) in Duque et al. (2011): "The p-Regions Problem"
-    prob += lpSum(d[i, j] * t[i, j] for i, j in II_upper_triangle)
+    scale = solver_scale(d.values())
+    prob += lpSum(scale * d[i, j] * t[i, j] for i, j in II_upper_triangle)
 
     # Constraints
     # (21) in Duque et al. (2011): "The p-Regions Problem"
@@ -463,7 +465,8 @@ def _order(adj, attr, n_regions, solver, metric):
 
     # Objective function
     # (13) in Duque et al. (2011): "The p-Regions Problem"
-    prob += lpSum(d[i, j] * t[i, j] for i, j in II_upper_triangle)
+    scale = solver_scale(d.values())
+    prob += lpSum(scale * d[i, j] * t[i, j] for i, j in II_upper_triangle)
 
     # Constraints
     # (14) in Duque et al. (2011): "The p-Regions Problem"
@@ -543,7 +546,8 @@ def _tree(adj, attr, n_regions, solver, metric):
 
     # Objective function
     # (3) in Duque et al. (2011): "The p-Regions Problem"
-    prob += lpSum(d[i, j] * t[i, j] for i, j in II_upper_triangle)
+    scale = solver_scale(d.values())
+    prob += lpSum(scale * d[i, j] * t[i, j] for i, j in II_upper_triangle)
 
     # Constraints
     # (4) in Duque et al. (2011): "The p-Regions Problem"
diff --git a/region/util.py b/region/util.py
index d504361..0ab9728 100755
--- a/region/util.py
+++ b/region/util.py
@@ -925,6 +925,30 @@ def check_solution_found(prob):
         )
 
 
+def solver_scale(values):
+    """
+    Solvers take numbers for equal (and constraints for fulfilled) within
+    absolute tolerances. Small data have to be enlarged to be told apart.
+
+    Parameters
+    ----------
+    values : iterable
+        The coefficients (numbers or :class:`numpy.ndarray` objects) of an
+        objective function or constraint.
+
+    Returns
+    -------
+    scale : float
+        A power of two. If all `values` are small, multiplying by it makes the
+        largest one (in absolute terms) about 1000. Otherwise 1.
+    """
+    largest = max((np.abs(value).max() for value in values), default=0)
+    if not 0 < largest < 1000:
+        return 1.0
+    _, exponent = np.frexp(float(largest))
+    return 2.0**min(10 - int(exponent), 1000)
+
+
 def get_solver_instance(solver_string):
     solver = {
         "cbc": pulp.solvers.PULP_CBC_CMD,
-- 
2.43.0


From f26576f98c828864efcee46b1a40b042d7249141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:37 +0000
Subject: [PATCH 46/50] fix: exact max-p respects thresholds that are very
 small or large numbers

---
 region/max_p_regions/exact.py | 46 ++++++++++++++++++++++++++---------
 region/p_regions/exact.py     |  6 ++---
 region/util.py                |  9 ++++---
 3 files changed, 42 insertions(+), 19 deletions(-)

diff --git a/region/max_p_regions/exact.py b/region/max_p_regions/exact.py
index 84b83e6..efcc6b7 100755
--- a/region/max_p_regions/exact.py
+++ b/region/max_p_regions/exact.py
@@ -91,7 +91,7 @@ class MaxPRegionsExact:
         d = {(i, j): self.metric(attr[i].reshape(1, -1), attr[j].reshape(
             1, -1))
              for i, j in II_upper_triangle}
-        scale = solver_scale(d.values())
+        scale = max(1, solver_scale(d.values()))
         d = {ij: scale * d_ij for ij, d_ij in d.items()}
         d_sum = sum(d[(i, j)] for i, j in II_upper_triangle)
         # 10**h > d_sum; at least 1, otherwise the number of regions would be
@@ -132,21 +132,19 @@ class MaxPRegionsExact:
         # (numpy's bool is no number)
         spatially_extensive_attr = spatially_extensive_attr.astype(float)
         if isinstance(spatially_extensive_attr[I[0]], numbers.Real):
+            column, rhs = _well_scaled(spatially_extensive_attr, threshold)
             for k in K:
-                lhs = lpSum(x[i, k, o] * spatially_extensive_attr[i] for i in I
-                            for o in O)
-                prob += lhs >= threshold * lpSum(x[i, k, 0] for i in I)
+                lhs = lpSum(x[i, k, o] * column[i] for i in I for o in O)
+                prob += lhs >= rhs * lpSum(x[i, k, 0] for i in I)
         elif isinstance(spatially_extensive_attr[I[0]], collections.Iterable):
             for el in range(len(spatially_extensive_attr[I[0]])):
+                column, rhs = _well_scaled(
+                    spatially_extensive_attr[:, el],
+                    threshold[el] if isinstance(threshold, np.ndarray)
+                    else threshold)
                 for k in K:
-                    lhs = lpSum(x[i, k, o] * spatially_extensive_attr[i][el]
-                                for i in I for o in O)
-                    if isinstance(threshold, numbers.Real):
-                        rhs = threshold * lpSum(x[i, k, 0] for i in I)
-                        prob += lhs >= rhs
-                    elif isinstance(threshold, np.ndarray):
-                        rhs = threshold[el] * lpSum(x[i, k, 0] for i in I)
-                        prob += lhs >= rhs
+                    lhs = lpSum(x[i, k, o] * column[i] for i in I for o in O)
+                    prob += lhs >= rhs * lpSum(x[i, k, 0] for i in I)
         # (6) in Duque et al. (2012): "The Max-p-Regions Problem"
         for i, j in II_upper_triangle:
             for k in K:
@@ -389,3 +387,27 @@ class MaxPRegionsExact:
             threshold=threshold,
             solver=solver,
             metric=metric)
+
+
+def _well_scaled(column, threshold):
+    """
+    Parameters
+    ----------
+    column : :class:`numpy.ndarray`
+        One spatially extensive attribute of all areas.
+    threshold : float
+        Its threshold.
+
+    Returns
+    -------
+    column, threshold : tuple
+        Numbers posing the same condition on regions, of a size which suits the
+        solver (which lets constraints be missed by an absolute tolerance).
+    """
+    if column.min() < 0:
+        scale = max(1, solver_scale([column, threshold]))
+    else:
+        # what an area has beyond the threshold does not matter
+        column = np.minimum(column, max(0, threshold))
+        scale = solver_scale([threshold])
+    return scale * column, scale * threshold
diff --git a/region/p_regions/exact.py b/region/p_regions/exact.py
index ac0a303..1bbe190 100755
--- a/region/p_regions/exact.py
+++ b/region/p_regions/exact.py
@@ -361,7 +361,7 @@ def _flow(adj, attr, n_regions, solver, metric):
 
     # Objective function
     # (20) in Duque et al. (2011): "The p-Regions Problem"
-    scale = solver_scale(d.values())
+    scale = max(1, solver_scale(d.values()))
     prob += lpSum(scale * d[i, j] * t[i, j] for i, j in II_upper_triangle)
 
     # Constraints
@@ -465,7 +465,7 @@ def _order(adj, attr, n_regions, solver, metric):
 
     # Objective function
     # (13) in Duque et al. (2011): "The p-Regions Problem"
-    scale = solver_scale(d.values())
+    scale = max(1, solver_scale(d.values()))
     prob += lpSum(scale * d[i, j] * t[i, j] for i, j in II_upper_triangle)
 
     # Constraints
@@ -546,7 +546,7 @@ def _tree(adj, attr, n_regions, solver, metric):
 
     # Objective function
     # (3) in Duque et al. (2011): "The p-Regions Problem"
-    scale = solver_scale(d.values())
+    scale = max(1, solver_scale(d.values()))
     prob += lpSum(scale * d[i, j] * t[i, j] for i, j in II_upper_triangle)
 
     # Constraints
diff --git a/region/util.py b/region/util.py
index 0ab9728..1df60e1 100755
--- a/region/util.py
+++ b/region/util.py
@@ -928,7 +928,8 @@ def check_solution_found(prob):
 def solver_scale(values):
     """
     Solvers take numbers for equal (and constraints for fulfilled) within
-    absolute tolerances. Small data have to be enlarged to be told apart.
+    absolute tolerances. Small data have to be enlarged to be told apart, and
+    very large ones make solvers unreliable.
 
     Parameters
     ----------
@@ -939,11 +940,11 @@ def solver_scale(values):
     Returns
     -------
     scale : float
-        A power of two. If all `values` are small, multiplying by it makes the
-        largest one (in absolute terms) about 1000. Otherwise 1.
+        A power of two. Multiplying by it makes the largest of the `values` (in
+        absolute terms) about 1000.
     """
     largest = max((np.abs(value).max() for value in values), default=0)
-    if not 0 < largest < 1000:
+    if not 0 < largest < np.inf:
         return 1.0
     _, exponent = np.frexp(float(largest))
     return 2.0**min(10 - int(exponent), 1000)
-- 
2.43.0


From 9944ed60b9e7ea4ff9ff9bdbc403859e639597ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:50 +0000
Subject: [PATCH 47/50] fix: refuse node attributes which not all nodes have

A misspelt attribute was taken for no attribute at all: max-p then ignored the
threshold, and values of nodes lacking another attribute changed columns.
---
 region/util.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/region/util.py b/region/util.py
index 1df60e1..d6854c2 100755
--- a/region/util.py
+++ b/region/util.py
@@ -199,8 +199,12 @@ def dict_from_graph_attr(graph, attr, array_values=False):
         attr = [attr]
     data_dict = {node: [] for node in graph.nodes()}
     for a in attr:
-        for node, value in nx.get_node_attributes(graph, a).items():
-            data_dict[node].append(value)
+        values = nx.get_node_attributes(graph, a)
+        for node in data_dict:
+            if node not in values:
+                raise ValueError(
+                    "The node {} has no attribute {}.".format(node, a))
+            data_dict[node].append(values[node])
     if array_values:
         for node in data_dict:
             data_dict[node] = np.array(data_dict[node])
-- 
2.43.0


From d9cc8c6edd75bd331791c0070ef10fbcbae5c5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:13 +0000
Subject: [PATCH 48/50] fix: refuse missing values in max-p's threshold
 condition

The heuristic took a region with a NaN for one that reaches the threshold, the
exact method let the solver crash (and left its model file behind).
---
 region/max_p_regions/exact.py      |  5 +++--
 region/max_p_regions/heuristics.py |  4 +++-
 region/util.py                     | 20 ++++++++++++++++++++
 3 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/region/max_p_regions/exact.py b/region/max_p_regions/exact.py
index efcc6b7..69ec4f9 100755
--- a/region/max_p_regions/exact.py
+++ b/region/max_p_regions/exact.py
@@ -9,8 +9,8 @@ from pulp import LpProblem, LpMinimize, LpVariable, LpInteger, lpSum
 
 from region.csgraph_utils import neighbors
 from region.util import array_from_df_col, array_from_dict_values,\
-    array_from_graph_or_dict, check_solution_found, check_solver, copy_func,\
-    get_metric_function,\
+    array_from_graph_or_dict, check_no_missing_values, check_solution_found, \
+    check_solver, copy_func, get_metric_function,\
     get_solver_instance, raise_distance_metric_not_set,\
     scipy_sparse_matrix_from_dict, scipy_sparse_matrix_from_w, solver_scale, \
     w_from_gdf
@@ -76,6 +76,7 @@ class MaxPRegionsExact:
         """
         self.metric = get_metric_function(metric)
         check_solver(solver)
+        check_no_missing_values(spatially_extensive_attr, threshold)
 
         prob = LpProblem("Max-p-Regions", LpMinimize)
 
diff --git a/region/max_p_regions/heuristics.py b/region/max_p_regions/heuristics.py
index b91c14c..1a01caf 100755
--- a/region/max_p_regions/heuristics.py
+++ b/region/max_p_regions/heuristics.py
@@ -8,7 +8,8 @@ from region.objective_function import ObjectiveFunctionPairwise
 from region.p_regions.azp import AZP
 from region.p_regions.azp_util import AllowMoveAZPMaxPRegions
 from region.util import array_from_df_col, array_from_dict_values, \
-    array_from_graph_or_dict, array_from_region_list, copy_func, \
+    array_from_graph_or_dict, array_from_region_list, \
+    check_no_missing_values, copy_func, \
     find_sublist_containing, pop_randomly_from, raise_distance_metric_not_set,\
     random_element_from,scipy_sparse_matrix_from_w, \
     scipy_sparse_matrix_from_dict, w_from_gdf
@@ -75,6 +76,7 @@ class MaxPRegionsHeu:
             The objective function to use.
         """
 
+        check_no_missing_values(spatially_extensive_attr, threshold)
         if attr.ndim == 1:
             attr = attr.reshape(adj.shape[0], -1)
         w = weights.WSP(eliminate_zeros(adj)).to_W()
diff --git a/region/util.py b/region/util.py
index d6854c2..9280d07 100755
--- a/region/util.py
+++ b/region/util.py
@@ -908,6 +908,26 @@ def check_solver(solver):
         )
 
 
+def check_no_missing_values(spatially_extensive_attr, threshold):
+    """
+    Whether a region with a missing value reaches a threshold is unknown.
+
+    Parameters
+    ----------
+    spatially_extensive_attr : :class:`numpy.ndarray`
+    threshold : numbers.Real or :class:`numpy.ndarray`
+
+    Raises
+    ------
+    exc : `ValueError`
+        If one of the arguments contains NaN.
+    """
+    for values in (spatially_extensive_attr, threshold):
+        if np.isnan(np.asarray(values, dtype=float)).any():
+            raise ValueError("The spatially_extensive_attr and threshold "
+                             "arguments must not contain NaN.")
+
+
 def check_solution_found(prob):
     """
     Parameters
-- 
2.43.0


From 5c984d386416b5b0162611c1f978f9da481c76ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:13 +0000
Subject: [PATCH 49/50] fix: refuse a max-p fit without iterations

It put None in the place of the labels.
---
 region/max_p_regions/heuristics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/region/max_p_regions/heuristics.py b/region/max_p_regions/heuristics.py
index 1a01caf..e40e08b 100755
--- a/region/max_p_regions/heuristics.py
+++ b/region/max_p_regions/heuristics.py
@@ -76,6 +76,8 @@ class MaxPRegionsHeu:
             The objective function to use.
         """
 
+        if not max_it >= 1:
+            raise ValueError("The max_it argument must be a positive integer.")
         check_no_missing_values(spatially_extensive_attr, threshold)
         if attr.ndim == 1:
             attr = attr.reshape(adj.shape[0], -1)
-- 
2.43.0


From b437bf99123c3a78069bef95bf33e001b1cb8fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:31 +0000
Subject: [PATCH 50/50] fix: infinite thresholds of the exact max-p method

The solver crashed with them (and left its model file behind).
---
 region/max_p_regions/exact.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/region/max_p_regions/exact.py b/region/max_p_regions/exact.py
index 69ec4f9..1bf38f6 100755
--- a/region/max_p_regions/exact.py
+++ b/region/max_p_regions/exact.py
@@ -77,6 +77,8 @@ class MaxPRegionsExact:
         self.metric = get_metric_function(metric)
         check_solver(solver)
         check_no_missing_values(spatially_extensive_attr, threshold)
+        if np.isposinf(np.asarray(threshold, dtype=float)).any():
+            raise ValueError("The threshold must be finite.")
 
         prob = LpProblem("Max-p-Regions", LpMinimize)
 
@@ -405,10 +407,12 @@ def _well_scaled(column, threshold):
         Numbers posing the same condition on regions, of a size which suits the
         solver (which lets constraints be missed by an absolute tolerance).
     """
+    # no region has a lower sum
+    threshold = max(threshold, np.minimum(column, 0).sum())
     if column.min() < 0:
         scale = max(1, solver_scale([column, threshold]))
     else:
         # what an area has beyond the threshold does not matter
-        column = np.minimum(column, max(0, threshold))
+        column = np.minimum(column, threshold)
         scale = solver_scale([threshold])
     return scale * column, scale * threshold
-- 
2.43.0

