From 6a42775e37ce4171136c41827bf360ba123e7b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:45 +0000
Subject: [PATCH 01/47] fix: equal vector costs are not greater than each other

---
 tulip/transys/cost.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/transys/cost.py b/tulip/transys/cost.py
index f911228..f0e3d74 100644
--- a/tulip/transys/cost.py
+++ b/tulip/transys/cost.py
@@ -134,4 +134,4 @@ class VectorCost:
             if a == b:
                 continue
             return a > b
-        return True
+        return False
-- 
2.43.0


From d2467939ce82e58a3e922be90dd881e7169a6a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:56 +0000
Subject: [PATCH 02/47] fix: shortest path search does not compare nodes

Nodes reached at equal cost were compared by the heap,
which raised TypeError for unorderable nodes.
---
 tulip/transys/graph_algorithms.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/tulip/transys/graph_algorithms.py b/tulip/transys/graph_algorithms.py
index 0732bc9..8a53c74 100644
--- a/tulip/transys/graph_algorithms.py
+++ b/tulip/transys/graph_algorithms.py
@@ -34,6 +34,7 @@
 import collections.abc as _abc
 import copy
 import heapq as _hp
+import itertools as _itr
 
 import tulip.transys.labeled_graphs as _graphs
 
@@ -74,9 +75,13 @@ def dijkstra_single_source_multiple_targets(
     """
     dist = {source: 0}
     visited = set()
-    Q = [(0, source, list())]
+    # nodes need not be orderable,
+    # so break ties between costs
+    # by order of insertion
+    counter = _itr.count()
+    Q = [(0, next(counter), source, list())]
     while Q:
-        cost, u, path = _hp.heappop(Q)
+        cost, _, u, path = _hp.heappop(Q)
         if u in visited:
             continue
         visited.add(u)
@@ -92,7 +97,9 @@ def dijkstra_single_source_multiple_targets(
             new_cost = transition[2][cost_key] + cost
             if not current_cost or new_cost < current_cost:
                 dist[v] = new_cost
-                _hp.heappush(Q, (new_cost, v, path_to_u))
+                _hp.heappush(Q, (
+                    new_cost, next(counter),
+                    v, path_to_u))
     return (
         float("inf"),
         list())
-- 
2.43.0


From d8ea7af740507645e298644aa43eff6cb2ff9742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:02 +0000
Subject: [PATCH 03/47] fix: exactly-one constraint for a single Boolean value

---
 tulip/synth.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tulip/synth.py b/tulip/synth.py
index 1942325..40facd3 100644
--- a/tulip/synth.py
+++ b/tulip/synth.py
@@ -375,8 +375,8 @@ def iter2var(
         variables.update({
             s: 'boolean'
             for s in states})
-        # single action ?
-        if len(mutex(state_ids.values())) == 0:
+        # single action that may be False ?
+        if not min_one and len(mutex(state_ids.values())) == 0:
             return state_ids, None
         # handle multiple actions
         if use_mutex and not min_one:
-- 
2.43.0


From 801b12292b005a6beb67aece2580af6794e8f273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:11 +0000
Subject: [PATCH 04/47] fix: gridworlds with some different cells are not equal

---
 tulip/gridworld.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/gridworld.py b/tulip/gridworld.py
index bb35f2a..ba7e64e 100644
--- a/tulip/gridworld.py
+++ b/tulip/gridworld.py
@@ -133,7 +133,7 @@ class GridWorld:
                 # the two is undefined.
         if self.size() != other.size():
             return False
-        if np.all(self.W != other.W):
+        if np.any(self.W != other.W):
             return False
         if self.goal_list != other.goal_list:
             return False
-- 
2.43.0


From f7e847f1d8a9bab33e2f26023ea04f9ebba82ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:11 +0000
Subject: [PATCH 05/47] fix: copy of a gridworld keeps the order and overlap of
 its cells

---
 tulip/gridworld.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tulip/gridworld.py b/tulip/gridworld.py
index ba7e64e..808b940 100644
--- a/tulip/gridworld.py
+++ b/tulip/gridworld.py
@@ -215,9 +215,14 @@ class GridWorld:
             return out
 
     def __copy__(self):
-        return GridWorld(
+        gw = GridWorld(
             self.dumps(),
             prefix=self.prefix)
+        # the text has neither the order of cells, nor
+        # cells that are both initial and goal
+        gw.init_list = list(self.init_list)
+        gw.goal_list = list(self.goal_list)
+        return gw
 
     def copy(self) -> 'GridWorld':
         """Deep-copy GridWorld instance.
-- 
2.43.0


From 1c8cc4ac6a2cc57fd489b213a32df535e7c08ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:11 +0000
Subject: [PATCH 06/47] fix: Boolean troll variables are named by their
 gridworld cells

---
 tulip/gridworld.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/gridworld.py b/tulip/gridworld.py
index 808b940..56a430e 100644
--- a/tulip/gridworld.py
+++ b/tulip/gridworld.py
@@ -1463,7 +1463,7 @@ def add_trolls(
                         offset=t_offset, nonbool=nonbool))
     spec = Y.spec(controlled_dyn=True, nonbool=nonbool)
     for Xi in X:
-        spec |= Xi[1].spec(offset=(-Xi[0][0], -Xi[0][1]),
+        spec |= Xi[1].spec(offset=Xi[0],
                            controlled_dyn=False, nonbool=nonbool)
     # Mutual exclusion
     for i in range(Y.size()[0]):
-- 
2.43.0


From 958633a9f88785ad67f313dc59f94ca5e7e0a0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:11 +0000
Subject: [PATCH 07/47] fix: unoccupied gridworld uses the given prefix

---
 tulip/gridworld.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/gridworld.py b/tulip/gridworld.py
index 56a430e..1139ae5 100644
--- a/tulip/gridworld.py
+++ b/tulip/gridworld.py
@@ -1365,7 +1365,7 @@ def unoccupied(
         raise TypeError("invalid gridworld size.")
     return GridWorld(
         f'{size[0]} {size[1]}',
-        prefix="Y")
+        prefix=prefix)
 
 
 def add_trolls(
-- 
2.43.0


From 639e0a17e60b6d58892c1f82c6413b8ac446dff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:27 +0000
Subject: [PATCH 08/47] fix: on-the-fly product returns all new successors

---
 tulip/transys/products.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tulip/transys/products.py b/tulip/transys/products.py
index 9984e12..c4d1525 100644
--- a/tulip/transys/products.py
+++ b/tulip/transys/products.py
@@ -144,8 +144,7 @@ class OnTheFlyProductAutomaton(
                 new_accepting)
         # new_sqs = {x for x in next_sqs if x not in self}
         _logger.debug(f'next product states: {next_sqs}')
-        _logger.debug(f'new unvisited product states: {new_sqs}')
-        return new_sqs
+        return next_sqs
 
     def add_all_states(self):
         """Iterate `add_successors` until all states are added.
-- 
2.43.0


From 185c971509fd4159508aebb50c261572134e07fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:27 +0000
Subject: [PATCH 09/47] fix: product of a transition system with actions keeps
 its actions

---
 tulip/transys/products.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/tulip/transys/products.py b/tulip/transys/products.py
index c4d1525..7c1f57f 100644
--- a/tulip/transys/products.py
+++ b/tulip/transys/products.py
@@ -209,9 +209,13 @@ def ts_ba_sync_prod(
     ba = buchi_automaton
     prodts_name = f'{fts.name}*{ba.name}'
     prodts = transys.FiniteTransitionSystem()
+    prodts.add_label_types(
+        [dict(name=name, values=values, setter=True)
+            for name, values in fts.actions.items()],
+        is_edge=True)
+    prodts.actions.update(fts.actions)
     prodts.name = prodts_name
     prodts.atomic_propositions.add_from(ba.states())
-    prodts.sys_actions.add_from(fts.actions)
     # construct initial states of product automaton
     s0s = set(fts.states.initial)
     q0s = set(ba.states.initial)
@@ -364,12 +368,8 @@ def find_prod_succ(
                     prev_sq, new_sq,
                     letter=fts.states[to_s]['ap'])
             elif hasattr(product, 'actions'):
-                if not sublabel_values:
-                    product.transitions.add(prev_sq, new_sq)
-                else:
-                    product.transitions.add(
-                        prev_sq, new_sq,
-                        actions=sublabel_values['actions'])
+                product.transitions.add(
+                    prev_sq, new_sq, sublabel_values)
     return (next_sqs, new_accepting)
 
 
-- 
2.43.0


From 95eaca40eae31d2e692fd246feaa2d449b7c1233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:27 +0000
Subject: [PATCH 10/47] fix: product adds each transition once

---
 tulip/transys/products.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tulip/transys/products.py b/tulip/transys/products.py
index 7c1f57f..ca3f1ff 100644
--- a/tulip/transys/products.py
+++ b/tulip/transys/products.py
@@ -329,10 +329,15 @@ def find_prod_succ(
     s, q = prev_sq
     new_accepting = set()
     next_sqs = set()
+    next_qs = set()
     for curq, next_q, sublabels in enabled_ba_trans:
         if curq != q:
             raise AssertionError(
                 curq, q)
+        # another transition to `next_q` enabled ?
+        if next_q in next_qs:
+            continue
+        next_qs.add(next_q)
         new_sq = (next_s, next_q)
         if new_sq not in product:
             next_sqs.add(new_sq)
-- 
2.43.0


From 56ee9ea1dad6e923e71c0075deb51a0cbe7a8428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:27 +0000
Subject: [PATCH 11/47] fix: product uses the label of the target state

---
 tulip/transys/products.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/transys/products.py b/tulip/transys/products.py
index ca3f1ff..706e7df 100644
--- a/tulip/transys/products.py
+++ b/tulip/transys/products.py
@@ -428,7 +428,7 @@ def ba_ts_sync_prod(
         _logger.debug(
             f'prod_TS: to_state =\n\t{to_state}\n'
             f'TS: ts_to_state =\n\t{ts_to_state}')
-        state_label_pairs = transition_system.states.find(ts_to_state)
+        state_label_pairs = transition_system.states.find([ts_to_state])
         ts_to_state_, transition_label_dict = state_label_pairs[0]
         transition_label_value = transition_label_dict['ap']
         prod_ba.transitions.add(
-- 
2.43.0


From 4be6480d890ac3a58fcef1063d7be7a118169ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:03 +0000
Subject: [PATCH 12/47] fix: weighted and probabilistic structures are not
 composed

---
 tulip/transys/compositions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tulip/transys/compositions.py b/tulip/transys/compositions.py
index 4d474fc..ab5ec3b 100644
--- a/tulip/transys/compositions.py
+++ b/tulip/transys/compositions.py
@@ -316,6 +316,8 @@ def _get_composed_model_type(
         is_wks, models))
     if not all_types_ok:
         return None
+    if any_is_wks and (any_is_mdp or any_is_mc):
+        return None
     if any_is_mdp:
         return MDP
     if any_is_mc:
-- 
2.43.0


From f2bb8c3ed3b198441e6c092b66ffc7b7d80d69ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:25 +0000
Subject: [PATCH 13/47] fix: sets of iterators and of tuples with unhashables

---
 tulip/transys/mathset.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tulip/transys/mathset.py b/tulip/transys/mathset.py
index 7c86332..1cdc2a7 100644
--- a/tulip/transys/mathset.py
+++ b/tulip/transys/mathset.py
@@ -423,14 +423,16 @@ class MathSet:
             self._set |= iterable
             return
         # filter to optimize storage
+        items = list(iterable)
         try:
-            self._set |= set(self._filter_hashables(iterable))
+            self._set |= set(self._filter_hashables(items))
             self._list = list(unique(
-                self._list + self._filter_unhashables(iterable)))
+                self._list + self._filter_unhashables(items)))
             return
-        except:
+        except TypeError:
             # ...if contents of elements in iterable are mutable
-            self._list = list(unique(self._list + list(iterable)))
+            for item in items:
+                MathSet.add(self, item)
 
     def remove(
             self,
-- 
2.43.0


From fc197f56df936cd2649e34fd5d880db18fc05a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:25 +0000
Subject: [PATCH 14/47] fix: unique elements of an iterator

---
 tulip/transys/mathset.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tulip/transys/mathset.py b/tulip/transys/mathset.py
index 1cdc2a7..adcba6a 100644
--- a/tulip/transys/mathset.py
+++ b/tulip/transys/mathset.py
@@ -725,12 +725,13 @@ def unique(
             then returns `list` of unique elements.
     """
     # hashable items ?
+    items = list(iterable)
     try:
-        return set(iterable)
+        return set(items)
     except TypeError:
         pass
     unique_items = list()
-    for item in iterable:
+    for item in items:
         if item not in unique_items:
             unique_items.append(item)
     return unique_items
-- 
2.43.0


From 5843558c1d34613fdb1879f9981c654a385a28cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:25 +0000
Subject: [PATCH 15/47] fix: unhashables are not a subset of hashables

---
 tulip/transys/mathset.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/tulip/transys/mathset.py b/tulip/transys/mathset.py
index adcba6a..f713c5e 100644
--- a/tulip/transys/mathset.py
+++ b/tulip/transys/mathset.py
@@ -778,10 +778,7 @@ def is_subset(
     if not isinstance(big_iterable, _abc.Container):
         big_iterable = list(big_iterable)
     if isinstance(big_iterable, list):
-        try:
-            big_iterable = set(big_iterable)
-        except TypeError:
-            pass
+        big_iterable = MathSet(big_iterable)
     return all(map(
         big_iterable.__contains__,
         small_iterable))
-- 
2.43.0


From fca4a0afb982a8c519570eda22a7af78840eea4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:25 +0000
Subject: [PATCH 16/47] fix: membership in Cartesian products

---
 tulip/transys/mathset.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tulip/transys/mathset.py b/tulip/transys/mathset.py
index f713c5e..e4c7f26 100644
--- a/tulip/transys/mathset.py
+++ b/tulip/transys/mathset.py
@@ -672,9 +672,10 @@ class CartesianProduct:
                 'Argument element must be `Iterable`, otherwise cannot '
                 'recover which item in it belongs to which set in the '
                 'Cartesian product.')
-        pairs = zip(self.mathsets, element)
-        return all(map(
-            _op.contains, pairs))
+        items = list(element)
+        return (
+            len(items) == len(self.mathsets) and
+            all(map(_op.contains, self.mathsets, items)))
 
     def add(
             self,
-- 
2.43.0


From ba1c3452ab470fe6bbb0c9469a603273296feb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:25 +0000
Subject: [PATCH 17/47] fix: in-place union of typed dictionaries checks values

---
 tulip/transys/mathset.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tulip/transys/mathset.py b/tulip/transys/mathset.py
index e4c7f26..6d92747 100644
--- a/tulip/transys/mathset.py
+++ b/tulip/transys/mathset.py
@@ -986,6 +986,13 @@ class TypedDict(
         for key in kwargs:
             self[key] = kwargs[key]
 
+    def __ior__(
+            self,
+            other
+            ) -> 'TypedDict':
+        self.update(other)
+        return self
+
     def setdefault(
             self,
             key,
-- 
2.43.0


From dbfc0cc44dd611f9d474520e526e8d63a7fcd94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:25 +0000
Subject: [PATCH 18/47] fix: consistency of typed dictionaries

---
 tulip/transys/mathset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tulip/transys/mathset.py b/tulip/transys/mathset.py
index 6d92747..7564f76 100644
--- a/tulip/transys/mathset.py
+++ b/tulip/transys/mathset.py
@@ -1027,8 +1027,8 @@ class TypedDict(
         Use case: changing the object that allowed_values
         points to can invalidate the assigned values.
         """
-        for k, v in self:
-            if k in self.allowed_values:
+        for k, v in self.items():
+            if self.allowed_values.get(k) is not None:
                 if v not in self.allowed_values[k]:
                     return False
         return True
-- 
2.43.0


From d7624060e23befe009441af78884960fd644b62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:28 +0000
Subject: [PATCH 19/47] fix: remove non-accepting nodes of automata

---
 tulip/transys/automata.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/tulip/transys/automata.py b/tulip/transys/automata.py
index d7bb5a6..db8f6bb 100644
--- a/tulip/transys/automata.py
+++ b/tulip/transys/automata.py
@@ -183,8 +183,16 @@ class FiniteStateAutomaton(
         accepting set if present.
         """
         # intercept to remove also from accepting states
-        self.accepting.remove(node)
         super().remove_node(node)
+        self._remove_accepting(node)
+
+    def _remove_accepting(
+            self,
+            node
+            ) -> None:
+        """Remove `node` from the accepting states, if present."""
+        if node in self.accepting:
+            self.accepting.remove(node)
 
 
 class WeightedFiniteStateAutomaton(
@@ -603,6 +611,15 @@ class RabinAutomaton(
         self.accepting = RabinPairs(self.states)
         self.automaton_type = 'Rabin Automaton'
 
+    def _remove_accepting(
+            self,
+            node
+            ) -> None:
+        for pair in self.accepting:
+            for states in pair:
+                if node in states:
+                    states.remove(node)
+
 
 class DRA(
         RabinAutomaton):
-- 
2.43.0


From 96191b6b51c0266e783873a050e6a1836944d77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:28 +0000
Subject: [PATCH 20/47] fix: removed nodes are not initial states

---
 tulip/transys/labeled_graphs.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/tulip/transys/labeled_graphs.py b/tulip/transys/labeled_graphs.py
index eae44ab..0f78ad8 100644
--- a/tulip/transys/labeled_graphs.py
+++ b/tulip/transys/labeled_graphs.py
@@ -1149,6 +1149,25 @@ class LabeledDiGraph(
             self, n,
             **typed_attr)
 
+    def remove_node(
+            self,
+            n
+            ) -> None:
+        """Remove node `n`, also from the initial states."""
+        super().remove_node(n)
+        if n in self.states.initial:
+            self.states.initial.remove(n)
+
+    def remove_nodes_from(
+            self,
+            nodes:
+                _abc.Iterable
+            ) -> None:
+        """Remove those of `nodes` that are in the graph."""
+        for n in list(nodes):
+            if n in self:
+                self.remove_node(n)
+
     def add_nodes_from(
             self,
             nodes:
-- 
2.43.0


From 12fe2ed75427ac84e97d8dffb6fad78942d1fb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:28 +0000
Subject: [PATCH 21/47] fix: transitions with default labels are not duplicated

---
 tulip/transys/labeled_graphs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/transys/labeled_graphs.py b/tulip/transys/labeled_graphs.py
index 0f78ad8..c5d93c4 100644
--- a/tulip/transys/labeled_graphs.py
+++ b/tulip/transys/labeled_graphs.py
@@ -1266,7 +1266,7 @@ class LabeledDiGraph(
                 f'where:\t from_state = {u}\n'
                 f'and:\t to_state = {v}\n')
         # check if same labeled transition exists
-        if attr_dict in existing_u_v.values():
+        if typed_attr in existing_u_v.values():
             _logger.warning(
                 'Same labeled transition:\n'
                 'from_state---[label]---> to_state\n'
-- 
2.43.0


From 5401a846392b901977d85fe1c1e27f4f5fea26e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:28 +0000
Subject: [PATCH 22/47] fix: edits and queries do not change the given labels

---
 tulip/transys/labeled_graphs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tulip/transys/labeled_graphs.py b/tulip/transys/labeled_graphs.py
index c5d93c4..be3f39f 100644
--- a/tulip/transys/labeled_graphs.py
+++ b/tulip/transys/labeled_graphs.py
@@ -379,6 +379,7 @@ class States:
             with_attr_dict = with_attr
         else:
             try:
+                with_attr_dict = with_attr_dict.copy()
                 with_attr_dict.update(with_attr)
             except AttributeError as error:
                 raise TypeError(
@@ -723,6 +724,7 @@ class Transitions:
         if with_attr_dict is None:
             with_attr_dict = with_attr
         try:
+            with_attr_dict = with_attr_dict.copy()
             with_attr_dict.update(with_attr)
         except:
             raise TypeError(
@@ -1102,6 +1104,7 @@ class LabeledDiGraph(
         if attr_dict is None:
             return attr
         try:
+            attr_dict = attr_dict.copy()
             attr_dict.update(attr)
             return attr_dict
         except AttributeError as error:
-- 
2.43.0


From e1d7a87a2434d6b1e63bbcb45286037841b1c26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:28 +0000
Subject: [PATCH 23/47] fix: query labels with untyped attributes

---
 tulip/transys/labeled_graphs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/transys/labeled_graphs.py b/tulip/transys/labeled_graphs.py
index be3f39f..d69bade 100644
--- a/tulip/transys/labeled_graphs.py
+++ b/tulip/transys/labeled_graphs.py
@@ -86,7 +86,7 @@ def label_is_desired(
         _logger.debug(
             'Checking label type:\n'
             f'\t{type_name}')
-        type_def = label_def[type_name]
+        type_def = label_def.get(type_name)
         desired_value = desired_dict[type_name]
         if callable(type_def):
             _logger.debug(
-- 
2.43.0


From 7d15b07c14ee108266f5e6493c096238de6ec098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:28 +0000
Subject: [PATCH 24/47] fix: reachability queries of states

---
 tulip/transys/labeled_graphs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tulip/transys/labeled_graphs.py b/tulip/transys/labeled_graphs.py
index d69bade..a947499 100644
--- a/tulip/transys/labeled_graphs.py
+++ b/tulip/transys/labeled_graphs.py
@@ -276,7 +276,7 @@ class States:
 
         Wrapper of `networkx.descendants()`.
         """
-        return nx.descendants(self, state)
+        return nx.descendants(self.graph, state)
 
     def backward_reachable(
             self,
@@ -286,7 +286,7 @@ class States:
 
         Wrapper of `networkx.ancestors()`.
         """
-        return nx.ancestors(self, state)
+        return nx.ancestors(self.graph, state)
 
     def paint(
             self,
-- 
2.43.0


From 290ec6c8b4ad99c986b65add4151436378ce4ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:28 +0000
Subject: [PATCH 25/47] fix: find specific states, and states given by
 iterators

---
 tulip/transys/labeled_graphs.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/tulip/transys/labeled_graphs.py b/tulip/transys/labeled_graphs.py
index a947499..e7200b8 100644
--- a/tulip/transys/labeled_graphs.py
+++ b/tulip/transys/labeled_graphs.py
@@ -385,6 +385,8 @@ class States:
                 raise TypeError(
                     'with_attr_dict must be a dict'
                     ) from error
+        if states is not None:
+            states = self.graph._collect_states(states)
         found_state_label_pairs = list()
         for state, attr_dict in self.graph.nodes(data=True):
             _logger.debug(
@@ -734,6 +736,7 @@ class Transitions:
             nbunch=from_states,
             data=True)
         if to_states is not None:
+            to_states = self.graph._collect_states(to_states)
             u_v_edges = [
                 (u, v, d)
                 for u, v, d in u_v_edges
@@ -1094,6 +1097,18 @@ class LabeledDiGraph(
             consistent(nodes) and
             consistent(edges))
 
+    def _collect_states(
+            self,
+            states
+            ) -> set:
+        """Return set of `states`, which can be a single state.
+
+        Same convention as for `nbunch` in `networkx`.
+        """
+        if states in self:
+            return {states}
+        return set(states)
+
     def _update_attr_dict_with_attr(
             self,
             attr_dict:
-- 
2.43.0


From 3b94f72f5f1ea0e48d2fc44235188f10145fe1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:28 +0000
Subject: [PATCH 26/47] fix: remove all transitions between two states

---
 tulip/transys/labeled_graphs.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tulip/transys/labeled_graphs.py b/tulip/transys/labeled_graphs.py
index e7200b8..2673890 100644
--- a/tulip/transys/labeled_graphs.py
+++ b/tulip/transys/labeled_graphs.py
@@ -1445,6 +1445,11 @@ class LabeledDiGraph(
                     datadict.update(dd)
                 case 2:
                     u, v = e
+                    if not attr_dict:
+                        if self.has_edge(u, v):
+                            for key in list(self[u][v]):
+                                self.remove_edge(u, v, key=key)
+                        continue
                 case _:
                         raise ValueError(
                             f'Edge tuple {e} must '
-- 
2.43.0


From 7ec647b2839e72ea682234610e7613d738e9d52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:28 +0000
Subject: [PATCH 27/47] fix: consistency of labels

---
 tulip/transys/labeled_graphs.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/tulip/transys/labeled_graphs.py b/tulip/transys/labeled_graphs.py
index 2673890..fe094e7 100644
--- a/tulip/transys/labeled_graphs.py
+++ b/tulip/transys/labeled_graphs.py
@@ -1089,13 +1089,16 @@ class LabeledDiGraph(
         """
         nodes = self.nodes(data=True)
         edges = self.edges(data=True)
-        def consistent(items):
-            return all(
-                t[-1].is_consistent()
-                for t in items)
+        def consistent(items, label_types):
+            for *_, attr_dict in items:
+                typed_attr = _mset.TypedDict(attr_dict)
+                typed_attr.set_types(label_types)
+                if not typed_attr.is_consistent():
+                    return False
+            return True
         return (
-            consistent(nodes) and
-            consistent(edges))
+            consistent(nodes, self._node_label_types) and
+            consistent(edges, self._edge_label_types))
 
     def _collect_states(
             self,
-- 
2.43.0


From b009c2e6029daddaf546563cc94e485626a2d73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:00 +0000
Subject: [PATCH 28/47] fix: remove ports from machines with any port names

---
 tulip/transys/machines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/transys/machines.py b/tulip/transys/machines.py
index aec09b7..f3ff7e7 100644
--- a/tulip/transys/machines.py
+++ b/tulip/transys/machines.py
@@ -1211,5 +1211,5 @@ def strip_ports(
     edges = mealy.edges(data=True)
     for u, v, d in edges:
         d = trim_dict(d, names)
-        new.add_edge(u, v, **d)
+        new.add_edge(u, v, attr_dict=d)
     return new
-- 
2.43.0


From ab4dfe692d07ba48b7abb76d74b530bb39958841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:01 +0000
Subject: [PATCH 29/47] fix: remove ports given by an iterator

---
 tulip/transys/machines.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tulip/transys/machines.py b/tulip/transys/machines.py
index f3ff7e7..2e7064d 100644
--- a/tulip/transys/machines.py
+++ b/tulip/transys/machines.py
@@ -1197,6 +1197,7 @@ def strip_ports(
     strip_ports(mealy, ts.atomic_propositions)
     ```
     """
+    names = set(names)
     new = MealyMachine()
     def trim(ports):
         return trim_dict(
-- 
2.43.0


From 23c54b67aa08d3b32d3ea762cbacd80636b3fa26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:01 +0000
Subject: [PATCH 30/47] fix: remove all ports of transitions between two states

---
 tulip/transys/machines.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tulip/transys/machines.py b/tulip/transys/machines.py
index 2e7064d..c87f0a0 100644
--- a/tulip/transys/machines.py
+++ b/tulip/transys/machines.py
@@ -1212,5 +1212,8 @@ def strip_ports(
     edges = mealy.edges(data=True)
     for u, v, d in edges:
         d = trim_dict(d, names)
+        # avoid duplicate unlabeled edges
+        if not d and new.has_edge(u, v):
+            continue
         new.add_edge(u, v, attr_dict=d)
     return new
-- 
2.43.0


From 81cecbc39c3d02578c64f4aaa67d7f49de3bae71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:15 +0000
Subject: [PATCH 31/47] fix: mask outputs that are zero

---
 tulip/synth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/synth.py b/tulip/synth.py
index 40facd3..b731784 100644
--- a/tulip/synth.py
+++ b/tulip/synth.py
@@ -1880,7 +1880,7 @@ def mask_outputs(
         ) -> None:
     """Erase outputs from each edge where they are zero."""
     for _, _, d in machine.edges(data=True):
-        for k in d:
+        for k in list(d):
             pop = (
                 k in machine.outputs and
                 d[k] == 0)
-- 
2.43.0


From 2f2f6ea64b9d9468b281f1193bcb3a17a82f2dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:25 +0000
Subject: [PATCH 32/47] fix: convert strategies with any variable names

---
 tulip/synth.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/tulip/synth.py b/tulip/synth.py
index b731784..9882ab1 100644
--- a/tulip/synth.py
+++ b/tulip/synth.py
@@ -1712,9 +1712,8 @@ def strategy2mealy(
             d = _int2str(d, str_vars)
             mach.transitions.add(
                 u, v,
-                attr_dict=None,
-                check=False,
-                **d)
+                attr_dict=d,
+                check=False)
             _logger.info(
                 f'node: {v}, state: {d}')
     # special initial state, for first reaction
@@ -1782,8 +1781,7 @@ def _init_edges_using_initial_nodes(
         d = _int2str(d, str_vars)
         mach.transitions.add(
             initial_state, u,
-            attr_dict=None,
-            **d)
+            attr_dict=d)
 
 
 def _init_edges_using_compile_init(
@@ -1823,9 +1821,8 @@ def _init_edges_using_compile_init(
             label = _int2str(var_values, str_vars)
             mach.transitions.add(
                 initial_state, u,
-                attr_dict=None,
-                check=False,
-                **label)
+                attr_dict=label,
+                check=False)
             # remember variable values to avoid
             # spurious non-determinism wrt
             # the machine's memory
-- 
2.43.0


From 9335715cd1123c7b8b5413ad711b4a2e7928b094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:26 +0000
Subject: [PATCH 33/47] fix: transition labels with any names

---
 tulip/transys/labeled_graphs.py | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/tulip/transys/labeled_graphs.py b/tulip/transys/labeled_graphs.py
index fe094e7..2302e6a 100644
--- a/tulip/transys/labeled_graphs.py
+++ b/tulip/transys/labeled_graphs.py
@@ -1304,21 +1304,10 @@ class LabeledDiGraph(
         # the only change from nx in
         # this clause is using TypedDict
         _logger.debug(f'adding edge: {u} ---> {v}')
-        if key is None:
-            key = self.new_edge_key(u, v)
-        if v in self._succ[u]:
-            keydict = self._adj[u][v]
-            datadict = keydict.get(key, typed_attr)
-            datadict.update(typed_attr)
-            nx.MultiDiGraph.add_edge(
-                self, u, v, key,
-                **datadict)
-        else:
-            # selfloops work this way
-            # without special treatment
-            nx.MultiDiGraph.add_edge(
-                self, u, v,
-                **typed_attr)
+        # not passed as keyword arguments,
+        # because labels can have any names
+        key = nx.MultiDiGraph.add_edge(self, u, v, key)
+        self._adj[u][v][key].update(typed_attr)
 
     def add_edges_from(
             self,
-- 
2.43.0


From b36d367e60240a4ee4aa22772edbf9c2efdc2361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:52 +0000
Subject: [PATCH 34/47] fix: read strategies in any XML namespace

---
 tulip/interfaces/gr1c.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tulip/interfaces/gr1c.py b/tulip/interfaces/gr1c.py
index 4099df8..7d4bbcd 100644
--- a/tulip/interfaces/gr1c.py
+++ b/tulip/interfaces/gr1c.py
@@ -284,9 +284,9 @@ def load_aut_xml(
             f'{elem.attrib["version"]}')
     # Extract discrete variables and LTL specification
     tag_name, env_vardict, env_vars = _untagdict(elem.find(
-        ns_prefix+"env_vars"), get_order=True)
+        ns_prefix+"env_vars"), namespace=namespace, get_order=True)
     tag_name, sys_vardict, sys_vars = _untagdict(elem.find(
-        ns_prefix+"sys_vars"), get_order=True)
+        ns_prefix+"sys_vars"), namespace=namespace, get_order=True)
     # variables
     env_vars = _parse_vars(env_vars, env_vardict)
     sys_vars = _parse_vars(sys_vars, sys_vardict)
@@ -334,14 +334,16 @@ def load_aut_xml(
         #     # Assume version 1
         tag_name, this_name_list = _untaglist(
             node.find(f'{ns_prefix}anno'),
-            cast_f=int)
+            cast_f=int,
+            namespace=namespace)
         if len(this_name_list) == 2:
             mode, rgrad = this_name_list
         else:
             mode, rgrad = (-1, -1)
         tag_name, this_child_list = _untaglist(
             node.find(f'{ns_prefix}child_list'),
-            cast_f=int)
+            cast_f=int,
+            namespace=namespace)
         if tag_name != f'{ns_prefix}child_list':
             # This really should never happen and may not even be
             # worth checking.
-- 
2.43.0


From b2f5d052eb03279433094d6ad32b9096cba07f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:52 +0000
Subject: [PATCH 35/47] fix: read strategies from XML without whitespace

---
 tulip/interfaces/gr1c.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/interfaces/gr1c.py b/tulip/interfaces/gr1c.py
index 7d4bbcd..821483b 100644
--- a/tulip/interfaces/gr1c.py
+++ b/tulip/interfaces/gr1c.py
@@ -313,7 +313,7 @@ def load_aut_xml(
     return_now = (
         aut_elem is None or (
         aut_elem.text is None and
-            len(aut_elem.getchildren()) == 0))
+            len(aut_elem) == 0))
     if return_now:
         mach = None
         return (spec, mach)
-- 
2.43.0


From 7fa61b7f8b850b1ed19edebcba0641fdc9a27864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:02 +0000
Subject: [PATCH 36/47] fix: decode integer variables without bits

---
 tulip/interfaces/slugs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tulip/interfaces/slugs.py b/tulip/interfaces/slugs.py
index 5011959..2355202 100644
--- a/tulip/interfaces/slugs.py
+++ b/tulip/interfaces/slugs.py
@@ -155,6 +155,10 @@ def _bitfields_to_ints(
         bitnames = [
             f'{var}@{i}'
             for i in range(dom[1].bit_length())]
+        # domain `(0, 0)` ?
+        if not bitnames:
+            int_state[var] = 0
+            continue
         bitnames[0] = f'{var}@0.{dom[0]}.{dom[1]}'
         bitvalues = [bit_state[b] for b in bitnames]
         # little-endian
-- 
2.43.0


From 38221743c941122c136dc1e565e41da1a4d7eb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:02 +0000
Subject: [PATCH 37/47] fix: reject unknown file formats

---
 tulip/interfaces/gr1c.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/interfaces/gr1c.py b/tulip/interfaces/gr1c.py
index 821483b..2d338dd 100644
--- a/tulip/interfaces/gr1c.py
+++ b/tulip/interfaces/gr1c.py
@@ -646,7 +646,7 @@ def load_mealy(
     elif fformat.lower() == 'json':
         strategy = load_aut_json(s)
     else:
-        ValueError(
+        raise ValueError(
             '`gr1c.load_mealy()`: '
             f'Unrecognized file format, "{fformat}"')
     _logger.debug(
-- 
2.43.0


From 8347e9302bda89e85a71637479b6a53081143c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:07 +0000
Subject: [PATCH 38/47] fix: quote strings in exported controllers

---
 tulip/dumpsmach.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tulip/dumpsmach.py b/tulip/dumpsmach.py
index 59a149e..dc3ceca 100644
--- a/tulip/dumpsmach.py
+++ b/tulip/dumpsmach.py
@@ -123,9 +123,7 @@ def python_case(
             outputs=list(map(str, M.outputs)))
     # cached generator
     ifs = lambda: _itr.chain(['if'], _itr.repeat('elif'))
-    proj = lambda d, keys: ((k, d[k]) for k in d if k in keys)
-    proj = lambda d, keys: ((k, "'"+d[k]+"'" if isinstance(d[k], str) else d[k])
-                            for k in d if k in keys)
+    proj = lambda d, keys: ((k, repr(d[k])) for k in d if k in keys)
     # generate selection statements
     c = list()
     for u, ifu in zip(M, ifs()):
-- 
2.43.0


From b470b5a0f7e57be09e44920c9efd468160d80fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:07 +0000
Subject: [PATCH 39/47] fix: no input variables in controllers of machines
 without inputs

---
 tulip/dumpsmach.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/dumpsmach.py b/tulip/dumpsmach.py
index dc3ceca..d115747 100644
--- a/tulip/dumpsmach.py
+++ b/tulip/dumpsmach.py
@@ -85,7 +85,7 @@ def python_case(
     node_to_int = dict([(s, i) for i, s in enumerate(M)])
     input_vars = [input_var for input_var in M.inputs] if M.inputs else []
     input_args = ', '.join(input_vars)
-    input_args_str = "'"+"', '".join(input_vars)+"'"
+    input_args_str = ', '.join(map(repr, input_vars))
     code = (
         'class {classname}:\n'
         '{t}"""Mealy transducer.\n'
-- 
2.43.0


From 13ca8dfc90ce466d7752113c260d0275869316f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:07 +0000
Subject: [PATCH 40/47] fix: input variables named output in exported
 controllers

---
 tulip/dumpsmach.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/dumpsmach.py b/tulip/dumpsmach.py
index d115747..c97cb62 100644
--- a/tulip/dumpsmach.py
+++ b/tulip/dumpsmach.py
@@ -111,7 +111,6 @@ def python_case(
         '{t2}    dictionary with keys of the output variable names:\n'
         '{t2}    {outputs}\n'
         '{t2}"""\n'
-        '{t2}output = dict()\n'
         ).format(
             classname=classname,
             t=tab,
@@ -143,6 +142,7 @@ def python_case(
                 f'{3 * tab}{ifw} {guard}:\n'
                 f'{4 * tab}self.state = {target_id}\n'
                 '\n'
+                f'{4 * tab}output = dict()\n'
                 f'{outputs}')
         # handle invalid inputs or dead-end
         if edges and M.inputs:
-- 
2.43.0


From 26a01266577d671255009023f6f3f71024bc23fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:15 +0000
Subject: [PATCH 41/47] fix: plans for rules with states that are not accepting

---
 tulip/mvp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/mvp.py b/tulip/mvp.py
index ecc6250..d509e08 100644
--- a/tulip/mvp.py
+++ b/tulip/mvp.py
@@ -231,7 +231,7 @@ def solve(
         if goal_label in ks.states[state]["ap"]]
     accepting_goal_states = _trs.SubSet(wpa.accepting)
     accepting_goal_states.add_from(
-        _itr.product(goal_states, spec.get_states()))
+        _itr.product(goal_states, spec.get_accepting_states()))
     cost, product_path = _gralgo.dijkstra_multiple_sources_multiple_targets(
         wpa,
         wpa.states.initial,
-- 
2.43.0


From 06ea29cb56cc567d32c3bcc7120c430c04d8c22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:52 +0000
Subject: [PATCH 42/47] fix: transitions from all product states in
 minimum-violation planning

---
 tulip/mvp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tulip/mvp.py b/tulip/mvp.py
index d509e08..db807f2 100644
--- a/tulip/mvp.py
+++ b/tulip/mvp.py
@@ -116,6 +116,7 @@ def _add_transition(
         the cost of transition from from_prod_state[0] to to_prod_state[0]
         in ks
     """
+    to_prod_states = list(to_prod_states)
     for from_prod_state in from_prod_states:
         for to_prod_state in to_prod_states:
             _add_transition_edge(
-- 
2.43.0


From 8aa5f282bf93e8bf1a98bfe3b8e9e2cfe1df26c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:14 +0000
Subject: [PATCH 43/47] fix: values of integer variables stay within their
 domains with omega

Bitfields represent values outside of the domains of integer variables,
and of variables with string values. The game included these values,
so strategies had them (conversion to a machine failed), and
realizability was decided for other domains.
---
 tulip/interfaces/omega.py | 72 +++++++++++++++++++++++++++++++++------
 1 file changed, 62 insertions(+), 10 deletions(-)

diff --git a/tulip/interfaces/omega.py b/tulip/interfaces/omega.py
index c595ed0..b790c6c 100644
--- a/tulip/interfaces/omega.py
+++ b/tulip/interfaces/omega.py
@@ -159,10 +159,25 @@ def _grspec_to_automaton(
         env=list(g.env_vars.keys()),
         sys=list(g.sys_vars.keys()))
     f = g._bool_int.__getitem__
-    a.init['env'] = _conj(g.env_init, f)
-    a.init['sys'] = _conj(g.sys_init, f)
-    a.action['env'] = _conj(g.env_safety, f)
-    a.action['sys'] = _conj(g.sys_safety, f)
+    env_init = _conj(map(f, g.env_init))
+    sys_init = _conj(map(f, g.sys_init))
+    env_next = _conj(map(f, g.env_safety))
+    sys_next = _conj(map(f, g.sys_safety))
+    # bits can represent integers outside of domains
+    env_dom, env_dom_next = _bound_integers(g.env_vars, d)
+    sys_dom, sys_dom_next = _bound_integers(g.sys_vars, d)
+    if g.qinit == r'\A \A':
+        env_init = _conj([env_init, env_dom, sys_dom])
+    elif g.qinit == r'\E \E':
+        sys_init = _conj([sys_init, env_dom, sys_dom])
+    else:
+        env_init = _conj([env_init, env_dom])
+        sys_init = _conj([_implies(env_dom, sys_init), sys_dom])
+    a.init['env'] = env_init
+    a.init['sys'] = sys_init
+    a.action['env'] = _conj([env_next, env_dom_next])
+    a.action['sys'] = _conj([
+        _implies(env_dom_next, sys_next), sys_dom_next])
     if g.env_prog:
         w1 = [f'!({s})' for s in map(f, g.env_prog)]
     else:
@@ -180,12 +195,49 @@ def _grspec_to_automaton(
     return a
 
 
+def _bound_integers(
+        variables:
+            _abc.Iterable[str],
+        domains:
+            dict
+        ) -> tuple[str, str]:
+    """Return formulas that bound integer `variables`.
+
+    The second formula is about the next values.
+    """
+    bounds = [
+        (var, *domains[var])
+        for var in variables
+        if domains[var] != 'bool']
+    now = [
+        f'({p} <= {var}) & ({var} <= {q})'
+        for var, p, q in bounds]
+    later = [
+        f"({p} <= {var}') & ({var}' <= {q})"
+        for var, p, q in bounds]
+    return _conj(now), _conj(later)
+
+
 def _conj(
         strings:
-            _abc.Iterable,
-        f:
-            _abc.Callable
+            _abc.Iterable[str]
+        ) -> str:
+    conjuncts = [
+        s for s in strings
+        if s != 'TRUE']
+    if len(conjuncts) == 1:
+        return conjuncts[0]
+    if conjuncts:
+        return ' & '.join(f'({s})' for s in conjuncts)
+    return 'TRUE'
+
+
+def _implies(
+        p:
+            str,
+        q:
+            str
         ) -> str:
-    if not strings:
-        return 'TRUE'
-    return ' & '.join(f(s) for s in strings)
+    if 'TRUE' in (p, q):
+        return q
+    return f'({p}) => ({q})'
-- 
2.43.0


From 547d042865ac4ef2e2246d9b72fa546ba3363e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:09 +0000
Subject: [PATCH 44/47] fix: synthesize_many when ignore_init is not given

---
 tulip/synth.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tulip/synth.py b/tulip/synth.py
index 9882ab1..f713421 100644
--- a/tulip/synth.py
+++ b/tulip/synth.py
@@ -1325,6 +1325,8 @@ def synthesize_many(
         available options.
     """
     assert isinstance(ts, dict), ts
+    if ignore_init is None:
+        ignore_init = set()
     for name, t in ts.items():
         if not isinstance(t, transys.FiniteTransitionSystem):
             raise AssertionError(t)
-- 
2.43.0


From 6e646fa5e1f4f9c1ccd78ed61847074fb6f070d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:59 +0000
Subject: [PATCH 45/47] fix: initial states of transition systems in
 synthesize_many with \A \A

---
 tulip/synth.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tulip/synth.py b/tulip/synth.py
index f713421..6a898d6 100644
--- a/tulip/synth.py
+++ b/tulip/synth.py
@@ -1336,10 +1336,18 @@ def synthesize_many(
             case 'sys':
                 sys_spec = sys_to_spec(t, ignore, statevar)
                 _copy_options_from_ts(sys_spec, t, specs)
+                if specs.qinit == r'\A \A':
+                    sys_spec.env_init.extend(
+                        sys_spec.sys_init)
+                    sys_spec.sys_init = list()
                 specs |= sys_spec
             case 'env':
                 env_spec = env_to_spec(t, ignore, statevar)
                 _copy_options_from_ts(env_spec, t, specs)
+                if specs.qinit == r'\A \A':
+                    env_spec.env_init.extend(
+                        env_spec.sys_init)
+                    env_spec.sys_init = list()
                 specs |= env_spec
     return _synthesize(
         specs, solver,
-- 
2.43.0


From 4bfebc9dcef0759e0155b52f176b76f56a4dadd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:17 +0000
Subject: [PATCH 46/47] fix: add_grid raised TypeError for every partition
 (conversion of 1-element arrays)

---
 tulip/abstract/prop2partition.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tulip/abstract/prop2partition.py b/tulip/abstract/prop2partition.py
index 76b1701..de2f198 100644
--- a/tulip/abstract/prop2partition.py
+++ b/tulip/abstract/prop2partition.py
@@ -573,8 +573,8 @@ def add_grid(
                 for i in range(dim):
                     if isinstance( num_grid_pnts[i], int):
                         grid_size=(
-                                float(domain_bb[1][i]) -
-                                float(domain_bb[0][i])
+                                domain_bb[1][i].item() -
+                                domain_bb[0][i].item()
                             ) / num_grid_pnts[i]
                         size_list.append(grid_size)
                     else:
@@ -588,8 +588,8 @@ def add_grid(
         elif isinstance(num_grid_pnts, int):
             for i in range(dim):
                 grid_size=(
-                        float(domain_bb[1][i]) -
-                        float(domain_bb[0][i])
+                        domain_bb[1][i].item() -
+                        domain_bb[0][i].item()
                     ) / num_grid_pnts
                 size_list.append(grid_size)
         else:
@@ -600,8 +600,8 @@ def add_grid(
     list_grid = dict()
     while j < dim:
         list_grid[j] = compute_interval(
-            float(domain_bb[0][j]),
-            float(domain_bb[1][j]),
+            domain_bb[0][j].item(),
+            domain_bb[1][j].item(),
             size_list[j],
             abs_tol)
         if j > 0:
-- 
2.43.0


From 5e6cdf4b25e8fb1d3cffc872d6a0624fdda21638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:17 +0000
Subject: [PATCH 47/47] fix: add_grid raised UnboundLocalError for
 one-dimensional domains

---
 tulip/abstract/prop2partition.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/tulip/abstract/prop2partition.py b/tulip/abstract/prop2partition.py
index de2f198..03b9bfa 100644
--- a/tulip/abstract/prop2partition.py
+++ b/tulip/abstract/prop2partition.py
@@ -604,14 +604,11 @@ def add_grid(
             domain_bb[1][j].item(),
             size_list[j],
             abs_tol)
-        if j > 0:
-            if j == 1:
-                re_list = list_grid[j - 1]
-                re_list = product_interval(
-                    re_list, list_grid[j])
-            else:
-                re_list = product_interval(
-                    re_list, list_grid[j])
+        if j == 0:
+            re_list = list_grid[j]
+        else:
+            re_list = product_interval(
+                re_list, list_grid[j])
         j += 1
     new_list = list()
     parent = list()
-- 
2.43.0

