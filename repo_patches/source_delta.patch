From cabf80e35a4189c3b0fed550f868aec7d150414a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:44 +0000
Subject: [PATCH 01/26] fix: use collections.abc.Sequence so that input and
 plot1D work on Python 3.10+

---
 netomaton/evolution.py | 4 ++--
 netomaton/utils.py     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/netomaton/evolution.py b/netomaton/evolution.py
index 0272482..6411b0e 100644
--- a/netomaton/evolution.py
+++ b/netomaton/evolution.py
@@ -1,4 +1,4 @@
-import collections
+import collections.abc
 from enum import Enum
 from .state import State
 
@@ -418,7 +418,7 @@ def _get_input_function(timesteps=None, input=None):
 
 
 def _is_indexable(obj):
-    return isinstance(obj, collections.Sequence)
+    return isinstance(obj, collections.abc.Sequence)
 
 
 class _TimestepInputFunction:
diff --git a/netomaton/utils.py b/netomaton/utils.py
index 15eb8ee..cf8c02d 100644
--- a/netomaton/utils.py
+++ b/netomaton/utils.py
@@ -4,7 +4,7 @@ import numpy as np
 import matplotlib.pyplot as plt
 import matplotlib.animation as animation
 import matplotlib.collections as mcoll
-import collections
+import collections.abc
 from .state import State
 from .substitution_system import SubstitutionSystem
 try:
@@ -273,7 +273,7 @@ def plot1D(x, y, color=None, label=None, xlabel=None, ylabel=None, xlim=None, yl
     def _get_item(items, i):
         if isinstance(items, str):
             return items
-        if isinstance(items, collections.Sequence):
+        if isinstance(items, collections.abc.Sequence):
             return items[i]
         return items
 
-- 
2.43.0


From a02e59ff9bd0b16e4912673df037749446b776f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:40 +0000
Subject: [PATCH 02/26] fix: majority_rule picks one of the tied states at
 random when there is a tie, as documented

---
 netomaton/rules/activity_rule.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/netomaton/rules/activity_rule.py b/netomaton/rules/activity_rule.py
index 4d11ea7..b75d0e7 100644
--- a/netomaton/rules/activity_rule.py
+++ b/netomaton/rules/activity_rule.py
@@ -1,4 +1,4 @@
-from statistics import mode, StatisticsError
+from collections import Counter
 import numpy as np
 
 
@@ -40,11 +40,13 @@ def majority_rule(ctx):
 
     :return: the new activity for the node with the given neighbourhood
     """
-    try:
-        return mode(ctx.neighbourhood_activities)
-    except StatisticsError:
-        # a StatisticsError is raised if there is a tie, and there is no single most common element
-        return np.random.choice(ctx.neighbourhood_activities)
+    counts = Counter(ctx.neighbourhood_activities)
+    max_count = max(counts.values())
+    most_frequent = [activity for activity in counts if counts[activity] == max_count]
+    if len(most_frequent) == 1:
+        return most_frequent[0]
+    # there is a tie, and there is no single most common element
+    return np.random.choice([a for a in ctx.neighbourhood_activities if counts[a] == max_count])
 
 
 def bits_to_int(bits):
-- 
2.43.0


From 8a546121f94b1ac7c92e64d202c51fb960460a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:40 +0000
Subject: [PATCH 03/26] fix: do not freeze the neighbourhoods when nodes are
 added or removed while a topology rule is in use

---
 netomaton/evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netomaton/evolution.py b/netomaton/evolution.py
index 6411b0e..89e624b 100644
--- a/netomaton/evolution.py
+++ b/netomaton/evolution.py
@@ -204,7 +204,7 @@ def evolve(network, initial_conditions=None, activity_rule=None, timesteps=None,
                                                            memoize, memo_table, neighbourhood_map, memoization_key)
             curr_network = evolve_topology(topology_rule, t, curr_activities, prev_network,
                                            trajectory, copy_network, persist_network, added_nodes, removed_nodes)
-            if added_nodes or removed_nodes:
+            if topology_rule is None and (added_nodes or removed_nodes):
                 # re-build the neighbourhood map, since the network has changed
                 neighbourhood_map = _get_neighbourhood_map(curr_network)
 
-- 
2.43.0


From 09454a5bfcf45947d5413f1d8acae80a4157b5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:40 +0000
Subject: [PATCH 04/26] fix: skip the perturbation of a node that its rule has
 removed, and unwrap NumPy results

---
 netomaton/evolution.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/netomaton/evolution.py b/netomaton/evolution.py
index 89e624b..d0b272e 100644
--- a/netomaton/evolution.py
+++ b/netomaton/evolution.py
@@ -284,9 +284,9 @@ def do_activity_rule(t, inp, curr_activities, prev_activities, network, activity
         if node_label not in ctx.removed_nodes:
             curr_activities[node_label] = new_activity
 
-        if perturbation is not None:
-            pctx = PerturbationContext(node_label, curr_activities[node_label], t, node_in)
-            curr_activities[node_label] = perturbation(pctx)
+            if perturbation is not None:
+                pctx = PerturbationContext(node_label, curr_activities[node_label], t, node_in)
+                curr_activities[node_label] = check_np(perturbation(pctx))
 
     return added_nodes, removed_nodes
 
-- 
2.43.0


From c891d00e0c0b6cac4a9c87e71f96c0168ffc96de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:39 +0000
Subject: [PATCH 05/26] fix: removing another node (or the same node twice)
 through the context leaves no orphan activity and no error

---
 netomaton/evolution.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/netomaton/evolution.py b/netomaton/evolution.py
index d0b272e..1240f2d 100644
--- a/netomaton/evolution.py
+++ b/netomaton/evolution.py
@@ -246,6 +246,10 @@ def evolve_activities(activity_rule, t, inp, curr_activities, prev_activities, t
                                                       activity_rule, past, perturbation, memoize, memoization_table,
                                                       neighbourhood_map, memoization_key)
 
+        # a node's rule may remove nodes other than itself
+        for node_label in removed_nodes:
+            curr_activities.pop(node_label, None)
+
         if added_nodes:
             for state, outgoing_links, node_label in added_nodes:
                 curr_activities[node_label] = check_np(state)
@@ -361,7 +365,7 @@ def evolve_topology(topology_rule, t, activities, prev_network, trajectory, copy
         network = network.copy()
 
         # adjust connectivity map according to node deletions and insertions
-        for node_label in removed_nodes:
+        for node_label in dict.fromkeys(removed_nodes):
             network.remove_node(node_label)
 
         for activity, outgoing_links, node_label in added_nodes:
-- 
2.43.0


From 871f4a59a957a01fc274b0923d2653077b373cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:33 +0000
Subject: [PATCH 06/26] fix: keep empty activities and empty networks instead
 of reporting them as missing

---
 netomaton/evolution.py | 2 +-
 netomaton/state.py     | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/netomaton/evolution.py b/netomaton/evolution.py
index 1240f2d..37206bb 100644
--- a/netomaton/evolution.py
+++ b/netomaton/evolution.py
@@ -377,7 +377,7 @@ def evolve_topology(topology_rule, t, activities, prev_network, trajectory, copy
         if copy_network:
             network = network.copy()
         network = topology_rule(TopologyContext(network, activities, t))
-        if not network:
+        if network is None:
             raise Exception("topology rule must return a network")
 
     if persist_network:
diff --git a/netomaton/state.py b/netomaton/state.py
index 5a4723e..56b6e6c 100644
--- a/netomaton/state.py
+++ b/netomaton/state.py
@@ -303,22 +303,22 @@ class State:
 
     @property
     def activities(self):
-        if self._activities:
+        if self._activities is not None:
             return _Compressor.decompress(self._activities) if self._compression else self._activities
 
     @activities.setter
     def activities(self, a):
-        if a:
+        if a is not None:
             self._activities = _Compressor.compress(a) if self._compression else a
 
     @property
     def network(self):
-        if self._network:
+        if self._network is not None:
             return Network.decompress(self._network) if self._compression else self._network
 
     @network.setter
     def network(self, n):
-        if n:
+        if n is not None:
             self._network = n.compress() if self._compression else n
 
 
-- 
2.43.0


From 9290f40962170790913625602af89ca81a5473e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:58 +0000
Subject: [PATCH 07/26] fix: copying and compressing keep tuples as tuples and
 accept NumPy scalars

---
 netomaton/state.py | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/netomaton/state.py b/netomaton/state.py
index 56b6e6c..b8ff560 100644
--- a/netomaton/state.py
+++ b/netomaton/state.py
@@ -1,6 +1,7 @@
 import msgpack
 import gc
 import networkx as nx
+import numpy as np
 
 
 class Network:
@@ -323,6 +324,9 @@ class State:
 
 
 class _Compressor:
+    # the msgpack extension type code of a tuple, which msgpack would otherwise turn into a list
+    _TUPLE = 1
+
     def __init__(self):
         pass
 
@@ -335,7 +339,7 @@ class _Compressor:
 
         :return: packed bytes
         """
-        return msgpack.packb(obj)
+        return msgpack.packb(obj, default=_Compressor._pack_other, strict_types=True)
 
     @staticmethod
     def decompress(packed):
@@ -347,6 +351,23 @@ class _Compressor:
         :return: a decompressed object
         """
         gc.disable()
-        d = msgpack.unpackb(packed, strict_map_key=False)
+        d = msgpack.unpackb(packed, strict_map_key=False, ext_hook=_Compressor._unpack_ext)
         gc.enable()
-        return d
\ No newline at end of file
+        return d
+
+    @staticmethod
+    def _pack_other(obj):
+        if isinstance(obj, np.generic):
+            return obj.item()
+        if isinstance(obj, tuple):
+            return msgpack.ExtType(_Compressor._TUPLE, _Compressor.compress(list(obj)))
+        for base in (dict, list, str, bytes, int, float):
+            if isinstance(obj, base):
+                return base(obj)
+        raise TypeError("can not serialize '%s' object" % type(obj).__name__)
+
+    @staticmethod
+    def _unpack_ext(code, data):
+        if code == _Compressor._TUPLE:
+            return tuple(_Compressor.decompress(data))
+        return msgpack.ExtType(code, data)
-- 
2.43.0


From 9f3a56139d028fa31a2d3929c898a6c77ccd02fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:58 +0000
Subject: [PATCH 08/26] fix: keep the order of the relations of a configuration
 with ten or more relations

---
 netomaton/wolfram_physics_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/netomaton/wolfram_physics_model.py b/netomaton/wolfram_physics_model.py
index 36be62e..65e5c1b 100644
--- a/netomaton/wolfram_physics_model.py
+++ b/netomaton/wolfram_physics_model.py
@@ -70,7 +70,8 @@ class WolframPhysicsModel:
                 merged_hyperedges[edge_label] = tuple(merged)
 
         edges.update(merged_hyperedges)
-        config = [edges[label] for label in sorted(edges)]  # sort so that we can preserve the order of the relations
+        by_number = lambda label: (len(label), label)  # the labels are relation numbers, so "10" comes after "2"
+        config = [edges[label] for label in sorted(edges, key=by_number)]  # sort so that we can preserve the order of the relations
 
         return config
 
-- 
2.43.0


From 88a309617dc61300da57ff1cb4963af4012bed0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:51 +0000
Subject: [PATCH 09/26] fix: from_adjacency_matrix keeps the nodes without any
 connections

---
 netomaton/topology/networks.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/netomaton/topology/networks.py b/netomaton/topology/networks.py
index 2410044..d56244e 100644
--- a/netomaton/topology/networks.py
+++ b/netomaton/topology/networks.py
@@ -88,6 +88,8 @@ def from_adjacency_matrix(adj):
         for j, val in enumerate(row):
             if val != 0:
                 network.add_edge(i, j, weight=val)
+    for i in range(len(adj)):
+        network.add_node(i)  # a node without any connections is a node, too
     return network
 
 
-- 
2.43.0


From 8b68b7244e28f254ba1a8836a968279ec9127c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:51 +0000
Subject: [PATCH 10/26] fix: lattice connects each node to itself exactly when
 self_loops is set, and keeps a lone node

---
 netomaton/topology/networks.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/netomaton/topology/networks.py b/netomaton/topology/networks.py
index d56244e..d683d91 100644
--- a/netomaton/topology/networks.py
+++ b/netomaton/topology/networks.py
@@ -61,10 +61,14 @@ def lattice(dim, periodic=False, self_loops=False, first_label=0):
     G = nx.convert_node_labels_to_integers(G, first_label=first_label)
     network = ntm.Network()
     for edge in G.edges:
-        if edge[0] == edge[1] and not self_loops:
+        if edge[0] == edge[1]:
             continue
         network.add_edge(edge[1], edge[0])
         network.add_edge(edge[0], edge[1])
+    for node in G.nodes:
+        network.add_node(node)
+        if self_loops:
+            network.add_edge(node, node)
     return network
 
 
-- 
2.43.0


From d28fe027b86ebb53764e72e2df1bafdafcdc224b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:59 +0000
Subject: [PATCH 11/26] fix: AsynchronousRule shuffles the given update order
 instead of replacing it with 0..n-1

---
 netomaton/asynchronous_rule.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/netomaton/asynchronous_rule.py b/netomaton/asynchronous_rule.py
index 2016ae7..1c062e4 100644
--- a/netomaton/asynchronous_rule.py
+++ b/netomaton/asynchronous_rule.py
@@ -23,6 +23,7 @@ class AsynchronousRule:
         if update_order is None and n is None:
             raise Exception("either update_order or n must be specified")
         self._activity_rule = activity_rule
+        self._labels = list(update_order) if update_order is not None else list(range(n))
         if update_order is not None:
             self._update_order = update_order
         else:
@@ -34,7 +35,7 @@ class AsynchronousRule:
     def _shuffle_update_order(self, n):
         self._update_order = np.arange(n)
         np.random.shuffle(self._update_order)
-        self._update_order = self._update_order.tolist()
+        self._update_order = [self._labels[i] for i in self._update_order]
 
     def __call__(self, ctx):
         if ctx.node_label in self._update_order:
-- 
2.43.0


From 7fa10e42c6cefaf5b1b83b0ec9cfa080357418b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:59 +0000
Subject: [PATCH 12/26] fix: average_mutual_information compares the temporal
 distance with the number of timesteps

---
 netomaton/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netomaton/analysis.py b/netomaton/analysis.py
index f8b2430..4f84561 100644
--- a/netomaton/analysis.py
+++ b/netomaton/analysis.py
@@ -105,7 +105,7 @@ def average_mutual_information(trajectory_or_activities, temporal_distance=1):
     else:
         activities = trajectory_or_activities
     num_cols = len(activities[0])
-    if not (0 < temporal_distance < num_cols):
+    if not (0 < temporal_distance < len(activities)):
         raise Exception("the temporal distance must be greater than 0 and less than the number of time steps")
     mutual_informations = []
     for i in range(0, num_cols):
-- 
2.43.0


From b7f3e37adb836e390c1d697657e77d38682038e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:07 +0000
Subject: [PATCH 13/26] fix: the average entropies treat a multi-character
 activity as a single symbol

---
 netomaton/analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/netomaton/analysis.py b/netomaton/analysis.py
index 4f84561..1a39fc0 100644
--- a/netomaton/analysis.py
+++ b/netomaton/analysis.py
@@ -40,7 +40,7 @@ def average_node_entropy(trajectory_or_activities):
     num_cols = len(activities[0])
     entropies = []
     for i in range(0, num_cols):
-        node_states_over_time = ''.join([str(x) for x in [y[i] for y in activities]])
+        node_states_over_time = [str(x) for x in [y[i] for y in activities]]
         entropy = shannon_entropy(node_states_over_time)
         entropies.append(entropy)
     return np.mean(entropies)
@@ -109,7 +109,7 @@ def average_mutual_information(trajectory_or_activities, temporal_distance=1):
         raise Exception("the temporal distance must be greater than 0 and less than the number of time steps")
     mutual_informations = []
     for i in range(0, num_cols):
-        node_states_over_time = ''.join([str(x) for x in [y[i] for y in activities]])
+        node_states_over_time = [str(x) for x in [y[i] for y in activities]]
         mi = mutual_information(node_states_over_time[:-temporal_distance], node_states_over_time[temporal_distance:])
         mutual_informations.append(mi)
     return np.mean(mutual_informations)
-- 
2.43.0


From 9dec6d403715e28a7186c2f05e2eacfcfda10243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:07 +0000
Subject: [PATCH 14/26] fix: table_rule finds the states of random_rule_table's
 tables for more than 10 cell states

---
 netomaton/rule_tables.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/netomaton/rule_tables.py b/netomaton/rule_tables.py
index a1ae947..aed23e3 100644
--- a/netomaton/rule_tables.py
+++ b/netomaton/rule_tables.py
@@ -15,6 +15,10 @@ def table_rule(table):
     """
     def _rule(ctx):
         state_repr = ''.join(str(x) for x in ctx.neighbourhood_activities)
+        if not state_repr in table:
+            # the tables for more than 10 states use the digits of base k, as random_rule_table does (e.g. 'A' for 10)
+            state_repr = ''.join(np.base_repr(x, 36) if x in range(10, 36) else str(x)
+                                 for x in ctx.neighbourhood_activities)
         if not state_repr in table:
             raise Exception("could not find state '%s' in table" % state_repr)
         return table[state_repr]
-- 
2.43.0


From 1161076a9b3af94daaf69afb5eeb1797911987fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:07 +0000
Subject: [PATCH 15/26] fix: FungalGrowthModel uses the seed 0

---
 netomaton/fungal_growth_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netomaton/fungal_growth_model.py b/netomaton/fungal_growth_model.py
index c1adeb7..5f7e1b9 100644
--- a/netomaton/fungal_growth_model.py
+++ b/netomaton/fungal_growth_model.py
@@ -29,7 +29,7 @@ class FungalGrowthModel:
         """
         self._R_E = R_E
         self._d = 4  # the maximum node degree allowable
-        if seed:
+        if seed is not None:
             np.random.seed(seed)
         self._verbose = verbose
 
-- 
2.43.0


From a935c11c8aff622e79acdf8e0516e0b8fa3d8660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:21 +0000
Subject: [PATCH 16/26] fix: past activities are available to the rule when the
 activities are not persisted

---
 netomaton/evolution.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/netomaton/evolution.py b/netomaton/evolution.py
index 37206bb..dd92886 100644
--- a/netomaton/evolution.py
+++ b/netomaton/evolution.py
@@ -176,6 +176,9 @@ def evolve(network, initial_conditions=None, activity_rule=None, timesteps=None,
     # key is the timestep
     trajectory = {0: State(activities=initial_conditions, network=network, compression=compression)}
 
+    # the recent activities that the past activities refer to, whether or not they are persisted in the trajectory
+    history = {0: initial_conditions}
+
     prev_activities = initial_conditions
     prev_network = network
 
@@ -194,7 +197,7 @@ def evolve(network, initial_conditions=None, activity_rule=None, timesteps=None,
         if inp is None:
             break
 
-        past = _get_past_activities(past_conditions, trajectory, t)
+        past = _get_past_activities(past_conditions, history, t)
         curr_activities = {}
         trajectory[t] = State(compression=compression)
 
@@ -226,6 +229,10 @@ def evolve(network, initial_conditions=None, activity_rule=None, timesteps=None,
         else:
             raise Exception("unsupported update_order: %s" % update_order)
 
+        if past_conditions:
+            history[t] = curr_activities
+            history.pop(t - 1 - len(past_conditions), None)
+
         prev_activities = curr_activities
         prev_network = curr_network
 
@@ -386,13 +393,13 @@ def evolve_topology(topology_rule, t, activities, prev_network, trajectory, copy
     return network
 
 
-def _get_past_activities(past_conditions, trajectory, t):
+def _get_past_activities(past_conditions, history, t):
     if past_conditions and len(past_conditions) > 0:
         past_activities = [None]*len(past_conditions)
         last_t = t - 1
         for i in range(len(past_conditions)-1, -1, -1):
 
-            curr_past_cond = past_conditions[last_t-1] if last_t < 1 else trajectory[last_t-1].activities
+            curr_past_cond = past_conditions[last_t-1] if last_t < 1 else history[last_t-1]
             if not isinstance(curr_past_cond, dict) and isinstance(curr_past_cond, (list, np.ndarray)):
                 curr_past_cond = {i: v for i, v in enumerate(curr_past_cond)}
 
-- 
2.43.0


From fbf10870f40c85ce4f6275608bd83fd761dcc2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:21 +0000
Subject: [PATCH 17/26] fix: evolve terminates when timesteps is less than one

---
 netomaton/evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netomaton/evolution.py b/netomaton/evolution.py
index dd92886..4777eff 100644
--- a/netomaton/evolution.py
+++ b/netomaton/evolution.py
@@ -437,7 +437,7 @@ class _TimestepInputFunction:
         self._num_steps = num_steps
 
     def __call__(self, t, activities, network):
-        if t == self._num_steps:
+        if t >= self._num_steps:
             return None
         return "__timestep__"
 
-- 
2.43.0


From 5744f855271e2b36e83d7ea1fe5478bb78c1c317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:57 +0000
Subject: [PATCH 18/26] fix: the Wolfram Physics Model finds every match of a
 rule that rewrites several relations

---
 netomaton/wolfram_physics_model.py | 49 +++++++++++-------------------
 1 file changed, 18 insertions(+), 31 deletions(-)

diff --git a/netomaton/wolfram_physics_model.py b/netomaton/wolfram_physics_model.py
index 65e5c1b..8fd40f0 100644
--- a/netomaton/wolfram_physics_model.py
+++ b/netomaton/wolfram_physics_model.py
@@ -79,42 +79,18 @@ class WolframPhysicsModel:
         relations = self.network_to_config(cctx.network)
 
         matched_relations = []
-        unmatched_relations = []
-        partially_matched = []
 
-        # keep scanning until there is an iteration where no matches are produced
-        #  reset the symbol bindings during each scan
-        scanning = True
-        while scanning:
-
-            # bind nodes to symbols
-            symbol_bindings = {}
-
-            for rule in self.rules["in"]:
-
-                match_found = False
-
-                for relation in list(relations):  # iterate over a copy of the list so that we can remove from the original
-                    if self._matches(rule, relation, symbol_bindings):
-                       partially_matched.append(relation)
-                       relations.remove(relation)
-                       match_found = True
-                       break
-
-                if len(partially_matched) == len(self.rules["in"]):
-                    matched_relations.append((partially_matched, symbol_bindings))
-                    partially_matched = []
-
-                scanning = match_found
-
-            # move all partially matched to unmatched
-            unmatched_relations.extend(partially_matched)
-            partially_matched = []
+        # keep matching until there is no match left
+        match = self._find_match(relations, 0, {})
+        while match is not None:
+            indices, symbol_bindings = match
+            matched_relations.append(([relations[i] for i in indices], symbol_bindings))
+            relations = [relation for i, relation in enumerate(relations) if i not in indices]
+            match = self._find_match(relations, 0, {})
 
         new_config = []
         # add the relations that did not match the rules
         new_config.extend(relations)
-        new_config.extend(unmatched_relations)
         # add the new relations
         for matched, bindings in matched_relations:
             for rule_out in self.rules["out"]:
@@ -130,6 +106,17 @@ class WolframPhysicsModel:
 
         return self.network
 
+    def _find_match(self, relations, rule_index, symbol_bindings, indices=()):
+        if rule_index == len(self.rules["in"]):
+            return indices, symbol_bindings
+        for i, relation in enumerate(relations):
+            bindings = dict(symbol_bindings)
+            if i not in indices and self._matches(self.rules["in"][rule_index], relation, bindings):
+                match = self._find_match(relations, rule_index + 1, bindings, indices + (i,))
+                if match is not None:
+                    return match
+        return None
+
     def _matches(self, rule, relation, symbol_bindings):
         if len(rule) != len(relation):
             #  rule does not match this relation
-- 
2.43.0


From 489f20e57bfa00dce78e2201c6beeee858d1e25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:55 +0000
Subject: [PATCH 19/26] fix: plot_network and animate_network pass their axes
 to NetworkX, which can't find them itself with Matplotlib >= 3.6

---
 netomaton/utils.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/netomaton/utils.py b/netomaton/utils.py
index cf8c02d..8b4cda4 100644
--- a/netomaton/utils.py
+++ b/netomaton/utils.py
@@ -162,11 +162,11 @@ def _reshape_for_animation(activities, shape):
 def plot_network(network, layout="shell", with_labels=True, node_color="#1f78b4", node_size=300):
     G = network.to_networkx()
     if layout == "shell":
-        nx.draw_shell(G, with_labels=with_labels, node_color=node_color, node_size=node_size)
+        nx.draw_shell(G, with_labels=with_labels, node_color=node_color, node_size=node_size, ax=plt.gca())
     elif layout == "spring":
-        nx.draw_spring(G, with_labels=with_labels, node_color=node_color, node_size=node_size)
+        nx.draw_spring(G, with_labels=with_labels, node_color=node_color, node_size=node_size, ax=plt.gca())
     elif isinstance(layout, dict):
-        nx.draw(G, pos=layout, with_labels=with_labels, node_color=node_color, node_size=node_size)
+        nx.draw(G, pos=layout, with_labels=with_labels, node_color=node_color, node_size=node_size, ax=plt.gca())
     else:
         raise Exception("unsupported layout: %s" % layout)
     plt.show()
@@ -196,15 +196,15 @@ def animate_network(trajectory, save=False, interval=50, dpi=80, layout="shell",
         state_layout = layout[i] if type(layout) == list or type(layout) == tuple else layout
 
         if state_layout == "shell":
-            nx.draw_shell(G, with_labels=with_labels, node_color=color, node_size=node_size, arrows=with_arrows)
+            nx.draw_shell(G, with_labels=with_labels, node_color=color, node_size=node_size, arrows=with_arrows, ax=ax)
         elif state_layout == "spring":
-            nx.draw_spring(G, with_labels=with_labels, node_color=color, node_size=node_size, arrows=with_arrows)
+            nx.draw_spring(G, with_labels=with_labels, node_color=color, node_size=node_size, arrows=with_arrows, ax=ax)
         elif state_layout == "planar":
-            nx.draw_planar(G, with_labels=with_labels, node_color=color, node_size=node_size, arrows=with_arrows)
+            nx.draw_planar(G, with_labels=with_labels, node_color=color, node_size=node_size, arrows=with_arrows, ax=ax)
         elif state_layout == "kamada-kawai":
-            nx.draw_kamada_kawai(G, with_labels=with_labels, node_color=color, node_size=node_size, arrows=with_arrows)
+            nx.draw_kamada_kawai(G, with_labels=with_labels, node_color=color, node_size=node_size, arrows=with_arrows, ax=ax)
         elif isinstance(state_layout, dict):
-            nx.draw(G, pos=state_layout, with_labels=with_labels, node_color=color, node_size=node_size, arrows=with_arrows)
+            nx.draw(G, pos=state_layout, with_labels=with_labels, node_color=color, node_size=node_size, arrows=with_arrows, ax=ax)
         else:
             raise Exception("unsupported layout: %s" % state_layout)
 
-- 
2.43.0


From 8dadda98584cd7ac3cf080aeaf8d90ff0fc0d219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:24 +0000
Subject: [PATCH 20/26] fix: animate_hex colors its cells by the given limits

---
 netomaton/hexplot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/netomaton/hexplot.py b/netomaton/hexplot.py
index 3a54535..9306e37 100644
--- a/netomaton/hexplot.py
+++ b/netomaton/hexplot.py
@@ -77,6 +77,7 @@ def animate_hex(trajectory, title='', shape=None, save=False, interval=50, color
         patches.append(hex)
 
     p = PatchCollection(patches, match_original=True, cmap=m.get_cmap())
+    p.set_clim(vmin, vmax)
     ax.add_collection(p)
 
     i = {'index': 0}
-- 
2.43.0


From 3d3fcb7ec75e42c4684fb948ee7d2cb07a79a33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:26 +0000
Subject: [PATCH 21/26] fix: to_networkx keeps an edge attribute named key, and
 parallel edges with the same one

---
 netomaton/state.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/netomaton/state.py b/netomaton/state.py
index b8ff560..7964af1 100644
--- a/netomaton/state.py
+++ b/netomaton/state.py
@@ -210,8 +210,7 @@ class Network:
                 if key not in self._new_node():
                     atts[key] = self._network[node][key]
             G.add_node(node, **atts)
-        for i, j, data in self.edges:
-            G.add_edge(i, j, **data)
+        G.add_edges_from(self.edges)
         return G
 
     def to_adjacency_matrix(self, nodelist=None, sum_multiedges=True, weight="weight"):
-- 
2.43.0


From a6d3320d0c114e9a3e79b2c1cbb57bee62136053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:26 +0000
Subject: [PATCH 22/26] fix: from_networkx accepts attributes with the names of
 the parameters of add_node and add_edge

---
 netomaton/state.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/netomaton/state.py b/netomaton/state.py
index 7964af1..5962bc1 100644
--- a/netomaton/state.py
+++ b/netomaton/state.py
@@ -192,9 +192,11 @@ class Network:
         """
         network = Network()
         for node in G.nodes(data=True):
-            network.add_node(node[0], **node[1])
+            network.add_node(node[0])
+            network[node[0]].update(node[1])
         for edge in G.edges(data=True):
-            network.add_edge(edge[0], edge[1], **edge[2])
+            network.add_edge(edge[0], edge[1])
+            network.edge(edge[0], edge[1])[-1].update(edge[2])
         return network
 
     def to_networkx(self):
-- 
2.43.0


From 7f9017478a8bb24dddd574e5e0a7c7835010867d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:26 +0000
Subject: [PATCH 23/26] fix: majority_rule returns one of the tied states as it
 is, whatever their types

---
 netomaton/rules/activity_rule.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/netomaton/rules/activity_rule.py b/netomaton/rules/activity_rule.py
index b75d0e7..7333f2a 100644
--- a/netomaton/rules/activity_rule.py
+++ b/netomaton/rules/activity_rule.py
@@ -46,7 +46,8 @@ def majority_rule(ctx):
     if len(most_frequent) == 1:
         return most_frequent[0]
     # there is a tie, and there is no single most common element
-    return np.random.choice([a for a in ctx.neighbourhood_activities if counts[a] == max_count])
+    tied = [a for a in ctx.neighbourhood_activities if counts[a] == max_count]
+    return tied[np.random.randint(len(tied))]
 
 
 def bits_to_int(bits):
-- 
2.43.0


From c233ace060b395872c3c47c635563e5f17c0c7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:01 +0000
Subject: [PATCH 24/26] fix: to_networkx accepts node attributes of any name

---
 netomaton/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netomaton/state.py b/netomaton/state.py
index 5962bc1..4d3d4ae 100644
--- a/netomaton/state.py
+++ b/netomaton/state.py
@@ -211,7 +211,7 @@ class Network:
             for key in self._network[node]:
                 if key not in self._new_node():
                     atts[key] = self._network[node][key]
-            G.add_node(node, **atts)
+            G.add_nodes_from([(node, atts)])
         G.add_edges_from(self.edges)
         return G
 
-- 
2.43.0


From 146851d2d00f7cb8d636330ab6f905114fe2d8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:58 +0000
Subject: [PATCH 25/26] fix: FungalGrowthModel accepts a NumPy vector as its
 resource layer

---
 netomaton/fungal_growth_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netomaton/fungal_growth_model.py b/netomaton/fungal_growth_model.py
index 5f7e1b9..79b43d3 100644
--- a/netomaton/fungal_growth_model.py
+++ b/netomaton/fungal_growth_model.py
@@ -42,7 +42,7 @@ class FungalGrowthModel:
         self._initial_network = ntm.Network(self._num_agents)
 
         # a boolean matrix (flattened to a vector) representing the availability of resource to an agent
-        if resource_layer:
+        if resource_layer is not None and len(resource_layer) > 0:
             assert len(resource_layer) == self._num_agents, \
                 "the size of the resource layer must match the number of agents"
             self._resource_layer = resource_layer
-- 
2.43.0


From 9170fad717b03c327e0d0c495cc2802fa79084d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:20 +0000
Subject: [PATCH 26/26] fix: HeadCentricTuringMachine with symbols that are
 indexable, such as longer strings

---
 netomaton/turing_machine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/netomaton/turing_machine.py b/netomaton/turing_machine.py
index 9d9e20d..5a376a6 100644
--- a/netomaton/turing_machine.py
+++ b/netomaton/turing_machine.py
@@ -119,7 +119,8 @@ class HeadCentricTuringMachine(TuringMachine):
         if self._halt:
             return None
 
-        return self._tape_history[-1][self._head_pos]
+        # the input of the single node, in a list, since the symbol itself may be indexable
+        return [self._tape_history[-1][self._head_pos]]
 
     def activities_for_plotting(self, trajectory):
         activities = get_activities_over_time_as_list(trajectory)
-- 
2.43.0

