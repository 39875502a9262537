From df9a0e56829321bf3416ec9c77765dad0e1ee9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:37 +0000
Subject: [PATCH 01/37] fix: relabel GKP states at every application of CV
 noise

The GKP indices of the previous application counted as used, so that from the
second trial on no qubit was sampled as a GKP state (its noise was zero).
---
 flamingpy/noise/cv.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flamingpy/noise/cv.py b/flamingpy/noise/cv.py
index 1103b05..67a60e5 100644
--- a/flamingpy/noise/cv.py
+++ b/flamingpy/noise/cv.py
@@ -307,7 +307,9 @@ class CVLayer:
         """Associate all indices not in self.states with GKP states."""
         used_inds = np.empty(0, dtype=int)
         for psi in self.states:
-            used_inds = np.concatenate([used_inds, self.states[psi]])
+            # GKP indices from a previous application of noise don't count.
+            if psi != "GKP":
+                used_inds = np.concatenate([used_inds, self.states[psi]])
         remaining_inds = list(set(range(self._N)) - set(used_inds))
         self.states["GKP"] = np.array(remaining_inds, dtype=int)
 
-- 
2.43.0


From 470ead85ca6762dfa1f8325b47f8e85e6d5abd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:37 +0000
Subject: [PATCH 02/37] fix: accept lists of indices as CV states

The documented form {'state': []} raised a TypeError when sampling, and the
caller's dictionary was modified.
---
 flamingpy/noise/cv.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flamingpy/noise/cv.py b/flamingpy/noise/cv.py
index 67a60e5..2e7013f 100644
--- a/flamingpy/noise/cv.py
+++ b/flamingpy/noise/cv.py
@@ -92,7 +92,9 @@ class CVLayer:
         # Set some noise model parameters.
         self.delta = delta
         self.p_swap = kwargs.get("p_swap")
-        self.states = supplied_states or {"p": np.empty(0, dtype=int)}
+        self.states = {"p": np.empty(0, dtype=int)}
+        if supplied_states:
+            self.states = {psi: np.array(inds, dtype=int) for psi, inds in supplied_states.items()}
         self._sampling_order = kwargs.get("sampling_order") or "initial"
         self._translator = kwargs.get("translator") or GKP_binner
 
-- 
2.43.0


From 4c3d3fbbc1f4351c9ce30c0108559d482958d48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:37 +0000
Subject: [PATCH 03/37] fix: measure the requested modes in the two-step
 sampling order

Means of all modes were combined with deviations of the measured modes (a shape
mismatch), and perfect qubits were only recognised in index arrays.
---
 flamingpy/noise/cv.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/flamingpy/noise/cv.py b/flamingpy/noise/cv.py
index 2e7013f..d943290 100644
--- a/flamingpy/noise/cv.py
+++ b/flamingpy/noise/cv.py
@@ -189,6 +189,9 @@ class CVLayer:
         # Determine which means and covs to use for the probability distribution
         if updated_means is None:
             means = self._means_sampler(propagate=propagate, rng=rng)
+            # In the two-step order, only the measured quadratures are sampled.
+            if self._sampling_order == "two-step":
+                means = (means[:N] if quad == "q" else means[N:])[inds]
         else:
             if quad == "q":
                 means = updated_means[:N][inds]
@@ -297,11 +300,7 @@ class CVLayer:
             N_inds = len(inds)
             covs = np.full(N_inds, (self.delta / 2) ** 0.5, dtype=np.float32)
             if self._perfect_inds:
-                inds_to_0 = set(inds).intersection(self._perfect_inds)
-                ind_arr = np.empty(len(inds_to_0), dtype=np.int64)
-                for i, perfect_ind in enumerate(inds_to_0):
-                    ind_arr[i] = (inds == perfect_ind).nonzero()[0][0]
-                covs[ind_arr] = 0
+                covs[np.isin(inds, self._perfect_inds)] = 0
 
         return covs
 
-- 
2.43.0


From 5252592a4125a3b3aa878c5713337de6b54cf76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:37 +0000
Subject: [PATCH 04/37] fix: use the beamsplitter network supplied to
 CVMacroLayer

---
 flamingpy/noise/cv.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/flamingpy/noise/cv.py b/flamingpy/noise/cv.py
index d943290..838b5c1 100644
--- a/flamingpy/noise/cv.py
+++ b/flamingpy/noise/cv.py
@@ -377,8 +377,7 @@ class CVMacroLayer(CVLayer):
         # Instantiate the CVLayer parent class with the right noise model.
         super().__init__(macro_graph, delta=delta, sampling_order="two-step", **kwargs)
         self.reduced_graph = code.graph
-        if bs_network is None:
-            self.bs_network = splitter_symp()
+        self.bs_network = splitter_symp() if bs_network is None else bs_network
 
     def apply_noise(self, rng=default_rng()):
         """Reduce the macronode code lattice to the canonical code lattice.
-- 
2.43.0


From 95d76a6787d8a25eab3ef91b73d6c5ea87d45e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:37 +0000
Subject: [PATCH 05/37] fix: adjacency matrix of an indexed EGraph after
 removing a qubit

---
 flamingpy/codes/graphs/egraph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flamingpy/codes/graphs/egraph.py b/flamingpy/codes/graphs/egraph.py
index cd9b80e..4078b22 100644
--- a/flamingpy/codes/graphs/egraph.py
+++ b/flamingpy/codes/graphs/egraph.py
@@ -168,7 +168,8 @@ class EGraph(nx.Graph):
             return self.adj_mat
         if self.to_points is None:
             self.index_generator()
-        sorted_nodes = [self.to_points[i] for i in range(self.order())]
+        # Indices may have gaps if qubits have been removed.
+        sorted_nodes = [self.to_points[i] for i in sorted(self.to_points)]
         # TODO: Reconsider data type for more intricate weights.
         if sparse:
             adj = nx.to_scipy_sparse_array(self, nodelist=sorted_nodes, dtype=np.int8)
-- 
2.43.0


From 2290ae069e4b7ad13098baa2ded02bdedb536c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:37 +0000
Subject: [PATCH 06/37] fix: index qubits outside macronodes in a macronized
 EGraph

---
 flamingpy/codes/graphs/egraph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flamingpy/codes/graphs/egraph.py b/flamingpy/codes/graphs/egraph.py
index 4078b22..aabc74a 100644
--- a/flamingpy/codes/graphs/egraph.py
+++ b/flamingpy/codes/graphs/egraph.py
@@ -149,6 +149,8 @@ class EGraph(nx.Graph):
             points = []
             for vertex in sorted_macro:
                 points += self.macro_to_micro[vertex]
+            # Qubits that do not belong to any macronode come last.
+            points += sorted(set(self.nodes) - set(points))
             ind_dict = {points[i]: i for i in range(N)}
         self.to_indices = ind_dict
         self.to_points = {index: point for point, index in ind_dict.items()}
-- 
2.43.0


From 99c30a5ecd4e08cf49593d67594634e84288f31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:37 +0000
Subject: [PATCH 07/37] fix: return the adjacency matrix in the requested form

A matrix generated earlier in the other form was returned, which made e.g.
is_lc_equivalent raise after a sparse request.
---
 flamingpy/codes/graphs/egraph.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/flamingpy/codes/graphs/egraph.py b/flamingpy/codes/graphs/egraph.py
index aabc74a..3a5ea98 100644
--- a/flamingpy/codes/graphs/egraph.py
+++ b/flamingpy/codes/graphs/egraph.py
@@ -19,6 +19,7 @@ from typing import Union, Optional
 import warnings
 import networkx as nx
 import numpy as np
+from scipy.sparse import csr_array
 
 from flamingpy.utils.linalg import are_lc_equivalent
 
@@ -167,6 +168,11 @@ class EGraph(nx.Graph):
         match.
         """
         if self.adj_mat is not None:
+            # Convert the matrix if it was generated in the other form.
+            if sparse and isinstance(self.adj_mat, np.ndarray):
+                self.adj_mat = csr_array(self.adj_mat)
+            elif not sparse and not isinstance(self.adj_mat, np.ndarray):
+                self.adj_mat = self.adj_mat.toarray()
             return self.adj_mat
         if self.to_points is None:
             self.index_generator()
-- 
2.43.0


From 952cddd5fe8d758d8b2753518c237bb30bf1b867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:15 +0000
Subject: [PATCH 08/37] fix: dense CZ matrix for every kind of sparse adjacency

SCZ_mat(sparse=False) returned a sparse matrix for scipy's matrix classes.
---
 flamingpy/cv/ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flamingpy/cv/ops.py b/flamingpy/cv/ops.py
index 225545a..82c16fb 100644
--- a/flamingpy/cv/ops.py
+++ b/flamingpy/cv/ops.py
@@ -30,7 +30,7 @@ def invert_permutation(p):
 
 def issparse(array):
     """Check if an array is sparse. Backwards-compatible with old SciPy versions."""
-    return isinstance(array, getattr(sp, "sparray", sp.coo_matrix))
+    return sp.issparse(array) or isinstance(array, getattr(sp, "sparray", sp.coo_matrix))
 
 
 def SCZ_mat(adj, sparse=True):
-- 
2.43.0


From c870428f4d19e69c338b0fbb7d47a64af1ff8fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:15 +0000
Subject: [PATCH 09/37] fix: conditional phase error probabilities beyond one

The numerator and denominator of Z_err_cond were truncated to different ranges,
which were not centred on the outcome: outcomes far from the origin (with
use_hom_val) and large variances gave values above one half, or even above one.
---
 flamingpy/cv/gkp.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/flamingpy/cv/gkp.py b/flamingpy/cv/gkp.py
index 4cac738..16ba3a0 100644
--- a/flamingpy/cv/gkp.py
+++ b/flamingpy/cv/gkp.py
@@ -116,17 +116,18 @@ def Z_err_cond(var, hom_val, var_num=10, replace_undefined=0, use_hom_val=False)
     # better automate summation range.
     n_max = var_num
 
-    bit, frac = GKP_binner(hom_val, return_fraction=True)
-    factor = 1 - bit if use_hom_val else 1
+    _, frac = GKP_binner(hom_val, return_fraction=True)
     val = hom_val if use_hom_val else frac
+    # The sums are taken around the bin of val, and over the same range.
+    centre = np.round((hom_val - frac) / np.sqrt(np.pi)) if use_hom_val else 0
 
     if np.isscalar(val) and np.isscalar(var):
 
         def ex_val(n):
             return np.exp(-((val - n * np.sqrt(np.pi)) ** 2) / var)
 
-        numerator = np.sum(ex_val(2 * np.arange(-n_max, n_max) + factor))
-        denominator = np.sum(ex_val(np.arange(-n_max, n_max)))
+        numerator = np.sum(ex_val(centre + 2 * np.arange(-n_max, n_max) + 1))
+        denominator = np.sum(ex_val(centre + np.arange(-2 * n_max, 2 * n_max)))
         if denominator != 0:
             return numerator / denominator
         else:
@@ -138,8 +139,8 @@ def Z_err_cond(var, hom_val, var_num=10, replace_undefined=0, use_hom_val=False)
         def ex(z, n):
             return np.exp(-((z - n * np.sqrt(np.pi)) ** 2) / var)
 
-        numerator = np.sum([ex(val, 2 * i + factor) for i in range(-n_max, n_max)], 0)
-        denominator = np.sum([ex(val, i) for i in range(-n_max, n_max)], 0)
+        numerator = np.sum([ex(val, centre + 2 * i + 1) for i in range(-n_max, n_max)], 0)
+        denominator = np.sum([ex(val, centre + i) for i in range(-2 * n_max, 2 * n_max)], 0)
         # Dealing with 0 denonimators
         where_0 = np.where(denominator == 0)[0]
         the_rest = np.delete(np.arange(np.size(var)), where_0)
-- 
2.43.0


From 8713d9a64fd16af70d4eff954a6946272fcf0006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:15 +0000
Subject: [PATCH 10/37] fix: union-find recovery independent of memory
 addresses

The boundary vertex that absorbs the parity of a cluster was the last one in an
order derived from object hashes, so that a cluster touching both boundaries
could be decoded differently from one process to the next.
---
 flamingpy/decoders/unionfind/algos.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flamingpy/decoders/unionfind/algos.py b/flamingpy/decoders/unionfind/algos.py
index 11e568c..eca95cf 100644
--- a/flamingpy/decoders/unionfind/algos.py
+++ b/flamingpy/decoders/unionfind/algos.py
@@ -213,7 +213,9 @@ def obtain_spanning_forest(stabilizer_graph, support):
         for node_index in tree:
             node = spanning_forest_nodes[node_index]
             if isinstance(node, tuple):
-                boundary_node = node_index
+                # The choice must not depend on the order of traversal.
+                if boundary_node is None or node < spanning_forest_nodes[boundary_node]:
+                    boundary_node = node_index
                 parity_dict[node_index] = 0
             elif isinstance(node, Stabilizer):
                 parity = node.parity
-- 
2.43.0


From 71e0dbc1bc872148197b920684b522c2c749c5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:15 +0000
Subject: [PATCH 11/37] fix: peel long chains without recursion

The recursion limit was exceeded on elongated codes.
---
 flamingpy/decoders/unionfind/algos.py | 36 ++++++++++++++-------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/flamingpy/decoders/unionfind/algos.py b/flamingpy/decoders/unionfind/algos.py
index eca95cf..eaa27fd 100644
--- a/flamingpy/decoders/unionfind/algos.py
+++ b/flamingpy/decoders/unionfind/algos.py
@@ -270,23 +270,25 @@ def trim_forest(spanning_forest, leaf, parity_dict, recovery):
     Returns:
         NoneType
     """
-    edges = list(spanning_forest.out_edges(leaf))
-    if edges:
-        edge = edges[0]
-    else:
-        return
-    edge_qubit_index = spanning_forest.get_edge_data(edge[0], edge[1])["common_vertex"]
-    spanning_forest.remove_edge(edge[0], edge[1])
-    if edge[0] == leaf:
-        new_leaf = edge[1]
-    else:
-        new_leaf = edge[0]
-    if parity_dict[leaf] == 1:
-        recovery.add(edge_qubit_index)
-        parity_dict[leaf] = 0
-        parity_dict[new_leaf] ^= 1
-    if spanning_forest.degree(new_leaf) == 1:
-        trim_forest(spanning_forest, new_leaf, parity_dict, recovery)
+    while True:
+        edges = list(spanning_forest.out_edges(leaf))
+        if edges:
+            edge = edges[0]
+        else:
+            return
+        edge_qubit_index = spanning_forest.get_edge_data(edge[0], edge[1])["common_vertex"]
+        spanning_forest.remove_edge(edge[0], edge[1])
+        if edge[0] == leaf:
+            new_leaf = edge[1]
+        else:
+            new_leaf = edge[0]
+        if parity_dict[leaf] == 1:
+            recovery.add(edge_qubit_index)
+            parity_dict[leaf] = 0
+            parity_dict[new_leaf] ^= 1
+        if spanning_forest.degree(new_leaf) != 1:
+            return
+        leaf = new_leaf
 
 
 def peeling(spanning_forest, parity_dict):
-- 
2.43.0


From 7742cb6142a3de6bc72e8308def677a4886f7e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:15 +0000
Subject: [PATCH 12/37] fix: draw the stabilizer graph without removing its
 boundary nodes

With the networkx backend, drawing removed nodes from the graph of the code, and
decoding after drawing failed.
---
 flamingpy/utils/viz.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/flamingpy/utils/viz.py b/flamingpy/utils/viz.py
index b685e12..c03974f 100644
--- a/flamingpy/utils/viz.py
+++ b/flamingpy/utils/viz.py
@@ -728,11 +728,13 @@ def draw_dec_graph(graph, label_edges=False, node_labels=None, title=""):
     if not isinstance(graph.graph, nx.Graph):
         raise ValueError("The graph must be implemented with the networkx backend.")
 
-    # Remove 'low' and 'high' nodes, which are not important for visualization.
+    # Remove 'low' and 'high' nodes, which are not important for visualization
+    # (from a copy, as the graph may still be needed for decoding).
     if graph.__class__.__name__ == "NxStabilizerGraph":
-        graph.graph.remove_nodes_from({"low", "high"})
-
-    graph = graph.graph
+        graph = graph.graph.copy()
+        graph.remove_nodes_from({"low", "high"})
+    else:
+        graph = graph.graph
     layout = nx.circular_layout(graph)
 
     fig, ax = plt.subplots()
-- 
2.43.0


From 49cf1b8de5ee66f84946ce82e4a3573aeb58e07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:15 +0000
Subject: [PATCH 13/37] fix: accept lists of boundary types in RHG_graph, as
 documented

---
 flamingpy/codes/surface_code.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flamingpy/codes/surface_code.py b/flamingpy/codes/surface_code.py
index 0750d83..61b9aac 100644
--- a/flamingpy/codes/surface_code.py
+++ b/flamingpy/codes/surface_code.py
@@ -167,6 +167,7 @@ def RHG_graph(
     # Dealing with boundaries.
     if isinstance(boundaries, str):
         boundaries = str_to_bound(boundaries)
+    boundaries = np.array(boundaries)
 
     # Locations of all primal vertices.
     max_dict = {"primal": 1, "dual": 0, "periodic": 0}
-- 
2.43.0


From 25142f41873e90f44ea802b39953806774689c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:15 +0000
Subject: [PATCH 14/37] fix: keep the fractional part of weights in the
 rustworkx backends

Path weights were truncated edge by edge, so that with the default (fractional)
blueprint weights the default backend did not find a minimum-weight matching.
---
 flamingpy/codes/graphs/stabilizer_graph.py |  2 +-
 flamingpy/decoders/mwpm/matching.py        | 12 ++++++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/flamingpy/codes/graphs/stabilizer_graph.py b/flamingpy/codes/graphs/stabilizer_graph.py
index f1c4761..898f939 100644
--- a/flamingpy/codes/graphs/stabilizer_graph.py
+++ b/flamingpy/codes/graphs/stabilizer_graph.py
@@ -496,7 +496,7 @@ class RxStabilizerGraph(StabilizerGraph):
     def _path_weight(self, path):
         weight = 0
         for e in range(len(path) - 1):
-            weight += int(rx_weight_fn(self.graph.get_edge_data(path[e], path[e + 1])))
+            weight += self.graph.get_edge_data(path[e], path[e + 1])["weight"]
         return weight
 
     def _all_path_nodes(self, paths):
diff --git a/flamingpy/decoders/mwpm/matching.py b/flamingpy/decoders/mwpm/matching.py
index 15f6065..1544982 100644
--- a/flamingpy/decoders/mwpm/matching.py
+++ b/flamingpy/decoders/mwpm/matching.py
@@ -237,19 +237,23 @@ class RxEdgePayload:
         path: the nodes in the stabilizer graph along the minimum-weight-path.
     """
 
-    weight: int
+    weight: Union[int, float]
     path: List[Node]
 
 
 class RxMatchingGraph(MatchingGraph):
     """A matching graph backed by rustworkx.
 
-    The edge weights must be of type int.
+    The edge weights can be either of type int or float. The latter are
+    converted to fixed-point numbers to compute the matching.
 
     See the MatchingGraph class for more details.
     """
 
-    Weight = int
+    Weight = Union[int, float]
+
+    # Units per unit weight in the (integer) weights given to rustworkx.
+    resolution = 2**40
 
     def __init__(self, ec, code=None):
         self.graph = rx.PyGraph(multigraph=False)
@@ -287,7 +291,7 @@ class RxMatchingGraph(MatchingGraph):
         matches = rx.max_weight_matching(
             self.graph,
             max_cardinality=True,
-            weight_fn=lambda edge: -edge.weight,
+            weight_fn=lambda edge: -round(edge.weight * self.resolution),
         )
         return [(self.index_to_node[pair[0]], self.index_to_node[pair[1]]) for pair in matches]
 
-- 
2.43.0


From 69d7a3bd7c5ee07817cf30ea44ce16bd487be42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:10 +0000
Subject: [PATCH 15/37] fix: find every local Clifford equivalence

Solutions that are single basis vectors, sums of more than two vectors of a small
null space, or that combine several connected components were missed: a graph was
not even always reported equivalent to itself.
---
 flamingpy/utils/linalg.py | 83 +++++++++++++++++++--------------------
 1 file changed, 40 insertions(+), 43 deletions(-)

diff --git a/flamingpy/utils/linalg.py b/flamingpy/utils/linalg.py
index cf76e24..1cc9066 100644
--- a/flamingpy/utils/linalg.py
+++ b/flamingpy/utils/linalg.py
@@ -1,6 +1,9 @@
 """Helper functions for linear algebra used for testing LC equivalence."""
 
+import itertools as it
+
 import numpy as np
+from scipy.sparse.csgraph import connected_components
 
 
 def reduce_RREform_mod2(M, max_cols=None):
@@ -103,8 +106,10 @@ def nullspace_basis(M):
 def search_nullspace(basis):
     """Check if the nullspace satisfies the determinant constraints.
 
-     Search through sums of pairs of basis vectors of the nullspace and
-     see if any satisfy the determinant constraints. If no solution is found,
+     Search through the basis vectors of the nullspace and sums of pairs of
+     them (or all the vectors of a nullspace of dimension at most 4) and see
+     if any satisfy the determinant constraints. For the constraints of
+     connected graphs, this finds a solution if there is one. If no solution is found,
      output None. If a solution is found, return a vector specifying the local
      Clifford in the form:
 
@@ -121,42 +126,18 @@ def search_nullspace(basis):
     d = basis.shape[0]
     # number of nodes/qubits
     n = int(basis.shape[1] / 4)
-    # boolean for LC equivalence
-    equivalent = False
-    # array to store potential solutions
-    sols = []
-    # search through distinct pairs of basis vectors
-    for i in range(d):
-        for j in range(i):
-            # boolean for checking solution constraints
-            sat = True
-            # potential solution as sum (modulo 2) of basis pair
-            sol = np.vectorize(lambda x: x % 2)(np.add(basis[i], basis[j]))
-            # store potential solution
-            sols.append(sol)
-            for k in range(n):
-                # check the determinants (modulo 2)
-                det = (sol[k] * sol[k + 3 * n] + sol[k + n] * sol[k + 2 * n]) % 2
-                if det != 1:
-                    # constraints not satisfied
-                    sat = False
-                    # remove the false solution
-                    sols.pop()
-                    break
-            # if solution found, set equivalent to True
-            if sat:
-                # equivalence is satisfied
-                equivalent = sat
-                break
-        # end search loop
-        if equivalent:
-            break
+    # vectors are sums of at most two basis vectors, or of any number if there are few
+    max_terms = d if d <= 4 else 2
+    for n_terms in range(1, max_terms + 1):
+        for rows in it.combinations(range(d), n_terms):
+            # potential solution as sum (modulo 2) of basis vectors
+            sol = np.sum(basis[list(rows)], axis=0) % 2
+            # check the determinants (modulo 2)
+            a, b, c, d_block = np.reshape(sol, (4, n))
+            if np.all((a * d_block + b * c) % 2 == 1):
+                return sol.astype(int)
     # if no solution found, return None
-    if not equivalent:
-        return None
-    # if solution found, return clifford in vector form
-    solution_vector = np.array(sols[0]).astype(int)
-    return solution_vector
+    return None
 
 
 def clifford_vec_to_tensors(vec):
@@ -270,12 +251,28 @@ def are_lc_equivalent(graph1, graph2, clifford_form="tensor"):
 
     # perform algorithm to search for solution
     #
-    # construct system of constraints for two adjacency matrices G and H
-    system = lc_constraint_system(G, H)
-    # construct nullspace basis of system of constraints
-    nullspace = nullspace_basis(system)
-    # search nullspace for solution vector
-    solution_vector = search_nullspace(nullspace)
+    # local Cliffords preserve the partition into connected components
+    n_comps, labels = connected_components(G, directed=False)
+    n_comps_H, labels_H = connected_components(H, directed=False)
+    solution_vector = None
+    if n_comps == n_comps_H and np.array_equal(labels, labels_H):
+        # solve for each component, and combine the solutions
+        solution_vector = np.zeros((4, len(G)), dtype=int)
+        for comp in range(n_comps):
+            inds = np.where(labels == comp)[0]
+            block = np.ix_(inds, inds)
+            # construct system of constraints for two adjacency matrices G and H
+            system = lc_constraint_system(G[block], H[block])
+            # construct nullspace basis of system of constraints
+            nullspace = nullspace_basis(system)
+            # search nullspace for solution vector
+            solution = search_nullspace(nullspace)
+            if solution is None:
+                solution_vector = None
+                break
+            solution_vector[:, inds] = np.reshape(solution, (4, len(inds)))
+    if solution_vector is not None:
+        solution_vector = solution_vector.flatten()
 
     # if graphs are not equivalent set clifford_output to None
     if solution_vector is None:
-- 
2.43.0


From 29e794007322811c9457f425bdacaa1f36cab6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:10 +0000
Subject: [PATCH 16/37] fix: leave the EGraph unchanged if a qubit cannot be
 added

The qubit stayed in the graph if its neighbors were invalid, and unknown neighbors
were added as qubits without an index.
---
 flamingpy/codes/graphs/egraph.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/flamingpy/codes/graphs/egraph.py b/flamingpy/codes/graphs/egraph.py
index 3a5ea98..bebc9ed 100644
--- a/flamingpy/codes/graphs/egraph.py
+++ b/flamingpy/codes/graphs/egraph.py
@@ -275,13 +275,8 @@ class EGraph(nx.Graph):
                 "Cannot add a qubit to macronode because current EGraph is not macronized."
             )
 
-        # Add node
-        self.add_node(qubit)
-
-        # Update dictionaries when adding qubit
-        self._update_attributes_add_qubit(qubit, add_to_macronode)
-
-        # Update neighbors
+        # Find the neighbors before modifying the graph
+        neighborhood = []
         if neighbors is not None:
             if len(neighbors) != 0:
                 if isinstance(neighbors[0], int):
@@ -289,6 +284,8 @@ class EGraph(nx.Graph):
                         self.index_generator()
                     neighborhood = [(self.to_points[ind], qubit) for ind in neighbors]
                 elif isinstance(neighbors[0], tuple):
+                    if not all(tup in self for tup in neighbors):
+                        raise ValueError("The neighbors should be qubits of the EGraph.")
                     neighborhood = [(tup, qubit) for tup in neighbors]
                 else:
                     raise TypeError(
@@ -297,7 +294,14 @@ class EGraph(nx.Graph):
                         "macro is False."
                     )
 
-                self.add_edges_from(neighborhood)
+        # Add node
+        self.add_node(qubit)
+
+        # Update dictionaries when adding qubit
+        self._update_attributes_add_qubit(qubit, add_to_macronode)
+
+        # Update neighbors
+        self.add_edges_from(neighborhood)
 
         self.adj_mat = None
 
-- 
2.43.0


From 41e6bcb231d39f9df81e5d397537a0d7a53f3fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:10 +0000
Subject: [PATCH 17/37] fix: complete and well-formed records in the simulation
 results file

Tuple values (e.g. the distance of an elongated code) raised a TypeError after the
simulation and left a partial row, values with commas shifted the columns, the
default folder was not created, and weight options could not be left out.
---
 flamingpy/simulations.py | 63 ++++++++++++++--------------------------
 1 file changed, 21 insertions(+), 42 deletions(-)

diff --git a/flamingpy/simulations.py b/flamingpy/simulations.py
index 30852a0..a27e8c1 100644
--- a/flamingpy/simulations.py
+++ b/flamingpy/simulations.py
@@ -16,6 +16,9 @@
 # pylint: disable=wrong-import-position,consider-using-with,unused-import
 
 import argparse
+import csv
+import io
+import os
 import sys
 import warnings
 import logging
@@ -88,7 +91,7 @@ def ec_monte_carlo(
     Returns:
         errors (integer): the number of errors.
     """
-    weight_opts = decoder_args["weight_opts"]
+    weight_opts = decoder_args.get("weight_opts")
 
     successes = np.zeros(1)
     local_successes = np.zeros(1)
@@ -151,48 +154,24 @@ def run_ec_simulation(
     if mpi_rank == 0:
         # Store results in the provided file-path or by default in
         # a .sims_data directory in the file simulations_results.csv.
-        file_name = fname or "./flamingpy/.sims_data/sims_results.csv"
-        # Create a CSV file if it doesn't already exist.
-        try:
-            file = open(file_name, "x", newline="", encoding="utf8")
-            file.write("code,")
-            for key in code_args:
-                file.write("%s," % (key))
-            file.write("noise,")
-            for key in noise_args:
-                file.write("%s," % (key))
-            file.write("decoder,")
-            for key in decoder_args:
-                file.write("%s," % (key))
-            file.write("errors,trials,current_time,simulation_time,mpi_size\n")
-        # Open the file for appending if it already exists.
-        except FileExistsError:
-            file = open(file_name, "a", newline="", encoding="utf8")
-            # writer = csv.writer(file)
-        file.write("%s," % (code.__name__))
-        for value in code_args.values():
-            file.write("%s," % (value))
-        file.write("%s," % (noise.__name__))
-        for value in noise_args.values():
-            file.write("%s," % (value))
-        file.write("%s," % (decoder))
-        for key, value in decoder_args.items():
-            if key == "weight_opts":
-                file.write('"%s",' % (value))
-            else:
-                file.write("%s," % (value))
+        file_name = fname
+        if not file_name:
+            file_name = "./flamingpy/.sims_data/sims_results.csv"
+            os.makedirs(os.path.dirname(file_name), exist_ok=True)
         current_time = datetime.now().time().strftime("%H:%M:%S")
-        file.write(
-            "%i,%i,%s,%f,%i\n"
-            % (
-                errors,
-                trials,
-                current_time,
-                (simulation_stop_time - simulation_start_time),
-                mpi_size,
-            )
-        )
-        file.close()
+        header = ["code", *code_args, "noise", *noise_args, "decoder", *decoder_args]
+        header += ["errors", "trials", "current_time", "simulation_time", "mpi_size"]
+        record = [code.__name__, *code_args.values(), noise.__name__, *noise_args.values()]
+        record += [decoder, *decoder_args.values(), errors, trials, current_time]
+        record += ["%f" % (simulation_stop_time - simulation_start_time), mpi_size]
+        # The header comes first in a file that doesn't exist yet (or is empty,
+        # after an interruption). The complete text is prepared, with values that
+        # contain commas quoted, and written at once.
+        with open(file_name, "a", newline="", encoding="utf8") as file:
+            rows = [record] if file.tell() else [header, record]
+            text = io.StringIO()
+            csv.writer(text, lineterminator="\n").writerows(rows)
+            file.write(text.getvalue())
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 11c56e3b84bc5b13ca4ed4f012576caed2c39273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:57 +0000
Subject: [PATCH 18/37] fix: don't grow erased clusters that include a boundary
 point

---
 flamingpy/decoders/unionfind/algos.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flamingpy/decoders/unionfind/algos.py b/flamingpy/decoders/unionfind/algos.py
index eaa27fd..c2947f3 100644
--- a/flamingpy/decoders/unionfind/algos.py
+++ b/flamingpy/decoders/unionfind/algos.py
@@ -125,7 +125,8 @@ def initialize_cluster_trees(stabilizer_graph):
                     ),
                 ),
             )
-        if cluster_root.parity:
+        # A cluster that includes a boundary point can be corrected as it is.
+        if cluster_root.parity and not cluster_root.boundary:
             odd_clusters += [cluster_root]
         cluster_trees += [cluster_root]
 
-- 
2.43.0


From 8fd00d8234b6031d8514473a65ed2699225ee9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:13 +0000
Subject: [PATCH 19/37] fix: keep the stabilizers and boundary points of
 converted graphs

---
 flamingpy/codes/graphs/stabilizer_graph.py | 5 +++++
 flamingpy/decoders/mwpm/matching.py        | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/flamingpy/codes/graphs/stabilizer_graph.py b/flamingpy/codes/graphs/stabilizer_graph.py
index 898f939..3391a01 100644
--- a/flamingpy/codes/graphs/stabilizer_graph.py
+++ b/flamingpy/codes/graphs/stabilizer_graph.py
@@ -337,6 +337,11 @@ class StabilizerGraph(ABC):
         if isinstance(self, NxStabilizerGraph):
             return self
         nx_graph = NxStabilizerGraph()
+        nx_graph.stabilizers = list(self.stabilizers)
+        nx_graph.low_bound_points = list(self.low_bound_points)
+        nx_graph.high_bound_points = list(self.high_bound_points)
+        for node in self.nodes():
+            nx_graph.add_node(node)
         for edge in self.edges():
             nx_graph.add_edge(*edge, self.edge_data(*edge)["common_vertex"])
             if "weight" in self.edge_data(*edge):
diff --git a/flamingpy/decoders/mwpm/matching.py b/flamingpy/decoders/mwpm/matching.py
index 1544982..ad7117b 100644
--- a/flamingpy/decoders/mwpm/matching.py
+++ b/flamingpy/decoders/mwpm/matching.py
@@ -224,6 +224,7 @@ class LemonMatchingGraph(NxMatchingGraph):
         """
         nx = NxMatchingGraph(self.ec)
         nx.graph = self.graph
+        nx.virtual_points = list(self.virtual_points)
         return nx
 
 
@@ -302,6 +303,7 @@ class RxMatchingGraph(MatchingGraph):
         networkx graph representation.
         """
         nx_graph = NxMatchingGraph(self.ec)
+        nx_graph.virtual_points = list(self.virtual_points)
         for idx0, idx1 in iter(self.graph.edge_list()):
             edge = (self.graph.nodes()[idx0], self.graph.nodes()[idx1])
             nx_graph.add_edge(edge, self.edge_weight(edge), self.edge_path(edge))
-- 
2.43.0


From 3c0855bac49c7ae0360d78e0769f9b6ba4c7509a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:06 +0000
Subject: [PATCH 20/37] fix: padding micronodes coincided with bonded ones at
 displacement 0.05

---
 flamingpy/codes/graphs/egraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flamingpy/codes/graphs/egraph.py b/flamingpy/codes/graphs/egraph.py
index bebc9ed..6c737fc 100644
--- a/flamingpy/codes/graphs/egraph.py
+++ b/flamingpy/codes/graphs/egraph.py
@@ -90,7 +90,7 @@ def macronize(can_graph, pad_boundary=False, disp=0.1):
                 n_new = 4 - macro_size
                 for i in range(n_new):
                     new_node = list(node)
-                    new_node[i] = new_node[i] + 0.05
+                    new_node[i] = new_node[i] + disp / 2
                     new_node_tup = tuple(new_node)
                     macro_graph.add_node(new_node_tup, **can_graph.nodes[node])
                     macro_dict[node].append(new_node_tup)
-- 
2.43.0


From 3f2ce7368566abea4a97f9fa5fe64f5ccc7b2779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:06 +0000
Subject: [PATCH 21/37] fix: account for bond signs in the macronode reduction

Swapped-out neighbours attached by bonds of weight -1 (codes with a polarity)
were corrected for with the wrong sign, leaving random bits without noise.
---
 flamingpy/noise/cv.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flamingpy/noise/cv.py b/flamingpy/noise/cv.py
index 838b5c1..5964278 100644
--- a/flamingpy/noise/cv.py
+++ b/flamingpy/noise/cv.py
@@ -605,7 +605,9 @@ class CVMacroLayer(CVLayer):
         for i in (1, 2, 3, 4):
             if types[i - 1] == "p":
                 num_p += 1
-                outcome -= Z_arr[i]
+                micronode = self._to_points[self.permuted_inds[j + i - 1]]
+                weight = macro_graph.edges[micronode, neighbors[i - 1]].get("weight", 1)
+                outcome -= weight * Z_arr[i]
             if types[i - 1] == "GKP":
                 if delta > 0:
                     p_err += Z_err_cond(2 * delta, Z_arr[i], use_hom_val=True)
-- 
2.43.0


From 05b9c090f09861c90875548f6a91f620e486b772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:59 +0000
Subject: [PATCH 22/37] fix: add a qubit to an indexed EGraph without qubits

---
 flamingpy/codes/graphs/egraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flamingpy/codes/graphs/egraph.py b/flamingpy/codes/graphs/egraph.py
index 6c737fc..6c22dba 100644
--- a/flamingpy/codes/graphs/egraph.py
+++ b/flamingpy/codes/graphs/egraph.py
@@ -319,7 +319,7 @@ class EGraph(nx.Graph):
 
         # Update dictionaries
         if self.to_indices is not None:
-            new_index = max(self.to_points) + 1
+            new_index = max(self.to_points, default=-1) + 1
             self.to_points[new_index] = qubit
             self.to_indices[qubit] = new_index
 
-- 
2.43.0


From e08a1ea6ded72d3e394946558f19a88efb7cdd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:58 +0000
Subject: [PATCH 23/37] fix: Z_err_cond with replace_undefined='bin_location'
 returned a string or raised, instead of |frac|/sqrt(pi)

---
 flamingpy/cv/gkp.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/flamingpy/cv/gkp.py b/flamingpy/cv/gkp.py
index 16ba3a0..9e40e35 100644
--- a/flamingpy/cv/gkp.py
+++ b/flamingpy/cv/gkp.py
@@ -120,6 +120,9 @@ def Z_err_cond(var, hom_val, var_num=10, replace_undefined=0, use_hom_val=False)
     val = hom_val if use_hom_val else frac
     # The sums are taken around the bin of val, and over the same range.
     centre = np.round((hom_val - frac) / np.sqrt(np.pi)) if use_hom_val else 0
+    # The value to use where the denominator vanishes.
+    if replace_undefined == "bin_location":
+        replace_undefined = np.abs(frac) / np.sqrt(np.pi)
 
     if np.isscalar(val) and np.isscalar(var):
 
@@ -147,11 +150,7 @@ def Z_err_cond(var, hom_val, var_num=10, replace_undefined=0, use_hom_val=False)
         error = np.empty(np.size(var))
         # For 0 denominator, populate error according to replace_undefined
         if len(where_0):
-            if replace_undefined == "bin_location":
-                zero_dem_result = np.abs(val) / np.sqrt(np.pi)
-            else:
-                zero_dem_result = replace_undefined
-            error[where_0] = np.full(len(where_0), zero_dem_result)
+            error[where_0] = np.broadcast_to(replace_undefined, error.shape)[where_0]
         if np.size(var) == 1:
             numerator = np.array([numerator])
             denominator = np.array([denominator])
-- 
2.43.0


From c6bed3b9c6d089587a3e4c87ba80aba79185d503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:41 +0000
Subject: [PATCH 24/37] fix: SCZ_apply without one_shot truncated fractional
 bond weights for integer quadratures

---
 flamingpy/cv/ops.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/flamingpy/cv/ops.py b/flamingpy/cv/ops.py
index 82c16fb..0981398 100644
--- a/flamingpy/cv/ops.py
+++ b/flamingpy/cv/ops.py
@@ -85,9 +85,7 @@ def SCZ_apply(adj, quads, one_shot=True):
         else:
             old_qs = quads[:N]
             old_ps = quads[N:]
-            new_quads = np.empty(2 * N, quads.dtype)
-            new_quads[:N] = old_qs
-            new_quads[N:] = adj.dot(old_qs) + old_ps
+            new_quads = np.concatenate([old_qs, adj.dot(old_qs) + old_ps])
     if len(quads.shape) == 2:
         if one_shot:
             SCZ = SCZ_mat(adj)
-- 
2.43.0


From 94bbffe3fa1a71a3098a28ccec3396b88186e12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:12 +0000
Subject: [PATCH 25/37] fix: ec_monte_carlo without a communicator raised when
 mpi4py is installed

---
 flamingpy/simulations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flamingpy/simulations.py b/flamingpy/simulations.py
index a27e8c1..9270ab8 100644
--- a/flamingpy/simulations.py
+++ b/flamingpy/simulations.py
@@ -109,7 +109,7 @@ def ec_monte_carlo(
             )
             local_successes[0] += result
 
-    if "MPI" in globals():
+    if "MPI" in globals() and world_comm is not None:
         world_comm.Reduce(local_successes, successes, op=MPI.SUM, root=0)
     else:
         successes[0] = local_successes[0]
-- 
2.43.0


From 9f28bd854ee0433b89da92b98a6754c602a53066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:05 +0000
Subject: [PATCH 26/37] fix: ticks of the GKP plots off the multiples of alpha

---
 flamingpy/utils/viz.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/flamingpy/utils/viz.py b/flamingpy/utils/viz.py
index c03974f..a8a7298 100644
--- a/flamingpy/utils/viz.py
+++ b/flamingpy/utils/viz.py
@@ -66,7 +66,7 @@ def plot_integer_part(xs, ns, alpha, show=True):
     ax = plt.gca()
 
     xmin, xmax = alpha * (xs[0] // alpha), alpha * (xs[-1] // alpha) + alpha
-    newxticks = np.linspace(xmin, xmax, int((xmax - xmin) // alpha) + 1)
+    newxticks = np.linspace(xmin, xmax, int(round((xmax - xmin) / alpha)) + 1)
     ax.xaxis.set_major_formatter(PiFormatter())
 
     plt.plot(xs, ns, ".")
@@ -88,7 +88,7 @@ def plot_fractional_part(xs, fs, alpha, show=True):
     ax = plt.gca()
 
     xmin, xmax = alpha * (xs[0] // alpha), alpha * (xs[-1] // alpha) + alpha
-    newxticks = np.linspace(xmin, xmax, int((xmax - xmin) // alpha) + 1)
+    newxticks = np.linspace(xmin, xmax, int(round((xmax - xmin) / alpha)) + 1)
     newyticks = np.linspace(-alpha / 2, alpha / 2, num=7)
     ax.xaxis.set_major_formatter(PiFormatter())
     ax.yaxis.set_major_formatter(PiFormatter())
@@ -113,7 +113,7 @@ def plot_GKP_bins(outcomes, bit_values, alpha, show=True):
     ax = plt.gca()
 
     xmin, xmax = alpha * (outcomes[0] // alpha), alpha * (outcomes[-1] // alpha) + alpha
-    newxticks = np.linspace(xmin, xmax, int((xmax - xmin) // alpha) + 1)
+    newxticks = np.linspace(xmin, xmax, int(round((xmax - xmin) / alpha)) + 1)
     ax.xaxis.set_major_formatter(PiFormatter())
 
     plt.plot(outcomes, bit_values, ".")
@@ -145,7 +145,7 @@ def plot_Z_err_cond(hom_val, error, alpha, use_hom_val, show=True):
 
     print(xmin, xmax, min(val), max(val))
 
-    newxticks = np.linspace(xmin, xmax, int((xmax - xmin) // alpha) + 1)
+    newxticks = np.linspace(xmin, xmax, int(round((xmax - xmin) / alpha)) + 1)
     ax.xaxis.set_major_formatter(PiFormatter())
 
     plt.plot(val, error, ".")
-- 
2.43.0


From b32276fda6c14338ab7f32c96d39f8123afe7946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:05 +0000
Subject: [PATCH 27/37] fix: draw an EGraph with a label but no title, and with
 string attributes as labels

---
 flamingpy/utils/viz.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flamingpy/utils/viz.py b/flamingpy/utils/viz.py
index a8a7298..0030dce 100644
--- a/flamingpy/utils/viz.py
+++ b/flamingpy/utils/viz.py
@@ -535,8 +535,8 @@ def _plot_EGraph_nodes(ax, egraph, color_nodes, label, name, legend):
             value = egraph.nodes[node].get(label) if label != "index" else indices[node]
             if value is not None:
                 # Raise negative sign above node.
-                sign = "^{-}" if value < 0 else " "
-                if not isinstance(value, int):
+                if not isinstance(value, (int, str)):
+                    sign = "^{-}" if value < 0 else " "
                     value = r"${}{:.2g}$".format(sign, np.abs(value))
                 ax.text(
                     x + 0.05,
@@ -551,7 +551,7 @@ def _plot_EGraph_nodes(ax, egraph, color_nodes, label, name, legend):
 
     if label and n_uncomputed > 0:
         message = "{} at {} node(s) have not yet been computed."
-        print(message.format(name.lower(), n_uncomputed))
+        print(message.format((name or label).lower(), n_uncomputed))
 
     # Plotting nodes legend
     if isinstance(color_nodes, tuple) and legend:
-- 
2.43.0


From f1dabd30c7d332bb8dc759181b384ec4c46c0530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:06 +0000
Subject: [PATCH 28/37] fix: draw an EGraph with plotly without label, and
 before it is indexed

---
 flamingpy/utils/viz.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/flamingpy/utils/viz.py b/flamingpy/utils/viz.py
index 0030dce..050db32 100644
--- a/flamingpy/utils/viz.py
+++ b/flamingpy/utils/viz.py
@@ -614,6 +614,9 @@ def _get_node_info(egraph, node, information="coordinates"):
             - if ``information`` is "all" it will display the coordinates, index and all the
                 information avaible in the node.
     """
+    if information is None:
+        return None
+
     # information dictionary
     info_dict = egraph.nodes[node].copy()
 
@@ -625,13 +628,11 @@ def _get_node_info(egraph, node, information="coordinates"):
 
     # add index if desired
     if "index" in information:
-        info_dict["index"] = egraph.to_indices[node]
+        info_dict["index"] = egraph.index_generator()[node]
 
     # returning relevant information
     if information == "coordinates":
         return str(node)
-    if information is None:
-        return None
     if isinstance(information, str):
         node_property = info_dict.get(information)
         return f"{information}: {node_property}"
-- 
2.43.0


From d5d2dfa22b1debdb1b7b2a62b9acd4a03adbe6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:06 +0000
Subject: [PATCH 29/37] fix: draw a decoding without decoding objects

---
 flamingpy/utils/viz.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flamingpy/utils/viz.py b/flamingpy/utils/viz.py
index 050db32..b2d4ab6 100644
--- a/flamingpy/utils/viz.py
+++ b/flamingpy/utils/viz.py
@@ -1040,6 +1040,8 @@ def draw_decoding(code, ec, dec_objects=None, drawing_opts=None):
     """Draw the stabilizer and matching graphs, and the plot the syndrome."""
     if drawing_opts is None:
         drawing_opts = {}
+    if dec_objects is None:
+        dec_objects = {}
 
     # Drawing the stabilizer graph
     G_stabilizer = getattr(code, ec + "_stab_graph")
-- 
2.43.0


From f8a725163337c8856e63b677d8d910df2cd40c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:06 +0000
Subject: [PATCH 30/37] fix: syndrome and recovery drawn with y and z exchanged

---
 flamingpy/utils/viz.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/flamingpy/utils/viz.py b/flamingpy/utils/viz.py
index b2d4ab6..aa95ded 100644
--- a/flamingpy/utils/viz.py
+++ b/flamingpy/utils/viz.py
@@ -881,14 +881,15 @@ def syndrome_plot(code, ec, index_dict=None, drawing_opts=None):
         fig = plt.figure()
         ax = fig.add_subplot(projection="3d")
         plt.xticks(range(0, 2 * shape[0] - 1))
-        plt.yticks(range(0, 2 * shape[1] - 1))
-        ax.set_zticks(range(0, 2 * shape[2] - 1))
+        plt.yticks(range(0, 2 * shape[2] - 1))
+        ax.set_zticks(range(0, 2 * shape[1] - 1))
         ax.set_xlabel("x", labelpad=20)
         ax.set_ylabel("z", labelpad=20)
         ax.set_zlabel("y", labelpad=20)
         leg = None
     # Illustrate stabilizers with voxels colored green for even
-    # parity and red for odd pariy.
+    # parity and red for odd pariy. As in the drawing of the graph, y and z
+    # are swapped.
     positions, colors, sizes = [], [], []
     for cube in cubes:
         # Obtain smallest, largest, and middle coordinates for each
@@ -905,15 +906,15 @@ def syndrome_plot(code, ec, index_dict=None, drawing_opts=None):
 
         # gap defines the distance between adjacent cubes
         gap = 0.15
-        min_arr = np.array([xmin, ymin, zmin])
-        max_arr = np.array([xmax, ymax, zmax])
+        min_arr = np.array([xmin, zmin, ymin])
+        max_arr = np.array([xmax, zmax, ymax])
         positions.append(min_arr + gap)
         sizes.append(np.abs(max_arr - min_arr) - 2 * gap)
         colors.append(color)
 
         if drawing_opts["label_stabilizers"] and index_dict:
             if cube in index_dict:
-                ax.text(xmid, ymid, zmid, index_dict[cube])
+                ax.text(xmid, zmid, ymid, index_dict[cube])
 
     # draw cubes
     pc = _plot_cubes_at(positions, colors=colors, sizes=sizes)
@@ -922,14 +923,15 @@ def syndrome_plot(code, ec, index_dict=None, drawing_opts=None):
     # setting plot limits to give some room to the boxes
     ymin = 0 if ec == "primal" else -2
     ax.set_xlim(0, 2 * shape[0])
-    ax.set_ylim(ymin, 2 * shape[1])
-    ax.set_zlim(0, 2 * shape[2])
+    ax.set_ylim(0, 2 * shape[2])
+    ax.set_zlim(ymin, 2 * shape[1])
 
     if drawing_opts["label_boundary"] and index_dict:
         bound_points = getattr(code, ec + "_bound_points")
         for point in bound_points:
-            ax.scatter(*point, s=5, c="k")
-            ax.text(*point, index_dict[point])
+            x, z, y = point
+            ax.scatter(x, y, z, s=5, c="k")
+            ax.text(x, y, z, index_dict[point])
 
     # Define a legend for red/green cubes.
     legend_elements = [
@@ -1006,7 +1008,8 @@ def add_recovery_drawing(ax, **kwargs):
     recovery_set = kwargs.get("recovery_set")
     if recovery_set:
         for point in recovery_set:
-            ax.plot(*point, "o", c="k", markersize=6)
+            x, z, y = point
+            ax.plot(x, y, z, "o", c="k", markersize=6)
     matching = kwargs.get("matching")
     G_match = kwargs.get("matching_graph")
     if matching:
@@ -1017,9 +1020,9 @@ def add_recovery_drawing(ax, **kwargs):
                 path = G_match.edge_path(pair)
                 for node in path:
                     if isinstance(node, Stabilizer):
-                        x, y, z = node.midpoint()
+                        x, z, y = node.midpoint()
                     else:
-                        x, y, z = node
+                        x, z, y = node
                         plt.plot(x, y, z, marker="2", markersize=15, c="k")
                     xlist += [x]
                     ylist += [y]
-- 
2.43.0


From 057a79d1d12e940057163efde9fa6e7c8e930cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:42 +0000
Subject: [PATCH 31/37] fix: bond colours and Matplotlib colour names when
 drawing an EGraph with plotly

---
 flamingpy/utils/viz.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/flamingpy/utils/viz.py b/flamingpy/utils/viz.py
index aa95ded..0c17781 100644
--- a/flamingpy/utils/viz.py
+++ b/flamingpy/utils/viz.py
@@ -412,7 +412,11 @@ def draw_EGraph_plotly(
     nodes = np.array(egraph.nodes)
     x_nodes, y_nodes, z_nodes = nodes[:, 0], nodes[:, 1], nodes[:, 2]
 
-    nodeColors = [_get_node_color(egraph, node, color_nodes) for node in egraph.nodes]
+    # Plotly does not know the short colour names of Matplotlib.
+    def plotly_color(color):
+        return mpl.colors.to_hex(color) if mpl.colors.is_color_like(color) else color
+
+    nodeColors = [plotly_color(_get_node_color(egraph, node, color_nodes)) for node in egraph.nodes]
     nodeInfo = [_get_node_info(egraph, node, information=label) for node in egraph.nodes]
 
     fig.add_traces(
@@ -443,7 +447,11 @@ def draw_EGraph_plotly(
         y_edges.extend([y0, y1, None])
         z_edges.extend([z0, z1, None])
 
-    edgeColors = [_get_edge_color(egraph, edge, color_edges) for edge in egraph.edges]
+    edgeColors = []
+
+    for edge in egraph.edges:
+        # One colour per point of the line, including the gap
+        edgeColors.extend(3 * [plotly_color(_get_edge_color(egraph, edge, color_edges))])
 
     fig.add_traces(
         go.Scatter3d(
@@ -451,9 +459,8 @@ def draw_EGraph_plotly(
             x=x_edges,
             y=y_edges,
             z=z_edges,
-            line=dict(color="black", width=1),
+            line=dict(color=edgeColors, width=1),
             mode="lines",
-            marker=dict(color=edgeColors),
             hoverinfo="none",
         )
     )
-- 
2.43.0


From 8aa27622d645efebc7b0c78fccdbcc30f5a389d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:57 +0000
Subject: [PATCH 32/37] fix: draw bonds without an assigned colour in grey

---
 flamingpy/utils/viz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flamingpy/utils/viz.py b/flamingpy/utils/viz.py
index 0c17781..58305ff 100644
--- a/flamingpy/utils/viz.py
+++ b/flamingpy/utils/viz.py
@@ -688,7 +688,7 @@ def _get_edge_color(egraph, edge, color_edges):
                 "dictionary values to valid matplotlib color strings."
             )
         edge_property = egraph.edges[edge].get(edge_attribute)
-        color = color_dict.get(edge_property)
+        color = color_dict.get(edge_property, "grey")
     elif color_edges == True:
         color = egraph.edges[edge].get("color") or "grey"
     else:
-- 
2.43.0


From d6129bf150822e8ae08817714540c7efb67b9cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:33 +0000
Subject: [PATCH 33/37] fix: micronodes of bonds in nearly the same direction
 coincided

---
 flamingpy/codes/graphs/egraph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flamingpy/codes/graphs/egraph.py b/flamingpy/codes/graphs/egraph.py
index 6c22dba..7eee4ef 100644
--- a/flamingpy/codes/graphs/egraph.py
+++ b/flamingpy/codes/graphs/egraph.py
@@ -68,7 +68,8 @@ def macronize(can_graph, pad_boundary=False, disp=0.1):
         distance = np.linalg.norm(direction_vec)
         periodic_flip = -1 if can_graph.edges[edge].get("periodic") else 1
         shortened_vec = periodic_flip * disp * direction_vec / distance
-        shortened_vec = np.round(shortened_vec, -int(np.log10(disp)) + 2)
+        # Enough digits to tell the directions of the bonds apart.
+        shortened_vec = np.round(shortened_vec, -int(np.log10(disp)) + 10)
         new_point_1 = tuple(old_point_1 + shortened_vec)
         new_point_2 = tuple(old_point_2 - shortened_vec)
         macro_graph.add_node(new_point_1, **can_graph.nodes[edge[0]])
-- 
2.43.0


From 5efeba2bb0cecd39b938ef17c42d7b6d5487cb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:54 +0000
Subject: [PATCH 34/37] fix: matching graphs shared the default path of their
 edges

---
 flamingpy/decoders/mwpm/matching.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/flamingpy/decoders/mwpm/matching.py b/flamingpy/decoders/mwpm/matching.py
index ad7117b..3e0ce44 100644
--- a/flamingpy/decoders/mwpm/matching.py
+++ b/flamingpy/decoders/mwpm/matching.py
@@ -55,7 +55,7 @@ class MatchingGraph(ABC):
         if code is not None:
             self.with_edges_from(code, ec)
 
-    def add_edge(self, edge: Edge, weight: Weight, path: List[Node] = []):
+    def add_edge(self, edge: Edge, weight: Weight, path: List[Node] = None):
         """Add an edge into the graph.
 
         Args:
@@ -197,7 +197,8 @@ class NxMatchingGraph(MatchingGraph):
         self.graph = nx.Graph()
         MatchingGraph.__init__(self, ec, code)
 
-    def add_edge(self, edge: Edge, weight: Weight, path: List[Node] = []):
+    def add_edge(self, edge: Edge, weight: Weight, path: List[Node] = None):
+        path = [] if path is None else path
         self.graph.add_edge(edge[0], edge[1], weight=weight, inverse_weight=-weight, path=path)
 
     def edge_weight(self, edge: Edge):
@@ -275,7 +276,8 @@ class RxMatchingGraph(MatchingGraph):
         self.index_to_node[index] = node
         return index
 
-    def add_edge(self, edge: Edge, weight: Weight, path: List[Node] = []):
+    def add_edge(self, edge: Edge, weight: Weight, path: List[Node] = None):
+        path = [] if path is None else path
         self.graph.add_edge(
             self.node_index(edge[0]),
             self.node_index(edge[1]),
-- 
2.43.0


From 4925c8fe414244e2b8562e2c6390af90f3d28f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:15 +0000
Subject: [PATCH 35/37] fix: adjacency matrices truncated bond weights that are
 no small integers

---
 flamingpy/codes/graphs/egraph.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/flamingpy/codes/graphs/egraph.py b/flamingpy/codes/graphs/egraph.py
index 7eee4ef..dd1f556 100644
--- a/flamingpy/codes/graphs/egraph.py
+++ b/flamingpy/codes/graphs/egraph.py
@@ -179,11 +179,14 @@ class EGraph(nx.Graph):
             self.index_generator()
         # Indices may have gaps if qubits have been removed.
         sorted_nodes = [self.to_points[i] for i in sorted(self.to_points)]
-        # TODO: Reconsider data type for more intricate weights.
+        # Small integers are enough for the usual weights, but would truncate others.
+        weights = np.array([weight for _, _, weight in self.edges(data="weight", default=1)])
+        small_ints = np.all(np.abs(weights) <= 127) and np.all(weights == np.rint(weights))
+        dtype = np.int8 if small_ints else float
         if sparse:
-            adj = nx.to_scipy_sparse_array(self, nodelist=sorted_nodes, dtype=np.int8)
+            adj = nx.to_scipy_sparse_array(self, nodelist=sorted_nodes, dtype=dtype)
         else:
-            adj = nx.to_numpy_array(self, nodelist=sorted_nodes, dtype=np.int8)
+            adj = nx.to_numpy_array(self, nodelist=sorted_nodes, dtype=dtype)
         self.adj_mat = adj
         return adj
 
-- 
2.43.0


From 607b1850ac757cfa56b3e7e4dc8c7b334879964a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:05 +0000
Subject: [PATCH 36/37] fix: accept empty states with a swap-out probability

---
 flamingpy/noise/cv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flamingpy/noise/cv.py b/flamingpy/noise/cv.py
index 5964278..49e6f56 100644
--- a/flamingpy/noise/cv.py
+++ b/flamingpy/noise/cv.py
@@ -99,7 +99,7 @@ class CVLayer:
         self._translator = kwargs.get("translator") or GKP_binner
 
         if self.p_swap is not None and supplied_states is not None:
-            if len(supplied_states["p"]):
+            if len(supplied_states.get("p", ())):
                 message = (
                     "Both the swap-out probability and indices of p-squeezed states "
                     "have been supplied. Please only specify one of those."
-- 
2.43.0


From aee15ad4a09a8d80de98ad8c5fc18619cf1b162a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:05 +0000
Subject: [PATCH 37/37] fix: accept a tuple of modes to measure

---
 flamingpy/noise/cv.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flamingpy/noise/cv.py b/flamingpy/noise/cv.py
index 49e6f56..df1461b 100644
--- a/flamingpy/noise/cv.py
+++ b/flamingpy/noise/cv.py
@@ -185,6 +185,8 @@ class CVLayer:
         N = self._N
         if inds is None:
             inds = range(N)
+        # Tuples would index several dimensions.
+        inds = np.array(inds, dtype=int)
         N_inds = len(inds)
         # Determine which means and covs to use for the probability distribution
         if updated_means is None:
-- 
2.43.0

