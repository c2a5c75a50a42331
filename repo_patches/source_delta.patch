From de9bf0639473545c0258c0c8e59ae55814243748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:32 +0000
Subject: [PATCH 01/72] fix: reject unknown Laplacian types before changing the
 graph's state

---
 pygsp/graphs/graph.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pygsp/graphs/graph.py b/pygsp/graphs/graph.py
index 495415b..ecb09bc 100644
--- a/pygsp/graphs/graph.py
+++ b/pygsp/graphs/graph.py
@@ -599,6 +599,9 @@ class Graph(FourierMixIn, DifferenceMixIn, IOMixIn, LayoutMixIn):
 
         """
 
+        if lap_type not in ["combinatorial", "normalized"]:
+            raise ValueError(f"Unknown Laplacian type {lap_type}")
+
         if lap_type != self.lap_type:
             # Those attributes are invalidated when the Laplacian is changed.
             # Alternative: don't allow the user to change the Laplacian.
@@ -626,8 +629,6 @@ class Graph(FourierMixIn, DifferenceMixIn, IOMixIn, LayoutMixIn):
             self.L = sparse.identity(self.n_vertices) - D * W * D
             self.L[disconnected, disconnected] = 0
             self.L.eliminate_zeros()
-        else:
-            raise ValueError(f"Unknown Laplacian type {lap_type}")
 
     def _check_signal(self, s):
         r"""Check if signal is valid."""
-- 
2.43.0


From a3ceb5a7fde818a339c9a727445caa890fddbb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:32 +0000
Subject: [PATCH 02/72] fix: forget the lmax estimation method with lmax, and
 remember it upon success only

---
 pygsp/graphs/graph.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pygsp/graphs/graph.py b/pygsp/graphs/graph.py
index ecb09bc..6ee1a8a 100644
--- a/pygsp/graphs/graph.py
+++ b/pygsp/graphs/graph.py
@@ -606,6 +606,7 @@ class Graph(FourierMixIn, DifferenceMixIn, IOMixIn, LayoutMixIn):
             # Those attributes are invalidated when the Laplacian is changed.
             # Alternative: don't allow the user to change the Laplacian.
             self._lmax = None
+            self._lmax_method = None
             self._U = None
             self._e = None
             self._coherence = None
@@ -903,7 +904,6 @@ class Graph(FourierMixIn, DifferenceMixIn, IOMixIn, LayoutMixIn):
         """
         if method == self._lmax_method:
             return
-        self._lmax_method = method
 
         if method == "lanczos":
             try:
@@ -931,6 +931,8 @@ class Graph(FourierMixIn, DifferenceMixIn, IOMixIn, LayoutMixIn):
         else:
             raise ValueError(f"Unknown method {method}")
 
+        self._lmax_method = method
+
     def _get_upper_bound(self):
         r"""Return an upper bound on the eigenvalues of the Laplacian."""
 
-- 
2.43.0


From cc75f6e054c6ebcca1c7079a7141c9ae97efe23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:00 +0000
Subject: [PATCH 03/72] fix: connect opposite vertices in a ring where each
 vertex has N/2 neighbors per side

---
 pygsp/graphs/ring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/graphs/ring.py b/pygsp/graphs/ring.py
index a189c14..b28e4e7 100644
--- a/pygsp/graphs/ring.py
+++ b/pygsp/graphs/ring.py
@@ -79,7 +79,7 @@ class Ring(Graph):
 
         if 2 * k == N:
             i_inds[2 * N * (k - 1) + tmpN] = tmpN
-            i_inds[2 * N * (k - 1) + tmpN] = np.remainder(tmpN + k + 1, N)
+            j_inds[2 * N * (k - 1) + tmpN] = np.remainder(tmpN + k, N)
 
         W = sparse.csc_matrix((np.ones(2 * num_edges), (i_inds, j_inds)), shape=(N, N))
 
-- 
2.43.0


From 252fcae4ab84ef2795fbd201372a49eb04e800f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:00 +0000
Subject: [PATCH 04/72] fix: keep integer indices when the construction of a
 random regular graph restarts

---
 pygsp/graphs/randomregular.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/graphs/randomregular.py b/pygsp/graphs/randomregular.py
index 3c0fa6b..958084e 100644
--- a/pygsp/graphs/randomregular.py
+++ b/pygsp/graphs/randomregular.py
@@ -89,7 +89,7 @@ class RandomRegular(Graph):
                 if edgesTested == N * k:
                     repetition = repetition + 1
                     edgesTested = 0
-                    U = np.kron(np.ones(k), np.arange(N))
+                    U = np.kron(np.ones(k), np.arange(N)).astype(int)
                     A = sparse.lil_matrix(np.zeros((N, N)))
             else:
                 # add edge to graph
-- 
2.43.0


From b946889999743294373c98efb7bea14bfa98cdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:00 +0000
Subject: [PATCH 05/72] fix: restart the construction of a random regular graph
 even if the N*k-th test succeeded

---
 pygsp/graphs/randomregular.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/graphs/randomregular.py b/pygsp/graphs/randomregular.py
index 958084e..039dcd4 100644
--- a/pygsp/graphs/randomregular.py
+++ b/pygsp/graphs/randomregular.py
@@ -86,7 +86,7 @@ class RandomRegular(Graph):
             # check that there are no loops nor parallel edges
             if v1 == v2 or A[v1, v2] == 1:
                 # restart process if needed
-                if edgesTested == N * k:
+                if edgesTested >= N * k:
                     repetition = repetition + 1
                     edgesTested = 0
                     U = np.kron(np.ones(k), np.arange(N)).astype(int)
-- 
2.43.0


From 29a8d1621a90147551752ac6af2a9a148bbeb621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:24 +0000
Subject: [PATCH 06/72] fix: connect the nearest neighbors inside communities
 when k_neigh is given

---
 pygsp/graphs/community.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/pygsp/graphs/community.py b/pygsp/graphs/community.py
index 5a7d8d0..e54da09 100644
--- a/pygsp/graphs/community.py
+++ b/pygsp/graphs/community.py
@@ -203,16 +203,13 @@ class Community(Graph):
             elif k_neigh is not None:
                 comm_coords = coords[first_node : first_node + com_siz]
                 kdtree = spatial.KDTree(comm_coords)
-                __, indices = kdtree.query(comm_coords, k=k_neigh + 1)
+                k_range = np.arange(1, min(k_neigh + 1, com_siz) + 1)
+                __, indices = kdtree.query(comm_coords, k=k_range)
 
                 pairs_set = set()
-                map(
-                    lambda row: map(
-                        lambda elm: pairs_set.add((min(row[0], elm), max(row[0], elm))),
-                        row[1:],
-                    ),
-                    indices,
-                )
+                for row in indices:
+                    for elm in row[1:]:
+                        pairs_set.add((min(row[0], elm), max(row[0], elm)))
 
                 w_data[0] += [1] * len(pairs_set)
                 w_data[1][0] += [first_node + pair[0] for pair in pairs_set]
-- 
2.43.0


From f6a8a3b64ac5bee892bf94e8dbb6c9782daf5656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:24 +0000
Subject: [PATCH 07/72] fix: don't modify the matrix q given to a stochastic
 block model

---
 pygsp/graphs/stochasticblockmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/graphs/stochasticblockmodel.py b/pygsp/graphs/stochasticblockmodel.py
index 797f045..679e687 100644
--- a/pygsp/graphs/stochasticblockmodel.py
+++ b/pygsp/graphs/stochasticblockmodel.py
@@ -110,7 +110,7 @@ class StochasticBlockModel(Graph):
                     "nor a matrix of size k x k."
                 )
 
-            M = q
+            M = np.array(q, dtype=float)
             M.flat[:: k + 1] = p  # edit the diagonal terms
 
         self.M = M
-- 
2.43.0


From 88190fd250a16bb79725a66bea51e584e80cd036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:24 +0000
Subject: [PATCH 08/72] fix: represent stochastic block models built from a
 probability matrix

---
 pygsp/graphs/stochasticblockmodel.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pygsp/graphs/stochasticblockmodel.py b/pygsp/graphs/stochasticblockmodel.py
index 679e687..5468523 100644
--- a/pygsp/graphs/stochasticblockmodel.py
+++ b/pygsp/graphs/stochasticblockmodel.py
@@ -113,6 +113,10 @@ class StochasticBlockModel(Graph):
             M = np.array(q, dtype=float)
             M.flat[:: k + 1] = p  # edit the diagonal terms
 
+        else:
+            self.p, self.q = None, None
+            M = np.asanyarray(M)
+
         self.M = M
 
         if (M < 0).any() or (M > 1).any():
-- 
2.43.0


From 85d855d096b2bbc64243185d783ef164c5b2425e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:46 +0000
Subject: [PATCH 09/72] fix: don't sort in place the angles given to a random
 ring

---
 pygsp/graphs/randomring.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pygsp/graphs/randomring.py b/pygsp/graphs/randomring.py
index 383065a..556c2ba 100644
--- a/pygsp/graphs/randomring.py
+++ b/pygsp/graphs/randomring.py
@@ -37,8 +37,7 @@ class RandomRing(Graph):
             rng = np.random.default_rng(seed)
             angles = np.sort(rng.uniform(0, 2 * np.pi, size=N), axis=0)
         else:
-            angles = np.asanyarray(angles)
-            angles.sort()  # Need to be sorted to take the difference.
+            angles = np.sort(angles)  # Need to be sorted to take the difference.
             N = len(angles)
             if np.any(angles < 0) or np.any(angles >= 2 * np.pi):
                 raise ValueError("Angles should be in [0, 2 pi]")
-- 
2.43.0


From bdc058045b1b6287639b6adb5fa6883673282e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:46 +0000
Subject: [PATCH 10/72] fix: don't rescale in place the features given to a
 nearest-neighbor graph

---
 pygsp/graphs/nngraphs/nngraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/graphs/nngraphs/nngraph.py b/pygsp/graphs/nngraphs/nngraph.py
index d81b668..b099c05 100644
--- a/pygsp/graphs/nngraphs/nngraph.py
+++ b/pygsp/graphs/nngraphs/nngraph.py
@@ -134,7 +134,7 @@ class NNGraph(Graph):
                 np.amax(Xout, axis=0) - np.amin(Xout, axis=0), 2
             )
             scale = np.power(N, 1.0 / float(min(d, 3))) / 10.0
-            Xout *= scale / bounding_radius
+            Xout = Xout * (scale / bounding_radius)
 
         # Translate distance type string to corresponding Minkowski order.
         dist_translation = {
-- 
2.43.0


From 8723ebe1369db02ca3964e62034fa8bc0f4f0b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:04 +0000
Subject: [PATCH 11/72] fix: take the root of the distances returned by FLANN

---
 pygsp/graphs/nngraphs/nngraph.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pygsp/graphs/nngraphs/nngraph.py b/pygsp/graphs/nngraphs/nngraph.py
index b099c05..a0533a2 100644
--- a/pygsp/graphs/nngraphs/nngraph.py
+++ b/pygsp/graphs/nngraphs/nngraph.py
@@ -162,6 +162,11 @@ class NNGraph(Graph):
                     NN, D = flann.nn(
                         Xout, Xout, num_neighbors=(k + 1), algorithm="kdtree"
                     )
+                    # FLANN doesn't take the root of those distances.
+                    if dist_type == "euclidean":
+                        D = np.sqrt(D)
+                    elif dist_type == "minkowski" and order > 0:
+                        D = np.power(D, 1 / order)
                     _logger.debug("Using pyflann for k-NN search")
 
                 except ImportError:
-- 
2.43.0


From 4cf89074a3393e837afcc6cf1da6d383d3699a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:04 +0000
Subject: [PATCH 12/72] fix: don't connect a point to itself when points are
 duplicated

---
 pygsp/graphs/nngraphs/nngraph.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pygsp/graphs/nngraphs/nngraph.py b/pygsp/graphs/nngraphs/nngraph.py
index a0533a2..e722fe3 100644
--- a/pygsp/graphs/nngraphs/nngraph.py
+++ b/pygsp/graphs/nngraphs/nngraph.py
@@ -224,10 +224,12 @@ class NNGraph(Graph):
                 self.sigma = np.mean(D[:, 1:])  # Discard distance to self.
 
             for i in range(N):
+                # Discard self, which is not always first (duplicated points).
+                neighbors = np.flatnonzero(NN[i] != i)[:k]
                 spi[i * k : (i + 1) * k] = np.kron(np.ones(k), i)
-                spj[i * k : (i + 1) * k] = NN[i, 1:]
+                spj[i * k : (i + 1) * k] = NN[i, neighbors]
                 spv[i * k : (i + 1) * k] = np.exp(
-                    -np.power(D[i, 1:], 2) / float(self.sigma)
+                    -np.power(D[i, neighbors], 2) / float(self.sigma)
                 )
 
         elif self.NNtype == "radius":
-- 
2.43.0


From fd6a2090244137763894e645fd1571c63a41edfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:36 +0000
Subject: [PATCH 13/72] fix: don't truncate the solution of a regression from
 integer or single-column measurements

---
 pygsp/learning.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsp/learning.py b/pygsp/learning.py
index f45407c..163ee3f 100644
--- a/pygsp/learning.py
+++ b/pygsp/learning.py
@@ -361,7 +361,7 @@ def regression_tikhonov(G, y, M, tau=0):
         else:
             sol_part = np.linalg.solve(Luu, np.matmul(Wul, y[indl]))
 
-        sol = y.copy()
-        sol[indu] = sol_part
+        sol = y.astype(np.result_type(y, sol_part))
+        sol[indu] = sol_part.reshape(sol[indu].shape)
 
         return sol
-- 
2.43.0


From 5263b4661c38f720e3d590a431c852f02231b95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:36 +0000
Subject: [PATCH 14/72] fix: exact filtering when only a partial Fourier basis
 was computed

---
 pygsp/filters/filter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pygsp/filters/filter.py b/pygsp/filters/filter.py
index cf15f7e..d58cff7 100644
--- a/pygsp/filters/filter.py
+++ b/pygsp/filters/filter.py
@@ -291,6 +291,7 @@ class Filter:
 
         if method == "exact":
             # TODO: will be handled by g.adjoint().
+            self.G.compute_fourier_basis()  # A partial basis is insufficient.
             axis = 1 if n_features_in == 1 else 2
             f = self.evaluate(self.G.e)
             f = np.expand_dims(f.T, axis)
-- 
2.43.0


From e6e829c363e568c179abdd83e83b6f4dfdcb1c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:36 +0000
Subject: [PATCH 15/72] fix: compute the frame of filter banks with as many
 filters as vertices

---
 pygsp/filters/filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/filters/filter.py b/pygsp/filters/filter.py
index d58cff7..f662981 100644
--- a/pygsp/filters/filter.py
+++ b/pygsp/filters/filter.py
@@ -597,7 +597,7 @@ class Filter:
             )
 
         # Filter one delta per vertex.
-        s = np.identity(self.G.N)
+        s = np.identity(self.G.N)[..., np.newaxis]
         return self.filter(s, **kwargs).T.reshape(-1, self.G.N)
 
     def complement(self, frame_bound=None):
-- 
2.43.0


From be9a621420c65acae1e3396316a99d9d45cc9f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:36 +0000
Subject: [PATCH 16/72] fix: count the filters in the Lanczos approximation

---
 pygsp/filters/approximations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/filters/approximations.py b/pygsp/filters/approximations.py
index bb46dba..2cd7098 100644
--- a/pygsp/filters/approximations.py
+++ b/pygsp/filters/approximations.py
@@ -244,7 +244,7 @@ def lanczos_op(f, s, order=30):
 
     """
     G = f.G
-    Nf = len(f.g)
+    Nf = f.Nf
 
     # To have the right shape for the output array depending on the signal dim
     try:
-- 
2.43.0


From 431f980e9b5ea6d8b101b80a591a6cde1a38ea76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:36 +0000
Subject: [PATCH 17/72] fix: don't modify the bounds given to
 compute_jackson_cheby_coeff, raise an exception if invalid

---
 pygsp/filters/approximations.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pygsp/filters/approximations.py b/pygsp/filters/approximations.py
index 2cd7098..5944960 100644
--- a/pygsp/filters/approximations.py
+++ b/pygsp/filters/approximations.py
@@ -187,19 +187,16 @@ def compute_jackson_cheby_coeff(filter_bounds, delta_lambda, m):
     """
     # Parameters check
     if delta_lambda[0] > filter_bounds[0] or delta_lambda[1] < filter_bounds[1]:
-        _logger.error("Bounds of the filter are out of the lambda values")
-        raise ()
+        raise ValueError("Bounds of the filter are out of the lambda values")
     elif delta_lambda[0] > delta_lambda[1]:
-        _logger.error("lambda_min is greater than lambda_max")
-        raise ()
+        raise ValueError("lambda_min is greater than lambda_max")
 
     # Scaling and translating to standard cheby interval
     a1 = (delta_lambda[1] - delta_lambda[0]) / 2
     a2 = (delta_lambda[1] + delta_lambda[0]) / 2
 
     # Scaling bounds of the band pass according to lrange
-    filter_bounds[0] = (filter_bounds[0] - a2) / a1
-    filter_bounds[1] = (filter_bounds[1] - a2) / a1
+    filter_bounds = [(bound - a2) / a1 for bound in filter_bounds]
 
     # First compute cheby coeffs
     ch = np.empty(m + 1, dtype=float)
-- 
2.43.0


From 7ecb3c5f1914e65bb45537182eae7bf89184efce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:36 +0000
Subject: [PATCH 18/72] fix: imports and error reporting of the community
 layout

---
 pygsp/graphs/_layout.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pygsp/graphs/_layout.py b/pygsp/graphs/_layout.py
index 9ee1a03..4239bc8 100644
--- a/pygsp/graphs/_layout.py
+++ b/pygsp/graphs/_layout.py
@@ -1,3 +1,5 @@
+from collections import Counter
+
 import numpy as np
 
 
@@ -63,7 +65,7 @@ class LayoutMixIn:
 
         elif kind == "community2D":
             if not hasattr(self, "info") or "node_com" not in self.info:
-                ValueError(
+                raise AttributeError(
                     "Missing arguments to the graph to be able to "
                     "compute community coordinates."
                 )
-- 
2.43.0


From 4f149305702f655b613cc25e4cf17e5549d944a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:00 +0000
Subject: [PATCH 19/72] fix: compute the Tig of each filter of a filter bank,
 with the requested filtering parameters

---
 pygsp/features.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygsp/features.py b/pygsp/features.py
index f70f19f..3790a9a 100644
--- a/pygsp/features.py
+++ b/pygsp/features.py
@@ -38,7 +38,8 @@ def compute_tig(g, **kwargs):
         Additional parameters to be passed to the
         :func:`pygsp.filters.Filter.filter` method.
     """
-    return g.compute_frame()
+    i = kwargs.pop("i", 0)
+    return g.compute_frame(**kwargs)[i * g.G.N : (i + 1) * g.G.N]
 
 
 @utils.filterbank_handler
-- 
2.43.0


From fca3900ed5d3aeefe724c00e6194046255199a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:00 +0000
Subject: [PATCH 20/72] fix: average the degrees, not the number of vertices
 reached, in compute_avg_adj_deg

---
 pygsp/features.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygsp/features.py b/pygsp/features.py
index 3790a9a..b7e439f 100644
--- a/pygsp/features.py
+++ b/pygsp/features.py
@@ -20,7 +20,8 @@ def compute_avg_adj_deg(G):
     G: Graph
         Graph on which the statistic is extracted
     """
-    return np.sum(np.dot(G.A, G.A), axis=1) / (np.sum(G.A, axis=1) + 1.0)
+    degrees = np.sum(G.A, axis=1)
+    return (degrees + G.A.dot(degrees)) / (degrees + 1.0)
 
 
 @utils.filterbank_handler
-- 
2.43.0


From 81e97e4e3cf1cfb830029ede079bed0a58efc689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:13 +0000
Subject: [PATCH 21/72] fix: Kron reduction of graphs without or with
 one-dimensional coordinates

---
 pygsp/reduction.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index d2ce01e..39d72c9 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -371,7 +371,10 @@ def kron_reduction(G, ind):
         # Removing diagonal for stability
         Wnew = Wnew - Wnew.diagonal()
 
-        coords = G.coords[ind, :] if len(G.coords.shape) else np.ndarray(None)
+        try:
+            coords = G.coords[ind]
+        except AttributeError:
+            coords = None
         Gnew = graphs.Graph(
             Wnew, coords=coords, lap_type=G.lap_type, plotting=G.plotting
         )
-- 
2.43.0


From 87820a19ca9df77fb23191ed3c30d07c6c96bd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:13 +0000
Subject: [PATCH 22/72] fix: Kron reduction to a single vertex

---
 pygsp/reduction.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index 39d72c9..bdac948 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -355,7 +355,9 @@ def kron_reduction(G, ind):
     L_out_in = L[np.ix_(ind_comp, ind)].tocsc()
     L_comp = L[np.ix_(ind_comp, ind_comp)].tocsc()
 
-    Lnew = L_red - L_in_out.dot(linalg.spsolve(L_comp, L_out_in))
+    # The solution is a dense vector if there is a single vertex to keep.
+    harmonic = sparse.csc_matrix(linalg.spsolve(L_comp, L_out_in))
+    Lnew = L_red - L_in_out.dot(harmonic.reshape(L_out_in.shape))
 
     # Make the laplacian symmetric if it is almost symmetric!
     if np.abs(Lnew - Lnew.T).sum() < np.spacing(1) * np.abs(Lnew).sum():
-- 
2.43.0


From d596bcf9085571b70797649481ee0dfc2f4f9fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:13 +0000
Subject: [PATCH 23/72] fix: only remove the diagonal in the Kron reduction,
 not every column's diagonal value

---
 pygsp/reduction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index bdac948..55aac6c 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -371,7 +371,7 @@ def kron_reduction(G, ind):
             Wnew = Wnew + sparse.diags(Snew, 0)
 
         # Removing diagonal for stability
-        Wnew = Wnew - Wnew.diagonal()
+        Wnew = Wnew - sparse.diags(Wnew.diagonal(), 0)
 
         try:
             coords = G.coords[ind]
-- 
2.43.0


From 1132d4d75e34057c8fcc3c1cd7863e5a34aebce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:13 +0000
Subject: [PATCH 24/72] fix: scipy.stats.itemfreq doesn't exist anymore

---
 pygsp/reduction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index 55aac6c..548bb7c 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -112,11 +112,11 @@ def graph_sparsify(M, epsilon, maxiter=10, seed=None):
         q = round(N * np.log(N) * 9 * C**2 / (epsilon**2))
 
         results = dist.rvs(size=int(q))
-        spin_counts = stats.itemfreq(results).astype(int)
+        spin_edges, spin_counts = np.unique(results, return_counts=True)
         per_spin_weights = weights / (q * Pe)
 
         counts = np.zeros(np.shape(weights)[0])
-        counts[spin_counts[:, 0]] = spin_counts[:, 1]
+        counts[spin_edges] = spin_counts
         new_weights = counts * per_spin_weights
 
         sparserW = sparse.csc_matrix(
-- 
2.43.0


From 191d500a4cf758d47ed98c725448d55fc789b710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:13 +0000
Subject: [PATCH 25/72] fix: Laplacian of the sparsified graph

---
 pygsp/reduction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index 548bb7c..8cb359a 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -123,7 +123,7 @@ def graph_sparsify(M, epsilon, maxiter=10, seed=None):
             (new_weights, (start_nodes, end_nodes)), shape=(N, N)
         )
         sparserW = sparserW + sparserW.T
-        sparserL = sparse.diags(sparserW.diagonal(), 0) - sparserW
+        sparserL = sparse.diags(np.ravel(sparserW.sum(axis=0)), 0) - sparserW
 
         if graphs.Graph(sparserW).is_connected():
             break
-- 
2.43.0


From 91def61ae9e495b5b5853857d0226bf63dd8cd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:13 +0000
Subject: [PATCH 26/72] fix: ignore self-loops when sparsifying a graph

---
 pygsp/reduction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index 8cb359a..40fb4bb 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -94,7 +94,7 @@ def graph_sparsify(M, epsilon, maxiter=10, seed=None):
     W = W.tocsc()
     W.eliminate_zeros()
 
-    start_nodes, end_nodes, weights = sparse.find(sparse.tril(W))
+    start_nodes, end_nodes, weights = sparse.find(sparse.tril(W, k=-1))
 
     # Calculate the new weights.
     weights = np.maximum(0, weights)
-- 
2.43.0


From 4ad8de9d41088531ca6add26c2f94cc50e2d7483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:13 +0000
Subject: [PATCH 27/72] fix: don't sparsify graphs too small for the
 sparsification parameter

---
 pygsp/reduction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index 40fb4bb..2c86865 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -286,7 +286,7 @@ def graph_multiresolution(
         else:
             raise NotImplementedError("Unknown graph reduction method.")
 
-        if sparsify and Gs[i + 1].N > 2:
+        if sparsify and Gs[i + 1].N > 4:
             Gs[i + 1] = graph_sparsify(
                 Gs[i + 1], min(max(sparsify_eps, 2.0 / np.sqrt(Gs[i + 1].N)), 1.0)
             )
-- 
2.43.0


From abe6980febfa2620777621d170390306c98bea62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:13 +0000
Subject: [PATCH 28/72] fix: interpolate multiple signals, and on graphs which
 don't come from a multiresolution

---
 pygsp/reduction.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index 2c86865..68dad53 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -175,10 +175,8 @@ def interpolate(G, f_subsampled, keep_inds, order=100, reg_eps=0.005, **kwargs):
 
     """
     L_reg = G.L + reg_eps * sparse.eye(G.N)
-    K_reg = getattr(G.mr, "K_reg", kron_reduction(L_reg, keep_inds))
-    green_kernel = getattr(
-        G.mr, "green_kernel", filters.Filter(G, lambda x: 1.0 / (reg_eps + x))
-    )
+    K_reg = kron_reduction(L_reg, keep_inds)
+    green_kernel = filters.Filter(G, lambda x: 1.0 / (reg_eps + x))
 
     alpha = K_reg.dot(f_subsampled)
 
@@ -190,7 +188,8 @@ def interpolate(G, f_subsampled, keep_inds, order=100, reg_eps=0.005, **kwargs):
 
     f_interpolated[keep_inds] = alpha
 
-    return _analysis(green_kernel, f_interpolated, order=order, **kwargs)
+    f_filtered = green_kernel.filter(f_interpolated, order=order, **kwargs)
+    return f_filtered.reshape(f_interpolated.shape)
 
 
 def graph_multiresolution(
-- 
2.43.0


From 021bda4addd030b36210ebe73f8ea0d0a52ff529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:13 +0000
Subject: [PATCH 29/72] fix: pyramid transform of one or multiple signals, and
 with a given regularization

---
 pygsp/reduction.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index 68dad53..8398c13 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -440,9 +440,13 @@ def pyramid_analysis(Gs, f, **kwargs):
     ca = [f]
     pe = []
 
+    # The regularization is for the interpolation only.
+    filter_kwargs = {k: v for k, v in kwargs.items() if k != "reg_eps"}
+
     for i in range(levels):
         # Low pass the signal
-        s_low = _analysis(filters.Filter(Gs[i], h_filters[i]), ca[i], **kwargs)
+        s_low = filters.Filter(Gs[i], h_filters[i]).filter(ca[i], **filter_kwargs)
+        s_low = s_low.reshape(np.shape(ca[i]))
         # Keep only the coefficient on the selected nodes
         ca.append(s_low[Gs[i + 1].mr["idx"]])
         # Compute prediction
@@ -493,7 +497,7 @@ def pyramid_synthesis(Gs, cap, pe, order=30, **kwargs):
     least_squares = bool(kwargs.pop("least_squares", False))
     def_ul = Gs[0].N > 3000 or Gs[0]._e is None or Gs[0]._U is None
     use_landweber = bool(kwargs.pop("use_landweber", def_ul))
-    reg_eps = float(kwargs.get("reg_eps", 0.005))
+    reg_eps = float(kwargs.pop("reg_eps", 0.005))
 
     if least_squares and "h_filters" not in kwargs:
         ValueError("h-filters not provided.")
-- 
2.43.0


From 3154849a16aff8d82908e7251c8cc1bd5c2cc81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:13 +0000
Subject: [PATCH 30/72] fix: analyze and synthesize with the same interpolation
 order by default

---
 pygsp/reduction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index 8398c13..eb6e911 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -457,7 +457,7 @@ def pyramid_analysis(Gs, f, **kwargs):
     return ca, pe
 
 
-def pyramid_synthesis(Gs, cap, pe, order=30, **kwargs):
+def pyramid_synthesis(Gs, cap, pe, order=100, **kwargs):
     r"""Synthesize a signal from its pyramid coefficients.
 
     Parameters
@@ -471,7 +471,7 @@ def pyramid_synthesis(Gs, cap, pe, order=30, **kwargs):
     use_exact : bool
         To use exact graph spectral filtering instead of the Chebyshev approximation.
     order : int
-        Degree of the Chebyshev approximation (default=30).
+        Degree of the Chebyshev approximation (default=100).
     least_squares : bool
         To use the least squares synthesis (default=False).
     h_filters : ndarray
-- 
2.43.0


From 1a33b088ff09015cc106f6b3714cbc377d2846ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:13 +0000
Subject: [PATCH 31/72] fix: raise if the number of prediction errors doesn't
 match the number of levels

---
 pygsp/reduction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index eb6e911..33d8bde 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -504,7 +504,7 @@ def pyramid_synthesis(Gs, cap, pe, order=100, **kwargs):
 
     levels = len(Gs) - 1
     if len(pe) != levels:
-        ValueError("Gs and pe have different shapes.")
+        raise ValueError("Gs and pe have different shapes.")
 
     ca = [cap]
 
-- 
2.43.0


From fa0d6be29408c500567d9e3c0626dd54e1bcf68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:15 +0000
Subject: [PATCH 32/72] fix: don't break the signals of a graph when exporting
 it

---
 pygsp/graphs/_io.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/pygsp/graphs/_io.py b/pygsp/graphs/_io.py
index e2b3223..a7db5dc 100644
--- a/pygsp/graphs/_io.py
+++ b/pygsp/graphs/_io.py
@@ -28,12 +28,18 @@ def _import_graphtool():
 
 class IOMixIn:
     def _break_signals(self):
-        r"""Break N-dimensional signals into N 1D signals."""
-        for name in list(self.signals.keys()):
-            if self.signals[name].ndim == 2:
-                for i, signal_1d in enumerate(self.signals[name].T):
-                    self.signals[name + "_" + str(i)] = signal_1d
-                del self.signals[name]
+        r"""Break N-dimensional signals into N 1D signals.
+
+        The signals are returned. Those attached to the graph are unchanged.
+        """
+        signals = dict()
+        for name, signal in self.signals.items():
+            if signal.ndim == 2:
+                for i, signal_1d in enumerate(signal.T):
+                    signals[name + "_" + str(i)] = signal_1d
+            else:
+                signals[name] = signal
+        return signals
 
     def _join_signals(self):
         r"""Join N 1D signals into one N-dimensional signal."""
@@ -126,15 +132,15 @@ class IOMixIn:
             for source, target, weight in zip(*self.get_edge_list()):
                 yield int(source), int(target), {"weight": convert(weight)}
 
+        signals = self._break_signals()
+
         def nodes():
             for vertex in range(self.n_vertices):
-                signals = {
+                yield vertex, {
                     name: convert(signal[vertex])
-                    for name, signal in self.signals.items()
+                    for name, signal in signals.items()
                 }
-                yield vertex, signals
 
-        self._break_signals()
         graph = nx.DiGraph() if self.is_directed() else nx.Graph()
         graph.add_nodes_from(nodes())
         graph.add_edges_from(edges())
@@ -208,8 +214,7 @@ class IOMixIn:
         prop.get_array()[:] = weights
         graph.edge_properties["weight"] = prop
 
-        self._break_signals()
-        for name, signal in self.signals.items():
+        for name, signal in self._break_signals().items():
             prop = graph.new_vertex_property(gt._gt_type(signal.dtype))
             prop.get_array()[:] = signal
             graph.vertex_properties[name] = prop
-- 
2.43.0


From 8de98388d4d28ec0a3e86a53425c7e90db3b7bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:15 +0000
Subject: [PATCH 33/72] fix: only join the signals which were broken at export,
 in the order of the dimensions

---
 pygsp/graphs/_io.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/pygsp/graphs/_io.py b/pygsp/graphs/_io.py
index a7db5dc..f1ce329 100644
--- a/pygsp/graphs/_io.py
+++ b/pygsp/graphs/_io.py
@@ -45,17 +45,20 @@ class IOMixIn:
         r"""Join N 1D signals into one N-dimensional signal."""
         joined = dict()
         for name in self.signals:
-            name_base = name.rsplit("_", 1)[0]
-            names = joined.get(name_base, list())
-            names.append(name)
-            joined[name_base] = names
+            # Only consider names made by _break_signals: name_0, name_1, etc.
+            name_base, _, dim = name.rpartition("_")
+            if dim.isdecimal() and dim == str(int(dim)):
+                joined.setdefault(name_base, dict())[int(dim)] = name
         for name_base, names in joined.items():
-            if len(names) > 1:
-                names = sorted(names)  # ensure dim ordering (_0, _1, etc.)
-                signal_nd = np.stack([self.signals[n] for n in names], axis=1)
-                self.signals[name_base] = signal_nd
-                for name in names:
-                    del self.signals[name]
+            dims = sorted(names)  # ensure dim ordering (_0, _1, etc.)
+            if name_base in self.signals or len(dims) < 2:
+                continue
+            if dims != list(range(len(dims))):
+                continue
+            signal_nd = np.stack([self.signals[names[d]] for d in dims], axis=1)
+            for name in names.values():
+                del self.signals[name]
+            self.signals[name_base] = signal_nd
 
     def to_networkx(self):
         r"""Export the graph to NetworkX.
-- 
2.43.0


From 52836421316a7de0c5bcf990001e0819d05ca57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:15 +0000
Subject: [PATCH 34/72] fix: export isolated vertices to graph-tool

---
 pygsp/graphs/_io.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pygsp/graphs/_io.py b/pygsp/graphs/_io.py
index f1ce329..aff8a0f 100644
--- a/pygsp/graphs/_io.py
+++ b/pygsp/graphs/_io.py
@@ -210,6 +210,7 @@ class IOMixIn:
 
         gt = _import_graphtool()
         graph = gt.Graph(directed=self.is_directed())
+        graph.add_vertex(self.n_vertices)  # including isolated vertices
 
         sources, targets, weights = self.get_edge_list()
         graph.add_edge_list(zip(sources, targets))
-- 
2.43.0


From d9e71cbb43cd3337e40d68959a7987ed55375580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:15 +0000
Subject: [PATCH 35/72] fix: export boolean weights and signals to graph-tool

---
 pygsp/graphs/_io.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pygsp/graphs/_io.py b/pygsp/graphs/_io.py
index aff8a0f..61e91c7 100644
--- a/pygsp/graphs/_io.py
+++ b/pygsp/graphs/_io.py
@@ -212,14 +212,18 @@ class IOMixIn:
         graph = gt.Graph(directed=self.is_directed())
         graph.add_vertex(self.n_vertices)  # including isolated vertices
 
+        def value_type(array):
+            # graph-tool takes NumPy booleans as arbitrary python objects.
+            return "bool" if array.dtype == bool else gt._gt_type(array.dtype)
+
         sources, targets, weights = self.get_edge_list()
         graph.add_edge_list(zip(sources, targets))
-        prop = graph.new_edge_property(gt._gt_type(weights.dtype))
+        prop = graph.new_edge_property(value_type(weights))
         prop.get_array()[:] = weights
         graph.edge_properties["weight"] = prop
 
         for name, signal in self._break_signals().items():
-            prop = graph.new_vertex_property(gt._gt_type(signal.dtype))
+            prop = graph.new_vertex_property(value_type(signal))
             prop.get_array()[:] = signal
             graph.vertex_properties[name] = prop
 
-- 
2.43.0


From 513019be86f8ec359163ef510445beabe18de7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:16 +0000
Subject: [PATCH 36/72] fix: import the weight of undirected self-loops from
 graph-tool once

---
 pygsp/graphs/_io.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pygsp/graphs/_io.py b/pygsp/graphs/_io.py
index 61e91c7..7321d10 100644
--- a/pygsp/graphs/_io.py
+++ b/pygsp/graphs/_io.py
@@ -376,6 +376,10 @@ class IOMixIn:
 
         weight = graph.edge_properties.get(weight, None)
         adjacency = gt.spectral.adjacency(graph, weight=weight)
+        if not graph.is_directed():
+            # graph-tool counts the two ends of undirected self-loops.
+            adjacency = adjacency.tolil()
+            adjacency.setdiag(adjacency.diagonal() / 2)
         graph_pg = Graph(adjacency.T)
 
         for name, signal in graph.vertex_properties.items():
-- 
2.43.0


From 3ab00fab39ce2471740334473dcd9c70a253bed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:32 +0000
Subject: [PATCH 37/72] fix: symmetrize matrices of booleans and small integers
 without overflow

---
 pygsp/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/utils.py b/pygsp/utils.py
index c286f33..67da822 100644
--- a/pygsp/utils.py
+++ b/pygsp/utils.py
@@ -245,7 +245,7 @@ def symmetrize(W, method="average"):
         raise ValueError("Matrix must be square.")
 
     if method == "average":
-        return (W + W.T) / 2
+        return W / 2 + W.T / 2  # the sum might overflow (booleans, small integers)
 
     elif method == "maximum":
         if sparse.issparse(W):
-- 
2.43.0


From 26ddb8a80c1443bf86dd74448882c62d914b1ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:32 +0000
Subject: [PATCH 38/72] fix: full precision differential operator of graphs
 with small integer weights

---
 pygsp/graphs/difference.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pygsp/graphs/difference.py b/pygsp/graphs/difference.py
index 23cef80..6928438 100644
--- a/pygsp/graphs/difference.py
+++ b/pygsp/graphs/difference.py
@@ -142,6 +142,7 @@ class DifferenceMixIn:
         """
 
         sources, targets, weights = self.get_edge_list()
+        weights = weights.astype(float)  # the root of small integers is imprecise
 
         n = self.n_edges
         rows = np.concatenate([sources, targets])
-- 
2.43.0


From 6e51c8bc51c97e2f49843ad1c98cf6779ec64224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:53 +0000
Subject: [PATCH 39/72] fix: scale the tolerance on the largest eigenvalue with
 the weights

---
 pygsp/graphs/fourier.py | 6 ++++--
 pygsp/graphs/graph.py   | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/pygsp/graphs/fourier.py b/pygsp/graphs/fourier.py
index 43d7de7..7da944f 100644
--- a/pygsp/graphs/fourier.py
+++ b/pygsp/graphs/fourier.py
@@ -178,7 +178,9 @@ class FourierMixIn:
         # Smallest eigenvalue should be zero: correct numerical errors.
         # Eigensolver might sometimes return small negative values, which
         # filter's implementations may not anticipate. Better for plotting too.
-        assert -1e-5 < self._e[0] < 1e-5
+        bound = self._get_upper_bound()
+        tol = 1e-5 * max(bound, 1)  # Rounding errors scale with the weights.
+        assert -tol < self._e[0] < tol
         self._e[0] = 0
 
         # we set the first eigenvector to have positive values:
@@ -186,7 +188,7 @@ class FourierMixIn:
             self._U[0, :] = -self._U[0, :]
 
         # Bounded spectrum.
-        assert self._e[-1] <= self._get_upper_bound() + 1e-5
+        assert self._e[-1] <= bound + tol
 
         assert np.max(self._e) == self._e[-1]
         if n_eigenvectors == self.N:
diff --git a/pygsp/graphs/graph.py b/pygsp/graphs/graph.py
index 6ee1a8a..150ab42 100644
--- a/pygsp/graphs/graph.py
+++ b/pygsp/graphs/graph.py
@@ -917,7 +917,7 @@ class Graph(FourierMixIn, DifferenceMixIn, IOMixIn, LayoutMixIn):
                     return_eigenvectors=False,
                 )
                 lmax = lmax[0]
-                assert lmax <= self._get_upper_bound() + 1e-12
+                assert lmax <= (1 + 1e-5) * self._get_upper_bound()
                 lmax *= 1.01  # Increase by 1% to be robust to errors.
                 self._lmax = lmax
             except sparse.linalg.ArpackNoConvergence:
-- 
2.43.0


From ec772b6c21cb7d13ed8173639f5a63e72f2ac72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:57 +0000
Subject: [PATCH 40/72] fix: zero all eigenvalues which are negative by
 rounding

---
 pygsp/graphs/fourier.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pygsp/graphs/fourier.py b/pygsp/graphs/fourier.py
index 7da944f..7a6bbeb 100644
--- a/pygsp/graphs/fourier.py
+++ b/pygsp/graphs/fourier.py
@@ -182,6 +182,7 @@ class FourierMixIn:
         tol = 1e-5 * max(bound, 1)  # Rounding errors scale with the weights.
         assert -tol < self._e[0] < tol
         self._e[0] = 0
+        self._e[self._e < 0] = 0  # Multiple components have multiple zeros.
 
         # we set the first eigenvector to have positive values:
         if np.abs(self._U[0, 0]).sum() < 0:
-- 
2.43.0


From 93ac63cb5c15a8b534b2868b99aa0af808f2bd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:48 +0000
Subject: [PATCH 41/72] fix: accept arrays and tuples as times and speeds of
 the wave filter, and as scales of simple tight frames

---
 pygsp/filters/simpletight.py | 2 +-
 pygsp/filters/wave.py        | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pygsp/filters/simpletight.py b/pygsp/filters/simpletight.py
index facc13b..a552b1a 100644
--- a/pygsp/filters/simpletight.py
+++ b/pygsp/filters/simpletight.py
@@ -82,7 +82,7 @@ class SimpleTight(Filter):
 
             return r
 
-        if not scales:
+        if scales is None:
             scales = 1.0 / (2.0 * G.lmax) * np.power(2, np.arange(Nf - 2, -1, -1))
         self.scales = scales
 
diff --git a/pygsp/filters/wave.py b/pygsp/filters/wave.py
index 04788d2..3038914 100644
--- a/pygsp/filters/wave.py
+++ b/pygsp/filters/wave.py
@@ -103,9 +103,9 @@ class Wave(Filter):
 
         if len(time) != len(speed):
             if len(speed) == 1:
-                speed = speed * len(time)
+                speed = list(speed) * len(time)
             elif len(time) == 1:
-                time = time * len(speed)
+                time = list(time) * len(speed)
             else:
                 raise ValueError(
                     "If both parameters are iterable, "
-- 
2.43.0


From de58914cb5394a3b1ec10472c19c6ab50670a1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:31 +0000
Subject: [PATCH 42/72] fix: evaluate the inverse of a filter bank at values of
 any shape

---
 pygsp/filters/filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/filters/filter.py b/pygsp/filters/filter.py
index f662981..8d14d7d 100644
--- a/pygsp/filters/filter.py
+++ b/pygsp/filters/filter.py
@@ -753,7 +753,7 @@ class Filter:
         def kernel(g, i, x):
             y = g.evaluate(x).T
             z = np.linalg.pinv(np.expand_dims(y, axis=-1)).squeeze(axis=-2)
-            return z[:, i]  # Return one filter.
+            return z[..., i].T  # Return one filter.
 
         kernels = [partial(kernel, self, i) for i in range(self.n_filters)]
 
-- 
2.43.0


From e98493fe2284c475195a92dbe6d511600ddcc66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:55 +0000
Subject: [PATCH 43/72] fix: stop the Lanczos iterations when the Krylov
 subspace is invariant, and keep all of it

---
 pygsp/filters/approximations.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pygsp/filters/approximations.py b/pygsp/filters/approximations.py
index 5944960..35d4398 100644
--- a/pygsp/filters/approximations.py
+++ b/pygsp/filters/approximations.py
@@ -294,7 +294,8 @@ def lanczos(A, order, x):
         x = x[:, np.newaxis]
 
     # normalization
-    q = np.divide(x, np.kron(np.ones((N, 1)), np.linalg.norm(x, axis=0)))
+    norm = np.tile(np.linalg.norm(x, axis=0), (N, 1))
+    q = np.divide(x, norm, out=np.zeros((N, M)), where=norm > 0)
 
     # initialization
     hiv = np.arange(0, order * M, order)
@@ -310,9 +311,12 @@ def lanczos(A, order, x):
     orth = np.zeros(order)
     orth[0] = np.linalg.norm(np.dot(V.T, V) - M)
 
+    # The Krylov subspace is invariant, up to rounding errors, if r vanishes.
+    tol = 1e-12 * np.linalg.norm(A)
+
     for k in range(1, order):
-        if np.sum(np.abs(H[k, hiv + k - 1])) <= np.spacing(1):
-            H = H[: k - 1, _sum_ind(np.arange(k), hiv)]
+        if np.sum(np.abs(H[k, hiv + k - 1])) <= tol:
+            H = H[:k, _sum_ind(np.arange(k), hiv)]
             V = V[:, _sum_ind(np.arange(k), hiv)]
             orth = orth[:k]
 
-- 
2.43.0


From f88711a4987aa43ba611cb414953a28647c07048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:55 +0000
Subject: [PATCH 44/72] fix: diagonalize the Lanczos matrix as the symmetric
 matrix it is

The eigenvectors of nearly degenerate eigenvalues aren't orthogonal
otherwise, and the filtered signal is wrong (e.g., on a complete graph
for a signal that is almost an eigenvector).
---
 pygsp/filters/approximations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/filters/approximations.py b/pygsp/filters/approximations.py
index 35d4398..a6d1483 100644
--- a/pygsp/filters/approximations.py
+++ b/pygsp/filters/approximations.py
@@ -260,7 +260,7 @@ def lanczos_op(f, s, order=30):
         else:
             V, H, _ = lanczos(G.L.toarray(), order, s)
 
-        Eh, Uh = np.linalg.eig(H)
+        Eh, Uh = np.linalg.eigh(H)
 
         Eh[Eh < 0] = 0
         fe = f.evaluate(Eh)
-- 
2.43.0


From f066007fe6e4bf46faf02db96c8a7038339432e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:51 +0000
Subject: [PATCH 45/72] fix: refuse to save as GEXF with graph-tool before
 emptying the file

---
 pygsp/graphs/_io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pygsp/graphs/_io.py b/pygsp/graphs/_io.py
index 7321d10..7789274 100644
--- a/pygsp/graphs/_io.py
+++ b/pygsp/graphs/_io.py
@@ -558,6 +558,8 @@ class IOMixIn:
             save(graph, path)
 
         def save_graphtool(graph, path, fmt):
+            if fmt == "gexf":  # Fails after having emptied the file.
+                raise ValueError("Unsupported format gexf with graph-tool.")
             graph = graph.to_graphtool()
             graph.save(path, fmt=fmt)
 
-- 
2.43.0


From 999c5b00c89afc15ec231335eb8c68a4b836729b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:34 +0000
Subject: [PATCH 46/72] fix: edge (1, 0) of the low stretch tree was a
 self-loop

---
 pygsp/graphs/lowstretchtree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/graphs/lowstretchtree.py b/pygsp/graphs/lowstretchtree.py
index 5bb9f24..9ddd3eb 100644
--- a/pygsp/graphs/lowstretchtree.py
+++ b/pygsp/graphs/lowstretchtree.py
@@ -33,7 +33,7 @@ class LowStretchTree(Graph):
         YCoords = np.array([1, 1, 2, 2], dtype=int)
 
         ii = np.array([0, 0, 1, 2, 2, 3], dtype=int)
-        jj = np.array([1, 2, 1, 3, 0, 2], dtype=int)
+        jj = np.array([1, 2, 0, 3, 0, 2], dtype=int)
 
         for p in range(1, k):
             ii = np.concatenate(
-- 
2.43.0


From 01d7a0cc4d080bda3f198a8ab6c374df4f057a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:42 +0000
Subject: [PATCH 47/72] fix: spheres and cubes have the radius asked for

---
 pygsp/graphs/nngraphs/cube.py   | 2 ++
 pygsp/graphs/nngraphs/sphere.py | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/pygsp/graphs/nngraphs/cube.py b/pygsp/graphs/nngraphs/cube.py
index 6b46a6d..1f06ceb 100644
--- a/pygsp/graphs/nngraphs/cube.py
+++ b/pygsp/graphs/nngraphs/cube.py
@@ -70,6 +70,8 @@ class Cube(NNGraph):
                     (rs.rand(n, 2), np.ones((n, 1))), axis=1
                 )
 
+            pts = self.radius * pts
+
         else:
             raise ValueError("Unknown sampling !")
 
diff --git a/pygsp/graphs/nngraphs/sphere.py b/pygsp/graphs/nngraphs/sphere.py
index e490031..936556b 100644
--- a/pygsp/graphs/nngraphs/sphere.py
+++ b/pygsp/graphs/nngraphs/sphere.py
@@ -46,7 +46,7 @@ class Sphere(NNGraph):
             pts = rs.normal(0, 1, (self.nb_pts, self.nb_dim))
 
             for i in range(self.nb_pts):
-                pts[i] /= np.linalg.norm(pts[i])
+                pts[i] *= self.radius / np.linalg.norm(pts[i])
 
         else:
             raise ValueError(f"Unknown sampling {sampling}")
-- 
2.43.0


From 64194b57ab844cfd4d9b7d75c9b0f7c0525861e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:00 +0000
Subject: [PATCH 48/72] fix: communities may be empty

---
 pygsp/graphs/community.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pygsp/graphs/community.py b/pygsp/graphs/community.py
index e54da09..c01b064 100644
--- a/pygsp/graphs/community.py
+++ b/pygsp/graphs/community.py
@@ -1,4 +1,3 @@
-import collections
 import copy
 
 import numpy as np
@@ -130,12 +129,9 @@ class Community(Graph):
                 raise ValueError("The sum of community sizes should be N.")
             # create labels based on the constraint given for the community sizes.
             # No random assignation here.
-            info["node_com"] = np.concatenate(
-                [[val] * cnt for (val, cnt) in enumerate(comm_sizes)]
-            )
+            info["node_com"] = np.repeat(np.arange(Nc), comm_sizes)
 
-        counts = collections.Counter(info["node_com"])
-        info["comm_sizes"] = np.array([cnt[1] for cnt in sorted(counts.items())])
+        info["comm_sizes"] = np.bincount(info["node_com"], minlength=Nc)
         info["world_rad"] = size_ratio * np.sqrt(N)
 
         # Intra-community edges construction #
@@ -189,6 +185,8 @@ class Community(Graph):
         first_node = 0
         for i in range(Nc):
             com_siz = info["comm_sizes"][i]
+            if com_siz == 0:
+                continue
             M = com_siz * (com_siz - 1) / 2
 
             if comm_density is not None:
-- 
2.43.0


From a86c375fdcb8636677e3a7a0480ad6134ff2ef7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:56 +0000
Subject: [PATCH 49/72] fix: the number of neighbors doesn't limit radius
 graphs

---
 pygsp/graphs/nngraphs/nngraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/graphs/nngraphs/nngraph.py b/pygsp/graphs/nngraphs/nngraph.py
index e722fe3..9b1f4d6 100644
--- a/pygsp/graphs/nngraphs/nngraph.py
+++ b/pygsp/graphs/nngraphs/nngraph.py
@@ -120,7 +120,7 @@ class NNGraph(Graph):
         N, d = np.shape(self.Xin)
         Xout = self.Xin
 
-        if k >= N:
+        if NNtype == "knn" and k >= N:
             raise ValueError(
                 "The number of neighbors (k={}) must be smaller "
                 "than the number of nodes ({}).".format(k, N)
-- 
2.43.0


From 0e0cb1e0d892f99c4088408251dbfa79a52d1a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:55 +0000
Subject: [PATCH 50/72] fix: the Kron reduction of a single precision graph is
 undirected

---
 pygsp/reduction.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index 33d8bde..c319a29 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -358,8 +358,12 @@ def kron_reduction(G, ind):
     harmonic = sparse.csc_matrix(linalg.spsolve(L_comp, L_out_in))
     Lnew = L_red - L_in_out.dot(harmonic.reshape(L_out_in.shape))
 
+    # The reduction of an undirected graph is undirected.
     # Make the laplacian symmetric if it is almost symmetric!
-    if np.abs(Lnew - Lnew.T).sum() < np.spacing(1) * np.abs(Lnew).sum():
+    asymmetry = np.abs(Lnew - Lnew.T).sum()
+    if isinstance(G, graphs.Graph) or (
+        asymmetry < np.spacing(1) * np.abs(Lnew).sum()
+    ):
         Lnew = (Lnew + Lnew.T) / 2.0
 
     if isinstance(G, graphs.Graph):
-- 
2.43.0


From 7d48bb656ec81c02d6cad04cb9c46480014a9e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:25 +0000
Subject: [PATCH 51/72] fix: resistance distance with Laplacians that are
 singular up to rounding errors

---
 pygsp/utils.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pygsp/utils.py b/pygsp/utils.py
index 67da822..42fc9a6 100644
--- a/pygsp/utils.py
+++ b/pygsp/utils.py
@@ -164,12 +164,14 @@ def resistance_distance(G):
             raise ValueError("Need a combinatorial Laplacian.")
         L = G.L.tocsc()
 
-    try:
-        pseudo = sparse.linalg.inv(L)
-    except RuntimeError:
-        pseudo = sparse.lil_matrix(np.linalg.pinv(L.toarray()))
-
     N = np.shape(L)[0]
+
+    # A Laplacian is singular, but only up to rounding errors.
+    L = L.toarray()
+    L = L.astype(np.result_type(L.dtype, np.float32), copy=False)
+    pseudo = np.linalg.pinv(L, rcond=N * np.finfo(L.dtype).eps)
+    pseudo = sparse.lil_matrix(pseudo)
+
     d = sparse.csc_matrix(pseudo.diagonal())
     rd = (
         sparse.kron(d, sparse.csc_matrix(np.ones((N, 1)))).T
-- 
2.43.0


From e09bf00b1162fec83edacc8302283539714f58df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:13 +0000
Subject: [PATCH 52/72] fix: a multiresolution doesn't alter the cached Fourier
 basis

---
 pygsp/reduction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index c319a29..e047b79 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -273,7 +273,8 @@ def graph_multiresolution(
             else:
                 V = linalg.eigs(Gs[i].L, 1)[1][:, 0]
 
-            V *= np.sign(V[0])
+            # Leave the cached Fourier basis alone.
+            V = V * (np.sign(V[0]) or 1)
             ind = np.nonzero(V >= 0)[0]
 
         else:
-- 
2.43.0


From 0a4fe3b2dad627fce6c0e17a445fe65b5a0428b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:54 +0000
Subject: [PATCH 53/72] fix: sparsifying draws at least one edge

---
 pygsp/reduction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index e047b79..18dfc93 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -109,7 +109,7 @@ def graph_sparsify(M, epsilon, maxiter=10, seed=None):
         C0 = 1 / 30.0
         # Rudelson and Vershynin, 2007, Thm. 3.1
         C = 4 * C0
-        q = round(N * np.log(N) * 9 * C**2 / (epsilon**2))
+        q = max(1, round(N * np.log(N) * 9 * C**2 / (epsilon**2)))
 
         results = dist.rvs(size=int(q))
         spin_edges, spin_counts = np.unique(results, return_counts=True)
-- 
2.43.0


From 7cafb43b2c32a77511d425c70885a73461c72c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:02 +0000
Subject: [PATCH 54/72] fix: regression of several complex signals

---
 pygsp/learning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/learning.py b/pygsp/learning.py
index 163ee3f..929f612 100644
--- a/pygsp/learning.py
+++ b/pygsp/learning.py
@@ -329,7 +329,7 @@ def regression_tikhonov(G, y, M, tau=0):
             LinearOp = sparse.linalg.LinearOperator([G.N, G.N], Op)
 
             if y.ndim > 1:
-                sol = np.empty(shape=y.shape)
+                sol = np.empty(shape=y.shape, dtype=np.result_type(y, float))
                 res = np.empty(shape=y.shape[1])
                 for i in range(y.shape[1]):
                     sol[:, i], res[i] = sparse.linalg.cg(LinearOp, y[:, i])
-- 
2.43.0


From 3b3742f0e50b7fdb67a941c3bc5a94d70bb44f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:09 +0000
Subject: [PATCH 55/72] fix: symmetrize integer matrices in any sparse format

---
 pygsp/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/utils.py b/pygsp/utils.py
index 42fc9a6..6510296 100644
--- a/pygsp/utils.py
+++ b/pygsp/utils.py
@@ -247,7 +247,7 @@ def symmetrize(W, method="average"):
         raise ValueError("Matrix must be square.")
 
     if method == "average":
-        return W / 2 + W.T / 2  # the sum might overflow (booleans, small integers)
+        return W * 0.5 + W.T * 0.5  # the sum might overflow (booleans, small integers)
 
     elif method == "maximum":
         if sparse.issparse(W):
-- 
2.43.0


From d4b662b90cf8d2c670606ebb81ffd57a3542063e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:33 +0000
Subject: [PATCH 56/72] fix: distances between columns of small integers

---
 pygsp/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pygsp/utils.py b/pygsp/utils.py
index 6510296..6e36195 100644
--- a/pygsp/utils.py
+++ b/pygsp/utils.py
@@ -128,6 +128,10 @@ def distanz(x, y=None):
     if rx != ry:
         raise ValueError("The sizes of x and y do not fit")
 
+    # The products might overflow (small integers).
+    x = x.astype(np.result_type(x.dtype, float))
+    y = y.astype(np.result_type(y.dtype, float))
+
     xx = (x * x).sum(axis=0)
     yy = (y * y).sum(axis=0)
     xy = np.dot(x.T, y)
-- 
2.43.0


From e85e0f519e917aa62868f77c819f3ac68d157ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:21 +0000
Subject: [PATCH 57/72] fix: spring layouts fit in the requested scale on all
 sides (and aren't NaN for a single vertex)

---
 pygsp/graphs/_layout.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pygsp/graphs/_layout.py b/pygsp/graphs/_layout.py
index 4239bc8..d6727f3 100644
--- a/pygsp/graphs/_layout.py
+++ b/pygsp/graphs/_layout.py
@@ -225,11 +225,12 @@ def _rescale_layout(pos, scale=1):
     # rescale to (-scale, scale) in all axes
 
     # shift origin to (0,0)
-    lim = 0  # max coordinate for all axes
+    lim = 0  # max absolute coordinate for all axes
     for i in range(pos.shape[1]):
         pos[:, i] -= pos[:, i].mean()
-        lim = max(pos[:, i].max(), lim)
+        lim = max(np.abs(pos[:, i]).max(), lim)
     # rescale to (-scale,scale) in all directions, preserves aspect
-    for i in range(pos.shape[1]):
-        pos[:, i] *= scale / lim
+    if lim > 0:
+        for i in range(pos.shape[1]):
+            pos[:, i] *= scale / lim
     return pos
-- 
2.43.0


From c045e468c87efd055aa8ad783a2ffe89002db14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:21 +0000
Subject: [PATCH 58/72] fix: size of the domain of spring layouts with initial
 positions at or below zero

---
 pygsp/graphs/_layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/graphs/_layout.py b/pygsp/graphs/_layout.py
index d6727f3..ac16f23 100644
--- a/pygsp/graphs/_layout.py
+++ b/pygsp/graphs/_layout.py
@@ -147,7 +147,7 @@ class LayoutMixIn:
             pos_arr = None
         else:
             # Determine size of existing domain to adjust initial positions
-            dom_size = np.max(pos)
+            dom_size = np.max(np.abs(pos)) or 1
             rng = np.random.default_rng(seed)
             pos_arr = rng.uniform(size=(self.N, dim))
             pos_arr = pos_arr * dom_size + center
-- 
2.43.0


From b69f23246ded2da9741fabfb02f59b13bf33fda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:21 +0000
Subject: [PATCH 59/72] fix: a refused community layout leaves coordinates and
 information in place

---
 pygsp/graphs/_layout.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/pygsp/graphs/_layout.py b/pygsp/graphs/_layout.py
index ac16f23..04c3e26 100644
--- a/pygsp/graphs/_layout.py
+++ b/pygsp/graphs/_layout.py
@@ -70,18 +70,20 @@ class LayoutMixIn:
                     "compute community coordinates."
                 )
 
-            if "world_rad" not in self.info:
-                self.info["world_rad"] = np.sqrt(self.N)
+            info = dict(self.info)
 
-            if "comm_sizes" not in self.info:
-                counts = Counter(self.info["node_com"])
-                self.info["comm_sizes"] = np.array(
+            if "world_rad" not in info:
+                info["world_rad"] = np.sqrt(self.N)
+
+            if "comm_sizes" not in info:
+                counts = Counter(info["node_com"])
+                info["comm_sizes"] = np.array(
                     [cnt[1] for cnt in sorted(counts.items())]
                 )
 
-            Nc = self.info["comm_sizes"].shape[0]
+            Nc = info["comm_sizes"].shape[0]
 
-            self.info["com_coords"] = self.info["world_rad"] * np.array(
+            com_coords = info["world_rad"] * np.array(
                 list(
                     zip(
                         np.cos(2 * np.pi * np.arange(1, Nc + 1) / Nc),
@@ -93,7 +95,7 @@ class LayoutMixIn:
             # Coordinates of the nodes inside their communities
             rng = np.random.default_rng(seed)
             coords = rng.uniform(size=(self.N, 2))
-            self.coords = np.array(
+            coords = np.array(
                 [
                     [
                         elem[0] * np.cos(2 * np.pi * elem[1]),
@@ -106,11 +108,14 @@ class LayoutMixIn:
             for i in range(self.N):
                 # Set coordinates as an offset from the center of the community
                 # it belongs to
-                comm_idx = self.info["node_com"][i]
-                comm_rad = np.sqrt(self.info["comm_sizes"][comm_idx])
-                self.coords[i] = (
-                    self.info["com_coords"][comm_idx] + comm_rad * self.coords[i]
-                )
+                comm_idx = info["node_com"][i]
+                comm_rad = np.sqrt(info["comm_sizes"][comm_idx])
+                coords[i] = com_coords[comm_idx] + comm_rad * coords[i]
+
+            info["com_coords"] = com_coords
+            self.info = info
+            self.coords = coords
+
         elif kind == "laplacian_eigenmap2D":
             self.compute_fourier_basis(n_eigenvectors=3)
             self.coords = self.U[:, 1:3]
-- 
2.43.0


From 6c5482cf92fa0bcb550fbce33bc79aafe104300a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:49 +0000
Subject: [PATCH 60/72] fix: plotting of spectrograms

---
 pygsp/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/plotting.py b/pygsp/plotting.py
index 31c84a8..5d19cd7 100644
--- a/pygsp/plotting.py
+++ b/pygsp/plotting.py
@@ -740,7 +740,7 @@ def _plot_spectrogram(G, node_idx):
     """
     from pygsp import features
 
-    qtg, _, _ = _import_qtg()
+    qtg, _, _, _ = _import_qtg()
 
     if not hasattr(G, "spectr"):
         features.compute_spectrogram(G)
-- 
2.43.0


From c991735cbecbac165ac9fef56e5576703ba5735c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:49 +0000
Subject: [PATCH 61/72] fix: map signals from their limits to the colors of
 pyqtgraph

---
 pygsp/plotting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygsp/plotting.py b/pygsp/plotting.py
index 5d19cd7..479b3b7 100644
--- a/pygsp/plotting.py
+++ b/pygsp/plotting.py
@@ -695,7 +695,8 @@ def _qtg_plot_signal(G, signal, edges, vertex_size, limits, title):
     )
     cmap = qtg.ColorMap(pos, color)
 
-    signal = 1 + 63 * (signal - limits[0]) / limits[1] - limits[0]
+    ptp = limits[1] - limits[0]
+    signal = 1 + 63 * (signal - limits[0]) / (ptp if ptp != 0 else 1)
 
     if G.coords.shape[1] == 2:
         gp = qtg.ScatterPlotItem(
-- 
2.43.0


From 3147c6a023a40dee2486d351437a48b4a71586ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:49 +0000
Subject: [PATCH 62/72] fix: highlight the vertices of any iterable

---
 pygsp/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/plotting.py b/pygsp/plotting.py
index 479b3b7..f1c4db6 100644
--- a/pygsp/plotting.py
+++ b/pygsp/plotting.py
@@ -595,7 +595,7 @@ def _plt_plot_graph(
         )
 
     try:
-        iter(highlight)
+        highlight = list(highlight)
     except TypeError:
         highlight = [highlight]
     coords_hl = G.coords[highlight]
-- 
2.43.0


From bd3bcf2f8a4e4a130a6bee05e1184cfd1e6b4cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:49 +0000
Subject: [PATCH 63/72] fix: default limits are the signal minimum and maximum
 values

---
 pygsp/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/plotting.py b/pygsp/plotting.py
index f1c4db6..00fb977 100644
--- a/pygsp/plotting.py
+++ b/pygsp/plotting.py
@@ -520,7 +520,7 @@ def _plot_graph(
         edge_width = G.plotting["edge_width"] * 2 * normalize(edge_width)
 
     if limits is None:
-        limits = [1.05 * vertex_color.min(), 1.05 * vertex_color.max()]
+        limits = [vertex_color.min(), vertex_color.max()]
 
     if title is None:
         title = G.__repr__(limit=4)
-- 
2.43.0


From 1e6d4049788a54df4e49af2f18622b03e0022776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:49 +0000
Subject: [PATCH 64/72] fix: plot signals on graphs with a single vertex, a
 single edge, or no edges

---
 pygsp/plotting.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pygsp/plotting.py b/pygsp/plotting.py
index 00fb977..b2d57bb 100644
--- a/pygsp/plotting.py
+++ b/pygsp/plotting.py
@@ -456,7 +456,7 @@ def _plot_graph(
         Set intercept value in G.plotting["normalize_intercept"]
         with value in [0, 1], default is .25.
         """
-        ptp = np.ptp(x)
+        ptp = np.ptp(x) if x.size > 0 else 0
         if ptp == 0:
             return np.full(x.shape, 0.5)
         else:
@@ -485,7 +485,7 @@ def _plot_graph(
         limits = [0, 0]
         colorbar = False
     else:
-        vertex_color = np.asanyarray(vertex_color).squeeze()
+        vertex_color = np.atleast_1d(np.asanyarray(vertex_color).squeeze())
         check_shape(
             vertex_color, "Vertex color", G.n_vertices, many=(G.coords.ndim == 1)
         )
@@ -493,7 +493,7 @@ def _plot_graph(
     if vertex_size is None:
         vertex_size = G.plotting["vertex_size"]
     elif not np.isscalar(vertex_size):
-        vertex_size = np.asanyarray(vertex_size).squeeze()
+        vertex_size = np.atleast_1d(np.asanyarray(vertex_size).squeeze())
         check_shape(vertex_size, "Vertex size", G.n_vertices)
         vertex_size = G.plotting["vertex_size"] * 4 * normalize(vertex_size) ** 2
 
@@ -503,7 +503,7 @@ def _plot_graph(
     if edge_color is None:
         edge_color = (G.plotting["edge_color"],)
     elif not is_color(edge_color):
-        edge_color = np.asanyarray(edge_color).squeeze()
+        edge_color = np.atleast_1d(np.asanyarray(edge_color).squeeze())
         check_shape(edge_color, "Edge color", G.n_edges)
         edge_color = 0.9 * normalize(edge_color)
         edge_color = [
@@ -515,7 +515,7 @@ def _plot_graph(
     if edge_width is None:
         edge_width = G.plotting["edge_width"]
     elif not np.isscalar(edge_width):
-        edge_width = np.array(edge_width).squeeze()
+        edge_width = np.atleast_1d(np.array(edge_width).squeeze())
         check_shape(edge_width, "Edge width", G.n_edges)
         edge_width = G.plotting["edge_width"] * 2 * normalize(edge_width)
 
-- 
2.43.0


From 794d36634205c740cea35a31965555b0a8e1c5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:49 +0000
Subject: [PATCH 65/72] fix: plot vertices and indices in one dimension

---
 pygsp/plotting.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/pygsp/plotting.py b/pygsp/plotting.py
index b2d57bb..91c4942 100644
--- a/pygsp/plotting.py
+++ b/pygsp/plotting.py
@@ -601,8 +601,23 @@ def _plt_plot_graph(
     coords_hl = G.coords[highlight]
 
     if G.coords.ndim == 1:
-        ax.plot(G.coords, vertex_color, alpha=0.5)
-        ax.set_ylim(limits)
+        if isinstance(vertex_color, np.ndarray):
+            ax.plot(G.coords, vertex_color, alpha=0.5)
+            ax.set_ylim(limits)
+            heights = vertex_color.reshape(G.N, -1).mean(axis=1)
+        else:
+            # There is no signal to plot, only vertices.
+            heights = np.zeros(G.N)
+            ax.scatter(
+                G.coords,
+                heights,
+                c=vertex_color,
+                s=vertex_size,
+                marker="o",
+                linewidths=0,
+                alpha=0.5,
+                zorder=2,
+            )
         for coord_hl in coords_hl:
             ax.axvline(x=coord_hl, color=G.plotting["highlight_color"], linewidth=2)
 
@@ -643,11 +658,14 @@ def _plt_plot_graph(
         plt.colorbar(sc, ax=ax)
 
     if indices:
+        coords = G.coords
+        if coords.ndim == 1:
+            coords = np.stack([coords, heights], axis=1)
         for node in range(G.N):
             ax.text(
-                *tuple(G.coords[node]),  # accomodate 2D and 3D
+                *tuple(coords[node]),  # accomodate 2D and 3D
                 s=node,
-                color="white",
+                color="white" if G.coords.ndim != 1 else "black",
                 horizontalalignment="center",
                 verticalalignment="center",
             )
-- 
2.43.0


From 92818b5d1bd2ee732b0a1f208675dac2f840d34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:56 +0000
Subject: [PATCH 66/72] fix: colorbars don't open a figure when the given axes
 belong to none of pyplot

---
 pygsp/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/plotting.py b/pygsp/plotting.py
index 91c4942..1f6cb3d 100644
--- a/pygsp/plotting.py
+++ b/pygsp/plotting.py
@@ -655,7 +655,7 @@ def _plt_plot_graph(
                 pass
 
     if G.coords.ndim != 1 and colorbar:
-        plt.colorbar(sc, ax=ax)
+        ax.figure.colorbar(sc, ax=ax)
 
     if indices:
         coords = G.coords
-- 
2.43.0


From c69b9102e6eda63aa916ac3e198a28002f37d0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:12 +0000
Subject: [PATCH 67/72] fix: keep the Qt application alive, plotting in 3D with
 pyqtgraph aborted the process

---
 pygsp/plotting.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pygsp/plotting.py b/pygsp/plotting.py
index 1f6cb3d..934d8fa 100644
--- a/pygsp/plotting.py
+++ b/pygsp/plotting.py
@@ -29,6 +29,7 @@ from pygsp import utils
 _logger = utils.build_logger(__name__)
 
 BACKEND = "matplotlib"
+_qtg_app = None
 _qtg_widgets = []
 _plt_figures = []
 
@@ -174,7 +175,8 @@ def _qtg_plot_graph(G, edges, vertex_size, title):
     elif G.coords.shape[1] == 3:
         QApplication = _get_qapplication(QtGui, QtWidgets)
         if not QApplication.instance():
-            QApplication([])  # We want only one application.
+            global _qtg_app  # Keep it alive as long as there are widgets.
+            _qtg_app = QApplication([])  # We want only one application.
         widget = gl.GLViewWidget()
         widget.opts["distance"] = 10
 
@@ -681,7 +683,8 @@ def _qtg_plot_signal(G, signal, edges, vertex_size, limits, title):
     elif G.coords.shape[1] == 3:
         QApplication = _get_qapplication(QtGui, QtWidgets)
         if not QApplication.instance():
-            QApplication([])  # We want only one application.
+            global _qtg_app  # Keep it alive as long as there are widgets.
+            _qtg_app = QApplication([])  # We want only one application.
         widget = gl.GLViewWidget()
         widget.opts["distance"] = 10
 
-- 
2.43.0


From 1764782265d933de8d8580d19227f0be97428d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:02 +0000
Subject: [PATCH 68/72] fix: multiresolution refuses before altering the graph

---
 pygsp/reduction.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index 18dfc93..226efc3 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -255,6 +255,14 @@ def graph_multiresolution(
     ...     fig, ax = Gs[idx].plot(title='Reduction level: {}'.format(idx))
 
     """
+    # Refuse before altering the graph.
+    if downsampling_method != "largest_eigenvector":
+        raise NotImplementedError("Unknown graph downsampling method.")
+    if reduction_method != "kron":
+        raise NotImplementedError("Unknown graph reduction method.")
+    if levels > 0 and (G.lap_type != "combinatorial" or G.is_directed()):
+        raise NotImplementedError("Unknown reduction for this type of graph.")
+
     if sparsify_eps is None:
         sparsify_eps = min(10.0 / np.sqrt(G.N), 0.3)
 
-- 
2.43.0


From ac3c47a3ba0326a9574193c910c3be330f27ec1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:25 +0000
Subject: [PATCH 69/72] fix: graphs don't alter the sparse matrix they are
 built from

---
 pygsp/graphs/graph.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pygsp/graphs/graph.py b/pygsp/graphs/graph.py
index 150ab42..8029b7b 100644
--- a/pygsp/graphs/graph.py
+++ b/pygsp/graphs/graph.py
@@ -107,6 +107,11 @@ class Graph(FourierMixIn, DifferenceMixIn, IOMixIn, LayoutMixIn):
         # CSR sparse matrices are the most efficient for matrix multiplication.
         # They are the sole sparse matrix type to support eliminate_zeros().
         self._adjacency = sparse.csr_matrix(adjacency, copy=False)
+        if sparse.issparse(adjacency):
+            # The data is shared: don't alter it by the normalizations below.
+            normal = self._adjacency.has_canonical_format
+            if not normal or np.any(self._adjacency.data == 0):
+                self._adjacency = self._adjacency.copy()
 
         if np.isnan(self._adjacency.sum()):
             raise ValueError("Adjacency: there is a Not a Number (NaN).")
-- 
2.43.0


From 55b0496ac43a10e5854b403e128022d2be23f803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:28 +0000
Subject: [PATCH 70/72] fix: Gabor and modulation banks with a partial or an
 outdated Fourier basis

---
 pygsp/filters/gabor.py      | 6 +++++-
 pygsp/filters/modulation.py | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/pygsp/filters/gabor.py b/pygsp/filters/gabor.py
index 56fb2d3..47315a1 100644
--- a/pygsp/filters/gabor.py
+++ b/pygsp/filters/gabor.py
@@ -81,9 +81,13 @@ class Gabor(Filter):
                 "be the one used to build the mother kernel."
             )
 
+        def eigenvalue(i):
+            graph.compute_fourier_basis()  # The cached basis may be partial.
+            return graph.e[i]
+
         kernels = []
         for i in range(graph.n_vertices):
-            kernels.append(lambda x, i=i: kernel.evaluate(x - graph.e[i]))
+            kernels.append(lambda x, i=i: kernel.evaluate(x - eigenvalue(i)))
 
         super().__init__(graph, kernels)
 
diff --git a/pygsp/filters/modulation.py b/pygsp/filters/modulation.py
index 35b3a41..78ce679 100644
--- a/pygsp/filters/modulation.py
+++ b/pygsp/filters/modulation.py
@@ -146,11 +146,14 @@ class Modulation(Filter):
     def evaluate(self, x):
         """TODO: will become _evaluate once polynomial filtering is merged."""
 
-        if not hasattr(self, "_coefficients"):
+        # The cached basis may be partial, or the one of another Laplacian.
+        self.G.compute_fourier_basis()
+        if getattr(self, "_basis", None) is not self.G.U:
             # Graph Fourier transform -> modulation -> inverse GFT.
             c = self.G.igft(self._kernels.evaluate(self.G.e).squeeze())
             c = np.sqrt(self.G.n_vertices) * self.G.U * c[:, np.newaxis]
             self._coefficients = self.G.gft(c)
+            self._basis = self.G.U
 
         shape = x.shape
         x = x.flatten()
@@ -170,6 +173,7 @@ class Modulation(Filter):
         else:
             # The dot product with each modulated kernel is equivalent to the
             # GFT, as for the localization and the IGFT.
+            self.G.compute_fourier_basis()  # The cached basis may be partial.
             y = np.empty((self.G.n_vertices, self.G.n_vertices))
             for i in range(self.G.n_vertices):
                 x = s * self._kernels.localize(i)
-- 
2.43.0


From dcaf729ebfe556b74b5fafaa02e272b61d614572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:56 +0000
Subject: [PATCH 71/72] fix: sparsifying doesn't alter the weights of the graph

---
 pygsp/reduction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index 226efc3..1aca743 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -89,7 +89,7 @@ def graph_sparsify(M, epsilon, maxiter=10, seed=None):
         W = np.diag(L.diagonal()) - L.toarray()
         W[W < 1e-10] = 0
 
-    W = sparse.coo_matrix(W)
+    W = sparse.coo_matrix(W, copy=True)
     W.data[W.data < 1e-10] = 0
     W = W.tocsc()
     W.eliminate_zeros()
-- 
2.43.0


From 51b4e3c451a237003999676433cf20d8540101b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:31 +0000
Subject: [PATCH 72/72] fix: star graphs accept plotting attributes

---
 pygsp/graphs/star.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/graphs/star.py b/pygsp/graphs/star.py
index 501f1af..601d14f 100644
--- a/pygsp/graphs/star.py
+++ b/pygsp/graphs/star.py
@@ -30,7 +30,7 @@ class Star(Comet):
 
     def __init__(self, N=10, **kwargs):
         plotting = dict(limits=[-1.1, 1.1, -1.1, 1.1])
-        plotting.update(kwargs.get("plotting", {}))
+        plotting.update(kwargs.pop("plotting", {}))
         super().__init__(N, N - 1, plotting=plotting, **kwargs)
 
     def _get_extra_repr(self):
-- 
2.43.0

