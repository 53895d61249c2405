From 80771fbfbd5bb751d82cbcbdc5114dbe346e33bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:12 +0000
Subject: [PATCH 01/20] fix: lift 2n x 2n coefficient matrices in
 generate_gaussian_state when 2n == 2**n

---
 src/ff/ff_lib.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/ff/ff_lib.py b/src/ff/ff_lib.py
index cbdaf5f..933ac2c 100644
--- a/src/ff/ff_lib.py
+++ b/src/ff/ff_lib.py
@@ -715,6 +715,14 @@ def check_canonical_form(L):
     return True
 
 
+def _is_coefficient_form(n_sites, H):
+    """Check for the coefficient block structure produced by build_H"""
+    A = H[n_sites:, n_sites:]
+    B = H[:n_sites, n_sites:]
+
+    return np.allclose(H, build_H(n_sites, A, B)) and np.allclose(B, -B.T)
+
+
 def generate_gaussian_state(n_sites, H, alphas=None):
     """
     Generate a Gaussian state using Hamiltonian H.
@@ -735,7 +743,9 @@ def generate_gaussian_state(n_sites, H, alphas=None):
     if H.shape[0] == 2 * n_sites:
         H_op = build_op(n_sites, H, alphas)
 
-    if H.shape[0] == 2**n_sites:
+    if H.shape[0] == 2**n_sites and not (
+        H.shape[0] == 2 * n_sites and _is_coefficient_form(n_sites, H)
+    ):
         H_op = H
 
     if H_op is None:
-- 
2.43.0


From 9c6b731d096ed917085224a3a11128d0c8e8575f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:12 +0000
Subject: [PATCH 02/20] fix: infer an integer n_sites in compute_cov_matrix

---
 src/ff/ff_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ff/ff_lib.py b/src/ff/ff_lib.py
index 933ac2c..9271daa 100644
--- a/src/ff/ff_lib.py
+++ b/src/ff/ff_lib.py
@@ -820,7 +820,7 @@ def compute_cov_matrix(rho, n_sites=None, alphas=None):
     """
     if n_sites is None:
         N = rho.shape[0]
-        n_sites = np.round(np.log2(N))
+        n_sites = int(np.round(np.log2(N)))
 
     if alphas is None:
         alphas = jordan_wigner_alphas(n_sites)
-- 
2.43.0


From bc53f1d96b9e2d047565bfbfdc24358d9aa59d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:12 +0000
Subject: [PATCH 03/20] fix: keep the canonical block form of eigm_sp_can for
 zero modes

---
 src/ff/ff_lib.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ff/ff_lib.py b/src/ff/ff_lib.py
index 9271daa..a53750a 100644
--- a/src/ff/ff_lib.py
+++ b/src/ff/ff_lib.py
@@ -1253,8 +1253,14 @@ def eigm_sp_can(G):
 
     iG = -G.imag
 
+    # we want the non-zero eigenvalues to appear first so that zero modes do
+    # not break up the 2x2 blocks
+    def sfunction(x, y=None):
+        z = x if y is None else x + y * 1j
+        return abs(z) > 1e-10
+
     # from scipy.linalg
-    [L, O] = schur(iG)
+    [L, O, _] = schur(iG, sort=sfunction)
 
     # we will sort the states according to eigenvalues of A
 
-- 
2.43.0


From 9151ace444e5bc65269917636e0c3b6202fce546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:12 +0000
Subject: [PATCH 04/20] fix: reject repeated entries in permutation_to_matrix

---
 src/ff/ff_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ff/ff_lib.py b/src/ff/ff_lib.py
index a53750a..e4ef500 100644
--- a/src/ff/ff_lib.py
+++ b/src/ff/ff_lib.py
@@ -38,7 +38,7 @@ def permutation_to_matrix(permutation):
     n = len(permutation)
     matrix = np.zeros((n, n), dtype=int)
     for i in range(n):
-        if 0 <= permutation[i] < n:
+        if 0 <= permutation[i] < n and not matrix[permutation[i]].any():
             matrix[permutation[i], i] = 1
         else:
             print("Invalid permutation")
-- 
2.43.0


From ab143137db26e3b608d4a75aa129012e4216f5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:12 +0000
Subject: [PATCH 05/20] fix: return the generator actually used for unseeded
 pure random_FF_state

---
 src/ff/ff_lib.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ff/ff_lib.py b/src/ff/ff_lib.py
index e4ef500..8bf1072 100644
--- a/src/ff/ff_lib.py
+++ b/src/ff/ff_lib.py
@@ -472,7 +472,8 @@ def random_FF_state(n_sites, fixedN=False, seed=None, returnH=False, pure=False)
 
     if pure:
         # For pure states, apply Haar random unitary to vacuum state
-        W_op = random_FF_rotation(n_sites, seed=seed)
+        H_op = random_FF_rotation(n_sites, seed=seed, returnH=True)
+        W_op = expm(-1j * H_op)
         zero_state = np.zeros((2**n_sites, 1), dtype=complex)
         zero_state[0, 0] = 1  # Set the first element to 1 (ground state)
         psi = W_op @ zero_state
@@ -481,8 +482,7 @@ def random_FF_state(n_sites, fixedN=False, seed=None, returnH=False, pure=False)
         assert np.allclose(1, np.linalg.norm(psi))
 
         if returnH:
-            # Get the generator that produced this unitary
-            H_op = random_FF_rotation(n_sites, seed=seed, returnH=True)
+            # the generator that produced this unitary
             return psi, H_op
         else:
             return psi
-- 
2.43.0


From e0db68ce91a4ff9d7ed5f8ad502e09f76db73f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:12 +0000
Subject: [PATCH 06/20] fix: direct sum of rectangular matrices in kron_plus

---
 src/ff/ff_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ff/ff_utils.py b/src/ff/ff_utils.py
index 65801dc..99371eb 100644
--- a/src/ff/ff_utils.py
+++ b/src/ff/ff_utils.py
@@ -185,7 +185,8 @@ def kron_plus(a, b):
         Direct sum matrix [[a, 0], [0, b]]
     """
     Z01 = np.zeros((a.shape[0], b.shape[1]))
-    return np.block([[a, Z01], [Z01.T, b]])
+    Z10 = np.zeros((b.shape[0], a.shape[1]))
+    return np.block([[a, Z01], [Z10, b]])
 
 
 def cast_to_pdf(rho):
-- 
2.43.0


From 79d627f2a03fc4180de7610e89af3775143d49ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:12 +0000
Subject: [PATCH 07/20] fix: recognise the completely mixed state in SRE
 despite rounding noise

---
 src/ff/ff_distance_measures.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ff/ff_distance_measures.py b/src/ff/ff_distance_measures.py
index 7ec7d3e..bb77fe1 100644
--- a/src/ff/ff_distance_measures.py
+++ b/src/ff/ff_distance_measures.py
@@ -216,7 +216,8 @@ def SRE(rho, a=2):
     xi = stabilizer_distribution(rho)
 
     # Appendix of Leone et al does not define SRE for completely mixed state
-    if np.nonzero(xi)[0].size == 1:
+    # (allow for rounding noise in the other entries of the distribution)
+    if np.count_nonzero(xi > 1e-15) == 1:
         return 0.0
 
     # Compute Rényi entropy of the distribution and subtract log(d)
-- 
2.43.0


From 274d06a2db6c5fbc8a9ca814d6edce18278ce067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:12 +0000
Subject: [PATCH 08/20] fix: honour seed=0 in generate_random_planar_graph

---
 src/ff/ff_graph_theory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ff/ff_graph_theory.py b/src/ff/ff_graph_theory.py
index e2098f7..397a427 100644
--- a/src/ff/ff_graph_theory.py
+++ b/src/ff/ff_graph_theory.py
@@ -187,7 +187,7 @@ def generate_random_planar_graph(n, seed=None):
         Returns None if a planar graph with n nodes cannot be generated
         within a reasonable number of attempts.
     """
-    if seed:
+    if seed is not None:
         random.seed(seed)
 
     max_attempts = 1000  # Limit the number of attempts to find a planar graph
-- 
2.43.0


From fd05a3e58b5cbaf235c7139cbada32d410aed934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:12 +0000
Subject: [PATCH 09/20] fix: index pfo_algorithm by node position instead of
 node label

---
 src/ff/ff_graph_theory.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ff/ff_graph_theory.py b/src/ff/ff_graph_theory.py
index 397a427..a763a20 100644
--- a/src/ff/ff_graph_theory.py
+++ b/src/ff/ff_graph_theory.py
@@ -548,6 +548,10 @@ def pfo_algorithm(graph, verbose=False):
     Returns:
         NumPy array representing the pfaffian ordering matrix
     """
+    # Node labels are used as matrix indices below, so number the nodes in the
+    # order used by the adjacency matrix
+    graph = nx.convert_node_labels_to_integers(graph)
+
     # Step 1: Find spanning tree
     T = nx.maximum_spanning_tree(graph)
 
-- 
2.43.0


From 9f2509793d390b1b419f88ec3580972d9855be59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:12 +0000
Subject: [PATCH 10/20] fix: match unsorted edges against faces in dual_graph_H

---
 src/ff/ff_graph_theory.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ff/ff_graph_theory.py b/src/ff/ff_graph_theory.py
index a763a20..436a566 100644
--- a/src/ff/ff_graph_theory.py
+++ b/src/ff/ff_graph_theory.py
@@ -277,6 +277,7 @@ def dual_graph_H(G, F, T):
 
     # go through edges missing from tree
     for e in edges_not_in_t:
+        e = tuple(sorted(e))
         u = None
         v = None
 
-- 
2.43.0


From 81ae6d1892a31a781b6eeab616bdca7cef9944fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:13 +0000
Subject: [PATCH 11/20] fix: Hermitian generator in build_unitary_path for
 repeated eigenvalues of -1

---
 src/ff/ff_random_states.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ff/ff_random_states.py b/src/ff/ff_random_states.py
index 45b6d04..b7d48d1 100644
--- a/src/ff/ff_random_states.py
+++ b/src/ff/ff_random_states.py
@@ -17,7 +17,7 @@ Copyright 2025 James.D.Whitfield@dartmouth.edu
 """
 
 import numpy as np
-from scipy.linalg import expm, logm
+from scipy.linalg import expm, schur
 from scipy.stats import unitary_group
 
 from .ff_lib import (
@@ -727,8 +727,10 @@ def build_unitary_path(w, v):
 
     assert np.allclose(U @ U.conj().T, np.eye(n)), "U is not unitary"
 
-    # Compute the Hermitian matrix of U
-    H = 1j * logm(U)
+    # Compute the Hermitian matrix of U, with U = exp(-iH). The Schur vectors
+    # of a unitary are orthonormal even for degenerate eigenvalues.
+    T, Z = schur(U, output="complex")
+    H = Z @ np.diag(-np.angle(np.diag(T))) @ Z.conj().T
 
     assert np.allclose(
         H - H.conj().T, 0
-- 
2.43.0


From f92139649d52c894dff7d3c8a8ae3e5e79cf8169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:43 +0000
Subject: [PATCH 12/20] fix: count matchings of odd and disconnected graphs in
 count_perfect_matchings_planar

---
 src/ff/ff_graph_theory.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/ff/ff_graph_theory.py b/src/ff/ff_graph_theory.py
index 436a566..a6758d8 100644
--- a/src/ff/ff_graph_theory.py
+++ b/src/ff/ff_graph_theory.py
@@ -488,6 +488,16 @@ def count_perfect_matchings_planar(graph):
         return 0
         # Trivial case, no non-zero matchings
 
+    if len(graph) % 2 != 0:
+        return 0  # No perfect matchings possible for odd number of nodes
+
+    # the matchings of a disconnected graph factor over its components
+    if not nx.is_connected(graph):
+        count = 1
+        for nodes in nx.connected_components(graph):
+            count *= count_perfect_matchings_planar(graph.subgraph(nodes).copy())
+        return count
+
     A = nx.adjacency_matrix(graph).toarray()
 
     # run the pfo algorithm
-- 
2.43.0


From 14b0db34f266a4a620e07f0890e4ed488e4f4706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:25 +0000
Subject: [PATCH 13/20] fix: zero array entries below the threshold in clean

---
 src/ff/ff_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ff/ff_utils.py b/src/ff/ff_utils.py
index 99371eb..2460346 100644
--- a/src/ff/ff_utils.py
+++ b/src/ff/ff_utils.py
@@ -98,7 +98,8 @@ def clean(obj, threshold=1e-6):
             # If it's complex, check the imaginary part
             if np.all(np.abs(obj.imag) < threshold):
                 # If the imaginary part is small, return only the real part
-                return np.round(obj.real, ndigits)
+                obj = np.round(obj.real, ndigits)
+                return np.multiply(obj, np.abs(obj) >= threshold)
         # Round the array and set small values to zero
         obj = np.round(obj, ndigits)
         obj[np.abs(obj) < threshold] = 0
-- 
2.43.0


From a92d485f7145dd9269094aa6466aaa90dae44ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:24 +0000
Subject: [PATCH 14/20] fix: rotate real or mixed-type operator lists by
 complex matrices

---
 src/ff/ff_lib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ff/ff_lib.py b/src/ff/ff_lib.py
index 8bf1072..d4ab59f 100644
--- a/src/ff/ff_lib.py
+++ b/src/ff/ff_lib.py
@@ -312,7 +312,8 @@ def _perform_rotation(C, alphas, verbose=False):
     b_ops = []
 
     for j in range(n):
-        b_j = np.zeros_like(alphas[0])  # initialize jth rotated operator
+        # initialize jth rotated operator
+        b_j = np.zeros(alphas[0].shape, dtype=np.result_type(C, *alphas))
 
         if verbose:
             print("\nj", j, "\n----")
-- 
2.43.0


From 258a1f6a01a73df4fc4ae062c169eb02936d80bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:24 +0000
Subject: [PATCH 15/20] fix: lift complex coefficients over real or mixed-type
 operators in build_op

---
 src/ff/ff_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ff/ff_lib.py b/src/ff/ff_lib.py
index d4ab59f..88c2b4a 100644
--- a/src/ff/ff_lib.py
+++ b/src/ff/ff_lib.py
@@ -786,7 +786,7 @@ def build_op(n_sites, R, alphas, verbose=None, direct=False):
         print("R incorrectly formmatted. Use `build_H` to create R")
 
     # N-body operators
-    R_op = np.zeros_like(alphas[0])
+    R_op = np.zeros(alphas[0].shape, dtype=np.result_type(R, *alphas))
 
     for i in range(2 * n_sites):
         for j in range(2 * n_sites):
-- 
2.43.0


From 71aab9b44df6dfcfdb927edf26d802de0430c4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:31 +0000
Subject: [PATCH 16/20] fix: accept the largest seed in random_FF_pure_state_WN
 and _CN

---
 src/ff/ff_random_states.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ff/ff_random_states.py b/src/ff/ff_random_states.py
index b7d48d1..ba52c97 100644
--- a/src/ff/ff_random_states.py
+++ b/src/ff/ff_random_states.py
@@ -483,7 +483,7 @@ def random_FF_pure_state_WN(n_sites, N=None, seed=None):
             psi = alphas[j] @ psi
 
     # For pure states, apply Haar random unitary to initial state
-    W_op = random_FF_rotation(n_sites, seed=seed + 1 if seed is not None else None)
+    W_op = random_FF_rotation(n_sites, seed=(seed + 1) % 2**32 if seed is not None else None)
     psi = W_op @ psi
 
     return psi
@@ -549,7 +549,7 @@ def random_FF_pure_state_CN(n_sites, seed=None):
 
     # random orbital rotation respecting antisymmetry of the given operators
     C = random_FF_rotation(
-        n_sites, seed=seed + 1 if seed is not None else None, returnOrb=True
+        n_sites, seed=(seed + 1) % 2**32 if seed is not None else None, returnOrb=True
     )
 
     assert np.allclose(
-- 
2.43.0


From fdaf4bbd6528c3d415d54aad63b9315a81572b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:49 +0000
Subject: [PATCH 17/20] fix: clean zero-dimensional complex arrays, so that
 print_custom rounds complex scalars

---
 src/ff/ff_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ff/ff_utils.py b/src/ff/ff_utils.py
index 2460346..d8e61e2 100644
--- a/src/ff/ff_utils.py
+++ b/src/ff/ff_utils.py
@@ -101,7 +101,8 @@ def clean(obj, threshold=1e-6):
                 obj = np.round(obj.real, ndigits)
                 return np.multiply(obj, np.abs(obj) >= threshold)
         # Round the array and set small values to zero
-        obj = np.round(obj, ndigits)
+        # (rounding turns a 0-d array into a scalar, which cannot be assigned to)
+        obj = np.asanyarray(np.round(obj, ndigits))
         obj[np.abs(obj) < threshold] = 0
         return obj
 
-- 
2.43.0


From 6c1e1f11d0caa0e9d4162c6db814123525e2cc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:49 +0000
Subject: [PATCH 18/20] fix: leave strings with non-decimal numeric characters
 unchanged in clean

---
 src/ff/ff_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ff/ff_utils.py b/src/ff/ff_utils.py
index d8e61e2..3744650 100644
--- a/src/ff/ff_utils.py
+++ b/src/ff/ff_utils.py
@@ -107,7 +107,7 @@ def clean(obj, threshold=1e-6):
         return obj
 
     if isinstance(obj, str):
-        if obj.replace(".", "", 1).isnumeric():
+        if obj.replace(".", "", 1).isdecimal():
             # If it's a numeric string, convert to float
             obj = float(obj)
             obj = np.round(obj, ndigits)
-- 
2.43.0


From ee974de5348b068358e9b6ae1022578a09b55642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:59 +0000
Subject: [PATCH 19/20] fix: renyi_entropy returned inf or nan for orders where
 the norm overflows or underflows

---
 src/ff/ff_distance_measures.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ff/ff_distance_measures.py b/src/ff/ff_distance_measures.py
index bb77fe1..032cd5a 100644
--- a/src/ff/ff_distance_measures.py
+++ b/src/ff/ff_distance_measures.py
@@ -313,9 +313,12 @@ def renyi_entropy(p, a):
 
     # General case: α-Rényi entropy
     # S_α(p) = (1/(1-α)) * log(||p||_α^α) where ||p||_α is the α-norm
-    l_a = np.linalg.norm(p, ord=a)
+    # (the largest entry is factored out: the norm itself overflows for small α
+    # and underflows for large α)
+    p_max = np.max(np.abs(p))
+    s_a = np.sum((np.abs(p) / p_max) ** a)
 
-    return np.log(l_a) * (a / (1 - a))
+    return (np.log(s_a) + a * np.log(p_max)) / (1 - a)
 
 
 def linear_entropy(p):
-- 
2.43.0


From 648b31301d831646f9b6164ae7c4cab8b43c255b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:03 +0000
Subject: [PATCH 20/20] fix: read distributions close to a basis vector as
 distributions in cast_to_density_matrix

---
 src/ff/ff_utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ff/ff_utils.py b/src/ff/ff_utils.py
index 3744650..3038d66 100644
--- a/src/ff/ff_utils.py
+++ b/src/ff/ff_utils.py
@@ -230,7 +230,12 @@ def cast_to_density_matrix(rho):
         l2_norm = np.linalg.norm(rho_flat, ord=2)
 
         # Determine if it's a wavefunction or probability distribution
-        if np.allclose(l2_norm, 1):
+        # (close to a basis vector both norms are almost 1: the better one decides)
+        if np.allclose(l2_norm, 1) and not (
+            abs(l1_norm - 1) + 1e-12 < abs(l2_norm - 1)
+            and np.all(rho_flat.imag == 0)
+            and np.all(rho_flat.real >= 0)
+        ):
             # Treated as normalized wavefunction
             rho = rho.reshape(-1, 1)  # Ensure column vector
             rho = rho @ rho.conj().T
-- 
2.43.0

