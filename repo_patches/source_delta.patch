From 5bead925b7a4fdd7f448868e77eff175e2959890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:21 +0000
Subject: [PATCH 01/50] fix: simplex projection crashes on inputs summing to
 the radius (np.alltrue is gone in NumPy 2)

---
 copt/constraint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copt/constraint.py b/copt/constraint.py
index c6990ac..531ebcc 100644
--- a/copt/constraint.py
+++ b/copt/constraint.py
@@ -219,7 +219,7 @@ def euclidean_proj_simplex(v, s=1.0):
     assert s > 0, "Radius s must be strictly positive (%d <= 0)" % s
     (n,) = v.shape  # will raise ValueError if v is not 1-D
     # check if we are already on the simplex
-    if v.sum() == s and np.alltrue(v >= 0):
+    if v.sum() == s and np.all(v >= 0):
         # best projection: itself!
         return v
     # get the array of cumulative sums of a sorted (decreasing) copy of v
-- 
2.43.0


From 9174b15986d1f9777e4962f4042f4372334d2518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:21 +0000
Subject: [PATCH 02/50] fix: simplex oracle leaves the simplex when no entry of
 u is positive and cannot be used with Frank-Wolfe

---
 copt/constraint.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/copt/constraint.py b/copt/constraint.py
index 531ebcc..3248dcc 100644
--- a/copt/constraint.py
+++ b/copt/constraint.py
@@ -176,16 +176,14 @@ class SimplexConstraint:
     def prox(self, x, step_size):
         return euclidean_proj_simplex(x, self.s)
 
-    def lmo(self, u, x):
-        """Return v - x, s solving the linear problem
-    max_{||v||_1 <= s, v >= 0} <u, v>
+    def lmo(self, u, x, active_set=None):
+        """Return v - x, v solving the linear problem
+    max_{sum(v) = s, v >= 0} <u, v>
     """
         largest_coordinate = np.argmax(u)
 
         update_direction = -x.copy()
-        update_direction[largest_coordinate] += self.s * np.sign(
-            u[largest_coordinate]
-        )
+        update_direction[largest_coordinate] += self.s
 
         return update_direction, int(largest_coordinate), None, 1
 
-- 
2.43.0


From 4fe2816f2493239f5295aea8574ada3ba3ea7a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:21 +0000
Subject: [PATCH 03/50] fix: a drop step re-inserts the dropped vertex with
 weight zero and pairwise Frank-Wolfe stalls on it

---
 copt/frank_wolfe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copt/frank_wolfe.py b/copt/frank_wolfe.py
index 510df93..68dba7f 100644
--- a/copt/frank_wolfe.py
+++ b/copt/frank_wolfe.py
@@ -105,7 +105,7 @@ def update_active_set(active_set,
     if active_set[away_vertex_rep] == 0.:
         # drop step: remove vertex from active set
         del active_set[away_vertex_rep]
-    if active_set[away_vertex_rep] < 0.:
+    elif active_set[away_vertex_rep] < 0.:
         raise ValueError(f"The step size used is too large. "
                          f"{step_size: .3f} vs. {max_step_size:.3f}")
 
-- 
2.43.0


From 86ffad2bae4b003a509c591a26ce2025b5429958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:48 +0000
Subject: [PATCH 04/50] fix: import copt does not provide the documented
 copt.penalty

---
 copt/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/copt/__init__.py b/copt/__init__.py
index 791924f..7236b4c 100644
--- a/copt/__init__.py
+++ b/copt/__init__.py
@@ -6,6 +6,7 @@ from . import tv_prox
 from . import utils
 from . import loss
 from . import constraint
+from . import penalty
 from .frank_wolfe import minimize_frank_wolfe
 from .proximal_gradient import minimize_proximal_gradient
 from .randomized import minimize_saga
-- 
2.43.0


From a8fde60d1004e617d90ff617c6cf8fbac30c12a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:48 +0000
Subject: [PATCH 05/50] fix: Hessian products of the logistic loss divide the
 regularisation by the number of samples

---
 copt/loss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copt/loss.py b/copt/loss.py
index aa37694..626f333 100644
--- a/copt/loss.py
+++ b/copt/loss.py
@@ -125,7 +125,7 @@ class LogLoss:
         def _Hs(s):
             ret = np.empty_like(s)
             ret[:n_features] = self.A.T.dot(dX.dot(s[:n_features]))
-            ret[:n_features] += self.alpha * s[:n_features]
+            ret[:n_features] += n_samples * self.alpha * s[:n_features]
 
             # For the fit intercept case.
             if self.intercept:
@@ -165,7 +165,7 @@ class LogLoss:
         def _Hs(s):
             ret = np.empty_like(s)
             ret[:n_features] = self.A.T.dot(dX.dot(s[:n_features]))
-            ret[:n_features] += self.alpha * s[:n_features]
+            ret[:n_features] += n_samples * self.alpha * s[:n_features]
 
             # For the fit intercept case.
             if self.intercept:
-- 
2.43.0


From 2539c825de1497d280f3dab247a13dbee59ed204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:48 +0000
Subject: [PATCH 06/50] fix: SAGA and SVRG truncate their iterates when the
 starting point is an integer array

---
 copt/randomized.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copt/randomized.py b/copt/randomized.py
index 21f7981..069086d 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -130,7 +130,7 @@ def minimize_saga(
     # convert any input to CSR sparse matrix representation. In the future we
     # might want to implement also a version for dense data (numpy arrays) to
     # better exploit data locality
-    x = np.ascontiguousarray(x0).copy()
+    x = np.array(x0, dtype=float)
     n_samples, n_features = A.shape
     A = sparse.csr_matrix(A)
 
@@ -305,7 +305,7 @@ def minimize_svrg(
       for Composite Optimization." Advances in Neural Information
       Processing Systems (NIPS) 2017.
     """
-    x = np.ascontiguousarray(x0).copy()
+    x = np.array(x0, dtype=float)
     n_samples, n_features = A.shape
     A = sparse.csr_matrix(A)
 
-- 
2.43.0


From a6eb8fd0c024bb4c0c84accb7f163e8ba5490cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:48 +0000
Subject: [PATCH 07/50] fix: VRTOS overwrites the caller's starting point and
 truncates integer starts

---
 copt/randomized.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/copt/randomized.py b/copt/randomized.py
index 069086d..72d2aa9 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -494,6 +494,8 @@ def minimize_vrtos(
     else:
         blocks_2 = sparse.eye(n_features, n_features, format="csr")
 
+    # work on a copy, the iterations below update x0 in place
+    x0 = np.array(x0, dtype=float)
     Y = np.zeros((2, x0.size))
     z = x0.copy()
 
-- 
2.43.0


From 18f90ef76a247be990934708bf032ef7be82a296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:48 +0000
Subject: [PATCH 08/50] fix: SVRG uses stale gradient entries of earlier
 samples for features sharing a block with the sample

---
 copt/randomized.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/copt/randomized.py b/copt/randomized.py
index 72d2aa9..6529d92 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -386,6 +386,10 @@ def minimize_svrg(
                     x[b_j] -= step_size * (grad_tmp[b_j] + bias_term)
             prox(x, i, bs_indices, bs_indptr, d, step_size)
 
+            # .. the next sample must not see this sample's entries ..
+            for j in range(A_indptr[i], A_indptr[i + 1]):
+                grad_tmp[A_indices[j]] = 0
+
     idx = np.arange(n_samples)
     grad_tmp = np.zeros(n_features)
     success = False
-- 
2.43.0


From 93302586acce958e7b84d3eaba3d63f1acac2054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:48 +0000
Subject: [PATCH 09/50] fix: variance-reduced solvers index block weights out
 of bounds when the last features have no data

---
 copt/randomized.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/copt/randomized.py b/copt/randomized.py
index 6529d92..e6a00c3 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -160,7 +160,9 @@ def minimize_saga(
     bs_data, bs_indices, bs_indptr = _support_matrix(
         A_indices, A_indptr, rblocks_indices, blocks.shape[0]
     )
-    csr_blocks_1 = sparse.csr_matrix((bs_data, bs_indices, bs_indptr))
+    csr_blocks_1 = sparse.csr_matrix(
+        (bs_data, bs_indices, bs_indptr), shape=(n_samples, blocks.shape[0])
+    )
 
     # .. diagonal reweighting ..
     d = np.array(csr_blocks_1.sum(0), dtype=float).ravel()
@@ -335,7 +337,9 @@ def minimize_svrg(
     bs_data, bs_indices, bs_indptr = _support_matrix(
         A_indices, A_indptr, rblocks_indices, blocks.shape[0]
     )
-    csr_blocks_1 = sparse.csr_matrix((bs_data, bs_indices, bs_indptr))
+    csr_blocks_1 = sparse.csr_matrix(
+        (bs_data, bs_indices, bs_indptr), shape=(n_samples, blocks.shape[0])
+    )
 
     # .. diagonal reweighting ..
     d = np.array(csr_blocks_1.sum(0), dtype=float).ravel()
@@ -585,13 +589,19 @@ def _factory_sparse_vrtos(
     bs_1_data, bs_1_indices, bs_1_indptr = _support_matrix(
         A_indices, A_indptr, rblocks_1_indices, blocks_1.shape[0]
     )
-    csr_blocks_1 = sparse.csr_matrix((bs_1_data, bs_1_indices, bs_1_indptr))
+    csr_blocks_1 = sparse.csr_matrix(
+        (bs_1_data, bs_1_indices, bs_1_indptr),
+        shape=(n_samples, blocks_1.shape[0]),
+    )
 
     rblocks_2_indices = blocks_2.T.tocsr().indices
     bs_2_data, bs_2_indices, bs_2_indptr = _support_matrix(
         A_indices, A_indptr, rblocks_2_indices, blocks_2.shape[0]
     )
-    csr_blocks_2 = sparse.csr_matrix((bs_2_data, bs_2_indices, bs_2_indptr))
+    csr_blocks_2 = sparse.csr_matrix(
+        (bs_2_data, bs_2_indices, bs_2_indptr),
+        shape=(n_samples, blocks_2.shape[0]),
+    )
 
     # .. diagonal reweighting ..
     d1 = np.array(csr_blocks_1.sum(0), dtype=float).ravel()
-- 
2.43.0


From de8811cbc7fca8a9421b917251243fb333a48bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:48 +0000
Subject: [PATCH 10/50] fix: minimize_sfw crashes on the documented callable
 step_size

---
 copt/randomized.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/copt/randomized.py b/copt/randomized.py
index e6a00c3..51924ed 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -873,7 +873,10 @@ From Convex Minimization to Submodular Maximization" <https://arxiv.org/abs/1804
         if lipschitz is None:
             raise ValueError('lipschitz needs to be specified with step_size="DR"')
         step_size_fun = step_size_DR
-
+    elif callable(step_size):
+        step_size_fun = step_size
+    else:
+        raise ValueError("Invalid option step_size=%s" % step_size)
 
     if lmo_variant == 'vanilla':
         active_set = None
-- 
2.43.0


From a1382a7b44b9881817823b487320e7cb93902281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:24 +0000
Subject: [PATCH 11/50] fix: Demyanov-Rubinov steps of stochastic Frank-Wolfe
 become NaN at a vertex or negative and leave the constraint set

---
 copt/randomized.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/copt/randomized.py b/copt/randomized.py
index 51924ed..425ca14 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -738,6 +738,10 @@ def step_size_sfw(variant):
 def step_size_DR(kwargs):
     norm_update_direction = (kwargs['update_direction'] ** 2).sum()
     lipschitz = kwargs['lipschitz']
+    if kwargs['certificate'] <= 0:
+        # not a descent direction (or no direction at all)
+        # for the current gradient estimate: do not move
+        return 0., None
     return min(kwargs['certificate'] / (norm_update_direction * lipschitz),
                kwargs['max_step_size']), None
 
-- 
2.43.0


From 1f18ed7944ae22801b19356ce33fb1f208a3ae86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:24 +0000
Subject: [PATCH 12/50] fix: stochastic Frank-Wolfe variants MHK and LF crash
 with the Demyanov-Rubinov step size

---
 copt/randomized.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/copt/randomized.py b/copt/randomized.py
index 425ca14..2f7996e 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -907,6 +907,9 @@ From Convex Minimization to Submodular Maximization" <https://arxiv.org/abs/1804
             x_prev = x.copy()
             if step_size != 'DR':
                 step_size_x, step_size_agg = step_size_fun(locals())
+            else:
+                # the DR step size is computed below, once the update direction is known
+                _, step_size_agg = step_size_sfw(variant)(locals())
             dual_var_prev = dual_var[batch_idx].copy()
 
             if variant in {'SAG', 'SAGA'}:
-- 
2.43.0


From b47a36f389f3e0f2156c71b03182b45cfecdeb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:24 +0000
Subject: [PATCH 13/50] fix: VRTOS pulls features without data towards zero
 when their block in only one of the penalties has data

---
 copt/randomized.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/copt/randomized.py b/copt/randomized.py
index 2f7996e..024c52f 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -607,12 +607,14 @@ def _factory_sparse_vrtos(
     d1 = np.array(csr_blocks_1.sum(0), dtype=float).ravel()
     idx = d1 != 0
     d1[idx] = n_samples / d1[idx]
-    d1[~idx] = 1
+    # (these are never updated and must not weigh on the other copy)
+    d1[~idx] = np.inf
 
     d2 = np.array(csr_blocks_2.sum(0), dtype=float).ravel()
     idx = d2 != 0
     d2[idx] = n_samples / d2[idx]
-    d2[~idx] = 1
+    # (these are never updated and must not weigh on the other copy)
+    d2[~idx] = np.inf
 
     @utils.njit(nogil=True)
     def epoch_iteration_template(
-- 
2.43.0


From 7844609eff18d2b9bcd780d93415645c92476a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:58 +0000
Subject: [PATCH 14/50] fix: proximal gradient fails on list starting points
 and truncates its iterates for integer ones

---
 copt/proximal_gradient.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copt/proximal_gradient.py b/copt/proximal_gradient.py
index b7acfc3..506eff7 100644
--- a/copt/proximal_gradient.py
+++ b/copt/proximal_gradient.py
@@ -109,7 +109,7 @@ def minimize_proximal_gradient(
   Examples:
     * :ref:`sphx_glr_auto_examples_plot_group_lasso.py`
   """
-    x = np.asarray(x0).flatten()
+    x = np.asarray(x0, dtype=float).flatten()
     if max_iter_backtracking <= 0:
         raise ValueError("Line search iterations need to be greater than 0")
 
@@ -127,7 +127,7 @@ def minimize_proximal_gradient(
 
     # find initial step-size
     if step == "backtracking":
-        step_size = 1.8 / utils.init_lipschitz(func_and_grad, x0)
+        step_size = 1.8 / utils.init_lipschitz(func_and_grad, x)
     else:
         # to avoid step_size being undefined upon return
         step_size = None
-- 
2.43.0


From 03cc510d53601b1aa9b4f915c67f7de31c0e427a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:58 +0000
Subject: [PATCH 15/50] fix: splitting solvers fail on list or integer starting
 points or truncate their iterates

---
 copt/splitting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/copt/splitting.py b/copt/splitting.py
index c8ca10a..9dac624 100644
--- a/copt/splitting.py
+++ b/copt/splitting.py
@@ -99,6 +99,7 @@ def minimize_three_split(
       Splitting." <https://arxiv.org/abs/1804.02339>`_ Proceedings of the 35th
       International Conference on Machine Learning, 2018.
     """
+    x0 = np.asarray(x0, dtype=float)
     success = False
     if not max_iter_backtracking > 0:
         raise ValueError("Line search iterations need to be greater than 0")
@@ -249,7 +250,7 @@ def minimize_primal_dual(
         involving Lipschitzian, proximable and linear composite terms." Journal of
         Optimization Theory and Applications (2013).
     """
-    x = np.array(x0, copy=True)
+    x = np.array(x0, dtype=float)
     n_features = x.size
 
     if L is None:
-- 
2.43.0


From 7a3de09d930d13fcfdcbf8616048cbf04aba2560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:58 +0000
Subject: [PATCH 16/50] fix: primal-dual iterates overwrite each other when the
 linear operator returns its argument

---
 copt/splitting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/copt/splitting.py b/copt/splitting.py
index 9dac624..203eccd 100644
--- a/copt/splitting.py
+++ b/copt/splitting.py
@@ -257,7 +257,8 @@ def minimize_primal_dual(
         L = sparse.eye(n_features, n_features, format="csr")
     L = sparse.linalg.aslinearoperator(L)
 
-    y = L.matvec(x)
+    # copy, matvec may return its argument
+    y = np.array(L.matvec(x), dtype=float)
 
     success = False
     if not max_iter_ls > 0:
-- 
2.43.0


From 440edd8ae33cd2bf3cece0dd2cf4897f8793cd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:33 +0000
Subject: [PATCH 17/50] fix: accelerated proximal gradient claims success away
 from the solution when the momentum turns around

---
 copt/proximal_gradient.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copt/proximal_gradient.py b/copt/proximal_gradient.py
index 506eff7..44ac365 100644
--- a/copt/proximal_gradient.py
+++ b/copt/proximal_gradient.py
@@ -220,7 +220,7 @@ def minimize_proximal_gradient(
                     x_next - current_step_size * func_and_grad(x_next)[1],
                     current_step_size,
                 )
-                certificate = np.linalg.norm((x - x_prox) / current_step_size)
+                certificate = np.linalg.norm((x_next - x_prox) / current_step_size)
                 tk = t_next
                 x = x_next.copy()
 
@@ -251,7 +251,7 @@ def minimize_proximal_gradient(
                     x_next - current_step_size * func_and_grad(x_next)[1],
                     current_step_size,
                 )
-                certificate = np.linalg.norm((x - x_prox) / current_step_size)
+                certificate = np.linalg.norm((x_next - x_prox) / current_step_size)
                 if trace_certificate:
                     certificate_list.append(certificate)
                 tk = t_next
-- 
2.43.0


From 86bf9e45d4c92279b912d50c8a2d9de2e46b67c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:04 +0000
Subject: [PATCH 18/50] fix: proximal gradient continues with stale value and
 gradient after an exhausted line search

---
 copt/proximal_gradient.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/copt/proximal_gradient.py b/copt/proximal_gradient.py
index 44ac365..0704fb3 100644
--- a/copt/proximal_gradient.py
+++ b/copt/proximal_gradient.py
@@ -169,6 +169,8 @@ def minimize_proximal_gradient(
                         update_direction = x_next - x
                 else:
                     warnings.warn("Maxium number of line-search iterations reached")
+                    # x_next has changed since the last evaluation
+                    f_next, grad_next = func_and_grad(x_next)
             elif step == "fixed":
                 x_next = prox(x - step_size * grad_fk, step_size)
                 update_direction = x_next - x
-- 
2.43.0


From 4d6fd2cc545be9f8f17baa38ead404e9bae745d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:04 +0000
Subject: [PATCH 19/50] fix: Frank-Wolfe backtracking never leaves a Lipschitz
 estimate of zero

---
 copt/frank_wolfe.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/copt/frank_wolfe.py b/copt/frank_wolfe.py
index 68dba7f..cf99cee 100644
--- a/copt/frank_wolfe.py
+++ b/copt/frank_wolfe.py
@@ -85,8 +85,12 @@ def backtracking_step_size(
         if f_next - f_t <= rhs + EPS:
             # .. sufficient decrease condition verified ..
             break
-        else:
+        elif lipschitz_t > 0:
             lipschitz_t *= ratio_increase
+        else:
+            # .. doubling would not leave a zero estimate, start from ..
+            # .. the value below which the step is not shortened ..
+            lipschitz_t = certificate / (norm_update_direction * max_step_size)
     else:
         warnings.warn(
             "Exhausted line search iterations in minimize_frank_wolfe", RuntimeWarning
-- 
2.43.0


From 7a08b2018532a4275310404fa325f0a67d1b3675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:04 +0000
Subject: [PATCH 20/50] fix: SAGA, SVRG and VRTOS ignore duplicate entries of
 non-canonical sparse matrices

---
 copt/randomized.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/copt/randomized.py b/copt/randomized.py
index 024c52f..a61c380 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -183,7 +183,7 @@ def minimize_saga(
             grad_i = f_deriv(np.array([p]), np.array([b[i]]))[0]
             for j in range(A_indptr[i], A_indptr[i + 1]):
                 j_idx = A_indices[j]
-                grad_tmp[j_idx] = (grad_i - memory_gradient[i]) * A_data[j]
+                grad_tmp[j_idx] += (grad_i - memory_gradient[i]) * A_data[j]
 
             # .. update coefficients ..
             # .. first iterate on blocks ..
@@ -378,7 +378,7 @@ def minimize_svrg(
             old_grad_i = f_deriv(np.array([p_old]), np.array([b[i]]))[0]
             for j in range(A_indptr[i], A_indptr[i + 1]):
                 j_idx = A_indices[j]
-                grad_tmp[j_idx] = (grad_i - old_grad_i) * A_data[j]
+                grad_tmp[j_idx] += (grad_i - old_grad_i) * A_data[j]
 
             # .. update coefficients ..
             # .. first iterate on blocks ..
@@ -640,7 +640,7 @@ def _factory_sparse_vrtos(
             grad_i = f_deriv(np.array([p]), np.array([b[i]]))[0]
             for j in range(A_indptr[i], A_indptr[i + 1]):
                 j_idx = A_indices[j]
-                grad_tmp[j_idx] = (grad_i - memory_gradient[i]) * A_data[j]
+                grad_tmp[j_idx] += (grad_i - memory_gradient[i]) * A_data[j]
 
             # .. x update ..
             for h_j in range(bs_1_indptr[i], bs_1_indptr[i + 1]):
-- 
2.43.0


From 4b833be5999587c1d0bb7b680638b8f81f30fa99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:04 +0000
Subject: [PATCH 21/50] fix: safe_sparse_add broadcasts a sparse column and a
 vector to a matrix

---
 copt/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copt/utils.py b/copt/utils.py
index 7f6be72..e4acd6d 100644
--- a/copt/utils.py
+++ b/copt/utils.py
@@ -67,7 +67,7 @@ def safe_sparse_add(a, b):
         if sparse.issparse(a):
             a = a.toarray()
             if a.ndim == 2 and b.ndim == 1:
-                b.ravel()
+                a = a.ravel()
         elif sparse.issparse(b):
             b = b.toarray()
             if b.ndim == 2 and a.ndim == 1:
-- 
2.43.0


From 4dfd215e9f7ac8b50abc761e17fa8e3b6b4f4d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:04 +0000
Subject: [PATCH 22/50] fix: nuclear-norm ball oracle fails on zero directions
 and on single-row or single-column matrices

---
 copt/constraint.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/copt/constraint.py b/copt/constraint.py
index 3248dcc..0132880 100644
--- a/copt/constraint.py
+++ b/copt/constraint.py
@@ -319,6 +319,11 @@ class TraceBall:
           max_step_size: 1. for a Frank-Wolfe step.
         """
         u_mat = u.reshape(self.shape)
-        ut, _, vt = splinalg.svds(u_mat, k=1)
+        if min(self.shape) == 1 or not np.any(u_mat):
+            # not supported by svds
+            ut, _, vt = linalg.svd(u_mat, full_matrices=False)
+            ut, vt = ut[:, 0], vt[0]
+        else:
+            ut, _, vt = splinalg.svds(u_mat, k=1)
         vertex = self.alpha * np.outer(ut, vt).ravel()
         return vertex - x, None, None, 1.
-- 
2.43.0


From fc5fe51e68b50a25ef6f5da426419b91b42a5ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:04 +0000
Subject: [PATCH 23/50] fix: group lasso fails on groups given as tuples

---
 copt/penalty.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/copt/penalty.py b/copt/penalty.py
index b9774f3..3d9271a 100644
--- a/copt/penalty.py
+++ b/copt/penalty.py
@@ -67,6 +67,8 @@ class GroupL1:
 
     def __init__(self, alpha, groups):
         self.alpha = alpha
+        # tuples would be understood as multi-dimensional indices
+        groups = [list(g) for g in groups]
         # groups need to be increasing
         for i, g in enumerate(groups):
             if not np.all(np.diff(g) == 1):
-- 
2.43.0


From dd0619a7f411c1a800061cecdae00c99e69a4088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:04 +0000
Subject: [PATCH 24/50] fix: logistic loss truncates its value, gradient and
 Hessian products for integer inputs

---
 copt/loss.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/copt/loss.py b/copt/loss.py
index 626f333..3f11348 100644
--- a/copt/loss.py
+++ b/copt/loss.py
@@ -50,7 +50,7 @@ class LogLoss:
 
     def logsig(self, x):
         """Compute log(1 / (1 + exp(-t))) component-wise."""
-        out = np.zeros_like(x)
+        out = np.zeros_like(x, dtype=float)
         idx0 = x < -33
         out[idx0] = x[idx0]
         idx1 = (x >= -33) & (x < -18)
@@ -64,7 +64,7 @@ class LogLoss:
     def expit_b(self, x, b):
         """Compute sigmoid(x) - b."""
         idx = x < 0
-        out = np.zeros_like(x)
+        out = np.zeros_like(x, dtype=float)
         exp_x = np.exp(x[idx])
         b_idx = b[idx]
         out[idx] = ((1 - b_idx) * exp_x - b_idx) / (1 + exp_x)
@@ -123,7 +123,7 @@ class LogLoss:
             dd_intercept = np.squeeze(np.array(dX.sum(axis=0)))
 
         def _Hs(s):
-            ret = np.empty_like(s)
+            ret = np.empty_like(s, dtype=float)
             ret[:n_features] = self.A.T.dot(dX.dot(s[:n_features]))
             ret[:n_features] += n_samples * self.alpha * s[:n_features]
 
@@ -163,7 +163,7 @@ class LogLoss:
             dd_intercept = np.squeeze(np.array(dX.sum(axis=0)))
 
         def _Hs(s):
-            ret = np.empty_like(s)
+            ret = np.empty_like(s, dtype=float)
             ret[:n_features] = self.A.T.dot(dX.dot(s[:n_features]))
             ret[:n_features] += n_samples * self.alpha * s[:n_features]
 
-- 
2.43.0


From 9e8ba737d482d0a55ba9273852a8db052af5dab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:04 +0000
Subject: [PATCH 25/50] fix: Lipschitz constants of the losses fail on
 single-row, single-column and zero matrices

---
 copt/loss.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/copt/loss.py b/copt/loss.py
index 3f11348..c281970 100644
--- a/copt/loss.py
+++ b/copt/loss.py
@@ -6,6 +6,17 @@ from sklearn.utils.extmath import safe_sparse_dot
 from copt.utils import safe_sparse_add, njit, prange
 
 
+def _spectral_norm(A):
+    """Largest singular value of a (dense or sparse) matrix."""
+    if min(A.shape) == 1:
+        # row and column vectors, not supported by svds
+        return np.linalg.norm(A.toarray() if sparse.issparse(A) else A)
+    if not abs(A).max() > 0:
+        # zero matrix, not supported by svds
+        return 0.0
+    return splinalg.svds(A, k=1, return_singular_vectors=False)[0]
+
+
 class LogLoss:
     r"""Logistic loss function.
 
@@ -197,7 +208,7 @@ class LogLoss:
 
     @property
     def lipschitz(self):
-        s = splinalg.svds(self.A, k=1, return_singular_vectors=False)[0]
+        s = _spectral_norm(self.A)
         return 0.25 * (s * s) / self.A.shape[0] + self.alpha
 
     @property
@@ -251,7 +262,7 @@ class SquareLoss:
 
     @property
     def lipschitz(self):
-        s = splinalg.svds(self.A, k=1, return_singular_vectors=False)[0]
+        s = _spectral_norm(self.A)
         return (s * s) / self.A.shape[0] + self.alpha
 
     @property
@@ -294,5 +305,5 @@ class HuberLoss:
 
     @property
     def lipschitz(self):
-        s = splinalg.svds(self.A, k=1, return_singular_vectors=False)[0]
+        s = _spectral_norm(self.A)
         return (s * s) / self.A.shape[0] + self.alpha
-- 
2.43.0


From 1c403b55bf7e558d2355c4c9b414b8a37fb03dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:04 +0000
Subject: [PATCH 26/50] fix: three-operator splitting accepts an exhausted line
 search silently and with an iterate of another step size

---
 copt/splitting.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/copt/splitting.py b/copt/splitting.py
index 203eccd..83ddadc 100644
--- a/copt/splitting.py
+++ b/copt/splitting.py
@@ -146,6 +146,13 @@ def minimize_three_split(
                     break
                 else:
                     step_size *= backtracking_factor
+            else:
+                warnings.warn("Maxium number of line-search iterations reached")
+                # the step size has changed since the last evaluation
+                x = prox_1(z - step_size * (u + grad_fk), step_size, *args_prox)
+                norm_incr = np.linalg.norm(x - z)
+                # .. not a step size to be increased ..
+                ls = False
 
         z = prox_2(x + step_size * u, step_size, *args_prox)
         u += (x - z) / step_size
-- 
2.43.0


From 875ac39add25de3b6000a0ac556ced4c7f32396b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:20 +0000
Subject: [PATCH 27/50] fix: primal-dual line search measures the step in the
 wrong norm and does not converge unless the operator has norm one

---
 copt/splitting.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/copt/splitting.py b/copt/splitting.py
index 83ddadc..ccf3dec 100644
--- a/copt/splitting.py
+++ b/copt/splitting.py
@@ -309,12 +309,13 @@ def minimize_primal_dual(
                 sigma = ss_ratio * tau_next
                 y_bar = y_next + theta * (y_next - y)
                 x_next = prox_1(x - sigma * (L.rmatvec(y_bar) + grad_fk), sigma)
-                incr_x = np.linalg.norm(L.matvec(x_next) - L.matvec(x))
+                incr_x = np.linalg.norm(x_next - x)
+                incr_Lx = np.linalg.norm(L.matvec(x_next) - L.matvec(x))
                 f_next, f_grad_next = f_grad(x_next)
                 if incr_x <= 1e-10:
                     break
 
-                tmp = (sigma * tau_next) * (incr_x ** 2)
+                tmp = (sigma * tau_next) * (incr_Lx ** 2)
                 tmp += 2 * sigma * (f_next - fk - grad_fk.dot(x_next - x))
                 if tmp / delta <= (incr_x ** 2):
                     tau = tau_next
-- 
2.43.0


From ca773098bb93d92e3321bcd1d99f4ba52ea0a03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:03 +0000
Subject: [PATCH 28/50] fix: primal-dual ignores max_iter_ls and never returns
 when the line search cannot succeed

---
 copt/splitting.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/copt/splitting.py b/copt/splitting.py
index ccf3dec..0f8fb46 100644
--- a/copt/splitting.py
+++ b/copt/splitting.py
@@ -191,7 +191,7 @@ def minimize_primal_dual(
     step_size=1.0,
     step_size2=None,
     line_search=True,
-    max_iter_ls=20,
+    max_iter_ls=1000,
     verbose=0,
 ):
     """Primal-dual hybrid gradient splitting method.
@@ -304,7 +304,7 @@ def minimize_primal_dual(
         y_next = prox_2_conj(y + tau * L.matvec(x), tau)
         if line_search:
             tau_next = tau * (1 + np.sqrt(1 + theta)) / 2
-            while True:
+            for _ in range(max_iter_ls):
                 theta = tau_next / tau
                 sigma = ss_ratio * tau_next
                 y_bar = y_next + theta * (y_next - y)
@@ -322,6 +322,9 @@ def minimize_primal_dual(
                     break
                 else:
                     tau_next *= 0.9
+            else:
+                warnings.warn("Maxium number of line-search iterations reached")
+                tau = tau_next
         else:
             y_bar = 2 * y_next - y
             x_next = prox_1(x - sigma * (L.rmatvec(y_bar) + grad_fk), sigma)
-- 
2.43.0


From 60bc3a8bc4133d0847f545d305b708cc783bdf0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:19 +0000
Subject: [PATCH 29/50] fix: finite-difference gradients (jac='2-point' or
 False) fail or take the gradient from the objective

---
 copt/frank_wolfe.py       |  7 ++++---
 copt/proximal_gradient.py |  7 ++++---
 copt/utils.py             | 13 ++++++++-----
 3 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/copt/frank_wolfe.py b/copt/frank_wolfe.py
index cf99cee..9513d86 100644
--- a/copt/frank_wolfe.py
+++ b/copt/frank_wolfe.py
@@ -122,7 +122,7 @@ def minimize_frank_wolfe(
         lmo,
         x0_rep=None,
         variant='vanilla',
-        jac="2-point",
+        jac=True,
         step="backtracking",
         lipschitz=None,
         args=(),
@@ -169,8 +169,9 @@ def minimize_frank_wolfe(
         the fixed parameters. Alternatively, the '2-point' select a finite
         difference scheme for numerical estimation of the gradient.
         If `jac` is a Boolean and is True, `fun` is assumed to return the
-        gradient along with the objective function. If False, the gradient
-        will be estimated using '2-point' finite difference estimation.
+        gradient along with the objective function. This is the default.
+        If False, the gradient will be estimated using '2-point' finite
+        difference estimation.
 
     step: str or callable, optional
       Step-size strategy to use. Should be one of
diff --git a/copt/proximal_gradient.py b/copt/proximal_gradient.py
index 0704fb3..345472c 100644
--- a/copt/proximal_gradient.py
+++ b/copt/proximal_gradient.py
@@ -10,7 +10,7 @@ def minimize_proximal_gradient(
         fun,
         x0,
         prox=None,
-        jac="2-point",
+        jac=True,
         tol=1e-6,
         max_iter=500,
         args=(),
@@ -52,8 +52,9 @@ def minimize_proximal_gradient(
         the fixed parameters. Alternatively, the '2-point' select a finite
         difference scheme for numerical estimation of the gradient.
         If `jac` is a Boolean and is True, `fun` is assumed to return the
-        gradient along with the objective function. If False, the gradient
-        will be estimated using '2-point' finite difference estimation.
+        gradient along with the objective function. This is the default.
+        If False, the gradient will be estimated using '2-point' finite
+        difference estimation.
 
     prox : callable, optional.
         Proximal operator g.
diff --git a/copt/utils.py b/copt/utils.py
index e4acd6d..e350bca 100644
--- a/copt/utils.py
+++ b/copt/utils.py
@@ -34,19 +34,22 @@ except ImportError:
 
 def build_func_grad(jac, fun, args, eps):
     if not callable(jac):
-        if bool(jac):
+        if isinstance(jac, str):
+            if jac != "2-point":
+                raise NotImplementedError("jac has unexpected value.")
+            jac = None
+        elif bool(jac):
             fun = optimize._optimize.MemoizeJac(fun)
             jac = fun.derivative
-        elif jac == "2-point":
-            jac = None
         else:
-            raise NotImplementedError("jac has unexpected value.")
+            jac = None
 
     if jac is None:
 
         def func_and_grad(x):
             f = fun(x, *args)
-            g = optimize._approx_fprime_helper(x, fun, eps, args=args, f0=f)
+            g = optimize.approx_fprime(x, fun, eps, *args)
+            return f, g
 
     else:
 
-- 
2.43.0


From 73685d1e8d60c36329a3e867292fcd2cbd05e441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:21 +0000
Subject: [PATCH 30/50] fix: an interrupted dataset download makes later calls
 fail or return partial data

---
 copt/datasets.py | 53 +++++++++++++++++++++++++++++++++---------------
 1 file changed, 37 insertions(+), 16 deletions(-)

diff --git a/copt/datasets.py b/copt/datasets.py
index 806492a..b7c326d 100755
--- a/copt/datasets.py
+++ b/copt/datasets.py
@@ -40,10 +40,23 @@ def _load_dataset(name, subset, data_dir):
         file_exists = gfile.exists
         makedirs = gfile.makedirs
         file_loader = gfile.GFile
+
+        def rename(src, dst):
+            gfile.rename(src, dst, overwrite=True)
+
     else:
         file_exists = os.path.exists
-        makedirs = os.makedirs
         file_loader = open
+        rename = os.replace
+
+        def makedirs(path):
+            os.makedirs(path, exist_ok=True)
+
+    if subset not in ("train", "test", "full"):
+        raise ValueError(
+            "subset '%s' not implemented, must be one of ('train', 'test', 'full')."
+            % subset
+        )
     dataset_dir = os.path.join(data_dir, name)
     files_train = (
         "X_train.data.npy",
@@ -51,8 +64,15 @@ def _load_dataset(name, subset, data_dir):
         "X_train.indptr.npy",
         "y_train.npy",
     )
+    files_test = (
+        "X_test.data.npy",
+        "X_test.indices.npy",
+        "X_test.indptr.npy",
+        "y_test.npy",
+    )
+    files_needed = files_train if subset == "train" else files_train + files_test
     if not np.all(
-        [file_exists(os.path.join(dataset_dir, fname)) for fname in files_train]
+        [file_exists(os.path.join(dataset_dir, fname)) for fname in files_needed]
     ):
         makedirs(dataset_dir)
         print(
@@ -63,6 +83,10 @@ def _load_dataset(name, subset, data_dir):
         local_filename, _ = urllib.request.urlretrieve(url)
         print("Finished downloading")
 
+        # the files get their final name only once they are complete and the
+        # whole archive has been read, so that what an interrupted or failed
+        # call leaves behind is never taken for (part of) the dataset
+        extracted = []
         tar = tarfile.open(local_filename)
         for member in tar.getmembers():
             f_orig = tar.extractfile(member)
@@ -70,7 +94,9 @@ def _load_dataset(name, subset, data_dir):
                 continue
 
             print("Extracting data to %s" % os.path.join(data_dir, member.name))
-            f_dest = file_loader(os.path.join(data_dir, member.name), "wb")
+            dest = os.path.join(data_dir, member.name)
+            f_dest = file_loader(dest + ".part", "wb")
+            extracted.append(dest)
             chunk = 5000
             while True:
                 data = f_orig.read(chunk)
@@ -79,6 +105,12 @@ def _load_dataset(name, subset, data_dir):
                 f_dest.write(data)
             f_dest.close()
             f_orig.close()
+        # reach the end of the archive, where its checksum is verified
+        while tar.fileobj.read(1 << 20):
+            pass
+        tar.close()
+        for dest in extracted:
+            rename(dest + ".part", dest)
 
     tmp_train = []
     for fname in files_train:
@@ -92,12 +124,7 @@ def _load_dataset(name, subset, data_dir):
         retval = (data_train, target_train)
     else:
         tmp_test = []
-        for fname in (
-            "X_test.data.npy",
-            "X_test.indices.npy",
-            "X_test.indptr.npy",
-            "y_test.npy",
-        ):
+        for fname in files_test:
             with file_loader(os.path.join(dataset_dir, fname), "rb") as f:
                 tmp_test.append(np.load(f))
 
@@ -106,16 +133,10 @@ def _load_dataset(name, subset, data_dir):
 
         if subset == "test":
             retval = (data_test, target_test)
-        elif subset == "full":
+        else:
             data_full = sparse.vstack((data_train, data_test))
             target_full = np.concatenate((target_train, target_test))
             retval = (data_full, target_full)
-        else:
-            f.close()
-            raise ValueError(
-                "subset '%s' not implemented, must be one of ('train', 'test', 'full')."
-                % subset
-            )
     return retval
 
 
-- 
2.43.0


From b952a8cf9a749f02b068c0e3f0496e889baeccec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:21 +0000
Subject: [PATCH 31/50] fix: load_url and load_kdd12 fail on the labels (np.int
 is gone in NumPy 2)

---
 copt/datasets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copt/datasets.py b/copt/datasets.py
index b7c326d..3ddd031 100755
--- a/copt/datasets.py
+++ b/copt/datasets.py
@@ -263,7 +263,7 @@ def load_url(md5_check=True):
     X_indptr = np.load(data_indptr)
     X = sparse.csr_matrix((X_data, X_indices, X_indptr))
     y = np.load(data_target)
-    y = ((y + 1) // 2).astype(np.int)
+    y = ((y + 1) // 2).astype(int)
     return X, y
 
 
@@ -425,7 +425,7 @@ def load_kdd12(md5_check=True, verbose=0):
     X_indptr = np.load(data_indptr)
     X = sparse.csr_matrix((X_data, X_indices, X_indptr))
     y = np.load(data_target)
-    y = ((y + 1) // 2).astype(np.int)
+    y = ((y + 1) // 2).astype(int)
     return X, y
 
 
-- 
2.43.0


From c0559cb299c35dcf76faa4a36f436825b76a8a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:21 +0000
Subject: [PATCH 32/50] fix: load_kdd12 returns the URL dataset when its
 download is corrupted

---
 copt/datasets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copt/datasets.py b/copt/datasets.py
index 3ddd031..776f79f 100755
--- a/copt/datasets.py
+++ b/copt/datasets.py
@@ -410,7 +410,7 @@ def load_kdd12(md5_check=True, verbose=0):
                 print("MD5 hash do not coincide")
                 print("Removing file and re-downloading")
                 os.remove(file_path)
-                return load_url()
+                return load_kdd12()
         zipfile = bz2.BZ2File(file_path)
         data = zipfile.read()
         newfilepath = file_path[:-4]
-- 
2.43.0


From 984c949d586f92a5c4255f208ca6f095e05c34be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:33 +0000
Subject: [PATCH 33/50] fix: interrupted download or conversion of the url,
 kdd10, kdd12 and criteo datasets breaks later calls

---
 copt/datasets.py | 87 ++++++++++++++++++++++++++++++------------------
 1 file changed, 55 insertions(+), 32 deletions(-)

diff --git a/copt/datasets.py b/copt/datasets.py
index 776f79f..cd252af 100755
--- a/copt/datasets.py
+++ b/copt/datasets.py
@@ -140,6 +140,19 @@ def _load_dataset(name, subset, data_dir):
     return retval
 
 
+def _download(url, file_path):
+    """Download url to file_path, which exists only once it is complete."""
+    urllib.request.urlretrieve(url, file_path + ".part")
+    os.replace(file_path + ".part", file_path)
+
+
+def _save(file_path, array):
+    """Save array to file_path, which exists only once it is complete."""
+    with open(file_path + ".part", "wb") as f:
+        np.save(f, array)
+    os.replace(file_path + ".part", file_path)
+
+
 def load_madelon(subset="full", data_dir=DATA_DIR):
     """Download and return the madelon dataset.
 
@@ -237,11 +250,15 @@ def load_url(md5_check=True):
 
     if not os.path.exists(DATA_DIR):
         os.makedirs(DATA_DIR)
-    if not os.path.exists(file_path):
-        print("URL dataset is not present in data folder. Downloading it ...")
-        url = "https://www.csie.ntu.edu.tw/~cjlin/libsvmtools/datasets/binary/url_combined.bz2"
-        urllib.request.urlretrieve(url, file_path)
-        print("Finished downloading")
+    if not all(
+        os.path.exists(path)
+        for path in (data_path, data_indices, data_indptr, data_target)
+    ):
+        if not os.path.exists(file_path):
+            print("URL dataset is not present in data folder. Downloading it ...")
+            url = "https://www.csie.ntu.edu.tw/~cjlin/libsvmtools/datasets/binary/url_combined.bz2"
+            _download(url, file_path)
+            print("Finished downloading")
         if md5_check:
             h = hashlib.md5(open(file_path, "rb").read()).hexdigest()
             if not h == "83673b8f4224c81968af2fb6022ee487":
@@ -254,10 +271,10 @@ def load_url(md5_check=True):
         newfilepath = file_path[:-4]
         open(newfilepath, "wb").write(data)
         X, y = datasets.load_svmlight_file(newfilepath)
-        np.save(data_path, X.data)
-        np.save(data_indices, X.indices)
-        np.save(data_indptr, X.indptr)
-        np.save(data_target, y)
+        _save(data_path, X.data)
+        _save(data_indices, X.indices)
+        _save(data_indptr, X.indptr)
+        _save(data_target, y)
     X_data = np.load(data_path)
     X_indices = np.load(data_indices)
     X_indptr = np.load(data_indptr)
@@ -359,7 +376,7 @@ def load_kdd10(md5_check=True):
     if not os.path.exists(file_path):
         print("KDD10 dataset is not present in data folder. Downloading it ...")
         url = "https://www.csie.ntu.edu.tw/~cjlin/libsvmtools/datasets/binary/kddb.bz2"
-        urllib.request.urlretrieve(url, file_path)
+        _download(url, file_path)
         print("Finished downloading")
     if md5_check:
         h = hashlib.md5(open(file_path, "rb").read()).hexdigest()
@@ -399,11 +416,15 @@ def load_kdd12(md5_check=True, verbose=0):
 
     if not os.path.exists(DATA_DIR):
         os.makedirs(DATA_DIR)
-    if not os.path.exists(file_path):
-        print("KDD12 dataset is not present in data folder. Downloading it ...")
-        url = "https://www.csie.ntu.edu.tw/~cjlin/libsvmtools/datasets/binary/kdd12.bz2"
-        urllib.request.urlretrieve(url, file_path)
-        print("Finished downloading")
+    if not all(
+        os.path.exists(path)
+        for path in (data_path, data_indices, data_indptr, data_target)
+    ):
+        if not os.path.exists(file_path):
+            print("KDD12 dataset is not present in data folder. Downloading it ...")
+            url = "https://www.csie.ntu.edu.tw/~cjlin/libsvmtools/datasets/binary/kdd12.bz2"
+            _download(url, file_path)
+            print("Finished downloading")
         if md5_check:
             h = hashlib.md5(open(file_path, "rb").read()).hexdigest()
             if not h == "c6fc57735c3cf687dd182d60a7b51cda":
@@ -416,10 +437,10 @@ def load_kdd12(md5_check=True, verbose=0):
         newfilepath = file_path[:-4]
         open(newfilepath, "wb").write(data)
         X, y = datasets.load_svmlight_file(newfilepath)
-        np.save(data_path, X.data)
-        np.save(data_indices, X.indices)
-        np.save(data_indptr, X.indptr)
-        np.save(data_target, y)
+        _save(data_path, X.data)
+        _save(data_indices, X.indices)
+        _save(data_indptr, X.indptr)
+        _save(data_target, y)
     X_data = np.load(data_path)
     X_indices = np.load(data_indices)
     X_indptr = np.load(data_indptr)
@@ -455,15 +476,15 @@ def load_criteo(md5_check=True):
     data_indices = os.path.join(DATA_DIR, "criteo.kaggle2014.indices.npy")
     data_indptr = os.path.join(DATA_DIR, "criteo.kaggle2014.indptr.npy")
     data_target = os.path.join(DATA_DIR, "criteo.kaggle2014.target.npy")
-    if not os.path.exists(file_path):
-        print("criteo dataset is not present in data folder. Downloading it ...")
-        url = "https://s3-us-west-2.amazonaws.com/criteo-public-svm-data/criteo.kaggle2014.svm.tar.gz"
-        urllib.request.urlretrieve(url, file_path)
-        import tarfile
-
-        tar = tarfile.open(file_path)
-        tar.extractall(DATA_DIR)
-        print("Finished downloading")
+    if not all(
+        os.path.exists(path)
+        for path in (data_path, data_indices, data_indptr, data_target)
+    ):
+        if not os.path.exists(file_path):
+            print("criteo dataset is not present in data folder. Downloading it ...")
+            url = "https://s3-us-west-2.amazonaws.com/criteo-public-svm-data/criteo.kaggle2014.svm.tar.gz"
+            _download(url, file_path)
+            print("Finished downloading")
         if md5_check:
             h = hashlib.md5(open(file_path, "rb").read()).hexdigest()
             if h != "d852b491d1b3afa26c1e7b49594ffc3e":
@@ -471,13 +492,15 @@ def load_criteo(md5_check=True):
                 print("Removing file and re-downloading")
                 os.remove(file_path)
                 return load_criteo()
+        tar = tarfile.open(file_path)
+        tar.extractall(DATA_DIR)
         X, y = datasets.load_svmlight_file(
             os.path.join(DATA_DIR, "criteo.kaggle2014.train.svm")
         )
-        np.save(data_path, X.data)
-        np.save(data_indices, X.indices)
-        np.save(data_indptr, X.indptr)
-        np.save(data_target, y)
+        _save(data_path, X.data)
+        _save(data_indices, X.indices)
+        _save(data_indptr, X.indptr)
+        _save(data_target, y)
         # optionally delete files
     else:
         X_data = np.load(data_path)
-- 
2.43.0


From 0a4e1f8afa0fd9336d299c6aa454f90a779a1a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:35 +0000
Subject: [PATCH 34/50] fix: Huber loss gradient fails for sparse formats
 without row indexing

---
 copt/loss.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/copt/loss.py b/copt/loss.py
index c281970..d7145c7 100644
--- a/copt/loss.py
+++ b/copt/loss.py
@@ -298,9 +298,9 @@ class HuberLoss:
         )
         if not return_gradient:
             return loss
-        grad = self.A[idx].T.dot(z[idx]) / self.A.shape[0] + self.alpha * x.T
-        grad = np.asarray(grad)
-        grad += self.A[~idx].T.dot(self.delta * np.sign(z[~idx])) / self.A.shape[0]
+        # (not every sparse format can be indexed by rows)
+        dz = np.where(idx, z, self.delta * np.sign(z))
+        grad = self.A.T.dot(dz) / self.A.shape[0] + self.alpha * x.T
         return loss, np.asarray(grad).ravel()
 
     @property
-- 
2.43.0


From 499e661611b0937a4392970838f1bc516695c5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:10 +0000
Subject: [PATCH 35/50] fix: Lipschitz constants of the losses fail on matrices
 in diagonal sparse format

---
 copt/loss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copt/loss.py b/copt/loss.py
index d7145c7..f02cc0d 100644
--- a/copt/loss.py
+++ b/copt/loss.py
@@ -11,7 +11,7 @@ def _spectral_norm(A):
     if min(A.shape) == 1:
         # row and column vectors, not supported by svds
         return np.linalg.norm(A.toarray() if sparse.issparse(A) else A)
-    if not abs(A).max() > 0:
+    if not abs(A).sum() > 0:
         # zero matrix, not supported by svds
         return 0.0
     return splinalg.svds(A, k=1, return_singular_vectors=False)[0]
-- 
2.43.0


From 85c2c3dc08aa72d3b2052e8029b0b81a82596f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:19 +0000
Subject: [PATCH 36/50] fix: accelerated proximal gradient with backtracking
 does not converge when the step size increases again

---
 copt/proximal_gradient.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/copt/proximal_gradient.py b/copt/proximal_gradient.py
index 345472c..fa04930 100644
--- a/copt/proximal_gradient.py
+++ b/copt/proximal_gradient.py
@@ -247,6 +247,8 @@ def minimize_proximal_gradient(
                         )
                 else:
                     warnings.warn("Maxium number of line-search iterations reached")
+                # .. the method does not converge if the step size increases ..
+                step_size = current_step_size
                 t_next = (1 + np.sqrt(1 + 4 * tk * tk)) / 2
                 yk = x_next + ((tk - 1.0) / t_next) * (x_next - x)
 
-- 
2.43.0


From af3f333f69d112ea269731bd3a408d1d6d1bdeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:21 +0000
Subject: [PATCH 37/50] fix: gradient estimate of the SAGA variant of
 stochastic Frank-Wolfe is biased for batches of several samples

---
 copt/randomized.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/copt/randomized.py b/copt/randomized.py
index a61c380..a0bac43 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -939,7 +939,8 @@ From Convex Minimization to Submodular Maximization" <https://arxiv.org/abs/1804
                 update_direction, fw_vertex_rep, away_vertex_rep, max_step_size = lmo(-grad_agg, x, active_set)
 
             elif variant == 'SAGA':
-                grad_est = utils.safe_sparse_add(grad_agg, (n_samples - 1) * utils.fast_csr_vm(dual_var[batch_idx] - dual_var_prev,
+                # (n_samples / size of the batch makes the estimate unbiased)
+                grad_est = utils.safe_sparse_add(grad_agg, (n_samples / len(batch_idx) - 1) * utils.fast_csr_vm(dual_var[batch_idx] - dual_var_prev,
                                                                                                A_data, A_indptr, A_indices,
                                                                                                n_features, batch_idx))
                 update_direction, fw_vertex_rep, away_vertex_rep, max_step_size = lmo(-grad_est, x, active_set)
-- 
2.43.0


From 26df8c95ff8be4f0c718677501939e8f0cf40e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:06 +0000
Subject: [PATCH 38/50] fix: a step of length zero enters a vertex of weight
 zero into the active set

---
 copt/frank_wolfe.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/copt/frank_wolfe.py b/copt/frank_wolfe.py
index 9513d86..aa12def 100644
--- a/copt/frank_wolfe.py
+++ b/copt/frank_wolfe.py
@@ -102,6 +102,10 @@ def update_active_set(active_set,
                       fw_vertex_rep, away_vertex_rep,
                       step_size):
 
+    if step_size == 0.:
+        # no move: must not enter a vertex of weight zero
+        return active_set
+
     max_step_size = active_set[away_vertex_rep]
     active_set[fw_vertex_rep] += step_size
     active_set[away_vertex_rep] -= step_size
-- 
2.43.0


From bad75f9199ff9ee5967a7e143336b2c4d66052b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:15 +0000
Subject: [PATCH 39/50] fix: proximal gradient performs one iteration more than
 max_iter

---
 copt/proximal_gradient.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/copt/proximal_gradient.py b/copt/proximal_gradient.py
index fa04930..d31479b 100644
--- a/copt/proximal_gradient.py
+++ b/copt/proximal_gradient.py
@@ -185,14 +185,13 @@ def minimize_proximal_gradient(
             fk = f_next
             grad_fk = grad_next
 
+            n_iterations += 1
             if certificate < tol:
                 success = True
                 break
 
             if n_iterations >= max_iter:
                 break
-            else:
-                n_iterations += 1
         else:
             warnings.warn(
                 "minimize_proximal_gradient did not reach the desired tolerance level",
@@ -262,16 +261,15 @@ def minimize_proximal_gradient(
                 tk = t_next
                 x = x_next.copy()
 
+            n_iterations += 1
             if certificate < tol:
                 success = True
                 break
 
             if n_iterations >= max_iter:
                 break
-            else:
-                n_iterations += 1
 
-        if n_iterations >= max_iter:
+        if n_iterations >= max_iter and not success:
             warnings.warn(
                 "minimize_proximal_gradient did not reach the desired tolerance level",
                 RuntimeWarning,
-- 
2.43.0


From 2d9c54a2efab56a07bca8d69a9c7c8fbd21647a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:39 +0000
Subject: [PATCH 40/50] fix: Frank-Wolfe calls the callback again after it
 asked to stop

---
 copt/frank_wolfe.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/copt/frank_wolfe.py b/copt/frank_wolfe.py
index aa12def..0169f5d 100644
--- a/copt/frank_wolfe.py
+++ b/copt/frank_wolfe.py
@@ -305,6 +305,8 @@ def minimize_frank_wolfe(
             raise ValueError("Invalid option step=%s" % step)
         if callback is not None:
             if callback(locals()) is False:  # pylint: disable=g-bool-id-comparison
+                # .. no further call once it asked to stop ..
+                callback = None
                 break
         x += step_size * update_direction
         if variant == 'pairwise':
-- 
2.43.0


From eb73754412dcb87cf3e9fe8a3a4876aa0586de21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:17 +0000
Subject: [PATCH 41/50] fix: per-sample Lipschitz constants are wrong for
 sparse matrices with duplicate entries

---
 copt/loss.py  | 10 +++-------
 copt/utils.py | 15 ++++++++++++---
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/copt/loss.py b/copt/loss.py
index f02cc0d..9866f38 100644
--- a/copt/loss.py
+++ b/copt/loss.py
@@ -3,7 +3,7 @@ from scipy import sparse, special
 from scipy.sparse import linalg as splinalg
 from sklearn.utils.extmath import safe_sparse_dot
 
-from copt.utils import safe_sparse_add, njit, prange
+from copt.utils import max_squared_row_norm, safe_sparse_add, njit, prange
 
 
 def _spectral_norm(A):
@@ -213,9 +213,7 @@ class LogLoss:
 
     @property
     def max_lipschitz(self):
-        from sklearn.utils.extmath import row_norms
-
-        max_squared_sum = row_norms(self.A, squared=True).max()
+        max_squared_sum = max_squared_row_norm(self.A)
 
         return 0.25 * max_squared_sum + self.alpha
 
@@ -267,9 +265,7 @@ class SquareLoss:
 
     @property
     def max_lipschitz(self):
-        from sklearn.utils.extmath import row_norms
-
-        max_squared_sum = row_norms(self.A, squared=True).max()
+        max_squared_sum = max_squared_row_norm(self.A)
 
         return max_squared_sum + self.alpha
 
diff --git a/copt/utils.py b/copt/utils.py
index e350bca..b738d9e 100644
--- a/copt/utils.py
+++ b/copt/utils.py
@@ -185,6 +185,17 @@ def init_lipschitz(f_grad, x0):
     return L0
 
 
+def max_squared_row_norm(A):
+    """Largest squared norm of a row of a (dense or sparse) matrix."""
+    from sklearn.utils.extmath import row_norms
+
+    if sparse.issparse(A):
+        # the squares of duplicate entries do not add up to that of their sum
+        A = A.tocsr(copy=True)
+        A.sum_duplicates()
+    return row_norms(A, squared=True).max()
+
+
 def get_max_lipschitz(A, loss, alpha=0):
     """
   XXX DEPRECATED
@@ -196,9 +207,7 @@ def get_max_lipschitz(A, loss, alpha=0):
 
   loss : {"logloss", "square", "huber"}
   """
-    from sklearn.utils.extmath import row_norms
-
-    max_squared_sum = row_norms(A, squared=True).max()
+    max_squared_sum = max_squared_row_norm(A)
 
     if loss == "logloss":
         return 0.25 * max_squared_sum + alpha
-- 
2.43.0


From 0df9a2877650d924ce4a7c884c099f1a31f8dc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:46 +0000
Subject: [PATCH 42/50] fix: L1 ball and simplex oracles truncate their move at
 points with integer entries

---
 copt/constraint.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copt/constraint.py b/copt/constraint.py
index 0132880..ea065d1 100644
--- a/copt/constraint.py
+++ b/copt/constraint.py
@@ -119,7 +119,7 @@ class L1Ball:
         largest_coordinate = np.argmax(abs_u)
         sign = np.sign(u[largest_coordinate])
 
-        update_direction = -x.copy()
+        update_direction = -1.0 * x
         update_direction[largest_coordinate] += self.alpha * sign
 
         # Only useful for active_set management in pairwise FW
@@ -182,7 +182,7 @@ class SimplexConstraint:
     """
         largest_coordinate = np.argmax(u)
 
-        update_direction = -x.copy()
+        update_direction = -1.0 * x
         update_direction[largest_coordinate] += self.s
 
         return update_direction, int(largest_coordinate), None, 1
-- 
2.43.0


From 3e718a85c52482253acbf863cb2bd23b63840d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:17 +0000
Subject: [PATCH 43/50] fix: proximal operator of the group lasso fails on
 integer vectors

---
 copt/penalty.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copt/penalty.py b/copt/penalty.py
index 3d9271a..8027a69 100644
--- a/copt/penalty.py
+++ b/copt/penalty.py
@@ -81,7 +81,7 @@ class GroupL1:
         return self.alpha * np.sum([np.linalg.norm(x[g]) for g in self.groups])
 
     def prox(self, x, step_size):
-        out = x.copy()
+        out = 1.0 * x
         for g in self.groups:
 
             norm = np.linalg.norm(x[g])
-- 
2.43.0


From 10866a1fc458204ee7f5d66de4c30f0fe18fe562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:51 +0000
Subject: [PATCH 44/50] fix: Lipschitz constants sum duplicate entries of the
 caller's matrix in place

---
 copt/loss.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/copt/loss.py b/copt/loss.py
index 9866f38..03b2889 100644
--- a/copt/loss.py
+++ b/copt/loss.py
@@ -11,6 +11,9 @@ def _spectral_norm(A):
     if min(A.shape) == 1:
         # row and column vectors, not supported by svds
         return np.linalg.norm(A.toarray() if sparse.issparse(A) else A)
+    if sparse.issparse(A):
+        # a copy, as duplicate entries would be summed in place
+        A = A.tocsr(copy=True)
     if not abs(A).sum() > 0:
         # zero matrix, not supported by svds
         return 0.0
-- 
2.43.0


From a53ef276871a98bc50df3fc433d00dd6ba8bf6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:54 +0000
Subject: [PATCH 45/50] fix: row- and column-wise total variation operators
 fail on non-contiguous arrays when compiled

---
 copt/tv_prox.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copt/tv_prox.py b/copt/tv_prox.py
index 56fff90..baa020d 100644
--- a/copt/tv_prox.py
+++ b/copt/tv_prox.py
@@ -140,7 +140,7 @@ def _prox_tv1d(step_size, input, output):
 def prox_tv1d_cols(stepsize, a, n_rows, n_cols):
     """apply prox_tv1d along columns of the matri a
     """
-    A = a.reshape((n_rows, n_cols))
+    A = np.ascontiguousarray(a).reshape((n_rows, n_cols))
     out = np.empty_like(A)
     for i in range(n_cols):
         _prox_tv1d(stepsize, A[:, i], out[:, i])
@@ -151,7 +151,7 @@ def prox_tv1d_cols(stepsize, a, n_rows, n_cols):
 def prox_tv1d_rows(stepsize, a, n_rows, n_cols):
     """apply prox_tv1d along rows of the matri a
     """
-    A = a.reshape((n_rows, n_cols))
+    A = np.ascontiguousarray(a).reshape((n_rows, n_cols))
     out = np.empty_like(A)
     for i in range(n_rows):
         _prox_tv1d(stepsize, A[i, :], out[i, :])
-- 
2.43.0


From cc23bc3e6f9fe23b5dfa5c2795a7aab85abc199b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:38 +0000
Subject: [PATCH 46/50] fix: nuclear-norm ball indicator loses its rounding
 slack from radius 2 on

---
 copt/constraint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copt/constraint.py b/copt/constraint.py
index ea065d1..5c1e07d 100644
--- a/copt/constraint.py
+++ b/copt/constraint.py
@@ -287,7 +287,7 @@ class TraceBall:
 
     def __call__(self, x):
         X = x.reshape(self.shape)
-        if linalg.svdvals(X).sum() <= self.alpha + np.finfo(np.float32).eps:
+        if linalg.svdvals(X).sum() <= self.alpha + float(np.finfo(np.float32).eps):
             return 0
         else:
             return np.inf
-- 
2.43.0


From c7ab739d4f66ccfd4da6f81785c8b7987974459b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:20 +0000
Subject: [PATCH 47/50] fix: accelerated proximal gradient with a callable step
 does not trace its certificates

---
 copt/proximal_gradient.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/copt/proximal_gradient.py b/copt/proximal_gradient.py
index d31479b..fb81644 100644
--- a/copt/proximal_gradient.py
+++ b/copt/proximal_gradient.py
@@ -223,6 +223,8 @@ def minimize_proximal_gradient(
                     current_step_size,
                 )
                 certificate = np.linalg.norm((x_next - x_prox) / current_step_size)
+                if trace_certificate:
+                    certificate_list.append(certificate)
                 tk = t_next
                 x = x_next.copy()
 
-- 
2.43.0


From b0e207cac230af39f057dd8abc98a162ef4da68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:15 +0000
Subject: [PATCH 48/50] fix: nuclear-norm oracle is inaccurate, or fails, for
 directions of tiny magnitude

---
 copt/constraint.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/copt/constraint.py b/copt/constraint.py
index 5c1e07d..37d7ae0 100644
--- a/copt/constraint.py
+++ b/copt/constraint.py
@@ -324,6 +324,7 @@ class TraceBall:
             ut, _, vt = linalg.svd(u_mat, full_matrices=False)
             ut, vt = ut[:, 0], vt[0]
         else:
-            ut, _, vt = splinalg.svds(u_mat, k=1)
+            # scaled, as the stopping criterion of svds is not relative
+            ut, _, vt = splinalg.svds(u_mat / np.max(np.abs(u_mat)), k=1)
         vertex = self.alpha * np.outer(ut, vt).ravel()
         return vertex - x, None, None, 1.
-- 
2.43.0


From 5d00e8e5202876ab0f173c7cfb937fb9c3fe9c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:47 +0000
Subject: [PATCH 49/50] fix: Lipschitz constants are inaccurate, or fail, for
 data of tiny magnitude

---
 copt/loss.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/copt/loss.py b/copt/loss.py
index 03b2889..4cfdb38 100644
--- a/copt/loss.py
+++ b/copt/loss.py
@@ -14,10 +14,12 @@ def _spectral_norm(A):
     if sparse.issparse(A):
         # a copy, as duplicate entries would be summed in place
         A = A.tocsr(copy=True)
-    if not abs(A).sum() > 0:
+    scale = abs(A).max()
+    if not scale > 0:
         # zero matrix, not supported by svds
         return 0.0
-    return splinalg.svds(A, k=1, return_singular_vectors=False)[0]
+    # scaled, as the stopping criterion of svds is not relative
+    return scale * splinalg.svds(A / scale, k=1, return_singular_vectors=False)[0]
 
 
 class LogLoss:
-- 
2.43.0


From e5e2fb44673cd55ae6ed15b167c5ad0e210e9d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:32 +0000
Subject: [PATCH 50/50] fix: primal-dual line search inverts the ratio of the
 step sizes it is given

---
 copt/splitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copt/splitting.py b/copt/splitting.py
index 0f8fb46..5bb4752 100644
--- a/copt/splitting.py
+++ b/copt/splitting.py
@@ -294,7 +294,7 @@ def minimize_primal_dual(
         tau = ss_ratio * sigma
     else:
         tau = step_size2
-        ss_ratio = tau / sigma
+        ss_ratio = sigma / tau
 
     fk, grad_fk = f_grad(x)
     norm_incr = np.inf
-- 
2.43.0

