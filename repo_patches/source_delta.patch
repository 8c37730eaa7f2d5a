From a50388a586e7f7a64ebeb09bd06cf26ab3afa252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:18 +0000
Subject: [PATCH 01/55] fix: pairwise Frank-Wolfe re-inserted the vertex it had
 just dropped with weight 0 and stalled on it

---
 copt/frank_wolfe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copt/frank_wolfe.py b/copt/frank_wolfe.py
index 510df93..68dba7f 100644
--- a/copt/frank_wolfe.py
+++ b/copt/frank_wolfe.py
@@ -105,7 +105,7 @@ def update_active_set(active_set,
     if active_set[away_vertex_rep] == 0.:
         # drop step: remove vertex from active set
         del active_set[away_vertex_rep]
-    if active_set[away_vertex_rep] < 0.:
+    elif active_set[away_vertex_rep] < 0.:
         raise ValueError(f"The step size used is too large. "
                          f"{step_size: .3f} vs. {max_step_size:.3f}")
 
-- 
2.43.0


From 6e4dab48ea92b15a8ec741901a26009959e05093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:18 +0000
Subject: [PATCH 02/55] fix: LogLoss Hessian-vector products divided the
 regularization term by n_samples

---
 copt/loss.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/copt/loss.py b/copt/loss.py
index aa37694..1af0787 100644
--- a/copt/loss.py
+++ b/copt/loss.py
@@ -125,7 +125,9 @@ class LogLoss:
         def _Hs(s):
             ret = np.empty_like(s)
             ret[:n_features] = self.A.T.dot(dX.dot(s[:n_features]))
-            ret[:n_features] += self.alpha * s[:n_features]
+            # the penalty is not averaged over samples, compensate for the
+            # division by n_samples below
+            ret[:n_features] += n_samples * self.alpha * s[:n_features]
 
             # For the fit intercept case.
             if self.intercept:
@@ -165,7 +167,9 @@ class LogLoss:
         def _Hs(s):
             ret = np.empty_like(s)
             ret[:n_features] = self.A.T.dot(dX.dot(s[:n_features]))
-            ret[:n_features] += self.alpha * s[:n_features]
+            # the penalty is not averaged over samples, compensate for the
+            # division by n_samples below
+            ret[:n_features] += n_samples * self.alpha * s[:n_features]
 
             # For the fit intercept case.
             if self.intercept:
-- 
2.43.0


From ee4f4e46df298ea89c3d3f61327f3181488679d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:18 +0000
Subject: [PATCH 03/55] fix: projecting a point whose entries already sum to s
 onto the simplex raised AttributeError with numpy >= 2

---
 copt/constraint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copt/constraint.py b/copt/constraint.py
index c6990ac..531ebcc 100644
--- a/copt/constraint.py
+++ b/copt/constraint.py
@@ -219,7 +219,7 @@ def euclidean_proj_simplex(v, s=1.0):
     assert s > 0, "Radius s must be strictly positive (%d <= 0)" % s
     (n,) = v.shape  # will raise ValueError if v is not 1-D
     # check if we are already on the simplex
-    if v.sum() == s and np.alltrue(v >= 0):
+    if v.sum() == s and np.all(v >= 0):
         # best projection: itself!
         return v
     # get the array of cumulative sums of a sorted (decreasing) copy of v
-- 
2.43.0


From 42f6feff4d256f33dd03fcec6f54e96a623fa40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:18 +0000
Subject: [PATCH 04/55] fix: SimplexConstraint.lmo returned a point outside the
 simplex when all entries of u are nonpositive, and did not accept the active
 set that Frank-Wolfe passes

---
 copt/constraint.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/copt/constraint.py b/copt/constraint.py
index 531ebcc..3248dcc 100644
--- a/copt/constraint.py
+++ b/copt/constraint.py
@@ -176,16 +176,14 @@ class SimplexConstraint:
     def prox(self, x, step_size):
         return euclidean_proj_simplex(x, self.s)
 
-    def lmo(self, u, x):
-        """Return v - x, s solving the linear problem
-    max_{||v||_1 <= s, v >= 0} <u, v>
+    def lmo(self, u, x, active_set=None):
+        """Return v - x, v solving the linear problem
+    max_{sum(v) = s, v >= 0} <u, v>
     """
         largest_coordinate = np.argmax(u)
 
         update_direction = -x.copy()
-        update_direction[largest_coordinate] += self.s * np.sign(
-            u[largest_coordinate]
-        )
+        update_direction[largest_coordinate] += self.s
 
         return update_direction, int(largest_coordinate), None, 1
 
-- 
2.43.0


From 6d2c8eb9ae2ae8ad8500d976a30d960954832b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:18 +0000
Subject: [PATCH 05/55] fix: HuberLoss.f_grad failed on sparse formats that
 cannot be row-indexed (coo, dia, bsr)

---
 copt/loss.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/copt/loss.py b/copt/loss.py
index 1af0787..0cf8ab9 100644
--- a/copt/loss.py
+++ b/copt/loss.py
@@ -291,9 +291,9 @@ class HuberLoss:
         )
         if not return_gradient:
             return loss
-        grad = self.A[idx].T.dot(z[idx]) / self.A.shape[0] + self.alpha * x.T
-        grad = np.asarray(grad)
-        grad += self.A[~idx].T.dot(self.delta * np.sign(z[~idx])) / self.A.shape[0]
+        # derivative of the Huber function: z clipped to [-delta, delta]
+        z_clip = np.clip(z, -self.delta, self.delta)
+        grad = safe_sparse_add(self.A.T.dot(z_clip) / self.A.shape[0], self.alpha * x.T)
         return loss, np.asarray(grad).ravel()
 
     @property
-- 
2.43.0


From b473e1d6b24c8185b100cfa521678b51ced8912a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:18 +0000
Subject: [PATCH 06/55] fix: safe_sparse_add broadcast a sparse column plus a
 dense vector to a matrix instead of flattening it

---
 copt/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copt/utils.py b/copt/utils.py
index 7f6be72..e4acd6d 100644
--- a/copt/utils.py
+++ b/copt/utils.py
@@ -67,7 +67,7 @@ def safe_sparse_add(a, b):
         if sparse.issparse(a):
             a = a.toarray()
             if a.ndim == 2 and b.ndim == 1:
-                b.ravel()
+                a = a.ravel()
         elif sparse.issparse(b):
             b = b.toarray()
             if b.ndim == 2 and a.ndim == 1:
-- 
2.43.0


From 308e71f44bf4fe19f89d6302d000547aa86e3573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:54 +0000
Subject: [PATCH 07/55] fix: jac="2-point", False and None did not estimate the
 gradient but failed

---
 copt/utils.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/copt/utils.py b/copt/utils.py
index e4acd6d..993ef98 100644
--- a/copt/utils.py
+++ b/copt/utils.py
@@ -34,19 +34,25 @@ except ImportError:
 
 def build_func_grad(jac, fun, args, eps):
     if not callable(jac):
-        if bool(jac):
+        if isinstance(jac, str):
+            if jac != "2-point":
+                raise NotImplementedError("jac has unexpected value.")
+            jac = None
+        elif jac:
             fun = optimize._optimize.MemoizeJac(fun)
             jac = fun.derivative
-        elif jac == "2-point":
-            jac = None
         else:
-            raise NotImplementedError("jac has unexpected value.")
+            jac = None
 
     if jac is None:
 
         def func_and_grad(x):
             f = fun(x, *args)
-            g = optimize._approx_fprime_helper(x, fun, eps, args=args, f0=f)
+            if isinstance(f, tuple):
+                # jac was left to its default value, but fun already returns
+                # the gradient along with the objective: nothing to estimate
+                return f
+            return f, optimize.approx_fprime(x, fun, eps, *args)
 
     else:
 
-- 
2.43.0


From 34ac3041ee6f9df3645a597ac1e822c9f1087c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:10 +0000
Subject: [PATCH 08/55] fix: proximal gradient truncated every iterate to
 integers when x0 had an integer dtype, and failed on sequences

---
 copt/proximal_gradient.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/copt/proximal_gradient.py b/copt/proximal_gradient.py
index b7acfc3..77bd260 100644
--- a/copt/proximal_gradient.py
+++ b/copt/proximal_gradient.py
@@ -109,7 +109,8 @@ def minimize_proximal_gradient(
   Examples:
     * :ref:`sphx_glr_auto_examples_plot_group_lasso.py`
   """
-    x = np.asarray(x0).flatten()
+    x0 = np.asarray(x0, dtype=float)
+    x = x0.flatten()
     if max_iter_backtracking <= 0:
         raise ValueError("Line search iterations need to be greater than 0")
 
-- 
2.43.0


From d274257e4a86ff4e620d3fafe946ab02cfbb7759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:10 +0000
Subject: [PATCH 09/55] fix: primal-dual truncated every iterate to integers
 when x0 had an integer dtype; three-operator splitting failed on sequences

---
 copt/splitting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/copt/splitting.py b/copt/splitting.py
index c8ca10a..1cc0cf6 100644
--- a/copt/splitting.py
+++ b/copt/splitting.py
@@ -100,6 +100,7 @@ def minimize_three_split(
       International Conference on Machine Learning, 2018.
     """
     success = False
+    x0 = np.asarray(x0, dtype=float)
     if not max_iter_backtracking > 0:
         raise ValueError("Line search iterations need to be greater than 0")
 
@@ -249,7 +250,7 @@ def minimize_primal_dual(
         involving Lipschitzian, proximable and linear composite terms." Journal of
         Optimization Theory and Applications (2013).
     """
-    x = np.array(x0, copy=True)
+    x = np.array(x0, dtype=float)
     n_features = x.size
 
     if L is None:
-- 
2.43.0


From fc053db9a3896dab6a2d60f77275a3e795537bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:10 +0000
Subject: [PATCH 10/55] fix: SAGA, SVRG and VRTOS truncated iterates to
 integers for integer x0; VRTOS overwrote the caller's x0 and did not expose x
 to callbacks

---
 copt/randomized.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/copt/randomized.py b/copt/randomized.py
index 21f7981..37018e5 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -130,7 +130,7 @@ def minimize_saga(
     # convert any input to CSR sparse matrix representation. In the future we
     # might want to implement also a version for dense data (numpy arrays) to
     # better exploit data locality
-    x = np.ascontiguousarray(x0).copy()
+    x = np.array(x0, dtype=float)
     n_samples, n_features = A.shape
     A = sparse.csr_matrix(A)
 
@@ -305,7 +305,7 @@ def minimize_svrg(
       for Composite Optimization." Advances in Neural Information
       Processing Systems (NIPS) 2017.
     """
-    x = np.ascontiguousarray(x0).copy()
+    x = np.array(x0, dtype=float)
     n_samples, n_features = A.shape
     A = sparse.csr_matrix(A)
 
@@ -494,8 +494,11 @@ def minimize_vrtos(
     else:
         blocks_2 = sparse.eye(n_features, n_features, format="csr")
 
+    # private copy: x0 is used below as one of the iterates
+    x0 = np.array(x0, dtype=float)
     Y = np.zeros((2, x0.size))
     z = x0.copy()
+    x = z  # same name of the iterate as in the other solvers, for callbacks
 
     assert A.shape[0] == b.size
 
-- 
2.43.0


From 6d95a08b577aafd139e14b59b80f639afbac76ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:10 +0000
Subject: [PATCH 11/55] fix: VRTOS indexed past the end of the block weights
 when the last columns of A are empty

---
 copt/randomized.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/copt/randomized.py b/copt/randomized.py
index 37018e5..0fe776c 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -582,13 +582,17 @@ def _factory_sparse_vrtos(
     bs_1_data, bs_1_indices, bs_1_indptr = _support_matrix(
         A_indices, A_indptr, rblocks_1_indices, blocks_1.shape[0]
     )
-    csr_blocks_1 = sparse.csr_matrix((bs_1_data, bs_1_indices, bs_1_indptr))
+    csr_blocks_1 = sparse.csr_matrix(
+        (bs_1_data, bs_1_indices, bs_1_indptr), shape=(n_samples, blocks_1.shape[0])
+    )
 
     rblocks_2_indices = blocks_2.T.tocsr().indices
     bs_2_data, bs_2_indices, bs_2_indptr = _support_matrix(
         A_indices, A_indptr, rblocks_2_indices, blocks_2.shape[0]
     )
-    csr_blocks_2 = sparse.csr_matrix((bs_2_data, bs_2_indices, bs_2_indptr))
+    csr_blocks_2 = sparse.csr_matrix(
+        (bs_2_data, bs_2_indices, bs_2_indptr), shape=(n_samples, blocks_2.shape[0])
+    )
 
     # .. diagonal reweighting ..
     d1 = np.array(csr_blocks_1.sum(0), dtype=float).ravel()
-- 
2.43.0


From e58ebc167489a1fcc84f01f8f0eb27aab9b5ce87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:10 +0000
Subject: [PATCH 12/55] fix: accelerated proximal gradient measured the
 gradient mapping between two different iterates and could stop far from the
 solution

---
 copt/proximal_gradient.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copt/proximal_gradient.py b/copt/proximal_gradient.py
index 77bd260..5bb9cb4 100644
--- a/copt/proximal_gradient.py
+++ b/copt/proximal_gradient.py
@@ -221,7 +221,7 @@ def minimize_proximal_gradient(
                     x_next - current_step_size * func_and_grad(x_next)[1],
                     current_step_size,
                 )
-                certificate = np.linalg.norm((x - x_prox) / current_step_size)
+                certificate = np.linalg.norm((x_next - x_prox) / current_step_size)
                 tk = t_next
                 x = x_next.copy()
 
@@ -252,7 +252,7 @@ def minimize_proximal_gradient(
                     x_next - current_step_size * func_and_grad(x_next)[1],
                     current_step_size,
                 )
-                certificate = np.linalg.norm((x - x_prox) / current_step_size)
+                certificate = np.linalg.norm((x_next - x_prox) / current_step_size)
                 if trace_certificate:
                     certificate_list.append(certificate)
                 tk = t_next
-- 
2.43.0


From 883f4563d35880132e25170374f2e79c311c3a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:10 +0000
Subject: [PATCH 13/55] fix: accelerated proximal gradient silently ignored an
 unknown step-size strategy and returned x0

---
 copt/proximal_gradient.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/copt/proximal_gradient.py b/copt/proximal_gradient.py
index 5bb9cb4..6ff01b8 100644
--- a/copt/proximal_gradient.py
+++ b/copt/proximal_gradient.py
@@ -257,6 +257,8 @@ def minimize_proximal_gradient(
                     certificate_list.append(certificate)
                 tk = t_next
                 x = x_next.copy()
+            else:
+                raise ValueError("Step-size strategy not understood")
 
             if certificate < tol:
                 success = True
-- 
2.43.0


From 74df3f6bb3120562dd649748c9f7e21ab58065a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:10 +0000
Subject: [PATCH 14/55] fix: primal-dual line search compared against the
 increment of L x instead of that of x and diverged for operators of norm
 above one

---
 copt/splitting.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/copt/splitting.py b/copt/splitting.py
index 1cc0cf6..affa3b1 100644
--- a/copt/splitting.py
+++ b/copt/splitting.py
@@ -301,12 +301,13 @@ def minimize_primal_dual(
                 sigma = ss_ratio * tau_next
                 y_bar = y_next + theta * (y_next - y)
                 x_next = prox_1(x - sigma * (L.rmatvec(y_bar) + grad_fk), sigma)
-                incr_x = np.linalg.norm(L.matvec(x_next) - L.matvec(x))
+                incr_x = np.linalg.norm(x_next - x)
+                incr_Lx = np.linalg.norm(L.matvec(x_next) - L.matvec(x))
                 f_next, f_grad_next = f_grad(x_next)
                 if incr_x <= 1e-10:
                     break
 
-                tmp = (sigma * tau_next) * (incr_x ** 2)
+                tmp = (sigma * tau_next) * (incr_Lx ** 2)
                 tmp += 2 * sigma * (f_next - fk - grad_fk.dot(x_next - x))
                 if tmp / delta <= (incr_x ** 2):
                     tau = tau_next
-- 
2.43.0


From 934c29e84e5a59d81f50f202b41e5569360a3314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:37 +0000
Subject: [PATCH 15/55] fix: stochastic Frank-Wolfe failed on the documented
 callable step sizes, and accepted unknown ones up to the first iteration

---
 copt/randomized.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/copt/randomized.py b/copt/randomized.py
index 0fe776c..82fe1bb 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -864,7 +864,10 @@ From Convex Minimization to Submodular Maximization" <https://arxiv.org/abs/1804
         if lipschitz is None:
             raise ValueError('lipschitz needs to be specified with step_size="DR"')
         step_size_fun = step_size_DR
-
+    elif callable(step_size):
+        step_size_fun = step_size
+    else:
+        raise ValueError(f"Invalid option step_size={step_size}")
 
     if lmo_variant == 'vanilla':
         active_set = None
-- 
2.43.0


From 6bf0bb76b055054d0911484f5f7df04d216c62b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:38 +0000
Subject: [PATCH 16/55] fix: stochastic Frank-Wolfe with DR step size left the
 averaging step of MHK and LF undefined

---
 copt/randomized.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/copt/randomized.py b/copt/randomized.py
index 82fe1bb..5bfcc9a 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -894,6 +894,9 @@ From Convex Minimization to Submodular Maximization" <https://arxiv.org/abs/1804
             x_prev = x.copy()
             if step_size != 'DR':
                 step_size_x, step_size_agg = step_size_fun(locals())
+            else:
+                # DR only sets the step size on x, average as usual
+                _, step_size_agg = step_size_sfw(variant)(locals())
             dual_var_prev = dual_var[batch_idx].copy()
 
             if variant in {'SAG', 'SAGA'}:
-- 
2.43.0


From d73e75244115a1e811ee464196f42c73fe5afb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:38 +0000
Subject: [PATCH 17/55] fix: load_img1 swapped the number of rows and of
 columns

---
 copt/datasets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copt/datasets.py b/copt/datasets.py
index 806492a..3223766 100755
--- a/copt/datasets.py
+++ b/copt/datasets.py
@@ -29,7 +29,7 @@ def load_img1(n_rows=20, n_cols=20):
     grid = np.loadtxt(os.path.join(dir_path, "data", "img1.csv"), delimiter=",")
     dim1 = int(np.sqrt(grid.shape[0]))
     grid = grid.reshape((dim1, dim1))
-    img = Image.fromarray(grid).resize((n_rows, n_cols))
+    img = Image.fromarray(grid).resize((n_cols, n_rows))
     return np.array(img)
 
 
-- 
2.43.0


From 3c369ac8fbd24afb084371bc1feaba5578e9d4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:38 +0000
Subject: [PATCH 18/55] fix: load_url and load_kdd12 used np.int, removed from
 numpy

---
 copt/datasets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copt/datasets.py b/copt/datasets.py
index 3223766..092b92f 100755
--- a/copt/datasets.py
+++ b/copt/datasets.py
@@ -242,7 +242,7 @@ def load_url(md5_check=True):
     X_indptr = np.load(data_indptr)
     X = sparse.csr_matrix((X_data, X_indices, X_indptr))
     y = np.load(data_target)
-    y = ((y + 1) // 2).astype(np.int)
+    y = ((y + 1) // 2).astype(int)
     return X, y
 
 
@@ -404,7 +404,7 @@ def load_kdd12(md5_check=True, verbose=0):
     X_indptr = np.load(data_indptr)
     X = sparse.csr_matrix((X_data, X_indices, X_indptr))
     y = np.load(data_target)
-    y = ((y + 1) // 2).astype(np.int)
+    y = ((y + 1) // 2).astype(int)
     return X, y
 
 
-- 
2.43.0


From ed5f6560ee978838c54cf0f9dba8a054b2d5309d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:38 +0000
Subject: [PATCH 19/55] fix: load_kdd12 fell back to the URL dataset when the
 checksum did not match

---
 copt/datasets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copt/datasets.py b/copt/datasets.py
index 092b92f..99016bd 100755
--- a/copt/datasets.py
+++ b/copt/datasets.py
@@ -389,7 +389,7 @@ def load_kdd12(md5_check=True, verbose=0):
                 print("MD5 hash do not coincide")
                 print("Removing file and re-downloading")
                 os.remove(file_path)
-                return load_url()
+                return load_kdd12()
         zipfile = bz2.BZ2File(file_path)
         data = zipfile.read()
         newfilepath = file_path[:-4]
-- 
2.43.0


From ef1efd29f216f2719581d9cafdb6fc6249578b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:17 +0000
Subject: [PATCH 20/55] fix: a dataset whose download failed could not be
 downloaded again because its folder already existed

---
 copt/datasets.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/copt/datasets.py b/copt/datasets.py
index 99016bd..c7f6f30 100755
--- a/copt/datasets.py
+++ b/copt/datasets.py
@@ -54,7 +54,8 @@ def _load_dataset(name, subset, data_dir):
     if not np.all(
         [file_exists(os.path.join(dataset_dir, fname)) for fname in files_train]
     ):
-        makedirs(dataset_dir)
+        if not file_exists(dataset_dir):
+            makedirs(dataset_dir)
         print(
             "%s dataset is not present in the folder %s. Downloading it ..."
             % (name, dataset_dir)
-- 
2.43.0


From b7978057a88a40aeb7c2dc6a608294cee91333e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:17 +0000
Subject: [PATCH 21/55] fix: an interrupted extraction left truncated or
 missing dataset files that were then taken for a complete download

---
 copt/datasets.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/copt/datasets.py b/copt/datasets.py
index c7f6f30..553d338 100755
--- a/copt/datasets.py
+++ b/copt/datasets.py
@@ -40,10 +40,12 @@ def _load_dataset(name, subset, data_dir):
         file_exists = gfile.exists
         makedirs = gfile.makedirs
         file_loader = gfile.GFile
+        rename = lambda src, dst: gfile.rename(src, dst, overwrite=True)
     else:
         file_exists = os.path.exists
         makedirs = os.makedirs
         file_loader = open
+        rename = os.replace
     dataset_dir = os.path.join(data_dir, name)
     files_train = (
         "X_train.data.npy",
@@ -51,8 +53,15 @@ def _load_dataset(name, subset, data_dir):
         "X_train.indptr.npy",
         "y_train.npy",
     )
+    files_test = (
+        "X_test.data.npy",
+        "X_test.indices.npy",
+        "X_test.indptr.npy",
+        "y_test.npy",
+    )
+    files_needed = files_train if subset == "train" else files_train + files_test
     if not np.all(
-        [file_exists(os.path.join(dataset_dir, fname)) for fname in files_train]
+        [file_exists(os.path.join(dataset_dir, fname)) for fname in files_needed]
     ):
         if not file_exists(dataset_dir):
             makedirs(dataset_dir)
@@ -70,8 +79,11 @@ def _load_dataset(name, subset, data_dir):
             if f_orig is None:
                 continue
 
-            print("Extracting data to %s" % os.path.join(data_dir, member.name))
-            f_dest = file_loader(os.path.join(data_dir, member.name), "wb")
+            dest = os.path.join(data_dir, member.name)
+            print("Extracting data to %s" % dest)
+            # only give the file its final name once it is complete, so that
+            # an interrupted extraction is not mistaken for a cached dataset
+            f_dest = file_loader(dest + ".part", "wb")
             chunk = 5000
             while True:
                 data = f_orig.read(chunk)
@@ -80,6 +92,7 @@ def _load_dataset(name, subset, data_dir):
                 f_dest.write(data)
             f_dest.close()
             f_orig.close()
+            rename(dest + ".part", dest)
 
     tmp_train = []
     for fname in files_train:
@@ -93,12 +106,7 @@ def _load_dataset(name, subset, data_dir):
         retval = (data_train, target_train)
     else:
         tmp_test = []
-        for fname in (
-            "X_test.data.npy",
-            "X_test.indices.npy",
-            "X_test.indptr.npy",
-            "y_test.npy",
-        ):
+        for fname in files_test:
             with file_loader(os.path.join(dataset_dir, fname), "rb") as f:
                 tmp_test.append(np.load(f))
 
-- 
2.43.0


From 5cfba7a3a04179ef03f4819344a1fda28b38ea60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:17 +0000
Subject: [PATCH 22/55] fix: Lipschitz constants of the losses failed on data
 matrices with a single row or column, or all zeros

---
 copt/loss.py  |  9 ++++-----
 copt/utils.py | 10 ++++++++++
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/copt/loss.py b/copt/loss.py
index 0cf8ab9..10858bd 100644
--- a/copt/loss.py
+++ b/copt/loss.py
@@ -1,9 +1,8 @@
 import numpy as np
 from scipy import sparse, special
-from scipy.sparse import linalg as splinalg
 from sklearn.utils.extmath import safe_sparse_dot
 
-from copt.utils import safe_sparse_add, njit, prange
+from copt.utils import safe_sparse_add, spectral_norm, njit, prange
 
 
 class LogLoss:
@@ -201,7 +200,7 @@ class LogLoss:
 
     @property
     def lipschitz(self):
-        s = splinalg.svds(self.A, k=1, return_singular_vectors=False)[0]
+        s = spectral_norm(self.A)
         return 0.25 * (s * s) / self.A.shape[0] + self.alpha
 
     @property
@@ -255,7 +254,7 @@ class SquareLoss:
 
     @property
     def lipschitz(self):
-        s = splinalg.svds(self.A, k=1, return_singular_vectors=False)[0]
+        s = spectral_norm(self.A)
         return (s * s) / self.A.shape[0] + self.alpha
 
     @property
@@ -298,5 +297,5 @@ class HuberLoss:
 
     @property
     def lipschitz(self):
-        s = splinalg.svds(self.A, k=1, return_singular_vectors=False)[0]
+        s = spectral_norm(self.A)
         return (s * s) / self.A.shape[0] + self.alpha
diff --git a/copt/utils.py b/copt/utils.py
index 993ef98..3c565a5 100644
--- a/copt/utils.py
+++ b/copt/utils.py
@@ -1,5 +1,6 @@
 import numpy as np
 from scipy import sparse
+from scipy.sparse import linalg as splinalg
 from scipy import optimize
 from datetime import datetime
 from sklearn.utils.extmath import safe_sparse_dot
@@ -32,6 +33,15 @@ except ImportError:
     prange = range
 
 
+def spectral_norm(A):
+    """Largest singular value of a (dense or sparse) matrix."""
+    frobenius = splinalg.norm(A) if sparse.issparse(A) else np.linalg.norm(A)
+    if min(A.shape) == 1 or frobenius == 0:
+        # not supported by svds, but rank is at most one
+        return frobenius
+    return splinalg.svds(A, k=1, return_singular_vectors=False)[0]
+
+
 def build_func_grad(jac, fun, args, eps):
     if not callable(jac):
         if isinstance(jac, str):
-- 
2.43.0


From 8e7f1b8f252cca0f13f39de508efd5f26b4bd934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:17 +0000
Subject: [PATCH 23/55] fix: the trace ball LMO failed on matrices with a
 single row or column and on the zero vector

---
 copt/constraint.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/copt/constraint.py b/copt/constraint.py
index 3248dcc..1d58f4a 100644
--- a/copt/constraint.py
+++ b/copt/constraint.py
@@ -319,6 +319,11 @@ class TraceBall:
           max_step_size: 1. for a Frank-Wolfe step.
         """
         u_mat = u.reshape(self.shape)
-        ut, _, vt = splinalg.svds(u_mat, k=1)
+        if min(self.shape) == 1 or not np.any(u_mat):
+            # not supported by svds
+            ut, _, vt = linalg.svd(u_mat, full_matrices=False)
+            ut, vt = ut[:, :1], vt[:1]
+        else:
+            ut, _, vt = splinalg.svds(u_mat, k=1)
         vertex = self.alpha * np.outer(ut, vt).ravel()
         return vertex - x, None, None, 1.
-- 
2.43.0


From a022f34ca93d4315dcde6ece062a6ca68140a161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:17 +0000
Subject: [PATCH 24/55] fix: Frank-Wolfe did not report the documented success
 flag

---
 copt/frank_wolfe.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/copt/frank_wolfe.py b/copt/frank_wolfe.py
index 68dba7f..01a03aa 100644
--- a/copt/frank_wolfe.py
+++ b/copt/frank_wolfe.py
@@ -305,5 +305,6 @@ def minimize_frank_wolfe(
         f_t, grad = f_next, grad_next
     if callback is not None:
         callback(locals())
-    return optimize.OptimizeResult(x=x, nit=it, certificate=certificate,
+    return optimize.OptimizeResult(x=x, success=bool(certificate <= tol), nit=it,
+                                   certificate=certificate,
                                    active_set=active_set)
-- 
2.43.0


From e99dd0bc6f2d94f9643f093a3d92b9a9d9722f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:04 +0000
Subject: [PATCH 25/55] fix: stochastic Frank-Wolfe kept iterating, and could
 move away, after its stopping criterion was met

---
 copt/randomized.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/copt/randomized.py b/copt/randomized.py
index 5bfcc9a..29ca706 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -948,5 +948,8 @@ From Convex Minimization to Submodular Maximization" <https://arxiv.org/abs/1804
             i += batch_size
             step += 1
 
+        if success:
+            break
+
     message = ""
     return optimize.OptimizeResult(x=x, success=success, nit=it, message=message)
-- 
2.43.0


From 1d559f0fe822f9e15533453f781b566c6c40ab04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:20 +0000
Subject: [PATCH 26/55] fix: stochastic Frank-Wolfe with DR step size left the
 constraint set, or gave NaN at a vertex

---
 copt/randomized.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/copt/randomized.py b/copt/randomized.py
index 29ca706..d8f36bb 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -728,6 +728,9 @@ def step_size_sfw(variant):
 
 def step_size_DR(kwargs):
     norm_update_direction = (kwargs['update_direction'] ** 2).sum()
+    if norm_update_direction == 0:
+        # already at the vertex given by the LMO
+        return 0., None
     lipschitz = kwargs['lipschitz']
     return min(kwargs['certificate'] / (norm_update_direction * lipschitz),
                kwargs['max_step_size']), None
@@ -908,7 +911,8 @@ From Convex Minimization to Submodular Maximization" <https://arxiv.org/abs/1804
                 dual_var[batch_idx] += step_size_agg * (f_deriv(p, b[batch_idx]) - dual_var[batch_idx])
 
             elif variant == 'LF':
-                update_direction, fw_vertex_rep, away_vertex_rep, max_step_size = lmo(-grad_agg, x, active_set)
+                grad_est = grad_agg.copy()
+                update_direction, fw_vertex_rep, away_vertex_rep, max_step_size = lmo(-grad_est, x, active_set)
                 extr_point = update_direction + x
                 agg[batch_idx] += step_size_agg * (utils.fast_csr_mv(A_data, A_indptr, A_indices, extr_point,
                                                                      batch_idx)
@@ -921,7 +925,9 @@ From Convex Minimization to Submodular Maximization" <https://arxiv.org/abs/1804
             grad_agg += grad_agg_update
 
             if variant in {'SAG', 'MHK'}:
-                update_direction, fw_vertex_rep, away_vertex_rep, max_step_size = lmo(-grad_agg, x, active_set)
+                # the dual variables of MHK are not divided by n_samples
+                grad_est = grad_agg / n_samples if variant == 'MHK' else grad_agg
+                update_direction, fw_vertex_rep, away_vertex_rep, max_step_size = lmo(-grad_est, x, active_set)
 
             elif variant == 'SAGA':
                 grad_est = utils.safe_sparse_add(grad_agg, (n_samples - 1) * utils.fast_csr_vm(dual_var[batch_idx] - dual_var_prev,
@@ -930,7 +936,9 @@ From Convex Minimization to Submodular Maximization" <https://arxiv.org/abs/1804
                 update_direction, fw_vertex_rep, away_vertex_rep, max_step_size = lmo(-grad_est, x, active_set)
 
             if step_size == 'DR':
-                certificate = utils.safe_sparse_dot(-grad_agg, update_direction)
+                # gap of the gradient estimate that gave update_direction: with
+                # any other one it could be negative and leave the constraint set
+                certificate = utils.safe_sparse_dot(-grad_est, update_direction)
                 step_size_x, _ = step_size_fun(locals())
 
             x += step_size_x * update_direction
-- 
2.43.0


From c826289a960a15a11b01f46325d3589af8a039ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:01 +0000
Subject: [PATCH 27/55] fix: Frank-Wolfe backtracking accepted any step when
 the initial Lipschitz estimate was zero

---
 copt/frank_wolfe.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/copt/frank_wolfe.py b/copt/frank_wolfe.py
index 01a03aa..472d2bf 100644
--- a/copt/frank_wolfe.py
+++ b/copt/frank_wolfe.py
@@ -261,6 +261,10 @@ def minimize_frank_wolfe(
             lipschitz_t = linalg.norm(grad - grad_eps) / (
                 eps * np.sqrt(norm_update_direction)
             )
+            if lipschitz_t == 0:
+                # no curvature along this direction: the line search
+                # multiplies this estimate, so start from a positive one
+                lipschitz_t = EPS
             print("Estimated L_t = %s" % lipschitz_t)
 
         if certificate <= tol:
-- 
2.43.0


From 1428c8b24488a968d583518ca64beaec9667a721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:18 +0000
Subject: [PATCH 28/55] fix: SAGA declared convergence when the proximal
 operator brought x back to the same point between two passes

---
 copt/randomized.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/copt/randomized.py b/copt/randomized.py
index d8f36bb..988c268 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -212,12 +212,16 @@ def minimize_saga(
         callback(locals())
     for it in range(max_iter):
         x_old = x.copy()
+        gradient_average_old = gradient_average.copy()
         np.random.shuffle(idx)
         _saga_epoch(x, idx, memory_gradient, gradient_average, grad_tmp, step_size)
         if callback is not None:
             callback(locals())
 
+        # the proximal operator can bring x back to the same (e.g. sparse) point
+        # long before convergence: the gradient estimate also needs to settle
         diff_norm = np.abs(x - x_old).sum()
+        diff_norm += step_size * np.abs(gradient_average - gradient_average_old).sum()
         if diff_norm < tol:
             success = True
             break
-- 
2.43.0


From 9d355ef8823b3cf994066b8bf8ac63c2793834f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:10 +0000
Subject: [PATCH 29/55] fix: stochastic Frank-Wolfe with DR step size took huge
 negative steps when the gap was negative by rounding

---
 copt/randomized.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/copt/randomized.py b/copt/randomized.py
index 988c268..4403520 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -736,8 +736,10 @@ def step_size_DR(kwargs):
         # already at the vertex given by the LMO
         return 0., None
     lipschitz = kwargs['lipschitz']
-    return min(kwargs['certificate'] / (norm_update_direction * lipschitz),
-               kwargs['max_step_size']), None
+    step_size = min(kwargs['certificate'] / (norm_update_direction * lipschitz),
+                    kwargs['max_step_size'])
+    # close to the vertex given by the LMO the gap can be negative by rounding
+    return max(step_size, 0.), None
 
 
 
-- 
2.43.0


From b14df335a87af3c1cebd77c2d1ac37e3decfa404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:47 +0000
Subject: [PATCH 30/55] fix: accelerated proximal gradient with callable step
 size returned an empty trace_certificate

---
 copt/proximal_gradient.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/copt/proximal_gradient.py b/copt/proximal_gradient.py
index 6ff01b8..4bf3c53 100644
--- a/copt/proximal_gradient.py
+++ b/copt/proximal_gradient.py
@@ -222,6 +222,8 @@ def minimize_proximal_gradient(
                     current_step_size,
                 )
                 certificate = np.linalg.norm((x_next - x_prox) / current_step_size)
+                if trace_certificate:
+                    certificate_list.append(certificate)
                 tk = t_next
                 x = x_next.copy()
 
-- 
2.43.0


From 58ed3c0aacf7ded651aaa55309a63e57cca3f2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:03 +0000
Subject: [PATCH 31/55] fix: stochastic Frank-Wolfe SAGA scaled the correction
 of a batch as that of a single sample

---
 copt/randomized.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copt/randomized.py b/copt/randomized.py
index 4403520..eee6d54 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -936,7 +936,7 @@ From Convex Minimization to Submodular Maximization" <https://arxiv.org/abs/1804
                 update_direction, fw_vertex_rep, away_vertex_rep, max_step_size = lmo(-grad_est, x, active_set)
 
             elif variant == 'SAGA':
-                grad_est = utils.safe_sparse_add(grad_agg, (n_samples - 1) * utils.fast_csr_vm(dual_var[batch_idx] - dual_var_prev,
+                grad_est = utils.safe_sparse_add(grad_agg, (n_samples / len(batch_idx) - 1) * utils.fast_csr_vm(dual_var[batch_idx] - dual_var_prev,
                                                                                                A_data, A_indptr, A_indices,
                                                                                                n_features, batch_idx))
                 update_direction, fw_vertex_rep, away_vertex_rep, max_step_size = lmo(-grad_est, x, active_set)
-- 
2.43.0


From 7aee432af8974ca4f40f529ddd1ccc915e52cd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:22 +0000
Subject: [PATCH 32/55] fix: SAGA, SVRG and VRTOS used a wrong gradient
 estimate for data with repeated entries

---
 copt/randomized.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/copt/randomized.py b/copt/randomized.py
index eee6d54..5dcd742 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -55,6 +55,16 @@ def _support_matrix(A_indices, A_indptr, reverse_blocks_indices, n_blocks):
     return BS_data, BS_indices[:counter_indptr], BS_indptr
 
 
+def _to_csr(A):
+    """CSR version of A where every entry appears only once."""
+    A = sparse.csr_matrix(A)
+    if not A.has_canonical_format:
+        # can share memory with the input
+        A = A.copy()
+        A.sum_duplicates()
+    return A
+
+
 def minimize_saga(
     f_deriv,
     A,
@@ -132,7 +142,7 @@ def minimize_saga(
     # better exploit data locality
     x = np.array(x0, dtype=float)
     n_samples, n_features = A.shape
-    A = sparse.csr_matrix(A)
+    A = _to_csr(A)
 
     if step_size is None:
         # then need to use line search
@@ -311,7 +321,7 @@ def minimize_svrg(
     """
     x = np.array(x0, dtype=float)
     n_samples, n_features = A.shape
-    A = sparse.csr_matrix(A)
+    A = _to_csr(A)
 
     if step_size is None:
         # then need to use line search
@@ -521,7 +531,7 @@ def minimize_vrtos(
         def prox_2(x, i, indices, indptr, d, step_size):
             pass
 
-    A = sparse.csr_matrix(A)
+    A = _to_csr(A)
     epoch_iteration = _factory_sparse_vrtos(
         f_deriv, prox_1, prox_2, blocks_1, blocks_2, A, b, alpha, step_size
     )
-- 
2.43.0


From 64c82fe6fb331d8110817567d7b35f63749f8402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:21 +0000
Subject: [PATCH 33/55] fix: SAGA and SVRG never updated features that do not
 appear in the data, and failed on empty data

---
 copt/randomized.py | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/copt/randomized.py b/copt/randomized.py
index 5dcd742..0cc95b6 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -65,6 +65,24 @@ def _to_csr(A):
     return A
 
 
+def _prox_unused_blocks(x, prox, blocks, unused, alpha, step_size):
+    """Proximal step on blocks of features that do not appear in the data.
+
+    No sample has these blocks in its support, so that only the
+    regularization acts on them. Modifies x in place.
+    """
+    scale = 1.0 / (1.0 + step_size * alpha)
+    x[blocks[unused].indices] *= scale
+    prox(
+        x,
+        0,
+        unused,
+        np.array([0, unused.size]),
+        np.ones(blocks.shape[0]),
+        step_size * scale,
+    )
+
+
 def minimize_saga(
     f_deriv,
     A,
@@ -170,13 +188,16 @@ def minimize_saga(
     bs_data, bs_indices, bs_indptr = _support_matrix(
         A_indices, A_indptr, rblocks_indices, blocks.shape[0]
     )
-    csr_blocks_1 = sparse.csr_matrix((bs_data, bs_indices, bs_indptr))
+    csr_blocks_1 = sparse.csr_matrix(
+        (bs_data, bs_indices, bs_indptr), shape=(n_samples, blocks.shape[0])
+    )
 
     # .. diagonal reweighting ..
     d = np.array(csr_blocks_1.sum(0), dtype=float).ravel()
     idx = d != 0
     d[idx] = n_samples / d[idx]
     d[~idx] = 1
+    unused = np.setdiff1d(np.arange(blocks.shape[0]), bs_indices)
 
     @utils.njit(nogil=True)
     def _saga_epoch(x, idx, memory_gradient, gradient_average, grad_tmp, step_size):
@@ -225,6 +246,10 @@ def minimize_saga(
         gradient_average_old = gradient_average.copy()
         np.random.shuffle(idx)
         _saga_epoch(x, idx, memory_gradient, gradient_average, grad_tmp, step_size)
+        if unused.size > 0:
+            _prox_unused_blocks(
+                x, prox, blocks, unused, alpha, n_samples * step_size
+            )
         if callback is not None:
             callback(locals())
 
@@ -349,13 +374,16 @@ def minimize_svrg(
     bs_data, bs_indices, bs_indptr = _support_matrix(
         A_indices, A_indptr, rblocks_indices, blocks.shape[0]
     )
-    csr_blocks_1 = sparse.csr_matrix((bs_data, bs_indices, bs_indptr))
+    csr_blocks_1 = sparse.csr_matrix(
+        (bs_data, bs_indices, bs_indptr), shape=(n_samples, blocks.shape[0])
+    )
 
     # .. diagonal reweighting ..
     d = np.array(csr_blocks_1.sum(0), dtype=float).ravel()
     idx = d != 0
     d[idx] = n_samples / d[idx]
     d[~idx] = 1
+    unused = np.setdiff1d(np.arange(blocks.shape[0]), bs_indices)
 
     @utils.njit
     def full_grad(x):
@@ -410,6 +438,10 @@ def minimize_svrg(
         gradient_average = full_grad(x_snapshot)
         np.random.shuffle(idx)
         _svrg_epoch(x, x_snapshot, idx, gradient_average, grad_tmp, step_size)
+        if unused.size > 0:
+            _prox_unused_blocks(
+                x, prox, blocks, unused, alpha, n_samples * step_size
+            )
         if callback is not None:
             callback(locals())
 
-- 
2.43.0


From a0f5c40dcec90f8bb752ce835c2040d03dc17a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:33 +0000
Subject: [PATCH 34/55] fix: VRTOS ignored its tolerance and never reported
 success

---
 copt/randomized.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/copt/randomized.py b/copt/randomized.py
index 0cc95b6..00d43bb 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -591,6 +591,8 @@ def minimize_vrtos(
     if callback is not None:
         callback(locals())
     for it in range(max_iter):
+        z_old = z.copy()
+        gradient_average_old = gradient_average.copy()
         epoch_iteration(
             Y,
             x0,
@@ -607,6 +609,14 @@ def minimize_vrtos(
         if callback is not None:
             callback(locals())
 
+        # the proximal operators can agree long before convergence: the iterate
+        # and the gradient estimate also need to settle
+        diff_norm = np.abs(z - z_old).sum()
+        diff_norm += step_size * np.abs(gradient_average - gradient_average_old).sum()
+        if certificate + diff_norm < tol:
+            success = True
+            break
+
     return optimize.OptimizeResult(
         x=z, success=success, nit=it, certificate=certificate
     )
-- 
2.43.0


From 80b8003cded695325b2b439b910b5ef8388e9a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:09 +0000
Subject: [PATCH 35/55] fix: an interrupted or corrupted download left a cached
 file that made every later call of the svmlight datasets fail

---
 copt/datasets.py | 83 +++++++++++++++++++++++++++++-------------------
 1 file changed, 51 insertions(+), 32 deletions(-)

diff --git a/copt/datasets.py b/copt/datasets.py
index 553d338..f278ec1 100755
--- a/copt/datasets.py
+++ b/copt/datasets.py
@@ -33,6 +33,19 @@ def load_img1(n_rows=20, n_cols=20):
     return np.array(img)
 
 
+def _download(url, file_path):
+    """Download url; file_path only exists once the download is complete."""
+    urllib.request.urlretrieve(url, file_path + ".part")
+    os.replace(file_path + ".part", file_path)
+
+
+def _save(file_path, array):
+    """Save array; file_path only exists once it is complete."""
+    with open(file_path + ".part", "wb") as f:
+        np.save(f, array)
+    os.replace(file_path + ".part", file_path)
+
+
 def _load_dataset(name, subset, data_dir):
     """Low level driver to download and return dataset"""
 
@@ -225,11 +238,13 @@ def load_url(md5_check=True):
 
     if not os.path.exists(DATA_DIR):
         os.makedirs(DATA_DIR)
-    if not os.path.exists(file_path):
-        print("URL dataset is not present in data folder. Downloading it ...")
-        url = "https://www.csie.ntu.edu.tw/~cjlin/libsvmtools/datasets/binary/url_combined.bz2"
-        urllib.request.urlretrieve(url, file_path)
-        print("Finished downloading")
+    cached = (file_path, data_path, data_indices, data_indptr, data_target)
+    if not all(os.path.exists(path) for path in cached):
+        if not os.path.exists(file_path):
+            print("URL dataset is not present in data folder. Downloading it ...")
+            url = "https://www.csie.ntu.edu.tw/~cjlin/libsvmtools/datasets/binary/url_combined.bz2"
+            _download(url, file_path)
+            print("Finished downloading")
         if md5_check:
             h = hashlib.md5(open(file_path, "rb").read()).hexdigest()
             if not h == "83673b8f4224c81968af2fb6022ee487":
@@ -242,10 +257,10 @@ def load_url(md5_check=True):
         newfilepath = file_path[:-4]
         open(newfilepath, "wb").write(data)
         X, y = datasets.load_svmlight_file(newfilepath)
-        np.save(data_path, X.data)
-        np.save(data_indices, X.indices)
-        np.save(data_indptr, X.indptr)
-        np.save(data_target, y)
+        _save(data_path, X.data)
+        _save(data_indices, X.indices)
+        _save(data_indptr, X.indptr)
+        _save(data_target, y)
     X_data = np.load(data_path)
     X_indices = np.load(data_indices)
     X_indptr = np.load(data_indptr)
@@ -347,7 +362,7 @@ def load_kdd10(md5_check=True):
     if not os.path.exists(file_path):
         print("KDD10 dataset is not present in data folder. Downloading it ...")
         url = "https://www.csie.ntu.edu.tw/~cjlin/libsvmtools/datasets/binary/kddb.bz2"
-        urllib.request.urlretrieve(url, file_path)
+        _download(url, file_path)
         print("Finished downloading")
     if md5_check:
         h = hashlib.md5(open(file_path, "rb").read()).hexdigest()
@@ -387,11 +402,13 @@ def load_kdd12(md5_check=True, verbose=0):
 
     if not os.path.exists(DATA_DIR):
         os.makedirs(DATA_DIR)
-    if not os.path.exists(file_path):
-        print("KDD12 dataset is not present in data folder. Downloading it ...")
-        url = "https://www.csie.ntu.edu.tw/~cjlin/libsvmtools/datasets/binary/kdd12.bz2"
-        urllib.request.urlretrieve(url, file_path)
-        print("Finished downloading")
+    cached = (file_path, data_path, data_indices, data_indptr, data_target)
+    if not all(os.path.exists(path) for path in cached):
+        if not os.path.exists(file_path):
+            print("KDD12 dataset is not present in data folder. Downloading it ...")
+            url = "https://www.csie.ntu.edu.tw/~cjlin/libsvmtools/datasets/binary/kdd12.bz2"
+            _download(url, file_path)
+            print("Finished downloading")
         if md5_check:
             h = hashlib.md5(open(file_path, "rb").read()).hexdigest()
             if not h == "c6fc57735c3cf687dd182d60a7b51cda":
@@ -404,10 +421,10 @@ def load_kdd12(md5_check=True, verbose=0):
         newfilepath = file_path[:-4]
         open(newfilepath, "wb").write(data)
         X, y = datasets.load_svmlight_file(newfilepath)
-        np.save(data_path, X.data)
-        np.save(data_indices, X.indices)
-        np.save(data_indptr, X.indptr)
-        np.save(data_target, y)
+        _save(data_path, X.data)
+        _save(data_indices, X.indices)
+        _save(data_indptr, X.indptr)
+        _save(data_target, y)
     X_data = np.load(data_path)
     X_indices = np.load(data_indices)
     X_indptr = np.load(data_indptr)
@@ -443,15 +460,12 @@ def load_criteo(md5_check=True):
     data_indices = os.path.join(DATA_DIR, "criteo.kaggle2014.indices.npy")
     data_indptr = os.path.join(DATA_DIR, "criteo.kaggle2014.indptr.npy")
     data_target = os.path.join(DATA_DIR, "criteo.kaggle2014.target.npy")
-    if not os.path.exists(file_path):
-        print("criteo dataset is not present in data folder. Downloading it ...")
-        url = "https://s3-us-west-2.amazonaws.com/criteo-public-svm-data/criteo.kaggle2014.svm.tar.gz"
-        urllib.request.urlretrieve(url, file_path)
-        import tarfile
-
-        tar = tarfile.open(file_path)
-        tar.extractall(DATA_DIR)
-        print("Finished downloading")
+    cached = (file_path, data_path, data_indices, data_indptr, data_target)
+    if not all(os.path.exists(path) for path in cached):
+        if not os.path.exists(file_path):
+            print("criteo dataset is not present in data folder. Downloading it ...")
+            url = "https://s3-us-west-2.amazonaws.com/criteo-public-svm-data/criteo.kaggle2014.svm.tar.gz"
+            _download(url, file_path)
         if md5_check:
             h = hashlib.md5(open(file_path, "rb").read()).hexdigest()
             if h != "d852b491d1b3afa26c1e7b49594ffc3e":
@@ -459,13 +473,18 @@ def load_criteo(md5_check=True):
                 print("Removing file and re-downloading")
                 os.remove(file_path)
                 return load_criteo()
+        import tarfile
+
+        tar = tarfile.open(file_path)
+        tar.extractall(DATA_DIR)
+        print("Finished downloading")
         X, y = datasets.load_svmlight_file(
             os.path.join(DATA_DIR, "criteo.kaggle2014.train.svm")
         )
-        np.save(data_path, X.data)
-        np.save(data_indices, X.indices)
-        np.save(data_indptr, X.indptr)
-        np.save(data_target, y)
+        _save(data_path, X.data)
+        _save(data_indices, X.indices)
+        _save(data_indptr, X.indptr)
+        _save(data_target, y)
         # optionally delete files
     else:
         X_data = np.load(data_path)
-- 
2.43.0


From c7ef8b6849191ca52e2a60ef1cc6369ba83e221d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:40 +0000
Subject: [PATCH 36/55] fix: proximal gradient evaluates the point it accepts
 when the line search runs out of iterations

---
 copt/proximal_gradient.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/copt/proximal_gradient.py b/copt/proximal_gradient.py
index 4bf3c53..a870a54 100644
--- a/copt/proximal_gradient.py
+++ b/copt/proximal_gradient.py
@@ -169,6 +169,8 @@ def minimize_proximal_gradient(
                         x_next = prox(x - step_size * grad_fk, step_size)
                         update_direction = x_next - x
                 else:
+                    # the last trial point has not been evaluated yet
+                    f_next, grad_next = func_and_grad(x_next)
                     warnings.warn("Maxium number of line-search iterations reached")
             elif step == "fixed":
                 x_next = prox(x - step_size * grad_fk, step_size)
-- 
2.43.0


From 41b6600d5458e00f272112ad1ad72f6482b1eae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:21 +0000
Subject: [PATCH 37/55] fix: the line search of the primal-dual method inverted
 the ratio of the given step sizes

---
 copt/splitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copt/splitting.py b/copt/splitting.py
index affa3b1..e6d8e5b 100644
--- a/copt/splitting.py
+++ b/copt/splitting.py
@@ -298,7 +298,7 @@ def minimize_primal_dual(
             tau_next = tau * (1 + np.sqrt(1 + theta)) / 2
             while True:
                 theta = tau_next / tau
-                sigma = ss_ratio * tau_next
+                sigma = tau_next / ss_ratio
                 y_bar = y_next + theta * (y_next - y)
                 x_next = prox_1(x - sigma * (L.rmatvec(y_bar) + grad_fk), sigma)
                 incr_x = np.linalg.norm(x_next - x)
-- 
2.43.0


From 9f9fa55a2fa3d18d005e83e1604517b3876037c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:16 +0000
Subject: [PATCH 38/55] fix: SVRG applied the gradient of earlier samples to
 features of a group which the current sample does not have

---
 copt/randomized.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/copt/randomized.py b/copt/randomized.py
index 00d43bb..b3ed35f 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -428,6 +428,11 @@ def minimize_svrg(
                     x[b_j] -= step_size * (grad_tmp[b_j] + bias_term)
             prox(x, i, bs_indices, bs_indptr, d, step_size)
 
+            # .. reset the gradient of this sample: blocks extend to features ..
+            # .. which the next samples do not have ..
+            for j in range(A_indptr[i], A_indptr[i + 1]):
+                grad_tmp[A_indices[j]] = 0
+
     idx = np.arange(n_samples)
     grad_tmp = np.zeros(n_features)
     success = False
-- 
2.43.0


From 765478ac316f55c2a8be63c71445cdaddb9cfd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:35 +0000
Subject: [PATCH 39/55] fix: projections onto the simplex and the l1 ball
 raised IndexError on points far from the set

---
 copt/constraint.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/copt/constraint.py b/copt/constraint.py
index 1d58f4a..4f79689 100644
--- a/copt/constraint.py
+++ b/copt/constraint.py
@@ -220,6 +220,9 @@ def euclidean_proj_simplex(v, s=1.0):
     if v.sum() == s and np.all(v >= 0):
         # best projection: itself!
         return v
+    # the projection does not change with a common shift of the coordinates.
+    # Without it, the radius is lost to rounding when these are large
+    v = v - v.max()
     # get the array of cumulative sums of a sorted (decreasing) copy of v
     u = np.sort(v)[::-1]
     cssv = np.cumsum(u)
-- 
2.43.0


From 94d3fb1dceef1d6542b03b71810b0f3779bbb40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:53 +0000
Subject: [PATCH 40/55] fix: the line search of the primal-dual method never
 returned when the objective is not a number

---
 copt/splitting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/copt/splitting.py b/copt/splitting.py
index e6d8e5b..705196c 100644
--- a/copt/splitting.py
+++ b/copt/splitting.py
@@ -304,7 +304,8 @@ def minimize_primal_dual(
                 incr_x = np.linalg.norm(x_next - x)
                 incr_Lx = np.linalg.norm(L.matvec(x_next) - L.matvec(x))
                 f_next, f_grad_next = f_grad(x_next)
-                if incr_x <= 1e-10:
+                if not incr_x > 1e-10 or sigma < np.finfo(float).tiny:
+                    # at rest or not a number, or no step is small enough
                     break
 
                 tmp = (sigma * tau_next) * (incr_Lx ** 2)
-- 
2.43.0


From 605c0b0539306272dd0305a6a3b914d939f90fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:21 +0000
Subject: [PATCH 41/55] fix: LogLoss with intercept returned the gradient
 without the value

---
 copt/loss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copt/loss.py b/copt/loss.py
index 10858bd..713cecf 100644
--- a/copt/loss.py
+++ b/copt/loss.py
@@ -91,7 +91,7 @@ class LogLoss:
         grad = np.asarray(grad).ravel()
         grad_c = z0_b.mean()
         if self.intercept:
-            return np.concatenate((grad, [grad_c]))
+            grad = np.concatenate((grad, [grad_c]))
 
         return loss, grad
 
-- 
2.43.0


From bc64fbb3d8fdb11c97f5d0f7220f94590b954fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:21 +0000
Subject: [PATCH 42/55] fix: Hessian-vector products of LogLoss with intercept
 failed on data with a single column

---
 copt/loss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copt/loss.py b/copt/loss.py
index 713cecf..e342ff3 100644
--- a/copt/loss.py
+++ b/copt/loss.py
@@ -119,7 +119,7 @@ class LogLoss:
         if self.intercept:
             # Calculate the double derivative with respect to intercept
             # In the case of sparse matrices this returns a matrix object.
-            dd_intercept = np.squeeze(np.array(dX.sum(axis=0)))
+            dd_intercept = np.asarray(dX.sum(axis=0)).ravel()
 
         def _Hs(s):
             ret = np.empty_like(s)
@@ -161,7 +161,7 @@ class LogLoss:
         if self.intercept:
             # Calculate the double derivative with respect to intercept
             # In the case of sparse matrices this returns a matrix object.
-            dd_intercept = np.squeeze(np.array(dX.sum(axis=0)))
+            dd_intercept = np.asarray(dX.sum(axis=0)).ravel()
 
         def _Hs(s):
             ret = np.empty_like(s)
-- 
2.43.0


From f0e138982a348af437216ac661a37b3883338036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:20 +0000
Subject: [PATCH 43/55] fix: the step of proximal gradient grew to infinity at
 rest, and the iterates became not a number

---
 copt/proximal_gradient.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/copt/proximal_gradient.py b/copt/proximal_gradient.py
index a870a54..1f051c8 100644
--- a/copt/proximal_gradient.py
+++ b/copt/proximal_gradient.py
@@ -152,7 +152,9 @@ def minimize_proximal_gradient(
             elif step == "backtracking":
                 x_next = prox(x - step_size * grad_fk, step_size)
                 update_direction = x_next - x
-                step_size *= 1.1
+                if np.any(update_direction):
+                    # at rest every step is admissible: it would grow to infinity
+                    step_size *= 1.1
                 for _ in range(max_iter_backtracking):
                     f_next, grad_next = func_and_grad(x_next)
                     rhs = (
-- 
2.43.0


From 4cffc9956f84363fd599d72caadc3785483cf433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:18 +0000
Subject: [PATCH 44/55] fix: Lipschitz constants of data with entries stored
 more than once

---
 copt/loss.py       | 16 +++++++++-------
 copt/randomized.py | 16 +++-------------
 copt/utils.py      | 27 ++++++++++++++++++++++++---
 3 files changed, 36 insertions(+), 23 deletions(-)

diff --git a/copt/loss.py b/copt/loss.py
index e342ff3..3e0b819 100644
--- a/copt/loss.py
+++ b/copt/loss.py
@@ -2,7 +2,13 @@ import numpy as np
 from scipy import sparse, special
 from sklearn.utils.extmath import safe_sparse_dot
 
-from copt.utils import safe_sparse_add, spectral_norm, njit, prange
+from copt.utils import (
+    max_squared_row_norm,
+    njit,
+    prange,
+    safe_sparse_add,
+    spectral_norm,
+)
 
 
 class LogLoss:
@@ -205,9 +211,7 @@ class LogLoss:
 
     @property
     def max_lipschitz(self):
-        from sklearn.utils.extmath import row_norms
-
-        max_squared_sum = row_norms(self.A, squared=True).max()
+        max_squared_sum = max_squared_row_norm(self.A)
 
         return 0.25 * max_squared_sum + self.alpha
 
@@ -259,9 +263,7 @@ class SquareLoss:
 
     @property
     def max_lipschitz(self):
-        from sklearn.utils.extmath import row_norms
-
-        max_squared_sum = row_norms(self.A, squared=True).max()
+        max_squared_sum = max_squared_row_norm(self.A)
 
         return max_squared_sum + self.alpha
 
diff --git a/copt/randomized.py b/copt/randomized.py
index b3ed35f..4af4479 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -55,16 +55,6 @@ def _support_matrix(A_indices, A_indptr, reverse_blocks_indices, n_blocks):
     return BS_data, BS_indices[:counter_indptr], BS_indptr
 
 
-def _to_csr(A):
-    """CSR version of A where every entry appears only once."""
-    A = sparse.csr_matrix(A)
-    if not A.has_canonical_format:
-        # can share memory with the input
-        A = A.copy()
-        A.sum_duplicates()
-    return A
-
-
 def _prox_unused_blocks(x, prox, blocks, unused, alpha, step_size):
     """Proximal step on blocks of features that do not appear in the data.
 
@@ -160,7 +150,7 @@ def minimize_saga(
     # better exploit data locality
     x = np.array(x0, dtype=float)
     n_samples, n_features = A.shape
-    A = _to_csr(A)
+    A = utils.to_csr(A)
 
     if step_size is None:
         # then need to use line search
@@ -346,7 +336,7 @@ def minimize_svrg(
     """
     x = np.array(x0, dtype=float)
     n_samples, n_features = A.shape
-    A = _to_csr(A)
+    A = utils.to_csr(A)
 
     if step_size is None:
         # then need to use line search
@@ -568,7 +558,7 @@ def minimize_vrtos(
         def prox_2(x, i, indices, indptr, d, step_size):
             pass
 
-    A = _to_csr(A)
+    A = utils.to_csr(A)
     epoch_iteration = _factory_sparse_vrtos(
         f_deriv, prox_1, prox_2, blocks_1, blocks_2, A, b, alpha, step_size
     )
diff --git a/copt/utils.py b/copt/utils.py
index 3c565a5..6ef5883 100644
--- a/copt/utils.py
+++ b/copt/utils.py
@@ -33,8 +33,31 @@ except ImportError:
     prange = range
 
 
+def to_csr(A):
+    """CSR version of A where every entry appears only once."""
+    A = sparse.csr_matrix(A)
+    if not A.has_canonical_format:
+        # can share memory with the input
+        A = A.copy()
+        A.sum_duplicates()
+    return A
+
+
+def max_squared_row_norm(A):
+    """Largest squared norm of the rows of a (dense or sparse) matrix."""
+    from sklearn.utils.extmath import row_norms
+
+    if sparse.issparse(A):
+        # row_norms ignores that entries stored more than once add up
+        A = to_csr(A)
+    return row_norms(A, squared=True).max()
+
+
 def spectral_norm(A):
     """Largest singular value of a (dense or sparse) matrix."""
+    if sparse.issparse(A):
+        # the norm of scipy sums duplicate entries of its argument in place
+        A = to_csr(A)
     frobenius = splinalg.norm(A) if sparse.issparse(A) else np.linalg.norm(A)
     if min(A.shape) == 1 or frobenius == 0:
         # not supported by svds, but rank is at most one
@@ -209,9 +232,7 @@ def get_max_lipschitz(A, loss, alpha=0):
 
   loss : {"logloss", "square", "huber"}
   """
-    from sklearn.utils.extmath import row_norms
-
-    max_squared_sum = row_norms(A, squared=True).max()
+    max_squared_sum = max_squared_row_norm(A)
 
     if loss == "logloss":
         return 0.25 * max_squared_sum + alpha
-- 
2.43.0


From 9f5a4cd50fbaa908453dfd02ea0178e3f7447921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:18 +0000
Subject: [PATCH 45/55] fix: Lipschitz constants of narrow integer and boolean
 data

---
 copt/utils.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/copt/utils.py b/copt/utils.py
index 6ef5883..310d879 100644
--- a/copt/utils.py
+++ b/copt/utils.py
@@ -50,6 +50,9 @@ def max_squared_row_norm(A):
     if sparse.issparse(A):
         # row_norms ignores that entries stored more than once add up
         A = to_csr(A)
+    if A.dtype.kind in "biu":
+        # squares of narrow types overflow
+        A = A.astype(float)
     return row_norms(A, squared=True).max()
 
 
@@ -58,6 +61,9 @@ def spectral_norm(A):
     if sparse.issparse(A):
         # the norm of scipy sums duplicate entries of its argument in place
         A = to_csr(A)
+    if A.dtype.kind == "b":
+        # not supported by svds
+        A = A.astype(float)
     frobenius = splinalg.norm(A) if sparse.issparse(A) else np.linalg.norm(A)
     if min(A.shape) == 1 or frobenius == 0:
         # not supported by svds, but rank is at most one
-- 
2.43.0


From 9f0cb589da1a41693f31d3b2a3e8aa8ede16162b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:18 +0000
Subject: [PATCH 46/55] fix: fractional results at points given as whole
 numbers

---
 copt/constraint.py | 4 ++--
 copt/loss.py       | 4 ++--
 copt/penalty.py    | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/copt/constraint.py b/copt/constraint.py
index 4f79689..1bbcbce 100644
--- a/copt/constraint.py
+++ b/copt/constraint.py
@@ -119,7 +119,7 @@ class L1Ball:
         largest_coordinate = np.argmax(abs_u)
         sign = np.sign(u[largest_coordinate])
 
-        update_direction = -x.copy()
+        update_direction = -np.asarray(x, dtype=float)
         update_direction[largest_coordinate] += self.alpha * sign
 
         # Only useful for active_set management in pairwise FW
@@ -182,7 +182,7 @@ class SimplexConstraint:
     """
         largest_coordinate = np.argmax(u)
 
-        update_direction = -x.copy()
+        update_direction = -np.asarray(x, dtype=float)
         update_direction[largest_coordinate] += self.s
 
         return update_direction, int(largest_coordinate), None, 1
diff --git a/copt/loss.py b/copt/loss.py
index 3e0b819..d67444d 100644
--- a/copt/loss.py
+++ b/copt/loss.py
@@ -128,7 +128,7 @@ class LogLoss:
             dd_intercept = np.asarray(dX.sum(axis=0)).ravel()
 
         def _Hs(s):
-            ret = np.empty_like(s)
+            ret = np.empty_like(s, dtype=float)
             ret[:n_features] = self.A.T.dot(dX.dot(s[:n_features]))
             # the penalty is not averaged over samples, compensate for the
             # division by n_samples below
@@ -170,7 +170,7 @@ class LogLoss:
             dd_intercept = np.asarray(dX.sum(axis=0)).ravel()
 
         def _Hs(s):
-            ret = np.empty_like(s)
+            ret = np.empty_like(s, dtype=float)
             ret[:n_features] = self.A.T.dot(dX.dot(s[:n_features]))
             # the penalty is not averaged over samples, compensate for the
             # division by n_samples below
diff --git a/copt/penalty.py b/copt/penalty.py
index b9774f3..9b378ae 100644
--- a/copt/penalty.py
+++ b/copt/penalty.py
@@ -79,7 +79,7 @@ class GroupL1:
         return self.alpha * np.sum([np.linalg.norm(x[g]) for g in self.groups])
 
     def prox(self, x, step_size):
-        out = x.copy()
+        out = np.array(x, dtype=float)
         for g in self.groups:
 
             norm = np.linalg.norm(x[g])
-- 
2.43.0


From 113a1a07a427ba7b76f077ad030b3c7e476ac52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:18 +0000
Subject: [PATCH 47/55] fix: first step-size of proximal gradient from a
 starting point that is a matrix

---
 copt/proximal_gradient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copt/proximal_gradient.py b/copt/proximal_gradient.py
index 1f051c8..d3d187f 100644
--- a/copt/proximal_gradient.py
+++ b/copt/proximal_gradient.py
@@ -128,7 +128,7 @@ def minimize_proximal_gradient(
 
     # find initial step-size
     if step == "backtracking":
-        step_size = 1.8 / utils.init_lipschitz(func_and_grad, x0)
+        step_size = 1.8 / utils.init_lipschitz(func_and_grad, x)
     else:
         # to avoid step_size being undefined upon return
         step_size = None
-- 
2.43.0


From 2d1b1bbab794f8463d78ddb44b12cda6a11d916c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:18 +0000
Subject: [PATCH 48/55] fix: shape of the total variation operator of a single
 pixel

---
 copt/tv_prox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copt/tv_prox.py b/copt/tv_prox.py
index 56fff90..1331304 100644
--- a/copt/tv_prox.py
+++ b/copt/tv_prox.py
@@ -253,4 +253,4 @@ def tv2d_linear_operator(n_rows, n_cols):
                 tmp2[i, j] = 1
                 tmp2[i, j + 1] = -1
                 L.append(tmp2.ravel())
-    return np.array(L)
+    return np.array(L).reshape((-1, n_rows * n_cols))
-- 
2.43.0


From 091560e736b15d8b537baaa23e95d50c8d2d58e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:18 +0000
Subject: [PATCH 49/55] fix: three operator splitting handed the caller's
 starting point to prox_2

---
 copt/splitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copt/splitting.py b/copt/splitting.py
index 705196c..8c837e5 100644
--- a/copt/splitting.py
+++ b/copt/splitting.py
@@ -100,7 +100,7 @@ def minimize_three_split(
       International Conference on Machine Learning, 2018.
     """
     success = False
-    x0 = np.asarray(x0, dtype=float)
+    x0 = np.array(x0, dtype=float)
     if not max_iter_backtracking > 0:
         raise ValueError("Line search iterations need to be greater than 0")
 
-- 
2.43.0


From 3f2ef38d62f26c3147aa9984c79fb896dcf727f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:09 +0000
Subject: [PATCH 50/55] fix: primal-dual method with an operator that returns
 its argument

---
 copt/splitting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/copt/splitting.py b/copt/splitting.py
index 8c837e5..72a0e2d 100644
--- a/copt/splitting.py
+++ b/copt/splitting.py
@@ -257,7 +257,8 @@ def minimize_primal_dual(
         L = sparse.eye(n_features, n_features, format="csr")
     L = sparse.linalg.aslinearoperator(L)
 
-    y = L.matvec(x)
+    # copy: an identity operator can return its argument
+    y = np.array(L.matvec(x))
 
     success = False
     if not max_iter_ls > 0:
-- 
2.43.0


From 902ab89916ef588f41b6ae875c7075fb0d255d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:09 +0000
Subject: [PATCH 51/55] fix: losses accepted labels of another shape than one
 per sample

---
 copt/loss.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/copt/loss.py b/copt/loss.py
index d67444d..5116490 100644
--- a/copt/loss.py
+++ b/copt/loss.py
@@ -36,7 +36,7 @@ class LogLoss:
         self.A = A
         if np.max(b) > 1 or np.min(b) < 0:
             raise ValueError("b can only contain values between 0 and 1 ")
-        if not A.shape[0] == b.size:
+        if np.shape(b) != (A.shape[0],):
             raise ValueError("Dimensions of A and b do not coincide")
         self.b = b
         self.alpha = alpha
@@ -230,6 +230,8 @@ class SquareLoss:
     def __init__(self, A, b, alpha=0):
         if A is None:
             A = sparse.eye(b.size, b.size, format="csr")
+        if np.shape(b) != (A.shape[0],):
+            raise ValueError("Dimensions of A and b do not coincide")
         self.b = b
         self.alpha = alpha
         self.A = A
@@ -272,6 +274,8 @@ class HuberLoss:
     """Huber loss"""
 
     def __init__(self, A, b, alpha=0, delta=1):
+        if np.shape(b) != (A.shape[0],):
+            raise ValueError("Dimensions of A and b do not coincide")
         self.delta = delta
         self.A = A
         self.b = b
-- 
2.43.0


From 26c7a86cf1756fa31217c8c09cfd3a3efb002aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:09 +0000
Subject: [PATCH 52/55] fix: constraint sets accepted negative radii

---
 copt/constraint.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/copt/constraint.py b/copt/constraint.py
index 1bbcbce..83d638f 100644
--- a/copt/constraint.py
+++ b/copt/constraint.py
@@ -3,6 +3,12 @@ from numpy import ma as ma
 from scipy import linalg
 from scipy.sparse import linalg as splinalg
 
+
+def _check_radius(radius):
+    if np.any(np.less(radius, 0)):
+        raise ValueError("The radius of a constraint set can not be negative")
+
+
 class LinfBall:
     """L-infinity ball.
     
@@ -13,6 +19,7 @@ class LinfBall:
     p = np.inf
 
     def __init__(self, alpha):
+        _check_radius(alpha)
         self.alpha = alpha
 
     def prox(self, x, step_size=None):
@@ -38,6 +45,7 @@ class L2Ball:
     p = 2
 
     def __init__(self, alpha):
+        _check_radius(alpha)
         self.alpha = alpha
 
     def prox(self, x, step_size=None):
@@ -70,6 +78,7 @@ class L1Ball:
     p = 1
 
     def __init__(self, alpha):
+        _check_radius(alpha)
         self.alpha = alpha
 
     def __call__(self, x):
@@ -171,6 +180,7 @@ class L1Ball:
 
 class SimplexConstraint:
     def __init__(self, s=1):
+        _check_radius(s)
         self.s = s
 
     def prox(self, x, step_size):
@@ -286,6 +296,7 @@ class TraceBall:
     def __init__(self, alpha, shape):
         assert len(shape) == 2
         self.shape = shape
+        _check_radius(alpha)
         self.alpha = alpha
 
     def __call__(self, x):
-- 
2.43.0


From 6827866984aaa2cd091bb3a651aa6fc107fe11cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:09 +0000
Subject: [PATCH 53/55] fix: stochastic solvers accepted labels, starts,
 penalties and batches which do not fit the data

---
 copt/randomized.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/copt/randomized.py b/copt/randomized.py
index 4af4479..1221c69 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -55,6 +55,21 @@ def _support_matrix(A_indices, A_indptr, reverse_blocks_indices, n_blocks):
     return BS_data, BS_indices[:counter_indptr], BS_indptr
 
 
+def _check_dimensions(A, b, x0, *blocks):
+    """Refuse arguments that do not fit together.
+
+    The compiled loops do not check their indices.
+    """
+    n_samples, n_features = A.shape
+    if len(b) != n_samples:
+        raise ValueError("Dimensions of A and b do not coincide")
+    if np.shape(x0) != (n_features,):
+        raise ValueError("Dimensions of A and x0 do not coincide")
+    for block in blocks:
+        if block.shape[1] != n_features:
+            raise ValueError("The number of features of the penalty is not that of A")
+
+
 def _prox_unused_blocks(x, prox, blocks, unused, alpha, step_size):
     """Proximal step on blocks of features that do not appear in the data.
 
@@ -161,6 +176,7 @@ def minimize_saga(
         prox = prox[0]
     else:
         blocks = sparse.eye(n_features, n_features, format="csr")
+    _check_dimensions(A, b, x, blocks)
 
     if prox is None:
 
@@ -347,6 +363,7 @@ def minimize_svrg(
         prox = prox[0]
     else:
         blocks = sparse.eye(n_features, n_features, format="csr")
+    _check_dimensions(A, b, x, blocks)
 
     if prox is None:
 
@@ -541,7 +558,7 @@ def minimize_vrtos(
     z = x0.copy()
     x = z  # same name of the iterate as in the other solvers, for callbacks
 
-    assert A.shape[0] == b.size
+    _check_dimensions(A, b, x0, blocks_1, blocks_2)
 
     if step_size < 0:
         raise ValueError
@@ -895,7 +912,9 @@ From Convex Minimization to Submodular Maximization" <https://arxiv.org/abs/1804
     x = np.reshape(x0, n_features).astype(float)
     x = np.ascontiguousarray(x)
 
-    assert x.shape == (n_features,)
+    _check_dimensions(A, b, x)
+    if not 1 <= batch_size <= n_samples:
+        raise ValueError("batch_size must be between 1 and the number of samples")
 
     A = sparse.csr_matrix(A)
     A_data = A.data
-- 
2.43.0


From e089283568a54ee5b7635d6d76b0a6db90b60af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:42 +0000
Subject: [PATCH 54/55] fix: callbacks that return NumPy's False did not stop
 the run

---
 copt/frank_wolfe.py       | 2 +-
 copt/proximal_gradient.py | 4 ++--
 copt/splitting.py         | 4 ++--
 copt/utils.py             | 5 +++++
 4 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/copt/frank_wolfe.py b/copt/frank_wolfe.py
index 472d2bf..38936a5 100644
--- a/copt/frank_wolfe.py
+++ b/copt/frank_wolfe.py
@@ -299,7 +299,7 @@ def minimize_frank_wolfe(
         else:
             raise ValueError("Invalid option step=%s" % step)
         if callback is not None:
-            if callback(locals()) is False:  # pylint: disable=g-bool-id-comparison
+            if utils.is_false(callback(locals())):
                 break
         x += step_size * update_direction
         if variant == 'pairwise':
diff --git a/copt/proximal_gradient.py b/copt/proximal_gradient.py
index d3d187f..95e744d 100644
--- a/copt/proximal_gradient.py
+++ b/copt/proximal_gradient.py
@@ -141,7 +141,7 @@ def minimize_proximal_gradient(
         fk, grad_fk = func_and_grad(x)
         while True:
             if callback is not None:
-                if callback(locals()) is False:  # pylint: disable=g-bool-id-comparison
+                if utils.is_false(callback(locals())):
                     break
             # .. compute gradient and step size
             if hasattr(step, "__call__"):
@@ -208,7 +208,7 @@ def minimize_proximal_gradient(
         while True:
             grad_fk = func_and_grad(yk)[1]
             if callback is not None:
-                if callback(locals()) is False:  # pylint: disable=g-bool-id-comparison
+                if utils.is_false(callback(locals())):
                     break
 
             # .. compute gradient and step size
diff --git a/copt/splitting.py b/copt/splitting.py
index 72a0e2d..4664428 100644
--- a/copt/splitting.py
+++ b/copt/splitting.py
@@ -160,7 +160,7 @@ def minimize_three_split(
                 step_size = min(tmp, step_size * 1.02)
 
         if callback is not None:
-            if callback(locals()) is False:
+            if utils.is_false(callback(locals())):
                 break
 
         if it > 0 and certificate < tol:
@@ -333,7 +333,7 @@ def minimize_primal_dual(
             break
 
         if callback is not None:
-            if callback(locals()) is False:
+            if utils.is_false(callback(locals())):
                 break
 
     if it >= max_iter:
diff --git a/copt/utils.py b/copt/utils.py
index 310d879..d787433 100644
--- a/copt/utils.py
+++ b/copt/utils.py
@@ -173,6 +173,11 @@ def fast_csr_mv(data, indptr, indices, x, idx):
     return res
 
 
+def is_false(value):
+    """Whether a callback returned False, the one of NumPy included."""
+    return isinstance(value, (bool, np.bool_)) and not value
+
+
 def parse_step_size(step_size):
     if hasattr(step_size, "__len__") and len(step_size) == 2:
         return step_size[0], step_size[1]
-- 
2.43.0


From c2fac95146cbbcda5b897364e33978c96474a802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:42 +0000
Subject: [PATCH 55/55] fix: groups of the group penalty given as tuples or
 iterators

---
 copt/penalty.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/copt/penalty.py b/copt/penalty.py
index 9b378ae..6e275cb 100644
--- a/copt/penalty.py
+++ b/copt/penalty.py
@@ -67,6 +67,8 @@ class GroupL1:
 
     def __init__(self, alpha, groups):
         self.alpha = alpha
+        # a tuple would index several dimensions, and an iterator be exhausted
+        groups = [list(g) for g in groups]
         # groups need to be increasing
         for i, g in enumerate(groups):
             if not np.all(np.diff(g) == 1):
-- 
2.43.0

