From 55497908ba86e6df5ca77a1fe605ddf1c0cb5939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:39 +0000
Subject: [PATCH 01/33] fix: simplex projection of points with sum(v) == s used
 np.alltrue, removed in numpy 2

---
 copt/constraint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copt/constraint.py b/copt/constraint.py
index c6990ac..531ebcc 100644
--- a/copt/constraint.py
+++ b/copt/constraint.py
@@ -219,7 +219,7 @@ def euclidean_proj_simplex(v, s=1.0):
     assert s > 0, "Radius s must be strictly positive (%d <= 0)" % s
     (n,) = v.shape  # will raise ValueError if v is not 1-D
     # check if we are already on the simplex
-    if v.sum() == s and np.alltrue(v >= 0):
+    if v.sum() == s and np.all(v >= 0):
         # best projection: itself!
         return v
     # get the array of cumulative sums of a sorted (decreasing) copy of v
-- 
2.43.0


From e8a766991f25b65dab20036934c5bcca5200c542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:39 +0000
Subject: [PATCH 02/33] fix: SimplexConstraint.lmo left the simplex when max(u)
 <= 0 and did not accept the active_set argument of the solvers

---
 copt/constraint.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/copt/constraint.py b/copt/constraint.py
index 531ebcc..3248dcc 100644
--- a/copt/constraint.py
+++ b/copt/constraint.py
@@ -176,16 +176,14 @@ class SimplexConstraint:
     def prox(self, x, step_size):
         return euclidean_proj_simplex(x, self.s)
 
-    def lmo(self, u, x):
-        """Return v - x, s solving the linear problem
-    max_{||v||_1 <= s, v >= 0} <u, v>
+    def lmo(self, u, x, active_set=None):
+        """Return v - x, v solving the linear problem
+    max_{sum(v) = s, v >= 0} <u, v>
     """
         largest_coordinate = np.argmax(u)
 
         update_direction = -x.copy()
-        update_direction[largest_coordinate] += self.s * np.sign(
-            u[largest_coordinate]
-        )
+        update_direction[largest_coordinate] += self.s
 
         return update_direction, int(largest_coordinate), None, 1
 
-- 
2.43.0


From a7390419547d6520a4b01c6e10a0cf8a46606fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:39 +0000
Subject: [PATCH 03/33] fix: a vertex dropped from the active set was
 re-inserted with weight zero

---
 copt/frank_wolfe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copt/frank_wolfe.py b/copt/frank_wolfe.py
index 510df93..68dba7f 100644
--- a/copt/frank_wolfe.py
+++ b/copt/frank_wolfe.py
@@ -105,7 +105,7 @@ def update_active_set(active_set,
     if active_set[away_vertex_rep] == 0.:
         # drop step: remove vertex from active set
         del active_set[away_vertex_rep]
-    if active_set[away_vertex_rep] < 0.:
+    elif active_set[away_vertex_rep] < 0.:
         raise ValueError(f"The step size used is too large. "
                          f"{step_size: .3f} vs. {max_step_size:.3f}")
 
-- 
2.43.0


From f35d14903a00c170a63f006589cc8398f3e9686c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:39 +0000
Subject: [PATCH 04/33] fix: LogLoss Hessian divided the regularization term by
 n_samples

---
 copt/loss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copt/loss.py b/copt/loss.py
index aa37694..626f333 100644
--- a/copt/loss.py
+++ b/copt/loss.py
@@ -125,7 +125,7 @@ class LogLoss:
         def _Hs(s):
             ret = np.empty_like(s)
             ret[:n_features] = self.A.T.dot(dX.dot(s[:n_features]))
-            ret[:n_features] += self.alpha * s[:n_features]
+            ret[:n_features] += n_samples * self.alpha * s[:n_features]
 
             # For the fit intercept case.
             if self.intercept:
@@ -165,7 +165,7 @@ class LogLoss:
         def _Hs(s):
             ret = np.empty_like(s)
             ret[:n_features] = self.A.T.dot(dX.dot(s[:n_features]))
-            ret[:n_features] += self.alpha * s[:n_features]
+            ret[:n_features] += n_samples * self.alpha * s[:n_features]
 
             # For the fit intercept case.
             if self.intercept:
-- 
2.43.0


From 7a7f60d9d837a30b7cfc858794342e6fbd616121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:39 +0000
Subject: [PATCH 05/33] fix: LogLoss.f_grad did not return the loss when
 fitting an intercept

---
 copt/loss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copt/loss.py b/copt/loss.py
index 626f333..f6990d6 100644
--- a/copt/loss.py
+++ b/copt/loss.py
@@ -92,7 +92,7 @@ class LogLoss:
         grad = np.asarray(grad).ravel()
         grad_c = z0_b.mean()
         if self.intercept:
-            return np.concatenate((grad, [grad_c]))
+            return loss, np.concatenate((grad, [grad_c]))
 
         return loss, grad
 
-- 
2.43.0


From 84049e69fb3a9de9768498111817c84de0a96a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:39 +0000
Subject: [PATCH 06/33] fix: HuberLoss did not accept A=None, unlike the other
 losses

---
 copt/loss.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/copt/loss.py b/copt/loss.py
index f6990d6..248556a 100644
--- a/copt/loss.py
+++ b/copt/loss.py
@@ -267,6 +267,8 @@ class HuberLoss:
     """Huber loss"""
 
     def __init__(self, A, b, alpha=0, delta=1):
+        if A is None:
+            A = sparse.eye(b.size, b.size, format="csr")
         self.delta = delta
         self.A = A
         self.b = b
-- 
2.43.0


From 0484bccf8dbb94df8e88fae4315d8cc88de701d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:39 +0000
Subject: [PATCH 07/33] fix: load_img1 swapped the number of rows and columns

---
 copt/datasets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copt/datasets.py b/copt/datasets.py
index 806492a..3223766 100755
--- a/copt/datasets.py
+++ b/copt/datasets.py
@@ -29,7 +29,7 @@ def load_img1(n_rows=20, n_cols=20):
     grid = np.loadtxt(os.path.join(dir_path, "data", "img1.csv"), delimiter=",")
     dim1 = int(np.sqrt(grid.shape[0]))
     grid = grid.reshape((dim1, dim1))
-    img = Image.fromarray(grid).resize((n_rows, n_cols))
+    img = Image.fromarray(grid).resize((n_cols, n_rows))
     return np.array(img)
 
 
-- 
2.43.0


From 4f5d1ce7c74348ffa411b353d6763095aacb88ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:39 +0000
Subject: [PATCH 08/33] fix: load_kdd12 returned the URL dataset after a
 checksum mismatch

---
 copt/datasets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copt/datasets.py b/copt/datasets.py
index 3223766..d62e439 100755
--- a/copt/datasets.py
+++ b/copt/datasets.py
@@ -389,7 +389,7 @@ def load_kdd12(md5_check=True, verbose=0):
                 print("MD5 hash do not coincide")
                 print("Removing file and re-downloading")
                 os.remove(file_path)
-                return load_url()
+                return load_kdd12()
         zipfile = bz2.BZ2File(file_path)
         data = zipfile.read()
         newfilepath = file_path[:-4]
-- 
2.43.0


From e9d19486dd18c6f611c8674b994b64cd71c3e66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:39 +0000
Subject: [PATCH 09/33] fix: load_url and load_kdd12 used np.int, removed in
 numpy 1.24

---
 copt/datasets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copt/datasets.py b/copt/datasets.py
index d62e439..99016bd 100755
--- a/copt/datasets.py
+++ b/copt/datasets.py
@@ -242,7 +242,7 @@ def load_url(md5_check=True):
     X_indptr = np.load(data_indptr)
     X = sparse.csr_matrix((X_data, X_indices, X_indptr))
     y = np.load(data_target)
-    y = ((y + 1) // 2).astype(np.int)
+    y = ((y + 1) // 2).astype(int)
     return X, y
 
 
@@ -404,7 +404,7 @@ def load_kdd12(md5_check=True, verbose=0):
     X_indptr = np.load(data_indptr)
     X = sparse.csr_matrix((X_data, X_indices, X_indptr))
     y = np.load(data_target)
-    y = ((y + 1) // 2).astype(np.int)
+    y = ((y + 1) // 2).astype(int)
     return X, y
 
 
-- 
2.43.0


From fd2a8197427258455d7c41316c46658cb425e263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:39 +0000
Subject: [PATCH 10/33] fix: dataset download failed forever once its directory
 existed without the files

---
 copt/datasets.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/copt/datasets.py b/copt/datasets.py
index 99016bd..c7f6f30 100755
--- a/copt/datasets.py
+++ b/copt/datasets.py
@@ -54,7 +54,8 @@ def _load_dataset(name, subset, data_dir):
     if not np.all(
         [file_exists(os.path.join(dataset_dir, fname)) for fname in files_train]
     ):
-        makedirs(dataset_dir)
+        if not file_exists(dataset_dir):
+            makedirs(dataset_dir)
         print(
             "%s dataset is not present in the folder %s. Downloading it ..."
             % (name, dataset_dir)
-- 
2.43.0


From 9b10dc6fdf6d65019c52fb23151d1ebfad977c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:39 +0000
Subject: [PATCH 11/33] fix: GroupL1 value and prox failed for groups given as
 tuples

---
 copt/penalty.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copt/penalty.py b/copt/penalty.py
index b9774f3..9bca596 100644
--- a/copt/penalty.py
+++ b/copt/penalty.py
@@ -73,7 +73,7 @@ class GroupL1:
                 raise ValueError("Groups must be contiguous")
             if i > 0 and groups[i - 1][-1] >= g[0]:
                 raise ValueError("Groups must be increasing")
-        self.groups = groups
+        self.groups = [np.asarray(g) for g in groups]
 
     def __call__(self, x):
         return self.alpha * np.sum([np.linalg.norm(x[g]) for g in self.groups])
-- 
2.43.0


From 153c6a9a75d709f77d01704865b4753d6985d197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:43 +0000
Subject: [PATCH 12/33] fix: proximal gradient truncated its iterates when x0
 had an integer dtype

---
 copt/proximal_gradient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copt/proximal_gradient.py b/copt/proximal_gradient.py
index b7acfc3..90db2b6 100644
--- a/copt/proximal_gradient.py
+++ b/copt/proximal_gradient.py
@@ -109,7 +109,7 @@ def minimize_proximal_gradient(
   Examples:
     * :ref:`sphx_glr_auto_examples_plot_group_lasso.py`
   """
-    x = np.asarray(x0).flatten()
+    x = np.asarray(x0, dtype=float).flatten()
     if max_iter_backtracking <= 0:
         raise ValueError("Line search iterations need to be greater than 0")
 
-- 
2.43.0


From a2d8bb45289adbc2edf1905b87eccdd5e8a6d4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:43 +0000
Subject: [PATCH 13/33] fix: primal-dual splitting truncated its iterates when
 x0 had an integer dtype

---
 copt/splitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copt/splitting.py b/copt/splitting.py
index c8ca10a..71aa8d7 100644
--- a/copt/splitting.py
+++ b/copt/splitting.py
@@ -249,7 +249,7 @@ def minimize_primal_dual(
         involving Lipschitzian, proximable and linear composite terms." Journal of
         Optimization Theory and Applications (2013).
     """
-    x = np.array(x0, copy=True)
+    x = np.array(x0, dtype=float, copy=True)
     n_features = x.size
 
     if L is None:
-- 
2.43.0


From a7e7b8af354147c0e56aa055fa725e1ab769ae4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:43 +0000
Subject: [PATCH 14/33] fix: primal-dual splitting overwrote x by y when
 L.matvec returns its argument

---
 copt/splitting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/copt/splitting.py b/copt/splitting.py
index 71aa8d7..54e2d6f 100644
--- a/copt/splitting.py
+++ b/copt/splitting.py
@@ -256,7 +256,8 @@ def minimize_primal_dual(
         L = sparse.eye(n_features, n_features, format="csr")
     L = sparse.linalg.aslinearoperator(L)
 
-    y = L.matvec(x)
+    # copy: a linear operator is free to return its argument
+    y = np.array(L.matvec(x), dtype=float, copy=True)
 
     success = False
     if not max_iter_ls > 0:
-- 
2.43.0


From 9e54f5d774f83d458d076d61f9d2bdd3241a7784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:43 +0000
Subject: [PATCH 15/33] fix: SAGA and SVRG truncated their iterates when x0 had
 an integer dtype

---
 copt/randomized.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copt/randomized.py b/copt/randomized.py
index 21f7981..a3c944a 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -130,7 +130,7 @@ def minimize_saga(
     # convert any input to CSR sparse matrix representation. In the future we
     # might want to implement also a version for dense data (numpy arrays) to
     # better exploit data locality
-    x = np.ascontiguousarray(x0).copy()
+    x = np.ascontiguousarray(x0, dtype=float).copy()
     n_samples, n_features = A.shape
     A = sparse.csr_matrix(A)
 
@@ -305,7 +305,7 @@ def minimize_svrg(
       for Composite Optimization." Advances in Neural Information
       Processing Systems (NIPS) 2017.
     """
-    x = np.ascontiguousarray(x0).copy()
+    x = np.ascontiguousarray(x0, dtype=float).copy()
     n_samples, n_features = A.shape
     A = sparse.csr_matrix(A)
 
-- 
2.43.0


From c59495717318eb52d7576ab0ef683a6a3e84e2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:43 +0000
Subject: [PATCH 16/33] fix: VRTOS modified the caller's x0 in place (and
 truncated iterates for an integer x0)

---
 copt/randomized.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/copt/randomized.py b/copt/randomized.py
index a3c944a..4489ed8 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -494,6 +494,7 @@ def minimize_vrtos(
     else:
         blocks_2 = sparse.eye(n_features, n_features, format="csr")
 
+    x0 = np.array(x0, dtype=float, copy=True)
     Y = np.zeros((2, x0.size))
     z = x0.copy()
 
-- 
2.43.0


From 8d6cb202c4f7972c630cdb659e316a8ca7f64fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:43 +0000
Subject: [PATCH 17/33] fix: VRTOS read block weights out of bounds when the
 last blocks are in no sample's support

---
 copt/randomized.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/copt/randomized.py b/copt/randomized.py
index 4489ed8..b75e244 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -580,13 +580,17 @@ def _factory_sparse_vrtos(
     bs_1_data, bs_1_indices, bs_1_indptr = _support_matrix(
         A_indices, A_indptr, rblocks_1_indices, blocks_1.shape[0]
     )
-    csr_blocks_1 = sparse.csr_matrix((bs_1_data, bs_1_indices, bs_1_indptr))
+    csr_blocks_1 = sparse.csr_matrix(
+        (bs_1_data, bs_1_indices, bs_1_indptr), shape=(n_samples, blocks_1.shape[0])
+    )
 
     rblocks_2_indices = blocks_2.T.tocsr().indices
     bs_2_data, bs_2_indices, bs_2_indptr = _support_matrix(
         A_indices, A_indptr, rblocks_2_indices, blocks_2.shape[0]
     )
-    csr_blocks_2 = sparse.csr_matrix((bs_2_data, bs_2_indices, bs_2_indptr))
+    csr_blocks_2 = sparse.csr_matrix(
+        (bs_2_data, bs_2_indices, bs_2_indptr), shape=(n_samples, blocks_2.shape[0])
+    )
 
     # .. diagonal reweighting ..
     d1 = np.array(csr_blocks_1.sum(0), dtype=float).ravel()
-- 
2.43.0


From 505a88f6e0e3c8971f70077e80ca5cdb82d0dfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:43 +0000
Subject: [PATCH 18/33] fix: SVRG reused gradient entries of previous samples
 for the other features of a block

---
 copt/randomized.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/copt/randomized.py b/copt/randomized.py
index b75e244..6da1c50 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -386,6 +386,10 @@ def minimize_svrg(
                     x[b_j] -= step_size * (grad_tmp[b_j] + bias_term)
             prox(x, i, bs_indices, bs_indptr, d, step_size)
 
+            # .. cleanup ..
+            for j in range(A_indptr[i], A_indptr[i + 1]):
+                grad_tmp[A_indices[j]] = 0
+
     idx = np.arange(n_samples)
     grad_tmp = np.zeros(n_features)
     success = False
-- 
2.43.0


From 2743928c7015b7d538a4a7a9f6eaa947a525ebee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:43 +0000
Subject: [PATCH 19/33] fix: minimize_sfw never used a callable step_size

---
 copt/randomized.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/copt/randomized.py b/copt/randomized.py
index 6da1c50..1a8c5b2 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -866,6 +866,8 @@ From Convex Minimization to Submodular Maximization" <https://arxiv.org/abs/1804
         if lipschitz is None:
             raise ValueError('lipschitz needs to be specified with step_size="DR"')
         step_size_fun = step_size_DR
+    else:
+        step_size_fun = step_size
 
 
     if lmo_variant == 'vanilla':
-- 
2.43.0


From 53b477adadc4301914ff5a591b17122699256edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:43 +0000
Subject: [PATCH 20/33] fix: Demyanov-Rubinov step of minimize_sfw could be
 negative (leaving the constraint set) or NaN

---
 copt/randomized.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/copt/randomized.py b/copt/randomized.py
index 1a8c5b2..2f3e536 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -731,6 +731,9 @@ def step_size_sfw(variant):
 def step_size_DR(kwargs):
     norm_update_direction = (kwargs['update_direction'] ** 2).sum()
     lipschitz = kwargs['lipschitz']
+    # the gap of a stochastic direction can be negative, or 0 / 0
+    if kwargs['certificate'] <= 0:
+        return 0., None
     return min(kwargs['certificate'] / (norm_update_direction * lipschitz),
                kwargs['max_step_size']), None
 
-- 
2.43.0


From ddac52655a375c926dcc76a6513509797a9d0b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:43 +0000
Subject: [PATCH 21/33] fix: proximal gradient tested and reported a step size
 10% larger than the one it had taken

---
 copt/proximal_gradient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copt/proximal_gradient.py b/copt/proximal_gradient.py
index 90db2b6..adce491 100644
--- a/copt/proximal_gradient.py
+++ b/copt/proximal_gradient.py
@@ -149,9 +149,9 @@ def minimize_proximal_gradient(
                 update_direction = x_next - x
                 f_next, grad_next = func_and_grad(x_next)
             elif step == "backtracking":
+                step_size *= 1.1
                 x_next = prox(x - step_size * grad_fk, step_size)
                 update_direction = x_next - x
-                step_size *= 1.1
                 for _ in range(max_iter_backtracking):
                     f_next, grad_next = func_and_grad(x_next)
                     rhs = (
-- 
2.43.0


From e1a632311b722b99be8c7f1b24bbc423a63adfc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:43 +0000
Subject: [PATCH 22/33] fix: certificate of accelerated proximal gradient mixed
 the gradient mapping with the previous iterate

---
 copt/proximal_gradient.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copt/proximal_gradient.py b/copt/proximal_gradient.py
index adce491..4d917e5 100644
--- a/copt/proximal_gradient.py
+++ b/copt/proximal_gradient.py
@@ -220,7 +220,7 @@ def minimize_proximal_gradient(
                     x_next - current_step_size * func_and_grad(x_next)[1],
                     current_step_size,
                 )
-                certificate = np.linalg.norm((x - x_prox) / current_step_size)
+                certificate = np.linalg.norm((x_next - x_prox) / current_step_size)
                 tk = t_next
                 x = x_next.copy()
 
@@ -251,7 +251,7 @@ def minimize_proximal_gradient(
                     x_next - current_step_size * func_and_grad(x_next)[1],
                     current_step_size,
                 )
-                certificate = np.linalg.norm((x - x_prox) / current_step_size)
+                certificate = np.linalg.norm((x_next - x_prox) / current_step_size)
                 if trace_certificate:
                     certificate_list.append(certificate)
                 tk = t_next
-- 
2.43.0


From bc3cd9a56e1c0963ef1adc2de27999921b057f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:43 +0000
Subject: [PATCH 23/33] fix: proximal gradient continued with the gradient of a
 rejected trial point after an exhausted line search

---
 copt/proximal_gradient.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/copt/proximal_gradient.py b/copt/proximal_gradient.py
index 4d917e5..2901ca6 100644
--- a/copt/proximal_gradient.py
+++ b/copt/proximal_gradient.py
@@ -169,6 +169,7 @@ def minimize_proximal_gradient(
                         update_direction = x_next - x
                 else:
                     warnings.warn("Maxium number of line-search iterations reached")
+                    f_next, grad_next = func_and_grad(x_next)
             elif step == "fixed":
                 x_next = prox(x - step_size * grad_fk, step_size)
                 update_direction = x_next - x
-- 
2.43.0


From 181196fd0d8044eba7b3715fe1c5a52cd6b2f387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:44 +0000
Subject: [PATCH 24/33] fix: accelerated proximal gradient silently ignored an
 unknown step-size strategy

---
 copt/proximal_gradient.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/copt/proximal_gradient.py b/copt/proximal_gradient.py
index 2901ca6..f0ae573 100644
--- a/copt/proximal_gradient.py
+++ b/copt/proximal_gradient.py
@@ -257,6 +257,8 @@ def minimize_proximal_gradient(
                     certificate_list.append(certificate)
                 tk = t_next
                 x = x_next.copy()
+            else:
+                raise ValueError("Step-size strategy not understood")
 
             if certificate < tol:
                 success = True
-- 
2.43.0


From 5b542c6bf30da2302eddd20a38650adb4712e5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:44 +0000
Subject: [PATCH 25/33] fix: the documented finite-difference gradient
 (jac=False) was not available

---
 copt/utils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/copt/utils.py b/copt/utils.py
index 7f6be72..5fc3ee2 100644
--- a/copt/utils.py
+++ b/copt/utils.py
@@ -37,16 +37,15 @@ def build_func_grad(jac, fun, args, eps):
         if bool(jac):
             fun = optimize._optimize.MemoizeJac(fun)
             jac = fun.derivative
-        elif jac == "2-point":
-            jac = None
         else:
-            raise NotImplementedError("jac has unexpected value.")
+            jac = None
 
     if jac is None:
 
         def func_and_grad(x):
             f = fun(x, *args)
-            g = optimize._approx_fprime_helper(x, fun, eps, args=args, f0=f)
+            g = optimize.approx_fprime(x, fun, eps, *args)
+            return f, g
 
     else:
 
-- 
2.43.0


From 9e52814a1adea683f85e9e306bb140f1876fcef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:00 +0000
Subject: [PATCH 26/33] fix: primal-dual line search compared ||L dx|| instead
 of ||dx||, so steps ignored the norm of L

---
 copt/splitting.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/copt/splitting.py b/copt/splitting.py
index 54e2d6f..d72d703 100644
--- a/copt/splitting.py
+++ b/copt/splitting.py
@@ -301,12 +301,13 @@ def minimize_primal_dual(
                 sigma = ss_ratio * tau_next
                 y_bar = y_next + theta * (y_next - y)
                 x_next = prox_1(x - sigma * (L.rmatvec(y_bar) + grad_fk), sigma)
-                incr_x = np.linalg.norm(L.matvec(x_next) - L.matvec(x))
+                incr_x = np.linalg.norm(x_next - x)
+                incr_Lx = np.linalg.norm(L.matvec(x_next) - L.matvec(x))
                 f_next, f_grad_next = f_grad(x_next)
                 if incr_x <= 1e-10:
                     break
 
-                tmp = (sigma * tau_next) * (incr_x ** 2)
+                tmp = (sigma * tau_next) * (incr_Lx ** 2)
                 tmp += 2 * sigma * (f_next - fk - grad_fk.dot(x_next - x))
                 if tmp / delta <= (incr_x ** 2):
                     tau = tau_next
-- 
2.43.0


From dcdce58dafc5b06b2d12a54d9145d6c1b16dbca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:10 +0000
Subject: [PATCH 27/33] fix: LogLoss Hessian with intercept failed for a single
 feature

---
 copt/loss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copt/loss.py b/copt/loss.py
index 248556a..9cc42f9 100644
--- a/copt/loss.py
+++ b/copt/loss.py
@@ -120,7 +120,7 @@ class LogLoss:
         if self.intercept:
             # Calculate the double derivative with respect to intercept
             # In the case of sparse matrices this returns a matrix object.
-            dd_intercept = np.squeeze(np.array(dX.sum(axis=0)))
+            dd_intercept = np.array(dX.sum(axis=0)).ravel()
 
         def _Hs(s):
             ret = np.empty_like(s)
@@ -160,7 +160,7 @@ class LogLoss:
         if self.intercept:
             # Calculate the double derivative with respect to intercept
             # In the case of sparse matrices this returns a matrix object.
-            dd_intercept = np.squeeze(np.array(dX.sum(axis=0)))
+            dd_intercept = np.array(dX.sum(axis=0)).ravel()
 
         def _Hs(s):
             ret = np.empty_like(s)
-- 
2.43.0


From 3bf8c7af8085716e4e127a82d2c2f948e8fdf3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:10 +0000
Subject: [PATCH 28/33] fix: HuberLoss gradient failed for sparse formats
 without row indexing (coo, dia, bsr)

---
 copt/loss.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/copt/loss.py b/copt/loss.py
index 9cc42f9..a7df752 100644
--- a/copt/loss.py
+++ b/copt/loss.py
@@ -289,9 +289,9 @@ class HuberLoss:
         )
         if not return_gradient:
             return loss
-        grad = self.A[idx].T.dot(z[idx]) / self.A.shape[0] + self.alpha * x.T
-        grad = np.asarray(grad)
-        grad += self.A[~idx].T.dot(self.delta * np.sign(z[~idx])) / self.A.shape[0]
+        # not every sparse format can be indexed by the mask
+        z[~idx] = self.delta * np.sign(z[~idx])
+        grad = self.A.T.dot(z) / self.A.shape[0] + self.alpha * x.T
         return loss, np.asarray(grad).ravel()
 
     @property
-- 
2.43.0


From e999f615dcb645e5aab7997e9cd1d2a48953ccfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:20 +0000
Subject: [PATCH 29/33] fix: SAGA and SVRG failed for a data matrix without
 non-zero entries

---
 copt/randomized.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/copt/randomized.py b/copt/randomized.py
index 2f3e536..2cfc5a1 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -160,7 +160,9 @@ def minimize_saga(
     bs_data, bs_indices, bs_indptr = _support_matrix(
         A_indices, A_indptr, rblocks_indices, blocks.shape[0]
     )
-    csr_blocks_1 = sparse.csr_matrix((bs_data, bs_indices, bs_indptr))
+    csr_blocks_1 = sparse.csr_matrix(
+        (bs_data, bs_indices, bs_indptr), shape=(n_samples, blocks.shape[0])
+    )
 
     # .. diagonal reweighting ..
     d = np.array(csr_blocks_1.sum(0), dtype=float).ravel()
@@ -335,7 +337,9 @@ def minimize_svrg(
     bs_data, bs_indices, bs_indptr = _support_matrix(
         A_indices, A_indptr, rblocks_indices, blocks.shape[0]
     )
-    csr_blocks_1 = sparse.csr_matrix((bs_data, bs_indices, bs_indptr))
+    csr_blocks_1 = sparse.csr_matrix(
+        (bs_data, bs_indices, bs_indptr), shape=(n_samples, blocks.shape[0])
+    )
 
     # .. diagonal reweighting ..
     d = np.array(csr_blocks_1.sum(0), dtype=float).ravel()
-- 
2.43.0


From bc97e9a35726fa3f9755793b9b2494b3c27f5460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:20 +0000
Subject: [PATCH 30/33] fix: three-operator splitting passed an integer x0 on
 to the proximal operators

---
 copt/splitting.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/copt/splitting.py b/copt/splitting.py
index d72d703..d5537f4 100644
--- a/copt/splitting.py
+++ b/copt/splitting.py
@@ -99,6 +99,7 @@ def minimize_three_split(
       Splitting." <https://arxiv.org/abs/1804.02339>`_ Proceedings of the 35th
       International Conference on Machine Learning, 2018.
     """
+    x0 = np.asarray(x0, dtype=float)
     success = False
     if not max_iter_backtracking > 0:
         raise ValueError("Line search iterations need to be greater than 0")
-- 
2.43.0


From 15013e786dc64d6719cf543be6f477f937fd611c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:44 +0000
Subject: [PATCH 31/33] fix: minimize_sfw started another epoch after its
 stopping criterion was met

---
 copt/randomized.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/copt/randomized.py b/copt/randomized.py
index 2cfc5a1..8bb8cfc 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -952,6 +952,8 @@ From Convex Minimization to Submodular Maximization" <https://arxiv.org/abs/1804
                 break
             i += batch_size
             step += 1
+        if success:
+            break
 
     message = ""
     return optimize.OptimizeResult(x=x, success=success, nit=it, message=message)
-- 
2.43.0


From 0f63de4f99e68a9107d29fcd1b53b36ca7a57874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:38 +0000
Subject: [PATCH 32/33] fix: three-operator splitting got a nan step size from
 h_Lipschitz after an exhausted line search

---
 copt/splitting.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/copt/splitting.py b/copt/splitting.py
index d5537f4..97b150c 100644
--- a/copt/splitting.py
+++ b/copt/splitting.py
@@ -156,7 +156,9 @@ def minimize_three_split(
                 step_size = step_size * 1.02
             else:
                 quot = h_Lipschitz ** 2
-                tmp = np.sqrt(step_size ** 2 + (2 * step_size / quot) * (-ls_tol))
+                # .. ls_tol is positive when the line search was exhausted ..
+                slack = max(-ls_tol, 0.0)
+                tmp = np.sqrt(step_size ** 2 + (2 * step_size / quot) * slack)
                 step_size = min(tmp, step_size * 1.02)
 
         if callback is not None:
-- 
2.43.0


From b7fb35cae4aa777f520f904dbb2d2404326c0371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:38 +0000
Subject: [PATCH 33/33] fix: stochastic solvers lost contributions of repeated
 column indices of a CSR row

---
 copt/randomized.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/copt/randomized.py b/copt/randomized.py
index 8bb8cfc..daa72a7 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -183,7 +183,7 @@ def minimize_saga(
             grad_i = f_deriv(np.array([p]), np.array([b[i]]))[0]
             for j in range(A_indptr[i], A_indptr[i + 1]):
                 j_idx = A_indices[j]
-                grad_tmp[j_idx] = (grad_i - memory_gradient[i]) * A_data[j]
+                grad_tmp[j_idx] += (grad_i - memory_gradient[i]) * A_data[j]
 
             # .. update coefficients ..
             # .. first iterate on blocks ..
@@ -378,7 +378,7 @@ def minimize_svrg(
             old_grad_i = f_deriv(np.array([p_old]), np.array([b[i]]))[0]
             for j in range(A_indptr[i], A_indptr[i + 1]):
                 j_idx = A_indices[j]
-                grad_tmp[j_idx] = (grad_i - old_grad_i) * A_data[j]
+                grad_tmp[j_idx] += (grad_i - old_grad_i) * A_data[j]
 
             # .. update coefficients ..
             # .. first iterate on blocks ..
@@ -635,7 +635,7 @@ def _factory_sparse_vrtos(
             grad_i = f_deriv(np.array([p]), np.array([b[i]]))[0]
             for j in range(A_indptr[i], A_indptr[i + 1]):
                 j_idx = A_indices[j]
-                grad_tmp[j_idx] = (grad_i - memory_gradient[i]) * A_data[j]
+                grad_tmp[j_idx] += (grad_i - memory_gradient[i]) * A_data[j]
 
             # .. x update ..
             for h_j in range(bs_1_indptr[i], bs_1_indptr[i + 1]):
-- 
2.43.0

