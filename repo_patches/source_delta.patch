From 82be34d53bad4de0f752377915d5d661b8731c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:11 +0000
Subject: [PATCH 01/59] fix: keep the relative tolerance when a hyperplane is
 copied

---
 products/ellipy/elltool/core/hyperplane/Hyperplane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/hyperplane/Hyperplane.py b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
index 1c1884a..97e0b5e 100644
--- a/products/ellipy/elltool/core/hyperplane/Hyperplane.py
+++ b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
@@ -91,7 +91,7 @@ class Hyperplane(ABasicEllipsoid):
 
     def _get_single_copy(self):
         normal_vec, shift = self.parameters()
-        return self.__class__(normal_vec, shift, abs_tol=self._abs_tol)
+        return self.__class__(normal_vec, shift, abs_tol=self._abs_tol, rel_tol=self._rel_tol)
 
     @classmethod
     def contains(cls, hyp_arr: Union[Iterable, np.ndarray], x_arr: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 85ea8286b09dfbfebf5882e40678cabdd3de4585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:11 +0000
Subject: [PATCH 02/59] fix: compare all coordinates of the normals in the
 parallelism test

---
 products/ellipy/elltool/core/hyperplane/Hyperplane.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/elltool/core/hyperplane/Hyperplane.py b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
index 97e0b5e..6db5870 100644
--- a/products/ellipy/elltool/core/hyperplane/Hyperplane.py
+++ b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
@@ -210,9 +210,9 @@ class Hyperplane(ABasicEllipsoid):
             if np.array_equal(np.shape(first_hyp_norm_vec), np.shape(sec_hyp_norm_vec)):
                 first_hyp_norm_vec /= np.linalg.norm(first_hyp_norm_vec)
                 sec_hyp_norm_vec /= np.linalg.norm(sec_hyp_norm_vec)
-                if np.max(np.abs(first_hyp_norm_vec - sec_hyp_norm_vec) < first_hyp_abs_tol):
+                if np.max(np.abs(first_hyp_norm_vec - sec_hyp_norm_vec)) < first_hyp_abs_tol:
                     is_pos = True
-                elif np.max(np.abs(first_hyp_norm_vec + sec_hyp_norm_vec) < first_hyp_abs_tol):
+                elif np.max(np.abs(first_hyp_norm_vec + sec_hyp_norm_vec)) < first_hyp_abs_tol:
                     is_pos = True
             return is_pos
 
-- 
2.43.0


From 96f8843063ab338632ce4b5fccf4ac55916623b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:11 +0000
Subject: [PATCH 03/59] fix: test every pair when one parallelism operand is a
 single hyperplane

---
 products/ellipy/elltool/core/hyperplane/Hyperplane.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/products/ellipy/elltool/core/hyperplane/Hyperplane.py b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
index 6db5870..bc6a9ac 100644
--- a/products/ellipy/elltool/core/hyperplane/Hyperplane.py
+++ b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
@@ -221,6 +221,11 @@ class Hyperplane(ABasicEllipsoid):
                 (np.size(sec_hyp_arr) == 1)):
             throw_error('wrongSizes', 'Sizes of hyperplane arrays do not match.')
 
+        if np.size(first_hyp_arr) == 1 and np.size(sec_hyp_arr) != 1:
+            first_hyp_arr = np.full(np.shape(sec_hyp_arr), first_hyp_arr.flat[0], dtype=object)
+        elif np.size(sec_hyp_arr) == 1:
+            sec_hyp_arr = np.full(np.shape(first_hyp_arr), sec_hyp_arr.flat[0], dtype=object)
+
         first_hyp_abs_tol_arr = cls.get_abs_tol(first_hyp_arr, f_prop_fun=None).flatten()
 
         is_pos_arr = np.reshape(np.array([is_sing_parallel(x, y, z)
-- 
2.43.0


From 301de95f4e097d22115a5b664369ac236fe5aaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:11 +0000
Subject: [PATCH 04/59] fix: reject projection bases with negative scalar
 products

---
 products/ellipy/elltool/core/aellipsoid/AEllipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py b/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py
index e3ef30f..deabf4e 100644
--- a/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py
+++ b/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py
@@ -57,7 +57,7 @@ class AEllipsoid(ABasicEllipsoid, ABC):
             sc_prod_mat = basis_mat.T @ basis_mat
             norm_sq_vec = np.diag(sc_prod_mat)
             _, abs_tol = cls.get_abs_tol(ell_arr, lambda z: np.max(z))
-            is_orthogonal_mat = (sc_prod_mat - np.diag(norm_sq_vec)) > abs_tol
+            is_orthogonal_mat = np.abs(sc_prod_mat - np.diag(norm_sq_vec)) > abs_tol
             if np.any(is_orthogonal_mat.flatten()):
                 throw_error('wrongInput', 'basis vectors must be orthogonal')
             # normalize the basis vectors
-- 
2.43.0


From 1ef30d1c55243f7f13c512d7e95b48db75edba7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:11 +0000
Subject: [PATCH 05/59] fix: fill polar arrays element by element

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index bc143aa..2f55dbf 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -579,11 +579,12 @@ class Ellipsoid(AEllipsoid):
     @classmethod
     def polar(cls, ell_arr: Union[Iterable, np.ndarray]) -> np.ndarray:
         cls._check_is_me(ell_arr)
+        ell_arr = np.array(ell_arr)
         if np.any(cls.is_degenerate(ell_arr)):
             throw_error('degenerateEllipsoid', 'The resulting ellipsoid is not bounded')
-        pol_ell_arr = np.empty((1, ell_arr.size), dtype=cls.__class__)
+        pol_ell_arr = np.empty((ell_arr.size,), dtype=object)
         for i_elem in range(ell_arr.size):
-            pol_ell_arr[i_elem] = cls._get_scalar_polar_internal(ell_arr[i_elem], True)
+            pol_ell_arr[i_elem] = cls._get_scalar_polar_internal(ell_arr.flat[i_elem], True)
         return np.reshape(pol_ell_arr, ell_arr.shape)
 
     @classmethod
-- 
2.43.0


From 0b58781eceb7d4415ddd3d9bbdd9567f9771ad3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:11 +0000
Subject: [PATCH 06/59] fix: report an unbounded polar when the origin is not
 inside the ellipsoid

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index 2f55dbf..66fb90a 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -76,6 +76,8 @@ class Ellipsoid(AEllipsoid):
             inv_sh_mat = (inv_sh_mat + inv_sh_mat.T)/2
 
             norm_const = quad_mat(sh_mat, c_vec, 0, 'inv')
+            if norm_const >= 1.0:
+                throw_error('degenerateEllipsoid', 'The resulting ellipsoid is not bounded')
             polar_c_vec = -np.linalg.lstsq(sh_mat, c_vec, -1)[0] / (1.0 - norm_const)
             polar_sh_mat = inv_sh_mat / (1.0 - norm_const) + polar_c_vec * polar_c_vec.T
             polar_obj = self.__class__(polar_c_vec, polar_sh_mat)
-- 
2.43.0


From 0a20e5efeee8232f43af50a42fe09fa91766f786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:11 +0000
Subject: [PATCH 07/59] fix: use the outer product of the center in the
 non-robust polar

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index 66fb90a..066a52f 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -86,7 +86,7 @@ class Ellipsoid(AEllipsoid):
             c_vec, sh_mat = self.double()
             is_zero_in_ell = quad_mat(sh_mat, c_vec, 0, 'invadv')
             if is_zero_in_ell < 1:
-                aux_mat = np.linalg.inv(sh_mat - c_vec @ c_vec.T)
+                aux_mat = np.linalg.inv(sh_mat - np.outer(c_vec, c_vec))
                 aux_mat = (aux_mat + aux_mat.T) / 2
 
                 d_vec, v_mat = np.linalg.eigh(aux_mat)
-- 
2.43.0


From 10df88867feaa639a767a59055bec00c3562d4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:11 +0000
Subject: [PATCH 08/59] fix: pair one-dimensional ellipsoid arrays with
 directions

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index 066a52f..82aef8d 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -611,7 +611,7 @@ class Ellipsoid(AEllipsoid):
         n_dirs = np.prod(dir_size_vec[1:])
         #
         if not (is_one_ell or is_one_dir or n_ell == n_dirs and
-                (ell_size_vec[0] == 1 or ell_size_vec[1] == 1) and
+                (len(ell_size_vec) == 1 or ell_size_vec[0] == 1 or ell_size_vec[1] == 1) and
                 len(dir_size_vec) == 2 or np.all(ell_size_vec == dir_size_vec[1:])):
             throw_error('wrongInput:wrongSizes', 'arguments must be single ellipsoid or single ' +
                         'direction vector or arrays of almost the same sizes')
-- 
2.43.0


From 922a333b9ba0ceac7b534afe69d2a5eb225f84ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:11 +0000
Subject: [PATCH 09/59] fix: apply the absolute tolerance for a single
 direction too

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 2 +-
 products/ellipy/gras/geom/ell/ell.py                | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index 82aef8d..d3a8c98 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -593,7 +593,7 @@ class Ellipsoid(AEllipsoid):
     def rho(cls, ell_arr: Union[Iterable, np.ndarray], dirs_arr: np.ndarray) -> Tuple[np.ndarray, np.ndarray]:
         def f_rho_for_dir(ell_obj, dir_vec: np.ndarray) -> Tuple[np.ndarray, np.ndarray]:
             c_vec, e_mat = ell_obj.double()
-            a_tol = ell_obj.get_abs_tol(ell_obj)
+            _, a_tol = ell_obj.get_abs_tol(ell_obj)
             sup_fun, x_vec = rho_mat(e_mat, dir_vec, a_tol, c_vec.reshape(-1, 1))
             return sup_fun, x_vec
 
diff --git a/products/ellipy/gras/geom/ell/ell.py b/products/ellipy/gras/geom/ell/ell.py
index 35644bd..27978fb 100644
--- a/products/ellipy/gras/geom/ell/ell.py
+++ b/products/ellipy/gras/geom/ell/ell.py
@@ -104,7 +104,7 @@ def rho_mat(ell_shape_mat: np.ndarray, dirs_mat: np.ndarray,
         ell_center_vec = np.zeros((m, 1))
     nd = dirs_mat.shape[1]
     if nd == 1:
-        sq = sqrt_pos(dirs_mat.T @ ell_shape_mat @ dirs_mat)
+        sq = sqrt_pos(dirs_mat.T @ ell_shape_mat @ dirs_mat, abs_tol)
         sup_arr = ell_center_vec.T @ dirs_mat + sq
         bp_mat = (ell_shape_mat @ dirs_mat) / sq
         if np.any(np.isnan(bp_mat)):
-- 
2.43.0


From ae5614d1f2153059632831cff7dc03dcf6cc8686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:11 +0000
Subject: [PATCH 10/59] fix: return only points for 3d boundaries without the
 grid

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index d3a8c98..a97a71f 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -292,7 +292,7 @@ class Ellipsoid(AEllipsoid):
         if return_grid:
             dir_mat, f_mat = sphere_tri_ext(n_dim, n_points, return_grid)
         else:
-            dir_mat = sphere_tri_ext(n_dim, n_points, return_grid)
+            dir_mat, _ = sphere_tri_ext(n_dim, n_points, True)
             f_mat = None
         cen_vec, q_mat = self.double()
         ret_mat = dir_mat @ sqrtm_pos(q_mat, self.get_abs_tol([self], f_prop_fun=None).flat[0])
-- 
2.43.0


From 24e5d74bb1d03c95863c502c27a223df461195e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:11 +0000
Subject: [PATCH 11/59] fix: accept any scalar boundary factor

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index a97a71f..fd88918 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -311,7 +311,7 @@ class Ellipsoid(AEllipsoid):
             throw_error('wrongDim', 'ellipsoid must be of dimension 2 or 3')
         if factor_vec is None:
             factor = 1
-        elif type(factor_vec) is int:
+        elif np.isscalar(factor_vec):
             factor = factor_vec
         else:
             factor = factor_vec[n_dim - 2]
@@ -366,7 +366,7 @@ class Ellipsoid(AEllipsoid):
         n_plot_points = None
         if factor_vec is None:
             factor = 1
-        elif type(factor_vec) is int:
+        elif np.isscalar(factor_vec):
             factor = factor_vec
         else:
             factor = factor_vec[n_dim - 2]
-- 
2.43.0


From 33dd0b90c98cf984c01d6c2cb9935496339541d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:11 +0000
Subject: [PATCH 12/59] fix: accept ellipsoid arrays of any shape in the
 membership test

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index fd88918..d94f341 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -445,6 +445,7 @@ class Ellipsoid(AEllipsoid):
             return is_positive
 
         cls._check_is_me(ell_arr, 'first')
+        ell_arr = np.reshape(np.array(ell_arr), (-1, 1))
         if not is_numeric(mat_of_vec_mat):
             throw_error('wrongInput', 'The second input argument must be a numeric matrix.')
         if ell_arr.size == 0:
-- 
2.43.0


From a98e29971f4f4c5fd88ee6393bbc01f2f7d26290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:11 +0000
Subject: [PATCH 13/59] fix: regularize with orthonormal eigenvectors

---
 products/ellipy/gras/la/la.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/gras/la/la.py b/products/ellipy/gras/la/la.py
index 78c1bad..815569f 100644
--- a/products/ellipy/gras/la/la.py
+++ b/products/ellipy/gras/la/la.py
@@ -214,7 +214,7 @@ def reg_pos_def_mat(inp_mat: np.ndarray, reg_tol: float) -> np.ndarray:
     reg_tol = try_treat_as_real(reg_tol)
     if not(is_mat_symm(inp_mat)):
         throw_error('wrongInput:inp_mat', 'matrix must be symmetric')
-    d_mat, v_mat = np.linalg.eig(inp_mat)
+    d_mat, v_mat = np.linalg.eigh(inp_mat, 'U')
     m_mat = np.diag(np.maximum(0.0, reg_tol-d_mat))
     m_mat = v_mat @ m_mat @ v_mat.T
     regular_mat = inp_mat + m_mat
-- 
2.43.0


From fa9ad0fe4ef179bfb7bfa521f31d5e671b81e1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:11 +0000
Subject: [PATCH 14/59] fix: do not take the root of a negative sine square

---
 products/ellipy/gras/la/la.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/gras/la/la.py b/products/ellipy/gras/la/la.py
index 815569f..43c8bbc 100644
--- a/products/ellipy/gras/la/la.py
+++ b/products/ellipy/gras/la/la.py
@@ -197,7 +197,7 @@ def orth_transl_qr(src_vec: np.ndarray, dst_vec: np.ndarray) -> np.ndarray:
     else:
         q_mat, r_mat = np.linalg.qr(np.hstack((dst_vec, src_vec)))
         cos_val = dst_vec.T @ src_vec / np.sqrt(dst_squared_norm * src_squared_norm)
-        sin_val = -np.sqrt(1 - cos_val * cos_val)
+        sin_val = -np.sqrt(np.maximum(1 - cos_val * cos_val, 0.))
         if r_mat[0, 0] * r_mat[1, 1] < 0.:
             sin_val = -sin_val
 
-- 
2.43.0


From e9204f70a0c84420d71d8e4ca36fefb2d97059e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:11 +0000
Subject: [PATCH 15/59] fix: map opposite one-dimensional vectors in the
 trace-optimal rotation

---
 products/ellipy/gras/la/la.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/gras/la/la.py b/products/ellipy/gras/la/la.py
index 43c8bbc..416a7d3 100644
--- a/products/ellipy/gras/la/la.py
+++ b/products/ellipy/gras/la/la.py
@@ -152,7 +152,7 @@ def orth_transl_max_tr(src_vec: np.ndarray, dst_vec: np.ndarray, max_mat: np.nda
 
     n_dims = src_vec.shape[0]
     if n_dims == 1:
-        return np.ones((1, 1))
+        return np.reshape(np.sign(src_vec) * np.sign(dst_vec), (1, 1))
     else:
         e_vec = np.append(np.ones((1, ), dtype=np.float64), np.zeros((n_dims - 1, ), dtype=np.float64))
         o_src_mat = orth_transl(e_vec, src_vec)
-- 
2.43.0


From e19f5044d79c3d5ec13f4393c08ffb58fee907ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:59 +0000
Subject: [PATCH 16/59] fix: keep the volume array homogeneous for degenerate
 ellipsoids

---
 products/ellipy/elltool/core/aellipsoid/AEllipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py b/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py
index deabf4e..7dd42e4 100644
--- a/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py
+++ b/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py
@@ -138,7 +138,7 @@ class AEllipsoid(ABasicEllipsoid, ABC):
 
         def f_single_volume(ell_obj) -> np.ndarray:
             if cls.is_degenerate(ell_obj):
-                return np.array([0.0])
+                return 0.0
             else:
                 q_mat = ell_obj.get_shape_mat()
                 n_dim = cls.dimension(ell_obj)
-- 
2.43.0


From e66757ada1ddd846ca353b68d703145c8c1e3410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:32 +0000
Subject: [PATCH 17/59] fix: compare lists of different lengths as different

---
 products/ellipy/gen/dict/dict.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/products/ellipy/gen/dict/dict.py b/products/ellipy/gen/dict/dict.py
index 5682870..399a83e 100644
--- a/products/ellipy/gen/dict/dict.py
+++ b/products/ellipy/gen/dict/dict.py
@@ -115,6 +115,9 @@ def dict_compare_vec(dict_x_arr: np.ndarray, dict_y_arr: np.ndarray,
                             return False, comp_report_str
                     else:
                         n_comp_elems = len(x)
+                        if n_comp_elems != len(y):
+                            comp_report_str = 'Different sizes (left: {}, right: {})'.format(n_comp_elems, len(y))
+                            return False, comp_report_str
                         if n_comp_elems == 0:
                             return True, ''
                         is_comp_eq = True
-- 
2.43.0


From b5adba8fc8c1aed6165543641d43e17780a29e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:32 +0000
Subject: [PATCH 18/59] fix: compare boolean dictionary values

---
 products/ellipy/gen/dict/dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/gen/dict/dict.py b/products/ellipy/gen/dict/dict.py
index 399a83e..ac74864 100644
--- a/products/ellipy/gen/dict/dict.py
+++ b/products/ellipy/gen/dict/dict.py
@@ -84,7 +84,7 @@ def dict_compare_vec(dict_x_arr: np.ndarray, dict_y_arr: np.ndarray,
                     if x_shape_vec != y_shape_vec:
                         comp_report_str = 'Different sizes (left: {}, right: {})'.format(x_shape_vec, y_shape_vec)
                         return False, comp_report_str
-                    if x_dtype in 'ui':
+                    if x_dtype in 'uib':
                         x_arr = np.array(x_arr, dtype=np.float)
                         y_arr = np.array(y_arr, dtype=np.float)
                     if x_dtype == 'fc':
-- 
2.43.0


From c29753e96901bb09aa78ccb69dc7f8f4f39ca9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:32 +0000
Subject: [PATCH 19/59] fix: compare empty lists of dictionaries

---
 products/ellipy/gen/dict/dict.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/products/ellipy/gen/dict/dict.py b/products/ellipy/gen/dict/dict.py
index ac74864..f7d38ec 100644
--- a/products/ellipy/gen/dict/dict.py
+++ b/products/ellipy/gen/dict/dict.py
@@ -46,6 +46,8 @@ def dict_compare_vec(dict_x_arr: np.ndarray, dict_y_arr: np.ndarray,
         is_eq = np.array(False)
         report_str = 'sizes are different'
         return is_eq, report_str
+    if dict_x_arr.size == 0:
+        return np.ones(dict_x_arr.shape, dtype=bool), ''
 
     def dict_compare_1d_list(dict_x_list: List[dict], dict_y_list: List[dict],
                              inp_abs_tol: float, inp_rel_tol: float) -> Tuple[List[bool], List[str]]:
-- 
2.43.0


From 76761a24e6c48a219e5d2c41a4a8133176eba418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:32 +0000
Subject: [PATCH 20/59] fix: leave the shape of the vector argument alone

---
 products/ellipy/gras/gen/gen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index 6a29139..583f4d2 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -414,7 +414,7 @@ class SquareMatVector(MatVector):
     @staticmethod
     def lr_multiply_by_vec(inp_b_arr: np.ndarray, inp_a_arr: np.ndarray) -> np.ndarray:
         if inp_a_arr.ndim == 1:
-            inp_a_arr.shape = (inp_a_arr.size, 1)
+            inp_a_arr = np.reshape(inp_a_arr, (inp_a_arr.size, 1))
         a_size_vec = inp_a_arr.shape
         if inp_b_arr.ndim == 2:
             out_vec = np.zeros((1, inp_a_arr.shape[1]))
@@ -429,7 +429,7 @@ class SquareMatVector(MatVector):
     @staticmethod
     def lr_divide_vec(inp_b_arr: np.ndarray, inp_a_arr: np.ndarray) -> np.ndarray:
         if inp_a_arr.ndim == 1:
-            inp_a_arr.shape = (inp_a_arr.size, 1)
+            inp_a_arr = np.reshape(inp_a_arr, (inp_a_arr.size, 1))
         if inp_b_arr.ndim == 2:
             out_vec = inp_a_arr.T @ np.linalg.lstsq(inp_b_arr, inp_a_arr, -1)[0]
         else:
-- 
2.43.0


From f494513bafd5f01aa5f1fcec49df99c002fd10f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:32 +0000
Subject: [PATCH 21/59] fix: factor symmetric pages with transposed
 eigenvectors

---
 products/ellipy/gras/gen/gen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index 583f4d2..c1a81e9 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -455,7 +455,7 @@ class SymmetricMatVector(SquareMatVector):
             ua_array = SquareMatVector.r_multiply(u_array, inp_a_arr)
         else:
             throw_error('wrongInput:flag', 'flag %s is not supported' % flag)
-        out_array = SquareMatVector.lr_multiply(s_array, ua_array, flag)
+        out_array = SquareMatVector.lr_multiply(s_array, ua_array)
         return out_array
 
     @staticmethod
@@ -508,4 +508,4 @@ class SymmetricMatVector(SquareMatVector):
         for t in range(size_vec[2]):
             eig_vec, s_array[:, :, t] = la.eigh(sym_arr[:, :, t])
             u_array[:, :, t] = np.diag(eig_vec)
-        return s_array, u_array
+        return np.transpose(s_array, (1, 0, 2)), u_array
-- 
2.43.0


From f857cb44c487750a8659947be393a7b56441d777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:32 +0000
Subject: [PATCH 22/59] fix: divide by a single symmetric page

---
 products/ellipy/gras/gen/gen.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index c1a81e9..3b7b5af 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -481,7 +481,6 @@ class SymmetricMatVector(SquareMatVector):
     @staticmethod
     def lr_svd_divide_vec(inp_b_arr: np.ndarray, inp_a_arr: np.ndarray) -> np.ndarray:
         u_array, s_array = SymmetricMatVector.__array_svd(inp_b_arr)
-        ua_array = MatVector.r_multiply_by_vec(u_array, inp_a_arr)
         #
         a_size_vec = np.shape(inp_a_arr)
         n_elems = a_size_vec[1]
@@ -489,9 +488,11 @@ class SymmetricMatVector(SquareMatVector):
         n_mat_elems = np.shape(inp_b_arr)
         n_mat_elems = n_mat_elems[2]
         if n_mat_elems == 1:
-            b_inv_mat = np.diag(1 / np.diag(s_array))
+            ua_array = u_array[:, :, 0] @ inp_a_arr
+            b_inv_mat = np.diag(1 / np.diag(s_array[:, :, 0]))
             out_vec = np.sum(((b_inv_mat @ ua_array) * ua_array), axis=0)
         else:
+            ua_array = MatVector.r_multiply_by_vec(u_array, inp_a_arr)
             out_vec = np.zeros(n_elems, dtype=np.float64)
             for i_elem in range(n_elems):
                 b_inv_mat = np.diag(1 / np.diag(s_array[:, :, i_elem]))
-- 
2.43.0


From 8356b36dd706461e48e5379423461ac3edd04462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:32 +0000
Subject: [PATCH 23/59] fix: pseudo-invert a single matrix

---
 products/ellipy/gras/gen/gen.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index 3b7b5af..ce26889 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -93,6 +93,7 @@ class MatVector:
         arr_size = data_arr.shape
         if data_arr.ndim == 2:
             arr_size = (arr_size[0], arr_size[1], 1)
+            data_arr = np.expand_dims(data_arr, 2)
         inv_data_array = np.zeros((arr_size[1], arr_size[0], arr_size[2]), dtype=np.float64)
         for t in range(arr_size[2]):
             inv_data_array[:, :, t] = np.linalg.pinv(data_arr[:, :, t])
-- 
2.43.0


From f8008039e1c7685583c9411de256bb618b1007b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:32 +0000
Subject: [PATCH 24/59] fix: symmetrize a single matrix

---
 products/ellipy/gras/gen/gen.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index ce26889..35f90e3 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -85,6 +85,8 @@ class MatVector:
 
     @staticmethod
     def make_symmetric(data_arr: np.ndarray) -> np.ndarray:
+        if data_arr.ndim == 2:
+            data_arr = np.expand_dims(data_arr, 2)
         ret_arr = 0.5 * (data_arr + MatVector.transpose(data_arr))
         return ret_arr
 
-- 
2.43.0


From 5f034ce1dc481a37392da2d2c4d1972c5a457c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:32 +0000
Subject: [PATCH 25/59] fix: leave pages with nans out of the matrix square
 root

---
 products/ellipy/gras/gen/gen.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index 35f90e3..74615e2 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -329,6 +329,7 @@ class SquareMatVector(MatVector):
             for t in range(size_vec[2]):
                 if np.isnan(data_arr[:, :, t]).any():
                     sqrt_data_array[:, :, t] = np.NaN
+                    continue
                 sqrt_data_array[:, :, t] = sqrtm_pos(np.squeeze(data_arr[:, :, t]))
         return sqrt_data_array
 
-- 
2.43.0


From 294aaea8ad2b662a85f044e1dee7d913d872d28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:32 +0000
Subject: [PATCH 26/59] fix: keep function values of integer pages unrounded

---
 products/ellipy/gras/gen/gen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index 74615e2..bd76100 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -164,7 +164,7 @@ class MatVector:
                 res_array.append(f(data_arr[:, :, i]))
         else:
             if keep_size:
-                res_array = np.copy(data_arr)
+                res_array = np.zeros(data_arr.shape, dtype=np.float64)
                 for i in range(data_size):
                     res_array[:, :, i] = f(data_arr[:, :, i])
             else:
-- 
2.43.0


From 463bf14446af7468a0b196d22a581637313c8bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:32 +0000
Subject: [PATCH 27/59] fix: multiply pages by a scalar or by a single matrix

---
 products/ellipy/gras/gen/gen.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index bd76100..c88c16a 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -284,12 +284,15 @@ class MatVector:
                     res_mat = np.zeros((n_a_rows, n_a_cols, n_time_points), dtype=np.float64)
                 else:
                     res_mat = np.zeros((n_a_rows, n_b_cols, n_time_points), dtype=np.float64)
+                f_mult = np.multiply if is_a_scalar or is_b_scalar else np.matmul
+                if b_arr.ndim < 3:
+                    b_arr = np.expand_dims(b_arr, 2)
                 if b_shape[2] == n_time_points:
                     for i_time_point in range(n_time_points):
-                        res_mat[:, :, i_time_point] = a_arr[:, :, i_time_point] @ b_arr[:, :, i_time_point]
+                        res_mat[:, :, i_time_point] = f_mult(a_arr[:, :, i_time_point], b_arr[:, :, i_time_point])
                 elif b_shape[2] == 1:
                     for i_time_point in range(n_time_points):
-                        res_mat[:, :, i_time_point] = a_arr[:, :, i_time_point] @ b_arr
+                        res_mat[:, :, i_time_point] = f_mult(a_arr[:, :, i_time_point], b_arr[:, :, 0])
                 else:
                     throw_error('wrongInput', 'Incorrect size of b_arr')
             else:
-- 
2.43.0


From 1d277390a84095d76d71158eedb9cf0808503a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:32 +0000
Subject: [PATCH 28/59] fix: build numeric pages for a single time point

---
 products/ellipy/gras/gen/gen.py | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index c88c16a..7623bea 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -189,24 +189,16 @@ class MatVector:
         elif exp_str[-2] != "]":
             exp_str = exp_str + "]"
         t = MatVector.__to_array(t_vec)
-        if len(t) == 1:
-            ret_val = np.array(eval(exp_str))
-            if ret_val.ndim < 2:
-                ret_val = np.expand_dims(ret_val, 1)
-            if ret_val.ndim < 3:
-                ret_val = np.expand_dims(ret_val, 2)
-            return ret_val
-        else:
-            time_len = len(t)
-            ret_val = eval(exp_str)
-            ret_val = [[np.repeat(np.asarray(j), time_len) if type(j) != np.ndarray else j
-                        for j in i]
-                       for i in ret_val]
-            ret_val = np.array(ret_val)
-            ret_shape = ret_val.shape
-            if len(ret_shape) < 3:
-                ret_val = np.expand_dims(ret_val, 0)
-            return ret_val
+        time_len = len(t)
+        ret_val = eval(exp_str)
+        ret_val = [[np.repeat(np.asarray(j), time_len) if type(j) != np.ndarray else j
+                    for j in i]
+                   for i in ret_val]
+        ret_val = np.array(ret_val)
+        ret_shape = ret_val.shape
+        if len(ret_shape) < 3:
+            ret_val = np.expand_dims(ret_val, 0)
+        return ret_val
 
     @staticmethod
     def r_multiply_by_vec(a_arr: np.ndarray, b_mat: np.ndarray, use_sparse_matrix: bool = True) -> np.ndarray:
-- 
2.43.0


From 744976817bf717e23d2ebf43802b7903f89dfcaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:32 +0000
Subject: [PATCH 29/59] fix: compare degenerate ellipsoids by inclusion

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index d94f341..562b19e 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -406,7 +406,7 @@ class Ellipsoid(AEllipsoid):
                 logger.info('           Regularizing...')
             first_shape_mat = self._regularize(first_shape_mat, self._abs_tol)
         _, abs_tol = self.get_abs_tol([self, sec_ell], lambda z: np.min(z))
-        t_mat = ell_sim_diag(first_shape_mat, sec_shape_mat, abs_tol)
+        t_mat = ell_sim_diag(first_shape_mat, sec_shape_mat, 0.5 * abs_tol)
         return np.max(np.abs(np.diag(t_mat @ sec_shape_mat @ t_mat.T))) < (1 + self._abs_tol)
 
     @classmethod
-- 
2.43.0


From fab9c53689b31762a26f6fcc4a75d377c3c1c637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:32 +0000
Subject: [PATCH 30/59] fix: test the symmetry of the second matrix with the
 tolerance

---
 products/ellipy/elltool/core/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/core.py b/products/ellipy/elltool/core/core.py
index 3ce92be..9b5a758 100644
--- a/products/ellipy/elltool/core/core.py
+++ b/products/ellipy/elltool/core/core.py
@@ -14,7 +14,7 @@ def ell_sim_diag(a_mat: np.ndarray, b_mat: np.ndarray, abs_tol: float) -> np.nda
         throw_error('wrongInput', 'both arguments must be numeric matrices')
     if not is_mat_pos_def(a_mat, abs_tol):
         throw_error('wrongInput:a_mat', 'first argument must be a symmetric positive definite matrix')
-    if not is_mat_symm(b_mat):
+    if not is_mat_symm(b_mat, abs_tol):
         throw_error('wrongInput:b_mat', 'second argument must be a symmetric matrix')
     if a_mat.shape[0] != b_mat.shape[0]:
         throw_error('wrongInput', 'both matrices must be of the same dimension')
-- 
2.43.0


From cabc58162ded6654b7df6be3946067fca638afb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:32 +0000
Subject: [PATCH 31/59] fix: regularize shape matrices symmetric up to the
 tolerance

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index 562b19e..cb4c0f0 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -124,7 +124,7 @@ class Ellipsoid(AEllipsoid):
     @staticmethod
     def _regularize(q_mat: np.ndarray, reg_tol: float) -> np.ndarray:
         from ellipy.gras.la.la import reg_pos_def_mat
-        return reg_pos_def_mat(q_mat, reg_tol)
+        return reg_pos_def_mat(0.5 * (q_mat + q_mat.T), reg_tol)
 
     @staticmethod
     def _rm_bad_directions(q1_mat: np.ndarray, q2_mat: np.ndarray, dirs_mat: np.ndarray, abs_tol: float) -> np.ndarray:
-- 
2.43.0


From c9ea2f252f1a1fe00be3e433daf7df55ec8fac9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:32 +0000
Subject: [PATCH 32/59] fix: compare ellipsoidal arrays together with their
 properties

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py   | 2 ++
 products/ellipy/elltool/core/hyperplane/Hyperplane.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index cb4c0f0..a9331e2 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -701,6 +701,8 @@ class Ellipsoid(AEllipsoid):
             field_descr_dict['n_plot_2d_points'] = 'Degree of ellipsoid border smoothness in 2D plotting.'
             field_nice_names_dict['n_plot_3d_points'] = 'n_plot_3d_points'
             field_descr_dict['n_plot_3d_points'] = 'Degree of ellipsoid border smoothness in 3D plotting.'
+            for prop_name in ['abs_tol', 'rel_tol', 'n_plot_2d_points', 'n_plot_3d_points']:
+                field_transform_func_dict[prop_name] = lambda z: z
         return ell_dict_arr, field_nice_names_dict, field_descr_dict, field_transform_func_dict
 
     @classmethod
diff --git a/products/ellipy/elltool/core/hyperplane/Hyperplane.py b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
index bc6a9ac..b092585 100644
--- a/products/ellipy/elltool/core/hyperplane/Hyperplane.py
+++ b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
@@ -295,6 +295,8 @@ class Hyperplane(ABasicEllipsoid):
             field_descr_dict['abs_tol'] = 'Absolute tolerance.'
             field_nice_names_dict['rel_tol'] = 'rel_tol'
             field_descr_dict['rel_tol'] = 'Relative tolerance.'
+            for prop_name in ['abs_tol', 'rel_tol']:
+                field_transform_func_dict[prop_name] = lambda z: z
         return hyp_dict_arr, field_nice_names_dict, field_descr_dict, field_transform_func_dict
 
     @classmethod
-- 
2.43.0


From 7cc7c23c50b8d4e4a612071319a091213ee96158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:32 +0000
Subject: [PATCH 33/59] fix: compare a single object given in an array of any
 dimension

---
 .../ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py b/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py
index e38912e..0fb9c29 100644
--- a/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py
+++ b/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py
@@ -192,9 +192,9 @@ class ABasicEllipsoid(ABC):
         ell2_dict_arr = np.reshape(np.array(ell2_dict_list), sec_shape_vec)
         if not (isn_first_scalar and isn_sec_scalar):
             if isn_first_scalar:
-                ell2_dict_arr = np.tile(ell2_dict_arr, list(first_shape_vec))
+                ell2_dict_arr = np.full(first_shape_vec, ell2_dict_arr.flat[0], dtype=object)
             else:
-                ell1_dict_arr = np.tile(ell1_dict_arr, list(sec_shape_vec))
+                ell1_dict_arr = np.full(sec_shape_vec, ell1_dict_arr.flat[0], dtype=object)
         is_eq_arr, report_str = dict_compare_vec(ell1_dict_arr, ell2_dict_arr, abs_tol, rel_tol)
         if isn_first_scalar:
             is_eq_arr = np.reshape(is_eq_arr, first_shape_vec)
-- 
2.43.0


From eac7d96ba6585407cf38654e81255cf516af59e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:32 +0000
Subject: [PATCH 34/59] fix: make the default solver norm control a boolean

---
 products/ellipy/elltool/conf/properties/Properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/conf/properties/Properties.py b/products/ellipy/elltool/conf/properties/Properties.py
index c4f0eed..b0d64df 100644
--- a/products/ellipy/elltool/conf/properties/Properties.py
+++ b/products/ellipy/elltool/conf/properties/Properties.py
@@ -45,7 +45,7 @@ class Properties(ParsePropMixin):
             'rel_tol': 1e-05,
             'n_time_grid_points': 250,
             'ode_solver_name': 'ode45',
-            'is_ode_norm_control': 'on',
+            'is_ode_norm_control': True,
             'is_enabled_ode_solver_options': False,
             'n_plot_2d_points': 200,
             'n_plot_3d_points': 200,
-- 
2.43.0


From 5f646270c2e2d976621c3b9546c506eeac8c7018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:32 +0000
Subject: [PATCH 35/59] fix: replicate objects by float-valued integer sizes

---
 products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py b/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py
index 0fb9c29..f5d1a03 100644
--- a/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py
+++ b/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py
@@ -251,6 +251,7 @@ class ABasicEllipsoid(ABC):
         shape_vec = shape_vec.flatten()
         if not np.all(np.logical_and(shape_vec == np.fix(shape_vec), shape_vec >= 0)):
             throw_error('wrongInput:shape_vec', 'size vector must contain non-negative integer values')
+        shape_vec = shape_vec.astype(int)
         n_elems = np.prod(shape_vec).flatten()[0]
         shape_vec = tuple(shape_vec)
         ell_arr = np.empty((n_elems,), dtype=np.object)
-- 
2.43.0


From 779bebd05bb1d4698e457b323a1b7265306d6093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:32 +0000
Subject: [PATCH 36/59] fix: refine a single face given as a matrix row

---
 products/ellipy/gras/geom/tri/tri.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/products/ellipy/gras/geom/tri/tri.py b/products/ellipy/gras/geom/tri/tri.py
index c96d1f6..b36bf18 100644
--- a/products/ellipy/gras/geom/tri/tri.py
+++ b/products/ellipy/gras/geom/tri/tri.py
@@ -145,6 +145,7 @@ def shrink_face_tri(v_mat: np.ndarray, f_mat: np.ndarray,
                 is_f2part_vec = np.any(is_e2orig_part_vec[f2e_mat], 1)
             else:
                 # this is because is_e2part_vec(f2e_mat) produces a column-vector for one face
+                f_mat = np.ravel(f_mat)
                 is_f2part_vec = np.any(is_e2orig_part_vec[f2e_mat])
 
             # Read just indices of partitioned edges
-- 
2.43.0


From eb04b49c3d38630aeec80d1a29b5d9ce868c00af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:32 +0000
Subject: [PATCH 37/59] fix: find faces whose edges belong to three or more
 faces

---
 products/ellipy/gras/geom/tri/tri.py | 46 ++--------------------------
 1 file changed, 3 insertions(+), 43 deletions(-)

diff --git a/products/ellipy/gras/geom/tri/tri.py b/products/ellipy/gras/geom/tri/tri.py
index b36bf18..4a4e83d 100644
--- a/products/ellipy/gras/geom/tri/tri.py
+++ b/products/ellipy/gras/geom/tri/tri.py
@@ -356,49 +356,9 @@ def is_face(f_mat: np.ndarray, f_to_check_mat: np.ndarray) -> np.ndarray:
     f23_num_list = get_edge_attachements(f_num_list, e_mat, f_to_check_mat[:, [1, 2]])
     f13_num_list = get_edge_attachements(f_num_list, e_mat, f_to_check_mat[:, [0, 2]])
 
-    def fnum_list_to_mat(inp_f_num_list: List[np.ndarray], def_vec: np.array) -> np.ndarray:
-        n_elems = len(inp_f_num_list)
-        l_vec = np.array([f_num_vec.size for f_num_vec in inp_f_num_list])
-        f_num_mat = np.tile(def_vec, (n_elems, 1))
-        is_one_elem_vec = l_vec == 1
-        if np.any(is_one_elem_vec):
-            f_num_mat[is_one_elem_vec, 0] = \
-                np.hstack(tuple([f_num_vec for f_num_vec, is_elem in
-                                 zip(inp_f_num_list, list(is_one_elem_vec)) if is_elem]))
-        is_two_elem_vec = l_vec == 2
-        if np.any(is_two_elem_vec):
-            f_num_mat[is_two_elem_vec, :] = \
-                np.vstack(tuple([f_num_vec for f_num_vec, is_elem in
-                                 zip(inp_f_num_list, list(is_two_elem_vec)) if is_elem]))
-        return f_num_mat
-
-    f12_num_mat = fnum_list_to_mat(f12_num_list, np.array([-121, -122]))
-    f23_num_mat = fnum_list_to_mat(f23_num_list, np.array([-231, -232]))
-    f13_num_mat = fnum_list_to_mat(f13_num_list, np.array([-131, -132]))
-
-    def intersect_mat(one_mat: np.ndarray, two_mat: np.ndarray, three_mat: np.ndarray) -> np.ndarray:
-        def flip_or_not(inp_mat: np.ndarray, is_flip: bool) -> np.ndarray:
-            if is_flip:
-                return np.fliplr(inp_mat)
-            else:
-                return inp_mat
-
-        comb_mat = np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [1, 1, 0],
-                             [0, 0, 1], [1, 0, 1], [0, 1, 1], [1, 1, 1]])
-        n_combs = comb_mat.shape[0]
-        is_pos_res_vec = np.zeros((one_mat.shape[0],), dtype=bool)
-        for i_comb in range(n_combs):
-            is_flip_vec = comb_mat[i_comb]
-            flip_one_mat = flip_or_not(one_mat, is_flip_vec[0])
-            flip_two_mat = flip_or_not(two_mat, is_flip_vec[1])
-            flip_three_mat = flip_or_not(three_mat, is_flip_vec[2])
-            is_pos_res_vec = \
-                np.logical_or(
-                    is_pos_res_vec, np.any(np.logical_and(
-                        flip_one_mat == flip_two_mat, flip_two_mat == flip_three_mat), axis=1).flatten())
-        return is_pos_res_vec
-
-    return intersect_mat(f12_num_mat, f23_num_mat, f13_num_mat)
+    return np.array([np.intersect1d(np.intersect1d(f12_num_vec, f23_num_vec), f13_num_vec).size > 0
+                     for f12_num_vec, f23_num_vec, f13_num_vec
+                     in zip(f12_num_list, f23_num_list, f13_num_list)], dtype=bool)
 
 
 def is_tri_equal(v1_mat: np.ndarray, f1_mat: np.ndarray,
-- 
2.43.0


From 3bedd42948722a6da4fb5b866b54df7c04d8b80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:32 +0000
Subject: [PATCH 38/59] fix: find faces given with another integer type

---
 products/ellipy/gras/geom/tri/tri.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/gras/geom/tri/tri.py b/products/ellipy/gras/geom/tri/tri.py
index 4a4e83d..f733a6e 100644
--- a/products/ellipy/gras/geom/tri/tri.py
+++ b/products/ellipy/gras/geom/tri/tri.py
@@ -332,7 +332,7 @@ def is_face(f_mat: np.ndarray, f_to_check_mat: np.ndarray) -> np.ndarray:
             arr = np.ascontiguousarray(arr)
             return arr.view(np.dtype((np.void, arr.dtype.itemsize * arr.shape[-1])))
 
-        inp_check_e_mat = np.sort(inp_check_e_mat, axis=1)
+        inp_check_e_mat = np.sort(inp_check_e_mat, axis=1).astype(inp_e_mat.dtype)
         void_e_mat, void_check_e_mat = map(as_void, (inp_e_mat, inp_check_e_mat))
         is_edge_vec, ind_edge_vec = is_member(void_check_e_mat, void_e_mat)
         out_f_num_list = list()
-- 
2.43.0


From 3c193eb45170cff4d9bf59bf9aa8945cdd1b4bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:32 +0000
Subject: [PATCH 39/59] fix: align one-dimensional vectors

---
 products/ellipy/elltool/core/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/elltool/core/core.py b/products/ellipy/elltool/core/core.py
index 9b5a758..9fdeebb 100644
--- a/products/ellipy/elltool/core/core.py
+++ b/products/ellipy/elltool/core/core.py
@@ -52,12 +52,12 @@ def ell_valign(v: np.ndarray, x: np.ndarray) -> np.ndarray:
     if v.ndim == 0:
         v = np.expand_dims(v, axis=0)
     else:
-        v = np.squeeze(v)
+        v = v.flatten()
 
     if x.ndim == 0:
         x = np.expand_dims(x, axis=0)
     else:
-        x = np.squeeze(x)
+        x = x.flatten()
 
     if v.shape[0] != x.shape[0]:
         throw_error('wrongInput:v,x', 'ELL_VALIGN: both vectors must be of the same dimension.')
-- 
2.43.0


From b7f48c560e447ab1f1888fb652a2b28076612845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:32 +0000
Subject: [PATCH 40/59] fix: walk the convex hull in the order of directions

---
 products/ellipy/gras/geom/sup/sup.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/products/ellipy/gras/geom/sup/sup.py b/products/ellipy/gras/geom/sup/sup.py
index 202dfaf..eb7f190 100644
--- a/products/ellipy/gras/geom/sup/sup.py
+++ b/products/ellipy/gras/geom/sup/sup.py
@@ -73,11 +73,10 @@ def sup_geom_diff_2d(rho1_vec: np.ndarray, rho2_vec: np.ndarray, l_mat: np.ndarr
 
     s_mat = l_mat / np.matlib.repmat(rho_diff_vec, n_dims, 1)
     # noinspection PyUnresolvedReferences
-    ind_mat = ConvexHull(s_mat.T).simplices
+    ind_vert_vec = np.sort(ConvexHull(s_mat.T).vertices)
+    ind_mat = np.column_stack((ind_vert_vec, np.roll(ind_vert_vec, -1)))
 
-    ind_face_length_vec = ind_mat[:, 1] - ind_mat[:, 0]
-    is_neg_vec = ind_face_length_vec < -1
-    ind_face_length_vec[is_neg_vec] = n_dirs + ind_face_length_vec[is_neg_vec]
+    ind_face_length_vec = np.mod(ind_mat[:, 1] - ind_mat[:, 0], n_dirs)
     ind_face_vec = np.nonzero(ind_face_length_vec > 1)[0]
     n_faces = len(ind_face_vec)
     s_norm_vec = np.ones(n_dirs, dtype=np.float64)
@@ -96,7 +95,7 @@ def sup_geom_diff_2d(rho1_vec: np.ndarray, rho2_vec: np.ndarray, l_mat: np.ndarr
         for i_dir in range(0, n_change_dirs):
             ind_dir = ind_dir + 1
 
-            if ind_dir > n_dirs:
+            if ind_dir >= n_dirs:
                 ind_dir = 0
 
             a_mat = np.concatenate((a_first_vec, np.expand_dims(s_mat[:, ind_dir], axis=0).T), axis=1)
-- 
2.43.0


From b11d4c3c0edf633deb44a69c126b66832a502350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:32 +0000
Subject: [PATCH 41/59] fix: scale the tolerance of the ray intersection

---
 products/ellipy/gras/geom/sup/sup.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/products/ellipy/gras/geom/sup/sup.py b/products/ellipy/gras/geom/sup/sup.py
index eb7f190..6dbe7e1 100644
--- a/products/ellipy/gras/geom/sup/sup.py
+++ b/products/ellipy/gras/geom/sup/sup.py
@@ -167,7 +167,8 @@ def sup_geom_diff_3d(rho1_vec: np.ndarray, rho2_vec: np.ndarray, l_mat: np.ndarr
             x2_vec = tri_mat[:, 2] - tri_mat[:, 0]
             norm1_vec = np.cross(s_mat[:, i_dist], x2_vec)
             det_temp = np.dot(x1_vec, norm1_vec)
-            if np.abs(det_temp) > __ABS_TOL:
+            if np.abs(det_temp) > __ABS_TOL * np.linalg.norm(x1_vec) * np.linalg.norm(x2_vec) * \
+                    np.linalg.norm(s_mat[:, i_dist]):
                 inv_det = 1 / det_temp
                 s_point = -tri_mat[:, 0]
                 u_dist = inv_det * np.dot(s_point, norm1_vec)
-- 
2.43.0


From 93b6799c11de3f759d7eec298722276669f66c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:03 +0000
Subject: [PATCH 42/59] fix: check the dimension before using the grid factors

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index a9331e2..1b91fd9 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -363,6 +363,8 @@ class Ellipsoid(AEllipsoid):
             Tuple[np.ndarray, np.ndarray, np.ndarray, np.ndarray]:
         Ellipsoid._check_if_scalar(self)
         n_dim = self.dimension([self]).flat[0]
+        if (n_dim < 2) or (n_dim > 3):
+            throw_error('wrongDim', 'ellipsoid must be of dimension 2 or 3')
         n_plot_points = None
         if factor_vec is None:
             factor = 1
-- 
2.43.0


From 19e39f0af65ea81a5422979343a2e677f2d8f3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:21 +0000
Subject: [PATCH 43/59] fix: hyperplane membership refuses a wrong number of
 points

---
 products/ellipy/elltool/core/hyperplane/Hyperplane.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/elltool/core/hyperplane/Hyperplane.py b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
index b092585..50a21b8 100644
--- a/products/ellipy/elltool/core/hyperplane/Hyperplane.py
+++ b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
@@ -129,9 +129,9 @@ class Hyperplane(ABasicEllipsoid):
         if 1 == np.size(size_hyp_arr):
             size_hyp_arr = (1, size_hyp_arr[0])
 
-        if not (np.array_equal(size_x_vec[1:], size_hyp_arr) or
+        if not (np.array_equal((1, ) + size_x_vec[1:], size_hyp_arr) or
                 ((np.size(hyp_arr) == 1) and not (np.size(x_arr) == 0)) or
-                (np.size(size_x_vec[1:]) == 1)):
+                (size_x_vec[1] == 1)):
             throw_error('wrongSizes', 'Array of normal vectors and array of constants has wrong sizes.')
 
         def process(other_dim_vec_loc):
-- 
2.43.0


From 380610955b3ad1ad93887b38aaa8319d7c5bb120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:55 +0000
Subject: [PATCH 44/59] fix: keep the transport of nearly opposite vectors
 orthogonal

---
 products/ellipy/gras/la/la.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/gras/la/la.py b/products/ellipy/gras/la/la.py
index 416a7d3..e597daa 100644
--- a/products/ellipy/gras/la/la.py
+++ b/products/ellipy/gras/la/la.py
@@ -93,11 +93,13 @@ def orth_transl(src_vec: np.ndarray, dst_vec: np.ndarray) -> np.ndarray:
     src_vec = src_vec / np.sqrt(src_squared_norm)
 
     scal_prod = np.sum(src_vec * dst_vec)
-    s_val = np.sqrt(np.maximum(1.0 - scal_prod * scal_prod, 0.0))
+    # not the root of 1 - scal_prod ** 2, which is inexact for nearly collinear vectors
+    ort_vec = src_vec - scal_prod * dst_vec
+    s_val = np.sqrt(np.sum(ort_vec * ort_vec))
     q_mat = np.zeros((n_dims, 2), dtype=np.float64)
     q_mat[:, 0] = np.squeeze(dst_vec)
     if np.abs(s_val) > __ABS_TOL:
-        q_mat[:, 1] = np.squeeze((src_vec - scal_prod * dst_vec) / s_val)
+        q_mat[:, 1] = np.squeeze(ort_vec / s_val)
     else:
         q_mat[:, 1] = 0.0
 
-- 
2.43.0


From 3774a69353b72768fbe0b7577aab116fc65ab9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:55 +0000
Subject: [PATCH 45/59] fix: diagonalise symmetric matrices with opposite
 eigenvalues

---
 products/ellipy/elltool/core/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/core.py b/products/ellipy/elltool/core/core.py
index 9fdeebb..358e447 100644
--- a/products/ellipy/elltool/core/core.py
+++ b/products/ellipy/elltool/core/core.py
@@ -21,7 +21,9 @@ def ell_sim_diag(a_mat: np.ndarray, b_mat: np.ndarray, abs_tol: float) -> np.nda
 
     u1_mat, s_vec, _ = np.linalg.svd(a_mat, full_matrices=True)
     u_mat = np.linalg.lstsq(sqrtm_pos(np.diag(s_vec), abs_tol).T, u1_mat.T, -1)[0].T
-    u2_mat, _, _ = np.linalg.svd(u_mat.T @ b_mat @ u_mat)
+    # singular vectors do not separate eigenvalues that differ only by the sign
+    d_vec, u2_mat = np.linalg.eigh(u_mat.T @ b_mat @ u_mat)
+    u2_mat = u2_mat[:, np.argsort(-np.abs(d_vec), kind='stable')]
     return u2_mat.T @ u_mat.T
 
 
-- 
2.43.0


From 889fc81457628b75f70797aed3b25231c710f4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:23 +0000
Subject: [PATCH 46/59] fix: align zero-dimensional vectors

---
 products/ellipy/elltool/core/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/elltool/core/core.py b/products/ellipy/elltool/core/core.py
index 358e447..28707b8 100644
--- a/products/ellipy/elltool/core/core.py
+++ b/products/ellipy/elltool/core/core.py
@@ -46,9 +46,9 @@ def ell_valign(v: np.ndarray, x: np.ndarray) -> np.ndarray:
     if (not is_numeric(v)) or (not is_numeric(x)):
         throw_error('wrongInput:v,x', 'ELL_VALIGN: both arguments must be vectors in R^n.')
 
-    if v.size != max(v.shape):
+    if v.ndim > 0 and v.size != max(v.shape):
         throw_error('wrongInput:v', 'ELL_VALIGN: first argument must be a vector.')
-    if x.size != max(x.shape):
+    if x.ndim > 0 and x.size != max(x.shape):
         throw_error('wrongInput:x', 'ELL_VALIGN: second argument must be a vector.')
 
     if v.ndim == 0:
-- 
2.43.0


From 64c0b7d10be2705eef70d75f767fbb4d2f783509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:08 +0000
Subject: [PATCH 47/59] fix: multiply three stacks when one is scalar or single

---
 products/ellipy/gras/gen/gen.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index 7623bea..80e1bb6 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -258,7 +258,8 @@ class MatVector:
             is_binary = False
         is_a_scalar = (n_a_cols == 1) and (n_a_rows == 1)
         is_b_scalar = (n_b_cols == 1) and (n_b_rows == 1)
-        if is_a_scalar or is_b_scalar:
+        is_c_scalar = (n_c_cols == 1) and (n_c_rows == 1)
+        if is_a_scalar or is_b_scalar or is_c_scalar:
             use_sparse = False
         if use_sparse:
             a_mat = np.reshape(a_arr, (n_a_rows, n_a_cols * n_time_points), order='F')
@@ -288,15 +289,7 @@ class MatVector:
                 else:
                     throw_error('wrongInput', 'Incorrect size of b_arr')
             else:
-                if is_a_scalar and is_b_scalar:
-                    res_mat = np.zeros((n_c_rows, n_c_cols, n_time_points), dtype=np.float64)
-                elif is_a_scalar:
-                    res_mat = np.zeros((n_b_rows, n_c_cols, n_time_points), dtype=np.float64)
-                else:
-                    res_mat = np.zeros((n_a_rows, n_c_cols, n_time_points), dtype=np.float64)
-                for i_time_point in range(n_time_points):
-                    res_mat[:, :, i_time_point] = a_arr[:, :, i_time_point] @ \
-                                                  b_arr[:, :, i_time_point] @ c_arr[:, :, i_time_point]
+                res_mat = MatVector.r_multiply(MatVector.r_multiply(a_arr, b_arr), c_arr)
         return res_mat
 
 
-- 
2.43.0


From 80d4e2d0e1b5ba28892a6dae10a7ea5a30ffedd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:08 +0000
Subject: [PATCH 48/59] fix: multiply stacks by a single sparse page

---
 products/ellipy/gras/gen/gen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index 80e1bb6..b044b53 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -224,8 +224,8 @@ class MatVector:
         def get_sparse_mat(inp_arr: np.ndarray) -> sp.csc_matrix:
             int_arr = inp_arr
             inp_shape = inp_arr.shape
-            if inp_arr.ndim < 3:
-                int_arr = np.tile(np.expand_dims(int_arr, 2), (1, 1, n_time_points))
+            if inp_arr.ndim < 3 or inp_shape[2] == 1:
+                int_arr = np.tile(np.reshape(int_arr, (inp_shape[0], inp_shape[1], 1)), (1, 1, n_time_points))
             n_rows = inp_shape[0]
             n_cols = inp_shape[1]
             i_mat = np.tile(np.arange(n_rows * n_time_points), (n_cols, 1))
-- 
2.43.0


From 226c7444fd94919179eb9a244d5a7d2d7319ba85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:23 +0000
Subject: [PATCH 49/59] fix: factor a single symmetric matrix

---
 products/ellipy/gras/gen/gen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index b044b53..7be1e3f 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -477,8 +477,7 @@ class SymmetricMatVector(SquareMatVector):
         a_size_vec = np.shape(inp_a_arr)
         n_elems = a_size_vec[1]
         #
-        n_mat_elems = np.shape(inp_b_arr)
-        n_mat_elems = n_mat_elems[2]
+        n_mat_elems = np.shape(u_array)[2]
         if n_mat_elems == 1:
             ua_array = u_array[:, :, 0] @ inp_a_arr
             b_inv_mat = np.diag(1 / np.diag(s_array[:, :, 0]))
@@ -496,6 +495,7 @@ class SymmetricMatVector(SquareMatVector):
         size_vec = np.shape(sym_arr)
         if len(size_vec) == 2:
             size_vec = np.append(size_vec, 1)
+            sym_arr = np.expand_dims(sym_arr, 2)
         u_array = np.zeros(size_vec, dtype=np.float64)
         s_array = np.zeros(size_vec, dtype=np.float64)
         for t in range(size_vec[2]):
-- 
2.43.0


From ac8f446f2c10a1a99b96cbc4dfbf7a06c9f643a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:28 +0000
Subject: [PATCH 50/59] fix: take square roots of stacks of one by one pages

---
 products/ellipy/gras/gen/gen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index 7be1e3f..0311950 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -318,7 +318,7 @@ class SquareMatVector(MatVector):
                 if np.isnan(data_arr[:, :, t]).any():
                     sqrt_data_array[:, :, t] = np.NaN
                     continue
-                sqrt_data_array[:, :, t] = sqrtm_pos(np.squeeze(data_arr[:, :, t]))
+                sqrt_data_array[:, :, t] = sqrtm_pos(data_arr[:, :, t])
         return sqrt_data_array
 
     @staticmethod
-- 
2.43.0


From 7f0353ce9c179e39e08d0b1858a48041addfa555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 51/59] fix: substitute the replacement text literally

---
 products/ellipy/gras/sym/sym.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/gras/sym/sym.py b/products/ellipy/gras/sym/sym.py
index 57fdc46..4936b57 100644
--- a/products/ellipy/gras/sym/sym.py
+++ b/products/ellipy/gras/sym/sym.py
@@ -43,5 +43,5 @@ def var_replace(m_mat: np.ndarray, from_var_name: str, to_var_name: str) -> np.n
     def _replace(elem, to_replace, value):
         return elem.replace(to_replace, value)
     m_mat = np.vectorize(_replace)(m_mat, ' ', '')
-    m_mat = np.vectorize(re.sub)(r'\b' + from_var_name + r'\b', to_var_name, m_mat)
+    m_mat = np.vectorize(re.sub)(r'\b' + re.escape(from_var_name) + r'\b', lambda _: to_var_name, m_mat)
     return m_mat
-- 
2.43.0


From f212812b3f8cbf43823c75238ba6e6b7d0a66dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:17 +0000
Subject: [PATCH 52/59] fix: part the sphere into distinct points

---
 products/ellipy/gras/geom/geom.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/products/ellipy/gras/geom/geom.py b/products/ellipy/gras/geom/geom.py
index 173cfb6..f4be878 100755
--- a/products/ellipy/gras/geom/geom.py
+++ b/products/ellipy/gras/geom/geom.py
@@ -58,12 +58,12 @@ def sphere_part(n_points: int) -> np.ndarray:
         mod_i = np.mod(i_point, 3)
         if mod_i == 1:
             i_min = np.argmin(x_dist_vec)
-            x_dist_vec[i_min] = 2*np.pi
         elif mod_i == 2:
             i_min = np.argmin(y_dist_vec)
-            y_dist_vec[i_min] = 2*np.pi
         else:
             i_min = np.argmin(z_dist_vec)
-            z_dist_vec[i_min] = 2*np.pi
+        x_dist_vec[i_min] = 2*np.pi
+        y_dist_vec[i_min] = 2*np.pi
+        z_dist_vec[i_min] = 2*np.pi
         r_mat[i_point] = p_mat[i_min]
     return r_mat
-- 
2.43.0


From b21db18ddf237fa249bacb207b17ac92ae3c1efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:24 +0000
Subject: [PATCH 53/59] fix: map the flat faces of a refined mesh to their own
 edges

---
 products/ellipy/gras/geom/tri/tri.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/products/ellipy/gras/geom/tri/tri.py b/products/ellipy/gras/geom/tri/tri.py
index f733a6e..24037ce 100644
--- a/products/ellipy/gras/geom/tri/tri.py
+++ b/products/ellipy/gras/geom/tri/tri.py
@@ -266,8 +266,9 @@ def shrink_face_tri(v_mat: np.ndarray, f_mat: np.ndarray,
             ind_12f2e3_vec = ind_v_mid_e_broken_nut_kept_vec - n_verts + 3 * n_shrinked_faces + n_edges
             ind_23f2e3_vec = ind_12f2e3_vec + n_new_verts
 
-            f2e3_new_mat = np.column_stack((ind_12f2e3_vec, ind_23f2e3_vec, ind_e_broken_but_kept_vec))
+            f2e3_new_mat = np.column_stack((ind_12f2e3_vec, ind_e_broken_but_kept_vec, ind_23f2e3_vec))
             f2e3_is_dir_new_mat = np.ones(shape=np.shape(f2e3_new_mat), dtype=bool)
+            f2e3_is_dir_new_mat[:, 0] = False
 
             # Optionally adjust vertices
             if is_adjust_func_spec:
-- 
2.43.0


From da93b3c76be8761682869ccf31362bf355539a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:45 +0000
Subject: [PATCH 54/59] fix: give the centre in directions where the width is
 only rounding error

---
 products/ellipy/gras/geom/ell/ell.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/gras/geom/ell/ell.py b/products/ellipy/gras/geom/ell/ell.py
index 27978fb..3db52c4 100644
--- a/products/ellipy/gras/geom/ell/ell.py
+++ b/products/ellipy/gras/geom/ell/ell.py
@@ -103,11 +103,14 @@ def rho_mat(ell_shape_mat: np.ndarray, dirs_mat: np.ndarray,
     if ell_center_vec is None:
         ell_center_vec = np.zeros((m, 1))
     nd = dirs_mat.shape[1]
+    # squared widths below this level consist of rounding errors only
+    noise_vec = m * np.finfo(np.float64).eps * np.sum(
+        np.abs(dirs_mat).T @ np.abs(ell_shape_mat) * np.abs(dirs_mat).T, axis=1)
     if nd == 1:
         sq = sqrt_pos(dirs_mat.T @ ell_shape_mat @ dirs_mat, abs_tol)
         sup_arr = ell_center_vec.T @ dirs_mat + sq
         bp_mat = (ell_shape_mat @ dirs_mat) / sq
-        if np.any(np.isnan(bp_mat)):
+        if np.any(np.isnan(bp_mat)) or np.all(sq ** 2 <= noise_vec):
             bp_mat[:] = 0.
         bp_mat = bp_mat + ell_center_vec
     else:
@@ -116,7 +119,7 @@ def rho_mat(ell_shape_mat: np.ndarray, dirs_mat: np.ndarray,
         sup_arr = ell_center_vec.T @ dirs_mat + temp_mat
         bp_mat = ell_shape_mat @ dirs_mat / np.tile(temp_mat, (m, 1))
         is_nan_bp_mat = np.isnan(bp_mat)
-        is_nan_vec = np.any(is_nan_bp_mat, 0)
+        is_nan_vec = np.any(is_nan_bp_mat, 0) | (temp_mat ** 2 <= noise_vec)
         if np.any(is_nan_vec):
             bp_mat[:, is_nan_vec] = 0.
         bp_mat = bp_mat + np.tile(ell_center_vec, (1, nd))
-- 
2.43.0


From eb17405c89f0e2998a9ef82896eb058a4ad72c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:44 +0000
Subject: [PATCH 55/59] fix: check the class of what to_dict is given

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py   | 1 +
 products/ellipy/elltool/core/hyperplane/Hyperplane.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index 1b91fd9..09d880a 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -677,6 +677,7 @@ class Ellipsoid(AEllipsoid):
                     ell_obj.get_property(ell_obj_arr, 'n_plot_3d_points', None).flatten()[0]
             return ell_dict
 
+        cls._check_is_me(ell_arr)
         ell_arr = np.array(ell_arr)
         if abs_tol is None:
             _, abs_tol = cls.get_abs_tol(ell_arr)
diff --git a/products/ellipy/elltool/core/hyperplane/Hyperplane.py b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
index 50a21b8..020c77c 100644
--- a/products/ellipy/elltool/core/hyperplane/Hyperplane.py
+++ b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
@@ -275,6 +275,7 @@ class Hyperplane(ABasicEllipsoid):
                 hp_dict['rel_tol'] = hp_obj.get_rel_tol(hp_obj_arr, None).flatten()[0]
             return hp_dict
 
+        cls._check_is_me(hyp_arr)
         hyp_arr = np.array(hyp_arr)
         hyp_dict_arr = np.reshape(np.array(
             [hp_2_dict(hp_obj, is_prop_included) for hp_obj in list(hyp_arr.flatten())]), hyp_arr.shape)
-- 
2.43.0


From 170079ed7a1f4cb90de03ead72f5436d34ae4fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:44 +0000
Subject: [PATCH 56/59] fix: give the rank of empty ellipsoids and empty arrays

---
 products/ellipy/elltool/core/aellipsoid/AEllipsoid.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py b/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py
index 7dd42e4..b35a313 100644
--- a/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py
+++ b/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py
@@ -159,14 +159,12 @@ class AEllipsoid(ABasicEllipsoid, ABC):
         ell_arr = np.array(ell_arr)
         ell_list = list(ell_arr.flatten())
         ell_shape_vec = ell_arr.shape
+        ndim_list = [np.size(ell_obj.get_center_vec()) for ell_obj in ell_list]
         if return_rank:
-            ndim_list, rank_list = zip(*[
-                (np.size(ell_obj.get_center_vec()), np.linalg.matrix_rank(ell_obj.get_shape_mat()))
-                for ell_obj in ell_list
-            ])
+            rank_list = [np.linalg.matrix_rank(ell_obj.get_shape_mat()) if n_dim > 0 else 0
+                         for ell_obj, n_dim in zip(ell_list, ndim_list)]
             return np.reshape(np.array(ndim_list), ell_shape_vec), np.reshape(np.array(rank_list), ell_shape_vec)
         else:
-            ndim_list = [np.size(ell_obj.get_center_vec()) for ell_obj in ell_list]
             return np.reshape(np.array(ndim_list), ell_shape_vec)
 
     @classmethod
-- 
2.43.0


From 6216ed5607d1a43d26e1d52c3ad6f1cbeb32ac93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:44 +0000
Subject: [PATCH 57/59] fix: compare imaginary parts next to non-finite values

---
 products/ellipy/gen/common/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/gen/common/common.py b/products/ellipy/gen/common/common.py
index fe0e358..75fb307 100644
--- a/products/ellipy/gen/common/common.py
+++ b/products/ellipy/gen/common/common.py
@@ -142,8 +142,8 @@ def abs_rel_compare(left_arr: np.ndarray, right_arr: np.ndarray,
     if is_equal:
         isn_finite_mat = ~np.isfinite(left_arr)
         if np.any(isn_finite_mat.flatten()):
-            left_arr = np.array(left_arr, dtype=np.float64, copy=True)
-            right_arr = np.array(right_arr, dtype=np.float64, copy=True)
+            left_arr = np.array(left_arr, dtype=np.result_type(left_arr, np.float64), copy=True)
+            right_arr = np.array(right_arr, dtype=np.result_type(right_arr, np.float64), copy=True)
             left_arr[isn_finite_mat] = 0.
             right_arr[isn_finite_mat] = 0.
 
-- 
2.43.0


From a64cb3aec140169fdeef450f7314c044679ea0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:44 +0000
Subject: [PATCH 58/59] fix: compare unsigned, boolean and short integers
 without wrapping

---
 products/ellipy/gen/common/common.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/products/ellipy/gen/common/common.py b/products/ellipy/gen/common/common.py
index 75fb307..0261243 100644
--- a/products/ellipy/gen/common/common.py
+++ b/products/ellipy/gen/common/common.py
@@ -125,6 +125,12 @@ def abs_rel_compare(left_arr: np.ndarray, right_arr: np.ndarray,
     if not callable(f_norm_op):
         throw_error('wrongInput:wrongNormOp', 'f_norm_op must be a function')
 
+    # differences of unsigned, boolean and short integers must not wrap around
+    if left_arr.dtype.kind in 'bui':
+        left_arr = left_arr.astype(np.result_type(left_arr.dtype, np.int64))
+    if right_arr.dtype.kind in 'bui':
+        right_arr = right_arr.astype(np.result_type(right_arr.dtype, np.int64))
+
     is_equal = np.array_equal(np.isnan(left_arr), np.isnan(right_arr))
     report_str = ''
     if is_equal:
-- 
2.43.0


From aa4f3fd6e32cf807bbc9a794d2158f9cd9adcb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:45 +0000
Subject: [PATCH 59/59] fix: compare lists of arrays that do not form a common
 array

---
 products/ellipy/gen/dict/dict.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/products/ellipy/gen/dict/dict.py b/products/ellipy/gen/dict/dict.py
index f7d38ec..e0a3b51 100644
--- a/products/ellipy/gen/dict/dict.py
+++ b/products/ellipy/gen/dict/dict.py
@@ -67,18 +67,25 @@ def dict_compare_vec(dict_x_arr: np.ndarray, dict_y_arr: np.ndarray,
                     '|'.join(key_x_minus_y_list), '|'.join(key_y_minus_x_list)))
                 return False, sc_report_str_list
 
+            def get_kind(value) -> str:
+                try:
+                    return np.asarray(value).dtype.kind
+                except ValueError:
+                    # a list of arrays that do not form a common array
+                    return 'O'
+
             def comp_fun(x, y, comp_abs_tol: float, comp_rel_tol: float) -> Tuple[bool, str]:
                 comp_report_str = ''
 
-                x_dtype = np.asarray(x).dtype.kind
-                y_dtype = np.asarray(y).dtype.kind
+                x_dtype = get_kind(x)
+                y_dtype = get_kind(y)
                 x_type = type(x)
 
                 if x_type != type(y) or x_dtype != y_dtype:
                     comp_report_str = 'Different types'
                     return False, comp_report_str
 
-                if is_numeric(x) and x_type != list:
+                if x_type != list and is_numeric(x):
                     x_arr = np.array(x)
                     y_arr = np.array(y)
                     x_shape_vec = x_arr.shape
-- 
2.43.0

