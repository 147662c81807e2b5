From f8cec05662b9d897bc168f5acfe31113d1a1d399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:49 +0000
Subject: [PATCH 01/49] fix: use the symmetric eigendecomposition in
 reg_pos_def_mat

numpy.linalg.eig does not return orthogonal eigenvectors for repeated eigenvalues of a symmetric matrix,
so the regularised matrix was wrong in that case.
---
 products/ellipy/gras/la/la.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/gras/la/la.py b/products/ellipy/gras/la/la.py
index 78c1bad..815569f 100644
--- a/products/ellipy/gras/la/la.py
+++ b/products/ellipy/gras/la/la.py
@@ -214,7 +214,7 @@ def reg_pos_def_mat(inp_mat: np.ndarray, reg_tol: float) -> np.ndarray:
     reg_tol = try_treat_as_real(reg_tol)
     if not(is_mat_symm(inp_mat)):
         throw_error('wrongInput:inp_mat', 'matrix must be symmetric')
-    d_mat, v_mat = np.linalg.eig(inp_mat)
+    d_mat, v_mat = np.linalg.eigh(inp_mat, 'U')
     m_mat = np.diag(np.maximum(0.0, reg_tol-d_mat))
     m_mat = v_mat @ m_mat @ v_mat.T
     regular_mat = inp_mat + m_mat
-- 
2.43.0


From 634db78f068cd102aeaef9cd198cdb3ca0452ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:19 +0000
Subject: [PATCH 02/49] fix: rotate by the transposed eigenvectors in
 SymmetricMatVector

The eigenvector matrix was applied untransposed and the side flag was applied a second time to the rotated
operand, so products and forms were wrong whenever the eigenvector matrix is not symmetric.
---
 products/ellipy/gras/gen/gen.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index 6a29139..71650cd 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -455,7 +455,7 @@ class SymmetricMatVector(SquareMatVector):
             ua_array = SquareMatVector.r_multiply(u_array, inp_a_arr)
         else:
             throw_error('wrongInput:flag', 'flag %s is not supported' % flag)
-        out_array = SquareMatVector.lr_multiply(s_array, ua_array, flag)
+        out_array = SquareMatVector.lr_multiply(s_array, ua_array, 'R')
         return out_array
 
     @staticmethod
@@ -502,10 +502,12 @@ class SymmetricMatVector(SquareMatVector):
     def __array_svd(sym_arr: np.ndarray) -> Tuple[np.ndarray, np.ndarray]:
         size_vec = np.shape(sym_arr)
         if len(size_vec) == 2:
-            size_vec = np.append(size_vec, 1)
+            sym_arr = np.expand_dims(sym_arr, 2)
+            size_vec = np.shape(sym_arr)
         u_array = np.zeros(size_vec, dtype=np.float64)
         s_array = np.zeros(size_vec, dtype=np.float64)
         for t in range(size_vec[2]):
-            eig_vec, s_array[:, :, t] = la.eigh(sym_arr[:, :, t])
-            u_array[:, :, t] = np.diag(eig_vec)
-        return s_array, u_array
+            eig_vec, v_mat = la.eigh(sym_arr[:, :, t])
+            u_array[:, :, t] = v_mat.T
+            s_array[:, :, t] = np.diag(eig_vec)
+        return u_array, s_array
-- 
2.43.0


From 723b66004d0efae57289122cef78e18a92f64f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:19 +0000
Subject: [PATCH 03/49] fix: lr_svd_divide_vec with a single matrix

The branch for one matrix took the diagonal of a three-dimensional array and raised.
---
 products/ellipy/gras/gen/gen.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index 71650cd..7b9f84c 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -481,17 +481,17 @@ class SymmetricMatVector(SquareMatVector):
     @staticmethod
     def lr_svd_divide_vec(inp_b_arr: np.ndarray, inp_a_arr: np.ndarray) -> np.ndarray:
         u_array, s_array = SymmetricMatVector.__array_svd(inp_b_arr)
-        ua_array = MatVector.r_multiply_by_vec(u_array, inp_a_arr)
         #
         a_size_vec = np.shape(inp_a_arr)
         n_elems = a_size_vec[1]
         #
-        n_mat_elems = np.shape(inp_b_arr)
-        n_mat_elems = n_mat_elems[2]
+        n_mat_elems = np.shape(s_array)[2]
         if n_mat_elems == 1:
-            b_inv_mat = np.diag(1 / np.diag(s_array))
+            ua_array = u_array[:, :, 0] @ inp_a_arr
+            b_inv_mat = np.diag(1 / np.diag(s_array[:, :, 0]))
             out_vec = np.sum(((b_inv_mat @ ua_array) * ua_array), axis=0)
         else:
+            ua_array = MatVector.r_multiply_by_vec(u_array, inp_a_arr)
             out_vec = np.zeros(n_elems, dtype=np.float64)
             for i_elem in range(n_elems):
                 b_inv_mat = np.diag(1 / np.diag(s_array[:, :, i_elem]))
-- 
2.43.0


From 7f9f34941055774a660a402faf0e0b83d2c4003b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:19 +0000
Subject: [PATCH 04/49] fix: scalar, plain-matrix and single-slice operands of
 MatVector.r_multiply

A 1x1 operand was multiplied as a matrix, a plain matrix failed for one time point and a single slice failed
for several, although the function prepares for each of these cases.
---
 products/ellipy/gras/gen/gen.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index 7b9f84c..9b26965 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -230,7 +230,9 @@ class MatVector:
             int_arr = inp_arr
             inp_shape = inp_arr.shape
             if inp_arr.ndim < 3:
-                int_arr = np.tile(np.expand_dims(int_arr, 2), (1, 1, n_time_points))
+                int_arr = np.expand_dims(int_arr, 2)
+            if int_arr.shape[2] == 1:
+                int_arr = np.tile(int_arr, (1, 1, n_time_points))
             n_rows = inp_shape[0]
             n_cols = inp_shape[1]
             i_mat = np.tile(np.arange(n_rows * n_time_points), (n_cols, 1))
@@ -281,12 +283,14 @@ class MatVector:
                     res_mat = np.zeros((n_a_rows, n_a_cols, n_time_points), dtype=np.float64)
                 else:
                     res_mat = np.zeros((n_a_rows, n_b_cols, n_time_points), dtype=np.float64)
+                b_arr = np.reshape(b_arr, b_shape)
+                mult_func = np.multiply if is_a_scalar or is_b_scalar else np.matmul
                 if b_shape[2] == n_time_points:
                     for i_time_point in range(n_time_points):
-                        res_mat[:, :, i_time_point] = a_arr[:, :, i_time_point] @ b_arr[:, :, i_time_point]
+                        res_mat[:, :, i_time_point] = mult_func(a_arr[:, :, i_time_point], b_arr[:, :, i_time_point])
                 elif b_shape[2] == 1:
                     for i_time_point in range(n_time_points):
-                        res_mat[:, :, i_time_point] = a_arr[:, :, i_time_point] @ b_arr
+                        res_mat[:, :, i_time_point] = mult_func(a_arr[:, :, i_time_point], b_arr[:, :, 0])
                 else:
                     throw_error('wrongInput', 'Incorrect size of b_arr')
             else:
-- 
2.43.0


From 39584447a5a96f3add944d1c464236e9484a44c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:19 +0000
Subject: [PATCH 05/49] fix: plain matrices in MatVector.pinv and
 make_symmetric

pinv raised for a plain matrix and make_symmetric broadcast it to a three-dimensional array of wrong values.
---
 products/ellipy/gras/gen/gen.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index 9b26965..c397b96 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -85,14 +85,16 @@ class MatVector:
 
     @staticmethod
     def make_symmetric(data_arr: np.ndarray) -> np.ndarray:
+        if data_arr.ndim == 2:
+            data_arr = np.expand_dims(data_arr, 2)
         ret_arr = 0.5 * (data_arr + MatVector.transpose(data_arr))
         return ret_arr
 
     @staticmethod
     def pinv(data_arr: np.ndarray) -> np.ndarray:
-        arr_size = data_arr.shape
         if data_arr.ndim == 2:
-            arr_size = (arr_size[0], arr_size[1], 1)
+            data_arr = np.expand_dims(data_arr, 2)
+        arr_size = data_arr.shape
         inv_data_array = np.zeros((arr_size[1], arr_size[0], arr_size[2]), dtype=np.float64)
         for t in range(arr_size[2]):
             inv_data_array[:, :, t] = np.linalg.pinv(data_arr[:, :, t])
-- 
2.43.0


From b884943aa88da0ab456df2de9f0e7026087324c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:19 +0000
Subject: [PATCH 06/49] fix: 1x1 and NaN slices in SquareMatVector.sqrtm_pos

Squeezing a 1x1 slice made it dimensionless and it was rejected; a NaN slice was still passed to the root.
---
 products/ellipy/gras/gen/gen.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index c397b96..79f739a 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -332,7 +332,8 @@ class SquareMatVector(MatVector):
             for t in range(size_vec[2]):
                 if np.isnan(data_arr[:, :, t]).any():
                     sqrt_data_array[:, :, t] = np.NaN
-                sqrt_data_array[:, :, t] = sqrtm_pos(np.squeeze(data_arr[:, :, t]))
+                else:
+                    sqrt_data_array[:, :, t] = sqrtm_pos(data_arr[:, :, t])
         return sqrt_data_array
 
     @staticmethod
-- 
2.43.0


From d488bae87f6410b8bae522cd3e62097d97988fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:19 +0000
Subject: [PATCH 07/49] fix: do not reshape the argument of lr_multiply_by_vec
 and lr_divide_vec in place

---
 products/ellipy/gras/gen/gen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index 79f739a..b12c322 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -421,7 +421,7 @@ class SquareMatVector(MatVector):
     @staticmethod
     def lr_multiply_by_vec(inp_b_arr: np.ndarray, inp_a_arr: np.ndarray) -> np.ndarray:
         if inp_a_arr.ndim == 1:
-            inp_a_arr.shape = (inp_a_arr.size, 1)
+            inp_a_arr = inp_a_arr.reshape((inp_a_arr.size, 1))
         a_size_vec = inp_a_arr.shape
         if inp_b_arr.ndim == 2:
             out_vec = np.zeros((1, inp_a_arr.shape[1]))
@@ -436,7 +436,7 @@ class SquareMatVector(MatVector):
     @staticmethod
     def lr_divide_vec(inp_b_arr: np.ndarray, inp_a_arr: np.ndarray) -> np.ndarray:
         if inp_a_arr.ndim == 1:
-            inp_a_arr.shape = (inp_a_arr.size, 1)
+            inp_a_arr = inp_a_arr.reshape((inp_a_arr.size, 1))
         if inp_b_arr.ndim == 2:
             out_vec = inp_a_arr.T @ np.linalg.lstsq(inp_b_arr, inp_a_arr, -1)[0]
         else:
-- 
2.43.0


From 609dd625a366511ed742e6dff28603f484166d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:30 +0000
Subject: [PATCH 08/49] fix: is_internal for lists and arrays of ellipsoids of
 any shape

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index bc143aa..6928bd0 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -411,13 +411,13 @@ class Ellipsoid(AEllipsoid):
     def is_internal(cls, ell_arr: Union[Iterable, np.ndarray],
                     mat_of_vec_mat: np.ndarray, mode: str) -> np.ndarray:
         def is_int_single_vec(ell_arr_in, x_vec, mode_in) -> bool:
-            def f_single_case(sing_ell: np.ndarray, abs_tol: np.float64) -> bool:
+            def f_single_case(sing_ell, abs_tol: np.float64) -> bool:
                 from ellipy.gras.geom.ell.ell import inv_mat
                 is_pos = False
-                c_vec = (x_vec - np.array([sing_ell.flat[0].get_center_vec().T])).T
-                sh_mat = sing_ell.flat[0].get_shape_mat()
+                c_vec = (x_vec - np.array([sing_ell.get_center_vec().T])).T
+                sh_mat = sing_ell.get_shape_mat()
 
-                if sing_ell.flat[0].is_degenerate([sing_ell]).flat[0]:
+                if sing_ell.is_degenerate([sing_ell]).flat[0]:
                     if Properties.get_is_verbose():
                         logger = get_logger()
                         logger.info('ISINTERNAL: Warning! There is degenerate ellipsoid in the array.')
@@ -445,6 +445,7 @@ class Ellipsoid(AEllipsoid):
         cls._check_is_me(ell_arr, 'first')
         if not is_numeric(mat_of_vec_mat):
             throw_error('wrongInput', 'The second input argument must be a numeric matrix.')
+        ell_arr = np.array(ell_arr).flatten()
         if ell_arr.size == 0:
             throw_error('wrongInput:emptyArray', 'Each array must be not empty.')
         if np.any(cls.is_empty(np.ravel(ell_arr))):
-- 
2.43.0


From d214a8258c7ee7759065baec6595916f623367f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:47 +0000
Subject: [PATCH 09/49] fix: copies of hyperplanes keep rel_tol

---
 products/ellipy/elltool/core/hyperplane/Hyperplane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/hyperplane/Hyperplane.py b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
index 1c1884a..97e0b5e 100644
--- a/products/ellipy/elltool/core/hyperplane/Hyperplane.py
+++ b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
@@ -91,7 +91,7 @@ class Hyperplane(ABasicEllipsoid):
 
     def _get_single_copy(self):
         normal_vec, shift = self.parameters()
-        return self.__class__(normal_vec, shift, abs_tol=self._abs_tol)
+        return self.__class__(normal_vec, shift, abs_tol=self._abs_tol, rel_tol=self._rel_tol)
 
     @classmethod
     def contains(cls, hyp_arr: Union[Iterable, np.ndarray], x_arr: np.ndarray) -> np.ndarray:
-- 
2.43.0


From ac7bbf22324fe050fa784b927adf4ce8898dcf59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:47 +0000
Subject: [PATCH 10/49] fix: get_copy of a one-element array keeps its shape

---
 .../elltool/core/abasicellipsoid/ABasicEllipsoid.py  | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py b/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py
index e38912e..2e6924f 100644
--- a/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py
+++ b/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py
@@ -226,15 +226,11 @@ class ABasicEllipsoid(ABC):
             return np.copy(ell_arr)
         ell_shape_vec = ell_arr.shape
         ell_arr = ell_arr.flatten()
-        if ell_arr.size == 1:
+        copy_ell_arr = np.empty((n_elems,), dtype=np.object)
+        for i_elem in range(n_elems):
             # noinspection PyProtectedMember
-            return np.array(ell_arr[0]._get_single_copy())
-        else:
-            copy_ell_arr = np.empty((n_elems,), dtype=np.object)
-            for i_elem in range(n_elems):
-                # noinspection PyProtectedMember
-                copy_ell_arr[i_elem] = ell_arr[i_elem]._get_single_copy()
-            return np.reshape(copy_ell_arr, ell_shape_vec)
+            copy_ell_arr[i_elem] = ell_arr[i_elem]._get_single_copy()
+        return np.reshape(copy_ell_arr, ell_shape_vec)
 
     @classmethod
     def is_empty(cls, ell_arr: Union[Iterable, np.ndarray]) -> np.ndarray:
-- 
2.43.0


From 3bf7546f4e1483c4d02f29b8d015f81e766d27b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:15 +0000
Subject: [PATCH 11/49] fix: rho of degenerate ellipsoids in directions of zero
 width

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py |  2 +-
 products/ellipy/gras/geom/ell/ell.py                | 11 +++++------
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index 6928bd0..4422456 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -591,7 +591,7 @@ class Ellipsoid(AEllipsoid):
     def rho(cls, ell_arr: Union[Iterable, np.ndarray], dirs_arr: np.ndarray) -> Tuple[np.ndarray, np.ndarray]:
         def f_rho_for_dir(ell_obj, dir_vec: np.ndarray) -> Tuple[np.ndarray, np.ndarray]:
             c_vec, e_mat = ell_obj.double()
-            a_tol = ell_obj.get_abs_tol(ell_obj)
+            _, a_tol = ell_obj.get_abs_tol(ell_obj)
             sup_fun, x_vec = rho_mat(e_mat, dir_vec, a_tol, c_vec.reshape(-1, 1))
             return sup_fun, x_vec
 
diff --git a/products/ellipy/gras/geom/ell/ell.py b/products/ellipy/gras/geom/ell/ell.py
index 35644bd..2b0fece 100644
--- a/products/ellipy/gras/geom/ell/ell.py
+++ b/products/ellipy/gras/geom/ell/ell.py
@@ -104,10 +104,10 @@ def rho_mat(ell_shape_mat: np.ndarray, dirs_mat: np.ndarray,
         ell_center_vec = np.zeros((m, 1))
     nd = dirs_mat.shape[1]
     if nd == 1:
-        sq = sqrt_pos(dirs_mat.T @ ell_shape_mat @ dirs_mat)
+        sq = sqrt_pos(dirs_mat.T @ ell_shape_mat @ dirs_mat, abs_tol)
         sup_arr = ell_center_vec.T @ dirs_mat + sq
         bp_mat = (ell_shape_mat @ dirs_mat) / sq
-        if np.any(np.isnan(bp_mat)):
+        if not np.all(np.isfinite(bp_mat)):
             bp_mat[:] = 0.
         bp_mat = bp_mat + ell_center_vec
     else:
@@ -115,9 +115,8 @@ def rho_mat(ell_shape_mat: np.ndarray, dirs_mat: np.ndarray,
                                    axis=1), abs_tol).T
         sup_arr = ell_center_vec.T @ dirs_mat + temp_mat
         bp_mat = ell_shape_mat @ dirs_mat / np.tile(temp_mat, (m, 1))
-        is_nan_bp_mat = np.isnan(bp_mat)
-        is_nan_vec = np.any(is_nan_bp_mat, 0)
-        if np.any(is_nan_vec):
-            bp_mat[:, is_nan_vec] = 0.
+        is_bad_vec = np.any(~np.isfinite(bp_mat), 0)
+        if np.any(is_bad_vec):
+            bp_mat[:, is_bad_vec] = 0.
         bp_mat = bp_mat + np.tile(ell_center_vec, (1, nd))
     return sup_arr, bp_mat
-- 
2.43.0


From b8bdc45b0de2fd75f5ff3bfa963c7b1646472910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:15 +0000
Subject: [PATCH 12/49] fix: rho for a one-dimensional array of ellipsoids and
 as many directions

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index 4422456..5c80159 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -609,7 +609,7 @@ class Ellipsoid(AEllipsoid):
         n_dirs = np.prod(dir_size_vec[1:])
         #
         if not (is_one_ell or is_one_dir or n_ell == n_dirs and
-                (ell_size_vec[0] == 1 or ell_size_vec[1] == 1) and
+                np.max(ell_size_vec) == n_ell and
                 len(dir_size_vec) == 2 or np.all(ell_size_vec == dir_size_vec[1:])):
             throw_error('wrongInput:wrongSizes', 'arguments must be single ellipsoid or single ' +
                         'direction vector or arrays of almost the same sizes')
-- 
2.43.0


From c8821a2482bb97712c8db7ead0d3a2dc4a5af34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:43 +0000
Subject: [PATCH 13/49] fix: negation keeps the properties of ellipsoids and
 hyperplanes

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py   | 5 +++--
 products/ellipy/elltool/core/hyperplane/Hyperplane.py | 6 ++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index 5c80159..641d381 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -711,8 +711,9 @@ class Ellipsoid(AEllipsoid):
             ell_flat_arr = ell_arr.flatten()
 
             def f_single_uminus(ell_obj):
-                return ell_obj.__class__(-ell_obj.get_center_vec(),
-                                         ell_obj.get_shape_mat())
+                res_ell = ell_obj._get_single_copy()
+                res_ell._center_vec = -res_ell._center_vec
+                return res_ell
 
             return np.reshape(np.array(list(map(f_single_uminus, ell_flat_arr))), newshape=size_vec)
 
diff --git a/products/ellipy/elltool/core/hyperplane/Hyperplane.py b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
index 97e0b5e..131bcc1 100644
--- a/products/ellipy/elltool/core/hyperplane/Hyperplane.py
+++ b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
@@ -304,8 +304,10 @@ class Hyperplane(ABasicEllipsoid):
             hyp_flat_arr = hyp_arr.flatten()
 
             def set_single_prop(hyp_elem):
-                return hyp_elem.__class__(-hyp_elem.parameters()[0],
-                                          -hyp_elem.parameters()[1])
+                res_hyp = hyp_elem._get_single_copy()
+                res_hyp._normal_vec = -res_hyp._normal_vec
+                res_hyp._shift = -res_hyp._shift
+                return res_hyp
 
             return np.reshape(np.array(list(map(set_single_prop, hyp_flat_arr))), newshape=size_vec)
 
-- 
2.43.0


From 1eab097e755101d8961286a8b2d9f1032264feaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:43 +0000
Subject: [PATCH 14/49] fix: hyperplanes are parallel only when all components
 of the normals agree

---
 products/ellipy/elltool/core/hyperplane/Hyperplane.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/elltool/core/hyperplane/Hyperplane.py b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
index 131bcc1..8a5236c 100644
--- a/products/ellipy/elltool/core/hyperplane/Hyperplane.py
+++ b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
@@ -210,9 +210,9 @@ class Hyperplane(ABasicEllipsoid):
             if np.array_equal(np.shape(first_hyp_norm_vec), np.shape(sec_hyp_norm_vec)):
                 first_hyp_norm_vec /= np.linalg.norm(first_hyp_norm_vec)
                 sec_hyp_norm_vec /= np.linalg.norm(sec_hyp_norm_vec)
-                if np.max(np.abs(first_hyp_norm_vec - sec_hyp_norm_vec) < first_hyp_abs_tol):
+                if np.max(np.abs(first_hyp_norm_vec - sec_hyp_norm_vec)) < first_hyp_abs_tol:
                     is_pos = True
-                elif np.max(np.abs(first_hyp_norm_vec + sec_hyp_norm_vec) < first_hyp_abs_tol):
+                elif np.max(np.abs(first_hyp_norm_vec + sec_hyp_norm_vec)) < first_hyp_abs_tol:
                     is_pos = True
             return is_pos
 
-- 
2.43.0


From a8f4b7b2e0eb9c24cdd138d444aefc3653a47fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:43 +0000
Subject: [PATCH 15/49] fix: is_parallel for one hyperplane against an array

---
 products/ellipy/elltool/core/hyperplane/Hyperplane.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/products/ellipy/elltool/core/hyperplane/Hyperplane.py b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
index 8a5236c..8cdc02a 100644
--- a/products/ellipy/elltool/core/hyperplane/Hyperplane.py
+++ b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
@@ -221,6 +221,10 @@ class Hyperplane(ABasicEllipsoid):
                 (np.size(sec_hyp_arr) == 1)):
             throw_error('wrongSizes', 'Sizes of hyperplane arrays do not match.')
 
+        if np.size(first_hyp_arr) == 1 and np.size(sec_hyp_arr) != 1:
+            first_hyp_arr = np.reshape(np.repeat(first_hyp_arr.flatten(), sec_hyp_arr.size), sec_hyp_arr.shape)
+        elif np.size(sec_hyp_arr) == 1 and np.size(first_hyp_arr) != 1:
+            sec_hyp_arr = np.reshape(np.repeat(sec_hyp_arr.flatten(), first_hyp_arr.size), first_hyp_arr.shape)
         first_hyp_abs_tol_arr = cls.get_abs_tol(first_hyp_arr, f_prop_fun=None).flatten()
 
         is_pos_arr = np.reshape(np.array([is_sing_parallel(x, y, z)
-- 
2.43.0


From a91ab7bf4c7473b274afacfaeece838ed1275501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:43 +0000
Subject: [PATCH 16/49] fix: hyperplanes through the origin with opposite
 normals are the same set

---
 products/ellipy/elltool/core/hyperplane/Hyperplane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/hyperplane/Hyperplane.py b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
index 8cdc02a..369bef0 100644
--- a/products/ellipy/elltool/core/hyperplane/Hyperplane.py
+++ b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
@@ -261,7 +261,7 @@ class Hyperplane(ABasicEllipsoid):
                 norm_mult = 1. / np.linalg.norm(hp_norm_vec)
                 hp_norm_vec = hp_norm_vec * norm_mult
                 hp_scal = hp_scal * norm_mult
-                if hp_scal < 0.:
+                if hp_scal < 0. or hp_scal == 0. and hp_norm_vec[np.flatnonzero(hp_norm_vec)[:1]] < 0.:
                     hp_scal = -hp_scal
                     hp_norm_vec = -hp_norm_vec
                 hp_dict = {
-- 
2.43.0


From 6f790325c3db4d9bb2d9ff9fc01d0899e20421df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:43 +0000
Subject: [PATCH 17/49] fix: comparison of a single object with an array of any
 number of axes

---
 .../ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py b/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py
index 2e6924f..ded2d89 100644
--- a/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py
+++ b/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py
@@ -192,9 +192,9 @@ class ABasicEllipsoid(ABC):
         ell2_dict_arr = np.reshape(np.array(ell2_dict_list), sec_shape_vec)
         if not (isn_first_scalar and isn_sec_scalar):
             if isn_first_scalar:
-                ell2_dict_arr = np.tile(ell2_dict_arr, list(first_shape_vec))
+                ell2_dict_arr = np.reshape(np.repeat(ell2_dict_arr.flatten(), ell1_dict_arr.size), first_shape_vec)
             else:
-                ell1_dict_arr = np.tile(ell1_dict_arr, list(sec_shape_vec))
+                ell1_dict_arr = np.reshape(np.repeat(ell1_dict_arr.flatten(), ell2_dict_arr.size), sec_shape_vec)
         is_eq_arr, report_str = dict_compare_vec(ell1_dict_arr, ell2_dict_arr, abs_tol, rel_tol)
         if isn_first_scalar:
             is_eq_arr = np.reshape(is_eq_arr, first_shape_vec)
-- 
2.43.0


From d2bda381d2aa7f51dde002b21f66293856b1e79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:43 +0000
Subject: [PATCH 18/49] fix: lists and arrays of different sizes are different
 in dict_compare

---
 products/ellipy/gen/dict/dict.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/products/ellipy/gen/dict/dict.py b/products/ellipy/gen/dict/dict.py
index 5682870..4cf4a57 100644
--- a/products/ellipy/gen/dict/dict.py
+++ b/products/ellipy/gen/dict/dict.py
@@ -114,6 +114,10 @@ def dict_compare_vec(dict_x_arr: np.ndarray, dict_y_arr: np.ndarray,
                         if not is_comp_eq:
                             return False, comp_report_str
                     else:
+                        if np.shape(x) != np.shape(y) if x_type == np.ndarray else len(x) != len(y):
+                            return False, 'Different sizes'
+                        if x_type == np.ndarray:
+                            x, y = x.flatten(), y.flatten()
                         n_comp_elems = len(x)
                         if n_comp_elems == 0:
                             return True, ''
-- 
2.43.0


From 29e389097307079d49aa0118532e5121bf5bad3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:43 +0000
Subject: [PATCH 19/49] fix: dict_compare for boolean values

---
 products/ellipy/gen/dict/dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/gen/dict/dict.py b/products/ellipy/gen/dict/dict.py
index 4cf4a57..a01834c 100644
--- a/products/ellipy/gen/dict/dict.py
+++ b/products/ellipy/gen/dict/dict.py
@@ -84,7 +84,7 @@ def dict_compare_vec(dict_x_arr: np.ndarray, dict_y_arr: np.ndarray,
                     if x_shape_vec != y_shape_vec:
                         comp_report_str = 'Different sizes (left: {}, right: {})'.format(x_shape_vec, y_shape_vec)
                         return False, comp_report_str
-                    if x_dtype in 'ui':
+                    if x_dtype in 'bui':
                         x_arr = np.array(x_arr, dtype=np.float)
                         y_arr = np.array(y_arr, dtype=np.float)
                     if x_dtype == 'fc':
-- 
2.43.0


From 8408b183bd0957727107bae4252a998d44a75173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:43 +0000
Subject: [PATCH 20/49] fix: dict_compare for empty arrays of dictionaries

---
 products/ellipy/gen/dict/dict.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/products/ellipy/gen/dict/dict.py b/products/ellipy/gen/dict/dict.py
index a01834c..aa96d63 100644
--- a/products/ellipy/gen/dict/dict.py
+++ b/products/ellipy/gen/dict/dict.py
@@ -148,6 +148,8 @@ def dict_compare_vec(dict_x_arr: np.ndarray, dict_y_arr: np.ndarray,
                     sc_report_str_list.append(cur_report_str)
             return is_sc_eq, sc_report_str_list
 
+        if len(dict_x_list) == 0:
+            return [], []
         is_out_eq_list, out_report_str_list_list = \
             zip(*[dict_compare_scalar(dict_x, dict_y, inp_abs_tol, inp_rel_tol) for
                   (dict_x, dict_y) in zip(dict_x_list, dict_y_list)])
-- 
2.43.0


From eaf03c5c1e186f7ec891480f4ac7f590dd257f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:14 +0000
Subject: [PATCH 21/49] fix: abs_rel_compare keeps imaginary parts next to
 non-finite elements

---
 products/ellipy/gen/common/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/gen/common/common.py b/products/ellipy/gen/common/common.py
index fe0e358..4f06ef1 100644
--- a/products/ellipy/gen/common/common.py
+++ b/products/ellipy/gen/common/common.py
@@ -142,8 +142,8 @@ def abs_rel_compare(left_arr: np.ndarray, right_arr: np.ndarray,
     if is_equal:
         isn_finite_mat = ~np.isfinite(left_arr)
         if np.any(isn_finite_mat.flatten()):
-            left_arr = np.array(left_arr, dtype=np.float64, copy=True)
-            right_arr = np.array(right_arr, dtype=np.float64, copy=True)
+            left_arr = np.array(left_arr, copy=True)
+            right_arr = np.array(right_arr, copy=True)
             left_arr[isn_finite_mat] = 0.
             right_arr[isn_finite_mat] = 0.
 
-- 
2.43.0


From ed65544a7c2061ccc13ed763c2f49a3eb0b1cbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:53 +0000
Subject: [PATCH 22/49] fix: is_equal with properties included

---
 products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py b/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py
index ded2d89..1eb425e 100644
--- a/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py
+++ b/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py
@@ -178,7 +178,7 @@ class ABasicEllipsoid(ABC):
                 if field_val_arr.size == 0:
                     comp_dict[field_nice_name] = np.zeros((0,), dtype=np.float64)
                 else:
-                    f_transform_func = field_transform_func_dict[field_name]
+                    f_transform_func = field_transform_func_dict.get(field_name, lambda z: z)
                     comp_dict[field_nice_name] = f_transform_func(field_val_arr)
             return comp_dict
 
-- 
2.43.0


From e37245b4ae50d43477cd83100a92bf91b026b183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:59 +0000
Subject: [PATCH 23/49] fix: projection rejects basis vectors at obtuse angles

---
 products/ellipy/elltool/core/aellipsoid/AEllipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py b/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py
index e3ef30f..deabf4e 100644
--- a/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py
+++ b/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py
@@ -57,7 +57,7 @@ class AEllipsoid(ABasicEllipsoid, ABC):
             sc_prod_mat = basis_mat.T @ basis_mat
             norm_sq_vec = np.diag(sc_prod_mat)
             _, abs_tol = cls.get_abs_tol(ell_arr, lambda z: np.max(z))
-            is_orthogonal_mat = (sc_prod_mat - np.diag(norm_sq_vec)) > abs_tol
+            is_orthogonal_mat = np.abs(sc_prod_mat - np.diag(norm_sq_vec)) > abs_tol
             if np.any(is_orthogonal_mat.flatten()):
                 throw_error('wrongInput', 'basis vectors must be orthogonal')
             # normalize the basis vectors
-- 
2.43.0


From d80be50801b98d6acb2a30f8a3a4f02a45cdb103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:59 +0000
Subject: [PATCH 24/49] fix: ell_sim_diag accepts matrices symmetric up to the
 tolerance

---
 products/ellipy/elltool/core/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/core.py b/products/ellipy/elltool/core/core.py
index 3ce92be..9b5a758 100644
--- a/products/ellipy/elltool/core/core.py
+++ b/products/ellipy/elltool/core/core.py
@@ -14,7 +14,7 @@ def ell_sim_diag(a_mat: np.ndarray, b_mat: np.ndarray, abs_tol: float) -> np.nda
         throw_error('wrongInput', 'both arguments must be numeric matrices')
     if not is_mat_pos_def(a_mat, abs_tol):
         throw_error('wrongInput:a_mat', 'first argument must be a symmetric positive definite matrix')
-    if not is_mat_symm(b_mat):
+    if not is_mat_symm(b_mat, abs_tol):
         throw_error('wrongInput:b_mat', 'second argument must be a symmetric matrix')
     if a_mat.shape[0] != b_mat.shape[0]:
         throw_error('wrongInput', 'both matrices must be of the same dimension')
-- 
2.43.0


From 5804cd542a05c46c990ea8cda39eaf60e8335c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:59 +0000
Subject: [PATCH 25/49] fix: regularization of shape matrices symmetric up to
 the tolerance

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index 641d381..bef2d6e 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -122,7 +122,7 @@ class Ellipsoid(AEllipsoid):
     @staticmethod
     def _regularize(q_mat: np.ndarray, reg_tol: float) -> np.ndarray:
         from ellipy.gras.la.la import reg_pos_def_mat
-        return reg_pos_def_mat(q_mat, reg_tol)
+        return reg_pos_def_mat(0.5 * (q_mat + q_mat.T), reg_tol)
 
     @staticmethod
     def _rm_bad_directions(q1_mat: np.ndarray, q2_mat: np.ndarray, dirs_mat: np.ndarray, abs_tol: float) -> np.ndarray:
-- 
2.43.0


From c4c3d85824314e0afa29b36e046fd48ad0e02246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:59 +0000
Subject: [PATCH 26/49] fix: is_bigger with a degenerate first ellipsoid

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index bef2d6e..439ec0d 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -404,7 +404,8 @@ class Ellipsoid(AEllipsoid):
                 logger.info('           Regularizing...')
             first_shape_mat = self._regularize(first_shape_mat, self._abs_tol)
         _, abs_tol = self.get_abs_tol([self, sec_ell], lambda z: np.min(z))
-        t_mat = ell_sim_diag(first_shape_mat, sec_shape_mat, abs_tol)
+        # eigenvalues of a regularized matrix equal the tolerance, keep them above it
+        t_mat = ell_sim_diag(first_shape_mat, sec_shape_mat, 0.5 * abs_tol)
         return np.max(np.abs(np.diag(t_mat @ sec_shape_mat @ t_mat.T))) < (1 + self._abs_tol)
 
     @classmethod
-- 
2.43.0


From f01a9c3eb2f618c5c9cf59942977f8866f02aa7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:59 +0000
Subject: [PATCH 27/49] fix: ell_valign for vectors of dimension one

---
 products/ellipy/elltool/core/core.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/products/ellipy/elltool/core/core.py b/products/ellipy/elltool/core/core.py
index 9b5a758..ddd31de 100644
--- a/products/ellipy/elltool/core/core.py
+++ b/products/ellipy/elltool/core/core.py
@@ -49,15 +49,8 @@ def ell_valign(v: np.ndarray, x: np.ndarray) -> np.ndarray:
     if x.size != max(x.shape):
         throw_error('wrongInput:x', 'ELL_VALIGN: second argument must be a vector.')
 
-    if v.ndim == 0:
-        v = np.expand_dims(v, axis=0)
-    else:
-        v = np.squeeze(v)
-
-    if x.ndim == 0:
-        x = np.expand_dims(x, axis=0)
-    else:
-        x = np.squeeze(x)
+    v = v.flatten()
+    x = x.flatten()
 
     if v.shape[0] != x.shape[0]:
         throw_error('wrongInput:v,x', 'ELL_VALIGN: both vectors must be of the same dimension.')
-- 
2.43.0


From da0f9b26f5700e2a7089487c642cca9537eae002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:57 +0000
Subject: [PATCH 28/49] fix: ell_sim_diag diagonalises indefinite second
 matrices

---
 products/ellipy/elltool/core/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/core.py b/products/ellipy/elltool/core/core.py
index ddd31de..d117382 100644
--- a/products/ellipy/elltool/core/core.py
+++ b/products/ellipy/elltool/core/core.py
@@ -21,7 +21,10 @@ def ell_sim_diag(a_mat: np.ndarray, b_mat: np.ndarray, abs_tol: float) -> np.nda
 
     u1_mat, s_vec, _ = np.linalg.svd(a_mat, full_matrices=True)
     u_mat = np.linalg.lstsq(sqrtm_pos(np.diag(s_vec), abs_tol).T, u1_mat.T, -1)[0].T
-    u2_mat, _, _ = np.linalg.svd(u_mat.T @ b_mat @ u_mat)
+    c_mat = u_mat.T @ b_mat @ u_mat
+    # singular vectors of an indefinite matrix are not always its eigenvectors
+    eig_vec, u2_mat = np.linalg.eigh(0.5 * (c_mat + c_mat.T))
+    u2_mat = u2_mat[:, np.argsort(-np.abs(eig_vec))]
     return u2_mat.T @ u_mat.T
 
 
-- 
2.43.0


From 277d113208d42275aa30fa9eda6b20f0fa8b6355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:57 +0000
Subject: [PATCH 29/49] fix: is_bigger for shape matrices symmetric up to the
 tolerance

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index 439ec0d..4dab9be 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -404,6 +404,8 @@ class Ellipsoid(AEllipsoid):
                 logger.info('           Regularizing...')
             first_shape_mat = self._regularize(first_shape_mat, self._abs_tol)
         _, abs_tol = self.get_abs_tol([self, sec_ell], lambda z: np.min(z))
+        first_shape_mat = 0.5 * (first_shape_mat + first_shape_mat.T)
+        sec_shape_mat = 0.5 * (sec_shape_mat + sec_shape_mat.T)
         # eigenvalues of a regularized matrix equal the tolerance, keep them above it
         t_mat = ell_sim_diag(first_shape_mat, sec_shape_mat, 0.5 * abs_tol)
         return np.max(np.abs(np.diag(t_mat @ sec_shape_mat @ t_mat.T))) < (1 + self._abs_tol)
-- 
2.43.0


From f6204e837ebc7fafe4b28c23ca036bb58f05c58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:45 +0000
Subject: [PATCH 30/49] fix: projection of shape matrices symmetric up to the
 tolerance

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index 4dab9be..4dbf7fa 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -209,7 +209,8 @@ class Ellipsoid(AEllipsoid):
         pass
 
     def _projection_single_internal(self, ort_basis_mat: np.ndarray):
-        self._shape_mat = ort_basis_mat.T @ self.get_shape_mat() @ ort_basis_mat
+        shape_mat = ort_basis_mat.T @ self.get_shape_mat() @ ort_basis_mat
+        self._shape_mat = 0.5 * (shape_mat + shape_mat.T)
         self._center_vec = ort_basis_mat.T @ self.get_center_vec()
 
     @classmethod
-- 
2.43.0


From 8311f4ac259c3735e0c2db573707d32a56bfc060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:07 +0000
Subject: [PATCH 31/49] fix: volumes of arrays with degenerate ellipsoids

---
 products/ellipy/elltool/core/aellipsoid/AEllipsoid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py b/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py
index deabf4e..755b2f1 100644
--- a/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py
+++ b/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py
@@ -136,9 +136,9 @@ class AEllipsoid(ABasicEllipsoid, ABC):
         if np.any(cls.is_empty(ell_arr_flatten)):
             throw_error('wrongInput:emptyEllipsoid', 'input argument contains empty ellipsoid')
 
-        def f_single_volume(ell_obj) -> np.ndarray:
+        def f_single_volume(ell_obj) -> float:
             if cls.is_degenerate(ell_obj):
-                return np.array([0.0])
+                return 0.0
             else:
                 q_mat = ell_obj.get_shape_mat()
                 n_dim = cls.dimension(ell_obj)
-- 
2.43.0


From e1c8de1a4f1939c56c3249c8ea78c659929c2013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:07 +0000
Subject: [PATCH 32/49] fix: ranks of empty ellipsoids and of empty arrays

---
 products/ellipy/elltool/core/aellipsoid/AEllipsoid.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py b/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py
index 755b2f1..7792b95 100644
--- a/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py
+++ b/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py
@@ -160,10 +160,9 @@ class AEllipsoid(ABasicEllipsoid, ABC):
         ell_list = list(ell_arr.flatten())
         ell_shape_vec = ell_arr.shape
         if return_rank:
-            ndim_list, rank_list = zip(*[
-                (np.size(ell_obj.get_center_vec()), np.linalg.matrix_rank(ell_obj.get_shape_mat()))
-                for ell_obj in ell_list
-            ])
+            ndim_list = [np.size(ell_obj.get_center_vec()) for ell_obj in ell_list]
+            rank_list = [np.linalg.matrix_rank(ell_obj.get_shape_mat()) if n_dim > 0 else 0
+                         for n_dim, ell_obj in zip(ndim_list, ell_list)]
             return np.reshape(np.array(ndim_list), ell_shape_vec), np.reshape(np.array(rank_list), ell_shape_vec)
         else:
             ndim_list = [np.size(ell_obj.get_center_vec()) for ell_obj in ell_list]
-- 
2.43.0


From c97c8499f9fdf218d719ceaef3ee028f71a55bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:50 +0000
Subject: [PATCH 33/49] fix: orthogonal translations of a flat vector onto a
 column

---
 products/ellipy/gras/la/la.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/products/ellipy/gras/la/la.py b/products/ellipy/gras/la/la.py
index 815569f..42887cf 100644
--- a/products/ellipy/gras/la/la.py
+++ b/products/ellipy/gras/la/la.py
@@ -78,9 +78,9 @@ def ml_orth_transl(src_mat: np.ndarray, dst_arr: np.ndarray) -> np.ndarray:
 
 def orth_transl(src_vec: np.ndarray, dst_vec: np.ndarray) -> np.ndarray:
     __ABS_TOL = 1e-7
-    n_dims = dst_vec.shape[0]
-    src_vec = try_treat_as_real(src_vec)
-    dst_vec = try_treat_as_real(dst_vec)
+    src_vec = np.ravel(try_treat_as_real(src_vec))
+    dst_vec = np.ravel(try_treat_as_real(dst_vec))
+    n_dims = dst_vec.size
     dst_squared_norm = np.sum(dst_vec * dst_vec)
     src_squared_norm = np.sum(src_vec * src_vec)
 
@@ -95,9 +95,9 @@ def orth_transl(src_vec: np.ndarray, dst_vec: np.ndarray) -> np.ndarray:
     scal_prod = np.sum(src_vec * dst_vec)
     s_val = np.sqrt(np.maximum(1.0 - scal_prod * scal_prod, 0.0))
     q_mat = np.zeros((n_dims, 2), dtype=np.float64)
-    q_mat[:, 0] = np.squeeze(dst_vec)
+    q_mat[:, 0] = dst_vec
     if np.abs(s_val) > __ABS_TOL:
-        q_mat[:, 1] = np.squeeze((src_vec - scal_prod * dst_vec) / s_val)
+        q_mat[:, 1] = (src_vec - scal_prod * dst_vec) / s_val
     else:
         q_mat[:, 1] = 0.0
 
@@ -109,11 +109,11 @@ def orth_transl(src_vec: np.ndarray, dst_vec: np.ndarray) -> np.ndarray:
 def orth_transl_haus(src_vec: np.ndarray, dst_vec: np.ndarray) -> np.ndarray:
 
     __MAX_TOL = 1e-14
+    src_vec = np.ravel(src_vec)
+    dst_vec = np.ravel(dst_vec)
     src_norm_vec = src_vec / np.sqrt(np.sum(src_vec ** 2))
     dst_norm_vec = dst_vec / np.sqrt(np.sum(dst_vec ** 2))
-    w_vec = src_norm_vec - dst_norm_vec
-    if w_vec.ndim == 1:
-        w_vec = np.expand_dims(w_vec, 1)
+    w_vec = np.expand_dims(src_norm_vec - dst_norm_vec, 1)
     w_norm = np.sum(w_vec ** 2)
     if w_norm < __MAX_TOL:
         r_mult = 0
-- 
2.43.0


From 4d18d5559d9457dd3418e0aea679ec73d9b536b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:50 +0000
Subject: [PATCH 34/49] fix: orth_transl_qr of parallel vectors

---
 products/ellipy/gras/la/la.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/gras/la/la.py b/products/ellipy/gras/la/la.py
index 42887cf..13b9113 100644
--- a/products/ellipy/gras/la/la.py
+++ b/products/ellipy/gras/la/la.py
@@ -197,7 +197,7 @@ def orth_transl_qr(src_vec: np.ndarray, dst_vec: np.ndarray) -> np.ndarray:
     else:
         q_mat, r_mat = np.linalg.qr(np.hstack((dst_vec, src_vec)))
         cos_val = dst_vec.T @ src_vec / np.sqrt(dst_squared_norm * src_squared_norm)
-        sin_val = -np.sqrt(1 - cos_val * cos_val)
+        sin_val = -np.sqrt(np.maximum(1 - cos_val * cos_val, 0.))
         if r_mat[0, 0] * r_mat[1, 1] < 0.:
             sin_val = -sin_val
 
-- 
2.43.0


From f4098890268dbbf43f854fa4ae273956321eefdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:50 +0000
Subject: [PATCH 35/49] fix: maximising orthogonal translations in dimension
 one

---
 products/ellipy/gras/la/la.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/gras/la/la.py b/products/ellipy/gras/la/la.py
index 13b9113..12c8d6f 100644
--- a/products/ellipy/gras/la/la.py
+++ b/products/ellipy/gras/la/la.py
@@ -144,7 +144,7 @@ def orth_transl_max_dir(src_vec: np.ndarray, dst_vec: np.ndarray,
             o1_dst_mat[:, 0] = -o1_dst_mat[:, 0]
         o_mat = u_0_mat @ o1_dst_mat @ o1_src_mat.T @ v_0_mat.T + (b_vec.reshape(-1, 1)) * a_vec
     else:
-        o_mat = np.sign(src_vec) * np.sign(dst_vec)
+        o_mat = np.reshape(np.sign(src_vec) * np.sign(dst_vec), (1, 1))
     return o_mat
 
 
@@ -152,7 +152,7 @@ def orth_transl_max_tr(src_vec: np.ndarray, dst_vec: np.ndarray, max_mat: np.nda
 
     n_dims = src_vec.shape[0]
     if n_dims == 1:
-        return np.ones((1, 1))
+        return np.reshape(np.sign(src_vec) * np.sign(dst_vec), (1, 1))
     else:
         e_vec = np.append(np.ones((1, ), dtype=np.float64), np.zeros((n_dims - 1, ), dtype=np.float64))
         o_src_mat = orth_transl(e_vec, src_vec)
-- 
2.43.0


From 01805146f8a92f2d1717f0d6e6204196cfec84e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:27 +0000
Subject: [PATCH 36/49] fix: polar of lists and arrays of ellipsoids of any
 shape

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index 4dbf7fa..daa9783 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -584,11 +584,12 @@ class Ellipsoid(AEllipsoid):
     @classmethod
     def polar(cls, ell_arr: Union[Iterable, np.ndarray]) -> np.ndarray:
         cls._check_is_me(ell_arr)
+        ell_arr = np.array(ell_arr)
         if np.any(cls.is_degenerate(ell_arr)):
             throw_error('degenerateEllipsoid', 'The resulting ellipsoid is not bounded')
-        pol_ell_arr = np.empty((1, ell_arr.size), dtype=cls.__class__)
+        pol_ell_arr = np.empty((ell_arr.size,), dtype=object)
         for i_elem in range(ell_arr.size):
-            pol_ell_arr[i_elem] = cls._get_scalar_polar_internal(ell_arr[i_elem], True)
+            pol_ell_arr[i_elem] = cls._get_scalar_polar_internal(ell_arr.flat[i_elem], True)
         return np.reshape(pol_ell_arr, ell_arr.shape)
 
     @classmethod
-- 
2.43.0


From bb94ee853efdf71000f0371a92be448def650a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:27 +0000
Subject: [PATCH 37/49] fix: polar of ellipsoids off the origin by the plain
 method

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index daa9783..2b08e8d 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -84,7 +84,7 @@ class Ellipsoid(AEllipsoid):
             c_vec, sh_mat = self.double()
             is_zero_in_ell = quad_mat(sh_mat, c_vec, 0, 'invadv')
             if is_zero_in_ell < 1:
-                aux_mat = np.linalg.inv(sh_mat - c_vec @ c_vec.T)
+                aux_mat = np.linalg.inv(sh_mat - np.outer(c_vec, c_vec))
                 aux_mat = (aux_mat + aux_mat.T) / 2
 
                 d_vec, v_mat = np.linalg.eigh(aux_mat)
-- 
2.43.0


From 8369cf4a4143e9669eda056099a48087df8a9179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:28 +0000
Subject: [PATCH 38/49] fix: polar rejects ellipsoids without the origin inside

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index 2b08e8d..ad76bc6 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -76,6 +76,8 @@ class Ellipsoid(AEllipsoid):
             inv_sh_mat = (inv_sh_mat + inv_sh_mat.T)/2
 
             norm_const = quad_mat(sh_mat, c_vec, 0, 'inv')
+            if not norm_const < 1:
+                throw_error('degenerateEllipsoid', 'The resulting ellipsoid is not bounded')
             polar_c_vec = -np.linalg.lstsq(sh_mat, c_vec, -1)[0] / (1.0 - norm_const)
             polar_sh_mat = inv_sh_mat / (1.0 - norm_const) + polar_c_vec * polar_c_vec.T
             polar_obj = self.__class__(polar_c_vec, polar_sh_mat)
-- 
2.43.0


From 8814c14aab8744777bb235b7194bc75b9a36bd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:41 +0000
Subject: [PATCH 39/49] fix: internal approximation of a sum whose first
 ellipsoid is degenerate

---
 .../elltool/core/ellipsoid/Ellipsoid.py       | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index ad76bc6..733ce1e 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -524,8 +524,7 @@ class Ellipsoid(AEllipsoid):
 
     @classmethod
     def minksum_ia(cls, ell_arr: Union[Iterable, np.ndarray], dir_mat: np.ndarray) -> np.ndarray:
-        def f_rot_arr(ell_ind: int) -> Tuple[np.ndarray, np.ndarray]:
-            from ellipy.gras.la.la import ml_orth_transl
+        def f_sqrt_mat(ell_ind: int) -> np.ndarray:
             ell_obj = ell_arr[ell_ind]
             abs_tol = abs_tol_arr[ell_ind]
             sh_mat = ell_obj.get_shape_mat()
@@ -535,9 +534,12 @@ class Ellipsoid(AEllipsoid):
                     logger.info('MINKSUM_IA: Warning! Degenerate ellipsoid.')
                     logger.info('           Regularizing...')
                 sh_mat = cls._regularize(sh_mat, abs_tol)
-            sh_sqrt_mat = sqrtm_pos(sh_mat, abs_tol)
-            dst_mat = sh_sqrt_mat @ dir_mat
-            return sh_sqrt_mat, np.reshape(ml_orth_transl(dst_mat, src_mat), [n_dims, n_dims, n_cols])
+            return sqrtm_pos(sh_mat, abs_tol)
+
+        def f_rot_arr(ell_ind: int) -> np.ndarray:
+            from ellipy.gras.la.la import ml_orth_transl
+            dst_mat = sqrt_sh_arr[ell_ind, :, :] @ dir_mat
+            return np.reshape(ml_orth_transl(dst_mat, src_mat), [n_dims, n_dims, n_cols])
 
         def f_single_direction(dir_ind: int) -> Ellipsoid:
             sub_sh_mat = np.cumsum(np.array(list(map(lambda ell_ind:
@@ -570,10 +572,10 @@ class Ellipsoid(AEllipsoid):
             cent_vec = np.sum(np.array([ell.get_center_vec() for ell in ell_arr]), 0)
             abs_tol_arr = cls.get_abs_tol(ell_arr, f_prop_fun=None).flatten()
 
-            src_mat = sqrtm_pos(ell_arr[0].get_shape_mat(), np.min(abs_tol_arr)) @ dir_mat
-            sqrt_sh_arr, rot_arr = zip(*[f_rot_arr(i) for i in np.arange(0, n_ell)])
-            sqrt_sh_arr = np.array(sqrt_sh_arr)
-            rot_arr = np.array(rot_arr)
+            # square roots of regularized matrices: a degenerate ellipsoid may map the direction to zero
+            sqrt_sh_arr = np.array([f_sqrt_mat(i) for i in np.arange(0, n_ell)])
+            src_mat = sqrt_sh_arr[0, :, :] @ dir_mat
+            rot_arr = np.array([f_rot_arr(i) for i in np.arange(0, n_ell)])
             return np.array([f_single_direction(i) for i in np.arange(0, n_cols)])
 
     @classmethod
-- 
2.43.0


From 1da81fb9d3eb6357eb9deea609887337201a217c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:34 +0000
Subject: [PATCH 40/49] fix: refinement of a triangulation that has one face

---
 products/ellipy/gras/geom/tri/tri.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/products/ellipy/gras/geom/tri/tri.py b/products/ellipy/gras/geom/tri/tri.py
index c96d1f6..34f2431 100644
--- a/products/ellipy/gras/geom/tri/tri.py
+++ b/products/ellipy/gras/geom/tri/tri.py
@@ -117,12 +117,12 @@ def shrink_face_tri(v_mat: np.ndarray, f_mat: np.ndarray,
     # Build Face to Edges map and edge orientation map for each face
     e_mat, f2e_mat, f2e_is_dir_mat = map_face_2_edge(f_mat)
 
+    # a single face is still one row of a matrix
+    f_mat, f2e_mat, f2e_is_dir_mat = (np.reshape(x_arr, (-1, 3)) for x_arr in (f_mat, f2e_mat, f2e_is_dir_mat))
+
     n_verts = np.size(v_mat, 0)
     n_edges = np.size(e_mat, 0)
-    if f_mat.ndim == 1:
-        n_faces = 1
-    else:
-        n_faces = np.size(f_mat, 0)
+    n_faces = np.size(f_mat, 0)
 
     # Build edge distances
     d_mat = v_mat[e_mat[:, 0]] - v_mat[e_mat[:, 1]]
@@ -141,11 +141,7 @@ def shrink_face_tri(v_mat: np.ndarray, f_mat: np.ndarray,
         is_e2orig_part_vec = e_length_vec > max_edge_len
         if np.any(is_e2orig_part_vec) and (i_step <= n_max_steps):
             # Find faces that need to be shortened
-            if n_faces > 1:
-                is_f2part_vec = np.any(is_e2orig_part_vec[f2e_mat], 1)
-            else:
-                # this is because is_e2part_vec(f2e_mat) produces a column-vector for one face
-                is_f2part_vec = np.any(is_e2orig_part_vec[f2e_mat])
+            is_f2part_vec = np.any(is_e2orig_part_vec[f2e_mat], 1)
 
             # Read just indices of partitioned edges
             f2e_part_mat = f2e_mat[is_f2part_vec]
-- 
2.43.0


From 9f4ee6d8db37546c8ea657bfbb4c878012eccc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:03 +0000
Subject: [PATCH 41/49] fix: face-to-edge map of the degenerate faces of a
 partial refinement

---
 products/ellipy/gras/geom/tri/tri.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/products/ellipy/gras/geom/tri/tri.py b/products/ellipy/gras/geom/tri/tri.py
index 34f2431..8b17ccf 100644
--- a/products/ellipy/gras/geom/tri/tri.py
+++ b/products/ellipy/gras/geom/tri/tri.py
@@ -256,7 +256,8 @@ def shrink_face_tri(v_mat: np.ndarray, f_mat: np.ndarray,
             ind_v_mid_e_broken_nut_kept_vec = ind_e_part_vec[is_e2part_vec & is_e_kept_vec]
 
             # faces have zero volume
-            f3_new_mat = np.column_stack((ind_v_mid_e_broken_nut_kept_vec, e_mat[ind_e_broken_but_kept_vec]))
+            f3_new_mat = np.column_stack((e_mat[ind_e_broken_but_kept_vec, 0], ind_v_mid_e_broken_nut_kept_vec,
+                                          e_mat[ind_e_broken_but_kept_vec, 1]))
 
             ind_12f2e3_vec = ind_v_mid_e_broken_nut_kept_vec - n_verts + 3 * n_shrinked_faces + n_edges
             ind_23f2e3_vec = ind_12f2e3_vec + n_new_verts
-- 
2.43.0


From 4f32918076287676e1785428a078ec5088d8a7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:51 +0000
Subject: [PATCH 42/49] fix: face membership at edges shared by more than two
 faces

---
 products/ellipy/gras/geom/tri/tri.py | 88 ++++------------------------
 1 file changed, 10 insertions(+), 78 deletions(-)

diff --git a/products/ellipy/gras/geom/tri/tri.py b/products/ellipy/gras/geom/tri/tri.py
index 8b17ccf..9bcbbda 100644
--- a/products/ellipy/gras/geom/tri/tri.py
+++ b/products/ellipy/gras/geom/tri/tri.py
@@ -1,7 +1,7 @@
-from typing import Tuple, Dict, Callable, Union, List
+from typing import Tuple, Dict, Callable, Union
 import numpy as np
 from numpy import matlib as ml
-from ellipy.gen.common.common import throw_error, is_member, is_numeric
+from ellipy.gen.common.common import throw_error, is_numeric
 from ellipy.gras.gen.gen import sort_rows_tol
 from ellipy.gras.geom.geom import circle_part
 
@@ -321,80 +321,12 @@ def sphere_tri(depth: int) -> Tuple[np.ndarray, np.ndarray]:
 
 
 def is_face(f_mat: np.ndarray, f_to_check_mat: np.ndarray) -> np.ndarray:
-    def get_edge_attachements(
-            inp_f_num_list: List[np.ndarray],
-            inp_e_mat: np.ndarray, inp_check_e_mat: np.ndarray) -> List[np.ndarray]:
-        def as_void(arr):
-            arr = np.ascontiguousarray(arr)
-            return arr.view(np.dtype((np.void, arr.dtype.itemsize * arr.shape[-1])))
-
-        inp_check_e_mat = np.sort(inp_check_e_mat, axis=1)
-        void_e_mat, void_check_e_mat = map(as_void, (inp_e_mat, inp_check_e_mat))
-        is_edge_vec, ind_edge_vec = is_member(void_check_e_mat, void_e_mat)
-        out_f_num_list = list()
-        i_edge = 0
-        for i_check_edge in range(inp_check_e_mat.shape[0]):
-            if is_edge_vec[i_check_edge]:
-                out_f_num_vec = inp_f_num_list[ind_edge_vec[i_edge]]
-                i_edge += 1
-            else:
-                out_f_num_vec = np.empty((0,), dtype=np.int32)
-            out_f_num_list.append(out_f_num_vec)
-        return out_f_num_list
-
-    f_mat, e_mat, ind_f_vec, ind_shift_vec = get_face_edge_info(f_mat)
-    if ind_shift_vec.size == 1:
-        f_num_list = [ind_f_vec]
-    else:
-        f_num_list = np.split(ind_f_vec, np.cumsum(ind_shift_vec[:-1]))
-
-    f12_num_list = get_edge_attachements(f_num_list, e_mat, f_to_check_mat[:, [0, 1]])
-    f23_num_list = get_edge_attachements(f_num_list, e_mat, f_to_check_mat[:, [1, 2]])
-    f13_num_list = get_edge_attachements(f_num_list, e_mat, f_to_check_mat[:, [0, 2]])
-
-    def fnum_list_to_mat(inp_f_num_list: List[np.ndarray], def_vec: np.array) -> np.ndarray:
-        n_elems = len(inp_f_num_list)
-        l_vec = np.array([f_num_vec.size for f_num_vec in inp_f_num_list])
-        f_num_mat = np.tile(def_vec, (n_elems, 1))
-        is_one_elem_vec = l_vec == 1
-        if np.any(is_one_elem_vec):
-            f_num_mat[is_one_elem_vec, 0] = \
-                np.hstack(tuple([f_num_vec for f_num_vec, is_elem in
-                                 zip(inp_f_num_list, list(is_one_elem_vec)) if is_elem]))
-        is_two_elem_vec = l_vec == 2
-        if np.any(is_two_elem_vec):
-            f_num_mat[is_two_elem_vec, :] = \
-                np.vstack(tuple([f_num_vec for f_num_vec, is_elem in
-                                 zip(inp_f_num_list, list(is_two_elem_vec)) if is_elem]))
-        return f_num_mat
-
-    f12_num_mat = fnum_list_to_mat(f12_num_list, np.array([-121, -122]))
-    f23_num_mat = fnum_list_to_mat(f23_num_list, np.array([-231, -232]))
-    f13_num_mat = fnum_list_to_mat(f13_num_list, np.array([-131, -132]))
-
-    def intersect_mat(one_mat: np.ndarray, two_mat: np.ndarray, three_mat: np.ndarray) -> np.ndarray:
-        def flip_or_not(inp_mat: np.ndarray, is_flip: bool) -> np.ndarray:
-            if is_flip:
-                return np.fliplr(inp_mat)
-            else:
-                return inp_mat
-
-        comb_mat = np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [1, 1, 0],
-                             [0, 0, 1], [1, 0, 1], [0, 1, 1], [1, 1, 1]])
-        n_combs = comb_mat.shape[0]
-        is_pos_res_vec = np.zeros((one_mat.shape[0],), dtype=bool)
-        for i_comb in range(n_combs):
-            is_flip_vec = comb_mat[i_comb]
-            flip_one_mat = flip_or_not(one_mat, is_flip_vec[0])
-            flip_two_mat = flip_or_not(two_mat, is_flip_vec[1])
-            flip_three_mat = flip_or_not(three_mat, is_flip_vec[2])
-            is_pos_res_vec = \
-                np.logical_or(
-                    is_pos_res_vec, np.any(np.logical_and(
-                        flip_one_mat == flip_two_mat, flip_two_mat == flip_three_mat), axis=1).flatten())
-        return is_pos_res_vec
-
-    return intersect_mat(f12_num_mat, f23_num_mat, f13_num_mat)
+    f_mat, *_ = get_face_edge_info(f_mat)
+    n_faces = np.size(f_mat, 0)
+    # a face is the set of its vertices
+    all_f_mat = np.sort(np.vstack((f_mat, f_to_check_mat)), axis=1)
+    _, ind_unique_vec = np.unique(all_f_mat, axis=0, return_inverse=True)
+    return np.isin(ind_unique_vec[n_faces:], ind_unique_vec[:n_faces])
 
 
 def is_tri_equal(v1_mat: np.ndarray, f1_mat: np.ndarray,
@@ -417,8 +349,8 @@ def is_tri_equal(v1_mat: np.ndarray, f1_mat: np.ndarray,
             is_pos = real_tol <= max_tol
 
             if is_pos:
-                n_f1_unique = np.size(np.unique(f1_mat, axis=0), 0)
-                n_f2_unique = np.size(np.unique(f2_mat, axis=0), 0)
+                n_f1_unique = np.size(np.unique(np.sort(f1_mat, axis=1), axis=0), 0)
+                n_f2_unique = np.size(np.unique(np.sort(f2_mat, axis=1), axis=0), 0)
                 is_pos = n_f1_unique == n_f2_unique
                 if is_pos:
                     is_pos = np.all(is_face(f2_mat, f1_mat)) and np.all(is_face(f1_mat, f2_mat))
-- 
2.43.0


From c367493dd3966277507785f2360bdab9afec4898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:22 +0000
Subject: [PATCH 43/49] fix: default of the ODE norm control option is a flag

---
 products/ellipy/elltool/conf/properties/Properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/conf/properties/Properties.py b/products/ellipy/elltool/conf/properties/Properties.py
index c4f0eed..b0d64df 100644
--- a/products/ellipy/elltool/conf/properties/Properties.py
+++ b/products/ellipy/elltool/conf/properties/Properties.py
@@ -45,7 +45,7 @@ class Properties(ParsePropMixin):
             'rel_tol': 1e-05,
             'n_time_grid_points': 250,
             'ode_solver_name': 'ode45',
-            'is_ode_norm_control': 'on',
+            'is_ode_norm_control': True,
             'is_enabled_ode_solver_options': False,
             'n_plot_2d_points': 200,
             'n_plot_3d_points': 200,
-- 
2.43.0


From 2f05804b9969396fd171316709c3cc81f2655d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:37 +0000
Subject: [PATCH 44/49] fix: boundary of a 3-D ellipsoid without the grid

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index 733ce1e..3b01de8 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -290,11 +290,7 @@ class Ellipsoid(AEllipsoid):
         else:
             throw_error('wrongDim', 'ellipsoid must be of dimension 2 or 3')
 
-        if return_grid:
-            dir_mat, f_mat = sphere_tri_ext(n_dim, n_points, return_grid)
-        else:
-            dir_mat = sphere_tri_ext(n_dim, n_points, return_grid)
-            f_mat = None
+        dir_mat, f_mat = sphere_tri_ext(n_dim, n_points, True)
         cen_vec, q_mat = self.double()
         ret_mat = dir_mat @ sqrtm_pos(q_mat, self.get_abs_tol([self], f_prop_fun=None).flat[0])
         cen_mat = np.tile(cen_vec.T, (dir_mat.shape[0], 1))
-- 
2.43.0


From 3a9fcad8ac6a98c95c0cefddcd86051b88829b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:37 +0000
Subject: [PATCH 45/49] fix: scalar factor of the boundary functions may be any
 number

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index 3b01de8..6d5efd2 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -308,7 +308,7 @@ class Ellipsoid(AEllipsoid):
             throw_error('wrongDim', 'ellipsoid must be of dimension 2 or 3')
         if factor_vec is None:
             factor = 1
-        elif type(factor_vec) is int:
+        elif np.ndim(factor_vec) == 0:
             factor = factor_vec
         else:
             factor = factor_vec[n_dim - 2]
@@ -363,7 +363,7 @@ class Ellipsoid(AEllipsoid):
         n_plot_points = None
         if factor_vec is None:
             factor = 1
-        elif type(factor_vec) is int:
+        elif np.ndim(factor_vec) == 0:
             factor = factor_vec
         else:
             factor = factor_vec[n_dim - 2]
-- 
2.43.0


From e853cd11cdd2552c941efe0a4a75143a794e6cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:37 +0000
Subject: [PATCH 46/49] fix: grid by factor in two dimensions

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index 6d5efd2..0b8ea91 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -193,12 +193,12 @@ class Ellipsoid(AEllipsoid):
         if n_dim == 2:
             n_plot_points = self._n_plot_2d_points
             if not (factor == 1):
-                n_plot_points = np.floor(n_plot_points * factor)
+                n_plot_points = int(np.floor(n_plot_points * factor))
         else:
             n_plot_points = self._n_plot_3d_points
             if not (factor == 1):
-                n_plot_points = np.floor(n_plot_points * factor)
-        v_grid_mat, f_grid_mat = sphere_tri_ext(n_dim, n_plot_points)
+                n_plot_points = int(np.floor(n_plot_points * factor))
+        v_grid_mat, f_grid_mat = sphere_tri_ext(n_dim, n_plot_points, True)
         v_grid_mat[v_grid_mat == 0] = __EPS
 
         return v_grid_mat, f_grid_mat
-- 
2.43.0


From 4eca58d1a0ce46df59918120b6cba759c9796876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:41 +0000
Subject: [PATCH 47/49] fix: hull edges of the planar geometric difference
 follow the order of the directions

---
 products/ellipy/gras/geom/sup/sup.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/products/ellipy/gras/geom/sup/sup.py b/products/ellipy/gras/geom/sup/sup.py
index 202dfaf..e5625fa 100644
--- a/products/ellipy/gras/geom/sup/sup.py
+++ b/products/ellipy/gras/geom/sup/sup.py
@@ -73,7 +73,8 @@ def sup_geom_diff_2d(rho1_vec: np.ndarray, rho2_vec: np.ndarray, l_mat: np.ndarr
 
     s_mat = l_mat / np.matlib.repmat(rho_diff_vec, n_dims, 1)
     # noinspection PyUnresolvedReferences
-    ind_mat = ConvexHull(s_mat.T).simplices
+    ind_vert_vec = np.sort(ConvexHull(s_mat.T).vertices)
+    ind_mat = np.vstack((ind_vert_vec, np.roll(ind_vert_vec, -1))).T
 
     ind_face_length_vec = ind_mat[:, 1] - ind_mat[:, 0]
     is_neg_vec = ind_face_length_vec < -1
-- 
2.43.0


From d1dfb9f8bec87048a61776068eb9bfffead247e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:41 +0000
Subject: [PATCH 48/49] fix: wrap around of directions in the planar geometric
 difference

---
 products/ellipy/gras/geom/sup/sup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/gras/geom/sup/sup.py b/products/ellipy/gras/geom/sup/sup.py
index e5625fa..dc19e1b 100644
--- a/products/ellipy/gras/geom/sup/sup.py
+++ b/products/ellipy/gras/geom/sup/sup.py
@@ -97,7 +97,7 @@ def sup_geom_diff_2d(rho1_vec: np.ndarray, rho2_vec: np.ndarray, l_mat: np.ndarr
         for i_dir in range(0, n_change_dirs):
             ind_dir = ind_dir + 1
 
-            if ind_dir > n_dirs:
+            if ind_dir >= n_dirs:
                 ind_dir = 0
 
             a_mat = np.concatenate((a_first_vec, np.expand_dims(s_mat[:, ind_dir], axis=0).T), axis=1)
-- 
2.43.0


From f246e5ecae293d776a8d013dce3e6fcceb3cbf62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:13 +0000
Subject: [PATCH 49/49] fix: spatial geometric difference of sets of any size

---
 products/ellipy/gras/geom/sup/sup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/gras/geom/sup/sup.py b/products/ellipy/gras/geom/sup/sup.py
index dc19e1b..f27afdd 100644
--- a/products/ellipy/gras/geom/sup/sup.py
+++ b/products/ellipy/gras/geom/sup/sup.py
@@ -157,7 +157,7 @@ def sup_geom_diff_3d(rho1_vec: np.ndarray, rho2_vec: np.ndarray, l_mat: np.ndarr
         throw_error('wrongInput:rho_diff_vec',
                     'Geometric difference is expected to have a non-empty interior')
 
-    s_mat = l_mat / np.matlib.repmat(rho_diff_vec, n_dims, 1)
+    s_mat = l_mat / np.matlib.repmat(rho_diff_vec / np.max(rho_diff_vec), n_dims, 1)
     # noinspection PyUnresolvedReferences
     f_s_mat = ConvexHull(s_mat.T).simplices
     dist_vec = np.zeros(l_mat.shape[1])
-- 
2.43.0

