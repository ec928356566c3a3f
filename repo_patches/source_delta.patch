From 66ff1f2a1532a686f3eb15ed9b1556aad4ad81e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:57 +0000
Subject: [PATCH 01/43] fix: Polyline.partition_by_length uses the removed
 np.int

---
 blmath/geometry/primitives/polyline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/primitives/polyline.py b/blmath/geometry/primitives/polyline.py
index d5799f2..3cde8fa 100644
--- a/blmath/geometry/primitives/polyline.py
+++ b/blmath/geometry/primitives/polyline.py
@@ -205,7 +205,7 @@ class Polyline(object):
             if num_segments <= 1:
                 new_v = np.vstack((new_v, start_point.reshape(-1, 3)))
             else:
-                new_v = np.vstack((new_v, partition_segment(start_point, end_point, np.int(num_segments), endpoint=False)))
+                new_v = np.vstack((new_v, partition_segment(start_point, end_point, int(num_segments), endpoint=False)))
 
         if not self.closed:
             indices_of_orig_vertices.append(len(new_v))
-- 
2.43.0


From a41a4b99173a61db2349ed9d3c95141e3ac1c96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:57 +0000
Subject: [PATCH 02/43] fix: line_intersect3 compared unit vectors exactly and
 walked the wrong way

---
 blmath/geometry/segment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/segment.py b/blmath/geometry/segment.py
index de1968e..604b4de 100644
--- a/blmath/geometry/segment.py
+++ b/blmath/geometry/segment.py
@@ -149,5 +149,5 @@ def line_intersect3(p0, q0, p1, q1):
         # there is no intesection; either parallel (k=0) or colinear (both=0) lines
         return None
     l = h_ / k_ * e
-    sign = -1 if np.all(h / h_ == k / k_) else +1
+    sign = -1 if np.dot(h, k) > 0 else +1
     return p0 + sign * l
-- 
2.43.0


From 44bbf79ccc43390002fbbe5b535a054563ae2e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:57 +0000
Subject: [PATCH 03/43] fix: unknown tag raised AttributeError (e.message) on
 Python 3

---
 blmath/geometry/transform/coordinate_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/transform/coordinate_manager.py b/blmath/geometry/transform/coordinate_manager.py
index f3f1d36..787584e 100644
--- a/blmath/geometry/transform/coordinate_manager.py
+++ b/blmath/geometry/transform/coordinate_manager.py
@@ -75,7 +75,7 @@ class CoordinateManager(object):
             from_index = self.tags_to_indices[from_tag]
             to_index = self.tags_to_indices[to_tag]
         except KeyError as e:
-            raise KeyError("No such tag: %s" % e.message)
+            raise KeyError("No such tag: %s" % e.args[0])
 
         if from_index == to_index:
             result_points = points
-- 
2.43.0


From 8b41441b1d1d02e8a51619736380794b4753bb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:57 +0000
Subject: [PATCH 04/43] fix: Value.round and round(Value) raised TypeError on
 Python 3

---
 blmath/value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/value.py b/blmath/value.py
index 818453b..673d75c 100644
--- a/blmath/value.py
+++ b/blmath/value.py
@@ -54,7 +54,7 @@ class Value(object):
         return self.value
     def __int__(self):
         return int(self.value)
-    def __round__(self, places):
+    def __round__(self, places=None):
         return Value(round(self.value, places), self.units)
 
     def __getattr__(self, name):
-- 
2.43.0


From fc45aedb796e9f0f389efe004a6d384d8aabf47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:57 +0000
Subject: [PATCH 05/43] fix: Value.prettified mislabelled units and went stale
 when the value changed

---
 blmath/value.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/blmath/value.py b/blmath/value.py
index 673d75c..b32b3f3 100644
--- a/blmath/value.py
+++ b/blmath/value.py
@@ -1,5 +1,3 @@
-from cached_property import cached_property
-
 class Value(object):
     '''
     Simple value class to encapsulate (value, units) and various conversions
@@ -167,10 +165,10 @@ class Value(object):
     def __ge__(self, other):
         return self.value >= float(self._comparable(other))
 
-    @cached_property
+    @property
     def prettified(self):
         from blmath import units as unit_conversions
-        return unit_conversions.prettify(self, self.units)
+        return unit_conversions.prettify(self.value, self.units)
 
     def for_json(self):
         '''
-- 
2.43.0


From f44090a9911f102cadc5381a6a98cd1574e91e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:57 +0000
Subject: [PATCH 06/43] fix: bool(Value(0)) was True on Python 3

---
 blmath/value.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/blmath/value.py b/blmath/value.py
index b32b3f3..9ae6ef3 100644
--- a/blmath/value.py
+++ b/blmath/value.py
@@ -143,6 +143,8 @@ class Value(object):
 
     def __nonzero__(self):
         return bool(self.value)
+    def __bool__(self):
+        return self.__nonzero__()
 
     def _comparable(self, other):
         '''Make other into something that is sensible to compare to self'''
-- 
2.43.0


From be04b92384eda654d5de48a818eef0a35cfc797a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:57 +0000
Subject: [PATCH 07/43] fix: factor ignored units_class when the two units are
 the same

---
 blmath/units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/units.py b/blmath/units.py
index 352f7a4..382072d 100644
--- a/blmath/units.py
+++ b/blmath/units.py
@@ -141,7 +141,7 @@ class Units(object):
         '''
         if (from_units is None or not len(from_units)) and (to_units is None or not len(to_units)): # pylint: disable=len-as-condition
             return 1.0
-        if from_units == to_units:
+        if from_units == to_units and not units_class:
             return 1.0
         if self._units[from_units][0] != self._units[to_units][0]:
             raise ValueError("Can't convert between apples and oranges (%s and %s)" % (from_units, to_units))
-- 
2.43.0


From c6821088a3d51b6db6face977a4f35149f149b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:57 +0000
Subject: [PATCH 08/43] fix: mesh_xsections closed an open component chosen by
 neighborhood

---
 blmath/geometry/primitives/plane.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blmath/geometry/primitives/plane.py b/blmath/geometry/primitives/plane.py
index 1d4339c..0cf16c0 100644
--- a/blmath/geometry/primitives/plane.py
+++ b/blmath/geometry/primitives/plane.py
@@ -419,7 +419,8 @@ class Plane(object):
 
         # number of components will not be large in practice, so this loop won't hurt
         means = [np.mean(kdtree.query(component)[0]) for component in components]
-        return [Polyline(components[np.argmin(means)], closed=True)]
+        nearest = np.argmin(means)
+        return [Polyline(components[nearest], closed=components_closed[nearest])]
 
 
 def main():
-- 
2.43.0


From cb9bb6161a75678974dc8ec6f2bbb74913b6c7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:57 +0000
Subject: [PATCH 09/43] fix: a closed polyline with no vertices raised
 IndexError

---
 blmath/geometry/primitives/polyline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/primitives/polyline.py b/blmath/geometry/primitives/polyline.py
index 3cde8fa..5160959 100644
--- a/blmath/geometry/primitives/polyline.py
+++ b/blmath/geometry/primitives/polyline.py
@@ -75,7 +75,7 @@ class Polyline(object):
 
         edges = np.vstack([np.arange(num_edges), np.arange(num_edges) + 1]).T
 
-        if self.closed:
+        if self.closed and num_edges > 0:
             edges[-1][1] = 0
 
         edges.flags.writeable = False
-- 
2.43.0


From 7831839726d1b1584f200abfca319c3958bba748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:57 +0000
Subject: [PATCH 10/43] fix: len of an empty polyline raised TypeError

---
 blmath/geometry/primitives/polyline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/primitives/polyline.py b/blmath/geometry/primitives/polyline.py
index 5160959..aa59559 100644
--- a/blmath/geometry/primitives/polyline.py
+++ b/blmath/geometry/primitives/polyline.py
@@ -41,7 +41,7 @@ class Polyline(object):
             return "<Polyline with no verts>"
 
     def __len__(self):
-        return len(self.v)
+        return 0 if self.v is None else len(self.v)
 
     def copy(self):
         '''
-- 
2.43.0


From 8951c6b2d8d4a5778e172515949e351309aa873a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:57 +0000
Subject: [PATCH 11/43] fix: cut_by_plane raised IndexError when the plane only
 touches a closed polyline

---
 blmath/geometry/primitives/polyline.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/blmath/geometry/primitives/polyline.py b/blmath/geometry/primitives/polyline.py
index aa59559..3f1157c 100644
--- a/blmath/geometry/primitives/polyline.py
+++ b/blmath/geometry/primitives/polyline.py
@@ -281,6 +281,8 @@ class Polyline(object):
         else:
             # e.g. v_sign = np.array([1, -1, -1, -1, 1, 1, 1])
             points_in_back, = np.where(v_sign < 0)
+            if len(points_in_back) == 0:
+                raise ValueError("Plane touches polyline without crossing it")
             working = self.reindexed(index=points_in_back[-1] + 1)
 
         # The part of the polyline we want to keep starts somewhere between
-- 
2.43.0


From 3f4489eba56af0283f5f8f6156a0ff4b3cab94ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:57 +0000
Subject: [PATCH 12/43] fix: convexify with flatten uses the removed np.mat

---
 blmath/geometry/convexify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/convexify.py b/blmath/geometry/convexify.py
index 84518ee..3ce77f5 100644
--- a/blmath/geometry/convexify.py
+++ b/blmath/geometry/convexify.py
@@ -69,7 +69,7 @@ def convexify_and_flatten_planar_curve(polyline, want_vertices=False, normal=Non
     hull_vertices = ConvexHull(projected).vertices
     rotated_hull = rotated[hull_vertices]
 
-    R_inv = np.array(np.mat(R.T).I)
+    R_inv = np.linalg.inv(R.T)
     inv_rotated = np.dot(rotated_hull, R_inv)
 
     if p0 is not None:
-- 
2.43.0


From cdfab433ab52a31220f599edf7554db997fbb053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:57 +0000
Subject: [PATCH 13/43] fix: rotate_to_xz_plane raised ValueError when given a
 normal

---
 blmath/geometry/transform/rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/transform/rotation.py b/blmath/geometry/transform/rotation.py
index 18b6e07..d785019 100644
--- a/blmath/geometry/transform/rotation.py
+++ b/blmath/geometry/transform/rotation.py
@@ -34,7 +34,7 @@ def rotate_to_xz_plane(points, normal=None):
     else:
         translated, p0 = points, None
 
-    if not normal:
+    if normal is None:
         normal = estimate_normal(points)
 
     e_2 = np.array([0., 1., 0.])
-- 
2.43.0


From daf35c085a136c039fe3f18d045f5adbd334d05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:57 +0000
Subject: [PATCH 14/43] fix: inflection_points passed steps where np.gradient
 takes coordinates

---
 blmath/geometry/apex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/apex.py b/blmath/geometry/apex.py
index 0a90c84..ac3440d 100644
--- a/blmath/geometry/apex.py
+++ b/blmath/geometry/apex.py
@@ -29,7 +29,7 @@ def inflection_points(points, axis, span):
 
     # Take the second order finite difference of the curve with respect to the
     # defined coordinate system
-    finite_difference_2 = np.gradient(np.gradient(coords_on_axis, dx), dx)
+    finite_difference_2 = np.gradient(np.gradient(coords_on_axis) / dx) / dx
 
     # Compare the product of all neighboring pairs of points in the second derivative
     # If a pair of points has a negative product, then the second derivative changes sign
-- 
2.43.0


From f76f4942d4fb7a28c72b59df043fb399310aa7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:57 +0000
Subject: [PATCH 15/43] fix: find_rigid_transform rejected coplanar points on
 rounding error

---
 blmath/geometry/transform/rigid_transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/transform/rigid_transform.py b/blmath/geometry/transform/rigid_transform.py
index 0335b4d..535b5ef 100644
--- a/blmath/geometry/transform/rigid_transform.py
+++ b/blmath/geometry/transform/rigid_transform.py
@@ -33,7 +33,7 @@ def find_rigid_transform(a, b, visualize=False):
     R = v.dot(u.T)
 
     if scipy.linalg.det(R) < 0:
-        if np.any(s == 0): # This is only valid in the noiseless case; see the paper
+        if np.any(s <= 1e-9 * s[0]): # This is only valid in the noiseless case; see the paper
             v[:, 2] = -v[:, 2]
             R = v.dot(u.T)
         else:
-- 
2.43.0


From f888841d9c9d4733cd0e1e22d13fd4a707bee3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:57 +0000
Subject: [PATCH 16/43] fix: StaticBlockSparseMatrix.matvec failed on np.matrix
 blocks

---
 blmath/numerics/linalg/static_block_sparse_matrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blmath/numerics/linalg/static_block_sparse_matrix.py b/blmath/numerics/linalg/static_block_sparse_matrix.py
index 68d5a34..b5dca0a 100644
--- a/blmath/numerics/linalg/static_block_sparse_matrix.py
+++ b/blmath/numerics/linalg/static_block_sparse_matrix.py
@@ -61,12 +61,12 @@ class StaticBlockSparseMatrix(object):
         self.block_s = mask_sparse_matrix_by_rows(M_coo, self.row_sparsity)
         self.block_ss = mask_sparse_matrix_by_columns(self.block_s, self.column_sparsity).tocsr()
         self.block_ss_csc = self.block_ss.tocsc()
-        self.block_sd = mask_sparse_matrix_by_columns(self.block_s, self.column_density).tocsr()[:, self.dense_column_indices].todense() if self.num_dense_columns else np.zeros((self.num_sparse_rows, self.num_dense_columns))
+        self.block_sd = mask_sparse_matrix_by_columns(self.block_s, self.column_density).tocsr()[:, self.dense_column_indices].toarray() if self.num_dense_columns else np.zeros((self.num_sparse_rows, self.num_dense_columns))
         self.block_s = self.block_s.tocsr()
         self.block_s_csc = self.block_s.tocsc()
 
         self.block_d_sparse = mask_sparse_matrix_by_rows(M_coo, self.row_density).tocsr()
-        self.block_d = self.block_d_sparse[self.dense_row_indices, :].todense()
+        self.block_d = self.block_d_sparse[self.dense_row_indices, :].toarray()
         self.block_ds = self.block_d[:, self.sparse_column_indices]
         self.block_dd = self.block_d[:, self.dense_column_indices]
 
-- 
2.43.0


From 6ebe0615828e17f53ea0a7b3f136739fb78370cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:57 +0000
Subject: [PATCH 17/43] fix: StaticBlockSparseMatrix.linOp passed shape twice

---
 blmath/numerics/linalg/static_block_sparse_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/numerics/linalg/static_block_sparse_matrix.py b/blmath/numerics/linalg/static_block_sparse_matrix.py
index b5dca0a..c63df51 100644
--- a/blmath/numerics/linalg/static_block_sparse_matrix.py
+++ b/blmath/numerics/linalg/static_block_sparse_matrix.py
@@ -146,7 +146,7 @@ class StaticBlockSparseMatrix(object):
 
     @property
     def linOp(self):
-        return sp.sparse.linalg.LinearOperator(self, shape=self.shape, matvec=self.matvec, matmat=self.matmat) # FIXME pylint: disable=redundant-keyword-arg
+        return sp.sparse.linalg.LinearOperator(shape=self.shape, matvec=self.matvec, matmat=self.matmat) # FIXME pylint: disable=redundant-keyword-arg
 
     def conjGradSolve(self, b, x0=None, tol=1.0e-9, maxiter=None):
         n = len(b)
-- 
2.43.0


From 0b35061e9c4898dd0840b6252d5870c75a53d8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:57 +0000
Subject: [PATCH 18/43] fix: conjGradSolve could not build its starting point

---
 blmath/numerics/linalg/static_block_sparse_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/numerics/linalg/static_block_sparse_matrix.py b/blmath/numerics/linalg/static_block_sparse_matrix.py
index c63df51..3640d18 100644
--- a/blmath/numerics/linalg/static_block_sparse_matrix.py
+++ b/blmath/numerics/linalg/static_block_sparse_matrix.py
@@ -150,7 +150,7 @@ class StaticBlockSparseMatrix(object):
 
     def conjGradSolve(self, b, x0=None, tol=1.0e-9, maxiter=None):
         n = len(b)
-        x = x0 if x0 else np.zeros(b)
+        x = x0 if x0 is not None else np.zeros(n)
 
         r = b - self.matvec(x)
         s = r.copy()
-- 
2.43.0


From 9bbc1e1cbb59f40400e5d0e5bf3cb75b60063d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:57 +0000
Subject: [PATCH 19/43] fix: block_sparse_cg_solve passes the removed tol
 argument to cg

---
 blmath/numerics/linalg/sparse_cg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/numerics/linalg/sparse_cg.py b/blmath/numerics/linalg/sparse_cg.py
index e228111..c7f2e4d 100644
--- a/blmath/numerics/linalg/sparse_cg.py
+++ b/blmath/numerics/linalg/sparse_cg.py
@@ -29,4 +29,4 @@ def block_sparse_cg_solve(A, x):
         return ans
 
     precon = scipy.sparse.linalg.LinearOperator(A.shape, matvec=A_inv_mult)
-    return scipy.sparse.linalg.cg(A, x, M=precon, tol=1e-5)[0]
+    return scipy.sparse.linalg.cg(A, x, M=precon, rtol=1e-5)[0]
-- 
2.43.0


From 98e638764395d8b17dbc4579633e605ba2971932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:12 +0000
Subject: [PATCH 20/43] fix: isomorphism accepted dependent frames whose
 determinant rounds to non-zero

---
 blmath/numerics/linalg/isomorphism.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blmath/numerics/linalg/isomorphism.py b/blmath/numerics/linalg/isomorphism.py
index f7bd94f..dc12c43 100644
--- a/blmath/numerics/linalg/isomorphism.py
+++ b/blmath/numerics/linalg/isomorphism.py
@@ -38,9 +38,9 @@ def isomorphism(frame1, frame2):
             raise DimensionalityError('Extra dimensions: %s' % L_frame2_e)
         elif L_frame1_e.shape[1] != L_frame2_e.shape[1]:
             raise DimensionalityError('Basis vectors must all have the same dimension.')
-        elif np.linalg.det(L_frame1_e) == 0:
+        elif np.linalg.det(L_frame1_e) == 0 or np.linalg.matrix_rank(L_frame1_e) < len(frame1):
             raise LinearDependenceError('%s is linearly dependent.' % frame1)
-        elif np.linalg.det(L_frame2_e) == 0:
+        elif np.linalg.det(L_frame2_e) == 0 or np.linalg.matrix_rank(L_frame2_e) < len(frame2):
             raise LinearDependenceError('%s is linearly dependent.' % frame2)
 
     _validate_frames(frame1, frame2)
-- 
2.43.0


From 786d4773a2695b03e5f8e41e5961f67eccbb1d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:05 +0000
Subject: [PATCH 21/43] fix: as_numeric_array with a dtype accepted text,
 complex numbers and NaN

---
 blmath/numerics/coercion.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/blmath/numerics/coercion.py b/blmath/numerics/coercion.py
index 2c5229d..a8eb601 100644
--- a/blmath/numerics/coercion.py
+++ b/blmath/numerics/coercion.py
@@ -26,9 +26,13 @@ def as_numeric_array(a, shape=None, allow_none=False, empty_as_none=False, dtype
             return None
         else:
             raise ValueError("Value is None")
-    a = np.asarray(a, dtype=dtype)
+    # Validate before coercing: a dtype would otherwise turn text, complex
+    # numbers or NaN into numbers.
+    a = np.asarray(a)
     if not isnumericarray(a):
         raise ValueError("Must be numeric")
+    if dtype is not None:
+        a = np.asarray(a, dtype=dtype)
     if allow_none and empty_as_none:
         if a.shape == (0,):
             import warnings
-- 
2.43.0


From b027dd6ef860437279636d459971f7f15818c136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:22 +0000
Subject: [PATCH 22/43] fix: isnumeric accepted Decimal NaN, and NaN, complex
 numbers and booleans in object arrays

---
 blmath/numerics/predicates.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/blmath/numerics/predicates.py b/blmath/numerics/predicates.py
index a76735b..5109d94 100644
--- a/blmath/numerics/predicates.py
+++ b/blmath/numerics/predicates.py
@@ -5,6 +5,9 @@ def isnumeric(x):
     if isinstance(x, bool) or isinstance(x, np.bool) or (hasattr(x, 'dtype') and x.dtype == np.bool):
         # Special case; bools do support math, but don't match our definition of numeric
         return False
+    if hasattr(x, 'dtype') and x.dtype == object:
+        # The items tell their kind, the array does not
+        return all(isnumericscalar(item) for item in x.flat)
     if not np.all(np.isrealobj(x)):
         # We don't want complex numbers
         return False
@@ -18,6 +21,8 @@ def isnumeric(x):
         import warnings
         with warnings.catch_warnings():
             warnings.simplefilter("ignore")
+            if np.any(x != x): # Decimal's NaN pylint: disable=comparison-with-itself
+                return False
             x+x, x-x, x*x, x/x # pylint: disable=pointless-statement
     except ZeroDivisionError:
         return True
-- 
2.43.0


From 9a34dee4d7d5d3759a3e84860c4f58354c00281b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:25 +0000
Subject: [PATCH 23/43] fix: isnumeric rejected Decimal zero

---
 blmath/numerics/predicates.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/blmath/numerics/predicates.py b/blmath/numerics/predicates.py
index 5109d94..f7dc3f3 100644
--- a/blmath/numerics/predicates.py
+++ b/blmath/numerics/predicates.py
@@ -23,7 +23,9 @@ def isnumeric(x):
             warnings.simplefilter("ignore")
             if np.any(x != x): # Decimal's NaN pylint: disable=comparison-with-itself
                 return False
-            x+x, x-x, x*x, x/x # pylint: disable=pointless-statement
+            x+x, x-x, x*x # pylint: disable=pointless-statement
+            if np.any(x): # Decimal's zero by zero is not a ZeroDivisionError
+                x/x # pylint: disable=pointless-statement
     except ZeroDivisionError:
         return True
     except (TypeError, Exception): # FIXME pylint: disable=broad-except
-- 
2.43.0


From ec6d85d84eb267acee3c0ac1e7a4ad29fb6e053a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:17 +0000
Subject: [PATCH 24/43] fix: rotation_from_up_and_look accepted collinear
 vectors that differ by rounding

---
 blmath/geometry/transform/rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/transform/rotation.py b/blmath/geometry/transform/rotation.py
index d785019..9d33c09 100644
--- a/blmath/geometry/transform/rotation.py
+++ b/blmath/geometry/transform/rotation.py
@@ -74,7 +74,7 @@ def rotation_from_up_and_look(up, look):
         raise ValueError("Singular look")
     y = up / np.linalg.norm(up)
     z = look - np.dot(look, y)*y
-    if np.linalg.norm(z) == 0:
+    if np.linalg.norm(z) <= 1e-12 * np.linalg.norm(look): # all that is left is rounding error
         raise ValueError("up and look are colinear")
     z = z / np.linalg.norm(z)
     x = np.cross(y, z)
-- 
2.43.0


From 722b9217f73c2043ffe6ff802524f97c95b8a29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:10 +0000
Subject: [PATCH 25/43] fix: find_rigid_rotation mixed the cross product into
 the scale of a single pair

---
 blmath/geometry/transform/rigid_transform.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/blmath/geometry/transform/rigid_transform.py b/blmath/geometry/transform/rigid_transform.py
index 535b5ef..5e14e8a 100644
--- a/blmath/geometry/transform/rigid_transform.py
+++ b/blmath/geometry/transform/rigid_transform.py
@@ -71,6 +71,9 @@ def find_rigid_rotation(a, b, allow_scaling=False):
     assert a.shape[0] == 3
     assert b.shape[0] == 3
 
+    if allow_scaling:
+        scalefactor = scipy.linalg.norm(b) / scipy.linalg.norm(a)
+
     if a.size == 3:
         cx = np.cross(a.ravel(), b.ravel())
         a = np.hstack((col(a), col(cx)))
@@ -86,7 +89,6 @@ def find_rigid_rotation(a, b, allow_scaling=False):
         R = v.dot(u.T)
 
     if allow_scaling:
-        scalefactor = scipy.linalg.norm(b) / scipy.linalg.norm(a)
         R = R * scalefactor
 
     return R
-- 
2.43.0


From a194c9821abdcf1c11631cb8289cff147992db62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:25 +0000
Subject: [PATCH 26/43] fix: line_intersect of parallel lines returned a far
 point when the determinant rounds to non-zero

---
 blmath/geometry/segment.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blmath/geometry/segment.py b/blmath/geometry/segment.py
index 604b4de..735f7a3 100644
--- a/blmath/geometry/segment.py
+++ b/blmath/geometry/segment.py
@@ -120,6 +120,10 @@ def line_intersect(p0, q0, p1, q1):
     b = np.array([rhs0,
                   rhs1])
 
+    # For parallel lines, all that is left of the determinant is rounding error
+    if abs(np.linalg.det(a)) <= 1e-12 * np.linalg.norm(lhs0) * np.linalg.norm(lhs1):
+        return np.array([np.nan, np.nan])
+
     try:
         return np.linalg.solve(a, b)
     except np.linalg.LinAlgError:
-- 
2.43.0


From 232a99cab5c5c9dcfbe7994abcfea6d2153f69a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:31 +0000
Subject: [PATCH 27/43] fix: line_intersect3 missed an intersection at p0 and
 found one for parallel lines that differ by rounding

---
 blmath/geometry/segment.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blmath/geometry/segment.py b/blmath/geometry/segment.py
index 735f7a3..cf7dd8a 100644
--- a/blmath/geometry/segment.py
+++ b/blmath/geometry/segment.py
@@ -149,8 +149,8 @@ def line_intersect3(p0, q0, p1, q1):
     k = np.cross(f, e)
     h_ = np.linalg.norm(h)
     k_ = np.linalg.norm(k)
-    if h_ == 0 or k_ == 0:
-        # there is no intesection; either parallel (k=0) or colinear (both=0) lines
+    if k_ <= 1e-12 * np.linalg.norm(e) * np.linalg.norm(f):
+        # there is no intesection; either parallel or colinear lines
         return None
     l = h_ / k_ * e
     sign = -1 if np.dot(h, k) > 0 else +1
-- 
2.43.0


From be69bed0cbb4ff0beaacad0248efe319532370f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:33 +0000
Subject: [PATCH 28/43] fix: line_intersect3 tested p0 twice and never q0
 against q1

---
 blmath/geometry/segment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/segment.py b/blmath/geometry/segment.py
index cf7dd8a..8321576 100644
--- a/blmath/geometry/segment.py
+++ b/blmath/geometry/segment.py
@@ -142,7 +142,7 @@ def line_intersect3(p0, q0, p1, q1):
     # g would be zero length and we can't continue
     if np.all(p0 == p1) or np.all(p0 == q1):
         return p0
-    if np.all(q0 == p1) or np.all(p0 == q1):
+    if np.all(q0 == p1) or np.all(q0 == q1):
         return q0
     g = p0 - p1 # line between to complete a triangle
     h = np.cross(f, g)
-- 
2.43.0


From 2ffa99b623387bb04ac1f3dc23ce1546bae59272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:54 +0000
Subject: [PATCH 29/43] fix: orthonormalize raised UFuncTypeError on a single
 row of integers

---
 blmath/numerics/linalg/gram_schmidt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/numerics/linalg/gram_schmidt.py b/blmath/numerics/linalg/gram_schmidt.py
index 8fa2fd8..913a1dd 100644
--- a/blmath/numerics/linalg/gram_schmidt.py
+++ b/blmath/numerics/linalg/gram_schmidt.py
@@ -28,7 +28,7 @@ def orthogonalize(v):
     o = []
 
     for vec in v:
-        w = vec.copy()
+        w = vec.astype(np.float64)
 
         proj_cmp = sum(np.array([proj(u, w) for u in o]))
         w = w - proj_cmp
-- 
2.43.0


From b421df54238281319ff96b50d3157f9ad8c1acf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:57 +0000
Subject: [PATCH 30/43] fix: lchol reported 0 for matrices that are not
 positive definite

---
 blmath/numerics/linalg/cholmod.c | 4 +++-
 blmath/numerics/linalg/lchol.py  | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/blmath/numerics/linalg/cholmod.c b/blmath/numerics/linalg/cholmod.c
index 747c5bd..0cfb0f5 100644
--- a/blmath/numerics/linalg/cholmod.c
+++ b/blmath/numerics/linalg/cholmod.c
@@ -213,9 +213,11 @@ cholmod_lchol_c(PyObject *self, PyObject *args)
 
     L = cholmod_l_analyze(&A, &Common);
     cholmod_l_factorize(&A, L, &Common);
-    Lsparse = cholmod_l_factor_to_sparse(L, &Common);
 
+    /* cholmod_l_factor_to_sparse makes L symbolic again and resets L->minor */
     minor = L->minor;
+    Lsparse = cholmod_l_factor_to_sparse(L, &Common);
+
     if (minor < ncol)
     {
         /* remove columns minor to n-1 from Lsparse */
diff --git a/blmath/numerics/linalg/lchol.py b/blmath/numerics/linalg/lchol.py
index d4d83e8..8d68740 100644
--- a/blmath/numerics/linalg/lchol.py
+++ b/blmath/numerics/linalg/lchol.py
@@ -11,7 +11,7 @@ def lchol(A):
 
     [L_ind, L_iptr, L_data, L_nonpsd, q] = cholmod.lchol_c(A64)
 
-    L = sp.csc_matrix((L_data, L_ind, L_iptr), shape=A64.shape)
+    L = sp.csc_matrix((L_data, L_ind, L_iptr), shape=(A64.shape[0], len(L_iptr) - 1)) # columns from the first bad pivot on are left out
     S = sp.csc_matrix((np.ones(len(q)), (q, range(len(q)))), shape=(max(q)+1, len(q)))
 
     return L, L_nonpsd, S
-- 
2.43.0


From 5a138db34021defef45d15fff8c1a328c89c2173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:57 +0000
Subject: [PATCH 31/43] fix: lchol read the bytes of integer and single
 precision entries as doubles

---
 blmath/numerics/linalg/lchol.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/blmath/numerics/linalg/lchol.py b/blmath/numerics/linalg/lchol.py
index 8d68740..e2d5d4d 100644
--- a/blmath/numerics/linalg/lchol.py
+++ b/blmath/numerics/linalg/lchol.py
@@ -8,6 +8,8 @@ def lchol(A):
     A64 = copy.copy(A)
     A64.indices = A.indices.astype(np.int64)
     A64.indptr = A.indptr.astype(np.int64)
+    # and doubles
+    A64.data = A.data.astype(np.float64)
 
     [L_ind, L_iptr, L_data, L_nonpsd, q] = cholmod.lchol_c(A64)
 
-- 
2.43.0


From 9bb1f7ce05d5e3c34cd0bd0065b99dd92239b671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:57 +0000
Subject: [PATCH 32/43] fix: StaticBlockSparseMatrix.matvec of an integer
 matrix failed without dense columns

---
 blmath/numerics/linalg/static_block_sparse_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/numerics/linalg/static_block_sparse_matrix.py b/blmath/numerics/linalg/static_block_sparse_matrix.py
index 3640d18..a6bafd1 100644
--- a/blmath/numerics/linalg/static_block_sparse_matrix.py
+++ b/blmath/numerics/linalg/static_block_sparse_matrix.py
@@ -61,7 +61,7 @@ class StaticBlockSparseMatrix(object):
         self.block_s = mask_sparse_matrix_by_rows(M_coo, self.row_sparsity)
         self.block_ss = mask_sparse_matrix_by_columns(self.block_s, self.column_sparsity).tocsr()
         self.block_ss_csc = self.block_ss.tocsc()
-        self.block_sd = mask_sparse_matrix_by_columns(self.block_s, self.column_density).tocsr()[:, self.dense_column_indices].toarray() if self.num_dense_columns else np.zeros((self.num_sparse_rows, self.num_dense_columns))
+        self.block_sd = mask_sparse_matrix_by_columns(self.block_s, self.column_density).tocsr()[:, self.dense_column_indices].toarray() if self.num_dense_columns else np.zeros((self.num_sparse_rows, self.num_dense_columns), dtype=M.dtype)
         self.block_s = self.block_s.tocsr()
         self.block_s_csc = self.block_s.tocsc()
 
-- 
2.43.0


From 067514d4513b22e3ce88ba8991c3e6644782f090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:57 +0000
Subject: [PATCH 33/43] fix: conjGradSolve returned NaN when started at the
 solution

---
 blmath/numerics/linalg/static_block_sparse_matrix.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/blmath/numerics/linalg/static_block_sparse_matrix.py b/blmath/numerics/linalg/static_block_sparse_matrix.py
index a6bafd1..4f0ca9f 100644
--- a/blmath/numerics/linalg/static_block_sparse_matrix.py
+++ b/blmath/numerics/linalg/static_block_sparse_matrix.py
@@ -155,6 +155,9 @@ class StaticBlockSparseMatrix(object):
         r = b - self.matvec(x)
         s = r.copy()
 
+        if np.sqrt(np.dot(r, r)) < tol:
+            return x, 0
+
         num_iterations = maxiter if maxiter else n
         i = None  # For pylint.
         for i in range(num_iterations):
-- 
2.43.0


From e02f66e2edd4a87eec90c87b703301f1246bebd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:44 +0000
Subject: [PATCH 34/43] fix: StaticBlockSparseMatrix.matvec failed with both
 dense rows and dense columns

---
 blmath/numerics/linalg/static_block_sparse_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/numerics/linalg/static_block_sparse_matrix.py b/blmath/numerics/linalg/static_block_sparse_matrix.py
index 4f0ca9f..5206f25 100644
--- a/blmath/numerics/linalg/static_block_sparse_matrix.py
+++ b/blmath/numerics/linalg/static_block_sparse_matrix.py
@@ -61,7 +61,7 @@ class StaticBlockSparseMatrix(object):
         self.block_s = mask_sparse_matrix_by_rows(M_coo, self.row_sparsity)
         self.block_ss = mask_sparse_matrix_by_columns(self.block_s, self.column_sparsity).tocsr()
         self.block_ss_csc = self.block_ss.tocsc()
-        self.block_sd = mask_sparse_matrix_by_columns(self.block_s, self.column_density).tocsr()[:, self.dense_column_indices].toarray() if self.num_dense_columns else np.zeros((self.num_sparse_rows, self.num_dense_columns), dtype=M.dtype)
+        self.block_sd = mask_sparse_matrix_by_columns(self.block_s, self.column_density).tocsr()[self.sparse_row_indices, :][:, self.dense_column_indices].toarray() if self.num_dense_columns else np.zeros((self.num_sparse_rows, self.num_dense_columns), dtype=M.dtype)
         self.block_s = self.block_s.tocsr()
         self.block_s_csc = self.block_s.tocsc()
 
-- 
2.43.0


From 394e15f36625b43509457c5896822978096fd3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:12 +0000
Subject: [PATCH 35/43] fix: bsxfun of a column and a row raised ValueError

---
 blmath/numerics/matlab.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/numerics/matlab.py b/blmath/numerics/matlab.py
index 0c90921..e1b2b3c 100644
--- a/blmath/numerics/matlab.py
+++ b/blmath/numerics/matlab.py
@@ -6,7 +6,7 @@ def bsxfun(oper, a, b):
         if a.shape[0] == 1:
             return oper(np.tile(a, (b.shape[0], 1)), b)
         else:
-            return oper(np.tile(a, (1, b.shape[1], b)))
+            return oper(np.tile(a, (1, b.shape[1])), b)
     else:
         raise Exception('_bsxfun failure')
 
-- 
2.43.0


From cfeec5990c97a7e18250c313027240441ce46c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:12 +0000
Subject: [PATCH 36/43] fix: scale_to_range wrapped around on small integer
 types

---
 blmath/numerics/operations.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/blmath/numerics/operations.py b/blmath/numerics/operations.py
index 4c7b579..4156711 100644
--- a/blmath/numerics/operations.py
+++ b/blmath/numerics/operations.py
@@ -1,5 +1,6 @@
 def scale_to_range(a, r_min, r_max):
     import numpy as np
+    a = np.asarray(a) * 1.0 # small integers would wrap around
     a = a - np.min(a)
     return (r_max - r_min)*a/np.max(a) + r_min
 
-- 
2.43.0


From 21c5d0990bcf7577ae70ca2195dbc1695a0b5113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:01 +0000
Subject: [PATCH 37/43] fix: VertNormals ignored a later change of normalized

---
 blmath/optimization/objectives/normals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/optimization/objectives/normals.py b/blmath/optimization/objectives/normals.py
index f4bc269..6350822 100644
--- a/blmath/optimization/objectives/normals.py
+++ b/blmath/optimization/objectives/normals.py
@@ -58,7 +58,7 @@ class VertNormals(ch.Ch):
             self.normalized = True
 
         if hasattr(self, 'v') and hasattr(self, 'f'):
-            if 'f' not in which and hasattr(self, 'faces_by_vertex') and self.faces_by_vertex.shape[0]/3 == self.v.shape[0]:
+            if 'f' not in which and 'normalized' not in which and hasattr(self, 'faces_by_vertex') and self.faces_by_vertex.shape[0]/3 == self.v.shape[0]:
                 self.tns.v = self.v
             else: # change in f or in size of v. shouldn't happen often.
                 f = self.f
-- 
2.43.0


From a6ca4290a9f18f8a07335d3f642b5a38ce7b70c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:12 +0000
Subject: [PATCH 38/43] fix: derivative of CrossProduct with both factors the
 same left out one of them

---
 blmath/optimization/objectives/normals.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/blmath/optimization/objectives/normals.py b/blmath/optimization/objectives/normals.py
index 6350822..fe7c6ba 100644
--- a/blmath/optimization/objectives/normals.py
+++ b/blmath/optimization/objectives/normals.py
@@ -175,7 +175,11 @@ class CrossProduct(ch.Ch):
             idxs = idxs.reshape((-1, 3, 3))
             idxs = idxs.transpose((0, 2, 1)).ravel()
             self.indices = idxs
-        if obj is self.a:
+        if obj is self.a and obj is self.b:
+            data = (self.Ax + self.Bx).ravel()
+            result = sp.csc_matrix((data, self.indices, self.indptr), shape=(sz, sz))
+            return -result
+        elif obj is self.a:
             # m = self.Bx
             # matvec = lambda x : _call_einsum_matvec(m, x)
             # matmat = lambda x : _call_einsum_matmat(m, x)
-- 
2.43.0


From 0dd90a776078c9a72132934d8a911f3fc4737943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:31 +0000
Subject: [PATCH 39/43] fix: reverse of a translation by unsigned integers
 wrapped around

---
 blmath/geometry/transform/composite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/transform/composite.py b/blmath/geometry/transform/composite.py
index 5e280d2..bc5a2a7 100644
--- a/blmath/geometry/transform/composite.py
+++ b/blmath/geometry/transform/composite.py
@@ -218,7 +218,7 @@ class CompositeTransform(object):
         forward[:, -1][:-1] = vector
 
         reverse = np.eye(4)
-        reverse[:, -1][:-1] = -vector
+        reverse[:, -1][:-1] = -forward[:, -1][:-1] # unsigned integers would wrap around
 
         return self.append_transform4(forward, reverse)
 
-- 
2.43.0


From 1f69487c46c0f766c0264596ff959c78be1b4385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:45 +0000
Subject: [PATCH 40/43] fix: find_rigid_rotation loses a single long vector
 next to its cross product

---
 blmath/geometry/transform/rigid_transform.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blmath/geometry/transform/rigid_transform.py b/blmath/geometry/transform/rigid_transform.py
index 5e14e8a..879e423 100644
--- a/blmath/geometry/transform/rigid_transform.py
+++ b/blmath/geometry/transform/rigid_transform.py
@@ -76,6 +76,10 @@ def find_rigid_rotation(a, b, allow_scaling=False):
 
     if a.size == 3:
         cx = np.cross(a.ravel(), b.ravel())
+        # As long as the vectors themselves, so that neither is lost next to the other
+        size = np.sqrt(scipy.linalg.norm(a) * scipy.linalg.norm(b))
+        if size > 0:
+            cx = cx / size
         a = np.hstack((col(a), col(cx)))
         b = np.hstack((col(b), col(cx)))
 
-- 
2.43.0


From 70899f897c0cbb6acda319a0789157fcb341ab72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:16 +0000
Subject: [PATCH 41/43] fix: refusing a matrix of the wrong shape raised
 TypeError while formatting the message

---
 blmath/geometry/transform/composite.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blmath/geometry/transform/composite.py b/blmath/geometry/transform/composite.py
index bc5a2a7..323e84d 100644
--- a/blmath/geometry/transform/composite.py
+++ b/blmath/geometry/transform/composite.py
@@ -15,7 +15,7 @@ def convert_33_to_44(matrix):
 
     '''
     if matrix.shape != (3, 3):
-        raise ValueError("Expected 3x3 matrix, got: %s" % matrix.shape)
+        raise ValueError("Expected 3x3 matrix, got: %s" % (matrix.shape,))
     result = np.pad(matrix, ((0, 1), (0, 1)), mode='constant')
     result[3][3] = 1
     return result
@@ -34,7 +34,7 @@ def convert_44_to_33(matrix):
 
     '''
     if matrix.shape != (4, 4):
-        raise ValueError("Expected 4x4 matrix, got: %s" % matrix.shape)
+        raise ValueError("Expected 4x4 matrix, got: %s" % (matrix.shape,))
     return matrix[:3, :3]
 
 
-- 
2.43.0


From f676f58de56b04a93e34a9c2f03bf8c127362925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:16 +0000
Subject: [PATCH 42/43] fix: a composite transform changed with the matrices it
 was given and gave out

---
 blmath/geometry/transform/composite.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/blmath/geometry/transform/composite.py b/blmath/geometry/transform/composite.py
index 323e84d..71d6904 100644
--- a/blmath/geometry/transform/composite.py
+++ b/blmath/geometry/transform/composite.py
@@ -117,7 +117,9 @@ class CompositeTransform(object):
         if not len(matrices): # pylint: disable=len-as-condition
             return np.eye(4)
 
-        matrix = six.moves.reduce(np.dot, matrices)
+        # Starting from the identity makes this a new matrix, which the caller
+        # is free to change, even when there is only one to multiply.
+        matrix = six.moves.reduce(np.dot, matrices, np.eye(4))
         return matrix if reverse else matrix.T
 
     def append_transform4(self, forward, reverse=None):
@@ -133,7 +135,8 @@ class CompositeTransform(object):
 
         new_index = len(self.transforms)
 
-        self.transforms.append((forward, reverse))
+        # Keep copies: the caller is free to change its own matrices.
+        self.transforms.append((np.array(forward), np.array(reverse)))
 
         return new_index
 
-- 
2.43.0


From a443d5f0a0fe9ec5bfa38c98f6dc4ccc5deb68fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:16 +0000
Subject: [PATCH 43/43] fix: a plane changed with the arrays it was given and
 gave out

---
 blmath/geometry/primitives/plane.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/blmath/geometry/primitives/plane.py b/blmath/geometry/primitives/plane.py
index 0cf16c0..c1b6b85 100644
--- a/blmath/geometry/primitives/plane.py
+++ b/blmath/geometry/primitives/plane.py
@@ -18,7 +18,9 @@ class Plane(object):
 
         unit_normal = vx.normalize(unit_normal)
 
-        self._r0 = np.asarray(point_on_plane)
+        # A copy, so that the plane stays where it is when the caller goes on
+        # to change its point.
+        self._r0 = np.array(point_on_plane)
         self._n = np.asarray(unit_normal)
 
     def __repr__(self):
@@ -106,7 +108,7 @@ class Plane(object):
         The point used to create this plane.
 
         '''
-        return self._r0
+        return self._r0.copy()
 
     @property
     def canonical_point(self):
@@ -129,7 +131,7 @@ class Plane(object):
         Return the plane's normal vector.
 
         '''
-        return self._n
+        return self._n.copy()
 
     def flipped(self):
         '''
-- 
2.43.0

