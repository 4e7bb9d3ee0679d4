From 1b2453a09e69007cf794fc38670761eb66daa380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:35 +0000
Subject: [PATCH 01/61] fix: massless inertial parameters given by their first
 moment have a finite center of mass

---
 src/rigeo/inertial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/inertial.py b/src/rigeo/inertial.py
index e3f4bab..ffd66f9 100644
--- a/src/rigeo/inertial.py
+++ b/src/rigeo/inertial.py
@@ -47,7 +47,7 @@ class InertialParameters:
         if h is not None and com is not None:
             raise ValueError("Cannot specify both h and com.")
         if com is None:
-            if h is None:
+            if h is None or (mass == 0 and not np.any(h)):
                 com = np.zeros(3)
             else:
                 com = h / mass
-- 
2.43.0


From 83197ce68e94a76858dffe05f2713f4e8a97aa58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:35 +0000
Subject: [PATCH 02/61] fix: Cylinder.contains uses the tolerance it is given

---
 src/rigeo/shape/cylinder.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rigeo/shape/cylinder.py b/src/rigeo/shape/cylinder.py
index 8138615..eb2288a 100644
--- a/src/rigeo/shape/cylinder.py
+++ b/src/rigeo/shape/cylinder.py
@@ -123,7 +123,11 @@ class Cylinder(Shape):
         P1 = points @ self.longitudinal_axis[:, None]
         P2 = points @ self.transverse_axes
         return np.all(
-            [E.contains(P) for E, P in zip(self._ellipsoids, (P1, P2))], axis=0
+            [
+                E.contains(P, tol=tol)
+                for E, P in zip(self._ellipsoids, (P1, P2))
+            ],
+            axis=0,
         )
 
     def must_contain(self, points, scale=1.0):
-- 
2.43.0


From 1bc4c320ca14588fcae5d60d19a1cb9ba37091bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:35 +0000
Subject: [PATCH 03/61] fix: Cylinder.is_same takes a tolerance and ignores
 rotations that leave the shape unchanged

---
 src/rigeo/shape/cylinder.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/rigeo/shape/cylinder.py b/src/rigeo/shape/cylinder.py
index eb2288a..e4b8669 100644
--- a/src/rigeo/shape/cylinder.py
+++ b/src/rigeo/shape/cylinder.py
@@ -109,14 +109,19 @@ class Cylinder(Shape):
         """The volume of the cylinder."""
         return np.pi * self.radius**2 * self.length
 
-    def is_same(self, other):
+    def is_same(self, other, tol=1e-8):
         if not isinstance(other, self.__class__):
             return False
-        return (
-            np.isclose(self.length, other.length)
-            and np.isclose(self.radius, other.radius)
-            and np.allclose(self.center, other.center)
-            and np.allclose(self.rotation, other.rotation)
+
+        # the shape is unchanged by spinning it about its longitudinal axis or
+        # by flipping it end over end
+        axis1 = np.outer(self.longitudinal_axis, self.longitudinal_axis)
+        axis2 = np.outer(other.longitudinal_axis, other.longitudinal_axis)
+        return bool(
+            np.isclose(self.length, other.length, atol=tol)
+            and np.isclose(self.radius, other.radius, atol=tol)
+            and np.allclose(self.center, other.center, atol=tol)
+            and np.allclose(axis1, axis2, atol=tol)
         )
 
     def contains(self, points, tol=1e-8):
-- 
2.43.0


From d896e38a9c18e7bc4fb9c64b0565f4a7ba65d2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:35 +0000
Subject: [PATCH 04/61] fix: Box.is_same recognizes an equal general polyhedron

---
 src/rigeo/shape/poly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/shape/poly.py b/src/rigeo/shape/poly.py
index e7fe25d..05d5f4a 100644
--- a/src/rigeo/shape/poly.py
+++ b/src/rigeo/shape/poly.py
@@ -170,7 +170,7 @@ class ConvexPolyhedron(Shape):
         return [self.A @ p <= scale * self.b for p in points]
 
     def is_same(self, other, tol=1e-8):
-        if not isinstance(other, self.__class__):
+        if not isinstance(other, ConvexPolyhedron):
             return False
         return self.contains_polyhedron(
             other, tol=tol
-- 
2.43.0


From 4f532e1b98f05b25232e7c2497ca1016cf084037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:35 +0000
Subject: [PATCH 05/61] fix: Ellipsoid.is_same handles degenerate ellipsoids
 and differing dimensions

---
 src/rigeo/shape/ellipsoid.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index 3e2695c..5ae0a96 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -245,6 +245,13 @@ class Ellipsoid(Shape):
         """Check if this ellipsoid is the same as another."""
         if not isinstance(other, self.__class__):
             return False
+        if self.dim != other.dim or self.rank != other.rank:
+            return False
+        if self.is_degenerate():
+            # Q is not finite in this case
+            return np.allclose(self.E, other.E, atol=tol) and np.allclose(
+                self.center, other.center, atol=tol
+            )
         return np.allclose(self.Q, other.Q, atol=tol)
 
     def contains(self, points, tol=1e-8):
-- 
2.43.0


From 8544d9ef7b7be49df97be6d5c87478ba88b499f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:35 +0000
Subject: [PATCH 06/61] fix: Ellipsoid.rank treats near-zero half extents as
 zero, like the rest of the class

---
 src/rigeo/shape/ellipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index 5ae0a96..1b008ab 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -103,7 +103,7 @@ class Ellipsoid(Shape):
 
     @property
     def rank(self):
-        return np.count_nonzero(self.half_extents)
+        return np.count_nonzero(~np.isclose(self.half_extents, 0))
 
     @property
     def volume(self):
-- 
2.43.0


From 4b549cd849e598dc05a4745c13be8fa57e67ff74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:35 +0000
Subject: [PATCH 07/61] fix: Ellipsoid.mbe accepts the solver argument like
 every other shape

---
 src/rigeo/shape/ellipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index 1b008ab..d596122 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -422,7 +422,7 @@ class Ellipsoid(Shape):
             Qr, V = self._QV_degenerate()
             return psd_constraints + [cp.trace(Qr @ Jr) >= 0, J == V @ Jr @ V.T]
 
-    def mbe(self, rcond=None, sphere=False):
+    def mbe(self, rcond=None, sphere=False, solver=None):
         if not sphere:
             return self
         radius = np.max(self.half_extents)
-- 
2.43.0


From ede4ca8bd6b6a03ae66b9f96bbc7f8cb76aee1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:35 +0000
Subject: [PATCH 08/61] fix: mbe_of_points can compute bounding spheres

---
 src/rigeo/shape/ellipsoid.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index d596122..61236ad 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -713,8 +713,8 @@ def mbe_of_points(points, rcond=None, sphere=False, solver=None):
     constraints = [cp.norm2(A @ x + b) <= 1 for x in P]
     if sphere:
         # if we want a sphere, then A is a multiple of the identity matrix
-        r = cp.Variable(1)
-        constraints.append(A == r * np.eye(rank))
+        a = cp.Variable(1)
+        constraints.append(A == a * np.eye(rank))
     problem = cp.Problem(objective, constraints)
     problem.solve(solver=solver)
 
@@ -723,6 +723,10 @@ def mbe_of_points(points, rcond=None, sphere=False, solver=None):
     half_extents = np.zeros(points.shape[1])
     nz = np.nonzero(eigs)
     half_extents[nz] = 1.0 / eigs[nz]
+    if sphere:
+        # the bounding sphere has the same radius in every direction, including
+        # those in which the points have no extent
+        half_extents[:] = np.max(half_extents)
 
     N = null_space((R @ V).T, rcond=rcond)
     rotation = np.hstack((R @ V, N))
-- 
2.43.0


From 12f264255df94bcf058be31e57144a7271557c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:35 +0000
Subject: [PATCH 09/61] fix: mbe_of_ellipsoids uses the quadratic form of each
 ellipsoid

---
 src/rigeo/shape/ellipsoid.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index 61236ad..f71538c 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -617,10 +617,14 @@ class Ellipsoid(Shape):
         )
 
 
-def _mbee_con_mat(S, d, Ai, bi, ti):
+def _mbee_con_mat(S, d, ell, ti):
     """Constraint matrix for minimum bounding ellipsoid of ellipsoids problem."""
     dim = S.shape[0]
-    ci = bi @ bi - 1
+
+    # quadratic form of the ellipsoid: x @ Ai @ x + 2 * bi @ x + ci <= 0
+    Ai = ell.S
+    bi = ell.A @ ell.b
+    ci = ell.b @ ell.b - 1
     Z = np.zeros((dim, dim))
     f = cp.reshape(-1 - ti * ci, (1, 1), order="C")
     e = cp.reshape(d - ti * bi, (dim, 1), order="C")
@@ -661,7 +665,7 @@ def mbe_of_ellipsoids(ellipsoids, sphere=False, solver=None):
 
     objective = cp.Minimize(-cp.log_det(S))
     constraints = [ts >= 0] + [
-        _mbee_con_mat(S, d, E.A, E.b, ti) << 0 for E, ti in zip(ellipsoids, ts)
+        _mbee_con_mat(S, d, E, ti) << 0 for E, ti in zip(ellipsoids, ts)
     ]
     if sphere:
         # if we want a sphere, then S is a multiple of the identity matrix
-- 
2.43.0


From 3d2cf835b216462a872f5ac8dd8f1806d4580c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:35 +0000
Subject: [PATCH 10/61] fix: contains_ellipsoid uses the quadratic form of the
 other ellipsoid

---
 src/rigeo/shape/ellipsoid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index f71538c..9a096d6 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -555,8 +555,8 @@ class Ellipsoid(Shape):
         constraints = [
             t >= 0,
             schur(
-                self.S - t * other.A,
-                self.A @ self.b - t * self.b,
+                self.S - t * other.S,
+                self.A @ self.b - t * (other.A @ other.b),
                 self.b @ self.b - 1 - t * (other.b @ other.b - 1),
             )
             << 0,
-- 
2.43.0


From 5464be81a11166397e40917c71ab62834e004807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:35 +0000
Subject: [PATCH 11/61] fix: bounding sphere of a box is the smallest one

---
 src/rigeo/shape/box.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rigeo/shape/box.py b/src/rigeo/shape/box.py
index bef5745..e0c968e 100644
--- a/src/rigeo/shape/box.py
+++ b/src/rigeo/shape/box.py
@@ -332,10 +332,10 @@ class Box(ConvexPolyhedron):
     def mbe(self, rcond=None, sphere=False, solver=None):
         from .ellipsoid import Ellipsoid
 
-        half_extents = self.half_extents * np.sqrt(3)  # TODO check this
         if sphere:
-            radius = np.max(half_extents)
+            radius = np.linalg.norm(self.half_extents)
             return Ellipsoid.sphere(radius=radius, center=self.center)
+        half_extents = self.half_extents * np.sqrt(3)  # TODO check this
         return Ellipsoid(
             half_extents=half_extents,
             center=self.center,
-- 
2.43.0


From 11bac5903ce4a69a061a5be6f58bbf4a4bd398c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:35 +0000
Subject: [PATCH 12/61] fix: Box.random_points_on_surface samples the surface
 of rotated and translated boxes

---
 src/rigeo/shape/box.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/shape/box.py b/src/rigeo/shape/box.py
index e0c968e..0a5cb73 100644
--- a/src/rigeo/shape/box.py
+++ b/src/rigeo/shape/box.py
@@ -146,7 +146,7 @@ class Box(ConvexPolyhedron):
         # TODO would probably be nicer to sample the number per face first,
         # like in the edges function below
         rng = np.random.default_rng(rng)
-        points = self.random_points(n, rng=rng)
+        points = rng.uniform(low=-1, high=1, size=(n, 3)) * self.half_extents
 
         x, y, z = self.half_extents
         Ax = 4 * y * z
-- 
2.43.0


From bba48c565f59bd468a9d6e7c6064d12e1ca3b7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:35 +0000
Subject: [PATCH 13/61] fix: Ellipsoid.random_points_on_surface applies the
 ellipsoid's rotation

---
 src/rigeo/shape/ellipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index 9a096d6..78c7491 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -509,7 +509,7 @@ class Ellipsoid(Shape):
             count += n_acc
 
         # rotate and translate points as needed
-        points = points @ self.rotation + self.center
+        points = points @ self.rotation.T + self.center
 
         # reshape to desired shape
         if shape == (1,):
-- 
2.43.0


From 531330b67038299e78925f6f3be9b191230d3eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:35 +0000
Subject: [PATCH 14/61] fix: SpanForm.transform does not translate rays

---
 src/rigeo/polydd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rigeo/polydd.py b/src/rigeo/polydd.py
index 4b3f240..e56b863 100644
--- a/src/rigeo/polydd.py
+++ b/src/rigeo/polydd.py
@@ -164,7 +164,8 @@ class SpanForm:
         if self.vertices is not None:
             vertices = (rotation @ self.vertices.T).T + translation
         if self.rays is not None:
-            rays = (rotation @ self.rays.T).T + translation
+            # rays are directions, so they are not translated
+            rays = (rotation @ self.rays.T).T
 
         return SpanForm(vertices=vertices, rays=rays)
 
-- 
2.43.0


From cd84abea297b10281f7315d1f5b963d377d81884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:35 +0000
Subject: [PATCH 15/61] fix: FaceForm can be built from a cdd matrix with only
 equalities

---
 src/rigeo/polydd.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rigeo/polydd.py b/src/rigeo/polydd.py
index e56b863..c6f35af 100644
--- a/src/rigeo/polydd.py
+++ b/src/rigeo/polydd.py
@@ -202,9 +202,10 @@ class FaceForm:
         A = -M[:, 1:]
 
         ineq_idx = np.array(
-            [idx for idx in range(mat.row_size) if idx not in mat.lin_set]
+            [idx for idx in range(mat.row_size) if idx not in mat.lin_set],
+            dtype=int,
         )
-        eq_idx = np.array([idx for idx in mat.lin_set])
+        eq_idx = np.array([idx for idx in mat.lin_set], dtype=int)
 
         return cls(
             A_ineq=A[ineq_idx, :],
-- 
2.43.0


From 1c9063e3491f6429b72eb88c7c85cacc178d41c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:35 +0000
Subject: [PATCH 16/61] fix: empty polyhedra are rejected with a ValueError

---
 src/rigeo/shape/poly.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rigeo/shape/poly.py b/src/rigeo/shape/poly.py
index 05d5f4a..0cbb884 100644
--- a/src/rigeo/shape/poly.py
+++ b/src/rigeo/shape/poly.py
@@ -51,6 +51,8 @@ class ConvexPolyhedron(Shape):
         if span_form is None:
             span_form = face_form.to_span_form()
 
+        if span_form is None:
+            raise ValueError("The polyhedron is empty.")
         if not span_form.bounded():
             raise ValueError("Only bounded polyhedra are supported.")
 
-- 
2.43.0


From 36186109a07c27df18e6396e465c27c36d4a224b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:35 +0000
Subject: [PATCH 17/61] fix: random_points_in_ball supports one-dimensional
 balls

---
 src/rigeo/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/random.py b/src/rigeo/random.py
index ff590fc..ae3146b 100644
--- a/src/rigeo/random.py
+++ b/src/rigeo/random.py
@@ -52,7 +52,7 @@ def random_points_on_hypersphere(shape=1, dim=2, rng=None):
 
     See https://compneuro.uwaterloo.ca/files/publications/voelker.2017.pdf
     """
-    assert dim >= 1
+    assert dim >= 0
     if np.isscalar(shape):
         shape = (shape,)
     full_shape = tuple(shape) + (dim + 1,)
-- 
2.43.0


From ca7ee355ac1c934e2728ca2eb8354b06b546685c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:35 +0000
Subject: [PATCH 18/61] fix: Ellipsoid.volume is correct in any dimension

---
 src/rigeo/shape/ellipsoid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index 78c7491..5f78390 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -1,6 +1,7 @@
 import numpy as np
 import cvxpy as cp
 from scipy.linalg import orth, null_space
+from scipy.special import gamma
 
 from ..util import clean_transform
 from ..random import random_points_in_ball, random_points_on_hypersphere
@@ -108,7 +109,8 @@ class Ellipsoid(Shape):
     @property
     def volume(self):
         """The volume of the ellipsoid."""
-        return 4 * np.pi * np.prod(self.half_extents) / 3
+        unit_ball_volume = np.pi ** (self.dim / 2) / gamma(self.dim / 2 + 1)
+        return unit_ball_volume * np.prod(self.half_extents)
 
     def __repr__(self):
         return f"Ellipsoid(half_extents={self.half_extents}, center={self.center}, rotation={self.rotation})"
-- 
2.43.0


From 973244473a0e7691aaaecdd4270c98e73d0c19ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:35 +0000
Subject: [PATCH 19/61] fix: Ellipsoid.from_affine supports non-symmetric
 matrices

---
 src/rigeo/shape/ellipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index 5f78390..f485020 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -148,7 +148,7 @@ class Ellipsoid(Shape):
     @classmethod
     def from_affine(cls, A, b, rcond=None):
         """Construct an ellipsoid from an affine transformation of the unit ball."""
-        S = A @ A
+        S = A.T @ A
 
         # use least squares instead of direct solve in case we have a
         # degenerate ellipsoid
-- 
2.43.0


From 1326bf8c89bdc82cb0919299b61404b9fcefd0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:35 +0000
Subject: [PATCH 20/61] fix: transform_matrix_inv supports dimensions other
 than three

---
 src/rigeo/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/util.py b/src/rigeo/util.py
index 912fd4f..7489694 100644
--- a/src/rigeo/util.py
+++ b/src/rigeo/util.py
@@ -209,7 +209,7 @@ def transform_matrix_inv(rotation=None, translation=None, dim=3):
     translation."""
     rotation, translation = clean_transform(rotation, translation, dim=dim)
     return transform_matrix(
-        rotation=rotation.T, translation=-rotation.T @ translation
+        rotation=rotation.T, translation=-rotation.T @ translation, dim=dim
     )
 
 
-- 
2.43.0


From dcf585d8b40fa2386c9838fdaf1eb31f3336594b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:35 +0000
Subject: [PATCH 21/61] fix: the polynomial basis of degree zero contains the
 constant moment index

---
 src/rigeo/moment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/moment.py b/src/rigeo/moment.py
index 30754d7..eb9f9ab 100644
--- a/src/rigeo/moment.py
+++ b/src/rigeo/moment.py
@@ -133,7 +133,7 @@ class Polynomial:
             b[i] = 1
             basis.append(MomentIndex(b))
         return [
-            sum(group)
+            sum(group, basis[0])
             for group in itertools.combinations_with_replacement(basis, d)
         ]
 
-- 
2.43.0


From 635b8ff8b69bf323af1b9e88110836705bcf6736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:35 +0000
Subject: [PATCH 22/61] fix: the zero polynomial has a degree

---
 src/rigeo/moment.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rigeo/moment.py b/src/rigeo/moment.py
index eb9f9ab..8df325d 100644
--- a/src/rigeo/moment.py
+++ b/src/rigeo/moment.py
@@ -78,6 +78,8 @@ class Polynomial:
     @property
     def degree(self):
         """The degree of the polynomial."""
+        if len(self.coefficients) == 0:
+            return 0
         return np.max([np.sum(idx.value) for idx in self.coefficients.keys()])
 
     def __str__(self):
-- 
2.43.0


From 8447bfa7edffffc59b0b52503fdc4ab230542df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:35 +0000
Subject: [PATCH 23/61] fix: Cylinder.moment_custom_vertex_constraints is
 feasible when eps is positive

---
 src/rigeo/shape/cylinder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/shape/cylinder.py b/src/rigeo/shape/cylinder.py
index e4b8669..f133faa 100644
--- a/src/rigeo/shape/cylinder.py
+++ b/src/rigeo/shape/cylinder.py
@@ -188,7 +188,7 @@ class Cylinder(Shape):
         disk_constraints = [
             c
             for J, disk in zip(Js, self.disk0s)
-            for c in disk.moment_constraints(J, eps=eps)
+            for c in disk.moment_constraints(J)
         ]
 
         return (
-- 
2.43.0


From 555dc65442df528d54bcca5bc0241988463d47a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:35 +0000
Subject: [PATCH 24/61] fix: RigidBody accepts any iterable of shapes

---
 src/rigeo/rigidbody.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/rigidbody.py b/src/rigeo/rigidbody.py
index d71b1ce..ed5eaef 100644
--- a/src/rigeo/rigidbody.py
+++ b/src/rigeo/rigidbody.py
@@ -31,7 +31,7 @@ class RigidBody:
         if params is None:
             params = InertialParameters.zero()
 
-        self.shapes = shapes
+        self.shapes = list(shapes)
         self.params = params
 
     def __add__(self, other):
-- 
2.43.0


From cb019f9570ad5965bd51b95c650b624aadc14c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:11 +0000
Subject: [PATCH 25/61] fix: a single one-dimensional random point keeps its
 dimension

---
 src/rigeo/random.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rigeo/random.py b/src/rigeo/random.py
index ae3146b..a0157a0 100644
--- a/src/rigeo/random.py
+++ b/src/rigeo/random.py
@@ -67,7 +67,7 @@ def random_points_on_hypersphere(shape=1, dim=2, rng=None):
 
     # squeeze out extra dimension if shape = 1
     if shape == (1,):
-        return np.squeeze(points)
+        return np.squeeze(points, axis=0)
     return points
 
 
@@ -85,7 +85,7 @@ def random_points_in_ball(shape=1, dim=3, rng=None):
 
     # squeeze out extra dimension if shape = 1
     if shape == 1:
-        return np.squeeze(points)
+        return np.squeeze(points, axis=0)
     return points
 
 
-- 
2.43.0


From 92ce49db0d4f9db8ba2a5e00d73b63c42c6464f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:11 +0000
Subject: [PATCH 26/61] fix: bounding and inscribed ellipsoids of a single
 point do not crash

---
 src/rigeo/shape/ellipsoid.py | 4 ++++
 src/rigeo/shape/poly.py      | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index f485020..dbffc45 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -706,6 +706,10 @@ def mbe_of_points(points, rcond=None, sphere=False, solver=None):
     R = orth((points - r).T, rcond=rcond)
     rank = R.shape[1]
 
+    # all of the points are the same
+    if rank == 0:
+        return Ellipsoid(half_extents=np.zeros(points.shape[1]), center=r)
+
     # project onto the rowspace
     # this allows us to handle degenerate sets of points that live in a
     # lower-dimensional subspace than R^d
diff --git a/src/rigeo/shape/poly.py b/src/rigeo/shape/poly.py
index 0cbb884..44d8fd4 100644
--- a/src/rigeo/shape/poly.py
+++ b/src/rigeo/shape/poly.py
@@ -218,6 +218,12 @@ class ConvexPolyhedron(Shape):
         R = orth((self.vertices - r).T, rcond=rcond)
         rank = R.shape[1]
 
+        # all of the vertices are the same
+        if rank == 0:
+            return Ellipsoid(
+                half_extents=np.zeros(self.vertices.shape[1]), center=r
+            )
+
         # project onto the rowspace
         # this allows us to handle degenerate sets of points that live in a
         # lower-dimensional subspace than R^d
-- 
2.43.0


From 56e6938a58b0d8f506460de134613e9d9c1a75a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:34 +0000
Subject: [PATCH 27/61] fix: is_triangular_number is exact for large integers

---
 src/rigeo/util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rigeo/util.py b/src/rigeo/util.py
index 7489694..dcc69d7 100644
--- a/src/rigeo/util.py
+++ b/src/rigeo/util.py
@@ -1,5 +1,6 @@
 """Miscellaneous utility functions."""
 import itertools
+import math
 import numbers
 from pathlib import Path
 
@@ -52,8 +53,8 @@ def is_triangular_number(x):
         return False, -1
 
     # use quadratic formula to solve
-    n = 0.5 * (np.sqrt(1 + 8 * x) - 1)
-    return n.is_integer(), int(n)
+    n = (math.isqrt(1 + 8 * int(x)) - 1) // 2
+    return n * (n + 1) == 2 * int(x), n
 
 
 def unvech(a):
-- 
2.43.0


From 3b778e7bb0ea81e0f59ae6ec901734f8e1153f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:34 +0000
Subject: [PATCH 28/61] fix: moment relaxations enforce symmetry and the
 eigenvalue threshold

---
 src/rigeo/shape/cylinder.py | 3 ++-
 src/rigeo/shape/poly.py     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rigeo/shape/cylinder.py b/src/rigeo/shape/cylinder.py
index f133faa..6092a87 100644
--- a/src/rigeo/shape/cylinder.py
+++ b/src/rigeo/shape/cylinder.py
@@ -166,7 +166,8 @@ class Cylinder(Shape):
         M = cp.Variable(moment.shape, PSD=True)
 
         return (
-            moment.moment_constraints(M)
+            psd_constraints
+            + moment.moment_constraints(M)
             + moment.localizing_constraints(M, polys=self._poly0s)
             + [m == M[0, 0], h == M[0, 1:4], H == M[1:4, 1:4]]
         )
diff --git a/src/rigeo/shape/poly.py b/src/rigeo/shape/poly.py
index 44d8fd4..234969c 100644
--- a/src/rigeo/shape/poly.py
+++ b/src/rigeo/shape/poly.py
@@ -288,7 +288,8 @@ class ConvexPolyhedron(Shape):
         M = cp.Variable(moment.shape, PSD=True)
 
         return (
-            moment.moment_constraints(M)
+            psd_constraints
+            + moment.moment_constraints(M)
             + moment.localizing_constraints(M, polys=self._polys)
             + [m == M[0, 0], h == M[0, 1:4], H == M[1:4, 1:4]]
         )
-- 
2.43.0


From 640629cfdc20997f2b1a1a136dc05057170fcc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:28 +0000
Subject: [PATCH 29/61] fix: a face form can represent the whole space

---
 src/rigeo/polydd.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/rigeo/polydd.py b/src/rigeo/polydd.py
index c6f35af..9c86419 100644
--- a/src/rigeo/polydd.py
+++ b/src/rigeo/polydd.py
@@ -197,6 +197,13 @@ class FaceForm:
         mat : cdd.Matrix
             The CDD matrix representing the polyhedron.
         """
+        if mat.row_size == 0:
+            # no constraints: the polyhedron is the whole space, which we
+            # represent using the trivial inequality 0 <= 1
+            return cls(
+                A_ineq=np.zeros((1, mat.col_size - 1)), b_ineq=np.ones(1)
+            )
+
         M = np.array([mat[i] for i in range(mat.row_size)])
         b = M[:, 0]
         A = -M[:, 1:]
-- 
2.43.0


From 5e422c4503bc71f54ddfad512df413da10ba3ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:11 +0000
Subject: [PATCH 30/61] fix: bounding ellipsoid of a flat box is minimal within
 its plane or line

---
 src/rigeo/shape/box.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rigeo/shape/box.py b/src/rigeo/shape/box.py
index 0a5cb73..fc30cd1 100644
--- a/src/rigeo/shape/box.py
+++ b/src/rigeo/shape/box.py
@@ -335,7 +335,9 @@ class Box(ConvexPolyhedron):
         if sphere:
             radius = np.linalg.norm(self.half_extents)
             return Ellipsoid.sphere(radius=radius, center=self.center)
-        half_extents = self.half_extents * np.sqrt(3)  # TODO check this
+        # a flat box is bounded within its own plane or line
+        rank = np.count_nonzero(~np.isclose(self.half_extents, 0))
+        half_extents = self.half_extents * np.sqrt(rank)
         return Ellipsoid(
             half_extents=half_extents,
             center=self.center,
-- 
2.43.0


From af6e021d6c5fb61d61509f46cd3bae34d4776fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:11 +0000
Subject: [PATCH 31/61] fix: inscribed box of a flat ellipsoid is maximal
 within its plane or line

---
 src/rigeo/shape/ellipsoid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index dbffc45..201d781 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -444,8 +444,9 @@ class Ellipsoid(Shape):
         """Maximum-volume inscribed box."""
         from .box import Box
 
+        # a flat ellipsoid is filled within its own plane or line
         return Box(
-            half_extents=self.half_extents / np.sqrt(3),
+            half_extents=self.half_extents / np.sqrt(max(self.rank, 1)),
             center=self.center,
             rotation=self.rotation,
         )
-- 
2.43.0


From ca85d22b4852e83eda837d6df91d117dab03bbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:45 +0000
Subject: [PATCH 32/61] fix: a single random point of a one-dimensional shape
 keeps its dimension

---
 src/rigeo/shape/ellipsoid.py | 2 +-
 src/rigeo/shape/poly.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index 201d781..0077472 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -516,7 +516,7 @@ class Ellipsoid(Shape):
 
         # reshape to desired shape
         if shape == (1,):
-            return np.squeeze(points)
+            return np.squeeze(points, axis=0)
         return points.reshape(shape + (self.dim,))
 
     def transform(self, rotation=None, translation=None):
diff --git a/src/rigeo/shape/poly.py b/src/rigeo/shape/poly.py
index 234969c..8f065bf 100644
--- a/src/rigeo/shape/poly.py
+++ b/src/rigeo/shape/poly.py
@@ -189,7 +189,7 @@ class ConvexPolyhedron(Shape):
         w = random_weight_vectors(full_shape, rng=rng)
         points = w @ self.vertices
         if shape == (1,):
-            return np.squeeze(points)
+            return np.squeeze(points, axis=0)
         return points
 
     def aabb(self):
-- 
2.43.0


From d24611e24b547ca3934d975ae1ceed4928eeabf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:32 +0000
Subject: [PATCH 33/61] fix: random points in degenerate ellipsoids are uniform

---
 src/rigeo/shape/ellipsoid.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index 0077472..dee4f12 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -463,6 +463,13 @@ class Ellipsoid(Shape):
 
         See https://arxiv.org/abs/1404.1347
         """
+        # a degenerate ellipsoid is sampled within its own plane or line
+        if 0 < self.rank < self.dim:
+            nz = ~self._z()
+            X = random_points_in_ball(shape=shape, dim=self.rank, rng=rng)
+            X = X * self.half_extents[nz]
+            return X @ self.rotation[:, nz].T + self.center
+
         # uniformly sample points in the unit ball then affinely transform them
         # into the ellipsoid
         X = random_points_in_ball(shape=shape, dim=self.dim, rng=rng)
-- 
2.43.0


From 5e5558cce908e714818edde3401ac90928fa869b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:24 +0000
Subject: [PATCH 34/61] fix: transform both forms of a polyhedron

Converting the transformed vertices back to inequalities loses faces (or
fails) for small rotations, because cdd treats products of the small
off-diagonal entries as zero.
---
 src/rigeo/shape/poly.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rigeo/shape/poly.py b/src/rigeo/shape/poly.py
index 8f065bf..7ea5c5e 100644
--- a/src/rigeo/shape/poly.py
+++ b/src/rigeo/shape/poly.py
@@ -322,8 +322,10 @@ class ConvexPolyhedron(Shape):
         rotation, translation = clean_transform(
             rotation=rotation, translation=translation, dim=self.dim
         )
-        new_vertices = self.vertices @ rotation.T + translation
-        return self.from_vertices(new_vertices)
+        return ConvexPolyhedron(
+            face_form=self.face_form.transform(rotation, translation),
+            span_form=self.span_form.transform(rotation, translation),
+        )
 
     def vertex_point_mass_params(self, mass):
         """Compute the inertial parameters corresponding to a system of point
-- 
2.43.0


From 208262c94277602d4718d0d928b040ded5014c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:24 +0000
Subject: [PATCH 35/61] fix: keep the faces of a box when converting it to a
 polyhedron

Recomputing the inequalities from the vertices loses faces (or fails) for
boxes with a small rotation.
---
 src/rigeo/shape/box.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rigeo/shape/box.py b/src/rigeo/shape/box.py
index fc30cd1..21e5312 100644
--- a/src/rigeo/shape/box.py
+++ b/src/rigeo/shape/box.py
@@ -351,7 +351,9 @@ class Box(ConvexPolyhedron):
         -------
         : ConvexPolyhedron
         """
-        return ConvexPolyhedron.from_vertices(self.vertices)
+        return ConvexPolyhedron(
+            face_form=self.face_form, span_form=self.span_form
+        )
 
     def moment_custom_vertex_constraints(self, param_var, eps=0):
         """My own custom constraints for boxes."""
-- 
2.43.0


From 3b7c1e980d1b2d4a04dcd5d0514467a959eed999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:19 +0000
Subject: [PATCH 36/61] fix: polyhedra of different dimensions are not the same

---
 src/rigeo/shape/poly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/shape/poly.py b/src/rigeo/shape/poly.py
index 7ea5c5e..90eec1e 100644
--- a/src/rigeo/shape/poly.py
+++ b/src/rigeo/shape/poly.py
@@ -172,7 +172,7 @@ class ConvexPolyhedron(Shape):
         return [self.A @ p <= scale * self.b for p in points]
 
     def is_same(self, other, tol=1e-8):
-        if not isinstance(other, ConvexPolyhedron):
+        if not isinstance(other, ConvexPolyhedron) or self.dim != other.dim:
             return False
         return self.contains_polyhedron(
             other, tol=tol
-- 
2.43.0


From f41b871382f5bd322221f193b871149f6402b779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:19 +0000
Subject: [PATCH 37/61] fix: point cylinders are the same regardless of their
 axes

---
 src/rigeo/shape/cylinder.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/rigeo/shape/cylinder.py b/src/rigeo/shape/cylinder.py
index 6092a87..e201d5c 100644
--- a/src/rigeo/shape/cylinder.py
+++ b/src/rigeo/shape/cylinder.py
@@ -113,16 +113,22 @@ class Cylinder(Shape):
         if not isinstance(other, self.__class__):
             return False
 
+        if not (
+            np.isclose(self.length, other.length, atol=tol)
+            and np.isclose(self.radius, other.radius, atol=tol)
+            and np.allclose(self.center, other.center, atol=tol)
+        ):
+            return False
+
+        # a point has no axis
+        if np.allclose([self.length, self.radius], 0, atol=tol):
+            return True
+
         # the shape is unchanged by spinning it about its longitudinal axis or
         # by flipping it end over end
         axis1 = np.outer(self.longitudinal_axis, self.longitudinal_axis)
         axis2 = np.outer(other.longitudinal_axis, other.longitudinal_axis)
-        return bool(
-            np.isclose(self.length, other.length, atol=tol)
-            and np.isclose(self.radius, other.radius, atol=tol)
-            and np.allclose(self.center, other.center, atol=tol)
-            and np.allclose(axis1, axis2, atol=tol)
-        )
+        return np.allclose(axis1, axis2, atol=tol)
 
     def contains(self, points, tol=1e-8):
         P1 = points @ self.longitudinal_axis[:, None]
-- 
2.43.0


From 07c60fdd71c33e3c9b41319cd38ded2298a11ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:19 +0000
Subject: [PATCH 38/61] fix: spherical capsules are the same regardless of
 their axes

---
 src/rigeo/shape/capsule.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/rigeo/shape/capsule.py b/src/rigeo/shape/capsule.py
index c22ecaf..74ea5da 100644
--- a/src/rigeo/shape/capsule.py
+++ b/src/rigeo/shape/capsule.py
@@ -48,6 +48,12 @@ class Capsule(Shape):
     def is_same(self, other, tol=1e-8):
         if not isinstance(other, self.__class__):
             return False
+        # without inner length the capsule is a sphere, which has no axis
+        if np.allclose([self.inner_length, other.inner_length], 0, atol=tol):
+            return bool(
+                np.isclose(self.radius, other.radius, atol=tol)
+                and np.allclose(self.center, other.center, atol=tol)
+            )
         return self.cylinder.is_same(other.cylinder, tol=tol)
 
     def contains(self, points, tol=1e-8):
-- 
2.43.0


From 571593fc53fadfc97b0fea41b7a4b2d71cdb5834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:04 +0000
Subject: [PATCH 39/61] fix: volumes of large integer half extents do not
 overflow

---
 src/rigeo/shape/box.py       | 2 +-
 src/rigeo/shape/ellipsoid.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rigeo/shape/box.py b/src/rigeo/shape/box.py
index 21e5312..5b25436 100644
--- a/src/rigeo/shape/box.py
+++ b/src/rigeo/shape/box.py
@@ -54,7 +54,7 @@ class Box(ConvexPolyhedron):
 
     # TODO change parameter order to match transform
     def __init__(self, half_extents, center=None, rotation=None):
-        self.half_extents = np.array(half_extents)
+        self.half_extents = np.array(half_extents, dtype=float)
         assert self.half_extents.shape == (3,)
         assert np.all(self.half_extents >= 0)
 
diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index dee4f12..ba2dddd 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -63,7 +63,7 @@ class Ellipsoid(Shape):
     def __init__(self, half_extents, rotation=None, center=None):
         if np.isscalar(half_extents):
             half_extents = [half_extents]
-        self.half_extents = np.array(half_extents)
+        self.half_extents = np.array(half_extents, dtype=float)
 
         assert np.all(
             self.half_extents >= 0
-- 
2.43.0


From bb80827f0e16743535842165a381bca06eaed852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:46 +0000
Subject: [PATCH 40/61] fix: Ellipsoid.is_same compares lengths, so different
 large ellipsoids differ

---
 src/rigeo/shape/ellipsoid.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index ba2dddd..cb0a435 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -249,12 +249,14 @@ class Ellipsoid(Shape):
             return False
         if self.dim != other.dim or self.rank != other.rank:
             return False
-        if self.is_degenerate():
-            # Q is not finite in this case
-            return np.allclose(self.E, other.E, atol=tol) and np.allclose(
-                self.center, other.center, atol=tol
-            )
-        return np.allclose(self.Q, other.Q, atol=tol)
+        # compare the symmetric maps from the unit ball to the centered
+        # ellipsoids, which have units of length (the entries of Q vanish for
+        # large ellipsoids)
+        T1 = self.rotation @ np.diag(self.half_extents) @ self.rotation.T
+        T2 = other.rotation @ np.diag(other.half_extents) @ other.rotation.T
+        return np.allclose(T1, T2, atol=tol) and np.allclose(
+            self.center, other.center, atol=tol
+        )
 
     def contains(self, points, tol=1e-8):
         """Check if points are contained in the ellipsoid.
-- 
2.43.0


From 9dd1c5e3677edb60970a9c54e314f87158af4e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:58 +0000
Subject: [PATCH 41/61] fix: mbe_of_ellipsoids solves in the ellipsoids' own
 units, so large ellipsoids are bounded accurately

---
 src/rigeo/shape/ellipsoid.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index cb0a435..3eb42ad 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -671,6 +671,23 @@ def mbe_of_ellipsoids(ellipsoids, sphere=False, solver=None):
     n = len(ellipsoids)
     dim = ellipsoids[0].dim
 
+    # solve with the ellipsoids shifted to the origin and scaled to unit size,
+    # since the accuracy of the solvers depends on the units of length
+    origin = np.mean([E.center for E in ellipsoids], axis=0)
+    scale = max(
+        np.linalg.norm(E.center - origin) + np.max(E.half_extents)
+        for E in ellipsoids
+    )
+    scale = scale if scale > 0 else 1.0
+    ellipsoids = [
+        Ellipsoid(
+            half_extents=E.half_extents / scale,
+            rotation=E.rotation,
+            center=(E.center - origin) / scale,
+        )
+        for E in ellipsoids
+    ]
+
     S = cp.Variable((dim, dim), PSD=True)  # = A^2
     d = cp.Variable(dim)  # = Ab
     ts = cp.Variable(n)
@@ -686,8 +703,8 @@ def mbe_of_ellipsoids(ellipsoids, sphere=False, solver=None):
     problem = cp.Problem(objective, constraints)
     problem.solve(solver=solver)
 
-    center = np.linalg.solve(S.value, -d.value)
-    return Ellipsoid.from_shape_matrix(S.value, center=center)
+    center = scale * np.linalg.solve(S.value, -d.value) + origin
+    return Ellipsoid.from_shape_matrix(S.value / scale**2, center=center)
 
 
 def mbe_of_points(points, rcond=None, sphere=False, solver=None):
-- 
2.43.0


From 89232268d75227ab9e1bee00f066bcdaccaccb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:24 +0000
Subject: [PATCH 42/61] fix: identification module could not be imported from
 rigeo.unused

---
 src/rigeo/unused/identify.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rigeo/unused/identify.py b/src/rigeo/unused/identify.py
index 198a5b7..af39f8a 100644
--- a/src/rigeo/unused/identify.py
+++ b/src/rigeo/unused/identify.py
@@ -4,8 +4,8 @@ import time
 import numpy as np
 import cvxpy as cp
 
-from .constraint import pim_psd, pim_must_equal_vec
-from .inertial import InertialParameters
+from ..constraint import pim_psd, pim_must_equal_vec
+from ..inertial import InertialParameters
 
 
 def entropic_regularizer(Js, J0s):
-- 
2.43.0


From ab6453957511c7047188405a6879ed230531df74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:24 +0000
Subject: [PATCH 43/61] fix: discretized identification ignored the eigenvalue
 threshold

---
 src/rigeo/unused/identify.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rigeo/unused/identify.py b/src/rigeo/unused/identify.py
index af39f8a..f44f7b1 100644
--- a/src/rigeo/unused/identify.py
+++ b/src/rigeo/unused/identify.py
@@ -295,6 +295,8 @@ class DiscretizedIdentificationProblem:
 
         # constraints
         constraints = [J == cp.sum([μ * np.outer(P, P) for μ, P in zip(μs, Ps)])]
+        if self.ε > 0:
+            constraints.extend(pim_psd(J, self.ε))
         if com_bounding_shape is not None:
             m = J[3, 3]
             h = J[:3, 3]
-- 
2.43.0


From 153e422e305871fa87a319ba93b5558a3204daa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:25 +0000
Subject: [PATCH 44/61] fix: identification problems did not keep the solved
 problem for inspection

---
 src/rigeo/unused/identify.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rigeo/unused/identify.py b/src/rigeo/unused/identify.py
index f44f7b1..8f4b051 100644
--- a/src/rigeo/unused/identify.py
+++ b/src/rigeo/unused/identify.py
@@ -186,6 +186,7 @@ class IdentificationProblem:
                 constraints.extend(shape.must_contain(h, scale=m))
 
         problem = cp.Problem(objective, constraints)
+        self.problem = problem
 
         t0 = time.time()
         problem.solve(**self.solve_kwargs)
@@ -303,6 +304,7 @@ class DiscretizedIdentificationProblem:
             constraints.extend(com_bounding_shape.must_contain(h, scale=m))
 
         problem = cp.Problem(objective, constraints)
+        self.problem = problem
 
         t0 = time.time()
         problem.solve(**self.solve_kwargs)
-- 
2.43.0


From dac02bb2cbfd53bc63a514144e133650711861d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:25 +0000
Subject: [PATCH 45/61] fix: identification accepted only arrays of regressors,
 not sequences of them

---
 src/rigeo/unused/identify.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/rigeo/unused/identify.py b/src/rigeo/unused/identify.py
index 8f4b051..49f0be4 100644
--- a/src/rigeo/unused/identify.py
+++ b/src/rigeo/unused/identify.py
@@ -73,7 +73,7 @@ def least_squares_objective(θs, As, bs, W0=None):
 
     # psd_wrap fixes an occasional internal scipy error
     # https://github.com/cvxpy/cvxpy/issues/1421#issuecomment-865977139
-    W = cp.psd_wrap(np.kron(np.eye(bs.shape[0]), W0))
+    W = cp.psd_wrap(np.kron(np.eye(len(bs)), W0))
     return cp.quad_form(A @ θ - b, W)
 
 
@@ -112,11 +112,11 @@ class IdentificationProblem:
     """
 
     def __init__(self, As, bs, Σ=None, γ=0, ε=0, **kwargs):
-        assert As.shape[0] == bs.shape[0]
+        assert len(As) == len(bs)
         assert γ >= 0
         assert ε >= 0
 
-        self.no = As.shape[0]  # number of observations
+        self.no = len(As)  # number of observations
 
         self.As = As
         self.bs = bs
@@ -229,11 +229,11 @@ class DiscretizedIdentificationProblem:
     """
 
     def __init__(self, As, bs, Σ=None, γ=0, ε=0, **kwargs):
-        assert As.shape[0] == bs.shape[0]
+        assert len(As) == len(bs)
         assert γ >= 0
         assert ε >= 0
 
-        self.no = As.shape[0]  # number of observations
+        self.no = len(As)  # number of observations
 
         self.As = As
         self.bs = bs
-- 
2.43.0


From 154ca3ba5ffc50d28293b0b0e97a95bc9c678ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:25 +0000
Subject: [PATCH 46/61] fix: geodesic distance was a complex number for some
 positive definite matrices

---
 src/rigeo/unused/geodesic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rigeo/unused/geodesic.py b/src/rigeo/unused/geodesic.py
index e22646d..e02050e 100644
--- a/src/rigeo/unused/geodesic.py
+++ b/src/rigeo/unused/geodesic.py
@@ -1,4 +1,5 @@
 import numpy as np
+import scipy.linalg
 
 
 def positive_definite_distance(A, B):
@@ -21,6 +22,6 @@ def positive_definite_distance(A, B):
         The geodesic distance between :math:`\\boldsymbol{A}` and :math:`\\boldsymbol{B}`.
     """
     assert A.shape == B.shape, "Matrices must have the same shape."
-    C = np.linalg.solve(A, B)
-    eigs = np.linalg.eigvals(C)
+    # symmetric-definite solver: eigenvalues of inv(A) @ B are real
+    eigs = scipy.linalg.eigh(B, A, eigvals_only=True)
     return np.sqrt(0.5 * np.sum(np.log(eigs) ** 2))
-- 
2.43.0


From da5d1faa5e20c5052a5e3e2c7bb49d93e759b2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:33 +0000
Subject: [PATCH 47/61] fix: import multibody's siblings from the parent
 package

---
 src/rigeo/unused/multibody.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rigeo/unused/multibody.py b/src/rigeo/unused/multibody.py
index 88a6eb7..caa246d 100644
--- a/src/rigeo/unused/multibody.py
+++ b/src/rigeo/unused/multibody.py
@@ -4,9 +4,9 @@ import numpy as np
 import hppfcl
 import pinocchio
 
-from .shape import Box, Ellipsoid, Cylinder
-from .inertial import I2H, InertialParameters
-from .rigidbody import RigidBody
+from ..shape import Box, Ellipsoid, Cylinder
+from ..inertial import I2H, InertialParameters
+from ..rigidbody import RigidBody
 
 
 RF = pinocchio.ReferenceFrame
-- 
2.43.0


From 813ec22490cfd2f24153cafec7ba94f529a87d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:33 +0000
Subject: [PATCH 48/61] fix: reorder the regressor's columns per link, not per
 degree of freedom

---
 src/rigeo/unused/multibody.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/unused/multibody.py b/src/rigeo/unused/multibody.py
index caa246d..fc8be66 100644
--- a/src/rigeo/unused/multibody.py
+++ b/src/rigeo/unused/multibody.py
@@ -301,7 +301,7 @@ class MultiBody:
         #   θ = [m, hx, hy, hz, Ixx, Ixy, Ixz, Iyy, Iyz, Izz]
         # (i.e, Ixz and Iyy are swapped)
         Y = Y_pin.copy()
-        for i in range(self.model.nv):
+        for i in range(self.nj - 1):
             Y[:, i * 10 + 6] = Y_pin[:, i * 10 + 7]
             Y[:, i * 10 + 7] = Y_pin[:, i * 10 + 6]
         return Y
-- 
2.43.0


From 27eb88e9d65487e596a469b59dd94c7ad7793c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:33 +0000
Subject: [PATCH 49/61] fix: bodies of a multibody own their center of mass

---
 src/rigeo/unused/multibody.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/unused/multibody.py b/src/rigeo/unused/multibody.py
index fc8be66..bdac1a7 100644
--- a/src/rigeo/unused/multibody.py
+++ b/src/rigeo/unused/multibody.py
@@ -78,7 +78,7 @@ class MultiBody:
             else:
                 params = InertialParameters(
                     mass=inertia.mass,
-                    com=inertia.lever,
+                    com=inertia.lever.copy(),
                     I=inertia.inertia,
                     translate_from_com=True,
                 )
-- 
2.43.0


From 078f9e98ae18c999f6125a11103c744b18b6bde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:33 +0000
Subject: [PATCH 50/61] fix: torque queries leave the forward kinematics alone

---
 src/rigeo/unused/multibody.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/rigeo/unused/multibody.py b/src/rigeo/unused/multibody.py
index bdac1a7..aec5097 100644
--- a/src/rigeo/unused/multibody.py
+++ b/src/rigeo/unused/multibody.py
@@ -42,6 +42,10 @@ class MultiBody:
         self.model = model
         self.data = self.model.createData()
 
+        # inverse dynamics overwrites the velocities and accelerations in its
+        # data, which must not disturb the forward kinematics
+        self._dyn_data = self.model.createData()
+
         self.nj = model.njoints  # number of joints
         self.nq = model.nq  # number of joint positions
         self.nv = model.nv  # number of joint velocities
@@ -272,7 +276,7 @@ class MultiBody:
         assert v.shape == (self.nv,)
         assert a.shape == (self.nv,)
 
-        return pinocchio.rnea(self.model, self.data, q, v, a)
+        return pinocchio.rnea(self.model, self._dyn_data, q, v, a)
 
     def compute_joint_torque_regressor(self, q, v, a):
         """Compute the joint torque regressor matrix for the multibody.
@@ -294,7 +298,9 @@ class MultiBody:
         : np.ndarray, shape (self.nv, 10 * self.nlinks)
             The joint torque regressor matrix.
         """
-        Y_pin = pinocchio.computeJointTorqueRegressor(self.model, self.data, q, v, a)
+        Y_pin = pinocchio.computeJointTorqueRegressor(
+            self.model, self._dyn_data, q, v, a
+        )
         # pinocchio stores inertial parameter vector as
         #   θ = [m, hx, hy, hz, Ixx, Ixy, Iyy, Ixz, Iyz, Izz],
         # but I prefer to store them
-- 
2.43.0


From b250e351beff9583c743f6685be6e3ac30f76e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:33 +0000
Subject: [PATCH 51/61] fix: document get_frame_pose in the order it returns

---
 src/rigeo/unused/multibody.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rigeo/unused/multibody.py b/src/rigeo/unused/multibody.py
index aec5097..3981ebf 100644
--- a/src/rigeo/unused/multibody.py
+++ b/src/rigeo/unused/multibody.py
@@ -327,9 +327,9 @@ class MultiBody:
         Returns
         -------
         : tuple
-            Returns a tuple (position, orientation). ``position`` is a
-            np.ndarray of shape (3,) and ``orientation`` is a rotation matrix
-            represented by an np.ndarray of shape (3, 3).
+            Returns a tuple (orientation, position). ``orientation`` is a
+            rotation matrix represented by an np.ndarray of shape (3, 3) and
+            ``position`` is a np.ndarray of shape (3,).
         """
         idx = self._resolve_frame_index(frame)
         pose = self.data.oMf[idx]
-- 
2.43.0


From d3aed6945d3cf05644c9f2527f9e0ce8b11bc436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:59 +0000
Subject: [PATCH 52/61] fix: poses returned earlier do not change with the next
 forward kinematics

---
 src/rigeo/unused/multibody.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/unused/multibody.py b/src/rigeo/unused/multibody.py
index 3981ebf..919e0de 100644
--- a/src/rigeo/unused/multibody.py
+++ b/src/rigeo/unused/multibody.py
@@ -333,7 +333,7 @@ class MultiBody:
         """
         idx = self._resolve_frame_index(frame)
         pose = self.data.oMf[idx]
-        return pose.rotation, pose.translation
+        return pose.rotation.copy(), pose.translation.copy()
 
     def get_frame_velocity(self, frame=None, expressed_in=RF.LOCAL):
         """Get velocity of link at index link_idx"""
-- 
2.43.0


From e8518c434869934d5d7622e0e17c9582a7754b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:55 +0000
Subject: [PATCH 53/61] fix: keep the shape of regressors and Jacobians of
 robots with one degree of freedom

---
 src/rigeo/unused/multibody.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rigeo/unused/multibody.py b/src/rigeo/unused/multibody.py
index 919e0de..f02d999 100644
--- a/src/rigeo/unused/multibody.py
+++ b/src/rigeo/unused/multibody.py
@@ -298,9 +298,10 @@ class MultiBody:
         : np.ndarray, shape (self.nv, 10 * self.nlinks)
             The joint torque regressor matrix.
         """
+        # pinocchio drops the dimension of a single degree of freedom
         Y_pin = pinocchio.computeJointTorqueRegressor(
             self.model, self._dyn_data, q, v, a
-        )
+        ).reshape((self.nv, 10 * (self.nj - 1)))
         # pinocchio stores inertial parameter vector as
         #   θ = [m, hx, hy, hz, Ixx, Ixy, Iyy, Ixz, Iyz, Izz],
         # but I prefer to store them
@@ -377,4 +378,4 @@ class MultiBody:
             q,
             idx,
             expressed_in,
-        )
+        ).reshape((6, self.nv))
-- 
2.43.0


From d728250a56ee9c84f18133bd9eff14c684d94899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:55 +0000
Subject: [PATCH 54/61] fix: Jacobian queries leave the forward kinematics
 alone

---
 src/rigeo/unused/multibody.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/rigeo/unused/multibody.py b/src/rigeo/unused/multibody.py
index f02d999..67a54a6 100644
--- a/src/rigeo/unused/multibody.py
+++ b/src/rigeo/unused/multibody.py
@@ -42,8 +42,9 @@ class MultiBody:
         self.model = model
         self.data = self.model.createData()
 
-        # inverse dynamics overwrites the velocities and accelerations in its
-        # data, which must not disturb the forward kinematics
+        # inverse dynamics and Jacobians overwrite the placements, velocities,
+        # and accelerations in their data, which must not disturb the forward
+        # kinematics
         self._dyn_data = self.model.createData()
 
         self.nj = model.njoints  # number of joints
@@ -374,7 +375,7 @@ class MultiBody:
         idx = self._resolve_frame_index(frame)
         return pinocchio.computeFrameJacobian(
             self.model,
-            self.data,
+            self._dyn_data,
             q,
             idx,
             expressed_in,
-- 
2.43.0


From 74294270514fb2719dd0f5b117a7c0c1ede183aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:53 +0000
Subject: [PATCH 55/61] fix: the pycddlib 3 port does not translate rays

---
 src/rigeo/unused/polydd_pycddlib3.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rigeo/unused/polydd_pycddlib3.py b/src/rigeo/unused/polydd_pycddlib3.py
index 9804747..94086aa 100644
--- a/src/rigeo/unused/polydd_pycddlib3.py
+++ b/src/rigeo/unused/polydd_pycddlib3.py
@@ -162,7 +162,8 @@ class SpanForm:
         if self.vertices is not None:
             vertices = (rotation @ self.vertices.T).T + translation
         if self.rays is not None:
-            rays = (rotation @ self.rays.T).T + translation
+            # rays are directions, so they are not translated
+            rays = (rotation @ self.rays.T).T
 
         return SpanForm(vertices=vertices, rays=rays)
 
-- 
2.43.0


From 42c6e3f751e85675183eea341cecdb1a2db3c986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:53 +0000
Subject: [PATCH 56/61] fix: face forms of the pycddlib 3 port can have only
 equalities

---
 src/rigeo/unused/polydd_pycddlib3.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rigeo/unused/polydd_pycddlib3.py b/src/rigeo/unused/polydd_pycddlib3.py
index 94086aa..7a2f7a9 100644
--- a/src/rigeo/unused/polydd_pycddlib3.py
+++ b/src/rigeo/unused/polydd_pycddlib3.py
@@ -200,9 +200,10 @@ class FaceForm:
         A = -M[:, 1:]
 
         ineq_idx = np.array(
-            [idx for idx in range(len(mat.array)) if idx not in mat.lin_set]
+            [idx for idx in range(len(mat.array)) if idx not in mat.lin_set],
+            dtype=int,
         )
-        eq_idx = np.array([idx for idx in mat.lin_set])
+        eq_idx = np.array([idx for idx in mat.lin_set], dtype=int)
 
         return cls(
             A_ineq=A[ineq_idx, :],
-- 
2.43.0


From 0c892cd412caa4054862501d17cd6930c65b947a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:53 +0000
Subject: [PATCH 57/61] fix: face forms of the pycddlib 3 port can represent
 the whole space

---
 src/rigeo/unused/polydd_pycddlib3.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/rigeo/unused/polydd_pycddlib3.py b/src/rigeo/unused/polydd_pycddlib3.py
index 7a2f7a9..851c085 100644
--- a/src/rigeo/unused/polydd_pycddlib3.py
+++ b/src/rigeo/unused/polydd_pycddlib3.py
@@ -149,7 +149,7 @@ class SpanForm:
         Smat = self.to_cdd_matrix()
         poly = cdd.polyhedron_from_matrix(Smat)
         Fmat = cdd.copy_inequalities(poly)
-        return FaceForm.from_cdd_matrix(Fmat)
+        return FaceForm.from_cdd_matrix(Fmat, dim=self.dim)
 
     def transform(self, rotation=None, translation=None):
         if rotation is None:
@@ -187,14 +187,22 @@ class FaceForm:
         return f"FaceForm(A={self.A}, b={self.b})"
 
     @classmethod
-    def from_cdd_matrix(cls, mat):
+    def from_cdd_matrix(cls, mat, dim=None):
         """Construct from a CDD matrix.
 
         Parameters
         ----------
         mat : cdd.Matrix
             The CDD matrix representing the polyhedron.
+        dim : int, optional
+            The dimension of the ambient space. Required if the matrix may
+            have no rows.
         """
+        if len(mat.array) == 0 and dim is not None:
+            # no constraints: the polyhedron is the whole space, which we
+            # represent using the trivial inequality 0 <= 1
+            return cls(A_ineq=np.zeros((1, dim)), b_ineq=np.ones(1))
+
         M = np.array(mat.array)
         b = M[:, 0]
         A = -M[:, 1:]
@@ -244,7 +252,7 @@ class FaceForm:
         """
         mat = self.to_cdd_matrix()
         cdd.matrix_canonicalize(mat)
-        return self.from_cdd_matrix(mat)
+        return self.from_cdd_matrix(mat, dim=self.dim)
 
     def stack(self, other):
         """Combine two face forms together.
-- 
2.43.0


From 715ea0317b90cde5a24175c46cbcefde86e1c583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:20 +0000
Subject: [PATCH 58/61] fix: conversions of polyhedra do not depend on the
 units of length

cdd's tolerances are absolute, so conversions and hulls of large or small
polyhedra were wrong, refused or crashed. Rows are now translated and scaled
by powers of two, which is exact.
---
 src/rigeo/polydd.py | 102 +++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 92 insertions(+), 10 deletions(-)

diff --git a/src/rigeo/polydd.py b/src/rigeo/polydd.py
index 9c86419..f732744 100644
--- a/src/rigeo/polydd.py
+++ b/src/rigeo/polydd.py
@@ -3,6 +3,12 @@ import numpy as np
 import cdd
 
 
+def _power_of_two(lengths):
+    """Round lengths to powers of two, by which numbers can be divided and
+    multiplied without rounding errors. Zero is replaced by one."""
+    return 2.0 ** np.round(np.log2(np.where(lengths > 0, lengths, 1.0)))
+
+
 class SpanForm:
     """Span form (V-rep) of a convex polyhedron.
 
@@ -136,9 +142,48 @@ class SpanForm:
         : SpanForm
             A canonicalized version of the span form.
         """
-        mat = self.to_cdd_matrix()
-        mat.canonicalize()
-        return SpanForm.from_cdd_matrix(mat)
+        normalized, center, scale = self._normalized()
+        mat = normalized.to_cdd_matrix()
+        _, redundant = mat.canonicalize()
+
+        # return the original vertices and rays
+        if len(mat.lin_set) == 0:
+            v_idx = [i for i in range(self.nv) if i not in redundant]
+            r_idx = [i for i in range(self.nr) if self.nv + i not in redundant]
+            vertices, rays = None, None
+            if len(v_idx) > 0:
+                vertices = self.vertices[v_idx].astype(float)
+            if len(r_idx) > 0:
+                rays = self.rays[r_idx].astype(float)
+            return SpanForm(vertices=vertices, rays=rays)
+
+        # cdd changes the rows if some of them span a linear subspace
+        span_form = SpanForm.from_cdd_matrix(mat)
+        if span_form.vertices is not None:
+            span_form.vertices = center + scale * span_form.vertices
+        return span_form
+
+    def _normalized(self):
+        """Translate and scale to unit size, as cdd's tolerances are absolute.
+
+        Returns
+        -------
+        : tuple
+            A tuple (normalized, center, scale), such that each vertex of this
+            span form is ``center + scale * v``, where ``v`` is the
+            corresponding vertex of the normalized one.
+        """
+        vertices, rays = self.vertices, self.rays
+        center, scale = np.zeros(self.dim), 1.0
+        if vertices is not None:
+            center = np.mean(vertices, axis=0)
+            scale = _power_of_two(np.max(np.abs(vertices - center)))
+            center = scale * np.round(center / scale)
+            vertices = (vertices - center) / scale
+        if rays is not None:
+            norms = _power_of_two(np.linalg.norm(rays, axis=1))
+            rays = rays / norms[:, None]
+        return SpanForm(vertices=vertices, rays=rays), center, scale
 
     def to_face_form(self):
         """Convert to face form.
@@ -148,10 +193,15 @@ class SpanForm:
         : FaceForm
             The equivalent face form of the polyhedron.
         """
-        Smat = self.to_cdd_matrix()
+        normalized, center, scale = self._normalized()
+        Smat = normalized.to_cdd_matrix()
         poly = cdd.Polyhedron(Smat)
         Fmat = poly.get_inequalities()
-        return FaceForm.from_cdd_matrix(Fmat)
+        face_form = FaceForm.from_cdd_matrix(Fmat)
+
+        # undo the normalization
+        b = scale * face_form.b + face_form.A @ center
+        return FaceForm(A_ineq=face_form.A, b_ineq=b)
 
     def transform(self, rotation=None, translation=None):
         if rotation is None:
@@ -253,9 +303,20 @@ class FaceForm:
         : FaceForm
             A canonicalized version of the face form.
         """
-        mat = self.to_cdd_matrix()
-        mat.canonicalize()
-        return FaceForm.from_cdd_matrix(mat)
+        normalized, scale = self._normalized()
+        mat = normalized.to_cdd_matrix()
+        _, redundant = mat.canonicalize()
+
+        # return the original faces
+        if len(mat.lin_set) == 0 and mat.row_size > 0:
+            idx = [i for i in range(self.nf) if i not in redundant]
+            A, b = self.A[idx].astype(float), self.b[idx].astype(float)
+            return FaceForm(A_ineq=A, b_ineq=b)
+
+        # cdd changes the rows if some of them represent equalities
+        face_form = FaceForm.from_cdd_matrix(mat)
+        face_form.b = scale * face_form.b
+        return face_form
 
     def stack(self, other):
         """Combine two face forms together.
@@ -276,6 +337,21 @@ class FaceForm:
         b = np.concatenate((self.b, other.b))
         return FaceForm(A_ineq=A, b_ineq=b)
 
+    def _normalized(self):
+        """Scale to unit size, as cdd's tolerances are absolute.
+
+        Returns
+        -------
+        : tuple
+            A tuple (normalized, scale), such that each point of this
+            polyhedron is ``scale * x``, where ``x`` is a point of the
+            normalized one.
+        """
+        norms = _power_of_two(np.linalg.norm(self.A, axis=1))
+        b = self.b / norms
+        scale = _power_of_two(np.max(np.abs(b), initial=0))
+        return FaceForm(A_ineq=self.A / norms[:, None], b_ineq=b / scale), scale
+
     def to_span_form(self):
         """Convert to span form (V-rep).
 
@@ -284,10 +360,16 @@ class FaceForm:
         : SpanForm
             The equivalent span form of the polyhedron.
         """
-        Fmat = self.to_cdd_matrix()
+        normalized, scale = self._normalized()
+        Fmat = normalized.to_cdd_matrix()
         poly = cdd.Polyhedron(Fmat)
         Smat = poly.get_generators()
-        return SpanForm.from_cdd_matrix(Smat)
+        span_form = SpanForm.from_cdd_matrix(Smat)
+
+        # undo the normalization
+        if span_form is not None and span_form.vertices is not None:
+            span_form.vertices = scale * span_form.vertices
+        return span_form
 
     def transform(self, rotation=None, translation=None):
         if rotation is None:
-- 
2.43.0


From e9963d47d5dc3cddd42db437199bf980c1e32533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:20 +0000
Subject: [PATCH 59/61] fix: conversions in the pycddlib 3 port do not depend
 on the units of length

---
 src/rigeo/unused/polydd_pycddlib3.py | 102 ++++++++++++++++++++++++---
 1 file changed, 92 insertions(+), 10 deletions(-)

diff --git a/src/rigeo/unused/polydd_pycddlib3.py b/src/rigeo/unused/polydd_pycddlib3.py
index 851c085..dfee861 100644
--- a/src/rigeo/unused/polydd_pycddlib3.py
+++ b/src/rigeo/unused/polydd_pycddlib3.py
@@ -3,6 +3,12 @@ import numpy as np
 import cdd
 
 
+def _power_of_two(lengths):
+    """Round lengths to powers of two, by which numbers can be divided and
+    multiplied without rounding errors. Zero is replaced by one."""
+    return 2.0 ** np.round(np.log2(np.where(lengths > 0, lengths, 1.0)))
+
+
 class SpanForm:
     """Span form (V-rep) of a convex polyhedron.
 
@@ -134,9 +140,48 @@ class SpanForm:
         : SpanForm
             A canonicalized version of the span form.
         """
-        mat = self.to_cdd_matrix()
-        cdd.matrix_canonicalize(mat)
-        return self.from_cdd_matrix(mat)
+        normalized, center, scale = self._normalized()
+        mat = normalized.to_cdd_matrix()
+        _, redundant, _ = cdd.matrix_canonicalize(mat)
+
+        # return the original vertices and rays
+        if len(mat.lin_set) == 0:
+            v_idx = [i for i in range(self.nv) if i not in redundant]
+            r_idx = [i for i in range(self.nr) if self.nv + i not in redundant]
+            vertices, rays = None, None
+            if len(v_idx) > 0:
+                vertices = self.vertices[v_idx].astype(float)
+            if len(r_idx) > 0:
+                rays = self.rays[r_idx].astype(float)
+            return SpanForm(vertices=vertices, rays=rays)
+
+        # cdd changes the rows if some of them span a linear subspace
+        span_form = self.from_cdd_matrix(mat)
+        if span_form.vertices is not None:
+            span_form.vertices = center + scale * span_form.vertices
+        return span_form
+
+    def _normalized(self):
+        """Translate and scale to unit size, as cdd's tolerances are absolute.
+
+        Returns
+        -------
+        : tuple
+            A tuple (normalized, center, scale), such that each vertex of this
+            span form is ``center + scale * v``, where ``v`` is the
+            corresponding vertex of the normalized one.
+        """
+        vertices, rays = self.vertices, self.rays
+        center, scale = np.zeros(self.dim), 1.0
+        if vertices is not None:
+            center = np.mean(vertices, axis=0)
+            scale = _power_of_two(np.max(np.abs(vertices - center)))
+            center = scale * np.round(center / scale)
+            vertices = (vertices - center) / scale
+        if rays is not None:
+            norms = _power_of_two(np.linalg.norm(rays, axis=1))
+            rays = rays / norms[:, None]
+        return SpanForm(vertices=vertices, rays=rays), center, scale
 
     def to_face_form(self):
         """Convert to face form.
@@ -146,10 +191,15 @@ class SpanForm:
         : FaceForm
             The equivalent face form of the polyhedron.
         """
-        Smat = self.to_cdd_matrix()
+        normalized, center, scale = self._normalized()
+        Smat = normalized.to_cdd_matrix()
         poly = cdd.polyhedron_from_matrix(Smat)
         Fmat = cdd.copy_inequalities(poly)
-        return FaceForm.from_cdd_matrix(Fmat, dim=self.dim)
+        face_form = FaceForm.from_cdd_matrix(Fmat, dim=self.dim)
+
+        # undo the normalization
+        b = scale * face_form.b + face_form.A @ center
+        return FaceForm(A_ineq=face_form.A, b_ineq=b)
 
     def transform(self, rotation=None, translation=None):
         if rotation is None:
@@ -250,9 +300,20 @@ class FaceForm:
         : FaceForm
             A canonicalized version of the face form.
         """
-        mat = self.to_cdd_matrix()
-        cdd.matrix_canonicalize(mat)
-        return self.from_cdd_matrix(mat, dim=self.dim)
+        normalized, scale = self._normalized()
+        mat = normalized.to_cdd_matrix()
+        _, redundant, _ = cdd.matrix_canonicalize(mat)
+
+        # return the original faces
+        if len(mat.lin_set) == 0 and len(mat.array) > 0:
+            idx = [i for i in range(self.nf) if i not in redundant]
+            A, b = self.A[idx].astype(float), self.b[idx].astype(float)
+            return FaceForm(A_ineq=A, b_ineq=b)
+
+        # cdd changes the rows if some of them represent equalities
+        face_form = self.from_cdd_matrix(mat, dim=self.dim)
+        face_form.b = scale * face_form.b
+        return face_form
 
     def stack(self, other):
         """Combine two face forms together.
@@ -273,6 +334,21 @@ class FaceForm:
         b = np.concatenate((self.b, other.b))
         return FaceForm(A_ineq=A, b_ineq=b)
 
+    def _normalized(self):
+        """Scale to unit size, as cdd's tolerances are absolute.
+
+        Returns
+        -------
+        : tuple
+            A tuple (normalized, scale), such that each point of this
+            polyhedron is ``scale * x``, where ``x`` is a point of the
+            normalized one.
+        """
+        norms = _power_of_two(np.linalg.norm(self.A, axis=1))
+        b = self.b / norms
+        scale = _power_of_two(np.max(np.abs(b), initial=0))
+        return FaceForm(A_ineq=self.A / norms[:, None], b_ineq=b / scale), scale
+
     def to_span_form(self):
         """Convert to span form (V-rep).
 
@@ -281,10 +357,16 @@ class FaceForm:
         : SpanForm
             The equivalent span form of the polyhedron.
         """
-        Fmat = self.to_cdd_matrix()
+        normalized, scale = self._normalized()
+        Fmat = normalized.to_cdd_matrix()
         poly = cdd.polyhedron_from_matrix(Fmat)
         Smat = cdd.copy_generators(poly)
-        return SpanForm.from_cdd_matrix(Smat)
+        span_form = SpanForm.from_cdd_matrix(Smat)
+
+        # undo the normalization
+        if span_form is not None and span_form.vertices is not None:
+            span_form.vertices = scale * span_form.vertices
+        return span_form
 
     def transform(self, rotation=None, translation=None):
         if rotation is None:
-- 
2.43.0


From 411fed320f7473181f57bfbeb4c663161e819a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:42 +0000
Subject: [PATCH 60/61] fix: trivial faces do not set the scale at which
 polyhedra are converted

---
 src/rigeo/polydd.py                  | 7 +++++--
 src/rigeo/unused/polydd_pycddlib3.py | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/rigeo/polydd.py b/src/rigeo/polydd.py
index f732744..cdc6568 100644
--- a/src/rigeo/polydd.py
+++ b/src/rigeo/polydd.py
@@ -349,8 +349,11 @@ class FaceForm:
         """
         norms = _power_of_two(np.linalg.norm(self.A, axis=1))
         b = self.b / norms
-        scale = _power_of_two(np.max(np.abs(b), initial=0))
-        return FaceForm(A_ineq=self.A / norms[:, None], b_ineq=b / scale), scale
+        # rows of zeros are always or never satisfied, at any scale
+        zero = ~np.any(self.A, axis=1)
+        scale = _power_of_two(np.max(np.abs(b[~zero]), initial=0))
+        b = np.where(zero, np.sign(b), b / scale)
+        return FaceForm(A_ineq=self.A / norms[:, None], b_ineq=b), scale
 
     def to_span_form(self):
         """Convert to span form (V-rep).
diff --git a/src/rigeo/unused/polydd_pycddlib3.py b/src/rigeo/unused/polydd_pycddlib3.py
index dfee861..5435e18 100644
--- a/src/rigeo/unused/polydd_pycddlib3.py
+++ b/src/rigeo/unused/polydd_pycddlib3.py
@@ -346,8 +346,11 @@ class FaceForm:
         """
         norms = _power_of_two(np.linalg.norm(self.A, axis=1))
         b = self.b / norms
-        scale = _power_of_two(np.max(np.abs(b), initial=0))
-        return FaceForm(A_ineq=self.A / norms[:, None], b_ineq=b / scale), scale
+        # rows of zeros are always or never satisfied, at any scale
+        zero = ~np.any(self.A, axis=1)
+        scale = _power_of_two(np.max(np.abs(b[~zero]), initial=0))
+        b = np.where(zero, np.sign(b), b / scale)
+        return FaceForm(A_ineq=self.A / norms[:, None], b_ineq=b), scale
 
     def to_span_form(self):
         """Convert to span form (V-rep).
-- 
2.43.0


From 4b6760da4a6dcf9f67263d5daf39fc3bfe5220be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:09 +0000
Subject: [PATCH 61/61] fix: bounding and inscribed ellipsoids do not depend on
 the units of length

---
 src/rigeo/shape/ellipsoid.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index 3eb42ad..2266d0e 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -742,6 +742,11 @@ def mbe_of_points(points, rcond=None, sphere=False, solver=None):
     # lower-dimensional subspace than R^d
     P = (points - r) @ R
 
+    # solve with the points scaled to unit size, since the accuracy of the
+    # solvers depends on the units of length
+    scale = np.max(np.linalg.norm(P, axis=1))
+    P = P / scale
+
     # ellipsoid is parameterized as ||Ax + b|| <= 1 for the opt problem
     A = cp.Variable((rank, rank), PSD=True)
     b = cp.Variable(rank)
@@ -759,7 +764,7 @@ def mbe_of_points(points, rcond=None, sphere=False, solver=None):
     eigs, V = np.linalg.eigh(A.value)
     half_extents = np.zeros(points.shape[1])
     nz = np.nonzero(eigs)
-    half_extents[nz] = 1.0 / eigs[nz]
+    half_extents[nz] = scale / eigs[nz]
     if sphere:
         # the bounding sphere has the same radius in every direction, including
         # those in which the points have no extent
@@ -769,7 +774,8 @@ def mbe_of_points(points, rcond=None, sphere=False, solver=None):
     rotation = np.hstack((R @ V, N))
     # if np.linalg.det(rotation) < 0:
     #     rotation = -rotation  # TODO
-    center = R @ np.linalg.lstsq(A.value, -b.value, rcond=rcond)[0] + r
+    center = scale * np.linalg.lstsq(A.value, -b.value, rcond=rcond)[0]
+    center = R @ center + r
 
     return Ellipsoid(
         half_extents=half_extents, rotation=rotation, center=center
@@ -788,6 +794,15 @@ def mie_inequality_form(A, b, sphere=False, solver=None):
     dim = A.shape[1]
     n = b.shape[0]
 
+    # solve with the polyhedron scaled to unit size, since the accuracy of the
+    # solvers depends on the units of length
+    norms = np.linalg.norm(A, axis=1)
+    norms = np.where(norms > 0, norms, 1.0)
+    A, b = A / norms[:, None], b / norms
+    scale = np.max(np.abs(b))
+    scale = scale if scale > 0 else 1.0
+    b = b / scale
+
     B = cp.Variable((dim, dim), PSD=True)
     c = cp.Variable(dim)
 
@@ -802,7 +817,9 @@ def mie_inequality_form(A, b, sphere=False, solver=None):
     problem = cp.Problem(objective, constraints)
     problem.solve(solver=solver)
 
-    E = B.value @ B.value
-    return Ellipsoid.from_shape_matrix(S=np.linalg.inv(E), center=c.value)
+    E = scale**2 * B.value @ B.value
+    return Ellipsoid.from_shape_matrix(
+        S=np.linalg.inv(E), center=scale * c.value
+    )
 
 
-- 
2.43.0

