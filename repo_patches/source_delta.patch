From 44a050b5a797027f39dbedc1d6072ffa56f22b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:40 +0000
Subject: [PATCH 01/47] fix: let the points of a Volume be reassigned

Assigning Volume.points appended the new points to an empty 1D array and
raised ValueError, so no point-defined Volume could be transformed.
---
 czone/volume/volume.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/czone/volume/volume.py b/czone/volume/volume.py
index acaf8d7..32b2b8c 100644
--- a/czone/volume/volume.py
+++ b/czone/volume/volume.py
@@ -176,7 +176,8 @@ class Volume(BaseVolume):
     @points.setter
     def points(self, points):
         try:
-            self._points = np.array([])  #clear points
+            self._points = None  #clear points
+            self._hull = None
             self.addPoints(points)
         except AssertionError:
             raise ValueError("Check shape of input array.")
-- 
2.43.0


From 4447851832891929da8a4964a7dac9f4d5f80e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:40 +0000
Subject: [PATCH 02/47] fix: update interior region of a Volume when points are
 added

addPoints extended the hull but left the Delaunay triangulation used for
interiority checks at the previous hull.
---
 czone/volume/volume.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/czone/volume/volume.py b/czone/volume/volume.py
index 32b2b8c..cb68192 100644
--- a/czone/volume/volume.py
+++ b/czone/volume/volume.py
@@ -269,10 +269,11 @@ class Volume(BaseVolume):
             self._points = np.append(self._points, points, axis=0)
 
         #if hull created, update points; else, create hull
-        try:
-            self._hull.add_points(points)
-        except AttributeError:
+        if self._hull is None:
             self.createHull()
+        else:
+            self._hull.add_points(points)
+            self._tri = Delaunay(self.hull.points[self.hull.vertices])
 
     def transform(self, transformation: BaseTransform):
 
-- 
2.43.0


From 25d25569078f8274212ed84d4cff8a8d2a0a0505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:40 +0000
Subject: [PATCH 03/47] fix: let Reflections be applied to algebraic objects

The override raised TypeError for every object (misplaced isinstance
parenthesis) and left out plane normals and cylinders; the inherited
MatrixTransform routine handles all of them.
---
 czone/transform/transform.py | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/czone/transform/transform.py b/czone/transform/transform.py
index ea55165..7f00b9a 100644
--- a/czone/transform/transform.py
+++ b/czone/transform/transform.py
@@ -335,18 +335,6 @@ class Reflection(MatrixTransform):
     def params(self):
         return self.plane
 
-    def applyTransformation_alg(self, alg_object):
-        if (isinstance(alg_object), Sphere):
-            alg_object.center = np.dot(
-                self.matrix,
-                (alg_object.center - self.origin).T).T + self.origin
-
-        if (isinstance(alg_object), Plane):
-            alg_object.point = np.dot(
-                self.matrix, (alg_object.point - self.origin).T).T + self.origin
-
-        return alg_object
-
 
 class MultiTransform(BaseTransform):
     """Transformation sequence which applies a numeruous transformations in succession.
-- 
2.43.0


From a39dd98785dc477e94c7af62e53ed5299d708515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:11 +0000
Subject: [PATCH 04/47] fix: use only the vertices of a plane-bounded Volume as
 its bounding box

get_bounding_box passed on the (vertices, status) pair of the plane utility,
so a Volume defined by planes alone could not be populated.
---
 czone/volume/volume.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/czone/volume/volume.py b/czone/volume/volume.py
index cb68192..fcfec52 100644
--- a/czone/volume/volume.py
+++ b/czone/volume/volume.py
@@ -338,7 +338,9 @@ class Volume(BaseVolume):
 
             planes = [obj for obj in self.alg_objects if isinstance(obj, Plane)]
             if len(planes) > 3:
-                return get_bounding_box_planes(planes)
+                bbox, status = get_bounding_box_planes(planes)
+                if status == 0:
+                    return bbox
 
             cylinders = [obj for obj in self.alg_objects if isinstance(obj, Cylinder)]
             if len(cylinders) > 0:
-- 
2.43.0


From f9e4ee47eff05b49f99fee7599cf7f461f95b996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:08 +0000
Subject: [PATCH 05/47] fix: search all of space for the region bounded by a
 set of planes

linprog restricts variables to be non-negative by default, so regions away
from the positive octant were reported as infeasible. Unbounded regions
were returned as successful with infinite vertices.
---
 czone/volume/algebraic.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/czone/volume/algebraic.py b/czone/volume/algebraic.py
index 51c693e..4b4687e 100644
--- a/czone/volume/algebraic.py
+++ b/czone/volume/algebraic.py
@@ -409,13 +409,17 @@ def get_bounding_box(planes: List[Plane]):
     c = np.zeros(4)
     c[-1] = -1
 
-    res = linprog(c, A_ub=np.hstack([A, norms]), b_ub=-1.0 * d)
+    res = linprog(c, A_ub=np.hstack([A, norms]), b_ub=-1.0 * d,
+                  bounds=[(None, None)] * 3 + [(0, None)])
     if (res.status == 0):
         try:
             hs = HalfspaceIntersection(np.hstack([A, d]), res.x[:-1])
         except QhullError:
             return np.empty((0,3)), 2
-            
+
+        if not np.all(np.isfinite(hs.intersections)):
+            return np.empty((0,3)), 3
+
         return hs.intersections - shift, res.status
     else:
         return np.empty((0,3)), res.status
-- 
2.43.0


From f41b17608b34df8061abbbce4fe18ccaa05eccf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:11 +0000
Subject: [PATCH 06/47] fix: keep planes on their surface under non-orthogonal
 MatrixTransforms

---
 czone/transform/transform.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/czone/transform/transform.py b/czone/transform/transform.py
index 7f00b9a..f1ddcf6 100644
--- a/czone/transform/transform.py
+++ b/czone/transform/transform.py
@@ -234,7 +234,9 @@ class MatrixTransform(BaseTransform):
             else:
                 alg_object.point = np.dot(self.matrix, (alg_object.point).T).T
 
-            alg_object.normal = np.dot(self.matrix, (alg_object.normal).T).T
+            # normals transform contravariantly to points
+            alg_object.normal = np.linalg.solve(self.matrix.T,
+                                                alg_object.normal)
 
         if isinstance(alg_object, Cylinder):
             if not (self.origin is None):
-- 
2.43.0


From 92583f62a20b04d6802599e5e38535434c629c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:14 +0000
Subject: [PATCH 07/47] fix: bounding box of Cylinders with axis along (1,1,1)

---
 czone/volume/algebraic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/czone/volume/algebraic.py b/czone/volume/algebraic.py
index 4b4687e..4f6c0c7 100644
--- a/czone/volume/algebraic.py
+++ b/czone/volume/algebraic.py
@@ -320,6 +320,8 @@ class Cylinder(BaseAlgebraic):
         # get vectors perpendicular to axis
         vs_0 = np.array([[1,1,1]]).T # any vector works; fix to make generation stable
         vs_0 = vs_0/np.linalg.norm(vs_0)
+        if np.linalg.norm(np.cross(vs_0, vz, axis=0)) < 1e-3: # unless parallel to axis
+            vs_0 = np.array([[1.0,-1.0,0.0]]).T
         vs_0 = vs_0 - (vs_0.T @ vz) * vz
         vs_0 = vs_0/np.linalg.norm(vs_0)
 
-- 
2.43.0


From 3afd238a049626cac442c02fc641371365a3c626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:38 +0000
Subject: [PATCH 08/47] fix: keep all construction parameters in
 Volume.from_volume

Volumes without a generator could not be copied, the tolerance was lost and
keywords other than generator and transformation were ignored.
---
 czone/volume/volume.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/czone/volume/volume.py b/czone/volume/volume.py
index fcfec52..8c543e6 100644
--- a/czone/volume/volume.py
+++ b/czone/volume/volume.py
@@ -367,13 +367,13 @@ class Volume(BaseVolume):
                     - generator=BaseGenerator to replace generator associated with volume.
                     - Any kwargs accepted in creation of Volume object.
         """
-        new_volume = Volume(points=self.points,
-                            alg_objects=self.alg_objects,
-                            priority=self.priority)
-        if "generator" in kwargs.keys():
-            new_volume.add_generator(kwargs["generator"])
-        else:
-            new_volume.add_generator(self.generator)
+        params = {"points": self.points,
+                  "alg_objects": self.alg_objects,
+                  "generator": self.generator,
+                  "priority": self.priority,
+                  "tolerance": self.tolerance}
+        params.update({k: v for k, v in kwargs.items() if k != "transformation"})
+        new_volume = Volume(**params)
 
         if "transformation" in kwargs.keys():
             for t in kwargs["transformation"]:
-- 
2.43.0


From a31bbc59bd5ca69737ab73664abaaeb3ded7ecd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:41 +0000
Subject: [PATCH 09/47] fix: let Volumes with non-crystalline generators be
 transformed

AmorphousGenerator and NullGenerator had no transform method, so any locked
transformation of a Volume owning one raised an AttributeError.
---
 czone/generator/generator.py | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/czone/generator/generator.py b/czone/generator/generator.py
index aa3559a..02d7e31 100644
--- a/czone/generator/generator.py
+++ b/czone/generator/generator.py
@@ -421,6 +421,26 @@ class AmorphousGenerator(BaseGenerator):
             self._old_result = (coords, np.ones(coords.shape[0]) * self.species)
             return self.old_result
 
+    def transform(self, transformation: BaseTransform):
+        """Transform origin and previously generated atoms, if there are any.
+
+        Args:
+            transformation (BaseTransform): Transformation object from transforms module.
+        """
+        assert (isinstance(transformation, BaseTransform)
+               ), "Supplied transformation not transformation object."
+
+        if not transformation.basis_only:
+            if self.origin is not None:
+                self.origin = np.squeeze(
+                    transformation.applyTransformation(
+                        np.reshape(self.origin, (1, 3))))
+
+            if self.old_result is not None:
+                coords, species = self.old_result
+                self._old_result = (transformation.applyTransformation(coords),
+                                    species)
+
 
 class NullGenerator(BaseGenerator):
     """Generator object for empty space.
@@ -436,4 +456,9 @@ class NullGenerator(BaseGenerator):
         pass
 
     def supply_atoms(self, bbox):
-        return np.empty((0,3)), np.empty((0,))
\ No newline at end of file
+        return np.empty((0,3)), np.empty((0,))
+
+    def transform(self, transformation: BaseTransform):
+        """Empty space is invariant under transformations."""
+        assert (isinstance(transformation, BaseTransform)
+               ), "Supplied transformation not transformation object."
-- 
2.43.0


From 7bb5ecf1989569b11c2704a897eeed5fce1a0827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:05 +0000
Subject: [PATCH 10/47] fix: place lattice vectors in the columns of a
 Generator's bases

Voxel bases hold lattice vectors as columns everywhere they are used, while
pymatgen holds them as rows, so any non-orthogonal cell was distorted.
---
 czone/generator/generator.py | 4 ++--
 czone/volume/voxel.py        | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/czone/generator/generator.py b/czone/generator/generator.py
index 02d7e31..e20dcb0 100644
--- a/czone/generator/generator.py
+++ b/czone/generator/generator.py
@@ -121,9 +121,9 @@ class Generator(BaseGenerator):
 
         # check if voxel exists, if so, copy origin
         if self.voxel is None:
-            self.voxel = Voxel(bases=structure.lattice.matrix)
+            self.voxel = Voxel(bases=structure.lattice.matrix.T)
         else:
-            self.voxel = Voxel(bases=structure.lattice.matrix,
+            self.voxel = Voxel(bases=structure.lattice.matrix.T,
                                origin=self.origin)
 
     @property
diff --git a/czone/volume/voxel.py b/czone/volume/voxel.py
index 04e7bd7..6bb1d47 100644
--- a/czone/volume/voxel.py
+++ b/czone/volume/voxel.py
@@ -48,7 +48,7 @@ class Voxel():
 
     @property
     def bases(self):
-        """Basis vectors defining crystal unit cell. Vectors are rows of matrix."""
+        """Basis vectors defining crystal unit cell. Vectors are columns of matrix."""
         return self._bases
 
     @bases.setter
@@ -58,9 +58,9 @@ class Voxel():
         assert (
             bases.shape == (3, 3)
         ), '''Bases must be 3x3 numpy array that defines vectors that span 3D space
-            [0,:] = [x_1, y_1, z_1]
-            [1,:] = [x_2, y_2, z_2]
-            [2,:] = [x_3, y_3, z_3]'''
+            [:,0] = [x_1, y_1, z_1]
+            [:,1] = [x_2, y_2, z_2]
+            [:,2] = [x_3, y_3, z_3]'''
 
         #check for collinearity
         assert (not self._collinear(
-- 
2.43.0


From 7d9799cf97a2362efbdedd3d421ec76b49519266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:08 +0000
Subject: [PATCH 11/47] fix: supply every atom in the region when sites lie
 outside the unit cell

Fractional coordinates outside of [0,1) put atoms outside of the cells tiled
over the bounding region, leaving gaps at its faces.
---
 czone/generator/generator.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/czone/generator/generator.py b/czone/generator/generator.py
index e20dcb0..61f5736 100644
--- a/czone/generator/generator.py
+++ b/czone/generator/generator.py
@@ -202,6 +202,11 @@ class Generator(BaseGenerator):
         min_extent, max_extent = self.voxel.get_extents(bbox)
         fcoords = np.copy(
             self.coords)  #grab fractional in case bases are rotated
+
+        # extend grid such that atoms outside of their own unit cell also span box
+        min_extent = min_extent - np.floor(np.max(fcoords, axis=0)).astype(int)
+        max_extent = max_extent - np.floor(np.min(fcoords, axis=0)).astype(int)
+
         # get matrix representing unit cells as grid
         l = [
             range(min_extent[0], max_extent[0] + 1),
-- 
2.43.0


From f028d0f38ca54fbca5958548cd474bdeebc6652b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:36 +0000
Subject: [PATCH 12/47] fix: supply amorphous atoms at the requested density
 inside the bounding box

AmorphousGenerator ignored its density and always placed the block at the
global origin, leaving volumes located elsewhere empty.
---
 czone/generator/generator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/czone/generator/generator.py b/czone/generator/generator.py
index 61f5736..99eef33 100644
--- a/czone/generator/generator.py
+++ b/czone/generator/generator.py
@@ -422,7 +422,9 @@ class AmorphousGenerator(BaseGenerator):
             return self.old_result
         else:
             coords = gen_p_substrate(
-                np.max(bbox, axis=0) - np.min(bbox, axis=0), self.min_dist)
+                np.max(bbox, axis=0) - np.min(bbox, axis=0), self.min_dist,
+                self.density)
+            coords += np.min(bbox, axis=0)
             self._old_result = (coords, np.ones(coords.shape[0]) * self.species)
             return self.old_result
 
-- 
2.43.0


From 44fcbbba22bce710f35231468edc650084bd5145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:40 +0000
Subject: [PATCH 13/47] fix: compare all atoms closer than min_dist across
 periodic boundaries

The voxels at the upper faces of amorphous blocks were narrower than the rest,
such that close atoms could be two voxels apart across a periodic boundary.
---
 czone/generator/amorphous_algorithms.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/czone/generator/amorphous_algorithms.py b/czone/generator/amorphous_algorithms.py
index 168919e..9a6e86e 100644
--- a/czone/generator/amorphous_algorithms.py
+++ b/czone/generator/amorphous_algorithms.py
@@ -28,6 +28,10 @@ def get_p_dist_batch(compare_coords, new_coords, dims, min_dist_2):
     dists = np.sum(np.min(np.stack([dists_0, dists_1], axis=ax), axis=ax)**2.0, axis=2)
     return np.all(dists > min_dist_2, axis=1)
 
+def get_num_blocks(min_size, dims):
+    """Get number of equal blocks of at least min_size which dims divide into."""
+    return np.maximum(np.floor(np.array(dims) / min_size), 1).astype(int)
+
 def get_tuples(tx, ty, tz):
 
     tlist = [(x, y, z) for x in tx for y in ty for z in tz]
@@ -42,7 +46,7 @@ def get_tuples(tx, ty, tz):
 
 def get_voxels(min_dist, dims):
     """Get voxel and neighbor list."""
-    num_blocks = np.ceil(dims / (min_dist)).astype(int)
+    num_blocks = get_num_blocks(min_dist, dims)
     voxels = []
     neighbors = []
     for i in range(num_blocks[0]):
@@ -121,6 +125,7 @@ def gen_p_substrate(dims: List[float],
 
     # get voxel grid and list of local voxel neighbors
     voxels, neighbors = get_voxels(min_dist, dims)
+    voxel_size = dims / get_num_blocks(min_dist, dims)
 
     if print_progress:
         print("Starting particle loop for %i particles" % num_c)
@@ -132,7 +137,7 @@ def gen_p_substrate(dims: List[float],
             print("On %i of %i" % (i, num_c))
         new_coord = rng.uniform(size=(1, 3)) * dims
 
-        block = np.floor(new_coord / (min_dist)).astype(int)
+        block = np.floor(new_coord / voxel_size).astype(int)
         block = block[0]
         tlist = neighbors[block[0]][block[1]][block[2]]
         parts = []
@@ -143,7 +148,7 @@ def gen_p_substrate(dims: List[float],
         while ((len(p_dist) > 0) and (np.min(p_dist) < min_dist_2)):
 
             new_coord = rng.uniform(size=(1, 3)) * dims
-            block = np.floor(new_coord / (min_dist)).astype(int)
+            block = np.floor(new_coord / voxel_size).astype(int)
             block = block[0]
             tlist = neighbors[block[0]][block[1]][block[2]]
             parts = []
@@ -179,7 +184,8 @@ def gen_p_substrate_batched(dims: List[float],
     coords = np.zeros((num_c, 3))
     dims = np.array([dim_x, dim_y, dim_z])
     voxel_size = min_dist*voxel_scale
-    num_blocks = np.ceil(dims / (voxel_size)).astype(int)
+    num_blocks = get_num_blocks(voxel_size, dims)
+    voxel_size = dims / num_blocks
     tot_blocks = np.prod(num_blocks)
     Nt = np.array([1, num_blocks[0], num_blocks[0]*num_blocks[1]])
 
-- 
2.43.0


From e5ee9afe40faaf7a39d8e884470e1f2d49c39d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:36 +0000
Subject: [PATCH 14/47] fix: surface alignment brings both planes into contact

s2s_alignment raised on single points, rotated the caller's plane in place,
ignored the rotation of the moving point and moved planes lying above the
target away from it.
---
 czone/transform/transform.py | 10 ++++------
 czone/volume/algebraic.py    |  2 +-
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/czone/transform/transform.py b/czone/transform/transform.py
index f1ddcf6..d33e2e3 100644
--- a/czone/transform/transform.py
+++ b/czone/transform/transform.py
@@ -548,14 +548,12 @@ def s2s_alignment(M_plane: Plane, T_plane: Plane, M_point: np.ndarray,
 
     R_t = Rotation(matrix=R, origin=M_plane.point)
 
-    #TODO: why aren't these being used?
-    M_plane_r = R_t.applyTransformation_alg(M_plane)
-    M_point_r = R_t.applyTransformation(M_point)
+    M_point_r = R_t.applyTransformation(np.reshape(M_point, (3,)))
 
-    proj_point = T_plane.project_point(M_point)
-    plane_shift = T_plane.project_point(T_point) - proj_point
+    proj_point = T_plane.project_point(M_point_r)
+    plane_shift = T_plane.project_point(np.reshape(T_point, (3,))) - proj_point
 
-    ortho_shift = 1.0 * T_plane.dist_from_plane(M_plane.point) * T_plane.normal
+    ortho_shift = -1.0 * T_plane.sdist_from_plane(M_plane.point) * T_plane.normal
     T_t = Translation(shift=ortho_shift + plane_shift)
 
     return MultiTransform(transforms=[R_t, T_t])
diff --git a/czone/volume/algebraic.py b/czone/volume/algebraic.py
index 4f6c0c7..3ad81a5 100644
--- a/czone/volume/algebraic.py
+++ b/czone/volume/algebraic.py
@@ -220,7 +220,7 @@ class Plane(BaseAlgebraic):
         Returns:
             Projected point lying on surface of Plane.
         """
-        return point - self.sdist_from_plane(point)[:,None] * self.normal[None,:]
+        return point - np.multiply.outer(self.sdist_from_plane(point), self.normal)
 
 
 class Cylinder(BaseAlgebraic):
-- 
2.43.0


From 4a807653a6372693180d68e4c860b8079df902b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:40 +0000
Subject: [PATCH 15/47] fix: rotation utilities for collinear vectors, vector
 sets and euler angles

rot_vtv and vangle returned NaN for parallel and antiparallel vectors,
rot_align did not unpack the result of align_vectors, and extrinsic rot_zxz
applied its angles in the wrong order.
---
 czone/transform/transform.py | 10 +++++-----
 czone/util/misc.py           |  3 ++-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/czone/transform/transform.py b/czone/transform/transform.py
index d33e2e3..a53f081 100644
--- a/czone/transform/transform.py
+++ b/czone/transform/transform.py
@@ -455,12 +455,12 @@ def rot_vtv(v: np.ndarray, vt: np.ndarray) -> np.ndarray:
     """
     v = np.array(v).reshape(3,)
     vt = np.array(vt).reshape(3,)
-    eps = np.finfo(float).eps  #get machine epsilon for collinearity check
-    theta = np.arccos(np.dot(v, vt) / (np.linalg.norm(v) * np.linalg.norm(vt)))
+    eps = np.sqrt(np.finfo(float).eps)  #precision of direction of cross product
+    theta = np.arctan2(np.linalg.norm(np.cross(v, vt)), np.dot(v, vt))
     if (theta < eps):
         return np.eye(3)
     elif (np.pi - theta < eps):
-        e_i = np.eye(3)[np.argmin(v)]  #grab axis along minimum component of v
+        e_i = np.eye(3)[np.argmin(np.abs(v))]  #grab axis along minimum component of v
         rot_axis = np.cross(v, e_i).astype(float)
     else:
         rot_axis = np.cross(v, vt).astype(float)
@@ -484,7 +484,7 @@ def rot_align(v: np.ndarray, vt: np.ndarray) -> np.ndarray:
         np.ndarray: 3x3 rotation matrix
     """
 
-    return scRotation.align_vectors(vt, v).as_matrix()
+    return scRotation.align_vectors(vt, v)[0].as_matrix()
 
 
 def rot_zxz(alpha: float,
@@ -514,7 +514,7 @@ def rot_zxz(alpha: float,
         return scRotation.from_euler("ZXZ", [alpha, beta, gamma],
                                      degrees=False).as_matrix()
     elif convention == "extrinsic":
-        return scRotation.from_euler("zxz", [gamma, alpha, beta],
+        return scRotation.from_euler("zxz", [gamma, beta, alpha],
                                      degrees=False).as_matrix()
     else:
         raise (ValueError("Invalid argument for convention."))
diff --git a/czone/util/misc.py b/czone/util/misc.py
index cce4e35..875f040 100644
--- a/czone/util/misc.py
+++ b/czone/util/misc.py
@@ -64,4 +64,5 @@ def vangle(v1: np.ndarray, v2: np.ndarray) -> float:
     Returns:
         float: angle in radians
     """
-    return np.arccos(np.dot(v1, v2) / (np.linalg.norm(v1) * np.linalg.norm(v2)))
\ No newline at end of file
+    cos = np.dot(v1, v2) / (np.linalg.norm(v1) * np.linalg.norm(v2))
+    return np.arccos(np.clip(cos, -1.0, 1.0))
\ No newline at end of file
-- 
2.43.0


From 8e0caa208aa5590515e99162089b223627a6b85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:20 +0000
Subject: [PATCH 16/47] fix: construct strain fields with fixed origins and
 with strain functions

Comparing an array origin to "generator" raised, IStrain could not be created
or applied at all, it projected onto the wrong crystal axes, and any string
was accepted as mode.
---
 czone/transform/strain.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/czone/transform/strain.py b/czone/transform/strain.py
index edf9327..1fd61e3 100644
--- a/czone/transform/strain.py
+++ b/czone/transform/strain.py
@@ -74,7 +74,7 @@ class BaseStrain(ABC):
 
     @mode.setter
     def mode(self, val):
-        if val == "crystal" or "standard":
+        if val in ("crystal", "standard"):
             self._mode = val
         else:
             raise ValueError("Mode must be either crystal or standard")
@@ -107,8 +107,8 @@ class HStrain(BaseStrain):
 
         self.mode = mode
 
-        if origin != "generator":
-            self.origin = origin
+        if not isinstance(origin, str):
+            self.origin = np.array(origin)
             self.origin_type = "global"
         else:
             super().__init__()
@@ -181,21 +181,23 @@ class IStrain(BaseStrain):
     """
 
     def __init__(self, fun=None, origin="generator", mode="crystal", **kwargs):
+        self.mode = mode
+        self.fun_kwargs = kwargs
+
         if not fun is None:
             self.strain_fun = fun
         else:
             # apply no strain
-            self.strain_fun = lambda x: x
-
-        self.mode = mode
+            self.strain_fun = lambda x, **kwargs: x
 
-        if origin != "generator":
-            self.origin = origin
+        if not isinstance(origin, str):
+            self.origin = np.array(origin)
+            self.origin_type = "global"
         else:
             super().__init__()
+            self.origin_type = "generator"
 
         self._bases = None
-        self.fun_kwargs = kwargs
 
     ##############
     # Properties #
@@ -221,8 +223,11 @@ class IStrain(BaseStrain):
     @strain_fun.setter
     def strain_fun(self, fun: Callable[[np.ndarray], np.ndarray]):
         try:
-            ref_arr = np.random.rand((100, 3))
-            test_arr = fun(ref_arr, **self.fun_kwargs)
+            ref_arr = np.random.rand(100, 3)
+            if self.mode == "crystal":
+                test_arr = fun(ref_arr, basis=np.eye(3), **self.fun_kwargs)
+            else:
+                test_arr = fun(ref_arr, **self.fun_kwargs)
             assert (test_arr.shape == (100, 3))
         except AssertionError:
             raise ValueError(
@@ -241,13 +246,13 @@ class IStrain(BaseStrain):
 
         if self.mode == "crystal":
             # project onto crystal coordinates
-            sp = sp @ np.linalg.inv(self.bases)
+            sp = sp @ np.linalg.inv(self.bases).T
 
             # strain
             sp = self.strain_fun(sp, basis=self.bases, **self.fun_kwargs)
 
             # project back into real space
-            sp = sp @ self.bases
+            sp = sp @ self.bases.T
         else:
             # strain
             sp = self.strain_fun(sp, **self.fun_kwargs)
-- 
2.43.0


From 7734b2d410c1e565037691b0811a24b002ca37c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:09 +0000
Subject: [PATCH 17/47] fix: keep tracking the same atom when atoms are removed
 from a Molecule

The tracked index was not adjusted for removed atoms, negative indices were
not recognized as the origin, new_origin_idx was ignored and a rejected
origin index left the molecule without an origin.
---
 czone/molecule/molecule.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/czone/molecule/molecule.py b/czone/molecule/molecule.py
index e6f9a17..75eb4c1 100644
--- a/czone/molecule/molecule.py
+++ b/czone/molecule/molecule.py
@@ -105,16 +105,24 @@ class BaseMolecule(ABC):
             if np.abs(new_origin_idx) >= self.atoms.shape[0]:
                 raise IndexError(f"Supplied new_origin_idx {new_origin_idx} is out of bounds for {self.atoms.shape[0]} atom molecule")
             
-        if new_origin_idx in indices:
+        N = self.atoms.shape[0]
+        kept = np.delete(np.arange(N), indices)
+
+        if new_origin_idx is not None and new_origin_idx % N not in kept:
             raise IndexError(f"Supplied new_origin_idx {new_origin_idx} in set of indices of atoms to be removed.")
-        
-        if self._origin_tracking and self._origin_idx in indices:
-            raise NotImplementedError # TODO: Implement origin resetting behavior and warn user if origin is reset to a new index
-            # self._origin_idx = new_origin_idx # TEST
+
+        if new_origin_idx is None and self._origin_tracking:
+            new_origin_idx = self._origin_idx
+            if new_origin_idx % N not in kept:
+                raise NotImplementedError # TODO: Implement origin resetting behavior and warn user if origin is reset to a new index
 
         self._species = np.delete(self.species, indices, axis=0)
         self._atoms = np.delete(self.atoms, indices, axis=0)
 
+        if new_origin_idx is not None:
+            # atom has a new index once others are removed
+            self.set_origin(idx=int(np.searchsorted(kept, new_origin_idx % N)))
+
     @property
     def ase_atoms(self):
         """Collection of atoms in molecule as ASE Atoms object."""
@@ -197,8 +205,8 @@ class BaseMolecule(ABC):
             self._origin = point
 
         elif idx is not None: 
-            self._origin_tracking = True
             self._origin_idx = idx
+            self._origin_tracking = True
 
     @property
     def orientation(self):
-- 
2.43.0


From a1ee89b2b89ad050870e87c51eddd18f6eeb8201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:13 +0000
Subject: [PATCH 18/47] fix: write scenes in every file format supported by ASE

Scene.to_file silently wrote nothing for any explicit format other than
prismatic, and raised when Debye-Waller factors were supplied.
---
 czone/scene/scene.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/czone/scene/scene.py b/czone/scene/scene.py
index ca8b1e3..5495572 100644
--- a/czone/scene/scene.py
+++ b/czone/scene/scene.py
@@ -174,14 +174,10 @@ class Scene():
             fname (str): output file name.
             **kwargs: any key word arguments otherwise accepted by ASE write.
         """
-        if "format" in kwargs.keys():
-            if kwargs["format"] == "prismatic":
-                dwf = set(self.all_species)
-                dw_default = (0.1**2.0) * 8 * np.pi**2.0
-                dwf = {str(Symbols([x])): dw_default for x in dwf}
-                ase_write(filename=fname,
-                          images=self.ase_atoms,
-                          debye_waller_factors=dwf,
-                          **kwargs)
-        else:
-            ase_write(filename=fname, images=self.ase_atoms, **kwargs)
+        if kwargs.get("format") == "prismatic":
+            dwf = set(self.all_species)
+            dw_default = (0.1**2.0) * 8 * np.pi**2.0
+            dwf = {str(Symbols([x])): dw_default for x in dwf}
+            kwargs.setdefault("debye_waller_factors", dwf)
+
+        ase_write(filename=fname, images=self.ase_atoms, **kwargs)
-- 
2.43.0


From 6f1ede6db30fa3a09c874f09b1111d4380b7a4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:52 +0000
Subject: [PATCH 19/47] fix: count every pair of atoms within the cutoff once
 in calc_rdf

Voxels were paired with the neighbors of an unrelated voxel, neighbors were
counted repeatedly on small periodic grids, close pairs across periodic
boundaries and atoms on the upper faces were missed, the input coordinates
were shifted in place, and non-periodic distances required dimensions.
---
 czone/util/measure.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/czone/util/measure.py b/czone/util/measure.py
index 067fde3..c261c55 100644
--- a/czone/util/measure.py
+++ b/czone/util/measure.py
@@ -176,6 +176,8 @@ def get_sdist_fun(dims=None, px=False, py=False, pz=False):
         def sdist(A, B):
             return np.sum((A - B)**2.0, axis=1)
 
+        return sdist
+
     # grab relevant dimensions
     cols = [x for x, y in zip([0, 1, 2], [px, py, pz]) if y]
     sdims = np.array(dims)[cols]
@@ -208,17 +210,19 @@ def calc_rdf(coords, cutoff=20.0, px=True, py=True, pz=True):
 
     """
     # shift outside of negative octants
-    coords -= np.min(coords, axis=0)
+    coords = coords - np.min(coords, axis=0)
 
     # get box size and number of voxels in each direction
     dims = np.max(coords, axis=0)
-    N = np.ceil(dims / cutoff).astype(int)
+    N = np.maximum(np.floor(dims / cutoff), 1).astype(int)
+    voxel_size = np.where(dims > 0, dims, 1.0) / N
 
     Nt = np.array([1, N[0], N[0] * N[1]])
 
     # get voxel neighbor list and 1D voxel idx for each obj
     nn = get_voxel_grid(N, px, py, pz)
-    box_idx = (np.floor(coords / cutoff) @ Nt).astype(int)
+    box_idx = np.minimum(np.floor(coords / voxel_size), N - 1)
+    box_idx = (box_idx @ Nt).astype(int)
 
     # get periodic distance calculation
     f_sdist = get_sdist_fun(dims, px, py, pz)
@@ -230,14 +234,14 @@ def calc_rdf(coords, cutoff=20.0, px=True, py=True, pz=True):
         parts.append([int(x) for x in part_ids[box_idx == i]])
 
     # do 3D arrays so that distances are broadcasted/batched
-    counts = np.zeros(int(cutoff / 0.1))
+    counts = np.zeros(int(np.round(cutoff / 0.1)))
 
     # for each voxel, calculate distance of owned particles to all possible
     # neighbors within cutoff distance
     for i in range(np.prod(N)):
         cur_parts = coords[parts[i], :][:, :, None]
 
-        for n in nn[box_idx[i]]:
+        for n in set(nn[i]):
             neighbor_parts = (coords[parts[n], :].T)[None, :, :]
             dist = np.sqrt(f_sdist(cur_parts, neighbor_parts))
 
-- 
2.43.0


From 97397c6d5f3a92591188a16d4dc2cf9376b72863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:55 +0000
Subject: [PATCH 20/47] fix: reject split requests that cannot be satisfied

When l - 2m equals (n-1)m there are not enough positions in [m, l-m) and
get_N_splits never returned.
---
 czone/util/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/util/misc.py b/czone/util/misc.py
index 875f040..b3820e1 100644
--- a/czone/util/misc.py
+++ b/czone/util/misc.py
@@ -31,7 +31,7 @@ def get_N_splits(n: int, m: int, l: int, seed: int = None) -> List[int]:
     if n == 0:
         return []
         
-    if (l - 2 * m < (n - 1) * m):
+    if (l - 2 * m <= (n - 1) * m):
         raise ValueError("m is too large for number of splits requested and l")
     rng = np.random.default_rng(seed=seed)
 
-- 
2.43.0


From bd82b3afe98b89473713dea22377ab404bd1ccf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:40 +0000
Subject: [PATCH 21/47] fix: snap planes onto the lattice planes of the crystal
 as generated

snap_plane_near_point ignored the origin of the generator, rounded each
coordinate on its own instead of finding the nearest plane, and applied
strain differently to the point, the plane and the normal.
---
 czone/volume/algebraic.py | 58 ++++++++++++++++-----------------------
 1 file changed, 23 insertions(+), 35 deletions(-)

diff --git a/czone/volume/algebraic.py b/czone/volume/algebraic.py
index 3ad81a5..2fc0878 100644
--- a/czone/volume/algebraic.py
+++ b/czone/volume/algebraic.py
@@ -448,53 +448,41 @@ def snap_plane_near_point(point: np.ndarray,
 
     miller_indices = np.array(miller_indices)
 
+    # get coordinate system of crystal as it is generated
+    origin, bases = generator.voxel.origin, generator.voxel.sbases
 
     # check if generator has a strain field
-    if generator.strain_field is None:
-        # get point coordinates in generator coordinate system
-        point_fcoord = np.array(np.linalg.solve(generator.voxel.sbases, point))
-    else:
+    if generator.strain_field is not None:
         assert ( isinstance(
             generator.strain_field, HStrain)), "Finding Miller planes with inhomogenous strain fields is not supported."
 
-        if generator.strain_field.mode == "crystal":
-            H = generator.strain_field.matrix
-            point_fcoord = np.array(np.linalg.solve(H @ generator.voxel.sbases, point))
+        generator.strain_field.scrape_params(generator)
+        strained = generator.strain_field.apply_strain(
+            np.vstack([origin, origin + bases.T]))
+        origin, bases = strained[0, :], (strained[1:, :] - strained[0, :]).T
 
-    # get lattice points that are intersected by miller plane
-    with np.errstate(divide="ignore"):  #check for infs directly
-        target_fcoord = 1 / miller_indices
+    # get point coordinates in generator coordinate system
+    point_fcoord = np.linalg.solve(bases, np.reshape(point, (3,)) - origin)
 
-    new_point = np.zeros((3, 1))
+    # lattice planes lie where this index is an integer
+    index = np.dot(miller_indices, point_fcoord)
 
-    # TODO: if bases are not orthonormal, this procedure is not correct
-    # since the following rounds towards the nearest lattice points, with equal
-    # weights given to all lattice vectors
     if mode == "nearest":
-        for i in range(3):
-            new_point[i,0] = np.round(point_fcoord[i]/target_fcoord[i])*target_fcoord[i] \
-                                if not np.isinf(target_fcoord[i]) else point_fcoord[i]
+        new_index = np.round(index)
     elif mode == "ceil":
-        for i in range(3):
-            new_point[i,0] = round_away(point_fcoord[i]/target_fcoord[i])*target_fcoord[i] \
-                                if not np.isinf(target_fcoord[i]) else point_fcoord[i]
+        new_index = round_away(index)
     elif mode == "floor":
-        for i in range(3):
-            new_point[i,0] = np.fix(point_fcoord[i]/target_fcoord[i])*target_fcoord[i] \
-                                if not np.isinf(target_fcoord[i]) else point_fcoord[i]
+        new_index = np.fix(index)
+    else:
+        raise ValueError("Mode must be one of nearest, floor, or ceil.")
 
-    if generator.strain_field is None:
-        # scale back to real space
-        new_point = generator.voxel.sbases @ new_point
+    new_fcoord = point_fcoord + (
+        new_index - index) * miller_indices / np.dot(miller_indices, miller_indices)
 
-        # get perpendicular vector
-        normal = generator.voxel.reciprocal_bases.T @ miller_indices
-    else:
-        H = generator.voxel.sbases
-        G = generator.strain_field.matrix
-        new_point = G @ H @ new_point
+    # scale back to real space
+    new_point = bases @ new_fcoord + origin
 
-        # get perpendicular vector
-        normal = np.linalg.inv(H @ G).T @ miller_indices
+    # get perpendicular vector
+    normal = np.linalg.inv(bases).T @ miller_indices
 
-    return Plane(normal=normal, point=new_point)
\ No newline at end of file
+    return Plane(normal=normal, point=new_point)
-- 
2.43.0


From 8f5bf7356ae71e3f7bc61607fbdbbf127b8457a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:11 +0000
Subject: [PATCH 22/47] fix: place prefab defects on planes which cross the
 volume

Planes were sampled about the global origin for any sphere, and along the
wrong direction for rotated wurtzite generators.
---
 czone/prefab/prefab.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/czone/prefab/prefab.py b/czone/prefab/prefab.py
index 72678c3..6ac759c 100644
--- a/czone/prefab/prefab.py
+++ b/czone/prefab/prefab.py
@@ -159,8 +159,8 @@ class fccMixedTwinSF(BasePrefab):
         for ao in self.volume.alg_objects:
             if isinstance(ao, Sphere):
                 # TODO: only override bbox if Sphere is smaller 
-                start = -1.0 * ao.radius * norm_vec
-                finish = ao.radius * norm_vec      
+                start = ao.center - ao.radius * norm_vec
+                finish = ao.center + ao.radius * norm_vec      
 
         sp = snap_plane_near_point(start,
                                    self.generator,
@@ -390,7 +390,7 @@ class wurtziteStackingFault(BasePrefab):
         # TODO: the bounding box isn't necessarily tangent to the valid volume (e.g., spheres)
         # perhaps refine the end points until planes intersect
         
-        norm_vec = self.generator.voxel.reciprocal_bases @ np.array(self.plane)
+        norm_vec = self.generator.voxel.reciprocal_bases.T @ np.array(self.plane)
         norm_vec /= np.linalg.norm(norm_vec)
         bbox = self.volume.get_bounding_box()
         ci = np.dot(norm_vec.reshape(1, 3), bbox.T).T
@@ -400,8 +400,8 @@ class wurtziteStackingFault(BasePrefab):
         for ao in self.volume.alg_objects:
             if isinstance(ao, Sphere):
                 # TODO: only override bbox if Sphere is smaller 
-                start = -1.0 * ao.radius * norm_vec
-                finish = ao.radius * norm_vec            
+                start = ao.center - ao.radius * norm_vec
+                finish = ao.center + ao.radius * norm_vec            
 
         sp = snap_plane_near_point(start,
                                    self.generator,
-- 
2.43.0


From 0751fc7a9c496b54705a790e0754367610ad40bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:53 +0000
Subject: [PATCH 23/47] fix: convenience constructors and areas of Wulff
 constructions

The cube, cuboctohedron and octohedron constructors passed the number of
atoms as surface energies, and areas were unavailable before a construction.
---
 czone/prefab/wulff.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/czone/prefab/wulff.py b/czone/prefab/wulff.py
index 4a5af67..4f29f6d 100644
--- a/czone/prefab/wulff.py
+++ b/czone/prefab/wulff.py
@@ -169,7 +169,7 @@ class WulffSingle(WulffBase):
             return Volume(alg_objects=planes, generator=self.generator)
 
     def get_areas(self):
-        return self._wulff.facet_fractions
+        return self.wulff.facet_fractions
 
     def winterbottom(self, interface: Tuple[int], interface_energy: float):
         """Construct Winterbottom construction for single crystals.
@@ -206,8 +206,8 @@ class WulffSingle(WulffBase):
             Wulff construction for a cubic nanoparticle.
         """
         energies = {(1, 0, 0): 1.0}
-        wulff = cls(generator, natoms)
-        return wulff.get_construction(energies)
+        wulff = cls(generator, energies, natoms)
+        return wulff.get_construction()
 
     @classmethod
     def cuboctohedron(cls, generator: Generator, natoms: int = 1000):
@@ -221,8 +221,8 @@ class WulffSingle(WulffBase):
             Wulff construction for a cuboctohedral nanoparticle.
         """
         energies = {(1, 0, 0): 1.0, (1, 1, 1): 1.15}
-        wulff = cls(generator, natoms)
-        return wulff.get_construction(energies)
+        wulff = cls(generator, energies, natoms)
+        return wulff.get_construction()
 
     @classmethod
     def octohedron(cls, generator: Generator, natoms: int = 1000):
@@ -236,8 +236,8 @@ class WulffSingle(WulffBase):
             Wulff construction for a octohedral nanoparticle.
         """
         energies = {(1, 1, 1): 1.0}
-        wulff = cls(generator, natoms)
-        return wulff.get_construction(energies)
+        wulff = cls(generator, energies, natoms)
+        return wulff.get_construction()
 
     @classmethod
     def truncated_octohedron(cls, generator: Generator, natoms: int = 1000):
@@ -251,8 +251,8 @@ class WulffSingle(WulffBase):
             Wulff construction for a truncated octohedral nanoparticle.
         """
         energies = {(1, 0, 0): 1.1, (1, 1, 0): 1.15, (1, 1, 1): 1.0}
-        wulff = cls(generator, natoms)
-        return wulff.get_construction(energies)
+        wulff = cls(generator, energies, natoms)
+        return wulff.get_construction()
 
 
 """
-- 
2.43.0


From 6d566b6f15692a7e0f8a9063a66dd56c8c69f850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:57 +0000
Subject: [PATCH 24/47] fix: orient the crystal along with the facets of
 Winterbottom constructions

WulffPack rotates the particle such that its interface faces -Z, while the
generator kept its orientation, so facets were not crystal planes.
---
 czone/prefab/wulff.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/czone/prefab/wulff.py b/czone/prefab/wulff.py
index 4f29f6d..9194152 100644
--- a/czone/prefab/wulff.py
+++ b/czone/prefab/wulff.py
@@ -8,7 +8,7 @@ from wulffpack.core import BaseParticle
 
 from ..generator.generator import Generator
 from ..transform.strain import HStrain, IStrain
-from ..transform.transform import MatrixTransform, Rotation, rot_v
+from ..transform.transform import MatrixTransform, Rotation, rot_v, rot_vtv
 from ..volume.algebraic import Cylinder, Plane, Sphere
 from ..volume.volume import MultiVolume, Volume
 
@@ -192,7 +192,11 @@ class WulffSingle(WulffBase):
                              self.p_atoms, self.natoms)
         planes = self.planes_from_wulff(wulff)
 
-        return Volume(alg_objects=planes, generator=self.generator)
+        # WulffPack aligns interface to -Z
+        rot = Rotation(rot_vtv(interface, [0, 0, -1]))
+        generator = self.generator.from_generator(transformation=[rot])
+
+        return Volume(alg_objects=planes, generator=generator)
 
     @classmethod
     def cube(cls, generator: Generator, natoms: int = 1000):
-- 
2.43.0


From 8bd15d92c2be0013da46fbd1c826df90e051277a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:07 +0000
Subject: [PATCH 25/47] fix: classify wurtzite fault planes within the host
 crystal

The direction of the shift alternates with every fault, which accounts for
the shift by half a unit cell, so the planes are those of the host crystal.
---
 czone/prefab/prefab.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/czone/prefab/prefab.py b/czone/prefab/prefab.py
index 6ac759c..c7fda52 100644
--- a/czone/prefab/prefab.py
+++ b/czone/prefab/prefab.py
@@ -435,11 +435,11 @@ class wurtziteStackingFault(BasePrefab):
 
         polarity = 1
         for i in range(self.N):
-            # check if 100 or 200 plane in the previous generator
+            # check if 100 or 200 plane in the host generator
             cur_plane_pt = planes[splits[i]].point
 
-            plane_100 = snap_plane_near_point(cur_plane_pt, gen_tmp, (0,0,1))
-            plane_200 = snap_plane_near_point(cur_plane_pt, gen_tmp, (0,0,2))
+            plane_100 = snap_plane_near_point(cur_plane_pt, self.generator, (0,0,1))
+            plane_200 = snap_plane_near_point(cur_plane_pt, self.generator, (0,0,2))
 
             # adjust shift according to 100 plane vs 200 plane
             bsf = 2 if np.allclose(plane_100.point, plane_200.point) else 1
-- 
2.43.0


From 366c5b69ef1e52600fbab818330cc0645e3a50c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:20 +0000
Subject: [PATCH 26/47] fix: rebuild the hull when points are added to a volume

---
 czone/volume/volume.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/czone/volume/volume.py b/czone/volume/volume.py
index 8c543e6..c61a16b 100644
--- a/czone/volume/volume.py
+++ b/czone/volume/volume.py
@@ -268,12 +268,8 @@ class Volume(BaseVolume):
 
             self._points = np.append(self._points, points, axis=0)
 
-        #if hull created, update points; else, create hull
-        if self._hull is None:
-            self.createHull()
-        else:
-            self._hull.add_points(points)
-            self._tri = Delaunay(self.hull.points[self.hull.vertices])
+        #rebuild hull; incremental updates fail on (near) coplanar points
+        self.createHull()
 
     def transform(self, transformation: BaseTransform):
 
-- 
2.43.0


From 7ca42bb7020f4e6e704a2d5f1eeefbf955d04e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:58 +0000
Subject: [PATCH 27/47] fix: keep points that lie on a lattice plane on it when
 snapping

Rounding errors put the index of such a point slightly off an integer, so
floor and ceil modes moved the plane by a whole spacing.
---
 czone/volume/algebraic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/czone/volume/algebraic.py b/czone/volume/algebraic.py
index 2fc0878..7e3d1b4 100644
--- a/czone/volume/algebraic.py
+++ b/czone/volume/algebraic.py
@@ -467,6 +467,10 @@ def snap_plane_near_point(point: np.ndarray,
     # lattice planes lie where this index is an integer
     index = np.dot(miller_indices, point_fcoord)
 
+    # points on a lattice plane stay on it, despite of rounding errors
+    if np.isclose(index, np.round(index), rtol=0.0, atol=1e-8):
+        index = np.round(index)
+
     if mode == "nearest":
         new_index = np.round(index)
     elif mode == "ceil":
-- 
2.43.0


From 1f8e6cfd7fcf786afd07795a5d398fd40a0cc305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:37 +0000
Subject: [PATCH 28/47] fix: recognise unbounded plane intersections despite of
 rounding errors

Vertices at infinity may come out of the half space intersection as huge
finite coordinates, which were returned as a bounding box.
---
 czone/volume/algebraic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/czone/volume/algebraic.py b/czone/volume/algebraic.py
index 7e3d1b4..64efe9d 100644
--- a/czone/volume/algebraic.py
+++ b/czone/volume/algebraic.py
@@ -419,7 +419,8 @@ def get_bounding_box(planes: List[Plane]):
         except QhullError:
             return np.empty((0,3)), 2
 
-        if not np.all(np.isfinite(hs.intersections)):
+        # vertices at infinity may be huge instead of infinite due to rounding
+        if not np.all(np.abs(hs.intersections - res.x[:-1]) < 1e9):
             return np.empty((0,3)), 3
 
         return hs.intersections - shift, res.status
-- 
2.43.0


From 5ad79f48f5c86a05926495b695585b23b491e360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:40 +0000
Subject: [PATCH 29/47] fix: default Debye-Waller factors when the prismatic
 format is implied by the file name

---
 czone/scene/scene.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/czone/scene/scene.py b/czone/scene/scene.py
index 5495572..be7b6c6 100644
--- a/czone/scene/scene.py
+++ b/czone/scene/scene.py
@@ -174,7 +174,11 @@ class Scene():
             fname (str): output file name.
             **kwargs: any key word arguments otherwise accepted by ASE write.
         """
-        if kwargs.get("format") == "prismatic":
+        fmt = kwargs.get("format")
+        if fmt is None and str(fname).endswith(".prismatic"):
+            fmt = "prismatic"
+
+        if fmt == "prismatic":
             dwf = set(self.all_species)
             dw_default = (0.1**2.0) * 8 * np.pi**2.0
             dwf = {str(Symbols([x])): dw_default for x in dwf}
-- 
2.43.0


From c9a379cfef677ef7d44a93c06e55d2bbe122c3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:05 +0000
Subject: [PATCH 30/47] fix: recognise linearly dependent basis vectors of a
 Voxel

---
 czone/volume/voxel.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/czone/volume/voxel.py b/czone/volume/voxel.py
index 6bb1d47..dfb4617 100644
--- a/czone/volume/voxel.py
+++ b/czone/volume/voxel.py
@@ -64,11 +64,13 @@ class Voxel():
 
         #check for collinearity
         assert (not self._collinear(
-            bases[0, :], bases[1, :])), "Bases vectors must linearly indepedent"
+            bases[:, 0], bases[:, 1])), "Bases vectors must linearly indepedent"
         assert (not self._collinear(
-            bases[0, :], bases[2, :])), "Bases vectors must linearly indepedent"
+            bases[:, 0], bases[:, 2])), "Bases vectors must linearly indepedent"
         assert (not self._collinear(
-            bases[1, :], bases[2, :])), "Bases vectors must linearly indepedent"
+            bases[:, 1], bases[:, 2])), "Bases vectors must linearly indepedent"
+        assert (np.linalg.matrix_rank(bases) == 3
+               ), "Bases vectors must linearly indepedent"
 
         self._bases = bases
 
-- 
2.43.0


From 4fc0e6b6d8a448c95109ac4174ca9cc23f3def64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:09 +0000
Subject: [PATCH 31/47] fix: keep the previous points of a Volume when invalid
 points are supplied

---
 czone/volume/volume.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/czone/volume/volume.py b/czone/volume/volume.py
index c61a16b..3ea0d16 100644
--- a/czone/volume/volume.py
+++ b/czone/volume/volume.py
@@ -175,12 +175,15 @@ class Volume(BaseVolume):
 
     @points.setter
     def points(self, points):
+        old_points = self._points
         try:
             self._points = None  #clear points
-            self._hull = None
             self.addPoints(points)
         except AssertionError:
             raise ValueError("Check shape of input array.")
+        finally:
+            if self._points is None:  #invalid points
+                self._points = old_points
 
     @property
     def alg_objects(self):
@@ -244,8 +247,9 @@ class Volume(BaseVolume):
         #check to make sure there are N>3 points in point list
         assert (self.points.shape[0] >
                 3), "must have more than 3 points to create hull"
-        self._hull = ConvexHull(self.points, incremental=True)
-        self._tri = Delaunay(self.hull.points[self.hull.vertices])
+        hull = ConvexHull(self.points, incremental=True)
+        self._tri = Delaunay(hull.points[hull.vertices])
+        self._hull = hull
 
     def addPoints(self, points: np.ndarray):
         """Add points to list of points defining convex hull and update hull.
@@ -258,18 +262,21 @@ class Volume(BaseVolume):
         assert (len(points.shape) <
                 3), "points must be N x 3 numpy array (x,y,z)"
 
+        if len(points.shape) == 1:  #check for single point
+            points = np.expand_dims(points, axis=0)
+
+        old_points = self._points
         if (self._points is None):
             self._points = np.copy(points)
-            if len(points.shape) == 1:  #add dim if only single new point
-                self._points = np.expand_dims(points)
         else:
-            if len(points.shape) == 1:  #check for single point
-                points = np.expand_dims(points, axis=0)
-
             self._points = np.append(self._points, points, axis=0)
 
         #rebuild hull; incremental updates fail on (near) coplanar points
-        self.createHull()
+        try:
+            self.createHull()
+        except Exception:
+            self._points = old_points
+            raise
 
     def transform(self, transformation: BaseTransform):
 
-- 
2.43.0


From 2d6c4f956e8a09c9d09f10e1afb50122f81f0fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:13 +0000
Subject: [PATCH 32/47] fix: reject arrays of several points as the point of a
 Plane

---
 czone/volume/algebraic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/volume/algebraic.py b/czone/volume/algebraic.py
index 64efe9d..961cf2f 100644
--- a/czone/volume/algebraic.py
+++ b/czone/volume/algebraic.py
@@ -160,7 +160,7 @@ class Plane(BaseAlgebraic):
     @point.setter
     def point(self, point: np.ndarray):
         point = np.squeeze(np.array(point))  #cast to np array if not already
-        assert (point.shape[0] == 3), "Point must be a point in 3D space"
+        assert (point.shape == (3,)), "Point must be a point in 3D space"
         self._point = point
 
     @property
-- 
2.43.0


From 9644dbb08183674d750eca5a6ce0a55574b985cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:17 +0000
Subject: [PATCH 33/47] fix: raise an error when objects of the wrong type are
 added to a Scene

---
 czone/scene/scene.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/czone/scene/scene.py b/czone/scene/scene.py
index be7b6c6..7f9f147 100644
--- a/czone/scene/scene.py
+++ b/czone/scene/scene.py
@@ -65,11 +65,13 @@ class Scene():
             ob (BaseVolume): object to add to scene.
         """
         #for now, only volumes are objects
-        if isinstance(ob, BaseVolume) or isinstance(ob, BaseMolecule):
-            if self._objects is None:
-                self._objects = [ob]
-            else:
-                self._objects.append(ob)
+        if not isinstance(ob, (BaseVolume, BaseMolecule)):
+            raise TypeError("Objects in scenes must be volumes or molecules")
+
+        if self._objects is None:
+            self._objects = [ob]
+        else:
+            self._objects.append(ob)
 
     @property
     def _checks(self):
-- 
2.43.0


From 1cef6483fad141474673f3628e6a1a5184cc03ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:43 +0000
Subject: [PATCH 34/47] fix: keep bonds intact in wurtzite stacking faults for
 any setting of the unit cell

---
 czone/prefab/prefab.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/czone/prefab/prefab.py b/czone/prefab/prefab.py
index c7fda52..a0e29ac 100644
--- a/czone/prefab/prefab.py
+++ b/czone/prefab/prefab.py
@@ -433,6 +433,14 @@ class wurtziteStackingFault(BasePrefab):
         defect_types = {"stacking_fault":True}
         bz = (0.5)*self.generator.voxel.sbases @ np.array([0, 0, -1])
 
+        # bonds along c which cross the (001) planes start at the atom on or next
+        # below these planes; they stay intact for shifts from the other lateral site
+        coords = self.generator.coords
+        depth = np.mod(-coords[:, 2], 1)
+        depth[np.isclose(depth, 1)] = 0
+        b001 = np.rint(3 * (coords[np.argmin(depth), 0] - coords[:, 0])).astype(int) % 3
+        b001 = np.max(b001)
+
         polarity = 1
         for i in range(self.N):
             # check if 100 or 200 plane in the host generator
@@ -442,7 +450,7 @@ class wurtziteStackingFault(BasePrefab):
             plane_200 = snap_plane_near_point(cur_plane_pt, self.generator, (0,0,2))
 
             # adjust shift according to 100 plane vs 200 plane
-            bsf = 2 if np.allclose(plane_100.point, plane_200.point) else 1
+            bsf = b001 if np.allclose(plane_100.point, plane_200.point) else 3 - b001
 
             # add stacking fault
             b = polarity * gen_tmp.voxel.sbases @ ((bsf / 3) * np.array([1, -1, 0]))
-- 
2.43.0


From b916d9e456addab8a7903511757d1234477f089f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:43 +0000
Subject: [PATCH 35/47] fix: equal seeds give equal adsorbates without sampling
 of the surface

---
 czone/surface/adsorbate.py   | 1 +
 czone/surface/alpha_shape.py | 7 ++++---
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/czone/surface/adsorbate.py b/czone/surface/adsorbate.py
index 221a548..57af4e7 100644
--- a/czone/surface/adsorbate.py
+++ b/czone/surface/adsorbate.py
@@ -200,6 +200,7 @@ def add_adsorbate(mol: BaseMolecule,
     else:
         surface_ind, shape_dict = alpha_shape_alg_3D(points=volume.atoms, 
                                                     probe_radius=probe_radius, 
+                                                    rng=rng,
                                                     return_alpha_shape=True)
 
     valid_indices = np.zeros(volume.atoms.shape[0], dtype=bool)
diff --git a/czone/surface/alpha_shape.py b/czone/surface/alpha_shape.py
index aca7105..e3f4079 100644
--- a/czone/surface/alpha_shape.py
+++ b/czone/surface/alpha_shape.py
@@ -48,7 +48,7 @@ def tetrahedron_circumradii(points):
     radius = np.linalg.norm(center,axis=0)
     return radius
 
-def alpha_shape_alg_3D(points, probe_radius, return_alpha_shape=False):
+def alpha_shape_alg_3D(points, probe_radius, return_alpha_shape=False, rng=None):
     """Use alpha shape algorithm to determine points on exterior of collection of points.
 
     Performs alpha-shape algorithm ##TODO: cite a source here
@@ -63,11 +63,12 @@ def alpha_shape_alg_3D(points, probe_radius, return_alpha_shape=False):
 
     ## Get alpha-shape
     # get delaunay triangulation of points
-    points = points+1e-4*np.random.rand(*points.shape)
+    rand = np.random.rand if rng is None else lambda *shape: rng.random(shape)
+    points = points+1e-4*rand(*points.shape)
     tri = Delaunay(points)
 
     # get cicrcumradii of all tetrahedron in triangulation
-    circumradii = tetrahedron_circumradii((points+1e-10*np.random.rand(*points.shape))[tri.simplices, :])
+    circumradii = tetrahedron_circumradii((points+1e-10*rand(*points.shape))[tri.simplices, :])
     
     # check which tetrahedra in triangulation are part of alpha-shape for given probe radius
     probe_test = circumradii <= probe_radius
-- 
2.43.0


From 8da891e6e25d900b0d2aa4d369bf8f18f2bc3b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:49 +0000
Subject: [PATCH 36/47] fix: orient the facets of Wulff constructions along
 with rotated crystals

---
 czone/prefab/wulff.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/czone/prefab/wulff.py b/czone/prefab/wulff.py
index 9194152..2690f7d 100644
--- a/czone/prefab/wulff.py
+++ b/czone/prefab/wulff.py
@@ -65,6 +65,11 @@ class WulffBase(ABC):
         """Primitive structure of generator as ASE Atoms object."""
         return self._p_atoms
 
+    @property
+    def rotation(self):
+        """Rotation of generator relative to its crystal structure."""
+        return self.generator.voxel.bases @ np.linalg.inv(self.generator.lattice.matrix.T)
+
     @property
     def natoms(self):
         """Size of particle in approximate number of atoms."""
@@ -95,17 +100,18 @@ class WulffBase(ABC):
     ####################
 
     @staticmethod
-    def planes_from_wulff(wulff):
+    def planes_from_wulff(wulff, rotation=np.eye(3)):
         """Return facets of a full Wulff construction as list of Planes.
 
         Args:
             wulff (BaseParticle): WulffPack particle.
+            rotation (np.ndarray): rotation applied to the facets.
 
         Returns:
             List of Planes representing facets of Wulff constructions.
         """
         return [
-            Plane(f.normal, f.normal * f.distance_from_origin)
+            Plane(rotation @ f.normal, rotation @ f.normal * f.distance_from_origin)
             for f in wulff._yield_facets()
         ]
 
@@ -162,7 +168,7 @@ class WulffSingle(WulffBase):
         return self._wulff
 
     def get_construction(self, return_facet_areas=False):
-        planes = self.planes_from_wulff(self.wulff)
+        planes = self.planes_from_wulff(self.wulff, self.rotation)
         if return_facet_areas:
             return Volume(alg_objects=planes, generator=self.generator), self.wulff.facet_fractions
         else:
@@ -193,7 +199,7 @@ class WulffSingle(WulffBase):
         planes = self.planes_from_wulff(wulff)
 
         # WulffPack aligns interface to -Z
-        rot = Rotation(rot_vtv(interface, [0, 0, -1]))
+        rot = MatrixTransform(rot_vtv(interface, [0, 0, -1]) @ np.linalg.inv(self.rotation))
         generator = self.generator.from_generator(transformation=[rot])
 
         return Volume(alg_objects=planes, generator=generator)
-- 
2.43.0


From bcbd2e3edeca7a8f72d7a81f15a05cdee784541f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:52 +0000
Subject: [PATCH 37/47] fix: Winterbottom constructions with interfaces along Z

---
 czone/prefab/wulff.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/czone/prefab/wulff.py b/czone/prefab/wulff.py
index 2690f7d..827edb0 100644
--- a/czone/prefab/wulff.py
+++ b/czone/prefab/wulff.py
@@ -141,6 +141,16 @@ class WulffBase(ABC):
         pass
 
 
+class _Winterbottom(Winterbottom):
+    """Winterbottom construction in the frame of its crystal.
+
+    WulffPack's rotation of the interface to -Z is undefined for interfaces along Z.
+    """
+
+    def rotate_particle(self, rotation):
+        pass
+
+
 class WulffSingle(WulffBase):
 
     def __init__(self,
@@ -194,12 +204,13 @@ class WulffSingle(WulffBase):
             Volume with shape described by Winterbottom construction for given 
             surfce energies.
         """
-        wulff = Winterbottom(self.surface_energies, interface, interface_energy,
-                             self.p_atoms, self.natoms)
-        planes = self.planes_from_wulff(wulff)
+        wulff = _Winterbottom(self.surface_energies, interface, interface_energy,
+                              self.p_atoms, self.natoms)
 
-        # WulffPack aligns interface to -Z
-        rot = MatrixTransform(rot_vtv(interface, [0, 0, -1]) @ np.linalg.inv(self.rotation))
+        # align interface to -Z
+        rot = rot_vtv(interface, [0, 0, -1])
+        planes = self.planes_from_wulff(wulff, rot)
+        rot = MatrixTransform(rot @ np.linalg.inv(self.rotation))
         generator = self.generator.from_generator(transformation=[rot])
 
         return Volume(alg_objects=planes, generator=generator)
-- 
2.43.0


From f0d7bef232f05a501d4a65beb7d3add8ae402e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:37 +0000
Subject: [PATCH 38/47] fix: size of Winterbottom constructions with attractive
 interfaces

---
 czone/prefab/wulff.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/czone/prefab/wulff.py b/czone/prefab/wulff.py
index 827edb0..16c93c0 100644
--- a/czone/prefab/wulff.py
+++ b/czone/prefab/wulff.py
@@ -150,6 +150,11 @@ class _Winterbottom(Winterbottom):
     def rotate_particle(self, rotation):
         pass
 
+    @property
+    def volume(self):
+        """Volume of the particle, which does not contain its center for negative energies."""
+        return sum(np.copysign(f.volume, f.facets[0].energy) for f in self.forms)
+
 
 class WulffSingle(WulffBase):
 
-- 
2.43.0


From c0e6656d895518f261ee5678360c764a3204ed84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:42 +0000
Subject: [PATCH 39/47] fix: Winterbottom constructions with an interface
 energy of zero

---
 czone/prefab/wulff.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/czone/prefab/wulff.py b/czone/prefab/wulff.py
index 16c93c0..3889716 100644
--- a/czone/prefab/wulff.py
+++ b/czone/prefab/wulff.py
@@ -150,6 +150,13 @@ class _Winterbottom(Winterbottom):
     def rotate_particle(self, rotation):
         pass
 
+    def _dual_wulff_shape(self, facets):
+        # facets through the center have no dual
+        if min(f.energy for f in facets) == 0:
+            self._closest_vertices(facets)
+        else:
+            super()._dual_wulff_shape(facets)
+
     @property
     def volume(self):
         """Volume of the particle, which does not contain its center for negative energies."""
-- 
2.43.0


From febb47da1c6543a34b8580222ed58db1315114e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:24 +0000
Subject: [PATCH 40/47] fix: vertices of Winterbottom constructions with
 non-positive interface energies

---
 czone/prefab/wulff.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/czone/prefab/wulff.py b/czone/prefab/wulff.py
index 3889716..dc86145 100644
--- a/czone/prefab/wulff.py
+++ b/czone/prefab/wulff.py
@@ -151,11 +151,23 @@ class _Winterbottom(Winterbottom):
         pass
 
     def _dual_wulff_shape(self, facets):
-        # facets through the center have no dual
-        if min(f.energy for f in facets) == 0:
-            self._closest_vertices(facets)
-        else:
+        interface = min(facets, key=lambda f: f.energy)
+        if interface.energy > 0:
             super()._dual_wulff_shape(facets)
+            return
+
+        # the center is not inside; take the dual about a point which is
+        depth = min(f.energy for f in facets if f is not interface) + interface.energy
+        inside = interface.normal * (interface.energy - depth / 2)
+        for f in facets:
+            f.energy -= f.normal @ inside
+        super()._dual_wulff_shape(facets)
+        for f in facets:
+            f.energy += f.normal @ inside
+            f.vertices = [v + inside for v in f.vertices]
+
+    def _closest_vertices(self, facets):
+        self._dual_wulff_shape(facets)
 
     @property
     def volume(self):
-- 
2.43.0


From e5d628620651715a6af5075ebd30e0be6002d91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 41/47] fix: recompute Wulff constructions after their
 parameters are changed

---
 czone/prefab/wulff.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/czone/prefab/wulff.py b/czone/prefab/wulff.py
index dc86145..cb23726 100644
--- a/czone/prefab/wulff.py
+++ b/czone/prefab/wulff.py
@@ -57,6 +57,7 @@ class WulffBase(ABC):
         assert (isinstance(val, Generator)
                ), "Supplied generator must be crystalline Generator class"
         self._generator = val
+        self._wulff = None
         p_struct = val.structure.get_primitive_structure()
         self._p_atoms = Atoms(positions=p_struct.cart_coords, cell=p_struct.lattice.matrix)
 
@@ -79,6 +80,7 @@ class WulffBase(ABC):
     def natoms(self, val):
         try:
             self._natoms = int(val)
+            self._wulff = None
         except:
             raise TypeError("natoms must be convertible to integer")
 
@@ -94,6 +96,7 @@ class WulffBase(ABC):
                 "surface energies must be passed as tuple pairs of miller indices and floats"
 
         self._surface_energies = vals
+        self._wulff = None
 
     ####################
     ###### Methods #####
-- 
2.43.0


From 7df16934bfcf507bccb328cdd9cad4dce3b67848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:29 +0000
Subject: [PATCH 42/47] fix: spheres centred on column vectors

---
 czone/volume/algebraic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/volume/algebraic.py b/czone/volume/algebraic.py
index 961cf2f..e36ba97 100644
--- a/czone/volume/algebraic.py
+++ b/czone/volume/algebraic.py
@@ -122,7 +122,7 @@ class Sphere(BaseAlgebraic):
         center = np.array(center)  #cast to np array if not already
         if center.size != 3 or center.shape[0] != 3:
             raise ValueError("Center must be an array with 3 elements")
-        self._center = center
+        self._center = center.reshape((3,))
 
 
 class Plane(BaseAlgebraic):
-- 
2.43.0


From ae8ba03cf32443ebeb74bf1cb4a5e8405aa89853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:33 +0000
Subject: [PATCH 43/47] fix: translations by column vectors

---
 czone/transform/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/transform/transform.py b/czone/transform/transform.py
index a53f081..82405bf 100644
--- a/czone/transform/transform.py
+++ b/czone/transform/transform.py
@@ -126,7 +126,7 @@ class Translation(BaseTransform):
         shift = np.array(shift)
         assert (shift.size == 3), "Shift must be a vector in 3D space"
         assert (shift.shape[0] == 3), "Shift must be a vector in 3D space"
-        self._shift = shift
+        self._shift = shift.reshape((3,))
 
     @property
     def params(self):
-- 
2.43.0


From 95e4c5aea8afe5cf20bccb884586ad7001a074a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:36 +0000
Subject: [PATCH 44/47] fix: amorphous generators keep what they supply for
 themselves

---
 czone/generator/generator.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/czone/generator/generator.py b/czone/generator/generator.py
index 99eef33..4bc9b76 100644
--- a/czone/generator/generator.py
+++ b/czone/generator/generator.py
@@ -419,14 +419,17 @@ class AmorphousGenerator(BaseGenerator):
 
     def supply_atoms(self, bbox):
         if self.use_old_result and self._old_result is not None:
-            return self.old_result
+            coords, species = self.old_result
         else:
             coords = gen_p_substrate(
                 np.max(bbox, axis=0) - np.min(bbox, axis=0), self.min_dist,
                 self.density)
             coords += np.min(bbox, axis=0)
-            self._old_result = (coords, np.ones(coords.shape[0]) * self.species)
-            return self.old_result
+            species = np.ones(coords.shape[0]) * self.species
+            self._old_result = (coords, species)
+
+        # the caller may change what it is given
+        return np.copy(coords), np.copy(species)
 
     def transform(self, transformation: BaseTransform):
         """Transform origin and previously generated atoms, if there are any.
-- 
2.43.0


From 88b784a8266839543b2bfc27ad937bf58c3436dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:39 +0000
Subject: [PATCH 45/47] fix: transformations keep their own matrix

---
 czone/transform/transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/czone/transform/transform.py b/czone/transform/transform.py
index 82405bf..78b57f7 100644
--- a/czone/transform/transform.py
+++ b/czone/transform/transform.py
@@ -186,7 +186,7 @@ class MatrixTransform(BaseTransform):
     def matrix(self, matrix: np.ndarray):
         assert (matrix.shape == (
             3, 3)), "Input matrix must be square 3x3 numpy array"
-        self._matrix = matrix
+        self._matrix = np.array(matrix)
 
     @property
     def origin(self) -> np.ndarray:
@@ -290,7 +290,7 @@ class Rotation(MatrixTransform):
         assert (
             np.sum(np.abs(val @ val.T - np.eye(3))) < 1e-6
         ), "Input matrix not a valid rotation matrix. Fails orthogonality."
-        self._matrix = val
+        self._matrix = np.array(val)
 
 
 class Reflection(MatrixTransform):
-- 
2.43.0


From a99cbe70a8de0f21b15ef96ab2d1be47001db98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:42 +0000
Subject: [PATCH 46/47] fix: molecules keep their own orientation

---
 czone/molecule/molecule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/molecule/molecule.py b/czone/molecule/molecule.py
index 75eb4c1..759ae61 100644
--- a/czone/molecule/molecule.py
+++ b/czone/molecule/molecule.py
@@ -225,7 +225,7 @@ class BaseMolecule(ABC):
         if np.sum(np.abs(mat @ mat.T - np.eye(3))) > 1e-6:
             raise ValueError(f"Input (rotation) matrix must be orthogonal.") # TODO: provide info on non-orthogonal vectors
 
-        self._orientation = mat
+        self._orientation = np.array(mat)
 
 
     def reset_orientation(self):
-- 
2.43.0


From 428d36fe8fa743edea277d7b38882b0925076b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:45 +0000
Subject: [PATCH 47/47] fix: planar defects of crystals with scaled voxels

---
 czone/prefab/prefab.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/czone/prefab/prefab.py b/czone/prefab/prefab.py
index a0e29ac..0e3d7fa 100644
--- a/czone/prefab/prefab.py
+++ b/czone/prefab/prefab.py
@@ -171,7 +171,8 @@ class fccMixedTwinSF(BasePrefab):
                                    self.plane,
                                    mode="ceil")
         d_tot = ep.dist_from_plane(sp.point)
-        d_hkl = self.generator.lattice.d_hkl(self.plane)
+        d_hkl = 1.0 / np.linalg.norm(
+            self.generator.voxel.reciprocal_bases.T @ np.array(self.plane))
         N_planes = np.round(d_tot / d_hkl).astype(int)
         planes = [sp]
         new_point = np.copy(sp.point)
@@ -412,7 +413,8 @@ class wurtziteStackingFault(BasePrefab):
                                    self.plane,
                                    mode="ceil")
         d_tot = ep.dist_from_plane(sp.point)
-        d_hkl = self.generator.lattice.d_hkl(self.plane)
+        d_hkl = 1.0 / np.linalg.norm(
+            self.generator.voxel.reciprocal_bases.T @ np.array(self.plane))
         N_planes = np.round(d_tot / d_hkl).astype(int)
         planes = [sp]
         new_point = np.copy(sp.point)
-- 
2.43.0

