From 952edafe25c41624358c997b311f960ba1173229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:33 +0000
Subject: [PATCH 01/24] fix: accept array transforms in Assembly.add_object and
 add_assembly

'transform == None' compares elementwise on arrays, so passing a transform
raised ValueError.
---
 tracer/assembly.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tracer/assembly.py b/tracer/assembly.py
index 38afc30..5e618e6 100644
--- a/tracer/assembly.py
+++ b/tracer/assembly.py
@@ -72,7 +72,7 @@ class Assembly(HasFrame):
         transform - the transformation matrix (as an array object) that describes 
             the object in the coordinate system of the Assembly
         """
-        if transform == None:
+        if transform is None:
             transform = N.eye(4)
         self._objects.append(object)
         object.set_transform(transform)
@@ -86,7 +86,7 @@ class Assembly(HasFrame):
         transform - the transformation matrix (as an array object) that describes the 
             new assembly in the coordinate system of the current assembly
         """
-        if transform == None:
+        if transform is None:
             transform = N.eye(4)
         self._assemblies.append(assembly)
         assembly.set_transform(transform)
-- 
2.43.0


From e726247317495cc89382f5ece8efb3c85dd2e951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:37 +0000
Subject: [PATCH 02/24] fix: pair each ray with its own root in hemisphere and
 cut-sphere selection

nonzero() on the 2-by-n array lists the rows first, so when different rays of
a bundle hit on different roots, the roots were handed to the wrong rays.
---
 tracer/sphere_surface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tracer/sphere_surface.py b/tracer/sphere_surface.py
index 2294d7a..a899be7 100644
--- a/tracer/sphere_surface.py
+++ b/tracer/sphere_surface.py
@@ -112,7 +112,7 @@ class HemisphereGM(SphericalGM):
         
         select[~N.logical_or(*bottom_hem)] = N.nan
         one_hit = N.logical_xor(*bottom_hem)
-        select[one_hit] = N.nonzero(bottom_hem[:,one_hit])[0]
+        select[one_hit] = N.nonzero(bottom_hem.T[one_hit,:])[1]
         
         return select
     
@@ -175,7 +175,7 @@ class CutSphereGM(SphericalGM):
         in_bd &= prm > 0
         select[~N.logical_or(*in_bd)] = N.nan
         one_hit = N.logical_xor(*in_bd)
-        select[one_hit] = N.nonzero(in_bd[:,one_hit])[0]
+        select[one_hit] = N.nonzero(in_bd.T[one_hit,:])[1]
         
         return select
 
-- 
2.43.0


From 15b6aecf159cacc6bc0eefc9db33428bfe402134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:23 +0000
Subject: [PATCH 03/24] fix: ignore near-zero ray parameters regardless of the
 other rays

Parameters up to 1e-6 were taken for the ray's own origin only when some
parameter of the bundle, possibly of another ray and surface, was below 1e-10;
so the path of a ray depended on the company it kept.
---
 tracer/tracer_engine.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tracer/tracer_engine.py b/tracer/tracer_engine.py
index 3c99dd9..2483197 100644
--- a/tracer/tracer_engine.py
+++ b/tracer/tracer_engine.py
@@ -65,9 +65,7 @@ class TracerEngine():
         
         # If parameter == 0, ray does not actually hit object, but originates from there; 
         # so it should be ignored in considering intersections 
-        if (stack <= 1e-10).any():
-            zeros = N.where(stack <= 1e-6)
-            stack[zeros] = N.inf
+        stack[stack <= 1e-6] = N.inf
 
         # Find the smallest parameter for each ray, and use that as the final one,
         # returns the indices.  If an entire column of the stack is N.inf (the ray misses
-- 
2.43.0


From b712cdffe800cbb9c75b0db744426f86c3258ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:42 +0000
Subject: [PATCH 04/24] fix: don't let a ray's own starting point hide its next
 hit on a quadric

A ray reflected or refracted inside a sphere, hemisphere, paraboloid or
cylinder has one root at its vertex, that rounding may make slightly positive.
That root was reported, ignored by the engine as the ray's origin, and the
second intersection was lost, so about half the rays leaked out of closed
surfaces.
---
 tracer/quadric.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tracer/quadric.py b/tracer/quadric.py
index a696e17..90cebb6 100644
--- a/tracer/quadric.py
+++ b/tracer/quadric.py
@@ -75,6 +75,12 @@ class QuadricGM(GeometryManager):
         hits[:,almost_planar] = N.tile(-C[almost_planar]/B[almost_planar], (2,1))
         hits[:,really_quadric] = \
             (-B[really_quadric] + pm*delta[really_quadric])/(2*A[really_quadric])
+        
+        # A ray leaving this surface meets it at its own vertex, up to rounding
+        # error. The tracer engine doesn't count that as a hit, so it should
+        # not hide the other intersection.
+        hits[abs(hits) <= 1e-6] = 0.
+        
         inters_coords = v[:,any_inters] + d[:,any_inters]*hits.reshape(2,1,-1)
         
         # Quadrics can have two intersections. Here we allow child classes
-- 
2.43.0


From 0c3c6cbc24cb2b4ffbb9bd16e7f84702b89ed121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:01 +0000
Subject: [PATCH 05/24] fix: keep quadric intersections on the surface for
 nearly axial rays

Rays with A <= 1e-10 were solved as if A were 0, which for a cylinder puts the
hit point far off the surface; slightly larger A lost most significant digits
to cancellation.
---
 tracer/quadric.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/tracer/quadric.py b/tracer/quadric.py
index 90cebb6..e5afbaa 100644
--- a/tracer/quadric.py
+++ b/tracer/quadric.py
@@ -68,13 +68,14 @@ class QuadricGM(GeometryManager):
         C = C[any_inters]
         delta = N.sqrt(delta[any_inters])
         
-        pm = N.c_[[-1, 1]]
-        hits = N.empty((2, num_inters))
-        almost_planar = A <= 1e-10
-        really_quadric = ~almost_planar
-        hits[:,almost_planar] = N.tile(-C[almost_planar]/B[almost_planar], (2,1))
-        hits[:,really_quadric] = \
-            (-B[really_quadric] + pm*delta[really_quadric])/(2*A[really_quadric])
+        # The roots are written so that no significance is lost when A is small.
+        # With A = 0 there is only one.
+        q = -0.5*(B + N.where(B < 0, -1, 1)*delta)
+        oldsettings = N.seterr(divide='ignore', invalid='ignore')
+        hits = N.vstack((C/q, N.where(A == 0, C/q, q/A)))
+        N.seterr(**oldsettings)
+        hits[:,q == 0] = N.where((A == 0)[q == 0], N.inf, 0.)
+        hits.sort(axis=0)
         
         # A ray leaving this surface meets it at its own vertex, up to rounding
         # error. The tracer engine doesn't count that as a hit, so it should
-- 
2.43.0


From 953951a730d71428087cd7041a3fd86c7e70729b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:40 +0000
Subject: [PATCH 06/24] fix: no NaN from Fresnel and Snell at normal and
 critical incidence

A cosine rounded to just above 1 made the reflectance NaN for about one in five
rays at normal incidence on a tilted surface; at the critical angle the square
roots could get a slightly negative argument.
---
 tracer/optics.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tracer/optics.py b/tracer/optics.py
index 176be57..5ca0de3 100644
--- a/tracer/optics.py
+++ b/tracer/optics.py
@@ -22,10 +22,12 @@ def fresnel(ray_dirs, normals, n1, n2):
     R - the reflectance of a homogenously-polarized light ray with the given
         parameters.
     """ 
-    theta_in = N.arccos(N.abs((normals*ray_dirs).sum(axis=0)))
+    # Rounding may put the cosine slightly over 1, and the root's argument below
+    # slightly under 0:
+    theta_in = N.arccos(N.minimum(N.abs((normals*ray_dirs).sum(axis=0)), 1))
     # Factor out common terms in Fresnel's equations:
     foo = N.cos(theta_in) 
-    bar = N.sqrt(1 - (n1/n2 * N.sin(theta_in))**2)
+    bar = N.sqrt(N.maximum(1 - (n1/n2 * N.sin(theta_in))**2, 0))
     
     Rs = ((n1*foo - n2*bar)/(n1*foo + n2*bar))**2 
     Rp = ((n1*bar - n2*foo)/(n1*bar + n2*foo))**2
@@ -80,7 +82,7 @@ def refractions(n1, n2, ray_dirs, normals):
     n = n[refracted]
     
     refr_dirs = (ray_dirs - cos1*normals)/n
-    cos2 = N.sqrt(1 - 1./n**2*(1 - cos1**2))
+    cos2 = N.sqrt(N.maximum(1 - 1./n**2*(1 - cos1**2), 0))
     refr_dirs += normals*cos2*N.where(cos1 < 0, -1, 1)
     
     return refracted, refr_dirs
-- 
2.43.0


From 7432b79e14c1625c2c6e0914237c730b0ae01529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:31 +0000
Subject: [PATCH 07/24] fix: include the second dispersion term of the Hartmann
 formula

---
 tracer/optics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracer/optics.py b/tracer/optics.py
index 5ca0de3..0a3eaff 100644
--- a/tracer/optics.py
+++ b/tracer/optics.py
@@ -96,4 +96,4 @@ def refr_idx_hartmann(wavelength, a, b, c, d, e):
     
     where L is the wavelength.
     """
-    return a + b/(c - wavelength) 
+    return a + b/(c - wavelength) + d/(e - wavelength)
-- 
2.43.0


From 74dfe49f41826c9c6e65f618d11b6e338ff7df19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:35 +0000
Subject: [PATCH 08/24] fix: make RayTree.ray_history usable and return
 whole-ray indices

---
 tracer/trace_tree.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tracer/trace_tree.py b/tracer/trace_tree.py
index bdd425e..3b10a66 100644
--- a/tracer/trace_tree.py
+++ b/tracer/trace_tree.py
@@ -31,7 +31,7 @@ class RayTree(object):
         """
         return [bund.get_parents() for bund in self._bunds[1:]]
     
-    def ray_history(ray_index, level=None):
+    def ray_history(self, ray_index, level=None):
         """
         Return, in reverse order, all the indices into ray bundles starting
         from the given ray, going back to the original bundle. Starts with the
@@ -43,12 +43,12 @@ class RayTree(object):
             defaults to last bundle.
         """
         if level is None:
-            level = self.num_bunds()
+            level = self.num_bunds() - 1
         
-        parents = np.empty(level)
+        parents = np.empty(level + 1, dtype=np.int_)
         parents[0] = ray_index
         
-        for pix in xrange(1, level):
+        for pix in xrange(1, level + 1):
             parents[pix] = \
                 self._bunds[level - pix + 1].get_parents()[parents[pix - 1]]
         
-- 
2.43.0


From 5db2adc44fa13eb86040bbfffcb2f7bb7d341939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:39 +0000
Subject: [PATCH 09/24] fix: place the planar front face of a spherical lens

---
 tracer/models/spherical_lens.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tracer/models/spherical_lens.py b/tracer/models/spherical_lens.py
index 7f39902..6e900b9 100644
--- a/tracer/models/spherical_lens.py
+++ b/tracer/models/spherical_lens.py
@@ -44,7 +44,7 @@ class SphericalLens(AssembledObject):
             self._front = Surface(
                 RoundPlateGM(diameter/2.),
                 Refractive(1., refr_idx))
-            R1 = B.inf
+            R1 = N.inf
         else:
             z = N.sqrt(R1**2 - diameter**2/4.) # location of cut plane
             if R1 > 0:
@@ -101,6 +101,11 @@ class SphericalLens(AssembledObject):
             
             cyl_loc += (locf + sect1.get_location()[2])/2.
             cyl_height += locf + sect1.get_location()[2]
+        else:
+            self._front.set_location(N.r_[0., 0., pd + depth])
+            
+            cyl_loc += (pd + depth)/2.
+            cyl_height += pd + depth
         
         # Create the bounding cylinder:
         if cyl_height > 0:
-- 
2.43.0


From 99132a790c33e1db52ad07ffdd0d4156bc0e4660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:44 +0000
Subject: [PATCH 10/24] fix: honour rotation and any point count in
 BoundaryCylinder.in_bounds

---
 tracer/boundary_shape.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tracer/boundary_shape.py b/tracer/boundary_shape.py
index 83880d7..30b3219 100644
--- a/tracer/boundary_shape.py
+++ b/tracer/boundary_shape.py
@@ -107,7 +107,7 @@ class BoundaryCylinder(BoundaryShape):
         intersection points are valid.
         """
         self._R = diameter/2.
-        BoundaryShape.__init__(self, location, None)
+        BoundaryShape.__init__(self, location, rotation)
     
     def in_bounds(self, vertices):
         """
@@ -117,8 +117,8 @@ class BoundaryCylinder(BoundaryShape):
         Arguments: 
         vertices - an array of the points to check for inclusion, (n,3)
         """
-        local_xy = N.dot(self._temp_frame[:2], 
-            N.vstack((vertices.T, N.ones(vertices.shape[1]))))
+        local_xy = N.dot(N.linalg.inv(self._temp_frame)[:2], 
+            N.vstack((vertices.T, N.ones(vertices.shape[0]))))
         return N.sum(local_xy**2, axis=0) <= self._R**2
 
 class BoundaryPlane(BoundaryShape):
-- 
2.43.0


From 0a56fbc75265e2210931dddb7b7f39dfef324b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:49 +0000
Subject: [PATCH 11/24] fix: bounding rectangle of a transformed BoundarySphere

---
 tracer/boundary_shape.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tracer/boundary_shape.py b/tracer/boundary_shape.py
index 30b3219..e9ab51f 100644
--- a/tracer/boundary_shape.py
+++ b/tracer/boundary_shape.py
@@ -95,8 +95,8 @@ class BoundarySphere(BoundaryShape):
         Returns:
         xmin, xmax, ynin, ymax - of the rect, in the xy plane of the frame,
         """
-        cent_proj = N.dot(N.linalg.inv(transform), N.append(self._temp_loc, 1))
-        Reff = N.sqrt(self._radius**2 - (self._temp_loc[2] - cent_proj[2])**2)
+        cent_proj = N.dot(N.linalg.inv(transform), N.append(self._temp_loc[:3], 1))
+        Reff = N.sqrt(self._radius**2 - cent_proj[2]**2)
         return cent_proj[0] - Reff, cent_proj[0] + Reff, \
             cent_proj[1] - Reff, cent_proj[1] + Reff
 
-- 
2.43.0


From 3487d26395407600a6cf5677e93ba9e888ff7cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:53 +0000
Subject: [PATCH 12/24] fix: RefractiveHomogenous returns an empty bundle for
 an empty selection

---
 tracer/optics_callables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracer/optics_callables.py b/tracer/optics_callables.py
index 2c2ead4..b32102e 100644
--- a/tracer/optics_callables.py
+++ b/tracer/optics_callables.py
@@ -128,7 +128,7 @@ class RefractiveHomogenous(object):
     
     def __call__(self, geometry, rays, selector):
         if len(selector) == 0:
-            return ray_bundle.empty_bund()
+            return ray_bundle.RayBundle.empty_bund()
         
         n1 = rays.get_ref_index()[selector]
         n2 = self.toggle_ref_idx(n1)
-- 
2.43.0


From 35c9d69133522acb6b17c26b1e547bd0418ebd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:58 +0000
Subject: [PATCH 13/24] fix: square_bundle gives each ray both a vertex and a
 direction

---
 tracer/sources.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tracer/sources.py b/tracer/sources.py
index 1444882..6156b4b 100644
--- a/tracer/sources.py
+++ b/tracer/sources.py
@@ -96,9 +96,9 @@ def square_bundle(num_rays, center, direction, width):
     A RayBundle object with the above charachteristics set.
     """
     rot = rotation_to_z(direction)
-    directions = N.tile(direction[:,None], (1, num_rays))
-    range = N.s_[-width:width:float(2*width)/N.sqrt(num_rays)]
-    xs, ys = N.mgrid[range, range]
+    side = int(N.ceil(N.sqrt(num_rays)))
+    xs, ys = N.mgrid[:side, :side]*(2.*width/side) - width
+    directions = N.tile(direction[:,None], (1, side**2))
     vertices_local = N.array([xs.flatten(),  ys.flatten(),  N.zeros(len(xs.flatten()))])
     vertices_global = N.dot(rot,  vertices_local)
 
-- 
2.43.0


From c2007c065795cd8e07727a7d9fd6435178328e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:02 +0000
Subject: [PATCH 14/24] fix: frames keep their own copy of transforms,
 locations and rotations

---
 tracer/has_frame.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tracer/has_frame.py b/tracer/has_frame.py
index 8bd0259..8ec7b70 100644
--- a/tracer/has_frame.py
+++ b/tracer/has_frame.py
@@ -43,15 +43,15 @@ class HasFrame(object):
         """Sets the location within the object"""
         if location.shape != (3, ):
             raise ValueError("location must be a 1D 3-component array")
-        self._loc = location
         self._transform[:3,3] = location
+        self._loc = self._transform[:3,3]
     
     def set_rotation(self,  rotation):
         """Sets the rotation within the object"""
         if  rotation.shape != (3, 3):
             raise ValueError("rotation must be a 3x3 array")
-        self._rot = rotation
         self._transform[:3,:3] = rotation
+        self._rot = self._transform[:3,:3]
 
     def set_transform(self, transform):
         """Defines the transformation matrix the puts the surface into the coordinates of the
@@ -59,7 +59,7 @@ class HasFrame(object):
         
         Arguments:
         transform - a 2D array defining the 4 by 4 transformation matrix."""
-        self._transform = transform
+        self._transform = N.array(transform, dtype=float)
         self._loc = self._transform[:3,3]
         self._rot = self._transform[:3,:3]
 
-- 
2.43.0


From 77134caca97b83c048a7cb85773270a08cad16c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:06 +0000
Subject: [PATCH 15/24] fix: keep face vertices in step when
 TriangulatedSurface drops bad faces

---
 tracer/models/triangulated_surface.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tracer/models/triangulated_surface.py b/tracer/models/triangulated_surface.py
index 7984f63..1381bbb 100644
--- a/tracer/models/triangulated_surface.py
+++ b/tracer/models/triangulated_surface.py
@@ -28,6 +28,7 @@ class TriangulatedSurface(AssembledObject):
         edges = vertices[faces[:,1:],:] - pos[:,None,:]
         edge_norms = np.sqrt(np.sum(edges**2, axis=2))
         non_degenerate = np.all(abs(edge_norms) > 1e-8, axis=1)
+        pos = pos[non_degenerate]
         edges = edges[non_degenerate]
         edge_norms = edge_norms[non_degenerate]
         
@@ -38,6 +39,7 @@ class TriangulatedSurface(AssembledObject):
         xs = xs[non_collinear]
         zs = zs[non_collinear]
         ys = np.cross(zs, xs)
+        pos = pos[non_collinear]
         edges = edges[non_collinear]
         
         rots = np.concatenate((xs[...,None], ys[...,None], zs[...,None]), axis=2)
-- 
2.43.0


From d3f5bc1d6cfe2a748a3b4bee9488a1ce153acf01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:10 +0000
Subject: [PATCH 16/24] fix: inherited ray bundles do not share memory with
 their parent

---
 tracer/ray_bundle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracer/ray_bundle.py b/tracer/ray_bundle.py
index 4e60d54..b25ac3d 100644
--- a/tracer/ray_bundle.py
+++ b/tracer/ray_bundle.py
@@ -140,7 +140,7 @@ class RayBundle:
         
         for p, v in base_vals.iteritems():
             if base_vals[p] is None and hasattr(self, '_' + p):
-                base_vals[p] = self.__dict__['get_' + p](selector)
+                base_vals[p] = N.array(self.__dict__['get_' + p](selector))
         
         return RayBundle(**base_vals)
 
-- 
2.43.0


From eb92b67b2f20f02d4ee6d75189d52698d8ef4db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:14 +0000
Subject: [PATCH 17/24] fix: ray_tracer with reps=0 and tree=False

---
 tracer/tracer_engine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tracer/tracer_engine.py b/tracer/tracer_engine.py
index 2483197..6273dfd 100644
--- a/tracer/tracer_engine.py
+++ b/tracer/tracer_engine.py
@@ -113,6 +113,7 @@ class TracerEngine():
         surf_ownership = N.repeat(N.arange(len(objects)), surfs_per_obj)
         ray_ownership = -1*N.ones(bund.get_num_rays())
         surfs_relevancy = N.ones((num_surfs, bund.get_num_rays()), dtype=N.bool)
+        record = [bund]
         
         for i in xrange(reps):
             front_surf, owned_rays = self.intersect_ray(bund, surfaces, objects, \
-- 
2.43.0


From f6d12ce037421909f67efe1426d4abffe9716f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:18 +0000
Subject: [PATCH 18/24] fix: HeliostatField accepts integer positions

---
 tracer/models/heliostat_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracer/models/heliostat_field.py b/tracer/models/heliostat_field.py
index dfc11fb..85a88ec 100644
--- a/tracer/models/heliostat_field.py
+++ b/tracer/models/heliostat_field.py
@@ -30,7 +30,7 @@ class HeliostatField(Assembly):
         apsorpt - part of incident energy absorbed by the heliostat.
         aim_height - the height (Z coordinate) of the target for aiming
         """
-        self._pos = positions  # Save collecting positions from the hstats.
+        self._pos = N.array(positions, dtype=float)  # Save collecting positions from the hstats.
         self._th = aim_height
         face_down = rotx(N.pi)
         
-- 
2.43.0


From 660e1ff4fbccbd5baca03c45db14941a51e87d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:16 +0000
Subject: [PATCH 19/24] fix: draw ray segments from their own vertex when some
 rays are not shown

---
 tracer/mayavi_ui/scene_view.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tracer/mayavi_ui/scene_view.py b/tracer/mayavi_ui/scene_view.py
index f52a5c3..c3adec2 100644
--- a/tracer/mayavi_ui/scene_view.py
+++ b/tracer/mayavi_ui/scene_view.py
@@ -248,7 +248,7 @@ def show_rays(scene, tree, escaping_len, ray_selector=None):
         if level == tree.num_bunds() - 1:
             # Make endpoints for escaping rays
             ev = sv + sd*escaping_len
-            parents = N.arange(ev.shape[1])
+            parents = N.nonzero(non_degenerate)[0]
         else:
             end_rays = tree[level + 1]
             escaping = ~N.any(
@@ -256,13 +256,15 @@ def show_rays(scene, tree, escaping_len, ray_selector=None):
             escaping_endpoints = sv[:,escaping] + sd[:,escaping]*escaping_len
             
             ev = N.hstack((end_rays.get_vertices(), escaping_endpoints))
-            parents = N.hstack((end_rays.get_parents(), N.nonzero(escaping)[0]))
+            parents = N.hstack((end_rays.get_parents(),
+                N.nonzero(non_degenerate)[0][escaping]))
             
         points.append(ev)
         accum_points.append(accum_points[-1] + ev.shape[1])
         
         connections.append(N.hstack((accum_points[level] + parents[:,None],
-            accum_points[level + 1] + N.arange(ev.shape[1])[:,None] )) )
+            accum_points[level + 1] + N.arange(ev.shape[1])[:,None] ))[
+            non_degenerate[parents]])
     
     points = N.hstack(points)
     connections = N.vstack(connections)
-- 
2.43.0


From 70411b46e3da3f1d84ff291e97d68971132d69b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:54 +0000
Subject: [PATCH 20/24] fix: rays along its axis that miss a hexagonal dish
 don't hit it far away

---
 tracer/paraboloid.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tracer/paraboloid.py b/tracer/paraboloid.py
index 2493acc..d959df2 100644
--- a/tracer/paraboloid.py
+++ b/tracer/paraboloid.py
@@ -172,13 +172,16 @@ class HexagonalParabolicDishGM(Paraboloid):
         select = QuadricGM._select_coords(self, coords, prm) # defaults
 
         coords = N.concatenate((coords, N.ones((2,1,coords.shape[2]))), axis=1)
-        local = N.sum(N.linalg.inv(self._working_frame)[None,:2,:,None] * \
+        local = N.sum(N.linalg.inv(self._working_frame)[None,:3,:,None] * \
             coords[:,None,:,:], axis=2)
         
         abs_x = abs(local[:,0,:])
         abs_y = abs(local[:,1,:])
         outside = abs_x > math.sqrt(3)*self._R/2.
         outside |= abs_y > self._R - math.tan(N.pi/6.)*abs_x
+        # The far intersection of rays along the axis is much higher than any
+        # point in the hexagon, and its x and y can't be relied upon.
+        outside |= local[:,2,:] > 2*self.a*self._R**2
         inside = (~outside) & (prm > 0)
         
         select[~N.logical_or(*inside)] = N.nan
-- 
2.43.0


From 82adae52db4c9a0891ef6434411dd3366df3ba67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:18 +0000
Subject: [PATCH 21/24] fix: concatenate ray properties of any dimension along
 the rays

---
 tracer/ray_bundle.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tracer/ray_bundle.py b/tracer/ray_bundle.py
index b25ac3d..b3e2a94 100644
--- a/tracer/ray_bundle.py
+++ b/tracer/ray_bundle.py
@@ -161,9 +161,9 @@ class RayBundle:
                     newbund._create_property(attr[1:], None)
                 
                 # Do addition.
-                newbund.__dict__['set' + attr](N.hstack((
+                newbund.__dict__['set' + attr](N.concatenate((
                     self.__dict__['get' + attr](),
-                    added.__dict__['get' + attr]() )) )
+                    added.__dict__['get' + attr]() ), axis=-1) )
         
         return newbund
 
@@ -217,8 +217,8 @@ def concatenate_rays(bundles):
             
             # This is the actual concatenation:
             getter = 'get' + attr
-            newbund.__dict__['set' + attr](N.hstack(
-                [b.__dict__[getter]() for b in bundles]))
+            newbund.__dict__['set' + attr](N.concatenate(
+                [b.__dict__[getter]() for b in bundles], axis=-1))
     
     return newbund
 
-- 
2.43.0


From 19ef08b725471b10521c5e8941a11a77d304f049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:20 +0000
Subject: [PATCH 22/24] fix: TriangulatedSurface drops collinear faces whatever
 the rounding

The collinearity test came after normalizing the face normal, so it only caught
exactly zero cross products. Faces collinear up to rounding were kept, and since
their barycentric coordinates are 0/0 they were hit by rays far away from them.
---
 tracer/models/triangulated_surface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tracer/models/triangulated_surface.py b/tracer/models/triangulated_surface.py
index 1381bbb..a702afe 100644
--- a/tracer/models/triangulated_surface.py
+++ b/tracer/models/triangulated_surface.py
@@ -33,11 +33,11 @@ class TriangulatedSurface(AssembledObject):
         edge_norms = edge_norms[non_degenerate]
         
         xs = edges[:,0] / edge_norms[:,0,None]
-        zs = np.cross(xs, edges[:,1])
-        zs /= np.sqrt((zs**2).sum(-1))[:,None]
+        zs = np.cross(xs, edges[:,1] / edge_norms[:,1,None])
         non_collinear = np.any(abs(zs) > 1e-6, axis=1)
         xs = xs[non_collinear]
         zs = zs[non_collinear]
+        zs /= np.sqrt((zs**2).sum(-1))[:,None]
         ys = np.cross(zs, xs)
         pos = pos[non_collinear]
         edges = edges[non_collinear]
-- 
2.43.0


From 009a2470af231d26d85d7dc45be7428bd48f06db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:04 +0000
Subject: [PATCH 23/24] fix: remove the previous assembly's meshes when a
 TracerScene's assembly is replaced

---
 tracer/mayavi_ui/scene_view.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tracer/mayavi_ui/scene_view.py b/tracer/mayavi_ui/scene_view.py
index c3adec2..63549ee 100644
--- a/tracer/mayavi_ui/scene_view.py
+++ b/tracer/mayavi_ui/scene_view.py
@@ -33,6 +33,7 @@ class TracerScene(t_api.HasTraits):
         t_api.HasTraits.__init__(self)
         self._esc = escaping
         
+        self._meshes = {}
         self.set_assembly(assembly)
         self._source = source
         
@@ -67,6 +68,11 @@ class TracerScene(t_api.HasTraits):
         Arguments:
         asm - an Assembly instance, whose all surfacesd have a mesh() method.
         """
+        # The meshes of a previous assembly don't belong to this one:
+        for surf, mesh in self._meshes.values():
+            if mesh is not None:
+                mesh.remove()
+        
         self._asm = asm
         self._meshes = dict((id(s), (s, None)) for s in asm.get_surfaces())
         self.show_assembly()
-- 
2.43.0


From e65a5cb5987f08cfb7cab8dd3520926e09d6c78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:04 +0000
Subject: [PATCH 24/24] fix: let TracerScene.update_surfaces drop surfaces that
 are not drawn after clear_scene

---
 tracer/mayavi_ui/scene_view.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tracer/mayavi_ui/scene_view.py b/tracer/mayavi_ui/scene_view.py
index 63549ee..3332378 100644
--- a/tracer/mayavi_ui/scene_view.py
+++ b/tracer/mayavi_ui/scene_view.py
@@ -90,7 +90,8 @@ class TracerScene(t_api.HasTraits):
         # Remove:
         for sid in self._meshes.keys():
             if sid not in surf_ids:
-                self._meshes[sid][1].remove()
+                if self._meshes[sid][1] is not None:
+                    self._meshes[sid][1].remove()
                 del self._meshes[sid]
         
         # Add:
-- 
2.43.0

