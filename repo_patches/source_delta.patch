From 241474694be41b5ee22124658ce7af18188e7f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:06 +0000
Subject: [PATCH 01/67] fix: read the bool result of plane_intersection as a C
 bool

With restype=bool ctypes reads an int from the register, of which only the
lowest byte is defined: a trajectory that never meets the plane was reported
to intersect it at the origin.
---
 traceon/backend/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/traceon/backend/__init__.py b/traceon/backend/__init__.py
index 72323d0..f38f969 100644
--- a/traceon/backend/__init__.py
+++ b/traceon/backend/__init__.py
@@ -188,7 +188,7 @@ backend_functions = {
     'fill_matrix_radial': (None, arr(ndim=2), lines, arr(dtype=np.uint8, ndim=1), arr(ndim=1), jac_buffer_2d, pos_buffer_2d, sz, sz, C.c_int, C.c_int),
     'fill_jacobian_buffer_3d': (None, jac_buffer_3d, pos_buffer_3d, vertices, sz),
     'fill_matrix_3d': (None, arr(ndim=2), vertices, arr(dtype=np.uint8, ndim=1), arr(ndim=1), jac_buffer_3d, pos_buffer_3d, sz, sz, C.c_int, C.c_int),
-    'plane_intersection': (bool, v3, v3, arr(ndim=2), sz, arr(shape=(6,))),
+    'plane_intersection': (C.c_bool, v3, v3, arr(ndim=2), sz, arr(shape=(6,))),
     'triangle_areas': (None, vertices, arr(ndim=1), sz)
 }
 
-- 
2.43.0


From b22f61e78a373ecb905b23ff0f3f9a1917210f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:06 +0000
Subject: [PATCH 02/67] fix: plane_intersection finds samples lying exactly in
 the plane from both sides

The sign of zero was taken to be negative, so that whether the end point of a
trajectory counted as an intersection depended on the direction of the normal.
Also do not read out of bounds when there are no samples.
---
 traceon/backend/tracing.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/traceon/backend/tracing.c b/traceon/backend/tracing.c
index a18490c..0efcc91 100644
--- a/traceon/backend/tracing.c
+++ b/traceon/backend/tracing.c
@@ -372,7 +372,7 @@ EXPORT void fill_matrix_3d(double *restrict matrix,
 EXPORT bool
 plane_intersection(double p0[3], double normal[3], positions_3d positions, size_t N_p, double result[6]) {
 	
-	assert(N_p > 1);
+	if(N_p < 2) return false;
 		
 	double xp = p0[0], yp = p0[1], zp = p0[2];
 	double xn = normal[0], yn = normal[1], zn = normal[2];
@@ -389,12 +389,16 @@ plane_intersection(double p0[3], double normal[3], positions_3d positions, size_
 		double x = positions[i][0], y = positions[i][1], z = positions[i][2];	
 		double kappa = (zn*zp-z*zn+yn*yp-y*yn+xn*xp-x*xn)/norm_3d(xn, yn, zn);
 		
-		int sign_kappa = kappa > 0 ? 1 : -1;
-		int sign_prev = prev_kappa > 0 ? 1 : -1;
-		
-		if(sign_kappa != sign_prev) {
+		// A sample lying in the plane is an intersection, whatever the
+		// side (and so the direction of the normal) it is reached from.
+		if((kappa >= 0 && prev_kappa <= 0) || (kappa <= 0 && prev_kappa >= 0)) {
 			double diff = kappa - prev_kappa;
 			
+			if(diff == 0.) {
+				for(int k = 0; k < 6; k++) result[k] = positions[i+1][k];
+				return true;
+			}
+			
 			double factor = -prev_kappa / diff;
 			double prev_factor = kappa / diff;
 			
-- 
2.43.0


From ea4b588f5678dcc2e808458a158bf55e76d9646a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:50 +0000
Subject: [PATCH 03/67] fix: allow a worker to fill a single row of the radial
 matrix

The assertion start_index < end_index fails in a worker thread that got one row (for
example with more than N/2 threads for N elements), leaving that row of the matrix zero.
---
 traceon/backend/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/traceon/backend/__init__.py b/traceon/backend/__init__.py
index f38f969..64c6349 100644
--- a/traceon/backend/__init__.py
+++ b/traceon/backend/__init__.py
@@ -577,7 +577,7 @@ def fill_matrix_radial(matrix, lines, excitation_types, excitation_values, jac_b
     assert excitation_values.shape == (N,)
     assert jac_buffer.shape == (N, N_QUAD_2D)
     assert pos_buffer.shape == (N, N_QUAD_2D, 2)
-    assert 0 <= start_index < N and 0 <= end_index < N and start_index < end_index
+    assert 0 <= start_index < N and 0 <= end_index < N and start_index <= end_index
      
     backend_lib.fill_matrix_radial(matrix, lines, excitation_types, excitation_values, jac_buffer, pos_buffer, N, matrix.shape[0], start_index, end_index)
 
-- 
2.43.0


From 820717ab0f05114720f86b57f9d0545510994653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:50 +0000
Subject: [PATCH 04/67] fix: do not start worker threads without any work

With fewer items than threads some workers got an empty array, on which rows[0] raised an
IndexError in the thread.
---
 traceon/util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/traceon/util.py b/traceon/util.py
index cd695a8..d22296b 100644
--- a/traceon/util.py
+++ b/traceon/util.py
@@ -59,7 +59,9 @@ def split_collect(f, array: np.ndarray) -> List[np.ndarray]:
         logging.log_debug(f'Running function \'{f.__name__}\' on a single thread since DEBUG=True')
         return [f(array)]
     
-    args = np.array_split(array, get_number_of_threads())
+    # Never use more threads than there are items, as the functions
+    # to be run cannot handle an empty array.
+    args = np.array_split(array, max(1, min(get_number_of_threads(), len(array))))
      
     results = [np.zeros(0)]*len(args)
     
-- 
2.43.0


From f4b09d135ce7c2cce572f913475ce90e207a19e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:50 +0000
Subject: [PATCH 05/67] fix: raise exceptions of worker threads in the caller

An exception in a worker of split_collect only printed a traceback, after which the caller
continued with the part of the result of that worker missing (zero).
---
 traceon/util.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/traceon/util.py b/traceon/util.py
index d22296b..72326e8 100644
--- a/traceon/util.py
+++ b/traceon/util.py
@@ -64,9 +64,13 @@ def split_collect(f, array: np.ndarray) -> List[np.ndarray]:
     args = np.array_split(array, max(1, min(get_number_of_threads(), len(array))))
      
     results = [np.zeros(0)]*len(args)
+    exceptions: List[BaseException] = []
     
     def set_result(index):
-        results[index] = f(args[index])
+        try:
+            results[index] = f(args[index])
+        except BaseException as e:
+            exceptions.append(e)
     
     threads = [Thread(target=set_result, args=(i,)) for i in range(len(args))]
      
@@ -74,6 +78,11 @@ def split_collect(f, array: np.ndarray) -> List[np.ndarray]:
         t.start()
     for t in threads:
         t.join()
+    
+    # An exception in a thread is not propagated by Python itself. Without raising
+    # it here the part of the result computed by the thread would silently be missing.
+    if exceptions:
+        raise exceptions[0]
 
     return results
             
-- 
2.43.0


From fd21a82a216ee1008a5e43a9c40f9cc337d6ab01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:38 +0000
Subject: [PATCH 06/67] fix: subtraction, negation and scaling of boundary
 element fields, and any arithmetic of 3D fields

The operators called operators that EffectivePointCharges does not have, expected a
field where a number is given, and passed three arguments to the constructor of
Field3D_BEM that takes two. As a consequence problems in 3D with both electric and
magnetic excitations could not be solved either.
---
 traceon/solver.py | 53 ++++++++++++++++++++++++++---------------------
 1 file changed, 29 insertions(+), 24 deletions(-)

diff --git a/traceon/solver.py b/traceon/solver.py
index 05c8c3e..e2e8b04 100644
--- a/traceon/solver.py
+++ b/traceon/solver.py
@@ -573,41 +573,46 @@ class FieldBEM(Field, ABC):
     def is_magnetostatic(self):
         return len(self.magnetostatic_point_charges) > 0 or len(self.current_point_charges) > 0 
      
+    def _from_point_charges(self, electrostatic_point_charges, magnetostatic_point_charges, current_point_charges):
+        # A field of the same kind as self, but with other charges. The subclasses
+        # have constructors with different arguments, so these cannot be used here.
+        result = copy.copy(self)
+        result.electrostatic_point_charges = electrostatic_point_charges
+        result.magnetostatic_point_charges = magnetostatic_point_charges
+        result.current_point_charges = current_point_charges
+        return result
+     
     def __add__(self, other):
-        return self.__class__(
+        if not isinstance(other, FieldBEM):
+            return NotImplemented
+        
+        assert np.array_equal(self.field_bounds, other.field_bounds), "Cannot add fields with different field bounds."
+        
+        return self._from_point_charges(
             self.electrostatic_point_charges.__add__(other.electrostatic_point_charges),
             self.magnetostatic_point_charges.__add__(other.magnetostatic_point_charges),
             self.current_point_charges.__add__(other.current_point_charges))
      
     def __sub__(self, other):
-        return self.__class__(
-            self.electrostatic_point_charges.__sub__(other.electrostatic_point_charges),
-            self.magnetostatic_point_charges.__sub__(other.magnetostatic_point_charges),
-            self.current_point_charges.__sub__(other.current_point_charges))
-    
-    def __radd__(self, other):
-        return self.__class__(
-            self.electrostatic_point_charges.__radd__(other.electrostatic_point_charges),
-            self.magnetostatic_point_charges.__radd__(other.magnetostatic_point_charges),
-            self.current_point_charges.__radd__(other.current_point_charges))
+        if not isinstance(other, FieldBEM):
+            return NotImplemented
+        
+        return self.__add__(-other)
     
     def __mul__(self, other):
-        return self.__class__(
-            self.electrostatic_point_charges.__mul__(other.electrostatic_point_charges),
-            self.magnetostatic_point_charges.__mul__(other.magnetostatic_point_charges),
-            self.current_point_charges.__mul__(other.current_point_charges))
+        if not isinstance(other, (int, float)):
+            return NotImplemented
+        
+        return self._from_point_charges(
+            self.electrostatic_point_charges.__mul__(other),
+            self.magnetostatic_point_charges.__mul__(other),
+            self.current_point_charges.__mul__(other))
     
-    def __neg__(self, other):
-        return self.__class__(
-            self.electrostatic_point_charges.__neg__(other.electrostatic_point_charges),
-            self.magnetostatic_point_charges.__neg__(other.magnetostatic_point_charges),
-            self.current_point_charges.__neg__(other.current_point_charges))
+    def __neg__(self):
+        return self.__mul__(-1)
      
     def __rmul__(self, other):
-        return self.__class__(
-            self.electrostatic_point_charges.__rmul__(other.electrostatic_point_charges),
-            self.magnetostatic_point_charges.__rmul__(other.magnetostatic_point_charges),
-            self.current_point_charges.__rmul__(other.current_point_charges))
+        return self.__mul__(other)
      
     def area_of_elements(self, indices):
         """Compute the total area of the elements at the given indices.
-- 
2.43.0


From 50a6815b1f4b72bb2f6adf859befb7a53b1388d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:38 +0000
Subject: [PATCH 07/67] fix: arithmetic of axially interpolated fields

The operators called the constructor of FieldRadialAxial with coefficients, while it
takes the field to be interpolated.
---
 traceon/interpolation.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/traceon/interpolation.py b/traceon/interpolation.py
index 05a264b..31ff9bb 100644
--- a/traceon/interpolation.py
+++ b/traceon/interpolation.py
@@ -1,4 +1,5 @@
 import time
+import copy
 from abc import ABC, abstractmethod
 
 import numpy as np
@@ -43,12 +44,19 @@ class FieldAxial(S.Field, ABC):
         name = self.__class__.__name__
         return f'<Traceon {name}, zmin={self.z[0]} mm, zmax={self.z[-1]} mm,\n\tNumber of samples on optical axis: {len(self.z)}>'
      
+    def _from_coeffs(self, electrostatic_coeffs, magnetostatic_coeffs):
+        # The constructor of a subclass computes the coefficients from
+        # another field, so it cannot be used here.
+        result = copy.copy(self)
+        FieldAxial.__init__(result, self.z, electrostatic_coeffs, magnetostatic_coeffs)
+        return result
+     
     def __add__(self, other):
         if isinstance(other, FieldAxial):
             assert np.array_equal(self.z, other.z), "Cannot add FieldAxial if optical axis sampling is different."
             assert self.electrostatic_coeffs.shape == other.electrostatic_coeffs.shape, "Cannot add FieldAxial if shape of axial coefficients is unequal."
             assert self.magnetostatic_coeffs.shape == other.magnetostatic_coeffs.shape, "Cannot add FieldAxial if shape of axial coefficients is unequal."
-            return self.__class__(self.z, self.electrostatic_coeffs+other.electrostatic_coeffs, self.magnetostatic_coeffs + other.magnetostatic_coeffs)
+            return self._from_coeffs(self.electrostatic_coeffs+other.electrostatic_coeffs, self.magnetostatic_coeffs + other.magnetostatic_coeffs)
          
         return NotImplemented
     
@@ -60,7 +68,7 @@ class FieldAxial(S.Field, ABC):
      
     def __mul__(self, other):
         if isinstance(other, int) or isinstance(other, float):
-            return self.__class__(self.z, other*self.electrostatic_coeffs, other*self.magnetostatic_coeffs)
+            return self._from_coeffs(other*self.electrostatic_coeffs, other*self.magnetostatic_coeffs)
          
         return NotImplemented
     
-- 
2.43.0


From f582b5ae7dbfaa562cc6b6fa3240a5513b7db511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:44 +0000
Subject: [PATCH 08/67] fix: superposition of electric with magnetic
 excitations, of several coils and of magnetostatic potentials

The magnetic fields replaced the electric ones of the same name, every field contained the
currents of all coils, magnetostatic potentials were added to each field, and problems without
any magnetic (or electric) excitation but with magnetizable (or dielectric) material failed.
---
 traceon/excitation.py |  5 ++++-
 traceon/solver.py     | 27 +++++++++++++++++++--------
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/traceon/excitation.py b/traceon/excitation.py
index f7c7ea7..7caaf4e 100644
--- a/traceon/excitation.py
+++ b/traceon/excitation.py
@@ -231,9 +231,10 @@ class Excitation:
     
     def _split_for_superposition(self):
         
-        # Names that have a fixed voltage excitation, not equal to 0.0
+        # Names that have a fixed excitation, not equal to 0.0
         types = self.excitation_types
         non_zero_fixed = [n for n, (t, v) in types.items() if t in [ExcitationType.VOLTAGE_FIXED,
+                                                                    ExcitationType.MAGNETOSTATIC_POT,
                                                                     ExcitationType.CURRENT] and v != 0.0]
         
         excitations = []
@@ -249,6 +250,8 @@ class Excitation:
                     new_types_dict[n] = (t, 1.0)
                 elif t == ExcitationType.VOLTAGE_FIXED:
                     new_types_dict[n] = (t, 0.0)
+                elif t == ExcitationType.MAGNETOSTATIC_POT:
+                    new_types_dict[n] = (t, 0.0)
                 elif t == ExcitationType.CURRENT:
                     new_types_dict[n] = (t, 0.0)
                 else:
diff --git a/traceon/solver.py b/traceon/solver.py
index e2e8b04..03112f3 100644
--- a/traceon/solver.py
+++ b/traceon/solver.py
@@ -419,17 +419,28 @@ def solve_direct_superposition(excitation):
     excitations = excitation._split_for_superposition()
     
     # Solve for elec fields
-    elec_names = [n for n, v in excitations.items() if v.is_electrostatic()]
-    right_hand_sides = np.array([ElectrostaticSolver(excitations[n]).get_right_hand_side() for n in elec_names])
-    solutions = ElectrostaticSolver(excitation).solve_matrix(right_hand_sides)
-    elec_dict = {n:s for n, s in zip(elec_names, solutions)}
+    elec_names = [n for n in excitations if excitation.excitation_types[n][0].is_electrostatic()]
+    elec_dict = {}
+    
+    if elec_names:
+        right_hand_sides = np.array([ElectrostaticSolver(excitations[n]).get_right_hand_side() for n in elec_names])
+        solutions = ElectrostaticSolver(excitation).solve_matrix(right_hand_sides)
+        elec_dict = {n:s for n, s in zip(elec_names, solutions)}
     
     # Solve for mag fields 
-    mag_names = [n for n, v in excitations.items() if v.is_magnetostatic()]
-    right_hand_sides = np.array([MagnetostaticSolver(excitations[n]).get_right_hand_side() for n in mag_names])
-    solutions = MagnetostaticSolver(excitation).solve_matrix(right_hand_sides)
-    mag_dict = {n:s for n, s in zip(mag_names, solutions)}
+    mag_names = [n for n in excitations if excitation.excitation_types[n][0].is_magnetostatic()]
+    mag_dict = {}
+    
+    if mag_names:
+        solvers = [MagnetostaticSolver(excitations[n]) for n in mag_names]
+        right_hand_sides = np.array([s.get_right_hand_side() for s in solvers])
+        solutions = MagnetostaticSolver(excitation).solve_matrix(right_hand_sides)
         
+        for n, solver, field in zip(mag_names, solvers, solutions):
+            # The solver of the full excitation sets the sum of all currents
+            field.current_point_charges = solver.current_charges
+            mag_dict[n] = field
+    
     return {**elec_dict, **mag_dict}
 
 def solve_direct(excitation):
-- 
2.43.0


From d20592c2d938bbaa29a44c50090e723bad834f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:39 +0000
Subject: [PATCH 09/67] fix: keep the orientation of the elements when
 upgrading a mesh to higher order

The normals of an electrostatic or magnetostatic boundary, which have to point inwards, were
turned outwards again before solving.
---
 traceon/mesher.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/traceon/mesher.py b/traceon/mesher.py
index 8ea0b68..491f92a 100644
--- a/traceon/mesher.py
+++ b/traceon/mesher.py
@@ -541,7 +541,8 @@ class Mesh(Saveable, GeometricObject):
 
         return Mesh(points=points,
             lines=lines, physical_to_lines=self.physical_to_lines,
-            triangles=triangles, physical_to_triangles=self.physical_to_triangles)
+            triangles=triangles, physical_to_triangles=self.physical_to_triangles,
+            ensure_outward_normals=False)
      
     def __str__(self):
         physical_lines = ', '.join(self.physical_to_lines.keys())
-- 
2.43.0


From 1c2fc4c0090d32808188c31b1318ea044b197a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:39 +0000
Subject: [PATCH 10/67] fix: use the longest edge of a triangle to decide
 whether quadrature is accurate enough

Only the edge between the first two vertices was considered, so long triangles close to the
target could be integrated with a quadrature rule that is only valid far away.
---
 traceon/backend/tracing.c      | 4 ++--
 traceon/backend/utilities_3d.c | 7 +++++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/traceon/backend/tracing.c b/traceon/backend/tracing.c
index 0efcc91..cfd35b8 100644
--- a/traceon/backend/tracing.c
+++ b/traceon/backend/tracing.c
@@ -305,7 +305,7 @@ EXPORT void fill_matrix_3d(double *restrict matrix,
 				// Position of first integration point. Check if 
 				// close to the target triangle.
 				double distance = distance_3d(triangle_points[j][0], target);
-				double characteristic_length = distance_3d(triangle_points[j][0], triangle_points[j][1]);
+				double characteristic_length = longest_edge_3d(triangle_points[j]);
 				
 				if(i == j) {
 					matrix[i*N_matrix + j] = self_potential_triangle(&triangle_points[j][0][0], &triangle_points[j][1][0], &triangle_points[j][2][0], target);
@@ -339,7 +339,7 @@ EXPORT void fill_matrix_3d(double *restrict matrix,
 			for (int j = 0; j < N_lines; j++) {  
 					
 				double distance = distance_3d(triangle_points[j][0], target);
-				double characteristic_length = distance_3d(triangle_points[j][0], triangle_points[j][1]);
+				double characteristic_length = longest_edge_3d(triangle_points[j]);
 
 				if(i == j) {
 					matrix[i*N_matrix + j] = -1.0;
diff --git a/traceon/backend/utilities_3d.c b/traceon/backend/utilities_3d.c
index 2850213..46e37b6 100644
--- a/traceon/backend/utilities_3d.c
+++ b/traceon/backend/utilities_3d.c
@@ -101,6 +101,13 @@ triangle_area(double v0[3], double v1[3], double v2[3]) {
 	return norm_3d(out[0], out[1], out[2])/2.0;
 }
 
+double
+longest_edge_3d(triangle t) {
+	double l0 = distance_3d(t[0], t[1]), l1 = distance_3d(t[1], t[2]), l2 = distance_3d(t[2], t[0]);
+	double longest = l0 > l1 ? l0 : l1;
+	return longest > l2 ? longest : l2;
+}
+
 EXPORT void
 normal_3d(triangle t, double *normal) {
 	double x1 = t[0][0], y1 = t[0][1], z1 = t[0][2];
-- 
2.43.0


From 08b6d41cc019a652944a5a9637105fe866fca360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:00 +0000
Subject: [PATCH 11/67] fix: evaluate the field of coils at points given as
 integers

---
 traceon/backend/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/traceon/backend/__init__.py b/traceon/backend/__init__.py
index 64c6349..38c125d 100644
--- a/traceon/backend/__init__.py
+++ b/traceon/backend/__init__.py
@@ -515,7 +515,7 @@ def current_field(p0, currents, jac_buffer, pos_buffer):
     assert np.all(pos_buffer[:, :, 1] == 0.)
     
     result = np.zeros( (3,) )
-    backend_lib.current_field(p0, result, currents, jac_buffer, pos_buffer, N)
+    backend_lib.current_field(p0.astype(np.float64), result, currents, jac_buffer, pos_buffer, N)
     return result
 
 def current_axial_derivatives_radial(z, currents, jac_buffer, pos_buffer):
-- 
2.43.0


From 12cf2bdd96c551c18f4a7c52bce9e4b99222c59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:07 +0000
Subject: [PATCH 12/67] fix: evaluate the last interval of an axial
 interpolation at its last point

---
 traceon/backend/radial.c  | 8 ++++----
 traceon/backend/three_d.c | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/traceon/backend/radial.c b/traceon/backend/radial.c
index 2d09cbb..8fff80a 100644
--- a/traceon/backend/radial.c
+++ b/traceon/backend/radial.c
@@ -324,9 +324,9 @@ potential_radial_derivs(double point[3], double *z_inter, double *coeff_p, size_
 	double dz = z_inter[1] - z_inter[0];
 	int index = (int) ( (z-z0)/dz );
 	
-	// Guard against roundoff issues 0 <= index < N_z
+	// Guard against roundoff issues 0 <= index < N_z-1, there is one interval less than there are points
 	index = MAX(0, index);
-	index = MIN(index, N_z-1);
+	index = MIN(index, (int) N_z-2);
 			
 	double diffz = z - z_inter[index];
 		
@@ -356,9 +356,9 @@ field_radial_derivs(double point[3], double field[3], double *z_inter, double *c
 	
 	double dz = z_inter[1] - z_inter[0];
 	int index = (int) ( (z-z0)/dz );
-	// Guard against roundoff issues 0 <= index < N_z
+	// Guard against roundoff issues 0 <= index < N_z-1, there is one interval less than there are points
 	index = MAX(0, index);
-	index = MIN(index, N_z-1);
+	index = MIN(index, (int) N_z-2);
 		
 	double diffz = z - z_inter[index];
 		
diff --git a/traceon/backend/three_d.c b/traceon/backend/three_d.c
index efba5a4..1004927 100644
--- a/traceon/backend/three_d.c
+++ b/traceon/backend/three_d.c
@@ -208,9 +208,9 @@ potential_3d_derivs(double point[3], double *zs, double *coeffs_p, size_t N_z) {
 	
 	double dz = zs[1] - zs[0];
 	int index = (int) ((zp-zs[0])/dz);
-	// Guard against roundoff issues 0 <= index < N_z
+	// Guard against roundoff issues 0 <= index < N_z-1, there is one interval less than there are points
 	index = MAX(0, index);
-	index = MIN(index, N_z-1);
+	index = MIN(index, (int) N_z-2);
 		
 	
 	double z_ = zp - zs[index];
@@ -249,9 +249,9 @@ field_3d_derivs(double point[3], double field[3], double *restrict zs, double *r
 		
 	double dz = zs[1] - zs[0];
 	int index = (int) ((zp-zs[0])/dz);
-	// Guard against roundoff issues 0 <= index < N_z
+	// Guard against roundoff issues 0 <= index < N_z-1, there is one interval less than there are points
 	index = MAX(0, index);
-	index = MIN(index, N_z-1);
+	index = MIN(index, (int) N_z-2);
 		
 	double z_ = zp - zs[index];
 
-- 
2.43.0


From 3b22f32fd798b467c7a70fe166669ec9abb4f4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:07 +0000
Subject: [PATCH 13/67] fix: return the field from field_3d_derivs

---
 traceon/backend/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/traceon/backend/__init__.py b/traceon/backend/__init__.py
index 38c125d..ae029a8 100644
--- a/traceon/backend/__init__.py
+++ b/traceon/backend/__init__.py
@@ -487,6 +487,7 @@ def field_3d_derivs(point, z, coeffs):
 
     field = np.zeros( (3,) )
     backend_lib.field_3d_derivs(point.astype(np.float64), field, z, coeffs, len(z))
+    return field
 
 current_potential_axial_radial_ring = backend_lib.current_potential_axial_radial_ring
 
-- 
2.43.0


From ecd98228c2e9e72e91af4cd3574c2f42c7b1a2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:07 +0000
Subject: [PATCH 14/67] fix: choose a usable number of axial samples for fields
 of coils and of few elements

---
 traceon/interpolation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/traceon/interpolation.py b/traceon/interpolation.py
index 31ff9bb..e8a14c5 100644
--- a/traceon/interpolation.py
+++ b/traceon/interpolation.py
@@ -123,8 +123,9 @@ class FieldRadialAxial(FieldAxial):
     def _get_interpolation_coefficients(field: S.FieldRadialBEM, zmin, zmax, N=None):
         assert zmax > zmin, "zmax should be bigger than zmin"
 
-        N_charges = max(len(field.electrostatic_point_charges.charges), len(field.magnetostatic_point_charges.charges))
-        N = N if N is not None else int(FACTOR_AXIAL_DERIV_SAMPLING_2D*N_charges)
+        N_charges = max(len(field.electrostatic_point_charges.charges), len(field.magnetostatic_point_charges.charges),
+                            len(field.current_point_charges.charges))
+        N = N if N is not None else max(2, int(FACTOR_AXIAL_DERIV_SAMPLING_2D*N_charges))
         z = np.linspace(zmin, zmax, N)
         
         st = time.time()
-- 
2.43.0


From f16e6d2a4e5f1c677d253b27e98c436105c9aa1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:44 +0000
Subject: [PATCH 15/67] fix: respect the z bounds of radial fields when tracing

---
 traceon/backend/tracing.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/traceon/backend/tracing.c b/traceon/backend/tracing.c
index cfd35b8..ff59a99 100644
--- a/traceon/backend/tracing.c
+++ b/traceon/backend/tracing.c
@@ -123,7 +123,8 @@ field_radial_traceable(double point[6], double result[3], void *args_p) {
 	double (*bounds)[2] = (double (*)[2]) args->bounds;
 	
 	if(args->bounds == NULL || ((bounds[0][0] < point[0]) && (point[0] < bounds[0][1])
-						 && (bounds[1][0] < point[1]) && (point[1] < bounds[1][1]))) {
+						 && (bounds[1][0] < point[1]) && (point[1] < bounds[1][1])
+						 && (bounds[2][0] < point[2]) && (point[2] < bounds[2][1]))) {
 		
 		double elec_field[3] = {0.};
 		double mag_field[3] = {0.};
-- 
2.43.0


From b4169b62f202a08b97893d4d7154a8ad858a9906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:44 +0000
Subject: [PATCH 16/67] fix: respect the bounds of 3D fields when tracing

---
 traceon/tracing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/traceon/tracing.py b/traceon/tracing.py
index a9f49c3..18d6386 100644
--- a/traceon/tracing.py
+++ b/traceon/tracing.py
@@ -175,7 +175,7 @@ class Tracer3D_BEM(Tracer):
         velocity = _convert_velocity_to_SI(velocity)
         bounds = self.field.field_bounds
         elec, mag = self.field.electrostatic_point_charges, self.field.magnetostatic_point_charges
-        return backend.trace_particle_3d(position, velocity, self.bounds, atol, elec, mag)
+        return backend.trace_particle_3d(position, velocity, self.bounds, atol, elec, mag, field_bounds=bounds)
 
 class Tracer3DAxial(Tracer):
     def __call__(self, position, velocity, atol=1e-10):
-- 
2.43.0


From a78fc055d86f4a040b7c242e0fa416b8b15c8973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:44 +0000
Subject: [PATCH 17/67] fix: accept field bounds given as integers or as a
 transposed array

---
 traceon/solver.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/traceon/solver.py b/traceon/solver.py
index 03112f3..f7b1bca 100644
--- a/traceon/solver.py
+++ b/traceon/solver.py
@@ -575,8 +575,9 @@ class FieldBEM(Field, ABC):
         bounds: (3, 2) np.ndarray of float64
             The min, max value of x, y, z respectively within the field is still computed.
         """
-        self.field_bounds = np.array(bounds)
-        assert self.field_bounds.shape == (3,2)
+        bounds = np.array(bounds, dtype=np.float64, order='C')
+        assert bounds.shape == (3,2)
+        self.field_bounds = bounds
     
     def is_electrostatic(self):
         return len(self.electrostatic_point_charges) > 0
-- 
2.43.0


From ee652a974354454e0a189ba38bc2c725400bec2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:44 +0000
Subject: [PATCH 18/67] fix: accept tracer bounds given as a transposed array

---
 traceon/tracing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/traceon/tracing.py b/traceon/tracing.py
index 18d6386..4fd46a3 100644
--- a/traceon/tracing.py
+++ b/traceon/tracing.py
@@ -113,7 +113,7 @@ class Tracer:
     def __init__(self, field, bounds):
         self.field = field
          
-        bounds = np.array(bounds).astype(np.float64)
+        bounds = np.array(bounds, dtype=np.float64, order='C')
         assert bounds.shape == (3,2)
         self.bounds = bounds
     
-- 
2.43.0


From ee53d2be5acdae1683fdf502c01a62c8b5856e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:07 +0000
Subject: [PATCH 19/67] fix: return no field at points outside of the field
 bounds

---
 traceon/solver.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/traceon/solver.py b/traceon/solver.py
index f7b1bca..b90f636 100644
--- a/traceon/solver.py
+++ b/traceon/solver.py
@@ -579,6 +579,12 @@ class FieldBEM(Field, ABC):
         assert bounds.shape == (3,2)
         self.field_bounds = bounds
     
+    def _inside_bounds(self, point):
+        if self.field_bounds is None:
+            return True
+        
+        return bool(np.all( (self.field_bounds[:, 0] < point) & (point < self.field_bounds[:, 1]) ))
+    
     def is_electrostatic(self):
         return len(self.electrostatic_point_charges) > 0
 
@@ -688,6 +694,9 @@ class FieldRadialBEM(FieldBEM):
     def current_field_at_point(self, point_):
         point = np.array(point_)
         assert point.shape == (3,), "Please supply a three dimensional point"
+        
+        if not self._inside_bounds(point):
+            return np.zeros(3)
             
         currents = self.current_point_charges.charges
         jacobians = self.current_point_charges.jacobians
@@ -709,6 +718,9 @@ class FieldRadialBEM(FieldBEM):
         """
         point = np.array(point_)
         assert point.shape == (3,), "Please supply a three dimensional point"
+        
+        if not self._inside_bounds(point):
+            return np.zeros(3)
           
         charges = self.electrostatic_point_charges.charges
         jacobians = self.electrostatic_point_charges.jacobians
@@ -750,6 +762,9 @@ class FieldRadialBEM(FieldBEM):
         """
         point = np.array(point_)
         assert point.shape == (3,), "Please supply a three dimensional point"
+        
+        if not self._inside_bounds(point):
+            return np.zeros(3)
         current_field = self.current_field_at_point(point)
         
         charges = self.magnetostatic_point_charges.charges
@@ -893,6 +908,9 @@ class Field3D_BEM(FieldBEM):
         """
         point = np.array(point_)
         assert point.shape == (3,), "Please supply a three dimensional point"
+        
+        if not self._inside_bounds(point):
+            return np.zeros(3)
         charges = self.electrostatic_point_charges.charges
         jacobians = self.electrostatic_point_charges.jacobians
         positions = self.electrostatic_point_charges.positions
@@ -933,6 +951,9 @@ class Field3D_BEM(FieldBEM):
         """
         point = np.array(point_)
         assert point.shape == (3,), "Please supply a three dimensional point"
+        
+        if not self._inside_bounds(point):
+            return np.zeros(3)
         charges = self.magnetostatic_point_charges.charges
         jacobians = self.magnetostatic_point_charges.jacobians
         positions = self.magnetostatic_point_charges.positions
-- 
2.43.0


From e159d862ed6492db1e3a7cb57a158cfa6f61273c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:23 +0000
Subject: [PATCH 20/67] fix: rotating an object by zero is the identity

With all angles zero none of the rotation matrices was created, so the
result raised UnboundLocalError as soon as one of its points was used.
---
 traceon/mesher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/traceon/mesher.py b/traceon/mesher.py
index 491f92a..0ed68c2 100644
--- a/traceon/mesher.py
+++ b/traceon/mesher.py
@@ -96,7 +96,7 @@ class GeometricObject(ABC):
             matrix = np.array([[np.cos(Ry), 0, np.sin(Ry)],
                 [0, 1, 0],
                 [-np.sin(Ry), 0, np.cos(Ry)]])
-        elif Rz != 0.:
+        else:
             matrix = np.array([[np.cos(Rz), -np.sin(Rz), 0],
                 [np.sin(Rz), np.cos(Rz), 0],
                 [0, 0, 1]])
-- 
2.43.0


From 31465b57225aba8fbf752eda8a3dc33fadfc8793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:32 +0000
Subject: [PATCH 21/67] fix: a transformed collection keeps its name

The members kept their names, but the collection itself lost it.
---
 traceon/geometry.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index d9de84b..949a8e6 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -766,7 +766,9 @@ class PathCollection(GeometricObject):
             path.name = name
      
     def map_points(self, fun):
-        return PathCollection([p.map_points(fun) for p in self.paths])
+        result = PathCollection([p.map_points(fun) for p in self.paths])
+        result._name = self._name
+        return result
      
     def mesh(self, mesh_size=None, mesh_size_factor=None, higher_order=False, name=None, ensure_outward_normals=True):
         """See `Path.mesh`"""
@@ -1339,7 +1341,9 @@ class SurfaceCollection(GeometricObject):
             surf.name = name
      
     def map_points(self, fun):
-        return SurfaceCollection([s.map_points(fun) for s in self.surfaces])
+        result = SurfaceCollection([s.map_points(fun) for s in self.surfaces])
+        result._name = self._name
+        return result
      
     def mesh(self, mesh_size=None, mesh_size_factor=None, name=None, ensure_outward_normals=True):
         """See `Surface.mesh`"""
-- 
2.43.0


From ac09cae28cdd6fea2f62f3e0be91781831f3f760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:14 +0000
Subject: [PATCH 22/67] fix: breakpoints of the second path move along when
 paths are joined

In path1 >> path2 the breakpoints of path2 were taken over as they are,
while they lie path1.path_length further along the resulting path.
---
 traceon/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index 949a8e6..a502c50 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -231,7 +231,7 @@ class Path(GeometricObject):
             else:
                 return other(t - self.path_length)
         
-        return Path(f, total, self.breakpoints + [self.path_length] + other.breakpoints, name=self.name)
+        return Path(f, total, self.breakpoints + [self.path_length] + [self.path_length + b for b in other.breakpoints], name=self.name)
 
     def starting_point(self):
         """Returns the starting point of the path.
-- 
2.43.0


From 2b55a85372c3bb897af22e990208e0f8e79a7bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:14 +0000
Subject: [PATCH 23/67] fix: allow for rounding errors in the distance along a
 joined path

The end of a path that consists of several parts is evaluated at a sum or
difference of path lengths, which can exceed the length by a rounding error.
The assertion failed for that point.
---
 traceon/geometry.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index a502c50..1a925c2 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -224,12 +224,13 @@ class Path(GeometricObject):
         total = self.path_length + other.path_length
          
         def f(t):
-            assert 0 <= t <= total
+            # Allow for rounding errors, for example when the path is part of another one
+            assert -1e-10*total <= t <= (1 + 1e-10)*total
             
             if t <= self.path_length:
-                return self(t)
+                return self(max(t, 0.))
             else:
-                return other(t - self.path_length)
+                return other(min(t - self.path_length, other.path_length))
         
         return Path(f, total, self.breakpoints + [self.path_length] + [self.path_length + b for b in other.breakpoints], name=self.name)
 
-- 
2.43.0


From e5a6a5b24d370f64030141f11f51f5c943657564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:14 +0000
Subject: [PATCH 24/67] fix: arcs accept integer points and do not alias the
 center

The in place divisions fail for integer arrays. The array passed as the
center was used when the path is evaluated, so the arc moved when that
array changed.
---
 traceon/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index 1a925c2..04edece 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -383,7 +383,7 @@ class Path(GeometricObject):
         Returns
         ----------------------------
         Path"""
-        start_arr, center_arr, end_arr = np.array(start), np.array(center), np.array(end)
+        start_arr, center_arr, end_arr = np.array(start, dtype=np.float64), np.array(center, dtype=np.float64), np.array(end, dtype=np.float64)
          
         x_unit = start_arr - center_arr
         x_unit /= np.linalg.norm(x_unit)
@@ -403,7 +403,7 @@ class Path(GeometricObject):
           
         def f(l):
             theta = l/path_length * theta_max
-            return center + radius*cos(theta)*x_unit + radius*sin(theta)*y_unit
+            return center_arr + radius*cos(theta)*x_unit + radius*sin(theta)*y_unit
         
         return Path(f, path_length)
      
-- 
2.43.0


From 6fc8f9e5e5567afb9aa8109f2ec0c9906722e897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:32 +0000
Subject: [PATCH 25/67] fix: breakpoints of an irregular function stay at the
 given place

The breakpoints are given in terms of the argument of the function, which
is not proportional to the path length. So the points where the function is
not differentiable were not included in the mesh.
---
 traceon/geometry.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index 04edece..3c23d94 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -15,6 +15,7 @@ from math import pi, sqrt, sin, cos, atan2, ceil
 import numpy as np
 from scipy.integrate import quad
 from scipy.interpolate import CubicSpline
+from scipy.optimize import brentq
 
 from .mesher import GeometricObject, _mesh, Mesh
 
@@ -111,7 +112,10 @@ class Path(GeometricObject):
 
         path_length = path_lengths[-1]
         
-        return Path(lambda pl: fun(interpolation(pl)), path_length, breakpoints=[b*path_length for b in breakpoints])
+        def to_path_length(b): # The inverse of the interpolation
+            return brentq(lambda pl: interpolation(pl) - b, 0., path_length, xtol=1e-14*path_length) if 0 < b < 1 else b*path_length
+        
+        return Path(lambda pl: fun(interpolation(pl)), path_length, breakpoints=[to_path_length(b) for b in breakpoints])
     
     @staticmethod
     def spline_through_points(points, N=100):
-- 
2.43.0


From e95a9b6e44018a2e2a14364fc586f127886155f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:32 +0000
Subject: [PATCH 26/67] fix: reject an arc of which the plane is not determined

When the center, the start and the end of an arc are collinear (for example
half a circle) the second unit vector is the result of dividing rounding
errors or zeros, and the path consisted of arbitrary points or NaNs.
---
 traceon/geometry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index 3c23d94..644c9a6 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -395,6 +395,8 @@ class Path(GeometricObject):
         vector = end_arr - center_arr
          
         y_unit = vector - np.dot(vector, x_unit) * x_unit
+        assert np.linalg.norm(y_unit) > 1e-10*np.linalg.norm(vector), \
+            "The plane of the arc is not determined, as the center, start and end lie on a line"
         y_unit /= np.linalg.norm(y_unit)
 
         radius = np.linalg.norm(start_arr - center_arr) 
-- 
2.43.0


From f6c84b72fb421f3523f9c15884cdc6df19ad6f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:32 +0000
Subject: [PATCH 27/67] fix: closing a path that is closed already keeps the
 path as it is

The line to the starting point has zero length in this case, or the length
of a rounding error. The former failed with an AssertionError, the latter
gave a mesh with elements of the size of a rounding error.
---
 traceon/geometry.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index 644c9a6..1337782 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -528,6 +528,9 @@ class Path(GeometricObject):
         Returns
         -------------------
         Path"""
+        if self.is_closed():
+            return Path(self.fun, self.path_length, self.breakpoints, name=self.name)
+        
         return self.line_to(self.starting_point())
     
     @staticmethod
-- 
2.43.0


From 10eb98872dac915d96b1bdab0f90a101fc296886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:55 +0000
Subject: [PATCH 28/67] fix: a path accepts a mesh size factor that is not an
 integer

The number of elements was a float in this case, which raised a TypeError.
---
 traceon/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index 1337782..222faf9 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -53,7 +53,7 @@ def discretize_path(path_length, breakpoints, mesh_size, mesh_size_factor=None,
         if mesh_size is not None:
             N = max( ceil((u1-u0)/mesh_size), 3)
         elif mesh_size_factor is not None:
-            N = 3*max(mesh_size_factor, 1)
+            N = ceil(3*max(mesh_size_factor, 1))
         
         # When using higher order, we splice extra points
         # between two points in the descretization. This
-- 
2.43.0


From bcc5f26c94d431f4cb968dfe623f39935120b0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:55 +0000
Subject: [PATCH 29/67] fix: path meshing handles breakpoints that coincide or
 are not sorted

Breakpoints that differ by a rounding error, from each other or from the
ends of the path, gave elements with the size of the rounding error.
Breakpoints in another order gave a mesh that goes back and forth.
---
 traceon/geometry.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index 222faf9..ff688d3 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -42,7 +42,15 @@ def discretize_path(path_length, breakpoints, mesh_size, mesh_size_factor=None,
     # in a 'nice' way
     
     # Points that have to be in, in any case
-    points = [0.] + breakpoints +  [path_length]
+    points = [0.]
+    
+    # Breakpoints are not necessarily sorted, and can coincide (up to rounding
+    # errors) with each other or with the ends of the path.
+    for b in sorted(breakpoints):
+        if b - points[-1] > 1e-10*path_length and path_length - b > 1e-10*path_length:
+            points.append(b)
+     
+    points.append(path_length)
 
     subdivision = []
         
-- 
2.43.0


From 88121f2b4a3736057cac2e8fcfbffa502a9b90d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:55 +0000
Subject: [PATCH 30/67] fix: the mesh of a closed path is closed

The endpoint of for example a circle differs from its starting point by a
rounding error, so that the points were not merged and the first and the
last element had no vertex in common.
---
 traceon/geometry.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index ff688d3..8e3ece7 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -737,6 +737,10 @@ class Path(GeometricObject):
          
         for i in range(N):
             points[i] = self(u[i])
+        
+        # The mesh of a closed path is closed, whatever the rounding errors
+        if len(points) > 1 and np.allclose(points[0], points[-1], rtol=1e-10, atol=1e-10*self.path_length):
+            points[-1] = points[0]
          
         if not higher_order:
             lines = np.array([np.arange(N-1), np.arange(1, N)]).T
-- 
2.43.0


From cf94ea702b3179e0b6b2f030363b73c693cce382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:41 +0000
Subject: [PATCH 31/67] fix: meshing a collection honours
 ensure_outward_normals=False

The option was passed on to the members, but adding the meshes of the
members turned the normals outward all the same.
---
 traceon/geometry.py | 6 +++---
 traceon/mesher.py   | 8 ++++++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index 8e3ece7..1130ffc 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -799,8 +799,8 @@ class PathCollection(GeometricObject):
         name = self.name if name is None else name
         
         for p in self.paths:
-            mesh = mesh + p.mesh(mesh_size=mesh_size, mesh_size_factor=mesh_size_factor,
-                                higher_order=higher_order, name=name, ensure_outward_normals=ensure_outward_normals)
+            mesh = mesh._join(p.mesh(mesh_size=mesh_size, mesh_size_factor=mesh_size_factor,
+                                higher_order=higher_order, name=name, ensure_outward_normals=ensure_outward_normals), ensure_outward_normals)
 
         return mesh
 
@@ -1374,7 +1374,7 @@ class SurfaceCollection(GeometricObject):
         name = self.name if name is None else name
         
         for s in self.surfaces:
-            mesh = mesh + s.mesh(mesh_size=mesh_size, mesh_size_factor=mesh_size_factor, name=name, ensure_outward_normals=ensure_outward_normals)
+            mesh = mesh._join(s.mesh(mesh_size=mesh_size, mesh_size_factor=mesh_size_factor, name=name, ensure_outward_normals=ensure_outward_normals), ensure_outward_normals)
          
         return mesh
      
diff --git a/traceon/mesher.py b/traceon/mesher.py
index 0ed68c2..c1e4ef4 100644
--- a/traceon/mesher.py
+++ b/traceon/mesher.py
@@ -279,7 +279,10 @@ class Mesh(Saveable, GeometricObject):
         A new mesh consisting of the elements of the added meshes"""
         if not isinstance(other, Mesh):
             return NotImplemented
-         
+        
+        return self._join(other)
+    
+    def _join(self, other, ensure_outward_normals=True):
         N_points = len(self.points)
         N_lines = len(self.lines)
         N_triangles = len(self.triangles)
@@ -298,7 +301,8 @@ class Mesh(Saveable, GeometricObject):
                     lines=lines,
                     triangles=triangles,
                     physical_to_lines=physical_lines,
-                    physical_to_triangles=physical_triangles)
+                    physical_to_triangles=physical_triangles,
+                    ensure_outward_normals=ensure_outward_normals)
      
     def extract_physical_group(self, name):
         """Extract a named group from the mesh.
-- 
2.43.0


From dbf9682821197a77cadc409bdfa2b3714a5077b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:08 +0000
Subject: [PATCH 32/67] fix: mesh surfaces with breakpoints in both directions
 without cracks

---
 traceon/mesher.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/traceon/mesher.py b/traceon/mesher.py
index c1e4ef4..b352e65 100644
--- a/traceon/mesher.py
+++ b/traceon/mesher.py
@@ -1049,17 +1049,18 @@ def _mesh(surface, mesh_size, start_depth=2, name=None, ensure_outward_normals=T
     # Normalize all the point stacks to the max depth of all sections 
     point_with_quads = [p.normalize_to_depth(max_depth, q, start_depth) for p, q in zip(point_stacks, quads)]
     
-    # Copy over the edges
+    # Copy over the edges, the sections are ordered with the index along
+    # the second parameter changing fastest
     Nx, Ny = len(surface.breakpoints1)+1, len(surface.breakpoints2)+1
     assert len(point_with_quads) == Nx*Ny
 
     for i in range(Nx-1):
         for j in range(Ny): # Horizontal copying
-            _copy_over_edge(point_with_quads[j*Nx + i][-1, :], point_with_quads[j*Nx + i + 1][0, :])
+            _copy_over_edge(point_with_quads[i*Ny + j][-1, :], point_with_quads[(i+1)*Ny + j][0, :])
      
     for i in range(Nx):
         for j in range(Ny-1): # Vertical copying
-            _copy_over_edge(point_with_quads[j*Nx + i][:, -1], point_with_quads[(j+1)*Nx + i][:, 0])
+            _copy_over_edge(point_with_quads[i*Ny + j][:, -1], point_with_quads[i*Ny + j + 1][:, 0])
      
     points = np.array(points)
     triangles = np.concatenate([pq.to_triangles() for pq in point_with_quads], axis=0)
-- 
2.43.0


From 2a384b4109be1b6e178bb53f91a535e02c699843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:08 +0000
Subject: [PATCH 33/67] fix: subdivide quads spanning several indices
 completely

---
 traceon/mesher.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/traceon/mesher.py b/traceon/mesher.py
index b352e65..284e0c6 100644
--- a/traceon/mesher.py
+++ b/traceon/mesher.py
@@ -999,17 +999,19 @@ def _subdivide_quads(pstack, mesh_size, to_subdivide=[], quads=[]):
         h = horizontal > ms or (horizontal > 2.5*vertical and horizontal > 1/8*ms)
         v = vertical > ms or (vertical > 2.5*horizontal and vertical > 1/8*ms)
             
+        # The quad might have been split before in only one of the directions, in
+        # which case it spans more than one index in the other direction.
         if h and v: # Split both horizontally and vertically
-            to_subdivide.append((depth+1, 2*i0, 2*i0+1, 2*j0, 2*j0+1))
-            to_subdivide.append((depth+1, 2*i0, 2*i0+1, 2*j0+1, 2*j0+2))
-            to_subdivide.append((depth+1, 2*i0+1, 2*i0+2, 2*j0, 2*j0+1))
-            to_subdivide.append((depth+1, 2*i0+1, 2*i0+2, 2*j0+1, 2*j0+2))
+            to_subdivide.append((depth+1, 2*i0, i0+i1, 2*j0, j0+j1))
+            to_subdivide.append((depth+1, 2*i0, i0+i1, j0+j1, 2*j1))
+            to_subdivide.append((depth+1, i0+i1, 2*i1, 2*j0, j0+j1))
+            to_subdivide.append((depth+1, i0+i1, 2*i1, j0+j1, 2*j1))
         elif h and not v: # Split only horizontally
-            to_subdivide.append((depth+1, 2*i0, 2*i1, 2*j0, 2*j0+1))
-            to_subdivide.append((depth+1, 2*i0, 2*i1, 2*j0+1, 2*j0+2)) 
+            to_subdivide.append((depth+1, 2*i0, 2*i1, 2*j0, j0+j1))
+            to_subdivide.append((depth+1, 2*i0, 2*i1, j0+j1, 2*j1))
         elif v and not h: # Split only vertically
-            to_subdivide.append((depth+1, 2*i0, 2*i0+1, 2*j0, 2*j1))
-            to_subdivide.append((depth+1, 2*i0+1, 2*i0+2, 2*j0, 2*j1))
+            to_subdivide.append((depth+1, 2*i0, i0+i1, 2*j0, 2*j1))
+            to_subdivide.append((depth+1, i0+i1, 2*i1, 2*j0, 2*j1))
         else: # We are done, both sides are within mesh size limits
             quads.append((depth, i0, i1, j0, j1))
 
-- 
2.43.0


From 844f390b1f973c79a479e3aadc87e9c587f5b147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:36 +0000
Subject: [PATCH 34/67] fix: triangulate quads with several points on their
 edges without cracks

---
 traceon/mesher.py | 60 +++++++++++++++++++++++++++++++----------------
 1 file changed, 40 insertions(+), 20 deletions(-)

diff --git a/traceon/mesher.py b/traceon/mesher.py
index 284e0c6..9877f31 100644
--- a/traceon/mesher.py
+++ b/traceon/mesher.py
@@ -836,6 +836,35 @@ class PointsWithQuads:
         
         self.shape = indices.shape
     
+    @staticmethod
+    def _triangulate_quad(boundary, size_i, size_j):
+        """Triangulate a quad which has additional points on its edges, using all the points. The
+        points are removed one by one, always choosing the shortest edge to close the gap."""
+        def double_area(p, q, r):
+            return (q[0]-p[0])*(r[1]-p[1]) - (q[1]-p[1])*(r[0]-p[0])
+        
+        def is_flat(points):
+            return all(double_area(points[0], points[1], p) == 0 for p in points[2:])
+        
+        triangles = []
+        boundary = list(boundary)
+        
+        while len(boundary) > 3:
+            candidates = []
+            
+            for k in range(len(boundary)):
+                p, q, r = boundary[k-1], boundary[k], boundary[(k+1) % len(boundary)]
+                
+                if double_area(p, q, r) != 0 and not is_flat(boundary[:k] + boundary[k+1:]):
+                    candidates.append( (((p[0]-r[0])/size_i)**2 + ((p[1]-r[1])/size_j)**2, k) )
+             
+            _, k = min(candidates)
+            triangles.append( (boundary[k-1], boundary[k], boundary[(k+1) % len(boundary)]) )
+            del boundary[k]
+        
+        triangles.append(tuple(boundary))
+        return triangles
+    
     def to_triangles(self):
         triangles = []
 
@@ -851,29 +880,20 @@ class PointsWithQuads:
             p2 = (i1, j1)
             p3 = (i1, j0)
 
-            split_edge = False
+            # The corners and all points on the edges which were introduced
+            # by the (finer) neighbours of this quad.
+            present = self.indices[i0:i1+1, j0:j1+1] != -1
+            boundary = [(i0, j0+j) for j in np.flatnonzero(present[0, :-1])] \
+                        + [(i0+i, j1) for i in np.flatnonzero(present[:-1, -1])] \
+                        + [(i1, j1-j) for j in np.flatnonzero(present[-1, :0:-1])] \
+                        + [(i1-i, j0) for i in np.flatnonzero(present[:0:-1, 0])]
             
-            # Check if there is a point on the edge 
-            for edge in range(4):
-                # Is there a point on the first edge?
-                point_on_edge = (p0[0]+p1[0])//2, (p0[1]+p1[1])//2
-                
-                if (abs(p0[0] - p1[0]) > 1 or abs(p0[1] - p1[1]) > 1) and \
-                        self.indices[point_on_edge[0], point_on_edge[1]] != -1:
-                    # Yes there is a point.. we have to split the
-                    # quad into three triangles
-                    add_triangle(p0, point_on_edge, p3)
-                    add_triangle(point_on_edge, p2, p3)
-                    add_triangle(point_on_edge, p1, p2)
-                    split_edge = True
-                    break
-                
-                # Rotate the points so we check the next edge
-                p0, p1, p2, p3 = p1, p2, p3, p0
-             
-            if not split_edge: 
+            if len(boundary) == 4:
                 add_triangle(p0, p1, p2)
                 add_triangle(p0, p2, p3)
+            else:
+                for triangle in PointsWithQuads._triangulate_quad(boundary, i1-i0, j1-j0):
+                    add_triangle(*triangle)
          
         assert not (-1 in np.array(triangles))
         return triangles
-- 
2.43.0


From 7b5f7556638e88464eceeb5f165649d63b2e3d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:58 +0000
Subject: [PATCH 35/67] fix: connect the first and last edge of surfaces that
 close on themselves

---
 traceon/mesher.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/traceon/mesher.py b/traceon/mesher.py
index 9877f31..599f5f2 100644
--- a/traceon/mesher.py
+++ b/traceon/mesher.py
@@ -962,6 +962,15 @@ class PointStack:
         depth, i, j = args
         return self.points[self.to_point_index(depth, i, j)]
      
+    def edge_points(self, edge):
+        """Sample the points along one of the edges: u=0, u=path_length1, v=0, v=path_length2."""
+        x = np.linspace(0.0, 1.0, self.get_number_of_indices(self.depth()))
+        
+        if edge < 2:
+            return np.array([self.surf(edge*self.path_length1, v) for v in x*self.path_length2])
+        else:
+            return np.array([self.surf(u, (edge-2)*self.path_length2) for u in x*self.path_length1])
+    
     def normalize_to_depth(self, depth, quads, start_depth):
         N = self.get_number_of_indices(depth)
         
@@ -1062,6 +1071,10 @@ def _copy_over_edge(e1, e2):
     mask = e1 != -1
     e2[mask] = e1[mask]
 
+def _edges_coincide(e1, e2):
+    scale = max(np.max(np.abs(e1)), np.max(np.abs(e2)))
+    return np.allclose(e1, e2, rtol=0.0, atol=1e-9*scale)
+
 def _mesh(surface, mesh_size, start_depth=2, name=None, ensure_outward_normals=True):
     # Create a point stack for each subsection
     points, point_stacks, quads = _mesh_subsections_to_quads(surface, mesh_size, start_depth)
@@ -1084,6 +1097,18 @@ def _mesh(surface, mesh_size, start_depth=2, name=None, ensure_outward_normals=T
         for j in range(Ny-1): # Vertical copying
             _copy_over_edge(point_with_quads[i*Ny + j][:, -1], point_with_quads[i*Ny + j + 1][:, 0])
      
+    # If the surface closes on itself (for example a sphere or torus) the
+    # first and last edges are the same.
+    N = Ny*(Nx-1)
+    
+    if all([_edges_coincide(point_stacks[j].edge_points(0), point_stacks[N + j].edge_points(1)) for j in range(Ny)]):
+        for j in range(Ny):
+            _copy_over_edge(point_with_quads[N + j][-1, :], point_with_quads[j][0, :])
+    
+    if all([_edges_coincide(point_stacks[i*Ny].edge_points(2), point_stacks[i*Ny + Ny-1].edge_points(3)) for i in range(Nx)]):
+        for i in range(Nx):
+            _copy_over_edge(point_with_quads[i*Ny + Ny-1][:, -1], point_with_quads[i*Ny][:, 0])
+     
     points = np.array(points)
     triangles = np.concatenate([pq.to_triangles() for pq in point_with_quads], axis=0)
     
-- 
2.43.0


From 3f17ebdc2d4a7d9d5a04bc4cdc1bee50991af474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:11 +0000
Subject: [PATCH 36/67] fix: mesh surfaces with coinciding or unsorted
 breakpoints

---
 traceon/geometry.py | 28 +++++++++++++++++-----------
 traceon/mesher.py   |  2 +-
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index 1130ffc..92a6d53 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -35,6 +35,17 @@ __pdoc__['Surface.__call__'] = True
 def _points_close(p1, p2, tolerance=1e-8):
     return np.allclose(p1, p2, atol=tolerance)
 
+def _split_at_breakpoints(path_length, breakpoints):
+    # Breakpoints are not necessarily sorted, and can coincide (up to rounding
+    # errors) with each other or with the ends of the path.
+    points = [0.]
+    
+    for b in sorted(breakpoints):
+        if b - points[-1] > 1e-10*path_length and path_length - b > 1e-10*path_length:
+            points.append(b)
+     
+    return points + [path_length]
+
 def discretize_path(path_length, breakpoints, mesh_size, mesh_size_factor=None, N_factor=1):
     assert mesh_size is not None or mesh_size_factor is not None
     
@@ -42,15 +53,7 @@ def discretize_path(path_length, breakpoints, mesh_size, mesh_size_factor=None,
     # in a 'nice' way
     
     # Points that have to be in, in any case
-    points = [0.]
-    
-    # Breakpoints are not necessarily sorted, and can coincide (up to rounding
-    # errors) with each other or with the ends of the path.
-    for b in sorted(breakpoints):
-        if b - points[-1] > 1e-10*path_length and path_length - b > 1e-10*path_length:
-            points.append(b)
-     
-    points.append(path_length)
+    points = _split_at_breakpoints(path_length, breakpoints)
 
     subdivision = []
         
@@ -858,9 +861,12 @@ class Surface(GeometricObject):
         self.breakpoints2 = breakpoints2
         self.name = name
 
+    def _section_edges(self):
+        return _split_at_breakpoints(self.path_length1, self.breakpoints1), \
+                    _split_at_breakpoints(self.path_length2, self.breakpoints2)
+     
     def _sections(self): 
-        b1 = [0.] + self.breakpoints1 + [self.path_length1]
-        b2 = [0.] + self.breakpoints2 + [self.path_length2]
+        b1, b2 = self._section_edges()
 
         for u0, u1 in zip(b1[:-1], b1[1:]):
             for v0, v1 in zip(b2[:-1], b2[1:]):
diff --git a/traceon/mesher.py b/traceon/mesher.py
index 599f5f2..84b57d8 100644
--- a/traceon/mesher.py
+++ b/traceon/mesher.py
@@ -1086,7 +1086,7 @@ def _mesh(surface, mesh_size, start_depth=2, name=None, ensure_outward_normals=T
     
     # Copy over the edges, the sections are ordered with the index along
     # the second parameter changing fastest
-    Nx, Ny = len(surface.breakpoints1)+1, len(surface.breakpoints2)+1
+    Nx, Ny = [len(b)-1 for b in surface._section_edges()]
     assert len(point_with_quads) == Nx*Ny
 
     for i in range(Nx-1):
-- 
2.43.0


From 0cecdeb6c7c6a12435bf9efc82970a8691a4e5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:35 +0000
Subject: [PATCH 37/67] fix: recognize degenerate triangles independent of the
 units of the mesh

---
 traceon/mesher.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/traceon/mesher.py b/traceon/mesher.py
index 84b57d8..9c8ea98 100644
--- a/traceon/mesher.py
+++ b/traceon/mesher.py
@@ -210,8 +210,14 @@ class Mesh(Saveable, GeometricObject):
         return Mesh(new_points, self.lines, self.triangles, self.physical_to_lines, self.physical_to_triangles)
     
     def _remove_degenerate_triangles(self):
-        areas = triangle_areas(self.points[self.triangles[:,:3]])
-        degenerate = areas < 1e-12
+        vertices = self.points[self.triangles[:,:3]]
+        areas = triangle_areas(vertices)
+        
+        # A triangle is degenerate if its height is not larger than the rounding errors in the
+        # coordinates of its vertices, whatever the units or the size of the mesh.
+        longest = np.sqrt(np.max(np.sum((vertices - np.roll(vertices, 1, axis=1))**2, axis=2), axis=1))
+        scale = np.max(np.abs(vertices), axis=(1, 2)) + longest
+        degenerate = areas <= 1e-14*longest*scale
         map_index = np.arange(len(self.triangles)) - np.cumsum(degenerate)
          
         self.triangles = self.triangles[~degenerate]
-- 
2.43.0


From 2040ed9b36354cbd2b53e347b93e0c6ab901f405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:36 +0000
Subject: [PATCH 38/67] fix: Mesh.flip_normals flips the normals of named
 groups

---
 traceon/mesher.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/traceon/mesher.py b/traceon/mesher.py
index 9c8ea98..fd0a107 100644
--- a/traceon/mesher.py
+++ b/traceon/mesher.py
@@ -485,7 +485,8 @@ class Mesh(Saveable, GeometricObject):
         
         return Mesh(self.points, lines, triangles,
             physical_to_lines=self.physical_to_lines,
-            physical_to_triangles=self.physical_to_triangles)
+            physical_to_triangles=self.physical_to_triangles,
+            ensure_outward_normals=False)
      
     def remove_lines(self):
         """Remove all the lines from the mesh.
-- 
2.43.0


From f5542022ab81c8d375aa5d46b9d3f6f8b3328cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:36 +0000
Subject: [PATCH 39/67] fix: Mesh.extract_physical_group keeps both the lines
 and triangles of a group

---
 traceon/mesher.py | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/traceon/mesher.py b/traceon/mesher.py
index fd0a107..2b6e29c 100644
--- a/traceon/mesher.py
+++ b/traceon/mesher.py
@@ -325,28 +325,25 @@ class Mesh(Saveable, GeometricObject):
         Subset of the mesh consisting only of the elements with the given name."""
         assert name in self.physical_to_lines or name in self.physical_to_triangles, "Physical group not in mesh, so cannot extract"
 
-        if name in self.physical_to_lines:
-            elements = self.lines
-            physical = self.physical_to_lines
-        elif name in self.physical_to_triangles:
-            elements = self.triangles
-            physical = self.physical_to_triangles
-         
-        elements_indices = np.unique(physical[name])
-        elements = elements[elements_indices]
+        # Both lines and triangles can belong to the group
+        line_indices = np.unique(self.physical_to_lines.get(name, np.empty(0, dtype=np.int64)))
+        triangle_indices = np.unique(self.physical_to_triangles.get(name, np.empty(0, dtype=np.int64)))
+        
+        lines = self.lines[line_indices]
+        triangles = self.triangles[triangle_indices]
           
         points_mask = np.full(len(self.points), False)
-        points_mask[elements] = True
+        points_mask[lines] = True
+        points_mask[triangles] = True
         points = self.points[points_mask]
           
         new_index = np.cumsum(points_mask) - 1
-        elements = new_index[elements]
-        physical_to_elements = {name:np.arange(len(elements))}
-         
-        if name in self.physical_to_lines:
-            return Mesh(points=points, lines=elements, physical_to_lines=physical_to_elements)
-        elif name in self.physical_to_triangles:
-            return Mesh(points=points, triangles=elements, physical_to_triangles=physical_to_elements)
+        lines = new_index[lines]
+        triangles = new_index[triangles]
+        
+        return Mesh(points=points, lines=lines, triangles=triangles,
+            physical_to_lines={name:np.arange(len(lines))} if name in self.physical_to_lines else {},
+            physical_to_triangles={name:np.arange(len(triangles))} if name in self.physical_to_triangles else {})
      
     @staticmethod
     def read_file(filename,  name=None):
-- 
2.43.0


From 07e76490c8467d503fca210a09f5834f5ba92d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:01 +0000
Subject: [PATCH 40/67] fix: orient the normals of named groups of six node
 triangles

---
 traceon/mesher.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/traceon/mesher.py b/traceon/mesher.py
index 2b6e29c..5a311e1 100644
--- a/traceon/mesher.py
+++ b/traceon/mesher.py
@@ -684,7 +684,7 @@ def _get_connected_elements(elements):
 
 def _are_triangle_normals_pointing_outwards(triangles, points):
     # Based on https://math.stackexchange.com/questions/689418/how-to-compute-surface-normal-pointing-out-of-the-object
-    triangle_points = points[triangles]
+    triangle_points = points[triangles[:, :3]]
     
     v0 = triangle_points[:, 0]
     v1 = triangle_points[:, 1]
@@ -711,11 +711,20 @@ def _are_line_normals_pointing_outwards(lines, points):
 ## Code related to ensuring normals over a connected surface/path agree in orientation.
 ## These functios allow us to flip all normals 'inward' or all 'outward'
 
+def _flip_triangle(triangle):
+    # Flip the normal of a triangle with either 3 or 6 nodes
+    if len(triangle) == 6:
+        v0, v1, v2, v3, v4, v5 = triangle
+        return [v0, v2, v1, v5, v4, v3]
+    else:
+        v0, v1, v2 = triangle
+        return [v0, v2, v1]
+
 def _reorient_triangles(triangles, points):
     if not len(triangles):
         return
      
-    vertex_to_triangles = _compute_vertex_to_indices(triangles)
+    vertex_to_triangles = _compute_vertex_to_indices(triangles[:, :3])
         
     oriented = np.full(len(triangles), False)
     active = [0]
@@ -723,25 +732,27 @@ def _reorient_triangles(triangles, points):
     assert triangles.dtype == np.uint64
     assert points.dtype == np.float64
      
-    triangles_ctypes = triangles.ctypes.data_as(C.c_void_p)
+    # The backend only considers the vertices of the triangles
+    vertices = np.array(triangles[:, :3], order='C')
+    vertices_ctypes = vertices.ctypes.data_as(C.c_void_p)
     points_ctypes = points.ctypes.data_as(C.c_void_p)
     
     while active:
         ti = active.pop()
 
-        for n in _get_element_neighbours(triangles[ti], vertex_to_triangles):
+        for n in _get_element_neighbours(vertices[ti], vertex_to_triangles):
             assert 0 <= n < len(triangles)
             
             if oriented[n]:
                 continue
 
-            equal_orientation = B.backend_lib.triangle_orientation_is_equal(ti, n, triangles_ctypes, points_ctypes)
+            equal_orientation = B.backend_lib.triangle_orientation_is_equal(ti, n, vertices_ctypes, points_ctypes)
             
             if equal_orientation == -1: # Vertex neighbours, but not edge neighbours
                 continue
             elif equal_orientation == 0: # Not equal orientation
-                v0, v1, v2 = triangles[n]
-                triangles[n] = [v0, v2, v1] # Flip normal
+                triangles[n] = _flip_triangle(triangles[n]) # Flip normal
+                vertices[n] = triangles[n, :3]
              
             oriented[n] = True
             active.append(n)
@@ -755,8 +766,7 @@ def _ensure_triangle_orientation(triangles, points, should_be_outwards):
     
     if outwards != should_be_outwards:
         for i in range(len(triangles)):
-            v0, v1, v2 = triangles[i]
-            triangles[i] = [v0, v2, v1]
+            triangles[i] = _flip_triangle(triangles[i])
 
 def _line_orientation_equal(index1, index2, lines):
     # Note that the orientation is equal if the lines do not
-- 
2.43.0


From b0aaa3a1bbcd775fa1f903e69aa31c641504fbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:06 +0000
Subject: [PATCH 41/67] fix: orient the normals of bodies whose parts touch or
 do not fit together

---
 traceon/mesher.py | 121 +++++++++++++++++++++++++++++++++++-----------
 1 file changed, 93 insertions(+), 28 deletions(-)

diff --git a/traceon/mesher.py b/traceon/mesher.py
index 5a311e1..9af94ab 100644
--- a/traceon/mesher.py
+++ b/traceon/mesher.py
@@ -720,14 +720,23 @@ def _flip_triangle(triangle):
         v0, v1, v2 = triangle
         return [v0, v2, v1]
 
+def _count_triangles_at_edges(triangles):
+    counts: Dict[tuple, int] = {}
+    
+    for v0, v1, v2 in triangles:
+        for edge in ((v0, v1), (v1, v2), (v2, v0)):
+            edge = (min(edge), max(edge))
+            counts[edge] = counts.get(edge, 0) + 1
+    
+    return counts
+
 def _reorient_triangles(triangles, points):
-    if not len(triangles):
-        return
-     
+    # Make the orientation of triangles that share an edge agree. Returns the parts of the surface (arrays of
+    # indices) for which the orientations now agree. There is more than one part if parts of the surface only
+    # touch at a vertex, or meet at an edge where the triangles do not fit together.
     vertex_to_triangles = _compute_vertex_to_indices(triangles[:, :3])
         
     oriented = np.full(len(triangles), False)
-    active = [0]
 
     assert triangles.dtype == np.uint64
     assert points.dtype == np.float64
@@ -737,36 +746,92 @@ def _reorient_triangles(triangles, points):
     vertices_ctypes = vertices.ctypes.data_as(C.c_void_p)
     points_ctypes = points.ctypes.data_as(C.c_void_p)
     
-    while active:
-        ti = active.pop()
+    # If more than two triangles share an edge we do not know which of them belong together
+    triangles_at_edge = _count_triangles_at_edges(vertices)
+    
+    parts = []
+    
+    for start in range(len(triangles)):
+        if oriented[start]:
+            continue
+        
+        oriented[start] = True
+        active = [start]
+        part = [start]
+        
+        while active:
+            ti = active.pop()
 
-        for n in _get_element_neighbours(vertices[ti], vertex_to_triangles):
-            assert 0 <= n < len(triangles)
-            
-            if oriented[n]:
-                continue
+            for n in _get_element_neighbours(vertices[ti], vertex_to_triangles):
+                assert 0 <= n < len(triangles)
+                
+                if oriented[n]:
+                    continue
+                
+                if triangles_at_edge.get(tuple(sorted(set(vertices[ti]) & set(vertices[n]))), 0) > 2:
+                    continue
 
-            equal_orientation = B.backend_lib.triangle_orientation_is_equal(ti, n, vertices_ctypes, points_ctypes)
-            
-            if equal_orientation == -1: # Vertex neighbours, but not edge neighbours
-                continue
-            elif equal_orientation == 0: # Not equal orientation
-                triangles[n] = _flip_triangle(triangles[n]) # Flip normal
-                vertices[n] = triangles[n, :3]
-             
-            oriented[n] = True
-            active.append(n)
+                equal_orientation = B.backend_lib.triangle_orientation_is_equal(ti, n, vertices_ctypes, points_ctypes)
+                
+                if equal_orientation == -1: # Vertex neighbours, but not edge neighbours
+                    continue
+                elif equal_orientation == 0: # Not equal orientation
+                    triangles[n] = _flip_triangle(triangles[n]) # Flip normal
+                    vertices[n] = triangles[n, :3]
+                 
+                oriented[n] = True
+                active.append(n)
+                part.append(n)
+        
+        parts.append(np.array(part))
+    
+    return parts
+
+def _is_triangle_normal_pointing_outwards(index, triangles, points):
+    # Follow rays from the side of the triangle to which the normal points, and count how many times
+    # they cross the surface. Use multiple rays, since a ray can precisely hit an edge.
+    p0, p1, p2 = [points[triangles[:, i]] for i in range(3)]
+    normals = np.cross(p1-p0, p2-p0)
+    
+    normal = normals[index] / np.linalg.norm(normals[index])
+    along = (p1[index] - p0[index]) / np.linalg.norm(p1[index] - p0[index])
+    origin = (p0[index] + p1[index] + p2[index])/3
+    
+    votes = 0
+    
+    for angle in np.linspace(1.0, 1.0 + 2*np.pi, 9, endpoint=False):
+        direction = normal + 0.6*(np.cos(angle)*along + np.sin(angle)*np.cross(normal, along))
+        
+        # Möller–Trumbore intersection algorithm
+        h = np.cross(direction, p2-p0)
+        with np.errstate(divide='ignore', invalid='ignore'):
+            f = 1/np.sum((p1-p0)*h, axis=1)
+            u = f*np.sum((origin-p0)*h, axis=1)
+            q = np.cross(origin-p0, p1-p0)
+            v = f*(q @ direction)
+            t = f*np.sum((p2-p0)*q, axis=1)
+            crossed = (u >= 0) & (v >= 0) & (u + v <= 1) & (t > 0)
+        
+        crossed[index] = False
+        votes += 1 if np.sum(crossed) % 2 == 0 else -1
+     
+    return votes > 0
 
 def _ensure_triangle_orientation(triangles, points, should_be_outwards):
     # Ensure the triangles forming a closed surface have their
     # normals either outwards (should_be_outwards is True) or inwards (should_be_outwards is False)
-    _reorient_triangles(triangles, points)
-    
-    outwards = _are_triangle_normals_pointing_outwards(triangles, points)
-    
-    if outwards != should_be_outwards:
-        for i in range(len(triangles)):
-            triangles[i] = _flip_triangle(triangles[i])
+    parts = _reorient_triangles(triangles, points)
+    areas = triangle_areas(points[triangles[:, :3]])
+     
+    for part in parts:
+        if len(parts) == 1:
+            outwards = _are_triangle_normals_pointing_outwards(triangles, points)
+        else:
+            outwards = _is_triangle_normal_pointing_outwards(part[np.argmax(areas[part])], triangles, points)
+        
+        if outwards != should_be_outwards:
+            for i in part:
+                triangles[i] = _flip_triangle(triangles[i])
 
 def _line_orientation_equal(index1, index2, lines):
     # Note that the orientation is equal if the lines do not
-- 
2.43.0


From 38eafb7629a4401f203f37948f4914fd1b39021e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:42 +0000
Subject: [PATCH 42/67] fix: orient the normals of contours that touch each
 other

---
 traceon/mesher.py | 98 +++++++++++++++++++++++++++--------------------
 1 file changed, 57 insertions(+), 41 deletions(-)

diff --git a/traceon/mesher.py b/traceon/mesher.py
index 9af94ab..e911555 100644
--- a/traceon/mesher.py
+++ b/traceon/mesher.py
@@ -723,9 +723,9 @@ def _flip_triangle(triangle):
 def _count_triangles_at_edges(triangles):
     counts: Dict[tuple, int] = {}
     
-    for v0, v1, v2 in triangles:
+    for v0, v1, v2 in np.unique(np.sort(triangles, axis=1), axis=0):
         for edge in ((v0, v1), (v1, v2), (v2, v0)):
-            edge = (min(edge), max(edge))
+            edge = tuple(sorted(edge))
             counts[edge] = counts.get(edge, 0) + 1
     
     return counts
@@ -851,55 +851,71 @@ def _reorient_lines(lines, points):
     
     # Reorient the normals of lines in the same direction, at this point
     # in the algorithm we don't know if we are orienting them outwards or inwards,
-    # the important thing is that they all agree (all outwards or all inwards)
+    # the important thing is that they all agree (all outwards or all inwards).
+    # Returns the parts (arrays of indices) for which the orientations now agree.
     
     # Only consider first two points, in the case of higher order lines
     vertex_to_indices = _compute_vertex_to_indices(lines[:, :2])
+    lines_at_vertex = {v: len(set([tuple(sorted(lines[i, :2])) for i in indices])) for v, indices in vertex_to_indices.items()}
         
     oriented = np.full(len(lines), False)
-    active = [0]
+    parts = []
     
-    while active:
-        ti = active.pop()
-
-        for n in _get_element_neighbours(lines[ti], vertex_to_indices):
-            if oriented[n]:
-                continue
-             
-            if not _line_orientation_equal(ti, n, lines):
-                # Orientation of neighbour differs, flip it
-                neighbour = lines[n]
+    for start in range(len(lines)):
+        if oriented[start]:
+            continue
+        
+        oriented[start] = True
+        active = [start]
+        part = [start]
+        
+        while active:
+            ti = active.pop()
+            
+            # If more than two lines share a vertex we do not know which of them belong together
+            vertices = [v for v in lines[ti, :2] if lines_at_vertex[v] <= 2]
+            
+            for n in _get_element_neighbours(vertices, vertex_to_indices):
+                
+                if oriented[n]:
+                    continue
+                
+                if not _line_orientation_equal(ti, n, lines):
+                    # Flip orientation of this line element
+                    neighbour = lines[n]
+                    if neighbour.shape[0] == 4:
+                        p0, p1, p2, p3 = neighbour
+                        lines[n] = [p1, p0, p3, p2]
+                    else:
+                        p0, p1 = neighbour
+                        lines[n] = [p1, p0]
                  
-                if neighbour.shape[0] == 4:
-                    p0, p1, p2, p3 = neighbour
-                    lines[n] = [p1, p0, p3, p2]
-                else:
-                    p0, p1 = neighbour
-                    lines[n] = [p1, p0]
-             
-            oriented[n] = True
-            active.append(n)
+                oriented[n] = True
+                active.append(n)
+                part.append(n)
+        
+        parts.append(np.array(part))
+    
+    return parts
 
 def _ensure_line_orientation(lines, points, should_be_outwards):
-    # Ensure the triangles forming a closed surface have their
-    # normals either outwards (should_be_outwards is True) or inwards (should_be_outwards is False)
-    _reorient_lines(lines, points)
+    # Ensure the normals of the line elements are pointing outwards (if should_be_outwards is True)
+    # or inwards (if should_be_outwards is False).
+    parts = _reorient_lines(lines, points)
     
-    outwards = _are_line_normals_pointing_outwards(lines, points)
-    
-    if outwards != should_be_outwards:
-        for i in range(len(lines)):
-            line = lines[i]
-            if line.shape[0] == 4:
-                p0, p1, p2, p3 = line
-                lines[i] = [p1, p0, p3, p2]
-            else:
-                p0, p1 = line
-                lines[i] = [p1, p0]
-
-
-
-
+    for part in parts:
+        outwards = _are_line_normals_pointing_outwards(lines[part], points)
+        
+        if outwards != should_be_outwards:
+            for i in part:
+                line = lines[i]
+                
+                if line.shape[0] == 4:
+                    p0, p1, p2, p3 = line
+                    lines[i] = [p1, p0, p3, p2]
+                else:
+                    p0, p1 = line
+                    lines[i] = [p1, p0]
 
 class PointsWithQuads:
     def __init__(self, indices, quads):
-- 
2.43.0


From a0da0309eb2239c96f48bb3271e404599c02ca02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:17 +0000
Subject: [PATCH 43/67] fix: write meshes in formats that do not support
 unsigned indices

---
 traceon/mesher.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/traceon/mesher.py b/traceon/mesher.py
index e911555..ac3669f 100644
--- a/traceon/mesher.py
+++ b/traceon/mesher.py
@@ -393,11 +393,11 @@ class Mesh(Saveable, GeometricObject):
         
         if len(self.lines):
             line_type = 'line' if self.lines.shape[1] == 2 else 'line4'
-            to_write.append( (line_type, self.lines) )
+            to_write.append( (line_type, self.lines.astype(np.int64)) )
         
         if len(self.triangles):
             triangle_type = 'triangle' if self.triangles.shape[1] == 3 else 'triangle6'
-            to_write.append( (triangle_type, self.triangles) )
+            to_write.append( (triangle_type, self.triangles.astype(np.int64)) )
         
         return meshio.Mesh(self.points, to_write)
      
-- 
2.43.0


From a7a3346871d6faa3f9f1c9981b20b591c1cd655c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:17 +0000
Subject: [PATCH 44/67] fix: Mesh.read reads the file written by Mesh.write

---
 traceon/mesher.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/traceon/mesher.py b/traceon/mesher.py
index ac3669f..8c69f58 100644
--- a/traceon/mesher.py
+++ b/traceon/mesher.py
@@ -380,8 +380,13 @@ class Mesh(Saveable, GeometricObject):
         meshio_obj.write(filename)
     
     def write(self, filename):
+        """Same as `Mesh.write_file`."""
         self.write_file(filename)
-        
+    
+    @staticmethod
+    def read(filename):
+        """Same as `Mesh.read_file`. Reads a mesh that was written using `Mesh.write`."""
+        return Mesh.read_file(filename)
      
     def to_meshio(self):
         """Convert the Mesh to a meshio object.
-- 
2.43.0


From f48e16debcc28975541dd0416a9af34f2e094568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:17 +0000
Subject: [PATCH 45/67] fix: raise an error instead of losing elements of a
 mesh with mixed element orders

---
 traceon/mesher.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/traceon/mesher.py b/traceon/mesher.py
index 8c69f58..d4320fe 100644
--- a/traceon/mesher.py
+++ b/traceon/mesher.py
@@ -423,6 +423,10 @@ class Mesh(Saveable, GeometricObject):
             physical = {k:v[type_] for k,v in mesh.cell_sets_dict.items() if type_ in v}
             return elements, physical
         
+        for low, high in [('line', 'line4'), ('triangle', 'triangle6')]:
+            if low in mesh.cells_dict and high in mesh.cells_dict:
+                raise ValueError(f'Mesh contains both \'{low}\' and \'{high}\' elements, which is not supported')
+        
         lines, physical_lines = [], {}
         triangles, physical_triangles = [], {}
         
-- 
2.43.0


From e3fc6de36fda25caf3277dc734976e5891e651b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:53 +0000
Subject: [PATCH 46/67] fix: ellipk for negative arguments

---
 traceon/backend/elliptic.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/traceon/backend/elliptic.c b/traceon/backend/elliptic.c
index 5bb20d7..0c21d26 100644
--- a/traceon/backend/elliptic.c
+++ b/traceon/backend/elliptic.c
@@ -35,9 +35,9 @@ EXPORT double ellipkm1(double p) {
 }
 
 EXPORT double ellipk(double k) {
-	if(k > -1) return ellipkm1(1-k);
+	if(0 <= k && k <= 1) return ellipkm1(1-k);
 	
-	return ellipkm1(1./(1-k))/sqrt(k);
+	return ellipkm1(1./(1-k))/sqrt(1-k);
 }
 
 EXPORT double ellipem1(double p) {
-- 
2.43.0


From 3b00ef370a55cbb72da2afdd8f4de19d643e13d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:34 +0000
Subject: [PATCH 47/67] fix: closed form of the potential and flux of a
 triangle

The adaptive integration had absolute tolerances, such that the result
was wrong for small geometries, and it missed narrow peaks close to the
triangle and its edges.
---
 traceon/backend/triangle.c | 96 +++++++++++++++++---------------------
 1 file changed, 43 insertions(+), 53 deletions(-)

diff --git a/traceon/backend/triangle.c b/traceon/backend/triangle.c
index f24dfd3..66d333e 100644
--- a/traceon/backend/triangle.c
+++ b/traceon/backend/triangle.c
@@ -27,24 +27,45 @@ struct _normalized_triangle {
 	double b;
 	double c;
 	double z;
-	
-	double *normal;
 };
 
-double _potential_integrand(double y, void *args_p) {
-	struct _normalized_triangle args = *(struct _normalized_triangle*)args_p;
-	double xmin = args.x0 + y/args.c*args.b;
-	double xmax = args.x0 + args.a + y/args.c*(args.b-args.a);
+// The potential of a uniformly charged triangle is \sum_i s_i F_i - z*solid angle, and the flux in the plane of
+// the triangle is \sum_i m_i F_i where the sum is over the edges of the triangle, m_i is the unit vector
+// in the plane of the triangle that is perpendicular to the edge (pointing away from the triangle), s_i is the 
+// distance along m_i from the origin to the edge and F_i is the integral of 1/r over the edge.
+void _sum_over_edges(struct _normalized_triangle tri, double *sF, double mF[2]) {
+	double vertices[3][2] = { {tri.x0, tri.y0}, {tri.x0 + tri.a, tri.y0}, {tri.x0 + tri.b, tri.y0 + tri.c} };
+
+	*sF = mF[0] = mF[1] = 0.;
+
+	for(int i = 0; i < 3; i++) {
+		double *p = vertices[i], *q = vertices[(i+1) % 3];
+		double length = norm_2d(q[0] - p[0], q[1] - p[1]);
+		double tx = (q[0] - p[0])/length, ty = (q[1] - p[1])/length;
+		double s = p[0]*ty - p[1]*tx;
+		double distance = fmax(sqrt(s*s + tri.z*tri.z), 1e-100); // Prevent division by zero
 		
-	double denom = sqrt((y+args.y0)*(y+args.y0) + args.z*args.z);
+		double F = asinh((q[0]*tx + q[1]*ty)/distance) - asinh((p[0]*tx + p[1]*ty)/distance);
 
-	if(denom < 1e-12) {
-		// The asinh(xmax/denom) - asinh(xmin/denom) is numerical 
-		// unstable when denom is small. Taking the taylor expansion
-		// of denom -> 0 we find
-		return log(fabs(xmax)) - log(fabs(xmin));
+		*sF += s*F;
+		mF[0] += ty*F;
+		mF[1] -= tx*F;
 	}
-    return asinh(xmax/denom) - asinh(xmin/denom);
+}
+
+// A. Van Oosterom and J. Strackee. The Solid Angle of a Plane Triangle. 1983.
+double _solid_angle(struct _normalized_triangle tri) {
+	if(tri.z == 0.) return 0.;
+
+	double r0[3] = {tri.x0, tri.y0, -tri.z};
+	double r1[3] = {tri.x0 + tri.a, tri.y0, -tri.z};
+	double r2[3] = {tri.x0 + tri.b, tri.y0 + tri.c, -tri.z};
+	
+	double l0 = norm_3d(r0[0], r0[1], r0[2]);
+	double l1 = norm_3d(r1[0], r1[1], r1[2]);
+	double l2 = norm_3d(r2[0], r2[1], r2[2]);
+		
+	return 2*atan2(tri.z*tri.a*tri.c, l0*l1*l2 + dot_3d(r0, r1)*l2 + dot_3d(r0, r2)*l1 + dot_3d(r1, r2)*l0);
 }
 
 EXPORT double
@@ -73,7 +94,10 @@ potential_triangle(double v0[3], double v1[3], double v2[3], double target[3]) {
 	
 	struct _normalized_triangle tri = {x0, y0, a,b,c,z};
 
-	return kronrod_adaptive(_potential_integrand, 0, c, (void*) &tri, 1e-9, 1e-9);
+	double sF, mF[2];
+	_sum_over_edges(tri, &sF, mF);
+
+	return sF - z*_solid_angle(tri);
 }
 
 EXPORT double self_potential_triangle_v0(double v0[3], double v1[3], double v2[3]) {
@@ -110,43 +134,6 @@ EXPORT double self_potential_triangle(double v0[3], double v1[3], double v2[3],
 		self_potential_triangle_v0(target, v2, v0);
 }
 
-double _flux_integrand(double y, void *args_p) {
-	struct _normalized_triangle args = *(struct _normalized_triangle*)args_p;
-	
-	double x0 = args.x0;
-	double y0 = args.y0;
-	double z = args.z;
-	
-	double xmin = x0 + y/args.c*args.b;
-	double xmax = x0 + args.a + y/args.c*(args.b-args.a);
-	
-	double z2 = z*z;
-	double xmin2 = xmin*xmin;
-	double yy02 = (y+y0)*(y+y0);
-	double xmax2 = xmax*xmax;
-	double r2 = z2 + yy02;
-
-	double flux[3];
-
-	flux[0] = 1 / sqrt(r2 + xmax2) - 1 / sqrt(r2 + xmin2);
-
-	// Singularity when r2 is small...
-	if (fabs(r2) < 1e-9) {
-		flux[1] = ((xmin2 - xmax2) * y0 + (xmin2 - xmax2) * y) / (2.0 * xmax2 * xmin2);
-		flux[2] = -((xmin2 - xmax2) * z) / (2.0 * xmax2 * xmin2);
-	} else {
-		double denom_max = r2 * sqrt(r2 + xmax2);
-		double denom_min = r2 * sqrt(r2 + xmin2);
-
-		flux[1] = -((xmax * (y + y0)) / denom_max) + (xmin * (y + y0)) / denom_min;
-		flux[2] = (xmax * z) / denom_max - (xmin * z) / denom_min;
-	}
-	
-	return dot_3d(args.normal, flux);
-}
-
-
-
 EXPORT double
 flux_triangle(double v0[3], double v1[3], double v2[3], double target[3], double normal[3]) {
 	double vec1[3] = {v1[0]-v0[0], v1[1]-v0[1], v1[2]-v0[2]};
@@ -176,9 +163,12 @@ flux_triangle(double v0[3], double v1[3], double v2[3], double target[3], double
 							dot_3d(y_normal, normal),
 							dot_3d(z_normal, normal)};
 		
-	struct _normalized_triangle tri = {x0, y0, a, b, c, z, new_normal};
+	struct _normalized_triangle tri = {x0, y0, a, b, c, z};
+	
+	double sF, mF[2];
+	_sum_over_edges(tri, &sF, mF);
 	
-	return kronrod_adaptive(_flux_integrand, 0, c, (void*) &tri, 1e-9, 1e-9);
+	return new_normal[0]*mF[0] + new_normal[1]*mF[1] + new_normal[2]*_solid_angle(tri);
 }
 
 
-- 
2.43.0


From 29703b116afc6e4c9316b04e967afcb239bde670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:31 +0000
Subject: [PATCH 48/67] fix: dimension of the problem is given by the symmetry
 of the excitation, also if all points are in a plane

---
 traceon/solver.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/traceon/solver.py b/traceon/solver.py
index b90f636..93e2bee 100644
--- a/traceon/solver.py
+++ b/traceon/solver.py
@@ -116,10 +116,10 @@ class Solver(ABC):
         return self.excitation.mesh.is_higher_order()
         
     def is_3d(self):
-        return self.excitation.mesh.is_3d()
+        return self.excitation.symmetry.is_3d()
     
     def is_2d(self):
-        return self.excitation.mesh.is_2d()
+        return self.excitation.symmetry.is_2d()
 
     @abstractmethod
     def get_flux_indices(self):
@@ -412,7 +412,7 @@ def solve_direct_superposition(excitation):
         involved in using `superposition=True` since a direct solver is used which easily allows for multiple right hand sides (the
         matrix does not have to be inverted multiple times). However, voltage functions are invalid in the superposition process (position dependent voltages).
     """
-    if excitation.mesh.is_2d() and not excitation.mesh.is_higher_order():
+    if excitation.symmetry.is_2d() and not excitation.mesh.is_higher_order():
         excitation = _excitation_to_higher_order(excitation)
     
     # Speedup: invert matrix only once, when using superposition
@@ -458,7 +458,7 @@ def solve_direct(excitation):
     A `FieldRadialBEM` if the geometry (contained in the given `excitation`) is radially symmetric. If the geometry is a three
     dimensional geometry `Field3D_BEM` is returned. 
     """
-    if excitation.mesh.is_2d() and not excitation.mesh.is_higher_order():
+    if excitation.symmetry.is_2d() and not excitation.mesh.is_higher_order():
         excitation = _excitation_to_higher_order(excitation)
     
     mag, elec = excitation.is_magnetostatic(), excitation.is_electrostatic()
-- 
2.43.0


From b5cfd0bc0e6eb5d6f3f8bdfd57f247c099ffdb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:21 +0000
Subject: [PATCH 49/67] fix: adding a magnetostatic boundary printed regardless
 of the log level

---
 traceon/excitation.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/traceon/excitation.py b/traceon/excitation.py
index 7caaf4e..37bdd69 100644
--- a/traceon/excitation.py
+++ b/traceon/excitation.py
@@ -224,7 +224,6 @@ class Excitation:
         """
         if ensure_inward_normals:
             for electrode in args:
-                print('flipping normals', electrode)
                 self.mesh.ensure_inward_normals(electrode)
         
         self.add_magnetizable(**{a:0 for a in args})
-- 
2.43.0


From 0afe066d30802a47cb93a31bcc51570dbb9b6b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:21 +0000
Subject: [PATCH 50/67] fix: focus_position accepts any iterable of
 trajectories

---
 traceon/focus.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/traceon/focus.py b/traceon/focus.py
index c2668cf..765bcc9 100644
--- a/traceon/focus.py
+++ b/traceon/focus.py
@@ -22,6 +22,7 @@ def focus_position(positions):
     --------------
     (3,) np.ndarray of float64, representing the position of the focus
     """
+    positions = list(positions)
     assert all(p.shape == (len(p), 6) for p in positions)
      
     angles_x = np.array([p[-1, 3]/p[-1, 5] for p in positions])
-- 
2.43.0


From 3f534a69c50b4c0dcae68d473bec08157d7eb103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:21 +0000
Subject: [PATCH 51/67] fix: reject directions without length and directions
 and energies that are not finite

---
 traceon/tracing.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/traceon/tracing.py b/traceon/tracing.py
index 4fd46a3..ed7f134 100644
--- a/traceon/tracing.py
+++ b/traceon/tracing.py
@@ -37,13 +37,17 @@ def velocity_vec(eV, direction_):
     """
     assert eV > 0.0, "Please provide a positive energy in eV"
 
-    direction = np.array(direction_)
+    direction = np.array(direction_, dtype=np.float64)
     assert direction.shape == (3,), "Please provide a three dimensional direction vector"
     
+    length = np.max(np.abs(direction))
+    assert np.isfinite(eV) and np.isfinite(length) and length > 0.0, "Please provide a finite energy and a finite, non-zero direction vector"
+    direction = direction/length # Prevents overflow and underflow when computing the norm
+    
     if eV > 40000:
         logging.log_warning(f'Velocity vector with large energy ({eV} eV) requested. Note that relativistic tracing is not yet implemented.')
     
-    return eV * np.array(direction)/np.linalg.norm(direction)
+    return eV * direction/np.linalg.norm(direction)
 
 def velocity_vec_spherical(eV, theta, phi):
     """Compute initial velocity vector given energy and direction computed from spherical coordinates.
-- 
2.43.0


From 383410035ea1bdf80a2953207521478d1c8048ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:58 +0000
Subject: [PATCH 52/67] fix: adding a path collection to a path

---
 traceon/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index 92a6d53..c33caf7 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -705,7 +705,7 @@ class Path(GeometricObject):
             return PathCollection([self, other])
         
         if isinstance(other, PathCollection):
-            return PathCollection([self] + [other.paths])
+            return PathCollection([self] + other.paths)
 
         return NotImplemented
      
-- 
2.43.0


From c9adaf5ff857162afcfc30de701ede997924976e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:58 +0000
Subject: [PATCH 53/67] fix: the result of += on a collection was None

---
 traceon/geometry.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index c33caf7..ad54d93 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -833,6 +833,8 @@ class PathCollection(GeometricObject):
             self.paths.append(other)
         else:
             self.paths.extend(other.paths)
+        
+        return self
        
     def revolve_x(self, angle=2*pi):
         return self._map_to_surfaces(Path.revolve_x, angle=angle)
@@ -1402,6 +1404,8 @@ class SurfaceCollection(GeometricObject):
             self.surfaces.append(other)
         else:
             self.surfaces.extend(other.surfaces)
+        
+        return self
 
     def __str__(self):
         return f"<SurfaceCollection with {len(self.surfaces)} surfaces, name: {self.name}>"
-- 
2.43.0


From d442ab9db0524b517679cd6d78af7ffbdb834c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:58 +0000
Subject: [PATCH 54/67] fix: += on a collection changed the list from which the
 collection was made

---
 traceon/geometry.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index ad54d93..3d389db 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -775,8 +775,9 @@ class PathCollection(GeometricObject):
     Note that `PathCollection` is a subclass of `traceon.mesher.GeometricObject`, and therefore can be easily moved and rotated."""
     
     def __init__(self, paths):
-        assert all([isinstance(p, Path) for p in paths])
-        self.paths = paths
+        # Take a copy, since members are added to this list by the += operator
+        self.paths = list(paths)
+        assert all([isinstance(p, Path) for p in self.paths])
         self._name = None
     
     @property
@@ -1355,8 +1356,9 @@ class SurfaceCollection(GeometricObject):
     Note that `SurfaceCollection` is a subclass of `traceon.mesher.GeometricObject`, and therefore can be easily moved and rotated."""
      
     def __init__(self, surfaces):
-        assert all([isinstance(s, Surface) for s in surfaces])
-        self.surfaces = surfaces
+        # Take a copy, since members are added to this list by the += operator
+        self.surfaces = list(surfaces)
+        assert all([isinstance(s, Surface) for s in self.surfaces])
         self._name = None
 
     @property
-- 
2.43.0


From 950add1532c3f1447bd4b1f623627c79e439dc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:05 +0000
Subject: [PATCH 55/67] fix: self potential of small radial elements was
 computed with an absolute tolerance

---
 traceon/backend/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/traceon/backend/__init__.py b/traceon/backend/__init__.py
index ae029a8..0850d7f 100644
--- a/traceon/backend/__init__.py
+++ b/traceon/backend/__init__.py
@@ -549,7 +549,8 @@ def self_potential_radial(vertices):
     assert vertices.shape == (4,3) and vertices.dtype == np.double
     user_data = vertices.ctypes.data_as(C.c_void_p)
     low_level = LowLevelCallable(backend_lib.self_potential_radial, user_data=user_data)
-    return quad(low_level, -1, 1, points=(0,), epsabs=1e-9, epsrel=1e-9, limit=250)[0]
+    # The potential scales with the size of the element, an absolute tolerance is therefore meaningless
+    return quad(low_level, -1, 1, points=(0,), epsabs=0., epsrel=1e-9, limit=250)[0]
 
 class SelfFieldDotNormalRadialArgs(C.Structure):
     _fields_ = [("line_points", C.POINTER(C.c_double)), ("K", C.c_double)]
-- 
2.43.0


From 5299c5f2e145674ee9920372c99a8f70ef226686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:46 +0000
Subject: [PATCH 56/67] fix: revolve_y revolved clockwise, opposite to
 rotate(Ry=..)

---
 traceon/geometry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index 3d389db..a2e6364 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -466,7 +466,8 @@ class Path(GeometricObject):
             p = self(u)
             theta = atan2(p[2], p[0])
             r = sqrt(p[0]*p[0] + p[2]*p[2])
-            return np.array([r*cos(theta + v/length2*angle), p[1], r*sin(theta + v/length2*angle)])
+            # Anti-clockwise around the y-axis is from the z-axis to the x-axis
+            return np.array([r*cos(theta - v/length2*angle), p[1], r*sin(theta - v/length2*angle)])
          
         return Surface(f, self.path_length, length2, self.breakpoints, name=self.name)
     
-- 
2.43.0


From 282118f72be01a726d0e0b0920acec5f00f1c62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:46 +0000
Subject: [PATCH 57/67] fix: extrude_boundary_by_path raised an error

---
 traceon/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index a2e6364..5ad127c 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -1230,7 +1230,7 @@ class Surface(GeometricObject):
         SurfaceCollection"""
         
         boundary = self.get_boundary_paths()
-        extruded_boundary = boundary.extrude(path)
+        extruded_boundary = boundary.extrude_by_path(path)
 
         if enclose:
             path_vector = path.endpoint() - path.starting_point()
-- 
2.43.0


From 9ef3dfa7fdbb8cb278b51e3e694c5abee49bc546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:46 +0000
Subject: [PATCH 58/67] fix: a surface created from boundary paths did not have
 curved paths as its boundary

---
 traceon/geometry.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index 5ad127c..ed07895 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -1017,6 +1017,8 @@ class Surface(GeometricObject):
         path_length_p1_and_p3 = (p1.path_length + p3.path_length)/2
         path_length_p2_and_p4 = (p2.path_length + p4.path_length)/2
 
+        c00, c10, c11, c01 = p1.starting_point(), p2.starting_point(), p3.starting_point(), p4.starting_point()
+
         def f(u, v):
             u /= path_length_p1_and_p3
             v /= path_length_p2_and_p4
@@ -1027,10 +1029,13 @@ class Surface(GeometricObject):
             c = v
             d = u
             
-            return 1/2*(a*p1(u*p1.path_length) + \
+            # Coons patch, the bilinear interpolation of the corners is
+            # contained in both interpolations between opposite edges.
+            return a*p1(u*p1.path_length) + \
                         b*p4((1-v)*p4.path_length) + \
                         c*p3((1-u)*p3.path_length) + \
-                        d*p2(v*p2.path_length))
+                        d*p2(v*p2.path_length) - \
+                        (a*b*c00 + a*d*c10 + c*d*c11 + c*b*c01)
         
         # Scale the breakpoints appropriately
         b1 = sorted([b/p1.path_length * path_length_p1_and_p3 for b in p1.breakpoints] + \
-- 
2.43.0


From 6f18da9770a1d341b884a26935b20def91e284ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:46 +0000
Subject: [PATCH 59/67] fix: breakpoints of the third and fourth boundary path
 were at the wrong place

---
 traceon/geometry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index ed07895..4f5508d 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -1037,11 +1037,11 @@ class Surface(GeometricObject):
                         d*p2(v*p2.path_length) - \
                         (a*b*c00 + a*d*c10 + c*d*c11 + c*b*c01)
         
-        # Scale the breakpoints appropriately
+        # Scale the breakpoints appropriately, p3 and p4 are traversed in reverse
         b1 = sorted([b/p1.path_length * path_length_p1_and_p3 for b in p1.breakpoints] + \
-                [b/p3.path_length * path_length_p1_and_p3 for b in p3.breakpoints])
+                [(1 - b/p3.path_length) * path_length_p1_and_p3 for b in p3.breakpoints])
         b2 = sorted([b/p2.path_length * path_length_p2_and_p4 for b in p2.breakpoints] + \
-                [b/p4.path_length * path_length_p2_and_p4 for b in p4.breakpoints])
+                [(1 - b/p4.path_length) * path_length_p2_and_p4 for b in p4.breakpoints])
         
         return Surface(f, path_length_p1_and_p3, path_length_p2_and_p4, b1, b2)
      
-- 
2.43.0


From bd3ff69a251a6363d5966d162c351e322dd5f8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:46 +0000
Subject: [PATCH 60/67] fix: division by zero for a surface spanned by paths
 with the same start and end

---
 traceon/geometry.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index 4f5508d..b3b45c7 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -919,6 +919,9 @@ class Surface(GeometricObject):
         length_start = np.linalg.norm(path1.starting_point() - path2.starting_point())
         length_final = np.linalg.norm(path1.endpoint() - path2.endpoint())
         length2 = (length_start + length_final)/2
+        
+        if length2 < 1e-10*length1: # The paths touch at both ends
+            length2 = np.linalg.norm(path1.middle_point() - path2.middle_point())
          
         def f(u, v):
             p1 = path1(u/length1*path1.path_length) # u/l*p = b, u = l*b/p
-- 
2.43.0


From f311c65b019f3b998b35a7650d415270719808ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:27 +0000
Subject: [PATCH 61/67] fix: an edge of a surface that is a single point was
 seen as its only, closed boundary

---
 traceon/geometry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index b3b45c7..6915e92 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -1188,7 +1188,9 @@ class Surface(GeometricObject):
         b3 = Path(lambda v: self(0., v), self.path_length2, self.breakpoints2, self.name)
         b4 = Path(lambda v: self(self.path_length1, v), self.path_length2, self.breakpoints2, self.name)
         
-        boundary = b1 + b2 + b3 + b4
+        # A single point, for example the center of a disk, is not a boundary
+        boundary = PathCollection([b for b in (b1, b2, b3, b4) if not \
+            all(np.linalg.norm(b(f*b.path_length) - b.starting_point()) <= 1e-8*b.path_length for f in (0.25, 0.5, 0.75, 1.))])
 
         if any([b.is_closed() for b in boundary.paths]):
             boundary = PathCollection([b for b in boundary.paths if b.is_closed()])
-- 
2.43.0


From 07dcc4f38ca4668750b48459d71d1a7407f71ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:27 +0000
Subject: [PATCH 62/67] fix: revolving a boundary over -2*pi added the original
 surface twice

---
 traceon/geometry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index 6915e92..ff62e28 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -1266,7 +1266,7 @@ class Surface(GeometricObject):
         boundary = self.get_boundary_paths()
         revolved_boundary = boundary.revolve_x(angle)
 
-        if enclose and not np.isclose(angle, 2*pi, atol=1e-8):
+        if enclose and not np.isclose(abs(angle), 2*pi, atol=1e-8):
             return self + revolved_boundary + self.rotate(Rx=angle)
         else:
             return self + revolved_boundary
@@ -1289,7 +1289,7 @@ class Surface(GeometricObject):
         boundary = self.get_boundary_paths()
         revolved_boundary = boundary.revolve_y(angle)
 
-        if enclose and not np.isclose(angle, 2*pi, atol=1e-8):
+        if enclose and not np.isclose(abs(angle), 2*pi, atol=1e-8):
             return self + revolved_boundary + self.rotate(Ry=angle)
         else:
             return self + revolved_boundary
@@ -1312,7 +1312,7 @@ class Surface(GeometricObject):
         boundary = self.get_boundary_paths()
         revolved_boundary = boundary.revolve_z(angle)
         
-        if enclose and not np.isclose(angle, 2*pi, atol=1e-8):
+        if enclose and not np.isclose(abs(angle), 2*pi, atol=1e-8):
             return self + revolved_boundary + self.rotate(Rz=angle)
         else:
             return self + revolved_boundary
-- 
2.43.0


From 8f10e8b143f76dab234ca3e47f37305ea20106ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:27 +0000
Subject: [PATCH 63/67] fix: extruding a boundary along a closed path added the
 original surface twice

---
 traceon/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index ff62e28..84bff46 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -1242,7 +1242,7 @@ class Surface(GeometricObject):
         boundary = self.get_boundary_paths()
         extruded_boundary = boundary.extrude_by_path(path)
 
-        if enclose:
+        if enclose and not path.is_closed():
             path_vector = path.endpoint() - path.starting_point()
             return self + extruded_boundary + self.move(*path_vector) 
         else:
-- 
2.43.0


From 074012899411a16cbdb0a473b61a56f39fc702ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:27 +0000
Subject: [PATCH 64/67] fix: paths short compared to their distance from the
 origin were seen as closed

---
 traceon/geometry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index 84bff46..26a871f 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -196,7 +196,8 @@ class Path(GeometricObject):
         Returns
         ----------------------
         bool: True if the path is closed, False otherwise."""
-        return _points_close(self.starting_point(), self.endpoint())
+        # Whether the ends coincide depends on the size of the path, not on its distance from the origin
+        return bool(np.linalg.norm(self.endpoint() - self.starting_point()) <= 1e-6*abs(self.path_length))
     
     def add_phase(self, l):
         """Add a phase to a closed path. A path is closed when the starting point is equal to the
-- 
2.43.0


From 2e9bdf96fd2ba382301ac274f1cf071647b81b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:21 +0000
Subject: [PATCH 65/67] fix: Mesh.map_points with a function working in place
 changed the mesh itself

---
 traceon/mesher.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/traceon/mesher.py b/traceon/mesher.py
index d4320fe..dce7f01 100644
--- a/traceon/mesher.py
+++ b/traceon/mesher.py
@@ -204,7 +204,8 @@ class Mesh(Saveable, GeometricObject):
         """
         new_points = np.empty_like(self.points)
         for i in range(len(self.points)):
-            new_points[i] = fun(self.points[i])
+            # Copy, as the function is free to modify its argument
+            new_points[i] = fun(self.points[i].copy())
         assert new_points.shape == self.points.shape and new_points.dtype == self.points.dtype
         
         return Mesh(new_points, self.lines, self.triangles, self.physical_to_lines, self.physical_to_triangles)
-- 
2.43.0


From c794e91cf9edf634c57f9b05eba6f492aafc4a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:25 +0000
Subject: [PATCH 66/67] fix: tracing read freed memory when the point charges
 of a field were not contiguous in memory

---
 traceon/backend/__init__.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/traceon/backend/__init__.py b/traceon/backend/__init__.py
index 0850d7f..202f048 100644
--- a/traceon/backend/__init__.py
+++ b/traceon/backend/__init__.py
@@ -108,9 +108,9 @@ class EffectivePointCharges2D(C.Structure):
         assert eff.is_2d()
         super(EffectivePointCharges2D, self).__init__(*args, **kwargs)
          
-        self.charges = ensure_contiguous_aligned(eff.charges).ctypes.data_as(dbl_p)
-        self.jacobians = ensure_contiguous_aligned(eff.jacobians).ctypes.data_as(dbl_p)
-        self.positions = ensure_contiguous_aligned(eff.positions).ctypes.data_as(dbl_p)
+        # Possibly copies, which have to stay alive as long as this structure points to them
+        self._arrays = [ensure_contiguous_aligned(a) for a in (eff.charges, eff.jacobians, eff.positions)]
+        self.charges, self.jacobians, self.positions = [a.ctypes.data_as(dbl_p) for a in self._arrays]
         self.N = len(eff)
         
 class EffectivePointCharges3D(C.Structure):
@@ -125,9 +125,9 @@ class EffectivePointCharges3D(C.Structure):
         assert eff.is_3d()
         super(EffectivePointCharges3D, self).__init__(*args, **kwargs)
          
-        self.charges = ensure_contiguous_aligned(eff.charges).ctypes.data_as(dbl_p)
-        self.jacobians = ensure_contiguous_aligned(eff.jacobians).ctypes.data_as(dbl_p)
-        self.positions = ensure_contiguous_aligned(eff.positions).ctypes.data_as(dbl_p)
+        # Possibly copies, which have to stay alive as long as this structure points to them
+        self._arrays = [ensure_contiguous_aligned(a) for a in (eff.charges, eff.jacobians, eff.positions)]
+        self.charges, self.jacobians, self.positions = [a.ctypes.data_as(dbl_p) for a in self._arrays]
         self.N = len(eff)
 
 bounds = arr(shape=(3, 2))
-- 
2.43.0


From 40fbf2314b6d4e351298d065b731f06b5b732b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:52 +0000
Subject: [PATCH 67/67] fix: the elliptic integral E was nan at the end of its
 range

---
 traceon/backend/elliptic.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/traceon/backend/elliptic.c b/traceon/backend/elliptic.c
index 0c21d26..ba502f3 100644
--- a/traceon/backend/elliptic.c
+++ b/traceon/backend/elliptic.c
@@ -59,6 +59,9 @@ EXPORT double ellipem1(double p) {
         6.45682247315060e-3,
         3.78886487349367e-4};
 	
+	// The logarithm is not finite, but multiplied by zero
+	if(p == 0.) return 1.;
+
 	double L = log(1./p);
 	double sum_ = 0.0;
 
-- 
2.43.0

