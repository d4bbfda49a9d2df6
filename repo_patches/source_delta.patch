From 002225408a6e8dfd1dcf235d2a930771d93c19de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:07 +0000
Subject: [PATCH 01/47] fix: keep linearly varying loads intact when a member
 is split at intermediate nodes

The equation of the load was evaluated after its own end values had been
overwritten, so sub-members whose both ends lie inside the load got a wrong
end intensity.
---
 PyNite/PhysMember.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/PyNite/PhysMember.py b/PyNite/PhysMember.py
index 04e3f41..553fd09 100644
--- a/PyNite/PhysMember.py
+++ b/PyNite/PhysMember.py
@@ -108,8 +108,9 @@ class PhysMember(Member3D):
                     w2 = dist_load[2]
                     case = dist_load[5]
 
-                    # Equation describing the load as a function of x
-                    w = lambda x: (w2 - w1)/(x2_load - x1_load)*(x - x1_load) + w1
+                    # Equation describing the load as a function of x. The load's end values are bound
+                    # here because `w1` and `w2` are reassigned below for this sub-member.
+                    w = lambda x, w1=w1, w2=w2: (w2 - w1)/(x2_load - x1_load)*(x - x1_load) + w1
 
                     # Chop up the distributed load for the sub-member
                     if x1_load > xi:
-- 
2.43.0


From 73a81cd2cec6fc275ab6a7045d9ad7e2de5e4e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:34 +0000
Subject: [PATCH 02/47] fix: member result arrays of physical members use the
 sub-members' results

The array methods were inherited from Member3D and worked on the physical
member's own stale segments, which ignore intermediate nodes and are never
reset between analyses.
---
 PyNite/PhysMember.py | 134 ++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 133 insertions(+), 1 deletion(-)

diff --git a/PyNite/PhysMember.py b/PyNite/PhysMember.py
index 553fd09..a4541fb 100644
--- a/PyNite/PhysMember.py
+++ b/PyNite/PhysMember.py
@@ -1,4 +1,4 @@
-from numpy import array, dot, cross
+from numpy import array, dot, cross, linspace, vstack
 from numpy.linalg import norm
 from math import isclose, acos
 
@@ -420,6 +420,138 @@ class PhysMember(Member3D):
         member, x_mod = self.find_member(x)
         return member.rel_deflection(Direction, x_mod, combo_name)
 
+    def shear_array(self, Direction, n_points, combo_name='Combo 1', x_array=None):
+        """
+        Returns the array of the shear in the physical member
+
+        Parameters
+        ----------
+        Direction : string
+            The direction in which to find the shear. Must be one of 'Fy' or 'Fz'.
+        n_points: int
+            The number of points in the array to generate over the full length of the member.
+        combo_name : string
+            The name of the load combination to get the results for (not the load combination itself).
+        x_array : array = None
+            A custom array of x values that may be provided by the user, otherwise an array is generated.
+            Values must be provided in local member coordinates (between 0 and L) and be in ascending order
+        """
+
+        return self._stitch_results(lambda x: self.shear(Direction, x, combo_name), n_points, x_array)
+
+    def moment_array(self, Direction, n_points, combo_name='Combo 1', x_array=None):
+        """
+        Returns the array of the moment in the physical member
+
+        Parameters
+        ----------
+        Direction : string
+            The direction in which to find the moment. Must be one of 'My' or 'Mz'.
+        n_points: int
+            The number of points in the array to generate over the full length of the member.
+        combo_name : string
+            The name of the load combination to get the results for (not the load combination itself).
+        x_array : array = None
+            A custom array of x values that may be provided by the user, otherwise an array is generated.
+            Values must be provided in local member coordinates (between 0 and L) and be in ascending order
+        """
+
+        return self._stitch_results(lambda x: self.moment(Direction, x, combo_name), n_points, x_array)
+
+    def torque_array(self, n_points, combo_name='Combo 1', x_array=None):
+        """
+        Returns the array of the torque in the physical member
+
+        Parameters
+        ----------
+        n_points: int
+            The number of points in the array to generate over the full length of the member.
+        combo_name : string
+            The name of the load combination to get the results for (not the load combination itself).
+        x_array : array = None
+            A custom array of x values that may be provided by the user, otherwise an array is generated.
+            Values must be provided in local member coordinates (between 0 and L) and be in ascending order
+        """
+
+        return self._stitch_results(lambda x: self.torque(x, combo_name), n_points, x_array)
+
+    def axial_array(self, n_points, combo_name='Combo 1', x_array=None):
+        """
+        Returns the array of the axial force in the physical member
+
+        Parameters
+        ----------
+        n_points: int
+            The number of points in the array to generate over the full length of the member.
+        combo_name : string
+            The name of the load combination to get the results for (not the load combination itself).
+        x_array : array = None
+            A custom array of x values that may be provided by the user, otherwise an array is generated.
+            Values must be provided in local member coordinates (between 0 and L) and be in ascending order
+        """
+
+        return self._stitch_results(lambda x: self.axial(x, combo_name), n_points, x_array)
+
+    def deflection_array(self, Direction, n_points, combo_name='Combo 1', x_array=None):
+        """
+        Returns the array of the deflection in the physical member
+
+        Parameters
+        ----------
+        Direction : string
+            The direction in which to find the deflection. Must be one of 'dx', 'dy' or 'dz'.
+        n_points: int
+            The number of points in the array to generate over the full length of the member.
+        combo_name : string
+            The name of the load combination to get the results for (not the load combination itself).
+        x_array : array = None
+            A custom array of x values that may be provided by the user, otherwise an array is generated.
+            Values must be provided in local member coordinates (between 0 and L) and be in ascending order
+        """
+
+        return self._stitch_results(lambda x: self.deflection(Direction, x, combo_name), n_points, x_array)
+
+    def rel_deflection_array(self, Direction, n_points, combo_name='Combo 1', x_array=None):
+        """
+        Returns the array of the relative deflection in the physical member
+
+        Parameters
+        ----------
+        Direction : string
+            The direction in which to find the relative deflection. Must be one of 'dy' or 'dz'.
+        n_points: int
+            The number of points in the array to generate over the full length of the member.
+        combo_name : string
+            The name of the load combination to get the results for (not the load combination itself).
+        x_array : array = None
+            A custom array of x values that may be provided by the user, otherwise an array is generated.
+            Values must be provided in local member coordinates (between 0 and L) and be in ascending order
+        """
+
+        return self._stitch_results(lambda x: self.rel_deflection(Direction, x, combo_name), n_points, x_array)
+
+    def _stitch_results(self, result, n_points, x_array=None):
+        """
+        Returns an array of positions and the results from the sub-members at those positions
+
+        Parameters
+        ----------
+        result : function
+            A function returning the result at a given location along the physical member.
+        n_points : int
+            The number of points in the array to generate if no `x_array` is given.
+        x_array : array = None
+            A custom array of x values.
+        """
+
+        L = self.L()
+        if x_array is None:
+            x_array = linspace(0, L, n_points)
+        elif any(x_array<0) or any(x_array>L):
+            raise ValueError(f"All x values must be in the range 0 to {L}")
+
+        return vstack((x_array, array([result(x) for x in x_array])))
+
     def find_member(self, x):
         """
         Returns the sub-member that the physical member's local point 'x' lies on, and 'x' modified for that sub-member's
-- 
2.43.0


From 95fafb6895531fb7131f9f69028dfddc470168c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:34 +0000
Subject: [PATCH 03/47] fix: relative deflection of a subdivided member is
 measured from its own chord

---
 PyNite/PhysMember.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/PyNite/PhysMember.py b/PyNite/PhysMember.py
index a4541fb..0a1efb3 100644
--- a/PyNite/PhysMember.py
+++ b/PyNite/PhysMember.py
@@ -417,8 +417,21 @@ class PhysMember(Member3D):
             The name of the load combination to get the results for (not the combination itself).
         """
         
-        member, x_mod = self.find_member(x)
-        return member.rel_deflection(Direction, x_mod, combo_name)
+        # Find the displacements of the physical member's ends (rather than the sub-member's ends)
+        if Direction == 'dy':
+            i, j = 1, 7
+        elif Direction == 'dz':
+            i, j = 2, 8
+        else:
+            raise ValueError(f"Direction must be 'dy' or 'dz'. {Direction} was given.")
+
+        if not self.active[combo_name]:
+            return 0
+
+        d = self.d(combo_name)
+        di, dj = d[i, 0], d[j, 0]
+
+        return self.deflection(Direction, x, combo_name) - (di + (dj - di)/self.L()*x)
 
     def shear_array(self, Direction, n_points, combo_name='Combo 1', x_array=None):
         """
-- 
2.43.0


From 3eefdcb12229fe586ad49d29ac3c0da323a09963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:27 +0000
Subject: [PATCH 04/47] fix: reactions of support springs oppose their
 displacement in every load combination

The reaction of two-way and '+' springs had the wrong sign, and the active
flag of a one-way spring leaked from one load combination (and one analysis)
into the others.
---
 PyNite/Analysis.py  | 76 ++++++++++++++++++++++++---------------------
 PyNite/FEModel3D.py |  3 ++
 PyNite/Node3D.py    |  3 ++
 3 files changed, 46 insertions(+), 36 deletions(-)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index e675f8c..4c239dd 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -30,6 +30,9 @@ def _prepare_model(model):
         if mesh.is_generated == False:
             mesh.generate()
 
+    # Activate all support springs
+    _activate_support_springs(model)
+
     # Activate all springs and members for all load combinations
     for spring in model.springs.values():
         for combo_name in model.load_combos.keys():
@@ -43,6 +46,18 @@ def _prepare_model(model):
     # Assign an internal ID to all nodes and elements in the model. This number is different from the name used by the user to identify nodes and elements.
     _renumber(model)
 
+def _activate_support_springs(model):
+    """Activates all support springs in the model. The active status of a support spring is specific to the load combination being solved.
+
+    :param model: The model being analyzed.
+    :type model: FEModel3D
+    """
+
+    for node in model.nodes.values():
+        for spring in (node.spring_DX, node.spring_DY, node.spring_DZ, node.spring_RX, node.spring_RY, node.spring_RZ):
+            if spring[0] is not None:
+                spring[2] = True
+
 def _identify_combos(model, combo_tags=None):
     """Returns a list of load combinations that are to be run based on tags given by the user.
 
@@ -155,6 +170,9 @@ def _PDelta_step(model, combo_name, P1, FER1, D1_indices, D2_indices, D2, log=Tr
     convergence_TC = False  # Tracks tension/compression-only convergence
     divergence_TC = False  # Tracks tension/compression-only divergence
 
+    # Support springs may have been deactivated by a previously solved load combination
+    if first_step: _activate_support_springs(model)
+
     # Iterate until either T/C convergence or divergence occurs. Perform at least 2 iterations for the P-Delta analysis.
     while (convergence_TC == False and divergence_TC == False) or iter_count_PD <= 2:
 
@@ -439,6 +457,9 @@ def _store_displacements(model, D1, D2, D1_indices, D2_indices, combo):
         node.RY[combo.name] = D[node.ID*6 + 4, 0]
         node.RZ[combo.name] = D[node.ID*6 + 5, 0]
 
+        # Remember which support springs were active in the solution for this load combination
+        node._active_springs[combo.name] = [spring[2] == True for spring in (node.spring_DX, node.spring_DY, node.spring_DZ, node.spring_RX, node.spring_RY, node.spring_RZ)]
+
 def _sum_displacements(model, Delta_D1, Delta_D2, D1_indices, D2_indices, combo):
     """Sums calculated displacements for a load step from the solver into the model's displacement vector `_D` and into each node object in the model.
 
@@ -795,42 +816,25 @@ def _calc_reactions(model, log=False, combo_tags=None):
                                 node.RxnMZ[combo.name] -= load[1]*factor
             
             # Calculate any reactions due to active spring supports at the node
-            if node.spring_DX[0] != None and node.spring_DX[2] == True:
-                sign = node.spring_DX[1]
-                k = node.spring_DX[0]
-                if sign != None: k = float(sign + str(k))
-                DX = node.DX[combo.name]
-                node.RxnFX[combo.name] += k*DX
-            if node.spring_DY[0] != None and node.spring_DY[2] == True:
-                sign = node.spring_DY[1]
-                k = node.spring_DY[0]
-                if sign != None: k = float(sign + str(k))
-                DY = node.DY[combo.name]
-                node.RxnFY[combo.name] += k*DY
-            if node.spring_DZ[0] != None and node.spring_DZ[2] == True:
-                sign = node.spring_DZ[1]
-                k = node.spring_DZ[0]
-                if sign != None: k = float(sign + str(k))
-                DZ = node.DZ[combo.name]
-                node.RxnFZ[combo.name] += k*DZ
-            if node.spring_RX[0] != None and node.spring_RX[2] == True:
-                sign = node.spring_RX[1]
-                k = node.spring_RX[0]
-                if sign != None: k = float(sign + str(k))
-                RX = node.RX[combo.name]
-                node.RxnMX[combo.name] += k*RX
-            if node.spring_RY[0] != None and node.spring_RY[2] == True:
-                sign = node.spring_RY[1]
-                k = node.spring_RY[0]
-                if sign != None: k = float(sign + str(k))
-                RY = node.RY[combo.name]
-                node.RxnMY[combo.name] += k*RY
-            if node.spring_RZ[0] != None and node.spring_RZ[2] == True:
-                sign = node.spring_RZ[1]
-                k = node.spring_RZ[0]
-                if sign != None: k = float(sign + str(k))
-                RZ = node.RZ[combo.name]
-                node.RxnMZ[combo.name] += k*RZ
+            active = node._active_springs[combo.name]
+            if node.spring_DX[0] != None and active[0]:
+                k = float(node.spring_DX[0])
+                node.RxnFX[combo.name] -= k*node.DX[combo.name]
+            if node.spring_DY[0] != None and active[1]:
+                k = float(node.spring_DY[0])
+                node.RxnFY[combo.name] -= k*node.DY[combo.name]
+            if node.spring_DZ[0] != None and active[2]:
+                k = float(node.spring_DZ[0])
+                node.RxnFZ[combo.name] -= k*node.DZ[combo.name]
+            if node.spring_RX[0] != None and active[3]:
+                k = float(node.spring_RX[0])
+                node.RxnMX[combo.name] -= k*node.RX[combo.name]
+            if node.spring_RY[0] != None and active[4]:
+                k = float(node.spring_RY[0])
+                node.RxnMY[combo.name] -= k*node.RY[combo.name]
+            if node.spring_RZ[0] != None and active[5]:
+                k = float(node.spring_RZ[0])
+                node.RxnMZ[combo.name] -= k*node.RZ[combo.name]
 
 def _check_statics(model, combo_tags=None):
     '''
diff --git a/PyNite/FEModel3D.py b/PyNite/FEModel3D.py
index 3fae33c..b1a4cbc 100644
--- a/PyNite/FEModel3D.py
+++ b/PyNite/FEModel3D.py
@@ -1961,6 +1961,9 @@ class FEModel3D():
             convergence = False
             divergence = False
 
+            # Support springs may have been deactivated by a previously solved load combination
+            Analysis._activate_support_springs(self)
+
             # Iterate until convergence or divergence occurs
             while convergence == False and divergence == False:
                 
diff --git a/PyNite/Node3D.py b/PyNite/Node3D.py
index 9049619..6cb2534 100644
--- a/PyNite/Node3D.py
+++ b/PyNite/Node3D.py
@@ -53,6 +53,9 @@ class Node3D():
         self.spring_RY = [None, None, None]
         self.spring_RZ = [None, None, None]
 
+        # Active status of each of the support springs above in the solution of each load combination
+        self._active_springs = {}
+
         # Initialize all enforced displacements to `None`
         self.EnforcedDX = None
         self.EnforcedDY = None
-- 
2.43.0


From 2516308705be1bc0f4a8b351eda090c7036f1b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:25 +0000
Subject: [PATCH 05/47] fix: statics check no longer fails on untagged load
 combinations when tags are given

---
 PyNite/Analysis.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index 4c239dd..d80ba95 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -858,13 +858,7 @@ def _check_statics(model, combo_tags=None):
     statics_table.field_names = ['Load Combination', 'Sum FX', 'Sum RX', 'Sum FY', 'Sum RY', 'Sum FZ', 'Sum RZ', 'Sum MX', 'Sum RMX', 'Sum MY', 'Sum RMY', 'Sum MZ', 'Sum RMZ']
 
     # Identify which load combinations to evaluate
-    if combo_tags is None:
-        combo_list = model.load_combos.values()
-    else:
-        combo_list = []
-        for combo in model.load_combos.values():
-            if any(tag in combo.combo_tags for tag in combo_tags):
-                combo_list.append(combo)
+    combo_list = _identify_combos(model, combo_tags)
 
     # Step through each load combination
     for combo in combo_list:
-- 
2.43.0


From e304772e3ea257c1eefd312a836d23a96354bfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:25 +0000
Subject: [PATCH 06/47] fix: P-Delta analysis with the dense solver

---
 PyNite/Analysis.py  | 4 ++--
 PyNite/FEModel3D.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index d80ba95..e0e037c 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -214,7 +214,7 @@ def _PDelta_step(model, combo_name, P1, FER1, D1_indices, D2_indices, D2, log=Tr
                 Kg11, Kg12, Kg21, Kg22 = _partition(model, model.Kg(combo_name, log, sparse, True), D1_indices, D2_indices)
             else:
                 # For subsequent iterations P will be calculated based on member end displacements
-                Kg11, Kg12, Kg21, Kg22 = _partition(model.Kg(combo_name, log, sparse, False), D1_indices, D2_indices)
+                Kg11, Kg12, Kg21, Kg22 = _partition(model, model.Kg(combo_name, log, sparse, False), D1_indices, D2_indices)
             
             K11 = K11 + Kg11
             K12 = K12 + Kg12
@@ -322,7 +322,7 @@ def _pushover_step(model, combo_name, push_combo, step_num, P1, FER1, D1_indices
             
             # Geometric stiffness matrix
             # The `combo_name` variable in the code below is not the name of the pushover load combination. Rather it is the name of the primary combination that the pushover load will be added to. Axial loads used to develop Kg are calculated from the displacements stored in `combo_name`.
-            Kg11, Kg12, Kg21, Kg22 = _partition(model.Kg(combo_name, log, sparse, False), D1_indices, D2_indices)
+            Kg11, Kg12, Kg21, Kg22 = _partition(model, model.Kg(combo_name, log, sparse, False), D1_indices, D2_indices)
             
             # Calculate the stiffness reduction matrix
             Km11, Km12, Km21, Km22 = _partition(model, model.Km(combo_name, push_combo, step_num, log, sparse), D1_indices, D2_indices)
diff --git a/PyNite/FEModel3D.py b/PyNite/FEModel3D.py
index b1a4cbc..e2ef1d2 100644
--- a/PyNite/FEModel3D.py
+++ b/PyNite/FEModel3D.py
@@ -1607,7 +1607,7 @@ class FEModel3D():
             from scipy.sparse import lil_matrix
             Kg = lil_matrix((len(self.nodes)*6, len(self.nodes)*6))
         else:
-            Kg = zeros(len(self.nodes)*6, len(self.nodes)*6)
+            Kg = zeros((len(self.nodes)*6, len(self.nodes)*6))
         
         # Add stiffness terms for each physical member in the model
         if log: print('- Adding member geometric stiffness terms to global geometric stiffness matrix')
-- 
2.43.0


From db4a5a013a541008e987ccc3a00db516e320a64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:25 +0000
Subject: [PATCH 07/47] fix: P-Delta analysis of a model with no unknown
 displacements

---
 PyNite/Analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index e0e037c..33f877f 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -225,7 +225,7 @@ def _PDelta_step(model, combo_name, P1, FER1, D1_indices, D2_indices, D2, log=Tr
         if log: print('- Calculating changes to the global displacement vector')
         if K11.shape == (0, 0):
             # All displacements are known, so D1 is an empty vector
-            Delta_D1 = []
+            Delta_D1 = zeros((0, 1))
         else:
             try:
                 # Calculate the change in the displacements Delta_D1
-- 
2.43.0


From 134b514ddb86a11fd8742834b1d95312b5990b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:25 +0000
Subject: [PATCH 08/47] fix: an earlier P-Delta analysis no longer affects the
 results of a later linear analysis

---
 PyNite/Analysis.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index 33f877f..0e080b5 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -10,6 +10,9 @@ def _prepare_model(model):
     :type model: FEModel3D
     """
     
+    # Flag the model as unsolved. Member end forces depend on the type of solution.
+    model.solution = None
+
     # Reset any nodal displacements
     model._D = {}
     for node in model.nodes.values():
-- 
2.43.0


From 09b95695ab6253be41f76afae78042f328ec6da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:25 +0000
Subject: [PATCH 09/47] fix: reactions include the loads on deactivated
 tension/compression-only members

These loads are part of the load vector, but the reactions left them out.
---
 PyNite/Analysis.py | 4 ++--
 PyNite/Member3D.py | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index 0e080b5..60162fb 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -662,7 +662,7 @@ def _calc_reactions(model, log=False, combo_tags=None):
                     # Sum the sub-member end forces at the node
                     for member in phys_member.sub_members.values():
                         
-                        if member.i_node == node and phys_member.active[combo.name] == True:
+                        if member.i_node == node:
                         
                             # Get the member's global force matrix
                             # Storing it as a local variable eliminates the need to rebuild it every time a term is needed                    
@@ -675,7 +675,7 @@ def _calc_reactions(model, log=False, combo_tags=None):
                             if node.support_RY: node.RxnMY[combo.name] += member_F[4, 0]
                             if node.support_RZ: node.RxnMZ[combo.name] += member_F[5, 0]
 
-                        elif member.j_node == node and phys_member.active[combo.name] == True:
+                        elif member.j_node == node:
                         
                             # Get the member's global force matrix
                             # Storing it as a local variable eliminates the need to rebuild it every time a term is needed                    
diff --git a/PyNite/Member3D.py b/PyNite/Member3D.py
index ef7f2d7..51417b6 100644
--- a/PyNite/Member3D.py
+++ b/PyNite/Member3D.py
@@ -462,6 +462,10 @@ class Member3D():
         :rtype: array
         """
         
+        # An inactive member has no stiffness, and only passes its loads on to its nodes
+        if self.active[combo_name] != True:
+            return self.fer(combo_name)
+
         # Calculate and return the member's local end force vector
         if self.model.solution == 'P-Delta':
             # Back-calculate the axial force on the member from the axial strain
-- 
2.43.0


From 3765951fca32d88af15f45a1d9f859524247f90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:25 +0000
Subject: [PATCH 10/47] fix: deactivated springs report no force

---
 PyNite/Spring3D.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PyNite/Spring3D.py b/PyNite/Spring3D.py
index 482f97d..746af19 100644
--- a/PyNite/Spring3D.py
+++ b/PyNite/Spring3D.py
@@ -81,6 +81,9 @@ class Spring3D():
         '''
         
         # Calculate and return the spring's local end force vector
+        if self.active[combo_name] != True:
+            # An inactive spring carries no force
+            return zeros((12, 1))
         return matmul(self.k(), self.d(combo_name))
 
 #%%
-- 
2.43.0


From cb08c11cff19379ba9f4a911721cadac07a68095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:25 +0000
Subject: [PATCH 11/47] fix: the sparse solver reports singular stiffness
 matrices instead of returning nan results

---
 PyNite/Analysis.py  | 6 +++++-
 PyNite/FEModel3D.py | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index 60162fb..e045830 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -1,6 +1,6 @@
 from math import isclose
 from PyNite.LoadCombo import LoadCombo
-from numpy import array, atleast_2d, zeros, subtract, matmul, divide, seterr, nanmax
+from numpy import array, atleast_2d, zeros, subtract, matmul, divide, seterr, nanmax, isnan
 from numpy.linalg import solve
 
 def _prepare_model(model):
@@ -237,6 +237,8 @@ def _PDelta_step(model, combo_name, P1, FER1, D1_indices, D2_indices, D2, log=Tr
                     # operator performs matrix multiplication on sparse matrices.
                     Delta_D1 = spsolve(K11.tocsr(), subtract(subtract(P1, FER1), K12.tocsr() @ D2))
                     Delta_D1 = Delta_D1.reshape(len(Delta_D1), 1)
+                    # The sparse solver returns `nan` (rather than raising an error) if 'K' is singular
+                    if isnan(Delta_D1).any(): raise ValueError('Singular stiffness matrix')
                 else:
                     # The partitioned stiffness matrix is in `csr` format. It will be
                     # converted to a 2D dense array for mathematical operations.
@@ -348,6 +350,8 @@ def _pushover_step(model, combo_name, push_combo, step_num, P1, FER1, D1_indices
                     # operator performs matrix multiplication on sparse matrices.
                     Delta_D1 = spsolve(K11.tocsr(), subtract(subtract(P1, FER1), K12.tocsr() @ D2))
                     Delta_D1 = Delta_D1.reshape(len(Delta_D1), 1)
+                    # The sparse solver returns `nan` (rather than raising an error) if 'K' is singular
+                    if isnan(Delta_D1).any(): raise ValueError('Singular stiffness matrix')
                 else:
                     # The partitioned stiffness matrix is in `csr` format. It will be
                     # converted to a 2D dense array for mathematical operations.
diff --git a/PyNite/FEModel3D.py b/PyNite/FEModel3D.py
index e2ef1d2..9a32c86 100644
--- a/PyNite/FEModel3D.py
+++ b/PyNite/FEModel3D.py
@@ -3,7 +3,7 @@ from os import rename
 import warnings
 from math import isclose
 
-from numpy import array, zeros, matmul, divide, subtract, atleast_2d, all
+from numpy import array, zeros, matmul, divide, subtract, atleast_2d, all, isnan
 from numpy.linalg import solve
 
 from PyNite.Node3D import Node3D
@@ -1999,6 +1999,8 @@ class FEModel3D():
                             # The `@` operator performs matrix multiplication on sparse matrices.
                             D1 = spsolve(K11.tocsr(), subtract(subtract(P1, FER1), K12.tocsr() @ D2))
                             D1 = D1.reshape(len(D1), 1)
+                            # The sparse solver returns `nan` (rather than raising an error) if 'K' is singular
+                            if isnan(D1).any(): raise Exception('Singular stiffness matrix')
                         else:
                             D1 = solve(K11, subtract(subtract(P1, FER1), matmul(K12, D2)))
                     except:
@@ -2103,6 +2105,8 @@ class FEModel3D():
                         # The `@` operator performs matrix multiplication on sparse matrices.
                         D1 = spsolve(K11.tocsr(), subtract(subtract(P1, FER1), K12.tocsr() @ D2))
                         D1 = D1.reshape(len(D1), 1)
+                        # The sparse solver returns `nan` (rather than raising an error) if 'K' is singular
+                        if isnan(D1).any(): raise Exception('Singular stiffness matrix')
                     else:
                         D1 = solve(K11, subtract(subtract(P1, FER1), matmul(K12, D2)))
                 except:
-- 
2.43.0


From 8e68aacf626a2cfd475ac971e9cd8f8d2ffc02e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:25 +0000
Subject: [PATCH 12/47] fix: merging duplicate nodes keeps nodal loads and
 enforced displacements

---
 PyNite/FEModel3D.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/PyNite/FEModel3D.py b/PyNite/FEModel3D.py
index 9a32c86..06fed56 100644
--- a/PyNite/FEModel3D.py
+++ b/PyNite/FEModel3D.py
@@ -798,6 +798,15 @@ class FEModel3D():
                     value = getattr(self.nodes[node_2_name], dof)
                     if value != [None, None, None]:
                         setattr(self.nodes[node_1_name], dof, value)
+
+                # Merge any enforced displacements
+                for dof in ('EnforcedDX', 'EnforcedDY', 'EnforcedDZ', 'EnforcedRX', 'EnforcedRY', 'EnforcedRZ'):
+                    value = getattr(self.nodes[node_2_name], dof)
+                    if value is not None:
+                        setattr(self.nodes[node_1_name], dof, value)
+
+                # Move any nodal loads
+                self.nodes[node_1_name].NodeLoads.extend(self.nodes[node_2_name].NodeLoads)
                 
                 # Fix the mesh labels
                 for mesh in self.meshes.values():
-- 
2.43.0


From 83fb2bc170a18df6223fbaf9240bb8e0362b2cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:25 +0000
Subject: [PATCH 13/47] fix: deleting a node also deletes the springs attached
 to it

---
 PyNite/FEModel3D.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/PyNite/FEModel3D.py b/PyNite/FEModel3D.py
index 06fed56..72aef07 100644
--- a/PyNite/FEModel3D.py
+++ b/PyNite/FEModel3D.py
@@ -850,6 +850,7 @@ class FEModel3D():
         
         # Find any elements attached to the node and remove them
         self.members = {name: member for name, member in self.members.items() if member.i_node.name != node_name and member.j_node.name != node_name}
+        self.springs = {name: spring for name, spring in self.springs.items() if spring.i_node.name != node_name and spring.j_node.name != node_name}
         self.plates = {name: plate for name, plate in self.plates.items() if plate.i_node.name != node_name and plate.j_node.name != node_name and plate.m_node.name != node_name and plate.n_node.name != node_name}
         self.quads = {name: quad for name, quad in self.quads.items() if quad.i_node.name != node_name and quad.j_node.name != node_name and quad.m_node.name != node_name and quad.n_node.name != node_name}
 
-- 
2.43.0


From 4b6c0ecec9751f9acfba327da20546365a5cf8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:25 +0000
Subject: [PATCH 14/47] fix: deleting an auxiliary node removes it from the
 members using it

---
 PyNite/FEModel3D.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyNite/FEModel3D.py b/PyNite/FEModel3D.py
index 72aef07..9152805 100644
--- a/PyNite/FEModel3D.py
+++ b/PyNite/FEModel3D.py
@@ -865,11 +865,11 @@ class FEModel3D():
         """
 
         # Remove the auxiliary node
-        self.aux_nodes.pop(auxnode_name)
+        auxnode = self.aux_nodes.pop(auxnode_name)
 
         # Remove the auxiliary node from any members that were using it
         for member in self.members.values():
-            if member.auxNode == auxnode_name:
+            if member.auxNode is auxnode:
                 member.auxNode = None
         
         # Flag the model as unsolved
-- 
2.43.0


From 22856ece12cdc5a13cda16f1fff6d258fab39bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:25 +0000
Subject: [PATCH 15/47] fix: load combinations no longer share their default
 dictionary of load factors

---
 PyNite/LoadCombo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyNite/LoadCombo.py b/PyNite/LoadCombo.py
index 2e2d0ae..1a6f8b4 100644
--- a/PyNite/LoadCombo.py
+++ b/PyNite/LoadCombo.py
@@ -2,7 +2,7 @@ class LoadCombo():
     """A class that stores all the information necessary to define a load combination.
     """
 
-    def __init__(self, name, combo_tags=None, factors={}):
+    def __init__(self, name, combo_tags=None, factors=None):
         """Initializes a new load combination.
 
         :param name: A unique name for the load combination.
@@ -15,7 +15,7 @@ class LoadCombo():
         
         self.name = name             # A unique user-defined name for the load combination
         self.combo_tags = combo_tags   # Used to categorize the load combination (e.g. strength or serviceability)
-        self.factors = factors       # A dictionary containing each load case name and associated load factor
+        self.factors = {} if factors is None else factors       # A dictionary containing each load case name and associated load factor
     
     def AddLoadCase(self, case_name, factor):
         '''
-- 
2.43.0


From 405014cb500811278ec303a8912d241133e0ac74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:25 +0000
Subject: [PATCH 16/47] fix: renaming no longer loses entities whose new name
 was already in use

---
 PyNite/FEModel3D.py | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/PyNite/FEModel3D.py b/PyNite/FEModel3D.py
index 9152805..0c94fc0 100644
--- a/PyNite/FEModel3D.py
+++ b/PyNite/FEModel3D.py
@@ -2347,47 +2347,52 @@ class FEModel3D():
         """
 
         # Rename each node in the model
-        temp = self.nodes.copy()
+        temp = self.nodes
+        self.nodes = {}
         id = 1
-        for old_key in temp.keys():
+        for node in temp.values():
             new_key = 'N' + str(id)
-            self.nodes[new_key] = self.nodes.pop(old_key)
+            self.nodes[new_key] = node
             self.nodes[new_key].name = new_key
             id += 1
         
         # Rename each spring in the model
-        temp = self.springs.copy()
+        temp = self.springs
+        self.springs = {}
         id = 1
-        for old_key in temp.keys():
+        for spring in temp.values():
             new_key = 'S' + str(id)
-            self.springs[new_key] = self.springs.pop(old_key)
+            self.springs[new_key] = spring
             self.springs[new_key].name = new_key
             id += 1
 
         # Rename each member in the model
-        temp = self.members.copy()
+        temp = self.members
+        self.members = {}
         id = 1
-        for old_key in temp.keys():
+        for member in temp.values():
             new_key = 'M' + str(id)
-            self.members[new_key] = self.members.pop(old_key)
+            self.members[new_key] = member
             self.members[new_key].name = new_key
             id += 1
         
         # Rename each plate in the model
-        temp = self.plates.copy()
+        temp = self.plates
+        self.plates = {}
         id = 1
-        for old_key in temp.keys():
+        for plate in temp.values():
             new_key = 'P' + str(id)
-            self.plates[new_key] = self.plates.pop(old_key)
+            self.plates[new_key] = plate
             self.plates[new_key].name = new_key
             id += 1
         
         # Rename each quad in the model
-        temp = self.quads.copy()
+        temp = self.quads
+        self.quads = {}
         id = 1
-        for old_key in temp.keys():
+        for quad in temp.values():
             new_key = 'Q' + str(id)
-            self.quads[new_key] = self.quads.pop(old_key)
+            self.quads[new_key] = quad
             self.quads[new_key].name = new_key
             id += 1
 
-- 
2.43.0


From 73a7d4b9516b8321c9b6b54bcc3ce5659fb0affc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:38 +0000
Subject: [PATCH 17/47] fix: maximum member moments include P-little-delta
 effects like minimum moments do

---
 PyNite/BeamSegY.py | 8 ++++----
 PyNite/Member3D.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/PyNite/BeamSegY.py b/PyNite/BeamSegY.py
index a252f45..8f2e4c4 100644
--- a/PyNite/BeamSegY.py
+++ b/PyNite/BeamSegY.py
@@ -145,10 +145,10 @@ class BeamSegY(BeamSegZ):
             x2 = 0
     
         # Find the moment at each location of interest
-        M1 = self.moment(x1)
-        M2 = self.moment(x2)
-        M3 = self.moment(x3)
-        M4 = self.moment(x4)
+        M1 = self.moment(x1, P_delta)
+        M2 = self.moment(x2, P_delta)
+        M3 = self.moment(x3, P_delta)
+        M4 = self.moment(x4, P_delta)
     
         # Return the maximum moment
         return max(M1, M2, M3, M4)
diff --git a/PyNite/Member3D.py b/PyNite/Member3D.py
index 51417b6..4ba44a2 100644
--- a/PyNite/Member3D.py
+++ b/PyNite/Member3D.py
@@ -1027,9 +1027,9 @@ class Member3D():
 
                 for segment in self.SegmentsZ:
                     
-                    if segment.max_moment() > Mmax:
+                    if segment.max_moment(P_delta) > Mmax:
                         
-                        Mmax = segment.max_moment()
+                        Mmax = segment.max_moment(P_delta)
                         
             if Direction == 'My':
                 
@@ -1037,9 +1037,9 @@ class Member3D():
 
                 for segment in self.SegmentsY:
                     
-                    if segment.max_moment() > Mmax:
+                    if segment.max_moment(P_delta) > Mmax:
                         
-                        Mmax = segment.max_moment()
+                        Mmax = segment.max_moment(P_delta)
             
             return Mmax
         
-- 
2.43.0


From 04365c743b2619da93c01d02425349332ddd0188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:54 +0000
Subject: [PATCH 18/47] fix: axial point loads are part of the axial force in
 both bending planes

---
 PyNite/Member3D.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PyNite/Member3D.py b/PyNite/Member3D.py
index 4ba44a2..6f7380a 100644
--- a/PyNite/Member3D.py
+++ b/PyNite/Member3D.py
@@ -2040,6 +2040,7 @@ class Member3D():
                     
                         if ptLoad[0] == 'Fx':
                             SegmentsZ[i].P1 += factor*ptLoad[1]
+                            SegmentsY[i].P1 += factor*ptLoad[1]
                         elif ptLoad[0] == 'Fy':
                             SegmentsZ[i].V1 += factor*ptLoad[1]
                             SegmentsZ[i].M1 -= factor*ptLoad[1]*(x - ptLoad[2])
@@ -2059,6 +2060,7 @@ class Member3D():
                             if ptLoad[0] == 'FZ': FZ = 1
                             force = self.T()[:3, :][:, :3] @ array([FX*ptLoad[1], FY*ptLoad[1], FZ*ptLoad[1]])
                             SegmentsZ[i].P1 += factor*force[0]
+                            SegmentsY[i].P1 += factor*force[0]
                             SegmentsZ[i].V1 += factor*force[1]
                             SegmentsZ[i].M1 -= factor*force[1]*(x - ptLoad[2])
                             SegmentsY[i].V1 += factor*force[2]
-- 
2.43.0


From e69984063e211beceb8d6e3b884678bfb5991551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:54 +0000
Subject: [PATCH 19/47] fix: local z deflections include P-little-delta effects
 like local y deflections do

---
 PyNite/Member3D.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyNite/Member3D.py b/PyNite/Member3D.py
index 6f7380a..2c79b3e 100644
--- a/PyNite/Member3D.py
+++ b/PyNite/Member3D.py
@@ -1584,12 +1584,12 @@ class Member3D():
                     
                     if round(x,10) >= round(segment.x1,10) and round(x,10) < round(segment.x2,10):
                         
-                        return segment.deflection(x - segment.x1)
+                        return segment.deflection(x - segment.x1, P_delta)
                     
                 if isclose(x, self.L()):
                     
                     lastIndex = len(self.SegmentsY) - 1
-                    return self.SegmentsY[lastIndex].deflection(x - self.SegmentsY[lastIndex].x1) 
+                    return self.SegmentsY[lastIndex].deflection(x - self.SegmentsY[lastIndex].x1, P_delta)
         
         else:
 
-- 
2.43.0


From 1c8d986430219aec1cfa6c75b68fb7aad2559e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:08 +0000
Subject: [PATCH 20/47] fix: meshes that have not been generated yet are
 generated before analysis

---
 PyNite/Analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index e045830..937b3c5 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -30,7 +30,7 @@ def _prepare_model(model):
     
     # Generate all meshes
     for mesh in model.meshes.values():
-        if mesh.is_generated == False:
+        if mesh.is_generated() == False:
             mesh.generate()
 
     # Activate all support springs
-- 
2.43.0


From 8228262aafe45a14dda044c1f22c6890c5cb864a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:34 +0000
Subject: [PATCH 21/47] fix: the mesh integrity check finds quads in the model
 and reports every error

---
 PyNite/Mesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyNite/Mesh.py b/PyNite/Mesh.py
index 352063a..72e08b0 100644
--- a/PyNite/Mesh.py
+++ b/PyNite/Mesh.py
@@ -1620,7 +1620,7 @@ def check_mesh_integrity(mesh, console_log=True):
     # Check that each element in the mesh is in the model
     count = 0
     for element in mesh.elements.values():
-        if element not in mesh.model.plates.values() and element.name not in mesh.model.quads.values():
+        if element not in mesh.model.plates.values() and element not in mesh.model.quads.values():
             count += 1
     
     if count != 0:
@@ -1671,6 +1671,6 @@ def check_mesh_integrity(mesh, console_log=True):
     if console_log == True:
         for error in errors:
             print(error)
-            return ''
+        return ''
     else:
         return errors
-- 
2.43.0


From 4d05dab9d244f55d2834db3d99a5159726d6bed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:34 +0000
Subject: [PATCH 22/47] fix: rectangular meshes no longer modify the caller's
 lists of control points

---
 PyNite/Mesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyNite/Mesh.py b/PyNite/Mesh.py
index 72e08b0..58f90d1 100644
--- a/PyNite/Mesh.py
+++ b/PyNite/Mesh.py
@@ -438,10 +438,10 @@ class RectangleMesh(Mesh):
         self.plane = plane
 
         if x_control is None: self.x_control = []
-        else: self.x_control = x_control
+        else: self.x_control = list(x_control)
 
         if y_control is None: self.y_control = []
-        else: self.y_control = y_control
+        else: self.y_control = list(y_control)
 
         self.element_type = element_type
         self.openings = {}
-- 
2.43.0


From 49338e567a232a15e0b5036914e2507be723188d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:34 +0000
Subject: [PATCH 23/47] fix: frustrum meshes about the X and Z axes measure the
 radius from their own axis

---
 PyNite/Mesh.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/PyNite/Mesh.py b/PyNite/Mesh.py
index 58f90d1..61c0e41 100644
--- a/PyNite/Mesh.py
+++ b/PyNite/Mesh.py
@@ -1199,7 +1199,7 @@ class FrustrumMesh(AnnulusMesh):
         super().generate()
         
         Xo = self.origin[0]
-        Yo = self.origin[1]  # Not used
+        Yo = self.origin[1]
         Zo = self.origin[2]
 
         # Adjust the cooridnates of each node to make a frustrum
@@ -1207,12 +1207,14 @@ class FrustrumMesh(AnnulusMesh):
             X = node.X
             Y = node.Y
             Z = node.Z
-            r = ((X - Xo)**2 + (Z - Zo)**2)**0.5
             if self.axis == 'Y':
+                r = ((X - Xo)**2 + (Z - Zo)**2)**0.5
                 node.Y += (r - self.outer_radius)/(self.outer_radius - self.inner_radius)*self.height
             elif self.axis == 'X':
+                r = ((Y - Yo)**2 + (Z - Zo)**2)**0.5
                 node.X += (r - self.outer_radius)/(self.outer_radius - self.inner_radius)*self.height
             elif self.axis == 'Z':
+                r = ((X - Xo)**2 + (Y - Yo)**2)**0.5
                 node.Z += (r - self.outer_radius)/(self.outer_radius - self.inner_radius)*self.height
             else:
                 raise Exception('Invalid axis specified for frustrum mesh.')
-- 
2.43.0


From 348c59db0c1c6470c8d006811779dbf6fd90f2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:34 +0000
Subject: [PATCH 24/47] fix: cylinder meshes honor their origin, height and
 stiffness modifiers

---
 PyNite/Mesh.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/PyNite/Mesh.py b/PyNite/Mesh.py
index 61c0e41..169b0f0 100644
--- a/PyNite/Mesh.py
+++ b/PyNite/Mesh.py
@@ -1299,15 +1299,20 @@ class CylinderMesh(Mesh):
         n = self.num_elements  # Total number of elements in the mesh (initialized for a single ring at the moment)
 
         radius = self.radius
-        h = self.h
+
+        # Get the origin of the cylinder (the center of its base)
+        Xo, Yo, Zo = self.origin
 
         # Set the cylinder base's local y-coordinate
         if self.axis == 'Y':
-            y = self.origin[1]  
+            y = Yo
         elif self.axis == 'X':
-            y = self.origin[0]  
+            y = Xo
         elif self.axis == 'Z':
-             y = self.origin[2]
+            y = Zo
+
+        # Set the cylinder top's local y-coordinate
+        h = y + self.h
 
         n = int(self.start_node[1:])
         q = int(self.start_element[1:])
@@ -1327,11 +1332,11 @@ class CylinderMesh(Mesh):
             h_y = height/n_vert             # Element height in the vertical direction
             # Create a mesh of nodes for the ring
             if self.axis == 'Y':
-                ring = CylinderRingMesh(radius, h_y, num_elements, thickness, material_name, self.model, 1, 1, [0, y, 0], self.axis, 'N' + str(n), 'Q' + str(q), element_type)
+                ring = CylinderRingMesh(radius, h_y, num_elements, thickness, material_name, self.model, self.kx_mod, self.ky_mod, [Xo, y, Zo], self.axis, 'N' + str(n), 'Q' + str(q), element_type)
             elif self.axis == 'X':
-                ring = CylinderRingMesh(radius, h_y, num_elements, thickness, material_name, self.model, 1, 1, [y, 0, 0], self.axis, 'N' + str(n), 'Q' + str(q), element_type)
+                ring = CylinderRingMesh(radius, h_y, num_elements, thickness, material_name, self.model, self.kx_mod, self.ky_mod, [y, Yo, Zo], self.axis, 'N' + str(n), 'Q' + str(q), element_type)
             elif self.axis == 'Z':
-                ring = CylinderRingMesh(radius, h_y, num_elements, thickness, material_name, self.model, 1, 1, [0, 0, y], self.axis, 'N' + str(n), 'Q' + str(q), element_type)
+                ring = CylinderRingMesh(radius, h_y, num_elements, thickness, material_name, self.model, self.kx_mod, self.ky_mod, [Xo, Yo, y], self.axis, 'N' + str(n), 'Q' + str(q), element_type)
 
             n += num_elements
             q += num_elements
-- 
2.43.0


From 56fac82097816ae36c78b7f7dfcab44fb153211a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:47 +0000
Subject: [PATCH 25/47] fix: twisting moments of plates use the same twisting
 stiffness as the plate itself

---
 PyNite/Plate3D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyNite/Plate3D.py b/PyNite/Plate3D.py
index a870d03..d35d848 100644
--- a/PyNite/Plate3D.py
+++ b/PyNite/Plate3D.py
@@ -115,7 +115,7 @@ class Plate3D():
         # Calculate the constitutive matrix [Db]
         Db = t**3/(12*(1 - nu_xy*nu_yx))*array([[   Ex,    nu_yx*Ex, 0],
                                                 [nu_xy*Ey,    Ey,    0],
-                                                [   0,        0,     G]])
+                                                [   0,        0,     (1 - nu_xy*nu_yx)*G]])
 
         # Return the constitutive matrix [Db]
         return Db
-- 
2.43.0


From d0f9888f495a09f32bd34cdff2fbd3ca98de66c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:47 +0000
Subject: [PATCH 26/47] fix: in-plane stiffness modifiers no longer scale plate
 bending moments

---
 PyNite/Plate3D.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/PyNite/Plate3D.py b/PyNite/Plate3D.py
index d35d848..bb27669 100644
--- a/PyNite/Plate3D.py
+++ b/PyNite/Plate3D.py
@@ -101,15 +101,16 @@ class Plate3D():
 
     def Db(self):
         """
-        Returns the bending constitutive matrix for orthotropic materials [Db]
+        Returns the bending constitutive matrix [Db]
         """
 
-        # Get the plate thickness and other material parameters
+        # Get the plate thickness and other material parameters. The stiffness modification factors
+        # only apply to in-plane stiffness. They are not part of the plate's bending stiffness.
         t = self.t
         nu_xy = self.nu
         nu_yx = self.nu
-        Ex = self.E*self.kx_mod
-        Ey = self.E*self.ky_mod
+        Ex = self.E
+        Ey = self.E
         G = self.E/(2*(1 + self.nu))
 
         # Calculate the constitutive matrix [Db]
-- 
2.43.0


From e5f54a920915373f5730068cdea9d425030301ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:03 +0000
Subject: [PATCH 27/47] fix: the stability check accepts degrees of freedom
 with enforced displacements

---
 PyNite/Analysis.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index 937b3c5..e92347e 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -106,19 +106,19 @@ def _check_stability(model, K):
         # Determine which degree of freedom this term belongs to
         dof = i%6
 
-        # Check to see if this degree of freedom is supported
+        # Check to see if this degree of freedom is supported or has an enforced displacement
         if dof == 0:
-            supported = node.support_DX
+            supported = node.support_DX or node.EnforcedDX is not None
         elif dof == 1:
-            supported = node.support_DY
+            supported = node.support_DY or node.EnforcedDY is not None
         elif dof == 2:
-            supported = node.support_DZ
+            supported = node.support_DZ or node.EnforcedDZ is not None
         elif dof == 3:
-            supported = node.support_RX
+            supported = node.support_RX or node.EnforcedRX is not None
         elif dof == 4:
-            supported = node.support_RY
+            supported = node.support_RY or node.EnforcedRY is not None
         elif dof == 5:
-            supported = node.support_RZ
+            supported = node.support_RZ or node.EnforcedRZ is not None
 
         # Check if the degree of freedom on this diagonal is unstable
         if isclose(K[i, i], 0) and not supported:
-- 
2.43.0


From f1a88fd30b6d0c5791fda1111e1fa34183c775b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:42 +0000
Subject: [PATCH 28/47] fix: the gradient of the steel yield surface matches
 its equation for weak-axis bending

---
 PyNite/Section.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyNite/Section.py b/PyNite/Section.py
index 38e046c..069e337 100644
--- a/PyNite/Section.py
+++ b/PyNite/Section.py
@@ -96,7 +96,7 @@ class SteelSection(Section):
 
         # Partial derivatives of Phi
         dPhi_dfx = 18*fx**5*my**2/(Mpy**2*Py**6) + 2*fx/Py**2 + 7.0*fx*mz**2/(Mpz**2*Py**2)
-        dPhi_dmy = 6*fx**6*my/(Mpy**2*Py**6) + 2*my/Mpy**2 + 9.0*my*mz**4/(Mpy**2*Mpz**4)
+        dPhi_dmy = 6*fx**6*my/(Mpy**2*Py**6) + 4*my**3/Mpy**4 + 9.0*my*mz**4/(Mpy**2*Mpz**4)
         dPhi_dmz = 7.0*fx**2*mz/(Mpz**2*Py**2) + 2*mz/Mpz**2 + 18.0*my**2*mz**3/(Mpy**2*Mpz**4)
         
         # Return the gradient
-- 
2.43.0


From 28ab66c5ae63f8f4b76adeddf3639482f72c9085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:19 +0000
Subject: [PATCH 29/47] fix: P-Delta analysis of models with quads no longer
 fails for lack of local coordinates

---
 PyNite/Quad3D.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PyNite/Quad3D.py b/PyNite/Quad3D.py
index 3e228cf..b25eadb 100644
--- a/PyNite/Quad3D.py
+++ b/PyNite/Quad3D.py
@@ -640,6 +640,9 @@ class Quad3D():
             The name of the load combination to get the consistent load vector for.
         """
         
+        # Recalculate the local coordinates. The stiffness matrix may not have been built yet.
+        self._local_coords()
+
         Hw = lambda xi, eta : 1/4*np.array([[(1 - xi)*(1 - eta), 0, 0, (1 + xi)*(1 - eta), 0, 0, (1 + xi)*(1 + eta), 0, 0, (1 - xi)*(1 + eta), 0, 0]])
 
         # Initialize the fixed end reaction vector
-- 
2.43.0


From c3dad3389d3e8afa40237ad104fa009ca2df2b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:28 +0000
Subject: [PATCH 30/47] fix: annulus and frustrum meshes narrower than the mesh
 size get one ring of elements

---
 PyNite/Mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyNite/Mesh.py b/PyNite/Mesh.py
index 169b0f0..861af8b 100644
--- a/PyNite/Mesh.py
+++ b/PyNite/Mesh.py
@@ -820,7 +820,7 @@ class AnnulusMesh(Mesh):
             radial = r_outer - r_inner                    # Remaining length in the radial direction to be meshed
             circumf = 2*pi*r_inner                        # Circumference of the ring at the inner radius
             b_circ = circumf/n_circ                       # Element width in the circumferential direction
-            n_rad = int(radial/min(mesh_size, 3*b_circ))  # Number of times the plate width fits in the remaining unmeshed radial direction
+            n_rad = max(int(radial/min(mesh_size, 3*b_circ)), 1)  # Number of times the plate width fits in the remaining unmeshed radial direction (at least one element)
             h_rad = radial/n_rad                          # Element height in the radial direction
 
             # Determine if the mesh is getting too big. If so the mesh will need to transition to a
-- 
2.43.0


From 731e4a683e0419cefac3c48b08c20977cec62ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:09 +0000
Subject: [PATCH 31/47] fix: generating a mesh again replaces its entities
 instead of adding duplicates

---
 PyNite/Mesh.py | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/PyNite/Mesh.py b/PyNite/Mesh.py
index 861af8b..37e3ed3 100644
--- a/PyNite/Mesh.py
+++ b/PyNite/Mesh.py
@@ -85,6 +85,32 @@ class Mesh():
         self.nodes = revised_nodes
         self.elements = revised_elements
             
+    def _remove_generated(self):
+        """Removes the entities created by an earlier call to `generate` from the mesh and the model.
+        Nodes that are still needed by something else in the model stay in the model.
+        """
+
+        # Remove the elements from the model
+        for element in self.elements.values():
+            for elements in (self.model.plates, self.model.quads):
+                if elements.get(element.name) is element:
+                    del elements[element.name]
+
+        # Find the nodes that are attached to the rest of the model
+        attached = set()
+        for elements in (self.model.springs, self.model.members, self.model.plates, self.model.quads):
+            for element in elements.values():
+                for node_type in ('i_node', 'j_node', 'm_node', 'n_node'):
+                    attached.add(id(getattr(element, node_type, None)))
+
+        # Remove the other nodes from the model
+        for node in self.nodes.values():
+            if self.model.nodes.get(node.name) is node and id(node) not in attached:
+                del self.model.nodes[node.name]
+
+        self.nodes = {}
+        self.elements = {}
+
     def generate(self):
         """
         A placeholder to be overwritten by subclasses inheriting from this class
@@ -448,6 +474,9 @@ class RectangleMesh(Mesh):
     
     def generate(self):
 
+        # Start over if the mesh has been generated before
+        self._remove_generated()
+
         mesh_size = self.mesh_size
         width = self.width
         height = self.height
@@ -804,6 +833,9 @@ class AnnulusMesh(Mesh):
     
     def generate(self):
         
+        # Start over if the mesh has been generated before
+        self._remove_generated()
+
         mesh_size = self.mesh_size
         r_outer = self.outer_radius
         r_inner = self.inner_radius
@@ -1290,6 +1322,9 @@ class CylinderMesh(Mesh):
     
     def generate(self):
         
+        # Start over if the mesh has been generated before
+        self._remove_generated()
+
         # Get the mesh thickness and the material name
         thickness = self.thickness
         material_name = self.material_name
-- 
2.43.0


From 2a777860e8e21f4d702f0978ca14532f49b6bad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:32 +0000
Subject: [PATCH 32/47] fix: annulus, frustrum and cylinder meshes no longer
 overwrite nodes and elements of the model

---
 PyNite/Mesh.py | 60 +++++++-------------------------------------------
 1 file changed, 8 insertions(+), 52 deletions(-)

diff --git a/PyNite/Mesh.py b/PyNite/Mesh.py
index 37e3ed3..9e180f7 100644
--- a/PyNite/Mesh.py
+++ b/PyNite/Mesh.py
@@ -895,17 +895,10 @@ class AnnulusMesh(Mesh):
             element.m_node = self.nodes[element.m_node.name]
             element.n_node = self.nodes[element.n_node.name]
 
-        # Add the nodes to the model
-        for node in self.nodes.values():
-            self.model.nodes[node.name] = node
-        
-        # Add the elements to the model
-        for element in self.elements.values():
-            if element.type.upper() == 'QUAD':
-                self.model.quads[element.name] = element
-            elif element.type.upper() == 'RECT':
-                self.model.plates[element.name] = element
-        
+        # Add the nodes and elements to the model. Any names that are already being used in the model
+        # will be replaced.
+        self._rename_duplicates()
+
         # Flag the mesh as generated
         self._is_generated = True
 
@@ -1020,17 +1013,6 @@ class AnnulusRingMesh(Mesh):
                                                                self.nodes['N' + str(n_node + node_offset)],
                                                                self.thickness, self.material_name, self.model, self.kx_mod, self.ky_mod)
 
-        # Add the nodes and elements to the model
-        for node in self.nodes.values():
-            self.model.nodes[node.name] = node
-        
-        # Add the elements to the model
-        for element in self.elements.values():
-            if element.type.upper() == 'QUAD':
-                self.model.quads[element.name] = element
-            if element.type.upper() == 'RECT':
-                self.model.plates[element.name] = element
-        
         # Flag the mesh as generated
         self._is_generated = True
 
@@ -1198,16 +1180,6 @@ class AnnulusTransRingMesh(Mesh):
                                                                self.nodes['N' + str(n_node + node_offset)],
                                                                self.thickness, self.material_name, self.model, self.kx_mod, self.ky_mod)
 
-        # Add the nodes and elements to the model
-        for node in self.nodes.values():
-            self.model.nodes[node.name] = node
-        
-        for element in self.elements.values():
-            if element.type == 'Quad':
-                self.model.quads[element.name] = element
-            else:
-                self.model.plates[element.name] = element
-        
         # Flag the mesh as generated
         self._is_generated = True
 
@@ -1390,16 +1362,10 @@ class CylinderMesh(Mesh):
             element.m_node = self.nodes[element.m_node.name]
             element.n_node = self.nodes[element.n_node.name]
 
-        # Add the nodes and elements to the model
-        for node in self.nodes.values():
-            self.model.nodes[node.name] = node
-        
-        for element in self.elements.values():
-            if element.type == 'Quad':
-                self.model.quads[element.name] = element
-            else:
-                self.model.plates[element.name] = element
-        
+        # Add the nodes and elements to the model. Any names that are already being used in the model
+        # will be replaced.
+        self._rename_duplicates()
+
         # Flag the mesh as generated
         self._is_generated = True
 
@@ -1573,16 +1539,6 @@ class CylinderRingMesh(Mesh):
                                                       self.nodes['N' + str(n_node + node_offset)],
                                                       self.thickness, self.material_name, self.model, self.kx_mod, self.ky_mod)
         
-        # Add the nodes and elements to the model
-        for node in self.nodes.values():
-            self.model.nodes[node.name] = node
-        
-        for element in self.elements.values():
-            if element.type == 'Quad':
-                self.model.quads[element.name] = element
-            else:
-                self.model.plates[element.name] = element
-            
         # Flag the mesh as generated
         self._is_generated = True
         
-- 
2.43.0


From bfa847f38cd8ab99476b8e20144a19fb73a7e36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:32 +0000
Subject: [PATCH 33/47] fix: renaming keeps the names in the model's meshes up
 to date

---
 PyNite/FEModel3D.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/PyNite/FEModel3D.py b/PyNite/FEModel3D.py
index 0c94fc0..62b2fbe 100644
--- a/PyNite/FEModel3D.py
+++ b/PyNite/FEModel3D.py
@@ -2396,6 +2396,11 @@ class FEModel3D():
             self.quads[new_key].name = new_key
             id += 1
 
+        # Update the names in each mesh in the model
+        for mesh in self.meshes.values():
+            mesh.nodes = {node.name: node for node in mesh.nodes.values()}
+            mesh.elements = {element.name: element for element in mesh.elements.values()}
+
     def orphaned_nodes(self):
         """
         Returns a list of the names of nodes that are not attached to any elements.
-- 
2.43.0


From 35b7a775a135ebada37e5f0c209a942daf0268db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:32 +0000
Subject: [PATCH 34/47] fix: deleting a node removes it and its elements from
 the model's meshes

---
 PyNite/FEModel3D.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/PyNite/FEModel3D.py b/PyNite/FEModel3D.py
index 62b2fbe..e34a265 100644
--- a/PyNite/FEModel3D.py
+++ b/PyNite/FEModel3D.py
@@ -854,6 +854,11 @@ class FEModel3D():
         self.plates = {name: plate for name, plate in self.plates.items() if plate.i_node.name != node_name and plate.j_node.name != node_name and plate.m_node.name != node_name and plate.n_node.name != node_name}
         self.quads = {name: quad for name, quad in self.quads.items() if quad.i_node.name != node_name and quad.j_node.name != node_name and quad.m_node.name != node_name and quad.n_node.name != node_name}
 
+        # Remove the node and the elements from any meshes they were part of
+        for mesh in self.meshes.values():
+            mesh.elements = {name: element for name, element in mesh.elements.items() if node_name not in (element.i_node.name, element.j_node.name, element.m_node.name, element.n_node.name)}
+            mesh.nodes = {name: node for name, node in mesh.nodes.items() if node.name != node_name}
+
         # Flag the model as unsolved
         self.solution = None
 
-- 
2.43.0


From 0aac549f5e9344df0c3ae31d1255efadcd13c6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:49 +0000
Subject: [PATCH 35/47] fix: merge_duplicate_nodes returns the names of the
 removed nodes, as documented

---
 PyNite/FEModel3D.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PyNite/FEModel3D.py b/PyNite/FEModel3D.py
index e34a265..769d7b5 100644
--- a/PyNite/FEModel3D.py
+++ b/PyNite/FEModel3D.py
@@ -837,6 +837,9 @@ class FEModel3D():
         # Flag the model as unsolved
         self.solution = None
 
+        # Return the names of the removed nodes
+        return remove_list
+
     def delete_node(self, node_name):
         """Removes a node from the model. All nodal loads associated with the node and elements attached to the node will also be removed.
 
-- 
2.43.0


From 3878dc5aa2ef9e9c9373a1169bb51a46b02997df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:38 +0000
Subject: [PATCH 36/47] fix: a load combination keeps its own copy of the given
 factors

---
 PyNite/LoadCombo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyNite/LoadCombo.py b/PyNite/LoadCombo.py
index 1a6f8b4..b6cabd4 100644
--- a/PyNite/LoadCombo.py
+++ b/PyNite/LoadCombo.py
@@ -15,7 +15,7 @@ class LoadCombo():
         
         self.name = name             # A unique user-defined name for the load combination
         self.combo_tags = combo_tags   # Used to categorize the load combination (e.g. strength or serviceability)
-        self.factors = {} if factors is None else factors       # A dictionary containing each load case name and associated load factor
+        self.factors = {} if factors is None else dict(factors)       # A dictionary containing each load case name and associated load factor
     
     def AddLoadCase(self, case_name, factor):
         '''
-- 
2.43.0


From 480fc4c9c1fe4b49a1518bc1fb607f78a16da9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:30 +0000
Subject: [PATCH 37/47] fix: report the end forces of a subdivided physical
 member from its end sub-members

---
 PyNite/PhysMember.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/PyNite/PhysMember.py b/PyNite/PhysMember.py
index 0a1efb3..366784a 100644
--- a/PyNite/PhysMember.py
+++ b/PyNite/PhysMember.py
@@ -565,6 +565,22 @@ class PhysMember(Member3D):
 
         return vstack((x_array, array([result(x) for x in x_array])))
 
+    def f(self, combo_name='Combo 1', push_combo='Push', step_num=1):
+        """
+        Returns the physical member's local end force vector. The forces at each end are the forces at
+        the end of the sub-member framing into that end.
+        """
+
+        # Prior to subdivision there are no sub-members to get the forces from
+        if not self.sub_members:
+            return super().f(combo_name, push_combo, step_num)
+
+        sub_members = list(self.sub_members.values())
+        fi = sub_members[0].f(combo_name, push_combo, step_num)
+        fj = sub_members[-1].f(combo_name, push_combo, step_num)
+
+        return vstack((fi[0:6, :], fj[6:12, :]))
+
     def find_member(self, x):
         """
         Returns the sub-member that the physical member's local point 'x' lies on, and 'x' modified for that sub-member's
-- 
2.43.0


From f7261777da3b272efd0d55a22d299ec6bae1f161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:23 +0000
Subject: [PATCH 38/47] fix: PyVista deformed shape leaves out members that are
 inactive in the combination

---
 PyNite/Rendering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyNite/Rendering.py b/PyNite/Rendering.py
index a769ade..2fcb853 100644
--- a/PyNite/Rendering.py
+++ b/PyNite/Rendering.py
@@ -626,7 +626,7 @@ class Renderer:
     def plot_deformed_member(self, member, scale_factor):
         
         # Determine if this member is active for each load combination
-        if member.active:
+        if member.active[self.combo_name]:
         
             L = member.L() # Member length
             T = member.T() # Member local transformation matrix
-- 
2.43.0


From 35d11b1e7a1a7bfabe5999a3dbd9182e20995c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:23 +0000
Subject: [PATCH 39/47] fix: rendering of plate loads by load case in models
 without members

---
 PyNite/Rendering.py     | 20 ++++++++++----------
 PyNite/Visualization.py | 22 +++++++++++-----------
 2 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/PyNite/Rendering.py b/PyNite/Rendering.py
index 2fcb853..8ec3bd0 100644
--- a/PyNite/Rendering.py
+++ b/PyNite/Rendering.py
@@ -959,17 +959,17 @@ class Renderer:
                         if abs(load[2]) > max_dist_load:
                             max_dist_load = abs(load[2])
                 
-                # Step through each plate
-                for plate in self.model.plates.values():
-            
-                    # Step through each plate load
-                    for load in plate.pressures:
-            
-                        if load[1] == self.case:
-                
-                            if abs(load[0]) > max_area_load:
-                                max_area_load = abs(load[0])
+            # Step through each plate
+            for plate in self.model.plates.values():
+        
+                # Step through each plate load
+                for load in plate.pressures:
+        
+                    if load[1] == self.case:
             
+                        if abs(load[0]) > max_area_load:
+                            max_area_load = abs(load[0])
+        
             # Step through each quad
             for quad in self.model.quads.values():
         
diff --git a/PyNite/Visualization.py b/PyNite/Visualization.py
index 7b813cb..9058088 100644
--- a/PyNite/Visualization.py
+++ b/PyNite/Visualization.py
@@ -2098,17 +2098,17 @@ def _MaxLoads(model, combo_name=None, case=None):
                     if abs(load[2]) > max_dist_load:
                         max_dist_load = abs(load[2])
             
-            # Step through each plate
-            for plate in model.plates.values():
-          
-                # Step through each plate load
-                for load in plate.pressures:
-          
-                    if load[1] == case:
-            
-                        if abs(load[0]) > max_area_load:
-                            max_area_load = abs(load[0])
-          
+        # Step through each plate
+        for plate in model.plates.values():
+      
+            # Step through each plate load
+            for load in plate.pressures:
+      
+                if load[1] == case:
+        
+                    if abs(load[0]) > max_area_load:
+                        max_area_load = abs(load[0])
+      
         # Step through each quad
         for quad in model.quads.values():
       
-- 
2.43.0


From 6aa1c012a0e530ca532e8777730951eecce56585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:32 +0000
Subject: [PATCH 40/47] fix: rendered surface pressures point the way they act

---
 PyNite/Rendering.py     | 6 +++---
 PyNite/Visualization.py | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/PyNite/Rendering.py b/PyNite/Rendering.py
index 8ec3bd0..40ff824 100644
--- a/PyNite/Rendering.py
+++ b/PyNite/Rendering.py
@@ -1124,10 +1124,10 @@ class Renderer:
                     load_value = load[0]*load_factors[load[1]]
                     
                     # Find the sign for this load. Intercept any divide by zero errors
-                    if load[0] == 0:
+                    if load_value == 0:
                         sign = 1
                     else:
-                        sign = abs(load[0])/load[0]
+                        sign = abs(load_value)/load_value
             
                     # Find the position of the load's 4 corners
                     position0 = [plate.i_node.X, plate.i_node.Y, plate.i_node.Z]
@@ -1136,7 +1136,7 @@ class Renderer:
                     position3 = [plate.n_node.X, plate.n_node.Y, plate.n_node.Z]
             
                     # Create an area load and get its data
-                    self.plot_area_load(position0, position1, position2, position3, dir_cos*sign, load_value/max_area_load*5*self.annotation_size, str(sig_fig_round(load_value, 3)), color='green')
+                    self.plot_area_load(position0, position1, position2, position3, dir_cos*sign, abs(load_value)/max_area_load*5*self.annotation_size, str(sig_fig_round(load_value, 3)), color='green')
 
 def _PerpVector(v):
     '''
diff --git a/PyNite/Visualization.py b/PyNite/Visualization.py
index 9058088..0726fcd 100644
--- a/PyNite/Visualization.py
+++ b/PyNite/Visualization.py
@@ -1746,10 +1746,10 @@ def _RenderLoads(model, renderer, annotation_size, combo_name, case, theme='defa
                 load_value = load[0]*load_factors[load[1]]
                 
                 # Find the sign for this load. Intercept any divide by zero errors
-                if load[0] == 0:
+                if load_value == 0:
                     sign = 1
                 else:
-                    sign = abs(load[0])/load[0]
+                    sign = abs(load_value)/load_value
           
                 # Find the position of the load's 4 corners
                 position0 = [plate.i_node.X, plate.i_node.Y, plate.i_node.Z]
-- 
2.43.0


From 3d3e5f1cb1856823216f96172c3315739a95370c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:12 +0000
Subject: [PATCH 41/47] fix: rendering skips loads that are zero instead of
 dividing by them

---
 PyNite/Rendering.py     | 15 +++++++++++++++
 PyNite/Visualization.py | 15 +++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/PyNite/Rendering.py b/PyNite/Rendering.py
index 40ff824..7682145 100644
--- a/PyNite/Rendering.py
+++ b/PyNite/Rendering.py
@@ -1010,6 +1010,10 @@ class Renderer:
                     # Calculate the factored value for this load and it's sign (positive or
                     # negative)
                     load_value = load[1]*load_factors[load[2]]
+
+                    # There is nothing to display for a load that is zero
+                    if load_value == 0: continue
+
                     if load_value != 0:
                         sign = load_value/abs(load_value)
                     else:
@@ -1045,6 +1049,10 @@ class Renderer:
             
                     # Calculate the factored value for this load and it's sign (positive or negative)
                     load_value = load[1]*load_factors[load[3]]
+
+                    # There is nothing to display for a load that is zero
+                    if load_value == 0: continue
+
                     sign = load_value/abs(load_value)
             
                     # Calculate the load's location in 3D space
@@ -1086,6 +1094,9 @@ class Renderer:
                     # Calculate the factored value for this load and it's sign (positive or negative)
                     w1 = load[1]*load_factors[load[5]]
                     w2 = load[2]*load_factors[load[5]]
+
+                    # There is nothing to display for a load that is zero
+                    if w1 == 0 and w2 == 0: continue
             
                     # Calculate the loads location in 3D space
                     x1 = load[3]
@@ -1122,6 +1133,10 @@ class Renderer:
             
                     # Calculate the factored value for this load
                     load_value = load[0]*load_factors[load[1]]
+
+                    # There is nothing to display for a load that is zero
+                    if load_value == 0: continue
+
                     
                     # Find the sign for this load. Intercept any divide by zero errors
                     if load_value == 0:
diff --git a/PyNite/Visualization.py b/PyNite/Visualization.py
index 0726fcd..6335c36 100644
--- a/PyNite/Visualization.py
+++ b/PyNite/Visualization.py
@@ -1616,6 +1616,10 @@ def _RenderLoads(model, renderer, annotation_size, combo_name, case, theme='defa
               
                 # Calculate the factored value for this load and it's sign (positive or negative)
                 load_value = load[1]*load_factors[load[2]]
+
+                # There is nothing to display for a load that is zero
+                if load_value == 0: continue
+
                 if load_value != 0:
                     sign = load_value/abs(load_value)
                 else:
@@ -1656,6 +1660,10 @@ def _RenderLoads(model, renderer, annotation_size, combo_name, case, theme='defa
         
                 # Calculate the factored value for this load and it's sign (positive or negative)
                 load_value = load[1]*load_factors[load[3]]
+
+                # There is nothing to display for a load that is zero
+                if load_value == 0: continue
+
                 sign = load_value/abs(load_value)
           
                 # Calculate the load's location in 3D space
@@ -1701,6 +1709,9 @@ def _RenderLoads(model, renderer, annotation_size, combo_name, case, theme='defa
                 # Calculate the factored value for this load and it's sign (positive or negative)
                 w1 = load[1]*load_factors[load[5]]
                 w2 = load[2]*load_factors[load[5]]
+
+                # There is nothing to display for a load that is zero
+                if w1 == 0 and w2 == 0: continue
           
                 # Calculate the loads location in 3D space
                 x1 = load[3]
@@ -1744,6 +1755,10 @@ def _RenderLoads(model, renderer, annotation_size, combo_name, case, theme='defa
         
                 # Calculate the factored value for this load
                 load_value = load[0]*load_factors[load[1]]
+
+                # There is nothing to display for a load that is zero
+                if load_value == 0: continue
+
                 
                 # Find the sign for this load. Intercept any divide by zero errors
                 if load_value == 0:
-- 
2.43.0


From 6edd7675b9140447ea846c5205464565b3eb042a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:47 +0000
Subject: [PATCH 42/47] fix: VTK contours show the requested load combination's
 plate results

---
 PyNite/Visualization.py | 64 ++++++++++++++++++++---------------------
 1 file changed, 32 insertions(+), 32 deletions(-)

diff --git a/PyNite/Visualization.py b/PyNite/Visualization.py
index 6335c36..4664386 100644
--- a/PyNite/Visualization.py
+++ b/PyNite/Visualization.py
@@ -1464,45 +1464,45 @@ def _PrepContour(model, stress_type='Mx', combo_name='Combo 1'):
                 element.m_node.contour.append(m)
                 element.n_node.contour.append(n)
             elif stress_type == 'Mx':
-                element.i_node.contour.append(element.moment(r_left, s_bot, combo_name)[0])
-                element.j_node.contour.append(element.moment(r_right, s_bot, combo_name)[0])
-                element.m_node.contour.append(element.moment(r_right, s_top, combo_name)[0])
-                element.n_node.contour.append(element.moment(r_left, s_top, combo_name)[0])
+                element.i_node.contour.append(element.moment(r_left, s_bot, True, combo_name)[0])
+                element.j_node.contour.append(element.moment(r_right, s_bot, True, combo_name)[0])
+                element.m_node.contour.append(element.moment(r_right, s_top, True, combo_name)[0])
+                element.n_node.contour.append(element.moment(r_left, s_top, True, combo_name)[0])
             elif stress_type == 'My':
-                element.i_node.contour.append(element.moment(r_left, s_bot, combo_name)[1])
-                element.j_node.contour.append(element.moment(r_right, s_bot, combo_name)[1])
-                element.m_node.contour.append(element.moment(r_right, s_top, combo_name)[1])
-                element.n_node.contour.append(element.moment(r_left, s_top, combo_name)[1])
+                element.i_node.contour.append(element.moment(r_left, s_bot, True, combo_name)[1])
+                element.j_node.contour.append(element.moment(r_right, s_bot, True, combo_name)[1])
+                element.m_node.contour.append(element.moment(r_right, s_top, True, combo_name)[1])
+                element.n_node.contour.append(element.moment(r_left, s_top, True, combo_name)[1])
             elif stress_type == 'Mxy':
-                element.i_node.contour.append(element.moment(r_left, s_bot, combo_name)[2])
-                element.j_node.contour.append(element.moment(r_right, s_bot, combo_name)[2])
-                element.m_node.contour.append(element.moment(r_right, s_top, combo_name)[2])
-                element.n_node.contour.append(element.moment(r_left, s_top, combo_name)[2])
+                element.i_node.contour.append(element.moment(r_left, s_bot, True, combo_name)[2])
+                element.j_node.contour.append(element.moment(r_right, s_bot, True, combo_name)[2])
+                element.m_node.contour.append(element.moment(r_right, s_top, True, combo_name)[2])
+                element.n_node.contour.append(element.moment(r_left, s_top, True, combo_name)[2])
             elif stress_type == 'Qx':
-                element.i_node.contour.append(element.shear(r_left, s_bot, combo_name)[0])
-                element.j_node.contour.append(element.shear(r_right, s_bot, combo_name)[0])
-                element.m_node.contour.append(element.shear(r_right, s_top, combo_name)[0])
-                element.n_node.contour.append(element.shear(r_left, s_top, combo_name)[0])
+                element.i_node.contour.append(element.shear(r_left, s_bot, True, combo_name)[0])
+                element.j_node.contour.append(element.shear(r_right, s_bot, True, combo_name)[0])
+                element.m_node.contour.append(element.shear(r_right, s_top, True, combo_name)[0])
+                element.n_node.contour.append(element.shear(r_left, s_top, True, combo_name)[0])
             elif stress_type == 'Qy':
-                element.i_node.contour.append(element.shear(r_left, s_bot, combo_name)[1])
-                element.j_node.contour.append(element.shear(r_right, s_bot, combo_name)[1])
-                element.m_node.contour.append(element.shear(r_right, s_top, combo_name)[1])
-                element.n_node.contour.append(element.shear(r_left, s_top, combo_name)[1])
+                element.i_node.contour.append(element.shear(r_left, s_bot, True, combo_name)[1])
+                element.j_node.contour.append(element.shear(r_right, s_bot, True, combo_name)[1])
+                element.m_node.contour.append(element.shear(r_right, s_top, True, combo_name)[1])
+                element.n_node.contour.append(element.shear(r_left, s_top, True, combo_name)[1])
             elif stress_type == 'Sx':
-                element.i_node.contour.append(element.membrane(r_left, s_bot, combo_name)[0])
-                element.j_node.contour.append(element.membrane(r_right, s_bot, combo_name)[0])
-                element.m_node.contour.append(element.membrane(r_right, s_top, combo_name)[0])
-                element.n_node.contour.append(element.membrane(r_left, s_top, combo_name)[0])
+                element.i_node.contour.append(element.membrane(r_left, s_bot, True, combo_name)[0])
+                element.j_node.contour.append(element.membrane(r_right, s_bot, True, combo_name)[0])
+                element.m_node.contour.append(element.membrane(r_right, s_top, True, combo_name)[0])
+                element.n_node.contour.append(element.membrane(r_left, s_top, True, combo_name)[0])
             elif stress_type == 'Sy':
-                element.i_node.contour.append(element.membrane(r_left, s_bot, combo_name)[1])
-                element.j_node.contour.append(element.membrane(r_right, s_bot, combo_name)[1])
-                element.m_node.contour.append(element.membrane(r_right, s_top, combo_name)[1])
-                element.n_node.contour.append(element.membrane(r_left, s_top, combo_name)[1])
+                element.i_node.contour.append(element.membrane(r_left, s_bot, True, combo_name)[1])
+                element.j_node.contour.append(element.membrane(r_right, s_bot, True, combo_name)[1])
+                element.m_node.contour.append(element.membrane(r_right, s_top, True, combo_name)[1])
+                element.n_node.contour.append(element.membrane(r_left, s_top, True, combo_name)[1])
             elif stress_type == 'Txy':
-                element.i_node.contour.append(element.membrane(r_left, s_bot, combo_name)[2])
-                element.j_node.contour.append(element.membrane(r_right, s_bot, combo_name)[2])
-                element.m_node.contour.append(element.membrane(r_right, s_top, combo_name)[2])
-                element.n_node.contour.append(element.membrane(r_left, s_top, combo_name)[2])                 
+                element.i_node.contour.append(element.membrane(r_left, s_bot, True, combo_name)[2])
+                element.j_node.contour.append(element.membrane(r_right, s_bot, True, combo_name)[2])
+                element.m_node.contour.append(element.membrane(r_right, s_top, True, combo_name)[2])
+                element.n_node.contour.append(element.membrane(r_left, s_top, True, combo_name)[2])                 
       
         # Average the values at each node to obtain a smoothed contour
         for node in model.nodes.values():
-- 
2.43.0


From 15611d72763679eb25f6cd5990b19e88b7471c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:47 +0000
Subject: [PATCH 43/47] fix: VTK contours of a quad's displacement are at its
 own nodes

---
 PyNite/Visualization.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/PyNite/Visualization.py b/PyNite/Visualization.py
index 4664386..2bfb64b 100644
--- a/PyNite/Visualization.py
+++ b/PyNite/Visualization.py
@@ -1453,12 +1453,7 @@ def _PrepContour(model, stress_type='Mx', combo_name='Combo 1'):
       
             # Determine which stress result has been requested by the user
             if stress_type == 'dz':
-                # Internally PyNite defines the nodes for a rectangular element in the order (i, j, m, n),
-                # while it defines the nodes for a quadrilateral element in the order (m, n, i, j)
-                if element.type == 'Rect':
-                    i, j, m, n = element.d(combo_name)[[2, 8, 14, 20], :]
-                else:
-                    i, j, m, n = element.d(combo_name)[[14, 20, 2, 8], :]
+                i, j, m, n = element.d(combo_name)[[2, 8, 14, 20], :]
                 element.i_node.contour.append(i)
                 element.j_node.contour.append(j)
                 element.m_node.contour.append(m)
-- 
2.43.0


From 8d20f29f4920c8481970385c3e7773bdcaaed880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:56 +0000
Subject: [PATCH 44/47] fix: reports list the results of the analyzed load
 combinations

---
 PyNite/Reporting.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PyNite/Reporting.py b/PyNite/Reporting.py
index 15b12a8..1264ee1 100644
--- a/PyNite/Reporting.py
+++ b/PyNite/Reporting.py
@@ -58,6 +58,9 @@ def create_report(model, output_filepath=path/'./Pynite Report.pdf', **kwargs):
     kwargs['plates'] = model.plates.values()
     kwargs['quads'] = model.quads.values()
 
+    # Results are reported for the load combinations that have been analyzed
+    kwargs['load_combos'] = [combo for combo in model.load_combos if all(combo in node.DX for node in model.nodes.values())]
+
     # Create the report HTML using jinja2
     HTML = template.render(**kwargs)
 
-- 
2.43.0


From f76c609455d08cf6306ddd1c91be092361017f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:56 +0000
Subject: [PATCH 45/47] fix: reports show the plate results of each load
 combination

---
 PyNite/Report_Template.html | 172 ++++++++++++++++++------------------
 1 file changed, 86 insertions(+), 86 deletions(-)

diff --git a/PyNite/Report_Template.html b/PyNite/Report_Template.html
index 402b681..a06a731 100644
--- a/PyNite/Report_Template.html
+++ b/PyNite/Report_Template.html
@@ -393,29 +393,29 @@
                 <tr>
                     <td>{{ plate.name }}</td>
                     <td>{{ combo }}</td>
-                    <td>{{ "%.3g" | format(plate.shear(0, 0, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.shear(0, 0, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(0, 0, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(0, 0, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(0, 0, combo)[2][0]) }}</td>
-
-                    <td>{{ "%.3g" | format(plate.shear(0, plate.height(), combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.shear(0, plate.height(), combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(0, plate.height(), combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(0, plate.height(), combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(0, plate.height(), combo)[2][0]) }}</td>
-
-                    <td>{{ "%.3g" | format(plate.shear(plate.width(), plate.height(), combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.shear(plate.width(), plate.height(), combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(plate.width(), plate.height(), combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(plate.width(), plate.height(), combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(plate.width(), plate.height(), combo)[2][0]) }}</td>
-
-                    <td>{{ "%.3g" | format(plate.shear(plate.width(), 0, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.shear(plate.width(), 0, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(plate.width(), 0, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(plate.width(), 0, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(plate.width(), 0, combo)[2][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.shear(0, 0, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.shear(0, 0, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(0, 0, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(0, 0, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(0, 0, True, combo)[2][0]) }}</td>
+
+                    <td>{{ "%.3g" | format(plate.shear(0, plate.height(), True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.shear(0, plate.height(), True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(0, plate.height(), True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(0, plate.height(), True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(0, plate.height(), True, combo)[2][0]) }}</td>
+
+                    <td>{{ "%.3g" | format(plate.shear(plate.width(), plate.height(), True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.shear(plate.width(), plate.height(), True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(plate.width(), plate.height(), True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(plate.width(), plate.height(), True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(plate.width(), plate.height(), True, combo)[2][0]) }}</td>
+
+                    <td>{{ "%.3g" | format(plate.shear(plate.width(), 0, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.shear(plate.width(), 0, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(plate.width(), 0, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(plate.width(), 0, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(plate.width(), 0, True, combo)[2][0]) }}</td>
                 </tr>
                 {% endfor %}
 
@@ -423,29 +423,29 @@
                 <tr>
                     <td>{{ quad.name }}</td>
                     <td>{{ combo }}</td>
-                    <td>{{ "%.3g" | format(quad.shear(-1, -1, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.shear(-1, -1, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(-1, -1, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(-1, -1, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(-1, -1, combo)[2][0]) }}</td>
-
-                    <td>{{ "%.3g" | format(quad.shear(1, -1, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.shear(1, -1, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(1, -1, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(1, -1, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(1, -1, combo)[2][0]) }}</td>
-
-                    <td>{{ "%.3g" | format(quad.shear(1, 1, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.shear(1, 1, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(1, 1, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(1, 1, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(1, 1, combo)[2][0]) }}</td>
-
-                    <td>{{ "%.3g" | format(quad.shear(-1, 1, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.shear(-1, 1, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(-1, 1, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(-1, 1, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(-1, 1, combo)[2][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.shear(-1, -1, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.shear(-1, -1, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(-1, -1, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(-1, -1, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(-1, -1, True, combo)[2][0]) }}</td>
+
+                    <td>{{ "%.3g" | format(quad.shear(1, -1, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.shear(1, -1, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(1, -1, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(1, -1, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(1, -1, True, combo)[2][0]) }}</td>
+
+                    <td>{{ "%.3g" | format(quad.shear(1, 1, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.shear(1, 1, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(1, 1, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(1, 1, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(1, 1, True, combo)[2][0]) }}</td>
+
+                    <td>{{ "%.3g" | format(quad.shear(-1, 1, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.shear(-1, 1, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(-1, 1, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(-1, 1, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(-1, 1, True, combo)[2][0]) }}</td>
                 </tr>
                 {% endfor %}
             {% endfor %}
@@ -477,11 +477,11 @@
                 <tr>
                     <td>{{ plate.name }}</td>
                     <td>{{ combo }}</td>
-                    <td>{{ "%.3g" | format(plate.shear(plate.width()/2, plate.height()/2, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.shear(plate.width()/2, plate.height()/2, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(plate.width()/2, plate.height()/2, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(plate.width()/2, plate.height()/2, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(plate.width()/2, plate.height()/2, combo)[2][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.shear(plate.width()/2, plate.height()/2, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.shear(plate.width()/2, plate.height()/2, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(plate.width()/2, plate.height()/2, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(plate.width()/2, plate.height()/2, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(plate.width()/2, plate.height()/2, True, combo)[2][0]) }}</td>
                 </tr>
                 {% endfor %}
 
@@ -489,11 +489,11 @@
                 <tr>
                     <td>{{ quad.name }}</td>
                     <td>{{ combo }}</td>
-                    <td>{{ "%.3g" | format(quad.shear(0, 0, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.shear(0, 0, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(0, 0, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(0, 0, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(0, 0, combo)[2][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.shear(0, 0, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.shear(0, 0, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(0, 0, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(0, 0, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(0, 0, True, combo)[2][0]) }}</td>
                 </tr>
                 {% endfor %}
 
@@ -543,21 +543,21 @@
                     <td>{{ plate.name }}</td>
                     <td>{{ combo }}</td>
 
-                    <td>{{ "%.3g" | format(plate.membrane(0, 0, combo)[0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(0, 0, combo)[1]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(0, 0, combo)[2]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(0, 0, True, combo)[0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(0, 0, True, combo)[1]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(0, 0, True, combo)[2]) }}</td>
 
-                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), combo)[0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), combo)[1]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), combo)[2]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), True, combo)[0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), True, combo)[1]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), True, combo)[2]) }}</td>
 
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), plate.height(), combo)[0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), plate.height(), combo)[1]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), plate.height(), combo)[2]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), plate.height(), True, combo)[0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), plate.height(), True, combo)[1]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), plate.height(), True, combo)[2]) }}</td>
 
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, combo)[0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, combo)[1]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, combo)[2]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, True, combo)[0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, True, combo)[1]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, True, combo)[2]) }}</td>
                 </tr>
                 {% endfor %}
 
@@ -566,21 +566,21 @@
                     <td>{{ quad.name }}</td>
                     <td>{{ combo }}</td>
 
-                    <td>{{ "%.3g" | format(quad.membrane(-1, -1, combo)[0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(-1, -1, combo)[1]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(-1, -1, combo)[2]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(-1, -1, True, combo)[0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(-1, -1, True, combo)[1]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(-1, -1, True, combo)[2]) }}</td>
 
-                    <td>{{ "%.3g" | format(quad.membrane(1, -1, combo)[0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(1, -1, combo)[1]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(1, -1, combo)[2]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(1, -1, True, combo)[0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(1, -1, True, combo)[1]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(1, -1, True, combo)[2]) }}</td>
 
-                    <td>{{ "%.3g" | format(quad.membrane(1, 1, combo)[0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(1, 1, combo)[1]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(1, 1, combo)[2]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(1, 1, True, combo)[0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(1, 1, True, combo)[1]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(1, 1, True, combo)[2]) }}</td>
 
-                    <td>{{ "%.3g" | format(quad.membrane(-1, 1, combo)[0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(-1, 1, combo)[1]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(-1, 1, combo)[2]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(-1, 1, True, combo)[0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(-1, 1, True, combo)[1]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(-1, 1, True, combo)[2]) }}</td>
                 </tr>
                 {% endfor %}
             {% endfor %}
@@ -608,9 +608,9 @@
                 <tr>
                     <td>{{ plate.name }}</td>
                     <td>{{ combo }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width()/2, plate.height()/2, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width()/2, plate.height()/2, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width()/2, plate.height()/2, combo)[2][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width()/2, plate.height()/2, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width()/2, plate.height()/2, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width()/2, plate.height()/2, True, combo)[2][0]) }}</td>
                 </tr>
                 {% endfor %}
 
@@ -618,9 +618,9 @@
                 <tr>
                     <td>{{ quad.name }}</td>
                     <td>{{ combo }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(0, 0, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(0, 0, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(0, 0, combo)[2][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(0, 0, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(0, 0, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(0, 0, True, combo)[2][0]) }}</td>
                 </tr>
                 {% endfor %}
 
-- 
2.43.0


From 4af8864f859e3ed1f7ec0c914a1fd6d79e10e556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:56 +0000
Subject: [PATCH 46/47] fix: reports list the results of plate corners under
 their own nodes

---
 PyNite/Report_Template.html | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/PyNite/Report_Template.html b/PyNite/Report_Template.html
index a06a731..6f1f25d 100644
--- a/PyNite/Report_Template.html
+++ b/PyNite/Report_Template.html
@@ -399,11 +399,11 @@
                     <td>{{ "%.3g" | format(plate.moment(0, 0, True, combo)[1][0]) }}</td>
                     <td>{{ "%.3g" | format(plate.moment(0, 0, True, combo)[2][0]) }}</td>
 
-                    <td>{{ "%.3g" | format(plate.shear(0, plate.height(), True, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.shear(0, plate.height(), True, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(0, plate.height(), True, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(0, plate.height(), True, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(0, plate.height(), True, combo)[2][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.shear(plate.width(), 0, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.shear(plate.width(), 0, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(plate.width(), 0, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(plate.width(), 0, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(plate.width(), 0, True, combo)[2][0]) }}</td>
 
                     <td>{{ "%.3g" | format(plate.shear(plate.width(), plate.height(), True, combo)[0][0]) }}</td>
                     <td>{{ "%.3g" | format(plate.shear(plate.width(), plate.height(), True, combo)[1][0]) }}</td>
@@ -411,11 +411,11 @@
                     <td>{{ "%.3g" | format(plate.moment(plate.width(), plate.height(), True, combo)[1][0]) }}</td>
                     <td>{{ "%.3g" | format(plate.moment(plate.width(), plate.height(), True, combo)[2][0]) }}</td>
 
-                    <td>{{ "%.3g" | format(plate.shear(plate.width(), 0, True, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.shear(plate.width(), 0, True, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(plate.width(), 0, True, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(plate.width(), 0, True, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(plate.width(), 0, True, combo)[2][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.shear(0, plate.height(), True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.shear(0, plate.height(), True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(0, plate.height(), True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(0, plate.height(), True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(0, plate.height(), True, combo)[2][0]) }}</td>
                 </tr>
                 {% endfor %}
 
@@ -547,17 +547,17 @@
                     <td>{{ "%.3g" | format(plate.membrane(0, 0, True, combo)[1]) }}</td>
                     <td>{{ "%.3g" | format(plate.membrane(0, 0, True, combo)[2]) }}</td>
 
-                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), True, combo)[0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), True, combo)[1]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), True, combo)[2]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, True, combo)[0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, True, combo)[1]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, True, combo)[2]) }}</td>
 
                     <td>{{ "%.3g" | format(plate.membrane(plate.width(), plate.height(), True, combo)[0]) }}</td>
                     <td>{{ "%.3g" | format(plate.membrane(plate.width(), plate.height(), True, combo)[1]) }}</td>
                     <td>{{ "%.3g" | format(plate.membrane(plate.width(), plate.height(), True, combo)[2]) }}</td>
 
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, True, combo)[0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, True, combo)[1]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, True, combo)[2]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), True, combo)[0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), True, combo)[1]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), True, combo)[2]) }}</td>
                 </tr>
                 {% endfor %}
 
-- 
2.43.0


From f30c5ea337110f8f5f75f34ae15da33bf156f1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:56 +0000
Subject: [PATCH 47/47] fix: reports take scalar membrane stresses at the
 corners of plates

---
 PyNite/Report_Template.html | 48 ++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/PyNite/Report_Template.html b/PyNite/Report_Template.html
index 6f1f25d..aaf5777 100644
--- a/PyNite/Report_Template.html
+++ b/PyNite/Report_Template.html
@@ -543,21 +543,21 @@
                     <td>{{ plate.name }}</td>
                     <td>{{ combo }}</td>
 
-                    <td>{{ "%.3g" | format(plate.membrane(0, 0, True, combo)[0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(0, 0, True, combo)[1]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(0, 0, True, combo)[2]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(0, 0, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(0, 0, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(0, 0, True, combo)[2][0]) }}</td>
 
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, True, combo)[0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, True, combo)[1]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, True, combo)[2]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, True, combo)[2][0]) }}</td>
 
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), plate.height(), True, combo)[0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), plate.height(), True, combo)[1]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), plate.height(), True, combo)[2]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), plate.height(), True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), plate.height(), True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), plate.height(), True, combo)[2][0]) }}</td>
 
-                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), True, combo)[0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), True, combo)[1]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), True, combo)[2]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), True, combo)[2][0]) }}</td>
                 </tr>
                 {% endfor %}
 
@@ -566,21 +566,21 @@
                     <td>{{ quad.name }}</td>
                     <td>{{ combo }}</td>
 
-                    <td>{{ "%.3g" | format(quad.membrane(-1, -1, True, combo)[0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(-1, -1, True, combo)[1]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(-1, -1, True, combo)[2]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(-1, -1, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(-1, -1, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(-1, -1, True, combo)[2][0]) }}</td>
 
-                    <td>{{ "%.3g" | format(quad.membrane(1, -1, True, combo)[0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(1, -1, True, combo)[1]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(1, -1, True, combo)[2]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(1, -1, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(1, -1, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(1, -1, True, combo)[2][0]) }}</td>
 
-                    <td>{{ "%.3g" | format(quad.membrane(1, 1, True, combo)[0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(1, 1, True, combo)[1]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(1, 1, True, combo)[2]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(1, 1, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(1, 1, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(1, 1, True, combo)[2][0]) }}</td>
 
-                    <td>{{ "%.3g" | format(quad.membrane(-1, 1, True, combo)[0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(-1, 1, True, combo)[1]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(-1, 1, True, combo)[2]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(-1, 1, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(-1, 1, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(-1, 1, True, combo)[2][0]) }}</td>
                 </tr>
                 {% endfor %}
             {% endfor %}
-- 
2.43.0

