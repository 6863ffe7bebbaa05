From fd0c7f870184dd66c0611b54311e1710f7fe4d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:30 +0000
Subject: [PATCH 01/32] fix: store linear joint coordinates as floats

Integer gpos made integrate() fail on the in-place update.
---
 arboris/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arboris/core.py b/arboris/core.py
index 3417700..c6940b1 100644
--- a/arboris/core.py
+++ b/arboris/core.py
@@ -279,11 +279,11 @@ class LinearConfigurationSpaceJoint(Joint):
         if gpos is None:
             self.gpos = zeros(self.ndof)
         else:
-            self.gpos = array(gpos).reshape((self.ndof))
+            self.gpos = array(gpos, dtype=float).reshape((self.ndof))
         if gvel is None:
             self.gvel = zeros(self.ndof)
         else:
-            self.gvel = array(gvel).reshape((self.ndof))
+            self.gvel = array(gvel, dtype=float).reshape((self.ndof))
 
     def integrate(self, gvel, dt):
         self.gvel = gvel
-- 
2.43.0


From 9fe0bcae52d39773b0f8431c978d6ec764ee2ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:30 +0000
Subject: [PATCH 02/32] fix: NamedObjectsList.as_dict raises DuplicateNameError
 on duplicates

The exception was built without its mandatory message, giving a TypeError.
---
 arboris/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arboris/core.py b/arboris/core.py
index c6940b1..8deaf04 100644
--- a/arboris/core.py
+++ b/arboris/core.py
@@ -125,7 +125,8 @@ class NamedObjectsList(list):
                 if obj.name not in result:
                     result[obj.name] = obj
                 else:
-                    raise DuplicateNameError()
+                    raise DuplicateNameError(
+                        'Duplicate name: "{0}".'.format(obj.name))
         return result
 
 
-- 
2.43.0


From 95d7ab6031ad308079187348597db68a280e3d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:30 +0000
Subject: [PATCH 03/32] fix: name_all_elements checks unicity of generators too

The naming loop exhausted generators so duplicates went unnoticed.
---
 arboris/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arboris/core.py b/arboris/core.py
index 8deaf04..02bdd0b 100644
--- a/arboris/core.py
+++ b/arboris/core.py
@@ -141,6 +141,7 @@ class DuplicateNameError(Exception):
 
 def name_all_elements(nlist, check_unicity=False):
     # give a unique name for all unnamed elements
+    nlist = list(nlist) # nlist may be a generator, we iterate on it twice
     for elem in nlist: 
         if elem.name is None:
             elem.name = str(id(elem))
-- 
2.43.0


From d51de1909780e4ac62ce0bb84469b9c9bc971b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:30 +0000
Subject: [PATCH 04/32] fix: add_link rejects every kinematic loop, before
 touching the tree

A rejected call used to leave the joint attached, and linking a body to the
root of its own tree was accepted, giving an infinite recursion later.
---
 arboris/core.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/arboris/core.py b/arboris/core.py
index 02bdd0b..109b4a8 100644
--- a/arboris/core.py
+++ b/arboris/core.py
@@ -528,13 +528,15 @@ class World(NamedObject):
         assert joint.frame0 is None
         assert joint.frame1 is None
         assert len(args) % 3 == 0
-        joint.set_frames(frame0, frame1)
-        if frame1.body.parentjoint is None:
-            frame1.body.parentjoint = joint
-        else:
+        if frame1.body.parentjoint is not None \
+                or frame1.body is frame0.body \
+                or frame1.body in frame0.body.iter_ancestor_bodies():
             raise ValueError("frame1's body already has a parent joint, " + \
+            "or is an ancestor of frame0's body, " + \
             "which means you're probably trying to create a kinematic loop." + \
             "Try using a constraint instead.")
+        joint.set_frames(frame0, frame1)
+        frame1.body.parentjoint = joint
         frame0.body.childrenjoints.append(joint)
         self.register(frame0)
         self.register(frame1)
-- 
2.43.0


From e2505cc5086009557556419fb18a44f2cde4b7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:30 +0000
Subject: [PATCH 05/32] fix: subframes own their bpose

The caller's array was kept by reference, so writing a MovingSubFrame's bpose
also changed the caller's array and the frames sharing it.
---
 arboris/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/core.py b/arboris/core.py
index 109b4a8..37df2f1 100644
--- a/arboris/core.py
+++ b/arboris/core.py
@@ -1117,7 +1117,7 @@ class _SubFrame(NamedObject, Frame):
             bpose = eye(4)
 
         assert Hg.ishomogeneousmatrix(bpose)
-        self._bpose = bpose
+        self._bpose = array(bpose, dtype=float)
         if not(isinstance(body, Body)):
             raise ValueError(
             "The ``body`` argument must be an instance of the ``Boby`` class")
-- 
2.43.0


From 16e0acf760f64068b2582221339f677dbd327910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:30 +0000
Subject: [PATCH 06/32] fix: choose_solver accepts (Point, Box) as it does
 (Box, Point)

---
 arboris/collisions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arboris/collisions.py b/arboris/collisions.py
index eee6548..75917e4 100644
--- a/arboris/collisions.py
+++ b/arboris/collisions.py
@@ -58,6 +58,9 @@ def choose_solver(shape0, shape1):
         elif isinstance(shape1, Plane):
             shapes = (shape1, shape0)
             solver = plane_point_collision
+        elif isinstance(shape1, Box):
+            shapes = (shape1, shape0)
+            solver = box_point_collision
         else:
             raise NotImplementedError()
     elif isinstance(shape0, Plane):
-- 
2.43.0


From 85b8d30ac84ed50da6ab89fa560372b861801a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:30 +0000
Subject: [PATCH 07/32] fix: plane/sphere contact frames are given in the
 ground frame

They were expressed in the plane frame, the contact point was on the far side
of a penetrating sphere, and normals unitary up to rounding were rejected.
---
 arboris/collisions.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/arboris/collisions.py b/arboris/collisions.py
index 75917e4..56874a8 100644
--- a/arboris/collisions.py
+++ b/arboris/collisions.py
@@ -7,7 +7,7 @@
 __author__ = ("Sébastien BARTHÉLEMY <barthelemy@crans.org>")
 
 from numpy.linalg import norm
-from numpy        import zeros, argmin, dot, sign, arange
+from numpy        import zeros, argmin, dot, arange
 import arboris.homogeneousmatrix as Hg
 from   arboris.core   import Shape
 from   arboris.shapes import Plane, Point, Box, Sphere
@@ -280,16 +280,16 @@ def _plane_sphere_collision(H_g0, coeffs0, p_g1, radius1):
 
     """
     assert Hg.ishomogeneousmatrix(H_g0)
-    assert norm(coeffs0[0:3]) == 1.
+    assert abs(norm(coeffs0[0:3]) - 1.) < 1e-9
     assert radius1 >= 0.
-    normal = coeffs0[0:3] # the plane normal
+    normal = Hg.vdot(H_g0, coeffs0[0:3]) # plane normal, in the ground frame
     p_01 = Hg.pdot(Hg.inv(H_g0), p_g1)
-    csdist = dot(normal, p_01) - coeffs0[3] # signed distance from the center
+    csdist = dot(coeffs0[0:3], p_01) - coeffs0[3] # signed distance from the center
     sdist = csdist - radius1
     H_gc0 = Hg.zaligned(normal)
-    H_gc0[0:3, 3] = p_01 - csdist * normal
+    H_gc0[0:3, 3] = p_g1 - csdist * normal
     H_gc1 = H_gc0.copy()
-    H_gc1[0:3, 3] = p_01 - sign(sdist) * radius1 * normal
+    H_gc1[0:3, 3] = p_g1 - radius1 * normal
     return (sdist, H_gc0, H_gc1)
 
 def _box_sphere_collision(H_g0, half_extents0, p_g1, radius1):
-- 
2.43.0


From 5e4de5d60a4dd65141928fa29d24a8d34d0fbdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:30 +0000
Subject: [PATCH 08/32] fix: box/sphere contact normal is in the ground frame
 for inner centers too

---
 arboris/collisions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arboris/collisions.py b/arboris/collisions.py
index 56874a8..24e419a 100644
--- a/arboris/collisions.py
+++ b/arboris/collisions.py
@@ -377,6 +377,7 @@ def _box_sphere_collision(H_g0, half_extents0, p_g1, radius1):
         else:
             f_0[i-3] = -half_extents0[i-3]
             normal[i-3] = -1 #TODO check this line is correct
+        normal = Hg.vdot(H_g0, normal)
         f_g = Hg.pdot(H_g0, f_0)
         sdist = -norm(f_g - p_g1)-radius1
     else:
-- 
2.43.0


From b94e3d26eb1d712324adab2e17c0ab6592ce89a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:30 +0000
Subject: [PATCH 09/32] fix: EnergyMonitor ignores massless bodies

They have no principal frame, so init() failed on worlds such as human36.
---
 arboris/observers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/arboris/observers.py b/arboris/observers.py
index 9ae2896..6f00f7d 100644
--- a/arboris/observers.py
+++ b/arboris/observers.py
@@ -60,8 +60,9 @@ class EnergyMonitor(Observer):
         self.potential_energy   = []
         self.mechanichal_energy = []
         self._com_pos           = {}
-        self._bodies = self._world.ground.iter_descendant_bodies
-        for body in self._bodies():
+        self._bodies = [b for b in self._world.ground.iter_descendant_bodies()
+                        if b.mass[5, 5] > 0]
+        for body in self._bodies:
             self._com_pos[body]  = principalframe(body.mass)[:, 3]
 
     def update(self, dt):
@@ -70,7 +71,7 @@ class EnergyMonitor(Observer):
                  dot(self._world.mass, self._world.gvel) )/2.
         self.kinetic_energy.append(Ec)
         Ep = 0.
-        for body in self._bodies():
+        for body in self._bodies:
             h = dot( dot(body.pose, self._com_pos[body])[0:3], self._world.up)
             Ep += body.mass[3, 3] * h
         Ep *= 9.81
-- 
2.43.0


From 5f130cf4a51d4eedb8e8856c2e018b0e9abc5298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:30 +0000
Subject: [PATCH 10/32] fix: Hdf5Logger writes datasets with the shape of the
 saved data

The (nsteps, 4, 4) shape was assumed even for the state and the model.
---
 arboris/observers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/observers.py b/arboris/observers.py
index 6f00f7d..77e0166 100644
--- a/arboris/observers.py
+++ b/arboris/observers.py
@@ -394,7 +394,7 @@ class Hdf5Logger(SaveLogger):
         for elem in group_elements:
             g = self._h5_root.require_group(elem)
             for k, v in self._root[elem].items():
-                dset = g.require_dataset(k, (self._nb_steps, 4,4), "f8")
+                dset = g.require_dataset(k, v.shape, "f8")
                 dset[:] = v
 
         self._file.close()
-- 
2.43.0


From 0a18e3d9bd64e5f7145bcc9ce55fd37d95967425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:30 +0000
Subject: [PATCH 11/32] fix: CoMObserver djacobian when the com is not the body
 origin

The body origin moves relatively to the com when the body rotates.
---
 arboris/observers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/arboris/observers.py b/arboris/observers.py
index 77e0166..89282c3 100644
--- a/arboris/observers.py
+++ b/arboris/observers.py
@@ -4,7 +4,7 @@
 __author__ = ("Sébastien BARTHÉLEMY <barthelemy@crans.org>",
               "Joseph SALINI <joseph.salini@gmail.com>")
 
-from numpy import dot, zeros, arange
+from numpy import dot, zeros, arange, cross
 
 from arboris.core import Observer, MovingSubFrame, name_all_elements
 from arboris.massmatrix import principalframe
@@ -510,7 +510,8 @@ class CoMObserver(Observer):
 
                 ##### For dJacobian
                 T_com2_body = self.bodies[i].twist.copy()
-                T_com2_body[3:6] = 0.
+                T_com2_body[3:6] = cross(self.H_body_com[i][0:3, 3],
+                                         T_com2_body[0:3])
                 dAd_com2_body = dAdjoint(Ad_com2_body, T_com2_body)
                 dJ_com2 = dot(Ad_com2_body, self.bodies[i].djacobian) + dot(dAd_com2_body, self.bodies[i].jacobian)
                 self._CoMdJacobian[:] += self.mass[i] * dJ_com2[3:6,:]
-- 
2.43.0


From ec03f6c048a5f7bf5527027bb9475825b91e0e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:30 +0000
Subject: [PATCH 12/32] fix: sliding soft-finger contacts lie on the friction
 cone

The products of vectors in the eigenvalue problem were inner products instead
of outer ones, and its cross term had the wrong sign.
---
 arboris/constraints.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/arboris/constraints.py b/arboris/constraints.py
index eacbe42..26a00f8 100644
--- a/arboris/constraints.py
+++ b/arboris/constraints.py
@@ -6,7 +6,7 @@
 
 __author__ = ("Sébastien BARTHÉLEMY <barthelemy@crans.org>")
 
-from numpy        import array, zeros, eye, dot, diag, logical_and, arange
+from numpy        import array, zeros, eye, dot, outer, diag, logical_and, arange
 from numpy.linalg import solve, eigvals, pinv
 import arboris.homogeneousmatrix as Hg
 from   arboris.core       import MovingSubFrame, Constraint, Shape, World
@@ -753,7 +753,7 @@ class SoftFingerContact(PointContact):
                 0 & 0 & 0 & 0 & 0 & e_y^2
             \end{bmatrix}
             \begin{bmatrix}
-                Y_t - Y_c\;Y_c\tp/y_n + 2 \frac{\beta b\tp}{a}
+                Y_t - Y_c\;Y_c\tp/y_n - 2 \frac{\beta b\tp}{a}
                     & -\frac{\beta \beta\tp}{a^2} \\
                 b b\tp -
                 \begin{bmatrix}
@@ -821,16 +821,16 @@ class SoftFingerContact(PointContact):
                 b = self._mu/y_n * Y_c
                 B = zeros((6, 6))
                 E = diag(self._eps**2)
-                Y_that = Y_t - dot(Y_c, Y_c.T)/y_n
+                Y_that = Y_t - outer(Y_c, Y_c)/y_n
                 B[3:6, 3:6] = dot(E, Y_that)
-                B[0:3, 0:3] = dot(E, Y_that + 2/a*dot(beta, b.T))
-                B[0:3, 3:6] = -dot(E, dot(beta, beta.T)/(a**2))
-                B[3:6, 0:3] = dot(E, dot(b, b.T)) - eye(3)
+                B[0:3, 0:3] = dot(E, Y_that - 2/a*outer(beta, b))
+                B[0:3, 3:6] = -dot(E, outer(beta, beta)/(a**2))
+                B[3:6, 0:3] = dot(E, outer(b, b)) - eye(3)
 
                 # s is the real part of the eigenvalue with the smallest
                 # imaginary par within those with a positive real part
                 S = eigvals(B)
-                S = S[logical_and(S.imag == 0, S.real <= 0)]
+                S = S[logical_and(S.imag == 0, S.real <= 0)].real
                 if len(S)==0:
                     s = -1e10 #TODO: log when len(S)==0
                 else:
-- 
2.43.0


From ff455b23838ade6e95e6c910d2d8a1e38ac05591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:30 +0000
Subject: [PATCH 13/32] fix: principalframe returns a rotation when principal
 inertias are equal

---
 arboris/massmatrix.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/arboris/massmatrix.py b/arboris/massmatrix.py
index 7d3ef47..5330796 100644
--- a/arboris/massmatrix.py
+++ b/arboris/massmatrix.py
@@ -5,8 +5,8 @@
 __author__ = ("Sébastien BARTHÉLEMY <barthelemy@crans.org>")
 
 import arboris.homogeneousmatrix as Hg
-from   numpy        import diag, eye, dot, array, allclose
-from   numpy.linalg import eig, eigvals, det
+from   numpy        import diag, eye, dot, array, allclose, sign
+from   numpy.linalg import eig, eigvals, det, qr
 
 def ismassmatrix(M, semi=False):
     """ Check whether M is a valid mass matrix.
@@ -99,6 +99,9 @@ def principalframe(M):
     H[0:3, 3] = [rx[2, 1], rx[0, 2], rx[1, 0]]
     RSR = M[0:3, 0:3] + m*dot(rx, rx)
     [S, R] = eig(RSR)
+    # eig() does not orthogonalize within the eigenspaces
+    [R, T] = qr(R)
+    R = R*sign(diag(T))
     if det(R)<0.:
         iI = array([[0, 0, 1], [0, 1, 0], [1, 0, 0]])
         R = dot(R, iI)
-- 
2.43.0


From 244e6b7aa2b737f6e3439ddc41460ecf67abb697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:30 +0000
Subject: [PATCH 14/32] fix: human36 Suprasternale tag is at the middle of both
 sternoclaviculars

---
 arboris/robots/human36.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/robots/human36.py b/arboris/robots/human36.py
index 64fc054..b43bf39 100644
--- a/arboris/robots/human36.py
+++ b/arboris/robots/human36.py
@@ -374,7 +374,7 @@ def add_human36(world, height=1.741, mass=73, anat_lengths=None, prefix=''):
     add_tag('Left great trochanter', "ThighL",  [0, 0, -0.0941*h+L['zhip']/2.])
     add_tag('Left iliac crest', "LPT", [0.0271*h, 0.0366*h, -0.0697*h])
     add_tag('Substernale (Xyphoid)', "UPT", [0.1219*h, 0, 0])
-    add_tag('Suprasternale', "UPT", [(L['xsternoclavL']+L['xsternoclavL'])/2., (L['ysternoclavL']+L['ysternoclavL'])/2., 0])
+    add_tag('Suprasternale', "UPT", [(L['xsternoclavR']+L['xsternoclavL'])/2., (L['ysternoclavR']+L['ysternoclavL'])/2., 0])
     add_tag('Right acromion', "ScapulaR", [-L['xshoulderR'], 0.0198*h+L['yshoulderR'], L['zshoulderR']])
     add_tag('Right humeral lateral epicondyle (radiale)', "ArmR", [0., -L['yhumerusR'], 0.0211*h])
     add_tag('Right stylion', "ForearmR", [0., -0.1533*h, 0.0331*h])
-- 
2.43.0


From ccfae6e0ed76dbe6412f13418431e01bda050d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:55 +0000
Subject: [PATCH 15/32] fix: flat Drawer places moving subframes relatively to
 the ground

The body-relative pose was used for a child of the ground node.
---
 arboris/visu/world_drawer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/visu/world_drawer.py b/arboris/visu/world_drawer.py
index d6871d9..c48a39a 100644
--- a/arboris/visu/world_drawer.py
+++ b/arboris/visu/world_drawer.py
@@ -370,7 +370,7 @@ class Drawer(object):
             color = self._color_generator.get_color(obj)
             if self._flat is True:
                 node = self._add_frame(self._ground_node,
-                    obj.bpose, False, obj.name, color)
+                    obj.pose, False, obj.name, color)
             else:
                 node = self._add_frame(self.frame_nodes[obj.body],
                     obj.bpose, False, obj.name, color)
-- 
2.43.0


From 696f425d5db97810150373982f9f363d109c7482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:55 +0000
Subject: [PATCH 16/32] fix: PerfMonitor forgets the previous simulation at
 init

---
 arboris/observers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arboris/observers.py b/arboris/observers.py
index 89282c3..8707fb1 100644
--- a/arboris/observers.py
+++ b/arboris/observers.py
@@ -131,6 +131,7 @@ class PerfMonitor(Observer):
     def init(self, world, timeline):
         self._world     = world
         self._last_time = _time()
+        self._computation_time = []
 
     def update(self, dt):
         current_time = _time()
-- 
2.43.0


From c34a098b8d37bb82ba00b55efeb78faba4960f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:55 +0000
Subject: [PATCH 17/32] fix: isadjointmatrix tolerates rounding errors in the
 determinant

---
 arboris/adjointmatrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/adjointmatrix.py b/arboris/adjointmatrix.py
index ccddcb0..b359ec8 100644
--- a/arboris/adjointmatrix.py
+++ b/arboris/adjointmatrix.py
@@ -24,7 +24,7 @@ import numpy as np
 def isadjointmatrix(Ad):
     """ Return true if *Ad* is an adjoint matrix. """
     return (Ad.shape == (6, 6)) and (
-        np.linalg.det(Ad[0:3, 0:3])==1) and (
+        abs(np.linalg.det(Ad[0:3, 0:3])-1) <= 1e-9) and (
         Ad[0:3, 0:3]==Ad[3:6, 3:6]).all() and (
         Ad[0:3, 3:6]==np.zeros((3, 3))).all()
 
-- 
2.43.0


From a3db22a53862bf3737dd1096b21e3c25bb0858de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:54 +0000
Subject: [PATCH 18/32] fix: RigidMotion.itwist must transport the twist with
 the adjoint of the pose

---
 arboris/rigidmotion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/rigidmotion.py b/arboris/rigidmotion.py
index 48926cc..c76d905 100644
--- a/arboris/rigidmotion.py
+++ b/arboris/rigidmotion.py
@@ -46,7 +46,7 @@ class RigidMotion(object):
 
     @property
     def itwist(self):
-        return -dot(self.iadjoint, self.twist)
+        return -dot(self.adjoint, self.twist)
 
     @property
     def adjoint(self):
-- 
2.43.0


From 2af85892e6bd11e453bd36c124466903c9e95e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:05 +0000
Subject: [PATCH 19/32] fix: PD controller gathers the coordinates of joints
 with different ndof

---
 arboris/controllers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arboris/controllers.py b/arboris/controllers.py
index 11bcbcd..d794418 100644
--- a/arboris/controllers.py
+++ b/arboris/controllers.py
@@ -175,8 +175,8 @@ class ProportionalDerivativeController(Controller):
         gpos = []
         gvel = []
         for j in self.joints:
-            gpos.append(j.gpos)
-            gvel.append(j.gvel)
+            gpos.extend(j.gpos)
+            gvel.extend(j.gvel)
         gpos = array(gpos).reshape(self._cndof)
         gvel = array(gvel).reshape(self._cndof)
         gforce[self._dof_map] = \
-- 
2.43.0


From 0776f18dc8e4c7d0a2a8cc1fecfd1a141afd5e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:48 +0000
Subject: [PATCH 20/32] fix: enforce the limits of all the coordinates of a
 joint

JointLimits.solve only looked at the min limits as soon as one of them was
violated: the max limits of the other coordinates were ignored, and the
coupling between coordinates gave wrong forces.
---
 arboris/constraints.py | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/arboris/constraints.py b/arboris/constraints.py
index 26a00f8..ec83d72 100644
--- a/arboris/constraints.py
+++ b/arboris/constraints.py
@@ -72,24 +72,26 @@ class JointLimits(Constraint):
                (self._max-self._pos0<self._proximity).any()
 
     def solve(self, vel, admittance, dt):
-        pred = self._pos0 + dt*(vel - dot(admittance, self._force))
-        prev_force = self._force.copy()
-        # pos = self._pos0 + dt*(vel + admittance*dforce)
-        if (pred <= self._min).any():
-            # the min limit is violated, we want pos == min
-            self._force = dot(pinv(admittance), (self._min - pred)/dt)
-            self._force = self._force.clip(min=0)
-            dforce = self._force - prev_force
-        elif (self._max <= pred).any():
-            #the max limit is violated, we want pos == max
-            self._force = dot(pinv(admittance), (self._max - pred)/dt)
-            self._force = self._force.clip(max=0)
-            dforce = self._force - prev_force
-        else:
-            # the joint is within its limits, we ensure the
-            # generalized force is zero
-            dforce = -self._force
-            self._force[:] = 0.
+        # each coordinate has its own limits: they are solved one after the
+        # other, taking the new forces on the previous ones into account
+        dforce = zeros((self._joint.ndof,))
+        for i in arange(self._joint.ndof):
+            # pos = pred + dt*admittance[i,i]*force
+            pred = self._pos0[i] + dt*(vel[i] + dot(admittance[i, :], dforce)
+                                       - admittance[i, i]*self._force[i])
+            inv_adm = pinv(admittance[i:i+1, i:i+1])[0, 0]
+            if pred <= self._min[i]:
+                # the min limit is violated, we want pos == min
+                force = inv_adm*(self._min[i] - pred)/dt
+            elif self._max[i] <= pred:
+                #the max limit is violated, we want pos == max
+                force = inv_adm*(self._max[i] - pred)/dt
+            else:
+                # the joint is within its limits, we ensure the
+                # generalized force is zero
+                force = 0.
+            dforce[i] = force - self._force[i]
+            self._force[i] = force
         return dforce
 
 class BallAndSocketConstraint(Constraint):
-- 
2.43.0


From 15fef7f2e3051c9e2e346d89b8cf02beb9064a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:25 +0000
Subject: [PATCH 21/32] fix: accept any iterable of joints in
 ProportionalDerivativeController

---
 arboris/controllers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arboris/controllers.py b/arboris/controllers.py
index d794418..2f52e54 100644
--- a/arboris/controllers.py
+++ b/arboris/controllers.py
@@ -123,6 +123,7 @@ class ProportionalDerivativeController(Controller):
         Controller.__init__(self, name=name)
         self._cndof = 0
         dof_map = []
+        joints = list(joints)
         for j in joints:
             if not isinstance(j, LinearConfigurationSpaceJoint):
                 raise ValueError('Joints must be ' +\
-- 
2.43.0


From e15733d43eae061b5c78d1786a21f06857f3dcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:27 +0000
Subject: [PATCH 22/32] fix: refuse moving sub-frames named as another
 transform which is logged

---
 arboris/observers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/arboris/observers.py b/arboris/observers.py
index 8707fb1..8389925 100644
--- a/arboris/observers.py
+++ b/arboris/observers.py
@@ -262,16 +262,16 @@ class SaveLogger(Observer):
             self._arb_transforms     = {}
             self._transforms         = {}
             self._root['transforms'] = self._transforms
+            moving = list(self._world.itermovingsubframes())
             if self._flat:
-                name_all_elements(self._world.iterbodies(), True)
+                name_all_elements(list(self._world.iterbodies()) + moving, True)
                 for b in self._world.iterbodies():
                     self._arb_transforms[b.name] = b
             else:
                 nonflatlist = [j.frames[1] for j in self._world.getjoints()]
-                name_all_elements(nonflatlist, True)
+                name_all_elements(nonflatlist + moving, True)
                 for j in  self._world.getjoints():
                     self._arb_transforms[j.frames[1].name] = j
-            name_all_elements(self._world.itermovingsubframes(), True)
 
             for f in self._world.itermovingsubframes():
                 self._arb_transforms[f.name] = f
-- 
2.43.0


From fbdc77440bb3723d840792d0b59652037ea847ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:05:59 +0000
Subject: [PATCH 23/32] fix: say goodbye in bytes to the viewer, and only if
 there is one

---
 arboris/observers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arboris/observers.py b/arboris/observers.py
index 8389925..a00eb09 100644
--- a/arboris/observers.py
+++ b/arboris/observers.py
@@ -444,7 +444,8 @@ class SocketCom(Observer):
 
     def finish(self):
         try:
-            self.conn.send("close_connection")
+            if self.conn is not None:
+                self.conn.send(b"close_connection")
             self.s.close()
         except socket.error:
             pass
-- 
2.43.0


From 0e8141da0f0f3e46c4707b4e1b2a7d212c3a19d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:05:59 +0000
Subject: [PATCH 24/32] fix: send the transforms to daenim as bytes

---
 arboris/visu/visu_collada.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/arboris/visu/visu_collada.py b/arboris/visu/visu_collada.py
index 7c1b5f8..8f00241 100644
--- a/arboris/visu/visu_collada.py
+++ b/arboris/visu/visu_collada.py
@@ -208,7 +208,7 @@ class DaenimCom(SocketCom):
         """
         """
         if self.flat:
-            msg = b""
+            msg = ""
             for b in self.world.getbodies():
                 H = b.pose
                 msg += self.packing_transform(b.name, H)
@@ -223,13 +223,13 @@ class DaenimCom(SocketCom):
             msg += self.packing_transform(f.name, H)
 
         try:
-            self.conn.send(msg)
+            self.conn.send(msg.encode())
         except:
             print("DaenimCom not connected")
 
 
     def packing_transform(self, _name, _H):
-        res = " ".join([_name] + map(str, _H[0:3, :].reshape(12)))+"\n"
+        res = " ".join([_name] + list(map(str, _H[0:3, :].reshape(12))))+"\n"
         return res
 
 
-- 
2.43.0


From c6f065e4815f0271c0ed421672ce0a0b7aa45dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:16:37 +0000
Subject: [PATCH 25/32] fix: read and load urdf files with Python 3

---
 arboris/robots/urdf/__init__.py    | 12 ++++++------
 arboris/robots/urdf/urdf_parser.py | 17 ++++++++---------
 2 files changed, 14 insertions(+), 15 deletions(-)

diff --git a/arboris/robots/urdf/__init__.py b/arboris/robots/urdf/__init__.py
index 7c79482..bc78e1c 100644
--- a/arboris/robots/urdf/__init__.py
+++ b/arboris/robots/urdf/__init__.py
@@ -107,11 +107,11 @@ def to_arboris( obj , default=None):
             joint["type"] = arboris.joints.FixedJoint
 
         elif obj.joint_type == urdf_parser.Joint.FLOATING:
-            print "WARNING: urdf containt free joint; this joint is deprecated."
+            print("WARNING: urdf containt free joint; this joint is deprecated.")
             joint["type"] = arboris.joints.FreeJoint
 
         else:
-            raise KeyError, "Joint type: '"+obj.joint_type+"' is unknown or not not implemented yet."
+            raise KeyError("Joint type: '"+obj.joint_type+"' is unknown or not not implemented yet.")
 
         return joint
 
@@ -151,7 +151,7 @@ def to_arboris( obj , default=None):
             return default
 
     else:
-        print "WARNING: Cannot load object", obj.__class__, obj
+        print("WARNING: Cannot load object", obj.__class__, obj)
 
 
 
@@ -189,7 +189,7 @@ class URDFConverter(object):
         list_of_bodies = {}
 
         if self.robot is None:
-            raise ValueError, "no URDF file has been loaded"
+            raise ValueError("no URDF file has been loaded")
 
         # save all bodies
         for body_name, urdf_body in self.robot.links.items():
@@ -204,7 +204,7 @@ class URDFConverter(object):
             # visual shapes can be loaded later with function 'get_visual_shapes'
             collision = to_arboris(urdf_body.collision, None)
             
-            if collision and (collision["shape"] is not "mesh"):
+            if collision and (collision["shape"] != "mesh"):
 
                 H_body_shape = collision["transform"]
                 shape_frame = arboris.core.SubFrame( list_of_bodies[name], H_body_shape )
@@ -260,7 +260,7 @@ class URDFConverter(object):
                         world.register(constraint)
 
                 else:
-                    print "WARNING: cannot save joint limit constraint for joint "+joint_name+" ("+urdf_joint.joint_type+")"
+                    print("WARNING: cannot save joint limit constraint for joint "+joint_name+" ("+urdf_joint.joint_type+")")
 
 
         # connect the root body of the robot with the ground frame
diff --git a/arboris/robots/urdf/urdf_parser.py b/arboris/robots/urdf/urdf_parser.py
index 2939c64..42a8859 100644
--- a/arboris/robots/urdf/urdf_parser.py
+++ b/arboris/robots/urdf/urdf_parser.py
@@ -6,7 +6,6 @@
 # It has been modified by joseph salini (just one comment) to skip rospy import.
 # Also replace rospy.logwarn by warnings
 
-import string
 #import rospy
 import warnings
 import xml.dom.minidom
@@ -14,9 +13,9 @@ from xml.dom.minidom import Document
 
 def reindent(s, numSpaces):
     """Reindent a string for tree structure pretty printing."""
-    s = string.split(s, '\n')
+    s = s.split('\n')
     s = [(numSpaces * ' ') + line for line in s]
-    s = string.join(s, '\n')
+    s = '\n'.join(s)
     return s
 
 def add(doc, base, element):
@@ -232,7 +231,7 @@ class Mesh(Geometry):
             s = None
         else:
             xyz = node.getAttribute('scale').split()
-            s = map(float, xyz)
+            s = list(map(float, xyz))
         return Mesh(fn, s)
 
     def to_xml(self, doc):
@@ -575,10 +574,10 @@ class Pose(object):
         pose = Pose()
         if node.hasAttribute("xyz"):
             xyz = node.getAttribute('xyz').split()
-            pose.position = map(float, xyz)
+            pose.position = list(map(float, xyz))
         if node.hasAttribute("rpy"):
             rpy = node.getAttribute('rpy').split()
-            pose.rotation = map(float, rpy)
+            pose.rotation = list(map(float, rpy))
         return pose
 
     def to_xml(self, doc):
@@ -780,21 +779,21 @@ class URDF(object):
         if len(self.links) == 0:
             s += "None\n"
         else:
-            for k, v in self.links.iteritems():
+            for k, v in self.links.items():
                 s += "- Link '{0}':\n{1}\n".format(k, reindent(str(v), 1))
         s += "\n"
         s += "Joints:\n"
         if len(self.joints) == 0:
             s += "None\n"
         else:
-            for k, v in self.joints.iteritems():
+            for k, v in self.joints.items():
                 s += "- Joint '{0}':\n{1}\n".format(k, reindent(str(v), 1))
         s += "\n"
         s += "Materials:\n"
         if len(self.materials) == 0:
             s += "None\n"
         else:
-            for k, v in self.materials.iteritems():
+            for k, v in self.materials.items():
                 s += "- Material '{0}':\n{1}\n".format(k, reindent(str(v), 1))
 
         return s
-- 
2.43.0


From 7da158e9ad2086e6239e1d3cfbb0c2ce63a2324a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:16:37 +0000
Subject: [PATCH 26/32] fix: write the mimic element of urdf joints

---
 arboris/robots/urdf/urdf_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arboris/robots/urdf/urdf_parser.py b/arboris/robots/urdf/urdf_parser.py
index 42a8859..700ed01 100644
--- a/arboris/robots/urdf/urdf_parser.py
+++ b/arboris/robots/urdf/urdf_parser.py
@@ -363,6 +363,7 @@ class Joint(object):
         add(doc, xml, self.dynamics)
         add(doc, xml, self.safety)
         add(doc, xml, self.calibration)
+        add(doc, xml, self.mimic)
         return xml
 
 
-- 
2.43.0


From 59172ca070e30bf87eb1c1c8e50d13d29faf4574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:16:37 +0000
Subject: [PATCH 27/32] fix: load urdf robots whose names get a prefix or a
 suffix

---
 arboris/robots/urdf/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/arboris/robots/urdf/__init__.py b/arboris/robots/urdf/__init__.py
index bc78e1c..4fe5691 100644
--- a/arboris/robots/urdf/__init__.py
+++ b/arboris/robots/urdf/__init__.py
@@ -231,8 +231,8 @@ class URDFConverter(object):
             joint = to_arboris(urdf_joint)
             joint["type"].name = name
 
-            parent = list_of_bodies[joint["parent"]]
-            child  = list_of_bodies[joint["child"] ]
+            parent = list_of_bodies[self.prefix + joint["parent"] + self.suffix]
+            child  = list_of_bodies[self.prefix + joint["child"]  + self.suffix]
 
             if "H_child_joint" in joint: # it means the the axis is not along x, y or z
                 H_parent_joint = np.dot( joint["H_parent_child"], joint["H_child_joint"])
@@ -264,7 +264,7 @@ class URDFConverter(object):
 
 
         # connect the root body of the robot with the ground frame
-        root_body = list_of_bodies[self.robot.get_root()]
+        root_body = list_of_bodies[self.prefix + self.robot.get_root() + self.suffix]
         ground = world.ground
 
         if self.H_init is not None:
-- 
2.43.0


From 0a87856b46c9d21d748bfe7eaecc691bf8ff8a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:16:37 +0000
Subject: [PATCH 28/32] fix: load urdf robots which leave out optional elements

---
 arboris/robots/urdf/__init__.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/arboris/robots/urdf/__init__.py b/arboris/robots/urdf/__init__.py
index 4fe5691..454ccfb 100644
--- a/arboris/robots/urdf/__init__.py
+++ b/arboris/robots/urdf/__init__.py
@@ -50,7 +50,7 @@ def to_arboris( obj , default=None):
     if   isinstance(obj, urdf_parser.Link):
         body = arboris.core.Body()
         body.name = obj.name
-        body.mass = to_arboris(obj.inertial)
+        body.mass = to_arboris(obj.inertial, np.zeros((6,6)))
         return body
 
     elif isinstance(obj, urdf_parser.Inertial):
@@ -70,8 +70,10 @@ def to_arboris( obj , default=None):
         return arboris.massmatrix.transport(M_com, inv(H_body_com) )
 
     elif isinstance(obj, urdf_parser.Pose):
-        H          = arboris.homogeneousmatrix.transl( *obj.position)
-        H[0:3,0:3] = roll_pitch_yaw_to_rotation_matrix(*obj.rotation)
+        position   = [0., 0., 0.] if obj.position is None else obj.position
+        rotation   = [0., 0., 0.] if obj.rotation is None else obj.rotation
+        H          = arboris.homogeneousmatrix.transl(*position)
+        H[0:3,0:3] = roll_pitch_yaw_to_rotation_matrix(*rotation)
         return H
 
     elif isinstance(obj, urdf_parser.Joint):
@@ -79,7 +81,8 @@ def to_arboris( obj , default=None):
         joint["parent"]         = obj.parent
         joint["child"]          = obj.child
         joint["H_parent_child"] = to_arboris(obj.origin, np.eye(4))
-        axis = [float(v) for v in obj.axis.split()] if len(obj.axis.split())==3 else obj.axis
+        axis = "1 0 0" if obj.axis is None else obj.axis
+        axis = [float(v) for v in axis.split()] if len(axis.split())==3 else axis
 
         if   obj.joint_type == urdf_parser.Joint.REVOLUTE:
             if   (axis in ["x", "X"]) or ( np.allclose(axis, [1,0,0])):
@@ -251,6 +254,8 @@ class URDFConverter(object):
             if self.save_joint_limits is True:
 
                 if urdf_joint.joint_type in [urdf_parser.Joint.REVOLUTE, urdf_parser.Joint.PRISMATIC]:
+                    if urdf_joint.limits is None:
+                        continue
                     lower = urdf_joint.limits.lower
                     upper = urdf_joint.limits.upper
                     
@@ -331,6 +336,8 @@ class URDFConverter(object):
 
             name = self.prefix + joint_name + self.suffix
 
+            if urdf_joint.limits is None:
+                continue
             lower = urdf_joint.limits.lower
             upper = urdf_joint.limits.upper
             if (lower is not None) and (upper is not None):
@@ -345,6 +352,8 @@ class URDFConverter(object):
 
         for joint_name, urdf_joint in self.robot.joints.items():
 
+            if urdf_joint.limits is None:
+                continue
             name = self.prefix + joint_name + self.suffix
             effort_limits[name] = urdf_joint.limits.effort
 
@@ -357,6 +366,8 @@ class URDFConverter(object):
 
         for joint_name, urdf_joint in self.robot.joints.items():
 
+            if urdf_joint.limits is None:
+                continue
             name = self.prefix + joint_name + self.suffix
             velocity_limits[name] = urdf_joint.limits.velocity
 
-- 
2.43.0


From 70d9ac1f351c765d5b21b9b4c1278945179d1ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:22:36 +0000
Subject: [PATCH 29/32] fix: load urdf meshes with a scale

---
 arboris/robots/urdf/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/robots/urdf/__init__.py b/arboris/robots/urdf/__init__.py
index 454ccfb..41e3b9b 100644
--- a/arboris/robots/urdf/__init__.py
+++ b/arboris/robots/urdf/__init__.py
@@ -131,7 +131,7 @@ def to_arboris( obj , default=None):
 
     elif isinstance(obj, urdf_parser.Mesh):
         mesh_path = obj.filename
-        scale = 1 if obj.scale is None else [float(v) for v in obj.scale.split()]
+        scale = 1 if obj.scale is None else obj.scale
         return {"shape": "mesh", "mesh_from_urdf": mesh_path,  "scale": scale}
 
     elif isinstance(obj, urdf_parser.Box):
-- 
2.43.0


From 50c8ec7b41b797301ffca309308ed931003d432c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:43:30 +0000
Subject: [PATCH 30/32] fix: give viewers urdf boxes of the right size

---
 arboris/robots/urdf/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arboris/robots/urdf/__init__.py b/arboris/robots/urdf/__init__.py
index 41e3b9b..4503039 100644
--- a/arboris/robots/urdf/__init__.py
+++ b/arboris/robots/urdf/__init__.py
@@ -136,7 +136,7 @@ def to_arboris( obj , default=None):
 
     elif isinstance(obj, urdf_parser.Box):
         mesh_path = arboris_simple_shapes_path + "#simple_box_node"
-        scale     = obj.dims
+        scale     = [d/2. for d in obj.dims] # the box of simple_shapes.dae goes from -1 to 1
         return {"shape": "box", "mesh": mesh_path,  "scale": scale}
 
     elif isinstance(obj, urdf_parser.Sphere):
@@ -213,7 +213,7 @@ class URDFConverter(object):
                 shape_frame = arboris.core.SubFrame( list_of_bodies[name], H_body_shape )
 
                 if   collision["shape"] == "box":
-                    half_dims = np.array(collision["scale"])/2.
+                    half_dims = np.array(collision["scale"])
                     shape = arboris.shapes.Box( shape_frame, half_dims )
                 elif collision["shape"] == "sphere":
                     radius = collision["scale"]
-- 
2.43.0


From 6a71b423cd6598f2300c90a0cefed4eac7008c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:46:41 +0000
Subject: [PATCH 31/32] fix: give the collada drivers and the viewer command
 Python 3 syntax

---
 arboris/visu/__init__.py   |  2 +-
 arboris/visu/dae_writer.py | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/arboris/visu/__init__.py b/arboris/visu/__init__.py
index b09fab9..0b2a77c 100644
--- a/arboris/visu/__init__.py
+++ b/arboris/visu/__init__.py
@@ -80,7 +80,7 @@ def view(world, browser=None, **kwargs):
 
         write_collada_scene(world, collada_path)
 
-    elif isinstance(world, basestring):
+    elif isinstance(world, str):
         collada_path = world
 
     pydaenim.create_pydaenimViewer(collada_path, **kwargs)
diff --git a/arboris/visu/dae_writer.py b/arboris/visu/dae_writer.py
index 69ab969..4cb6437 100644
--- a/arboris/visu/dae_writer.py
+++ b/arboris/visu/dae_writer.py
@@ -100,7 +100,7 @@ def write_collada_animation_from_transforms(collada_animation, collada_scene, ti
         src_elem = E.source(id=idName)
         
         idName += "-array"
-        count = len(src_data)/16 if param_type=="float4x4" else len(src_data)
+        count = len(src_data)//16 if param_type=="float4x4" else len(src_data)
         
         if src_type == "float":
             str_src_data = " ".join([str(round(val, precision)) for val in src_data])+" "
@@ -183,7 +183,7 @@ def add_shapes_to_dae(input_file, added_shapes, output_file=None):
                     dae.nodes.append(child_shape_node)
 
             else:
-                print "warning: cannot find shapes for node: '",node_id, "'"
+                print("warning: cannot find shapes for node: '", node_id, "'")
 
     else:
         for mesh_info in added_shapes:
@@ -204,11 +204,11 @@ def add_shapes_to_dae(input_file, added_shapes, output_file=None):
 
              #check whether parent exist
             if parent_node_id not in dae_nodes:
-                print "warning: cannot find node in input file: '", parent_node_id, "'"
+                print("warning: cannot find node in input file: '", parent_node_id, "'")
 
              #check whether shape exists
             elif (shape_id != "") and (shape_id not in shapes_dae_nodes):
-                print "warning: cannot find shape in collada file: '", shape_id, "'"
+                print("warning: cannot find shape in collada file: '", shape_id, "'")
 
             else:
                  #create node that will contain scale, transform and instance_node
@@ -237,7 +237,7 @@ def add_shapes_to_dae(input_file, added_shapes, output_file=None):
                 if len(mesh_data) >= 4:
                     #add a scale tranform Node
                     scale = mesh_data[3]
-                    if isinstance(scale, (int, float, long)):
+                    if isinstance(scale, (int, float)):
                         scale = [scale]*3
                     instance_node.transforms.append(collada.scene.ScaleTransform(*scale))
 
@@ -348,7 +348,7 @@ class pydaenimColladaDriver(DrawerDriver):
                 new_name = name + "_{}".format(i)
                 if new_name not in self._names:
                     break
-            print "warning: name collision: "+name+": modify name to "+new_name
+            print("warning: name collision: "+name+": modify name to "+new_name)
         self._names.append(new_name)
         node = collada.scene.Node(new_name)
         return node
-- 
2.43.0


From f6eb3d8f58d61d66287cc90438b34f9450279d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:46:41 +0000
Subject: [PATCH 32/32] fix: start collada lines where they start

---
 arboris/visu/visu_collada.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/visu/visu_collada.py b/arboris/visu/visu_collada.py
index 8f00241..f98d3e6 100644
--- a/arboris/visu/visu_collada.py
+++ b/arboris/visu/visu_collada.py
@@ -125,8 +125,8 @@ class DaenimColladaDriver(pydaenimColladaDriver):
         H[0:3, 3] = start
         
         node = self._add_new_geometry(name, color, line_geom)
-        node.transforms.append(collada.scene.ScaleTransform(vector_norm, vector_norm, vector_norm))
         node.transforms.append(collada.scene.MatrixTransform(H.flatten()))
+        node.transforms.append(collada.scene.ScaleTransform(vector_norm, vector_norm, vector_norm))
 
         self._add_osg_description(node, "link")
 
-- 
2.43.0

