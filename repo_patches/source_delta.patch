From 64127c9f68727cf93122fd074c6f914b24a7cd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:10 +0000
Subject: [PATCH 01/20] fix: maximal velocity of a stencil is taken in norm,
 the halo of a non symmetric stencil was too small

---
 pylbm/stencil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylbm/stencil.py b/pylbm/stencil.py
index 38cb783..f5d7d79 100644
--- a/pylbm/stencil.py
+++ b/pylbm/stencil.py
@@ -716,7 +716,7 @@ class Stencil(list):
     def vmax(self):
         """the maximal velocity in norm for each spatial direction."""
         tmp = np.asarray([self.uvx, self.uvy, self.uvz])
-        return np.max(tmp[: self.dim], axis=1)
+        return np.max(np.abs(tmp[: self.dim]), axis=1)
 
     @property
     def vmin(self):
-- 
2.43.0


From 298265d3865e5bd1baf866a8773d03f10df929fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:25 +0000
Subject: [PATCH 02/20] fix: conserved moments declared in any order are put in
 front with their own equilibrium and rate

---
 pylbm/scheme.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pylbm/scheme.py b/pylbm/scheme.py
index 5b2cff4..bcfd10e 100644
--- a/pylbm/scheme.py
+++ b/pylbm/scheme.py
@@ -225,6 +225,12 @@ class Scheme:
     def _permute_consm_in_front(self):
         self.permutations = []
         for ic, c in enumerate(self.consm.values()):
+            # follow the moment if it was moved by the previous permutations
+            for i, j in self.permutations:
+                if c == i:
+                    c = j
+                elif c == j:
+                    c = i
             self.permutations.append([ic, c])
 
         for p in self.permutations:
-- 
2.43.0


From 6fc77264a1c557ae0c006a42fc66a435e850d7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:26 +0000
Subject: [PATCH 03/20] fix: kernels use the bounds of their own direction when
 the storage order permutes the space axes

---
 pylbm/algorithm/base.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pylbm/algorithm/base.py b/pylbm/algorithm/base.py
index 559b090..9627604 100644
--- a/pylbm/algorithm/base.py
+++ b/pylbm/algorithm/base.py
@@ -63,6 +63,7 @@ Therefore, for our example we have
 
 """
 
+import numpy as np
 import sympy as sp
 from sympy import Eq
 
@@ -188,6 +189,16 @@ class BaseAlgorithm:
             priority=self.sorder[1:],
         )
 
+    def _get_space_order(self, space_index):
+        """
+        Return the list of space indices in the order x, y, z
+        from the list ordered with sorder (the loop order).
+        """
+        space_order = list(space_index)
+        for index, i in zip(space_index, np.argsort(self.sorder[1:])):
+            space_order[i] = index
+        return space_order
+
     def _get_indexed_on_range(self, name, space_index):
         """
         Return a SymPy matrix of indexed objects
@@ -212,7 +223,7 @@ class BaseAlgorithm:
         return indexed(
             name,
             [self.ns, nx, ny, nz],
-            [nv] + space_index,
+            [nv] + self._get_space_order(space_index),
             velocities_index=range(self.ns),
             priority=self.sorder,
         )
@@ -243,7 +254,7 @@ class BaseAlgorithm:
         return indexed(
             name,
             [self.ns, nx, ny, nz],
-            [nv] + space_index,
+            [nv] + self._get_space_order(space_index),
             velocities=velocities,
             priority=self.sorder,
         )
-- 
2.43.0


From 7ad4100525a7cbec751d53630f719bc4aa47894f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:50 +0000
Subject: [PATCH 04/20] fix: source terms of several moments use the moments
 before the half step, whatever the order of the moments

---
 pylbm/algorithm/base.py | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/pylbm/algorithm/base.py b/pylbm/algorithm/base.py
index 9627604..45d7cdd 100644
--- a/pylbm/algorithm/base.py
+++ b/pylbm/algorithm/base.py
@@ -150,6 +150,14 @@ class BaseAlgorithm:
                         rhs = recursive_sub(v, to_subs)
                     self.source_eq.append((lhs, rhs))
 
+        # the half step of each source term is computed with the moments before
+        # the half step: local variables are needed if there are several of them.
+        self.source_vars = []
+        if len(self.source_eq) > 1:
+            self.source_vars = list(
+                sp.symbols("source_0:%d" % len(self.source_eq), real=True)
+            )
+
         self.vmax = [0] * 3
         self.vmax[: scheme.dim] = scheme.stencil.vmax
         self.local_vars = self.symb_coord_local[: self.dim]
@@ -492,7 +500,8 @@ class BaseAlgorithm:
             for i, ind in enumerate(indices):
                 local_dict[indices_str[i]] = ind
 
-        for lhs, rhs in self.source_eq:
+        code = []
+        for k, (lhs, rhs) in enumerate(self.source_eq):
             lhs_m = lhs.subs(list(zip(self.mv, m)))
             if isinstance(rhs, (float, int)):
                 rhs_m = rhs
@@ -500,10 +509,14 @@ class BaseAlgorithm:
                 rhs_m = parse_expr(rhs, local_dict)
             dummy = euler(lhs_m, rhs_m)
             if indices:
-                rhs_eq[lhs.i] = dummy.rhs.subs(ind_to_subs)
+                new_m = dummy.rhs.subs(ind_to_subs)
             else:
-                rhs_eq[lhs.i] = dummy.rhs
-        return [Eq(m, sp.Matrix(rhs_eq))]
+                new_m = dummy.rhs
+            if self.source_vars:
+                code.append(Eq(self.source_vars[k], new_m))
+                new_m = self.source_vars[k]
+            rhs_eq[lhs.i] = new_m
+        return [*code, Eq(m, sp.Matrix(rhs_eq))]
 
     def source_term(self):
         """
@@ -512,7 +525,10 @@ class BaseAlgorithm:
         """
         space_index = self._get_space_idx_inner()
         m = self._get_indexed_on_range("m", space_index)
-        return {"code": For(space_index, self.source_term_local(m))}
+        return {
+            "code": For(space_index, self.source_term_local(m)),
+            "local_vars": list(self.source_vars),
+        }
 
     def one_time_step_local(self, f, fnew, m):
         """
@@ -582,6 +598,7 @@ class BaseAlgorithm:
 
         if self.rel_vel_symb:
             local_vars.extend(self.rel_vel_symb)
+        local_vars.extend(self.source_vars)
 
         f = self._get_indexed_on_velocities("f", space_index, -self.all_velocities)
         fnew = self._get_indexed_on_range("fnew", space_index)
-- 
2.43.0


From 969e324bd183bf59124ab4857262ea20e9e67a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:47 +0000
Subject: [PATCH 05/20] fix: with a relative velocity the source terms act on
 the moments of the fixed frame and BaseAlgorithm restores the conserved
 moments

---
 pylbm/algorithm/base.py | 22 ++++++++++++++++++++--
 pylbm/algorithm/pull.py | 23 +++++++++++++++++++----
 2 files changed, 39 insertions(+), 6 deletions(-)

diff --git a/pylbm/algorithm/base.py b/pylbm/algorithm/base.py
index 45d7cdd..928077a 100644
--- a/pylbm/algorithm/base.py
+++ b/pylbm/algorithm/base.py
@@ -557,22 +557,40 @@ class BaseAlgorithm:
         """
         with_rel_velocity = True if self.rel_vel_symb else False
 
+        # the source terms act on the moments of the fixed frame
+        source_fixed_frame = with_rel_velocity and bool(self.source_eq)
+
         code = [self.transport_local(f, fnew)]
+
+        if source_fixed_frame:
+            code.append(self.f2m_local(fnew, m))
+            code.extend(self.source_term_local(m))
+            code.append(self.m2f_local(m, fnew))
+
         f2m = self.f2m_local(fnew, m, with_rel_velocity)
         if isinstance(f2m, list):
             code.extend(f2m)
         else:
             code.append(f2m)
 
-        if self.source_eq:
+        if self.source_eq and not with_rel_velocity:
             code.extend(self.source_term_local(m))
 
         code.append(self.relaxation_local(m, with_rel_velocity))
 
-        if self.source_eq:
+        if with_rel_velocity:
+            code.append(self.restore_conserved_moments(m, fnew))
+
+        if self.source_eq and not with_rel_velocity:
             code.extend(self.source_term_local(m))
 
         code.append(self.m2f_local(m, fnew, with_rel_velocity))
+
+        if source_fixed_frame:
+            code.append(self.f2m_local(fnew, m))
+            code.extend(self.source_term_local(m))
+            code.append(self.m2f_local(m, fnew))
+
         return code
 
     def one_time_step(self):
diff --git a/pylbm/algorithm/pull.py b/pylbm/algorithm/pull.py
index ab33a0f..0206822 100644
--- a/pylbm/algorithm/pull.py
+++ b/pylbm/algorithm/pull.py
@@ -37,13 +37,23 @@ class PullAlgorithm(BaseAlgorithm):
         """
         with_rel_velocity = True if self.rel_vel_symb else False
 
+        # the source terms act on the moments of the fixed frame
+        source_fixed_frame = with_rel_velocity and bool(self.source_eq)
+
+        code = []
+        if source_fixed_frame:
+            code.append(self.f2m_local(f, m))
+            code.extend(self.source_term_local(m))
+            code.append(self.m2f_local(m, fnew))
+            f = fnew
+
         f2m = self.f2m_local(f, m, with_rel_velocity)
         if isinstance(f2m, list):
-            code = f2m
+            code.extend(f2m)
         else:
-            code = [f2m]
+            code.append(f2m)
 
-        if self.source_eq:
+        if self.source_eq and not with_rel_velocity:
             code.extend(self.source_term_local(m))
 
         code.append(self.relaxation_local(m, with_rel_velocity))
@@ -51,9 +61,14 @@ class PullAlgorithm(BaseAlgorithm):
         if with_rel_velocity:
             code.append(self.restore_conserved_moments(m, f))
 
-        if self.source_eq:
+        if self.source_eq and not with_rel_velocity:
             code.extend(self.source_term_local(m))
 
         code.append(self.m2f_local(m, fnew, with_rel_velocity))
 
+        if source_fixed_frame:
+            code.append(self.f2m_local(fnew, m))
+            code.extend(self.source_term_local(m))
+            code.append(self.m2f_local(m, fnew))
+
         return code
-- 
2.43.0


From daa0d655d3e4fe9780a8dbe3f307ef6f4be62650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:34 +0000
Subject: [PATCH 06/20] fix: the relaxation in the moving frame evaluates the
 equilibrium with the conserved moments of the fixed frame, whatever their
 rates

---
 pylbm/algorithm/base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pylbm/algorithm/base.py b/pylbm/algorithm/base.py
index 928077a..c4b74c1 100644
--- a/pylbm/algorithm/base.py
+++ b/pylbm/algorithm/base.py
@@ -443,6 +443,11 @@ class BaseAlgorithm:
         if not isinstance(eq, SymbolicVector):
             eq = SymbolicVector(eq)
         relax = (1 - self.s) * m + self.s * eq
+        if with_rel_velocity:
+            # the conserved moments are those of the fixed frame here, used by the
+            # equilibrium: they are restored in the moving frame after the relaxation
+            for i in range(len(self.consm)):
+                relax[i] = m[i]
         alltogether(relax)
         return Eq(m, relax)
 
-- 
2.43.0


From 8d6f3a6616e5e26e3f0d46132a47bd92ab2f1c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:17 +0000
Subject: [PATCH 07/20] fix: domain and storage without velocity in one
 direction

---
 pylbm/domain.py  |  2 +-
 pylbm/storage.py | 15 ++++++++++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/pylbm/domain.py b/pylbm/domain.py
index eae2ae4..69ce819 100644
--- a/pylbm/domain.py
+++ b/pylbm/domain.py
@@ -434,7 +434,7 @@ class Domain:
         # modification to avoid the case
         # with no velocity in one direction
         ind_beg = [k for k in halo_size]
-        ind_end = [-k if k > 0 else 1 for k in halo_size]
+        ind_end = [-k if k > 0 else None for k in halo_size]
         self.coords = [
             # self.coords_halo[k][halo_size[k]:-halo_size[k]]
             self.coords_halo[k][ind_beg[k] : ind_end[k]]
diff --git a/pylbm/storage.py b/pylbm/storage.py
index 2cf7e47..bf70e70 100644
--- a/pylbm/storage.py
+++ b/pylbm/storage.py
@@ -147,7 +147,7 @@ class Array:
     def _in(self, key):
         ind = []
         for vmax in self.vmax:
-            ind.append(slice(vmax, -vmax))
+            ind.append(slice(vmax, -vmax if vmax > 0 else None))
         ind = np.asarray(ind)
 
         if self.gpu_support:
@@ -246,6 +246,12 @@ class Array:
         self.recv_type = []
 
         for d in range(dim):  # pylint: disable=invalid-name
+            if vmax[d] == 0:
+                # no velocity in this direction: no ghost points to update
+                self.send_type.extend([None, None])
+                self.recv_type.extend([None, None])
+                continue
+
             subsizes = [nv] + nspace
             subsizes[d + 1] = vmax[d]
             subsizes = swap(subsizes)
@@ -299,8 +305,9 @@ class Array:
             )
 
         for send, recv in zip(self.send_type, self.recv_type):
-            send.Commit()
-            recv.Commit()
+            if send is not None:
+                send.Commit()
+                recv.Commit()
 
     # pylint: disable=possibly-unused-variable
     @monitor
@@ -332,6 +339,8 @@ class Array:
 
         else:
             for d in range(self.dim):  # pylint: disable=invalid-name
+                if self.vmax[d] == 0:
+                    continue
                 req = []
 
                 req.append(
-- 
2.43.0


From 10138955231a4cd993fa42a978fa556e1c700805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:33 +0000
Subject: [PATCH 08/20] fix: a periodic border does not hide the wall met by
 the same link

---
 pylbm/domain.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/pylbm/domain.py b/pylbm/domain.py
index 69ce819..eee3730 100644
--- a/pylbm/domain.py
+++ b/pylbm/domain.py
@@ -479,9 +479,17 @@ class Domain:
         if self.compute_normal:
             norm_view = self.normal[tuple(phys_domain_vect)]
 
-        def new_indices(dvik, iuv, indices, dist_view):
+        def new_indices(dvik, iuv, indices, lab):
             new_ind = copy.deepcopy(indices)
-            ind = np.where(dist_view[tuple(indices)] > dvik)
+            # the first wall is kept: a periodic border (label -1)
+            # never hides a wall
+            flag = flag_view[tuple(indices)]
+            nearer = dist_view[tuple(indices)] > dvik
+            if lab == -1:
+                unset = np.logical_or(flag == self.valin, flag == -1)
+                ind = np.where(np.logical_and(nearer, unset))
+            else:
+                ind = np.where(np.logical_or(nearer, flag == -1))
             i = 1
             for j in range(self.dim):
                 if j != iuv:
@@ -502,7 +510,7 @@ class Domain:
                     for i in range(-vk):
                         indices[iuvel + 1] = i
                         dvik = -(i + 0.5) / vk
-                        nind = new_indices(dvik, iuvel, indices, dist_view)
+                        nind = new_indices(dvik, iuvel, indices, label[2 * iuvel])
                         dist_view[tuple(nind)] = dvik
                         flag_view[tuple(nind)] = label[2 * iuvel]
                         if self.compute_normal:
@@ -512,7 +520,9 @@ class Domain:
                     for i in range(vk):
                         indices[iuvel + 1] = -i - 1
                         dvik = (i + 0.5) / vk
-                        nind = new_indices(dvik, iuvel, indices, dist_view)
+                        nind = new_indices(
+                            dvik, iuvel, indices, label[2 * iuvel + 1]
+                        )
                         dist_view[tuple(nind)] = dvik
                         flag_view[tuple(nind)] = label[2 * iuvel + 1]
                         if self.compute_normal:
-- 
2.43.0


From f5f03565979c88461e2d1175cd385170d4be9833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:06 +0000
Subject: [PATCH 09/20] fix: the bounds of a cylinder contain its whole height
 (the axis w spans -w to w)

---
 pylbm/elements/cylinder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylbm/elements/cylinder.py b/pylbm/elements/cylinder.py
index d458b59..b34a72c 100644
--- a/pylbm/elements/cylinder.py
+++ b/pylbm/elements/cylinder.py
@@ -59,7 +59,7 @@ class Cylinder(Element):
             minimal box where the cylinder is included
 
         """
-        lw = [0.5 * abs(self.w[k]) for k in range(len(self.w))]
+        lw = [abs(self.w[k]) for k in range(len(self.w))]
         bounds_base = self.base.get_bounds()
         return bounds_base[0] - lw, bounds_base[1] + lw
 
-- 
2.43.0


From d80e75494a71fabd1c94ffbaf3ee84f5a2c3dcb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:06 +0000
Subject: [PATCH 10/20] fix: distance to lines on 3D grids with one point in
 the first two directions

---
 pylbm/elements/utils.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pylbm/elements/utils.py b/pylbm/elements/utils.py
index 69abdcb..640905d 100644
--- a/pylbm/elements/utils.py
+++ b/pylbm/elements/utils.py
@@ -47,10 +47,7 @@ def distance_lines(x, y, v, p, vt, dmax, label, normal):
     # Warning: the shape can be
     #   - (x.size, y.size) for the 2D geometries
     #   - x.shape = y.shape for the 3D geometries
-    if x.shape[1] == 1 and y.shape[0] == 1:
-        shape = (x.size, y.size)
-    else:
-        shape = x.shape
+    shape = np.broadcast(x, y).shape
     v2 = [x, y]
     alpha = tgv * np.ones(shape)
     border = -np.ones(shape)
-- 
2.43.0


From a31370187382ccedcce99a5c25749bacebe29016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:57 +0000
Subject: [PATCH 11/20] fix: cylinders: unit normal vectors orthogonal to the
 surface and opposite to the direction, distance without dmax

---
 pylbm/elements/cylinder.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/pylbm/elements/cylinder.py b/pylbm/elements/cylinder.py
index b34a72c..3f579d7 100644
--- a/pylbm/elements/cylinder.py
+++ b/pylbm/elements/cylinder.py
@@ -166,14 +166,17 @@ class Cylinder(Element):
         normal_cyl_z[ind] = 0
 
         # considering the two planes
+        tmax = 1.0e16 if dmax is None else dmax
         dummyf = self.base.point_inside
         if v_cyl[2] == 0:  # to avoid vertical velocities
             decal = 1.0e-16
         else:
             decal = 0.0
+        # the normal vector is opposite to v
+        sense = 1.0 if v_cyl[2] < 0 else -1.0
         alpha_top = (1.0 - z_cyl) / (v_cyl[2] + decal)
         ind = np.logical_or(
-            np.logical_or(alpha_top < 0, alpha_top > dmax),
+            np.logical_or(alpha_top < 0, alpha_top > tmax),
             np.logical_not(
                 dummyf((x_cyl + alpha_top * v_cyl[0], y_cyl + alpha_top * v_cyl[1]))
             ),
@@ -181,7 +184,7 @@ class Cylinder(Element):
         alpha_top[ind] = 1.0e16
         alpha_bot = -(1.0 + z_cyl) / (v_cyl[2] + decal)
         ind = np.logical_or(
-            np.logical_or(alpha_bot < 0, alpha_bot > dmax),
+            np.logical_or(alpha_bot < 0, alpha_bot > tmax),
             np.logical_not(
                 dummyf((x_cyl + alpha_bot * v_cyl[0], y_cyl + alpha_bot * v_cyl[1]))
             ),
@@ -195,23 +198,32 @@ class Cylinder(Element):
         border[ind] = self.label[-1]
         normal_cyl_x[ind] = 0.0
         normal_cyl_y[ind] = 0.0
-        normal_cyl_z[ind] = 1.0
+        normal_cyl_z[ind] = sense
         # fix the bottom
         ind = alpha == alpha_bot
         border[ind] = self.label[-2]
         normal_cyl_x[ind] = 0.0
         normal_cyl_y[ind] = 0.0
-        normal_cyl_z[ind] = -1.0
+        normal_cyl_z[ind] = sense
         # fix the distance
         alpha[alpha == 1.0e16] = -1.0
         # rewritte the normal vector in the initial frame
+        # (the normal vectors are covectors) and normalize it
         normal_vect = np.zeros(normal_cyl.shape)
         for k in range(3):
             normal_vect[..., k] = (
-                self.A[k, 0] * normal_cyl_x
-                + self.A[k, 1] * normal_cyl_y
-                + self.A[k, 2] * normal_cyl_z
+                self.iA[0, k] * normal_cyl_x
+                + self.iA[1, k] * normal_cyl_y
+                + self.iA[2, k] * normal_cyl_z
             )
+        norm_normal = np.sqrt(
+            normal_vect[..., 0] ** 2
+            + normal_vect[..., 1] ** 2
+            + normal_vect[..., 2] ** 2
+        )
+        norm_normal[norm_normal == 0] = 1.0
+        for k in range(3):
+            normal_vect[..., k] /= norm_normal
 
         return alpha, border, normal_vect
 
-- 
2.43.0


From 3a54860835823d063cb4773b3221e0542fa1a82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:22 +0000
Subject: [PATCH 12/20] fix: an element far from the domain is ignored (the
 slices had negative or crossed ends)

---
 pylbm/domain.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pylbm/domain.py b/pylbm/domain.py
index eee3730..ff16e01 100644
--- a/pylbm/domain.py
+++ b/pylbm/domain.py
@@ -548,6 +548,9 @@ class Domain:
         nmin = np.maximum(vmax, tmp)
         tmp = np.array((elem_ur - phys_bl) / self.dx, int) + vmax + 1
         nmax = np.minimum(vmax + self.shape_in, tmp)
+        if np.any(nmax <= nmin):
+            # the element is too far from the domain to be seen
+            return
 
         # set the grid
         space_slice = [slice(imin, imax) for imin, imax in zip(nmin, nmax)]
-- 
2.43.0


From e2e96645ecea78ceeb5301b53b4b23bbe787107f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:22 +0000
Subject: [PATCH 13/20] fix: no distance recorded for solid points, no normal
 left on the links between fluid points

---
 pylbm/domain.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pylbm/domain.py b/pylbm/domain.py
index ff16e01..12b1ee4 100644
--- a/pylbm/domain.py
+++ b/pylbm/domain.py
@@ -568,8 +568,8 @@ class Domain:
 
         if not elem.isfluid:  # add a solid part
             ind_solid = elem.point_inside(grid)
-            ind_fluid = np.logical_not(ind_solid)
             ioo_view[ind_solid] = self.valout
+            ind_fluid = ioo_view == self.valin
         else:  # add a fluid part
             ind_fluid = elem.point_inside(grid)
             ind_solid = np.logical_not(ind_fluid)
@@ -609,6 +609,8 @@ class Domain:
                     )
                     dist_view[k][border_to_interior] = self.valin
                     flag_view[k][border_to_interior] = self.valin
+                    if self.compute_normal:
+                        norm_view[k][border_to_interior] = 0
                 else:
                     dist_view[k][ind_solid] = self.valin
                     flag_view[k][ind_solid] = self.valin
-- 
2.43.0


From 295e23fface6666d740ba566b5c6f45478795005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:22 +0000
Subject: [PATCH 14/20] fix: the points of a fluid element see the walls of the
 box again

---
 pylbm/domain.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/pylbm/domain.py b/pylbm/domain.py
index 12b1ee4..975122b 100644
--- a/pylbm/domain.py
+++ b/pylbm/domain.py
@@ -294,9 +294,13 @@ class Domain:
 
         # compute the distance and the flag for the primary box
         self.__add_init(self.box_label)
+        # the walls of the box, seen again from the points of the fluid elements
+        box = None
+        if any(elem.isfluid for elem in self.geom.list_elem):
+            box = self.distance.copy(), self.flag.copy(), self.normal.copy()
         for elem in self.geom.list_elem:
             # treat each element of the geometry
-            self.__add_elem(elem)
+            self.__add_elem(elem, box)
 
         self.clean()
         log.info(self.__str__())
@@ -530,7 +534,7 @@ class Domain:
                             norm_view[tuple(nind + [iuvel])] = 1
 
     # pylint: disable=too-many-locals
-    def __add_elem(self, elem):
+    def __add_elem(self, elem, box):
         """
         Add an element
 
@@ -554,6 +558,7 @@ class Domain:
 
         # set the grid
         space_slice = [slice(imin, imax) for imin, imax in zip(nmin, nmax)]
+        view = tuple(space_slice)
         total_slice = [slice(None)] + space_slice
         total_slice_vect = [slice(None)] + space_slice + [slice(None)]
         # local view of the arrays
@@ -634,6 +639,17 @@ class Domain:
                     for i in range(self.dim):
                         norm_view[k][tuple(ind + [i])] = -normvect[tuple(ind + [i])]
 
+                if elem.isfluid:
+                    # the walls of the box are met if nothing stops the link before
+                    box_dist, box_flag, box_norm = [b[k][view] for b in box]
+                    ind_box = np.logical_or(alpha <= 0, box_dist + 1e-10 < dist_view[k])
+                    ind_box = np.logical_and(ind_box, np.logical_and(ind_fluid, out_cells))
+                    dist_view[k][ind_box] = box_dist[ind_box]
+                    flag_view[k][ind_box] = box_flag[ind_box]
+                    if self.compute_normal:
+                        for i in range(self.dim):
+                            norm_view[k][..., i][ind_box] = box_norm[..., i][ind_box]
+
     def clean(self):
         """
         clean the domain when multiple elements are added
-- 
2.43.0


From 827bae252ba189960e20933bee2236705c41e378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:59 +0000
Subject: [PATCH 15/20] fix: Bouzidi boundary value must be weighted by 1/(2d)
 when the distance d is at least 1/2

---
 pylbm/boundary.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pylbm/boundary.py b/pylbm/boundary.py
index 52a67ec..5f907c7 100644
--- a/pylbm/boundary.py
+++ b/pylbm/boundary.py
@@ -564,7 +564,11 @@ class BouzidiBounceBack(BoundaryMethod):
         """
         k = self.istore[:, 0]
         ksym = self.stencil.get_symmetric()[k]
-        self.rhs[:] = self.feq[k, np.arange(k.size)] - self.feq[ksym, np.arange(k.size)]
+        # the boundary value has the same weight as the outgoing distribution
+        weight = np.where(self.distance < 0.5, 1.0, 0.5 / self.distance)
+        self.rhs[:] = weight * (
+            self.feq[k, np.arange(k.size)] - self.feq[ksym, np.arange(k.size)]
+        )
 
     # pylint: disable=too-many-locals
     def generate(self, sorder):
@@ -701,7 +705,11 @@ class BouzidiAntiBounceBack(BouzidiBounceBack):
         """
         k = self.istore[:, 0]
         ksym = self.stencil.get_symmetric()[k]
-        self.rhs[:] = self.feq[k, np.arange(k.size)] + self.feq[ksym, np.arange(k.size)]
+        # the boundary value has the same weight as the outgoing distribution
+        weight = np.where(self.distance < 0.5, 1.0, 0.5 / self.distance)
+        self.rhs[:] = weight * (
+            self.feq[k, np.arange(k.size)] + self.feq[ksym, np.arange(k.size)]
+        )
 
     # pylint: disable=too-many-locals
     def generate(self, sorder):
-- 
2.43.0


From 1e0d295b6678fceaeeeb22ecc2163fd130ac9c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:46 +0000
Subject: [PATCH 16/20] fix: Bouzidi anti bounce back reads the distributions
 before it writes them, as Bouzidi bounce back

---
 pylbm/boundary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylbm/boundary.py b/pylbm/boundary.py
index 5f907c7..a33a5d1 100644
--- a/pylbm/boundary.py
+++ b/pylbm/boundary.py
@@ -738,13 +738,13 @@ class BouzidiAntiBounceBack(BouzidiBounceBack):
             priority=sorder,
         )
         fload0 = indexed(
-            "f",
+            "fcopy",
             [ns, nx, ny, nz],
             index=[iload[0][idx, k] for k in range(dim + 1)],
             priority=sorder,
         )
         fload1 = indexed(
-            "f",
+            "fcopy",
             [ns, nx, ny, nz],
             index=[iload[1][idx, k] for k in range(dim + 1)],
             priority=sorder,
-- 
2.43.0


From 04edfcc035f5d33b5890e301ce211e67c80753fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:10 +0000
Subject: [PATCH 17/20] fix: keep moments and distributions consistent when a
 moment is written

Writing m_halo[i] while the moments were out of date left the other moments
stale, and the distribution functions never followed the written moment.
---
 pylbm/simulation.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pylbm/simulation.py b/pylbm/simulation.py
index 3cec720..13b1eca 100644
--- a/pylbm/simulation.py
+++ b/pylbm/simulation.py
@@ -209,8 +209,13 @@ class Simulation:
 
     @m_halo.setter
     def m_halo(self, i, value):
-        self._update_m = False
+        # the other moments must be those of the present distribution functions
+        if self._update_m:
+            self._update_m = False
+            self.f2m()
         self.container.m[i] = value
+        # and the distribution functions those of the new moments
+        self.m2f()
 
     @utils.itemproperty
     def m(self, i):
-- 
2.43.0


From e6f16f22f2d948cabd3e81aa8dc7a6d2b385898e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:10 +0000
Subject: [PATCH 18/20] fix: H5File: default path, uneven processes, XDMF
 dimensions

- the default path (current directory) could not be created;
- the local coordinates of processes of different sizes could not be gathered,
  nor a direction of one point be described;
- a vector of another type than double was sent as doubles;
- the XDMF topology was not in the order of the data sets and the vectors have
  three components.
---
 pylbm/hdf5.py | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/pylbm/hdf5.py b/pylbm/hdf5.py
index 4570391..8f13a64 100644
--- a/pylbm/hdf5.py
+++ b/pylbm/hdf5.py
@@ -40,10 +40,10 @@ class H5File:
         self.xdmf_file = None
 
         if mpi.COMM_WORLD.Get_rank() == 0:
-            if not os.path.exists(path):
+            if path and not os.path.exists(path):
                 os.mkdir(path)
 
-            self.h5file = h5py.File(path + "/" + self.h5filename, "w")
+            self.h5file = h5py.File(os.path.join(path, self.h5filename), "w")
 
         # All the processes wait for the creation of the output directory
         mpi.COMM_WORLD.Barrier()
@@ -77,15 +77,15 @@ class H5File:
             log.warning("h5 grid redefined.")
 
         self.origin = [x[0]]
-        self.dx = [x[1] - x[0]]
+        self.dx = [x[1] - x[0] if x.size > 1 else None]
         coords = [x]
         if y is not None:
             self.origin.append(y[0])
-            self.dx.append(y[1] - y[0])
+            self.dx.append(y[1] - y[0] if y.size > 1 else None)
             coords.append(y)
         if z is not None:
             self.origin.append(z[0])
-            self.dx.append(z[1] - z[0])
+            self.dx.append(z[1] - z[0] if z.size > 1 else None)
             coords.append(z)
 
         self.dim = len(self.origin)
@@ -103,7 +103,7 @@ class H5File:
             self.n[i] = comm.allreduce(coords[i].size, op=mpi.SUM)
             self.region.append(comm.gather(coords[i].size, root=0))
             self.global_size.append(np.sum(np.asarray(self.region[i])))
-            coords[i] = np.asarray(comm.gather(coords[i], root=0))
+            coords[i] = comm.gather(coords[i], root=0)
             comm.Free()
 
         if mpi.COMM_WORLD.Get_rank() == 0:
@@ -245,7 +245,11 @@ class H5File:
             self.vectors[name] = self.h5filename + ":/" + name
         else:
             for i, data in enumerate(datas):
-                comm.Send([np.ascontiguousarray(data.T), mpi.DOUBLE], dest=0, tag=i)
+                comm.Send(
+                    [np.ascontiguousarray(data.T, dtype=np.double), mpi.DOUBLE],
+                    dest=0,
+                    tag=i,
+                )
 
     def save(self):
         """
@@ -254,7 +258,9 @@ class H5File:
         comm = self.mpi_topo.cartcomm
         if comm.Get_rank() == 0:
             self.h5file.close()
-            self.xdmf_file = open(self.path + "/" + self.filename + ".xdmf", "w")
+            self.xdmf_file = open(
+                os.path.join(self.path, self.filename + ".xdmf"), "w"
+            )
             self.xdmf_file.write(
                 """<?xml version="1.0" ?>
 <!DOCTYPE Xdmf SYSTEM "Xdmf.dtd" []>
@@ -269,7 +275,7 @@ class H5File:
                     <Topology TopologyType="2DRectMesh" NumberOfElements="{0}"/>
                     <Geometry GeometryType="VXVY">
                 """.format(
-                        " ".join(map(str, self.global_size))
+                        " ".join(map(str, self.global_size[::-1]))
                     )
                 )
             else:
@@ -279,7 +285,7 @@ class H5File:
                     <Topology TopologyType="3DRectMesh" NumberOfElements="{0}"/>
                     <Geometry GeometryType="VXVYVZ">
                 """.format(
-                        " ".join(map(str, self.global_size))
+                        " ".join(map(str, self.global_size[::-1]))
                     )
                 )
             for i in range(self.dim):
@@ -312,12 +318,12 @@ class H5File:
                 self.xdmf_file.write(
                     """
                 <Attribute Name="{0}" AttributeType="Vector" Center="Node">
-                <DataItem Format="HDF" Dimensions="{1} {2}">
-                {3}
+                <DataItem Format="HDF" Dimensions="{1} 3">
+                {2}
                 </DataItem>
                 </Attribute>
                 """.format(
-                        k, " ".join(map(str, self.global_size[::-1])), self.dim, v
+                        k, " ".join(map(str, self.global_size[::-1])), v
                     )
                 )
 
-- 
2.43.0


From 7615aa015a5c1625522642b8f4d5f8777558f4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:10 +0000
Subject: [PATCH 19/20] fix: stability analysis: relative velocities, dimension
 3, root location

- with a relative velocity, the linearized equilibrium was applied to the
  relative conserved moments;
- no wave vector was defined in dimension 3;
- the coefficients decrease very fast through the Cohn-Schur recursion: compared
  to an absolute tolerance, polynomials with roots far outside the unit disc were
  found stable.
---
 pylbm/analysis/stability.py | 61 +++++++++++++++++++++++++++----------
 1 file changed, 45 insertions(+), 16 deletions(-)

diff --git a/pylbm/analysis/stability.py b/pylbm/analysis/stability.py
index 237d91a..c33762a 100644
--- a/pylbm/analysis/stability.py
+++ b/pylbm/analysis/stability.py
@@ -15,7 +15,8 @@ from .. import viewer
 from ..utils import print_progress
 from ..symbolic import rel_ux, rel_uy, rel_uz, recursive_sub
 
-TPV = 1.e-10
+# relative tolerance of the root location tests
+TPV = 3.0e-5
 
 
 class Stability:
@@ -47,18 +48,18 @@ class Stability:
         self.is_stable_l2 = True
         self.verbose = verbose
 
-        if scheme.rel_vel is None:
-            jacobian = scheme.EQ.jacobian(self.consm)
-        else:
-            jacobian = (scheme.Tu * scheme.EQ).jacobian(self.consm)
-        relax_mat_m = sp.eye(self.nvtot) - sp.diag(*scheme.s)
-        relax_mat_m[:, : len(self.consm)] += sp.diag(*scheme.s) * jacobian
-
+        # relaxation of the moments m: m + S (EQ - m) or, with a relative velocity u,
+        # m + T(-u) S T(u) (EQ - m), linearized around an equilibrium
+        relax_mat_s = sp.diag(*scheme.s)
         if scheme.rel_vel is not None:
-            relax_mat_m = scheme.Tmu * relax_mat_m * scheme.Tu
-            relax_mat_m = relax_mat_m.subs(
+            relax_mat_s = scheme.Tmu * relax_mat_s * scheme.Tu
+            relax_mat_s = relax_mat_s.subs(
                 [(i, j) for i, j in zip([rel_ux, rel_uy, rel_uz], scheme.rel_vel)]
             )
+        relax_mat_m = sp.eye(self.nvtot) - relax_mat_s
+        relax_mat_m[:, : len(self.consm)] += relax_mat_s * scheme.EQ.jacobian(
+            self.consm
+        )
         self.relax_mat_f = scheme.invM * relax_mat_m * scheme.M
         # alltogether(self.relax_mat_f)
 
@@ -87,6 +88,12 @@ class Stability:
             v_xi_x, v_xi_y = np.meshgrid(v_xi_0, v_xi_0)
             v_xi = np.array([v_xi_x.flatten(), v_xi_y.flatten()])
             n_wv = v_xi.shape[1]  # pylint: disable=unsubscriptable-object
+        elif self.dim == 3:
+            n_wv_0 = int(np.cbrt(n_wv))
+            v_xi_0 = np.linspace(0, 2 * np.pi, n_wv_0, endpoint=False)
+            v_xi_x, v_xi_y, v_xi_z = np.meshgrid(v_xi_0, v_xi_0, v_xi_0)
+            v_xi = np.array([v_xi_x.flatten(), v_xi_y.flatten(), v_xi_z.flatten()])
+            n_wv = v_xi.shape[1]  # pylint: disable=unsubscriptable-object
         eigs = np.empty((n_wv, self.nvtot), dtype="complex")
         test_cohn_schur = np.empty((n_wv, 2), dtype=bool)
 
@@ -375,6 +382,25 @@ def operator_circ(p):
     return [pstar[0] * p[k] - p[0] * pstar[k] for k in range(1, d + 1)]
 
 
+def normalize(p):
+    """
+    scale the coefficients (the roots are unchanged)
+
+    The coefficients decrease (or increase) very fast through the recursive
+    algorithms, the tolerance has to be compared to scaled coefficients.
+    """
+    scale = sum(abs(pk) for pk in p)
+    return [pk / scale for pk in p] if scale > 0 else p
+
+
+def is_negligible(pcirc, p):
+    """
+    are the coefficients of pcirc negligible compared to the products they are made of
+    """
+    tol = TPV * max(abs(p[0]), abs(p[-1])) * sum(abs(pk) for pk in p)
+    return all(abs(pcirck) <= tol for pcirck in pcirc)
+
+
 def operator_deriv(p):
     """
     Derivative operator for polynomial
@@ -388,6 +414,7 @@ def is_S(p):
     recursive algorithm
     is the polynomial p a Schur polynomial
     """
+    p = normalize(p)
     if len(p) == 2:
         return abs(p[0]) < abs(p[1])
     if abs(p[0]) < abs(p[-1]):
@@ -401,14 +428,15 @@ def is_svN(p):
     recursive algorithm
     is the polynomial p a simple von Neumamn polynomial
     """
+    p = normalize(p)
     if len(p) == 2:
         return abs(p[0]) <= abs(p[1]) + TPV
     pcirc = operator_circ(p)
-    if abs(p[0]) < abs(p[-1]):
-        return is_svN(pcirc)
-    if all([abs(pcirck) < TPV for pcirck in pcirc]):
+    if is_negligible(pcirc, p):
         pder = operator_deriv(p)
         return is_S(pder)
+    if abs(p[0]) < abs(p[-1]):
+        return is_svN(pcirc)
     return False
 
 
@@ -417,14 +445,15 @@ def is_vN(p):
     recursive algorithm
     is the polynomial p a von Neumamn polynomial
     """
+    p = normalize(p)
     if len(p) == 2:
         return abs(p[0]) <= abs(p[1]) + TPV
     pcirc = operator_circ(p)
-    if abs(p[0]) < abs(p[-1]):
-        return is_vN(pcirc)
-    if all([abs(pcirck) < TPV for pcirck in pcirc]):
+    if is_negligible(pcirc, p):
         pder = operator_deriv(p)
         return is_vN(pder)
+    if abs(p[0]) < abs(p[-1]):
+        return is_vN(pcirc)
     return False
 
 
-- 
2.43.0


From 1f41a9cf06519ffc66cdb742573673a5c85483ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:48 +0000
Subject: [PATCH 20/20] fix: equivalent equations: relaxation in the moving
 frame

---
 pylbm/analysis/equivalent_equation.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pylbm/analysis/equivalent_equation.py b/pylbm/analysis/equivalent_equation.py
index 21fce74..0a5f2e2 100644
--- a/pylbm/analysis/equivalent_equation.py
+++ b/pylbm/analysis/equivalent_equation.py
@@ -10,7 +10,7 @@ Symbolic computation of equivalent equations
 
 # pylint: disable=invalid-name
 import sympy as sp
-from ..symbolic import alltogether
+from ..symbolic import alltogether, rel_ux, rel_uy, rel_uz
 
 
 class EquivalentEquation:
@@ -51,6 +51,14 @@ class EquivalentEquation:
         phi1 = sp.zeros(s.shape[0], 1)  # pylint: disable=unsubscriptable-object
         inv_s = [1 / v for v in s]
         sigma = sp.diag(*inv_s) - sp.eye(len(s)) / 2
+        if scheme.rel_vel is not None:
+            # the relaxation is done in the moving frame
+            rel_sub = list(zip([rel_ux, rel_uy, rel_uz], scheme.rel_vel))
+            sigma = (
+                scheme.Tmu[nconsm:, nconsm:].subs(rel_sub)
+                * sigma
+                * scheme.Tu[nconsm:, nconsm:].subs(rel_sub)
+            ).subs(sublist)
         gamma_1 = sp.zeros(nconsm, 1)
 
         self.coeff_order1 = []
-- 
2.43.0

