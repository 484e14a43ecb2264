From d495cfccd887c676fb8f4947d0f9551e01a8e9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:16 +0000
Subject: [PATCH 01/42] fix: keep the largest udl magnitude numeric after
 removing a udl

remove_udls stored the Udl object itself, so every plot made after a
partial removal raised TypeError.
---
 pyslope/pyslope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 5cc610d..ca73c27 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -539,7 +539,7 @@ class Slope:
             self._udl_max = 0
 
         if self._udls:
-            self._udl_max = max(self._udls, key=lambda x: x.magnitude)
+            self._udl_max = max(udl.magnitude for udl in self._udls)
 
         # reset results
         self._reset_results()
-- 
2.43.0


From d159a012d39ba53ae10a4c1200a781b1432a0295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:16 +0000
Subject: [PATCH 02/42] fix: remove every matching load, not every second one

remove_udls and remove_lls removed items from the list they were
iterating over, so one of two identical loads stayed on the slope.
---
 pyslope/pyslope.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index ca73c27..69ecbc3 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -526,7 +526,7 @@ class Slope:
         """
 
         for udl in udls:
-            for check_udl in self._udls:
+            for check_udl in list(self._udls):
                 if (
                     check_udl.offset == udl.offset
                     and check_udl.magnitude == udl.magnitude
@@ -615,7 +615,7 @@ class Slope:
 
         # can probably write this as O(n) rather than O(n^2)
         for ll in lls:
-            for check_ll in self._lls:
+            for check_ll in list(self._lls):
                 if (
                     check_ll.offset == ll.offset
                     and check_ll.magnitude == ll.magnitude
-- 
2.43.0


From 60095b52ee33db6c908596e32ea6ecac1d3d8ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:16 +0000
Subject: [PATCH 03/42] fix: set_materials rejects repeated depths before
 touching the model

A rejected call could already have made the model deeper, and a call
without materials raised IndexError.
---
 pyslope/pyslope.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 69ecbc3..34b4ca3 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -681,14 +681,14 @@ class Slope:
 
         depths = [material.depth_to_bottom for material in materials]
 
-        # if geological unit deeper than model than extend model to fit materials
-        if depths[-1] > self._external_height:
-            self.update_boundary_options(MIN_EXT_H=depths[-1])
-
         # check material depth unique
         if len(depths) > len(set(depths)):
             raise ValueError("The same material depth has been input twice")
 
+        # if geological unit deeper than model than extend model to fit materials
+        if depths and depths[-1] > self._external_height:
+            self.update_boundary_options(MIN_EXT_H=depths[-1])
+
         material_refined = []
         # define RL for each material and color for each material
         for i, material in enumerate(materials):
-- 
2.43.0


From 5c76fdb47d9427d34c5048979e39e9552c6e8d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:43 +0000
Subject: [PATCH 04/42] fix: keep layer and water levels at their depth when
 the model is resized

Levels were computed once, from the boundary in force at that moment. A
later change of boundary (also one caused by a deeper material) left them
at the wrong depth below the crest.
---
 pyslope/pyslope.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 34b4ca3..4350dc6 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -400,6 +400,12 @@ class Slope:
         self._update_udl_coordinates()
         self._update_ll_coordinates()
 
+        # materials and water are defined by depth from the top of the slope,
+        # need to update levels.
+        self._update_material_levels()
+        if self._water_RL is not None:
+            self._water_RL = max(0, top[1] - self._water_depth)
+
         # reset limits
         self.remove_analysis_limits()
 
@@ -690,10 +696,8 @@ class Slope:
             self.update_boundary_options(MIN_EXT_H=depths[-1])
 
         material_refined = []
-        # define RL for each material and color for each material
+        # define color for each material
         for i, material in enumerate(materials):
-            material.RL = self._external_height - material.depth_to_bottom
-
             if (
                 utilities.is_color(material.user_defined_color)
                 and material.user_defined_color != ""
@@ -706,9 +710,19 @@ class Slope:
 
         self._materials = material_refined
 
+        # define RL for each material
+        self._update_material_levels()
+
         # reset results
         self._reset_results()
 
+    def _update_material_levels(self):
+        """Update level of the bottom of each material based on
+        external boundary and Material object"""
+
+        for material in self._materials:
+            material.RL = self._external_height - material.depth_to_bottom
+
     def remove_material(
         self, material: Material = None, depth: float = None, remove_all=False
     ):
-- 
2.43.0


From ba0262abf84725177e60a5bd0cfdbaec19ebbb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:43 +0000
Subject: [PATCH 05/42] fix: recompute the automatic pressure head factor for a
 new slope angle

set_external_boundary kept the factor of the previous geometry.
---
 pyslope/pyslope.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 4350dc6..0da98b5 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -271,6 +271,7 @@ class Slope:
         # initialise empty properties used in other components of class
         self._materials = []
         self._water_RL = None
+        self._water_analysis_auto = True
         self._udls = []
         self._lls = []
 
@@ -406,6 +407,10 @@ class Slope:
         if self._water_RL is not None:
             self._water_RL = max(0, top[1] - self._water_depth)
 
+        # automatic pressure head factor depends on the angle of the slope
+        if self._water_analysis_auto:
+            self.update_water_analysis_options(auto=True)
+
         # reset limits
         self.remove_analysis_limits()
 
@@ -819,6 +824,7 @@ class Slope:
                 H = 0
 
         self._water_analysis_H = H
+        self._water_analysis_auto = bool(auto)
 
         # reset results
         self._reset_results()
-- 
2.43.0


From 6448cd2afb535f95d9211803dd5ae9937457a450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:43 +0000
Subject: [PATCH 06/42] fix: validate the limit that was given in
 set_analysis_limits

The checks of right_x and right_x_left were swapped, so giving only
right_x_left was rejected and a wrong right_x was not.
---
 pyslope/pyslope.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 0da98b5..f1c2d52 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -996,14 +996,14 @@ class Slope:
             right_x_left = self._limits[2]
         else:
             data_validation.assert_strictly_positive_number(
-                right_x, "right_x_limit"
+                right_x_left, "right_x left coordinate"
             )
 
         if right_x is None:
             right_x = self._limits[3]
         else:
             data_validation.assert_strictly_positive_number(
-                right_x_left, "right_x left coordinate"
+                right_x, "right_x_limit"
             )
 
         # if only one of the double parameters is defined
-- 
2.43.0


From 53fd7458e5c77ad4873202ced3fb01ec8e565f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:43 +0000
Subject: [PATCH 07/42] fix: zero is not a strictly positive number

Slope(height=0) was accepted although the message says 'should be > 0'.
---
 pyslope/data_validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslope/data_validation.py b/pyslope/data_validation.py
index 742c577..61edad1 100644
--- a/pyslope/data_validation.py
+++ b/pyslope/data_validation.py
@@ -27,7 +27,7 @@ def assert_strictly_positive_number(n, name):
             f"The value for '{name}' should be an int or float, not a "
             f"{type(n).__name__}."
         )
-    if n < 0:
+    if n <= 0:
         raise ValueError(f"The value for '{name}' should be > 0, not {n}")
 
 
-- 
2.43.0


From 85d47db32584e30f7374ffa02403b40f5b2d4b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:13 +0000
Subject: [PATCH 08/42] fix: search slopes that carry many loads

Each load takes one entry point off the search grid: with 9 loads (500
iterations) analyse_slope raised ZeroDivisionError and with more no grid
was left at all.
---
 pyslope/pyslope.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index f1c2d52..4599867 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -1054,7 +1054,10 @@ class Slope:
 
         # remove number of points on top to be spread to allow for specific
         # points next to the edge of loads
-        num_points_top = num_points_top - len(self._lls) - len(self._udls)
+        # (always keep both ends of the range)
+        num_points_top = max(
+            2, num_points_top - len(self._lls) - len(self._udls)
+        )
 
         # get limits on bounds of slope
         # not some limits might still stretch off slope
-- 
2.43.0


From f34576cd141d6754de909f4a40fcbfe165aa5429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:13 +0000
Subject: [PATCH 09/42] fix: every generated circle passes through the
 requested end points

The end points were overwritten inside the loop, so once a circle cut
through the face the remaining circles passed through neither point.
---
 pyslope/pyslope.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 4599867..a7899eb 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -1176,13 +1176,10 @@ class Slope:
             if len(set(i_list)) < 2:
                 continue
 
-            l_c = i_list[0]
-            r_c = i_list[1]
-
             search += [
                 {
-                    "l_c": l_c,
-                    "r_c": r_c,
+                    "l_c": i_list[0],
+                    "r_c": i_list[1],
                     "c_x": c_x,
                     "c_y": c_y,
                     "radius": radius,
-- 
2.43.0


From b67f76363ac2e0cc06a8a62465874dde971278ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:37 +0000
Subject: [PATCH 10/42] fix: keep the search inside the analysis limits and
 minimum distance

Planes next to loads ignored the limits, and planes that surface on the
face before the intended exit point could leave the limits or be shorter
than min_failure_dist.
---
 pyslope/pyslope.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index a7899eb..54c1732 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -1101,7 +1101,17 @@ class Slope:
                 ):
                     search += self._generate_planes(l_c, r_c, num_circles)
 
-        self._search = search
+        # a circle can surface before the exit point and points next to loads
+        # can be anywhere on the crest, keep only what the user asked for
+        tol = 1e-6
+        self._search = [
+            plane
+            for plane in search
+            if x1 - tol <= plane["l_c"][0] <= x2 + tol
+            and x3 - tol <= plane["r_c"][0] <= x4 + tol
+            and utilities.dist_points(plane["l_c"], plane["r_c"])
+            > self._min_failure_distance
+        ]
 
     def _generate_planes(self, l_c, r_c, num_circles=5):
         """Generate failure plane circle coordinates with entry and exit point.
-- 
2.43.0


From ffd7729b8fafce4c173290ed3c6ba9ac6612064f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:37 +0000
Subject: [PATCH 11/42] fix: keep the analysis limits when the boundary does
 not change

Assigning a load (also every step of analyse_dynamic) could rebuild an
identical boundary and silently drop the limits set by the user.
---
 pyslope/pyslope.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 54c1732..1ed1416 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -375,6 +375,7 @@ class Slope:
         bot = (dx + length, tot_h - height)
 
         # set up external boundary as list of coordinates
+        previous_boundary = self._external_boundary
         self._external_boundary = [
             (0, 0),
             (0, top[1]),
@@ -411,8 +412,9 @@ class Slope:
         if self._water_analysis_auto:
             self.update_water_analysis_options(auto=True)
 
-        # reset limits
-        self.remove_analysis_limits()
+        # reset limits, coordinates only stay valid on an unchanged boundary
+        if self._external_boundary != previous_boundary:
+            self.remove_analysis_limits()
 
         # reset results
         self._reset_results()
-- 
2.43.0


From b474a8777bbe167346efa29c41c346505f57ff74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:08 +0000
Subject: [PATCH 12/42] fix: report 0, not NaN, for a failure plane without any
 strength

With an initial estimate of 0 the Bishop iteration computed 0 / 0 and
NaN ended up among the sorted results.
---
 pyslope/pyslope.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 1ed1416..be4aa7b 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -1603,6 +1603,9 @@ class Slope:
         )
         if FS is None:
             return None
+        # no strength at all, iterating would divide by zero
+        if FS == 0:
+            return 0.0
         prev_FS = FS
 
         # --- Slice geometry setup ---
-- 
2.43.0


From de963bec8621260db6c3db98c5d336158933e525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:08 +0000
Subject: [PATCH 13/42] fix: plot a critical plane that is shorter than the
 drawing step

For a flat arc none of the generated circle points lies between the end
points and plot_critical raised IndexError.
---
 pyslope/pyslope.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index be4aa7b..35d2128 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -2932,8 +2932,8 @@ class Slope:
                 y_.append(y[i])
 
         if show_center:
-            x_ += [r_c[0], c_x, l_c[0], x_[0]]
-            y_ += [r_c[1], c_y, l_c[1], y_[0]]
+            x_ += [r_c[0], c_x, l_c[0]] + x_[:1]
+            y_ += [r_c[1], c_y, l_c[1]] + y_[:1]
         else:
             x_ = [l_c[0]] + x_ + [r_c[0]]
             y_ = [l_c[1]] + y_ + [r_c[1]]
-- 
2.43.0


From 3e10151e6a67010d60ba9c39a7610e1d09f45aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:08 +0000
Subject: [PATCH 14/42] fix: dynamic analysis of continuous loads and of
 vertical slopes

A continuous dynamic load has no length (TypeError), and the furthest
offset of a vertical slope was negative, beyond the crest.
---
 pyslope/pyslope.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 35d2128..0c1278e 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -1783,9 +1783,9 @@ class Slope:
         left = self._length
         for udl in self._udls:
             if udl.dynamic_offset:
-                left = max(left, self._top_coord[0] - udl.length)
+                left = max(left, self._top_coord[0] - (udl.length or 0))
 
-        left -= 0.01
+        left = max(left - 0.01, right)
 
         # check for extreme case with loads at crest (right)
         # if slope is safe (FOS high) then return
-- 
2.43.0


From 422538516969335a4eec93b85c33e90ccea33d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:08 +0000
Subject: [PATCH 15/42] fix: stop the dynamic analysis when the offset makes no
 difference

Equal factors of safety at both ends (both equal to critical_fos, or both
ends at the same offset) raised ZeroDivisionError.
---
 pyslope/pyslope.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 0c1278e..3d29d0a 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -1825,6 +1825,10 @@ class Slope:
             left_fos = self._dynamic_results[left]
             right_fos = self._dynamic_results[right]
 
+            # the offset makes no difference, nothing left to converge on
+            if left_fos == right_fos:
+                break
+
             m = (left_fos - right_fos) / (left - right)
             midpoint = right + (critical_fos - right_fos) / m
 
-- 
2.43.0


From 52d10210425064743f05ff4b6d85aab8889fb6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:32 +0000
Subject: [PATCH 16/42] fix: remove_material removes a material at depth 0

---
 pyslope/pyslope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 3d29d0a..b87dd79 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -780,7 +780,7 @@ class Slope:
             depth = material.depth_to_bottom
 
         # if depth specified adopt
-        if depth:
+        if depth is not None:
             for m in self._materials:
                 if m.depth_to_bottom == depth:
                     self._materials.remove(m)
-- 
2.43.0


From 6f4d40c3e966e5611c834ef356e1e72771799ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:32 +0000
Subject: [PATCH 17/42] fix: update_boundary_options changes nothing when it
 rejects its input

With a valid MIN_EXT_H and an invalid MIN_EXT_L the height was stored and
took effect at the next change of the boundary.
---
 pyslope/pyslope.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index b87dd79..b6c451f 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -928,11 +928,13 @@ class Slope:
             data_validation.assert_strictly_positive_number(
                 MIN_EXT_H, "Minimum external model height (MIN_EXT_H)"
             )
-            self._MIN_EXT_H = MIN_EXT_H
         if MIN_EXT_L:
             data_validation.assert_strictly_positive_number(
                 MIN_EXT_L, "Minimum external model length (MIN_EXT_H)"
             )
+        if MIN_EXT_H:
+            self._MIN_EXT_H = MIN_EXT_H
+        if MIN_EXT_L:
             self._MIN_EXT_L = MIN_EXT_L
 
         # if the external boundary has been set this call is after init.
-- 
2.43.0


From f83f5b5725571fe62d296cd1d785732be9b52b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:32 +0000
Subject: [PATCH 18/42] fix: slopes that share material or load objects do not
 affect each other

The level of a layer and the position of a load are stored on the shared
object, so assigning it to a second slope moved it in the first.
---
 pyslope/pyslope.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index b6c451f..2eb54ad 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -515,6 +515,15 @@ class Slope:
             udl.left = left_x
             udl.right = right_x
 
+    # materials and loads may be shared between slopes, and their positions
+    # depend on the boundary of the slope
+    def _update_positions(self):
+        """Update everything positioned relative to the external boundary"""
+
+        self._update_material_levels()
+        self._update_udl_coordinates()
+        self._update_ll_coordinates()
+
     def remove_udls(self, *udls, remove_all=False):
         """Remove udl from model if associated with model.
 
@@ -1267,6 +1276,8 @@ class Slope:
         """Analyse many possible failure planes for a slope OR
         indivually added failure planes if added to slope."""
 
+        self._update_positions()
+
         # if individual failure planes set only analyse them
         if self._individual_planes != []:
             self._search = self._individual_planes
@@ -2169,6 +2180,8 @@ class Slope:
         plotly figure
 
         """
+        self._update_positions()
+
         # draw the external boundary
         x_ = [x for x, y in self._external_boundary]
         y_ = [y for x, y in self._external_boundary]
-- 
2.43.0


From c6acfb218a688465d913e8e2782ec63cf7f19f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:09 +0000
Subject: [PATCH 19/42] fix: end points of individual planes follow a changed
 boundary

The factor of safety was computed on the current boundary, the reported
and plotted end points were those of the boundary at the time of adding.
---
 pyslope/pyslope.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 2eb54ad..0dc9ce1 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -1280,6 +1280,15 @@ class Slope:
 
         # if individual failure planes set only analyse them
         if self._individual_planes != []:
+            # boundary may have changed since the planes were added
+            for plane in self._individual_planes:
+                i_list = self._get_circle_external_intersection(
+                    plane["c_x"], plane["c_y"], plane["radius"]
+                )
+                if len(set(i_list)) >= 2:
+                    plane["l_c"] = i_list[0]
+                    plane["r_c"] = i_list[1]
+
             self._search = self._individual_planes
 
         # otherwise generate planes across the entire slope
-- 
2.43.0


From 1b7b725e7573a7e7155c7c6eda5cde3f99e406ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:09 +0000
Subject: [PATCH 20/42] fix: only accept colors that can be plotted

'' and names such as 'navyblue' passed the check and broke every plot,
and a malformed hex string raised AttributeError instead of falling back
to the default color.
---
 pyslope/utilities.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyslope/utilities.py b/pyslope/utilities.py
index 94d45fa..408fa60 100644
--- a/pyslope/utilities.py
+++ b/pyslope/utilities.py
@@ -1,6 +1,7 @@
 # standard library imports
 from math import cos, sin, sqrt, radians
 from colour import Color
+from plotly import graph_objects as go
 
 MATERIAL_COLORS = [
     "#efa59c",
@@ -18,9 +19,11 @@ MATERIAL_COLORS = [
 
 def is_color(color):
     try:
-        color = Color(color)
+        Color(color)
+        # plotly doesnt know all the names, and it has to draw the color
+        go.scatter.Line(color=color)
         return True
-    except ValueError:
+    except (ValueError, AttributeError):
         return False
 
 
-- 
2.43.0


From 4447796495b5a313398abde1710f325c4097e85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:00 +0000
Subject: [PATCH 21/42] fix: reset the web page for values that the model
 rejects

---
 slope/views.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/slope/views.py b/slope/views.py
index 1606e98..d13ec51 100644
--- a/slope/views.py
+++ b/slope/views.py
@@ -276,7 +276,12 @@ def index(request):
         # if form is valid
         if valid:
 
-            slope = create_slope(*form_list)
+            # values that are valid in the form can still be outside of the
+            # limits of the model
+            try:
+                slope = create_slope(*form_list)
+            except ValueError:
+                return redirect("reset")
 
             # return color_dictionary
             # add coordinates of failure planes to information that gets passed back.
-- 
2.43.0


From 923c6655a8fa826b9ff167281d3349a230e27b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:00 +0000
Subject: [PATCH 22/42] fix: web page shows the slope when no plane is below
 the maximum FOS

---
 slope/views.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/slope/views.py b/slope/views.py
index d13ec51..746116e 100644
--- a/slope/views.py
+++ b/slope/views.py
@@ -313,7 +313,11 @@ def index(request):
                 s["x"] = [l_c[0]] + x_ + [r_c[0]]
                 s["y"] = [l_c[1]] + y_ + [r_c[1]]
 
-            plot = slope.plot_critical(material_table=True, legend=True)
+            # there is no critical plane if all planes are above the max FOS
+            if slope._search:
+                plot = slope.plot_critical(material_table=True, legend=True)
+            else:
+                plot = slope.plot_boundary(material_table=True, legend=True)
             plot_json = plot.update_layout(autosize=True).to_json()
 
             search = slope._search
-- 
2.43.0


From 0b14c2d51f1444067e682106d7e1caecbfbfb5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:00 +0000
Subject: [PATCH 23/42] fix: pdf redirects without an analysis or a valid
 maximum FOS

---
 slope/views.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/slope/views.py b/slope/views.py
index 746116e..c5d09f5 100644
--- a/slope/views.py
+++ b/slope/views.py
@@ -52,12 +52,15 @@ def reset(request):
 
 def pdf(request, max_fos=5):
     # get saved data, still taking forever.
-    if request.session["plot_json"] == [] or request.session["search"] == []:
+    if not request.session.get("plot_json") or not request.session.get("search"):
         return redirect("index")
     plot = from_json(request.session["plot_json"])
     search = list(eval(str(request.session["search"])))
 
-    max_fos = float(max_fos)
+    try:
+        max_fos = float(max_fos)
+    except ValueError:
+        return redirect("index")
 
     # turn json data back into a plotly chart
     traces = []
-- 
2.43.0


From 6f0c675f7cc712fac68738840bff6ab75b2aec4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:00 +0000
Subject: [PATCH 24/42] fix: run the dynamic analysis of the web page to its
 end

---
 slope/views.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slope/views.py b/slope/views.py
index c5d09f5..54a987a 100644
--- a/slope/views.py
+++ b/slope/views.py
@@ -493,7 +493,7 @@ def create_slope(
         # might fail if no dynamic loads set up
         try:
             slope.analyse_dynamic(
-                critical_fos=options_form.cleaned_data["critical_FOS"]
+                critical_fos=float(options_form.cleaned_data["critical_FOS"])
             )
         except Exception:
             slope.analyse_slope(max_fos=5)
-- 
2.43.0


From 9eca5fe65e9165a122e23cdfc3746a766f1c3fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:18 +0000
Subject: [PATCH 25/42] fix: keep every layer inside the model when the
 boundary shrinks

---
 pyslope/pyslope.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 0dc9ce1..a3640f8 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -369,6 +369,11 @@ class Slope:
         tot_h = max(3 * height, MIN_EXT_H, 5 * length / 2)
         tot_l = max(5 * length, MIN_EXT_L, 4 * height)
 
+        # keep the model deep enough for the materials it already has
+        for material in self._materials:
+            if material.depth_to_bottom > tot_h:
+                self._MIN_EXT_H = tot_h = material.depth_to_bottom
+
         # determine coordinates for edges of slope
         dx = (tot_l - length) / 2
         top = (dx, tot_h)
-- 
2.43.0


From f3e21d08d7a9d64695a6172cb52af38e6d1fdc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:54 +0000
Subject: [PATCH 26/42] fix: rounding does not put the last exit point outside
 the model

---
 pyslope/pyslope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index a3640f8..224587c 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -1093,7 +1093,7 @@ class Slope:
         # can be at bottom or on slope, so y is function of x and
         # needs to be determined for different points
         right_coords_x = [
-            x3 + (n / (num_points_bot)) * (x4 - x3)
+            min(x4, x3 + (n / (num_points_bot)) * (x4 - x3))
             for n in range(1, num_points_bot + 1)
         ]
 
-- 
2.43.0


From b27f8ed6c983f29a1d6bfc1c06c54c938c7d7590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:53 +0000
Subject: [PATCH 27/42] fix: rounding does not lose planes through the edges of
 the ground lines

---
 pyslope/pyslope.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 224587c..02ca3fb 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -1928,6 +1928,10 @@ class Slope:
 
         i_list = []
 
+        # circles are often defined by points at the edges of a line, rounding
+        # should not lose the intersection
+        tol = 1e-6
+
         top_intersection = utilities.cirle_line_intersection(
             (0, self._top_coord[1]), self._top_coord, c_x, c_y, radius
         )
@@ -1938,8 +1942,8 @@ class Slope:
             top_intersection.sort()
             top_intersection = top_intersection[0]
             if (
-                top_intersection[0] >= 0
-                and top_intersection[0] <= self._top_coord[0]
+                top_intersection[0] >= -tol
+                and top_intersection[0] <= self._top_coord[0] + tol
             ):
                 i_list.append(top_intersection)
 
@@ -1959,8 +1963,8 @@ class Slope:
             bot_intersection.sort()
             bot_intersection = bot_intersection[-1]
             if (
-                bot_intersection[0] >= self._bot_coord[0]
-                and bot_intersection[0] <= self._external_length
+                bot_intersection[0] >= self._bot_coord[0] - tol
+                and bot_intersection[0] <= self._external_length + tol
             ):
                 i_list.append(bot_intersection)
 
@@ -1968,8 +1972,14 @@ class Slope:
             self._top_coord, self._bot_coord, c_x, c_y, radius
         )
 
+        # a small difference in x is a large difference in y on a steep slope
+        tol = tol / max(1, self._gradient)
+
         for a in mid_intersection:
-            if a[0] >= self._top_coord[0] and a[0] <= self._bot_coord[0]:
+            if (
+                a[0] >= self._top_coord[0] - tol
+                and a[0] <= self._bot_coord[0] + tol
+            ):
                 i_list.append(a)
 
         # remove any close points
-- 
2.43.0


From d180ed3f8967af9347fbd1661b914cec172571a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:39 +0000
Subject: [PATCH 28/42] fix: keep every load on the crest when the minimum
 length is reduced

---
 pyslope/pyslope.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 02ca3fb..b14650d 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -363,6 +363,13 @@ class Slope:
         # help with division by zero errors
         length = max(length, 0.001)
 
+        # keep the model long enough for the loads it already has
+        for udl in self._udls:
+            min_length = (udl.offset + (udl.length or 3)) * 2.5
+            self._MIN_EXT_L = max(self._MIN_EXT_L, min_length)
+        for ll in self._lls:
+            self._MIN_EXT_L = max(self._MIN_EXT_L, ll.offset * 3)
+
         MIN_EXT_H = self._MIN_EXT_H
         MIN_EXT_L = self._MIN_EXT_L
 
-- 
2.43.0


From 024fde60e24148a4ac472b8068a897014b30fcb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:42 +0000
Subject: [PATCH 29/42] fix: a missing height is rejected with ValueError

---
 pyslope/pyslope.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index b14650d..0d63f5d 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -344,8 +344,7 @@ class Slope:
         Slope: 2V : 0.5H
         """
         # validate inputs
-        if height is not None:
-            data_validation.assert_strictly_positive_number(height, "height")
+        data_validation.assert_strictly_positive_number(height, "height")
         if angle is not None:
             # is allowed to be 90 but not 0
             data_validation.assert_range(angle, "angle", 0, 90, not_low=True)
-- 
2.43.0


From 02e9805c70d9cf5d17395d04991783303715f96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:58 +0000
Subject: [PATCH 30/42] fix: the web page and the pdf show an analysis without
 planes below the maximum FOS

---
 slope/views.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/slope/views.py b/slope/views.py
index 54a987a..28c4a06 100644
--- a/slope/views.py
+++ b/slope/views.py
@@ -52,7 +52,8 @@ def reset(request):
 
 def pdf(request, max_fos=5):
     # get saved data, still taking forever.
-    if not request.session.get("plot_json") or not request.session.get("search"):
+    # (there are no planes in search if they are all above the max FOS)
+    if not request.session.get("plot_json"):
         return redirect("index")
     plot = from_json(request.session["plot_json"])
     search = list(eval(str(request.session["search"])))
@@ -139,11 +140,8 @@ def index(request):
     if request.method == "GET":
         # if forms have been saved initialise with previous data, otherwise reset.
         # if clear form button has been called then also dont use previous and use default.
-        if (
-            request.session.get("forms")
-            and request.session.get("search")
-            and request.session.get("plot_json")
-        ):
+        # (there are no planes in search if they are all above the max FOS)
+        if request.session.get("forms") and request.session.get("plot_json"):
             previous_forms = request.session.get("forms")
             search = request.session.get("search")
             plot_json = request.session.get("plot_json")
-- 
2.43.0


From 916579933de75b671949818509ca2f7c7cd2e8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:38 +0000
Subject: [PATCH 31/42] fix: the web page answers values that are too large to
 calculate with

---
 slope/views.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/slope/views.py b/slope/views.py
index 28c4a06..f9f84ef 100644
--- a/slope/views.py
+++ b/slope/views.py
@@ -56,7 +56,7 @@ def pdf(request, max_fos=5):
     if not request.session.get("plot_json"):
         return redirect("index")
     plot = from_json(request.session["plot_json"])
-    search = list(eval(str(request.session["search"])))
+    search = list(request.session["search"])
 
     try:
         max_fos = float(max_fos)
@@ -278,10 +278,10 @@ def index(request):
         if valid:
 
             # values that are valid in the form can still be outside of the
-            # limits of the model
+            # limits of the model, or too large to calculate with
             try:
                 slope = create_slope(*form_list)
-            except ValueError:
+            except (ValueError, ArithmeticError):
                 return redirect("reset")
 
             # return color_dictionary
-- 
2.43.0


From 6d7e7e16d7e45574125ec7ea7a640d772be1f097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:33 +0000
Subject: [PATCH 32/42] fix: loads without a color fall back to the default
 color

---
 pyslope/utilities.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslope/utilities.py b/pyslope/utilities.py
index 408fa60..0439afb 100644
--- a/pyslope/utilities.py
+++ b/pyslope/utilities.py
@@ -18,6 +18,9 @@ MATERIAL_COLORS = [
 
 
 def is_color(color):
+    # Color(None) is black, but no color is given
+    if color is None:
+        return False
     try:
         Color(color)
         # plotly doesnt know all the names, and it has to draw the color
-- 
2.43.0


From 40dd29003bd9e47dc0985b119f1225c1e5f319ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:06 +0000
Subject: [PATCH 33/42] fix: the chart is drawn and redrawn on small screens

---
 static/slope/charting.js | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/static/slope/charting.js b/static/slope/charting.js
index ec45b87..1e33769 100644
--- a/static/slope/charting.js
+++ b/static/slope/charting.js
@@ -55,15 +55,15 @@ function createPlot(max_display_fos) {
                 objTo.appendChild(td)
             }
         }
-        Plotly.update('plotly_js', plot.data, plot.layout)
     }
     else {
         //if not a mobile screen hide the extra html elements
         document.getElementById("mobile_screen_menus").style.display = "none"
-        // create a new plot
-        Plotly.newPlot('plotly_js', plot.data, plot.layout)
     }
 
+    // create a new plot (an update can't create a plot or remove planes)
+    Plotly.newPlot('plotly_js', plot.data, plot.layout)
+
     updateFOS(max_display_fos);
 
 }
-- 
2.43.0


From 5a05c454ee38696ce3525724bdc3d2a632220fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:06 +0000
Subject: [PATCH 34/42] fix: small screens list every layer with its own color

---
 static/slope/charting.js | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/static/slope/charting.js b/static/slope/charting.js
index 1e33769..a08d09a 100644
--- a/static/slope/charting.js
+++ b/static/slope/charting.js
@@ -30,16 +30,13 @@ function createPlot(max_display_fos) {
 
         if (document.getElementById('mobile_soil_table').childElementCount == 0) {
 
-            soils = document.getElementsByClassName('formset-row-Materials')
-            soils_count = soils.length
+            // use the drawn layers, they are in order of depth and the form rows may not be
+            const soils = plot.data.filter((trace) => trace.fill === 'toself')
 
-            for (var i = 0; i < soils_count; i += 1) {
+            for (const soil of soils) {
                 // creating the table of soil properties
-                weight = document.getElementById('id_material-' + i + '-unit_weight').value
-                friction = document.getElementById('id_material-' + i + '-friction_angle').value
-                cohesion = document.getElementById('id_material-' + i + '-cohesion').value
-                soil_name = document.getElementById('id_material-' + i + '-name').value
-                colour = plot.data[i + 1].fillcolor
+                const [weight, cohesion, friction, soil_name] = soil.meta
+                const colour = soil.fillcolor
                 var objTo = document.getElementById('mobile_soil_table');
                 var tr = document.createElement("tr");
                 tr.innerHTML = '<td>' + soil_name + '</td><td style="background-color:' + colour + ';"></td><td>' + weight + '</td><td>' + cohesion + '</td><td>' + friction + '</td>';
-- 
2.43.0


From 7b59b141bed72d65946dea83c62b91e6698ade8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:06 +0000
Subject: [PATCH 35/42] fix: form rows from the eleventh on are renumbered

---
 static/slope/add_rows.js | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/static/slope/add_rows.js b/static/slope/add_rows.js
index f967fd1..140d175 100644
--- a/static/slope/add_rows.js
+++ b/static/slope/add_rows.js
@@ -35,7 +35,7 @@ document.addEventListener("DOMContentLoaded", () => {
         const materialEnd = document.querySelector('#end-row-Materials');
 
         materialFormCount++;
-        const materialFormRegex = RegExp(`material-(\\d){1}-`, 'g');
+        const materialFormRegex = RegExp(`material-\\d+-`, 'g');
 
         newMaterialForm.innerHTML = newMaterialForm.innerHTML.replace(materialFormRegex, `material-${materialFormCount}-`)
 
@@ -57,7 +57,7 @@ document.addEventListener("DOMContentLoaded", () => {
         const lineLoadEnd = document.querySelector('#end-row-LineLoads');
 
         lineLoadFormCount++;
-        const lineLoadFormRegex = RegExp(`lineload-(\\d){1}-`, 'g');
+        const lineLoadFormRegex = RegExp(`lineload-\\d+-`, 'g');
 
         newLineLoadForm.innerHTML = newLineLoadForm.innerHTML.replace(lineLoadFormRegex, `lineload-${lineLoadFormCount}-`)
 
@@ -78,7 +78,7 @@ document.addEventListener("DOMContentLoaded", () => {
         const udlEnd = document.querySelector('#end-row-Udls');
 
         udlFormCount++;
-        const udlFormRegex = RegExp(`udl-(\\d){1}-`, 'g');
+        const udlFormRegex = RegExp(`udl-\\d+-`, 'g');
 
         newUdlForm.innerHTML = newUdlForm.innerHTML.replace(udlFormRegex, `udl-${udlFormCount}-`)
 
@@ -92,7 +92,7 @@ document.addEventListener("DOMContentLoaded", () => {
     function updateForms(event) {
         //material
         let count = 0;
-        const materialFormRegex = RegExp(`material-(\\d){1}-`, 'g');
+        const materialFormRegex = RegExp(`material-\\d+-`, 'g');
         for (let form of materialForm) {
             for (let cell of form.children) {
                 for (let input of cell.children){
@@ -105,7 +105,7 @@ document.addEventListener("DOMContentLoaded", () => {
         
         //line loads
         count = 0;
-        const lineLoadFormRegex = RegExp(`lineload-(\\d){1}-`, 'g');
+        const lineLoadFormRegex = RegExp(`lineload-\\d+-`, 'g');
         for (let form of lineLoadForm) {
             for (let cell of form.children) {
                 for (let input of cell.children){
@@ -118,7 +118,7 @@ document.addEventListener("DOMContentLoaded", () => {
 
         // distributed loads
         count = 0;
-        const udlFormRegex = RegExp(`udl-(\\d){1}-`, 'g');
+        const udlFormRegex = RegExp(`udl-\\d+-`, 'g');
         for (let form of udlForm) {
             for (let cell of form.children) {
                 for (let input of cell.children){
-- 
2.43.0


From 6e250e7318f0c2a7d78b7cdfe238861476bfa0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:48 +0000
Subject: [PATCH 36/42] fix: the FOS legend for small screens is marked up to 5
 like its colors

---
 slope/templates/slope/index.html | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/slope/templates/slope/index.html b/slope/templates/slope/index.html
index a3fc43b..8374225 100644
--- a/slope/templates/slope/index.html
+++ b/slope/templates/slope/index.html
@@ -162,7 +162,9 @@
         <div class="col"><b>0</b></div>
         <div class="col text-center"><b>1</b></div>
         <div class="col text-center"><b>2</b></div>
-        <div class="col text-end"><b>3</b></div>
+        <div class="col text-center"><b>3</b></div>
+        <div class="col text-center"><b>4</b></div>
+        <div class="col text-end"><b>5</b></div>
       </div>
       <table class="table" style="table-layout: fixed;">
         <tbody>
-- 
2.43.0


From dad9d789bbb4ab70a5ef85dc92dcfb0d23b34e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:08 +0000
Subject: [PATCH 37/42] fix: the FOS legend for small screens is created once
 for slopes without layers

---
 static/slope/charting.js | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/static/slope/charting.js b/static/slope/charting.js
index a08d09a..0fbd3c5 100644
--- a/static/slope/charting.js
+++ b/static/slope/charting.js
@@ -42,6 +42,9 @@ function createPlot(max_display_fos) {
                 tr.innerHTML = '<td>' + soil_name + '</td><td style="background-color:' + colour + ';"></td><td>' + weight + '</td><td>' + cohesion + '</td><td>' + friction + '</td>';
                 objTo.appendChild(tr)
             }
+        }
+
+        if (document.getElementById('FOS_legend').childElementCount == 0) {
 
             //creating the html FOS scale
             var objTo = document.getElementById('FOS_legend');
-- 
2.43.0


From 147b8ae83cd1be48941f582d42aaa37ce7777d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:08 +0000
Subject: [PATCH 38/42] fix: layer names are listed as text on small screens

---
 static/slope/charting.js | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/static/slope/charting.js b/static/slope/charting.js
index 0fbd3c5..c781f0f 100644
--- a/static/slope/charting.js
+++ b/static/slope/charting.js
@@ -39,7 +39,9 @@ function createPlot(max_display_fos) {
                 const colour = soil.fillcolor
                 var objTo = document.getElementById('mobile_soil_table');
                 var tr = document.createElement("tr");
-                tr.innerHTML = '<td>' + soil_name + '</td><td style="background-color:' + colour + ';"></td><td>' + weight + '</td><td>' + cohesion + '</td><td>' + friction + '</td>';
+                tr.innerHTML = '<td></td><td style="background-color:' + colour + ';"></td><td>' + weight + '</td><td>' + cohesion + '</td><td>' + friction + '</td>';
+                // the name is text, it may contain characters like < and &
+                tr.children[0].textContent = soil_name
                 objTo.appendChild(tr)
             }
         }
-- 
2.43.0


From 8f72af35b548947f64f9d673437e1a187fa76d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:20 +0000
Subject: [PATCH 39/42] fix: moving the slider does not offer the PDF again
 after an edit

---
 static/slope/update_pdf_link.js | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/static/slope/update_pdf_link.js b/static/slope/update_pdf_link.js
index ff6ab89..85fbe42 100644
--- a/static/slope/update_pdf_link.js
+++ b/static/slope/update_pdf_link.js
@@ -2,12 +2,10 @@ function update_pdf_link() {
     let link = document.getElementById('pdf_button');
     let fos = document.getElementById('id_options-max_display_FOS').value;
 
-    // if href = '' something has already changed in the inputs
+    // if disabled something has already changed in the inputs
     // the user isnt allowed to request pdf and as such the 
     // href shal remain '' unless form is the same.
-    if (link.href = '') {
-        pass;
-    } else {
+    if (!link.classList.contains('disabled')) {
         link.href = `pdf/${fos}`;
     }
 
-- 
2.43.0


From 08b08c5637219c699364e4d301f0a3ff5a0ff024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:20 +0000
Subject: [PATCH 40/42] fix: dropdowns, new rows and deleted rows call for a
 new analysis as well

---
 static/slope/button_control.js | 35 ++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/static/slope/button_control.js b/static/slope/button_control.js
index aa56da0..eb71c9a 100644
--- a/static/slope/button_control.js
+++ b/static/slope/button_control.js
@@ -6,23 +6,30 @@ document.addEventListener("DOMContentLoaded", () => {
     document.getElementById('analysis_button').addEventListener("click", trigger_spinner);
     document.getElementById('reset_button').addEventListener("click", trigger_spinner);
 
-
-
-    inputs = document.getElementsByTagName('input');
-    for (var i = 0; i < inputs.length; i++) {
-        if (inputs[i].id != 'id_options-max_display_FOS') {
-            inputs[i].addEventListener('change', () => {
-                document.getElementById('analysis_button').disabled = false
-
-                // for pdf_button it has been changed to a link so need 
-                document.getElementById('pdf_button').classList.add('disabled');
-                document.getElementById('pdf_button').href = '';
-            });
+    // listen on the form, it also has dropdowns and rows that are added later
+    const form = document.getElementById('mainform');
+    form.addEventListener('change', (e) => {
+        if (e.target.id != 'id_options-max_display_FOS') {
+            require_analysis();
         }
+    });
 
-    }
+    // adding and deleting rows changes the model as well
+    form.addEventListener('click', (e) => {
+        if (e.target.matches("[id^='add-'], [class*='delete-']")) {
+            require_analysis();
+        }
+    });
 });
 
+function require_analysis() {
+    document.getElementById('analysis_button').disabled = false
+
+    // for pdf_button it has been changed to a link so need 
+    document.getElementById('pdf_button').classList.add('disabled');
+    document.getElementById('pdf_button').href = '';
+}
+
 function trigger_spinner() {
 
     document.getElementById('loading-spinner').style = "display:inline-block";
@@ -32,4 +39,4 @@ function trigger_spinner() {
         10000
     )
 
-}
\ No newline at end of file
+}
-- 
2.43.0


From a369becf5aab7d5b6401d389db44be90152b98cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:49 +0000
Subject: [PATCH 41/42] fix: count a line load on the edge of two slices
 exactly once

---
 pyslope/pyslope.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 0d63f5d..2cd447a 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -1481,8 +1481,10 @@ class Slope:
         )
 
         # --- Add distributed and line loads ---
-        xl = slice_x - half_width
-        xr = slice_x + half_width
+        # (neighbouring slices share an edge, a line load is on one of them)
+        edges = np.linspace(x_left, x_right, num_slices + 1)
+        xl = edges[:-1]
+        xr = edges[1:]
 
         for udl in self._udls:
             overlap = np.minimum(
@@ -1703,8 +1705,12 @@ class Slope:
         )
 
         # --- Add uniformly distributed loads (UDLs) ---
-        x_left = slice_x - half_slice
-        x_right = slice_x + half_slice
+        # (neighbouring slices share an edge, a line load is on one of them)
+        edges = np.linspace(
+            intersections[0][0], intersections[1][0], num_slices + 1
+        )
+        x_left = edges[:-1]
+        x_right = edges[1:]
         for udl in self._udls:
             overlap = np.minimum(
                 x_right,
-- 
2.43.0


From 8011fb9348c34a7c11cbef1850cdaacc219d3c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:12 +0000
Subject: [PATCH 42/42] fix: draw a water table at the level of the toe to the
 end of the model

---
 pyslope/pyslope.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 2cd447a..7cd116a 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -2481,11 +2481,11 @@ class Slope:
         x_line = [0, x]
         y_line = [y, y]
 
-        # if x is less than bot slope then is also same as saying x is less than
-        # the edge of the model.
+        # if the level isn't below the bot of the slope then the water table
+        # meets the ground before the edge of the model.
         # basically need to make sure the water table continues along the surface
         # as is conservatively considered in the model
-        if x <= self._bot_coord[0]:
+        if y >= self._bot_coord[1]:
             x_line += [self._bot_coord[0], self._external_length]
             y_line += [self._bot_coord[1], self._bot_coord[1]]
 
-- 
2.43.0

