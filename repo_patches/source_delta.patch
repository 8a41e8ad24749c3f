From 62725aaf0b96d22c412a029c5898aa93cfc3ce34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:10 +0000
Subject: [PATCH 01/37] fix: invalidate the padded view that a Pointclouds list
 setter replaces

The normals, colors and features list setters cleared a misspelt attribute, so
the padded view kept returning the old values.
---
 gradslam/structures/pointclouds.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gradslam/structures/pointclouds.py b/gradslam/structures/pointclouds.py
index 0dc49cd..ed238c5 100644
--- a/gradslam/structures/pointclouds.py
+++ b/gradslam/structures/pointclouds.py
@@ -847,7 +847,7 @@ class Pointclouds(object):
         """
         self._assert_set_list(value)
         self._normals_list = [v.clone().to(self.device) for v in value]
-        self._noramls_padded = None
+        self._normals_padded = None
 
     @colors_list.setter
     def colors_list(self, value: List[torch.Tensor]):
@@ -861,7 +861,7 @@ class Pointclouds(object):
         """
         self._assert_set_list(value)
         self._colors_list = [v.clone().to(self.device) for v in value]
-        self._noramls_padded = None
+        self._colors_padded = None
 
     @features_list.setter
     def features_list(self, value: List[torch.Tensor]):
@@ -875,7 +875,7 @@ class Pointclouds(object):
         """
         self._assert_set_list(value, first_dim_only=True)
         self._features_list = [v.clone().to(self.device) for v in value]
-        self._noramls_padded = None
+        self._features_padded = None
 
     @points_padded.setter
     def points_padded(self, value: torch.Tensor):
-- 
2.43.0


From 5527986113a7a7d588350af2b71fa06b4dc38783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:20 +0000
Subject: [PATCH 02/37] fix: rebuild each missing padded attribute of
 Pointclouds on its own

All four padded tensors were recomputed from lists only while the padded points
were missing: after an in-place rotation (or a padded setter) followed by a list
setter, attributes without a list were dropped, and an attribute whose
computation failed or was interrupted stayed None for good.
---
 gradslam/structures/pointclouds.py | 39 ++++++++++++------------------
 1 file changed, 15 insertions(+), 24 deletions(-)

diff --git a/gradslam/structures/pointclouds.py b/gradslam/structures/pointclouds.py
index ed238c5..5e0ffa5 100644
--- a/gradslam/structures/pointclouds.py
+++ b/gradslam/structures/pointclouds.py
@@ -954,45 +954,36 @@ class Pointclouds(object):
         if not self.has_points:
             return
 
-        if not (refresh or self._points_padded is None):
-            return
-
-        self._points_padded = structutils.list_to_padded(
-            self._points_list,
-            (self._N, 3),
-            pad_value=0.0,
-            equisized=self.equisized,
-        )
-        self._normals_padded = (
-            None
-            if self._normals_list is None
-            else structutils.list_to_padded(
+        if self._points_list is not None and (refresh or self._points_padded is None):
+            self._points_padded = structutils.list_to_padded(
+                self._points_list,
+                (self._N, 3),
+                pad_value=0.0,
+                equisized=self.equisized,
+            )
+        if self._normals_list is not None and (refresh or self._normals_padded is None):
+            self._normals_padded = structutils.list_to_padded(
                 self._normals_list,
                 (self._N, 3),
                 pad_value=0.0,
                 equisized=self.equisized,
             )
-        )
-        self._colors_padded = (
-            None
-            if self._colors_list is None
-            else structutils.list_to_padded(
+        if self._colors_list is not None and (refresh or self._colors_padded is None):
+            self._colors_padded = structutils.list_to_padded(
                 self._colors_list,
                 (self._N, 3),
                 pad_value=0.0,
                 equisized=self.equisized,
             )
-        )
-        self._features_padded = (
-            None
-            if self._features_list is None
-            else structutils.list_to_padded(
+        if self._features_list is not None and (
+            refresh or self._features_padded is None
+        ):
+            self._features_padded = structutils.list_to_padded(
                 self._features_list,
                 (self._N, self.num_features),
                 pad_value=0.0,
                 equisized=self.equisized,
             )
-        )
 
     def clone(self):
         r"""Returns deep copy of Pointclouds object. All internal tensors are cloned individually.
-- 
2.43.0


From 549ebbfbe71f5177c933b3da0d4d929605af54f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:36 +0000
Subject: [PATCH 03/37] fix: a Pointclouds attribute setter also marks the
 attribute as present

has_normals/has_colors/has_features remember their first answer, so an attribute
set after one of them had been read stayed invisible to indexing and appending.
---
 gradslam/structures/pointclouds.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gradslam/structures/pointclouds.py b/gradslam/structures/pointclouds.py
index 5e0ffa5..6460b46 100644
--- a/gradslam/structures/pointclouds.py
+++ b/gradslam/structures/pointclouds.py
@@ -848,6 +848,7 @@ class Pointclouds(object):
         self._assert_set_list(value)
         self._normals_list = [v.clone().to(self.device) for v in value]
         self._normals_padded = None
+        self._has_normals = True
 
     @colors_list.setter
     def colors_list(self, value: List[torch.Tensor]):
@@ -862,6 +863,7 @@ class Pointclouds(object):
         self._assert_set_list(value)
         self._colors_list = [v.clone().to(self.device) for v in value]
         self._colors_padded = None
+        self._has_colors = True
 
     @features_list.setter
     def features_list(self, value: List[torch.Tensor]):
@@ -876,6 +878,7 @@ class Pointclouds(object):
         self._assert_set_list(value, first_dim_only=True)
         self._features_list = [v.clone().to(self.device) for v in value]
         self._features_padded = None
+        self._has_features = True
 
     @points_padded.setter
     def points_padded(self, value: torch.Tensor):
@@ -910,6 +913,7 @@ class Pointclouds(object):
         self._assert_set_padded(value)
         self._normals_padded = value.clone().to(self.device)
         self._normals_list = None
+        self._has_normals = True
 
     @colors_padded.setter
     def colors_padded(self, value: torch.Tensor):
@@ -927,6 +931,7 @@ class Pointclouds(object):
         self._assert_set_padded(value)
         self._colors_padded = value.clone().to(self.device)
         self._colors_list = None
+        self._has_colors = True
 
     @features_padded.setter
     def features_padded(self, value: torch.Tensor):
@@ -944,6 +949,7 @@ class Pointclouds(object):
         self._assert_set_padded(value, first_2_dims_only=True)
         self._features_padded = value.clone().to(self.device)
         self._features_list = None
+        self._has_features = True
 
     def _compute_padded(self, refresh: bool = False):
         r"""Computes the padded version of pointclouds.
-- 
2.43.0


From b67536068d959a61c1519de31aa049b0ccca615f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 04/37] fix: Pointclouds.clone keeps sizes and list-only
 attributes of padded-only maps

A clone made while only the padded points existed was marked as equisized (so its
padding mask covered the padding) and lost attributes that existed only as lists.
---
 gradslam/structures/pointclouds.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gradslam/structures/pointclouds.py b/gradslam/structures/pointclouds.py
index 6460b46..ec0091a 100644
--- a/gradslam/structures/pointclouds.py
+++ b/gradslam/structures/pointclouds.py
@@ -1034,6 +1034,12 @@ class Pointclouds(object):
             colors=new_colors,
             features=new_features,
         )
+        other._N = self._N
+        other.equisized = self.equisized
+        for k in ["_normals_list", "_colors_list", "_features_list"]:
+            v = getattr(self, k)
+            if v is not None and getattr(other, k) is None:
+                setattr(other, k, [x.clone() for x in v])
         for k in self._INTERNAL_TENSORS:
             v = getattr(self, k)
             if torch.is_tensor(v):
-- 
2.43.0


From da0eb44c9ed1c70ed25aa2272754cf8c2455d6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 05/37] fix: in-place Pointclouds operations leave the map as
 it was when they fail

append_points, rotate_, transform_ and the padding mask updated the object step by
step, so running out of memory half way left points without matching normals,
colors, features or counts. Compute everything first, then update.
---
 gradslam/structures/pointclouds.py | 99 +++++++++++++++++-------------
 1 file changed, 58 insertions(+), 41 deletions(-)

diff --git a/gradslam/structures/pointclouds.py b/gradslam/structures/pointclouds.py
index ec0091a..5332951 100644
--- a/gradslam/structures/pointclouds.py
+++ b/gradslam/structures/pointclouds.py
@@ -503,20 +503,23 @@ class Pointclouds(object):
 
         # update padded representation
         if rmat.ndim == 2:
-            self._points_padded = torch.einsum("bij,jk->bik", self.points_padded, rmat)
-            self._normals_padded = (
+            points_padded = torch.einsum("bij,jk->bik", self.points_padded, rmat)
+            normals_padded = (
                 None
                 if self.normals_padded is None
                 else torch.einsum("bij,jk->bik", self.normals_padded, rmat)
             )
         elif rmat.ndim == 3:
-            self._points_padded = torch.einsum("bij,bjk->bik", self.points_padded, rmat)
-            self._normals_padded = (
+            points_padded = torch.einsum("bij,bjk->bik", self.points_padded, rmat)
+            normals_padded = (
                 None
                 if self.normals_padded is None
                 else torch.einsum("bij,bjk->bik", self.normals_padded, rmat)
             )
 
+        self._points_padded = points_padded
+        self._normals_padded = normals_padded
+
         # force update of list representation
         self._points_list = None
         self._normals_list = None
@@ -570,7 +573,20 @@ class Pointclouds(object):
         while tvec.ndim < self.points_padded.ndim:
             tvec = tvec.unsqueeze(-2)
 
-        return self.rotate_(rmat, pre_multiplication=pre_multiplication).offset_(tvec)
+        # nothing is updated until both steps have succeeded
+        rotated = Pointclouds(self.points_padded, self.normals_padded).rotate_(
+            rmat, pre_multiplication=pre_multiplication
+        )
+        self._points_padded = rotated.points_padded + (
+            tvec * self.nonpad_mask.to(self.points_padded.dtype).unsqueeze(-1)
+        )
+        self._normals_padded = rotated.normals_padded
+
+        # force update of list representation
+        self._points_list = None
+        self._normals_list = None
+
+        return self
 
     def pinhole_projection_(self, intrinsics: torch.Tensor):
         r"""Projects Pointclouds' points onto :math:`z=1` plane using intrinsics of a pinhole camera. In place
@@ -798,14 +814,15 @@ class Pointclouds(object):
             - Output: :math:`(B, N)`
         """
         if self._nonpad_mask is None and self.has_points:
-            self._nonpad_mask = torch.ones(
+            nonpad_mask = torch.ones(
                 (self._B, self._N), dtype=torch.bool, device=self.device
             )
             if self.equisized:
-                self._nonpad_mask[:, self._num_points_per_pointcloud[0] :] = 0
+                nonpad_mask[:, self._num_points_per_pointcloud[0] :] = 0
             else:
                 for b in range(self._B):
-                    self._nonpad_mask[b, self._num_points_per_pointcloud[b] :] = 0
+                    nonpad_mask[b, self._num_points_per_pointcloud[b] :] = 0
+            self._nonpad_mask = nonpad_mask
         return self._nonpad_mask
 
     @property
@@ -1145,32 +1162,20 @@ class Pointclouds(object):
 
         if not self.has_points:
             if pointclouds.has_points:
-                self._points_list = [
-                    p.clone().to(self.device) for p in pointclouds.points_list
-                ]
-                if pointclouds.has_normals:
-                    self._normals_list = [
-                        n.clone().to(self.device) for n in pointclouds.normals_list
-                    ]
-                if pointclouds.has_colors:
-                    self._colors_list = [
-                        c.clone().to(self.device) for c in pointclouds.colors_list
-                    ]
-                if pointclouds.has_features:
-                    self._features_list = [
-                        f.clone().to(self.device) for f in pointclouds.features_list
-                    ]
-                self._has_points = pointclouds._has_points
-                self._has_normals = pointclouds._has_normals
-                self._has_colors = pointclouds._has_colors
-                self._has_features = pointclouds._has_features
+                other = pointclouds.clone()
+                self._points_list = other._points_list
+                self._normals_list = other._normals_list
+                self._colors_list = other._colors_list
+                self._features_list = other._features_list
+                self._has_points = other.has_points
+                self._has_normals = other.has_normals
+                self._has_colors = other.has_colors
+                self._has_features = other.has_features
                 self._B = pointclouds._B
                 self._N = pointclouds._N
                 self.equisized = pointclouds.equisized
                 for k in self._INTERNAL_TENSORS:
-                    v = getattr(pointclouds, k)
-                    if torch.is_tensor(v):
-                        setattr(self, k, v.clone())
+                    setattr(self, k, getattr(other, k))
             return self
 
         if not (len(pointclouds) == len(self)):
@@ -1203,38 +1208,50 @@ class Pointclouds(object):
                     pointclouds.num_features, self.num_features
                 )
             )
-        self._points_list = [
+        # nothing is updated until everything has been computed
+        points_list = [
             torch.cat([self.points_list[b], pointclouds.points_list[b]], 0)
             for b in range(self._B)
         ]
-        self._points_padded = None
 
         if self.has_normals:
-            self._normals_list = [
+            normals_list = [
                 torch.cat([self.normals_list[b], pointclouds.normals_list[b]], 0)
                 for b in range(self._B)
             ]
-            self._normals_padded = None
 
         if self.has_colors:
-            self._colors_list = [
+            colors_list = [
                 torch.cat([self.colors_list[b], pointclouds.colors_list[b]], 0)
                 for b in range(self._B)
             ]
-            self._colors_padded = None
 
         if self.has_features:
-            self._features_list = [
+            features_list = [
                 torch.cat([self.features_list[b], pointclouds.features_list[b]], 0)
                 for b in range(self._B)
             ]
-            self._features_padded = None
 
-        self._num_points_per_pointcloud = (
+        num_points_per_pointcloud = (
             self._num_points_per_pointcloud + pointclouds._num_points_per_pointcloud
         )
-        self.equisized = len(self._num_points_per_pointcloud.unique()) == 1
-        self._N = self._num_points_per_pointcloud.max()
+        equisized = len(num_points_per_pointcloud.unique()) == 1
+        max_num_points = num_points_per_pointcloud.max()
+
+        self._points_list = points_list
+        self._points_padded = None
+        if self.has_normals:
+            self._normals_list = normals_list
+            self._normals_padded = None
+        if self.has_colors:
+            self._colors_list = colors_list
+            self._colors_padded = None
+        if self.has_features:
+            self._features_list = features_list
+            self._features_padded = None
+        self._num_points_per_pointcloud = num_points_per_pointcloud
+        self.equisized = equisized
+        self._N = max_num_points
         self._nonpad_mask = None
 
         return self
-- 
2.43.0


From 011b3ae63b75e06148c7b5fe79ea91bc4cce283e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 06/37] fix: RGBDImages.depth_image can be set, and the valid
 depth mask follows it

The setter read a shape attribute that only a layout change created (it raised
AttributeError on any other object) and kept the mask of the previous depths.
---
 gradslam/structures/rgbdimages.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gradslam/structures/rgbdimages.py b/gradslam/structures/rgbdimages.py
index 4ab0011..3c4d44f 100644
--- a/gradslam/structures/rgbdimages.py
+++ b/gradslam/structures/rgbdimages.py
@@ -118,7 +118,7 @@ class RGBDImages(object):
             raise ValueError(msg)
 
         self._rgb_image_shape = rgb_image.shape
-        self._depth_shape = tuple(
+        self._depth_image_shape = tuple(
             v if i != self.cdim else 1 for i, v in enumerate(rgb_image.shape)
         )
         self._intrinsics_shape = (rgb_image.shape[0], 1, 4, 4)
@@ -133,9 +133,9 @@ class RGBDImages(object):
         if rgb_image.shape[self.cdim] != 3:
             msg = "Expected rgb_image to have 3 channels on dimension {0}. Got {1} instead"
             raise ValueError(msg.format(self.cdim, rgb_image.shape[self.cdim]))
-        if depth_image.shape != self._depth_shape:
+        if depth_image.shape != self._depth_image_shape:
             msg = "Expected depth_image to have shape {0}. Got {1} instead"
-            raise ValueError(msg.format(self._depth_shape, depth_image.shape))
+            raise ValueError(msg.format(self._depth_image_shape, depth_image.shape))
         if intrinsics.shape != self._intrinsics_shape:
             msg = "Expected intrinsics to have shape {0}. Got {1} instead"
             raise ValueError(msg.format(self._intrinsics_shape, intrinsics.shape))
@@ -423,6 +423,7 @@ class RGBDImages(object):
         if value is not None:
             self._assert_shape(value, self._depth_image_shape)
         self._depth_image = value
+        self._valid_depth_mask = None
         self._vertex_map = None
         self._normal_map = None
         self._global_vertex_map = None
-- 
2.43.0


From 88fda86993d6002ccf48da3bda5e00ebd2a8b6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 07/37] fix: RGBDImages layout changes drop the stale valid
 depth mask and are all-or-nothing

to_channels_first_/to_channels_last_ left the mask in the old layout (later maps
were masked with the wrong pixels, or failed), and running out of memory half way
left some images permuted and some not.
---
 gradslam/structures/rgbdimages.py | 42 ++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/gradslam/structures/rgbdimages.py b/gradslam/structures/rgbdimages.py
index 3c4d44f..bce0193 100644
--- a/gradslam/structures/rgbdimages.py
+++ b/gradslam/structures/rgbdimages.py
@@ -583,12 +583,21 @@ class RGBDImages(object):
             return self
         ordering = (0, 1, 3, 4, 2)  # B L C H W -> B L H W C
         permute = RGBDImages._permute_if_not_None
-        self._rgb_image = permute(self._rgb_image, ordering)
-        self._depth_image = permute(self._depth_image, ordering)
-        self._vertex_map = permute(self._vertex_map, ordering)
-        self._global_vertex_map = permute(self._global_vertex_map, ordering)
-        self._normal_map = permute(self._normal_map, ordering)
-        self._global_normal_map = permute(self._global_normal_map, ordering)
+        # nothing is updated until everything has been permuted
+        rgb_image = permute(self._rgb_image, ordering)
+        depth_image = permute(self._depth_image, ordering)
+        vertex_map = permute(self._vertex_map, ordering)
+        global_vertex_map = permute(self._global_vertex_map, ordering)
+        normal_map = permute(self._normal_map, ordering)
+        global_normal_map = permute(self._global_normal_map, ordering)
+
+        self._rgb_image = rgb_image
+        self._depth_image = depth_image
+        self._vertex_map = vertex_map
+        self._global_vertex_map = global_vertex_map
+        self._normal_map = normal_map
+        self._global_normal_map = global_normal_map
+        self._valid_depth_mask = None
 
         self._channels_first = False
         self._rgb_image_shape = tuple(self._rgb_image.shape)
@@ -605,12 +614,21 @@ class RGBDImages(object):
             return self
         ordering = (0, 1, 4, 2, 3)  # B L H W C -> B L C H W
         permute = RGBDImages._permute_if_not_None
-        self._rgb_image = permute(self._rgb_image, ordering)
-        self._depth_image = permute(self._depth_image, ordering)
-        self._vertex_map = permute(self._vertex_map, ordering)
-        self._global_vertex_map = permute(self._global_vertex_map, ordering)
-        self._normal_map = permute(self._normal_map, ordering)
-        self._global_normal_map = permute(self._global_normal_map, ordering)
+        # nothing is updated until everything has been permuted
+        rgb_image = permute(self._rgb_image, ordering)
+        depth_image = permute(self._depth_image, ordering)
+        vertex_map = permute(self._vertex_map, ordering)
+        global_vertex_map = permute(self._global_vertex_map, ordering)
+        normal_map = permute(self._normal_map, ordering)
+        global_normal_map = permute(self._global_normal_map, ordering)
+
+        self._rgb_image = rgb_image
+        self._depth_image = depth_image
+        self._vertex_map = vertex_map
+        self._global_vertex_map = global_vertex_map
+        self._normal_map = normal_map
+        self._global_normal_map = global_normal_map
+        self._valid_depth_mask = None
 
         self._channels_first = True
         self._rgb_image_shape = tuple(self._rgb_image.shape)
-- 
2.43.0


From 3e674abc332702dc8723ba8a98a52acddfe1fc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 08/37] fix: RGBDImages caches a derived map only once it is
 complete

The unmasked, untranslated or unnormalised intermediate was stored in the cache
first: a failure in the middle left it there to be returned as the finished map,
and another reader of the same object could pick it up.
---
 gradslam/structures/rgbdimages.py | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/gradslam/structures/rgbdimages.py b/gradslam/structures/rgbdimages.py
index bce0193..11fa4b6 100644
--- a/gradslam/structures/rgbdimages.py
+++ b/gradslam/structures/rgbdimages.py
@@ -683,18 +683,18 @@ class RGBDImages(object):
         Kinv = Kinv.repeat(1, L, 1, 1)
         # Add an extra channel of ones to meshgrid for z values
         if self.channels_first:
-            self._vertex_map = (
+            vertex_map = (
                 torch.einsum("bsjc,bshwc->bsjhw", Kinv, self._pixel_pos)
                 * self._depth_image
             )
         else:
-            self._vertex_map = (
+            vertex_map = (
                 torch.einsum("bsjc,bshwc->bshwj", Kinv, self._pixel_pos)
                 * self._depth_image
             )
         # zero out missing depth values
-        self._vertex_map = self._vertex_map * self.valid_depth_mask.to(
-            self._vertex_map.dtype
+        self._vertex_map = vertex_map * self.valid_depth_mask.to(
+            vertex_map.dtype
         )
 
     def _compute_global_vertex_map(self):
@@ -711,19 +711,19 @@ class RGBDImages(object):
         # TODO: Time tests for all einsums. Might not be efficient (especially on cpu).
         # Add an extra channel of ones to meshgrid for z values
         if self.channels_first:
-            self._global_vertex_map = torch.einsum(
+            global_vertex_map = torch.einsum(
                 "bsjc,bschw->bsjhw", rmat, local_vertex_map
             )
-            self._global_vertex_map = self._global_vertex_map + tvec.view(B, L, 3, 1, 1)
+            global_vertex_map = global_vertex_map + tvec.view(B, L, 3, 1, 1)
         else:
-            self._global_vertex_map = torch.einsum(
+            global_vertex_map = torch.einsum(
                 "bsjc,bshwc->bshwj", rmat, local_vertex_map
             )
-            self._global_vertex_map = self._global_vertex_map + tvec.view(B, L, 1, 1, 3)
+            global_vertex_map = global_vertex_map + tvec.view(B, L, 1, 1, 3)
 
         # zero out missing depth values
-        self._global_vertex_map = self._global_vertex_map * self.valid_depth_mask.to(
-            self._global_vertex_map.dtype
+        self._global_vertex_map = global_vertex_map * self.valid_depth_mask.to(
+            global_vertex_map.dtype
         )
 
     def _compute_normal_map(self):
@@ -753,13 +753,11 @@ class RGBDImages(object):
         normal_map: torch.Tensor = torch.cross(dhoriz, dverti, dim=dim)
         norm: torch.Tensor = normal_map.norm(dim=dim).unsqueeze(dim)
 
-        self._normal_map: torch.Tensor = normal_map / torch.where(
+        normal_map = normal_map / torch.where(
             norm == 0, torch.ones_like(norm), norm
         )
         # zero out missing depth values
-        self._normal_map = self._normal_map * self.valid_depth_mask.to(
-            self._normal_map.dtype
-        )
+        self._normal_map = normal_map * self.valid_depth_mask.to(normal_map.dtype)
 
     def _compute_global_normal_map(self):
         r"""Coverts a batch of local noraml maps into a batch of global normal maps."""
-- 
2.43.0


From e5b30be48a4c5de402c5a1b11d7f853ef8f288d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 09/37] fix: fuse_with_map(inplace=False) no longer changes the
 caller's map

The copy was made after the corresponding points had been merged into the input.
---
 gradslam/slam/fusionutils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gradslam/slam/fusionutils.py b/gradslam/slam/fusionutils.py
index b5d89a2..badab24 100644
--- a/gradslam/slam/fusionutils.py
+++ b/gradslam/slam/fusionutils.py
@@ -650,6 +650,9 @@ def fuse_with_map(
                 "Pointclouds must have features (ccounts) for map fusion, but did not."
             )
 
+    if not inplace:
+        pointclouds = pointclouds.clone()
+
     # Fuse points (from live frame) with corresponding global map points
     vertex_maps = rgbdimages.global_vertex_map
     normal_maps = rgbdimages.global_normal_map
@@ -715,8 +718,6 @@ def fuse_with_map(
     new_pointclouds = Pointclouds(
         points=new_points, normals=new_normals, colors=new_colors, features=new_features
     )
-    if not inplace:
-        pointclouds = pointclouds.clone()
     pointclouds.append_points(new_pointclouds)
 
     return pointclouds
-- 
2.43.0


From 5a5dbbb21ce25ea4d021b53cdc0807c702250fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 10/37] fix: step(inplace=False) no longer changes the caller's
 live frame

The documented default is out-of-place, but the poses of live_frame were replaced
(and left at the previous frame's poses when the step failed).
---
 gradslam/slam/icpslam.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gradslam/slam/icpslam.py b/gradslam/slam/icpslam.py
index ea337f7..95fee09 100644
--- a/gradslam/slam/icpslam.py
+++ b/gradslam/slam/icpslam.py
@@ -173,6 +173,8 @@ class ICPSLAM(nn.Module):
                     type(live_frame)
                 )
             )
+        if not inplace:
+            live_frame = live_frame.clone()
         live_frame.poses = self._localize(pointclouds, live_frame, prev_frame)
         pointclouds = self._map(pointclouds, live_frame, inplace)
         return pointclouds, live_frame.poses
-- 
2.43.0


From 35a448940f60b871028866f743eebf52b977e12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:53 +0000
Subject: [PATCH 11/37] fix: TUM trajectories with NaN lines or a null
 quaternion can be read

A NaN line raised NameError (sys was not imported) instead of being skipped with a
warning, and the identity-rotation branch of transform44 lacked commas.
---
 gradslam/datasets/tumutils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gradslam/datasets/tumutils.py b/gradslam/datasets/tumutils.py
index 156068e..d8eb834 100644
--- a/gradslam/datasets/tumutils.py
+++ b/gradslam/datasets/tumutils.py
@@ -43,6 +43,7 @@ images to depth images.
 This script contains helpers for reading the time stamps from e.g. the "rgb.txt" file and the "depth.txt" file, 
 and joining them by finding the best matches.
 """
+import sys
 from typing import Optional
 
 import numpy as np
@@ -73,9 +74,10 @@ def transform44(l: tuple):
     if nq < _EPS:
         return np.array(
             (
-                (1.0, 0.0, 0.0, t[0])(0.0, 1.0, 0.0, t[1])(0.0, 0.0, 1.0, t[2])(
-                    0.0, 0.0, 0.0, 1.0
-                )
+                (1.0, 0.0, 0.0, t[0]),
+                (0.0, 1.0, 0.0, t[1]),
+                (0.0, 0.0, 1.0, t[2]),
+                (0.0, 0.0, 0.0, 1.0),
             ),
             dtype=np.float64,
         )
-- 
2.43.0


From 83f7e9143475f936262c9afa86bab9e4ca699f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:53 +0000
Subject: [PATCH 12/37] fix: TUM associations are returned in time order

The matched stamps are strings and were sorted alphabetically, so a recording whose
stamps gain a digit (9.98 -> 10.01) was shuffled.
---
 gradslam/datasets/tumutils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gradslam/datasets/tumutils.py b/gradslam/datasets/tumutils.py
index d8eb834..0b6524b 100644
--- a/gradslam/datasets/tumutils.py
+++ b/gradslam/datasets/tumutils.py
@@ -214,5 +214,6 @@ def associate(
             second_keys.remove(b)
             matches.append((a, b))
 
-    matches.sort()
+    # stamps are strings: sort them by time, not alphabetically
+    matches.sort(key=lambda match: (float(match[0]), float(match[1])))
     return matches
-- 
2.43.0


From 891810386d3493401eb87c845ed60f8c465a1f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:53 +0000
Subject: [PATCH 13/37] fix: ICL poses follow the frames when start > 0

Pose line numbers were counted from the first extracted frame, so every pose was
off by start frames.
---
 gradslam/datasets/icl.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gradslam/datasets/icl.py b/gradslam/datasets/icl.py
index a1f5e1c..79ae619 100644
--- a/gradslam/datasets/icl.py
+++ b/gradslam/datasets/icl.py
@@ -335,17 +335,19 @@ class ICL(data.Dataset):
                 )
 
                 if self.load_poses:
-                    if line_num * 4 > len_posesfile:
+                    # poses are numbered from the beginning of the trajectory
+                    pose_num = start + line_num
+                    if pose_num * 4 > len_posesfile:
                         msg = '{0}th pose should start from line {1} of file "{2}", but said file has only {3} lines.'
                         raise ValueError(
                             msg.format(
-                                line_num,
-                                line_num * 4,
+                                pose_num,
+                                pose_num * 4,
                                 os.path.join(*posesfile.split(os.sep)[-2:]),
                                 len_posesfile,
                             )
                         )
-                    traj_poselinenums.append(line_num * 4)
+                    traj_poselinenums.append(pose_num * 4)
 
                 traj_framenames.append(
                     os.path.join(trajectory_name, line[1][6:].split(".")[0])
-- 
2.43.0


From ff45b17618648c79e3decafeb8418ce71a75a8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:53 +0000
Subject: [PATCH 14/37] fix: ICL fails loudly when the poses file ends before a
 frame's pose

A truncated poses file silently gave a sample with fewer poses than frames.
---
 gradslam/datasets/icl.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gradslam/datasets/icl.py b/gradslam/datasets/icl.py
index 79ae619..79e47ab 100644
--- a/gradslam/datasets/icl.py
+++ b/gradslam/datasets/icl.py
@@ -571,4 +571,8 @@ class ICL(data.Dataset):
                 pose = []
                 parsing_pose = False
 
+        if len(poses) != len(start_lines):
+            msg = "Faulty poses file: Expected {0} poses in {1}, but only found {2}."
+            raise ValueError(msg.format(len(start_lines), pose_path, len(poses)))
+
         return poses
-- 
2.43.0


From 87d37a50ea8188d18212058726c9eb51b4a3d1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:53 +0000
Subject: [PATCH 15/37] fix: ICL and TUM order sequences by name, not by
 directory enumeration

os.listdir returns entries in arbitrary order, so the same index named different
sequences on different machines.
---
 gradslam/datasets/icl.py | 2 +-
 gradslam/datasets/tum.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gradslam/datasets/icl.py b/gradslam/datasets/icl.py
index 79e47ab..fb163c2 100644
--- a/gradslam/datasets/icl.py
+++ b/gradslam/datasets/icl.py
@@ -245,7 +245,7 @@ class ICL(data.Dataset):
             )
             dirmsg += "| │   │   ├── rgb/\n| │   │   ├── associations.txt\n"
             dirmsg += "| │   │   └── livingRoom{0}n.gt.sim\n".format(str(i))
-        for item in os.listdir(basedir):
+        for item in sorted(os.listdir(basedir)):
             if (
                 os.path.isdir(os.path.join(basedir, item))
                 and item in valid_trajectory_dirs
diff --git a/gradslam/datasets/tum.py b/gradslam/datasets/tum.py
index 41e2a70..e4fd400 100644
--- a/gradslam/datasets/tum.py
+++ b/gradslam/datasets/tum.py
@@ -219,7 +219,7 @@ class TUM(data.Dataset):
         dirmsg += "| │   │   ├── rgb/\n| │   │   ├── accelerometer.txt\n"
         dirmsg += "| │   │   └── depth.txt\n| │   │   └── groundtruth.txt\n"
         dirmsg += "| │   │   └── rgb.txt\n| │   ├── ..."
-        for item in os.listdir(basedir):
+        for item in sorted(os.listdir(basedir)):
             if os.path.isdir(os.path.join(basedir, item)):
                 split = item.split("_")
                 if (
-- 
2.43.0


From 4027d5719938b7a90b03f8539cfc84201783145b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:53 +0000
Subject: [PATCH 16/37] fix: ICL and TUM samples carry their own copy of the
 intrinsics

Every sample shared the dataset's tensor: changing one in place changed all later
samples.
---
 gradslam/datasets/icl.py | 2 +-
 gradslam/datasets/tum.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gradslam/datasets/icl.py b/gradslam/datasets/icl.py
index fb163c2..78a3d0d 100644
--- a/gradslam/datasets/icl.py
+++ b/gradslam/datasets/icl.py
@@ -448,7 +448,7 @@ class ICL(data.Dataset):
             output.append(depth_seq)
 
         if self.return_intrinsics:
-            intrinsics = self.intrinsics
+            intrinsics = self.intrinsics.clone()
             output.append(intrinsics)
 
         if self.return_pose:
diff --git a/gradslam/datasets/tum.py b/gradslam/datasets/tum.py
index e4fd400..f91726e 100644
--- a/gradslam/datasets/tum.py
+++ b/gradslam/datasets/tum.py
@@ -408,7 +408,7 @@ class TUM(data.Dataset):
             output.append(depth_seq)
 
         if self.return_intrinsics:
-            intrinsics = self.intrinsics
+            intrinsics = self.intrinsics.clone()
             output.append(intrinsics)
 
         if self.return_pose:
-- 
2.43.0


From f63506de641ac7d9799af3a64b538126534caa78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:11 +0000
Subject: [PATCH 17/37] fix: ScanNet fetches every frame of each sequence,
 whatever their lengths

With end=-1 the length of the last sequence was used for all of them, so longer
sequences were cut and shorter ones raised IndexError on fetch (which silently ends
a plain iteration over the dataset). An end beyond a sequence, which failed in the
same way, is now rejected when the dataset is opened, like an end beyond its length.
---
 gradslam/datasets/scannet.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gradslam/datasets/scannet.py b/gradslam/datasets/scannet.py
index 9871eb6..459c42c 100644
--- a/gradslam/datasets/scannet.py
+++ b/gradslam/datasets/scannet.py
@@ -144,9 +144,9 @@ class Scannet(data.Dataset):
                 if full_sequence:
                     self.end = len(lines)
                     self.seqlen = self.end - self.start
-                if self.seqlen > len(lines):
-                    msg = "sequence length can't be larger than dataset sequence length but it was: %r > %r"
-                    raise ValueError(msg % (self.seqlen, len(lines)))
+                if self.end > len(lines):
+                    msg = "end frame can't be larger than dataset sequence length but it was: %r > %r"
+                    raise ValueError(msg % (self.end, len(lines)))
                 lines = lines[self.start : self.end]
 
             for line in lines:
@@ -228,7 +228,7 @@ class Scannet(data.Dataset):
 
         color_seq, depth_seq, pose_seq, label_seq = [], [], [], []
         poses = []
-        for i in range(self.seqlen):
+        for i in range(len(color_seq_path)):
             color = np.asarray(imageio.imread(color_seq_path[i]), dtype=float)
             color = self._preprocess_color(color)
             color = torch.from_numpy(color)
-- 
2.43.0


From a85577a2ba61512742c65b57e00f34f2d6fc4a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:11 +0000
Subject: [PATCH 18/37] fix: a frozen CfgNode rejects merges

freeze() promises immutability, but merge_from_other_cfg, merge_from_file and
merge_from_list wrote straight into the dict and changed frozen configurations.
---
 gradslam/config/cfgnode.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gradslam/config/cfgnode.py b/gradslam/config/cfgnode.py
index 661eda1..59458ab 100644
--- a/gradslam/config/cfgnode.py
+++ b/gradslam/config/cfgnode.py
@@ -203,6 +203,7 @@ class CfgNode(dict):
         Args:
             cfg_other
         """
+        self._assert_mutable()
         _merge_a_into_b(cfg_other, self, self, [])
 
     def merge_from_list(self, cfg_list: list):
@@ -210,6 +211,7 @@ class CfgNode(dict):
 
         Eg. `cfg_list = ['FOO.BAR', 0.5]`.
         """
+        self._assert_mutable()
         _assert_with_logging(
             len(cfg_list) % 2 == 0,
             "Override list has odd lengths: {}; it must be a list of pairs".format(
@@ -247,6 +249,11 @@ class CfgNode(dict):
         r"""Return mutability. """
         return self.__dict__[CfgNode.IMMUTABLE]
 
+    def _assert_mutable(self):
+        r"""Raise if this `CfgNode` is immutable. """
+        if self.is_frozen():
+            raise AttributeError("Attempted to merge into an immutable CfgNode")
+
     def _immutable(self, is_immutable: bool):
         r"""Set mutability and recursively apply to all nested `CfgNode` objects.
 
-- 
2.43.0


From 7ed00be2cdb409e007d94aa5202aaabf6c78215d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:28 +0000
Subject: [PATCH 19/37] fix: Scannet refuses a pose file that does not hold a 4
 x 4 matrix

---
 gradslam/datasets/scannet.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gradslam/datasets/scannet.py b/gradslam/datasets/scannet.py
index 459c42c..aad5fe1 100644
--- a/gradslam/datasets/scannet.py
+++ b/gradslam/datasets/scannet.py
@@ -242,6 +242,12 @@ class Scannet(data.Dataset):
 
             if self.return_pose or self.return_transform:
                 pose = np.loadtxt(pose_seq_path[i]).astype(float)
+                if pose.shape != (4, 4):
+                    raise ValueError(
+                        "Pose file {} does not hold a 4 x 4 matrix. Got shape: {}.".format(
+                            pose_seq_path[i], pose.shape
+                        )
+                    )
                 poses.append(pose)
                 pose = torch.from_numpy(pose)
                 pose_seq.append(pose)
-- 
2.43.0


From f3afe1e571d7dbc9452754af3b9e9b69db70b03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:12 +0000
Subject: [PATCH 20/37] fix: what a look under no_grad caches keeps its
 gradients

---
 gradslam/structures/pointclouds.py | 5 +++++
 gradslam/structures/rgbdimages.py  | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/gradslam/structures/pointclouds.py b/gradslam/structures/pointclouds.py
index 5332951..eddb0c3 100644
--- a/gradslam/structures/pointclouds.py
+++ b/gradslam/structures/pointclouds.py
@@ -696,6 +696,7 @@ class Pointclouds(object):
             return self._features_list[0].shape[-1]
 
     @property
+    @torch.enable_grad()
     def points_list(self):
         r"""Gets the list representation of the points.
 
@@ -710,6 +711,7 @@ class Pointclouds(object):
         return self._points_list
 
     @property
+    @torch.enable_grad()
     def normals_list(self):
         r"""Gets the list representation of the point normals.
 
@@ -724,6 +726,7 @@ class Pointclouds(object):
         return self._normals_list
 
     @property
+    @torch.enable_grad()
     def colors_list(self):
         r"""Gets the list representation of the point colors.
 
@@ -738,6 +741,7 @@ class Pointclouds(object):
         return self._colors_list
 
     @property
+    @torch.enable_grad()
     def features_list(self):
         r"""Gets the list representation of the point features.
 
@@ -968,6 +972,7 @@ class Pointclouds(object):
         self._features_list = None
         self._has_features = True
 
+    @torch.enable_grad()
     def _compute_padded(self, refresh: bool = False):
         r"""Computes the padded version of pointclouds.
 
diff --git a/gradslam/structures/rgbdimages.py b/gradslam/structures/rgbdimages.py
index 11fa4b6..a798039 100644
--- a/gradslam/structures/rgbdimages.py
+++ b/gradslam/structures/rgbdimages.py
@@ -659,6 +659,7 @@ class RGBDImages(object):
             else tensor.permute(*ordering)
         )
 
+    @torch.enable_grad()
     def _compute_vertex_map(self):
         r"""Coverts a batch of depth images into a batch of vertex maps."""
         B, L = self.shape[:2]
@@ -697,6 +698,7 @@ class RGBDImages(object):
             vertex_map.dtype
         )
 
+    @torch.enable_grad()
     def _compute_global_vertex_map(self):
         r"""Coverts a batch of local vertex maps into a batch of global vertex maps."""
         if self._poses is None:
@@ -726,6 +728,7 @@ class RGBDImages(object):
             global_vertex_map.dtype
         )
 
+    @torch.enable_grad()
     def _compute_normal_map(self):
         r"""Converts a batch of vertex maps to a batch of normal maps."""
         dhoriz: torch.Tensor = torch.zeros_like(self.vertex_map)
@@ -759,6 +762,7 @@ class RGBDImages(object):
         # zero out missing depth values
         self._normal_map = normal_map * self.valid_depth_mask.to(normal_map.dtype)
 
+    @torch.enable_grad()
     def _compute_global_normal_map(self):
         r"""Coverts a batch of local noraml maps into a batch of global normal maps."""
         if self._poses is None:
-- 
2.43.0


From f39ea929a8637f6ffc4af9864133c0ff0f84aeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:56 +0000
Subject: [PATCH 21/37] fix: alignment without an initial transform starts at
 the identity, as documented

---
 gradslam/odometry/icputils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gradslam/odometry/icputils.py b/gradslam/odometry/icputils.py
index b7ecc42..710d9a0 100644
--- a/gradslam/odometry/icputils.py
+++ b/gradslam/odometry/icputils.py
@@ -295,13 +295,13 @@ def point_to_plane_ICP(
         raise TypeError(
             "Expected numiters to be of type int. Got {0}.".format(type(numiters))
         )
-    if initial_transform.ndim != 2:
+    if initial_transform is not None and initial_transform.ndim != 2:
         raise ValueError(
             "Expected initial_transform.ndim to be 2. Got {0}.".format(
                 initial_transform.ndim
             )
         )
-    if not (initial_transform.shape[0] == 4 and initial_transform.shape[1] == 4):
+    if initial_transform is not None and initial_transform.shape != (4, 4):
         raise ValueError(
             "Expected initial_transform.shape to be (4, 4). Got {0}.".format(
                 initial_transform.shape
@@ -464,13 +464,13 @@ def point_to_plane_gradICP(
         raise TypeError(
             "Expected nu to be of type float or int; got {0}".format(type(nu))
         )
-    if initial_transform.ndim != 2:
+    if initial_transform is not None and initial_transform.ndim != 2:
         raise ValueError(
             "Expected initial_transform.ndim to be 2. Got {0}.".format(
                 initial_transform.ndim
             )
         )
-    if not (initial_transform.shape[0] == 4 and initial_transform.shape[1] == 4):
+    if initial_transform is not None and initial_transform.shape != (4, 4):
         raise ValueError(
             "Expected initial_transform.shape to be (4, 4). Got {0}.".format(
                 initial_transform.shape
-- 
2.43.0


From 4485958016194384b619e79a9a25909e609e0f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:56 +0000
Subject: [PATCH 22/37] fix: fusion keeps point indices exact in maps of more
 than 2^24 points

---
 gradslam/slam/fusionutils.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/gradslam/slam/fusionutils.py b/gradslam/slam/fusionutils.py
index badab24..3bb2c58 100644
--- a/gradslam/slam/fusionutils.py
+++ b/gradslam/slam/fusionutils.py
@@ -4,7 +4,6 @@ from typing import Union
 import torch
 from kornia.geometry.linalg import inverse_transformation
 
-from ..geometry.geometryutils import create_meshgrid
 from ..structures.pointclouds import Pointclouds
 from ..structures.rgbdimages import RGBDImages
 from ..structures.utils import pointclouds_from_rgbdimages
@@ -272,14 +271,9 @@ def find_active_map_points(
         ],
         -1,
     )  # height, width
-    batch_size, num_points = in_plane_pos.shape[:2]
-    batch_point_idx = (
-        create_meshgrid(batch_size, num_points, normalized_coords=False)
-        .squeeze(0)
-        .to(device)
-    )
-    idx_and_plane_pos = torch.cat([batch_point_idx.long(), in_plane_pos], -1)
-    pc2im_bnhw = idx_and_plane_pos[is_in_frame]  # (?, 4)
+    pc2im_bnhw = torch.cat(
+        [is_in_frame.nonzero(), in_plane_pos[is_in_frame]], -1
+    )  # (?, 4)
 
     if pc2im_bnhw.shape[0] == 0:
         warnings.warn("No active map points were found")
@@ -508,11 +502,11 @@ def find_best_unique_correspondences(
     )
     # unique criteria: [B, H, W, 1/ccounts, ray_dists, N]
     unique_criteria_bhwcrn = [
-        pc2im_bnhw[:, 0:1].float(),
-        pc2im_bnhw[:, 2:4].float(),
+        pc2im_bnhw[:, 0:1].double(),
+        pc2im_bnhw[:, 2:4].double(),
         inv_ccounts,
         ray_dists,
-        pc2im_bnhw[:, 1:2].float(),
+        pc2im_bnhw[:, 1:2].double(),
     ]
     unique_criteria_bhwcrn = torch.cat(unique_criteria_bhwcrn, -1)
 
-- 
2.43.0


From d17839e7db72ba334b31a6d55adc6ba2519166fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:33 +0000
Subject: [PATCH 23/37] fix: open3d and plotly exports of a pointcloud without
 points

The colour range check took the maximum of an empty tensor and raised,
for a batch element that has no points (yet) and for max_num_points=0.
---
 gradslam/structures/pointclouds.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gradslam/structures/pointclouds.py b/gradslam/structures/pointclouds.py
index eddb0c3..6665fc0 100644
--- a/gradslam/structures/pointclouds.py
+++ b/gradslam/structures/pointclouds.py
@@ -1303,7 +1303,7 @@ class Pointclouds(object):
             if subsample:
                 torch_colors = torch_colors[point_inds]
             # if colors > 1, assume 255 range
-            if (torch_colors.max() > 1.1).item():
+            if torch_colors.numel() > 0 and (torch_colors.max() > 1.1).item():
                 torch_colors = torch_colors / 255
             torch_colors = torch.clamp(torch_colors, min=0.0, max=1.0)
             numpy_colors = torch_colors.detach().cpu().numpy()
@@ -1363,7 +1363,7 @@ class Pointclouds(object):
             if subsample:
                 torch_colors = torch_colors[point_inds]
             # if colors > 1, assume 255 range
-            if (torch_colors.max() < 1.1).item():
+            if torch_colors.numel() > 0 and (torch_colors.max() < 1.1).item():
                 torch_colors = torch_colors * 255
             torch_colors = torch.clamp(torch_colors, min=0.0, max=255.0)
             numpy_colors = torch_colors.detach().cpu().numpy().astype("uint8")
-- 
2.43.0


From b6a922184e913365bca22491cbe7a1ed0c75afb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:33 +0000
Subject: [PATCH 24/37] fix: colour range of exported pointclouds judged on the
 sampled points only

With max_num_points, whether colours are in the 0-255 range was decided on
the sample: a sample that happens to hold only (nearly) black points of a
0-255 coloured cloud was shown in bright colours by plotly and open3d.
Decide it on the whole pointcloud, as without max_num_points.
---
 gradslam/structures/pointclouds.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gradslam/structures/pointclouds.py b/gradslam/structures/pointclouds.py
index 6665fc0..c8179a3 100644
--- a/gradslam/structures/pointclouds.py
+++ b/gradslam/structures/pointclouds.py
@@ -1300,11 +1300,11 @@ class Pointclouds(object):
 
         if self.has_colors and include_colors:
             torch_colors = self.colors_list[index]
-            if subsample:
-                torch_colors = torch_colors[point_inds]
             # if colors > 1, assume 255 range
             if torch_colors.numel() > 0 and (torch_colors.max() > 1.1).item():
                 torch_colors = torch_colors / 255
+            if subsample:
+                torch_colors = torch_colors[point_inds]
             torch_colors = torch.clamp(torch_colors, min=0.0, max=1.0)
             numpy_colors = torch_colors.detach().cpu().numpy()
             pcd.colors = o3d.utility.Vector3dVector(numpy_colors)
@@ -1360,11 +1360,11 @@ class Pointclouds(object):
 
         if self.has_colors and include_colors:
             torch_colors = self.colors_list[index]
-            if subsample:
-                torch_colors = torch_colors[point_inds]
             # if colors > 1, assume 255 range
             if torch_colors.numel() > 0 and (torch_colors.max() < 1.1).item():
                 torch_colors = torch_colors * 255
+            if subsample:
+                torch_colors = torch_colors[point_inds]
             torch_colors = torch.clamp(torch_colors, min=0.0, max=255.0)
             numpy_colors = torch_colors.detach().cpu().numpy().astype("uint8")
             marker_dict["color"] = numpy_colors
-- 
2.43.0


From 49fdae6608d3fe15a35656c96101f9edb2460676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:33 +0000
Subject: [PATCH 25/37] fix: RGBDImages.plotly of channels first images

The images were sliced and encoded as if they were channels last, which
raised inside OpenCV.
---
 gradslam/structures/rgbdimages.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gradslam/structures/rgbdimages.py b/gradslam/structures/rgbdimages.py
index a798039..5018515 100644
--- a/gradslam/structures/rgbdimages.py
+++ b/gradslam/structures/rgbdimages.py
@@ -831,6 +831,10 @@ class RGBDImages(object):
             }
 
         torch_rgb = self.rgb_image[index]
+        torch_depth = self.depth_image[index]
+        if self.channels_first:  # L C H W -> L H W C
+            torch_rgb = torch_rgb.permute(0, 2, 3, 1)
+            torch_depth = torch_depth.permute(0, 2, 3, 1)
         if (torch_rgb.max() < 1.1).item():
             torch_rgb = torch_rgb * 255
         torch_rgb = torch.clamp(torch_rgb, min=0.0, max=255.0)
@@ -840,7 +844,7 @@ class RGBDImages(object):
         if not include_depth:
             frames = [{"data": [frame], "name": i} for i, frame in enumerate(Image_rgb)]
         else:
-            torch_depth = self.depth_image[index, ..., 0]
+            torch_depth = torch_depth[..., 0]
             scale = 10 ** torch.log10(255.0 / torch_depth.detach().max()).floor().item()
             numpy_depth = (torch_depth * scale).detach().cpu().numpy().astype("uint8")
             Image_depth = [
-- 
2.43.0


From 0efcb47182e1108f7af8a1ba1fa742ef19fdcbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:33 +0000
Subject: [PATCH 26/37] fix: RGBDImages.plotly with missing depth

A sequence without any valid depth raised OverflowError or ValueError (the
scale was infinite or NaN), and depth that a sensor marks as missing with a
negative number wrapped around to the brightest grey levels.
---
 gradslam/structures/rgbdimages.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gradslam/structures/rgbdimages.py b/gradslam/structures/rgbdimages.py
index 5018515..83c9d95 100644
--- a/gradslam/structures/rgbdimages.py
+++ b/gradslam/structures/rgbdimages.py
@@ -844,8 +844,13 @@ class RGBDImages(object):
         if not include_depth:
             frames = [{"data": [frame], "name": i} for i, frame in enumerate(Image_rgb)]
         else:
+            # invalid (missing) depth is shown as 0
             torch_depth = torch_depth[..., 0]
-            scale = 10 ** torch.log10(255.0 / torch_depth.detach().max()).floor().item()
+            torch_depth = torch_depth.masked_fill(~(torch_depth > 0), 0.0)
+            max_depth = torch_depth.detach().max()
+            scale = 1
+            if (max_depth > 0).item():
+                scale = 10 ** torch.log10(255.0 / max_depth).floor().item()
             numpy_depth = (torch_depth * scale).detach().cpu().numpy().astype("uint8")
             Image_depth = [
                 numpy_to_plotly_image(d, i, True, scale)
-- 
2.43.0


From e0fbcfe22e4fd7d820aa88029cc166952400fea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:15 +0000
Subject: [PATCH 27/37] fix: fusion and tracking with channels first frames

PointFusion, and ICP and gradICP odometry, indexed channels first frames as
if they were channels last and raised.
---
 gradslam/odometry/icputils.py | 1 +
 gradslam/slam/fusionutils.py  | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/gradslam/odometry/icputils.py b/gradslam/odometry/icputils.py
index 710d9a0..4440969 100644
--- a/gradslam/odometry/icputils.py
+++ b/gradslam/odometry/icputils.py
@@ -648,6 +648,7 @@ def downsample_rgbdimages(rgbdimages: RGBDImages, ds_ratio: int) -> Pointclouds:
             )
         )
 
+    rgbdimages = rgbdimages.to_channels_last()
     B = len(rgbdimages)
 
     # Valid depths mask
diff --git a/gradslam/slam/fusionutils.py b/gradslam/slam/fusionutils.py
index 3bb2c58..58ec022 100644
--- a/gradslam/slam/fusionutils.py
+++ b/gradslam/slam/fusionutils.py
@@ -372,6 +372,7 @@ def find_similar_map_points(
             "Pointclouds must have normals for finding similar map points, but did not."
         )
 
+    rgbdimages = rgbdimages.to_channels_last()
     vertex_maps = rgbdimages.global_vertex_map
     normal_maps = rgbdimages.global_normal_map
 
@@ -486,6 +487,7 @@ def find_best_unique_correspondences(
         pointclouds.features_padded[pc2im_bnhw[:, 0], pc2im_bnhw[:, 1]] + 1e-20
     )  # shape: [P 1]
     # compute ray dist
+    rgbdimages = rgbdimages.to_channels_last()
     frame_points = rgbdimages.global_vertex_map[
         pc2im_bnhw[:, 0], 0, pc2im_bnhw[:, 2], pc2im_bnhw[:, 3]
     ]
@@ -648,6 +650,7 @@ def fuse_with_map(
         pointclouds = pointclouds.clone()
 
     # Fuse points (from live frame) with corresponding global map points
+    rgbdimages = rgbdimages.to_channels_last()
     vertex_maps = rgbdimages.global_vertex_map
     normal_maps = rgbdimages.global_normal_map
     rgb_image = rgbdimages.rgb_image
@@ -777,6 +780,7 @@ def update_map_fusion(
         gradslam.Pointclouds: Updated Pointclouds object containing global maps.
 
     """
+    rgbdimages = rgbdimages.to_channels_last()
     batch_size, seq_len, height, width = rgbdimages.shape
     pc2im_bnhw = find_correspondences(pointclouds, rgbdimages, dist_th, dot_th)
     pointclouds = fuse_with_map(pointclouds, rgbdimages, pc2im_bnhw, sigma, inplace)
-- 
2.43.0


From 9ef02079585fe43e7397f5e46712c97be7626231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:33 +0000
Subject: [PATCH 28/37] fix: inverse_transfom_3d, compose_transforms_3d and
 relative_transform_3d of batches

---
 gradslam/geometry/geometryutils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gradslam/geometry/geometryutils.py b/gradslam/geometry/geometryutils.py
index f594540..3f7749e 100644
--- a/gradslam/geometry/geometryutils.py
+++ b/gradslam/geometry/geometryutils.py
@@ -230,7 +230,7 @@ def inverse_transfom_3d(trans: torch.Tensor):
 
     # Compute the inverse
     rmat_inv: torch.Tensor = torch.transpose(rmat, -1, -2)
-    tvec_inv: torch.Tensor = torch.matmul(-rmat_inv, tvec)
+    tvec_inv: torch.Tensor = torch.matmul(-rmat_inv, tvec.unsqueeze(-1)).squeeze(-1)
 
     # Pack the inverse rotation and translation into tensor
     trans_inv: torch.Tensor = torch.zeros_like(trans)
@@ -290,7 +290,9 @@ def compose_transforms_3d(trans1: torch.Tensor, trans2: torch.Tensor) -> torch.T
 
     # Compute the composition
     rmat_cat: torch.Tensor = torch.matmul(rmat1, rmat2)
-    tvec_cat: torch.Tensor = torch.matmul(rmat1, tvec2) + tvec1
+    tvec_cat: torch.Tensor = (
+        torch.matmul(rmat1, tvec2.unsqueeze(-1)).squeeze(-1) + tvec1
+    )
 
     # Pack into output tensor
     trans_cat: torch.Tensor = torch.zeros_like(trans1)
-- 
2.43.0


From c6c450a4663dd17a70e66797f996b74aed782a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:33 +0000
Subject: [PATCH 29/37] fix: pointquaternion_to_homogeneous overwrote its
 argument

---
 gradslam/datasets/datautils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gradslam/datasets/datautils.py b/gradslam/datasets/datautils.py
index 5e2f3f2..9e3e348 100644
--- a/gradslam/datasets/datautils.py
+++ b/gradslam/datasets/datautils.py
@@ -177,7 +177,7 @@ def pointquaternion_to_homogeneous(
         )
 
     q_norm = (0.5 * (q ** 2).sum(-1)[..., None]) ** 0.5
-    q /= (
+    q = q / (
         torch.max(q_norm, torch.tensor(eps))
         if torch.is_tensor(q_norm)
         else np.maximum(q_norm, eps)
-- 
2.43.0


From 45af9f3708af7545ec4ea2c14203507f0456838d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:33 +0000
Subject: [PATCH 30/37] fix: create_label_image with the documented kind of
 palette

---
 gradslam/datasets/datautils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gradslam/datasets/datautils.py b/gradslam/datasets/datautils.py
index 9e3e348..4397304 100644
--- a/gradslam/datasets/datautils.py
+++ b/gradslam/datasets/datautils.py
@@ -258,6 +258,8 @@ def create_label_image(prediction: np.ndarray, color_palette: OrderedDict):
     label_image = np.zeros(
         (prediction.shape[0], prediction.shape[1], 3), dtype=np.uint8
     )
+    if isinstance(color_palette, dict):
+        color_palette = color_palette.values()
     for idx, color in enumerate(color_palette):
         label_image[prediction == idx] = color
     return label_image
-- 
2.43.0


From 949e2fafb00f9973356dd0e501b24bbe9bdcccdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:06 +0000
Subject: [PATCH 31/37] fix: transform_pts_3d returned no coordinates for N x 3
 points

---
 gradslam/geometry/geometryutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gradslam/geometry/geometryutils.py b/gradslam/geometry/geometryutils.py
index 3f7749e..564ade7 100644
--- a/gradslam/geometry/geometryutils.py
+++ b/gradslam/geometry/geometryutils.py
@@ -354,7 +354,7 @@ def transform_pts_3d(pts_b: torch.Tensor, t_ab: torch.Tensor) -> torch.Tensor:
             t_ab.unsqueeze(0).unsqueeze(0), pts_b.unsqueeze(-1)
         ).squeeze(-1)
     else:
-        pts_a_homo = torch.matmul(t_ab.unsqueeze(0), pts_b.unsqueeze(-1))
+        pts_a_homo = torch.matmul(t_ab.unsqueeze(0), pts_b.unsqueeze(-1)).squeeze(-1)
     pts_a = unhomogenize_points(pts_a_homo)
 
     return pts_a[..., :3]
-- 
2.43.0


From c89504e2a2cb0138f290b805929bbcdbeb90af97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:06 +0000
Subject: [PATCH 32/37] fix: cam2pixel refused the documented H x W x 3
 coordinates

---
 gradslam/geometry/geometryutils.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/gradslam/geometry/geometryutils.py b/gradslam/geometry/geometryutils.py
index 564ade7..d8f4c1c 100644
--- a/gradslam/geometry/geometryutils.py
+++ b/gradslam/geometry/geometryutils.py
@@ -643,7 +643,6 @@ def cam2pixel(
         and dst_proj_src.shape[0] == 4
     )
 
-    _, h, w, _ = cam_coords_src.shape
     pts: torch.Tensor = transform_pts_3d(cam_coords_src, dst_proj_src)
     x: torch.Tensor = pts[..., 0]
     y: torch.Tensor = pts[..., 1]
-- 
2.43.0


From 675a87266c12cb428bb527a14e89f3a11d46c5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:06 +0000
Subject: [PATCH 33/37] fix: pixel2cam refused the documented H x W depth maps

---
 gradslam/geometry/geometryutils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gradslam/geometry/geometryutils.py b/gradslam/geometry/geometryutils.py
index d8f4c1c..3d28208 100644
--- a/gradslam/geometry/geometryutils.py
+++ b/gradslam/geometry/geometryutils.py
@@ -698,6 +698,8 @@ def pixel2cam(
         pixel_coords, intrinsics_inv
     )  # .permute(0, 3, 1, 2)
 
+    if depth.dim() == 2:
+        return cam_coords * depth.unsqueeze(-1)
     return cam_coords * depth.permute(0, 2, 3, 1)
 
 
-- 
2.43.0


From 5fc2d4cb3e6eea167d4dd12acb051907b404cfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:06 +0000
Subject: [PATCH 34/37] fix: cam2pixel_KF refused the documented single
 projection matrix

---
 gradslam/geometry/geometryutils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gradslam/geometry/geometryutils.py b/gradslam/geometry/geometryutils.py
index 3d28208..0996da8 100644
--- a/gradslam/geometry/geometryutils.py
+++ b/gradslam/geometry/geometryutils.py
@@ -726,6 +726,8 @@ def cam2pixel_KF(
     assert cam_coords_src.shape[-1] == 3
     assert torch.is_tensor(P), "dst_proj_src must be of type torch.Tensor."
     assert P.dim() >= 2 and P.shape[-1] == 4 and P.shape[-2] == 4
+    if P.dim() == 2:
+        P = P.unsqueeze(0).repeat(cam_coords_src.shape[0], 1, 1)
 
     pts: torch.Tensor = transform_pts_nd_KF(cam_coords_src, P)
     x: torch.Tensor = pts[..., 0]
-- 
2.43.0


From 643660ce07d87c1f57460fda1ba8c42b27bf5744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:06 +0000
Subject: [PATCH 35/37] fix: TUM and ICL refused name files whose last line
 ends with a newline

---
 gradslam/datasets/icl.py | 2 +-
 gradslam/datasets/tum.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gradslam/datasets/icl.py b/gradslam/datasets/icl.py
index 78a3d0d..c90d081 100644
--- a/gradslam/datasets/icl.py
+++ b/gradslam/datasets/icl.py
@@ -211,7 +211,7 @@ class ICL(data.Dataset):
         if isinstance(trajectories, str):
             if os.path.isfile(trajectories):
                 with open(trajectories, "r") as f:
-                    trajectories = tuple(f.read().split("\n"))
+                    trajectories = tuple(f.read().splitlines())
                 valid_trajectory_dirs = list(trajectories)
             else:
                 raise ValueError(
diff --git a/gradslam/datasets/tum.py b/gradslam/datasets/tum.py
index f91726e..0c0c513 100644
--- a/gradslam/datasets/tum.py
+++ b/gradslam/datasets/tum.py
@@ -196,7 +196,7 @@ class TUM(data.Dataset):
         if isinstance(sequences, str):
             if os.path.isfile(sequences):
                 with open(sequences, "r") as f:
-                    sequences = tuple(f.read().split("\n"))
+                    sequences = tuple(f.read().splitlines())
             else:
                 raise ValueError(
                     "incorrect filename: {} doesn't exist".format(sequences)
-- 
2.43.0


From df435e92f13f511e98325280c1c5b148759dade7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:46 +0000
Subject: [PATCH 36/37] fix: ICL found no poses below a directory named like a
 trajectory

The number of the trajectory was taken from the first part of the whole path that looks like a
trajectory name.
---
 gradslam/datasets/icl.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/gradslam/datasets/icl.py b/gradslam/datasets/icl.py
index c90d081..57b2947 100644
--- a/gradslam/datasets/icl.py
+++ b/gradslam/datasets/icl.py
@@ -277,9 +277,7 @@ class ICL(data.Dataset):
                 raise ValueError(msg + dirmsg)
             associationsfiles.append(associationsfile)
             if self.load_poses:
-                trajectory_num = trajectory_path[
-                    trajectory_path.index("living_room_traj") + 16 :
-                ].split("_")[0]
+                trajectory_num = os.path.basename(trajectory_path)[16:].split("_")[0]
                 posesfile = os.path.join(
                     trajectory_path, "livingRoom{0}n.gt.sim".format(trajectory_num)
                 )
-- 
2.43.0


From 3dd825f4aaa32cf196c4748f142c3d7cb773134f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:35 +0000
Subject: [PATCH 37/37] fix: Scannet found no sequences below a directory with
 brackets in its name

The path of the metadata directory was taken for a pattern.
---
 gradslam/datasets/scannet.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gradslam/datasets/scannet.py b/gradslam/datasets/scannet.py
index aad5fe1..4d9592e 100644
--- a/gradslam/datasets/scannet.py
+++ b/gradslam/datasets/scannet.py
@@ -129,6 +129,7 @@ class Scannet(data.Dataset):
         # Get a list of all color, depth, pose, label and intrinsics files.
         colorfiles, depthfiles, posefiles = [], [], []
         labelfiles, intrinsicsfiles, seqnames = [], [], []
+        seqmetadir = glob.escape(seqmetadir)
         seqmetapaths = natsorted(glob.glob(os.path.join(seqmetadir, "*.txt")))
         for seqmetapath in seqmetapaths:
             scene_name = os.path.basename(seqmetapath).split("-")[0]
-- 
2.43.0

