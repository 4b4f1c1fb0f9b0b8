From 1e7013399bd3ca410f06105ef0feecddb5aeee53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:33 +0000
Subject: [PATCH 01/42] fix: building the distance field of an empty compact
 heightfield panicked

---
 crates/rerecast/src/watershed_distance_field.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/rerecast/src/watershed_distance_field.rs b/crates/rerecast/src/watershed_distance_field.rs
index 1bbf117..a832f0c 100644
--- a/crates/rerecast/src/watershed_distance_field.rs
+++ b/crates/rerecast/src/watershed_distance_field.rs
@@ -17,8 +17,8 @@ impl CompactHeightfield {
     /// Prepare for region partitioning, by calculating distance field along the walkable surface.
     pub fn build_distance_field(&mut self) {
         let distance_field = self.calculate_distance_field();
-        // Safety: Unwrap is fine as long as `spans` is not empty, as `distance_field` has the same length
-        self.max_distance = *distance_field.iter().max().unwrap();
+        // There is no maximum if the heightfield has no walkable spans.
+        self.max_distance = distance_field.iter().copied().max().unwrap_or(0);
         let distance_field = self.box_blur(1, &distance_field);
         self.dist = distance_field;
     }
-- 
2.43.0


From b817f4a9c45b835e01a09ffcbb6fb20c2cb1c715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:33 +0000
Subject: [PATCH 02/42] fix: eroding by a radius of 128 voxels or more wrapped
 around and kept unwalkable space

---
 crates/rerecast/src/erosion.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/crates/rerecast/src/erosion.rs b/crates/rerecast/src/erosion.rs
index c14d2b6..e048c60 100644
--- a/crates/rerecast/src/erosion.rs
+++ b/crates/rerecast/src/erosion.rs
@@ -6,7 +6,7 @@ use crate::{
 impl CompactHeightfield {
     /// Erode the walkable area by agent radius.
     pub fn erode_walkable_area(&mut self, erosion_radius: u16) {
-        let mut distance_to_boundary = vec![u8::MAX; self.spans.len()];
+        let mut distance_to_boundary = vec![u16::MAX; self.spans.len()];
 
         // Mark boundary cells.
         for z in 0..self.height {
@@ -49,7 +49,7 @@ impl CompactHeightfield {
             }
         }
 
-        let mut new_distance: u8;
+        let mut new_distance: u16;
 
         // Pass 1
         for z in 0..self.height {
@@ -163,14 +163,13 @@ impl CompactHeightfield {
             }
         }
 
-        // Jan: This just wraps on overflow. Is that intentional???
-        let min_boundary_distance = (erosion_radius * 2) as u8;
+        let min_boundary_distance = erosion_radius as u32 * 2;
         #[expect(
             clippy::needless_range_loop,
             reason = "lol the alternative suggestion is really unreadable"
         )]
         for span_index in 0..self.spans.len() {
-            if distance_to_boundary[span_index] < min_boundary_distance {
+            if (distance_to_boundary[span_index] as u32) < min_boundary_distance {
                 self.areas[span_index] = AreaType::NOT_WALKABLE;
             }
         }
-- 
2.43.0


From 7935d1a90a3e7cf30110a0e88d183d2b62f42203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:33 +0000
Subject: [PATCH 03/42] fix: columns with more than 255 walkable spans
 overflowed the cell's span count

---
 crates/rerecast/src/compact_heightfield.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/rerecast/src/compact_heightfield.rs b/crates/rerecast/src/compact_heightfield.rs
index 8e590a7..f36b68f 100644
--- a/crates/rerecast/src/compact_heightfield.rs
+++ b/crates/rerecast/src/compact_heightfield.rs
@@ -180,6 +180,12 @@ impl Heightfield {
                     compact_heightfield.spans[cell_index].set_height(height);
                     compact_heightfield.areas[cell_index] = span.area;
                     cell_index += 1;
+                    if cell.count() == u8::MAX {
+                        return Err(CompactHeightfieldError::TooManyLayers {
+                            max_layer_index: u8::MAX - 1,
+                            layer_index: u8::MAX as u32,
+                        });
+                    }
                     cell.inc_count();
                 }
             }
-- 
2.43.0


From 96d915605096614ce15edb1bb7824e43f33d0e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:33 +0000
Subject: [PATCH 04/42] fix: a link to the last representable layer was dropped
 without an error

---
 crates/rerecast/src/compact_heightfield.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/rerecast/src/compact_heightfield.rs b/crates/rerecast/src/compact_heightfield.rs
index f36b68f..fc259e8 100644
--- a/crates/rerecast/src/compact_heightfield.rs
+++ b/crates/rerecast/src/compact_heightfield.rs
@@ -234,7 +234,7 @@ impl Heightfield {
                             }
                             // Mark direction as walkable.
                             let layer_index = k as i32 - neighbor_cell.index() as i32;
-                            if layer_index < 0 || layer_index >= MAX_LAYERS as i32 {
+                            if layer_index < 0 || layer_index > MAX_LAYERS as i32 {
                                 max_layer_index = max_layer_index.max(layer_index as u32);
                                 continue;
                             }
-- 
2.43.0


From 0c71cd4bbeb11603cc3e9387155384ef60d4cd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:31 +0000
Subject: [PATCH 05/42] verification hook: constructor for NavmeshConfigBuilder
 behind cfg(rerecast_verif)

---
 crates/rerecast/src/config.rs | 53 +++++++++++++++++++++++++++++++++++
 1 file changed, 53 insertions(+)

diff --git a/crates/rerecast/src/config.rs b/crates/rerecast/src/config.rs
index cf600f2..7ea09f6 100644
--- a/crates/rerecast/src/config.rs
+++ b/crates/rerecast/src/config.rs
@@ -315,3 +315,56 @@ impl NavmeshConfigBuilder {
         }
     }
 }
+
+#[allow(unexpected_cfgs)]
+#[cfg(rerecast_verif)]
+#[doc(hidden)]
+impl NavmeshConfigBuilder {
+    /// Verification hook: builds a builder from all of its inputs.
+    ///
+    /// `values` are, in order: cell size, cell height, agent height, agent radius, agent max climb,
+    /// agent max slope, region min size, region merge size, edge max len, edge max error,
+    /// verts per poly, detail sample dist, detail sample max error.
+    pub fn verif_new(
+        values: [f32; 13],
+        tile_size: u16,
+        aabb: Aabb3d,
+        contour_flags: BuildContoursFlags,
+        tiling: bool,
+    ) -> Self {
+        let [
+            cell_size,
+            cell_height,
+            agent_height,
+            agent_radius,
+            agent_max_climb,
+            agent_max_slope,
+            region_min_size,
+            region_merge_size,
+            edge_max_len,
+            edge_max_error,
+            verts_per_poly,
+            detail_sample_dist,
+            detail_sample_max_error,
+        ] = values;
+        Self {
+            cell_size,
+            cell_height,
+            agent_height,
+            agent_radius,
+            agent_max_climb,
+            agent_max_slope,
+            region_min_size,
+            region_merge_size,
+            edge_max_len,
+            edge_max_error,
+            verts_per_poly,
+            detail_sample_dist,
+            detail_sample_max_error,
+            tile_size,
+            aabb,
+            contour_flags,
+            tiling,
+        }
+    }
+}
-- 
2.43.0


From 6d4e621df69b010c335352c1c7df2fd909a49d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:31 +0000
Subject: [PATCH 06/42] fix: large radii and tiles overflowed the derived
 border and grid size

---
 crates/rerecast/src/config.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/rerecast/src/config.rs b/crates/rerecast/src/config.rs
index 7ea09f6..0084c32 100644
--- a/crates/rerecast/src/config.rs
+++ b/crates/rerecast/src/config.rs
@@ -279,15 +279,15 @@ impl NavmeshConfigBuilder {
     pub fn build(self) -> NavmeshConfig {
         let walkable_radius = (self.agent_radius / self.cell_size).ceil() as u16;
         // Reserve enough padding.
-        let border_size = walkable_radius + 3;
+        let border_size = walkable_radius.saturating_add(3);
         NavmeshConfig {
             width: if self.tiling {
-                self.tile_size + border_size * 2
+                self.tile_size.saturating_add(border_size.saturating_mul(2))
             } else {
                 ((self.aabb.max.x - self.aabb.min.x) / self.cell_size + 0.5) as u16
             },
             height: if self.tiling {
-                self.tile_size + border_size * 2
+                self.tile_size.saturating_add(border_size.saturating_mul(2))
             } else {
                 ((self.aabb.max.z - self.aabb.min.z) / self.cell_size + 0.5) as u16
             },
-- 
2.43.0


From ed6a07fa6ee07b78740635a9141601fc0096a634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:31 +0000
Subject: [PATCH 07/42] fix: triangles reaching less than one cell outside the
 field were not clipped to it

---
 crates/rerecast/src/rasterize.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/rerecast/src/rasterize.rs b/crates/rerecast/src/rasterize.rs
index ee844e8..213f8d6 100644
--- a/crates/rerecast/src/rasterize.rs
+++ b/crates/rerecast/src/rasterize.rs
@@ -54,8 +54,8 @@ impl Heightfield {
         // Calculate the footprint of the triangle on the grid's z-axis
         // z0 is the first z cell that the triangle touches
         // z1 is the last z cell that the triangle touches
-        let z0 = ((aabb.min[2] - self.aabb.min[2]) * inverse_cell_size) as i16;
-        let z1 = ((aabb.max[2] - self.aabb.min[2]) * inverse_cell_size) as i16;
+        let z0 = ((aabb.min[2] - self.aabb.min[2]) * inverse_cell_size).floor() as i16;
+        let z1 = ((aabb.max[2] - self.aabb.min[2]) * inverse_cell_size).floor() as i16;
 
         // use -1 rather than 0 to cut the polygon properly at the start of the tile
         let z0 = z0.clamp(-1, h - 1);
@@ -106,8 +106,8 @@ impl Heightfield {
                 min_x = min_x.min(in_row[i as usize].x);
                 max_x = max_x.max(in_row[i as usize].x);
             }
-            let x0 = ((min_x - self.aabb.min[0]) * inverse_cell_size) as i16;
-            let x1 = ((max_x - self.aabb.min[0]) * inverse_cell_size) as i16;
+            let x0 = ((min_x - self.aabb.min[0]) * inverse_cell_size).floor() as i16;
+            let x1 = ((max_x - self.aabb.min[0]) * inverse_cell_size).floor() as i16;
             if x1 < 0 || x0 >= w {
                 continue;
             }
-- 
2.43.0


From 11d383210f07d80f2fe7c715b56999a976466190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:31 +0000
Subject: [PATCH 08/42] fix: rasterizing into a field that is empty or wider
 than 32767 cells panicked

---
 crates/rerecast/src/rasterize.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/crates/rerecast/src/rasterize.rs b/crates/rerecast/src/rasterize.rs
index 213f8d6..9c6a56b 100644
--- a/crates/rerecast/src/rasterize.rs
+++ b/crates/rerecast/src/rasterize.rs
@@ -46,16 +46,20 @@ impl Heightfield {
         let inverse_cell_size = 1.0 / self.cell_size;
         let inverse_cell_height = 1.0 / self.cell_height;
 
-        let w = self.width as i16;
-        let h = self.height as i16;
+        let w = self.width as i32;
+        let h = self.height as i32;
+        if w == 0 || h == 0 {
+            // There is no column to rasterize into.
+            return Ok(());
+        }
         // The height of the heightfield AABB
         let by = self.aabb.max[1] - self.aabb.min[1];
 
         // Calculate the footprint of the triangle on the grid's z-axis
         // z0 is the first z cell that the triangle touches
         // z1 is the last z cell that the triangle touches
-        let z0 = ((aabb.min[2] - self.aabb.min[2]) * inverse_cell_size).floor() as i16;
-        let z1 = ((aabb.max[2] - self.aabb.min[2]) * inverse_cell_size).floor() as i16;
+        let z0 = ((aabb.min[2] - self.aabb.min[2]) * inverse_cell_size).floor() as i32;
+        let z1 = ((aabb.max[2] - self.aabb.min[2]) * inverse_cell_size).floor() as i32;
 
         // use -1 rather than 0 to cut the polygon properly at the start of the tile
         let z0 = z0.clamp(-1, h - 1);
@@ -106,8 +110,8 @@ impl Heightfield {
                 min_x = min_x.min(in_row[i as usize].x);
                 max_x = max_x.max(in_row[i as usize].x);
             }
-            let x0 = ((min_x - self.aabb.min[0]) * inverse_cell_size).floor() as i16;
-            let x1 = ((max_x - self.aabb.min[0]) * inverse_cell_size).floor() as i16;
+            let x0 = ((min_x - self.aabb.min[0]) * inverse_cell_size).floor() as i32;
+            let x1 = ((max_x - self.aabb.min[0]) * inverse_cell_size).floor() as i32;
             if x1 < 0 || x0 >= w {
                 continue;
             }
-- 
2.43.0


From e1b80ea4b3ef3ba2853951144113d1a6094e072a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:31 +0000
Subject: [PATCH 09/42] fix: dividing an empty polygon left the vertex counts
 of the previous division in place

---
 crates/rerecast/src/rasterize.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/rerecast/src/rasterize.rs b/crates/rerecast/src/rasterize.rs
index 9c6a56b..ee18602 100644
--- a/crates/rerecast/src/rasterize.rs
+++ b/crates/rerecast/src/rasterize.rs
@@ -211,6 +211,8 @@ fn divide_poly(
     if in_vert_count > 12 {
         return Err(PolygonDivisionError::TooManyVertices(in_vert_count));
     } else if in_vert_count == 0 {
+        *out_vert_count_1 = 0;
+        *out_vert_count_2 = 0;
         return Ok(());
     }
     let in_vert_count = in_vert_count as usize;
-- 
2.43.0


From 18e0be199c4a12e97dc754b01678ffb53287d122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:31 +0000
Subject: [PATCH 10/42] fix: rasterizing a triangle at the maximum span height
 panicked

---
 crates/rerecast/src/rasterize.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/rerecast/src/rasterize.rs b/crates/rerecast/src/rasterize.rs
index ee18602..4c5af33 100644
--- a/crates/rerecast/src/rasterize.rs
+++ b/crates/rerecast/src/rasterize.rs
@@ -160,7 +160,7 @@ impl Heightfield {
 
                 // Snap the span to the heightfield height grid.
                 let span_min_cell_index = ((span_min * inverse_cell_height).floor() as i32)
-                    .clamp(0, Span::MAX_HEIGHT as i32)
+                    .clamp(0, Span::MAX_HEIGHT as i32 - 1)
                     as u16;
                 let span_max_cell_index = ((span_max * inverse_cell_height).ceil() as i32)
                     .clamp(span_min_cell_index as i32 + 1, Span::MAX_HEIGHT as i32)
-- 
2.43.0


From ca15100965050288453aeeddfad3818ada292977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:43 +0000
Subject: [PATCH 11/42] fix: flooding a region stopped looking at further
 neighbours once one was in the border

---
 crates/rerecast/src/watershed_build_regions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/rerecast/src/watershed_build_regions.rs b/crates/rerecast/src/watershed_build_regions.rs
index 3bedbe0..64df4b0 100644
--- a/crates/rerecast/src/watershed_build_regions.rs
+++ b/crates/rerecast/src/watershed_build_regions.rs
@@ -563,7 +563,7 @@ impl CompactHeightfield {
                     let nr = src_reg[a_index];
                     if nr.intersects(RegionId::BORDER_REGION) {
                         // Do not take borders into account.
-                        break;
+                        continue;
                     }
                     if nr != RegionId::NONE && nr != region {
                         ar = nr;
-- 
2.43.0


From 426a6418e00ebc3f974b7ad9bf61ba7c4436ae76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:59 +0000
Subject: [PATCH 12/42] fix: growing a region along a path of more than 32767
 cells overflowed the distance

---
 crates/rerecast/src/watershed_build_regions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/rerecast/src/watershed_build_regions.rs b/crates/rerecast/src/watershed_build_regions.rs
index 64df4b0..8760202 100644
--- a/crates/rerecast/src/watershed_build_regions.rs
+++ b/crates/rerecast/src/watershed_build_regions.rs
@@ -757,7 +757,7 @@ impl CompactHeightfield {
                         continue;
                     }
                     let a_region = src_reg[a_index];
-                    let a_dist = src_dist[a_index] + 2;
+                    let a_dist = src_dist[a_index].saturating_add(2);
                     if a_region != RegionId::NONE
                         && !a_region.intersects(RegionId::BORDER_REGION)
                         && a_dist < d2
-- 
2.43.0


From bad1cae55fe426b4c83ec58e28f22a6daad1d881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:59 +0000
Subject: [PATCH 13/42] fix: region ids that collide with the border flag were
 handed out instead of reporting an overflow

---
 crates/rerecast/src/watershed_build_regions.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/rerecast/src/watershed_build_regions.rs b/crates/rerecast/src/watershed_build_regions.rs
index 8760202..910464f 100644
--- a/crates/rerecast/src/watershed_build_regions.rs
+++ b/crates/rerecast/src/watershed_build_regions.rs
@@ -129,10 +129,11 @@ impl CompactHeightfield {
                         &mut stack,
                     )
                 {
-                    if region_id == RegionId::MAX {
+                    region_id += 1;
+                    // IDs from here on would be mistaken for border regions.
+                    if region_id.intersects(RegionId::BORDER_REGION) {
                         return Err(BuildRegionsError::RegionIdOverflow);
                     }
-                    region_id += 1;
                 }
             }
         }
-- 
2.43.0


From eb1fb8c4beb765a2df6a498dd2b12da213331e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:56 +0000
Subject: [PATCH 14/42] fix: building contours panicked when there were more
 outlines than regions

---
 crates/rerecast/src/contours.rs | 21 ++-------------------
 1 file changed, 2 insertions(+), 19 deletions(-)

diff --git a/crates/rerecast/src/contours.rs b/crates/rerecast/src/contours.rs
index fd24f47..c7c0721 100644
--- a/crates/rerecast/src/contours.rs
+++ b/crates/rerecast/src/contours.rs
@@ -38,11 +38,6 @@ impl CompactHeightfield {
             cset.aabb.max.z -= pad;
         }
 
-        let mut max_contours = self.max_region.bits().max(8);
-
-        cset.contours = vec![Contour::default(); max_contours as usize];
-        // We will shrink contours to this value later
-        let mut contour_count = 0;
         let mut flags = vec![0_u8; self.spans.len()];
 
         // Mark boundaries
@@ -111,19 +106,7 @@ impl CompactHeightfield {
                     // Store region->contour remap info.
                     // Create contour.
                     if simplified.len() >= 3 {
-                        if contour_count >= max_contours as usize {
-                            // Allocate more contours.
-                            // This happens when a region has holes.
-                            let old_max = max_contours;
-                            max_contours *= 2;
-                            cset.contours.truncate(max_contours as usize);
-
-                            tracing::warn!(
-                                "Region has holes. Expanding contour set from max {old_max} to max {max_contours}"
-                            );
-                        }
-                        let cont = &mut cset.contours[contour_count];
-                        contour_count += 1;
+                        let mut cont = Contour::default();
 
                         cont.vertices = simplified.clone();
                         if self.border_size > 0 {
@@ -143,11 +126,11 @@ impl CompactHeightfield {
                         }
                         cont.region = reg;
                         cont.area = area;
+                        cset.contours.push(cont);
                     }
                 }
             }
         }
-        cset.contours.resize_with(contour_count, Contour::default);
         cset
     }
 
-- 
2.43.0


From 8ca19683fbd142d04274068b06969ac74207a4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:56 +0000
Subject: [PATCH 15/42] fix: maximum edge lengths of 256 cells or more
 overflowed when squared

---
 crates/rerecast/src/contours.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/rerecast/src/contours.rs b/crates/rerecast/src/contours.rs
index c7c0721..d5b745b 100644
--- a/crates/rerecast/src/contours.rs
+++ b/crates/rerecast/src/contours.rs
@@ -427,8 +427,8 @@ fn simplify_contour(
                 && area.intersects(RegionVertexId::AREA_BORDER);
             let should_tesselate = is_wall_edge || is_edge_between_areas;
             if should_tesselate {
-                let d = b.xz().as_ivec2() - a.xz().as_ivec2();
-                if d.length_squared() > (max_edge_len * max_edge_len) as i32 {
+                let d = b.xz().as_i64vec2() - a.xz().as_i64vec2();
+                if d.length_squared() > max_edge_len as i64 * max_edge_len as i64 {
                     // Round based on the segments in lexilogical order so that the
                     // max tesselation is consistent regardless in which direction
                     // segments are traversed.
-- 
2.43.0


From 5282d9592d5bcb8c5c0774f8704f7b61072c59e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:56 +0000
Subject: [PATCH 16/42] fix: building contours panicked when the border is
 larger than the field

---
 crates/rerecast/src/contours.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/rerecast/src/contours.rs b/crates/rerecast/src/contours.rs
index d5b745b..9514f5e 100644
--- a/crates/rerecast/src/contours.rs
+++ b/crates/rerecast/src/contours.rs
@@ -24,8 +24,8 @@ impl CompactHeightfield {
             aabb: self.aabb,
             cell_size: self.cell_size,
             cell_height: self.cell_height,
-            width: self.width - self.border_size * 2,
-            height: self.height - self.border_size * 2,
+            width: self.width.saturating_sub(self.border_size.saturating_mul(2)),
+            height: self.height.saturating_sub(self.border_size.saturating_mul(2)),
             border_size: self.border_size,
             max_error,
         };
-- 
2.43.0


From a9870718067ea8a8b5419bf74985df2519048151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:56 +0000
Subject: [PATCH 17/42] fix: outlines with more than 40000 steps were cut off

---
 crates/rerecast/src/contours.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/rerecast/src/contours.rs b/crates/rerecast/src/contours.rs
index 9514f5e..eb843fd 100644
--- a/crates/rerecast/src/contours.rs
+++ b/crates/rerecast/src/contours.rs
@@ -152,7 +152,9 @@ impl CompactHeightfield {
         let start_i = i;
         let area = self.areas[i];
 
-        for _ in 0..40_000 {
+        // Every edge of every span is visited at most once.
+        let max_steps = (self.spans.len() * 4).max(40_000);
+        for _ in 0..max_steps {
             if (flags[i] & (1 << dir)) != 0 {
                 // Choose the edge corner
                 let mut is_area_border = false;
-- 
2.43.0


From e654a5a8f2007f9c705fbee85e7a9037107ee400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:23 +0000
Subject: [PATCH 18/42] fix: holes inside a region were not connected to its
 outline

---
 crates/rerecast/src/contours.rs  | 175 ++++++++++++++++++++++++++++++-
 crates/rerecast/src/poly_mesh.rs |   8 +-
 2 files changed, 178 insertions(+), 5 deletions(-)

diff --git a/crates/rerecast/src/contours.rs b/crates/rerecast/src/contours.rs
index eb843fd..ced9206 100644
--- a/crates/rerecast/src/contours.rs
+++ b/crates/rerecast/src/contours.rs
@@ -1,8 +1,13 @@
+use std::collections::BTreeMap;
+
 use glam::{U16Vec3, Vec3Swizzles};
 
 use crate::{
     Aabb3d, AreaType, CompactHeightfield, RegionId,
-    math::{dir_offset_x, dir_offset_z, distance_squared_between_point_and_line_u16vec2},
+    math::{
+        dir_offset_x, dir_offset_z, distance_squared_between_point_and_line_u16vec2, next, prev,
+    },
+    poly_mesh::{intersect, left, left_on, vequal},
 };
 
 impl CompactHeightfield {
@@ -131,6 +136,7 @@ impl CompactHeightfield {
                 }
             }
         }
+        merge_holes(&mut cset.contours);
         cset
     }
 
@@ -495,6 +501,173 @@ fn remove_degenerate_segments(simplified: &mut Vec<(U16Vec3, u32)>) {
     }
 }
 
+/// Merges the holes of every region into the outline of that region.
+///
+/// Holes wind in the opposite direction of outlines.
+fn merge_holes(contours: &mut [Contour]) {
+    let areas: Vec<i64> = contours
+        .iter()
+        .map(|contour| signed_double_area(&contour.vertices))
+        .collect();
+
+    // Collect the holes of every region.
+    let mut holes_per_region: BTreeMap<u16, Vec<usize>> = BTreeMap::new();
+    for (i, contour) in contours.iter().enumerate() {
+        if areas[i] < 0 {
+            holes_per_region
+                .entry(contour.region.bits())
+                .or_default()
+                .push(i);
+        }
+    }
+
+    for (region, holes) in holes_per_region {
+        let outline = (0..contours.len())
+            .filter(|i| contours[*i].region.bits() == region && areas[*i] > 0)
+            .max_by_key(|i| (areas[*i], std::cmp::Reverse(*i)));
+        match outline {
+            Some(outline) => merge_region_holes(contours, outline, holes),
+            None => {
+                // The region does not have an outline.
+                // This can happen if the contour becomes self-overlapping because of
+                // too aggressive simplification settings.
+                tracing::warn!(
+                    "Bad outline for region {region}, contour simplification is likely too aggressive."
+                );
+            }
+        }
+    }
+}
+
+fn merge_region_holes(contours: &mut [Contour], outline: usize, mut holes: Vec<usize>) {
+    // Sort holes from left to right.
+    let leftmost = |hole: usize| {
+        let vertices = &contours[hole].vertices;
+        (0..vertices.len())
+            .min_by_key(|i| (vertices[*i].0.x, vertices[*i].0.z))
+            .unwrap_or(0)
+    };
+    holes.sort_by_key(|hole| {
+        let vertex = contours[*hole].vertices[leftmost(*hole)].0;
+        (vertex.x, vertex.z)
+    });
+    let first_corners: Vec<usize> = holes.iter().map(|hole| leftmost(*hole)).collect();
+
+    // Merge holes into the outline one by one.
+    for (i, hole) in holes.iter().copied().enumerate() {
+        let corner_count = contours[hole].vertices.len();
+        let mut merge_points = None;
+        for iter in 0..corner_count {
+            let corner_index = (first_corners[i] + iter) % corner_count;
+            let corner = contours[hole].vertices[corner_index].0;
+            let outline_vertices = &contours[outline].vertices;
+
+            // Find potential diagonals.
+            // The corner must be in the cone described by 3 consecutive vertices of the outline.
+            let mut diagonals: Vec<(i64, usize)> = (0..outline_vertices.len())
+                .filter(|j| in_cone(*j, outline_vertices, corner))
+                .map(|j| {
+                    let d = outline_vertices[j].0.xz().as_i64vec2() - corner.xz().as_i64vec2();
+                    (d.length_squared(), j)
+                })
+                .collect();
+            diagonals.sort_unstable();
+
+            // Find a diagonal that is intersecting neither the outline nor the remaining holes.
+            let diagonal = diagonals.iter().map(|(_, j)| *j).find(|j| {
+                let point = outline_vertices[*j].0;
+                !intersects_contour(point, corner, Some(*j), outline_vertices)
+                    && !holes[i..].iter().any(|remaining| {
+                        intersects_contour(point, corner, None, &contours[*remaining].vertices)
+                    })
+            });
+            if let Some(diagonal) = diagonal {
+                merge_points = Some((diagonal, corner_index));
+                break;
+            }
+            // All the potential diagonals for the current vertex were intersecting, try next vertex.
+        }
+        let Some((outline_index, hole_index)) = merge_points else {
+            tracing::warn!("Failed to find merge points for a hole in a region contour.");
+            continue;
+        };
+        let hole_vertices = std::mem::take(&mut contours[hole].vertices);
+        merge_contours(
+            &mut contours[outline].vertices,
+            &hole_vertices,
+            outline_index,
+            hole_index,
+        );
+    }
+}
+
+/// Connects a hole to the outline by inserting it after the outline's vertex.
+/// The connecting vertices are present twice afterwards.
+fn merge_contours(
+    outline: &mut Vec<(U16Vec3, u32)>,
+    hole: &[(U16Vec3, u32)],
+    outline_index: usize,
+    hole_index: usize,
+) {
+    let mut merged = Vec::with_capacity(outline.len() + hole.len() + 2);
+    for i in 0..=outline.len() {
+        merged.push(outline[(outline_index + i) % outline.len()]);
+    }
+    for i in 0..=hole.len() {
+        merged.push(hole[(hole_index + i) % hole.len()]);
+    }
+    *outline = merged;
+}
+
+/// Twice the area of the contour on the xz-plane. Negative for holes.
+fn signed_double_area(vertices: &[(U16Vec3, u32)]) -> i64 {
+    (0..vertices.len())
+        .map(|i| {
+            let a = vertices[i].0.xz().as_i64vec2();
+            let b = vertices[prev(i, vertices.len())].0.xz().as_i64vec2();
+            a.x * b.y - b.x * a.y
+        })
+        .sum()
+}
+
+/// Returns true iff the point is strictly internal to the contour
+/// in the neighborhood of its `i`th vertex.
+fn in_cone(i: usize, vertices: &[(U16Vec3, u32)], point: U16Vec3) -> bool {
+    let pi = vertices[i].0;
+    let pi1 = vertices[next(i, vertices.len())].0;
+    let pin1 = vertices[prev(i, vertices.len())].0;
+
+    // If P[i] is a convex vertex [ i+1 left or on (i-1,i) ].
+    if left_on(pin1, pi, pi1) {
+        left(pi, point, pin1) && left(point, pi, pi1)
+    } else {
+        // Assume (i-1,i,i+1) not collinear.
+        // else P[i] is reflex.
+        !(left_on(pi, point, pi1) && left_on(point, pi, pin1))
+    }
+}
+
+/// Returns true iff the segment intersects the contour, ignoring edges incident to `skip`.
+fn intersects_contour(
+    d0: U16Vec3,
+    d1: U16Vec3,
+    skip: Option<usize>,
+    vertices: &[(U16Vec3, u32)],
+) -> bool {
+    (0..vertices.len()).any(|k| {
+        let k1 = next(k, vertices.len());
+        if skip == Some(k) || skip == Some(k1) {
+            return false;
+        }
+        let p0 = vertices[k].0;
+        let p1 = vertices[k1].0;
+        if vequal(d0, p0) || vequal(d1, p0) || vequal(d0, p1) || vequal(d1, p1) {
+            return false;
+        }
+        intersect(d0, d1, p0, p1)
+    })
+}
+
 /// Represents a group of related contours.
 /// All contours within the set share the minimum bounds and cell sizes of the set.
 ///
diff --git a/crates/rerecast/src/poly_mesh.rs b/crates/rerecast/src/poly_mesh.rs
index 9e0fc62..1b424a1 100644
--- a/crates/rerecast/src/poly_mesh.rs
+++ b/crates/rerecast/src/poly_mesh.rs
@@ -1215,13 +1215,13 @@ fn is_diagonal_internal_or_external(
 const INDEX_MASK: usize = 0x0fffffff;
 
 #[inline]
-fn vequal(a: U16Vec3, b: U16Vec3) -> bool {
+pub(crate) fn vequal(a: U16Vec3, b: U16Vec3) -> bool {
     a.xz() == b.xz()
 }
 
 /// Returns true iff segments ab and cd intersect, properly or improperly.
 #[inline]
-fn intersect(a: U16Vec3, b: U16Vec3, c: U16Vec3, d: U16Vec3) -> bool {
+pub(crate) fn intersect(a: U16Vec3, b: U16Vec3, c: U16Vec3, d: U16Vec3) -> bool {
     if intersect_prop(a, b, c, d) {
         return true;
     }
@@ -1248,12 +1248,12 @@ fn collinear(a: U16Vec3, b: U16Vec3, c: U16Vec3) -> bool {
 /// Returns true iff c is strictly to the left of the directed
 /// line through a to b.
 #[inline]
-fn left(a: U16Vec3, b: U16Vec3, c: U16Vec3) -> bool {
+pub(crate) fn left(a: U16Vec3, b: U16Vec3, c: U16Vec3) -> bool {
     area2(a, b, c) < 0
 }
 
 #[inline]
-fn left_on(a: U16Vec3, b: U16Vec3, c: U16Vec3) -> bool {
+pub(crate) fn left_on(a: U16Vec3, b: U16Vec3, c: U16Vec3) -> bool {
     area2(a, b, c) <= 0
 }
 
-- 
2.43.0


From 17c0110036e27a704c1548d5e0a53371685dcf2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:18 +0000
Subject: [PATCH 19/42] fix: ear lengths were truncated to 16 bits, so
 triangulation cut off the wrong corners

---
 crates/rerecast/src/poly_mesh.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/rerecast/src/poly_mesh.rs b/crates/rerecast/src/poly_mesh.rs
index 1b424a1..9070e4a 100644
--- a/crates/rerecast/src/poly_mesh.rs
+++ b/crates/rerecast/src/poly_mesh.rs
@@ -1058,7 +1058,7 @@ fn triangulate(
                 let p2 = verts[indices[next(i1, n)] & INDEX_MASK].0;
 
                 let d = p2.as_ivec3() - p0.as_ivec3();
-                let len = d.xz().length_squared() as u16;
+                let len = d.xz().as_i64vec2().length_squared();
                 if min_len.is_none_or(|min| len < min) {
                     min_len = Some(len);
                     mini = Some(i);
@@ -1082,7 +1082,7 @@ fn triangulate(
                     let p0 = verts[indices[i] & INDEX_MASK].0;
                     let p2 = verts[indices[next(i2, n)] & INDEX_MASK].0;
                     let d = p2.as_ivec3() - p0.as_ivec3();
-                    let len = d.xz().length_squared() as u16;
+                    let len = d.xz().as_i64vec2().length_squared();
                     if min_len.is_none_or(|min| len < min) {
                         min_len = Some(len);
                         mini = Some(i);
-- 
2.43.0


From 97f3e4fd7697bc1f1f24329b240c6a7a5fa373a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:19 +0000
Subject: [PATCH 20/42] fix: orientation tests overflowed on large fields

---
 crates/rerecast/src/poly_mesh.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/crates/rerecast/src/poly_mesh.rs b/crates/rerecast/src/poly_mesh.rs
index 9070e4a..a58a529 100644
--- a/crates/rerecast/src/poly_mesh.rs
+++ b/crates/rerecast/src/poly_mesh.rs
@@ -958,8 +958,8 @@ fn get_poly_merge_value(
     va = pa[ea] as usize;
     vb = pa[(ea + 1) % na] as usize;
 
-    let d = verts[va].as_ivec3() - verts[vb].as_ivec3();
-    let length_squared = d.xz().length_squared() as u32;
+    let d = verts[va].as_i64vec3() - verts[vb].as_i64vec3();
+    let length_squared = d.xz().length_squared();
     Some(PolyMergeValue {
         length_squared,
         edge_a: ea,
@@ -969,9 +969,7 @@ fn get_poly_merge_value(
 
 #[inline]
 fn uleft(a: U16Vec3, b: U16Vec3, c: U16Vec3) -> bool {
-    let cross = (b.x as i32 - a.x as i32) * (c.z as i32 - a.z as i32)
-        - (c.x as i32 - a.x as i32) * (b.z as i32 - a.z as i32);
-    cross < 0
+    area2(a, b, c) < 0
 }
 
 fn count_poly_verts(p: &[u16], nvp: usize) -> usize {
@@ -983,7 +981,7 @@ fn count_poly_verts(p: &[u16], nvp: usize) -> usize {
 
 #[derive(Debug)]
 struct PolyMergeValue {
-    length_squared: u32,
+    length_squared: i64,
     edge_a: usize,
     edge_b: usize,
 }
@@ -1175,10 +1173,10 @@ fn is_left(a: U16Vec3, b: U16Vec3, c: U16Vec3) -> bool {
 }
 
 #[inline]
-fn area2(a: U16Vec3, b: U16Vec3, c: U16Vec3) -> i32 {
-    let a = a.as_ivec3();
-    let b = b.as_ivec3();
-    let c = c.as_ivec3();
+fn area2(a: U16Vec3, b: U16Vec3, c: U16Vec3) -> i64 {
+    let a = a.as_i64vec3();
+    let b = b.as_i64vec3();
+    let c = c.as_i64vec3();
     (b.x - a.x) * (c.z - a.z) - (c.x - a.x) * (b.z - a.z)
 }
 
-- 
2.43.0


From 08c4c03a75f8cf531c1f136ad1c871ae7b30a255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:20 +0000
Subject: [PATCH 21/42] fix: removing a border vertex looked up the previous
 vertex past the end of the polygon

---
 crates/rerecast/src/poly_mesh.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/rerecast/src/poly_mesh.rs b/crates/rerecast/src/poly_mesh.rs
index a58a529..66fa6d1 100644
--- a/crates/rerecast/src/poly_mesh.rs
+++ b/crates/rerecast/src/poly_mesh.rs
@@ -559,7 +559,7 @@ impl InternalPolygonNavmesh {
                     continue;
                 }
                 // Collect edges which does not touch the removed vertex.
-                for (j, k) in (0..nv).zip(nv - 1..) {
+                for (j, k) in (0..nv).map(|j| (j, prev(j, nv))) {
                     if p[j] != rem && p[k] != rem {
                         let e = &mut edges[nedges];
                         e.polygon1 = p[k];
@@ -822,7 +822,7 @@ impl InternalPolygonNavmesh {
             let nv = count_poly_verts(p, nvp);
 
             // Collect edges which touches the removed vertex.
-            for (j, k) in (0..nv).zip((nv - 1)..) {
+            for (j, k) in (0..nv).map(|j| (j, prev(j, nv))) {
                 if !(p[j] == rem || p[k] == rem) {
                     continue;
                 }
-- 
2.43.0


From 1178a39e5faedfcbf872a6c62f0bd87d682074cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:21 +0000
Subject: [PATCH 22/42] fix: the outline around a removed border vertex was
 chained from the wrong edges or never finished

---
 crates/rerecast/src/poly_mesh.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/rerecast/src/poly_mesh.rs b/crates/rerecast/src/poly_mesh.rs
index 66fa6d1..8c23c94 100644
--- a/crates/rerecast/src/poly_mesh.rs
+++ b/crates/rerecast/src/poly_mesh.rs
@@ -633,20 +633,20 @@ impl InternalPolygonNavmesh {
                     push_front(r, &mut hreg, &mut nhreg);
                     push_front(a, &mut harea, &mut nharea);
                     add = true;
-                    i += 1;
                 } else if hole[nhole - 1] == ea {
                     // The segment matches the end of the hole boundary.
                     push_back(eb, &mut hole, &mut nhole);
                     push_back(r, &mut hreg, &mut nhreg);
                     push_back(a, &mut harea, &mut nharea);
                     add = true;
-                    i += 1;
                 }
                 if add {
                     // The edge segment was added, remove it.
                     edges[i] = edges[nedges - 1].clone();
                     nedges -= 1;
                     match_ = true;
+                } else {
+                    i += 1;
                 }
             }
             if !match_ {
-- 
2.43.0


From ef372188add866979cb961773cfac31766f86f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:21 +0000
Subject: [PATCH 23/42] fix: there was no room for the polygons that replace a
 removed border vertex

---
 crates/rerecast/src/poly_mesh.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/crates/rerecast/src/poly_mesh.rs b/crates/rerecast/src/poly_mesh.rs
index 8c23c94..262dfe4 100644
--- a/crates/rerecast/src/poly_mesh.rs
+++ b/crates/rerecast/src/poly_mesh.rs
@@ -363,7 +363,6 @@ impl ContourSet {
             }
         }
 
-        mesh.polygons.truncate(mesh.npolys * nvp * 2);
         // Remove edge vertices.
         let mut i = 0;
         while i < mesh.nvertices as usize {
-- 
2.43.0


From b64179bdd46dbaa72727cdce4bb2fc0aae2cdf04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:22 +0000
Subject: [PATCH 24/42] fix: removing the first vertex of the mesh underflowed
 the vertex counter

---
 crates/rerecast/src/poly_mesh.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/rerecast/src/poly_mesh.rs b/crates/rerecast/src/poly_mesh.rs
index 262dfe4..d9ec80c 100644
--- a/crates/rerecast/src/poly_mesh.rs
+++ b/crates/rerecast/src/poly_mesh.rs
@@ -376,10 +376,9 @@ impl ContourSet {
                 // Note: nverts is already decremented inside removeVertex()!
                 // Fixup vertex flags
                 vflags.copy_within((i + 1)..=mesh.nvertices as usize, i);
-                i -= 1;
+            } else {
+                i += 1;
             }
-
-            i += 1;
         }
         // Calculate adjacency.
         mesh.build_mesh_adjacency()?;
-- 
2.43.0


From 21d6439ce123b88bad25f74b94db3fdc61ca2f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:23 +0000
Subject: [PATCH 25/42] fix: the polygon mesh listed more regions than polygons

---
 crates/rerecast/src/poly_mesh.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/rerecast/src/poly_mesh.rs b/crates/rerecast/src/poly_mesh.rs
index d9ec80c..54bb28b 100644
--- a/crates/rerecast/src/poly_mesh.rs
+++ b/crates/rerecast/src/poly_mesh.rs
@@ -177,6 +177,7 @@ impl From<InternalPolygonNavmesh> for PolygonNavmesh {
         }
         value.vertices.truncate(value.nvertices as usize);
         value.areas.truncate(value.npolys);
+        value.regions.truncate(value.npolys);
         PolygonNavmesh {
             vertices: value.vertices,
             polygons,
-- 
2.43.0


From 06bf947ccc4a463b3d0bdbedbe490566e404b587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:24 +0000
Subject: [PATCH 26/42] fix: adjacency was lost in meshes with more than 65535
 edges

---
 crates/rerecast/src/poly_mesh.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/crates/rerecast/src/poly_mesh.rs b/crates/rerecast/src/poly_mesh.rs
index 54bb28b..5053e2f 100644
--- a/crates/rerecast/src/poly_mesh.rs
+++ b/crates/rerecast/src/poly_mesh.rs
@@ -439,8 +439,7 @@ impl InternalPolygonNavmesh {
         // Based on code by Eric Lengyel from:
         // https://web.archive.org/web/20080704083314/http://www.terathon.com/code/edges.php
         let max_edge_count = self.npolys * nvp;
-        let mut first_edge =
-            vec![PolygonNavmesh::NO_CONNECTION; self.nvertices as usize + max_edge_count];
+        let mut first_edge = vec![None; self.nvertices as usize + max_edge_count];
         let next_edge_index = self.nvertices as usize;
         let mut edge_count = 0;
         let mut edges = vec![Edge::default(); max_edge_count];
@@ -466,7 +465,7 @@ impl InternalPolygonNavmesh {
                     edge.poly_edge.y = 0;
                     // Insert edge
                     first_edge[next_edge_index + edge_count] = first_edge[v0 as usize];
-                    first_edge[v0 as usize] = edge_count as u16;
+                    first_edge[v0 as usize] = Some(edge_count);
                     edge_count += 1;
                 }
             }
@@ -486,14 +485,14 @@ impl InternalPolygonNavmesh {
                 };
                 if v0 > v1 {
                     let mut e = first_edge[v1 as usize];
-                    while e != PolygonNavmesh::NO_CONNECTION {
-                        let edge = &mut edges[e as usize];
+                    while let Some(edge_index) = e {
+                        let edge = &mut edges[edge_index];
                         if edge.vert.y == v0 && edge.poly.x == edge.poly.y {
                             edge.poly.y = i as u16;
                             edge.poly_edge.y = j as u16;
                             break;
                         }
-                        e = first_edge[next_edge_index + e as usize];
+                        e = first_edge[next_edge_index + edge_index];
                     }
                 }
             }
-- 
2.43.0


From 08fcc643137f7c60fbfbe7b9806eb95f4a2f2e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:25 +0000
Subject: [PATCH 27/42] fix: removing a border vertex whose surroundings
 collapse to a line panicked

---
 crates/rerecast/src/poly_mesh.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/rerecast/src/poly_mesh.rs b/crates/rerecast/src/poly_mesh.rs
index 5053e2f..9aaeb62 100644
--- a/crates/rerecast/src/poly_mesh.rs
+++ b/crates/rerecast/src/poly_mesh.rs
@@ -662,6 +662,10 @@ impl InternalPolygonNavmesh {
             thole[i] = i;
         }
 
+        if nhole < 3 {
+            return Ok(());
+        }
+
         // Triangulate the hole.
         // Jan: we treat errors here as a hard error instead of printing a warning.
         let ntris = triangulate(nhole, &tverts, &mut thole, &mut tris)?;
-- 
2.43.0


From 954ecbbcd4b97130cf13c5c13bb86fd5f3bbc5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:29 +0000
Subject: [PATCH 28/42] fix: unused slots were counted as open edges, so
 removable border vertices stayed in the mesh

---
 crates/rerecast/src/poly_mesh.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/rerecast/src/poly_mesh.rs b/crates/rerecast/src/poly_mesh.rs
index 9aaeb62..b79c0a1 100644
--- a/crates/rerecast/src/poly_mesh.rs
+++ b/crates/rerecast/src/poly_mesh.rs
@@ -856,7 +856,7 @@ impl InternalPolygonNavmesh {
         // There should be no more than 2 open edges.
         // This catches the case that two non-adjacent polygons
         // share the removed vertex. In that case, do not remove the vertex.
-        let num_open_edges = edges.iter().filter(|e| e[2] < 2).count();
+        let num_open_edges = edges.iter().take(nedges).filter(|e| e[2] < 2).count();
         num_open_edges <= 2
     }
 }
-- 
2.43.0


From 697dc3f9188043ec7dfc3e8c665312bb6e87b385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:25 +0000
Subject: [PATCH 29/42] fix: building a detail mesh with a sample distance of
 zero panicked

---
 crates/rerecast/src/detail_mesh.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/rerecast/src/detail_mesh.rs b/crates/rerecast/src/detail_mesh.rs
index b780369..ebebabc 100644
--- a/crates/rerecast/src/detail_mesh.rs
+++ b/crates/rerecast/src/detail_mesh.rs
@@ -438,6 +438,14 @@ fn build_poly_detail(
             }
             j = i;
         }
+    } else {
+        // Without sampling, the outline consists of the polygon's own edges.
+        let mut j = nin - 1;
+        for i in 0..nin {
+            hull[nhull] = j;
+            nhull += 1;
+            j = i;
+        }
     }
 
     // If the polygon minimum extent is small (sliver or small triangle), do not try to add internal points.
-- 
2.43.0


From 1f4125935fed5f3b353a7a2f59c1f024d1020963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:43 +0000
Subject: [PATCH 30/42] fix: the height lookup of merged polygons started from
 unrelated vertices

---
 crates/rerecast/src/detail_mesh.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/rerecast/src/detail_mesh.rs b/crates/rerecast/src/detail_mesh.rs
index ebebabc..b38bb24 100644
--- a/crates/rerecast/src/detail_mesh.rs
+++ b/crates/rerecast/src/detail_mesh.rs
@@ -241,7 +241,7 @@ impl DetailNavmesh {
                 chf,
                 p,
                 npoly,
-                &verts,
+                &mesh.vertices,
                 border_size,
                 &mut arr,
                 mesh.regions[i],
@@ -1245,7 +1245,7 @@ impl HeightPatch {
         chf: &CompactHeightfield,
         poly: &[u16],
         npoly: usize,
-        verts: &[Vec3A],
+        verts: &[U16Vec3],
         bs: u16,
         queue: &mut Vec<(i32, i32, usize)>,
         region: RegionId,
@@ -1354,7 +1354,7 @@ impl HeightPatch {
         chf: &CompactHeightfield,
         poly: &[u16],
         npoly: usize,
-        verts: &[Vec3A],
+        verts: &[U16Vec3],
         bs: u16,
         array: &mut Vec<(i32, i32, usize)>,
     ) {
-- 
2.43.0


From 02f9359c4879b923807599f068479446aa3475a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:19 +0000
Subject: [PATCH 31/42] fix: growing the detail mesh computed the space to
 reserve with an underflow and panicked

---
 crates/rerecast/src/detail_mesh.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/rerecast/src/detail_mesh.rs b/crates/rerecast/src/detail_mesh.rs
index b38bb24..31f91d8 100644
--- a/crates/rerecast/src/detail_mesh.rs
+++ b/crates/rerecast/src/detail_mesh.rs
@@ -288,7 +288,7 @@ impl DetailNavmesh {
                 while dmesh.vertices.len() + nverts > vcap {
                     vcap += 256;
                 }
-                dmesh.vertices.reserve(vcap - dmesh.vertices.capacity());
+                dmesh.vertices.reserve(vcap - dmesh.vertices.len());
             }
             for vert in &verts[..nverts] {
                 dmesh.vertices.push(Vec3::from(*vert));
@@ -299,7 +299,7 @@ impl DetailNavmesh {
                 while dmesh.triangles.len() + tris.len() > tcap {
                     tcap += 256;
                 }
-                dmesh.triangles.reserve(tcap - dmesh.triangles.capacity());
+                dmesh.triangles.reserve(tcap - dmesh.triangles.len());
             }
             for tri in &tris {
                 dmesh.triangles.push([tri[0], tri[1], tri[2]]);
-- 
2.43.0


From 4fce5eecbc75d8a592464926e12b22715779c532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:06 +0000
Subject: [PATCH 32/42] fix: a polygon touching the last coordinate overflowed
 its height patch bounds

---
 crates/rerecast/src/detail_mesh.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/rerecast/src/detail_mesh.rs b/crates/rerecast/src/detail_mesh.rs
index 31f91d8..b8ccece 100644
--- a/crates/rerecast/src/detail_mesh.rs
+++ b/crates/rerecast/src/detail_mesh.rs
@@ -198,9 +198,9 @@ impl DetailNavmesh {
                 poly_vert_count += 1;
             }
             *xmin = xmin.saturating_sub(1);
-            *xmax = chf.width.min(*xmax + 1);
+            *xmax = chf.width.min(xmax.saturating_add(1));
             *zmin = zmin.saturating_sub(1);
-            *zmax = chf.height.min(*zmax + 1);
+            *zmax = chf.height.min(zmax.saturating_add(1));
             if xmin >= xmax || zmin >= zmax {
                 continue;
             }
-- 
2.43.0


From a423f3ff7ebecaf3df3b776bd7fd4956fb98e590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:47 +0000
Subject: [PATCH 33/42] fix: detail samples beyond grid column 65535 wrapped
 around and were lost

---
 crates/rerecast/src/detail_mesh.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/rerecast/src/detail_mesh.rs b/crates/rerecast/src/detail_mesh.rs
index b8ccece..8ebacc2 100644
--- a/crates/rerecast/src/detail_mesh.rs
+++ b/crates/rerecast/src/detail_mesh.rs
@@ -1,6 +1,6 @@
 #[cfg(feature = "bevy_reflect")]
 use bevy_reflect::prelude::*;
-use glam::{U16Vec3, Vec2, Vec3, Vec3A, Vec3Swizzles as _, u16vec3};
+use glam::{IVec3, U16Vec3, Vec2, Vec3, Vec3A, Vec3Swizzles as _, ivec3};
 use std::{
     f32,
     ops::{Deref, DerefMut},
@@ -326,7 +326,7 @@ fn build_poly_detail(
     tris: &mut Vec<[u8; 3]>,
     flags: &mut Vec<u8>,
     edges: &mut Vec<Edges>,
-    samples: &mut Vec<(U16Vec3, bool)>,
+    samples: &mut Vec<(IVec3, bool)>,
 ) -> Result<(), DetailNavmeshError> {
     let mut edge = [Vec3A::default(); DetailNavmesh::MAX_VERTS_PER_EDGE + 1];
     let mut hull = [0; DetailNavmesh::MAX_VERTICES_PER_SUBMESH];
@@ -495,7 +495,7 @@ fn build_poly_detail(
                     continue;
                 }
                 let y = get_height(pt, ics, chf.cell_height, height_search_radius, hp);
-                samples.push((u16vec3(x as u16, y, z as u16), false));
+                samples.push((ivec3(x, y as i32, z), false));
             }
         }
 
-- 
2.43.0


From 48231b179ed3cd4819034157604f7ddf60f8241d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:18 +0000
Subject: [PATCH 34/42] fix: report a triangle that cannot be clipped instead
 of panicking

---
 crates/rerecast/src/rasterize.rs | 41 +++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/crates/rerecast/src/rasterize.rs b/crates/rerecast/src/rasterize.rs
index 4c5af33..23412c8 100644
--- a/crates/rerecast/src/rasterize.rs
+++ b/crates/rerecast/src/rasterize.rs
@@ -234,34 +234,27 @@ fn divide_poly(
         if !same_side {
             let s = in_vert_axis_delta[in_vert_b]
                 / (in_vert_axis_delta[in_vert_b] - in_vert_axis_delta[in_vert_a]);
-            out_verts_1[poly_1_vert] =
-                in_verts[in_vert_b] + (in_verts[in_vert_a] - in_verts[in_vert_b]) * s;
-            out_verts_2[poly_2_vert] = out_verts_1[poly_1_vert];
-
-            poly_1_vert += 1;
-            poly_2_vert += 1;
+            let crossing = in_verts[in_vert_b] + (in_verts[in_vert_a] - in_verts[in_vert_b]) * s;
+            push_vertex(out_verts_1, &mut poly_1_vert, crossing)?;
+            push_vertex(out_verts_2, &mut poly_2_vert, crossing)?;
 
             // add the inVertA point to the right polygon. Do NOT add points that are on the dividing line
             // since these were already added above
             if in_vert_axis_delta[in_vert_a] > 0.0 {
-                out_verts_1[poly_1_vert] = in_verts[in_vert_a];
-                poly_1_vert += 1;
+                push_vertex(out_verts_1, &mut poly_1_vert, in_verts[in_vert_a])?;
             } else if in_vert_axis_delta[in_vert_a] < 0.0 {
-                out_verts_2[poly_2_vert] = in_verts[in_vert_a];
-                poly_2_vert += 1;
+                push_vertex(out_verts_2, &mut poly_2_vert, in_verts[in_vert_a])?;
             }
         } else {
             // add the inVertA point to the right polygon. Addition is done even for points on the dividing line
             if in_vert_axis_delta[in_vert_a] >= 0.0 {
-                out_verts_1[poly_1_vert] = in_verts[in_vert_a];
-                poly_1_vert += 1;
+                push_vertex(out_verts_1, &mut poly_1_vert, in_verts[in_vert_a])?;
                 if in_vert_axis_delta[in_vert_a] != 0.0 {
                     in_vert_b = in_vert_a;
                     continue;
                 }
             }
-            out_verts_2[poly_2_vert] = in_verts[in_vert_a];
-            poly_2_vert += 1;
+            push_vertex(out_verts_2, &mut poly_2_vert, in_verts[in_vert_a])?;
         }
 
         in_vert_b = in_vert_a;
@@ -273,11 +266,27 @@ fn divide_poly(
     Ok(())
 }
 
+/// Appends a vertex to a divided polygon. Triangles so large that the rounding of their clipped vertices makes
+/// them non-convex can end up with more vertices than there is room for.
+#[inline]
+fn push_vertex(
+    verts: &mut [Vec3A],
+    vert_count: &mut usize,
+    vert: Vec3A,
+) -> Result<(), PolygonDivisionError> {
+    let slot = verts
+        .get_mut(*vert_count)
+        .ok_or(PolygonDivisionError::TooManyVertices(*vert_count as u8 + 1))?;
+    *slot = vert;
+    *vert_count += 1;
+    Ok(())
+}
+
 /// Errors that can occur when dividing a polygon into two convex polygons across a separating axis.
 #[derive(Error, Debug)]
 pub enum PolygonDivisionError {
-    /// Happens when the polygon has more than 12 vertices.
-    #[error("Failed to divide polygon: too many vertices. Expected at most 12, got {0}.")]
+    /// Happens when the polygon, or a part it is divided into, has more vertices than there is room for.
+    #[error("Failed to divide polygon: too many vertices, got {0}.")]
     TooManyVertices(u8),
     /// Happens when the polygon has no vertices.
     #[error("Failed to divide polygon: no vertices.")]
-- 
2.43.0


From d17631a060c96053c9a1261525c727311c4c1025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:20 +0000
Subject: [PATCH 35/42] fix: refuse heightfields whose width or height does not
 fit into 16 bits

---
 crates/rerecast/src/heightfield.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/rerecast/src/heightfield.rs b/crates/rerecast/src/heightfield.rs
index 392a409..118fc35 100644
--- a/crates/rerecast/src/heightfield.rs
+++ b/crates/rerecast/src/heightfield.rs
@@ -260,6 +260,10 @@ impl HeightfieldBuilder {
     pub fn build(self) -> Result<Heightfield, HeightfieldBuilderError> {
         let width = (self.aabb.max.x - self.aabb.min.x) / self.cell_size + 0.5;
         let height = (self.aabb.max.z - self.aabb.min.z) / self.cell_size + 0.5;
+        // The size is stored in 16 bits per axis; anything above would be truncated.
+        if width as u32 > u16::MAX as u32 || height as u32 > u16::MAX as u32 {
+            return Err(HeightfieldBuilderError::ColumnCountTooLarge { width, height });
+        }
         let column_count = width as u128 * height as u128;
         if column_count > usize::MAX as u128 {
             return Err(HeightfieldBuilderError::ColumnCountTooLarge { width, height });
@@ -280,8 +284,8 @@ impl HeightfieldBuilder {
 /// Errors that can occur when building a [`Heightfield`] with [`HeightfieldBuilder::build`].
 #[derive(Error, Debug)]
 pub enum HeightfieldBuilderError {
-    /// Happens when the column count is too large.
-    #[error("Column count (width*height) is too large, got {width}*{height}={column_count} but max is {max}", column_count = width * height, max = usize::MAX)]
+    /// Happens when the width or the height is too large.
+    #[error("Column count (width*height) is too large, got {width}*{height}={column_count} but the max per axis is {max}", column_count = width * height, max = u16::MAX)]
     ColumnCountTooLarge {
         /// The width of the heightfield along the x-axis in cell units
         width: f32,
-- 
2.43.0


From 98e1fc1d23d17439c6da83f915c8878974554be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:41 +0000
Subject: [PATCH 36/42] fix: place the parts of compound colliders by their own
 offsets

---
 crates/avian_rerecast/src/collider_to_trimesh.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/avian_rerecast/src/collider_to_trimesh.rs b/crates/avian_rerecast/src/collider_to_trimesh.rs
index d8c84e2..6c6e662 100644
--- a/crates/avian_rerecast/src/collider_to_trimesh.rs
+++ b/crates/avian_rerecast/src/collider_to_trimesh.rs
@@ -93,7 +93,7 @@ fn compound_trimesh(compound: &Compound, subdivisions: u32) -> TriMesh {
     compound.shapes().iter().fold(
         TriMesh::default(),
         |mut compound_trimesh, (isometry, shape)| {
-            let Some(trimesh) =
+            let Some(mut trimesh) =
                 // No need to track recursive compounds because parry panics on nested compounds anyways lol
                 shape_to_trimesh(&shape.as_typed_shape(), subdivisions)
             else {
@@ -105,7 +105,7 @@ fn compound_trimesh(compound: &Compound, subdivisions: u32) -> TriMesh {
                 rotation: Quat::from(isometry.rotation),
             };
 
-            apply_isometry(&mut compound_trimesh, isometry);
+            apply_isometry(&mut trimesh, isometry);
             compound_trimesh.extend(trimesh);
             compound_trimesh
         },
-- 
2.43.0


From eb9a78612f023089518d25a9dd71bffd22d654b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:55 +0000
Subject: [PATCH 37/42] fix: refuse messages that go on after the encoded value

---
 .../src/transmission/serialization.rs                  | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/bevy_rerecast_editor_integration/src/transmission/serialization.rs b/crates/bevy_rerecast_editor_integration/src/transmission/serialization.rs
index 7e684a0..0b19c66 100644
--- a/crates/bevy_rerecast_editor_integration/src/transmission/serialization.rs
+++ b/crates/bevy_rerecast_editor_integration/src/transmission/serialization.rs
@@ -5,7 +5,7 @@ use std::io::{Read as _, Write};
 use anyhow::Context as _;
 use base64::prelude::*;
 use bevy_ecs::prelude::*;
-use flate2::{Compression, read::GzDecoder, write::GzEncoder};
+use flate2::{Compression, bufread::GzDecoder, write::GzEncoder};
 use serde::{Serialize, de::DeserializeOwned};
 use serde_json::Value;
 
@@ -27,7 +27,13 @@ pub fn deserialize<T: DeserializeOwned>(value: &Value) -> Result<T> {
     let mut gz = GzDecoder::new(&gz_bytes[..]);
     let mut bincode_bytes = Vec::new();
     gz.read_to_end(&mut bincode_bytes)?;
-    let (val, _len): (T, usize) =
+    if !gz.into_inner().is_empty() {
+        return Err("Unexpected data after the compressed value".into());
+    }
+    let (val, len): (T, usize) =
         bincode::serde::decode_from_slice(&bincode_bytes, bincode::config::standard())?;
+    if len != bincode_bytes.len() {
+        return Err("Unexpected data after the value".into());
+    }
     Ok(val)
 }
-- 
2.43.0


From 9dd969e36a051e5b585c92963787419c6e958556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:33 +0000
Subject: [PATCH 38/42] fix: limit how much memory a malformed message can
 claim

---
 .../src/transmission/serialization.rs                 | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/bevy_rerecast_editor_integration/src/transmission/serialization.rs b/crates/bevy_rerecast_editor_integration/src/transmission/serialization.rs
index 0b19c66..45095e0 100644
--- a/crates/bevy_rerecast_editor_integration/src/transmission/serialization.rs
+++ b/crates/bevy_rerecast_editor_integration/src/transmission/serialization.rs
@@ -19,6 +19,11 @@ pub fn serialize<T: Serialize>(val: &T) -> Result<Value> {
     Ok(Value::String(base64_string))
 }
 
+/// The most bytes a value may take up when it is decoded.
+///
+/// Without a limit, memory is reserved for whatever length a malformed message claims to contain.
+const MAX_DECODED_BYTES: usize = u32::MAX as usize;
+
 /// Deserializes a JSON value in the format expected by the editor integration to a value.
 pub fn deserialize<T: DeserializeOwned>(value: &Value) -> Result<T> {
     let value_string = value.as_str().context("Expected a string")?;
@@ -30,8 +35,10 @@ pub fn deserialize<T: DeserializeOwned>(value: &Value) -> Result<T> {
     if !gz.into_inner().is_empty() {
         return Err("Unexpected data after the compressed value".into());
     }
-    let (val, len): (T, usize) =
-        bincode::serde::decode_from_slice(&bincode_bytes, bincode::config::standard())?;
+    let (val, len): (T, usize) = bincode::serde::decode_from_slice(
+        &bincode_bytes,
+        bincode::config::standard().with_limit::<MAX_DECODED_BYTES>(),
+    )?;
     if len != bincode_bytes.len() {
         return Err("Unexpected data after the value".into());
     }
-- 
2.43.0


From 5864fa0c6cd2b556b85a412f62985b9c367f9050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:04 +0000
Subject: [PATCH 39/42] fix: looking up a span beyond the width of a
 heightfield returned one of the next row

---
 crates/rerecast/src/heightfield.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/rerecast/src/heightfield.rs b/crates/rerecast/src/heightfield.rs
index 118fc35..c597d34 100644
--- a/crates/rerecast/src/heightfield.rs
+++ b/crates/rerecast/src/heightfield.rs
@@ -194,6 +194,10 @@ impl Heightfield {
     /// `None` if either the index is out of bounds or there is no span in the column.
     #[inline]
     pub fn span_key_at(&self, x: u16, z: u16) -> Option<SpanKey> {
+        if x >= self.width {
+            // Invalid coordinates, would wrap around into the next row
+            return None;
+        }
         let column_index = self.column_index(x, z);
         let Some(span_key) = self.spans.get(column_index) else {
             // Invalid coordinates
-- 
2.43.0


From 319862641147a05c7aaed2961547f72bba49b941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:04 +0000
Subject: [PATCH 40/42] fix: looking up a cell beyond the width of a compact
 heightfield returned one of the next row

---
 crates/rerecast/src/compact_heightfield.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/rerecast/src/compact_heightfield.rs b/crates/rerecast/src/compact_heightfield.rs
index fc259e8..4169dc0 100644
--- a/crates/rerecast/src/compact_heightfield.rs
+++ b/crates/rerecast/src/compact_heightfield.rs
@@ -265,6 +265,10 @@ impl CompactHeightfield {
     /// Returns the cell at the given coordinates. Returns `None` if the coordinates are invalid.
     #[inline]
     pub fn get_cell_at(&self, x: u16, z: u16) -> Option<&CompactCell> {
+        if x >= self.width {
+            // Invalid coordinates, would wrap around into the next row
+            return None;
+        }
         let Some(cell) = self.cells.get(self.column_index(x, z)) else {
             // Invalid coordinates
             return None;
@@ -281,6 +285,10 @@ impl CompactHeightfield {
     /// Returns the cell mutably at the given coordinates. Returns `None` if the coordinates are invalid.
     #[inline]
     pub fn get_cell_at_mut(&mut self, x: u16, z: u16) -> Option<&mut CompactCell> {
+        if x >= self.width {
+            // Invalid coordinates, would wrap around into the next row
+            return None;
+        }
         let index = self.column_index(x, z);
         let Some(cell) = self.cells.get_mut(index) else {
             // Invalid coordinates
-- 
2.43.0


From 2537c1ee72f23518dd9912eec021c3088d7ee005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:19 +0000
Subject: [PATCH 41/42] fix: close every load dialog of the editor, also when
 it was opened twice within one frame

Two clicks on "Load Scene" that arrive in one frame (for instance while a build blocks the
editor) open two dialogs. Closing them expected exactly one and was skipped silently, so that
neither "x" nor "Load" could ever close them again.
---
 crates/bevy_rerecast_editor/src/ui.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/bevy_rerecast_editor/src/ui.rs b/crates/bevy_rerecast_editor/src/ui.rs
index 9b77ae4..3e2526a 100644
--- a/crates/bevy_rerecast_editor/src/ui.rs
+++ b/crates/bevy_rerecast_editor/src/ui.rs
@@ -185,9 +185,12 @@ struct CloseModal;
 fn close_modal(
     _: Trigger<CloseModal>,
     mut commands: Commands,
-    modal: Single<Entity, With<LoadSceneModal>>,
+    modals: Query<Entity, With<LoadSceneModal>>,
 ) {
-    commands.entity(*modal).try_despawn();
+    // The modal may have been opened several times within one frame.
+    for modal in &modals {
+        commands.entity(modal).try_despawn();
+    }
 }
 
 fn close_load_scene(_: Trigger<Pointer<Click>>, mut commands: Commands) {
-- 
2.43.0


From cec72d48312df84219ed433550c6142f6cf18ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:55 +0000
Subject: [PATCH 42/42] fix: cell_at and cell_at_mut returned a cell of the
 next row beyond the width instead of panicking

---
 crates/rerecast/src/compact_heightfield.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/rerecast/src/compact_heightfield.rs b/crates/rerecast/src/compact_heightfield.rs
index 4169dc0..bf894d3 100644
--- a/crates/rerecast/src/compact_heightfield.rs
+++ b/crates/rerecast/src/compact_heightfield.rs
@@ -279,6 +279,7 @@ impl CompactHeightfield {
     /// Returns the cell at the given coordinates. Panics if the coordinates are invalid.
     #[inline]
     pub fn cell_at(&self, x: u16, z: u16) -> &CompactCell {
+        assert!(x < self.width, "cell coordinates out of bounds");
         &self.cells[self.column_index(x, z)]
     }
 
@@ -300,6 +301,7 @@ impl CompactHeightfield {
     /// Returns the cell mutably at the given coordinates. Panics if the coordinates are invalid.
     #[inline]
     pub fn cell_at_mut(&mut self, x: u16, z: u16) -> &mut CompactCell {
+        assert!(x < self.width, "cell coordinates out of bounds");
         let index = self.column_index(x, z);
         &mut self.cells[index]
     }
-- 
2.43.0

