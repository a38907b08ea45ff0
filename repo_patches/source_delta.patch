From d5415b3b64ac67e4efcc69d9e0e167299c4651b9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:12:39 +0000
Subject: [PATCH 01/32] fix: do not rasterize stale vertices once a triangle is
 used up

---
 crates/rerecast/src/rasterize.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/rerecast/src/rasterize.rs b/crates/rerecast/src/rasterize.rs
index ee844e8..283f146 100644
--- a/crates/rerecast/src/rasterize.rs
+++ b/crates/rerecast/src/rasterize.rs
@@ -207,6 +207,10 @@ fn divide_poly(
     if in_vert_count > 12 {
         return Err(PolygonDivisionError::TooManyVertices(in_vert_count));
     } else if in_vert_count == 0 {
+        // Nothing left to divide. The counts must still be reset, otherwise the caller would keep
+        // using the vertices of the previous division.
+        *out_vert_count_1 = 0;
+        *out_vert_count_2 = 0;
         return Ok(());
     }
     let in_vert_count = in_vert_count as usize;
-- 
2.43.0


From b9ffecec95406cf60ebbbf872c338ea98e0d49fc Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:12:39 +0000
Subject: [PATCH 02/32] fix: do not panic on spans starting at the maximum
 height

---
 crates/rerecast/src/rasterize.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/rerecast/src/rasterize.rs b/crates/rerecast/src/rasterize.rs
index 283f146..df1574f 100644
--- a/crates/rerecast/src/rasterize.rs
+++ b/crates/rerecast/src/rasterize.rs
@@ -156,7 +156,7 @@ impl Heightfield {
 
                 // Snap the span to the heightfield height grid.
                 let span_min_cell_index = ((span_min * inverse_cell_height).floor() as i32)
-                    .clamp(0, Span::MAX_HEIGHT as i32)
+                    .clamp(0, Span::MAX_HEIGHT as i32 - 1)
                     as u16;
                 let span_max_cell_index = ((span_max * inverse_cell_height).ceil() as i32)
                     .clamp(span_min_cell_index as i32 + 1, Span::MAX_HEIGHT as i32)
-- 
2.43.0


From 48887377f0c4a056a33d53e94caa504a15d64883 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:12:39 +0000
Subject: [PATCH 03/32] fix: rasterize into empty heightfields and ones wider
 than i16::MAX

---
 crates/rerecast/src/rasterize.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/crates/rerecast/src/rasterize.rs b/crates/rerecast/src/rasterize.rs
index df1574f..6621312 100644
--- a/crates/rerecast/src/rasterize.rs
+++ b/crates/rerecast/src/rasterize.rs
@@ -46,16 +46,20 @@ impl Heightfield {
         let inverse_cell_size = 1.0 / self.cell_size;
         let inverse_cell_height = 1.0 / self.cell_height;
 
-        let w = self.width as i16;
-        let h = self.height as i16;
+        let w = self.width as i32;
+        let h = self.height as i32;
+        if w == 0 || h == 0 {
+            // There are no columns to rasterize into.
+            return Ok(());
+        }
         // The height of the heightfield AABB
         let by = self.aabb.max[1] - self.aabb.min[1];
 
         // Calculate the footprint of the triangle on the grid's z-axis
         // z0 is the first z cell that the triangle touches
         // z1 is the last z cell that the triangle touches
-        let z0 = ((aabb.min[2] - self.aabb.min[2]) * inverse_cell_size) as i16;
-        let z1 = ((aabb.max[2] - self.aabb.min[2]) * inverse_cell_size) as i16;
+        let z0 = ((aabb.min[2] - self.aabb.min[2]) * inverse_cell_size) as i32;
+        let z1 = ((aabb.max[2] - self.aabb.min[2]) * inverse_cell_size) as i32;
 
         // use -1 rather than 0 to cut the polygon properly at the start of the tile
         let z0 = z0.clamp(-1, h - 1);
@@ -106,8 +110,8 @@ impl Heightfield {
                 min_x = min_x.min(in_row[i as usize].x);
                 max_x = max_x.max(in_row[i as usize].x);
             }
-            let x0 = ((min_x - self.aabb.min[0]) * inverse_cell_size) as i16;
-            let x1 = ((max_x - self.aabb.min[0]) * inverse_cell_size) as i16;
+            let x0 = ((min_x - self.aabb.min[0]) * inverse_cell_size) as i32;
+            let x1 = ((max_x - self.aabb.min[0]) * inverse_cell_size) as i32;
             if x1 < 0 || x0 >= w {
                 continue;
             }
-- 
2.43.0


From 9c0f2e43e1ecb4fc5f95ef634059a7bd77dae66b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:12:39 +0000
Subject: [PATCH 04/32] fix: erode by radii of 128 cells and more

---
 crates/rerecast/src/erosion.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/crates/rerecast/src/erosion.rs b/crates/rerecast/src/erosion.rs
index c14d2b6..b96cfe0 100644
--- a/crates/rerecast/src/erosion.rs
+++ b/crates/rerecast/src/erosion.rs
@@ -6,7 +6,7 @@ use crate::{
 impl CompactHeightfield {
     /// Erode the walkable area by agent radius.
     pub fn erode_walkable_area(&mut self, erosion_radius: u16) {
-        let mut distance_to_boundary = vec![u8::MAX; self.spans.len()];
+        let mut distance_to_boundary = vec![u16::MAX; self.spans.len()];
 
         // Mark boundary cells.
         for z in 0..self.height {
@@ -49,7 +49,7 @@ impl CompactHeightfield {
             }
         }
 
-        let mut new_distance: u8;
+        let mut new_distance: u16;
 
         // Pass 1
         for z in 0..self.height {
@@ -163,8 +163,7 @@ impl CompactHeightfield {
             }
         }
 
-        // Jan: This just wraps on overflow. Is that intentional???
-        let min_boundary_distance = (erosion_radius * 2) as u8;
+        let min_boundary_distance = erosion_radius.saturating_mul(2);
         #[expect(
             clippy::needless_range_loop,
             reason = "lol the alternative suggestion is really unreadable"
-- 
2.43.0


From ea2ac868c5b5fb3ec9f62ea7cb63a42c0a33e592 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:12:39 +0000
Subject: [PATCH 05/32] fix: do not panic when building the distance field of
 an empty heightfield

---
 crates/rerecast/src/watershed_distance_field.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/rerecast/src/watershed_distance_field.rs b/crates/rerecast/src/watershed_distance_field.rs
index 1bbf117..33955bf 100644
--- a/crates/rerecast/src/watershed_distance_field.rs
+++ b/crates/rerecast/src/watershed_distance_field.rs
@@ -17,8 +17,8 @@ impl CompactHeightfield {
     /// Prepare for region partitioning, by calculating distance field along the walkable surface.
     pub fn build_distance_field(&mut self) {
         let distance_field = self.calculate_distance_field();
-        // Safety: Unwrap is fine as long as `spans` is not empty, as `distance_field` has the same length
-        self.max_distance = *distance_field.iter().max().unwrap();
+        // There is no maximum if there are no spans at all
+        self.max_distance = distance_field.iter().copied().max().unwrap_or(0);
         let distance_field = self.box_blur(1, &distance_field);
         self.dist = distance_field;
     }
-- 
2.43.0


From 0074851918ccb63e5e0d0e11dd2bcf1feb4c7b63 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:12:39 +0000
Subject: [PATCH 06/32] fix: refuse to build heightfields with more than
 u16::MAX cells per side

---
 crates/rerecast/src/heightfield.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/rerecast/src/heightfield.rs b/crates/rerecast/src/heightfield.rs
index 392a409..2a5edfd 100644
--- a/crates/rerecast/src/heightfield.rs
+++ b/crates/rerecast/src/heightfield.rs
@@ -260,6 +260,9 @@ impl HeightfieldBuilder {
     pub fn build(self) -> Result<Heightfield, HeightfieldBuilderError> {
         let width = (self.aabb.max.x - self.aabb.min.x) / self.cell_size + 0.5;
         let height = (self.aabb.max.z - self.aabb.min.z) / self.cell_size + 0.5;
+        if width as u128 > u16::MAX as u128 || height as u128 > u16::MAX as u128 {
+            return Err(HeightfieldBuilderError::SizeTooLarge { width, height });
+        }
         let column_count = width as u128 * height as u128;
         if column_count > usize::MAX as u128 {
             return Err(HeightfieldBuilderError::ColumnCountTooLarge { width, height });
@@ -280,6 +283,14 @@ impl HeightfieldBuilder {
 /// Errors that can occur when building a [`Heightfield`] with [`HeightfieldBuilder::build`].
 #[derive(Error, Debug)]
 pub enum HeightfieldBuilderError {
+    /// Happens when the width or height does not fit into the heightfield's dimensions.
+    #[error("Heightfield is too large, got {width}x{height} cells, but the maximum is {max}x{max}", max = u16::MAX)]
+    SizeTooLarge {
+        /// The width of the heightfield along the x-axis in cell units
+        width: f32,
+        /// The height of the heightfield along the z-axis in cell units
+        height: f32,
+    },
     /// Happens when the column count is too large.
     #[error("Column count (width*height) is too large, got {width}*{height}={column_count} but max is {max}", column_count = width * height, max = usize::MAX)]
     ColumnCountTooLarge {
-- 
2.43.0


From a9f4f8f72ae654d8f3e79c003d311d1130ddbe58 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:16:05 +0000
Subject: [PATCH 07/32] fix: consider all neighbours of a span next to the
 border when flooding regions

---
 crates/rerecast/src/watershed_build_regions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/rerecast/src/watershed_build_regions.rs b/crates/rerecast/src/watershed_build_regions.rs
index 3bedbe0..64df4b0 100644
--- a/crates/rerecast/src/watershed_build_regions.rs
+++ b/crates/rerecast/src/watershed_build_regions.rs
@@ -563,7 +563,7 @@ impl CompactHeightfield {
                     let nr = src_reg[a_index];
                     if nr.intersects(RegionId::BORDER_REGION) {
                         // Do not take borders into account.
-                        break;
+                        continue;
                     }
                     if nr != RegionId::NONE && nr != region {
                         ar = nr;
-- 
2.43.0


From c8c063be64e878ed72b81ef1a1ad44c7269a4bfc Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:33:52 +0000
Subject: [PATCH 08/32] fix: split contour edges correctly for max_edge_len of
 256 and more

---
 crates/rerecast/src/contours.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/rerecast/src/contours.rs b/crates/rerecast/src/contours.rs
index fd24f47..67b9674 100644
--- a/crates/rerecast/src/contours.rs
+++ b/crates/rerecast/src/contours.rs
@@ -444,8 +444,8 @@ fn simplify_contour(
                 && area.intersects(RegionVertexId::AREA_BORDER);
             let should_tesselate = is_wall_edge || is_edge_between_areas;
             if should_tesselate {
-                let d = b.xz().as_ivec2() - a.xz().as_ivec2();
-                if d.length_squared() > (max_edge_len * max_edge_len) as i32 {
+                let d = b.xz().as_i64vec2() - a.xz().as_i64vec2();
+                if d.length_squared() > max_edge_len as i64 * max_edge_len as i64 {
                     // Round based on the segments in lexilogical order so that the
                     // max tesselation is consistent regardless in which direction
                     // segments are traversed.
-- 
2.43.0


From c3853ecdd5f6e4ef00daace4dbdaf3c81d00486f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:33:52 +0000
Subject: [PATCH 09/32] fix: grow the contour set when there are more contours
 than regions

---
 crates/rerecast/src/contours.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/rerecast/src/contours.rs b/crates/rerecast/src/contours.rs
index 67b9674..694f698 100644
--- a/crates/rerecast/src/contours.rs
+++ b/crates/rerecast/src/contours.rs
@@ -38,9 +38,9 @@ impl CompactHeightfield {
             cset.aabb.max.z -= pad;
         }
 
-        let mut max_contours = self.max_region.bits().max(8);
+        let mut max_contours = self.max_region.bits().max(8) as usize;
 
-        cset.contours = vec![Contour::default(); max_contours as usize];
+        cset.contours = vec![Contour::default(); max_contours];
         // We will shrink contours to this value later
         let mut contour_count = 0;
         let mut flags = vec![0_u8; self.spans.len()];
@@ -111,12 +111,12 @@ impl CompactHeightfield {
                     // Store region->contour remap info.
                     // Create contour.
                     if simplified.len() >= 3 {
-                        if contour_count >= max_contours as usize {
+                        if contour_count >= max_contours {
                             // Allocate more contours.
                             // This happens when a region has holes.
                             let old_max = max_contours;
                             max_contours *= 2;
-                            cset.contours.truncate(max_contours as usize);
+                            cset.contours.resize_with(max_contours, Contour::default);
 
                             tracing::warn!(
                                 "Region has holes. Expanding contour set from max {old_max} to max {max_contours}"
-- 
2.43.0


From ae5c9582766a381bdb623a78890e0a84e9bc91f2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:33:52 +0000
Subject: [PATCH 10/32] fix: do not underflow the contour set size when the
 border covers the field

---
 crates/rerecast/src/contours.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/rerecast/src/contours.rs b/crates/rerecast/src/contours.rs
index 694f698..b3c12d0 100644
--- a/crates/rerecast/src/contours.rs
+++ b/crates/rerecast/src/contours.rs
@@ -24,8 +24,8 @@ impl CompactHeightfield {
             aabb: self.aabb,
             cell_size: self.cell_size,
             cell_height: self.cell_height,
-            width: self.width - self.border_size * 2,
-            height: self.height - self.border_size * 2,
+            width: self.width.saturating_sub(self.border_size.saturating_mul(2)),
+            height: self.height.saturating_sub(self.border_size.saturating_mul(2)),
             border_size: self.border_size,
             max_error,
         };
-- 
2.43.0


From 691179ebb905dfce98bbe5cd5d2a7ab28eeda4c0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:33:52 +0000
Subject: [PATCH 11/32] fix: return one region per polygon

---
 crates/rerecast/src/poly_mesh.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/rerecast/src/poly_mesh.rs b/crates/rerecast/src/poly_mesh.rs
index 9e0fc62..882c796 100644
--- a/crates/rerecast/src/poly_mesh.rs
+++ b/crates/rerecast/src/poly_mesh.rs
@@ -177,6 +177,7 @@ impl From<InternalPolygonNavmesh> for PolygonNavmesh {
         }
         value.vertices.truncate(value.nvertices as usize);
         value.areas.truncate(value.npolys);
+        value.regions.truncate(value.npolys);
         PolygonNavmesh {
             vertices: value.vertices,
             polygons,
-- 
2.43.0


From bb555972978028ffe57abdc4618c3978088041ab Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:41:38 +0000
Subject: [PATCH 12/32] fix: merge the holes of a region into its outline

---
 crates/rerecast/src/contours.rs  | 158 ++++++++++++++++++++++++++++++-
 crates/rerecast/src/poly_mesh.rs |   8 +-
 2 files changed, 161 insertions(+), 5 deletions(-)

diff --git a/crates/rerecast/src/contours.rs b/crates/rerecast/src/contours.rs
index b3c12d0..897f176 100644
--- a/crates/rerecast/src/contours.rs
+++ b/crates/rerecast/src/contours.rs
@@ -1,8 +1,12 @@
 use glam::{U16Vec3, Vec3Swizzles};
+use std::collections::BTreeMap;
 
 use crate::{
     Aabb3d, AreaType, CompactHeightfield, RegionId,
-    math::{dir_offset_x, dir_offset_z, distance_squared_between_point_and_line_u16vec2},
+    math::{
+        dir_offset_x, dir_offset_z, distance_squared_between_point_and_line_u16vec2, next, prev,
+    },
+    poly_mesh::{intersect, is_left, is_left_on, vequal},
 };
 
 impl CompactHeightfield {
@@ -148,6 +152,7 @@ impl CompactHeightfield {
             }
         }
         cset.contours.resize_with(contour_count, Contour::default);
+        merge_holes(&mut cset.contours);
         cset
     }
 
@@ -510,6 +515,157 @@ fn remove_degenerate_segments(simplified: &mut Vec<(U16Vec3, u32)>) {
     }
 }
 
+/// Merges the holes of each region into the outline of that region, so that every region is described by
+/// a single outline. The contours of merged holes are left without vertices.
+fn merge_holes(contours: &mut [Contour]) {
+    // Holes are wound in the opposite direction of outlines.
+    let mut regions = BTreeMap::<u16, (Option<usize>, Vec<usize>)>::new();
+    for (i, contour) in contours.iter().enumerate() {
+        let (outline, holes) = regions.entry(contour.region.bits()).or_default();
+        if calc_area_of_polygon_2d(&contour.vertices) < 0 {
+            holes.push(i);
+        } else {
+            if outline.is_some() {
+                tracing::error!("Multiple outlines for region {}", contour.region.bits());
+            }
+            *outline = Some(i);
+        }
+    }
+    for (region, (outline, holes)) in regions {
+        if holes.is_empty() {
+            continue;
+        }
+        let Some(outline) = outline else {
+            tracing::error!(
+                "Bad outline for region {region}, contour simplification is likely too aggressive."
+            );
+            continue;
+        };
+        merge_region_holes(contours, outline, holes);
+    }
+}
+
+fn calc_area_of_polygon_2d(vertices: &[(U16Vec3, u32)]) -> i64 {
+    let mut area = 0;
+    for (i, (vi, _)) in vertices.iter().enumerate() {
+        let vj = vertices[prev(i, vertices.len())].0.as_i64vec3();
+        let vi = vi.as_i64vec3();
+        area += vi.x * vj.z - vj.x * vi.z;
+    }
+    (area + 1) / 2
+}
+
+fn merge_region_holes(contours: &mut [Contour], outline: usize, mut holes: Vec<usize>) {
+    // Sort holes from left to right.
+    let left_most = |vertices: &[(U16Vec3, u32)]| {
+        let mut left_most = 0;
+        for (i, (v, _)) in vertices.iter().enumerate() {
+            let min = vertices[left_most].0;
+            if v.x < min.x || (v.x == min.x && v.z < min.z) {
+                left_most = i;
+            }
+        }
+        left_most
+    };
+    holes.sort_by_key(|hole| {
+        let vertices = &contours[*hole].vertices;
+        let v = vertices[left_most(vertices)].0;
+        (v.x, v.z)
+    });
+
+    // Merge holes into the outline one by one.
+    let mut diagonals = Vec::new();
+    for i in 0..holes.len() {
+        let hole_len = contours[holes[i]].vertices.len();
+        let mut best_vertex = left_most(&contours[holes[i]].vertices);
+        let mut index = None;
+        for _ in 0..hole_len {
+            // Find potential diagonals.
+            // The 'best' vertex must be in the cone described by 3 consecutive vertices of the outline.
+            let outline_vertices = &contours[outline].vertices;
+            let corner = contours[holes[i]].vertices[best_vertex].0;
+            diagonals.clear();
+            for (j, (v, _)) in outline_vertices.iter().enumerate() {
+                if in_cone(j, outline_vertices, corner) {
+                    let d = v.xz().as_i64vec2() - corner.xz().as_i64vec2();
+                    diagonals.push((d.length_squared(), j));
+                }
+            }
+            // Sort potential diagonals by distance, we want to make the connection as short as possible.
+            diagonals.sort_by_key(|(distance, _)| *distance);
+
+            // Find a diagonal that is not intersecting the outline nor the remaining holes.
+            index = diagonals
+                .iter()
+                .map(|(_, vertex)| *vertex)
+                .find(|vertex| {
+                    let point = outline_vertices[*vertex].0;
+                    !intersects_contour(point, corner, Some(*vertex), outline_vertices)
+                        && holes[i..].iter().all(|hole| {
+                            !intersects_contour(point, corner, None, &contours[*hole].vertices)
+                        })
+                });
+            // If found non-intersecting diagonal, stop looking.
+            if index.is_some() {
+                break;
+            }
+            // All the potential diagonals for the current vertex were intersecting, try next vertex.
+            best_vertex = next(best_vertex, hole_len);
+        }
+        let Some(index) = index else {
+            tracing::warn!("Failed to find merge points for a hole contour");
+            continue;
+        };
+        let hole_vertices = std::mem::take(&mut contours[holes[i]].vertices);
+        let outline_vertices = &mut contours[outline].vertices;
+        let mut merged = Vec::with_capacity(outline_vertices.len() + hole_len + 2);
+        // Both contours are repeated up to and including their first vertex.
+        for (vertices, start) in [(&*outline_vertices, index), (&hole_vertices, best_vertex)] {
+            merged.extend_from_slice(&vertices[start..]);
+            merged.extend_from_slice(&vertices[..=start]);
+        }
+        *outline_vertices = merged;
+    }
+}
+
+fn in_cone(i: usize, vertices: &[(U16Vec3, u32)], pj: U16Vec3) -> bool {
+    let pi = vertices[i].0;
+    let pi1 = vertices[next(i, vertices.len())].0;
+    let pin1 = vertices[prev(i, vertices.len())].0;
+
+    // If P[i] is a convex vertex [ i+1 left or on (i-1,i) ].
+    if is_left_on(pin1, pi, pi1) {
+        is_left(pi, pj, pin1) && is_left(pj, pi, pi1)
+    } else {
+        // Assume (i-1,i,i+1) not collinear.
+        // else P[i] is reflex.
+        !(is_left_on(pi, pj, pi1) && is_left_on(pj, pi, pin1))
+    }
+}
+
+/// Returns true iff the segment (d0, d1) intersects the contour.
+/// Edges touching the contour vertex `ignored` are not considered.
+fn intersects_contour(
+    d0: U16Vec3,
+    d1: U16Vec3,
+    ignored: Option<usize>,
+    vertices: &[(U16Vec3, u32)],
+) -> bool {
+    (0..vertices.len()).any(|k| {
+        let k1 = next(k, vertices.len());
+        // Skip edges incident to the ignored vertex.
+        if ignored == Some(k) || ignored == Some(k1) {
+            return false;
+        }
+        let p0 = vertices[k].0;
+        let p1 = vertices[k1].0;
+        if vequal(d0, p0) || vequal(d1, p0) || vequal(d0, p1) || vequal(d1, p1) {
+            return false;
+        }
+        intersect(d0, d1, p0, p1)
+    })
+}
+
 /// Represents a group of related contours.
 /// All contours within the set share the minimum bounds and cell sizes of the set.
 ///
diff --git a/crates/rerecast/src/poly_mesh.rs b/crates/rerecast/src/poly_mesh.rs
index 882c796..11bf1b2 100644
--- a/crates/rerecast/src/poly_mesh.rs
+++ b/crates/rerecast/src/poly_mesh.rs
@@ -1165,13 +1165,13 @@ fn in_cone(i: usize, j: usize, n: usize, verts: &[(U16Vec3, u32)], indices: &[us
 }
 
 #[inline]
-fn is_left_on(a: U16Vec3, b: U16Vec3, c: U16Vec3) -> bool {
+pub(crate) fn is_left_on(a: U16Vec3, b: U16Vec3, c: U16Vec3) -> bool {
     area2(a, b, c) <= 0
 }
 
 /// Returns true iff c is strictly to the left of the directed line through a to b.
 #[inline]
-fn is_left(a: U16Vec3, b: U16Vec3, c: U16Vec3) -> bool {
+pub(crate) fn is_left(a: U16Vec3, b: U16Vec3, c: U16Vec3) -> bool {
     area2(a, b, c) < 0
 }
 
@@ -1216,13 +1216,13 @@ fn is_diagonal_internal_or_external(
 const INDEX_MASK: usize = 0x0fffffff;
 
 #[inline]
-fn vequal(a: U16Vec3, b: U16Vec3) -> bool {
+pub(crate) fn vequal(a: U16Vec3, b: U16Vec3) -> bool {
     a.xz() == b.xz()
 }
 
 /// Returns true iff segments ab and cd intersect, properly or improperly.
 #[inline]
-fn intersect(a: U16Vec3, b: U16Vec3, c: U16Vec3, d: U16Vec3) -> bool {
+pub(crate) fn intersect(a: U16Vec3, b: U16Vec3, c: U16Vec3, d: U16Vec3) -> bool {
     if intersect_prop(a, b, c, d) {
         return true;
     }
-- 
2.43.0


From e9fc1b01dcbb442c521ae204b4f6cd6cff584513 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:42:19 +0000
Subject: [PATCH 13/32] fix: remove border vertices

---
 crates/rerecast/src/poly_mesh.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/crates/rerecast/src/poly_mesh.rs b/crates/rerecast/src/poly_mesh.rs
index 11bf1b2..0505729 100644
--- a/crates/rerecast/src/poly_mesh.rs
+++ b/crates/rerecast/src/poly_mesh.rs
@@ -364,7 +364,6 @@ impl ContourSet {
             }
         }
 
-        mesh.polygons.truncate(mesh.npolys * nvp * 2);
         // Remove edge vertices.
         let mut i = 0;
         while i < mesh.nvertices as usize {
@@ -378,7 +377,8 @@ impl ContourSet {
                 // Note: nverts is already decremented inside removeVertex()!
                 // Fixup vertex flags
                 vflags.copy_within((i + 1)..=mesh.nvertices as usize, i);
-                i -= 1;
+                // The next vertex took the place of the removed one.
+                continue;
             }
 
             i += 1;
@@ -560,7 +560,8 @@ impl InternalPolygonNavmesh {
                     continue;
                 }
                 // Collect edges which does not touch the removed vertex.
-                for (j, k) in (0..nv).zip(nv - 1..) {
+                for j in 0..nv {
+                    let k = prev(j, nv);
                     if p[j] != rem && p[k] != rem {
                         let e = &mut edges[nedges];
                         e.polygon1 = p[k];
@@ -634,20 +635,20 @@ impl InternalPolygonNavmesh {
                     push_front(r, &mut hreg, &mut nhreg);
                     push_front(a, &mut harea, &mut nharea);
                     add = true;
-                    i += 1;
                 } else if hole[nhole - 1] == ea {
                     // The segment matches the end of the hole boundary.
                     push_back(eb, &mut hole, &mut nhole);
                     push_back(r, &mut hreg, &mut nhreg);
                     push_back(a, &mut harea, &mut nharea);
                     add = true;
-                    i += 1;
                 }
                 if add {
                     // The edge segment was added, remove it.
                     edges[i] = edges[nedges - 1].clone();
                     nedges -= 1;
                     match_ = true;
+                } else {
+                    i += 1;
                 }
             }
             if !match_ {
@@ -823,7 +824,8 @@ impl InternalPolygonNavmesh {
             let nv = count_poly_verts(p, nvp);
 
             // Collect edges which touches the removed vertex.
-            for (j, k) in (0..nv).zip((nv - 1)..) {
+            for j in 0..nv {
+                let k = prev(j, nv);
                 if !(p[j] == rem || p[k] == rem) {
                     continue;
                 }
@@ -855,7 +857,7 @@ impl InternalPolygonNavmesh {
         // There should be no more than 2 open edges.
         // This catches the case that two non-adjacent polygons
         // share the removed vertex. In that case, do not remove the vertex.
-        let num_open_edges = edges.iter().filter(|e| e[2] < 2).count();
+        let num_open_edges = edges[..nedges].iter().filter(|e| e[2] < 2).count();
         num_open_edges <= 2
     }
 }
-- 
2.43.0


From 0f7621fbb1af4396d31cc7d9306ebf10c5626829 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:42:19 +0000
Subject: [PATCH 14/32] fix: do not truncate the lengths of diagonals

---
 crates/rerecast/src/poly_mesh.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/rerecast/src/poly_mesh.rs b/crates/rerecast/src/poly_mesh.rs
index 0505729..0f0dadd 100644
--- a/crates/rerecast/src/poly_mesh.rs
+++ b/crates/rerecast/src/poly_mesh.rs
@@ -1061,7 +1061,7 @@ fn triangulate(
                 let p2 = verts[indices[next(i1, n)] & INDEX_MASK].0;
 
                 let d = p2.as_ivec3() - p0.as_ivec3();
-                let len = d.xz().length_squared() as u16;
+                let len = d.xz().length_squared();
                 if min_len.is_none_or(|min| len < min) {
                     min_len = Some(len);
                     mini = Some(i);
@@ -1085,7 +1085,7 @@ fn triangulate(
                     let p0 = verts[indices[i] & INDEX_MASK].0;
                     let p2 = verts[indices[next(i2, n)] & INDEX_MASK].0;
                     let d = p2.as_ivec3() - p0.as_ivec3();
-                    let len = d.xz().length_squared() as u16;
+                    let len = d.xz().length_squared();
                     if min_len.is_none_or(|min| len < min) {
                         min_len = Some(len);
                         mini = Some(i);
-- 
2.43.0


From ba3866c869fd5155357f3e050ff2f1bed5caf940 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:44:12 +0000
Subject: [PATCH 15/32] fix: do not overflow when polygonising contours wider
 than i16::MAX

---
 crates/rerecast/src/poly_mesh.rs | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/crates/rerecast/src/poly_mesh.rs b/crates/rerecast/src/poly_mesh.rs
index 0f0dadd..2668bd3 100644
--- a/crates/rerecast/src/poly_mesh.rs
+++ b/crates/rerecast/src/poly_mesh.rs
@@ -961,8 +961,8 @@ fn get_poly_merge_value(
     va = pa[ea] as usize;
     vb = pa[(ea + 1) % na] as usize;
 
-    let d = verts[va].as_ivec3() - verts[vb].as_ivec3();
-    let length_squared = d.xz().length_squared() as u32;
+    let d = verts[va].as_i64vec3() - verts[vb].as_i64vec3();
+    let length_squared = d.xz().length_squared();
     Some(PolyMergeValue {
         length_squared,
         edge_a: ea,
@@ -972,9 +972,7 @@ fn get_poly_merge_value(
 
 #[inline]
 fn uleft(a: U16Vec3, b: U16Vec3, c: U16Vec3) -> bool {
-    let cross = (b.x as i32 - a.x as i32) * (c.z as i32 - a.z as i32)
-        - (c.x as i32 - a.x as i32) * (b.z as i32 - a.z as i32);
-    cross < 0
+    area2(a, b, c) < 0
 }
 
 fn count_poly_verts(p: &[u16], nvp: usize) -> usize {
@@ -986,7 +984,7 @@ fn count_poly_verts(p: &[u16], nvp: usize) -> usize {
 
 #[derive(Debug)]
 struct PolyMergeValue {
-    length_squared: u32,
+    length_squared: i64,
     edge_a: usize,
     edge_b: usize,
 }
@@ -1060,7 +1058,7 @@ fn triangulate(
                 let p0 = verts[indices[i] & INDEX_MASK].0;
                 let p2 = verts[indices[next(i1, n)] & INDEX_MASK].0;
 
-                let d = p2.as_ivec3() - p0.as_ivec3();
+                let d = p2.as_i64vec3() - p0.as_i64vec3();
                 let len = d.xz().length_squared();
                 if min_len.is_none_or(|min| len < min) {
                     min_len = Some(len);
@@ -1084,7 +1082,7 @@ fn triangulate(
                 if is_diagonal_loose(i, i2, n, verts, indices) {
                     let p0 = verts[indices[i] & INDEX_MASK].0;
                     let p2 = verts[indices[next(i2, n)] & INDEX_MASK].0;
-                    let d = p2.as_ivec3() - p0.as_ivec3();
+                    let d = p2.as_i64vec3() - p0.as_i64vec3();
                     let len = d.xz().length_squared();
                     if min_len.is_none_or(|min| len < min) {
                         min_len = Some(len);
@@ -1178,10 +1176,10 @@ pub(crate) fn is_left(a: U16Vec3, b: U16Vec3, c: U16Vec3) -> bool {
 }
 
 #[inline]
-fn area2(a: U16Vec3, b: U16Vec3, c: U16Vec3) -> i32 {
-    let a = a.as_ivec3();
-    let b = b.as_ivec3();
-    let c = c.as_ivec3();
+fn area2(a: U16Vec3, b: U16Vec3, c: U16Vec3) -> i64 {
+    let a = a.as_i64vec3();
+    let b = b.as_i64vec3();
+    let c = c.as_i64vec3();
     (b.x - a.x) * (c.z - a.z) - (c.x - a.x) * (b.z - a.z)
 }
 
-- 
2.43.0


From 1a91dc5c963eacf7b2c573515d0b5a6e18de606d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:04:36 +0000
Subject: [PATCH 16/32] fix: look for the height seed of a polygon at its own
 vertices

---
 crates/rerecast/src/detail_mesh.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/rerecast/src/detail_mesh.rs b/crates/rerecast/src/detail_mesh.rs
index b780369..eaf8677 100644
--- a/crates/rerecast/src/detail_mesh.rs
+++ b/crates/rerecast/src/detail_mesh.rs
@@ -241,7 +241,7 @@ impl DetailNavmesh {
                 chf,
                 p,
                 npoly,
-                &verts,
+                &mesh.vertices,
                 border_size,
                 &mut arr,
                 mesh.regions[i],
@@ -1237,7 +1237,7 @@ impl HeightPatch {
         chf: &CompactHeightfield,
         poly: &[u16],
         npoly: usize,
-        verts: &[Vec3A],
+        verts: &[U16Vec3],
         bs: u16,
         queue: &mut Vec<(i32, i32, usize)>,
         region: RegionId,
@@ -1346,7 +1346,7 @@ impl HeightPatch {
         chf: &CompactHeightfield,
         poly: &[u16],
         npoly: usize,
-        verts: &[Vec3A],
+        verts: &[U16Vec3],
         bs: u16,
         array: &mut Vec<(i32, i32, usize)>,
     ) {
-- 
2.43.0


From e08d56d0086f6e39acde6e1edc5daa07938d9dd0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:04:36 +0000
Subject: [PATCH 17/32] fix: build detail meshes without sampling

---
 crates/rerecast/src/detail_mesh.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/rerecast/src/detail_mesh.rs b/crates/rerecast/src/detail_mesh.rs
index eaf8677..6da2e83 100644
--- a/crates/rerecast/src/detail_mesh.rs
+++ b/crates/rerecast/src/detail_mesh.rs
@@ -438,6 +438,14 @@ fn build_poly_detail(
             }
             j = i;
         }
+    } else {
+        // No tessellation, so the hull is the polygon itself.
+        hull[nhull] = nin - 1;
+        nhull += 1;
+        for i in 0..nin - 1 {
+            hull[nhull] = i;
+            nhull += 1;
+        }
     }
 
     // If the polygon minimum extent is small (sliver or small triangle), do not try to add internal points.
-- 
2.43.0


From 2bbd551f348eccec68f113823e0eeb6d2221b440 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:04:36 +0000
Subject: [PATCH 18/32] fix: do not underflow when growing the detail mesh
 buffers

---
 crates/rerecast/src/detail_mesh.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/rerecast/src/detail_mesh.rs b/crates/rerecast/src/detail_mesh.rs
index 6da2e83..afa3c9e 100644
--- a/crates/rerecast/src/detail_mesh.rs
+++ b/crates/rerecast/src/detail_mesh.rs
@@ -288,7 +288,7 @@ impl DetailNavmesh {
                 while dmesh.vertices.len() + nverts > vcap {
                     vcap += 256;
                 }
-                dmesh.vertices.reserve(vcap - dmesh.vertices.capacity());
+                dmesh.vertices.reserve(vcap - dmesh.vertices.len());
             }
             for vert in &verts[..nverts] {
                 dmesh.vertices.push(Vec3::from(*vert));
@@ -299,7 +299,7 @@ impl DetailNavmesh {
                 while dmesh.triangles.len() + tris.len() > tcap {
                     tcap += 256;
                 }
-                dmesh.triangles.reserve(tcap - dmesh.triangles.capacity());
+                dmesh.triangles.reserve(tcap - dmesh.triangles.len());
             }
             for tri in &tris {
                 dmesh.triangles.push([tri[0], tri[1], tri[2]]);
-- 
2.43.0


From ec3c9365fd116ccfd1f7db7d979e5ec995091542 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:04:36 +0000
Subject: [PATCH 19/32] fix: do not truncate the grid positions of height
 samples

---
 crates/rerecast/src/detail_mesh.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/crates/rerecast/src/detail_mesh.rs b/crates/rerecast/src/detail_mesh.rs
index afa3c9e..6f1f2f7 100644
--- a/crates/rerecast/src/detail_mesh.rs
+++ b/crates/rerecast/src/detail_mesh.rs
@@ -1,6 +1,6 @@
 #[cfg(feature = "bevy_reflect")]
 use bevy_reflect::prelude::*;
-use glam::{U16Vec3, Vec2, Vec3, Vec3A, Vec3Swizzles as _, u16vec3};
+use glam::{U16Vec3, Vec2, Vec3, Vec3A, Vec3Swizzles as _};
 use std::{
     f32,
     ops::{Deref, DerefMut},
@@ -326,7 +326,7 @@ fn build_poly_detail(
     tris: &mut Vec<[u8; 3]>,
     flags: &mut Vec<u8>,
     edges: &mut Vec<Edges>,
-    samples: &mut Vec<(U16Vec3, bool)>,
+    samples: &mut Vec<(i32, u16, i32, bool)>,
 ) -> Result<(), DetailNavmeshError> {
     let mut edge = [Vec3A::default(); DetailNavmesh::MAX_VERTS_PER_EDGE + 1];
     let mut hull = [0; DetailNavmesh::MAX_VERTICES_PER_SUBMESH];
@@ -495,7 +495,7 @@ fn build_poly_detail(
                     continue;
                 }
                 let y = get_height(pt, ics, chf.cell_height, height_search_radius, hp);
-                samples.push((u16vec3(x as u16, y, z as u16), false));
+                samples.push((x, y, z, false));
             }
         }
 
@@ -511,16 +511,16 @@ fn build_poly_detail(
             let mut bestpt = Vec3A::default();
             let mut bestd = 0.0;
             let mut besti = None;
-            for (i, (s, added)) in samples.iter().enumerate() {
+            for (i, (sx, sy, sz, added)) in samples.iter().enumerate() {
                 if *added {
                     continue;
                 }
                 let mut pt = Vec3A::default();
                 // The sample location is jittered to get rid of some bad triangulations
                 // which are cause by symmetrical data from the grid structure.
-                pt.x = s.x as f32 * sample_dist + get_jitter_x(i) * cs * 0.1;
-                pt.y = s.y as f32 * chf.cell_height;
-                pt.z = s.z as f32 * sample_dist + get_jitter_y(i) * cs * 0.1;
+                pt.x = *sx as f32 * sample_dist + get_jitter_x(i) * cs * 0.1;
+                pt.y = *sy as f32 * chf.cell_height;
+                pt.z = *sz as f32 * sample_dist + get_jitter_y(i) * cs * 0.1;
                 let d = dist_to_tri_mesh(pt, verts, tris);
                 let Some(d) = d else {
                     // did not hit the mesh.
@@ -540,7 +540,7 @@ fn build_poly_detail(
                 break;
             };
             // Mark sample as added.
-            samples[besti].1 = true;
+            samples[besti].3 = true;
             // Add the new sample point.
             verts[*nverts] = bestpt;
             *nverts += 1;
-- 
2.43.0


From 19e201f32a628ab6c09c8f186f9cc9cf5c724fa9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:18:20 +0000
Subject: [PATCH 20/32] fix: link to the highest addressable layer

---
 crates/rerecast/src/compact_heightfield.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/rerecast/src/compact_heightfield.rs b/crates/rerecast/src/compact_heightfield.rs
index 8e590a7..6c491c0 100644
--- a/crates/rerecast/src/compact_heightfield.rs
+++ b/crates/rerecast/src/compact_heightfield.rs
@@ -228,7 +228,7 @@ impl Heightfield {
                             }
                             // Mark direction as walkable.
                             let layer_index = k as i32 - neighbor_cell.index() as i32;
-                            if layer_index < 0 || layer_index >= MAX_LAYERS as i32 {
+                            if layer_index < 0 || layer_index > MAX_LAYERS as i32 {
                                 max_layer_index = max_layer_index.max(layer_index as u32);
                                 continue;
                             }
-- 
2.43.0


From f7185b1b5aad7b4b0312ac96896d3237da74abbb Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:18:20 +0000
Subject: [PATCH 21/32] fix: refuse columns with more than 255 walkable spans
 instead of overflowing

---
 crates/rerecast/src/compact_heightfield.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/rerecast/src/compact_heightfield.rs b/crates/rerecast/src/compact_heightfield.rs
index 6c491c0..15952b9 100644
--- a/crates/rerecast/src/compact_heightfield.rs
+++ b/crates/rerecast/src/compact_heightfield.rs
@@ -149,6 +149,9 @@ impl Heightfield {
         };
         compact_heightfield.aabb.max.y += walkable_height as f32 * compact_heightfield.cell_height;
 
+        // Links to spans of higher layers are not representable.
+        const MAX_LAYERS: u8 = CompactSpan::NOT_CONNECTED - 1;
+
         let mut cell_index = 0_usize;
         // Fill in cells and spans
         for z in 0..self.height {
@@ -170,6 +173,13 @@ impl Heightfield {
                     if !span.area.is_walkable() {
                         continue;
                     }
+                    if cell.count() == u8::MAX {
+                        // The column has more spans than its cell can count.
+                        return Err(CompactHeightfieldError::TooManyLayers {
+                            max_layer_index: MAX_LAYERS,
+                            layer_index: cell.count() as u32,
+                        });
+                    }
                     let bot = span.max;
                     let top = span
                         .next
@@ -186,7 +196,6 @@ impl Heightfield {
         }
 
         // Find neighbour connections
-        const MAX_LAYERS: u8 = CompactSpan::NOT_CONNECTED - 1;
         let mut max_layer_index = 0_u32;
         for z in 0..self.height {
             for x in 0..self.width {
-- 
2.43.0


From a769c0ba401b05bbe408eafc3c7d647a5aa18803 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:59:23 +0000
Subject: [PATCH 22/32] fix: bound the height search by the patch

---
 crates/rerecast/src/detail_mesh.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/rerecast/src/detail_mesh.rs b/crates/rerecast/src/detail_mesh.rs
index 6f1f2f7..5203eea 100644
--- a/crates/rerecast/src/detail_mesh.rs
+++ b/crates/rerecast/src/detail_mesh.rs
@@ -1149,7 +1149,9 @@ fn get_height(f: Vec3A, ics: f32, ch: f32, radius: u32, hp: &HeightPatch) -> u16
         let mut z = 0;
         let mut dx = 1;
         let mut dz = 0;
-        let max_size = radius * 2 + 1;
+        // Nothing can be found outside of the patch.
+        let radius = radius.min(hp.width.max(hp.height) as u32);
+        let max_size = radius as u64 * 2 + 1;
         let max_iter = max_size * max_size - 1;
 
         let mut next_ring_iter_start = 8;
-- 
2.43.0


From 96980097eddc6a62675e0dc8a151618c46f80579 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:22:25 +0000
Subject: [PATCH 23/32] fix: leave room for polygons that rounding makes
 concave

---
 crates/rerecast/src/rasterize.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/rerecast/src/rasterize.rs b/crates/rerecast/src/rasterize.rs
index 6621312..d41c8a9 100644
--- a/crates/rerecast/src/rasterize.rs
+++ b/crates/rerecast/src/rasterize.rs
@@ -66,7 +66,9 @@ impl Heightfield {
         let z1 = z1.clamp(0, h - 1);
 
         // Clip the triangle into all grid cells it touches.
-        const MAX_VERTICES_AFTER_CLIPPING: usize = 7;
+        // Exact clipping leaves at most 7 vertices. If the cells are as small as the rounding errors of the coordinates,
+        // clipped polygons can be slightly concave and yield up to twice the 12 vertices `divide_poly` takes.
+        const MAX_VERTICES_AFTER_CLIPPING: usize = 24;
         // x-min, x-max, z-min, z-max
         const CLIP_DIRS: usize = 4;
         const BUF_LEN: usize = MAX_VERTICES_AFTER_CLIPPING * CLIP_DIRS;
-- 
2.43.0


From f098c8995612733d8d77a4d2f45ca0ee246cc452 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:26:11 +0000
Subject: [PATCH 24/32] fix: leave holes without area alone when removing a
 vertex

---
 crates/rerecast/src/poly_mesh.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/rerecast/src/poly_mesh.rs b/crates/rerecast/src/poly_mesh.rs
index 2668bd3..28a142a 100644
--- a/crates/rerecast/src/poly_mesh.rs
+++ b/crates/rerecast/src/poly_mesh.rs
@@ -655,6 +655,10 @@ impl InternalPolygonNavmesh {
                 break;
             }
         }
+        if nhole < 3 {
+            // The hole has no area, there is nothing to fill.
+            return Ok(());
+        }
         let mut tris = vec![U16Vec3::default(); nhole];
         let mut tverts = vec![(U16Vec3::default(), 0); nhole];
         let mut thole = vec![0; nhole];
-- 
2.43.0


From 5db82e92dadb6a21dc2377d97bcaba6b41d87359 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:43:52 +0000
Subject: [PATCH 25/32] fix: place every part of a compound collider by its own
 isometry

---
 crates/avian_rerecast/src/collider_to_trimesh.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/avian_rerecast/src/collider_to_trimesh.rs b/crates/avian_rerecast/src/collider_to_trimesh.rs
index d8c84e2..6c6e662 100644
--- a/crates/avian_rerecast/src/collider_to_trimesh.rs
+++ b/crates/avian_rerecast/src/collider_to_trimesh.rs
@@ -93,7 +93,7 @@ fn compound_trimesh(compound: &Compound, subdivisions: u32) -> TriMesh {
     compound.shapes().iter().fold(
         TriMesh::default(),
         |mut compound_trimesh, (isometry, shape)| {
-            let Some(trimesh) =
+            let Some(mut trimesh) =
                 // No need to track recursive compounds because parry panics on nested compounds anyways lol
                 shape_to_trimesh(&shape.as_typed_shape(), subdivisions)
             else {
@@ -105,7 +105,7 @@ fn compound_trimesh(compound: &Compound, subdivisions: u32) -> TriMesh {
                 rotation: Quat::from(isometry.rotation),
             };
 
-            apply_isometry(&mut compound_trimesh, isometry);
+            apply_isometry(&mut trimesh, isometry);
             compound_trimesh.extend(trimesh);
             compound_trimesh
         },
-- 
2.43.0


From 341bfe1e406c413f3a971ad7322aab52728a5b18 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:56:47 +0000
Subject: [PATCH 26/32] fix: keep the shear of affectors when the editor
 fetches a scene

---
 .../bevy_rerecast_editor/src/get_navmesh_input.rs   | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/bevy_rerecast_editor/src/get_navmesh_input.rs b/crates/bevy_rerecast_editor/src/get_navmesh_input.rs
index 705830c..66fae42 100644
--- a/crates/bevy_rerecast_editor/src/get_navmesh_input.rs
+++ b/crates/bevy_rerecast_editor/src/get_navmesh_input.rs
@@ -63,8 +63,17 @@ fn fetch_navmesh_input(
     }
 
     for affector in response.affector_meshes {
+        // The global transform may contain shear, which a `Transform` cannot represent,
+        // so the vertices are moved to world space right away.
+        let affine = affector.transform.affine();
+        let vertices: Vec<_> = affector
+            .mesh
+            .vertices
+            .into_iter()
+            .map(|v| affine.transform_point3a(v))
+            .collect();
         let mesh = Mesh::new(PrimitiveTopology::TriangleList, RenderAssetUsages::all())
-            .with_inserted_attribute(Mesh::ATTRIBUTE_POSITION, affector.mesh.vertices)
+            .with_inserted_attribute(Mesh::ATTRIBUTE_POSITION, vertices)
             .with_inserted_indices(Indices::U32(
                 affector
                     .mesh
@@ -75,7 +84,7 @@ fn fetch_navmesh_input(
             ));
 
         commands.spawn((
-            affector.transform.compute_transform(),
+            Transform::default(),
             Mesh3d(meshes.add(mesh)),
             NavmeshAffector,
             Visibility::Hidden,
-- 
2.43.0


From ff875a192e968077e76a0a2fe4485bd3bf017814 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:05:16 +0000
Subject: [PATCH 27/32] hook: let monitors set the fields of
 NavmeshConfigBuilder

---
 crates/rerecast/src/config.rs | 49 +++++++++++++++++++++++++++++++++++
 1 file changed, 49 insertions(+)

diff --git a/crates/rerecast/src/config.rs b/crates/rerecast/src/config.rs
index cf600f2..c5761b3 100644
--- a/crates/rerecast/src/config.rs
+++ b/crates/rerecast/src/config.rs
@@ -315,3 +315,52 @@ impl NavmeshConfigBuilder {
         }
     }
 }
+
+/// Access for monitors: the fields are private and have no setters yet.
+#[allow(unexpected_cfgs)]
+#[cfg(rerecast_hooks)]
+impl NavmeshConfigBuilder {
+    #[allow(missing_docs)]
+    pub fn hook_new(
+        measures: [f32; 13],
+        tile_size: u16,
+        tiling: bool,
+        aabb: Aabb3d,
+        contour_flags: BuildContoursFlags,
+    ) -> Self {
+        let [
+            cell_size,
+            cell_height,
+            agent_height,
+            agent_radius,
+            agent_max_climb,
+            agent_max_slope,
+            region_min_size,
+            region_merge_size,
+            edge_max_len,
+            edge_max_error,
+            verts_per_poly,
+            detail_sample_dist,
+            detail_sample_max_error,
+        ] = measures;
+        Self {
+            cell_size,
+            cell_height,
+            agent_height,
+            agent_radius,
+            agent_max_climb,
+            agent_max_slope,
+            region_min_size,
+            region_merge_size,
+            edge_max_len,
+            edge_max_error,
+            verts_per_poly,
+            detail_sample_dist,
+            detail_sample_max_error,
+            tile_size,
+            aabb,
+            contour_flags,
+            tiling,
+        }
+    }
+}
-- 
2.43.0


From 5ea1b5cedcf26e7856828e300c8ad6d97ab35499 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:18:35 +0000
Subject: [PATCH 28/32] fix: refuse payloads that announce impossible lengths
 instead of allocating for them

---
 .../src/transmission/serialization.rs                      | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/bevy_rerecast_editor_integration/src/transmission/serialization.rs b/crates/bevy_rerecast_editor_integration/src/transmission/serialization.rs
index 7e684a0..408fe1d 100644
--- a/crates/bevy_rerecast_editor_integration/src/transmission/serialization.rs
+++ b/crates/bevy_rerecast_editor_integration/src/transmission/serialization.rs
@@ -28,6 +28,11 @@ pub fn deserialize<T: DeserializeOwned>(value: &Value) -> Result<T> {
     let mut bincode_bytes = Vec::new();
     gz.read_to_end(&mut bincode_bytes)?;
     let (val, _len): (T, usize) =
-        bincode::serde::decode_from_slice(&bincode_bytes, bincode::config::standard())?;
+        bincode::serde::decode_from_slice(&bincode_bytes, decode_config())?;
     Ok(val)
 }
+
+/// The encoding format, with a limit so that damaged length prefixes are refused instead of allocated.
+fn decode_config() -> impl bincode::config::Config {
+    bincode::config::standard().with_limit::<{ u32::MAX as usize }>()
+}
-- 
2.43.0


From d707043fdc24979d004e314af2d01a8be237bbea Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:39:05 +0000
Subject: [PATCH 29/32] fix: let the column accessors of heightfields refuse
 coordinates outside the field

span_key_at, get_cell_at and get_cell_at_mut promise None, cell_at and
cell_at_mut a panic, for invalid coordinates. An x beyond the width ran into
the next row instead.
---
 crates/rerecast/src/compact_heightfield.rs | 10 ++++++++++
 crates/rerecast/src/heightfield.rs         |  4 ++++
 2 files changed, 14 insertions(+)

diff --git a/crates/rerecast/src/compact_heightfield.rs b/crates/rerecast/src/compact_heightfield.rs
index 15952b9..dceec9a 100644
--- a/crates/rerecast/src/compact_heightfield.rs
+++ b/crates/rerecast/src/compact_heightfield.rs
@@ -268,6 +268,10 @@ impl CompactHeightfield {
     /// Returns the cell at the given coordinates. Returns `None` if the coordinates are invalid.
     #[inline]
     pub fn get_cell_at(&self, x: u16, z: u16) -> Option<&CompactCell> {
+        if x >= self.width {
+            // Invalid coordinates; the index would run into the next row
+            return None;
+        }
         let Some(cell) = self.cells.get(self.column_index(x, z)) else {
             // Invalid coordinates
             return None;
@@ -278,12 +282,17 @@ impl CompactHeightfield {
     /// Returns the cell at the given coordinates. Panics if the coordinates are invalid.
     #[inline]
     pub fn cell_at(&self, x: u16, z: u16) -> &CompactCell {
+        assert!(x < self.width, "cell ({x}, {z}) is out of bounds");
         &self.cells[self.column_index(x, z)]
     }
 
     /// Returns the cell mutably at the given coordinates. Returns `None` if the coordinates are invalid.
     #[inline]
     pub fn get_cell_at_mut(&mut self, x: u16, z: u16) -> Option<&mut CompactCell> {
+        if x >= self.width {
+            // Invalid coordinates; the index would run into the next row
+            return None;
+        }
         let index = self.column_index(x, z);
         let Some(cell) = self.cells.get_mut(index) else {
             // Invalid coordinates
@@ -295,6 +304,7 @@ impl CompactHeightfield {
     /// Returns the cell mutably at the given coordinates. Panics if the coordinates are invalid.
     #[inline]
     pub fn cell_at_mut(&mut self, x: u16, z: u16) -> &mut CompactCell {
+        assert!(x < self.width, "cell ({x}, {z}) is out of bounds");
         let index = self.column_index(x, z);
         &mut self.cells[index]
     }
diff --git a/crates/rerecast/src/heightfield.rs b/crates/rerecast/src/heightfield.rs
index 2a5edfd..bf24c8f 100644
--- a/crates/rerecast/src/heightfield.rs
+++ b/crates/rerecast/src/heightfield.rs
@@ -194,6 +194,10 @@ impl Heightfield {
     /// `None` if either the index is out of bounds or there is no span in the column.
     #[inline]
     pub fn span_key_at(&self, x: u16, z: u16) -> Option<SpanKey> {
+        if x >= self.width {
+            // Invalid coordinates; the index would run into the next row
+            return None;
+        }
         let column_index = self.column_index(x, z);
         let Some(span_key) = self.spans.get(column_index) else {
             // Invalid coordinates
-- 
2.43.0


From 9995ebeae1d49410a30b6f5eacfc8045ab640e6d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:43:28 +0000
Subject: [PATCH 30/32] fix: follow outlines of more than 40000 steps to their
 end

---
 crates/rerecast/src/contours.rs                | 4 +++-
 crates/rerecast/src/watershed_build_regions.rs | 5 +++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/rerecast/src/contours.rs b/crates/rerecast/src/contours.rs
index 897f176..6965e6f 100644
--- a/crates/rerecast/src/contours.rs
+++ b/crates/rerecast/src/contours.rs
@@ -174,7 +174,9 @@ impl CompactHeightfield {
         let start_i = i;
         let area = self.areas[i];
 
-        for _ in 0..40_000 {
+        // A closed walk meets each side of each span at most once
+        let max_steps = 40_000.max(self.spans.len() * 4);
+        for _ in 0..max_steps {
             if (flags[i] & (1 << dir)) != 0 {
                 // Choose the edge corner
                 let mut is_area_border = false;
diff --git a/crates/rerecast/src/watershed_build_regions.rs b/crates/rerecast/src/watershed_build_regions.rs
index 64df4b0..57df06b 100644
--- a/crates/rerecast/src/watershed_build_regions.rs
+++ b/crates/rerecast/src/watershed_build_regions.rs
@@ -444,8 +444,9 @@ impl CompactHeightfield {
         }
         connections.push(current_region);
 
-        // Jan: cool magic number lol
-        for _ in 0..40_000 {
+        // A closed walk meets each side of each span at most once
+        let max_steps = 40_000.max(self.spans.len() * 4);
+        for _ in 0..max_steps {
             let s = &self.spans[i];
             if self.is_solid_edge(src_reg, x, z, i, dir) {
                 // Choose the edge corner
-- 
2.43.0


From fed9b83dbac2ebb7ab763596abe3920bb387e883 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:43:28 +0000
Subject: [PATCH 31/32] fix: report more regions than IDs instead of taking the
 surplus for borders

---
 crates/rerecast/src/watershed_build_regions.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/rerecast/src/watershed_build_regions.rs b/crates/rerecast/src/watershed_build_regions.rs
index 57df06b..7b275cd 100644
--- a/crates/rerecast/src/watershed_build_regions.rs
+++ b/crates/rerecast/src/watershed_build_regions.rs
@@ -129,10 +129,11 @@ impl CompactHeightfield {
                         &mut stack,
                     )
                 {
-                    if region_id == RegionId::MAX {
+                    region_id += 1;
+                    // IDs from here on would be mistaken for border regions
+                    if region_id.intersects(RegionId::BORDER_REGION) {
                         return Err(BuildRegionsError::RegionIdOverflow);
                     }
-                    region_id += 1;
                 }
             }
         }
-- 
2.43.0


From 5494de5d0bb4a778c972e3eaae202941051c76e7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:43:28 +0000
Subject: [PATCH 32/32] fix: count the edges of large meshes with more than 16
 bits

---
 crates/rerecast/src/poly_mesh.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/rerecast/src/poly_mesh.rs b/crates/rerecast/src/poly_mesh.rs
index 28a142a..a103e6a 100644
--- a/crates/rerecast/src/poly_mesh.rs
+++ b/crates/rerecast/src/poly_mesh.rs
@@ -440,9 +440,10 @@ impl InternalPolygonNavmesh {
         let nvp = self.max_vertices_per_polygon as usize;
         // Based on code by Eric Lengyel from:
         // https://web.archive.org/web/20080704083314/http://www.terathon.com/code/edges.php
+        // There can be more edges than a `u16` can count
+        const NO_EDGE: u32 = u32::MAX;
         let max_edge_count = self.npolys * nvp;
-        let mut first_edge =
-            vec![PolygonNavmesh::NO_CONNECTION; self.nvertices as usize + max_edge_count];
+        let mut first_edge = vec![NO_EDGE; self.nvertices as usize + max_edge_count];
         let next_edge_index = self.nvertices as usize;
         let mut edge_count = 0;
         let mut edges = vec![Edge::default(); max_edge_count];
@@ -468,7 +469,7 @@ impl InternalPolygonNavmesh {
                     edge.poly_edge.y = 0;
                     // Insert edge
                     first_edge[next_edge_index + edge_count] = first_edge[v0 as usize];
-                    first_edge[v0 as usize] = edge_count as u16;
+                    first_edge[v0 as usize] = edge_count as u32;
                     edge_count += 1;
                 }
             }
@@ -488,7 +489,7 @@ impl InternalPolygonNavmesh {
                 };
                 if v0 > v1 {
                     let mut e = first_edge[v1 as usize];
-                    while e != PolygonNavmesh::NO_CONNECTION {
+                    while e != NO_EDGE {
                         let edge = &mut edges[e as usize];
                         if edge.vert.y == v0 && edge.poly.x == edge.poly.y {
                             edge.poly.y = i as u16;
-- 
2.43.0

