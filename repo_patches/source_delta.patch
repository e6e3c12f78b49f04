From d0838dc0804613b46f41b13a7ded564c2ef7feb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:43 +0000
Subject: [PATCH 01/23] fix: pair every estimate once and every ground truth at
 most once, nearest first

---
 src/result/object.rs | 48 ++++++++++++++++++++------------------------
 1 file changed, 22 insertions(+), 26 deletions(-)

diff --git a/src/result/object.rs b/src/result/object.rs
index d679461..6c84fcd 100644
--- a/src/result/object.rs
+++ b/src/result/object.rs
@@ -258,40 +258,36 @@ pub fn get_perception_results(
             {
                 break;
             }
-            for (est_idx, row_table) in score_table.iter_mut().enumerate() {
-                let (gt_idx, _) = row_table.iter().enumerate().fold(
-                    (usize::MAX, f64::MAX),
-                    |(a_idx, a), (b_idx, b)| match b {
-                        Some(b) => {
-                            if a < *b {
-                                (a_idx, a)
-                            } else {
-                                (b_idx, *b)
-                            }
-                        }
-                        None => (a_idx, a),
-                    },
-                );
+            // The nearest pair among the objects that have not been paired yet.
+            let (est_idx, gt_idx, _) = score_table.iter().enumerate().fold(
+                (usize::MAX, usize::MAX, f64::INFINITY),
+                |best, (est_idx, row_table)| {
+                    row_table
+                        .iter()
+                        .enumerate()
+                        .fold(best, |(a_est, a_gt, a), (gt_idx, b)| match b {
+                            Some(b) if a_gt == usize::MAX || *b < a => (est_idx, gt_idx, *b),
+                            _ => (a_est, a_gt, a),
+                        })
+                },
+            );
 
-                if gt_idx == usize::MAX {
-                    continue;
-                }
-
-                results.push(PerceptionResult {
-                    estimated_object: estimated_objects[est_idx].to_owned(),
-                    ground_truth_object: Some(ground_truth_objects[gt_idx].to_owned()),
-                });
+            results.push(PerceptionResult {
+                estimated_object: estimated_objects[est_idx].to_owned(),
+                ground_truth_object: Some(ground_truth_objects[gt_idx].to_owned()),
+            });
 
-                row_table[gt_idx] = None;
-                took_indices.push(est_idx);
-            }
+            // Neither of them can be paired again.
+            score_table[est_idx].fill(None);
+            score_table.iter_mut().for_each(|row| row[gt_idx] = None);
+            took_indices.push(est_idx);
         }
 
         if took_indices.len() < num_estimated_objects {
             let index_list = (0..num_estimated_objects).collect::<Vec<usize>>();
             let mut fp_estimated_objects = Vec::new();
             index_list.iter().for_each(|idx| {
-                if took_indices.contains(idx) {
+                if !took_indices.contains(idx) {
                     fp_estimated_objects.push(estimated_objects[*idx].to_owned());
                 }
             });
-- 
2.43.0


From 30a07e75f75cda71eb1236ef9436d93d480ca86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:48 +0000
Subject: [PATCH 02/23] fix: count each ground truth as detected at most once
 per true positive

---
 src/result/frame.rs | 42 ++++++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/src/result/frame.rs b/src/result/frame.rs
index 2a9fa30..7efdd95 100644
--- a/src/result/frame.rs
+++ b/src/result/frame.rs
@@ -122,9 +122,13 @@ fn extract_fn_objects(
     tp_results: &[PerceptionResult],
 ) -> Vec<DynamicObject> {
     let mut fn_objects = Vec::new();
+    let mut tp_ground_truths = tp_results
+        .iter()
+        .filter_map(|tp| tp.ground_truth_object.as_ref())
+        .collect::<Vec<&DynamicObject>>();
 
     ground_truths.iter().for_each(|gt| {
-        if is_fn_object(gt, tp_results) {
+        if is_fn_object(gt, &mut tp_ground_truths) {
             fn_objects.push(gt.clone());
         }
     });
@@ -132,20 +136,30 @@ fn extract_fn_objects(
     fn_objects
 }
 
-/// Check whether the input ground truth is contained in the input list of TP results.
+/// Check whether the input ground truth is contained in the input list of counterparts of TP results.
+/// Each counterpart accounts for one ground truth, therefore it is removed from the list if it is found.
 ///
-/// * `ground_truth`: GT object.
-/// * `tp_results`  : List of TP results.
-fn is_fn_object(ground_truth: &DynamicObject, tp_results: &[PerceptionResult]) -> bool {
-    for tp in tp_results {
-        match &tp.ground_truth_object {
-            Some(gt) => {
-                if gt == ground_truth {
-                    return false;
-                }
-            }
-            None => (),
+/// * `ground_truth`    : GT object.
+/// * `tp_ground_truths`: List of GT objects of TP results.
+fn is_fn_object(ground_truth: &DynamicObject, tp_ground_truths: &mut Vec<&DynamicObject>) -> bool {
+    match tp_ground_truths
+        .iter()
+        .position(|gt| is_same_object(gt, ground_truth))
+    {
+        Some(index) => {
+            tp_ground_truths.remove(index);
+            false
         }
+        None => true,
     }
-    true
+}
+
+/// Check whether two objects are the same one, `PartialEq` of `DynamicObject` doesn't tell objects
+/// with the same pose and label apart.
+fn is_same_object(object1: &DynamicObject, object2: &DynamicObject) -> bool {
+    object1 == object2
+        && object1.state() == object2.state()
+        && object1.confidence == object2.confidence
+        && object1.pointcloud_num == object2.pointcloud_num
+        && object1.uuid == object2.uuid
 }
-- 
2.43.0


From 1b99d021889bf89bc3822b69b82fff27451a74e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:08 +0000
Subject: [PATCH 03/23] fix: score a label with ground truths but no estimates
 0 instead of panicking

---
 src/metrics/detection.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/metrics/detection.rs b/src/metrics/detection.rs
index f6600db..10c214a 100644
--- a/src/metrics/detection.rs
+++ b/src/metrics/detection.rs
@@ -124,6 +124,11 @@ impl<'a> Ap<'a> {
     where
         T: TPMetrics,
     {
+        if self.results.is_empty() && *self.num_ground_truth > 0 {
+            // All GTs are missed.
+            return 0.0;
+        }
+
         let (tp_list, _) = self.calculate_tp_fp(tp_metrics, matching_mode, threshold);
         let (precision_list, recall_list) = self.calculate_precision_recall(&tp_list);
         let (max_precision_list, max_recall_list) =
-- 
2.43.0


From 08a6486d42c1ff06b5c8a546a4db931e32923756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:53 +0000
Subject: [PATCH 04/23] fix: interpolate precision from the highest recall down
 to recall 0

---
 src/metrics/detection.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/metrics/detection.rs b/src/metrics/detection.rs
index 10c214a..758bac5 100644
--- a/src/metrics/detection.rs
+++ b/src/metrics/detection.rs
@@ -159,12 +159,15 @@ impl<'a> Ap<'a> {
         } else {
             let mut max_precision_list = vec![*precision_list.last().unwrap()];
             let mut max_recall_list = vec![*recall_list.last().unwrap()];
-            for i in 0..recall_list.len() - 1 {
+            for i in (0..recall_list.len() - 1).rev() {
                 if max_precision_list.last().unwrap() < &precision_list[i] {
                     max_precision_list.push(precision_list[i]);
                     max_recall_list.push(recall_list[i]);
                 }
             }
+            // The best precision at the lowest recall holds down to recall 0.
+            max_precision_list.push(*max_precision_list.last().unwrap());
+            max_recall_list.push(0.0);
             (max_precision_list, max_recall_list)
         }
     }
-- 
2.43.0


From dd9a0ae42816c5942422be28642f4a75b8a4ef00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:52 +0000
Subject: [PATCH 05/23] fix: rank estimates by descending confidence for AP

---
 src/metrics/detection.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/metrics/detection.rs b/src/metrics/detection.rs
index 758bac5..a0ac94e 100644
--- a/src/metrics/detection.rs
+++ b/src/metrics/detection.rs
@@ -219,7 +219,15 @@ impl<'a> Ap<'a> {
             let mut tp_list = vec![0.0; num_results];
             let mut fp_list = vec![0.0; num_results];
 
-            self.results.iter().enumerate().for_each(|(i, result)| {
+            // Rank estimations by descending confidence.
+            let mut ranked_results = self.results.iter().collect::<Vec<_>>();
+            ranked_results.sort_by(|a, b| {
+                b.estimated_object
+                    .confidence
+                    .total_cmp(&a.estimated_object.confidence)
+            });
+
+            ranked_results.iter().enumerate().for_each(|(i, result)| {
                 if result.is_result_correct(matching_mode, threshold).unwrap() {
                     tp_list[i] = tp_metrics.get_value(result);
                 } else {
-- 
2.43.0


From 692553d46f44bbcceece067b81f9d1fe221793d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:26 +0000
Subject: [PATCH 06/23] fix: rotate the footprint by the object's orientation,
 not its inverse

---
 src/object/object3d.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/object/object3d.rs b/src/object/object3d.rs
index 1f76a00..db9a7d6 100644
--- a/src/object/object3d.rs
+++ b/src/object/object3d.rs
@@ -429,7 +429,8 @@ impl DynamicObject {
             0.0,
         );
 
-        let rot = self.rotation_matrix();
+        // The corners are row vectors, which are rotated by multiplying with the transposed matrix.
+        let rot = self.rotation_matrix().transpose();
         let position: SMatrix<f64, 1, 3> =
             PositionMatrix::new(self.position[0], self.position[1], self.position[2]);
 
-- 
2.43.0


From 6abbc57944639851e48cd034277120514d8758ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:20 +0000
Subject: [PATCH 07/23] fix: compute roll and yaw over the full circle and
 pitch without NaN

---
 src/utils/math.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/utils/math.rs b/src/utils/math.rs
index 303b72f..c77b58e 100644
--- a/src/utils/math.rs
+++ b/src/utils/math.rs
@@ -1,5 +1,3 @@
-use std::f64::consts::PI;
-
 use nalgebra::SMatrix;
 pub type RotationMatrix<T> = SMatrix<T, 3, 3>;
 pub(crate) type PositionMatrix = SMatrix<f64, 1, 3>;
@@ -52,13 +50,9 @@ pub fn quaternion2rotation(q: &[f64; 4]) -> RotationMatrix<f64> {
 /// ```
 pub fn quaternion2euler(q: &[f64; 4]) -> [f64; 3] {
     let [q0, q1, q2, q3] = q;
-    let roll = (2.0 * (q0 * q1 + q2 * q3) / (1.0 - 2.0 * (q1.powi(2) + q2.powi(2)))).atan();
-    let pitch = -0.5 * PI
-        + 2.0
-            * ((1.0 + 2.0 * (q0 * q2 - q1 * q3)) / (1.0 - 2.0 * (q0 * q2 - q1 * q3)))
-                .sqrt()
-                .atan();
-    let yaw = (2.0 * (q0 * q3 + q1 * q2) / (1.0 - 2.0 * (q2.powi(2) + q3.powi(2)))).atan();
+    let roll = (2.0 * (q0 * q1 + q2 * q3)).atan2(1.0 - 2.0 * (q1.powi(2) + q2.powi(2)));
+    let pitch = (2.0 * (q0 * q2 - q1 * q3)).clamp(-1.0, 1.0).asin();
+    let yaw = (2.0 * (q0 * q3 + q1 * q2)).atan2(1.0 - 2.0 * (q2.powi(2) + q3.powi(2)));
     [roll, pitch, yaw]
 }
 
-- 
2.43.0


From c1a7ec7dce4dfd6071685d847fc3762ace5ab6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:30 +0000
Subject: [PATCH 08/23] fix: print the scores of a report in a fixed order

---
 src/metrics/detection.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/metrics/detection.rs b/src/metrics/detection.rs
index a0ac94e..c6a5584 100644
--- a/src/metrics/detection.rs
+++ b/src/metrics/detection.rs
@@ -1,7 +1,7 @@
 use super::tp_metrics::{TPMetrics, TPMetricsAP, TPMetricsAPH};
 use crate::{label::Label, matching::MatchingMode, result::object::PerceptionResult};
 use std::{
-    collections::HashMap,
+    collections::{BTreeMap, HashMap},
     fmt::{Display, Formatter, Result as FormatResult},
 };
 
@@ -11,7 +11,7 @@ pub(crate) struct DetectionMetricsScore {
     pub(crate) target_labels: Vec<Label>,
     pub(crate) matching_mode: MatchingMode,
     pub(crate) thresholds: Vec<f64>,
-    pub(crate) scores: HashMap<String, Vec<f64>>,
+    pub(crate) scores: BTreeMap<String, Vec<f64>>,
 }
 
 impl DetectionMetricsScore {
@@ -29,7 +29,7 @@ impl DetectionMetricsScore {
         matching_mode: &MatchingMode,
         matching_thresholds: &Vec<f64>,
     ) -> Self {
-        let mut scores = HashMap::new();
+        let mut scores = BTreeMap::new();
         let num_targets = target_labels.len();
         let mut ap_list = vec![0.0; num_targets];
         let mut aph_list = vec![0.0; num_targets];
-- 
2.43.0


From 58f9f56e58e58bfa0451f17dc84e46791f517aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:16 +0000
Subject: [PATCH 09/23] fix: count ground truths once when a target label is
 listed more than once

---
 src/manager.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/manager.rs b/src/manager.rs
index 96ea69b..d489a24 100644
--- a/src/manager.rs
+++ b/src/manager.rs
@@ -129,17 +129,15 @@ impl<'a> PerceptionEvaluationManager<'a> {
         self.frame_results.iter().for_each(|frame| {
             let mut result_map = hash_results(frame.results(), target_labels);
             let num_gt_map = hash_num_objects(&frame.frame_ground_truth().objects, target_labels);
-            target_labels.iter().for_each(|label| {
-                if let Some(results) = scene_results.get_mut(label) {
-                    if let Some(result) = result_map.get_mut(label) {
-                        results.append(result)
-                    }
-                };
-                if let Some(num_gts) = num_scene_gt.get_mut(label) {
-                    if let Some(num_gt) = num_gt_map.get(label) {
-                        *num_gts += num_gt
-                    }
-                };
+            scene_results.iter_mut().for_each(|(label, results)| {
+                if let Some(result) = result_map.get_mut(label) {
+                    results.append(result)
+                }
+            });
+            num_scene_gt.iter_mut().for_each(|(label, num_gts)| {
+                if let Some(num_gt) = num_gt_map.get(label) {
+                    *num_gts += num_gt
+                }
             });
         });
 
-- 
2.43.0


From d2a59f2a7c2d0708752f9e10d73f25e22f6482eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:06 +0000
Subject: [PATCH 10/23] fix: rotate positions by the quaternion, not its
 inverse

---
 src/utils/math.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/math.rs b/src/utils/math.rs
index c77b58e..23da63b 100644
--- a/src/utils/math.rs
+++ b/src/utils/math.rs
@@ -142,7 +142,8 @@ pub fn translate_inv(xyz1: &[f64; 3], xyz2: &[f64; 3]) -> [f64; 3] {
 /// assert_eq!(ret, [1.0, 1.0, 1.0]);
 /// ```
 pub fn rotate(xyz: &[f64; 3], q: &[f64; 4]) -> [f64; 3] {
-    let rot = quaternion2rotation(q);
+    // The position is a row vector, which is rotated by multiplying with the transposed matrix.
+    let rot = quaternion2rotation(q).transpose();
     let position = PositionMatrix::new(xyz[0], xyz[1], xyz[2]) * rot;
     let row = position.row(0);
     [row[0], row[1], row[2]]
-- 
2.43.0


From e000a3bd4b4dacb258e9fae04fe7d03c770f4b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:17 +0000
Subject: [PATCH 11/23] fix: compose orientations by the quaternion product,
 not element by element

---
 src/utils/math.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/utils/math.rs b/src/utils/math.rs
index 23da63b..507e889 100644
--- a/src/utils/math.rs
+++ b/src/utils/math.rs
@@ -187,11 +187,15 @@ pub fn rotate_inv(xyz: &[f64; 3], q: &[f64; 4]) -> [f64; 3] {
 /// assert_eq!(ret, [1.0, 0.0, 0.0, 0.0]);
 /// ```
 pub fn rotate_q(q1: &[f64; 4], q2: &[f64; 4]) -> [f64; 4] {
-    let mut ret = q1.to_owned();
-    for i in 0..4 {
-        ret[i] *= q2[i];
-    }
-    ret
+    // The Hamilton product q2 * q1, that is the rotation by q1 followed by the one by q2.
+    let [w1, x1, y1, z1] = q1;
+    let [w2, x2, y2, z2] = q2;
+    [
+        w2 * w1 - x2 * x1 - y2 * y1 - z2 * z1,
+        w2 * x1 + x2 * w1 + y2 * z1 - z2 * y1,
+        w2 * y1 - x2 * z1 + y2 * w1 + z2 * x1,
+        w2 * z1 + x2 * y1 - y2 * x1 + z2 * w1,
+    ]
 }
 
 /// Inverse rotate `q1` with input `q2`.
-- 
2.43.0


From 978c26b463b0b8fdf8ebad751ef45a83d260a3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:55 +0000
Subject: [PATCH 12/23] fix: intersect footprints without panicking on parallel
 or coinciding sides

---
 src/matching.rs | 70 +++++++++++++++++++++++++++++--------------------
 1 file changed, 41 insertions(+), 29 deletions(-)

diff --git a/src/matching.rs b/src/matching.rs
index 5c2a90c..79ef44e 100644
--- a/src/matching.rs
+++ b/src/matching.rs
@@ -3,7 +3,7 @@ use std::cmp::Ordering;
 use crate::utils::point::{distance_points_bev, get_point_left_right};
 
 use super::object::object3d::DynamicObject;
-use geo::{polygon, Area, BooleanOps, Coord, Polygon};
+use geo::{Area, Coord, LineString, Polygon};
 use thiserror::Error as ThisError;
 
 pub type MatchingResult<T> = Result<T, MatchingError>;
@@ -173,37 +173,49 @@ fn get_intersection_area(
     estimated_object: &DynamicObject,
     ground_truth_object: &DynamicObject,
 ) -> f64 {
-    let get_polygon = |object: &DynamicObject| -> Polygon<f64> {
-        let footprint = object.footprint();
-        let poly = polygon![
-            Coord {
-                x: footprint[0][0],
-                y: footprint[0][1]
-            },
-            Coord {
-                x: footprint[1][0],
-                y: footprint[1][1]
-            },
-            Coord {
-                x: footprint[2][0],
-                y: footprint[2][1]
-            },
-            Coord {
-                x: footprint[3][0],
-                y: footprint[3][1]
-            },
-            Coord {
-                x: footprint[0][0],
-                y: footprint[0][1]
-            },
-        ];
-        poly
+    let get_corners = |object: &DynamicObject| -> Vec<Coord> {
+        object
+            .footprint()
+            .iter()
+            .map(|corner| Coord {
+                x: corner[0],
+                y: corner[1],
+            })
+            .collect()
     };
 
-    let est_polygon = get_polygon(estimated_object);
-    let gt_polygon = get_polygon(ground_truth_object);
+    let gt_corners = get_corners(ground_truth_object);
+    let gt_area = Polygon::new(LineString::from(gt_corners.to_owned()), vec![]).signed_area();
+    if gt_area == 0.0 {
+        return 0.0;
+    }
+
+    // Clip the estimated footprint by each side of the GT's one, which is convex.
+    let mut intersection = get_corners(estimated_object);
+    for (i, start) in gt_corners.iter().enumerate() {
+        let end = &gt_corners[(i + 1) % gt_corners.len()];
+        // Positive if the point is on the inner side.
+        let inside = |point: &Coord| -> f64 {
+            gt_area.signum()
+                * ((end.x - start.x) * (point.y - start.y)
+                    - (end.y - start.y) * (point.x - start.x))
+        };
+
+        let mut clipped = Vec::new();
+        for (j, current) in intersection.iter().enumerate() {
+            let next = &intersection[(j + 1) % intersection.len()];
+            let (d1, d2) = (inside(current), inside(next));
+            if 0.0 <= d1 {
+                clipped.push(*current);
+            }
+            if (d1 < 0.0 && 0.0 < d2) || (d2 < 0.0 && 0.0 < d1) {
+                clipped.push(*current + (*next - *current) * (d1 / (d1 - d2)));
+            }
+        }
+        intersection = clipped;
+    }
 
-    est_polygon.intersection(&gt_polygon).unsigned_area()
+    Polygon::new(LineString::from(intersection), vec![]).unsigned_area()
 }
 
 fn get_intersection_height(
-- 
2.43.0


From 33591caff478bf696885c8b6dba2acbe54a80be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:02 +0000
Subject: [PATCH 13/23] fix: intersect the heights of two boxes instead of
 spanning them

---
 src/matching.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/matching.rs b/src/matching.rs
index 79ef44e..009bac3 100644
--- a/src/matching.rs
+++ b/src/matching.rs
@@ -222,27 +222,27 @@ fn get_intersection_height(
     estimated_object: &DynamicObject,
     ground_truth_object: &DynamicObject,
 ) -> f64 {
-    let min_z = {
+    let bottom_z = {
         [
             estimated_object.position[2] - estimated_object.size[2] * 0.5,
             ground_truth_object.position[2] - ground_truth_object.size[2] * 0.5,
         ]
         .into_iter()
-        .min_by(|a, b| a.partial_cmp(b).unwrap())
+        .max_by(|a, b| a.partial_cmp(b).unwrap())
         .unwrap()
     };
 
-    let max_z = {
+    let top_z = {
         [
             estimated_object.position[2] + estimated_object.size[2] * 0.5,
             ground_truth_object.position[2] + ground_truth_object.size[2] * 0.5,
         ]
         .into_iter()
-        .max_by(|a, b| a.partial_cmp(b).unwrap())
+        .min_by(|a, b| a.partial_cmp(b).unwrap())
         .unwrap()
     };
 
-    [0.0, max_z - min_z]
+    [0.0, top_z - bottom_z]
         .into_iter()
         .max_by(|a, b| a.partial_cmp(b).unwrap())
         .unwrap()
-- 
2.43.0


From 83d1ff141026bfd83ec613108425086b7ce002a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:57 +0000
Subject: [PATCH 14/23] fix: find the nearest ground truth frame at full
 timestamp resolution

---
 src/dataset.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/dataset.rs b/src/dataset.rs
index d1ad518..79db3f1 100644
--- a/src/dataset.rs
+++ b/src/dataset.rs
@@ -6,7 +6,7 @@ use crate::{
     evaluation_task::EvaluationTask, frame_id::FrameID, label::LabelConverter,
     object::object3d::DynamicObject,
 };
-use chrono::naive::NaiveDateTime;
+use chrono::{naive::NaiveDateTime, Duration};
 use indicatif::{ProgressBar, ProgressIterator};
 use std::path::PathBuf;
 use std::{
@@ -132,12 +132,11 @@ pub fn get_current_frame(
 ) -> Option<FrameGroundTruth> {
     const TIME_THRESHOLD: i64 = 75; // [ms]
 
-    // TODO: update timestamp computation
-    let target_time = timestamp.timestamp_millis();
     let (min_index, min_diff_time) = frame_ground_truths.iter().enumerate().fold(
-        (usize::MAX, i64::MAX),
+        (usize::MAX, Duration::max_value()),
         |(a_idx, a), (b_idx, b)| {
-            let diff = (b.timestamp.timestamp_millis() - target_time).abs();
+            let diff = b.timestamp.signed_duration_since(*timestamp);
+            let diff = diff.max(-diff);
             if diff < a {
                 (b_idx, diff)
             } else {
@@ -146,13 +145,13 @@ pub fn get_current_frame(
         },
     );
 
-    match min_diff_time < TIME_THRESHOLD {
+    match min_diff_time < Duration::milliseconds(TIME_THRESHOLD) {
         true => Some(frame_ground_truths[min_index].to_owned()),
         false => {
             log::warn!(
-                "Could not find corresponding FrameGroundTruth for timestamp: {}, because {} [ms] > {} [ms]",
+                "Could not find corresponding FrameGroundTruth for timestamp: {}, because {} [ms] >= {} [ms]",
                 timestamp,
-                min_diff_time,
+                min_diff_time.num_milliseconds(),
                 TIME_THRESHOLD
             );
             None
-- 
2.43.0


From e06d9ca245c63754f34e713aa2a826bd21043480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:46 +0000
Subject: [PATCH 15/23] fix: load samples without annotations

---
 src/dataset/nuscenes.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dataset/nuscenes.rs b/src/dataset/nuscenes.rs
index 1761c2d..33f3ec4 100644
--- a/src/dataset/nuscenes.rs
+++ b/src/dataset/nuscenes.rs
@@ -535,9 +535,10 @@ impl NuScenes {
                 let sample_data_tokens = sample_to_sample_data_groups
                     .remove(&sample_token)
                     .ok_or(NuScenesError::InternalBug)?;
+                // a sample may have no annotated object
                 let annotation_tokens = sample_to_annotation_groups
                     .remove(&sample_token)
-                    .ok_or(NuScenesError::InternalBug)?;
+                    .unwrap_or_default();
                 let internal = SampleInternal::from(sample, annotation_tokens, sample_data_tokens);
                 Ok((sample_token, internal))
             })
-- 
2.43.0


From 87ff8eb6a03942767c96e97c8f2f0d513ffea0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:39 +0000
Subject: [PATCH 16/23] fix: read and write timestamps as whole microseconds

---
 src/dataset/nuscenes/schema.rs | 55 ++++++++++++++++++++++++++--------
 1 file changed, 43 insertions(+), 12 deletions(-)

diff --git a/src/dataset/nuscenes/schema.rs b/src/dataset/nuscenes/schema.rs
index 61d43fa..0670d42 100644
--- a/src/dataset/nuscenes/schema.rs
+++ b/src/dataset/nuscenes/schema.rs
@@ -573,28 +573,59 @@ mod opt_string_serde {
 
 mod timestamp_serde {
     use chrono::NaiveDateTime;
-    use serde::{de::Error as DeserializeError, Deserialize, Deserializer, Serializer};
+    use serde::{
+        de::{Error as DeserializeError, Visitor},
+        Deserializer, Serializer,
+    };
+    use std::fmt::{Formatter, Result as FormatResult};
+
+    struct TimestampVisitor;
+
+    impl<'de> Visitor<'de> for TimestampVisitor {
+        type Value = NaiveDateTime;
+
+        fn expecting(&self, formatter: &mut Formatter) -> FormatResult {
+            formatter.write_str("a timestamp in microseconds")
+        }
+
+        fn visit_i64<E>(self, timestamp_us: i64) -> Result<Self::Value, E>
+        where
+            E: DeserializeError,
+        {
+            let secs = timestamp_us.div_euclid(1_000_000);
+            let nsecs = timestamp_us.rem_euclid(1_000_000) * 1_000;
+            NaiveDateTime::from_timestamp_opt(secs, nsecs as u32)
+                .ok_or_else(|| E::custom("Could not load timestamp"))
+        }
+
+        fn visit_u64<E>(self, timestamp_us: u64) -> Result<Self::Value, E>
+        where
+            E: DeserializeError,
+        {
+            let timestamp_us =
+                i64::try_from(timestamp_us).map_err(|_| E::custom("Could not load timestamp"))?;
+            self.visit_i64(timestamp_us)
+        }
+
+        fn visit_f64<E>(self, timestamp_us: f64) -> Result<Self::Value, E>
+        where
+            E: DeserializeError,
+        {
+            self.visit_i64(timestamp_us.round() as i64)
+        }
+    }
 
     pub fn serialize<S>(value: &NaiveDateTime, serializer: S) -> Result<S::Ok, S::Error>
     where
         S: Serializer,
     {
-        let timestamp = value.timestamp_nanos_opt().unwrap() as f64 / 1_000_000_000.0;
-        serializer.serialize_f64(timestamp)
+        serializer.serialize_i64(value.timestamp_micros())
     }
 
     pub fn deserialize<'de, D>(deserializer: D) -> Result<NaiveDateTime, D::Error>
     where
         D: Deserializer<'de>,
     {
-        let timestamp_us = f64::deserialize(deserializer)?; // in us
-        let timestamp_ns = (timestamp_us * 1000.0) as u64; // in ns
-        let secs = timestamp_ns / 1_000_000_000;
-        let nsecs = timestamp_ns % 1_000_000_000;
-        let datetime = NaiveDateTime::from_timestamp_opt(secs as i64, nsecs as u32);
-        match datetime {
-            Some(value) => Ok(value),
-            None => Err(D::Error::custom("Could not load timestamp")),
-        }
+        deserializer.deserialize_any(TimestampVisitor)
     }
 }
-- 
2.43.0


From 347604be23625f4e66efa6e60c2014e020988e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:16 +0000
Subject: [PATCH 17/23] fix: add the objects of a frame once when it has
 several LiDAR records

---
 src/dataset.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dataset.rs b/src/dataset.rs
index 79db3f1..86ec118 100644
--- a/src/dataset.rs
+++ b/src/dataset.rs
@@ -113,6 +113,8 @@ fn sample_to_frame(
                 uuid: Some(nusc_box.instance.to_string()),
             });
         });
+        // every LiDAR record of the sample holds the same annotations
+        break;
     }
 
     let ret = FrameGroundTruth {
-- 
2.43.0


From a07f7d91f6b3f829b89091cff97175e13a29d866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:27 +0000
Subject: [PATCH 18/23] fix: make instance, map and visibility iterators usable

---
 src/dataset/nuscenes.rs                      | 2 +-
 src/dataset/nuscenes/iter_impl/map.rs        | 4 ++--
 src/dataset/nuscenes/iter_impl/visibility.rs | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/dataset/nuscenes.rs b/src/dataset/nuscenes.rs
index 33f3ec4..1539664 100644
--- a/src/dataset/nuscenes.rs
+++ b/src/dataset/nuscenes.rs
@@ -662,7 +662,7 @@ impl NuScenes {
 
     pub fn instance_iter(
         &self,
-    ) -> Iter<'_, Instance, HashMapKeys<'_, LongToken, InstanceInternal>> {
+    ) -> Iter<'_, InstanceInternal, HashMapKeys<'_, LongToken, InstanceInternal>> {
         self.refer_iter(self.instance_map.keys())
     }
 
diff --git a/src/dataset/nuscenes/iter_impl/map.rs b/src/dataset/nuscenes/iter_impl/map.rs
index 6354e05..5376d16 100644
--- a/src/dataset/nuscenes/iter_impl/map.rs
+++ b/src/dataset/nuscenes/iter_impl/map.rs
@@ -13,13 +13,13 @@ impl<'a> WithDataset<'a, Map> {
 
 impl<'a, It> Iterator for Iter<'a, Map, It>
 where
-    It: Iterator<Item = ShortToken>,
+    It: Iterator<Item = &'a ShortToken>,
 {
     type Item = WithDataset<'a, Map>;
 
     fn next(&mut self) -> Option<Self::Item> {
         self.tokens_iter
             .next()
-            .map(|token| self.refer(&self.dataset.map_map[&token]))
+            .map(|token| self.refer(&self.dataset.map_map[token]))
     }
 }
diff --git a/src/dataset/nuscenes/iter_impl/visibility.rs b/src/dataset/nuscenes/iter_impl/visibility.rs
index 524e54a..0f8f197 100644
--- a/src/dataset/nuscenes/iter_impl/visibility.rs
+++ b/src/dataset/nuscenes/iter_impl/visibility.rs
@@ -2,13 +2,13 @@ use super::super::{iter::Iter, schema::Visibility, WithDataset};
 
 impl<'a, It> Iterator for Iter<'a, Visibility, It>
 where
-    It: Iterator<Item = String>,
+    It: Iterator<Item = &'a String>,
 {
     type Item = WithDataset<'a, Visibility>;
 
     fn next(&mut self) -> Option<Self::Item> {
         self.tokens_iter
             .next()
-            .map(|token| self.refer(&self.dataset.visibility_map[&token]))
+            .map(|token| self.refer(&self.dataset.visibility_map[token]))
     }
 }
-- 
2.43.0


From d4e8b13f6314fcd8e406472396aafbd4483695bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:53 +0000
Subject: [PATCH 19/23] fix: load point clouds row by row, whole, and from the
 LIDAR_TOP and LIDAR_CONCAT directories

---
 src/dataset/nuscenes/iter_impl/sample_data.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/dataset/nuscenes/iter_impl/sample_data.rs b/src/dataset/nuscenes/iter_impl/sample_data.rs
index 7531258..a79d5fe 100644
--- a/src/dataset/nuscenes/iter_impl/sample_data.rs
+++ b/src/dataset/nuscenes/iter_impl/sample_data.rs
@@ -6,7 +6,6 @@ use super::super::{
     {LoadedSampleData, PointCloudMatrix, WithDataset},
 };
 // use memmap::MmapOptions;
-use nalgebra::{Dyn, VecStorage, U5};
 use safe_transmute::guard::SingleManyGuard;
 use std::{
     fs::File,
@@ -40,18 +39,17 @@ impl<'a> WithDataset<'a, SampleData> {
         let data = match self.inner.fileformat {
             FileFormat::Bin => {
                 match dirname {
-                    "lidar" => {
+                    "lidar" | "LIDAR_TOP" | "LIDAR_CONCAT" => {
                         let bytes = self.load_raw()?;
                         let values = safe_transmute::transmute_many::<f32, SingleManyGuard>(&bytes)
                             .map_err(|_| NuScenesError::CorruptedFile(path.clone()))?;
-                        if values.len() % 5 != 0 {
+                        // a point is a row of five values, the file must end with a whole one
+                        if values.len() % 5 != 0 || bytes.len() % 4 != 0 {
                             return Err(NuScenesError::CorruptedFile(path));
                         }
-                        let n_rows = values.len() / 5;
 
                         // TODO: this step takes one copy of the buffer. try to use more efficient impl.
-                        let storage = VecStorage::new(Dyn(n_rows), U5, Vec::from(values));
-                        let matrix = PointCloudMatrix::from_data(storage);
+                        let matrix = PointCloudMatrix::from_row_slice(values);
                         LoadedSampleData::PointCloud(matrix)
                     }
                     _ => {
-- 
2.43.0


From 828620bcddc87c61d6084466728e2afcdc5123bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:56 +0000
Subject: [PATCH 20/23] fix: refuse a scenario with an unknown task or frame or
 without dataset

---
 src/config.rs        | 11 +++++------
 src/config/schema.rs | 12 ++++++------
 2 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index 4e24f01..8b1c553 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -78,12 +78,11 @@ impl PerceptionEvaluationConfig {
         let datasets = scenario.evaluation.datasets;
 
         // TODO
-        let mut dataset_path = PathBuf::new();
-        let mut version = String::new();
-        for (key, value) in &datasets[0] {
-            dataset_path.set_file_name(key);
-            version = value.version.clone();
-        }
+        let (dataset_path, version) = datasets
+            .first()
+            .and_then(|dataset| dataset.iter().next())
+            .map(|(key, value)| (PathBuf::from(key), value.version.clone()))
+            .ok_or_else(|| ConfigError::KeyError(String::from("Datasets")))?;
 
         let params = scenario.evaluation.config.params;
         let target_labels = params.target_labels.iter().map(|s| s as &str).collect_vec();
diff --git a/src/config/schema.rs b/src/config/schema.rs
index 0a05de1..ca051aa 100644
--- a/src/config/schema.rs
+++ b/src/config/schema.rs
@@ -89,7 +89,7 @@ mod evaluation_task_serde {
     use std::str::FromStr;
 
     use crate::evaluation_task::EvaluationTask;
-    use serde::{Deserialize, Deserializer, Serializer};
+    use serde::{de::Error, Deserialize, Deserializer, Serializer};
 
     pub fn serialize<S>(value: &EvaluationTask, serializer: S) -> Result<S::Ok, S::Error>
     where
@@ -104,15 +104,15 @@ mod evaluation_task_serde {
         D: Deserializer<'de>,
     {
         let task_str = String::deserialize(deserializer)?;
-        let task = EvaluationTask::from_str(&task_str).unwrap(); // TODO: update result type
-        Ok(task)
+        EvaluationTask::from_str(&task_str)
+            .map_err(|_| D::Error::custom(format!("unknown evaluation_task: {}", task_str)))
     }
 }
 
 mod frame_id_serde {
     use std::str::FromStr;
 
-    use serde::{Deserialize, Deserializer, Serializer};
+    use serde::{de::Error, Deserialize, Deserializer, Serializer};
 
     use crate::frame_id::FrameID;
 
@@ -129,7 +129,7 @@ mod frame_id_serde {
         D: Deserializer<'de>,
     {
         let frame_id_str = String::deserialize(deserializer)?;
-        let frame_id = FrameID::from_str(&frame_id_str).unwrap(); // TODO
-        Ok(frame_id)
+        FrameID::from_str(&frame_id_str)
+            .map_err(|_| D::Error::custom(format!("unknown frame_id: {}", frame_id_str)))
     }
 }
-- 
2.43.0


From 1d05b05e08317f7f0b8091031cc698df10050cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:58 +0000
Subject: [PATCH 21/23] fix: let the logger be configured again and report when
 it cannot be

---
 src/config.rs       |  5 ++++-
 src/utils/logger.rs | 12 +++++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index 8b1c553..ca7b8ce 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -31,6 +31,8 @@ pub enum ConfigError {
     ValueError(f64),
     #[error("key error: {0}")]
     KeyError(String),
+    #[error("logger error: {0}")]
+    LoggerError(String),
 }
 
 /// Configuration of entire evaluation settings.
@@ -107,7 +109,8 @@ impl PerceptionEvaluationConfig {
         let log_dir = result_dir.join("log");
         let viz_dir = result_dir.join("visualize");
 
-        configure_logger(&log_dir, log::Level::Debug).unwrap();
+        configure_logger(&log_dir, log::Level::Debug)
+            .map_err(|err| ConfigError::LoggerError(err.to_string()))?;
 
         let config = Self {
             version,
diff --git a/src/utils/logger.rs b/src/utils/logger.rs
index 5ffa2df..47cf539 100644
--- a/src/utils/logger.rs
+++ b/src/utils/logger.rs
@@ -3,14 +3,20 @@ use log4rs::{
     append::file::FileAppender,
     config::{Appender, Config, Root},
     encode::pattern::PatternEncoder,
+    Handle,
 };
 use std::error::Error;
 use std::path::Path;
+use std::sync::{Mutex, PoisonError};
+
+/// Handle of the logger of this process once it has been configured.
+static HANDLE: Mutex<Option<Handle>> = Mutex::new(None);
 
 pub type LoggerResult<T> = std::result::Result<T, Box<dyn Error>>;
 
 /// Configure logger instance.
 /// The log output will be saved in `log_dir/output.log`.
+/// It can be called again to change the directory or level.
 ///
 /// * `log_dir` - Directory path to save output log.
 /// * `level`   - Logging level.
@@ -44,7 +50,11 @@ pub fn configure_logger(log_dir: &Path, level: Level) -> LoggerResult<()> {
         .appender(Appender::builder().build("logfile", Box::new(logfile)))
         .build(Root::builder().appender("logfile").build(level_filter))?;
 
-    log4rs::init_config(config)?;
+    let mut handle = HANDLE.lock().unwrap_or_else(PoisonError::into_inner);
+    match handle.as_ref() {
+        Some(handle) => handle.set_config(config),
+        None => *handle = Some(log4rs::init_config(config)?),
+    }
 
     Ok(())
 }
-- 
2.43.0


From 5c37e46ec8a6feab5e9bfcc4a0cf125d4d2c6d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:37 +0000
Subject: [PATCH 22/23] fix: order the records of a sample by token, not by
 hash map iteration

---
 src/dataset/nuscenes.rs        | 16 ++++++++++++----
 src/dataset/nuscenes/schema.rs |  2 +-
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/dataset/nuscenes.rs b/src/dataset/nuscenes.rs
index 1539664..b1b1fb7 100644
--- a/src/dataset/nuscenes.rs
+++ b/src/dataset/nuscenes.rs
@@ -512,6 +512,14 @@ impl NuScenes {
             })
             .into_group_map();
 
+        // the order must not depend on that of the hash maps
+        for tokens in sample_to_annotation_groups.values_mut() {
+            tokens.sort();
+        }
+        for tokens in sample_to_sample_data_groups.values_mut() {
+            tokens.sort();
+        }
+
         // convert some types for ease of usage
         let instance_internal_map = instance_map
             .into_iter()
@@ -550,7 +558,7 @@ impl NuScenes {
                 .iter()
                 .map(|(sample_token, sample)| (sample_token, sample.timestamp))
                 .collect::<Vec<_>>();
-            sorted_pairs.sort_by_cached_key(|(_, timestamp)| *timestamp);
+            sorted_pairs.sort_by_key(|&(token, timestamp)| (timestamp, token));
 
             sorted_pairs
                 .into_iter()
@@ -564,7 +572,7 @@ impl NuScenes {
                 .iter()
                 .map(|(sample_token, sample)| (sample_token, sample.timestamp))
                 .collect::<Vec<_>>();
-            sorted_pairs.sort_by_cached_key(|(_, timestamp)| *timestamp);
+            sorted_pairs.sort_by_key(|&(token, timestamp)| (timestamp, token));
 
             sorted_pairs
                 .into_iter()
@@ -578,7 +586,7 @@ impl NuScenes {
                 .iter()
                 .map(|(sample_token, sample)| (sample_token, sample.timestamp))
                 .collect::<Vec<_>>();
-            sorted_pairs.sort_by_cached_key(|(_, timestamp)| *timestamp);
+            sorted_pairs.sort_by_key(|&(token, timestamp)| (timestamp, token));
 
             sorted_pairs
                 .into_iter()
@@ -608,7 +616,7 @@ impl NuScenes {
                     Ok((scene_token, timestamp))
                 })
                 .collect::<NuScenesResult<Vec<_>>>()?;
-            sorted_pairs.sort_by_cached_key(|(_, timestamp)| *timestamp);
+            sorted_pairs.sort_by_key(|&(token, timestamp)| (timestamp, token));
 
             sorted_pairs
                 .into_iter()
diff --git a/src/dataset/nuscenes/schema.rs b/src/dataset/nuscenes/schema.rs
index 0670d42..7452581 100644
--- a/src/dataset/nuscenes/schema.rs
+++ b/src/dataset/nuscenes/schema.rs
@@ -12,7 +12,7 @@ pub const SHORT_TOKEN_LENGTH: usize = 16;
 
 pub type CameraIntrinsic = Option<[[f64; 3]; 3]>;
 
-#[derive(Debug, Clone, PartialEq, Eq, Hash)]
+#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
 pub struct LongToken([u8; LONG_TOKEN_LENGTH]);
 
 impl Display for LongToken {
-- 
2.43.0


From 16d0b9ce1592e8774d9717503dcf2b568769f866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:13 +0000
Subject: [PATCH 23/23] fix: judge boxes with NaN coordinates instead of
 panicking

An object with a NaN orientation, centre or height panicked in
partial_cmp().unwrap(); floats are ordered totally instead.
---
 src/matching.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/matching.rs b/src/matching.rs
index 009bac3..f84f640 100644
--- a/src/matching.rs
+++ b/src/matching.rs
@@ -75,7 +75,7 @@ impl MatchingMethod for PlaneDistanceMatching {
         let sort_func = |p1: &[f64; 3], p2: &[f64; 3]| -> Ordering {
             let d1 = p1[0].hypot(p1[1]);
             let d2 = p2[0].hypot(p2[1]);
-            d1.partial_cmp(&d2).unwrap()
+            d1.total_cmp(&d2)
         };
 
         let mut est_footprint = estimated_object.footprint();
@@ -228,7 +228,7 @@ fn get_intersection_height(
             ground_truth_object.position[2] - ground_truth_object.size[2] * 0.5,
         ]
         .into_iter()
-        .max_by(|a, b| a.partial_cmp(b).unwrap())
+        .max_by(|a, b| a.total_cmp(b))
         .unwrap()
     };
 
@@ -238,13 +238,13 @@ fn get_intersection_height(
             ground_truth_object.position[2] + ground_truth_object.size[2] * 0.5,
         ]
         .into_iter()
-        .min_by(|a, b| a.partial_cmp(b).unwrap())
+        .min_by(|a, b| a.total_cmp(b))
         .unwrap()
     };
 
     [0.0, top_z - bottom_z]
         .into_iter()
-        .max_by(|a, b| a.partial_cmp(b).unwrap())
+        .max_by(|a, b| a.total_cmp(b))
         .unwrap()
 }
 
-- 
2.43.0

