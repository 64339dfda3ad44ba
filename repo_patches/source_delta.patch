From 238bd99b5ee130162a03a13a2176093e92d08d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:28 +0000
Subject: [PATCH 01/31] fix: use object indices for the matching weight in
 ScoreFirstMatcher

MatchingWeight takes indices into predictions()/ground_truths(), but the
score-first matcher passed positions within the subsets, so any non-identity
subset compared the overlaps of unrelated objects.
---
 src/waymo_open_dataset/metrics/matcher.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/matcher.cc b/src/waymo_open_dataset/metrics/matcher.cc
index d1c7a17..5ab7ff0 100644
--- a/src/waymo_open_dataset/metrics/matcher.cc
+++ b/src/waymo_open_dataset/metrics/matcher.cc
@@ -280,9 +280,9 @@ void ScoreFirstMatcher::Match(std::vector<int>* prediction_matches,
       const int pd_idx = prediction_subset()[pd_subset_idx];
       const int gt_idx = ground_truth_subset()[gt_subset_idx];
       if (CanMatch(pd_idx, gt_idx)) {
-        if (MatchingWeight(pd_subset_idx, gt_subset_idx) >
-            best_gt_match_weight) {
-          best_gt_match_weight = MatchingWeight(pd_subset_idx, gt_subset_idx);
+        const int weight = MatchingWeight(pd_idx, gt_idx);
+        if (weight > best_gt_match_weight) {
+          best_gt_match_weight = weight;
           best_gt_match = gt_subset_idx;
         }
       }
-- 
2.43.0


From c079e9019a900f63e5fb2b03c8f8cd4c0c1dd96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:28 +0000
Subject: [PATCH 02/31] fix: reset reused output vectors in
 ScoreFirstMatcher::Match

resize() kept the entries of an earlier call, so reusing the output vectors
left stale matches and hid ground truths from the matcher.
---
 src/waymo_open_dataset/metrics/matcher.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/matcher.cc b/src/waymo_open_dataset/metrics/matcher.cc
index 5ab7ff0..a27741f 100644
--- a/src/waymo_open_dataset/metrics/matcher.cc
+++ b/src/waymo_open_dataset/metrics/matcher.cc
@@ -256,8 +256,8 @@ void ScoreFirstMatcher::Match(std::vector<int>* prediction_matches,
 
   const int prediction_subset_size = prediction_subset().size();
   const int ground_truth_subset_size = ground_truth_subset().size();
-  prediction_matches->resize(prediction_subset_size, -1);
-  ground_truth_matches->resize(ground_truth_subset_size, -1);
+  prediction_matches->assign(prediction_subset_size, -1);
+  ground_truth_matches->assign(ground_truth_subset_size, -1);
 
   std::vector<int> sorted_pred_subset_idx(prediction_subset_size);
   // Sort predictions by score in descending order.
-- 
2.43.0


From 322bee3fe78a732df2ac69585c0f20c275f7c08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:17 +0000
Subject: [PATCH 03/31] fix: iterate over the predictions of the right frame in
 tracking EstimateScoreCutoffs

The loop bound was the number of frames of scene frame_idx instead of the
number of predictions of the frame, reading out of bounds or skipping scores.
---
 src/waymo_open_dataset/metrics/tracking_metrics.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/tracking_metrics.cc b/src/waymo_open_dataset/metrics/tracking_metrics.cc
index 0df0db7..6bbf4d1 100644
--- a/src/waymo_open_dataset/metrics/tracking_metrics.cc
+++ b/src/waymo_open_dataset/metrics/tracking_metrics.cc
@@ -303,8 +303,8 @@ Config EstimateScoreCutoffs(
     for (int scene_idx = 0; scene_idx < num_scenes; ++scene_idx) {
       const int num_frames = pds[scene_idx].size();
       for (int frame_idx = 0; frame_idx < num_frames; ++frame_idx) {
-        for (int pd_idx = 0, num_pds = pds[frame_idx].size(); pd_idx < num_pds;
-             ++pd_idx) {
+        for (int pd_idx = 0, num_pds = pds[scene_idx][frame_idx].size();
+             pd_idx < num_pds; ++pd_idx) {
           pd_scores.push_back(pds[scene_idx][frame_idx][pd_idx].score());
         }
       }
-- 
2.43.0


From 47889697ed3709ceb436f541765b1b581c9b5d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:46 +0000
Subject: [PATCH 04/31] fix: keep details when merging two multi-frame
 detection measurements

---
 src/waymo_open_dataset/metrics/detection_metrics.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/metrics/detection_metrics.cc b/src/waymo_open_dataset/metrics/detection_metrics.cc
index 777c5b6..2b17268 100644
--- a/src/waymo_open_dataset/metrics/detection_metrics.cc
+++ b/src/waymo_open_dataset/metrics/detection_metrics.cc
@@ -210,7 +210,7 @@ DetectionMeasurement MergeDetectionMeasurement(const DetectionMeasurement& m1,
 
   // If we enables details population, appends it as a new frame. The new
   // frame's `details()` size should be 1.
-  if (m1.details_size() == 1 || m2.details_size() == 1) {
+  if (m1.details_size() > 0 || m2.details_size() > 0) {
     *m.mutable_details() = m1.details();
     m.mutable_details()->MergeFrom(m2.details());
   }
-- 
2.43.0


From ef0f568f28503bbdb53c5db9f6e9752348396bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:51 +0000
Subject: [PATCH 05/31] fix: keep per-frame details when merging tracking
 measurements

---
 src/waymo_open_dataset/metrics/tracking_metrics.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/waymo_open_dataset/metrics/tracking_metrics.cc b/src/waymo_open_dataset/metrics/tracking_metrics.cc
index 6bbf4d1..5afa0e1 100644
--- a/src/waymo_open_dataset/metrics/tracking_metrics.cc
+++ b/src/waymo_open_dataset/metrics/tracking_metrics.cc
@@ -104,6 +104,9 @@ TrackingMeasurement MergeTrackingMeasurement(const TrackingMeasurement& m1,
   ADD_FIELD(num_matches);
   ADD_FIELD(num_objects_gt);
 #undef ADD_FIELD
+  // Keep the per-frame details (empty unless their population is enabled).
+  *m.mutable_details() = m1.details();
+  m.mutable_details()->MergeFrom(m2.details());
   m.set_score_cutoff(m1.score_cutoff());
   return m;
 }
-- 
2.43.0


From cdced10a108aa8c626a3598ba9bcf392fd74780a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:55 +0000
Subject: [PATCH 06/31] fix: objects seen by a camera without a breakdown shard
 are in no shard

---
 src/waymo_open_dataset/metrics/breakdown_generator.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/breakdown_generator.cc b/src/waymo_open_dataset/metrics/breakdown_generator.cc
index ea1e39e..9b684b5 100644
--- a/src/waymo_open_dataset/metrics/breakdown_generator.cc
+++ b/src/waymo_open_dataset/metrics/breakdown_generator.cc
@@ -341,7 +341,8 @@ class BreakdownGeneratorCamera : public BreakdownGenerator {
       return std::vector<int>();
     }
     if (Is2DCamera(object)) {
-      return std::vector<int>({Shard(object)});
+      const int shard = Shard(object);
+      return shard < 0 ? std::vector<int>() : std::vector<int>({shard});
     }
     // For 3D detections, we estimate the camera breakdowns by FOV.
     const int shard_offset = kNumCameras * (object.object().type() - 1);
@@ -404,7 +405,8 @@ class BreakdownGeneratorCamera : public BreakdownGenerator {
       case CameraName::SIDE_RIGHT:
         return 4;
       default:
-        LOG(FATAL) << "Code should not reach here.";
+        // Other cameras (e.g. UNKNOWN or REAR) have no shard.
+        return -1;
     }
   }
 
-- 
2.43.0


From abcc744dbbf94993f04ae2bf0397de6135d87b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:18 +0000
Subject: [PATCH 07/31] fix: keep 64-bit point counts when merging segmentation
 measurements

---
 src/waymo_open_dataset/metrics/segmentation_metrics.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/segmentation_metrics.cc b/src/waymo_open_dataset/metrics/segmentation_metrics.cc
index fce6828..cfb83f2 100644
--- a/src/waymo_open_dataset/metrics/segmentation_metrics.cc
+++ b/src/waymo_open_dataset/metrics/segmentation_metrics.cc
@@ -125,8 +125,8 @@ SegmentationMetrics SegmentationMetricsIOU::MergeResults(
   }
   std::vector<float> ious(num_classes_, 1.0);
   for (int i = 0; i < num_classes_; ++i) {
-    int num_intersection = num_intersections[i];
-    int num_union = num_unions[i];
+    const int64_t num_intersection = num_intersections[i];
+    const int64_t num_union = num_unions[i];
     if (num_union > 0) {
       ious[i] = 1.0f * num_intersection / num_union;
     }
-- 
2.43.0


From 15b0b22cb20796aa3d3060bcd36ed3f558efb3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:45 +0000
Subject: [PATCH 08/31] fix: AABox2dTree reads past the end when built from no
 boxes

---
 src/waymo_open_dataset/math/aabox2d.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/waymo_open_dataset/math/aabox2d.h b/src/waymo_open_dataset/math/aabox2d.h
index 7c25ce5..3ef4596 100644
--- a/src/waymo_open_dataset/math/aabox2d.h
+++ b/src/waymo_open_dataset/math/aabox2d.h
@@ -165,6 +165,7 @@ class AABox2dTree {
       boxes_[i] = boxes[i];
     }
     nodes_.clear();
+    if (boxes.empty()) return;
     AABoxNode node;
     nodes_.push_back(node);
     std::vector<int> idx(boxes.size());
-- 
2.43.0


From ef8e18b18db2af8c46f962a95db3d4cf5e992361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:16 +0000
Subject: [PATCH 09/31] fix: Polygon2d::IsConvexHull accepts sequences that go
 around more than once

---
 src/waymo_open_dataset/math/polygon2d.cc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/waymo_open_dataset/math/polygon2d.cc b/src/waymo_open_dataset/math/polygon2d.cc
index 31ed180..485dd1c 100644
--- a/src/waymo_open_dataset/math/polygon2d.cc
+++ b/src/waymo_open_dataset/math/polygon2d.cc
@@ -595,6 +595,20 @@ bool Polygon2d::IsConvexHull(const std::vector<Vec2d>& points,
     if (has_ccw_direction && has_cw_direction) return false;
   }
 
+  // Points can turn the same way everywhere and still go around more than once
+  // (e.g. a star). Going around a convex polygon once, the x direction changes
+  // only twice.
+  int num_x_direction_changes = 0;
+  double last_dx = 0.0;
+  for (int ii = 0; ii < 2 * n; ++ii) {
+    const double dx = points[(ii + 1) % n].x() - points[ii % n].x();
+    if (dx == 0.0) continue;
+    // Count in the second round only, when the previous direction is known.
+    if (ii >= n && (dx > 0.0) != (last_dx > 0.0)) ++num_x_direction_changes;
+    last_dx = dx;
+  }
+  if (num_x_direction_changes > 2) return false;
+
   // Conclusive means every edge's cross product have a large enough absolute
   // value for us to confidently tell its sign.
   bool conclusive = false;
-- 
2.43.0


From a64f68dcfe7712ba62a7b35ed539b4d2f0b30146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:51 +0000
Subject: [PATCH 10/31] fix: polygon intersection lost when the boundaries
 touch at the first intersection point

ComputeIntersectionVertices returned an empty polygon when the traversal did
not come back to the first intersection point, e.g. for a square inside a
rectangle with a shared vertex. The vertices visited are the intersection.
---
 src/waymo_open_dataset/math/polygon2d.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/waymo_open_dataset/math/polygon2d.cc b/src/waymo_open_dataset/math/polygon2d.cc
index 485dd1c..8db7b0c 100644
--- a/src/waymo_open_dataset/math/polygon2d.cc
+++ b/src/waymo_open_dataset/math/polygon2d.cc
@@ -456,9 +456,15 @@ std::vector<Vec2d> Polygon2d::ComputeIntersectionVertices(
     }
   }
 
-  // Handle the case that those two polygons share one vertex or (part of) one
-  // edge, in which case the intersection is empty.
   if (!convex_points.empty()) {
+    // The traversal can miss the first intersection point when it comes around
+    // if the boundaries only touch there (e.g. one polygon is inside the other
+    // with a shared vertex), even though it has visited the whole intersection.
+    if (convex_points.size() > 2) {
+      return convex_points;
+    }
+    // Handle the case that those two polygons share one vertex or (part of) one
+    // edge, in which case the intersection is empty.
     return {};
   }
 
-- 
2.43.0


From c434229d737b5c439f6002b55fef0aa7df83fd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:51 +0000
Subject: [PATCH 11/31] fix: center alignment moves the prediction to the
 height of the ground truth too

---
 src/waymo_open_dataset/metrics/iou.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/waymo_open_dataset/metrics/iou.cc b/src/waymo_open_dataset/metrics/iou.cc
index 6ee60d5..449e480 100644
--- a/src/waymo_open_dataset/metrics/iou.cc
+++ b/src/waymo_open_dataset/metrics/iou.cc
@@ -305,6 +305,7 @@ Label::Box AlignedPredictionBox(
       // Moves the prediction box's center to be same as ground truth.
       aligned_prediction_box.set_center_x(ground_truth_box.center_x());
       aligned_prediction_box.set_center_y(ground_truth_box.center_y());
+      aligned_prediction_box.set_center_z(ground_truth_box.center_z());
       break;
     case Config::LongitudinalErrorTolerantConfig::
         TYPE_ANY_CLOSER_ONLY_RANGE_ALIGNED:
-- 
2.43.0


From 6f7c2e7396addbc27d43e0693e39b29e6becbfa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:51 +0000
Subject: [PATCH 12/31] fix: LET matching functions keep their own copy of the
 configuration

---
 src/waymo_open_dataset/metrics/iou.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/iou.cc b/src/waymo_open_dataset/metrics/iou.cc
index 449e480..275b5ae 100644
--- a/src/waymo_open_dataset/metrics/iou.cc
+++ b/src/waymo_open_dataset/metrics/iou.cc
@@ -285,7 +285,7 @@ double ComputeLongitudinalAffinity(
 ComputeLongitudinalAffinityFunc GetComputeLongitudinalAffinityFunc(
     const Config::LongitudinalErrorTolerantConfig& let_metric_config) {
   ComputeLongitudinalAffinityFunc let_compute_longitudinal_affinity_func =
-      [&let_metric_config](const Label::Box& prediction_box,
+      [let_metric_config](const Label::Box& prediction_box,
                            const Label::Box& ground_truth_box) {
         return ComputeLongitudinalAffinity(prediction_box, ground_truth_box,
                                            let_metric_config);
@@ -387,7 +387,7 @@ ComputeIoUFunc GetComputeLetIoUFunc(
     Config::LongitudinalErrorTolerantConfig::AlignType align_type,
     Label::Box::Type box_type) {
   ComputeIoUFunc compute_let_iou_func =
-      [&sensor_location, align_type, box_type](
+      [sensor_location, align_type, box_type](
           const Label::Box& prediction_box,
           const Label::Box& ground_truth_box) {
         return ComputeLetIoU(prediction_box, ground_truth_box, sensor_location,
-- 
2.43.0


From 8a717945edb591d7f4e8c88bba4bf2bb3e03ea64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:51 +0000
Subject: [PATCH 13/31] fix: intersection area of polygons with almost
 collinear sides

The check for recomputing a cross product with exact precision was absolute
and too small for products larger than 1, so the orientation predicates had
wrong signs for e.g. boxes with the same heading and a common side, for which
the intersection could be larger than either box or empty. Use a bound relative
to the products, decide both ends of a segment by exact signs, and use the same
predicate in PointInside.
---
 src/waymo_open_dataset/math/polygon2d.cc | 60 ++++++++++--------------
 1 file changed, 26 insertions(+), 34 deletions(-)

diff --git a/src/waymo_open_dataset/math/polygon2d.cc b/src/waymo_open_dataset/math/polygon2d.cc
index 8db7b0c..e0b5c84 100644
--- a/src/waymo_open_dataset/math/polygon2d.cc
+++ b/src/waymo_open_dataset/math/polygon2d.cc
@@ -50,12 +50,13 @@ double Cross(const Vec2d v0, const Vec2d v1, const Vec2d v2, const Vec2d v3) {
   return (v1 - v0).CrossProd(v3 - v2);
 }
 
-// Constant to check if the result of a Cross operation would need to be
-// recomputed with exact precision. Checking that precisely would require
-// dynamically computing the epsilon. Approximate by using 2^-50, which is two
-// bits apart from 1.0. This is conservative as it will happen on all cases
-// below 2^-50, which should be rare.
-static constexpr double kCrossExactEpsilon = 0x1p-50;  // 2 ^ -50
+// Constant to check if the result of a Cross operation needs to be recomputed
+// with exact precision. The rounding errors of Cross are proportional to the
+// magnitude of the two products whose difference it is (at most 2^-51 of it),
+// so the check is relative to that magnitude. It is much larger than the error,
+// so that results which are not recomputed are also accurate enough to locate
+// an intersection point.
+static constexpr double kCrossExactEpsilon = 0x1p-20;  // 2 ^ -20
 
 // Accsum computes the accurate summation of 16 double precision floats.
 // Algorithm from the following paper:
@@ -117,9 +118,13 @@ double CrossMaybeExact(const Vec2d v0, const Vec2d v1, const Vec2d v2,
     return 0.0;
   }
 
-  const double c = Cross(v0, v1, v2, v3);
-  if (ABSL_PREDICT_TRUE(std::abs(c) > kCrossExactEpsilon)) {
-    // More precision is needed if c is a single bit apart from 0.0.
+  const Vec2d s1 = v1 - v0;
+  const Vec2d s2 = v3 - v2;
+  const double a = s1.x() * s2.y();
+  const double b = s1.y() * s2.x();
+  const double c = a - b;
+  if (ABSL_PREDICT_TRUE(std::abs(c) >
+                        kCrossExactEpsilon * (std::abs(a) + std::abs(b)))) {
     return c;
   }
 
@@ -250,21 +255,20 @@ bool Polygon2d::PointInside(const Vec2d p) const {
   // points_[0], points_[start_ix], ... points_[end_ix].
   while (end_ix - start_ix > kLinearSearchThreshold) {
     const int mid_ix = (end_ix + start_ix) / 2;
-    const Vec2d bisector(points_[mid_ix] - points_[0]);
-    if (bisector.CrossProd(p - points_[0]) >= 0.0) {
+    if (CrossMaybeExact(points_[0], points_[mid_ix], points_[0], p) >= 0.0) {
       start_ix = mid_ix;
     } else {
       end_ix = mid_ix;
     }
   }
   for (int ii = start_ix; ii < end_ix - 1; ++ii) {
-    const Vec2d s = points_[ii + 1] - points_[ii];
-    if (s.CrossProd(p - points_[ii]) < 0.0) {
+    if (CrossMaybeExact(points_[ii], points_[ii + 1], points_[ii], p) < 0.0) {
       return false;
     }
   }
   if (start_ix < end_ix &&
-      Segment(end_ix - 1).CrossProd(p - points_[end_ix - 1]) < 0.0) {
+      CrossMaybeExact(points_[end_ix - 1], points_[Next(end_ix - 1)],
+                      points_[end_ix - 1], p) < 0.0) {
     return false;
   }
   return true;
@@ -308,33 +312,21 @@ bool ExactIntersection(const Vec2d p0, const Vec2d p1, const Vec2d q0,
   }
 
   const double detsign = std::copysign(1.0, det);
-  const double epsilon = std::max(std::abs(det), 1.0) * kCrossExactEpsilon;
 
   // t1/det is the intersection point projected to s1.
-  // Must be in the range [0-1] if there is an intersection
+  // Must be in the range [0-1] if there is an intersection. Only the signs are
+  // computed with full precision, so compare with 1 by reversing both segments.
   const double t1 = CrossMaybeExact(p0, q0, q1, q0);
-  if (t1 * detsign < 0.0 || t1 * detsign > std::abs(det) + epsilon) {
-    return false;
-  }
-  if (ABSL_PREDICT_FALSE(t1 * detsign > std::abs(det) - epsilon)) {
-    // t1/det is close to 1, reverse both segments and recompute the
-    // intersection, to use full precision if close to the segment start.
-    const double rt1 = CrossMaybeExact(p1, q1, q0, q1);
-    if (rt1 * detsign < 0.0) return false;
-  }
+  if (t1 * detsign < 0.0) return false;
+  const double rt1 = CrossMaybeExact(p1, q1, q0, q1);
+  if (rt1 * detsign < 0.0) return false;
 
   // t2/det is the intersection point projected to s2.
   // Must be in the range [0-1] if there is an intersection
   const double t2 = CrossMaybeExact(p0, p1, p0, q0);
-  if (t2 * detsign < 0.0 || t2 * detsign > std::abs(det) + epsilon) {
-    return false;
-  }
-  if (ABSL_PREDICT_FALSE(t2 * detsign > std::abs(det) - epsilon)) {
-    // t2/det is close to 1, reverse both segments and recompute the
-    // intersection, to use full precision if close to the segment start.
-    const double rt2 = CrossMaybeExact(p1, p0, p1, q1);
-    if (rt2 * detsign < 0.0) return false;
-  }
+  if (t2 * detsign < 0.0) return false;
+  const double rt2 = CrossMaybeExact(p1, p0, p1, q1);
+  if (rt2 * detsign < 0.0) return false;
 
   // BoundToRange to avoid precision errors from the division.
   *intersection = p0 + (p1 - p0) * BoundToRange(0.0, 1.0, t1 / det);
-- 
2.43.0


From 12c23ef96e141aa0106bf536f935ce098bbb80b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:58 +0000
Subject: [PATCH 14/31] fix: motion metrics accept configurations that crash or
 read out of bounds

---
 src/waymo_open_dataset/metrics/motion_metrics.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/metrics/motion_metrics.cc b/src/waymo_open_dataset/metrics/motion_metrics.cc
index dc8bb37..9c8622d 100644
--- a/src/waymo_open_dataset/metrics/motion_metrics.cc
+++ b/src/waymo_open_dataset/metrics/motion_metrics.cc
@@ -66,6 +66,13 @@ const std::unordered_map<TrajectoryType, int>& GetTrajectoryTypePriority() {
 // Validate the metrics configuration.
 Status ValidateConfig(const MotionMetricsConfig& config) {
   // Validate the configuration.
+  if (config.prediction_steps_per_second() <= 0) {
+    return InvalidArgumentError(
+        "prediction_steps_per_second must be positive");
+  }
+  if (config.max_predictions() <= 0) {
+    return InvalidArgumentError("max_predictions must be positive");
+  }
   if (config.prediction_steps_per_second() > config.track_steps_per_second()) {
     return InvalidArgumentError(
         "prediction_steps_per_second cannot be greater than "
@@ -82,7 +89,7 @@ Status ValidateConfig(const MotionMetricsConfig& config) {
                                config.prediction_steps_per_second() /
                                config.track_steps_per_second();
   for (const auto& step_config : config.step_configurations()) {
-    if (step_config.measurement_step() > prediction_steps ||
+    if (step_config.measurement_step() >= prediction_steps ||
         step_config.measurement_step() < 0) {
       return InvalidArgumentError("Requested miss rate time is invalid");
     }
-- 
2.43.0


From 8bb7991ced9d297e2c4f9da88a17b3363dcb5e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:58 +0000
Subject: [PATCH 15/31] fix: overlap metric reads states of tracks whose length
 is not validated

---
 src/waymo_open_dataset/metrics/motion_metrics.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/motion_metrics.cc b/src/waymo_open_dataset/metrics/motion_metrics.cc
index 9c8622d..b33e7b4 100644
--- a/src/waymo_open_dataset/metrics/motion_metrics.cc
+++ b/src/waymo_open_dataset/metrics/motion_metrics.cc
@@ -202,13 +202,14 @@ Status ValidatePredictions(const MotionMetricsConfig& config,
   return ValidateRequiredIds(scenario, predicted_object_ids);
 }
 
-// Validate that all of the given tracks have the required length.
+// Validate that all tracks of the scenario have the required length. This
+// includes the tracks that are not predicted as the overlap metric uses them.
 Status ValidateTracks(const MotionMetricsConfig& config,
-                      absl::flat_hash_map<int, const Track*>& ids_to_tracks) {
+                      const Scenario& scenario) {
   const int track_size =
       config.track_history_samples() + config.track_future_samples() + 1;
-  for (const auto& [id, track] : ids_to_tracks) {
-    if (track->states_size() != track_size) {
+  for (const auto& track : scenario.tracks()) {
+    if (track.states_size() != track_size) {
       return InvalidArgumentError("Invalid Scenario track size.");
     }
   }
@@ -1043,7 +1044,7 @@ Status ComputeMetricsStats(const MotionMetricsConfig& config,
     ids_to_tracks[track.id()] = &scenario.tracks(track_index);
   }
 
-  status = ValidateTracks(config, ids_to_tracks);
+  status = ValidateTracks(config, scenario);
   if (!status.ok()) {
     return status;
   }
-- 
2.43.0


From 9b41bf510dcf5f8ed1abb0a59a78276ca9f0e64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:58 +0000
Subject: [PATCH 16/31] fix: an empty multimodal prediction drops the
 predictions after it

---
 src/waymo_open_dataset/metrics/motion_metrics.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/metrics/motion_metrics.cc b/src/waymo_open_dataset/metrics/motion_metrics.cc
index b33e7b4..45d6812 100644
--- a/src/waymo_open_dataset/metrics/motion_metrics.cc
+++ b/src/waymo_open_dataset/metrics/motion_metrics.cc
@@ -759,7 +759,7 @@ Status ComputeAllMetrics(
     // joint prediction.
     if (multi_modal_prediction.joint_predictions().empty() ||
         multi_modal_prediction.joint_predictions(0).trajectories().empty()) {
-      return OkStatus();
+      continue;
     }
 
     // Find the object_type that best describes the prediction. If it is a joint
-- 
2.43.0


From f384e69a15297127633059fba7297140ca3dfe6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:58 +0000
Subject: [PATCH 17/31] fix: joint predictions without objects pass the
 consistency check

---
 src/waymo_open_dataset/metrics/motion_metrics.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/metrics/motion_metrics.cc b/src/waymo_open_dataset/metrics/motion_metrics.cc
index 45d6812..85ca983 100644
--- a/src/waymo_open_dataset/metrics/motion_metrics.cc
+++ b/src/waymo_open_dataset/metrics/motion_metrics.cc
@@ -105,6 +105,7 @@ Status ValidateMultiModalPrediction(
   // Use this set to validate that all predicted trajectories in the
   // multi_modal_prediction proto are for the same object.
   std::set<int> trajectory_ids;
+  bool is_first_prediction = true;
   for (const auto& prediction : multi_modal_prediction.joint_predictions()) {
     // Validate the trajectory lengths.
     std::set<int> ids;
@@ -121,8 +122,9 @@ Status ValidateMultiModalPrediction(
     }
 
     // Verify that every joint prediction contains the same objects.
-    if (trajectory_ids.empty()) {
+    if (is_first_prediction) {
       trajectory_ids = ids;
+      is_first_prediction = false;
     }
     if (ids != trajectory_ids) {
       return InvalidArgumentError(
-- 
2.43.0


From dd57c3413f47485742029da546200b4b8ceddf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:06 +0000
Subject: [PATCH 18/31] fix: compressing a range image overwrites the caller's
 array

---
 src/waymo_open_dataset/utils/compression/delta_encoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/utils/compression/delta_encoder.py b/src/waymo_open_dataset/utils/compression/delta_encoder.py
index ab562c2..9776c0c 100644
--- a/src/waymo_open_dataset/utils/compression/delta_encoder.py
+++ b/src/waymo_open_dataset/utils/compression/delta_encoder.py
@@ -60,7 +60,7 @@ def compress(
             " positive numbers"
         )
 
-  range_image_round = range_image
+  range_image_round = np.zeros(range_image.shape)
   for i in range(num_channel):
     range_image_round[..., i] = np.round(
         range_image[..., i] / quant_precision[i]
-- 
2.43.0


From 28c660df01dce413ab4c70aa6810c0a3ef38bb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:52 +0000
Subject: [PATCH 19/31] fix: plot solid double yellow road lines too

---
 src/waymo_open_dataset/utils/plot_maps.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/waymo_open_dataset/utils/plot_maps.py b/src/waymo_open_dataset/utils/plot_maps.py
index cd18fd6..e939cfb 100644
--- a/src/waymo_open_dataset/utils/plot_maps.py
+++ b/src/waymo_open_dataset/utils/plot_maps.py
@@ -258,6 +258,9 @@ def plot_map_features(
       map_pb2.RoadLine.TYPE_SOLID_SINGLE_YELLOW: (
           FeatureType.SOLID_SINGLE_YELLOW_BOUNDARY
       ),
+      map_pb2.RoadLine.TYPE_SOLID_DOUBLE_YELLOW: (
+          FeatureType.SOLID_DOUBLE_YELLOW_BOUNDARY
+      ),
       map_pb2.RoadLine.TYPE_PASSING_DOUBLE_YELLOW: (
           FeatureType.PASSING_DOUBLE_YELLOW_BOUNDARY
       ),
-- 
2.43.0


From 9780dfea22e9d83a4734428ec214d6574478a1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:37 +0000
Subject: [PATCH 20/31] fix: plotting an empty map or an area without points
 fails

---
 src/waymo_open_dataset/utils/plot_maps.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/waymo_open_dataset/utils/plot_maps.py b/src/waymo_open_dataset/utils/plot_maps.py
index e939cfb..713c8be 100644
--- a/src/waymo_open_dataset/utils/plot_maps.py
+++ b/src/waymo_open_dataset/utils/plot_maps.py
@@ -128,8 +128,8 @@ def plot_map_points(map_points: MapPoints) -> go._figure.Figure:
   # Plot connecting lines for each individual roadgraph feature.
   start_index = 0
   end_index = 0
-  point_type = map_points.types[0]
-  feature_id = map_points.ids[0]
+  point_type = map_points.types[0] if map_points.types else None
+  feature_id = map_points.ids[0] if map_points.ids else None
 
   color_dict = {}
   for k in line_dict:
@@ -283,7 +283,7 @@ def plot_map_features(
     for point in points:
       map_points.append_point(point, feature_type, feature_id)
 
-    if is_polygon:
+    if is_polygon and points:
       map_points.append_point(points[0], feature_type, feature_id)
 
   # Create arrays of the map points to be plotted.
-- 
2.43.0


From 3077d106e881edd563e2d53d5dceeb67075955dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:24 +0000
Subject: [PATCH 21/31] fix: large lane ids lose precision in traffic light
 features

---
 src/waymo_open_dataset/data_conversion/scenario_conversion.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/data_conversion/scenario_conversion.cc b/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
index 4fecf3f..7d1a008 100644
--- a/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
+++ b/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
@@ -960,7 +960,8 @@ absl::Status AddTrafficLightStateFeatures(
                       features);
       AddInt64Feature(
           absl::StrCat(state_and_time_frame_prefix, "id"),
-          lane_state == nullptr ? kInvalidFieldValue : lane_state->lane(),
+          lane_state == nullptr ? static_cast<int64_t>(kInvalidFieldValue)
+                                : lane_state->lane(),
           features);
       AddInt64Feature(absl::StrCat(state_and_time_frame_prefix, "valid"),
                       lane_state == nullptr ? 0 : 1, features);
-- 
2.43.0


From 6d9c2294cb1041e36082f2b2e19ef5ece5b74785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:00 +0000
Subject: [PATCH 22/31] fix: converting a map area without points reads out of
 bounds

---
 src/waymo_open_dataset/data_conversion/scenario_conversion.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/waymo_open_dataset/data_conversion/scenario_conversion.cc b/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
index 7d1a008..5fccf9d 100644
--- a/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
+++ b/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
@@ -794,6 +794,9 @@ void AddPolygonSamples(
     const int type, const google::protobuf::RepeatedPtrField<MapPoint>& map_points,
     const int valid, int* num_points,
     absl::flat_hash_map<std::string, tensorflow::Feature>* features) {
+  if (map_points.empty()) {
+    return;
+  }
   // Add the first N-1 segments of the polygon.
   const int feature_size = map_points.size();
   std::vector<Vec3d> points;
-- 
2.43.0


From dd2ed1fdf85b0201f18492432cb61be684fcc9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:00 +0000
Subject: [PATCH 23/31] fix: tracks to predict outside the scenario abort the
 conversion

---
 .../data_conversion/scenario_conversion.cc                | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/waymo_open_dataset/data_conversion/scenario_conversion.cc b/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
index 5fccf9d..685ae17 100644
--- a/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
+++ b/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
@@ -1007,6 +1007,14 @@ bool ValidateScenarioProto(const Scenario& scenario,
     }
   }
 
+  for (const auto& track_to_predict : scenario.tracks_to_predict()) {
+    if (track_to_predict.track_index() < 0 ||
+        track_to_predict.track_index() >= scenario.tracks().size()) {
+      IncrementCounter("Scenario_Track_To_Predict_Index_No_Match", counters);
+      valid = false;
+    }
+  }
+
   if (valid) {
     IncrementCounter("Valid_Scenario", counters);
   }
-- 
2.43.0


From 3a8df88d464227158757e76b6305ebb73e68c02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:00 +0000
Subject: [PATCH 24/31] fix: scenarios that end before the current step are
 read out of bounds

---
 .../data_conversion/scenario_conversion.cc                   | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/waymo_open_dataset/data_conversion/scenario_conversion.cc b/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
index 685ae17..97c8414 100644
--- a/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
+++ b/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
@@ -240,6 +240,11 @@ absl::Status AddSdcAndAgentsStateFeatures(
   // Gather objects of interest in the Scenario proto.
   const int current_timestamp_steps =
       last_timestamps_step - conversion_config.num_future_steps();
+  if (current_timestamp_steps < 0 ||
+      current_timestamp_steps >= scenario.timestamps_seconds().size()) {
+    return absl::FailedPreconditionError(
+        "The scenario does not reach the current time step.");
+  }
   absl::flat_hash_set<const Track*> objects_of_interest = GetObjectsOfInterest(
       scenario, current_timestamp_steps, /*keep_invalid_tracks=*/true);
 
-- 
2.43.0


From 66ac9573ba6b1995f852cc9ff499e5d88f955426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:00 +0000
Subject: [PATCH 25/31] fix: more modeled agents than agent slots abort the
 conversion

---
 .../data_conversion/scenario_conversion.cc                   | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/waymo_open_dataset/data_conversion/scenario_conversion.cc b/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
index 97c8414..0c3738d 100644
--- a/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
+++ b/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
@@ -271,6 +271,11 @@ absl::Status AddSdcAndAgentsStateFeatures(
         "No valid modeled agents in the current track.");
   }
 
+  if (modeled_agents.size() > conversion_config.max_num_agents()) {
+    return absl::FailedPreconditionError(
+        "More modeled agents than the maximum number of agents.");
+  }
+
   IncrementCounter("Num_Modeled_Agents", counters, modeled_agents.size());
   std::vector<const Track*> sorted_modeled_agents(modeled_agents.begin(),
                                                   modeled_agents.end());
-- 
2.43.0


From 634bf18ce112bdaab2fa2dc7cd722e1cf7b6f7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:01 +0000
Subject: [PATCH 26/31] fix: reject joint scenes that simulate an object more
 than once

---
 src/waymo_open_dataset/utils/sim_agents/submission_specs.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/waymo_open_dataset/utils/sim_agents/submission_specs.py b/src/waymo_open_dataset/utils/sim_agents/submission_specs.py
index 6469cf3..54d3106 100644
--- a/src/waymo_open_dataset/utils/sim_agents/submission_specs.py
+++ b/src/waymo_open_dataset/utils/sim_agents/submission_specs.py
@@ -209,6 +209,12 @@ def validate_joint_scene(
       raise ValueError(
           f'Object {simulated_trajectory.object_id} is not a sim agent.'
       )
+    # Each object can only be simulated once per scene.
+    if simulated_trajectory.object_id in simulated_ids:
+      raise ValueError(
+          f'Object {simulated_trajectory.object_id} is simulated more than'
+          ' once.'
+      )
     simulated_ids.append(simulated_trajectory.object_id)
   # Check that all of the required objects/agents are simulated.
   missing_agents = set(sim_agent_ids) - set(simulated_ids)
-- 
2.43.0


From 39930fb653ced15a25c9ad6f1d10b3697e69a8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:16 +0000
Subject: [PATCH 27/31] fix: correct the sign of the depth term in the rolling
 shutter Jacobian

The derivative of -y/x with respect to time is (-y' - (-y/x) x') / x; the
depth term was added instead of subtracted, so the search for the exposure
time converged only linearly for points whose depth changes and could stop
several pixels off.
---
 src/waymo_open_dataset/wdl_limited/camera/camera_model.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/waymo_open_dataset/wdl_limited/camera/camera_model.cc b/src/waymo_open_dataset/wdl_limited/camera/camera_model.cc
index 3e6a2fe..c6199f7 100644
--- a/src/waymo_open_dataset/wdl_limited/camera/camera_model.cc
+++ b/src/waymo_open_dataset/wdl_limited/camera/camera_model.cc
@@ -665,10 +665,10 @@ bool CameraModel::ComputeDepthResidualAndJacobian(
     const double jacobian_combined =
         rolling_shutter_state.readout_horizontal_direction
             ? rolling_shutter_state.readout_time_factor / cam_pos_f(0) *
-                  ((*normalized_coord)(0) * jacobian_landmark_to_index(0) -
+                  (-(*normalized_coord)(0) * jacobian_landmark_to_index(0) -
                    jacobian_landmark_to_index(1))
             : rolling_shutter_state.readout_time_factor / cam_pos_f(0) *
-                  ((*normalized_coord)(1) * jacobian_landmark_to_index(0) -
+                  (-(*normalized_coord)(1) * jacobian_landmark_to_index(0) -
                    jacobian_landmark_to_index(2));
     *jacobian = 1. - jacobian_combined;
   }
-- 
2.43.0


From cfddb8131ada3543d959193660a65876cd82f21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:27 +0000
Subject: [PATCH 28/31] fix: keep the real remainder inside [0, modulus) next
 to multiples

The quotient x * (1 / y) can round to just below or above an integer, so
multiples such as 49 mod 49 gave the modulus itself and others a negative
remainder.
---
 src/waymo_open_dataset/math/math_util.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/waymo_open_dataset/math/math_util.h b/src/waymo_open_dataset/math/math_util.h
index eca8525..1cb2119 100644
--- a/src/waymo_open_dataset/math/math_util.h
+++ b/src/waymo_open_dataset/math/math_util.h
@@ -59,9 +59,13 @@ PositiveModulo(T x, T y) {
   // case, the division 1 / y is optimized away.
   const T x_div_y = x * (1 / y);
   const T truncated_result = std::trunc(x_div_y);
-  const T modulo = x - truncated_result * y;
-  const T modulo_shifted = y + modulo;
-  return modulo >= 0 ? modulo : (modulo_shifted >= y ? 0 : modulo_shifted);
+  T modulo = x - truncated_result * y;
+  // The rounded quotient can be off by one next to multiples of y, which leaves
+  // modulo just outside of (-y, y).
+  if (modulo >= y) modulo -= y;
+  if (modulo < 0) modulo += y;
+  if (modulo < 0) modulo += y;
+  return modulo >= y ? 0 : modulo;
 }
 
 // Wraps a value to be in [min_val, max_val).
-- 
2.43.0


From 003fa67dca66d262b5bece9455f8de1d8e2ed26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:01 +0000
Subject: [PATCH 29/31] fix: rebuild nested records of a component only from
 their own columns

---
 src/waymo_open_dataset/v2/component.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/waymo_open_dataset/v2/component.py b/src/waymo_open_dataset/v2/component.py
index 40a4f57..8a9d4f1 100644
--- a/src/waymo_open_dataset/v2/component.py
+++ b/src/waymo_open_dataset/v2/component.py
@@ -314,8 +314,12 @@ def flatten_arrow_types(
 
 
 def _remove_prefix(prefix: str, columns: dict[str, _T]) -> dict[str, _T]:
-  """Removes specified prefix from all keys in the input dictionary."""
-  return {k.removeprefix(prefix): v for k, v in columns.items()}
+  """Selects keys with the specified prefix and removes the prefix from them."""
+  return {
+      k.removeprefix(prefix): v
+      for k, v in columns.items()
+      if k.startswith(prefix)
+  }
 
 
 def unflatten_dict(class_type: type[_T], columns: dict[str, Any]) -> _T:
-- 
2.43.0


From 84ac05b443c6a0e03b1e7210ccfd95a5f4f7ac3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:00 +0000
Subject: [PATCH 30/31] fix: check remapped instance ids against the panoptic
 divisor and keep ids above 16 bits

---
 .../utils/camera_segmentation_utils.py                   | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/waymo_open_dataset/utils/camera_segmentation_utils.py b/src/waymo_open_dataset/utils/camera_segmentation_utils.py
index 1860337..8323d6e 100644
--- a/src/waymo_open_dataset/utils/camera_segmentation_utils.py
+++ b/src/waymo_open_dataset/utils/camera_segmentation_utils.py
@@ -296,7 +296,9 @@ def decode_multi_frame_panoptic_labels_from_segmentation_labels(
           [max([global_id for _, global_id in mapping.items()])
            for _, mapping in global_id_mapping.items()])
       if new_panoptic_label_divisor is None:
-        panoptic_label_divisor = max(panoptic_label_divisor, max_instance_id)
+        # Instance ids have to be lower than the divisor.
+        panoptic_label_divisor = max(
+            panoptic_label_divisor, max_instance_id + 1)
 
   panoptic_labels = []
   num_cameras_covered = []
@@ -310,7 +312,8 @@ def decode_multi_frame_panoptic_labels_from_segmentation_labels(
     camera_coverage = np.ones_like(instance_label, dtype=np.uint8)
     is_tracked_mask = np.zeros_like(instance_label, dtype=np.uint8)
 
-    instance_label_copy = np.copy(instance_label)
+    # Global ids do not have to fit the 16 bits of the encoded image.
+    instance_label_copy = np.array(instance_label).astype(np.uint32)
     if remap_to_global:
       if isinstance(label, v2.CameraSegmentationLabelComponent):
         mapping_iter = _iterate_over_mapping(label)
@@ -325,7 +328,7 @@ def decode_multi_frame_panoptic_labels_from_segmentation_labels(
         instance_label_copy[instance_mask] = global_id_mapping[sequence][
             mapping.global_instance_id]
 
-    if np.amax(instance_label) >= panoptic_label_divisor:
+    if np.amax(instance_label_copy) >= panoptic_label_divisor:
       raise ValueError('A panoptic_label_divisor of '
                        f'{panoptic_label_divisor} is requested, but the '
                        'maximum instance id exceeds this.')
-- 
2.43.0


From 8b4debd1676919f339b4655cba655f54fae2e64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:00 +0000
Subject: [PATCH 31/31] fix: accept v2 segmentation labels with an empty
 instance id table

---
 .../utils/camera_segmentation_utils.py                   | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/waymo_open_dataset/utils/camera_segmentation_utils.py b/src/waymo_open_dataset/utils/camera_segmentation_utils.py
index 8323d6e..0fabf14 100644
--- a/src/waymo_open_dataset/utils/camera_segmentation_utils.py
+++ b/src/waymo_open_dataset/utils/camera_segmentation_utils.py
@@ -158,12 +158,15 @@ def _remap_global_ids(
   for label in segmentation_proto_list:
     if not label.instance_id_to_global_id_mapping:
       continue
-    if label.sequence_id not in global_instance_ids:
-      global_instance_ids[label.sequence_id] = set()
-
     frame_global_instance_ids = [
         mapping.global_instance_id for mapping in _iterate_over_mapping(label)
     ]
+    # The mapping of a v2 component is an object even if it has no entries.
+    if not frame_global_instance_ids:
+      continue
+    if label.sequence_id not in global_instance_ids:
+      global_instance_ids[label.sequence_id] = set()
+
     global_instance_ids[label.sequence_id].update(frame_global_instance_ids)
 
   if not global_instance_ids:
-- 
2.43.0

