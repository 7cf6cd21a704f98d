From cd4b49428385c54a327415f24275e1dfffa70fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:37 +0000
Subject: [PATCH 01/30] fix: keep Duration32 products and quotients of zero
 from becoming NaN

Zero() * infinity and Zero() / 0.0f produced NaN although the class
documents that durations are never NaN.
---
 ink/types/duration.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ink/types/duration.cc b/ink/types/duration.cc
index 56154b6..3df0a02 100644
--- a/ink/types/duration.cc
+++ b/ink/types/duration.cc
@@ -28,7 +28,8 @@ Duration32 operator*(Duration32 d, float scale) {
     return d >= Duration32::Zero() ? Duration32::Infinite()
                                    : -Duration32::Infinite();
   }
-  if (!d.IsFinite()) {
+  // Zero scaled by an infinity would be NaN under IEEE 754.
+  if (!d.IsFinite() || std::isinf(scale)) {
     return (d >= Duration32::Zero()) == (scale >= 0) ? Duration32::Infinite()
                                                      : -Duration32::Infinite();
   }
@@ -40,7 +41,8 @@ Duration32 operator/(Duration32 d, float divisor) {
     return d >= Duration32::Zero() ? Duration32::Infinite()
                                    : -Duration32::Infinite();
   }
-  if (!d.IsFinite()) {
+  // Zero divided by zero would be NaN under IEEE 754.
+  if (!d.IsFinite() || (d == Duration32::Zero() && divisor == 0)) {
     return (d >= Duration32::Zero()) == (divisor >= 0)
                ? Duration32::Infinite()
                : -Duration32::Infinite();
-- 
2.43.0


From 73d5eee46aaee5453ec52a9f5d480e94c8f64738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:52 +0000
Subject: [PATCH 02/30] fix: normalize subnormal vectors without tripping the
 zero-divisor check

---
 ink/geometry/vec.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ink/geometry/vec.cc b/ink/geometry/vec.cc
index 97479d0..39d156e 100644
--- a/ink/geometry/vec.cc
+++ b/ink/geometry/vec.cc
@@ -55,9 +55,11 @@ Vec Vec::AsUnitVec() const {
 
   // Finally, we have the finite, nonzero case.  In theory, we can just divide
   // the vector by its magnitude, but the magnitude can overflow to infinity if
-  // e.g. x and y are both very large finite floats.  We can avoid this by
-  // pre-scaling the vector before normalizing.
-  Vec scaled = 0.5f * *this;
+  // e.g. x and y are both very large finite floats, and can lose precision (or
+  // be zero) if x and y are both subnormal.  We can avoid this by pre-scaling
+  // the vector by a power of two before normalizing.
+  float scale = std::max(std::abs(x), std::abs(y)) < 1.f ? 0x1p64f : 0.5f;
+  Vec scaled = scale * *this;
   return scaled / scaled.Magnitude();
 }
 
-- 
2.43.0


From 193eab905e4f616d4123abc54aab1cb695caac41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:03 +0000
Subject: [PATCH 03/30] fix: use std::abs when joining a point to a quad

---
 ink/geometry/quad.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ink/geometry/quad.cc b/ink/geometry/quad.cc
index 8bb5afc..b83eb69 100644
--- a/ink/geometry/quad.cc
+++ b/ink/geometry/quad.cc
@@ -84,7 +84,7 @@ void Quad::Join(Point point) {
   float u_cross_q = Vec::Determinant(unit_axes.first, q);
   float v_cross_q = Vec::Determinant(unit_axes.second, q);
   float new_width =
-      std::max(width_, .5f * width_ + abs(u_dot_q - shear_factor_ * u_cross_q));
+      std::max(width_, .5f * width_ + std::abs(u_dot_q - shear_factor_ * u_cross_q));
   float new_height = std::copysign(1.f, height_) *
                      std::max(std::abs(height_),
                               .5f * std::abs(height_) + std::abs(u_cross_q));
-- 
2.43.0


From 15551be02cb4d2fc96505030af21ae01c9451583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:20 +0000
Subject: [PATCH 04/30] fix: define the default constructor of Quad

---
 ink/geometry/quad.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ink/geometry/quad.h b/ink/geometry/quad.h
index f97cc7d..26c9b40 100644
--- a/ink/geometry/quad.h
+++ b/ink/geometry/quad.h
@@ -83,7 +83,7 @@ class Quad {
  public:
   // Constructs a Quad centered on the origin, with zero width, height,
   // rotation, and shear factor.
-  Quad();
+  Quad() = default;
 
   // Constructs a Quad with the specified parameters, setting unspecified
   // parameters to zero. If the given width is less than zero, the Quad will be
-- 
2.43.0


From 4ecc0be8dff8a9d911d2aebee08486202af46864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:25 +0000
Subject: [PATCH 05/30] fix: ignore non-finite target modifiers of brush
 behaviors

---
 ink/strokes/internal/brush_tip_modeler_helpers.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ink/strokes/internal/brush_tip_modeler_helpers.cc b/ink/strokes/internal/brush_tip_modeler_helpers.cc
index cf52d25..8462619 100644
--- a/ink/strokes/internal/brush_tip_modeler_helpers.cc
+++ b/ink/strokes/internal/brush_tip_modeler_helpers.cc
@@ -465,8 +465,12 @@ void ProcessBehaviorNodeImpl(const TargetNodeImplementation& node,
   float input = context.stack.back();
   context.stack.pop_back();
   if (IsNullBehaviorNodeValue(input)) return;
-  context.target_modifiers[node.target_index] =
+  float modifier =
       Lerp(node.target_modifier_range[0], node.target_modifier_range[1], input);
+  // As with other nodes, treat a non-finite result (e.g. overflow to infinity)
+  // as null.
+  if (!std::isfinite(modifier)) return;
+  context.target_modifiers[node.target_index] = modifier;
 }
 
 }  // namespace
-- 
2.43.0


From 8cb0997f878a876e3f666700935944663b20cd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:34 +0000
Subject: [PATCH 06/30] fix: a tiny segment intersects its own endpoints

---
 ink/geometry/internal/intersects_internal.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ink/geometry/internal/intersects_internal.cc b/ink/geometry/internal/intersects_internal.cc
index c463706..32a8a45 100644
--- a/ink/geometry/internal/intersects_internal.cc
+++ b/ink/geometry/internal/intersects_internal.cc
@@ -34,9 +34,9 @@ bool IntersectsInternal(Point a, const Segment& b) {
   // If the point isn't on the line of the segment, they don't intersect.
   if (Vec::Determinant((a - b.start), (b.end - b.start)) != 0) return false;
   std::optional<float> projection = b.Project(a);
-  // The segment is degenerate, and the point is not equivalent to either
-  // endpoint.
-  if (!projection.has_value()) return false;
+  // The segment is too small to compute the projection, so they only intersect
+  // if the point is equivalent to one of the endpoints.
+  if (!projection.has_value()) return a == b.start || a == b.end;
   return *projection >= 0 && *projection <= 1;
 }
 bool IntersectsInternal(Point a, const Triangle& b) { return b.Contains(a); }
-- 
2.43.0


From 0fb04ccd99062d7e9693db20e80c3dd76fed228e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:23 +0000
Subject: [PATCH 07/30] fix: keep the computed packing scale positive for
 subnormal ranges

---
 ink/geometry/internal/mesh_packing.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ink/geometry/internal/mesh_packing.cc b/ink/geometry/internal/mesh_packing.cc
index 548cca6..884bd7a 100644
--- a/ink/geometry/internal/mesh_packing.cc
+++ b/ink/geometry/internal/mesh_packing.cc
@@ -14,11 +14,13 @@
 
 #include "ink/geometry/internal/mesh_packing.h"
 
+#include <algorithm>
 #include <array>
 #include <cmath>
 #include <cstddef>
 #include <cstdint>
 #include <cstring>
+#include <limits>
 #include <optional>
 #include <utility>
 #include <vector>
@@ -875,8 +877,12 @@ absl::StatusOr<MeshAttributeCodingParams> ComputeCodingParams(
 
     // If the min and max are the same, we would get a scale of zero, which
     // wouldn't make sense, since multiplying by zero is not invertible --
-    // so in that case we set the scale to 1 instead.
-    coding_params.components[i].scale = range > 0 ? range / max_values[i] : 1;
+    // so in that case we set the scale to 1 instead. For the same reason, the
+    // scale must not underflow when the range is tiny.
+    coding_params.components[i].scale =
+        range > 0 ? std::max(range / max_values[i],
+                             std::numeric_limits<float>::min())
+                  : 1;
   }
 
   return coding_params;
-- 
2.43.0


From fb6ce140f59729184aba0c5ac22eb1603467208c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:07 +0000
Subject: [PATCH 08/30] fix: scale infinite color channels into gamut without
 producing NaN

---
 ink/color/color.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ink/color/color.cc b/ink/color/color.cc
index aec3f4a..4b1f75c 100644
--- a/ink/color/color.cc
+++ b/ink/color/color.cc
@@ -168,7 +168,8 @@ Color Color::ScaledToGamut() const {
                std::max(copy.rgba_[kChannelGreen], copy.rgba_[kChannelBlue]));
   if (max_val > 1.0f) {
     for (int i = 0; i < kNumChannelsColorOnly; ++i) {
-      copy.rgba_[i] = copy.rgba_[i] / max_val;
+      // The largest channels scale to exactly one, even if they are infinite.
+      copy.rgba_[i] = copy.rgba_[i] == max_val ? 1.0f : copy.rgba_[i] / max_val;
     }
   }
 
-- 
2.43.0


From 64e03d62c24adeda30bb4c0cca3d7b12d28ebeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:21 +0000
Subject: [PATCH 09/30] fix: partitioned meshes without meshes aborted when
 queried

---
 ink/geometry/partitioned_mesh.cc | 28 ++++++++++++++--------------
 ink/geometry/partitioned_mesh.h  |  2 +-
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/ink/geometry/partitioned_mesh.cc b/ink/geometry/partitioned_mesh.cc
index 4201951..55536a7 100644
--- a/ink/geometry/partitioned_mesh.cc
+++ b/ink/geometry/partitioned_mesh.cc
@@ -328,7 +328,7 @@ void VisitIntersectedTrianglesHelper(
 void PartitionedMesh::VisitIntersectedTriangles(
     Point query, absl::FunctionRef<FlowControl(TriangleIndexPair)> visitor,
     const AffineTransform& query_to_this) const {
-  if (!data_) return;
+  if (Meshes().empty()) return;
 
   VisitIntersectedTrianglesHelper(query, visitor, query_to_this,
                                   data_->Meshes(), data_->SpatialIndex());
@@ -338,7 +338,7 @@ void PartitionedMesh::VisitIntersectedTriangles(
     const Segment& query,
     absl::FunctionRef<FlowControl(TriangleIndexPair)> visitor,
     const AffineTransform& query_to_this) const {
-  if (!data_) return;
+  if (Meshes().empty()) return;
 
   VisitIntersectedTrianglesHelper(query, visitor, query_to_this,
                                   data_->Meshes(), data_->SpatialIndex());
@@ -348,7 +348,7 @@ void PartitionedMesh::VisitIntersectedTriangles(
     const Triangle& query,
     absl::FunctionRef<FlowControl(TriangleIndexPair)> visitor,
     const AffineTransform& query_to_this) const {
-  if (!data_) return;
+  if (Meshes().empty()) return;
 
   VisitIntersectedTrianglesHelper(query, visitor, query_to_this,
                                   data_->Meshes(), data_->SpatialIndex());
@@ -358,7 +358,7 @@ void PartitionedMesh::VisitIntersectedTriangles(
     const Rect& query,
     absl::FunctionRef<FlowControl(TriangleIndexPair)> visitor,
     const AffineTransform& query_to_this) const {
-  if (!data_) return;
+  if (Meshes().empty()) return;
 
   VisitIntersectedTrianglesHelper(query, visitor, query_to_this,
                                   data_->Meshes(), data_->SpatialIndex());
@@ -368,7 +368,7 @@ void PartitionedMesh::VisitIntersectedTriangles(
     const Quad& query,
     absl::FunctionRef<FlowControl(TriangleIndexPair)> visitor,
     const AffineTransform& query_to_this) const {
-  if (!data_) return;
+  if (Meshes().empty()) return;
 
   VisitIntersectedTrianglesHelper(query, visitor, query_to_this,
                                   data_->Meshes(), data_->SpatialIndex());
@@ -424,7 +424,7 @@ void PartitionedMesh::VisitIntersectedTriangles(
     const PartitionedMesh& query,
     absl::FunctionRef<FlowControl(TriangleIndexPair)> visitor,
     const AffineTransform& query_to_this) const {
-  if (!data_) return;
+  if (Meshes().empty()) return;
 
   // If `query` is empty, it can't intersect this shape.
   if (query.Meshes().empty()) return;
@@ -475,28 +475,28 @@ float ComputeCoverage(const QueryType& query,
 
 float PartitionedMesh::Coverage(const Triangle& query,
                                 const AffineTransform& query_to_this) const {
-  if (data_ == nullptr) return 0;
+  if (Meshes().empty()) return 0;
   return ComputeCoverage(query, query_to_this, *this,
                          data_->TotalAbsoluteArea());
 }
 
 float PartitionedMesh::Coverage(const Rect& query,
                                 const AffineTransform& query_to_this) const {
-  if (data_ == nullptr) return 0;
+  if (Meshes().empty()) return 0;
   return ComputeCoverage(query, query_to_this, *this,
                          data_->TotalAbsoluteArea());
 }
 
 float PartitionedMesh::Coverage(const Quad& query,
                                 const AffineTransform& query_to_this) const {
-  if (data_ == nullptr) return 0;
+  if (Meshes().empty()) return 0;
   return ComputeCoverage(query, query_to_this, *this,
                          data_->TotalAbsoluteArea());
 }
 
 float PartitionedMesh::Coverage(const PartitionedMesh& query,
                                 const AffineTransform& query_to_this) const {
-  if (data_ == nullptr) return 0;
+  if (Meshes().empty()) return 0;
   return ComputeCoverage(query, query_to_this, *this,
                          data_->TotalAbsoluteArea());
 }
@@ -533,7 +533,7 @@ float CoverageIsGreaterThanHelper(const QueryType& query,
 bool PartitionedMesh::CoverageIsGreaterThan(
     const Triangle& query, float coverage_threshold,
     const AffineTransform& query_to_this) const {
-  if (data_ == nullptr) return false;
+  if (Meshes().empty()) return false;
   return CoverageIsGreaterThanHelper(query, query_to_this, *this,
                                      coverage_threshold,
                                      data_->TotalAbsoluteArea());
@@ -542,7 +542,7 @@ bool PartitionedMesh::CoverageIsGreaterThan(
 bool PartitionedMesh::CoverageIsGreaterThan(
     const Rect& query, float coverage_threshold,
     const AffineTransform& query_to_this) const {
-  if (data_ == nullptr) return false;
+  if (Meshes().empty()) return false;
   return CoverageIsGreaterThanHelper(query, query_to_this, *this,
                                      coverage_threshold,
                                      data_->TotalAbsoluteArea());
@@ -551,7 +551,7 @@ bool PartitionedMesh::CoverageIsGreaterThan(
 bool PartitionedMesh::CoverageIsGreaterThan(
     const Quad& query, float coverage_threshold,
     const AffineTransform& query_to_this) const {
-  if (data_ == nullptr) return false;
+  if (Meshes().empty()) return false;
   return CoverageIsGreaterThanHelper(query, query_to_this, *this,
                                      coverage_threshold,
                                      data_->TotalAbsoluteArea());
@@ -560,7 +560,7 @@ bool PartitionedMesh::CoverageIsGreaterThan(
 bool PartitionedMesh::CoverageIsGreaterThan(
     const PartitionedMesh& query, float coverage_threshold,
     const AffineTransform& query_to_this) const {
-  if (data_ == nullptr) return false;
+  if (Meshes().empty()) return false;
   return CoverageIsGreaterThanHelper(query, query_to_this, *this,
                                      coverage_threshold,
                                      data_->TotalAbsoluteArea());
diff --git a/ink/geometry/partitioned_mesh.h b/ink/geometry/partitioned_mesh.h
index 34b5876..a8ee5a0 100644
--- a/ink/geometry/partitioned_mesh.h
+++ b/ink/geometry/partitioned_mesh.h
@@ -474,7 +474,7 @@ inline uint32_t PartitionedMesh::OutlineVertexCount(
 }
 
 inline void PartitionedMesh::InitializeSpatialIndex() {
-  if (!data_) return;
+  if (Meshes().empty()) return;
 
   (void)data_->SpatialIndex();
 }
-- 
2.43.0


From 159832530f8cdcb31b94f82fa9607f1f13af0348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:21 +0000
Subject: [PATCH 10/30] fix: a mesh collapsed along the diagonal of its bounds
 was treated as a point

---
 ink/geometry/internal/algorithms.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ink/geometry/internal/algorithms.cc b/ink/geometry/internal/algorithms.cc
index f82f9bd..2daca6c 100644
--- a/ink/geometry/internal/algorithms.cc
+++ b/ink/geometry/internal/algorithms.cc
@@ -238,11 +238,19 @@ Segment CalculateCollapsedSegment(
     const AffineTransform& non_invertible_transform) {
   ABSL_DCHECK(!non_invertible_transform.Inverse().has_value());
 
-  // We first transform the diagonal of `query`'s bounds to find the line that
-  // `query` will lie on after transforming it.
+  // We first transform the diagonals of `query`'s bounds to find the line that
+  // `query` will lie on after transforming it. The transform might collapse one
+  // of the diagonals to a point without collapsing the shape to a point, so we
+  // use the one that remains longer.
   std::array<Point, 4> corners = bounds.Corners();
   Segment transformed_diagonal =
       non_invertible_transform.Apply(Segment{corners[0], corners[2]});
+  Segment transformed_other_diagonal =
+      non_invertible_transform.Apply(Segment{corners[1], corners[3]});
+  if (transformed_other_diagonal.Vector().MagnitudeSquared() >
+      transformed_diagonal.Vector().MagnitudeSquared()) {
+    transformed_diagonal = transformed_other_diagonal;
+  }
 
   if (transformed_diagonal.Vector().MagnitudeSquared() == 0) {
     // The transform collapses the shape to a single point.
-- 
2.43.0


From b66b926e60f34740e18ffcf6269717909f83d3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:22 +0000
Subject: [PATCH 11/30] fix: Stroke::SetInputs lost the inputs when given the
 stroke's own inputs

---
 ink/strokes/stroke.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ink/strokes/stroke.cc b/ink/strokes/stroke.cc
index cd6ad7f..666adda 100644
--- a/ink/strokes/stroke.cc
+++ b/ink/strokes/stroke.cc
@@ -125,8 +125,7 @@ absl::Status Stroke::SetBrushEpsilon(float epsilon) {
 }
 
 void Stroke::SetInputs(const StrokeInputBatch& inputs) {
-  inputs_.Clear();
-  ABSL_CHECK_OK(inputs_.Append(inputs));
+  inputs_ = inputs;
   RegenerateShape();
 }
 
-- 
2.43.0


From ac5a2458ff76148a6caa9605b1f2c8c09eb04f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:35 +0000
Subject: [PATCH 12/30] fix: InProgressStroke kept predicted inputs whose
 geometry UpdateShape had cleared

---
 ink/strokes/in_progress_stroke.cc | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/ink/strokes/in_progress_stroke.cc b/ink/strokes/in_progress_stroke.cc
index fb38212..957bb4b 100644
--- a/ink/strokes/in_progress_stroke.cc
+++ b/ink/strokes/in_progress_stroke.cc
@@ -122,11 +122,9 @@ absl::Status InProgressStroke::UpdateShape(Duration32 current_elapsed_time) {
       !status.ok()) {
     return status;
   }
-  if (inputs_are_finished_ || !queued_real_inputs_.IsEmpty() ||
-      !queued_predicted_inputs_.IsEmpty()) {
-    // Erase any old predicted inputs.
-    processed_inputs_.Erase(real_input_count_);
-  }
+  // Erase any old predicted inputs. The shape builders drop the geometry of
+  // previously-predicted inputs on every update, even if nothing is queued.
+  processed_inputs_.Erase(real_input_count_);
 
   if (absl::Status status = processed_inputs_.Append(queued_real_inputs_);
       !status.ok()) {
-- 
2.43.0


From 41b2350b3eba109359815bee5f3769a8ff122cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:35 +0000
Subject: [PATCH 13/30] fix: InProgressStroke::NeedsUpdate ignored predictions
 left over after FinishInputs

---
 ink/strokes/in_progress_stroke.cc | 5 +++++
 ink/strokes/in_progress_stroke.h  | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/ink/strokes/in_progress_stroke.cc b/ink/strokes/in_progress_stroke.cc
index 957bb4b..ea55a61 100644
--- a/ink/strokes/in_progress_stroke.cc
+++ b/ink/strokes/in_progress_stroke.cc
@@ -166,6 +166,11 @@ bool InProgressStroke::NeedsUpdate() const {
   if (!queued_real_inputs_.IsEmpty() || !queued_predicted_inputs_.IsEmpty()) {
     return true;
   }
+  // Once inputs are finished, predicted inputs that were already processed will
+  // be removed by the next update.
+  if (inputs_are_finished_ && PredictedInputCount() > 0) {
+    return true;
+  }
   uint32_t num_coats = BrushCoatCount();
   for (uint32_t coat_index = 0; coat_index < num_coats; ++coat_index) {
     if (shape_builders_[coat_index].HasUnfinishedTimeBehaviors()) {
diff --git a/ink/strokes/in_progress_stroke.h b/ink/strokes/in_progress_stroke.h
index 8d90f7c..c55089a 100644
--- a/ink/strokes/in_progress_stroke.h
+++ b/ink/strokes/in_progress_stroke.h
@@ -153,6 +153,8 @@ class InProgressStroke {
   //   * If there are no active animation behaviors, but there are pending
   //     inputs from an `EnqueueInputs()` call that have not yet been consumed
   //     by a call to `UpdateShape()`, returns true.
+  //   * If inputs are finished, but the stroke still includes predicted inputs
+  //     (which the next call to `UpdateShape()` will remove), returns true.
   //   * Otherwise, returns false.
   //
   // Once `InputsAreFinished()` returns true and this method returns false, the
-- 
2.43.0


From 92d921cc58528be02f970f845dfe3c83cd5ae8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:29 +0000
Subject: [PATCH 14/30] fix: keep the mesh address stable when a
 StrokeShapeBuilder is moved mid-stroke

---
 ink/strokes/internal/stroke_shape_builder.cc | 2 +-
 ink/strokes/internal/stroke_shape_builder.h  | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/ink/strokes/internal/stroke_shape_builder.cc b/ink/strokes/internal/stroke_shape_builder.cc
index 2a6fecb..495dc82 100644
--- a/ink/strokes/internal/stroke_shape_builder.cc
+++ b/ink/strokes/internal/stroke_shape_builder.cc
@@ -79,7 +79,7 @@ void StrokeShapeBuilder::StartStroke(const BrushFamily::InputModel& input_model,
     // this will need to be more careful about how the various extruders append
     // onto the same mesh.
     tips_[i].extruder.StartStroke(brush_epsilon,
-                                  is_winding_texture_particle_brush, mesh_);
+                                  is_winding_texture_particle_brush, *mesh_);
   }
 }
 
diff --git a/ink/strokes/internal/stroke_shape_builder.h b/ink/strokes/internal/stroke_shape_builder.h
index 28ef824..f44a364 100644
--- a/ink/strokes/internal/stroke_shape_builder.h
+++ b/ink/strokes/internal/stroke_shape_builder.h
@@ -17,6 +17,7 @@
 
 #include <cstddef>
 #include <cstdint>
+#include <memory>
 
 #include "absl/container/inlined_vector.h"
 #include "absl/types/span.h"
@@ -107,7 +108,9 @@ class StrokeShapeBuilder {
   uint32_t BrushTipCount() const;
 
   StrokeInputModeler input_modeler_;
-  MutableMesh mesh_;
+  // The `BrushTipExtruder`s hold on to the address of the mesh, so it must not
+  // change when this object is moved in the middle of a stroke.
+  std::unique_ptr<MutableMesh> mesh_;
   Envelope mesh_bounds_;
 
   // The outlines for the brush coat. The size of this is at least equal to the
@@ -134,9 +137,9 @@ class StrokeShapeBuilder {
 //                     Implementation details below
 
 inline StrokeShapeBuilder::StrokeShapeBuilder()
-    : mesh_(StrokeVertex::FullMeshFormat()) {}
+    : mesh_(std::make_unique<MutableMesh>(StrokeVertex::FullMeshFormat())) {}
 
-inline const MutableMesh& StrokeShapeBuilder::GetMesh() const { return mesh_; }
+inline const MutableMesh& StrokeShapeBuilder::GetMesh() const { return *mesh_; }
 
 inline const Envelope& StrokeShapeBuilder::GetMeshBounds() const {
   return mesh_bounds_;
-- 
2.43.0


From ddba2b0445407cda17f8d683c446aafd72e59dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:29 +0000
Subject: [PATCH 15/30] fix: set up modeling of predicted-only strokes with
 their own unit length

---
 ink/strokes/internal/stroke_input_modeler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ink/strokes/internal/stroke_input_modeler.cc b/ink/strokes/internal/stroke_input_modeler.cc
index d278753..5f17671 100644
--- a/ink/strokes/internal/stroke_input_modeler.cc
+++ b/ink/strokes/internal/stroke_input_modeler.cc
@@ -190,7 +190,7 @@ void StrokeInputModeler::ExtendStroke(const StrokeInputBatch& real_inputs,
                                     ? predicted_inputs.GetStrokeUnitLength()
                                     : real_inputs.GetStrokeUnitLength();
     ResetStrokeModeler(stroke_modeler_, input_model_, brush_epsilon_,
-                       real_inputs.GetStrokeUnitLength());
+                       state_.stroke_unit_length);
     stroke_modeler_has_input_ = false;
   }
 
-- 
2.43.0


From 7dc1836953c459bfe63703b827f67104c4cdf3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:29 +0000
Subject: [PATCH 16/30] fix: reset traveled distance when all predicted inputs
 are withdrawn

---
 ink/strokes/internal/stroke_input_modeler.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ink/strokes/internal/stroke_input_modeler.cc b/ink/strokes/internal/stroke_input_modeler.cc
index 5f17671..b6a16d5 100644
--- a/ink/strokes/internal/stroke_input_modeler.cc
+++ b/ink/strokes/internal/stroke_input_modeler.cc
@@ -311,6 +311,7 @@ void StrokeInputModeler::UpdateStateTimeAndDistance(
     Duration32 current_elapsed_time) {
   if (modeled_inputs_.empty()) {
     state_.complete_elapsed_time = current_elapsed_time;
+    state_.complete_traveled_distance = 0;
     return;
   }
 
-- 
2.43.0


From adaec0b024b75eb5263e062ff25db33013046fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:13 +0000
Subject: [PATCH 17/30] fix: tip states with directional position offsets were
 fixed before their direction was known

---
 ink/strokes/internal/brush_tip_modeler.cc | 28 +++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/ink/strokes/internal/brush_tip_modeler.cc b/ink/strokes/internal/brush_tip_modeler.cc
index b96db30..9a004eb 100644
--- a/ink/strokes/internal/brush_tip_modeler.cc
+++ b/ink/strokes/internal/brush_tip_modeler.cc
@@ -260,6 +260,31 @@ bool SourceDependsOnNextModeledInput(BrushBehavior::Source source) {
   return false;
 }
 
+// Returns true for the targets that are applied along the direction of travel,
+// which is calculated from the next modeled input.
+bool TargetDependsOnNextModeledInput(BrushBehavior::Target target) {
+  switch (target) {
+    case BrushBehavior::Target::kPositionOffsetForwardInMultiplesOfBrushSize:
+    case BrushBehavior::Target::kPositionOffsetLateralInMultiplesOfBrushSize:
+      return true;
+    case BrushBehavior::Target::kWidthMultiplier:
+    case BrushBehavior::Target::kHeightMultiplier:
+    case BrushBehavior::Target::kSizeMultiplier:
+    case BrushBehavior::Target::kSlantOffsetInRadians:
+    case BrushBehavior::Target::kPinchOffset:
+    case BrushBehavior::Target::kRotationOffsetInRadians:
+    case BrushBehavior::Target::kCornerRoundingOffset:
+    case BrushBehavior::Target::kPositionOffsetXInMultiplesOfBrushSize:
+    case BrushBehavior::Target::kPositionOffsetYInMultiplesOfBrushSize:
+    case BrushBehavior::Target::kHueOffsetInRadians:
+    case BrushBehavior::Target::kSaturationMultiplier:
+    case BrushBehavior::Target::kLuminosity:
+    case BrushBehavior::Target::kOpacityMultiplier:
+      break;
+  }
+  return false;
+}
+
 Duration32 TimeSinceLastInput(
     const StrokeInputModeler::State& input_modeler_state) {
   // TODO: b/287041801 - Do we need to consider predicted inputs here too?
@@ -370,6 +395,9 @@ void BrushTipModeler::AppendBehaviorNode(
       .target_modifier_range = node.target_modifier_range,
   });
   behavior_targets_.push_back(node.target);
+  if (TargetDependsOnNextModeledInput(node.target)) {
+    behaviors_depend_on_next_input_ = true;
+  }
   float initial_modifier = InitialTargetModifierValue(node.target);
   current_target_modifiers_.push_back(initial_modifier);
   fixed_target_modifiers_.push_back(initial_modifier);
-- 
2.43.0


From e18e28661bf9bd0c450ebaaa7a3c97c175e29579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:59 +0000
Subject: [PATCH 18/30] fix: Don't convert NaN to int when tessellating an
 empty arc finely

---
 ink/geometry/internal/circle.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ink/geometry/internal/circle.cc b/ink/geometry/internal/circle.cc
index 28840e2..fd9b13f 100644
--- a/ink/geometry/internal/circle.cc
+++ b/ink/geometry/internal/circle.cc
@@ -41,9 +41,13 @@ void Circle::AppendArcToPolyline(Angle start, Angle arc_angle,
 
   Angle max_step_angle = GetArcAngleForChordHeight(max_chord_height);
 
+  // If `max_chord_height` is tiny relative to the radius, then `max_step_angle`
+  // may be zero; don't compute 0 / 0 for an empty arc in that case.
   int32_t steps =
-      std::clamp<float>(std::ceil(std::abs(arc_angle / max_step_angle)), 1,
-                        std::numeric_limits<int16_t>::max());
+      arc_angle == Angle()
+          ? 1
+          : std::clamp<float>(std::ceil(std::abs(arc_angle / max_step_angle)),
+                              1, std::numeric_limits<int16_t>::max());
   Angle step_angle = arc_angle / steps;
 
   // We do not call `vector::reserve` because we expect cases with multiple
-- 
2.43.0


From 3867ff763daeafc78607c3eef65ee9a9a43aa982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:20 +0000
Subject: [PATCH 19/30] fix: Don't abort when the circles to connect of two
 overlapping tip shapes contain each other

---
 ink/strokes/internal/brush_tip_extrusion.cc | 30 +++++++++++++++++++++
 ink/strokes/internal/brush_tip_shape.cc     | 20 +++++---------
 2 files changed, 36 insertions(+), 14 deletions(-)

diff --git a/ink/strokes/internal/brush_tip_extrusion.cc b/ink/strokes/internal/brush_tip_extrusion.cc
index a720bfa..667aabb 100644
--- a/ink/strokes/internal/brush_tip_extrusion.cc
+++ b/ink/strokes/internal/brush_tip_extrusion.cc
@@ -67,6 +67,23 @@ static RoundedPolygon ConstructJoinedShape(
   return RoundedPolygon(circles);
 }
 
+// Returns true if tangents exist between the circles that are connected
+// according to `indices`, once their radii are increased by `offset`.
+bool TangentsExist(const BrushTipShape& first, const BrushTipShape& second,
+                   const BrushTipShape::TangentCircleIndices& indices,
+                   float offset) {
+  auto neither_contains_other = [&](int first_index, int second_index) {
+    const Circle& a = first.PerimeterCircles()[first_index];
+    const Circle& b = second.PerimeterCircles()[second_index];
+    Circle a_with_offset(a.Center(), a.Radius() + offset);
+    Circle b_with_offset(b.Center(), b.Radius() + offset);
+    return !a_with_offset.Contains(b_with_offset) &&
+           !b_with_offset.Contains(a_with_offset);
+  };
+  return neither_contains_other(indices.left.first, indices.left.second) &&
+         neither_contains_other(indices.right.first, indices.right.second);
+}
+
 BrushTipExtrusion::TangentQuality EvaluateTangentQualityInternal(
     const BrushTipShape& first, const BrushTipShape& second) {
   if (first.Contains(second)) {
@@ -89,6 +106,13 @@ BrushTipExtrusion::TangentQuality EvaluateTangentQualityInternal(
   BrushTipShape::TangentCircleIndices indices =
       BrushTipShape::GetTangentCircleIndices(first, second);
 
+  // If the shapes overlap heavily, then one of the circles that would have to be
+  // connected may contain the other one, even though neither shape does.
+  if (!TangentsExist(first, second, indices, 0)) {
+    return BrushTipExtrusion::TangentQuality::
+        kBadTangentsJoinedShapeDoesNotCoverInputShapes;
+  }
+
   // If the first circle is immediately *clockwise* to the last circle for
   // each shape, then all circles contribute to the boundary of the joined
   // shape and there are no unused circles.
@@ -112,6 +136,12 @@ BrushTipExtrusion::TangentQuality EvaluateTangentQualityInternal(
        std::abs(second_bounds.YMin()), std::abs(second_bounds.YMax())});
   float offset = 1e-6 * max_absolute_coordinate;
 
+  // Rounding may make one circle contain the other one only with the offset.
+  if (!TangentsExist(first, second, indices, offset)) {
+    return BrushTipExtrusion::TangentQuality::
+        kBadTangentsJoinedShapeDoesNotCoverInputShapes;
+  }
+
   // Construct the joined shape, with the offset.
   RoundedPolygon joined_shape =
       ConstructJoinedShape(first, second, indices, offset);
diff --git a/ink/strokes/internal/brush_tip_shape.cc b/ink/strokes/internal/brush_tip_shape.cc
index 13a5536..5a2c072 100644
--- a/ink/strokes/internal/brush_tip_shape.cc
+++ b/ink/strokes/internal/brush_tip_shape.cc
@@ -330,12 +330,8 @@ BrushTipShape::TangentCircleIndices BrushTipShape::GetTangentCircleIndices(
         GetLeftmostTurningIndex(first.circles_[0], forward, second, -kHalfTurn);
     std::optional<int> second_right =
         GetRightmostTurningIndex(first.circles_[0], forward, second, kHalfTurn);
-    // It should be impossible for the second indices to not have a value with
-    // the relaxed threshold and limit angles. At least one perimeter circle in
-    // `second` should not be traveling backwards relative to `forward`.
-    ABSL_DCHECK(second_left.has_value());
-    ABSL_DCHECK(second_right.has_value());
-
+    // The second indices may not have a value when the shapes overlap heavily;
+    // see `BrushTipExtrusion::EvaluateTangentQuality()`.
     return TangentCircleIndices{std::make_pair(0, second_left.value_or(0)),
                                 std::make_pair(0, second_right.value_or(0))};
   }
@@ -386,10 +382,8 @@ BrushTipShape::TangentCircleIndices BrushTipShape::GetTangentCircleIndices(
     // find an index on `second`.
     std::optional<int> index_on_second = GetLeftmostTurningIndex(
         first.circles_[indices.left.first], forward, second, -kHalfTurn);
-    // It should be impossible for the second index to not have a value. At
-    // least one control point in second should not be traveling backwards from
-    // the rearmost control point in `first`.
-    ABSL_DCHECK(index_on_second.has_value());
+    // The second index may not have a value when the shapes overlap heavily;
+    // see `BrushTipExtrusion::EvaluateTangentQuality()`.
     indices.left.second = index_on_second.value_or(0);
   }
 
@@ -422,10 +416,8 @@ BrushTipShape::TangentCircleIndices BrushTipShape::GetTangentCircleIndices(
     // index on `second`.
     std::optional<int> index_on_second = GetRightmostTurningIndex(
         first.circles_[indices.right.first], forward, second, kHalfTurn);
-    // It should be impossible for the second index to not have a value. At
-    // least one control point in second should not be traveling backwards from
-    // the rearmost control point in `first`.
-    ABSL_DCHECK(index_on_second.has_value());
+    // The second index may not have a value when the shapes overlap heavily;
+    // see `BrushTipExtrusion::EvaluateTangentQuality()`.
     indices.right.second = index_on_second.value_or(0);
   }
 
-- 
2.43.0


From 376668ace5cb991db099317a8836aeb10a819b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:07 +0000
Subject: [PATCH 20/30] fix: Don't abort when geometry cleared after a break
 had vertices but no triangles added since the save point

---
 ink/strokes/internal/brush_tip_extruder/geometry.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ink/strokes/internal/brush_tip_extruder/geometry.cc b/ink/strokes/internal/brush_tip_extruder/geometry.cc
index d94e6ad..39a4ec5 100644
--- a/ink/strokes/internal/brush_tip_extruder/geometry.cc
+++ b/ink/strokes/internal/brush_tip_extruder/geometry.cc
@@ -519,6 +519,7 @@ void Geometry::ClearSinceLastExtrusionBreak() {
   // created after the save point.
   if (save_point_state_.is_active &&
       !save_point_state_.contains_all_geometry_since_last_extrusion_break &&
+      save_point_state_.n_mesh_vertices >= last_extrusion_break_.vertex_count &&
       save_point_state_.n_mesh_triangles >=
           last_extrusion_break_.triangle_count) {
     CaptureGeometrySinceLastExtrusionBreak(
-- 
2.43.0


From 3e19e3089fa5c48d05aeda61e2acdbd08263b65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:38 +0000
Subject: [PATCH 21/30] fix: Don't keep cached stroke bounds after vertices
 that contributed to them were moved

---
 ink/strokes/internal/brush_tip_extruder.cc    | 37 +++++++++++++++----
 ink/strokes/internal/brush_tip_extruder.h     |  3 ++
 .../internal/brush_tip_extruder/geometry.cc   |  9 +++++
 .../internal/brush_tip_extruder/geometry.h    |  5 +++
 4 files changed, 46 insertions(+), 8 deletions(-)

diff --git a/ink/strokes/internal/brush_tip_extruder.cc b/ink/strokes/internal/brush_tip_extruder.cc
index eef4538..5ae7fdc 100644
--- a/ink/strokes/internal/brush_tip_extruder.cc
+++ b/ink/strokes/internal/brush_tip_extruder.cc
@@ -134,6 +134,7 @@ void BrushTipExtruder::ClearCachedPartialBounds() {
   bounds_.cached_partial_bounds.Reset();
   bounds_.cached_partial_bounds_left_index_count = 0;
   bounds_.cached_partial_bounds_right_index_count = 0;
+  bounds_.cached_partial_bounds_vertex_count = 0;
 }
 
 namespace {
@@ -149,7 +150,8 @@ void AddPositionsToEnvelope(const MutableMeshView& mesh_view,
 void UpdateCachedPartialBoundsForSide(
     const MutableMeshView& mesh_view, const Side& side,
     Envelope& cached_partial_bounds,
-    uint32_t& cached_partial_bounds_side_index_count) {
+    uint32_t& cached_partial_bounds_side_index_count,
+    uint32_t& cached_partial_bounds_vertex_count) {
   ABSL_CHECK_LE(cached_partial_bounds_side_index_count, side.indices.size());
 
   auto new_indices = absl::MakeSpan(side.indices)
@@ -168,6 +170,10 @@ void UpdateCachedPartialBoundsForSide(
 
   AddPositionsToEnvelope(mesh_view, new_indices, cached_partial_bounds);
   cached_partial_bounds_side_index_count += new_indices.size();
+  for (uint32_t index : new_indices) {
+    cached_partial_bounds_vertex_count =
+        std::max(cached_partial_bounds_vertex_count, index + 1);
+  }
 }
 
 }  // namespace
@@ -180,28 +186,43 @@ void BrushTipExtruder::UpdateCachedPartialBounds() {
   // `cached_partial_bounds_right_index_count` would not be incremented. Then,
   // any positions not picked up here would be picked up later in
   // `UpdateCurrentBounds()`.
+  if (geometry_.GetMeshView().FirstMutatedVertex() <
+      bounds_.cached_partial_bounds_vertex_count) {
+    // Intersection handling has moved some of the cached vertices.
+    ClearCachedPartialBounds();
+  }
   UpdateCachedPartialBoundsForSide(
       geometry_.GetMeshView(), geometry_.LeftSide(),
       bounds_.cached_partial_bounds,
-      bounds_.cached_partial_bounds_left_index_count);
+      bounds_.cached_partial_bounds_left_index_count,
+      bounds_.cached_partial_bounds_vertex_count);
   UpdateCachedPartialBoundsForSide(
       geometry_.GetMeshView(), geometry_.RightSide(),
       bounds_.cached_partial_bounds,
-      bounds_.cached_partial_bounds_right_index_count);
+      bounds_.cached_partial_bounds_right_index_count,
+      bounds_.cached_partial_bounds_vertex_count);
 }
 
 void BrushTipExtruder::UpdateCurrentBounds() {
-  bounds_.current = bounds_.cached_partial_bounds;
+  size_t left_index_count = 0;
+  size_t right_index_count = 0;
+  bounds_.current.Reset();
+  // The cached value does not apply while volatile states have moved some of
+  // the cached vertices; they will be moved back by the next `Restore()`.
+  if (!geometry_.HasModifiedVerticesSinceSavePoint(
+          bounds_.cached_partial_bounds_vertex_count)) {
+    left_index_count = bounds_.cached_partial_bounds_left_index_count;
+    right_index_count = bounds_.cached_partial_bounds_right_index_count;
+    bounds_.current = bounds_.cached_partial_bounds;
+  }
 
   AddPositionsToEnvelope(
       geometry_.GetMeshView(),
-      absl::MakeSpan(geometry_.LeftSide().indices)
-          .subspan(bounds_.cached_partial_bounds_left_index_count),
+      absl::MakeSpan(geometry_.LeftSide().indices).subspan(left_index_count),
       bounds_.current);
   AddPositionsToEnvelope(
       geometry_.GetMeshView(),
-      absl::MakeSpan(geometry_.RightSide().indices)
-          .subspan(bounds_.cached_partial_bounds_right_index_count),
+      absl::MakeSpan(geometry_.RightSide().indices).subspan(right_index_count),
       bounds_.current);
 }
 
diff --git a/ink/strokes/internal/brush_tip_extruder.h b/ink/strokes/internal/brush_tip_extruder.h
index a153906..ca59286 100644
--- a/ink/strokes/internal/brush_tip_extruder.h
+++ b/ink/strokes/internal/brush_tip_extruder.h
@@ -121,6 +121,9 @@ class BrushTipExtruder {
     // `cached_partial_bounds`.
     uint32_t cached_partial_bounds_left_index_count = 0;
     uint32_t cached_partial_bounds_right_index_count = 0;
+    // One past the largest index of the vertices whose positions have been used
+    // to calculate `cached_partial_bounds`.
+    uint32_t cached_partial_bounds_vertex_count = 0;
     // The complete current bounding region.
     Envelope current;
   };
diff --git a/ink/strokes/internal/brush_tip_extruder/geometry.cc b/ink/strokes/internal/brush_tip_extruder/geometry.cc
index 39a4ec5..e3759d7 100644
--- a/ink/strokes/internal/brush_tip_extruder/geometry.cc
+++ b/ink/strokes/internal/brush_tip_extruder/geometry.cc
@@ -188,6 +188,15 @@ Envelope Geometry::CalculateVisuallyUpdatedRegion() const {
   return visually_mutated_region;
 }
 
+bool Geometry::HasModifiedVerticesSinceSavePoint(uint32_t vertex_count) const {
+  if (!save_point_state_.is_active) return false;
+  return absl::c_any_of(
+      save_point_state_.saved_vertices,
+      [vertex_count](const auto& index_vertex_pair) {
+        return index_vertex_pair.first < vertex_count;
+      });
+}
+
 void Geometry::RevertToSavePoint() {
   if (!save_point_state_.is_active || !mesh_.HasMeshData()) return;
 
diff --git a/ink/strokes/internal/brush_tip_extruder/geometry.h b/ink/strokes/internal/brush_tip_extruder/geometry.h
index 40a3951..786309d 100644
--- a/ink/strokes/internal/brush_tip_extruder/geometry.h
+++ b/ink/strokes/internal/brush_tip_extruder/geometry.h
@@ -158,6 +158,11 @@ class Geometry {
   // called before the last call to `RevertToSavePoint()`.
   void RevertToSavePoint();
 
+  // Returns true if there is an active save point, and any of the first
+  // `vertex_count` vertices in the mesh were modified or deleted since it was
+  // set.
+  bool HasModifiedVerticesSinceSavePoint(uint32_t vertex_count) const;
+
   void SetTextureCoordType(TextureCoordType type);
 
   // Sets whether or not to handle self-intersections. Enabled by default.
-- 
2.43.0


From 6ace68ded6c3df47b3c508158103174fbd67c866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:19 +0000
Subject: [PATCH 22/30] fix: free the texture layer when its validation fails
 in the Java binding

---
 ink/brush/internal/jni/brush_paint_jni.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ink/brush/internal/jni/brush_paint_jni.cc b/ink/brush/internal/jni/brush_paint_jni.cc
index 89ad8fd..f82b223 100644
--- a/ink/brush/internal/jni/brush_paint_jni.cc
+++ b/ink/brush/internal/jni/brush_paint_jni.cc
@@ -123,8 +123,8 @@ JNI_METHOD_INNER(brush, BrushPaint, TextureLayer, jlong,
       ink::brush_internal::ValidateBrushPaintTextureLayer(*texture_layer);
 
   if (!status.ok()) {
+    delete texture_layer;
     ink::jni::ThrowExceptionFromStatus(env, status);
-    // delete texture_layer;
     return -1;
   }
   return reinterpret_cast<jlong>(texture_layer);
-- 
2.43.0


From eab3b1d127dee0dc319b7d0959a8779a6b7e1421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:17 +0000
Subject: [PATCH 23/30] fix: initialize the attribute offsets handed to Java
 beyond the attribute count

---
 .../skia/common_internal/jni/canvas_mesh_renderer_jni.cc         | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ink/rendering/skia/common_internal/jni/canvas_mesh_renderer_jni.cc b/ink/rendering/skia/common_internal/jni/canvas_mesh_renderer_jni.cc
index 63e4162..9aca02d 100644
--- a/ink/rendering/skia/common_internal/jni/canvas_mesh_renderer_jni.cc
+++ b/ink/rendering/skia/common_internal/jni/canvas_mesh_renderer_jni.cc
@@ -67,6 +67,7 @@ JNI_METHOD(rendering_android_canvas_internal, CanvasMeshRenderer, void,
   std::array<int, MeshSpecificationData::kMaxAttributes> attribute_types;
   std::array<int, MeshSpecificationData::kMaxAttributes> attribute_offsets;
   attribute_types.fill(-1);
+  attribute_offsets.fill(-1);
   for (int i = 0; i < attributes.Size(); i++) {
     attribute_types[i] = static_cast<int>(attributes[i].type);
     attribute_offsets[i] = attributes[i].offset;
-- 
2.43.0


From c414b4cf6d9a8e4384d98a0b143950b89aabec7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:30 +0000
Subject: [PATCH 24/30] fix: compare signs instead of products in intersection
 tests

The products of small determinants underflow to zero, so that tiny segments and
triangles apart from each other were reported as intersecting.
---
 ink/geometry/internal/intersects_internal.cc | 7 ++++++-
 ink/geometry/triangle.cc                     | 7 +++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/ink/geometry/internal/intersects_internal.cc b/ink/geometry/internal/intersects_internal.cc
index 32a8a45..435d463 100644
--- a/ink/geometry/internal/intersects_internal.cc
+++ b/ink/geometry/internal/intersects_internal.cc
@@ -88,7 +88,12 @@ bool IntersectsInternal(const Segment& a, const Segment& b) {
   float v2 = Vec::Determinant(vec_a, b.end - a.start);
   float v3 = Vec::Determinant(vec_b, a.start - b.start);
   float v4 = Vec::Determinant(vec_b, a.end - b.start);
-  return v1 * v2 <= 0 && v3 * v4 <= 0;
+  // Compare the signs, rather than the sign of the products, since the product
+  // of two small values may underflow to zero.
+  auto not_same_side = [](float x, float y) {
+    return (x <= 0 && y >= 0) || (x >= 0 && y <= 0);
+  };
+  return not_same_side(v1, v2) && not_same_side(v3, v4);
 }
 bool IntersectsInternal(const Segment& a, const Triangle& b) {
   // NOMUTANTS -- Reroute to a simpler function when the Segment is Point-like.
diff --git a/ink/geometry/triangle.cc b/ink/geometry/triangle.cc
index 34e6f03..26159c6 100644
--- a/ink/geometry/triangle.cc
+++ b/ink/geometry/triangle.cc
@@ -29,7 +29,10 @@ namespace ink {
 bool Triangle::Contains(Point point) const {
   float d0 = Vec::Determinant(point - p0, p1 - p0);
   float d1 = Vec::Determinant(point - p1, p2 - p1);
-  if (d0 * d1 < 0) return false;
+  // Here and below, we compare the signs of the determinants rather than the
+  // sign of their products, since the product of two small values may underflow
+  // to zero.
+  if ((d0 < 0 && d1 > 0) || (d0 > 0 && d1 < 0)) return false;
 
   if (d0 == 0 && d1 == 0) {
     // The test point is on the same line as two segments of the triangle, which
@@ -79,7 +82,7 @@ bool Triangle::Contains(Point point) const {
   }
 
   float d2 = Vec::Determinant(point - p2, p0 - p2);
-  return (d1 * d2 >= 0) && (d0 * d2 >= 0);
+  return (d0 >= 0 && d1 >= 0 && d2 >= 0) || (d0 <= 0 && d1 <= 0 && d2 <= 0);
 }
 
 Segment Triangle::GetEdge(int index) const {
-- 
2.43.0


From f49e619186cdf7a8943b77aff2ca076c57890d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:30 +0000
Subject: [PATCH 25/30] fix: keep a missing orientation when interpolating
 modeled inputs

Interpolating normalized the kNoOrientation sentinel into an angle, so that
particles of strokes without orientation got a bogus orientation.
---
 ink/strokes/internal/brush_tip_modeler_helpers.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ink/strokes/internal/brush_tip_modeler_helpers.cc b/ink/strokes/internal/brush_tip_modeler_helpers.cc
index 8462619..db46e85 100644
--- a/ink/strokes/internal/brush_tip_modeler_helpers.cc
+++ b/ink/strokes/internal/brush_tip_modeler_helpers.cc
@@ -648,8 +648,12 @@ ModeledStrokeInput Lerp(const ModeledStrokeInput& a,
               a.elapsed_time.ToMillis(), b.elapsed_time.ToMillis(), t)),
           .pressure = geometry_internal::Lerp(a.pressure, b.pressure, t),
           .tilt = geometry_internal::Lerp(a.tilt, b.tilt, t),
-          .orientation = geometry_internal::NormalizedAngleLerp(
-              a.orientation, b.orientation, t)};
+          // `kNoOrientation` is not an angle, so it must not be normalized.
+          .orientation = a.orientation == StrokeInput::kNoOrientation ||
+                                 b.orientation == StrokeInput::kNoOrientation
+                             ? StrokeInput::kNoOrientation
+                             : geometry_internal::NormalizedAngleLerp(
+                                   a.orientation, b.orientation, t)};
 }
 
 }  // namespace ink::strokes_internal
-- 
2.43.0


From 771a3799a7576631d1bf1dbcc2be1fdd008ede76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:55 +0000
Subject: [PATCH 26/30] fix: keep the farthest of the points straight above the
 start of a convex hull

Points collinear with the start point were ordered by their horizontal
distance only, which is zero for all points straight above the start, so the
farther one could come first and be popped by the nearer one.
---
 ink/geometry/internal/convex_hull_helper.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ink/geometry/internal/convex_hull_helper.h b/ink/geometry/internal/convex_hull_helper.h
index b6e436f..38e9075 100644
--- a/ink/geometry/internal/convex_hull_helper.h
+++ b/ink/geometry/internal/convex_hull_helper.h
@@ -128,7 +128,9 @@ std::vector<typename VertexTessellationHelper::VertexType> ConvexHull(
                           GetY(rhs) - GetY(start_point)};
               float det = Vec::Determinant(lhs_vec, rhs_vec);
               return det > 0 ||
-                     (det == 0 && std::abs(lhs_vec.x) < std::abs(rhs_vec.x));
+                     (det == 0 && std::abs(lhs_vec.x) + std::abs(lhs_vec.y) <
+                                      std::abs(rhs_vec.x) +
+                                          std::abs(rhs_vec.y));
             });
 
   // Add the sorted points to the hull, removing any that form concavities.
-- 
2.43.0


From 8668acdb1d59d1aff7433a5ba16a0e640ec5ea8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:55 +0000
Subject: [PATCH 27/30] fix: keep the extreme points when pruning the input of
 a convex hull

The triangles used for pruning contain their own corners, so for more than 500
points the extreme points themselves were dropped and the hull collapsed.
---
 ink/geometry/internal/convex_hull_helper.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ink/geometry/internal/convex_hull_helper.h b/ink/geometry/internal/convex_hull_helper.h
index 38e9075..fb4cded 100644
--- a/ink/geometry/internal/convex_hull_helper.h
+++ b/ink/geometry/internal/convex_hull_helper.h
@@ -68,7 +68,12 @@ PruneUsingAkiToussaint(
   }
 
   // Points that are inside of the quadrilateral formed by the extrema will not
-  // be in the convex hull, and can be eliminated.
+  // be in the convex hull, and can be eliminated. `Triangle::Contains` includes
+  // the boundary, so points that attain an extremum have to be kept explicitly.
+  auto is_extremum = [&](const VertexType& p) {
+    return GetX(p) == GetX(min_x_point) || GetX(p) == GetX(max_x_point) ||
+           GetY(p) == GetY(min_y_point) || GetY(p) == GetY(max_y_point);
+  };
   Triangle upper_triangle{Point{GetX(min_x_point), GetY(min_x_point)},
                           Point{GetX(max_x_point), GetY(max_x_point)},
                           Point{GetX(max_y_point), GetY(max_y_point)}};
@@ -81,8 +86,8 @@ PruneUsingAkiToussaint(
   pruned_points.reserve(points.size());
   for (const auto& p : points) {
     Point test_point{GetX(p), GetY(p)};
-    if (!upper_triangle.Contains(test_point) &&
-        !lower_triangle.Contains(test_point))
+    if (is_extremum(p) || (!upper_triangle.Contains(test_point) &&
+                           !lower_triangle.Contains(test_point)))
       pruned_points.push_back(p);
   }
 
-- 
2.43.0


From 79e95eb7b1f7d87d34acbb7e63a7997a7502a268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:55 +0000
Subject: [PATCH 28/30] fix: do not crash on repeated points near the ends of a
 polyline

A segment of zero length has no projection, which failed a CHECK when it lay
within the connection distance of an endpoint.
---
 ink/geometry/internal/polyline_processing.cc | 21 ++++++++++----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/ink/geometry/internal/polyline_processing.cc b/ink/geometry/internal/polyline_processing.cc
index 0fb87f4..261d1ca 100644
--- a/ink/geometry/internal/polyline_processing.cc
+++ b/ink/geometry/internal/polyline_processing.cc
@@ -20,7 +20,6 @@
 #include <utility>
 #include <vector>
 
-#include "absl/log/absl_check.h"
 #include "absl/types/span.h"
 #include "ink/geometry/distance.h"
 #include "ink/geometry/internal/algorithms.h"
@@ -280,11 +279,11 @@ void FindBestEndpointConnections(
         if (distance < polyline.max_connection_distance &&
             distance < best_first_point_connection_length &&
             current_segment.index > 1) {
-          std::optional<float> connection_projection =
-              current_segment.segment.Project(first_point);
-          ABSL_CHECK(connection_projection.has_value());
-          float clamped_projection =
-              std::clamp(*connection_projection, 0.0f, 1.0f);
+          // The projection is undefined for a segment without length, all of
+          // whose points coincide.
+          float clamped_projection = std::clamp(
+              current_segment.segment.Project(first_point).value_or(0.0f), 0.0f,
+              1.0f);
 
           if (EndpointIsConnectable(polyline, current_segment.index,
                                     clamped_projection, distance, false)) {
@@ -319,11 +318,11 @@ void FindBestEndpointConnections(
             distance < best_last_point_connection_length &&
             current_segment.index <
                 static_cast<int>(polyline.segments.size()) - 2) {
-          std::optional<float> connection_projection =
-              current_segment.segment.Project(last_point);
-          ABSL_CHECK(connection_projection.has_value());
-          float clamped_projection =
-              std::clamp(*connection_projection, 0.0f, 1.0f);
+          // The projection is undefined for a segment without length, all of
+          // whose points coincide.
+          float clamped_projection = std::clamp(
+              current_segment.segment.Project(last_point).value_or(0.0f), 0.0f,
+              1.0f);
 
           if (EndpointIsConnectable(polyline, current_segment.index,
                                     clamped_projection, distance, true)) {
-- 
2.43.0


From 72ed930b79035f053d7b4aeb778dce1a762a2dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:55 +0000
Subject: [PATCH 29/30] fix: process polylines without segments

Zero points overflowed the reserved size, and one point dereferenced the front
of an empty vector of segments.
---
 ink/geometry/internal/polyline_processing.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ink/geometry/internal/polyline_processing.cc b/ink/geometry/internal/polyline_processing.cc
index 261d1ca..2e1bbcb 100644
--- a/ink/geometry/internal/polyline_processing.cc
+++ b/ink/geometry/internal/polyline_processing.cc
@@ -395,6 +395,9 @@ std::vector<Point> ProcessPolylineForMeshCreation(
     absl::Span<const Point> points, float min_walk_distance,
     float max_connection_distance, float min_connection_ratio,
     float min_trimming_ratio) {
+  // Without any segment there is nothing to intersect, trim, or connect.
+  if (points.size() < 2) return std::vector<Point>(points.begin(), points.end());
+
   PolylineData polyline = CreateNewPolylineData(points);
 
   polyline.min_walk_distance = min_walk_distance;
-- 
2.43.0


From 139c5e9a571367485eea88b1f402d5d30ecdd3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:30 +0000
Subject: [PATCH 30/30] fix: Keep re-triangulated area in the updated region
 when reverting Geometry

Geometry::RevertToSavePoint recorded the envelope of the triangles after the
save point only.  When triangles before the save point had been replaced since
then (ClearSinceLastExtrusionBreak followed by new vertices, or self-
intersection handling), the area of their replacements was left out of
CalculateVisuallyUpdatedRegion().
---
 ink/strokes/internal/brush_tip_extruder/geometry.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ink/strokes/internal/brush_tip_extruder/geometry.cc b/ink/strokes/internal/brush_tip_extruder/geometry.cc
index e3759d7..c283fd7 100644
--- a/ink/strokes/internal/brush_tip_extruder/geometry.cc
+++ b/ink/strokes/internal/brush_tip_extruder/geometry.cc
@@ -201,9 +201,16 @@ void Geometry::RevertToSavePoint() {
   if (!save_point_state_.is_active || !mesh_.HasMeshData()) return;
 
   // Before we mutate the mesh, Record the envelope of triangles past the start
-  // of the save point, all of which are about to be erased or changed.
+  // of the save point, all of which are about to be erased or changed. That
+  // includes triangles that replaced saved ones since the save point was set;
+  // they may use vertices that are about to be erased.
+  uint32_t first_changed_triangle = save_point_state_.n_mesh_triangles;
+  for (const auto& indices_pair : save_point_state_.saved_triangle_indices) {
+    first_changed_triangle =
+        std::min<uint32_t>(first_changed_triangle, indices_pair.first);
+  }
   envelope_of_removed_geometry_.Add(
-      EnvelopeOfTriangles(mesh_, save_point_state_.n_mesh_triangles));
+      EnvelopeOfTriangles(mesh_, first_changed_triangle));
 
   uint32_t old_vertex_count = mesh_.VertexCount();
   mesh_.Resize(save_point_state_.n_mesh_vertices,
-- 
2.43.0

