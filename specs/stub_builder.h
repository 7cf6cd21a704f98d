// Environment model of StrokeShapeBuilder for analysing its users: records what it is asked to do and hands out a small mesh that tells how much it was given.
#pragma once
#ifdef INK_STROKES_INTERNAL_STROKE_SHAPE_BUILDER_H_
#error "the model must come before the real header"
#endif
#define INK_STROKES_INTERNAL_STROKE_SHAPE_BUILDER_H_
#include <array>
#include <vector>
#include "absl/types/span.h"
#include "ink/brush/brush_coat.h"
#include "ink/brush/brush_family.h"
#include "ink/geometry/envelope.h"
#include "ink/geometry/mutable_mesh.h"
#include "ink/geometry/rect.h"
#include "ink/strokes/input/stroke_input_batch.h"
#include "ink/strokes/internal/stroke_outline.h"
#include "ink/strokes/internal/stroke_shape_update.h"
#include "ink/strokes/internal/stroke_vertex.h"
#include "ink/types/duration.h"
namespace ink::strokes_internal {
inline int g_started = 0, g_extended = 0;   // calls so far
inline int g_more_outlines = 0, g_extra_vertices = 0;   // shapes of the meshes handed out
inline std::vector<std::array<uint32_t, 3>> g_more_triangles;
class StrokeShapeBuilder {
  MutableMesh mesh_;   // first, so that Of can find the builder of a mesh
 public:
  static const StrokeShapeBuilder& Of(const MutableMesh& m) { return *reinterpret_cast<const StrokeShapeBuilder*>(&m); }
  StrokeShapeBuilder() : mesh_(StrokeVertex::FullMeshFormat()) {}
  StrokeShapeBuilder(const StrokeShapeBuilder&) = delete; StrokeShapeBuilder& operator=(const StrokeShapeBuilder&) = delete;
  StrokeShapeBuilder(StrokeShapeBuilder&&) = default; StrokeShapeBuilder& operator=(StrokeShapeBuilder&&) = default;
  void StartStroke(const BrushFamily::InputModel& model, const BrushCoat& coat, float size, float epsilon) {
    ++g_started; coat_ = &coat; model_ = model.index(); size_ = size; epsilon_ = epsilon; real_.clear(); pred_.clear(); elapsed_ = -1; extended_ = 0; Fill();
  }
  StrokeShapeUpdate ExtendStroke(const StrokeInputBatch& real, const StrokeInputBatch& predicted, Duration32 now) {
    ++g_extended; ++extended_; for (size_t i = 0; i < real.Size(); ++i) real_.push_back(real.Get(i).position.x); pred_.clear(); for (size_t i = 0; i < predicted.Size(); ++i) pred_.push_back(predicted.Get(i).position.x); elapsed_ = now.ToSeconds(); Fill(); StrokeShapeUpdate u; u.region = bounds_; return u;
  }
  bool HasUnfinishedTimeBehaviors() const { return coat_ != nullptr && coat_->tips[0].pinch == 0.5f; }
  const MutableMesh& GetMesh() const { return mesh_; }
  const Envelope& GetMeshBounds() const { return bounds_; }
  absl::Span<const absl::Span<const uint32_t>> GetOutlines() const { return outlines_; }
  // what was asked
  const BrushCoat* coat_ = nullptr; size_t model_ = 99; float size_ = 0, epsilon_ = 0, elapsed_ = -1; int extended_ = 0; std::vector<float> real_, pred_;
 private:
  void Fill() {
    mesh_.Clear(); bounds_.Reset(); outlines_.clear(); if (real_.empty() && pred_.empty()) return;
    float x = float(real_.size()), y = float(pred_.size()); if (coat_ != nullptr) x += 100 * coat_->tips[0].scale.x; StrokeVertex v; v.non_position_attributes.surface_uv = {0.5f, coat_ != nullptr && coat_->tips[0].pinch == 0.75f ? 2.f : 0.5f}; v.position = {x, y}; StrokeVertex::AppendToMesh(mesh_, v); v.position = {x + 1, y}; StrokeVertex::AppendToMesh(mesh_, v); v.position = {x, y + 1}; StrokeVertex::AppendToMesh(mesh_, v); mesh_.AppendTriangleIndices({0, 1, 2});
    bounds_.Add(Rect::FromTwoPoints({x, y}, {x + 1, y + 1})); index_ = {2, 0, 1}; outlines_ = {absl::Span<const uint32_t>(index_)};
    if (g_more_outlines) { second_ = {1, 2}; outlines_ = {absl::Span<const uint32_t>(), absl::Span<const uint32_t>(index_), absl::Span<const uint32_t>(), absl::Span<const uint32_t>(second_)}; }
    for (auto& t : g_more_triangles) mesh_.AppendTriangleIndices(t);
    for (int i = 0; i < g_extra_vertices; ++i) mesh_.AppendVertex(v.position);
  }
  Envelope bounds_; std::vector<uint32_t> index_, second_; std::vector<absl::Span<const uint32_t>> outlines_;
};
}  // namespace ink::strokes_internal
