// The shape builder, analysed with recording models of the three stages it drives.
// exclude: ink/strokes/internal/(stroke_shape_builder|brush_tip|stroke_input_modeler|constrain|circular|rounded|easing)
#define INK_STROKES_INTERNAL_STROKE_INPUT_MODELER_H_
#define INK_STROKES_INTERNAL_BRUSH_TIP_MODELER_H_
#define INK_STROKES_INTERNAL_BRUSH_TIP_EXTRUDER_H_
#include <cstdint>
#include <optional>
#include <utility>
#include <vector>
#include "absl/types/span.h"
#include "specs/common.h"
#include "ink/brush/brush_coat.h"
#include "ink/brush/brush_family.h"
#include "ink/geometry/envelope.h"
#include "ink/geometry/mutable_mesh.h"
#include "ink/strokes/input/stroke_input_batch.h"
#include "ink/strokes/internal/brush_tip_state.h"
#include "ink/strokes/internal/stroke_outline.h"
#include "ink/strokes/internal/stroke_shape_update.h"
#include "ink/strokes/internal/stroke_vertex.h"
namespace ink::strokes_internal {
struct ModeledStrokeInput { int id; };
inline int g_clock = 0;   // orders the calls
class StrokeInputModeler {
 public:
  struct State { int id = 0; };
  void StartStroke(const BrushFamily::InputModel& m, float e) { model = m.index(); epsilon = e; ++started; state.id = 0; inputs.clear(); at = ++g_clock; }
  static inline StrokeInputModeler* last = nullptr;
  void ExtendStroke(const StrokeInputBatch& r, const StrokeInputBatch& p, Duration32 t) { last = this; real = r.Size(); pred = p.Size(); now = t.ToSeconds(); ++state.id; inputs.push_back({state.id}); at = ++g_clock; }
  const State& GetState() const { return state; }
  absl::Span<const ModeledStrokeInput> GetModeledInputs() const { return inputs; }
  size_t model = 9, real = 99, pred = 99; float epsilon = 0, now = -1; int started = 0, at = 0; State state; std::vector<ModeledStrokeInput> inputs;
};
inline bool g_unfinished = false;
class BrushTipModeler {
 public:
  static inline BrushTipModeler* last = nullptr;
  void StartStroke(const BrushTip* t, float s) { tip = t; size = s; last = this; ++started; at = ++g_clock; fixed.clear(); loose.clear(); }
  void UpdateStroke(const StrokeInputModeler::State& s, absl::Span<const ModeledStrokeInput> i) { last = this; seen = s.id; count = i.size(); at = ++g_clock; fixed.resize(count); loose.resize(count + 1); }
  bool HasUnfinishedTimeBehaviors(const StrokeInputModeler::State& s) const { asked = s.id; return g_unfinished; }
  absl::Span<const BrushTipState> NewFixedTipStates() const { return fixed; }
  absl::Span<const BrushTipState> VolatileTipStates() const { return loose; }
  const BrushTip* tip = nullptr; float size = 0; int started = 0, seen = -1, at = 0; size_t count = 0; mutable int asked = -1; std::vector<BrushTipState> fixed, loose;
};
// what the extruder will do next
inline int g_outlines = 1, g_empty = 0; inline Rect g_box, g_changed; inline std::optional<uint32_t> g_first_index, g_first_vertex;
class BrushTipExtruder {
 public:
  static inline BrushTipExtruder* last = nullptr;
  void StartStroke(float e, bool w, MutableMesh& m) { epsilon = e; winding = w; mesh = &m; last = this; ++started; m.Clear(); bounds.Reset(); outlines.clear(); }
  StrokeShapeUpdate ExtendStroke(absl::Span<const BrushTipState> f, absl::Span<const BrushTipState> v) {
    last = this; fixed = f; loose = v; StrokeVertex x; x.position = {float(mesh->VertexCount()), 1}; StrokeVertex::AppendToMesh(*mesh, x); bounds.Reset(); bounds.Add(g_box); outlines.clear();
    for (int i = 0; i < g_outlines; ++i) { outlines.emplace_back(); if (i == g_empty) continue; std::vector<uint32_t> l, r = {uint32_t(10 + i), uint32_t(20 + i)}; outlines.back().AppendNewIndices(l, r); }
    StrokeShapeUpdate u; u.region.Add(g_changed); u.first_index_offset = g_first_index; u.first_vertex_offset = g_first_vertex; return u;
  }
  const Envelope& GetBounds() const { return bounds; }
  absl::Span<const StrokeOutline> GetOutlines() const { return outlines; }
  float epsilon = 0; bool winding = false; MutableMesh* mesh = nullptr; int started = 0; absl::Span<const BrushTipState> fixed, loose; Envelope bounds; std::vector<StrokeOutline> outlines;
};
}

#include "ink/strokes/internal/stroke_shape_builder.cc"
using namespace ink; using namespace ink::strokes_internal;
using B = StrokeInputBatch;
namespace {
B Some(int n) { B b; for (int i = 0; i < n; ++i) { StrokeInput s; s.position = {float(i), 0}; s.elapsed_time = Duration32::Seconds(i); if (!b.Append(s).ok()) ai_stop(); } return b; }
BrushCoat Coat(float gap, float wait, int layers, BrushPaint::TextureMapping m) { BrushCoat c; c.tips.resize(1); c.tips[0].particle_gap_distance_scale = gap; c.tips[0].particle_gap_duration = Duration32::Seconds(wait); for (int i = 0; i < layers; ++i) { BrushPaint::TextureLayer l; l.mapping = m; c.paint.texture_layers.push_back(l); } return c; }
bool SameRect(Rect a, Rect b) { return a.XMin() == b.XMin() && a.YMin() == b.YMin() && a.XMax() == b.XMax() && a.YMax() == b.YMax(); }
bool Is(const Envelope& e, const Rect& r) { return !e.IsEmpty() && SameRect(*e.AsRect(), r); }
// the stages belonging to a builder, found through the mesh handed to its extruder
const BrushTipExtruder& Extruder() { return *BrushTipExtruder::last; }
const BrushTipModeler& Tips() { return *BrushTipModeler::last; }
}
PROP(build_start) {
  float size = ai_f32_in(.1, 100, "size"), eps = ai_f32_in(.01, 1, "epsilon"); bool gap = ai_bool("gap distance"), wait = ai_bool("gap duration"), wind = ai_bool("winding"), again = ai_bool("second stroke"); int layers = (int)ai_split(ai_i32(0, 2, "layers")); StrokeShapeBuilder b; BrushCoat first = Coat(1, 1, 1, BrushPaint::TextureMapping::kWinding);
  g_box = Rect::FromTwoPoints({1, 2}, {3, 4}); if (again) { b.StartStroke(BrushFamily::SpringModelV1{}, first, 3, 2); b.ExtendStroke(Some(1), B(), Duration32::Zero()); ai_assert(!b.GetOutlines().empty() == (g_outlines > 1), "outlines-listed"); g_outlines = 2; b.ExtendStroke(Some(1), B(), Duration32::Zero()); }
  BrushCoat c = Coat(gap ? ai_f32_in(.1, 2, "g") : 0, wait ? ai_f32_in(.1, 2, "w") : 0, layers, wind ? BrushPaint::TextureMapping::kWinding : BrushPaint::TextureMapping::kTiling); b.StartStroke(BrushFamily::SpringModelV2{}, c, size, eps);
  ai_assert(Tips().tip == &c.tips[0], "tip-modeler-uses-the-coats-tip"); ai_ident_f(Tips().size, size, "tip-modeler-uses-the-brush-size"); ai_ident_f(Extruder().epsilon, eps, "extruder-uses-the-brush-epsilon"); ai_assert(Extruder().winding == (layers == 1 && wind && (gap || wait)), "winding-particles-exactly-for-one-winding-layer-and-a-gap"); ai_assert(Extruder().mesh == &b.GetMesh(), "extruder-fills-the-builders-mesh");
  ai_assert(b.GetOutlines().empty() && b.GetMeshBounds().IsEmpty() && b.GetMesh().VertexCount() == 0, "starting-clears-the-previous-stroke"); ai_assert(Tips().started == 1 + again && Extruder().started == 1 + again, "stages-are-reused-and-restarted");
}
PROP(build_extend) {
  StrokeShapeBuilder b; BrushCoat c = Coat(0, 0, 0, BrushPaint::TextureMapping::kTiling); b.StartStroke(BrushFamily::SpringModelV1{}, c, 8, 2); g_outlines = (int)ai_split(ai_i32(0, 3, "outlines")); g_empty = (int)ai_split(ai_i32(0, 3, "empty outline")); bool has_i = ai_bool("indices changed"), has_v = ai_bool("vertices changed"), moved = ai_bool("moved"); uint32_t fi = ai_u32(0, 1000, "first index"), fv = ai_u32(0, 1000, "first vertex");
  StrokeShapeBuilder other; StrokeShapeBuilder* p = &b; if (moved) { other = std::move(b); p = &other; } g_first_index.reset(); g_first_vertex.reset(); if (has_i) g_first_index = fi; if (has_v) g_first_vertex = fv;
  for (int round = 1; round <= 2; ++round) {
    float f = float(round); g_box = Rect::FromTwoPoints({f, 0}, {f + 2, 5}); g_changed = Rect::FromTwoPoints({f + 1, 1}, {f + 4, 7}); StrokeShapeUpdate u = p->ExtendStroke(Some(round), Some(2 - round), Duration32::Seconds(f));
    const BrushTipModeler& t = Tips(); ai_assert(t.seen == round && t.count == size_t(round), "tips-modeled-from-the-updated-inputs"); ai_assert(Extruder().fixed.data() == t.fixed.data() && Extruder().fixed.size() == t.fixed.size() && Extruder().loose.data() == t.loose.data() && Extruder().loose.size() == t.loose.size(), "fixed-and-volatile-states-extruded"); ai_assert(Extruder().mesh == &p->GetMesh(), "extruder-still-fills-the-builders-mesh"); ai_assert(p->GetMesh().VertexCount() == uint32_t(round), "geometry-is-in-the-mesh");
    ai_assert(Is(p->GetMeshBounds(), g_box), "mesh-bounds-are-the-current-bounds"); ai_assert(Is(u.region, g_changed), "update-region-is-the-extruders"); ai_assert(u.first_index_offset.has_value() == has_i && u.first_vertex_offset.has_value() == has_v, "update-offsets-are-the-extruders"); if (has_i) ai_ident_i(*u.first_index_offset, fi, "update-offsets-are-the-extruders"); if (has_v) ai_ident_i(*u.first_vertex_offset, fv, "update-offsets-are-the-extruders");
    auto o = p->GetOutlines(); size_t k = 0; for (int i = 0; i < g_outlines; ++i) { if (i == g_empty) continue; ai_assert(k < o.size(), "every-non-empty-outline-in-order"); if (k >= o.size()) ai_stop(); ai_assert(o[k].size() == 2 && o[k][0] == uint32_t(20 + i) && o[k][1] == uint32_t(10 + i), "every-non-empty-outline-in-order"); ++k; } ai_assert(o.size() == k, "no-other-outlines");
  }
}
PROP(build_inputs) {   // what the first stage is told, seen through what the later stages are told
  StrokeShapeBuilder b; BrushCoat c = Coat(0, 0, 0, BrushPaint::TextureMapping::kTiling); b.StartStroke(BrushFamily::SpringModelV2{}, c, 8, 2); float now = ai_f32_in(0, 1e6, "now"); int r = (int)ai_split(ai_i32(0, 2, "real")), q = (int)ai_split(ai_i32(0, 2, "predicted")); b.ExtendStroke(Some(r), Some(q), Duration32::Seconds(now)); const StrokeInputModeler& m = *StrokeInputModeler::last; const BrushTipModeler& t = Tips(); ai_assert(m.at < t.at, "inputs-modeled-before-tips"); ai_assert(m.real == size_t(r) && m.pred == size_t(q), "real-and-predicted-inputs-passed-on"); ai_ident_f(m.now, now, "time-passed-on"); ai_assert(m.started == 1 && m.model == BrushFamily::InputModel(BrushFamily::SpringModelV2{}).index() && m.epsilon == 2, "input-modeler-started");
}
PROP(build_unfinished) { StrokeShapeBuilder b; bool started = ai_bool("started"), u = ai_bool("unfinished"); g_unfinished = u; BrushCoat c = Coat(0, 0, 0, BrushPaint::TextureMapping::kTiling); if (started) { b.StartStroke(BrushFamily::SpringModelV1{}, c, 8, 2); b.ExtendStroke(Some(1), B(), Duration32::Zero()); } ai_assert(b.HasUnfinishedTimeBehaviors() == (started && u), "unfinished-exactly-when-the-tip-is"); if (started) ai_assert(Tips().asked == 1, "asks-about-the-current-inputs"); }
PROP(build_tips) { ai_opt("allow-check-failure"); int n = (int)ai_split(ai_i32(0, 2, "tips")); BrushCoat c; c.tips.resize(n); StrokeShapeBuilder b; b.StartStroke(BrushFamily::SpringModelV1{}, c, 8, 2); ai_assert(n == 1, "exactly-one-tip"); ai_reach("reach-started"); }
// ---- the update record
PROP(update_add) {
  bool h[4]; uint32_t v[4]; for (int i = 0; i < 4; ++i) { h[i] = ai_bool("has"); v[i] = ai_u32(0, 0xffffffffu, "offset"); } bool ea = ai_bool("empty"), eb = ai_bool("other empty"); StrokeShapeUpdate a, b; if (h[0]) a.first_index_offset = v[0]; if (h[1]) a.first_vertex_offset = v[1]; if (h[2]) b.first_index_offset = v[2]; if (h[3]) b.first_vertex_offset = v[3]; if (!ea) a.region.Add(Rect::FromTwoPoints({0, 0}, {2, 3})); if (!eb) b.region.Add(Rect::FromTwoPoints({1, -4}, {5, 1})); a.Add(b);
  ai_assert(a.first_index_offset.has_value() == (h[0] || h[2]) && a.first_vertex_offset.has_value() == (h[1] || h[3]), "an-offset-exactly-when-either-has-one");
  if (h[0] && h[2]) { if (v[0] <= v[2]) { ai_ident_i(*a.first_index_offset, v[0], "smaller-offset-wins"); } else { ai_ident_i(*a.first_index_offset, v[2], "smaller-offset-wins"); } } else if (h[0]) ai_ident_i(*a.first_index_offset, v[0], "only-offset-kept"); else if (h[2]) ai_ident_i(*a.first_index_offset, v[2], "only-offset-kept");
  if (h[1] && h[3]) { if (v[1] <= v[3]) { ai_ident_i(*a.first_vertex_offset, v[1], "smaller-offset-wins"); } else { ai_ident_i(*a.first_vertex_offset, v[3], "smaller-offset-wins"); } } else if (h[1]) ai_ident_i(*a.first_vertex_offset, v[1], "only-offset-kept"); else if (h[3]) ai_ident_i(*a.first_vertex_offset, v[3], "only-offset-kept");
  ai_assert(a.region.IsEmpty() == (ea && eb), "regions-joined"); if (!ea && !eb) ai_assert(Is(a.region, Rect::FromTwoPoints({0, -4}, {5, 3})), "regions-joined"); else if (!ea) ai_assert(Is(a.region, Rect::FromTwoPoints({0, 0}, {2, 3})), "regions-joined"); else if (!eb) ai_assert(Is(a.region, Rect::FromTwoPoints({1, -4}, {5, 1})), "regions-joined");
}
// ---- outlines: right side backwards, then left side, however they were built up
namespace {
struct Lists { std::vector<uint32_t> l, r; };
void OutStep(StrokeOutline& o, Lists& m, int op, uint32_t& next) {
  auto put = [&](int l, int r) { std::vector<uint32_t> a, b; for (int i = 0; i < l; ++i) { a.push_back(next); m.l.push_back(next++); } for (int i = 0; i < r; ++i) { b.push_back(next); m.r.push_back(next++); } o.AppendNewIndices(a, b); };
  auto cut = [&](size_t l, size_t r) { o.TruncateIndices({l, r}); if (m.l.size() > l) m.l.resize(l); if (m.r.size() > r) m.r.resize(r); };
  switch (op) { case 0: put(1, 0); break; case 1: put(0, 2); break; case 2: put(3, 1); break; case 3: put(0, 0); break; case 4: cut(1, 9); break; case 5: cut(9, 1); break; case 6: cut(0, 0); break; case 7: { StrokeOutline t = std::move(o); o = std::move(t); break; } case 8: put(6, 5); break; default: break; }
  auto got = o.GetIndices(); ai_assert(o.GetIndexCounts().left == m.l.size() && o.GetIndexCounts().right == m.r.size() && got.size() == m.l.size() + m.r.size(), "outline-counts"); if (got.size() != m.l.size() + m.r.size()) ai_stop(); size_t n = m.r.size(); for (size_t i = 0; i < n; ++i) ai_assert(got[i] == m.r[n - 1 - i], "right-side-last-to-first"); for (size_t i = 0; i < m.l.size(); ++i) ai_assert(got[n + i] == m.l[i], "left-side-first-to-last");
}
int Op() { return (int)ai_split(ai_i32(0, 8, "operation")); }
#ifdef AI_THOROUGH
constexpr int kDepth = 4;
#else
constexpr int kDepth = 3;
#endif
void Run(int a) { StrokeOutline o; Lists m; uint32_t next = 1; ai_assert(o.GetIndices().empty(), "starts-empty"); OutStep(o, m, a, next); for (int i = 1; i < kDepth; ++i) OutStep(o, m, Op(), next); }
}
PROP(outline_left) { Run(0); } PROP(outline_right) { Run(1); } PROP(outline_both) { Run(2); } PROP(outline_many) { Run(8); } PROP(outline_nothing) { StrokeOutline o; Lists m; uint32_t next = 1; int a = Op(); OutStep(o, m, a, next); OutStep(o, m, Op(), next); }
PROP(outline_long) { StrokeOutline o; Lists m; uint32_t next = 1; OutStep(o, m, 8, next); OutStep(o, m, 2, next); OutStep(o, m, 4, next); for (int i = 1; i < kDepth; ++i) OutStep(o, m, Op(), next); }
