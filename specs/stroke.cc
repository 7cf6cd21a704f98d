// Strokes and in-progress strokes, analysed with a model of the shape builder.
// exclude: ink/strokes/internal/(stroke_shape_builder|brush_tip|stroke_input_modeler|constrain|circular|rounded|easing)
#define ABSL_HAVE_THREAD_LOCAL 1
#include "specs/stub_builder.h"
#include "specs/common.h"
#include "ink/strokes/stroke.cc"
#include "ink/strokes/in_progress_stroke.cc"
using namespace ink;
using strokes_internal::StrokeShapeBuilder; using strokes_internal::g_started; using strokes_internal::g_extended;
using B = StrokeInputBatch; using V = std::vector<float>;
namespace {
BrushCoat Coat(float id, float pinch = 0, float scale_y = 1) { BrushCoat c; c.tips.resize(1); c.tips[0].scale = {id, scale_y}; c.tips[0].pinch = pinch; return c; }
BrushFamily Family(const std::vector<BrushCoat>& c, bool v2 = false) { auto f = v2 ? BrushFamily::Create(c, "", BrushFamily::SpringModelV2{}) : BrushFamily::Create(c, ""); if (!f.ok()) ai_stop(); return *f; }
Brush Make(int coats, float pinch = 0, float size = 10, float eps = 2, bool v2 = false) { std::vector<BrushCoat> c; for (int i = 0; i < coats; ++i) c.push_back(Coat(float(i + 1), i == coats - 1 ? pinch : 0)); auto b = Brush::Create(Family(c, v2), Color::Blue(), size, eps); if (!b.ok()) ai_stop(); return *b; }
Uri Texture() { auto u = Uri::Parse("/texture:x"); if (!u.ok()) ai_stop(); return *u; }
StrokeInput At(float x, float t) { StrokeInput i; i.tool_type = StrokeInput::ToolType::kStylus; i.position = {x, 0}; i.elapsed_time = Duration32::Seconds(t); return i; }
B Batch(float first, int n, float t) { B b; for (int i = 0; i < n; ++i) if (!b.Append(At(first + i, t + i)).ok()) ai_stop(); return b; }
bool Holds(const B& b, const V& want) { if (b.Size() != want.size()) return false; for (size_t i = 0; i < want.size(); ++i) if (b.Get(i).position.x != want[i]) return false; return true; }
bool SameRect(Rect a, Rect b) { return a.XMin() == b.XMin() && a.YMin() == b.YMin() && a.XMax() == b.XMax() && a.YMax() == b.YMax(); }
Rect Want(const V& real, const V& pred, int coat) { float x = real.size() + 100 * (coat + 1), y = pred.size(); return Rect::FromTwoPoints({x, y}, {x + 1, y + 1}); }
}
// ---- in-progress strokes
namespace {
struct Model { int coats = 0; float pinch = 0, size = 10; bool started = false, finished = true; V qr, qp, pr, pp; float next = 0, now = 0; Envelope region; };
V Join(V a, const V& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
void Agree(const InProgressStroke& s, const Model& m) {
  ai_assert((s.GetBrush() != nullptr) == m.started && s.BrushCoatCount() == uint32_t(m.coats), "brush-and-coat-count"); ai_assert(s.InputsAreFinished() == m.finished, "inputs-finished");
  ai_assert(s.InputCount() == m.pr.size() + m.pp.size() && s.RealInputCount() == m.pr.size() && s.PredictedInputCount() == m.pp.size(), "input-counts"); ai_assert(Holds(s.GetInputs(), Join(m.pr, m.pp)), "inputs-are-real-then-current-predictions");
  bool unfin = m.started && m.pinch != 0 && m.coats > 0; ai_assert(s.NeedsUpdate() == (unfin || !m.qr.empty() || !m.qp.empty() || (m.finished && !m.pp.empty())), "needs-update");
  const Envelope& u = s.GetUpdatedRegion(); ai_assert(u.IsEmpty() == m.region.IsEmpty() && (u.IsEmpty() || SameRect(*u.AsRect(), *m.region.AsRect())), "updated-region");
  if (!m.started) return; ai_assert(s.GetBrush()->GetSize() == m.size && s.GetBrush()->GetCoats()[m.coats - 1].tips[0].pinch == m.pinch, "current-brush");
  for (int i = 0; i < m.coats; ++i) { const StrokeShapeBuilder& b = StrokeShapeBuilder::Of(s.GetMesh(i)); ai_assert(b.coat_ == &s.GetBrush()->GetCoats()[i] && b.size_ == m.size && b.epsilon_ == 2 && b.model_ == s.GetBrush()->GetFamily().GetInputModel().index(), "each-coat-built-from-its-own-tips"); ai_assert(b.real_ == m.pr && b.pred_ == m.pp, "geometry-reflects-exactly-the-inputs"); if (b.extended_) ai_assert(b.elapsed_ == m.now, "geometry-time");
    ai_assert(&s.GetMeshBounds(i) == &b.GetMeshBounds() && s.GetCoatOutlines(i).data() == b.GetOutlines().data(), "coat-geometry"); ai_assert((s.GetMesh(i).TriangleCount() != 0) == !(m.pr.empty() && m.pp.empty()), "geometry-exists-exactly-with-inputs"); }
}
void Begin(InProgressStroke& s, Model& m, int coats, float pinch, float size) { s.Start(Make(coats, pinch, size, 2, coats == 2)); m = Model(); m.started = true; m.finished = false; m.coats = coats; m.pinch = pinch; m.size = size; }
void Enqueue(InProgressStroke& s, Model& m, int real, int pred) {
  B r = Batch(m.next, real, m.next), p = Batch(1000 + m.next, pred, m.next + real); bool ok = m.started && !m.finished; ai_assert(s.EnqueueInputs(r, p).ok() == ok, "enqueue-succeeds-exactly-while-inputs-are-open"); if (!ok) return;
  for (int i = 0; i < real; ++i) m.qr.push_back(m.next + i); m.next += real; m.qp.clear(); for (int i = 0; i < pred; ++i) m.qp.push_back(1000 + m.next - real + i);
}
void Update(InProgressStroke& s, Model& m, float now) {
  bool ok = m.started && now >= 0 && now >= m.now; ai_assert(s.UpdateShape(Duration32::Seconds(now)).ok() == ok, "update-succeeds-exactly-with-non-decreasing-time"); if (!ok) return;
  m.now = now; m.pr = Join(m.pr, m.qr); m.pp = m.qp; m.qr.clear(); m.qp.clear(); if (!m.pr.empty() || !m.pp.empty()) for (int i = 0; i < m.coats; ++i) m.region.Add(Want(m.pr, m.pp, i));
}
void Step(InProgressStroke& s, Model& m, int op) {
  switch (op) {
    case 0: Begin(s, m, 1, 0, 10); break;
    case 1: Begin(s, m, 2, 0.5f, 20); break;
    case 2: s.Clear(); m = Model(); break;
    case 3: Enqueue(s, m, 2, 0); break;
    case 4: Enqueue(s, m, 0, 1); break;
    case 5: Enqueue(s, m, 1, 2); break;
    case 6: s.FinishInputs(); m.finished = true; m.qp.clear(); break;
    case 7: Update(s, m, m.now + 1); break;
    case 8: Update(s, m, m.now - 1); break;
    case 9: Enqueue(s, m, 0, 0); break;
    case 10: { InProgressStroke t = std::move(s); s = std::move(t); break; }
    case 11: s.ResetUpdatedRegion(); m.region.Reset(); break;
    default: break;
  }
  Agree(s, m);
}
int Op() { return (int)ai_split(ai_i32(0, 11, "operation")); }
#ifdef AI_THOROUGH
constexpr int kDepth = 4;
#else
constexpr int kDepth = 3;
#endif
void Run(int first) { InProgressStroke s; Model m; Agree(s, m); Begin(s, m, 1, 0, 10); Agree(s, m); Step(s, m, first); for (int i = 1; i < kDepth; ++i) Step(s, m, Op()); }
}
PROP(wet_start_one) { Run(0); } PROP(wet_start_two) { Run(1); } PROP(wet_clear) { Run(2); } PROP(wet_enqueue_real) { Run(3); } PROP(wet_enqueue_predicted) { Run(4); } PROP(wet_enqueue_both) { Run(5); } PROP(wet_finish) { Run(6); } PROP(wet_update) { Run(7); } PROP(wet_update_back) { Run(8); } PROP(wet_enqueue_nothing) { Run(9); } PROP(wet_move) { Run(10); } PROP(wet_reset_region) { Run(11); }
PROP(wet_not_started) { InProgressStroke s; Model m; for (int i = 0; i < 2; ++i) Step(s, m, Op()); }
// enqueue, update, then anything twice more (and one more in thorough runs)
PROP(wet_drawn_real) { InProgressStroke s; Model m; Begin(s, m, 2, 0, 10); Step(s, m, 3); Step(s, m, 7); for (int i = 1; i < kDepth; ++i) Step(s, m, Op()); }
PROP(wet_drawn_both) { InProgressStroke s; Model m; Begin(s, m, 2, 0, 10); Step(s, m, 5); Step(s, m, 7); for (int i = 1; i < kDepth; ++i) Step(s, m, Op()); }
PROP(wet_drawn_predicted) { InProgressStroke s; Model m; Begin(s, m, 1, 0.5f, 10); Step(s, m, 4); Step(s, m, 7); for (int i = 1; i < kDepth; ++i) Step(s, m, Op()); }
PROP(wet_reuse) { InProgressStroke s; Model m; Begin(s, m, 2, 0.5f, 10); Step(s, m, 5); Step(s, m, 7); Step(s, m, 6); Step(s, m, ai_bool("restart") ? 0 : 2); for (int i = 1; i < kDepth; ++i) Step(s, m, Op()); }
PROP(wet_elapsed_time) { InProgressStroke s; float a = NonNan("first"), b = NonNan("second"); bool in = ai_bool("inputs"); s.Start(Make(1)); if (in && !s.EnqueueInputs(Batch(0, 1, 0), B()).ok()) ai_stop(); size_t n = in ? 1 : 0; if (a >= 0) { ai_assert(s.UpdateShape(Duration32::Seconds(a)).ok(), "non-negative-time-accepted"); int k = g_extended; if (b >= a) { ai_assert(s.UpdateShape(Duration32::Seconds(b)).ok() && g_extended == k + 1, "non-decreasing-time-accepted"); ai_ident_f(StrokeShapeBuilder::Of(s.GetMesh(0)).elapsed_, b, "geometry-time"); } else { ai_assert(!s.UpdateShape(Duration32::Seconds(b)).ok() && g_extended == k, "decreasing-time-rejected"); ai_ident_f(StrokeShapeBuilder::Of(s.GetMesh(0)).elapsed_, a, "geometry-time"); } ai_assert(s.InputCount() == n, "inputs-processed-once"); } else { int k = g_extended; ai_assert(!s.UpdateShape(Duration32::Seconds(a)).ok() && g_extended == k && s.InputCount() == 0 && s.NeedsUpdate() == in, "negative-time-rejected"); } }
// Whatever the last real input is, wherever it waits, the first new input must continue it, and predictions must continue the new real inputs.
PROP(wet_sequence) {
  float t0 = ai_f32_in(0, 1e6, "last"), t1 = ai_f32_in(0, 1e6, "new"); int where = (int)ai_split(ai_i32(0, 6, "last input")), kind = (int)ai_split(ai_i32(0, 1, "new input")); InProgressStroke s; s.Start(Make(1)); B last, next, extra; if (!last.Append(At(3, t0)).ok() || !next.Append(At(7, t1)).ok() || !extra.Append(At(5, 0)).ok()) ai_stop(); bool early = t0 <= t1;
  if (where >= 4) { ai_assert(s.EnqueueInputs(extra, B()).ok(), "first-input-accepted"); if (where != 5 && !s.UpdateShape(Duration32::Zero()).ok()) ai_stop(); }
  bool old = where != 3; if (old) ai_assert(s.EnqueueInputs(last, B()).ok(), "first-input-accepted"); if ((where == 1 || where == 6) && !s.UpdateShape(Duration32::Seconds(0)).ok()) ai_stop(); if (where == 2) { B p; if (!p.Append(At(9, 2e6f)).ok() || !s.EnqueueInputs(B(), p).ok() || !s.UpdateShape(Duration32::Zero()).ok()) ai_stop(); }
  size_t n = s.InputCount(); bool need = s.NeedsUpdate(); bool ok = kind == 0 ? s.EnqueueInputs(next, B()).ok() : s.EnqueueInputs(B(), next).ok(); ai_assert(ok == (early || !old), "continues-the-last-real-input"); ai_assert(s.InputCount() == n && s.NeedsUpdate() == (need || ok), "rejected-inputs-change-nothing");
}
PROP(wet_sequence_both) { float t0 = ai_f32_in(0, 1e6, "real"), t1 = ai_f32_in(0, 1e6, "predicted"); bool early = t0 <= t1; InProgressStroke s; s.Start(Make(1)); B r, p, q; if (!r.Append(At(3, t0)).ok() || !p.Append(At(7, t1)).ok()) ai_stop(); ai_assert(s.EnqueueInputs(r, p).ok() == early && s.NeedsUpdate() == early, "predictions-continue-new-real-inputs"); if (early) return; ai_assert(s.UpdateShape(Duration32::Zero()).ok() && s.InputCount() == 0, "rejected-inputs-change-nothing"); }
PROP(wet_format) {
  int k = (int)ai_split(ai_i32(0, 4, "difference")), how = (int)ai_split(ai_i32(0, 3, "place")); InProgressStroke s; s.Start(Make(1)); StrokeInput a = At(0, 0), b = At(1, 1); a.pressure = b.pressure = 0.5f; a.tilt = b.tilt = a.orientation = b.orientation = Angle::Radians(0.5f); a.stroke_unit_length = b.stroke_unit_length = PhysicalDistance::Centimeters(1); switch (k) { case 0: b.tool_type = StrokeInput::ToolType::kTouch; break; case 1: b.pressure = -1; break; case 2: b.tilt = StrokeInput::kNoTilt; break; case 3: b.orientation = StrokeInput::kNoOrientation; break; default: b.stroke_unit_length = PhysicalDistance::Centimeters(2); }
  B x, y; if (!x.Append(a).ok() || !y.Append(b).ok()) ai_stop(); if (how == 0) { ai_assert(!s.EnqueueInputs(x, y).ok() && !s.NeedsUpdate(), "predictions-keep-the-format"); return; } ai_assert(s.EnqueueInputs(how == 3 ? B() : x, how == 3 ? x : B()).ok(), "first-input-accepted"); if (how != 1 && !s.UpdateShape(Duration32::Zero()).ok()) ai_stop(); bool pred = ai_bool("predicted"); ai_assert(s.EnqueueInputs(pred ? B() : y, pred ? y : B()).ok() == (how == 3), how == 3 ? "predictions-set-no-format" : "inputs-keep-the-format");
}
PROP(wet_queue_keeps_order) { InProgressStroke s; s.Start(Make(1)); int n = (int)ai_split(ai_i32(1, 3, "calls")); for (int i = 0; i < n; ++i) if (!s.EnqueueInputs(Batch(2 * i, 2, 2 * i), Batch(100 + i, 1, 50)).ok()) ai_stop(); ai_assert(s.InputCount() == 0 && s.GetInputs().IsEmpty(), "queued-inputs-are-not-yet-processed"); if (!s.UpdateShape(Duration32::Seconds(1)).ok()) ai_stop(); V w; for (int i = 0; i < 2 * n; ++i) w.push_back(i); w.push_back(100 + n - 1); ai_assert(Holds(s.GetInputs(), w) && s.RealInputCount() == size_t(2 * n), "last-prediction-wins"); }
PROP(wet_coat_index) { ai_opt("allow-check-failure"); InProgressStroke s; int n = (int)ai_split(ai_i32(0, 2, "coats")); if (n) s.Start(Make(n)); uint32_t i = ai_u32(0, 0xFFFFFFFFu, "coat"); if (i < uint32_t(n)) { if (i == 0) { s.GetMesh(0); ai_reach("reach-coat"); } ai_stop(); } switch (ai_split(ai_i32(0, 2, "call"))) { case 0: s.GetMesh(i); break; case 1: s.GetMeshBounds(i); break; default: s.GetCoatOutlines(i); } ai_assert(false, "never-reads-past-the-coats"); }
// ---- copying an in-progress stroke
namespace {
using RA = InProgressStroke::RetainAttributes;
void HasShape(const PartitionedMesh& p, const V& real, const V& pred, int coats, const char* id) { ai_assert(p.RenderGroupCount() == uint32_t(coats), "one-render-group-per-coat"); if (p.RenderGroupCount() != uint32_t(coats)) return; bool some = !real.empty() || !pred.empty(); for (int i = 0; i < coats; ++i) { auto m = p.RenderGroupMeshes(i); ai_assert(m.size() == (some ? 1 : 0) && p.OutlineCount(i) == (some ? 1 : 0), id); if (m.size() != 1) continue; ai_assert(m[0].TriangleCount() == 1 && m[0].VertexCount() == 3, id); Rect w = Want(real, pred, i); auto e = m[0].Bounds().AsRect(); ai_assert(e && std::abs(e->XMin() - w.XMin()) < 0.01f && std::abs(e->YMin() - w.YMin()) < 0.01f && std::abs(e->XMax() - w.XMax()) < 0.01f && std::abs(e->YMax() - w.YMax()) < 0.01f, id); if (p.OutlineCount(i) == 1) ai_assert(p.OutlineVertexCount(i, 0) == 3 && p.OutlinePosition(i, 0, 1).x < w.XMin() + 0.5f && p.OutlinePosition(i, 0, 0).y > w.YMin() + 0.5f, id); } }
}
PROP(copy_stroke) {
  InProgressStroke s; int coats = (int)ai_split(ai_i32(0, 2, "coats")), n = (int)ai_split(ai_i32(0, 2, "real")), p = (int)ai_split(ai_i32(0, 1, "predicted")); bool queued = ai_bool("queued more"); s.Start(Make(coats)); B r = Batch(0, n, 0), q = Batch(50, p, 10); V vr, vp; for (int i = 0; i < n; ++i) vr.push_back(i); for (int i = 0; i < p; ++i) vp.push_back(50); if (!s.EnqueueInputs(r, q).ok() || !s.UpdateShape(Duration32::Seconds(1)).ok()) ai_stop(); if (queued && !s.EnqueueInputs(Batch(70, 1, 20), B()).ok()) ai_stop();
  Stroke c = s.CopyToStroke(ai_bool("used") ? RA::kUsedByThisBrush : RA::kAll); ai_assert(Holds(c.GetInputs(), Join(vr, vp)), "copies-processed-inputs"); ai_assert(c.GetBrush().GetSize() == 10 && c.GetBrush().GetEpsilon() == 2 && c.GetBrush().CoatCount() == uint32_t(coats) && c.GetBrush().GetColor() == Color::Blue(), "copies-the-brush"); HasShape(c.GetShape(), vr, vp, coats, "copies-the-geometry");
  Stroke d = s.CopyToStroke(); if (!s.EnqueueInputs(Batch(90, 1, 30), B()).ok() || !s.UpdateShape(Duration32::Seconds(2)).ok()) ai_stop(); s.Start(Make(1)); ai_assert(Holds(c.GetInputs(), Join(vr, vp)) && Holds(d.GetInputs(), Join(vr, vp)), "copies-are-independent"); HasShape(c.GetShape(), vr, vp, coats, "copies-are-independent"); c.SetInputs(B()); ai_assert(Holds(d.GetInputs(), Join(vr, vp)), "copies-are-independent");
}
PROP(copy_attributes) {
  using A = MeshFormat::AttributeId; int color = (int)ai_split(ai_i32(0, 1, "coat with color")), wind = (int)ai_split(ai_i32(0, 1, "coat with winding")); std::vector<BrushCoat> c{Coat(1), Coat(2)}; c[color].tips[0].behaviors.resize(1); c[color].tips[0].behaviors[0].nodes = {BrushBehavior::ConstantNode{1}, BrushBehavior::TargetNode{BrushBehavior::Target::kLuminosity, {0, 1}}}; c[wind].paint.texture_layers.resize(1); auto& l = c[wind].paint.texture_layers[0]; l.color_texture_uri = Texture(); l.mapping = BrushPaint::TextureMapping::kWinding; auto b = Brush::Create(Family(c), Color::Blue(), 10, 2); if (!b.ok()) ai_stop();
  InProgressStroke s; s.Start(*b); if (!s.EnqueueInputs(Batch(0, 1, 0), B()).ok() || !s.UpdateShape(Duration32::Zero()).ok()) ai_stop(); bool all = ai_bool("all"); Stroke k = s.CopyToStroke(all ? RA::kAll : RA::kUsedByThisBrush); auto full = strokes_internal::StrokeVertex::FullMeshFormat().Attributes();
  for (int i = 0; i < 2; ++i) { auto got = k.GetShape().RenderGroupFormat(i).Attributes(); size_t at = 0; for (auto a : full) { bool need = all || (a.id == A::kColorShiftHsl ? i == color : a.id == A::kSurfaceUv ? i == wind : true); if (!need) continue; ai_assert(at < got.size() && got[at].id == a.id && got[at].type == a.type, "keeps-exactly-the-needed-attributes"); ++at; } ai_assert(at == got.size(), "keeps-exactly-the-needed-attributes"); }
}
PROP(copy_needs_start) { ai_opt("allow-check-failure"); InProgressStroke s; if (ai_bool("cleared")) { s.Start(Make(1)); s.Clear(); } s.CopyToStroke(); ai_assert(false, "never-copies-before-start"); }
// ---- strokes
namespace {
Stroke Made(int coats, int n) { return Stroke(Make(coats), Batch(0, n, 0)); }
V Seq(int n) { V v; for (int i = 0; i < n; ++i) v.push_back(i); return v; }
const void* Data(const Stroke& s) { return s.GetShape().RenderGroupCount() == 0 || s.GetShape().Meshes().empty() ? nullptr : s.GetShape().Meshes().data(); }
}
PROP(dry_create) { int coats = (int)ai_split(ai_i32(0, 3, "coats")), n = (int)ai_split(ai_i32(0, 2, "inputs")); Stroke s = Made(coats, n); ai_assert(Holds(s.GetInputs(), Seq(n)) && s.GetBrush().GetSize() == 10 && s.GetBrush().GetEpsilon() == 2 && s.GetBrush().CoatCount() == uint32_t(coats), "stores-brush-and-inputs"); HasShape(s.GetShape(), Seq(n), {}, coats, "shape-from-inputs"); ai_assert(s.GetInputDuration() == Duration32::Seconds(n == 2 ? 1 : 0), "input-duration"); Stroke e(Make(coats)); ai_assert(e.GetInputs().IsEmpty() && e.GetBrush().CoatCount() == uint32_t(coats), "stroke-without-inputs"); HasShape(e.GetShape(), {}, {}, coats, "stroke-without-inputs-has-empty-groups"); }
PROP(dry_create_with_shape) { ai_opt("allow-check-failure"); int coats = (int)ai_split(ai_i32(0, 3, "coats")), groups = (int)ai_split(ai_i32(0, 3, "groups")); int k = g_extended; Stroke a = Made(groups, 1); PartitionedMesh p = a.GetShape(); int j = g_extended; Stroke s(Make(coats), Batch(5, 2, 0), p); if (coats == groups) { ai_assert(Holds(s.GetInputs(), {5, 6}) && s.GetBrush().CoatCount() == uint32_t(coats), "stores-brush-and-inputs"); ai_assert(g_extended == j && Data(s) == Data(a), "stores-the-given-shape"); ai_reach("reach-matching-shape"); } else ai_assert(false, "never-a-shape-with-another-number-of-groups"); (void)k; }
PROP(dry_set_inputs) { int coats = (int)ai_split(ai_i32(0, 2, "coats")), n = (int)ai_split(ai_i32(0, 2, "inputs")), m = (int)ai_split(ai_i32(0, 3, "new inputs")); Stroke s = Made(coats, n), c = s; const void* d = Data(c); s.SetInputs(Batch(0, m, 0)); ai_assert(Holds(s.GetInputs(), Seq(m)), "inputs-replaced"); HasShape(s.GetShape(), Seq(m), {}, coats, "shape-follows-inputs"); ai_assert(s.GetBrush().CoatCount() == uint32_t(coats) && s.GetBrush().GetSize() == 10, "brush-kept"); ai_assert(Holds(c.GetInputs(), Seq(n)) && Data(c) == d, "copy-unchanged"); HasShape(c.GetShape(), Seq(n), {}, coats, "copy-unchanged"); }
PROP(dry_set_own_inputs) { int coats = (int)ai_split(ai_i32(0, 2, "coats")), n = (int)ai_split(ai_i32(0, 2, "inputs")); Stroke s = Made(coats, n); if (ai_bool("both")) s.SetBrushAndInputs(s.GetBrush(), s.GetInputs()); else s.SetInputs(s.GetInputs()); ai_assert(Holds(s.GetInputs(), Seq(n)), "own-inputs-kept"); HasShape(s.GetShape(), Seq(n), {}, coats, "shape-follows-inputs"); Brush b = s.GetBrush(); s.SetBrush(s.GetBrush()); s.SetBrushFamily(s.GetBrush().GetFamily()); ai_assert(s.GetBrush().CoatCount() == uint32_t(coats), "own-brush-kept"); }
PROP(dry_set_brush_and_inputs) { int coats = (int)ai_split(ai_i32(0, 2, "coats")), n = (int)ai_split(ai_i32(0, 2, "inputs")), c2 = (int)ai_split(ai_i32(0, 2, "new coats")), m = (int)ai_split(ai_i32(0, 2, "new inputs")); Stroke s = Made(coats, n); int k = g_extended; s.SetBrushAndInputs(Make(c2, 0, 10, 2, true), Batch(0, m, 0)); ai_assert(g_extended == k + (m ? c2 : 0), "always-regenerates"); ai_assert(Holds(s.GetInputs(), Seq(m)) && s.GetBrush().CoatCount() == uint32_t(c2), "brush-and-inputs-replaced"); HasShape(s.GetShape(), Seq(m), {}, c2, "shape-follows-brush-and-inputs"); }
// One difference between brushes at a time: the shape is regenerated exactly when tips, size or epsilon differ.
PROP(dry_set_brush) {
  int n = (int)ai_split(ai_i32(0, 2, "inputs")), diff = (int)ai_split(ai_i32(0, 9, "difference")); bool family = ai_bool("family only"); Stroke s = Made(2, n); Brush b = Make(2); std::vector<BrushCoat> c{Coat(1), Coat(2)}; float size = 10, eps = 2; bool shape = true, v2 = false; Color color = Color::Blue(); int coats = 2;
  switch (diff) { case 0: shape = false; break; case 1: size = 11; shape = !family; break; case 2: eps = 3; shape = !family; break; case 3: c[0].tips[0].pinch = 0.25f; break; case 4: c[1].tips[0].pinch = 0.25f; break; case 5: c.pop_back(); coats = 1; break; case 6: c.push_back(Coat(3)); coats = 3; break; case 7: color = Color::Green(); shape = false; break; case 8: c[1].paint.texture_layers.resize(1); c[1].paint.texture_layers[0].color_texture_uri = Texture(); shape = false; break; default: std::swap(c[0], c[1]); }
  auto nb = Brush::Create(Family(c, v2), color, size, eps); if (!nb.ok()) ai_stop(); const void* d = Data(s); int k = g_extended; if (family) s.SetBrushFamily(nb->GetFamily()); else s.SetBrush(*nb);
  ai_assert(g_extended == k + (shape && n ? coats : 0), "regenerates-exactly-when-tips-size-or-epsilon-change"); if (!shape) ai_assert(Data(s) == d, "otherwise-keeps-the-shape"); else if (diff != 9) HasShape(s.GetShape(), Seq(n), {}, coats, "shape-follows-brush"); ai_assert(s.GetShape().RenderGroupCount() == uint32_t(coats), "one-render-group-per-coat");
  ai_assert(s.GetBrush().GetSize() == (family ? 10 : size) && s.GetBrush().GetEpsilon() == (family ? 2 : eps) && s.GetBrush().GetColor() == (family ? Color::Blue() : color) && s.GetBrush().CoatCount() == uint32_t(coats) && s.GetBrush().GetCoats()[coats > 1].tips == c[coats > 1].tips && s.GetBrush().GetCoats()[coats > 1].paint.texture_layers.size() == (diff == 8 ? 1 : 0), "brush-replaced"); ai_assert(Holds(s.GetInputs(), Seq(n)), "inputs-kept");
}
// Every pattern of two kinds of tips over up to three coats, replaced by every other: equal coats below or above never hide a difference.
PROP(dry_set_brush_patterns) { int k = (int)ai_split(ai_i32(2, 3, "coats")), bits = (int)ai_split(ai_i32(0, 7, "pattern")), change = (int)ai_split(ai_i32(0, 3, "changed coat")); if (bits >> k || change > k) ai_stop(); auto make = [&](int bits) { std::vector<BrushCoat> c; for (int i = 0; i < k; ++i) { c.push_back(Coat(1)); if (bits >> i & 1) c.back().tips[0].pinch = .25f; } auto b = Brush::Create(Family(c, false), Color::Blue(), 10, 2); if (!b.ok()) ai_stop(); return *b; };
  Brush a = make(bits), b = make(bits ^ (1 << change >> 1)); Stroke s(a, Batch(0, 1, 0)); const void* d = Data(s); int g = g_extended; if (bits & 1) s.SetBrushFamily(b.GetFamily()); else s.SetBrush(b); bool same = change == 0;
  ai_assert(g_extended == g + (same ? 0 : k), "regenerates-exactly-when-tips-change"); ai_assert((Data(s) == d) == same, "otherwise-keeps-the-shape"); ai_assert(s.GetShape().RenderGroupCount() == uint32_t(k), "one-render-group-per-coat"); }
PROP(dry_set_color) { int n = (int)ai_split(ai_i32(0, 1, "inputs")); Stroke s = Made(2, n); const void* d = Data(s); int k = g_extended; s.SetBrushColor(Color::Red()); ai_assert(g_extended == k && Data(s) == d, "color-never-regenerates"); ai_assert(s.GetBrush().GetColor() == Color::Red() && s.GetBrush().GetSize() == 10 && s.GetBrush().CoatCount() == 2 && Holds(s.GetInputs(), Seq(n)), "color-replaced"); }
PROP(dry_set_size) { int n = (int)ai_split(ai_i32(0, 1, "inputs")); float v = ai_f32("size"); Stroke s = Made(2, n); const void* d = Data(s); int k = g_extended; bool ok = s.SetBrushSize(v).ok(); IFF(ai_and(ai_fle(2, v), ai_fle(v, kFMax)), ok, "size-set-exactly-when-valid"); if (ok && v != 10) { ai_ident_f(s.GetBrush().GetSize(), v, "size-set"); ai_assert(g_extended == k + 2 * n, "new-size-regenerates"); for (int i = 0; i < 2 && n; ++i) HasShape(s.GetShape(), Seq(n), {}, 2, "shape-follows-size"); } else ai_assert(s.GetBrush().GetSize() == 10 && g_extended == k && Data(s) == d, "same-or-rejected-size-changes-nothing"); ai_assert(s.GetBrush().GetEpsilon() == 2 && Holds(s.GetInputs(), Seq(n)), "rest-kept"); }
PROP(dry_set_epsilon) { int n = (int)ai_split(ai_i32(0, 1, "inputs")); float v = ai_f32("epsilon"); Stroke s = Made(2, n); const void* d = Data(s); int k = g_extended; bool ok = s.SetBrushEpsilon(v).ok(); IFF(ai_and(ai_flt(0, v), ai_fle(v, 10)), ok, "epsilon-set-exactly-when-valid"); if (ok && v != 2) { ai_ident_f(s.GetBrush().GetEpsilon(), v, "epsilon-set"); ai_assert(g_extended == k + 2 * n, "new-epsilon-regenerates"); HasShape(s.GetShape(), Seq(n), {}, 2, "shape-follows-epsilon"); } else ai_assert(s.GetBrush().GetEpsilon() == 2 && g_extended == k && Data(s) == d, "same-or-rejected-epsilon-changes-nothing"); ai_assert(s.GetBrush().GetSize() == 10 && Holds(s.GetInputs(), Seq(n)), "rest-kept"); }
// Geometry that cannot be packed leaves empty groups, one per coat, and everything else in place.
PROP(dry_unpackable) { int coats = (int)ai_split(ai_i32(1, 2, "coats")); bool fresh = ai_bool("fresh"); Stroke s = fresh ? Stroke(Make(coats, 0.75f), Batch(0, 2, 0)) : Made(1, 1); if (!fresh) s.SetBrushAndInputs(Make(coats, 0.75f), Batch(0, 2, 0)); ai_assert(s.GetBrush().CoatCount() == uint32_t(coats) && Holds(s.GetInputs(), Seq(2)), "stores-brush-and-inputs"); HasShape(s.GetShape(), {}, {}, coats, "empty-groups-when-the-shape-cannot-be-packed"); }
PROP(copy_unpackable) { int coats = (int)ai_split(ai_i32(1, 2, "coats")); InProgressStroke s; s.Start(Make(coats, 0.75f)); if (!s.EnqueueInputs(Batch(0, 2, 0), B()).ok() || !s.UpdateShape(Duration32::Zero()).ok()) ai_stop(); Stroke c = s.CopyToStroke(); ai_assert(Holds(c.GetInputs(), Seq(2)) && c.GetBrush().CoatCount() == uint32_t(coats), "copies-processed-inputs"); HasShape(c.GetShape(), {}, {}, coats, "empty-groups-when-the-shape-cannot-be-packed"); }
