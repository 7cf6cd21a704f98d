// Stroke inputs and batches: what is accepted, what is stored, and that nothing else changes.
#include <array>
#include <vector>
#include "specs/common.h"
#include "ink/strokes/input/stroke_input.h"
#include "ink/strokes/input/stroke_input_batch.h"
using namespace ink;
using TT = StrokeInput::ToolType;
static TT Tool(const char* n) { return static_cast<TT>(ai_u8(0, 255, n)); }
static StrokeInput Any(const char*) { StrokeInput i; i.tool_type = Tool("tool"); i.position = {ai_f32("x"), ai_f32("y")}; i.elapsed_time = Duration32::Seconds(ai_f32("t")); i.stroke_unit_length = PhysicalDistance::Centimeters(ai_f32("len")); i.pressure = ai_f32("p"); i.tilt = Angle::Radians(ai_f32("tilt")); i.orientation = Angle::Radians(ai_f32("o")); return i; }
static bool OptIn(float v, double lo, double hi, bool& absent) { absent = ai_feq(v, -1); return ai_or(absent, In(v, lo, hi)); }
static bool ValidTool(TT t) { int k = static_cast<uint8_t>(t); return ai_or(ai_or(ai_ieq(k, 0), ai_ieq(k, 1)), ai_or(ai_ieq(k, 2), ai_ieq(k, 3))); }
// One field arbitrary, the others valid: an input is accepted exactly when that field is in its documented range.
static StrokeInput Good() { StrokeInput i; i.tool_type = static_cast<TT>(ai_i32(0, 3, "tool")); float x = Fin("x"), y = Fin("y"); i.position = {x, y}; i.elapsed_time = Duration32::Seconds(ai_f32_in(0, kFMax, "t")); i.stroke_unit_length = PhysicalDistance::Centimeters(ai_f32_in(1e-30, kFMax, "len")); i.pressure = ai_f32_in(0, 1, "p"); i.tilt = Angle::Radians(ai_f32_in(0, 1.57, "tilt")); i.orientation = Angle::Radians(ai_f32_in(0, 6.28, "o")); return i; }
static bool Accepts(const StrokeInput& i) { StrokeInputBatch b; return b.Append(i).ok(); }
PROP(input_position) { StrokeInput i = Good(); float x = ai_f32("ax"), y = ai_f32("ay"); i.position = {x, y}; IFF(ai_and(ai_finite(x), ai_finite(y)), Accepts(i), "finite-position"); }
PROP(input_time) { StrokeInput i = Good(); float t = ai_f32("at"); i.elapsed_time = Duration32::Seconds(t); IFF(ai_and(ai_finite(t), ai_fle(0, t)), Accepts(i), "finite-non-negative-time"); }
PROP(input_unit_length) { StrokeInput i = Good(); float l = ai_f32("al"); i.stroke_unit_length = PhysicalDistance::Centimeters(l); IFF(ai_and(ai_finite(l), ai_fle(0, l)), Accepts(i), "unit-length-absent-or-positive"); }
PROP(input_pressure) { StrokeInput i = Good(); float p = ai_f32("ap"); i.pressure = p; IFF(ai_or(ai_feq(p, -1), In(p, 0, 1)), Accepts(i), "pressure-absent-or-unit-range"); }
PROP(input_tilt) { StrokeInput i = Good(); float p = ai_f32("at"); i.tilt = Angle::Radians(p); IFF(ai_or(ai_feq(p, -1), In(p, 0, kPiF / 2)), Accepts(i), "tilt-absent-or-quarter-turn"); }
PROP(input_orientation) { StrokeInput i = Good(); float p = ai_f32("ao"); i.orientation = Angle::Radians(p); IFF(ai_or(ai_feq(p, -1), In(p, 0, kTwoPiF)), Accepts(i), "orientation-absent-or-full-turn"); }
PROP(input_tool) { StrokeInput i = Good(); i.tool_type = Tool("any"); IFF(ValidTool(i.tool_type), Accepts(i), "named-tool-type"); }
PROP(input_presence) { StrokeInput i = Good(); ai_assert(ai_and(ai_and(i.HasPressure(), i.HasTilt()), ai_and(i.HasOrientation(), i.HasStrokeUnitLength())), "reported-values-are-present"); StrokeInput d; ai_assert(!d.HasPressure() && !d.HasTilt() && !d.HasOrientation() && !d.HasStrokeUnitLength(), "default-reports-nothing"); ai_assert(Accepts(d), "default-input-is-valid"); }
// Two consecutive inputs
struct Pair { StrokeInput a, b; };
static StrokeInput Base(float x, float y, float t) { StrokeInput i; i.tool_type = TT::kStylus; i.position = {x, y}; i.elapsed_time = Duration32::Seconds(t); i.stroke_unit_length = PhysicalDistance::Centimeters(2); i.pressure = .5f; i.tilt = Angle::Radians(.5f); i.orientation = Angle::Radians(1); return i; }
static bool AcceptsBoth(const StrokeInput& a, const StrokeInput& b) { StrokeInputBatch s; if (!s.Append(a).ok()) ai_stop(); size_t n = s.Size(); bool ok = s.Append(b).ok(); ai_assert(s.Size() == (ok ? n + 1 : n), "rejected-input-not-added"); std::array<StrokeInput, 2> v{a, b}; ai_assert(StrokeInputBatch::Create(v).ok() == ok, "create-agrees-with-append"); StrokeInputBatch u; ai_assert(u.Append(absl::MakeSpan(v)).ok() == ok, "span-append-agrees"); StrokeInputBatch w; if (!w.Append(b).ok()) ai_stop(); StrokeInputBatch s1; (void)s1.Append(a); ai_assert(s1.Append(w).ok() == ok, "batch-append-agrees"); return ok; }
PROP(pair_time) { float t = ai_f32_in(0, kFMax, "t"), u = ai_f32_in(0, kFMax, "u"); IFF(ai_fle(t, u), AcceptsBoth(Base(0, 0, t), Base(1, 0, u)), "time-never-decreases"); }
PROP(pair_duplicate) { float x = Fin("x"), y = Fin("y"), x2 = Fin("x2"), y2 = Fin("y2"), t = ai_f32_in(0, 1e6, "t"); bool later = ai_bool("later"); float u = later ? 2e6f : t; IFF(ai_or(later, ai_or(ai_not(ai_feq(x, x2)), ai_not(ai_feq(y, y2)))), AcceptsBoth(Base(x, y, t), Base(x2, y2, u)), "no-duplicate-position-and-time"); }
PROP(pair_format) { int k = (int)ai_split(ai_i32(0, 9, "difference")); StrokeInput a = Base(0, 0, 0), b = Base(1, 0, 1); bool ok = false;
  switch (k) { case 0: ok = true; break; case 1: b.tool_type = TT::kMouse; break; case 2: b.pressure = -1; break; case 3: b.tilt = StrokeInput::kNoTilt; break; case 4: b.orientation = StrokeInput::kNoOrientation; break; case 5: b.stroke_unit_length = PhysicalDistance::Centimeters(3); break; case 6: a.pressure = -1; break; case 7: a.tilt = StrokeInput::kNoTilt; break; case 8: a.orientation = StrokeInput::kNoOrientation; break; case 9: b.stroke_unit_length = StrokeInput::kNoStrokeUnitLength; break; }
  if (ok) ai_assert(AcceptsBoth(a, b), "same-format-accepted"); else ai_assert(!AcceptsBoth(a, b), "different-format-rejected"); }
// Storage: every combination of optional fields
static StrokeInput Shaped(int mask, float t) { StrokeInput i; i.tool_type = TT::kTouch; float x = ai_f32_in(-1e6, 1e6, "x"), y = ai_f32_in(-1e6, 1e6, "y"); i.position = {x, y}; i.elapsed_time = Duration32::Seconds(t); if (mask & 1) i.pressure = ai_f32_in(0, 1, "p"); if (mask & 2) i.tilt = Angle::Radians(ai_f32_in(0, 1.5, "tl")); if (mask & 4) i.orientation = Angle::Radians(ai_f32_in(0, 6, "or")); if (mask & 8) i.stroke_unit_length = PhysicalDistance::Centimeters(2.5f); return i; }
static void Same(const StrokeInput& a, const StrokeInput& b, const char* id) { ai_assert(a.tool_type == b.tool_type, id); ai_ident_f(a.position.x, b.position.x, id); ai_ident_f(a.position.y, b.position.y, id); ai_ident_f(a.elapsed_time.ToSeconds(), b.elapsed_time.ToSeconds(), id); ai_ident_f(a.stroke_unit_length.ToCentimeters(), b.stroke_unit_length.ToCentimeters(), id); ai_ident_f(a.pressure, b.pressure, id); ai_ident_f(a.tilt.ValueInRadians(), b.tilt.ValueInRadians(), id); ai_ident_f(a.orientation.ValueInRadians(), b.orientation.ValueInRadians(), id); }
template <size_t N> static void Holds(const StrokeInputBatch& b, const std::array<StrokeInput, N>& v, size_t n, const char* id) { ai_assert(b.Size() == n, id); if (b.Size() != n) return; ai_assert(b.IsEmpty() == (n == 0), id); for (size_t i = 0; i < n; ++i) Same(b.Get(i), v[i], id); }
#ifdef AI_THOROUGH
static int FewMasks() { return (int)ai_split(ai_i32(0, 15, "optional fields")); }
#else
static int FewMasks() { return 5 * (int)ai_split(ai_i32(0, 3, "optional fields")); }
#endif
static int Mask() { return (int)ai_split(ai_i32(0, 15, "optional fields")); }
template <size_t N> static std::array<StrokeInput, N> Seq(int m) { std::array<StrokeInput, N> v; for (size_t i = 0; i < N; ++i) v[i] = Shaped(m, float(i)); return v; }
static StrokeInputBatch Made(absl::Span<const StrokeInput> v) { auto s = StrokeInputBatch::Create(v); ai_assert(s.ok(), "valid-sequence-accepted"); if (!s.ok()) ai_stop(); return *std::move(s); }
PROP(batch_round_trip) { int m = Mask(); auto v = Seq<3>(m); StrokeInputBatch b = Made(v); Holds(b, v, 3, "stored-inputs-read-back"); ai_assert(b.HasPressure() == !!(m & 1) && b.HasTilt() == !!(m & 2) && b.HasOrientation() == !!(m & 4) && b.HasStrokeUnitLength() == !!(m & 8), "reports-its-format"); ai_assert(b.GetToolType() == TT::kTouch, "reports-its-tool"); ai_assert(b.GetStrokeUnitLength().has_value() == !!(m & 8), "reports-its-unit-length");
  ai_ident_f(b.GetDuration().ToSeconds(), 2, "duration-first-to-last"); size_t i = 0; for (StrokeInput x : b) { if (i < 3) Same(x, v[i], "iteration-order"); ++i; } ai_assert(i == 3, "iteration-visits-all");
  StrokeInputBatch c; for (auto& x : v) ai_assert(c.Append(x).ok(), "one-by-one-accepted"); Holds(c, v, 3, "one-by-one-same"); StrokeInputBatch e; ai_assert(e.Append(absl::MakeSpan(v)).ok(), "span-accepted"); Holds(e, v, 3, "span-same"); StrokeInputBatch d; ai_assert(d.Append(b).ok(), "batch-into-empty"); Holds(d, v, 3, "batch-into-empty-same"); }
PROP(batch_append_batch) { int m = Mask(); auto v = Seq<4>(m); StrokeInputBatch a = Made(absl::MakeSpan(v).subspan(0, 2)), b = Made(absl::MakeSpan(v).subspan(2, 2)), c = a; ai_assert(a.Append(b).ok(), "batch-append-accepted"); Holds(a, v, 4, "batch-append-concatenates"); Holds(c, v, 2, "append-leaves-copy"); std::array<StrokeInput, 2> w{v[2], v[3]}; Holds(b, w, 2, "append-leaves-argument"); }
PROP(batch_set) { int m = Mask(); auto v = Seq<3>(m); StrokeInputBatch b = Made(v), c = b; size_t i = (size_t)ai_split(ai_i32(0, 2, "index")); StrokeInput n = Shaped(m, float(i)); bool shared = ai_bool("shared"); if (!shared) c = StrokeInputBatch(); absl::Status s = b.Set(i, n); auto w = v; if (s.ok()) { ai_reach("reach-set"); w[i] = n; } Holds(b, w, 3, "set-changes-one"); if (shared) Holds(c, v, 3, "set-leaves-copy"); }
PROP(batch_set_rejected) { int m = 15; auto v = Seq<3>(m); StrokeInputBatch b = Made(v); size_t i = (size_t)ai_split(ai_i32(0, 2, "index")); StrokeInput n = v[i]; switch (ai_split(ai_i32(0, 8, "defect"))) { case 0: n.position.x = std::numeric_limits<float>::quiet_NaN(); break; case 1: n.pressure = 2; break; case 2: n.tilt = Angle::Radians(2); break; case 3: n.orientation = Angle::Radians(7); break; case 4: n.elapsed_time = Duration32::Seconds(i == 0 ? 1.5f : i == 1 ? 2.5f : 0.5f); break; case 5: n.tool_type = TT::kMouse; break; case 6: n.pressure = -1; break; case 7: n.stroke_unit_length = PhysicalDistance::Centimeters(4); break; case 8: { size_t j = i == 0 ? 1 : i - 1; n.position = v[j].position; n.elapsed_time = v[j].elapsed_time; break; } } ai_assert(!b.Set(i, n).ok(), "invalid-set-rejected"); Holds(b, v, 3, "rejected-set-changes-nothing"); }
PROP(batch_set_only_input) { int m = Mask(), m2 = (int)ai_split(ai_i32(0, 15, "new fields")); std::array<StrokeInput, 1> v{Shaped(m, 1)}; StrokeInputBatch b = Made(v), c = b; bool shared = ai_bool("shared"); if (!shared) c = StrokeInputBatch(); std::array<StrokeInput, 1> w{Shaped(m2, 2)}; ai_assert(b.Set(0, w[0]).ok(), "only-input-may-change-format"); Holds(b, w, 1, "only-input-replaced"); if (shared) Holds(c, v, 1, "replace-leaves-copy"); }
PROP(batch_append_rejected) { auto v = Seq<2>(15); StrokeInputBatch b = Made(v); std::array<StrokeInput, 2> w{Shaped(15, 3), Shaped(15, 4)}; size_t i = (size_t)ai_split(ai_i32(0, 1, "which")); switch (ai_split(ai_i32(0, 5, "defect"))) { case 0: w[i].position.y = float(kInf); break; case 1: w[i].pressure = 2; break; case 2: w[i].elapsed_time = Duration32::Seconds(i ? 2 : 0.5f); break; case 3: w[i].tool_type = TT::kMouse; break; case 4: w[i].orientation = StrokeInput::kNoOrientation; break; case 5: w[i].stroke_unit_length = StrokeInput::kNoStrokeUnitLength; break; }
  ai_assert(!b.Append(absl::MakeSpan(w)).ok(), "invalid-append-rejected"); Holds(b, v, 2, "rejected-append-changes-nothing"); }
PROP(batch_erase) { int m = FewMasks(); auto v = Seq<4>(m); StrokeInputBatch b = Made(v), c = b; size_t s = (size_t)ai_split(ai_i32(0, 4, "start")), n = (size_t)ai_split(ai_i32(0, 5, "count")); if (n == 5) b.Erase(s); else b.Erase(s, n); size_t e = std::min<size_t>(4, s + n), k = 0; std::array<StrokeInput, 4> w; for (size_t i = 0; i < 4; ++i) if (i < s || i >= e) w[k++] = v[i]; Holds(b, w, k, "erase-removes-range"); Holds(c, v, 4, "erase-leaves-copy"); if (k == 0) ai_assert(!b.HasPressure() && !b.HasTilt() && !b.HasOrientation() && !b.HasStrokeUnitLength() && b.GetToolType() == TT::kUnknown, "emptied-batch-has-no-format"); }
// Histories: what is read after several edits in a row is what the edits say, with or without a copy alive.
PROP(batch_history) { int m = ai_bool("all fields") ? 15 : 2; std::array<StrokeInput, 12> w; size_t k = 0; float t = 0; std::array<StrokeInput, 12> held; size_t heldn = 0; StrokeInputBatch b, c; bool alive = ai_bool("copy kept alive");
  auto next = [&] { w[k] = Shaped(m, t); w[k++].position.x = ai_f32_in(3 * t, 3 * t + 1, "x"); t += 1; return w[k - 1]; }; for (int i = 0; i < 3; ++i) ai_assert(b.Append(next()).ok(), "append-accepted");
#ifdef AI_THOROUGH
  constexpr int kEdits = 4;
#else
  constexpr int kEdits = 3;
#endif
  for (int e = 0; e < kEdits; ++e) { if (alive) { c = b; held = w; heldn = k; }
    switch ((int)ai_split(ai_i32(0, 5, "edit"))) {
      case 0: ai_assert(b.Append(next()).ok(), "append-accepted"); break;
      case 1: { std::array<StrokeInput, 2> n{next(), StrokeInput()}; n[1] = next(); ai_assert(b.Append(Made(n)).ok(), "batch-append-accepted"); break; }
      case 2: if (k) { b.Erase(k - 1); --k; } break;
      case 3: if (k > 1) { b.Erase(0, 1); for (size_t i = 1; i < k; ++i) w[i - 1] = w[i]; --k; } break;
      case 4: if (k) { StrokeInput n = Shaped(m, w[k - 1].elapsed_time.ToSeconds()); n.position = {2e6f, 2e6f + float(e)}; ai_assert(b.Set(k - 1, n).ok(), "set-accepted"); w[k - 1] = n; } break;
      default: b.Clear(); k = 0; break;
    }
    ai_assert(b.Size() == k && b.IsEmpty() == (k == 0), "history-size"); if (alive) { ai_assert(c.Size() == heldn, "history-leaves-copy"); for (size_t i = 0; i < heldn && i < c.Size(); ++i) Same(c.Get(i), held[i], "history-leaves-copy"); } }
  Holds(b, w, k, "history-read-back"); size_t i = 0; for (StrokeInput x : b) { if (i < k) Same(x, w[i], "history-iteration"); ++i; } ai_assert(i == k, "history-iteration-visits-all"); StrokeInputBatch d = b.MakeDeepCopy(); Holds(d, w, k, "history-deep-copy"); ai_assert(b.Append(next()).ok(), "append-accepted"); Holds(b, w, k, "history-append-after"); if (k > 1) Holds(d, w, k - 1, "deep-copy-independent"); }
PROP(batch_clear) { int m = Mask(); auto v = Seq<2>(m); StrokeInputBatch b = Made(v), c = b; bool shared = ai_bool("shared"); if (!shared) c = StrokeInputBatch(); b.Clear(); ai_assert(b.IsEmpty() && b.Size() == 0 && !b.HasPressure() && !b.HasTilt() && !b.HasOrientation() && !b.HasStrokeUnitLength() && b.GetToolType() == TT::kUnknown, "clear-empties"); if (shared) Holds(c, v, 2, "clear-leaves-copy"); StrokeInput n = Shaped(15 - m, 0); ai_assert(b.Append(n).ok(), "cleared-batch-takes-any-format"); std::array<StrokeInput, 1> w{n}; Holds(b, w, 1, "cleared-batch-takes-any-format"); }
PROP(batch_transform) { int m = Mask(); auto v = Seq<3>(m); StrokeInputBatch b = Made(v), c = b, d = b.MakeDeepCopy(); auto f = [](const char* n) { return ai_f32_in(-1e3, 1e3, n); }; float ta = f("a"), tb = f("b"), tc = f("c"), td = f("d"), te = f("e"), tf = f("f"); AffineTransform t(ta, tb, tc, td, te, tf); b.Transform(t); auto w = v; for (auto& i : w) i.position = t.Apply(i.position); ai_assert(b.Size() == 3, "transform-keeps-size"); for (int i = 0; i < 3; ++i) { StrokeInput g = b.Get(i); ai_same(g.position.x, w[i].position.x, 1e-6, "transform-moves-positions"); ai_same(g.position.y, w[i].position.y, 1e-6, "transform-moves-positions"); g.position = w[i].position; Same(g, w[i], "transform-keeps-the-rest"); } Holds(c, v, 3, "transform-leaves-copy"); Holds(d, v, 3, "deep-copy-equal"); StrokeInputBatch e; e.Transform(t); ai_assert(e.IsEmpty(), "transform-empty"); }
PROP(batch_index_checked) { ai_opt("allow-check-failure"); auto v = Seq<2>(3); StrokeInputBatch b = Made(v); int i = ai_i32(0, 2147483647, "index"); if (i >= 2) { if (ai_bool("get")) b.Get(i); else if (ai_bool("set")) (void)b.Set(i, v[0]); else { if (i == 2) ai_stop(); b.Erase(i); } ai_assert(false, "never-past-the-end"); } else { b.Get(i); ai_reach("reach-in-range"); } }
PROP(batch_empty) { StrokeInputBatch b; ai_assert(b.IsEmpty() && b.Size() == 0 && b.GetDuration() == Duration32::Zero() && b.begin() == b.end(), "empty-batch"); ai_assert(StrokeInputBatch::Create({}).ok(), "empty-sequence-accepted"); b.Clear(); b.Erase(0); ai_assert(b.MakeDeepCopy().IsEmpty() && b.Append(absl::Span<const StrokeInput>()).ok() && b.Append(StrokeInputBatch()).ok() && b.IsEmpty(), "empty-operations"); }
