// The stroke input modeler, analysed with a deterministic model of the third-party smoothing filter.
// exclude: ink/strokes/internal/(stroke_shape_builder|brush_tip|constrain|circular|rounded|easing)
#define INK_RECORDING_MODELER 1
#include "specs/common.h"
#include "ink/strokes/internal/stroke_input_modeler.cc"
using namespace ink; using namespace ink::strokes_internal;
using B = StrokeInputBatch; using Tool = StrokeInput::ToolType;
namespace {
constexpr float kEps = 5;
BrushFamily::InputModel Model1() { return BrushFamily::SpringModelV1{}; }
BrushFamily::InputModel Model2() { return BrushFamily::SpringModelV2{}; }
// the k-th input of a stroke lies At(k) along the direction (3,4), whose length is 5
float Along(int k) { static constexpr float a[] = {0, 2, 3, 3.5, 8, 8.5, 9, 20, 21, 22, 30, 31, 40, 41, 50, 60, 61, 70}; return a[k]; }
StrokeInput In0(float along, int k, bool predicted) { StrokeInput i; i.tool_type = Tool::kStylus; i.stroke_unit_length = PhysicalDistance::Centimeters(2); i.position = {3 * along, 4 * along}; i.elapsed_time = Duration32::Seconds(k * .5f); i.pressure = predicted ? .25f : k / 32.f; i.tilt = Angle::Radians(k / 16.f); i.orientation = Angle::Radians(k / 8.f); return i; }
using Ins = std::vector<StrokeInput>;
B Batch(const Ins& v) { B b; for (const StrokeInput& i : v) if (!b.Append(i).ok()) ai_stop(); return b; }
struct Out { float along, dist, time, pressure, tilt, orientation, fed; };
struct Ref { std::vector<Out> out; size_t stable = 0, real = 0; };
// what modeling the whole stroke at once yields
Ref Expect(const Ins& real, const Ins& pred) {
  Ref r; float at = 0; int fed = 0; size_t n = real.size() + pred.size();
  for (size_t k = 0; k < n; ++k) {
    const StrokeInput& i = k < real.size() ? real[k] : pred[k - real.size()]; float to = i.position.x / 3; float first = fed == 0 ? to : (at + to) / 2;
    auto put = [&](float a) { float d = 0; if (!r.out.empty()) { float gap = (a > r.out.back().along ? a - r.out.back().along : r.out.back().along - a) * 5; if (gap < kEps) return; d = r.out.back().dist + gap; } r.out.push_back({a, d, i.elapsed_time.ToSeconds(), i.pressure, i.tilt.ValueInRadians(), i.orientation.ValueInRadians(), float(fed)}); };
    put(first); if (fed != 0 && k + 1 == n) put(to); ++fed; at = to;
    if (k + 1 < real.size()) r.stable = r.out.size(); if (k + 1 <= real.size()) r.real = r.out.size();
  }
  return r;
}
struct M { Ins real, pred; int next = 0; float now = 0; bool v2 = false, extended = false; size_t stable = 0; };
void Agree(const StrokeInputModeler& s, M& m) {
  Ref w = Expect(m.real, m.pred); auto got = s.GetModeledInputs(); const auto& st = s.GetState(); bool any = !m.real.empty() || !m.pred.empty();
  ai_assert(got.size() == w.out.size(), "modeled-inputs-as-from-scratch"); if (got.size() != w.out.size()) ai_stop();
  for (size_t k = 0; k < w.out.size(); ++k) { const Out& o = w.out[k]; const ModeledStrokeInput& g = got[k]; ai_assert(g.position.x == 3 * o.along && g.position.y == 4 * o.along, "modeled-inputs-as-from-scratch"); ai_assert(g.traveled_distance == o.dist, "traveled-distance-is-the-path-length"); ai_assert(g.elapsed_time.ToSeconds() == o.time && g.pressure == o.pressure && g.tilt.ValueInRadians() == o.tilt && g.orientation.ValueInRadians() == o.orientation && g.acceleration.x == o.fed, "modeled-attributes-as-from-scratch"); }
  ai_assert(st.stable_input_count == w.stable, "stable-count"); ai_assert(st.real_input_count == w.real, "real-count"); ai_assert(st.stable_input_count >= m.stable, "stable-count-never-drops"); m.stable = st.stable_input_count;
  ai_assert(st.complete_traveled_distance == (w.out.empty() ? 0 : w.out.back().dist), "complete-traveled-distance"); ai_assert(st.complete_elapsed_time.ToSeconds() == (w.out.empty() || w.out.back().time < m.now ? m.now : w.out.back().time), "complete-elapsed-time");
  ai_assert(st.total_real_distance == (w.real ? w.out[w.real - 1].dist : 0) && st.total_real_elapsed_time.ToSeconds() == (w.real ? w.out[w.real - 1].time : 0), "real-distance-and-time");
  ai_assert(st.tool_type == (any ? Tool::kStylus : Tool::kUnknown) && st.stroke_unit_length.has_value() == any, "tool-type-and-unit-length"); if (any && st.stroke_unit_length.has_value()) ai_assert(*st.stroke_unit_length == PhysicalDistance::Centimeters(2), "tool-type-and-unit-length");
  if (any) { const auto& p = stroke_model::g_params; ai_assert(p.sampling_params.end_of_stroke_stopping_distance == kEps, "filter-stops-within-epsilon"); ai_assert(!p.wobble_smoother_params.is_enabled && std::holds_alternative<stroke_model::DisabledPredictorParams>(p.prediction_params), "filter-neither-predicts-nor-smooths-wobble"); const auto& l = p.position_modeler_params.loop_contraction_mitigation_params; ai_assert(l.is_enabled == m.v2 && p.stylus_state_modeler_params.use_stroke_normal_projection == m.v2, "filter-follows-the-input-model"); if (m.v2) ai_assert(l.speed_lower_bound == 0 && l.speed_upper_bound == 12.5f, "filter-speeds-in-stroke-units"); }
}
void Start(StrokeInputModeler& s, M& m, bool v2) { s.StartStroke(v2 ? Model2() : Model1(), kEps); m = M(); m.v2 = v2; }
void Extend(StrokeInputModeler& s, M& m, int real, int pred, float now) {
  Ins r, p; for (int i = 0; i < real; ++i) { r.push_back(In0(Along(m.next), m.next, false)); ++m.next; } for (int i = 0; i < pred; ++i) p.push_back(In0(Along(m.next) + 1 + i * 1.5f, m.next + i, true));
  int before = stroke_model::g_updates; s.ExtendStroke(Batch(r), Batch(p), Duration32::Seconds(now)); for (auto& i : r) m.real.push_back(i); if (real == 0 && pred == 0 && m.pred.empty()) ai_assert(stroke_model::g_updates == before, "nothing-to-do-models-nothing"); m.pred = p; m.now = now;
}
void Step(StrokeInputModeler& s, M& m, int op) {
  switch (op) { case 0: Extend(s, m, 1, 0, 0); break; case 1: Extend(s, m, 2, 0, 50); break; case 2: Extend(s, m, 0, 1, 0); break; case 3: Extend(s, m, 1, 2, 50); break; case 4: Extend(s, m, 0, 0, 1); break; case 5: Start(s, m, true); break; case 6: Extend(s, m, 3, 1, 1); break; case 7: Extend(s, m, 0, 3, 50); break; case 8: Start(s, m, false); break; default: break; }
  Agree(s, m);
}
int Op() { return (int)ai_split(ai_i32(0, 8, "operation")); }
#ifdef AI_THOROUGH
constexpr int kDepth = 5;
#else
constexpr int kDepth = 4;
#endif
void Run(int first, bool v2) { StrokeInputModeler s; M m; Start(s, m, v2); Agree(s, m); Step(s, m, first); for (int i = 1; i < kDepth; ++i) Step(s, m, Op()); }
}
PROP(model_one) { Run(0, true); } PROP(model_two) { Run(1, false); } PROP(model_predicted) { Run(2, true); } PROP(model_both) { Run(3, true); } PROP(model_nothing) { Run(4, false); } PROP(model_restart) { Run(5, false); } PROP(model_three) { Run(6, false); } PROP(model_predicted_more) { Run(7, true); }
PROP(model_reuse) { StrokeInputModeler s; M m; Start(s, m, true); Step(s, m, 6); Step(s, m, 3); Step(s, m, 8); for (int i = 1; i < kDepth; ++i) Step(s, m, Op()); }
// every input reaches the filter, and every result leaves it, with all its attributes and nothing mixed up
PROP(model_values) {
  StrokeInputModeler s; s.StartStroke(Model1(), 1); StrokeInput i; i.tool_type = Tool::kTouch; i.position = {ai_f32_in(-1e6, 1e6, "x"), ai_f32_in(-1e6, 1e6, "y")}; i.elapsed_time = Duration32::Seconds(ai_f32_in(0, 1e6, "t")); i.pressure = ai_f32_in(0, 1, "p"); i.tilt = Angle::Radians(ai_f32_in(0, 1.5, "tilt")); i.orientation = Angle::Radians(ai_f32_in(0, 6, "o")); B b; if (!b.Append(i).ok()) ai_stop();
  using namespace stroke_model; g_free = 1; Result& r = g_result[0]; r.position = {ai_f32("rx"), ai_f32("ry")}; r.velocity = {ai_f32("vx"), ai_f32("vy")}; r.acceleration = {ai_f32("ax"), ai_f32("ay")}; r.time = stroke_model::Time(ai_f32_in(0, 1e6, "rt")); r.pressure = ai_f32("rp"); r.tilt = ai_f32_in(0, 1.5, "rtilt"); r.orientation = ai_f32_in(0, 6, "ro"); s.ExtendStroke(b, B(), Duration32::Zero());
  ai_assert(g_updates == 1 && g_resets == 1, "one-input-modeled-once"); ai_ident_f(g_input.position.x, i.position.x, "input-passed-on"); ai_ident_f(g_input.position.y, i.position.y, "input-passed-on"); ai_ident_f(g_input.time.Value(), i.elapsed_time.ToSeconds(), "input-passed-on"); ai_ident_f(g_input.pressure, i.pressure, "input-passed-on"); ai_ident_f(g_input.tilt, i.tilt.ValueInRadians(), "input-passed-on"); ai_ident_f(g_input.orientation, i.orientation.ValueInRadians(), "input-passed-on");
  auto m = s.GetModeledInputs(); ai_assert(m.size() == 1, "first-result-always-kept"); if (m.size() != 1) ai_stop(); const ModeledStrokeInput& g = m[0]; ai_ident_f(g.position.x, r.position.x, "result-passed-on"); ai_ident_f(g.position.y, r.position.y, "result-passed-on"); ai_ident_f(g.velocity.x, r.velocity.x, "result-passed-on"); ai_ident_f(g.velocity.y, r.velocity.y, "result-passed-on"); ai_ident_f(g.acceleration.x, r.acceleration.x, "result-passed-on"); ai_ident_f(g.acceleration.y, r.acceleration.y, "result-passed-on"); ai_ident_f(g.elapsed_time.ToSeconds(), float(r.time.Value()), "result-passed-on"); ai_ident_f(g.pressure, r.pressure, "result-passed-on"); ai_ident_f(g.tilt.ValueInRadians(), r.tilt, "result-passed-on"); ai_ident_f(g.orientation.ValueInRadians(), r.orientation, "result-passed-on"); ai_assert(g.traveled_distance == 0, "distance-starts-at-zero");
}
// whatever the filter returns, kept results are at least epsilon apart, and distance adds up
PROP(model_gap) {
  StrokeInputModeler s; float eps = ai_f32_in(.01, 100, "epsilon"), y0 = 0; s.StartStroke(Model1(), eps); B b; StrokeInput i = In0(0, 0, false); if (!b.Append(i).ok()) ai_stop(); using namespace stroke_model; g_free = 2; g_result[0].position = {7, y0}; bool side = ai_bool("side"); float d = ai_f32_in(0, 1000, "step"); g_result[1].position = side ? Vec2{7, -d} : Vec2{7, d};
  if (d < eps) { s.ExtendStroke(b, B(), Duration32::Zero()); ai_assert(s.GetModeledInputs().size() == 1, "closer-than-epsilon-dropped"); ai_assert(s.GetState().complete_traveled_distance == 0, "dropped-results-add-no-distance"); }
  else { s.ExtendStroke(b, B(), Duration32::Zero()); ai_assert(s.GetModeledInputs().size() == 2, "epsilon-apart-kept"); if (s.GetModeledInputs().size() == 2) ai_near(s.GetModeledInputs()[1].traveled_distance, d, 1e-3, "distance-adds-up"); }
}
PROP(model_unit_length) {
  bool v2 = ai_bool("v2"), pred = ai_bool("predicted first"), unit = ai_bool("known unit"); float c = ai_f32_in(.1, 10, "unit"); StrokeInputModeler s; s.StartStroke(v2 ? Model2() : Model1(), 1); B b; StrokeInput i; i.tool_type = Tool::kMouse; if (unit) i.stroke_unit_length = PhysicalDistance::Centimeters(c); i.position = {1, 2}; if (!b.Append(i).ok()) ai_stop();
  if (pred) s.ExtendStroke(B(), b, Duration32::Zero()); else s.ExtendStroke(b, B(), Duration32::Zero()); const auto& l = stroke_model::g_params.position_modeler_params.loop_contraction_mitigation_params; ai_assert(l.is_enabled == (v2 && unit), "loop-mitigation-exactly-with-known-unit"); if (v2 && unit) ai_near(l.speed_upper_bound * (double)c, 25, 1e-3, "filter-speeds-in-stroke-units"); ai_assert(s.GetState().tool_type == Tool::kMouse && s.GetState().stroke_unit_length.has_value() == unit, "tool-type-and-unit-length");
}
PROP(model_start) { ai_opt("allow-check-failure"); float eps = NonNan("epsilon"); bool extend_only = ai_bool("no start"); StrokeInputModeler s; if (extend_only) { s.ExtendStroke(B(), B(), Duration32::Zero()); ai_assert(false, "never-extends-before-start"); } else { s.StartStroke(Model1(), eps); ai_assert(eps > 0, "epsilon-checked"); ai_reach("reach-started"); } }
