// The brush tip modeler: tip states once handed out as fixed never depend on anything that can still change.
#include <array>
#include <optional>
#include <vector>
#include "specs/common.h"
#include "ink/strokes/internal/brush_tip_modeler.h"
#include "ink/strokes/internal/brush_tip_modeler_helpers.h"
using namespace ink; using namespace ink::strokes_internal;
using BB = BrushBehavior; using S = BB::Source; using T = BB::Target; using OOR = BB::OutOfRange; using State = StrokeInputModeler::State; using Input = ModeledStrokeInput;
namespace {
constexpr float kSize = 8;
BrushTip Tip(std::vector<BB::Node> nodes) { BrushTip t; t.corner_rounding = .25f; t.pinch = .125f; if (!nodes.empty()) t.behaviors.push_back(BB{std::move(nodes)}); return t; }
BB::TargetNode To(T t = T::kPositionOffsetXInMultiplesOfBrushSize) { return {t, {.25f, .75f}}; }
float Raw(const char* n) { return ai_f32_in(-100, 100, n); }
// an input at a known place along the stroke, with an unknown pressure and a known motion
Input At(float d, float t) { Input i; i.position = {d, .125f * d * d - 1}; i.velocity = {2 + t, .25f * d - .5f}; i.acceleration = {1 - t, 3 - d}; i.traveled_distance = d; i.elapsed_time = Duration32::Seconds(t); i.pressure = ai_f32_in(.125, .875, "pressure"); i.tilt = Angle::Radians(.1f + .0625f * d); i.orientation = Angle::Radians(.25f + .125f * t); return i; }
// an input that may still change: unlike the stable input it will be replaced by, with values nothing later must depend on
int g_tail;
Input Loose(float d, float t) { Input i = At(d, t); i.position = {-20 - d, 31}; i.velocity = {-3, 7}; i.acceleration = {11, -5}; i.traveled_distance = d + (g_tail & 1 ? 40.f : .125f); i.elapsed_time = Duration32::Seconds(t + (g_tail & 2 ? 40.f : .125f)); i.tilt = Angle::Radians(1.25f); i.orientation = Angle::Radians(4); return i; }
std::vector<Input> Stable() { std::vector<Input> v; static constexpr float d[] = {0, 1, 3, 4, 6, 9}, t[] = {0, .5f, 1, 2, 2.5f, 4}; for (int k = 0; k < 6; ++k) v.push_back(At(d[k], t[k])); return v; }
State StateOf(const std::vector<Input>& in, size_t stable, size_t real, float now) { State s; s.tool_type = StrokeInput::ToolType::kTouch; s.stroke_unit_length = PhysicalDistance::Centimeters(.5f); s.stable_input_count = stable; s.real_input_count = real; const Input& l = in.back(); s.complete_traveled_distance = l.traveled_distance; s.complete_elapsed_time = now > l.elapsed_time.ToSeconds() ? Duration32::Seconds(now) : l.elapsed_time; if (real) { s.total_real_distance = in[real - 1].traveled_distance; s.total_real_elapsed_time = in[real - 1].elapsed_time; } return s; }
void SameState(const BrushTipState& a, const BrushTipState& b, const char* id) {
  ai_ident_f(a.width, b.width, id); ai_ident_f(a.height, b.height, id); if (a.width == 0 && b.width == 0) return;   // a gap
  ai_ident_f(a.position.x, b.position.x, id); ai_ident_f(a.position.y, b.position.y, id); ai_ident_f(a.percent_radius, b.percent_radius, id); ai_ident_f(a.rotation.ValueInRadians(), b.rotation.ValueInRadians(), id); ai_ident_f(a.slant.ValueInRadians(), b.slant.ValueInRadians(), id); ai_ident_f(a.pinch, b.pinch, id); ai_ident_f(a.hue_offset_in_full_turns, b.hue_offset_in_full_turns, id); ai_ident_f(a.saturation_multiplier, b.saturation_multiplier, id); ai_ident_f(a.luminosity_shift, b.luminosity_shift, id); ai_ident_f(a.opacity_multiplier, b.opacity_multiplier, id);
}
using States = std::vector<BrushTipState>;
void Put(States& out, absl::Span<const BrushTipState> s) { for (const auto& x : s) out.push_back(x); }
// Grows one stroke in three updates with arbitrary unstable tails, and compares with a modeler that only sees the last update.
// fixed_after: how many inputs must have become fixed after each update.
void Grow(const BrushTip& tip, std::array<int, 3> fixed_after, bool loose, bool reuse = false, int states_per_input = 1) {
  g_tail = loose ? ai_split(ai_i32(0, 3, "tail")) : 0; std::vector<Input> all = Stable(); BrushTipModeler m, fresh; BrushTip other = Tip({BB::SourceNode{S::kTimeSinceInputInSeconds, OOR::kClamp, {0, 1}}, BB::DampingNode{BB::DampingSource::kTimeInSeconds, 1}, To(T::kWidthMultiplier), BB::SourceNode{S::kDirectionInRadians, OOR::kClamp, {0, 1}}, To(T::kHueOffsetInRadians)}); other.particle_gap_distance_scale = .0625f;
  if (reuse) { m.StartStroke(&other, 3); std::vector<Input> o = {At(0, 0), At(2, 2), At(3, 5)}; m.UpdateStroke(StateOf(o, 2, 2, 0), o); } m.StartStroke(&tip, kSize); States kept;
  std::vector<Input> last; State state; static constexpr int stable[] = {2, 4, 6}; int fixed = 0;
  for (int u = 0; u < 3; ++u) {
    std::vector<Input> in(all.begin(), all.begin() + stable[u]); float d = in.back().traveled_distance, t = in.back().elapsed_time.ToSeconds(); if (u < 2) { for (int k = 0; k < 2 - u; ++k) { in.push_back(loose ? Loose(d, t) : At(d + k + 1, t + k + 1)); d = in.back().traveled_distance; t = in.back().elapsed_time.ToSeconds(); } } else in.push_back(At(11, 5));
    state = StateOf(in, stable[u], stable[u] + 1, u == 0 ? 1.25f : 0); m.UpdateStroke(state, in); Put(kept, m.NewFixedTipStates()); fixed += m.NewFixedTipStates().size(); ai_assert(!states_per_input || fixed == fixed_after[u] * states_per_input, "fixed-exactly-when-nothing-later-matters"); ai_assert(!states_per_input || m.VolatileTipStates().size() == (in.size() - fixed_after[u]) * states_per_input, "every-other-input-is-volatile"); last = in;
  }
  if (state.stable_input_count != 6) ai_stop(); Put(kept, m.VolatileTipStates()); fresh.StartStroke(&tip, kSize); fresh.UpdateStroke(state, last); States want; Put(want, fresh.NewFixedTipStates()); Put(want, fresh.VolatileTipStates()); ai_assert(kept.size() == want.size(), "same-states-as-all-at-once"); if (kept.size() != want.size()) ai_stop(); for (size_t k = 0; k < want.size(); ++k) SameState(kept[k], want[k], "same-states-as-all-at-once");
}
bool Directional(S s) { return s == S::kDirectionInRadians || s == S::kDirectionAboutZeroInRadians || s == S::kNormalizedDirectionX || s == S::kNormalizedDirectionY; }
constexpr std::array<int, 3> kAll = {2, 4, 6}, kLess = {1, 3, 5}, kNone = {0, 0, 0};
}
PROP(grow_plain) { Grow(Tip({}), kAll, true, ai_bool("reuse")); }
PROP(grow_source_low) { S s = (S)ai_split(ai_i32(0, 12, "source")); Grow(Tip({BB::SourceNode{s, OOR::kClamp, {-50, 50}}, To()}), Directional(s) ? kLess : kAll, true); }
PROP(grow_source_mid) { S s = (S)ai_split(ai_i32(13, 18, "source")); Grow(Tip({BB::SourceNode{s, OOR::kMirror, {-50, 50}}, To()}), kAll, true); }
PROP(grow_source_high) { S s = (S)ai_split(ai_i32(22, 36, "source")); Grow(Tip({BB::SourceNode{s, OOR::kRepeat, {-50, 50}}, To()}), kAll, true); }
PROP(grow_target) { T t = (T)ai_split(ai_i32(0, 14, "target")); bool dir = t == T::kPositionOffsetForwardInMultiplesOfBrushSize || t == T::kPositionOffsetLateralInMultiplesOfBrushSize; Grow(Tip({BB::SourceNode{S::kNormalizedPressure, OOR::kClamp, {0, 1}}, To(t)}), dir ? kLess : kAll, true); }
// fixed while at least 1.25 stroke units (or seconds) behind the last stable input
PROP(grow_distance_left) { bool rev = ai_bool("falling"); BB::SourceNode s{S::kDistanceRemainingInMultiplesOfBrushSize, OOR::kClamp, {.0625f, 1.25f / kSize}}; if (rev) std::swap(s.source_value_range[0], s.source_value_range[1]); Grow(Tip({s, To()}), {0, 2, 5}, true); }
PROP(grow_time_left) { bool milli = ai_bool("milliseconds"), rev = ai_bool("falling"); float f = milli ? 1000 : 1; BB::SourceNode s{milli ? S::kTimeSinceInputInMillis : S::kTimeSinceInputInSeconds, OOR::kClamp, {.25f * f, 1.25f * f}}; if (rev) std::swap(s.source_value_range[0], s.source_value_range[1]); Grow(Tip({s, To()}), {0, 2, 5}, true); }
PROP(grow_unbounded) { int k = (int)ai_split(ai_i32(0, 2, "source")); bool mirror = ai_bool("mirror"); Grow(Tip({BB::SourceNode{k == 0 ? S::kDistanceRemainingInMultiplesOfBrushSize : k == 1 ? S::kTimeSinceInputInSeconds : S::kTimeSinceInputInMillis, mirror ? OOR::kMirror : OOR::kRepeat, {0, 1}}, To()}), kNone, true); }
// the farthest reach of several sources counts, whichever comes first
// the same stroke handed over at other paces: input by input, without a tail, standing still, all at the end
PROP(grow_paces) { g_tail = ai_split(ai_i32(0, 1, "tail")) * 3; int pace = (int)ai_split(ai_i32(0, 3, "pace")), kind = (int)ai_split(ai_i32(0, 5, "tip")); static const std::vector<std::array<int, 2>> paces[] = {{{1, 0}, {2, 0}, {3, 0}, {4, 0}, {5, 0}, {6, 1}}, {{0, 1}, {1, 1}, {2, 2}, {2, 1}, {3, 0}, {3, 2}, {4, 1}, {5, 1}, {6, 1}}, {{0, 2}, {0, 1}, {5, 1}, {5, 0}, {6, 1}}, {{1, 2}, {1, 0}, {2, 1}, {5, 2}, {6, 0}, {6, 1}}};
  BB::SourceNode p{S::kNormalizedPressure, OOR::kClamp, {0, 1}}; BrushTip tip = kind == 0 ? Tip({}) : kind == 1 || kind == 2 ? Tip({p, BB::DampingNode{kind == 1 ? BB::DampingSource::kTimeInSeconds : BB::DampingSource::kDistanceInCentimeters, .5f}, To()}) : kind == 3 ? Tip({p, To(T::kPositionOffsetForwardInMultiplesOfBrushSize)}) : kind == 4 ? Tip({BB::SourceNode{S::kDistanceRemainingInMultiplesOfBrushSize, OOR::kClamp, {0, 1.25f / kSize}}, To(), p, BB::DampingNode{BB::DampingSource::kTimeInSeconds, .5f}, To(T::kPinchOffset)}) : Tip({p, BB::DampingNode{BB::DampingSource::kTimeInSeconds, .5f}, To()}); if (kind == 5) tip.particle_gap_distance_scale = .75f / kSize;
  std::vector<Input> all = Stable(); BrushTipModeler m, fresh; m.StartStroke(&tip, kSize); States kept; std::vector<Input> last; State state;
  for (auto [stable, tail] : paces[pace]) { std::vector<Input> in(all.begin(), all.begin() + stable); float d = stable ? in.back().traveled_distance : 0, t = stable ? in.back().elapsed_time.ToSeconds() : 0; bool final = stable == 6; for (int k = 0; k < tail; ++k) { in.push_back(final ? At(11, 5) : Loose(d, t)); d = in.back().traveled_distance; t = in.back().elapsed_time.ToSeconds(); } state = StateOf(in, stable, stable + (tail ? 1 : 0), 0); m.UpdateStroke(state, in); Put(kept, m.NewFixedTipStates()); last = in; }
  Put(kept, m.VolatileTipStates()); fresh.StartStroke(&tip, kSize); fresh.UpdateStroke(state, last); States want; Put(want, fresh.NewFixedTipStates()); Put(want, fresh.VolatileTipStates()); ai_assert(kept.size() == want.size(), "same-states-at-any-pace"); if (kept.size() != want.size()) ai_stop(); for (size_t k = 0; k < want.size(); ++k) SameState(kept[k], want[k], "same-states-at-any-pace"); }
PROP(grow_two_reaches) { bool swap = ai_bool("swap"); std::vector<BB::Node> n; for (int k = 0; k < 2; ++k) { n.push_back((k == 0) == swap ? BB::SourceNode{S::kDistanceRemainingInMultiplesOfBrushSize, OOR::kClamp, {0, 1.25f / kSize}} : BB::SourceNode{S::kDistanceRemainingInMultiplesOfBrushSize, OOR::kClamp, {0, .5f / kSize}}); n.push_back(To()); n.push_back((k == 0) == swap ? BB::SourceNode{S::kTimeSinceInputInSeconds, OOR::kClamp, {0, 2.25f}} : BB::SourceNode{S::kTimeSinceInputInSeconds, OOR::kClamp, {0, .25f}}); n.push_back(To(T::kPositionOffsetYInMultiplesOfBrushSize)); } Grow(Tip(n), {0, 0, 3}, true); }
PROP(grow_damped) { int k = (int)ai_split(ai_i32(0, 2, "damping")); Grow(Tip({BB::SourceNode{S::kNormalizedPressure, OOR::kClamp, {0, 1}}, BB::DampingNode{k == 0 ? BB::DampingSource::kDistanceInCentimeters : k == 1 ? BB::DampingSource::kDistanceInMultiplesOfBrushSize : BB::DampingSource::kTimeInSeconds, .5f}, To(), BB::SourceNode{S::kTiltInRadians, OOR::kClamp, {0, 1}}, BB::DampingNode{BB::DampingSource::kTimeInSeconds, .75f}, To(T::kPositionOffsetYInMultiplesOfBrushSize)}), kAll, true, ai_bool("reuse")); }
PROP(grow_others) { int k = (int)ai_split(ai_i32(0, 4, "node")); BB::SourceNode p{S::kNormalizedPressure, OOR::kClamp, {0, 1}}, q{S::kTiltInRadians, OOR::kClamp, {0, 2}}; std::vector<BB::Node> n = {p}; if (k == 0) n.push_back(BB::FallbackFilterNode{BB::OptionalInputProperty::kTilt}); else if (k == 1) n.push_back(BB::ToolTypeFilterNode{.enabled_tool_types = {.touch = true}}); else if (k == 2) n.push_back(BB::ResponseNode{EasingFunction{EasingFunction::Predefined::kLinear}}); else if (k == 3) { n.push_back(q); n.push_back(BB::BinaryOpNode{BB::BinaryOp::kSum}); } else { n.push_back(q); n.push_back(BB::ConstantNode{.5f}); n.push_back(BB::InterpolationNode{BB::Interpolation::kLerp}); } n.push_back(To()); Grow(Tip(n), kAll, true); }
PROP(grow_gap) { int k = (int)ai_split(ai_i32(0, 4, "gap")); BrushTip t = Tip({BB::SourceNode{S::kNormalizedPressure, OOR::kClamp, {0, 1}}, BB::DampingNode{BB::DampingSource::kTimeInSeconds, .5f}, To()}); if (k != 1) t.particle_gap_distance_scale = (k == 3 ? 2.5f : .75f) / kSize; if (k == 1 || k >= 3) t.particle_gap_duration = Duration32::Seconds(k == 4 ? 1.5f : .375f); Grow(t, kAll, false, ai_bool("reuse"), 0); }
PROP(grow_gap_direction) { bool target = ai_bool("target"); BrushTip t = target ? Tip({BB::SourceNode{S::kNormalizedPressure, OOR::kClamp, {0, 1}}, To(T::kPositionOffsetForwardInMultiplesOfBrushSize)}) : Tip({BB::SourceNode{S::kNormalizedDirectionX, OOR::kClamp, {-1, 1}}, To()}); t.particle_gap_distance_scale = .75f / kSize; Grow(t, kLess, false, false, 0); }
// without behaviors, every input is one tip state at its place with the brush's own shape
PROP(plain_states) {
  BrushTip tip; tip.scale = {ai_f32_in(.5, 2, "sx"), ai_f32_in(.5, 2, "sy")}; tip.pinch = ai_f32_in(0, 1, "pinch"); std::vector<Input> in = Stable(); int stable = (int)ai_split(ai_i32(0, 5, "stable")); BrushTipModeler m; m.StartStroke(&tip, kSize); m.UpdateStroke(StateOf(in, stable, 6, 0), in); States s; Put(s, m.NewFixedTipStates()); ai_assert(s.size() == size_t(stable), "stable-inputs-are-fixed"); Put(s, m.VolatileTipStates()); ai_assert(s.size() == 6, "one-state-per-input"); if (s.size() != 6) ai_stop(); for (int k = 0; k < 6; ++k) { ai_ident_f(s[k].position.x, in[k].position.x, "state-at-its-input"); ai_ident_f(s[k].position.y, in[k].position.y, "state-at-its-input"); ai_same(s[k].width, (double)kSize * tip.scale.x, 1e-6, "brush-size"); ai_same(s[k].height, (double)kSize * tip.scale.y, 1e-6, "brush-size"); ai_ident_f(s[k].pinch, tip.pinch, "tip-shape"); }
  m.UpdateStroke(StateOf(in, stable, 6, 0), in); ai_assert(m.NewFixedTipStates().empty() && m.VolatileTipStates().size() == size_t(6 - stable), "fixed-states-handed-out-once");
}
// a missing value leaves the target untouched
PROP(initial_modifier) { T t = (T)ai_split(ai_i32(0, 14, "target")); BrushTip tip = Tip({BB::SourceNode{S::kNormalizedPressure, OOR::kClamp, {0, 1}}, To(t)}), bare = Tip({}); std::vector<Input> in = {At(0, 0), At(2, 1)}; for (Input& i : in) i.pressure = StrokeInput::kNoPressure; BrushTipModeler a, b; a.StartStroke(&tip, kSize); b.StartStroke(&bare, kSize); a.UpdateStroke(StateOf(in, 0, 1, 0), in); b.UpdateStroke(StateOf(in, 0, 1, 0), in); ai_assert(a.VolatileTipStates().size() == 2 && b.VolatileTipStates().size() == 2, "one-state-per-input"); for (int k = 0; k < 2; ++k) SameState(a.VolatileTipStates()[k], b.VolatileTipStates()[k], "untouched-without-a-value"); }
// each target keeps its own running modifier
PROP(separate_targets) { std::vector<Input> in = {At(0, 0), At(2, 1)}; BrushTip two = Tip({BB::SourceNode{S::kNormalizedPressure, OOR::kClamp, {0, 1}}, BB::DampingNode{BB::DampingSource::kTimeInSeconds, .5f}, To(T::kPinchOffset), BB::SourceNode{S::kTiltInRadians, OOR::kClamp, {0, 2}}, BB::DampingNode{BB::DampingSource::kTimeInSeconds, .25f}, To(T::kCornerRoundingOffset)}), p = Tip({BB::SourceNode{S::kNormalizedPressure, OOR::kClamp, {0, 1}}, BB::DampingNode{BB::DampingSource::kTimeInSeconds, .5f}, To(T::kPinchOffset)}), q = Tip({BB::SourceNode{S::kTiltInRadians, OOR::kClamp, {0, 2}}, BB::DampingNode{BB::DampingSource::kTimeInSeconds, .25f}, To(T::kCornerRoundingOffset)});
  BrushTipModeler m[3]; const BrushTip* t[3] = {&two, &p, &q}; for (int k = 0; k < 3; ++k) { m[k].StartStroke(t[k], kSize); m[k].UpdateStroke(StateOf(in, 0, 1, 0), in); ai_assert(m[k].VolatileTipStates().size() == 2, "one-state-per-input"); } for (int k = 0; k < 2; ++k) { ai_ident_f(m[0].VolatileTipStates()[k].pinch, m[1].VolatileTipStates()[k].pinch, "behaviors-do-not-interfere"); ai_ident_f(m[0].VolatileTipStates()[k].percent_radius, m[2].VolatileTipStates()[k].percent_radius, "behaviors-do-not-interfere"); } }
PROP(unfinished) {
  float now = ai_f32_in(0, 100, "now"), hi = ai_f32_in(.5, 50, "reach"); int k = (int)ai_split(ai_i32(0, 5, "tip")); bool rev = ai_bool("falling"); OOR o = k == 3 ? OOR::kRepeat : k == 4 ? OOR::kMirror : OOR::kClamp; S src = k == 0 ? S::kTimeSinceInputInSeconds : k == 1 ? S::kTimeSinceInputInMillis : k == 2 ? S::kTimeOfInputInSeconds : k == 5 ? S::kDistanceRemainingInMultiplesOfBrushSize : S::kTimeSinceInputInSeconds; BB::SourceNode n{src, o, {0, hi}}; if (rev) std::swap(n.source_value_range[0], n.source_value_range[1]); BrushTip t = Tip({n, To()}); BrushTipModeler m; m.StartStroke(&t, kSize); State st; st.complete_elapsed_time = Duration32::Seconds(now); bool want = k == 3 || k == 4;
  if (k == 0) { if (now < hi) { ai_assert(m.HasUnfinishedTimeBehaviors(st), "unfinished-exactly-before-the-reach"); return; } else { ai_assert(!m.HasUnfinishedTimeBehaviors(st), "unfinished-exactly-before-the-reach"); return; } }
  if (k == 1) { Duration32 reach = Duration32::Millis(hi); if (now < reach.ToSeconds()) { ai_assert(m.HasUnfinishedTimeBehaviors(st), "unfinished-exactly-before-the-reach"); return; } else { ai_assert(!m.HasUnfinishedTimeBehaviors(st), "unfinished-exactly-before-the-reach"); return; } }
  ai_assert(m.HasUnfinishedTimeBehaviors(st) == want, "unfinished-exactly-before-the-reach");
}
PROP(unfinished_since_real) { BrushTip t = Tip({BB::SourceNode{S::kTimeSinceInputInSeconds, OOR::kClamp, {0, 4}}, To()}); BrushTipModeler m; m.StartStroke(&t, kSize); State st; st.complete_elapsed_time = Duration32::Seconds(10); float real = ai_f32_in(0, 10, "real"); st.total_real_elapsed_time = Duration32::Seconds(real); if (real > 6) { ai_assert(m.HasUnfinishedTimeBehaviors(st), "time-since-the-last-real-input"); } else { ai_assert(!m.HasUnfinishedTimeBehaviors(st), "time-since-the-last-real-input"); } }
// ---- particles: input k is at distance and position k.x, at time t(k)
namespace {
void Particles(float gap, float wait, const std::vector<float>& d, const std::vector<float>& t, const std::vector<float>& want, bool fixed) {
  BrushTip tip; tip.particle_gap_distance_scale = gap / kSize; tip.particle_gap_duration = Duration32::Seconds(wait); std::vector<Input> in; for (size_t k = 0; k < d.size(); ++k) { Input i = At(d[k], t[k]); i.position.y = 3 * d[k]; in.push_back(i); } BrushTipModeler m; m.StartStroke(&tip, kSize); m.UpdateStroke(StateOf(in, fixed ? in.size() : 0, in.size(), 0), in); States s; Put(s, m.NewFixedTipStates()); Put(s, m.VolatileTipStates());
  ai_assert(s.size() == 2 * want.size(), "one-particle-per-gap"); if (s.size() != 2 * want.size()) ai_stop(); for (size_t k = 0; k < want.size(); ++k) { ai_near(s[2 * k].position.x, want[k], 1e-4, "particle-one-gap-after-the-last"); ai_near(s[2 * k].position.y, 3 * want[k], 1e-4, "particle-one-gap-after-the-last"); ai_assert(s[2 * k].width == kSize && s[2 * k].height == kSize, "particle-has-the-tip-size"); ai_assert(s[2 * k + 1].width == 0 && s[2 * k + 1].height == 0, "particles-are-separated"); }
}
}
PROP(particles_distance) { bool f = ai_bool("fixed"); Particles(1, 0, {0, 2.5f, 4.25f, 4.5f, 6.125f}, {0, 1, 2, 3, 4}, {0, 1, 2, 3, 4, 5, 6}, f); Particles(.75f, 0, {0, 2, 3.125f}, {0, 1, 1}, {0, .75f, 1.5f, 2.25f, 3}, f); Particles(5, 0, {0, 2, 4, 6, 8}, {0, 1, 2, 3, 4}, {0, 5}, f); }
PROP(particles_time) { bool f = ai_bool("fixed"); Particles(0, 1, {0, 4, 5, 13}, {0, 2.25f, 4.5f, 6.5f}, {0, 1.77778f, 3.55556f, 4.33333f, 4.77778f, 7, 11}, f); Particles(0, 3, {0, 4, 5, 13}, {0, 2, 4, 6.25f}, {0, 4.5f, 12.11111f}, f); Particles(0, 1, {0, 4, 5}, {0, 0, 2.25f}, {0, 4.44444f, 4.88889f}, f); }
PROP(particles_both) { bool f = ai_bool("fixed"); Particles(1, 1, {0, 4, 5.0625f, 6.25f}, {0, 2.125f, 4, 6}, {0, 1.88235f, 3.76471f, 4.76471f, 5.76471f}, f); Particles(3, 1, {0, 4, 8}, {0, 2, 4}, {0, 3, 6}, f); }
PROP(particles_symbolic) { float g = ai_f32_in(1.1, 1.9, "gap"); BrushTip tip; tip.particle_gap_distance_scale = g; std::vector<Input> in = {At(0, 0), At(2, 1)}; BrushTipModeler m; m.StartStroke(&tip, 1); m.UpdateStroke(StateOf(in, 0, 2, 0), in); ai_assert(m.VolatileTipStates().size() == 4, "one-particle-per-gap"); if (m.VolatileTipStates().size() == 4) ai_near(m.VolatileTipStates()[2].position.x, g, 1e-3, "particle-one-gap-after-the-last"); }
PROP(tip_checks) { ai_opt("allow-check-failure"); float size = NonNan("size"); bool null = ai_bool("no tip"); BrushTip t; BrushTipModeler m; m.StartStroke(null ? nullptr : &t, size); ai_assert(!null && size > 0 && ai_finite(size), "tip-and-size-checked"); ai_reach("reach-started"); }
