// Behavior nodes: every source, filter, operator, damping and target computes its documented value or null.
#include <array>
#include <optional>
#include <vector>
#include "specs/common.h"
#include "ink/strokes/internal/brush_tip_modeler_helpers.h"
using namespace ink; using namespace ink::strokes_internal;
using BB = BrushBehavior; using S = BB::Source;
namespace {
constexpr double kM = 1e4;
struct Ctx {
  ModeledStrokeInput in; StrokeInputModeler::State st; std::optional<Angle> dir; float size = 1; std::optional<InputMetrics> prev; std::vector<float> stack; std::array<float, 2> damped = {kNullBehaviorNodeValue, kNullBehaviorNodeValue}; std::array<float, 2> mods = {1, 1};
  void Run(const BehaviorNodeImplementation& n) { BehaviorNodeContext c{.input_modeler_state = st, .current_input = in, .current_travel_direction = dir, .brush_size = size, .previous_input_metrics = prev, .stack = stack, .damped_values = absl::MakeSpan(damped), .target_modifiers = absl::MakeSpan(mods)}; ProcessBehaviorNode(n, c); }
};
float R(const char* n) { return ai_f32_in(-kM, kM, n); }
float P(const char* n) { return ai_f32_in(0, kM, n); }
Ctx Any(bool pressure, bool tilt, bool orient, bool dir, bool unit) {
  Ctx c; c.in.position = {R("px"), R("py")}; c.in.velocity = {R("vx"), R("vy")}; c.in.acceleration = {R("ax"), R("ay")}; c.in.traveled_distance = P("traveled"); c.in.elapsed_time = Duration32::Seconds(P("elapsed"));
  if (pressure) c.in.pressure = ai_f32_in(0, 1, "pressure"); if (tilt) c.in.tilt = Angle::Radians(ai_f32_in(.01, 1.5, "tilt")); if (orient) c.in.orientation = Angle::Radians(ai_f32_in(.01, 3.1, "orientation"));
  if (dir) c.dir = Angle::Radians(ai_f32_in(.01, 3.1, "direction")); c.size = ai_f32_in(.5, 100, "size"); if (unit) c.st.stroke_unit_length = PhysicalDistance::Centimeters(ai_f32_in(.01, 10, "unit"));
  c.st.complete_elapsed_time = Duration32::Seconds(P("complete-time")); c.st.complete_traveled_distance = P("complete-distance"); c.st.total_real_elapsed_time = Duration32::Seconds(P("real-time")); c.st.total_real_distance = P("real-distance"); c.st.tool_type = StrokeInput::ToolType::kStylus; return c; }
// value of a source through an identity-like range wide enough never to clamp
constexpr double kLo = -1e9, kHi = 1e9;
void Check(Ctx& c, S s, std::optional<double> want, const char* present, const char* value) {
  c.Run(BB::SourceNode{s, BB::OutOfRange::kClamp, {float(kLo), float(kHi)}});
  ai_assert(c.stack.size() == 1, "source-pushes-one-value"); if (c.stack.size() != 1) return;
  if (!want.has_value()) { ai_assert(ai_isnan(c.stack[0]), present); return; }
  ai_assert(ai_not(ai_isnan(c.stack[0])), present); ai_same(c.stack[0], (*want - kLo) / (kHi - kLo), 1e-6, value); }
double Sq(double x) { return x * x; }
double Mag(Vec v) { return std::hypot(v.x, v.y); }
}
#define SRC(name, cond, src, expr) PROP(source_##name) { bool has = ai_bool("has"); Ctx c = Any(has, has, has, has, has); double size = c.size; double cm = has ? c.st.stroke_unit_length->ToCentimeters() : 0; (void)size; (void)cm; std::optional<double> w; if (cond) w = (expr); Check(c, S::src, w, "present-exactly-when-reported", "source-value"); }
SRC(pressure, has, kNormalizedPressure, c.in.pressure)
SRC(tilt, has, kTiltInRadians, c.in.tilt.ValueInRadians())
SRC(speed, true, kSpeedInMultiplesOfBrushSizePerSecond, Mag(c.in.velocity) / size)
SRC(vx, true, kVelocityXInMultiplesOfBrushSizePerSecond, c.in.velocity.x / size)
SRC(vy, true, kVelocityYInMultiplesOfBrushSizePerSecond, c.in.velocity.y / size)
SRC(direction_zero, has, kDirectionAboutZeroInRadians, c.dir->ValueInRadians())
SRC(direction_x, has, kNormalizedDirectionX, std::cos(c.dir->ValueInRadians()))
SRC(direction_y, has, kNormalizedDirectionY, std::sin(c.dir->ValueInRadians()))
SRC(distance, true, kDistanceTraveledInMultiplesOfBrushSize, c.in.traveled_distance / size)
SRC(time_s, true, kTimeOfInputInSeconds, c.in.elapsed_time.ToSeconds())
SRC(time_ms, true, kTimeOfInputInMillis, 1000 * (double)c.in.elapsed_time.ToSeconds())
SRC(remaining, true, kDistanceRemainingInMultiplesOfBrushSize, ((double)c.st.complete_traveled_distance - c.in.traveled_distance) / size)
SRC(since_s, true, kTimeSinceInputInSeconds, (double)c.st.complete_elapsed_time.ToSeconds() - c.in.elapsed_time.ToSeconds())
SRC(since_ms, true, kTimeSinceInputInMillis, 1000 * ((double)c.st.complete_elapsed_time.ToSeconds() - c.in.elapsed_time.ToSeconds()))
SRC(accel, true, kAccelerationInMultiplesOfBrushSizePerSecondSquared, Mag(c.in.acceleration) / size)
SRC(ax, true, kAccelerationXInMultiplesOfBrushSizePerSecondSquared, c.in.acceleration.x / size)
SRC(ay, true, kAccelerationYInMultiplesOfBrushSizePerSecondSquared, c.in.acceleration.y / size)
SRC(cm_speed, has, kInputSpeedInCentimetersPerSecond, Mag(c.in.velocity) * cm)
SRC(cm_vx, has, kInputVelocityXInCentimetersPerSecond, c.in.velocity.x * cm)
SRC(cm_vy, has, kInputVelocityYInCentimetersPerSecond, c.in.velocity.y * cm)
SRC(cm_distance, has, kInputDistanceTraveledInCentimeters, c.in.traveled_distance * cm)
SRC(cm_accel, has, kInputAccelerationInCentimetersPerSecondSquared, Mag(c.in.acceleration) * cm)
SRC(cm_ax, has, kInputAccelerationXInCentimetersPerSecondSquared, c.in.acceleration.x * cm)
SRC(cm_ay, has, kInputAccelerationYInCentimetersPerSecondSquared, c.in.acceleration.y * cm)
// sources with a special case
PROP(source_tilt_xy) { bool y = ai_bool("y"); int k = (int)ai_split(ai_i32(0, 4, "case")); Ctx c = Any(false, true, true, false, false); float t = c.in.tilt.ValueInRadians(), o = c.in.orientation.ValueInRadians(); S s = y ? S::kTiltYInRadians : S::kTiltXInRadians;
  if (k == 0) { double w = y ? std::atan(std::sin(o) * std::tan(t)) : std::atan(std::cos(o) * std::tan(t)); Check(c, s, w, "present-exactly-when-reported", "source-value"); return; }
  if (k == 1) { c.in.tilt = Angle(); Check(c, s, 0.0, "zero-tilt-has-zero-components", "source-value"); return; }
  if (k == 2) c.in.tilt = kQuarterTurn; if (k == 3) c.in.tilt = StrokeInput::kNoTilt; if (k == 4) c.in.orientation = StrokeInput::kNoOrientation; Check(c, s, std::nullopt, "null-when-indeterminate", "source-value"); }
PROP(source_orientation) { bool zero = ai_bool("about-zero"); int k = (int)ai_split(ai_i32(0, 4, "case")); Ctx c = Any(false, true, true, false, false); double o = c.in.orientation.ValueInRadians(); S s = zero ? S::kOrientationAboutZeroInRadians : S::kOrientationInRadians;
  if (k == 0) { Check(c, s, o, "present-exactly-when-reported", "source-value"); return; } if (k == 1) { c.in.tilt = StrokeInput::kNoTilt; Check(c, s, o, "orientation-without-tilt-reported", "source-value"); return; }
  if (k == 2) { float w = ai_f32_in(3.2, 6.2, "wide"); c.in.orientation = Angle::Radians(w); Check(c, s, zero ? w - 2 * 3.14159265358979 : w, "present-exactly-when-reported", "source-value"); return; }
  if (k == 3) c.in.tilt = Angle(); if (k == 4) c.in.orientation = StrokeInput::kNoOrientation; Check(c, s, std::nullopt, "null-when-indeterminate", "source-value"); }
PROP(source_direction_normalized) { int k = (int)ai_split(ai_i32(0, 2, "case")); Ctx c = Any(false, false, false, true, false); if (k == 0) { Check(c, S::kDirectionInRadians, c.dir->ValueInRadians(), "present-exactly-when-reported", "source-value"); return; } if (k == 1) { float d = ai_f32_in(-3.1, -.01, "negative"); c.dir = Angle::Radians(d); Check(c, S::kDirectionInRadians, d + 2 * 3.14159265358979, "present-exactly-when-reported", "source-value"); return; } c.dir.reset(); Check(c, S::kDirectionInRadians, std::nullopt, "null-when-indeterminate", "source-value"); }
PROP(source_predicted) { int k = (int)ai_split(ai_i32(0, 3, "which")); bool past = ai_bool("predicted"); Ctx c = Any(false, false, false, false, true); float lo = P("lo"), d = ai_f32_in(1, kM, "step"); float hi = ai_f32_in(1e4 + 1, 3e4, "hi"); (void)d;
  double w = past ? (double)hi - lo : 0, size = c.size, cm = c.st.stroke_unit_length->ToCentimeters(); c.in.traveled_distance = past ? hi : lo; c.st.total_real_distance = past ? lo : hi; c.in.elapsed_time = Duration32::Seconds(past ? hi : lo); c.st.total_real_elapsed_time = Duration32::Seconds(past ? lo : hi);
  switch (k) { case 0: Check(c, S::kPredictedDistanceTraveledInMultiplesOfBrushSize, w / size, "predicted-present", "predicted-only-past-real-input"); break; case 1: Check(c, S::kPredictedTimeElapsedInSeconds, w, "predicted-present", "predicted-only-past-real-input"); break; case 2: Check(c, S::kPredictedTimeElapsedInMillis, 1000 * w, "predicted-present", "predicted-only-past-real-input"); break; default: Check(c, S::kPredictedInputDistanceTraveledInCentimeters, w * cm, "predicted-present", "predicted-only-past-real-input"); } }
PROP(source_predicted_no_unit) { Ctx c = Any(false, false, false, false, false); Check(c, S::kPredictedInputDistanceTraveledInCentimeters, std::nullopt, "null-when-indeterminate", "source-value"); }
PROP(source_relative_acceleration) { int k = (int)ai_split(ai_i32(0, 3, "which")); Ctx c = Any(false, false, false, false, true); c.in.velocity.x = ai_f32_in(.01, kM, "vx+"); double size = c.size, cm = c.st.stroke_unit_length->ToCentimeters(); Vec u = c.in.velocity.AsUnitVec(), a = c.in.acceleration; double f = (double)a.x * u.x + (double)a.y * u.y, l = (double)a.y * u.x - (double)a.x * u.y;
  switch (k) { case 0: Check(c, S::kAccelerationForwardInMultiplesOfBrushSizePerSecondSquared, f / size, "relative-acceleration-present", "relative-acceleration"); break; case 1: Check(c, S::kAccelerationLateralInMultiplesOfBrushSizePerSecondSquared, l / size, "relative-acceleration-present", "relative-acceleration"); break; case 2: Check(c, S::kInputAccelerationForwardInCentimetersPerSecondSquared, f * cm, "relative-acceleration-present", "relative-acceleration"); break; default: Check(c, S::kInputAccelerationLateralInCentimetersPerSecondSquared, l * cm, "relative-acceleration-present", "relative-acceleration"); } }
PROP(source_relative_acceleration_no_unit) { bool k = ai_bool("which"); Ctx c = Any(false, false, false, false, false); Check(c, k ? S::kInputAccelerationForwardInCentimetersPerSecondSquared : S::kInputAccelerationLateralInCentimetersPerSecondSquared, std::nullopt, "null-when-indeterminate", "source-value"); }
// ranges: any finite range with distinct ends, any value
static float Source(BB::OutOfRange o, float lo, float hi, float v) { Ctx c; c.in.velocity = {v, 0}; c.size = 1; c.Run(BB::SourceNode{S::kVelocityXInMultiplesOfBrushSizePerSecond, o, {lo, hi}}); ai_assert(c.stack.size() == 1, "source-pushes-one-value"); return c.stack[0]; }
PROP(range_bounds) { int o = (int)ai_split(ai_i32(0, 2, "behavior")); float lo = Fin("lo"), hi = Fin("hi"), v = Fin("v"); ai_assume(ai_not(ai_feq(lo, hi))); float r = Source(static_cast<BB::OutOfRange>(o), lo, hi, v); ai_assert(ai_or(ai_isnan(r), In(r, 0, 1)), "source-value-in-unit-range-or-null"); }
PROP(range_inside) { int o = (int)ai_split(ai_i32(0, 2, "behavior")); float v = ai_f32_in(-.25, .25, "v"); float lo = ai_f32_in(-1.5, -1, "lo"), hi = ai_f32_in(1, 1.5, "hi"); bool flip = ai_bool("flip"); float r = flip ? Source(static_cast<BB::OutOfRange>(o), hi, lo, v) : Source(static_cast<BB::OutOfRange>(o), lo, hi, v); if (flip) ai_same(r, ((double)hi - v) / ((double)hi - lo), 1e-6, "source-value-is-linear-in-range"); else ai_same(r, ((double)v - lo) / ((double)hi - lo), 1e-6, "source-value-is-linear-in-range"); }
PROP(range_clamp) { float v = ai_f32_in(3, kM, "v"); ai_assert(Source(BB::OutOfRange::kClamp, 1, 2, v) == 1 && Source(BB::OutOfRange::kClamp, 2, 1, v) == 0 && Source(BB::OutOfRange::kClamp, -1, -2, -v) == 1, "clamped-to-nearest-end"); }
PROP(range_wrap) { int n = (int)ai_split(ai_i32(-3, 3, "period")); float v = ai_f32_in(.01, .99, "v"); float x = v + n; double f = (double)x - n; ai_same(Source(BB::OutOfRange::kRepeat, 0, 1, x), f, 1e-6, "repeat-is-fraction"); ai_same(Source(BB::OutOfRange::kMirror, 0, 1, x), n % 2 ? 1 - f : f, 1e-6, "mirror-alternates"); }
// ---- Filters and operators ----
static float Null() { return kNullBehaviorNodeValue; }
PROP(constant_node) { Ctx c; float v = Fin("v"); c.stack = {7}; c.Run(BB::ConstantNode{v}); ai_assert(c.stack.size() == 2 && c.stack[0] == 7, "constant-pushed"); ai_ident_f(c.stack[1], v, "constant-pushed"); }
PROP(fallback_node) { int p = (int)ai_split(ai_i32(0, 3, "property")), m = (int)ai_split(ai_i32(0, 7, "present")); Ctx c; float v = Fin("v"); c.stack = {7, v}; if (m & 1) c.in.pressure = ai_f32_in(0, 1, "p"); if (m & 2) c.in.tilt = Angle::Radians(ai_f32_in(0, 1.5, "t")); if (m & 4) c.in.orientation = Angle::Radians(ai_f32_in(0, 6, "o")); bool present = p == 0 ? m & 1 : p == 1 ? m & 2 : p == 2 ? m & 4 : (m & 6) == 6; c.Run(BB::FallbackFilterNode{static_cast<BB::OptionalInputProperty>(p)}); ai_assert(c.stack.size() == 2 && c.stack[0] == 7, "filter-replaces-top"); if (present) ai_assert(ai_isnan(c.stack[1]), "fallback-null-exactly-when-property-present"); else ai_ident_f(c.stack[1], v, "fallback-null-exactly-when-property-present"); }
PROP(tool_node) { int t = (int)ai_split(ai_i32(0, 3, "tool")), m = (int)ai_split(ai_i32(0, 15, "enabled")); using T = StrokeInput::ToolType; Ctx c; float v = Fin("v"); c.stack = {7, v}; static constexpr T tt[] = {T::kUnknown, T::kMouse, T::kTouch, T::kStylus}; c.st.tool_type = tt[t]; c.Run(BB::ToolTypeFilterNode{{.unknown = bool(m & 1), .mouse = bool(m & 2), .touch = bool(m & 4), .stylus = bool(m & 8)}}); ai_assert(c.stack.size() == 2 && c.stack[0] == 7, "filter-replaces-top"); if (m >> t & 1) ai_ident_f(c.stack[1], v, "tool-filter-passes-enabled-tools"); else ai_assert(ai_isnan(c.stack[1]), "tool-filter-passes-enabled-tools"); }
PROP(binary_null) { bool op = ai_bool("op"); int w = (int)ai_split(ai_i32(0, 2, "which")); Ctx c; float v = Fin("v"); c.stack = {7, w == 1 ? v : Null(), w == 0 ? v : Null()}; c.Run(BB::BinaryOpNode{op ? BB::BinaryOp::kSum : BB::BinaryOp::kProduct}); ai_assert(c.stack.size() == 2 && c.stack[0] == 7, "operator-replaces-operands"); ai_assert(ai_isnan(c.stack[1]), "null-operand-gives-null"); }
PROP(binary_value) { bool op = ai_bool("op"); Ctx c; float a = R("a"), b = R("b"); c.stack = {7, a, b}; c.Run(BB::BinaryOpNode{op ? BB::BinaryOp::kSum : BB::BinaryOp::kProduct}); ai_assert(c.stack.size() == 2 && c.stack[0] == 7, "operator-replaces-operands"); ai_same(c.stack[1], op ? (double)a + b : (double)a * b, 1e-6, "operator-value"); }
PROP(binary_finite) { bool op = ai_bool("op"); Ctx c; float a = Fin("a"), b = Fin("b"); c.stack = {a, b}; c.Run(BB::BinaryOpNode{op ? BB::BinaryOp::kSum : BB::BinaryOp::kProduct}); ai_assert(ai_or(ai_isnan(c.stack[0]), ai_finite(c.stack[0])), "overflow-becomes-null"); }
PROP(interpolation_null) { bool op = ai_bool("op"); int w = (int)ai_split(ai_i32(0, 2, "which")); Ctx c; c.stack = {7, 1, 2, 3}; c.stack[w + 1] = Null(); c.Run(BB::InterpolationNode{op ? BB::Interpolation::kLerp : BB::Interpolation::kInverseLerp}); ai_assert(c.stack.size() == 2 && c.stack[0] == 7, "operator-replaces-operands"); ai_assert(ai_isnan(c.stack[1]), "null-operand-gives-null"); }
PROP(interpolation_lerp) { Ctx c; float p = R("p"), a = R("a"), b = R("b"); c.stack = {7, p, a, b}; c.Run(BB::InterpolationNode{BB::Interpolation::kLerp}); ai_assert(c.stack.size() == 2 && c.stack[0] == 7, "operator-replaces-operands"); ai_same(c.stack[1], a + ((double)b - a) * p, 1e-6, "operator-value"); }
PROP(interpolation_inverse) { Ctx c; float p = R("p"), a = ai_f32_in(-kM, -1e-3, "a"), b = ai_f32_in(1e-3, kM, "b"); bool flip = ai_bool("flip"); if (flip) c.stack = {7, p, b, a}; else c.stack = {7, p, a, b}; c.Run(BB::InterpolationNode{BB::Interpolation::kInverseLerp}); ai_assert(c.stack.size() == 2 && c.stack[0] == 7, "operator-replaces-operands"); ai_same(c.stack[1], flip ? ((double)p - b) / ((double)a - b) : ((double)p - a) / ((double)b - a), 1e-6, "operator-value"); }
PROP(interpolation_degenerate) { Ctx c; float a = Fin("a"), p = Fin("p"); c.stack = {p, a, a}; c.Run(BB::InterpolationNode{BB::Interpolation::kInverseLerp}); ai_assert(ai_isnan(c.stack[0]), "empty-range-gives-null"); }
PROP(interpolation_finite) { bool op = ai_bool("op"); Ctx c; c.stack = {Fin("p"), Fin("a"), Fin("b")}; c.Run(BB::InterpolationNode{op ? BB::Interpolation::kLerp : BB::Interpolation::kInverseLerp}); ai_assert(ai_or(ai_isnan(c.stack[0]), ai_finite(c.stack[0])), "overflow-becomes-null"); }
// ---- Targets ----
PROP(target_null) { Ctx c; c.stack = {7, Null()}; c.Run(TargetNodeImplementation{1, {0, 5}}); ai_assert(c.stack.size() == 1 && c.stack[0] == 7, "target-pops-one"); ai_assert(c.mods[0] == 1 && c.mods[1] == 1, "null-keeps-last-modifier"); }
PROP(target_value) { Ctx c; float v = R("v"), a = R("a"), b = R("b"); c.stack = {7, v}; c.Run(TargetNodeImplementation{1, {a, b}}); ai_assert(c.stack.size() == 1 && c.stack[0] == 7, "target-pops-one"); ai_assert(c.mods[0] == 1, "only-own-modifier-written"); ai_same(c.mods[1], a + ((double)b - a) * v, 1e-6, "modifier-is-lerp-of-range"); }
PROP(target_finite) { Ctx c; c.stack = {Fin("v")}; c.Run(TargetNodeImplementation{1, {Fin("a"), Fin("b")}}); ai_assert(ai_finite(c.mods[1]), "modifier-stays-finite"); }
// ---- Damping ----
static DampingNodeImplementation Damp(BB::DampingSource s, float gap) { return {1, s, gap}; }
static BB::DampingSource AnyDamp() { return static_cast<BB::DampingSource>(ai_split(ai_i32(0, 2, "source"))); }
PROP(damping_snap) { auto s = AnyDamp(); int k = (int)ai_split(ai_i32(0, 1, "case")); Ctx c = Any(false, false, false, false, true); float v = Fin("v"); c.stack = {7, v}; if (k == 1) { c.damped[1] = R("last"); c.prev = InputMetrics{}; } c.Run(Damp(s, k == 0 ? P("gap") : 0)); ai_assert(c.stack.size() == 2 && c.stack[0] == 7, "filter-replaces-top"); ai_ident_f(c.stack[1], v, "first-or-undamped-value-snaps"); ai_ident_f(c.damped[1], v, "damped-value-remembered"); ai_assert(ai_isnan(c.damped[0]), "only-own-damped-value-written"); }
PROP(damping_null) { auto s = AnyDamp(); Ctx c = Any(false, false, false, false, true); float last = R("last"); bool has = ai_bool("has"); if (has) c.damped[1] = last; c.prev = InputMetrics{}; c.stack = {Null()}; c.Run(Damp(s, P("gap"))); if (has) { ai_ident_f(c.stack[0], last, "null-input-keeps-damped-value"); ai_ident_f(c.damped[1], last, "null-input-keeps-damped-value"); } else ai_assert(ai_isnan(c.stack[0]), "null-input-keeps-damped-value"); }
PROP(damping_no_unit) { Ctx c = Any(false, false, false, false, false); float v = R("v"); c.damped[1] = R("last"); c.prev = InputMetrics{}; c.stack = {v}; c.Run(Damp(BB::DampingSource::kDistanceInCentimeters, ai_f32_in(.1, 10, "gap"))); ai_ident_f(c.stack[0], v, "snaps-without-physical-units"); }
PROP(damping_no_progress) { auto s = AnyDamp(); Ctx c = Any(false, false, false, false, true); float last = R("last"); c.damped[1] = last; c.prev = InputMetrics{c.in.traveled_distance, c.in.elapsed_time}; c.stack = {R("v")}; c.Run(Damp(s, ai_f32_in(.1, 10, "gap"))); ai_ident_f(c.stack[0], last, "no-progress-keeps-damped-value"); }
PROP(damping_value) { auto s = AnyDamp(); Ctx c = Any(false, false, false, false, true); float v = R("v"), last = R("last"), gap = ai_f32_in(.1, 10, "gap"), d0 = P("d0"), t0 = P("t0"); c.in.traveled_distance = ai_f32_in(1e4 + 1, 2e4, "d1"); c.in.elapsed_time = Duration32::Seconds(ai_f32_in(1e4 + 1, 2e4, "t1")); c.prev = InputMetrics{d0, Duration32::Seconds(t0)}; c.damped[1] = last; c.stack = {v}; c.Run(Damp(s, gap));
  double delta = s == BB::DampingSource::kTimeInSeconds ? (double)c.in.elapsed_time.ToSeconds() - t0 : (double)c.in.traveled_distance - d0; double g = gap; if (s == BB::DampingSource::kDistanceInCentimeters) delta *= c.st.stroke_unit_length->ToCentimeters(); if (s == BB::DampingSource::kDistanceInMultiplesOfBrushSize) g *= c.size;
  ai_same(c.stack[0], v + ((double)last - v) * std::exp(-delta / g), 1e-5, "exponential-approach"); ai_ident_f(c.stack[0], c.damped[1], "damped-value-remembered"); }
PROP(damping_between) { auto s = AnyDamp(); Ctx c = Any(false, false, false, false, true); c.prev = InputMetrics{P("d0"), Duration32::Seconds(P("t0"))}; c.damped[1] = ai_f32_in(-1e38, 1e38, "last"); c.stack = {ai_f32_in(-1e38, 1e38, "v")}; c.Run(Damp(s, ai_f32_in(1e-6, kM, "gap"))); ai_assert(ai_or(ai_isnan(c.stack[0]), ai_finite(c.stack[0])), "overflow-becomes-null"); }
