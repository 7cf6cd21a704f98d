// The tip state made from a brush tip and behavior modifiers: each target moves exactly its field, and every field stays in its documented range.
#include <array>
#include <optional>
#include "specs/common.h"
#include "ink/strokes/internal/brush_tip_modeler_helpers.h"
#include "ink/strokes/internal/brush_tip_state.h"
using namespace ink; using namespace ink::strokes_internal;
using BB = BrushBehavior; using T = BB::Target;
namespace {
constexpr double kB = 1e6, kQ = 1.57079637050628662109;
BrushTip AnyTip() { BrushTip t; t.scale = {ai_f32_in(.1, 10, "sx"), ai_f32_in(.1, 10, "sy")}; t.corner_rounding = ai_f32_in(0, 1, "corner"); t.slant = Angle::Radians(ai_f32_in(-kQ, kQ, "slant")); t.pinch = ai_f32_in(0, 1, "pinch"); t.rotation = Angle::Radians(ai_f32_in(-100, 100, "rotation")); t.opacity_multiplier = ai_f32_in(0, 2, "opacity"); return t; }
Point AnyPos() { return {ai_f32_in(-kB, kB, "px"), ai_f32_in(-kB, kB, "py")}; }
float AnySize() { return ai_f32_in(.01, 1000, "size"); }
T AnyTarget(const char* n) { return static_cast<T>(ai_split(ai_i32(0, 14, n))); }
void Bounds(const BrushTipState& s, const BrushTip& t, float size) {
  float w = size * t.scale.x, h = size * t.scale.y; ai_assert(ai_and(ai_fle(0, s.width), ai_fle(s.width, w * 2.f)), "width-between-zero-and-twice-base"); ai_assert(ai_and(ai_fle(0, s.height), ai_fle(s.height, h * 2.f)), "height-between-zero-and-twice-base");
  ai_assert(In(s.percent_radius, 0, 1), "percent-radius-in-unit-range"); ai_assert(In(s.pinch, 0, 1), "pinch-in-unit-range"); ai_assert(In(s.slant.ValueInRadians(), -kQ, kQ), "slant-within-quarter-turn"); ai_assert(In(s.hue_offset_in_full_turns, 0, 1), "hue-offset-in-unit-range"); ai_assert(In(s.saturation_multiplier, 0, 2), "saturation-zero-to-two"); ai_assert(In(s.luminosity_shift, -1, 1), "luminosity-plus-minus-one"); ai_assert(In(s.opacity_multiplier, 0, 2), "opacity-zero-to-two"); ai_assert(ai_finite(s.rotation.ValueInRadians()), "rotation-finite"); ai_assert(ai_and(ai_finite(s.position.x), ai_finite(s.position.y)), "position-finite"); }
// every field but those in `except` is the base value
enum F { kPos = 1, kW = 2, kH = 4, kRad = 8, kRot = 16, kSlant = 32, kPinch = 64, kHue = 128, kSat = 256, kLum = 512, kOp = 1024 };
void Others(const BrushTipState& s, const BrushTip& t, float size, Point p, int except) {
  if (!(except & kPos)) { ai_same(s.position.x, p.x, 1e-6, "other-fields-unchanged"); ai_same(s.position.y, p.y, 1e-6, "other-fields-unchanged"); }
  if (!(except & kW)) ai_same(s.width, (double)size * t.scale.x, 1e-6, "other-fields-unchanged"); if (!(except & kH)) ai_same(s.height, (double)size * t.scale.y, 1e-6, "other-fields-unchanged");
  if (!(except & kRad)) ai_ident_f(s.percent_radius, t.corner_rounding, "other-fields-unchanged"); if (!(except & kRot)) ai_ident_f(s.rotation.ValueInRadians(), t.rotation.ValueInRadians(), "other-fields-unchanged"); if (!(except & kSlant)) ai_ident_f(s.slant.ValueInRadians(), t.slant.ValueInRadians(), "other-fields-unchanged"); if (!(except & kPinch)) ai_ident_f(s.pinch, t.pinch, "other-fields-unchanged");
  if (!(except & kHue)) ai_assert(s.hue_offset_in_full_turns == 0, "other-fields-unchanged"); if (!(except & kSat)) ai_assert(s.saturation_multiplier == 1, "other-fields-unchanged"); if (!(except & kLum)) ai_assert(s.luminosity_shift == 0, "other-fields-unchanged"); if (!(except & kOp)) ai_ident_f(s.opacity_multiplier, t.opacity_multiplier, "other-fields-unchanged"); }
int Fields(T t) { static constexpr int f[] = {kW, kH, kW | kH, kSlant, kPinch, kRot, kRad, kPos, kPos, kPos, kPos, kHue, kSat, kLum, kOp}; return f[int(t)]; }
}
PROP(tip_none) { BrushTip t = AnyTip(); Point p = AnyPos(); float size = AnySize(); BrushTipState s = CreateTipState(p, std::nullopt, t, size, {}, {}); Others(s, t, size, p, 0); Bounds(s, t, size); }
PROP(tip_one) { T k = AnyTarget("target"); BrushTip t = AnyTip(); Point p = AnyPos(); float size = AnySize(), m = ai_f32_in(-kB, kB, "modifier"); bool dir = ai_bool("moving"); BrushTipState s = CreateTipState(p, dir ? std::optional<Angle>(Angle::Radians(ai_f32_in(-3, 3, "direction"))) : std::nullopt, t, size, {&k, 1}, {&m, 1}); Others(s, t, size, p, Fields(k)); Bounds(s, t, size); }
PROP(tip_two) { T k[2] = {AnyTarget("first"), AnyTarget("second")}; BrushTip t = AnyTip(); Point p = AnyPos(); float size = AnySize(); float m[2] = {ai_f32_in(-kB, kB, "m0"), ai_f32_in(-kB, kB, "m1")}; BrushTipState s = CreateTipState(p, std::nullopt, t, size, k, m); Others(s, t, size, p, Fields(k[0]) | Fields(k[1])); Bounds(s, t, size); }
// values, for modifiers small enough not to clamp
static BrushTipState One(T k, const BrushTip& t, Point p, float size, float m, std::optional<Angle> d = std::nullopt) { return CreateTipState(p, d, t, size, {&k, 1}, {&m, 1}); }
PROP(tip_value) { T k = AnyTarget("target"); BrushTip t; t.scale = {ai_f32_in(.1, 10, "sx"), ai_f32_in(.1, 10, "sy")}; t.corner_rounding = ai_f32_in(.1, .4, "corner"); t.slant = Angle::Radians(ai_f32_in(.1, .4, "slant")); t.pinch = ai_f32_in(.1, .4, "pinch"); t.rotation = Angle::Radians(ai_f32_in(.1, 2, "rotation")); t.opacity_multiplier = ai_f32_in(.5, 1, "opacity"); Point p = AnyPos(); float size = AnySize(), m = ai_f32_in(.1, .5, "modifier"), d = ai_f32_in(.1, 1, "direction"); BrushTipState s = One(k, t, p, size, m, Angle::Radians(d)); double M = m, S = size, c = std::cos(d), n = std::sin(d);
  switch (k) { case T::kWidthMultiplier: ai_same(s.width, S * t.scale.x * M, 1e-5, "width-scaled"); break; case T::kHeightMultiplier: ai_same(s.height, S * t.scale.y * M, 1e-5, "height-scaled"); break; case T::kSizeMultiplier: ai_same(s.width, S * t.scale.x * M, 1e-5, "width-scaled"); ai_same(s.height, S * t.scale.y * M, 1e-5, "height-scaled"); break;
    case T::kSlantOffsetInRadians: ai_same(s.slant.ValueInRadians(), M + t.slant.ValueInRadians(), 1e-5, "slant-shifted"); break; case T::kPinchOffset: ai_same(s.pinch, M + t.pinch, 1e-5, "pinch-shifted"); break; case T::kRotationOffsetInRadians: ai_same(s.rotation.ValueInRadians(), M + t.rotation.ValueInRadians(), 1e-5, "rotation-shifted"); break; case T::kCornerRoundingOffset: ai_same(s.percent_radius, M + t.corner_rounding, 1e-5, "corner-rounding-shifted"); break;
    case T::kPositionOffsetXInMultiplesOfBrushSize: ai_same(s.position.x, p.x + M * S, 1e-5, "position-shifted"); ai_same(s.position.y, p.y, 1e-5, "position-shifted"); break; case T::kPositionOffsetYInMultiplesOfBrushSize: ai_same(s.position.y, p.y + M * S, 1e-5, "position-shifted"); ai_same(s.position.x, p.x, 1e-5, "position-shifted"); break;
    case T::kPositionOffsetForwardInMultiplesOfBrushSize: ai_same(s.position.x, p.x + M * S * c, 1e-5, "position-shifted-forward"); ai_same(s.position.y, p.y + M * S * n, 1e-5, "position-shifted-forward"); break; case T::kPositionOffsetLateralInMultiplesOfBrushSize: ai_same(s.position.x, p.x - M * S * n, 1e-4, "position-shifted-left"); ai_same(s.position.y, p.y + M * S * c, 1e-4, "position-shifted-left"); break;
    case T::kHueOffsetInRadians: ai_same(s.hue_offset_in_full_turns, M / (2 * 3.14159265358979), 1e-5, "hue-shifted"); break; case T::kSaturationMultiplier: ai_same(s.saturation_multiplier, M, 1e-5, "saturation-scaled"); break; case T::kLuminosity: ai_same(s.luminosity_shift, M, 1e-5, "luminosity-shifted"); break; case T::kOpacityMultiplier: ai_same(s.opacity_multiplier, M * t.opacity_multiplier, 1e-5, "opacity-scaled"); break; } }
PROP(tip_combine) { T k = AnyTarget("target"); BrushTip t; t.corner_rounding = .1f; t.pinch = .1f; Point p = AnyPos(); float size = AnySize(), a = ai_f32_in(.1, .3, "a"), b = ai_f32_in(.1, .3, "b"); float m[2] = {a, b}; T kk[2] = {k, k}; Angle d = Angle::Radians(.5f); BrushTipState s = CreateTipState(p, d, t, size, kk, m); bool mul = (int)k < 3 || k == T::kSaturationMultiplier || k == T::kOpacityMultiplier; BrushTipState one = One(k, t, p, size, .2f, d); double r = mul ? (double)a * b / .2 : ((double)a + b) / .2;
  switch (k) { case T::kWidthMultiplier: ai_same(s.width, one.width * r, 1e-5, "modifiers-combine"); break; case T::kHeightMultiplier: ai_same(s.height, one.height * r, 1e-5, "modifiers-combine"); break; case T::kSizeMultiplier: ai_same(s.width, one.width * r, 1e-5, "modifiers-combine"); ai_same(s.height, one.height * r, 1e-5, "modifiers-combine"); break; case T::kSlantOffsetInRadians: ai_same(s.slant.ValueInRadians(), (double)a + b, 1e-5, "modifiers-combine"); break; case T::kPinchOffset: ai_same(s.pinch, .1f + (double)a + b, 1e-5, "modifiers-combine"); break; case T::kRotationOffsetInRadians: ai_same(s.rotation.ValueInRadians(), (double)a + b, 1e-5, "modifiers-combine"); break; case T::kCornerRoundingOffset: ai_same(s.percent_radius, .1f + (double)a + b, 1e-5, "modifiers-combine"); break; case T::kHueOffsetInRadians: ai_same(s.hue_offset_in_full_turns, one.hue_offset_in_full_turns * r, 1e-5, "modifiers-combine"); break; case T::kSaturationMultiplier: ai_same(s.saturation_multiplier, (double)a * b, 1e-5, "modifiers-combine"); break; case T::kLuminosity: ai_same(s.luminosity_shift, (double)a + b, 1e-5, "modifiers-combine"); break; case T::kOpacityMultiplier: ai_same(s.opacity_multiplier, (double)a * b, 1e-5, "modifiers-combine"); break; default: ai_same(s.position.x, p.x + (one.position.x - (double)p.x) * r, 1e-4, "modifiers-combine"); ai_same(s.position.y, p.y + (one.position.y - (double)p.y) * r, 1e-4, "modifiers-combine"); } }
PROP(tip_no_direction) { bool f = ai_bool("forward"); BrushTip t; Point p = AnyPos(); BrushTipState s = One(f ? T::kPositionOffsetForwardInMultiplesOfBrushSize : T::kPositionOffsetLateralInMultiplesOfBrushSize, t, p, AnySize(), ai_f32_in(-kB, kB, "m")); ai_same(s.position.x, p.x, 1e-6, "directional-offset-needs-a-direction"); ai_same(s.position.y, p.y, 1e-6, "directional-offset-needs-a-direction"); }
// ---- interpolation of tip states and modeled inputs ----
PROP(lerp_state) { BrushTipState a, b; float t = ai_f32_in(0, 1, "t"); a.position = {1, 2}; b.position = AnyPos(); float v[24]; for (int i = 0; i < 10; ++i) v[i] = ai_f32_in(0, 1, "v"); a.width = v[0]; b.width = v[1]; a.height = v[2]; b.height = v[3]; a.percent_radius = v[4]; b.percent_radius = v[5]; a.slant = Angle::Radians(v[6]); b.slant = Angle::Radians(v[7]); a.pinch = v[8]; b.pinch = v[9]; a.rotation = b.rotation = Angle(); a.hue_offset_in_full_turns = a.saturation_multiplier = a.luminosity_shift = a.opacity_multiplier = 0; b.hue_offset_in_full_turns = ai_f32("h"); b.saturation_multiplier = ai_f32("s"); b.luminosity_shift = ai_f32("l"); b.opacity_multiplier = ai_f32("o"); BrushTipState c = BrushTipState::LerpShapeAttributes(a, b, t);
  auto L = [&](double x, double y) { return x + (y - x) * t; }; ai_same(c.width, L(v[0], v[1]), 1e-6, "shape-interpolated"); ai_same(c.height, L(v[2], v[3]), 1e-6, "shape-interpolated"); ai_same(c.percent_radius, L(v[4], v[5]), 1e-6, "shape-interpolated"); ai_same(c.slant.ValueInRadians(), L(v[6], v[7]), 1e-6, "shape-interpolated"); ai_same(c.pinch, L(v[8], v[9]), 1e-6, "shape-interpolated");
  ai_ident_f(c.position.x, b.position.x, "other-attributes-from-second"); ai_ident_f(c.position.y, b.position.y, "other-attributes-from-second"); ai_ident_f(c.hue_offset_in_full_turns, b.hue_offset_in_full_turns, "other-attributes-from-second"); ai_ident_f(c.saturation_multiplier, b.saturation_multiplier, "other-attributes-from-second"); ai_ident_f(c.luminosity_shift, b.luminosity_shift, "other-attributes-from-second"); ai_ident_f(c.opacity_multiplier, b.opacity_multiplier, "other-attributes-from-second"); }
PROP(lerp_input) { ModeledStrokeInput a, b; float t = ai_f32_in(0, 1, "t"); float v[20]; for (int i = 0; i < 20; ++i) v[i] = ai_f32_in(0, 1, "v"); a.position = {v[0], v[1]}; b.position = {v[2], v[3]}; a.velocity = {v[4], v[5]}; b.velocity = {v[6], v[7]}; a.acceleration = {v[8], v[9]}; b.acceleration = {v[10], v[11]}; a.traveled_distance = v[12]; b.traveled_distance = v[13]; a.elapsed_time = Duration32::Seconds(v[14]); b.elapsed_time = Duration32::Seconds(v[15]); a.pressure = v[16]; b.pressure = v[17]; a.tilt = Angle::Radians(v[18]); b.tilt = Angle::Radians(v[19]); a.orientation = b.orientation = Angle(); ModeledStrokeInput c = Lerp(a, b, t);
  auto L = [&](int i, int j) { return v[i] + ((double)v[j] - v[i]) * t; }; ai_same(c.position.x, L(0, 2), 1e-5, "input-interpolated"); ai_same(c.position.y, L(1, 3), 1e-5, "input-interpolated"); ai_same(c.velocity.x, L(4, 6), 1e-5, "input-interpolated"); ai_same(c.velocity.y, L(5, 7), 1e-5, "input-interpolated"); ai_same(c.acceleration.x, L(8, 10), 1e-5, "input-interpolated"); ai_same(c.acceleration.y, L(9, 11), 1e-5, "input-interpolated"); ai_same(c.traveled_distance, L(12, 13), 1e-5, "input-interpolated"); ai_same(c.elapsed_time.ToSeconds(), L(14, 15), 1e-5, "input-interpolated"); ai_same(c.pressure, L(16, 17), 1e-5, "input-interpolated"); ai_same(c.tilt.ValueInRadians(), L(18, 19), 1e-5, "input-interpolated"); }
PROP(lerp_rotation_range) { float x = ai_f32_in(-20, 20, "a"), y = ai_f32_in(-20, 20, "b"), t = ai_f32_in(0, 1, "t"); BrushTipState a{}, b{}; a.rotation = Angle::Radians(x); b.rotation = Angle::Radians(y); double r = BrushTipState::LerpShapeAttributes(a, b, t).rotation.ValueInRadians(); ai_assert(ai_and(ai_fle(0, r), ai_flt(r, kTwoPiF)), "rotation-normalised"); ModeledStrokeInput p, q; p.orientation = Angle::Radians(ai_f32_in(0, 6.2832, "oa")); q.orientation = Angle::Radians(ai_f32_in(0, 6.2832, "ob")); double o = Lerp(p, q, t).orientation.ValueInRadians(); ai_assert(ai_and(ai_fle(0, o), ai_flt(o, kTwoPiF)), "orientation-normalised"); }
// what neither input has stays absent, whatever the fraction
PROP(lerp_missing) { ModeledStrokeInput p, q; p.position = {1, 2}; q.position = {3, 5}; p.pressure = q.pressure = StrokeInput::kNoPressure; p.tilt = q.tilt = StrokeInput::kNoTilt; p.orientation = q.orientation = StrokeInput::kNoOrientation; float t = ai_f32_in(0, 1, "t"); ModeledStrokeInput r = Lerp(p, q, t); ai_same(r.pressure, StrokeInput::kNoPressure, 0, "missing-pressure-stays-missing"); ai_same(r.tilt.ValueInRadians(), StrokeInput::kNoTilt.ValueInRadians(), 0, "missing-tilt-stays-missing"); ai_assert(r.orientation == StrokeInput::kNoOrientation, "missing-orientation-stays-missing"); }
PROP(lerp_orientation) { int i = (int)ai_split(ai_i32(0, 5, "a")), j = (int)ai_split(ai_i32(0, 5, "b")); double a = i * 1.01 + .1, b = j * 1.13 + .2, d = b - a; while (d > kPiF) d -= kTwoPiF; while (d < -kPiF) d += kTwoPiF; for (int k = 0; k <= 4; ++k) { double t = k * .25; ModeledStrokeInput p, q; p.orientation = Angle::Radians((float)a); q.orientation = Angle::Radians((float)b); double e = a + d * t - Lerp(p, q, (float)t).orientation.ValueInRadians(); while (e > kPiF) e -= kTwoPiF; while (e < -kPiF) e += kTwoPiF; ai_assert(e > -1e-4 && e < 1e-4, "orientation-takes-the-shorter-way"); } }
PROP(lerp_rotation_short_way) { int k = (int)ai_split(ai_i32(0, 2, "case")); float t = ai_f32_in(.01, .99, "t"), x = ai_f32_in(.5, 1, "a"), y = ai_f32_in(2, 3, "b"); BrushTipState a{}, b{}; double want; if (k == 0) { a.rotation = Angle::Radians(x); b.rotation = Angle::Radians(y); want = x + ((double)y - x) * t; } else if (k == 1) { a.rotation = Angle::Radians(y); b.rotation = Angle::Radians(x); want = y + ((double)x - y) * t; } else { float z = ai_f32_in(6, 6.2, "c"); x = ai_f32_in(2, 2.5, "d"); a.rotation = Angle::Radians(x); b.rotation = Angle::Radians(z); ai_assume(t < .2f); want = x + ((double)z - kTwoPiF - x) * t; } ai_same(BrushTipState::LerpShapeAttributes(a, b, t).rotation.ValueInRadians(), want, 1e-5, "rotation-takes-the-short-way"); }
// far past the ends: the value is the nearest end of the range, never past it and never short of it
PROP(tip_saturate) { T k = AnyTarget("target"); bool up = ai_bool("up"); BrushTip t; t.corner_rounding = .25f; t.pinch = .25f; t.slant = Angle::Radians(.5f); t.opacity_multiplier = .5f; float big = ai_f32_in(10, kB, "big"), m = up ? big : -big; BrushTipState s = One(k, t, AnyPos(), 8, m);
  switch (k) { case T::kWidthMultiplier: ai_assert(ai_feq(s.width, up ? 16 : 0), "clamped-to-range-end"); break; case T::kHeightMultiplier: ai_assert(ai_feq(s.height, up ? 16 : 0), "clamped-to-range-end"); break; case T::kSizeMultiplier: ai_assert(ai_and(ai_feq(s.width, up ? 16 : 0), ai_feq(s.height, up ? 16 : 0)), "clamped-to-range-end"); break; case T::kSlantOffsetInRadians: ai_assert(ai_feq(s.slant.ValueInRadians(), up ? kQ : -kQ), "clamped-to-range-end"); break; case T::kPinchOffset: ai_assert(ai_feq(s.pinch, up), "clamped-to-range-end"); break; case T::kCornerRoundingOffset: ai_assert(ai_feq(s.percent_radius, up), "clamped-to-range-end"); break; case T::kSaturationMultiplier: ai_assert(ai_feq(s.saturation_multiplier, up ? 2 : 0), "clamped-to-range-end"); break; case T::kLuminosity: ai_assert(ai_feq(s.luminosity_shift, up ? 1 : -1), "clamped-to-range-end"); break; case T::kOpacityMultiplier: ai_assert(ai_feq(s.opacity_multiplier, up ? 2 : 0), "clamped-to-range-end"); break; default: ai_stop(); } }
PROP(tip_wrap) { bool hue = ai_bool("hue"); bool down = ai_bool("down"); float m = down ? ai_f32_in(-6, -.5, "m") : ai_f32_in(6.5, 12, "m"); double w = (double)m + (down ? 2 : -2) * 3.14159265358979; BrushTip t; BrushTipState s = One(hue ? T::kHueOffsetInRadians : T::kRotationOffsetInRadians, t, AnyPos(), 8, m); if (hue) ai_same(s.hue_offset_in_full_turns, w / (2 * 3.14159265358979), 1e-5, "hue-wraps-around"); else ai_same(s.rotation.ValueInRadians(), w, 1e-5, "rotation-wraps-around"); }
