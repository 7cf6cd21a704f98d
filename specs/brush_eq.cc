// Equality of brush specifications compares every field; equal values hash equally.
#include <array>
#include <vector>
#include "specs/common.h"
#include "ink/brush/brush_behavior.h"
#include "ink/brush/brush_paint.h"
#include "ink/brush/brush_tip.h"
#include "ink/brush/easing_function.h"
using namespace ink;
using BB = BrushBehavior;
using EF = EasingFunction;
using BP = BrushPaint;
// same: built alike; diff: one field changed
template <class X> static void Same(const X& a, const X& b) { ai_assert(a == b, "equal-when-all-fields-equal"); ai_assert(!(a != b), "equal-when-all-fields-equal"); }
template <class X> static void Differ(const X& a, const X& b) { ai_assert(!(a == b), "unequal-when-a-field-differs"); ai_assert(a != b, "unequal-when-a-field-differs"); ai_assert(!(b == a), "unequal-when-a-field-differs"); }
static float V(const char* n) { return ai_f32_in(0, 1, n); }
static float W(const char* n) { return ai_f32_in(2, 3, n); }
PROP(eq_tip) { int k = (int)ai_split(ai_i32(0, 11, "field")); float a = V("a"), b = V("b"); BrushTip t; t.scale = {a, b}; t.pinch = V("p"); t.corner_rounding = V("c"); t.slant = Angle::Radians(V("s")); t.rotation = Angle::Radians(V("r")); t.opacity_multiplier = V("o"); t.particle_gap_distance_scale = V("g"); t.particle_gap_duration = Duration32::Seconds(V("d")); t.behaviors.resize(1); BrushTip u = t; float w = W("w");
  switch (k) { case 0: Same(t, u); return; case 1: u.scale.x = w; break; case 2: u.scale.y = w; break; case 3: u.corner_rounding = w; break; case 4: u.slant = Angle::Radians(w); break; case 5: u.pinch = w; break; case 6: u.rotation = Angle::Radians(w); break; case 7: u.opacity_multiplier = w; break; case 8: u.particle_gap_distance_scale = w; break; case 9: u.particle_gap_duration = Duration32::Seconds(w); break; case 10: u.behaviors.clear(); break; default: u.behaviors[0].nodes = {BB::ConstantNode{1}}; break; } Differ(t, u); }
PROP(eq_source) { int k = (int)ai_split(ai_i32(0, 4, "field")); BB::SourceNode a{BB::Source::kTiltInRadians, BB::OutOfRange::kRepeat, {V("a"), V("b")}}, b = a; switch (k) { case 0: Same(a, b); return; case 1: b.source = BB::Source::kTiltXInRadians; break; case 2: b.source_out_of_range_behavior = BB::OutOfRange::kMirror; break; case 3: b.source_value_range[0] = W("w"); break; default: b.source_value_range[1] = W("w"); } Differ(a, b); }
PROP(eq_target) { int k = (int)ai_split(ai_i32(0, 3, "field")); BB::TargetNode a{BB::Target::kPinchOffset, {V("a"), V("b")}}, b = a; switch (k) { case 0: Same(a, b); return; case 1: b.target = BB::Target::kLuminosity; break; case 2: b.target_modifier_range[0] = W("w"); break; default: b.target_modifier_range[1] = W("w"); } Differ(a, b); }
PROP(eq_damping) { int k = (int)ai_split(ai_i32(0, 2, "field")); BB::DampingNode a{BB::DampingSource::kTimeInSeconds, V("a")}, b = a; switch (k) { case 0: Same(a, b); return; case 1: b.damping_source = BB::DampingSource::kDistanceInCentimeters; break; default: b.damping_gap = W("w"); } Differ(a, b); }
PROP(eq_small_nodes) { int k = (int)ai_split(ai_i32(0, 8, "node")); switch (k) { case 0: Same(BB::ConstantNode{1}, BB::ConstantNode{1}); Differ(BB::ConstantNode{V("v")}, BB::ConstantNode{W("w")}); break; case 1: Same(BB::FallbackFilterNode{BB::kTilt}, BB::FallbackFilterNode{BB::kTilt}); Differ(BB::FallbackFilterNode{BB::kTilt}, BB::FallbackFilterNode{BB::kTiltXAndY}); break; case 2: Same(BB::BinaryOpNode{BB::BinaryOp::kSum}, BB::BinaryOpNode{BB::BinaryOp::kSum}); Differ(BB::BinaryOpNode{BB::BinaryOp::kSum}, BB::BinaryOpNode{BB::BinaryOp::kProduct}); break; case 3: Same(BB::InterpolationNode{BB::Interpolation::kLerp}, BB::InterpolationNode{BB::Interpolation::kLerp}); Differ(BB::InterpolationNode{BB::Interpolation::kLerp}, BB::InterpolationNode{BB::Interpolation::kInverseLerp}); break; case 4: { BB::ResponseNode a, b; Same(a, b); b.response_curve.parameters = EF::Predefined::kEase; Differ(a, b); break; } default: { int f = k - 5; BB::EnabledToolTypes a = BB::kAllToolTypes, b = a; Same(a, b); if (f == 0) b.unknown = false; if (f == 1) b.mouse = false; if (f == 2) b.touch = false; if (f == 3) b.stylus = false; Differ(a, b); Differ(BB::ToolTypeFilterNode{a}, BB::ToolTypeFilterNode{b}); Same(BB::ToolTypeFilterNode{b}, BB::ToolTypeFilterNode{b}); } } }
PROP(eq_behavior) { int k = (int)ai_split(ai_i32(0, 3, "change")); BB a; a.nodes = {BB::ConstantNode{1}, BB::TargetNode{BB::Target::kPinchOffset, {0, 1}}}; BB b = a; switch (k) { case 0: Same(a, b); return; case 1: b.nodes[0] = BB::ConstantNode{W("w")}; break; case 2: b.nodes.pop_back(); break; default: b.nodes[0] = BB::SourceNode{BB::Source::kTiltInRadians, BB::OutOfRange::kRepeat, {1, 2}}; } Differ(a, b); }
static EF E(EF::Parameters p) { return EF{.parameters = std::move(p)}; }
PROP(eq_easing) { int k = (int)ai_split(ai_i32(0, 12, "case")); float v[4] = {V("a"), V("b"), V("c"), V("d")}; EF::CubicBezier c{v[0], v[1], v[2], v[3]}, d = c; EF::Linear l{{{v[0], v[1]}, {1, 1}}}, m = l; EF::Steps s{ai_i32(1, 9, "n"), EF::StepPosition::kJumpEnd}, t = s; float w = W("w");
  switch (k) { case 0: Same(c, d); Same(E(c), E(d)); return; case 1: d.x1 = w; Differ(E(c), E(d)); return; case 2: d.y1 = w; Differ(E(c), E(d)); return; case 3: d.x2 = w; Differ(E(c), E(d)); return; case 4: d.y2 = w; Differ(E(c), E(d)); return; case 5: Same(l, m); Same(E(l), E(m)); return; case 6: m.points[0].x = w; Differ(E(l), E(m)); return; case 7: m.points[1].y = w; Differ(E(l), E(m)); return; case 8: m.points.pop_back(); Differ(E(l), E(m)); return; case 9: Same(s, t); Same(E(s), E(t)); return; case 10: t.step_count += 10; Differ(E(s), E(t)); return; case 11: t.step_position = EF::StepPosition::kJumpBoth; Differ(E(s), E(t)); return; default: Differ(E(EF::Predefined::kEase), E(EF::Predefined::kEaseIn)); Same(E(EF::Predefined::kEase), E(EF::Predefined::kEase)); Differ(E(EF::Predefined::kEase), E(s)); } }
static BP::TextureKeyframe Frame(int m) { BP::TextureKeyframe f{.progress = V("p")}; float a = V("a"), b = V("b"); if (m & 1) f.size = Vec{a, b}; if (m & 2) f.offset = Vec{b, a}; if (m & 4) f.rotation = Angle::Radians(a); if (m & 8) f.opacity = b; return f; }
PROP(eq_keyframe) { int m = 5 * (int)ai_split(ai_i32(0, 3, "present")), k = (int)ai_split(ai_i32(0, 5, "field")); BP::TextureKeyframe a = Frame(m), b = a; float w = W("w"); switch (k) { case 0: Same(a, b); SameHash(a, b, "equal-values-hash-equal"); return; case 1: b.progress = w; break; case 2: b.size = Vec{w, w}; break; case 3: b.offset = Vec{w, w}; break; case 4: b.rotation = Angle::Radians(w); break; default: b.opacity = w; } Differ(a, b); BP::TextureKeyframe c = a; if (k == 2) c.size.reset(); if (k == 3) c.offset.reset(); if (k == 4) c.rotation.reset(); if (k == 5) c.opacity.reset(); Differ(b, c); }
static BP::TextureLayer Layer() { BP::TextureLayer l; auto u = Uri::Parse("/texture:x"); if (!u.ok()) ai_stop(); l.color_texture_uri = *u; float a = V("a"), b = V("b"); l.size = {a, b}; l.offset = {b, a}; l.rotation = Angle::Radians(a); l.size_jitter = {b, b}; l.offset_jitter = {a, a}; l.rotation_jitter = Angle::Radians(b); l.opacity = a; l.keyframes.resize(1, BP::TextureKeyframe{.progress = .5f}); return l; }
PROP(eq_layer) { int k = (int)ai_split(ai_i32(0, 20, "field")); BP::TextureLayer a = Layer(), b = a; float w = W("w"); switch (k) { case 0: Same(a, b); SameHash(a, b, "equal-values-hash-equal"); return; case 1: { auto u = Uri::Parse("/texture:y"); if (!u.ok()) ai_stop(); b.color_texture_uri = *u; break; } case 2: b.mapping = BP::TextureMapping::kWinding; break; case 3: b.origin = BP::TextureOrigin::kLastStrokeInput; break; case 4: b.size_unit = BP::TextureSizeUnit::kBrushSize; break; case 5: b.wrap_x = BP::TextureWrap::kMirror; break; case 6: b.wrap_y = BP::TextureWrap::kClamp; break; case 7: b.size.x = w; break; case 8: b.size.y = w; break; case 9: b.offset.x = w; break; case 10: b.offset.y = w; break; case 11: b.rotation = Angle::Radians(w); break; case 12: b.size_jitter.x = w; break; case 13: b.size_jitter.y = w; break; case 14: b.offset_jitter.x = w; break; case 15: b.offset_jitter.y = w; break; case 16: b.rotation_jitter = Angle::Radians(w); break; case 17: b.opacity = w; break; case 18: b.keyframes.clear(); break; case 19: b.keyframes[0].progress = w; break; default: b.blend_mode = BP::BlendMode::kXor; } Differ(a, b); }
PROP(eq_paint) { int k = (int)ai_split(ai_i32(0, 2, "change")); BP a; a.texture_layers.push_back(Layer()); BP b = a; if (k == 0) { Same(a, b); SameHash(a, b, "equal-values-hash-equal"); return; } if (k == 1) b.texture_layers.clear(); else b.texture_layers[0].opacity = W("w"); Differ(a, b); }
// the same numbers, interchanged
PROP(eq_interchanged) {
  int k = (int)ai_split(ai_i32(0, 15, "pair")); float v = V("v"), w = W("w");
  BB::SourceNode s{BB::Source::kTiltInRadians, BB::OutOfRange::kRepeat, {v, w}}, s2 = s; BB::TargetNode t{BB::Target::kPinchOffset, {v, w}}, t2 = t;
  BrushTip u; u.scale = {v, w}; u.pinch = v; u.corner_rounding = w; u.behaviors.resize(2); u.behaviors[0].nodes = {BB::ConstantNode{v}}; u.behaviors[1].nodes = {BB::ConstantNode{w}}; BrushTip u2 = u;
  BP::TextureLayer l; l.size = {v, w}; l.offset = {v, w}; l.size_jitter = {v, w}; l.offset_jitter = {v, w}; l.keyframes = {BP::TextureKeyframe{.progress = v, .size = Vec{v, w}}, BP::TextureKeyframe{.progress = w}}; BP::TextureLayer l2 = l; BP b; b.texture_layers = {l, BP::TextureLayer{.opacity = v}}; BP b2 = b;
  EF::CubicBezier c{v, w, v, w}; EF::Linear e{{{v, w}, {w, v}}}, e2 = e;
  switch (k) {
    case 0: std::swap(s2.source_value_range[0], s2.source_value_range[1]); Differ(s, s2); break;
    case 1: std::swap(t2.target_modifier_range[0], t2.target_modifier_range[1]); Differ(t, t2); break;
    case 2: std::swap(u2.scale.x, u2.scale.y); Differ(u, u2); break;
    case 3: std::swap(u2.pinch, u2.corner_rounding); Differ(u, u2); break;
    case 4: std::swap(u2.behaviors[0].nodes, u2.behaviors[1].nodes); Differ(u, u2); break;
    case 5: std::swap(l2.size.x, l2.size.y); Differ(l, l2); break;
    case 6: std::swap(l2.offset.x, l2.offset.y); Differ(l, l2); break;
    case 7: std::swap(l2.size_jitter.x, l2.size_jitter.y); Differ(l, l2); break;
    case 8: std::swap(l2.offset_jitter.x, l2.offset_jitter.y); Differ(l, l2); break;
    case 9: std::swap(l2.keyframes[0], l2.keyframes[1]); Differ(l, l2); break;
    case 10: std::swap(l2.keyframes[0].size->x, l2.keyframes[0].size->y); Differ(l, l2); break;
    case 11: std::swap(b2.texture_layers[0], b2.texture_layers[1]); Differ(b, b2); break;
    case 12: Differ(c, EF::CubicBezier{w, v, v, w}); break;
    case 13: Differ(c, EF::CubicBezier{v, w, w, v}); break;
    case 14: std::swap(e2.points[0], e2.points[1]); Differ(e, e2); break;
    default: l2.size = l.offset_jitter; l2.size.x = w; l2.size_jitter = l.size; Differ(l, l2); break;
  }
}
