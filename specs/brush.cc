// Brushes: a brush, family, coat, tip, paint, behavior or easing function is accepted exactly when every documented condition holds.
#include <array>
#include <vector>
#include "specs/common.h"
#include "ink/brush/brush.h"
#include "ink/brush/brush_behavior.h"
#include "ink/brush/brush_coat.h"
#include "ink/brush/brush_family.h"
#include "ink/brush/brush_paint.h"
#include "ink/brush/brush_tip.h"
#include "ink/brush/easing_function.h"
using namespace ink;
using BB = BrushBehavior;
using EF = EasingFunction;
using BP = BrushPaint;
template <class E> static E AnyEnum(const char* n) { return static_cast<E>(ai_i32(-2147483647 - 1, 2147483647, n)); }
template <class E> static E AnyEnum8(const char* n) { return static_cast<E>(ai_i32(-128, 127, n)); }
template <class E> static bool Named(E e, int count) { int k = static_cast<int>(e); return ai_and(ai_ile(0, k), ai_ile(k, count - 1)); }
// ---- Brush ----
PROP(brush_create) { float s = ai_f32("size"), e = ai_f32("epsilon"); bool want = ai_and(ai_and(ai_finite(s), ai_finite(e)), ai_and(ai_flt(0, e), ai_fle(e, s)));
  auto b = Brush::Create(BrushFamily(), Color::Blue(), s, e); if (b.ok()) { ai_assert(want, "created-only-when-valid"); ai_ident_f(b->GetSize(), s, "stores-size"); ai_ident_f(b->GetEpsilon(), e, "stores-epsilon"); ai_assert(b->GetColor() == Color::Blue(), "stores-color"); ai_assert(b->CoatCount() == 1 && b->GetCoats().size() == 1, "stores-family"); } else ai_assert(ai_not(want), "rejected-only-when-invalid"); }
static Brush Ok() { auto b = Brush::Create(BrushFamily(), Color::Blue(), 10, 2); if (!b.ok()) ai_stop(); return *b; }
PROP(brush_set_size) { Brush b = Ok(); float s = ai_f32("size"); bool want = ai_and(ai_finite(s), ai_fle(2, s)); if (b.SetSize(s).ok()) { ai_assert(want, "size-set-only-when-valid"); ai_ident_f(b.GetSize(), s, "size-stored"); } else { ai_assert(ai_not(want), "size-rejected-only-when-invalid"); ai_assert(b.GetSize() == 10, "rejected-size-leaves-brush"); } ai_assert(b.GetEpsilon() == 2, "epsilon-untouched"); }
PROP(brush_set_epsilon) { Brush b = Ok(); float e = ai_f32("epsilon"); bool want = ai_and(ai_flt(0, e), ai_fle(e, 10)); if (b.SetEpsilon(e).ok()) { ai_assert(want, "epsilon-set-only-when-valid"); ai_ident_f(b.GetEpsilon(), e, "epsilon-stored"); } else { ai_assert(ai_not(want), "epsilon-rejected-only-when-invalid"); ai_assert(b.GetEpsilon() == 2, "rejected-epsilon-leaves-brush"); } ai_assert(b.GetSize() == 10, "size-untouched"); }
PROP(brush_set_others) { Brush b = Ok(); b.SetColor(Color::Green()); ai_assert(b.GetColor() == Color::Green() && b.GetSize() == 10 && b.GetEpsilon() == 2 && b.CoatCount() == 1, "color-setter"); auto f = BrushFamily::Create(absl::Span<const BrushCoat>()); ai_assert(f.ok(), "family-without-coats-accepted"); if (!f.ok()) return; b.SetFamily(*f); ai_assert(b.CoatCount() == 0 && b.GetCoats().empty() && b.GetColor() == Color::Green() && b.GetSize() == 10 && b.GetEpsilon() == 2, "family-setter"); }
// ---- BrushFamily and coats ----
PROP(family_coats) { int n = (int)ai_split(ai_i32(0, 12, "coats")); std::vector<BrushCoat> c(n, BrushCoat{.tips = {BrushTip{}}}); auto f = BrushFamily::Create(c); ai_assert(f.ok() == (n <= 10), "at-most-ten-coats"); ai_assert(BrushFamily::MaxBrushCoats() == 10, "published-limit"); if (f.ok()) ai_assert((int)f->GetCoats().size() == n && !f->GetUri().has_value() && f->GetInputModel().index() == 0, "stores-coats"); }
PROP(family_model) { auto f = BrushFamily::Create(BrushTip{}, BrushPaint{}, std::nullopt, BrushFamily::SpringModelV2{}); ai_assert(f.ok() && f->GetInputModel().index() == 1 && f->GetCoats().size() == 1 && f->GetCoats()[0].tips.size() == 1, "stores-input-model"); ai_assert(BrushFamily().GetCoats().size() == 1 && BrushFamily().GetInputModel().index() == 0, "default-family"); }
PROP(family_invalid_coat) { int n = (int)ai_split(ai_i32(1, 3, "coats")), bad = (int)ai_split(ai_i32(0, 2, "which")); if (bad >= n) ai_stop(); std::vector<BrushCoat> c(n, BrushCoat{.tips = {BrushTip{}}}); bool paint = ai_bool("paint"); if (paint) { c[bad].paint.texture_layers.resize(1); c[bad].paint.texture_layers[0].opacity = 2; } else c[bad].tips[0].pinch = 2; ai_assert(!BrushFamily::Create(c).ok(), "every-coat-validated"); }
PROP(family_tip_and_paint) { BrushTip t; BrushPaint p; int k = (int)ai_split(ai_i32(0, 2, "defect")); if (k == 1) t.pinch = 2; if (k == 2) { p.texture_layers.resize(1); } ai_assert(BrushFamily::Create(t, p).ok() == (k == 0), "tip-and-paint-validated"); ai_assert(BrushFamily::Create(t, p, "").ok() == (k == 0), "tip-and-paint-validated-with-empty-uri"); }
PROP(family_uri) { int k = (int)ai_split(ai_i32(0, 3, "uri")); const char* s[] = {"", "/brush-family:x", "/texture:x", "bad"}; auto f = BrushFamily::Create(BrushTip{}, BrushPaint{}, s[k]); ai_assert(f.ok() == (k < 2), "family-uri-must-name-a-brush-family"); if (f.ok()) ai_assert(f->GetUri().has_value() == (k == 1), "family-uri-stored"); std::vector<BrushCoat> c(1, BrushCoat{.tips = {BrushTip{}}}); ai_assert(BrushFamily::Create(c, s[k]).ok() == (k < 2), "coat-overload-agrees"); }
PROP(coat_tips) { int n = (int)ai_split(ai_i32(0, 3, "tips")); BrushCoat c; c.tips.resize(n); ai_assert(brush_internal::ValidateBrushCoat(c).ok() == (n == 1), "exactly-one-tip"); }
PROP(coat_parts) { int k = (int)ai_split(ai_i32(0, 2, "defect")); BrushCoat c; c.tips.resize(1); if (k == 1) c.tips[0].corner_rounding = -1; if (k == 2) c.paint.texture_layers.resize(1); ai_assert(brush_internal::ValidateBrushCoat(c).ok() == (k == 0), "tip-and-paint-validated"); }
static bool Has(const std::vector<MeshFormat::AttributeId>& v, MeshFormat::AttributeId a) { for (auto x : v) if (x == a) return true; return false; }
PROP(coat_attributes) { using A = MeshFormat::AttributeId; int t = (int)ai_split(ai_i32(0, 14, "target")); int m = (int)ai_split(ai_i32(0, 2, "texture")); BrushCoat c; c.tips.resize(1); c.tips[0].behaviors.resize(1); c.tips[0].behaviors[0].nodes = {BB::ConstantNode{1}, BB::TargetNode{static_cast<BB::Target>(t), {0, 1}}}; if (m) { c.paint.texture_layers.resize(2); c.paint.texture_layers[0].mapping = BP::TextureMapping::kTiling; c.paint.texture_layers[1].mapping = m == 1 ? BP::TextureMapping::kTiling : BP::TextureMapping::kWinding; }
  auto v = brush_internal::GetRequiredAttributeIds(c); ai_assert(Has(v, A::kPosition) && Has(v, A::kSideDerivative) && Has(v, A::kSideLabel) && Has(v, A::kForwardDerivative) && Has(v, A::kForwardLabel) && Has(v, A::kOpacityShift), "always-required-attributes"); bool color = t == (int)BB::Target::kHueOffsetInRadians || t == (int)BB::Target::kSaturationMultiplier || t == (int)BB::Target::kLuminosity; ai_assert(Has(v, A::kColorShiftHsl) == color, "color-shift-required-exactly-for-color-targets"); ai_assert(Has(v, A::kSurfaceUv) == (m == 2), "surface-uv-required-exactly-for-winding"); ai_assert(v.size() == 6u + color + (m == 2), "no-other-attributes"); }
PROP(coat_attributes_pairs) {   // two targets, in one behavior, in two behaviors or in two tips; winding in either layer
  using A = MeshFormat::AttributeId; int t = (int)ai_split(ai_i32(0, 14, "first")), u = (int)ai_split(ai_i32(0, 14, "second")), how = (int)ai_split(ai_i32(0, 2, "how")); BrushCoat c; c.tips.resize(how == 2 ? 2 : 1); std::vector<BB::Node> x = {BB::ConstantNode{1}, BB::TargetNode{static_cast<BB::Target>(t), {0, 1}}}, y = {BB::ConstantNode{1}, BB::TargetNode{static_cast<BB::Target>(u), {0, 1}}};
  if (how == 0) { c.tips[0].behaviors.resize(1); c.tips[0].behaviors[0].nodes = x; for (auto& n : y) c.tips[0].behaviors[0].nodes.push_back(n); } else if (how == 1) { c.tips[0].behaviors.resize(2); c.tips[0].behaviors[0].nodes = x; c.tips[0].behaviors[1].nodes = y; } else for (int i = 0; i < 2; ++i) { c.tips[i].behaviors.resize(1); c.tips[i].behaviors[0].nodes = i ? y : x; }
  auto color = [](int k) { return k == (int)BB::Target::kHueOffsetInRadians || k == (int)BB::Target::kSaturationMultiplier || k == (int)BB::Target::kLuminosity; };
  auto v = brush_internal::GetRequiredAttributeIds(c); ai_assert(Has(v, A::kColorShiftHsl) == (color(t) || color(u)), "color-shift-required-by-any-color-target"); ai_assert(v.size() == 6u + (color(t) || color(u)), "no-other-attributes-with-two-targets"); }
PROP(coat_attributes_layers) { using A = MeshFormat::AttributeId; int m = (int)ai_split(ai_i32(0, 7, "winding")); BrushCoat c; c.tips.resize(1); c.paint.texture_layers.resize(3); for (int i = 0; i < 3; ++i) c.paint.texture_layers[i].mapping = m >> i & 1 ? BP::TextureMapping::kWinding : BP::TextureMapping::kTiling; auto v = brush_internal::GetRequiredAttributeIds(c); ai_assert(Has(v, A::kSurfaceUv) == (m != 0), "surface-uv-required-by-any-winding-layer"); ai_assert(v.size() == 6u + (m != 0), "no-other-attributes-with-layers"); }
// ---- BrushTip: one field arbitrary ----
static bool TipOk(const BrushTip& t) { bool a = brush_internal::ValidateBrushTip(t).ok(); return a; }
PROP(tip_scale) { BrushTip t; float x = ai_f32("x"), y = ai_f32("y"); t.scale = {x, y}; IFF(ai_and(ai_and(ai_and(ai_finite(x), ai_finite(y)), ai_and(ai_fle(0, x), ai_fle(0, y))), ai_or(ai_flt(0, x), ai_flt(0, y))), TipOk(t), "scale-finite-non-negative-not-zero"); }
PROP(tip_corner_rounding) { BrushTip t; t.corner_rounding = ai_f32("v"); IFF(In(t.corner_rounding, 0, 1), TipOk(t), "corner-rounding-unit-range"); }
PROP(tip_slant) { BrushTip t; float v = ai_f32("v"); t.slant = Angle::Radians(v); IFF(In(v, -kPiF / 2, kPiF / 2), TipOk(t), "slant-within-quarter-turn"); }
PROP(tip_pinch) { BrushTip t; t.pinch = ai_f32("v"); IFF(In(t.pinch, 0, 1), TipOk(t), "pinch-unit-range"); }
PROP(tip_rotation) { BrushTip t; float v = ai_f32("v"); t.rotation = Angle::Radians(v); IFF(ai_finite(v), TipOk(t), "rotation-finite"); }
PROP(tip_opacity) { BrushTip t; t.opacity_multiplier = ai_f32("v"); IFF(In(t.opacity_multiplier, 0, 2), TipOk(t), "opacity-zero-to-two"); }
PROP(tip_gap_distance) { BrushTip t; float v = t.particle_gap_distance_scale = ai_f32("v"); IFF(ai_and(ai_finite(v), ai_fle(0, v)), TipOk(t), "gap-distance-finite-non-negative"); }
PROP(tip_gap_duration) { BrushTip t; float v = ai_f32_in(-kInf, kInf, "v"); t.particle_gap_duration = Duration32::Seconds(v); IFF(ai_and(ai_finite(v), ai_fle(0, v)), TipOk(t), "gap-duration-finite-non-negative"); }
PROP(tip_behaviors) { BrushTip t; int n = (int)ai_split(ai_i32(0, 2, "behaviors")), bad = (int)ai_split(ai_i32(0, 2, "bad")); t.behaviors.resize(n); for (int i = 0; i < n; ++i) if (i == bad) t.behaviors[i].nodes = {BB::ConstantNode{1}}; ai_assert(TipOk(t) == (bad >= n), "every-behavior-validated"); }
// ---- Behavior nodes ----
static bool NodeOk(const BB::Node& n) { bool a = brush_internal::ValidateBrushBehaviorNode(n).ok(); return a; }
static bool Range(float a, float b) { return ai_and(ai_and(ai_finite(a), ai_finite(b)), ai_not(ai_feq(a, b))); }
PROP(node_source) { auto s = AnyEnum8<BB::Source>("source"); auto o = AnyEnum8<BB::OutOfRange>("behavior"); bool since = ai_or(ai_ieq((int)s, (int)BB::Source::kTimeSinceInputInSeconds), ai_ieq((int)s, (int)BB::Source::kTimeSinceInputInMillis)); IFF(ai_and(ai_and(Named(s, 37), Named(o, 3)), ai_or(ai_not(since), ai_ieq((int)o, (int)BB::OutOfRange::kClamp))), NodeOk(BB::SourceNode{s, o, {0, 1}}), "source-and-out-of-range-named-and-compatible"); }
PROP(node_source_range) { float a = ai_f32("a"), b = ai_f32("b"); IFF(Range(a, b), NodeOk(BB::SourceNode{BB::Source::kNormalizedPressure, BB::OutOfRange::kMirror, {a, b}}), "source-range-finite-distinct"); }
PROP(node_constant) { float v = ai_f32("v"); IFF(ai_finite(v), NodeOk(BB::ConstantNode{v}), "constant-finite"); }
PROP(node_fallback) { auto p = static_cast<BB::OptionalInputProperty>(ai_i32(-128, 127, "p")); IFF(Named(p, 4), NodeOk(BB::FallbackFilterNode{p}), "fallback-property-named"); }
PROP(node_tools) { int m = (int)ai_split(ai_i32(0, 15, "tools")); BB::EnabledToolTypes e{.unknown = bool(m & 1), .mouse = bool(m & 2), .touch = bool(m & 4), .stylus = bool(m & 8)}; ai_assert(NodeOk(BB::ToolTypeFilterNode{e}) == (m != 0), "some-tool-enabled"); ai_assert(e.HasAnyTypes() == (m != 0) && e.HasAllTypes() == (m == 15), "tool-set-queries"); }
PROP(node_damping) { auto s = AnyEnum<BB::DampingSource>("source"); float g = ai_f32("gap"); IFF(ai_and(Named(s, 3), ai_and(ai_finite(g), ai_fle(0, g))), NodeOk(BB::DampingNode{s, g}), "damping-source-named-gap-finite-non-negative"); }
PROP(node_response) { int k = (int)ai_split(ai_i32(0, 1, "bad")); EF f; if (k) f.parameters = EF::Steps{0, EF::StepPosition::kJumpEnd}; ai_assert(NodeOk(BB::ResponseNode{f}) == !k, "response-curve-validated"); }
PROP(node_binary) { auto o = AnyEnum<BB::BinaryOp>("op"); IFF(Named(o, 2), NodeOk(BB::BinaryOpNode{o}), "operation-named"); }
PROP(node_interpolation) { auto o = AnyEnum<BB::Interpolation>("op"); IFF(Named(o, 2), NodeOk(BB::InterpolationNode{o}), "interpolation-named"); }
PROP(node_target) { auto t = AnyEnum8<BB::Target>("target"); IFF(Named(t, 15), NodeOk(BB::TargetNode{t, {0, 1}}), "target-named"); }
PROP(node_target_range) { float a = ai_f32("a"), b = ai_f32("b"); IFF(Range(a, b), NodeOk(BB::TargetNode{BB::Target::kPinchOffset, {a, b}}), "target-range-finite-distinct"); }
// Postfix discipline: c constants, one node of any kind, then t targets
static BB::Node Kind(int k) { switch (k) { case 0: return BB::SourceNode{BB::Source::kNormalizedPressure, BB::OutOfRange::kClamp, {0, 1}}; case 1: return BB::ConstantNode{1}; case 2: return BB::FallbackFilterNode{BB::kTilt}; case 3: return BB::ToolTypeFilterNode{BB::kAllToolTypes}; case 4: return BB::DampingNode{BB::DampingSource::kTimeInSeconds, 1}; case 5: return BB::ResponseNode{}; case 6: return BB::BinaryOpNode{BB::BinaryOp::kSum}; case 7: return BB::InterpolationNode{BB::Interpolation::kLerp}; default: return BB::TargetNode{BB::Target::kPinchOffset, {0, 1}}; } }
PROP(behavior_stack) { int k = (int)ai_split(ai_i32(0, 8, "kind")), c = (int)ai_split(ai_i32(0, 4, "constants")), t = (int)ai_split(ai_i32(0, 4, "targets")); static constexpr int in[] = {0, 0, 1, 1, 1, 1, 2, 3, 1}, out[] = {1, 1, 1, 1, 1, 1, 1, 1, 0}; BB b; for (int i = 0; i < c; ++i) b.nodes.push_back(Kind(1)); b.nodes.push_back(Kind(k)); for (int i = 0; i < t; ++i) b.nodes.push_back(Kind(8)); bool want = c >= in[k] && c - in[k] + out[k] == t; ai_assert(brush_internal::ValidateBrushBehavior(b).ok() == want, "accepted-exactly-when-stack-balances"); }
PROP(behavior_nodes_validated) { int bad = (int)ai_split(ai_i32(0, 3, "bad")); BB b; b.nodes = {BB::ConstantNode{1}, BB::DampingNode{BB::DampingSource::kTimeInSeconds, 1}, BB::TargetNode{BB::Target::kPinchOffset, {0, 1}}}; if (bad == 0) b.nodes[0] = BB::ConstantNode{float(kInf)}; if (bad == 1) b.nodes[1] = BB::DampingNode{BB::DampingSource::kTimeInSeconds, -1}; if (bad == 2) b.nodes[2] = BB::TargetNode{BB::Target::kPinchOffset, {1, 1}}; ai_assert(brush_internal::ValidateBrushBehavior(b).ok() == (bad == 3), "every-node-validated"); ai_assert(brush_internal::ValidateBrushBehavior(BB()).ok(), "empty-behavior-accepted"); }
// ---- Easing functions ----
static bool EaseOk(EF::Parameters p) { EF f{.parameters = std::move(p)}; bool a = brush_internal::ValidateEasingFunction(f).ok(); return a; }
PROP(easing_predefined) { auto p = AnyEnum<EF::Predefined>("p"); IFF(Named(p, 7), EaseOk(p), "predefined-named"); }
PROP(easing_bezier) { float x1 = ai_f32("x1"), y1 = ai_f32("y1"), x2 = ai_f32("x2"), y2 = ai_f32("y2"); IFF(ai_and(ai_and(In(x1, 0, 1), In(x2, 0, 1)), ai_and(ai_finite(y1), ai_finite(y2))), EaseOk(EF::CubicBezier{x1, y1, x2, y2}), "bezier-finite-x-unit-range"); }
PROP(easing_steps) { int n = ai_i32(-2147483647 - 1, 2147483647, "n"); auto p = AnyEnum<EF::StepPosition>("pos"); bool none = ai_ieq((int)p, (int)EF::StepPosition::kJumpNone); IFF(ai_and(Named(p, 4), ai_or(ai_ile(2, n), ai_and(ai_ile(1, n), ai_not(none)))), EaseOk(EF::Steps{n, p}), "steps-count-positive"); }
PROP(easing_linear_point) { int n = (int)ai_split(ai_i32(1, 3, "points")), i = (int)ai_split(ai_i32(0, 2, "which")); if (i >= n) ai_stop(); float x = ai_f32("x"), y = ai_f32("y"); EF::Linear l; for (int k = 0; k < n; ++k) l.points.push_back({k < i ? 0.f : 1.f, 5.f}); l.points[i] = {x, y}; IFF(ai_and(In(x, 0, 1), ai_finite(y)), EaseOk(l), "linear-points-valid"); }
PROP(easing_linear_order) { int n = (int)ai_split(ai_i32(2, 4, "points")), i = (int)ai_split(ai_i32(0, 2, "which")); if (i + 1 >= n) ai_stop(); float x = ai_f32_in(0, 1, "x"), y = ai_f32_in(0, 1, "y"); EF::Linear l; for (int k = 0; k < n; ++k) l.points.push_back({k < i ? 0.f : 1.f, 5.f}); l.points[i].x = x; l.points[i + 1].x = y; IFF(ai_fle(x, y), EaseOk(l), "linear-points-ordered"); ai_assert(EaseOk(EF::Linear{}), "empty-linear-accepted"); }
// ---- Paint ----
static BP::TextureLayer Layer() { BP::TextureLayer l; auto u = Uri::Parse("/texture:x"); if (!u.ok()) ai_stop(); l.color_texture_uri = *u; return l; }
static bool LayerOk(const BP::TextureLayer& l) { bool a = brush_internal::ValidateBrushPaintTextureLayer(l).ok(); return a; }
PROP(layer_uri) { int k = (int)ai_split(ai_i32(0, 2, "uri")); BP::TextureLayer l; if (k) { auto u = Uri::Parse(k == 1 ? "/texture:x" : "/brush-family:x"); if (!u.ok()) ai_stop(); l.color_texture_uri = *u; } ai_assert(LayerOk(l) == (k == 1), "texture-uri-required"); }
PROP(layer_enums) { int k = (int)ai_split(ai_i32(0, 5, "which")); BP::TextureLayer l = Layer(); bool want = false; switch (k) { case 0: l.mapping = AnyEnum<BP::TextureMapping>("e"); want = Named(l.mapping, 2); break; case 1: l.origin = AnyEnum<BP::TextureOrigin>("e"); want = Named(l.origin, 3); break; case 2: l.size_unit = AnyEnum<BP::TextureSizeUnit>("e"); want = Named(l.size_unit, 3); break; case 3: l.wrap_x = AnyEnum<BP::TextureWrap>("e"); want = Named(l.wrap_x, 3); break; case 4: l.wrap_y = AnyEnum<BP::TextureWrap>("e"); want = Named(l.wrap_y, 3); break; default: l.blend_mode = AnyEnum<BP::BlendMode>("e"); want = Named(l.blend_mode, 12); break; } IFF(want, LayerOk(l), "layer-enumerators-named"); }
PROP(layer_size) { BP::TextureLayer l = Layer(); float x = ai_f32("x"), y = ai_f32("y"); l.size = {x, y}; IFF(ai_and(ai_and(ai_finite(x), ai_finite(y)), ai_and(ai_flt(0, x), ai_flt(0, y))), LayerOk(l), "size-finite-positive"); }
PROP(layer_offset) { BP::TextureLayer l = Layer(); float x = ai_f32("x"), y = ai_f32("y"); l.offset = {x, y}; if (LayerOk(l)) ai_assert(ai_and(ai_finite(x), ai_finite(y)), "offset-finite"); else ai_assert(ai_not(ai_and(In(x, 0, 1), In(y, 0, 1))), "unit-offset-accepted"); }
PROP(layer_rotation) { BP::TextureLayer l = Layer(); float v = ai_f32("v"), j = ai_f32("j"); l.rotation = Angle::Radians(v); l.rotation_jitter = Angle::Radians(j); IFF(ai_and(ai_finite(v), ai_finite(j)), LayerOk(l), "rotation-finite"); }
PROP(layer_size_jitter) { BP::TextureLayer l = Layer(); float sx = ai_f32_in(1e-6, 1e6, "sx"), sy = ai_f32_in(1e-6, 1e6, "sy"), x = ai_f32("x"), y = ai_f32("y"); l.size = {sx, sy}; l.size_jitter = {x, y}; IFF(ai_and(ai_and(ai_fle(0, x), ai_fle(x, sx)), ai_and(ai_fle(0, y), ai_fle(y, sy))), LayerOk(l), "size-jitter-up-to-size"); }
PROP(layer_offset_jitter) { BP::TextureLayer l = Layer(); float x = ai_f32("x"), y = ai_f32("y"); l.offset_jitter = {x, y}; IFF(ai_and(In(x, 0, 1), In(y, 0, 1)), LayerOk(l), "offset-jitter-unit-range"); }
PROP(layer_opacity) { BP::TextureLayer l = Layer(); l.opacity = ai_f32("o"); IFF(In(l.opacity, 0, 1), LayerOk(l), "opacity-unit-range"); }
PROP(keyframe_fields) { BP::TextureLayer l = Layer(); int k = (int)ai_split(ai_i32(0, 5, "field")), at = (int)ai_split(ai_i32(0, 1, "index")); l.keyframes.resize(2, BP::TextureKeyframe{.progress = .5f}); BP::TextureKeyframe& f = l.keyframes[at]; float x = ai_f32("x"), y = ai_f32("y"); bool want = true; switch (k) { case 0: f.progress = x; want = In(x, 0, 1); break; case 1: f.size = Vec{x, y}; want = ai_and(ai_and(ai_finite(x), ai_finite(y)), ai_and(ai_flt(0, x), ai_flt(0, y))); break; case 2: f.offset = Vec{x, y}; want = ai_and(In(x, 0, 1), In(y, 0, 1)); break; case 3: f.rotation = Angle::Radians(x); want = ai_finite(x); break; case 4: f.opacity = x; want = In(x, 0, 1); break; default: break; } IFF(want, LayerOk(l), "keyframe-fields-valid"); }
PROP(paint_layers) { int n = (int)ai_split(ai_i32(0, 3, "layers")), bad = (int)ai_split(ai_i32(0, 3, "bad")), kind = (int)ai_split(ai_i32(0, 1, "kind")); BP p; for (int i = 0; i < n; ++i) p.texture_layers.push_back(Layer()); bool want = true; if (bad < n) { if (kind == 0) { p.texture_layers[bad].opacity = 3; want = false; } else { p.texture_layers[bad].mapping = BP::TextureMapping::kWinding; want = n == 1; } } ai_assert(brush_internal::ValidateBrushPaint(p).ok() == want, "every-layer-valid-and-same-mapping"); }
