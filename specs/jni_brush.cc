// J03: the brush natives build exactly the brush, tip, paint and behavior described by their arguments, or throw and leave nothing behind.
// unit: ink/brush/internal/jni/brush_tip_jni.cc
// unit: ink/brush/internal/jni/brush_coat_jni.cc
// unit: ink/brush/internal/jni/brush_family_jni.cc
// unit: ink/brush/internal/jni/brush_paint_jni.cc
// unit: ink/brush/internal/jni/brush_jni.cc
// unit: ink/brush/internal/jni/brush_behavior_jni.cc
#include <jni.h>
#include "ink/brush/brush.h"
#include "ink/brush/brush_behavior.h"
#include "ink/brush/brush_coat.h"
#include "ink/brush/brush_family.h"
#include "ink/brush/brush_paint.h"
#include "ink/brush/brush_tip.h"
#include "ink/brush/easing_function.h"
#include "ink/color/color.h"
#include "ink/jni/internal/jni_throw_util.h"
#include "specs/common.h"
using namespace ink;
using BB = BrushBehavior; using EF = EasingFunction; using BP = BrushPaint;
using F = jfloat;
#define N(m, r, ...) extern "C" r Java_androidx_ink_brush_##m(JNIEnv*, jobject, ##__VA_ARGS__)
N(BrushTip_nativeCreateBrushTip, jlong, F, F, F, F, F, F, F, F, jlong, jint); N(BrushTip_nativeAppendBehavior, void, jlong, jlong); N(BrushTip_nativeFreeBrushTip, void, jlong);
N(BrushCoat_nativeCreateBrushCoat, jlong, jlongArray, jlong); N(BrushCoat_nativeFreeBrushCoat, void, jlong);
N(BrushFamily_nativeCreateBrushFamily, jlong, jlongArray, jstring, jboolean); N(BrushFamily_nativeFreeBrushFamily, void, jlong);
N(BrushPaint_nativeCreateBrushPaint, jlong, jint); N(BrushPaint_nativeAppendTextureLayer, void, jlong, jlong); N(BrushPaint_nativeFreeBrushPaint, void, jlong);
N(BrushPaint_00024TextureLayer_nativeCreateTextureLayer, jlong, jstring, F, F, F, F, F, F, jint, jint, jint, jint, jint, jint); N(BrushPaint_00024TextureLayer_nativeFreeTextureLayer, void, jlong);
N(Brush_nativeCreateBrush, jlong, jlong, F, F, F, F, jint, F, F); N(Brush_nativeFreeBrush, void, jlong);
N(BrushBehavior_nativeCreateEmptyBrushBehavior, jlong); N(BrushBehavior_nativeValidateOrDeleteAndThrow, jlong, jlong); N(BrushBehavior_nativeFreeBrushBehavior, void, jlong);
N(BrushBehavior_00024SourceNode_nativeAppendSourceNode, void, jlong, jint, F, F, jint); N(BrushBehavior_00024ConstantNode_nativeAppendConstantNode, void, jlong, F);
N(BrushBehavior_00024FallbackFilterNode_nativeAppendFallbackFilterNode, void, jlong, jint); N(BrushBehavior_00024ToolTypeFilterNode_nativeAppendToolTypeFilterNode, void, jlong, jboolean, jboolean, jboolean, jboolean);
N(BrushBehavior_00024DampingNode_nativeAppendDampingNode, void, jlong, jint, F); N(BrushBehavior_00024ResponseNode_nativeAppendResponseNodePredefined, void, jlong, jint);
N(BrushBehavior_00024ResponseNode_nativeAppendResponseNodeCubicBezier, void, jlong, F, F, F, F); N(BrushBehavior_00024ResponseNode_nativeAppendResponseNodeSteps, void, jlong, jint, jint);
N(BrushBehavior_00024ResponseNode_nativeAppendResponseNodeLinear, void, jlong, jfloatArray); N(BrushBehavior_00024BinaryOpNode_nativeAppendBinaryOpNode, void, jlong, jint);
N(BrushBehavior_00024InterpolationNode_nativeAppendInterpolationNode, void, jlong, jint); N(BrushBehavior_00024TargetNode_nativeAppendTargetNode, void, jlong, jint, F, F);
#define J(m) Java_androidx_ink_brush_##m
namespace {
template <class T> T& At(jlong p) { return *reinterpret_cast<T*>(p); }
template <class T> jlong P(const T& v) { return reinterpret_cast<jlong>(&v); }
bool Clean(const JNIEnv& e) { return e.chars == 0 && e.globals == 0 && e.elements == 0; }
bool Quiet(const JNIEnv& e) { return e.thrown == 0 && e.pending == nullptr && Clean(e); }
// Objects the model of Java itself makes for an exception with this status.
int64_t OfThrowing(const absl::Status& s) { int64_t before = ai_live(); JNIEnv e; ink::jni::ThrowExceptionFromStatus(&e, s); return ai_live() - before; }
// The call threw for `s` and left no native object behind.
void Refused(const JNIEnv& e, const absl::Status& s, int64_t made, const char* id_thrown, const char* id_left) {
  ai_assert(!s.ok() && e.thrown == 1 && e.pending != nullptr && jvm::Eq(e.pending->type, "java/lang/IllegalArgumentException") && Clean(e), id_thrown);
  if (!s.ok()) ai_assert(made == OfThrowing(s), id_left);
}
}
// ---- tips ----
void TipAs(const BrushTip& want, F sx, F sy, F cr, F sl, F pi, F ro, F op, F gd, jlong ms) {
  JNIEnv env; int64_t before = ai_live(); absl::Status s = brush_internal::ValidateBrushTip(want);
  jlong p = J(BrushTip_nativeCreateBrushTip)(&env, nullptr, sx, sy, cr, sl, pi, ro, op, gd, ms, 0);
  if (env.thrown) { Refused(env, s, ai_live() - before, "tip-refused-only-when-invalid", "refused-tip-leaves-nothing"); return; }
  ai_assert(s.ok() && Quiet(env), "tip-created-only-when-valid");
  const BrushTip& t = At<BrushTip>(p);
  ai_ident_f(t.scale.x, sx, "tip-scale-x"); ai_ident_f(t.scale.y, sy, "tip-scale-y"); ai_ident_f(t.corner_rounding, cr, "tip-corner-rounding"); ai_ident_f(t.slant.ValueInRadians(), sl, "tip-slant"); ai_ident_f(t.pinch, pi, "tip-pinch");
  ai_ident_f(t.rotation.ValueInRadians(), ro, "tip-rotation"); ai_ident_f(t.opacity_multiplier, op, "tip-opacity"); ai_ident_f(t.particle_gap_distance_scale, gd, "tip-gap-distance"); ai_assert(t.particle_gap_duration == want.particle_gap_duration, "tip-gap-duration"); ai_assert(t.behaviors.empty(), "new-tip-has-no-behaviors");
  J(BrushTip_nativeFreeBrushTip)(&env, nullptr, p); ai_assert(ai_live() == before, "freed-tip-leaves-nothing");
}
BrushTip TipOf(F sx, F sy, F cr, F sl, F pi, F ro, F op, F gd, jlong ms) { return BrushTip{.scale = {sx, sy}, .corner_rounding = cr, .slant = Angle::Radians(sl), .pinch = pi, .rotation = Angle::Radians(ro), .opacity_multiplier = op, .particle_gap_distance_scale = gd, .particle_gap_duration = Duration32::Millis((float)ms)}; }
PROP(jbrush_tip_valid) {
  F sx = ai_f32_in(0.5, 4, "sx"), sy = ai_f32_in(0.5, 4, "sy"), cr = ai_f32_in(0, 1, "cr"), sl = ai_f32_in(-1.5, 1.5, "sl"), pi = ai_f32_in(0, 1, "pi"), ro = ai_f32_in(-100, 100, "ro"), op = ai_f32_in(0, 2, "op"), gd = ai_f32_in(0, 9, "gd");
  TipAs(TipOf(sx, sy, cr, sl, pi, ro, op, gd, 0), sx, sy, cr, sl, pi, ro, op, gd, 0);
  for (jlong ms : {jlong(1), jlong(1500), jlong(86400000)}) TipAs(TipOf(1, 1, 1, 0, 0, 0, 1, 0, ms), 1, 1, 1, 0, 0, 0, 1, 0, ms);
}
PROP(jbrush_tip_invalid) {
  { int k = (int)ai_split(ai_i32(0, 7, "field")); F v[8] = {1, 1, 1, 0, 0, 0, 1, 0}; v[k] = ai_f32("v"); TipAs(TipOf(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], 0), v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], 0); }
  TipAs(TipOf(1, 1, 1, 0, 0, 0, 1, 0, -1), 1, 1, 1, 0, 0, 0, 1, 0, -1);
}
PROP(jbrush_tip_behaviors) {
  BB a{.nodes = {BB::ConstantNode{0.25f}, BB::TargetNode{BB::Target::kSizeMultiplier, {0.5f, 1.5f}}}}, b{.nodes = {BB::ConstantNode{0.75f}, BB::TargetNode{BB::Target::kLuminosity, {-1, 1}}}};
  for (int n : {0, 1, 2, 3}) {
    JNIEnv env; int64_t before = ai_live(); jlong p = J(BrushTip_nativeCreateBrushTip)(&env, nullptr, 1, 1, 1, 0, 0, 0, 1, 0, 0, n); const BB* all[] = {&a, &b, &a};
    for (int i = 0; i < n; ++i) J(BrushTip_nativeAppendBehavior)(&env, nullptr, p, P(*all[i]));
    const BrushTip& t = At<BrushTip>(p); ai_assert((int)t.behaviors.size() == n, "every-behavior-appended");
    bool same = true; for (int i = 0; i < n; ++i) same = same && t.behaviors[i] == *all[i]; ai_assert(same, "behaviors-in-order"); ai_assert(Quiet(env), "append-throws-nothing");
    J(BrushTip_nativeFreeBrushTip)(&env, nullptr, p); ai_assert(ai_live() == before, "freed-tip-leaves-nothing");
  }
}
// ---- coats and families ----
PROP(jbrush_coat) {
  BrushTip t[3]; t[0].pinch = 0.25f; t[1].pinch = 0.5f; t[2].pinch = 0.75f; BP paint; paint.texture_layers.resize(1); paint.texture_layers[0].opacity = 0.5f;
  for (int n = 0; n <= 3; ++n) {
    jlong ptrs[3] = {P(t[2]), P(t[0]), P(t[1])}; int order[] = {2, 0, 1}; jlongArray a = jvm::Array<_jlongArray>(n, ptrs); JNIEnv env; int64_t before = ai_live();
    jlong p = J(BrushCoat_nativeCreateBrushCoat)(&env, nullptr, a, P(paint)); const BrushCoat& c = At<BrushCoat>(p);
    ai_assert((int)c.tips.size() == n, "every-tip-of-the-coat"); bool same = true; for (int i = 0; i < n; ++i) same = same && c.tips[i] == t[order[i]]; ai_assert(same, "tips-in-order"); ai_assert(c.paint == paint, "paint-of-the-coat"); ai_assert(Quiet(env), "coat-releases-the-array");
    bool kept = true; for (int i = 0; i < n; ++i) kept = kept && a->data[i] == ptrs[i]; ai_assert(kept, "coat-leaves-the-array");
    J(BrushCoat_nativeFreeBrushCoat)(&env, nullptr, p); ai_assert(ai_live() == before, "freed-coat-leaves-nothing");
  }
}
PROP(jbrush_family) {
  BrushCoat c[3]; for (int i = 0; i < 3; ++i) { c[i].tips.resize(1); c[i].tips[0].pinch = 0.25f * (i + 1); } BrushCoat bad; 
  const char* uris[] = {"", "/brush-family:x", "/texture:x", "bad"};
  for (int u = 0; u < 4; ++u) for (int n = 0; n <= 3; ++n) for (int v2 = 0; v2 < 2; ++v2) for (int b = 0; b < 2; ++b) {
    if (b && n == 0) continue;
    jlong ptrs[3] = {P(c[1]), P(c[2]), P(c[0])}; int order[] = {1, 2, 0}; if (b) ptrs[n - 1] = P(bad); jlongArray a = jvm::Array<_jlongArray>(n, ptrs); jstring uri = jvm::String(uris[u]); JNIEnv env; int64_t before = ai_live();
    jlong p = J(BrushFamily_nativeCreateBrushFamily)(&env, nullptr, a, uri, v2 ? JNI_TRUE : JNI_FALSE);
    ai_assert(Clean(env), "family-releases-array-and-uri"); ai_assert((env.thrown == 0) == (u < 2 && !b), "family-created-exactly-when-valid");
    if (env.thrown) { ai_assert(env.thrown == 1 && jvm::Eq(env.pending->type, "java/lang/IllegalArgumentException"), "invalid-family-throws"); ai_assert(ai_live() - before == OfThrowing(absl::InvalidArgumentError("x")), "refused-family-leaves-nothing"); continue; }
    const BrushFamily& f = At<BrushFamily>(p); auto coats = f.GetCoats(); ai_assert((int)coats.size() == n, "every-coat-of-the-family");
    bool same = true; for (int i = 0; i < n; ++i) same = same && coats[i].tips.size() == 1 && coats[i].tips[0].pinch == c[order[i]].tips[0].pinch; ai_assert(same, "coats-in-order");
    ai_assert(f.GetInputModel().index() == (size_t)v2, "input-model-of-the-family"); ai_assert(f.GetUri().has_value() == (u == 1), "uri-of-the-family"); 
    J(BrushFamily_nativeFreeBrushFamily)(&env, nullptr, p); ai_assert(ai_live() == before, "freed-family-leaves-nothing");
  }
}
// ---- paints ----
BP::TextureLayer LayerOf(const Uri& u, F sx, F sy, F ox, F oy, F r, F op, int unit, int origin, int mapping, int wx, int wy, int blend) {
  return {.color_texture_uri = u, .mapping = (BP::TextureMapping)mapping, .origin = (BP::TextureOrigin)origin, .size_unit = (BP::TextureSizeUnit)unit, .wrap_x = (BP::TextureWrap)wx, .wrap_y = (BP::TextureWrap)wy, .size = {sx, sy}, .offset = {ox, oy}, .rotation = Angle::Radians(r), .opacity = op, .blend_mode = (BP::BlendMode)blend};
}
void LayerAs(F sx, F sy, F ox, F oy, F r, F op, int unit, int origin, int mapping, int wx, int wy, int blend) {
  auto u = Uri::Parse("/texture:x"); if (!u.ok()) ai_stop(); BP::TextureLayer want = LayerOf(*u, sx, sy, ox, oy, r, op, unit, origin, mapping, wx, wy, blend); absl::Status s = brush_internal::ValidateBrushPaintTextureLayer(want);
  jstring name = jvm::String("/texture:x"); JNIEnv env; int64_t before = ai_live();
  jlong p = J(BrushPaint_00024TextureLayer_nativeCreateTextureLayer)(&env, nullptr, name, sx, sy, ox, oy, r, op, unit, origin, mapping, wx, wy, blend);
  if (env.thrown) { Refused(env, s, ai_live() - before, "layer-refused-only-when-invalid", "refused-layer-leaves-nothing"); return; }
  ai_assert(s.ok() && Quiet(env), "layer-created-only-when-valid"); const BP::TextureLayer& t = At<BP::TextureLayer>(p);
  ai_ident_f(t.size.x, sx, "layer-size-x"); ai_ident_f(t.size.y, sy, "layer-size-y"); ai_ident_f(t.offset.x, ox, "layer-offset-x"); ai_ident_f(t.offset.y, oy, "layer-offset-y"); ai_ident_f(t.rotation.ValueInRadians(), r, "layer-rotation"); ai_ident_f(t.opacity, op, "layer-opacity");
  ai_ident_i((uint32_t)t.size_unit, (uint32_t)want.size_unit, "layer-size-unit"); ai_ident_i((uint32_t)t.origin, (uint32_t)want.origin, "layer-origin"); ai_ident_i((uint32_t)t.mapping, (uint32_t)want.mapping, "layer-mapping"); ai_ident_i((uint32_t)t.wrap_x, (uint32_t)want.wrap_x, "layer-wrap-x"); ai_ident_i((uint32_t)t.wrap_y, (uint32_t)want.wrap_y, "layer-wrap-y"); ai_ident_i((uint32_t)t.blend_mode, (uint32_t)want.blend_mode, "layer-blend-mode");
  ai_assert(t.color_texture_uri == *u && t.keyframes.empty(), "layer-uri");
  J(BrushPaint_00024TextureLayer_nativeFreeTextureLayer)(&env, nullptr, p); ai_assert(ai_live() == before, "freed-layer-leaves-nothing");
}
PROP(jbrush_layer_valid) { F sx = ai_f32_in(0.5, 4, "sx"), sy = ai_f32_in(0.5, 4, "sy"), ox = ai_f32_in(0, 1, "ox"), oy = ai_f32_in(0, 1, "oy"), r = ai_f32_in(-100, 100, "r"), op = ai_f32_in(0, 1, "op"); LayerAs(sx, sy, ox, oy, r, op, 1, 2, 0, 1, 2, 3); }
PROP(jbrush_layer_invalid) { { int k = (int)ai_split(ai_i32(0, 5, "field")); F v[6] = {1, 1, 0, 0, 0, 1}; v[k] = ai_f32("v"); LayerAs(v[0], v[1], v[2], v[3], v[4], v[5], 0, 0, 0, 0, 0, 0); } }
PROP(jbrush_layer_enums) { for (int k = 0; k < 6; ++k) for (int x = -1; x <= 16; ++x) { int e[6] = {0, 0, 0, 0, 0, 0}; e[k] = x; LayerAs(1, 1, 0, 0, 0, 1, e[0], e[1], e[2], e[3], e[4], e[5]); } }
PROP(jbrush_layer_uri) {
  const char* uris[] = {"", "/brush-family:x", "/texture:x", "bad"};
  for (int u = 0; u < 4; ++u) { jstring name = jvm::String(uris[u]); JNIEnv env; int64_t before = ai_live(); auto parsed = Uri::Parse(uris[u]);
    jlong p = J(BrushPaint_00024TextureLayer_nativeCreateTextureLayer)(&env, nullptr, name, 1, 1, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0); ai_assert(Clean(env), "uri-string-released"); bool want = false;
    if (parsed.ok()) want = brush_internal::ValidateBrushPaintTextureLayer(LayerOf(*parsed, 1, 1, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0)).ok();
    ai_assert((env.thrown == 0) == want, "layer-uri-validated"); if (!env.thrown) { ai_assert(At<BP::TextureLayer>(p).color_texture_uri == *parsed, "layer-uri-kept"); J(BrushPaint_00024TextureLayer_nativeFreeTextureLayer)(&env, nullptr, p); } else ai_assert(jvm::Eq(env.pending->type, "java/lang/IllegalArgumentException"), "bad-uri-throws"); }
}
PROP(jbrush_paint) {
  auto u = Uri::Parse("/texture:x"); if (!u.ok()) ai_stop(); BP::TextureLayer l[3]; for (int i = 0; i < 3; ++i) l[i] = LayerOf(*u, 1 + i, 1, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0); BP::TextureLayer winding = LayerOf(*u, 1, 1, 0, 0, 0, 1, 0, 0, 1, 0, 0, 0);
  for (int n = 0; n <= 3; ++n) { JNIEnv env; int64_t before = ai_live(); jlong p = J(BrushPaint_nativeCreateBrushPaint)(&env, nullptr, n); const BP& b = At<BP>(p); ai_assert(b.texture_layers.empty() && Quiet(env), "new-paint-is-empty");
    for (int i = 0; i < n; ++i) J(BrushPaint_nativeAppendTextureLayer)(&env, nullptr, p, P(l[i])); bool same = (int)b.texture_layers.size() == n; for (int i = 0; i < n; ++i) same = same && b.texture_layers[i] == l[i]; ai_assert(same && Quiet(env), "layers-in-order");
    if (n) { J(BrushPaint_nativeAppendTextureLayer)(&env, nullptr, p, P(winding)); BP want; for (int i = 0; i < n; ++i) want.texture_layers.push_back(l[i]); want.texture_layers.push_back(winding); bool ok = brush_internal::ValidateBrushPaint(want).ok(); ai_assert((env.thrown == 0) == ok, "appending-an-unacceptable-layer-throws"); continue; }
    J(BrushPaint_nativeFreeBrushPaint)(&env, nullptr, p); ai_assert(ai_live() == before, "freed-paint-leaves-nothing"); }
  { JNIEnv env; jlong p = J(BrushPaint_nativeCreateBrushPaint)(&env, nullptr, 1); BP::TextureLayer bad = LayerOf(*u, 1, 1, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0); J(BrushPaint_nativeAppendTextureLayer)(&env, nullptr, p, P(bad)); ai_assert(env.thrown == 1 && jvm::Eq(env.pending->type, "java/lang/IllegalArgumentException"), "bad-layer-refused"); }
}
// ---- brushes ----
PROP(jbrush_brush) {
  BrushFamily fam; auto two = BrushFamily::Create(std::vector<BrushCoat>(2, BrushCoat{.tips = {BrushTip{}}})); if (!two.ok()) ai_stop();
  for (int space = 0; space < 2; ++space) {
    F r = ai_f32_in(0, 1, "r"), g = ai_f32_in(0, 1, "g"), b = ai_f32_in(0, 1, "b"), a = ai_f32_in(0, 1, "a"), size = ai_f32("size"), eps = ai_f32("eps"); JNIEnv env; int64_t before = ai_live();
    Color want = Color::FromFloat(r, g, b, a, Color::Format::kGammaEncoded, space ? ColorSpace::kDisplayP3 : ColorSpace::kSrgb); bool ok = ai_and(ai_and(ai_finite(size), ai_finite(eps)), ai_and(ai_flt(0, eps), ai_fle(eps, size)));
    jlong p = J(Brush_nativeCreateBrush)(&env, nullptr, P(*two), r, g, b, a, space, size, eps);
    if (env.thrown) { ai_assert(ai_not(ok), "brush-refused-only-when-invalid"); Refused(env, absl::InvalidArgumentError("x"), ai_live() - before, "invalid-brush-throws", "refused-brush-leaves-nothing"); continue; }
    ai_assert(ok && Quiet(env), "brush-created-only-when-valid"); const Brush& x = At<Brush>(p); ai_ident_f(x.GetSize(), size, "brush-size"); ai_ident_f(x.GetEpsilon(), eps, "brush-epsilon"); ai_assert(x.CoatCount() == 2, "brush-family");
    auto u = x.GetColor().AsFloat(Color::Format::kLinear), v = want.AsFloat(Color::Format::kLinear); ai_ident_f(u.r, v.r, "brush-red"); ai_ident_f(u.g, v.g, "brush-green"); ai_ident_f(u.b, v.b, "brush-blue"); ai_ident_f(u.a, v.a, "brush-alpha"); ai_assert(x.GetColor().GetColorSpace() == want.GetColorSpace(), "brush-color-space");
    J(Brush_nativeFreeBrush)(&env, nullptr, p); ai_assert(ai_live() == before, "freed-brush-leaves-nothing");
  }
}
// ---- behaviors ----
namespace {
jlong Empty() { JNIEnv env; return J(BrushBehavior_nativeCreateEmptyBrushBehavior)(&env, nullptr); }
template <class T> const T& Node(jlong p, size_t i) { const BB& b = At<BB>(p); ai_assert(b.nodes.size() == i + 1, "one-node-appended"); if (b.nodes.size() <= i) ai_stop(); ai_assert(std::holds_alternative<T>(b.nodes[i]), "kind-of-the-node"); if (!std::holds_alternative<T>(b.nodes[i])) ai_stop(); return std::get<T>(b.nodes[i]); }
template <class E> bool Is(E e, int v) { return (int)e == (int)static_cast<E>(v); }
}
PROP(jbrush_nodes) {
  for (int k = -1; k <= 24; ++k) {
    JNIEnv env; int64_t before = ai_live(); jlong p = Empty(); ai_assert(At<BB>(p).nodes.empty(), "new-behavior-is-empty"); size_t i = 0; F x = Fin("x"), y = Fin("y");
    J(BrushBehavior_00024SourceNode_nativeAppendSourceNode)(&env, nullptr, p, k, x, y, (k + 1) % 3); { auto& n = Node<BB::SourceNode>(p, i++); ai_assert(Is(n.source, k), "source-of-the-node"); ai_ident_f(n.source_value_range[0], x, "source-lower"); ai_ident_f(n.source_value_range[1], y, "source-upper"); ai_assert(Is(n.source_out_of_range_behavior, (k + 1) % 3), "source-out-of-range"); }
    J(BrushBehavior_00024ConstantNode_nativeAppendConstantNode)(&env, nullptr, p, y); ai_ident_f(Node<BB::ConstantNode>(p, i++).value, y, "constant-value");
    J(BrushBehavior_00024FallbackFilterNode_nativeAppendFallbackFilterNode)(&env, nullptr, p, k); ai_assert(Is(Node<BB::FallbackFilterNode>(p, i++).is_fallback_for, k), "fallback-property");
    for (int m = 0; m < 16; m += 5) { J(BrushBehavior_00024ToolTypeFilterNode_nativeAppendToolTypeFilterNode)(&env, nullptr, p, m & 1, (m >> 1) & 1, (m >> 2) & 1, (m >> 3) & 1); auto t = Node<BB::ToolTypeFilterNode>(p, i++).enabled_tool_types; ai_assert(t.mouse == ((m & 1) != 0) && t.touch == ((m & 2) != 0) && t.stylus == ((m & 4) != 0) && t.unknown == ((m & 8) != 0), "enabled-tool-types"); }
    J(BrushBehavior_00024DampingNode_nativeAppendDampingNode)(&env, nullptr, p, k, x); { auto& n = Node<BB::DampingNode>(p, i++); ai_assert(Is(n.damping_source, k), "damping-source"); ai_ident_f(n.damping_gap, x, "damping-gap"); }
    J(BrushBehavior_00024BinaryOpNode_nativeAppendBinaryOpNode)(&env, nullptr, p, k); ai_assert(Is(Node<BB::BinaryOpNode>(p, i++).operation, k), "binary-operation");
    J(BrushBehavior_00024InterpolationNode_nativeAppendInterpolationNode)(&env, nullptr, p, k); ai_assert(Is(Node<BB::InterpolationNode>(p, i++).interpolation, k), "interpolation");
    J(BrushBehavior_00024TargetNode_nativeAppendTargetNode)(&env, nullptr, p, k, x, y); { auto& n = Node<BB::TargetNode>(p, i++); ai_assert(Is(n.target, k), "target-of-the-node"); ai_ident_f(n.target_modifier_range[0], x, "target-lower"); ai_ident_f(n.target_modifier_range[1], y, "target-upper"); }
    ai_assert(Quiet(env), "append-throws-nothing"); J(BrushBehavior_nativeFreeBrushBehavior)(&env, nullptr, p); ai_assert(ai_live() == before, "freed-behavior-leaves-nothing");
  }
}
PROP(jbrush_tool_filters) { for (int m = 0; m < 16; ++m) { JNIEnv env; jlong p = Empty(); J(BrushBehavior_00024ToolTypeFilterNode_nativeAppendToolTypeFilterNode)(&env, nullptr, p, m & 1, (m >> 1) & 1, (m >> 2) & 1, (m >> 3) & 1); auto t = Node<BB::ToolTypeFilterNode>(p, 0).enabled_tool_types; ai_assert(t.mouse == ((m & 1) != 0) && t.touch == ((m & 2) != 0) && t.stylus == ((m & 4) != 0) && t.unknown == ((m & 8) != 0), "enabled-tool-types"); } }
PROP(jbrush_responses) {
  JNIEnv env; int64_t before = ai_live(); jlong p = Empty(); size_t i = 0;
  for (int k = 0; k < 6; ++k) { J(BrushBehavior_00024ResponseNode_nativeAppendResponseNodePredefined)(&env, nullptr, p, k); auto& c = Node<BB::ResponseNode>(p, i++).response_curve.parameters; ai_assert(std::holds_alternative<EF::Predefined>(c) && (int)std::get<EF::Predefined>(c) == k, "predefined-response"); }
  { F a = Fin("a"), b = Fin("b"), c = Fin("c"), d = Fin("d"); J(BrushBehavior_00024ResponseNode_nativeAppendResponseNodeCubicBezier)(&env, nullptr, p, a, b, c, d); auto& e = Node<BB::ResponseNode>(p, i++).response_curve.parameters; ai_assert(std::holds_alternative<EF::CubicBezier>(e), "cubic-response"); auto q = std::get<EF::CubicBezier>(e); ai_ident_f(q.x1, a, "cubic-x1"); ai_ident_f(q.y1, b, "cubic-y1"); ai_ident_f(q.x2, c, "cubic-x2"); ai_ident_f(q.y2, d, "cubic-y2"); }
  { int n = ai_i32(-2147483647 - 1, 2147483647, "n"); for (int k = 0; k < 4; ++k) { J(BrushBehavior_00024ResponseNode_nativeAppendResponseNodeSteps)(&env, nullptr, p, n, k); auto& e = Node<BB::ResponseNode>(p, i++).response_curve.parameters; ai_assert(std::holds_alternative<EF::Steps>(e), "steps-response"); auto q = std::get<EF::Steps>(e); ai_ident_i((uint32_t)q.step_count, (uint32_t)n, "step-count"); ai_assert((int)q.step_position == k, "step-position"); } }
  ai_assert(Quiet(env), "responses-throw-nothing"); J(BrushBehavior_nativeFreeBrushBehavior)(&env, nullptr, p); ai_assert(ai_live() == before, "freed-behavior-leaves-nothing");
}
PROP(jbrush_linear_response) {
  for (int n = 0; n <= 7; ++n) { F v[8]; for (int i = 0; i < 8; ++i) v[i] = Fin("v"); jfloatArray a = jvm::Array<_jfloatArray>(n, v); JNIEnv env; int64_t before = ai_live(); jlong p = Empty(); J(BrushBehavior_00024ResponseNode_nativeAppendResponseNodeLinear)(&env, nullptr, p, a);
    auto& e = Node<BB::ResponseNode>(p, 0).response_curve.parameters; ai_assert(std::holds_alternative<EF::Linear>(e), "linear-response"); auto& q = std::get<EF::Linear>(e).points; ai_assert((int)q.size() == n / 2, "one-point-per-pair"); for (int i = 0; i < n / 2 && i < (int)q.size(); ++i) { ai_ident_f(q[i].x, v[2 * i], "linear-x"); ai_ident_f(q[i].y, v[2 * i + 1], "linear-y"); }
    ai_assert(Quiet(env), "linear-releases-the-array"); J(BrushBehavior_nativeFreeBrushBehavior)(&env, nullptr, p); ai_assert(ai_live() == before, "freed-behavior-leaves-nothing"); }
}
PROP(jbrush_validate) {
  for (int k = 0; k < 4; ++k) { JNIEnv env; int64_t before = ai_live(); jlong p = Empty(); F c = k == 3 ? std::numeric_limits<float>::infinity() : 0.5f; if (k != 1) { J(BrushBehavior_00024ConstantNode_nativeAppendConstantNode)(&env, nullptr, p, c); } if (k != 2) { J(BrushBehavior_00024TargetNode_nativeAppendTargetNode)(&env, nullptr, p, 0, 0.f, 1.f); }
    jlong r = J(BrushBehavior_nativeValidateOrDeleteAndThrow)(&env, nullptr, p);
    ai_assert((env.thrown == 0) == (k == 0), "behavior-validated"); if (k == 0) { ai_assert(reinterpret_cast<void*>(r) == reinterpret_cast<void*>(p) && At<BB>(p).nodes.size() == 2, "valid-behavior-is-returned"); J(BrushBehavior_nativeFreeBrushBehavior)(&env, nullptr, p); ai_assert(ai_live() == before, "freed-behavior-leaves-nothing"); }
    else { ai_assert(env.thrown == 1 && jvm::Eq(env.pending->type, "java/lang/IllegalArgumentException"), "invalid-behavior-throws"); ai_assert(ai_live() - before == OfThrowing(absl::InvalidArgumentError("x")), "invalid-behavior-is-deleted"); } }
}
