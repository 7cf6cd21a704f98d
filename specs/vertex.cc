// Stroke vertices: labels and margins, interpolation, attribute layout, fixed packing parameters.
#include <array>
#include <cstring>
#include <vector>
#include "specs/common.h"
#include "ink/geometry/internal/mesh_packing.h"
#include "ink/geometry/mesh_format.h"
#include "ink/geometry/mutable_mesh.h"
#include "ink/strokes/internal/stroke_vertex.h"
using namespace ink; using namespace ink::strokes_internal;
using V = StrokeVertex; using L = V::Label; using A = V::NonPositionAttributes; using F = MeshFormat; using AT = F::AttributeType; using AI = F::AttributeId; using IX = F::IndexFormat;
namespace {
int Sign(float v) { return v < 0 ? -1 : v > 0 ? 1 : 0; }
float Sym(const char* n) { return ai_f32_in(-1000, 1000, n); }
constexpr float kLabels[] = {-127, -50, -1, 0, 3, 127};
L AnyLabel(const char* n) { return {kLabels[ai_split(ai_i32(0, 5, n))]}; }
constexpr AI kIds[] = {AI::kPosition, AI::kOpacityShift, AI::kColorShiftHsl, AI::kSideDerivative, AI::kSideLabel, AI::kForwardDerivative, AI::kForwardLabel, AI::kSurfaceUv};
constexpr AT kTypes[] = {AT::kFloat2PackedIn3UnsignedBytes_XY12, AT::kFloat1PackedIn1UnsignedByte, AT::kFloat3PackedIn4UnsignedBytes_XYZ10, AT::kFloat2PackedIn3UnsignedBytes_XY12, AT::kFloat1PackedIn1UnsignedByte, AT::kFloat2PackedIn3UnsignedBytes_XY12, AT::kFloat1PackedIn1UnsignedByte, AT::kFloat2PackedIn4UnsignedBytes_X12_Y20};
}
// ---- labels
PROP(label_margin) {
  int k = (int)ai_split(ai_i32(0, 125, "step")), s = (int)ai_split(ai_i32(-1, 1, "side")); float old = s * (ai_bool("old margin") ? 127.f : 5.f); double lo = k * 4 / 126., hi = (k + 1) * 4 / 126.; float m = ai_f32_in(lo + 1e-4, hi - 1e-4, "margin"); L l = L{old}.WithMargin(m);
  ai_assert(l.encoded_value == s * (k + 1), "margin-rounded-down-to-one-of-126-steps"); ai_near(l.DecodeMargin(), s == 0 ? 0 : lo, 1e-5, "margin-decodes-to-its-step");
}
PROP(label_clipped) { int s = (int)ai_split(ai_i32(-1, 1, "side")); L old{s * 64.f}; bool low = ai_bool("negative"); float m = low ? ai_f32_in(-1e30, 0, "margin") : ai_f32_in(4, 1e30, "margin"); L l = old.WithMargin(m); ai_assert(l.encoded_value == s * (low ? 1 : 127), "margin-clipped-to-its-range"); }
PROP(label_keeps_side) { int s = (int)ai_split(ai_i32(-1, 1, "side")); float m = ai_f32_in(-1e6, 1e6, "margin"); L l = L{s * 64.f}.WithMargin(m); ai_assert(l.DecodeSideCategory() == L{s * 1.f}.DecodeSideCategory(), "margin-keeps-the-category"); ai_assert(l.DecodeMargin() >= 0 && l.DecodeMargin() <= 4, "margin-in-range"); if (s != 0) ai_assert(__builtin_fabs(l.encoded_value) >= 1 && __builtin_fabs(l.encoded_value) <= 127, "label-fits-a-byte"); else ai_assert(l.encoded_value == 0, "interior-stays-interior"); }
PROP(label_decode) {
  int k = (int)ai_split(ai_i32(-127, 127, "label")); L l{(float)k}; ai_near(l.DecodeMargin(), k == 0 ? 0 : ((k < 0 ? -k : k) - 1) * 4 / 126., 1e-5, "decoded-margin"); ai_assert(l.DerivativeOutsetSign() == Sign(k), "outset-sign-points-outside");
  ai_assert(l.DecodeSideCategory() == (k < 0 ? V::SideCategory::kExteriorLeft : k > 0 ? V::SideCategory::kExteriorRight : V::SideCategory::kInterior), "side-category"); ai_assert(l.DecodeForwardCategory() == (k < 0 ? V::ForwardCategory::kExteriorFront : k > 0 ? V::ForwardCategory::kExteriorBack : V::ForwardCategory::kInterior), "forward-category");
}
PROP(label_constants) {
  ai_assert(V::kExteriorLeftLabel.DecodeSideCategory() == V::SideCategory::kExteriorLeft && V::kExteriorRightLabel.DecodeSideCategory() == V::SideCategory::kExteriorRight && V::kInteriorLabel.DecodeSideCategory() == V::SideCategory::kInterior, "named-labels"); ai_assert(V::kExteriorFrontLabel.DecodeForwardCategory() == V::ForwardCategory::kExteriorFront && V::kExteriorBackLabel.DecodeForwardCategory() == V::ForwardCategory::kExteriorBack && V::kInteriorLabel.DecodeForwardCategory() == V::ForwardCategory::kInterior, "named-labels");
  for (L l : {V::kExteriorLeftLabel, V::kExteriorRightLabel, V::kExteriorFrontLabel, V::kExteriorBackLabel}) ai_assert(l == l.WithMargin(4) && l.DecodeMargin() == 4, "named-labels-have-the-largest-margin");
  ai_assert(V::kInteriorLabel.DecodeMargin() == 0 && V::kInteriorLabel.DerivativeOutsetSign() == 0, "named-labels");
}
PROP(label_equal) { float a = ai_f32_in(-127, 127, "a"), b = ai_f32_in(-127, 127, "b"); if (a == b) { ai_assert(L{a} == L{b} && !(L{a} != L{b}), "labels-equal-exactly-by-value"); } else { ai_assert(!(L{a} == L{b}) && L{a} != L{b}, "labels-equal-exactly-by-value"); } }
// ---- interpolation
namespace {
A Attr(const char* n) { A a; (void)n; a.opacity_shift = Sym("opacity"); for (float& h : a.hsl_shift) h = Sym("hsl"); a.side_derivative = {Sym("sd"), Sym("sd")}; a.forward_derivative = {Sym("fd"), Sym("fd")}; a.surface_uv = {Sym("u"), Sym("v")}; return a; }
L Full(L l) { return {127.f * Sign(l.encoded_value)}; }
L WantLerp(L a, L b, int where) { a = Full(a); b = Full(b); return a.encoded_value == b.encoded_value || where == 0 ? a : where == 2 ? b : L{0}; }
void NoDerivatives(const A& r) { ai_assert(r.side_derivative == Vec{} && r.forward_derivative == Vec{}, "derivatives-reset"); }
}
PROP(lerp_values) { A a = Attr("a"), b = Attr("b"); float t = ai_f32_in(-2, 3, "t"); A r = Lerp(a, b, t); double u = t; auto want = [&](float x, float y) { return x * (1 - u) + y * u; }; ai_same(r.opacity_shift, want(a.opacity_shift, b.opacity_shift), 1e-4, "opacity-interpolated"); for (int k = 0; k < 3; ++k) ai_same(r.hsl_shift[k], want(a.hsl_shift[k], b.hsl_shift[k]), 1e-4, "color-interpolated"); ai_same(r.surface_uv.x, want(a.surface_uv.x, b.surface_uv.x), 1e-4, "texture-coordinates-interpolated"); ai_same(r.surface_uv.y, want(a.surface_uv.y, b.surface_uv.y), 1e-4, "texture-coordinates-interpolated"); NoDerivatives(r); }
PROP(lerp_labels) { A a, b; a.side_label = AnyLabel("a"); b.side_label = AnyLabel("b"); a.forward_label = {3.f - 2 * a.side_label.encoded_value}; b.forward_label = {-b.side_label.encoded_value / 2}; int w = (int)ai_split(ai_i32(0, 4, "where")); float t = w == 0 ? ai_f32_in(-5, 0, "t") : w == 1 ? ai_f32_in(.001, .999, "t") : w == 2 ? ai_f32_in(1, 5, "t") : w == 3 ? 0 : 1; int at = w == 3 ? 0 : w == 4 ? 2 : w; A r = Lerp(a, b, t); ai_assert(r.side_label == WantLerp(a.side_label, b.side_label, at), "side-label-interpolated"); ai_assert(r.forward_label == WantLerp(a.forward_label, b.forward_label, at), "forward-label-interpolated"); }
PROP(bary_values) { A v[3]; for (A& a : v) a = Attr("v"); std::array<float, 3> t = {Sym("t0"), Sym("t1"), Sym("t2")}; A r = BarycentricLerp(v[0], v[1], v[2], t); auto want = [&](float x, float y, float z) { return (double)x * t[0] + (double)y * t[1] + (double)z * t[2]; }; ai_same(r.opacity_shift, want(v[0].opacity_shift, v[1].opacity_shift, v[2].opacity_shift), 1e-4, "opacity-interpolated"); for (int k = 0; k < 3; ++k) ai_same(r.hsl_shift[k], want(v[0].hsl_shift[k], v[1].hsl_shift[k], v[2].hsl_shift[k]), 1e-4, "color-interpolated"); ai_same(r.surface_uv.x, want(v[0].surface_uv.x, v[1].surface_uv.x, v[2].surface_uv.x), 1e-4, "texture-coordinates-interpolated"); ai_same(r.surface_uv.y, want(v[0].surface_uv.y, v[1].surface_uv.y, v[2].surface_uv.y), 1e-4, "texture-coordinates-interpolated"); NoDerivatives(r); }
PROP(bary_labels) {
  A v[3]; static constexpr float some[] = {-127, -50, 0, 3}; int zero = (int)ai_split(ai_i32(0, 3, "zero coordinate")), w = (int)ai_split(ai_i32(0, 4, "where")); for (A& a : v) { a.side_label = {some[ai_split(ai_i32(0, 3, "label"))]}; a.forward_label = {-2 * a.side_label.encoded_value}; }
  std::array<float, 3> t = {.25f, .5f, .25f}; int p = zero == 0 ? 1 : 0, q = zero == 2 ? 1 : 2; float u = w == 0 ? -.5f : w == 1 ? 0 : w == 2 ? .25f : w == 3 ? 1 : 1.5f; if (zero < 3) { t[zero] = 0; t[q] = u; t[p] = 1 - u; } A r = BarycentricLerp(v[0], v[1], v[2], t);
  int at = w <= 1 ? 0 : w == 2 ? 1 : 2; L s = zero == 3 ? L{0} : WantLerp(v[p].side_label, v[q].side_label, at), f = zero == 3 ? L{0} : WantLerp(v[p].forward_label, v[q].forward_label, at); ai_assert(r.side_label == s, "label-interpolated-along-an-edge-else-interior"); ai_assert(r.forward_label == f, "label-interpolated-along-an-edge-else-interior");
}
// ---- the full format and the mesh accessors
PROP(full_format) {
  F f = V::FullMeshFormat(); auto a = f.Attributes(); ai_assert(a.size() == 8, "eight-attributes"); if (a.size() != 8) ai_stop(); int k = 0; for (AI id : kIds) { ai_assert(a[k].id == id, "attribute-order"); ai_assert(F::ComponentCount(a[k].type) == F::ComponentCount(kTypes[k]) && a[k].type == kTypes[k], "attribute-types"); ++k; } ai_assert(f.GetIndexFormat() == IX::k32BitUnpacked16BitPacked, "index-format"); ai_assert(f.UnpackedVertexStride() == sizeof(V), "vertex-layout-is-the-mesh-layout");
  auto i = V::FindAttributeIndices(f); auto j = V::kFullFormatAttributeIndices; ai_assert(i.position == 0 && i.opacity_shift == 1 && i.hsl_shift == 2 && i.side_derivative == 3 && i.side_label == 4 && i.forward_derivative == 5 && i.forward_label == 6 && i.surface_uv == 7, "found-indices"); ai_assert(j.position == 0 && j.opacity_shift == 1 && j.hsl_shift == 2 && j.side_derivative == 3 && j.side_label == 4 && j.forward_derivative == 5 && j.forward_label == 6 && j.surface_uv == 7, "constant-indices");
}
namespace {
struct W { float f[15]; };
W Flat(const V& v) { const A& a = v.non_position_attributes; return {{v.position.x, v.position.y, a.opacity_shift, a.hsl_shift[0], a.hsl_shift[1], a.hsl_shift[2], a.side_derivative.x, a.side_derivative.y, a.side_label.encoded_value, a.forward_derivative.x, a.forward_derivative.y, a.forward_label.encoded_value, a.surface_uv.x, a.surface_uv.y, 0}}; }
V Any() { V v; v.position = {Sym("x"), Sym("y")}; A& a = v.non_position_attributes; a = Attr("v"); a.opacity_shift = ai_f32_in(-1, 1, "opacity"); for (float& h : a.hsl_shift) h = ai_f32_in(-1, 1, "hsl"); a.side_label = {ai_f32_in(-127, 127, "side")}; a.forward_label = {ai_f32_in(-127, 127, "forward")}; return v; }
void Same(const W& g, const W& w, const char* id) { for (int k = 0; k < 14; ++k) ai_ident_f(g.f[k], w.f[k], id); }
}
PROP(mesh_round_trip) {
  MutableMesh m(V::FullMeshFormat()); V v[3]; W w[3]; for (int k = 0; k < 3; ++k) { v[k] = Any(); w[k] = Flat(v[k]); V::AppendToMesh(m, v[k]); } ai_assert(m.VertexCount() == 3, "one-vertex-per-append"); int at = (int)ai_split(ai_i32(0, 2, "index")), op = (int)ai_split(ai_i32(0, 6, "operation")); float a = Sym("a"), b = Sym("b"); W& t = w[at];
  switch (op) { case 0: { V n = Any(); V::SetInMesh(m, at, n); t = Flat(n); break; } case 1: V::SetSideDerivativeInMesh(m, at, {a, b}); t.f[6] = a; t.f[7] = b; break; case 2: V::SetForwardDerivativeInMesh(m, at, {a, b}); t.f[9] = a; t.f[10] = b; break; case 3: V::SetSideLabelInMesh(m, at, {a}); t.f[8] = a; break; case 4: V::SetForwardLabelInMesh(m, at, {a}); t.f[11] = a; break; case 5: V::SetSurfaceUvInMesh(m, at, {a, b}); t.f[12] = a; t.f[13] = b; break; default: break; }
  for (int k = 0; k < 3; ++k) {
    Same(Flat(V::GetFromMesh(m, k)), w[k], "vertex-read-back"); Vec s = V::GetSideDerivativeFromMesh(m, k), f = V::GetForwardDerivativeFromMesh(m, k); Point u = V::GetSurfaceUvFromMesh(m, k); ai_ident_f(s.x, w[k].f[6], "attribute-read-back"); ai_ident_f(s.y, w[k].f[7], "attribute-read-back"); ai_ident_f(f.x, w[k].f[9], "attribute-read-back"); ai_ident_f(f.y, w[k].f[10], "attribute-read-back"); ai_ident_f(V::GetSideLabelFromMesh(m, k).encoded_value, w[k].f[8], "attribute-read-back"); ai_ident_f(V::GetForwardLabelFromMesh(m, k).encoded_value, w[k].f[11], "attribute-read-back"); ai_ident_f(u.x, w[k].f[12], "attribute-read-back"); ai_ident_f(u.y, w[k].f[13], "attribute-read-back");
    static constexpr int start[] = {0, 2, 3, 6, 8, 9, 11, 12, 14}; for (int i = 0; i < 8; ++i) { auto x = m.FloatVertexAttribute(k, i); ai_assert(x.Size() == start[i + 1] - start[i], "stored-under-its-attribute"); if (x.Size() != start[i + 1] - start[i]) ai_stop(); for (int c = 0; c < x.Size(); ++c) ai_ident_f(x[c], w[k].f[start[i] + c], "stored-under-its-attribute"); }
  }
}
PROP(mesh_clamped) {
  MutableMesh m(V::FullMeshFormat()); V v = Any(); A& a = v.non_position_attributes; int k = (int)ai_split(ai_i32(0, 3, "shift")); bool high = ai_bool("high"), set = ai_bool("set"); float x = high ? ai_f32_in(1, 1e30, "shift") : ai_f32_in(-1e30, -1, "shift"); (k == 0 ? a.opacity_shift : a.hsl_shift[k - 1]) = x; W w = Flat(v); w.f[2 + k] = high ? 1 : -1; if (set) { V::AppendToMesh(m, V()); V::SetInMesh(m, 0, v); } else V::AppendToMesh(m, v); Same(Flat(V::GetFromMesh(m, 0)), w, "color-shifts-clamped-to-one");
}
// ---- finding attributes and choosing packing parameters
namespace {
struct P { int n; float offset[3], scale[3]; };
constexpr P kWant[] = {{0}, {1, {-1}, {2. / 254}}, {3, {-1, -1, -1}, {2. / 1022, 2. / 1022, 2. / 1022}}, {0}, {1, {-128}, {1}}, {0}, {1, {-128}, {1}}, {2, {0, 0}, {1. / 4095, 1. / 1048575}}};
void CheckParams(const std::optional<MeshAttributeCodingParams>& g, int which) { const P& w = kWant[which]; ai_assert(g.has_value() == (w.n > 0), "custom-packing-exactly-for-shifts-labels-and-uv"); if (!g.has_value() || w.n == 0) return; ai_assert(g->components.Size() == w.n, "fixed-packing-parameters"); if (g->components.Size() != w.n) ai_stop(); for (int c = 0; c < w.n; ++c) { ai_assert(g->components[c].offset == w.offset[c], "fixed-packing-parameters"); ai_assert(g->components[c].scale == w.scale[c], "fixed-packing-parameters"); } }
}
PROP(attribute_subsets) {
  int first = (int)ai_split(ai_i32(0, 7, "rotation")), mask = (int)ai_split(ai_i32(0, 127, "present")); bool back = ai_bool("backwards"); std::vector<std::pair<AT, AI>> as; int at[8]; for (int& x : at) x = -1; for (int i = 0; i < 8; ++i) { int k = (first + (back ? 8 - i : i)) % 8; if (k != 0 && !(mask >> (k - 1) & 1)) continue; at[k] = as.size(); as.push_back({kTypes[k], kIds[k]}); } auto f = F::Create(as, IX::k32BitUnpacked16BitPacked); if (!f.ok()) ai_stop();
  auto g = V::FindAttributeIndices(*f); ai_assert(g.position == at[0] && g.opacity_shift == at[1] && g.hsl_shift == at[2] && g.side_derivative == at[3] && g.side_label == at[4] && g.forward_derivative == at[5] && g.forward_label == at[6] && g.surface_uv == at[7], "found-or-missing");
}
PROP(packing_params) { auto p = V::MakeCustomPackingArray(V::FullMeshFormat()); ai_assert(p.Size() == 8, "one-entry-per-attribute"); if (p.Size() != 8) ai_stop(); for (int k = 0; k < 8; ++k) CheckParams(p[k], k); }
PROP(packing_other_types) {
  static constexpr AT types[3][4] = {{AT::kFloat1Unpacked, AT::kFloat1PackedIn1UnsignedByte}, {AT::kFloat2Unpacked, AT::kFloat2PackedIn1Float, AT::kFloat2PackedIn3UnsignedBytes_XY12, AT::kFloat2PackedIn4UnsignedBytes_X12_Y20}, {AT::kFloat3Unpacked, AT::kFloat3PackedIn1Float, AT::kFloat3PackedIn2Floats, AT::kFloat3PackedIn4UnsignedBytes_XYZ10}};
  int k = (int)ai_split(ai_i32(1, 7, "attribute")), n = F::ComponentCount(kTypes[k]), j = (int)ai_split(ai_i32(0, 3, "type")); if (n == 1 && j > 1) ai_stop(); AT t = types[n - 1][j]; auto f = F::Create({{AT::kFloat2Unpacked, AI::kPosition}, {t, kIds[k]}, {AT::kFloat1PackedIn1UnsignedByte, AI::kCustom0}}, IX::k32BitUnpacked16BitPacked); if (!f.ok()) ai_stop(); auto p = V::MakeCustomPackingArray(*f); ai_assert(p.Size() == 3, "one-entry-per-attribute"); if (p.Size() != 3) ai_stop(); ai_assert(!p[0].has_value() && !p[2].has_value(), "custom-packing-exactly-for-shifts-labels-and-uv"); CheckParams(p[1], t == kTypes[k] ? k : 0);
}
PROP(packing_skipped) { int mask = (int)ai_split(ai_i32(0, 255, "skipped")); std::vector<AI> skip; if (ai_bool("absent id")) skip.push_back(AI::kCustom5); for (int k = 7; k >= 0; --k) if (mask >> k & 1) skip.push_back(kIds[k]); auto p = V::MakeCustomPackingArray(V::FullMeshFormat(), skip); int n = 0; for (int k = 0; k < 8; ++k) n += !(mask >> k & 1); ai_assert(p.Size() == n, "skipped-attributes-take-no-entry"); if (p.Size() != n) ai_stop(); n = 0; for (int k = 0; k < 8; ++k) if (!(mask >> k & 1)) CheckParams(p[n++], k); }
// labels and the absence of a color shift survive packing exactly, and shifts stay within half a step
PROP(packed_exactly) {
  auto p = V::MakeCustomPackingArray(V::FullMeshFormat()); if (p.Size() != 8) ai_stop(); int which = (int)ai_split(ai_i32(0, 2, "attribute")); static constexpr int at[] = {4, 6, 1}; const auto& params = p[at[which]]; if (!params.has_value()) ai_stop(); float v = which == 2 ? 0 : (float)ai_split(ai_i32(-127, 127, "label")); std::byte b[1]; mesh_internal::PackAttribute(kTypes[at[which]], *params, SmallArray<float, 4>({v}), absl::MakeSpan(b, 1)); auto r = mesh_internal::UnpackAttribute(kTypes[at[which]], *params, absl::MakeConstSpan(b, 1)); ai_assert(r.Size() == 1, "unpacked"); if (r.Size() != 1) ai_stop(); if (which == 2) ai_near(r[0], 0, 1e-6, "no-shift-stays-no-shift"); else ai_assert(r[0] == v, "labels-survive-packing");
}
PROP(packed_hsl) { auto p = V::MakeCustomPackingArray(V::FullMeshFormat()); if (p.Size() != 8 || !p[2].has_value()) ai_stop(); float v[3]; int k = (int)ai_split(ai_i32(0, 2, "component")), z = (int)ai_split(ai_i32(0, 2, "value")); for (float& x : v) x = 0; v[k] = z - 1.f; std::byte b[4]; mesh_internal::PackAttribute(kTypes[2], *p[2], SmallArray<float, 4>({v[0], v[1], v[2]}), absl::MakeSpan(b, 4)); auto r = mesh_internal::UnpackAttribute(kTypes[2], *p[2], absl::MakeConstSpan(b, 4)); ai_assert(r.Size() == 3, "unpacked"); if (r.Size() != 3) ai_stop(); for (int c = 0; c < 3; ++c) ai_near(r[c], v[c], 1e-6, "no-shift-and-full-shift-survive-packing"); }
