// Mesh specifications for shaders: which formats are supported and where each shader attribute reads its bytes.
#include <array>
#include <vector>
#include "specs/common.h"
#include "ink/geometry/mesh_format.h"
#include "ink/rendering/skia/common_internal/mesh_specification_data.h"
#include "ink/strokes/internal/stroke_vertex.h"
using namespace ink; using D = skia_common_internal::MeshSpecificationData;
using F = MeshFormat; using AT = F::AttributeType; using AI = F::AttributeId; using IX = F::IndexFormat;
namespace {
struct At { AT t; AI id; };
using List = std::vector<At>;
F Make(const List& l) { std::vector<std::pair<AT, AI>> s; for (At a : l) s.push_back({a.t, a.id}); auto f = F::Create(s, IX::k32BitUnpacked16BitPacked); ai_assert(f.ok(), "format-of-the-harness"); if (!f.ok()) ai_stop(); return *f; }
// the documentation of AttributeType, transcribed
int Components(AT t) { switch (t) { case AT::kFloat1Unpacked: case AT::kFloat1PackedIn1UnsignedByte: return 1; case AT::kFloat2Unpacked: case AT::kFloat2PackedIn1Float: case AT::kFloat2PackedIn3UnsignedBytes_XY12: case AT::kFloat2PackedIn4UnsignedBytes_X12_Y20: return 2; case AT::kFloat3Unpacked: case AT::kFloat3PackedIn1Float: case AT::kFloat3PackedIn2Floats: case AT::kFloat3PackedIn4UnsignedBytes_XYZ10: return 3; default: return 4; } }
int Bytes(AT t) { switch (t) { case AT::kFloat1Unpacked: case AT::kFloat2PackedIn1Float: case AT::kFloat2PackedIn4UnsignedBytes_X12_Y20: case AT::kFloat3PackedIn1Float: case AT::kFloat3PackedIn4UnsignedBytes_XYZ10: case AT::kFloat4PackedIn1Float: return 4; case AT::kFloat1PackedIn1UnsignedByte: return 1; case AT::kFloat2Unpacked: case AT::kFloat3PackedIn2Floats: case AT::kFloat4PackedIn2Floats: return 8; case AT::kFloat2PackedIn3UnsignedBytes_XY12: return 3; case AT::kFloat3Unpacked: case AT::kFloat4PackedIn3Floats: return 12; case AT::kFloat4Unpacked: return 16; } return 0; }
constexpr AT kAllTypes[] = {AT::kFloat1Unpacked, AT::kFloat1PackedIn1UnsignedByte, AT::kFloat2Unpacked, AT::kFloat2PackedIn1Float, AT::kFloat2PackedIn3UnsignedBytes_XY12, AT::kFloat2PackedIn4UnsignedBytes_X12_Y20, AT::kFloat3Unpacked, AT::kFloat3PackedIn1Float, AT::kFloat3PackedIn2Floats, AT::kFloat3PackedIn4UnsignedBytes_XYZ10, AT::kFloat4Unpacked, AT::kFloat4PackedIn1Float, AT::kFloat4PackedIn2Floats, AT::kFloat4PackedIn3Floats};
struct Slot { D::AttributeType type; int offset, index; };
struct Want { bool ok = false; std::vector<Slot> slots; int stride = 0; int pos = -1, side = -1, fwd = -1; };
int Find(const List& l, AI id) { for (size_t i = 0; i < l.size(); ++i) if (l[i].id == id) return (int)i; return -1; }
int Offset(const List& l, int i) { int o = 0; for (int k = 0; k < i; ++k) o += Bytes(l[k].t); return o; }
// the documented requirements, stated independently
Want Expect(const List& l) {
  Want w; int p = Find(l, AI::kPosition), o = Find(l, AI::kOpacityShift), h = Find(l, AI::kColorShiftHsl), sd = Find(l, AI::kSideDerivative), sl = Find(l, AI::kSideLabel), fd = Find(l, AI::kForwardDerivative), fl = Find(l, AI::kForwardLabel), uv = Find(l, AI::kSurfaceUv);
  if (o < 0 || sd < 0 || sl < 0 || fd < 0 || fl < 0) return w; if (o != p + 1 || sl != sd + 1 || fl != fd + 1) return w;
  auto pair = [&](int a, int b, AT fa, AT fb, D::AttributeType ft, AT ba, AT bb) { if (l[a].t == fa && l[b].t == fb) { w.slots.push_back({ft, Offset(l, a), a}); return true; } if (l[a].t == ba && l[b].t == bb) { w.slots.push_back({D::AttributeType::kUByte4, Offset(l, a), a}); return true; } return false; };
  if (!pair(p, o, AT::kFloat2PackedIn1Float, AT::kFloat1Unpacked, D::AttributeType::kFloat2, AT::kFloat2PackedIn3UnsignedBytes_XY12, AT::kFloat1PackedIn1UnsignedByte)) return w;
  if (!pair(sd, sl, AT::kFloat2Unpacked, AT::kFloat1Unpacked, D::AttributeType::kFloat3, AT::kFloat2PackedIn3UnsignedBytes_XY12, AT::kFloat1PackedIn1UnsignedByte)) return w;
  if (!pair(fd, fl, AT::kFloat2Unpacked, AT::kFloat1Unpacked, D::AttributeType::kFloat3, AT::kFloat2PackedIn3UnsignedBytes_XY12, AT::kFloat1PackedIn1UnsignedByte)) return w;
  auto one = [&](int a, AT f, D::AttributeType ft, AT b) { if (a < 0) return true; if (l[a].t == f) w.slots.push_back({ft, Offset(l, a), a}); else if (l[a].t == b) w.slots.push_back({D::AttributeType::kUByte4, Offset(l, a), a}); else return false; return true; };
  if (!one(h, AT::kFloat3Unpacked, D::AttributeType::kFloat3, AT::kFloat3PackedIn4UnsignedBytes_XYZ10)) return w; if (!one(uv, AT::kFloat2Unpacked, D::AttributeType::kFloat2, AT::kFloat2PackedIn4UnsignedBytes_X12_Y20)) return w;
  w.ok = true; w.stride = Offset(l, (int)l.size()); w.pos = p; w.side = sd; w.fwd = fd; return w;
}
int CountId(const D& d, D::UniformId id) { int n = 0; for (auto& u : d.uniforms.Values()) n += u.id == id; return n; }
const D::Uniform* Uni(const D& d, D::UniformId id) { for (auto& u : d.uniforms.Values()) if (u.id == id) return &u; return nullptr; }
void Attributes(const D& d, const std::vector<Slot>& want, const char* id) {
  auto a = d.attributes.Values(); ai_assert(a.size() == want.size(), id); if (a.size() != want.size()) return;
  for (const Slot& s : want) { int n = 0; for (auto& x : a) n += x.offset == s.offset && x.type == s.type; ai_assert(n == 1, id); }
  for (size_t i = 0; i < a.size(); ++i) { ai_assert(!a[i].name.empty(), "attribute-has-a-name"); for (size_t j = 0; j < i; ++j) ai_assert(a[i].name != a[j].name, "attribute-names-distinct"); }
}
void Common(const D& d) {
  auto v = d.varyings.Values(); for (size_t i = 0; i < v.size(); ++i) { ai_assert(!v[i].name.empty(), "varying-has-a-name"); for (size_t j = 0; j < i; ++j) ai_assert(v[i].name != v[j].name, "varying-names-distinct"); }
  for (auto& u : d.uniforms.Values()) { ai_assert(CountId(d, u.id) == 1, "uniforms-distinct"); ai_assert(u.type == (u.id == D::UniformId::kTextureMapping ? D::UniformType::kInt : D::UniformType::kFloat4), "uniform-type"); }
  for (D::UniformId id : {D::UniformId::kObjectToCanvasLinearComponent, D::UniformId::kBrushColor, D::UniformId::kTextureMapping}) { ai_assert(CountId(d, id) == 1, "uniform-always-there"); if (auto* u = Uni(d, id)) ai_assert(!u->unpacking_attribute_index.has_value(), "not-an-unpacking-uniform"); }
}
void Unpacking(const D& d, D::UniformId id, int index, const char* what) { ai_assert(CountId(d, id) == 1, what); if (auto* u = Uni(d, id)) { ai_assert(u->unpacking_attribute_index.has_value(), what); if (u->unpacking_attribute_index.has_value()) ai_assert(*u->unpacking_attribute_index == index, what); } }
void Check(const List& l) {
  F f = Make(l); Want w = Expect(l); auto r = D::CreateForStroke(f);
  ai_assert(r.ok() == w.ok, w.ok ? "supported-format-accepted" : "unsupported-format-refused"); ai_assert(r.ok() || r.status().code() == absl::StatusCode::kInvalidArgument, "refusal-is-an-invalid-argument"); if (!r.ok() || !w.ok) return;
  Attributes(*r, w.slots, "attributes-at-their-packed-offsets"); ai_assert(r->vertex_stride == w.stride, "packed-stride"); Common(*r);
  Unpacking(*r, D::UniformId::kPositionUnpackingTransform, w.pos, "position-unpacking-index"); Unpacking(*r, D::UniformId::kSideDerivativeUnpackingTransform, w.side, "side-unpacking-index"); Unpacking(*r, D::UniformId::kForwardDerivativeUnpackingTransform, w.fwd, "forward-unpacking-index");
  ai_assert(r->uniforms.Size() == 6, "no-other-uniforms");
}
List Base(bool bytes) {
  if (bytes) return {{AT::kFloat2PackedIn3UnsignedBytes_XY12, AI::kPosition}, {AT::kFloat1PackedIn1UnsignedByte, AI::kOpacityShift}, {AT::kFloat3PackedIn4UnsignedBytes_XYZ10, AI::kColorShiftHsl}, {AT::kFloat2PackedIn3UnsignedBytes_XY12, AI::kSideDerivative}, {AT::kFloat1PackedIn1UnsignedByte, AI::kSideLabel}, {AT::kFloat2PackedIn3UnsignedBytes_XY12, AI::kForwardDerivative}, {AT::kFloat1PackedIn1UnsignedByte, AI::kForwardLabel}, {AT::kFloat2PackedIn4UnsignedBytes_X12_Y20, AI::kSurfaceUv}};
  return {{AT::kFloat2PackedIn1Float, AI::kPosition}, {AT::kFloat1Unpacked, AI::kOpacityShift}, {AT::kFloat3Unpacked, AI::kColorShiftHsl}, {AT::kFloat2Unpacked, AI::kSideDerivative}, {AT::kFloat1Unpacked, AI::kSideLabel}, {AT::kFloat2Unpacked, AI::kForwardDerivative}, {AT::kFloat1Unpacked, AI::kForwardLabel}, {AT::kFloat2Unpacked, AI::kSurfaceUv}};
}
List AnyBase() { return Base(ai_bool("bytes")); }
int Pick(int n, const char* what) { return (int)ai_split(ai_i32(0, n - 1, what)); }
void Types(int slot) { List l = AnyBase(); l[slot].t = kAllTypes[Pick(14, "type")]; if (l[slot].id == AI::kPosition && Components(l[slot].t) != 2) return; Check(l); }
void PairTypes(int a, bool two) { List l = AnyBase(); l[a].t = kAllTypes[Pick(14, "type")]; if (two && Components(l[a].t) != 2) return; l[a + 1].t = kAllTypes[Pick(14, "other type")]; Check(l); }
}
PROP(names) {
  const char* known[6]; absl::string_view n[6]; for (int i = 0; i < 6; ++i) { n[i] = D::GetUniformName(static_cast<D::UniformId>(i)); ai_assert(!n[i].empty(), "named-uniform-has-a-name"); for (int j = 0; j < i; ++j) ai_assert(n[i] != n[j], "uniform-names-distinct"); } (void)known;
  for (int k : {-1, 6, 7, 100}) ai_assert(D::GetUniformName(static_cast<D::UniformId>(k)).empty(), "no-name-for-other-values");
}
PROP(in_progress) {
  D d = D::CreateForInProgressStroke(); std::vector<Slot> w = {{D::AttributeType::kFloat3, 0, 0}, {D::AttributeType::kFloat3, 12, 0}, {D::AttributeType::kFloat3, 24, 0}, {D::AttributeType::kFloat3, 36, 0}, {D::AttributeType::kFloat2, 48, 0}};
  const F& f = strokes_internal::StrokeVertex::FullMeshFormat(); auto off = [&](AI id) { for (auto& a : f.Attributes()) if (a.id == id) return (int)a.unpacked_offset; return -1; };
  w[0].offset = off(AI::kPosition); w[1].offset = off(AI::kColorShiftHsl); w[2].offset = off(AI::kSideDerivative); w[3].offset = off(AI::kForwardDerivative); w[4].offset = off(AI::kSurfaceUv);
  Attributes(d, w, "unpacked-attributes-at-their-offsets"); ai_assert(d.vertex_stride == f.UnpackedVertexStride(), "unpacked-stride"); Common(d); ai_assert(d.uniforms.Size() == 3, "no-unpacking-uniforms");
  ai_assert(off(AI::kOpacityShift) == off(AI::kPosition) + 8 && off(AI::kSideLabel) == off(AI::kSideDerivative) + 8 && off(AI::kForwardLabel) == off(AI::kForwardDerivative) + 8, "combined-attributes-adjacent");
}
PROP(in_progress_format) {
  const F& full = strokes_internal::StrokeVertex::FullMeshFormat(); int k = Pick(10, "how"); List l; for (auto& a : full.Attributes()) l.push_back({a.type, a.id});
  if (k == 9) { auto r = D::CreateForInProgressStroke(full); ai_assert(r.ok(), "full-format-accepted"); if (r.ok()) { ai_assert(r->vertex_stride == full.UnpackedVertexStride() && r->attributes.Size() == 5, "same-specification"); ai_assert(D::CreateForStroke(full).ok(), "in-progress-format-is-always-supported"); } return; }
  if (k == 8) l.push_back({AT::kFloat1Unpacked, AI::kCustom0}); else { int i = Find(l, AI::kSurfaceUv); if (k == 0) l.erase(l.begin() + i); else if (k == 1) std::swap(l[i], l[Find(l, AI::kColorShiftHsl)]); else if (k == 2) l[Find(l, AI::kOpacityShift)].t = AT::kFloat1PackedIn1UnsignedByte == l[Find(l, AI::kOpacityShift)].t ? AT::kFloat1Unpacked : AT::kFloat1PackedIn1UnsignedByte; else return; }
  auto r = D::CreateForInProgressStroke(Make(l)); ai_assert(!r.ok(), "other-format-refused"); if (!r.ok()) ai_assert(r.status().code() == absl::StatusCode::kInvalidArgument, "refusal-is-an-invalid-argument");
}
PROP(stroke_base) { bool h = ai_bool("without hsl"), u = ai_bool("without uv"), m = ai_bool("mixed"); List l = AnyBase(); if (m) { List o = Base(l[0].t != AT::kFloat2PackedIn3UnsignedBytes_XY12); int k = Pick(5, "which other"); if (k == 0) { l[0] = o[0]; l[1] = o[1]; } else if (k == 1) l[2] = o[2]; else if (k == 2) { l[3] = o[3]; l[4] = o[4]; } else if (k == 3) { l[5] = o[5]; l[6] = o[6]; } else l[7] = o[7]; } if (u) l.erase(l.begin() + 7); if (h) l.erase(l.begin() + 2); Check(l); }
PROP(stroke_types_hsl) { Types(2); }
PROP(stroke_types_uv) { Types(7); }
PROP(stroke_types_position) { Types(0); }
PROP(stroke_types_position_opacity) { PairTypes(0, true); }
PROP(stroke_types_side) { PairTypes(3, false); }
PROP(stroke_types_forward) { PairTypes(5, false); }
PROP(stroke_removed) { List l = AnyBase(); int k = Pick(7, "removed") + 1; l.erase(l.begin() + k); Check(l); }
PROP(stroke_swapped) { List l = AnyBase(); int a = Pick(8, "a"), b = Pick(8, "b"); if (a >= b) return; std::swap(l[a], l[b]); Check(l); }
PROP(stroke_rotated) { List l = AnyBase(); int k = Pick(8, "rotation"); List r; for (int i = 0; i < 8; ++i) r.push_back(l[(i + k) % 8]); Check(r); }
PROP(stroke_blocks) { // the five groups in every order, with and without another attribute in front
  List l = AnyBase(); constexpr int from[] = {0, 2, 3, 5, 7}, n[] = {2, 1, 2, 2, 1}; int used = 0; List r; bool custom = ai_bool("custom in front"); if (custom) r.push_back({AT::kFloat3PackedIn2Floats, AI::kCustom3});
  for (int k = 0; k < 5; ++k) { int p = 0; if (k < 4) p = Pick(5 - k, "next"); int g = 0; for (; g < 5; ++g) if (!(used >> g & 1) && p-- == 0) break; used |= 1 << g; for (int i = 0; i < n[g]; ++i) r.push_back(l[from[g] + i]); }
  Check(r);
}
PROP(stroke_inserted) { List l = AnyBase(); int k = Pick(9, "place"), t = Pick(3, "type"); l.insert(l.begin() + k, At{t == 0 ? AT::kFloat1Unpacked : t == 1 ? AT::kFloat1PackedIn1UnsignedByte : AT::kFloat4PackedIn3Floats, AI::kTexture}); Check(l); }
