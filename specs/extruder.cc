// The mesh view, vertices, outlines and searches the stroke extruder is built from.
#include <array>
#include <cstring>
#include <limits>
#include <optional>
#include <vector>
#include "specs/common.h"
#include "absl/types/span.h"
#include "ink/geometry/mesh_format.h"
#include "ink/geometry/mutable_mesh.h"
#include "ink/geometry/internal/legacy_triangle_contains.h"
#include "ink/geometry/internal/legacy_vector_utils.h"
#include "ink/geometry/segment.h"
#include "ink/geometry/triangle.h"
#include "ink/strokes/internal/brush_tip_extruder/derivative_calculator_helpers.h"
#include "ink/strokes/internal/brush_tip_extruder/directed_partial_outline.h"
#include "ink/strokes/internal/brush_tip_extruder/extruded_vertex.h"
#include "ink/strokes/internal/brush_tip_extruder/find_clockwise_winding_segment.h"
#include "ink/strokes/internal/brush_tip_extruder/mutable_mesh_view.h"
#include "ink/strokes/internal/brush_tip_extruder/side.h"
#include "ink/strokes/internal/brush_tip_extruder/simplify.h"
#include "ink/strokes/internal/legacy_vertex.h"
#include "ink/strokes/internal/stroke_vertex.h"
using namespace ink; using namespace ink::brush_tip_extruder_internal; using namespace ink::strokes_internal;
using E = ExtrudedVertex; using V = StrokeVertex; using T3 = std::array<uint32_t, 3>; using View = MutableMeshView; using F = MeshFormat;
namespace {
float Sym(const char* n) { return ai_f32_in(-1000, 1000, n); }
float One(const char* n) { return ai_f32_in(-1, 1, n); }
// 14 attributes of the mesh vertex, then the legacy ones: color 14..17, texture coordinates 18..19 and 20..21
struct W { float f[22] = {}; };
W Flat(const E& e) { const auto& a = e.new_non_position_attributes; return {{e.position.x, e.position.y, a.opacity_shift, a.hsl_shift[0], a.hsl_shift[1], a.hsl_shift[2], a.side_derivative.x, a.side_derivative.y, a.side_label.encoded_value, a.forward_derivative.x, a.forward_derivative.y, a.forward_label.encoded_value, a.surface_uv.x, a.surface_uv.y, e.color.r, e.color.g, e.color.b, e.color.a, e.texture_coords.x, e.texture_coords.y, e.secondary_texture_coords.x, e.secondary_texture_coords.y}}; }
E Any(const char* n) { E e; (void)n; auto& a = e.new_non_position_attributes; e.position = {Sym("x"), Sym("y")}; a.opacity_shift = One("opacity"); for (float& h : a.hsl_shift) h = One("hsl"); a.side_derivative = {Sym("sd"), Sym("sd")}; a.side_label = {ai_f32_in(-127, 127, "side")}; a.forward_derivative = {Sym("fd"), Sym("fd")}; a.forward_label = {ai_f32_in(-127, 127, "forward")}; a.surface_uv = {Sym("u"), Sym("v")}; e.color = {Sym("r"), Sym("g"), Sym("b"), Sym("a")}; e.texture_coords = {Sym("s"), Sym("t")}; e.secondary_texture_coords = {Sym("s"), Sym("t")}; return e; }
// what a view of either kind keeps of a vertex
W Kept(W w, bool legacy) { for (int k = 2; k < 22; ++k) if (legacy ? k < 14 : k >= 14) w.f[k] = 0; return w; }
void Same(const W& g, const W& w, const char* id) { for (int k = 0; k < 22; ++k) ai_ident_f(g.f[k], w.f[k], id); }
struct Model { bool legacy; std::vector<W> v; std::vector<T3> t; uint32_t first_v = 0, first_t = 0; };
struct Rig {
  Model m; MutableMesh mesh{V::FullMeshFormat()}; std::vector<LegacyVertex> lv; std::vector<uint32_t> li;
  View Make() { return m.legacy ? View(lv, li) : View(mesh); }
};
void Down(uint32_t& at, uint32_t to) { if (to < at) at = to; }
void Compare(const View& w, const Model& m) {
  ai_assert(w.HasMeshData(), "has-data"); ai_assert(w.VertexCount() == m.v.size(), "vertex-count"); ai_assert(w.TriangleCount() == m.t.size(), "triangle-count"); if (w.VertexCount() != m.v.size() || w.TriangleCount() != m.t.size()) ai_stop();
  ai_assert(w.FirstMutatedVertex() == m.first_v, "first-mutated-vertex"); ai_assert(w.FirstMutatedTriangle() == m.first_t, "first-mutated-triangle");
  for (uint32_t k = 0; k < m.v.size(); ++k) {
    const float* f = m.v[k].f; Same(Flat(w.GetVertex(k)), m.v[k], "vertex-read-back"); Point p = w.GetPosition(k); ai_ident_f(p.x, f[0], "position-read-back"); ai_ident_f(p.y, f[1], "position-read-back");
    Vec s = w.GetSideDerivative(k), g = w.GetForwardDerivative(k); ai_ident_f(s.x, f[6], "derivative-read-back"); ai_ident_f(s.y, f[7], "derivative-read-back"); ai_ident_f(g.x, f[9], "derivative-read-back"); ai_ident_f(g.y, f[10], "derivative-read-back"); ai_ident_f(w.GetSideLabel(k).encoded_value, f[8], "label-read-back"); ai_ident_f(w.GetForwardLabel(k).encoded_value, f[11], "label-read-back");
  }
  for (uint32_t k = 0; k < m.t.size(); ++k) {
    T3 t = w.GetTriangleIndices(k); ai_assert(t == m.t[k], "triangle-read-back"); for (int c = 0; c < 3; ++c) ai_assert(w.GetVertexIndex(k, c) == m.t[k][c], "corner-read-back"); bool ok = true; for (uint32_t i : m.t[k]) ok &= i < m.v.size(); if (!ok) continue;
    Triangle g = w.GetTriangle(k); Point p[3] = {g.p0, g.p1, g.p2}; for (int c = 0; c < 3; ++c) { ai_ident_f(p[c].x, m.v[m.t[k][c]].f[0], "triangle-corners"); ai_ident_f(p[c].y, m.v[m.t[k][c]].f[1], "triangle-corners"); }
  }
}
void Apply(View& w, Model& m, int op, int at) {
  uint32_t n = m.v.size(), k = m.t.size(), i = at; T3 t = {i, 2 - i, (i + 1) % 3};
  switch (op) {
    case 0: { if (at) ai_stop(); E e = Any("new"); w.AppendVertex(e); m.v.push_back(Kept(Flat(e), m.legacy)); break; }
    case 1: { if (i >= n) ai_stop(); E e = Any("set"); w.SetVertex(i, e); m.v[i] = Kept(Flat(e), m.legacy); Down(m.first_v, i); break; }
    case 2: case 3: { if (i >= n) ai_stop(); Vec d{Sym("dx"), Sym("dy")}; op == 2 ? w.SetSideDerivative(i, d) : w.SetForwardDerivative(i, d); if (!m.legacy) { m.v[i].f[op == 2 ? 6 : 9] = d.x; m.v[i].f[op == 2 ? 7 : 10] = d.y; Down(m.first_v, i); } break; }
    case 4: case 5: { if (i >= n) ai_stop(); V::Label l{ai_f32_in(-127, 127, "label")}; op == 4 ? w.SetSideLabel(i, l) : w.SetForwardLabel(i, l); if (!m.legacy) { m.v[i].f[op == 4 ? 8 : 11] = l.encoded_value; Down(m.first_v, i); } break; }
    case 6: { w.AppendTriangleIndices(t); m.t.push_back(t); break; }
    case 7: { if (i >= k) ai_stop(); w.SetTriangleIndices(i, t); m.t[i] = t; Down(m.first_t, i); break; }
    case 8: { if (i > k) ai_stop(); w.InsertTriangleIndices(i, t); m.t.insert(m.t.begin() + i, t); Down(m.first_t, i); break; }
    case 9: { uint32_t a = at == 0 ? 0 : at == 1 ? n + 1 : (n ? n - 1 : 0), b = at == 0 ? k + 1 : at == 1 ? 0 : (k ? k - 1 : 0); w.Resize(a, b); m.v.resize(a); m.t.resize(b, T3{0, 0, 0}); Down(m.first_v, a); Down(m.first_t, b); break; }
    case 10: { if (at) ai_stop(); w.ResetMutationTracking(); m.first_v = n; m.first_t = k; break; }
  }
}
#ifdef AI_THOROUGH
constexpr int kSteps = 3;
#else
constexpr int kSteps = 2;
#endif
void Start(Rig& r, int n, int k) { for (int i = 0; i < n; ++i) { E e = Any("start"); if (r.m.legacy) r.lv.push_back(e.ToLegacy()); else V::AppendToMesh(r.mesh, {e.position, e.new_non_position_attributes}); r.m.v.push_back(Kept(Flat(e), r.m.legacy)); } for (int i = 0; i < k; ++i) { T3 t = {uint32_t(i), uint32_t(1 - i), 0}; if (r.m.legacy) r.li.insert(r.li.end(), t.begin(), t.end()); else r.mesh.AppendTriangleIndices(t); r.m.t.push_back(t); } r.m.first_v = n; r.m.first_t = k; }
void Walk(bool legacy, int first) {
  Rig r; r.m.legacy = legacy; int n = 2; Start(r, n, n); View w = r.Make(); Compare(w, r.m); Apply(w, r.m, first, (int)ai_split(ai_i32(0, 2, "where")));
  for (int s = 1; s < kSteps; ++s) { int op = (int)ai_split(ai_i32(0, 10, "operation")); if (s > 1 && (op == 2 || op == 3 || op == 5 || op == 6)) ai_stop(); Apply(w, r.m, op, s > 1 ? 0 : (int)ai_split(ai_i32(0, 2, "where"))); }
  Compare(w, r.m); View c = w; Compare(c, r.m); View d; d = c; Compare(d, r.m);
}
}
PROP(view_append_vertex) { Walk(ai_split(ai_i32(0, 1, "legacy")), 0); }
PROP(view_set_vertex) { Walk(ai_split(ai_i32(0, 1, "legacy")), 1); }
PROP(view_set_side_derivative) { Walk(ai_split(ai_i32(0, 1, "legacy")), 2); }
PROP(view_set_forward_derivative) { Walk(ai_split(ai_i32(0, 1, "legacy")), 3); }
PROP(view_set_side_label) { Walk(ai_split(ai_i32(0, 1, "legacy")), 4); }
PROP(view_set_forward_label) { Walk(ai_split(ai_i32(0, 1, "legacy")), 5); }
PROP(view_append_triangle) { Walk(ai_split(ai_i32(0, 1, "legacy")), 6); }
PROP(view_set_triangle) { Walk(ai_split(ai_i32(0, 1, "legacy")), 7); }
PROP(view_insert_triangle) { Walk(ai_split(ai_i32(0, 1, "legacy")), 8); }
PROP(view_resize) { Walk(ai_split(ai_i32(0, 1, "legacy")), 9); }
PROP(view_reset) { Walk(ai_split(ai_i32(0, 1, "legacy")), 10); }
PROP(view_none) { View w; ai_assert(!w.HasMeshData() && w.FirstMutatedVertex() == 0 && w.FirstMutatedTriangle() == 0, "empty-view-has-no-data"); View c = w; ai_assert(!c.HasMeshData(), "empty-view-has-no-data"); }
PROP(view_bounds) {
  ai_opt("allow-check-failure"); Rig r; r.m.legacy = ai_split(ai_i32(0, 1, "legacy")); Start(r, 2, 1); View w = r.Make(); uint32_t bad = ai_u32(2, 0xffffffffu, "vertex"), tri = ai_u32(1, 0xffffffffu, "triangle"), past = ai_u32(2, 0xffffffffu, "place"), corner = ai_u32(3, 0xffffffffu, "corner"); T3 t = {0, 1, 0};
  switch ((int)ai_split(ai_i32(0, 16, "operation"))) { case 0: w.GetPosition(bad); break; case 1: w.GetVertex(bad); break; case 2: w.GetSideDerivative(bad); break; case 3: w.GetForwardDerivative(bad); break; case 4: w.GetSideLabel(bad); break; case 5: w.GetForwardLabel(bad); break; case 6: w.GetTriangle(tri); break; case 7: w.GetTriangleIndices(tri); break; case 8: w.GetVertexIndex(tri, 0); break; case 9: w.GetVertexIndex(0, corner); break; case 10: w.SetVertex(bad, E()); break; case 11: w.SetSideDerivative(bad, {1, 1}); break; case 12: w.SetForwardDerivative(bad, {1, 1}); break; case 13: w.SetSideLabel(bad, {1}); break; case 14: w.SetForwardLabel(bad, {1}); break; case 15: w.SetTriangleIndices(tri, t); break; case 16: w.InsertTriangleIndices(past, t); break; }
  ai_assert(false, "never-passes-the-end-of-the-mesh");
}
PROP(view_no_data) { ai_opt("allow-check-failure"); View w; T3 t = {0, 0, 0}; switch ((int)ai_split(ai_i32(0, 7, "operation"))) { case 0: w.VertexCount(); break; case 1: w.TriangleCount(); break; case 2: w.GetPosition(0); break; case 3: w.AppendVertex(E()); break; case 4: w.AppendTriangleIndices(t); break; case 5: w.ResetMutationTracking(); break; case 6: w.InsertTriangleIndices(0, t); break; case 7: w.GetVertexIndex(0, 0); break; } ai_assert(false, "never-works-without-mesh-data"); }
PROP(view_format) {
  ai_opt("allow-check-failure"); auto full = V::FullMeshFormat(); std::vector<std::pair<F::AttributeType, F::AttributeId>> a; int drop = (int)ai_split(ai_i32(1, 8, "change")); int k = 0; for (auto x : full.Attributes()) { if (k++ == drop) continue; a.push_back({x.type, x.id}); } if (drop == 8) std::swap(a[1], a[4]);
  auto f = F::Create(absl::MakeConstSpan(a), full.GetIndexFormat()); if (!f.ok()) ai_stop(); MutableMesh m(*f); View w(m); ai_assert(false, "never-views-a-mesh-of-another-format");
}
PROP(view_packed_format) { std::vector<std::pair<F::AttributeType, F::AttributeId>> a; auto full = V::FullMeshFormat(); for (auto x : full.Attributes()) { int n = F::ComponentCount(x.type); a.push_back({n == 1 ? F::AttributeType::kFloat1Unpacked : n == 2 ? F::AttributeType::kFloat2Unpacked : F::AttributeType::kFloat3Unpacked, x.id}); } auto f = F::Create(absl::MakeConstSpan(a), full.GetIndexFormat()); if (!f.ok()) ai_stop(); MutableMesh m(*f); View w(m); ai_assert(w.HasMeshData() && w.VertexCount() == 0, "packing-does-not-matter"); }
// ---- vertices
PROP(vertex_legacy) { E e = Any("e"); LegacyVertex l = e.ToLegacy(); E r = E::FromLegacy(l); Same(Flat(r), Kept(Flat(e), true), "legacy-round-trip"); ai_ident_f(l.position.x, e.position.x, "legacy-fields"); ai_ident_f(l.position.y, e.position.y, "legacy-fields"); ai_ident_f(l.color.r, e.color.r, "legacy-fields"); ai_ident_f(l.color.g, e.color.g, "legacy-fields"); ai_ident_f(l.color.b, e.color.b, "legacy-fields"); ai_ident_f(l.color.a, e.color.a, "legacy-fields"); ai_ident_f(l.texture_coords.x, e.texture_coords.x, "legacy-fields"); ai_ident_f(l.texture_coords.y, e.texture_coords.y, "legacy-fields"); ai_ident_f(l.secondary_texture_coords.x, e.secondary_texture_coords.x, "legacy-fields"); ai_ident_f(l.secondary_texture_coords.y, e.secondary_texture_coords.y, "legacy-fields"); }
namespace { float* Field(E& e, int k) { auto& a = e.new_non_position_attributes; float* f[] = {&e.position.x, &e.position.y, &a.opacity_shift, &a.hsl_shift[0], &a.hsl_shift[1], &a.hsl_shift[2], &a.side_derivative.x, &a.side_derivative.y, &a.side_label.encoded_value, &a.forward_derivative.x, &a.forward_derivative.y, &a.forward_label.encoded_value, &a.surface_uv.x, &a.surface_uv.y, &e.color.r, &e.color.g, &e.color.b, &e.color.a, &e.texture_coords.x, &e.texture_coords.y, &e.secondary_texture_coords.x, &e.secondary_texture_coords.y}; return f[k]; } }
PROP(vertex_equal) { E a; for (int k = 0; k < 22; ++k) *Field(a, k) = k + 1; E b = a; ai_assert(a == b && !(a != b), "copies-are-equal"); int k = (int)ai_split(ai_i32(0, 21, "field")); float o = *Field(a, k); *Field(b, k) = ai_bool("below") ? ai_f32_in(-1000, o - 1e-3, "other") : ai_f32_in(o + 1e-3, 1000, "other"); ai_assert(!(a == b) && a != b && !(b == a) && b != a, "a-different-field-makes-vertices-differ"); if (k < 2 || k >= 14) { ai_assert(!(a.ToLegacy() == b.ToLegacy()) && a.ToLegacy() != b.ToLegacy(), "a-different-field-makes-legacy-vertices-differ"); } else ai_assert(a.ToLegacy() == b.ToLegacy() && !(a.ToLegacy() != b.ToLegacy()), "legacy-vertices-compare-their-fields"); }
PROP(vertex_lerp) { E a = Any("a"), b = Any("b"); float t = ai_f32_in(-2, 3, "t"); double u = t; W p = Flat(a), q = Flat(b), r = Flat(Lerp(a, b, t)); for (int k = 0; k < 22; ++k) { if (k == 8 || k == 11) continue; if (k == 6 || k == 7 || k == 9 || k == 10) ai_assert(r.f[k] == 0, "derivatives-not-interpolated"); else ai_same(r.f[k], p.f[k] * (1 - u) + q.f[k] * u, 1e-4, "attributes-interpolated"); } }
PROP(vertex_lerp_labels) { E a, b; a.new_non_position_attributes.side_label = {(float)ai_split(ai_i32(-1, 1, "a")) * 127}; b.new_non_position_attributes.side_label = {(float)ai_split(ai_i32(-1, 1, "b")) * 127}; a.new_non_position_attributes.forward_label = {-a.new_non_position_attributes.side_label.encoded_value}; b.new_non_position_attributes.forward_label = {-b.new_non_position_attributes.side_label.encoded_value}; int w = (int)ai_split(ai_i32(0, 2, "where")); float t = w == 0 ? 0 : w == 1 ? ai_f32_in(.01, .99, "t") : 1; E r = Lerp(a, b, t); auto want = Lerp(a.new_non_position_attributes, b.new_non_position_attributes, t); ai_assert(r.new_non_position_attributes.side_label == want.side_label && r.new_non_position_attributes.forward_label == want.forward_label, "labels-interpolated"); float x = a.new_non_position_attributes.side_label.encoded_value, y = b.new_non_position_attributes.side_label.encoded_value; ai_assert(r.new_non_position_attributes.side_label.encoded_value == (x == y || w == 0 ? x : w == 2 ? y : 0), "labels-interpolated"); }
PROP(vertex_bary) {
  E v[3]; for (E& e : v) e = Any("v"); v[0].position = {1, 2}; v[1].position = {5, 3}; v[2].position = {2, 7}; Point p{ai_f32_in(2.4, 2.6, "px"), ai_f32_in(3.6, 4, "py")}; E r = BarycentricLerp(v[0], v[1], v[2], p);
  double den = 4 * 5 - 1 * 1, b1 = ((p.x - 1.) * 5 - 1 * (p.y - 2.)) / den, b2 = (4 * (p.y - 2.) - (p.x - 1.) * 1) / den, b0 = 1 - b1 - b2; W a = Flat(v[0]), b = Flat(v[1]), c = Flat(v[2]), g = Flat(r); ai_ident_f(r.position.x, p.x, "position-as-given"); ai_ident_f(r.position.y, p.y, "position-as-given");
  for (int k = 2; k < 22; ++k) { if (k == 8 || k == 11) continue; if (k == 6 || k == 7 || k == 9 || k == 10) ai_assert(g.f[k] == 0, "derivatives-not-interpolated"); else ai_same(g.f[k], a.f[k] * b0 + b.f[k] * b1 + c.f[k] * b2, 1e-3, "barycentric-combination"); }
}
PROP(vertex_bary_flat) { ai_opt("allow-check-failure"); E v[3]; float x = Sym("x"), y = Sym("y"); for (E& e : v) e.position = {x, y}; BarycentricLerp(v[0], v[1], v[2], {Sym("px"), Sym("py")}); ai_assert(false, "never-interpolates-in-a-collapsed-triangle"); }
// ---- outlines
namespace {
Side MakeSide(int n, uint32_t base, SideId id) { Side s; s.self_id = id; s.first_triangle_vertex = id == SideId::kLeft ? 0 : 1; for (int i = 0; i < n; ++i) s.indices.push_back(base + i); return s; }
}
PROP(outline_order) {
  std::vector<uint32_t> a, b; for (int i = 0; i < 4; ++i) { a.push_back(ai_u32(0, 0xffffffffu, "start")); b.push_back(ai_u32(0, 0xffffffffu, "end")); } uint32_t as = ai_split(ai_i32(0, 4, "first start")), an = ai_split(ai_i32(0, 4, "starts")), bs = ai_split(ai_i32(0, 4, "first end")), bn = ai_split(ai_i32(0, 4, "ends")); if (as + an > 4 || bs + bn > 4) ai_stop();
  DirectedPartialOutline o(&a, as, an, &b, bs, bn); ai_assert(o.Size() == an + bn && o.StartingSideSize() == an, "outline-size"); for (uint32_t i = 0; i < an + bn; ++i) ai_ident_i(o[i], i < an ? a[as + an - 1 - i] : b[bs + i - an], "back-down-the-starting-side-then-up-the-other");
}
PROP(outline_empty) { DirectedPartialOutline o; ai_assert(o.Size() == 0 && o.StartingSideSize() == 0, "default-outline-is-empty"); }
PROP(outline_of_sides) {
  int n = (int)ai_split(ai_i32(1, 4, "starting")), m = (int)ai_split(ai_i32(1, 4, "ending")); Side s = MakeSide(n, 10, SideId::kLeft), e = MakeSide(m, 20, SideId::kRight); int si = (int)ai_split(ai_i32(-1, n - 1, "intersection")), ei = (int)ai_split(ai_i32(-1, m - 1, "intersection")); bool sr = si >= 0 && ai_split(ai_bool("started")), er = ei >= 0 && ai_split(ai_bool("started")); bool join = ai_split(ai_bool("connects"));
  if (si >= 0) { s.intersection.emplace(); s.intersection->starting_offset = si; s.intersection->retriangulation_started = sr; } if (ei >= 0) { e.intersection.emplace(); e.intersection->starting_offset = ei; e.intersection->retriangulation_started = er; }
  uint32_t sl = sr ? si : n - 1, el = er ? ei : m - 1; ai_assert(LastOutlineIndexOffset(s) == sl && LastOutlineIndexOffset(e) == el, "last-offset-is-the-start-of-a-running-intersection"); int sf = (int)ai_split(ai_i32(0, 3, "first")), ef = (int)ai_split(ai_i32(0, 3, "first")); if (sf > (int)sl || ef > (int)el) ai_stop();
  s.partition_start.adjacent_first_index_offset = sf; s.partition_start.opposite_first_index_offset = ef; s.partition_start.outline_connects_sides = join; e.partition_start.adjacent_first_index_offset = 77; e.partition_start.opposite_first_index_offset = 78; e.partition_start.outline_connects_sides = !join; DirectedPartialOutline o = ConstructPartialOutline(s, e); uint32_t a = sl - sf + 1, b = join ? el - ef + 1 : 0;
  ai_assert(o.Size() == a + b && o.StartingSideSize() == a, "outline-spans-the-partition"); if (o.Size() != a + b) ai_stop(); for (uint32_t i = 0; i < a; ++i) ai_assert(o[i] == 10 + sl - i, "outline-spans-the-partition"); for (uint32_t i = 0; i < b; ++i) ai_assert(o[a + i] == 20 + ef + i, "outline-spans-the-partition");
}
// ---- where a segment meets an outline
namespace {
struct Path { std::vector<LegacyVertex> v; std::vector<uint32_t> none; Side s, e; };
// a staircase of points, each moving in a box, half of it on either side
constexpr double kX[] = {0, 2, 2.5, 5}, kY[] = {0, .5, 2.5, 3};
float NearTo(double c, const char* n) { return ai_f32_in(c - .01, c + .01, n); }
Path Stairs(int n, int left, bool twice) { Path p; p.s = MakeSide(0, 0, SideId::kLeft); p.e = MakeSide(0, 0, SideId::kRight); std::vector<uint32_t> order; for (int i = 0; i < n; ++i) { LegacyVertex v; v.position = {NearTo(kX[i], "x"), NearTo(kY[i], "y")}; p.v.push_back(v); order.push_back(i); if (twice && i == 1) order.push_back(i); } int m = order.size(); if (left > m) ai_stop(); for (int i = left - 1; i >= 0; --i) p.s.indices.push_back(order[i]); for (int i = left; i < m; ++i) p.e.indices.push_back(order[i]); return p; }
DirectedPartialOutline Whole(const Path& p) { return {&p.s.indices, 0, (uint32_t)p.s.indices.size(), &p.e.indices, 0, (uint32_t)p.e.indices.size()}; }
double Length(int k) { double dx = kX[k + 1] - kX[k], dy = kY[k + 1] - kY[k]; return __builtin_sqrt(dx * dx + dy * dy); }
// crosses the k-th piece of the staircase at parameter t, at right angles, itself at parameter u
Segment Across(int k, double t, double u) { double dx = kX[k + 1] - kX[k], dy = kY[k + 1] - kY[k], cx = kX[k] + t * dx, cy = kY[k] + t * dy, l = Length(k), nx = -dy / l, ny = dx / l; return {{float(cx - u * nx), float(cy - u * ny)}, {float(cx + (1 - u) * nx), float(cy + (1 - u) * ny)}}; }
}
PROP(search_hit) {
  int n = (int)ai_split(ai_i32(2, 4, "points")), left = (int)ai_split(ai_i32(0, 4, "left")), k = (int)ai_split(ai_i32(0, 2, "piece")); if (k > n - 2) ai_stop(); bool twice = n > 2 && ai_split(ai_bool("repeated point")), far = ai_split(ai_bool("ample budget")), in = ai_split(ai_bool("triangle")); double t = .5, u = .25; Path p = Stairs(n, left, twice); View w(p.v, p.none); double before = 0; for (int i = 0; i < k; ++i) before += Length(i); float budget = float(far ? before + Length(k) + 3 : before + Length(k) / 2 - .2);
  std::optional<Triangle> tri; if (in) tri = Triangle{{-20, -10}, {30, -10}, {3, 50}}; auto r = FindOutlineIntersection(Whole(p), Across(k, t, u), w, budget, tri); ai_assert(r.segment_intersection.has_value(), "crossing-piece-found"); if (!r.segment_intersection.has_value()) ai_stop(); auto& x = *r.segment_intersection; uint32_t at = k + (twice && k >= 1); 
  ai_assert(x.starting_index == at && x.ending_index == at + 1, "crossing-piece-named"); ai_near(x.outline_interpolation_value, t, .05, "where-along-the-outline"); ai_near(x.segment_interpolation_value, u, .05, "where-along-the-segment"); ai_near(x.position.x, kX[k] + t * (kX[k + 1] - kX[k]), .15, "crossing-position"); ai_near(x.position.y, kY[k] + t * (kY[k + 1] - kY[k]), .15, "crossing-position");
  double left_over = budget - before - t * Length(k); if (far) ai_near(r.remaining_search_budget, left_over, .2, "budget-less-the-distance-travelled"); else ai_assert(r.remaining_search_budget == 0, "budget-never-negative");
}
PROP(search_budget) { int n = (int)ai_split(ai_i32(3, 4, "points")), left = (int)ai_split(ai_i32(0, 4, "left")), k = (int)ai_split(ai_i32(1, 2, "piece")); if (k > n - 2) ai_stop(); Path p = Stairs(n, left, false); View w(p.v, p.none); double before = 0; for (int i = 0; i < k; ++i) before += Length(i); float budget = ai_bool("none") ? ai_f32_in(-5, 0, "budget") : ai_f32_in(0, before - .1, "budget"); auto r = FindOutlineIntersection(Whole(p), Across(k, .5, .25), w, budget); ai_assert(!r.segment_intersection.has_value() && r.remaining_search_budget == 0, "nothing-found-beyond-the-budget"); }
PROP(search_triangle) { int left = (int)ai_split(ai_i32(0, 4, "left")), k = (int)ai_split(ai_i32(0, 2, "piece")), out = (int)ai_split(ai_i32(1, 3, "first point outside")); Path p = Stairs(4, left, false); View w(p.v, p.none); float edge = float((kX[out - 1] + kX[out]) / 2 + (kY[out - 1] + kY[out]) / 2), flip = ai_split(ai_bool("clockwise")); Triangle tri{{-50, edge + 50}, {edge + 50, -50}, {-60, -60}}; if (flip) std::swap(tri.p0, tri.p1); auto r = FindOutlineIntersection(Whole(p), Across(k, .5, .25), w, 1000, tri); bool found = k <= out - 1; ai_assert(r.segment_intersection.has_value() == found, "outline-before-the-crossing-stays-in-the-triangle"); if (!found) { ai_assert(r.remaining_search_budget == 0, "leaving-the-triangle-ends-the-search"); } else if (r.segment_intersection.has_value()) ai_assert(r.segment_intersection->starting_index == (uint32_t)k, "outline-before-the-crossing-stays-in-the-triangle"); }
PROP(search_miss) { int n = (int)ai_split(ai_i32(0, 4, "points")), left = (int)ai_split(ai_i32(0, 4, "left")); Path p = Stairs(n, left, false); View w(p.v, p.none); double sum = 0; for (int i = 0; i + 1 < n; ++i) sum += Length(i); float budget = float(sum + 2); auto r = FindOutlineIntersection(Whole(p), {{NearTo(-3, "x"), NearTo(4, "y")}, {NearTo(1, "x"), NearTo(7, "y")}}, w, budget); ai_assert(!r.segment_intersection.has_value(), "no-crossing-no-result"); ai_near(r.remaining_search_budget, budget - sum, .1, "budget-less-the-distance-travelled"); }
// the outline is one place only: the last vertex, if the segment passes through it
PROP(search_one_place) { int n = (int)ai_split(ai_i32(1, 3, "points")), left = (int)ai_split(ai_i32(0, 3, "left")), at = (int)ai_split(ai_i32(0, 3, "segment")); std::vector<LegacyVertex> v(n); std::vector<uint32_t> none; for (auto& x : v) x.position = {2, 3}; if (left > n) ai_stop(); std::vector<uint32_t> a, b; for (int i = left - 1; i >= 0; --i) a.push_back(i); for (int i = left; i < n; ++i) b.push_back(i); View w(v, none); float budget = ai_f32_in(.1, 100, "budget"); Segment s = at == 0 ? Segment{{2, -1}, {2, 7}} : at == 1 ? Segment{{2, 3}, {9, 9}} : at == 2 ? Segment{{-4, 3}, {1, 3}} : Segment{{2, 4}, {9, 9}};
  auto r = FindOutlineIntersection({&a, 0, (uint32_t)a.size(), &b, 0, (uint32_t)b.size()}, s, w, budget); ai_assert(r.segment_intersection.has_value() == (at < 2), "one-place-outline-meets-segments-through-it"); ai_ident_f(r.remaining_search_budget, budget, "one-place-outline-costs-nothing"); if (!r.segment_intersection.has_value() || at >= 2) ai_stop(); ai_assert(r.segment_intersection->starting_index == uint32_t(n - 1) && r.segment_intersection->ending_index == uint32_t(n - 1), "one-place-outline-names-its-last-vertex"); ai_near(r.segment_intersection->segment_interpolation_value, at == 0 ? .5 : 0, 1e-5, "where-along-the-segment"); }
// a segment along a piece: the earliest common place along the outline
PROP(search_along) { int dir = (int)ai_split(ai_i32(0, 1, "direction")), start = (int)ai_split(ai_i32(0, 1, "starts before")); std::vector<LegacyVertex> v(2); std::vector<uint32_t> none, a, b = {0, 1}; v[0].position = {0, 0}; v[1].position = {8, 0}; View w(v, none); Segment s = start ? Segment{{-2, 0}, {6, 0}} : Segment{{2, 0}, {6, 0}}; if (dir) std::swap(s.start, s.end); auto r = FindOutlineIntersection({&a, 0, 0, &b, 0, 2}, s, w, 100); ai_assert(r.segment_intersection.has_value(), "overlap-found"); if (!r.segment_intersection.has_value()) ai_stop(); double t = start ? 0 : .25, u = start ? .25 : 0; ai_near(r.segment_intersection->outline_interpolation_value, t, 1e-5, "earliest-common-place"); ai_near(r.segment_intersection->segment_interpolation_value, dir ? 1 - u : u, 1e-5, "earliest-common-place"); ai_near(r.remaining_search_budget, 100 - 8 * t, 1e-3, "budget-less-the-distance-travelled"); }
// ---- simplification
namespace {
struct D2 { double x, y; };
double Away(D2 p, D2 a, D2 b) { double dx = b.x - a.x, dy = b.y - a.y, l = dx * dx + dy * dy, t = l == 0 ? 0 : ((p.x - a.x) * dx + (p.y - a.y) * dy) / l; t = t < 0 ? 0 : t > 1 ? 1 : t; double ex = p.x - a.x - t * dx, ey = p.y - a.y - t * dy; return __builtin_sqrt(ex * ex + ey * ey); }
constexpr D2 kLine[] = {{0, 0}, {1, .9}, {2.3, -.6}, {3.1, 2.2}, {4, .3}, {2.5, -1.7}};
// which points the documented algorithm keeps; -1 when too close to call
bool Rdp(const D2* p, int a, int b, double eps, bool* keep, bool& sure) { if (b - a < 2) return true; int at = -1; double most = 0, second = 0; for (int i = a + 1; i < b; ++i) { double d = Away(p[i], p[a], p[b]); if (d > most) { second = most; most = d; at = i; } else if (d > second) second = d; } if (__builtin_fabs(most - eps) < .1) sure = false; if (most <= eps) return true; if (most - second < .1) sure = false; keep[at] = true; return Rdp(p, a, at, eps, keep, sure) && Rdp(p, at, b, eps, keep, sure); }
}
PROP(simplify_line) {
  int n = (int)ai_split(ai_i32(3, 6, "points")), turn = (int)ai_split(ai_i32(0, 5, "turn")), level = (int)ai_split(ai_i32(0, 4, "epsilon")); constexpr double eps[] = {.15, .45, .8, 1.3, 2.9}; D2 c[6]; std::vector<E> v; for (int i = 0; i < n; ++i) { c[i] = kLine[(i + turn) % 6]; E e = Any("v"); e.position = {ai_f32_in(c[i].x - .005, c[i].x + .005, "x"), ai_f32_in(c[i].y - .005, c[i].y + .005, "y")}; v.push_back(e); }
  bool keep[6] = {true}; keep[n - 1] = true; bool sure = true; Rdp(c, 0, n - 1, eps[level], keep, sure); if (!sure) ai_stop(); std::vector<E> out(1); E first = Any("before"); out[0] = first; SimplifyPolyline(v.begin(), v.end(), float(eps[level]), out); int k = 1; for (int i = 0; i < n; ++i) k += keep[i]; ai_assert(out.size() == (size_t)k, "keeps-exactly-the-points-that-matter"); if (out.size() != (size_t)k) ai_stop(); Same(Flat(out[0]), Flat(first), "appends-to-the-output"); k = 1; for (int i = 0; i < n; ++i) if (keep[i]) Same(Flat(out[k++]), Flat(v[i]), "kept-points-unchanged-and-in-order");
}
PROP(simplify_short) { int n = (int)ai_split(ai_i32(0, 2, "points")); std::vector<E> v, out(1); for (int i = 0; i < n; ++i) v.push_back(Any("v")); float eps = ai_f32_in(0, 1e6, "epsilon"); SimplifyPolyline(v.begin(), v.end(), eps, out); ai_assert(out.size() == size_t(n + 1), "short-lines-are-copied"); if (out.size() != size_t(n + 1)) ai_stop(); for (int i = 0; i < n; ++i) Same(Flat(out[i + 1]), Flat(v[i]), "short-lines-are-copied"); }
PROP(simplify_part) { std::vector<E> v(5), out; for (int i = 0; i < 5; ++i) v[i].position = {float(i), i % 2 ? 3.f : 0.f}; int a = (int)ai_split(ai_i32(0, 4, "begin")), b = (int)ai_split(ai_i32(0, 5, "end")); if (b < a) ai_stop(); SimplifyPolyline(v.begin() + a, v.begin() + b, .5, out); ai_assert(out.size() == size_t(b - a), "only-the-given-part"); if (out.size() != size_t(b - a)) ai_stop(); for (int i = a; i < b; ++i) ai_assert(out[i - a].position.x == i, "only-the-given-part"); }
PROP(simplify_straight) { int n = (int)ai_split(ai_i32(3, 6, "points")); std::vector<E> v, out; for (int i = 0; i < n; ++i) { E e; e.position = {3.f * i, 2.f}; v.push_back(e); } float eps = ai_f32_in(.01, 100, "epsilon"); SimplifyPolyline(v.begin(), v.end(), eps, out); ai_assert(out.size() == 2 && out[0].position.x == 0 && out[1].position.x == 3.f * (n - 1), "straight-lines-become-one-segment"); }
// ---- exterior and coincident vertices
namespace {
constexpr float kL[] = {-127, 0, 30};
struct Strip { MutableMesh mesh{V::FullMeshFormat()}; int n; };
}
PROP(exterior_first) {
  Strip s; std::vector<SideId> id; bool ext[5]; for (int k = 0; k < 5; ++k) { E e; int w = (int)ai_split(ai_i32(0, 2, "label")); e.position = {float(k), float(k * k)}; e.new_non_position_attributes.side_label = {w == 1 ? kL[2 * (k % 2)] : 0}; e.new_non_position_attributes.forward_label = {w == 2 ? kL[2 * (k % 2)] : 0}; ext[k] = w > 0; V::AppendToMesh(s.mesh, {e.position, e.new_non_position_attributes}); id.push_back((k + (k > 2)) % 2 ? SideId::kLeft : SideId::kRight); }
  T3 t[] = {{0, 1, 2}, {2, 1, 3}, {3, 4, 2}}; for (auto& x : t) s.mesh.AppendTriangleIndices(x); View w(s.mesh); int from = (int)ai_split(ai_i32(0, 3, "starting triangle")); auto r = FindFirstExteriorVertices(w, absl::MakeConstSpan(id), from); int left = -1, right = -1; for (int i = from; i < 3; ++i) for (uint32_t v : t[i]) if (ext[v]) { if (id[v] == SideId::kLeft) { if (left < 0) left = v; } else if (right < 0) right = v; }
  ai_assert(r.left.has_value() == (left >= 0) && r.right.has_value() == (right >= 0), "exterior-vertex-found-on-each-side"); if (r.left.has_value() && left >= 0) ai_assert(*r.left == (uint32_t)left, "first-exterior-vertex-of-the-left-side"); if (r.right.has_value() && right >= 0) ai_assert(*r.right == (uint32_t)right, "first-exterior-vertex-of-the-right-side");
}
PROP(coincident_start) {
  Strip s; int n = 4; int where[4], cat[4]; for (int k = 0; k < n; ++k) { where[k] = (int)ai_split(ai_i32(0, k == 0 ? 0 : 1, "place")); cat[k] = (int)ai_split(ai_i32(0, 2, "category")); E e; e.position = {where[k] ? float(k + 1) : 0.f, 4.f}; e.new_non_position_attributes.forward_label = {kL[cat[k]]}; e.new_non_position_attributes.side_label = {kL[2 - cat[k]]}; V::AppendToMesh(s.mesh, {e.position, e.new_non_position_attributes}); }
  View w(s.mesh); uint32_t idx[] = {0, 1, 2, 3}; int at = (int)ai_split(ai_i32(0, 3, "included")); int want = at; while (want > 0 && where[want] == 0 && where[want - 1] == 0 && !(cat[want] == 0 && cat[want - 1] != 0)) --want; ai_assert(StartingOffsetForCoincidentConnectedVertices(w, absl::MakeConstSpan(idx, 4), at) == (uint32_t)want, "coincident-range-starts-at-a-change-of-place-or-a-new-front");
}
PROP(coincident_bounds) { ai_opt("allow-check-failure"); Strip s; V::AppendToMesh(s.mesh, V()); View w(s.mesh); uint32_t idx[] = {0, 0}; StartingOffsetForCoincidentConnectedVertices(w, absl::MakeConstSpan(idx, 2), ai_u32(2, 0xffffffffu, "included")); ai_assert(false, "never-starts-past-the-end"); }
// ---- winding of a fan of triangles
namespace {
constexpr D2 kFan[] = {{4, 0}, {3.5, 2}, {3.8, 1}, {1, 3.5}, {-2, 3}, {-.5, 3.4}};
struct Fan { std::vector<LegacyVertex> v; std::vector<uint32_t> none; std::vector<D2> c; std::vector<uint32_t> idx; };
Fan MakeFan(int n, int rev, int twice, int from) { Fan f; for (int k = 0; k < n; ++k) { int i = (k + from) % 6; D2 c = kFan[rev ? n - 1 - i < 0 ? 5 - i + n : n - 1 - i : i]; f.c.push_back(c); LegacyVertex v; if (k == twice && k) { f.c[k] = f.c[k - 1]; v = f.v[k - 1]; } else v.position = {NearTo(c.x, "x"), NearTo(c.y, "y")}; f.v.push_back(v); f.idx.push_back(k); } return f; }
struct Want { int p = -1, q = -1; };
// last pair of consecutive places whose triangle turns clockwise
Want LastClockwise(const Fan& f, const std::vector<int>& seq, bool left, D2 c) { Want w; if (seq.size() < 2) return w; int last = seq.back(); for (int k = (int)seq.size() - 2; k >= 0; --k) { int cur = seq[k]; D2 a = f.c[cur], b = f.c[last]; if (a.x == b.x && a.y == b.y) continue; double area = (a.x - c.x) * (b.y - c.y) - (a.y - c.y) * (b.x - c.x); if (left) area = -area; if (__builtin_fabs(area) < .5) ai_stop(); if (area < 0) { w.p = left ? last : cur; w.q = left ? cur : last; return w; } last = cur; } return w; }
void Judge(const std::optional<Segment>& g, const Fan& f, Want w) { ai_assert(g.has_value() == (w.p >= 0), "clockwise-triangle-found"); if (!g.has_value() || w.p < 0) return; ai_ident_f(g->start.x, f.v[w.p].position.x, "last-clockwise-outer-edge"); ai_ident_f(g->start.y, f.v[w.p].position.y, "last-clockwise-outer-edge"); ai_ident_f(g->end.x, f.v[w.q].position.x, "last-clockwise-outer-edge"); ai_ident_f(g->end.y, f.v[w.q].position.y, "last-clockwise-outer-edge"); }
}
PROP(winding_fan) { int n = (int)ai_split(ai_i32(0, 6, "points")), rev = (int)ai_split(ai_i32(0, 1, "reversed")), twice = (int)ai_split(ai_i32(0, 5, "repeated")), from = (int)ai_split(ai_i32(0, 2, "from")); bool left = ai_split(ai_bool("left")); if (twice >= n && twice > 0) ai_stop(); Fan f = MakeFan(n, rev, twice, from); View w(f.v, f.none); std::vector<int> seq; for (int k = 0; k < n; ++k) seq.push_back(k); Judge(FindLastClockwiseWindingTriangleFanSegment(w, absl::MakeConstSpan(f.idx), left ? SideId::kLeft : SideId::kRight, {.1f, -.1f}), f, LastClockwise(f, seq, left, {.1, -.1})); }
PROP(winding_sections) {
  int rev = (int)ai_split(ai_i32(0, 1, "reversed")), from = (int)ai_split(ai_i32(0, 1, "from")), cuts = (int)ai_split(ai_i32(0, 5, "discontinuities")), a = (int)ai_split(ai_i32(0, 5, "first")), b = (int)ai_split(ai_i32(0, 5, "last")); bool left = ai_split(ai_bool("left")); Fan f = MakeFan(6, rev, 0, from); View w(f.v, f.none); Side s; s.self_id = left ? SideId::kLeft : SideId::kRight; s.indices = f.idx;
  static constexpr Side::IndexOffsetRange c[][2] = {{{0, 0}, {0, 0}}, {{1, 3}, {0, 0}}, {{0, 2}, {3, 5}}, {{1, 2}, {0, 0}}, {{0, 2}, {2, 4}}, {{2, 5}, {0, 0}}}; for (auto& r : c[cuts]) if (r.last > r.first) s.intersection_discontinuities.push_back(r); std::vector<int> seq; if (b > a) for (int k = a; k <= b; ++k) { bool inside = false; for (auto& r : s.intersection_discontinuities) inside |= (uint32_t)k > r.first && (uint32_t)k < r.last; if (!inside) seq.push_back(k); }
  Judge(FindLastClockwiseWindingMultiTriangleFanSegment(w, s, {(uint32_t)a, (uint32_t)b}, {.1f, -.1f}), f, LastClockwise(f, seq, left, {.1, -.1}));
}
PROP(winding_nothing) { std::vector<LegacyVertex> v(1); std::vector<uint32_t> none; View w(v, none); Side s; s.self_id = SideId::kLeft; uint32_t a = ai_u32(0, 9, "first"), b = ai_u32(0, 9, "last"); ai_assert(!FindLastClockwiseWindingMultiTriangleFanSegment(w, s, {a, b}, {0, 0}).has_value(), "empty-side-has-no-triangles"); }
// ---- points and lines, points and triangles: exact on a lattice and for every point of boxes clear of the edges
namespace {
struct L2 { int x, y; };
int Sign(L2 a, L2 b, L2 p) { int d = (b.x - a.x) * (p.y - a.y) - (b.y - a.y) * (p.x - a.x); return d > 0 ? 1 : d < 0 ? -1 : 0; }
constexpr L2 kCorners[][3] = {{{0, 0}, {4, 0}, {0, 4}}, {{0, 0}, {4, 1}, {1, 3}}, {{-3, -2}, {2, -1}, {-1, 3}}, {{1, 1}, {5, 1}, {3, 2}}, {{-2, 0}, {0, -2}, {3, 3}}, {{0, 0}, {1, 0}, {5, 4}}};
}
PROP(winding_relative_position) {
  using geometry_internal::PositionRelativeToLine; using geometry_internal::RelativePos; using geometry_internal::ReverseRelativePosition;
  const L2* c = kCorners[(int)ai_split(ai_i32(0, 5, "triangle"))]; bool ok = true, reversed = true; float s = ai_split(ai_i32(0, 1, "scale")) ? .25f : 3.f;
  for (int e = 0; e < 3; ++e) for (int x = -4; x <= 6; ++x) for (int y = -4; y <= 6; ++y) { L2 a = c[e], b = c[(e + 1) % 3]; Point p{s * a.x, s * a.y}, q{s * b.x, s * b.y}, t{s * x, s * y}; int k = Sign(a, b, {x, y}); RelativePos want = k > 0 ? RelativePos::kLeft : k < 0 ? RelativePos::kRight : RelativePos::kCollinear; ok = ok && PositionRelativeToLine(p, q, t) == want; reversed = reversed && PositionRelativeToLine(q, p, t) == ReverseRelativePosition(want); }
  ai_assert(ok, "side-of-a-line"); ai_assert(reversed, "side-of-the-reversed-line"); Point z{1, 2}; ai_assert(PositionRelativeToLine(z, z, Point{3, 4}) == RelativePos::kIndeterminate, "no-side-of-a-single-point");
}
PROP(winding_triangle_contains) {
  const L2* c = kCorners[(int)ai_split(ai_i32(0, 5, "triangle"))]; int r = (int)ai_split(ai_i32(0, 5, "order")); L2 a = c[r % 3], b = c[(r + (r < 3 ? 1 : 2)) % 3], d = c[(r + (r < 3 ? 2 : 1)) % 3]; Triangle t{{(float)a.x, (float)a.y}, {(float)b.x, (float)b.y}, {(float)d.x, (float)d.y}}; bool ok = true;
  for (int x = -9; x <= 13; ++x) for (int y = -9; y <= 13; ++y) { L2 p{x, y}, u{2 * a.x, 2 * a.y}, v{2 * b.x, 2 * b.y}, w{2 * d.x, 2 * d.y}; int i = Sign(u, v, p), j = Sign(v, w, p), k = Sign(w, u, p); bool in = (i >= 0 && j >= 0 && k >= 0) || (i <= 0 && j <= 0 && k <= 0); ok = ok && geometry_internal::LegacyTriangleContains(t, Point{x / 2.f, y / 2.f}) == in; }
  ai_assert(ok, "inside-or-on-the-edge-of-the-triangle");
  Triangle g{{0, 0}, {4, 0}, {0, 4}}; Point in{ai_f32_in(.5, 1.5, "x"), ai_f32_in(.5, 1.5, "y")}, out{ai_f32_in(2.5, 1000, "x"), ai_f32_in(2.5, 1000, "y")}, left{ai_f32_in(-1000, -.5, "x"), ai_f32_in(.5, 1000, "y")}; ai_assert(geometry_internal::LegacyTriangleContains(g, in), "places-inside"); ai_assert(!geometry_internal::LegacyTriangleContains(g, out) && !geometry_internal::LegacyTriangleContains(g, left), "places-outside");
}
