// Partitioned meshes: creation, what is read back by group, spatial queries, coverage and intersection.
#include "specs/common.h"
#include "specs/oracle.h"
#include "ink/geometry/affine_transform.h"
#include "ink/geometry/intersects.h"
#include "ink/geometry/mesh.h"
#include "ink/geometry/mutable_mesh.h"
#include "ink/geometry/partitioned_mesh.h"
using namespace ink;
using PM = PartitionedMesh; using VP = PM::VertexIndexPair; using TP = PM::TriangleIndexPair; using Flow = PM::FlowControl; using F = MeshFormat; using AT = F::AttributeType; using AI = F::AttributeId; using CP = MeshAttributeCodingParams;
using Verts = std::vector<Point>; using Idx = std::vector<uint32_t>; using Tri = std::array<uint32_t, 3>;
namespace {
F Fmt(const std::vector<std::pair<AT, AI>>& s) { auto f = F::Create(s, F::IndexFormat::k32BitUnpacked16BitPacked); if (!f.ok()) ai_stop(); return *f; }
F Other() { return Fmt({{AT::kFloat2Unpacked, AI::kPosition}, {AT::kFloat1Unpacked, AI::kCustom0}}); }
Mesh Make(const Verts& v, const Idx& t, bool other = false) { std::vector<float> x, y, z(v.size()); for (Point p : v) { x.push_back(p.x); y.push_back(p.y); } std::vector<absl::Span<const float>> c{x, y}; if (other) c.push_back(z); auto m = Mesh::Create(other ? Other() : F(), c, t); if (!m.ok()) ai_stop(); return *m; }
Mesh One(float x, float y) { return Make({{x, y}, {x + 1, y}, {x, y + 1}}, {0, 1, 2}); }
using Out = std::vector<std::vector<VP>>;
struct Group { std::vector<Mesh> m; Out o; std::vector<absl::Span<const VP>> s; PM::MeshGroup Get() { s.clear(); for (auto& v : o) s.push_back(v); return {.meshes = m, .outlines = s}; } };
absl::StatusOr<PM> Build(std::vector<Group>& g) { std::vector<PM::MeshGroup> v; for (auto& x : g) v.push_back(x.Get()); return PM::FromMeshGroups(v); }
bool Same(const Mesh& a, const Mesh& b) { return a.RawVertexData().data() == b.RawVertexData().data(); }
std::vector<Group> Three() { std::vector<Group> g(3); g[0].m = {One(0, 0), Make({{5, 0}, {6, 0}, {6, 2}, {5, 2}}, {0, 1, 2, 0, 2, 3})}; g[0].o = {{{0, 0}, {1, 3}, {0, 2}}, {{1, 1}}}; g[2].m = {Make({{-3, -4}, {-2, -4}, {-3, 7}}, {2, 1, 0}, true)}; g[2].o = {{{0, 1}, {0, 2}}}; return g; }
}
// ---- acceptance
PROP(create_empty_mesh) { auto g = Three(); int k = (int)ai_split(ai_i32(0, 2, "group")), n = (int)ai_split(ai_i32(0, 2, "vertices")); Verts v(n); ai_assert(Build(g).ok(), "valid-groups-accepted"); g[k].m.push_back(Make(v, {}, k == 2)); ai_assert(!Build(g).ok(), "mesh-without-triangles-rejected"); }
PROP(create_formats) { auto g = Three(); int k = (int)ai_split(ai_i32(0, 2, "group")); bool other = ai_bool("other"), front = ai_bool("front"); Mesh x = Make({{0, 0}, {1, 0}, {0, 1}}, {0, 1, 2}, other); if (front) { g[k].m.insert(g[k].m.begin(), x); g[k].o.clear(); } else g[k].m.push_back(x); bool same = k == 1 || other == (k == 2); ai_assert(Build(g).ok() == same, "one-format-per-group"); }
PROP(create_empty_outline) { auto g = Three(); int k = (int)ai_split(ai_i32(0, 2, "group")); bool front = ai_bool("front"); g[k].o.insert(front ? g[k].o.begin() : g[k].o.end(), std::vector<VP>()); ai_assert(!Build(g).ok(), "empty-outline-rejected"); }
PROP(create_outline_indices) { auto g = Three(); uint16_t m = (uint16_t)ai_split(ai_int(0, 2, "mesh")), v = (uint16_t)ai_bits(16, "vertex"); int k = (int)ai_split(ai_i32(0, 2, "group")), at = (int)ai_split(ai_i32(0, 2, "at")); if (k == 1) g[1].o = {{{0, 0}}}; auto& o = at == 2 && g[k].o.size() > 1 ? g[k].o[1][0] : g[k].o[0][at == 0 ? 0 : g[k].o[0].size() - 1]; o = {m, v}; uint16_t lim = k == 1 ? 0 : k == 0 ? (m == 0 ? 3 : m == 1 ? 4 : 0) : m == 0 ? 3 : 0; if (v < lim) ai_assert(Build(g).ok(), "outlines-refer-to-existing-vertices-of-their-group"); else ai_assert(!Build(g).ok(), "outlines-refer-to-existing-vertices-of-their-group"); }
PROP(create_outline_mesh_index) { auto g = Three(); int k = (int)ai_split(ai_i32(0, 2, "group")); uint16_t m = (uint16_t)ai_int(2, 65535, "mesh"); g[k].o = {{{0, 0}, {m, 0}}}; ai_assert(!Build(g).ok(), "outlines-refer-to-existing-meshes"); }
PROP(create_from_meshes) { auto g = Three(); auto d = g[0].Get(); auto p = PM::FromMeshes(d.meshes, d.outlines); ai_assert(p.ok(), "valid-meshes-accepted"); if (!p.ok()) return; ai_assert(p->RenderGroupCount() == 1 && p->Meshes().size() == 2 && Same(p->Meshes()[0], g[0].m[0]) && Same(p->RenderGroupMeshes(0)[1], g[0].m[1]) && p->OutlineCount(0) == 2 && p->OutlineVertexCount(0, 0) == 3, "one-group-with-the-given-meshes"); ai_assert(p->RenderGroupFormat(0) == F(), "group-format"); }
// ---- reading back
PROP(read_groups) {
  auto g = Three(); int perm = (int)ai_split(ai_i32(0, 5, "order")); if (perm & 1) std::swap(g[0], g[1]); if (perm >= 2) std::swap(g[perm >= 4 ? 0 : 1], g[2]); auto p = Build(g); ai_assert(p.ok(), "valid-groups-accepted"); if (!p.ok()) return; bool copy = ai_bool("copy"); PM c; if (copy) c = *p; const PM& q = copy ? c : *p;
  ai_assert(q.RenderGroupCount() == 3 && q.Meshes().size() == 3, "groups-kept"); size_t at = 0;
  for (uint32_t k = 0; k < 3; ++k) { auto m = q.RenderGroupMeshes(k); ai_assert(m.size() == g[k].m.size(), "meshes-of-each-group"); if (m.size() != g[k].m.size()) return; for (size_t i = 0; i < m.size(); ++i) { ai_assert(Same(m[i], g[k].m[i]), "meshes-of-each-group"); ai_assert(Same(q.Meshes()[at++], m[i]), "all-meshes-in-order"); } ai_assert(q.RenderGroupFormat(k) == (m.empty() ? F() : m[0].Format()), "group-format");
    ai_assert(q.OutlineCount(k) == g[k].o.size(), "outlines-of-each-group"); if (q.OutlineCount(k) != g[k].o.size()) return; for (uint32_t i = 0; i < g[k].o.size(); ++i) { auto o = q.Outline(k, i); ai_assert(o.size() == g[k].o[i].size() && q.OutlineVertexCount(k, i) == o.size(), "outline-kept"); for (uint32_t j = 0; j < o.size() && j < g[k].o[i].size(); ++j) { VP w = g[k].o[i][j]; ai_assert(o[j].mesh_index == w.mesh_index && o[j].vertex_index == w.vertex_index, "outline-kept"); ai_assert(q.OutlinePosition(k, i, j) == g[k].m[w.mesh_index].VertexPosition(w.vertex_index), "outline-position"); } } }
  Envelope e = q.Bounds(); ai_assert(!e.IsEmpty() && e.AsRect()->XMin() == -3 && e.AsRect()->YMin() == -4 && e.AsRect()->XMax() == 6 && e.AsRect()->YMax() == 7, "bounds-of-all-meshes");
}
PROP(read_bounds) { ai_opt("fork-minmax"); float v[2][6]; int k = (int)ai_split(ai_i32(0, 1, "mesh")); for (int i = 0; i < 2; ++i) for (int j = 0; j < 6; ++j) v[i][j] = i == k && j < 3 ? ai_f32_in(-1e30, 1e30, "v") : float(i * 3 + j); std::vector<Group> g(2); for (int i = 0; i < 2; ++i) g[i].m = {Make({{v[i][0], v[i][1]}, {v[i][2], v[i][3]}, {v[i][4], v[i][5]}}, {0, 1, 2})}; auto p = Build(g); ai_assert(p.ok(), "valid-groups-accepted"); if (!p.ok()) return; Envelope e = p->Bounds(); ai_assert(!e.IsEmpty(), "bounds-cover"); if (!e.AsRect()) return; Rect r = *e.AsRect(); bool lo = false, hi = false; for (auto& q : v) for (int j = 0; j < 6; j += 2) { ai_assert(ai_and(In(q[j], r.XMin(), r.XMax()), In(q[j + 1], r.YMin(), r.YMax())), "bounds-cover"); lo = ai_or(lo, ai_feq(q[j], r.XMin())); hi = ai_or(hi, ai_feq(q[j + 1], r.YMax())); } ai_assert(ai_and(lo, hi), "bounds-tight"); }
PROP(read_out_of_range) {
  ai_opt("allow-check-failure"); auto g = Three(); auto p = Build(g); if (!p.ok()) return; uint32_t k = (uint32_t)ai_split(ai_int(0, 2, "group")), big = ai_u32(3, 0xFFFFFFFFu, "big"); bool none = ai_bool("empty"); PM e; const PM& q = none ? e : *p; if (none) big = ai_u32(0, 0xFFFFFFFFu, "any");
  switch (ai_split(ai_i32(0, 7, "call"))) { case 0: q.RenderGroupMeshes(big); break; case 1: q.RenderGroupFormat(big); break; case 2: q.OutlineCount(big); break; case 3: q.Outline(big, 0); break; case 4: q.OutlinePosition(big, 0, 0); break; case 5: q.OutlineVertexCount(big, 0); break; case 6: p->Outline(k, ai_u32(2, 0xFFFFFFFFu, "outline")); break; default: p->OutlinePosition(0, 0, ai_u32(3, 0xFFFFFFFFu, "vertex")); }
  ai_assert(false, "never-reads-past-groups-outlines-or-vertices");
}
PROP(read_empty) { bool groups = ai_bool("groups"); uint32_t n = groups ? (uint32_t)ai_split(ai_int(0, 4, "groups")) : 0; PM p = groups ? PM::WithEmptyGroups(n) : PM(); ai_assert(p.RenderGroupCount() == n && p.Meshes().empty() && p.Bounds().IsEmpty(), "no-meshes"); for (uint32_t i = 0; i < n; ++i) ai_assert(p.RenderGroupMeshes(i).empty() && p.OutlineCount(i) == 0 && p.RenderGroupFormat(i) == F(), "empty-groups"); }
PROP(read_shared) { auto g = Three(); auto p = Build(g); if (!p.ok()) return; PM a = *p, b; b = a; ai_assert(!p->IsSpatialIndexInitialized() && !b.IsSpatialIndexInitialized(), "index-is-lazy"); int k = (int)ai_split(ai_i32(0, 2, "init")); (k == 0 ? *p : k == 1 ? a : b).InitializeSpatialIndex(); ai_assert(p->IsSpatialIndexInitialized() && a.IsSpatialIndexInitialized() && b.IsSpatialIndexInitialized(), "copies-share-the-index"); ai_assert(a.Meshes().data() == b.Meshes().data(), "copies-share-data"); }
// ---- from mutable meshes
namespace {
MutableMesh Mut() { MutableMesh m(Fmt({{AT::kFloat1Unpacked, AI::kCustom0}, {AT::kFloat2Unpacked, AI::kPosition}})); for (int i = 0; i < 6; ++i) { m.AppendVertex(Point{float(i % 3), float(i / 3)}); m.SetFloatVertexAttribute(i, 0, {float(10 + i)}); } for (Tri t : {Tri{0, 1, 4}, Tri{0, 4, 3}}) m.AppendTriangleIndices(t); return m; }
}
PROP(mutable_outline) {
  MutableMesh m = Mut(); uint32_t x = ai_u32(0, 0xFFFFFFFFu, "index"); int at = (int)ai_split(ai_i32(0, 2, "at")); Idx o[] = {{4, 1}, {3}, {0, 0, 3}}; o[at].push_back(x); std::vector<absl::Span<const uint32_t>> s{o[0], o[1], o[2]}; bool in = x < 6; auto p = PM::FromMutableMesh(m, s); ai_assert(p.ok() == in, "outlines-refer-to-existing-vertices"); if (!p.ok() || !in) return; ai_assert(p->RenderGroupCount() == 1 && p->Meshes().size() == 1 && p->OutlineCount(0) == 3, "outlines-kept"); if (p->OutlineCount(0) != 3 || p->Meshes().size() != 1) return;
  for (int i = 0; i < 3; ++i) { Verts w; for (uint32_t k : o[i]) if (k != 2 && k != 5) w.push_back(m.VertexPosition(k)); ai_assert(p->OutlineVertexCount(0, i) == w.size(), "outline-vertices-used-by-triangles-kept"); for (uint32_t j = 0; j < w.size() && j < p->OutlineVertexCount(0, i); ++j) ai_assert(p->OutlinePosition(0, i, j) == w[j], "outline-names-the-same-vertices"); }
}
PROP(mutable_empty_outlines) {
  MutableMesh m = Mut(); int mask = (int)ai_split(ai_i32(0, 7, "empty outlines")); Idx full[] = {{4, 1}, {3}, {0, 1, 3}}, none; std::vector<absl::Span<const uint32_t>> s; std::vector<int> kept; for (int i = 0; i < 3; ++i) { if (mask >> i & 1) s.push_back(none); else { s.push_back(full[i]); kept.push_back(i); } }
  auto p = PM::FromMutableMesh(m, s); ai_assert(p.ok(), "empty-outlines-accepted"); if (!p.ok()) return; ai_assert(p->OutlineCount(0) == kept.size(), "only-empty-outlines-skipped"); if (p->OutlineCount(0) != kept.size()) return;
  bool same = true; for (size_t i = 0; i < kept.size(); ++i) { const Idx& w = full[kept[i]]; same = same && p->OutlineVertexCount(0, i) == w.size(); for (uint32_t j = 0; same && j < w.size(); ++j) same = p->OutlinePosition(0, i, j) == m.VertexPosition(w[j]); } ai_assert(same, "other-outlines-kept-in-order");
}
PROP(mutable_groups) {
  MutableMesh a = Mut(), b; b.AppendVertex({7, 7}); b.AppendVertex({9, 7}); b.AppendVertex({7, 9}); b.AppendTriangleIndices({0, 1, 2}); MutableMesh e; int k = (int)ai_split(ai_i32(0, 2, "empty at")); AI omit[] = {AI::kCustom0}; bool om = ai_bool("omit"); Idx o0{0, 4}, o1{2}; std::vector<absl::Span<const uint32_t>> sa{o0, absl::Span<const uint32_t>()}, sb{o1, o1}; PM::MutableMeshGroup ga{.mesh = &a, .outlines = sa}, gb{.mesh = &b, .outlines = sb}, ge{.mesh = &e}; if (om) ga.omit_attributes = omit;
  std::vector<PM::MutableMeshGroup> g{ga, gb}; g.insert(g.begin() + k, ge); auto p = PM::FromMutableMeshGroups(g); ai_assert(p.ok(), "valid-groups-accepted"); if (!p.ok()) return; ai_assert(p->RenderGroupCount() == 3 && p->Meshes().size() == 2, "one-group-per-mesh"); int ia = k == 0 ? 1 : 0, ib = k == 2 ? 1 : 2; ai_assert(p->RenderGroupMeshes(k).empty() && p->OutlineCount(k) == 0, "empty-group-kept"); if (p->RenderGroupMeshes(ia).size() != 1 || p->RenderGroupMeshes(ib).size() != 1) { ai_assert(false, "one-group-per-mesh"); return; }
  ai_assert(p->RenderGroupFormat(ia).Attributes().size() == (om ? 1 : 2) && p->RenderGroupFormat(ib) == F(), "group-format"); const Mesh& ma = p->RenderGroupMeshes(ia)[0]; ai_assert(ma.TriangleCount() == 2 && ma.VertexCount() == 4, "mesh-of-each-group"); ai_assert(p->RenderGroupMeshes(ib)[0].TriangleCount() == 1 && p->RenderGroupMeshes(ib)[0].VertexPosition(1) == Point({9, 7}), "mesh-of-each-group");
  ai_assert(p->OutlineCount(ia) == 1 && p->OutlineCount(ib) == 2, "empty-outlines-skipped"); if (p->OutlineCount(ia) != 1 || p->OutlineCount(ib) != 2) return; ai_assert(p->OutlineVertexCount(ia, 0) == 2 && p->OutlinePosition(ia, 0, 1) == Point({1, 1}) && p->OutlinePosition(ib, 1, 0) == Point({7, 9}), "outline-names-the-same-vertices");
}
PROP(mutable_invalid) { MutableMesh a = Mut(), b = Mut(); int k = (int)ai_split(ai_i32(0, 3, "kind")); AI pos[] = {AI::kPosition}; std::vector<std::optional<CP>> bad(1); Idx out{6}; std::vector<absl::Span<const uint32_t>> s{out}; PM::MutableMeshGroup ga{.mesh = &a}, gb{.mesh = &b}; if (k == 0) b.AppendTriangleIndices({0, 0, 1}); else if (k == 1) gb.omit_attributes = pos; else if (k == 2) gb.packing_params = bad; else gb.outlines = s; bool first = ai_bool("first"); std::vector<PM::MutableMeshGroup> g = first ? std::vector{gb, ga} : std::vector{ga, gb}; ai_assert(!PM::FromMutableMeshGroups(g).ok(), "invalid-group-rejected"); }
PROP(mutable_params) { MutableMesh a(Fmt({{AT::kFloat2PackedIn1Float, AI::kPosition}})); for (Point q : {Point{0, 0}, Point{8, 0}, Point{0, 8}}) a.AppendVertex(q); a.AppendTriangleIndices({0, 1, 2}); std::vector<std::optional<CP>> o(1); o[0] = CP{.components = {{.offset = -2, .scale = .5f}, {.offset = -4, .scale = .25f}}}; auto p = PM::FromMutableMesh(a, {}, {}, o); ai_assert(p.ok() && p->Meshes().size() == 1, "valid-params-accepted"); if (!p.ok() || p->Meshes().size() != 1) return; auto c = p->Meshes()[0].VertexAttributeUnpackingParams(0); ai_assert(c.components[0].offset == -2 && c.components[0].scale == .5f && c.components[1].offset == -4 && c.components[1].scale == .25f, "given-params-used"); }
// ---- queries
namespace {
struct T3 { double c[6]; int m; };   // corners and mesh number
const T3 kT[] = {{{0, 0, 2, 0, 0, 2}, 0}, {{2, 2, 0, 2, 2, 0}, 0}, {{.5, .5, 4, 1, 1, 4}, 1}, {{5, 5, 7, 5, 6, 9}, 2}, {{-3, 4, -1, 6, -4, 7}, 2}, {{-6, -6, -2, -6, -4, -1}, 3}, {{3, -5, 6, -2, 2, -1}, 3}, {{8, -1, 9, 3, 7, 2}, 3}};
constexpr int kNT = 8, kNM = 4;
Poly PT(const T3& t) { return {3, {{t.c[0], t.c[1]}, {t.c[2], t.c[3]}, {t.c[4], t.c[5]}}}; }
Mesh MeshAt(int m) { Verts v; Idx x; for (auto& t : kT) if (t.m == m) for (int i = 0; i < 3; ++i) { x.push_back(v.size()); v.push_back({float(t.c[2 * i]), float(t.c[2 * i + 1])}); } return Make(v, x); }
PM Scene() { std::vector<Group> g(2); g[0].m = {MeshAt(0), MeshAt(1)}; g[1].m = {MeshAt(2), MeshAt(3)}; auto p = Build(g); if (!p.ok()) ai_stop(); return *p; }
int Number(TP i) { int k = 0, r = -1; for (int t = 0; t < kNT; ++t) if (kT[t].m == i.mesh_index) { if (k++ == i.triangle_index) r = t; } return r; }
// transforms, with their inverse for the oracle
struct Tf { double a, b, c, d, e, f; }; P2 Ap(const Tf& t, P2 p) { return {t.a * p.x + t.b * p.y + t.c, t.d * p.x + t.e * p.y + t.f}; } AffineTransform AT_(const Tf& t) { return AffineTransform(t.a, t.b, t.c, t.d, t.e, t.f); }
const Tf kTf[] = {{1, 0, 0, 0, 1, 0}, {1, 0, 3, 0, 1, -2}, {0, -1, 1, 1, 0, 0}, {.5, .25, 0, 0, 2, 1}};
enum K { kP, kS, kT3, kR, kQ };
template <int Q> struct Query; 
double gEps = .002; float B(double v, const char* n) { return gEps == 0 ? float(v) : ai_f32_in(v - gEps, v + gEps, n); }
P2 gC[4]; int gN;
template <int Q> auto Ask(int i, double x, double y) { if constexpr (Q == kP) { gN = 1; gC[0] = {x, y}; return Point{B(x, "x"), B(y, "y")}; } else if constexpr (Q == kS) { gN = 2; gC[0] = {x, y}; gC[1] = i ? P2{x + 2.6, y - 1.3} : P2{x - .4, y + 3.1}; return Segment{{B(x, "x0"), B(y, "y0")}, {B(gC[1].x, "x1"), B(gC[1].y, "y1")}}; } else if constexpr (Q == kT3) { gN = 3; gC[0] = {x, y}; gC[1] = i ? P2{x + 2.6, y - 1.3} : P2{x - .4, y + 3.1}; gC[2] = {x + 1.7, y + .9}; return Triangle{{B(x, "x0"), B(y, "y0")}, {B(gC[1].x, "x1"), B(gC[1].y, "y1")}, {B(gC[2].x, "x2"), B(gC[2].y, "y2")}}; }
  else { double w = i ? 3.3 : .8, h = i ? 1.1 : 2.2; gN = 4; gC[0] = {x, y}; gC[1] = {x + w, y}; gC[2] = {x + w, y + h}; gC[3] = {x, y + h}; if constexpr (Q == kR) return Rect::FromTwoPoints({B(x, "x0"), B(y, "y0")}, {B(x + w, "x1"), B(y + h, "y1")}); else { double th = .5, co = std::cos(th), si = std::sin(th), sh = .3; P2 c{x, y}, u{w / 2 * co, w / 2 * si}, v{h / 2 * (sh * co - si), h / 2 * (sh * si + co)}; gC[0] = {c.x - u.x - v.x, c.y - u.y - v.y}; gC[1] = {c.x + u.x - v.x, c.y + u.y - v.y}; gC[2] = {c.x + u.x + v.x, c.y + u.y + v.y}; gC[3] = {c.x - u.x + v.x, c.y - u.y + v.y}; return Quad::FromCenterDimensionsRotationAndShear({B(x, "cx"), B(y, "cy")}, w, h, Angle::Radians(.5f), .3f); } } }
double Area(const T3& t) { double a = (t.c[2] - t.c[0]) * (t.c[5] - t.c[1]) - (t.c[3] - t.c[1]) * (t.c[4] - t.c[0]); return std::fabs(a) / 2; }
// which triangles the query, mapped by t, meets; stops where too close to call
void Expect(const Tf& t, bool* want) { Poly q{gN, {}}; for (int i = 0; i < gN; ++i) q.v[i] = Ap(t, gC[i]); for (int i = 0; i < kNT; ++i) { Poly p = PT(kT[i]); double d = Depth(q, p); if (d > .05) want[i] = true; else { if (d > 0 || Gap(q, p) < .05) ai_stop(); want[i] = false; } } }
#ifdef AI_THOROUGH
constexpr int kHi = 8; constexpr double kGrid = 1.73;
#else
constexpr int kHi = 3; constexpr double kGrid = 4.1;
#endif
template <int Q> void Visits() {
  PM s = Scene(); s.InitializeSpatialIndex(); s.CoverageIsGreaterThan(Rect::FromTwoPoints({50, 50}, {51, 51}), .5f); int t = (int)ai_split(ai_i32(0, 3, "transform")), gx = (int)ai_split(ai_i32(0, kHi, "gx")), gy = (int)ai_split(ai_i32(0, kHi, "gy")), i = (gx / 2 + gy + t) % 2; if (Q >= kR) gEps = 0; auto q = Ask<Q>(i, -6.3 + kGrid * gx + .11 * gy, -6.1 + kGrid * gy + .07 * gx); bool want[kNT]; Expect(kTf[t], want); int seen[kNT] = {}; bool known = true; AffineTransform tf = AT_(kTf[t]);
  s.VisitIntersectedTriangles(q, [&](TP x) { int n = Number(x); if (n < 0) known = false; else ++seen[n]; return Flow::kContinue; }, tf); ai_assert(known, "visits-existing-triangles"); int n = 0; for (int k = 0; k < kNT; ++k) { n += want[k]; ai_assert(seen[k] == (want[k] ? 1 : 0), "visits-exactly-the-intersected-triangles-once"); }
  int calls = 0; s.VisitIntersectedTriangles(q, [&](TP) { ++calls; return Flow::kBreak; }, tf); ai_assert(calls == (n > 0 ? 1 : 0), "break-stops-the-visit");
  if constexpr (Q >= kT3) { double tot = 0, cov = 0; for (int k = 0; k < kNT; ++k) { tot += Area(kT[k]); if (want[k]) cov += Area(kT[k]); } float c = s.Coverage(q, tf); ai_assert(std::fabs(c - cov / tot) < 1e-5, "coverage-is-the-share-of-intersected-area"); float th = float(cov / tot) + (gx % 2 ? .001f : -.001f); ai_assert(s.CoverageIsGreaterThan(q, th, tf) == (gx % 2 == 0), "coverage-compared-with-threshold"); if (gy % 2) ai_assert(s.CoverageIsGreaterThan(q, 0, tf) == (n > 0) && !s.CoverageIsGreaterThan(q, 1, tf), "coverage-compared-with-threshold"); }
  // the mesh, moved by the inverse transform, meets the query exactly when some triangle is visited
  auto inv = tf.Inverse(); if (!inv) return; if (gx % 2) ai_assert(Intersects(s, *inv, q) == (n > 0), "intersects-when-some-triangle-does"); else ai_assert(Intersects(q, s, *inv) == (n > 0), "intersects-when-some-triangle-does");
}
}
PROP(query_point) { Visits<kP>(); }
PROP(query_segment) { Visits<kS>(); }
PROP(query_triangle) { Visits<kT3>(); }
PROP(query_rect) { Visits<kR>(); }
PROP(query_quad) { Visits<kQ>(); }
PROP(query_mesh) {   // a two-triangle mesh as the query
  PM s = Scene(); s.InitializeSpatialIndex(); int t = (int)ai_split(ai_i32(0, 3, "transform")), gx = (int)ai_split(ai_i32(0, kHi, "gx")), gy = (int)ai_split(ai_i32(0, kHi, "gy")), i = (gx / 2 + gy + t) % 2; double x = -6.3 + kGrid * gx + .11 * gy, y = -6.1 + kGrid * gy + .07 * gx; gEps = 0; Triangle a = Ask<kT3>(i, x, y); bool w0[kNT], want[kNT]; Expect(kTf[t], w0); Triangle b = Ask<kT3>(1 - i, x + 3, y + 1); Expect(kTf[t], want); int n = 0; for (int k = 0; k < kNT; ++k) n += want[k] = want[k] || w0[k];
  std::vector<Group> g(1); g[0].m = {Make({a.p0, a.p1, a.p2, b.p0, b.p1, b.p2}, {0, 1, 2, 3, 4, 5})}; auto q = Build(g); if (!q.ok()) return; AffineTransform tf = AT_(kTf[t]); int seen[kNT] = {}; s.VisitIntersectedTriangles(*q, [&](TP z) { int m = Number(z); if (m >= 0) ++seen[m]; return Flow::kContinue; }, tf); for (int k = 0; k < kNT; ++k) ai_assert(seen[k] == (want[k] ? 1 : 0), "visits-exactly-the-intersected-triangles-once");
  double tot = 0, cov = 0; for (int k = 0; k < kNT; ++k) { tot += Area(kT[k]); if (want[k]) cov += Area(kT[k]); } ai_assert(std::fabs(s.Coverage(*q, tf) - cov / tot) < 1e-5, "coverage-is-the-share-of-intersected-area"); float th = float(cov / tot); ai_assert(s.CoverageIsGreaterThan(*q, th - .001f, tf) && !s.CoverageIsGreaterThan(*q, th + .001f, tf), "coverage-compared-with-threshold");
  ai_assert(Intersects(*q, tf, s, AffineTransform()) == (n > 0) && Intersects(s, AffineTransform(), *q, tf) == (n > 0), "meshes-intersect-when-some-triangles-do"); auto inv = tf.Inverse(); if (inv) ai_assert(Intersects(*q, AffineTransform(), s, *inv) == (n > 0) && Intersects(s, *inv, *q, AffineTransform()) == (n > 0), "meshes-intersect-when-some-triangles-do");
}
PROP(query_many) {   // several index levels: every triangle is found, from every place
#ifdef AI_THOROUGH
  constexpr int kSide = 17;
#else
  constexpr int kSide = 6;
#endif
  static const int kCount[] = {1, 16, 17, kSide * kSide - 1, kSide * kSide}; int w = (int)ai_split(ai_i32(0, 4, "count")), n = kCount[w], m = n < 2 ? 1 : 1 + w % 3; std::vector<Group> g(1); int per = (n + m - 1) / m; for (int b = 0; b < n; b += per) { Verts v; Idx x; for (int i = b; i < n && i < b + per; ++i) { int k = (i * 7) % n; float cx = 2 * (k % kSide), cy = 2 * (k / kSide); for (Point p : {Point{cx, cy}, Point{cx + 1, cy}, Point{cx, cy + 1}}) { x.push_back(v.size()); v.push_back(p); } } g[0].m.push_back(Make(v, x)); } auto p = Build(g); if (!p.ok()) return; p->InitializeSpatialIndex();
  int lx = (int)ai_split(ai_i32(0, 1, "left")) * 2, ly = (int)ai_split(ai_i32(0, 1, "bottom")) * (1 + kSide / 8), hx = kSide - 1 - lx / 2; auto edge = [](int k, double d) { return ai_f32_in(2 * k + d - .3, 2 * k + d + .3, "edge"); }; float y = edge(ly, .4); Segment r{{edge(lx, -.5), y}, {edge(hx, 1.5), y}}; std::vector<int> seen(n), all(n);
  p->VisitIntersectedTriangles(r, [&](TP t) { int i = t.mesh_index * per + t.triangle_index; if (i < n) ++seen[i]; return Flow::kContinue; }); for (int i = 0; i < n; ++i) { int k = (i * 7) % n, x = k % kSide, y = k / kSide; ai_assert(seen[i] == (x >= lx && x <= hx && y == ly ? 1 : 0), "every-triangle-of-large-meshes-found-once"); }
  if (lx == 0 && ly == 0) { p->VisitIntersectedTriangles(Triangle{{-5, -5}, {1000, -5}, {-5, 1000}}, [&](TP t) { int i = t.mesh_index * per + t.triangle_index; if (i < n) ++all[i]; return Flow::kContinue; }); for (int i = 0; i < n; ++i) ai_assert(all[i] == 1, "every-triangle-of-large-meshes-found-once"); }
}
template <class Q> static void Lazy(const Q& q) { PM a = Scene(), b = a; int calls = 0; a.VisitIntersectedTriangles(q, [&](TP) { ++calls; return Flow::kContinue; }); ai_assert(a.IsSpatialIndexInitialized() && b.IsSpatialIndexInitialized(), "query-initializes-the-shared-index"); int again = 0; b.VisitIntersectedTriangles(q, [&](TP) { ++again; return Flow::kContinue; }); ai_assert(calls == again && calls > 0, "copies-answer-alike"); }
PROP(query_lazy) { Point p{.5f, .5f}; Segment g{p, {1, 1}}; Triangle t{p, {1, .5f}, {.5f, 1}}; Rect r = Rect::FromTwoPoints(p, {1, 1}); switch (ai_split(ai_i32(0, 5, "kind"))) { case 0: Lazy(p); break; case 1: Lazy(g); break; case 2: Lazy(t); break; case 3: Lazy(r); break; case 4: Lazy(Quad::FromRect(r)); break; default: Lazy(Scene()); } }
// coverage of some of several triangles of one size, compared with every threshold it can equal
PROP(query_threshold) {
  int n = (int)ai_split(ai_i32(1, 4, "triangles")), k = (int)ai_split(ai_i32(0, 4, "covered")), th = (int)ai_split(ai_i32(0, 8, "threshold")), from = (int)ai_split(ai_i32(0, 1, "from the end")); if (n == 3 || k > n) ai_stop();
  Verts v; Idx x; for (int i = 0; i < n; ++i) { float o = 5.f * i; for (Point q : {Point{o, o}, Point{o + 1, o}, Point{o, o + 1}}) { x.push_back(v.size()); v.push_back(q); } } std::vector<Group> g(1); g[0].m = {Make(v, x)}; auto p = Build(g); if (!p.ok()) ai_stop();
  Rect r = from ? Rect::FromTwoPoints({5.f * (n - k) - 1, 5.f * (n - k) - 1}, {30, 30}) : Rect::FromTwoPoints({-9, -9}, {5.f * k - 2, 5.f * k - 2}); ai_assert(p->Coverage(r) == float(k) / n, "coverage-of-whole-triangles"); ai_assert(p->CoverageIsGreaterThan(r, th / 8.f) == (k * 8 > th * n), "exceeds-exactly-smaller-thresholds");
}
// two meshes, both with a transform
PROP(query_both_transformed) {
  static const Tf t[] = {{1, 0, 0, 0, 1, 0}, {1, 0, 3, 0, 1, -2}, {4, 0, 0, 0, 4, 0}, {0, -1, 1, 1, 0, 0}, {.5, .25, 0, 0, 2, 1}, {2, 0, 6, 0, .5, 3}}; int a = (int)ai_split(ai_i32(0, 5, "first")), b = (int)ai_split(ai_i32(0, 5, "second")), gx = (int)ai_split(ai_i32(-2, 2, "dx")), gy = (int)ai_split(ai_i32(-1, 1, "dy"));
#ifndef AI_THOROUGH
  if ((a + 2 * b + gx + 3 * gy + 9) % 3) ai_stop();
#endif
  Tf u = t[a], w = t[b]; u.c += 1.7 * gx + .13; u.f += 2.3 * gy + .21; const double f[] = {0, 0, 2, 0, 0, 2}, h[] = {1, -1, 3, 1, 0, 2}; auto make = [](const double* c) { std::vector<Group> g(1); g[0].m = {Make({{float(c[0]), float(c[1])}, {float(c[2]), float(c[3])}, {float(c[4]), float(c[5])}}, {0, 1, 2})}; auto p = Build(g); if (!p.ok()) ai_stop(); return *p; }; PM p = make(f), q = make(h);
  Poly x{3}, y{3}; for (int i = 0; i < 3; ++i) { x.v[i] = Ap(u, {f[2 * i], f[2 * i + 1]}); y.v[i] = Ap(w, {h[2 * i], h[2 * i + 1]}); } double d = Depth(x, y), gap = Gap(x, y); if (d < .05 && gap < .05) ai_stop(); bool meet = d > .05; ai_assert(Intersects(p, AT_(u), q, AT_(w)) == meet, "meshes-meet-where-their-transforms-put-them"); ai_assert(Intersects(q, AT_(w), p, AT_(u)) == meet, "either-order");
}
PROP(query_none) {
  int k = (int)ai_split(ai_i32(0, 3, "groups")); PM e = k == 3 ? PM() : PM::WithEmptyGroups(k), s = Scene(); Tf z = kTf[ai_split(ai_i32(0, 3, "transform"))]; AffineTransform tf = AT_(z); int calls = 0; auto f = [&](TP) { ++calls; return Flow::kContinue; }; Point p{1, 1}; Segment g{p, {2, 2}}; Triangle t{p, {2, 1}, {1, 2}}; Rect r = Rect::FromTwoPoints(p, {3, 3}); Quad q = Quad::FromRect(r);
  e.VisitIntersectedTriangles(p, f, tf); e.VisitIntersectedTriangles(g, f, tf); e.VisitIntersectedTriangles(t, f, tf); e.VisitIntersectedTriangles(r, f, tf); e.VisitIntersectedTriangles(q, f, tf); e.VisitIntersectedTriangles(s, f, tf); s.VisitIntersectedTriangles(e, f, tf); e.VisitIntersectedTriangles(e, f, tf); ai_assert(calls == 0, "nothing-to-visit-without-meshes");
  ai_assert(e.Coverage(t, tf) == 0 && e.Coverage(r, tf) == 0 && e.Coverage(q, tf) == 0 && e.Coverage(s, tf) == 0 && s.Coverage(e, tf) == 0 && e.Coverage(e, tf) == 0, "coverage-zero-without-meshes"); float th = ai_f32_in(0, 2, "threshold"); ai_assert(!e.CoverageIsGreaterThan(t, th, tf) && !e.CoverageIsGreaterThan(r, th, tf) && !e.CoverageIsGreaterThan(q, th, tf) && !e.CoverageIsGreaterThan(s, th, tf) && !e.CoverageIsGreaterThan(e, th, tf), "coverage-zero-without-meshes");
  ai_assert(!Intersects(p, e, tf) && !Intersects(e, tf, p) && !Intersects(g, e, tf) && !Intersects(t, e, tf) && !Intersects(e, tf, r) && !Intersects(q, e, tf) && !Intersects(e, tf, s, tf) && !Intersects(s, tf, e, tf) && !Intersects(e, tf, e, tf), "nothing-intersects-without-meshes"); e.InitializeSpatialIndex(); ai_assert(!e.IsSpatialIndexInitialized(), "no-index-without-meshes"); PM c = e; ai_assert(c.Meshes().empty(), "no-meshes");
}
// ---- transforms that collapse the mesh to a segment or a point
namespace { const Tf kFlat[] = {{1, 0, 0, 0, 0, 3}, {0, 0, 2, 0, 1, 0}, {1, 1, 0, 1, 1, 0}, {1, -1, 0, 0, 0, 0}, {1, -1, 1, 2, -2, 0}, {0, 0, 4, 0, 0, 5}, {2, 0, 0, -1, 0, 1}}; constexpr int kNF = 7;
void Flat(const Tf& t, P2* out) { P2 d{t.a, t.d}; if (d.x == 0 && d.y == 0) d = {t.b, t.e}; double lo = 1e9, hi = -1e9; P2 pl{}, ph{}; for (auto& k : kT) for (int i = 0; i < 3; ++i) { P2 p = Ap(t, {k.c[2 * i], k.c[2 * i + 1]}); double v = Dot(p, d); if (v < lo) { lo = v; pl = p; } if (v > hi) { hi = v; ph = p; } } out[0] = pl; out[1] = ph; }
template <int Q> void Collapsed() { PM s = Scene(); s.InitializeSpatialIndex(); int f = (int)ai_split(ai_i32(0, kNF - 1, "transform")), i = Q == kP ? 0 : (int)ai_split(ai_i32(0, 1, "shape")), along = (int)ai_split(ai_i32(-2, 6, "along")), off = (int)ai_split(ai_i32(-1, 1, "off")); P2 e[2]; Flat(kFlat[f], e); double u = (along + .43) / 4.; P2 d = Sub(e[1], e[0]); double l = Len(d); P2 n = l > 0 ? P2{-d.y / l, d.x / l} : P2{1, 0}; if (Q == kP && off == 0) ai_stop(); auto q = Ask<Q>(i, e[0].x + u * d.x + n.x * off * .9 - .31, e[0].y + u * d.y + n.y * off * .9 - .37); Poly a{gN, {}}, b{l > 0 ? 2 : 1, {e[0], e[1]}}; for (int k = 0; k < gN; ++k) a.v[k] = gC[k]; double dep = Depth(a, b); bool meet = dep > .05; if (Q == kS && !(l > 0) || Q == kP) meet = false; if (!meet && Gap(a, b) < .05) { if (Q <= kS || l == 0 || dep > -.05) ai_stop(); } AffineTransform tf = AT_(kFlat[f]); ai_assert(along % 2 ? Intersects(q, s, tf) == meet : Intersects(s, tf, q) == meet, "collapsed-mesh-acts-as-its-segment"); } }
PROP(flat_point) { Collapsed<kP>(); }
PROP(flat_segment) { Collapsed<kS>(); }
PROP(flat_triangle) { Collapsed<kT3>(); }
PROP(flat_rect) { Collapsed<kR>(); }
PROP(flat_query) {   // a mesh query collapsed by the transform
  PM s = Scene(); s.InitializeSpatialIndex(); int f = (int)ai_split(ai_i32(0, kNF - 1, "transform")), gx = (int)ai_split(ai_i32(-kHi / 2, kHi / 2, "dx")), gy = (int)ai_split(ai_i32(-kHi / 2, kHi / 2, "dy")); Tf t = kFlat[f]; double dx = kGrid * gx + .31, dy = kGrid * gy + .17; t.c += dx; t.f += dy; P2 e[2]; Flat(t, e); Poly q{Len(Sub(e[1], e[0])) > 0 ? 2 : 1, {e[0], e[1]}}; bool want[kNT]; for (int i = 0; i < kNT; ++i) { Poly p = PT(kT[i]); double d = Depth(q, p); if (d > .05) want[i] = true; else { if (d > 0 || Gap(q, p) < .05) ai_stop(); want[i] = false; } }
  int seen[kNT] = {}, n = 0; AffineTransform tf(t.a, t.b, ai_f32_in(t.c - .002, t.c + .002, "dx"), t.d, t.e, t.f); s.VisitIntersectedTriangles(s, [&](TP z) { int m = Number(z); if (m >= 0) ++seen[m]; return Flow::kContinue; }, tf); for (int k = 0; k < kNT; ++k) { n += want[k]; ai_assert(seen[k] == (want[k] ? 1 : 0), "collapsed-query-visits-what-its-segment-meets"); } ai_assert(Intersects(s, tf, s, AffineTransform()) == (n > 0) && Intersects(s, AffineTransform(), s, tf) == (n > 0), "collapsed-mesh-acts-as-its-segment");
}
PROP(flat_both) { PM s = Scene(); s.InitializeSpatialIndex(); int a = (int)ai_split(ai_i32(0, kNF - 1, "a")), b = (int)ai_split(ai_i32(0, kNF - 1, "b")), gx = (int)ai_split(ai_i32(-3, 3, "dx")); Tf t = kFlat[a], u = kFlat[b]; u.c += 3.1 * gx + .29; u.f += 1.7 * gx + .41; P2 e[2], g[2]; Flat(t, e); Flat(u, g); bool pe = Len(Sub(e[1], e[0])) == 0, pg = Len(Sub(g[1], g[0])) == 0; Poly p{pe ? 1 : 2, {e[0], e[1]}}, q{pg ? 1 : 2, {g[0], g[1]}}; double d = Depth(p, q), gap = Gap(p, q); bool meet; if (!pe && !pg && d > .05) meet = true; else { if (gap < .05) ai_stop(); meet = false; } ai_assert(Intersects(s, AT_(t), s, AT_(u)) == meet && Intersects(s, AT_(u), s, AT_(t)) == meet, "collapsed-meshes-act-as-their-segments"); }
