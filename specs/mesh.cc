// Immutable and mutable meshes: what Create accepts, what is read back, how edits and conversion behave.
#include "specs/common.h"
#include "ink/geometry/envelope.h"
#include "ink/geometry/internal/mesh_packing.h"
#include "ink/geometry/mesh.h"
#include "ink/geometry/mesh_format.h"
#include "ink/geometry/mutable_mesh.h"
#include "ink/geometry/triangle.h"
using namespace ink; using namespace ink::mesh_internal;
using F = MeshFormat; using AT = F::AttributeType; using AI = F::AttributeId; using IX = F::IndexFormat; using CP = MeshAttributeCodingParams; using CC = CP::ComponentCodingParams;
using Spec = std::vector<std::pair<AT, AI>>; using Opt = std::vector<std::optional<CP>>; using Tri = std::array<uint32_t, 3>;
static F Fmt(const Spec& s, IX x = IX::k32BitUnpacked16BitPacked) { auto f = F::Create(s, x); if (!f.ok()) ai_stop(); return *f; }
static F Mixed(IX x = IX::k32BitUnpacked16BitPacked) { return Fmt({{AT::kFloat1PackedIn1UnsignedByte, AI::kCustom0}, {AT::kFloat2PackedIn1Float, AI::kPosition}, {AT::kFloat3Unpacked, AI::kCustom1}}, x); }
static F Plain(IX x = IX::k32BitUnpacked16BitPacked) { return Fmt({{AT::kFloat1Unpacked, AI::kCustom0}, {AT::kFloat2Unpacked, AI::kPosition}, {AT::kFloat3Unpacked, AI::kCustom1}}, x); }
static constexpr int kOff[] = {0, 1, 3}, kLen[] = {1, 2, 3};
static const char* kN[] = {"a", "b", "c", "d", "e", "f"};
struct Cols { std::vector<std::vector<float>> c; Cols(int k, int n) : c(k, std::vector<float>(n)) { for (int i = 0; i < k; ++i) for (int j = 0; j < n; ++j) c[i][j] = float(10 * i + 3 * j); } std::vector<absl::Span<const float>> Spans() const { std::vector<absl::Span<const float>> s; for (auto& v : c) s.push_back(v); return s; } };
static absl::StatusOr<Mesh> Make(const F& f, const Cols& c, const std::vector<uint32_t>& t, const Opt& o = {}) { auto s = c.Spans(); return Mesh::Create(f, s, t, o); }
// ---- acceptance
PROP(mesh_column_count) { int k = (int)ai_split(ai_i32(0, 8, "columns")); ai_assert(Make(Mixed(), Cols(k, 3), {0, 1, 2}).ok() == (k == 6), "one-column-per-component"); }
PROP(mesh_column_lengths) { Cols c(6, 3); int k = (int)ai_split(ai_i32(0, 5, "column")), n = (int)ai_split(ai_i32(2, 5, "length")); c.c[k].resize(n, 1.f); ai_assert(Make(Mixed(), c, {0, 1, 1}).ok() == (n == 3), "columns-of-equal-length"); }
PROP(mesh_finite_values) { Cols c(6, 3); int k = (int)ai_split(ai_i32(0, 5, "column")), j = (int)ai_split(ai_i32(0, 2, "vertex")); for (auto& v : c.c) for (float& x : v) x = 0; float x = ai_f32("value"); if (k < 3) ai_assume(ai_or(ai_not(ai_finite(x)), In(x, 1, 1000))); c.c[k][j] = x; IFF(ai_finite(x), Make(Mixed(), c, {0, 1, 2}).ok(), "finite-values-only"); }
PROP(mesh_value_range) { Cols c(6, 2); int k = (int)ai_split(ai_i32(0, 5, "column")); c.c[k][0] = ai_f32_in(-kFMax, -2e38, "min"); c.c[k][1] = ai_f32_in(2e38, kFMax, "max"); bool packed = k < 3; ai_assert(Make(Mixed(), c, {}).ok() == !packed, "overflowing-range-rejected"); }
PROP(mesh_index_count) { int n = (int)ai_split(ai_i32(0, 9, "indices")); std::vector<uint32_t> t(n); for (int i = 0; i < n; ++i) t[i] = i % 3; ai_assert(Make(Mixed(), Cols(6, 3), t).ok() == (n % 3 == 0), "three-indices-per-triangle"); }
PROP(mesh_index_range) { int n = (int)ai_split(ai_i32(0, 3, "vertices")), k = (int)ai_split(ai_i32(0, 5, "at")); std::vector<uint32_t> t(6, 0); uint32_t x = ai_u32(0, 0xFFFFFFFFu, "index"); t[k] = x; if (n == 0) { ai_assert(!Make(Mixed(), Cols(6, 0), t).ok(), "indices-refer-to-existing-vertices"); return; } if (x < (uint32_t)n) ai_assert(Make(Mixed(), Cols(6, n), t).ok(), "indices-refer-to-existing-vertices"); else ai_assert(!Make(Mixed(), Cols(6, n), t).ok(), "indices-refer-to-existing-vertices"); }
static float gZero[2];
PROP(mesh_vertex_limit) { size_t n = (size_t)ai_int(65537, 1 << 30, "vertices"); std::vector<absl::Span<const float>> s(6, absl::Span<const float>(gZero, n)); std::vector<uint32_t> t; ai_assert(!Mesh::Create(Mixed(), s, t).ok(), "more-than-65536-vertices-rejected"); }
PROP(mesh_params) {
  int n = (int)ai_split(ai_i32(0, 4, "params")); Opt o(n); ai_assert(Make(Mixed(), Cols(6, 3), {0, 1, 2}, o).ok() == (n == 0 || n == 3), "params-for-every-attribute-or-none"); ai_assert(Make(Mixed(), Cols(6, 0), {}, o).ok(), "params-ignored-without-vertices");
  Opt q(3); q[2] = CP{.components = SmallArray<CC, 4>(3, {.offset = 0, .scale = 1})}; ai_assert(!Make(Mixed(), Cols(6, 3), {0, 1, 2}, q).ok(), "no-params-for-unpacked-attributes");
}
PROP(mesh_params_valid) { Opt q(3); float s = ai_f32("scale"); int c = (int)ai_split(ai_i32(0, 1, "component")), kind = (int)ai_split(ai_i32(0, 2, "kind")); ai_assume(kind == 0 ? ai_not(ai_and(ai_finite(s), ai_flt(0, s))) : kind == 1 ? In(s, .01, 100) : In(s, 1e-30, .004)); q[1] = CP{.components = {{.offset = 0, .scale = 1}, {.offset = 0, .scale = 1}}}; q[1]->components[c].scale = s; Cols k(6, 2); k.c[1] = {0, 20}; k.c[2] = {0, 20}; bool ok = Make(Mixed(), k, {}, q).ok(); if (kind == 0) ai_assert(!ok, "invalid-params-rejected"); else if (kind == 1) ai_assert(ok, "valid-params-accepted"); else ai_assert(!ok, "unrepresentable-values-rejected"); }
// ---- reading back
PROP(mesh_read_unpacked) {
  int n = (int)ai_split(ai_i32(1, 3, "vertices")); int col = (int)ai_split(ai_i32(0, 5, "column")); Cols c(6, n); for (float& x : c.c[col]) x = Fin("v"); std::vector<uint32_t> t{0, uint32_t(n - 1), uint32_t(n / 2), uint32_t(n / 2), 0, uint32_t(n - 1)};
  auto m = Make(Plain(), c, t); ai_assert(m.ok(), "accepted"); if (!m.ok()) return; ai_assert(m->VertexCount() == (uint32_t)n && m->TriangleCount() == 2, "counts"); ai_assert(m->Format() == Plain(), "format"); ai_assert(m->VertexPositionAttributeIndex() == 1, "position-index");
  for (int v = 0; v < n; ++v) { for (int a = 0; a < 3; ++a) { auto x = m->FloatVertexAttribute(v, a); ai_assert(x.Size() == kLen[a], "component-count"); for (int j = 0; j < kLen[a]; ++j) ai_ident_f(x[j], c.c[kOff[a] + j][v], "unpacked-values-read-back-exactly"); } Point p = m->VertexPosition(v); ai_ident_f(p.x, c.c[1][v], "position-read-back"); ai_ident_f(p.y, c.c[2][v], "position-read-back"); }
  for (int k = 0; k < 2; ++k) { Tri r = m->TriangleIndices(k); for (int j = 0; j < 3; ++j) ai_assert(r[j] == t[3 * k + j], "triangles-read-back"); Triangle g = m->GetTriangle(k); Point p[] = {g.p0, g.p1, g.p2}; for (int j = 0; j < 3; ++j) { ai_ident_f(p[j].x, c.c[1][t[3 * k + j]], "triangle-corners"); ai_ident_f(p[j].y, c.c[2][t[3 * k + j]], "triangle-corners"); } }
  ai_assert(m->VertexStride() == 24 && m->RawVertexData().size() == size_t(24 * n) && m->IndexStride() == 2 && m->RawIndexData().size() == 12, "raw-sizes");
  for (int v = 0; v < n; ++v) for (int j = 0; j < 6; ++j) { float x; std::memcpy(&x, &m->RawVertexData()[24 * v + 4 * j], 4); ai_ident_f(x, c.c[j][v], "raw-layout"); }
}
PROP(mesh_bounds) {
  int n = (int)ai_split(ai_i32(1, 3, "vertices")), k = (int)ai_split(ai_i32(0, 5, "column")); Cols c(6, n); for (float& x : c.c[k]) x = ai_f32_in(-1e30, 1e30, "v"); auto m = Make(Plain(), c, {}); ai_assert(m.ok(), "accepted"); if (!m.ok()) return;
  for (int a = 0; a < 3; ++a) { auto b = m->AttributeBounds(a); ai_assert(b.has_value() && b->minimum.Size() == kLen[a] && b->maximum.Size() == kLen[a], "bounds-present"); if (!b) return; for (int j = 0; j < kLen[a]; ++j) { auto& col = c.c[kOff[a] + j]; bool lo = false, hi = false; for (float x : col) { ai_assert(ai_and(ai_fle(b->minimum[j], x), ai_fle(x, b->maximum[j])), "bounds-cover"); lo = ai_or(lo, ai_feq(x, b->minimum[j])); hi = ai_or(hi, ai_feq(x, b->maximum[j])); } ai_assert(ai_and(lo, hi), "bounds-tight"); } }
  auto b = m->AttributeBounds(1); Envelope e = m->Bounds(); ai_assert(!e.IsEmpty() && e.AsRect().has_value(), "envelope"); if (!e.AsRect() || !b) return; Rect r = *e.AsRect(); ai_assert(ai_and(ai_and(ai_feq(r.XMin(), b->minimum[0]), ai_feq(r.XMax(), b->maximum[0])), ai_and(ai_feq(r.YMin(), b->minimum[1]), ai_feq(r.YMax(), b->maximum[1]))), "envelope-of-positions");
}
PROP(mesh_packed_values) {
  bool custom = ai_bool("custom"); int n = 3; Cols c(6, n); c.c[0] = {0, 255, 51}; c.c[1] = {-5, 4090, 100.25f}; c.c[2] = {7, 8197, 7}; c.c[1][2] = ai_f32_in(-5, 4090, "x"); for (int j = 3; j < 6; ++j) c.c[j][1] = Fin("u"); Opt o; if (custom) { o.resize(3); o[0] = CP{.components = {{.offset = -2, .scale = 2}}}; o[1] = CP{.components = {{.offset = -10, .scale = 2}, {.offset = 0, .scale = 4}}}; }
  auto m = Make(Mixed(), c, {2, 0, 1}, o); ai_assert(m.ok(), "accepted"); if (!m.ok()) return; CP p0 = m->VertexAttributeUnpackingParams(0), p1 = m->VertexAttributeUnpackingParams(1), p2 = m->VertexAttributeUnpackingParams(2); ai_assert(p0.components.Size() == 1 && p1.components.Size() == 2 && p2.components.Size() == 3, "params-per-component");
  if (custom) ai_assert(p0.components[0].offset == -2 && p0.components[0].scale == 2 && p1.components[0].offset == -10 && p1.components[0].scale == 2 && p1.components[1].offset == 0 && p1.components[1].scale == 4, "custom-params-used");
  else ai_assert(p0.components[0].offset == 0 && p0.components[0].scale == 1 && p1.components[0].offset == -5 && p1.components[0].scale == 1 && p1.components[1].offset == 7 && p1.components[1].scale == 2, "default-params-span-the-bounds");
  for (int v = 0; v < n; ++v) { for (int a = 0; a < 2; ++a) { const CP& p = a ? p1 : p0; auto k = m->PackedIntegersForFloatVertexAttribute(v, a); auto x = m->FloatVertexAttribute(v, a); for (int j = 0; j < kLen[a]; ++j) { float s = p.components[j].scale, w = c.c[kOff[a] + j][v]; ai_near(x[j], w, s * .50001, "packed-values-within-half-a-step"); ai_near((double)k[j] * s + p.components[j].offset, w, s * .50001, "packed-integers-within-half-a-step"); } } auto u = m->FloatVertexAttribute(v, 2); for (int j = 0; j < 3; ++j) ai_ident_f(u[j], c.c[3 + j][v], "unpacked-values-exact"); }
  ai_assert(m->VertexStride() == 17 && m->RawVertexData().size() == 51, "raw-sizes");
}
PROP(mesh_empty) {
  Mesh d; ai_assert(d.VertexCount() == 0 && d.TriangleCount() == 0 && !d.AttributeBounds(0).has_value() && d.Bounds().IsEmpty() && d.Format() == F() && d.VertexAttributeUnpackingParams(0).components.Size() == 2, "default-mesh-is-empty"); ai_assert(d.VertexAttributeUnpackingParams(0).components[1].scale == 1 && d.VertexAttributeUnpackingParams(0).components[1].offset == 0, "default-params");
  auto m = Make(Mixed(), Cols(6, 0), {}); ai_assert(m.ok(), "no-vertices-accepted"); if (!m.ok()) return; ai_assert(m->VertexCount() == 0 && m->TriangleCount() == 0 && m->Bounds().IsEmpty() && m->Format() == Mixed(), "no-vertices-is-empty"); for (int a = 0; a < 3; ++a) { ai_assert(!m->AttributeBounds(a).has_value(), "no-bounds-without-vertices"); auto p = m->VertexAttributeUnpackingParams(a); ai_assert(p.components.Size() == kLen[a], "identity-params"); for (int j = 0; j < kLen[a] && j < p.components.Size(); ++j) ai_assert(p.components[j].offset == 0 && p.components[j].scale == 1, "identity-params"); }
}
PROP(mesh_copies) { Cols c(6, 3); auto m = Make(Mixed(), c, {0, 1, 2}); if (!m.ok()) return; Mesh a = *m, b; b = a; ai_assert(a.RawVertexData().data() == m->RawVertexData().data() && b.RawIndexData().data() == m->RawIndexData().data(), "copies-share-data"); ai_assert(b.VertexCount() == 3 && b.TriangleCount() == 1 && b.Format() == Mixed(), "copies-equal"); }
// ---- mutable mesh
static IX Ix() { return ai_bool("wide") ? IX::k32BitUnpacked16BitPacked : IX::k16BitUnpacked16BitPacked; }
PROP(mutable_append) {
  MutableMesh m(Mixed()); float x[3], y[3]; for (int i = 0; i < 3; ++i) { x[i] = ai_f32("x"); y[i] = ai_f32("y"); m.AppendVertex({x[i], y[i]}); ai_assert(m.VertexCount() == uint32_t(i + 1) && m.TriangleCount() == 0, "append-counts"); }
  int k = (int)ai_split(ai_i32(-1, 2, "set")); if (k >= 0) { x[k] = ai_f32("X"); y[k] = ai_f32("Y"); m.SetVertexPosition(k, {x[k], y[k]}); } for (int i = 0; i < 3; ++i) { Point p = m.VertexPosition(i); ai_ident_f(p.x, x[i], "positions-kept"); ai_ident_f(p.y, y[i], "positions-kept"); auto c = m.FloatVertexAttribute(i, 0), d = m.FloatVertexAttribute(i, 2), e = m.FloatVertexAttribute(i, 1); ai_assert(c[0] == 0 && d[0] == 0 && d[1] == 0 && d[2] == 0, "other-attributes-zero"); ai_ident_f(e[0], x[i], "positions-kept"); }
  ai_assert(m.VertexStride() == 24 && m.RawVertexData().size() == 72 && m.VertexPositionAttributeIndex() == 1 && m.Format() == Mixed(), "layout");
}
PROP(mutable_attributes) {
  static constexpr AT all[] = {AT::kFloat1Unpacked, AT::kFloat1PackedIn1UnsignedByte, AT::kFloat2Unpacked, AT::kFloat2PackedIn1Float, AT::kFloat2PackedIn3UnsignedBytes_XY12, AT::kFloat2PackedIn4UnsignedBytes_X12_Y20, AT::kFloat3Unpacked, AT::kFloat3PackedIn1Float, AT::kFloat3PackedIn2Floats, AT::kFloat3PackedIn4UnsignedBytes_XYZ10, AT::kFloat4Unpacked, AT::kFloat4PackedIn1Float, AT::kFloat4PackedIn2Floats, AT::kFloat4PackedIn3Floats};
  AT t = all[ai_split(ai_i32(0, 13, "type"))]; int n = F::ComponentCount(t); MutableMesh m(Fmt({{t, AI::kCustom0}, {AT::kFloat2Unpacked, AI::kPosition}, {AT::kFloat1Unpacked, AI::kCustom1}})); std::vector<std::vector<float>> w(2, std::vector<float>(n + 3)); int len[] = {n, 2, 1}, off[] = {0, n, n + 2};
  m.Resize(2, 0); auto Set = [&](int v, int a) { SmallArray<float, 4> x(len[a]); for (int j = 0; j < len[a]; ++j) { x[j] = ai_f32("v"); w[v][off[a] + j] = x[j]; } m.SetFloatVertexAttribute(v, a, x); };
  for (int v = 0; v < 2; ++v) for (int a = 0; a < 3; ++a) Set(v, a); Set((int)ai_split(ai_i32(0, 1, "v")), (int)ai_split(ai_i32(0, 2, "a")));
  for (int v = 0; v < 2; ++v) { for (int a = 0; a < 3; ++a) { auto x = m.FloatVertexAttribute(v, a); ai_assert(x.Size() == len[a], "component-count"); if (x.Size() != len[a]) return; for (int j = 0; j < len[a]; ++j) ai_ident_f(x[j], w[v][off[a] + j], "only-the-set-attribute-changes"); } ai_ident_f(m.VertexPosition(v).y, w[v][n + 1], "position-is-an-attribute"); }
}
PROP(mutable_triangles) {
  IX ix = Ix(); uint32_t top = ix == IX::k32BitUnpacked16BitPacked ? 0xFFFFFFFFu : 0xFFFF; MutableMesh m(Mixed(ix)); std::vector<Tri> want; auto New = [&] { return Tri{ai_u32(0, top, "i"), ai_u32(0, top, "j"), ai_u32(0, top, "k")}; };
  int n = (int)ai_split(ai_i32(0, 3, "triangles")); for (int i = 0; i < n; ++i) { want.push_back(New()); m.AppendTriangleIndices(want.back()); }
  int op = (int)ai_split(ai_i32(0, 2, "edit")); if (op == 1 && n) { int k = (int)ai_split(ai_i32(0, n - 1, "at")); want[k] = New(); m.SetTriangleIndices(k, want[k]); } else if (op == 2) { int k = (int)ai_split(ai_i32(0, n, "at")); Tri t = New(); want.insert(want.begin() + k, t); m.InsertTriangleIndices(k, t); }
  ai_assert(m.TriangleCount() == want.size() && m.VertexCount() == 0, "triangle-count"); if (m.TriangleCount() != want.size()) return; for (size_t i = 0; i < want.size(); ++i) { Tri t = m.TriangleIndices(i); for (int j = 0; j < 3; ++j) ai_ident_i(t[j], want[i][j], "triangles-as-edited"); } ai_assert(m.IndexStride() == (top == 0xFFFF ? 2 : 4) && m.RawIndexData().size() == 3 * m.IndexStride() * want.size(), "index-layout");
}
static MutableMesh Filled(const F& f, std::vector<std::array<float, 6>>& v, std::vector<Tri>& t, int n, int k) {
  MutableMesh m(f); for (int i = 0; i < n; ++i) { std::array<float, 6> a; for (int j = 0; j < 6; ++j) a[j] = ai_f32(kN[j]); v.push_back(a); m.AppendVertex({a[1], a[2]}); m.SetFloatVertexAttribute(i, 0, {a[0]}); m.SetFloatVertexAttribute(i, 2, {a[3], a[4], a[5]}); }
  for (int i = 0; i < k; ++i) { Tri x{ai_u32(0, 65535, "i"), ai_u32(0, 65535, "j"), ai_u32(0, 65535, "k")}; t.push_back(x); m.AppendTriangleIndices(x); } return m; }
static void Holds(const MutableMesh& m, const F& f, const std::vector<std::array<float, 6>>& v, const std::vector<Tri>& t, const char* id) {
  ai_assert(m.Format() == f, id); ai_assert(m.VertexCount() == v.size() && m.TriangleCount() == t.size(), id); if (m.VertexCount() != v.size() || m.TriangleCount() != t.size()) return;
  for (size_t i = 0; i < v.size(); ++i) for (int a = 0; a < 3; ++a) { auto x = m.FloatVertexAttribute(i, a); for (int j = 0; j < kLen[a]; ++j) ai_ident_f(x[j], v[i][kOff[a] + j], id); } for (size_t i = 0; i < t.size(); ++i) { Tri q = m.TriangleIndices(i); for (int j = 0; j < 3; ++j) ai_ident_i(q[j], t[i][j], id); } }
PROP(mutable_resize) {
  std::vector<std::array<float, 6>> v; std::vector<Tri> t; F f = Mixed(Ix()); MutableMesh m = Filled(f, v, t, 2, 2); int n = (int)ai_split(ai_i32(0, 4, "n")), k = (int)ai_split(ai_i32(0, 4, "k")); m.Resize(n, k); ai_assert(m.VertexCount() == (uint32_t)n && m.TriangleCount() == (uint32_t)k, "resized-counts"); std::array<float, 6> z{}; v.resize(n, z); t.resize(k, Tri{0, 0, 0}); ai_assert(m.VertexCount() == (uint32_t)n, "resized-counts");
  for (int i = 0; i < n && i < 2; ++i) { auto x = m.FloatVertexAttribute(i, 2); ai_ident_f(x[2], v[i][5], "first-vertices-kept"); ai_ident_f(m.VertexPosition(i).x, v[i][1], "first-vertices-kept"); } for (int i = 2; i < n; ++i) { auto x = m.FloatVertexAttribute(i, 2); Point p = m.VertexPosition(i); ai_assert(x[0] == 0 && x[1] == 0 && x[2] == 0 && p.x == 0 && p.y == 0 && m.FloatVertexAttribute(i, 0)[0] == 0, "new-vertices-zero"); }
  for (int i = 0; i < k; ++i) { Tri q = m.TriangleIndices(i); for (int j = 0; j < 3; ++j) if (i < 2) ai_ident_i(q[j], t[i][j], "first-triangles-kept"); else ai_assert(q[j] == 0, "new-triangles-zero"); }
  m.AppendVertex({1, 2}); m.AppendTriangleIndices({5, 6, 7}); ai_assert(m.VertexCount() == uint32_t(n + 1) && m.TriangleCount() == uint32_t(k + 1) && m.VertexPosition(n).y == 2 && m.TriangleIndices(k)[1] == 6, "append-after-resize");
}
PROP(mutable_clear_reset) {
  std::vector<std::array<float, 6>> v; std::vector<Tri> t; F f = Mixed(Ix()); MutableMesh m = Filled(f, v, t, 2, 1); bool reset = ai_bool("reset"); F g = Plain(); if (reset) m.Reset(g); else m.Clear(); ai_assert(m.VertexCount() == 0 && m.TriangleCount() == 0 && m.RawVertexData().empty() && m.RawIndexData().empty(), "cleared"); ai_assert(m.Format() == (reset ? g : f), "format-kept-or-replaced"); m.AppendVertex({3, 4}); ai_assert(m.VertexCount() == 1 && m.VertexPosition(0).x == 3 && m.FloatVertexAttribute(0, 0)[0] == 0 && m.FloatVertexAttribute(0, 2)[2] == 0, "usable-after-clear"); MutableMesh d; ai_assert(d.VertexCount() == 0 && d.TriangleCount() == 0 && d.Format() == F(), "default-is-empty"); }
PROP(mutable_clone) {
  std::vector<std::array<float, 6>> v; std::vector<Tri> t; F f = Mixed(Ix()); MutableMesh m = Filled(f, v, t, 2, 2); MutableMesh c = m.Clone(); Holds(c, f, v, t, "clone-equals-original"); bool which = ai_bool("original"); MutableMesh& e = which ? m : c; MutableMesh& o = which ? c : m; switch (ai_split(ai_i32(0, 4, "edit"))) { case 0: e.SetVertexPosition(0, {1, 2}); break; case 1: e.AppendVertex({1, 2}); break; case 2: e.SetTriangleIndices(1, {1, 2, 3}); break; case 3: e.InsertTriangleIndices(0, {1, 2, 3}); break; default: e.Clear(); } Holds(o, f, v, t, "clone-independent"); MutableMesh moved = std::move(o); Holds(moved, f, v, t, "move-keeps-content"); }
PROP(mutable_from_mesh) {
  IX ix = Ix(); Cols c(6, 3); c.c[0] = {0, 255, 51}; c.c[1] = {0, 4095, 100}; c.c[2] = {0, 4095, 7}; for (float& x : c.c[4]) x = Fin("u"); c.c[3][1] = Fin("u"); auto m = Make(Mixed(ix), c, {2, 0, 1, 1, 2, 0}); if (!m.ok()) return; MutableMesh q = MutableMesh::FromMesh(*m); ai_assert(q.Format() == Mixed(ix) && q.VertexCount() == 3 && q.TriangleCount() == 2, "counts-and-format"); if (q.VertexCount() != 3 || q.TriangleCount() != 2) return;
  for (int i = 0; i < 3; ++i) { for (int a = 0; a < 3; ++a) { auto x = q.FloatVertexAttribute(i, a), y = m->FloatVertexAttribute(i, a); for (int j = 0; j < kLen[a]; ++j) if (a == 2) ai_ident_f(x[j], y[j], "unpacked-vertices-copied"); else ai_assert(x[j] == y[j], "unpacked-vertices-copied"); } } for (int i = 0; i < 2; ++i) ai_assert(q.TriangleIndices(i) == m->TriangleIndices(i), "triangles-copied"); MutableMesh e = MutableMesh::FromMesh(Mesh()); ai_assert(e.VertexCount() == 0 && e.TriangleCount() == 0, "empty-mesh-copied"); }
PROP(mutable_validate) {
  int n = (int)ai_split(ai_i32(0, 4, "vertices")), k = (int)ai_split(ai_i32(0, 1, "bad triangle")); MutableMesh m(Mixed(Ix())); m.Resize(n, 0); Tri good{2, 0, 1}; uint32_t a = ai_u32(0, 65535, "i"), b = ai_u32(0, 65535, "j"), c = ai_u32(0, 65535, "k"); for (int i = 0; i < 2; ++i) m.AppendTriangleIndices(i == k ? Tri{a, b, c} : good); bool ok = m.ValidateTriangles().ok(), want = false; uint32_t u = n; if (a < u) if (b < u) if (c < u) if (a != b) if (b != c) if (a != c) want = n >= 3; ai_assert(ok == want, "triangles-refer-to-three-distinct-vertices"); }
// ---- conversion
PROP(as_meshes_none) { MutableMesh m(Mixed()); m.Resize((uint32_t)ai_split(ai_i32(0, 2, "vertices")), 0); if (m.VertexCount()) m.SetVertexPosition(0, {ai_f32("x"), ai_f32("y")}); auto r = m.AsMeshes(); ai_assert(r.ok() && r->empty(), "no-triangles-no-meshes"); }
PROP(as_meshes_rejects) {
  MutableMesh m(Mixed()); for (int i = 0; i < 4; ++i) m.AppendVertex({float(i), float(i * i)}); Tri t{0, 1, 2}; int k = (int)ai_split(ai_i32(0, 4, "what")); std::vector<AI> om; Opt o; bool ok = false; int at = (int)ai_split(ai_i32(0, 2, "at")); float x = ai_f32("x"); 
  switch (k) { case 0: t[at] = 4; break; case 1: t[at] = t[(at + 1) % 3]; break; case 2: om.push_back(at == 0 ? AI::kPosition : at == 1 ? AI::kCustom5 : AI::kOpacityShift); break; case 3: o.resize(at == 0 ? 1 : at == 1 ? 2 : 4); break; default: { ai_assume(ai_not(ai_finite(x))); m.SetFloatVertexAttribute((uint32_t)ai_split(ai_i32(0, 2, "vertex")), at, at == 0 ? SmallArray<float, 4>{x} : at == 1 ? SmallArray<float, 4>{1, x} : SmallArray<float, 4>{0, x, 0}); } }
  m.AppendTriangleIndices(t); ai_assert(!m.AsMeshes(o, om).ok(), "invalid-mesh-not-converted"); (void)ok; }
PROP(as_meshes_unpacked) {
  F f = Plain(Ix()); std::vector<std::array<float, 6>> v; MutableMesh m(f); for (int i = 0; i < 4; ++i) { std::array<float, 6> a; for (int j = 0; j < 6; ++j) a[j] = ai_f32_in(-1e30, 1e30, kN[j]); v.push_back(a); m.AppendVertex({a[1], a[2]}); m.SetFloatVertexAttribute(i, 0, {a[0]}); m.SetFloatVertexAttribute(i, 2, {a[3], a[4], a[5]}); }
  int q = (int)ai_split(ai_i32(0, 3, "triangles")); std::vector<Tri> t = q == 0 ? std::vector<Tri>{{3, 1, 0}} : q == 1 ? std::vector<Tri>{{0, 1, 2}, {1, 3, 2}} : q == 2 ? std::vector<Tri>{{2, 1, 3}, {3, 1, 2}} : std::vector<Tri>{{1, 2, 3}, {3, 0, 1}, {1, 2, 3}}; for (auto& x : t) m.AppendTriangleIndices(x);
  int om = (int)ai_split(ai_i32(0, 2, "omit")); std::vector<AI> omit; if (om == 1) omit.push_back(AI::kCustom0); if (om == 2) omit.push_back(AI::kCustom1); auto r = m.AsMeshes({}, omit); ai_assert(r.ok() && r->size() == 1, "valid-mesh-converted"); if (!r.ok() || r->size() != 1) return; const Mesh& g = (*r)[0]; auto fo = f.WithoutAttributes(omit); ai_assert(fo.ok() && g.Format() == *fo, "format-without-omitted"); bool used[4] = {}; int un = 0; for (auto& x : t) for (uint32_t i : x) if (!used[i]) { used[i] = true; ++un; } ai_assert(g.VertexCount() == (uint32_t)un, "unreferenced-vertices-stripped"); ai_assert(g.TriangleCount() == t.size(), "all-triangles"); if (g.TriangleCount() != t.size()) return;
  for (size_t k = 0; k < t.size(); ++k) { Tri x = g.TriangleIndices(k); for (int j = 0; j < 3; ++j) { ai_assert(x[j] < g.VertexCount(), "index-in-range"); if (x[j] >= g.VertexCount()) return; int na = 0; for (int a = 0; a < 3; ++a) { if ((om == 1 && a == 0) || (om == 2 && a == 2)) continue; auto y = g.FloatVertexAttribute(x[j], na++); for (int c = 0; c < kLen[a]; ++c) ai_ident_f(y[c], v[t[k][j]][kOff[a] + c], "corners-keep-their-attributes"); } } }
  auto b = g.AttributeBounds(om == 1 ? 0 : 1); ai_assert(b.has_value(), "bounds"); if (!b) return; for (int i = 0; i < 4; ++i) if (used[i]) ai_assert(ai_and(ai_fle(b->minimum[0], v[i][1]), ai_fle(v[i][1], b->maximum[0])), "bounds-cover"); int who = (int)ai_split(ai_i32(0, 3, "extreme")); if (!used[who]) return; bool high = ai_bool("high"); for (int i = 0; i < 4; ++i) if (used[i]) ai_assume(high ? ai_fle(v[i][1], v[who][1]) : ai_fle(v[who][1], v[i][1])); if (high) ai_assert(ai_feq(b->maximum[0], v[who][1]), "bounds-tight"); else ai_assert(ai_feq(b->minimum[0], v[who][1]), "bounds-tight");
}
// Packed positions: the nearest step unless rounding would flip a triangle, never more than a step away, and flips are corrected when possible
static constexpr float kTriangles[][3][2] = {
  {{14.45f, 12.8f}, {15.00f, 13.4f}, {10.85f, 12.2f}},
  {{14.65f, 10.6f}, {12.85f, 10.4f}, {11.45f, 10.0f}},
  {{12.40f, 12.4f}, {12.60f, 14.0f}, {11.60f, 11.2f}},
  {{10.05f, 11.0f}, {13.00f, 12.6f}, {14.85f, 13.8f}},
  {{13.85f, 14.4f}, {10.85f, 14.6f}, {14.65f, 13.6f}},
  {{11.80f, 13.4f}, {10.80f, 10.6f}, {12.00f, 13.6f}},
  {{12.40f, 10.4f}, {10.00f, 12.2f}, {11.85f, 10.6f}},
  {{13.00f, 12.6f}, {15.05f, 12.2f}, {12.20f, 13.0f}},
  {{14.45f, 14.6f}, {13.00f, 14.4f}, {12.05f, 13.8f}},
  {{11.40f, 13.4f}, {11.65f, 13.0f}, {14.45f, 11.4f}},
  {{13.65f, 10.0f}, {13.45f, 13.0f}, {13.05f, 14.6f}},
  {{14.60f, 12.8f}, {12.40f, 13.4f}, {10.60f, 13.6f}},
  {{12.65f, 13.4f}, {11.40f, 10.6f}, {13.40f, 13.8f}},
  {{14.80f, 10.8f}, {13.00f, 12.2f}, {11.65f, 12.8f}},
  {{11.60f, 13.6f}, {10.40f, 10.4f}, {12.25f, 14.8f}},
  {{11.65f, 13.0f}, {12.20f, 10.6f}, {11.45f, 14.0f}},
  {{14.00f, 11.0f}, {13.25f, 11.4f}, {10.45f, 12.8f}},
  {{12.40f, 13.2f}, {12.60f, 12.8f}, {14.00f, 10.2f}},
  {{14.60f, 14.6f}, {12.00f, 14.4f}, {11.45f, 14.2f}},
  {{10.65f, 10.4f}, {11.05f, 10.8f}, {13.00f, 15.0f}},
  {{13.85f, 14.6f}, {12.20f, 12.8f}, {14.80f, 14.0f}},
  {{10.20f, 10.6f}, {12.25f, 11.4f}, {12.40f, 13.6f}},
  {{11.40f, 14.6f}, {11.25f, 11.6f}, {11.05f, 11.0f}},
  {{14.80f, 10.8f}, {13.85f, 10.8f}, {10.80f, 10.0f}},
  {{14.40f, 12.4f}, {11.80f, 12.2f}, {12.60f, 10.8f}},
  {{11.60f, 12.0f}, {11.80f, 13.8f}, {14.25f, 10.4f}},
  {{11.85f, 11.8f}, {13.05f, 11.0f}, {13.05f, 14.4f}},
  {{11.00f, 11.6f}, {10.05f, 12.4f}, {10.05f, 12.2f}},
  {{12.40f, 12.8f}, {10.20f, 13.8f}, {11.20f, 14.8f}},
  {{11.45f, 12.2f}, {13.25f, 13.2f}, {11.65f, 10.6f}},
  {{13.65f, 11.8f}, {10.25f, 10.4f}, {11.25f, 13.2f}},
  {{14.25f, 11.8f}, {11.00f, 14.0f}, {10.85f, 13.0f}}};
PROP(as_meshes_quantized) {
  F f = Fmt({{AT::kFloat2PackedIn1Float, AI::kPosition}}); Opt o(1); o[0] = CP{.components = {{.offset = 0, .scale = 1}, {.offset = 0, .scale = 1}}}; MutableMesh m(f); int k = (int)ai_split(ai_i32(0, int(std::size(kTriangles)) - 1, "triangle")); bool swap = ai_bool("swap"); Point p[3]; for (int i = 0; i < 3; ++i) { const float* c = kTriangles[k][i]; p[i] = swap ? Point{c[1], c[0]} : Point{c[0], c[1]}; m.AppendVertex(p[i]); } int turn = (int)ai_split(ai_i32(0, 2, "turn")); Tri t = swap ? Tri{0, 2, 1} : Tri{0, 1, 2}; t = {t[turn], t[(turn + 1) % 3], t[(turn + 2) % 3]}; m.AppendTriangleIndices(t); auto r = m.AsMeshes(o); ai_assert(r.ok() && r->size() == 1, "converted"); if (!r.ok() || r->size() != 1) return;
  Triangle a{p[t[0]], p[t[1]], p[t[2]]}; Point n[3]; for (int i = 0; i < 3; ++i) n[i] = {std::round(p[t[i]].x), std::round(p[t[i]].y)}; Triangle q{n[0], n[1], n[2]}; bool flips = a.SignedArea() >= 0 && q.SignedArea() < 0; Triangle got = (*r)[0].GetTriangle(0); Point w[3] = {got.p0, got.p1, got.p2};
  for (int i = 0; i < 3; ++i) { Point u = p[t[i]]; ai_assert(w[i].x == std::round(w[i].x) && w[i].y == std::round(w[i].y), "on-the-quantization-grid"); ai_assert(std::fabs(w[i].x - u.x) <= 1 && std::fabs(w[i].y - u.y) <= 1, "within-one-step"); if (!flips) ai_assert(w[i] == n[i], "nearest-step-when-nothing-flips"); } if (flips) ai_assert(got.SignedArea() >= 0, "flipped-triangle-corrected"); }
// Meshes of two to four triangles sharing corners: rounding flips one or more of them, and moving a corner of one may flip another.
struct Joined { int topology; Point p[5]; };
static const Joined kJoined[] = {
  {3, {{13.00f, 12.65f}, {12.25f, 13.50f}, {10.45f, 11.10f}, {11.15f, 12.10f}, {11.80f, 13.70f}}},
  {3, {{13.90f, 11.65f}, {11.40f, 13.60f}, {12.95f, 10.00f}, {12.30f, 11.10f}, {11.65f, 11.50f}}},
  {1, {{11.55f, 10.10f}, {11.40f, 10.75f}, {10.40f, 11.75f}, {11.60f, 10.75f}, {12.65f, 10.05f}}},
  {2, {{12.10f, 11.65f}, {12.55f, 11.50f}, {14.00f, 13.90f}, {12.50f, 12.40f}, {11.40f, 11.35f}}},
  {3, {{12.95f, 13.05f}, {10.30f, 12.35f}, {14.00f, 13.15f}, {12.30f, 12.75f}, {12.95f, 10.55f}}},
  {2, {{10.85f, 13.45f}, {12.85f, 12.70f}, {11.95f, 13.10f}, {10.10f, 13.75f}, {12.20f, 12.60f}}},
  {3, {{13.75f, 11.45f}, {13.00f, 13.00f}, {12.45f, 11.80f}, {11.00f, 10.25f}, {11.45f, 10.50f}}},
  {3, {{11.00f, 13.75f}, {12.70f, 12.10f}, {13.45f, 12.60f}, {11.15f, 10.95f}, {12.35f, 11.50f}}},
  {2, {{12.60f, 11.70f}, {12.15f, 10.50f}, {13.80f, 10.00f}, {12.30f, 12.50f}, {11.60f, 10.25f}}},
  {0, {{10.65f, 12.60f}, {12.70f, 10.75f}, {10.30f, 13.45f}, {13.20f, 10.35f}}},
  {1, {{13.05f, 12.20f}, {11.35f, 13.40f}, {12.05f, 12.15f}, {12.35f, 13.05f}, {12.50f, 13.90f}}},
  {1, {{10.15f, 13.00f}, {11.15f, 11.50f}, {12.80f, 10.15f}, {13.45f, 10.95f}, {13.75f, 13.90f}}},
  {2, {{12.90f, 13.10f}, {13.20f, 13.65f}, {12.70f, 13.05f}, {11.90f, 11.00f}, {11.90f, 10.55f}}},
  {3, {{13.50f, 14.00f}, {12.00f, 13.30f}, {12.85f, 13.55f}, {10.15f, 12.05f}, {12.50f, 11.40f}}},
  {1, {{11.85f, 10.95f}, {10.55f, 11.50f}, {12.65f, 10.55f}, {12.15f, 13.20f}, {11.95f, 13.85f}}},
  {3, {{11.80f, 13.05f}, {13.60f, 12.05f}, {13.75f, 12.15f}, {13.40f, 10.20f}, {14.00f, 13.25f}}},
  {3, {{12.15f, 12.50f}, {12.30f, 10.05f}, {12.50f, 12.95f}, {12.65f, 13.70f}, {10.00f, 10.35f}}},
  {0, {{12.60f, 12.15f}, {11.95f, 10.45f}, {12.90f, 12.35f}, {13.15f, 12.75f}}},
  {2, {{11.50f, 12.45f}, {11.50f, 11.50f}, {11.60f, 10.95f}, {11.45f, 13.60f}, {10.05f, 12.80f}}},
  {0, {{13.85f, 13.75f}, {13.35f, 10.35f}, {13.65f, 11.10f}, {14.00f, 11.50f}}},
  {3, {{10.35f, 13.90f}, {10.80f, 12.75f}, {11.15f, 12.30f}, {12.10f, 10.90f}, {13.15f, 11.40f}}},
  {0, {{12.70f, 12.55f}, {10.10f, 10.50f}, {11.40f, 11.45f}, {13.25f, 11.50f}}},
  {2, {{13.10f, 12.80f}, {12.55f, 11.15f}, {13.70f, 13.10f}, {10.60f, 12.40f}, {10.20f, 12.20f}}},
  {2, {{11.90f, 11.20f}, {11.80f, 11.95f}, {10.10f, 10.30f}, {12.65f, 11.55f}, {12.35f, 13.90f}}},
  {3, {{12.60f, 10.05f}, {13.80f, 12.90f}, {13.25f, 12.20f}, {13.70f, 13.75f}, {12.65f, 11.30f}}},
  {1, {{12.25f, 11.60f}, {13.75f, 12.00f}, {10.60f, 11.20f}, {10.30f, 10.55f}, {12.25f, 12.15f}}},
  {1, {{14.00f, 12.55f}, {13.60f, 11.20f}, {13.55f, 10.20f}, {13.20f, 10.40f}, {12.00f, 10.80f}}},
  {0, {{11.10f, 12.80f}, {12.80f, 11.50f}, {12.15f, 12.05f}, {13.20f, 11.35f}}},
  {3, {{12.90f, 10.85f}, {12.25f, 13.85f}, {11.30f, 11.45f}, {11.75f, 13.05f}, {10.70f, 10.45f}}},
  {0, {{12.85f, 11.75f}, {11.85f, 10.15f}, {13.70f, 12.75f}, {13.05f, 11.70f}}},
  {1, {{13.70f, 12.70f}, {12.20f, 13.40f}, {10.95f, 13.50f}, {13.55f, 10.10f}, {11.05f, 13.40f}}},
  {2, {{11.20f, 11.90f}, {13.85f, 10.45f}, {12.00f, 13.30f}, {10.55f, 11.45f}, {13.35f, 10.55f}}},
  {1, {{10.80f, 13.85f}, {11.60f, 11.25f}, {11.75f, 11.65f}, {12.55f, 11.45f}, {11.45f, 12.20f}}},
  {1, {{10.25f, 12.50f}, {13.30f, 12.20f}, {12.20f, 12.45f}, {12.70f, 11.20f}, {13.25f, 10.40f}}},
  {1, {{10.90f, 12.60f}, {13.30f, 13.40f}, {10.40f, 12.55f}, {13.95f, 13.60f}, {11.80f, 13.40f}}},
  {1, {{12.20f, 12.60f}, {10.90f, 10.45f}, {11.70f, 11.30f}, {11.20f, 10.00f}, {12.05f, 12.00f}}},
  {2, {{12.05f, 11.35f}, {13.15f, 10.70f}, {12.35f, 11.80f}, {10.60f, 13.85f}, {10.00f, 11.60f}}},
  {1, {{10.85f, 13.60f}, {12.65f, 11.65f}, {13.60f, 11.05f}, {12.00f, 12.25f}, {10.80f, 12.60f}}},
  {3, {{13.40f, 11.40f}, {10.10f, 13.15f}, {11.30f, 12.20f}, {13.20f, 10.50f}, {12.15f, 12.55f}}},
  {2, {{11.15f, 11.85f}, {11.20f, 11.25f}, {12.10f, 13.05f}, {12.65f, 13.95f}, {10.00f, 10.35f}}},
  {1, {{12.50f, 10.50f}, {12.25f, 10.75f}, {10.55f, 11.50f}, {11.45f, 11.35f}, {10.00f, 12.50f}}},
  {0, {{11.80f, 12.50f}, {13.95f, 10.40f}, {11.50f, 12.95f}, {12.45f, 12.45f}}},
  {3, {{12.40f, 12.60f}, {12.70f, 12.90f}, {10.90f, 12.35f}, {13.90f, 13.30f}, {12.05f, 13.10f}}},
  {2, {{11.80f, 12.65f}, {13.65f, 13.60f}, {11.40f, 12.75f}, {14.00f, 11.50f}, {13.00f, 12.40f}}},
  {2, {{11.60f, 11.30f}, {10.90f, 12.00f}, {11.15f, 10.10f}, {12.40f, 11.80f}, {13.95f, 13.45f}}},
  {2, {{11.75f, 11.70f}, {13.20f, 10.75f}, {14.00f, 10.45f}, {10.05f, 13.25f}, {11.60f, 10.60f}}},
  {1, {{12.25f, 11.60f}, {10.80f, 11.35f}, {10.20f, 10.60f}, {13.05f, 11.90f}, {11.40f, 11.30f}}},
  {2, {{13.10f, 11.45f}, {12.65f, 11.60f}, {13.70f, 10.80f}, {13.70f, 13.25f}, {10.65f, 12.60f}}},
  {0, {{13.25f, 11.25f}, {11.30f, 13.15f}, {13.90f, 10.35f}, {10.75f, 13.70f}}},
  {3, {{13.15f, 13.85f}, {12.05f, 12.25f}, {11.45f, 11.25f}, {10.00f, 12.15f}, {11.80f, 10.95f}}},
  {1, {{11.85f, 11.45f}, {10.40f, 10.70f}, {12.55f, 11.50f}, {12.45f, 12.75f}, {11.75f, 13.90f}}},
  {3, {{10.15f, 11.40f}, {10.80f, 11.70f}, {13.60f, 13.25f}, {12.50f, 11.10f}, {12.25f, 10.30f}}},
  {2, {{13.20f, 12.70f}, {12.60f, 10.05f}, {13.50f, 13.55f}, {12.90f, 12.40f}, {11.45f, 10.45f}}},
  {0, {{10.75f, 10.80f}, {13.55f, 13.25f}, {12.55f, 12.75f}, {10.15f, 12.05f}}},
  {2, {{11.00f, 11.60f}, {11.90f, 11.30f}, {11.50f, 12.90f}, {10.20f, 10.00f}, {13.95f, 10.15f}}},
  {0, {{12.75f, 10.20f}, {12.40f, 11.20f}, {11.75f, 12.30f}, {11.40f, 13.90f}}},
  {1, {{12.35f, 13.20f}, {11.00f, 13.95f}, {13.50f, 11.95f}, {13.00f, 10.45f}, {13.95f, 12.95f}}},
  {0, {{10.15f, 10.30f}, {11.25f, 12.65f}, {10.80f, 12.05f}, {11.55f, 13.65f}}},
  {3, {{12.40f, 12.20f}, {11.70f, 10.35f}, {12.50f, 11.25f}, {13.25f, 11.75f}, {13.75f, 13.40f}}},
  {0, {{10.60f, 11.25f}, {10.85f, 11.40f}, {12.30f, 14.00f}, {11.15f, 11.80f}}},
  {0, {{11.45f, 10.60f}, {12.75f, 12.50f}, {11.00f, 10.05f}, {11.55f, 11.30f}}},
  {0, {{10.45f, 13.95f}, {11.70f, 12.65f}, {12.20f, 12.30f}, {12.95f, 11.25f}}},
  {0, {{13.55f, 13.60f}, {12.60f, 12.00f}, {12.45f, 11.50f}, {10.95f, 10.85f}}},
  {0, {{13.40f, 13.20f}, {11.65f, 12.25f}, {11.25f, 11.50f}, {10.90f, 11.10f}}}};
static const std::vector<Tri> kTopologies[] = {{{0, 1, 2}, {2, 1, 3}}, {{0, 1, 2}, {2, 3, 4}}, {{0, 1, 2}, {0, 2, 3}, {0, 3, 4}, {0, 4, 1}}, {{0, 1, 2}, {2, 1, 3}, {2, 3, 4}}};
PROP(as_meshes_quantized_joined) {
  int k = (int)ai_split(ai_i32(0, int(std::size(kJoined)) - 1, "mesh")), v = (int)ai_split(ai_i32(0, 2, "coding")); const Joined& j = kJoined[k]; std::vector<Tri> t = kTopologies[j.topology]; for (Tri& x : t) x = {x[v], x[(v + 1) % 3], x[(v + 2) % 3]}; int nv = j.topology == 0 ? 4 : 5; float off = v == 0 ? 0 : v == 1 ? 10 : -8, sx = v == 0 ? 1 : .5f, sy = v == 2 ? 4 : sx;
  F f = Fmt({{AT::kFloat2PackedIn1Float, AI::kPosition}}); Opt o(1); o[0] = CP{.components = {{.offset = off, .scale = sx}, {.offset = off, .scale = sy}}}; MutableMesh m(f); Point p[5]; for (int i = 0; i < nv; ++i) { p[i] = {off + sx * j.p[i].x, off + sy * j.p[i].y}; m.AppendVertex(p[i]); } for (const Tri& x : t) m.AppendTriangleIndices(x); auto r = m.AsMeshes(o); ai_assert(r.ok() && r->size() == 1 && (*r)[0].TriangleCount() == t.size(), "converted"); if (!r.ok() || r->size() != 1 || (*r)[0].TriangleCount() != t.size()) return;
  bool seen[5] = {}; Point at[5]; bool shared = true, flipped = false, near = true, grid = true; int moved = 0;
  for (size_t i = 0; i < t.size(); ++i) { Triangle g = (*r)[0].GetTriangle(i); Point w[3] = {g.p0, g.p1, g.p2}; flipped = flipped || g.SignedArea() < 0; for (int c = 0; c < 3; ++c) { int n = t[i][c]; Point d{(w[c].x - off) / sx, (w[c].y - off) / sy}; if (std::fabs(d.x - std::round(d.x)) > 1e-3f || std::fabs(d.y - std::round(d.y)) > 1e-3f) grid = false; d = {std::round(d.x), std::round(d.y)}; if (seen[n] && !(at[n] == d)) shared = false; if (!seen[n] && !(d == Point{std::round(j.p[n].x), std::round(j.p[n].y)})) ++moved; seen[n] = true; at[n] = d; if (std::fabs(d.x - j.p[n].x) > 1.001f || std::fabs(d.y - j.p[n].y) > 1.001f) near = false; } }
  ai_assert(grid, "on-the-quantization-grid"); ai_assert(near, "within-one-step"); ai_assert(shared, "shared-corner-stays-shared"); ai_assert(moved > 0 && moved <= 3, "few-corners-moved"); ai_assert(!flipped, "no-triangle-left-flipped"); }
