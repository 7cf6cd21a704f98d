// Packing of vertex attributes: bit layouts, coding parameters, errors, triangle indices and partitions.
#include "specs/common.h"
#include "ink/geometry/internal/mesh_packing.h"
#include "ink/geometry/mesh_format.h"
#include "ink/geometry/mesh_packing_types.h"
using namespace ink; using namespace ink::mesh_internal;
using F = MeshFormat; using AT = F::AttributeType; using AI = F::AttributeId; using IX = F::IndexFormat; using CP = MeshAttributeCodingParams; using CC = CP::ComponentCodingParams;
struct Row { AT t; int n, bytes; std::array<int, 4> bits; bool flt; };
static constexpr Row kPacked[] = {
  {AT::kFloat1PackedIn1UnsignedByte, 1, 1, {8}, false}, {AT::kFloat2PackedIn1Float, 2, 4, {12, 12}, true}, {AT::kFloat2PackedIn3UnsignedBytes_XY12, 2, 3, {12, 12}, false}, {AT::kFloat2PackedIn4UnsignedBytes_X12_Y20, 2, 4, {12, 20}, false},
  {AT::kFloat3PackedIn1Float, 3, 4, {8, 8, 8}, true}, {AT::kFloat3PackedIn2Floats, 3, 8, {16, 16, 16}, true}, {AT::kFloat3PackedIn4UnsignedBytes_XYZ10, 3, 4, {10, 10, 10}, false},
  {AT::kFloat4PackedIn1Float, 4, 4, {6, 6, 6, 6}, true}, {AT::kFloat4PackedIn2Floats, 4, 8, {12, 12, 12, 12}, true}, {AT::kFloat4PackedIn3Floats, 4, 12, {18, 18, 18, 18}, true}};
static constexpr AT kUnpacked[] = {AT::kFloat1Unpacked, AT::kFloat2Unpacked, AT::kFloat3Unpacked, AT::kFloat4Unpacked};
static const Row& AnyRow() { return kPacked[ai_split(ai_i32(0, 9, "type"))]; }
static CP Unit(int n) { return CP{.components = SmallArray<CC, 4>(n, {.offset = 0, .scale = 1})}; }
static uint32_t Max(int bits) { return (uint32_t(1) << bits) - 1; }
static const char* kN[] = {"a", "b", "c", "d"};
static const char* kIdx[] = {"a", "b", "c", "d", "e", "f"};
// The documented layout: the integers concatenated most significant bit first, in 24-bit groups for floats, 8-bit groups for bytes
static void Layout(const Row& r, const std::array<uint32_t, 4>& v, std::array<std::byte, 12>& out) {
  int group = r.flt ? 24 : 8, groups = r.flt ? r.bytes / 4 : r.bytes, pos = 0;
  std::array<uint32_t, 12> g{}; 
  for (int i = 0; i < r.n; ++i) { int left = r.bits[i]; while (left > 0) { int room = group - pos % group, k = left < room ? left : room; uint32_t piece = (v[i] >> (left - k)) & Max(k); g[pos / group] |= piece << (room - k); pos += k; left -= k; } }
  for (int j = 0; j < groups; ++j) if (r.flt) { float f = (float)g[j]; std::memcpy(&out[4 * j], &f, 4); } else out[j] = std::byte(g[j]);
}
PROP(pack_layout) {
  const Row& r = AnyRow(); SmallArray<float, 4> u(r.n); std::array<uint32_t, 4> v{}; for (int i = 0; i < r.n; ++i) { v[i] = (uint32_t)ai_bits(r.bits[i], kN[i]); u[i] = (float)v[i]; }
  std::array<std::byte, 12> got, want; for (auto& b : got) b = std::byte(0xA5); for (auto& b : want) b = std::byte(0xA5); PackAttribute(r.t, Unit(r.n), u, absl::MakeSpan(got.data(), r.bytes)); Layout(r, v, want);
  for (int j = 0; j < r.bytes; j += r.flt ? 4 : 1) if (r.flt) { float x, y; std::memcpy(&x, &got[j], 4); std::memcpy(&y, &want[j], 4); ai_ident_f(x, y, "documented-float-layout"); } else ai_ident_i((uint8_t)got[j], (uint8_t)want[j], "documented-byte-layout");
  for (int j = r.bytes; j < 12; ++j) ai_assert(got[j] == std::byte(0xA5), "nothing-written-past-the-attribute");
  auto w = UnpackIntegersFromPackedAttribute(r.t, absl::MakeConstSpan(want.data(), r.bytes)); ai_assert(w.Size() == r.n, "component-count"); if (w.Size() != r.n) return;
  for (int i = 0; i < r.n; ++i) ai_ident_i(w[i], v[i], "integers-recovered");
  auto x = UnpackAttribute(r.t, Unit(r.n), absl::MakeConstSpan(got.data(), r.bytes)); ai_assert(x.Size() == r.n, "component-count"); if (x.Size() != r.n) return; for (int i = 0; i < r.n; ++i) ai_ident_f(x[i], u[i], "identity-parameters-round-trip");
}
PROP(pack_leftover_bits_ignored) { std::array<std::byte, 4> b; for (int i = 0; i < 4; ++i) b[i] = std::byte(ai_u8(0, 255, kN[i])); auto w = UnpackIntegersFromPackedAttribute(AT::kFloat3PackedIn4UnsignedBytes_XYZ10, b); std::array<std::byte, 4> c = b; c[3] &= std::byte(0xFC); auto z = UnpackIntegersFromPackedAttribute(AT::kFloat3PackedIn4UnsignedBytes_XYZ10, c); for (int i = 0; i < 3; ++i) { ai_ident_i(w[i], z[i], "leftover-bits-ignored"); ai_assert(w[i] <= 1023, "integer-in-range"); } }
PROP(pack_integers_in_range) { const Row& r = AnyRow(); std::array<std::byte, 12> b; if (r.flt) for (int j = 0; j < r.bytes; j += 4) { float f = (float)(uint32_t)ai_bits(24, kN[j / 4]); std::memcpy(&b[j], &f, 4); } else for (int j = 0; j < r.bytes; ++j) b[j] = std::byte(ai_u8(0, 255, kN[j])); auto w = UnpackIntegersFromPackedAttribute(r.t, absl::MakeConstSpan(b.data(), r.bytes)); for (int i = 0; i < r.n && i < w.Size(); ++i) ai_assert(w[i] <= Max(r.bits[i]), "integer-in-range"); }
PROP(pack_unpacked_types) {
  int n = (int)ai_split(ai_i32(1, 4, "components")); AT t = kUnpacked[n - 1]; SmallArray<float, 4> u(n); for (int i = 0; i < n; ++i) u[i] = ai_f32(kN[i]);
  bool params = ai_bool("params"); CP p; if (params) p = CP{.components = SmallArray<CC, 4>(n, {.offset = 5, .scale = 3})};
  std::array<std::byte, 16> b; PackAttribute(t, p, u, absl::MakeSpan(b.data(), 4 * n)); for (int i = 0; i < n; ++i) { float x; std::memcpy(&x, &b[4 * i], 4); ai_ident_f(x, u[i], "stored-as-is"); }
  auto x = UnpackAttribute(t, p, absl::MakeConstSpan(b.data(), 4 * n)), y = ReadFloatsFromUnpackedAttribute(t, absl::MakeConstSpan(b.data(), 4 * n)); ai_assert(x.Size() == n && y.Size() == n, "component-count"); if (x.Size() != n || y.Size() != n) return; for (int i = 0; i < n; ++i) { ai_ident_f(x[i], u[i], "read-as-is"); ai_ident_f(y[i], u[i], "read-as-is"); }
}
// Each component uses its own parameters; rounding is to the nearest step
PROP(pack_components_independent) {
  const Row& r = AnyRow(); static constexpr float off[] = {-8, 3, 100, .5f}, sc[] = {.25f, 2, .125f, 4}; SmallArray<float, 4> u(r.n); CP p{.components = SmallArray<CC, 4>(r.n)}; std::array<uint32_t, 4> v{}; for (int i = 0; i < r.n; ++i) { v[i] = (uint32_t)ai_split(ai_u32(0, 3, kN[i])) * (Max(r.bits[i]) / 3); u[i] = off[i] + (float)v[i] * sc[i]; p.components[i] = {.offset = off[i], .scale = sc[i]}; }
  std::array<std::byte, 12> got{}, want{}; PackAttribute(r.t, p, u, absl::MakeSpan(got.data(), r.bytes)); Layout(r, v, want); for (int j = 0; j < r.bytes; ++j) ai_assert(got[j] == want[j], "packed-with-own-parameters");
  auto x = UnpackAttribute(r.t, p, absl::MakeConstSpan(want.data(), r.bytes)); for (int i = 0; i < r.n && i < x.Size(); ++i) ai_assert(x[i] == u[i], "unpacked-with-own-parameters");
}
static float Step() { static constexpr float k[] = {.25f, 1, 3, .0009765625f, 100}; return k[ai_split(ai_i32(0, 4, "scale"))]; }
PROP(pack_nearest) { float s = Step(), o = ai_f32_in(-1e3, 1e3, "offset"), v = ai_f32_in(-1e3, 1e3, "value"); CC c{.offset = o, .scale = s}; ai_assume(v >= o); uint32_t k = PackSingleFloat(c, v); ai_near((double)s * k + o, v, s * .5000001, "rounds-to-the-nearest-step"); }
PROP(unpack_affine) { float s = Step(), o = ai_f32_in(-1e3, 1e3, "offset"); CP p{.components = {{.offset = o, .scale = s}}}; uint8_t k = ai_u8(0, 255, "k"); std::byte raw{k}; auto x = UnpackAttribute(AT::kFloat1PackedIn1UnsignedByte, p, absl::MakeConstSpan(&raw, 1)); ai_same(x[0], (double)s * k + o, 1e-6, "unpacking-is-scale-times-integer-plus-offset"); }
// Coding parameters
template <bool tiny = false, class G> static void Params(const Row& r, G g) { MeshAttributeBounds b; b.minimum.Resize(r.n); b.maximum.Resize(r.n); g(b); auto p = ComputeCodingParams(r.t, b); ai_assert(p.ok(), "finite-range-accepted"); if (!p.ok()) return; ai_assert(p->components.Size() == r.n, "component-count"); if (p->components.Size() != r.n) return;
  for (int i = 0; i < r.n; ++i) { float m = b.minimum[i], M = b.maximum[i]; ai_ident_f(p->components[i].offset, m, "offset-is-minimum"); ai_assert(ai_and(ai_finite(p->components[i].scale), ai_flt(0, p->components[i].scale)), "scale-positive"); 
    if constexpr (!tiny) { if (M == m) ai_assert(p->components[i].scale == 1, "scale-one-for-empty-range"); else if (M - m >= 1e-20f) ai_same((double)p->components[i].scale * Max(r.bits[i]), (double)M - m, 1e-6, "scale-is-range-over-steps"); } } }
PROP(params_one_component) { const Row& r = AnyRow(); int k = (int)ai_split(ai_i32(0, r.n - 1, "component")); Params(r, [&](auto& b) { for (int i = 0; i < r.n; ++i) { b.minimum[i] = -float(i); b.maximum[i] = 2 + float(i); } float m = ai_f32_in(-1e38, 1e38, "min"), M = ai_f32_in(-1e38, 1e38, "max"); ai_assume(m <= M); b.minimum[k] = m; b.maximum[k] = M; }); }
PROP(params_tiny_ranges) { const Row& r = AnyRow(); Params<true>(r, [&](auto& b) { for (int i = 0; i < r.n; ++i) { b.minimum[i] = 0; b.maximum[i] = ai_f32_in(1e-45, 1e-30, kN[i]); } }); }
PROP(params_overflowing_range) { const Row& r = AnyRow(); int k = (int)ai_split(ai_i32(0, r.n - 1, "component")); MeshAttributeBounds b; b.minimum = SmallArray<float, 4>(r.n, -1); b.maximum = SmallArray<float, 4>(r.n, 1); b.minimum[k] = ai_f32_in(-kFMax, -2e38, "min"); b.maximum[k] = ai_f32_in(2e38, kFMax, "max"); ai_assert(!ComputeCodingParams(r.t, b).ok(), "overflowing-range-rejected"); }
PROP(params_unpacked) { int n = (int)ai_split(ai_i32(1, 4, "components")); MeshAttributeBounds b; bool given = ai_bool("given"); if (given) { b.minimum = SmallArray<float, 4>(n, ai_f32("m")); b.maximum = SmallArray<float, 4>(n, ai_f32("M")); } auto p = ComputeCodingParams(kUnpacked[n - 1], b); ai_assert(p.ok(), "bounds-ignored"); if (!p.ok()) return; ai_assert(p->components.Size() == n, "component-count"); for (int i = 0; i < p->components.Size(); ++i) ai_assert(p->components[i].offset == 0 && p->components[i].scale == 1, "identity-for-unpacked"); }
PROP(params_cover_range) { const Row& r = kPacked[ai_split(ai_i32(0, 3, "type"))]; float m = ai_f32_in(-1e3, 1e3, "min"), M = ai_f32_in(-1e3, 1e3, "max"); ai_assume(M - m >= 1); MeshAttributeBounds b; b.minimum = SmallArray<float, 4>(r.n, m); b.maximum = SmallArray<float, 4>(r.n, M); auto p = ComputeCodingParams(r.t, b); if (!p.ok()) return; for (int i = 0; i < r.n; ++i) { ai_near(PackSingleFloat(p->components[i], M), Max(r.bits[i]), 0, "maximum-packs-to-the-last-step"); ai_near(PackSingleFloat(p->components[i], m), 0, 0, "minimum-packs-to-zero"); } }
// Choice and validation of parameters for a whole format
static F Fmt() { auto f = F::Create(std::vector<std::pair<AT, AI>>{{AT::kFloat2PackedIn1Float, AI::kPosition}, {AT::kFloat1Unpacked, AI::kCustom0}, {AT::kFloat3PackedIn4UnsignedBytes_XYZ10, AI::kCustom1}}, IX::k16BitUnpacked16BitPacked); if (!f.ok()) ai_stop(); return *f; }
static AttributeBoundsArray Bnd() { AttributeBoundsArray b(3); int n[] = {2, 1, 3}; for (int i = 0; i < 3; ++i) { b[i].minimum = SmallArray<float, 4>(n[i], 0); b[i].maximum = SmallArray<float, 4>(n[i], 1023); } return b; }
using Opt = std::vector<std::optional<CP>>;
PROP(array_defaults) { F f = Fmt(); auto b = Bnd(); bool listed = ai_bool("listed"); Opt o(listed ? 3 : 0); auto p = ComputeCodingParamsArray(f, b, o); ai_assert(p.ok() && p->Size() == 3, "defaults-accepted"); if (!p.ok()) return; for (int i = 0; i < 3; ++i) { auto q = ComputeCodingParams(f.Attributes()[i].type, b[i]); ai_assert(q.ok() && (*p)[i].components.Size() == q->components.Size(), "default-for-each"); for (int j = 0; j < q->components.Size(); ++j) ai_assert((*p)[i].components[j].offset == q->components[j].offset && (*p)[i].components[j].scale == q->components[j].scale, "default-for-each"); } }
PROP(array_sizes) { F f = Fmt(); int n = (int)ai_split(ai_i32(0, 5, "bounds")), m = (int)ai_split(ai_i32(0, 5, "params")); AttributeBoundsArray b(n), g = Bnd(); for (int i = 0; i < n && i < 3; ++i) b[i] = g[i]; ai_assert(ComputeCodingParamsArray(f, b, Opt(m)).ok() == (n == 3 && (m == 0 || m == 3)), "sizes-must-match-the-format"); }
PROP(array_custom) { F f = Fmt(); auto b = Bnd(); int at = ai_bool("third") ? 2 : 0, n = at == 2 ? 3 : 2; float k[4], s[4]; CP c{.components = SmallArray<CC, 4>(n)}; for (int i = 0; i < n; ++i) { k[i] = ai_f32_in(-10, -5, "off"); s[i] = ai_f32_in(1.5, 2, "scale"); c.components[i] = {.offset = k[i], .scale = s[i]}; } if (at == 0) for (int i = 0; i < n; ++i) c.components[i].scale = s[i];
  Opt o(3); o[at] = c; auto p = ComputeCodingParamsArray(f, b, o); ai_assert(p.ok(), "representable-custom-parameters-accepted"); if (!p.ok()) return; for (int i = 0; i < n; ++i) { ai_ident_f((*p)[at].components[i].offset, c.components[i].offset, "custom-parameters-used"); ai_ident_f((*p)[at].components[i].scale, c.components[i].scale, "custom-parameters-used"); } auto q = ComputeCodingParams(f.Attributes()[2 - at].type, b[2 - at]); if (q.ok()) for (int i = 0; i < q->components.Size(); ++i) ai_assert((*p)[2 - at].components[i].scale == q->components[i].scale, "others-default"); }
PROP(array_custom_unpacked_rejected) { F f = Fmt(); auto b = Bnd(); Opt o(3); o[1] = Unit(1); ai_assert(!ComputeCodingParamsArray(f, b, o).ok(), "no-parameters-for-unpacked-attributes"); }
PROP(array_custom_components) { F f = Fmt(); auto b = Bnd(); Opt o(3); int n = (int)ai_split(ai_i32(0, 4, "n")); o[0] = Unit(n); ai_assert(ComputeCodingParamsArray(f, b, o).ok() == (n == 2), "component-count-must-match"); }
PROP(array_custom_finite) { F f = Fmt(); auto b = Bnd(); Opt o(3); o[0] = Unit(2); int c = (int)ai_split(ai_i32(0, 1, "component")); bool off = ai_bool("offset"); float x = ai_f32("x"); auto& q = o[0]->components[c]; if (off) { q.offset = x; if (ai_not(ai_finite(x))) ai_assert(!ComputeCodingParamsArray(f, b, o).ok(), "offset-finite"); } else { q.scale = x; if (ai_not(ai_and(ai_finite(x), ai_flt(0, x)))) ai_assert(!ComputeCodingParamsArray(f, b, o).ok(), "scale-finite-positive"); } }
PROP(array_custom_representable) { F f = Fmt(); int c = (int)ai_split(ai_i32(0, 1, "component")); bool low = ai_bool("low"); auto b = Bnd(); Opt o(3); o[0] = Unit(2); float x = ai_f32_in(-1e6, 1e6, "bound"); bool bad = ai_or(ai_fle(x, -.5), ai_fle(4095.5, x)), good = In(x, -.4999, 4095.4); if (low) { ai_assume(x <= 1023); b[0].minimum[c] = x; } else { ai_assume(x >= 0); b[0].maximum[c] = x; } if (bad) ai_assert(!ComputeCodingParamsArray(f, b, o).ok(), "unrepresentable-bounds-rejected"); else if (good) ai_assert(ComputeCodingParamsArray(f, b, o).ok(), "representable-bounds-accepted"); }
// Triangle indices
PROP(index_round_trip) { int stride = ai_bool("wide") ? 4 : 2; std::vector<std::byte> d(9 * stride); uint32_t v[9], top = stride == 4 ? 0xFFFFFFFFu : 0xFFFF; int order = (int)ai_split(ai_i32(0, 1, "order")); static const char* nm[] = {"a", "b", "c", "d", "e", "f", "g", "h", "i"}; for (int i = 0; i < 9; ++i) v[i] = ai_u32(0, top, nm[i]);
  for (int k = 0; k < 3; ++k) { int t = order ? 2 - k : k; WriteTriangleIndicesToByteArray(t, stride, absl::MakeConstSpan(v + 3 * t, 3), d); } for (int t = 0; t < 3; ++t) { auto r = ReadTriangleIndicesFromByteArray(t, stride, d); for (int j = 0; j < 3; ++j) ai_ident_i(r[j], v[3 * t + j], "triangle-indices-read-back"); }
  for (int i = 0; i < 9; ++i) { uint32_t x = 0; std::memcpy(&x, &d[i * stride], stride); ai_ident_i(x, v[i], "indices-stored-consecutively"); } ai_assert(d.size() == size_t(9 * stride), "size-unchanged"); }
// Reading unpacked attributes of every type
PROP(read_unpacked) {
  static constexpr AT all[] = {AT::kFloat1Unpacked, AT::kFloat1PackedIn1UnsignedByte, AT::kFloat2Unpacked, AT::kFloat2PackedIn1Float, AT::kFloat2PackedIn3UnsignedBytes_XY12, AT::kFloat2PackedIn4UnsignedBytes_X12_Y20, AT::kFloat3Unpacked, AT::kFloat3PackedIn1Float, AT::kFloat3PackedIn2Floats, AT::kFloat3PackedIn4UnsignedBytes_XYZ10, AT::kFloat4Unpacked, AT::kFloat4PackedIn1Float, AT::kFloat4PackedIn2Floats, AT::kFloat4PackedIn3Floats};
  AT t = all[ai_split(ai_i32(0, 13, "type"))]; int n = F::ComponentCount(t); auto f = F::Create(std::vector<std::pair<AT, AI>>{{AT::kFloat2PackedIn1Float, AI::kPosition}, {t, AI::kCustom1}, {AT::kFloat1Unpacked, AI::kTexture}}, IX::k16BitUnpacked16BitPacked); if (!f.ok()) return;
  int w = 2 + n + 1; std::vector<float> v(2 * w); for (auto& x : v) x = ai_f32("v"); std::vector<std::byte> b(8 * w); std::memcpy(b.data(), v.data(), 8 * w); int vi = (int)ai_split(ai_i32(0, 1, "vertex")), ai = (int)ai_split(ai_i32(0, 2, "attribute")); auto r = ReadUnpackedFloatAttributeFromByteArray(vi, ai, b, *f); int cnt = ai == 0 ? 2 : ai == 1 ? n : 1, at = ai == 0 ? 0 : ai == 1 ? 2 : 2 + n; ai_assert(r.Size() == cnt, "component-count"); for (int i = 0; i < cnt && i < r.Size(); ++i) ai_ident_f(r[i], v[vi * w + at + i], "attribute-read-from-its-place"); }

// Partitions
static void Partitions(const std::vector<std::array<uint32_t, 3>>& tris, bool wide, uint64_t max) {
  int s = wide ? 4 : 2; std::vector<std::byte> d(tris.size() * 3 * s); for (size_t t = 0; t < tris.size(); ++t) for (int j = 0; j < 3; ++j) std::memcpy(&d[(3 * t + j) * s], &tris[t][j], s);
  auto ps = PartitionTriangles(d, wide ? IX::k32BitUnpacked16BitPacked : IX::k16BitUnpacked16BitPacked, max); size_t k = 0, distinct = 0;
  for (auto& p : ps) {
    ai_assert(p.vertex_indices.size() <= max, "partition-within-the-vertex-limit"); distinct += p.vertex_indices.size();
    for (size_t i = 0; i < p.vertex_indices.size(); ++i) { for (size_t j = 0; j < i; ++j) ai_assert(p.vertex_indices[i] != p.vertex_indices[j], "vertices-of-a-partition-distinct"); bool used = false; for (auto& t : p.triangles) for (uint32_t v : t) used = used || v == i; ai_assert(used, "every-vertex-referenced"); }
    for (auto& t : p.triangles) { ai_assert(k < tris.size(), "every-triangle-once-and-in-order"); if (k >= tris.size()) return; for (int j = 0; j < 3; ++j) { ai_assert(t[j] < p.vertex_indices.size(), "local-index-in-range"); if (t[j] >= p.vertex_indices.size()) return; ai_assert(p.vertex_indices[t[j]] == tris[k][j], "every-triangle-once-and-in-order"); } ++k; }
  }
  ai_assert(k == tris.size(), "every-triangle-once-and-in-order"); size_t n = 0; for (size_t i = 0; i < 3 * tris.size(); ++i) { bool first = true; for (size_t j = 0; j < i; ++j) first = first && tris[j / 3][j % 3] != tris[i / 3][i % 3]; n += first; }
  bool proper = true; for (auto& t : tris) proper = proper && t[0] != t[1] && t[1] != t[2] && t[0] != t[2]; if (proper && n <= max) ai_assert(ps.size() == 1, "one-partition-when-all-fits");
}
PROP(partition_two_triangles) { int m = (int)ai_split(ai_i32(0, 3, "max")); bool wide = m & 1; std::vector<std::array<uint32_t, 3>> t(2); uint32_t top = 0; for (int i = 0; i < 6; ++i) { uint32_t v = (uint32_t)ai_split(ai_u32(0, top, kIdx[i])); if (v == top) ++top; t[i / 3][i % 3] = (7 - v) * (wide ? 0x10001 : 0x1001); } Partitions(t, wide, 3 + m); }
PROP(partition_several_triangles) { static constexpr uint32_t next[][3] = {{0, 1, 2}, {2, 1, 3}, {3, 4, 0}, {3, 4, 5}, {5, 4, 1}, {7, 0, 6}, {6, 7, 8}, {4, 4, 2}}; std::vector<std::array<uint32_t, 3>> t(4); t[0] = t[3] = {0, 1, 2}; t[3][2] = 9; int q = (int)ai_split(ai_i32(0, 7, "second")), r = (int)ai_split(ai_i32(0, 7, "third")); for (int j = 0; j < 3; ++j) { t[1][j] = next[q][j]; t[2][j] = next[r][j]; } Partitions(t, true, 3 + (uint64_t)ai_split(ai_u32(0, 4, "max"))); }
PROP(partition_none) { std::vector<std::byte> d; auto p = PartitionTriangles(d, ai_bool("wide") ? IX::k32BitUnpacked16BitPacked : IX::k16BitUnpacked16BitPacked, 65536); for (auto& q : p) ai_assert(q.triangles.empty() && q.vertex_indices.empty(), "no-triangles-no-content"); }
// Copying one partition into packed form
PROP(copy_partition) {
  auto f = F::Create(std::vector<std::pair<AT, AI>>{{AT::kFloat1PackedIn1UnsignedByte, AI::kCustom0}, {AT::kFloat2PackedIn1Float, AI::kPosition}, {AT::kFloat3Unpacked, AI::kCustom1}, {AT::kFloat2PackedIn3UnsignedBytes_XY12, AI::kCustom2}}, IX::k32BitUnpacked16BitPacked); if (!f.ok()) return;
  static constexpr int off[] = {0, 1, 3, 6}, len[] = {1, 2, 3, 2}, bytes[] = {1, 4, 12, 3}; static const AI id[] = {AI::kCustom0, AI::kPosition, AI::kCustom1, AI::kCustom2};
  float v[3][8]; std::vector<std::byte> raw(96); for (int i = 0; i < 3; ++i) { for (int j = 0; j < 8; ++j) v[i][j] = j >= 3 && j < 6 ? ai_f32("custom") : float(5 * i + j); std::memcpy(&raw[32 * i], v[i], 32); }
  int n = (int)ai_split(ai_i32(1, 2, "vertices")); std::vector<uint32_t> sel(n); for (auto& x : sel) x = (uint32_t)ai_split(ai_u32(0, 2, "selected"));
  bool omit[4]; int kept = 0; absl::flat_hash_set<AI> om; int mask = (int)ai_split(ai_i32(0, 7, "omit")); omit[0] = mask & 1; omit[1] = false; omit[2] = mask & 2; omit[3] = mask & 4; for (int i = 0; i < 4; ++i) if (omit[i]) om.insert(id[i]); else ++kept;
  CodingParamsArray cp(kept); int at = 0; for (int i = 0; i < 4; ++i) if (!omit[i]) { cp[at] = Unit(len[i]); for (int j = 0; j < len[i]; ++j) cp[at].components[j].scale = i == 0 ? .5f : 1; ++at; }
  absl::flat_hash_map<uint32_t, Point> over; bool has = ai_bool("override"); uint32_t which = 1; if (has) over.insert({which, Point{77, 88}});
  auto got = CopyAndPackPartitionVertices(raw, sel, *f, om, cp, over); size_t stride = 0; for (int i = 0; i < 4; ++i) if (!omit[i]) stride += bytes[i]; ai_assert(got.size() == stride * n, "packed-size"); if (got.size() != stride * n) return;
  for (int k = 0; k < n; ++k) { size_t pos = stride * k; for (int i = 0, a = 0; i < 4; ++i) { if (omit[i]) continue; auto x = UnpackAttribute(f->Attributes()[i].type, cp[a++], absl::MakeConstSpan(&got[pos], bytes[i])); pos += bytes[i]; for (int j = 0; j < len[i] && j < x.Size(); ++j) if (i == 1 && has && sel[k] == which) ai_assert(x[j] == (j ? 88 : 77), "override-position-used"); else ai_ident_f(x[j], v[sel[k]][off[i] + j], "selected-vertices-packed-in-order"); } }
}
