// Mesh formats: what is accepted, how vertices are laid out, and the tables describing each attribute type.
#include "specs/common.h"
#include "ink/geometry/mesh_format.h"
using namespace ink;
using F = MeshFormat; using AT = F::AttributeType; using AI = F::AttributeId; using IX = F::IndexFormat;
using Spec = std::vector<std::pair<AT, AI>>;
// The documentation of AttributeType, transcribed: components, packed bytes, bits of each component, packed into floats?
struct Row { AT t; int n, bytes; std::array<int, 4> bits; bool flt; };
static constexpr Row kRows[] = {
  {AT::kFloat1Unpacked, 1, 4, {}, false}, {AT::kFloat1PackedIn1UnsignedByte, 1, 1, {8}, false},
  {AT::kFloat2Unpacked, 2, 8, {}, false}, {AT::kFloat2PackedIn1Float, 2, 4, {12, 12}, true}, {AT::kFloat2PackedIn3UnsignedBytes_XY12, 2, 3, {12, 12}, false}, {AT::kFloat2PackedIn4UnsignedBytes_X12_Y20, 2, 4, {12, 20}, false},
  {AT::kFloat3Unpacked, 3, 12, {}, false}, {AT::kFloat3PackedIn1Float, 3, 4, {8, 8, 8}, true}, {AT::kFloat3PackedIn2Floats, 3, 8, {16, 16, 16}, true}, {AT::kFloat3PackedIn4UnsignedBytes_XYZ10, 3, 4, {10, 10, 10}, false},
  {AT::kFloat4Unpacked, 4, 16, {}, false}, {AT::kFloat4PackedIn1Float, 4, 4, {6, 6, 6, 6}, true}, {AT::kFloat4PackedIn2Floats, 4, 8, {12, 12, 12, 12}, true}, {AT::kFloat4PackedIn3Floats, 4, 12, {18, 18, 18, 18}, true}};
static const Row& R(AT t) { for (auto& r : kRows) if (r.t == t) return r; return kRows[0]; }
static const Row& AnyRow(const char* n) { return kRows[ai_split(ai_i32(0, 13, n))]; }
static bool NamedType(int t) { return ai_and(ai_ile(0, t), ai_ile(t, 13)); }
static bool NamedId(int t) { return ai_and(ai_ile(0, t), ai_ile(t, 18)); }
static AI Id(int k) { return static_cast<AI>(k); }
static IX Ix(const char* n) { return ai_bool(n) ? IX::k16BitUnpacked16BitPacked : IX::k32BitUnpacked16BitPacked; }
static bool Accepts(const Spec& s) { return F::Create(s, IX::k32BitUnpacked16BitPacked).ok(); }
PROP(format_tables) {
  const Row& r = AnyRow("type");
  ai_assert(F::ComponentCount(r.t) == r.n, "component-count"); ai_assert(F::UnpackedAttributeSize(r.t) == 4 * r.n, "unpacked-size"); ai_assert(F::PackedAttributeSize(r.t) == r.bytes, "packed-size"); ai_assert(F::IsPackedAsFloat(r.t) == r.flt, "packed-as-float");
  auto b = F::PackedBitsPerComponent(r.t); ai_assert(b.has_value() == (r.bits[0] != 0) && F::IsUnpackedType(r.t) == (r.bits[0] == 0), "packed-or-not");
  if (!b.has_value()) return;
  ai_assert(b->Size() == r.n, "bits-per-component-count"); if (b->Size() != r.n) return; int sum = 0; for (int i = 0; i < r.n; ++i) { ai_assert((*b)[i] == r.bits[i], "bits-per-component"); sum += r.bits[i]; }
  ai_assert(sum <= (r.flt ? 6 : 8) * r.bytes, "bits-fit");
}
PROP(format_index_size) { ai_assert(F::UnpackedIndexSize(IX::k16BitUnpacked16BitPacked) == 2 && F::UnpackedIndexSize(IX::k32BitUnpacked16BitPacked) == 4, "index-size"); IX x = Ix("ix"); auto f = F::Create(Spec{{AT::kFloat2Unpacked, AI::kPosition}}, x); ai_assert(f.ok(), "index-format-accepted"); if (!f.ok()) return; ai_assert(f->GetIndexFormat() == x && f->UnpackedIndexStride() == F::UnpackedIndexSize(x), "index-stride"); }
PROP(format_default) { F f; ai_assert(f.Attributes().size() == 1 && f.Attributes()[0].type == AT::kFloat2Unpacked && f.Attributes()[0].id == AI::kPosition && f.GetIndexFormat() == IX::k32BitUnpacked16BitPacked && f.PositionAttributeIndex() == 0 && f.PackedVertexStride() == 8 && f.UnpackedVertexStride() == 8 && f.UnpackedIndexStride() == 4, "default-format"); ai_assert(F::MaxAttributes() >= 9, "room-for-every-built-in-attribute"); }
// Acceptance: one element arbitrary, the rest valid
PROP(format_type_named) { int t = ai_u8(0, 255, "type"); IFF(NamedType(t), Accepts({{AT::kFloat2Unpacked, AI::kPosition}, {static_cast<AT>(t), AI::kOpacityShift}}), "named-type"); }
PROP(format_id_named) { int k = ai_u8(0, 127, "id"); IFF(ai_and(NamedId(k), ai_not(ai_ieq(k, 0))), Accepts({{AT::kFloat2Unpacked, AI::kPosition}, {AT::kFloat1Unpacked, Id(k)}}), "named-id-other-than-position"); }
PROP(format_ids_distinct) { int a = (int)ai_split(ai_u8(1, 18, "a")), b = (int)ai_split(ai_u8(1, 18, "b")); IFF(ai_not(ai_ieq(a, b)), Accepts({{AT::kFloat1Unpacked, Id(a)}, {AT::kFloat2Unpacked, AI::kPosition}, {AT::kFloat3Unpacked, Id(b)}}), "no-repeated-id"); IFF(ai_not(ai_ieq(a, b)), Accepts({{AT::kFloat2Unpacked, AI::kPosition}, {AT::kFloat1Unpacked, Id(a)}, {AT::kFloat3Unpacked, Id(b)}}), "no-repeated-adjacent-id"); }
PROP(format_position_twice) { ai_assert(!Accepts({{AT::kFloat2Unpacked, AI::kPosition}, {AT::kFloat2Unpacked, AI::kPosition}}), "one-position"); ai_assert(!Accepts({{AT::kFloat2Unpacked, AI::kPosition}, {AT::kFloat1Unpacked, AI::kCustom0}, {AT::kFloat2Unpacked, AI::kPosition}}), "one-position-apart"); }
PROP(format_position_needed) { int a = ai_u8(1, 18, "a"); const Row& r = AnyRow("type"); ai_assert(!Accepts({{r.t, Id(a)}}), "position-needed"); ai_assert(!Accepts({}), "empty-rejected"); }
PROP(format_position_two_components) { const Row& r = AnyRow("type"); bool first = ai_bool("first"); Spec s = first ? Spec{{r.t, AI::kPosition}, {AT::kFloat3Unpacked, AI::kCustom1}} : Spec{{AT::kFloat3Unpacked, AI::kCustom1}, {r.t, AI::kPosition}}; ai_assert(Accepts(s) == (r.n == 2), "position-has-two-components"); }
// Layout of every format of up to three attributes
static void Laid(const F& f, const Spec& s, IX x, const char* id) {
  auto a = f.Attributes(); ai_assert(a.size() == s.size(), id); if (a.size() != s.size()) return; int u = 0, p = 0, pos = -1;
  for (size_t i = 0; i < s.size(); ++i) { const Row& r = R(s[i].first); ai_assert(a[i].type == s[i].first && a[i].id == s[i].second, id); ai_assert(a[i].unpacked_offset == u && a[i].packed_offset == p && a[i].unpacked_width == 4 * r.n && a[i].packed_width == r.bytes, "attributes-tightly-packed"); u += 4 * r.n; p += r.bytes; if (s[i].second == AI::kPosition) pos = (int)i; }
  ai_assert(f.UnpackedVertexStride() == u && f.PackedVertexStride() == p, "stride-is-sum-of-widths"); ai_assert(f.PositionAttributeIndex() == pos, "position-index"); ai_assert(f.GetIndexFormat() == x && f.UnpackedIndexStride() == (x == IX::k16BitUnpacked16BitPacked ? 2 : 4), "index-format-kept");
}
static Spec AnySpec(int n) { int at = n == 1 ? 0 : (int)ai_split(ai_i32(0, n - 1, "position at")); Spec s; for (int i = 0; i < n; ++i) { if (i == at) { AT p[] = {AT::kFloat2Unpacked, AT::kFloat2PackedIn1Float, AT::kFloat2PackedIn3UnsignedBytes_XY12, AT::kFloat2PackedIn4UnsignedBytes_X12_Y20}; s.push_back({p[ai_split(ai_i32(0, 3, "position type"))], AI::kPosition}); } else s.push_back({AnyRow("type").t, Id(i + 1 + 4 * at)}); } return s; }
static F Made(const Spec& s, IX x) { auto f = F::Create(s, x); ai_assert(f.ok(), "valid-format-accepted"); if (!f.ok()) ai_stop(); return *f; }
PROP(format_layout_1) { Spec s = AnySpec(1); IX x = Ix("ix"); Laid(Made(s, x), s, x, "attributes-in-order"); }
PROP(format_layout_2) { Spec s = AnySpec(2); IX x = Ix("ix"); Laid(Made(s, x), s, x, "attributes-in-order"); }
#ifdef AI_THOROUGH
PROP(format_layout_3) { Spec s = AnySpec(3); Laid(Made(s, IX::k16BitUnpacked16BitPacked), s, IX::k16BitUnpacked16BitPacked, "attributes-in-order"); }
#endif
static Spec Long(size_t n) { Spec s; for (size_t k = 0; k < n; ++k) s.push_back({k == 0 ? AT::kFloat2PackedIn4UnsignedBytes_X12_Y20 : kRows[(k + n) % 14].t, Id(int(k))}); std::swap(s[0], s[n / 2]); return s; }
PROP(format_layout_all) { size_t n = F::MaxAttributes(); ai_assert(n <= 19, "maximum-is-reachable"); if (n > 19) return; Spec s = Long(n); Laid(Made(s, IX::k32BitUnpacked16BitPacked), s, IX::k32BitUnpacked16BitPacked, "attributes-in-order"); if (n < 19) ai_assert(!Accepts(Long(n + 1)), "more-than-the-maximum-rejected"); }
// Removal of attributes
PROP(format_without) {
  Spec s{{AT::kFloat3PackedIn1Float, AI::kCustom3}, {AT::kFloat2PackedIn1Float, AI::kPosition}, {AT::kFloat4Unpacked, AI::kSideLabel}, {AT::kFloat1PackedIn1UnsignedByte, AI::kOpacityShift}}; IX x = Ix("ix"); F f = Made(s, x);
  int m = (int)ai_split(ai_i32(0, 7, "removed")); bool rev = ai_bool("reversed"), twice = ai_bool("twice"); std::vector<AI> rm; Spec keep; int j = 0; for (auto& a : s) { if (a.second == AI::kPosition) keep.push_back(a); else { if (m >> j & 1) rm.push_back(a.second); else keep.push_back(a); ++j; } }
  if (rev) rm = std::vector<AI>(rm.rbegin(), rm.rend()); if (twice && !rm.empty()) rm.push_back(rm[0]);
  auto g = f.WithoutAttributes(rm); ai_assert(g.ok(), "removal-accepted"); if (!g.ok()) return; Laid(*g, keep, x, "others-kept-in-order"); Laid(f, s, x, "original-unchanged");
}
PROP(format_without_rejected) {
  F f = Made({{AT::kFloat3PackedIn1Float, AI::kCustom3}, {AT::kFloat2PackedIn1Float, AI::kPosition}, {AT::kFloat1Unpacked, AI::kTexture}}, IX::k16BitUnpacked16BitPacked); int k = (int)ai_split(ai_u8(0, 127, "id")); bool other = ai_bool("other");
  std::vector<AI> rm{Id(k)}; if (other) rm = {AI::kCustom3, Id(k)}; IFF(k == 12 || k == 3, f.WithoutAttributes(rm).ok(), "only-present-non-position-removable");
}
// Equivalence and equality
static bool SameType(const Spec& a, const Spec& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (a[i] != b[i]) return false; return true; }
static bool SameUnpacked(const Spec& a, const Spec& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (a[i].second != b[i].second || R(a[i].first).n != R(b[i].first).n) return false; return true; }
static void Compare(const Spec& s, IX x, const Spec& t, IX y) {
  F f = Made(s, x), g = Made(t, y); ai_assert(F::IsPackedEquivalent(f, g) == SameType(s, t) && F::IsPackedEquivalent(g, f) == SameType(s, t), "packed-equivalence"); ai_assert(F::IsUnpackedEquivalent(f, g) == SameUnpacked(s, t) && F::IsUnpackedEquivalent(g, f) == SameUnpacked(s, t), "unpacked-equivalence");
  bool e = SameType(s, t) && x == y; ai_assert((f == g) == e && (g == f) == e && (f != g) == !e, "equality-compares-attributes-and-index-format"); if (e) SameHash(f, g, "equal-formats-hash-equal"); F c = f; ai_assert(c == f, "copy-equal");
}
PROP(format_compare_types) { AT a = AnyRow("a").t, b = AnyRow("b").t; Compare({{AT::kFloat2Unpacked, AI::kPosition}, {a, AI::kCustom0}}, IX::k16BitUnpacked16BitPacked, {{AT::kFloat2Unpacked, AI::kPosition}, {b, AI::kCustom0}}, IX::k16BitUnpacked16BitPacked); }
static Spec Sample(const char* n) { const Spec v[] = {{{AT::kFloat2Unpacked, AI::kPosition}}, {{AT::kFloat2PackedIn1Float, AI::kPosition}}, {{AT::kFloat2Unpacked, AI::kPosition}, {AT::kFloat2Unpacked, AI::kCustom1}}, {{AT::kFloat2Unpacked, AI::kCustom1}, {AT::kFloat2Unpacked, AI::kPosition}}, {{AT::kFloat2Unpacked, AI::kPosition}, {AT::kFloat2Unpacked, AI::kCustom2}}, {{AT::kFloat2Unpacked, AI::kPosition}, {AT::kFloat1Unpacked, AI::kCustom1}}, {{AT::kFloat2Unpacked, AI::kPosition}, {AT::kFloat1Unpacked, AI::kCustom1}, {AT::kFloat1Unpacked, AI::kCustom2}}, {{AT::kFloat2Unpacked, AI::kPosition}, {AT::kFloat1Unpacked, AI::kCustom2}, {AT::kFloat1Unpacked, AI::kCustom1}}}; return v[ai_split(ai_i32(0, 7, n))]; }
PROP(format_compare) { Spec a = Sample("first"), b = Sample("second"); IX x = Ix("x"), y = Ix("y"); Compare(a, x, b, y); }
// Names are distinct
PROP(format_names) {
  std::vector<std::string> n; for (auto& r : kRows) n.push_back(mesh_internal::ToFormattedString(r.t)); for (int k = 0; k < 19; ++k) n.push_back(mesh_internal::ToFormattedString(Id(k))); n.push_back(mesh_internal::ToFormattedString(IX::k16BitUnpacked16BitPacked)); n.push_back(mesh_internal::ToFormattedString(IX::k32BitUnpacked16BitPacked));
  bool d = true; for (size_t i = 0; i < n.size(); ++i) for (size_t j = 0; j < i; ++j) d = d && n[i] != n[j]; ai_assert(d, "names-distinct");
}
