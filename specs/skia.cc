// Uniform values, mesh specifications, textures and mesh drawables of the native Skia renderer, against recording models of Skia's own types.
#include <cstring>
#include <memory>
#include <vector>
#include "specs/common.h"
#include "include/core/SkMesh.h"
#include "ink/brush/brush_paint.h"
#include "ink/color/color.h"
#include "ink/rendering/bitmap.h"
#include "ink/rendering/skia/common_internal/mesh_specification_data.h"
#include "ink/rendering/skia/native/internal/create_mesh_specification.h"
#include "ink/rendering/skia/native/internal/mesh_drawable.h"
#include "ink/rendering/skia/native/internal/mesh_uniform_data.h"
#include "ink/rendering/skia/native/internal/shader_cache.h"
#include "ink/rendering/texture_bitmap_store.h"
#include "ink/strokes/input/stroke_input_batch.h"
#include "ink/types/uri.h"
using namespace ink; using namespace ink::skia_native_internal;
using D = skia_common_internal::MeshSpecificationData; using U = D::UniformId; using S = SkMeshSpecification; using UT = S::Uniform::Type;
using F = MeshFormat; using AT = F::AttributeType; using AI = F::AttributeId;
namespace {
struct Un { std::string_view name; UT t; };
struct Known { U id; UT t; };
constexpr Known kKnown[] = {{U::kObjectToCanvasLinearComponent, UT::kFloat4}, {U::kBrushColor, UT::kFloat4}, {U::kPositionUnpackingTransform, UT::kFloat4}, {U::kSideDerivativeUnpackingTransform, UT::kFloat4}, {U::kForwardDerivativeUnpackingTransform, UT::kFloat4}, {U::kTextureMapping, UT::kInt}};
Un Of(int k) { return {D::GetUniformName(kKnown[k].id), kKnown[k].t}; }
sk_sp<S> Spec(const std::vector<Un>& l) { sk_sp<S> s(new S); for (const Un& u : l) { S::Uniform x; x.name = u.name; x.type = u.t; x.offset = s->usize; s->usize += u.t == UT::kInt ? 4 : 16; s->unis.push_back(x); } return s; }
// three orders of all uniforms, one of them with others in between
std::vector<Un> Order(int k) { if (k == 0) return {Of(0), Of(1), Of(2), Of(3), Of(4), Of(5)}; if (k == 1) return {Of(5), Of(4), Of(1), Of(3), Of(0), Of(2)}; return {{"uOther", UT::kInt}, Of(1), {"uMore", UT::kFloat4}, Of(5), Of(3), Of(2), Of(4), Of(0)}; }
int Pick(int n, const char* what) { return (int)ai_split(ai_i32(0, n - 1, what)); }
size_t At(const S& s, U id) { return s.findUniform(D::GetUniformName(id))->offset; }
float Fl(const SkData& d, size_t o) { float v; std::memcpy(&v, d.bytes() + o, 4); return v; }
int In4(const SkData& d, size_t o) { int v; std::memcpy(&v, d.bytes() + o, 4); return v; }
struct V4 { float v[4]; };
void Holds(const SkData& d, size_t o, V4 w, const char* id) { for (int i = 0; i < 4; ++i) ai_ident_f(Fl(d, o + 4 * i), w.v[i], id); }
MeshAttributeCodingParams Coding(int n, const char* what) { MeshAttributeCodingParams p; p.components.Resize(n); for (int i = 0; i < n; ++i) p.components[i] = {Fin(what), Fin(what)}; return p; }
Color Any(const char* what) { return Color::FromFloat(ai_f32_in(0, 1, what), ai_f32_in(0, 1, what), ai_f32_in(0, 1, what), ai_f32_in(0, 1, what), Color::Format::kLinear, Pick(2, "space") ? ColorSpace::kDisplayP3 : ColorSpace::kSrgb); }
V4 Expect(const Color& c) { auto r = c.InColorSpace(ColorSpace::kSrgb).AsFloat(Color::Format::kLinear); return {{r.r, r.g, r.b, r.a}}; }
AffineTransform Xf() { return AffineTransform(Fin("a"), Fin("b"), Fin("c"), Fin("d"), Fin("e"), Fin("f")); }
V4 Linear(const AffineTransform& t) { return {{t.A(), t.D(), t.B(), t.E()}}; }   // columns of the linear part
struct Unpack { AI id; U u; };
constexpr Unpack kUnpack[] = {{AI::kPosition, U::kPositionUnpackingTransform}, {AI::kSideDerivative, U::kSideDerivativeUnpackingTransform}, {AI::kForwardDerivative, U::kForwardDerivativeUnpackingTransform}};
V4 Params(const MeshAttributeCodingParams& p) { return {{p.components[0].offset, p.components[0].scale, p.components[1].offset, p.components[1].scale}}; }
F Format(int k) { using P = std::vector<std::pair<AT, AI>>; P a = {{AT::kFloat1Unpacked, AI::kCustom0}, {AT::kFloat2PackedIn1Float, AI::kPosition}, {AT::kFloat1PackedIn1UnsignedByte, AI::kSideLabel}, {AT::kFloat2Unpacked, AI::kSideDerivative}, {AT::kFloat2Unpacked, AI::kForwardDerivative}}; P b = {{AT::kFloat2Unpacked, AI::kForwardDerivative}, {AT::kFloat2Unpacked, AI::kSideDerivative}, {AT::kFloat2PackedIn1Float, AI::kPosition}, {AT::kFloat2Unpacked, AI::kSurfaceUv}}; auto f = F::Create(k ? b : a, F::IndexFormat::k32BitUnpacked16BitPacked); if (!f.ok()) ai_stop(); return *f; }
}
PROP(uniforms_values) {
  auto s = Spec(Order(Pick(3, "order"))); MeshUniformData m(*s); Color c = Any("color"); AffineTransform t = Xf(); auto map = Pick(2, "mapping") ? BrushPaint::TextureMapping::kWinding : BrushPaint::TextureMapping::kTiling;
  ai_assert(m.HasBrushColor() && m.HasTextureMapping() && m.HasObjectToCanvasLinearComponent(), "known-uniforms-found");
  int first = Pick(3, "first"); for (int k = 0; k < 3; ++k) switch ((first + k) % 3) { case 0: m.SetBrushColor(c); break; case 1: m.SetTextureMapping(map); break; default: m.SetObjectToCanvasLinearComponent(t); }
  auto d = m.Get(); ai_assert(d.get() && d->size() == s->uniformSize(), "data-has-the-size-of-the-uniforms"); if (!d.get()) return;
  Holds(*d, At(*s, U::kBrushColor), Expect(c), "brush-color-is-linear-srgb"); Holds(*d, At(*s, U::kObjectToCanvasLinearComponent), Linear(t), "object-to-canvas-columns"); ai_assert(In4(*d, At(*s, U::kTextureMapping)) == (int)map, "texture-mapping");
}
PROP(uniforms_snapshots) {
  auto s = Spec(Order(Pick(3, "order"))); MeshUniformData m(*s); Color c = Color::Green(); AffineTransform t(1, 2, 3, 4, 5, 6); m.SetBrushColor(c); m.SetObjectToCanvasLinearComponent(t); m.SetTextureMapping(BrushPaint::TextureMapping::kWinding);
  auto old = m.Get(); MeshUniformData copy = m; Color c2 = Any("color"); AffineTransform t2 = Xf(); int k = Pick(3, "setter"); if (k == 0) m.SetBrushColor(c2); else if (k == 1) m.SetObjectToCanvasLinearComponent(t2); else m.SetTextureMapping(BrushPaint::TextureMapping::kTiling);
  auto check = [&](const SkData& d, bool changed, const char* id) { Holds(d, At(*s, U::kBrushColor), Expect(changed && k == 0 ? c2 : c), id); Holds(d, At(*s, U::kObjectToCanvasLinearComponent), Linear(changed && k == 1 ? t2 : t), id); ai_assert(In4(d, At(*s, U::kTextureMapping)) == (int)(changed && k == 2 ? BrushPaint::TextureMapping::kTiling : BrushPaint::TextureMapping::kWinding), id); };
  check(*old, false, "returned-data-never-changes"); check(*copy.Get(), false, "copies-are-independent"); check(*m.Get(), true, "one-setter-one-uniform");
}
PROP(uniforms_unpacking) {
  auto s = Spec(Order(Pick(3, "order"))); F f = Format(Pick(2, "format")); std::vector<MeshAttributeCodingParams> p; for (auto& a : f.Attributes()) p.push_back(Coding(F::ComponentCount(a.type), "coding"));
  MeshUniformData m(*s, f.Attributes(), [&](int i) -> const MeshAttributeCodingParams& { return p[i]; }); auto d = m.Get(); ai_assert(d.get() && d->size() == s->uniformSize(), "data-has-the-size-of-the-uniforms"); if (!d.get()) return;
  for (size_t i = 0; i < f.Attributes().size(); ++i) for (const Unpack& u : kUnpack) if (u.id == f.Attributes()[i].id) Holds(*d, At(*s, u.u), Params(p[i]), "unpacking-parameters-of-the-attribute");
  ai_assert(m.HasBrushColor() && m.HasTextureMapping() && m.HasObjectToCanvasLinearComponent(), "known-uniforms-found"); auto before = m.Get(); m.SetBrushColor(Color::Red()); d = m.Get(); for (size_t i = 0; i < f.Attributes().size(); ++i) for (const Unpack& u : kUnpack) if (u.id == f.Attributes()[i].id) Holds(*d, At(*s, u.u), Params(p[i]), "unpacking-survives-setters");
}
PROP(uniforms_absent) {   // any subset, or with an unexpected type
  bool has[3]; std::vector<Un> l = {{"uFirst", UT::kFloat4}}; constexpr int kWhich[] = {0, 1, 5}; for (int i = 0; i < 3; ++i) { int k = Pick(3, "presence"); has[i] = k == 1; Un u = Of(kWhich[i]); if (k == 2) u.t = u.t == UT::kInt ? UT::kFloat4 : UT::kInt; if (k) l.push_back(u); }
  auto s = Spec(l); MeshUniformData m(*s); ai_assert(m.HasObjectToCanvasLinearComponent() == has[0] && m.HasBrushColor() == has[1] && m.HasTextureMapping() == has[2], "has-exactly-the-declared-uniforms");
}
PROP(uniforms_none) { MeshUniformData a; ai_assert(!a.HasBrushColor() && !a.HasTextureMapping() && !a.HasObjectToCanvasLinearComponent() && !a.Get().get(), "nothing-without-uniforms"); MeshUniformData b(*Spec({})); ai_assert(!b.HasBrushColor() && !b.HasTextureMapping() && !b.HasObjectToCanvasLinearComponent() && !b.Get().get(), "nothing-without-uniforms"); }
PROP(uniforms_only_unpacking_present) { int k = Pick(3, "which"); auto s = Spec({Of(1), Of(2 + k)}); F f = Format(Pick(2, "format")); std::vector<MeshAttributeCodingParams> p; for (auto& a : f.Attributes()) p.push_back(Coding(F::ComponentCount(a.type), "coding")); MeshUniformData m(*s, f.Attributes(), [&](int i) -> const MeshAttributeCodingParams& { return p[i]; }); for (size_t i = 0; i < f.Attributes().size(); ++i) if (f.Attributes()[i].id == kUnpack[k].id) Holds(*m.Get(), At(*s, kUnpack[k].u), Params(p[i]), "unpacking-parameters-of-the-attribute"); }
PROP(uniforms_misuse) {
  ai_opt("allow-check-failure"); int k = Pick(4, "call"); if (k == 3) { auto s = Spec({Of(2), Of(3), Of(4)}); F f = Format(0); MeshAttributeCodingParams two = Coding(2, "two"), bad = Coding(Pick(2, "count") ? 1 : 3, "bad"); int w = Pick(3, "which"); MeshUniformData m(*s, f.Attributes(), [&](int i) -> const MeshAttributeCodingParams& { return f.Attributes()[i].id == kUnpack[w].id ? bad : two; }); ai_assert(false, "never-accepts-wrong-component-counts"); return; }
  std::vector<Un> l; for (int i : {0, 1, 5}) if (i != (k == 2 ? 5 : k)) l.push_back(Of(i)); MeshUniformData m(*Spec(l)); if (k == 0) m.SetObjectToCanvasLinearComponent(AffineTransform()); else if (k == 1) m.SetBrushColor(Color::Red()); else m.SetTextureMapping(BrushPaint::TextureMapping::kWinding); ai_assert(false, "never-sets-an-absent-uniform");
}
// ---- mesh specifications
namespace {
D Data(int k) {
  D d; d.vertex_stride = 40 + 4 * k; d.vertex_shader_source = "uniform float4 uObjectToCanvasLinearComponent; uniform float4 uBrushColor; V"; d.fragment_shader_source = "uniform int uTextureMapping; F";
  constexpr D::AttributeType kA[3] = {D::AttributeType::kFloat2, D::AttributeType::kFloat3, D::AttributeType::kUByte4}; constexpr std::string_view kN[6] = {"one", "two", "three", "four", "five", "six"}; d.attributes.Resize(3); for (int i = 0; i < 3; ++i) d.attributes[i] = {kA[(i + k) % 3], 12 * i + k, kN[i]};
  d.varyings.Resize(2); d.varyings[0] = {k ? D::VaryingType::kFloat2 : D::VaryingType::kFloat4, kN[3]}; d.varyings[1] = {k ? D::VaryingType::kFloat4 : D::VaryingType::kFloat2, kN[4]};
  d.uniforms.Resize(3); d.uniforms[0] = {D::UniformType::kFloat4, U::kObjectToCanvasLinearComponent, std::nullopt}; d.uniforms[1] = {D::UniformType::kFloat4, U::kBrushColor, std::nullopt}; d.uniforms[2] = {D::UniformType::kInt, U::kTextureMapping, std::nullopt}; return d;
}
}
PROP(specification) {
  D d = Data(Pick(3, "k")); auto r = CreateMeshSpecification(d); ai_assert(r.ok(), "matching-uniforms-accepted"); if (!r.ok()) return; const S& s = **r; using A = S::Attribute::Type; using V = S::Varying::Type;
  ai_assert(s.attrs.size() == 3 && s.varys.size() == 2 && s.stride_ == (size_t)d.vertex_stride, "attributes-and-stride"); if (s.attrs.size() != 3 || s.varys.size() != 2) return;
  for (int i = 0; i < 3; ++i) { auto& a = d.attributes[i]; A w = a.type == D::AttributeType::kFloat2 ? A::kFloat2 : a.type == D::AttributeType::kFloat3 ? A::kFloat3 : A::kUByte4_unorm; ai_assert(s.attrs[i].type == w && s.attrs[i].offset == (size_t)a.offset && std::string_view(s.attrs[i].name.data(), s.attrs[i].name.size()) == a.name, "attributes-and-stride"); }
  for (int i = 0; i < 2; ++i) { auto& v = d.varyings[i]; ai_assert(s.varys[i].type == (v.type == D::VaryingType::kFloat2 ? V::kFloat2 : V::kFloat4) && std::string_view(s.varys[i].name.data(), s.varys[i].name.size()) == v.name, "varyings"); }
  ai_assert(std::string_view(s.vs.data(), s.vs.size()) == d.vertex_shader_source && std::string_view(s.fs.data(), s.fs.size()) == d.fragment_shader_source, "shader-sources"); ai_assert(s.cs.get() && s.cs->fn == 0 && s.cs->gamut == 0 && s.at == kPremul_SkAlphaType, "linear-premultiplied-srgb");
}
PROP(specification_uniforms) {   // the uniforms of the sources must be exactly the expected ones
  D d = Data(0); int k = Pick(6, "case"); if (k == 0) d.vertex_shader_source = "uniform float4 uBrushColor; V"; if (k == 1) d.vertex_shader_source += "uniform float4 uMore;"; if (k == 2) d.fragment_shader_source = "uniform float4 uTextureMapping; F"; if (k == 3) d.fragment_shader_source = "uniform int uTextureMap; F"; if (k == 4) d.uniforms[1].id = U::kPositionUnpackingTransform; if (k == 5) d.uniforms[1].type = D::UniformType::kInt;
  auto r = CreateMeshSpecification(d); ai_assert(!r.ok() && r.status().code() == absl::StatusCode::kInvalidArgument, "mismatched-uniforms-rejected");
}
// ---- mesh drawables
namespace {
struct Canvas : SkCanvas { std::vector<SkMesh> meshes; std::vector<SkBlender*> blenders; std::vector<SkPaint> paints; int other = 0; void drawMesh(const SkMesh& m, sk_sp<SkBlender> b, const SkPaint& p) override { meshes.push_back(m); blenders.push_back(b.get()); paints.push_back(p); } void drawPath(const SkPath&, const SkPaint&) override { ++other; } void setMatrix(const SkM44&) override { ++other; } };
MeshDrawable::Partition Part(int i) { unsigned char b[64] = {}; MeshDrawable::Partition p; p.vertex_buffer = SkMeshes::MakeVertexBuffer(nullptr, b, 48); p.index_buffer = SkMeshes::MakeIndexBuffer(nullptr, b, 12); p.vertex_count = 4 + i; p.index_count = 6 + 3 * i; p.bounds = SkRect::MakeLTRB(i, 2, 3 + i, 4); return p; }
}
PROP(mesh_draw) {
  auto s = Spec(Order(Pick(3, "order"))); int n = Pick(4, "partitions"); bool given = ai_bool("uniforms"), blend = ai_bool("blender"), shade = ai_bool("shader"); sk_sp<SkBlender> b = blend ? SkBlender::Mode(SkBlendMode::kXor) : nullptr; sk_sp<SkShader> sh = shade ? sk_sp<SkShader>(new SkShader) : nullptr;
  absl::InlinedVector<MeshDrawable::Partition, 1> p; for (int i = 0; i < n; ++i) p.push_back(Part(i)); std::optional<MeshUniformData> u; if (given) { u.emplace(*s); u->SetBrushColor(Color::Green()); }
  auto r = MeshDrawable::Create(s, b, sh, p, u); ai_assert(r.ok(), "valid-partitions-accepted"); if (!r.ok()) return; ai_assert(r->HasBrushColor() && r->HasTextureMapping() && r->HasObjectToCanvas(), "drawable-has-the-uniforms");
  MeshDrawable before = *r; AffineTransform t = Xf(); Color c = Any("color"); r->SetObjectToCanvas(t); r->SetTextureMapping(BrushPaint::TextureMapping::kWinding); if (!given) r->SetBrushColor(c); Canvas k; r->Draw(k);
  ai_assert(k.other == 0 && (int)k.meshes.size() == n, "one-mesh-per-partition"); for (int i = 0; i < (int)k.meshes.size(); ++i) { const SkMesh& m = k.meshes[i]; ai_assert(m.spec == s && m.vb == p[i].vertex_buffer && m.ib == p[i].index_buffer && (int)m.vcount == p[i].vertex_count && (int)m.icount == p[i].index_count && m.voff == 0 && m.ioff == 0 && m.mode == SkMesh::Mode::kTriangles, "mesh-of-its-partition"); ai_assert(m.bounds.fLeft == i && m.bounds.fTop == 2 && m.bounds.fRight == 3 + i && m.bounds.fBottom == 4, "mesh-of-its-partition"); ai_assert(k.blenders[i] == b.get() && k.paints[i].shader == sh && k.paints[i].color == SK_ColorWHITE, "white-paint-with-the-shader-and-blender"); const SkData& d = *m.uniforms; Holds(d, At(*s, U::kObjectToCanvasLinearComponent), Linear(t), "drawn-with-the-current-uniforms"); Holds(d, At(*s, U::kBrushColor), Expect(given ? Color::Green() : c), "drawn-with-the-current-uniforms"); ai_assert(In4(d, At(*s, U::kTextureMapping)) == (int)BrushPaint::TextureMapping::kWinding, "drawn-with-the-current-uniforms"); }
  r->SetBrushColor(Color::Red()); for (auto& m : k.meshes) Holds(*m.uniforms, At(*s, U::kObjectToCanvasLinearComponent), Linear(t), "drawn-meshes-keep-their-uniforms");
}
PROP(mesh_draw_invalid) { auto s = Spec(Order(0)); int bad = Pick(4, "bad"), which = Pick(2, "what"); absl::InlinedVector<MeshDrawable::Partition, 1> p; for (int i = 0; i < 3; ++i) { p.push_back(Part(i)); if (i == bad) { if (which) p[i].vertex_count = 2; else p[i].index_count = 0; } } auto r = MeshDrawable::Create(s, nullptr, nullptr, p); ai_assert(r.ok() == (bad == 3), "every-partition-validated"); ai_assert(r.ok() || r.status().code() == absl::StatusCode::kInvalidArgument, "every-partition-validated"); }
PROP(mesh_draw_null) { ai_opt("allow-check-failure"); int k = Pick(3, "what"); absl::InlinedVector<MeshDrawable::Partition, 1> p; p.push_back(Part(0)); p.push_back(Part(1)); if (k == 1) p[1].vertex_buffer = nullptr; if (k == 2) p[1].index_buffer = nullptr; auto r = MeshDrawable::Create(k == 0 ? sk_sp<S>() : Spec(Order(0)), nullptr, nullptr, p); ai_assert(false, "never-accepts-null"); }
// ---- textures and shaders
namespace {
using Layer = BrushPaint::TextureLayer; using Blend = BrushPaint::BlendMode; using Wrap = BrushPaint::TextureWrap;
struct Store : TextureBitmapStore { std::vector<std::pair<Uri, std::shared_ptr<Bitmap>>> l; mutable int asked = 0; absl::StatusOr<std::shared_ptr<Bitmap>> GetTextureBitmap(const Uri& u) const override { ++asked; for (auto& p : l) if (p.first == u) return p.second; return absl::NotFoundError("x"); } };
Uri Tex(const char* s) { auto u = Uri::Parse(s); if (!u.ok()) ai_stop(); return *u; }
std::shared_ptr<Bitmap> Bm(int w, int h, Color::Format f = Color::Format::kGammaEncoded, ColorSpace c = ColorSpace::kSrgb, int size = -1) { std::vector<uint8_t> v(size < 0 ? w * h * 4 : size); for (size_t i = 0; i < v.size(); ++i) v[i] = (uint8_t)(i * 7 + 3); return std::make_shared<VectorBitmap>(w, h, Bitmap::PixelFormat::kRgba8888, f, c, std::move(v)); }
Store Two() { Store s; s.l.push_back({Tex("/texture:a"), Bm(4, 2)}); s.l.push_back({Tex("/texture:b"), Bm(1, 3)}); return s; }
Layer La(const char* u, Blend b = Blend::kModulate) { Layer l; l.color_texture_uri = Tex(u); l.size = {3, 5}; l.size_unit = BrushPaint::TextureSizeUnit::kBrushSize; l.blend_mode = b; return l; }
StrokeInputBatch Inputs(int n, Point a, Point b) { StrokeInputBatch r; for (int i = 0; i < n; ++i) { StrokeInput in; in.tool_type = StrokeInput::ToolType::kStylus; in.position = i == 0 ? a : i == n - 1 ? b : Point{50, 60}; in.elapsed_time = Duration32::Seconds(i); if (!r.Append(in).ok()) ai_stop(); } return r; }
constexpr struct { Blend i; SkBlendMode s; } kBlends[] = {{Blend::kModulate, SkBlendMode::kModulate}, {Blend::kDstIn, SkBlendMode::kDstIn}, {Blend::kDstOut, SkBlendMode::kDstOut}, {Blend::kSrcAtop, SkBlendMode::kSrcATop}, {Blend::kSrcIn, SkBlendMode::kSrcIn}, {Blend::kSrcOver, SkBlendMode::kSrcOver}, {Blend::kDstOver, SkBlendMode::kDstOver}, {Blend::kSrc, SkBlendMode::kSrc}, {Blend::kDst, SkBlendMode::kDst}, {Blend::kSrcOut, SkBlendMode::kSrcOut}, {Blend::kDstAtop, SkBlendMode::kDstATop}, {Blend::kXor, SkBlendMode::kXor}};
void Mat(const SkMatrix& m, double a, double b, double c, double d, double e, double f, const char* id) { double w[9] = {a, b, c, d, e, f, 0, 0, 1}; for (int i = 0; i < 9; ++i) ai_near(m.m[i], w[i], 1e-4, id); }
sk_sp<SkShader> One(ShaderCache& c, const Layer& l, float size, const StrokeInputBatch& in) { BrushPaint p; p.texture_layers = {l}; auto r = c.GetShaderForPaint(p, size, in); ai_assert(r.ok() && r->get(), "known-texture-has-a-shader"); if (!r.ok() || !r->get()) ai_stop(); return *r; }
}
PROP(texture_blender) { BrushPaint p; Store st; ShaderCache c(&st); ai_assert(!c.GetBlenderForPaint(p).get(), "no-layers-no-blender"); auto k = kBlends[Pick(12, "mode")]; p.texture_layers = {La("/texture:a", kBlends[Pick(2, "first")].i), La("/texture:b", k.i)}; if (ai_bool("one")) p.texture_layers.erase(p.texture_layers.begin()); auto b = c.GetBlenderForPaint(p); ai_assert(b.get() && b->mode == k.s, "blender-of-the-last-layer"); }
PROP(texture_blend_chain) {
  Store st = Two(); ShaderCache c(&st); BrushPaint p; int n = Pick(4, "layers"); auto k = kBlends[Pick(12, "mode")]; Blend m[3] = {k.i, Blend::kSrcOut, Blend::kXor}; SkBlendMode w[3] = {k.s, SkBlendMode::kSrcOut, SkBlendMode::kXor}; const char* u[3] = {"/texture:b", "/texture:a", "/texture:b"}; int h[3] = {3, 2, 3}; for (int i = 0; i < n; ++i) p.texture_layers.push_back(La(u[i], m[i]));
  auto r = c.GetShaderForPaint(p, 10, {}); ai_assert(r.ok(), "known-texture-has-a-shader"); if (!r.ok()) return; sk_sp<SkShader> s = *r; ai_assert((s.get() != nullptr) == (n > 0), "no-layers-no-shader"); if (!s.get()) return;
  for (int i = n - 1; i > 0; --i) { ai_assert(s->kind == 2 && s->mode == w[i - 1] && s->dst.get() && s->src.get(), "layer-over-the-blended-earlier-ones"); if (s->kind != 2) return; ai_assert(s->dst->kind == 1 && s->dst->image.get() && s->dst->image->info.h == h[i], "layer-over-the-blended-earlier-ones"); s = s->src; if (!s.get()) return; } ai_assert(s->kind == 1 && s->image.get() && s->image->info.h == h[0], "layer-over-the-blended-earlier-ones");
}
PROP(texture_wraps) { Store st = Two(); ShaderCache c(&st); constexpr struct { Wrap i; SkTileMode s; } k[] = {{Wrap::kRepeat, SkTileMode::kRepeat}, {Wrap::kMirror, SkTileMode::kMirror}, {Wrap::kClamp, SkTileMode::kClamp}}; Layer l = La("/texture:a"); int x = Pick(3, "x"), y = Pick(3, "y"); l.wrap_x = k[x].i; l.wrap_y = k[y].i; auto s = One(c, l, 10, {}); ai_assert(s->kind == 1 && s->tx == k[x].s && s->ty == k[y].s, "tile-modes"); }
PROP(texture_texel_transform) {
  Store st = Two(); ShaderCache c(&st); bool a = ai_bool("a"); Layer l = La(a ? "/texture:a" : "/texture:b"); float sx = ai_f32_in(0.01, 100, "size x"), sy = ai_f32_in(0.01, 100, "size y"), ox = ai_f32_in(-2, 2, "offset x"), oy = ai_f32_in(-2, 2, "offset y"); l.size = {sx, sy}; l.offset = {ox, oy}; double w = a ? 4 : 1, h = a ? 2 : 3;
  auto s = One(c, l, 10, {}); ai_assert(s->kind == 1 && s->image.get() && s->image->info.w == w && s->image->info.h == h, "image-of-its-texture"); Mat(s->local, sx / w, 0, double(sx) * ox, 0, sy / h, double(sy) * oy, "texels-to-layer-units");
}
PROP(texture_stroke_transform) {
  Store st = Two(); ShaderCache c(&st); Layer l = La("/texture:a"); float size = ai_f32_in(0.01, 1000, "brush size"); int n = Pick(4, "inputs"), o = Pick(3, "origin"), unit = Pick(2, "unit"); Point a{ai_f32_in(-1000, 1000, "x"), ai_f32_in(-1000, 1000, "y")}, b{ai_f32_in(-1000, 1000, "x2"), ai_f32_in(-1000, 1000, "y2")};
  l.origin = o == 0 ? BrushPaint::TextureOrigin::kStrokeSpaceOrigin : o == 1 ? BrushPaint::TextureOrigin::kFirstStrokeInput : BrushPaint::TextureOrigin::kLastStrokeInput; l.size_unit = unit ? BrushPaint::TextureSizeUnit::kBrushSize : BrushPaint::TextureSizeUnit::kStrokeCoordinates;
  if (n > 1) ai_assume(!(a == b)); auto s = One(c, l, size, Inputs(n, a, b)); Point w = n == 0 || o == 0 ? Point{0, 0} : o == 1 || n == 1 ? a : b; double k = unit ? size : 1; ai_assert(s->kind == 1, "image-of-its-texture"); Mat(s->outer, k, 0, w.x, 0, k, w.y, "layer-units-to-stroke-space");
}
PROP(texture_cache) {   // shaders and images are shared between paints, per-stroke values are not
  Store st = Two(); ShaderCache c(&st); Layer l = La("/texture:a"), m = l; m.wrap_x = Wrap::kMirror; m.offset = {0.5f, 0}; Layer q = La("/texture:b"); float z = ai_f32_in(1, 100, "size"); auto a = One(c, l, 10, {}); auto b = One(c, m, 10, {}); auto d = One(c, q, 10, {}); auto e = One(c, l, z, {});
  ai_assert(a->image == b->image && a->image == e->image && !(a->image == d->image) && st.asked == 2, "one-image-per-texture"); ai_assert(b->tx == SkTileMode::kMirror && a->tx == SkTileMode::kRepeat && e->tx == SkTileMode::kRepeat, "each-layer-its-own-shader"); Mat(e->outer, z, 0, 0, 0, z, 0, "per-stroke-values-not-cached"); Mat(a->outer, 10, 0, 0, 0, 10, 0, "per-stroke-values-not-cached"); Mat(b->local, 0.75, 0, 1.5, 0, 2.5, 0, "each-layer-its-own-shader"); Mat(e->local, 0.75, 0, 0, 0, 2.5, 0, "each-layer-its-own-shader");
}
PROP(texture_errors) {
  Store st = Two(); int k = Pick(3, "case"); BrushPaint p; p.texture_layers = {La("/texture:a"), La(k == 1 ? "/texture:none" : "/texture:bad")}; if (ai_bool("swap")) std::swap(p.texture_layers[0], p.texture_layers[1]); st.l.push_back({Tex("/texture:bad"), Bm(2, 2, Color::Format::kLinear, ColorSpace::kSrgb, Pick(2, "size") ? 15 : 17)}); ShaderCache c(k == 0 ? nullptr : &st); auto want = k == 0 ? absl::StatusCode::kFailedPrecondition : k == 1 ? absl::StatusCode::kNotFound : absl::StatusCode::kInvalidArgument;
  auto r = c.GetShaderForPaint(p, 10, {}); ai_assert(!r.ok() && r.status().code() == want, "texture-failures-reported"); auto r2 = c.GetShaderForPaint(p, 10, {}); ai_assert(!r2.ok() && r2.status().code() == want, "failures-not-cached-as-success");
}
PROP(texture_error_recovers) { Store st; ShaderCache c(&st); BrushPaint p; p.texture_layers = {La("/texture:a")}; auto r = c.GetShaderForPaint(p, 10, {}); ai_assert(!r.ok(), "texture-failures-reported"); st.l = Two().l; auto q = c.GetShaderForPaint(p, 10, {}); ai_assert(q.ok() && q->get(), "texture-available-later-is-used"); }
PROP(texture_image) {
  Color::Format f = Pick(3, "format") == 0 ? Color::Format::kLinear : ai_bool("premul") ? Color::Format::kPremultipliedAlpha : Color::Format::kGammaEncoded; ColorSpace cs = ai_bool("p3") ? ColorSpace::kDisplayP3 : ColorSpace::kSrgb; Store st; st.l.push_back({Tex("/texture:z"), Bm(1, 1, f == Color::Format::kLinear ? Color::Format::kGammaEncoded : Color::Format::kLinear, cs)}); st.l.push_back({Tex("/texture:y"), Bm(3, 2, f, cs)}); ShaderCache c(&st); One(c, La("/texture:z"), 10, {}); auto s = One(c, La("/texture:y"), 10, {}); const SkImage& i = *s->image;
  ai_assert(i.info.w == 3 && i.info.h == 2 && i.info.ct == kRGBA_8888_SkColorType && i.info.at == (f == Color::Format::kPremultipliedAlpha ? kPremul_SkAlphaType : kUnpremul_SkAlphaType), "image-format"); ai_assert(i.info.cs.get() && i.info.cs->fn == (f == Color::Format::kGammaEncoded) && i.info.cs->gamut == (cs == ColorSpace::kDisplayP3), "image-color-space");
  ai_assert(i.px.size() == 24, "pixels-copied"); for (size_t k = 0; k < i.px.size(); ++k) ai_assert(i.px[k] == (uint8_t)(k * 7 + 3), "pixels-copied");
}
PROP(bitmap_validation) {
  struct B : Bitmap { size_t n; B(int w, int h, int p, size_t n) : Bitmap(w, h, static_cast<PixelFormat>(p), Color::Format::kLinear, ColorSpace::kSrgb), n(n) {} absl::Span<const uint8_t> GetPixelData() const override { static const uint8_t z = 0; return {&z, n}; } };
  int k = Pick(3, "case"); if (k == 0) { int w = ai_i32(INT32_MIN, INT32_MAX, "w"), h = ai_i32(INT32_MIN, INT32_MAX, "h"); ai_assume(w <= 0 || h <= 0); B b(w, h, 0, (size_t)(w > 0 ? w : 0) * 4); auto s = rendering_internal::ValidateBitmap(b); ai_assert(s.code() == absl::StatusCode::kInvalidArgument, "empty-bitmaps-rejected"); }
  else if (k == 1) { B b(2, 3, ai_i32(1, 1000, "pixel format"), 24); ai_assert(rendering_internal::ValidateBitmap(b).code() == absl::StatusCode::kInvalidArgument, "unknown-pixel-format-rejected"); }
  else { int w = Pick(5, "w") * 23170 + 1, h = Pick(5, "h") * 23170 + 1; size_t n = (size_t)w * h * 4, m = (size_t)ai_int(0, (int64_t)1 << 40, "size"); B b(w, h, 0, m); IFF(m == n, rendering_internal::ValidateBitmap(b).ok(), "exactly-four-bytes-per-pixel"); }
}
PROP(bitmap_bytes) { ai_assert(PixelFormatBytesPerPixel(Bitmap::PixelFormat::kRgba8888) == 4, "four-bytes-per-pixel"); auto b = Bm(3, 5, Color::Format::kPremultipliedAlpha, ColorSpace::kDisplayP3); ai_assert(b->width() == 3 && b->height() == 5 && b->color_format() == Color::Format::kPremultipliedAlpha && b->color_space() == ColorSpace::kDisplayP3 && b->pixel_format() == Bitmap::PixelFormat::kRgba8888 && b->GetPixelData().size() == 60 && rendering_internal::ValidateBitmap(*b).ok(), "bitmap-keeps-what-it-was-given"); }
