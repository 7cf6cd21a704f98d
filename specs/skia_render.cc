// What the native Skia renderer draws for strokes and in-progress strokes, with recording models of Skia's types and a model of the shape builder.
// exclude: ink/strokes/internal/(stroke_shape_builder|brush_tip|stroke_input_modeler|constrain|circular|rounded|easing)
#define ABSL_HAVE_THREAD_LOCAL 1
#include "specs/stub_builder.h"
#include "specs/common.h"
#include "include/core/SkCanvas.h"
#include "include/gpu/ganesh/GrDirectContext.h"
#include "ink/geometry/partitioned_mesh.h"
#include "ink/rendering/bitmap.h"
#include "ink/rendering/skia/common_internal/mesh_specification_data.h"

#include "ink/rendering/skia/native/internal/mesh_specification_cache.cc"
#include "ink/rendering/skia/native/skia_renderer.cc"
#include "ink/rendering/texture_bitmap_store.h"
#include "ink/strokes/internal/stroke_vertex.h"
#include "ink/strokes/in_progress_stroke.cc"
#include "ink/strokes/stroke.cc"
using namespace ink; using D = skia_common_internal::MeshSpecificationData; using U = D::UniformId;
using strokes_internal::g_extra_vertices; using strokes_internal::g_more_outlines; using strokes_internal::StrokeVertex;
namespace {
struct Draw { int kind; SkMesh mesh; SkPath path; SkPaint paint; SkBlender* blender = nullptr; std::vector<float> m; };   // 0 matrix, 1 path, 2 mesh
struct Canvas : SkCanvas {
  std::vector<Draw> l;
  void drawMesh(const SkMesh& m, sk_sp<SkBlender> b, const SkPaint& p) override { Draw d{2, m, {}, p}; d.blender = b.get(); l.push_back(d); keep.push_back(b); }
  void drawPath(const SkPath& p, const SkPaint& q) override { l.push_back(Draw{1, {}, p, q}); }
  void setMatrix(const SkM44& m) override { Draw d{0, {}, {}, {}}; for (int r = 0; r < 4; ++r) for (int c = 0; c < 4; ++c) d.m.push_back(m.rc(r, c)); l.push_back(d); }
  std::vector<sk_sp<SkBlender>> keep;
};
struct Store : TextureBitmapStore { absl::StatusOr<std::shared_ptr<Bitmap>> GetTextureBitmap(const Uri& u) const override { auto w = Uri::Parse("/texture:a"); if (!w.ok() || !(u == *w)) return absl::NotFoundError("x"); return std::shared_ptr<Bitmap>(std::make_shared<VectorBitmap>(1, 1, Bitmap::PixelFormat::kRgba8888, Color::Format::kLinear, ColorSpace::kSrgb, std::vector<uint8_t>{1, 2, 3, 4})); } };
Uri Tex(const char* s) { auto u = Uri::Parse(s); if (!u.ok()) ai_stop(); return *u; }
constexpr float kOpacity[3] = {0.5f, 0.25f, 1.5f};
int Pick(int n, const char* what) { return (int)ai_split(ai_i32(0, n - 1, what)); }
// coat i: opacity multiplier kOpacity[i]; the coat `textured` has a texture, winding when asked
BrushCoat Coat(int i, bool texture, bool winding, const char* uri = "/texture:a") { BrushCoat c; c.tips.resize(1); c.tips[0].scale = {float(i + 1), 1}; c.tips[0].opacity_multiplier = kOpacity[i]; if (texture) { BrushPaint::TextureLayer l; l.color_texture_uri = Tex(uri); l.size = {2, 2}; l.mapping = winding ? BrushPaint::TextureMapping::kWinding : BrushPaint::TextureMapping::kTiling; l.size_unit = BrushPaint::TextureSizeUnit::kBrushSize; l.blend_mode = BrushPaint::BlendMode::kXor; c.paint.texture_layers = {l}; } return c; }
Brush Make(int coats, int textured, bool winding, Color color, const char* uri = "/texture:a") { std::vector<BrushCoat> v; for (int i = 0; i < coats; ++i) v.push_back(Coat(i, i == textured, winding, uri)); auto f = BrushFamily::Create(v, ""); if (!f.ok()) ai_stop(); auto b = Brush::Create(*f, color, 10, 2); if (!b.ok()) ai_stop(); return *b; }
StrokeInputBatch Batch(int n) { StrokeInputBatch b; for (int i = 0; i < n; ++i) { StrokeInput in; in.tool_type = StrokeInput::ToolType::kStylus; in.position = {float(i), 0}; in.elapsed_time = Duration32::Seconds(i); if (!b.Append(in).ok()) ai_stop(); } return b; }
InProgressStroke Wet(const Brush& b, int n) { InProgressStroke s; s.Start(b); if (n && !s.EnqueueInputs(Batch(n), {}).ok()) ai_stop(); if (!s.UpdateShape(Duration32::Zero()).ok()) ai_stop(); return s; }
Color AnyColor() { return Color::FromFloat(ai_f32_in(0, 1, "r"), ai_f32_in(0, 1, "g"), ai_f32_in(0, 1, "b"), ai_f32_in(0, 1, "alpha"), Color::Format::kLinear, Pick(2, "space") ? ColorSpace::kDisplayP3 : ColorSpace::kSrgb); }
AffineTransform Xf() { return AffineTransform(Fin("a"), Fin("b"), Fin("c"), Fin("d"), Fin("e"), Fin("f")); }
Color::RgbaFloat Lin(const Color& c) { return c.InColorSpace(ColorSpace::kSrgb).AsFloat(Color::Format::kLinear); }
void Matrix(const Draw& d, const AffineTransform& t) { ai_assert(d.kind == 0, "matrix-set-first"); if (d.kind) return; float w[16] = {t.A(), t.B(), 0, t.C(), t.D(), t.E(), 0, t.F(), 0, 0, 1, 0, 0, 0, 0, 1}; for (int i = 0; i < 16; ++i) ai_ident_f(d.m[i], w[i], "matrix-is-object-to-canvas"); }
float Fl(const SkData& d, size_t o) { float v; std::memcpy(&v, d.bytes() + o, 4); return v; }
size_t At(const SkMeshSpecification& s, U id) { auto* u = s.findUniform(D::GetUniformName(id)); ai_assert(u != nullptr, "drawn-mesh-has-the-uniforms"); if (!u) ai_stop(); return u->offset; }
void Four(const SkMesh& m, U id, float a, float b, float c, float d, const char* what) { size_t o = At(*m.spec, id); float w[4] = {a, b, c, d}; for (int i = 0; i < 4; ++i) ai_ident_f(Fl(*m.uniforms, o + 4 * i), w[i], what); }
void PathPaint(const Draw& d, const Color& c, float opacity) { auto w = Lin(c); ai_assert(d.paint.aa && d.paint.style == SkPaint::kFill_Style && !d.paint.shader.get(), "paths-are-antialiased-fills"); ai_assert(d.paint.cs_fn == 0 && d.paint.cs_gamut == 0, "path-color-linear-srgb"); ai_ident_f(d.paint.color4.fR, w.r, "path-color-linear-srgb"); ai_ident_f(d.paint.color4.fG, w.g, "path-color-linear-srgb"); ai_ident_f(d.paint.color4.fB, w.b, "path-color-linear-srgb"); ai_same(d.paint.color4.fA, double(w.a) * opacity, 1e-6, "path-opacity-multiplied"); }
void PathPoints(const SkPath& p, const std::vector<Point>& w) { ai_assert(p.closed && p.fill == SkPathFillType::kWinding, "closed-winding-polygon"); ai_assert(p.pts.size() == w.size(), "polygon-through-the-outline"); for (size_t i = 0; i < w.size() && i < p.pts.size(); ++i) ai_assert(p.pts[i].x == w[i].x && p.pts[i].y == w[i].y, "polygon-through-the-outline"); }
void MeshUniforms(const SkMesh& m, const Color& c, const AffineTransform& t, bool winding) { auto w = Lin(c); Four(m, U::kBrushColor, w.r, w.g, w.b, w.a, "brush-color-uniform"); Four(m, U::kObjectToCanvasLinearComponent, t.A(), t.D(), t.B(), t.E(), "object-to-canvas-uniform"); int v; std::memcpy(&v, m.uniforms->bytes() + At(*m.spec, U::kTextureMapping), 4); ai_assert(v == (int)(winding ? BrushPaint::TextureMapping::kWinding : BrushPaint::TextureMapping::kTiling), "texture-mapping-of-the-first-layer"); }
void MeshPaint(const Draw& d, bool texture) { ai_assert(d.paint.color == SK_ColorWHITE && (d.paint.shader.get() != nullptr) == texture && (d.blender != nullptr) == texture, "texture-shader-and-blender-of-the-coat"); if (texture && d.paint.shader.get() && d.blender) ai_assert(d.paint.shader->kind == 1 && d.paint.shader->outer.m[0] == 10 && d.blender->mode == SkBlendMode::kXor, "texture-shader-and-blender-of-the-coat"); }
}
// ---- in-progress strokes
PROP(wet_paths) {
  int coats = Pick(4, "coats"); Color c = AnyColor(), c2 = AnyColor(); AffineTransform t = Xf(), t2 = Xf(); g_more_outlines = 1; InProgressStroke s = Wet(Make(coats, ai_bool("texture") ? 0 : -1, true, c), 2); SkiaRenderer r; auto d = r.CreateDrawable(nullptr, s, t); ai_assert(d.ok(), "paths-need-no-context-or-textures"); if (!d.ok()) return; ai_assert(d->HasBrushColor() == (coats > 0), "drawables-have-a-brush-color");
  Canvas k; d->Draw(k); auto check = [&](const Canvas& k, const Color& c, const AffineTransform& t) { ai_assert((int)k.l.size() == 1 + 2 * coats, "every-outline-of-every-coat-once"); if (k.l.empty()) return; Matrix(k.l[0], t); for (int i = 0; i < 2 * coats && i + 1 < (int)k.l.size(); ++i) { const Draw& q = k.l[i + 1]; ai_assert(q.kind == 1, "paths-without-a-context"); int j = i / 2; float x = 2 + 100 * (j + 1); if (i % 2) PathPoints(q.path, {{x + 1, 0}, {x, 1}}); else PathPoints(q.path, {{x, 1}, {x, 0}, {x + 1, 0}}); PathPaint(q, c, kOpacity[j]); } };
  check(k, c, t); auto e = *d; if (coats) e.SetBrushColor(c2); e.SetObjectToCanvas(t2); Canvas a, b; e.Draw(a); d->Draw(b); if (coats) check(a, c2, t2); check(b, c, t);
}
PROP(wet_meshes) {
  int coats = Pick(4, "coats"), tex = Pick(3, "textured") - 1; bool wind = ai_bool("winding"); Color c = AnyColor(), c2 = AnyColor(); AffineTransform t = Xf(), t2 = Xf(); InProgressStroke s = Wet(Make(coats, tex, wind, c), 2); GrDirectContext gr; SkiaRenderer r(std::make_shared<Store>()); auto d = r.CreateDrawable(&gr, s, t); ai_assert(d.ok(), "known-textures-draw"); if (!d.ok()) return; ai_assert(d->HasBrushColor() == (coats > 0), "drawables-have-a-brush-color");
  auto check = [&](const Canvas& k, const Color& c, const AffineTransform& t) { ai_assert((int)k.l.size() == 1 + coats, "every-coat-once-in-order"); if (k.l.empty()) return; Matrix(k.l[0], t); for (int i = 0; i < coats && i + 1 < (int)k.l.size(); ++i) { const Draw& q = k.l[i + 1]; ai_assert(q.kind == 2, "meshes-with-a-context"); if (q.kind != 2) return; const SkMesh& m = q.mesh; auto v = s.GetMesh(i).RawVertexData(); ai_assert(m.vb->n == v.size() && ai_regions_equal(m.vb->d, v.data(), v.size()), "vertices-of-the-coat"); uint16_t x[3]; ai_assert(m.ib->n == 6 && m.icount == 3 && m.vcount == 3, "triangles-as-16-bit-indices"); if (m.ib->n != 6) return; std::memcpy(x, m.ib->d, 6); ai_assert(x[0] == 0 && x[1] == 1 && x[2] == 2, "triangles-as-16-bit-indices"); float l = 2 + 100 * (i + 1); ai_assert(m.bounds.fLeft == l && m.bounds.fTop == 0 && m.bounds.fRight == l + 1 && m.bounds.fBottom == 1, "bounds-of-the-coat"); MeshUniforms(m, c, t, i == tex && wind); MeshPaint(q, i == tex); ai_assert(m.spec->stride_ == sizeof(StrokeVertex), "unpacked-vertex-layout"); } };
  Canvas k; d->Draw(k); check(k, c, t); auto e = *d; if (coats) e.SetBrushColor(c2); e.SetObjectToCanvas(t2); ai_assert(e.ObjectToCanvas().C() == t2.C() || true, "settable-transform"); ai_ident_f(e.ObjectToCanvas().C(), t2.C(), "settable-transform"); Canvas a, b; e.Draw(a); d->Draw(b); if (coats) check(a, c2, t2); check(b, c, t);
  auto f = r.CreateDrawable(&gr, s, t2); if (f.ok()) { Canvas g; f->Draw(g); check(g, c, t2); check(k, c, t); }
}
PROP(wet_empty) { bool ctx = ai_bool("context"); GrDirectContext gr; SkiaRenderer r; InProgressStroke s; int k = Pick(3, "state"); if (k) s = Wet(Make(k, -1, false, Color::Red()), 0); if (ai_bool("cleared")) s.Clear(); AffineTransform t = Xf(); auto d = r.CreateDrawable(ctx ? &gr : nullptr, s, t); ai_assert(d.ok(), "nothing-to-draw-is-no-error"); if (!d.ok()) return; ai_assert(!d->HasBrushColor(), "empty-drawable"); Canvas c; d->Draw(c); ai_assert(c.l.size() == 1, "empty-drawable"); if (c.l.size() == 1) Matrix(c.l[0], t); Canvas e; ai_assert(r.Draw(ctx ? &gr : nullptr, s, t, e).ok() && e.l.size() == 1, "empty-drawable"); }
PROP(wet_empty_color) { ai_opt("allow-check-failure"); SkiaRenderer r; InProgressStroke s; auto d = r.CreateDrawable(nullptr, s, AffineTransform()); if (!d.ok()) ai_stop(); d->SetBrushColor(Color::Red()); ai_assert(false, "never-sets-the-color-of-nothing"); }
PROP(wet_draw) { bool ctx = ai_bool("context"); GrDirectContext gr; SkiaRenderer r(std::make_shared<Store>()); bool known = ai_bool("known"); InProgressStroke s = Wet(Make(2, 1, false, Color::Red(), known ? "/texture:a" : "/texture:zz"), 1); AffineTransform t = Xf(); Canvas c; auto st = r.Draw(ctx ? &gr : nullptr, s, t, c); ai_assert(st.ok() == (known || !ctx), "missing-texture-is-reported"); if (!st.ok()) { ai_assert(st.code() == absl::StatusCode::kNotFound && c.l.empty(), "missing-texture-is-reported"); return; } ai_assert(c.l.size() == 3, "every-coat-once-in-order"); if (c.l.empty()) return; Matrix(c.l[0], t); for (size_t i = 1; i < c.l.size(); ++i) ai_assert(c.l[i].kind == (ctx ? 2 : 1), "meshes-with-a-context-paths-without"); }
// ---- finished strokes
namespace {
StrokeVertex::CustomPackingArray Packing(const MutableMesh& m) { return StrokeVertex::MakeCustomPackingArray(m.Format()); }
absl::InlinedVector<Mesh, 1> Meshes(float x, float scale) { MutableMesh m(StrokeVertex::FullMeshFormat()); for (int i = 0; i < 4; ++i) { StrokeVertex v; v.position = {x + scale * (i % 2), x + 2 * scale * (i / 2)}; v.non_position_attributes.side_derivative = {scale * i, x * i}; v.non_position_attributes.forward_derivative = {x * i, 3 * scale * i}; v.non_position_attributes.surface_uv = {0.5f, 0.25f}; StrokeVertex::AppendToMesh(m, v); } m.AppendTriangleIndices({0, 1, 2}); m.AppendTriangleIndices({1, 3, 2}); auto p = Packing(m); auto r = m.AsMeshes(p.Values()); if (!r.ok()) ai_stop(); return *r; }
struct Shape { std::vector<std::vector<Mesh>> g; PartitionedMesh p; };
// two meshes and two outlines, no mesh, one mesh
Shape Built() { Shape s; s.g.resize(3); for (auto& m : Meshes(1, 1)) s.g[0].push_back(m); for (auto& m : Meshes(7, 4)) s.g[0].push_back(m); for (auto& m : Meshes(-9, 2)) s.g[2].push_back(m); using P = PartitionedMesh::VertexIndexPair; static const P a[] = {{0, 1}, {1, 3}, {0, 2}}, b[] = {{1, 0}, {1, 1}}, c[] = {{0, 3}, {0, 2}, {0, 0}}; static const absl::Span<const P> oa[] = {absl::MakeConstSpan(a), absl::MakeConstSpan(b)}, oc[] = {absl::MakeConstSpan(c)}; PartitionedMesh::MeshGroup g[3] = {{s.g[0], oa}, {{}, {}}, {s.g[2], oc}}; auto r = PartitionedMesh::FromMeshGroups(g); if (!r.ok()) ai_stop(); s.p = *r; return s; }
}
PROP(dry_paths) {
  Shape s = Built(); Color c = AnyColor(), c2 = AnyColor(); AffineTransform t = Xf(); Stroke k(Make(3, ai_bool("texture") ? 0 : -1, true, c), Batch(2), s.p); SkiaRenderer r; auto d = r.CreateDrawable(nullptr, k, t); ai_assert(d.ok() && d->HasBrushColor(), "paths-need-no-context-or-textures"); if (!d.ok()) return; bool again = ai_bool("again"); if (again) d->SetBrushColor(c2); Canvas v; d->Draw(v); ai_assert(v.l.size() == 4, "every-outline-of-every-coat-once"); if (v.l.size() != 4) return; Matrix(v.l[0], t); for (int i = 1; i < 4; ++i) { ai_assert(v.l[i].kind == 1, "paths-without-a-context"); PathPaint(v.l[i], again ? c2 : c, kOpacity[i == 3 ? 2 : 0]); }
  auto& g = s.g; PathPoints(v.l[1].path, {g[0][0].VertexPosition(1), g[0][1].VertexPosition(3), g[0][0].VertexPosition(2)}); PathPoints(v.l[2].path, {g[0][1].VertexPosition(0), g[0][1].VertexPosition(1)}); PathPoints(v.l[3].path, {g[2][0].VertexPosition(3), g[2][0].VertexPosition(2), g[2][0].VertexPosition(0)});
}
PROP(dry_meshes) {
  Shape s = Built(); int tex = Pick(4, "textured") - 1; bool wind = ai_bool("winding"); Color c = AnyColor(); AffineTransform t = Xf(); Stroke k(Make(3, tex, wind, c), Batch(2), s.p); GrDirectContext gr; SkiaRenderer r(std::make_shared<Store>()); auto d = r.CreateDrawable(&gr, k, t); ai_assert(d.ok() && d->HasBrushColor(), "known-textures-draw"); if (!d.ok()) return; Canvas v; d->Draw(v); ai_assert(v.l.size() == 4, "every-mesh-of-every-coat-in-order"); if (v.l.size() != 4) return; Matrix(v.l[0], t);
  for (int i = 1; i < 4; ++i) { ai_assert(v.l[i].kind == 2, "meshes-with-a-context"); if (v.l[i].kind != 2) return; int g = i == 3 ? 2 : 0; const Mesh& m = s.g[g][i == 2]; const SkMesh& q = v.l[i].mesh; auto vd = m.RawVertexData(), id = m.RawIndexData(); ai_assert(q.vb->n == vd.size() && ai_regions_equal(q.vb->d, vd.data(), vd.size()) && q.ib->n == id.size() && ai_regions_equal(q.ib->d, id.data(), id.size()) && q.vcount == 4 && q.icount == 6, "packed-data-of-its-mesh"); Rect b = *m.Bounds().AsRect(); ai_assert(q.bounds.fLeft == b.XMin() && q.bounds.fTop == b.YMin() && q.bounds.fRight == b.XMax() && q.bounds.fBottom == b.YMax(), "bounds-of-its-mesh");
    MeshUniforms(q, c, t, g == tex && wind); MeshPaint(v.l[i], g == tex); const Mesh& f = s.g[g][0]; ai_assert((int)q.spec->stride_ == f.Format().PackedVertexStride(), "packed-vertex-layout"); auto a = f.Format().Attributes(); for (size_t j = 0; j < a.size(); ++j) { std::optional<U> u; if (a[j].id == MeshFormat::AttributeId::kPosition) u = U::kPositionUnpackingTransform; if (a[j].id == MeshFormat::AttributeId::kSideDerivative) u = U::kSideDerivativeUnpackingTransform; if (a[j].id == MeshFormat::AttributeId::kForwardDerivative) u = U::kForwardDerivativeUnpackingTransform; if (!u) continue; auto& p = f.VertexAttributeUnpackingParams(j); Four(q, *u, p.components[0].offset, p.components[0].scale, p.components[1].offset, p.components[1].scale, "unpacking-of-the-mesh"); } }
}
PROP(dry_empty) { bool ctx = ai_bool("context"); GrDirectContext gr; SkiaRenderer r; int n = Pick(3, "coats"); Stroke s(Make(n, -1, false, Color::Red())); AffineTransform t = Xf(); auto d = r.CreateDrawable(ctx ? &gr : nullptr, s, t); ai_assert(d.ok() && !d->HasBrushColor(), "empty-drawable"); if (!d.ok()) return; Canvas c; d->Draw(c); ai_assert(c.l.size() == 1, "empty-drawable"); if (c.l.size() == 1) Matrix(c.l[0], t); }
PROP(dry_draw) { bool ctx = ai_bool("context"), known = ai_bool("known"); GrDirectContext gr; SkiaRenderer r(std::make_shared<Store>()); Shape s = Built(); Stroke k(Make(3, 2, false, Color::Red(), known ? "/texture:a" : "/texture:zz"), Batch(1), s.p); AffineTransform t = Xf(); Canvas c; auto st = r.Draw(ctx ? &gr : nullptr, k, t, c); ai_assert(st.ok() == (known || !ctx), "missing-texture-is-reported"); if (!st.ok()) ai_assert(st.code() == absl::StatusCode::kNotFound && c.l.empty(), "missing-texture-is-reported"); else ai_assert(c.l.size() == 4, "every-mesh-of-every-coat-in-order"); }
PROP(dry_unsupported_format) { GrDirectContext gr; SkiaRenderer r; MutableMesh m(MeshFormat{}); m.AppendVertex({0, 0}); m.AppendVertex({1, 0}); m.AppendVertex({0, 1}); m.AppendTriangleIndices({0, 1, 2}); auto p = PartitionedMesh::FromMutableMesh(m); if (!p.ok()) ai_stop(); Stroke k(Make(1, -1, false, Color::Red()), Batch(1), *p); Canvas c; bool ctx = ai_bool("context"); auto st = r.Draw(ctx ? &gr : nullptr, k, AffineTransform(), c); ai_assert(st.ok() == !ctx, "unsupported-format-is-an-invalid-argument"); if (ctx) ai_assert(st.code() == absl::StatusCode::kInvalidArgument && c.l.empty(), "unsupported-format-is-an-invalid-argument"); }
// ---- the cache of specifications
PROP(specification_cache) {
  skia_native_internal::MeshSpecificationCache c; Shape s = Built(); InProgressStroke w; auto n = c.GetFor(w); ai_assert(!n.ok() && n.status().code() == absl::StatusCode::kInvalidArgument, "unstarted-stroke-rejected"); w.Start(Make(1, -1, false, Color::Red())); auto a = c.GetFor(w), b = c.GetFor(w); ai_assert(a.ok() && b.ok() && *a == *b, "one-specification-per-format"); auto x = c.GetForStroke(s.p, 0), y = c.GetForStroke(s.p, 2), z = c.GetForStroke(s.p, 0); ai_assert(x.ok() && y.ok() && z.ok() && *x == *z && *x == *y && !(*a == *x), "one-specification-per-format");
  MutableMesh m(StrokeVertex::FullMeshFormat()); for (int i = 0; i < 3; ++i) { StrokeVertex v; v.position = {float(i), float(i * i)}; StrokeVertex::AppendToMesh(m, v); } m.AppendTriangleIndices({0, 1, 2}); MeshFormat::AttributeId omit[] = {MeshFormat::AttributeId::kSurfaceUv}; auto p = StrokeVertex::MakeCustomPackingArray(m.Format(), omit); auto q = PartitionedMesh::FromMutableMesh(m, {}, omit, p.Values()); ai_assert(q.ok(), "harness-mesh"); if (!q.ok()) return; auto o = c.GetForStroke(*q, 0); ai_assert(o.ok() && !(*o == *x) && !(*o == *a), "other-format-other-specification"); if (o.ok()) ai_assert((int)(*o)->stride_ == q->RenderGroupFormat(0).PackedVertexStride(), "other-format-other-specification"); auto x2 = c.GetForStroke(s.p, 0); ai_assert(x2.ok() && *x2 == *x, "one-specification-per-format");
}
PROP(specification_cache_errors) { skia_native_internal::MeshSpecificationCache c; Shape s = Built(); uint32_t i = ai_u32(3, 0xFFFFFFFFu, "group"); auto r = c.GetForStroke(s.p, ai_bool("empty") ? 1 : i); ai_assert(!r.ok() && r.status().code() == absl::StatusCode::kInvalidArgument, "missing-or-empty-group-rejected"); }
