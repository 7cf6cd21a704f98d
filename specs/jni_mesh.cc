// J05: the mesh natives hand Java all of a mesh's data, copies it owns, and the whole of a mesh specification.
// unit: ink/geometry/internal/jni/mesh_jni.cc
// unit: ink/geometry/internal/jni/partitioned_mesh_jni.cc
// unit: ink/rendering/skia/common_internal/jni/canvas_mesh_renderer_jni.cc
// flags: -DINK_SHIM_STATUS_TEXT
#include <jni.h>
#include "ink/geometry/internal/jni/envelope_jni_helper.h"
#include "ink/geometry/internal/jni/vec_jni_helper.h"
#include "ink/geometry/mesh.h"
#include "ink/geometry/mesh_format.h"
#include "ink/geometry/mutable_mesh.h"
#include "ink/geometry/partitioned_mesh.h"
#include "ink/rendering/skia/common_internal/mesh_specification_data.h"
#include "ink/strokes/internal/stroke_vertex.h"
#include "specs/common.h"
using namespace ink;
using F = MeshFormat; using AT = F::AttributeType; using AI = F::AttributeId; using D = skia_common_internal::MeshSpecificationData; using PM = PartitionedMesh; using VP = PM::VertexIndexPair;
#define N(m, r, ...) extern "C" r Java_androidx_ink_##m(JNIEnv*, jclass, ##__VA_ARGS__)
N(geometry_MeshNative_freeNative, void, jlong); N(geometry_MeshNative_createRawVertexBuffer, jobject, jlong); N(geometry_MeshNative_getVertexStride, jint, jlong); N(geometry_MeshNative_getVertexCount, jint, jlong); N(geometry_MeshNative_createRawTriangleIndexBuffer, jobject, jlong); N(geometry_MeshNative_getTriangleCount, jint, jlong); N(geometry_MeshNative_getAttributeCount, jint, jlong); N(geometry_MeshNative_fillBounds, void, jlong, jobject); N(geometry_MeshNative_fillAttributeUnpackingParams, jint, jlong, jint, jfloatArray, jfloatArray); N(geometry_MeshNative_allocCopyOfFormat, jlong, jlong); N(geometry_MeshNative_fillPosition, void, jlong, jint, jobject); N(geometry_MeshNative_allocNativeNewEmptyMesh, jlong);
N(geometry_PartitionedMeshNative_free, void, jlong); N(geometry_PartitionedMeshNative_getNativeAddressesOfMeshes, jlongArray, jlong, jint); N(geometry_PartitionedMeshNative_getRenderGroupCount, jint, jlong); N(geometry_PartitionedMeshNative_getRenderGroupFormat, jlong, jlong, jint); N(geometry_PartitionedMeshNative_getOutlineCount, jint, jlong, jint); N(geometry_PartitionedMeshNative_getOutlineVertexCount, jint, jlong, jint, jint); N(geometry_PartitionedMeshNative_fillOutlineMeshIndexAndMeshVertexIndex, void, jlong, jint, jint, jint, jintArray); N(geometry_PartitionedMeshNative_alloc, jlong);
N(geometry_PartitionedMeshNative_initializeSpatialIndex, void, jlong); N(geometry_PartitionedMeshNative_isSpatialIndexInitialized, jboolean, jlong);
N(rendering_android_canvas_internal_CanvasMeshRenderer_fillSkiaMeshSpecData, void, jlong, jboolean, jintArray, jintArray, jobjectArray, jintArray, jintArray, jobjectArray, jintArray, jintArray, jobjectArray, jobjectArray, jobjectArray); N(rendering_android_canvas_internal_CanvasMeshRenderer_nativeIsMeshFormatRenderable, jboolean, jlong, jboolean);
#define MN(m) Java_androidx_ink_geometry_MeshNative_##m
#define PN(m) Java_androidx_ink_geometry_PartitionedMeshNative_##m
#define RN(m) Java_androidx_ink_rendering_android_canvas_internal_CanvasMeshRenderer_##m
namespace {
template <class T> T& At(jlong p) { return *reinterpret_cast<T*>(p); }
template <class T> jlong P(const T& v) { return reinterpret_cast<jlong>(&v); }
bool Quiet(const JNIEnv& e) { return e.thrown == 0 && e.pending == nullptr && e.chars == 0 && e.globals == 0 && e.elements == 0; }
F Fmt(const std::vector<std::pair<AT, AI>>& s) { auto f = F::Create(s, F::IndexFormat::k32BitUnpacked16BitPacked); if (!f.ok()) ai_stop(); return *f; }
// a mesh of n vertices on a zigzag
Mesh MakeMesh(const F& f, int n, float at = 0) { MutableMesh m(f); for (int i = 0; i < n; ++i) { m.AppendVertex({at + i, float((i * i) % 5)}); for (size_t a = 0; a < f.Attributes().size(); ++a) if (f.Attributes()[a].id != AI::kPosition) { SmallArray<float, 4> v(F::ComponentCount(f.Attributes()[a].type)); for (int k = 0; k < v.Size(); ++k) v[k] = 0.25f * i + k; m.SetFloatVertexAttribute(i, a, v); } } for (int i = 0; i + 2 < n; ++i) { uint32_t u = i; m.AppendTriangleIndices(i % 2 ? std::array<uint32_t, 3>{u, u + 2, u + 1} : std::array<uint32_t, 3>{u, u + 1, u + 2}); } auto r = m.AsMeshes(); if (!r.ok() || r->size() != 1) ai_stop(); return (*r)[0]; }
const F& Pick(int k) { static const F f[] = {Fmt({{AT::kFloat2Unpacked, AI::kPosition}}), Fmt({{AT::kFloat2PackedIn1Float, AI::kPosition}, {AT::kFloat1PackedIn1UnsignedByte, AI::kOpacityShift}}), Fmt({{AT::kFloat1Unpacked, AI::kCustom0}, {AT::kFloat2PackedIn3UnsignedBytes_XY12, AI::kPosition}, {AT::kFloat3PackedIn1Float, AI::kColorShiftHsl}}), Fmt({{AT::kFloat2Unpacked, AI::kPosition}, {AT::kFloat4PackedIn2Floats, AI::kCustom1}})}; return f[k]; }
void Buffer(jobject b, absl::Span<const std::byte> want, const char* id) { ai_assert(b == nullptr ? want.data() == nullptr : b->address == (const void*)want.data() && b->capacity == (long)want.size(), id); }
}
PROP(jmesh_read) {
  for (int k = 0; k < 4; ++k) for (int n : {3, 5}) { Mesh m = MakeMesh(Pick(k), n, 2.5f); JNIEnv env; jlong p = P(m);
    ai_assert(MN(getVertexStride)(&env, nullptr, p) == (int)m.VertexStride() && MN(getVertexCount)(&env, nullptr, p) == n && MN(getTriangleCount)(&env, nullptr, p) == n - 2 && MN(getAttributeCount)(&env, nullptr, p) == (int)Pick(k).Attributes().size(), "mesh-counts");
    Buffer(MN(createRawVertexBuffer)(&env, nullptr, p), m.RawVertexData(), "whole-vertex-buffer"); Buffer(MN(createRawTriangleIndexBuffer)(&env, nullptr, p), m.RawIndexData(), "whole-index-buffer");
    jobject b = jvm::Object(JVM_INK "/geometry/BoxAccumulator"); MN(fillBounds)(&env, nullptr, p, b); Rect r = *m.Bounds().AsRect(); ai_assert(b->l[0] == 1 && b->f[0] == r.XMin() && b->f[1] == r.YMin() && b->f[2] == r.XMax() && b->f[3] == r.YMax(), "mesh-bounds");
    bool same = true; for (int i = 0; i < n; ++i) { jobject v = jvm::Object(JVM_INK "/geometry/MutableVec"); MN(fillPosition)(&env, nullptr, p, i, v); same = same && v->f[0] == m.VertexPosition(i).x && v->f[1] == m.VertexPosition(i).y; } ai_assert(same, "vertex-positions");
    same = true; bool rest = true; for (int a = 0; a < (int)Pick(k).Attributes().size(); ++a) { const float z[4] = {-7, -7, -7, -7}; auto* o = jvm::Array<_jfloatArray>(4, z); auto* s = jvm::Array<_jfloatArray>(4, z); int c = MN(fillAttributeUnpackingParams)(&env, nullptr, p, a, o, s); auto& w = m.VertexAttributeUnpackingParams(a).components; same = same && c == (int)w.Size(); for (int i = 0; i < 4; ++i) if (i < (int)w.Size()) same = same && o->data[i] == w[i].offset && s->data[i] == w[i].scale; else rest = rest && o->data[i] == -7 && s->data[i] == -7; } ai_assert(same, "unpacking-parameters"); ai_assert(rest, "other-entries-left-alone");
    jlong f = MN(allocCopyOfFormat)(&env, nullptr, p); ai_assert(At<F>(f) == Pick(k) && &At<F>(f) != &m.Format(), "copy-of-the-format"); delete &At<F>(f); ai_assert(Quiet(env), "reading-throws-nothing"); }
}
PROP(jmesh_empty) { JNIEnv env; Mesh w; int64_t before = ai_live(); jlong p = MN(allocNativeNewEmptyMesh)(&env, nullptr); ai_assert(MN(getVertexCount)(&env, nullptr, p) == 0 && MN(getTriangleCount)(&env, nullptr, p) == 0 && MN(getAttributeCount)(&env, nullptr, p) == (int)w.Format().Attributes().size(), "empty-mesh"); MN(freeNative)(&env, nullptr, p); ai_assert(ai_live() == before, "freed-mesh-leaves-nothing"); jobject b = jvm::Object(JVM_INK "/geometry/BoxAccumulator"); b->l[0] = 1; MN(fillBounds)(&env, nullptr, P(w), b); ai_assert(b->l[0] == 0, "empty-mesh-has-no-bounds"); }
PROP(jmesh_freed) { JNIEnv env; Mesh w = MakeMesh(Pick(1), 4); int64_t before = ai_live(); auto* c = new Mesh(w); MN(freeNative)(&env, nullptr, P(*c)); ai_assert(ai_live() == before && w.VertexCount() == 4 && w.VertexPosition(3).x == 3, "freed-copy-leaves-the-mesh"); }
PROP(jmesh_partitioned) {
  // two groups, the first of two meshes, with outlines of different lengths
  std::vector<Mesh> g0 = {MakeMesh(Pick(0), 3), MakeMesh(Pick(0), 4, 10)}, g1 = {MakeMesh(Pick(1), 5, 20)}; std::vector<VP> a = {{0, 0}, {1, 3}, {0, 2}}, b = {{1, 1}}, c = {{0, 4}, {0, 1}}; std::vector<absl::Span<const VP>> o0 = {a, b}, o1 = {c}; std::vector<PM::MeshGroup> groups = {{.meshes = g0, .outlines = o0}, {.meshes = g1, .outlines = o1}}; auto made = PM::FromMeshGroups(groups); if (!made.ok()) ai_stop(); const PM& m = *made; JNIEnv env; jlong p = P(m);
  ai_assert(PN(getRenderGroupCount)(&env, nullptr, p) == 2, "group-count");
  for (int g = 0; g < 2; ++g) { ai_assert(PN(getOutlineCount)(&env, nullptr, p, g) == (int)m.OutlineCount(g), "outline-count"); jlong f = PN(getRenderGroupFormat)(&env, nullptr, p, g); ai_assert(At<F>(f) == m.RenderGroupFormat(g), "group-format"); delete &At<F>(f);
    bool same = true; for (int o = 0; o < (int)m.OutlineCount(g); ++o) { auto s = m.Outline(g, o); same = same && PN(getOutlineVertexCount)(&env, nullptr, p, g, o) == (int)s.size(); for (int v = 0; v < (int)s.size(); ++v) { const int z[3] = {-7, -7, -7}; auto* x = jvm::Array<_jintArray>(3, z); PN(fillOutlineMeshIndexAndMeshVertexIndex)(&env, nullptr, p, g, o, v, x); same = same && x->data[0] == s[v].mesh_index && x->data[1] == s[v].vertex_index && x->data[2] == -7; } } ai_assert(same, "outline-vertices");
    jlongArray x = PN(getNativeAddressesOfMeshes)(&env, nullptr, p, g); auto ms = m.RenderGroupMeshes(g); ai_assert(x->length == (int)ms.size(), "one-address-per-mesh"); bool own = true, data = true; for (int i = 0; i < x->length; ++i) { const Mesh* q = &At<Mesh>(x->data[i]); own = own && q != &ms[i]; data = data && q->RawVertexData().data() == ms[i].RawVertexData().data() && q->VertexCount() == ms[i].VertexCount() && q->TriangleCount() == ms[i].TriangleCount(); MN(freeNative)(&env, nullptr, x->data[i]); } ai_assert(own, "mesh-addresses-are-owned-copies"); ai_assert(data, "mesh-addresses-in-order"); }
  ai_assert(m.RenderGroupMeshes(0)[1].VertexCount() == 4 && Quiet(env), "freeing-copies-leaves-the-mesh");
}
PROP(jmesh_partitioned_index) { JNIEnv env; jlong p = PN(alloc)(&env, nullptr); ai_assert(PN(getRenderGroupCount)(&env, nullptr, p) == 0, "new-partitioned-mesh-is-empty"); PN(free)(&env, nullptr, p); std::vector<Mesh> g0 = {MakeMesh(Pick(0), 3)}; std::vector<PM::MeshGroup> groups = {{.meshes = g0}}; auto made = PM::FromMeshGroups(groups); if (!made.ok()) ai_stop(); ai_assert(!PN(isSpatialIndexInitialized)(&env, nullptr, P(*made)), "index-not-made-in-advance"); PN(initializeSpatialIndex)(&env, nullptr, P(*made)); ai_assert(PN(isSpatialIndexInitialized)(&env, nullptr, P(*made)) && made->IsSpatialIndexInitialized(), "index-made-on-request"); }
namespace {
bool Text(jobject o, absl::string_view s) { return o != nullptr && absl::string_view(static_cast<jstring>(o)->value) == s; }
void Spec(const F& f, bool packed) {
  JNIEnv env; auto want = packed ? D::CreateForStroke(f) : D::CreateForInProgressStroke(f); ai_assert((RN(nativeIsMeshFormatRenderable)(&env, nullptr, P(f), packed) != 0) == want.ok(), "renderable-exactly-when-a-specification-exists"); ai_assert(Quiet(env), "asking-throws-nothing");
  const int z[8] = {-7, -7, -7, -7, -7, -7, -7, -7}; jobject none[8] = {}; auto ints = [&](int n) { return jvm::Array<_jintArray>(n, z); }; auto objs = [&](int n) { return jvm::Array<_jobjectArray>(n, none); };
  auto *at = ints(D::kMaxAttributes), *ao = ints(D::kMaxAttributes), *vs = ints(1), *vt = ints(D::kMaxVaryings), *ui = ints(D::kMaxUniforms), *uu = ints(D::kMaxUniforms); auto *an = objs(D::kMaxAttributes), *vn = objs(D::kMaxVaryings), *un = objs(D::kMaxUniforms), *sv = objs(1), *sf = objs(1);
  RN(fillSkiaMeshSpecData)(&env, nullptr, P(f), packed, at, ao, an, vs, vt, vn, ui, uu, un, sv, sf);
  if (!want.ok()) { ai_assert(env.thrown == 1 && env.pending->message->value == want.status().ToString(), "unsupported-format-throws"); ai_assert(at->data[0] == -7 && an->data[0] == nullptr && vs->data[0] == -7 && sv->data[0] == nullptr, "nothing-filled-then"); return; }
  ai_assert(Quiet(env), "filling-throws-nothing"); bool ok = true; for (int i = 0; i < D::kMaxAttributes; ++i) ok = ok && (i < (int)want->attributes.Size() ? at->data[i] == (int)want->attributes[i].type && ao->data[i] == want->attributes[i].offset && Text(an->data[i], want->attributes[i].name) : at->data[i] == -1 && ao->data[i] == -1 && an->data[i] == nullptr); ai_assert(ok, "attributes-of-the-specification"); ai_assert(vs->data[0] == want->vertex_stride, "vertex-stride");
  ok = true; for (int i = 0; i < D::kMaxVaryings; ++i) ok = ok && (i < (int)want->varyings.Size() ? vt->data[i] == (int)want->varyings[i].type && Text(vn->data[i], want->varyings[i].name) : vt->data[i] == -1 && vn->data[i] == nullptr); ai_assert(ok, "varyings-of-the-specification");
  ok = true; for (int i = 0; i < D::kMaxUniforms; ++i) ok = ok && (i < (int)want->uniforms.Size() ? ui->data[i] == (int)want->uniforms[i].id && uu->data[i] == want->uniforms[i].unpacking_attribute_index.value_or(-1) && Text(un->data[i], D::GetUniformName(want->uniforms[i].id)) : ui->data[i] == -1 && uu->data[i] == -1 && un->data[i] == nullptr); ai_assert(ok, "uniforms-of-the-specification");
  ai_assert(Text(sv->data[0], want->vertex_shader_source), "vertex-shader"); ai_assert(Text(sf->data[0], want->fragment_shader_source), "fragment-shader");
}
F Without(int skip, int type_of = -1, AT t = AT::kFloat1Unpacked) { const F& full = strokes_internal::StrokeVertex::FullMeshFormat(); std::vector<std::pair<AT, AI>> l; int i = 0; for (auto& a : full.Attributes()) { if (i != skip) l.push_back({i == type_of ? t : a.type, a.id}); ++i; } return Fmt(l); }
}
PROP(jmesh_specification) { int n = strokes_internal::StrokeVertex::FullMeshFormat().Attributes().size(); for (bool packed : {true, false}) { Spec(strokes_internal::StrokeVertex::FullMeshFormat(), packed); for (int k = 1; k < n; ++k) Spec(Without(k), packed); for (int k = 0; k < 4; ++k) Spec(Pick(k), packed); } }
