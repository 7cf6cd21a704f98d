// J02: the geometry natives compute what the C++ geometry computes from the same numbers, and hand all of it to Java.
// unit: ink/geometry/internal/jni/angle_jni.cc
// unit: ink/geometry/internal/jni/triangle_jni.cc
// unit: ink/geometry/internal/jni/vec_jni.cc
// unit: ink/geometry/internal/jni/rect_jni.cc
// unit: ink/geometry/internal/jni/affine_transform_jni.cc
// unit: ink/geometry/internal/jni/parallelogram_jni.cc
// unit: ink/geometry/internal/jni/mutable_envelope_jni.cc
// unit: ink/geometry/internal/jni/mesh_format_jni.cc
#include <jni.h>
#include "ink/geometry/affine_transform.h"
#include "ink/geometry/angle.h"
#include "ink/geometry/envelope.h"
#include "ink/geometry/internal/jni/envelope_jni_helper.h"
#include "ink/geometry/internal/jni/parallelogram_jni_helper.h"
#include "ink/geometry/internal/jni/point_jni_helper.h"
#include "ink/geometry/internal/jni/rect_jni_helper.h"
#include "ink/geometry/internal/jni/vec_jni_helper.h"
#include "ink/geometry/mesh_format.h"
#include "ink/geometry/point.h"
#include "ink/geometry/quad.h"
#include "ink/geometry/rect.h"
#include "ink/geometry/segment.h"
#include "ink/geometry/triangle.h"
#include "ink/geometry/vec.h"
#include "specs/common.h"
using namespace ink;
using F = jfloat;
#define N(m, r, ...) extern "C" r Java_androidx_ink_##m(JNIEnv*, jclass, __VA_ARGS__)
N(geometry_Angle_nativeNormalized, F, F); N(geometry_Angle_nativeNormalizedAboutZero, F, F);
N(geometry_TriangleNative_nativeContains, jboolean, F, F, F, F, F, F, F, F);
N(geometry_internal_VecNative_unitVec, jobject, F, F, jclass); N(geometry_internal_VecNative_populateUnitVec, void, F, F, jobject);
N(geometry_internal_VecNative_absoluteAngleBetween, F, F, F, F, F); N(geometry_internal_VecNative_signedAngleBetween, F, F, F, F, F);
N(geometry_internal_BoxNative_createCenter, jobject, F, F, F, F, jclass); N(geometry_internal_BoxNative_populateCenter, void, F, F, F, F, jobject);
N(geometry_internal_BoxNative_containsPoint, jboolean, F, F, F, F, F, F); N(geometry_internal_BoxNative_containsBox, jboolean, F, F, F, F, F, F, F, F);
N(geometry_internal_AffineTransformNative_createFromApplyParallelogram, jobject, F, F, F, F, F, F, F, F, F, F, F, F, jclass, jclass);
N(geometry_internal_AffineTransformNative_populateFromApplyParallelogram, void, F, F, F, F, F, F, F, F, F, F, F, F, jobject);
N(geometry_internal_ParallelogramNative_createBoundingBox, jobject, F, F, F, F, F, F, jclass, jclass); N(geometry_internal_ParallelogramNative_populateBoundingBox, void, F, F, F, F, F, F, jobject);
N(geometry_internal_ParallelogramNative_createSemiAxes, jobjectArray, F, F, F, F, F, F, jclass); N(geometry_internal_ParallelogramNative_populateSemiAxes, void, F, F, F, F, F, F, jobject, jobject);
N(geometry_internal_ParallelogramNative_createCorners, jobjectArray, F, F, F, F, F, F, jclass); N(geometry_internal_ParallelogramNative_populateCorners, void, F, F, F, F, F, F, jobject, jobject, jobject, jobject);
N(geometry_internal_ParallelogramNative_contains, jboolean, F, F, F, F, F, F, F, F);
N(geometry_BoxAccumulatorNative_nativeAddSegment, void, jboolean, F, F, F, F, F, F, F, F, jobject); N(geometry_BoxAccumulatorNative_nativeAddTriangle, void, jboolean, F, F, F, F, F, F, F, F, F, F, jobject);
N(geometry_BoxAccumulatorNative_nativeAddParallelogram, void, jboolean, F, F, F, F, F, F, F, F, F, F, jobject); N(geometry_BoxAccumulatorNative_nativeAddPoint, void, jboolean, F, F, F, F, F, F, jobject);
N(geometry_BoxAccumulatorNative_nativeAddOptionalBox, void, jboolean, F, F, F, F, jboolean, F, F, F, F, jobject);
N(geometry_MeshFormat_nativeIsPackedEquivalent, jboolean, jlong, jlong); N(geometry_MeshFormat_nativeIsUnpackedEquivalent, jboolean, jlong, jlong); N(geometry_MeshFormat_nativeFree, void, jlong);
#define J(m) Java_androidx_ink_##m
#define C(n) jvm::Class(JVM_INK "/geometry/" n)
#define O(n) jvm::Object(JVM_INK "/geometry/" n)
namespace {
void Is(jobject o, const char* type, std::initializer_list<float> f, const char* id) {
  ai_assert(o != nullptr && jvm::Has(o->type, type), id); int i = 0; for (float v : f) ai_ident_f(o->f[i++], v, id);
}
void IsImm(jobject o, float x, float y, const char* id) { Is(o, "/ImmutableVec", {x, y}, id); }
// Values at every relative order; concrete ones make the branches of the geometry fold.
const float kV[] = {0.0f, 1.0f, -2.5f, 3.25f, 7.0f, -0.75f, 4.5f, -6.0f, 2.0f, 0.5f, -1.25f, 5.75f, -3.5f, 6.25f, 1.75f, -4.0f};
unsigned seed = 1; float Next() { seed = seed * 1103515245u + 12345u; return kV[(seed >> 16) % 16]; }
Rect R(float a, float b, float c, float d) { return Rect::FromTwoPoints({a, b}, {c, d}); }
Quad Q(float a, float b, float w, float h, float r, float s) { return Quad::FromCenterDimensionsRotationAndShear({a, b}, w, h, Angle::Radians(r), s); }
}
PROP(jshape_angles) {
  JNIEnv env; for (float a : {0.0f, 1.0f, -1.0f, 3.0f, 4.0f, 7.0f, -7.0f, 20.0f, -3.1415927f, 3.1415927f, 6.2831855f}) {
    ai_assert(J(geometry_Angle_nativeNormalized)(&env, nullptr, a) == Angle::Radians(a).Normalized().ValueInRadians(), "normalized"); ai_assert(J(geometry_Angle_nativeNormalizedAboutZero)(&env, nullptr, a) == Angle::Radians(a).NormalizedAboutZero().ValueInRadians(), "normalized-about-zero"); }
  float a = ai_f32_in(-20, 20, "a"); float n = J(geometry_Angle_nativeNormalized)(&env, nullptr, a), z = J(geometry_Angle_nativeNormalizedAboutZero)(&env, nullptr, a);
  ai_assert(In(n, 0, kTwoPiF), "normalized-range"); ai_assert(In(z, -kPiF, kPiF), "normalized-about-zero-range");
}
PROP(jshape_vectors) {
  JNIEnv env; for (int i = 0; i < 24; ++i) { float x = Next(), y = Next(), u = Next(), v = Next(); Vec w = Vec{x, y}.AsUnitVec();
    IsImm(J(geometry_internal_VecNative_unitVec)(&env, nullptr, x, y, C("ImmutableVec")), w.x, w.y, "unit-vector"); jobject m = O("MutableVec"); J(geometry_internal_VecNative_populateUnitVec)(&env, nullptr, x, y, m); Is(m, "/MutableVec", {w.x, w.y}, "unit-vector-filled");
    ai_assert(J(geometry_internal_VecNative_absoluteAngleBetween)(&env, nullptr, x, y, u, v) == Vec::AbsoluteAngleBetween({x, y}, {u, v}).ValueInRadians(), "absolute-angle"); ai_assert(J(geometry_internal_VecNative_signedAngleBetween)(&env, nullptr, x, y, u, v) == Vec::SignedAngleBetween({x, y}, {u, v}).ValueInRadians(), "signed-angle"); }
}
PROP(jshape_helpers) {
  JNIEnv env; float x = ai_f32("x"), y = ai_f32("y"), u = ai_f32("u"), v = ai_f32("v"); jobject m = O("MutableVec");
  IsImm(CreateJImmutableVecFromVec(&env, {x, y}, C("ImmutableVec")), x, y, "vec-created"); IsImm(CreateJImmutableVecFromPoint(&env, {x, y}, C("ImmutableVec")), x, y, "point-created");
  FillJMutableVecFromVec(&env, m, {x, y}); Is(m, "/MutableVec", {x, y}, "vec-filled"); FillJMutableVecFromPoint(&env, m, {u, v}); Is(m, "/MutableVec", {u, v}, "point-filled");
  FillJMutablePoint(&env, m, {y, x}); Is(m, "/MutableVec", {y, x}, "point-helper");
  Rect r = R(1, -2, 5, 4); jobject b = O("MutableBox"); FillJMutableBoxFromRect(&env, b, r); Is(b, "/MutableBox", {1, -2, 5, 4}, "box-filled");
  jobject c = CreateJImmutableBoxFromRect(&env, r, C("ImmutableBox"), C("ImmutableVec")); Is(c, "/ImmutableBox", {}, "box-created"); IsImm(c->o[0], 1, -2, "box-minimum"); IsImm(c->o[1], 5, 4, "box-maximum");
  Quad q = Q(1, 2, 3, 4, 0.5f, 0.25f); jobject p = CreateJImmutableParallelogram(&env, q, C("ImmutableParallelogram"), C("ImmutableVec")); Is(p, "/ImmutableParallelogram", {3, 4, q.Rotation().ValueInRadians(), 0.25f}, "parallelogram-created"); IsImm(p->o[0], 1, 2, "parallelogram-center");
  jobject mp = O("MutableParallelogram"); FillJMutableParallelogram(&env, q, mp); Is(mp, "/MutableParallelogram", {1, 2, 3, 4, q.Rotation().ValueInRadians(), 0.25f}, "parallelogram-filled");
  jobject e = O("BoxAccumulator"); e->l[0] = 7; FillJMutableEnvelope(&env, Envelope(), e); ai_assert(e->l[0] == 0 && e->touched == 1, "empty-envelope-resets"); FillJMutableEnvelope(&env, Envelope(r), e); ai_assert(e->l[0] == 1, "envelope-has-bounds"); Is(e, "/BoxAccumulator", {1, -2, 5, 4}, "envelope-filled");
}
PROP(jshape_triangle_contains) {
  JNIEnv env; for (int i = 0; i < 40; ++i) { float a = Next(), b = Next(), c = Next(), d = Next(), e = Next(), f = Next(), x = Next(), y = Next(); if (i % 2) { x = (a + c + e) / 3 + 0.125f; y = (b + d + f) / 3; } ai_assert((J(geometry_TriangleNative_nativeContains)(&env, nullptr, a, b, c, d, e, f, x, y) != 0) == Triangle{{a, b}, {c, d}, {e, f}}.Contains(Point{x, y}), "triangle-contains"); }
}
PROP(jshape_boxes) {
  JNIEnv env; float a = Fin("a"), b = Fin("b"), c = Fin("c"), d = Fin("d"); ai_assume(a <= c); ai_assume(b <= d);
  Point m = R(a, b, c, d).Center(); IsImm(J(geometry_internal_BoxNative_createCenter)(&env, nullptr, a, b, c, d, C("ImmutableVec")), m.x, m.y, "box-center"); jobject o = O("MutableVec"); J(geometry_internal_BoxNative_populateCenter)(&env, nullptr, a, b, c, d, o); Is(o, "/MutableVec", {m.x, m.y}, "box-center-filled");
}
PROP(jshape_box_contains) {
  JNIEnv env; for (int i = 0; i < 60; ++i) { float a = Next(), b = Next(), c = Next(), d = Next(), e = Next(), f = Next(), g = Next(), h = Next(); if (i % 2) { e = a + (c - a) * 0.25f; f = b + (d - b) * 0.5f; } if (i % 4 == 3) { g = a + (c - a) * 0.5f; h = b + (d - b) * 0.75f; }
    ai_assert((J(geometry_internal_BoxNative_containsPoint)(&env, nullptr, a, b, c, d, e, f) != 0) == R(a, b, c, d).Contains(Point{e, f}), "box-contains-point"); ai_assert((J(geometry_internal_BoxNative_containsBox)(&env, nullptr, a, b, c, d, e, f, g, h) != 0) == R(a, b, c, d).Contains(R(e, f, g, h)), "box-contains-box"); }
}
PROP(jshape_parallelograms) {
  JNIEnv env; for (int i = 0; i < 24; ++i) { float x = Next(), y = Next(), w = Next(), h = Next(), r = Next() / 4, s = Next() / 4, px = Next(), py = Next(); Quad q = Q(x, y, w, h, r, s); auto ax = q.SemiAxes(); auto co = q.Corners(); Rect bb = *Envelope(q).AsRect();
    jobject b = J(geometry_internal_ParallelogramNative_createBoundingBox)(&env, nullptr, x, y, w, h, r, s, C("ImmutableBox"), C("ImmutableVec")); Is(b, "/ImmutableBox", {}, "bounding-box"); IsImm(b->o[0], bb.XMin(), bb.YMin(), "bounding-box-minimum"); IsImm(b->o[1], bb.XMax(), bb.YMax(), "bounding-box-maximum");
    jobject mb = O("MutableBox"); J(geometry_internal_ParallelogramNative_populateBoundingBox)(&env, nullptr, x, y, w, h, r, s, mb); Is(mb, "/MutableBox", {bb.XMin(), bb.YMin(), bb.XMax(), bb.YMax()}, "bounding-box-filled");
    jobjectArray sa = J(geometry_internal_ParallelogramNative_createSemiAxes)(&env, nullptr, x, y, w, h, r, s, C("ImmutableVec")); ai_assert(sa->length == 2, "two-semi-axes"); IsImm(sa->data[0], ax.first.x, ax.first.y, "first-semi-axis"); IsImm(sa->data[1], ax.second.x, ax.second.y, "second-semi-axis");
    jobject m1 = O("MutableVec"), m2 = O("MutableVec"), m3 = O("MutableVec"), m4 = O("MutableVec"); J(geometry_internal_ParallelogramNative_populateSemiAxes)(&env, nullptr, x, y, w, h, r, s, m1, m2); Is(m1, "/MutableVec", {ax.first.x, ax.first.y}, "first-semi-axis-filled"); Is(m2, "/MutableVec", {ax.second.x, ax.second.y}, "second-semi-axis-filled");
    jobjectArray ca = J(geometry_internal_ParallelogramNative_createCorners)(&env, nullptr, x, y, w, h, r, s, C("ImmutableVec")); ai_assert(ca->length == 4, "four-corners"); for (int k = 0; k < 4; ++k) IsImm(ca->data[k], co[k].x, co[k].y, "corner");
    J(geometry_internal_ParallelogramNative_populateCorners)(&env, nullptr, x, y, w, h, r, s, m1, m2, m3, m4); jobject ms[] = {m1, m2, m3, m4}; for (int k = 0; k < 4; ++k) Is(ms[k], "/MutableVec", {co[k].x, co[k].y}, "corner-filled");
    if (i % 2) { px = x + ax.first.x * 0.5f + ax.second.x * 0.25f; py = y + ax.first.y * 0.5f + ax.second.y * 0.25f; } ai_assert((J(geometry_internal_ParallelogramNative_contains)(&env, nullptr, x, y, w, h, r, s, px, py) != 0) == q.Contains(Point{px, py}), "parallelogram-contains"); }
}
PROP(jshape_affine) {
  JNIEnv env; for (int i = 0; i < 16; ++i) { float t[6], q[6]; for (float& v : t) v = Next(); for (float& v : q) v = Next(); q[4] /= 4; q[5] /= 4; if (t[0] * t[4] == t[1] * t[3]) t[0] += 1;
    Quad r = AffineTransform(t[0], t[1], t[2], t[3], t[4], t[5]).Apply(Q(q[0], q[1], q[2], q[3], q[4], q[5])); float ro = r.Rotation().ValueInRadians();
    jobject o = J(geometry_internal_AffineTransformNative_createFromApplyParallelogram)(&env, nullptr, t[0], t[1], t[2], t[3], t[4], t[5], q[0], q[1], q[2], q[3], q[4], q[5], C("ImmutableParallelogram"), C("ImmutableVec")); Is(o, "/ImmutableParallelogram", {r.Width(), r.Height(), ro, r.ShearFactor()}, "transformed"); IsImm(o->o[0], r.Center().x, r.Center().y, "transformed-center");
    jobject m = O("MutableParallelogram"); J(geometry_internal_AffineTransformNative_populateFromApplyParallelogram)(&env, nullptr, t[0], t[1], t[2], t[3], t[4], t[5], q[0], q[1], q[2], q[3], q[4], q[5], m); Is(m, "/MutableParallelogram", {r.Center().x, r.Center().y, r.Width(), r.Height(), ro, r.ShearFactor()}, "transformed-filled"); }
}
namespace { void Holds(jobject o, const Envelope& e, const char* id) { ai_assert(o->touched == 1 && (o->l[0] != 0) == !e.IsEmpty(), id); if (e.AsRect()) Is(o, "/BoxAccumulator", {e.AsRect()->XMin(), e.AsRect()->YMin(), e.AsRect()->XMax(), e.AsRect()->YMax()}, id); } }
PROP(jshape_accumulator) {
  JNIEnv env; for (int i = 0; i < 24; ++i) { bool has = i % 3 != 0; float b[4], v[6]; for (float& x : b) x = Next(); for (float& x : v) x = Next(); float q4 = v[4] / 4, q5 = v[5] / 4; auto start = [&] { return has ? Envelope(R(b[0], b[1], b[2], b[3])) : Envelope(); }; jobject o; Envelope e;
    o = O("BoxAccumulator"); e = start(); J(geometry_BoxAccumulatorNative_nativeAddSegment)(&env, nullptr, has, b[0], b[1], b[2], b[3], v[0], v[1], v[2], v[3], o); e.Add(Segment{{v[0], v[1]}, {v[2], v[3]}}); Holds(o, e, "segment-added");
    o = O("BoxAccumulator"); e = start(); J(geometry_BoxAccumulatorNative_nativeAddTriangle)(&env, nullptr, has, b[0], b[1], b[2], b[3], v[0], v[1], v[2], v[3], v[4], v[5], o); e.Add(Triangle{{v[0], v[1]}, {v[2], v[3]}, {v[4], v[5]}}); Holds(o, e, "triangle-added");
    o = O("BoxAccumulator"); e = start(); J(geometry_BoxAccumulatorNative_nativeAddParallelogram)(&env, nullptr, has, b[0], b[1], b[2], b[3], v[0], v[1], v[2], v[3], q4, q5, o); e.Add(Q(v[0], v[1], v[2], v[3], q4, q5)); Holds(o, e, "parallelogram-added");
    o = O("BoxAccumulator"); e = start(); J(geometry_BoxAccumulatorNative_nativeAddPoint)(&env, nullptr, has, b[0], b[1], b[2], b[3], v[0], v[1], o); e.Add(Point{v[0], v[1]}); Holds(o, e, "point-added");
    o = O("BoxAccumulator"); e = start(); J(geometry_BoxAccumulatorNative_nativeAddOptionalBox)(&env, nullptr, has, b[0], b[1], b[2], b[3], true, v[0], v[1], v[2], v[3], o); e.Add(R(v[0], v[1], v[2], v[3])); Holds(o, e, "box-added");
    o = O("BoxAccumulator"); J(geometry_BoxAccumulatorNative_nativeAddOptionalBox)(&env, nullptr, has, b[0], b[1], b[2], b[3], false, v[0], v[1], v[2], v[3], o); ai_assert(o->touched == 0 || (has ? o->l[0] == 1 && o->f[0] == std::min(b[0], b[2]) && o->f[3] == std::max(b[1], b[3]) : o->l[0] == 0), "no-box-changes-nothing"); }
}
PROP(jshape_formats) {
  using AT = MeshFormat::AttributeType; using AI = MeshFormat::AttributeId; JNIEnv env;
  auto mk = [](std::initializer_list<std::pair<AT, AI>> a) { std::vector<std::pair<AT, AI>> v(a); auto r = MeshFormat::Create(v, MeshFormat::IndexFormat::k32BitUnpacked16BitPacked); ABSL_CHECK(r.ok()); return *r; };
  MeshFormat f[] = {MeshFormat(), mk({{AT::kFloat2PackedIn1Float, AI::kPosition}}), mk({{AT::kFloat2PackedIn3UnsignedBytes_XY12, AI::kPosition}}), mk({{AT::kFloat2PackedIn1Float, AI::kPosition}, {AT::kFloat1Unpacked, AI::kOpacityShift}}), mk({{AT::kFloat2PackedIn1Float, AI::kPosition}, {AT::kFloat1PackedIn1UnsignedByte, AI::kOpacityShift}})};
  for (auto& a : f) for (auto& b : f) { ai_assert((J(geometry_MeshFormat_nativeIsPackedEquivalent)(&env, nullptr, (jlong)&a, (jlong)&b) != 0) == MeshFormat::IsPackedEquivalent(a, b), "packed-equivalence"); ai_assert((J(geometry_MeshFormat_nativeIsUnpackedEquivalent)(&env, nullptr, (jlong)&a, (jlong)&b) != 0) == MeshFormat::IsUnpackedEquivalent(a, b), "unpacked-equivalence"); }
  J(geometry_MeshFormat_nativeFree)(&env, nullptr, (jlong) new MeshFormat(f[3])); J(geometry_MeshFormat_nativeFree)(&env, nullptr, 0);
}
