// J02: every intersection native asks about exactly the shapes its numbers describe. Intersects is replaced by a recorder, so that the
// numbers are arbitrary; what it decides is property G06 and M06.
#include <jni.h>
#include "ink/geometry/affine_transform.h"
#include "ink/geometry/angle.h"
#include "ink/geometry/intersects.h"
#include "ink/geometry/partitioned_mesh.h"
#include "ink/geometry/point.h"
#include "ink/geometry/quad.h"
#include "ink/geometry/rect.h"
#include "ink/geometry/segment.h"
#include "ink/geometry/triangle.h"
#include "specs/common.h"
namespace ink { namespace rec {
struct Side { int kind = 0; int n = 0; float f[8]; const void* mesh = nullptr; void Add(float v) { f[n++] = v; } };
Side s[4]; int n = 0; int calls = 0; bool answer = false;
void Put(Point p) { Side& x = s[n++]; x.kind = 1; x.Add(p.x); x.Add(p.y); }
void Put(const Segment& p) { Side& x = s[n++]; x.kind = 2; x.Add(p.start.x); x.Add(p.start.y); x.Add(p.end.x); x.Add(p.end.y); }
void Put(const Triangle& p) { Side& x = s[n++]; x.kind = 3; x.Add(p.p0.x); x.Add(p.p0.y); x.Add(p.p1.x); x.Add(p.p1.y); x.Add(p.p2.x); x.Add(p.p2.y); }
void Put(const Rect& p) { Side& x = s[n++]; x.kind = 4; x.Add(p.XMin()); x.Add(p.YMin()); x.Add(p.XMax()); x.Add(p.YMax()); }
void Put(const Quad& p) { Side& x = s[n++]; x.kind = 5; x.Add(p.Center().x); x.Add(p.Center().y); x.Add(p.Width()); x.Add(p.Height()); x.Add(p.Rotation().ValueInRadians()); x.Add(p.ShearFactor()); }
void Put(const PartitionedMesh& p) { Side& x = s[n++]; x.kind = 6; x.mesh = &p; }
void Put(const AffineTransform& p) { Side& x = s[n++]; x.kind = 7; x.Add(p.A()); x.Add(p.B()); x.Add(p.C()); x.Add(p.D()); x.Add(p.E()); x.Add(p.F()); }
void Clear() { for (auto& x : s) x = Side(); n = 0; calls = 0; answer = ai_bool("answer"); }
}
template <class... T> bool RecIntersects(const T&... t) { (rec::Put(t), ...); ++rec::calls; return rec::answer; }
}
#define Intersects RecIntersects
#include "ink/geometry/internal/jni/intersects_jni.cc"
#undef Intersects
using namespace ink::rec;
#define J(m) Java_androidx_ink_geometry_Intersection_native##m##Intersects
#define A6(v) v[0], v[1], v[2], v[3], v[4], v[5]
namespace {
// Whether recorded side i is the shape of the given kind made of v; quads have a normalised rotation.
float vs[2][8], ts[2][8];
void Fill(float* v, int n, const char* name) { for (int i = 0; i < n; ++i) v[i] = Fin(name); }
void Same(const Side& x, int kind, const float* v, const char* id) {
  ai_assert(x.kind == kind, "kind-of-shape");
  if (kind == 4) { ai_ident_f(x.f[0], v[0], id); ai_ident_f(x.f[1], v[1], id); ai_ident_f(x.f[2], v[2], id); ai_ident_f(x.f[3], v[3], id); return; }
  if (kind == 5) { for (int i = 0; i < 6; ++i) { if (i == 4) ai_assert(x.f[4] == Quad::FromCenterDimensionsRotationAndShear({0, 0}, 1, 1, Angle::Radians(v[4]), 0).Rotation().ValueInRadians(), id); else ai_ident_f(x.f[i], v[i], id); } return; }
  for (int i = 0; i < x.n; ++i) ai_ident_f(x.f[i], v[i], id);
}
// A pair in either order is the same question.
void Two(int ka, int kb, bool got, const char* id) {
  ai_assert(calls == 1 && n == 2, "one-question-about-two-shapes"); ai_assert(got == answer, "answer-is-passed-on");
  if (ka != kb && s[0].kind == kb) { Same(s[1], ka, vs[0], id); Same(s[0], kb, vs[1], id); } else { Same(s[0], ka, vs[0], id); Same(s[1], kb, vs[1], id); }
}
void Ready(int ka, int kb) {
  int k[2] = {ka, kb}; Clear();
  for (int i = 0; i < 2; ++i) { Fill(vs[i], 6, "v"); if (k[i] == 4) { ai_assume(vs[i][0] <= vs[i][2]); ai_assume(vs[i][1] <= vs[i][3]); } if (k[i] == 5) { vs[i][4] = i ? 0.75f : 8.5f; vs[i][2] = ai_f32_in(0, kFMax, "w"); vs[i][3] = ai_f32_in(0, kFMax, "h"); } }
}
}
JNIEnv* env = nullptr;
#define P2(v) v[0], v[1]
#define P4(v) v[0], v[1], v[2], v[3]
PROP(jsect_pairs) {
  Ready(1, 2); Two(1, 2, J(VecSegment)(env, nullptr, P2(vs[0]), P4(vs[1])), "vec-segment"); Ready(1, 3); Two(1, 3, J(VecTriangle)(env, nullptr, P2(vs[0]), A6(vs[1])), "vec-triangle");
  Ready(1, 5); Two(1, 5, J(VecParallelogram)(env, nullptr, P2(vs[0]), A6(vs[1])), "vec-parallelogram"); Ready(2, 2); Two(2, 2, J(SegmentSegment)(env, nullptr, P4(vs[0]), P4(vs[1])), "segment-segment");
  Ready(2, 3); Two(2, 3, J(SegmentTriangle)(env, nullptr, P4(vs[0]), A6(vs[1])), "segment-triangle"); Ready(2, 5); Two(2, 5, J(SegmentParallelogram)(env, nullptr, P4(vs[0]), A6(vs[1])), "segment-parallelogram");
  Ready(3, 3); Two(3, 3, J(TriangleTriangle)(env, nullptr, A6(vs[0]), A6(vs[1])), "triangle-triangle"); Ready(3, 5); Two(3, 5, J(TriangleParallelogram)(env, nullptr, A6(vs[0]), A6(vs[1])), "triangle-parallelogram");
  Ready(5, 5); Two(5, 5, J(ParallelogramParallelogram)(env, nullptr, A6(vs[0]), A6(vs[1])), "parallelogram-parallelogram");
}
PROP(jsect_boxes) {
  Ready(1, 4); Two(1, 4, J(VecBox)(env, nullptr, P2(vs[0]), P4(vs[1])), "vec-box"); Ready(2, 4); Two(2, 4, J(SegmentBox)(env, nullptr, P4(vs[0]), P4(vs[1])), "segment-box");
  Ready(3, 4); Two(3, 4, J(TriangleBox)(env, nullptr, A6(vs[0]), P4(vs[1])), "triangle-box"); Ready(4, 5); Two(4, 5, J(BoxParallelogram)(env, nullptr, P4(vs[0]), A6(vs[1])), "box-parallelogram");
}
PROP(jsect_box_box) { Ready(4, 4); Two(4, 4, J(BoxBox)(env, nullptr, P4(vs[0]), P4(vs[1])), "box-box"); }
namespace {
ink::PartitionedMesh mesh, other;
// (shape, mesh, transform) or (mesh, transform, shape): the transform belongs to the mesh either way.
void Mesh(int k, bool got, const char* id) {
  ai_assert(calls == 1 && n == 3, "one-question-about-a-mesh"); ai_assert(got == answer, "mesh-answer-is-passed-on"); const Side* q = &s[0]; const Side* m = &s[1]; const Side* t = &s[2];
  if (s[0].kind == 6) { m = &s[0]; t = &s[1]; q = &s[2]; }
  Same(*q, k, vs[0], id); ai_assert(m->kind == 6 && m->mesh == &mesh, "the-mesh-of-the-handle"); Same(*t, 7, ts[0], id);
}
void ReadyMesh(int k) { Ready(k, 0); Fill(ts[0], 6, "t"); Fill(ts[1], 6, "u"); }
}
PROP(jsect_meshes) {
  jlong m = reinterpret_cast<jlong>(&mesh), o = reinterpret_cast<jlong>(&other);
  ReadyMesh(1); Mesh(1, J(MeshVec)(env, nullptr, m, P2(vs[0]), A6(ts[0])), "mesh-vec"); ReadyMesh(2); Mesh(2, J(MeshSegment)(env, nullptr, m, P4(vs[0]), A6(ts[0])), "mesh-segment");
  ReadyMesh(3); Mesh(3, J(MeshTriangle)(env, nullptr, m, A6(vs[0]), A6(ts[0])), "mesh-triangle"); ReadyMesh(4); Mesh(4, J(MeshBox)(env, nullptr, m, P4(vs[0]), A6(ts[0])), "mesh-box");
  ReadyMesh(5); Mesh(5, J(MeshParallelogram)(env, nullptr, m, A6(vs[0]), A6(ts[0])), "mesh-parallelogram");
  ReadyMesh(0); bool got = J(MeshPartitionedMesh)(env, nullptr, m, o, A6(ts[0]), A6(ts[1])); ai_assert(calls == 1 && n == 4 && got == answer, "one-question-about-two-meshes");
  int a = s[0].mesh == &mesh ? 0 : 2, b = 2 - a; ai_assert(s[a].mesh == &mesh && s[b].mesh == &other && s[a].kind == 6 && s[b].kind == 6, "both-meshes"); Same(s[a + 1], 7, ts[0], "this-transform"); Same(s[b + 1], 7, ts[1], "other-transform");
}
