// J02: every coverage native asks the mesh of its handle about exactly the shape, transform and threshold its numbers describe.
#include <jni.h>
#include "ink/geometry/affine_transform.h"
#include "ink/geometry/angle.h"
#include "ink/geometry/mesh.h"
#include "ink/geometry/mesh_format.h"
#include "ink/geometry/partitioned_mesh.h"
#include "ink/geometry/point.h"
#include "ink/geometry/quad.h"
#include "ink/geometry/rect.h"
#include "ink/geometry/triangle.h"
#include "specs/common.h"
namespace ink { namespace rec {
struct Side { int kind = 0; int n = 0; float f[8]; const void* mesh = nullptr; void Add(float v) { f[n++] = v; } };
Side s[4]; int n = 0; int calls = 0; float answer = 0; bool yes = false; const void* self = nullptr; float threshold = 0; bool indexed = false; int inits = 0;
void Put(const Triangle& p) { Side& x = s[n++]; x.kind = 3; x.Add(p.p0.x); x.Add(p.p0.y); x.Add(p.p1.x); x.Add(p.p1.y); x.Add(p.p2.x); x.Add(p.p2.y); }
void Put(const Rect& p) { Side& x = s[n++]; x.kind = 4; x.Add(p.XMin()); x.Add(p.YMin()); x.Add(p.XMax()); x.Add(p.YMax()); }
void Put(const Quad& p) { Side& x = s[n++]; x.kind = 5; x.Add(p.Center().x); x.Add(p.Center().y); x.Add(p.Width()); x.Add(p.Height()); x.Add(p.Rotation().ValueInRadians()); x.Add(p.ShearFactor()); }
void Put(const PartitionedMesh& p) { Side& x = s[n++]; x.kind = 6; x.mesh = &p; }
void Put(const AffineTransform& p) { Side& x = s[n++]; x.kind = 7; x.Add(p.A()); x.Add(p.B()); x.Add(p.C()); x.Add(p.D()); x.Add(p.E()); x.Add(p.F()); }
void Clear() { for (auto& x : s) x = Side(); n = 0; calls = 0; answer = ai_f32("answer"); yes = ai_bool("yes"); self = nullptr; threshold = 0; }
}
class RecPartitionedMesh : public PartitionedMesh {
 public:
  RecPartitionedMesh() = default;
  template <class Q> float Coverage(const Q& q, const AffineTransform& t = {}) const { rec::Put(q); rec::Put(t); ++rec::calls; rec::self = this; return rec::answer; }
  template <class Q> bool CoverageIsGreaterThan(const Q& q, float th, const AffineTransform& t = {}) const { rec::Put(q); rec::Put(t); ++rec::calls; rec::self = this; rec::threshold = th; return rec::yes; }
  void InitializeSpatialIndex() { ++rec::inits; rec::self = this; }
  bool IsSpatialIndexInitialized() const { rec::self = this; return rec::yes; }
};
}
#define PartitionedMesh RecPartitionedMesh
#include "ink/geometry/internal/jni/partitioned_mesh_jni.cc"
using namespace ink::rec;
#define J(m) Java_androidx_ink_geometry_PartitionedMeshNative_##m
#define A6(v) v[0], v[1], v[2], v[3], v[4], v[5]
#define P4(v) v[0], v[1], v[2], v[3]
JNIEnv* env = nullptr;
namespace {
ink::RecPartitionedMesh mesh, other; float v[8], t[8], th;
void Ready(int k) { Clear(); for (int i = 0; i < 6; ++i) { v[i] = Fin("v"); t[i] = Fin("t"); } th = Fin("threshold"); if (k == 4) { ai_assume(v[0] <= v[2]); ai_assume(v[1] <= v[3]); } if (k == 5) { v[4] = 8.5f; v[2] = ai_f32_in(0, kFMax, "w"); v[3] = ai_f32_in(0, kFMax, "h"); } }
void Asked(int k, const char* id) {
  ai_assert(calls == 1 && n == 2 && self == &mesh, "one-question-to-the-mesh-of-the-handle"); ai_assert(s[0].kind == k && s[1].kind == 7, "kind-of-query");
  if (k == 6) ai_assert(s[0].mesh == static_cast<const void*>(&other), id);
  else for (int i = 0; i < s[0].n; ++i) { if (k == 5 && i == 4) ai_assert(s[0].f[4] == Quad::FromCenterDimensionsRotationAndShear({0, 0}, 1, 1, Angle::Radians(v[4]), 0).Rotation().ValueInRadians(), "rotation"); else ai_ident_f(s[0].f[i], v[i], id); }
  for (int i = 0; i < 6; ++i) ai_ident_f(s[1].f[i], t[i], "query-transform");
}
void Value(int k, float got, const char* id) { Asked(k, id); ai_ident_f(got, answer, "coverage-is-passed-on"); }
void Greater(int k, bool got, const char* id) { Asked(k, id); ai_ident_f(threshold, th, "threshold-is-passed-on"); ai_assert(got == yes, "comparison-is-passed-on"); }
}
PROP(jcover_values) {
  jlong m = reinterpret_cast<jlong>(&mesh), o = reinterpret_cast<jlong>(&other);
  Ready(3); Value(3, J(partitionedMeshTriangleCoverage)(env, nullptr, m, A6(v), A6(t)), "triangle"); Ready(4); Value(4, J(partitionedMeshBoxCoverage)(env, nullptr, m, P4(v), A6(t)), "box");
  Ready(5); Value(5, J(partitionedMeshParallelogramCoverage)(env, nullptr, m, A6(v), A6(t)), "parallelogram"); Ready(6); Value(6, J(partitionedMeshPartitionedMeshCoverage)(env, nullptr, m, o, A6(t)), "other-mesh");
}
PROP(jcover_thresholds) {
  jlong m = reinterpret_cast<jlong>(&mesh), o = reinterpret_cast<jlong>(&other);
  Ready(3); Greater(3, J(partitionedMeshTriangleCoverageIsGreaterThan)(env, nullptr, m, A6(v), th, A6(t)), "triangle-threshold"); Ready(4); Greater(4, J(partitionedMeshBoxCoverageIsGreaterThan)(env, nullptr, m, P4(v), th, A6(t)), "box-threshold");
  Ready(5); Greater(5, J(partitionedMeshParallelogramCoverageIsGreaterThan)(env, nullptr, m, A6(v), th, A6(t)), "parallelogram-threshold"); Ready(6); Greater(6, J(partitionedMeshPartitionedMeshCoverageIsGreaterThan)(env, nullptr, m, o, th, A6(t)), "other-mesh-threshold");
}
PROP(jcover_index) {
  Clear(); jlong m = reinterpret_cast<jlong>(&mesh); inits = 0; J(initializeSpatialIndex)(env, nullptr, m); ai_assert(inits == 1 && self == &mesh, "index-is-initialized"); self = nullptr; ai_assert((J(isSpatialIndexInitialized)(env, nullptr, m) != 0) == yes && self == &mesh && inits == 1, "index-state-is-passed-on");
  jlong a = J(alloc)(env, nullptr); ai_assert(reinterpret_cast<void*>(a) != nullptr, "empty-mesh-allocated"); auto* p = reinterpret_cast<ink::RecPartitionedMesh*>(a); ai_assert(p->RenderGroupCount() == 0, "new-mesh-is-empty"); J(free)(env, nullptr, a); J(free)(env, nullptr, 0);
}
