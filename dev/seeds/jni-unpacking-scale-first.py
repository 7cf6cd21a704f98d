PROPERTY='J05'
EDITS=[
('ink/geometry/internal/jni/mesh_jni.cc',
'    scale_values[i] = coding_params[i].scale;',
'    scale_values[i] = coding_params[0].scale;')]
NEEDS='a mesh whose components have different scales'
BREAKS='Java unpacks all components with the scale of the first'
DEMO='''
#include <jni.h>
#include "ink/geometry/mesh.h"
#include "ink/geometry/mutable_mesh.h"
#include "ink/geometry/internal/jni/vec_jni_helper.h"
#include "ink/geometry/internal/jni/envelope_jni_helper.h"
#include "ink/jni/internal/jni_throw_util.h"
#include "ink/geometry/internal/jni/mesh_jni.cc"
int main() { using namespace ink; MutableMesh m(*MeshFormat::Create({{{MeshFormat::AttributeType::kFloat2PackedIn1Float, MeshFormat::AttributeId::kPosition}}}, MeshFormat::IndexFormat::k32BitUnpacked16BitPacked)); for (Point p : {Point{0, 0}, Point{100, 0}, Point{0, 7}}) m.AppendVertex(p); m.AppendTriangleIndices({0, 1, 2}); Mesh s = (*m.AsMeshes())[0]; JNIEnv env; jfloat o[4], c[4]; _jfloatArray a, b; a.length = b.length = 4; a.data = o; b.data = c;
  Java_androidx_ink_geometry_MeshNative_fillAttributeUnpackingParams(&env, nullptr, reinterpret_cast<jlong>(&s), 0, &a, &b); auto v = s.VertexAttributeUnpackingParams(0).components.Values(); return c[0] == v[0].scale && c[1] == v[1].scale && v[0].scale != v[1].scale ? 0 : 1; }
'''
