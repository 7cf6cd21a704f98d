PROPERTY='M01'
EDITS=[
('ink/geometry/mesh_format.cc',
'  return MeshFormat::Create(new_attributes, GetIndexFormat());',
'  if (attributes_to_remove.empty()) return *this;\n  return MeshFormat::Create(new_attributes,\n                            IndexFormat::k32BitUnpacked16BitPacked);')]
NEEDS='removing attributes from a format with 16-bit unpacked indices'
BREAKS='the format without the attributes has another index format'
DEMO='''
#include "ink/geometry/mutable_mesh.h"
#include "ink/geometry/mesh.h"
#include "ink/geometry/mesh_format.h"
#include "ink/geometry/partitioned_mesh.h"
#include "ink/geometry/intersects.h"
#include "ink/geometry/affine_transform.h"
#include "ink/geometry/angle.h"
using namespace ink;
static MutableMesh Tris(const std::vector<Point>& p) { MutableMesh m; for (auto q : p) m.AppendVertex(q); for (uint32_t i = 0; i + 2 < p.size(); i += 3) m.AppendTriangleIndices({i, i + 1, i + 2}); return m; }

int main() {
  using T = MeshFormat::AttributeType; using I = MeshFormat::AttributeId;
  auto f = MeshFormat::Create({{T::kFloat2Unpacked, I::kPosition}, {T::kFloat1Unpacked, I::kOpacityShift}}, MeshFormat::IndexFormat::k16BitUnpacked16BitPacked);
  auto g = f->WithoutAttributes({I::kOpacityShift}); if (!g.ok()) return 2;
  return g->GetIndexFormat() == MeshFormat::IndexFormat::k16BitUnpacked16BitPacked ? 0 : 1;
}
'''
