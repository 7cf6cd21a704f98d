PROPERTY='M05'
EDITS=[
('ink/geometry/partitioned_mesh.cc',
'        if (outlines[o_idx].empty()) continue;',
'        if (outlines[o_idx].empty()) break;')]
NEEDS='an empty outline followed by a non-empty one'
BREAKS='outlines after an empty one are lost'
DEMO='''
#include "ink/geometry/mutable_mesh.h"
#include "ink/geometry/mesh.h"
#include "ink/geometry/mesh_format.h"
#include "ink/geometry/partitioned_mesh.h"
#include "ink/geometry/intersects.h"
#include "ink/geometry/affine_transform.h"
#include "ink/geometry/angle.h"
using namespace ink;
static MutableMesh Tris(const std::vector<Point>& p) { MutableMesh m; for (auto q : p) m.AppendVertex(q); for (uint32_t i = 0; i + 2 < p.size(); i += 3) m.AppendTriangleIndices({i, i + 1, i + 2}); return m; }

int main() {
  MutableMesh m = Tris({{0, 0}, {1, 0}, {0, 1}}); std::vector<uint32_t> a, b = {0, 1, 2};
  auto r = PartitionedMesh::FromMutableMesh(m, {a, b}); if (!r.ok()) return 2;
  return r->OutlineCount(0) == 1 && r->Outline(0, 0).size() == 3 ? 0 : 1;
}
'''
