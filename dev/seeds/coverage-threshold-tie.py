PROPERTY='M06'
EDITS=[
('ink/geometry/partitioned_mesh.cc',
'        return covered_area > area_threshold\n                   ? ',
'        return covered_area >= area_threshold\n                   ? ')]
NEEDS='the area seen so far reaching the threshold exactly before further triangles are seen'
BREAKS='the comparison with a threshold disagrees with the coverage'
DEMO='''
#include "ink/geometry/mutable_mesh.h"
#include "ink/geometry/mesh.h"
#include "ink/geometry/mesh_format.h"
#include "ink/geometry/partitioned_mesh.h"
#include "ink/geometry/intersects.h"
#include "ink/geometry/affine_transform.h"
#include "ink/geometry/angle.h"
using namespace ink;
static MutableMesh Tris(const std::vector<Point>& p) { MutableMesh m; for (auto q : p) m.AppendVertex(q); for (uint32_t i = 0; i + 2 < p.size(); i += 3) m.AppendTriangleIndices({i, i + 1, i + 2}); return m; }

int main() {
  MutableMesh m = Tris({{0, 0}, {1, 0}, {0, 1}, {5, 5}, {6, 5}, {5, 6}});
  auto r = PartitionedMesh::FromMutableMesh(m); if (!r.ok()) return 2;
  Rect q = Rect::FromTwoPoints({-1, -1}, {9, 9});
  return r->Coverage(q) == 1 && r->CoverageIsGreaterThan(q, 0.5f) ? 0 : 1;
}
'''
