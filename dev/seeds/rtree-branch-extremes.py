PROPERTY='M06'
EDITS=[
('ink/geometry/internal/static_rtree.h',
'      for (uint32_t child_idx : tile_child_indices) {\n        envelope.Add(get_child_bounds(child_idx));\n      }\n',
'      // Children are sorted, so the first and the last are the extreme ones.\n      envelope.Add(get_child_bounds(tile_child_indices.front()));\n      envelope.Add(get_child_bounds(tile_child_indices.back()));\n')]
NEEDS='triangles in one tile of the index whose bounds stick out of those of the first and the last one'
BREAKS='queries miss triangles'
DEMO='''
#include "ink/geometry/mutable_mesh.h"
#include "ink/geometry/mesh.h"
#include "ink/geometry/mesh_format.h"
#include "ink/geometry/partitioned_mesh.h"
#include "ink/geometry/intersects.h"
#include "ink/geometry/affine_transform.h"
#include "ink/geometry/angle.h"
using namespace ink;
static MutableMesh Tris(const std::vector<Point>& p) { MutableMesh m; for (auto q : p) m.AppendVertex(q); for (uint32_t i = 0; i + 2 < p.size(); i += 3) m.AppendTriangleIndices({i, i + 1, i + 2}); return m; }

int main() {
  MutableMesh m = Tris({{0, 0}, {1, 0}, {0, 1}, {0, 2}, {9, 2}, {0, 3}, {0, 4}, {1, 4}, {0, 5}});
  auto r = PartitionedMesh::FromMutableMesh(m); if (!r.ok()) return 2;
  return Intersects(*r, AffineTransform::Identity(), Point{8, 2}) ? 0 : 1;
}
'''
