PROPERTY='M06'
EDITS=[
('ink/geometry/internal/algorithms.cc',
'      for (uint32_t v_idx : mesh.TriangleIndices(t_idx)) {\n        Point transformed_vertex =\n            non_invertible_transform.Apply(mesh.VertexPosition(v_idx));',
'      for (uint32_t v_idx : mesh.TriangleIndices(t_idx)) {\n        Point transformed_vertex =\n            non_invertible_transform.Apply(meshes[0].VertexPosition(v_idx));')]
NEEDS='a transform that collapses a partitioned mesh of several meshes'
BREAKS='the segment the mesh collapses to is computed from other vertices'
DEMO='''
#include "ink/geometry/mutable_mesh.h"
#include "ink/geometry/mesh.h"
#include "ink/geometry/mesh_format.h"
#include "ink/geometry/partitioned_mesh.h"
#include "ink/geometry/intersects.h"
#include "ink/geometry/affine_transform.h"
#include "ink/geometry/angle.h"
using namespace ink;
static MutableMesh Tris(const std::vector<Point>& p) { MutableMesh m; for (auto q : p) m.AppendVertex(q); for (uint32_t i = 0; i + 2 < p.size(); i += 3) m.AppendTriangleIndices({i, i + 1, i + 2}); return m; }

int main() {
  MutableMesh m = Tris({{0, 0}, {1, 0}, {0, 1}}), n = Tris({{4, 0}, {6, 0}, {4, 1}});
  std::vector<Mesh> v = {(*m.AsMeshes())[0], (*n.AsMeshes())[0]};
  auto r = PartitionedMesh::FromMeshes(v); if (!r.ok()) return 2;
  return Intersects(*r, AffineTransform::Scale(1, 0), Point{5, 0}) ? 0 : 1;
}
'''
