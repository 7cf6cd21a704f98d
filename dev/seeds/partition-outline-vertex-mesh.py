PROPERTY='M05'
EDITS=[
('ink/geometry/partitioned_mesh.cc',
'            group.meshes[group.outlines[o_idx][v_idx].mesh_index]\n                .VertexCount()) {',
'            group.meshes.front().VertexCount()) {')]
NEEDS='an outline naming a vertex beyond the end of a mesh that is smaller than the first of its group'
BREAKS='an outline that names a vertex that does not exist is accepted'
DEMO='''
#include "ink/geometry/mutable_mesh.h"
#include "ink/geometry/mesh.h"
#include "ink/geometry/mesh_format.h"
#include "ink/geometry/partitioned_mesh.h"
#include "ink/geometry/intersects.h"
#include "ink/geometry/affine_transform.h"
#include "ink/geometry/angle.h"
using namespace ink;
static MutableMesh Tris(const std::vector<Point>& p) { MutableMesh m; for (auto q : p) m.AppendVertex(q); for (uint32_t i = 0; i + 2 < p.size(); i += 3) m.AppendTriangleIndices({i, i + 1, i + 2}); return m; }

int main() {
  MutableMesh m = Tris({{0, 0}, {1, 0}, {0, 1}, {5, 5}, {6, 5}, {5, 6}}), n = Tris({{0, 0}, {1, 0}, {0, 1}});
  std::vector<Mesh> v = {(*m.AsMeshes())[0], (*n.AsMeshes())[0]};
  std::vector<PartitionedMesh::VertexIndexPair> o = {{.mesh_index = 1, .vertex_index = 4}}; std::vector<absl::Span<const PartitionedMesh::VertexIndexPair>> os = {o};
  return PartitionedMesh::FromMeshes(v, os).ok() ? 1 : 0;
}
'''
