PROPERTY='M06'
EDITS=[
('ink/geometry/intersects.cc',
'      *inverse_rhs_transform * lhs_transform);',
'      lhs_transform * *inverse_rhs_transform);')]
NEEDS='two transformed meshes whose transforms do not commute'
BREAKS='intersection of two transformed meshes is tested in the wrong place'
DEMO='''
#include "ink/geometry/mutable_mesh.h"
#include "ink/geometry/mesh.h"
#include "ink/geometry/mesh_format.h"
#include "ink/geometry/partitioned_mesh.h"
#include "ink/geometry/intersects.h"
#include "ink/geometry/affine_transform.h"
#include "ink/geometry/angle.h"
using namespace ink;
static MutableMesh Tris(const std::vector<Point>& p) { MutableMesh m; for (auto q : p) m.AppendVertex(q); for (uint32_t i = 0; i + 2 < p.size(); i += 3) m.AppendTriangleIndices({i, i + 1, i + 2}); return m; }

int main() {
  MutableMesh m = Tris({{0, 0}, {1, 0}, {0, 1}}); auto r = PartitionedMesh::FromMutableMesh(m); if (!r.ok()) return 2;
  auto t = AffineTransform::Translate({10, 0}), s = AffineTransform::Scale(4);
  // The first lies at 10..11 and the second at 0..4.
  if (Intersects(*r, t, *r, s)) return 1;
  // The first lies at 3..4.
  return Intersects(*r, AffineTransform::Translate({3, 0}), *r, s) ? 0 : 1;
}
'''
