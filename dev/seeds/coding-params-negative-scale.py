PROPERTY='M03'
EDITS=[
('ink/geometry/internal/mesh_packing.cc',
'std::isfinite(c.scale) && c.scale > 0;',
'std::isfinite(c.scale) && c.scale != 0;')]
NEEDS='packing parameters with a negative scale'
BREAKS='packing parameters that are not positive are accepted'
DEMO='''
#include "ink/geometry/mutable_mesh.h"
#include "ink/geometry/mesh.h"
#include "ink/geometry/mesh_format.h"
#include "ink/geometry/partitioned_mesh.h"
#include "ink/geometry/intersects.h"
#include "ink/geometry/affine_transform.h"
#include "ink/geometry/angle.h"
using namespace ink;
static MutableMesh Tris(const std::vector<Point>& p) { MutableMesh m; for (auto q : p) m.AppendVertex(q); for (uint32_t i = 0; i + 2 < p.size(); i += 3) m.AppendTriangleIndices({i, i + 1, i + 2}); return m; }

int main() {
  auto f = MeshFormat::Create({{MeshFormat::AttributeType::kFloat2PackedIn1Float, MeshFormat::AttributeId::kPosition}}, MeshFormat::IndexFormat::k32BitUnpacked16BitPacked);
  std::vector<float> x = {0, 1, 0}, y = {0, 0, 1}; std::vector<absl::Span<const float>> c = {x, y}; std::vector<uint32_t> t = {0, 1, 2};
  std::vector<std::optional<MeshAttributeCodingParams>> o = {MeshAttributeCodingParams{.components = {{.offset = 2, .scale = -0.01f}, {.offset = 2, .scale = -0.01f}}}};
  return Mesh::Create(*f, c, t, o).ok() ? 1 : 0;
}
'''
