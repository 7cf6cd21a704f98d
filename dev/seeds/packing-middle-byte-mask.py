PROPERTY='M02'
EDITS=[
('ink/geometry/internal/mesh_packing.cc',
'  packed_bytes[2] = static_cast<std::byte>((packed1 & 0xFF00) >> 8);',
'  packed_bytes[2] = static_cast<std::byte>((packed1 & 0x7F00) >> 8);')]
NEEDS='a second component of a 12-20 bit attribute with bit 15 set'
BREAKS='the value is packed with a bit missing'
DEMO='''
#include "ink/geometry/mutable_mesh.h"
#include "ink/geometry/mesh.h"
#include "ink/geometry/mesh_format.h"
#include "ink/geometry/partitioned_mesh.h"
#include "ink/geometry/intersects.h"
#include "ink/geometry/affine_transform.h"
#include "ink/geometry/angle.h"
using namespace ink;
static MutableMesh Tris(const std::vector<Point>& p) { MutableMesh m; for (auto q : p) m.AppendVertex(q); for (uint32_t i = 0; i + 2 < p.size(); i += 3) m.AppendTriangleIndices({i, i + 1, i + 2}); return m; }

#include "ink/geometry/internal/mesh_packing.h"
int main() {
  MeshAttributeCodingParams p{.components = {{.offset = 0, .scale = 1}, {.offset = 0, .scale = 1}}};
  std::vector<std::byte> b(4); auto t = MeshFormat::AttributeType::kFloat2PackedIn4UnsignedBytes_X12_Y20;
  mesh_internal::PackAttribute(t, p, {3.f, 40000.f}, absl::MakeSpan(b));
  auto u = mesh_internal::UnpackAttribute(t, p, b); return u[0] == 3 && u[1] == 40000 ? 0 : 1;
}
'''
