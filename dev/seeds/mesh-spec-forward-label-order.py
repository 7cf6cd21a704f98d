PROPERTY='R01'
EDITS=[
('ink/rendering/skia/common_internal/mesh_specification_data.cc',
'  if (attribute_indices.forward_derivative + 1 !=\n      attribute_indices.forward_label) {',
'  if (attribute_indices.forward_derivative >= attribute_indices.forward_label) {')]
NEEDS='a format with another attribute between the forward derivative and its label'
BREAKS='a specification is created whose shader reads another attribute as the forward label'
DEMO='''
#include "ink/rendering/skia/common_internal/mesh_specification_data.h"
#include "ink/geometry/mesh_format.h"
#include <vector>
#include <utility>
using namespace ink; using T = MeshFormat::AttributeType; using A = MeshFormat::AttributeId;
int main() {
  std::vector<std::pair<T, A>> a = {{T::kFloat2PackedIn1Float, A::kPosition}, {T::kFloat1Unpacked, A::kOpacityShift}, {T::kFloat2Unpacked, A::kSideDerivative}, {T::kFloat1Unpacked, A::kSideLabel}, {T::kFloat2Unpacked, A::kForwardDerivative}, {T::kFloat2Unpacked, A::kSurfaceUv}, {T::kFloat1Unpacked, A::kForwardLabel}};
  auto f = MeshFormat::Create(a, MeshFormat::IndexFormat::k32BitUnpacked16BitPacked); if (!f.ok()) return 2;
  return skia_common_internal::MeshSpecificationData::CreateForStroke(*f).ok() ? 1 : 0;
}
'''
