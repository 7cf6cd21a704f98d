PROPERTY='R04'
EDITS=[
('ink/rendering/skia/native/internal/mesh_uniform_data.cc',
'  ABSL_CHECK(HasObjectToCanvasLinearComponent());\n  if (!data_->unique()) {',
'  ABSL_CHECK(HasObjectToCanvasLinearComponent());\n  if (data_ == nullptr) {')]
NEEDS='changing the transform of a copied drawable'
BREAKS='changing the transform of one drawable changes that of its copies'
DEMO='''
#include "ink/rendering/skia/native/internal/mesh_uniform_data.h"
#include "ink/rendering/skia/native/internal/create_mesh_specification.h"
#include "ink/strokes/in_progress_stroke.h"
#include "include/core/SkShimAll.h"
using namespace ink;
int main() {
  auto spec = skia_native_internal::CreateMeshSpecification(skia_common_internal::MeshSpecificationData::CreateForInProgressStroke()); if (!spec.ok()) return 2;
  skia_native_internal::MeshUniformData a(**spec); a.SetObjectToCanvasLinearComponent(AffineTransform::Scale(2)); skia_native_internal::MeshUniformData b = a; auto before = SkData::MakeWithCopy(a.Get()->bytes(), a.Get()->size());
  b.SetObjectToCanvasLinearComponent(AffineTransform::Scale(7)); return std::memcmp(before->bytes(), a.Get()->bytes(), before->size()) ? 1 : 0;
}
'''
