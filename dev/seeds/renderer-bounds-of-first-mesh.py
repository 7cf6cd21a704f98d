PROPERTY='R04'
EDITS=[
('ink/rendering/skia/native/skia_renderer.cc',
'          .bounds = ToSkiaRect(*mesh.Bounds().AsRect()),',
'          .bounds = ToSkiaRect(*meshes.front().Bounds().AsRect()),')]
NEEDS='a coat with more than one mesh'
BREAKS='later meshes of a coat are drawn with the bounds of the first'
DEMO='''
#include "ink/rendering/skia/native/skia_renderer.h"
#include "ink/geometry/partitioned_mesh.h"
#include "ink/geometry/mutable_mesh.h"
#include "ink/strokes/stroke.h"
#include "ink/strokes/internal/stroke_vertex.h"
#include "include/core/SkShimAll.h"
using namespace ink; using strokes_internal::StrokeVertex;
struct Canvas : SkCanvas { std::vector<SkRect> r; void drawMesh(const SkMesh& m, sk_sp<SkBlender>, const SkPaint&) override { r.push_back(m.bounds); } };
static Mesh One(float x) { MutableMesh m(StrokeVertex::FullMeshFormat()); for (Point p : {Point{x, 0}, Point{x + 1, 0}, Point{x, 1}}) StrokeVertex::AppendToMesh(m, {.position = p}); m.AppendTriangleIndices({0, 1, 2}); auto p = StrokeVertex::MakeCustomPackingArray(StrokeVertex::FullMeshFormat()); auto r = m.AsMeshes(p.Values()); return (*r)[0]; }
int main() {
  std::vector<Mesh> v = {One(0), One(50)}; auto s = PartitionedMesh::FromMeshes(absl::MakeSpan(v)); if (!s.ok()) return 2;
  BrushCoat c{.tips = {BrushTip()}}; Brush b = *Brush::Create(*BrushFamily::Create(absl::MakeSpan(&c, 1)), Color::Black(), 10, 0.1); StrokeInput i; StrokeInputBatch in; if (!in.Append(i).ok()) return 3;
  Stroke t(b, in, *s); SkiaRenderer r; GrDirectContext g; auto d = r.CreateDrawable(&g, t, AffineTransform::Identity()); if (!d.ok()) return 4; Canvas k; d->Draw(k);
  return k.r.size() == 2 && k.r[1].fLeft == 50 && k.r[1].fRight == 51 ? 0 : 1;
}
'''
