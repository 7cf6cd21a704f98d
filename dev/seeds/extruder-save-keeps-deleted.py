PROPERTY='X07'
EDITS=[
('ink/strokes/internal/brush_tip_extruder.cc',
'  saved_extrusion_data_count_ = extrusions_.size();\n  deleted_save_point_extrusions_.clear();\n  geometry_.SetSavePoint();',
'  saved_extrusion_data_count_ = extrusions_.size();\n  geometry_.SetSavePoint();')]
NEEDS='a volatile tip that covers everything since the last gap, followed by two further updates'
BREAKS='tips that were withdrawn in an earlier update come back'
DEMO='''
#include "ink/strokes/internal/brush_tip_extruder.h"
#include "ink/strokes/internal/stroke_vertex.h"
#include "ink/geometry/mutable_mesh.h"
using namespace ink; using namespace ink::strokes_internal;
static BrushTipState At(float x, float y, float s) { return {.position = {x, y}, .width = s, .height = s}; }
static Envelope Run(bool detour) {
  MutableMesh m(StrokeVertex::FullMeshFormat()); BrushTipExtruder e; e.StartStroke(0.1f, false, m);
  e.ExtendStroke({At(0, 0, 2), At(3, 0, 2)}, {}); if (detour) e.ExtendStroke({}, {At(1, 0, 20)});
  e.ExtendStroke({At(6, 0, 2), At(9, 0, 2)}, {}); e.ExtendStroke({At(9, 4, 2)}, {}); e.ExtendStroke({At(9, 9, 2)}, {});
  Envelope v; for (uint32_t i = 0; i < m.TriangleCount(); ++i) v.Add(m.GetTriangle(i));
  float a = 0; for (uint32_t i = 0; i < m.TriangleCount(); ++i) a += m.GetTriangle(i).SignedArea();
  v.Add(Point{100, 100 + a}); return v;
}
int main() { auto a = *Run(false).AsRect(), b = *Run(true).AsRect(); return std::abs(a.XMin() - b.XMin()) + std::abs(a.YMax() - b.YMax()) + std::abs(a.YMin() - b.YMin()) < 1e-2f ? 0 : 1; }
'''
