PROPERTY='X08'
EDITS=[
('ink/strokes/internal/brush_tip_extruder/derivative_calculator.cc',
'        mesh.GetSideLabel(index).DecodeSideCategory() != first_side_category ||\n        mesh.GetForwardLabel(index).DecodeForwardCategory() !=\n            first_forward_category) {',
'        mesh.GetSideLabel(index).DecodeSideCategory() != first_side_category) {'),
('ink/strokes/internal/brush_tip_extruder/derivative_calculator.cc',
'  StrokeVertex::ForwardCategory first_forward_category =\n      mesh.GetForwardLabel(indices.front()).DecodeForwardCategory();\n  uint32_t count = 1;',
'  uint32_t count = 1;')]
NEEDS='two vertices of one side at one place of which only the first is at the front'
BREAKS='vertices of different forward categories share their derivatives'
DEMO='''
#include <vector>
#include "ink/geometry/mutable_mesh.h"
#include "ink/strokes/internal/brush_tip_extruder/derivative_calculator.h"
#include "ink/strokes/internal/brush_tip_extruder/extruded_vertex.h"
#include "ink/strokes/internal/brush_tip_extruder/mutable_mesh_view.h"
#include "ink/strokes/internal/stroke_vertex.h"
using namespace ink; using namespace ink::strokes_internal; using namespace ink::brush_tip_extruder_internal;
int main() {
  auto run = [](bool same) { MutableMesh m(StrokeVertex::FullMeshFormat()); MutableMeshView v(m);
    float x[] = {0, 0, 2, 2, 2, 5}, y[] = {1, -1, 1, -2, 1, -2}; for (int i = 0; i < 6; ++i) { ExtrudedVertex e; e.position = {x[i], y[i]}; e.new_non_position_attributes.side_label = i % 2 ? StrokeVertex::kExteriorRightLabel : StrokeVertex::kExteriorLeftLabel; e.new_non_position_attributes.forward_label = i == 2 && !same ? StrokeVertex::kExteriorFrontLabel : StrokeVertex::kInteriorLabel; v.AppendVertex(e); }
    v.AppendTriangleIndices({0, 1, 2}); v.AppendTriangleIndices({2, 1, 3}); v.AppendTriangleIndices({4, 3, 5}); std::vector<uint32_t> l = {0, 2, 4}, r = {1, 3, 5}; DerivativeCalculator c; c.UpdateMesh(l, r, v); Vec a = v.GetSideDerivative(2), b = v.GetSideDerivative(4); return a.x == b.x && a.y == b.y; };
  return run(true) && !run(false) ? 0 : 1;
}
'''
