PROPERTY='X01'
EDITS=[
('ink/strokes/internal/brush_tip_extruder/mutable_mesh_view.cc',
'  StrokeVertex::SetForwardLabelInMesh(*std::get<MutableMesh*>(data_), index,\n                                      label);\n  first_mutated_vertex_ = std::min(first_mutated_vertex_, index);',
'  StrokeVertex::SetForwardLabelInMesh(*std::get<MutableMesh*>(data_), index,\n                                      label);\n  first_mutated_vertex_ = index;')]
NEEDS='labelling a vertex after changing one with a smaller index'
BREAKS='changed vertices are not reported'
DEMO='''
#include "ink/strokes/internal/brush_tip_extruder/mutable_mesh_view.h"
#include "ink/strokes/internal/stroke_vertex.h"
using namespace ink; using namespace ink::brush_tip_extruder_internal; using strokes_internal::StrokeVertex;

int main() { MutableMesh m(StrokeVertex::FullMeshFormat()); MutableMeshView v(m); for (int i = 0; i < 5; ++i) v.AppendVertex({.position = {float(i), 0}}); v.ResetMutationTracking(); v.SetSideDerivative(1, {1, 1}); v.SetForwardLabel(3, StrokeVertex::kExteriorFrontLabel); return v.FirstMutatedVertex() == 1 ? 0 : 1; }
'''
