PROPERTY='X01'
EDITS=[
('ink/strokes/internal/brush_tip_extruder/mutable_mesh_view.cc',
'    auto iter = legacy->indices->begin() + 3 * triangle;\n',
'    auto iter = legacy->indices->begin() + (triangle < legacy->indices->size() / 6 ? 3 * triangle : legacy->indices->size());\n')]
NEEDS='inserting a triangle into the second half of a legacy view'
BREAKS='a triangle is inserted in the wrong place'
DEMO='''
#include "ink/strokes/internal/brush_tip_extruder/mutable_mesh_view.h"
#include "ink/strokes/internal/stroke_vertex.h"
using namespace ink; using namespace ink::brush_tip_extruder_internal; using strokes_internal::StrokeVertex;

int main() { std::vector<strokes_internal::LegacyVertex> lv; std::vector<uint32_t> li; MutableMeshView v(lv, li); for (uint32_t i = 0; i < 5; ++i) v.AppendVertex({.position = {float(i), 0}}); v.AppendTriangleIndices({0, 1, 2}); v.AppendTriangleIndices({1, 2, 3}); v.AppendTriangleIndices({2, 3, 4}); v.InsertTriangleIndices(2, {0, 2, 4}); return v.GetTriangleIndices(2)[1] == 2 && v.GetTriangleIndices(3)[0] == 2 ? 0 : 1; }
'''
