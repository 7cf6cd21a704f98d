PROPERTY='X06'
EDITS=[
('ink/strokes/internal/brush_tip_extruder.cc',
'      while (it != extrusions_.rend() && !it->IsBreakPoint()) {',
'      if (it != extrusions_.rend() && !it->IsBreakPoint()) {'),
('ink/strokes/internal/brush_tip_extruder.cc',
'          found_non_contained_tip_shape = true;\n          break;\n        }\n\n        ++it;\n      }',
'          found_non_contained_tip_shape = true;\n        }\n      }')]
NEEDS='a growing tip that contains the last two tips of the stroke but not an earlier one'
BREAKS='the ink before the last two tips disappears'
DEMO='''
#include "ink/geometry/mutable_mesh.h"
#include "ink/strokes/internal/brush_tip_extruder.h"
#include "ink/strokes/internal/stroke_vertex.h"
using namespace ink; using namespace ink::strokes_internal;
BrushTipState S(float x, float w) { BrushTipState s{}; s.position = {x, 0}; s.width = s.height = w; s.percent_radius = 1; return s; }
int main() { MutableMesh m(StrokeVertex::FullMeshFormat()); BrushTipExtruder e; e.StartStroke(.01f, false, m); BrushTipState s[] = {S(0, 1), S(3, 1), S(6, 1), S(6.3f, 1), S(6.3f, 4)}; e.ExtendStroke(s, {}); auto b = e.GetBounds().AsRect(); return b && b->XMin() < 0 ? 0 : 1; }
'''
