PROPERTY='X02'
EDITS=[
('ink/strokes/internal/brush_tip_extruder/simplify.cc',
'    float distance = Distance(seg, it->position);',
'    float length = seg.Length();\n    float distance =\n        length == 0 ? Distance(seg, it->position)\n                    : std::abs(Vec::Determinant(seg.Vector(),\n                                                it->position - seg.start)) /\n                          length;'),
('ink/strokes/internal/brush_tip_extruder/simplify.cc',
'#include <vector>\n',
'#include <cmath>\n#include <vector>\n')]
NEEDS='a polyline that overshoots the end of its own chord and comes back along it'
BREAKS='simplification drops a point far from the simplified line'
DEMO='''
#include "ink/strokes/internal/brush_tip_extruder/simplify.h"
#include "ink/strokes/internal/brush_tip_extruder/extruded_vertex.h"
using namespace ink; using namespace ink::brush_tip_extruder_internal;
int main() {
  std::vector<ExtrudedVertex> v(3), o; v[0].position = {0, 0}; v[1].position = {9, 0}; v[2].position = {4, 0};
  SimplifyPolyline(v.begin(), v.end(), 0.5f, o); return o.size() == 3 ? 0 : 1;
}
'''
