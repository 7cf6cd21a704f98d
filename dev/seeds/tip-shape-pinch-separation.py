PROPERTY='X04'
EDITS=[
('ink/strokes/internal/brush_tip_shape.cc',
'  if (2 * x_after_pinch < min_nonzero_radius_and_separation) {',
'  if (x_after_pinch < min_nonzero_radius_and_separation) {')]
NEEDS='a pinched tip whose lower circles are between one and two separations apart'
BREAKS='circles far enough apart are merged'
DEMO='''
#include "ink/strokes/internal/brush_tip_shape.h"
using namespace ink; using namespace ink::strokes_internal;
int main() {
  BrushTipShape s({.position = {0, 0}, .width = 10, .height = 10, .percent_radius = 0, .pinch = 0.85f}, 1);
  return s.PerimeterCircles().size() == 4 ? 0 : 1;
}
'''
