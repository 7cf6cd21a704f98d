PROPERTY='X03'
EDITS=[
('ink/strokes/internal/rounded_polygon.cc',
'    if (Vec::Determinant(arc.start_unit_vector, circle_center_to_point_vector) <\n            0 &&\n        Vec::Determinant(',
'    if (Vec::Determinant(arc.start_unit_vector, circle_center_to_point_vector) <\n            0 ||\n        Vec::Determinant(')]
NEEDS='a circle that sticks out of a round end of more than a half turn'
BREAKS='a circle that sticks out of the polygon is reported as contained'
DEMO='''
#include "ink/strokes/internal/rounded_polygon.h"
using namespace ink; using namespace ink::strokes_internal; using ink::geometry_internal::Circle;
int main() {
  RoundedPolygon p({Circle({0, 0}, 5), Circle({10, 0}, 1)});
  for (float y = -6; y <= 6; y += 0.5f) for (float x = -7; x < 0; x += .5f) { if (x * x + y * y > 26 && p.ContainsCircle(Circle({x, y}, 0.1f))) return 1; if (x * x + y * y < 20 && !p.ContainsCircle(Circle({x, y}, 0.1f))) return 1; }
  return 0;
}
'''
