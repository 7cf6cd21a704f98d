PROPERTY="S09"
EDITS=[("ink/strokes/internal/stroke_vertex.cc","""  if (barycentric_coords[1] == 0) return LerpLabel(a, c, barycentric_coords[2]);
  if (barycentric_coords[2] == 0) return LerpLabel(a, b, barycentric_coords[1]);""","""  if (barycentric_coords[1] == 0) return LerpLabel(c, a, barycentric_coords[2]);
  if (barycentric_coords[2] == 0) return LerpLabel(a, b, barycentric_coords[1]);""")]
NEEDS="a vertex interpolated exactly at the first or third corner of a triangle whose corners have different labels"
BREAKS="a vertex at a corner of a triangle takes the label of the opposite corner"
DEMO='''
#include "ink/strokes/internal/stroke_vertex.h"
using namespace ink::strokes_internal;
int main() {
  StrokeVertex::NonPositionAttributes a, b, c; a.side_label = StrokeVertex::kExteriorLeftLabel; b.side_label = StrokeVertex::kInteriorLabel; c.side_label = StrokeVertex::kExteriorRightLabel;
  return BarycentricLerp(a, b, c, {1, 0, 0}).side_label.DecodeSideCategory() == StrokeVertex::SideCategory::kExteriorLeft ? 0 : 1;
}
'''
