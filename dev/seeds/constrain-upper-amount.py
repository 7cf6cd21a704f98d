PROPERTY='X05'
EDITS=[
('ink/strokes/internal/constrain_brush_tip_extrusion.cc',
'          .lerp_amount = lower_bound,',
'          .lerp_amount = upper_bound,')]
NEEDS='a proposed extrusion whose tangents are bad'
BREAKS='the returned amount is not that of the returned extrusion'
DEMO='''
#include "ink/strokes/internal/constrain_brush_tip_extrusion.h"
using namespace ink; using namespace ink::strokes_internal;
int main() {
  BrushTipState a{.position = {0, 0}, .width = 2, .height = 2}, b{.position = {1, 0}, .width = .2f, .height = 6};
  for (float x = 0.2f; x < 3; x += 0.1f) for (float h = 1; h < 9; h += .5f) {
    b.position.x = x; b.height = h;
    auto r = ConstrainBrushTipExtrusion(BrushTipExtrusion(a, 0.01f), BrushTipExtrusion(b, 0.01f), 0.01f, 5);
    if (r.result_type != ConstrainedBrushTipExtrusion::ResultType::kConstrainedExtrusionFound) continue;
    BrushTipState s = BrushTipState::LerpShapeAttributes(a, b, r.lerp_amount);
    if (s.height != r.extrusion.GetState().height || s.width != r.extrusion.GetState().width) return 1;
  }
  return 0;
}
'''
