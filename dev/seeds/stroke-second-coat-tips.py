PROPERTY="S03"
EDITS=[("ink/strokes/stroke.cc","""  for (size_t i = 0; i < coats1.size(); ++i) {
    if (coats1[i].tips != coats2[i].tips) {
      return false;
    }
  }
  return true;""","""  for (size_t i = 0; i < coats1.size(); ++i) {
    // Coats that share their tips with the coat below were compared already.
    if (i > 0 && coats1[i].tips == coats1[i - 1].tips) continue;
    if (coats1[i].tips != coats2[i].tips) {
      return false;
    }
  }
  return true;""")]
NEEDS="a family of several coats with equal tips replaced by one in which only an upper coat's tip differs"
BREAKS="replacing the brush family of a stroke leaves the shape of the old tips"
DEMO='''
#include "ink/strokes/stroke.h"
#include "ink/strokes/internal/stroke_vertex.h"
using namespace ink;
int main() {
  BrushTip a, b; b.scale = {4, 4};
  auto f = [](BrushTip x, BrushTip y) { BrushCoat p{.tips = {x}}, q{.tips = {y}}; BrushCoat c[] = {p, q}; return *BrushFamily::Create(c); };
  StrokeInput i[] = {{.tool_type = StrokeInput::ToolType::kMouse, .position = {1, 2}, .elapsed_time = Duration32::Zero()}, {.tool_type = StrokeInput::ToolType::kMouse, .position = {30, 2}, .elapsed_time = Duration32::Seconds(1)}};
  Stroke s(*Brush::Create(f(a, b), Color::Black(), 10, 0.1), *StrokeInputBatch::Create(i));
  float h = s.GetShape().Bounds().AsRect()->Height(); s.SetBrushFamily(f(a, a)); float g = s.GetShape().Bounds().AsRect()->Height();
  return h > 2 * g ? 0 : 1;
}
'''
