PROPERTY="B06"
EDITS=[("ink/strokes/internal/brush_tip_modeler_helpers.cc","""      return std::abs(x - 2 * std::round(0.5f * x));""","""      return std::abs(x - 2 * std::trunc(0.5f * x + 0.5f));""")]
NEEDS="a mirrored source whose value lies more than one range length below the range start"
BREAKS="mirrored source values below the range leave 0..1"
DEMO='''
#include "ink/strokes/internal/brush_tip_modeler_helpers.h"
#include <cmath>
using namespace ink; using namespace ink::strokes_internal;
int main() {
  StrokeInputModeler::State st; ModeledStrokeInput in; in.pressure = 0.375; std::vector<float> stack;
  BehaviorNodeContext c{.input_modeler_state = st, .current_input = in, .brush_size = 1, .stack = stack};
  ProcessBehaviorNode(BrushBehavior::SourceNode{.source = BrushBehavior::Source::kNormalizedPressure, .source_out_of_range_behavior = BrushBehavior::OutOfRange::kMirror, .source_value_range = {0.75, 1}}, c);
  return std::fabs(stack.back() - 0.5) < 1e-3 ? 0 : 1;
}
'''
