PROPERTY="B06"
EDITS=[("ink/strokes/internal/brush_tip_modeler_helpers.cc","""  if (IsNullBehaviorNodeValue(input)) return;
  float modifier =""","""  if (IsNullBehaviorNodeValue(input)) input = 0;
  float modifier =""")]
NEEDS="a behavior that has a value first and none later"
BREAKS="a missing value moves the target to the start of its range instead of keeping it"
DEMO='''
#include "ink/strokes/internal/brush_tip_modeler_helpers.h"
using namespace ink; using namespace ink::strokes_internal;
int main() {
  StrokeInputModeler::State st; ModeledStrokeInput in; std::vector<float> stack = {kNullBehaviorNodeValue}; float m[] = {1.5};
  BehaviorNodeContext c{.input_modeler_state = st, .current_input = in, .brush_size = 1, .stack = stack, .target_modifiers = absl::MakeSpan(m, 1)};
  ProcessBehaviorNode(TargetNodeImplementation{.target_index = 0, .target_modifier_range = {0.5, 2}}, c);
  return m[0] == 1.5f && stack.empty() ? 0 : 1;
}
'''
