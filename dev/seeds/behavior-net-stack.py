PROPERTY='B02'
EDITS=[
('ink/brush/brush_behavior.cc',
'    if (stack_depth < input_count) {',
'    if (stack_depth - input_count + NodeOutputCount(node) < 0) {')]
NEEDS='a filter, response or damping node with nothing on the stack'
BREAKS='a behavior whose nodes underflow the stack is accepted'
DEMO='''
#include "ink/brush/brush_behavior.h"
#include "ink/brush/brush_tip.h"
#include "ink/brush/brush_paint.h"
#include "ink/brush/brush_coat.h"
#include "ink/brush/easing_function.h"
#include <algorithm>
#include <cmath>
using namespace ink;

int main() {
  BrushBehavior b{.nodes = {BrushBehavior::ResponseNode{}, BrushBehavior::SourceNode{.source = BrushBehavior::Source::kNormalizedPressure, .source_value_range = {0, 1}}, BrushBehavior::TargetNode{.target = BrushBehavior::Target::kSizeMultiplier, .target_modifier_range = {0, 1}}}};
  return brush_internal::ValidateBrushBehavior(b).ok() ? 1 : 0;
}
'''
