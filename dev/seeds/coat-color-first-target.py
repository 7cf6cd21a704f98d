PROPERTY='B01'
EDITS=[
('ink/brush/brush_coat.cc',
'          default:\n            break;\n        }',
'          default:\n            return false;\n        }')]
NEEDS='a tip with a color behavior after a target that is not a color'
BREAKS='the coat does not require the color shift its behavior needs'
DEMO='''
#include "ink/brush/brush_behavior.h"
#include "ink/brush/brush_tip.h"
#include "ink/brush/brush_paint.h"
#include "ink/brush/brush_coat.h"
#include "ink/brush/easing_function.h"
#include <algorithm>
#include <cmath>
using namespace ink;

int main() {
  BrushBehavior::SourceNode s{.source = BrushBehavior::Source::kNormalizedPressure, .source_value_range = {0, 1}};
  BrushTip t; t.behaviors = {{.nodes = {s, BrushBehavior::TargetNode{.target = BrushBehavior::Target::kSizeMultiplier, .target_modifier_range = {0, 1}}}}, {.nodes = {s, BrushBehavior::TargetNode{.target = BrushBehavior::Target::kLuminosity, .target_modifier_range = {0, 1}}}}};
  auto v = brush_internal::GetRequiredAttributeIds(BrushCoat{.tips = {t}});
  return std::find(v.begin(), v.end(), MeshFormat::AttributeId::kColorShiftHsl) != v.end() ? 0 : 1;
}
'''
