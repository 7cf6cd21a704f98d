PROPERTY="B07"
EDITS=[("ink/strokes/internal/brush_tip_modeler_helpers.cc","""    tip_state.opacity_multiplier = std::clamp(
        tip_state.opacity_multiplier * modifiers.opacity_multiplier, 0.f, 2.f);""","""    tip_state.opacity_multiplier *=
        std::clamp(modifiers.opacity_multiplier, 0.f, 2.f);""")]
NEEDS="a tip whose own opacity multiplier is above one and a behavior that more than doubles it"
BREAKS="the opacity of a tip state leaves its range"
DEMO='''
#include "ink/strokes/internal/brush_tip_modeler_helpers.h"
using namespace ink; using namespace ink::strokes_internal;
int main() {
  BrushTip t; t.opacity_multiplier = 1.5; BrushBehavior::Target g[] = {BrushBehavior::Target::kOpacityMultiplier}; float m[] = {1.75};
  return CreateTipState({0, 0}, std::nullopt, t, 10, g, m).opacity_multiplier <= 2 ? 0 : 1;
}
'''
