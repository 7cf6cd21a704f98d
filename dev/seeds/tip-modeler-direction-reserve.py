PROPERTY="S07"
EDITS=[("ink/strokes/internal/brush_tip_modeler.cc","""    case BrushBehavior::Source::kDirectionInRadians:
    case BrushBehavior::Source::kDirectionAboutZeroInRadians:
    case BrushBehavior::Source::kNormalizedDirectionX:
    case BrushBehavior::Source::kNormalizedDirectionY:
      return true;""","""    case BrushBehavior::Source::kNormalizedDirectionX:
    case BrushBehavior::Source::kNormalizedDirectionY:
    case BrushBehavior::Source::kDirectionInRadians:
      return true;
    case BrushBehavior::Source::kDirectionAboutZeroInRadians:""")]
NEEDS="a behavior on the direction about zero and a turn at the last stable input of an update"
BREAKS="tip states are fixed with a direction that the next input changes"
DEMO='''
#include "ink/strokes/internal/brush_tip_modeler.h"
using namespace ink; using namespace ink::strokes_internal;
int main() {
  BrushTip t; BrushBehavior h; h.nodes = {BrushBehavior::SourceNode{.source = BrushBehavior::Source::kDirectionAboutZeroInRadians, .source_out_of_range_behavior = BrushBehavior::OutOfRange::kClamp, .source_value_range = {-3, 3}}, BrushBehavior::TargetNode{.target = BrushBehavior::Target::kSizeMultiplier, .target_modifier_range = {0, 2}}}; t.behaviors.push_back(h);
  ModeledStrokeInput in[3]; for (int i = 0; i < 3; ++i) { in[i].position = {i == 1 ? 10.f : 0.f, 10.f * i}; in[i].traveled_distance = 10 * i; in[i].elapsed_time = Duration32::Seconds(i); }
  auto st = [&](int n) { StrokeInputModeler::State s; s.tool_type = StrokeInput::ToolType::kMouse; s.complete_elapsed_time = in[n - 1].elapsed_time; s.complete_traveled_distance = in[n - 1].traveled_distance; s.stable_input_count = n; s.real_input_count = n; s.total_real_elapsed_time = in[n - 1].elapsed_time; s.total_real_distance = in[n - 1].traveled_distance; return s; };
  BrushTipModeler a, b; a.StartStroke(&t, 10); b.StartStroke(&t, 10);
  a.UpdateStroke(st(3), in); float w = a.NewFixedTipStates()[1].width;
  float got = 0; int seen = 0; for (int n = 1; n <= 3; ++n) { b.UpdateStroke(st(n), absl::MakeSpan(in, n)); for (auto& s : b.NewFixedTipStates()) if (seen++ == 1) got = s.width; }
  return got == w ? 0 : 1;
}
'''
