PROPERTY="S07"
EDITS=[("ink/strokes/internal/brush_tip_modeler.cc","""  ABSL_DCHECK_EQ(current_damped_values_.size(), fixed_damped_values_.size());
  absl::c_copy(current_damped_values_, fixed_damped_values_.begin());
""","""  ABSL_DCHECK_EQ(current_damped_values_.size(), fixed_damped_values_.size());
  if (new_fixed_tip_state_count_ > 1) {
    absl::c_copy(current_damped_values_, fixed_damped_values_.begin());
  }
""")]
NEEDS="a damped behavior and an update that fixes exactly one tip state"
BREAKS="the damping state of a single fixed tip state is lost, so later states depend on how inputs were split over updates"
DEMO='''
#include "ink/strokes/internal/brush_tip_modeler.h"
using namespace ink; using namespace ink::strokes_internal;
int main() {
  BrushTip t; BrushBehavior h; h.nodes = {BrushBehavior::SourceNode{.source = BrushBehavior::Source::kNormalizedPressure, .source_out_of_range_behavior = BrushBehavior::OutOfRange::kClamp, .source_value_range = {0, 1}}, BrushBehavior::DampingNode{.damping_source = BrushBehavior::DampingSource::kTimeInSeconds, .damping_gap = 2}, BrushBehavior::TargetNode{.target = BrushBehavior::Target::kSizeMultiplier, .target_modifier_range = {0, 2}}}; t.behaviors.push_back(h);
  ModeledStrokeInput in[4]; for (int i = 0; i < 4; ++i) { in[i].position = {10.f * i, 0}; in[i].traveled_distance = 10 * i; in[i].elapsed_time = Duration32::Seconds(i); in[i].pressure = i % 2 ? 1 : 0.125; }
  auto st = [&](int n) { StrokeInputModeler::State s; s.tool_type = StrokeInput::ToolType::kMouse; s.complete_elapsed_time = in[n - 1].elapsed_time; s.complete_traveled_distance = in[n - 1].traveled_distance; s.stable_input_count = n; s.real_input_count = n; s.total_real_elapsed_time = in[n - 1].elapsed_time; s.total_real_distance = in[n - 1].traveled_distance; return s; };
  BrushTipModeler a, b; a.StartStroke(&t, 10); b.StartStroke(&t, 10);
  a.UpdateStroke(st(4), in); float w = a.NewFixedTipStates()[3].width;
  for (int n = 1; n <= 4; ++n) b.UpdateStroke(st(n), absl::MakeSpan(in, n));
  return b.NewFixedTipStates().size() == 1 && b.NewFixedTipStates()[0].width == w ? 0 : 1;
}
'''
