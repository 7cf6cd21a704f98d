PROPERTY="S04"
EDITS=[("ink/strokes/in_progress_stroke.cc","""  for (uint32_t coat_index = 0; coat_index < num_coats; ++coat_index) {
    if (shape_builders_[coat_index].HasUnfinishedTimeBehaviors()) {
      return true;
    }
  }
  return false;""","""  for (uint32_t coat_index = 0; coat_index < num_coats; ++coat_index) {
    return shape_builders_[coat_index].HasUnfinishedTimeBehaviors();
  }
  return false;""")]
NEEDS="a brush of several coats of which only an upper one is animated by time since input"
BREAKS="the animation of an upper coat stops because no update is asked for"
DEMO='''
#include "ink/strokes/in_progress_stroke.h"
using namespace ink;
int main() {
  BrushTip still, live; BrushBehavior h; h.nodes = {BrushBehavior::SourceNode{.source = BrushBehavior::Source::kTimeSinceInputInSeconds, .source_out_of_range_behavior = BrushBehavior::OutOfRange::kClamp, .source_value_range = {0, 5}}, BrushBehavior::TargetNode{.target = BrushBehavior::Target::kSizeMultiplier, .target_modifier_range = {0.5, 1}}}; live.behaviors.push_back(h);
  BrushCoat c[] = {{.tips = {still}}, {.tips = {live}}}; Brush b = *Brush::Create(*BrushFamily::Create(c), Color::Black(), 10, 0.1);
  auto in = [](float x, float t) { StrokeInput i{.tool_type = StrokeInput::ToolType::kMouse, .position = {x, 2}, .elapsed_time = Duration32::Seconds(t)}; return *StrokeInputBatch::Create(absl::MakeSpan(&i, 1)); };
  InProgressStroke s; s.Start(b);
  if (!s.EnqueueInputs(in(1, 0), {}).ok() || !s.UpdateShape(Duration32::Seconds(1)).ok()) return 2;
  return s.NeedsUpdate() ? 0 : 1;
}
'''
