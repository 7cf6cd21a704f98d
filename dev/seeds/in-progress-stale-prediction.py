PROPERTY="S04"
EDITS=[("ink/strokes/in_progress_stroke.cc","""  queued_predicted_inputs_ = predicted_inputs;
  return absl::OkStatus();""","""  if (!real_inputs.IsEmpty() || !predicted_inputs.IsEmpty()) {
    queued_predicted_inputs_ = predicted_inputs;
  }
  return absl::OkStatus();""")]
NEEDS="a prediction queued and then withdrawn by enqueueing nothing, before the next update"
BREAKS="a withdrawn prediction is still processed by the next update"
DEMO='''
#include "ink/strokes/in_progress_stroke.h"
using namespace ink;
int main() {
  BrushCoat c{.tips = {BrushTip()}}; Brush b = *Brush::Create(*BrushFamily::Create(absl::MakeSpan(&c, 1)), Color::Black(), 10, 0.1);
  auto in = [](float x, float t) { StrokeInput i{.tool_type = StrokeInput::ToolType::kMouse, .position = {x, 2}, .elapsed_time = Duration32::Seconds(t)}; return *StrokeInputBatch::Create(absl::MakeSpan(&i, 1)); };
  InProgressStroke s; s.Start(b);
  if (!s.EnqueueInputs(in(1, 0), in(9, 1)).ok() || !s.EnqueueInputs({}, {}).ok() || !s.UpdateShape(Duration32::Zero()).ok()) return 2;
  return s.InputCount() == 1 && s.PredictedInputCount() == 0 ? 0 : 1;
}
'''
