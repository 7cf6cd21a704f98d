PROPERTY="S04"
EDITS=[("ink/strokes/in_progress_stroke.cc","""    const StrokeInput& last_old_real_input =
        queued_real_inputs_.IsEmpty()
            ? processed_inputs_.Get(real_input_count_ - 1)
            : queued_real_inputs_.Get(queued_real_inputs_.Size() - 1);""","""    const StrokeInput& last_old_real_input =
        real_input_count_ != 0
            ? processed_inputs_.Get(real_input_count_ - 1)
            : queued_real_inputs_.Get(queued_real_inputs_.Size() - 1);""")]
NEEDS="inputs queued after an update, then an earlier one (still later than all processed ones) enqueued before the next update"
BREAKS="inputs that go back in time before queued inputs are accepted, or the queue is left half changed"
DEMO='''
#include "ink/strokes/in_progress_stroke.h"
using namespace ink;
int main() {
  BrushCoat c{.tips = {BrushTip()}}; Brush b = *Brush::Create(*BrushFamily::Create(absl::MakeSpan(&c, 1)), Color::Black(), 10, 0.1);
  auto in = [](float x, float t) { StrokeInput i{.tool_type = StrokeInput::ToolType::kMouse, .position = {x, 2}, .elapsed_time = Duration32::Seconds(t)}; return *StrokeInputBatch::Create(absl::MakeSpan(&i, 1)); };
  InProgressStroke s; s.Start(b);
  if (!s.EnqueueInputs(in(1, 0), {}).ok() || !s.UpdateShape(Duration32::Zero()).ok()) return 2;
  if (!s.EnqueueInputs(in(5, 3), {}).ok()) return 3;
  if (s.EnqueueInputs({}, in(6, 2)).ok()) return 1;
  return 0;
}
'''
