PROPERTY="S02"
EDITS=[("ink/strokes/input/stroke_input_batch.cc","""  std::vector<float>& data = data_.MutableValue();
  int stride = FloatsPerInput();
  data.erase(data.begin() + start * stride,
             data.begin() + (start + count) * stride);
  size_ -= count;""","""  std::vector<float>& data = data_.MutableValue();
  int stride = FloatsPerInput();
  if (start + count == Size()) {
    // Nothing has to move if the tail is removed.
    size_ -= count;
    return;
  }
  data.erase(data.begin() + start * stride,
             data.begin() + (start + count) * stride);
  size_ -= count;""")]
NEEDS="removing the last inputs of a batch and then appending others"
BREAKS="inputs appended after a truncation are not the ones read back"
DEMO='''
#include "ink/strokes/input/stroke_input_batch.h"
using namespace ink;
int main() {
  auto in = [](float x, float t) { return StrokeInput{.tool_type = StrokeInput::ToolType::kMouse, .position = {x, 2}, .elapsed_time = Duration32::Seconds(t)}; };
  StrokeInput i[] = {in(1, 0), in(2, 1), in(3, 2)}; StrokeInputBatch b = *StrokeInputBatch::Create(i);
  b.Erase(2); if (b.Size() != 2 || !b.Append(in(7, 5)).ok()) return 2;
  return b.Get(2).position.x == 7 ? 0 : 1;
}
'''
