PROPERTY="S02"
EDITS=[("ink/strokes/input/stroke_input_batch.cc","""  if (i + 1 < Size()) {
    if (status = ValidateConsecutiveInputs(input, Get(i + 1)); !status.ok()) {""","""  if (i != 0 && i + 1 < Size()) {
    if (status = ValidateConsecutiveInputs(input, Get(i + 1)); !status.ok()) {""")]
NEEDS="setting the first of several inputs to a time after the second"
BREAKS="a batch holds inputs that go back in time"
DEMO='''
#include "ink/strokes/input/stroke_input_batch.h"
using namespace ink;
int main() {
  auto in = [](float x, float t) { return StrokeInput{.tool_type = StrokeInput::ToolType::kMouse, .position = {x, 2}, .elapsed_time = Duration32::Seconds(t)}; };
  StrokeInput i[] = {in(1, 0), in(2, 1), in(3, 2)}; StrokeInputBatch b = *StrokeInputBatch::Create(i);
  return b.Set(0, in(1, 1.5)).ok() ? 1 : 0;
}
'''
