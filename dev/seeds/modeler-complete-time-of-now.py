PROPERTY='S05'
EDITS=[
('ink/strokes/internal/stroke_input_modeler.cc',
'      std::max(last_input.elapsed_time, current_elapsed_time);',
'      current_elapsed_time;')]
NEEDS='an update earlier than the last modeled input'
BREAKS='the complete time of a stroke is before its last input'
DEMO='''
#include "ink/strokes/internal/stroke_input_modeler.h"
using namespace ink;
int main() {
  std::vector<StrokeInput> v(3); for (int i = 0; i < 3; ++i) { v[i].position = {10.f * i, 0}; v[i].elapsed_time = Duration32::Seconds(i); } strokes_internal::StrokeInputModeler m; m.StartStroke(BrushFamily::DefaultInputModel(), 0.01f);
  m.ExtendStroke(*StrokeInputBatch::Create(v), {}, Duration32::Seconds(0.5f)); return m.GetModeledInputs().empty() ? 2 : m.GetState().complete_elapsed_time < m.GetModeledInputs().back().elapsed_time ? 1 : 0;
}
'''
