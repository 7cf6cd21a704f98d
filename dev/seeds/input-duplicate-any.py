PROPERTY='S01'
EDITS=[
('ink/strokes/input/internal/stroke_input_validation_helpers.cc',
'  if (first.elapsed_time > second.elapsed_time) {',
'  if (first.elapsed_time > second.elapsed_time &&\n      !(first.position == second.position)) {')]
NEEDS='an input at the same place as the one before it but earlier'
BREAKS='inputs whose time decreases are accepted'
DEMO='''
#include "ink/strokes/input/stroke_input_batch.h"
using namespace ink;
int main() {
  StrokeInputBatch b; if (!b.Append(StrokeInput{.position = {1, 1}, .elapsed_time = Duration32::Seconds(2)}).ok()) return 2;
  return b.Append(StrokeInput{.position = {1, 1}, .elapsed_time = Duration32::Seconds(1)}).ok() ? 1 : 0;
}
'''
