PROPERTY='B03'
EDITS=[
('ink/brush/easing_function.cc',
'    float prev_x = params.points[i - 1].x;',
'    float prev_x = params.points[0].x;')]
NEEDS='three points of which the last lies between the first two'
BREAKS='a linear easing whose x values decrease is accepted'
DEMO='''
#include "ink/brush/brush_behavior.h"
#include "ink/brush/brush_tip.h"
#include "ink/brush/brush_paint.h"
#include "ink/brush/brush_coat.h"
#include "ink/brush/easing_function.h"
#include <algorithm>
#include <cmath>
using namespace ink;

int main() {
  return brush_internal::ValidateEasingFunction(EasingFunction{EasingFunction::Linear{.points = {{0.1f, 0}, {0.8f, 1}, {0.5f, 0}}}}).ok() ? 1 : 0;
}
'''
