PROPERTY="B08"
EDITS=[("ink/strokes/internal/easing_implementation.cc","""    if (i > 0 && linear.points[i].x == 0) {
      linear_implementation.points[0] = linear.points[i];
    } else""","""    if (i > 0 && linear.points[i].x == linear.points[0].x) {
      linear_implementation.points[0] = linear.points[i];
    } else""")]
NEEDS="a linear easing whose first points share an x other than zero"
BREAKS="a jump at the first x of a linear easing loses its lower branch"
DEMO='''
#include "ink/strokes/internal/easing_implementation.h"
#include <cmath>
using namespace ink; using namespace ink::strokes_internal;
int main() {
  EasingImplementation e(EasingFunction{EasingFunction::Linear{.points = {{0.5, 0.2}, {0.5, 0.8}}}});
  return std::fabs(e.GetY(0.25) - 0.1) < 1e-3 ? 0 : 1;
}
'''
