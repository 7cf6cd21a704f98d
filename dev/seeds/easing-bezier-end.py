PROPERTY="B08"
EDITS=[("ink/strokes/internal/easing_implementation.cc","""  if (prev.x == next.x) {
    return x < next.x ? prev.y : next.y;
  }""","""  if (next.x - prev.x < 1e-6f) {
    return x < next.x ? prev.y : next.y;
  }""")]
NEEDS="two curve points closer than a millionth in x"
BREAKS="a steep linear easing becomes a step"
DEMO='''
#include "ink/strokes/internal/easing_implementation.h"
#include <cmath>
using namespace ink; using namespace ink::strokes_internal;
int main() {
  float a = 0.0009765625f, b = a + 0.0000004f, m = a + 0.0000002f;
  EasingImplementation e(EasingFunction{EasingFunction::Linear{.points = {{a, 0}, {b, 1}}}});
  float y = e.GetY(m); return y > 0.2 && y < 0.8 ? 0 : 1;
}
'''
