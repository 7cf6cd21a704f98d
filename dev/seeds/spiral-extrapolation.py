PROPERTY="G05"
EDITS=[("ink/geometry/internal/algorithms.cc","""  if (t == 0) return a;
  if (t == 1) return b;

""","""  if (t <= 0) return a;
  if (t >= 1) return b;

""")]
NEEDS="an interpolation amount outside of 0..1"
BREAKS="spiral interpolation stops at its ends instead of extrapolating"
DEMO='''
#include "ink/geometry/internal/algorithms.h"
#include <cmath>
using namespace ink;
int main() { Vec v = geometry_internal::SpiralLerp({1, 0}, {2, 0}, 2); return std::fabs(v.x - 3) < 1e-3 ? 0 : 1; }
'''
