PROPERTY="G01"
EDITS=[("ink/geometry/segment.cc","""  if (magnitude_squared <= 0) {
    return std::nullopt;
  }
""","""  if (magnitude_squared < 0) {
    return std::nullopt;
  }
""")]
NEEDS="a segment so short that its squared length underflows to zero although its ends differ"
BREAKS="projecting onto such a segment divides by zero and returns NaN or infinity instead of no value"
DEMO='''
#include "ink/geometry/segment.h"
#include <cmath>
using namespace ink;
int main() { Segment s{{0, 0}, {1e-30f, 0}}; auto p = s.Project({1, 1}); return !p || std::isfinite(*p) ? 0 : 1; }
'''
