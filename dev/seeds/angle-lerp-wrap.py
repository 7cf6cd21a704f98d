PROPERTY="G05"
EDITS=[("ink/geometry/internal/algorithms.cc","""  return (a + Lerp(Angle(), (b - a).NormalizedAboutZero(), t)).Normalized();""","""  Angle turn = b.Normalized() - a.Normalized();
  if (turn < -kHalfTurn) turn += kFullTurn;
  return (a + Lerp(Angle(), turn, t)).Normalized();""")]
NEEDS="a turn of more than half a turn from a smaller to a larger normalised angle"
BREAKS="interpolation between such angles goes the long way round"
DEMO='''
#include "ink/geometry/internal/algorithms.h"
#include <cmath>
using namespace ink;
int main() { float v = geometry_internal::NormalizedAngleLerp(Angle::Radians(0.1), Angle::Radians(6.1), 0.5).ValueInRadians(); return v < 0.5 || v > 5.9 ? 0 : 1; }
'''
