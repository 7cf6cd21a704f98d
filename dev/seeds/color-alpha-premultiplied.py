PROPERTY="C01"
EDITS=[("ink/color/color.cc","""  alpha = std::clamp(NanToZero(alpha), 0.0f, 1.0f);
  if (""","""  alpha = std::clamp(alpha, 0.0f, 1.0f);
  if (""")]
NEEDS="a NaN alpha"
BREAKS="a color holds a NaN alpha"
DEMO='''
#include "ink/color/color.h"
#include <cmath>
using namespace ink;
int main() { return Color::FromFloat(0, 0, 0, NAN, Color::Format::kLinear).AsFloat(Color::Format::kLinear).a == 0 ? 0 : 1; }
'''
