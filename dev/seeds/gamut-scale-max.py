PROPERTY="C02"
EDITS=[("ink/color/color.cc","""  for (float &c : copy.rgba_) {
    c = std::clamp(c, 0.0f, 1.0f);
  }
  return copy;""","""  if (IsNearlyInGamut()) return copy;
  for (float &c : copy.rgba_) {
    c = std::clamp(c, 0.0f, 1.0f);
  }
  return copy;""")]
NEEDS="a color that is only just out of gamut"
BREAKS="clamping leaves colors slightly out of gamut"
DEMO='''
#include "ink/color/color.h"
using namespace ink;
int main() { return Color::FromFloat(1.000001f, 0, 0, 1, Color::Format::kLinear).ClampedToGamut().IsInGamut() ? 0 : 1; }
'''
