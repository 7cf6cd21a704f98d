PROPERTY="C01"
EDITS=[("ink/color/color.cc","""  const Color converted = other.InColorSpace(color_space_);
  for (int i = 0;""","""  const Color converted =
      other.IsInGamut() ? other.InColorSpace(color_space_) : other;
  for (int i = 0;""")]
NEEDS="comparing colors of different color spaces of which the second is out of gamut"
BREAKS="nearly equal colors in different color spaces compare different when out of gamut"
DEMO='''
#include "ink/color/color.h"
using namespace ink;
int main() { Color a = Color::FromFloat(0, 1.5, 0.25, 1, Color::Format::kLinear, ColorSpace::kDisplayP3); return a.InColorSpace(ColorSpace::kSrgb).NearlyEquals(a) && a.NearlyEquals(a.InColorSpace(ColorSpace::kSrgb)) ? 0 : 1; }
'''
