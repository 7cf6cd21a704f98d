PROPERTY="C02"
EDITS=[("ink/color/color_space.cc","""    -0.9313881794047785, +1.7626305796003034, -0.0761839369220757,  // Column 1""".replace("-0.9313881794047785","-0.9313881794047785"),"""    -0.9313881794047785, +1.7626305796003034, -0.0716839369220757,  // Column 1""")]
NEEDS="a Display P3 conversion of a color with green"
BREAKS="conversion to Display P3 and back does not return the color"
DEMO='''
#include "ink/color/color_space.h"
#include <cmath>
using namespace ink;
int main() { std::array<float, 4> c = {0, 1, 0, 1}; auto d = ConvertColor(ConvertColor(c, ColorSpace::kSrgb, ColorSpace::kDisplayP3), ColorSpace::kDisplayP3, ColorSpace::kSrgb); for (int i = 0; i < 4; ++i) if (std::fabs(c[i] - d[i]) > 1e-3) return 1; return 0; }
'''
