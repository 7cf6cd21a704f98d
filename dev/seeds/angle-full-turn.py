PROPERTY="T03"
EDITS=[("ink/geometry/angle.cc","""    if (radians == static_cast<float>(2.0 * numbers::kPi)) {
      radians = 0.f;""","""    if (radians > static_cast<float>(2.0 * numbers::kPi)) {
      radians = 0.f;""")]
NEEDS="a negative angle of magnitude below half an ulp of a full turn"
BREAKS="normalising returns exactly a full turn, outside the documented half-open range"
DEMO='''
#include "ink/geometry/angle.h"
int main() { for (float x : {-1e-8f, -1e-20f, -1e-3f, 1.f, 7.f, -7.f}) { ink::Angle a = ink::Angle::Radians(x).Normalized(); if (!(a >= ink::Angle() && a < ink::kFullTurn)) return 1; } return 0; }
'''
