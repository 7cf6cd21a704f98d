#include "ink/geometry/angle.h"
#include "specs/common.h"
using ink::Angle;
static const float kTau = static_cast<float>(2.0 * 3.14159265358979323846), kPi = static_cast<float>(3.14159265358979323846);
PROP(angle_units) {
  float v = Fin("v");
  ai_same(Angle::Radians(v).ValueInRadians(), v, 1e-6, "radians-round-trip");
  ai_same(Angle::Degrees(v).ValueInRadians(), v * (3.14159265358979323846 / 180), 1e-6, "degrees-to-radians");
  ai_same(Angle::Radians(v).ValueInDegrees(), v * (180 / 3.14159265358979323846), 1e-6, "radians-to-degrees");
  ai_same(Angle::Degrees(v).ValueInDegrees(), v, 1e-6, "degrees-round-trip");
  ai_assert(ai_feq(Angle().ValueInRadians(), 0), "default-zero");
  ai_same(ink::kQuarterTurn.ValueInRadians(), 1.57079632679489661923, 1e-6, "quarter-turn");
  ai_same(ink::kHalfTurn.ValueInRadians(), 3.14159265358979323846, 1e-6, "half-turn");
  ai_same(ink::kFullTurn.ValueInRadians(), 6.28318530717958647693, 1e-6, "full-turn");
}
PROP(angle_normalized) {
  float v = Fin("v"); float y = Angle::Radians(v).Normalized().ValueInRadians();
  ai_assert(ai_not(ai_isnan(y)), "normalized-not-nan");
  ai_assert(ai_fle(0, y), "normalized-not-negative");
  ai_assert(ai_flt(y, kTau), "normalized-below-full-turn");
  float r = std::fmod(v, kTau);   // the residue; same turn count removed
  if (r < 0) ai_assert(ai_or(ai_feq(y, r + kTau), ai_and(ai_feq(r + kTau, kTau), ai_feq(y, 0))), "normalized-is-equivalent"); else ai_assert(ai_feq(y, r), "normalized-is-equivalent");
}
PROP(angle_normalized_about_zero) {
  float v = Fin("v"); float y = Angle::Radians(v).NormalizedAboutZero().ValueInRadians();
  ai_assert(ai_not(ai_isnan(y)), "about-zero-not-nan");
  ai_assert(ai_flt(-kPi, y), "about-zero-above-minus-half-turn");
  ai_assert(ai_fle(y, kPi), "about-zero-at-most-half-turn");
  float r = std::fmod(v, kTau);
  if (r > kPi) ai_assert(ai_feq(y, r - kTau), "about-zero-is-equivalent"); else if (r <= -kPi) ai_assert(ai_feq(y, r + kTau), "about-zero-is-equivalent"); else ai_assert(ai_feq(y, r), "about-zero-is-equivalent");
}
PROP(angle_arith) {
  float x = Fin("x"), y = Fin("y"), k = Fin("k"); Angle a = Angle::Radians(x), b = Angle::Radians(y);
  ai_same((a + b).ValueInRadians(), (double)x + y, 1e-6, "sum"); ai_same((a - b).ValueInRadians(), (double)x - y, 1e-6, "difference"); ai_same((-a).ValueInRadians(), -(double)x, 1e-6, "negation");
  ai_same((a * k).ValueInRadians(), (double)x * k, 1e-6, "product"); ai_same((k * a).ValueInRadians(), (double)x * k, 1e-6, "product-left");
  if (k != 0) ai_same((a / k).ValueInRadians(), (double)x / k, 1e-6, "quotient");
  if (y != 0) ai_same(a / b, (double)x / y, 1e-6, "ratio");
  Angle c = a; c += b; ai_ident_f(c.ValueInRadians(), (a + b).ValueInRadians(), "plus-assign"); c = a; c -= b; ai_ident_f(c.ValueInRadians(), (a - b).ValueInRadians(), "minus-assign"); c = a; c *= k; ai_ident_f(c.ValueInRadians(), (a * k).ValueInRadians(), "times-assign"); c = a; c /= k; ai_ident_f(c.ValueInRadians(), (a / k).ValueInRadians(), "divide-assign");
}
PROP(angle_functions) {
  float x = Fin("x"), y = Fin("y"); Angle a = Angle::Radians(x), b = Angle::Radians(y);
  ai_ident_f(Sin(a), std::sin(x), "sin"); ai_ident_f(Cos(a), std::cos(x), "cos"); ai_same(Tan(a), std::tan(x), 1e-6, "tan");
  ai_ident_f(ink::Asin(x).ValueInRadians(), std::asin(x), "asin"); ai_ident_f(ink::Acos(x).ValueInRadians(), std::acos(x), "acos"); ai_ident_f(ink::Atan(x).ValueInRadians(), std::atan(x), "atan");
  ai_assert(ai_feq(Abs(a).ValueInRadians(), std::abs(x)), "abs");
  if (y != 0) ai_ident_f(Mod(a, b).ValueInRadians(), std::fmod(x, y), "mod");
  float mn = Min(a, b).ValueInRadians(), mx = Max(a, b).ValueInRadians();
  if (x < y) { ai_assert(ai_feq(mn, x), "min"); ai_assert(ai_feq(mx, y), "max"); } else { ai_assert(ai_feq(mn, y), "min"); ai_assert(ai_feq(mx, x), "max"); }
}
PROP(angle_order) {
  float x = NonNan("x"), y = NonNan("y"); Angle a = Angle::Radians(x), b = Angle::Radians(y);
  IFF(x == y, a == b, "equal"); IFF(x != y, a != b, "not-equal"); IFF(x < y, a < b, "less"); IFF(x > y, a > b, "greater"); IFF(x <= y, a <= b, "less-equal"); IFF(x >= y, a >= b, "greater-equal");
  if (a == b) SameHash(a, b, "equal-values-hash-equal");
}
