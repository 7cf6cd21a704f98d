#include "ink/types/physical_distance.h"
#include "specs/common.h"
using ink::PhysicalDistance;
static PhysicalDistance D(float cm) { return PhysicalDistance::Centimeters(cm); }
PROP(distance_units) {
  float v = Fin("v");
  ai_same(PhysicalDistance::Centimeters(v).ToCentimeters(), v, 1e-6, "cm-round-trip");
  ai_same(PhysicalDistance::Inches(v).ToCentimeters(), v * 2.54, 1e-6, "inch-is-2.54-cm");
  ai_same(PhysicalDistance::Meters(v).ToCentimeters(), v * 100.0, 1e-6, "metre-is-100-cm");
  ai_same(PhysicalDistance::Inches(v).ToInches(), v, 1e-6, "inch-round-trip");
  ai_same(PhysicalDistance::Meters(v).ToMeters(), v, 1e-6, "metre-round-trip");
  ai_same(PhysicalDistance::Centimeters(v).ToInches(), v / 2.54, 1e-6, "cm-to-inch");
  ai_same(PhysicalDistance::Centimeters(v).ToMeters(), v / 100.0, 1e-6, "cm-to-metre");
  ai_same(PhysicalDistance::Inches(v).ToMeters(), v * 0.0254, 1e-6, "inch-to-metre");
  ai_assert(ai_feq(PhysicalDistance::Zero().ToCentimeters(), 0), "zero"); ai_assert(ai_feq(PhysicalDistance().ToCentimeters(), 0), "default-zero");
  float w = ai_f32("w"); IFF(ai_finite(w), PhysicalDistance::Centimeters(w).IsFinite(), "is-finite");
}
PROP(distance_arith) {
  float x = Fin("x"), y = Fin("y"), k = Fin("k"); PhysicalDistance a = D(x), b = D(y);
  ai_same((a + b).ToCentimeters(), (double)x + y, 1e-6, "sum");
  ai_same((a - b).ToCentimeters(), (double)x - y, 1e-6, "difference");
  ai_same((-a).ToCentimeters(), -(double)x, 1e-6, "negation");
  ai_same((a * k).ToCentimeters(), (double)x * k, 1e-6, "product"); ai_same((k * a).ToCentimeters(), (double)x * k, 1e-6, "product-left");
  if (k != 0) ai_same((a / k).ToCentimeters(), (double)x / k, 1e-6, "quotient");
  if (y != 0) ai_same(a / b, (double)x / y, 1e-6, "ratio");
}
PROP(distance_assign) {
  float k = ai_f32("k"); PhysicalDistance a = D(ai_f32("a")), b = D(ai_f32("b"));
  PhysicalDistance c = a; c += b; ai_ident_f(c.ToCentimeters(), (a + b).ToCentimeters(), "plus-assign");
  c = a; c -= b; ai_ident_f(c.ToCentimeters(), (a - b).ToCentimeters(), "minus-assign");
  c = a; c *= k; ai_ident_f(c.ToCentimeters(), (a * k).ToCentimeters(), "times-assign");
  c = a; c /= k; ai_ident_f(c.ToCentimeters(), (a / k).ToCentimeters(), "divide-assign");
}
PROP(distance_order) {
  float x = NonNan("x"), y = NonNan("y"); PhysicalDistance a = D(x), b = D(y);
  IFF(x == y, a == b, "equal"); IFF(x != y, a != b, "not-equal"); IFF(x < y, a < b, "less"); IFF(x > y, a > b, "greater"); IFF(x <= y, a <= b, "less-equal"); IFF(x >= y, a >= b, "greater-equal");
  if (a == b) SameHash(a, b, "equal-values-hash-equal");
}
