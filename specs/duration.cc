#include "ink/types/duration.h"
#include "specs/common.h"
#include "absl/time/time.h"
using ink::Duration32;
static Duration32 D(const char* n) { return Duration32::Seconds(ai_f32(n)); }
static bool NotNan(Duration32 d) { return ai_not(ai_isnan(d.ToSeconds())); }
static bool Is(Duration32 d, double v) { return ai_feq(d.ToSeconds(), v); }
PROP(duration_factories) {
  float s = ai_f32("seconds");
  Duration32 a = Duration32::Seconds(s);
  ai_assert(NotNan(a), "seconds-factory-not-nan");
  if (std::isnan(s)) ai_assert(Is(a, kInf), "seconds-factory-nan-is-infinite");
  else ai_ident_f(a.ToSeconds(), s, "seconds-factory-keeps-value");
  Duration32 b = Duration32::Millis(s);
  ai_assert(NotNan(b), "millis-factory-not-nan");
  ai_assert(ai_not(ai_isnan(b.ToMillis())), "tomillis-not-nan");
  if (std::isnan(s)) ai_assert(Is(b, kInf), "millis-factory-nan-is-infinite");
  else { ai_same(b.ToSeconds(), s / 1000.0, 1e-6, "millis-is-thousandth-of-second"); ai_same(b.ToMillis(), s, 1e-6, "millis-round-trip"); ai_same(a.ToMillis(), s * 1000.0, 1e-6, "seconds-to-millis"); }
  ai_assert(Is(Duration32::Zero(), 0), "zero-is-zero"); ai_assert(Is(Duration32(), 0), "default-is-zero"); ai_assert(Is(Duration32::Infinite(), kInf), "infinite-is-infinite");
  if (!std::isnan(s)) IFF(a.IsFinite(), ai_finite(s), "isfinite");
}
PROP(duration_arith) {
  Duration32 a = D("a"), b = D("b"); float k = ai_f32("k");
  ai_assert(NotNan(a + b), "sum-not-nan");
  ai_assert(NotNan(a - b), "difference-not-nan");
  ai_assert(NotNan(a * k), "product-not-nan");
  ai_assert(NotNan(k * a), "product-left-not-nan");
  ai_assert(NotNan(a / k), "quotient-not-nan");
  ai_assert(ai_not(ai_isnan(a / b)), "ratio-not-nan");
  ai_assert(NotNan(-a), "negation-not-nan");
}
static Duration32 Inf(int sign) { return sign > 0 ? Duration32::Infinite() : -Duration32::Infinite(); }
// the documented results of arithmetic involving infinite, zero or NaN operands
PROP(duration_special) {
  Duration32 d = D("d"); float k = ai_f32("k");
  for (int s : {1, -1}) {
    ai_assert(Is(Inf(s) + d, s * kInf), "inf-plus-anything");
    ai_assert(Is(Inf(s) - d, s * kInf), "inf-minus-anything");
    for (int t : {1, -1}) {
      ai_assert(ai_feq(Inf(s) / Inf(t), s * t * kInf), "inf-over-inf");
      ai_assert(Is(Inf(s) / float(t * kInf), s * t * kInf), "inf-over-float-inf");
    }
  }
  ai_assert(ai_feq(Duration32::Zero() / Duration32::Zero(), kInf), "zero-over-zero");
  float nan = std::numeric_limits<float>::quiet_NaN(); bool pos = d >= Duration32::Zero();
  if (pos) { ai_assert(Is(d * nan, kInf), "times-nan"); ai_assert(Is(nan * d, kInf), "nan-times"); ai_assert(Is(d / nan, kInf), "over-nan"); }
  else { ai_assert(Is(d * nan, -kInf), "times-nan"); ai_assert(Is(nan * d, -kInf), "nan-times"); ai_assert(Is(d / nan, -kInf), "over-nan"); }
  // a value plus an infinity takes the infinity
  Duration32 f = Duration32::Seconds(Fin("f"));
  for (int s : {1, -1}) { ai_assert(Is(f + Inf(s), s * kInf), "finite-plus-inf"); ai_assert(Is(f - Inf(s), -s * kInf), "finite-minus-inf"); }
  if (ai_isnan(k)) return; 
  for (int s : {1, -1}) if (k > 0) { ai_assert(Is(Inf(s) * k, s * kInf), "inf-times-positive"); ai_assert(Is(Inf(s) / k, s * kInf), "inf-over-positive"); }
    else if (k < 0) { ai_assert(Is(Inf(s) * k, -s * kInf), "inf-times-negative"); ai_assert(Is(Inf(s) / k, -s * kInf), "inf-over-negative"); }
}
PROP(duration_finite_arith) {
  float x = Fin("x"), y = Fin("y"), k = Fin("k");
  Duration32 a = Duration32::Seconds(x), b = Duration32::Seconds(y);
  ai_same((a + b).ToSeconds(), (double)x + y, 1e-6, "sum");
  ai_same((a - b).ToSeconds(), (double)x - y, 1e-6, "difference");
  ai_same((-a).ToSeconds(), -(double)x, 1e-6, "negation");
  ai_same((a * k).ToSeconds(), (double)x * k, 1e-6, "product");
  ai_same((k * a).ToSeconds(), (double)x * k, 1e-6, "product-left");
  if (k != 0) ai_same((a / k).ToSeconds(), (double)x / k, 1e-6, "quotient");
  if (y != 0) ai_same(a / b, (double)x / y, 1e-6, "ratio");
  Duration32 c = a; c += b; ai_ident_f(c.ToSeconds(), (a + b).ToSeconds(), "plus-assign");
  c = a; c -= b; ai_ident_f(c.ToSeconds(), (a - b).ToSeconds(), "minus-assign");
}
PROP(duration_assign_arith) {
  float k = ai_f32("k"); Duration32 a = D("a");
  Duration32 c = a; c *= k; ai_ident_f(c.ToSeconds(), (a * k).ToSeconds(), "times-assign");
  c = a; c /= k; ai_ident_f(c.ToSeconds(), (a / k).ToSeconds(), "divide-assign");
}
// to abseil's durations, whose range is smaller, and to text that tells finite from infinite durations
PROP(duration_abseil) {
  Duration32 d = D("d"); double s = d.ToSeconds(), limit = 9223372036854775808.;
  double z = absl::ToDoubleSeconds(d.ToAbseil());
  if (s >= limit) ai_assert(z == kInf, "abseil-beyond-its-range-is-infinite"); else if (s < -limit) ai_assert(z == -kInf, "abseil-beyond-its-range-is-infinite"); else ai_ident_f(z, s, "abseil-keeps-the-seconds");
  absl::ink_shim_time::formatted = 0; struct Sink { void Append(std::string_view) {} } sink; AbslStringify(sink, d);
  bool plain = d.IsFinite() && (s >= limit || s < -limit);
  ai_assert(absl::ink_shim_time::formatted == (plain ? 0 : 1), "text-of-what-abseil-cannot-hold-is-in-seconds");
  if (!plain) ai_ident_f(absl::ink_shim_time::last, s, "text-of-the-same-duration");
}
PROP(duration_order) {
  float x = NonNan("x"), y = NonNan("y");
  Duration32 a = Duration32::Seconds(x), b = Duration32::Seconds(y);
  IFF(x == y, a == b, "equal"); IFF(x != y, a != b, "not-equal"); IFF(x < y, a < b, "less"); IFF(x > y, a > b, "greater"); IFF(x <= y, a <= b, "less-equal"); IFF(x >= y, a >= b, "greater-equal");
  if (a == b) SameHash(a, b, "equal-values-hash-equal");
}
