// Easing functions as evaluated: each variant's curve, its end values, and NaN.
#include "specs/common.h"
#include "ink/strokes/internal/easing_implementation.h"
#include "ink/brush/easing_function.h"
using namespace ink; using ink::strokes_internal::EasingImplementation;
namespace {
float NoTies(const char* n) { return ai_f32_in(.01, .99, n); }
double Bez(double t, double p1, double p2) { double u = 1 - t; return 3 * u * u * t * p1 + 3 * u * t * t * p2 + t * t * t; }
double SolveT(double x, double x1, double x2) { double lo = 0, hi = 1; for (int i = 0; i < 50; ++i) { double m = .5 * (lo + hi); if (Bez(m, x1, x2) < x) lo = m; else hi = m; } return .5 * (lo + hi); }
EasingFunction::CubicBezier Named(int k) { switch (k) { case 0: return {.25f, .1f, .25f, 1}; case 1: return {.42f, 0, 1, 1}; case 2: return {0, 0, .58f, 1}; default: return {.42f, 0, .58f, 1}; } }
EasingFunction::Predefined NamedP(int k) { using P = EasingFunction::Predefined; switch (k) { case 0: return P::kEase; case 1: return P::kEaseIn; case 2: return P::kEaseOut; default: return P::kEaseInOut; } }
EasingFunction Fn(EasingFunction::Parameters p) { EasingFunction e; e.parameters = p; return e; }
}
PROP(ease_linear_identity) { EasingImplementation e{Fn(EasingFunction::Predefined::kLinear)}; float x = ai_f32("x"); ai_ident_f(e.GetY(x), x, "linear-is-identity"); }
// the predefined curves are the documented CSS cubic Béziers, at every thirteenth of the interval and in between
PROP(ease_predefined) { int k = (int)ai_split(ai_i32(0, 3, "curve")), i = (int)ai_split(ai_i32(0, 26, "x")); EasingImplementation e{Fn(NamedP(k))}; EasingFunction::CubicBezier c = Named(k); double x = i / 26., t = SolveT(x, c.x1, c.x2), y = e.GetY((float)x), want = Bez(t, c.y1, c.y2); ai_assert(y > want - .015 && y < want + .015, "predefined-curve-values"); }
// any control-point heights: the table is linear in them, with the Bernstein weights of the curve parameter at that x
PROP(ease_bezier_heights) { float x1[] = {0, .25f, .42f, 1, 1, 0}, x2[] = {1, .25f, .58f, 0, 1, 0}; int k = (int)ai_split(ai_i32(0, 5, "controls")), i = (int)ai_split(ai_i32(1, 12, "x")); float g = ai_f32_in(-4, 4, "y1"), h = ai_f32_in(-4, 4, "y2"); EasingImplementation e{Fn(EasingFunction::CubicBezier{x1[k], g, x2[k], h})}; double t = SolveT(i / 13., x1[k], x2[k]), u = 1 - t; ai_near(e.GetY((float)(i / 13.)), 3 * u * u * t * g + 3 * u * t * t * h + t * t * t, .12, "bezier-curve-values"); }
PROP(ease_bezier_ends) { EasingImplementation e{Fn(EasingFunction::CubicBezier{.3f, ai_f32_in(-100, 100, "y1"), .6f, ai_f32_in(-100, 100, "y2")})}; bool lo = ai_bool("below"); float x = lo ? ai_f32_in(-kInf, 0, "x") : ai_f32_in(1, kInf, "x"); double y = e.GetY(x); if (lo) ai_near(y, 0, 1e-6, "bezier-starts-at-zero"); else ai_near(y, 1, .05, "bezier-ends-at-one"); }
// in between table entries the value stays between them, and every x indexes inside the table
PROP(ease_bezier_inside) { int k = (int)ai_split(ai_i32(0, 3, "curve")); EasingImplementation e{Fn(NamedP(k))}; float x = ai_f32_in(0, 1, "x"); double y = e.GetY(x); ai_assert(ai_and(ai_fle(-.001, y), ai_fle(y, 1.001)), "predefined-stays-in-unit-range"); }
PROP(ease_nan) { EasingImplementation b{Fn(EasingFunction::Predefined::kEase)}; float nan = std::numeric_limits<float>::quiet_NaN(); ai_assert(ai_isnan(b.GetY(nan)), "nan-in-nan-out"); EasingFunction::Linear l; l.points = {{.5f, .7f}}; ai_assert(ai_isnan(EasingImplementation(Fn(l)).GetY(nan)), "nan-in-nan-out"); EasingFunction::Steps s{2, EasingFunction::StepPosition::kJumpBoth}; ai_assert(ai_isnan(EasingImplementation(Fn(s)).GetY(nan)), "nan-in-nan-out"); }
// ---- steps ----
PROP(steps_outside) { EasingFunction::Steps s{(int)ai_split(ai_i32(2, 5, "n")), static_cast<EasingFunction::StepPosition>(ai_split(ai_i32(0, 3, "position")))}; EasingImplementation e{Fn(s)}; ai_assert(e.GetY(ai_f32_in(-kInf, -1e-30, "lo")) == 0, "steps-zero-before"); ai_assert(e.GetY(ai_f32_in(1, kInf, "hi")) == 1, "steps-one-from-end"); }
PROP(steps_inside) { using P = EasingFunction::StepPosition; int n = (int)ai_split(ai_i32(1, 6, "n")); P p = static_cast<P>(ai_split(ai_i32(0, 3, "position"))); if (p == P::kJumpNone && n < 2) ai_stop(); int i = (int)ai_split(ai_i32(0, 5, "step")); if (i >= n) ai_stop(); float x = ai_f32_in(0, .99999, "x"); double lo = (i + 1e-4) / n, hi = (i + 1 - 1e-4) / n; ai_assume(ai_and(ai_fle(lo, x), ai_fle(x, hi))); EasingImplementation e{Fn(EasingFunction::Steps{n, p})};
  double want = p == P::kJumpEnd ? double(i) / n : p == P::kJumpStart ? double(i + 1) / n : p == P::kJumpNone ? double(i) / (n - 1) : double(i + 1) / (n + 1); ai_same(e.GetY(x), want, 1e-5, "step-height-by-position"); }
PROP(steps_at_zero) { using P = EasingFunction::StepPosition; int n = (int)ai_split(ai_i32(2, 6, "n")); P p = static_cast<P>(ai_split(ai_i32(0, 3, "position"))); double y = EasingImplementation(Fn(EasingFunction::Steps{n, p})).GetY(0); ai_same(y, p == P::kJumpStart ? 1. / n : p == P::kJumpBoth ? 1. / (n + 1) : 0, 1e-6, "first-step-starts-at-zero"); }
PROP(steps_predefined) { using P = EasingFunction::Predefined; float x = ai_f32("x"); double s = EasingImplementation(Fn(P::kStepStart)).GetY(x), t = EasingImplementation(Fn(P::kStepEnd)).GetY(x); if (x < 0) { ai_assert(s == 0, "step-start-zero-before"); ai_assert(t == 0, "step-end-zero-before-one"); } else if (x >= 1) { ai_assert(s == 1, "step-start-one-from-zero"); ai_assert(t == 1, "step-end-one-at-one"); } else if (x == x) { ai_assert(s == 1, "step-start-one-from-zero"); ai_assert(t == 0, "step-end-zero-before-one"); } }
// ---- piecewise linear ----
static EasingFunction::Linear Pts(std::initializer_list<Point> p) { EasingFunction::Linear l; for (Point q : p) l.points.push_back(q); return l; }
PROP(linear_empty) { float x = ai_f32_in(-10, 10, "x"); ai_same(EasingImplementation(Fn(EasingFunction::Linear{})).GetY(x), x, 1e-6, "implicit-ends"); }
PROP(linear_three) { float a = ai_f32_in(.1, .3, "a"), b = ai_f32_in(.4, .6, "b"), c = ai_f32_in(.7, .9, "c"); float p = ai_f32_in(-5, 5, "p"), q = ai_f32_in(-5, 5, "q"), r = ai_f32_in(-5, 5, "r"); EasingImplementation e{Fn(Pts({{a, p}, {b, q}, {c, r}}))}; float x = ai_f32_in(0, 1, "x"); double y = e.GetY(x), X = x; 
  if (x < a) ai_same(y, p * X / a, 1e-4, "first-piece-from-origin"); else if (x < b) ai_same(y, p + ((double)q - p) * (X - a) / ((double)b - a), 1e-4, "interpolates-between-points"); else if (x < c) ai_same(y, q + ((double)r - q) * (X - b) / ((double)c - b), 1e-4, "interpolates-between-points"); else ai_same(y, r + (1 - (double)r) * (X - c) / (1 - (double)c), 1e-4, "last-piece-to-one-one"); }
// a discontinuity: before it the first point's branch, at and after it the last point's branch; middle points are not used
// points however close in x: the segment between them is still crossed linearly, and outside them the outer pieces apply
PROP(linear_steep) { int k = (int)ai_split(ai_i32(0, 20, "gap")), w = (int)ai_split(ai_i32(0, 2, "where")); float g = 4.f / (float)(1 << k) / 16, a = w == 0 ? .0009765625f : w == 1 ? .25f : .5f; if (a + g / 4 == a || a + g > 1) ai_stop(); if (w == 1 && k > 17) ai_stop(); if (w == 2 && k > 16) ai_stop(); EasingImplementation e{Fn(Pts({{a, -1}, {a + g, 3}}))}; for (int i = 0; i <= 4; ++i) { float x = a + g * i / 4; double t = ((double)x - a) / g, y = e.GetY(x); if (i < 4) ai_assert(y > 4 * t - 1.01 && y < 4 * t - .99, "steep-segments-are-linear"); else ai_assert(y > 2.99 && y < 3.01, "steep-segments-are-linear"); } float before = a * .5f, after = (a + g) + (1 - (a + g)) * .5f; ai_assert(e.GetY(before) > -.51 && e.GetY(before) < -.49, "outer-pieces-apply"); ai_assert(e.GetY(after) > 1.99 && e.GetY(after) < 2.01, "outer-pieces-apply"); }
PROP(linear_jump) { float a = ai_f32_in(.3, .6, "a"), p = ai_f32_in(-5, 5, "p"), m = ai_f32_in(-5, 5, "m"), q = ai_f32_in(-5, 5, "q"); bool mid = ai_bool("middle"); EasingImplementation e{Fn(mid ? Pts({{a, p}, {a, m}, {a, q}}) : Pts({{a, p}, {a, q}}))}; float x = ai_f32_in(0, 1, "x"); double y = e.GetY(x), X = x; if (x < a) ai_same(y, p * X / a, 1e-4, "left-branch"); else ai_same(y, q + (1 - (double)q) * (X - a) / (1 - (double)a), 1e-4, "right-branch"); }
PROP(linear_jump_at_ends) { bool two = ai_bool("two"); float p = ai_f32_in(-5, 5, "p"), q = ai_f32_in(-5, 5, "q"), u = ai_f32_in(-5, 5, "u"), v = ai_f32_in(-5, 5, "v"); EasingImplementation e{Fn(two ? Pts({{0, u}, {0, p}, {1, q}, {1, v}}) : Pts({{0, p}, {1, q}}))}; float x = ai_f32_in(.001, .999, "x"); ai_same(e.GetY(x), p + ((double)q - p) * x, 1e-4, "inner-points-at-ends"); ai_same(e.GetY(0), p, 1e-6, "last-point-at-zero"); }
// ---- critical points ----
static constexpr int kMax = EasingImplementation::kInlineCriticalPointCount;
PROP(critical_none) { absl::InlinedVector<float, kMax> c; EasingImplementation(Fn(EasingFunction::Predefined::kLinear)).AppendUnitIntervalCriticalPoints(c); ai_assert(c.size() == 0, "identity-has-none"); EasingImplementation(Fn(EasingFunction::Predefined::kEaseInOut)).AppendUnitIntervalCriticalPoints(c); ai_assert(c.size() == 0, "monotone-curve-has-none"); }
PROP(critical_linear) { absl::InlinedVector<float, kMax> c; float a = ai_f32_in(.1, .3, "a"), b = ai_f32_in(.4, .6, "b"); bool dup = ai_bool("jump"); EasingImplementation(Fn(dup ? Pts({{a, 1}, {b, 2}, {b, 3}}) : Pts({{a, 1}, {b, 2}}))).AppendUnitIntervalCriticalPoints(c); ai_assert(c.size() == (dup ? 3u : 2u), "one-per-kink-two-per-jump"); ai_ident_f(c[0], a, "kinks-listed"); ai_ident_f(c[c.size() - 1], b, "kinks-listed"); if (dup) ai_assert(c[1] < b, "point-just-before-jump"); }
PROP(critical_steps) { using P = EasingFunction::StepPosition; int n = (int)ai_split(ai_i32(2, 4, "n")); P p = static_cast<P>(ai_split(ai_i32(0, 3, "position"))); EasingImplementation e{Fn(EasingFunction::Steps{n, p})}; absl::InlinedVector<float, kMax> c; e.AppendUnitIntervalCriticalPoints(c); bool start = p == P::kJumpStart || p == P::kJumpBoth, end = p != P::kJumpStart; ai_assert((int)c.size() == 2 * (n - 1) + start + 2 * end, "every-step-listed"); int at = 0; if (start) ai_assert(c[at++] == 0, "jump-at-start"); for (int i = 1; i < n; ++i) { ai_assert(c[at] < c[at + 1], "value-just-before-step"); ai_assert(c[at + 1] > (float)(i - .001) / n && c[at + 1] < (float)(i + .001) / n, "step-positions"); at += 2; } if (end) { ai_assert(c[at] < 1, "value-just-before-step"); ai_assert(c[at + 1] == 1, "end-listed"); } }
PROP(critical_bezier) { absl::InlinedVector<float, kMax> c; EasingImplementation(Fn(EasingFunction::CubicBezier{.3f, 2, .6f, -1})).AppendUnitIntervalCriticalPoints(c); ai_assert(c.size() == 2, "both-turns-found"); ai_assert(c[0] > .1 && c[0] < .5 && c[1] > .5 && c[1] < .9, "both-turns-found"); }
