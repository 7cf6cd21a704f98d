// Circles and rounded polygons: points, tangents, arcs, containment.
#include <cmath>
#include <cstring>
#include <vector>
#include "specs/common.h"
#include "absl/types/span.h"
#include "ink/geometry/angle.h"
#include "ink/geometry/internal/circle.h"
#include "ink/geometry/segment.h"
#include "ink/strokes/internal/rounded_polygon.h"
using namespace ink; using geometry_internal::Circle; using strokes_internal::RoundedPolygon;
namespace {
struct C3 { double x, y, r; };
constexpr double kPi = 3.14159265358979323846;
float Box(double c, const char* n) { return ai_f32_in(c - .001, c + .001, n); }
Circle Make(C3 c) { return Circle({Box(c.x, "x"), Box(c.y, "y")}, c.r == 0 ? 0.f : Box(c.r, "r")); }
Circle Exact(C3 c) { return Circle({float(c.x), float(c.y)}, float(c.r)); }
double Wrap(double a) { while (a > kPi) a -= 2 * kPi; while (a <= -kPi) a += 2 * kPi; return a; }
struct Tangents { bool any; double left, right; bool clear; };
Tangents TangentsOf(C3 a, C3 b) { double dx = b.x - a.x, dy = b.y - a.y, d = __builtin_sqrt(dx * dx + dy * dy), dr = a.r - b.r, ad = dr < 0 ? -dr : dr; Tangents t{}; t.clear = ad < d - .1 || ad > d + .1; t.any = ad < d; if (!t.any) return t; double dir = __builtin_atan2(dy, dx), off = __builtin_acos(dr / d); t.left = Wrap(dir + off); t.right = Wrap(dir - off); return t; }
void SameAngle(Angle g, double want, const char* id) { double w = kPi - (want < 0 ? -want : want); if (w < .1) { double v = g.ValueInRadians(); ai_near(v < 0 ? v + 2 * kPi : v, want < 0 ? want + 2 * kPi : want, .05, id); } else ai_near(g.ValueInRadians(), want, .05, id); ai_assert(g.ValueInRadians() > -kPiF && g.ValueInRadians() <= kPiF, "tangent-angle-normalized"); }
constexpr C3 kA[] = {{0, 0, 1}, {.3, -.2, 2.5}, {-.5, .4, 0}};
constexpr double kR[] = {0, .6, 1.4};
C3 Other(int gx, int gy, int r) { return {gx * 1.3 + .21, gy * 1.2 - .17, kR[r]}; }
}
PROP(circle_basics) { float x = Fin("x"), y = Fin("y"), r = ai_f32_in(0, kFMax, "r"); Circle c({x, y}, r); ai_ident_f(c.Center().x, x, "center"); ai_ident_f(c.Center().y, y, "center"); ai_ident_f(c.Radius(), r, "radius"); Circle d; ai_assert(d.Center().x == 0 && d.Center().y == 0 && d.Radius() == 1, "default-is-the-unit-circle"); d = c; ai_ident_f(d.Center().x, x, "copy"); ai_ident_f(d.Radius(), r, "copy"); }
PROP(circle_bad_radius) { ai_opt("allow-check-failure"); float r = ai_bool("nan") ? std::numeric_limits<float>::quiet_NaN() : ai_f32_in(-kInf, -1e-45, "r"); Circle c({0, 0}, r); ai_assert(false, "never-a-negative-radius"); }
PROP(circle_point) { float x = ai_f32_in(-1e4, 1e4, "x"), y = ai_f32_in(-1e4, 1e4, "y"), r = ai_f32_in(0, 1e4, "r"), t = ai_f32_in(-10, 10, "t"); Point p = Circle({x, y}, r).GetPoint(Angle::Radians(t)); ai_same(p.x, x + (double)r * std::cos(t), 1e-6, "point-on-the-circle"); ai_same(p.y, y + (double)r * std::sin(t), 1e-6, "point-on-the-circle"); }
PROP(circle_tangents) {
  int i = (int)ai_split(ai_i32(0, 2, "A")), gx = (int)ai_split(ai_i32(-2, 2, "gx")), gy = (int)ai_split(ai_i32(-2, 2, "gy")), r = (int)ai_split(ai_i32(0, 2, "r")); C3 a = kA[i], b = Other(gx, gy, r); Tangents t = TangentsOf(a, b); if (!t.clear) ai_stop(); Circle p = Make(a), q = Make(b); auto g = p.GetTangentAngles(q); ai_assert(g.has_value() == t.any, "tangents-exist-unless-one-circle-is-inside-the-other"); if (!g.has_value() || !t.any) ai_stop(); SameAngle(g->left, t.left, "left-tangent"); SameAngle(g->right, t.right, "right-tangent"); SameAngle(p.GuaranteedRightTangentAngle(q), t.right, "right-tangent-alone");
}
PROP(circle_no_tangents) { int k = (int)ai_split(ai_i32(0, 5, "case")); constexpr C3 p[][2] = {{{1, 2, 3}, {1, 2, 3}}, {{1, 2, 3}, {1, 2, 1}}, {{0, 0, 3}, {1, 0, 2}}, {{0, 0, 2}, {0, 1, 3}}, {{4, 5, 0}, {4, 5, 0}}, {{0, 0, 5}, {3, 4, 0}}}; ai_assert(!Exact(p[k][0]).GetTangentAngles(Exact(p[k][1])).has_value() && !Exact(p[k][1]).GetTangentAngles(Exact(p[k][0])).has_value(), "no-two-tangents-when-touching-inside-or-coinciding"); }
PROP(circle_contains) { int i = (int)ai_split(ai_i32(0, 2, "A")), gx = (int)ai_split(ai_i32(-2, 2, "gx")), gy = (int)ai_split(ai_i32(-2, 2, "gy")), r = (int)ai_split(ai_i32(0, 2, "r")); C3 a = kA[i], b = Other(gx, gy, r); b.x /= 2; b.y /= 2; double dx = b.x - a.x, dy = b.y - a.y, d = __builtin_sqrt(dx * dx + dy * dy), s = a.r - b.r - d; if (__builtin_fabs(s) < .05) ai_stop(); ai_assert(Make(a).Contains(Make(b)) == (s > 0), "contains-exactly-circles-inside"); }
PROP(circle_contains_touching) { int k = (int)ai_split(ai_i32(0, 4, "case")); constexpr C3 p[][2] = {{{1, 2, 3}, {1, 2, 3}}, {{0, 0, 3}, {1, 0, 2}}, {{0, 0, 3}, {0, -3, 0}}, {{4, 5, 0}, {4, 5, 0}}, {{0, 0, 5}, {3, 4, 0}}}; ai_assert(Exact(p[k][0]).Contains(Exact(p[k][1])), "contains-circles-touching-from-inside"); }
PROP(circle_arc_angle) { float r = ai_f32_in(1e-3, 1e6, "r"), h = ai_f32_in(-1e6, 1e6, "h"); Angle a = Circle({0, 0}, r).GetArcAngleForChordHeight(h); double v = a.ValueInRadians(); ai_assert(v >= 0 && v <= kTwoPiF, "arc-angle-range"); }
PROP(circle_arc_angle_low) { float r = ai_f32_in(1e-3, 1e6, "r"), h = ai_f32_in(-1e6, 0, "h"); ai_assert(Circle({0, 0}, r).GetArcAngleForChordHeight(h).ValueInRadians() == 0, "no-height-no-arc"); }
PROP(circle_arc_angle_point) { float h = Fin("h"); ai_assert(Circle({0, 0}, 0).GetArcAngleForChordHeight(h).ValueInRadians() == 0, "no-radius-no-arc"); }
PROP(circle_arc_angle_value) { int k = (int)ai_split(ai_i32(1, 39, "height")); double r = 2, h = .05 * k * r; float rr = Box(r, "r"), hh = ai_f32_in(h - .001, h + .001, "h"); double v = Circle({1, 1}, rr).GetArcAngleForChordHeight(hh).ValueInRadians(); ai_near(v, 2 * __builtin_acos(1 - h / r), .03, "arc-angle-of-chord-height"); if (k >= 21) ai_assert(v > kPi, "high-chords-make-more-than-half-a-circle"); }
PROP(circle_arc) {
  C3 c = kA[ai_split(ai_i32(0, 1, "circle"))]; int k = (int)ai_split(ai_i32(0, 3, "chord")), m = (int)ai_split(ai_i32(-4, 4, "arc")), s = (int)ai_split(ai_i32(0, 2, "start")); constexpr double height[] = {.03, .11, .5, 1.7}; constexpr double start[] = {.4, -2.9, 7.1}; double h = height[k] * c.r, arc = m * 1.37, step = 2 * __builtin_acos(1 - height[k]), n = (arc < 0 ? -arc : arc) / step; int steps = (int)n; if (n - steps > .02) ++steps; else if (n - steps > 1e-3) ai_stop(); if (steps < 1) steps = 1; if (steps - n < .02 && n > 0) ai_stop();
  std::vector<Point> out = {{77, 78}}; Circle q = Make(c); q.AppendArcToPolyline(Angle::Radians(float(start[s])), Angle::Radians(float(arc)), float(h), out); ai_assert(out.size() == size_t(steps + 2), "fewest-points-within-the-chord-height"); if (out.size() != size_t(steps + 2)) ai_stop(); ai_assert(out[0].x == 77 && out[0].y == 78, "arc-is-appended"); for (int i = 0; i <= steps; ++i) { double a = start[s] + arc * i / steps; ai_near(out[i + 1].x, c.x + c.r * __builtin_cos(a), .02, "evenly-spaced-from-start-to-end"); ai_near(out[i + 1].y, c.y + c.r * __builtin_sin(a), .02, "evenly-spaced-from-start-to-end"); }
}
PROP(circle_arc_ends) { float x = ai_f32_in(-100, 100, "x"), y = ai_f32_in(-100, 100, "y"), r = ai_f32_in(.5, 100, "r"), s = ai_f32_in(-6, 6, "start"), a = ai_f32_in(-.01, .01, "arc"); std::vector<Point> out; Circle q({x, y}, r); q.AppendArcToPolyline(Angle::Radians(s), Angle::Radians(a), r, out); ai_assert(out.size() == 2, "at-least-two-points"); if (out.size() != 2) ai_stop(); ai_same(out[0].x, x + (double)r * std::cos(s), 1e-6, "first-point-at-the-start"); ai_same(out[0].y, y + (double)r * std::sin(s), 1e-6, "first-point-at-the-start"); ai_same(out[1].x, x + (double)r * std::cos(s + a), 1e-6, "last-point-at-the-end"); ai_same(out[1].y, y + (double)r * std::sin(s + a), 1e-6, "last-point-at-the-end"); }
PROP(circle_arc_point) { float x = Fin("x"), y = Fin("y"), s = Fin("start"), a = Fin("arc"), h = ai_f32_in(1e-30, kFMax, "h"); std::vector<Point> out; Circle({x, y}, 0).AppendArcToPolyline(Angle::Radians(s), Angle::Radians(a), h, out); ai_assert(out.size() == 2, "at-least-two-points"); if (out.size() != 2) ai_stop(); for (Point p : out) { ai_ident_f(p.x, x, "point-circle-gives-its-center"); ai_ident_f(p.y, y, "point-circle-gives-its-center"); } }
PROP(circle_arc_bad) { ai_opt("allow-check-failure"); float h = ai_f32_in(-kInf, 0, "h"); std::vector<Point> out; Circle().AppendArcToPolyline(Angle(), Angle::Radians(1), h, out); ai_assert(false, "never-a-chord-height-of-zero"); }
// chords far below the resolution of floats still make a line with both ends
PROP(circle_arc_fine) { float h = ai_f32_in(1e-44, 1e-9, "h"); std::vector<Point> out; Circle({0, 0}, 1).AppendArcToPolyline(Angle::Radians(1), Angle(), h, out); ai_assert(out.size() == 2, "at-least-two-points"); }
#ifdef AI_THOROUGH
PROP(circle_arc_cap) { ai_opt("many-visits"); std::vector<Point> out; Circle({0, 0}, 1).AppendArcToPolyline(Angle(), Angle::Radians(6), 1e-12f, out); ai_assert(out.size() <= 32768 && out.size() > 30000, "number-of-points-is-capped"); }
#endif
// ---- rounded polygons
namespace {
constexpr C3 kPoly[][5] = {{{-2, -1, .5}, {2, -1.4, .9}, {1.8, 1.6, .3}, {-1.7, 1.3, 0}}, {{-2, 0, 1}, {2.5, .4, .4}}, {{0, -2, 0}, {2, 1, 0}, {-2, 1.3, 0}}, {{-3, -2, .2}, {0, -3, .6}, {3, -1, .1}, {2, 2.2, .7}, {-2, 2, .4}}};
constexpr int kN[] = {4, 2, 3, 5};
double Support(const C3* p, int n, double a) { double m = -1e9, c = __builtin_cos(a), s = __builtin_sin(a); for (int i = 0; i < n; ++i) { double v = p[i].x * c + p[i].y * s + p[i].r; m = v > m ? v : m; } return m; }
// how far the circle stays inside the hull; negative when it pokes out
double Inside(const C3* p, int n, C3 q) { double m = 1e9; for (int k = 0; k < 360; ++k) { double a = k * kPi / 180, v = Support(p, n, a) - (q.x * __builtin_cos(a) + q.y * __builtin_sin(a) + q.r); m = v < m ? v : m; } return m; }
}
PROP(polygon_parts) {
  int k = (int)ai_split(ai_i32(0, 3, "polygon")), n = kN[k]; const C3* p = kPoly[k]; std::vector<Circle> v; for (int i = 0; i < n; ++i) v.push_back(Make(p[i])); RoundedPolygon g(absl::MakeConstSpan(v)); auto arcs = g.Arcs(); ai_assert(arcs.size() == (size_t)n, "one-arc-per-circle"); if (arcs.size() != (size_t)n) ai_stop();
  for (int i = 0; i < n; ++i) { const C3 &b = p[(i + n - 1) % n], &c = p[i], &d = p[(i + 1) % n]; double in = TangentsOf(b, c).right, out = TangentsOf(c, d).right; ai_ident_f(arcs[i].circle.Center().x, v[i].Center().x, "arc-of-its-circle"); ai_ident_f(arcs[i].circle.Center().y, v[i].Center().y, "arc-of-its-circle"); ai_ident_f(arcs[i].circle.Radius(), v[i].Radius(), "arc-of-its-circle"); ai_near(arcs[i].start_unit_vector.x, __builtin_cos(in), .02, "arc-starts-at-the-tangent-from-the-previous-circle"); ai_near(arcs[i].start_unit_vector.y, __builtin_sin(in), .02, "arc-starts-at-the-tangent-from-the-previous-circle"); ai_near(arcs[i].end_unit_vector.x, __builtin_cos(out), .02, "arc-ends-at-the-tangent-to-the-next-circle"); ai_near(arcs[i].end_unit_vector.y, __builtin_sin(out), .02, "arc-ends-at-the-tangent-to-the-next-circle"); Segment s = g.GetSegment(i); ai_near(s.start.x, c.x + c.r * __builtin_cos(out), .03, "segment-joins-consecutive-arcs"); ai_near(s.start.y, c.y + c.r * __builtin_sin(out), .03, "segment-joins-consecutive-arcs"); ai_near(s.end.x, d.x + d.r * __builtin_cos(out), .03, "segment-joins-consecutive-arcs"); ai_near(s.end.y, d.y + d.r * __builtin_sin(out), .03, "segment-joins-consecutive-arcs"); }
}
#ifdef AI_THOROUGH
constexpr int kG = 6;
#else
constexpr int kG = 3;
#endif
PROP(polygon_contains) { int k = (int)ai_split(ai_i32(0, 3, "polygon")), n = kN[k], gx = (int)ai_split(ai_i32(-kG, kG, "gx")), gy = (int)ai_split(ai_i32(-kG, kG, "gy")), r = (int)ai_split(ai_i32(0, 2, "r")); if ((gx + gy + r) & 1) ai_stop(); const C3* p = kPoly[k]; C3 q{gx * (3.4 / kG) + .03, gy * (2.8 / kG) + .05, kR[r]}; double in = Inside(p, n, q); if (__builtin_fabs(in) < .06) ai_stop(); std::vector<Circle> v; for (int i = 0; i < n; ++i) v.push_back(Exact(p[i])); RoundedPolygon g(absl::MakeConstSpan(v)); ai_assert(g.ContainsCircle(Make(q)) == (in > 0), "contains-exactly-circles-inside-the-hull"); }
PROP(polygon_bad) { ai_opt("allow-check-failure"); int k = (int)ai_split(ai_i32(0, 6, "case")); constexpr C3 a{0, 0, 1}, b{5, 0, 1}, c{5, 4, 1}, small{.2, .1, .3}; std::vector<Circle> v; switch (k) { case 0: break; case 1: v = {Exact(a)}; break; case 2: v = {Exact(a), Exact(small)}; break; case 3: v = {Exact(small), Exact(a)}; break; case 4: v = {Exact(a), Exact(b), Exact(c), Exact(small)}; break; case 5: v = {Exact(b), Exact(small), Exact(a)}; break; case 6: v = {Exact(small), Exact(b), Exact(a)}; break; } RoundedPolygon g(absl::MakeConstSpan(v)); ai_assert(false, "never-of-one-circle-or-of-circles-inside-their-neighbours"); }
