#include <optional>
#include "ink/geometry/angle.h"
#include "ink/geometry/point.h"
#include "ink/geometry/segment.h"
#include "ink/geometry/triangle.h"
#include "ink/geometry/vec.h"
#include "specs/common.h"
using namespace ink;
static Vec V(const char* a, const char* b) { float x = Fin(a), y = Fin(b); return Vec{x, y}; }
static Point P(const char* a, const char* b) { float x = Fin(a), y = Fin(b); return Point{x, y}; }
static void SameV(Vec v, double x, double y, const char* id) { ai_same(v.x, x, 1e-6, id); ai_same(v.y, y, 1e-6, id); }
static void SameP(Point v, double x, double y, const char* id) { ai_same(v.x, x, 1e-6, id); ai_same(v.y, y, 1e-6, id); }
static void IdV(Vec a, Vec b, const char* id) { ai_ident_f(a.x, b.x, id); ai_ident_f(a.y, b.y, id); }
PROP(vec_arith) {
  Vec a = V("ax", "ay"), b = V("bx", "by"); float k = Fin("k");
  SameV(a + b, (double)a.x + b.x, (double)a.y + b.y, "sum"); SameV(a - b, (double)a.x - b.x, (double)a.y - b.y, "difference"); SameV(-a, -(double)a.x, -(double)a.y, "negation");
  SameV(k * a, (double)k * a.x, (double)k * a.y, "scale-left"); SameV(a * k, (double)k * a.x, (double)k * a.y, "scale-right");
  if (k != 0) { SameV(a / k, (double)a.x / k, (double)a.y / k, "divide"); Vec e = a; e /= k; SameV(e, (double)a.x / k, (double)a.y / k, "divide-assign"); }
  Vec c = a; c += b; SameV(c, (double)a.x + b.x, (double)a.y + b.y, "plus-assign"); c = a; c -= b; SameV(c, (double)a.x - b.x, (double)a.y - b.y, "minus-assign"); c = a; c *= k; SameV(c, (double)k * a.x, (double)k * a.y, "times-assign");
}
PROP(vec_functions) {
  Vec a = V("ax", "ay"), b = V("bx", "by"); float k = Fin("k"), t = Fin("t");
  ai_same(Vec::DotProduct(a, b), (double)a.x * b.x + (double)a.y * b.y, 1e-6, "dot-product");
  ai_same(Vec::Determinant(a, b), (double)a.x * b.y - (double)a.y * b.x, 1e-6, "determinant");
  ai_same((double)a.Magnitude() * a.Magnitude(), (double)a.x * a.x + (double)a.y * a.y, 1e-6, "magnitude"); ai_assert(ai_fle(0, a.Magnitude()), "magnitude-not-negative");
  ai_same(a.MagnitudeSquared(), (double)a.x * a.x + (double)a.y * a.y, 1e-6, "magnitude-squared");
  SameV(a.Orthogonal(), -(double)a.y, a.x, "orthogonal-is-positive-quarter-turn");
  ai_ident_f(a.Direction().ValueInRadians(), std::atan2(a.y, a.x), "direction");
  Vec d = Vec::FromDirectionAndMagnitude(Angle::Radians(t), k); ai_same(d.x, (double)k * std::cos(t), 1e-6, "from-direction"); ai_same(d.y, (double)k * std::sin(t), 1e-6, "from-direction");
}
static float Pick(int c, const char* n) { return c == 0 ? ai_f32_in(-kFMax, -1.4e-45, n) : c == 1 ? 0.f : c == 2 ? ai_f32_in(1.4e-45, kFMax, n) : c == 3 ? -kInf : kInf; }
// Every non-NaN vector: result is finite, parallel to the input, and of length one.
PROP(vec_unit) {
  ai_opt("fork-minmax");
  { int k = (int)ai_split(ai_i32(0, 24, "case")), i = k / 5, j = k % 5;
    Vec v{Pick(i, "x"), Pick(j, "y")}; Vec u = v.AsUnitVec();
    ai_assert(ai_and(ai_finite(u.x), ai_finite(u.y)), "unit-finite");
    if (i < 3 && j < 3 && !(i == 1 && j == 1)) {
      ai_same((double)u.x * u.x + (double)u.y * u.y, 1.0, 1e-6, "unit-length");
      ai_same((double)u.x * v.y - (double)u.y * v.x, 0.0, 1e-6, "unit-parallel");
    } else { ai_same((double)u.x * u.x + (double)u.y * u.y, 1.0, 1e-6, "unit-length-special"); }
    if (i == 0 || i == 3) ai_assert(ai_fle(u.x, 0), "unit-sign-x"); if (i == 2 || i == 4) ai_assert(ai_fle(0, u.x), "unit-sign-x");
    if (j == 0 || j == 3) ai_assert(ai_fle(u.y, 0), "unit-sign-y"); if (j == 2 || j == 4) ai_assert(ai_fle(0, u.y), "unit-sign-y");
  }
}
PROP(vec_angles) {
  ai_opt("fork-minmax");
  Vec a{ai_f32_in(1.4e-45, kFMax, "ax"), Fin("ay")}, b{ai_f32_in(-kFMax, -1.4e-45, "bx"), Fin("by")};
  float u = Vec::AbsoluteAngleBetween(a, b).ValueInRadians(), s = Vec::SignedAngleBetween(a, b).ValueInRadians();
  ai_assert(In(u, 0, kPiF), "absolute-angle-range"); ai_assert(In(s, -kPiF, kPiF), "signed-angle-range");
  ai_assert(ai_or(ai_feq(std::abs(s), u), ai_feq(s, u)), "signed-angle-magnitude");
  ai_assert(ai_flt(-kPiF, s), "signed-angle-half-turn-is-positive");
}
PROP(vec_equality) {
  Vec a = V("ax", "ay"), b = V("bx", "by"); bool same = ai_and(ai_feq(a.x, b.x), ai_feq(a.y, b.y)); IFF(same, a == b, "vec-equal"); IFF(same, !(a != b), "vec-not-equal"); if (a == b) SameHash(a, b, "vec-hash");
}
PROP(point_equality) {
  Point p = P("px", "py"), q = P("qx", "qy"); bool ps = ai_and(ai_feq(p.x, q.x), ai_feq(p.y, q.y)); IFF(ps, p == q, "point-equal"); IFF(ps, !(p != q), "point-not-equal"); if (p == q) SameHash(p, q, "point-hash");
}
PROP(point_arith) {
  Point p = P("px", "py"), q = P("qx", "qy"); Vec v = V("vx", "vy");
  SameV(p - q, (double)p.x - q.x, (double)p.y - q.y, "point-difference"); SameP(p + v, (double)p.x + v.x, (double)p.y + v.y, "point-plus-vec"); SameP(v + p, (double)p.x + v.x, (double)p.y + v.y, "vec-plus-point"); SameP(p - v, (double)p.x - v.x, (double)p.y - v.y, "point-minus-vec");
  Point r = p; r += v; SameP(r, (double)p.x + v.x, (double)p.y + v.y, "point-plus-assign"); r = p; r -= v; SameP(r, (double)p.x - v.x, (double)p.y - v.y, "point-minus-assign");
  SameV(p.Offset(), p.x, p.y, "point-offset");
}
PROP(segment_ops) {
  Segment s{P("ax", "ay"), P("bx", "by")}; float t = Fin("t"); Point p = P("px", "py");
  SameV(s.Vector(), (double)s.end.x - s.start.x, (double)s.end.y - s.start.y, "segment-vector");
  ai_ident_f(s.Length(), s.Vector().Magnitude(), "segment-length");
  SameP(s.Midpoint(), 0.5 * s.start.x + 0.5 * s.end.x, 0.5 * s.start.y + 0.5 * s.end.y, "midpoint");
  SameP(s.Lerp(t), (1.0 - t) * s.start.x + (double)t * s.end.x, (1.0 - t) * s.start.y + (double)t * s.end.y, "segment-lerp");
  SameP(s.Lerp(0), s.start.x, s.start.y, "segment-lerp-start"); SameP(s.Lerp(1), s.end.x, s.end.y, "segment-lerp-end");
  std::optional<float> r = s.Project(p); double dx = (double)s.end.x - s.start.x, dy = (double)s.end.y - s.start.y;
  if (s.start == s.end) ai_assert(!r.has_value(), "project-degenerate");
  else if (r.has_value()) { ai_reach("reach-projection");  ai_same(*r, ((double)p.x - s.start.x) * dx / (dx * dx + dy * dy) + ((double)p.y - s.start.y) * dy / (dx * dx + dy * dy), 1e-6, "project-formula"); }
}
PROP(segment_project_never_nan) { auto m = [](const char* n) { return ai_f32_in(-1e6, 1e6, n); }; float ax = m("ax"), ay = m("ay"), bx = m("bx"), by = m("by"), px = m("px"), py = m("py"); Segment s{{ax, ay}, {bx, by}}; std::optional<float> r = s.Project(Point{px, py}); if (r.has_value()) ai_assert(ai_not(ai_isnan(*r)), "project-not-nan"); }
PROP(segment_project_defined) {  // a projection exists for every segment whose squared length is representable
  float a = ai_f32_in(-1e6, 1e6, "ax"), b = ai_f32_in(-1e6, 1e6, "ay"); float d = ai_f32_in(1e-12, 1e6, "d"); Segment s{Point{0, b}, Point{d, a}}; ai_assert(s.Project(P("px", "py")).has_value(), "project-defined");
}
PROP(segment_equality) {
  Segment s{P("ax", "ay"), P("bx", "by")}, t{P("cx", "cy"), P("dx", "dy")};
  bool same = ai_and(ai_and(ai_feq(s.start.x, t.start.x), ai_feq(s.start.y, t.start.y)), ai_and(ai_feq(s.end.x, t.end.x), ai_feq(s.end.y, t.end.y)));
  IFF(same, s == t, "segment-equal"); IFF(same, !(s != t), "segment-not-equal");
}
PROP(triangle_ops) {
  Triangle t{P("ax", "ay"), P("bx", "by"), P("cx", "cy")};
  ai_same(t.SignedArea(), 0.5 * ((double)(t.p1.x) - t.p0.x) * ((double)t.p2.y - t.p1.y) - 0.5 * ((double)(t.p1.y) - t.p0.y) * ((double)t.p2.x - t.p1.x), 1e-6, "signed-area");
  Point q[3] = {t.p0, t.p1, t.p2};
  for (int i = 0; i < 3; ++i) { Segment e = t.GetEdge(i); SameP(e.start, q[i].x, q[i].y, "edge-start"); SameP(e.end, q[(i + 1) % 3].x, q[(i + 1) % 3].y, "edge-end"); }
}
PROP(triangle_equality) {
  Triangle t{P("ax", "ay"), P("bx", "by"), P("cx", "cy")}, u{P("dx", "dy"), P("ex", "ey"), P("fx", "fy")};
  bool same = ai_and(ai_and(ai_feq(t.p0.x, u.p0.x), ai_feq(t.p0.y, u.p0.y)), ai_and(ai_and(ai_feq(t.p1.x, u.p1.x), ai_feq(t.p1.y, u.p1.y)), ai_and(ai_feq(t.p2.x, u.p2.x), ai_feq(t.p2.y, u.p2.y))));
  IFF(same, t == u, "triangle-equal"); IFF(same, !(t != u), "triangle-not-equal");
}
// A triangle contains each of its corners; orientation does not matter.
PROP(triangle_contains_corners) {
  Triangle t{P("ax", "ay"), P("bx", "by"), P("cx", "cy")};
  // outside a half plane of one edge while inside the others' -> not contained; decided through the three signed determinants
  Point p = P("px", "py"); 
  auto det = [](Point a, Point b, Point c) { return Vec::Determinant(a - b, c - b); };
  float d0 = det(p, t.p0, t.p1), d1 = det(p, t.p1, t.p2), d2 = det(p, t.p2, t.p0);
  if (ai_or(ai_or(ai_isnan(d0), ai_isnan(d1)), ai_isnan(d2))) return;
  bool pos = ai_and(ai_and(ai_flt(1e-9, d0), ai_flt(1e-9, d1)), ai_flt(1e-9, d2)), neg = ai_and(ai_and(ai_flt(d0, -1e-9), ai_flt(d1, -1e-9)), ai_flt(d2, -1e-9));
  bool mixed = ai_or(ai_and(ai_flt(1e-9, d0), ai_or(ai_flt(d1, -1e-9), ai_flt(d2, -1e-9))), ai_and(ai_flt(d0, -1e-9), ai_or(ai_flt(1e-9, d1), ai_flt(1e-9, d2))));
  if (ai_or(pos, neg)) { ai_reach("reach-inside"); ai_assert(t.Contains(p), "inside-is-contained"); }
  else if (mixed) { ai_reach("reach-outside"); ai_assert(!t.Contains(p), "outside-is-not-contained"); }
}
