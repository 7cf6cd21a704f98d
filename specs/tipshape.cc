// Brush tip shapes, how two of them are joined, and the outline points they contribute to a stroke.
#include <cmath>
#include <cstring>
#include <optional>
#include <vector>
#include "specs/common.h"
#include "absl/types/span.h"
#include "ink/geometry/angle.h"
#include "ink/geometry/internal/circle.h"
#include "ink/geometry/rect.h"
#include "ink/strokes/internal/brush_tip_extrusion.h"
#include "ink/strokes/internal/brush_tip_shape.h"
#include "ink/strokes/internal/brush_tip_state.h"
#include "ink/strokes/internal/circular_extrusion_helpers.h"
#include "ink/strokes/internal/constrain_brush_tip_extrusion.h"
#include "ink/strokes/internal/extrusion_points.h"
using namespace ink; using namespace ink::strokes_internal; using geometry_internal::Circle;
namespace {
constexpr double kPi = 3.14159265358979323846;
struct D2 { double x, y; };
struct C3 { double x, y, r; };
struct Shape { int n; C3 c[4]; D2 at; };          // circles counter-clockwise
struct Tip { double x, y, w, h, round, turn, slant, pinch; };
D2 Turn(D2 p, double a) { double c = __builtin_cos(a), s = __builtin_sin(a); return {p.x * c - p.y * s, p.x * s + p.y * c}; }
// the documented shape: a rounded rectangle, pinched at its lower side, slanted, then rotated
Shape ShapeOf(Tip t, double sep) {
  double hw = t.w / 2, hh = t.h / 2, m = hw < hh ? hw : hh, r = t.round * m; if (r < sep) r = 0; double x = hw - r, y = hh - r; if (2 * x < sep) x = 0; if (2 * y < sep) y = 0; Shape s{}; s.at = {t.x, t.y};
  auto put = [&](double px, double py) { D2 q = Turn({0, py}, t.slant); q.x += px; q = Turn(q, t.turn); s.c[s.n++] = {q.x + t.x, q.y + t.y, r}; };
  if (x == 0 && y == 0) { s.n = 1; s.c[0] = {t.x, t.y, r}; } else if (y == 0) { put(x, 0); put(-x, 0); } else if (x == 0) { put(0, y); put(0, -y); } else { double px = (1 - t.pinch) * x; put(x, y); put(-x, y); if (2 * px < sep) put(0, -y); else { put(-px, -y); put(px, -y); } } return s;
}
float gBox = .0005f;
float Box(double c, const char* n) { return gBox == 0 ? float(c) : ai_f32_in(c - gBox, c + gBox, n); }
BrushTipState State(Tip t) { BrushTipState s{}; s.position = {Box(t.x, "x"), Box(t.y, "y")}; s.width = t.w == 0 ? 0 : Box(t.w, "w"); s.height = t.h == 0 ? 0 : Box(t.h, "h"); s.percent_radius = float(t.round); s.rotation = Angle::Radians(float(t.turn)); s.slant = Angle::Radians(float(t.slant)); s.pinch = float(t.pinch); return s; }
constexpr double kSep = .01;
constexpr Tip kTips[] = {{0, 0, 2, 2, 1, 0, 0, 0}, {0, 0, 4, 2, .3, .7, 0, 0}, {0, 0, 3, 3, 0, -.4, .3, .5}, {0, 0, 3, 2, .25, 2.3, -.6, 1}, {0, 0, 4, 2, 1, 1.1, 0, 0}, {0, 0, 2, 5, 1, .2, .5, 0}, {0, 0, 3, 0, .5, .9, 0, 0}, {0, 0, 0, 0, .5, 0, 0, 0}, {0, 0, 5, 3, .6, -1.9, .2, .3}, {0, 0, .008, 2, .5, .3, 0, 0}};
constexpr int kNumTips = 10;
Tip At(int k, double x, double y, double scale = 1, double turn = 0) { Tip t = kTips[k]; t.x = x; t.y = y; t.w *= scale; t.h *= scale; t.turn += turn; return t; }
double Support(const Shape& s, double a) { double m = -1e9, c = __builtin_cos(a), v = __builtin_sin(a); for (int i = 0; i < s.n; ++i) { double w = s.c[i].x * c + s.c[i].y * v + s.c[i].r; m = w > m ? w : m; } return m; }
double Inside(const Shape& a, const Shape& b) { double m = 1e9; for (int k = 0; k < 180; ++k) { double t = k * kPi / 90, v = Support(a, t) - Support(b, t); m = v < m ? v : m; } return m; }
// distance of a point from the boundary of the hull, from outside or inside
double Off(const Shape& s, D2 p) { double m = 1e9; for (int k = 0; k < 360; ++k) { double t = k * kPi / 180, v = Support(s, t) - (p.x * __builtin_cos(t) + p.y * __builtin_sin(t)); m = v < m ? v : m; } return m < 0 ? -m : m; }
int Closest(const BrushTipShape& g, C3 c) { auto p = g.PerimeterCircles(); for (int i = 0; i < (int)p.size(); ++i) if (ai_and(In(p[i].Center().x, c.x - .02, c.x + .02), In(p[i].Center().y, c.y - .02, c.y + .02))) return i; return -1; }
}
PROP(shape_circles) {
  int k = (int)ai_split(ai_i32(0, kNumTips - 1, "tip")); Tip t = At(k, 1.5, -.7); Shape w = ShapeOf(t, kSep); BrushTipShape g(State(t), float(kSep)); auto p = g.PerimeterCircles(); ai_near(g.Center().x, t.x, .001, "center-is-the-position"); ai_near(g.Center().y, t.y, .001, "center-is-the-position"); ai_assert((int)p.size() == w.n, "number-of-circles"); if ((int)p.size() != w.n) ai_stop(); int at = Closest(g, w.c[0]); ai_assert(at >= 0, "circles-where-documented"); if (at < 0) ai_stop();
  for (int i = 0; i < w.n; ++i) { ai_near(p[at].Center().x, w.c[i].x, .01, "circles-where-documented"); ai_near(p[at].Center().y, w.c[i].y, .01, "circles-where-documented"); if (w.c[i].r == 0) ai_assert(p[at].Radius() == 0, "radius-as-documented"); else ai_near(p[at].Radius(), w.c[i].r, .01, "radius-as-documented"); int next = g.GetNextPerimeterIndexCcw(at); ai_assert(next >= 0 && next < w.n && g.GetNextPerimeterIndexCw(next) == at, "clockwise-undoes-counter-clockwise"); if (next < 0 || next >= w.n) ai_stop(); at = next; }
}
PROP(shape_bounds) { int k = (int)ai_split(ai_i32(0, kNumTips - 1, "tip")); Tip t = At(k, 1.5, -.7); Shape w = ShapeOf(t, kSep); Rect b = BrushTipShape(State(t), float(kSep)).Bounds(); ai_near(b.XMax(), Support(w, 0), .01, "bounds-of-all-circles"); ai_near(b.YMax(), Support(w, kPi / 2), .01, "bounds-of-all-circles"); ai_near(b.XMin(), -Support(w, kPi), .01, "bounds-of-all-circles"); ai_near(b.YMin(), -Support(w, 1.5 * kPi), .01, "bounds-of-all-circles"); }
PROP(shape_merging) {  // circles closer than the separation merge, radii below it vanish
  float sep = .5; int k = (int)ai_split(ai_i32(0, 7, "case")); constexpr Tip c[] = {{0, 0, .4, .4, 0, 0, 0, 0}, {0, 0, 2, 2, .4, 0, 0, 0}, {0, 0, 2, 2, .6, 0, 0, 0}, {0, 0, 2, .4, 0, 0, 0, 0}, {0, 0, .4, 2, 0, 0, 0, 0}, {0, 0, 2, 2, 0, 0, 0, .8}, {0, 0, 2, 2, 0, 0, 0, .7}, {0, 0, 2, 3, .8, 0, 0, 0}}; constexpr int n[] = {1, 4, 4, 2, 2, 3, 4, 2}; constexpr double r[] = {0, 0, .6, 0, 0, 0, 0, .8}; BrushTipShape g(State(c[k]), sep); auto p = g.PerimeterCircles(); ai_assert((int)p.size() == n[k], "close-circles-merge"); for (auto& q : p) if (r[k] == 0) ai_assert(q.Radius() == 0, "small-radii-vanish"); else ai_near(q.Radius(), r[k], .01, "radius-as-documented");
}
PROP(shape_bad) { ai_opt("allow-check-failure"); BrushTipState s = State(kTips[1]); float bad = ai_bool("nan") ? std::numeric_limits<float>::quiet_NaN() : ai_f32_in(-kInf, -1e-6, "bad"), high = ai_f32_in(1.0001, kInf, "bad"); switch ((int)ai_split(ai_i32(0, 5, "field"))) { case 0: s.width = bad; break; case 1: s.height = bad; break; case 2: s.percent_radius = bad; break; case 3: s.pinch = bad; break; case 4: s.percent_radius = high; break; case 5: s.pinch = high; break; } BrushTipShape g(s, .01f); ai_assert(false, "never-of-invalid-sizes"); }
// ---- containment
PROP(shape_contains) {
#ifdef AI_THOROUGH
  constexpr int kG = 2;
#else
  constexpr int kG = 1;
#endif
  int i = (int)ai_split(ai_i32(0, kNumTips - 2, "outer")), j = (int)ai_split(ai_i32(0, kNumTips - 1, "inner")), gx = (int)ai_split(ai_i32(-kG, kG, "gx")), gy = (int)ai_split(ai_i32(-kG, kG, "gy")), z = (int)ai_split(ai_i32(0, 1, "size")); if (kG == 1 && (gx + gy + i + j + z) & 1) ai_stop(); Tip a = At(i, 0, 0, 2), b = At(j, gx * 1.13 / kG, gy * .97 / kG, z ? 1.7 : .6); Shape p = ShapeOf(a, kSep), q = ShapeOf(b, kSep); double in = Inside(p, q); if (__builtin_fabs(in) < .05) ai_stop(); gBox = .0001f; BrushTipShape g(State(a), float(kSep)), h(State(b), float(kSep)); ai_assert(g.Contains(h) == (in > 0), "contains-exactly-shapes-inside");
}
PROP(shape_contains_itself) { int i = (int)ai_split(ai_i32(0, kNumTips - 1, "tip")), z = (int)ai_split(ai_i32(0, 2, "place")); gBox = 0; Tip a = At(i, z * 1.25, z * -2.5); BrushTipShape g(State(a), float(kSep)); ai_assert(g.Contains(g), "contains-itself"); }
// ---- joining two shapes
namespace {
int Top(const Shape& s, double a, bool* clear) { double c = __builtin_cos(a), v = __builtin_sin(a), m = -1e9, m2 = -1e9; int at = 0; for (int i = 0; i < s.n; ++i) { double w = s.c[i].x * c + s.c[i].y * v + s.c[i].r; if (w > m) { m2 = m; m = w; at = i; } else if (w > m2) m2 = w; } if (m - m2 < .02) *clear = false; return at; }
struct Bridge { double t; int a, b; };                      // outward direction of the tangent, and the circles it touches
struct Bridges { bool ok; Bridge left, right; };
// whether the hull, continued past circle a, turns back (the case of the known finding, see shape_tangents_front)
bool Front(const Shape& s, int a, double go, int step) { if (s.n == 1) return false; const C3 &c = s.c[a], &d = s.c[(a + s.n + step) % s.n]; double x = d.x - c.x, y = d.y - c.y, dot = x * __builtin_cos(go) + y * __builtin_sin(go), det = __builtin_cos(go) * y - __builtin_sin(go) * x; return dot < 0 && det * step < .001; }
Bridges BridgesOf(const Shape& p, const Shape& q) {
  Bridges r{}; r.ok = true; int up = 0, down = 0; double last = 0; for (int k = 0; k <= 360; ++k) { double a = k * kPi / 180 + .0031, d = Support(q, a) - Support(p, a); if (k > 0 && (d > 0) != (last > 0)) { double lo = a - kPi / 180, hi = a; for (int i = 0; i < 24; ++i) { double m = (lo + hi) / 2; if ((Support(q, m) - Support(p, m) > 0) == (d > 0)) hi = m; else lo = m; } Bridge b; b.t = lo; b.a = Top(p, lo, &r.ok); b.b = Top(q, lo, &r.ok); if (d > 0) { ++up; r.right = b; } else { ++down; r.left = b; } } last = d; } if (up != 1 || down != 1) r.ok = false; double go = __builtin_atan2(q.at.y - p.at.y, q.at.x - p.at.x); if (__builtin_cos(r.left.t - kPi / 2 - go) < .1 || __builtin_cos(r.right.t + kPi / 2 - go) < .1) r.ok = false; if (Front(p, r.left.a, go, -1) || Front(p, r.right.a, go, 1)) r.ok = false; return r;
}
bool SameCircle(const Circle& c, const C3& w) { return ai_and(In(c.Center().x, w.x - .02, w.x + .02), In(c.Center().y, w.y - .02, w.y + .02)); }
struct Pair { Tip a, b; };
Pair Two(bool apart) { int i = (int)ai_split(ai_i32(0, kNumTips - 1, "first")), j = (int)ai_split(ai_i32(0, kNumTips - 1, "second")), d = (int)ai_split(ai_i32(0, 3, "direction"));
#ifndef AI_THOROUGH
  if ((i + 3 * j + d) % 4) ai_stop();
#endif
  double l = apart ? 7 : 1.9, a = d * kPi / 2 + .35 * i + .2 * j; gBox = 1e-6f; return {At(i, .4, -.3), At(j, .4 + l * __builtin_cos(a), -.3 + l * __builtin_sin(a), apart ? .9 : .8)}; }
void Joined(bool apart) { Pair t = Two(apart); Shape p = ShapeOf(t.a, kSep), q = ShapeOf(t.b, kSep); Bridges r = BridgesOf(p, q); if (!r.ok) ai_stop(); for (int i = 0; i < q.n && !apart; ++i) { Shape one{1, {q.c[i]}, {}}; if (Inside(p, one) > -.02) ai_stop(); } BrushTipShape g(State(t.a), float(kSep)), h(State(t.b), float(kSep)); auto k = BrushTipShape::GetTangentCircleIndices(g, h); auto u = g.PerimeterCircles(), v = h.PerimeterCircles(); bool in = k.left.first >= 0 && k.left.first < p.n && k.right.first >= 0 && k.right.first < p.n && k.left.second >= 0 && k.left.second < q.n && k.right.second >= 0 && k.right.second < q.n; ai_assert(in, "indices-of-circles"); if (!in) ai_stop(); ai_assert(SameCircle(u[k.left.first], p.c[r.left.a]), "left-tangent-circles"); ai_assert(SameCircle(v[k.left.second], q.c[r.left.b]), "left-tangent-circles"); ai_assert(SameCircle(u[k.right.first], p.c[r.right.a]), "right-tangent-circles"); ai_assert(SameCircle(v[k.right.second], q.c[r.right.b]), "right-tangent-circles"); }
}
PROP(shape_tangents) { Joined(true); }
PROP(shape_tangents_overlapping) { Joined(false); }
PROP(shape_tangents_front) { gBox = 0; BrushTipShape g(State({0, 0, 6, 2, 1, 0, 0, 0}), float(kSep)), h(State({4, 0, 0, 0, 0, 0, 0, 0}), float(kSep)); auto k = BrushTipShape::GetTangentCircleIndices(g, h); ai_assert(k.left.first == 0 && k.right.first == 0, "tangents-of-a-pill-tapering-along-itself"); }
// ---- points on the outline
namespace {
double Det(double ax, double ay, double bx, double by) { return ax * by - ay * bx; }
bool OnHull(const Shape& s, Point p, double tol) { bool in = true, near = false; for (int k = 0; k < 120; ++k) { double t = k * kPi / 60, h = Support(s, t), w = p.x * __builtin_cos(t) + p.y * __builtin_sin(t); in = ai_and(in, ai_fle(w, h + tol)); near = ai_or(near, ai_fle(h - tol - .003, w)); } return ai_and(in, near); }
// every left point on the left of the line through the center, every right point on its right, all on the hull
void Sides(const Shape& s, const ExtrusionPoints& e, double fx, double fy) { for (Point p : e.left) { ai_assert(OnHull(s, p, .01), "points-on-the-hull"); ai_assert(ai_fle(-.01, Det(fx, fy, p.x - s.at.x, p.y - s.at.y)), "left-points-on-the-left"); } for (Point p : e.right) { ai_assert(OnHull(s, p, .01), "points-on-the-hull"); ai_assert(ai_fle(Det(fx, fy, p.x - s.at.x, p.y - s.at.y), .01), "right-points-on-the-right"); } }
double Area2(const std::vector<Point>& v) { double a = 0; for (size_t i = 0; i < v.size(); ++i) { Point p = v[i], q = v[(i + 1) % v.size()]; a += (double)p.x * q.y - (double)q.x * p.y; } return a; }
double HullArea2(const Shape& s) { double a = 0, px = 0, py = 0, x0 = 0, y0 = 0; for (int k = 0; k <= 240; ++k) { double t = k * kPi / 120 + .0017, c = __builtin_cos(t), v = __builtin_sin(t); bool clear; int i = Top(s, t, &clear); double x = s.c[i].x + s.c[i].r * c, y = s.c[i].y + s.c[i].r * v; if (k) a += px * y - x * py; else { x0 = x; y0 = y; } px = x; py = y; } return a + px * y0 - x0 * py; }
// the ring of points goes counter-clockwise and covers the hull up to the chord height
void Covers(const Shape& s, const std::vector<Point>& ring, double chord) { double a = Area2(ring), w = HullArea2(s), len = 0; for (int k = 0; k < 60; ++k) len += Support(s, k * kPi / 30) * kPi / 30; ai_assert(ai_fle(w - 2 * len * chord * 1.2 - .05, a) && ai_fle(a, w + .05), "ring-of-points-covers-the-shape"); }
constexpr double kChord[] = {.02, .15};
bool Reaches(const std::vector<Point>& v, double t, double least) { bool any = false; for (Point p : v) any = ai_or(any, ai_fle(least, p.x * __builtin_cos(t) + p.y * __builtin_sin(t))); return any; }
Pair Apart() { int i = (int)ai_split(ai_i32(0, kNumTips - 1, "first")), j = (int)ai_split(ai_i32(0, kNumTips - 1, "second")), d = (int)ai_split(ai_i32(0, 2, "direction"));
#ifndef AI_THOROUGH
  if ((i + 2 * j + d) % 4) ai_stop();
#endif
  double a = d * 2.1 + .35 * i + .2 * j; gBox = 0; return {At(i, .4, -.3), At(j, .4 + 7 * __builtin_cos(a), -.3 + 7 * __builtin_sin(a), .9)}; }
D2 On(const C3& c, double t) { return {c.x + c.r * __builtin_cos(t), c.y + c.r * __builtin_sin(t)}; }
void AtPoint(Point p, D2 w, double tol, const char* id) { ai_near(p.x, w.x, tol, id); ai_near(p.y, w.y, tol, id); }
}
PROP(shape_whole) {
  int i = (int)ai_split(ai_i32(0, kNumTips - 1, "tip")), d = (int)ai_split(ai_i32(0, 4, "forward")), c = (int)ai_split(ai_i32(0, 1, "chord")); gBox = 0; Tip t = At(i, .7, 1.2); Shape s = ShapeOf(t, kSep); double a = d * 1.3 + .21, fx = __builtin_cos(a), fy = __builtin_sin(a); ExtrusionPoints e; e.left = {{77, 78}}; e.right = {{87, 88}, {89, 90}};
  BrushTipShape::AppendWholeShapeExtrusionPoints(BrushTipShape(State(t), float(kSep)), float(kChord[c]), {float(fx), float(fy)}, e); ai_assert(e.left.size() >= 1 && e.right.size() >= 2 && e.left[0].x == 77 && e.right[0].x == 87 && e.right[1].y == 90, "points-are-appended"); e.left.erase(e.left.begin()); e.right.erase(e.right.begin(), e.right.begin() + 2); if (s.n == 1 && s.c[0].r == 0) ai_stop(); Sides(s, e, fx, fy);
  std::vector<Point> ring = e.right; for (size_t k = e.left.size(); k > 0; --k) ring.push_back(e.left[k - 1]); Covers(s, ring, kChord[c]);
}
PROP(shape_startcap) {
  Pair t = Apart(); Shape p = ShapeOf(t.a, kSep), q = ShapeOf(t.b, kSep); Bridges r = BridgesOf(p, q); if (!r.ok || (p.n > 1 && r.left.a == r.right.a)) ai_stop(); double fx = t.b.x - t.a.x, fy = t.b.y - t.a.y; ExtrusionPoints e; BrushTipShape::AppendStartcapExtrusionPoints(BrushTipShape(State(t.a), float(kSep)), BrushTipShape(State(t.b), float(kSep)), .02f, e); Sides(p, e, fx / 7, fy / 7); std::vector<Point> all = e.right; for (size_t k = e.left.size(); k > 0; --k) all.push_back(e.left[k - 1]); if (all.empty()) { ai_assert(false, "never-an-empty-cap"); ai_stop(); }
  // all outline points behind the two tangents, up to the chord height
  double hi = r.right.t; while (hi < r.left.t) hi += 2 * kPi; for (int k = 0; k <= 24; ++k) { double a = r.left.t + (hi - r.left.t) * k / 24; ai_assert(Reaches(all, a, Support(p, a) - .03), "cap-covers-the-back-of-the-first-shape"); }
  D2 l = On(p.c[r.left.a], r.left.t), g = On(p.c[r.right.a], r.right.t); if (Det(fx, fy, l.x - t.a.x, l.y - t.a.y) > .05 && !e.left.empty()) AtPoint(e.left.back(), l, .02, "left-points-end-at-the-tangent"); if (Det(fx, fy, g.x - t.a.x, g.y - t.a.y) < -.05 && !e.right.empty()) AtPoint(e.right.back(), g, .02, "right-points-end-at-the-tangent");
}
PROP(shape_endcap) {
  Pair t = Apart(); Shape p = ShapeOf(t.a, kSep), q = ShapeOf(t.b, kSep); Bridges r = BridgesOf(p, q); if (!r.ok || (q.n > 1 && r.left.b == r.right.b)) ai_stop(); double fx = t.b.x - t.a.x, fy = t.b.y - t.a.y; ExtrusionPoints e; e.left = {{77, 78}}; BrushTipShape::AppendEndcapExtrusionPoints(BrushTipShape(State(t.a), float(kSep)), BrushTipShape(State(t.b), float(kSep)), .02f, e); ai_assert(!e.left.empty() && e.left[0].x == 77, "points-are-appended"); e.left.erase(e.left.begin()); Sides(q, e, fx / 7, fy / 7); std::vector<Point> all = e.left; for (size_t k = e.right.size(); k > 0; --k) all.push_back(e.right[k - 1]); if (all.empty()) { ai_assert(false, "never-an-empty-cap"); ai_stop(); }
  double hi = r.left.t; while (hi < r.right.t) hi += 2 * kPi; for (int k = 0; k <= 24; ++k) { double a = r.right.t + (hi - r.right.t) * k / 24; ai_assert(Reaches(all, a, Support(q, a) - .03), "cap-covers-the-front-of-the-last-shape"); }
  AtPoint(all[0], On(q.c[r.left.b], r.left.t), .02, "cap-goes-from-tangent-to-tangent"); AtPoint(all.back(), On(q.c[r.right.b], r.right.t), .02, "cap-goes-from-tangent-to-tangent");
}
// the outline of the middle shape at a turn: the tangents' intersection on the inner side, the hull's arc on the outer side
namespace {
void Side(const std::vector<Point>& v, const Shape& s, Bridge in, Bridge out, bool left, double turn) {
  double d = out.t - in.t; while (d > kPi) d -= 2 * kPi; while (d < -kPi) d += 2 * kPi; bool inner = left ? d > .02 : d < -.02, outer = left ? d < -.02 : d > .02; if (v.empty()) { ai_assert(false, "never-a-turn-without-points"); return; }
  D2 a = On(s.c[in.b], in.t), b = On(s.c[out.a], out.t);
  if (inner) { double c0 = __builtin_cos(in.t), s0 = __builtin_sin(in.t), c1 = __builtin_cos(out.t), s1 = __builtin_sin(out.t), h0 = a.x * c0 + a.y * s0, h1 = b.x * c1 + b.y * s1, w = c0 * s1 - s0 * c1; D2 x{(h0 * s1 - h1 * s0) / w, (c0 * h1 - c1 * h0) / w}; double far = __builtin_hypot(x.x - s.at.x, x.y - s.at.y); if (far > 4.5 || (turn < 0 ? -turn : turn) > 1.9) return; ai_assert(v.size() == 1, "inner-side-is-one-point"); AtPoint(v[0], x, .02, "inner-side-is-where-the-tangents-meet"); }
  if (outer) { for (Point p : v) ai_assert(OnHull(s, p, .01), "outer-side-follows-the-hull"); AtPoint(v[0], a, .02, "outer-side-goes-from-tangent-to-tangent"); AtPoint(v.back(), b, .02, "outer-side-goes-from-tangent-to-tangent"); for (int k = 0; k <= 8; ++k) { double t = in.t + d * k / 8; ai_assert(Reaches(v, t, Support(s, t) - .03), "outer-side-covers-the-turn"); } }
}
}
PROP(shape_turn) {
  int i = (int)ai_split(ai_i32(0, kNumTips - 1, "tip")), j = (int)ai_split(ai_i32(0, kNumTips - 1, "middle")), d = (int)ai_split(ai_i32(0, 1, "direction")), n = (int)ai_split(ai_i32(-3, 3, "turn")), z = (int)ai_split(ai_i32(0, 1, "start"));
#ifndef AI_THOROUGH
  if ((i + 2 * j + d + n + 3 + z) % 16) ai_stop();
#endif
  gBox = 0; double a = d * 2.1 + .3 * i + .23 * j, b = a + n * .55 + .1; Tip m = At(j, .3, .2), p = At(z ? i : j, .3 - 8 * __builtin_cos(a), .2 - 8 * __builtin_sin(a), .9), q = At(i, .3 + 8 * __builtin_cos(b), .2 + 8 * __builtin_sin(b), .8); Shape sp = ShapeOf(p, kSep), sm = ShapeOf(m, kSep), sq = ShapeOf(q, kSep); Bridges in = BridgesOf(sp, sm), out = BridgesOf(sm, sq); if (!in.ok || !out.ok) ai_stop(); ExtrusionPoints e; BrushTipShape::AppendTurnExtrusionPoints(BrushTipShape(State(p), float(kSep)), BrushTipShape(State(m), float(kSep)), BrushTipShape(State(q), float(kSep)), .02f, e); Side(e.left, sm, in.left, out.left, true, n * .55 + .1); Side(e.right, sm, in.right, out.right, false, n * .55 + .1);
}
// ---- single circles
PROP(circular_turn) {
  int i = (int)ai_split(ai_i32(0, 3, "start")), j = (int)ai_split(ai_i32(0, 3, "middle")), l = (int)ai_split(ai_i32(0, 3, "end")), n = (int)ai_split(ai_i32(-3, 3, "turn")); constexpr double r[] = {0, .5, 1, 1.6}; double a = .4 * i - 1.1 * j + .7 * l, b = a + n * .62 + .07; Shape p{1, {{.3 - 6 * __builtin_cos(a), .2 - 6 * __builtin_sin(a), r[i]}}, {}}, m{1, {{.3, .2, r[j]}}, {.3, .2}}, q{1, {{.3 + 6 * __builtin_cos(b), .2 + 6 * __builtin_sin(b), r[l]}}, {}}; p.at = {p.c[0].x, p.c[0].y}; q.at = {q.c[0].x, q.c[0].y}; Bridges in = BridgesOf(p, m), out = BridgesOf(m, q); if (!in.ok || !out.ok || (j == 0 && n * .62 > 1.6)) ai_stop();
  auto make = [](const C3& c) { return Circle({float(c.x), float(c.y)}, float(c.r)); }; std::vector<Point> left = {{77, 78}}, right = {{79, 80}}; int mode = (int)ai_split(ai_i32(0, 2, "mode"));
#ifndef AI_THOROUGH
  if ((i + j + l + n + 3 + mode) % 4) ai_stop();
#endif
  AppendCircularTurnExtrusionPoints(make(p.c[0]), make(m.c[0]), make(q.c[0]), .02f, AddCircularTangentIntersections::kYes, mode == 1 ? nullptr : &left, mode == 2 ? nullptr : &right); ai_assert(left[0].x == 77 && right[0].x == 79 && (mode == 1) == (left.size() == 1) && (mode == 2) == (right.size() == 1), "points-only-where-asked-for"); left.erase(left.begin()); right.erase(right.begin()); if (mode != 1) Side(left, m, in.left, out.left, true, n * .62 + .07); if (mode != 2) Side(right, m, in.right, out.right, false, n * .62 + .07);
}
PROP(circular_arcs_only) {  // without intersections both sides are arcs: clockwise on the left, counter-clockwise on the right
  int j = (int)ai_split(ai_i32(1, 3, "middle")), n = (int)ai_split(ai_i32(-3, 3, "turn")); constexpr double r[] = {0, .5, 1, 1.6}; double a = .4, b = a + n * .62 + .07, h = .02; Circle p({float(-6 * __builtin_cos(a)), float(-6 * __builtin_sin(a))}, float(r[j])), m({0, 0}, float(r[j])), q({float(6 * __builtin_cos(b)), float(6 * __builtin_sin(b))}, float(r[j])); std::vector<Point> left, right; AppendCircularTurnExtrusionPoints(p, m, q, float(h), AddCircularTangentIntersections::kNo, &left, &right);
  double turn = b - a, la = turn > 0 ? turn - 2 * kPi : turn, ra = turn < 0 ? turn + 2 * kPi : turn, step = 2 * __builtin_acos(1 - h / r[j]); auto arc = [&](const std::vector<Point>& v, double from, double by, const char* id) { int k = (int)((by < 0 ? -by : by) / step) + 1; ai_assert(v.size() == size_t(k + 1), id); if (v.size() != size_t(k + 1)) return; for (int i = 0; i <= k; ++i) AtPoint(v[i], {r[j] * __builtin_cos(from + by * i / k), r[j] * __builtin_sin(from + by * i / k)}, .01, id); }; arc(left, a + kPi / 2, la, "left-arc-goes-clockwise"); arc(right, a - kPi / 2, ra, "right-arc-goes-counter-clockwise");
}
// ---- interpolated and constrained shapes
PROP(lerp_shape) {
  BrushTipState a{}, b{}; auto any = [](BrushTipState& s) { s.position = {ai_f32_in(-100, 100, "x"), ai_f32_in(-100, 100, "y")}; s.width = ai_f32_in(0, 100, "w"); s.height = ai_f32_in(0, 100, "h"); s.percent_radius = ai_f32_in(0, 1, "r"); s.slant = Angle::Radians(ai_f32_in(-1.57, 1.57, "slant")); s.pinch = ai_f32_in(0, 1, "pinch"); s.hue_offset_in_full_turns = ai_f32_in(0, 1, "hue"); s.saturation_multiplier = ai_f32_in(0, 2, "sat"); s.luminosity_shift = ai_f32_in(-1, 1, "lum"); s.opacity_multiplier = ai_f32_in(0, 2, "opacity"); }; any(a); any(b); a.rotation = Angle::Radians(.5); b.rotation = Angle::Radians(.5); float t = ai_f32_in(-1, 2, "t"); BrushTipState s = BrushTipState::LerpShapeAttributes(a, b, t); auto mix = [&](float u, float v) { return (double)u + (double)t * ((double)v - (double)u); };
  ai_same(s.width, mix(a.width, b.width), 1e-5, "sizes-interpolated"); ai_same(s.height, mix(a.height, b.height), 1e-5, "sizes-interpolated"); ai_same(s.percent_radius, mix(a.percent_radius, b.percent_radius), 1e-5, "sizes-interpolated"); ai_same(s.slant.ValueInRadians(), mix(a.slant.ValueInRadians(), b.slant.ValueInRadians()), 1e-5, "sizes-interpolated"); ai_same(s.pinch, mix(a.pinch, b.pinch), 1e-5, "sizes-interpolated");
  ai_ident_f(s.position.x, b.position.x, "rest-from-the-second"); ai_ident_f(s.position.y, b.position.y, "rest-from-the-second"); ai_ident_f(s.hue_offset_in_full_turns, b.hue_offset_in_full_turns, "rest-from-the-second"); ai_ident_f(s.saturation_multiplier, b.saturation_multiplier, "rest-from-the-second"); ai_ident_f(s.luminosity_shift, b.luminosity_shift, "rest-from-the-second"); ai_ident_f(s.opacity_multiplier, b.opacity_multiplier, "rest-from-the-second");
}
PROP(lerp_rotation) {  // the shorter way around, in [0, 2pi)
  int i = (int)ai_split(ai_i32(-5, 5, "a")), j = (int)ai_split(ai_i32(-5, 5, "b")), k = (int)ai_split(ai_i32(0, 4, "t")); double a = i * 1.21, b = j * 1.33, t = k * .25, d = b - a; while (d > kPi) d -= 2 * kPi; while (d < -kPi) d += 2 * kPi; double w = a + d * t; while (w < 0) w += 2 * kPi; while (w >= 2 * kPi) w -= 2 * kPi; if (w < .01 || w > 2 * kPi - .01) ai_stop(); BrushTipState p = State(kTips[1]), q = p; p.rotation = Angle::Radians(float(a)); q.rotation = Angle::Radians(float(b)); ai_near(BrushTipState::LerpShapeAttributes(p, q, float(t)).rotation.ValueInRadians(), w, .001, "rotation-takes-the-shorter-way");
}
PROP(extrusion_basics) { ai_assert(BrushTipExtrusion().IsBreakPoint() && BrushTipExtrusion(BrushTipExtrusion::BreakPoint()).IsBreakPoint(), "break-points"); BrushTipState s = State(kTips[1]); BrushTipExtrusion e(s, .01f); ai_assert(!e.IsBreakPoint(), "not-a-break-point"); ai_ident_f(e.GetState().width, s.width, "keeps-the-state"); ai_ident_f(e.GetState().position.x, s.position.x, "keeps-the-state"); BrushTipShape g(s, .01f); auto p = e.GetShape().PerimeterCircles(), q = g.PerimeterCircles(); ai_assert(p.size() == q.size(), "shape-of-the-state"); if (p.size() != q.size()) ai_stop(); for (size_t i = 0; i < p.size(); ++i) { ai_ident_f(p[i].Radius(), q[i].Radius(), "shape-of-the-state"); ai_ident_f(p[i].Center().x, q[i].Center().x, "shape-of-the-state"); ai_ident_f(p[i].Center().y, q[i].Center().y, "shape-of-the-state"); } }
namespace {
using Quality = BrushTipExtrusion::TangentQuality; using Result = ConstrainedBrushTipExtrusion::ResultType;
// hull of the circles the two tangents cut off: whether it covers both shapes (1), clearly not (-1), or is too close to tell (0)
int Covered(const Shape& p, const Shape& q, const Bridges& r) { (void)r; Shape first{}, second{}; double worst = 1e9; auto take = [](const Shape& s, int from, int to, Shape& o) { for (int i = from;; i = (i + 1) % s.n) { o.c[o.n++] = s.c[i]; if (i == to) return; } }; take(p, r.left.a, r.right.a, first); take(q, r.right.b, r.left.b, second); for (int k = 0; k < 180; ++k) { double t = k * kPi / 90, h = Support(first, t), g = Support(second, t); if (g > h) h = g; double v = h - Support(p, t); worst = v < worst ? v : worst; v = h - Support(q, t); worst = v < worst ? v : worst; } return worst > -1e-9 ? 1 : worst < -.02 ? -1 : 0; }
}
PROP(quality) {
  int i = (int)ai_split(ai_i32(0, kNumTips - 1, "first")), j = (int)ai_split(ai_i32(0, kNumTips - 1, "second")), d = (int)ai_split(ai_i32(0, 2, "direction")), z = (int)ai_split(ai_i32(0, 2, "distance"));
#ifndef AI_THOROUGH
  if ((i + 2 * j + d + z) % 3) ai_stop();
#endif
  gBox = 0; double a = d * 2.1 + .35 * i + .2 * j, l = z == 0 ? .3 : z == 1 ? 2.1 : 8; Tip ta = At(i, .4, -.3), tb = At(j, .4 + l * __builtin_cos(a), -.3 + l * __builtin_sin(a), i == j ? 1 : z == 0 ? 1.6 : .8); Shape p = ShapeOf(ta, kSep), q = ShapeOf(tb, kSep); auto got = BrushTipExtrusion::EvaluateTangentQuality(BrushTipExtrusion(State(ta), float(kSep)), BrushTipExtrusion(State(tb), float(kSep)), .01f); double in = Inside(p, q), out = Inside(q, p); if (i == j) { ai_assert(got == Quality::kGoodTangents, "same-shape-moved-is-good"); ai_stop(); } if (__builtin_fabs(in) < .03 || __builtin_fabs(out) < .03) ai_stop();
  if (in > 0) { ai_assert(got == Quality::kNoTangentsFirstContainsSecond, "first-contains-second"); ai_stop(); } if (out > 0) { ai_assert(got == Quality::kNoTangentsSecondContainsFirst, "second-contains-first"); ai_stop(); } ai_assert(got == Quality::kGoodTangents || got == Quality::kBadTangentsJoinedShapeDoesNotCoverInputShapes, "tangents-when-neither-contains-the-other"); if (p.n == 1 && q.n == 1) ai_assert(got == Quality::kGoodTangents, "two-circles-are-good"); Bridges r = BridgesOf(p, q); if (!r.ok) ai_stop(); int c = Covered(p, q, r); if (c > 0 && z == 2) ai_assert(got == Quality::kGoodTangents, "good-when-the-joined-shape-covers-both"); if (c < 0) ai_assert(got == Quality::kBadTangentsJoinedShapeDoesNotCoverInputShapes, "bad-when-the-joined-shape-misses-a-part");
}
// whatever the two shapes, evaluating them never aborts
PROP(quality_overlapping) {
  int i = (int)ai_split(ai_i32(0, kNumTips - 1, "first")), j = (int)ai_split(ai_i32(0, kNumTips - 1, "second")), d = (int)ai_split(ai_i32(0, 4, "direction")), z = (int)ai_split(ai_i32(0, 2, "size"));
#ifndef AI_THOROUGH
  if ((i + 2 * j + d + z) % 3) ai_stop();
#endif
  gBox = 0; double a = d * 1.3 + .35 * i + .2 * j; Tip ta = At(i, .4, -.3), tb = At(j, .4 + .3 * __builtin_cos(a), -.3 + .3 * __builtin_sin(a), z == 0 ? .7 : z == 1 ? 1.2 : 1.6); BrushTipExtrusion e(State(ta), float(kSep)), f(State(tb), float(kSep)); auto q = BrushTipExtrusion::EvaluateTangentQuality(e, f, .01f); auto r = ConstrainBrushTipExtrusion(e, f, float(kSep), 2); ai_assert((q == Quality::kGoodTangents) == (r.result_type == Result::kProposedExtrusionIsValid) || i == j, "good-shapes-are-used-as-they-are"); ai_reach("reach-evaluated");
}
PROP(constrain_simple) {  // the first shape contains the second, the second the first, or the second is usable as it is
  int k = (int)ai_split(ai_i32(0, 2, "case")), i = (int)ai_split(ai_i32(0, kNumTips - 3, "tip")); gBox = 0; Tip a = At(i, 0, 0), b = k == 2 ? At(i, 9, 4) : At(i, .05, .05, .5); if (k < 2 && Inside(ShapeOf(a, kSep), ShapeOf(b, kSep)) < .05) ai_stop(); BrushTipExtrusion e(State(a), float(kSep)), f(State(b), float(kSep)); auto r = k == 1 ? ConstrainBrushTipExtrusion(f, e, float(kSep), 5) : ConstrainBrushTipExtrusion(e, f, float(kSep), 5); ai_assert(r.result_type == (k == 0 ? Result::kLastExtrusionContainsProposedExtrusion : k == 1 ? Result::kProposedExtrusionContainsLastExtrusion : Result::kProposedExtrusionIsValid), "kind-of-result"); ai_assert(r.lerp_amount == -1 && r.extrusion.IsBreakPoint(), "no-intermediate-shape");
}
PROP(constrain_found) {  // a shape in between whose tangents are good, within the promised distance of the switch
  int k = (int)ai_split(ai_i32(0, 5, "case")), n = (int)ai_split(ai_i32(1, 6, "iterations")); constexpr Tip c[][2] = {{{0, 0, 6, .4, 0, 0, 0, 0}, {.5, .2, 6, .4, 0, 1.4, 0, 0}}, {{0, 0, 5, 2, .2, .3, 0, 0}, {.3, .4, 2, 5, .2, .3, 0, 0}}, {{0, 0, 3, 3, .2, 0, 0, 0}, {.4, 0, 3, 3, .2, .785, 0, 0}}, {{0, 0, 6, .5, 1, .2, 0, 0}, {.2, .4, 6, .5, 1, -1.2, 0, 0}}, {{0, 0, 3, 2, .25, 2.3, -.6, 1}, {.1491, .2602, 3.2, 3.2, 1, 0, 0, 0}}, {{0, 0, 4, 1, 0, 0, 0, 0}, {.6, .1, 4, 1, 0, 2.4, 0, 0}}}; gBox = 0; BrushTipState sa = State(c[k][0]), sb = State(c[k][1]); BrushTipExtrusion a(sa, float(kSep)), b(sb, float(kSep)); auto good = [&](double t) { return BrushTipExtrusion::EvaluateTangentQuality(a, BrushTipExtrusion(BrushTipState::LerpShapeAttributes(sa, sb, float(t)), float(kSep)), .1f * float(kSep)) == Quality::kGoodTangents; }; if (!good(0)) ai_stop(); auto r = ConstrainBrushTipExtrusion(a, b, float(kSep), n); ai_assert(r.result_type == Result::kConstrainedExtrusionFound, "shape-in-between-found"); if (r.result_type != Result::kConstrainedExtrusionFound) ai_stop();
  double w = 1; for (int i = 0; i < n; ++i) w /= 2; double t = r.lerp_amount; ai_assert(t >= 0 && t < 1, "amount-between-the-two"); ai_assert(good(t), "tangents-to-the-result-are-good"); ai_assert(!good(t + w) || t + w >= 1, "amount-within-half-to-the-number-of-iterations"); BrushTipState want = BrushTipState::LerpShapeAttributes(sa, sb, float(t)), got = r.extrusion.GetState(); ai_assert(got.width == want.width && got.height == want.height && got.percent_radius == want.percent_radius && got.rotation == want.rotation && got.slant == want.slant && got.pinch == want.pinch && got.position == sb.position, "result-is-the-interpolated-shape-at-the-new-place"); BrushTipShape g(want, float(kSep)); auto p = r.extrusion.GetShape().PerimeterCircles(), q = g.PerimeterCircles(); ai_assert(p.size() == q.size() && p[0].Center() == q[0].Center() && p[0].Radius() == q[0].Radius(), "result-uses-the-same-separation");
}
PROP(constrain_still) { int i = (int)ai_split(ai_i32(0, 2, "case")); constexpr Tip c[][2] = {{{0, 0, 6, .4, 0, 0, 0, 0}, {.0005, 0, 6, .4, 0, 1.4, 0, 0}}, {{0, 0, 5, 2, .2, .3, 0, 0}, {0, .0005, 2, 5, .2, .3, 0, 0}}, {{1, 2, 6, .5, 1, .2, 0, 0}, {1, 2, 6, .5, 1, -1.2, 0, 0}}}; gBox = 0; auto r = ConstrainBrushTipExtrusion(BrushTipExtrusion(State(c[i][0]), float(kSep)), BrushTipExtrusion(State(c[i][1]), float(kSep)), float(kSep), 4); ai_assert(r.result_type == Result::kCannotFindValidIntermediateExtrusion && r.lerp_amount == -1, "nothing-in-between-for-a-tip-that-stays"); }
