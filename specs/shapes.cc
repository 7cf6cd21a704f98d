// Intersection tests and distances of every pair of shape kinds against an independent oracle.
// A catalog of shapes of each kind is placed on a grid; every coordinate then moves freely within a small box,
// and placements the oracle calls too close to touching to call are left out.
#include "specs/common.h"
#include "specs/oracle.h"
#include "ink/geometry/distance.h"
#include "ink/geometry/intersects.h"
using namespace ink;
namespace {
enum Kind { kPoint, kSegment, kTriangle, kRect, kQuad };
// catalog: constants, three of each kind
struct Shape { Kind k; double c[6]; };
const Shape kCat[5][3] = {
  {{kPoint, {.3, .2}}, {kPoint, {-.4, .7}}, {kPoint, {1.1, -.6}}},
  {{kSegment, {-1.6, -.7, 1.5, .9}}, {kSegment, {.2, 1.9, -.5, -1.8}}, {kSegment, {2.1, -.3, -1.9, .4}}},
  {{kTriangle, {-1.7, -1.2, 1.9, -.8, .3, 1.6}}, {kTriangle, {-1.5, 1.1, .1, -1.7, 1.6, 1.4}}, {kTriangle, {-2.3, -.2, 2.2, -.9, 2.4, 1.2}}},
  {{kRect, {-1.5, -1.1, 1.4, 1.2}}, {kRect, {-.6, -2.1, .8, 1.9}}, {kRect, {-2.2, -.5, 2.3, .6}}},
  {{kQuad, {.1, -.1, 3, 2.4, .55, .3}}, {kQuad, {-.2, .1, 4.2, 1.3, 2.2, -.25}}, {kQuad, {0, .2, 2.4, -2.6, .9, 0}}},
};
Poly PolyOf(const Shape& s, double dx, double dy) {
  Poly p{};
  switch (s.k) {
    case kPoint: p = {1, {{s.c[0], s.c[1]}}}; break;
    case kSegment: p = {2, {{s.c[0], s.c[1]}, {s.c[2], s.c[3]}}}; break;
    case kTriangle: p = {3, {{s.c[0], s.c[1]}, {s.c[2], s.c[3]}, {s.c[4], s.c[5]}}}; break;
    case kRect: p = {4, {{s.c[0], s.c[1]}, {s.c[2], s.c[1]}, {s.c[2], s.c[3]}, {s.c[0], s.c[3]}}}; break;
    case kQuad: { double co = std::cos(s.c[4]), si = std::sin(s.c[4]), w = s.c[2] / 2, h = s.c[3] / 2, sh = s.c[5]; P2 u{w * co, w * si}, v{h * (sh * co - si), h * (sh * si + co)}; p = {4, {{s.c[0] - u.x - v.x, s.c[1] - u.y - v.y}, {s.c[0] + u.x - v.x, s.c[1] + u.y - v.y}, {s.c[0] + u.x + v.x, s.c[1] + u.y + v.y}, {s.c[0] - u.x + v.x, s.c[1] - u.y + v.y}}}; break; }
  }
  for (int i = 0; i < p.n; ++i) { p.v[i].x += dx; p.v[i].y += dy; }
  return p;
}
double gEps, gScale = 1;   // coordinates times gScale; with gEps 0 they are constants
float Near(double v, const char* n) { return gEps == 0 ? float(v * gScale) : ai_f32_in(v - gEps, v + gEps, n); }
template <int K> auto Make(const Shape& s, double dx, double dy) {
  const double* c = s.c;
  if constexpr (K == kPoint) return Point{Near(c[0] + dx, "x"), Near(c[1] + dy, "y")};
  else if constexpr (K == kSegment) return Segment{{Near(c[0] + dx, "x0"), Near(c[1] + dy, "y0")}, {Near(c[2] + dx, "x1"), Near(c[3] + dy, "y1")}};
  else if constexpr (K == kTriangle) return Triangle{{Near(c[0] + dx, "x0"), Near(c[1] + dy, "y0")}, {Near(c[2] + dx, "x1"), Near(c[3] + dy, "y1")}, {Near(c[4] + dx, "x2"), Near(c[5] + dy, "y2")}};
  else if constexpr (K == kRect) return Rect::FromTwoPoints({Near(c[0] + dx, "x0"), Near(c[1] + dy, "y0")}, {Near(c[2] + dx, "x1"), Near(c[3] + dy, "y1")});
  else return Quad::FromCenterDimensionsRotationAndShear({Near(c[0] + dx, "cx"), Near(c[1] + dy, "cy")}, Near(c[2], "w"), Near(c[3], "h"), Angle::Radians(float(c[4])), float(c[5]));
}
#ifdef AI_THOROUGH
constexpr int kG = 4; constexpr double kStep = 1.05;
#else
constexpr int kG = 2; constexpr double kStep = 1.9;
#endif
// one shape A of the catalog against every B of its kind on the grid; `both` also asks with the arguments exchanged
template <int KA, int KB, bool distance> void Pair(int i) {
  constexpr double eps = distance ? .0005 : .002, margin = .15;
  int j = (int)ai_split(ai_i32(0, 2, "B")), gx = (int)ai_split(ai_i32(-kG, kG, "gx")), gy = (int)ai_split(ai_i32(-kG, kG, "gy"));
  if (KA == KB ? j == i : distance && KA >= kTriangle && j != (i + gx + gy + 9) % 3) ai_stop();
  double dx = gx * kStep + .137 * gy + .043, dy = gy * kStep + .0571 * gx + .029;
  const Shape &sa = kCat[KA][i], &sb = kCat[KB][j];
  Poly pa = PolyOf(sa, 0, 0), pb = PolyOf(sb, dx, dy);
  double depth = Depth(pa, pb), gap = 0; bool meet;
  if (KA == kPoint && KB == kPoint) { gap = Len(Sub(pa.v[0], pb.v[0])); meet = false; if (gap < margin) ai_stop(); }
  else if (depth > margin) meet = true; else { gap = Gap(pa, pb); meet = false; if (depth > 0 || gap < margin) ai_stop(); }
  gEps = eps; auto a = Make<KA>(sa, 0, 0); auto b = Make<KB>(sb, dx, dy);
  bool swap = (KA != KB || distance) && (gx + gy) % 2;
  if constexpr (KA >= kPoint && KB >= kTriangle || KA == kSegment) if (meet) {
    if constexpr (!distance) { ai_assert(Intersects(a, b), "overlapping-shapes-intersect"); ai_assert(Intersects(b, a), "overlapping-shapes-intersect"); }
    else ai_assert((swap ? Distance(b, a) : Distance(a, b)) == 0, "distance-zero-when-intersecting");
    return;
  }
  if constexpr (!distance) { ai_assert(!Intersects(a, b), "separated-shapes-do-not-intersect"); ai_assert(!Intersects(b, a), "separated-shapes-do-not-intersect"); }
  else { float d = swap ? Distance(b, a) : Distance(a, b); double tol = .08; ai_assert(ai_and(In(d, gap - tol, gap + tol), ai_flt(0, d)), "distance-is-smallest-separation"); }
}
}
#define ONE(A, B, i) PROP(shapes_intersect_##A##_##B##_##i) { Pair<k##A, k##B, false>(i); } PROP(shapes_distance_##A##_##B##_##i) { Pair<k##A, k##B, true>(i); }
#define PAIR(A, B) ONE(A, B, 0) ONE(A, B, 1) ONE(A, B, 2)
PAIR(Point, Point) PAIR(Point, Segment) PAIR(Point, Triangle) PAIR(Point, Rect) PAIR(Point, Quad)
PAIR(Segment, Segment) PAIR(Segment, Triangle) PAIR(Segment, Rect) PAIR(Segment, Quad)
PAIR(Triangle, Triangle) PAIR(Triangle, Rect) PAIR(Triangle, Quad) PAIR(Rect, Rect) PAIR(Rect, Quad) PAIR(Quad, Quad)
// the same placements, with touching or nearly touching ones left out, of shapes many orders of magnitude smaller or larger
template <int KA, int KB> void Scaled(bool big) {
  int i = (int)ai_split(ai_i32(0, 2, "A")), j = (i + 1) % 3;
  gEps = 0; gScale = big ? 0x1p28 : 0x1p-42;
  for (int gx = -1; gx <= 1; ++gx) for (int gy = -1; gy <= 1; ++gy) {
    double dx = gx * 1.9 + .137 * gy + .043, dy = gy * 1.9 + .0571 * gx + .029;
    const Shape &sa = kCat[KA][i], &sb = kCat[KB][j]; Poly pa = PolyOf(sa, 0, 0), pb = PolyOf(sb, dx, dy);
    double depth = Depth(pa, pb), gap = 0; bool meet = depth > .05;
    if (!meet) { gap = KA == kPoint && KB == kPoint ? Len(Sub(pa.v[0], pb.v[0])) : Gap(pa, pb); if (depth > 0 || gap < .05) continue; }
    auto a = Make<KA>(sa, 0, 0); auto b = Make<KB>(sb, dx, dy);
    ai_assert(Intersects(a, b) == meet && Intersects(b, a) == meet, "shapes-intersect-at-any-scale");
    double d = Distance(a, b) / gScale; ai_assert(meet ? d == 0 : In(d, gap - 1e-3, gap + 1e-3), "distance-at-any-scale");
  }
}
#define SCALED(A, B) PROP(scaled_##A##_##B) { Scaled<k##A, k##B>(ai_bool("big")); }
SCALED(Point, Segment) SCALED(Point, Triangle) SCALED(Point, Rect) SCALED(Point, Quad) SCALED(Segment, Segment) SCALED(Segment, Triangle) SCALED(Segment, Rect) SCALED(Segment, Quad) SCALED(Triangle, Triangle) SCALED(Triangle, Rect) SCALED(Triangle, Quad) SCALED(Rect, Rect) SCALED(Rect, Quad) SCALED(Quad, Quad)
// ---- exact statements for any floats ----
namespace { double Sq(double x) { return x; } float F(const char* n) { return ai_f32_in(-1e6, 1e6, n); } Rect AnyRect() { return Rect::FromTwoPoints({F("x0"), F("y0")}, {F("x1"), F("y1")}); } }
PROP(exact_points) { Point p{F("x"), F("y")}, q{F("u"), F("v")}; bool same = ai_and(ai_feq(p.x, q.x), ai_feq(p.y, q.y)); IFF(Intersects(p, q), same, "points-intersect-when-equal"); ai_assert(Intersects(p, p), "points-intersect-when-equal"); double d = Distance(p, q); ai_same(d * d, (((double)p.x - q.x) * ((double)p.x - q.x) + ((double)p.y - q.y) * ((double)p.y - q.y)), 1e-6, "point-distance-formula"); ai_assert(Distance(p, p) == 0, "points-intersect-when-equal"); }
PROP(exact_rects) { Rect a = AnyRect(), b = AnyRect(); bool want = ai_and(ai_and(ai_fle(a.XMin(), b.XMax()), ai_fle(b.XMin(), a.XMax())), ai_and(ai_fle(a.YMin(), b.YMax()), ai_fle(b.YMin(), a.YMax()))); IFF(Intersects(a, b), want, "rects-intersect-when-closed-ranges-overlap"); }
PROP(exact_point_rect) { Rect a = AnyRect(); Point p{F("x"), F("y")}; bool want = ai_and(In(p.x, a.XMin(), a.XMax()), In(p.y, a.YMin(), a.YMax())); IFF(Intersects(p, a), want, "point-in-rect-closed"); IFF(Intersects(a, p), want, "point-in-rect-closed"); }
PROP(exact_self) { Point p{F("x"), F("y")}, q{F("u"), F("v")}; Segment s{p, q}; ai_assert(Intersects(p, s) && Intersects(s, p) && Intersects(q, s), "endpoints-on-segment"); ai_assert(Distance(p, s) == 0, "endpoints-on-segment"); }
// segments sharing an endpoint, meeting in a T, or overlapping along a line; touching counts
PROP(exact_segments_touch) { float u = ai_f32_in(-4, 4, "u"), w = ai_f32_in(.5, 9, "w"); bool flip = ai_bool("flip"), vert = ai_bool("vertical"), swap = ai_bool("swap"); int k = (int)ai_split(ai_i32(0, 3, "case")); Segment a{{-4, 2}, {4, 2}}, b = k == 0 ? Segment{{u, 2}, {u, 2 + w}} : k == 1 ? Segment{{4, 2}, {4 + w, 2}} : k == 2 ? Segment{{u, 2}, {6, 2}} : Segment{{-6, 2}, {6, 2}}; if (flip) std::swap(b.start, b.end); if (vert) { for (Segment* s : {&a, &b}) *s = {{s->start.y, s->start.x}, {s->end.y, s->end.x}}; } if (swap) std::swap(a, b); ai_assert(Intersects(a, b), "touching-segments-intersect"); ai_assert(Distance(a, b) == 0, "touching-segments-intersect"); }
PROP(exact_segments_apart) { double g0 = .05 + .75 * (int)ai_split(ai_i32(0, 11, "base")); float g = ai_f32_in(g0 - .01, g0 + .01, "g"); bool flip = ai_bool("flip"), vert = ai_bool("vertical"), swap = ai_bool("swap"); int k = (int)ai_split(ai_i32(0, 3, "case")); Segment a{{-4, 2}, {4, 2}}, b = k == 0 ? Segment{{4 + g, 2}, {14, 2}} : k == 1 ? Segment{{-4, 2 + g}, {4, 2 + g}} : k == 2 ? Segment{{1, 2 + g}, {1, 14}} : Segment{{-4 - g, 2}, {-14, 2}}; if (flip) std::swap(b.start, b.end); if (vert) { for (Segment* s : {&a, &b}) *s = {{s->start.y, s->start.x}, {s->end.y, s->end.x}}; } if (swap) std::swap(a, b); ai_assert(!Intersects(a, b), "apart-segments-do-not-intersect"); float d = Distance(a, b); if (k == 1 || k == 2) ai_same(d * (double)d, g * (double)g, 1e-4, "apart-segments-distance"); else ai_assert(In(d, g0 - .05, g0 + .05), "apart-segments-distance"); }
// ---- shapes collapsed to a point or a segment act as that point or segment ----
template <class S> static void ActsAsPoint(const S& s, Point p) {
  Segment g{{p.x - 3, p.y + 2}, {p.x + 5, p.y + 2}}; Triangle t{{p.x - 3, p.y - 2}, {p.x + 4, p.y - 2}, {p.x, p.y + 5}}, off{{p.x + 2, p.y - 3}, {p.x + 2, p.y + 3}, {p.x + 6, p.y}}; Rect r = Rect::FromTwoPoints({p.x - 1, p.y - 1}, {p.x + 1, p.y + 1}), roff = Rect::FromTwoPoints({p.x + 3, p.y - 1}, {p.x + 4, p.y + 1}); Quad q = Quad::FromRect(r), qoff = Quad::FromRect(roff);
  ai_assert(Intersects(s, p) && Intersects(p, s), "point-like-shape-acts-as-point"); ai_assert(!Intersects(s, g) && !Intersects(g, s), "point-like-shape-acts-as-point"); ai_assert(Intersects(s, t) && Intersects(t, s), "point-like-shape-acts-as-point"); ai_assert(!Intersects(s, off) && !Intersects(off, s), "point-like-shape-acts-as-point"); ai_assert(Intersects(s, r) && Intersects(r, s) && Intersects(s, q) && Intersects(q, s), "point-like-shape-acts-as-point"); ai_assert(!Intersects(s, roff) && !Intersects(roff, s) && !Intersects(s, qoff) && !Intersects(qoff, s), "point-like-shape-acts-as-point");
  ai_near(Distance(s, g), 2, 1e-3, "point-like-shape-distance"); ai_near(Distance(g, s), 2, 1e-3, "point-like-shape-distance"); ai_near(Distance(s, off), 2, 1e-3, "point-like-shape-distance"); ai_near(Distance(off, s), 2, 1e-3, "point-like-shape-distance"); ai_near(Distance(s, roff), 3, 1e-3, "point-like-shape-distance"); ai_near(Distance(roff, s), 3, 1e-3, "point-like-shape-distance"); ai_near(Distance(s, qoff), 3, 1e-3, "point-like-shape-distance"); ai_near(Distance(qoff, s), 3, 1e-3, "point-like-shape-distance"); ai_assert(Distance(s, t) == 0 && Distance(s, r) == 0 && Distance(s, q) == 0, "point-like-shape-distance");
}
PROP(pointlike_segment) { Point p{1, 2}; ActsAsPoint(Segment{p, p}, p); }
PROP(pointlike_triangle) { Point p{1, 2}; ActsAsPoint(Triangle{p, p, p}, p); }
PROP(pointlike_rect) { Point p{1, 2}; ActsAsPoint(Rect::FromTwoPoints(p, p), p); }
PROP(pointlike_quad) { Point p{1, 2}; ActsAsPoint(Quad::FromCenterAndDimensions(p, 0, 0), p); }
