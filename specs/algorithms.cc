// Interpolation, mapping, barycentric and line-intersection helpers: their formulas, guards and special cases.
#include <optional>
#include "specs/common.h"
#include "ink/geometry/internal/algorithms.h"
#include "ink/geometry/mesh.h"
using namespace ink; namespace gi = ink::geometry_internal;
namespace {
constexpr double kB = 1e4;
float C(const char* n) { return ai_f32_in(-kB, kB, n); }
Point AnyPoint() { return {C("px"), C("py")}; }
Vec AnyVec() { return {C("vx"), C("vy")}; }
Segment AnySeg() { return {AnyPoint(), AnyPoint()}; }
double Det(double ax, double ay, double bx, double by) { return ax * by - ay * bx; }
}
PROP(alg_lerp) { float a = C("a"), b = C("b"), t = ai_f32_in(-10, 10, "t"); double T = t; ai_same(gi::Lerp(a, b, t), a + (b - (double)a) * T, 1e-6, "lerp-formula"); Vec v = AnyVec(), w = AnyVec(); Vec r = gi::Lerp(v, w, t); ai_same(r.x, v.x + (w.x - (double)v.x) * T, 1e-6, "lerp-formula"); ai_same(r.y, v.y + (w.y - (double)v.y) * T, 1e-6, "lerp-formula"); Point p = AnyPoint(), q = AnyPoint(); Point s = gi::Lerp(p, q, t); ai_same(s.x, p.x + (q.x - (double)p.x) * T, 1e-6, "lerp-formula"); ai_same(s.y, p.y + (q.y - (double)p.y) * T, 1e-6, "lerp-formula"); }
PROP(alg_lerp_angle) { float a = C("a"), b = C("b"), t = ai_f32_in(-10, 10, "t"); ai_same(gi::Lerp(Angle::Radians(a), Angle::Radians(b), t).ValueInRadians(), a + (b - (double)a) * t, 1e-6, "lerp-formula"); }
PROP(alg_lerp_color) { Color::RgbaFloat a{C("r"), C("g"), C("b"), C("a")}, b{C("r2"), C("g2"), C("b2"), C("a2")}; float t = ai_f32_in(-10, 10, "t"); Color::RgbaFloat c = gi::Lerp(a, b, t); auto L = [&](double x, double y) { return x + (y - x) * t; }; ai_same(c.r, L(a.r, b.r), 1e-6, "color-channels-independent"); ai_same(c.g, L(a.g, b.g), 1e-6, "color-channels-independent"); ai_same(c.b, L(a.b, b.b), 1e-6, "color-channels-independent"); ai_same(c.a, L(a.a, b.a), 1e-6, "color-channels-independent"); }
// the shorter way around, from any angle to any other, also beyond the ends
PROP(alg_angle_lerp_short_way) { int i = (int)ai_split(ai_i32(-6, 6, "a")), j = (int)ai_split(ai_i32(-6, 6, "b")); double a = i * 1.21, b = j * 1.33, d = b - a; while (d > kPiF) d -= kTwoPiF; while (d < -kPiF) d += kTwoPiF; for (int k = -2; k <= 6; ++k) { double t = k * .25, w = a + d * t, r = gi::NormalizedAngleLerp(Angle::Radians((float)a), Angle::Radians((float)b), (float)t).ValueInRadians(), e = w - r; while (e > kPiF) e -= kTwoPiF; while (e < -kPiF) e += kTwoPiF; ai_assert(e > -1e-4 && e < 1e-4, "angle-lerp-takes-the-shorter-way"); } }
PROP(alg_normalized_angle_lerp) { float a = ai_f32_in(-20, 20, "a"), b = ai_f32_in(-20, 20, "b"), t = ai_f32_in(0, 1, "t"); double r = gi::NormalizedAngleLerp(Angle::Radians(a), Angle::Radians(b), t).ValueInRadians(); ai_assert(ai_and(ai_fle(0, r), ai_flt(r, kTwoPiF)), "normalized-range"); }
PROP(alg_inverse_lerp) { float a = C("a"), b = C("b"), v = C("v"); float r = gi::InverseLerp(a, b, v); if (a == b) ai_assert(r == 0, "equal-ends-give-zero"); else ai_same(r, (v - (double)a) / (b - (double)a), 1e-6, "inverse-lerp-formula"); }
PROP(alg_linear_map) { float a = C("a"), b = C("b"), c = C("c"), d = C("d"), v = C("v"); float r = gi::LinearMap(v, {a, b}, {c, d}); if (a == b) ai_same(r, c, 1e-6, "equal-input-range-gives-first-output"); else ai_same(r, c + (d - (double)c) * (v - (double)a) / (b - (double)a), 1e-6, "linear-map-formula"); }
PROP(alg_linear_map_ends) { float c = ai_f32_in(-10, 10, "c"), d = ai_f32_in(-10, 10, "d"); ai_same(gi::LinearMap(2, {2, 4}, {c, d}), c, 1e-6, "ends-map-to-ends"); ai_same(gi::LinearMap(4, {2, 4}, {c, d}), d, 1e-6, "ends-map-to-ends"); }
// ---- barycentric coordinates: weights sum to one and reproduce the point; none for zero area ----
PROP(alg_barycentric) { Triangle t{AnyPoint(), AnyPoint(), AnyPoint()}; Point p = AnyPoint(); auto b = gi::GetBarycentricCoordinates(t, p); if (!b) return; double u = (*b)[0], v = (*b)[1], w = (*b)[2]; ai_same(u + v + w, 1, 1e-6, "weights-sum-to-one"); ai_same(u * t.p0.x + v * t.p1.x + w * t.p2.x, p.x, 1e-6, "weights-reproduce-point"); ai_same(u * t.p0.y + v * t.p1.y + w * t.p2.y, p.y, 1e-6, "weights-reproduce-point"); }
PROP(alg_barycentric_degenerate) { Point p{1.5f, 2.25f}, q{-3, 7.125f}; int k = (int)ai_split(ai_i32(0, 3, "which")); Triangle t = k == 0 ? Triangle{p, p, q} : k == 1 ? Triangle{p, q, p} : k == 2 ? Triangle{q, p, p} : Triangle{{0, 0}, {1, 2}, {2, 4}}; ai_assert(!gi::GetBarycentricCoordinates(t, AnyPoint()).has_value(), "absent-for-zero-area"); }
// clearly non-degenerate configurations always give a result
static float Nr(double c, const char* n) { return ai_f32_in(c - .2, c + .2, n); }
PROP(alg_present) { bool flip = ai_bool("flip"); Point a{Nr(0, "ax"), Nr(0, "ay")}, b{Nr(8, "bx"), Nr(0, "by")}, c{Nr(0, "cx"), Nr(8, "cy")}, p = AnyPoint(); if (flip) std::swap(a, b); ai_assert(gi::GetBarycentricCoordinates({a, b, c}, p).has_value(), "present-for-nonzero-area"); ai_assert(gi::VectorFromPointToSegmentProjection(p, {a, b}).has_value(), "present-for-real-segment"); ai_assert(gi::UniqueLineIntersectionRatio({a, b}, {a, c}).has_value(), "present-for-crossing-lines"); Segment d{{Nr(1, "dx"), Nr(-4, "dy")}, {Nr(4, "ex"), Nr(6, "ey")}}; ai_assert(gi::SegmentIntersectionRatio({a, b}, d).has_value(), "present-for-crossing-segments"); ai_assert(gi::SegmentIntersection({a, b}, d).has_value(), "present-for-crossing-segments"); }
// ---- spiral interpolation ----
PROP(alg_spiral_ends) { Vec a = AnyVec(), b = AnyVec(); bool first = ai_bool("first"); Vec r = gi::SpiralLerp(a, b, first ? 0 : 1); Vec e = first ? a : b; ai_ident_f(r.x, e.x, "spiral-ends-exact"); ai_ident_f(r.y, e.y, "spiral-ends-exact"); }
// direction and magnitude vary linearly, also beyond the ends; a negative magnitude reflects through the origin
PROP(alg_spiral_values) { int i = (int)ai_split(ai_i32(-3, 3, "direction")), j = (int)ai_split(ai_i32(-2, 2, "turn")); double p = i * .97, d = j * 1.31, m = 2, n = 3 + j; for (int k = -4; k <= 8; ++k) { double t = k * .5 - .25, r = m + (n - m) * t, q = p + d * t; Vec v = gi::SpiralLerp({float(m * std::cos(p)), float(m * std::sin(p))}, {float(n * std::cos(p + d)), float(n * std::sin(p + d))}, (float)t); ai_near(v.x, r * std::cos(q), .01, "spiral-turns-and-grows-linearly"); ai_near(v.y, r * std::sin(q), .01, "spiral-turns-and-grows-linearly"); } }
// ---- bounds of all vertex positions, in triangles or not ----
PROP(alg_mesh_envelope) { int n = (int)ai_split(ai_i32(0, 4, "vertices")); double at[8] = {.3, 7, -2, 5, 4, -6, 1, -8}; float c[8]; for (int i = 0; i < 8; ++i) c[i] = ai_f32_in(at[i] - .4, at[i] + .4, "c"); MutableMesh m; for (int i = 0; i < n; ++i) m.AppendVertex({c[2 * i], c[2 * i + 1]}); if (ai_bool("triangle") && n >= 3) m.AppendTriangleIndices({0, 1, 2}); Envelope e = gi::CalculateEnvelope(m); ai_assert(e.IsEmpty() == (n == 0), "empty-exactly-without-vertices"); if (n == 0) return; Rect r = *e.AsRect(); ai_ident_f(r.XMin(), c[n < 2 ? 0 : 2], "envelope-is-tight"); ai_ident_f(r.XMax(), c[n < 3 ? 0 : 4], "envelope-is-tight"); ai_ident_f(r.YMin(), c[n == 1 ? 1 : n == 2 ? 3 : n == 3 ? 5 : 7], "envelope-is-tight"); ai_ident_f(r.YMax(), c[1], "envelope-is-tight"); }
PROP(alg_spiral_inside) { float m = ai_f32_in(.1, 10, "m"), n = ai_f32_in(.1, 10, "n"), t = ai_f32_in(.01, .99, "t"); Vec r = gi::SpiralLerp(Vec{m, 0}, Vec{0, n}, t); double k = (1 - (double)t) * m + (double)t * n; ai_same((double)r.x * r.x + (double)r.y * r.y, k * k, 1e-4, "spiral-magnitude-interpolates"); }
// ---- vector from a point to a line ----
PROP(alg_projection_vector) { Point p = AnyPoint(); Segment s = AnySeg(); auto v = gi::VectorFromPointToSegmentProjection(p, s); double dx = s.end.x - (double)s.start.x, dy = s.end.y - (double)s.start.y; if (!v) return; ai_same(v->x * dx + v->y * dy, 0, 1e-6, "orthogonal-to-segment"); ai_same(Det(dx, dy, p.x + (double)v->x - s.start.x, p.y + (double)v->y - s.start.y), 0, 1e-6, "lands-on-the-line"); }
PROP(alg_projection_vector_degenerate) { Point p = AnyPoint(), q = AnyPoint(); ai_assert(!gi::VectorFromPointToSegmentProjection(p, {q, q}).has_value(), "absent-for-degenerate-segment"); }
// ---- line and segment intersection ratios ----
static void OnBoth(const Segment& a, const Segment& b, double t, double s, const char* id) { ai_same(a.start.x + t * ((double)a.end.x - a.start.x), b.start.x + s * ((double)b.end.x - b.start.x), 1e-6, id); ai_same(a.start.y + t * ((double)a.end.y - a.start.y), b.start.y + s * ((double)b.end.y - b.start.y), 1e-6, id); }
PROP(alg_line_ratio) { Segment a = AnySeg(), b = AnySeg(); auto r = gi::UniqueLineIntersectionRatio(a, b); if (!r) return; OnBoth(a, b, r->first, r->second, "same-point-on-both-lines"); }
PROP(alg_line_ratio_parallel) { Segment a = AnySeg(); float k = ai_f32_in(-8, 8, "k"); Vec v = a.Vector(); Point q{C("qx"), C("qy")}; (void)k; ai_assert(!gi::UniqueLineIntersectionRatio(a, {q, q}).has_value(), "absent-for-point-like-segment"); ai_assert(!gi::UniqueLineIntersectionRatio(a, a).has_value(), "absent-for-same-line"); (void)v; }
PROP(alg_segment_ratio) { Segment a = AnySeg(), b = AnySeg(); if (a == b) ai_stop(); double d = Vec::Determinant(a.Vector(), b.Vector()); if (d == 0) ai_stop(); auto r = gi::SegmentIntersectionRatio(a, b); if (!r) return; ai_assert(In(r->first, 0, 1), "ratios-inside-both-segments"); ai_assert(In(r->second, 0, 1), "ratios-inside-both-segments"); OnBoth(a, b, r->first, r->second, "same-point-on-both-segments"); auto p = gi::SegmentIntersection(a, b); ai_assert(p.has_value(), "point-present-exactly-with-ratio"); if (!p) return; ai_same(p->x, a.start.x + (double)r->first * ((double)a.end.x - a.start.x), 1e-6, "point-at-ratio"); ai_same(p->y, a.start.y + (double)r->first * ((double)a.end.y - a.start.y), 1e-6, "point-at-ratio"); }
// whenever both line ratios fall in [0,1] the segments are reported as crossing
PROP(alg_segment_ratio_complete) { Segment a = AnySeg(), b = AnySeg(); if (a == b) ai_stop(); auto l = gi::UniqueLineIntersectionRatio(a, b); if (!l) ai_stop(); if (!(0 <= l->first && l->first <= 1 && 0 <= l->second && l->second <= 1)) { ai_assert(!gi::SegmentIntersectionRatio(a, b).has_value(), "outside-means-no-crossing"); return; } auto r = gi::SegmentIntersectionRatio(a, b); ai_assert(r.has_value(), "inside-means-crossing"); if (r) { ai_same(r->first, l->first, 1e-6, "inside-means-crossing"); ai_same(r->second, l->second, 1e-6, "inside-means-crossing"); } }
PROP(alg_segment_same) { Segment a = AnySeg(); auto r = gi::SegmentIntersectionRatio(a, a); ai_assert(r.has_value() && r->first == 0 && r->second == 0, "equal-segments-meet-at-start"); }
// collinear overlaps on an axis, in every order and direction
PROP(alg_segment_collinear) { float e = ai_f32_in(-.01, .01, "e"); int k = (int)ai_split(ai_i32(0, 5, "case")); bool vert = ai_bool("vertical"); double q[6][6] = {{0, 4, 2, 6, .5, 0}, {0, 4, 6, 2, .5, .5}, {2, 6, 0, 4, 0, .5}, {0, 8, 2, 4, .25, 0}, {2, 4, 0, 8, 0, .25}, {4, 0, 2, 6, 0, 0}}; double* c = q[k]; float y = 3; Segment a{{(float)c[0], y}, {(float)c[1], y}}, b{{(float)c[2] + e, y}, {(float)c[3], y}}; if (vert) { a = {{y, a.start.x}, {y, a.end.x}}; b = {{y, b.start.x}, {y, b.end.x}}; } auto r = gi::SegmentIntersectionRatio(a, b); ai_assert(r.has_value(), "collinear-overlap-found"); if (!r) return; ai_near(r->first, c[4], .02, "collinear-overlap-ratio"); ai_near(r->second, c[5], .02, "collinear-overlap-ratio"); }
PROP(alg_segment_collinear_apart) { bool before = ai_bool("before"); float g = ai_f32_in(.01, 5, "gap"); Segment a{{0, 1}, {4, 1}}; Segment b = before ? Segment{{-g - 2, 1}, {-g, 1}} : Segment{{4 + g, 1}, {6 + g, 1}}; ai_assert(!gi::SegmentIntersectionRatio(a, b).has_value(), "collinear-apart-not-crossing"); Segment c{{0, 1 + g}, {4, 1 + g}}; ai_assert(!gi::SegmentIntersectionRatio(a, c).has_value(), "parallel-apart-not-crossing"); }
PROP(alg_segment_pointlike) { float u = ai_f32_in(.1, 3.9, "u"); Segment a{{0, 1}, {4, 1}}, p{{u, 1}, {u, 1}}; auto r = gi::SegmentIntersectionRatio(a, p); ai_assert(r.has_value(), "point-on-segment-found"); if (r) { ai_same(r->first, u / 4., 1e-6, "point-on-segment-ratio"); ai_assert(r->second == 0, "point-on-segment-ratio"); } auto s = gi::SegmentIntersectionRatio(p, a); ai_assert(s.has_value(), "point-on-segment-found"); if (s) { ai_same(s->second, u / 4., 1e-6, "point-on-segment-ratio"); ai_assert(s->first == 0, "point-on-segment-ratio"); } Segment o{{u, 2}, {u, 2}}; ai_assert(!gi::SegmentIntersectionRatio(a, o).has_value(), "point-off-segment-absent"); ai_assert(!gi::SegmentIntersectionRatio(o, a).has_value(), "point-off-segment-absent"); }
