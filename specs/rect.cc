// Rectangles and envelopes: every operation keeps min <= max, and computes the documented bounds.
#include <array>
#include <optional>
#include "specs/common.h"
#include "ink/geometry/rect.h"
#include "ink/geometry/envelope.h"
#include "ink/geometry/quad.h"
using namespace ink;
static Point P(const char* a, const char* b) { float x = Fin(a), y = Fin(b); return Point{x, y}; }
static Rect AnyRect(const char* n) { Rect r = Rect::FromTwoPoints({0, 0}, {0, 0}); ai_havoc(&r, sizeof r); ai_assume(In(r.XMin(), -kFMax, kFMax)); ai_assume(In(r.XMax(), -kFMax, kFMax)); ai_assume(In(r.YMin(), -kFMax, kFMax)); ai_assume(In(r.YMax(), -kFMax, kFMax)); ai_assume(r.XMin() <= r.XMax()); ai_assume(r.YMin() <= r.YMax()); return r; }
static void Ordered(const Rect& r) { ai_assert(ai_fle(r.XMin(), r.XMax()), "x-ordered"); ai_assert(ai_fle(r.YMin(), r.YMax()), "y-ordered"); }
static void Is(const Rect& r, double x0, double y0, double x1, double y1, const char* id) { ai_same(r.XMin(), x0, 1e-5, id); ai_same(r.YMin(), y0, 1e-5, id); ai_same(r.XMax(), x1, 1e-5, id); ai_same(r.YMax(), y1, 1e-5, id); }
// the bound `got` is the smaller (larger) of the two contributions
static void Lo(float got, float a, float b, const char* id) { ai_assert(ai_and(ai_and(ai_fle(got, a), ai_fle(got, b)), ai_or(ai_feq(got, a), ai_feq(got, b))), id); }
static void Hi(float got, float a, float b, const char* id) { ai_assert(ai_and(ai_and(ai_fle(a, got), ai_fle(b, got)), ai_or(ai_feq(got, a), ai_feq(got, b))), id); }

PROP(rect_from_center) { Point c = P("cx", "cy"); float w = ai_f32_in(0, kFMax, "w"), h = ai_f32_in(0, kFMax, "h"); Rect r = Rect::FromCenterAndDimensions(c, w, h);
  Ordered(r); Is(r, (double)c.x - 0.5 * w, (double)c.y - 0.5 * h, (double)c.x + 0.5 * w, (double)c.y + 0.5 * h, "from-center"); }
PROP(rect_from_two_points) { ai_opt("fork-minmax"); Point a = P("ax", "ay"), b = P("bx", "by"); Rect r = Rect::FromTwoPoints(a, b); Ordered(r);
  Lo(r.XMin(), a.x, b.x, "two-points-x-min"); Lo(r.YMin(), a.y, b.y, "two-points-y-min"); Hi(r.XMax(), a.x, b.x, "two-points-x-max"); Hi(r.YMax(), a.y, b.y, "two-points-y-max"); }
PROP(rect_accessors) { Rect r = AnyRect("r"); double x0 = r.XMin(), x1 = r.XMax(), y0 = r.YMin(), y1 = r.YMax();
  ai_same(r.Width(), x1 - x0, 1e-6, "width"); ai_same(r.Height(), y1 - y0, 1e-6, "height"); ai_same(r.SemiWidth(), 0.5 * x1 - 0.5 * x0, 1e-6, "semi-width"); ai_same(r.SemiHeight(), 0.5 * y1 - 0.5 * y0, 1e-6, "semi-height");
  ai_assert(ai_and(ai_fle(0, r.Width()), ai_fle(0, r.Height())), "non-negative-size"); ai_assert(ai_fle(0, r.SemiWidth()), "non-negative-semi-width"); ai_assert(ai_fle(0, r.SemiHeight()), "non-negative-semi-height"); ai_assert(ai_and(ai_finite(r.SemiWidth()), ai_finite(r.SemiHeight())), "semi-size-finite");
  Point c = r.Center(); ai_same(c.x, 0.5 * x0 + 0.5 * x1, 1e-6, "center-x"); ai_same(c.y, 0.5 * y0 + 0.5 * y1, 1e-6, "center-y"); ai_assert(ai_and(ai_finite(c.x), ai_finite(c.y)), "center-finite");
  ai_same(r.Area(), (x1 - x0) * (y1 - y0), 1e-6, "area");
  if (r.Height() != 0) ai_same(r.AspectRatio(), (x1 - x0) / (y1 - y0), 1e-6, "aspect-ratio"); }
PROP(rect_infinite_center) { Rect r = AnyRect("r"); float f[4] = {-std::numeric_limits<float>::infinity(), -std::numeric_limits<float>::infinity(), std::numeric_limits<float>::infinity(), std::numeric_limits<float>::infinity()};
  Rect q = Rect::FromTwoPoints({f[0], f[1]}, {f[2], f[3]}); Point c = q.Center(); ai_assert(ai_and(ai_feq(c.x, 0), ai_feq(c.y, 0)), "infinite-rect-center"); }
PROP(rect_set_center) { Rect r = AnyRect("r"); double w = 0.5 * r.XMax() - 0.5 * r.XMin(), h = 0.5 * r.YMax() - 0.5 * r.YMin(); Point c = P("cx", "cy"); r.SetCenter(c); Is(r, c.x - w, c.y - h, c.x + w, c.y + h, "set-center"); Ordered(r); }
PROP(rect_set_size) { Rect r = AnyRect("r"), q = r; double cx = 0.5 * r.XMax() + 0.5 * r.XMin(), cy = 0.5 * r.YMax() + 0.5 * r.YMin(); float w = ai_f32_in(0, kFMax, "w");
  // stay within a range where the sums cannot overflow
  ai_assume(In(r.XMin(), -1e38, 1e38)); ai_assume(In(r.XMax(), -1e38, 1e38)); ai_assume(In(r.YMin(), -1e38, 1e38)); ai_assume(In(r.YMax(), -1e38, 1e38)); q = r;
  r.SetWidth(w); Is(r, cx - 0.5 * w, q.YMin(), cx + 0.5 * w, q.YMax(), "set-width"); Ordered(r);
  r = q; r.SetHeight(w); Is(r, q.XMin(), cy - 0.5 * w, q.XMax(), cy + 0.5 * w, "set-height"); Ordered(r); }
PROP(rect_translate) { Rect r = AnyRect("r"), q = r; Vec v{Fin("dx"), Fin("dy")}; r.Translate(v); Is(r, (double)q.XMin() + v.x, (double)q.YMin() + v.y, (double)q.XMax() + v.x, (double)q.YMax() + v.y, "translate"); Ordered(r);
  float t = ai_f32_in(-1e37, 1e37, "t"); double w = (double)q.XMax() - q.XMin(), h = (double)q.YMax() - q.YMin();
  r = q; r.TranslateSettingXMinTo(t); Is(r, t, q.YMin(), t + w, q.YMax(), "translate-x-min"); r = q; r.TranslateSettingYMinTo(t); Is(r, q.XMin(), t, q.XMax(), t + h, "translate-y-min");
  r = q; r.TranslateSettingXMaxTo(t); Is(r, t - w, q.YMin(), t, q.YMax(), "translate-x-max"); r = q; r.TranslateSettingYMaxTo(t); Is(r, q.XMin(), t - h, q.XMax(), t, "translate-y-max"); }
PROP(rect_resize) { Rect r = AnyRect("r"), q = r; float t = Fin("t");
  r.ResizeSettingXMinTo(t); Ordered(r); ai_ident_f(r.XMin(), t, "resize-x-min"); if (t <= q.XMax()) Is(r, t, q.YMin(), q.XMax(), q.YMax(), "resize-x-min-keeps"); else Is(r, t, q.YMin(), t, q.YMax(), "resize-x-min-flips");
  r = q; r.ResizeSettingXMaxTo(t); Ordered(r); ai_ident_f(r.XMax(), t, "resize-x-max"); if (t >= q.XMin()) Is(r, q.XMin(), q.YMin(), t, q.YMax(), "resize-x-max-keeps"); else Is(r, t, q.YMin(), t, q.YMax(), "resize-x-max-flips");
  r = q; r.ResizeSettingYMinTo(t); Ordered(r); ai_ident_f(r.YMin(), t, "resize-y-min"); if (t <= q.YMax()) Is(r, q.XMin(), t, q.XMax(), q.YMax(), "resize-y-min-keeps"); else Is(r, q.XMin(), t, q.XMax(), t, "resize-y-min-flips");
  r = q; r.ResizeSettingYMaxTo(t); Ordered(r); ai_ident_f(r.YMax(), t, "resize-y-max"); if (t >= q.YMin()) Is(r, q.XMin(), q.YMin(), q.XMax(), t, "resize-y-max-keeps"); else Is(r, q.XMin(), t, q.XMax(), t, "resize-y-max-flips"); }
PROP(rect_offset) { Rect r = AnyRect("r"); ai_assume(In(r.XMin(), -1e37, 1e37)); ai_assume(In(r.XMax(), -1e37, 1e37)); ai_assume(In(r.YMin(), -1e37, 1e37)); ai_assume(In(r.YMax(), -1e37, 1e37)); Rect q = r; float dx = ai_f32_in(-1e37, 1e37, "dx"), dy = ai_f32_in(-1e37, 1e37, "dy"); bool gx = false, gy = false; if (dx >= 0) gx = true; if (dy >= 0) gy = true;
  r.Offset(dx, dy); Ordered(r);
  Rect o = q; o.Offset(dx); Ordered(o);
  if (gx && gy) { Is(r, (double)q.XMin() - dx, (double)q.YMin() - dy, (double)q.XMax() + dx, (double)q.YMax() + dy, "offset"); }
  if (gx) Is(o, (double)q.XMin() - dx, (double)q.YMin() - dx, (double)q.XMax() + dx, (double)q.YMax() + dx, "offset-uniform"); }
// Scaling sends both bounds towards (or away from) the center in proportion; inspected where no collapse happens.
PROP(rect_scale) { Rect r = AnyRect("r"); ai_assume(In(r.XMin(), -1e18, 1e18)); ai_assume(In(r.XMax(), -1e18, 1e18)); ai_assume(In(r.YMin(), -1e18, 1e18)); ai_assume(In(r.YMax(), -1e18, 1e18)); Rect q = r; float s = ai_f32_in(1, 1e18, "s"), t = ai_f32_in(1, 1e18, "t");
  r.Scale(s, t); Ordered(r); double cx = 0.5 * q.XMin() + 0.5 * q.XMax(), cy = 0.5 * q.YMin() + 0.5 * q.YMax(), w = 0.5 * q.XMax() - 0.5 * q.XMin(), h = 0.5 * q.YMax() - 0.5 * q.YMin();
  Is(r, cx - w * s, cy - h * t, cx + w * s, cy + h * t, "scale"); Rect u = q; u.Scale(s); Is(u, cx - w * s, cy - h * s, cx + w * s, cy + h * s, "scale-uniform"); }
PROP(rect_scale_down) { Rect r = AnyRect("r"); ai_assume(In(r.XMin(), -1e18, 1e18)); ai_assume(In(r.XMax(), -1e18, 1e18)); ai_assume(In(r.YMin(), -1e18, 1e18)); ai_assume(In(r.YMax(), -1e18, 1e18)); Rect q = r; float s = ai_f32_in(0, 1, "s"), t = ai_f32_in(0, 1, "t"); r.Scale(s, t); Ordered(r);
  double cx = 0.5 * q.XMin() + 0.5 * q.XMax(), w = 0.5 * q.XMax() - 0.5 * q.XMin(), cy = 0.5 * q.YMin() + 0.5 * q.YMax(), h = 0.5 * q.YMax() - 0.5 * q.YMin();
  ai_same((double)r.XMax() + r.XMin(), 2 * cx, 1e-5, "scale-keeps-center"); ai_same((double)r.YMax() + r.YMin(), 2 * cy, 1e-5, "scale-keeps-center"); }
PROP(rect_join_point) { ai_opt("fork-minmax"); Rect r = AnyRect("r"), q = r; Point p = P("px", "py"); r.Join(p); Ordered(r); Lo(r.XMin(), q.XMin(), p.x, "join-x-min"); Lo(r.YMin(), q.YMin(), p.y, "join-y-min"); Hi(r.XMax(), q.XMax(), p.x, "join-x-max"); Hi(r.YMax(), q.YMax(), p.y, "join-y-max"); ai_assert(r.Contains(p), "join-contains-point"); ai_assert(r.Contains(q), "join-contains-original"); }
PROP(rect_join_rect) { ai_opt("fork-minmax"); Rect r = AnyRect("r"), q = r, p = AnyRect("p"); r.Join(p); Ordered(r); Lo(r.XMin(), q.XMin(), p.XMin(), "join-x-min"); Lo(r.YMin(), q.YMin(), p.YMin(), "join-y-min"); Hi(r.XMax(), q.XMax(), p.XMax(), "join-x-max"); Hi(r.YMax(), q.YMax(), p.YMax(), "join-y-max"); ai_assert(r.Contains(p), "join-contains-other"); ai_assert(r.Contains(q), "join-contains-original"); }
PROP(rect_contains_point) { Rect r = AnyRect("r"); Point p = P("px", "py"); bool in = ai_and(ai_and(ai_fle(r.XMin(), p.x), ai_fle(p.x, r.XMax())), ai_and(ai_fle(r.YMin(), p.y), ai_fle(p.y, r.YMax()))); IFF(in, r.Contains(p), "contains-point"); }
PROP(rect_contains_rect) { Rect r = AnyRect("r"), q = AnyRect("q"); bool in = ai_and(ai_and(ai_fle(r.XMin(), q.XMin()), ai_fle(q.XMax(), r.XMax())), ai_and(ai_fle(r.YMin(), q.YMin()), ai_fle(q.YMax(), r.YMax()))); IFF(in, r.Contains(q), "contains-rect"); }
PROP(rect_corners) { Rect r = AnyRect("r"); std::array<Point, 4> c = r.Corners(); float x[4] = {r.XMin(), r.XMax(), r.XMax(), r.XMin()}, y[4] = {r.YMin(), r.YMin(), r.YMax(), r.YMax()};
  for (int i = 0; i < 4; ++i) { ai_ident_f(c[i].x, x[i], "corner-x"); ai_ident_f(c[i].y, y[i], "corner-y"); }
  for (int i = 0; i < 4; ++i) { Segment e = r.GetEdge(i); int j = (i + 1) % 4; ai_ident_f(e.start.x, x[i], "edge-start-x"); ai_ident_f(e.start.y, y[i], "edge-start-y"); ai_ident_f(e.end.x, x[j], "edge-end-x"); ai_ident_f(e.end.y, y[j], "edge-end-y"); } }
PROP(rect_edge_index) { ai_opt("allow-check-failure"); Rect r = AnyRect("r"); int i = ai_i32(-2147483647 - 1, 2147483647, "index"); r.GetEdge(i); ai_assert(In(i, 0, 3), "edge-index-checked"); }
PROP(rect_rejects_negative) { ai_opt("allow-check-failure"); int k = (int)ai_split(ai_i32(0, 3, "which")); Rect r = AnyRect("r"); float a = Fin("a"), b = Fin("b"); if (k == 0) Rect::FromCenterAndDimensions(P("x", "y"), a, b); if (k == 1) { r.SetWidth(a); b = 0; } if (k == 2) { r.SetHeight(b); a = 0; } if (k == 3) { ai_opt("allow-check-failure"); r.Scale(a, b); } ai_assert(ai_and(ai_fle(0, a), ai_fle(0, b)), "negative-size-rejected"); }
static Rect Tame(const char* n) { Rect r = AnyRect(n); ai_assume(In(r.XMin(), -1e9, 1e9)); ai_assume(In(r.XMax(), -1e9, 1e9)); ai_assume(In(r.YMin(), -1e9, 1e9)); ai_assume(In(r.YMax(), -1e9, 1e9)); ai_assume(ai_flt(0, r.Height())); return r; }
PROP(rect_containing_aspect) { Rect r = Tame("r"); float a = ai_f32_in(1e-9, 1e9, "a"); Rect c = r.ContainingRectWithAspectRatio(a); Ordered(c); double w = (double)r.XMax() - r.XMin(), h = (double)r.YMax() - r.YMin(), cx = 0.5 * r.XMin() + 0.5 * r.XMax(), cy = 0.5 * r.YMin() + 0.5 * r.YMax();
  if (r.AspectRatio() < a) Is(c, cx - 0.5 * h * a, cy - 0.5 * h, cx + 0.5 * h * a, cy + 0.5 * h, "containing-aspect-wider"); else Is(c, cx - 0.5 * w, cy - 0.5 * w / a, cx + 0.5 * w, cy + 0.5 * w / a, "containing-aspect-taller"); }
PROP(rect_interior_aspect) { Rect r = Tame("r"); float a = ai_f32_in(0, 1e9, "a"); Rect c = r.InteriorRectWithAspectRatio(a); Ordered(c); double w = (double)r.XMax() - r.XMin(), h = (double)r.YMax() - r.YMin(), cx = 0.5 * r.XMin() + 0.5 * r.XMax(), cy = 0.5 * r.YMin() + 0.5 * r.YMax();
  if (r.AspectRatio() < a) Is(c, cx - 0.5 * w, cy - 0.5 * w / a, cx + 0.5 * w, cy + 0.5 * w / a, "interior-aspect-shorter"); else Is(c, cx - 0.5 * h * a, cy - 0.5 * h, cx + 0.5 * h * a, cy + 0.5 * h, "interior-aspect-narrower"); }

// ---- envelopes: the rectangle is exactly the bounds of what was added ------------------------------------------
static Envelope AnyEnvelope(Rect& r, bool& empty) { Envelope e; empty = ai_bool("empty"); r = AnyRect("e"); if (!empty) e.Add(r); return e; }
template <int N> static void Grows(const Envelope& e, bool empty, const Rect& old, const float (&x)[N], const float (&y)[N]) {
  ai_assert(!e.IsEmpty(), "add-makes-nonempty"); ai_assert(e.AsRect().has_value(), "add-has-rect"); Rect r = *e.AsRect(); Ordered(r);
  bool hx0 = false, hx1 = false, hy0 = false, hy1 = false;
  for (int i = 0; i < N; ++i) { ai_assert(ai_and(ai_fle(r.XMin(), x[i]), ai_fle(x[i], r.XMax())), "envelope-covers-x"); ai_assert(ai_and(ai_fle(r.YMin(), y[i]), ai_fle(y[i], r.YMax())), "envelope-covers-y"); hx0 = ai_or(hx0, ai_feq(r.XMin(), x[i])); hx1 = ai_or(hx1, ai_feq(r.XMax(), x[i])); hy0 = ai_or(hy0, ai_feq(r.YMin(), y[i])); hy1 = ai_or(hy1, ai_feq(r.YMax(), y[i])); }
  if (!empty) { ai_assert(r.Contains(old), "envelope-keeps-previous"); hx0 = ai_or(hx0, ai_feq(r.XMin(), old.XMin())); hx1 = ai_or(hx1, ai_feq(r.XMax(), old.XMax())); hy0 = ai_or(hy0, ai_feq(r.YMin(), old.YMin())); hy1 = ai_or(hy1, ai_feq(r.YMax(), old.YMax())); }
  ai_assert(hx0, "envelope-x-min-tight"); ai_assert(hx1, "envelope-x-max-tight"); ai_assert(hy0, "envelope-y-min-tight"); ai_assert(hy1, "envelope-y-max-tight");
}
PROP(envelope_point) { ai_opt("fork-minmax"); Rect r = AnyRect("r"); bool em; Envelope e = AnyEnvelope(r, em); ai_assert(e.IsEmpty() == em, "empty-state"); Point p = P("x", "y"); e.Add(p); float x[1] = {p.x}, y[1] = {p.y}; Grows(e, em, r, x, y); e.Reset(); ai_assert(e.IsEmpty(), "reset-empties"); }
PROP(envelope_segment) { ai_opt("fork-minmax"); Rect r = AnyRect("r"); bool em; Envelope e = AnyEnvelope(r, em); Segment s{P("ax", "ay"), P("bx", "by")}; e.Add(s); float x[2] = {s.start.x, s.end.x}, y[2] = {s.start.y, s.end.y}; Grows(e, em, r, x, y); }
PROP(envelope_rect) { ai_opt("fork-minmax"); Rect r = AnyRect("r"); bool em; Envelope e = AnyEnvelope(r, em); Rect q = AnyRect("q"); e.Add(q); float x[2] = {q.XMin(), q.XMax()}, y[2] = {q.YMin(), q.YMax()}; Grows(e, em, r, x, y); }
PROP(envelope_envelope) { ai_opt("fork-minmax"); Rect r = AnyRect("r"), q = r; bool em, fm; Envelope e = AnyEnvelope(r, em), f = AnyEnvelope(q, fm); e.Add(f);
  if (fm) { ai_assert(e.IsEmpty() == em, "adding-empty-changes-nothing"); if (!em) { Rect g = *e.AsRect(); ai_assert(g.Contains(r) && r.Contains(g), "adding-empty-changes-nothing"); } } else { float x[2] = {q.XMin(), q.XMax()}, y[2] = {q.YMin(), q.YMax()}; Grows(e, em, r, x, y); } }
PROP(envelope_triangle) { Rect r = AnyRect("r"); bool em; Envelope e = AnyEnvelope(r, em); Triangle t{P("ax", "ay"), P("bx", "by"), P("cx", "cy")}; e.Add(t); Rect g = *e.AsRect(); float x[3] = {t.p0.x, t.p1.x, t.p2.x}, y[3] = {t.p0.y, t.p1.y, t.p2.y};
  for (int i = 0; i < 3; ++i) { ai_assert(ai_and(ai_fle(g.XMin(), x[i]), ai_fle(x[i], g.XMax())), "triangle-covered-x"); ai_assert(ai_and(ai_fle(g.YMin(), y[i]), ai_fle(y[i], g.YMax())), "triangle-covered-y"); } if (!em) ai_assert(g.Contains(r), "triangle-keeps-previous"); }
PROP(envelope_quad) { Rect r = AnyRect("r"); bool em; Envelope e = AnyEnvelope(r, em); Quad q = Quad::FromCenterDimensionsRotationAndShear(Point{ai_f32_in(-1e9, 1e9, "cx"), ai_f32_in(-1e9, 1e9, "cy")}, ai_f32_in(0, 1e9, "w"), ai_f32_in(-1e9, 1e9, "h"), Angle::Radians(ai_f32_in(0, 6, "rot")), ai_f32_in(-100, 100, "skew")); e.Add(q); Rect g = *e.AsRect(); auto c = q.Corners();
  for (int i = 0; i < 4; ++i) { ai_assert(ai_and(ai_fle(g.XMin(), c[i].x), ai_fle(c[i].x, g.XMax())), "quad-covered-x"); ai_assert(ai_and(ai_fle(g.YMin(), c[i].y), ai_fle(c[i].y, g.YMax())), "quad-covered-y"); } if (!em) ai_assert(g.Contains(r), "quad-keeps-previous"); }
PROP(envelope_range) { std::array<Point, 3> ps = {P("ax", "ay"), P("bx", "by"), P("cx", "cy")}; Envelope e(ps), f(ps.begin(), ps.end()); ai_assert(!e.IsEmpty(), "range-nonempty"); for (Point p : ps) { ai_assert(e.AsRect()->Contains(p), "container-covers"); ai_assert(f.AsRect()->Contains(p), "range-covers"); } }
