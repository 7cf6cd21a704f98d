// Affine transforms: factories, composition, inversion, application to shapes, and the transforms that map shape to shape.
#include <array>
#include <optional>
#include "specs/common.h"
#include "ink/geometry/affine_transform.h"
#include "ink/geometry/quad.h"
#include "ink/geometry/rect.h"
using namespace ink;
static float M(const char* n) { return ai_f32_in(-1e4, 1e4, n); }
static Point P(const char* a, const char* b) { float x = M(a), y = M(b); return Point{x, y}; }
static AffineTransform Any(const char* n) { float a = M("a"), b = M("b"), c = M("c"), d = M("d"), e = M("e"), f = M("f"); return AffineTransform(a, b, c, d, e, f); }
static void Coefs(const AffineTransform& t, double a, double b, double c, double d, double e, double f, const char* id) { ai_same(t.A(), a, 1e-5, id); ai_same(t.B(), b, 1e-5, id); ai_same(t.C(), c, 1e-5, id); ai_same(t.D(), d, 1e-5, id); ai_same(t.E(), e, 1e-5, id); ai_same(t.F(), f, 1e-5, id); }
static void SameT(const AffineTransform& t, const AffineTransform& u, const char* id) { Coefs(t, u.A(), u.B(), u.C(), u.D(), u.E(), u.F(), id); }
static void SameP(Point p, Point q, const char* id) { ai_same(p.x, q.x, 1e-5, id); ai_same(p.y, q.y, 1e-5, id); }
PROP(affine_factories) { float k = M("k"), l = M("l"), t = M("t"); Vec v{M("vx"), M("vy")}; double c = std::cos(t), s = std::sin(t);
  Coefs(AffineTransform(), 1, 0, 0, 0, 1, 0, "default-is-identity"); Coefs(AffineTransform::Identity(), 1, 0, 0, 0, 1, 0, "identity"); Coefs(AffineTransform::Translate(v), 1, 0, v.x, 0, 1, v.y, "translate"); Coefs(AffineTransform::Scale(k), k, 0, 0, 0, k, 0, "scale"); Coefs(AffineTransform::Scale(k, l), k, 0, 0, 0, l, 0, "scale-xy"); Coefs(AffineTransform::ScaleX(k), k, 0, 0, 0, 1, 0, "scale-x"); Coefs(AffineTransform::ScaleY(k), 1, 0, 0, 0, k, 0, "scale-y");
  Coefs(AffineTransform::Rotate(Angle::Radians(t)), c, -s, 0, s, c, 0, "rotate"); Coefs(AffineTransform::ShearX(k), 1, k, 0, 0, 1, 0, "shear-x"); Coefs(AffineTransform::ShearY(k), 1, 0, 0, k, 1, 0, "shear-y");
  float a = M("a"), b = M("b"), x = M("c"), d = M("d"), e = M("e"), f = M("f"); Coefs(AffineTransform(a, b, x, d, e, f), a, b, x, d, e, f, "coefficients"); }
PROP(affine_about_point) { float k = M("k"), l = M("l"), t = M("t"); Point o = P("ox", "oy"), z{0, 0}; AffineTransform in = AffineTransform::Translate(o - z), out = AffineTransform::Translate(z - o);
  SameT(AffineTransform::ScaleAboutPoint(k, o), in * AffineTransform::Scale(k) * out, "scale-about-point"); SameT(AffineTransform::ScaleAboutPoint(k, l, o), in * AffineTransform::Scale(k, l) * out, "scale-xy-about-point"); SameT(AffineTransform::RotateAboutPoint(Angle::Radians(t), o), in * AffineTransform::Rotate(Angle::Radians(t)) * out, "rotate-about-point"); }
PROP(affine_apply) { AffineTransform t = Any("t"); Point p = P("px", "py"), q = P("qx", "qy"), r = P("rx", "ry"); Point a = t.Apply(p); ai_same(a.x, (double)t.A() * p.x + (double)t.B() * p.y + t.C(), 1e-5, "apply-x"); ai_same(a.y, (double)t.D() * p.x + (double)t.E() * p.y + t.F(), 1e-5, "apply-y");
  Segment s = t.Apply(Segment{p, q}); SameP(s.start, t.Apply(p), "apply-segment"); SameP(s.end, t.Apply(q), "apply-segment"); Triangle g = t.Apply(Triangle{p, q, r}); SameP(g.p0, t.Apply(p), "apply-triangle"); SameP(g.p1, t.Apply(q), "apply-triangle"); SameP(g.p2, t.Apply(r), "apply-triangle"); }
PROP(affine_compose) { AffineTransform t = Any("t"), u = Any("u"); Point p = P("px", "py"); SameP((t * u).Apply(p), t.Apply(u.Apply(p)), "composition-applies-right-first"); SameT(t * AffineTransform(), t, "identity-right"); SameT(AffineTransform() * t, t, "identity-left"); }
PROP(affine_inverse) { AffineTransform t = Any("t"); std::optional<AffineTransform> i = t.Inverse(); bool singular = (float)(t.A() * t.E()) == (float)(t.B() * t.D());
  if (singular) ai_assert(!i.has_value(), "singular-has-no-inverse"); else { ai_assert(i.has_value(), "regular-has-inverse"); Coefs(t * *i, 1, 0, 0, 0, 1, 0, "inverse-right"); Coefs(*i * t, 1, 0, 0, 0, 1, 0, "inverse-left"); } }
PROP(affine_inverse_never_divides_by_zero) { float a = Fin("a"), b = Fin("b"), d = Fin("d"), e = Fin("e"); AffineTransform t(a, b, 1, d, e, 1); if (auto i = t.Inverse()) { ai_assert(ai_not(ai_feq(a * e, b * d)), "inverse-needs-nonzero-determinant"); } }
// A transformed quad is the quad through the transformed corners.
PROP(affine_apply_quad) { float a = ai_f32_in(0.1, 10, "a"), b = M("b"), c = M("c"), d = ai_bool("ccw") ? ai_f32_in(0.1, 10, "d") : ai_f32_in(-10, -0.1, "d"), e = M("e"), f = M("f"); AffineTransform t(a, b, c, d, e, f); float w = ai_f32_in(1, 100, "w"), h = ai_bool("up") ? ai_f32_in(1e-3, 1e4, "h") : ai_f32_in(-1e4, -1e-3, "h"); Quad q = Quad::FromCenterDimensionsRotationAndShear(P("cx", "cy"), w, h, Angle::Radians(0), M("s")); auto [u, v] = q.SemiAxes();
  float ux = t.A() * u.x + t.B() * u.y, uy = t.D() * u.x + t.E() * u.y, vx = t.A() * v.x + t.B() * v.y, vy = t.D() * v.x + t.E() * v.y; if (!(ux * vy - uy * vx != 0)) ai_stop();
  Quad r = t.Apply(q); std::array<Point, 4> ca = q.Corners(), cb = r.Corners(); for (int i = 0; i < 4; ++i) SameP(cb[i], t.Apply(ca[i]), "quad-corner-image"); }
PROP(affine_apply_degenerate_quad) { AffineTransform t(ai_f32_in(0.1, 10, "a"), 0, M("c"), 0, ai_f32_in(0.1, 10, "e"), M("f")); int k = (int)ai_split(ai_i32(0, 2, "flat")); float w = k == 0 || k == 2 ? 0.f : ai_f32_in(1e-3, 1e4, "w"), h = k >= 1 ? 0.f : ai_f32_in(1e-3, 1e4, "h"); Quad q = Quad::FromCenterAndDimensions(P("cx", "cy"), w, h); Quad r = t.Apply(q); std::array<Point, 4> a = q.Corners(), b = r.Corners(); for (int i = 0; i < 4; ++i) SameP(b[i], t.Apply(a[i]), "flat-quad-corner-image"); if (w == 0) ai_assert(r.Width() == 0, "zero-width-stays-zero"); if (h == 0) ai_assert(r.Height() == 0, "zero-height-stays-zero"); }
PROP(affine_apply_rect) { AffineTransform t(ai_f32_in(0.1, 10, "a"), M("b"), M("c"), ai_f32_in(0.1, 10, "d"), ai_f32_in(0.1, 10, "e"), M("f")); Rect r = Rect::FromTwoPoints({ai_f32_in(-1e4, -1, "l"), ai_f32_in(-1e4, -1, "b")}, {ai_f32_in(1, 1e4, "r"), ai_f32_in(1, 1e4, "t")}); auto [su, sv] = Quad::FromRect(r).SemiAxes(); if (!((t.A() * su.x + t.B() * su.y) * (t.D() * sv.x + t.E() * sv.y) - (t.D() * su.x + t.E() * su.y) * (t.A() * sv.x + t.B() * sv.y) != 0)) ai_stop(); Quad q = t.Apply(r); std::array<Point, 4> a = r.Corners(), b = q.Corners(); for (int i = 0; i < 4; ++i) SameP(b[i], t.Apply(a[i]), "rect-corner-image"); }
PROP(affine_find_segment) { float l = ai_f32_in(-1e4, -2, "left"), r = ai_f32_in(2, 1e4, "right"), l2 = ai_f32_in(-1e4, -2, "left2"), r2 = ai_f32_in(2, 1e4, "right2"); bool fr = ai_bool("fright"), gr = ai_bool("gright"); Segment f{{fr ? l : r, M("ay")}, {fr ? r : l, M("by")}}, g{{gr ? l2 : r2, M("cy")}, {gr ? r2 : l2, M("dy")}}; Angle turn = Vec::SignedAngleBetween(f.Vector(), g.Vector()); if (turn == kHalfTurn || turn == Angle()) ai_stop(); std::optional<AffineTransform> t = AffineTransform::Find(f, g); ai_assert(t.has_value(), "segment-has-transform"); if (!t) return;
  ai_same(t->A(), t->E(), 1e-6, "segment-isotropic"); ai_same(t->B(), -(double)t->D(), 1e-6, "segment-isotropic"); SameP(t->Apply(f.start), g.start, "segment-start-image");
  double fx = (double)f.end.x - f.start.x, fy = (double)f.end.y - f.start.y, gx = (double)g.end.x - g.start.x, gy = (double)g.end.y - g.start.y, ff = fx * fx + fy * fy, gg = gx * gx + gy * gy;
  ai_same(((double)t->A() * t->A() + (double)t->D() * t->D()) * ff, gg, 1e-4, "segment-scale"); }
PROP(affine_find_segment_orientation) { ai_opt("fork-minmax"); Point o = P("ox", "oy"); float w = ai_split(ai_i32(0, 1, "flip")) ? -4.f : 4.f; Segment f{{0, 0}, {w, 0}}; bool up = ai_bool("up"); float x = M("x"), y = up ? ai_f32_in(1, 1e4, "y") : ai_f32_in(-1e4, -1, "y"); Segment g{{0, 0}, {x, y}}; if (Vec::SignedAngleBetween(f.Vector(), g.Vector()) == kHalfTurn) ai_stop(); std::optional<AffineTransform> t = AffineTransform::Find(f, g); ai_assert(t.has_value(), "segment-has-transform"); if (!t) return; if (up == (w > 0)) ai_assert(ai_fle(0, t->D()), "turns-counterclockwise"); else ai_assert(ai_fle(t->D(), 0), "turns-clockwise"); SameP(t->Apply(f.end), g.end, "segment-end-image"); }
PROP(affine_find_degenerate_segment) { Point a = P("ax", "ay"); Segment f{a, a}, g{P("cx", "cy"), P("dx", "dy")}; std::optional<AffineTransform> t = AffineTransform::Find(f, g); bool flat = g.Length() == 0; if (flat) { ai_assert(t.has_value(), "point-to-point"); Coefs(*t, 1, 0, (double)g.start.x - a.x, 0, 1, (double)g.start.y - a.y, "point-to-point-translates"); } else ai_assert(!t.has_value(), "point-to-segment-impossible"); }
static Triangle Tri(const char* n) { Point a = P("ax", "ay"), b = P("bx", "by"), c = P("cx", "cy"); return Triangle{a, b, c}; }
PROP(affine_find_triangle) { Triangle f = Tri("f"), g = Tri("g"); std::optional<AffineTransform> t = AffineTransform::Find(f, g); if (f.SignedArea() == 0) ai_assert(!t.has_value(), "flat-triangle-has-no-transform"); else if (t.has_value()) { ai_reach("reach-triangle-transform"); SameP(t->Apply(f.p0), g.p0, "triangle-p0-image"); SameP(t->Apply(f.p1), g.p1, "triangle-p1-image"); SameP(t->Apply(f.p2), g.p2, "triangle-p2-image"); } }
PROP(affine_find_triangle_exists) { Triangle f{{0, 0}, {1, 0}, {0, 1}}; Triangle g = Tri("g"); std::optional<AffineTransform> t = AffineTransform::Find(f, g); ai_assert(t.has_value(), "regular-triangle-has-transform"); }
PROP(affine_find_rect) { Rect f = Rect::FromCenterAndDimensions(P("ax", "ay"), ai_f32_in(1, 1e4, "fw"), ai_f32_in(1, 1e4, "fh")), g = Rect::FromCenterAndDimensions(P("bx", "by"), ai_f32_in(0, 1e4, "gw"), ai_f32_in(0, 1e4, "gh")); std::optional<AffineTransform> t = AffineTransform::Find(f, g); if (t.has_value()) { ai_reach("reach-rect-transform"); std::array<Point, 4> a = f.Corners(), b = g.Corners(); for (int i = 0; i < 4; ++i) SameP(t->Apply(a[i]), b[i], "rect-corners-map"); } }
PROP(affine_find_quad) { Quad f = Quad::FromCenterDimensionsRotationAndShear(P("ax", "ay"), ai_f32_in(1, 1e4, "fw"), ai_f32_in(1, 1e4, "fh"), Angle::Radians(0), M("fs")), g = Quad::FromCenterDimensionsRotationAndShear(P("bx", "by"), ai_f32_in(1, 1e4, "gw"), ai_f32_in(-1e4, 1e4, "gh"), Angle::Radians(ai_f32_in(0.1, 6, "gr")), M("gs")); std::optional<AffineTransform> t = AffineTransform::Find(f, g); if (t.has_value()) { ai_reach("reach-quad-transform"); std::array<Point, 4> a = f.Corners(), b = g.Corners(); for (int i = 0; i < 4; ++i) SameP(t->Apply(a[i]), b[i], "quad-corners-map"); } }
