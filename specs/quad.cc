// Quads: normalised parameters, corners that always follow the current parameters, joins that only grow.
#include <array>
#include <utility>
#include "specs/common.h"
#include "ink/geometry/quad.h"
#include "ink/geometry/rect.h"
using namespace ink;
static float M(const char* n) { return ai_f32_in(-1e6, 1e6, n); }
// angles clear of the seam where rounding wraps a full turn to zero
static float Turn(const char* n) { int k = (int)ai_split(ai_i32(0, 2, "turn")); return k == 0 ? ai_f32_in(0, 6.283, n) : k == 1 ? ai_f32_in(-6.28, -1e-3, n) : ai_f32_in(6.2832, 12.5, n); }
struct Params { float cx, cy, w, h, t, s; };
static Params Pick(bool anyWidth = true) { float cx = M("cx"), cy = M("cy"), w = anyWidth ? M("w") : ai_f32_in(0, 1e6, "w"), h = M("h"), t = Turn("rot"), s = M("shear"); return {cx, cy, w, h, t, s}; }
static Quad Make(const Params& p) { return Quad::FromCenterDimensionsRotationAndShear({p.cx, p.cy}, p.w, p.h, Angle::Radians(p.t), p.s); }
// The outline is the one the parameters p describe.
static void Outline(const Quad& q, const Params& p, const char* id) {
  double c = std::cos(p.t), s = std::sin(p.t); double ux = 0.5 * p.w * c, uy = 0.5 * p.w * s, vx = 0.5 * p.h * ((double)p.s * c - s), vy = 0.5 * p.h * ((double)p.s * s + c);
  double su[4] = {-1, 1, 1, -1}, sv[4] = {-1, -1, 1, 1}; std::array<Point, 4> k = q.Corners();
  for (int i = 0; i < 4; ++i) { ai_same(k[i].x, p.cx + su[i] * ux + sv[i] * vx, 1e-5, id); ai_same(k[i].y, p.cy + su[i] * uy + sv[i] * vy, 1e-5, id); }
}
static void Invariants(const Quad& q) { ai_assert(ai_fle(0, q.Width()), "width-non-negative"); float r = q.Rotation().ValueInRadians(); ai_assert(ai_and(ai_fle(0, r), ai_flt(r, kTwoPiF)), "rotation-normalized"); }
PROP(quad_create) { Params p = Pick(); Quad q = Make(p); Invariants(q); ai_same(q.Center().x, p.cx, 0, "center"); ai_same(q.Center().y, p.cy, 0, "center"); ai_same(q.ShearFactor(), p.s, 0, "shear");
  if (p.w >= 0) { ai_same(q.Width(), p.w, 0, "width"); ai_same(q.Height(), p.h, 0, "height"); } else { ai_same(q.Width(), -p.w, 0, "negative-width-flips"); ai_same(q.Height(), -p.h, 0, "negative-width-flips-height"); }
  Outline(q, p, "corners-follow-parameters"); }
PROP(quad_normalized_always) { Quad q = Quad::FromCenterDimensionsRotationAndShear({M("cx"), M("cy")}, M("w"), M("h"), Angle::Radians(M("rot")), M("shear")); Invariants(q); int k = (int)ai_split(ai_i32(0, 1, "setter")); if (k) q.SetWidth(M("nw")); else q.SetRotation(Angle::Radians(M("nt"))); Invariants(q); }
PROP(quad_create_variants) { Params p = Pick(); Params z = p; z.s = 0; Outline(Quad::FromCenterDimensionsAndRotation({p.cx, p.cy}, p.w, p.h, Angle::Radians(p.t)), z, "no-shear"); z.t = 0; Outline(Quad::FromCenterAndDimensions({p.cx, p.cy}, p.w, p.h), z, "axis-aligned");
  Quad d; Outline(d, Params{0, 0, 0, 0, 0, 0}, "default-quad"); ai_assert(d.Width() == 0 && d.Height() == 0, "default-quad-size"); }
PROP(quad_from_rect) { float x = M("x"), y = M("y"), w = ai_f32_in(0, 1e6, "w"), h = ai_f32_in(0, 1e6, "h"); Rect r = Rect::FromCenterAndDimensions({x, y}, w, h); Quad q = Quad::FromRect(r); std::array<Point, 4> a = r.Corners(), b = q.Corners(); for (int i = 0; i < 4; ++i) { ai_same(a[i].x, b[i].x, 1e-5, "rect-corner"); ai_same(a[i].y, b[i].y, 1e-5, "rect-corner"); } }
// Setters keep derived state fresh, whether or not the outline was queried before.
template <class F> static void Setter(int which, F set, const char* id) { Params p = Pick(false); Quad q = Make(p); if (ai_bool("queried")) q.SemiAxes(); set(q, p); Invariants(q); Outline(q, p, id); }
PROP(quad_set_center) { Setter(0, [](Quad& q, Params& p) { p.cx = M("nx"); p.cy = M("ny"); q.SetCenter({p.cx, p.cy}); }, "set-center"); }
PROP(quad_set_width) { Setter(1, [](Quad& q, Params& p) { p.w = M("nw"); q.SetWidth(p.w); }, "set-width"); }
PROP(quad_set_height) { Setter(2, [](Quad& q, Params& p) { p.h = M("nh"); q.SetHeight(p.h); ai_same(q.Height(), p.h, 0, "set-height-value"); }, "set-height"); }
PROP(quad_set_rotation) { Setter(3, [](Quad& q, Params& p) { p.t = Turn("nt"); q.SetRotation(Angle::Radians(p.t)); }, "set-rotation"); }
PROP(quad_set_shear) { Setter(4, [](Quad& q, Params& p) { p.s = M("ns"); q.SetShearFactor(p.s); ai_same(q.ShearFactor(), p.s, 0, "set-shear-value"); }, "set-shear"); }
PROP(quad_copy_is_independent) { Params p = Pick(false); Quad q = Make(p); if (ai_bool("queried")) q.SemiAxes(); Quad c = q; float h = M("nh"); c.SetHeight(h); Outline(q, p, "copy-leaves-original"); p.h = h; Outline(c, p, "copy-is-fresh"); }
PROP(quad_axes_and_edges) { Params p = Pick(false); Quad q = Make(p); auto [u, v] = q.SemiAxes(); double c = std::cos(p.t), s = std::sin(p.t);
  ai_same(u.x, 0.5 * p.w * c, 1e-5, "axis-u"); ai_same(u.y, 0.5 * p.w * s, 1e-5, "axis-u"); ai_same(v.x, 0.5 * p.h * ((double)p.s * c - s), 1e-5, "axis-v"); ai_same(v.y, 0.5 * p.h * ((double)p.s * s + c), 1e-5, "axis-v");
  std::array<Point, 4> k = q.Corners(); for (int i = 0; i < 4; ++i) { Segment e = q.GetEdge(i); int j = (i + 1) % 4; ai_ident_f(e.start.x, k[i].x, "edge-start"); ai_ident_f(e.start.y, k[i].y, "edge-start"); ai_ident_f(e.end.x, k[j].x, "edge-end"); ai_ident_f(e.end.y, k[j].y, "edge-end"); } }
PROP(quad_edge_index) { ai_opt("allow-check-failure"); Params p = Pick(false); Quad q = Make(p); int i = ai_i32(-2147483647 - 1, 2147483647, "index"); q.GetEdge(i); ai_assert(In(i, 0, 3), "edge-index-checked"); }
PROP(quad_measures) { Params p = Pick(false); Quad q = Make(p); ai_same(q.SignedArea(), (double)p.w * p.h, 1e-6, "signed-area"); if (p.h != 0) ai_same(q.AspectRatio(), (double)p.w / p.h, 1e-6, "aspect-ratio"); IFF(ai_feq(p.s, 0), q.IsRectangular(), "is-rectangular"); if (p.s != 0) ai_assert(!q.IsAxisAligned(), "sheared-is-not-axis-aligned"); }
PROP(quad_equality) { Params p = Pick(false), r{M("cx2"), M("cy2"), ai_f32_in(0, 1e6, "w2"), M("h2"), 0, M("s2")}; p.t = ai_f32_in(0, 6.28, "t1"); r.t = ai_f32_in(0, 6.28, "t2"); Quad a = Make(p), b = Make(r); if (ai_bool("queried")) a.SemiAxes();
  bool same = ai_and(ai_and(ai_and(ai_feq(p.cx, r.cx), ai_feq(p.cy, r.cy)), ai_and(ai_feq(p.w, r.w), ai_feq(p.h, r.h))), ai_and(ai_feq(p.t, r.t), ai_feq(p.s, r.s))); IFF(same, a == b, "quad-equal"); IFF(same, !(a != b), "quad-not-equal"); }
// Joining: one side of each extent stays put, and the other moves out exactly to the point.
PROP(quad_join) { ai_opt("fork-minmax"); Params p = Pick(false); p.t = ai_f32_in(0, 6.28, "t"); Quad q = Make(p); if (ai_bool("queried")) q.SemiAxes(); float px = M("px"), py = M("py"); q.Join({px, py}); Invariants(q);
  ai_same(q.Rotation().ValueInRadians(), p.t, 1e-6, "join-keeps-rotation"); ai_same(q.ShearFactor(), p.s, 0, "join-keeps-shear");
  double c = std::cos(p.t), s = std::sin(p.t), dx = (double)px - p.cx, dy = (double)py - p.cy, w2 = q.Width(), h2 = q.Height(), beta = c * dy - s * dx, alpha = c * dx + s * dy - p.s * beta;
  double mx = (double)q.Center().x - p.cx, my = (double)q.Center().y - p.cy, db = c * my - s * mx, da = c * mx + s * my - p.s * db;
  ai_assert(ai_fle(p.w, w2), "join-never-narrows"); ai_assert(ai_fle(std::abs(p.h), std::abs(h2)), "join-never-shortens");
  ai_same((w2 - p.w) * ((w2 - 0.5 * p.w) * (w2 - 0.5 * p.w) - alpha * alpha), 0, 1e-5, "join-width-reaches-point");
  ai_same((h2 * h2 - (double)p.h * p.h) * ((std::abs(h2) - 0.5 * std::abs(p.h)) * (std::abs(h2) - 0.5 * std::abs(p.h)) - beta * beta), 0, 1e-5, "join-height-reaches-point");
  Quad fresh = Quad::FromCenterDimensionsRotationAndShear(q.Center(), q.Width(), q.Height(), q.Rotation(), q.ShearFactor()); std::array<Point, 4> a = q.Corners(), b = fresh.Corners(); for (int i = 0; i < 4; ++i) { ai_same(a[i].x, b[i].x, 1e-6, "join-refreshes-corners"); ai_same(a[i].y, b[i].y, 1e-6, "join-refreshes-corners"); } }
// Same, in the quad's own frame, where the sign of every displacement is visible.
PROP(quad_join_directions) { ai_opt("fork-minmax"); float w = ai_f32_in(0, 1e6, "w"), h = ai_bool("up") ? ai_f32_in(1e-3, 1e6, "h") : ai_f32_in(-1e6, -1e-3, "h"), s = ai_bool("sheared") ? M("s") : 0.f; float py = ai_bool("above") ? ai_f32_in(1e-3, 1e6, "py") : ai_f32_in(-1e6, -1e-3, "py"), px = M("px"); float a = px - s * py; bool right = false; if (a > 0) right = true; else if (a < 0) {} else ai_stop();
  Quad q = Quad::FromCenterDimensionsRotationAndShear({0, 0}, w, h, Angle::Radians(0), s); q.Join({px, py}); double W = w, H = std::abs(h), A = (double)px - (double)s * py, w2 = q.Width(), h2 = std::abs((double)q.Height()); double dv = q.Center().y, du = (double)q.Center().x - s * dv;
  ai_assert(ai_fle(0, h > 0 ? q.Height() : -q.Height()), "join-keeps-height-sign");
  // the side facing away from the point has not moved
  if (right) ai_same(du - 0.5 * w2, -0.5 * W, 1e-5, "join-left-side-fixed"); else ai_same(du + 0.5 * w2, 0.5 * W, 1e-5, "join-right-side-fixed");
  if (py > 0) ai_same(dv - 0.5 * h2, -0.5 * H, 1e-5, "join-bottom-fixed"); else ai_same(dv + 0.5 * h2, 0.5 * H, 1e-5, "join-top-fixed"); }
PROP(quad_contains) { float w = ai_f32_in(0, 1e6, "w"), h = M("h"), px = M("px"), py = M("py"); Quad q = Quad::FromCenterAndDimensions({0, 0}, w, h); if (ai_bool("queried")) q.SemiAxes();
  bool in = ai_and(ai_fle(std::abs(px), 0.5f * w), ai_fle(std::abs(py), 0.5f * std::abs(h))); IFF(in, q.Contains({px, py}), "contains-axis-aligned"); }
PROP(quad_contains_sheared) { float w = ai_f32_in(0, 1e6, "w"), h = M("h"), s = M("s"), px = M("px"), py = M("py"); Quad q = Quad::FromCenterDimensionsRotationAndShear({0, 0}, w, h, Angle::Radians(0), s);
  bool in = ai_and(ai_fle(std::abs(px - s * py), 0.5f * w), ai_fle(std::abs(py), 0.5f * std::abs(h))); IFF(in, q.Contains({px, py}), "contains-sheared"); }
