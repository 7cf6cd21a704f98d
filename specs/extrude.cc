// The extruder as a whole: meshes, outlines, bounds and updates of strokes from their tip states.
#include <algorithm>
#include <cmath>
#include <cstring>
#include <optional>
#include <vector>
#include "specs/common.h"
#include "absl/types/span.h"
#include "ink/geometry/mutable_mesh.h"
#include "ink/strokes/internal/brush_tip_extruder.h"
#include "ink/strokes/internal/brush_tip_state.h"
#include "ink/strokes/internal/stroke_vertex.h"
using namespace ink; using namespace ink::strokes_internal;
namespace {
constexpr double kPi = 3.14159265358979323846;
constexpr float kEps = .02f;
struct C3 { double x, y, r; };
struct Edge { double x, y, dx, dy, len; };
struct Hull { int n = 0; C3 c[8]; int m = 0; Edge e[16]; };      // circles of one radius and the edges of the hull of their centers
struct Tip { double w, h, round, turn; };
constexpr Tip kTips[] = {{1, 1, 1, 0}, {1.4, .8, 1, .5}, {1.2, .8, .3, -.7}, {1, 1.3, 0, .3}};
double Support(const Hull& s, double a) { double m = -1e9, c = __builtin_cos(a), v = __builtin_sin(a); for (int i = 0; i < s.n; ++i) { double w = s.c[i].x * c + s.c[i].y * v + s.c[i].r; m = w > m ? w : m; } return m; }
void Close(Hull& h) { for (int i = 0; i < h.n; ++i) for (int j = 0; j < h.n; ++j) { double dx = h.c[j].x - h.c[i].x, dy = h.c[j].y - h.c[i].y, l = __builtin_sqrt(dx * dx + dy * dy); if (l < 1e-9 || h.m >= 16) continue; bool edge = true; for (int k = 0; k < h.n && edge; ++k) { double ex = h.c[k].x - h.c[i].x, ey = h.c[k].y - h.c[i].y, d = dx * ey - dy * ex, t = (ex * dx + ey * dy) / (l * l); if (d < -1e-9 * l || (d < 1e-9 * l && (t < -1e-9 || t > 1 + 1e-9))) edge = false; } if (edge) h.e[h.m++] = {h.c[i].x, h.c[i].y, dx / l, dy / l, l}; } }
// how far inside the hull of circles; negative outside
double In(const Hull& h, double x, double y) {
  if (h.m == 0) { double dx = x - h.c[0].x, dy = y - h.c[0].y; return h.c[0].r - __builtin_sqrt(dx * dx + dy * dy); } double in = 1e9, off = 1e9; for (int k = 0; k < h.m; ++k) { const Edge& e = h.e[k]; double px = x - e.x, py = y - e.y, t = px * e.dx + py * e.dy, d = e.dx * py - e.dy * px; in = d < in ? d : in; double q = t < 0 ? t : t > e.len ? t - e.len : 0, o = q * q + d * d; off = o < off ? o : off; } return h.c[0].r + (in > 0 ? in : -__builtin_sqrt(off));
}
void Add(Hull& s, double x, double y, Tip t) { double hw = t.w / 2, hh = t.h / 2, m = hw < hh ? hw : hh, r = t.round * m, px = hw - r, py = hh - r; for (int i = 0; i < 4; ++i) { double ux = i == 0 || i == 3 ? px : -px, uy = i < 2 ? py : -py, c = __builtin_cos(t.turn), v = __builtin_sin(t.turn); if ((px == 0 && (i == 1 || i == 2)) || (py == 0 && i > 1)) continue; s.c[s.n++] = {x + ux * c - uy * v, y + ux * v + uy * c, r}; } }
BrushTipState State(double x, double y, Tip t, int k) { BrushTipState s{}; s.position = {float(x), float(y)}; s.width = float(t.w); s.height = float(t.h); s.percent_radius = float(t.round); s.rotation = Angle::Radians(float(t.turn)); s.opacity_multiplier = ai_f32_in(1 + .1 * k, 1.05 + .1 * k, "opacity"); s.hue_offset_in_full_turns = ai_f32_in(0, 1, "hue"); s.saturation_multiplier = ai_f32_in(0, 2, "saturation"); s.luminosity_shift = ai_f32_in(-1, 1, "luminosity"); return s; }
// a stroke of up to eight states
struct Path { int n = 0; double x[8], y[8]; Tip t[8]; BrushTipState s[8]; };
Path Bend(int n, Tip t, double dir, const double* turn, double step) { Path p; p.n = n; double x = .3, y = -.2; for (int i = 0; i < n; ++i) { if (i) { dir += turn[i - 1]; x += step * __builtin_cos(dir); y += step * __builtin_sin(dir); } p.x[i] = x; p.y[i] = y; p.t[i] = t; p.s[i] = State(x, y, t, i); } return p; }
struct Tri { Point a, b, c; double x0, x1, y0, y1; };
std::vector<Tri> Triangles(const MutableMesh& m) { std::vector<Tri> v; for (uint32_t i = 0; i < m.TriangleCount(); ++i) { auto k = m.TriangleIndices(i); ai_assert(k[0] < m.VertexCount() && k[1] < m.VertexCount() && k[2] < m.VertexCount(), "triangles-of-existing-vertices"); Tri t{m.VertexPosition(k[0]), m.VertexPosition(k[1]), m.VertexPosition(k[2]), 0, 0, 0, 0}; t.x0 = std::min({t.a.x, t.b.x, t.c.x}); t.x1 = std::max({t.a.x, t.b.x, t.c.x}); t.y0 = std::min({t.a.y, t.b.y, t.c.y}); t.y1 = std::max({t.a.y, t.b.y, t.c.y}); v.push_back(t); } return v; }
double Cross(Point a, Point b, double x, double y) { return ((double)b.x - a.x) * (y - a.y) - ((double)b.y - a.y) * (x - a.x); }
bool Covered(const std::vector<Tri>& v, double x, double y) { for (const Tri& t : v) { if (x < t.x0 || x > t.x1 || y < t.y0 || y > t.y1) continue; double p = Cross(t.a, t.b, x, y), q = Cross(t.b, t.c, x, y), r = Cross(t.c, t.a, x, y); if (p + q + r > 1e-9 && p > -1e-9 && q > -1e-9 && r > -1e-9) return true; } return false; }
// winding of the point in all outlines together
bool InOutline(const MutableMesh& m, absl::Span<const StrokeOutline> outlines, double x, double y) { int w = 0; for (const StrokeOutline& o : outlines) { auto k = o.GetIndices(); for (size_t i = 0; i < k.size(); ++i) { Point a = m.VertexPosition(k[i]), b = m.VertexPosition(k[i + 1 == k.size() ? 0 : i + 1]); if ((a.y <= y) != (b.y <= y)) { double s = Cross(a, b, x, y); if (a.y <= y ? s > 0 : s < 0) w += a.y <= y ? 1 : -1; } } } return w != 0; }
#ifdef AI_THOROUGH
constexpr int kG = 22;
#else
constexpr int kG = 12;
#endif
// the mesh and the outline cover the hulls of neighbouring tips, up to the tolerances of the brush, and nothing else
void Covers(const std::vector<Hull>& ink, const MutableMesh& m, absl::Span<const StrokeOutline> o, double tol, const char* inside, const char* outside) {
  double x0 = 1e9, x1 = -1e9, y0 = 1e9, y1 = -1e9; for (const Hull& h : ink) { double r = Support(h, 0), l = -Support(h, kPi), t = Support(h, kPi / 2), b = -Support(h, 1.5 * kPi); x1 = r > x1 ? r : x1; x0 = l < x0 ? l : x0; y1 = t > y1 ? t : y1; y0 = b < y0 ? b : y0; } std::vector<Tri> v = Triangles(m); double mx = (x1 - x0) / kG, my = (y1 - y0) / kG;
  for (int i = -1; i <= kG + 1; ++i) for (int j = -1; j <= kG + 1; ++j) { double x = x0 + (i + .013) * mx, y = y0 + (j + .017) * my, in = -1e9; for (const Hull& h : ink) { double d = In(h, x, y); in = d > in ? d : in; } if (in > tol) { ai_assert(Covered(v, x, y), inside); ai_assert(InOutline(m, o, x, y), inside); } else if (in < -tol) { ai_assert(!Covered(v, x, y), outside); ai_assert(!InOutline(m, o, x, y), outside); } }
}
// every vertex carries the values of one of the states, and lies on that state's tip (or inside where the outline turns inwards)
void Attributes(const Path& p, const MutableMesh& m, double tol) {
  for (uint32_t i = 0; i < m.VertexCount(); ++i) { StrokeVertex v = StrokeVertex::GetFromMesh(m, i); const auto& a = v.non_position_attributes; int k = -1; for (int j = 0; j < p.n; ++j) if (ai_and(ai_fle(.1 * j - .02, a.opacity_shift), ai_fle(a.opacity_shift, .1 * j + .07))) k = j; ai_assert(k >= 0, "values-of-one-state"); if (k < 0) continue; const BrushTipState& s = p.s[k]; ai_same(a.opacity_shift, (double)s.opacity_multiplier - 1, 1e-6, "opacity-shift-of-the-state"); ai_ident_f(a.hsl_shift[0], s.hue_offset_in_full_turns, "hue-shift-of-the-state"); ai_same(a.hsl_shift[1], (double)s.saturation_multiplier - 1, 1e-6, "saturation-shift-of-the-state"); ai_ident_f(a.hsl_shift[2], s.luminosity_shift, "luminosity-shift-of-the-state"); ai_assert(a.surface_uv.x == 0 && a.surface_uv.y == 0, "no-surface-texture"); Hull h; Add(h, p.x[k], p.y[k], p.t[k]); Close(h); ai_assert(In(h, v.position.x, v.position.y) > -tol, "vertex-at-the-tip-of-its-state"); }
}
void Bounds(const MutableMesh& m, const Envelope& e) { ai_assert(e.AsRect().has_value() == (m.VertexCount() > 0), "bounds-of-all-vertices"); if (m.VertexCount() == 0 || !e.AsRect()) return; float x0 = kFMax, x1 = -kFMax, y0 = kFMax, y1 = -kFMax; for (uint32_t i = 0; i < m.VertexCount(); ++i) { Point p = m.VertexPosition(i); x0 = p.x < x0 ? p.x : x0; x1 = p.x > x1 ? p.x : x1; y0 = p.y < y0 ? p.y : y0; y1 = p.y > y1 ? p.y : y1; } Rect r = *e.AsRect(); ai_assert(r.XMin() == x0 && r.XMax() == x1 && r.YMin() == y0 && r.YMax() == y1, "bounds-of-all-vertices"); }
// all vertices lie on exactly one outline each, and each triangle within one of them; triangles go counter-clockwise
void Outlines(const MutableMesh& m, absl::Span<const StrokeOutline> o, int strokes) {
  std::vector<int> of(m.VertexCount(), -1); int used = 0; for (size_t i = 0; i < o.size(); ++i) { auto k = o[i].GetIndices(); if (k.empty()) continue; ++used; ai_assert(k.size() >= 3, "outlines-of-three-or-more"); for (uint32_t j : k) { ai_assert(j < m.VertexCount(), "outlines-of-existing-vertices"); if (j >= m.VertexCount()) continue; ai_assert(of[j] < 0, "every-vertex-on-one-outline"); of[j] = (int)i; } }
  ai_assert(used == strokes, "one-outline-per-unbroken-part"); for (int k : of) ai_assert(k >= 0, "every-vertex-on-one-outline"); for (uint32_t i = 0; i < m.TriangleCount(); ++i) { auto k = m.TriangleIndices(i); ai_assert(of[k[0]] == of[k[1]] && of[k[1]] == of[k[2]], "triangles-within-one-outline"); Point a = m.VertexPosition(k[0]), b = m.VertexPosition(k[1]), c = m.VertexPosition(k[2]); ai_assert(Cross(a, b, c.x, c.y) > -1e-6, "counter-clockwise-triangles"); }
}
std::vector<Hull> Ink(const Path& p) { std::vector<Hull> v; for (int i = 0; i < p.n; ++i) { Hull h; Add(h, p.x[i], p.y[i], p.t[i]); if (i + 1 < p.n) Add(h, p.x[i + 1], p.y[i + 1], p.t[i + 1]); else if (i) break; Close(h); v.push_back(h); } return v; }
absl::Span<const BrushTipState> Part(const Path& p, int from, int to) { return absl::MakeConstSpan(p.s + from, size_t(to - from)); }
}
PROP(extrude_dot) { int k = (int)ai_split(ai_i32(0, 3, "tip")), v = (int)ai_split(ai_i32(0, 1, "volatile")); double none[1] = {}; Path p = Bend(1, kTips[k], 0, none, 1); MutableMesh m(StrokeVertex::FullMeshFormat()); BrushTipExtruder e; e.StartStroke(kEps, false, m); if (v) e.ExtendStroke({}, Part(p, 0, 1)); else e.ExtendStroke(Part(p, 0, 1), {}); Outlines(m, e.GetOutlines(), 1); Bounds(m, e.GetBounds()); Attributes(p, m, .01); Covers(Ink(p), m, e.GetOutlines(), .05, "covers-the-tip", "nothing-but-the-tip"); }
namespace {
void OnePath(int k) {
  int a = (int)ai_split(ai_i32(-2, 2, "turn1")), b = (int)ai_split(ai_i32(-2, 2, "turn2")), n = (int)ai_split(ai_i32(2, 4, "states")), z = (int)ai_split(ai_i32(0, 1, "step")), f = (int)ai_split(ai_i32(0, 4, "fixed")); if (f > n || (n == 2 && (a || b)) || (n == 3 && b)) ai_stop();
#ifndef AI_THOROUGH
  if (n == 4 && (a + 3 * b + k + z + f + 20) % 8) ai_stop(); if (n == 3 && (a + k + z + f + 20) % 3) ai_stop(); if (n == 2 && (k + z + f) % 2) ai_stop();
#endif
  double turn[3] = {.55 * a, .55 * b, 0}; Path p = Bend(n, kTips[k], .4 + k, turn, z ? 1.7 : .8); MutableMesh m(StrokeVertex::FullMeshFormat()); BrushTipExtruder e; e.StartStroke(kEps, false, m); e.ExtendStroke(Part(p, 0, f), Part(p, f, n)); Outlines(m, e.GetOutlines(), 1); Bounds(m, e.GetBounds()); if (a == 0 && b == 0) Attributes(p, m, .05); Covers(Ink(p), m, e.GetOutlines(), .06, "covers-the-path", "nothing-but-the-path");
}
}
PROP(extrude_path_circle) { OnePath(0); }
PROP(extrude_path_pill) { OnePath(1); }
PROP(extrude_path_rounded) { OnePath(2); }
PROP(extrude_path_sharp) { OnePath(3); }
// ---- several steps
namespace {
struct Snap { std::vector<StrokeVertex> v; std::vector<std::array<uint32_t, 3>> t; };
Snap SnapOf(const MutableMesh& m) { Snap s; for (uint32_t i = 0; i < m.VertexCount(); ++i) s.v.push_back(StrokeVertex::GetFromMesh(m, i)); for (uint32_t i = 0; i < m.TriangleCount(); ++i) s.t.push_back(m.TriangleIndices(i)); return s; }
bool SamePlace(const StrokeVertex& a, const StrokeVertex& b) { return a.position.x == b.position.x && a.position.y == b.position.y; }
void SameValues(const StrokeVertex& a, const StrokeVertex& b, const char* id) { ai_ident_f(a.position.x, b.position.x, id); ai_ident_f(a.position.y, b.position.y, id); const auto &p = a.non_position_attributes, &q = b.non_position_attributes; ai_ident_f(p.opacity_shift, q.opacity_shift, id); for (int i = 0; i < 3; ++i) ai_ident_f(p.hsl_shift[i], q.hsl_shift[i], id); ai_ident_f(p.surface_uv.x, q.surface_uv.x, id); ai_ident_f(p.surface_uv.y, q.surface_uv.y, id); }
void SameDerivatives(const StrokeVertex& a, const StrokeVertex& b, const char* id) { const auto &p = a.non_position_attributes, &q = b.non_position_attributes; ai_ident_f(p.side_derivative.x, q.side_derivative.x, id); ai_ident_f(p.side_derivative.y, q.side_derivative.y, id); ai_ident_f(p.forward_derivative.x, q.forward_derivative.x, id); ai_ident_f(p.forward_derivative.y, q.forward_derivative.y, id); ai_ident_f(p.side_label.encoded_value, q.side_label.encoded_value, id); ai_ident_f(p.forward_label.encoded_value, q.forward_label.encoded_value, id); }
// what the update says is unchanged is unchanged, and its region covers what changed
void Updated(const Snap& a, const Snap& b, const StrokeShapeUpdate& u) {
  size_t fv = u.first_vertex_offset ? *u.first_vertex_offset : b.v.size(), ft = u.first_index_offset ? *u.first_index_offset / 3 : b.t.size(); ai_assert(!u.first_index_offset || *u.first_index_offset % 3 == 0, "index-offset-of-a-triangle"); ai_assert(fv <= b.v.size() && fv <= a.v.size() && ft <= b.t.size() && ft <= a.t.size(), "offsets-within-the-mesh"); ai_assert(u.first_vertex_offset || a.v.size() == b.v.size(), "no-offset-no-change"); ai_assert(u.first_index_offset || a.t.size() == b.t.size(), "no-offset-no-change"); if (fv > a.v.size() || fv > b.v.size() || ft > a.t.size() || ft > b.t.size()) return;
  for (size_t i = 0; i < fv; ++i) { SameValues(a.v[i], b.v[i], "vertices-before-the-offset-unchanged"); SameDerivatives(a.v[i], b.v[i], "vertices-before-the-offset-unchanged"); } bool kept = true; for (size_t i = 0; i < ft; ++i) kept = kept && a.t[i] == b.t[i]; ai_assert(kept, "triangles-before-the-offset-unchanged");
  auto rect = u.region.AsRect(); auto inside = [&](Point p) { return rect && p.x >= rect->XMin() && p.x <= rect->XMax() && p.y >= rect->YMin() && p.y <= rect->YMax(); }; auto look = [&](const Snap& p, const Snap& q) { for (size_t i = 0; i < p.t.size(); ++i) { bool same = i < q.t.size() && p.t[i] == q.t[i]; for (uint32_t k : p.t[i]) if (same && (k >= q.v.size() || !SamePlace(p.v[k], q.v[k]))) same = false; if (!same) for (uint32_t k : p.t[i]) ai_assert(inside(p.v[k].position), "region-covers-changed-triangles"); } }; look(a, b); look(b, a);
}
void Step(BrushTipExtruder& e, const MutableMesh& m, absl::Span<const BrushTipState> f, absl::Span<const BrushTipState> v) { Snap a = SnapOf(m); StrokeShapeUpdate u = e.ExtendStroke(f, v); Updated(a, SnapOf(m), u); Bounds(m, e.GetBounds()); }
std::vector<std::vector<uint32_t>> Rings(absl::Span<const StrokeOutline> o) { std::vector<std::vector<uint32_t>> r; for (const StrokeOutline& x : o) { auto k = x.GetIndices(); if (!k.empty()) r.emplace_back(k.begin(), k.end()); } return r; }
void Same(const MutableMesh& m, const BrushTipExtruder& e, const MutableMesh& n, const BrushTipExtruder& f, bool derivatives) {
  Snap a = SnapOf(m), b = SnapOf(n); ai_assert(a.v.size() == b.v.size() && a.t.size() == b.t.size(), "same-mesh"); if (a.v.size() != b.v.size() || a.t.size() != b.t.size()) return; for (size_t i = 0; i < a.v.size(); ++i) { SameValues(a.v[i], b.v[i], "same-vertices"); if (derivatives) SameDerivatives(a.v[i], b.v[i], "same-derivatives"); } for (size_t i = 0; i < a.t.size(); ++i) ai_assert(a.t[i] == b.t[i], "same-triangles"); ai_assert(Rings(e.GetOutlines()) == Rings(f.GetOutlines()), "same-outlines");
  auto p = e.GetBounds().AsRect(), q = f.GetBounds().AsRect(); ai_assert(p.has_value() == q.has_value(), "same-bounds"); if (p && q) ai_assert(p->XMin() == q->XMin() && p->XMax() == q->XMax() && p->YMin() == q->YMin() && p->YMax() == q->YMax(), "same-bounds");
}
// continuations of a stroke that goes from (0,0) along x: straight on, sharply back, a tip containing everything, a gap, a gap and another part, a tip inside the last, a part without area and one that is replaced, none
constexpr int kTails = 8;
std::vector<BrushTipState> Tail(int kind, int from) { double x = from * .9; Tip t = kTips[0], big{7, 7, 1, 0}, none{0, 0, 0, 0}, small{.4, .4, 1, 0}; switch (kind) { case 0: return {State(x, .1, t, from), State(x + .8, .3, t, from + 1)}; case 1: return {State(x - .3, .9, t, from), State(x - 1.2, .4, t, from + 1)}; case 2: return {State(x - 1, .2, big, from)}; case 3: return {State(x, 0, none, from)}; case 4: return {State(x, 0, none, from), State(x + 1, .5, t, from + 1), State(x + 1.9, .7, t, from + 2)}; case 5: return {State(x - .85, .02, small, from)}; case 6: return {State(x, 0, none, from), State(x + 1, 0, {.2, 0, 0, 0}, from + 1), State(x + 1, 0, none, from), State(x + 4, 0, small, from), State(x + 4.3, 0, small, from + 1), State(x + 4.1, .1, {1.6, 1.6, 1, 0}, from + 2)}; } return {}; }
std::vector<BrushTipState> Line(int from, int to) { std::vector<BrushTipState> v; for (int i = from; i < to; ++i) v.push_back(State(i * .9, .15 * (i & 1), kTips[0], i)); return v; }
}
namespace {
// any path of changing tips, whichever volatile states there were
struct Rng { uint32_t s; explicit Rng(int seed) : s(seed * 2654435761u + 12345u) { Next(); Next(); } uint32_t Next() { s = s * 1664525u + 1013904223u; return s >> 8; } int N(int k) { return int(Next() % k); } double U(double a, double b) { return a + (b - a) * (Next() % 10000) / 1e4; } };
struct Walk { Rng r; int mode; Tip base; double x = 0, y = 0, dir; int k = 0; };
BrushTipState Next(Walk& w) {
  Rng& r = w.r; Tip t = w.base; if (w.mode >= 1 && r.N(4) == 0) { double f = r.U(.2, 3); t.w *= f; t.h *= f; }
  if (w.mode >= 2 && r.N(3) == 0) t.turn += r.U(-1, 1);
  if (r.N(10) == 0) t = {0, 0, 0, 0}; else if (w.mode == 5 && r.N(3) == 0) { t.w = r.U(.1, 5); t.h = r.U(0, 5); }
  BrushTipState s = State(w.x, w.y, t, w.k++ % 8); if (w.mode == 4) s.pinch = float(r.U(0, 1));
  w.dir += w.mode == 3 ? r.U(-2.5, 2.5) : r.U(-.9, .9); double step = r.U(0, 1.2); w.x += step * __builtin_cos(w.dir); w.y += step * __builtin_sin(w.dir); return s;
}
std::vector<BrushTipState> Ahead(Walk w, int turn, int n) { w.r = Rng(turn); std::vector<BrushTipState> v; for (; n > 0; --n) v.push_back(Next(w)); return v; }
#ifdef AI_THOROUGH
constexpr int kWalks = 24;
#else
constexpr int kWalks = 6;
#endif
void VolatileWalk(int mode) {
  int seed = (int)ai_split(ai_i32(0, kWalks - 1, "walk")); Rng r(seed * 6 + mode); Walk w{r, mode, {r.U(.3, 2), r.U(.3, 2), r.N(3) == 0 ? 1 : r.U(0, 1), r.U(-3, 3)}, 0, 0, r.U(-3, 3)};
  float eps = float(r.U(.05, .2)); MutableMesh a(StrokeVertex::FullMeshFormat()), b(StrokeVertex::FullMeshFormat()); BrushTipExtruder e, h; e.StartStroke(eps, false, a); h.StartStroke(eps, false, b); int n = 2 + r.N(3);
  for (int i = 0; i < n; ++i) { std::vector<BrushTipState> f; for (int q = r.N(4); q > 0; --q) f.push_back(Next(w)); int some = r.N(5); auto u = Ahead(w, seed * 50 + i, some), v = some && i + 1 < n ? Ahead(w, seed * 50 + i + 25, 1 + r.N(4)) : u; Step(e, a, f, u); Step(h, b, f, v); }
  Same(a, e, b, h, false); Triangles(a);
}
}
PROP(volatile_walk_same) { VolatileWalk(0); }
PROP(volatile_walk_sizes) { VolatileWalk(1); }
PROP(volatile_walk_turns) { VolatileWalk(2); }
PROP(volatile_walk_wild) { VolatileWalk(3); }
PROP(volatile_walk_pinch) { VolatileWalk(4); }
PROP(volatile_walk_flat) { VolatileWalk(5); }
// whichever volatile states there were, nothing of them is left
void VolatileTrace(int k) {
  int j = (int)ai_split(ai_i32(0, kTails - 1, "other")), n = (int)ai_split(ai_i32(0, 3, "fixed")), l = (int)ai_split(ai_i32(0, 2, "more")), w = (int)ai_split(ai_i32(0, kTails - 1, "last")); if (j <= k) ai_stop();
#ifndef AI_THOROUGH
  if ((k + 2 * j + 5 * n + 3 * l + 7 * w) % 17) ai_stop();
#endif
  auto f = Line(0, n), g = Line(n, n + l), v1 = Tail(k, n), v2 = Tail(j, n), last = Tail(w, n + l); MutableMesh a(StrokeVertex::FullMeshFormat()), b(StrokeVertex::FullMeshFormat()); BrushTipExtruder e, h; e.StartStroke(.1f, false, a); h.StartStroke(.1f, false, b); Step(e, a, f, v1); h.ExtendStroke(f, v2); Step(e, a, g, last); Step(h, b, g, last); Same(a, e, b, h, false);
}
// volatile states of one step show in none of three further ones
PROP(volatile_later) {
  int k = (int)ai_split(ai_i32(0, kTails - 2, "tail")), n = (int)ai_split(ai_i32(1, 3, "fixed")), again = (int)ai_split(ai_i32(0, 1, "again"));
#ifndef AI_THOROUGH
  if (k != 2 ? (k + n + 3 * again) % 7 != 0 : (n + again) % 2 != 0) ai_stop();
#endif
  MutableMesh a(StrokeVertex::FullMeshFormat()), b(StrokeVertex::FullMeshFormat()); BrushTipExtruder e, h; e.StartStroke(.1f, false, a); h.StartStroke(.1f, false, b); auto all = Line(0, n + 3), tail = Tail(k, n); absl::Span<const BrushTipState> l = absl::MakeConstSpan(all), none;
  Step(e, a, l.subspan(0, n), none); h.ExtendStroke(l.subspan(0, n), none); Step(e, a, none, tail);
  for (int i = n; i < n + 3; ++i) { std::vector<BrushTipState> big; if (again && i < n + 2) big = Tail(2, i + 1); Step(e, a, l.subspan(i, 1), big); h.ExtendStroke(l.subspan(i, 1), none); if (!again || i == n + 2) Same(a, e, b, h, false); }
}
PROP(volatile_straight) { VolatileTrace(0); }
PROP(volatile_back) { VolatileTrace(1); }
PROP(volatile_big) { VolatileTrace(2); }
PROP(volatile_gap) { VolatileTrace(3); }
PROP(volatile_part) { VolatileTrace(4); }
PROP(volatile_inside) { VolatileTrace(5); }
PROP(volatile_thin) { VolatileTrace(6); }
// a stroke in one go or cut anywhere into several, with volatile states in between: the same mesh
void SplitAnywhere(int k) {
  int a = (int)ai_split(ai_i32(-2, 2, "turn1")), b = (int)ai_split(ai_i32(-2, 2, "turn2")), c = (int)ai_split(ai_i32(1, 4, "cut")), d = (int)ai_split(ai_i32(0, 1, "volatile"));
#ifndef AI_THOROUGH
  if ((a + 3 * b + c + k + d + 20) % 6) ai_stop();
#endif
  double turn[4] = {.5 * a, .5 * b, -.4 * a, 0}; Path p = Bend(5, kTips[k], .3 + k, turn, .9); MutableMesh m(StrokeVertex::FullMeshFormat()), n(StrokeVertex::FullMeshFormat()); BrushTipExtruder e, f; e.StartStroke(.1f, false, m); f.StartStroke(.1f, false, n); Step(e, m, Part(p, 0, 5 - d), Part(p, 5 - d, 5)); Step(f, n, Part(p, 0, c), d ? Part(p, c, 5) : Part(p, 0, 0)); Step(f, n, Part(p, c, 5 - d), Part(p, 5 - d, 5)); Same(m, e, n, f, false);
}
PROP(split_circle) { SplitAnywhere(0); }
PROP(split_pill) { SplitAnywhere(1); }
PROP(split_sharp) { SplitAnywhere(3); }
// parts with gaps in between: every part covers its own ink
PROP(break_parts) {
  int k = (int)ai_split(ai_i32(0, 3, "tip")), g = (int)ai_split(ai_i32(1, 3, "gap")), two = (int)ai_split(ai_i32(0, 1, "gaps")), f = (int)ai_split(ai_i32(0, 6, "fixed")); if ((k + 2 * g + 3 * two + 5 * f) % 9) ai_stop();
  Path p; p.n = 6; bool gap[6] = {}; gap[g] = true; if (two) gap[4] = true; int parts = 1 + (two && g != 3 ? 2 : two ? 1 : 1); for (int i = 0; i < 6; ++i) { p.x[i] = i * 1.1; p.y[i] = .1 * i; p.t[i] = kTips[k]; Tip none{.01, .01, 1, 0}; p.s[i] = State(p.x[i], p.y[i], gap[i] ? none : kTips[k], i); }
  std::vector<Hull> ink; for (int i = 0; i < 6; ++i) { if (gap[i]) continue; bool next = i + 1 < 6 && !gap[i + 1], last = i > 0 && !gap[i - 1]; if (!next && last) continue; Hull h; Add(h, p.x[i], p.y[i], p.t[i]); if (next) Add(h, p.x[i + 1], p.y[i + 1], p.t[i + 1]); Close(h); ink.push_back(h); }
  MutableMesh m(StrokeVertex::FullMeshFormat()); BrushTipExtruder e; e.StartStroke(kEps, false, m); Step(e, m, Part(p, 0, f), Part(p, f, 6)); Outlines(m, e.GetOutlines(), parts); Bounds(m, e.GetBounds()); Attributes(p, m, .05); Covers(ink, m, e.GetOutlines(), .06, "covers-every-part", "nothing-in-the-gaps");
}
// a tip inside the last one adds nothing; a tip around everything since the last gap replaces it; around the last only starts anew
PROP(contained) {
  int c = (int)ai_split(ai_i32(0, 3, "case")), v = (int)ai_split(ai_i32(0, 2, "volatile")), z = (int)ai_split(ai_i32(0, 1, "gap")); Tip t = kTips[0], small{.4, .3, 1, .2}, big{4, 4, 1, 0}, mid{2, 2, 1, 0}, none{}; std::vector<BrushTipState> a, b; if (z) { a = {State(-9, 0, t, 0), State(-9, 0, none, 0)}; b = a; } std::vector<BrushTipState> s;
  if (c == 0) { s = {State(0, 0, t, 1), State(.1, 0, small, 2), State(1, 0, t, 3)}; b.push_back(s[0]); b.push_back(s[2]); } else if (c == 1) { s = {State(0, 0, t, 1), State(.9, .2, t, 2), State(.5, 0, big, 3)}; b.push_back(s[2]); } else if (c == 2) { s = {State(0, 0, t, 1), State(0, .1, mid, 2), State(2, 0, t, 3)}; b.push_back(s[1]); b.push_back(s[2]); } else { s = {State(-5, 0, t, 1), State(-3, 0, t, 2), State(0, 0, t, 3), State(.2, 0, mid, 4)}; b.push_back(s[0]); b.push_back(s[1]); b.push_back(s[2]); b.push_back(State(0, 0, none, 5)); b.push_back(s[3]); }
  a.insert(a.end(), s.begin(), s.end()); size_t f = v == 0 ? a.size() : v == 1 ? 0 : a.size() - 1; MutableMesh m(StrokeVertex::FullMeshFormat()), n(StrokeVertex::FullMeshFormat()); BrushTipExtruder e, h; e.StartStroke(.1f, false, m); h.StartStroke(.1f, false, n); auto all = absl::MakeConstSpan(a); Step(e, m, all.subspan(0, f), all.subspan(f)); size_t q = v == 0 ? b.size() : v == 1 ? 0 : b.size() - (c == 3 ? 2 : 1); auto ref = absl::MakeConstSpan(b); Step(h, n, ref.subspan(0, q), ref.subspan(q)); Same(m, e, n, h, false); Outlines(m, e.GetOutlines(), 1 + z + (c == 3));
}
// starting again, on another mesh, starts from nothing
PROP(restart) {
  int w = (int)ai_split(ai_i32(0, kTails - 1, "before")), n = (int)ai_split(ai_i32(0, 2, "fixed")); auto f = Line(0, n), v = Tail(w, n), g = Line(2, 4); MutableMesh a(StrokeVertex::FullMeshFormat()), b(StrokeVertex::FullMeshFormat()), c(StrokeVertex::FullMeshFormat()); BrushTipExtruder e, h; e.StartStroke(.05f, true, a); e.ExtendStroke(f, v); e.StartStroke(.1f, false, b); ai_assert(e.GetBounds().IsEmpty() && Rings(e.GetOutlines()).empty(), "nothing-after-starting"); h.StartStroke(.1f, false, c); Step(e, b, {}, {}); ai_assert(b.VertexCount() == 0 && b.TriangleCount() == 0 && e.GetBounds().IsEmpty() && Rings(e.GetOutlines()).empty(), "nothing-from-nothing"); Step(e, b, g, {}); Step(h, c, g, {}); Same(b, e, c, h, true);
}
PROP(start_bad) { ai_opt("allow-check-failure"); MutableMesh m(StrokeVertex::FullMeshFormat()); BrushTipExtruder e; int k = (int)ai_split(ai_i32(0, 1, "case")); if (k == 0) { float x = ai_bool("nan") ? std::numeric_limits<float>::quiet_NaN() : ai_f32_in(-kInf, 0, "epsilon"); e.StartStroke(x, false, m); } else e.ExtendStroke({}, {}); ai_assert(false, "never-without-a-valid-start"); }
// particles carry texture coordinates over their own rectangle
PROP(particle_uv) {
  int k = (int)ai_split(ai_i32(0, 3, "tip")), v = (int)ai_split(ai_i32(0, 1, "volatile")); Tip t = kTips[k], none{}; Path p; p.n = 4; for (int i = 0; i < 4; ++i) { p.x[i] = 3 * (i / 2) + .5; p.y[i] = i / 2 - 1.; Tip u = t; u.turn += .7 * i; p.t[i] = u; p.s[i] = State(p.x[i], p.y[i], i % 2 ? none : u, i); }
  MutableMesh m(StrokeVertex::FullMeshFormat()); BrushTipExtruder e; e.StartStroke(kEps, true, m); if (v) Step(e, m, {}, Part(p, 0, 4)); else Step(e, m, Part(p, 0, 4), {}); ai_assert(m.VertexCount() > 6, "two-particles"); for (uint32_t i = 0; i < m.VertexCount(); ++i) { StrokeVertex w = StrokeVertex::GetFromMesh(m, i); int j = w.position.x < 2 ? 0 : 2; double dx = w.position.x - p.x[j], dy = w.position.y - p.y[j], c = __builtin_cos(p.t[j].turn), s = __builtin_sin(p.t[j].turn), uu = .5 + (dx * c + dy * s) / p.t[j].w, vv = .5 + (dy * c - dx * s) / p.t[j].h; Point q = w.non_position_attributes.surface_uv; ai_near(q.x, uu, 1e-3, "texture-over-the-rectangle-of-the-particle"); ai_near(q.y, vv, 1e-3, "texture-over-the-rectangle-of-the-particle"); ai_assert(q.x >= 0 && q.x <= 1 && q.y >= 0 && q.y <= 1, "texture-coordinates-in-range"); }
}
// inputs whose turns make the extruder move vertices of the permanent part
PROP(bounds_moved) {
  int k = (int)ai_split(ai_i32(0, 2, "case")); auto tip = [](float x, float y, float w, float h, float r, float t, float p) { BrushTipState s{}; s.position = {x, y}; s.width = w; s.height = h; s.percent_radius = r; s.rotation = Angle::Radians(t); s.pinch = p; s.opacity_multiplier = ai_f32_in(0, 2, "opacity"); return s; }; std::vector<BrushTipState> f1, v1, f2, v2; float eps = k == 0 ? .162390918f : k == 1 ? .0775382295f : .172339574f;
  if (k == 0) { auto t = [&](float x, float y) { return tip(x, y, 3.55115f, 1.41579f, 0, 0, 0); }; f1 = {t(.443216085f, -.00384670682f), t(.794013858f, -.0242257193f), t(1.50118244f, -.00108657836f)}; v1 = {t(4.25296259f, .296967119f)}; f2 = {t(3.46707511f, .500478268f)}; } else if (k == 1) { auto t = [&](float x, float y) { return tip(x, y, 1.79734f, 2.18708f, .433469f, 0, .845103f); }; f1 = {t(-.690033436f, -.293771267f), t(-1.96560895f, -.516162634f), t(-2.36404204f, -.508711636f)}; v1 = {t(-3.01164794f, -.376918107f), t(-3.38129115f, -.408763081f), t(-3.72329807f, -.342732936f)}; f2 = {t(-3.32981539f, -.288271129f), t(-5.61013269f, .680181265f)}; v2 = {t(-5.89640522f, .698549807f), t(-7.39575672f, .48696357f), t(-5.99432135f, .826894045f), t(-3.09281945f, 1.49298048f)}; } else { auto t = [&](float x, float y) { return tip(x, y, 3.47331f, 3.00209f, .6543f, 2.16442f, 0); }; f1 = {t(-1.68565941f, -2.12616372f), t(-3.94738293f, -3.79413319f), t(-2.56939006f, -3.38946509f)}; v1 = {t(-2.71907425f, -3.19232321f)}; f2 = {t(-4.02594519f, -2.0363059f)}; }
  MutableMesh m(StrokeVertex::FullMeshFormat()); BrushTipExtruder e; e.StartStroke(eps, false, m); Step(e, m, f1, v1); Step(e, m, f2, v2); Step(e, m, {}, {}); Step(e, m, f2, v2);
}
