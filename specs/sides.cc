// X09: the two-sided geometry under the extruder, driven directly through turns sharper than tips make.
#include <array>
#include <vector>
#include "specs/common.h"
#include "ink/geometry/envelope.h"
#include "ink/geometry/mutable_mesh.h"
#include "ink/geometry/point.h"
#include "ink/strokes/internal/brush_tip_extruder/geometry.h"
#include "ink/strokes/internal/brush_tip_state.h"
#include "ink/strokes/internal/legacy_vertex.h"
#include "ink/strokes/internal/stroke_vertex.h"
using namespace ink; using namespace ink::strokes_internal; using namespace ink::brush_tip_extruder_internal;
namespace {
using T3 = std::array<uint32_t, 3>;
struct Lane { std::vector<uint32_t> at; std::vector<std::pair<uint32_t, uint32_t>> jumps; };
struct Snap { std::vector<ExtrudedVertex> v; std::vector<T3> t; Lane l, r; };
Lane LaneOf(const Side& s) {
  Lane l; l.at = s.indices;
  for (const auto& d : s.intersection_discontinuities) l.jumps.push_back({d.first, d.last});
  return l;
}
Snap SnapOf(const Geometry& g) {
  Snap s; const MutableMeshView& m = g.GetMeshView();
  for (uint32_t i = 0; i < m.VertexCount(); ++i) s.v.push_back(m.GetVertex(i));
  for (uint32_t i = 0; i < m.TriangleCount(); ++i) s.t.push_back(m.GetTriangleIndices(i));
  s.l = LaneOf(g.LeftSide()); s.r = LaneOf(g.RightSide());
  return s;
}
bool SameLane(const Lane& a, const Lane& b) { return a.at == b.at && a.jumps == b.jumps; }
bool SameSpot(const ExtrudedVertex& a, const ExtrudedVertex& b) { return a.position.x == b.position.x && a.position.y == b.position.y; }
bool SameLabels(const ExtrudedVertex& a, const ExtrudedVertex& b) {
  return a.new_non_position_attributes.side_label.encoded_value == b.new_non_position_attributes.side_label.encoded_value &&
         a.new_non_position_attributes.forward_label.encoded_value == b.new_non_position_attributes.forward_label.encoded_value;
}
// the same vertices with the same values, the same triangles and the same sides
void Equal(const Snap& a, const Snap& b, const char* id) {
  bool shape = a.v.size() == b.v.size() && a.t == b.t && SameLane(a.l, b.l) && SameLane(a.r, b.r);
  ai_assert(shape, id);
  if (!shape) return;
  bool same = true;
  for (size_t i = 0; i < a.v.size(); ++i) same = same && SameSpot(a.v[i], b.v[i]) && SameLabels(a.v[i], b.v[i]);
  ai_assert(same, id);
  for (size_t i = 0; i < a.v.size(); ++i) ai_ident_f(a.v[i].new_non_position_attributes.opacity_shift, b.v[i].new_non_position_attributes.opacity_shift, id);
}
enum Kind { kLeft, kRight, kProcess, kBreak, kClear };
struct Op { Kind kind; float x = 0, y = 0, w = 0; };
struct Rng {
  uint32_t s;
  explicit Rng(int seed) : s(seed * 2654435761u + 12345u) { Next(); Next(); }
  uint32_t Next() { s = s * 1664525u + 1013904223u; return s >> 8; }
  int N(int k) { return int(Next() % k); }
  double U(double a, double b) { return a + (b - a) * (Next() % 10000) / 1e4; }
};
struct Pen { double x = 0, y = 0, dir = 0; };
// Steps of a pen of width 1: mode 0 turns anywhere, 1 mostly goes on with sudden turns, 2 winds up. Gaps, restarts and uneven sides in between.
std::vector<Op> Scribble(Rng& r, Pen& p, int mode, int steps, bool breaks) {
  std::vector<Op> v;
  for (int i = 0; i < steps; ++i) {
    int q = r.N(14);
    if (breaks && q == 0) { v.push_back({kBreak}); p.x += 3; } else if (breaks && q == 1) v.push_back({kClear});
    p.dir += mode == 0 ? r.U(-2, 2) : mode == 1 ? (r.N(4) == 0 ? r.U(-3.14, 3.14) : r.U(-.3, .3)) : r.U(.3, .9);
    if (r.N(12) == 0) p.dir += 3;
    double step = mode == 2 ? r.U(.1, .6) : r.U(.05, 1.5), c = __builtin_cos(p.dir), s = __builtin_sin(p.dir);
    p.x += step * c; p.y += step * s;
    int k = r.N(8);
    if (k != 0) v.push_back({kLeft, float(p.x - s / 2), float(p.y + c / 2)});
    if (k == 2) v.push_back({kLeft, float(p.x - s / 2 + r.U(-.3, .3)), float(p.y + c / 2 + r.U(-.3, .3))});
    if (k != 1) v.push_back({kRight, float(p.x + s / 2), float(p.y - c / 2)});
    if (k == 3) v.push_back({kRight, float(p.x + s / 2 + r.U(-.3, .3)), float(p.y - c / 2 + r.U(-.3, .3))});
    if (r.N(3) || i + 1 == steps) v.push_back({kProcess, 1, 1, mode == 1 ? .0625f : 1.f / 1024});
  }
  return v;
}
constexpr int kInks = 64;
struct Ink { float f[kInks]; Ink() { for (float& x : f) x = ai_f32_in(-1, 1, "opacity"); } };
void Apply(Geometry& g, const Op& o, const Ink& ink, int at) {
  switch (o.kind) {
    case kLeft: g.AppendLeftVertex(Point{o.x, o.y}, ink.f[at % kInks]); break;
    case kRight: g.AppendRightVertex(Point{o.x, o.y}, ink.f[at % kInks]); break;
    case kProcess: { BrushTipState s{}; s.width = o.x; s.height = o.y; g.ProcessNewVertices(o.w, s); break; }
    case kBreak: g.AddExtrusionBreak(); break;
    case kClear: g.ClearSinceLastExtrusionBreak(); break;
  }
}
int Run(Geometry& g, const std::vector<Op>& v, const Ink& ink, int at) { for (const Op& o : v) Apply(g, o, ink, at++); return at; }
#ifdef AI_THOROUGH
constexpr int kSeeds = 60;
#else
constexpr int kSeeds = 14;
#endif
int Seed(int n = kSeeds) { return (int)ai_split(ai_i32(0, n - 1, "history")); }
// triangles of existing vertices; every vertex in exactly one place of exactly one side
void WellFormed(const Snap& s) {
  bool ok = true;
  for (const T3& t : s.t) for (uint32_t i : t) ok = ok && i < s.v.size();
  ai_assert(ok, "triangles-of-existing-vertices");
  std::vector<int> n(s.v.size(), 0); bool in = true;
  for (uint32_t i : s.l.at) { if (i < n.size()) ++n[i]; else in = false; }
  for (uint32_t i : s.r.at) { if (i < n.size()) ++n[i]; else in = false; }
  for (int k : n) in = in && k == 1;
  ai_assert(in, "every-vertex-on-one-side-once");
}
// what the geometry says has not changed since tracking was reset has not, and its region has all that has
void Tracked(const Geometry& g, const Snap& p, const Snap& q) {
  uint32_t fv = g.GetMeshView().FirstMutatedVertex(), ft = g.GetMeshView().FirstMutatedTriangle();
  auto moved = [&](uint32_t i) { return i >= p.v.size() || i >= q.v.size() || !SameSpot(p.v[i], q.v[i]) || !SameLabels(p.v[i], q.v[i]); };
  bool v = true, t = true, lanes = true, region = true;
  for (uint32_t i = 0; i < p.v.size() && i < fv; ++i) v = v && !moved(i);
  for (uint32_t i = 0; i < p.t.size() && i < ft; ++i) t = t && i < q.t.size() && p.t[i] == q.t[i];
  ai_assert(v, "vertices-before-the-first-mutated-unchanged"); ai_assert(t, "triangles-before-the-first-mutated-unchanged");
  auto lane = [&](const Lane& a, const Lane& b, size_t lo, size_t hi) { for (size_t i = lo; i < hi && i < b.at.size(); ++i) lanes = lanes && i < a.at.size() && a.at[i] == b.at[i]; };
  Geometry::IndexCounts c = g.IndexCountsAtLastExtrusionBreak();
  lane(p.l, q.l, c.left, g.FirstMutatedLeftIndexOffsetInCurrentPartition()); lane(p.r, q.r, c.right, g.FirstMutatedRightIndexOffsetInCurrentPartition());
  ai_assert(lanes, "sides-before-the-first-mutated-offset-unchanged");
  auto box = g.CalculateVisuallyUpdatedRegion().AsRect();
  auto look = [&](const Snap& a, const Snap& b) {
    for (uint32_t i = 0; i < a.t.size(); ++i) {
      bool changed = i >= b.t.size() || a.t[i] != b.t[i];
      for (uint32_t k : a.t[i]) changed = changed || moved(k);
      if (changed) for (uint32_t k : a.t[i]) { Point z = a.v[k].position; region = region && box && z.x >= box->XMin() && z.x <= box->XMax() && z.y >= box->YMin() && z.y <= box->YMax(); }
    }
  };
  look(p, q); look(q, p);
  ai_assert(region, "region-has-every-changed-triangle");
}
// history, save, history, revert, history: as if nothing had been in between
void Withdrawn(int mode) {
  static constexpr int kRare[3][5] = {{287, 884, 906, 1097, 1173}, {385, 554, 693, 808, 1198}, {135, 349, 497, 1049, 1165}};
  int seed = Seed(4 * kSeeds + 5); if (seed >= 4 * kSeeds) seed = kRare[mode][seed - 4 * kSeeds];
  Rng r(seed * 3 + mode); Pen pen; Ink ink; bool off = seed % 7 == 6;
  auto a = Scribble(r, pen, mode, 1 + r.N(7), true); Pen keep = pen; auto b = Scribble(r, pen, mode, 2 + r.N(6), true); pen = keep; auto c = Scribble(r, pen, mode, 1 + r.N(4), true);
  MutableMesh m(StrokeVertex::FullMeshFormat()), n(StrokeVertex::FullMeshFormat());
  Geometry e{MutableMeshView(m)}, f{MutableMeshView(n)};
  if (off) { e.SetIntersectionHandling(Geometry::IntersectionHandling::kDisabled); f.SetIntersectionHandling(Geometry::IntersectionHandling::kDisabled); }
  int at = Run(e, a, ink, 0); Run(f, a, ink, 0);
  e.ResetMutationTracking(); f.ResetMutationTracking();
  Snap before = SnapOf(e); uint32_t breaks = e.ExtrusionBreakCount();
  ai_assert(!e.HasModifiedVerticesSinceSavePoint(1000), "nothing-modified-without-a-save-point");
  e.SetSavePoint(); Run(e, b, ink, at + 20);
  Snap during = SnapOf(e); WellFormed(during); Tracked(e, before, during);
  size_t first = 0; while (first < before.v.size() && first < during.v.size() && SameSpot(before.v[first], during.v[first]) && SameLabels(before.v[first], during.v[first])) ++first;
  ai_assert(first == before.v.size() || e.HasModifiedVerticesSinceSavePoint(uint32_t(first) + 1), "modified-vertices-are-known");
  { MutableMesh x(StrokeVertex::FullMeshFormat()); MutableMeshView w(x); e.DebugMakeMeshAfterSavePoint(w);
    size_t k = during.t.size() > before.t.size() ? during.t.size() - before.t.size() : 0; bool ok = during.t.size() < before.t.size() || w.TriangleCount() == k;
    for (size_t i = 0; ok && i < k; ++i) for (int j = 0; j < 3; ++j) { Point p = w.GetPosition(w.GetVertexIndex(i, j)), q = during.v[during.t[before.t.size() + i][j]].position; ok = ok && p.x == q.x && p.y == q.y; }
    ai_assert(ok, "mesh-after-the-save-point"); }
  if (seed % 2) e.ResetMutationTracking();
  e.RevertToSavePoint();
  Snap back = SnapOf(e); Equal(before, back, "revert-restores-everything"); ai_assert(e.ExtrusionBreakCount() == breaks, "revert-restores-everything");
  ai_assert(!e.HasModifiedVerticesSinceSavePoint(1000), "nothing-modified-without-a-save-point");
  Run(e, {{kProcess, 0, 0, 0}}, ink, 0); Run(f, {{kProcess, 0, 0, 0}}, ink, 0);
  { Snap x = SnapOf(e); e.RevertToSavePoint(); Equal(x, SnapOf(e), "reverts-once"); }
  Run(e, c, ink, at); Run(f, c, ink, at);
  Snap later = SnapOf(e); Equal(later, SnapOf(f), "nothing-left-of-what-was-reverted"); WellFormed(later); Tracked(e, during, later);
}
}
PROP(geometry_withdrawn_any) { Withdrawn(0); }
PROP(geometry_withdrawn_sudden) { Withdrawn(1); }
PROP(geometry_withdrawn_winding) { Withdrawn(2); }
// breaks freeze what came before; clearing goes back to the break; stable triangles stay; starting again forgets
PROP(geometry_breaks) {
  int seed = Seed(), mode = (int)ai_split(ai_i32(0, 2, "mode")); Rng r(seed * 3 + mode + 500); Pen pen; Ink ink;
  auto a = Scribble(r, pen, mode, 1 + r.N(5), true), b = Scribble(r, pen, mode, 2 + r.N(5), false);
  MutableMesh m(StrokeVertex::FullMeshFormat()); Geometry e{MutableMeshView(m)};
  int at = Run(e, a, ink, 0); uint32_t n = e.ExtrusionBreakCount(); e.AddExtrusionBreak(); ai_assert(e.ExtrusionBreakCount() == n + 1, "breaks-are-counted");
  Snap s = SnapOf(e); Geometry::IndexCounts c = e.IndexCountsAtLastExtrusionBreak(); ai_assert(c.left == s.l.at.size() && c.right == s.r.at.size(), "counts-at-the-last-break");
  Run(e, b, ink, at); Snap t = SnapOf(e); WellFormed(t);
  bool ok = t.v.size() >= s.v.size() && t.t.size() >= s.t.size() && t.l.at.size() >= s.l.at.size() && t.r.at.size() >= s.r.at.size();
  for (size_t i = 0; ok && i < s.v.size(); ++i) ok = SameSpot(s.v[i], t.v[i]) && SameLabels(s.v[i], t.v[i]);
  for (size_t i = 0; ok && i < t.t.size(); ++i) { if (i < s.t.size()) ok = s.t[i] == t.t[i]; else for (uint32_t k : t.t[i]) ok = ok && k >= s.v.size(); }
  for (size_t i = 0; ok && i < s.l.at.size(); ++i) ok = s.l.at[i] == t.l.at[i];
  for (size_t i = 0; ok && i < s.r.at.size(); ++i) ok = s.r.at[i] == t.r.at[i];
  ai_assert(ok, "breaks-freeze-what-was-before");
  e.ClearSinceLastExtrusionBreak(); Equal(s, SnapOf(e), "clearing-goes-back-to-the-break"); ai_assert(e.ExtrusionBreakCount() == n + 1, "breaks-are-counted");
  MutableMesh k(StrokeVertex::FullMeshFormat()); Geometry f{MutableMeshView(k)}; Run(f, a, ink, 0); f.AddExtrusionBreak(); Run(e, b, ink, at + 5); Run(f, b, ink, at + 5); Equal(SnapOf(e), SnapOf(f), "nothing-left-of-what-was-cleared");
}
PROP(geometry_unhandled) {
  int seed = Seed(), mode = (int)ai_split(ai_i32(0, 2, "mode")); Rng r(seed * 3 + mode + 900); Pen pen; Ink ink;
  auto a = Scribble(r, pen, mode, 2 + r.N(6), false), b = Scribble(r, pen, mode, 2 + r.N(5), false); bool save = seed % 2;
  MutableMesh m(StrokeVertex::FullMeshFormat()); Geometry e{MutableMeshView(m)}; ai_assert(e.NStableTriangles() == 0, "no-stable-triangles-while-intersections-are-handled"); int at = Run(e, {}, ink, 0);
  e.SetIntersectionHandling(Geometry::IntersectionHandling::kDisabled); at = Run(e, a, ink, at); if (save) e.SetSavePoint();
  Snap s = SnapOf(e); uint32_t n = e.NStableTriangles(); ai_assert(n <= s.t.size() && n + 2 >= s.t.size(), "all-but-two-triangles-stable");
  Run(e, b, ink, at); ai_assert(!save || e.NStableTriangles() == n, "triangles-after-the-save-point-not-stable"); if (save) e.RevertToSavePoint(); if (save) Run(e, b, ink, at + 7); Snap t = SnapOf(e); bool ok = t.t.size() >= n;
  for (uint32_t i = 0; ok && i < n; ++i) { ok = s.t[i] == t.t[i]; for (uint32_t k : s.t[i]) ok = ok && SameSpot(s.v[k], t.v[k]); }
  ai_assert(ok, "stable-triangles-stay");
  e.SetIntersectionHandling(Geometry::IntersectionHandling::kEnabled); ai_assert(e.NStableTriangles() == 0, "no-stable-triangles-while-intersections-are-handled");
}
PROP(geometry_again) {
  int seed = Seed(), mode = (int)ai_split(ai_i32(0, 2, "mode")); Rng r(seed * 3 + mode + 1300); Pen pen; Ink ink;
  auto a = Scribble(r, pen, mode, 2 + r.N(5), true), b = Scribble(r, pen, mode, 2 + r.N(5), true);
  MutableMesh m(StrokeVertex::FullMeshFormat()), o(StrokeVertex::FullMeshFormat()), n(StrokeVertex::FullMeshFormat()); std::vector<LegacyVertex> lv(3); std::vector<uint32_t> li(6);
  Geometry e{MutableMeshView(m)}, f{MutableMeshView(n)}, g{MutableMeshView(lv, li)}; ai_assert(g.GetMeshView().VertexCount() == 0 && g.GetMeshView().TriangleCount() == 0, "starts-with-an-empty-mesh");
  Run(e, a, ink, 0); if (seed % 2) e.SetSavePoint(); Run(e, b, ink, 20); e.Reset(MutableMeshView(o)); ai_assert(e.ExtrusionBreakCount() == 0 && !e.CalculateVisuallyUpdatedRegion().AsRect(), "starting-again-forgets");
  for (const Op& x : b) { Apply(e, x, ink, 3); Apply(f, x, ink, 3); Apply(g, x, ink, 3); }
  Snap s = SnapOf(f); Equal(SnapOf(e), s, "starting-again-forgets"); e.RevertToSavePoint(); Equal(SnapOf(e), s, "starting-again-forgets");
  Snap l = SnapOf(g); bool ok = l.v.size() == s.v.size() && l.t == s.t && SameLane(l.l, s.l) && SameLane(l.r, s.r); for (size_t i = 0; ok && i < s.v.size(); ++i) ok = SameSpot(l.v[i], s.v[i]); ai_assert(ok, "either-kind-of-view-alike");
}
// a quarter turn, or a scale of a power of two, of everything turns or scales the mesh
PROP(geometry_alike) {
  int seed = Seed(), mode = (int)ai_split(ai_i32(0, 2, "mode")), how = (int)ai_split(ai_i32(0, 1, "scale")); Rng r(seed * 3 + mode + 1700); Pen pen; Ink ink; auto a = Scribble(r, pen, mode, 3 + r.N(6), true), b = a;
  auto map = [&](float x, float y) { return how ? Point{4 * x, 4 * y} : Point{-y, x}; };
  for (Op& o : b) { if (o.kind < kProcess) { Point p = map(o.x, o.y); o.x = p.x; o.y = p.y; } else if (how && o.kind == kProcess) { o.x *= 4; o.y *= 4; o.w *= 4; } }
  MutableMesh m(StrokeVertex::FullMeshFormat()), n(StrokeVertex::FullMeshFormat()); Geometry e{MutableMeshView(m)}, f{MutableMeshView(n)}; Run(e, a, ink, 0); Run(f, b, ink, 0);
  Snap s = SnapOf(e), t = SnapOf(f); bool ok = s.v.size() == t.v.size() && s.t == t.t && SameLane(s.l, t.l) && SameLane(s.r, t.r);
  for (size_t i = 0; ok && i < s.v.size(); ++i) { Point p = map(s.v[i].position.x, s.v[i].position.y); ok = p.x == t.v[i].position.x && p.y == t.v[i].position.y && SameLabels(s.v[i], t.v[i]); }
  ai_assert(ok, "turned-and-scaled-alike");
}
// ---- what is covered
namespace {
struct Q { double x, y; };
double Cross(Q a, Q b, Q p) { return (b.x - a.x) * (p.y - a.y) - (b.y - a.y) * (p.x - a.x); }
bool In(Q a, Q b, Q c, Q p, double e) { double s = Cross(a, b, p), t = Cross(b, c, p), u = Cross(c, a, p); return (s >= -e && t >= -e && u >= -e) || (s <= e && t <= e && u <= e); }
void Ribbon(double step, double unit, bool only) {
  constexpr int n = 7; int turn[5]; double x = 0, y = 0, d = .2; Q l[n], r[n]; int code = 0;
  for (int i = 0; i < 4; ++i) { turn[i] = (int)ai_split(ai_i32(-1, 1, "turn")); code = code * 3 + turn[i] + 1; } turn[4] = turn[0];
#ifndef AI_THOROUGH
  if (code % 3) ai_stop();
#endif
  for (int i = 0; i < n; ++i) { if (i) { if (i < 6) d += unit * turn[i - 1]; x += step * __builtin_cos(d); y += step * __builtin_sin(d); } double c = __builtin_cos(d) / 2, s = __builtin_sin(d) / 2; l[i] = {float(x - s), float(y + c)}; r[i] = {float(x + s), float(y - c)}; }
  MutableMesh m(StrokeVertex::FullMeshFormat()); Geometry g{MutableMeshView(m)}; BrushTipState tip{}; tip.width = tip.height = 1;
  for (int i = 0; i < n; ++i) { g.AppendLeftVertex(Point{(float)l[i].x, (float)l[i].y}); g.AppendRightVertex(Point{(float)r[i].x, (float)r[i].y}); g.ProcessNewVertices(.001f, tip); }
  Snap s = SnapOf(g); WellFormed(s); auto at = [&](uint32_t i) { Point p = s.v[i].position; return Q{p.x, p.y}; };
  bool ccw = true, covered = true, inside = true; for (const T3& t : s.t) ccw = ccw && Cross(at(t[0]), at(t[1]), at(t[2])) >= -1e-6; ai_assert(ccw, "no-clockwise-triangles");
  for (int i = 0; i + 1 < n; ++i) for (int q = 0; q < 2; ++q) { Q a = q ? l[i + 1] : l[i], b = r[i], c = q ? r[i + 1] : l[i + 1]; if (Cross(a, b, c) <= 0) continue; for (int u = 1; u < 6; ++u) for (int w = 1; u + w < 6; ++w) { Q p{(a.x * u + b.x * w + c.x * (6 - u - w)) / 6, (a.y * u + b.y * w + c.y * (6 - u - w)) / 6}; bool in = false; for (const T3& t : s.t) in = in || In(at(t[0]), at(t[1]), at(t[2]), p, .02); covered = covered && in; } }
  ai_assert(covered, "covers-between-the-sides");
  if (only) { for (const T3& t : s.t) { Q a = at(t[0]), b = at(t[1]), c = at(t[2]); for (int u = 1; u < 5; ++u) for (int w = 1; u + w < 5; ++w) { Q p{(a.x * u + b.x * w + c.x * (5 - u - w)) / 5, (a.y * u + b.y * w + c.y * (5 - u - w)) / 5}; bool in = false; for (int i = 0; i + 1 < n && !in; ++i) in = In(l[i], r[i], l[i + 1], p, .02) || In(l[i + 1], r[i], r[i + 1], p, .02) || In(l[i], r[i], r[i + 1], p, .02) || In(l[i], l[i + 1], r[i + 1], p, .02); inside = inside && in; } } }
  ai_assert(inside, "covers-nothing-else");
}
}
PROP(ribbon_short) { int k = (int)ai_split(ai_i32(0, 2, "sharpness")); Ribbon(.25, k == 0 ? .2 : k == 1 ? .45 : .6, k < 2); }
PROP(ribbon_half) { Ribbon(.5, ai_split(ai_i32(0, 1, "sharpness")) ? .3 : .6, true); }
PROP(ribbon_long) { int k = (int)ai_split(ai_i32(0, 2, "sharpness")); Ribbon(k == 2 ? 1.3 : .8, k == 0 ? .5 : 1, true); }
