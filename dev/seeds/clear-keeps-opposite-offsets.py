PROPERTY='X09'
EDITS=[
('ink/strokes/internal/brush_tip_extruder/geometry.cc',
'    save_point_state.saved_vertices.emplace(v_idx, mesh.GetVertex(v_idx));\n    save_point_state.saved_opposite_side_offsets.emplace(\n        v_idx, opposite_side_offsets[v_idx]);',
'    save_point_state.saved_vertices.emplace(v_idx, mesh.GetVertex(v_idx));')]
NEEDS='geometry from before the save point cleared after it, reverted, and then a self-intersection that reaches back into it'
BREAKS='the sides of restored vertices are matched wrongly in later retriangulations'
DEMO='''
#include <cmath>
#include <random>
#include <vector>
#include "ink/geometry/mutable_mesh.h"
#include "ink/strokes/internal/brush_tip_extruder/geometry.h"
#include "ink/strokes/internal/stroke_vertex.h"
using namespace ink; using namespace ink::strokes_internal; using namespace ink::brush_tip_extruder_internal;
struct Snap { std::vector<Point> p; std::vector<std::array<uint32_t, 3>> t; std::vector<uint32_t> l, r; bool operator==(const Snap&) const = default; };
Snap Of(const Geometry& g) { Snap s; auto& m = g.GetMeshView(); for (unsigned i = 0; i < m.VertexCount(); ++i) s.p.push_back(m.GetPosition(i)); for (unsigned i = 0; i < m.TriangleCount(); ++i) s.t.push_back(m.GetTriangleIndices(i)); s.l = g.LeftSide().indices; s.r = g.RightSide().indices; return s; }
struct Op { int kind; float x = 0, y = 0; };
struct Pen { std::mt19937 r; double x = 0, y = 0, d = 0; double U(double a, double b) { return a + (b - a) * (r() % 10000) / 1e4; }
  std::vector<Op> Draw(int n, double sharp, bool breaks) { std::vector<Op> v; for (int i = 0; i < n; ++i) { int q = r() % 14; if (breaks && q == 0) { v.push_back({3}); x += 3; } else if (breaks && q == 1) v.push_back({4}); d += U(-sharp, sharp); double s = U(.05, 1.5); x += s * std::cos(d); y += s * std::sin(d); float c = std::cos(d) / 2, k = std::sin(d) / 2; int z = r() % 8; if (z) v.push_back({0, float(x - k), float(y + c)}); if (z != 1) v.push_back({1, float(x + k), float(y - c)}); if (r() % 3 || i + 1 == n) v.push_back({2}); } return v; } };
void Run(Geometry& g, const std::vector<Op>& v) { for (auto& o : v) switch (o.kind) { case 0: g.AppendLeftVertex(Point{o.x, o.y}); break; case 1: g.AppendRightVertex(Point{o.x, o.y}); break; case 2: { BrushTipState s{}; s.width = s.height = 1; g.ProcessNewVertices(.05f, s); break; } case 3: g.AddExtrusionBreak(); break; default: g.ClearSinceLastExtrusionBreak(); } }

int main() {
  int bad = 0;
  for (int mode = 0; mode < 3; ++mode) for (int seed = 0; seed < 2000; ++seed) {
    Pen p{std::mt19937(seed)}; double sharp = mode == 0 ? 2 : mode == 1 ? .3 : 1; bool br = seed % 2; auto a = p.Draw(1 + seed % 9, sharp, br); Pen keep = p; auto b = p.Draw(1 + seed % 7, sharp, br); p = keep; p.r(); auto c = p.Draw(1 + seed % 5, sharp, br);
    MutableMesh m(StrokeVertex::FullMeshFormat()), n(StrokeVertex::FullMeshFormat()); Geometry e{MutableMeshView(m)}, f{MutableMeshView(n)}; Run(e, a); Run(f, a); Snap s = Of(e); e.SetSavePoint(); Run(e, b); e.RevertToSavePoint(); if (!(Of(e) == s)) ++bad; Run(e, c); Run(f, c); if (!(Of(e) == Of(f))) ++bad;
  }
  return bad ? 1 : 0;
}
'''
