PROPERTY='X09'
EDITS=[
('ink/strokes/internal/brush_tip_extruder/geometry.cc',
'  IndexType right_index_lower_bound =\n      first_mutated_right_index_.value_or(mesh_.VertexCount());',
'  IndexType right_index_lower_bound = mesh_.VertexCount();')]
NEEDS='vertices of the right side moved by a self-intersection behind the first changed triangle'
BREAKS='the updated region leaves out triangles that have changed'
DEMO='''
#include <cmath>
#include <random>
#include <vector>
#include "ink/geometry/mutable_mesh.h"
#include "ink/strokes/internal/brush_tip_extruder/geometry.h"
#include "ink/strokes/internal/stroke_vertex.h"
using namespace ink; using namespace ink::strokes_internal; using namespace ink::brush_tip_extruder_internal;
struct Snap { std::vector<Point> p; std::vector<std::array<uint32_t, 3>> t; std::vector<uint32_t> l, r; bool operator==(const Snap&) const = default; };
Snap Of(const Geometry& g) { Snap s; auto& m = g.GetMeshView(); for (unsigned i = 0; i < m.VertexCount(); ++i) s.p.push_back(m.GetPosition(i)); for (unsigned i = 0; i < m.TriangleCount(); ++i) s.t.push_back(m.GetTriangleIndices(i)); s.l = g.LeftSide().indices; s.r = g.RightSide().indices; return s; }
struct Op { int kind; float x = 0, y = 0; };
struct Pen { std::mt19937 r; double x = 0, y = 0, d = 0; double U(double a, double b) { return a + (b - a) * (r() % 10000) / 1e4; }
  std::vector<Op> Draw(int n, double sharp, bool breaks) { std::vector<Op> v; for (int i = 0; i < n; ++i) { int q = r() % 14; if (breaks && q == 0) { v.push_back({3}); x += 3; } else if (breaks && q == 1) v.push_back({4}); d += U(-sharp, sharp); double s = U(.05, 1.5); x += s * std::cos(d); y += s * std::sin(d); float c = std::cos(d) / 2, k = std::sin(d) / 2; int z = r() % 8; if (z) v.push_back({0, float(x - k), float(y + c)}); if (z != 1) v.push_back({1, float(x + k), float(y - c)}); if (r() % 3 || i + 1 == n) v.push_back({2}); } return v; } };
void Run(Geometry& g, const std::vector<Op>& v) { for (auto& o : v) switch (o.kind) { case 0: g.AppendLeftVertex(Point{o.x, o.y}); break; case 1: g.AppendRightVertex(Point{o.x, o.y}); break; case 2: { BrushTipState s{}; s.width = s.height = 1; g.ProcessNewVertices(.05f, s); break; } case 3: g.AddExtrusionBreak(); break; default: g.ClearSinceLastExtrusionBreak(); } }

int main() {
  int bad = 0;
  for (int mode = 0; mode < 3; ++mode) for (int seed = 0; seed < 3000; ++seed) {
    Pen p{std::mt19937(seed)}; double sharp = mode == 0 ? 2 : mode == 1 ? .3 : 1; auto a = p.Draw(2 + seed % 9, sharp, false), b = p.Draw(1 + seed % 3, sharp, false); MutableMesh m(StrokeVertex::FullMeshFormat()); Geometry e{MutableMeshView(m)}; Run(e, a); e.ResetMutationTracking(); Snap s = Of(e); Run(e, b); Snap t = Of(e); auto box = e.CalculateVisuallyUpdatedRegion().AsRect();
    auto look = [&](const Snap& x, const Snap& y) { for (unsigned i = 0; i < x.t.size(); ++i) { bool ch = i >= y.t.size() || x.t[i] != y.t[i]; for (auto k : x.t[i]) ch = ch || k >= y.p.size() || !(x.p[k] == y.p[k]); if (ch) for (auto k : x.t[i]) if (!box || !box->Contains(x.p[k])) ++bad; } }; look(s, t); look(t, s);
  }
  return bad ? 1 : 0;
}
'''
