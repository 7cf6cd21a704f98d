// G08: tessellation of polylines into meshes, over a model of libtess2 that hands out scripted elements.
// unit: ink/geometry/tessellator.cc
#include "specs/common.h"
#include <vector>
#include "ink/geometry/tessellator.h"
#include "ink/geometry/internal/generic_tessellator.h"
#include "ink/geometry/mesh.h"
#include "ink/geometry/point.h"
using namespace ink;
struct TESStesselator { int unused; };
namespace {
struct Script {
  int made = 0, deleted = 0, contours = 0, runs = 0; bool bad = false, ok = true;
  const void* data[4]; int size[4], stride[4], count[4];
  int winding = -1, element = -1, poly = -1, vsize = -1; const TESSreal* normal = nullptr;
  std::vector<TESSreal> v; std::vector<TESSindex> index, elems;
  int VertexCount() const { return (int)index.size(); }
};
Script* g; TESStesselator gTess;
void Use(TESStesselator* t) { if (t != &gTess || g->deleted == g->made) g->bad = true; }
}
extern "C" {
TESStesselator* tessNewTess(TESSalloc*) { g->made++; return &gTess; }
void tessDeleteTess(TESStesselator* t) { Use(t); g->deleted++; }
void tessAddContour(TESStesselator* t, int size, const void* p, int stride, int count) { Use(t); int k = g->contours++; if (k < 4) { g->data[k] = p; g->size[k] = size; g->stride[k] = stride; g->count[k] = count; } }
int tessTesselate(TESStesselator* t, int w, int e, int ps, int vs, const TESSreal* n) { Use(t); g->runs++; g->winding = w; g->element = e; g->poly = ps; g->vsize = vs; g->normal = n; return g->ok; }
int tessGetVertexCount(TESStesselator* t) { Use(t); return g->VertexCount(); }
const TESSreal* tessGetVertices(TESStesselator* t) { Use(t); return g->v.data(); }
const TESSindex* tessGetVertexIndices(TESStesselator* t) { Use(t); return g->index.data(); }
int tessGetElementCount(TESStesselator* t) { Use(t); return (int)g->elems.size() / 6; }
const TESSindex* tessGetElements(TESStesselator* t) { Use(t); return g->elems.data(); }
}
namespace {
constexpr TESSindex U = TESS_UNDEF;
// Four input points forming a bow tie; output vertex 2 is the crossing, output order differs from input order.
//   output: 0 -> input 1, 1 -> input 0, 2 -> new, 3 -> input 2, 4 -> input 3, 5 -> new
void BowTie(Script& s, float nx, float ny, float mx, float my) {
  s.v = {1, 1, 0, 0, nx, ny, 1, 0, 0, 1, mx, my};
  s.index = {1, 0, U, 2, 3, U};
  s.elems = {1, 2, 4, U, 1, U,   2, 3, 0, U, U, 0,   2, 4, 5, 0, U, U,   U, U, U, U, U, U,   0, 2, 5, 1, 2, U};
}
void Clean(Script& s, const char* id) { ai_assert(s.made == s.deleted && !s.bad, id); }
}
PROP(tess_too_few) {
  int n = (int)ai_split(ai_i32(0, 2, "n"));
  Script s; g = &s;
  std::vector<Point> p; for (int i = 0; i < n; ++i) p.push_back({Fin("x"), Fin("y")});
  auto r = CreateMeshFromPolyline(p);
  ai_assert(!r.ok() && r.status().code() == absl::StatusCode::kInvalidArgument, "fewer-than-three-points-invalid");
  ai_assert(s.runs == 0, "nothing-tessellated");
}
PROP(tess_fails) {
  int how = (int)ai_split(ai_i32(0, 2, "how"));
  Script s; g = &s;
  if (how == 0) { BowTie(s, .5f, .5f, .25f, .75f); s.ok = false; }
  if (how == 2) { s.v = {0, 0, 1, 1, 1, 0}; s.index = {0, 1, 2}; }
  std::vector<Point> p = {{0, 0}, {1, 1}, {1, 0}, {0, 1}};
  auto r = CreateMeshFromPolyline(p);
  ai_assert(!r.ok() && r.status().code() == absl::StatusCode::kInternal, "no-triangles-internal-error");
  Clean(s, "failure-releases-tessellator");
}
PROP(tess_mesh) {
  Script s; g = &s;
  float nx = ai_f32_in(1.2, 1.3, "nx"), ny = ai_f32_in(2.2, 2.3, "ny"), mx = ai_f32_in(1.4, 1.5, "mx"), my = ai_f32_in(2.4, 2.5, "my");
  BowTie(s, nx, ny, mx, my);
  float x[4] = {1, 2, ai_f32_in(1.6, 1.9, "x2"), -3}, y[4] = {2, 7, ai_f32_in(2.6, 2.9, "y2"), 1.5f}; std::vector<Point> p;
  for (int i = 0; i < 4; ++i) p.push_back({x[i], y[i]});
  auto r = CreateMeshFromPolyline(p);
  ai_assert(s.contours == 1 && s.data[0] == p.data() && s.count[0] == 4 && s.size[0] == 2 && s.stride[0] == (int)sizeof(Point), "one-contour-of-all-points");
  ai_assert(s.runs == 1 && s.winding == TESS_WINDING_NONZERO && s.element == TESS_CONNECTED_POLYGONS && s.poly == 3 && s.vsize == 2 && s.normal == nullptr, "triangles-by-nonzero-winding");
  Clean(s, "releases-tessellator");
  ai_assert(r.ok(), "mesh-made");
  if (!r.ok()) return;
  ai_assert(r->VertexCount() == 6, "points-plus-one-vertex-per-crossing");
  ai_assert(r->TriangleCount() == 4, "a-triangle-per-element");
  if (r->VertexCount() != 6 || r->TriangleCount() != 4) return;
  for (int i = 0; i < 4; ++i) { ai_ident_f(r->VertexPosition(i).x, x[i], "point-x"); ai_ident_f(r->VertexPosition(i).y, y[i], "point-y"); }
  ai_ident_f(r->VertexPosition(4).x, nx, "crossing-x"); ai_ident_f(r->VertexPosition(4).y, ny, "crossing-y");
  ai_ident_f(r->VertexPosition(5).x, mx, "second-crossing-x"); ai_ident_f(r->VertexPosition(5).y, my, "second-crossing-y");
  uint32_t want[4][3] = {{0, 4, 3}, {4, 2, 1}, {4, 3, 5}, {1, 4, 5}};
  bool ok = true;
  for (int t = 0; t < 4; ++t) for (int k = 0; k < 3; ++k) ok = ok && r->TriangleIndices(t)[k] == want[t][k];
  ai_assert(ok, "triangle-vertices");
  ai_assert(r->Format().Attributes().size() == 1, "position-only-format");
}
namespace {
struct V { float x, y; int tag = 0; };
int gNeigh[8][4], gSeen[8], gN; float gAtX[8];
struct Helper {
  using VertexType = V;
  static float GetX(const V& v) { return v.x; }
  static float GetY(const V& v) { return v.y; }
  static constexpr size_t GetXOffSetBytes() { return 0; }
  static constexpr size_t GetYOffSetBytes() { return 4; }
  static V CreateVertex(float x, float y) { return {x, y, -1}; }
  static void PopulateNonPositionAttributes(absl::Span<const V> v, absl::Span<const uint32_t> n, V& d) {
    if (gN < 8) { for (int i = 0; i < 4; ++i) gNeigh[gN][i] = i < (int)n.size() ? (int)n[i] : -7; gSeen[gN] = (int)v.size(); gAtX[gN] = d.x; }
    d.tag = 100 + gN++;
  }
};
}
// Contours in turn; a new vertex gets its attributes from the input vertices around it, counter-clockwise.
PROP(tess_generic) {
  Script s; g = &s; gN = 0;
  BowTie(s, 5, 6, 7, 8);
  V a[] = {{0, 0, 10}, {1, 1, 11}}, b[] = {{1, 0, 12}, {0, 1, 13}};
  absl::Span<const V> edges[] = {a, b};
  int w = (int)ai_split(ai_i32(0, 4, "winding"));
  auto r = geometry_internal::Tessellate<Helper>(edges, (TessWindingRule)w);
  ai_assert(s.contours == 2 && s.data[0] == a && s.data[1] == b && s.count[0] == 2 && s.count[1] == 2 && s.stride[0] == (int)sizeof(V) && s.stride[1] == (int)sizeof(V), "contours-in-turn");
  ai_assert(s.winding == w, "winding-rule-as-asked");
  ai_assert(r.vertices.size() == 6 && r.indices.size() == 12, "generic-sizes");
  if (r.vertices.size() != 6) return;
  bool ok = true;
  for (int i = 0; i < 4; ++i) ok = ok && r.vertices[i].tag == 10 + i;
  ai_assert(ok, "inputs-keep-their-attributes");
  ai_assert(r.vertices[4].tag == 100 && r.vertices[5].tag == 101 && gN == 2, "new-vertex-attributes-once-each");
  ai_assert(r.vertices[4].x == 5 && r.vertices[4].y == 6 && r.vertices[5].x == 7 && r.vertices[5].y == 8, "new-vertex-positions");
  ai_assert(gSeen[0] == 4 && gSeen[1] == 5, "attributes-see-the-vertices-so-far");
  // First new vertex, in element 0 at corner 1: then 4 (input 3), 1 (input 0); element 0 has a neighbour 1 across corner 1's edge.
  ai_assert(gNeigh[0][0] == 3 && gNeigh[0][1] == 0, "neighbours-in-the-triangle");
  ai_assert(gNeigh[0][2] == -1, "no-clockwise-neighbour");
  ai_assert(gNeigh[0][3] == 2, "counter-clockwise-neighbour-across-the-edge");
  Clean(s, "generic-releases-tessellator");
}
// A crossing of four triangles, first met in any of them at any corner, with any of the four missing: the neighbours are those of the triangle, then across the edge before and the edge after.
PROP(tess_around) {
  int at = (int)ai_split(ai_i32(0, 3, "triangle")), corner = (int)ai_split(ai_i32(0, 2, "corner")), gone = (int)ai_split(ai_i32(0, 4, "missing"));
  Script s; g = &s; gN = 0;
  s.v = {1, 0, 0, 1, -1, 0, 0, -1, 0, 0}; s.index = {2, 0, 3, 1, U};
  auto here = [&](int t) { t = (t % 4 + 4) % 4; return gone < 4 && (at + 1 + gone) % 4 == t && gone != 3 ? -1 : t; };
  int slot[4] = {-1, -1, -1, -1}, n = 0; for (int i = 0; i < 4; ++i) if (here(at + i) >= 0) slot[(at + i) % 4] = n++;
  for (int i = 0; i < 4; ++i) {
    int t = (at + i) % 4, c = i == 0 ? corner : (corner + i) % 3; if (slot[t] < 0) continue;
    auto link = [&](int k) { k = (k + 4) % 4; return slot[k] < 0 ? U : TESSindex(slot[k]); };
    TESSindex v[3], e[3]; v[c] = 4; v[(c + 1) % 3] = t; v[(c + 2) % 3] = (t + 1) % 4; e[c] = link(t - 1); e[(c + 1) % 3] = U; e[(c + 2) % 3] = link(t + 1);
    for (int k = 0; k < 3; ++k) s.elems.push_back(v[k]);
    for (int k = 0; k < 3; ++k) s.elems.push_back(e[k]);
  }
  V a[] = {{0, 1, 10}, {0, -1, 11}, {1, 0, 12}, {-1, 0, 13}}; absl::Span<const V> edges[] = {a};
  auto r = geometry_internal::Tessellate<Helper>(edges, TESS_WINDING_ODD);
  ai_assert(gN == 1 && r.vertices.size() == 5 && (int)r.indices.size() == 3 * n, "one-vertex-per-crossing");
  int before = (at + 3) % 4, after = (at + 1) % 4, i0 = s.index[at], i1 = s.index[(at + 1) % 4], i2 = slot[after] < 0 ? -1 : s.index[(at + 2) % 4], i3 = slot[before] < 0 ? -1 : s.index[(at + 3) % 4];
  ai_assert(gNeigh[0][0] == i0 && gNeigh[0][1] == i1, "neighbours-of-the-triangle");
  ai_assert(gNeigh[0][2] == i2, "neighbour-across-the-edge-before");
  ai_assert(gNeigh[0][3] == i3, "neighbour-across-the-edge-after");
}
PROP(tess_empty) {
  Script s; g = &s;
  auto r = geometry_internal::Tessellate<Helper>(absl::Span<const V>());
  ai_assert(r.vertices.empty() && r.indices.empty() && s.runs == 0, "nothing-from-nothing");
}
