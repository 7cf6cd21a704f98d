PROPERTY='G08'
EDITS=[
('ink/geometry/internal/generic_tessellator.h',
'      AdjacentTo(neighboring_triangles, v, VertexOffset::kClockwise),\n      VertexOffset::kClockwise);',
'      AdjacentTo(neighboring_triangles, v, VertexOffset::kCounterClockwise),\n      VertexOffset::kClockwise);')]
NEEDS='a crossing whose first triangle has a neighbour across the edge before it'
BREAKS='the attributes of a new vertex lack one of the vertices around it'
DEMO='''
#include <algorithm>
#include <vector>
#include "ink/geometry/internal/generic_tessellator.h"
using namespace ink;
struct TESStesselator { int unused; };
static TESStesselator t; static TESSreal pos[] = {1, 0, 0, 1, -1, 0, 0, -1, 0, 0}; static TESSindex U = TESS_UNDEF, index_[] = {2, 0, 3, 1, U}, elems[] = {4, 0, 1, 3, U, 1, 4, 1, 2, 0, U, 2, 4, 2, 3, 1, U, 3, 4, 3, 0, 2, U, 0};
extern "C" {
TESStesselator* tessNewTess(TESSalloc*) { return &t; }
void tessDeleteTess(TESStesselator*) {}
void tessAddContour(TESStesselator*, int, const void*, int, int) {}
int tessTesselate(TESStesselator*, int, int, int, int, const TESSreal*) { return 1; }
int tessGetVertexCount(TESStesselator*) { return 5; }
const TESSreal* tessGetVertices(TESStesselator*) { return pos; }
const TESSindex* tessGetVertexIndices(TESStesselator*) { return index_; }
int tessGetElementCount(TESStesselator*) { return 4; }
const TESSindex* tessGetElements(TESStesselator*) { return elems; }
}
struct V { float x, y; int tag = 0; };
static std::vector<uint32_t> around;
struct Helper { using VertexType = V; static float GetX(const V& v) { return v.x; } static float GetY(const V& v) { return v.y; } static constexpr size_t GetXOffSetBytes() { return 0; } static constexpr size_t GetYOffSetBytes() { return 4; } static V CreateVertex(float x, float y) { return {x, y, -1}; } static void PopulateNonPositionAttributes(absl::Span<const V>, absl::Span<const uint32_t> n, V&) { around.assign(n.begin(), n.end()); } };
int main() { V a[] = {{0, 1, 10}, {0, -1, 11}, {1, 0, 12}, {-1, 0, 13}}; absl::Span<const V> edges[] = {a}; auto r = geometry_internal::Tessellate<Helper>(edges, TESS_WINDING_ODD); std::sort(around.begin(), around.end()); return r.vertices.size() == 5 && around == std::vector<uint32_t>{0, 1, 2, 3} ? 0 : 1; }
'''
