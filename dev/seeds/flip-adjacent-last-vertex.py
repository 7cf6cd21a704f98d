PROPERTY="M04"
EDITS=[("ink/geometry/mutable_mesh.cc","""    if (adj_tri.SignedArea() < 0) {
      if (state == TriFlipState::kNotFlipped) {""","""    if (adj_tri.SignedArea() < 0 && adj_tri_idx > tri_idx) {
      if (state == TriFlipState::kNotFlipped) {""")]
NEEDS="a triangle flipped by rounding whose correction flips a neighbour that comes earlier in the mesh"
BREAKS="converting a mesh leaves a flipped triangle that could have been kept"
DEMO='''
#include "ink/geometry/mutable_mesh.h"
#include "ink/geometry/mesh.h"
using namespace ink;
int main() {
  struct { int k; Point p[5]; } cat[] = {
  {3, {{13.00f, 12.65f}, {12.25f, 13.50f}, {10.45f, 11.10f}, {11.15f, 12.10f}, {11.80f, 13.70f}}},
  {3, {{13.90f, 11.65f}, {11.40f, 13.60f}, {12.95f, 10.00f}, {12.30f, 11.10f}, {11.65f, 11.50f}}},
  {1, {{11.55f, 10.10f}, {11.40f, 10.75f}, {10.40f, 11.75f}, {11.60f, 10.75f}, {12.65f, 10.05f}}},
  {2, {{12.10f, 11.65f}, {12.55f, 11.50f}, {14.00f, 13.90f}, {12.50f, 12.40f}, {11.40f, 11.35f}}},
  {3, {{12.95f, 13.05f}, {10.30f, 12.35f}, {14.00f, 13.15f}, {12.30f, 12.75f}, {12.95f, 10.55f}}},
  {2, {{10.85f, 13.45f}, {12.85f, 12.70f}, {11.95f, 13.10f}, {10.10f, 13.75f}, {12.20f, 12.60f}}},
  {3, {{13.75f, 11.45f}, {13.00f, 13.00f}, {12.45f, 11.80f}, {11.00f, 10.25f}, {11.45f, 10.50f}}},
  {3, {{11.00f, 13.75f}, {12.70f, 12.10f}, {13.45f, 12.60f}, {11.15f, 10.95f}, {12.35f, 11.50f}}},
  {2, {{12.60f, 11.70f}, {12.15f, 10.50f}, {13.80f, 10.00f}, {12.30f, 12.50f}, {11.60f, 10.25f}}},
  {0, {{10.65f, 12.60f}, {12.70f, 10.75f}, {10.30f, 13.45f}, {13.20f, 10.35f}}},
  {1, {{13.05f, 12.20f}, {11.35f, 13.40f}, {12.05f, 12.15f}, {12.35f, 13.05f}, {12.50f, 13.90f}}},
  {1, {{10.15f, 13.00f}, {11.15f, 11.50f}, {12.80f, 10.15f}, {13.45f, 10.95f}, {13.75f, 13.90f}}},
  {2, {{12.90f, 13.10f}, {13.20f, 13.65f}, {12.70f, 13.05f}, {11.90f, 11.00f}, {11.90f, 10.55f}}},
  {3, {{13.50f, 14.00f}, {12.00f, 13.30f}, {12.85f, 13.55f}, {10.15f, 12.05f}, {12.50f, 11.40f}}},
  {1, {{11.85f, 10.95f}, {10.55f, 11.50f}, {12.65f, 10.55f}, {12.15f, 13.20f}, {11.95f, 13.85f}}},
  {3, {{11.80f, 13.05f}, {13.60f, 12.05f}, {13.75f, 12.15f}, {13.40f, 10.20f}, {14.00f, 13.25f}}},
  {3, {{12.15f, 12.50f}, {12.30f, 10.05f}, {12.50f, 12.95f}, {12.65f, 13.70f}, {10.00f, 10.35f}}},
  {0, {{12.60f, 12.15f}, {11.95f, 10.45f}, {12.90f, 12.35f}, {13.15f, 12.75f}}},
  {2, {{11.50f, 12.45f}, {11.50f, 11.50f}, {11.60f, 10.95f}, {11.45f, 13.60f}, {10.05f, 12.80f}}},
  {0, {{13.85f, 13.75f}, {13.35f, 10.35f}, {13.65f, 11.10f}, {14.00f, 11.50f}}},
  {3, {{10.35f, 13.90f}, {10.80f, 12.75f}, {11.15f, 12.30f}, {12.10f, 10.90f}, {13.15f, 11.40f}}},
  {0, {{12.70f, 12.55f}, {10.10f, 10.50f}, {11.40f, 11.45f}, {13.25f, 11.50f}}},
  {2, {{13.10f, 12.80f}, {12.55f, 11.15f}, {13.70f, 13.10f}, {10.60f, 12.40f}, {10.20f, 12.20f}}},
  {2, {{11.90f, 11.20f}, {11.80f, 11.95f}, {10.10f, 10.30f}, {12.65f, 11.55f}, {12.35f, 13.90f}}},
  {3, {{12.60f, 10.05f}, {13.80f, 12.90f}, {13.25f, 12.20f}, {13.70f, 13.75f}, {12.65f, 11.30f}}},
  {1, {{12.25f, 11.60f}, {13.75f, 12.00f}, {10.60f, 11.20f}, {10.30f, 10.55f}, {12.25f, 12.15f}}},
  {1, {{14.00f, 12.55f}, {13.60f, 11.20f}, {13.55f, 10.20f}, {13.20f, 10.40f}, {12.00f, 10.80f}}},
  {0, {{11.10f, 12.80f}, {12.80f, 11.50f}, {12.15f, 12.05f}, {13.20f, 11.35f}}},
  {3, {{12.90f, 10.85f}, {12.25f, 13.85f}, {11.30f, 11.45f}, {11.75f, 13.05f}, {10.70f, 10.45f}}},
  {0, {{12.85f, 11.75f}, {11.85f, 10.15f}, {13.70f, 12.75f}, {13.05f, 11.70f}}},
  {1, {{13.70f, 12.70f}, {12.20f, 13.40f}, {10.95f, 13.50f}, {13.55f, 10.10f}, {11.05f, 13.40f}}},
  {2, {{11.20f, 11.90f}, {13.85f, 10.45f}, {12.00f, 13.30f}, {10.55f, 11.45f}, {13.35f, 10.55f}}},
  {1, {{10.80f, 13.85f}, {11.60f, 11.25f}, {11.75f, 11.65f}, {12.55f, 11.45f}, {11.45f, 12.20f}}},
  {1, {{10.25f, 12.50f}, {13.30f, 12.20f}, {12.20f, 12.45f}, {12.70f, 11.20f}, {13.25f, 10.40f}}},
  {1, {{10.90f, 12.60f}, {13.30f, 13.40f}, {10.40f, 12.55f}, {13.95f, 13.60f}, {11.80f, 13.40f}}},
  {1, {{12.20f, 12.60f}, {10.90f, 10.45f}, {11.70f, 11.30f}, {11.20f, 10.00f}, {12.05f, 12.00f}}},
  {2, {{12.05f, 11.35f}, {13.15f, 10.70f}, {12.35f, 11.80f}, {10.60f, 13.85f}, {10.00f, 11.60f}}},
  {1, {{10.85f, 13.60f}, {12.65f, 11.65f}, {13.60f, 11.05f}, {12.00f, 12.25f}, {10.80f, 12.60f}}},
  {3, {{13.40f, 11.40f}, {10.10f, 13.15f}, {11.30f, 12.20f}, {13.20f, 10.50f}, {12.15f, 12.55f}}},
  {2, {{11.15f, 11.85f}, {11.20f, 11.25f}, {12.10f, 13.05f}, {12.65f, 13.95f}, {10.00f, 10.35f}}},
  {1, {{12.50f, 10.50f}, {12.25f, 10.75f}, {10.55f, 11.50f}, {11.45f, 11.35f}, {10.00f, 12.50f}}},
  {0, {{11.80f, 12.50f}, {13.95f, 10.40f}, {11.50f, 12.95f}, {12.45f, 12.45f}}},
  {3, {{12.40f, 12.60f}, {12.70f, 12.90f}, {10.90f, 12.35f}, {13.90f, 13.30f}, {12.05f, 13.10f}}},
  {2, {{11.80f, 12.65f}, {13.65f, 13.60f}, {11.40f, 12.75f}, {14.00f, 11.50f}, {13.00f, 12.40f}}},
  {2, {{11.60f, 11.30f}, {10.90f, 12.00f}, {11.15f, 10.10f}, {12.40f, 11.80f}, {13.95f, 13.45f}}},
  {2, {{11.75f, 11.70f}, {13.20f, 10.75f}, {14.00f, 10.45f}, {10.05f, 13.25f}, {11.60f, 10.60f}}},
  {1, {{12.25f, 11.60f}, {10.80f, 11.35f}, {10.20f, 10.60f}, {13.05f, 11.90f}, {11.40f, 11.30f}}},
  {2, {{13.10f, 11.45f}, {12.65f, 11.60f}, {13.70f, 10.80f}, {13.70f, 13.25f}, {10.65f, 12.60f}}},
  {0, {{13.25f, 11.25f}, {11.30f, 13.15f}, {13.90f, 10.35f}, {10.75f, 13.70f}}},
  {3, {{13.15f, 13.85f}, {12.05f, 12.25f}, {11.45f, 11.25f}, {10.00f, 12.15f}, {11.80f, 10.95f}}},
  {1, {{11.85f, 11.45f}, {10.40f, 10.70f}, {12.55f, 11.50f}, {12.45f, 12.75f}, {11.75f, 13.90f}}},
  {3, {{10.15f, 11.40f}, {10.80f, 11.70f}, {13.60f, 13.25f}, {12.50f, 11.10f}, {12.25f, 10.30f}}},
  {2, {{13.20f, 12.70f}, {12.60f, 10.05f}, {13.50f, 13.55f}, {12.90f, 12.40f}, {11.45f, 10.45f}}},
  {0, {{10.75f, 10.80f}, {13.55f, 13.25f}, {12.55f, 12.75f}, {10.15f, 12.05f}}},
  {2, {{11.00f, 11.60f}, {11.90f, 11.30f}, {11.50f, 12.90f}, {10.20f, 10.00f}, {13.95f, 10.15f}}},
  {0, {{12.75f, 10.20f}, {12.40f, 11.20f}, {11.75f, 12.30f}, {11.40f, 13.90f}}},
  {1, {{12.35f, 13.20f}, {11.00f, 13.95f}, {13.50f, 11.95f}, {13.00f, 10.45f}, {13.95f, 12.95f}}},
  {0, {{10.15f, 10.30f}, {11.25f, 12.65f}, {10.80f, 12.05f}, {11.55f, 13.65f}}},
  {3, {{12.40f, 12.20f}, {11.70f, 10.35f}, {12.50f, 11.25f}, {13.25f, 11.75f}, {13.75f, 13.40f}}},
  {0, {{10.60f, 11.25f}, {10.85f, 11.40f}, {12.30f, 14.00f}, {11.15f, 11.80f}}},
  {0, {{11.45f, 10.60f}, {12.75f, 12.50f}, {11.00f, 10.05f}, {11.55f, 11.30f}}},
  {0, {{10.45f, 13.95f}, {11.70f, 12.65f}, {12.20f, 12.30f}, {12.95f, 11.25f}}},
  {0, {{13.55f, 13.60f}, {12.60f, 12.00f}, {12.45f, 11.50f}, {10.95f, 10.85f}}},
  {0, {{13.40f, 13.20f}, {11.65f, 12.25f}, {11.25f, 11.50f}, {10.90f, 11.10f}}}
  };
  std::vector<std::array<uint32_t, 3>> tops[] = {{{0, 1, 2}, {2, 1, 3}}, {{0, 1, 2}, {2, 3, 4}}, {{0, 1, 2}, {0, 2, 3}, {0, 3, 4}, {0, 4, 1}}, {{0, 1, 2}, {2, 1, 3}, {2, 3, 4}}};
  for (auto& c : cat) for (int rev = 0; rev < 3; ++rev) {
    MutableMesh m(*MeshFormat::Create({{MeshFormat::AttributeType::kFloat2PackedIn1Float, MeshFormat::AttributeId::kPosition}}, MeshFormat::IndexFormat::k32BitUnpacked16BitPacked));
    for (int i = 0; i < (c.k ? 5 : 4); ++i) m.AppendVertex(c.p[i]);
    for (auto& t : tops[c.k]) m.AppendTriangleIndices({t[rev], t[(rev + 1) % 3], t[(rev + 2) % 3]});
    absl::InlinedVector<std::optional<MeshAttributeCodingParams>, 1> o(1); o[0] = MeshAttributeCodingParams{.components = {{.offset = 0, .scale = 1}, {.offset = 0, .scale = 1}}};
    auto r = m.AsMeshes(o); if (!r.ok()) return 2;
    for (size_t i = 0; i < tops[c.k].size(); ++i) if ((*r)[0].GetTriangle(i).SignedArea() < 0) return 1;
  }
  return 0;
}
'''
