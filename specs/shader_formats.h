// The vertex formats whose shaders are analysed; shared by the emitter and the harness.
#pragma once
#include <utility>
#include <vector>
#include "ink/geometry/mesh_format.h"
#include "ink/rendering/skia/common_internal/mesh_specification_data.h"
#include "ink/strokes/internal/stroke_vertex.h"
namespace shader_formats {
using F = ink::MeshFormat; using AT = F::AttributeType; using AI = F::AttributeId;
using List = std::vector<std::pair<AT, AI>>;
inline List Bytes() { return {{AT::kFloat2PackedIn3UnsignedBytes_XY12, AI::kPosition}, {AT::kFloat1PackedIn1UnsignedByte, AI::kOpacityShift}, {AT::kFloat3PackedIn4UnsignedBytes_XYZ10, AI::kColorShiftHsl}, {AT::kFloat2PackedIn3UnsignedBytes_XY12, AI::kSideDerivative}, {AT::kFloat1PackedIn1UnsignedByte, AI::kSideLabel}, {AT::kFloat2PackedIn3UnsignedBytes_XY12, AI::kForwardDerivative}, {AT::kFloat1PackedIn1UnsignedByte, AI::kForwardLabel}, {AT::kFloat2PackedIn4UnsignedBytes_X12_Y20, AI::kSurfaceUv}}; }
inline List Floats() { return {{AT::kFloat2PackedIn1Float, AI::kPosition}, {AT::kFloat1Unpacked, AI::kOpacityShift}, {AT::kFloat3Unpacked, AI::kColorShiftHsl}, {AT::kFloat2Unpacked, AI::kSideDerivative}, {AT::kFloat1Unpacked, AI::kSideLabel}, {AT::kFloat2Unpacked, AI::kForwardDerivative}, {AT::kFloat1Unpacked, AI::kForwardLabel}, {AT::kFloat2Unpacked, AI::kSurfaceUv}}; }
inline constexpr int kCount = 7;   // 0 is the in-progress stroke
inline const char* Name(int k) { const char* n[] = {"Wet", "Bytes", "Floats", "BytesNoHsl", "BytesNoUv", "FloatsBare", "Mixed"}; return n[k]; }
inline List Get(int k) {
  List b = Bytes(), f = Floats();
  switch (k) {
    case 1: return b;
    case 2: return f;
    case 3: b.erase(b.begin() + 2); return b;
    case 4: b.pop_back(); return b;
    case 5: f.pop_back(); f.erase(f.begin() + 2); return f;
    case 6: return {f[7], b[5], b[6], f[3], f[4], b[2], b[0], b[1]};
  }
  return {};
}
inline F Format(int k) { if (k == 0) return ink::strokes_internal::StrokeVertex::FullMeshFormat(); return *F::Create(Get(k), F::IndexFormat::k32BitUnpacked16BitPacked); }
inline ink::skia_common_internal::MeshSpecificationData Data(int k) { if (k == 0) return ink::skia_common_internal::MeshSpecificationData::CreateForInProgressStroke(); return *ink::skia_common_internal::MeshSpecificationData::CreateForStroke(Format(k)); }
}
