PROPERTY="S06"
EDITS=[("ink/strokes/internal/stroke_shape_builder.cc","""        (coat.tips[i].particle_gap_distance_scale != 0 ||
         coat.tips[i].particle_gap_duration != Duration32::Zero());""","""        coat.tips[i].particle_gap_distance_scale *
                coat.tips[i].particle_gap_duration.ToSeconds() !=
            coat.tips[i].particle_gap_distance_scale;""")]
NEEDS="a winding-texture particle brush with only a time gap, or with a gap of exactly one second"
BREAKS="some particle brushes lose their per-particle texture coordinates"
DEMO='''
#include "ink/strokes/internal/stroke_shape_builder.h"
#include "ink/strokes/internal/stroke_vertex.h"
using namespace ink; using namespace ink::strokes_internal;
int main() {
  BrushTip t; t.particle_gap_duration = Duration32::Seconds(0.25); BrushPaint p; p.texture_layers = {{.color_texture_uri = *Uri::Parse("/texture:x"), .mapping = BrushPaint::TextureMapping::kWinding, .size = {1, 1}}};
  BrushCoat c{.tips = {t}, .paint = p}; StrokeShapeBuilder b; b.StartStroke(BrushFamily::DefaultInputModel(), c, 10, 0.1);
  StrokeInput i[] = {{.tool_type = StrokeInput::ToolType::kMouse, .position = {1, 2}, .elapsed_time = Duration32::Zero()}}; b.ExtendStroke(*StrokeInputBatch::Create(i), {}, Duration32::Zero());
  const MutableMesh& m = b.GetMesh(); if (!m.VertexCount()) return 2;
  for (uint32_t k = 0; k < m.VertexCount(); ++k) if (StrokeVertex::GetSurfaceUvFromMesh(m, k) != Point{0, 0}) return 0;
  return 1;
}
'''
