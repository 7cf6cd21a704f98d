PROPERTY='B04'
EDITS=[
('ink/brush/brush_paint.cc',
'  if (!(layer.size_jitter.x >= 0.0f && layer.size_jitter.x <= layer.size.x &&\n        layer.size_jitter.y >= 0.0f && layer.size_jitter.y <= layer.size.y)) {',
'  if (layer.size_jitter.x < 0.0f || layer.size_jitter.x > layer.size.x ||\n      layer.size_jitter.y < 0.0f || layer.size_jitter.y > layer.size.y) {')]
NEEDS='a size jitter that is not a number'
BREAKS='a texture layer with NaN size jitter is accepted'
DEMO='''
#include "ink/brush/brush_paint.h"
#include <cmath>
using namespace ink;
int main() {
  auto u = Uri::Parse("/texture:x"); if (!u.ok()) return 2;
  BrushPaint p{.texture_layers = {{.color_texture_uri = *u, .mapping = BrushPaint::TextureMapping::kWinding, .size_unit = BrushPaint::TextureSizeUnit::kBrushSize, .size = {2, 2}, .size_jitter = {NAN, 0}}}};
  if (brush_internal::ValidateBrushPaint(p).ok()) return 1;
  p.texture_layers[0].size_jitter = {1, 2}; return brush_internal::ValidateBrushPaint(p).ok() ? 0 : 2;
}
'''
