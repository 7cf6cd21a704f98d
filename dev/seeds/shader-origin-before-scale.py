PROPERTY='R03'
EDITS=[
('ink/rendering/skia/native/internal/shader_cache.cc',
'  return stroke_space_offset * size_unit_to_stroke;',
'  return size_unit_to_stroke * stroke_space_offset;')]
NEEDS='a layer in multiples of the brush size whose origin is a stroke input'
BREAKS='the texture is moved by the origin times the brush size'
DEMO='''
#include "ink/rendering/skia/native/internal/shader_cache.h"
#include "ink/rendering/bitmap.h"
#include "ink/rendering/texture_bitmap_store.h"
#include "include/core/SkShimAll.h"
using namespace ink;
struct Store : TextureBitmapStore { absl::StatusOr<std::shared_ptr<Bitmap>> GetTextureBitmap(const Uri&) const override { return std::shared_ptr<Bitmap>(std::make_shared<VectorBitmap>(1, 1, Bitmap::PixelFormat::kRgba8888, Color::Format::kLinear, ColorSpace::kSrgb, std::vector<uint8_t>{1, 2, 3, 4})); } };

int main() {
  BrushPaint p; p.texture_layers.resize(1); auto& l = p.texture_layers[0]; l.color_texture_uri = *Uri::Parse("/texture:a"); l.size = {1, 1}; l.size_unit = BrushPaint::TextureSizeUnit::kBrushSize; l.origin = BrushPaint::TextureOrigin::kFirstStrokeInput;
  StrokeInput i; i.position = {3, 5}; StrokeInputBatch b; if (!b.Append(i).ok()) return 2; Store s; skia_native_internal::ShaderCache c(&s); auto r = c.GetShaderForPaint(p, 10, b); if (!r.ok()) return 3;
  return (*r)->outer.m[0] == 10 && (*r)->outer.m[2] == 3 && (*r)->outer.m[5] == 5 ? 0 : 1;
}
'''
