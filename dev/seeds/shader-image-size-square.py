PROPERTY='R03'
EDITS=[
('ink/rendering/skia/native/internal/shader_cache.cc',
'      ComputeTexelToSizeUnitTransform(layer, size.width(), size.height()));',
'      ComputeTexelToSizeUnitTransform(layer, size.width(), size.width()));')]
NEEDS='a texture that is not square'
BREAKS='textures that are not square are stretched'
DEMO='''
#include "ink/rendering/skia/native/internal/shader_cache.h"
#include "ink/rendering/bitmap.h"
#include "ink/rendering/texture_bitmap_store.h"
#include "include/core/SkShimAll.h"
using namespace ink;
struct Store : TextureBitmapStore { absl::StatusOr<std::shared_ptr<Bitmap>> GetTextureBitmap(const Uri&) const override { return std::shared_ptr<Bitmap>(std::make_shared<VectorBitmap>(2, 4, Bitmap::PixelFormat::kRgba8888, Color::Format::kLinear, ColorSpace::kSrgb, std::vector<uint8_t>(32))); } };

int main() {
  BrushPaint p; p.texture_layers.resize(1); auto& l = p.texture_layers[0]; l.color_texture_uri = *Uri::Parse("/texture:a"); l.size = {1, 1}; Store s; skia_native_internal::ShaderCache c(&s); auto r = c.GetShaderForPaint(p, 10, StrokeInputBatch()); if (!r.ok()) return 3;
  return (*r)->local.m[0] == 0.5f && (*r)->local.m[4] == 0.25f ? 0 : 1;
}
'''
