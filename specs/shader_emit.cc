// Hands the shaders the code builds, with the interface it declares for them, to engines/sksl.py.
#include "specs/common.h"
#include "ink/geometry/mesh_format.h"
#include "ink/rendering/skia/common_internal/mesh_specification_data.h"
#include "ink/strokes/internal/stroke_vertex.h"
#include "specs/shader_formats.h"
using D = ink::skia_common_internal::MeshSpecificationData;
PROP(emit_shaders) {
  for (int k = 0; k < shader_formats::kCount; ++k) {
    D d = shader_formats::Data(k); const char* n = shader_formats::Name(k); ai_emit("variant", n, std::strlen(n)); ai_emiti("stride", d.vertex_stride);
    for (auto& a : d.attributes.Values()) { ai_emit("attribute", a.name.data(), a.name.size()); ai_emiti("type", (int)a.type); ai_emiti("offset", a.offset); }
    for (auto& v : d.varyings.Values()) { ai_emit("varying", v.name.data(), v.name.size()); ai_emiti("type", (int)v.type); }
    for (auto& u : d.uniforms.Values()) { auto s = D::GetUniformName(u.id); ai_emit("uniform", s.data(), s.size()); ai_emiti("type", (int)u.type); ai_emiti("id", (int)u.id); }
    ai_emit("vertex", d.vertex_shader_source.data(), d.vertex_shader_source.size()); ai_emit("fragment", d.fragment_shader_source.data(), d.fragment_shader_source.size());
  }
  ai_reach("reach-shaders-emitted");
}
