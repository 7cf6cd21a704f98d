PROPERTY='R02'
EDITS=[
('ink/rendering/skia/common_internal/sksl_vertex_shader_helper_functions.h',
'      y += hslShift.z;',
'      y = saturate(y + hslShift.z);')]
NEEDS='a luminosity shift that takes a color beyond black or white'
BREAKS='shifted colors are clamped although wide colors may leave [0, 1]'
DEMO=r'''
#include <cstdio>
#include <cstdlib>
#include <string>
#include "absl/strings/string_view.h"
#include "ink/rendering/skia/common_internal/sksl_vertex_shader_helper_functions.h"
// Translates the color functions of the shader to C++ and runs them.
static std::string Function(const std::string& s, const std::string& name) { size_t i = s.find(" " + name + "("); if (i == std::string::npos) return ""; size_t b = s.rfind('\n', i), e = s.find('{', i); int d = 0; do { d += s[e] == '{' ? 1 : s[e] == '}' ? -1 : 0; ++e; } while (d); return s.substr(b, e - b); }
int main() {
  using namespace ink::skia_common_internal;
  std::string s(kSkSLVertexShaderHelpers);
  FILE* f = fopen("shader.cc", "w");
  fprintf(f, "%s", R"(
#include <cmath>
#include <initializer_list>
#include <cstdio>
struct float2 { float x, y; }; struct float3 { float x, y, z; float3(float a = 0) : x(a), y(a), z(a) {} float3(float a, float b, float c) : x(a), y(b), z(c) {} };
struct float4 { float3 rgb; float a; float4(float3 c, float d) : rgb(c), a(d) {} };
float dot(float3 a, float3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; } float atan(float y, float x) { return std::atan2(y, x); } float radians(float d) { return d * 3.14159265f / 180; } float saturate(float x) { return x < 0 ? 0 : x > 1 ? 1 : x; } float clamp(float x, float a, float b) { return x < a ? a : x > b ? b : x; }
using std::sqrt; using std::cos; using std::sin;
)");
  fprintf(f, "%s\n%s\n", Function(s, "applyOpacityShift").c_str(), Function(s, "applyHSLAndOpacityShift").c_str());
  fprintf(f, "%s", R"(
int main() { int bad = 0; for (int k = -4; k <= 4; ++k) for (int c = 0; c <= 4; ++c) { float g = c * .25f, d = k * .25f; float4 o = applyHSLAndOpacityShift(float3(0, 0, d), 0, float4(float3(g, g, g), 1)); for (float v : {o.rgb.x, o.rgb.y, o.rgb.z}) if (!(std::fabs(v - (g + d)) < .01)) bad = 1; if (o.a != 1) bad = 1; } return bad; }
)");
  fclose(f);
  if (system("clang++ -std=c++20 -w shader.cc -o shader") != 0) return 2;
  return system("./shader") == 0 ? 0 : 1;
}
'''
