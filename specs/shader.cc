// The shaders, fed the bytes the CPU packs: positions, colors, texture coordinates, outsets and coverage on the GPU side.
#include "specs/common.h"
#include "ink/geometry/internal/mesh_packing.h"
#include "ink/geometry/mesh_format.h"
#include "ink/geometry/mesh_packing_types.h"
#include "ink/rendering/skia/common_internal/mesh_specification_data.h"
#include "ink/strokes/internal/stroke_vertex.h"
#include "specs/shader_formats.h"
#include "sksl_generated.h"
using namespace ink; using namespace shader_formats; using D = skia_common_internal::MeshSpecificationData; using U = D::UniformId; using SV = strokes_internal::StrokeVertex;
namespace {
struct Vtx { float px = 4, py = 20, op = 0, h = 0, s = 0, l = 0, sx = 8, sy = 0, sl = 0, fx = 0, fy = 8, fl = 0, u = 0, v = 0; };
struct Par { float off, scale; };
constexpr Par kPosX{-3.5f, 0.25f}, kPosY{10.f, 0.125f}, kSide{-512.f, 0.25f}, kFwd{-128.f, 0.0625f};
MeshAttributeCodingParams Two(Par a, Par b) { MeshAttributeCodingParams p; p.components.Resize(2); p.components[0] = {a.off, a.scale}; p.components[1] = {b.off, b.scale}; return p; }
// the vertex bytes the CPU side hands to the GPU
struct Packer {
  int k; F f; SV::CustomPackingArray custom; int stride;
  explicit Packer(int kk) : k(kk), f(Format(kk)), custom(SV::MakeCustomPackingArray(Format(kk))), stride(kk == 0 ? f.UnpackedVertexStride() : f.PackedVertexStride()) {}
  void Write(const Vtx& x, uint8_t* out) const {
    auto at = f.Attributes();
    for (size_t i = 0; i < at.size(); ++i) {
      float v[4] = {}; int n = 0; Par a{0, 1}, b{0, 1};
      switch (at[i].id) {
        case AI::kPosition: v[0] = x.px; v[1] = x.py; n = 2; a = kPosX; b = kPosY; break;
        case AI::kOpacityShift: v[0] = x.op; n = 1; break;
        case AI::kColorShiftHsl: v[0] = x.h; v[1] = x.s; v[2] = x.l; n = 3; break;
        case AI::kSideDerivative: v[0] = x.sx; v[1] = x.sy; n = 2; a = b = kSide; break;
        case AI::kSideLabel: v[0] = x.sl; n = 1; break;
        case AI::kForwardDerivative: v[0] = x.fx; v[1] = x.fy; n = 2; a = b = kFwd; break;
        case AI::kForwardLabel: v[0] = x.fl; n = 1; break;
        case AI::kSurfaceUv: v[0] = x.u; v[1] = x.v; n = 2; break;
        default: break;
      }
      if (k == 0) { std::memcpy(out + at[i].unpacked_offset, v, 4 * n); continue; }
      SmallArray<float, 4> value(n); for (int j = 0; j < n; ++j) value[j] = v[j];
      MeshAttributeCodingParams p = n == 2 ? Two(a, b) : MeshAttributeCodingParams(); if (i < (size_t)custom.Size() && custom[i].has_value()) p = *custom[i]; else if (n != 2) { p.components.Resize(n); for (int j = 0; j < n; ++j) p.components[j] = {0, 1}; }
      mesh_internal::PackAttribute(at[i].type, p, value, absl::MakeSpan(reinterpret_cast<std::byte*>(out + at[i].packed_offset), at[i].packed_width));
    }
  }
};
template <class S> struct Gpu {
  Packer p; typename S::Varyings v;
  explicit Gpu(int k) : p(k) {
    ai_assert(p.stride == S::stride, "stride-of-the-vertex-data"); Matrix(1, 0, 0, 1); Color(0.5f, 0.25f, 0.125f, 0.5f); Winding(false);
    ai_assert(k == 0 || (S::set((int)U::kPositionUnpackingTransform, kPosX.off, kPosX.scale, kPosY.off, kPosY.scale) && S::set((int)U::kSideDerivativeUnpackingTransform, kSide.off, kSide.scale, kSide.off, kSide.scale) && S::set((int)U::kForwardDerivativeUnpackingTransform, kFwd.off, kFwd.scale, kFwd.off, kFwd.scale)), "unpacking-uniforms-there");
  }
  void Matrix(float a, float b, float d, float e) { ai_assert(S::set((int)U::kObjectToCanvasLinearComponent, a, d, b, e), "transform-uniform-there"); }   // x' = a x + b y, y' = d x + e y
  void Color(float r, float g, float b, float a) { ai_assert(S::set((int)U::kBrushColor, r, g, b, a), "color-uniform-there"); }
  void Winding(bool w) { ai_assert(S::seti((int)U::kTextureMapping, w ? 1 : 0), "mapping-uniform-there"); }
  const typename S::Varyings& Run(const Vtx& x) { uint8_t b[128] = {}; p.Write(x, b); v = S::vertex(b); return v; }
  sksl::float4 Pixel() { sksl::float4 c; S::fragment(v, c); return c; }
  sksl::float2 Coords() { sksl::float4 c; return S::fragment(v, c); }
};
AT TypeOf(int k, AI id) { for (auto& a : Format(k).Attributes()) if (a.id == id) return a.type; return AT::kFloat1Unpacked; }
bool Near(double a, double b, double tol) { return In(a, b - tol, b + tol); }
float X(int i) { return kPosX.off + kPosX.scale * i; } float Y(int i) { return kPosY.off + kPosY.scale * i; }
// ---- oracles, in doubles
struct C3 { double r, g, b; };
C3 Shifted(C3 c, double h, double s, double l) {   // rotate hue, scale chroma, shift luma in YIQ
  double y = .299 * c.r + .587 * c.g + .114 * c.b, i = .596 * c.r - .275 * c.g - .321 * c.b, q = .212 * c.r - .523 * c.g + .311 * c.b; double t = -h * 6.283185307179586, cs = __builtin_cos(t), sn = __builtin_sin(t);
  double ii = (i * cs - q * sn) * (s + 1), qq = (i * sn + q * cs) * (s + 1); y += l; return {y + .956 * ii + .621 * qq, y - .272 * ii - .647 * qq, y - 1.107 * ii + 1.704 * qq};
}
template <class S> void Position(int k) { Gpu<S> g(k); for (int n = 0; n < 256; ++n) { int x = ((n * 7) & 255) << 4 | (n & 15), y = (n >> 4) << 8 | ((n * 5 + 3) & 255); Vtx t; t.px = X(x); t.py = Y(y); auto& v = g.Run(t); ai_assert(Near(v.position.x, t.px, 0.004), "interior-vertex-x-unpacked"); ai_assert(Near(v.position.y, t.py, 0.004), "interior-vertex-y-unpacked"); } }
template <class S> void Opacity(int k) {
  Gpu<S> g(k); for (int n = -127; n <= 127; ++n) { Vtx t; t.op = n / 127.f; g.Run(t); sksl::float4 c = g.Pixel(); ai_assert(Near(c.w, 0.5 * (1 + n / 127.0), 0.0005), "opacity-shift-scales-alpha"); ai_assert(Near(c.x, 0.5 * c.w, 0.004) && Near(c.y, 0.25 * c.w, 0.004) && Near(c.z, 0.125 * c.w, 0.004), "color-premultiplied"); }
  g.Color(1, 1, 1, 1); Vtx t; t.op = 0.5f; g.Run(t); ai_assert(Near(g.Pixel().w, 1, 1e-5), "alpha-saturates"); t.op = 0; g.Run(t); ai_assert(Near(g.Pixel().w, 1, 0.005), "no-shift-keeps-alpha"); g.Color(2.5f, -0.5f, 0, 1); g.Run(t); sksl::float4 c = g.Pixel(); ai_assert(Near(c.x, 2.5, 0.02) && Near(c.y, -0.5, 0.02), "wide-gamut-colors-not-clamped");
}
template <class S> void NoHsl(int k) { Gpu<S> g(k); Vtx t; g.Color(0.5f, 0.25f, 0.125f, 1); t.h = 0.25f; t.s = 0.5f; t.l = 0.25f; g.Run(t); sksl::float4 c = g.Pixel(); ai_assert(Near(c.x, 0.5, 1e-5) && Near(c.y, 0.25, 1e-5) && Near(c.z, 0.125, 1e-5), "no-shift-without-the-attribute"); }
template <class S> void Hsl(int k) {
  Gpu<S> g(k); Vtx t;
  bool packed = k && TypeOf(k, AI::kColorShiftHsl) != AT::kFloat3Unpacked;
  auto close = [&](C3 in, double tol, const char* id) { g.Color(in.r, in.g, in.b, 1); g.Run(t); sksl::float4 c = g.Pixel(); C3 w = Shifted(in, t.h, t.s, t.l); ai_assert(Near(c.x, w.r, tol) && Near(c.y, w.g, tol) && Near(c.z, w.b, tol), id); };
  for (C3 in : {C3{1, 0, 0}, C3{0, 1, 0}, C3{0, 0, 1}, C3{0.5, 0.25, 0.125}, C3{0.2, 0.9, 1}}) { t.h = t.s = t.l = 0; close(in, 0.001, "no-shift"); for (int n : {-511, -200, -1, 100, 307, 511}) { t.h = n / 511.f; t.s = t.l = 0; close(in, 0.01, "hue-turns-the-color"); t.h = 0; t.s = n / 511.f; close(in, 0.01, "saturation-scales-chroma"); t.s = 0; t.l = n / 511.f; close(in, 0.01, "luminosity-shifts-luma"); t.h = 0.125f; t.s = -0.25f; close(in, 0.01, "all-shifts-together"); } }
  t = Vtx(); t.h = 0.33333f; g.Color(1, 0, 0, 1); g.Run(t); sksl::float4 c = g.Pixel(); ai_assert(c.y > c.x && c.y > c.z, "a-third-of-a-turn-makes-red-green");
  if (!packed) return; // every bit of every packed component, magnified by bright colors
  for (int n = 0; n < 256; ++n) { int a = n << 2 | (n & 3), b = (n & 15) << 6 | (n >> 4) << 2 | (n & 3), d = (n >> 4) << 6 | (n & 63); if (a > 1022) a = 1022; if (b > 1022) b = 1022; if (d > 1022) d = 1022; t = Vtx(); t.h = a / 511.f - 1; t.s = b / 511.f - 1; t.l = d / 511.f - 1; close(C3{30, 3, 9}, 0.012, "packed-shift-decoded"); }
}
template <class S> void NoUv(int k) { Gpu<S> g(k); for (bool w : {false, true}) for (float l : {0.f, 127.f}) { g.Winding(w); Vtx t; t.sl = l; g.Run(t); sksl::float2 c = g.Coords(); ai_assert(c.x == g.v.position.x && c.y == g.v.position.y, "position-where-there-is-no-uv"); } }
template <class S> void Uv(int k) {
  Gpu<S> g(k); bool packed = k && TypeOf(k, AI::kSurfaceUv) != AT::kFloat2Unpacked;
  for (int n = 0; n < 256; ++n) {
    int x = ((n * 7) & 255) << 4 | (n & 15), y = (n >> 4) << 16 | ((n * 5 + 3) & 255) << 8 | ((n * 11 + 1) & 255); Vtx t; t.px = X(40); t.py = Y(9); t.u = x / 4095.f; t.v = y / 1048575.f; g.Winding(true); g.Run(t); sksl::float2 c = g.Coords();
    ai_assert(Near(c.x, t.u, packed ? 2e-6 : 1e-7), "surface-u-decoded"); ai_assert(Near(c.y, t.v, packed ? 5e-7 : 1e-7), "surface-v-decoded");
    if (n % 64 == 0) { t.sl = 127; g.Winding(false); g.Run(t); c = g.Coords(); ai_assert(c.x == g.v.position.x && c.y == g.v.position.y, "tiling-uses-the-position"); }
  }
}
template <class S> void Labels(int k) {
  Gpu<S> g(k); g.Color(1, 1, 1, 1);
  for (int n = -127; n <= 127; ++n) for (int fwd = 0; fwd < 2; ++fwd) { Vtx t; t.px = X(100); t.py = Y(100); (fwd ? t.fl : t.sl) = n; g.Run(t); double margin = n ? ((n < 0 ? -n : n) - 1) * 4 / 126.0 : 0, d = 8, px = margin * d < 0.707107 ? margin * d : 0.707107; if (n < 0) px = -px; else if (n == 0) px = 0;
      ai_assert(Near(g.v.position.x, t.px + (fwd ? 0 : px), 0.002) && Near(g.v.position.y, t.py + (fwd ? px : 0), 0.002), "outset-by-label-and-margin"); sksl::float4 c = g.Pixel(); ai_assert(Near(c.w, n == 0 ? 1 : 0, 0.001), "transparent-exactly-outside"); }
}
template <class S> void Outset(int k) { // other transforms: the outset is measured in canvas pixels across the edge
  Gpu<S> g(k); struct M { float a, b, d, e; }; 
  for (M m : {M{2, 0, 0, 2}, M{0, -1, 1, 0}, M{1, 0.5f, 0, 1}, M{1, 0, 0.5f, 1}, M{3, 0, 0, 0.5f}, M{-2, 1, 0.5f, 4}, M{0.25f, 0, 0, 0.25f}})
    for (int which = 0; which < 4; ++which) {
      g.Matrix(m.a, m.b, m.d, m.e); Vtx t; t.px = X(50); t.py = Y(60); t.sx = 8; t.sy = 4; t.fx = -2; t.fy = 6; (which < 2 ? t.sl : t.fl) = which % 2 ? 127 : -127; double dx = which < 2 ? t.sx : t.fx, dy = which < 2 ? t.sy : t.fy, sign = which % 2 ? 1 : -1;
      double det = __builtin_fabs((double)m.a * m.e - (double)m.b * m.d), rx = -dy, ry = dx, tx = m.a * rx + m.b * ry, ty = m.d * rx + m.e * ry, dist = det * (dx * dx + dy * dy) / __builtin_sqrt(tx * tx + ty * ty); double o = 0.707107 / dist; if (o > 4) o = 4;
      double sd = det * 80 / __builtin_sqrt((-m.a * 4 + m.b * 8) * (-m.a * 4 + m.b * 8) + (-m.d * 4 + m.e * 8) * (-m.d * 4 + m.e * 8)); if (sd < 1.2) continue;   // thin strokes fade instead
      g.Run(t); ai_assert(Near(g.v.position.x, t.px + sign * o * dx, 0.004) && Near(g.v.position.y, t.py + sign * o * dy, 0.004), "outset-in-canvas-pixels");
    }
}
template <class S> void Corner(int k) { // both labels: parallel outsets are not added twice
  Gpu<S> g(k); Vtx t; t.px = X(70); t.py = Y(80); t.sl = 127; t.fl = -127; g.Run(t); ai_assert(Near(g.v.position.x, t.px + 0.707107, 0.003) && Near(g.v.position.y, t.py - 0.707107, 0.003), "perpendicular-outsets-add"); t.fx = -8; t.fy = 0; g.Run(t); ai_assert(Near(g.v.position.x, t.px + 0.707107, 0.003) && Near(g.v.position.y, t.py, 0.003), "common-outset-counted-once"); t.fx = 8; g.Run(t); ai_assert(Near(g.v.position.x, t.px, 0.003), "opposite-outsets-cancel");
}
template <class S> void Coverage(int k) { // across a triangle from an exterior vertex to an interior one
  Gpu<S> g(k); g.Color(1, 1, 1, 1);
  for (int which = 0; which < 4; ++which) {
    Vtx out, in; out.sx = in.sx = 16; out.fy = in.fy = 4; (which < 2 ? out.sl : out.fl) = which % 2 ? 127 : -127; g.Run(out); auto a = g.v; g.Run(in); auto b = g.v; double width = which < 2 ? 16.707107 : 4.707107, last = 0;
    for (int n = 0; n <= 24; ++n) { float s = n / 24.f; g.v = S::lerp(a, b, s); double c = g.Pixel().w, d = s * width, want = d / 1.414214 > 1 ? 1 : d / 1.414214; ai_assert(Near(c, want, 0.02), "coverage-ramps-over-the-edge"); ai_assert(c >= last - 1e-4, "coverage-grows-inwards"); last = c; }
  }
}
template <class S> void Thin(int k) { Gpu<S> g(k); g.Color(1, 1, 1, 1); for (float m : {0.02f, 0.05f, 0.1f, 0.5f}) for (int n : {-127, -3, 1, 64}) { g.Matrix(m, 0, 0, m); Vtx t; t.sl = n; t.fl = -n; auto& v = g.Run(t); ai_assert(ai_finite(v.position.x) && ai_finite(v.position.y), "outset-stays-finite"); sksl::float4 c = g.Pixel(); ai_assert(In(c.w, 0, 1), "coverage-in-range"); } }
}
#define EACH(p, fn) PROP(p##_wet) { fn<shader_Wet::S>(0); } PROP(p##_bytes) { fn<shader_Bytes::S>(1); } PROP(p##_floats) { fn<shader_Floats::S>(2); } PROP(p##_bytes_no_hsl) { fn<shader_BytesNoHsl::S>(3); } PROP(p##_bytes_no_uv) { fn<shader_BytesNoUv::S>(4); } PROP(p##_floats_bare) { fn<shader_FloatsBare::S>(5); } PROP(p##_mixed) { fn<shader_Mixed::S>(6); }
EACH(position, Position)
EACH(opacity, Opacity)
PROP(hsl_wet) { Hsl<shader_Wet::S>(0); } PROP(hsl_bytes) { Hsl<shader_Bytes::S>(1); } PROP(hsl_floats) { Hsl<shader_Floats::S>(2); } PROP(hsl_bytes_no_uv) { Hsl<shader_BytesNoUv::S>(4); } PROP(hsl_mixed) { Hsl<shader_Mixed::S>(6); } PROP(no_hsl_bytes) { NoHsl<shader_BytesNoHsl::S>(3); } PROP(no_hsl_floats) { NoHsl<shader_FloatsBare::S>(5); }
PROP(uv_wet) { Uv<shader_Wet::S>(0); } PROP(uv_bytes) { Uv<shader_Bytes::S>(1); } PROP(uv_floats) { Uv<shader_Floats::S>(2); } PROP(uv_bytes_no_hsl) { Uv<shader_BytesNoHsl::S>(3); } PROP(uv_mixed) { Uv<shader_Mixed::S>(6); } PROP(no_uv_bytes) { NoUv<shader_BytesNoUv::S>(4); } PROP(no_uv_floats) { NoUv<shader_FloatsBare::S>(5); }
EACH(labels, Labels)
EACH(outset, Outset)
EACH(corner, Corner)
EACH(coverage, Coverage)
EACH(thin, Thin)
