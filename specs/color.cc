// Colors: no NaN, alpha in range, format conversions, gamut operations and color spaces.
#include "specs/common.h"
#include "ink/color/color.h"
#include "ink/color/color_helpers.h"
#include "ink/color/color_space.h"
using namespace ink;
using Fo = Color::Format; using RF = Color::RgbaFloat; using RU = Color::RgbaUint8; using CS = ColorSpace;
static Fo AnyFormat() { static constexpr Fo f[] = {Fo::kLinear, Fo::kGammaEncoded, Fo::kPremultipliedAlpha}; return f[ai_split(ai_i32(0, 2, "format"))]; }
static CS AnySpace(const char* n = "space") { return ai_bool(n) ? CS::kDisplayP3 : CS::kSrgb; }
static const char* kN[] = {"r", "g", "b", "a"};
static float At(const RF& f, int i) { return i == 0 ? f.r : i == 1 ? f.g : i == 2 ? f.b : f.a; }
static uint8_t At(const RU& f, int i) { return i == 0 ? f.r : i == 1 ? f.g : i == 2 ? f.b : f.a; }
static Color Lin(const float* c, CS s = CS::kSrgb) { return Color::FromFloat(c[0], c[1], c[2], c[3], Fo::kLinear, s); }
static void Whole(const Color& c) { RF f = c.AsFloat(Fo::kLinear); for (int i = 0; i < 4; ++i) ai_assert(ai_not(ai_isnan(At(f, i))), "never-nan"); ai_assert(In(f.a, 0, 1), "alpha-in-unit-interval"); ai_assert(ai_and(ai_fle(0, c.GetAlphaFloat()), ai_fle(c.GetAlphaFloat(), 1)), "alpha-in-unit-interval"); }
// ---- construction
PROP(color_made_whole) { Fo f = AnyFormat(); CS s = AnySpace(); float c[4]; for (int i = 0; i < 4; ++i) c[i] = ai_f32(kN[i]); if (f == Fo::kPremultipliedAlpha) ai_assume(ai_flt(0, c[3])); Color k = Color::FromFloat(c[0], c[1], c[2], c[3], f, s); Whole(k); ai_assert(k.GetColorSpace() == s, "color-space-kept"); }
PROP(color_linear_kept) { float c[4]; for (int i = 0; i < 4; ++i) c[i] = NonNan(kN[i]); bool in = false; if (In(c[3], 0, 1)) in = true; RF f = Lin(c).AsFloat(Fo::kLinear); for (int i = 0; i < 3; ++i) ai_ident_f(At(f, i), c[i], "linear-channels-stored-as-given"); if (in) ai_assert(ai_feq(f.a, c[3]), "alpha-stored"); else ai_assert(ai_feq(f.a, c[3] < 0 ? 0 : 1), "alpha-clamped"); }
PROP(color_nan_is_zero) { int k = (int)ai_split(ai_i32(0, 3, "channel")); Fo f = AnyFormat(); float c[4] = {.5f, .25f, .75f, 1}; c[k] = std::numeric_limits<float>::quiet_NaN(); if (f == Fo::kPremultipliedAlpha && k == 3) return; RF g = Color::FromFloat(c[0], c[1], c[2], c[3], f).AsFloat(Fo::kLinear); ai_assert(At(g, k) == 0, "nan-means-zero"); for (int i = 0; i < 4; ++i) if (i != k) ai_assert(At(g, i) > 0, "other-channels-kept"); }
PROP(color_premultiplied) { float c[4]; for (int i = 0; i < 4; ++i) c[i] = i < 3 ? ai_f32_in(-4, 4, kN[i]) : ai_f32_in(.001, 1, "a"); Color k = Color::FromFloat(c[0], c[1], c[2], c[3], Fo::kPremultipliedAlpha); RF f = k.AsFloat(Fo::kLinear), p = k.AsFloat(Fo::kPremultipliedAlpha); for (int i = 0; i < 3; ++i) { ai_same((double)At(f, i) * c[3], c[i], 1e-6, "unpremultiplied-by-alpha"); ai_same(At(p, i), c[i], 1e-6, "premultiplied-round-trip"); } ai_ident_f(f.a, c[3], "alpha-independent-of-format"); ai_ident_f(p.a, c[3], "alpha-independent-of-format"); }
PROP(color_as_premultiplied) { float c[4]; for (int i = 0; i < 3; ++i) c[i] = NonNan(kN[i]); c[3] = ai_f32_in(0, 1, "a"); RF p = Lin(c).AsFloat(Fo::kPremultipliedAlpha); for (int i = 0; i < 4; ++i) ai_assert(ai_not(ai_isnan(At(p, i))), "never-nan"); if (c[3] == 0) { for (int i = 0; i < 3; ++i) ai_assert(At(p, i) == 0, "zero-alpha-premultiplies-to-zero"); } else for (int i = 0; i < 3; ++i) ai_same(At(p, i), (double)c[i] * c[3], 1e-6, "premultiplied-is-channel-times-alpha"); }
PROP(color_transparent_premultiplied) { float a = ai_f32("a"); ai_assume(ai_not(ai_flt(0, a))); Color k = Color::FromFloat(0, 0, 0, a, Fo::kPremultipliedAlpha); ai_assert(k == Color::Transparent(), "zero-premultiplied-is-transparent"); }
PROP(color_bad_premultiplied) { ai_opt("allow-check-failure"); float c[3] = {0, 0, 0}; c[ai_split(ai_i32(0, 2, "channel"))] = ai_f32_in(.001, 1, "v"); bool neg = ai_bool("neg"); float s = neg ? -1.f : 1.f; Color::FromFloat(s * c[0], s * c[1], s * c[2], 0, Fo::kPremultipliedAlpha); ai_assert(false, "never-accepts-color-under-zero-alpha"); }
PROP(color_bad_premultiplied_bytes) { ai_opt("allow-check-failure"); uint8_t c[3] = {0, 0, 0}; c[ai_split(ai_i32(0, 2, "channel"))] = ai_u8(1, 255, "v"); if (ai_bool("packed")) Color::FromPackedUint32RGBA(uint32_t(c[0]) << 24 | uint32_t(c[1]) << 16 | uint32_t(c[2]) << 8, Fo::kPremultipliedAlpha); else Color::FromUint8(c[0], c[1], c[2], 0, Fo::kPremultipliedAlpha); ai_assert(false, "never-accepts-color-under-zero-alpha"); }
// ---- gamma (the sRGB curve, for both spaces), and its inverse
static double Eotf(double x) { return x <= .04045 ? x / 12.92 : std::pow((x + .055) / 1.055, 2.4); }
PROP(gamma_curve) { CS s = AnySpace(); int k = (int)ai_split(ai_i32(0, 100, "x")); float x = k / 100.f, y = GammaDecode(x, s); ai_assert(std::fabs(y - Eotf(x)) <= 1e-6, "decoding-follows-the-srgb-curve"); ai_assert(std::fabs(GammaEncode((float)Eotf(x), s) - x) <= 2e-6, "encoding-inverts-decoding"); Color c = Color::FromFloat(x, 0, 1, .5f, Fo::kGammaEncoded, s); RF f = c.AsFloat(Fo::kLinear), g = c.AsFloat(Fo::kGammaEncoded); ai_assert(std::fabs(f.r - Eotf(x)) <= 1e-6 && f.g == 0 && std::fabs(f.b - 1) <= 1e-6 && f.a == .5f, "gamma-decoded-on-construction"); ai_assert(std::fabs(g.r - x) <= 2e-6 && g.g == 0 && std::fabs(g.b - 1) <= 2e-6 && g.a == .5f, "gamma-encoded-on-request"); }
PROP(gamma_linear_part) { CS s = AnySpace(); float x = ai_f32_in(-1000, .0404, "x"); ai_same((double)GammaDecode(x, s) * 12.92, x, 1e-6, "linear-near-zero"); float y = ai_f32_in(-1000, .0031, "y"); ai_same(GammaEncode(y, s), (double)y * 12.92, 1e-6, "linear-near-zero"); }
PROP(gamma_range) { CS s = AnySpace(); float x = ai_f32_in(0, 1, "x"); ai_assert(In(GammaDecode(x, s), 0, 1.00001), "unit-interval-kept"); ai_assert(In(GammaEncode(x, s), 0, 1.00001), "unit-interval-kept"); float y = NonNan("y"); ai_assert(ai_not(ai_isnan(GammaDecode(y, s))), "never-nan"); ai_assert(ai_not(ai_isnan(GammaEncode(y, s))), "never-nan"); }
PROP(gamma_parameters) { auto p = GetGammaDecodingParameters(AnySpace()); double w[] = {1 / 1.055, .055 / 1.055, 1 / 12.92, .04045, 2.4}; for (int i = 0; i < 5; ++i) ai_assert(std::fabs(p[i] - w[i]) <= 1e-6, "icc-type-3-parameters"); }
PROP(gamma_formats_independent) { float c[4]; for (int i = 0; i < 4; ++i) c[i] = i < 3 ? ai_f32_in(-10, .0404, kN[i]) : ai_f32_in(0, 1, "a"); RF f = Color::FromFloat(c[0], c[1], c[2], c[3]).AsFloat(Fo::kLinear), g = Color::FromFloat(c[0], c[1], c[2], c[3]).AsFloat(Fo::kGammaEncoded); for (int i = 0; i < 3; ++i) { ai_same((double)At(f, i) * 12.92, c[i], 1e-6, "each-channel-decoded"); ai_same(At(g, i), c[i], 1e-5, "each-channel-round-trips"); } ai_ident_f(f.a, c[3], "alpha-independent-of-format"); ai_ident_f(g.a, c[3], "alpha-independent-of-format"); }
// ---- bytes
PROP(bytes_nearest) { float c[4]; for (int i = 0; i < 4; ++i) c[i] = i < 3 ? ai_f32_in(0, 1, kN[i]) : ai_f32_in(0, 1, "a"); int k = (int)ai_split(ai_i32(0, 3, "channel")); Color q = Lin(c); RF f = q.AsFloat(Fo::kLinear); RU u = q.AsUint8(Fo::kLinear); ai_near((double)At(u, k), 255. * At(f, k), .5001, "byte-is-nearest"); }
PROP(bytes_clamped) { Fo f = AnyFormat(); int k = (int)ai_split(ai_i32(0, 2, "channel")); bool neg = ai_bool("negative"); float c[4] = {.5f, .5f, .5f, 1}; c[k] = neg ? ai_f32_in(-kInf, 0, "v") : ai_f32_in(1, kInf, "v"); RU u = Lin(c).AsUint8(f); ai_assert(At(u, k) == (neg ? 0 : 255), "bytes-clamp-to-their-range"); for (int i = 0; i < 4; ++i) if (i == 3) ai_assert(At(u, i) == 255, "other-channels-kept"); else if (i != k) ai_assert(At(u, i) == (f == Fo::kGammaEncoded ? 188 : 128), "other-channels-kept"); }
PROP(bytes_round_trip) { int k = (int)ai_split(ai_i32(0, 255, "byte")), r = k, g = 255 - k, b = k * 7 & 255; Fo f = ai_bool("linear") ? Fo::kLinear : Fo::kGammaEncoded; Color c = Color::FromUint8(r, g, b, k, f); RU u = c.AsUint8(f); ai_assert(u.r == r && u.g == g && u.b == b && u.a == k, "byte-round-trip"); ai_assert(c == Color::FromFloat(r / 255.f, g / 255.f, b / 255.f, k / 255.f, f), "bytes-are-fractions-of-255"); uint32_t p = uint32_t(r) << 24 | uint32_t(g) << 16 | uint32_t(b) << 8 | uint32_t(k); ai_assert(Color::FromPackedUint32RGBA(p, f) == c && c.AsPackedUint32RGBA(f) == p, "packed-order-is-rgba"); }
PROP(bytes_premultiplied) { int a = 1 + (int)ai_split(ai_i32(0, 63, "alpha")) * 4, k = (int)ai_split(ai_i32(0, 3, "part")) * a / 3; Color c = Color::FromUint8(k, a - k, a, a, Fo::kPremultipliedAlpha); RU u = c.AsUint8(Fo::kPremultipliedAlpha); ai_assert(u.r == k && u.g == a - k && u.b == a && u.a == a, "premultiplied-byte-round-trip"); }
PROP(bytes_space) { CS s = AnySpace(); Fo f = AnyFormat(); ai_assert(Color::FromUint8(1, 2, 3, 255, f, s).GetColorSpace() == s && Color::FromPackedUint32RGBA(0x010203FF, f, s).GetColorSpace() == s, "color-space-kept"); ai_assert(Color::FromUint8(10, 20, 30, 40) == Color::FromUint8(10, 20, 30, 40, Fo::kGammaEncoded, CS::kSrgb) && Color::FromPackedUint32RGBA(0x0A141E28) == Color::FromUint8(10, 20, 30, 40) && Color::FromFloat(.5f, .25f, 1, .5f) == Color::FromFloat(.5f, .25f, 1, .5f, Fo::kGammaEncoded, CS::kSrgb), "defaults-are-gamma-encoded-srgb"); ai_assert(Color() == Color::FromFloat(0, 0, 0, 1) && Color() == Color::Black(), "default-is-opaque-black"); }
PROP(bytes_argb) { uint32_t v = (uint32_t)ai_bits(32, "argb"); RU u = UnpackUint32ARGB(v); ai_ident_i(u.a, (uint8_t)(v >> 24), "argb-order"); ai_ident_i(u.r, (uint8_t)(v >> 16), "argb-order"); ai_ident_i(u.g, (uint8_t)(v >> 8), "argb-order"); ai_ident_i(u.b, (uint8_t)v, "argb-order"); ai_ident_i(PackUint32ARGB(u), v, "argb-round-trip"); }
PROP(bytes_named) { struct { Color c; uint32_t v; } t[] = {{Color::Black(), 0x000000ff}, {Color::White(), 0xffffffff}, {Color::Transparent(), 0}, {Color::Red(), 0xff0000ff}, {Color::Yellow(), 0xffff00ff}, {Color::Green(), 0x00ff00ff}, {Color::Cyan(), 0x00ffffff}, {Color::Blue(), 0x0000ffff}, {Color::Magenta(), 0xff00ffff}}; for (auto& x : t) ai_assert(x.c.AsPackedUint32RGBA(Fo::kGammaEncoded) == x.v && x.c.GetColorSpace() == CS::kSrgb, "named-colors"); }
// ---- comparison
PROP(color_equality) { float a[4], b[4]; for (int i = 0; i < 4; ++i) { a[i] = b[i] = i < 3 ? NonNan(kN[i]) : ai_f32_in(0, 1, "a"); } CS s = AnySpace("s"), t = AnySpace("t"); int k = (int)ai_split(ai_i32(-1, 3, "differs")); if (k >= 0) b[k] = k < 3 ? NonNan("other") : ai_f32_in(0, 1, "other"); Color p = Lin(a, s), q = Lin(b, t); bool eq = ai_and(s == t, k < 0 ? true : ai_feq(a[k], b[k])); bool r = p == q, n = p != q; ai_assert(r != n, "inequality-is-the-negation"); IFF(eq, r, "equal-exactly-when-all-parts-are"); }
PROP(color_nearly) { float a[4], b[4]; for (int i = 0; i < 4; ++i) a[i] = b[i] = .5f; int k = (int)ai_split(ai_i32(0, 3, "channel")); int kind = (int)ai_split(ai_i32(0, 2, "kind")); b[k] = kind == 0 ? ai_f32_in(.499993, .500007, "v") : kind == 1 ? ai_f32_in(0, .4999, "v") : ai_f32_in(.5001, 1, "v"); bool far = kind != 0; CS s = AnySpace(); bool r = Lin(a, s).NearlyEquals(Lin(b, s)); if (far) ai_assert(!r, "nearly-equal-needs-every-channel-close"); else ai_assert(r, "close-channels-are-nearly-equal"); }
PROP(color_nearly_across) { int k = (int)ai_split(ai_i32(0, 3, "color")); static constexpr float t[][4] = {{1, 0, 0, 1}, {.2f, .4f, .6f, .5f}, {1, 1, 1, 1}, {0, 0, 0, 0}}; CS s = AnySpace(), o = s == CS::kSrgb ? CS::kDisplayP3 : CS::kSrgb; Color c = Lin(t[k], s); ai_assert(c.NearlyEquals(c.InColorSpace(o)) && c.InColorSpace(o).NearlyEquals(c), "nearly-equal-after-conversion"); if (k < 2) ai_assert(!c.NearlyEquals(Lin(t[k], o)), "same-numbers-in-another-space-differ"); }
// ---- gamut
PROP(gamut_tests) { float c[4] = {.5f, .5f, .5f, 1}; int k = (int)ai_split(ai_i32(0, 2, "channel")); float v = NonNan("v"); c[k] = v; Color q = Lin(c); IFF(In(v, 0, 1), q.IsInGamut(), "in-gamut-exactly-within-unit-interval"); }
PROP(gamut_nearly) { float c[4] = {.5f, .5f, .5f, 1}; int k = (int)ai_split(ai_i32(0, 2, "channel")), kind = (int)ai_split(ai_i32(0, 2, "kind")); float v = kind == 0 ? ai_f32_in(-7e-6, 1.000007, "v") : kind == 1 ? ai_f32_in(-kInf, -1e-5, "v") : ai_f32_in(1.00001, kInf, "v"); c[k] = v; ai_assert(Lin(c).IsNearlyInGamut() == (kind == 0), "nearly-in-gamut-within-a-small-distance"); }
PROP(gamut_clamped) { float c[4]; for (int i = 0; i < 4; ++i) c[i] = i < 3 ? NonNan(kN[i]) : ai_f32_in(0, 1, "a"); CS s = AnySpace(); Color q = Lin(c, s).ClampedToGamut(); RF f = q.AsFloat(Fo::kLinear); int i = (int)ai_split(ai_i32(0, 2, "channel")); if (In(c[i], 0, 1)) ai_assert(ai_feq(At(f, i), c[i]), "in-gamut-channels-kept"); else ai_assert(ai_feq(At(f, i), c[i] < 0 ? 0 : 1), "channels-clamped"); ai_assert(ai_feq(f.a, c[3]), "alpha-kept"); ai_assert(q.GetColorSpace() == s, "color-space-kept"); }
PROP(gamut_scaled) { float c[4]; for (int i = 0; i < 4; ++i) c[i] = i < 3 ? NonNan(kN[i]) : ai_f32_in(0, 1, "a"); CS s = AnySpace(); Color q = Lin(c, s).ScaledToGamut(); Whole(q); RF f = q.AsFloat(Fo::kLinear); for (int i = 0; i < 3; ++i) { ai_assert(In(At(f, i), 0, 1), "scaled-into-gamut"); } ai_assert(ai_feq(f.a, c[3]), "alpha-kept"); ai_assert(q.GetColorSpace() == s, "color-space-kept"); }
PROP(gamut_scaled_ratio) { float c[4] = {0, 0, 0, .5f}; int m = (int)ai_split(ai_i32(0, 2, "largest")); for (int i = 0; i < 3; ++i) c[i] = i == m ? ai_f32_in(1.5, 1e6, "max") : ai_f32_in(-1, 1.25, kN[i]); RF f = Lin(c).ScaledToGamut().AsFloat(Fo::kLinear); ai_assert(ai_feq(At(f, m), 1), "largest-channel-becomes-one"); for (int i = 0; i < 3; ++i) if (i != m) { if (c[i] <= 0) ai_assert(ai_feq(At(f, i), 0), "negative-channels-become-zero"); else ai_same((double)At(f, i) * c[m], c[i], 1e-6, "channels-scaled-by-one-factor"); } }
PROP(gamut_scaled_inside) { float c[4]; for (int i = 0; i < 4; ++i) c[i] = ai_f32_in(0, 1, kN[i]); RF f = Lin(c).ScaledToGamut().AsFloat(Fo::kLinear); for (int i = 0; i < 4; ++i) ai_assert(ai_feq(At(f, i), c[i]), "colors-in-gamut-unchanged"); }
// ---- spaces
PROP(space_same) { float c[4]; for (int i = 0; i < 4; ++i) c[i] = i < 3 ? NonNan(kN[i]) : ai_f32_in(0, 1, "a"); CS s = AnySpace(); Color q = Lin(c, s).InColorSpace(s); RF f = q.AsFloat(Fo::kLinear); for (int i = 0; i < 4; ++i) ai_ident_f(At(f, i), c[i], "same-space-unchanged"); ai_assert(q.GetColorSpace() == s, "target-space"); }
PROP(space_any) { float c[4]; for (int i = 0; i < 4; ++i) c[i] = i < 3 ? NonNan(kN[i]) : ai_f32_in(0, 1, "a"); CS s = AnySpace("s"), t = AnySpace("t"); Color q = Lin(c, s).InColorSpace(t); Whole(q); ai_ident_f(q.GetAlphaFloat(), c[3], "alpha-copied"); ai_assert(q.GetColorSpace() == t, "target-space"); }
// sRGB to Display P3 in linear light, from the published primaries
static constexpr double kToP3[9] = {.8224620, .0331942, .0170826, .1775380, .9668058, .0723974, 0, 0, .9105199}, kToSrgb[9] = {1.2249402, -.0420570, -.0196376, -.2249402, 1.0420570, -.0786361, 0, 0, 1.0982736};
PROP(space_convert) { bool to = ai_bool("to p3"); const double* m = to ? kToP3 : kToSrgb; float c[4]; for (int i = 0; i < 4; ++i) c[i] = i < 3 ? ai_f32_in(-2, 2, kN[i]) : ai_f32_in(0, 1, "a"); CS s = to ? CS::kSrgb : CS::kDisplayP3, t = to ? CS::kDisplayP3 : CS::kSrgb; RF f = Lin(c, s).InColorSpace(t).AsFloat(Fo::kLinear); auto g = ConvertColor({c[0], c[1], c[2], c[3]}, s, t); for (int i = 0; i < 3; ++i) { double w = m[i] * c[0] + m[3 + i] * c[1] + m[6 + i] * c[2]; ai_near(At(f, i), w, 1e-4, "published-conversion"); ai_near(g[i], w, 1e-4, "published-conversion"); } ai_ident_f(g[3], c[3], "alpha-copied"); }
PROP(space_round_trip) { CS s = AnySpace(), o = s == CS::kSrgb ? CS::kDisplayP3 : CS::kSrgb; float c[4]; for (int i = 0; i < 4; ++i) c[i] = i < 3 ? ai_f32_in(-2, 2, kN[i]) : 1; RF f = Lin(c, s).InColorSpace(o).InColorSpace(s).AsFloat(Fo::kLinear); for (int i = 0; i < 3; ++i) ai_near(At(f, i), c[i], 1e-4, "conversion-inverts"); }
PROP(space_matrices) { CS s = AnySpace(); auto to = GetColorSpaceToXyzD65Matrix(s, MatrixLayout::kColumnMajor), fr = GetXyzD65ToColorSpaceMatrix(s, MatrixLayout::kColumnMajor), tr = GetColorSpaceToXyzD65Matrix(s, MatrixLayout::kRowMajor), rr = GetXyzD65ToColorSpaceMatrix(s, MatrixLayout::kRowMajor);
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { ai_assert(to[3 * j + i] == tr[3 * i + j] && fr[3 * j + i] == rr[3 * i + j], "row-major-is-the-transpose"); double d = 0; for (int k = 0; k < 3; ++k) d += (double)to[3 * k + i] * fr[3 * j + k]; ai_assert(std::fabs(d - (i == j)) <= 1e-5, "matrices-are-inverse"); }
  static constexpr double white[] = {.95043, 1, 1.0889}; for (int i = 0; i < 3; ++i) { double d = 0; for (int k = 0; k < 3; ++k) d += to[3 * k + i]; ai_assert(std::fabs(d - white[i]) <= 1e-3, "white-is-d65"); } double y[2][3] = {{.2126, .7152, .0722}, {.2290, .6917, .0793}}; for (int k = 0; k < 3; ++k) ai_assert(std::fabs(to[3 * k + 1] - y[s == CS::kDisplayP3][k]) <= 1e-3, "luminance-row"); 
  CS o = s == CS::kSrgb ? CS::kDisplayP3 : CS::kSrgb; auto x = GetXyzD65ToColorSpaceMatrix(o, MatrixLayout::kColumnMajor); for (int k = 0; k < 3; ++k) { auto g = ConvertColor({float(k == 0), float(k == 1), float(k == 2), 1}, s, o); for (int i = 0; i < 3; ++i) { double d = 0; for (int l = 0; l < 3; ++l) d += (double)x[3 * l + i] * to[3 * k + l]; ai_assert(std::fabs(d - g[i]) <= 1e-5, "conversion-goes-through-xyz"); } } }
PROP(color_with_alpha) { float c[4]; for (int i = 0; i < 4; ++i) c[i] = i < 3 ? NonNan(kN[i]) : ai_f32_in(0, 1, "a"); CS s = AnySpace(); float a = ai_f32("new"); bool nan = false, in = false; if (ai_isnan(a)) nan = true; else if (In(a, 0, 1)) in = true; Color q = Lin(c, s).WithAlphaFloat(a); RF f = q.AsFloat(Fo::kLinear); for (int i = 0; i < 3; ++i) ai_ident_f(At(f, i), c[i], "color-channels-kept"); ai_assert(q.GetColorSpace() == s, "color-space-kept"); if (nan) ai_assert(f.a == 0, "nan-alpha-is-zero"); else if (in) ai_assert(ai_feq(f.a, a), "alpha-replaced"); else ai_assert(ai_feq(f.a, a < 0 ? 0 : 1), "alpha-clamped"); }
