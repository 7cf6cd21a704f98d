// Stand-ins for the Skia surface that ink uses. Objects record what they were made from.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <string>
#include <string_view>
#include <utility>
#include <vector>
class SkRefCnt { mutable int n_ = 1; public: SkRefCnt() {} SkRefCnt(const SkRefCnt&) = delete; virtual ~SkRefCnt() {} void ref() const { ++n_; } void unref() const { if (--n_ == 0) delete this; } bool unique() const { return n_ == 1; } };
template <class T> void SkSafeRef(T* p) { if (p) p->ref(); }
template <class T> void SkSafeUnref(T* p) { if (p) p->unref(); }
template <class T> class sk_sp { T* p_ = nullptr; public: using element_type = T;
  sk_sp() {} sk_sp(std::nullptr_t) {} explicit sk_sp(T* p) : p_(p) {} sk_sp(const sk_sp& o) : p_(o.p_) { SkSafeRef(p_); } sk_sp(sk_sp&& o) noexcept : p_(o.p_) { o.p_ = nullptr; }
  template <class U> requires std::is_convertible_v<U*, T*> sk_sp(const sk_sp<U>& o) : p_(o.get()) { SkSafeRef(p_); }
  template <class U> requires std::is_convertible_v<U*, T*> sk_sp(sk_sp<U>&& o) : p_(o.release()) {}
  ~sk_sp() { SkSafeUnref(p_); }
  sk_sp& operator=(const sk_sp& o) { if (this != &o) { SkSafeRef(o.p_); T* q = p_; p_ = o.p_; SkSafeUnref(q); } return *this; }
  sk_sp& operator=(sk_sp&& o) noexcept { T* q = p_; p_ = o.p_; o.p_ = nullptr; if (q != p_) SkSafeUnref(q); return *this; }
  sk_sp& operator=(std::nullptr_t) { SkSafeUnref(p_); p_ = nullptr; return *this; }
  T* get() const { return p_; } T* operator->() const { return p_; } T& operator*() const { return *p_; } explicit operator bool() const { return p_; } T* release() { T* q = p_; p_ = nullptr; return q; } void reset(T* p = nullptr) { T* q = p_; p_ = p; SkSafeUnref(q); }
};
template <class T, class U> bool operator==(const sk_sp<T>& a, const sk_sp<U>& b) { return a.get() == b.get(); }
template <class T> bool operator==(const sk_sp<T>& a, std::nullptr_t) { return a.get() == nullptr; }
template <class T, class... A> sk_sp<T> sk_make_sp(A&&... a) { return sk_sp<T>(new T(std::forward<A>(a)...)); }
class SkString { std::string s_; public: SkString() {} explicit SkString(std::string_view v) : s_(v) {} explicit SkString(const char* c) : s_(c) {} explicit SkString(const std::string& c) : s_(c) {} const char* data() const { return s_.data(); } const char* c_str() const { return s_.c_str(); } size_t size() const { return s_.size(); } bool isEmpty() const { return s_.empty(); } bool operator==(const SkString& o) const { return s_ == o.s_; } };
class SkData : public SkRefCnt { std::vector<uint8_t> v_; public: explicit SkData(size_t n) : v_(n) {} static sk_sp<SkData> MakeUninitialized(size_t n) { return sk_sp<SkData>(new SkData(n)); } static sk_sp<SkData> MakeWithCopy(const void* p, size_t n) { auto d = MakeUninitialized(n); std::memcpy(d->v_.data(), p, n); return d; } const void* data() const { return v_.data(); } const uint8_t* bytes() const { return v_.data(); } void* writable_data() { return v_.data(); } size_t size() const { return v_.size(); } bool isEmpty() const { return v_.empty(); } };
enum SkAlphaType : int { kUnknown_SkAlphaType, kOpaque_SkAlphaType, kPremul_SkAlphaType, kUnpremul_SkAlphaType };
enum SkColorType : int { kUnknown_SkColorType, kAlpha_8_SkColorType, kRGB_565_SkColorType, kARGB_4444_SkColorType, kRGBA_8888_SkColorType, kRGB_888x_SkColorType, kBGRA_8888_SkColorType };
enum class SkTileMode { kClamp, kRepeat, kMirror, kDecal };
enum class SkBlendMode { kClear, kSrc, kDst, kSrcOver, kDstOver, kSrcIn, kDstIn, kSrcOut, kDstOut, kSrcATop, kDstATop, kXor, kPlus, kModulate, kScreen, kOverlay, kDarken, kLighten, kColorDodge, kColorBurn, kHardLight, kSoftLight, kDifference, kExclusion, kMultiply, kHue, kSaturation, kColor, kLuminosity };
enum class SkPathFillType { kWinding, kEvenOdd, kInverseWinding, kInverseEvenOdd };
using SkColor = uint32_t; constexpr SkColor SK_ColorWHITE = 0xFFFFFFFF; constexpr SkColor SK_ColorBLACK = 0xFF000000;
struct SkColor4f { float fR, fG, fB, fA; };
struct SkISize { int w = 0, h = 0; int width() const { return w; } int height() const { return h; } };
struct SkSize { float w = 0, h = 0; };
struct SkRect { float fLeft = 0, fTop = 0, fRight = 0, fBottom = 0; static SkRect MakeLTRB(float l, float t, float r, float b) { return SkRect{l, t, r, b}; } };
struct SkSamplingOptions { int mode = 0; };
class SkMatrix { public: float m[9] = {1, 0, 0, 0, 1, 0, 0, 0, 1}; static SkMatrix MakeAll(float a, float b, float c, float d, float e, float f, float g, float h, float i) { SkMatrix r; float v[9] = {a, b, c, d, e, f, g, h, i}; for (int k = 0; k < 9; ++k) r.m[k] = v[k]; return r; } float get(int i) const { return m[i]; } };
class SkM44 { public: float m[16]; SkM44(float a, float b, float c, float d, float e, float f, float g, float h, float i, float j, float k, float l, float mm, float n, float o, float p) : m{a, b, c, d, e, f, g, h, i, j, k, l, mm, n, o, p} {} float rc(int r, int c) const { return m[4 * r + c]; } };
namespace SkNamedTransferFn { struct Fn { int id; }; inline constexpr Fn kLinear{0}, kSRGB{1}; }
namespace SkNamedGamut { struct G { int id; }; inline constexpr G kSRGB{0}, kDisplayP3{1}; }
class SkColorSpace : public SkRefCnt { public: int fn, gamut; SkColorSpace(int f, int g) : fn(f), gamut(g) {} static sk_sp<SkColorSpace> MakeSRGB() { return sk_sp<SkColorSpace>(new SkColorSpace(1, 0)); } static sk_sp<SkColorSpace> MakeSRGBLinear() { return sk_sp<SkColorSpace>(new SkColorSpace(0, 0)); } static sk_sp<SkColorSpace> MakeRGB(SkNamedTransferFn::Fn f, SkNamedGamut::G g) { return sk_sp<SkColorSpace>(new SkColorSpace(f.id, g.id)); } };
class SkBlender : public SkRefCnt { public: SkBlendMode mode; explicit SkBlender(SkBlendMode m) : mode(m) {} static sk_sp<SkBlender> Mode(SkBlendMode m) { return sk_sp<SkBlender>(new SkBlender(m)); } };
class SkImage;
class SkShader : public SkRefCnt { public: int kind = 0; SkBlendMode mode = SkBlendMode::kSrc; sk_sp<SkShader> dst, src; sk_sp<SkImage> image; SkTileMode tx = SkTileMode::kClamp, ty = SkTileMode::kClamp; SkMatrix local, outer; inline sk_sp<SkShader> makeWithLocalMatrix(const SkMatrix& m) const; ~SkShader() override; };
class SkImageInfo { public: int w = 0, h = 0; SkColorType ct = kUnknown_SkColorType; SkAlphaType at = kUnknown_SkAlphaType; sk_sp<SkColorSpace> cs; static SkImageInfo Make(int w, int h, SkColorType c, SkAlphaType a, sk_sp<SkColorSpace> s) { SkImageInfo i; i.w = w; i.h = h; i.ct = c; i.at = a; i.cs = std::move(s); return i; } size_t computeMinByteSize() const { return (size_t)w * (size_t)h * (ct == kRGBA_8888_SkColorType || ct == kBGRA_8888_SkColorType ? 4 : 1); } };
class SkImage : public SkRefCnt { public: SkImageInfo info; std::vector<uint8_t> px; SkISize dimensions() const { return {info.w, info.h}; } int width() const { return info.w; } int height() const { return info.h; } };
inline SkShader::~SkShader() {}
inline sk_sp<SkShader> SkShader::makeWithLocalMatrix(const SkMatrix& m) const { sk_sp<SkShader> s(new SkShader); s->kind = kind; s->mode = mode; s->dst = dst; s->src = src; s->image = image; s->tx = tx; s->ty = ty; s->local = local; s->outer = m; return s; }
class SkBitmap { SkImageInfo i_; std::vector<uint8_t> v_; public: bool tryAllocPixels(const SkImageInfo& i) { i_ = i; v_.resize(i.computeMinByteSize()); return true; } void* getPixels() { return v_.data(); } void setImmutable() {} sk_sp<SkImage> asImage() const { sk_sp<SkImage> m(new SkImage); m->info = i_; m->px = v_; return m; } };
namespace SkShaders { inline sk_sp<SkShader> Image(sk_sp<SkImage> i, SkTileMode x, SkTileMode y, const SkSamplingOptions&, const SkMatrix* m) { sk_sp<SkShader> s(new SkShader); s->kind = 1; s->image = std::move(i); s->tx = x; s->ty = y; if (m) s->local = *m; return s; } inline sk_sp<SkShader> Blend(SkBlendMode b, sk_sp<SkShader> d, sk_sp<SkShader> r) { sk_sp<SkShader> s(new SkShader); s->kind = 2; s->mode = b; s->dst = std::move(d); s->src = std::move(r); return s; } }
class SkPaint { public: enum Style { kFill_Style, kStroke_Style, kStrokeAndFill_Style }; bool aa = false; Style style = kFill_Style; SkColor color = SK_ColorBLACK; SkColor4f color4{}; int cs_fn = -1, cs_gamut = -1; sk_sp<SkShader> shader; void setAntiAlias(bool b) { aa = b; } void setStyle(Style s) { style = s; } void setShader(sk_sp<SkShader> s) { shader = std::move(s); } void setColor(SkColor c) { color = c; } void setColor(const SkColor4f& c, SkColorSpace* s) { color4 = c; cs_fn = s ? s->fn : -1; cs_gamut = s ? s->gamut : -1; } };
class SkPath { public: struct P { float x, y; }; std::vector<P> pts; bool closed = false; SkPathFillType fill = SkPathFillType::kWinding; SkPath& moveTo(float x, float y) { pts.push_back({x, y}); return *this; } SkPath& lineTo(float x, float y) { pts.push_back({x, y}); return *this; } SkPath& close() { closed = true; return *this; } void setFillType(SkPathFillType f) { fill = f; } };
class SkMeshSpecification : public SkRefCnt { public:
  static constexpr size_t kMaxAttributes = 8, kMaxVaryings = 6, kMaxStride = 1024;
  struct Attribute { enum class Type : uint32_t { kFloat, kFloat2, kFloat3, kFloat4, kUByte4_unorm, kLast = kUByte4_unorm }; Type type; size_t offset; SkString name; };
  struct Varying { enum class Type : uint32_t { kFloat, kFloat2, kFloat3, kFloat4, kHalf, kHalf2, kHalf3, kHalf4 }; Type type; SkString name; };
  struct Uniform { enum class Type { kFloat, kFloat2, kFloat3, kFloat4, kFloat2x2, kFloat3x3, kFloat4x4, kInt, kInt2, kInt3, kInt4 }; std::string_view name; size_t offset = 0; Type type = Type::kFloat; };
  std::vector<Attribute> attrs; size_t stride_ = 0; std::vector<Varying> varys; SkString vs, fs; std::vector<Uniform> unis; size_t usize = 0; sk_sp<SkColorSpace> cs; SkAlphaType at = kUnknown_SkAlphaType;
  struct Result { sk_sp<SkMeshSpecification> specification; SkString error; };
  template <class A, class V> static Result Make(A a, size_t stride, V v, SkString vs, SkString fs, sk_sp<SkColorSpace> cs, SkAlphaType at) { sk_sp<SkMeshSpecification> s(new SkMeshSpecification); s->attrs.assign(a.begin(), a.end()); s->stride_ = stride; s->varys.assign(v.begin(), v.end()); s->vs = std::move(vs); s->fs = std::move(fs); s->cs = std::move(cs); s->at = at; s->scan(s->vs); s->scan(s->fs); return {s, SkString()}; }
  void scan(const SkString& src) { std::string_view t(src.data(), src.size()); size_t i = 0; while ((i = t.find("uniform ", i)) != t.npos) { i += 8; size_t e = t.find(';', i); if (e == t.npos) return; std::string_view d = t.substr(i, e - i); size_t sp = d.rfind(' '); std::string_view nm = d.substr(sp + 1); std::string_view ty = d.substr(0, sp); while (!ty.empty() && ty.back() == ' ') ty.remove_suffix(1); size_t s2 = ty.rfind(' '); if (s2 != ty.npos) ty = ty.substr(s2 + 1); if (findUniform(nm)) continue; Uniform u; u.name = nm; size_t sz = 4; if (ty == "float4" || ty == "half4") { u.type = Uniform::Type::kFloat4; sz = 16; } else if (ty == "float2") { u.type = Uniform::Type::kFloat2; sz = 8; } else if (ty == "int") { u.type = Uniform::Type::kInt; } u.offset = usize; usize += sz; unis.push_back(u); } }
  const std::vector<Uniform>& uniforms() const { return unis; } size_t uniformSize() const { return usize; } size_t stride() const { return stride_; }
  const Uniform* findUniform(std::string_view n) const { for (const Uniform& u : unis) if (u.name == n) return &u; return nullptr; } };
class GrDirectContext;
class SkMesh { public: class VertexBuffer : public SkRefCnt { public: uint8_t* d = nullptr; size_t n = 0; VertexBuffer() {} ~VertexBuffer() override { delete[] d; } }; class IndexBuffer : public SkRefCnt { public: uint8_t* d = nullptr; size_t n = 0; IndexBuffer() {} ~IndexBuffer() override { delete[] d; } }; class ChildPtr {}; enum class Mode { kTriangles, kTriangleStrip }; struct Result;
  sk_sp<SkMeshSpecification> spec; sk_sp<VertexBuffer> vb; sk_sp<IndexBuffer> ib; sk_sp<const SkData> uniforms; size_t vcount = 0, voff = 0, icount = 0, ioff = 0; SkRect bounds; bool valid = false; Mode mode = Mode::kTriangles;
  bool isValid() const { return valid; } struct NoChildren {};
  static inline Result MakeIndexed(sk_sp<SkMeshSpecification>, Mode, sk_sp<VertexBuffer>, size_t vc, size_t vo, sk_sp<IndexBuffer>, size_t ic, size_t io, sk_sp<const SkData>, NoChildren, const SkRect&); };
struct SkMesh::Result { SkMesh mesh; SkString error; };
inline SkMesh::Result SkMesh::MakeIndexed(sk_sp<SkMeshSpecification> s, Mode mode, sk_sp<VertexBuffer> v, size_t vc, size_t vo, sk_sp<IndexBuffer> i, size_t ic, size_t io, sk_sp<const SkData> u, NoChildren, const SkRect& b) { Result r; r.mesh.spec = std::move(s); r.mesh.mode = mode; r.mesh.vb = std::move(v); r.mesh.ib = std::move(i); r.mesh.vcount = vc; r.mesh.voff = vo; r.mesh.icount = ic; r.mesh.ioff = io; r.mesh.uniforms = std::move(u); r.mesh.bounds = b; r.mesh.valid = r.mesh.vb.get() && r.mesh.ib.get() && vc >= 3 && ic >= 3; return r; }
namespace SkMeshes { inline sk_sp<SkMesh::VertexBuffer> MakeVertexBuffer(GrDirectContext*, const void* d, size_t n) { sk_sp<SkMesh::VertexBuffer> b(new SkMesh::VertexBuffer); b->d = new uint8_t[n ? n : 1]; std::memcpy(b->d, d, n); b->n = n; return b; } inline sk_sp<SkMesh::IndexBuffer> MakeIndexBuffer(GrDirectContext*, const void* d, size_t n) { sk_sp<SkMesh::IndexBuffer> b(new SkMesh::IndexBuffer); b->d = new uint8_t[n ? n : 1]; std::memcpy(b->d, d, n); b->n = n; return b; } }
class SkCanvas { public: virtual ~SkCanvas() {} virtual void drawMesh(const SkMesh&, sk_sp<SkBlender>, const SkPaint&) {} virtual void drawPath(const SkPath&, const SkPaint&) {} virtual void setMatrix(const SkM44&) {} };
class GrDirectContext : public SkRefCnt {};
