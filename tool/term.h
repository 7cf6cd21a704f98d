// Value-number terms and the numeric abstract domain (float class x interval, signed/unsigned int intervals).
#pragma once
#include <cassert>
#include <cfloat>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <deque>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

enum class TK : uint8_t { Int, F32, F64, Ptr };
struct Ty {
  TK k = TK::Int; uint16_t w = 0;
  bool operator==(const Ty& o) const { return k == o.k && w == o.w; }
  bool operator!=(const Ty& o) const { return !(*this == o); }
  bool isF() const { return k == TK::F32 || k == TK::F64; }
  bool isI() const { return k == TK::Int; }
  bool isP() const { return k == TK::Ptr; }
};
inline Ty I(int w) { return {TK::Int, (uint16_t)w}; }
inline Ty F32() { return {TK::F32, 32}; }
inline Ty F64() { return {TK::F64, 64}; }
inline Ty PTR() { return {TK::Ptr, 64}; }

enum class Op : uint8_t {
  Const, Sym, PtrTo, Lin, Mul, UDiv, SDiv, URem, SRem, ShlV, LShrV, AShr, And, Or, Xor, Bits, SExt, IntFn,
  FAdd, FSub, FMul, FDiv, FRem, FNeg, FAbs, FSqrt, FFloor, FCeil, FTrunc, FRound, FRint, FMin, FMax, FCopySign, FFn,
  FPExt, FPTrunc, SIToFP, UIToFP, FPToSI, FPToUI, BitCast, PtrToInt, IntToPtr,
  ICmp, FCmp, IsClass, Not, AndB, OrB, Select, Phi
};

struct Term;
typedef const Term* T;
struct Part { T t; uint16_t lo, len; bool operator==(const Part& o) const { return t == o.t && lo == o.lo && len == o.len; } };

struct Term {
  unsigned id; Op op; Ty ty;
  std::vector<T> a;            // operands
  uint64_t iv = 0;             // int constant / region id / predicate / class mask / fn id
  double fv = 0;               // float constant
  std::vector<uint64_t> co;    // Lin coefficients (mod 2^w); iv = constant
  std::vector<Part> parts;     // Bits
  std::string name;            // Sym / FFn name
  uint64_t sig = 0;            // bloom of sub-term ids
  bool isC() const { return op == Op::Const; }
};

inline uint64_t maskW(int w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sextW(uint64_t v, int w) { if (w >= 64) return (int64_t)v; v &= maskW(w); uint64_t s = 1ull << (w - 1); return (int64_t)((v ^ s) - s); }

// ---- abstract values -------------------------------------------------------------------------
struct AV {
  bool bot = false;
  // ints
  uint64_t ul = 0, uh = ~0ull; int64_t sl = INT64_MIN, sh = INT64_MAX;
  // floats: interval part [lo,hi] (empty if lo>hi) and NaN possibility
  double lo = -INFINITY, hi = INFINITY; bool nan = true;
};
inline AV topOf(Ty t) { AV v; if (t.isI()) { v.uh = maskW(t.w); v.sl = t.w >= 64 ? INT64_MIN : -(int64_t)(1ull << (t.w - 1)); v.sh = t.w >= 64 ? INT64_MAX : (int64_t)((1ull << (t.w - 1)) - 1); } return v; }
inline void normI(AV& v, int w) {
  // reduced product between the signed and unsigned views
  for (int k = 0; k < 2; ++k) {
    if (v.ul > v.uh || v.sl > v.sh) { v.bot = true; return; }
    uint64_t half = 1ull << (w - 1);
    if (v.uh < half) { v.sl = std::max(v.sl, (int64_t)v.ul); v.sh = std::min(v.sh, (int64_t)v.uh); }
    else if (v.ul >= half) { v.sl = std::max(v.sl, sextW(v.ul, w)); v.sh = std::min(v.sh, sextW(v.uh, w)); }
    if (v.sl > v.sh) { v.bot = true; return; }
    if (v.sl >= 0) { v.ul = std::max(v.ul, (uint64_t)v.sl); v.uh = std::min(v.uh, (uint64_t)v.sh); }
    else if (v.sh < 0) { v.ul = std::max(v.ul, (uint64_t)v.sl & maskW(w)); v.uh = std::min(v.uh, (uint64_t)v.sh & maskW(w)); }
  }
  if (v.ul > v.uh || v.sl > v.sh) v.bot = true;
}
inline AV iS(int64_t l, int64_t h, int w) { AV v = topOf(I(w)); v.sl = l; v.sh = h; normI(v, w); return v; }
inline AV iU(uint64_t l, uint64_t h, int w) { AV v = topOf(I(w)); v.ul = l; v.uh = h; normI(v, w); return v; }
inline AV fI(double l, double h, bool nan) { AV v; v.lo = l; v.hi = h; v.nan = nan; if (!(l <= h)) { v.lo = 1; v.hi = 0; if (!nan) v.bot = true; } return v; }
inline bool fEmpty(const AV& v) { return !(v.lo <= v.hi); }
inline AV meet(const AV& x, const AV& y, Ty t) {
  AV r; if (x.bot || y.bot) { r.bot = true; return r; }
  if (t.isI()) { r.ul = std::max(x.ul, y.ul); r.uh = std::min(x.uh, y.uh); r.sl = std::max(x.sl, y.sl); r.sh = std::min(x.sh, y.sh); normI(r, t.w); return r; }
  if (t.isF()) return fI(std::max(x.lo, y.lo), std::min(x.hi, y.hi), x.nan && y.nan);
  return x;
}
inline AV hull(const AV& x, const AV& y, Ty t) {
  if (x.bot) return y; if (y.bot) return x; AV r;
  if (t.isI()) { r.ul = std::min(x.ul, y.ul); r.uh = std::max(x.uh, y.uh); r.sl = std::min(x.sl, y.sl); r.sh = std::max(x.sh, y.sh); return r; }
  if (t.isF()) { if (fEmpty(x)) { r = y; r.nan |= x.nan; return r; } if (fEmpty(y)) { r = x; r.nan |= y.nan; return r; } return fI(std::min(x.lo, y.lo), std::max(x.hi, y.hi), x.nan || y.nan); }
  return r;
}
inline bool sameAV(const AV& x, const AV& y, Ty t) {
  if (x.bot != y.bot) return false;
  if (t.isI()) return x.ul == y.ul && x.uh == y.uh && x.sl == y.sl && x.sh == y.sh;
  if (t.isF()) return x.nan == y.nan && ((fEmpty(x) && fEmpty(y)) || (x.lo == y.lo && x.hi == y.hi));
  return true;
}
inline bool leqAV(const AV& x, const AV& y, Ty t) {  // x included in y
  if (x.bot) return true; if (y.bot) return false;
  if (t.isI()) return x.ul >= y.ul && x.uh <= y.uh && x.sl >= y.sl && x.sh <= y.sh;
  if (t.isF()) { if (x.nan && !y.nan) return false; if (fEmpty(x)) return true; if (fEmpty(y)) return false; return x.lo >= y.lo && x.hi <= y.hi; }
  return true;
}
inline double rnd(double d, Ty t) { return t.k == TK::F32 ? (double)(float)d : d; }
inline double nextUp(double d, Ty t) { return t.k == TK::F32 ? (double)std::nextafterf((float)d, INFINITY) : std::nextafter(d, INFINITY); }
inline double nextDn(double d, Ty t) { return t.k == TK::F32 ? (double)std::nextafterf((float)d, -INFINITY) : std::nextafter(d, -INFINITY); }
inline double maxFin(Ty t) { return t.k == TK::F32 ? (double)FLT_MAX : DBL_MAX; }

// ---- hash consing ----------------------------------------------------------------------------
struct TermKey { size_t h; };
class Pool {
  std::deque<Term> store_;
  std::unordered_multimap<size_t, T> idx_;
  static size_t mix(size_t h, size_t v) { return h * 1099511628211ull ^ (v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2)); }
 public:
  unsigned nsym = 0;
  size_t size() const { return store_.size(); }
  T intern(Term&& t) {
    size_t h = (size_t)t.op * 31 + (size_t)t.ty.k * 7 + t.ty.w;
    for (T x : t.a) h = mix(h, x->id + 1);
    for (auto& p : t.parts) { h = mix(h, p.t->id + 1); h = mix(h, p.lo * 131 + p.len); }
    for (auto c : t.co) h = mix(h, c);
    h = mix(h, t.iv); uint64_t fb; memcpy(&fb, &t.fv, 8); h = mix(h, fb);
    if (!t.name.empty()) h = mix(h, std::hash<std::string>()(t.name));
    auto r = idx_.equal_range(h);
    for (auto i = r.first; i != r.second; ++i) { T o = i->second; uint64_t ob; memcpy(&ob, &o->fv, 8);
      if (o->op == t.op && o->ty == t.ty && o->a == t.a && o->iv == t.iv && ob == fb && o->co == t.co && o->parts == t.parts && o->name == t.name) return o; }
    t.id = store_.size(); t.sig = 0;
    for (T x : t.a) t.sig |= x->sig;
    for (auto& p : t.parts) t.sig |= p.t->sig;
    if (t.op != Op::Const) t.sig |= 1ull << ((t.id * 0x9e3779b97f4a7c15ull) >> 58);
    store_.push_back(std::move(t)); T p = &store_.back(); idx_.emplace(h, p); return p;
  }
};
extern Pool P;
extern std::vector<AV> gSymRange;  // by Sym iv index

T cI(uint64_t v, int w);
T cF(double v, Ty t);
T sym(Ty t, const std::string& name, const AV* range = nullptr);
T mk(Op op, Ty ty, std::vector<T> a, uint64_t iv = 0, const std::string& name = "");
T nullP();
T ptrTo(int region, T off);
// canonicalising constructors
T tAdd(T a, T b); T tSub(T a, T b); T tMul(T a, T b); T tScale(T a, uint64_t c);
T tTrunc(T a, int w); T tZExt(T a, int w); T tSExt(T a, int w);
T tBin(Op op, T a, T b);
T tF(Op op, T a, T b = nullptr);
T tNot(T a); T tAnd(T a, T b); T tOr(T a, T b);
T tBitCast(T a, Ty to);
T tICmp(unsigned pred, T a, T b); T tFCmp(unsigned pred, T a, T b);
T mkBits(std::vector<Part> parts, int w);
bool toBits(T t, std::vector<Part>& out);
T slice(T t, int lo, int len);
std::string show(T t, int depth = 4);
// linear view: sum co*t + c
struct Lin { std::map<T, uint64_t, bool (*)(T, T)> m{[](T a, T b) { return a->id < b->id; }}; uint64_t c = 0; int w = 64; };
Lin toLin(T t);
T fromLin(const Lin& l);
