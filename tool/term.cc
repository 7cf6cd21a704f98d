#include "term.h"
#include <sstream>
Pool P;
std::vector<AV> gSymRange;

T cI(uint64_t v, int w) { Term t{}; t.op = Op::Const; t.ty = I(w); t.iv = v & maskW(w); return P.intern(std::move(t)); }
T cF(double v, Ty ty) { Term t{}; t.op = Op::Const; t.ty = ty; if (std::isnan(v)) v = NAN; if (std::isnan(v)) v = std::copysign((double)NAN, 1.0); t.fv = v; return P.intern(std::move(t)); }
T sym(Ty ty, const std::string& name, const AV* r) { Term t{}; t.op = Op::Sym; t.ty = ty; t.iv = gSymRange.size(); t.name = name; gSymRange.push_back(r ? *r : topOf(ty)); return P.intern(std::move(t)); }
T mk(Op op, Ty ty, std::vector<T> a, uint64_t iv, const std::string& name) { Term t{}; t.op = op; t.ty = ty; t.a = std::move(a); t.iv = iv; t.name = name;
  if (op == Op::FFn && name == "hypot") { uint64_t g = 0; for (T x : t.a) g |= tF(Op::FAbs, x)->sig; T r = P.intern(std::move(t)); const_cast<Term*>(r)->sig |= g; return r; }
  return P.intern(std::move(t)); }
T nullP() { Term t{}; t.op = Op::Const; t.ty = PTR(); t.iv = 0; return P.intern(std::move(t)); }
T ptrTo(int region, T off) { return mk(Op::PtrTo, PTR(), {off}, (uint64_t)region); }

Lin toLin(T t) {
  Lin l; l.w = t->ty.w;
  if (t->isC()) { l.c = t->iv; return l; }
  if (t->op == Op::Lin) { l.c = t->iv; for (size_t i = 0; i < t->a.size(); ++i) l.m[t->a[i]] = t->co[i]; return l; }
  l.m[t] = 1; return l;
}
T fromLin(const Lin& l) {
  std::vector<T> a; std::vector<uint64_t> co; uint64_t mk_ = maskW(l.w);
  for (auto& [t, c] : l.m) if (c & mk_) { a.push_back(t); co.push_back(c & mk_); }
  if (a.empty()) return cI(l.c, l.w);
  if (a.size() == 1 && co[0] == 1 && (l.c & mk_) == 0) return a[0];
  Term t{}; t.op = Op::Lin; t.ty = I(l.w); t.a = a; t.co = co; t.iv = l.c & mk_; return P.intern(std::move(t));
}
// two bit patterns that never set the same bit: their sum is their union
static bool disjointBits(T a, T b) {
  if (a->op != Op::Bits || b->op != Op::Bits || a->ty != b->ty) return false;
  auto busy = [](T t, std::vector<bool>& m) { int pos = 0; for (auto& p : t->parts) { for (int k = 0; k < p.len && pos + k < (int)m.size(); ++k) if (!(p.t->isC() && p.t->ty.isI()) || ((p.t->iv >> (p.lo + k)) & 1)) m[pos + k] = true; pos += p.len; } };
  std::vector<bool> x(a->ty.w), y(a->ty.w); busy(a, x); busy(b, y); for (size_t k = 0; k < x.size(); ++k) if (x[k] && y[k]) return false; return true;
}
T tAdd(T a, T b) { if (disjointBits(a, b)) return tBin(Op::Or, a, b); Lin x = toLin(a), y = toLin(b); for (auto& [t, c] : y.m) x.m[t] += c; x.c += y.c; return fromLin(x); }
T tSub(T a, T b) { Lin x = toLin(a), y = toLin(b); for (auto& [t, c] : y.m) x.m[t] -= c; x.c -= y.c; return fromLin(x); }
T tScale(T a, uint64_t k) { Lin x = toLin(a); for (auto& p : x.m) p.second *= k; x.c *= k; return fromLin(x); }
T tMul(T a, T b) {
  if (a->isC()) return tScale(b, a->iv); if (b->isC()) return tScale(a, b->iv);
  if (a->id > b->id) std::swap(a, b); return mk(Op::Mul, a->ty, {a, b});
}
static int bitsOf(T t) { return t->ty.w; }
bool toBits(T t, std::vector<Part>& out) {
  out.clear();
  if (t->isC() && t->ty.isI()) { out.push_back({t, 0, t->ty.w}); return true; }
  if (t->op == Op::Bits) { out = t->parts; return true; }
  out.push_back({t, 0, (uint16_t)bitsOf(t)}); return false;
}
static T constSlice(T c, int lo, int len) {
  uint64_t b; if (c->ty.isF()) { if (c->ty.k == TK::F32) { float f = (float)c->fv; uint32_t u; memcpy(&u, &f, 4); b = u; } else memcpy(&b, &c->fv, 8); } else b = c->iv;
  return cI((lo >= 64 ? 0 : b >> lo) & maskW(len), len);
}
T mkBits(std::vector<Part> ps, int w) {
  std::vector<Part> q;
  for (auto p : ps) {
    if (!p.len) continue;
    if (p.t->op == Op::Bits) { // flatten nested
      int pos = 0; for (auto& s : p.t->parts) { int l = std::max<int>(pos, p.lo), h = std::min<int>(pos + s.len, p.lo + p.len); if (l < h) { Part n{s.t, (uint16_t)(s.lo + (l - pos)), (uint16_t)(h - l)}; q.push_back(n); } pos += s.len; }
      continue;
    }
    if (p.t->isC() && !p.t->ty.isP()) { T c = constSlice(p.t, p.lo, p.len); p = {c, 0, p.len}; }
    q.push_back(p);
  }
  std::vector<Part> r;
  for (auto p : q) {
    if (p.t->isC() && !p.t->ty.isP()) { p.t = constSlice(p.t, p.lo, p.len); p.lo = 0; }
    if (!r.empty()) { Part& b = r.back();
      if (b.t->isC() && p.t->isC() && b.t->ty.isI() && p.t->ty.isI() && b.len + p.len <= 64) { b.t = cI(b.t->iv | (p.t->iv << b.len), b.len + p.len); b.len += p.len; continue; }
      if (b.t == p.t && b.lo + b.len == p.lo && !b.t->isC()) { b.len += p.len; continue; }
    }
    r.push_back(p);
  }
  if (r.size() == 1) {
    if (r[0].t->isC() && r[0].t->ty.isI()) return cI(r[0].t->iv, w);
    if (r[0].lo == 0 && r[0].len == r[0].t->ty.w && r[0].t->ty.isI()) return r[0].t;
  }
  Term t{}; t.op = Op::Bits; t.ty = I(w); t.parts = r; return P.intern(std::move(t));
}
T slice(T t, int lo, int len) { return mkBits({{t, (uint16_t)lo, (uint16_t)len}}, len); }
T tTrunc(T a, int w) {
  if (a->ty.w == w) return a;
  if (a->isC()) return cI(a->iv, w);
  if (a->op == Op::SExt && a->a[0]->ty.w >= w) return tTrunc(a->a[0], w);
  if (a->op == Op::SExt && a->a[0]->ty.w < w) return tSExt(a->a[0], w);
  if (a->op == Op::Lin) { Lin l = toLin(a); Lin r; r.w = w; r.c = l.c; for (auto& [t, c] : l.m) { Lin s = toLin(tTrunc(t, w)); for (auto& [u, d] : s.m) r.m[u] += c * d; r.c += c * s.c; } return fromLin(r); }
  return slice(a, 0, w);
}
T tZExt(T a, int w) { if (a->ty.w == w) return a; if (a->isC()) return cI(a->iv, w); return mkBits({{a, 0, a->ty.w}, {cI(0, w - a->ty.w), 0, (uint16_t)(w - a->ty.w)}}, w); }
T tSExt(T a, int w) {
  if (a->ty.w == w) return a; if (a->isC()) return cI((uint64_t)sextW(a->iv, a->ty.w), w);
  if (a->op == Op::Bits && a->parts.back().t->isC() && a->parts.back().t->ty.isI() && !((a->parts.back().t->iv >> (a->parts.back().len - 1)) & 1)) return tZExt(a, w);
  if (a->op == Op::SExt) return tSExt(a->a[0], w);
  return mk(Op::SExt, I(w), {a});
}
T tBitCast(T a, Ty to) {
  if (a->ty == to) return a;
  if (to.isI()) { if (a->ty.isF()) { if (a->isC()) return cI(constSlice(a, 0, a->ty.w)->iv, to.w); if (a->op == Op::BitCast && a->a[0]->ty == to) return a->a[0]; return mkBits({{a, 0, a->ty.w}}, to.w); } }
  if (to.isF() && a->ty.isI()) {
    if (a->isC()) { if (to.k == TK::F32) { uint32_t u = a->iv; float f; memcpy(&f, &u, 4); return cF(f, to); } double d; uint64_t u = a->iv; memcpy(&d, &u, 8); return cF(d, to); }
    if (a->op == Op::Bits && a->parts.size() == 1 && a->parts[0].lo == 0 && a->parts[0].t->ty == to) return a->parts[0].t;
    if (a->op == Op::Bits) { // sign-bit games: clear / flip the top bit of a float
      auto& ps = a->parts; int W = to.w;
      if (ps.size() == 2 && ps[0].t->ty == to && ps[0].lo == 0 && ps[0].len == W - 1 && ps[1].t->isC() && ps[1].t->iv == 0) return tF(Op::FAbs, ps[0].t);
    }
    return mk(Op::BitCast, to, {a});
  }
  return mk(Op::BitCast, to, {a});
}
T tNot(T a) {
  if (a->isC()) return cI(!a->iv, 1);
  if (a->op == Op::Not) return a->a[0];
  if (a->op == Op::FCmp) return tFCmp(15 - a->iv, a->a[0], a->a[1]);
  if (a->op == Op::ICmp) { static const unsigned inv[] = {33, 32, 37, 36, 35, 34, 41, 40, 39, 38}; return tICmp(inv[a->iv - 32], a->a[0], a->a[1]); }
  return mk(Op::Not, I(1), {a});
}
T tAnd(T a, T b) { if (a->isC()) return a->iv ? b : a; if (b->isC()) return b->iv ? a : b; if (a == b) return a; if (a->id > b->id) std::swap(a, b); return mk(Op::AndB, I(1), {a, b}); }
T tOr(T a, T b) { if (a->isC()) return a->iv ? a : b; if (b->isC()) return b->iv ? b : a; if (a == b) return a; if (a->id > b->id) std::swap(a, b); return mk(Op::OrB, I(1), {a, b}); }
// LLVM ICmp preds: EQ=32 NE=33 UGT=34 UGE=35 ULT=36 ULE=37 SGT=38 SGE=39 SLT=40 SLE=41
static unsigned swapI(unsigned p) { static const unsigned s[] = {32, 33, 36, 37, 34, 35, 40, 41, 38, 39}; return s[p - 32]; }
T tICmp(unsigned p, T a, T b) {
  if (a->isC() && b->isC() && a->ty.isI()) { uint64_t x = a->iv, y = b->iv; int w = a->ty.w; int64_t sx = sextW(x, w), sy = sextW(y, w); bool r = false;
    switch (p) { case 32: r = x == y; break; case 33: r = x != y; break; case 34: r = x > y; break; case 35: r = x >= y; break; case 36: r = x < y; break; case 37: r = x <= y; break; case 38: r = sx > sy; break; case 39: r = sx >= sy; break; case 40: r = sx < sy; break; case 41: r = sx <= sy; break; }
    return cI(r, 1); }
  { // sign extension preserves equality and signed order: compare at the narrow width
    auto fits = [](T c, int w) { return c->isC() && sextW(c->iv, c->ty.w) == sextW(c->iv, w); };
    if (p == 32 || p == 33 || p >= 38) {
      if (a->op == Op::SExt && b->op == Op::SExt && a->a[0]->ty == b->a[0]->ty) return tICmp(p, a->a[0], b->a[0]);
      if (a->op == Op::SExt && fits(b, a->a[0]->ty.w)) return tICmp(p, a->a[0], cI(b->iv, a->a[0]->ty.w));
      if (b->op == Op::SExt && fits(a, b->a[0]->ty.w)) return tICmp(p, cI(a->iv, b->a[0]->ty.w), b->a[0]);
    } }
  if (a == b) return cI(p == 32 || p == 35 || p == 37 || p == 39 || p == 41, 1);
  if (a->ty.w == 1 && (p == 32 || p == 33)) { if (a->isC()) std::swap(a, b); if (b->isC()) return ((p == 32) == (b->iv == 1)) ? a : tNot(a); }
  if (a->ty.isI() && b->isC() && b->iv == 0 && (p == 32 || p == 33) && a->op == Op::Bits && a->parts.size() == 2 && a->parts[0].t->ty == I(1) && a->parts[1].t->isC() && a->parts[1].t->iv == 0) return p == 33 ? a->parts[0].t : tNot(a->parts[0].t);
  if (a->isC() || (!b->isC() && a->id > b->id)) { std::swap(a, b); p = swapI(p); }
  return mk(Op::ICmp, I(1), {a, b}, p);
}
// FCmp pred bits: EQ=1 GT=2 LT=4 UNO=8
static unsigned swapF(unsigned p) { return (p & 9) | ((p & 2) << 1) | ((p & 4) >> 1); }
T tFCmp(unsigned p, T a, T b) {
  // widening is exact: compare at the narrow type where both sides allow it
  auto nar = [](T x) -> T { if (x->op == Op::FPExt && x->a[0]->ty.k == TK::F32) return x->a[0]; if (x->isC() && x->ty.k == TK::F64 && ((double)(float)x->fv == x->fv || std::isnan(x->fv))) return cF(x->fv, F32()); return nullptr; };
  if (a->ty.k == TK::F64 && !(a->isC() && b->isC())) { T na = nar(a), nb = nar(b); if (na && nb) return tFCmp(p, na, nb); }
  if (p == 0) return cI(0, 1); if (p == 15) return cI(1, 1);
  if (a->isC() && b->isC()) { unsigned m = (std::isnan(a->fv) || std::isnan(b->fv)) ? 8 : a->fv < b->fv ? 4 : a->fv > b->fv ? 2 : 1; return cI((m & p) != 0, 1); }
  if (a->isC() || (!b->isC() && a->id > b->id)) { std::swap(a, b); p = swapF(p); }
  return mk(Op::FCmp, I(1), {a, b}, p);
}
T tBin(Op op, T a, T b) {
  int w = a->ty.w; bool cc = a->isC() && b->isC();
  if (w == 1) { if (op == Op::And) return tAnd(a, b); if (op == Op::Or) return tOr(a, b); if (op == Op::Xor) { if (a->isC()) std::swap(a, b); if (b->isC()) return b->iv ? tNot(a) : a; if (a == b) return cI(0, 1); return tICmp(33, a, b); } }
  if (cc) { uint64_t x = a->iv, y = b->iv; int64_t sx = sextW(x, w), sy = sextW(y, w);
    switch (op) { case Op::UDiv: if (y) return cI(x / y, w); break; case Op::URem: if (y) return cI(x % y, w); break; case Op::SDiv: if (sy && !(sy == -1 && sx == INT64_MIN)) return cI(sx / sy, w); break; case Op::SRem: if (sy && sy != -1) return cI(sx % sy, w); if (sy == -1) return cI(0, w); break;
      case Op::And: return cI(x & y, w); case Op::Or: return cI(x | y, w); case Op::Xor: return cI(x ^ y, w); case Op::ShlV: if (y < (uint64_t)w) return cI(x << y, w); break; case Op::LShrV: if (y < (uint64_t)w) return cI(x >> y, w); break; case Op::AShr: if (y < (uint64_t)w) return cI((uint64_t)(sx >> y), w); break; default: break; } }
  std::vector<Part> pa, pb;
  switch (op) {
    case Op::And: case Op::Or: case Op::Xor: {
      if (a == b) return op == Op::Xor ? cI(0, w) : a;
      if (a->isC()) std::swap(a, b);
      if (b->isC() && b->iv == 0) return op == Op::And ? b : a;
      if (b->isC() && b->iv == maskW(w) && op == Op::And) return a;
      if (b->isC() && b->iv == maskW(w) && op == Op::Or) return b;
      if (b->isC() && op == Op::Xor && b->iv == maskW(w)) return tSub(cI(maskW(w), w), a);
      toBits(a, pa); toBits(b, pb);
      // cut both into common pieces; every piece must be decided
      std::vector<Part> r; size_t i = 0, j = 0; int oi = 0, oj = 0; bool ok = true; int guard = 0;
      while (i < pa.size() && j < pb.size() && ok) {
        int len = std::min<int>(pa[i].len - oi, pb[j].len - oj);
        auto cst = [](const Part& p) { return p.t->isC() && p.t->ty.isI(); };
        auto bit = [&](const Part& p, int off) { return (p.t->iv >> (p.lo + off)) & 1; };
        if (cst(pa[i])) { int l = 1; while (l < len && bit(pa[i], oi + l) == bit(pa[i], oi)) ++l; len = l; }
        if (cst(pb[j])) { int l = 1; while (l < len && bit(pb[j], oj + l) == bit(pb[j], oj)) ++l; len = l; }
        Part x{pa[i].t, (uint16_t)(pa[i].lo + oi), (uint16_t)len}, y{pb[j].t, (uint16_t)(pb[j].lo + oj), (uint16_t)len};
        bool cx = cst(pa[i]), cy = cst(pb[j]); bool bx = cx && bit(pa[i], oi), by = cy && bit(pb[j], oj);
        if (cx && cy) { bool v = op == Op::And ? bx && by : op == Op::Or ? bx || by : bx != by; r.push_back({cI(v ? maskW(len) : 0, len), 0, (uint16_t)len}); }
        else if (cx || cy) { bool c = cx ? bx : by; Part o = cx ? y : x;
          if (op == Op::And) r.push_back(c ? o : Part{cI(0, len), 0, (uint16_t)len});
          else if (op == Op::Or) r.push_back(!c ? o : Part{cI(maskW(len), len), 0, (uint16_t)len});
          else if (!c) r.push_back(o); else ok = false; }
        else if (x == y && op != Op::Xor) r.push_back(x);
        else ok = false;
        oi += len; oj += len; if (oi == pa[i].len) { ++i; oi = 0; } if (j < pb.size() && oj == pb[j].len) { ++j; oj = 0; }
        if (++guard > 200) ok = false;
      }
      if (ok) return mkBits(r, w);
      if (a->id > b->id) std::swap(a, b);
      return mk(op, a->ty, {a, b});
    }
    case Op::ShlV: if (b->isC() && b->iv < (uint64_t)w) { int s = b->iv; if (!s) return a; if (a->op == Op::Lin || a->op == Op::Mul) return tScale(a, 1ull << s); toBits(a, pa); std::vector<Part> r{{cI(0, s), 0, (uint16_t)s}}; int left = w - s; for (auto p : pa) { int l = std::min<int>(left, p.len); if (l > 0) r.push_back({p.t, p.lo, (uint16_t)l}); left -= l; if (left <= 0) break; } return mkBits(r, w); } break;
    case Op::LShrV: if (b->isC() && b->iv < (uint64_t)w) { int s = b->iv; if (!s) return a; toBits(a, pa); std::vector<Part> r; int skip = s; for (auto p : pa) { if (skip >= p.len) { skip -= p.len; continue; } r.push_back({p.t, (uint16_t)(p.lo + skip), (uint16_t)(p.len - skip)}); skip = 0; } r.push_back({cI(0, s), 0, (uint16_t)s}); return mkBits(r, w); } break;
    case Op::UDiv: if (b->isC() && b->iv == 1) return a; if (b->isC() && b->iv && (b->iv & (b->iv - 1)) == 0) return tBin(Op::LShrV, a, cI(__builtin_ctzll(b->iv), w)); break;
    case Op::URem: if (b->isC() && b->iv && (b->iv & (b->iv - 1)) == 0) return tBin(Op::And, a, cI(b->iv - 1, w)); break;
    case Op::SDiv: if (b->isC() && b->iv == 1) return a; break;
    case Op::AShr: if (b->isC() && b->iv == 0) return a; break;
    default: break;
  }
  return mk(op, a->ty, {a, b});
}
static double fop(Op op, double a, double b) {
  switch (op) { case Op::FAdd: return a + b; case Op::FSub: return a - b; case Op::FMul: return a * b; case Op::FDiv: return a / b; case Op::FRem: return std::fmod(a, b); case Op::FNeg: return -a; case Op::FAbs: return std::fabs(a); case Op::FSqrt: return std::sqrt(a); case Op::FFloor: return std::floor(a); case Op::FCeil: return std::ceil(a); case Op::FTrunc: return std::trunc(a); case Op::FRound: return std::round(a); case Op::FRint: return std::nearbyint(a); case Op::FMin: return std::fmin(a, b); case Op::FMax: return std::fmax(a, b); case Op::FCopySign: return std::copysign(a, b); default: return NAN; }
}
T tF(Op op, T a, T b) {
  Ty ty = a->ty;
  if (a->isC() && (!b || b->isC())) return cF(rnd(fop(op, a->fv, b ? b->fv : 0), ty), ty);
  switch (op) {
    case Op::FAdd: if (b->isC() && b->fv == 0) return a; if (a->isC() && a->fv == 0) return b;
      if (b->op == Op::FNeg) return tF(Op::FSub, a, b->a[0]); if (a->op == Op::FNeg) return tF(Op::FSub, b, a->a[0]); break;
    case Op::FSub: if (b->isC() && b->fv == 0) return a; if (a->isC() && a->fv == 0) return tF(Op::FNeg, b); if (b->op == Op::FNeg) return tF(Op::FAdd, a, b->a[0]); break;
    case Op::FMul: if (b->isC() && b->fv == 1) return a; if (a->isC() && a->fv == 1) return b;
      if (b->isC() && b->fv == -1) return tF(Op::FNeg, a); if (a->isC() && a->fv == -1) return tF(Op::FNeg, b);
      if (a->op == Op::FNeg && b->op == Op::FNeg) return tF(Op::FMul, a->a[0], b->a[0]);
      if (a->op == Op::FNeg) return tF(Op::FNeg, tF(Op::FMul, a->a[0], b)); if (b->op == Op::FNeg) return tF(Op::FNeg, tF(Op::FMul, a, b->a[0])); break;
    case Op::FDiv: if (b->isC() && b->fv == 1) return a; if (b->isC() && b->fv == -1) return tF(Op::FNeg, a);
      if (b->isC()) { int e; double m = std::frexp(b->fv, &e); if (m == 0.5 && e > -20 && e < 20) return tF(Op::FMul, a, cF(1 / b->fv, ty)); } break;
    case Op::FRound: case Op::FFloor: case Op::FCeil: case Op::FTrunc: case Op::FRint: if (a->op == Op::UIToFP || a->op == Op::SIToFP || (a->op >= Op::FFloor && a->op <= Op::FRint)) return a; break;
    case Op::FNeg: if (a->op == Op::FNeg) return a->a[0]; if (a->op == Op::FSub) return tF(Op::FSub, a->a[1], a->a[0]); break;
    case Op::FAbs: if (a->op == Op::FNeg || a->op == Op::FAbs) return tF(Op::FAbs, a->a[0]); if (a->op == Op::FMul || a->op == Op::FDiv) return tF(a->op, tF(Op::FAbs, a->a[0]), tF(Op::FAbs, a->a[1])); if (a->op == Op::FCopySign) return tF(Op::FAbs, a->a[0]); if (a->op == Op::FPExt) return mk(Op::FPExt, ty, {tF(Op::FAbs, a->a[0])}); if (a->op == Op::FSub && a->a[0]->id > a->a[1]->id) return tF(Op::FAbs, tF(Op::FSub, a->a[1], a->a[0])); break;
    default: break;
  }
  if (b && (op == Op::FAdd || op == Op::FMul || op == Op::FMin || op == Op::FMax) && a->id > b->id) std::swap(a, b);
  std::vector<T> v{a}; if (b) v.push_back(b);
  return mk(op, ty, v);
}
static const char* opn[] = {"c", "sym", "&", "lin", "*", "u/", "s/", "u%", "s%", "<<", ">>u", ">>s", "&", "|", "^", "bits", "sext", "fn", "+", "-", "*", "/", "fmod", "neg", "abs", "sqrt", "floor", "ceil", "trunc", "round", "rint", "min", "max", "copysign", "fn", "ext", "ftrunc", "i2f", "u2f", "f2i", "f2u", "bitcast", "p2i", "i2p", "icmp", "fcmp", "isclass", "!", "&&", "||", "?:", "phi"};
std::string show(T t, int d) {
  std::ostringstream o;
  if (!t) return "<none>";
  if (t->isC()) { if (t->ty.isF()) o << t->fv; else if (t->ty.isP()) o << "null"; else if (t->ty.w == 1) o << (t->iv ? "true" : "false"); else o << sextW(t->iv, t->ty.w); return o.str(); }
  if (t->op == Op::Sym) { o << (t->name.empty() ? "v" : t->name) << "#" << t->iv; return o.str(); }
  if (d == 0) return "..";
  if (t->op == Op::PtrTo) { o << "&R" << t->iv << "+" << show(t->a[0], d - 1); return o.str(); }
  if (t->op == Op::Lin) { o << "("; for (size_t i = 0; i < t->a.size(); ++i) o << (i ? "+" : "") << sextW(t->co[i], t->ty.w) << "*" << show(t->a[i], d - 1); o << "+" << sextW(t->iv, t->ty.w) << ")"; return o.str(); }
  if (t->op == Op::Bits) { o << "bits" << t->ty.w << "["; for (auto& p : t->parts) o << show(p.t, d - 1) << ":" << p.lo << "+" << p.len << " "; o << "]"; return o.str(); }
  if (t->op == Op::FCmp) { static const char* n[] = {"F", "==", ">", ">=", "<", "<=", "<>", "ord", "uno", "u==", "u>", "u>=", "u<", "u<=", "!=", "T"}; o << "(" << show(t->a[0], d - 1) << " " << n[t->iv] << " " << show(t->a[1], d - 1) << ")"; return o.str(); }
  if (t->op == Op::ICmp) { static const char* n[] = {"==", "!=", "u>", "u>=", "u<", "u<=", ">", ">=", "<", "<="}; o << "(" << show(t->a[0], d - 1) << " " << n[t->iv - 32] << " " << show(t->a[1], d - 1) << ")"; return o.str(); }
  o << (t->op == Op::FFn || t->op == Op::IntFn ? t->name : std::string(opn[(int)t->op])) << "("; for (size_t i = 0; i < t->a.size(); ++i) o << (i ? ", " : "") << show(t->a[i], d - 1); if (t->op == Op::IsClass) o << "," << t->iv; o << ")"; return o.str();
}
