#include "state.h"
#include <algorithm>
static std::vector<AV> baseVal; static std::vector<char> baseOk;
static AV evalRec(const State* s, T t, std::unordered_map<T, AV>& memo);
static AV arith(const State* s, T t, std::unordered_map<T, AV>& memo);

static AV get(const State* s, T t, std::unordered_map<T, AV>& memo) {
  if (t->op == Op::Const) return arith(s, t, memo);
  if (!s || (t->sig & s->rsig) == 0) {
    if (baseVal.size() < P.size()) { baseVal.resize(P.size() + 256); baseOk.resize(P.size() + 256, 0); }
    if (!baseOk[t->id]) { std::unordered_map<T, AV> m2; AV v = arith(nullptr, t, m2); if (baseVal.size() <= t->id) { baseVal.resize(t->id + 256); baseOk.resize(t->id + 256, 0); } baseVal[t->id] = v; baseOk[t->id] = 1; }
    return baseVal[t->id];
  }
  auto i = memo.find(t); if (i != memo.end()) return i->second;
  AV v = arith(s, t, memo);
  auto r = s->refs.r().find(t); if (r != s->refs.r().end()) v = meet(v, r->second, t->ty);
  // equalities with constants recorded as facts are already folded into refs
  memo[t] = v; return v;
}
// evaluations nested inside one evaluation of the same (unchanging) state share its results
AV evalAV(const State& s, T t) {
  static const State* cur = nullptr; static std::unordered_map<T, AV>* shared = nullptr;
  if (cur == &s && shared) { auto i = shared->find(t); if (i != shared->end()) return i->second; return get(&s, t, *shared); }
  std::unordered_map<T, AV> memo; const State* oc = cur; auto* os = shared; cur = &s; shared = &memo; AV r = get(&s, t, memo); cur = oc; shared = os; return r; }

static bool hasInf(const AV& v) { return !fEmpty(v) && (std::isinf(v.lo) || std::isinf(v.hi)); }
static bool has(const AV& v, double d) { return !fEmpty(v) && v.lo <= d && d <= v.hi; }
static AV mono1(const AV& x, Ty t, double (*f)(double)) { if (fEmpty(x)) return fI(1, 0, x.nan); return fI(rnd(f(x.lo), t), rnd(f(x.hi), t), x.nan); }
static double fneg1(double d) { return -d; }
static unsigned direct(const State& s, T a, T b, bool uns);
// x is known to differ from zero although its interval still contains it
static bool nonZero(const State* s, T t) {
  if (t->op == Op::FNeg || t->op == Op::FAbs || t->op == Op::FPExt) return nonZero(s, t->a[0]);
  { std::unordered_map<T, AV> memo; AV v = s ? evalAV(*s, t) : get(nullptr, t, memo); if (fEmpty(v) || v.lo > 0 || v.hi < 0) return true; }
  if (t->op == Op::FMul) for (int k = 0; k < 2; ++k) if (t->a[k]->isC() && std::fabs(t->a[k]->fv) >= 1) return nonZero(s, t->a[1 - k]);
  if (t->op == Op::FFn && t->name == "hypot") return nonZero(s, t->a[0]) || nonZero(s, t->a[1]);
  if (!s) return false;
  if (!(direct(*s, t, cF(0, t->ty), false) & 1)) return true;
  for (Op o : {Op::FAbs, Op::FNeg}) { T u = tF(o, t); if (u->op == o && !(direct(*s, u, cF(0, t->ty), false) & 1)) return true; }
  return false;
}
static AV fbin(Op op, const AV& x, const AV& y, Ty t, bool sameOp, bool nzx = false, bool nzy = false) {
  bool nan = x.nan || y.nan;
  if (fEmpty(x) || fEmpty(y)) return fI(1, 0, true && nan);
  auto R = [&](double d) { return rnd(d, t); };
  switch (op) {
    case Op::FAdd: { if ((x.hi == INFINITY && y.lo == -INFINITY) || (x.lo == -INFINITY && y.hi == INFINITY)) if (!sameOp) nan = true;
      double l = x.lo + y.lo, h = x.hi + y.hi; if (std::isnan(l)) l = -INFINITY; if (std::isnan(h)) h = INFINITY; 
      if (x.lo == INFINITY || y.lo == INFINITY) { if (x.lo == INFINITY && y.hi == -INFINITY) return fI(1, 0, true); }
      return fI(R(l), R(h), nan); }
    case Op::FSub: { if (sameOp) { if (!hasInf(x)) return fI(0, 0, nan); return fI(0, 0, true); }
      if ((x.hi == INFINITY && y.hi == INFINITY) || (x.lo == -INFINITY && y.lo == -INFINITY)) nan = true;
      double l = x.lo - y.hi, h = x.hi - y.lo; if (std::isnan(l)) l = -INFINITY; if (std::isnan(h)) h = INFINITY; return fI(R(l), R(h), nan); }
    case Op::FMul: {
      if (!sameOp && ((hasInf(x) && has(y, 0) && !nzy) || (hasInf(y) && has(x, 0) && !nzx))) nan = true;
      if (sameOp) { double m = std::max(std::fabs(x.lo), std::fabs(x.hi)); double mn = (x.lo <= 0 && x.hi >= 0) ? 0 : std::min(std::fabs(x.lo), std::fabs(x.hi)); return fI(R(mn * mn), R(m * m), nan); }
      double c[4] = {x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi}; double l = INFINITY, h = -INFINITY;
      for (double d : c) { if (std::isnan(d)) d = 0; l = std::min(l, d); h = std::max(h, d); }
      return fI(R(l), R(h), nan); }
    case Op::FDiv: {
      if ((has(x, 0) && !nzx && has(y, 0) && !nzy) || (hasInf(x) && hasInf(y))) nan = true;
      if (has(y, 0)) { // sign of zero is not tracked
        if (y.lo == 0 && y.hi == 0) { return fI(-INFINITY, INFINITY, nan); }
        return fI(-INFINITY, INFINITY, nan); }
      double c[4] = {x.lo / y.lo, x.lo / y.hi, x.hi / y.lo, x.hi / y.hi}; double l = INFINITY, h = -INFINITY;
      for (double d : c) { if (std::isnan(d)) d = 0; l = std::min(l, d); h = std::max(h, d); }
      return fI(R(l), R(h), nan); }
    case Op::FRem: { if (hasInf(x) || has(y, 0)) nan = true;
      if (y.lo == y.hi && std::isinf(y.lo)) { return fI(x.lo, x.hi, nan); }
      double m = std::max(std::fabs(y.lo), std::fabs(y.hi)); double mm = std::isinf(m) ? INFINITY : nextDn(m, t); double xm = std::max(std::fabs(x.lo), std::fabs(x.hi)); mm = std::min(mm, xm);
      // |x| < min|y| : identity
      double mny = (y.lo <= 0 && y.hi >= 0) ? 0 : std::min(std::fabs(y.lo), std::fabs(y.hi));
      if (xm < mny) return fI(x.lo, x.hi, nan);
      return fI(x.lo >= 0 ? 0 : -mm, x.hi <= 0 ? 0 : mm, nan); }
    case Op::FMin: { // C fmin: NaN ignored
      double l = std::min(x.lo, y.lo), h = std::min(x.hi, y.hi); if (x.nan) h = std::max(h, y.hi); if (y.nan) h = std::max(h, x.hi); return fI(l, h, x.nan && y.nan); }
    case Op::FMax: { double l = std::max(x.lo, y.lo), h = std::max(x.hi, y.hi); if (x.nan) l = std::min(l, y.lo); if (y.nan) l = std::min(l, x.lo); return fI(l, h, x.nan && y.nan); }
    case Op::FCopySign: { if (!x.nan && !y.nan && (y.lo > 0 || y.hi < 0)) { double h = std::max(std::fabs(x.lo), std::fabs(x.hi)), l = (x.lo <= 0 && x.hi >= 0) ? 0 : std::min(std::fabs(x.lo), std::fabs(x.hi)); return y.lo > 0 ? fI(l, h, false) : fI(-h, -l, false); } double m = std::max(std::fabs(x.lo), std::fabs(x.hi)); return fI(y.lo > 0 ? 0 : -m, y.hi < 0 ? 0 : m, x.nan); }
    default: return fI(-INFINITY, INFINITY, true);
  }
}
static AV ffn(const Term* t, const std::vector<AV>& v) { if (v.empty()) return fI(-INFINITY, INFINITY, true);
  const std::string& n = t->name; const AV& x = v[0]; bool nan = x.nan; Ty ty = t->ty;
  auto incr = [&](double (*f)(double), double dl, double dh) { // increasing on [dl,dh], outward by 2ulp
    if (fEmpty(x)) return fI(1, 0, nan); bool bad = x.lo < dl || x.hi > dh; double l = f(std::max(x.lo, dl)), h = f(std::min(x.hi, dh));
    auto U = [&](double d, int s) { if (std::isinf(d) || d == 0) return rnd(d, ty); d = rnd(d, ty); return s > 0 ? nextUp(nextUp(d, ty), ty) : nextDn(nextDn(d, ty), ty); };
    return fI(U(l, -1), U(h, 1), nan || bad); };
  if (n == "sin" || n == "cos") { if (!fEmpty(x) && x.lo == 0 && x.hi == 0) { double c = n == "cos" ? 1 : 0; return fI(c, c, nan); } if (fEmpty(x) || hasInf(x) || x.hi - x.lo > 6.28 || std::fabs(x.lo) > 1e6 || std::fabs(x.hi) > 1e6) return fI(-1, 1, nan || hasInf(x));
    double sh = n == "cos" ? 0 : -M_PI_2, a = x.lo + sh, b = x.hi + sh, p = std::cos(a), q = std::cos(b), l = std::min(p, q) - 1e-9, h = std::max(p, q) + 1e-9; // one turn at most: extremes at the ends or at a multiple of a half turn
    if (std::floor(b / (2 * M_PI) + 1e-9) != std::floor(a / (2 * M_PI) - 1e-9)) h = 1; if (std::floor((b - M_PI) / (2 * M_PI) + 1e-9) != std::floor((a - M_PI) / (2 * M_PI) - 1e-9)) l = -1;
    l = nextDn(nextDn(rnd(l, ty), ty), ty); h = nextUp(nextUp(rnd(h, ty), ty), ty); return fI(std::max(l, -1.0), std::min(h, 1.0), nan); }
  if (n == "tan" && !fEmpty(x) && x.lo > -1.57079 && x.hi < 1.57079) return incr([](double d) { return std::tan(d); }, -INFINITY, INFINITY);
  if (n == "tan") return fI(-INFINITY, INFINITY, nan || hasInf(x));
  if (n == "atan2") { double pi = rnd(M_PI, ty); const AV& z = v[1];
    if (!fEmpty(x) && !fEmpty(z) && (x.lo > 0 || x.hi < 0 || z.lo > 0)) { // the box avoids the cut and the origin: extremes at its corners
      double l = INFINITY, h = -INFINITY; for (double a : {x.lo, x.hi}) for (double b : {z.lo, z.hi}) { double r = std::atan2(a, b); if (!std::isnan(r)) { l = std::min(l, r); h = std::max(h, r); } }
      return fI(std::max(-pi, -nextUp(nextUp(-rnd(l, ty), ty), ty)), std::min(pi, nextUp(nextUp(rnd(h, ty), ty), ty)), nan || z.nan); }
    return fI(-pi, pi, nan || v[1].nan); }
  if (n == "atan") return fI(-rnd(M_PI_2, ty), rnd(M_PI_2, ty), nan);
  if (n == "acos") { double pi = rnd(M_PI, ty); bool bad = nan || fEmpty(x) || x.lo < -1 || x.hi > 1; if (fEmpty(x) || x.lo > 1 || x.hi < -1) return fI(0, pi, bad); double l = rnd(std::acos(std::min(x.hi, 1.0)), ty), h = rnd(std::acos(std::max(x.lo, -1.0)), ty); return fI(l <= 0 ? 0 : std::max(0.0, nextDn(nextDn(l, ty), ty)), h >= pi ? pi : std::min(pi, nextUp(nextUp(h, ty), ty)), bad); }
  if (n == "asin") return fI(-rnd(M_PI_2, ty), rnd(M_PI_2, ty), nan || fEmpty(x) || x.lo < -1 || x.hi > 1);
  if (n == "hypot") { const AV& y = v[1]; if (fEmpty(x) || fEmpty(y)) return fI(0, INFINITY, true); double l = std::max((x.lo <= 0 && x.hi >= 0) ? 0 : std::min(std::fabs(x.lo), std::fabs(x.hi)), (y.lo <= 0 && y.hi >= 0) ? 0 : std::min(std::fabs(y.lo), std::fabs(y.hi)));
    if (l > 0) { double lx = (x.lo <= 0 && x.hi >= 0) ? 0 : std::min(std::fabs(x.lo), std::fabs(x.hi)), ly = (y.lo <= 0 && y.hi >= 0) ? 0 : std::min(std::fabs(y.lo), std::fabs(y.hi)); double q = std::hypot(lx, ly); if (!std::isinf(q)) l = std::max(l, -nextUp(nextUp(-(ty.k == TK::F32 ? (double)(float)q : q), ty), ty)); }
    double h = std::hypot(std::max(std::fabs(x.lo), std::fabs(x.hi)), std::max(std::fabs(y.lo), std::fabs(y.hi))); h = std::isinf(h) ? h : nextUp(nextUp(rnd(h, ty), ty), ty); return fI(l, h, nan || v[1].nan); }
  if (n == "exp") return incr([](double d) { return std::exp(d); }, -INFINITY, INFINITY);
  if (n == "exp2") return incr([](double d) { return std::exp2(d); }, -INFINITY, INFINITY);
  if (n == "log") return incr([](double d) { return d <= 0 ? -INFINITY : std::log(d); }, 0, INFINITY);
  if (n == "log2") return incr([](double d) { return d <= 0 ? -INFINITY : std::log2(d); }, 0, INFINITY);
  if (n == "cbrt") return incr([](double d) { return std::cbrt(d); }, -INFINITY, INFINITY);
  if (n == "pow") { const AV& y = v[1]; if (fEmpty(x) || fEmpty(y)) return fI(-INFINITY, INFINITY, true);
    if (x.lo >= 0) { double c[4] = {std::pow(x.lo, y.lo), std::pow(x.lo, y.hi), std::pow(x.hi, y.lo), std::pow(x.hi, y.hi)}; double l = INFINITY, h = 0; for (double d : c) { if (std::isnan(d)) { l = 0; h = INFINITY; break; } l = std::min(l, d); h = std::max(h, d); } if ((x.lo <= 1 && x.hi >= 1) || (y.lo <= 0 && y.hi >= 0)) { l = std::min(l, 1.0); h = std::max(h, 1.0); }
      auto U = [&](double d, int s) { if (std::isinf(d) || d == 0 || d == 1) return rnd(d, ty); d = rnd(d, ty); return s > 0 ? nextUp(nextUp(d, ty), ty) : nextDn(nextDn(d, ty), ty); }; double ll = U(l, -1), hh = U(h, 1); if (l >= 1) ll = std::max(ll, 1.0); if (h <= 1) hh = std::min(hh, 1.0); return fI(ll, hh, nan || y.nan); }
    return fI(-INFINITY, INFINITY, true); }
  return fI(-INFINITY, INFINITY, true);
}
static AV arith(const State* s, T t, std::unordered_map<T, AV>& memo) {
  auto E = [&](T x) { return get(s, x, memo); };
  Ty ty = t->ty;
  switch (t->op) {
    case Op::Const: if (ty.isI()) return iU(t->iv, t->iv, ty.w); if (ty.isF()) return std::isnan(t->fv) ? fI(1, 0, true) : fI(t->fv, t->fv, false); return AV();
    case Op::Sym: return gSymRange[t->iv];
    case Op::Lin: {
      __int128 l = 0, h = 0; int64_t c = sextW(t->iv, ty.w); l = h = c;
      __int128 ul = t->iv, uh = t->iv; bool uok = true;
      for (size_t i = 0; i < t->a.size(); ++i) { AV x = E(t->a[i]); if (x.bot) return x; __int128 k = sextW(t->co[i], ty.w); if (k >= 0) { l += k * x.sl; h += k * x.sh; ul += k * (__int128)x.ul; uh += k * (__int128)x.uh; } else { l += k * x.sh; h += k * x.sl; uok = false; } if (l < -((__int128)1 << 100) || h > ((__int128)1 << 100)) return topOf(ty); }
      AV r = topOf(ty);
      if (l >= r.sl && h <= r.sh) { AV q = iS((int64_t)l, (int64_t)h, ty.w); if (!q.bot) r = q; }
      if (uok && uh <= (__int128)maskW(ty.w)) { AV q = iU((uint64_t)ul, (uint64_t)uh, ty.w); r = meet(r, q, ty); }
      // negative constant, all-positive coefficients, unsigned view: common for  size-1
      return r; }
    case Op::Mul: { AV x = E(t->a[0]), y = E(t->a[1]); AV r = topOf(ty); __int128 c[4] = {(__int128)x.sl * y.sl, (__int128)x.sl * y.sh, (__int128)x.sh * y.sl, (__int128)x.sh * y.sh}; __int128 l = c[0], h = c[0]; for (auto d : c) { l = std::min(l, d); h = std::max(h, d); } if (l >= r.sl && h <= r.sh) return iS(l, h, ty.w); unsigned __int128 u = (unsigned __int128)x.uh * y.uh; if (u <= maskW(ty.w)) return iU(x.ul * y.ul, (uint64_t)u, ty.w); return r; }
    case Op::UDiv: { AV x = E(t->a[0]), y = E(t->a[1]); if (y.ul == 0) return iU(0, x.uh, ty.w); return iU(x.ul / y.uh, x.uh / y.ul, ty.w); }
    case Op::URem: { AV x = E(t->a[0]), y = E(t->a[1]); if (x.uh < y.ul) return x; return iU(0, std::min(x.uh, y.uh ? y.uh - 1 : 0), ty.w); }
    case Op::SDiv: { AV x = E(t->a[0]), y = E(t->a[1]); if (y.sl > 0) { __int128 c[4] = {x.sl / y.sl, x.sl / y.sh, x.sh / y.sl, x.sh / y.sh}; __int128 l = c[0], h = c[0]; for (auto d : c) { l = std::min(l, d); h = std::max(h, d); } return iS(l, h, ty.w); } return topOf(ty); }
    case Op::SRem: { AV x = E(t->a[0]), y = E(t->a[1]); if (y.sl > 0) { if (x.sl >= 0 && x.sh < y.sl) return x; return iS(x.sl >= 0 ? 0 : std::max(x.sl, -(y.sh - 1)), x.sh <= 0 ? 0 : std::min(x.sh, y.sh - 1), ty.w); } return topOf(ty); }
    case Op::And: { AV x = E(t->a[0]), y = E(t->a[1]); return iU(0, std::min(x.uh, y.uh), ty.w); }
    case Op::Or: case Op::Xor: { AV x = E(t->a[0]), y = E(t->a[1]); uint64_t m = x.uh | y.uh; while (m & (m + 1)) m |= m >> 1; return iU(t->op == Op::Or ? std::max(x.ul, y.ul) : 0, m, ty.w); }
    case Op::LShrV: { AV x = E(t->a[0]), y = E(t->a[1]); if (y.uh >= ty.w) return topOf(ty); return iU(x.ul >> y.uh, x.uh >> y.ul, ty.w); }
    case Op::AShr: { AV x = E(t->a[0]), y = E(t->a[1]); if (y.uh >= ty.w) return topOf(ty); return iS(std::min(x.sl >> y.ul, x.sl >> y.uh), std::max(x.sh >> y.ul, x.sh >> y.uh), ty.w); }
    case Op::ShlV: { AV x = E(t->a[0]), y = E(t->a[1]); if (y.uh < ty.w && (x.uh << y.uh) >> y.uh == x.uh && (x.uh << y.uh) <= maskW(ty.w)) return iU(x.ul << y.ul, x.uh << y.uh, ty.w); return topOf(ty); }
    case Op::Bits: { int pos = 0; unsigned __int128 l = 0, h = 0; for (auto& p : t->parts) { uint64_t pl = 0, ph = maskW(p.len); if (p.t->isC() && p.t->ty.isI()) pl = ph = p.t->iv & maskW(p.len); else if (p.t->ty.isI()) { AV x = E(p.t); if (x.bot) return x; if (p.lo < 64 && (x.uh >> p.lo) <= maskW(p.len)) { pl = x.ul >> p.lo; ph = x.uh >> p.lo; } else if (p.lo == 0 && p.len < 64 && (x.ul >> p.len) == (x.uh >> p.len)) { pl = x.ul & maskW(p.len); ph = x.uh & maskW(p.len); } } if (pos < 64) { l += (unsigned __int128)pl << pos; h += (unsigned __int128)ph << pos; } pos += p.len; }
      AV r = iU((uint64_t)l, (uint64_t)h, ty.w);
      if (t->parts.size() == 1 && t->parts[0].lo == 0 && t->parts[0].t->ty.isI()) { AV x = E(t->parts[0].t); AV tp = topOf(ty); if (x.sl >= tp.sl && x.sh <= tp.sh) r = meet(r, iS(x.sl, x.sh, ty.w), ty); }
      return r; }
    case Op::SExt: { AV x = E(t->a[0]); return iS(x.sl, x.sh, ty.w); }
    case Op::FAdd: case Op::FSub: case Op::FMul: case Op::FDiv: case Op::FRem: case Op::FMin: case Op::FMax: case Op::FCopySign: {
      AV x = E(t->a[0]), y = E(t->a[1]); if (x.bot) return x; if (y.bot) return y; AV r = fbin(t->op, x, y, ty, t->a[0] == t->a[1], has(x, 0) && nonZero(s, t->a[0]), has(y, 0) && nonZero(s, t->a[1]));
      if (s && (t->op == Op::FSub) && t->a[0] != t->a[1]) { unsigned m = relMask(*s, t->a[0], t->a[1], false); if (!(m & 4)) r = meet(r, fI(0, INFINITY, true), ty); if (!(m & 2)) r = meet(r, fI(-INFINITY, 0, true), ty); if (!(m & 1) && !(m & 2)) r = meet(r, fI(-INFINITY, -DBL_TRUE_MIN, true), ty); if (!(m & 1) && !(m & 4)) r = meet(r, fI(DBL_TRUE_MIN, INFINITY, true), ty); 
        if (!(m&2) && !(m&4) && !(m&8)) { r = fI(0,0,r.nan);} }
      if (t->op == Op::FSub) { // x - c * nearest(x / c), c a power of two
        double c = 1; T q = t->a[1]; for (int k = 0; k < 2 && q->op == Op::FMul; ++k) if (q->a[k]->op == Op::Const) { c = q->a[k]->fv; q = q->a[1 - k]; }
        int e; bool p2 = c > 1e-6 && c < 1e6 && std::frexp(c, &e) == 0.5;
        if (p2 && (q->op == Op::FFloor || q->op == Op::FCeil || q->op == Op::FRound || q->op == Op::FRint || q->op == Op::FTrunc)) { T w = q->a[0]; bool m = c == 1 && w == t->a[0];
          if (w->op == Op::FMul) for (int k = 0; k < 2; ++k) m |= w->a[k]->op == Op::Const && w->a[k]->fv * c == 1 && w->a[1 - k] == t->a[0];
          if (w->op == Op::FDiv) m |= w->a[1]->op == Op::Const && w->a[1]->fv == c && w->a[0] == t->a[0];
          if (m) { bool nan = x.nan || y.nan || hasInf(x); switch (q->op) { case Op::FFloor: r = meet(r, fI(0, c, nan), ty); break; case Op::FCeil: r = meet(r, fI(-c, 0, nan), ty); break; case Op::FTrunc: r = meet(r, fI(-c, c, nan), ty); break; default: r = meet(r, fI(-c / 2, c / 2, nan), ty); } } } }
      if (s && t->op == Op::FDiv && !x.nan && !y.nan) { // 0<=a<=b , b>0  => a/b in [0,1]
        if (y.lo > 0) { unsigned m = relMask(*s, t->a[0], t->a[1], false); if ((!(m & 3) && x.lo > -INFINITY) || !(m & 5)) r.nan = false; if (!(m & 2)) r = meet(r, fI(-INFINITY, 1, r.nan), ty); if (!(m & 4)) r = meet(r, fI(1, INFINITY, r.nan), ty); } }
      if (t->op == Op::FDiv && !x.nan && !y.nan && t->a[1]->op == Op::FFn && t->a[1]->name == "hypot" && !hasInf(x) && nonZero(s, t->a[1])) { // a leg over the hypotenuse
        auto strip = [](T q) { while (q->op == Op::FNeg || q->op == Op::FAbs) q = q->a[0]; return q; }; T n = strip(t->a[0]);
        for (T g : t->a[1]->a) if (strip(g) == n) r = meet(r, fI(-1, 1, false), ty); }
      if (t->op == Op::FDiv && !x.nan && !y.nan && y.lo >= 0 && nonZero(s, t->a[1])) { if (x.lo >= 0) r = meet(r, fI(0, INFINITY, r.nan), ty); if (x.hi <= 0) r = meet(r, fI(-INFINITY, 0, r.nan), ty); }
      if (t->op == Op::FDiv && !x.nan && !y.nan && !hasInf(x) && t->a[1] == tF(Op::FAbs, t->a[0]) && nonZero(s, t->a[1])) r = meet(r, fI(-1, 1, false), ty); // x / |x|
      return r; }
    case Op::FNeg: { AV x = E(t->a[0]); if (fEmpty(x)) return x; return fI(-x.hi, -x.lo, x.nan); }
    case Op::FAbs: { AV x = E(t->a[0]); if (fEmpty(x)) return x; double m = std::max(std::fabs(x.lo), std::fabs(x.hi)); return fI((x.lo <= 0 && x.hi >= 0) ? 0 : std::min(std::fabs(x.lo), std::fabs(x.hi)), m, x.nan); }
    case Op::FSqrt: { AV x = E(t->a[0]); if (fEmpty(x)) return x; if (x.hi < 0) return fI(1, 0, true); return fI(rnd(std::sqrt(std::max(0.0, x.lo)), ty), rnd(std::sqrt(x.hi), ty), x.nan || x.lo < 0); }
    case Op::FFloor: return mono1(E(t->a[0]), ty, [](double d) { return std::floor(d); });
    case Op::FCeil: return mono1(E(t->a[0]), ty, [](double d) { return std::ceil(d); });
    case Op::FTrunc: return mono1(E(t->a[0]), ty, [](double d) { return std::trunc(d); });
    case Op::FRound: return mono1(E(t->a[0]), ty, [](double d) { return std::round(d); });
    case Op::FRint: return mono1(E(t->a[0]), ty, [](double d) { return std::nearbyint(d); });
    case Op::FFn: { if (t->name == "rounderr") return fI(-.5, .5, false);
      if (t->name == "sin" && t->a[0]->op == Op::FFn && t->a[0]->name == "acos") { AV x = E(t->a[0]); return fI(0, 1, x.nan); }  // up to rounding at a half turn
      std::vector<AV> v; for (T x : t->a) v.push_back(E(t->name == "hypot" ? tF(Op::FAbs, x) : x)); return ffn(t, v); }
    case Op::FPExt: return E(t->a[0]);
    case Op::FPTrunc: { AV x = E(t->a[0]); if (fEmpty(x)) return x; return fI(rnd(x.lo, ty), rnd(x.hi, ty), x.nan); }
    case Op::SIToFP: { AV x = E(t->a[0]); return fI(rnd((double)x.sl, ty), rnd((double)x.sh, ty), false); }
    case Op::UIToFP: { AV x = E(t->a[0]); return fI(rnd((double)x.ul, ty), rnd((double)x.uh, ty), false); }
    case Op::FPToSI: { AV x = E(t->a[0]); AV r = topOf(ty); if (x.nan || fEmpty(x)) return r; double l = std::trunc(x.lo), h = std::trunc(x.hi); double mn = (double)r.sl, mx = -(double)r.sl; if (l >= mn && h < mx) return iS((int64_t)l, (int64_t)h, ty.w); return r; }
    case Op::FPToUI: { AV x = E(t->a[0]); AV r = topOf(ty); if (x.nan || fEmpty(x)) return r; double l = std::trunc(x.lo), h = std::trunc(x.hi); double mx = std::ldexp(1.0, ty.w); if (l >= 0 && h < mx) return iU((uint64_t)l, (uint64_t)h, ty.w); return r; }
    case Op::ICmp: case Op::FCmp: case Op::IsClass: case Op::Not: case Op::AndB: case Op::OrB: { if (s) { int v = truth(*s, t); if (v >= 0) return iU(v, v, 1); } return iU(0, 1, 1); }
    case Op::Select: { AV c = E(t->a[0]); if (c.ul == c.uh) return E(t->a[c.ul ? 1 : 2]); return hull(E(t->a[1]), E(t->a[2]), ty); }
    case Op::IntFn: { AV r = topOf(ty); if (t->name == "ctlz" || t->name == "cttz" || t->name == "ctpop") return iU(0, t->a[0]->ty.w, ty.w);
      AV x = E(t->a[0]); if (t->name == "abs" && x.sl > r.sl) return iS(x.sl <= 0 && x.sh >= 0 ? 0 : std::min(std::llabs(x.sl), std::llabs(x.sh)), std::max(std::llabs(x.sl), std::llabs(x.sh)), ty.w);
      if (t->a.size() == 2) { AV y = E(t->a[1]); if (t->name == "smin") return iS(std::min(x.sl, y.sl), std::min(x.sh, y.sh), ty.w); if (t->name == "smax") return iS(std::max(x.sl, y.sl), std::max(x.sh, y.sh), ty.w); if (t->name == "umin") return iU(std::min(x.ul, y.ul), std::min(x.uh, y.uh), ty.w); if (t->name == "umax") return iU(std::max(x.ul, y.ul), std::max(x.uh, y.uh), ty.w); }
      return r; }
    default: return topOf(ty);
  }
}
// ---- relations -------------------------------------------------------------------------------
static unsigned swapM(unsigned p) { return (p & 9) | ((p & 2) << 1) | ((p & 4) >> 1); }
static unsigned direct(const State& s, T a, T b, bool uns) {
  if (a == b) return 9;
  bool sw = a->id > b->id; FactKey k{sw ? b->id : a->id, sw ? a->id : b->id};
  auto& f = s.facts[uns].r(); auto i = f.find(k); unsigned m = 15; if (i != f.end()) m = i->second; return sw ? swapM(m) : m;
}
static unsigned ivMask(const AV& x, const AV& y, Ty t, bool uns) {
  unsigned m = 0;
  if (t.isF()) { if (x.nan || y.nan) m |= 8; if (!fEmpty(x) && !fEmpty(y)) { if (x.lo < y.hi) m |= 4; if (x.hi > y.lo) m |= 2; if (x.lo <= y.hi && y.lo <= x.hi) m |= 1; } return m; }
  if (uns) { if (x.ul < y.uh) m |= 4; if (x.uh > y.ul) m |= 2; if (x.ul <= y.uh && y.ul <= x.uh && x.sl <= y.sh && y.sl <= x.sh) m |= 1; }
  else { if (x.sl < y.sh) m |= 4; if (x.sh > y.sl) m |= 2; if (x.sl <= y.sh && y.sl <= x.sh && x.ul <= y.uh && y.ul <= x.uh) m |= 1; }
  return m;
}
static int relDepth = 0;
// x<=y composition: relation of (a,c) given (a,b) in m1, (b,c) in m2, all ordered
static unsigned comp(unsigned m1, unsigned m2) {
  if ((m1 | m2) & 8) return 15; unsigned r = 0;
  for (unsigned p : {1u, 2u, 4u}) if (m1 & p) for (unsigned q : {1u, 2u, 4u}) if (m2 & q) { if (p == 1) r |= q; else if (q == 1) r |= p; else if (p == q) r |= p; else r |= 7; }
  return r;
}
static unsigned structRel(const State& s, T a, T b);
unsigned relMask(const State& s, T a, T b, bool uns) {
  AV x = evalAV(s, a), y = evalAV(s, b);
  if (a == b) { return (a->ty.isF() && x.nan) ? 9 & (fEmpty(x) ? 8 : 9) : 1; }
  unsigned m = ivMask(x, y, a->ty, uns);
  m &= direct(s, a, b, uns);
  if (!uns && a->ty.isI()) { unsigned u = direct(s, a, b, true); if (!(u & 1)) m &= ~1u; }
  if (uns) { unsigned u = direct(s, a, b, false); if (!(u & 1)) m &= ~1u; }
  if (!m || !(m & (m - 1))) return m;
  if (relDepth < 3) {
    ++relDepth;
    auto& nb = s.nbr.r();
    auto i = nb.find(a->id); 
    if (i != nb.end()) for (T c : i->second) { if (c == b || c->ty != a->ty) continue; unsigned m1 = direct(s, a, c, uns); if (m1 & 8) { AV z = evalAV(s, c); if (!x.nan && !z.nan) m1 &= 7; } if ((m1 & 8) || m1 == 7) continue; 
      unsigned m2 = direct(s, c, b, uns); { AV z = evalAV(s, c); m2 &= ivMask(z, y, a->ty, uns); } if ((m2 & 7) == 7 && relDepth < 3) m2 &= relMask(s, c, b, uns); if (m2 & 8) continue; unsigned r = comp(m1, m2); m &= r; if (!(m & (m - 1))) break; }
    if (m & (m - 1)) { auto j = nb.find(b->id); if (j != nb.end()) for (T c : j->second) { if (c == a || c->ty != a->ty) continue; unsigned m2 = direct(s, c, b, uns); AV z = evalAV(s, c); if ((m2 & 8) && !y.nan && !z.nan) m2 &= 7; if ((m2 & 8) || m2 == 7) continue; unsigned m1 = direct(s, a, c, uns) & ivMask(x, z, a->ty, uns); if (m1 & 8) continue; m &= comp(m1, m2); if (!(m & (m - 1))) break; } }
    if ((m & (m - 1)) && a->ty.isF()) m &= structRel(s, a, b);
    --relDepth;
  }
  // integers: difference with constant offset
  if (a->ty.isI() && (m & (m - 1))) { T d = tSub(a, b); if (d->isC()) { if (d->iv != 0) m &= ~1u; else m &= 1; } else { AV dv = evalAV(s, d); if (!uns && !(x.bot || y.bot)) { AV tp = topOf(a->ty); __int128 lo = (__int128)x.sl - y.sh, hi = (__int128)x.sh - y.sl; if (lo >= tp.sl && hi <= tp.sh) { if (dv.sl > 0) m &= 2; else if (dv.sl >= 0) m &= 3; if (dv.sh < 0) m &= 4; else if (dv.sh <= 0) m &= 5; } } if (dv.ul > 0) m &= ~1u; } }
  return m;
}
// monotone-operation facts: a vs b where one is built from the other by an order-preserving step (correct rounding is monotone)
static unsigned structRel(const State& s, T a, T b) {
  auto nonneg = [&](T x) { AV v = evalAV(s, x); return !v.nan && !fEmpty(v) && v.lo >= 0; };
  auto nonpos = [&](T x) { AV v = evalAV(s, x); return !v.nan && !fEmpty(v) && v.hi <= 0; };
  auto noNan = [&](T x) { return !evalAV(s, x).nan; };
  auto one = [&](T x, T y) -> unsigned { // info about x versus y from the shape of x
    unsigned m = 15;
    if (x->op == Op::FAdd) for (int k = 0; k < 2; ++k) if (x->a[k] == y && noNan(x)) { if (nonneg(x->a[1 - k])) m &= 3; if (nonpos(x->a[1 - k])) m &= 5; }
    if (x->op == Op::FPExt && y->isC() && x->a[0]->ty.k == TK::F32 && (double)(float)y->fv == y->fv) m &= relMask(s, x->a[0], cF(y->fv, x->a[0]->ty), false);
    if (x->op == Op::FSub && y->isC() && y->fv == 0 && noNan(x) && noNan(x->a[0]) && noNan(x->a[1])) m &= relMask(s, x->a[0], x->a[1], false) & 7;   // gradual underflow keeps the sign of a difference
    if (x->op == Op::FSub && x->a[0] == y && noNan(x)) { if (nonneg(x->a[1])) m &= 5; if (nonpos(x->a[1])) m &= 3; }
    if ((x->op == Op::FMin || x->op == Op::FMax) && x->a[0]->op == x->op || x->a.size() > 1 && (x->op == Op::FMin || x->op == Op::FMax) && (x->a[1]->op == x->op || y->op == x->op)) { // extremum over a set of leaves
      auto leaves = [](T r) { std::set<T> l; std::vector<T> w{r}; while (!w.empty() && l.size() < 64) { T q = w.back(); w.pop_back(); if (q->op == r->op) { w.push_back(q->a[0]); w.push_back(q->a[1]); } else l.insert(q); } return l; };
      std::set<T> L = leaves(x); bool nn = true; for (T q : L) nn = nn && noNan(q);
      if (nn) { bool in = true; if (y->op == x->op) { for (T q : leaves(y)) in = in && L.count(q); } else in = L.count(y); if (in) m &= x->op == Op::FMin ? 5 : 3; } }
    if ((x->op == Op::FMin || x->op == Op::FMax) && y->op != x->op && noNan(x) && (m & (m - 1))) { // an extremum is bounded by y when every leaf is
      std::set<T> L; std::vector<T> w{x}; while (!w.empty() && L.size() < 16) { T q = w.back(); w.pop_back(); if (q->op == x->op) { w.push_back(q->a[0]); w.push_back(q->a[1]); } else L.insert(q); }
      if (w.empty()) { unsigned all = 0, mx = x->op == Op::FMax; bool nn = true; for (T q : L) { nn = nn && noNan(q); all |= q == y ? 1u : relMask(s, q, y, false); } if (nn && !(all & 8)) { for (T q : L) { unsigned o = q == y ? 1u : relMask(s, q, y, false); if (mx && !(o & 4)) m &= o & 1 ? 3 : 2; if (!mx && !(o & 2)) m &= o & 1 ? 5 : 4; } if (mx && !(all & 2)) m &= all | 4; if (!mx && !(all & 4)) m &= all | 2; } } }
    if (x->op == Op::FMin && noNan(x->a[0]) && noNan(x->a[1])) for (T o : x->a) if (o == y) m &= 5;
    if (x->op == Op::FMax && noNan(x->a[0]) && noNan(x->a[1])) for (T o : x->a) if (o == y) m &= 3;
    if (x->op == Op::FAbs && x->a[0] == y && noNan(y)) m &= nonneg(y) ? 1 : 3;
    if (x->op == Op::FAbs && y->op == Op::FNeg && x->a[0] == y->a[0] && noNan(y)) m &= nonneg(y) ? 1 : 3;
    if ((x->op == Op::FFloor) && x->a[0] == y && noNan(y)) m &= 5;
    if ((x->op == Op::FCeil) && x->a[0] == y && noNan(y)) m &= 3;
    if (x->op == Op::FMul && noNan(x)) for (int k = 0; k < 2; ++k) if (x->a[k] == y && nonneg(y)) { AV f = evalAV(s, x->a[1 - k]); if (!f.nan && f.lo >= 0 && f.hi <= 1) m &= 5; if (!f.nan && f.lo >= 1) m &= 3; }
    return m;
  };
  unsigned m = one(a, b) & swapM(one(b, a));
  auto sumLike = [](T x) { return x->op == Op::FAdd || x->op == Op::FSub; };
  if (sumLike(a) && sumLike(b) && a->ty == b->ty && (m & (m - 1)) && noNan(a) && noNan(b)) { // rounding is monotone: compare the signed operands pairwise
    struct SO { T t; bool neg; }; SO p[2] = {{a->a[0], false}, {a->a[1], a->op == Op::FSub}}, q[2] = {{b->a[0], false}, {b->a[1], b->op == Op::FSub}};
    auto sr = [&](SO x, SO y) -> unsigned { if (x.neg == y.neg) { unsigned r = relMask(s, x.t, y.t, false); return x.neg ? swapM(r) : r; }
      bool xp = x.neg ? nonpos(x.t) : nonneg(x.t), xn = x.neg ? nonneg(x.t) : nonpos(x.t), yp = y.neg ? nonpos(y.t) : nonneg(y.t), yn = y.neg ? nonneg(y.t) : nonpos(y.t); unsigned r = 15; if (xn && yp) r = 5; if (xp && yn) r &= 3; return r; };
    for (int k = 0; k < 2 && (m & (m - 1)); ++k) { unsigned r1 = sr(p[0], q[k]), r2 = sr(p[1], q[1 - k]); if ((r1 | r2) & 8) continue; if (!((r1 | r2) & 2)) m &= 5; if (!((r1 | r2) & 4)) m &= 3; if (r1 == 1 && r2 == 1) m &= 1; } }
  if (a->op == b->op && a->ty == b->ty && (m & (m - 1))) {
    auto R = [&](T x, T y) { return relMask(s, x, y, false); };
    auto weak = [&](unsigned r) -> unsigned { if (r & 8) return 15; if (!(r & 2)) return 5; if (!(r & 4)) return 3; return 15; };  // monotone (non strict) image
    switch (a->op) {
      case Op::FAdd: if (noNan(a) && noNan(b)) { for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) { if (a->a[i] == b->a[j]) m &= weak(R(a->a[1 - i], b->a[1 - j])); } 
         if (m & (m-1)) { unsigned p = R(a->a[0], b->a[0]), q = R(a->a[1], b->a[1]); if (!(p & 8) && !(q & 8)) { if (!(p & 2) && !(q & 2)) m &= 5; if (!(p & 4) && !(q & 4)) m &= 3; } } } break;
      case Op::FSub: if (noNan(a) && noNan(b)) { if (a->a[0] == b->a[0]) m &= swapM(weak(R(a->a[1], b->a[1]))); if (a->a[1] == b->a[1]) m &= weak(R(a->a[0], b->a[0])); } break;
      case Op::FMul: if (noNan(a) && noNan(b)) for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) if (a->a[i] == b->a[j]) { if (nonneg(a->a[i])) m &= weak(R(a->a[1 - i], b->a[1 - j])); else if (nonpos(a->a[i])) m &= swapM(weak(R(a->a[1 - i], b->a[1 - j]))); } break;
      case Op::FDiv: if (noNan(a) && noNan(b) && a->a[1] == b->a[1]) { AV d = evalAV(s, a->a[1]); if (!d.nan && d.lo > 0) m &= weak(R(a->a[0], b->a[0])); } break;
      case Op::FNeg: m &= swapM(R(a->a[0], b->a[0])); break;
      case Op::FSqrt: case Op::FFloor: case Op::FCeil: case Op::FRound: case Op::FTrunc: case Op::FPExt: case Op::FPTrunc: case Op::FRint: if (noNan(a) && noNan(b)) m &= a->op == Op::FPExt ? R(a->a[0], b->a[0]) : weak(R(a->a[0], b->a[0])); break;
      case Op::SIToFP: { unsigned r = R(a->a[0], b->a[0]); m &= weak(r); break; }
      default: break;
    }
  }
  return m;
}
// ---- refinement ------------------------------------------------------------------------------
static int refDepth = 0;
bool refine(State& s, T t, const AV& v) {
  if (t->isC()) { AV c = evalAV(s, t); return !meet(c, v, t->ty).bot; }
  if (!t->ty.isI() && !t->ty.isF()) return true;
  AV cur = evalAV(s, t); AV n = meet(cur, v, t->ty);
  if (n.bot) return false;
  if (sameAV(cur, n, t->ty)) return true;
  { auto& m = s.refs.w(); m[t] = n; }
  if (t->sig) s.rsig |= 1ull << ((t->id * 0x9e3779b97f4a7c15ull) >> 58);
  if (refDepth > 12) return true;
  ++refDepth; bool ok = true; Ty ty = t->ty;
  switch (t->op) {
    case Op::Bits: if (t->parts.size() >= 1 && t->parts[0].lo == 0 && t->parts[0].t->ty.isI()) { Part p = t->parts[0]; bool hiZero = true; uint64_t hc = 0; int pos = p.len; for (size_t i = 1; i < t->parts.size(); ++i) { if (!(t->parts[i].t->isC() && t->parts[i].t->ty.isI())) hiZero = false; else if (pos < 64) hc |= t->parts[i].t->iv << pos; pos += t->parts[i].len; }
        if (hiZero && hc == 0 && p.len == p.t->ty.w) ok = refine(s, p.t, iU(n.ul, n.uh, p.t->ty.w));
        else if (t->parts.size() == 1) { AV x = evalAV(s, p.t); if (x.uh <= maskW(p.len)) ok = refine(s, p.t, iU(n.ul, n.uh, p.t->ty.w)); else { AV tp = topOf(ty); if (x.sl >= tp.sl && x.sh <= tp.sh) ok = refine(s, p.t, iS(n.sl, n.sh, p.t->ty.w)); } }
        else if (hiZero && hc == 0) { AV x = evalAV(s, p.t); if (x.uh <= maskW(p.len)) ok = refine(s, p.t, iU(n.ul, n.uh, p.t->ty.w)); } } break;
    case Op::SExt: { Ty st = t->a[0]->ty; AV tp = topOf(st); int64_t l = std::max(n.sl, tp.sl), h = std::min(n.sh, tp.sh); if (l > h) ok = false; else ok = refine(s, t->a[0], iS(l, h, st.w)); break; }
    case Op::Lin: if (t->a.size() == 1) { int64_t k = sextW(t->co[0], ty.w), c = sextW(t->iv, ty.w); AV x = evalAV(s, t->a[0]); AV tp = topOf(ty); __int128 e1 = (__int128)k * x.sl + c, e2 = (__int128)k * x.sh + c; if (std::min(e1, e2) >= tp.sl && std::max(e1, e2) <= tp.sh && k != 0) { auto fl = [](__int128 a, __int128 b) -> __int128 { __int128 q = a / b; if ((a % b != 0) && ((a < 0) != (b < 0))) --q; return q; }; __int128 l = (__int128)n.sl - c, h = (__int128)n.sh - c; if (k < 0) { std::swap(l, h); } __int128 ql = -fl(-l, k), qh = fl(h, k); ql = std::max<__int128>(ql, tp.sl); qh = std::min<__int128>(qh, tp.sh); if (ql > qh) ok = false; else ok = refine(s, t->a[0], iS(ql, qh, ty.w)); } 
        else if (k == 1) { // unsigned no-wrap view
          __int128 u1 = (__int128)x.ul + c, u2 = (__int128)x.uh + c; if (u1 >= 0 && u2 <= (__int128)maskW(ty.w)) { __int128 l = (__int128)n.ul - c, h = (__int128)n.uh - c; l = std::max<__int128>(l, 0); h = std::min<__int128>(h, maskW(ty.w)); if (l > h) ok = false; else ok = refine(s, t->a[0], iU(l, h, ty.w)); } } } break;
    case Op::FNeg: ok = refine(s, t->a[0], fEmpty(n) ? n : fI(-n.hi, -n.lo, n.nan)); break;
    case Op::FAbs: ok = fEmpty(n) ? refine(s, t->a[0], fI(1, 0, true)) : refine(s, t->a[0], fI(-n.hi, n.hi, n.nan)); break;
    case Op::FPExt: ok = fEmpty(n) ? refine(s, t->a[0], n) : refine(s, t->a[0], fI(n.lo, n.hi, n.nan)); break;
    case Op::FPTrunc: if (!fEmpty(n)) ok = refine(s, t->a[0], fI(std::isinf(n.lo) ? n.lo : std::isinf(nextDn(n.lo, ty)) ? -INFINITY : nextDn(n.lo, ty), std::isinf(n.hi) ? n.hi : nextUp(n.hi, ty), n.nan)); break;
    case Op::FSqrt: if (!fEmpty(n)) { double h = std::isinf(n.hi) ? INFINITY : nextUp(nextUp(rnd(n.hi * n.hi, ty), ty), ty); double l = n.lo <= 0 ? -INFINITY : nextDn(nextDn(rnd(n.lo * n.lo, ty), ty), ty); if (!n.nan) l = std::max(l, n.lo > 0 ? l : -0.0); ok = refine(s, t->a[0], fI(l, h, n.nan)); } break;
    case Op::FAdd: case Op::FSub: for (int k = 0; k < 2 && ok; ++k) { if (t->a[0] == t->a[1]) break; AV o = evalAV(s, t->a[1 - k]); if (fEmpty(n) || fEmpty(o)) continue; bool nn = n.nan; AV x = topOf(ty);
        // no NaN in result => no NaN in operands
        double l = -INFINITY, h = INFINITY;
        if (!std::isinf(o.lo) && !std::isinf(o.hi) && !std::isinf(n.lo)) { double q = t->op == Op::FAdd ? n.lo - o.hi : (k == 0 ? n.lo + o.lo : o.lo - n.hi); if (t->op == Op::FSub && k == 1) q = o.lo - n.hi; if (!std::isnan(q) && !std::isinf(q)) { l = q - std::fabs(q) * 1e-6 - std::max(std::fabs(n.lo), std::fabs(n.hi) < 1e300 ? std::fabs(n.hi) : 0) * 1e-6 - 1e-44; } }
        if (!std::isinf(o.lo) && !std::isinf(o.hi) && !std::isinf(n.hi)) { double q = t->op == Op::FAdd ? n.hi - o.lo : (k == 0 ? n.hi + o.hi : o.hi - n.lo); if (!std::isnan(q) && !std::isinf(q)) { h = q + std::fabs(q) * 1e-6 + std::max(std::fabs(n.hi), std::fabs(n.lo) < 1e300 ? std::fabs(n.lo) : 0) * 1e-6 + 1e-44; } }
        x.lo = l; x.hi = h; x.nan = nn; ok = refine(s, t->a[k], x); } 
      if (ok && t->op == Op::FSub && !n.nan && !fEmpty(n) && t->a[0] != t->a[1]) { // the sign of a difference orders its operands
        if (n.lo == 0 && n.hi == 0) ok = addRel(s, t->a[0], t->a[1], 1, false); else if (n.lo >= 0) ok = addRel(s, t->a[0], t->a[1], n.lo > 0 ? 2 : 3, false); else if (n.hi <= 0) ok = addRel(s, t->a[0], t->a[1], n.hi < 0 ? 4 : 5, false); }
      if (ok && !n.nan && !fEmpty(n) && !std::isinf(n.lo) && !std::isinf(n.hi)) { // finite sum => both operands finite
        for (T o : t->a) if (ok) ok = refine(s, o, fI(-maxFin(ty), maxFin(ty), false)); }
      break;
    case Op::FMul: if (!n.nan && t->a[0] != t->a[1]) { for (T o : t->a) if (ok) ok = refine(s, o, fI(-INFINITY, INFINITY, false));
        for (int k = 0; k < 2 && ok; ++k) { AV o = evalAV(s, t->a[1 - k]); if (fEmpty(o) || fEmpty(n)) continue; if (o.lo > 0 && !std::isinf(o.hi)) { double l = std::isinf(n.lo) ? n.lo : n.lo > 0 ? std::max(0.0, n.lo - 1e-44) / o.hi * (1 - 1e-6) : (n.lo - 1e-44) / o.lo * (1 + 1e-6), h = std::isinf(n.hi) ? n.hi : n.hi < 0 ? 0 : (n.hi + 1e-44) / o.lo * (1 + 1e-6); if (std::isnan(l)) l = -INFINITY; if (std::isnan(h)) h = INFINITY; ok = refine(s, t->a[k], fI(l, h, false)); } } 
      } else if (!n.nan) ok = refine(s, t->a[0], fI(-INFINITY, INFINITY, false)); break;
    case Op::FDiv: if (!n.nan) for (T o : t->a) if (ok) ok = refine(s, o, fI(-INFINITY, INFINITY, false)); break;
    case Op::FMin: if (!fEmpty(n) && !n.nan) { AV x = evalAV(s, t->a[0]), y = evalAV(s, t->a[1]); if (!x.nan && !y.nan) for (T o : t->a) if (ok) ok = refine(s, o, fI(n.lo, INFINITY, false)); } break;
    case Op::FMax: if (!fEmpty(n) && !n.nan) { AV x = evalAV(s, t->a[0]), y = evalAV(s, t->a[1]); if (!x.nan && !y.nan) for (T o : t->a) if (ok) ok = refine(s, o, fI(-INFINITY, n.hi, false)); } break;
    case Op::FPToSI: case Op::FPToUI: { bool sg = t->op == Op::FPToSI; Ty ft = t->a[0]->ty; double l = sg ? (double)n.sl : (double)n.ul, h = sg ? (double)n.sh : (double)n.uh; if (std::fabs(l) < 1e9 && std::fabs(h) < 1e9 && (sg ? n.sl <= n.sh : n.ul <= n.uh)) ok = refine(s, t->a[0], fI(l > 0 ? l : nextUp(l - 1, ft), h < 0 ? h : nextDn(h + 1, ft), false)); break; }
    case Op::FFloor: if (!fEmpty(n)) ok = refine(s, t->a[0], fI(n.lo, std::isinf(n.hi) ? n.hi : std::floor(n.hi) + 1, n.nan)); break;
    case Op::FCeil: if (!fEmpty(n)) ok = refine(s, t->a[0], fI(std::isinf(n.lo) ? n.lo : std::ceil(n.lo) - 1, n.hi, n.nan)); break;
    case Op::SIToFP: if (!fEmpty(n)) { double l = std::ceil(nextDn(n.lo, ty)), h = std::floor(nextUp(n.hi, ty)); AV x = evalAV(s, t->a[0]); int64_t sl = x.sl, sh = x.sh; if (l > -9e18 && l < 9e18) sl = std::max(sl, (int64_t)l); if (h > -9e18 && h < 9e18) sh = std::min(sh, (int64_t)h); if (sl > sh) ok = false; else ok = refine(s, t->a[0], iS(sl, sh, t->a[0]->ty.w)); } break;
    case Op::BitCast: break;
    case Op::Select: { AV x = meet(evalAV(s, t->a[1]), n, ty), y = meet(evalAV(s, t->a[2]), n, ty); if (x.bot && y.bot) ok = false; else if (x.bot) { ok = assume1(s, t->a[0], false) && refine(s, t->a[2], n); } else if (y.bot) { ok = assume1(s, t->a[0], true) && refine(s, t->a[1], n); } break; }
    case Op::ICmp: case Op::FCmp: case Op::IsClass: case Op::Not: case Op::AndB: case Op::OrB: if (n.ul == n.uh) ok = assume1(s, t, n.ul); break;
    default: break;
  }
  --refDepth;
  // tighter bounds travel along recorded orderings
  static int prop = 0;
  if (ok && prop < 3 && (ty.isF() || ty.isI())) {
    auto ni = s.nbr.r().find(t->id);
    if (ni != s.nbr.r().end() && ni->second.size() <= 24) { std::vector<T> ns; for (T o : ni->second) if (!o->isC() && o->ty == ty) ns.push_back(o);
      ++prop;
      for (T o : ns) for (int u = 0; u < (ty.isI() ? 2 : 1) && ok; ++u) { unsigned m = direct(s, t, o, u); if ((m & 7) == 7 || (m & 7) == 6 || (ty.isF() && (m & 8))) continue; AV x = evalAV(s, t);
          if (x.bot) { ok = false; break; }
          if (ty.isF()) { if (fEmpty(x)) continue; double l = -INFINITY, h = INFINITY; if (!(m & 2)) l = (m & 1) ? x.lo : nextUp(x.lo, ty); if (!(m & 4)) h = (m & 1) ? x.hi : nextDn(x.hi, ty); ok = refine(s, o, fI(l, h, false)); }
          else { AV y = topOf(ty); if (u) { if (!(m & 2)) y.ul = (m & 1) ? x.ul : x.ul + 1; if (!(m & 4) && ((m & 1) || x.uh)) y.uh = (m & 1) ? x.uh : x.uh - 1; } else { if (!(m & 2)) y.sl = (m & 1) || x.sl == INT64_MAX ? x.sl : x.sl + 1; if (!(m & 4)) y.sh = (m & 1) || x.sh == INT64_MIN ? x.sh : x.sh - 1; } normI(y, ty.w); if (y.bot) ok = false; else ok = refine(s, o, y); } }
      --prop; } }
  return ok;
}
static bool trimEdges(State& s, T t, T) {
  // drop interval endpoints excluded by a recorded disequality
  if (!t->ty.isI() || t->isC()) return true;
  for (int g = 0; g < 300; ++g) { AV v = evalAV(s, t); if (v.bot) return false; bool ch = false;
    { unsigned m = direct(s, t, cI(v.ul, t->ty.w), false); if (!(m & 1)) { if (v.ul == v.uh) return false; AV n = v; n.ul++; normI(n, t->ty.w); if (n.bot || !refine(s, t, n)) return false; ch = true; } }
    if (!ch) { unsigned m = direct(s, t, cI(v.uh, t->ty.w), false); if (!(m & 1)) { if (v.ul == v.uh) return false; AV n = v; n.uh--; normI(n, t->ty.w); if (n.bot || !refine(s, t, n)) return false; ch = true; } }
    if (!ch && v.sl < 0) { unsigned m = direct(s, t, cI((uint64_t)v.sl, t->ty.w), false); if (!(m & 1)) { AV n = v; n.sl++; normI(n, t->ty.w); if (n.bot || !refine(s, t, n)) return false; ch = true; } }
    if (!ch) return true; }
  return true;
}
bool addRel(State& s, T a, T b, unsigned mask, bool uns) {
  unsigned cur = relMask(s, a, b, uns); unsigned m = cur & mask;
  if (!m) return false;
  if (a == b) { if (!a->ty.isF()) return true; if (!(m & 8)) return refine(s, a, fI(-INFINITY, INFINITY, false)); if (m == 8) return refine(s, a, fI(1, 0, true)); return true; }
  if (m != cur || true) {
    bool sw = a->id > b->id; FactKey k{sw ? b->id : a->id, sw ? a->id : b->id}; uint8_t mm = sw ? swapM(m) : m;
    auto& r = s.facts[uns].r(); auto i = r.find(k);
    if (i == r.end() || i->second != mm) { s.facts[uns].w()[k] = mm; if (!(a->isC() && b->isC())) { auto& nb = s.nbr.w(); if (i == r.end()) { nb[a->id].push_back(b); nb[b->id].push_back(a); } } }
  }
  Ty t = a->ty;
  AV x = evalAV(s, a), y = evalAV(s, b);
  if (t.isF()) {
    { T o = a->isC() ? b : b->isC() ? a : a->id > b->id ? a : b; if (o->sig) s.rsig |= 1ull << ((o->id * 0x9e3779b97f4a7c15ull) >> 58); }  // a difference of the two depends on this relation
    { auto narrow = [](T q, Ty ft) -> T { if (q->op == Op::FPExt && q->a[0]->ty == ft) return q->a[0]; if (q->isC() && (double)(float)q->fv == q->fv && ft.k == TK::F32) return cF(q->fv, ft); return nullptr; };   // an ordering of widened values orders the values
      T e = a->op == Op::FPExt ? a : b->op == Op::FPExt ? b : nullptr; if (e) { Ty ft = e->a[0]->ty; T na = narrow(a, ft), nb = narrow(b, ft); if (na && nb && !addRel(s, na, nb, m, uns)) return false; }
      for (int k = 0; k < 2; ++k) { T d = k ? b : a, z = k ? a : b; if (d->op == Op::FSub && z->isC() && z->fv == 0 && !(m & 8) && d->a[0] != d->a[1]) { AV p = evalAV(s, d->a[0]), q = evalAV(s, d->a[1]); if (!p.nan && !q.nan) if (!addRel(s, d->a[0], d->a[1], k ? swapM(m) : m, uns)) return false; } } }
    if (!(m & 8)) { AV nn = fI(-INFINITY, INFINITY, false); if (!refine(s, a, nn) || !refine(s, b, nn)) return false; x = evalAV(s, a); y = evalAV(s, b);
      double xh = x.hi, xl = x.lo, yh = y.hi, yl = y.lo;
      if (!(m & 2)) { xh = std::min(xh, (m & 1) ? y.hi : nextDn(y.hi, t)); yl = std::max(yl, (m & 1) ? x.lo : nextUp(x.lo, t)); }
      if (!(m & 4)) { xl = std::max(xl, (m & 1) ? y.lo : nextUp(y.lo, t)); yh = std::min(yh, (m & 1) ? x.hi : nextDn(x.hi, t)); }
      if (!(m & 1)) { if (y.lo == y.hi) { if (xl == y.lo) xl = nextUp(xl, t); if (xh == y.lo) xh = nextDn(xh, t); } if (x.lo == x.hi) { if (yl == x.lo) yl = nextUp(yl, t); if (yh == x.lo) yh = nextDn(yh, t); } }
      if (!(xl <= xh) || !(yl <= yh)) return false;
      return refine(s, a, fI(xl, xh, false)) && refine(s, b, fI(yl, yh, false)); }
    if (!(x.nan) && !(y.nan)) return addRel(s, a, b, m & 7, uns);
    // unordered possible: if one side can't be NaN then other may; (m==8) -> x or y NaN
    if (m == 8) { if (!x.nan) return refine(s, b, fI(1, 0, true)); if (!y.nan) return refine(s, a, fI(1, 0, true)); return true; }
    // b is a constant / non-NaN: a is NaN or satisfies the ordering
    if (!y.nan) { double xh = x.hi, xl = x.lo; if (!fEmpty(x)) { if (!(m & 2)) xh = std::min(xh, (m & 1) ? y.hi : nextDn(y.hi, t)); if (!(m & 4)) xl = std::max(xl, (m & 1) ? y.lo : nextUp(y.lo, t)); return refine(s, a, fI(xl, xh, true)); } }
    if (!x.nan) { double yh = y.hi, yl = y.lo; if (!fEmpty(y)) { if (!(m & 2)) yl = std::max(yl, (m & 1) ? x.lo : nextUp(x.lo, t)); if (!(m & 4)) yh = std::min(yh, (m & 1) ? x.hi : nextDn(x.hi, t)); return refine(s, b, fI(yl, yh, true)); } }
    return true;
  }
  if (t.isI()) {
    AV nx = x, ny = y;
    if (m == 1) { nx = meet(x, y, t); ny = nx; if (nx.bot) return false; return refine(s, a, nx) && refine(s, b, ny); }
    if (uns) { if (!(m & 2)) { uint64_t lim = (m & 1) ? y.uh : y.uh - 1; if (!(m & 1) && y.uh == 0) return false; nx.uh = std::min(nx.uh, lim); uint64_t lo = (m & 1) ? x.ul : x.ul + 1; ny.ul = std::max(ny.ul, lo); }
      if (!(m & 4)) { if (!(m & 1) && x.uh == 0) return false; nx.ul = std::max(nx.ul, (m & 1) ? y.ul : y.ul + 1); ny.uh = std::min(ny.uh, (m & 1) ? x.uh : x.uh - 1); } }
    else { if (!(m & 2)) { if (!(m & 1) && y.sh == INT64_MIN) return false; nx.sh = std::min(nx.sh, (m & 1) ? y.sh : y.sh - 1); ny.sl = std::max(ny.sl, (m & 1) ? x.sl : x.sl + 1); }
      if (!(m & 4)) { nx.sl = std::max(nx.sl, (m & 1) ? y.sl : y.sl + 1); ny.sh = std::min(ny.sh, (m & 1) ? x.sh : x.sh - 1); } }
    normI(nx, t.w); normI(ny, t.w); if (nx.bot || ny.bot) return false;
    if (!refine(s, a, nx) || !refine(s, b, ny)) return false;
    if (!(m & 1)) { if (b->isC()) return trimEdges(s, a, b); if (a->isC()) return trimEdges(s, b, a); }
    return true;
  }
  return true;
}
// ---- booleans --------------------------------------------------------------------------------
static unsigned iMask(unsigned p, bool& uns) { // LLVM int pred -> ordering mask
  uns = p >= 34 && p <= 37;
  switch (p) { case 32: return 1; case 33: return 6; case 34: case 38: return 2; case 35: case 39: return 3; case 36: case 40: return 4; case 37: case 41: return 5; } return 15;
}
static int ptrEq(const State& s, T a, T b) { // 1 equal, 0 different, -1 unknown
  if (a == b) return 1;
  auto reg = [](T x) { return x->op == Op::PtrTo; };
  if (reg(a) && reg(b)) { if (a->iv != b->iv) return 0; unsigned m = relMask(s, a->a[0], b->a[0], false); return m == 1 ? 1 : !(m & 1) ? 0 : -1; }
  if (reg(a) && b->isC()) return 0; if (reg(b) && a->isC()) return 0;
  unsigned m = direct(s, a, b, false); if (m == 1) return 1; if (!(m & 1)) return 0; return -1;
}
// an address expressed as an integer: the object it points into, or -1
static int64_t baseRegion(T t) {
  int64_t r = -1; auto one = [&](T x, uint64_t c) { if (x->op == Op::PtrToInt && x->a[0]->op == Op::PtrTo) { if (c != 1 || r >= 0) { r = -2; return; } r = x->a[0]->iv; } };
  if (t->op == Op::PtrToInt) one(t, 1); else if (t->op == Op::Lin) for (size_t i = 0; i < t->a.size() && r != -2; ++i) one(t->a[i], t->co[i]);
  return r < 0 ? -1 : r;
}
int truth(const State& s, T c) {
  if (c->isC()) return c->iv & 1;
  auto bi = s.bools.r().find(c); if (bi != s.bools.r().end()) return bi->second;
  switch (c->op) {
    case Op::Not: { int v = truth(s, c->a[0]); return v < 0 ? v : !v; }
    case Op::AndB: { int x = truth(s, c->a[0]), y = truth(s, c->a[1]); if (x == 0 || y == 0) return 0; return x == 1 && y == 1 ? 1 : -1; }
    case Op::OrB: { int x = truth(s, c->a[0]), y = truth(s, c->a[1]); if (x == 1 || y == 1) return 1; return x == 0 && y == 0 ? 0 : -1; }
    case Op::ICmp: { T a = c->a[0], b = c->a[1];
      if (a->ty.isP()) { int e = ptrEq(s, a, b); if (c->iv == 32) return e; if (c->iv == 33) return e < 0 ? e : !e; if (a->op == Op::PtrTo && b->op == Op::PtrTo && a->iv == b->iv) return truth(s, tICmp(c->iv, a->a[0], b->a[0]));
        if (a->op == Op::PtrTo && b->op == Op::PtrTo) return (c->iv == 34 || c->iv == 35) ? a->iv > b->iv : (c->iv == 36 || c->iv == 37) ? a->iv < b->iv : -1;   // one fixed placement of unrelated objects
        return -1; }
      if (a->ty.w == 64 && c->iv != 32 && c->iv != 33) { int64_t ra = baseRegion(a), rb = baseRegion(b); if (ra >= 0 && rb >= 0 && ra != rb) return (c->iv == 34 || c->iv == 35 || c->iv == 38 || c->iv == 39) ? ra > rb : ra < rb; }
      if (a->ty.w == 64 && (c->iv == 32 || c->iv == 33)) { auto exact = [](T t) { return t->op == Op::PtrToInt || (t->op == Op::Lin && t->a.size() == 1); }; int64_t ra = exact(a) ? baseRegion(a) : -1, rb = exact(b) ? baseRegion(b) : -1;   // addresses of objects are neither 0 nor -1, nor those of other objects
        auto special = [](T t) { return t->isC() && (t->iv == 0 || t->iv == -1); }; if ((ra >= 0 && special(b)) || (rb >= 0 && special(a)) || (ra >= 0 && rb >= 0 && ra != rb)) return c->iv == 33; }
      bool uns; unsigned want = iMask(c->iv, uns); unsigned m = relMask(s, a, b, uns); if (!(m & ~want)) return 1; if (!(m & want)) return 0; return -1; }
    case Op::FCmp: { unsigned m = relMask(s, c->a[0], c->a[1], false); if (!(m & ~c->iv)) return 1; if (!(m & c->iv)) return 0; return -1; }
    case Op::IsClass: { AV v = evalAV(s, c->a[0]); unsigned can = 0; double mx = maxFin(c->a[0]->ty); double mn = c->a[0]->ty.k == TK::F32 ? FLT_MIN : DBL_MIN; if (v.nan) can |= 3; if (!fEmpty(v)) { if (v.lo == -INFINITY) can |= 4; if (v.hi == INFINITY) can |= 0x200; if (v.lo <= -mn && v.hi >= -mx) can |= 8; if (v.hi >= mn && v.lo <= mx) can |= 0x100; if (v.lo <= 0 && v.hi >= 0) can |= 0x60; if (v.lo < 0 && v.hi > -mn) can |= 0x10; if (v.hi > 0 && v.lo < mn) can |= 0x80; } unsigned w = c->iv; if (!(can & ~w)) return 1; if (!(can & w)) return 0; return -1; }
    case Op::Sym: case Op::Bits: { AV v = evalAV(s, c); if (v.ul == v.uh) return v.ul; return -1; }
    case Op::Select: { int k = truth(s, c->a[0]); if (k >= 0) return truth(s, c->a[k ? 1 : 2]); int x = truth(s, c->a[1]), y = truth(s, c->a[2]); return x == y ? x : -1; }
    default: return -1;
  }
}
static bool classRefine(State& s, T x, unsigned mask) {
  AV v = evalAV(s, x); double mx = maxFin(x->ty); bool nan = mask & 3; double lo = 1, hi = 0; bool any = false;
  auto add = [&](double l, double h) { if (fEmpty(v)) return; l = std::max(l, v.lo); h = std::min(h, v.hi); if (l <= h) { lo = any ? std::min(lo, l) : l; hi = any ? std::max(hi, h) : h; any = true; } };
  if (mask & 4) add(-INFINITY, -INFINITY); if (mask & 8) add(-mx, -(x->ty.k == TK::F32 ? FLT_MIN : DBL_MIN)); if (mask & 0x10) add(x->ty.k == TK::F32 ? -FLT_MIN : -DBL_MIN, x->ty.k == TK::F32 ? -FLT_TRUE_MIN : -DBL_TRUE_MIN); if (mask & 0x60) add(0, 0); if (mask & 0x80) add(x->ty.k == TK::F32 ? FLT_TRUE_MIN : DBL_TRUE_MIN, x->ty.k == TK::F32 ? FLT_MIN : DBL_MIN); if (mask & 0x100) add(x->ty.k == TK::F32 ? FLT_MIN : DBL_MIN, mx); if (mask & 0x200) add(INFINITY, INFINITY);
  if (!any) { if (!nan || !v.nan) return false; return refine(s, x, fI(1, 0, true)); }
  return refine(s, x, fI(lo, hi, nan && v.nan));
}
bool assume1(State& s, T c, bool v) {
  std::vector<State> o; assume(s, c, v, o); if (o.empty()) return false;
  if (o.size() == 1) s = std::move(o[0]); return true;
}
void assume(const State& s0, T c, bool v, std::vector<State>& out) {
  int k = truth(s0, c); if (k >= 0) { if (k == (int)v) out.push_back(s0); return; }
  switch (c->op) {
    case Op::Not: assume(s0, c->a[0], !v, out); return;
    case Op::AndB: case Op::OrB: {
      bool conj = (c->op == Op::AndB) == v;
      if (conj) { std::vector<State> m; assume(s0, c->a[0], v, m); for (auto& st : m) assume(st, c->a[1], v, out); return; }
      // exclusive split keeps the partition disjoint
      { std::vector<State> m; assume(s0, c->a[0], v, m); for (auto& st : m) out.push_back(st); }
      { std::vector<State> m; assume(s0, c->a[0], !v, m); for (auto& st : m) assume(st, c->a[1], v, out); }
      return; }
    case Op::ICmp: { T a = c->a[0], b = c->a[1]; State s = s0;
      if (a->ty.isP()) { if (a->op == Op::PtrTo && b->op == Op::PtrTo && a->iv == b->iv) { assume(s0, tICmp(c->iv, a->a[0], b->a[0]), v, out); return; }
        if (c->iv == 32 || c->iv == 33) { unsigned m = ((c->iv == 32) == v) ? 1 : 6; bool sw = a->id > b->id; FactKey key{sw ? b->id : a->id, sw ? a->id : b->id}; s.facts[0].w()[key] = m; } else s.bools.w()[c] = v; out.push_back(std::move(s)); return; }
      bool uns; unsigned want = iMask(c->iv, uns); if (!v) want = 7 & ~want; if (addRel(s, a, b, want, uns)) { s.bools.w()[c] = v; out.push_back(std::move(s)); } return; }
    case Op::FCmp: { State s = s0; unsigned want = v ? c->iv : 15 & ~c->iv; if (addRel(s, c->a[0], c->a[1], want, false)) { s.bools.w()[c] = v; out.push_back(std::move(s)); } return; }
    case Op::IsClass: { State s = s0; unsigned m = v ? c->iv : 0x3ff & ~c->iv;
      // +inf / -inf outside: keep as two partitions for "not finite"
      if (!v && c->iv == 0x1f8) { for (unsigned q : {3u, 4u, 0x200u}) { State t = s0; if (classRefine(t, c->a[0], q)) out.push_back(std::move(t)); } return; }
      if (classRefine(s, c->a[0], m)) { s.bools.w()[c] = v; out.push_back(std::move(s)); } return; }
    case Op::Select: { std::vector<State> m; assume(s0, c->a[0], true, m); for (auto& st : m) assume(st, c->a[1], v, out); m.clear(); assume(s0, c->a[0], false, m); for (auto& st : m) assume(st, c->a[2], v, out); return; }
    default: { State s = s0; s.bools.w()[c] = v; if (c->ty.isI()) if (!refine(s, c, iU(v, v, 1))) return; out.push_back(std::move(s)); return; }
  }
}
// ---- algebraic identities --------------------------------------------------------------------
typedef std::vector<std::pair<unsigned, int>> Mono;   // (term id, exponent) sorted
typedef std::map<Mono, long double> Poly;
struct Rat { Poly n, d; };
static std::map<unsigned, T> atomOf;
static Poly pC(long double c) { Poly p; if (c != 0) p[{}] = c; return p; }
static Poly pAdd(const Poly& a, const Poly& b, long double k = 1) { Poly r = a; for (auto& [m, c] : b) { auto& x = r[m]; x += k * c; } for (auto i = r.begin(); i != r.end();) { if (i->second == 0) i = r.erase(i); else ++i; } return r; }
static Mono mMul(const Mono& a, const Mono& b) { Mono r; size_t i = 0, j = 0; while (i < a.size() || j < b.size()) { if (j == b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]); else if (i == a.size() || b[j].first < a[i].first) r.push_back(b[j++]); else { int e = a[i].second + b[j].second; if (e) r.push_back({a[i].first, e}); ++i; ++j; } } return r; }
static bool tooBig = false;
static Poly pMul(const Poly& a, const Poly& b) { Poly r; if (a.size() * b.size() > 20000) { tooBig = true; return r; } for (auto& [m, c] : a) for (auto& [n, d] : b) r[mMul(m, n)] += c * d; for (auto i = r.begin(); i != r.end();) { if (i->second == 0) i = r.erase(i); else ++i; } return r; }
static Rat toRat(const State& s, T t, std::unordered_map<T, Rat>& memo);
static Poly simp(const State& s, Poly p, std::unordered_map<T, Rat>& memo);
static std::unordered_map<unsigned, Poly> rootOf;   // synthetic atom id -> the polynomial it is the square root of
// a denominator that is one monomial moves into the numerator as negative exponents
static Rat norm(Rat r) {
  if (r.n.empty()) { r.d = pC(1); return r; }
  if (r.d.size() == 1) { auto& [m, c] = *r.d.begin(); if (m.empty() && c == 1) return r; Mono inv = m; for (auto& p : inv) p.second = -p.second; Poly q; for (auto& [a, k] : r.n) q[mMul(a, inv)] += k / c; r.n = q; r.d = pC(1); return r; }
  if (r.n.size() == r.d.size()) { long double k = r.n.begin()->second / r.d.begin()->second; auto i = r.n.begin(); bool ok = true; for (auto& [m, c] : r.d) { if (i->first != m || std::fabs(i->second - k * c) > 1e-9L * std::fabs(i->second)) { ok = false; break; } ++i; } if (ok) { r.n = pC(k); r.d = pC(1); } }
  return r;
}
static Rat atom(T t) { atomOf[t->id] = t; Rat r; r.n[{{t->id, 1}}] = 1; r.d = pC(1); return r; }
static bool rewrite(const State& s, Rat& q, std::unordered_map<T, Rat>& memo);
// the square root of a polynomial, in a normal form: content pulled out, one atom per remaining polynomial
static bool rootRat(const State& s, Rat p, Ty ty, std::unordered_map<T, Rat>& memo, Rat& out) {
  if (tooBig) return false;
  p = norm(p); if (p.d.size() != 1 || !p.d.begin()->first.empty()) return false;
  rewrite(s, p, memo); p = norm(p); if (tooBig || p.d.size() != 1 || !p.d.begin()->first.empty()) return false;
  { long double mx = 0; for (auto& [m, c] : p.n) mx = std::max(mx, std::fabs(c)); for (auto i = p.n.begin(); i != p.n.end();) { if (std::fabs(i->second) <= 1e-6L * mx) i = p.n.erase(i); else ++i; } }
  Mono total; long double sg = 1, c0 = 1; Poly q = p.n;
  for (int round = 0; round < 4; ++round) {
    if (q.empty()) { out.n.clear(); out.d = pC(1); return true; }
    long double c = std::fabs(q.begin()->second); c0 *= c; std::map<unsigned, int> mn; bool first = true;
    for (auto& [m, k] : q) { std::map<unsigned, int> here; for (auto& [id, e] : m) here[id] = e; if (first) { mn = here; first = false; } else { for (auto& [id, e] : mn) { auto j = here.find(id); e = std::min(e, j == here.end() ? 0 : j->second); } for (auto& [id, e] : here) if (!mn.count(id)) mn[id] = std::min(0, e); } }
    Mono half, whole;
    for (auto& [id, e] : mn) { int k = e >= 0 ? e / 2 : -((-e + 1) / 2); if (k % 2) { T t = atomOf[id]; bool pos = rootOf.count(id) > 0, neg = false; if (!pos && t->ty.isF()) { AV v = evalAV(s, t); pos = !fEmpty(v) && v.lo >= 0; neg = !fEmpty(v) && v.hi <= 0; } if (neg) sg = -sg; else if (!pos) k -= 1; } if (k) { half.push_back({id, k}); whole.push_back({id, -2 * k}); } }
    Poly z; for (auto& [m, k] : q) z[mMul(m, whole)] += k / c;
    total = mMul(total, half); Rat y; y.n = z; y.d = pC(1); rewrite(s, y, memo); if (tooBig || y.d.size() != 1 || !y.d.begin()->first.empty()) return false;
    { long double mx = 0; for (auto& [m, k] : y.n) mx = std::max(mx, std::fabs(k)); for (auto i = y.n.begin(); i != y.n.end();) { if (std::fabs(i->second) <= 1e-6L * mx) i = y.n.erase(i); else ++i; } }
    bool same = y.n == z; q = y.n; if (same) break; }
  Mono half = total;
  out.d = pC(1); out.n.clear();
  if (q.size() == 1 && q.begin()->first.empty() && q.begin()->second > 0) { out.n[half] = sg * std::sqrt(c0); return true; }
  std::string key = "root:"; for (auto& [m, c] : q) { char b[64]; snprintf(b, sizeof b, "%.5Lg", c); key += b; for (auto& [id, e] : m) key += "*" + std::to_string(id) + "^" + std::to_string(e); key += ";"; }
  T u = mk(Op::FFn, ty, {}, 0, key); atomOf[u->id] = u; rootOf[u->id] = q;
  out.n[mMul(half, Mono{{u->id, 1}})] = sg * std::sqrt(c0); return true;
}
static Rat toRat(const State& s, T t, std::unordered_map<T, Rat>& memo) {
  auto i = memo.find(t); if (i != memo.end()) return i->second;
  Rat r;
  if (t->ty.isF() && !t->isC()) { // a term known equal to an older one is that one
    auto ni = s.nbr.r().find(t->id); if (ni != s.nbr.r().end()) for (T o : ni->second) if (o->id < t->id && o->ty == t->ty && direct(s, t, o, false) == 1) { r = toRat(s, o, memo); memo[t] = r; return r; } }
  if (t->isC() && t->ty.isF() && std::isfinite(t->fv)) { r.n = pC(t->fv); r.d = pC(1); }
  else if (!t->isC() && t->ty.isF()) {
    AV v = evalAV(s, t);
    if (!v.nan && !fEmpty(v) && v.lo == v.hi && std::isfinite(v.lo)) { r.n = pC(v.lo); r.d = pC(1); memo[t] = r; return r; }
    switch (t->op) {
      case Op::FAdd: case Op::FSub: { Rat a = toRat(s, t->a[0], memo), b = toRat(s, t->a[1], memo); long double k = t->op == Op::FAdd ? 1 : -1; if (a.d == b.d) { r.n = pAdd(a.n, b.n, k); r.d = a.d; } else { r.n = pAdd(pMul(a.n, b.d), pMul(b.n, a.d), k); r.d = pMul(a.d, b.d); } r = norm(r); break; }
      case Op::FMul: { Rat a = toRat(s, t->a[0], memo), b = toRat(s, t->a[1], memo); r.n = pMul(a.n, b.n); r.d = pMul(a.d, b.d); r = norm(r); break; }
      case Op::FDiv: { Rat a = toRat(s, t->a[0], memo), b = toRat(s, t->a[1], memo); r.n = pMul(a.n, b.d); r.d = pMul(a.d, b.n); r = norm(r); break; }
      case Op::FRem: { if (t->a[1]->isC() && t->a[1]->fv != 0 && std::isfinite(t->a[1]->fv)) { AV v = evalAV(s, t->a[0]); if (!v.nan && !fEmpty(v)) { double c = std::fabs(t->a[1]->fv), k = std::trunc(v.lo / c); if (std::fabs(k) < 1e6 && std::trunc(v.hi / c) == k && (k == 0 || (v.lo < 0) == (v.hi < 0))) { r = toRat(s, tF(Op::FSub, t->a[0], cF(k * c, t->ty)), memo); break; } } } r = atom(t); break; }
      case Op::FNeg: { r = toRat(s, t->a[0], memo); for (auto& p : r.n) p.second = -p.second; break; }
      case Op::FAbs: { AV a = evalAV(s, t->a[0]); if (!a.nan && !fEmpty(a) && a.lo >= 0) r = toRat(s, t->a[0], memo); else if (!a.nan && !fEmpty(a) && a.hi <= 0) { r = toRat(s, t->a[0], memo); for (auto& p : r.n) p.second = -p.second; } else r = atom(t); break; }
      case Op::FPExt: case Op::FPTrunc: r = toRat(s, t->a[0], memo); break;
      case Op::UIToFP: case Op::SIToFP: { T y = t->a[0]; if ((y->op == Op::FPToUI || y->op == Op::FPToSI) && y->a[0]->op >= Op::FFloor && y->a[0]->op <= Op::FRint) r = toRat(s, y->a[0], memo); else r = atom(mk(t->op, F64(), {y})); break; }
      case Op::FRound: case Op::FRint: { r = toRat(s, t->a[0], memo); if (r.d.size() == 1 && r.d.begin()->first.empty() && (r.n.empty() || (r.n.size() == 1 && r.n.begin()->first.empty()))) { long double k = r.n.empty() ? 0 : r.n.begin()->second / r.d.begin()->second; if (std::fabs(k) < 1e15) { r.n = pC(t->op == Op::FRound ? std::round(k) : std::rint(k)); r.d = pC(1); break; } }
        if (evalAV(s, t->a[0]).nan || hasInf(evalAV(s, t->a[0]))) { r = atom(t); break; }
        Rat e = toRat(s, mk(Op::FFn, t->ty, {t->a[0]}, 0, "rounderr"), memo); r.n = pAdd(pMul(r.n, e.d), pMul(e.n, r.d)); r.d = pMul(r.d, e.d); r = norm(r); break; }
      case Op::Select: { int k = truth(s, t->a[0]); if (k >= 0) r = toRat(s, t->a[k ? 1 : 2], memo); else r = atom(t); break; }
      case Op::FMin: case Op::FMax: { unsigned m = relMask(s, t->a[0], t->a[1], false); bool mx = t->op == Op::FMax; if (!(m & 8) && !(m & 2)) r = toRat(s, t->a[mx ? 1 : 0], memo); else if (!(m & 8) && !(m & 4)) r = toRat(s, t->a[mx ? 0 : 1], memo); else r = atom(t); break; }
      case Op::FSqrt: case Op::FFn: {
        if (t->op == Op::FFn && (t->name == "sin" || t->name == "cos")) { // angle argument modulo a full turn; trigonometry of a direction
          bool isCos = t->name == "cos"; T g = t->a[0]; long double sg = 1; bool ch = false;
          auto near = [](double v, double w) { return std::fabs(v - w) < 1e-6; };
          for (int k = 0; k < 16; ++k) {
            { auto ni = s.nbr.r().find(g->id); T e = nullptr; if (ni != s.nbr.r().end()) for (T o : ni->second) if (o->id < g->id && o->ty == g->ty && direct(s, g, o, false) == 1) e = o; if (e) { g = e; ch = true; continue; } }
            if (g->op == Op::FRem && g->a[1]->isC() && near(std::fabs(g->a[1]->fv), 2 * M_PI)) { g = g->a[0]; ch = true; continue; }
            if (g->op == Op::FNeg) { g = g->a[0]; if (!isCos) sg = -sg; ch = true; continue; }
            if (g->op == Op::FAdd || g->op == Op::FSub) { int c = g->a[1]->isC() ? 1 : g->a[0]->isC() && g->op == Op::FAdd ? 0 : -1; if (c >= 0) { double v = std::fabs(g->a[c]->fv); if (near(v, 2 * M_PI)) { g = g->a[1 - c]; ch = true; continue; } if (near(v, M_PI)) { g = g->a[1 - c]; sg = -sg; ch = true; continue; }
              if (near(v, M_PI_2)) { bool plus = (g->op == Op::FAdd) == (g->a[c]->fv > 0); if (isCos == plus) sg = -sg; isCos = !isCos; g = g->a[1 - c]; ch = true; continue; } } }
            if (g->op == Op::FPExt || g->op == Op::FPTrunc) { g = g->a[0]; continue; }
            break; }
          if (g->op == Op::FFn && g->name == "acos") { // cos(acos x) = x, sin(acos x) = sqrt(1 - x^2); rounding guards around [-1,1] dropped
            T x = g->a[0]; auto lim = [](T q) { return q->isC() && std::fabs(q->fv) == 1; };
            for (int k = 0; k < 6; ++k) if ((x->op == Op::FMin || x->op == Op::FMax) && (lim(x->a[0]) || lim(x->a[1]))) x = x->a[lim(x->a[0]) ? 1 : 0]; else break;
            if (isCos) r = toRat(s, x, memo); else { T q = mk(Op::FSqrt, x->ty, {tF(Op::FSub, cF(1, x->ty), tF(Op::FMul, x, x))}); r = toRat(s, q, memo); }
            for (auto& q : r.n) q.second *= sg; break; }
          if (g->op == Op::FFn && g->name == "atan2") { std::vector<T> ha = {g->a[0], g->a[1]}; for (T& x : ha) if (x->op == Op::FNeg || x->op == Op::FAbs) x = x->a[0]; if (ha[0]->id > ha[1]->id) std::swap(ha[0], ha[1]); T h = mk(Op::FFn, g->ty, ha, 0, "hypot"); Rat n = toRat(s, g->a[isCos ? 1 : 0], memo), d = toRat(s, h, memo); r.n = pMul(n.n, d.d); r.d = pMul(n.d, d.n); r = norm(r); for (auto& q : r.n) q.second *= sg; break; }
          if (ch) { T u = g->isC() ? cF(isCos ? std::cos(g->fv) : std::sin(g->fv), t->ty) : mk(Op::FFn, t->ty, {g}, 0, isCos ? "cos" : "sin"); r = toRat(s, u, memo); for (auto& q : r.n) q.second *= sg; break; }
        }
        if (t->op == Op::FSqrt || t->name == "hypot") { Rat p; if (t->op == Op::FSqrt) p = toRat(s, t->a[0], memo); else { Rat x = toRat(s, t->a[0], memo), y = toRat(s, t->a[1], memo); if (x.d == y.d) { p.n = pAdd(pMul(x.n, x.n), pMul(y.n, y.n)); p.d = pMul(x.d, x.d); } else { p.n = pAdd(pMul(pMul(x.n, x.n), pMul(y.d, y.d)), pMul(pMul(y.n, y.n), pMul(x.d, x.d))); p.d = pMul(pMul(x.d, x.d), pMul(y.d, y.d)); } } if (rootRat(s, p, t->ty, memo, r)) break; tooBig = false; }
        // congruence up to the algebraic normal form of the arguments
        Term q{}; bool found = false;
        for (auto& [id, u] : atomOf) { if (u == t) { found = true; break; } if (u->op == t->op && u->name == t->name && u->ty.isF() && u->a.size() == t->a.size()) { bool eq = true; for (size_t j = 0; j < t->a.size() && eq; ++j) eq = u->a[j] == t->a[j] || algEq(s, u->a[j], t->a[j], 1e-6); if (eq) { r = atom(u); found = true; memo[t] = r; return r; } } }
        r = atom(t); break; }
      default: r = atom(t);
    }
  } else r = atom(t);
  if (tooBig) { r = atom(t); tooBig = false; }
  memo[t] = r; return r;
}
// rewrite sqrt(x)^2 -> x  and sin^2 -> 1-cos^2
static bool rewrite(const State& s, Rat& q, std::unordered_map<T, Rat>& memo) {
  for (int g = 0; g < 3000; ++g) {
    bool ch = false;
    for (auto& [m, c] : q.n) { for (auto& [id, e] : m) { T t = atomOf[id]; if (e >= 2 && (rootOf.count(id) || t->op == Op::FSqrt || (t->op == Op::FFn && t->name == "sin") || (t->op == Op::FFn && t->name == "hypot") || (t->op == Op::FAbs) || (t->op == Op::FCopySign))) {
          Mono rest; for (auto& p : m) { if (p.first != id) rest.push_back(p); else if (e > 2) rest.push_back({id, e - 2}); }
          long double cc = c; Mono mm = m; Poly base; Rat sub;
          if (rootOf.count(id)) { sub.n = rootOf[id]; sub.d = pC(1); }
          else if (t->op == Op::FSqrt) sub = toRat(s, t->a[0], memo);
          else if (t->op == Op::FAbs || t->op == Op::FCopySign) { Rat x = toRat(s, t->a[0], memo); sub.n = pMul(x.n, x.n); sub.d = pMul(x.d, x.d); }
          else if (t->name == "hypot") { Rat x = toRat(s, t->a[0], memo), y = toRat(s, t->a[1], memo); sub.n = pAdd(pMul(pMul(x.n, x.n), pMul(y.d, y.d)), pMul(pMul(y.n, y.n), pMul(x.d, x.d))); sub.d = pMul(pMul(x.d, x.d), pMul(y.d, y.d)); }
          else { T co = mk(Op::FFn, t->ty, t->a, 0, "cos"); Rat x = toRat(s, co, memo); sub.n = pAdd(pC(1), pMul(x.n, x.n), -1); sub.d = pC(1); }
          Poly n2 = q.n; n2.erase(mm); Poly rp; rp[rest] = cc;
          q.n = pAdd(pMul(n2, sub.d), pMul(rp, sub.n)); q.d = pMul(q.d, sub.d); ch = true; break; } } if (ch) break; }
    if (!ch) return true; if (tooBig) { tooBig = false; return false; }
  }
  return false;
}
bool algEq(const State& s, T a, T b, double tol, std::string* why) {
  if (a == b) return true;
  static int depth = 0; if (depth > 6) return false; ++depth;
  std::unordered_map<T, Rat> memo; tooBig = false;
  Rat x = toRat(s, a, memo), y = toRat(s, b, memo);
  Poly l = pMul(x.n, y.d), r = pMul(y.n, x.d); --depth;
  Rat diff; diff.n = pAdd(l, r, -1); diff.d = pC(1);
  Poly scaleP = l; for (auto& [m, c] : r) { auto& z = scaleP[m]; z = std::max(std::fabs(z), std::fabs(c)); }
  long double mxc = 0; for (auto& [m, c] : scaleP) mxc = std::max(mxc, std::fabs(c));
  auto clean = [&](Poly& p) { for (auto i = p.begin(); i != p.end();) { auto j = scaleP.find(i->first); long double sc = j == scaleP.end() ? mxc : std::fabs(j->second); if (std::fabs(i->second) <= tol * sc) i = p.erase(i); else ++i; } };
  clean(diff.n);
  if (diff.n.empty()) return true;
  auto clearNeg = [&]() { std::map<unsigned, int> mn; for (auto& [m, c] : diff.n) for (auto& [id, e] : m) if (e < 0) mn[id] = std::min(mn[id], e); if (mn.empty()) return; Mono k; for (auto& [id, e] : mn) k.push_back({id, -e}); Poly q; for (auto& [m, c] : diff.n) q[mMul(m, k)] += c; diff.n = q; };
  for (int g = 0; g < 8; ++g) { clearNeg(); auto before = diff.n; rewrite(s, diff, memo); if (diff.n.empty()) return true; if (before == diff.n) break; }
  mxc = 0; for (auto& [m, c] : diff.n) (void)m;
  for (auto& [m, c] : scaleP) mxc = std::max(mxc, std::fabs(c));
  for (auto i = diff.n.begin(); i != diff.n.end();) { if (std::fabs(i->second) <= tol * std::max<long double>(mxc, 1e-30L)) i = diff.n.erase(i); else ++i; }
  if (diff.n.empty()) return true;
  if (why && getenv("AI_ALG")) { auto sp = [&](const Poly& p) { std::string o; int n = 0; for (auto& [m, c] : p) { if (++n > 12) { o += "..."; break; } o += " + " + std::to_string((double)c); for (auto& [id, e] : m) o += "*" + show(atomOf[id], 2) + "#" + std::to_string(id) + "^" + std::to_string(e); } return o; }; fprintf(stderr, "ALG\n n1 %s\n d1 %s\n n2 %s\n d2 %s\n diff %s\n", sp(x.n).c_str(), sp(x.d).c_str(), sp(y.n).c_str(), sp(y.d).c_str(), sp(diff.n).c_str()); }
  if (why) { auto& [m, c] = *diff.n.begin(); *why = "residual term " + std::to_string((double)c); for (auto& [id, e] : m) *why += " * " + show(atomOf[id], 2) + "^" + std::to_string(e); }
  return false;
}
// bounds of a - b over the reals, from the normal form of the difference
bool algDiff(const State& s, T a, T b, double& lo, double& hi) {
  std::unordered_map<T, Rat> memo; tooBig = false;
  Rat x = toRat(s, a, memo), y = toRat(s, b, memo); Poly l = pMul(x.n, y.d), r = pMul(y.n, x.d), d = pMul(x.d, y.d); if (tooBig) { tooBig = false; return false; }
  auto bound = [&](const Poly& p, double& pl, double& ph) { pl = ph = 0; for (auto& [m, c] : p) { double tl = c, th = c; for (auto& [id, e] : m) { auto it = atomOf.find(id); if (it == atomOf.end() || !it->second->ty.isF()) return false; AV v = evalAV(s, it->second); if (v.nan || fEmpty(v)) return false; double ql = v.lo, qh = v.hi; int k = std::abs(e); double bl = 1, bh = 1; if (k % 2 == 0) { double m1 = std::max(std::fabs(ql), std::fabs(qh)), m0 = ql <= 0 && qh >= 0 ? 0 : std::min(std::fabs(ql), std::fabs(qh)); bl = std::pow(m0, k); bh = std::pow(m1, k); } else { bl = std::pow(ql, k); bh = std::pow(qh, k); } if (e < 0) { if (bl <= 0 && bh >= 0) return false; double t0 = 1 / bh, t1 = 1 / bl; bl = t0; bh = t1; } double w[4] = {tl * bl, tl * bh, th * bl, th * bh}; for (double z : w) if (std::isnan(z)) return false; tl = *std::min_element(w, w + 4); th = *std::max_element(w, w + 4); } pl += tl; ph += th; } return !std::isnan(pl) && !std::isnan(ph); };
  double nl, nh, dl, dh; if (!bound(pAdd(l, r, -1), nl, nh) || !bound(d, dl, dh)) return false; if (dl <= 0 && dh >= 0) return false;
  double w[4] = {nl / dl, nl / dh, nh / dl, nh / dh}; lo = *std::min_element(w, w + 4); hi = *std::max_element(w, w + 4); return !std::isnan(lo) && !std::isnan(hi);
}
