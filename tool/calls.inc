// Call handling: analysis intrinsics, LLVM intrinsics, libc/libm/libstdc++ models, and everything else.
static T regionPtr(int r, int64_t o = 0) { return ptrTo(r, cI(o, 64)); }
static const char* libmName(const std::string& n, int& kind, Op& op) { // kind 1: Op unary, 2: Op binary, 3: FFn
  static const std::map<std::string, Op> un = {{"sqrt", Op::FSqrt}, {"floor", Op::FFloor}, {"ceil", Op::FCeil}, {"trunc", Op::FTrunc}, {"round", Op::FRound}, {"rint", Op::FRint}, {"nearbyint", Op::FRint}, {"fabs", Op::FAbs}, {"roundeven", Op::FRint}};
  static const std::map<std::string, Op> bi = {{"fmod", Op::FRem}, {"fmin", Op::FMin}, {"fmax", Op::FMax}, {"minnum", Op::FMin}, {"maxnum", Op::FMax}, {"copysign", Op::FCopySign}};
  static const std::set<std::string> fn = {"sin", "cos", "tan", "asin", "acos", "atan", "atan2", "exp", "exp2", "log", "log2", "log10", "pow", "hypot", "cbrt", "expm1", "log1p", "sinh", "cosh", "tanh", "remainder", "ldexp"};
  std::string b = n; auto strip = [&](const std::string& x) -> std::string { if (un.count(x) || bi.count(x) || fn.count(x)) return x; if (!x.empty() && x.back() == 'f') { std::string y = x.substr(0, x.size() - 1); if (un.count(y) || bi.count(y) || fn.count(y)) return y; } return ""; };
  b = strip(b); if (b.empty()) return nullptr; static std::string keep; keep = b;
  if (un.count(b)) { kind = 1; op = un.at(b); } else if (bi.count(b)) { kind = 2; op = bi.at(b); } else { kind = 3; op = Op::FFn; }
  return keep.c_str();
}
static T ffn(const State& s, const std::string& n, std::vector<T> a) {
  bool allc = true; for (T x : a) allc &= x->isC();
  if (allc) { double x = a[0]->fv, y = a.size() > 1 ? a[1]->fv : 0, r = 0; bool ok = true; if (n == "sin") r = std::sin(x); else if (n == "cos") r = std::cos(x); else if (n == "tan") r = std::tan(x); else if (n == "atan2") r = std::atan2(x, y); else if (n == "hypot") r = std::hypot(x, y); else if (n == "pow") r = std::pow(x, y); else if (n == "exp") r = std::exp(x); else if (n == "log") r = std::log(x); else if (n == "atan") r = std::atan(x); else if (n == "acos") r = std::acos(x); else if (n == "asin") r = std::asin(x); else if (n == "exp2") r = std::exp2(x); else if (n == "log2") r = std::log2(x); else if (n == "cbrt") r = std::cbrt(x); else ok = false; if (ok) return cF(rnd(r, a[0]->ty), a[0]->ty); }
  if (n == "cos" && a[0]->op == Op::FNeg) return ffn(s, n, {a[0]->a[0]}); if (n == "sin" && a[0]->op == Op::FNeg) return tF(Op::FNeg, ffn(s, n, {a[0]->a[0]}));
  if (n == "hypot") { for (T& x : a) if (x->op == Op::FNeg || x->op == Op::FAbs) x = x->a[0]; if (a[0]->id > a[1]->id) std::swap(a[0], a[1]); for (int k = 0; k < 2; ++k) { AV z = evalAV(s, a[k]); if (!z.nan && !fEmpty(z) && z.lo == 0 && z.hi == 0) return tF(Op::FAbs, a[1 - k]); } }
  return mk(Op::FFn, a[0]->ty, a, 0, n);
}
static void ret1(std::vector<Exit>& ex, State s, T t) { Val v; if (t) v.push_back(t); ex.push_back({std::move(s), v}); }
static AV frange(double lo, double hi, bool nan) { return fI(lo, hi, nan); }
static void havocArgs(State& s, CallBase* C, const std::vector<Val>& args) {
  for (size_t i = 0; i < args.size(); ++i) for (T t : args[i]) if (t->op == Op::PtrTo && !gRegFn.count(t->iv)) { if (i < C->arg_size() && (C->paramHasAttr(i, Attribute::ReadOnly) || C->paramHasAttr(i, Attribute::ReadNone))) continue; if (!rd(s, t->iv).ro) havocRegion(s, t->iv); }
}
static std::string lastLoc(const State& s) { for (auto t = s.trace; t; t = t->up) { std::string l = repoLoc((const Instruction*)t->inst); if (!l.empty()) return l; } return gLastRepo; }
static void assertTruth(State& s, T c, const std::string& id, const Instruction* I, std::vector<State>& cont, const std::string& extra) {
  std::vector<State> bad; assume(s, c, false, bad);
  if (bad.empty()) { record(id, "", true, ""); cont.push_back(s); return; }
  std::string st = traceStr(bad[0]);
  std::string w = termLoc(c); if (w.empty()) w = lastLoc(bad[0]);
  record(id, w, false, std::string(truth(s, c) == 0 ? "fails: " : "cannot exclude failure: ") + show(c, 5) + extra + "; path " + (st.empty() ? "(straight line)" : st), opaqueDep(c));
  if (gDebug) { std::cerr << "FAIL " << id << " cond " << show(c, 6) << extra << "\n   path " << traceStr(bad[0], 40) << "\n"; std::function<void(T, int)> dump = [&](T t, int d) { if (d > 5) return; if (!t->isC() && (t->ty.isF() || t->ty.isI())) { AV v = evalAV(bad[0], t); std::cerr << std::string(2 * d, ' ') << show(t, 3) << " : "; if (t->ty.isF()) std::cerr << "[" << v.lo << "," << v.hi << "]" << (v.nan ? " NaN" : ""); else std::cerr << "[" << v.sl << "," << v.sh << "]"; std::cerr << "\n"; } for (T x : t->a) dump(x, d + 1); }; dump(c, 0); }
  assume(s, c, true, cont);
}
// returns false when nothing is known about the callee
static bool doCall(Path& p, CallBase* C, Function* callee, const std::vector<Val>& args, std::vector<Exit>& ex) {
  State& s = p.s; Type* rt = C->getType();
  auto A = [&](int i) -> T { return args[i][0]; };
  auto fresh = [&](const char* n) { Val v; std::vector<std::pair<Type*, int64_t>> sc; if (!rt->isVoidTy()) scalars(rt, 0, sc); for (auto& e : sc) v.push_back(freshTy(tyOf(e.first), n)); return v; };
  if (!callee) {
    gOpaque.insert("indirect call at " + locOf(C)); 
    if (gDebug) std::cerr << "indirect call unresolved at " << locOf(C) << " " << stackStr() << "\n";
    havocArgs(s, C, args); ex.push_back({s, fresh("icall")}); return true;
  }
  std::string n = callee->getName().str();
  if (n[0] == '\1') n = n.substr(1);
  if (gDefines.empty()) {}
  // ---- analysis intrinsics ----
  if (startsWith(n, "ai_")) {
    if (n == "ai_f32" || n == "ai_f64") { ret1(ex, s, freshTy(n == "ai_f32" ? F32() : F64(), cstr(s, A(0)).c_str())); return true; }
    if (n == "ai_f32_in" || n == "ai_f64_in") { Ty ty = n == "ai_f32_in" ? F32() : F64(); AV v = frange(A(0)->fv, A(1)->fv, false); ret1(ex, s, sym(ty, cstr(s, A(2)), &v)); return true; }
    if (n == "ai_int") { int64_t l = sextW(A(0)->iv, 64), h = sextW(A(1)->iv, 64); AV v = iS(l, h, 64); ret1(ex, s, sym(I(64), cstr(s, A(2)), &v)); return true; }
    if (n == "ai_i32") { int64_t l = sextW(A(0)->iv, 32), h = sextW(A(1)->iv, 32); AV v = iS(l, h, 32); ret1(ex, s, sym(I(32), cstr(s, A(2)), &v)); return true; }
    if (n == "ai_bits") { int k = (int)A(0)->iv; ret1(ex, s, k >= 64 ? sym(I(64), cstr(s, A(1))) : tZExt(sym(I(k), cstr(s, A(1))), 64)); return true; }
    if (n == "ai_u32") { AV v = iU(A(0)->iv, A(1)->iv, 32); ret1(ex, s, sym(I(32), cstr(s, A(2)), &v)); return true; }
    if (n == "ai_u8") { AV v = iU(A(0)->iv & 255, A(1)->iv & 255, 8); ret1(ex, s, sym(I(8), cstr(s, A(2)), &v)); return true; }
    if (n == "ai_bool") { ret1(ex, s, freshTy(I(1), cstr(s, A(0)).c_str())); return true; }
    if (n == "ai_assume") { std::vector<State> o; T c = A(0); assume(s, c, true, o); for (auto& st : o) ex.push_back({st, {}}); return true; }
    if (n == "ai_assert") { std::vector<State> o; assertTruth(s, A(0), cstr(s, A(1)), C, o, ""); for (auto& st : o) ex.push_back({st, {}}); return true; }
    if (n == "ai_same") { std::string why; std::string id = cstr(s, A(3)); bool ok = algEq(s, A(0), A(1), A(2)->fv, &why); AV x = evalAV(s, A(0)), y = evalAV(s, A(1)); if (!ok && !x.nan && !y.nan && !fEmpty(x) && !fEmpty(y) && x.lo == x.hi && y.lo == y.hi && std::fabs(x.lo - y.lo) <= A(2)->fv * std::max({std::fabs(x.lo), std::fabs(y.lo), 1e-30})) ok = true; record(id, ok ? "" : !termLoc(A(0)).empty() ? termLoc(A(0)) : lastLoc(s), ok, "values differ as algebraic expressions: " + why + "  got " + show(A(0), 4) + " expected " + show(A(1), 4) + "; path " + traceStr(s), !ok && (opaqueDep(A(0)) || opaqueDep(A(1)))); if (!ok && gDebug) std::cerr << "SAME FAIL " << id << " " << why << "\n got " << show(A(0), 8) << "\n want " << show(A(1), 8) << "\n path " << traceStr(s, 30) << "\n"; ex.push_back({s, {}}); return true; }
    if (n == "ai_near") { std::string id = cstr(s, A(3)); double lo = 0, hi = 0, tol = A(2)->fv; bool known = algDiff(s, A(0), A(1), lo, hi), ok = known && lo >= -tol && hi <= tol; AV x = evalAV(s, A(0)), y = evalAV(s, A(1)); if (!ok && !x.nan && !y.nan && !fEmpty(x) && !fEmpty(y) && x.hi - y.lo <= tol && y.hi - x.lo <= tol) ok = true; record(id, ok ? "" : !termLoc(A(0)).empty() ? termLoc(A(0)) : lastLoc(s), ok, "difference not bounded by " + std::to_string(tol) + ": " + (known ? "[" + std::to_string(lo) + "," + std::to_string(hi) + "]" : std::string("unknown")) + "  got " + show(A(0), 4) + " expected " + show(A(1), 4) + "; path " + traceStr(s), !ok && (opaqueDep(A(0)) || opaqueDep(A(1)))); ex.push_back({s, {}}); return true; }
    if (n == "ai_ident_f" || n == "ai_ident_i") { std::string id = cstr(s, A(2)); T x = settle(s, A(0)), y = settle(s, A(1)); bool ok = x == y; if (!ok && x->ty.isI()) { unsigned m = relMask(s, x, y, false); ok = m == 1; } if (!ok && x->ty.isF()) { unsigned m = relMask(s, x, y, false); ok = m == 1; if (!ok) { AV u = evalAV(s, x), v = evalAV(s, y); ok = fEmpty(u) && fEmpty(v); } } record(id, ok ? "" : !termLoc(x).empty() ? termLoc(x) : lastLoc(s), ok, "values are not the same: got " + show(x, 5) + " expected " + show(y, 5) + "; path " + traceStr(s), !ok && (opaqueDep(x) || opaqueDep(y))); if (!ok && gDebug) std::cerr << "IDENT FAIL " << id << " got " << show(x, 8) << " want " << show(y, 8) << "\n path " << traceStr(s, 30) << "\n"; ex.push_back({s, {}}); return true; }
    if (n == "ai_reach") { record(cstr(s, A(0)), "", true, ""); ex.push_back({s, {}}); return true; }
    if (n == "ai_depends") { // does value A(0) depend on value A(1)?
      std::set<T> seen; std::function<bool(T)> dep = [&](T t) -> bool { if (t == A(1)) return true; if (!seen.insert(t).second) return false; for (T x : t->a) if (dep(x)) return true; for (auto& q : t->parts) if (dep(q.t)) return true; return false; }; ret1(ex, s, cI(dep(A(0)), 1)); return true; }
    if (n == "ai_opt") { if (cstr(s, A(0)) == "many-visits") gMaxVisits = 400000; gOpts.insert(cstr(s, A(0))); ex.push_back({s, {}}); return true; }
    if (n == "ai_live") { int64_t k = 0; for (auto& [id, r] : s.mem.r()) if (r->heap && r->alive) ++k; ret1(ex, s, cI(k, 64)); return true; }
    if (n == "ai_unopt") { gOpts.erase(cstr(s, A(0))); ex.push_back({s, {}}); return true; }
    if (n == "ai_havoc") { T q = A(0); if (q->op == Op::PtrTo && q->a[0]->isC() && A(1)->isC()) { Region& R = wr(s, q->iv); clearRange(R, q->a[0]->iv, A(1)->iv); if (R.def != Def::Top) { int64_t o = q->a[0]->iv, e = o + A(1)->iv; for (; o < e;) { int l = 4; while (l > e - o || o % l) l /= 2; R.cells[o] = {freshTy(I(l * 8), "hv"), l}; o += l; } } } ex.push_back({s, {}}); return true; }
    if (n == "ai_finite") { T c = mk(Op::IsClass, I(1), {A(0)}, 0x1f8); ret1(ex, s, c); return true; }
    if (n == "ai_isnan") { ret1(ex, s, tFCmp(8, A(0), A(0))); return true; }
    if (n == "ai_and") { ret1(ex, s, tAnd(A(0), A(1))); return true; }
    if (n == "ai_or") { ret1(ex, s, tOr(A(0), A(1))); return true; }
    if (n == "ai_not") { ret1(ex, s, tNot(A(0))); return true; }
    if (n == "ai_implies") { ret1(ex, s, tOr(tNot(A(0)), A(1))); return true; }
    if (n == "ai_feq") { ret1(ex, s, tFCmp(1, A(0), A(1))); return true; }
    if (n == "ai_flt") { ret1(ex, s, tFCmp(4, A(0), A(1))); return true; }
    if (n == "ai_fle") { ret1(ex, s, tFCmp(5, A(0), A(1))); return true; }
    if (n == "ai_ile") { ret1(ex, s, tICmp(41, A(0), A(1))); return true; }
    if (n == "ai_ieq") { ret1(ex, s, tICmp(32, A(0), A(1))); return true; }
    if (n == "ai_split") { T t = A(0); AV v = evalAV(s, t); for (int64_t k = v.sl; k <= v.sh && k - v.sl < 65536; ++k) { State q = s; if (addRel(q, t, cI(k, t->ty.w), 1, false)) ret1(ex, q, cI(k, t->ty.w)); } return true; }
    if (n == "ai_regions_equal") { // byte-wise equality of two objects as a condition
      T x = A(0), y = A(1); int64_t sz = A(2)->iv; T c = cI(1, 1); for (int64_t o = 0; o < sz; o += 4) { int l = std::min<int64_t>(4, sz - o); T u = loadC(s, x->iv, x->a[0]->iv + o, I(l * 8)), v = loadC(s, y->iv, y->a[0]->iv + o, I(l * 8)); if (u != v) c = tAnd(c, tICmp(32, u, v)); } ret1(ex, s, c); return true; }
    if (n == "ai_print") { std::cerr << "PRINT " << cstr(s, A(0)) << " = " << show(A(1), 8); AV v = evalAV(s, A(1)); std::cerr << " [" << v.lo << "," << v.hi << "]" << (v.nan ? " NaN" : "") << "\n"; ex.push_back({s, {}}); return true; }
    if (n == "ai_printi") { AV v = evalAV(s, A(1)); std::cerr << "PRINT " << cstr(s, A(0)) << " = " << show(A(1), 8) << " [" << v.sl << "," << v.sh << "]\n"; ex.push_back({s, {}}); return true; }
    if (n == "ai_stop") { return true; }
    if (n == "ai_emit") { T q = A(1), sz = A(2); std::string r; if (q->op == Op::PtrTo && q->a[0]->isC() && sz->isC()) for (int64_t i = 0; i < sz->iv; ++i) { T c = loadC(s, q->iv, q->a[0]->iv + i, I(8)); r += c->isC() ? (char)c->iv : '\x7f'; } else r = "\x7f"; gEmits.push_back({cstr(s, A(0)), r}); ex.push_back({s, {}}); return true; }
    if (n == "ai_emiti") { AV v = evalAV(s, A(1)); gEmits.push_back({cstr(s, A(0)), v.sl == v.sh ? std::to_string(v.sl) : "?"}); ex.push_back({s, {}}); return true; }
    if (n == "ai_event") { event(s, cstr(s, A(0)), C, cstr(s, A(0))); ex.push_back({s, {}}); return true; }
  }
  if (n == "ink_sa_check_failed") { event(s, "check-failure", C, "CHECK failure reachable: " + cstr(s, A(0))); return true; }
  if (n == "ink_sa_mutex_lock") { auto& g = s.ghost.w(); std::string k = "mutex:" + show(A(0), 3); if (g.count(k)) event(s, "relock", C, "mutex locked twice"); g[k] = A(0); ex.push_back({s, {}}); return true; }
  if (n == "ink_sa_mutex_unlock") { auto& g = s.ghost.w(); std::string k = "mutex:" + show(A(0), 3); if (!g.count(k)) event(s, "bad-unlock", C, "unlock of a mutex that is not held"); g.erase(k); ex.push_back({s, {}}); return true; }
  // ---- LLVM intrinsics ----
  if (auto* II = dyn_cast<IntrinsicInst>(C)) {
    switch (II->getIntrinsicID()) {
      case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::stackrestore: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::var_annotation: ex.push_back({s, fresh("")}); return true;
      case Intrinsic::trap: event(s, "trap", C, "trap reached"); return true;
      case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::annotation: case Intrinsic::ptr_annotation: case Intrinsic::threadlocal_address: ex.push_back({s, args[0]}); return true;
      case Intrinsic::is_constant: ret1(ex, s, cI(0, 1)); return true;
      case Intrinsic::objectsize: ret1(ex, s, cI(~0ull, rt->getIntegerBitWidth())); return true;
      case Intrinsic::is_fpclass: { Val r; for (T t : args[0]) { T c = mk(Op::IsClass, I(1), {t}, A(1)->iv); int v = truth(s, c); r.push_back(v >= 0 ? cI(v, 1) : c); } ex.push_back({s, r}); return true; }
      case Intrinsic::fma: case Intrinsic::fmuladd: { Val r; for (size_t k = 0; k < args[0].size(); ++k) r.push_back(tF(Op::FAdd, tF(Op::FMul, args[0][k], args[1][k]), args[2][k])); ex.push_back({s, r}); return true; }
      case Intrinsic::smin: case Intrinsic::smax: case Intrinsic::umin: case Intrinsic::umax: { Val r; auto id = II->getIntrinsicID(); const char* nm = id == Intrinsic::smin ? "smin" : id == Intrinsic::smax ? "smax" : id == Intrinsic::umin ? "umin" : "umax"; bool uns = id == Intrinsic::umin || id == Intrinsic::umax, mx = id == Intrinsic::smax || id == Intrinsic::umax; for (size_t k = 0; k < args[0].size(); ++k) { T a = args[0][k], b = args[1][k]; unsigned m = relMask(s, a, b, uns); if (!(m & 2)) r.push_back(mx ? b : a); else if (!(m & 4)) r.push_back(mx ? a : b); else r.push_back(mk(Op::IntFn, a->ty, {a, b}, 0, nm)); } ex.push_back({s, r}); return true; }
      case Intrinsic::abs: { AV v = evalAV(s, A(0)); if (v.sl >= 0) { ret1(ex, s, A(0)); return true; } if (v.sh <= 0) { ret1(ex, s, tSub(cI(0, A(0)->ty.w), A(0))); return true; } ret1(ex, s, mk(Op::IntFn, A(0)->ty, {A(0)}, 0, "abs")); return true; }
      case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::ctpop: { T a = A(0); int w = a->ty.w; if (a->isC()) { uint64_t v = a->iv; int r = II->getIntrinsicID() == Intrinsic::ctpop ? __builtin_popcountll(v) : II->getIntrinsicID() == Intrinsic::cttz ? (v ? __builtin_ctzll(v) : w) : (v ? __builtin_clzll(v) - (64 - w) : w); ret1(ex, s, cI(r, w)); return true; } ret1(ex, s, mk(Op::IntFn, a->ty, {a}, 0, II->getIntrinsicID() == Intrinsic::ctpop ? "ctpop" : II->getIntrinsicID() == Intrinsic::cttz ? "cttz" : "ctlz")); return true; }
      case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
        auto id = II->getIntrinsicID(); bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow; T a = A(0), b = A(1); bool add = id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow, sub = id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow; T r = add ? tAdd(a, b) : sub ? tSub(a, b) : tMul(a, b);
        AV x = evalAV(s, a), y = evalAV(s, b); AV tp = topOf(a->ty); T ov = nullptr; __int128 lo, hi; if (sg) { __int128 c[4]; if (add) { lo = (__int128)x.sl + y.sl; hi = (__int128)x.sh + y.sh; } else if (sub) { lo = (__int128)x.sl - y.sh; hi = (__int128)x.sh - y.sl; } else { c[0] = (__int128)x.sl * y.sl; c[1] = (__int128)x.sl * y.sh; c[2] = (__int128)x.sh * y.sl; c[3] = (__int128)x.sh * y.sh; lo = hi = c[0]; for (auto q : c) { lo = std::min(lo, q); hi = std::max(hi, q); } } if (lo >= tp.sl && hi <= tp.sh) ov = cI(0, 1); else if (hi < tp.sl || lo > tp.sh) ov = cI(1, 1); }
        else { unsigned __int128 l, h; bool neg = false; if (add) { l = (unsigned __int128)x.ul + y.ul; h = (unsigned __int128)x.uh + y.uh; } else if (sub) { neg = x.ul < y.uh; l = 0; h = 0; if (!neg) ov = cI(0, 1); else if (x.uh < y.ul) ov = cI(1, 1); else ov = tICmp(36, a, b); } else { l = (unsigned __int128)x.ul * y.ul; h = (unsigned __int128)x.uh * y.uh; } if (!sub) { if (h <= maskW(a->ty.w)) ov = cI(0, 1); else if (l > maskW(a->ty.w)) ov = cI(1, 1); } }
        if (!ov) ov = mk(Op::IntFn, I(1), {a, b}, (uint64_t)id, "ovf"); ex.push_back({s, {r, ov}}); return true; }
      case Intrinsic::uadd_sat: case Intrinsic::usub_sat: ret1(ex, s, freshTy(A(0)->ty)); return true;
      case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: case Intrinsic::memset: n = II->getIntrinsicID() == Intrinsic::memset ? "memset" : "memmove"; break;
      case Intrinsic::stacksave: ret1(ex, s, nullP()); return true;
      case Intrinsic::eh_typeid_for: ret1(ex, s, freshTy(I(32))); return true;
      case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_fadd: default: {
        std::string b = n.substr(0, 5) == "llvm." ? n.substr(5, n.find('.', 5) - 5) : n; int kind; Op op; if (const char* nm = libmName(b, kind, op)) { std::string name = nm; Val r; for (size_t k = 0; k < args[0].size(); ++k) { if (kind == 1) r.push_back(fOp(s, op, args[0][k])); else if (kind == 2) r.push_back(fOp(s, op, args[0][k], args[1][k])); else { std::vector<T> a; for (auto& v : args) a.push_back(v[k]); r.push_back(ffn(s, name, a)); } } ex.push_back({s, r}); return true; }
        if (b == "lround" || b == "llround" || b == "lrint" || b == "llrint") { T f = tF(b[b.size() - 2] == 'n' && b.find("rint") != b.npos ? Op::FRint : Op::FRound, A(0)); ret1(ex, s, castOp(s, Instruction::FPToSI, f, I(64), C)); return true; }
        gOpaque.insert(n); ex.push_back({s, fresh("intr")}); return true; }
    }
  }
  // ---- memory and library models ----
  auto isName = [&](std::initializer_list<const char*> l) { for (auto x : l) if (n == x) return true; return false; };
  if (isName({"memcpy", "memmove", "memset"})) {
    T len = A(2); if (!len->isC()) { AV v = evalAV(s, len); if (v.ul == v.uh) len = cI(v.ul, 64); }
    if (!len->isC()) { // partition on small sizes
      AV v = evalAV(s, len); if (v.uh - v.ul < 200) { std::vector<Addr> as; resolveOff(s, 0, len, as, 200); bool allc = true; for (auto& a : as) if (!a.off->isC()) allc = false; if (allc) { for (auto& a : as) { Path q = p; q.s = a.s; auto ar = args; ar[2] = {a.off}; std::vector<Exit> e2; Path& qq = q; doCall(qq, C, callee, ar, e2); for (auto& e : e2) ex.push_back(std::move(e)); } return true; } } }
    if (len->isC() && len->iv == 0) { ex.push_back({s, rt->isVoidTy() ? Val() : Val{A(0)}}); return true; }
    if (n == "memset") {
      std::vector<Addr> as; resolve(s, A(0), as, C); T b = A(1); if (b->ty.w > 8) b = tTrunc(b, 8);
      for (auto& a : as) { if (len->isC() && a.off->isC()) { checkBounds(a.s, a.r, a.off, len->iv, C, true); Region& R = wr(a.s, a.r); int64_t o = a.off->iv, e = o + len->iv; clearRange(R, o, len->iv); if (b->isC() && R.size && R.size->isC() && o == 0 && (uint64_t)e == R.size->iv && b->iv == 0) { R.def = Def::Zero; R.cells.clear(); R.symc.clear(); } else if (len->iv > 65536) { R.def = Def::Top; } else while (o < e) { int l = 8; while (l > e - o || o % l) l /= 2; T v; if (b->isC()) { uint64_t x = b->iv * 0x0101010101010101ull; v = cI(x, l * 8); } else { std::vector<Part> ps; for (int k = 0; k < l; ++k) ps.push_back({b, 0, 8}); v = mkBits(ps, l * 8); } R.cells[o] = {v, l}; o += l; } } else havocRegion(a.s, a.r); ex.push_back({a.s, rt->isVoidTy() ? Val() : Val{A(0)}}); }
      return true; }
    std::vector<Addr> ds; resolve(s, A(0), ds, C);
    for (auto& d : ds) { std::vector<Addr> ss; resolve(d.s, A(1), ss, C);
      for (auto& q : ss) { if (len->isC() && d.off->isC() && q.off->isC()) { checkBounds(q.s, d.r, d.off, len->iv, C, true); checkBounds(q.s, q.r, q.off, len->iv, C, false); if (rd(q.s, d.r).ro) event(q.s, "write-to-const", C, "memcpy into constant"); if (len->iv <= 1 << 20) copyBytes(q.s, d.r, d.off->iv, q.r, q.off->iv, len->iv); else havocRegion(q.s, d.r); }
        else if (len->isC()) { // symbolic offsets: copy word by word through terms
          checkBounds(q.s, d.r, d.off, len->iv, C, true); checkBounds(q.s, q.r, q.off, len->iv, C, false); std::vector<T> v; int64_t L = len->iv, o = 0; if (L <= 256) { std::vector<std::pair<int64_t, T>> vs; while (o < L) { int l = 4; while (l > L - o) l /= 2; vs.push_back({o, loadA(q.s, q.r, tAdd(q.off, cI(o, 64)), I(l * 8))}); o += l; } for (auto& z : vs) storeA(q.s, d.r, tAdd(d.off, cI(z.first, 64)), z.second); } else havocRegion(q.s, d.r); }
        else { gOpaque.insert("memcpy of unknown size at " + locOf(C)); havocRegion(q.s, d.r); }
        ex.push_back({q.s, rt->isVoidTy() ? Val() : Val{A(0)}}); } }
    return true; }
  if (isName({"_Znwm", "_Znam", "malloc", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t"})) { T sz = A(0); if (!sz->isC()) { AV v = evalAV(s, sz); if (v.ul == v.uh) sz = cI(v.ul, 64); } int r = newRegion(s, sz, Def::Undef, true, "heap"); ret1(ex, s, regionPtr(r)); return true; }
  if (isName({"calloc"})) { int r = newRegion(s, tMul(A(0), A(1)), Def::Zero, true, "heap"); ret1(ex, s, regionPtr(r)); return true; }
  if (isName({"_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "free", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"})) { T q = A(0); if (q->op == Op::PtrTo) { const Region& R = rd(s, q->iv); if (!R.alive) event(s, "double-free", C, "object freed twice"); else if (!R.heap && R.size) event(s, "bad-free", C, "free of a non-heap object " + R.name); Region& W = wr(s, q->iv); W.alive = false; W.cells.clear(); W.symc.clear(); W.def = Def::Top; } ex.push_back({s, {}}); return true; }
  if (isName({"__cxa_guard_acquire"})) { T q = A(0); T b = loadC(s, q->iv, q->a[0]->iv, I(8)); if (b->isC() && b->iv) ret1(ex, s, cI(0, 32)); else ret1(ex, s, cI(1, 32)); return true; }
  if (isName({"__cxa_guard_release"})) { T q = A(0); storeC(s, q->iv, q->a[0]->iv, cI(1, 8)); ex.push_back({s, {}}); return true; }
  if (isName({"__cxa_atexit", "__cxa_thread_atexit", "atexit"})) { ret1(ex, s, cI(0, 32)); return true; }
  if (isName({"_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev"})) { ex.push_back({s, {}}); return true; }
  if (isName({"abort", "exit", "_exit", "__cxa_pure_virtual", "_ZSt9terminatev", "__clang_call_terminate"}) || startsWith(n, "_ZSt20__throw_") || startsWith(n, "_ZSt") && n.find("__throw_") != std::string::npos) { event(s, "throw", C, "reaches " + demangle(n)); return true; }
  if (isName({"strlen"})) { T q = A(0); if (q->op == Op::PtrTo && q->a[0]->isC()) { int64_t o = q->a[0]->iv; int k = 0; for (; k < 100000; ++k) { T c = loadC(s, q->iv, o + k, I(8)); if (!c->isC()) break; if (!c->iv) { ret1(ex, s, cI(k, 64)); return true; } } } ret1(ex, s, freshTy(I(64), "strlen")); return true; }
  if (isName({"memcmp", "bcmp", "strncmp"}) && n != "strncmp") {
    T len = A(2); if (!len->isC()) { AV v = evalAV(s, len); if (v.ul == v.uh) len = cI(v.ul, 64); }
    if (len->isC() && len->iv == 0) { ret1(ex, s, cI(0, 32)); return true; }
    T x = A(0), y = A(1);
    if (len->isC() && x->op == Op::PtrTo && y->op == Op::PtrTo && x->a[0]->isC() && y->a[0]->isC() && len->iv < 20000) {
      int64_t xo = x->a[0]->iv, yo = y->a[0]->iv, L = len->iv; checkBounds(s, x->iv, x->a[0], L, C, false); checkBounds(s, y->iv, y->a[0], L, C, false);
      // choose element granularity from existing cells
      auto cellN = [&](int r, int64_t o) { auto& c = rd(s, r).cells; auto i = c.find(o); return i == c.end() ? 0 : i->second.n; };
      T all = cI(1, 1); std::vector<T> eqs; int64_t o = 0; int res = 2; while (o < L) { int l = std::max(cellN(x->iv, xo + o), cellN(y->iv, yo + o)); if (l == 0 || l > 8 || l > L - o || (l & (l - 1))) l = 1; T u = loadC(s, x->iv, xo + o, I(8 * l)), v = loadC(s, y->iv, yo + o, I(8 * l)); T e = tICmp(32, u, v); int tv = truth(s, e); if (tv == 0 && eqs.empty() && u->isC() && v->isC()) { uint64_t a = __builtin_bswap64(u->iv << (64 - 8 * l)), b = __builtin_bswap64(v->iv << (64 - 8 * l)); (void)a; (void)b; uint64_t ua = u->iv, ub = v->iv; int r = 0; for (int k = 0; k < l; ++k) { int p1 = (ua >> (8 * k)) & 255, p2 = (ub >> (8 * k)) & 255; if (p1 != p2) { r = p1 < p2 ? -1 : 1; break; } } res = r; break; } if (tv != 1) { eqs.push_back(e); all = tAnd(all, e); } o += l; }
      if (res != 2) { ret1(ex, s, cI((uint64_t)(int64_t)res, 32)); return true; }
      if (eqs.empty()) { ret1(ex, s, cI(0, 32)); return true; }
      { std::vector<State> o2; assume(s, all, true, o2); for (auto& st : o2) ret1(ex, st, cI(0, 32)); }
      { std::vector<State> o2; assume(s, all, false, o2); for (auto& st : o2) { T r = freshTy(I(32), "memcmp"); addRel(st, r, cI(0, 32), 6, false); st.facts[0].w()[r->id < cI(0, 32)->id ? FactKey{r->id, cI(0, 32)->id} : FactKey{cI(0, 32)->id, r->id}] = 6; ret1(ex, st, r); } }
      return true; }
    gOpaque.insert("memcmp"); ret1(ex, s, freshTy(I(32), "memcmp")); return true; }
  if (isName({"memchr"})) { T q = A(0), c = A(1), len = A(2); if (q->op == Op::PtrTo && q->a[0]->isC() && len->isC()) { int64_t o = q->a[0]->iv; bool ok = c->isC(); if (ok) for (uint64_t k = 0; k < len->iv; ++k) { T b = loadC(s, q->iv, o + k, I(8)); if (!b->isC()) { ok = false; break; } if (b->iv == (c->iv & 255)) { ret1(ex, s, ptrTo(q->iv, cI(o + k, 64))); return true; } } if (ok) { ret1(ex, s, nullP()); return true; }
      // partition on the first match
      State cur = s; for (uint64_t k = 0; k < len->iv; ++k) { T b = loadC(cur, q->iv, o + k, I(8)); T e = tICmp(32, b, tTrunc(c, 8)); int tv = truth(cur, e); if (tv == 0) continue; if (tv == 1) { ret1(ex, cur, ptrTo(q->iv, cI(o + k, 64))); return true; } std::vector<State> y, z; assume(cur, e, true, y); for (auto& st : y) ret1(ex, st, ptrTo(q->iv, cI(o + k, 64))); assume(cur, e, false, z); if (z.empty()) return true; cur = z[0]; } ret1(ex, cur, nullP()); return true; }
    ret1(ex, s, freshTy(PTR(), "memchr")); return true; }
  if (callee->isDeclaration() && (n == "nexttowardf" || n == "nextafterf" || n == "nexttoward" || n == "nextafter")) if (A(1)->isC()) { // one representable step toward a constant
    double to = A(1)->fv; T x = A(0); Ty ty = x->ty; AV v = evalAV(s, x); auto step = [&](double q, double d) { return ty.k == TK::F32 ? (double)std::nextafter((float)q, (float)d) : std::nextafter(q, d); };
    if (x->isC()) { ret1(ex, s, cF(step(x->fv, to), ty)); return true; }
    if (!v.nan && !fEmpty(v) && (v.lo > to || v.hi < to)) { State q = s; AV rv = fI(step(v.lo, to), step(v.hi, to), false); T r = sym(ty, "next", &rv); if (addRel(q, r, x, v.lo > to ? 4 : 2, false)) ret1(ex, q, r); return true; } }
  { int kind; Op op; if (callee->isDeclaration()) if (const char* nm = libmName(n, kind, op)) { std::string name = nm; if (!args.empty() && A(0)->ty.isF()) { if (kind == 1) ret1(ex, s, fOp(s, op, A(0))); else if (kind == 2) ret1(ex, s, fOp(s, op, A(0), A(1))); else { std::vector<T> a; for (auto& v : args) a.push_back(v[0]); ret1(ex, s, ffn(s, name, a)); } return true; } }
    if (callee->isDeclaration() && (n == "lroundf" || n == "lround" || n == "llround" || n == "llroundf")) { ret1(ex, s, castOp(s, Instruction::FPToSI, tF(Op::FRound, A(0)), I(64), C)); return true; } }
  // std::min / std::max / std::clamp on ordered scalars: value-level model (the reference returned is only read through)
  if (!gOpts.count("fork-minmax") && args.size() >= 2 && (startsWith(n, "_ZSt3minI") || startsWith(n, "_ZSt3maxI") || startsWith(n, "_ZSt5clampI"))) {
    bool isF = n.find("If") != n.npos || n.find("Id") != n.npos; char tc = n[n.find('I') + 1];
    if ((tc == 'f' || tc == 'd') && n.find("RKT_S2_S2_") != n.npos && isF) {
      Ty ty = tc == 'f' ? F32() : F64(); std::vector<T> v; bool ok = true; size_t na = startsWith(n, "_ZSt5clamp") ? 3 : 2; if (args.size() != na) ok = false;
      for (size_t k = 0; k < na && ok; ++k) { T q = A(k); if (q->op != Op::PtrTo || !q->a[0]->isC()) { ok = false; break; } v.push_back(loadC(s, q->iv, q->a[0]->iv, ty)); if (evalAV(s, v.back()).nan) ok = false; }
      if (ok) { T r; if (na == 2) { bool mn = startsWith(n, "_ZSt3min"); unsigned m = relMask(s, v[0], v[1], false); if (!(m & 2)) { ret1(ex, s, mn ? A(0) : A(1)); return true; } if (!(m & 4)) { ret1(ex, s, mn ? A(1) : A(0)); return true; } r = tF(mn ? Op::FMin : Op::FMax, v[0], v[1]); }
        else { unsigned lh = relMask(s, v[1], v[2], false); if (lh & ~5u) ok = false; else { auto mm = [&](bool mn, T x, T y) { unsigned m = relMask(s, x, y, false); if (!(m & 2)) return mn ? x : y; if (!(m & 4)) return mn ? y : x; return tF(mn ? Op::FMin : Op::FMax, x, y); }; r = mm(true, mm(false, v[0], v[1]), v[2]); } }
        if (ok) { int reg = newRegion(s, cI(bytesOf(ty), 64), Def::Undef, false, "minmax"); storeC(s, reg, 0, r); ret1(ex, s, regionPtr(reg)); return true; } } } }
  if (!gOpts.count("fork-minmax") && args.size() == 2 && (n == "_ZSt3minIfET_St16initializer_listIS0_E" || n == "_ZSt3maxIfET_St16initializer_listIS0_E" || n == "_ZSt3minIdET_St16initializer_listIS0_E" || n == "_ZSt3maxIdET_St16initializer_listIS0_E")) {
    Ty ty = n[9] == 'f' ? F32() : F64(); bool mn = startsWith(n, "_ZSt3min"); T q = A(0), k = A(1);
    if (q->op == Op::PtrTo && q->a[0]->isC() && k->isC() && k->iv >= 1 && k->iv <= 16) { T r = nullptr; bool ok = true;
      for (uint64_t i = 0; i < k->iv && ok; ++i) { T v = loadC(s, q->iv, q->a[0]->iv + i * bytesOf(ty), ty); if (evalAV(s, v).nan) ok = false; else if (!r) r = v; else { unsigned m = relMask(s, r, v, false); if (!(m & 2)) r = mn ? r : v; else if (!(m & 4)) r = mn ? v : r; else r = tF(mn ? Op::FMin : Op::FMax, r, v); } }
      if (ok) { ret1(ex, s, r); return true; } } }
  if (!callee->isDeclaration()) { gStack.push_back(nullptr); std::vector<Val> a2 = args; if (callee->isVarArg()) a2.resize(callee->arg_size());
    bool isRepo = gDebug && false; (void)isRepo; exec(callee, a2, std::move(s), ex); gStack.pop_back(); return true; }
  if (callee->doesNotReturn()) { event(s, "throw", C, "reaches " + demangle(n)); return true; }
  gOpaque.insert(demangle(n)); if (gDebug) std::cerr << "opaque " << demangle(n) << "\n"; havocArgs(s, C, args); Val r = fresh("ext"); ex.push_back({s, r}); return true;
}
