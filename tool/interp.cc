// Abstract interpreter over LLVM IR. Trace-partitioned; see DESIGN.md.
#include "state.h"
#include <unistd.h>
#include <llvm/Analysis/ConstantFolding.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/Utils/Mem2Reg.h>
#include <llvm/Demangle/Demangle.h>
#include <chrono>
#include <fstream>
#include <iostream>
#include <sstream>
#include <unordered_set>
using namespace llvm;
typedef std::vector<T> Val;

static LLVMContext Ctx; static std::unique_ptr<Module> M; static const DataLayout* DL;
static int gMaxVisits = 4000, gMaxFork = 24, gMaxPaths = 400000; static double gDeadline = 800; static bool gDebug = false; static size_t gCurPaths = 0;
static auto gStart = std::chrono::steady_clock::now();
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - gStart).count(); }

// ---- results ----
struct Obl { std::string id, where; unsigned ok = 0, fail = 0, undec = 0; std::vector<std::string> detail; };
static std::map<std::string, Obl> gObl; static std::set<std::string> gOpaque, gFuncs, gBranches; static std::map<std::string, unsigned> gEvents; static std::string gIncomplete; static unsigned gPathsDone = 0, gForks = 0; static std::string gHarness; static std::set<std::string> gDefines;
static std::set<std::string> gOpts; static std::map<std::string, int> gForkAt;
struct Stop {};

static std::string locOf(const Instruction* I) {
  if (!I) return ""; DebugLoc d = I->getDebugLoc(); if (!d) return "";
  const DILocation* L = d.get(); std::string f = L->getFilename().str(); 
  return f + ":" + std::to_string(L->getLine());
}
static std::string repoLoc(const Instruction* I) {
  if (!I) return ""; const DILocation* L = I->getDebugLoc().get();
  for (; L; L = L->getInlinedAt()) { std::string f = L->getFilename().str(); size_t p = f.find("ink/"); if (f.find("/shims/") == std::string::npos && f.find("/verif") == std::string::npos && p != std::string::npos && f.find("c++") == std::string::npos && f.find("specs/") == std::string::npos) return f.substr(p) + ":" + std::to_string(L->getLine()); }
  return "";
}
static std::vector<const Instruction*> gStack;
static std::string stackStr() { std::string r; std::string last; for (auto i = gStack.rbegin(); i != gStack.rend(); ++i) { std::string l = repoLoc(*i); if (!l.empty() && l != last) { r += (r.empty() ? "" : " < ") + l; last = l; } } return r; }
static std::string traceStr(const State& s, int n = 8) {
  std::vector<std::string> v; std::string last; for (auto t = s.trace; t && (int)v.size() < n; t = t->up) { std::string l = repoLoc((const Instruction*)t->inst); if (l.empty()) continue; l += t->taken == 1 ? "[T]" : t->taken == 0 ? "[F]" : "[" + std::to_string(t->taken) + "]"; if (l != last) v.push_back(l); last = l; }
  std::string r; for (auto i = v.rbegin(); i != v.rend(); ++i) r += (r.empty() ? "" : " -> ") + *i; return r;
}
static std::string gLastRepo; static std::map<const Function*, std::string> gFnName;
static std::unordered_map<T, const Instruction*> gTermLoc;   // where a computed value was first produced
static void noteLoc(T t, const Instruction* I) { if (!t->isC() && t->op != Op::Sym) gTermLoc.emplace(t, I); }
static std::string termLoc(T t, int d = 0) { auto i = gTermLoc.find(t); if (i != gTermLoc.end()) { std::string l = repoLoc(i->second); if (!l.empty()) return l; } if (d > 12) return ""; for (T x : t->a) { std::string l = termLoc(x, d + 1); if (!l.empty()) return l; } for (auto& p : t->parts) { std::string l = termLoc(p.t, d + 1); if (!l.empty()) return l; } return ""; }
// does a value come out of code this analysis has no body or model for?
static bool opaqueDep(T t, std::set<T>& seen) { if (!seen.insert(t).second) return false; if (t->op == Op::Sym) return t->name == "ext" || t->name == "intr" || t->name == "icall" || t->name == "memcmp" || t->name == "strlen" || t->name == "memchr" || t->name == "opaq"; for (T x : t->a) if (opaqueDep(x, seen)) return true; for (auto& p : t->parts) if (opaqueDep(p.t, seen)) return true; return false; }
static bool opaqueDep(T t) { std::set<T> s; return opaqueDep(t, s); }
static void record(const std::string& id, const std::string& where, bool ok, const std::string& detail, bool opq = false) {
  Obl& o = gObl[id]; o.id = id; if (opq && !ok) { o.undec++; if (o.detail.size() < 4) o.detail.push_back("UNDECIDED " + detail); return; } if ((!ok && !o.fail) || o.where.empty()) o.where = where; if (ok) o.ok++; else { o.fail++; if (o.detail.size() < 4) o.detail.push_back(detail); }
}

// ---- types ----
static Ty tyOf(Type* t) {
  if (t->isIntegerTy()) return I(t->getIntegerBitWidth()); if (t->isFloatTy()) return F32(); if (t->isDoubleTy()) return F64(); if (t->isPointerTy()) return PTR();
  if (t->isHalfTy() || t->isBFloatTy()) return I(16); return F64();
}
static int countOf(Type* t) {
  if (t->isVoidTy()) return 0;
  if (auto* s = dyn_cast<StructType>(t)) { int n = 0; for (Type* e : s->elements()) n += countOf(e); return n; }
  if (auto* a = dyn_cast<ArrayType>(t)) return a->getNumElements() * countOf(a->getElementType());
  if (auto* v = dyn_cast<FixedVectorType>(t)) return v->getNumElements();
  if (t->isMetadataTy() || t->isLabelTy() || t->isTokenTy()) return 0; return 1;
}
static void scalars(Type* t, int64_t off, std::vector<std::pair<Type*, int64_t>>& out) {
  if (auto* s = dyn_cast<StructType>(t)) { auto* L = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); ++i) scalars(s->getElementType(i), off + L->getElementOffset(i), out); return; }
  if (auto* a = dyn_cast<ArrayType>(t)) { int64_t sz = DL->getTypeAllocSize(a->getElementType()); for (uint64_t i = 0; i < a->getNumElements(); ++i) scalars(a->getElementType(), off + i * sz, out); return; }
  if (auto* v = dyn_cast<FixedVectorType>(t)) { int64_t sz = DL->getTypeAllocSize(v->getElementType()); for (unsigned i = 0; i < v->getNumElements(); ++i) out.push_back({v->getElementType(), off + i * sz}); return; }
  out.push_back({t, off});
}
// ---- memory ----
static int gNextRegion = 1; static std::map<int, std::shared_ptr<Region>> gProto; static std::map<const GlobalValue*, int> gGV; static std::map<int, const Function*> gRegFn;
static std::unordered_map<T, int> gSymRegion;
static int regionOfGV(const GlobalValue* g) {
  auto i = gGV.find(g); if (i != gGV.end()) return i->second;
  if (auto* a = dyn_cast<GlobalAlias>(g)) { int r = regionOfGV(cast<GlobalValue>(a->getAliasee()->stripPointerCasts())); gGV[g] = r; return r; }
  int id = gNextRegion++; gGV[g] = id; auto r = std::make_shared<Region>(); r->id = id; r->name = g->getName().str(); r->gv = g;
  if (auto* f = dyn_cast<Function>(g)) { gRegFn[id] = f; r->def = Def::Top; }
  else { auto* v = cast<GlobalVariable>(g); r->size = cI(DL->getTypeAllocSize(v->getValueType()), 64); r->ro = v->isConstant(); if (v->hasInitializer()) r->def = Def::Const; else r->def = Def::Top;
    if (r->name == "__libc_single_threaded") { r->def = Def::Top; r->cells[0] = {cI(1, 8), 1}; } }
  gProto[id] = r; return id;
}
static const Region& rd(const State& s, int id) { auto i = s.mem.r().find(id); if (i != s.mem.r().end()) return *i->second; auto p = gProto.find(id); if (p == gProto.end()) { auto r = std::make_shared<Region>(); r->id = id; r->def = Def::Top; r->alive = false; gProto[id] = r; return *r; } return *p->second; }
static Region& wr(State& s, int id) { auto& m = s.mem.w(); auto i = m.find(id); if (i == m.end()) { rd(s, id); i = m.emplace(id, std::make_shared<Region>(*gProto[id])).first; return *i->second; } if (i->second.use_count() > 1) i->second = std::make_shared<Region>(*i->second); return *i->second; }
static int newRegion(State& s, T size, Def d, bool heap, const std::string& name) { auto r = std::make_shared<Region>(); r->id = gNextRegion++; r->size = size; r->def = d; r->heap = heap; r->name = name; s.mem.w()[r->id] = r; return r->id; }
static T ptrToInt(T p) {
  if (p->isC()) return cI(0, 64);
  if (p->op == Op::PtrTo) { T base = mk(Op::PtrToInt, I(64), {ptrTo(p->iv, cI(0, 64))}); return tAdd(base, p->a[0]); }
  if (p->op == Op::IntToPtr) return p->a[0];
  return mk(Op::PtrToInt, I(64), {p});
}
static T intToPtr(T i) {
  if (i->isC() && i->iv == 0) return nullP();
  if (i->ty.w < 64) i = tZExt(i, 64);
  Lin l = toLin(i); T base = nullptr; for (auto& [t, c] : l.m) if (t->op == Op::PtrToInt && c == 1) { if (base) { base = nullptr; break; } base = t; }
  if (base) { Lin r = l; r.m.erase(base); T rest = fromLin(r); T q = base->a[0]; if (q->op == Op::PtrTo) return ptrTo(q->iv, tAdd(q->a[0], rest)); if (rest->isC() && rest->iv == 0) return q; }
  return mk(Op::IntToPtr, PTR(), {i});
}
static T conv(T t, Ty ty) {
  if (t->ty == ty) return t;
  if (ty.isP()) { if (t->ty.isF()) t = tBitCast(t, I(t->ty.w)); return intToPtr(t->ty.w == 64 ? t : tZExt(t, 64)); }
  if (t->ty.isP()) { t = ptrToInt(t); if (t->ty == ty) return t; }
  if (t->ty.isI() && ty.isI()) { if (t->ty.w > ty.w) return tTrunc(t, ty.w); return tZExt(t, ty.w); }
  return tBitCast(t, ty);
}
static T freshTy(Ty ty, const char* n = "m") { return sym(ty, n); }
static T evalConstScalar(State& s, const Constant* c);
static int bytesOf(Ty ty) { return (ty.w + 7) / 8; }
static T constLoad(State& s, const Region& R, int64_t off, Ty ty) {
  auto* gv = cast<GlobalVariable>((const GlobalValue*)R.gv); if (!gv->hasInitializer()) return nullptr;
  Type* lt = ty.isP() ? (Type*)PointerType::get(Ctx, 0) : ty.k == TK::F32 ? Type::getFloatTy(Ctx) : ty.k == TK::F64 ? Type::getDoubleTy(Ctx) : (Type*)Type::getIntNTy(Ctx, bytesOf(ty) * 8);
  Constant* c = ConstantFoldLoadFromConst(const_cast<Constant*>(gv->getInitializer()), lt, APInt(64, off), *DL);
  if (!c) return nullptr; if (isa<UndefValue>(c)) return freshTy(ty, "undef"); T t = evalConstScalar(s, c); if (ty.isI() && t->ty.isI() && t->ty.w != ty.w) t = tTrunc(t, ty.w); return conv(t, ty);
}
static T defBytes(State& s, int rid, int64_t off, int n, Ty want, bool& undef) { // default content as term of type want (bytes n) or int
  const Region& R = rd(s, rid); Ty ty = want.w == n * 8 || (want.isI() && bytesOf(want) == n) ? want : I(n * 8);
  switch (R.def) {
    case Def::Zero: return ty.isP() ? nullP() : ty.isF() ? cF(0, ty) : cI(0, ty.w);
    case Def::Const: { T t = constLoad(s, R, off, ty); if (t) return t; t = freshTy(ty, "c"); return t; }
    case Def::Undef: undef = true; { T t = freshTy(ty, "undef"); wr(s, rid).cells[off] = {t, n, true}; return t; }
    case Def::Top: { T t = freshTy(ty, R.opq ? "opaq" : "mem"); wr(s, rid).cells[off] = {ty.isI() && ty.w != n * 8 ? tZExt(t, n * 8) : t, n}; return t; }
  }
  return freshTy(ty);
}
static T loadC(State& s, int rid, int64_t off, Ty ty) {
  int n = bytesOf(ty); bool und = false;
  { const Region& R = rd(s, rid); auto i = R.cells.find(off); if (i != R.cells.end() && i->second.n == n) { T t = i->second.t; if (t->ty == ty) return t; if (ty.isI() && t->ty.isI()) return conv(t, ty); return conv(t, ty); } }
  // assemble
  std::vector<Part> ps; int64_t p = off, end = off + n; bool any = false;
  { const Region& R = rd(s, rid); auto i = R.cells.lower_bound(off); if (i != R.cells.end() && i->first < end) any = true; if (i != R.cells.begin()) { --i; if (i->first + i->second.n > off) any = true; } }
  if (!any) { T t = defBytes(s, rid, off, n, ty, und); return conv(t, ty); }
  while (p < end) {
    const Region& R = rd(s, rid); auto i = R.cells.upper_bound(p); bool have = false;
    if (i != R.cells.begin()) { auto j = std::prev(i); if (j->first + j->second.n > p) { int lo = p - j->first, len = std::min<int64_t>(j->first + j->second.n, end) - p; T t = j->second.t; if (t->ty.isP()) t = ptrToInt(t); if ((int)t->ty.w < j->second.n * 8) t = tZExt(t, j->second.n * 8); ps.push_back({t, (uint16_t)(lo * 8), (uint16_t)(len * 8)}); p += len; have = true; } }
    if (!have) { int64_t e = end; if (i != R.cells.end() && i->first < end) e = i->first; int len = e - p; while (len > 8) len = 8; if (len & (len - 1)) { int q = 1; while (q * 2 < len) q *= 2; len = q; } T t = defBytes(s, rid, p, len, I(len * 8), und); ps.push_back({t, 0, (uint16_t)(len * 8)}); p += len; }
  }
  T b = mkBits(ps, n * 8); return conv(b, ty);
}
static void clearRange(Region& R, int64_t off, int64_t n) {
  auto i = R.cells.lower_bound(off); if (i != R.cells.begin()) { auto j = std::prev(i); if (j->first + j->second.n > off) i = j; }
  std::vector<std::pair<int64_t, Cell>> keep;
  while (i != R.cells.end() && i->first < off + n) { int64_t a = i->first; Cell c = i->second; i = R.cells.erase(i); T t = c.t; if (a < off || a + c.n > off + n) { if (t->ty.isP()) t = ptrToInt(t); if ((int)t->ty.w < c.n * 8) t = tZExt(t, c.n * 8); }
    if (a < off) keep.push_back({a, {slice(t, 0, (off - a) * 8), (int)(off - a), c.undef}}); if (a + c.n > off + n) { int k = off + n - a; keep.push_back({off + n, {slice(t, k * 8, (c.n - k) * 8), c.n - k, c.undef}}); } }
  for (auto& k : keep) R.cells[k.first] = k.second;
}
static bool mayOverlap(const State& s, T o1, int n1, T o2, int n2) { T d = tSub(o1, o2); AV v = evalAV(s, d); if (d->isC()) { int64_t k = sextW(d->iv, 64); return k < n2 && -k < n1; } if (v.sl >= n2 || v.sh <= -n1) return false; 
  // distinct multiples: offset difference c*(i-j)+k
  unsigned m = relMask(s, o1, o2, false); if (!(m & 1)) { // different, and both congruent modulo their stride
    Lin l = toLin(d); uint64_t g = 0; for (auto& [t, c] : l.m) { uint64_t a = std::llabs(sextW(c, 64)); while (a) { uint64_t r = g % a; g = a; a = r; if (!a) break; std::swap(g, a); std::swap(g, a); break; } }
  }
  return true; }
static void storeC(State& s, int rid, int64_t off, T t) {
  Region& R = wr(s, rid); int n = bytesOf(t->ty); if (t->ty.isI() && t->ty.w != n * 8) t = tZExt(t, n * 8);
  auto i = R.cells.find(off); if (i != R.cells.end() && i->second.n == n) { i->second = {t, n}; } else { clearRange(R, off, n); R.cells[off] = {t, n}; }
  if (!R.symc.empty()) { std::vector<std::pair<T, Cell>> k; for (auto& p : R.symc) if (!mayOverlap(s, p.first, p.second.n, cI(off, 64), n)) k.push_back(p); R.symc = k; }
}
static void event(const State& s, const std::string& kind, const Instruction* I, const std::string& what);
// Resolve a possibly symbolic offset into a partition of constant offsets where that is small.
struct Addr { State s; int r; T off; bool bad = false; };
static void resolveOff(State s, int r, T off, std::vector<Addr>& out, int budget = 72) {
  if (off->isC()) { out.push_back({std::move(s), r, off}); return; }
  Lin l = toLin(off); T best = nullptr; int64_t lo = 0, hi = 0; 
  for (auto& [t, c] : l.m) { AV v = evalAV(s, t); if (v.bot) return; __int128 w = (__int128)v.sh - v.sl; if (w < budget && (!best || w < hi - lo)) { best = t; lo = v.sl; hi = v.sh; } }
  AV ov = evalAV(s, off); if (ov.ul == ov.uh) { out.push_back({std::move(s), r, cI(ov.ul, 64)}); return; }
  if (!best) { out.push_back({std::move(s), r, off}); return; }
  Lin rest = l; uint64_t co = rest.m[best]; rest.m.erase(best);
  // look through the chosen term to a simpler one where possible: refine gives exactness either way
  for (int64_t v = lo; v <= hi; ++v) { State q = s; if (!addRel(q, best, cI(v, best->ty.w), 1, false)) continue; Lin r2 = rest; r2.c += co * (uint64_t)v; gForks++; resolveOff(std::move(q), r, fromLin(r2), out, budget / std::max<int64_t>(1, hi - lo + 1) + 1); }
}
static void resolve(State s, T p, std::vector<Addr>& out, const Instruction* I) {
  if (p->op == Op::PtrTo) { resolveOff(std::move(s), p->iv, p->a[0], out); return; }
  if (p->isC()) { event(s, "null-deref", I, "null pointer dereference"); return; }
  if (p->op == Op::IntToPtr) { // unknown integer as pointer
  }
  // unknown pointer: give it a region of its own with unknown content
  Lin l; l.w = 64; T key = p; auto i = gSymRegion.find(key); int id; if (i == gSymRegion.end()) { id = gNextRegion++; gSymRegion[key] = id; auto r = std::make_shared<Region>(); r->id = id; r->def = Def::Top; r->name = "*" + show(p, 2); gProto[id] = r; } else id = i->second;
  out.push_back({std::move(s), id, cI(0, 64)});
}
static T loadA(State& s, int r, T off, Ty ty) {
  if (off->isC()) return loadC(s, r, (int64_t)off->iv, ty);
  int n = bytesOf(ty); const Region& R = rd(s, r);
  for (auto i = R.symc.rbegin(); i != R.symc.rend(); ++i) { if (i->first == off && i->second.n == n) return conv(i->second.t, ty); if (mayOverlap(s, i->first, i->second.n, off, n) && !(i->second.undef)) break; }
  T t = freshTy(ty, "arr"); AV ov = evalAV(s, off);
  // cells that may be hit
  bool cellsHit = false; for (auto& [o, c] : R.cells) if (ov.sl < o + c.n && o < ov.sh + n) { cellsHit = true; break; }
  if (!cellsHit) wr(s, r).symc.push_back({off, {t, n, true}});
  return t;
}
static void storeA(State& s, int r, T off, T t) {
  if (off->isC()) { storeC(s, r, (int64_t)off->iv, t); return; }
  int n = bytesOf(t->ty); if (t->ty.isI() && t->ty.w != n * 8) t = tZExt(t, n * 8); Region& R = wr(s, r); AV ov = evalAV(s, off);
  for (auto i = R.cells.begin(); i != R.cells.end();) { if (ov.sl < i->first + i->second.n && i->first < ov.sh + n && mayOverlap(s, cI(i->first, 64), i->second.n, off, n)) i = R.cells.erase(i); else ++i; }
  R.def = Def::Top; std::vector<std::pair<T, Cell>> k; for (auto& p : R.symc) if (!mayOverlap(s, p.first, p.second.n, off, n)) k.push_back(p); k.push_back({off, {t, n}}); R.symc = k;
}
static void havocRegion(State& s, int id) { Region& R = wr(s, id); if (R.ro) return; R.opq = true; R.cells.clear(); R.symc.clear(); R.def = Def::Top; R.gen++; }

// ---- constants ----
static int funcRegion(const Function* f) { return regionOfGV(f); }
struct Frame { const Function* F; };
static void evalConst(State& s, const Constant* c, Val& out);
static T evalConstScalar(State& s, const Constant* c) { Val v; evalConst(s, c, v); return v.empty() ? cI(0, 8) : v[0]; }
static T gepTerm(T base, T off) { if (base->op == Op::PtrTo) return ptrTo(base->iv, tAdd(base->a[0], off)); if (off->isC() && off->iv == 0) return base; if (base->isC()) return intToPtr(off); 
  // pointer into the region standing for an unknown pointer
  T key = base; auto i = gSymRegion.find(key); int id; if (i == gSymRegion.end()) { id = gNextRegion++; gSymRegion[key] = id; auto r = std::make_shared<Region>(); r->id = id; r->def = Def::Top; r->name = "*" + show(base, 2); gProto[id] = r; } else id = i->second; return ptrTo(id, off); }
static void evalConst(State& s, const Constant* c, Val& out) {
  Type* t = c->getType();
  if (auto* i = dyn_cast<ConstantInt>(c)) { out.push_back(cI(i->getValue().getLoBits(64).trunc(std::min(64u, i->getBitWidth())).getZExtValue(), i->getBitWidth())); return; }
  if (auto* f = dyn_cast<ConstantFP>(c)) { if (t->isFloatTy()) out.push_back(cF(f->getValueAPF().convertToFloat(), F32())); else if (t->isDoubleTy()) out.push_back(cF(f->getValueAPF().convertToDouble(), F64())); else if (t->isX86_FP80Ty()) { bool lose; APFloat v = f->getValueAPF(); v.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &lose); if (lose) out.push_back(freshTy(tyOf(t))); else out.push_back(cF(v.convertToDouble(), F64())); } else out.push_back(freshTy(tyOf(t))); return; }
  if (isa<ConstantPointerNull>(c)) { out.push_back(nullP()); return; }
  if (isa<UndefValue>(c)) { std::vector<std::pair<Type*, int64_t>> sc; scalars(t, 0, sc); for (auto& p : sc) { Ty ty = tyOf(p.first); out.push_back(ty.isP() ? nullP() : ty.isF() ? cF(0, ty) : cI(0, ty.w)); } return; }
  if (isa<ConstantAggregateZero>(c)) { std::vector<std::pair<Type*, int64_t>> sc; scalars(t, 0, sc); for (auto& p : sc) { Ty ty = tyOf(p.first); out.push_back(ty.isP() ? nullP() : ty.isF() ? cF(0, ty) : cI(0, ty.w)); } return; }
  if (auto* g = dyn_cast<GlobalValue>(c)) { out.push_back(ptrTo(regionOfGV(g), cI(0, 64))); return; }
  if (auto* d = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < d->getNumElements(); ++i) evalConst(s, d->getElementAsConstant(i), out); return; }
  if (isa<ConstantAggregate>(c)) { for (unsigned i = 0; i < c->getNumOperands(); ++i) evalConst(s, cast<Constant>(c->getOperand(i)), out); return; }
  if (auto* e = dyn_cast<ConstantExpr>(c)) {
    if (auto* g = dyn_cast<GEPOperator>(e)) { APInt off(64, 0); if (g->accumulateConstantOffset(*DL, off)) { T b = evalConstScalar(s, cast<Constant>(g->getPointerOperand())); out.push_back(gepTerm(b, cI(off.getZExtValue(), 64))); return; } }
    switch (e->getOpcode()) {
      case Instruction::BitCast: case Instruction::AddrSpaceCast: { out.push_back(conv(evalConstScalar(s, e->getOperand(0)), tyOf(t))); return; }
      case Instruction::PtrToInt: { T p = ptrToInt(evalConstScalar(s, e->getOperand(0))); out.push_back(conv(p, tyOf(t))); return; }
      case Instruction::IntToPtr: out.push_back(intToPtr(evalConstScalar(s, e->getOperand(0)))); return;
      case Instruction::Add: out.push_back(tAdd(evalConstScalar(s, e->getOperand(0)), evalConstScalar(s, e->getOperand(1)))); return;
      case Instruction::Sub: out.push_back(tSub(evalConstScalar(s, e->getOperand(0)), evalConstScalar(s, e->getOperand(1)))); return;
      case Instruction::Trunc: out.push_back(tTrunc(evalConstScalar(s, e->getOperand(0)), t->getIntegerBitWidth())); return;
      default: break;
    }
  }
  for (int i = 0; i < countOf(t); ++i) out.push_back(freshTy(I(64)));
}
// ---- events ----
static void event(const State& s, const std::string& kind, const Instruction* I, const std::string& what) {
  gEvents[kind]++;
  if (gDebug) { std::cerr << "EVENT " << kind << " " << what << " at " << locOf(I) << " stack " << stackStr() << "\n"; }
  if (gOpts.count("allow-" + kind)) return;
  std::string l = repoLoc(I); std::string st = stackStr(); if (l.empty()) l = st.substr(0, st.find(' '));
  record("no-" + kind, l, false, what + " at " + (l.empty() ? locOf(I) : l) + "; call chain " + st + "; path " + traceStr(s));
}
// ---- functions ----
struct FInfo { DenseMap<const Value*, std::pair<int, int>> slot; int n = 0; };
static std::map<const Function*, FInfo> gFI; static FunctionAnalysisManager FAM; static FunctionPassManager FPM;
static FInfo& finfo(Function* F) {
  auto i = gFI.find(F); if (i != gFI.end()) return i->second;
  FPM.run(*F, FAM); FInfo f;
  auto add = [&](const Value* v) { int c = countOf(v->getType()); f.slot[v] = {f.n, c}; f.n += c; };
  for (auto& a : F->args()) add(&a); for (auto& I : instructions(*F)) if (!I.getType()->isVoidTy()) add(&I);
  return gFI[F] = f;
}
struct Exit { State s; Val ret; };
struct Path { State s; std::vector<T> env; BasicBlock* bb; BasicBlock* prev; BasicBlock::iterator it; Cow<std::map<const void*, int>> vis; };
static void exec(Function* F, const std::vector<Val>& args, State s, std::vector<Exit>& out);
static void callFn(Path& p, CallBase* CI, std::vector<std::pair<Path, Val>>& res);

struct Interp {
  Function* F; FInfo& fi;
  Val get(Path& p, const Value* v) {
    auto i = fi.slot.find(v); if (i != fi.slot.end()) return Val(p.env.begin() + i->second.first, p.env.begin() + i->second.first + i->second.second);
    Val o; if (auto* c = dyn_cast<Constant>(v)) { evalConst(p.s, c, o); return o; } for (int k = 0; k < countOf(v->getType()); ++k) o.push_back(freshTy(I(64))); return o;
  }
  T get1(Path& p, const Value* v) { auto i = fi.slot.find(v); if (i != fi.slot.end()) return p.env[i->second.first]; Val o = get(p, v); return o[0]; }
  void set(Path& p, const Value* v, const Val& x) { auto sl = fi.slot[v]; for (int k = 0; k < sl.second; ++k) p.env[sl.first + k] = x[k]; }
  void set1(Path& p, const Value* v, T x) { p.env[fi.slot[v].first] = x; }
};
static T gepOff(Interp& in, Path& p, GEPOperator* g) {
  MapVector<Value*, APInt> var; APInt c(64, 0); g->collectOffset(*DL, 64, var, c); T off = cI(c.getZExtValue(), 64);
  for (auto& kv : var) { T i = in.get1(p, kv.first); if (i->ty.w < 64) { AV v = evalAV(p.s, i); i = (v.sl >= 0) ? tZExt(i, 64) : tSExt(i, 64); } else if (i->ty.w > 64) i = tTrunc(i, 64); off = tAdd(off, tScale(i, kv.second.getZExtValue())); }
  return off;
}
static T zextSmart(const State& s, T a, int w) { return tZExt(a, w); }
static T castOp(State& s, unsigned opc, T a, Ty to, const Instruction* I) {
  switch (opc) {
    case Instruction::Trunc: { if (to.w == 1 && a->op == Op::Bits && a->parts.size() >= 1 && a->parts[0].t->ty == ::I(1) && a->parts[0].lo == 0) return a->parts[0].t; T r = tTrunc(a, to.w); return r; }
    case Instruction::ZExt: return tZExt(a, to.w);
    case Instruction::SExt: { AV v = evalAV(s, a); if (a->ty.w > 1 && v.sl >= 0) return tZExt(a, to.w); return tSExt(a, to.w); }
    case Instruction::FPExt: if (a->isC()) return cF(a->fv, to); return mk(Op::FPExt, to, {a});
    case Instruction::FPTrunc: if (a->isC()) return cF(rnd(a->fv, to), to); if (a->op == Op::FPExt && a->a[0]->ty == to) return a->a[0]; return mk(Op::FPTrunc, to, {a});
    case Instruction::SIToFP: if (a->isC()) return cF(rnd((double)sextW(a->iv, a->ty.w), to), to); { AV v = evalAV(s, a); if (v.sl == v.sh) return cF(rnd((double)v.sl, to), to); if (a->op == Op::Bits && a->parts.size() == 2 && a->parts[0].lo == 0 && a->parts[0].len == a->parts[0].t->ty.w && a->parts[0].t->ty.isI() && a->parts[1].t->isC() && a->parts[1].t->iv == 0) return mk(Op::UIToFP, to, {a->parts[0].t}); if (v.sl >= 0) return mk(Op::UIToFP, to, {a}); } return mk(Op::SIToFP, to, {a});
    case Instruction::UIToFP: if (a->isC()) return cF(rnd((double)a->iv, to), to); if (a->op == Op::Bits && a->parts.size() == 2 && a->parts[0].lo == 0 && a->parts[0].t->ty.isI() && a->parts[0].len == a->parts[0].t->ty.w && a->parts[1].t->isC() && a->parts[1].t->iv == 0) return mk(Op::UIToFP, to, {a->parts[0].t}); return mk(Op::UIToFP, to, {a});
    case Instruction::FPToSI: case Instruction::FPToUI: { AV v = evalAV(s, a); bool sg = opc == Instruction::FPToSI; double mn = sg ? -std::ldexp(1.0, to.w - 1) - 1 : -1, mx = sg ? std::ldexp(1.0, to.w - 1) : std::ldexp(1.0, to.w);
      // values strictly inside (mn, mx) convert
      bool bad = v.nan || (!fEmpty(v) && (!(v.lo > mn || (sg && to.w == 64 && v.lo >= -std::ldexp(1.0, 63)) || (sg && to.w==32 && v.lo >= -2147483648.0)) || !(v.hi < mx)));
      if (bad) event(s, "float-to-int-overflow", I, "float to integer conversion of a value possibly out of range (" + (v.nan ? std::string("NaN ") : std::string()) + "[" + std::to_string(v.lo) + "," + std::to_string(v.hi) + "])");
      if (a->isC() && !bad) return cI((uint64_t)(sg ? (int64_t)a->fv : (int64_t)(uint64_t)a->fv), to.w);
      if ((a->op == Op::UIToFP || a->op == Op::SIToFP)) { AV iv = evalAV(s, a->a[0]); double lim = a->ty.k == TK::F32 ? 16777216.0 : 9007199254740992.0; bool us = a->op == Op::UIToFP; if (us ? (double)iv.uh <= lim : ((double)iv.sh <= lim && (double)iv.sl >= -lim)) { T x = a->a[0]; if (x->ty.w == to.w) return x; if (x->ty.w > to.w) return tTrunc(x, to.w); return us ? tZExt(x, to.w) : tSExt(x, to.w); } }
      T r = mk(sg ? Op::FPToSI : Op::FPToUI, to, {a}); AV rv = evalAV(s, r); if (rv.ul == rv.uh) return cI(rv.ul, to.w); return r; }
    case Instruction::PtrToInt: return conv(ptrToInt(a), to);
    case Instruction::IntToPtr: return intToPtr(a);
    default: return conv(a, to);
  }
}
// float operation, simplified by what the state knows about its operands (exact identities only)
static T fOp(State& s, Op op, T a, T b = nullptr) {
  auto cst = [&](T x) -> T { if (!x || x->isC()) return x; AV v = evalAV(s, x); return !v.nan && !fEmpty(v) && v.lo == v.hi && v.lo != 0 ? cF(v.lo, x->ty) : x; };
  a = cst(a); b = cst(b); AV x = evalAV(s, a), y = b ? evalAV(s, b) : AV();
  auto zero = [](const AV& v) { return !v.nan && !fEmpty(v) && v.lo == 0 && v.hi == 0; };
  switch (op) {
    case Op::FAdd: case Op::FSub: if (zero(y) || zero(x)) { if (!(zero(y) ? b : a)->isC()) { size_t n0 = P.size(); T u = tF(op, a, b); static std::unordered_set<T> spur; if (P.size() != n0) spur.insert(u); else if (!spur.count(u)) return u; }   // what is known about the unfolded sum stays attached to it
      if (zero(y)) return a; return op == Op::FAdd ? b : tF(Op::FNeg, b); } break;
    case Op::FRem: if (!x.nan && !y.nan && !fEmpty(x) && !fEmpty(y)) { double m = std::max(std::fabs(x.lo), std::fabs(x.hi)), k = y.lo > 0 ? y.lo : y.hi < 0 ? -y.hi : 0; if (m < k) return a; } break;
    case Op::FCopySign: if (!x.nan && !y.nan && !fEmpty(y)) { if (y.lo > 0) return fOp(s, Op::FAbs, a); if (y.hi < 0) return tF(Op::FNeg, fOp(s, Op::FAbs, a)); } break;
    case Op::FAbs: if (!x.nan && !fEmpty(x)) { if (x.lo > 0) return a; if (x.hi < 0) return tF(Op::FNeg, a); } break;
    default: break;
  }
  return tF(op, a, b);
}
static T binOp(State& s, unsigned opc, T a, T b, const Instruction* I) {
  // constants known through refinement
  if (a->ty.isI() && !a->isC()) { AV v = evalAV(s, a); if (v.ul == v.uh) a = cI(v.ul, a->ty.w); }
  if (b->ty.isI() && !b->isC()) { AV v = evalAV(s, b); if (v.ul == v.uh) b = cI(v.ul, b->ty.w); }
  switch (opc) {
    case Instruction::Add: if (a->ty.w == 1) return tBin(Op::Xor, a, b); return tAdd(a, b);
    case Instruction::Sub: return tSub(a, b);
    case Instruction::Mul: return tMul(a, b);
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
      AV v = evalAV(s, b), x = evalAV(s, a); if (v.ul == 0 && (v.sl <= 0)) { unsigned m = relMask(s, b, cI(0, b->ty.w), false); if (m & 1) event(s, "div-by-zero", I, "integer division by a possibly zero value"); }
      bool sg = opc == Instruction::SDiv || opc == Instruction::SRem, rem = opc == Instruction::URem || opc == Instruction::SRem;
      if (b->isC()) { // exact division of a linear form
        Lin l = toLin(a); int64_t d = sextW(b->iv, b->ty.w); if (d > 0 && (!l.m.empty())) { bool ex = sextW(l.c, l.w) % d == 0; __int128 lo = sextW(l.c, l.w), hi = lo; for (auto& [t, c] : l.m) { int64_t k = sextW(c, l.w); if (k % d) ex = false; AV tv = evalAV(s, t); __int128 e1 = (__int128)k * tv.sl, e2 = (__int128)k * tv.sh; lo += std::min(e1, e2); hi += std::max(e1, e2); } AV tp = topOf(a->ty); if (ex && lo >= tp.sl && hi <= tp.sh && (sg || lo >= 0)) { if (rem) return cI(0, a->ty.w); Lin r; r.w = l.w; r.c = (uint64_t)(sextW(l.c, l.w) / d); for (auto& [t, c] : l.m) r.m[t] = (uint64_t)(sextW(c, l.w) / d); return fromLin(r); } } }
      if (sg && x.sl >= 0 && v.sl >= 0) return tBin(rem ? Op::URem : Op::UDiv, a, b);
      return tBin(opc == Instruction::UDiv ? Op::UDiv : opc == Instruction::SDiv ? Op::SDiv : opc == Instruction::URem ? Op::URem : Op::SRem, a, b); }
    case Instruction::Shl: return tBin(Op::ShlV, a, b);
    case Instruction::LShr: return tBin(Op::LShrV, a, b);
    case Instruction::AShr: { AV v = evalAV(s, a); if (v.sl >= 0) return tBin(Op::LShrV, a, b); 
       if (b->isC() && b->iv < 63) { Lin l = toLin(a); if (!l.m.empty() && a->op == Op::Lin) { T r = binOp(s, Instruction::SDiv, a, cI(1ull << b->iv, a->ty.w), I); if (r->op != Op::SDiv) return r; } }
       return tBin(Op::AShr, a, b); }
    case Instruction::And: case Instruction::Or: case Instruction::Xor: {
      // narrow known-small operands so the bit view is exact
      auto nar = [&](T x) -> T { if (x->isC() || x->op == Op::Bits || x->ty.w == 1) return x; AV v = evalAV(s, x); int k = v.uh == 0 ? 1 : 64 - __builtin_clzll(v.uh); if (k < x->ty.w) return mkBits({{x, 0, (uint16_t)k}, {cI(0, x->ty.w - k), 0, (uint16_t)(x->ty.w - k)}}, x->ty.w); return x; };
      Op o = opc == Instruction::And ? Op::And : opc == Instruction::Or ? Op::Or : Op::Xor; T r = tBin(o, nar(a), nar(b));
      return r; }
    case Instruction::FAdd: return fOp(s, Op::FAdd, a, b);
    case Instruction::FSub: return fOp(s, Op::FSub, a, b);
    case Instruction::FMul: return fOp(s, Op::FMul, a, b);
    case Instruction::FDiv: return fOp(s, Op::FDiv, a, b);
    case Instruction::FRem: return fOp(s, Op::FRem, a, b);
  }
  return freshTy(a->ty);
}
// undo the "narrowed" view when a bits term denotes exactly its low part
static T settle(const State& s, T t) {
  if (t->op == Op::Bits && t->ty.isI()) {
    if (t->parts.size() == 2 && t->parts[0].lo == 0 && t->parts[0].t->ty == t->ty && t->parts[1].t->isC() && t->parts[1].t->ty.isI() && t->parts[1].t->iv == 0) { AV v = evalAV(s, t->parts[0].t); if (v.uh <= maskW(t->parts[0].len)) return t->parts[0].t; }
    if (t->parts.size() == 1 && t->parts[0].lo == 0 && t->parts[0].t->op == Op::Bits) return mkBits(t->parts[0].t->parts, t->ty.w);
    if (t->parts.size() == 1 && t->parts[0].lo == 0 && t->parts[0].t->ty.isI() && t->parts[0].t->ty.w > t->ty.w) { }
  }
  return t;
}
static void pushTrace(State& s, const Instruction* I, int taken) { auto t = std::make_shared<Trace>(); t->up = s.trace; t->inst = I; t->taken = taken; s.trace = t; }

static void enterBlock(Interp& in, Path& p, BasicBlock* to) {
  BasicBlock* from = p.bb; std::vector<std::pair<const Value*, Val>> vals;
  for (auto& ph : to->phis()) vals.push_back({&ph, in.get(p, ph.getIncomingValueForBlock(from))});
  for (auto& kv : vals) in.set(p, kv.first, kv.second);
  p.prev = from; p.bb = to; p.it = to->getFirstNonPHI()->getIterator();
}
static void checkBounds(State& s, int r, T off, int n, const Instruction* I, bool store) {
  const Region& R = rd(s, r);
  if (gRegFn.count(r)) return;
  if (!R.alive) { event(s, "use-after-free", I, "access to a dead object " + R.name); return; }
  if (!R.size) return;
  T end = tAdd(off, cI(n, 64)); AV a = evalAV(s, off), e = evalAV(s, end); bool ok = false;
  if (a.sl >= 0 && e.sl >= 0) { unsigned m = relMask(s, end, R.size, false); ok = !(m & 2); if (!ok) { AV d = evalAV(s, tSub(R.size, end)); ok = d.sl >= 0 && e.sh < (int64_t)1 << 62; } }
  if (!ok) event(s, "out-of-bounds", I, std::string(store ? "write" : "read") + " of " + std::to_string(n) + " bytes at offset " + show(off, 3) + " of " + (R.name.empty() ? "object" : R.name) + " (size " + show(R.size, 3) + ")");
}
static void ret(std::vector<Exit>& out, Path& p, const Val& v, const std::vector<int>& allocas) {
  if (!allocas.empty()) { auto& m = p.s.mem.w(); for (int a : allocas) m.erase(a); }
  out.push_back({std::move(p.s), v}); 
}
static void copyBytes(State& s, int dr, int64_t dof, int sr, int64_t sof, int64_t n) {
  std::vector<std::pair<int64_t, Cell>> cs; bool und = false;
  // materialise gaps for non-undef defaults
  Def d = rd(s, sr).def;
  int64_t p = sof, end = sof + n;
  while (p < end) {
    const Region& R = rd(s, sr); auto i = R.cells.upper_bound(p); bool have = false;
    if (i != R.cells.begin()) { auto j = std::prev(i); if (j->first + j->second.n > p) { int lo = p - j->first; int64_t len = std::min<int64_t>(j->first + j->second.n, end) - p; T t = j->second.t; bool un = j->second.undef; if (lo || len != j->second.n) { if (t->ty.isP()) t = ptrToInt(t); if ((int)t->ty.w < j->second.n * 8) t = tZExt(t, j->second.n * 8); t = slice(t, lo * 8, len * 8); } cs.push_back({p - sof, {t, (int)len, un}}); p += len; have = true; } }
    if (!have) {
      int64_t e = end; if (i != R.cells.end() && i->first < end) e = i->first; int64_t len = e - p;
      if (d == Def::Undef) { p = e; continue; }
      int l = 8; while (l > len || (p % l)) l /= 2; if (d == Def::Top && l == 8) l = 4;
      if (d == Def::Const && l == 8) { T t = constLoad(s, R, p, PTR()); if (t && t->op == Op::PtrTo) { cs.push_back({p - sof, {t, 8}}); p += 8; continue; } }
      T t = defBytes(s, sr, p, l, I(l * 8), und); cs.push_back({p - sof, {t, l}}); p += l;
    }
  }
  Region& D = wr(s, dr); clearRange(D, dof, n); if (D.def != Def::Undef && d == Def::Undef) { /* leave default */ }
  for (auto& c : cs) D.cells[dof + c.first] = c.second;
  if (!D.symc.empty()) { std::vector<std::pair<T, Cell>> k; for (auto& q : D.symc) if (!mayOverlap(s, q.first, q.second.n, cI(dof, 64), n)) k.push_back(q); D.symc = k; }
  // symbolic-offset contents: translate when copying the region wholesale
  const Region& S = rd(s, sr); if (!S.symc.empty()) { auto cp = S.symc; Region& D2 = wr(s, dr); for (auto& q : cp) { AV v = evalAV(s, q.first); if (v.sl >= sof && v.sh + q.second.n <= sof + n) D2.symc.push_back({tAdd(q.first, cI(dof - sof, 64)), q.second}); } if (d == Def::Top) D2.def = Def::Top; }
}
static std::vector<std::pair<std::string, std::string>> gEmits;
static std::string cstr(State& s, T p) {
  std::string r; if (p->op != Op::PtrTo || !p->a[0]->isC()) return "?"; int64_t o = p->a[0]->iv; for (int i = 0; i < 400; ++i) { T c = loadC(s, p->iv, o + i, I(8)); if (!c->isC()) return r + "?"; if (!c->iv) break; r += (char)c->iv; } return r;
}
static bool startsWith(const std::string& a, const char* b) { return a.rfind(b, 0) == 0; }

#include "calls.inc"

static void exec(Function* F, const std::vector<Val>& args, State s0, std::vector<Exit>& out) {
  if (now() > gDeadline) { gIncomplete = "time budget exceeded in " + F->getName().str(); throw Stop(); }
  if (s0.depth > 220) { gIncomplete = "recursion bound in " + F->getName().str(); throw Stop(); }
  FInfo& fi = finfo(F); Interp in{F, fi};
  if (auto* sp = F->getSubprogram()) { std::string f = sp->getFilename().str(); size_t q = f.find("ink/"); if (q != std::string::npos && f.find("/verif") == std::string::npos && f.find("shims") == std::string::npos && f.find("c++") == std::string::npos) { std::string& z = gFnName[F]; if (z.empty()) { z = f.substr(q) + ":" + std::to_string(sp->getLine()) + " " + demangle(F->getName().str()); gFuncs.insert(z); } gLastRepo = z; } }
  std::vector<Path> work; std::vector<int> allocas;
  { Path p; p.s = std::move(s0); p.s.depth++; p.env.assign(fi.n, nullptr); int k = 0; for (auto& a : F->args()) { in.set(p, &a, args[k++]); } p.bb = &F->getEntryBlock(); p.prev = nullptr; p.it = p.bb->begin(); work.push_back(std::move(p)); }
  while (!work.empty()) {
    Path p = std::move(work.back()); work.pop_back();
    if (now() > gDeadline) { gIncomplete = "time budget exceeded in " + F->getName().str(); throw Stop(); }
    bool dead = false;
    while (!dead) {
      Instruction* In = &*p.it; ++p.it; Instruction& X = *In;
      gStack.back() = In;
      if (++p.s.steps > 40000000) { gIncomplete = "step budget"; throw Stop(); }
      switch (X.getOpcode()) {
        case Instruction::Alloca: { auto& A = cast<AllocaInst>(X); T n = in.get1(p, A.getArraySize()); if (n->ty.w < 64) n = tZExt(n, 64); T sz = tScale(n, DL->getTypeAllocSize(A.getAllocatedType())); int r = newRegion(p.s, sz, Def::Undef, false, A.getName().str()); allocas.push_back(r); in.set1(p, In, ptrTo(r, cI(0, 64))); break; }
        case Instruction::Load: { auto& L = cast<LoadInst>(X); T ptr = in.get1(p, L.getPointerOperand()); std::vector<Addr> as; resolve(std::move(p.s), ptr, as, In); dead = true;
          std::vector<std::pair<Type*, int64_t>> sc; scalars(L.getType(), 0, sc); int64_t tot = DL->getTypeStoreSize(L.getType());
          for (size_t i = 0; i < as.size(); ++i) { Path q; bool last = i + 1 == as.size(); if (last) q = std::move(p); else { q.env = p.env; q.bb = p.bb; q.prev = p.prev; q.it = p.it; q.vis = p.vis; } q.s = std::move(as[i].s); checkBounds(q.s, as[i].r, as[i].off, tot, In, false);
            Val v; for (auto& e : sc) { Ty ty = tyOf(e.first); T t = loadA(q.s, as[i].r, e.second ? tAdd(as[i].off, cI(e.second, 64)) : as[i].off, ty); v.push_back(settle(q.s, t)); }
            if (L.getType()->isIntegerTy(8) || true) in.set(q, In, v);
            if (last) { p = std::move(q); dead = false; } else work.push_back(std::move(q)); }
          break; }
        case Instruction::Store: { auto& S = cast<StoreInst>(X); T ptr = in.get1(p, S.getPointerOperand()); Val v = in.get(p, S.getValueOperand()); Type* vt = S.getValueOperand()->getType(); std::vector<Addr> as; resolve(std::move(p.s), ptr, as, In); dead = true; std::vector<std::pair<Type*, int64_t>> sc; scalars(vt, 0, sc); int64_t tot = DL->getTypeStoreSize(vt);
          for (size_t i = 0; i < as.size(); ++i) { Path q; bool last = i + 1 == as.size(); if (last) q = std::move(p); else { q.env = p.env; q.bb = p.bb; q.prev = p.prev; q.it = p.it; q.vis = p.vis; } q.s = std::move(as[i].s); checkBounds(q.s, as[i].r, as[i].off, tot, In, true); if (rd(q.s, as[i].r).ro) event(q.s, "write-to-const", In, "write to constant " + rd(q.s, as[i].r).name);
            for (size_t k = 0; k < sc.size(); ++k) storeA(q.s, as[i].r, sc[k].second ? tAdd(as[i].off, cI(sc[k].second, 64)) : as[i].off, v[k]);
            if (last) { p = std::move(q); dead = false; } else work.push_back(std::move(q)); }
          break; }
        case Instruction::GetElementPtr: { auto* g = cast<GEPOperator>(In); T b = in.get1(p, g->getPointerOperand()); in.set1(p, In, gepTerm(b, gepOff(in, p, g))); break; }
        case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::PtrToInt: case Instruction::IntToPtr: {
          Val a = in.get(p, X.getOperand(0)), r; Type* et = X.getType()->getScalarType(); for (T t : a) r.push_back(settle(p.s, castOp(p.s, X.getOpcode(), t, tyOf(et), In))); in.set(p, In, r); break; }
        case Instruction::BitCast: { Val a = in.get(p, X.getOperand(0)); Type* st = X.getOperand(0)->getType(); Type* dt = X.getType(); int nd = countOf(dt); if ((int)a.size() == nd) { Val r; for (T t : a) r.push_back(conv(t, tyOf(dt->getScalarType()))); in.set(p, In, r); } else { std::vector<Part> ps; int tot = 0; for (T t : a) { if (t->ty.isP()) t = ptrToInt(t); ps.push_back({t, 0, t->ty.w}); tot += t->ty.w; } Val r; Ty ety = tyOf(dt->getScalarType()); int w = ety.w, pos = 0; if (tot > 64) { // slice element-wise
              for (int k = 0; k < nd; ++k) { std::vector<Part> q; int at = 0; for (auto& pp : ps) { int l = std::max(at, pos), h = std::min(at + pp.len, pos + w); if (l < h) q.push_back({pp.t, (uint16_t)(l - at), (uint16_t)(h - l)}); at += pp.len; } r.push_back(conv(mkBits(q, w), ety)); pos += w; } }
            else { T b = mkBits(ps, tot); for (int k = 0; k < nd; ++k) { r.push_back(conv(nd == 1 ? b : slice(b, pos, w), ety)); pos += w; } } in.set(p, In, r); } (void)st; break; }
        case Instruction::FNeg: { Val a = in.get(p, X.getOperand(0)), r; for (T t : a) r.push_back(tF(Op::FNeg, t)); in.set(p, In, r); break; }
        case Instruction::ICmp: { auto& C = cast<ICmpInst>(X); Val a = in.get(p, C.getOperand(0)), b = in.get(p, C.getOperand(1)), r; for (size_t k = 0; k < a.size(); ++k) { T x = a[k], y = b[k]; if (x->ty.isP() && y->ty.isP() && x->op == Op::PtrTo && y->op == Op::PtrTo && x->iv == y->iv) { r.push_back(tICmp(C.getPredicate(), x->a[0], y->a[0])); } else r.push_back(tICmp(C.getPredicate(), settle(p.s, x), settle(p.s, y))); int v = truth(p.s, r.back()); if (v >= 0) r.back() = cI(v, 1); } in.set(p, In, r); break; }
        case Instruction::FCmp: { auto& C = cast<FCmpInst>(X); Val a = in.get(p, C.getOperand(0)), b = in.get(p, C.getOperand(1)), r; for (size_t k = 0; k < a.size(); ++k) { r.push_back(tFCmp(C.getPredicate(), a[k], b[k])); int v = truth(p.s, r.back()); if (v >= 0) r.back() = cI(v, 1); } in.set(p, In, r); break; }
        case Instruction::Select: { auto& S = cast<SelectInst>(X); Val c = in.get(p, S.getCondition()), a = in.get(p, S.getTrueValue()), b = in.get(p, S.getFalseValue());
          if (c.size() > 1) { Val r; for (size_t k = 0; k < a.size(); ++k) { int v = truth(p.s, c[k]); r.push_back(v == 1 ? a[k] : v == 0 ? b[k] : mk(Op::Select, a[k]->ty, {c[k], a[k], b[k]})); } in.set(p, In, r); break; }
          int v = truth(p.s, c[0]); if (v >= 0) { in.set(p, In, v ? a : b); break; }
          if (a == b) { in.set(p, In, a); break; }
          if (a.size() == 1 && a[0]->ty.w == 1 && a[0]->ty.isI()) { in.set1(p, In, tOr(tAnd(c[0], a[0]), tAnd(tNot(c[0]), b[0]))); break; }
          std::vector<State> t, f; assume(p.s, c[0], true, t); assume(p.s, c[0], false, f); gForks++;
          for (auto& st : f) { Path q = p; q.s = st; pushTrace(q.s, In, 0); in.set(q, In, b); work.push_back(std::move(q)); }
          for (size_t i = 0; i < t.size(); ++i) { Path q = p; q.s = t[i]; pushTrace(q.s, In, 1); in.set(q, In, a); work.push_back(std::move(q)); }
          dead = true; break; }
        case Instruction::Br: { auto& B = cast<BranchInst>(X); if (B.isUnconditional()) { int& n = p.vis.w()[B.getSuccessor(0)]; if (++n > gMaxVisits) { gIncomplete = "loop bound at " + locOf(In) + " in " + F->getName().str() + " " + stackStr(); throw Stop(); } enterBlock(in, p, B.getSuccessor(0)); break; }
          T c = in.get1(p, B.getCondition()); int v = truth(p.s, c); { std::string l = repoLoc(In); if (!l.empty()) gBranches.insert(l); }
          { int& n = p.vis.w()[In]; if (++n > gMaxVisits) { gIncomplete = "loop bound at " + locOf(In) + " in " + F->getName().str() + " " + stackStr(); throw Stop(); } }
          if (v >= 0) { enterBlock(in, p, B.getSuccessor(v ? 0 : 1)); break; }
          { int& n = p.vis.w()[(const char*)In + 1]; if (++n > gMaxFork) { gIncomplete = "unresolved loop (" + std::to_string(gMaxFork) + " undecided tests) at " + locOf(In) + " in " + F->getName().str() + " cond " + show(c, 4) + " stack " + stackStr(); throw Stop(); } }
          std::vector<State> t, f; assume(p.s, c, true, t); assume(p.s, c, false, f); gForks++; if (gDebug) gForkAt[locOf(In) + " " + F->getName().str() + " " + show(c, 4)]++;
          if (++gCurPaths > (size_t)gMaxPaths) { gIncomplete = "partition budget exceeded at " + locOf(In); throw Stop(); }
          for (auto& st : f) { Path q = p; q.s = std::move(st); pushTrace(q.s, In, 0); enterBlock(in, q, B.getSuccessor(1)); work.push_back(std::move(q)); }
          for (auto& st : t) { Path q = p; q.s = std::move(st); pushTrace(q.s, In, 1); enterBlock(in, q, B.getSuccessor(0)); work.push_back(std::move(q)); }
          dead = true; break; }
        case Instruction::Switch: { auto& W = cast<SwitchInst>(X); T c = settle(p.s, in.get1(p, W.getCondition())); if (c->isC()) { BasicBlock* to = W.getDefaultDest(); for (auto& k : W.cases()) if ((k.getCaseValue()->getZExtValue() & maskW(c->ty.w)) == c->iv) to = k.getCaseSuccessor(); enterBlock(in, p, to); break; }
          { std::string l = repoLoc(In); if (!l.empty()) gBranches.insert(l); }
          State rest = p.s; bool ok = true; gForks++; int& nn = p.vis.w()[(const char*)In + 1]; if (++nn > gMaxFork) { gIncomplete = "unresolved loop at switch " + locOf(In); throw Stop(); }
          for (auto& k : W.cases()) { T kv = cI(k.getCaseValue()->getZExtValue(), c->ty.w); State q = p.s; if (addRel(q, c, kv, 1, false)) { Path r = p; r.s = std::move(q); pushTrace(r.s, In, (int)k.getCaseValue()->getSExtValue()); enterBlock(in, r, k.getCaseSuccessor()); work.push_back(std::move(r)); } if (ok) ok = addRel(rest, c, kv, 6, false); }
          if (ok) { AV v = evalAV(rest, c); if (!v.bot) { Path r = p; r.s = std::move(rest); pushTrace(r.s, In, -1); enterBlock(in, r, W.getDefaultDest()); work.push_back(std::move(r)); } }
          dead = true; break; }
        case Instruction::Ret: { Val v; if (X.getNumOperands()) v = in.get(p, X.getOperand(0)); p.s.depth--; ret(out, p, v, allocas); gPathsDone++; dead = true; break; }
        case Instruction::Unreachable: dead = true; break;
        case Instruction::ExtractValue: { auto& E = cast<ExtractValueInst>(X); Val a = in.get(p, E.getAggregateOperand()); Type* t = E.getAggregateOperand()->getType(); int off = 0; for (unsigned ix : E.indices()) { if (auto* st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < ix; ++k) off += countOf(st->getElementType(k)); t = st->getElementType(ix); } else { auto* at = cast<ArrayType>(t); off += ix * countOf(at->getElementType()); t = at->getElementType(); } } in.set(p, In, Val(a.begin() + off, a.begin() + off + countOf(t))); break; }
        case Instruction::InsertValue: { auto& E = cast<InsertValueInst>(X); Val a = in.get(p, E.getAggregateOperand()), v = in.get(p, E.getInsertedValueOperand()); Type* t = E.getAggregateOperand()->getType(); int off = 0; for (unsigned ix : E.indices()) { if (auto* st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < ix; ++k) off += countOf(st->getElementType(k)); t = st->getElementType(ix); } else { auto* at = cast<ArrayType>(t); off += ix * countOf(at->getElementType()); t = at->getElementType(); } } for (size_t k = 0; k < v.size(); ++k) a[off + k] = v[k]; in.set(p, In, a); break; }
        case Instruction::ExtractElement: { Val a = in.get(p, X.getOperand(0)); T i = in.get1(p, X.getOperand(1)); in.set1(p, In, i->isC() && i->iv < a.size() ? a[i->iv] : freshTy(tyOf(X.getType()))); break; }
        case Instruction::InsertElement: { Val a = in.get(p, X.getOperand(0)); T v = in.get1(p, X.getOperand(1)); T i = in.get1(p, X.getOperand(2)); if (i->isC() && i->iv < a.size()) a[i->iv] = v; in.set(p, In, a); break; }
        case Instruction::ShuffleVector: { auto& S = cast<ShuffleVectorInst>(X); Val a = in.get(p, S.getOperand(0)), b = in.get(p, S.getOperand(1)), r; for (int m : S.getShuffleMask()) r.push_back(m < 0 ? a[0] : m < (int)a.size() ? a[m] : b[m - a.size()]); in.set(p, In, r); break; }
        case Instruction::Freeze: in.set(p, In, in.get(p, X.getOperand(0))); break;
        case Instruction::Fence: break;
        case Instruction::AtomicRMW: { auto& A = cast<AtomicRMWInst>(X); T ptr = in.get1(p, A.getPointerOperand()), v = in.get1(p, A.getValOperand()); std::vector<Addr> as; resolve(p.s, ptr, as, In); if (as.empty()) { dead = true; break; } p.s = as[0].s; T o = loadA(p.s, as[0].r, as[0].off, v->ty); T nv = A.getOperation() == AtomicRMWInst::Add ? tAdd(o, v) : A.getOperation() == AtomicRMWInst::Sub ? tSub(o, v) : A.getOperation() == AtomicRMWInst::Xchg ? v : freshTy(v->ty); storeA(p.s, as[0].r, as[0].off, nv); in.set1(p, In, o); break; }
        case Instruction::AtomicCmpXchg: { auto& A = cast<AtomicCmpXchgInst>(X); T ptr = in.get1(p, A.getPointerOperand()), e = in.get1(p, A.getCompareOperand()), nv = in.get1(p, A.getNewValOperand()); std::vector<Addr> as; resolve(p.s, ptr, as, In); if (as.empty()) { dead = true; break; } p.s = as[0].s; T o = loadA(p.s, as[0].r, as[0].off, e->ty); T c = tICmp(32, o, e); int v = truth(p.s, c); if (v < 0) { std::vector<State> f; assume(p.s, c, false, f); for (auto& st : f) { Path q = p; q.s = st; in.set(q, In, {o, cI(0, 1)}); work.push_back(std::move(q)); } std::vector<State> t; assume(p.s, c, true, t); if (t.empty()) { dead = true; break; } p.s = t[0]; v = 1; } if (v) storeA(p.s, as[0].r, as[0].off, nv); in.set(p, In, {o, cI(v, 1)}); break; }
        case Instruction::Call: case Instruction::Invoke: {
          auto* C = cast<CallBase>(In); std::vector<std::pair<Path, Val>> res; std::vector<Val> args; for (auto& a : C->args()) args.push_back(a->getType()->isMetadataTy() ? Val() : in.get(p, a));
          T fp = nullptr; Function* callee = C->getCalledFunction(); if (!callee) { auto* cv = C->getCalledOperand()->stripPointerCasts(); if (auto* al = dyn_cast<GlobalAlias>(cv)) callee = dyn_cast<Function>(al->getAliasee()->stripPointerCasts()); else if (auto* ff = dyn_cast<Function>(cv)) callee = ff; }
          if (!callee) { fp = in.get1(p, C->getCalledOperand()); if (fp->op == Op::PtrTo && gRegFn.count(fp->iv)) callee = const_cast<Function*>(gRegFn[fp->iv]); }
          std::vector<Exit> ex; bool simple = doCall(p, C, callee, args, ex);
          if (simple) { if (ex.empty()) { dead = true; break; } }
          if (ex.empty()) { dead = true; break; }
          BasicBlock* nxt = nullptr; if (auto* iv = dyn_cast<InvokeInst>(C)) nxt = iv->getNormalDest();
          for (size_t i = 0; i + 1 < ex.size(); ++i) { Path q; q.env = p.env; q.bb = p.bb; q.prev = p.prev; q.it = p.it; q.vis = p.vis; q.s = std::move(ex[i].s); if (!C->getType()->isVoidTy()) in.set(q, In, ex[i].ret); if (nxt) enterBlock(in, q, nxt); work.push_back(std::move(q)); }
          p.s = std::move(ex.back().s); if (!C->getType()->isVoidTy()) in.set(p, In, ex.back().ret); if (nxt) enterBlock(in, p, nxt);
          break; }
        default:
          if (X.isBinaryOp()) { Val a = in.get(p, X.getOperand(0)), b = in.get(p, X.getOperand(1)), r; for (size_t k = 0; k < a.size(); ++k) { T t = settle(p.s, binOp(p.s, X.getOpcode(), a[k], b[k], In)); if (!t->isC() && t->ty.isI() && t->ty.w > 1) { AV v = evalAV(p.s, t); if (v.ul == v.uh) t = cI(v.ul, t->ty.w); } if (t->ty.isF()) noteLoc(t, In); r.push_back(t); } in.set(p, In, r); break; }
          gOpaque.insert(std::string("inst:") + X.getOpcodeName()); if (!X.getType()->isVoidTy()) { Val r; std::vector<std::pair<Type*, int64_t>> sc; scalars(X.getType(), 0, sc); for (auto& e : sc) r.push_back(freshTy(tyOf(e.first))); in.set(p, In, r); }
      }
    }
  }
}
static std::string js(const std::string& s) { std::string r = "\""; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; } return r + "\""; }
static void scanAsserts(Function* F, std::set<const Function*>& seen, std::set<std::string>& ids) {
  if (!F || F->isDeclaration() || !seen.insert(F).second) return;
  for (auto& I : instructions(*F)) if (auto* C = dyn_cast<CallBase>(&I)) { Function* f = C->getCalledFunction(); if (!f) continue; StringRef n = f->getName();
      if (n.starts_with("ai_assert") || n.starts_with("ai_same") || n.starts_with("ai_near") || n.starts_with("ai_ident") || n.starts_with("ai_reach")) { for (auto& a : C->args()) { if (!a->getType()->isPointerTy()) continue; if (auto* g = dyn_cast<GlobalVariable>(a->stripPointerCasts())) if (g->hasInitializer()) if (auto* d = dyn_cast<ConstantDataSequential>(g->getInitializer())) if (d->isCString()) ids.insert(d->getAsCString().str()); } }
      else if (auto* sp = f->getSubprogram()) { if (sp->getFilename().contains("specs/")) scanAsserts(f, seen, ids); } }
}
int main(int argc, char** argv) {
  std::string bc, fn, outp; bool list = false; for (int i = 1; i < argc; ++i) { std::string a = argv[i]; if (a == "--fn") fn = argv[++i]; else if (a == "--out") outp = argv[++i]; else if (a == "--list") list = true; else if (a == "--debug") gDebug = true; else if (a == "--time") gDeadline = atof(argv[++i]); else if (a == "--forks") gMaxFork = atoi(argv[++i]); else bc = a; }
  SMDiagnostic err; M = parseIRFile(bc, err, Ctx); if (!M) { err.print("absint", errs()); return 2; } DL = &M->getDataLayout();
  if (list) { for (auto& F : *M) if (!F.isDeclaration() && F.getName().starts_with("prop_")) std::cout << F.getName().str() << "\n"; return 0; }
  PassBuilder PB; LoopAnalysisManager LAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM); FPM.addPass(PromotePass());
  Function* F = M->getFunction(fn); if (!F || F->isDeclaration()) { std::cerr << "no function " << fn << "\n"; return 2; }
  gHarness = fn; gStack.push_back(nullptr);
  std::set<const Function*> seen; std::set<std::string> ids; scanAsserts(F, seen, ids);
  State s;
  try {
    // dynamic initialisers of the linked units
    gOpts.insert("init");
    if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) if (gc->hasInitializer()) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) for (auto& op : ca->operands()) { auto* st = cast<ConstantStruct>(op); auto* cf = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts()); if (!cf || cf->isDeclaration()) continue; std::vector<Exit> ex; gStack.push_back(nullptr); exec(cf, {}, s, ex); gStack.pop_back(); if (ex.size() == 1) s = std::move(ex[0].s); else { std::cerr << "initialiser " << cf->getName().str() << " has " << ex.size() << " exits\n"; if (!ex.empty()) s = std::move(ex[0].s); } }
    gOpts.clear(); gObl.clear(); gEvents.clear(); gFuncs.clear(); gFnName.clear(); gBranches.clear(); gForks = 0; gPathsDone = 0; gCurPaths = 0; s.trace = nullptr; s.steps = 0;
    std::vector<Exit> ex; exec(F, {}, s, ex); 
    std::cerr << fn << ": exits " << ex.size() << " forks " << gForks << " t=" << now() << "\n";
  } catch (Stop&) { std::cerr << fn << ": INCOMPLETE " << gIncomplete << "\n"; }
  if (gDebug) { std::vector<std::pair<int, std::string>> v; for (auto& [k, n] : gForkAt) v.push_back({n, k}); std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < v.size() && i < 12; ++i) std::cerr << "fork x" << v[i].first << " " << v[i].second << "\n"; }
  std::ostringstream o; o << "{\"harness\":" << js(fn) << ",\"incomplete\":" << js(gIncomplete) << ",\"forks\":" << gForks << ",\"returns\":" << gPathsDone << ",\"seconds\":" << now() << ",\n\"obligations\":[";
  bool first = true; for (auto& id : ids) if (!gObl.count(id)) { gObl[id].id = id; }
  for (auto& [k, b] : gObl) { o << (first ? "" : ",\n") << "{\"id\":" << js(b.id) << ",\"ok\":" << b.ok << ",\"fail\":" << b.fail << ",\"undec\":" << b.undec << ",\"where\":" << js(b.where) << ",\"detail\":["; first = false; bool f2 = true; for (auto& d : b.detail) { o << (f2 ? "" : ",") << js(d); f2 = false; } o << "]}"; }
  auto arr = [&](const char* n, const std::set<std::string>& v) { o << ",\n\"" << n << "\":["; bool f = true; for (auto& x : v) { o << (f ? "" : ",") << js(x); f = false; } o << "]"; };
  o << "]"; arr("functions", gFuncs); arr("branches", gBranches); arr("opaque", gOpaque); o << ",\n\"events\":{"; first = true; for (auto& [k, n] : gEvents) { o << (first ? "" : ",") << js(k) << ":" << n; first = false; } o << "},\n\"emits\":["; first = true; for (auto& [k, v] : gEmits) { o << (first ? "" : ",") << "[" << js(k) << "," << js(v) << "]"; first = false; } o << "]}\n";
  if (outp.empty()) std::cout << o.str(); else { std::ofstream f(outp); f << o.str(); }
  bool bad = false; for (auto& [k, b] : gObl) { if (b.fail) { bad = true; std::cerr << "  FAIL " << k << " x" << b.fail << " " << b.where << " :: " << (b.detail.empty() ? "" : b.detail[0]) << "\n"; } else if (b.undec) std::cerr << "  UNDECIDED " << k << "  " << b.detail[0] << "\n"; else if (!b.ok && gIncomplete.empty()) std::cerr << "  VACUOUS " << k << "\n"; }
  _exit(bad ? 1 : gIncomplete.empty() ? 0 : 3);
}
