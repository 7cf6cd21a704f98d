// Abstract state: interval refinements and ordering facts on terms, plus a byte-cell memory.
#pragma once
#include "term.h"
struct Cell { T t; int n; bool undef = false; };
enum class Def : uint8_t { Undef, Zero, Top, Const };
struct Region {
  int id = 0; T size = nullptr; Def def = Def::Undef; bool heap = false, alive = true, ro = false, opq = false; const void* gv = nullptr; std::string name; unsigned gen = 0;
  std::map<int64_t, Cell> cells;
  std::vector<std::pair<T, Cell>> symc;   // writes / lazily created reads at symbolic offsets (valid since last conflicting write)
  bool smeared = false;                   // a symbolic-offset write happened: default content is unknown
};
template <class X> struct Cow {
  std::shared_ptr<X> p = std::make_shared<X>();
  const X& r() const { return *p; }
  X& w() { if (p.use_count() > 1) p = std::make_shared<X>(*p); return *p; }
};
struct Trace { std::shared_ptr<Trace> up; const void* inst; int taken; };
struct FactKey { unsigned a, b; bool operator==(const FactKey& o) const { return a == o.a && b == o.b; } };
struct FactHash { size_t operator()(const FactKey& k) const { return k.a * 0x9e3779b97f4a7c15ull ^ k.b; } };
struct State {
  Cow<std::unordered_map<T, AV>> refs;
  uint64_t rsig = 0;
  // for (a,b) with a.id<b.id : possible orderings; bits EQ=1 GT=2 LT=4 UNO=8.  kind 0: float/signed, kind 1: unsigned
  Cow<std::unordered_map<FactKey, uint8_t, FactHash>> facts[2];
  Cow<std::unordered_map<unsigned, std::vector<T>>> nbr;   // fact adjacency
  Cow<std::unordered_map<T, uint8_t>> bools;               // decided opaque booleans
  Cow<std::map<int, std::shared_ptr<Region>>> mem;
  std::shared_ptr<Trace> trace;
  int depth = 0; unsigned steps = 0;
  Cow<std::map<std::string, T>> ghost;
};
AV evalAV(const State& s, T t);
unsigned relMask(const State& s, T a, T b, bool uns);          // possible orderings
bool refine(State& s, T t, const AV& v);                       // false: infeasible
bool addRel(State& s, T a, T b, unsigned mask, bool uns);      // false: infeasible
int truth(const State& s, T c);                                // 1 / 0 / -1 unknown
void assume(const State& s, T c, bool v, std::vector<State>& out);
bool assume1(State& s, T c, bool v);                           // best effort, single state
bool algEq(const State& s, T a, T b, double tol, std::string* why = nullptr);
bool algDiff(const State& s, T a, T b, double& lo, double& hi);
