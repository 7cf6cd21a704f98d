// Small value containers: copy-on-write, bounded arrays, iterator ranges.
#include <array>
#include <list>
#include <memory>
#include <utility>
#include <vector>
#include "specs/common.h"
#include "ink/types/internal/copy_on_write.h"
#include "ink/types/internal/float.h"
#include "ink/types/iterator_range.h"
#include "ink/types/numbers.h"
#include "ink/types/small_array.h"
using namespace ink; using ink_internal::CopyOnWrite;
namespace {
int g_live = 0;   // values currently alive
struct Val { int v; explicit Val(int x = 7) : v(x) { ++g_live; } Val(int a, int b) : v(a * 100 + b) { ++g_live; } Val(const Val& o) : v(o.v) { ++g_live; } Val& operator=(const Val& o) { v = o.v; return *this; } ~Val() { --g_live; } };
using C = CopyOnWrite<Val>;
// the model: which cell each of the three objects refers to
struct Model { int cell[3] = {-1, -1, -1}; int value[64]; int next = 0; };
bool Shared(const Model& m, int i) { if (m.cell[i] < 0) return false; for (int j = 0; j < 3; ++j) if (j != i && m.cell[j] == m.cell[i]) return true; return false; }
void Check(const C (&c)[3], const Model& m) {
  int cells = 0; for (int i = 0; i < 3; ++i) { ai_assert(c[i].HasValue() == (m.cell[i] >= 0), "has-value"); ai_assert(c[i].IsShared() == Shared(m, i), "shared-exactly-when-copied"); if (m.cell[i] < 0 || !c[i].HasValue()) continue; ai_assert(c[i].Value().v == m.value[m.cell[i]] && (*c[i]).v == m.value[m.cell[i]] && c[i]->v == m.value[m.cell[i]], "own-value-kept"); bool first = true; for (int j = 0; j < 3; ++j) { if (j == i || !c[j].HasValue() || m.cell[j] < 0) continue; ai_assert((&c[i].Value() == &c[j].Value()) == (m.cell[i] == m.cell[j]), "storage-shared-exactly-when-copied"); if (j < i && m.cell[j] == m.cell[i]) first = false; } cells += first; }
  ai_assert(g_live == cells, "no-value-leaked-or-lost");
}
void Step(C (&c)[3], Model& m, int op, int& n) {
  int i = op % 3, j = (op + 1) % 3; ++n;
  switch (op / 3) { case 0: c[i].Emplace(n); m.cell[i] = m.next++; m.value[m.cell[i]] = n; break; case 1: c[j] = c[i]; m.cell[j] = m.cell[i]; break; case 2: c[j] = std::move(c[i]); m.cell[j] = m.cell[i]; m.cell[i] = -1; break; case 3: c[i].Reset(); m.cell[i] = -1; break;
    case 4: if (m.cell[i] >= 0) { if (Shared(m, i)) { m.cell[i] = m.next++; } m.value[m.cell[i]] = n; c[i].MutableValue().v = n; } break;
    case 5: { C& alias = c[i]; c[i] = alias; break; }
    case 6: { C copy(c[i]); ai_assert(copy.HasValue() == c[i].HasValue(), "copies-hold-the-value"); if (copy.HasValue()) { copy.MutableValue().v = -n; } break; }
    case 7: { C moved(std::move(c[i])); ai_assert(!c[i].HasValue(), "moved-from-is-empty"); c[i] = moved; break; } }
}
int Op() { return (int)ai_split(ai_i32(0, 23, "operation")); }
#ifdef AI_THOROUGH
constexpr int kDepth = 4;
#else
constexpr int kDepth = 3;
#endif
void Go(int a) { g_live = 0; { C c[3]; Model m; int n = 10; c[0].Emplace(n); m.cell[0] = m.next++; m.value[0] = n; c[1] = c[0]; m.cell[1] = 0; Check(c, m); Step(c, m, a, n); Check(c, m); for (int k = 1; k < kDepth; ++k) { Step(c, m, Op(), n); Check(c, m); } } ai_assert(g_live == 0, "no-value-leaked-or-lost"); }
}
PROP(cow_low) { Go((int)ai_split(ai_i32(0, 7, "first"))); } PROP(cow_mid) { Go((int)ai_split(ai_i32(8, 15, "first"))); } PROP(cow_high) { Go((int)ai_split(ai_i32(16, 23, "first"))); }
PROP(cow_make) { g_live = 0; { int v = ai_i32(-100, 100, "value"); Val x(v); C a(x), b{Val(v)}, d; ai_assert(!d.HasValue() && !d.IsShared(), "starts-empty"); ai_ident_i(a.Value().v, v, "constructed-with-its-value"); ai_ident_i(b->v, v, "constructed-with-its-value"); ai_assert(g_live == 3 && !a.IsShared(), "value-copied-in"); Val& e = d.Emplace(1, 2); ai_assert(e.v == 102 && &e == &d.Value(), "emplaced-in-place"); e.v = 5; ai_assert(d->v == 5, "emplaced-in-place"); Val& m = a.MutableValue(); ai_assert(&m == &*a, "unshared-value-changed-in-place"); } ai_assert(g_live == 0, "no-value-leaked-or-lost"); }
PROP(cow_empty) { ai_opt("allow-check-failure"); bool m = ai_bool("mutable"), after = ai_bool("moved from"); C c; if (after) { c.Emplace(1); C d = std::move(c); } if (m) c.MutableValue(); else c.Value(); ai_assert(false, "never-reads-a-missing-value"); }
// ---- SmallArray
namespace {
using Ptr = std::shared_ptr<int>; using S = SmallArray<int, 4>;
void SmallStep(S& s, std::vector<int>& m, int op, int v) { if (op < 5) { s.Resize(op, v); m.resize(op, v); } else if (op < 10) { s.Resize(op - 5); m.resize(op - 5, 0); } else { if (!m.empty()) { s[m.size() - 1] = v; m.back() = v; s.Values()[0] = v + 1; m[0] = v + 1; } } const S& c = s; ai_assert(c.Size() == m.size() && c.MaxSize() == 4 && c.Values().size() == m.size() && s.Values().data() == c.Values().data(), "size"); if (c.Size() != m.size()) ai_stop(); for (size_t i = 0; i < m.size(); ++i) ai_assert(c[i] == m[i] && s[i] == m[i] && c.Values()[i] == m[i], "elements-kept"); }
}
PROP(small_steps) { int n = (int)ai_split(ai_i32(0, 4, "start")); S s(n, 3); std::vector<int> m(n, 3); for (int k = 0; k < kDepth; ++k) SmallStep(s, m, (int)ai_split(ai_i32(0, 10, "operation")), 20 + k); }
PROP(small_make) { int a = ai_i32(-9, 9, "a"), b = ai_i32(-9, 9, "b"); S x{a, b}; ai_assert(x.Size() == 2, "size"); ai_ident_i(x[0], a, "elements-kept"); ai_ident_i(x[1], b, "elements-kept"); std::vector<int> v = {b, a, b}; S y{absl::MakeConstSpan(v)}; ai_assert(y.Size() == 3, "size"); ai_ident_i(y[0], b, "elements-kept"); ai_ident_i(y[1], a, "elements-kept"); ai_assert(S().Size() == 0 && S(2).Size() == 2 && S(2)[1] == 0, "default-elements"); S z = y; z[0] = 100; ai_ident_i(y[0], b, "copies-are-independent"); ai_assert(z.Size() == 3 && z[0] == 100, "copies-are-independent"); }
PROP(small_equal) { int n = (int)ai_split(ai_i32(0, 4, "n")), k = (int)ai_split(ai_i32(0, 4, "k")); bool differ = ai_bool("differ"); S x(n, 5), y(k, 5); if (differ && k > 0) y[k - 1] = 6; ai_assert((x == y) == (n == k && !(differ && k > 0)), "equal-exactly-when-all-elements-are"); S w(4, 6); w.Resize(n, 5); for (int i = 0; i < n; ++i) w[i] = 5; ai_assert(w == x, "removed-elements-do-not-count"); }
PROP(small_release) { Ptr p = std::make_shared<int>(4); SmallArray<Ptr, 4> s(3, p); ai_assert(p.use_count() == 4, "one-reference-per-element"); int n = (int)ai_split(ai_i32(0, 4, "size")); s.Resize(n, p); ai_assert(p.use_count() == 1 + n, "removed-elements-are-released"); }
// ---- iterator_range
PROP(range_all) { std::array<int, 5> a = {1, 2, 3, 4, 5}; int i = (int)ai_split(ai_i32(0, 5, "from")), j = (int)ai_split(ai_i32(0, 5, "to")); if (i > j) ai_stop(); auto r = make_range(a.data() + i, a.data() + j); auto q = make_range(std::make_pair(a.begin() + i, a.begin() + j)); iterator_range<const int*> t(a.data() + i, a.data() + j); ai_assert(r.size() == size_t(j - i) && q.size() == size_t(j - i) && t.size() == size_t(j - i), "range-size"); ai_assert(r.empty() == (i == j) && q.empty() == (i == j) && t.empty() == (i == j), "range-empty"); int k = i; for (int v : r) ai_assert(v == ++k, "range-elements-in-order"); ai_assert(k == j && r.begin() == a.data() + i && r.end() == a.data() + j && q.begin() == a.begin() + i && q.end() == a.begin() + j && t.begin() == a.data() + i && t.end() == a.data() + j, "range-ends"); iterator_range<int*> none; ai_assert(none.empty() && none.size() == 0, "default-range-is-empty"); }
PROP(range_list) { std::list<int> l = {1, 2, 3}; auto r = make_range(l.begin(), l.end()); int n = 0; for (int v : r) ai_assert(v == ++n, "range-elements-in-order"); ai_assert(n == 3 && !r.empty() && make_range(l.end(), l.end()).empty(), "range-empty"); }
PROP(number_constants) { ai_near(numbers::kPi, 3.14159265358979323846, 1e-15, "pi"); ai_near(numbers::kSqrt2, 1.41421356237309504880, 1e-15, "sqrt-two"); float f = ai_f32("value"); if (ai_finite(f)) { ai_assert(ink_internal::IsFinite(f), "finite"); } else { ai_assert(!ink_internal::IsFinite(f), "finite"); } }
