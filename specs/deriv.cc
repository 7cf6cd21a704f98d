// X08: derivatives and margins of the vertices of a stroke mesh.
// unit: ink/strokes/internal/brush_tip_extruder/derivative_calculator.cc
#include <cmath>
#include <vector>
#include "specs/common.h"
#include "ink/geometry/mutable_mesh.h"
#include "ink/strokes/internal/brush_tip_extruder/derivative_calculator.h"
#include "ink/strokes/internal/brush_tip_extruder/mutable_mesh_view.h"
#include "ink/strokes/internal/stroke_vertex.h"
using namespace ink; using namespace ink::brush_tip_extruder_internal; using namespace ink::strokes_internal;
using V = StrokeVertex; using T3 = std::array<uint32_t, 3>;
namespace {
struct D2 { double x = 0, y = 0; };
D2 operator+(D2 a, D2 b) { return {a.x + b.x, a.y + b.y}; } D2 operator-(D2 a, D2 b) { return {a.x - b.x, a.y - b.y}; } D2 operator*(double k, D2 a) { return {k * a.x, k * a.y}; }
double Dot(D2 a, D2 b) { return a.x * b.x + a.y * b.y; } double Det(D2 a, D2 b) { return a.x * b.y - a.y * b.x; }
bool At(D2 a, D2 b) { return a.x == b.x && a.y == b.y; }
struct Avg { double m = 0; D2 u; int n = 0; void Add(D2 v) { double l = __builtin_sqrt(Dot(v, v)); if (l == 0) return; m += l; u = u + (1 / l) * v; n++; } void Add(const Avg& o) { m += o.m; u = u + o.u; n += o.n; } };
struct Scene {
  std::vector<D2> p; std::vector<int> side, fwd; std::vector<T3> t; std::vector<uint32_t> left, right;   // side: -1 left, 1 right; fwd: -1 front, 1 back; 0 interior
};
// altitude from corner k onto the line through the others
bool Altitude(const Scene& s, const T3& t, int k, D2& out) { D2 a = s.p[t[(k + 1) % 3]], b = s.p[t[(k + 2) % 3]], c = s.p[t[k]]; D2 e = b - a; if (Dot(e, e) == 0) return false; out = a + (Dot(c - a, e) / Dot(e, e)) * e - c; return true; }
struct Wanted { std::vector<D2> sd, fd; std::vector<double> margin; std::vector<bool> fuzzyS, fuzzyF, set; };
double Bound(D2 at, D2 d, D2 from, D2 to) {   // ratio along d at which the line from-to is met
  D2 e = to - from; double det = Det(d, e); if (det == 0) return 4; double r = Det(from - at, e) / det; return r >= 0 ? r : 4;
}
Wanted Expect(const Scene& s) {
  size_t n = s.p.size(); std::vector<Avg> sa(n), fa(n); Wanted w; w.sd.resize(n); w.fd.resize(n); w.margin.resize(n, 4); w.fuzzyS.resize(n); w.fuzzyF.resize(n); w.set.resize(n);
  for (const T3& t : s.t) {
    D2 h[3]; bool ok = true; for (int k = 0; k < 3; ++k) ok = Altitude(s, t, k, h[k]) && ok; if (!ok) continue;
    auto c = [&](int k) { return s.side[t[k]]; }; auto f = [&](int k) { return s.fwd[t[k]]; };
    for (uint32_t i : t) {
      if (c(2) == -1 && c(0) == -1) sa[i].Add(-1 * h[1]); else if (c(2) == 1 && c(1) == 1) sa[i].Add(h[0]);
      if (f(0) == f(1)) fa[i].Add(-1 * h[2]); if (f(1) == f(2)) fa[i].Add(h[0]); if (f(0) == f(2)) fa[i].Add(h[1]);
    }
  }
  for (auto* idx : {&s.left, &s.right}) for (size_t i = 0; i < idx->size();) {
    size_t j = i; Avg a, b; auto& x = *idx;
    for (; j < x.size() && At(s.p[x[j]], s.p[x[i]]) && s.side[x[j]] == s.side[x[i]] && s.fwd[x[j]] == s.fwd[x[i]]; ++j) { a.Add(sa[x[j]]); b.Add(fa[x[j]]); }
    for (; i < j; ++i) { uint32_t k = x[i]; w.set[k] = true; double la = __builtin_sqrt(Dot(a.u, a.u)), lb = __builtin_sqrt(Dot(b.u, b.u)); w.fuzzyS[k] = a.n && la < .05; w.fuzzyF[k] = b.n && lb < .05; if (a.n && !w.fuzzyS[k]) w.sd[k] = (a.m / a.n / la) * a.u; if (b.n && !w.fuzzyF[k]) w.fd[k] = (b.m / b.n / lb) * b.u; }
  }
  std::vector<double> up(n, 4);
  for (const T3& t : s.t) {
    D2 a = s.p[t[0]], b = s.p[t[1]], c = s.p[t[2]];
    if (Det(b - a, c - a) == 0) { if (!At(a, b) && !At(b, c) && !At(a, c)) for (uint32_t i : t) up[i] = 0; continue; }
    D2 q[3]; for (int k = 0; k < 3; ++k) { D2 u = s.p[t[(k + 1) % 3]], v = s.p[t[(k + 2) % 3]], e = v - u; double r = Dot(s.p[t[k]] - u, e) / Dot(e, e); r = r < .1 ? .1 : r > .9 ? .9 : r; q[k] = u + r * e; }
    for (int k = 0; k < 3; ++k) { uint32_t i = t[k]; double b = 0; if (s.side[i]) { b = 4; for (int m = 1; m < 3; ++m) { double r = Bound(s.p[i], double(s.side[i]) * w.sd[i], s.p[t[(k + m) % 3]], q[(k + m) % 3]); if (r < b) b = r; } } if (b < up[i]) up[i] = b; }
  }
  for (auto* idx : {&s.left, &s.right}) for (size_t i = 0; i < idx->size();) {
    auto& x = *idx; size_t j = i + 1; for (; j < x.size() && At(s.p[x[j]], s.p[x[i]]) && !(s.fwd[x[j - 1]] == 1 && s.fwd[x[j]] != 1); ++j) {}
    double m = 4; for (size_t k = i; k < j; ++k) if (up[x[k]] < m) m = up[x[k]]; for (; i < j; ++i) w.margin[x[i]] = m;
  }
  return w;
}
V::Label SideLabel(int c) { return c < 0 ? V::kExteriorLeftLabel : c > 0 ? V::kExteriorRightLabel : V::kInteriorLabel; }
V::Label FwdLabel(int c) { return c < 0 ? V::kExteriorFrontLabel : c > 0 ? V::kExteriorBackLabel : V::kInteriorLabel; }
constexpr float kOld = 77;
void Judge(const Scene& s, const char* sideId, const char* fwdId, const char* marginId, const char* kept) {
  MutableMesh m(V::FullMeshFormat());
  for (size_t i = 0; i < s.p.size(); ++i) { V v; v.position = {float(s.p[i].x), float(s.p[i].y)}; v.non_position_attributes.side_label = SideLabel(s.side[i]); v.non_position_attributes.forward_label = FwdLabel(s.fwd[i]); v.non_position_attributes.side_derivative = {kOld, -kOld}; v.non_position_attributes.forward_derivative = {-kOld, kOld}; V::AppendToMesh(m, v); }
  for (const T3& t : s.t) m.AppendTriangleIndices(t);
  Wanted w = Expect(s); MutableMeshView view(m); DerivativeCalculator d; d.UpdateMesh(s.left, s.right, view);
  bool side = true, fwd = true, margin = true, same = true;
  auto close = [](Vec a, D2 b) { double t = 1e-3 * (1 + std::fabs(b.x) + std::fabs(b.y)); return In(a.x - b.x, -t, t) && In(a.y - b.y, -t, t); };
  bool anyFuzzy = false; for (size_t i = 0; i < s.p.size(); ++i) anyFuzzy = anyFuzzy || w.fuzzyS[i];
  for (size_t i = 0; i < s.p.size(); ++i) {
    V v = V::GetFromMesh(m, i); const auto& a = v.non_position_attributes;
    if (!w.set[i]) { same = same && a.side_derivative.x == kOld && a.side_derivative.y == -kOld && a.forward_derivative.x == -kOld && a.side_label.encoded_value == SideLabel(s.side[i]).encoded_value; continue; }
    if (!w.fuzzyS[i]) side = side && close(a.side_derivative, w.sd[i]); if (!w.fuzzyF[i]) fwd = fwd && close(a.forward_derivative, w.fd[i]);
    same = same && a.forward_label.encoded_value == FwdLabel(s.fwd[i]).encoded_value && v.position.x == (float)s.p[i].x && v.position.y == (float)s.p[i].y;
    same = same && a.side_label.DecodeSideCategory() == SideLabel(s.side[i]).DecodeSideCategory();
    if (!anyFuzzy && s.side[i]) margin = margin && In(a.side_label.DecodeMargin() - w.margin[i], -.05, .02);
  }
  ai_assert(side, sideId); ai_assert(fwd, fwdId); ai_assert(margin, marginId); ai_assert(same, kept);
}
// A strip of two sides: left vertices even, right vertices odd.
void Strip(Scene& s, int n) { for (int i = 0; i + 2 < n; ++i) s.t.push_back(i % 2 ? T3{uint32_t(i + 1), uint32_t(i), uint32_t(i + 2)} : T3{uint32_t(i), uint32_t(i + 1), uint32_t(i + 2)}); }
}
#ifdef AI_THOROUGH
constexpr int kStrips = 299;
#else
constexpr int kStrips = 79;
#endif
PROP(deriv_strip) {
  uint32_t z = 991u + 7919u * (uint32_t)ai_split(ai_i32(0, kStrips, "strip")); auto next = [&](int k) { z = z * 1664525u + 1013904223u; return int((z >> 16) % k); };
  int from = (int)ai_split(ai_i32(0, 3, "first updated")); Scene s; int n = 8;
  for (int i = 0; i < n; ++i) { bool l = i % 2 == 0; s.p.push_back({double(3 * (i / 2) + next(3) - 1), double(l ? 4 + next(3) : -next(3))}); s.side.push_back(next(6) == 0 ? 0 : l ? -1 : 1); s.fwd.push_back(i < 2 && next(2) ? 1 : i >= n - 2 && next(2) ? -1 : 0); if (i >= from) (l ? s.left : s.right).push_back(i); }
  if (next(2)) { int k = 2 + next(6); s.p[k] = s.p[k - 2]; if (next(2)) { s.side[k] = s.side[k - 2]; s.fwd[k] = s.fwd[k - 2]; } }
  if (next(3) == 0) { int k = 2 + next(4); s.fwd[k] = 1; s.fwd[k + 2] = 0; s.p[k + 2] = s.p[k]; }
  Strip(s, n); Judge(s, "strip-side-derivatives", "strip-forward-derivatives", "strip-margins", "strip-rest-unchanged");
}
// one side only, a triangle whose corners lie on a line, and one side without indices
PROP(deriv_special) {
  int k = (int)ai_split(ai_i32(0, 4, "case")); Scene s; s.p = {{0, 4}, {0, 0}, {4, 4}, {4, 0}, {8, 4}, {8, 0}}; s.side = {-1, 1, -1, 1, -1, 1}; s.fwd = {1, 1, 0, 0, -1, -1}; s.left = {0, 2, 4}; s.right = {1, 3, 5};
  if (k == 0) s.left.clear(); if (k == 1) s.right.clear(); if (k == 2) s.p[4] = {4, 2}; if (k == 3) { s.p[3] = {2, 4}; } if (k == 4) { s.left = {2, 4}; s.right = {5}; }
  Strip(s, 6); Judge(s, "side-derivatives", "forward-derivatives", "margins", "rest-unchanged");
}
PROP(deriv_nothing) { MutableMesh m(V::FullMeshFormat()); MutableMeshView view(m); DerivativeCalculator d; d.UpdateMesh({}, {}, view); ai_assert(m.VertexCount() == 0, "nothing-to-update"); }
// averages: magnitudes and directions apart, zero vectors ignored
PROP(deriv_average) {
  DerivativeCalculator::AverageDerivative a, b; Vec v = a.Value(); ai_assert(v.x == 0 && v.y == 0, "no-vectors-no-average"); float x = ai_f32_in(.5, 100, "x"), y = ai_f32_in(.5, 100, "y"); a.Add(Vec{0, 0}); v = a.Value(); ai_assert(v.x == 0 && v.y == 0, "zero-vectors-ignored"); a.Add(Vec{x, 0}); a.Add(Vec{0, 0}); v = a.Value(); ai_near(v.x, x, 1e-2, "one-vector-is-its-average"); ai_near(v.y, 0, 1e-2, "one-vector-is-its-average"); a.Add(Vec{0, y}); v = a.Value();
  ai_near(v.x, (double(x) + y) / 2 * .70710678118654752, 2e-2, "mean-magnitude-mean-direction"); ai_near(v.y, (double(x) + y) / 2 * .70710678118654752, 2e-2, "mean-magnitude-mean-direction"); b.Add(a); b.Add(Vec{}); v = b.Value(); ai_near(v.x, (double(x) + y) / 2 * .70710678118654752, 2e-2, "joined-averages");
}
