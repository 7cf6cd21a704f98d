// G09: closing and trimming of hand-drawn polylines.
// unit: ink/geometry/internal/polyline_processing.cc
#include "specs/common.h"
#include <algorithm>
#include <vector>
#include "ink/geometry/distance.h"
#include "ink/geometry/internal/polyline_processing.h"
#include "ink/geometry/internal/algorithms.h"
#include "ink/geometry/point.h"
#include "ink/geometry/segment.h"
using namespace ink;
using ink::geometry_internal::ProcessPolylineForMeshCreation;
namespace {
struct Params { float walk, dist, ratio, trim; };
struct At { int i = -1; float f = 0; };
// The documented algorithm, segment by segment, without a spatial index.
struct Oracle {
  std::vector<Point> p; std::vector<Segment> s; std::vector<float> len; Params k; int n;
  bool hit = false, joinF = false, joinL = false, tie = false; At first, last, cf, cl; Point nf{0, 0}, nl{0, 0};
  Oracle(const std::vector<Point>& q, Params k) : p(q), k(k) { for (size_t i = 0; i + 1 < q.size(); ++i) { s.push_back({q[i], q[i + 1]}); len.push_back(Distance(q[i], q[i + 1])); } n = (int)s.size(); }
  float FromStart(At a) { float d = 0; for (int i = 0; i < a.i; ++i) d += len[i]; return d + len[a.i] * a.f; }
  float FromEnd(At a) { float d = 0; for (int i = n - 1; i > a.i; --i) d += len[i]; return d + len[a.i] * (1 - a.f); }
  void Crossings() {
    for (int i = 0; i < n && !hit; ++i) for (int j = i + 2; j < n; ++j) if (auto r = geometry_internal::SegmentIntersectionRatio(s[i], s[j])) if (!hit || r->first < first.f) { hit = true; first = {i, r->first}; }
    if (!hit) return;
    nf = s[first.i].Lerp(first.f);
    bool got = false;
    for (int i = n - 1; i >= 0 && !got; --i) for (int j = i - 2; j >= 0; --j) if (auto r = geometry_internal::SegmentIntersectionRatio(s[i], s[j])) if (!got || r->first > last.f) { got = true; last = {i, r->first}; }
    nl = s[last.i].Lerp(last.f);
  }
  bool Reaches(At a, float straight, bool front) {
    float walk = front ? FromStart(a) : FromEnd(a);
    if (walk < k.walk || walk < k.ratio * straight) return false;
    if (hit && (front ? FromStart(first) : FromEnd(last)) < k.trim * straight) return false;
    return true;
  }
  void Connect(bool front) {
    Point e = front ? p.front() : p.back(); float best = -1; At at;
    for (int i = front ? 2 : 0; i < (front ? n : n - 2); ++i) {
      float d = Distance(e, s[i]);
      if (!(d < k.dist)) continue;
      At a{i, std::clamp(s[i].Project(e).value_or(0.f), 0.f, 1.f)};
      if (!Reaches(a, d, front)) continue;
      if (best >= 0 && d > best - 1e-4f && d < best + 1e-4f) { Point u = s[i].Lerp(a.f), v = s[at.i].Lerp(at.f); if (Distance(u, v) > 1e-4f || at.i != a.i) tie = true; }
      if (best < 0 || d < best) { best = d; at = a; }
    }
    if (best < 0) return;
    (front ? joinF : joinL) = true; (front ? cf : cl) = at;
  }
  static bool Later(At a, At b) { return a.i > b.i || (a.i == b.i && a.f > b.f); }
  std::vector<Point> Run() {
    if (p.size() < 2) return p;
    Crossings(); Connect(true); Connect(false);
    if (joinF) nf = s[cf.i].Lerp(cf.f);
    if (joinL) nl = s[cl.i].Lerp(cl.f);
    if (joinF && !joinL && (!hit || Later(cf, last))) { last = cf; nl = nf; }
    if (joinL && !joinF && (!hit || Later(first, cl))) { first = cl; nf = nl; }
    if (!hit && !joinF && !joinL) return p;
    std::vector<Point> out{nf};
    int a = joinF ? 0 : first.i + 1, b = joinL ? (int)p.size() : last.i + 1;
    for (int i = a; i < b; ++i) if (i > a || !(p[i] == nf)) out.push_back(p[i]);
    if (!(nl == out.back())) out.push_back(nl);
    return out;
  }
};
bool Close(Point a, Point b) { return ai_and(In(double(a.x) - b.x, -1e-3, 1e-3), In(double(a.y) - b.y, -1e-3, 1e-3)); }
void Same(const std::vector<Point>& q, Params k, const char* size, const char* at) {
  Oracle o(q, k);
  std::vector<Point> want = o.Run();
  if (o.tie) return;
  std::vector<Point> got = ProcessPolylineForMeshCreation(q, k.walk, k.dist, k.ratio, k.trim);
  ai_assert(got.size() == want.size(), size);
  if (got.size() != want.size()) return;
  bool ok = true;
  for (size_t i = 0; i < got.size(); ++i) ok = ai_and(ok, Close(got[i], want[i]));
  ai_assert(ok, at);
}
Params kSets[] = {{4, 3, 1.5f, 1.5f}, {0, 6, 0, 0}, {12, 5, 3, 2}, {5, 0, 1, 1}, {2, 2, 1.2f, 4}, {6, 4, 0, .5f}};
}
#ifdef AI_THOROUGH
constexpr int kMore = 8;
#else
constexpr int kMore = 1;
#endif
#define SCENES(name, n, count, w)                                                                \
  PROP(name) {                                                                                     \
    uint32_t z = 12345u + 7919u * (uint32_t)ai_split(ai_i32(0, count * kMore - 1, "polyline"));             \
    int k = (int)ai_split(ai_i32(0, 5, "parameters"));                                             \
    std::vector<Point> p;                                                                          \
    for (int i = 0; i < n; ++i) { z = z * 1664525u + 1013904223u; float x = (z >> 16) % w; z = z * 1664525u + 1013904223u; p.push_back({x, float((z >> 16) % w)}); } \
    Same(p, kSets[k], "points-kept-and-added", "where-they-are");                                  \
  }
SCENES(polyline_five, 5, 120, 9)
SCENES(polyline_seven, 7, 120, 12)
SCENES(polyline_ten, 10, 60, 14)
SCENES(polyline_tight, 6, 100, 4)
// Shapes people draw, as they are and turned into the other corner.
PROP(polyline_shapes) {
  static const float scenes[][16] = {
      {0, 0, 10, 0, 10, 10, 5, 10, 5, -5, 99},
      {0, 0, 20, 0, 20, 20, 1, 20, 1, 2, 99},
      {2, 1, 0, 10, 10, 12, 20, 10, 18, 0, 1, -1, 99},
      {0, 0, 10, 3, 20, 0, 30, 3, 99},
      {0, 0, 10, 0, 10, 8, 3, 8, 3, -6, 9, -6, 9, 20, 99},
      {0, 0, 6, 0, 6, 6, 0, 6, 0.8f, 1, 99},
      {3, -1, 3, 9, 12, 9, 12, 0, -2, 0, -2, 4, 99},
  };
  int s = (int)ai_split(ai_i32(0, 6, "scene")), k = (int)ai_split(ai_i32(0, 5, "parameters")), turn = (int)ai_split(ai_i32(0, 3, "turned"));
  std::vector<Point> p;
  for (int i = 0; scenes[s][i] != 99; i += 2) { float x = scenes[s][i], y = scenes[s][i + 1]; p.push_back(turn & 1 ? Point{y, x} : Point{x, y}); }
  if (turn & 2) std::reverse(p.begin(), p.end());
  Same(p, kSets[k], "shapes-points-kept-and-added", "shapes-where-they-are");
}
// Repeated points are segments without a length.
PROP(polyline_repeated) {
  int at = (int)ai_split(ai_i32(0, 5, "repeated point")), k = (int)ai_split(ai_i32(0, 5, "parameters"));
  std::vector<Point> base = {{0, 0}, {10, 0}, {10, 10}, {1, 10}, {1, 2}, {2, 1}}, p;
  for (int i = 0; i < 6; ++i) { p.push_back(base[i]); if (i == at) p.push_back(base[i]); }
  Same(p, kSets[k], "repeated-points-kept-and-added", "repeated-where-they-are");
}
PROP(polyline_short) {
  int n = (int)ai_split(ai_i32(0, 3, "n")), k = (int)ai_split(ai_i32(0, 5, "parameters"));
  std::vector<Point> p;
  for (int i = 0; i < n; ++i) p.push_back({float(i * 7), float(i * i)});
  std::vector<Point> got = ProcessPolylineForMeshCreation(p, kSets[k].walk, kSets[k].dist, kSets[k].ratio, kSets[k].trim);
  ai_assert(got.size() == p.size(), "short-polyline-kept");
  bool ok = got.size() == p.size();
  for (size_t i = 0; ok && i < p.size(); ++i) ok = ok && got[i] == p[i];
  ai_assert(ok, "short-polyline-points-kept");
}
