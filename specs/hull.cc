// G07: the convex hull of a point set.
#include "specs/common.h"
#include "ink/geometry/convex_hull.h"
#include "ink/geometry/point.h"
using namespace ink;
namespace {
struct I { int x, y; };
int Det(I a, I b, I c) { return (b.x - a.x) * (c.y - b.y) - (b.y - a.y) * (c.x - b.x); }
bool Same(I a, I b) { return a.x == b.x && a.y == b.y; }
// The hull by gift wrapping over exact integers: from the lowest (then leftmost) point, the farthest of the rightmost directions.
std::vector<int> Expected(const std::vector<I>& p) {
  int n = (int)p.size(), s = 0;
  for (int i = 1; i < n; ++i) if (p[i].y < p[s].y || (p[i].y == p[s].y && p[i].x < p[s].x)) s = i;
  std::vector<int> out{s};
  int cur = s;
  for (int guard = 0; guard < n; ++guard) {
    int next = -1;
    for (int i = 0; i < n; ++i) {
      if (Same(p[i], p[cur])) continue;
      if (next < 0) { next = i; continue; }
      int d = Det(p[cur], p[next], p[i]);
      auto len = [&](int k) { return (p[k].x - p[cur].x) * (p[k].x - p[cur].x) + (p[k].y - p[cur].y) * (p[k].y - p[cur].y); };
      if (d < 0 || (d == 0 && len(i) > len(next))) next = i;
    }
    if (next < 0 || Same(p[next], p[s])) break;
    out.push_back(next); cur = next;
  }
  return out;
}
void Exact(const std::vector<I>& p) {
  std::vector<Point> q;
  for (I i : p) q.push_back({(float)i.x, (float)i.y});
  std::vector<Point> h = ConvexHull(q);
  std::vector<int> e = Expected(p);
  ai_assert(h.size() == e.size(), "hull-size");
  if (h.size() != e.size()) return;
  bool ok = true;
  for (size_t k = 0; k < e.size(); ++k) ok = ok && h[k].x == (float)p[e[k]].x && h[k].y == (float)p[e[k]].y;
  ai_assert(ok, "hull-vertices-in-order");
}
void Grid(int n, int w, int total) {
  int c = (int)ai_split(ai_i32(0, total - 1, "placement"));
  std::vector<I> p;
  for (int i = 0; i < n; ++i) { int k = c % (w * w); c /= w * w; p.push_back({k % w, k / w}); }
  Exact(p);
}
}
PROP(hull_three_points) { Grid(3, 3, 729); }
PROP(hull_four_points_a) { Grid(4, 3, 6561); }
// Four points in general position, each anywhere within a box around its place.
PROP(hull_boxes) {
  int a = (int)ai_split(ai_i32(0, 23, "x order")), b = (int)ai_split(ai_i32(0, 23, "y order"));
  auto perm = [](int k, int* out) { int pool[4] = {0, 1, 2, 3}; for (int i = 0; i < 4; ++i) { int f = i == 0 ? 6 : i == 1 ? 2 : 1; int j = k / f; k %= f; out[i] = pool[j]; for (int m = j; m < 3; ++m) pool[m] = pool[m + 1]; } };
  int x[4], y[4]; perm(a, x); perm(b, y);
  std::vector<I> p;
  for (int i = 0; i < 4; ++i) p.push_back({x[i], y[i]});
  for (int i = 0; i < 4; ++i) for (int j = i + 1; j < 4; ++j) for (int k = j + 1; k < 4; ++k) if (Det(p[i], p[j], p[k]) == 0) return;
  std::vector<Point> q;
  for (I i : p) q.push_back({i.x + ai_f32_in(-1. / 64, 1. / 64, "dx"), i.y + ai_f32_in(-1. / 64, 1. / 64, "dy")});
  std::vector<Point> h = ConvexHull(q);
  std::vector<int> e = Expected(p);
  ai_assert(h.size() == e.size(), "boxes-hull-size");
  if (h.size() != e.size()) return;
  for (size_t k = 0; k < e.size(); ++k) { ai_ident_f(h[k].x, q[e[k]].x, "boxes-hull-x"); ai_ident_f(h[k].y, q[e[k]].y, "boxes-hull-y"); }
}
// Points along one line from the start, in any order.
PROP(hull_line) {
  int d = (int)ai_split(ai_i32(0, 7, "direction")), o = (int)ai_split(ai_i32(0, 23, "order"));
  int dx[] = {1, 1, 0, -1, -2, 2, -1, 1}, dy[] = {0, 1, 1, 1, 1, 1, 0, 3};
  int pool[4] = {0, 1, 2, 3}; std::vector<I> p;
  for (int i = 0; i < 4; ++i) { int f = i == 0 ? 6 : i == 1 ? 2 : 1; int j = o / f; o %= f; int t = pool[j]; for (int m = j; m < 3; ++m) pool[m] = pool[m + 1]; p.push_back({dx[d] * t, dy[d] * t}); }
  if (ai_split(ai_i32(0, 1, "aside"))) p.push_back({7, 9});
  Exact(p);
}
PROP(hull_few_points) {
  ai_assert(ConvexHull({}).empty(), "no-points-no-hull");
  float x = Fin("x"), y = Fin("y");
  Point one[] = {{x, y}};
  auto h = ConvexHull(one);
  ai_assert(h.size() == 1, "one-point-is-its-hull");
  ai_ident_f(h[0].x, x, "one-point-x"); ai_ident_f(h[0].y, y, "one-point-y");
  Point three[] = {{x, y}, {x, y}, {x, y}};
  auto k = ConvexHull(three);
  ai_assert(k.size() == 1, "coincident-points-make-one");
  ai_assert(ai_feq(k[0].x, x), "coincident-x");
}
namespace {
void Many(const std::vector<I>& corners, int spread) {
  std::vector<I> p;
  int at = (int)ai_split(ai_i32(0, 2, "where the outline points are"));
  if (at == 0) for (I c : corners) p.push_back(c);
  for (int i = 0; i < 520; ++i) { p.push_back({(i * 7) % spread - spread / 2, (i * 11) % spread - spread / 2}); if (at == 1 && i == 260) for (I c : corners) p.push_back(c); }
  if (at == 2) for (I c : corners) p.push_back(c);
  std::vector<Point> q;
  for (I i : p) q.push_back({(float)i.x, (float)i.y});
  std::vector<Point> h = ConvexHull(q);
  std::vector<int> e = Expected(corners);
  ai_assert(h.size() == e.size(), "many-hull-size");
  if (h.size() != e.size()) return;
  bool ok = true;
  for (size_t k = 0; k < e.size(); ++k) ok = ok && h[k].x == (float)corners[e[k]].x && h[k].y == (float)corners[e[k]].y;
  ai_assert(ok, "many-hull-vertices");
}
}
PROP(hull_many_diamond) { Many({{40, 0}, {0, 40}, {-40, 0}, {0, -40}}, 11); }
PROP(hull_many_octagon) { Many({{40, 3}, {29, 29}, {2, 41}, {-29, 28}, {-41, -1}, {-28, -29}, {1, -42}, {28, -30}}, 13); }
PROP(hull_many_triangle) { Many({{90, -60}, {-90, -61}, {3, 90}}, 9); }
PROP(hull_many_box) { Many({{50, 50}, {-50, 50}, {-50, -50}, {50, -50}}, 13); }
