// Independent geometry oracle on constant coordinates: depth of overlap and gap of convex shapes.
#pragma once
#include <cmath>
namespace {
struct P2 { double x, y; };
struct Poly { int n; P2 v[4]; };
double Dot(P2 a, P2 b) { return a.x * b.x + a.y * b.y; }
P2 Sub(P2 a, P2 b) { return {a.x - b.x, a.y - b.y}; }
double Len(P2 a) { return std::sqrt(Dot(a, a)); }
double PtSeg(P2 p, P2 a, P2 b) { P2 d = Sub(b, a), w = Sub(p, a); double dd = Dot(d, d); double t = dd == 0 ? 0 : Dot(w, d) / dd; t = t < 0 ? 0 : t > 1 ? 1 : t; return Len({w.x - t * d.x, w.y - t * d.y}); }
// depth of overlap (positive) by separating axes; negative or zero when separated along some axis
double Depth(const Poly& A, const Poly& B) {
  double best = 1e9;
  for (int s = 0; s < 2; ++s) {
    const Poly& Q = s ? B : A;
    for (int i = 0; i < Q.n; ++i) {
      P2 e = Sub(Q.v[(i + 1) % Q.n], Q.v[i]); double l = Len(e); if (l == 0) continue;
      P2 ax[2] = {{-e.y / l, e.x / l}, {e.x / l, e.y / l}};
      for (int k = 0; k < (Q.n == 2 ? 2 : 1); ++k) {
        double a0 = 1e9, a1 = -1e9, b0 = 1e9, b1 = -1e9;
        for (int j = 0; j < A.n; ++j) { double t = Dot(A.v[j], ax[k]); a0 = t < a0 ? t : a0; a1 = t > a1 ? t : a1; }
        for (int j = 0; j < B.n; ++j) { double t = Dot(B.v[j], ax[k]); b0 = t < b0 ? t : b0; b1 = t > b1 ? t : b1; }
        double o = a1 - b0 < b1 - a0 ? a1 - b0 : b1 - a0; best = o < best ? o : best;
      }
    }
  }
  return best;
}
double Gap(const Poly& A, const Poly& B) {  // distance of separated convex shapes
  double best = 1e9;
  for (int s = 0; s < 2; ++s) { const Poly &P = s ? B : A, &Q = s ? A : B; for (int i = 0; i < P.n; ++i) for (int j = 0; j < Q.n; ++j) { double d = PtSeg(P.v[i], Q.v[j], Q.v[(j + 1) % Q.n]); best = d < best ? d : best; } }
  return best;
}
}
