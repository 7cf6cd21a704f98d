#pragma once
#include <array>
#include <cstring>
#include <optional>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#include "specs/ai.h"
// obligation: p and q agree (splits on p)
#define IFF(p, q, id) do { if (p) ai_assert((q), id); else ai_assert(ai_not(q), id); } while (0)
#define IMPLIES(p, q, id) do { if (p) ai_assert((q), id); } while (0)
inline constexpr double kInf = std::numeric_limits<double>::infinity();
inline constexpr float kFMax = std::numeric_limits<float>::max();
inline constexpr double kPiF = 3.14159274101257324219;   // float pi, as a double
inline constexpr double kTwoPiF = 6.28318548202514648438;
inline float Fin(const char* n) { return ai_f32_in(-kFMax, kFMax, n); }
inline float NonNan(const char* n) { return ai_f32_in(-kInf, kInf, n); }
inline bool In(double v, double lo, double hi) { return ai_and(ai_fle(lo, v), ai_fle(v, hi)); }
// A hasher that records what it is fed; equal inputs must record equal sequences.
struct NoHash {}; void AbslHashValue(NoHash);
template <class T> struct IsOpt : std::false_type {}; template <class T> struct IsOpt<std::optional<T>> : std::true_type {};
template <class T> struct IsVec : std::false_type {}; template <class T> struct IsVec<std::vector<T>> : std::true_type {}; template <class T, size_t N> struct IsVec<std::array<T, N>> : std::true_type {};
struct RecordingHash {
  int n = 0; double f[256];
  template <class T> void One(const T& v) { if constexpr (std::is_convertible_v<const T&, std::string_view>) { std::string_view s(v); f[n++] = double(s.size()); for (char c : s) f[n++] = c; } else if constexpr (IsOpt<T>::value) { f[n++] = v.has_value(); if (v.has_value()) One(*v); } else if constexpr (IsVec<T>::value) { f[n++] = double(v.size()); for (auto& x : v) One(x); } else if constexpr (std::is_arithmetic_v<T>) f[n++] = static_cast<double>(v); else if constexpr (std::is_enum_v<T>) f[n++] = static_cast<double>(static_cast<long>(v)); else if constexpr (std::is_pointer_v<T>) f[n++] = static_cast<double>(reinterpret_cast<uintptr_t>(v)); else *this = AbslHashValue(std::move(*this), v); }
  template <class... A> static RecordingHash combine(RecordingHash h, const A&... a) { (h.One(a), ...); return h; }
  template <class It> static RecordingHash combine_contiguous(RecordingHash h, It p, size_t k) { for (size_t i = 0; i < k; ++i) h.One(p[i]); return h; }
};
template <class X> RecordingHash HashOf(const X& x) { return AbslHashValue(RecordingHash(), x); }
template <class X> void SameHash(const X& a, const X& b, const char* id) {
  RecordingHash p = HashOf(a), q = HashOf(b);
  ai_assert(p.n == q.n, id);
  for (int i = 0; i < p.n; ++i) ai_assert(ai_feq(p.f[i], q.f[i]), id);
}
