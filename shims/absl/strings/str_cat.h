#pragma once
#include <cstdio>
#include <sstream>
#include <string>
#include <string_view>
#include <type_traits>
#include "absl/strings/string_view.h"
namespace ink_shim {
struct Sink { std::string s; void Append(std::string_view v) { s.append(v); } void Append(size_t n, char c) { s.append(n, c); }
  friend void AbslFormatFlush(Sink* k, std::string_view v) { k->Append(v); } };
template <class T> concept Stringifiable = requires(Sink& k, const T& t) { AbslStringify(k, t); };
template <class T> concept ViewLike = std::is_convertible_v<const T&, std::string_view>;
#ifdef INK_SA
template <class T> void Put(std::string& out, const T& t) { if constexpr (ViewLike<T>) out.append(std::string_view(t)); else if constexpr (Stringifiable<T>) { Sink k; AbslStringify(k, t); out.append(k.s); }
  else if constexpr (std::is_integral_v<T> && !std::is_same_v<T, bool>) { char b[24]; int n = 24; bool neg = t < 0; unsigned long long u = neg ? 0ull - (unsigned long long)t : (unsigned long long)t; do { b[--n] = char('0' + u % 10); u /= 10; } while (u); if (neg) b[--n] = '-'; out.append(b + n, 24 - n); } }
#else
template <class T> void Put(std::string& out, const T& t) {
  if constexpr (ViewLike<T>) out.append(std::string_view(t));
  else if constexpr (Stringifiable<T>) { Sink k; AbslStringify(k, t); out.append(k.s); }
  else if constexpr (std::is_same_v<T, bool>) out.append(t ? "1" : "0");
  else if constexpr (std::is_same_v<T, char>) out.push_back(t);
  else if constexpr (std::is_enum_v<T>) out.append(std::to_string(static_cast<long long>(t)));
  else if constexpr (std::is_floating_point_v<T>) { char b[64]; std::snprintf(b, sizeof b, "%g", (double)t); out.append(b); }
  else if constexpr (std::is_arithmetic_v<T>) out.append(std::to_string(t));
  else { std::ostringstream o; o << t; out.append(o.str()); }
}
#endif
}
namespace absl {
using AlphaNum = std::string_view;
template <class... A> [[nodiscard]] std::string StrCat(const A&... a) {
  std::string r;
#ifdef INK_SA
  if constexpr ((ink_shim::ViewLike<A> && ...)) { (r.append(std::string_view(a)), ...); }
#else
  (ink_shim::Put(r, a), ...);
#endif
  return r; }
template <class... A> void StrAppend(std::string* d, const A&... a) {
  (ink_shim::Put(*d, a), ...);
}
}
