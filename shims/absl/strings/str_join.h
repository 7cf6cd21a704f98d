#pragma once
#include "absl/strings/str_cat.h"
namespace absl {
template <class R, class F> requires requires(const R& r) { r.begin(); } || std::is_array_v<R>
std::string StrJoin(const R& r, std::string_view sep, F f) { std::string o;
#ifndef INK_SA
  bool first = true; for (const auto& x : r) { if (!first) o.append(sep); first = false; f(&o, x); }
#endif
  return o; }
template <class R> std::string StrJoin(const R& r, std::string_view sep) { return StrJoin(r, sep, [](std::string* o, const auto& x) { StrAppend(o, x); }); }
template <class It> requires requires(It a, It b) { *a; ++a; a != b; } && (!requires(It a) { a.begin(); })
std::string StrJoin(It b, It e, std::string_view sep) { std::string o;
#ifndef INK_SA
  for (It i = b; i != e; ++i) { if (i != b) o.append(sep); StrAppend(&o, *i); }
#endif
  return o; }
}
