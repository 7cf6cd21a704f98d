#pragma once
#include "absl/strings/str_cat.h"
#include <array>
namespace absl {
#ifdef INK_SA
template <class... A> [[nodiscard]] std::string Substitute(std::string_view, const A&...) { return std::string(); }
#else
template <class... A> [[nodiscard]] std::string Substitute(std::string_view f, const A&... a) {
  std::array<std::string, sizeof...(A) + 1> v{StrCat(a)...}; std::string o;
  for (size_t i = 0; i < f.size(); ++i) { if (f[i] == '$' && i + 1 < f.size()) { ++i; if (f[i] == '$') o += '$'; else o += v[f[i] - '0']; } else o += f[i]; }
  return o; }
#endif
}
