#pragma once
#include "absl/strings/str_cat.h"
#include <vector>
namespace absl {
#ifdef INK_SA
template <class... A> [[nodiscard]] std::string StrFormat(std::string_view, const A&...) { return std::string(); }
template <class S, class... A> bool Format(S*, std::string_view, const A&...) { return true; }
#else
namespace shim_fmt {
template <class T> std::string One(const std::string& spec, const T& t) {
  char conv = spec.back();
  if constexpr (std::is_floating_point_v<T>) { if (conv != 'v' && conv != 's') { char b[512]; std::snprintf(b, sizeof b, spec.c_str(), (double)t); return b; } }
  if constexpr (std::is_integral_v<T> && !std::is_same_v<T,bool>) { if (conv == 'd' || conv == 'x' || conv == 'X' || conv=='u' || conv=='c') { std::string s = spec; if (conv!='c') s.insert(s.size() - 1, "ll"); char b[128]; if (conv=='c') std::snprintf(b,sizeof b,s.c_str(),(int)t); else std::snprintf(b, sizeof b, s.c_str(), (long long)t); return b; } }
  std::string r; ink_shim::Put(r, t); return r;
}
}
template <class... A> [[nodiscard]] std::string StrFormat(std::string_view f, const A&... a) {
  std::string out; size_t i = 0;
  auto lit = [&]() -> bool { while (i < f.size()) { if (f[i] == '%') { if (i + 1 < f.size() && f[i + 1] == '%') { out += '%'; i += 2; continue; } return true; } out += f[i++]; } return false; };
  auto one = [&](const auto& v) { if (!lit()) return; size_t j = i + 1; while (j < f.size() && !std::isalpha((unsigned char)f[j])) ++j; std::string spec(f.substr(i, j - i + 1)); i = j + 1; out += shim_fmt::One(spec, v); };
  (one(a), ...); lit(); return out; }
template <class S, class... A> bool Format(S* s, std::string_view f, const A&... a) { s->Append(StrFormat(f, a...)); return true; }
#endif
}
