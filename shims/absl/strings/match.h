#pragma once
#include "absl/strings/ascii.h"
#include "absl/strings/string_view.h"
namespace absl {
inline bool StartsWith(std::string_view s, std::string_view p) { return s.size() >= p.size() && s.substr(0, p.size()) == p; }
inline bool EndsWith(std::string_view s, std::string_view p) { return s.size() >= p.size() && s.substr(s.size() - p.size()) == p; }
inline bool EqualsIgnoreCase(std::string_view s, std::string_view p) { if (s.size() != p.size()) return false; for (size_t i = 0; i < s.size(); ++i) if (ascii_tolower(s[i]) != ascii_tolower(p[i])) return false; return true; }
inline bool StartsWithIgnoreCase(std::string_view s, std::string_view p) { return s.size() >= p.size() && EqualsIgnoreCase(s.substr(0, p.size()), p); }
inline bool StrContains(std::string_view s, std::string_view p) { return s.find(p) != s.npos; }
}
