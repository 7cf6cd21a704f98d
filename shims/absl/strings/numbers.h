#pragma once
#include "absl/strings/string_view.h"
namespace absl {
template <class I> bool SimpleAtoi(std::string_view s, I* out) {
  size_t i = 0; while (i < s.size() && (s[i] == ' ' || (s[i] >= 9 && s[i] <= 13))) ++i;
  size_t e = s.size(); while (e > i && (s[e-1] == ' ' || (s[e-1] >= 9 && s[e-1] <= 13))) --e;
  bool neg = false; if (i < e && (s[i] == '-' || s[i] == '+')) { neg = s[i] == '-'; ++i; }
  if (i >= e) return false;
  I v = 0; for (; i < e; ++i) { if (s[i] < '0' || s[i] > '9') return false; I d = s[i] - '0';
    if (!neg) { if (__builtin_mul_overflow(v, (I)10, &v) || __builtin_add_overflow(v, d, &v)) return false; }
    else { if (__builtin_mul_overflow(v, (I)10, &v) || __builtin_sub_overflow(v, d, &v)) return false; } }
  *out = v; return true; }
}
