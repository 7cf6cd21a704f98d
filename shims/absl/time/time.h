#pragma once
#include <limits>
#include <string>
namespace absl {
class Duration { double s_ = 0; public: constexpr Duration() = default; constexpr explicit Duration(double s, int) : s_(s) {} constexpr double raw() const { return s_; }
  friend constexpr bool operator==(Duration a, Duration b) { return a.s_ == b.s_; } friend constexpr bool operator<(Duration a, Duration b) { return a.s_ < b.s_; }
  friend constexpr Duration operator-(Duration a) { return Duration(-a.s_, 0); } };
// whole seconds of abseil's durations are 64 bits; what does not fit is infinite
template <class T> constexpr Duration Seconds(T t) { double s = (double)t; return Duration(s >= 9223372036854775808. ? std::numeric_limits<double>::infinity() : s < -9223372036854775808. ? -std::numeric_limits<double>::infinity() : s, 0); }
template <class T> constexpr Duration Milliseconds(T t) { return Duration((double)t / 1000, 0); }
constexpr Duration InfiniteDuration() { return Duration(std::numeric_limits<double>::infinity(), 0); }
inline double ToDoubleSeconds(Duration d) { return d.raw(); }
namespace ink_shim_time { inline int formatted = 0; inline double last = 0; }
inline std::string FormatDuration(Duration d) {
#ifdef INK_SA
 ++ink_shim_time::formatted; ink_shim_time::last = d.raw(); return std::string();
#else
 return std::to_string(d.raw()) + "s";
#endif
}
}
