#pragma once
#include <utility>
namespace absl { template <class F> class Cleanup { F f_; bool e_ = true; public: Cleanup(F f) : f_(std::move(f)) {} Cleanup(const Cleanup&) = delete; void Cancel() && { e_ = false; } void Invoke() && { e_ = false; f_(); } ~Cleanup() { if (e_) f_(); } }; template <class F> Cleanup(F) -> Cleanup<F>; template <class F> Cleanup<F> MakeCleanup(F f) { return Cleanup<F>(std::move(f)); } }
