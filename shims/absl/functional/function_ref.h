#pragma once
#include <memory>
#include <type_traits>
#include <utility>
namespace absl {
template <class S> class FunctionRef;
template <class R, class... A> class FunctionRef<R(A...)> {
  void* o_; R (*f_)(void*, A...);
 public:
  template <class F> requires (!std::is_same_v<std::remove_cvref_t<F>, FunctionRef> && std::is_invocable_r_v<R, F&, A...> && !std::is_function_v<std::remove_reference_t<F>>)
  FunctionRef(const F& f) : o_(const_cast<void*>(static_cast<const void*>(std::addressof(f)))), f_([](void* o, A... a) -> R { return static_cast<R>((*static_cast<const F*>(o))(std::forward<A>(a)...)); }) {}
  R operator()(A... a) const { return f_(o_, std::forward<A>(a)...); }
};
template <class R, class... A> class FunctionRef<R(A...) const> : public FunctionRef<R(A...)> { using FunctionRef<R(A...)>::FunctionRef; };
}
