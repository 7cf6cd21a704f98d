#pragma once
#include <optional>
#include <type_traits>
#include <utility>
#include "absl/log/absl_check.h"
#include "absl/status/status.h"
namespace absl {
template <class T> class [[nodiscard]] StatusOr {
  Status s_; std::optional<T> v_;
  void E() const { if (!v_.has_value()) INK_SHIM_DIE("StatusOr has no value"); }
 public:
  using value_type = T;
  StatusOr() : s_(StatusCode::kUnknown, "") {}
  StatusOr(const Status& s) : s_(s) { if (s_.ok()) INK_SHIM_DIE("OK status in StatusOr"); }
  StatusOr(Status&& s) : s_(std::move(s)) { if (s_.ok()) INK_SHIM_DIE("OK status in StatusOr"); }
  template <class U = T> requires (std::is_constructible_v<T, U&&> && std::is_convertible_v<U&&, T> && !std::is_same_v<std::remove_cvref_t<U>, StatusOr<T>> && !std::is_same_v<std::remove_cvref_t<U>, Status>)
  StatusOr(U&& u) : v_(std::forward<U>(u)) {}
  template <class U> requires (!std::is_same_v<U, T> && std::is_constructible_v<T, const U&>)
  StatusOr(const StatusOr<U>& o) : s_(o.status()) { if (o.ok()) v_.emplace(*o); }
  template <class U> requires (!std::is_same_v<U, T> && std::is_constructible_v<T, U&&>)
  StatusOr(StatusOr<U>&& o) : s_(o.status()) { if (o.ok()) v_.emplace(*std::move(o)); }
  StatusOr(const StatusOr&) = default; StatusOr(StatusOr&&) = default;
  StatusOr& operator=(const StatusOr&) = default; StatusOr& operator=(StatusOr&&) = default;
  bool ok() const { return v_.has_value(); }
  const Status& status() const& { return s_; }
  Status status() && { return std::move(s_); }
  const T& value() const& { E(); return *v_; }
  T& value() & { E(); return *v_; }
  T&& value() && { E(); return *std::move(v_); }
  const T& operator*() const& { E(); return *v_; }
  T& operator*() & { E(); return *v_; }
  T&& operator*() && { E(); return *std::move(v_); }
  const T&& operator*() const&& { E(); return *std::move(v_); }
  const T* operator->() const { E(); return &*v_; }
  T* operator->() { E(); return &*v_; }
  template <class U> T value_or(U&& u) const& { return v_.has_value() ? *v_ : static_cast<T>(std::forward<U>(u)); }
  template <class... A> T& emplace(A&&... a) { s_ = Status(); return v_.emplace(std::forward<A>(a)...); }
  void IgnoreError() const {}
};
}
