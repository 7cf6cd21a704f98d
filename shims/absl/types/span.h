#pragma once
#include <algorithm>
#include <cstddef>
#include <initializer_list>
#include <iterator>
#include <type_traits>
#include <utility>
namespace absl {
template <class T> class Span {
  T* p_ = nullptr; size_t n_ = 0;
  template <class C> using DataT = std::remove_pointer_t<decltype(std::declval<C&>().data())>;
 public:
  using element_type = T; using value_type = std::remove_cv_t<T>; using pointer = T*; using const_pointer = const T*; using reference = T&; using const_reference = const T&; using iterator = T*; using const_iterator = const T*; using reverse_iterator = std::reverse_iterator<iterator>; using const_reverse_iterator = std::reverse_iterator<const_iterator>; using size_type = size_t; using difference_type = ptrdiff_t;
  static constexpr size_t npos = ~(size_t)0;
  constexpr Span() = default;
  constexpr Span(T* p, size_t n) : p_(p), n_(n) {}
  template <size_t N> constexpr Span(T (&a)[N]) : p_(a), n_(N) {}
  template <class V> requires (!std::is_const_v<T> && !std::is_same_v<std::remove_cv_t<V>, Span<T>> && !std::is_array_v<V> && requires(V& v) { { v.data() } -> std::convertible_to<T*>; v.size(); } && std::is_same_v<std::remove_cv_t<DataT<V>>, std::remove_cv_t<T>>)
  constexpr explicit Span(V& v) : p_(v.data()), n_(v.size()) {}
  template <class V> requires (std::is_const_v<T> && !std::is_same_v<V, Span<T>> && !std::is_array_v<V> && requires(const V& v) { { v.data() } -> std::convertible_to<T*>; v.size(); } && std::is_same_v<std::remove_cv_t<DataT<const V>>, std::remove_cv_t<T>>)
  constexpr Span(const V& v) : p_(v.data()), n_(v.size()) {}
  template <class L = T> requires (std::is_const_v<L>)
  constexpr Span(std::initializer_list<value_type> l) : p_(l.begin()), n_(l.size()) {}
  constexpr T* data() const { return p_; }
  constexpr size_t size() const { return n_; }
  constexpr size_t length() const { return n_; }
  constexpr bool empty() const { return n_ == 0; }
  constexpr T& operator[](size_t i) const { return p_[i]; }
  constexpr T& at(size_t i) const { return p_[i]; }
  constexpr T& front() const { return p_[0]; }
  constexpr T& back() const { return p_[n_ - 1]; }
  constexpr iterator begin() const { return p_; }
  constexpr iterator end() const { return p_ + n_; }
  constexpr const_iterator cbegin() const { return p_; }
  constexpr const_iterator cend() const { return p_ + n_; }
  constexpr reverse_iterator rbegin() const { return reverse_iterator(end()); }
  constexpr reverse_iterator rend() const { return reverse_iterator(begin()); }
  constexpr void remove_prefix(size_t n) { p_ += n; n_ -= n; }
  constexpr void remove_suffix(size_t n) { n_ -= n; }
  constexpr Span subspan(size_t pos = 0, size_t len = npos) const { return Span(p_ + pos, std::min(n_ - pos, len)); }
  constexpr Span first(size_t n) const { return Span(p_, n); }
  constexpr Span last(size_t n) const { return Span(p_ + (n_ - n), n); }
  template <class H> friend H AbslHashValue(H h, Span s) { for (auto& x : s) h = H::combine(std::move(h), x); return H::combine(std::move(h), s.size()); }
  friend constexpr bool operator==(Span a, Span b) { return std::equal(a.begin(), a.end(), b.begin(), b.end()); }
  template <class V> requires (std::is_convertible_v<const V&, Span<const T>> && !std::is_same_v<V, Span<T>> && !std::is_same_v<V, Span<const T>>)
  friend bool operator==(Span a, const V& v) { Span<const T> b(v); return std::equal(a.begin(), a.end(), b.begin(), b.end()); }
};
template <class T> constexpr Span<T> MakeSpan(T* p, size_t n) { return Span<T>(p, n); }
template <class T> constexpr Span<T> MakeSpan(T* b, T* e) { return Span<T>(b, e - b); }
template <class C> requires (requires(C& c) { c.data(); c.size(); })
constexpr auto MakeSpan(C& c) { return Span<std::remove_pointer_t<decltype(c.data())>>(c.data(), c.size()); }
template <class T, size_t N> constexpr Span<T> MakeSpan(T (&a)[N]) { return Span<T>(a, N); }
template <class T> constexpr Span<const T> MakeConstSpan(T* p, size_t n) { return Span<const T>(p, n); }
template <class T> constexpr Span<const T> MakeConstSpan(T* b, T* e) { return Span<const T>(b, e - b); }
template <class C> requires (requires(const C& c) { c.data(); c.size(); })
constexpr auto MakeConstSpan(const C& c) { return Span<const std::remove_cv_t<std::remove_pointer_t<decltype(c.data())>>>(c.data(), c.size()); }
template <class T, size_t N> constexpr Span<const T> MakeConstSpan(const T (&a)[N]) { return Span<const T>(a, N); }
}
