#pragma once
#include <algorithm>
#include <cstddef>
#include <initializer_list>
#include <iterator>
#include <memory>
#include <new>
#include <utility>
#include <vector>
namespace absl {
// As in abseil: up to N elements live inside the object, so moving the object moves those elements; a larger buffer is handed over whole.
template <class T, size_t N, class A = std::allocator<T>> class InlinedVector {
  struct Allocated { T* p; size_t cap; };
  static constexpr size_t kInline = sizeof(Allocated) / sizeof(T) > N ? sizeof(Allocated) / sizeof(T) : N;
  size_t meta_ = 0;   // twice the size, plus one when the elements live in an allocated buffer
  union { Allocated out_; alignas(T) unsigned char in_[sizeof(T) * kInline]; };
  bool Out() const { return (meta_ & 1) != 0; }
  void SetSize(size_t n) { meta_ = 2 * n + (meta_ & 1); }
  T* Buf() { return Out() ? out_.p : reinterpret_cast<T*>(in_); }
  const T* Buf() const { return Out() ? out_.p : reinterpret_cast<const T*>(in_); }
  void Drop() { clear(); if (Out()) { ::operator delete(static_cast<void*>(out_.p)); meta_ = 0; } }
  void Take(InlinedVector& o) {
    if (o.Out()) { out_ = o.out_; meta_ = o.meta_; o.meta_ = 0; return; }
    T* d = reinterpret_cast<T*>(in_); T* s = o.Buf(); size_t n = o.size(); for (size_t i = 0; i < n; ++i) ::new (static_cast<void*>(d + i)) T(std::move(s[i])); meta_ = 2 * n; o.clear();
  }
  void Grow(size_t want) {
    size_t c = 2 * capacity(); if (c < want) c = want; T* n = static_cast<T*>(::operator new(c * sizeof(T))); T* b = Buf(); size_t k = size();
    for (size_t i = 0; i < k; ++i) { ::new (static_cast<void*>(n + i)) T(std::move(b[i])); b[i].~T(); }
    if (Out()) ::operator delete(static_cast<void*>(out_.p)); out_.p = n; out_.cap = c; meta_ = 2 * k + 1;
  }
 public:
  using value_type = T; using iterator = T*; using const_iterator = const T*; using reference = T&; using const_reference = const T&; using size_type = size_t; using difference_type = ptrdiff_t; using pointer = T*; using const_pointer = const T*; using reverse_iterator = std::reverse_iterator<T*>; using const_reverse_iterator = std::reverse_iterator<const T*>;
  InlinedVector() {}
  explicit InlinedVector(size_t n) { resize(n); }
  InlinedVector(size_t n, const T& v) { resize(n, v); }
  InlinedVector(std::initializer_list<T> l) { reserve(l.size()); for (const T& x : l) push_back(x); }
  template <class It, class = typename std::iterator_traits<It>::iterator_category> InlinedVector(It f, It l) { for (; f != l; ++f) emplace_back(*f); }
  InlinedVector(const InlinedVector& o) { reserve(o.size()); for (const T& x : o) push_back(x); }
  InlinedVector(InlinedVector&& o) { Take(o); }
  ~InlinedVector() { Drop(); }
  InlinedVector& operator=(const InlinedVector& o) { if (this != &o) { clear(); reserve(o.size()); for (const T& x : o) push_back(x); } return *this; }
  InlinedVector& operator=(InlinedVector&& o) { if (this != &o) { Drop(); Take(o); } return *this; }
  InlinedVector& operator=(std::initializer_list<T> l) { clear(); for (const T& x : l) push_back(x); return *this; }
  T* data() { return Buf(); } const T* data() const { return Buf(); }
  T* begin() { return Buf(); } T* end() { return Buf() + size(); } const T* begin() const { return Buf(); } const T* end() const { return Buf() + size(); } const T* cbegin() const { return Buf(); } const T* cend() const { return Buf() + size(); }
  reverse_iterator rbegin() { return reverse_iterator(end()); } reverse_iterator rend() { return reverse_iterator(begin()); } const_reverse_iterator rbegin() const { return const_reverse_iterator(end()); } const_reverse_iterator rend() const { return const_reverse_iterator(begin()); }
  size_t size() const { return meta_ >> 1; } bool empty() const { return (meta_ >> 1) == 0; } size_t capacity() const { return Out() ? out_.cap : kInline; }
  T& operator[](size_t i) { return Buf()[i]; } const T& operator[](size_t i) const { return Buf()[i]; } T& at(size_t i) { if (i >= size()) __builtin_trap(); return Buf()[i]; } const T& at(size_t i) const { if (i >= size()) __builtin_trap(); return Buf()[i]; }
  T& front() { return Buf()[0]; } const T& front() const { return Buf()[0]; } T& back() { return Buf()[size() - 1]; } const T& back() const { return Buf()[size() - 1]; }
  void reserve(size_t n) { if (n > capacity()) Grow(n); }
  template <class... X> T& emplace_back(X&&... x) {
    size_t n = size(); if (n == capacity()) { T t(std::forward<X>(x)...); Grow(n + 1); T* p = ::new (static_cast<void*>(Buf() + n)) T(std::move(t)); SetSize(n + 1); return *p; }
    T* p = ::new (static_cast<void*>(Buf() + n)) T(std::forward<X>(x)...); SetSize(n + 1); return *p;
  }
  void push_back(const T& v) { emplace_back(v); } void push_back(T&& v) { emplace_back(std::move(v)); }
  void pop_back() { size_t n = size() - 1; SetSize(n); Buf()[n].~T(); }
  void clear() { T* b = Buf(); size_t n = size(); for (size_t i = 0; i < n; ++i) b[i].~T(); SetSize(0); }
  void resize(size_t n) { while (size() > n) pop_back(); reserve(n); while (size() < n) { ::new (static_cast<void*>(Buf() + size())) T(); SetSize(size() + 1); } }
  void resize(size_t n, const T& v) { while (size() > n) pop_back(); reserve(n); while (size() < n) { ::new (static_cast<void*>(Buf() + size())) T(v); SetSize(size() + 1); } }
  void assign(size_t n, const T& v) { clear(); resize(n, v); }
  template <class It, class = typename std::iterator_traits<It>::iterator_category> void assign(It f, It l) { clear(); for (; f != l; ++f) emplace_back(*f); }
  iterator insert(const_iterator p, const T& v) { size_t k = p - begin(); emplace_back(v); std::rotate(begin() + k, end() - 1, end()); return begin() + k; }
  template <class It, class = typename std::iterator_traits<It>::iterator_category> iterator insert(const_iterator p, It f, It l) { size_t k = p - begin(), n = size(); for (; f != l; ++f) emplace_back(*f); std::rotate(begin() + k, begin() + n, end()); return begin() + k; }
  iterator erase(const_iterator p) { return erase(p, p + 1); }
  iterator erase(const_iterator f, const_iterator l) { iterator a = begin() + (f - begin()); iterator b = begin() + (l - begin()); std::move(b, end(), a); size_t n = l - f; for (size_t i = 0; i < n; ++i) pop_back(); return a; }
  void shrink_to_fit() {}
  void swap(InlinedVector& o) { InlinedVector t(std::move(o)); o = std::move(*this); *this = std::move(t); }
  friend bool operator==(const InlinedVector& a, const InlinedVector& b) { return std::equal(a.begin(), a.end(), b.begin(), b.end()); }
  friend bool operator!=(const InlinedVector& a, const InlinedVector& b) { return !(a == b); }
  template <class H> friend H AbslHashValue(H h, const InlinedVector& v) { for (auto& x : v) h = H::combine(std::move(h), x); return H::combine(std::move(h), v.size()); }
};
}
