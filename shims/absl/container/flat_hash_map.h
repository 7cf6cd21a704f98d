#pragma once
#include <initializer_list>
#include <list>
#include <stdexcept>
#include <tuple>
#include <utility>
#include "absl/log/absl_check.h"
namespace absl {
template <class K, class V, class H = void, class E = void> class flat_hash_map {
  std::list<std::pair<const K, V>> l_;
 public:
  using key_type = K; using mapped_type = V; using value_type = std::pair<const K, V>; using iterator = typename std::list<value_type>::iterator; using const_iterator = typename std::list<value_type>::const_iterator;
  flat_hash_map() = default; flat_hash_map(std::initializer_list<value_type> l) { for (auto& x : l) insert(x); }
  template <class It> flat_hash_map(It b, It e) { for (; b != e; ++b) insert(*b); }
  iterator begin() { return l_.begin(); } iterator end() { return l_.end(); } const_iterator begin() const { return l_.begin(); } const_iterator end() const { return l_.end(); }
  size_t size() const { return l_.size(); } bool empty() const { return l_.empty(); } void clear() { l_.clear(); } void reserve(size_t) {}
  template <class Q> iterator find(const Q& q) { for (auto i = l_.begin(); i != l_.end(); ++i) if (i->first == q) return i; return l_.end(); }
  template <class Q> const_iterator find(const Q& q) const { for (auto i = l_.begin(); i != l_.end(); ++i) if (i->first == q) return i; return l_.end(); }
  template <class Q> bool contains(const Q& q) const { return find(q) != end(); }
  template <class Q> size_t count(const Q& q) const { return contains(q); }
  template <class Q> V& at(const Q& q) { auto i = find(q); if (i == end()) INK_SHIM_DIE("flat_hash_map::at"); return i->second; }
  template <class Q> const V& at(const Q& q) const { auto i = find(q); if (i == end()) INK_SHIM_DIE("flat_hash_map::at"); return i->second; }
  std::pair<iterator, bool> insert(value_type v) { auto i = find(v.first); if (i != end()) return {i, false}; l_.push_back(std::move(v)); return {std::prev(l_.end()), true}; }
  template <class Q, class... A> std::pair<iterator, bool> try_emplace(Q&& q, A&&... a) { auto i = find(q); if (i != end()) return {i, false}; l_.emplace_back(std::piecewise_construct, std::forward_as_tuple(std::forward<Q>(q)), std::forward_as_tuple(std::forward<A>(a)...)); return {std::prev(l_.end()), true}; }
  template <class... A> std::pair<iterator, bool> emplace(A&&... a) { return insert(value_type(std::forward<A>(a)...)); }
  template <class Q, class U> std::pair<iterator, bool> insert_or_assign(Q&& q, U&& u) { auto r = try_emplace(std::forward<Q>(q)); r.first->second = std::forward<U>(u); return r; }
  template <class Q> V& operator[](Q&& q) { return try_emplace(std::forward<Q>(q)).first->second; }
  size_t erase(const K& q) { auto i = find(q); if (i == end()) return 0; l_.erase(i); return 1; }
  void erase(iterator i) { l_.erase(i); }
};
}
