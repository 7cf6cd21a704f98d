#pragma once
#include <initializer_list>
#include <list>
#include <utility>
namespace absl {
template <class K, class H = void, class E = void> class flat_hash_set {
  std::list<K> l_;
 public:
  using value_type = K; using const_iterator = typename std::list<K>::const_iterator; using iterator = const_iterator;
  flat_hash_set() = default; flat_hash_set(std::initializer_list<K> l) { for (auto& x : l) insert(x); }
  template <class It> flat_hash_set(It b, It e) { for (; b != e; ++b) insert(*b); }
  const_iterator begin() const { return l_.begin(); } const_iterator end() const { return l_.end(); }
  size_t size() const { return l_.size(); } bool empty() const { return l_.empty(); } void clear() { l_.clear(); } void reserve(size_t) {}
  template <class Q> const_iterator find(const Q& q) const { for (auto i = l_.begin(); i != l_.end(); ++i) if (*i == q) return i; return l_.end(); }
  template <class Q> bool contains(const Q& q) const { return find(q) != end(); }
  template <class Q> size_t count(const Q& q) const { return contains(q); }
  const_iterator insert(const_iterator, K v) { return insert(std::move(v)).first; }
  std::pair<const_iterator, bool> insert(K v) { auto i = find(v); if (i != end()) return {i, false}; l_.push_back(std::move(v)); return {std::prev(l_.end()), true}; }
  template <class It> requires (!std::is_same_v<It, const_iterator> || true) void insert_range(It b, It e) { for (; b != e; ++b) insert(*b); }
  template <class... A> std::pair<const_iterator, bool> emplace(A&&... a) { return insert(K(std::forward<A>(a)...)); }
  size_t erase(const K& q) { auto i = find(q); if (i == end()) return 0; l_.erase(i); return 1; }
};
}
