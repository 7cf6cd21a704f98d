#pragma once
#include <algorithm>
#include <iterator>
#include <numeric>
#include <utility>
namespace absl {
template <class C, class O> O c_copy(const C& c, O o) { return std::copy(std::begin(c), std::end(c), o); }
template <class C, class P> bool c_all_of(const C& c, P p) { return std::all_of(std::begin(c), std::end(c), p); }
template <class C, class P> bool c_any_of(const C& c, P p) { return std::any_of(std::begin(c), std::end(c), p); }
template <class C, class P> bool c_none_of(const C& c, P p) { return std::none_of(std::begin(c), std::end(c), p); }
template <class C> void c_sort(C& c) { std::sort(std::begin(c), std::end(c)); }
template <class C, class F> void c_sort(C& c, F f) { std::sort(std::begin(c), std::end(c), f); }
template <class C, class P> auto c_find_if(C&& c, P p) { return std::find_if(std::begin(c), std::end(c), p); }
template <class C, class P> auto c_find(C&& c, const P& p) { return std::find(std::begin(c), std::end(c), p); }
template <class C, class P> bool c_linear_search(C&& c, const P& p) { return std::find(std::begin(c), std::end(c), p) != std::end(c); }
template <class A, class B> bool c_equal(A&& a, B&& b) { return std::equal(std::begin(a), std::end(a), std::begin(b), std::end(b)); }
template <class A, class B, class F> bool c_equal(A&& a, B&& b, F f) { return std::equal(std::begin(a), std::end(a), std::begin(b), std::end(b), f); }
template <class C, class P> auto c_count_if(const C& c, P p) { return std::count_if(std::begin(c), std::end(c), p); }
template <class C, class P> auto c_count(const C& c, const P& p) { return std::count(std::begin(c), std::end(c), p); }
template <class C, class O, class F> O c_transform(const C& c, O o, F f) { return std::transform(std::begin(c), std::end(c), o, f); }
template <class C> void c_reverse(C& c) { std::reverse(std::begin(c), std::end(c)); }
template <class C> auto c_minmax_element(C& c) { return std::minmax_element(std::begin(c), std::end(c)); }
template <class C, class F> auto c_minmax_element(C& c, F f) { return std::minmax_element(std::begin(c), std::end(c), f); }
template <class C> auto c_max_element(C& c) { return std::max_element(std::begin(c), std::end(c)); }
template <class C, class F> auto c_max_element(C& c, F f) { return std::max_element(std::begin(c), std::end(c), f); }
template <class C> auto c_min_element(C& c) { return std::min_element(std::begin(c), std::end(c)); }
template <class C, class F> auto c_min_element(C& c, F f) { return std::min_element(std::begin(c), std::end(c), f); }
template <class C, class T> void c_iota(C& c, T v) { std::iota(std::begin(c), std::end(c), v); }
template <class C, class F> auto c_generate(C& c, F f) { std::generate(std::begin(c), std::end(c), f); return std::end(c); }
template <class C, class T> void c_fill(C& c, const T& v) { std::fill(std::begin(c), std::end(c), v); }
template <class C> auto c_distance(const C& c) { return std::distance(std::begin(c), std::end(c)); }
template <class C, class T> T c_accumulate(const C& c, T t) { return std::accumulate(std::begin(c), std::end(c), std::move(t)); }
template <class C, class T, class F> T c_accumulate(const C& c, T t, F f) { return std::accumulate(std::begin(c), std::end(c), std::move(t), f); }
template <class C, class F> F c_for_each(C&& c, F f) { return std::for_each(std::begin(c), std::end(c), f); }
}
