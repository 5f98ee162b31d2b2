#pragma once
// stand-in for itlib qalgorithm: range versions of std algorithms
#include <algorithm>
#include <cassert>
#include <iterator>
#include <utility>
namespace itlib {
template <typename R, typename V> auto qfind(R&& r, const V& v) { return std::find(std::begin(r), std::end(r), v); }
template <typename R, typename P> auto qfind_if(R&& r, P&& p) { return std::find_if(std::begin(r), std::end(r), std::forward<P>(p)); }
// pointer to the found element or null
template <typename R, typename V> auto pfind(R&& r, const V& v) -> decltype(&*std::begin(r)) {
    auto e = std::end(r);
    auto i = std::find(std::begin(r), e, v);
    if (i == e) return nullptr;
    return &*i;
}
template <typename R, typename P> auto pfind_if(R&& r, P&& p) -> decltype(&*std::begin(r)) {
    auto e = std::end(r);
    auto i = std::find_if(std::begin(r), e, std::forward<P>(p));
    if (i == e) return nullptr;
    return &*i;
}
template <typename R, typename P> bool qall_of(R&& r, P&& p) { return std::all_of(std::begin(r), std::end(r), std::forward<P>(p)); }
template <typename R, typename P> bool qany_of(R&& r, P&& p) { return std::any_of(std::begin(r), std::end(r), std::forward<P>(p)); }
template <typename R, typename P> bool qnone_of(R&& r, P&& p) { return std::none_of(std::begin(r), std::end(r), std::forward<P>(p)); }
template <typename R, typename V> bool qcontains(R&& r, const V& v) { return std::find(std::begin(r), std::end(r), v) != std::end(r); }
template <typename R, typename F> F qfor_each(R&& r, F f) { return std::for_each(std::begin(r), std::end(r), std::move(f)); }
template <typename C, typename V> bool erase_first(C& c, const V& v) {
    auto i = std::find(std::begin(c), std::end(c), v);
    if (i == std::end(c)) return false;
    c.erase(i);
    return true;
}
template <typename C, typename P> bool erase_first_if(C& c, P p) {
    auto i = std::find_if(std::begin(c), std::end(c), p);
    if (i == std::end(c)) return false;
    c.erase(i);
    return true;
}
template <typename C, typename V> typename C::size_type erase_all(C& c, const V& v) {
    auto i = std::remove(c.begin(), c.end(), v);
    auto ret = typename C::size_type(c.end() - i);
    c.erase(i, c.end());
    return ret;
}
template <typename C, typename P> typename C::size_type erase_all_if(C& c, P p) {
    auto i = std::remove_if(c.begin(), c.end(), p);
    auto ret = typename C::size_type(c.end() - i);
    c.erase(i, c.end());
    return ret;
}
template <typename C> typename C::iterator unstable_erase(C& c, typename C::iterator p) {
    auto last = c.end() - 1;
    if (p == last) { c.pop_back(); return c.end(); }
    *p = std::move(*last);
    c.pop_back();
    return p;
}
}
