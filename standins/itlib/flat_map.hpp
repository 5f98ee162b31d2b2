#pragma once
// stand-in for itlib::flat_map: a sorted container of pairs with unique keys
#include <algorithm>
#include <functional>
#include <initializer_list>
#include <stdexcept>
#include <utility>
#include <vector>
namespace itlib {
template <typename Key, typename T, typename Compare = std::less<>, typename Container = std::vector<std::pair<Key, T>>>
class flat_map {
    Compare m_cmp;
    Container m_c;
public:
    using key_type = Key;
    using mapped_type = T;
    using value_type = std::pair<Key, T>;
    using key_compare = Compare;
    using container_type = Container;
    using size_type = typename Container::size_type;
    using iterator = typename Container::iterator;
    using const_iterator = typename Container::const_iterator;
    using allocator_type = typename Container::allocator_type;
    flat_map() = default;
    explicit flat_map(const Compare& cmp, const allocator_type& a) : m_cmp(cmp), m_c(a) {}
    explicit flat_map(Container c, const Compare& cmp = {}) : m_cmp(cmp), m_c(std::move(c)) {}
    flat_map(std::initializer_list<value_type> il, const allocator_type& a) : m_cmp(), m_c(a) {
        for (auto& v : il) insert(v);
    }
    iterator begin() { return m_c.begin(); }
    iterator end() { return m_c.end(); }
    const_iterator begin() const { return m_c.begin(); }
    const_iterator end() const { return m_c.end(); }
    const_iterator cbegin() const { return m_c.begin(); }
    const_iterator cend() const { return m_c.end(); }
    auto rbegin() { return m_c.rbegin(); }
    auto rend() { return m_c.rend(); }
    auto rbegin() const { return m_c.rbegin(); }
    auto rend() const { return m_c.rend(); }
    bool empty() const { return m_c.empty(); }
    size_type size() const { return m_c.size(); }
    void clear() { m_c.clear(); }
    template <typename K> iterator lower_bound(const K& k) {
        return std::lower_bound(m_c.begin(), m_c.end(), k, [this](const value_type& v, const K& kk) { return m_cmp(v.first, kk); });
    }
    template <typename K> const_iterator lower_bound(const K& k) const {
        return std::lower_bound(m_c.begin(), m_c.end(), k, [this](const value_type& v, const K& kk) { return m_cmp(v.first, kk); });
    }
    template <typename K> iterator find(const K& k) {
        auto i = lower_bound(k);
        if (i != end() && !m_cmp(k, i->first)) return i;
        return end();
    }
    template <typename K> const_iterator find(const K& k) const {
        auto i = lower_bound(k);
        if (i != end() && !m_cmp(k, i->first)) return i;
        return end();
    }
    template <typename K> size_type count(const K& k) const { return find(k) == end() ? 0 : 1; }
    template <typename K> bool contains(const K& k) const { return find(k) != end(); }
    std::pair<iterator, bool> insert(value_type v) {
        auto i = lower_bound(v.first);
        if (i != end() && !m_cmp(v.first, i->first)) return {i, false};
        return {m_c.insert(i, std::move(v)), true};
    }
    template <typename... A> std::pair<iterator, bool> emplace(A&&... a) { return insert(value_type(std::forward<A>(a)...)); }
    template <typename... A> std::pair<iterator, bool> try_emplace(const Key& k, A&&... a) {
        auto i = lower_bound(k);
        if (i != end() && !m_cmp(k, i->first)) return {i, false};
        return {m_c.emplace(i, k, T(std::forward<A>(a)...)), true};
    }
    T& operator[](const Key& k) {
        auto i = lower_bound(k);
        if (i != end() && !m_cmp(k, i->first)) return i->second;
        return m_c.emplace(i, k, T{})->second;
    }
    const T& at(const Key& k) const {
        auto i = find(k);
        if (i == end()) throw std::out_of_range("flat_map::at");
        return i->second;
    }
    T& at(const Key& k) {
        auto i = find(k);
        if (i == end()) throw std::out_of_range("flat_map::at");
        return i->second;
    }
    iterator erase(const_iterator i) { return m_c.erase(i); }
    iterator erase(iterator i) { return m_c.erase(i); }
    iterator erase(const_iterator a, const_iterator b) { return m_c.erase(a, b); }
    template <typename K> size_type erase(const K& k) {
        auto i = find(k);
        if (i == end()) return 0;
        m_c.erase(i);
        return 1;
    }
    const Container& container() const { return m_c; }
};
}
