#pragma once
// stand-in for itlib::stride_span: a view of one member of each element of an array
#include <cstddef>
#include <iterator>
#include <type_traits>
namespace itlib {
template <typename T>
class stride_span {
    using byte_t = std::conditional_t<std::is_const_v<T>, const char, char>;
    byte_t* m_p = nullptr;
    size_t m_stride = 0, m_n = 0;
public:
    class iterator {
        byte_t* p; size_t s;
        friend class stride_span;
        iterator(byte_t* pp, size_t ss) : p(pp), s(ss) {}
    public:
        using iterator_category = std::forward_iterator_tag;
        using value_type = std::remove_cv_t<T>;
        using difference_type = ptrdiff_t;
        using pointer = T*;
        using reference = T&;
        iterator() : p(nullptr), s(0) {}
        T& operator*() const { return *reinterpret_cast<T*>(p); }
        T* operator->() const { return reinterpret_cast<T*>(p); }
        iterator& operator++() { p += s; return *this; }
        iterator operator++(int) { auto r = *this; p += s; return r; }
        bool operator==(const iterator& o) const { return p == o.p; }
        bool operator!=(const iterator& o) const { return p != o.p; }
    };
    using const_iterator = iterator;
    using value_type = std::remove_cv_t<T>;
    stride_span() = default;
    stride_span(byte_t* p, size_t stride, size_t n) : m_p(p), m_stride(stride), m_n(n) {}
    size_t size() const { return m_n; }
    bool empty() const { return m_n == 0; }
    size_t stride() const { return m_stride; }
    T& operator[](size_t i) const { return *reinterpret_cast<T*>(m_p + i * m_stride); }
    iterator begin() const { return iterator(m_p, m_stride); }
    iterator end() const { return iterator(m_p + m_stride * m_n, m_stride); }
};
template <typename S, typename M>
stride_span<M> make_stride_span_member_view(S* s, size_t n, M S::*m) {
    return stride_span<M>(reinterpret_cast<char*>(&(s->*m)), sizeof(S), n);
}
template <typename S, typename M>
stride_span<const M> make_stride_span_member_view(const S* s, size_t n, M S::*m) {
    // (s may be null when n is zero)
    if (!s) return {};
    return stride_span<const M>(reinterpret_cast<const char*>(&(s->*m)), sizeof(S), n);
}
}
