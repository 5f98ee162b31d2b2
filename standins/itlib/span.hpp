#pragma once
// stand-in for itlib::span: a non-owning [begin, end) view
#include <array>
#include <cassert>
#include <cstddef>
#include <iterator>
#include <type_traits>
namespace itlib {
inline constexpr size_t dynamic_extent = size_t(-1);
template <typename T, size_t E = dynamic_extent>
class span;
namespace span_impl {
template <typename C> struct is_span : std::false_type {};
template <typename T, size_t E> struct is_span<span<T, E>> : std::true_type {};
}
template <typename T, size_t E>
class span {
    T* m_begin;
    T* m_end;
public:
    using element_type = T;
    using value_type = std::remove_cv_t<T>;
    using size_type = size_t;
    using difference_type = ptrdiff_t;
    using reference = T&;
    using const_reference = T&;
    using pointer = T*;
    using const_pointer = T*;
    using iterator = T*;
    using const_iterator = T*;
    using reverse_iterator = std::reverse_iterator<iterator>;
    using const_reverse_iterator = std::reverse_iterator<iterator>;

    constexpr span() noexcept : m_begin(nullptr), m_end(nullptr) {}
    constexpr span(std::nullptr_t) noexcept : m_begin(nullptr), m_end(nullptr) {}
    constexpr span(T* p, size_t n) noexcept : m_begin(p), m_end(p + n) {}
    constexpr span(T* b, T* e) noexcept : m_begin(b), m_end(e) {}
    template <size_t N>
    constexpr span(T (&ar)[N]) noexcept : m_begin(ar), m_end(ar + N) {}
    constexpr span(const span&) noexcept = default;
    constexpr span& operator=(const span&) noexcept = default;

    // from containers and from spans of a (less const) same type
    template <typename C, typename D = std::remove_reference_t<decltype(*std::declval<C&>().data())>,
        typename = decltype(std::declval<C&>().size()),
        typename = std::enable_if_t<std::is_convertible_v<D(*)[], T(*)[]>>>
    constexpr span(C& c) noexcept : m_begin(c.data()), m_end(c.data() + c.size()) {}
    template <typename C, typename D = std::remove_reference_t<decltype(*std::declval<const C&>().data())>,
        typename = decltype(std::declval<const C&>().size()),
        typename = std::enable_if_t<std::is_convertible_v<D(*)[], T(*)[]>>, typename = void>
    constexpr span(const C& c) noexcept : m_begin(c.data()), m_end(c.data() + c.size()) {}

    constexpr T* data() const noexcept { return m_begin; }
    constexpr size_t size() const noexcept { return size_t(m_end - m_begin); }
    constexpr size_t size_bytes() const noexcept { return size() * sizeof(T); }
    constexpr bool empty() const noexcept { return m_begin == m_end; }
    constexpr explicit operator bool() const noexcept { return !!m_begin; }
    constexpr T& operator[](size_t i) const { return m_begin[i]; }
    constexpr T& at(size_t i) const { return m_begin[i]; }
    constexpr T& front() const { return *m_begin; }
    constexpr T& back() const { return *(m_end - 1); }
    constexpr iterator begin() const noexcept { return m_begin; }
    constexpr iterator end() const noexcept { return m_end; }
    constexpr iterator cbegin() const noexcept { return m_begin; }
    constexpr iterator cend() const noexcept { return m_end; }
    constexpr reverse_iterator rbegin() const noexcept { return reverse_iterator(m_end); }
    constexpr reverse_iterator rend() const noexcept { return reverse_iterator(m_begin); }
    constexpr span subspan(size_t off, size_t n = dynamic_extent) const {
        return n == dynamic_extent ? span(m_begin + off, m_end) : span(m_begin + off, n);
    }
    constexpr span first(size_t n) const { return span(m_begin, n); }
    constexpr span last(size_t n) const { return span(m_end - n, n); }
    constexpr void remove_prefix(size_t n) { m_begin += n; }
    constexpr void remove_suffix(size_t n) { m_end -= n; }
    constexpr span<const T> as_const() const noexcept { return {m_begin, m_end}; }
};
template <typename T> span(T*, size_t) -> span<T>;
template <typename T> span(T*, T*) -> span<T>;
template <typename T, size_t N> span(T (&)[N]) -> span<T>;
template <typename C> span(C& c) -> span<std::remove_reference_t<decltype(*c.data())>>;
template <typename C> span(const C& c) -> span<std::remove_reference_t<decltype(*c.data())>>;
template <typename T> constexpr span<T> make_span(T* p, size_t n) { return span<T>(p, n); }
template <typename T> constexpr span<T> make_span(T* b, T* e) { return span<T>(b, e); }
template <typename C> constexpr auto make_span(C& c) { return span<std::remove_reference_t<decltype(*c.data())>>(c.data(), c.size()); }
}
