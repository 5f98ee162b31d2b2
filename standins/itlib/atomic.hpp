#pragma once
// stand-in for itlib atomic_relaxed_counter: an atomic integer used with relaxed ordering
#include <atomic>
namespace itlib {
template <typename I>
class atomic_relaxed_counter {
    std::atomic<I> m_v;
public:
    atomic_relaxed_counter() noexcept : m_v{} {}
    atomic_relaxed_counter(I v) noexcept : m_v(v) {}
    atomic_relaxed_counter(const atomic_relaxed_counter&) = delete;
    atomic_relaxed_counter& operator=(const atomic_relaxed_counter&) = delete;
    I operator=(I v) noexcept { m_v.store(v, std::memory_order_relaxed); return v; }
    I operator++() noexcept { return m_v.fetch_add(1, std::memory_order_relaxed) + 1; }
    I operator++(int) noexcept { return m_v.fetch_add(1, std::memory_order_relaxed); }
    I operator--() noexcept { return m_v.fetch_sub(1, std::memory_order_relaxed) - 1; }
    I operator--(int) noexcept { return m_v.fetch_sub(1, std::memory_order_relaxed); }
    I operator+=(I n) noexcept { return m_v.fetch_add(n, std::memory_order_relaxed) + n; }
    I operator-=(I n) noexcept { return m_v.fetch_sub(n, std::memory_order_relaxed) - n; }
    I load() const noexcept { return m_v.load(std::memory_order_relaxed); }
    void store(I v) noexcept { m_v.store(v, std::memory_order_relaxed); }
    operator I() const noexcept { return load(); }
};
}
