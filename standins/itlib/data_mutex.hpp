#pragma once
// stand-in for itlib::data_mutex: data reachable only through a lock
#include <memory>
#include <mutex>
#include <shared_mutex>
#include <utility>
namespace itlib {
template <typename D, typename Lock>
class data_lock {
    D* m_data;
    Lock m_lock;
public:
    template <typename M, typename... LA>
    data_lock(D& d, M& m, LA&&... la) : m_data(&d), m_lock(m, std::forward<LA>(la)...) {}
    data_lock(data_lock&&) = default;
    data_lock& operator=(data_lock&&) = default;
    D* get() const { return m_data; }
    D* operator->() const { return m_data; }
    D& operator*() const { return *m_data; }
    explicit operator bool() const { return m_lock.owns_lock(); }
    void unlock() { m_lock.unlock(); m_data = nullptr; }
};
template <typename T, typename Mutex>
class data_mutex {
    T m_data;
    mutable Mutex m_mutex;
public:
    using value_type = T;
    using mutex_type = Mutex;
    template <typename... A>
    data_mutex(A&&... a) : m_data(std::forward<A>(a)...) {}
    data_mutex(const data_mutex&) = delete;
    data_mutex& operator=(const data_mutex&) = delete;
    using unique_lock_t = data_lock<T, std::unique_lock<Mutex>>;
    unique_lock_t unique_lock() { return unique_lock_t(m_data, m_mutex); }
    using shared_lock_t = data_lock<const T, std::shared_lock<Mutex>>;
    shared_lock_t shared_lock() const { return shared_lock_t(m_data, m_mutex); }
    T& _unsafe_get_data() { return m_data; }
    const T& _unsafe_get_data() const { return m_data; }
};
}
