#pragma once
// stand-in for itlib::pmr_allocator: std polymorphic_allocator with the C++20 byte interface
#include <cstddef>
#include <memory_resource>
#include <new>
#include <utility>
namespace itlib {
template <typename T = std::byte>
class pmr_allocator : public std::pmr::polymorphic_allocator<T> {
    using super = std::pmr::polymorphic_allocator<T>;
public:
    using value_type = T;
    pmr_allocator() noexcept : super(std::pmr::get_default_resource()) {}
    pmr_allocator(std::pmr::memory_resource* r) : super(r) {}
    pmr_allocator(const pmr_allocator&) = default;
    template <typename U> pmr_allocator(const std::pmr::polymorphic_allocator<U>& o) noexcept : super(o.resource()) {}
    template <typename U> pmr_allocator(const pmr_allocator<U>& o) noexcept : super(o.resource()) {}
    pmr_allocator& operator=(const pmr_allocator&) = delete;
    template <typename U> struct rebind { using other = pmr_allocator<U>; };

    [[nodiscard]] void* allocate_bytes(size_t n, size_t a = alignof(std::max_align_t)) { return this->resource()->allocate(n, a); }
    void deallocate_bytes(void* p, size_t n, size_t a = alignof(std::max_align_t)) { this->resource()->deallocate(p, n, a); }
    template <typename U> [[nodiscard]] U* allocate_object(size_t n = 1) { return static_cast<U*>(allocate_bytes(n * sizeof(U), alignof(U))); }
    template <typename U> void deallocate_object(U* p, size_t n = 1) { deallocate_bytes(p, n * sizeof(U), alignof(U)); }
    template <typename U, typename... A> [[nodiscard]] U* new_object(A&&... a) {
        U* p = allocate_object<U>();
        try { ::new (static_cast<void*>(p)) U(std::forward<A>(a)...); }
        catch (...) { deallocate_object(p); throw; }
        return p;
    }
    template <typename U> void delete_object(U* p) { p->~U(); deallocate_object(p); }
    pmr_allocator select_on_container_copy_construction() const { return {}; }
};
template <typename A, typename B> bool operator==(const pmr_allocator<A>& a, const pmr_allocator<B>& b) noexcept { return *a.resource() == *b.resource(); }
template <typename A, typename B> bool operator!=(const pmr_allocator<A>& a, const pmr_allocator<B>& b) noexcept { return !(a == b); }
}
