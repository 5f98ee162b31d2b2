#include "vf.hpp"
#include <dynamix/compat/pmr/allocator.hpp>
#include <dynamix/compat/pmr/memory_resource.cpp>
#include <utility>
namespace pmr = dynamix::compat::pmr;
static_assert(!DYNAMIX_HAS_PMR, "the compatibility code is what is verified here");
VF void* vf_default_allocate(size_t n, size_t a) { return pmr::get_default_resource()->allocate(n, a); }
VF void* vf_default_allocate1(size_t n) { return pmr::get_default_resource()->allocate(n); }
VF void vf_default_deallocate(void* p, size_t n, size_t a) { pmr::get_default_resource()->deallocate(p, n, a); }
VF bool vf_default_equal(const pmr::memory_resource* r) { return pmr::get_default_resource()->is_equal(*r); }
VF bool vf_default_same() { return pmr::get_default_resource() == pmr::get_default_resource() && pmr::get_default_resource()->is_equal(*pmr::get_default_resource()); }
// the default resource through its own vtable
VF void* vf_default_res() { return pmr::get_default_resource(); }
VF void vf_res_deallocate(pmr::memory_resource* r, void* p, size_t n) { r->deallocate(p, n); }
// a resource which reports its calls (through its vtable)
extern "C" void* ext_allocate(const void* self, size_t n, size_t a);
extern "C" void ext_deallocate(const void* self, void* p, size_t n, size_t a) noexcept;
struct R final : pmr::memory_resource {
    void* do_allocate(size_t n, size_t a) override { return ext_allocate(this, n, a); }
    void do_deallocate(void* p, size_t n, size_t a) override { ext_deallocate(this, p, n, a); }
    bool do_is_equal(const pmr::memory_resource& o) const noexcept override { return this == &o; }
};
struct C3 { char c[3]; };
struct alignas(32) A32 { char c[96]; };
struct L { uint64_t a; uint32_t b; };
VF void vf_res(R* r) { new (r) R; }
#define ALLOC(n, T) \
    VF_CONST(size_##n, sizeof(T)); VF_CONST(align_##n, alignof(T)); \
    VF void* vf_allocate_##n(pmr::memory_resource* r, size_t c) { pmr::allocator<T> a(r); return a.allocate(c); } \
    VF void vf_deallocate_##n(pmr::memory_resource* r, void* p, size_t c) { pmr::allocator<T> a(r); a.deallocate((T*)p, c); } \
    VF void* vf_bytes_##n(pmr::memory_resource* r, size_t c, size_t al) { pmr::allocator<T> a(r); return a.allocate_bytes(c, al); } \
    VF void* vf_bytes1_##n(pmr::memory_resource* r, size_t c) { pmr::allocator<T> a(r); return a.allocate_bytes(c); } \
    VF void vf_dbytes_##n(pmr::memory_resource* r, void* p, size_t c, size_t al) { pmr::allocator<T> a(r); a.deallocate_bytes(p, c, al); } \
    VF void vf_dbytes1_##n(pmr::memory_resource* r, void* p, size_t c) { pmr::allocator<T> a(r); a.deallocate_bytes(p, c); } \
    VF void* vf_resource_##n(pmr::memory_resource* r) { pmr::allocator<T> a(r); return a.resource(); } \
    VF void* vf_copy_##n(pmr::memory_resource* r) { pmr::allocator<T> a(r); auto b = a; return b.resource(); } \
    VF void* vf_move_##n(pmr::memory_resource* r) { pmr::allocator<T> a(r); auto b = std::move(a); return b.resource(); } \
    VF void* vf_rebind_##n(pmr::memory_resource* r) { pmr::allocator<T> a(r); pmr::allocator<double> b(a); return b.resource(); } \
    VF void* vf_rebindto_##n(pmr::memory_resource* r) { pmr::allocator<double> a(r); pmr::allocator<T> b = a; return b.resource(); } \
    VF void* vf_def_##n() { pmr::allocator<T> a; return a.resource(); } \
    VF void* vf_soccc_##n(pmr::memory_resource* r) { pmr::allocator<T> a(r); return a.select_on_container_copy_construction().resource(); } \
    VF bool vf_eq_##n(pmr::memory_resource* r, pmr::memory_resource* q) { pmr::allocator<T> a(r), b(q); return a == b; } \
    VF bool vf_ne_##n(pmr::memory_resource* r, pmr::memory_resource* q) { pmr::allocator<T> a(r), b(q); return a != b; } \
    VF bool vf_eqx_##n(pmr::memory_resource* r, pmr::memory_resource* q) { pmr::allocator<T> a(r); pmr::allocator<double> b(q); return a == b; } \
    VF bool vf_nex_##n(pmr::memory_resource* r, pmr::memory_resource* q) { pmr::allocator<T> a(r); pmr::allocator<double> b(q); return a != b; }
ALLOC(byte, std::byte)
ALLOC(c3, C3)
ALLOC(a32, A32)
ALLOC(l, L)
ALLOC(ptr, void*)
