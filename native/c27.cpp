#include "h.hpp"
#include <dynamix/compat/pmr/memory_resource.cpp>
#include <dynamix/compat/pmr/allocator.hpp>
#include <dynamix/compat/pmr/vector.hpp>
#include <dynamix/compat/pmr/string.hpp>
#include <dynamix/compat/pmr/map.hpp>
#include <dynamix/compat/pmr/deque.hpp>
#include <dynamix/compat/pmr/set.hpp>
#include <malloc.h>
#include <map>
namespace pmr = dynamix::compat::pmr;

struct rec final : pmr::memory_resource {
    struct blk { size_t n, a; };
    std::map<void*, blk> live;
    size_t calls = 0, last_n = 0, last_a = 0;
    void* do_allocate(size_t n, size_t a) override {
        ++calls; last_n = n; last_a = a;
        if (n > (size_t(1) << 40)) throw std::bad_alloc{};
        void* p = pmr::get_default_resource()->allocate(n, a);
        live[p] = {n, a};
        return p;
    }
    void do_deallocate(void* p, size_t n, size_t a) override {
        auto f = live.find(p);
        CHECK(f != live.end(), "deallocates a block of this resource");
        CHECK(f->second.n == n && f->second.a == a, "deallocates with size ", n, " alignment ", a, " what was allocated with ", f->second.n, ", ", f->second.a);
        live.erase(f);
        pmr::get_default_resource()->deallocate(p, n, a);
    }
    bool do_is_equal(const pmr::memory_resource& o) const noexcept override { return this == &o; }
};

static void one(size_t n, size_t a) {
    h::begin(h::cat("default resource: allocate(", n, ", ", a, ")"));
    auto r = pmr::get_default_resource();
    void* p = nullptr;
    try { p = r->allocate(n, a); }
    catch (std::bad_alloc&) { CHECK(n > (size_t(1) << 33), "throws although there is memory"); return; }
    CHECK(p, "not null");
    CHECK(uintptr_t(p) % a == 0, "aligned");
    CHECK(malloc_usable_size(p) >= n, "block of ", malloc_usable_size(p), " bytes for a request of ", n);
    if (n && n < (1 << 20)) memset(p, 0x77, n);
    else if (n) { ((char*)p)[0] = 1; ((char*)p)[n - 1] = 1; }
    r->deallocate(p, n, a);
}

template <typename T> static void alloc(h::rng& r, const char* nm) {
    rec m, m2;
    size_t n = r.below(r.coin() ? 6 : 300);
    h::begin(h::cat("allocator<", nm, "> n=", n));
    pmr::allocator<T> a(&m), b(&m2), d;
    CHECK(a.resource() == &m && d.resource() == pmr::get_default_resource(), "resource");
    T* p = a.allocate(n);
    CHECK(m.calls == 1 && m.last_n == n * sizeof(T) && m.last_a == alignof(T), "request ", m.last_n, " ", m.last_a);
    CHECK(uintptr_t(p) % alignof(T) == 0, "aligned");
    memset((void*)p, 1, n * sizeof(T));
    pmr::allocator<T> c(a);
    pmr::allocator<int> rb(a);
    pmr::allocator<T> back(rb);
    CHECK(c.resource() == &m && rb.resource() == &m && back.resource() == &m, "kept through copies and rebinds");
    CHECK(a == c && !(a != c) && a == rb && !(a != rb) && rb == back && a != b && !(a == b) && rb != b && !(rb == b) && a != d, "equality");
    CHECK(a.select_on_container_copy_construction().resource() == pmr::get_default_resource(), "select_on_container_copy_construction");
    c.deallocate(p, n);
    CHECK(m.live.empty(), "returned");
    size_t al = size_t(1) << r.below(8);
    void* q = a.allocate_bytes(n, al);
    CHECK(m.last_n == n && m.last_a == al, "bytes");
    a.deallocate_bytes(q, n, al);
    q = a.allocate_bytes(n);
    CHECK(m.last_n == n && m.last_a == alignof(std::max_align_t), "bytes, default alignment");
    a.deallocate_bytes(q, n);
    CHECK(m.live.empty() && m2.calls == 0, "returned");
    if (sizeof(T) > 1) {
        size_t before = m.calls;
        bool thrown = false;
        try { (void)a.allocate(SIZE_MAX / sizeof(T) + 1 + r.below(4)); } catch (std::bad_alloc&) { thrown = true; }
        CHECK(thrown, "an array of a size which is not representable");
        (void)before;
    }
}
struct c3 { char c[3]; };
struct alignas(32) a32 { char c[96]; };
struct odd { uint64_t a; uint32_t b; };

void run(h::rng& r, bool thorough) {
    for (size_t a = 1; a <= (1 << 16); a *= 2)
        for (size_t n : {size_t(0), size_t(1), a - 1, a, a + 1, 2 * a - 1, 2 * a, 3 * a + 1, size_t(100), size_t(4096)}) one(n, a);
    for (size_t n : {(size_t(1) << 31) - 1, size_t(1) << 31, (size_t(1) << 32) - 1, size_t(1) << 32, (size_t(1) << 32) + 1, (size_t(1) << 32) + 100}) for (size_t a : {1, 16, 64}) one(n, a);
    for (size_t d = 0; d < 70; ++d) one(SIZE_MAX - d, 1 + 0 * d), one(SIZE_MAX - d, 64), one(SIZE_MAX - d, 4096);
    for (int n = thorough ? 20000 : 1000; n-- > 0;) { one(r.below(20000), size_t(1) << r.below(13)); }
    CHECK(pmr::get_default_resource() == pmr::get_default_resource(), "one default resource");
    rec m;
    CHECK(pmr::get_default_resource()->is_equal(*pmr::get_default_resource()) && !pmr::get_default_resource()->is_equal(m) && m.is_equal(m), "is_equal");
    for (int n = thorough ? 3000 : 150; n-- > 0;) {
        alloc<std::byte>(r, "byte"); alloc<c3>(r, "c3"); alloc<a32>(r, "a32"); alloc<odd>(r, "odd"); alloc<void*>(r, "ptr"); alloc<uint16_t>(r, "u16");
    }
    // containers
    for (int n = thorough ? 500 : 30; n-- > 0;) {
        h::begin(h::cat("containers ", n));
        rec x;
        {
            pmr::vector<a32> v(&x);
            pmr::string s(&x);
            pmr::map<int, pmr::string> mp{pmr::allocator<>(&x)};
            pmr::deque<odd> dq(&x);
            pmr::set<int> st{pmr::allocator<>(&x)};
            for (size_t k = r.below(200); k-- > 0;) {
                v.emplace_back(); s += "abc"; mp.emplace(int(r.below(50)), pmr::string("some long text which is not local", &x)); dq.emplace_back(); st.insert(int(k));
                CHECK(uintptr_t(&v.back()) % 32 == 0, "aligned elements");
            }
            pmr::vector<a32> w(v);
            CHECK(w.get_allocator().resource() == pmr::get_default_resource(), "copy uses the default resource");
            pmr::vector<a32> u(std::move(v));
            CHECK(u.get_allocator().resource() == &x, "moved container keeps the resource");
        }
        CHECK(x.live.empty(), "all returned");
    }
}
