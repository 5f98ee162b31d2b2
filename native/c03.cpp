#include "h.hpp"
#include <dynamix/mixin_info.hpp>
#include <dynamix/alloc_util.hpp>

static void one(uint32_t s, uint32_t a, bool member) {
    h::begin(h::cat("set size ", s, " alignment ", a, member ? " (member)" : ""));
    dnmx_mixin_info m, w;
    memset((void*)&m, 0x5a, sizeof m);
    memset((void*)&w, 0x5a, sizeof w);
    if (member) m.set_size_alignment(s, a); else dnmx_set_mixin_info_size_and_alignment(&m, s, a);
    uint32_t off = a > sizeof(void*) ? a : uint32_t(sizeof(void*));
    CHECK(m.size == s, "size ", m.size);
    CHECK(m.alignment == a, "alignment ", m.alignment);
    CHECK(m.obj_buf_alignment_and_mixin_offset == off, "offset ", m.obj_buf_alignment_and_mixin_offset, " instead of ", off);
    CHECK(m.obj_buf_size == off + s, "buffer size ", m.obj_buf_size, " instead of ", off + s);
    w.size = s; w.alignment = a; w.obj_buf_size = off + s; w.obj_buf_alignment_and_mixin_offset = off;
    CHECK(!memcmp(&m, &w, sizeof m), "another field changed");
}
static void mul(uint32_t s, uint32_t n) {
    h::begin(h::cat("next multiple of ", n, " from ", s));
    uint64_t want = (uint64_t(s) + n - 1) / n * n;
    CHECK(dynamix::util::next_multiple(s, n) == want, "next_multiple ", dynamix::util::next_multiple(s, n), " instead of ", want);
}
void run(h::rng& r, bool thorough) {
    for (uint32_t s : {0u, 1u, 2u, 3u, 4u, 7u, 8u, 9u, 15u, 16u, 17u, 24u, 63u, 64u, 65u, 100u, 4095u, 4096u, 65535u, 65536u, 1u << 30, (1u << 31) - 1, 1u << 31})
        for (uint32_t a : {0u, 1u, 2u, 4u, 8u, 16u, 32u, 64u, 128u, 256u, 4096u, 65536u, 1u << 20, 1u << 30})
            for (bool m : {false, true}) one(s, a, m);
    for (uint32_t s = 0; s < 300; ++s) for (uint32_t n = 1; n < 70; ++n) mul(s, n);
    for (int i = thorough ? 300000 : 5000; i-- > 0;) {
        one(uint32_t(r.below(1u << (1 + r.below(31)))), 1u << r.below(30), r.coin());
        uint32_t n = 1 + uint32_t(r.below(1u << r.below(16)));
        mul(uint32_t(r.below((1ull << (1 + r.below(31))))), n);
    }
    for (uint32_t n : {1u, 2u, 3u, 8u, 64u, 1000u}) mul(UINT32_MAX - n + 1, n);
    auto d = dnmx_make_mixin_info();
    h::begin("default info");
    CHECK(d.size == 0 && d.alignment == 0 && d.obj_buf_size == sizeof(void*) && d.obj_buf_alignment_and_mixin_offset == sizeof(void*), "default info");
    CHECK(d.id.i == dnmx_invalid_id && !d.dom && !d.init && !d.destroy && !d.allocator && !d.num_features && !d.force_external && !d.dependency, "default info");
}
