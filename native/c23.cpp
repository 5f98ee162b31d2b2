#include "h.hpp"
#include <dynamix/mixin_info.hpp>
#include <dnmx/mixin_common_funcs.h>

using bytes = std::vector<unsigned char>;
static int sgn(int x) { return (x > 0) - (x < 0); }
static int ref_cmp(const unsigned char* a, const unsigned char* b, size_t n) {
    for (size_t i = 0; i < n; ++i) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
    return 0;
}
static void one(h::rng& r, uint32_t n, bool similar) {
    const size_t G = 16; // guard bytes on both sides
    bytes A(n + 2 * G), B(n + 2 * G);
    for (auto& c : A) c = (unsigned char)r.next();
    for (auto& c : B) c = (unsigned char)r.next();
    if (similar) {
        memcpy(&B[G], &A[G], n);
        if (n && r.coin(60)) B[G + r.below(n)] ^= (unsigned char)(1u << r.below(8));
        if (n && r.coin(40)) B[G + n - 1] ^= 0x80;
    }
    auto info = dnmx_make_mixin_info();
    uint32_t al = 1u << r.below(5);
    info.set_size_alignment(n, al);
    h::begin(h::cat("common functions on ", n, " bytes, alignment ", al, similar ? ", similar" : "", " #", r.next() % 100000));
    const auto info0 = info;
    bytes a = A, b = B;
    void* pa = a.data() + G; void* pb = b.data() + G;
    int c = ref_cmp(&A[G], &B[G], n);
    CHECK(sgn(dnmx_mixin_common_cmp_func(&info, pa, pb)) == c, "compare");
    CHECK(sgn(dnmx_mixin_common_cmp_func(&info, pb, pa)) == -c, "compare swapped");
    CHECK(dnmx_mixin_common_cmp_func(&info, pa, pa) == 0 && dnmx_mixin_common_eq_func(&info, pa, pa), "compare with itself");
    CHECK(dnmx_mixin_common_eq_func(&info, pa, pb) == (c == 0) && dnmx_mixin_common_eq_func(&info, pb, pa) == (c == 0), "equality");
    CHECK(a == A && b == B, "comparison wrote");
    dnmx_mixin_noop_move_func(&info, pa, pb);
    CHECK(dnmx_mixin_noop_init_func(&info, pa) == dnmx_result_success && dnmx_mixin_noop_copy_func(&info, pa, pb) == dnmx_result_success && dnmx_mixin_noop_cmp_func(&info, pa, pb) == 0, "noop results");
    CHECK(a == A && b == B, "noop wrote");
    // copy
    bytes want = A;
    memcpy(&want[G], &B[G], n);
    CHECK(dnmx_mixin_common_copy_func(&info, pa, pb) == dnmx_result_success, "copy result");
    CHECK(a == want && b == B, "copy bytes");
    a = A;
    dnmx_mixin_common_move_func_copy(&info, pa, pb);
    CHECK(a == want && b == B, "move_func_copy bytes");
    a = A;
    dnmx_mixin_common_move_func(&info, pa, pb);
    bytes z = B;
    memset(&z[G], 0, n);
    CHECK(a == want && b == z, "move bytes");
    a = A;
    CHECK(dnmx_mixin_common_init_func(&info, pa) == dnmx_result_success, "init result");
    want = A; memset(&want[G], 0, n);
    CHECK(a == want, "init bytes");
    a = A;
    dnmx_mixin_common_destroy_func(&info, pa);
    want = A; memset(&want[G], 0xfe, n);
    CHECK(a == want, "destroy bytes");
    CHECK(!memcmp(&info, &info0, sizeof info), "info changed");
}
void run(h::rng& r, bool thorough) {
    for (uint32_t n = 0; n <= (thorough ? 600 : 140); ++n) for (bool s : {false, true}) for (int k = 0; k < 4; ++k) one(r, n, s);
    for (uint32_t n : {255u, 256u, 257u, 1000u, 4095u, 4096u, 4097u, 65535u, 65536u, 65537u, 100000u}) for (bool s : {false, true}) for (int k = 0; k < 3; ++k) one(r, n, s);
    if (thorough) for (uint32_t n : {1u << 20, (1u << 24) + 3}) for (bool s : {false, true}) one(r, n, s);
}
