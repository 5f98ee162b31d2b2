#include <dnmx/mixin_common_funcs.c>
#include <stddef.h>
#include <stdint.h>
#define K(n, v) extern const uint64_t k_##n; const uint64_t k_##n = (uint64_t)(v);
K(size, offsetof(dnmx_mixin_info, size))
K(szw, sizeof(dnmx_byte_size_t) * 8)
K(infosize, sizeof(dnmx_mixin_info))
typedef const dnmx_mixin_info* I;
int vf_init(I i, void* p) { return (int)dnmx_mixin_common_init_func(i, p); }
int vf_copy(I i, void* p, const void* s) { return (int)dnmx_mixin_common_copy_func(i, p, s); }
void vf_move(I i, void* p, void* s) { dnmx_mixin_common_move_func(i, p, s); }
void vf_move_copy(I i, void* p, void* s) { dnmx_mixin_common_move_func_copy(i, p, s); }
void vf_destroy(I i, void* p) { dnmx_mixin_common_destroy_func(i, p); }
int vf_cmp(I i, const void* a, const void* b) { return dnmx_mixin_common_cmp_func(i, a, b); }
int vf_eq(I i, const void* a, const void* b) { return dnmx_mixin_common_eq_func(i, a, b); }
int vf_noop_init(I i, void* p) { return (int)dnmx_mixin_noop_init_func(i, p); }
int vf_noop_copy(I i, void* p, const void* s) { return (int)dnmx_mixin_noop_copy_func(i, p, s); }
void vf_noop_move(I i, void* p, void* s) { dnmx_mixin_noop_move_func(i, p, s); }
int vf_noop_cmp(I i, const void* a, const void* b) { return dnmx_mixin_noop_cmp_func(i, a, b); }
