#include "vf.hpp"
#include <dynamix/v1compat/combinators.hpp>
#include <new>
using namespace dynamix::v1compat::combinators;
// each operation on a combinator in memory given by the caller
// whole calls, the way the message caller uses a combinator: construct (or reset after an
// arbitrary earlier use), announce, feed until told to stop, read the result
#define CALL(n, C, T) \
    VF_CONST(size_##n, sizeof(C<T>)) \
    static inline size_t feed_##n(C<T>& c, const T* rs, size_t k) { \
        c.set_num_results(k); \
        size_t i = 0; \
        for (; i != k; ++i) if (!c.add_result(rs[i])) break; \
        return i; \
    } \
    VF size_t vf_new_##n(void* p, const T* rs, size_t k, C<T>::result_type* out) { \
        auto& c = *new (p) C<T>(); \
        auto i = feed_##n(c, rs, k); \
        *out = c.result(); \
        return i; \
    } \
    VF size_t vf_reset_##n(C<T>* p, const T* rs, size_t k, C<T>::result_type* out) { \
        p->reset(); \
        auto i = feed_##n(*p, rs, k); \
        *out = p->result(); \
        return i; \
    } \
    VF void vf_init_##n(void* p, C<T>::result_type* out) { new (p) C<T>(); *out = ((C<T>*)p)->result(); } \
    VF void vf_rinit_##n(C<T>* p, C<T>::result_type* out) { p->reset(); *out = p->result(); } \
    VF void vf_twice_##n(const C<T>* p, C<T>::result_type* a, C<T>::result_type* b) { *a = p->result(); *b = p->result(); }
typedef const char* cptr;
CALL(and_bool, boolean_and, bool)
CALL(and_int, boolean_and, int)
CALL(and_ptr, boolean_and, cptr)
CALL(or_bool, boolean_or, bool)
CALL(or_int, boolean_or, int)
CALL(or_ptr, boolean_or, cptr)
CALL(sum_int, sum, int32_t)
CALL(sum_u8, sum, uint8_t)
CALL(sum_i64, sum, int64_t)
CALL(sum_u64, sum, uint64_t)
CALL(sum_double, sum, double)
CALL(mean_int, mean, int32_t)
CALL(mean_i64, mean, int64_t)
CALL(mean_u32, mean, uint32_t)
CALL(mean_double, mean, double)
