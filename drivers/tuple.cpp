#include "vf.hpp"
#include <dynamix/bits/make_from_tuple.hpp>
#include <dynamix/mutate_ops.hpp>
#include <dynamix/mutate_to_ops.hpp>
#include <initializer_list>
#include <utility>
// every special function of these classes reports itself
extern "C" void ev(uint64_t tag, const void* self, const void* a, const void* b, uint64_t x) noexcept;
struct Mo {
    int v;
    Mo(const Mo& o) : v(o.v) { ev(2, this, &o, nullptr, 0); }
    Mo(Mo&& o) noexcept : v(o.v) { ev(3, this, &o, nullptr, 0); }
    ~Mo() { ev(4, this, nullptr, nullptr, 0); }
};
struct T {
    T() { ev(10, this, nullptr, nullptr, 0); }
    explicit T(uint32_t x) { ev(11, this, nullptr, nullptr, x); }
    T(Mo& a) { ev(20, this, &a, nullptr, 0); }
    T(const Mo& a) { ev(21, this, &a, nullptr, 0); }
    T(Mo&& a) { ev(22, this, &a, nullptr, 0); }
    T(const Mo&& a) { ev(23, this, &a, nullptr, 0); }
    T(uint32_t x, Mo&& a, const Mo& b) { ev(30, this, &a, &b, x); }
    T(uint32_t x, Mo& a, const Mo& b) { ev(32, this, &a, &b, x); }
    T(uint32_t x, const Mo& a, const Mo& b) { ev(33, this, &a, &b, x); }
    T(const void* a, const void* b, uint32_t x) { ev(31, this, a, b, x); }
    T(const T& o) { ev(50, this, &o, nullptr, 0); }
    ~T() { ev(51, this, nullptr, nullptr, 0); }
    T(std::initializer_list<uint32_t> l) { ev(41, this, l.begin(), nullptr, l.size()); }
    T(std::initializer_list<const void*> l) { ev(42, this, l.begin(), nullptr, l.size()); }
    char bytes[24];
};
const dnmx_mixin_info& _dynamix_get_mixin_info(T*);
using dynamix::impl::make_from_tuple;
VF void vf_empty(void* p) { make_from_tuple<T>(p, std::tuple<>()); }
VF void vf_int(void* p, uint32_t x) { make_from_tuple<T>(p, std::tuple<uint32_t>(x)); }
VF void vf_intl(void* p, uint32_t x) { std::tuple<uint32_t> t(x); make_from_tuple<T>(p, t); }
VF void vf_ref(void* p, Mo* m) { make_from_tuple<T>(p, std::tuple<Mo&>(*m)); }
VF void vf_refl(void* p, Mo* m) { std::tuple<Mo&> t(*m); make_from_tuple<T>(p, t); }
VF void vf_cref(void* p, Mo* m) { make_from_tuple<T>(p, std::tuple<const Mo&>(*m)); }
VF void vf_rref(void* p, Mo* m) { make_from_tuple<T>(p, std::forward_as_tuple(std::move(*m))); }
VF void vf_rrefl(void* p, Mo* m) { std::tuple<Mo&&> t(std::move(*m)); make_from_tuple<T>(p, t); }
// tuples holding the element: in place at m
VF void vf_val(void* p, std::tuple<Mo>* t) { make_from_tuple<T>(p, std::move(*t)); }
VF void vf_vall(void* p, std::tuple<Mo>* t) { make_from_tuple<T>(p, *t); }
VF void vf_valc(void* p, const std::tuple<Mo>* t) { make_from_tuple<T>(p, *t); }
VF void vf_valcr(void* p, const std::tuple<Mo>* t) { make_from_tuple<T>(p, std::move(*t)); }
VF void vf_three(void* p, uint32_t x, Mo* a, const Mo* b) { make_from_tuple<T>(p, std::forward_as_tuple(x, std::move(*a), *b)); }
VF void vf_three_l(void* p, uint32_t x, Mo* a, const Mo* b) { make_from_tuple<T>(p, std::forward_as_tuple(x, *a, *b)); }
VF void vf_three_v(void* p, std::tuple<uint32_t, Mo, const Mo&>* t) { make_from_tuple<T>(p, std::move(*t)); }
VF const void* vf_three_v_at(std::tuple<uint32_t, Mo, const Mo&>* t) { return &std::get<1>(*t); }
VF void vf_ptrs(void* p, const void* a, const void* b, uint32_t x) { make_from_tuple<T>(p, std::make_tuple(a, b, x)); }
VF void vf_pair(void* p, const void* a, const void* b) { make_from_tuple<T>(p, std::tuple<const void*, const void*, uint32_t>(a, b, 7)); }
// operations with arguments
#define ARGS(p) dynamix::init_new_args{g_info, (dynamix::byte_t*)p, *g_type, 0}
extern const dnmx_mixin_info& g_info;
extern const dynamix::type* g_type;
#define OPS(n, F) \
    VF void vf_##n##_none(void* p) { auto op = dynamix::F<T>(); (void)op; } \
    VF void vf_##n##_lv(void* p, Mo* a) { auto op = dynamix::F<T>(*a); op.do_init(ARGS(p)); } \
    VF void vf_##n##_clv(void* p, const Mo* a) { auto op = dynamix::F<T>(*a); op.do_init(ARGS(p)); } \
    VF void vf_##n##_rv(void* p, Mo* a) { auto op = dynamix::F<T>(std::move(*a)); op.do_init(ARGS(p)); } \
    VF void vf_##n##_three(void* p, uint32_t x, Mo* a, const Mo* b) { auto op = dynamix::F<T>(x, std::move(*a), *b); op.do_init(ARGS(p)); } \
    VF void vf_##n##_three_l(void* p, uint32_t x, Mo* a, const Mo* b) { auto op = dynamix::F<T>(x, *a, *b); op.do_init(ARGS(p)); } \
    VF void vf_##n##_ptrs(void* p, const void* a, const void* b, uint32_t x) { auto op = dynamix::F<T>(a, b, x); op.do_init(ARGS(p)); } \
    VF const void* vf_##n##_info(uint32_t x) { auto op = dynamix::F<T>(x); return op.affected_info; } \
    VF bool vf_##n##_over(uint32_t x) { auto op = dynamix::F<T>(x); return op.overrides_init(); }
OPS(add, add)
OPS(con, construct)
