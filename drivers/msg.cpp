#include "type.cpp"
#include <dynamix/common_feature_info.hpp>
#include <dynamix/msg/declare_msg.hpp>
#include <dynamix/msg/func_traits.hpp>
#include <dynamix/msg/define_msg.hpp>
#include <dynamix/msg/next_impl.hpp>
// messages as the macros declare them; what `info` refers to is an input
#define MSG(name, ...) struct name { using signature = __VA_ARGS__; using traits = msg_traits<name>; static const feature_info& info; }
MSG(msg_n, int(object&, int, int&));
MSG(msg_c, int(const object&, int, int&));
MSG(msg_v, void(object&, int, int&));
MSG(msg_r, int&(object&, int, int&));
struct own_mixin { int named(int a, int& r); int named(int a, int& r) const; };
const mixin_info& _dynamix_get_mixin_info(const own_mixin*);
struct combinator { void set_num_results(size_t); bool add_result(int); };

VF int vf_uni(object* o, int a, int* r) { return msg_n::traits::call_unicast(*o, a, *r); }
VF int vf_uni_c(const object* o, int a, int* r) { return msg_c::traits::call_unicast(*o, a, *r); }
VF void vf_uni_v(object* o, int a, int* r) { msg_v::traits::call_unicast(*o, a, *r); }
VF int* vf_uni_r(object* o, int a, int* r) { return &msg_r::traits::call_unicast(*o, a, *r); }
VF int vf_multi(object* o, int a, int* r) { return msg_n::traits::call_multicast(*o, a, *r); }
VF int vf_multi_c(const object* o, int a, int* r) { return msg_c::traits::call_multicast(*o, a, *r); }
VF void vf_multi_v(object* o, int a, int* r) { msg_v::traits::call_multicast(*o, a, *r); }
VF int* vf_multi_r(object* o, int a, int* r) { return &msg_r::traits::call_multicast(*o, a, *r); }
VF void vf_comb(combinator* c, object* o, int a, int* r) { msg_n::traits::caller::call_with_v1_combinator(msg_n::info, *c, *o, std::move(a), *r); }
VF void vf_comb_c(combinator* c, const object* o, int a, int* r) { msg_c::traits::caller::call_with_v1_combinator(msg_c::info, *c, *o, std::move(a), *r); }
VF bool vf_has_next(own_mixin* m) { return has_next_impl_msg<msg_n>(m); }
VF bool vf_has_next_c(const own_mixin* m) { return has_next_impl_msg<msg_c>(m); }
VF int vf_next(own_mixin* m, int a, int* r) { return call_next_impl_msg<msg_n>(m, std::move(a), *r); }
VF int vf_next_c(const own_mixin* m, int a, int* r) { return call_next_impl_msg<msg_c>(m, std::move(a), *r); }
VF bool vf_has_set(own_mixin* m) { return has_next_bidder_set<msg_n>(m); }
VF bool vf_has_set_c(const own_mixin* m) { return has_next_bidder_set<msg_c>(m); }
VF int vf_set(own_mixin* m, int a, int* r) { return call_next_bidder_set<msg_n>(m, std::move(a), *r); }
VF int vf_set_c(const own_mixin* m, int a, int* r) { return call_next_bidder_set<msg_c>(m, std::move(a), *r); }
VF int vf_top(own_mixin* m, int a, int* r) { return call_next_bidder_top<msg_n>(m, std::move(a), *r); }
VF int vf_top_c(const own_mixin* m, int a, int* r) { return call_next_bidder_top<msg_c>(m, std::move(a), *r); }
