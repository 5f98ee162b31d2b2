#include "vf.hpp"
#include <dynamix/mutate.hpp>
#include <dynamix/mutate_to.hpp>
#include <dynamix/object.hpp>
#include <dynamix/type.hpp>
using namespace dynamix;
VF void ev(uint64_t tag, const void* a, const void* b);
struct fn {
    void operator()(const init_new_args& args) const { ev(1, this, args.mixin_buf); ev(3, &args.info, &args.target_type); }
};
struct A { A(int*); };
const mixin_info& _dynamix_get_mixin_info(const A*);
using add_i = mutate_op_just_add_by_info;
using add_n = mutate_op_just_add_by_name;
using rem_i = mutate_op_remove_by_info;
using rem_n = mutate_op_remove_by_name;
using bak_i = mutate_op_to_back_by_info;
using bak_n = mutate_op_to_back_by_name;
using fun_i = add_mixin_op_with_func_by_info<fn>;
using fun_n = add_mixin_op_with_func_by_name<fn>;
using con_i = object_mutate_op_with_func<fn>;
using con_n = construct_mixin_op_with_func_by_name<fn>;
using arg_i = add_mixin_op_with_args<A, int*>;
VF_OFF(a_info, init_new_args, info)
VF_OFF(a_buf, init_new_args, mixin_buf)
VF_OFF(a_type, init_new_args, target_type)
VF_OFF(op_info, con_i, affected_info)
VF_CONST(op_in_fun, (char*)static_cast<object_mutate_op*>((fun_i*)4096) - (char*)4096)
// the operations
VF void vf_o_add_i(type_mutation* m, const mixin_info* i) { add(*i).apply_to_type_mutation(*m); }
VF void vf_o_add_n(type_mutation* m, const char* s, size_t n) { add(std::string_view(s, n)).apply_to_type_mutation(*m); }
VF void vf_o_rem_i(type_mutation* m, const mixin_info* i) { remove(*i).apply_to_type_mutation(*m); }
VF void vf_o_rem_n(type_mutation* m, const char* s, size_t n) { remove(std::string_view(s, n)).apply_to_type_mutation(*m); }
VF void vf_o_bak_i(type_mutation* m, const mixin_info* i) { to_back(*i).apply_to_type_mutation(*m); }
VF void vf_o_bak_n(type_mutation* m, const char* s, size_t n) { to_back(std::string_view(s, n)).apply_to_type_mutation(*m); }
VF void vf_o_add_t(type_mutation* m) { add<A>().apply_to_type_mutation(*m); }
VF void vf_o_rem_t(type_mutation* m) { remove<A>().apply_to_type_mutation(*m); }
VF void vf_o_bak_t(type_mutation* m) { to_back<A>().apply_to_type_mutation(*m); }
VF void vf_o_fun_i(type_mutation* m, const mixin_info* i) { fn f; add(*i, f).apply_to_type_mutation(*m); }
VF void vf_o_fun_n(type_mutation* m, const char* s, size_t n) { fn f; add(std::string_view(s, n), f).apply_to_type_mutation(*m); }
VF void vf_o_arg(type_mutation* m, int* x) { add<A>(std::move(x)).apply_to_type_mutation(*m); }
// what they override
VF bool vf_n_add_i(const mixin_info* i, object* o) { return !add(*i).to_obj_mutate(*o); }
VF bool vf_n_add_n(const char* s, size_t n, object* o) { return !add(std::string_view(s, n)).to_obj_mutate(*o); }
VF bool vf_n_rem_i(const mixin_info* i, object* o) { return !remove(*i).to_obj_mutate(*o); }
VF bool vf_n_rem_n(const char* s, size_t n, object* o) { return !remove(std::string_view(s, n)).to_obj_mutate(*o); }
VF bool vf_n_bak_i(const mixin_info* i, object* o) { return !to_back(*i).to_obj_mutate(*o); }
VF bool vf_n_bak_n(const char* s, size_t n, object* o) { return !to_back(std::string_view(s, n)).to_obj_mutate(*o); }
template <typename Op> const mixin_info* overrides(Op& op, object* o) {
    object_mutate_op* m = op.to_obj_mutate(*o);
    return m == &op && op.overrides_init() ? m->affected_info : nullptr;
}
VF const mixin_info* vf_p_fun_i(const mixin_info* i, object* o) { fn f; fun_i op = add(*i, std::move(f)); return overrides(op, o); }
VF const mixin_info* vf_p_fun_n(const char* s, size_t n, object* o, type_mutation* m) { fn f; fun_n op = add(std::string_view(s, n), std::move(f)); op.apply_to_type_mutation(*m); return overrides(op, o); }
VF const mixin_info* vf_p_con_i(const mixin_info* i, object* o) { fn f; con_i op = construct(*i, std::move(f)); return overrides(op, o); }
VF const mixin_info* vf_p_con_n(const char* s, size_t n, object* o) { fn f; con_n op = construct(std::string_view(s, n), std::move(f)); return overrides(op, o); }
VF const mixin_info* vf_p_arg(int* x, object* o) { auto op = add<A>(std::move(x)); return overrides(op, o); }
VF const mixin_info* vf_p_carg(int* x, object* o) { auto op = construct<A>(std::move(x)); return overrides(op, o); }
VF void vf_f_fun_i(const fn* f, init_new_args* a) { add_mixin_op_with_func_by_info<const fn&> op(a->info, *f); op.do_init(*a); }
VF void vf_f_fun_n(const fn* f, init_new_args* a, const char* s, size_t n) { add_mixin_op_with_func_by_name<const fn&> op(std::string_view(s, n), *f); op.do_init(*a); }
VF void vf_f_con_i(const fn* f, init_new_args* a) { object_mutate_op_with_func<const fn&> op(a->info, *f); op.do_init(*a); }
VF void vf_f_con_n(const fn* f, init_new_args* a, const char* s, size_t n) { construct_mixin_op_with_func_by_name<const fn&> op(std::string_view(s, n), *f); op.do_init(*a); }
// sequences of operations
VF void vf_m_i(object* o, const mixin_info* a, const mixin_info* b, const mixin_info* c) { mutate(*o, add(*a), remove(*b), to_back(*c)); }
VF void vf_m_i2(object* o, const mixin_info* a, const mixin_info* b, const mixin_info* c) { mutate(*o, to_back(*a), add(*b), remove(*c), add(*a)); }
VF void vf_m_n(object* o, const char* a, const char* b, const char* c, size_t n) { mutate(*o, remove(std::string_view(a, n)), to_back(std::string_view(b, n)), add(std::string_view(c, n))); }
VF void vf_m_f(object* o, const mixin_info* a, const mixin_info* b, const mixin_info* c) { fn f; mutate(*o, add(*a, f), add(*b), add(*c, f)); }
// gradual
VF void vf_g_i(object* o, const mixin_info* a, const mixin_info* b, const mixin_info* c) { mutate(*o).add(*a).remove(*b).to_back(*c).add_if_lacking(*a); }
VF void vf_g_n(object* o, const char* a, const char* b, const char* c, size_t n) { mutate(*o).add(std::string_view(a, n)).remove(std::string_view(b, n)).to_back(std::string_view(c, n)).add_if_lacking(std::string_view(a, n)); }
VF void vf_g_t(object* o) { mutate(*o).to_back<A>().add<A>().remove<A>().add_if_lacking<A>(); }
VF void vf_g_apply(object* o, const mixin_info* a, const mixin_info* b) { auto m = mutate(*o); m.add(*a).remove(*b); m.apply(); }
VF void vf_g_cancel(object* o, const mixin_info* a) { auto m = mutate(*o); m.add(*a); m.cancel(); }
VF void vf_g_late(object* o, const mixin_info* a, const void* t) { auto m = mutate(*o); m.add(*a); ev(2, t, nullptr); m.remove(*a); }
VF void vf_to(object* o, const type* t) { mutate_to(*o, *t); }
// the overrides
VF_OFF(i_id, mixin_info, id)
VF void vf_t1(object* o, const type* t, const mixin_info* a, const fn* f) { mutate_to(*o, *t, construct(*a, *f)); }
VF void vf_t2(object* o, const type* t, const mixin_info* a, const fn* f, const mixin_info* b, const fn* g) { mutate_to(*o, *t, construct(*a, *f), construct(*b, *g)); }
VF void vf_t3(object* o, const type* t, const mixin_info* a, const fn* f, const mixin_info* b, const fn* g, const mixin_info* c) { mutate_to(*o, *t, add(*a, *f), remove(*c), add(*b, *g)); }
VF void vf_t0(object* o, const type* t, const mixin_info* a, const mixin_info* b) { mutate_to(*o, *t, add(*a), remove(*b)); }
VF void vf_t4(object* o, const type* t, const mixin_info* a, const fn* f, const mixin_info* b, const fn* g, const mixin_info* c, const fn* h) { mutate_to(*o, *t, construct(*a, *f), construct(*b, *g), construct(*c, *h)); }
// (used before)
VF void vf_t5(object* o, const type* t, const mixin_info* a, const fn* f, const mixin_info* b, const fn* g, mixin_index_t i, mixin_index_t j) { auto x = construct(*a, *f); auto y = construct(*b, *g); x.mixin_index = i; y.mixin_index = j; mutate_to(*o, *t, x, y); }
// at an index
VF_OFF(mu_uu, object_mutation, m_updated_upto)
VF const type* vf_target(object_mutation* m) { return &m->m_target_type; }
VF void vf_at(object_mutation* m, mixin_index_t i, const fn* f) { m->update_at(i, *f, util::noop_udpate_common_func); }
