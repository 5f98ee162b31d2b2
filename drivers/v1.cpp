#include "vf.hpp"
#include <dynamix/v1compat/mutation_rules.cpp>
using namespace dynamix;
using namespace dynamix::v1compat;
struct A {};
struct B {};
static const mixin_info* info_a;
static const mixin_info* info_b;
const mixin_info& _dynamix_get_mixin_info(const A*) { return *info_a; }
const mixin_info& _dynamix_get_mixin_info(const B*) { return *info_b; }
VF_OFF(one_master, dependent_mixins_oneshot, master)
VF_OFF(one_infos, dependent_mixins_oneshot, infos)
VF_OFF(dep_master, dependent_mixins_dep, master)
VF_OFF(dep_infos, dependent_mixins_dep, infos)
VF_OFF(r_info, mutation_rule, m_info)
VF_OFF(i_dep, mixin_info, dependency)
VF const void* vf_a() { return &info_a; }
VF const void* vf_b() { return &info_b; }
VF void vf_oneshot(dependent_mixins_oneshot* r, type_mutation* m) { r->dependent_mixins_oneshot::apply_to(*m); }
VF void vf_dep(dependent_mixins_dep* r, type_mutation* m) { r->dependent_mixins_dep::apply_to(*m); }
VF void vf_deprecated(deprecated_mixin<A>* r, type_mutation* m) { r->deprecated_mixin<A>::apply_to(*m); }
VF void vf_mandatory(mandatory_mixin<A>* r, type_mutation* m) { r->mandatory_mixin<A>::apply_to(*m); }
VF void vf_substitute(substitute_mixin<A, B>* r, type_mutation* m) { r->substitute_mixin<A, B>::apply_to(*m); }
