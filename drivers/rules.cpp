#include "dom.cpp"
VF_OFF(tm_mixins, type_mutation, mixins)
VF_CONST(tm_size, sizeof(type_mutation))
VF_OFF(ri_name, mutation_rule_info, name)
VF_OFF(ri_apply, mutation_rule_info, apply)
VF_OFF(ri_data, mutation_rule_info, user_data)
VF_OFF(ri_prio, mutation_rule_info, order_priority)
VF_OFF(i_dep, mixin_info, dependency)
VF_CONST(rule_cell, sizeof(std::pair<const mutation_rule_info*, uint32_t>))
VF bool vf_rule_less(const mutation_rule_info* a, const mutation_rule_info* b) { return domain::impl::rule_compare{}(a, b); }
VF void vf_rule_add(domain::impl* i, const mutation_rule_info* r) { i->add_mutation_rule(*r); }
VF void vf_rule_remove(domain::impl* i, const mutation_rule_info* r) { i->remove_mutation_rule(*r); }
VF void vf_rule_apply(domain::impl* i, type_mutation* m, const domain::impl::mutation_rule_map* r, domain::impl::type_query* q) { new (q) domain::impl::type_query(i->apply_mutation_rules_l(*m, *r)); }
VF const void* vf_get(domain::impl* i, type_mutation* m) { return &i->get_type(*m); }
VF const void* vf_get_span(domain::impl* i, const mixin_info* const* m, size_t n) { return &i->get_type(itlib::span<const mixin_info* const>(m, n)); }
VF bool vf_span_less(const mixin_info* const* a, size_t n, const mixin_info* const* b, size_t m) { return mixin_span_less(mixin_info_span(a, n), mixin_info_span(b, m)); }
