// every C function next to the C++ operation it stands for
#include "vf.hpp"
#include <dynamix/domain-c.cpp>
#undef self
#include <dynamix/object-c.cpp>
#undef self
#include <dynamix/type-c.cpp>
#undef self
#include <dynamix/type_mutation-c.cpp>
#undef self
#include <dynamix/mixin_allocator-c.cpp>
#include <dynamix/mixin_info.hpp>
VF_OFF(ob_sealed, object, m_sealed)
VF_OFF(ob_data, object, m_mixin_data)
VF_OFF(mu_mixins, type_mutation, mixins)
#define DOM domain::from_c_handle(hd)
#define OBJ object::from_c_handle(ho)
#define TYP type::from_c_handle(ht)
#define MUT type_mutation::from_c_handle(hm)
#define HD dnmx_domain_handle hd
#define HO dnmx_object_handle ho
#define CO dnmx_const_object_handle ho
#define HT dnmx_type_handle ht
#define HM dnmx_type_mutation_handle hm
using MI = const dnmx_mixin_info*;
using FI = const dnmx_feature_info*;
// domain
VF domain* x_create_domain(dnmx_sv name, dnmx_domain_settings s, uintptr_t u, void* c) { return new domain(name.to_std(), s, u, c); }
VF void x_destroy_domain(HD) { delete DOM; }
VF void x_set_domain_user_data(HD, uintptr_t u) { DOM->user_data = u; }
VF void x_set_domain_context(HD, void* c) { DOM->context = c; }
VF void x_register_feature(HD, dnmx_feature_info* i) { DOM->register_feature(*i); }
VF void x_unregister_feature(HD, dnmx_feature_info* i) { DOM->unregister_feature(*i); }
VF void x_register_mixin(HD, dnmx_mixin_info* i) { DOM->register_mixin(*i); }
VF void x_unregister_mixin(HD, dnmx_mixin_info* i) { DOM->unregister_mixin(*i); }
VF FI x_get_feature_info_by_id(HD, dnmx_feature_id id) { return DOM->get_feature_info(id); }
VF FI x_get_feature_info_by_name(HD, dnmx_sv n) { return DOM->get_feature_info(n.to_std()); }
VF MI x_get_mixin_info_by_id(HD, dnmx_mixin_id id) { return DOM->get_mixin_info(id); }
VF MI x_get_mixin_info_by_name(HD, dnmx_sv n) { return DOM->get_mixin_info(n.to_std()); }
VF void x_register_type_class(HD, const dnmx_type_class* tc) { DOM->register_type_class(*tc); }
VF void x_unregister_type_class(HD, const dnmx_type_class* tc) { DOM->unregister_type_class(*tc); }
VF const dnmx_type_class* x_get_type_class_by_name(HD, dnmx_sv n) { return DOM->get_type_class(n.to_std()); }
VF void x_add_mutation_rule(HD, const dnmx_mutation_rule_info* i) { DOM->add_mutation_rule(*i); }
VF void x_remove_mutation_rule(HD, const dnmx_mutation_rule_info* i) { DOM->remove_mutation_rule(*i); }
VF dnmx_type_handle x_get_type_from_infos(HD, MI const* m, uint32_t n) { return &DOM->get_type({m, n}); }
VF dnmx_type_handle x_get_type(HD, dnmx_type_mutation_handle* m) { std::unique_ptr<type_mutation> q(type_mutation::from_c_handle(*m)); *m = nullptr; return &DOM->get_type(std::move(*q)); }
VF dnmx_type_handle x_get_empty_type(HD) { return &DOM->get_empty_type(); }
VF size_t x_get_num_types(HD) { return DOM->num_types(); }
VF void x_garbage_collect_types(HD) { DOM->garbage_collect_types(); }
// object
VF object* x_create_object_empty(HD) { return new object(*DOM); }
VF object* x_create_object_default(HT) { return new object(*TYP); }
VF object* x_create_object_copy(CO) { return new object(OBJ->copy()); }
VF object* x_create_object_usurp(HO) { return new object(std::move(*OBJ)); }
VF void x_destroy_object(HO) { delete OBJ; }
VF void x_object_copy_from(HO, dnmx_const_object_handle s) { OBJ->copy_from(*object::from_c_handle(s)); }
VF const void* x_object_get_domain(CO) { return &OBJ->get_domain(); }
VF dnmx_type_handle x_object_get_type(CO) { return OBJ->m_type; }
VF dnmx_mixin_index_t x_object_num_mixins(CO) { return OBJ->num_mixins(); }
VF bool x_object_has(CO, MI i) { return OBJ->has(*i); }
VF bool x_object_has_by_name(CO, dnmx_sv n) { return OBJ->has(n.to_std()); }
VF const void* x_object_get(CO, MI i) { return OBJ->get(*i); }
VF const void* x_object_get_by_name(CO, dnmx_sv n) { return OBJ->get(n.to_std()); }
VF const void* x_object_get_at(CO, dnmx_mixin_index_t i) { return OBJ->get_at(i); }
VF void* x_object_get_mut(HO, MI i) { return OBJ->get(*i); }
VF void* x_object_get_mut_by_name(HO, dnmx_sv n) { return OBJ->get(n.to_std()); }
VF void* x_object_get_mut_at(HO, dnmx_mixin_index_t i) { return OBJ->get_at(i); }
VF void x_object_clear(HO) { OBJ->clear(); }
VF void x_object_reset_type(HO, HT) { if (ht) OBJ->reset_type(*TYP); else OBJ->clear(); }
VF bool x_object_is_empty(CO) { return OBJ->empty(); }
VF void x_object_seal(HO) { OBJ->seal(); }
VF bool x_object_is_sealed(CO) { return OBJ->sealed(); }
VF bool x_object_equals(CO, dnmx_const_object_handle b) { return OBJ->equals(*object::from_c_handle(b)); }
VF int x_object_compare(CO, dnmx_const_object_handle b) { return OBJ->compare(*object::from_c_handle(b)); }
VF int v_result(dnmx_int_result r) { return r.result; }
VF int v_error(dnmx_int_result r) { return r.error; }
// type
VF size_t x_type_num_objects(HT) { return TYP->num_objects(); }
VF dnmx_mixin_index_t x_type_num_mixins(HT) { return TYP->num_mixins(); }
VF bool x_type_has(HT, MI i) { return TYP->has(*i); }
VF bool x_type_has_by_name(HT, dnmx_sv n) { return TYP->has(n.to_std()); }
VF dnmx_mixin_index_t x_type_index_of(HT, MI i) { return TYP->index_of(i->id); }
VF dnmx_mixin_index_t x_type_index_of_name(HT, dnmx_sv n) { return TYP->index_of(n.to_std()); }
VF bool x_type_implements_strong(HT, FI i) { return TYP->implements_strong(*i); }
VF bool x_type_implements_strong_by_name(HT, dnmx_sv n) { return TYP->implements_strong(n.to_std()); }
VF bool x_type_implements(HT, FI i) { return TYP->implements(*i); }
VF bool x_type_is_of(HT, const dnmx_type_class* tc) { return TYP->is_of(*tc); }
VF bool x_type_is_of_name(HT, dnmx_sv n) { return TYP->is_of(n.to_std()); }
VF bool x_type_is_default_constructible(HT) { return TYP->default_constructible(); }
VF bool x_type_is_copy_constructible(HT) { return TYP->copy_constructible(); }
VF bool x_type_is_copy_assignable(HT) { return TYP->copy_assignable(); }
VF bool x_type_is_equality_comparable(HT) { return TYP->equality_comparable(); }
VF bool x_type_is_comparable(HT) { return TYP->comparable(); }
// type mutation
VF type_mutation* x_create_type_mutation_empty(HD) { return new type_mutation(*DOM); }
VF type_mutation* x_create_type_mutation_from_type(HT) { return new type_mutation(*TYP); }
VF void x_destroy_unused_type_mutation(HM) { delete MUT; }
VF const void* x_type_mutation_get_domain(HM) { return &MUT->dom; }
VF bool x_type_mutation_has(HM, MI i) { return MUT->has(*i); }
VF MI x_type_mutation_has_by_name(HM, dnmx_sv n) { return MUT->has(n.to_std()); }
VF bool x_type_mutation_implements_strong(HM, FI i) { return MUT->implements_strong(*i); }
VF FI x_type_mutation_implements_strong_by_name(HM, dnmx_sv n) { return MUT->implements_strong(n.to_std()); }
VF bool x_type_mutation_implements(HM, FI i) { return MUT->implements(*i); }
VF void x_type_mutation_add(HM, MI i) { MUT->add(*i); }
VF bool x_type_mutation_add_if_lacking(HM, MI i) { return MUT->add_if_lacking(*i); }
VF bool x_type_mutation_remove(HM, MI i) { return MUT->remove(*i); }
VF MI x_type_mutation_remove_by_name(HM, dnmx_sv n) { return MUT->remove(n.to_std()); }
VF void x_type_mutation_to_back(HM, MI i) { MUT->to_back(*i); }
VF MI x_type_mutation_to_back_by_name(HM, dnmx_sv n) { return &MUT->to_back(n.to_std()); }
VF void x_type_mutation_dedup(HM) { MUT->dedup(); }
VF MI const* x_type_mutation_get_mixins(HM, dnmx_mixin_index_t* n) { *n = dnmx_mixin_index_t(MUT->mixins.size()); return MUT->mixins.data(); }
VF void x_type_mutation_set_mixins(HM, MI const* m, dnmx_mixin_index_t n) { MUT->mixins.assign(m, m + n); }
// allocator
VF void x_destroy_mixin_allocator(dnmx_mixin_allocator_handle h) { delete mixin_allocator::from_c_handle(h); }
VF mixin_allocator* v_make_alloc(dnmx_alloc_mixin_func a, dnmx_dealloc_mixin_func d) { return mixin_allocator::from_c_handle(dnmx_create_mixin_allocator(a, d)); }
VF void* v_alloc(mixin_allocator* a, MI i) { return a->alloc_mixin_buf(*i); }
VF void v_dealloc(mixin_allocator* a, void* b, MI i) { a->dealloc_mixin_buf(static_cast<byte_t*>(b), *i); }
