#include "vf.hpp"
#include <dynamix/type.hpp>
#include <dynamix/object.hpp>
#include <dynamix/object_of.hpp>
#include <dynamix/mixin_info.hpp>
#include <dynamix/feature_info.hpp>
#include <dynamix/feature_for_mixin.hpp>
#include <dynamix/type.cpp>
#include <dynamix/object.cpp>
#include <dnmx/type.h>
#include <dnmx/object.h>
using namespace dynamix;
// layout of the data structures (from the compiler)

VF_OFF(t_ftable, type, ftable)
VF_OFF(t_ftlen, type, ftable_length)
VF_OFF(t_mixins, type, mixins)
VF_OFF(t_osize, type, object_buffer_size)
VF_OFF(t_oalign, type, object_buffer_alignment)
VF_OFF(t_offsets, type, mixin_offsets)
VF_OFF(t_sparse, type, sparse_mixin_indices)
VF_OFF(t_num, type, m_num_objects)
VF_OFF(t_bufsize, type, buf_size)
VF_OFF(i_id, mixin_info, id)
VF_OFF(i_dom, mixin_info, dom)
VF_OFF(i_name, mixin_info, name)
VF_OFF(i_prio, mixin_info, order_priority)
VF_OFF(i_init, mixin_info, init)
VF_OFF(i_cinit, mixin_info, copy_init)
VF_OFF(i_minit, mixin_info, move_init)
VF_OFF(i_casgn, mixin_info, copy_asgn)
VF_OFF(i_masgn, mixin_info, move_asgn)
VF_OFF(i_destroy, mixin_info, destroy)
VF_OFF(i_equals, mixin_info, equals)
VF_OFF(i_compare, mixin_info, compare)
VF_OFF(f_id, feature_info, id)
VF_OFF(f_name, feature_info, name)
VF_OFF(f_def, feature_info, default_payload)
VF_OFF(e_begin, type::ftable_entry, begin)
VF_OFF(e_top, type::ftable_entry, top_bid_back)
VF_OFF(e_end, type::ftable_entry, end)
VF_CONST(e_size, sizeof(type::ftable_entry))
VF_OFF(p_mi, type::ftable_payload, mixin_index)
VF_OFF(p_pl, type::ftable_payload, payload)
VF_OFF(p_data, type::ftable_payload, data)
VF_CONST(p_size, sizeof(type::ftable_payload))
VF_OFF(d_info, dnmx_feature_for_mixin, info)
VF_OFF(d_bid, dnmx_feature_for_mixin, bid)
VF_OFF(d_prio, dnmx_feature_for_mixin, priority)
VF_OFF(ob_type, dnmx_basic_object, m_type)
VF_OFF(ob_data, dnmx_basic_object, m_mixin_data)
VF_OFF(ob_alloc, object, m_allocator)
VF_OFF(ob_sealed, object, m_sealed)
VF_OFF(md_buf, dnmx_object_mixin_data, buf)
VF_OFF(md_mixin, dnmx_object_mixin_data, mixin)
VF_CONST(md_size, sizeof(dnmx_object_mixin_data))
VF_CONST(invalid, invalid_mixin_index)
VF_OFF(tc_name, type_class, name)
VF_OFF(tc_m, type_class, matches)
VF const void* vf_dom(const type* t) { return &t->dom; }

// C05
VF uint32_t vf_index_id(const type* t, uint32_t id) { return t->index_of(mixin_id{id}); }
VF uint32_t vf_index_name(const type* t, const char* b, size_t n) { return t->index_of(std::string_view(b, n)); }
VF bool vf_has_id(const type* t, uint32_t id) { return t->has(mixin_id{id}); }
VF bool vf_has_info(const type* t, const mixin_info* i) { return t->has(*i); }
VF bool vf_has_name(const type* t, const char* b, size_t n) { return t->has(std::string_view(b, n)); }
VF bool vf_lacks_id(const type* t, uint32_t id) { return t->lacks(mixin_id{id}); }
VF bool vf_lacks_info(const type* t, const mixin_info* i) { return t->lacks(*i); }
VF bool vf_lacks_name(const type* t, const char* b, size_t n) { return t->lacks(std::string_view(b, n)); }
VF uint32_t vf_num(const type* t) { return t->num_mixins(); }
VF uint64_t vf_nobj(const type* t) { return t->num_objects(); }
// C06
VF bool vf_strong_id(const type* t, uint32_t id) { return t->implements_strong(feature_id{id}); }
VF bool vf_strong_info(const type* t, const feature_info* i) { return t->implements_strong(*i); }
VF bool vf_strong_name(const type* t, const char* b, size_t n) { return t->implements_strong(std::string_view(b, n)); }
VF bool vf_implements(const type* t, const feature_info* i) { return t->implements(*i); }
VF void vf_ftable_at(const type* t, uint32_t id, type::ftable_entry* out) { *out = t->ftable_at(feature_id{id}); }
VF void vf_cftable_at(const type* t, uint32_t id, type::ftable_entry* out) { *out = dnmx_ftable_at(t, feature_id{id}); }
// C07
VF const void* vf_next_impl(const type* t, const feature_info* f, const mixin_info* m) { return t->find_next_implementer(*f, *m); }
VF void vf_next_set(const type* t, const feature_info* f, const mixin_info* m, const void** b, const void** e) { auto s = t->find_next_bidder_set(*f, *m); *b = s.data(); *e = s.data() + s.size(); }
// C13
VF bool vf_is_of(const type* t, const type_class* tc) { return t->is_of(*tc); }
VF bool vf_is_of_name(const type* t, const char* b, size_t n) { return t->is_of(std::string_view(b, n)); }
VF bool vf_obj_is_of(const object* t, const type_class* tc) { return t->is_of(*tc); }
VF bool vf_obj_is_of_name(const object* t, const char* b, size_t n) { return t->is_of(std::string_view(b, n)); }
// C21
VF int vf_compare(const type* a, const type* b) { return a->compare(*b); }
VF bool vf_teq(const type* a, const type* b) { return *a == *b; }
VF bool vf_tne(const type* a, const type* b) { return *a != *b; }
VF bool vf_oeq(const object* a, const object* b) { return a->equals(*b); }
VF int vf_ocmp(const object* a, const object* b) { return a->compare(*b); }
VF bool vf_order_p(const mixin_info* a, const mixin_info* b) { return canonical_mixin_order{}(a, b); }
// C19 predicates
VF bool vf_defc(const type* t) { return t->default_constructible(); }
VF bool vf_cc(const type* t) { return t->copy_constructible(); }
VF bool vf_ca(const type* t) { return t->copy_assignable(); }
VF bool vf_cp(const type* t) { return t->copyable(); }
VF bool vf_ec(const type* t) { return t->equality_comparable(); }
VF bool vf_cmpb(const type* t) { return t->comparable(); }
// C18
VF void* vf_get_id(object* o, uint32_t id) { return o->get(mixin_id{id}); }
VF const void* vf_cget_id(const object* o, uint32_t id) { return o->get(mixin_id{id}); }
VF void* vf_get_info(object* o, const mixin_info* i) { return o->get(*i); }
VF const void* vf_cget_info(const object* o, const mixin_info* i) { return o->get(*i); }
VF void* vf_get_name(object* o, const char* b, size_t n) { return o->get(std::string_view(b, n)); }
VF const void* vf_cget_name(const object* o, const char* b, size_t n) { return o->get(std::string_view(b, n)); }
VF void* vf_get_at(object* o, uint32_t i) { return o->get_at(i); }
VF const void* vf_cget_at(const object* o, uint32_t i) { return o->get_at(i); }
VF bool vf_ohas_id(const object* o, uint32_t id) { return o->has(mixin_id{id}); }
VF bool vf_ohas_info(const object* o, const mixin_info* i) { return o->has(*i); }
VF bool vf_ohas_name(const object* o, const char* b, size_t n) { return o->has(std::string_view(b, n)); }
VF uint32_t vf_onum(const object* o) { return o->num_mixins(); }
VF bool vf_oempty(const object* o) { return o->empty(); }
VF const void* vf_otype(const object* o) { return &o->get_type(); }
VF const void* vf_odom(const object* o) { return &o->get_domain(); }
VF void* vf_object_of(void* m) { return object_of(m); }
VF const void* vf_cobject_of(const void* m) { return object_of(m); }
VF bool vf_osealed(const object* o) { return o->sealed(); }
VF void vf_oseal(object* o) { o->seal(); }
VF void vf_set_object(dnmx_object_mixin_data* d, dnmx_basic_object* o) { d->set_object(o); }
