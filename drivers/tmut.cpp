#include "vf.hpp"
#include <dynamix/type_mutation.hpp>
#include <dynamix/type_mutation.cpp>
using namespace dynamix;
VF_OFF(tm_mixins, type_mutation, mixins)
VF_CONST(tm_size, sizeof(type_mutation))
VF_CONST(vec_size, sizeof(type_mutation::mixins))
VF_OFF(i_id, mixin_info, id)
VF_OFF(i_name, mixin_info, name)
VF_OFF(i_features, mixin_info, features)
VF_OFF(i_nfeatures, mixin_info, num_features)
VF_OFF(f_id, feature_info, id)
VF_OFF(f_name, feature_info, name)
VF_OFF(f_def, feature_info, default_payload)
VF_OFF(d_info, dnmx_feature_for_mixin, info)
VF_CONST(d_size, sizeof(dnmx_feature_for_mixin))
VF_OFF(t_mixins, type, mixins)
#define NM std::string_view(b, n)
VF const void* vf_dom(type_mutation* m) { return &m->dom; }
VF void vf_add(type_mutation* m, const mixin_info* i) { m->add(*i); }
VF bool vf_add_if(type_mutation* m, const mixin_info* i) { return m->add_if_lacking(*i); }
VF bool vf_remove(type_mutation* m, const mixin_info* i) { return m->remove(*i); }
VF void vf_to_back(type_mutation* m, const mixin_info* i) { m->to_back(*i); }
VF bool vf_has(type_mutation* m, const mixin_info* i) { return m->has(*i); }
VF bool vf_lacks(type_mutation* m, const mixin_info* i) { return m->lacks(*i); }
VF const void* vf_add_n(type_mutation* m, const char* b, size_t n) { return &m->add(NM); }
VF const void* vf_sadd_n(type_mutation* m, const char* b, size_t n) { return m->safe_add(NM); }
VF const void* vf_add_if_n(type_mutation* m, const char* b, size_t n) { return m->add_if_lacking(NM); }
VF const void* vf_sadd_if_n(type_mutation* m, const char* b, size_t n) { return m->safe_add_if_lacking(NM); }
VF const void* vf_remove_n(type_mutation* m, const char* b, size_t n) { return m->remove(NM); }
VF const void* vf_to_back_n(type_mutation* m, const char* b, size_t n) { return &m->to_back(NM); }
VF const void* vf_has_n(type_mutation* m, const char* b, size_t n) { return m->has(NM); }
VF bool vf_lacks_n(type_mutation* m, const char* b, size_t n) { return m->lacks(NM); }
VF bool vf_strong(type_mutation* m, const feature_info* f) { return m->implements_strong(*f); }
VF bool vf_impl(type_mutation* m, const feature_info* f) { return m->implements(*f); }
VF const void* vf_strong_n(type_mutation* m, const char* b, size_t n) { return m->implements_strong(NM); }
VF void vf_dedup(type_mutation* m) { m->dedup(); }
VF void vf_ctor(void* m, const type* t, const allocator* a) { new (m) type_mutation(*t, *a); }
VF void vf_ctor0(void* m, domain* t, const allocator* a) { new (m) type_mutation(*t, *a); }
