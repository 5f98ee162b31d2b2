#include "vf.hpp"
#include <dynamix/domain.cpp>
using namespace dynamix;
VF_OFF(d_impl, domain, m_impl)
VF_OFF(d_set, domain, m_settings)
VF_OFF(s_dupm, domain_settings, allow_duplicate_mixin_names)
VF_OFF(s_dupf, domain_settings, allow_duplicate_feature_names)
VF_OFF(s_canon, domain_settings, canonicalize_types)
VF_OFF(im_er, domain::impl, m_element_registry)
VF_OFF(im_tr, domain::impl, m_type_registry)
VF_OFF(im_empty, domain::impl, m_empty_type)
VF_OFF(im_alloc, domain::impl, m_allocator)
VF_OFF(im_dom, domain::impl, m_domain)
VF_CONST(im_size, sizeof(domain::impl))
VF_OFF(er_f, domain::impl::element_registry, sparse_features)
VF_OFF(er_m, domain::impl::element_registry, sparse_mixins)
VF_OFF(er_c, domain::impl::element_registry, sparse_type_classes)
VF_OFF(i_id, mixin_info, id)
VF_OFF(i_dom, mixin_info, dom)
VF_OFF(i_name, mixin_info, name)
VF_OFF(i_features, mixin_info, features)
VF_OFF(i_nfeatures, mixin_info, num_features)
VF_CONST(i_size, sizeof(mixin_info))
VF_OFF(f_id, feature_info, id)
VF_OFF(f_name, feature_info, name)
VF_CONST(f_size, sizeof(feature_info))
VF_OFF(c_name, type_class, name)
VF_OFF(c_m, type_class, matches)
VF_CONST(invalid, dnmx_invalid_id)
VF const void* vf_er(domain::impl* i) { return &i->m_element_registry._unsafe_get_data(); }
VF const void* vf_tr(domain::impl* i) { return &i->m_type_registry._unsafe_get_data(); }
// C12
VF void vf_reg_f(domain* d, feature_info* i) { d->register_feature(*i); }
VF void vf_reg_m(domain* d, mixin_info* i) { d->register_mixin(*i); }
VF void vf_unreg_f(domain* d, feature_info* i) { d->unregister_feature(*i); }
VF void vf_unreg_m(domain* d, mixin_info* i) { d->unregister_mixin(*i); }
// C13
VF const void* vf_get_m(domain* d, uint32_t id) { return d->get_mixin_info(mixin_id{id}); }
VF const void* vf_get_f(domain* d, uint32_t id) { return d->get_feature_info(feature_id{id}); }
VF const void* vf_get_mn(domain* d, const char* b, size_t n) { return d->get_mixin_info(std::string_view(b, n)); }
VF const void* vf_get_fn(domain* d, const char* b, size_t n) { return d->get_feature_info(std::string_view(b, n)); }
VF const void* vf_get_cn(domain* d, const char* b, size_t n) { return d->get_type_class(std::string_view(b, n)); }
VF void vf_reg_c(domain* d, const type_class* i) { d->register_type_class(*i); }
VF void vf_unreg_c(domain* d, const type_class* i) { d->unregister_type_class(*i); }
VF_OFF(d_info, dnmx_feature_for_mixin, info)
VF_CONST(d_size, sizeof(dnmx_feature_for_mixin))
