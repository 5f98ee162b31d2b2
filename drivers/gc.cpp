#include "dom.cpp"
VF_OFF(t_num, type, m_num_objects)
VF_CONST(v_size, sizeof(domain::impl::type_query))
VF_CONST(v_begin, sizeof(domain::impl::type_query) - 3 * sizeof(void*))
VF void vf_collect(domain* d) { d->garbage_collect_types(); }
VF void vf_unregister(domain* d, mixin_info* i) { d->unregister_mixin(*i); }
