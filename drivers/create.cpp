#include "dom.cpp"
VF_OFF(t_ftable, type, ftable)
VF_OFF(t_ftlen, type, ftable_length)
VF_OFF(t_mixins, type, mixins)
VF_OFF(t_osize, type, object_buffer_size)
VF_OFF(t_oalign, type, object_buffer_alignment)
VF_OFF(t_offsets, type, mixin_offsets)
VF_OFF(t_sparse, type, sparse_mixin_indices)
VF_OFF(t_bufsize, type, buf_size)
VF_CONST(t_size, sizeof(type))
VF_CONST(t_align, alignof(type))
VF_OFF(i_size_, mixin_info, size)
VF_OFF(i_align, mixin_info, alignment)
VF_OFF(i_ext, mixin_info, force_external)
VF_OFF(tm_mixins, type_mutation, mixins)
VF_CONST(tm_size, sizeof(type_mutation))
VF_CONST(md_size, sizeof(object_mixin_data))
VF const void* vf_create(domain::impl* i, type_mutation* m, domain::impl::type_query* q) { return &i->create_type(*m, std::move(*q)); }
VF const void* vf_tdom(const type* t) { return &t->dom; }
VF bool vf_external(const mixin_info* i) { return i->external(); }
VF_OFF(i_minit, mixin_info, move_init)
VF_OFF(i_alloc, mixin_info, allocator)
VF_CONST(e_size, sizeof(type::ftable_entry))
