#include "vf.hpp"
#include <dynamix/mixin_info.hpp>
#include <dynamix/alloc_util.hpp>
VF_OFF(name, dnmx_mixin_info, name)
VF_OFF(prio, dnmx_mixin_info, order_priority)
VF_OFF(id, dnmx_mixin_info, id)
VF_OFF(size, dnmx_mixin_info, size)
VF_OFF(align, dnmx_mixin_info, alignment)
VF_OFF(bsize, dnmx_mixin_info, obj_buf_size)
VF_OFF(boff, dnmx_mixin_info, obj_buf_alignment_and_mixin_offset)
VF_CONST(szw, sizeof(dnmx_byte_size_t) * 8)
VF_CONST(idw, sizeof(dnmx_id_int_t) * 8)
VF_CONST(infosize, sizeof(dnmx_mixin_info))
VF_CONST(invalid, dnmx_invalid_id)
VF bool vf_order(const dnmx_mixin_info* a, const dnmx_mixin_info* b) { return dnmx_mixin_canonical_order(a, b); }
VF bool vf_order_p(const dnmx_mixin_info* a, const dnmx_mixin_info* b) { return dynamix::canonical_mixin_order{}(a, b); }
VF bool vf_order_r(const dnmx_mixin_info* a, const dnmx_mixin_info* b) { return dynamix::canonical_mixin_order{}(*a, *b); }
VF void vf_set(dnmx_mixin_info* i, dnmx_byte_size_t s, dnmx_byte_size_t a) { dnmx_set_mixin_info_size_and_alignment(i, s, a); }
VF void vf_setm(dnmx_mixin_info* i, dnmx_byte_size_t s, dnmx_byte_size_t a) { i->set_size_alignment(s, a); }
VF uint64_t vf_next(dnmx_byte_size_t s, dnmx_byte_size_t n) { return dynamix::util::next_multiple(s, n); }
VF void vf_make(dnmx_mixin_info* r) { *r = dnmx_make_mixin_info(); }
