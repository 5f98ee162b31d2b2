#include <memory_resource>
#include "type.cpp"
#include <dynamix/object_mutation.cpp>
#include <dynamix/mixin_allocator.hpp>
VF_OFF(i_alloc, mixin_info, allocator)
VF_OFF(i_bsize, mixin_info, obj_buf_size)
VF_OFF(i_balign, mixin_info, obj_buf_alignment_and_mixin_offset)
VF_OFF(mu_old, object_mutation, m_old_type)
VF_OFF(mu_od, object_mutation, m_old_mixin_data)
VF_OFF(mu_td, object_mutation, m_target_mixin_data)
VF_OFF(mu_au, object_mutation, m_allocated_upto)
VF_OFF(mu_uu, object_mutation, m_updated_upto)
VF_OFF(mu_done, object_mutation, m_complete)
VF_OFF(mu_gone, object_mutation, m_moved_out_from)
VF_OFF(mu_unc, object_mutation, m_uncaught_exceptions)
VF_CONST(mu_size, sizeof(object_mutation))
VF_CONST(off_size, sizeof(*((type*)4096)->mixin_offsets.data()))

VF void vf_ctor(object_mutation* m, object* o, const type* t) { new (m) object_mutation(*o, *t); }
VF void vf_each(object_mutation* m, uint32_t upto) { m->default_construct_each_new_mixin(upto); }
VF void vf_rollback(object_mutation* m) { m->rollback(); }
VF void vf_finalize(object_mutation* m) { m->finalize(); }
VF void vf_dtor(object_mutation* m) { m->~object_mutation(); }
VF bool vf_complete(const object_mutation* m) { return m->complete(); }

// whole operations
VF void vf_obj_dtor(object* o) { o->~object(); }
VF void vf_obj_clear(object* o) { o->clear(); }
VF void vf_obj_reset0(object* o) { o->reset_type(); }
VF void vf_obj_reset(object* o, const type* t) { o->reset_type(*t); }
VF void vf_obj_new(object* o, const type* t, void* res, bool sealed) { new (o) object(*t, allocator(static_cast<std::pmr::memory_resource*>(res)), sealed); }
VF void vf_obj_new_empty(object* o, domain* d, void* res) { new (o) object(*d, allocator(static_cast<std::pmr::memory_resource*>(res))); }
VF void vf_obj_move(object* o, object* s) { new (o) object(std::move(*s)); }
VF void vf_obj_move_asgn(object* o, object* s) { *o = std::move(*s); }
VF void vf_obj_copy(object* r, const object* s, void* res) { new (r) object(s->copy(allocator(static_cast<std::pmr::memory_resource*>(res)))); }
VF void vf_obj_copy_from(object* o, const object* s) { o->copy_from(*s); }
VF void vf_obj_copy_match(object* o, const object* s) { o->copy_matching_from(*s); }
VF void vf_obj_move_match(object* o, object* s, bool fb) { o->move_matching_from(*s, fb); }
VF void vf_perform(object* o, const type* t) { perform_object_mutation(*o, *t); }
