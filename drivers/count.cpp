#include "type.cpp"
VF void* vf_take(const type* t, allocator* a) { return t->allocate_object_buffer(*a); }
VF void vf_give(const type* t, allocator* a, void* b) { t->deallocate_object_buffer(*a, b); }
