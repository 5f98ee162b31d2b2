#include "vf.hpp"
#include <dnmx/bits/sv.h>
#define A const char* ab, const char* ae
#define B const char* bb, const char* be
VF int vf_cmp(A, B) { return dnmx_sv_cmp({ab, ae}, {bb, be}); }
VF bool vf_eq(A, B) { return dnmx_sv_eq({ab, ae}, {bb, be}); }
VF bool vf_op_eq(A, B) { return dnmx_sv{ab, ae} == dnmx_sv{bb, be}; }
VF bool vf_op_ne(A, B) { return dnmx_sv{ab, ae} != dnmx_sv{bb, be}; }
VF bool vf_op_lt(A, B) { return dnmx_sv{ab, ae} < dnmx_sv{bb, be}; }
VF bool vf_op_eqsv(A, B) { return dnmx_sv{ab, ae} == std::string_view(bb, be - bb); }
VF bool vf_op_nesv(A, B) { return dnmx_sv{ab, ae} != std::string_view(bb, be - bb); }
VF bool vf_op_sveq(A, B) { return std::string_view(ab, ae - ab) == dnmx_sv{bb, be}; }
VF bool vf_starts(A, const char* p) { return dnmx_sv_starts_with({ab, ae}, p); }
VF const char* vf_first(A, char q) { return dnmx_sv_find_first({ab, ae}, q); }
VF const char* vf_last(A, char q) { return dnmx_sv_find_last({ab, ae}, q); }
VF size_t vf_len(A) { return dnmx_sv_len({ab, ae}); }
VF bool vf_empty(A) { return dnmx_sv_is_empty({ab, ae}); }
VF bool vf_null(A) { return dnmx_sv_is_null({ab, ae}); }
VF bool vf_memp(A) { return dnmx_sv{ab, ae}.empty(); }
VF void vf_from_std(A, dnmx_sv* out) { *out = dnmx_sv::from_std(std::string_view(ab, ae - ab)); }
VF void vf_to_std(A, const char** b, size_t* l) { auto s = dnmx_sv{ab, ae}.to_std(); *b = s.data(); *l = s.size(); }
VF void vf_mk_be(A, dnmx_sv* out) { *out = dnmx_make_sv_be(ab, ae); }
VF void vf_mk_len(const char* b, size_t l, dnmx_sv* out) { *out = dnmx_make_sv_len(b, l); }
VF void vf_mk_str(const char* b, dnmx_sv* out) { *out = dnmx_make_sv_str(b); }
VF_OFF(begin, dnmx_sv, begin)
VF_OFF(end, dnmx_sv, end)
