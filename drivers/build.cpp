#include "vf.hpp"
#include <dynamix/mixin_info_data.hpp>
#include <dynamix/domain_settings_builder.hpp>
#include <dynamix/common_mutation_rules.hpp>
using namespace dynamix;
using namespace dynamix::util;
using namespace dynamix::util::builder_literals;
extern "C" void ev(uint64_t tag, const void* self, const void* a, const void* b, uint64_t x) noexcept;

// ------------------------------------------------------------ literals
VF_CONST(perks_size, sizeof(builder_perks));
struct perks_out { uint32_t has_bid, bid, has_prio, prio; };
VF_CONST(po_hb, offsetof(perks_out, has_bid)); VF_CONST(po_b, offsetof(perks_out, bid)); VF_CONST(po_hp, offsetof(perks_out, has_prio)); VF_CONST(po_p, offsetof(perks_out, prio));
static void out(perks_out* o, const builder_perks& p) {
    o->has_bid = p.bid.has_value(); o->bid = p.bid.has_value() ? *p.bid : 0;
    o->has_prio = p.priority.has_value(); o->prio = p.priority.has_value() ? *p.priority : 0;
}
VF void vf_bid(perks_out* o, int32_t b) { out(o, feature_bid(b)); }
VF void vf_prio(perks_out* o, int32_t p) { out(o, order_priority(p)); }
VF void vf_both(perks_out* o, int32_t b, int32_t p) { out(o, feature_bid_priority(b, p)); }
VF void vf_lbid(perks_out* o, unsigned long long b) { out(o, operator ""_bid(b)); }
VF void vf_lprio(perks_out* o, unsigned long long b) { out(o, operator ""_prio(b)); }
VF void vf_neg_bid(perks_out* o, int32_t b) { out(o, -feature_bid(b)); }
VF void vf_neg_prio(perks_out* o, int32_t p) { out(o, -order_priority(p)); }
VF void vf_neg_both(perks_out* o, int32_t b, int32_t p) { out(o, -feature_bid_priority(b, p)); }
VF void vf_neg_none(perks_out* o) { out(o, -builder_perks{}); }
VF void vf_negneg(perks_out* o, int32_t b, int32_t p) { out(o, -(-feature_bid_priority(b, p))); }
VF void vf_none(perks_out* o) { out(o, builder_perks{}); }
// the argument of the negation is left alone
VF void vf_neg_src(perks_out* o, int32_t b, int32_t p) { auto x = feature_bid_priority(b, p); auto y = -x; (void)y; out(o, x); }

// ------------------------------------------------------------ settings
struct so { uint8_t c, f, m; };
static void sout(so* o, const domain_settings& s) { o->c = s.canonicalize_types; o->f = s.allow_duplicate_feature_names; o->m = s.allow_duplicate_mixin_names; }
#define SET(n, call) VF void vf_set_##n(so* o, bool a, bool b, bool c) { domain_settings_builder s; call; domain_settings r = s; sout(o, r); }
SET(def, (void)s)
SET(c, s.canonicalize_types(a))
SET(f, s.allow_duplicate_feature_names(a))
SET(m, s.allow_duplicate_mixin_names(a))
SET(c1, s.canonicalize_types())
SET(f1, s.allow_duplicate_feature_names())
SET(m1, s.allow_duplicate_mixin_names())
SET(cfm, s.canonicalize_types(a).allow_duplicate_feature_names(b).allow_duplicate_mixin_names(c))
SET(mfc, s.allow_duplicate_mixin_names(c).allow_duplicate_feature_names(b).canonicalize_types(a))
SET(last, s.canonicalize_types(!a).allow_duplicate_feature_names(!b).allow_duplicate_mixin_names(!c).canonicalize_types(a).allow_duplicate_feature_names(b).allow_duplicate_mixin_names(c))

// ------------------------------------------------------------ life-cycle functions
#define REPORT(T) \
    T() { ev(10, this, nullptr, nullptr, 0); }
struct pod { uint64_t a; uint32_t b; };                       // everything trivial
struct alignas(64) over { char c[64]; };
struct tiny { char c; };
struct full { // everything non-trivial
    full() { ev(10, this, nullptr, nullptr, 0); }
    full(const full& o) { ev(11, this, &o, nullptr, 0); }
    full(full&& o) noexcept { ev(12, this, &o, nullptr, 0); }
    full& operator=(const full& o) { ev(13, this, &o, nullptr, 0); return *this; }
    full& operator=(full&& o) noexcept { ev(14, this, &o, nullptr, 0); return *this; }
    ~full() { ev(15, this, nullptr, nullptr, 0); }
    char c[24];
};
struct moveonly {
    moveonly() { ev(10, this, nullptr, nullptr, 0); }
    moveonly(moveonly&& o) noexcept { ev(12, this, &o, nullptr, 0); }
    moveonly& operator=(moveonly&& o) noexcept { ev(14, this, &o, nullptr, 0); return *this; }
    ~moveonly() { ev(15, this, nullptr, nullptr, 0); }
    char c[8];
};
struct copyonly { // moves are copies (which cannot throw)
    copyonly() { ev(10, this, nullptr, nullptr, 0); }
    copyonly(const copyonly& o) noexcept { ev(11, this, &o, nullptr, 0); }
    copyonly& operator=(const copyonly& o) noexcept { ev(13, this, &o, nullptr, 0); return *this; }
    char c[3];
};
struct throwmove { // moves may throw: no move functions
    throwmove() { ev(10, this, nullptr, nullptr, 0); }
    throwmove(const throwmove& o) { ev(11, this, &o, nullptr, 0); }
    throwmove(throwmove&& o) { ev(12, this, &o, nullptr, 0); }
    throwmove& operator=(const throwmove& o) { ev(13, this, &o, nullptr, 0); return *this; }
    throwmove& operator=(throwmove&& o) { ev(14, this, &o, nullptr, 0); return *this; }
    ~throwmove() { ev(15, this, nullptr, nullptr, 0); }
    char c[4];
};
struct nodef { explicit nodef(int) {} nodef(const nodef& o) { ev(11, this, &o, nullptr, 0); } nodef(nodef&& o) noexcept { ev(12, this, &o, nullptr, 0); } int x; }; // no assignment
struct nothing { nothing(const nothing&) = delete; nothing& operator=(const nothing&) = delete; explicit nothing(int); char c[40]; };
struct dtor { ~dtor() { ev(15, this, nullptr, nullptr, 0); } uint64_t x; };
struct constm { const int x = 5; int y; };                    // copyable, not assignable
struct asgnonly { asgnonly& operator=(const asgnonly& o) noexcept { ev(13, this, &o, nullptr, 0); return *this; } int x; };

struct info_out { uint64_t init, copy_init, move_init, copy_asgn, move_asgn, destroy, equals, compare; };
template <typename T> static void fill(mixin_info& i) { i = dnmx_make_mixin_info(); common_init_mixin_info<T>(i); }
template <typename T> constexpr uint64_t traits = (std::is_default_constructible_v<T> ? 1 : 0) | (std::is_copy_constructible_v<T> ? 2 : 0) | (std::is_nothrow_move_constructible_v<T> ? 4 : 0)
    | (std::is_copy_assignable_v<T> ? 8 : 0) | (std::is_nothrow_move_assignable_v<T> ? 16 : 0) | (std::is_trivially_destructible_v<T> ? 0 : 32);
#define CLS(T) \
    VF_CONST(size_##T, sizeof(T)); VF_CONST(align_##T, alignof(T)); VF_CONST(traits_##T, traits<T>); \
    VF void vf_fill_##T(mixin_info* i) { common_init_mixin_info<T>(*i); } \
    VF int vf_init_##T(void* p) { mixin_info i; fill<T>(i); return i.init(&i, p); } \
    VF int vf_cinit_##T(void* p, const void* q) { mixin_info i; fill<T>(i); return i.copy_init(&i, p, q); } \
    VF void vf_minit_##T(void* p, void* q) { mixin_info i; fill<T>(i); i.move_init(&i, p, q); } \
    VF int vf_casgn_##T(void* p, const void* q) { mixin_info i; fill<T>(i); return i.copy_asgn(&i, p, q); } \
    VF void vf_masgn_##T(void* p, void* q) { mixin_info i; fill<T>(i); i.move_asgn(&i, p, q); } \
    VF void vf_destroy_##T(void* p) { mixin_info i; fill<T>(i); i.destroy(&i, p); }
CLS(pod) CLS(over) CLS(tiny) CLS(full) CLS(moveonly) CLS(copyonly) CLS(throwmove) CLS(nodef) CLS(nothing) CLS(dtor) CLS(constm) CLS(asgnonly)
VF void vf_fill_void(mixin_info* i) { common_init_mixin_info<void>(*i); }
#define OFF(f) VF_CONST(o_##f, offsetof(mixin_info, f))
OFF(id); OFF(dom); OFF(name); OFF(size); OFF(alignment); OFF(obj_buf_size); OFF(obj_buf_alignment_and_mixin_offset); OFF(init); OFF(copy_init); OFF(move_init); OFF(copy_asgn); OFF(move_asgn);
OFF(destroy); OFF(equals); OFF(compare); OFF(allocator); OFF(mixin_class); OFF(type_info_class); OFF(user_data); OFF(features); OFF(num_features); OFF(order_priority); OFF(force_external); OFF(dependency);
VF_CONST(info_size, sizeof(mixin_info));
VF_CONST(szw, sizeof(byte_size_t) * 8);

// ------------------------------------------------------------ builder
VF_OFF(d_info, mixin_info_data, info);
VF_OFF(d_fp, mixin_info_data, feature_payloads);
VF_CONST(ffm_size, sizeof(feature_for_mixin)); VF_CONST(ffm_info, offsetof(feature_for_mixin, info)); VF_CONST(ffm_payload, offsetof(feature_for_mixin, payload));
VF_CONST(ffm_bid, offsetof(feature_for_mixin, bid)); VF_CONST(ffm_prio, offsetof(feature_for_mixin, priority));
VF_CONST(rule_size, sizeof(mutation_rule_info)); VF_CONST(rule_apply, offsetof(mutation_rule_info, apply)); VF_CONST(rule_ud, offsetof(mutation_rule_info, user_data)); VF_CONST(rule_prio, offsetof(mutation_rule_info, order_priority));
using B = mixin_info_data_builder<pod>;
VF void vf_b_dependency(mixin_info_data* d, bool v) { B b(nullptr, *d); b.dependency(v); }
VF void vf_b_dependency1(mixin_info_data* d) { B b(nullptr, *d); b.dependency(); }
VF void vf_b_user_data(mixin_info_data* d, uintptr_t v) { B b(nullptr, *d); b.user_data(v); }
VF void vf_b_name(mixin_info_data* d, const char* p, size_t n) { B b(nullptr, *d); b.name(std::string_view(p, n)); }
VF void vf_b_rule(mixin_info_data* d, const mutation_rule_info* r) { B b(nullptr, *d); b.adds_mutation_rule(*r); }
static builder_perks perks(const perks_out* p) {
    builder_perks r;
    if (p->has_bid) r.bid = int32_t(p->bid);
    if (p->has_prio) r.priority = int32_t(p->prio);
    return r;
}
VF void vf_b_impl_payload(mixin_info_data* d, const feature_info* f, any* pl, const perks_out* a, const perks_out* b) { B x(nullptr, *d); x.implements_with_payload(*f, std::move(*pl), perks(a), perks(b)); }
VF void vf_b_impl_by(mixin_info_data* d, const feature_info* f, int* pl, const perks_out* a, const perks_out* b) { B x(nullptr, *d); x.implements_by(*f, *pl, perks(a), perks(b)); }
VF void vf_b_impl_by1(mixin_info_data* d, const feature_info* f, int* pl, const perks_out* a) { B x(nullptr, *d); x.implements_by(*f, *pl, perks(a)); }
VF void vf_b_impl_by0(mixin_info_data* d, const feature_info* f, int* pl) { B x(nullptr, *d); x.implements_by(*f, *pl); }
struct feat {
    struct traits {
        template <typename M> static any make_payload_for(const allocator&, M*) { static int x; return fwd_any(x); }
        static any make_payload_by(const allocator&, void*, int& pl) { return fwd_any(pl); }
    };
    static const common_feature_info& get_info_safe();
    static const feature_info& info;
};
VF const void* vf_feat_info() { return &feat::get_info_safe(); }
VF const void* vf_feat_payload() { return feat::traits::make_payload_for(allocator{}, (pod*)nullptr).get(); }
VF void vf_b_impl_f(mixin_info_data* d, const perks_out* a, const perks_out* b) { B x(nullptr, *d); x.implements<feat>(perks(a), perks(b)); }
VF void vf_b_impl_f_by(mixin_info_data* d, int* pl, const perks_out* a, const perks_out* b) { B x(nullptr, *d); x.implements_by<feat>(*pl, perks(a), perks(b)); }
