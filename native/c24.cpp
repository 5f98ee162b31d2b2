#include "d.hpp"
#include <dynamix/mixin_allocator.hpp>
#include <dynamix/common_mutation_rules.hpp>
#include <cstddef>
using namespace dynamix;
using namespace dynamix::util;
using namespace dynamix::util::builder_literals;

namespace {
std::vector<std::pair<int, const void*>> ev;
struct pod { uint64_t a; uint32_t b; };
struct alignas(64) over { char c[64]; };
struct tiny { char c; };
struct full {
    full() { ev.push_back({0, this}); }
    full(const full&) { ev.push_back({1, this}); }
    full(full&&) noexcept { ev.push_back({2, this}); }
    full& operator=(const full&) { ev.push_back({3, this}); return *this; }
    full& operator=(full&&) noexcept { ev.push_back({4, this}); return *this; }
    ~full() { ev.push_back({5, this}); }
    char c[24];
};
struct moveonly { moveonly() {} moveonly(moveonly&&) noexcept {} moveonly& operator=(moveonly&&) noexcept { return *this; } std::unique_ptr<int> p; };
struct throwmove { throwmove() {} throwmove(const throwmove&) {} throwmove(throwmove&&) {} throwmove& operator=(const throwmove&) { return *this; } throwmove& operator=(throwmove&&) { return *this; } ~throwmove() {} };
struct nodef { explicit nodef(int i) : x(i) {} const int x; };
struct nothing { nothing(const nothing&) = delete; nothing& operator=(const nothing&) = delete; explicit nothing(int) {} char c[40]; };
struct empty {};

template <typename T> void info_of(const char* nm) {
    h::begin(h::cat("common_init_mixin_info<", nm, ">"));
    mixin_info_data d;
    mixin_info_data_builder<T> b(d, std::string_view(nm));
    auto& i = d.info;
    CHECK(i.name == std::string_view(nm), "name");
    CHECK(i.size == sizeof(T) && i.alignment == alignof(T), "size/alignment ", i.size, " ", i.alignment);
    byte_size_t al = alignof(T) > sizeof(void*) ? alignof(T) : sizeof(void*);
    CHECK(i.obj_buf_alignment_and_mixin_offset == al && i.obj_buf_size == al + sizeof(T), "buffer");
    CHECK(!!i.init == std::is_default_constructible_v<T>, "init");
    CHECK(!!i.copy_init == std::is_copy_constructible_v<T>, "copy_init");
    CHECK(!!i.move_init == std::is_nothrow_move_constructible_v<T>, "move_init");
    CHECK(!!i.copy_asgn == std::is_copy_assignable_v<T>, "copy_asgn");
    CHECK(!!i.move_asgn == std::is_nothrow_move_assignable_v<T>, "move_asgn");
    CHECK(!!i.destroy == !std::is_trivially_destructible_v<T>, "destroy");
    CHECK(!i.equals && !i.compare && !i.allocator && !i.features && i.num_features == 0 && !i.dependency && !i.force_external && i.user_data == 0 && i.order_priority == 0, "defaults");
    CHECK(i.id == invalid_mixin_id && !i.dom, "not registered");
}

struct my_alloc final : mixin_allocator {
    byte_t* alloc_mixin_buf(const mixin_info&) override { return nullptr; }
    void dealloc_mixin_buf(byte_t*, const mixin_info&) noexcept override {}
    static inline int alive = 0;
    my_alloc() { ++alive; }
    ~my_alloc() { --alive; }
};
struct my_alloc2 final : mixin_allocator {
    explicit my_alloc2(const allocator& a = {}) : al(a) { ++alive; }
    my_alloc2(const my_alloc2&) = delete;
    byte_t* alloc_mixin_buf(const mixin_info&) override { return nullptr; }
    void dealloc_mixin_buf(byte_t*, const mixin_info&) noexcept override {}
    allocator al;
    static inline int alive = 0;
    ~my_alloc2() { --alive; }
};
struct counted { static inline int alive = 0; std::string s; counted(std::string t) : s(t) { ++alive; } counted(const counted& o) : s(o.s) { ++alive; } ~counted() { --alive; } };

struct ft_a; struct ft_b;
inline feature_info& fa() { static common_feature_info i{dnmx_make_sv_lit("ft_a")}; return i; }
inline feature_info& fb() { static common_feature_info i{dnmx_make_sv_lit("ft_b")}; return i; }
int pl_for, pl_by, pl_with;
struct FA {
    static const common_feature_info& get_info_safe() { return static_cast<common_feature_info&>(fa()); }
    struct traits {
        template <typename M> static any make_payload_for(const allocator&, M*) { return fwd_any(pl_for); }
        template <typename M, typename P> static any make_payload_by(const allocator&, M*, P& p) { return fwd_any(const_cast<std::remove_const_t<P>&>(p)); }
        template <typename M, typename P> static any make_payload_with(const allocator& a, M*, P&& p) { return make_any<P>(a, std::forward<P>(p)); }
    };
};

builder_perks P(h::rng& r) {
    builder_perks p;
    if (r.coin()) p.bid = int(r.below(7)) - 3;
    if (r.coin()) p.priority = int(r.below(7)) - 3;
    return p;
}
std::string str(const builder_perks& p) { return h::cat("{", p.bid ? std::to_string(*p.bid) : "-", ",", p.priority ? std::to_string(*p.priority) : "-", "}"); }

error_return_t rule1(dnmx_type_mutation_handle, uintptr_t) { return 0; }
error_return_t rule2(dnmx_type_mutation_handle, uintptr_t) { return 0; }

struct other_mixin {};
struct dep_mixin {};
}
mixin_info_data& data_of(const other_mixin*) { static mixin_info_data d; static mixin_info_data_builder<other_mixin> b(d, std::string_view("other_mixin")); return d; }
mixin_info_data& data_of(const dep_mixin*) { static mixin_info_data d; static mixin_info_data_builder<dep_mixin> b(d, std::string_view("dep_mixin")); return d; }
namespace {
const mixin_info& _dynamix_get_mixin_info(const other_mixin*) { return data_of((const other_mixin*)nullptr).info; }
const mixin_info& _dynamix_get_mixin_info(const dep_mixin*) { return data_of((const dep_mixin*)nullptr).info; }

void features(h::rng& r) {
    int n = int(r.below(9));
    h::begin(h::cat("features n=", n), n > 0);
    mixin_info_data d;
    mixin_info_data_builder<pod> b(d, std::string_view("m"));
    struct want { const feature_info* f; const void* p; int bid, prio; std::string val; };
    std::vector<want> w;
    int ext[16];
    const int cext = 3;
    counted::alive = 0;
    int cnt = 0;
    for (int i = 0; i < n; ++i) {
        auto& f = r.coin() ? fa() : fb();
        auto x = P(r), y = P(r);
        int na = int(r.below(3));
        int kind = int(r.below(8));
        h::step(h::cat("k", kind, " ", str(x), str(y), " args ", na));
        if (na < 2) y = {};
        if (na < 1) x = {};
        want q{&f, &ext[i], x.bid ? *x.bid : y.bid ? *y.bid : 0, x.priority ? *x.priority : y.priority ? *y.priority : 0, ""};
        switch (kind) {
        case 0: na == 0 ? b.implements_by(f, ext[i]) : na == 1 ? b.implements_by(f, ext[i], x) : b.implements_by(f, ext[i], x, y); break;
        case 1: na == 0 ? b.implements_with_payload(f, fwd_any(ext[i])) : na == 1 ? b.implements_with_payload(f, fwd_any(ext[i]), x) : b.implements_with_payload(f, fwd_any(ext[i]), x, y); break;
        case 2: { counted c("val" + std::to_string(i)); q.p = nullptr; q.val = c.s; ++cnt;
                na == 0 ? b.implements_with(f, c) : na == 1 ? b.implements_with(f, std::move(c), x) : b.implements_with(f, std::move(c), x, y); } break;
        case 3: q.f = &fa(); q.p = &pl_for; na == 0 ? b.implements<FA>() : na == 1 ? b.implements<FA>(x) : b.implements<FA>(x, y); break;
        case 4: q.f = &fa(); na == 0 ? b.implements_by<FA>(ext[i]) : na == 1 ? b.implements_by<FA>(ext[i], x) : b.implements_by<FA>(ext[i], x, y); break;
        case 5: q.f = &fa(); q.p = &cext; na == 0 ? b.implements_by<FA>(cext) : na == 1 ? b.implements_by<FA>(cext, x) : b.implements_by<FA>(cext, x, y); break;
        case 6: { q.f = &fa(); q.p = nullptr; q.val = "w" + std::to_string(i); ++cnt; na == 0 ? b.implements_with<FA>(counted(q.val)) : na == 1 ? b.implements_with<FA>(counted(q.val), x) : b.implements_with<FA>(counted(q.val), x, y); } break;
        case 7: { auto sp = std::make_shared<counted>("s" + std::to_string(i)); ++cnt; q.val = sp->s; q.p = sp.get(); auto raw = std::static_pointer_cast<void>(sp); sp.reset(); 
                na == 0 ? b.implements_with_payload(f, std::move(raw)) : na == 1 ? b.implements_with_payload(f, std::move(raw), x) : b.implements_with_payload(f, std::move(raw), x, y); } break;
        }
        w.push_back(q);
        CHECK(d.info.features_span().size() == w.size(), "number of features after ", i);
        for (size_t j = 0; j < w.size(); ++j) {
            auto& g = d.info.features_span()[j];
            CHECK(g.info == w[j].f, "feature ", j);
            CHECK(!w[j].p || g.payload == w[j].p, "payload ", j);
            CHECK(w[j].val.empty() || static_cast<const counted*>(g.payload)->s == w[j].val, "stored payload ", j);
            CHECK(g.bid == w[j].bid && g.priority == w[j].prio, "bid/priority ", j, ": ", g.bid, " ", g.priority, " instead of ", w[j].bid, " ", w[j].prio);
        }
    }
    CHECK(counted::alive == cnt, "payloads alive ", counted::alive, " of ", cnt);
}

void rules(h::rng& r) {
    int n = int(r.below(8));
    h::begin(h::cat("rules n=", n), n > 0);
    mixin_info_data d;
    mixin_info_data_builder<dep_mixin> b(d, std::string_view("mx"));
    struct want { std::string name; bool anon; mutation_rule_info::apply_func f; uintptr_t ud; int prio; const mutation_rule_info* ext; bool any_f; };
    std::vector<want> w;
    std::vector<std::unique_ptr<mutation_rule_info>> exts;
    bool dep = false;
    for (int i = 0; i < n; ++i) {
        auto pk = P(r);
        uintptr_t ud = r.next();
        auto f = r.coin() ? rule1 : rule2;
        int kind = int(r.below(6));
        h::step(h::cat("k", kind, str(pk)));
        int pr = pk.priority ? *pk.priority : 0;
        switch (kind) {
        case 0: exts.push_back(std::make_unique<mutation_rule_info>(mutation_rule_info{dnmx_make_sv_lit("ext"), f, ud, 5})); b.adds_mutation_rule(*exts.back()); w.push_back({"ext", false, f, ud, 5, exts.back().get(), false}); dep = true; break;
        case 1: { std::string nm = "a rule with a rather long name " + std::to_string(i); compat::pmr::string s(nm); b.adds_mutation_rule(std::move(s), f, ud, pk); w.push_back({nm, false, f, ud, pr, nullptr, false}); dep = true; } break;
        case 2: b.adds_mutation_rule(f, ud, pk); w.push_back({"mx rule " + std::to_string(i), true, f, ud, pr, nullptr, false}); dep = true; break;
        case 3: b.on_mutation(attaches_to<other_mixin>{}, pk, ud); w.push_back({"mx attaches_to<" + std::to_string(i) + ">", true, nullptr, ud, pr, nullptr, true}); dep = true; break;
        case 4: b.on_mutation(also_adds<other_mixin>{}, pk, ud); w.push_back({"mx also_adds<" + std::to_string(i) + ">", true, nullptr, ud, pr, nullptr, true}); break;
        case 5: b.dependency(r.coin()); dep = d.info.dependency; --i; --n; break;
        }
        CHECK(d.info.dependency == dep, "dependency status");
        CHECK(d.mutation_rule_infos.size() == w.size(), "number of rules");
        for (size_t j = 0; j < w.size(); ++j) {
            auto& g = *d.mutation_rule_infos[j];
            CHECK(!w[j].ext || &g == w[j].ext, "given rule ", j);
            CHECK(g.name == std::string_view(w[j].name), "rule name ", j, ": ", std::string(g.name.begin, g.name.end), " instead of ", w[j].name);
            CHECK(w[j].any_f ? !!g.apply : g.apply == w[j].f, "rule function ", j);
            CHECK(g.user_data == w[j].ud && g.order_priority == w[j].prio, "rule user data, priority ", j);
        }
    }
}

void on_mutation_rules() {
    for (int kind = 0; kind < 2; ++kind) for (int mask = 0; mask < 4; ++mask) {
        h::begin(h::cat("on_mutation ", kind ? "attaches_to" : "also_adds", " present=", mask));
        static domain dom("d");
        auto& dep = data_of((const dep_mixin*)nullptr).info;
        auto& oth = data_of((const other_mixin*)nullptr).info;
        if (dep.id == invalid_mixin_id) { dom.register_mixin(dep); dom.register_mixin(oth); }
        mixin_info_data d;
        mixin_info_data_builder<dep_mixin> b(d, std::string_view("mx"));
        kind ? b.on_mutation(attaches_to<other_mixin>{}) : b.on_mutation(also_adds<other_mixin>{});
        auto& r = *d.mutation_rule_infos.front();
        type_mutation mut(dom);
        if (mask & 1) mut.add(dep);
        if (mask & 2) mut.add(oth);
        auto rc = r.apply(mut.to_c_hanlde(), 0);
        bool hd = (mask & 1) || (kind == 1 && (mask & 2)), ho = (mask & 2) || (kind == 0 && (mask & 1));
        CHECK(rc == 0, "succeeds");
        CHECK(mut.has(dep) == hd && mut.has(oth) == ho && mut.mixins.size() == size_t(hd + ho), "adds exactly the dependent mixin when its primary is there");
    }
}

void misc(h::rng& r) {
    std::string n1 = "a long enough name to be allocated " + std::to_string(r.below(1000)), n2 = "short";
    h::begin("names " + n1);
    {
        mixin_info_data d;
        mixin_info_data_builder<pod> b(d, std::string_view("lit"));
        CHECK(d.info.name == std::string_view("lit"), "constructor name");
        { std::string t = n1; b.store_name(t); std::fill(t.begin(), t.end(), 'x'); }
        CHECK(d.info.name == std::string_view(n1), "stored name");
        { std::string t = n2; b.store_name(t); std::fill(t.begin(), t.end(), 'x'); }
        CHECK(d.info.name == std::string_view(n2), "stored short name");
        b.name(n1);
        CHECK(d.info.name.begin == n1.data() && d.info.name.end == n1.data() + n1.size(), "name by view");
        uintptr_t u = r.next();
        b.user_data(u);
        CHECK(d.info.user_data == u, "user data");
        b.dependency(); CHECK(d.info.dependency, "dependency()");
        b.dependency(false); CHECK(!d.info.dependency, "dependency(false)");
        b.dependency(true); CHECK(d.info.dependency, "dependency(true)");
        CHECK(!d.info.force_external && d.info.order_priority == 0, "others untouched");
        mixin_info_data_builder<pod> b2(nullptr, d);
        CHECK(d.info.name == std::string_view(n1) && d.info.user_data == u && d.info.dependency, "adopting constructor leaves everything");
        CHECK(&b2.get_data() == &d, "data");
    }
    h::begin("feature_info_data");
    {
        feature_info_data d;
        feature_info_data_builder b(d, std::string_view("lit"));
        { std::string t = n1; b.store_name(t); std::fill(t.begin(), t.end(), 'x'); }
        CHECK(d.info.name == std::string_view(n1), "stored name");
        b.name(n2); CHECK(d.info.name == std::string_view(n2), "name");
        int x;
        b.default_payload_by(x); CHECK(d.info.default_payload == &x, "default payload by");
        counted::alive = 0;
        b.default_payload_with(counted("q")); CHECK(static_cast<const counted*>(d.info.default_payload)->s == "q" && counted::alive == 1, "default payload with");
    }
    CHECK(counted::alive == 0, "payload lifetime");
    h::begin("allocators");
    {
        my_alloc a;
        mixin_info_data d, d2, d3;
        mixin_info_data_builder<pod> b(d, std::string_view("a")), b2(d2, std::string_view("a")), b3(d3, std::string_view("a"));
        b.uses_allocator(a);
        CHECK(mixin_allocator::from_c_handle(d.info.allocator) == &a && d.info.external(), "given allocator");
        { auto p = std::make_shared<my_alloc>(); auto* raw = p.get(); b2.uses_allocator(p); p.reset(); CHECK(mixin_allocator::from_c_handle(d2.info.allocator) == raw, "shared allocator"); CHECK(my_alloc::alive == 2, "kept alive"); }
        b3.uses_allocator<my_alloc2>();
        CHECK(my_alloc2::alive == 1 && mixin_allocator::from_c_handle(d3.info.allocator) == d3.stored_alloc.get(), "made allocator");
    }
    CHECK(my_alloc::alive == 0 && my_alloc2::alive == 0, "allocators released");
}

void lit() {
    h::begin("literals");
    auto eq = [](const builder_perks& p, std::optional<int> b, std::optional<int> q) { return p.bid == b && p.priority == q; };
    std::optional<int> no;
    CHECK(eq(5_bid, 5, no) && eq(5_prio, no, 5) && eq(0_bid, 0, no) && eq(0_prio, no, 0), "literals");
    CHECK(eq(-5_bid, -5, no) && eq(-5_prio, no, -5), "negative literals");
    CHECK(eq(feature_bid(-3), -3, no) && eq(order_priority(-3), no, -3) && eq(feature_bid_priority(1, -2), 1, -2), "functions");
    CHECK(eq(-feature_bid_priority(1, -2), -1, 2) && eq(-builder_perks{}, no, no), "negation");
    for (int m = 0; m < 64; ++m) {
        h::begin(h::cat("settings ", m));
        domain_settings_builder b;
        bool c = m & 1, f = m & 2, x = m & 4;
        if (m & 8) b.canonicalize_types(c);
        if (m & 16) b.allow_duplicate_feature_names(f);
        if (m & 32) b.allow_duplicate_mixin_names(x);
        domain_settings s = b;
        CHECK(s.canonicalize_types == (m & 8 ? c : false) && s.allow_duplicate_feature_names == (m & 16 ? f : false) && s.allow_duplicate_mixin_names == (m & 32 ? x : false), "exactly the named flags");
    }
}

void lifecycle() {
    h::begin("life-cycle functions call the class's");
    mixin_info_data d;
    mixin_info_data_builder<full> b(d, std::string_view("full"));
    auto& i = d.info;
    alignas(full) char m1[sizeof(full)], m2[sizeof(full)];
    auto is = [](std::vector<std::pair<int, const void*>> w) { bool k = ev == w; ev.clear(); return k; };
    CHECK(i.init(&i, m1) == 0 && is({{0, m1}}), "init");
    CHECK(i.copy_init(&i, m2, m1) == 0 && is({{1, m2}}), "copy_init");
    i.destroy(&i, m2); CHECK(is({{5, m2}}), "destroy");
    i.move_init(&i, m2, m1); CHECK(is({{2, m2}}), "move_init");
    CHECK(i.copy_asgn(&i, m1, m2) == 0 && is({{3, m1}}), "copy_asgn");
    i.move_asgn(&i, m2, m1); CHECK(is({{4, m2}}), "move_asgn");
    h::begin("life-cycle functions of a plain class");
    mixin_info_data dp;
    mixin_info_data_builder<pod> bp(dp, std::string_view("pod"));
    pod p{1, 2}, q{3, 4};
    dp.info.copy_init(&dp.info, &p, &q); CHECK(p.a == 3 && p.b == 4 && q.a == 3, "copy");
    dp.info.init(&dp.info, &p); CHECK(p.a == 0 && p.b == 0, "init");
    dp.info.move_init(&dp.info, &p, &q); CHECK(p.a == 3 && p.b == 4, "move");
    h::begin("void builder");
    mixin_info_data dv;
    mixin_info_data_builder<> bv(dv, std::string_view("void"));
    auto& v = dv.info;
    CHECK(v.init && v.copy_init && v.move_init && v.copy_asgn && v.move_asgn && v.size == 0 && v.alignment == 0, "void mixin");
}
}

void run(h::rng& r, bool thorough) {
    info_of<pod>("pod"); info_of<over>("over"); info_of<tiny>("tiny"); info_of<full>("full"); info_of<moveonly>("moveonly"); info_of<throwmove>("throwmove");
    info_of<nodef>("nodef"); info_of<nothing>("nothing"); info_of<empty>("empty"); info_of<std::string>("string"); info_of<std::unique_ptr<int>>("unique_ptr");
    lit();
    lifecycle();
    on_mutation_rules();
    for (int i = 0, n = thorough ? 20000 : 1500; i < n; ++i) { features(r); rules(r); if (i % 50 == 0) misc(r); }
}
