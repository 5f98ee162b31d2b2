// messages reach exactly the right mixins, in order, with the right arguments
#include "m.hpp"
#include <dynamix/msg/declare_msg.hpp>
#include <dynamix/msg/func_traits.hpp>
#include <dynamix/msg/define_msg.hpp>
#include <dynamix/msg/next_impl.hpp>
using namespace m;

constexpr int NM = 7;
static mx* cur[NM];
template <int K> struct X {};
template <int K> const mixin_info& _dynamix_get_mixin_info(const X<K>*) { return cur[K]->info; }

struct val {
    int v; int copies = 0;
    explicit val(int i) : v(i) {}
    val(const val& o) : v(o.v), copies(o.copies + 1) {}
    val(val&& o) noexcept : v(o.v), copies(o.copies) { o.v = -1; }
};
class special : public object { public: using object::object; };

using vecs = std::vector<int, std::allocator<int>>;
DYNAMIX_DECLARE_SIMPLE_MSG(uni, int(object&, val, int&));
DYNAMIX_DECLARE_SIMPLE_MSG(uni_def, int(const object&, val, int&));
DYNAMIX_DECLARE_SIMPLE_MSG(multi, int(object&, val, int&));
DYNAMIX_DECLARE_SIMPLE_MSG(multi_def, int(const object&, val, int&));
#ifdef VF_FALLBACK
using own_arg = std::unique_ptr<int>&;
#define OWN(x) x
#else
using own_arg = std::unique_ptr<int>&&;
#define OWN(x) std::move(x)
#endif
DYNAMIX_DECLARE_SIMPLE_MSG(uni_own, int(special&, own_arg, vecs));
DYNAMIX_DECLARE_SIMPLE_MSG(multi_void, void(const special&, const val&));
DYNAMIX_DECLARE_SIMPLE_MSG(multi_ref, int&(object&));
DYNAMIX_DECLARE_MSG(named_uni_msg, named, int, (object&, val, int&));
DYNAMIX_DECLARE_MSG(named_multi_msg, named, int, (const object&, val, int&));
DYNAMIX_DECLARE_MSG(named_none_msg, nonamed, int, (object&));
constexpr int NF = 10;

struct ev { int who; const void* p; int v; int copies; const void* ref; };
static std::vector<ev> log_;
static int cells[NM + 1];
static int ret(int who, int v) { return who * 1000 + v % 1000; }
template <int K> struct im {
    static int f(void* p, val a, int& r) { log_.push_back({K, p, a.v, a.copies, &r}); return ret(K, a.v); }
    static int cf(const void* p, val a, int& r) { log_.push_back({K, p, a.v, a.copies, &r}); return ret(K, a.v); }
    static int own(void* p, own_arg a, vecs v) { auto q = std::move(a); log_.push_back({K, p, *q, 0, v.data()}); return ret(K, *q); }
    static void v(const void* p, const val& a) { log_.push_back({K, p, a.v, a.copies, &a}); }
    static int& ref(void* p) { log_.push_back({K, p, 0, 0, nullptr}); return cells[K]; }
    static int none(void* p) { log_.push_back({K, p, 0, 0, nullptr}); return K; }
};
static int def(const object& o, val a, int& r) { log_.push_back({-1, &o, a.v, a.copies, &r}); return 7000 + a.v; }
// member functions, for messages which name the function
template <int K> struct fm {
    int named(val a, int& r) { return im<K>::f(this, std::move(a), r); }
    int named(val a, int& r) const { return im<K>::cf(this, std::move(a), r); }
    int nonamed() { return im<K>::none(this); }
};
DYNAMIX_MAKE_FUNC_TRAITS(named);
DYNAMIX_MAKE_FUNC_TRAITS(nonamed);
DYNAMIX_DEFINE_SIMPLE_MSG(uni, unicast);
DYNAMIX_DEFINE_SIMPLE_MSG_EX(uni_def, unicast, true, def);
DYNAMIX_DEFINE_SIMPLE_MSG(multi, multicast);
DYNAMIX_DEFINE_SIMPLE_MSG_EX(multi_def, multicast, true, def);
DYNAMIX_DEFINE_SIMPLE_MSG(uni_own, unicast);
DYNAMIX_DEFINE_SIMPLE_MSG(multi_void, multicast);
DYNAMIX_DEFINE_SIMPLE_MSG(multi_ref, multicast);
DYNAMIX_DEFINE_MSG(named_uni_msg, unicast, named, int, (object&, val, int&));
DYNAMIX_DEFINE_MSG_EX(named_multi_msg, multicast, true, def, named, int, (const object&, val, int&));
DYNAMIX_DEFINE_MSG(named_none_msg, unicast, nonamed, int, (object&));

static common_feature_info* infos[NF];

template <int K> struct disp {
    static dnmx_feature_payload payload(int f) {
        allocator al;
        auto raw = [](auto x) { return reinterpret_cast<dnmx_feature_payload>(x); };
        // as stored by the builder: a pointer to the function
        switch (f) {
        case 0: return raw(&im<K>::f);
        case 1: return raw(&im<K>::cf);
        case 2: { int (*p)(void*, val, int&) = im<K>::f; return raw(p); }
        case 3: return raw(&im<K>::cf);
        case 4: return raw(&im<K>::own);
        case 5: return raw(&im<K>::v);
        case 6: return raw(&im<K>::ref);
        case 7: { static auto a = named_uni_msg::traits::make_payload_for(al, static_cast<fm<K>*>(nullptr)); return get(a); }
        case 8: { static auto a = named_multi_msg::traits::make_payload_for(al, static_cast<fm<K>*>(nullptr)); return get(a); }
        default: { static auto a = named_none_msg::traits::make_payload_for(al, static_cast<fm<K>*>(nullptr)); return get(a); }
        }
    }
    static dnmx_feature_payload get(any& a) { return reinterpret_cast<dnmx_feature_payload>(a.get()); }
    template <typename Msg> static int nimpl(void* p, int v, int& r, bool& has) {
        has = has_next_impl_msg<Msg>(static_cast<X<K>*>(p));
        return call_next_impl_msg<Msg>(static_cast<X<K>*>(p), val(v), r);
    }
    template <typename Msg> static int nset(void* p, int v, int& r, bool& has) {
        has = has_next_bidder_set<Msg>(static_cast<X<K>*>(p));
        return call_next_bidder_set<Msg>(static_cast<X<K>*>(p), val(v), r);
    }
    template <typename Msg> static int ntop(void* p, int v, int& r, bool& has) {
        has = has_next_bidder_set<Msg>(static_cast<const X<K>*>(p));
        return call_next_bidder_top<Msg>(static_cast<X<K>*>(p), val(v), r);
    }
};
using next_f = int (*)(void*, int, int&, bool&);
template <typename Msg, int... K> void nexts(next_f (&t)[3][NM], std::integer_sequence<int, K...>) {
    ((t[0][K] = disp<K>::template nimpl<Msg>, t[1][K] = disp<K>::template nset<Msg>, t[2][K] = disp<K>::template ntop<Msg>), ...);
}
template <int... K> dnmx_feature_payload payload(int k, int f, std::integer_sequence<int, K...>) {
    dnmx_feature_payload r = nullptr;
    ((k == K ? void(r = disp<K>::payload(f)) : void()), ...);
    return r;
}

struct stopper {
    size_t num = 999; int after; std::vector<int> got;
    void set_num_results(size_t n) { num = n; }
    bool add_result(int i) { got.push_back(i); return int(got.size()) != after; }
};

struct target { int k; const void* p; int32_t bid; };
static int idx(mx* x) { for (int i = 0; i < NM; ++i) if (cur[i] == x) return i; return -1; }

static void all(h::rng& g, special& o) {
    auto& t = o.get_type();
    // the reference order of each message
    std::vector<target> order[NF];
    for (int f = 0; f < NF; ++f) {
        struct e { int32_t bid, prio; int pos; int k; };
        std::vector<e> v;
        for (int i = 0; i < int(t.num_mixins()); ++i) for (auto& x : t.mixins[i]->features_span()) if (x.info == infos[f]) v.push_back({x.bid, x.priority, i, idx(m::find(t.mixins[i]))});
        std::sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.bid != b.bid ? a.bid > b.bid : a.prio != b.prio ? a.prio < b.prio : a.pos > b.pos; });
        for (auto& x : v) order[f].push_back({x.k, o.get_at(mixin_index_t(x.pos)), x.bid});
    }
    auto top = [&](int f) { std::vector<target> v; for (auto& x : order[f]) if (x.bid == order[f][0].bid) v.push_back(x); return v; };
    int v = int(g.below(900)) + 1, r = 0, got = 0;
    auto expect = [&](const char* what, std::vector<target> want, bool rev, const void* ref) {
        if (rev) std::reverse(want.begin(), want.end());
        CHECK(log_.size() == want.size(), what, ": ", log_.size(), " calls instead of ", want.size());
        for (size_t i = 0; i < want.size(); ++i) {
            CHECK(log_[i].who == want[i].k, what, ": call ", i, " is of ", log_[i].who, " instead of ", want[i].k);
            CHECK(log_[i].p == want[i].p, what, ": the wrong mixin (or object) is passed");
            if (ref) CHECK(log_[i].v == v && log_[i].ref == ref, what, ": arguments ", log_[i].v, " instead of ", v);
        }
    };
    auto none = [&](const char* what, int f, bool has_default, auto call) {
        log_.clear();
        bool th = throws([&] { got = call(); });
        if (!order[f].empty()) { CHECK(!th, what, " throws"); return false; }
        CHECK(th == !has_default, what, th ? " throws" : " does not throw", " without an implementer");
        if (th) CHECK(log_.empty(), what, ": something was called");
        else {
            expect(what, {{-1, &o, 0}}, false, &r);
            CHECK(got == 7000 + v, what, ": result of the default");
        }
        return true;
    };
    auto one = [&](const char* what, int f, bool has_default, auto call) {
        if (none(what, f, has_default, call)) return;
        expect(what, {order[f][0]}, false, &r);
        CHECK(log_[0].copies == 0, what, ": the argument was copied");
        CHECK(got == ret(order[f][0].k, v), what, ": result ", got);
    };
    auto many = [&](const char* what, int f, bool has_default, auto call) {
        if (none(what, f, has_default, call)) return;
        expect(what, top(f), true, &r);
        CHECK(got == ret(order[f][0].k, v), what, ": result ", got);
    };
    const special& c = o;
    one("uni", 0, false, [&] { return uni::call(o, val(v), r); });
    one("uni_def", 1, true, [&] { return uni_def::call(c, val(v), r); });
    many("multi", 2, false, [&] { return multi::call(o, val(v), r); });
    many("multi_def", 3, true, [&] { return multi_def::call(c, val(v), r); });
    one("named_uni", 7, false, [&] { return named(static_cast<object&>(o), val(v), r); });
    one("named_uni", 7, false, [&] { return named_uni_msg::call(o, val(v), r); });
    many("named_multi", 8, true, [&] { return named(static_cast<const object&>(o), val(v), r); });
    many("named_multi", 8, true, [&] { return named_multi_msg::call(c, val(v), r); });
    {
        log_.clear();
        bool th = throws([&] { nonamed(o); });
        CHECK(th == order[9].empty(), "nonamed");
        if (!th) expect("nonamed", {order[9][0]}, false, nullptr);
    }
    {
        vecs q{1, 2, 3};
        auto data = q.data();
        auto u = std::make_unique<int>(v);
        log_.clear();
        bool th = throws([&] { got = uni_own::call(o, OWN(u), std::move(q)); });
        CHECK(th == order[4].empty(), "uni_own");
        if (!th) { expect("uni_own", {order[4][0]}, false, data); CHECK(!u && got == ret(order[4][0].k, v), "uni_own"); }
        else CHECK(u && log_.empty(), "uni_own takes its argument");
    }
    {
        val a(v);
        log_.clear();
        bool th = throws([&] { multi_void::call(c, a); });
        CHECK(th == order[5].empty(), "multi_void");
        if (!th) expect("multi_void", top(5), true, &a); else CHECK(log_.empty(), "multi_void: something was called");
    }
    {
        int* p = nullptr;
        log_.clear();
        bool th = throws([&] { p = &multi_ref::call(o); });
        CHECK(th == order[6].empty(), "multi_ref");
        if (!th) { expect("multi_ref", top(6), true, nullptr); CHECK(p == &cells[order[6][0].k], "result of multi_ref"); }
    }
    // combinators
    for (int f : {2, 3}) {
        stopper s;
        s.after = g.coin() ? int(g.below(4)) + 1 : 99;
        log_.clear();
        bool th;
        if (f == 2) th = throws([&] { multi::traits::caller::call_with_v1_combinator(multi::info, s, o, val(v), r); });
        else th = throws([&] { multi_def::traits::caller::call_with_v1_combinator(multi_def::info, s, c, val(v), r); });
        auto want = top(f);
        if (want.empty()) {
            CHECK(th == (f == 2), "combinator without an implementer");
            if (f == 3) { CHECK(s.got.size() == 1 && s.got[0] == 7000 + v && s.num == 1, "combinator and default"); expect("combinator", {{-1, &o, 0}}, false, &r); }
            else CHECK(s.got.empty() && log_.empty(), "combinator without an implementer");
            continue;
        }
        CHECK(!th, "combinator call throws");
        CHECK(s.num == want.size(), "number of results announced: ", s.num, " instead of ", want.size());
        std::reverse(want.begin(), want.end());
        if (int(want.size()) > s.after) want.resize(s.after);
        expect("combinator", want, false, &r);
        CHECK(s.got.size() == want.size(), "number of results");
        for (size_t i = 0; i < want.size(); ++i) CHECK(s.got[i] == ret(want[i].k, v), "results of the combinator");
    }
    // next implementers and bidders
    static next_f tab[4][3][NM];
    if (!tab[0][0][0]) {
        std::make_integer_sequence<int, NM> s;
        nexts<uni>(tab[0], s); nexts<uni_def>(tab[1], s); nexts<multi>(tab[2], s); nexts<multi_def>(tab[3], s);
    }
    for (int f = 0; f < 4; ++f) for (mixin_index_t i = 0; i < t.num_mixins(); ++i) {
        int k = idx(m::find(t.mixins[i]));
        auto& od = order[f];
        size_t at = 0;
        while (at < od.size() && od[at].k != k) ++at;
        std::vector<target> ni, ns;
        if (at + 1 < od.size()) ni.push_back(od[at + 1]);
        for (size_t j = at; j < od.size(); ++j) if (od[j].bid < od[at].bid && (ns.empty() || ns[0].bid == od[j].bid)) ns.push_back(od[j]);
        auto ntop = ns;
        if (!ntop.empty()) ntop.resize(1);
        const std::vector<target>* want[] = {&ni, &ns, &ntop};
        static const char* const what[] = {"next implementer", "next bidder set", "next bidder top"};
        for (int q = 0; q < 3; ++q) {
            log_.clear();
            bool has = false;
            bool th = throws([&] { got = tab[f][q][k](o.get_at(i), v, r, has); });
            CHECK(has == !want[q]->empty(), "has ", what[q]);
            CHECK(th == !has, what[q], th ? " throws" : " does not throw");
            expect(what[q], *want[q], true, &r);
            if (has) CHECK(got == ret((*want[q])[0].k, v), "result of ", what[q]);
        }
    }
}

void run(h::rng& g, bool thorough) {
    const common_feature_info* fi[] = {&uni::get_info_safe(), &uni_def::get_info_safe(), &multi::get_info_safe(), &multi_def::get_info_safe(), &uni_own::get_info_safe(), &multi_void::get_info_safe(),
                                 &multi_ref::get_info_safe(), &named_uni_msg::get_info_safe(), &named_multi_msg::get_info_safe(), &named_none_msg::get_info_safe()};
    for (int i = 0; i < NF; ++i) infos[i] = const_cast<common_feature_info*>(fi[i]);
    int n = thorough ? 8000 : 800;
    for (int c = 0; c < n; ++c) {
        h::begin(h::cat("case ", c, " "));
        fresh_world();
        {
            world w;
            std::string d;
            int dense = g.coin() ? 30 : 70;
            for (int k = 0; k < NM; ++k) {
                auto& x = w.random(g, h::cat("m", k), 0, true);
                cur[k] = &x;
                d += x.name + (x.info.force_external ? "(ext" : "(");
                for (int f = 0; f < NF; ++f) if (g.coin(dense)) {
                    feature_for_mixin q{};
                    q.info = infos[f];
                    q.payload = payload(k, f, std::make_integer_sequence<int, NM>());
                    q.bid = g.coin() ? 0 : int(g.below(3)) - 1;
                    q.priority = g.coin(70) ? 0 : int(g.below(3)) - 1;
                    x.feats.push_back(q);
                    d += h::cat(" ", f, ":", q.bid, "/", q.priority);
                }
                d += ") ";
                x.set_feats();
            }
            h::step(d);
            // features get any ids
            for (int i = 0; i < 3; ++i) { auto& f = *infos[g.below(NF)]; if (f.id == invalid_feature_id) w.dom->register_feature(f); }
            for (int k = 0; k < NM; ++k) w.dom->register_mixin(cur[k]->info);
            for (auto f : infos) if (f->id == invalid_feature_id) w.dom->register_feature(*f);
            {
                special o(*w.dom, allocator(&w.r));
                for (int s = 0; s < 4; ++s) {
                    if (s) {
                        auto sub = w.subset(g, 7);
                        h::step("object " + str(sub));
                        mutate_to(o, w.get(sub));
                    }
                    all(g, o);
                }
            }
            w.dom->garbage_collect_types();
            for (int k = 0; k < NM; ++k) w.dom->unregister_mixin(cur[k]->info);
            for (auto f : infos) w.dom->unregister_feature(*f);
        }
        balanced();
        live.clear();
    }
}
