// the C API next to the C++ API: the same operations on two worlds built alike
#include "m.hpp"
#include <dnmx/domain.h>
#include <dnmx/object.h>
#include <dnmx/type.h>
#include <dnmx/type_mutation.h>
#include <dnmx/type_class.h>
#include <dnmx/mutate.h>
#include <dnmx/mixin_allocator.h>
#include <memory_resource>
using namespace m;

struct quiet final : std::pmr::memory_resource {
    void* do_allocate(size_t n, size_t a) override { auto f = fuse; fuse = -1; auto p = take(n, a, this); fuse = f; return p; }
    void do_deallocate(void* p, size_t n, size_t a) override { give(p, n, a, this); }
    bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
};
static quiet res_;

static void* c_alloc(const mixin_info* i) {
    if (burn()) return nullptr;
    auto f = fuse; fuse = -1;
    auto p = take(i->obj_buf_size, i->obj_buf_alignment_and_mixin_offset, i);
    fuse = f;
    return p;
}
static void c_free(void* p, const mixin_info* i) { give(p, i->obj_buf_size, i->obj_buf_alignment_and_mixin_offset, i); }

static bool tc_even(dnmx_type_handle t) noexcept { return type::from_c_handle(t)->num_mixins() % 2 == 0; }
static bool tc_one(dnmx_type_handle t) noexcept { return type::from_c_handle(t)->num_mixins() == 1; }
static type_class tcs[4];

struct W;
struct rl { mutation_rule_info info = {}; std::string name; W* w; char op; int x, y; };

struct W {
    bool c;
    domain* dom = nullptr;
    std::vector<std::unique_ptr<mx>> own;
    std::vector<std::unique_ptr<common_feature_info>> fs;
    std::vector<std::string> fn;
    std::vector<std::unique_ptr<rl>> rules;
    std::vector<object*> objs;
    std::vector<dnmx_mixin_allocator_handle> als;
    type_mutation* mut = nullptr;

    int idx(const mixin_info* i) const { if (!i) return -1; for (size_t k = 0; k < own.size(); ++k) if (&own[k]->info == i) return int(k); CHECK(false, "an unknown mixin info"); return -2; }
    int fidx(const feature_info* i) const { if (!i) return -1; for (size_t k = 0; k < fs.size(); ++k) if (fs[k].get() == i) return int(k); CHECK(false, "an unknown feature"); return -2; }
    std::string ts(const type* t) const { if (!t) return "null"; std::string s = "{"; for (auto i : t->mixins) s += h::cat(idx(i), ","); return s + "}"; }
    std::string at(const void* p) const {
        if (!p) return "null";
        for (size_t o = 0; o < objs.size(); ++o) for (mixin_index_t i = 0; i < objs[o]->num_mixins(); ++i) if (objs[o]->get_at(i) == p) return h::cat("object ", o, " mixin ", i);
        return "elsewhere";
    }
    static error_return_t apply(dnmx_type_mutation_handle hm, uintptr_t ud) {
        auto& r = *reinterpret_cast<rl*>(ud);
        auto& m = *type_mutation::from_c_handle(hm);
        auto& x = r.w->own[r.x]->info;
        switch (r.op) {
        case '+': m.add_if_lacking(x); return 0;
        case '-': m.remove(x); return 0;
        case '2': m.add(x); return 0;
        default: return m.has(x) ? 3 : 0;
        }
    }
    W(h::rng g, bool c) : c(c) {
        domain_settings s = {};
        s.canonicalize_types = g.coin(20); s.allow_duplicate_mixin_names = g.coin(30); s.allow_duplicate_feature_names = g.coin(30);
        uintptr_t ud = g.below(100);
        void* ctx = &tcs[g.below(3)];
        if (c) dom = domain::from_c_handle(dnmx_create_domain(dnmx_sv::from_std("dom"), s, ud, ctx));
        else dom = new domain("dom", s, ud, ctx);
        auto hd = dom->to_c_hanlde();
        CHECK(dom->user_data == ud && dom->context == ctx && dom->name() == "dom", "attributes of the domain");
        auto ss = dnmx_get_domain_settings(hd);
        CHECK(ss.canonicalize_types == s.canonicalize_types && ss.allow_duplicate_mixin_names == s.allow_duplicate_mixin_names && ss.allow_duplicate_feature_names == s.allow_duplicate_feature_names, "settings");
        CHECK(dnmx_get_domain_user_data(hd) == ud && dnmx_get_domain_context(hd) == ctx && dnmx_get_domain_name(hd).to_std() == "dom", "attributes of the domain");
        static const char* const dup[] = {"a", "", "m1"};
        fn.resize(4);
        for (int i = 0; i < 4; ++i) {
            fs.push_back(std::make_unique<common_feature_info>());
            fn[i] = g.coin(80) ? h::cat("f", i) : "f0";
            fs[i]->name = dnmx_sv::from_std(fn[i]);
            fs[i]->allow_clashes = g.coin();
            if (g.coin(30)) fs[i]->default_payload = &tcs;
        }
        int n = 3 + int(g.below(4));
        for (int i = 0; i < n; ++i) {
            static const size_t sz[] = {1, 2, 4, 8, 16};
            size_t al = sz[g.below(5)];
            unsigned f = F_ALL;
            for (unsigned b = 1; b < 256; b <<= 1) if (b != F_DESTROY && b != F_MINIT && g.coin(10)) f &= ~b;
            if (g.coin()) f |= F_EQ;
            if (g.coin()) f |= F_CMP;
            own.push_back(std::make_unique<mx>(g.coin(85) ? h::cat("m", i) : dup[g.below(3)], al * (1 + g.below(3)), al, f));
            auto& x = *own.back();
            x.throws = g.coin();
            x.info.force_external = g.coin(10);
            if (g.coin(20)) {
                if (c) { als.push_back(dnmx_create_mixin_allocator(c_alloc, c_free)); x.info.allocator = als.back(); }
                else x.use_alloc();
            }
            x.info.dependency = g.coin(10);
            for (auto& q : fs) if (g.coin(25)) { feature_for_mixin z{}; z.info = q.get(); z.bid = int(g.below(2)); x.feats.push_back(z); }
            x.set_feats();
        }
        for (int i = 0; i < 3; ++i) {
            auto q = std::make_unique<rl>();
            q->name = h::cat("r", i); q->w = this; q->op = "+-2!"[g.below(4)]; q->x = int(g.below(n));
            q->info.name = dnmx_sv::from_std(q->name);
            q->info.apply = apply;
            q->info.user_data = uintptr_t(q.get());
            rules.push_back(std::move(q));
        }
    }
    ~W() {
        if (c) {
            for (auto o : objs) dnmx_destroy_object(o->to_c_hanlde());
            if (mut) dnmx_destroy_unused_type_mutation(mut->to_c_hanlde());
            dnmx_destroy_domain(dom->to_c_hanlde());
            for (auto a : als) dnmx_destroy_mixin_allocator(a);
        }
        else {
            for (auto o : objs) delete o;
            delete mut;
            delete dom;
        }
    }
    // everything observable
    std::string dump() {
        std::ostringstream s;
        s << dom->user_data << " " << dom->context << " ";
        for (size_t i = 0; i < own.size(); ++i) s << "m" << i << ":" << own[i]->info.id.i << (own[i]->info.dom ? "d " : " ");
        for (size_t i = 0; i < fs.size(); ++i) s << "f" << i << ":" << fs[i]->id.i << " ";
        {
            domain_traverse t(*dom);
            t.traverse_mixins([&](const mixin_info& i) { s << "M" << idx(&i) << " "; });
            t.traverse_features([&](const feature_info& i) { s << "F" << fidx(&i) << " "; });
            t.traverse_type_classes([&](const type_class& i) { s << "C" << (&i - tcs) << " "; });
            t.traverse_mutation_rules([&](const mutation_rule_info& i, uint32_t n) { s << "R" << i.name.to_std() << ":" << n << " "; });
            std::multiset<std::string> ty;
            t.traverse_types([&](const type& x) { ty.insert(ts(&x) + "x" + std::to_string(x.num_objects())); });
            for (auto& x : ty) s << x << " ";
        }
        s << dom->num_type_queries() << " queries ";
        for (auto o : objs) {
            auto l = look(*o);
            s << ts(l.t) << (l.sealed ? "s" : "") << "(";
            for (auto v : l.vals) s << v << ",";
            s << ") ";
        }
        if (mut) { s << "mut "; for (auto i : mut->mixins) s << idx(i) << ","; }
        return s.str();
    }
};

struct ovd { W* w; mx* who; uint64_t value; int err; int calls; };
static error_return_t ov_init(dnmx_mutate_func_args a) {
    auto& o = *reinterpret_cast<ovd*>(a.user_data);
    CHECK(a.info == &o.who->info && a.target_type && type::from_c_handle(a.target_type)->mixins[a.target_index] == a.info, "arguments of an override: ", o.who->name);
    ++o.calls;
    if (o.err) return o.err;
    mx::put(a.mixin_buf, *o.who, o.value, 'o');
    return 0;
}
static error_return_t ov_update(dnmx_mutate_func_args a) {
    auto& o = *reinterpret_cast<ovd*>(a.user_data);
    CHECK(a.info == &o.who->info && a.target_type && a.source_type && type::from_c_handle(a.target_type)->mixins[a.target_index] == a.info && type::from_c_handle(a.source_type)->mixins[a.source_index] == a.info, "arguments of an update override: ", o.who->name);
    o.calls += 100;
    auto& i = mx::get(a.mixin_buf, *o.who, "update");
    if (o.err) return o.err;
    i.val = o.value;
    mx::fill(reinterpret_cast<char*>(a.mixin_buf), *o.who, o.value);
    return 0;
}

// one operation on a world; the same random choices for both. Its result as text
static std::string op(W& w, h::rng& g, std::string& d) {
    auto hd = w.dom->to_c_hanlde();
    auto& dom = *w.dom;
    size_t xi = g.below(w.own.size());
    auto& x = *w.own[xi];
    auto& xin = x.info;
    auto& f = *w.fs[g.below(w.fs.size())];
    auto& tc = tcs[g.below(4)];
    object* o = w.objs.empty() ? nullptr : w.objs[g.below(w.objs.size())];
    object* p = w.objs.empty() ? nullptr : w.objs[g.below(w.objs.size())];
    std::string nm = g.coin(80) ? x.name : g.coin() ? "nope" : "";
    auto sv = dnmx_sv::from_std(nm);
    std::string fnm = g.coin(80) ? f.name.to_std().data() : "nope";
    auto fsv = dnmx_sv::from_std(fnm);
    auto B = [](bool b) { return std::string(b ? "true" : "false"); };
    std::vector<const mixin_info*> req;
    for (size_t n = g.below(5); n-- > 0;) {
        auto i = &w.own[g.below(w.own.size())]->info;
        if (g.coin(90) && (std::find(req.begin(), req.end(), i) != req.end() || i->id == invalid_mixin_id)) continue;
        req.push_back(i);
    }
    // types known: of objects and of the request
    const type* t = nullptr;
    if (o && g.coin()) t = &o->get_type();
    uint64_t r1 = g.next(), r2 = g.next();
    h::rng sub(g.next());
    auto ok = [&](error_return_t e) { return std::string(e ? "error" : "fine"); };
    auto cpp = [&](auto fn) { try { fn(); return std::string("fine"); } catch (std::exception&) { return std::string("error"); } };
    auto cppt = [&](auto fn) { try { return w.ts(&fn()); } catch (std::exception&) { return std::string("null"); } };
    bool C = w.c;
    static const int kinds[] = {0, 1, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 23, 24, 25, 26, 26, 26, 27, 27, 28, 29, 30, 29, 30, 31, 32};
    int k = kinds[g.below(sizeof(kinds) / sizeof(int))];
    if (g.coin(5) && w.own[0]->info.id == invalid_mixin_id) k = 0;
    int k2 = int(g.below(8));
    auto need_type = [&] {
        if (t) return true;
        try { t = &dom.get_type(itlib::span<const mixin_info* const>(req.data(), req.size())); return true; } catch (std::exception&) { return false; }
    };
    d = h::cat("op ", k, ".", k2, " mixin ", xi, " \"", nm, "\"");
    switch (k) {
    case 0: case 1: case 2: d = "register mixin " + std::to_string(xi); return C ? ok(dnmx_register_mixin(hd, &xin)) : cpp([&] { dom.register_mixin(xin); });
    case 3: {
        // own only: the void function cannot report
        if (xin.id == invalid_mixin_id) return "";
        for (auto q : w.objs) if (q->has(xin)) return "";
        d = "unregister mixin " + std::to_string(xi);
        if (C) dnmx_unregister_mixin(hd, &xin); else dom.unregister_mixin(xin);
        return "";
    }
    case 4: d = "register feature"; return C ? ok(dnmx_register_feature(hd, &f)) : cpp([&] { dom.register_feature(f); });
    case 5: {
        if (f.id == invalid_feature_id) return "";
        for (auto& q : w.own) for (auto& z : q->feats) if (z.info == &f && q->info.id != invalid_mixin_id) return "";
        d = "unregister feature";
        if (C) dnmx_unregister_feature(hd, &f); else dom.unregister_feature(f);
        return "";
    }
    case 6: {
        d = "look up " + nm;
        std::string s;
        for (uint32_t i = 0; i < 9; ++i) {
            s += h::cat(w.idx(C ? dnmx_get_mixin_info_by_id(hd, mixin_id{i}) : dom.get_mixin_info(mixin_id{i})), " ");
            s += h::cat(w.fidx(C ? dnmx_get_feature_info_by_id(hd, feature_id{i}) : dom.get_feature_info(feature_id{i})), " ");
        }
        s += h::cat(w.idx(C ? dnmx_get_mixin_info_by_name(hd, sv) : dom.get_mixin_info(nm)), " ");
        s += h::cat(w.fidx(C ? dnmx_get_feature_info_by_name(hd, fsv) : dom.get_feature_info(fnm)), " ");
        for (auto n : {"even", "one", "", "zz"}) { auto q = C ? dnmx_get_type_class_by_name(hd, dnmx_sv::from_std(n)) : dom.get_type_class(n); s += h::cat(q ? q - tcs : -1, " "); }
        return s;
    }
    case 7: d = "register type class"; return C ? ok(dnmx_register_type_class(hd, &tc)) : cpp([&] { dom.register_type_class(tc); });
    case 8: d = "unregister type class"; if (C) dnmx_unregister_type_class(hd, &tc); else dom.unregister_type_class(tc); return "";
    case 9: {
        auto& r = *w.rules[r1 % 3];
        mutation_rule_info none = {};
        auto& i = r2 % 8 ? r.info : none;
        d = h::cat("add rule ", &i == &none ? "none" : r.name, r.op, r.x);
        return C ? ok(dnmx_add_mutation_rule(hd, &i)) : cpp([&] { dom.add_mutation_rule(i); });
    }
    case 10: case 11: { auto& r = *w.rules[r1 % 3]; d = "remove rule " + r.name; if (C) dnmx_remove_mutation_rule(hd, &r.info); else dom.remove_mutation_rule(r.info); return ""; }
    case 12: case 13: {
        d = "get type";
        for (auto i : req) d += h::cat(" ", w.idx(i));
        return C ? w.ts(type::from_c_handle(dnmx_get_type_from_infos(hd, req.data(), uint32_t(req.size())))) : cppt([&]() -> auto& { return dom.get_type(itlib::span<const mixin_info* const>(req.data(), req.size())); });
    }
    case 14: {
        d = "get type of the mutation";
        if (!w.mut) return "";
        if (C) {
            auto m = w.mut->to_c_hanlde();
            auto r = dnmx_get_type(hd, &m);
            CHECK(!m, "the mutation is not consumed");
            w.mut = nullptr;
            return w.ts(type::from_c_handle(r));
        }
        std::unique_ptr<type_mutation> q(w.mut);
        w.mut = nullptr;
        return cppt([&]() -> auto& { return dom.get_type(std::move(*q)); });
    }
    case 15: {
        d = "collect";
        if (C) { CHECK(type::from_c_handle(dnmx_get_empty_type(hd)) == &dom.get_empty_type() && dnmx_get_num_types(hd) == dom.num_types(), "empty type, number of types"); dnmx_garbage_collect_types(hd); }
        else dom.garbage_collect_types();
        return "";
    }
    case 16: {
        d = "attributes";
        if (C) { dnmx_set_domain_user_data(hd, uintptr_t(r1 % 50)); dnmx_set_domain_context(hd, &tcs[r2 % 4]); }
        else { dom.user_data = uintptr_t(r1 % 50); dom.context = &tcs[r2 % 4]; }
        return "";
    }
    case 17: {
        d = "new mutation";
        bool from = r1 % 2 && need_type();
        if (C) {
            if (w.mut) dnmx_destroy_unused_type_mutation(w.mut->to_c_hanlde());
            w.mut = type_mutation::from_c_handle(from ? dnmx_create_type_mutation_from_type(t) : dnmx_create_type_mutation_empty(hd));
            CHECK(w.mut && dnmx_type_mutation_get_domain(w.mut->to_c_hanlde()) == hd, "domain of the mutation");
        }
        else { delete w.mut; w.mut = from ? new type_mutation(*t) : new type_mutation(dom); }
        return "";
    }
    case 18: case 19: case 20: case 21: {
        if (!w.mut) return "";
        auto hm = w.mut->to_c_hanlde();
        auto& m = *w.mut;
        d = h::cat("mutation op ", k2, " ", xi, " ", nm);
        switch (k2) {
        case 0: return C ? B(dnmx_type_mutation_add(hm, &xin)) : (m.add(xin), "true");
        case 1: return B(C ? dnmx_type_mutation_add_if_lacking(hm, &xin) : m.add_if_lacking(xin));
        case 2: return B(C ? dnmx_type_mutation_remove(hm, &xin) : m.remove(xin));
        case 3: return std::to_string(w.idx(C ? dnmx_type_mutation_remove_by_name(hm, sv) : m.remove(nm)));
        case 4: return C ? B(dnmx_type_mutation_to_back(hm, &xin)) : cpp([&] { m.to_back(xin); }) == "fine" ? "true" : "false";
        case 5: { const mixin_info* q = nullptr; if (C) q = dnmx_type_mutation_to_back_by_name(hm, sv); else cpp([&] { q = &m.to_back(nm); }); return std::to_string(w.idx(q)); }
        case 6: if (C) dnmx_type_mutation_dedup(hm); else m.dedup(); return "";
        default: return C ? B(dnmx_type_mutation_set_mixins(hm, req.data(), mixin_index_t(req.size()))) : (m.mixins.assign(req.begin(), req.end()), "true");
        }
    }
    case 22: {
        if (!w.mut) return "";
        auto hm = w.mut->to_c_hanlde();
        auto& m = *w.mut;
        d = "mutation queries";
        if (C) {
            mixin_index_t n = 77;
            auto q = dnmx_type_mutation_get_mixins(hm, &n);
            CHECK(n == m.mixins.size() && q == m.mixins.data(), "mixins of the mutation");
            return h::cat(dnmx_type_mutation_has(hm, &xin), w.idx(dnmx_type_mutation_has_by_name(hm, sv)), dnmx_type_mutation_implements_strong(hm, &f), w.fidx(dnmx_type_mutation_implements_strong_by_name(hm, fsv)), dnmx_type_mutation_implements(hm, &f));
        }
        return h::cat(m.has(xin), w.idx(m.has(nm)), m.implements_strong(f), w.fidx(m.implements_strong(fnm)), m.implements(f));
    }
    case 23: case 24: {
        if (w.objs.size() > 5) return "";
        object* q = nullptr;
        d = h::cat("new object ", k2);
        switch (k2 % 4) {
        case 0: if (C) q = object::from_c_handle(dnmx_create_object_empty(hd)); else q = new object(dom); break;
        case 1: if (!need_type()) return ""; d += " " + w.ts(t); if (C) q = object::from_c_handle(dnmx_create_object_default(t)); else cpp([&] { q = new object(*t); }); break;
        case 2: if (!o) return ""; if (C) q = object::from_c_handle(dnmx_create_object_copy(static_cast<const object*>(o)->to_c_hanlde())); else cpp([&] { q = new object(o->copy()); }); break;
        default: if (!o) return ""; if (C) q = object::from_c_handle(dnmx_create_object_usurp(o->to_c_hanlde())); else q = new object(std::move(*o)); break;
        }
        if (q) w.objs.push_back(q);
        return q ? "made" : "null";
    }
    case 25: {
        if (!o) return "";
        d = "destroy object";
        w.objs.erase(std::find(w.objs.begin(), w.objs.end(), o));
        if (C) dnmx_destroy_object(o->to_c_hanlde()); else delete o;
        return "";
    }
    case 26: {
        if (!o) return "";
        d = h::cat("object change ", k2);
        switch (k2) {
        case 0: case 1: return C ? ok(dnmx_object_copy_from(o->to_c_hanlde(), static_cast<const object*>(p)->to_c_hanlde())) : cpp([&] { o->copy_from(*p); });
        case 2: return C ? B(dnmx_object_clear(o->to_c_hanlde())) : cpp([&] { o->clear(); }) == "fine" ? "true" : "false";
        case 3: if (r1 % 3) return ""; d = "seal"; if (C) dnmx_object_seal(o->to_c_hanlde()); else o->seal(); return "";
        case 4: return C ? ok(dnmx_object_reset_type(o->to_c_hanlde(), nullptr)) : cpp([&] { o->clear(); });
        default: if (!need_type()) return ""; d += " " + w.ts(t); return C ? ok(dnmx_object_reset_type(o->to_c_hanlde(), t)) : cpp([&] { o->reset_type(*t); });
        }
    }
    case 27: {
        if (!o) return "";
        d = "object queries";
        auto ho = o->to_c_hanlde();
        auto co = static_cast<const object*>(o)->to_c_hanlde();
        auto cp = static_cast<const object*>(p)->to_c_hanlde();
        std::string s;
        if (C) {
            CHECK(dnmx_object_get_domain(co) == hd && type::from_c_handle(dnmx_object_get_type(co)) == &o->get_type(), "domain and type of the object");
            s = h::cat(dnmx_object_num_mixins(co), dnmx_object_has(co, &xin), dnmx_object_has_by_name(co, sv), w.at(dnmx_object_get(co, &xin)), w.at(dnmx_object_get_by_name(co, sv)), w.at(dnmx_object_get_mut(ho, &xin)), w.at(dnmx_object_get_mut_by_name(ho, sv)));
            for (uint32_t i : {0u, 1u, 2u, 3u, 9u, 0xffffffffu}) s += w.at(dnmx_object_get_at(co, i)) + w.at(dnmx_object_get_mut_at(ho, i));
            s += h::cat(dnmx_object_is_empty(co), dnmx_object_is_sealed(co), dnmx_object_equals(co, cp));
            auto r = dnmx_object_compare(co, cp);
            s += r.error ? "error" : r.result < 0 ? "<" : r.result > 0 ? ">" : "=";
            return s;
        }
        s = h::cat(o->num_mixins(), o->has(xin), o->has(nm), w.at(o->get(xin)), w.at(o->get(nm)), w.at(o->get(xin)), w.at(o->get(nm)));
        for (uint32_t i : {0u, 1u, 2u, 3u, 9u, 0xffffffffu}) s += w.at(o->get_at(i)) + w.at(o->get_at(i));
        s += h::cat(o->empty(), o->sealed(), o->equals(*p));
        int r = 0;
        if (cpp([&] { r = o->compare(*p); }) == "error") return s + "error";
        // types are compared by addresses of domains and infos last: the sign of different types may depend on the world
        return s + (r < 0 ? "<" : r > 0 ? ">" : "=");
    }
    case 28: {
        if (!need_type()) return "";
        d = "type queries " + w.ts(t);
        auto ht = static_cast<dnmx_type_handle>(t);
        std::string s;
        if (C) {
            s = h::cat(dnmx_type_num_objects(ht), " ", dnmx_type_num_mixins(ht), dnmx_type_has(ht, &xin), dnmx_type_has_by_name(ht, sv), " ", dnmx_type_index_of(ht, &xin), " ", dnmx_type_index_of_name(ht, sv), dnmx_type_implements_strong(ht, &f),
                       dnmx_type_implements_strong_by_name(ht, fsv), dnmx_type_implements(ht, &f), dnmx_type_is_of(ht, &tcs[r1 % 3]), dnmx_type_is_default_constructible(ht), dnmx_type_is_copy_constructible(ht), dnmx_type_is_copy_assignable(ht),
                       dnmx_type_is_equality_comparable(ht), dnmx_type_is_comparable(ht));
            for (auto n : {"even", "one", "", "zz"}) s += h::cat(dnmx_type_is_of_name(ht, dnmx_sv::from_std(n)));
            return s;
        }
        s = h::cat(t->num_objects(), " ", t->num_mixins(), t->has(xin), t->has(nm), " ", t->index_of(xin.id), " ", t->index_of(nm), t->implements_strong(f), t->implements_strong(fnm), t->implements(f), t->is_of(tcs[r1 % 3]),
                   t->default_constructible(), t->copy_constructible(), t->copy_assignable(), t->equality_comparable(), t->comparable());
        for (auto n : {"even", "one", "", "zz"}) { bool is = false; cpp([&] { is = t->is_of(n); }); s += h::cat(is); }
        return s;
    }
    case 29: case 30: {
        // dnmx_mutate against the list semantics of type_mutation and mutate_to with overrides
        if (!o) return "";
        struct one { int kind; mx* x; bool named; std::string name; bool over; ovd data; };
        std::vector<one> ops;
        d = "mutate";
        for (size_t n = sub.below(5); n-- > 0;) {
            one q;
            q.kind = int(sub.below(3));
            if (sub.coin(50)) q.kind = 0;
            if (sub.coin(2)) q.kind = 9;
            q.x = w.own[sub.below(w.own.size())].get();
            if (q.kind == 0 && sub.coin(80)) for (int z = 0; z < 6 && (o->has(q.x->info) || q.x->info.id == invalid_mixin_id); ++z) q.x = w.own[sub.below(w.own.size())].get();
            q.named = sub.coin(40);
            q.name = sub.coin(95) ? q.x->name : "nope";
            q.over = sub.coin();
            auto eff = q.named ? const_cast<mixin_info*>(dom.get_mixin_info(q.name)) : &q.x->info;
            q.data = {&w, eff ? m::find(eff) : q.x, counter + 500 + n, sub.coin(10) ? 4 : 0, 0};
            d += h::cat(" ", q.kind, q.named ? "n" : "i", q.named ? q.name : std::to_string(w.idx(&q.x->info)), q.over ? "*" : "", q.data.err ? "!" : "");
            ops.push_back(q);
        }
        if (C) {
            std::vector<dnmx_mutate_op> v;
            for (auto& q : ops) {
                dnmx_mutate_op z = {};
                z.op_type = q.kind == 0 ? dnmx_mutate_op_add : q.kind == 1 ? dnmx_mutate_op_remove : q.kind == 2 ? dnmx_mutate_op_to_back : 17;
                if (!q.named) z.mixin = &q.x->info;
                z.mixin_name = dnmx_sv::from_std(q.named ? q.name : std::string_view("m0"));
                if (q.over) z.init_override = ov_init;
                z.user_data = uintptr_t(&q.data);
                v.push_back(z);
            }
            auto r = ok(dnmx_mutate(o->to_c_hanlde(), v.data(), uint32_t(v.size())));
            for (auto& q : ops) r += h::cat(" ", q.data.calls);
            return r;
        }
        std::string r = cpp([&] {
            type_mutation m(o->get_type());
            for (auto& q : ops) switch (q.kind) {
            case 0: if (q.named) m.add(q.name); else m.add(q.x->info); break;
            case 1: if (q.named) m.remove(q.name); else m.remove(q.x->info); break;
            case 2: if (q.named) m.to_back(q.name); else m.to_back(q.x->info); break;
            default: throw injected("unknown operation");
            }
            auto& ty = dom.get_type(std::move(m));
            object_mutation mu(*o, ty);
            for (mixin_index_t i = 0; i < ty.num_mixins(); ++i) for (auto& q : ops) {
                if (q.kind || !q.over) continue;
                if (q.named ? ty.mixins[i]->name.to_std() != q.name : ty.mixins[i] != &q.x->info) continue;
                mu.update_at(i, [&](init_new_args a) { if (ov_init({&a.info, a.mixin_buf, &a.target_type, nullptr, a.target_index, invalid_mixin_index, uintptr_t(&q.data)})) throw injected("override"); }, util::noop_udpate_common_func);
                break;
            }
        });
        for (auto& q : ops) r += h::cat(" ", q.data.calls);
        return r;
    }
    case 31: case 32: {
        if (!o || !need_type()) return "";
        struct one { mx* x; bool named; bool init, upd; ovd data; };
        std::vector<one> ops;
        d = "mutate to " + w.ts(t);
        for (size_t n = sub.below(4); n-- > 0;) {
            one q;
            q.x = w.own[sub.below(w.own.size())].get();
            if (t->num_mixins() && sub.coin(80)) q.x = m::find(t->mixins[sub.below(t->num_mixins())]);
            q.named = sub.coin(40);
            q.init = sub.coin(70); q.upd = sub.coin(70);
            q.data = {&w, q.x, counter + 500 + n, sub.coin(10) ? 4 : 0, 0};
            if (q.named) for (auto i : t->mixins) if (i->name.to_std() == q.x->name) { q.data.who = m::find(i); break; }
            d += h::cat(" ", w.idx(&q.x->info), q.named ? "n" : "", q.init ? "i" : "", q.upd ? "u" : "", q.data.err ? "!" : "");
            ops.push_back(q);
        }
        // several mixins of the same name and a named override: the override fits each; not looked at
        for (auto& q : ops) if (q.named) { int c = 0; for (auto i : t->mixins) if (i->name.to_std() == q.x->name) ++c; if (c > 1) return ""; }
        if (C) {
            std::vector<dnmx_mutate_to_override> v;
            for (auto& q : ops) {
                dnmx_mutate_to_override z = {};
                if (!q.named) z.mixin = &q.x->info;
                z.mixin_name = dnmx_sv::from_std(q.named ? q.x->name : std::string_view("m0"));
                if (q.init) z.init_new = ov_init;
                if (q.upd) z.update_common = ov_update;
                z.user_data = uintptr_t(&q.data);
                v.push_back(z);
            }
            auto r = ok(dnmx_mutate_to(o->to_c_hanlde(), t, v.data(), uint32_t(v.size())));
            for (auto& q : ops) r += h::cat(" ", q.data.calls);
            return r;
        }
        std::string r = cpp([&] {
            object_mutation mu(*o, *t);
            for (mixin_index_t i = 0; i < t->num_mixins(); ++i) for (auto& q : ops) {
                if (q.named ? t->mixins[i]->name.to_std() != q.x->name : t->mixins[i] != &q.x->info) continue;
                mu.update_at(i, [&](init_new_args a) {
                    if (!q.init) return util::default_init_new_func(a);
                    if (ov_init({&a.info, a.mixin_buf, &a.target_type, nullptr, a.target_index, invalid_mixin_index, uintptr_t(&q.data)})) throw injected("override");
                }, [&](update_common_args a) {
                    if (q.upd && ov_update({&a.info, a.mixin_buf, &a.target_type, &a.source_type, a.target_index, a.source_index, uintptr_t(&q.data)})) throw injected("override");
                });
                break;
            }
        });
        for (auto& q : ops) r += h::cat(" ", q.data.calls);
        return r;
    }
    default: return "";
    }
}

void run(h::rng& g, bool thorough) {
    std::pmr::set_default_resource(&res_);
    static const char* const tn[] = {"even", "one", "even", ""};
    for (int i = 0; i < 4; ++i) { tcs[i].name = dnmx_sv::from_std(tn[i]); tcs[i].matches = i == 1 ? tc_one : tc_even; }
    int n = thorough ? 10000 : 900;
    for (int c = 0; c < n; ++c) {
        h::begin(h::cat("history ", c, " "));
        fresh_world();
        {
            h::rng seed(g.next());
            W a(seed, true), b(seed, false);
            for (auto& x : a.own) h::step(x->name);
            h::rng s(g.next());
            int steps = 20 + int(g.below(60));
            for (int i = 0; i < steps; ++i) {
                int blow = g.coin(12) ? int(g.below(4)) : -1;
                h::rng sa = s, sb = s;
                std::string da, db, ra, rb;
                counter = 1000 * (i + 1); fuse = blow;
                try { ra = op(a, sa, da); }
                catch (std::exception& e) { fuse = -1; h::step(da); CHECK(false, "an exception escapes from the C API: ", e.what()); }
                counter = 1000 * (i + 1); fuse = blow;
                rb = op(b, sb, db);
                fuse = -1;
                h::step(da + (blow >= 0 ? h::cat(" (failure at ", blow, ")") : std::string()));
                if (da == "object queries") {
                    // different types: their order depends on addresses
                    auto cut = [](std::string& x) { if (!x.empty() && (x.back() == '<' || x.back() == '>')) x.back() = '#'; };
                    cut(ra); cut(rb);
                }
                CHECK(ra == rb, "the C function gives ", ra, ", the C++ one ", rb);
                auto x = a.dump(), y = b.dump();
                CHECK(x == y, "the worlds differ: ", x, " instead of ", y);
                s.next();
            }
            h::step("end");
        }
        balanced();
        live.clear();
    }
}
