// type mutation against a plain list
#include "m.hpp"
using namespace m;
#include <dynamix/declare_domain.hpp>
#include <dynamix/define_domain.hpp>
#include <dynamix/declare_mixin.hpp>
#include <dynamix/define_mixin.hpp>
DYNAMIX_DECLARE_DOMAIN(c15_dom);
DYNAMIX_DEFINE_DOMAIN(c15_dom, "c15");
DYNAMIX_DECLARE_MIXIN(struct c15_a);
DYNAMIX_DECLARE_MIXIN(struct c15_b);
struct c15_a { int x; };
struct c15_b { char y; };
DYNAMIX_DEFINE_MIXIN(c15_dom, c15_a);
DYNAMIX_DEFINE_MIXIN(c15_dom, c15_b);

using list = std::vector<const mixin_info*>;

struct env {
    domain& dom;
    list own;          // what may be added
    std::vector<const feature_info*> fs;
    std::vector<std::string> names;
    const mixin_info* look(const std::string& n) {
        const mixin_info* r = nullptr;
        for (auto i : own) if (i->dom == dom.to_c_hanlde() && i->name.to_std() == n && (!r || i->id.i < r->id.i)) r = i;
        return r;
    }
};

static void history(h::rng& g, env& e, bool decl) {
    list v;
    std::optional<type_mutation> t;
    if (g.coin(30)) {
        // from a type
        for (auto i : e.own) if (g.coin(50)) v.push_back(i);
        for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[g.below(i)]);
        type_mutation base(e.dom);
        base.mixins.assign(v.begin(), v.end());
        auto& ty = e.dom.get_type(std::move(base));
        v.assign(ty.mixins.begin(), ty.mixins.end());
        t.emplace(ty);
        h::step("from type " + (decl ? std::string("d") : str(v)));
        CHECK(&t->dom == &e.dom && ty.mixins.size() == v.size(), "base");
    }
    else {
        t.emplace(e.dom);
        h::step("empty");
    }
    auto first = [&](const std::string& n) { return std::find_if(v.begin(), v.end(), [&](auto i) { return i->name.to_std() == n; }); };
    int n = 3 + int(g.below(25));
    for (int s = 0; s < n; ++s) {
        auto& x = *e.own[g.below(e.own.size())];
        auto& nm = e.names[g.below(e.names.size())];
        auto known = e.look(nm);
        auto at = std::find(v.begin(), v.end(), &x);
        auto by = first(nm);
        int k = int(g.below(decl ? 17 : 13));
        h::step(h::cat("op ", k, " ", x.name.to_std(), "/", nm));
        switch (k) {
        case 0: t->add(x); v.push_back(&x); break;
        case 1: {
            const mixin_info* r = nullptr;
            bool th = throws([&] { r = &t->add(nm); });
            CHECK(th == !known, "add by name ", nm);
            if (known) { v.push_back(known); CHECK(r == known, "result of add by name"); }
            break;
        }
        case 2: {
            auto r = t->safe_add(nm);
            CHECK(r == known, "result of safe_add");
            if (known) v.push_back(known);
            break;
        }
        case 3: {
            bool r = t->add_if_lacking(x);
            CHECK(r == (at == v.end()), "result of add_if_lacking");
            if (r) v.push_back(&x);
            break;
        }
        case 4: {
            const mixin_info* r = nullptr;
            bool th = throws([&] { r = t->add_if_lacking(nm); });
            bool have = by != v.end();
            CHECK(th == (!have && !known), "add_if_lacking by name ", nm);
            CHECK(r == (have ? nullptr : known), "result of add_if_lacking by name");
            if (r) v.push_back(r);
            break;
        }
        case 5: {
            auto r = t->safe_add_if_lacking(nm);
            CHECK(r == (by != v.end() ? nullptr : known), "result of safe_add_if_lacking by name");
            if (r) v.push_back(r);
            break;
        }
        case 6: {
            bool th = throws([&] { t->to_back(x); });
            CHECK(th == (at == v.end()), "to_back ", x.name.to_std());
            if (!th) { v.erase(at); v.push_back(&x); }
            break;
        }
        case 7: {
            const mixin_info* r = nullptr;
            bool th = throws([&] { r = &t->to_back(nm); });
            CHECK(th == (by == v.end()), "to_back by name ", nm);
            if (!th) { auto p = *by; CHECK(r == p, "result of to_back by name"); v.erase(by); v.push_back(p); }
            break;
        }
        case 8: {
            bool r = t->remove(x);
            CHECK(r == (at != v.end()), "result of remove");
            if (r) v.erase(at);
            break;
        }
        case 9: {
            auto r = t->remove(nm);
            CHECK(r == (by == v.end() ? nullptr : *by), "result of remove by name");
            if (by != v.end()) v.erase(by);
            break;
        }
        case 10: {
            t->dedup();
            list w;
            for (size_t i = 0; i < v.size(); ++i) if (std::find(v.begin() + i + 1, v.end(), v[i]) == v.end()) w.push_back(v[i]);
            v = w;
            break;
        }
        case 11: { auto m = t->mixins; type_mutation q(e.dom); q.mixins = m; std::swap(q.mixins, t->mixins); break; }
        case 12: break;
        case 13: t->add<c15_a>(); v.push_back(&g::get_mixin_info<c15_a>()); break;
        case 14: {
            bool have = std::find(v.begin(), v.end(), &g::get_mixin_info<c15_b>()) != v.end();
            CHECK(t->has<c15_b>() == have && t->lacks<c15_b>() == !have, "has<>");
            CHECK(t->add_if_lacking<c15_b>() == !have, "add_if_lacking<>");
            if (!have) v.push_back(&g::get_mixin_info<c15_b>());
            break;
        }
        case 15: {
            auto f = std::find(v.begin(), v.end(), &g::get_mixin_info<c15_b>());
            CHECK(t->remove<c15_b>() == (f != v.end()), "remove<>");
            if (f != v.end()) v.erase(f);
            break;
        }
        case 16: {
            auto p = &g::get_mixin_info<c15_a>();
            auto f = std::find(v.begin(), v.end(), p);
            CHECK(throws([&] { t->to_back<c15_a>(); }) == (f == v.end()), "to_back<>");
            if (f != v.end()) { v.erase(f); v.push_back(p); }
            break;
        }
        }
        list got(t->mixins.begin(), t->mixins.end());
        CHECK(got == v, "the list differs: ", got.size(), " mixins instead of ", v.size());
        // queries
        for (auto i : e.own) {
            bool in = std::find(v.begin(), v.end(), i) != v.end();
            CHECK(t->has(*i) == in && t->lacks(*i) == !in, "has ", i->name.to_std());
        }
        for (auto& q : e.names) {
            auto f = first(q);
            auto want = f == v.end() ? nullptr : *f;
            CHECK(t->has(q) == want && t->lacks(q) == !want, "has by name \"", q, "\"");
        }
        auto provided = [&](auto pred) -> const feature_info* {
            for (auto i : v) for (auto& f : i->features_span()) if (pred(*f.info)) return f.info;
            return nullptr;
        };
        for (auto f : e.fs) {
            bool in = provided([&](auto& x) { return &x == f; });
            CHECK(t->implements_strong(*f) == in, "implements_strong ", f->name.to_std());
            CHECK(t->implements(*f) == (in || f->default_payload), "implements ", f->name.to_std());
            auto n = f->name.to_std();
            CHECK(t->implements_strong(n) == provided([&](auto& x) { return x.name.to_std() == n; }), "implements_strong by name");
        }
        CHECK(!t->implements_strong("nosuch"), "implements an unknown feature");
    }
}

void run(h::rng& g, bool thorough) {
    int n = thorough ? 8000 : 700;
    for (int c = 0; c < n; ++c) {
        h::begin(h::cat("history ", c, " "));
        if (g.coin(15)) {
            auto& d = g::get_domain<c15_dom>();
            env e{d, {&g::get_mixin_info<c15_a>(), &g::get_mixin_info<c15_b>()}, {}, {"c15_a", "c15_b", "", "c15_"}};
            history(g, e, true);
            d.garbage_collect_types();
            continue;
        }
        fresh_world();
        {
            domain_settings s = {};
            s.allow_duplicate_mixin_names = g.coin();
            s.allow_duplicate_feature_names = g.coin();
            s.canonicalize_types = g.coin(20);
            world w(s);
            std::vector<std::unique_ptr<common_feature_info>> fs;
            std::vector<std::unique_ptr<std::string>> fn;
            env e{*w.dom, {}, {}, {"", "zz", "a", "m1", "m11", std::string("a\0b", 3)}};
            for (int i = 0; i < 4; ++i) {
                fs.push_back(std::make_unique<common_feature_info>());
                fn.push_back(std::make_unique<std::string>(s.allow_duplicate_feature_names && g.coin(30) ? "f" : h::cat("f", i)));
                fs.back()->name = dnmx_sv::from_std(*fn.back());
                fs.back()->allow_clashes = true;
                if (g.coin(30)) fs.back()->default_payload = &fs;
                e.fs.push_back(fs.back().get());
            }
            static const char* const dup[] = {"a", "", "m1", "b"};
            int k = 1 + int(g.below(7));
            for (int i = 0; i < k; ++i) {
                auto& x = w.random(g, s.allow_duplicate_mixin_names && g.coin(50) ? dup[g.below(4)] : g.coin(10) ? std::string("a\0b", 3) + std::to_string(i) : h::cat("m", i), 0, true);
                for (auto& f : fs) if (g.coin(35)) { feature_for_mixin q{}; q.info = f.get(); x.feats.push_back(q); }
                x.set_feats();
                w.dom->register_mixin(x.info);
                e.own.push_back(&x.info);
                e.names.push_back(x.name);
            }
            history(g, e, false);
        }
        live.clear();
        blocks.clear();
    }
}
