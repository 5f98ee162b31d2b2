// the rules of the v1 compatibility library
#include "m.hpp"
#include <dynamix/v1compat/domain.hpp>
#include <dynamix/v1compat/common_mutation_rules.hpp>
using namespace m;
namespace v1 = dynamix::v1compat;

constexpr int NM = 6;
static mx* cur[NM];
template <int K> struct X {};
template <int K> const mixin_info& _dynamix_get_mixin_info(const X<K>*) { return cur[K]->info; }

struct R {
    std::shared_ptr<v1::mutation_rule> rule;
    int kind = 0, a = 0, b = 0;
    std::vector<int> list;
    std::string str() const {
        static const char* const n[] = {"oneshot", "dep", "exclusive", "deprecated", "mandatory", "substitute"};
        std::string s = h::cat(n[kind], " ", a, "/", b, ":");
        for (int i : list) s += h::cat(i, ",");
        return s;
    }
    // false: refuses
    bool ref(std::vector<mx*>& v) const {
        auto at = [&](int k) { return std::find(v.begin(), v.end(), cur[k]); };
        switch (kind) {
        case 0: case 1:
            if (at(a) == v.end()) return true;
            for (int i : list) {
                if (kind == 1 && !cur[i]->info.dependency) return false;
                if (at(i) == v.end()) v.push_back(cur[i]);
            }
            return true;
        case 2: {
            auto listed = [&](mx* x) { for (int i : list) if (cur[i] == x) return true; return false; };
            size_t last = v.size();
            for (size_t i = 0; i < v.size(); ++i) if (listed(v[i])) last = i;
            std::vector<mx*> w;
            for (size_t i = 0; i < v.size(); ++i) if (!listed(v[i]) || i == last) w.push_back(v[i]);
            v = w;
            return true;
        }
        case 3: if (at(a) != v.end()) v.erase(at(a)); return true;
        case 4: if (at(a) == v.end()) v.push_back(cur[a]); return true;
        default:
            if (at(a) != v.end()) { v.erase(at(a)); v.push_back(cur[b]); }
            return true;
        }
    }
};
template <int A> struct mk {
    template <typename T> static std::shared_ptr<v1::mutation_rule> dep(const std::vector<int>& l, bool typed) {
        auto p = std::make_shared<T>();
        p->template set_master<X<A>>();
        fill(*p, l, typed);
        return p;
    }
    template <typename T> static void fill(T& p, const std::vector<int>& l, bool typed) {
        for (int i : l) {
            if (!typed) p.add(cur[i]->info);
            else switch (i) {
            case 0: p.template add<X<0>>(); break; case 1: p.template add<X<1>>(); break; case 2: p.template add<X<2>>(); break;
            case 3: p.template add<X<3>>(); break; case 4: p.template add<X<4>>(); break; default: p.template add<X<5>>(); break;
            }
        }
    }
    template <int... B> static std::shared_ptr<v1::mutation_rule> sub(int b, std::integer_sequence<int, B...>) {
        std::shared_ptr<v1::mutation_rule> r;
        ((b == B ? void(r.reset(new v1::substitute_mixin<X<A>, X<B>>())) : void()), ...);
        return r;
    }
    static std::shared_ptr<v1::mutation_rule> make(const R& r, bool typed) {
        switch (r.kind) {
        case 0: return dep<v1::dependent_mixins_oneshot>(r.list, typed);
        case 1: return dep<v1::dependent_mixins_dep>(r.list, typed);
        case 2: { auto p = std::make_shared<v1::mutually_exclusive_mixins>(); fill(*p, r.list, typed); return p; }
        case 3: return std::make_shared<v1::deprecated_mixin<X<A>>>();
        case 4: return std::make_shared<v1::mandatory_mixin<X<A>>>();
        default: return sub(r.b, std::make_integer_sequence<int, NM>());
        }
    }
};
template <int... A> std::shared_ptr<v1::mutation_rule> make(const R& r, bool typed, std::integer_sequence<int, A...>) {
    std::shared_ptr<v1::mutation_rule> p;
    ((r.a == A ? void(p = mk<A>::make(r, typed)) : void()), ...);
    return p;
}

static void history(h::rng& g) {
    auto& dom = v1::domain::instance();
    std::vector<std::unique_ptr<mx>> own;
    std::string d;
    for (int i = 0; i < NM; ++i) {
        own.push_back(std::make_unique<mx>(h::cat("m", i), 8, 8, F_ALL));
        cur[i] = own.back().get();
        cur[i]->info.dependency = g.coin(35);
        d += cur[i]->name + (cur[i]->info.dependency ? "d " : " ");
    }
    h::step(d);
    std::vector<int> reg = {0, 1, 2, 3, 4, 5};
    for (size_t i = NM; i > 1; --i) std::swap(reg[i - 1], reg[g.below(i)]);
    for (int i : reg) dom.register_mixin(cur[i]->info);
    std::vector<R> rules;
    int n = 1 + int(g.below(5));
    for (int i = 0; i < n; ++i) {
        R r;
        r.kind = int(g.below(6));
        r.a = int(g.below(NM)); r.b = int(g.below(NM));
        if (r.kind < 3) for (int k = int(g.below(5)); k-- > 0;) r.list.push_back(int(g.below(NM)));
        if (r.kind == 1 && g.coin(70)) { std::vector<int> l; for (int k : r.list) if (cur[k]->info.dependency) l.push_back(k); r.list = l; }
        r.rule = make(r, g.coin(), std::make_integer_sequence<int, NM>());
        h::step(r.str());
        rules.push_back(std::move(r));
    }
    std::map<v1::mutation_rule_id, R*> ids;
    int steps = 6 + int(g.below(20));
    for (int s = 0; s < steps; ++s) {
        auto& r = rules[g.below(rules.size())];
        switch (g.below(4)) {
        case 0: {    // the edit itself
            std::vector<mx*> v;
            type_mutation t(dom);
            for (int k = int(g.below(8)); k-- > 0;) {
                auto x = cur[g.below(NM)];
                if (g.coin(85) && std::find(v.begin(), v.end(), x) != v.end()) continue;
                v.push_back(x);
                t.mixins.push_back(&x->info);
            }
            h::step("apply " + r.str() + " to " + str(v));
            bool ok = r.ref(v);
            bool th = throws([&] { r.rule->apply_to(t); });
            CHECK(th == !ok, "the rule ", th ? "refuses" : "accepts");
            if (ok) {
                std::vector<mx*> got;
                for (auto i : t.mixins) got.push_back(m::find(i));
                CHECK(got == v, "the rule makes ", str(got), " instead of ", str(v));
            }
            break;
        }
        case 1: {
            if (ids.size() > 4) break;
            h::step("add " + r.str());
            auto id = v1::add_mutation_rule(r.rule);
            CHECK(!ids.count(id), "id ", id, " is in use");
            ids[id] = &r;
            break;
        }
        case 2: {
            v1::mutation_rule_id id = g.coin(20) ? v1::mutation_rule_id(g.below(12)) : ids.empty() ? v1::mutation_rule_id(0) : std::next(ids.begin(), g.below(ids.size()))->first;
            if (g.coin(3)) id = ~v1::mutation_rule_id(0);
            h::step(h::cat("remove ", id));
            auto got = v1::remove_mutation_rule(id);
            auto f = ids.find(id);
            CHECK(got == (f == ids.end() ? nullptr : f->second->rule), "removal of id ", id, " returns ", got ? "another rule" : "nothing");
            if (f != ids.end()) ids.erase(f);
            break;
        }
        default: {
            std::vector<mx*> v;
            for (int k = int(g.below(6)); k-- > 0;) {
                auto x = cur[g.below(NM)];
                if (g.coin(95) && std::find(v.begin(), v.end(), x) != v.end()) continue;
                v.push_back(x);
            }
            h::step("get " + str(v));
            std::vector<const mixin_info*> in;
            for (auto x : v) in.push_back(&x->info);
            // the reference
            std::vector<R*> act;
            for (auto& i : ids) if (std::find(act.begin(), act.end(), i.second) == act.end()) act.push_back(i.second);
            std::sort(act.begin(), act.end(), [](R* a, R* b) { return std::less<>{}(&a->rule->info(), &b->rule->info()); });
            bool ok = true;
            auto last = v;
            v.erase(std::remove_if(v.begin(), v.end(), [](mx* x) { return x->info.dependency; }), v.end());
            for (int i = 0; ok; ++i) {
                for (auto q : act) if (ok) ok = q->ref(v);
                if (!ok) break;
                std::sort(v.begin(), v.end(), [](mx* a, mx* b) { return canonical_mixin_order{}(&a->info, &b->info); });
                if (last == v) break;
                if (i == 5 || i == int(act.size()) + 1) ok = false;
                last = v;
            }
            if (ok) ok = std::set<mx*>(v.begin(), v.end()).size() == v.size();
            const type* t = nullptr;
            bool th = throws([&] { t = &dom.get_type(itlib::span<const mixin_info* const>(in.data(), in.size())); });
            CHECK(th == !ok, "the request ", th ? "fails" : "succeeds");
            if (!ok) break;
            std::vector<mx*> got;
            for (auto i : t->mixins) got.push_back(m::find(i));
            CHECK(got == v, "the type has ", str(got), " instead of ", str(v));
        }
        }
    }
    h::step("end");
    for (auto& i : ids) CHECK(v1::remove_mutation_rule(i.first) == i.second->rule, "removal of id ", i.first);
    CHECK(dom.num_mutation_rules() == 1, "rules stay active: ", dom.num_mutation_rules());
    for (auto& x : own) dom.unregister_mixin(x->info);
    for (auto& r : rules) CHECK(r.rule.use_count() == 1, "a removed rule is still held");
}

void run(h::rng& g, bool thorough) {
    int n = thorough ? 20000 : 2500;
    for (int c = 0; c < n; ++c) {
        h::begin(h::cat("history ", c, " "));
        fresh_world();
        history(g);
    }
}
