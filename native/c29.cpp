// mutate, mutate_to and gradual mutations
#include "m.hpp"
#include <dynamix/mutate_to_ops.hpp>
#include <dynamix/mutate_ops.hpp>
using namespace m;

struct c29_arg { int a; std::string b; c29_arg() : a(-1) {} c29_arg(int x, std::string y) : a(x), b(std::move(y)) {} };
struct c29_one { std::string s = "none"; c29_one() = default; explicit c29_one(std::string q) : s(std::move(q)) {} };

struct call { mx* who; size_t op; };
static std::vector<call> calls;
struct over {
    mx* who; size_t op; uint64_t value; bool fails; const type** expect;
    void operator()(init_new_args a) const {
        CHECK(&a.info == &who->info, "override ", op, " is called for another mixin");
        CHECK(*expect == nullptr || &a.target_type == *expect, "override: target type");
        CHECK(a.target_type.mixins[a.target_index] == &who->info, "override: target index ", a.target_index);
        calls.push_back({who, op});
        if (fails) throw injected("override");
        mx::put(a.mixin_buf, *who, value, 'o');
    }
};

// one operation of any kind; forwards to the real one
struct opx {
    int kind = -1; mx* x = nullptr; std::string name; over ov{};
    std::optional<mutate_op_remove_by_info> ri;
    std::optional<mutate_op_remove_by_name> rn;
    std::optional<mutate_op_just_add_by_info> ai;
    std::optional<mutate_op_just_add_by_name> an;
    std::optional<mutate_op_to_back_by_info> ti;
    std::optional<mutate_op_to_back_by_name> tn;
    std::unique_ptr<add_mixin_op_with_func_by_info<over&>> fi;
    std::unique_ptr<add_mixin_op_with_func_by_name<over&>> fn;
    std::unique_ptr<object_mutate_op_with_func<over&>> ci;
    std::unique_ptr<construct_mixin_op_with_func_by_name<over&>> cn;
    void make() {
        using namespace mutate_ops; using namespace mutate_to_ops;
        switch (kind) {
        case 0: ri.emplace(remove(x->info)); break;
        case 1: rn.emplace(remove(name)); break;
        case 2: ai.emplace(add(x->info)); break;
        case 3: an.emplace(add(name)); break;
        case 4: ti.emplace(to_back(x->info)); break;
        case 5: tn.emplace(to_back(name)); break;
        case 6: fi.reset(new add_mixin_op_with_func_by_info<over&>(add(x->info, ov))); break;
        case 7: fn.reset(new add_mixin_op_with_func_by_name<over&>(add(name, ov))); break;
        case 8: ci.reset(new object_mutate_op_with_func<over&>(construct(x->info, ov))); break;
        case 9: cn.reset(new construct_mixin_op_with_func_by_name<over&>(construct(name, ov))); break;
        }
    }
    void apply_to_type_mutation(type_mutation& m) {
        switch (kind) {
        case 0: ri->apply_to_type_mutation(m); break;
        case 1: rn->apply_to_type_mutation(m); break;
        case 2: ai->apply_to_type_mutation(m); break;
        case 3: an->apply_to_type_mutation(m); break;
        case 4: ti->apply_to_type_mutation(m); break;
        case 5: tn->apply_to_type_mutation(m); break;
        case 6: fi->apply_to_type_mutation(m); break;
        case 7: fn->apply_to_type_mutation(m); break;
        }
    }
    object_mutate_op* to_obj_mutate(object& o) {
        switch (kind) {
        case 0: return ri->to_obj_mutate(o);
        case 1: return rn->to_obj_mutate(o);
        case 2: return ai->to_obj_mutate(o);
        case 3: return an->to_obj_mutate(o);
        case 4: return ti->to_obj_mutate(o);
        case 5: return tn->to_obj_mutate(o);
        case 6: return fi->to_obj_mutate(o);
        case 7: return fn->to_obj_mutate(o);
        case 8: return ci->to_obj_mutate(o);
        case 9: return cn->to_obj_mutate(o);
        }
        return nullptr;
    }
    bool overrides() const { return kind >= 6; }
};

static error_return_t rule_apply(dnmx_type_mutation_handle h, uintptr_t ud) {
    auto& m = *type_mutation::from_c_handle(h);
    auto x = reinterpret_cast<mx*>(ud & ~uintptr_t(1));
    if (ud & 1) { while (m.remove(x->info)) {} } else m.add_if_lacking(x->info);
    return 0;
}

struct state {
    h::rng& g; world& w; mx* ruled = nullptr; bool rule_removes = false;
    mx* by_name(const std::string& n) { for (auto& x : w.own) if (x->name == n) return x.get(); return nullptr; }
    static bool edit(std::vector<mx*>& v, int kind, mx* x) {    // false: an error
        auto f = std::find(v.begin(), v.end(), x);
        switch (kind) {
        case 0: if (f != v.end()) v.erase(f); return true;
        case 1: if (f == v.end()) return false; v.erase(f); v.push_back(x); return true;
        default: if (!x) return false; v.push_back(x); return true;
        }
    }
    bool settle(std::vector<mx*>& v) {
        for (auto i = v.begin(); i != v.end();) if ((*i)->info.dependency) i = v.erase(i); else ++i;
        if (ruled) {
            if (rule_removes) v.erase(std::remove(v.begin(), v.end(), ruled), v.end());
            else if (std::find(v.begin(), v.end(), ruled) == v.end()) v.push_back(ruled);
        }
        return std::set<mx*>(v.begin(), v.end()).size() == v.size();
    }
};

template <typename F> static bool attempt(F f, std::string& what) {
    try { f(); } catch (std::exception& e) { what = e.what(); return true; } catch (...) { what = "?"; return true; }
    return false;
}

static void history(h::rng& g) {
    world w;
    int n = 3 + int(g.below(5));
    for (int i = 0; i < n; ++i) {
        auto& x = w.random(g, h::cat("m", i), 0, true);
        if (!x.info.dependency) x.info.dependency = g.coin(6);
        w.dom->register_mixin(x.info);
    }
    state S{g, w};
    mutation_rule_info ru = {};
    if (g.coin(35)) {
        S.ruled = w.own[g.below(n)].get();
        S.rule_removes = g.coin();
        ru.name = dnmx_sv::from_std("rule");
        ru.apply = rule_apply;
        ru.user_data = uintptr_t(S.ruled) | uintptr_t(S.rule_removes);
        w.dom->add_mutation_rule(ru);
    }
    h::step(w.desc() + (S.ruled ? (S.rule_removes ? "rule removes " : "rule adds ") + S.ruled->name : std::string("no rule")));
    {
        object o(*w.dom, allocator(&w.r));
        auto pick = [&] { return w.own[g.below(n)].get(); };
        for (int s = 0; s < 6; ++s) {
            auto before = look(o);
            auto B = before.ms;
            evs.clear(); calls.clear();
            long blocks_before = long(blocks.size());
            bool gradual = g.coin(30), to = !gradual && g.coin(35);
            int k = 1 + int(g.below(6));
            std::vector<mx*> v = B;
            const char* bad = nullptr;
            const type* expect = nullptr;
            std::vector<std::unique_ptr<opx>> ops;
            std::string d = gradual ? "gradual:" : to ? "to:" : "mutate:";
            std::vector<mx*> target;
            if (to) {
                target = w.subset(g);
                if (g.coin(10)) target = B;
                if (!S.settle(target)) continue;
                bool th = throws([&] { expect = &w.get(target); });
                if (th) continue;
                target.clear();
                for (auto i : expect->mixins) target.push_back(m::find(i));
                d += str(target);
            }
            for (int i = 0; i < 6; ++i) {
                ops.push_back(std::make_unique<opx>());
                auto& q = *ops.back();
                if (i >= k) continue;
                q.x = pick();
                q.name = q.x->name;
                if (g.coin(4)) q.name = "none";
                q.kind = to ? (g.coin(60) ? 8 : 9) : gradual ? int(g.below(6)) : int(g.below(8));
                if (to && g.coin(70)) { auto it = std::find_if(ops.begin(), ops.end() - 1, [&](auto& p) { return p->kind >= 0 && p->x == q.x; }); if (it != ops.end() - 1) { q.kind = -1; continue; } }
                bool named = q.kind % 2 == 1;
                if (!to && B.size() && g.coin(35) && q.kind < 2) { q.x = B[g.below(B.size())]; q.name = q.x->name; }
                if (!to && g.coin(70) && (q.kind == 2 || q.kind == 3 || q.kind == 6 || q.kind == 7)) {
                    // mostly something new
                    for (int z = 0; z < 5 && std::find(v.begin(), v.end(), q.x) != v.end(); ++z) { q.x = pick(); q.name = q.x->name; }
                }
                auto eff = named ? S.by_name(q.name) : q.x;
                q.ov = {eff ? eff : q.x, size_t(i), 1000000 + ++counter, g.coin(4), &expect};
                q.make();
                d += h::cat(" ", q.kind, named ? "n" : "i", named ? q.name : q.x->name, q.overrides() && q.ov.fails ? "!" : "");
                if (to || bad) continue;
                bool isrem = q.kind < 2, isback = q.kind == 4 || q.kind == 5;
                if (!S.edit(v, isrem ? 0 : isback ? 1 : 2, eff)) bad = "bad operation";
            }
            h::step(d);
            if (to) v = target;
            else if (!bad && !S.settle(v)) bad = "duplicate";
            if (!bad && !to) { /* resulting type */ }
            // overrides which apply
            std::map<mx*, std::vector<opx*>> app;
            bool same = !bad && v == B;
            if (!bad && !same) for (auto& q : ops) if (q->overrides()) {
                bool named = q->kind % 2 == 1;
                auto eff = named ? S.by_name(q->name) : q->x;
                if (eff && std::find(v.begin(), v.end(), eff) != v.end()) app[eff].push_back(q.get());
            }
            bool either = false;
            std::vector<mx*> fresh;
            if (!bad && !same) {
                for (auto x : v) if (std::find(B.begin(), B.end(), x) == B.end()) fresh.push_back(x);
                for (auto& a : app) if (a.second.size() > 1) {
                    if (std::find(fresh.begin(), fresh.end(), a.first) != fresh.end()) bad = "two overrides";
                    else either = true;
                }
                for (auto x : fresh) if (app.count(x) && app[x].size() >= 1 && app[x][0]->ov.fails && !bad) bad = "an override fails";
            }
            int end = gradual ? int(g.below(5)) : 0;      // 0 destructor, 1 apply, 2 cancel, 3 exception, 4 apply then more scope
            std::string what;
            bool th;
            if (gradual) {
                th = attempt([&] {
                    auto run = [&](gradual_mutation& q) {
                        for (auto& p : ops) switch (p->kind) {
                        case 0: q.remove(p->x->info); break;
                        case 1: q.remove(p->name); break;
                        case 2: q.add(p->x->info); break;
                        case 3: q.add(p->name); break;
                        case 4: q.to_back(p->x->info); break;
                        case 5: q.to_back(p->name); break;
                        }
                        CHECK(evs.empty() && &o.get_type() == before.t, "a gradual mutation is applied early");
                        if (end == 1 || end == 4) q.apply();
                        if (end == 4) { auto c = evs.size(); auto t = &o.get_type(); CHECK(c == evs.size() && t == &o.get_type(), ""); }
                        if (end == 2) q.cancel();
                        if (end == 3) throw injected("in flight");
                    };
                    gradual_mutation q(o);
                    run(q);
                }, what);
                if (end == 2 && !(bad && std::string(bad) == "bad operation")) { CHECK(!th, "a cancelled mutation throws ", what); bad = nullptr; v = B; fresh.clear(); }
                if (end == 3) { CHECK(th, "exception lost"); bad = "in flight"; }
            }
            else if (to) th = attempt([&] { mutate_to(o, *expect, *ops[0], *ops[1], *ops[2], *ops[3], *ops[4], *ops[5]); }, what);
            else if (g.coin()) th = attempt([&] { mutate(o, *ops[0], *ops[1], *ops[2], *ops[3], *ops[4], *ops[5]); }, what);
            else th = attempt([&] { mutate(o, std::move(*ops[0]), std::move(*ops[1]), std::move(*ops[2]), std::move(*ops[3]), std::move(*ops[4]), std::move(*ops[5])); }, what);
            if (!either) CHECK(th == !!bad, "the mutation ", th ? "fails (" + what + ")" : "succeeds", " though: ", bad ? bad : "nothing is wrong with it");
            auto after = look(o);
            if (th) {
                CHECK(after == before, "a failed mutation changes the object: ", str(after.ms), " after ", str(before.ms));
                CHECK(long(blocks.size()) == blocks_before, "a failed mutation keeps memory");
                continue;
            }
            CHECK(after.ms == v, "the object has ", str(after.ms), " instead of ", str(v));
            // each new mixin: constructed once, by its override if there is one
            for (auto x : fresh) {
                auto at = std::find(v.begin(), v.end(), x) - v.begin();
                long inits = std::count_if(evs.begin(), evs.end(), [&](auto& e) { return e.what == 'i' && e.m == x; });
                long ovs = std::count_if(calls.begin(), calls.end(), [&](auto& c) { return c.who == x; });
                if (app.count(x)) {
                    CHECK(ovs == 1 && inits == 0, x->name, ": ", ovs, " calls of its override and ", inits, " default constructions");
                    CHECK(after.vals[at] == app[x][0]->ov.value, x->name, ": is not what the override made");
                }
                else CHECK(ovs == 0 && inits == 1, x->name, ": ", inits, " default constructions");
            }
            for (auto& c : calls) CHECK(std::find(fresh.begin(), fresh.end(), c.who) != fresh.end(), "override for ", c.who->name, " is called though it is not new");
            for (size_t i = 0; i < v.size(); ++i) {
                auto f = std::find(B.begin(), B.end(), v[i]);
                if (f != B.end()) CHECK(after.vals[i] == before.vals[f - B.begin()], v[i]->name, ": its value changes");
            }
        }
    }
    balanced();
    live.clear();
}

#include <dynamix/declare_domain.hpp>
#include <dynamix/define_domain.hpp>
#include <dynamix/declare_mixin.hpp>
#include <dynamix/define_mixin.hpp>
DYNAMIX_DECLARE_DOMAIN(c29_dom);
DYNAMIX_DEFINE_DOMAIN(c29_dom, "c29");
DYNAMIX_DECLARE_MIXIN(struct c29_arg);
DYNAMIX_DECLARE_MIXIN(struct c29_one);
DYNAMIX_DECLARE_MIXIN(struct c29_two);
struct c29_two { int z = 22; };
DYNAMIX_DEFINE_MIXIN(c29_dom, c29_arg);
DYNAMIX_DEFINE_MIXIN(c29_dom, c29_one);
DYNAMIX_DEFINE_MIXIN(c29_dom, c29_two);

static void typed(h::rng& g) {
    auto& d = g::get_domain<c29_dom>();
    object o(d);
    int v = int(g.below(1000));
    std::string s = h::cat("s", v);
    switch (g.below(6)) {
    case 0:
        h::step("typed add");
        mutate(o, add<c29_two>(), add<c29_arg>(v, s), add<c29_one>(std::string(s)));
        CHECK(o.get<c29_arg>()->a == v && o.get<c29_arg>()->b == s && o.get<c29_one>()->s == s && o.get<c29_two>()->z == 22, "arguments");
        CHECK(o.get_type().index_of(g::get_mixin_info<c29_two>().id) == 0 && o.get_type().num_mixins() == 3, "order");
        mutate(o, remove<c29_two>(), to_back<c29_arg>());
        CHECK(o.get_type().num_mixins() == 2 && o.get_type().index_of(g::get_mixin_info<c29_arg>().id) == 1 && o.get<c29_arg>()->a == v && o.get<c29_arg>()->b == s, "kept");
        break;
    case 1:
        h::step("typed add of lvalues");
        mutate(o, add<c29_one>(s), add<c29_arg>(v, "x"));
        CHECK(s == h::cat("s", v) && o.get<c29_one>()->s == s && o.get<c29_arg>()->b == "x", "arguments");
        break;
    case 2: {
        h::step("typed construct");
        mutate(o, add<c29_arg>(), add<c29_one>());
        CHECK(o.get<c29_arg>()->a == -1 && o.get<c29_one>()->s == "none", "default");
        auto& t = o.get_type();
        object p(d);
        mutate_to(p, t, construct<c29_one>(s), construct<c29_arg>(v, s));
        CHECK(p.get<c29_arg>()->a == v && p.get<c29_one>()->s == s, "arguments");
        object q(d);
        CHECK(throws([&] { mutate_to(q, t, construct<c29_one>(s), construct<c29_one>(s)); }) && q.empty(), "two overrides");
        mutate_to(p, t, construct<c29_arg>(7, "seven"), construct<c29_arg>(8, "eight"));
        CHECK(p.get<c29_arg>()->a == v, "nothing to do");
        mutate(p, remove<c29_arg>());
        mutate_to(p, t, construct<c29_one>("other"), construct<c29_two>());
        CHECK(p.get<c29_arg>()->a == -1 && p.get<c29_one>()->s == s, "overrides of mixins it has");
        break;
    }
    case 3: {
        h::step("typed gradual");
        { auto m = mutate(o); m.add<c29_one>().add<c29_two>(); m.add_if_lacking<c29_one>().add<c29_arg>(); m.remove<c29_two>().to_back<c29_one>(); CHECK(o.empty(), "early"); }
        CHECK(o.get_type().num_mixins() == 2 && o.get_type().index_of(g::get_mixin_info<c29_arg>().id) == 0 && o.has<c29_one>(), "gradual");
        break;
    }
    case 4: {
        h::step("gradual while another exception unwinds, and in a handler");
        struct guard { object& o; ~guard() { try { gradual_mutation m(o); m.add<c29_two>(); } catch (...) {} } };
        try { guard q{o}; throw 1; } catch (int) {}
        CHECK(o.has<c29_two>(), "a complete gradual mutation inside of unwinding is applied");
        try { throw 1; } catch (int) { mutate(o).add<c29_one>(); }
        CHECK(o.has<c29_one>(), "gradual in a handler");
        break;
    }
    default: {
        h::step("gradual fails at its end");
        mutate(o, add<c29_two>());
        auto t = &o.get_type();
        CHECK(throws([&] { mutate(o).add<c29_two>(); }) && &o.get_type() == t, "gradual failure");
        CHECK(throws([&] { gradual_mutation m(o); m.add("c29_nope"); }) && &o.get_type() == t, "gradual failure of a step");
        gradual_mutation m(o);
        m.add<c29_two>();
        CHECK(throws([&] { m.apply(); }) && &o.get_type() == t, "gradual failure");
        break;
    }
    }
}

void run(h::rng& g, bool thorough) {
    int n = thorough ? 12000 : 1000;
    for (int c = 0; c < n; ++c) {
        h::begin(h::cat("case ", c, " "));
        fresh_world();
        if (c % 10 == 0) typed(g); else history(g);
    }
}
