// random histories of domain operations, each checked against a model (C05 - C07, C09 - C14)
#pragma once
#include "m.hpp"

namespace m {
enum dop { D_REGM, D_UNREGM, D_REGF, D_UNREGF, D_GET, D_RULE, D_UNRULE, D_GC, D_NEWO, D_DELO, D_REGC, D_UNREGC, D_LOOK, D_N };
inline unsigned dfocus = ~0u;
inline bool look_types = false, look_features = false, look_next = false;
inline bool focus_rules = false, again = false;
inline bool dstrict = true;
#define DCHECK(c, ...) do { if (::m::dstrict) CHECK(c, __VA_ARGS__); } while (0)

struct edit { char op; mx* x; mx* y; };
struct rule {
    mutation_rule_info info = {};
    std::string name;
    std::vector<edit> prog;
    bool throws = false;
    // the reference: on a plain vector; false: fails
    bool ref(std::vector<mx*>& v) const {
        auto has = [&](mx* x) { return std::find(v.begin(), v.end(), x); };
        for (auto& e : prog) {
            auto f = has(e.x);
            switch (e.op) {
            case '+': if (f == v.end()) v.push_back(e.x); break;
            case '-': if (f != v.end()) v.erase(f); break;
            case 'b': if (f != v.end()) { v.erase(f); v.push_back(e.x); } break;
            case '?': if (f != v.end() && has(e.y) == v.end()) v.push_back(e.y); break;
            case 'r': if (f != v.end()) { if (has(e.y) != v.end()) v.erase(f); else *f = e.y; } break;
            case 't': if (f != v.end()) v.erase(f); else v.push_back(e.x); break;   // toggles: never settles
            case '2': v.push_back(e.x); break;                                      // may add a second one
            case '!': if (f != v.end()) return false; break;
            }
        }
        return true;
    }
    static error_return_t apply(dnmx_type_mutation_handle h, uintptr_t ud) {
        auto& r = *reinterpret_cast<rule*>(ud);
        auto& v = type_mutation::from_c_handle(h)->mixins;
        std::vector<mx*> w;
        for (auto i : v) w.push_back(find(i));
        bool ok = r.ref(w);
        v.clear();
        for (auto x : w) v.push_back(&x->info);
        if (ok) return 0;
        if (r.throws) throw injected("rule");
        return 5;
    }
    std::string str() const {
        std::string s = h::cat(name, "@", info.order_priority, "{");
        for (auto& e : prog) s += h::cat(e.op, e.x->name, e.y ? "/" + e.y->name : "", " ");
        return s + "}";
    }
};

struct dhist {
    h::rng& g;
    domain_settings set;
    world w;
    domain other{"other"};
    std::vector<mx*> foreign;
    std::vector<std::unique_ptr<common_feature_info>> fs;
    std::vector<std::unique_ptr<std::string>> fnames;
    std::vector<std::unique_ptr<rule>> rules;
    std::vector<std::unique_ptr<object>> objs;
    // model
    std::vector<const mixin_info*> rm;
    std::vector<const feature_info*> rf;
    std::vector<const type_class*> rc;
    std::map<rule*, int> active;
    std::map<std::vector<mx*>, const type*> types;
    std::set<mx*> free_features;
    static bool tc_even(dnmx_type_handle t) noexcept { return type::from_c_handle(t)->num_mixins() % 2 == 0; }
    static bool tc_one(dnmx_type_handle t) noexcept { return type::from_c_handle(t)->num_mixins() == 1; }
    std::vector<type_class> tcs;
    size_t shared_features = 0;
    int chained = 0;
    std::vector<std::vector<mx*>> asked;

    dhist(h::rng& r, domain_settings s) : g(r), set(s), w(s, true) {
        static const char* const names[] = {"a", "b", "bc", "", "m"};
        static const char* const fn[] = {"f", "g", "h", "fg", ""};
        bool chain = g.coin(focus_rules ? 35 : 6);       // rules which settle one pass at a time
        int nf = look_next ? 1 + int(g.below(2)) : 1 + int(g.below(5));
        for (int i = 0; i < nf + 2; ++i) {
            fs.push_back(std::make_unique<common_feature_info>());
            fnames.push_back(std::make_unique<std::string>(g.coin(70) ? h::cat("f", i) : fn[g.below(5)]));
            fs.back()->name = dnmx_sv::from_std(*fnames.back());
            fs.back()->allow_clashes = g.coin(look_next ? 75 : 50);
            if (g.coin(30)) fs.back()->default_payload = &fs;
        }
        shared_features = nf;    // the others are used by no mixin
        int n = chain ? 9 : look_next ? 6 + int(g.below(4)) : 3 + int(g.below(6));
        for (int i = 0; i < n; ++i) {
            auto& x = w.random(g, g.coin(75) ? h::cat("m", i) : names[g.below(5)], 0, true);
            x.rank = i;
            x.info.order_priority = g.coin(70) ? 0 : int(g.below(3)) - 1;
            x.info.dependency = g.coin(12);
            for (int k = 0; k < nf; ++k) if (g.coin(chain ? 5 : look_next ? 80 : 35)) {
                feature_for_mixin f{};
                f.info = fs[k].get();
                f.payload = reinterpret_cast<dnmx_feature_payload>(uintptr_t(1000 * i + k + 1));
                f.bid = g.coin() ? 0 : int(g.below(3)) - 1;
                f.priority = g.coin(70) ? 0 : int(g.below(3)) - 1;
                if (g.coin(3)) f.bid = g.coin() ? INT32_MAX : INT32_MIN;
                if (g.coin(3)) f.priority = g.coin() ? INT32_MAX : INT32_MIN;
                x.feats.push_back(f);
            }
            for (size_t k = x.feats.size(); k > 1; --k) std::swap(x.feats[k - 1], x.feats[g.below(k)]);
            x.set_feats();
        }
        for (int i = 0; i < 2; ++i) {
            auto& x = w.add(h::cat("x", i), 4, 4);
            if (i == 0) other.register_mixin(x.info);    // foreign, with an id of ours
            foreign.push_back(&x);                        // x1: never registered
        }
        int nc = chain ? 3 + int(g.below(5)) : 0;
        for (int i = 0; i < nc; ++i) {
            auto q = std::make_unique<rule>();
            q->name = h::cat("c", i);
            q->info.name = dnmx_sv::from_std(q->name);
            q->info.apply = rule::apply;
            q->info.user_data = uintptr_t(q.get());
            q->info.order_priority = -i;
            q->prog.push_back({'?', w.own[i].get(), w.own[i + 1].get()});
            rules.push_back(std::move(q));
        }
        chained = nc;
        int nr = int(g.below(5));
        if (chain && g.coin(80)) nr = 0;
        for (int i = 0; i < nr; ++i) {
            auto q = std::make_unique<rule>();
            q->name = g.coin(60) ? h::cat("r", i) : names[g.below(5)];
            q->info.name = dnmx_sv::from_std(q->name);
            q->info.apply = rule::apply;
            q->info.user_data = uintptr_t(q.get());
            q->info.order_priority = int(g.below(4)) - 1;
            if (g.coin(4)) q->info.order_priority = INT32_MAX;
            q->throws = g.coin();
            for (int k = 1 + int(g.below(2)); k-- > 0;) {
                char op = again && g.coin(30) ? 'r' : "++--bb???rrrt2!"[g.below(15)];
                auto x = w.own[g.below(w.own.size())].get(), y = w.own[g.below(w.own.size())].get();
                q->prog.push_back({op, x, op == '?' || op == 'r' ? y : nullptr});
            }
            rules.push_back(std::move(q));
        }
        tcs.resize(4);
        static const char* const tn[] = {"even", "one", "even", ""};
        for (int i = 0; i < 4; ++i) { tcs[i].name = dnmx_sv::from_std(tn[i]); tcs[i].matches = i == 1 ? tc_one : tc_even; }
        tcs.push_back({dnmx_sv::from_std("nofunc"), nullptr});
        std::string d = h::cat("settings ", set.canonicalize_types, set.allow_duplicate_feature_names, set.allow_duplicate_mixin_names, ", mixins ");
        for (auto& x : w.own) {
            d += x->name + "(" + std::to_string(x->info.order_priority) + (x->info.dependency ? " dep" : "");
            for (auto& f : x->feats) d += h::cat(" ", f.info->name.to_std(), ":", f.bid, "/", f.priority);
            d += ") ";
        }
        for (auto& f : fs) d += h::cat(f->name.to_std(), f->allow_clashes ? " " : "! ");
        for (auto& q : rules) d += q->str() + " ";
        h::step(d);
    }

    // ---- everything observable of the domain
    std::string dump() {
        std::ostringstream s;
        domain_traverse t(*w.dom);
        t.traverse_mixins([&](const mixin_info& i) { s << "m" << &i << ":" << i.id.i << " "; });
        t.traverse_features([&](const feature_info& i) { s << "f" << &i << ":" << i.id.i << " "; });
        t.traverse_type_classes([&](const type_class& i) { s << "c" << &i << " "; });
        t.traverse_mutation_rules([&](const mutation_rule_info& i, uint32_t n) { s << "r" << &i << ":" << n << " "; });
        t.traverse_types([&](const type& i) { s << "t" << &i << ":" << i.num_objects() << " "; });
        std::vector<std::string> q;
        t.traverse_type_queries([&](itlib::span<const mixin_info* const> k, const type& v) {
            std::ostringstream x;
            for (auto m : k) x << m << ",";
            x << "->" << &v << " ";
            q.push_back(x.str());
        });
        for (auto& x : q) s << x;
        for (auto& x : w.own) s << x->info.id.i << "/" << x->info.dom << " ";
        for (auto& x : fs) s << x->id.i << " ";
        return s.str();
    }
    using query_map = std::map<std::vector<const mixin_info*>, const type*>;
    query_map queries() {
        query_map m;
        domain_traverse(*w.dom).traverse_type_queries([&](itlib::span<const mixin_info* const> k, const type& v) { m[std::vector<const mixin_info*>(k.begin(), k.end())] = &v; });
        CHECK(m.size() == w.dom->num_type_queries(), "number of stored queries");
        return m;
    }
    void registry() {
        std::vector<const mixin_info*> a;
        std::vector<const feature_info*> b;
        std::vector<const type_class*> c;
        std::map<const mutation_rule_info*, uint32_t> r;
        std::vector<const mutation_rule_info*> order;
        std::set<const type*> t;
        {
            domain_traverse d(*w.dom);
            d.traverse_mixins([&](const mixin_info& i) { a.push_back(&i); });
            d.traverse_features([&](const feature_info& i) { b.push_back(&i); });
            d.traverse_type_classes([&](const type_class& i) { c.push_back(&i); });
            d.traverse_mutation_rules([&](const mutation_rule_info& i, uint32_t n) { r[&i] = n; order.push_back(&i); });
            d.traverse_types([&](const type& i) { t.insert(&i); });
        }
        auto strip = [](auto v) { v.erase(std::remove(v.begin(), v.end(), nullptr), v.end()); return v; };
        DCHECK(a == strip(rm), "registered mixins");
        DCHECK(b == strip(rf), "registered features");
        DCHECK(c == strip(rc), "registered type classes");
        for (size_t i = 0; i < rm.size(); ++i) if (rm[i]) DCHECK(rm[i]->id.i == i && rm[i]->dom == w.dom->to_c_hanlde(), "id of mixin ", rm[i]->name.to_std(), " is ", rm[i]->id.i, " instead of ", i);
        for (size_t i = 0; i < rf.size(); ++i) if (rf[i]) DCHECK(rf[i]->id.i == i, "id of feature ", rf[i]->name.to_std());
        for (auto& x : w.own) if (std::find(rm.begin(), rm.end(), &x->info) == rm.end() && x.get() != foreign[0]) DCHECK(x->info.id == invalid_mixin_id && !x->info.dom, "an unregistered mixin has an id or a domain");
        for (auto& x : fs) if (std::find(rf.begin(), rf.end(), x.get()) == rf.end()) DCHECK(x->id == invalid_feature_id, "an unregistered feature has an id");
        size_t n = set.canonicalize_types;
        for (auto& x : active) if (x.second) { ++n; DCHECK(r.count(&x.first->info) && r[&x.first->info] == uint32_t(x.second), "count of rule ", x.first->name); }
        DCHECK(r.size() == n && w.dom->num_mutation_rules() == n, "number of rules: ", r.size(), " instead of ", n);
        for (size_t i = 1; i < order.size(); ++i) DCHECK(before(order[i - 1], order[i]), "order of rules");
        DCHECK(t.size() == types.size() && w.dom->num_types() == types.size(), "number of types: ", t.size(), " instead of ", types.size());
        for (auto& x : types) DCHECK(t.count(x.second), "a type is gone");
    }
    static bool before(const mutation_rule_info* a, const mutation_rule_info* b) {
        if (a->order_priority != b->order_priority) return a->order_priority < b->order_priority;
        auto x = a->name.to_std(), y = b->name.to_std();
        if (x != y) return x < y;
        return a < b;
    }

    // ---- the reference of get_type: 0 ok, else why not
    const char* ref_rules(std::vector<mx*>& v) {
        std::vector<std::pair<const mutation_rule_info*, rule*>> rs;
        for (auto& a : active) if (a.second) rs.push_back({&a.first->info, a.first});
        mutation_rule_info canon = {};
        std::string cname = "canonicalize types";
        if (set.canonicalize_types) {
            // where the domain has it (its address decides nothing: the name does)
            canon.name = dnmx_sv::from_std(cname);
            canon.order_priority = INT32_MAX;
            rs.push_back({&canon, nullptr});
        }
        std::sort(rs.begin(), rs.end(), [](auto& a, auto& b) { return before(a.first, b.first); });
        auto last = v;
        v.erase(std::remove_if(v.begin(), v.end(), [](mx* x) { return x->info.dependency; }), v.end());
        for (int i = 0;; ++i) {
            for (auto& q : rs) {
                if (q.second) { if (!q.second->ref(v)) return "rule error"; }
                else std::sort(v.begin(), v.end(), [](mx* a, mx* b) { return canonical_mixin_order{}(&a->info, &b->info); });
            }
            if (last == v) return nullptr;
            if (i == 5 || i == std::max(int(rs.size()), 1)) return "rules do not settle";
            last = v;
        }
    }
    const char* ref_valid(const std::vector<mx*>& v) {
        std::set<mx*> seen;
        for (auto x : v) {
            if (std::find(rm.begin(), rm.end(), &x->info) == rm.end()) return "not registered here";
            if (!seen.insert(x).second) return "duplicate";
        }
        for (auto& f : fs) {
            if (f->allow_clashes) continue;
            std::set<std::pair<int, int>> s;
            for (auto x : v) for (auto& ff : x->feats) if (ff.info == f.get() && !s.insert({ff.bid, ff.priority}).second) return "clash";
        }
        return nullptr;
    }

    // ---- queries of types
    void check_index(const type& t) {
        for (uint32_t i = 0; i < rm.size() + 5; ++i) {
            mixin_id id{i};
            mixin_index_t want = invalid_mixin_index;
            for (mixin_index_t k = 0; k < t.num_mixins(); ++k) if (t.mixins[k]->id.i == i) want = k;
            CHECK(t.index_of(id) == want, "index_of id ", i, ": ", t.index_of(id), " instead of ", want);
            CHECK(t.has(id) == (want != invalid_mixin_index) && t.lacks(id) == (want == invalid_mixin_index), "has id ", i);
        }
        for (uint32_t i : {0x7fffffffu, 0x80000000u, 0xfffffffeu, 0xffffffffu}) CHECK(t.index_of(mixin_id{i}) == invalid_mixin_index && !t.has(mixin_id{i}), "index_of an invalid id");
        CHECK(t.index_of(invalid_mixin_id) == invalid_mixin_index, "index_of the invalid id");
        for (auto& x : w.own) {
            if (x.get() == foreign[0]) continue;
            bool in = std::find(t.mixins.begin(), t.mixins.end(), &x->info) != t.mixins.end();
            CHECK(t.has(x->info) == in && t.lacks(x->info) == !in, "has ", x->name);
        }
        std::set<std::string> names = {"", "a", "b", "bc", "m", "m1", "zzz", "m0x", std::string("m\0", 2)};
        for (auto& x : w.own) names.insert(x->name);
        for (auto& n : names) {
            mixin_index_t want = invalid_mixin_index;
            for (mixin_index_t k = t.num_mixins(); k-- > 0;) if (t.mixins[k]->name.to_std() == n) want = k;
            CHECK(t.index_of(n) == want && t.has(n) == (want != invalid_mixin_index) && t.lacks(n) == (want == invalid_mixin_index), "index_of \"", n, "\": ", t.index_of(n), " instead of ", want);
        }
    }
    struct prov { mixin_index_t i; const feature_for_mixin* f; };
    std::vector<prov> providers(const type& t, const feature_info* f) {
        std::vector<prov> v;
        for (mixin_index_t i = 0; i < t.num_mixins(); ++i) for (auto& x : t.mixins[i]->features_span()) if (x.info == f) v.push_back({i, &x});
        std::stable_sort(v.begin(), v.end(), [](const prov& a, const prov& b) {
            if (a.f->bid != b.f->bid) return a.f->bid > b.f->bid;
            if (a.f->priority != b.f->priority) return a.f->priority < b.f->priority;
            return a.i > b.i;
        });
        return v;
    }
    void check_features(const type& t) {
        for (auto& f : fs) {
            auto v = providers(t, f.get());
            auto e = t.ftable_at(f->id);
            CHECK(t.implements_strong(*f) == !v.empty() && t.implements_strong(f->id) == !v.empty(), "implements_strong ", f->name.to_std());
            CHECK(t.implements(*f) == (!v.empty() || f->default_payload), "implements ", f->name.to_std());
            if (v.empty()) { CHECK(!e, "feature ", f->name.to_std(), " has an entry"); continue; }
            CHECK(size_t(e.end - e.begin) == v.size(), "feature ", f->name.to_std(), " has ", e.end - e.begin, " payloads instead of ", v.size());
            size_t top = 0;
            for (size_t i = 0; i < v.size(); ++i) {
                CHECK(e.begin[i].mixin_index == v[i].i && e.begin[i].data == v[i].f && e.begin[i].payload == v[i].f->payload, "payload ", i, " of ", f->name.to_std(), " is of mixin ", e.begin[i].mixin_index, " instead of ", v[i].i);
                if (v[i].f->bid == v[0].f->bid) top = i;
            }
            CHECK(e.top_bid_back == e.begin + top, "top bid range of ", f->name.to_std(), ": ", e.top_bid_back - e.begin, " instead of ", top);
        }
        for (size_t i = 0; i < t.ftable_length; ++i) if (t.ftable[i]) CHECK(i < rf.size() && rf[i] && t.ftable[i].begin->data->info == rf[i], "entry ", i, " is of another feature");
        for (uint32_t i : {t.ftable_length, t.ftable_length + 1, 0x80000000u, 0xffffffffu}) CHECK(!t.implements_strong(feature_id{i}), "feature id ", i);
        std::set<std::string> names = {"", "f", "f0", "zz"};
        for (auto& n : fnames) names.insert(*n);
        for (auto& n : names) {
            bool want = false;
            for (auto i : t.mixins) for (auto& x : i->features_span()) want |= x.info->name.to_std() == n;
            CHECK(t.implements_strong(n) == want, "implements_strong \"", n, "\"");
        }
    }
    void check_next(const type& t) {
        for (auto& f : fs) for (auto& x : w.own) {
            if (x.get() == foreign[0]) continue;
            auto v = providers(t, f.get());
            auto p = t.find_next_implementer(*f, x->info);
            auto s = t.find_next_bidder_set(*f, x->info);
            size_t k = 0;
            while (k < v.size() && t.mixins[v[k].i] != &x->info) ++k;
            if (k >= v.size()) { CHECK(!p && s.empty(), "next of a mixin which does not provide ", f->name.to_std()); continue; }
            if (k + 1 == v.size()) CHECK(!p, "next implementer of the last");
            else CHECK(p && p->data == v[k + 1].f && p->mixin_index == v[k + 1].i, "next implementer of ", x->name, " for ", f->name.to_std());
            std::vector<const feature_for_mixin*> want;
            for (size_t i = k; i < v.size(); ++i) if (v[i].f->bid < v[k].f->bid && (want.empty() || want[0]->bid == v[i].f->bid)) want.push_back(v[i].f);
            CHECK(s.size() == want.size(), "next bidder set of ", x->name, " for ", f->name.to_std(), ": ", s.size(), " instead of ", want.size());
            for (size_t i = 0; i < want.size(); ++i) CHECK(s.data()[i].data == want[i], "next bidder set");
        }
    }
    void check_type(const type& t) {
        if (look_types) check_index(t);
        if (look_features) check_features(t);
        if (look_next) check_next(t);
    }

    std::vector<mx*> request() {
        // exactly the mixins of a present type
        if (again && !types.empty() && g.coin(25)) return std::next(types.begin(), long(g.below(types.size())))->first;
        if (!asked.empty() && g.coin(again ? 60 : 15)) {
            auto v = asked[g.below(asked.size())];
            if (again && g.coin(30) && v.size() > 1) std::swap(v[0], v[v.size() - 1]);
            return v;
        }
        std::vector<mx*> v;
        if (chained && g.coin(70)) { v.push_back(w.own[g.below(2)].get()); return v; }
        size_t n = g.below(look_next ? 8 : 5);
        bool odd = g.coin(12);
        for (size_t i = 0; i < n; ++i) {
            auto x = g.coin(3) ? foreign[g.below(2)] : w.own[g.below(w.own.size() - 2)].get();
            if (!odd && (std::find(v.begin(), v.end(), x) != v.end() || std::find(rm.begin(), rm.end(), &x->info) == rm.end())) continue;
            v.push_back(x);
        }
        return v;
    }

    void one(dop k) {
        dstrict = dfocus >> k & 1;
        auto& dom = *w.dom;
        auto B = dump();
        switch (k) {
        case D_REGM: {
            auto& x = *w.own[g.below(w.own.size() - (g.coin(90) ? 2 : 0))];
            h::step("register " + x.name);
            // the model
            bool bad = &x == foreign[0];
            auto mf = rf;
            auto reg = [&](auto& v, auto* i, bool dup) {
                if (i->id.i != dnmx_invalid_id) return false;
                if (!dup) {
                    if (i->name.to_std().empty()) return false;
                    for (auto y : v) if (y && y->name.to_std() == i->name.to_std()) return false;
                }
                auto f = std::find(v.begin(), v.end(), nullptr);
                if (f == v.end()) v.push_back(i); else *f = i;
                return true;
            };
            if (!bad) for (auto& f : x.feats) {
                if (std::find(mf.begin(), mf.end(), f.info) != mf.end()) continue;
                if (!reg(mf, f.info, set.allow_duplicate_feature_names)) { bad = true; break; }
            }
            auto mm = rm;
            if (!bad) bad = !reg(mm, &x.info, set.allow_duplicate_mixin_names);
            auto res = throws([&] { dom.register_mixin(x.info); });
            DCHECK(res == bad, "registration of ", x.name, res ? " fails" : " succeeds");
            bool nf = mf == rf;
            rf = mf;
            if (!bad) rm = mm;
            // features of a refused mixin stay registered; nothing else is changed
            if (bad && nf) DCHECK(dump() == B, "refused registration changes something");
            break;
        }
        case D_UNREGM: {
            auto& x = *w.own[g.below(w.own.size() - (g.coin(85) ? 2 : 0))];
            bool mine = std::find(rm.begin(), rm.end(), &x.info) != rm.end();
            for (auto& o : objs) if (mine && o->has(x.info)) return;   // precondition
            h::step("unregister " + x.name);
            auto q = queries();
            auto res = throws([&] { dom.unregister_mixin(x.info); });
            DCHECK(res == !mine, "unregistration of ", x.name);
            if (res) { DCHECK(dump() == B, "refused unregistration changes something"); break; }
            *std::find(rm.begin(), rm.end(), &x.info) = nullptr;
            DCHECK(x.info.id == invalid_mixin_id && !x.info.dom, "id and domain of an unregistered mixin");
            std::set<const type*> gone;
            for (auto i = types.begin(); i != types.end();) {
                if (std::find(i->first.begin(), i->first.end(), &x) != i->first.end()) { gone.insert(i->second); i = types.erase(i); }
                else ++i;
            }
            for (auto i = q.begin(); i != q.end();) {
                if (gone.count(i->second) || std::find(i->first.begin(), i->first.end(), &x.info) != i->first.end()) i = q.erase(i);
                else ++i;
            }
            DCHECK(queries() == q, "stored queries after unregistration: ", queries().size(), " instead of ", q.size());
            break;
        }
        case D_REGF: {
            auto& f = *fs[g.below(fs.size())];
            h::step(h::cat("register feature ", f.name.to_std()));
            bool bad = f.id != invalid_feature_id;
            if (!bad && !set.allow_duplicate_feature_names) {
                bad = f.name.to_std().empty();
                for (auto y : rf) if (y && y->name.to_std() == f.name.to_std()) bad = true;
            }
            auto res = throws([&] { dom.register_feature(f); });
            DCHECK(res == bad, "registration of a feature");
            if (res) { DCHECK(dump() == B, "refused registration of a feature changes something"); break; }
            auto i = std::find(rf.begin(), rf.end(), nullptr);
            if (i == rf.end()) rf.push_back(&f); else *i = &f;
            break;
        }
        case D_UNREGF: {
            // only features which no mixin uses may be unregistered alone
            auto& f = *fs[shared_features + g.below(2)];
            h::step(h::cat("unregister feature ", f.name.to_std()));
            common_feature_info alien;
            bool use = g.coin(20);
            if (use) alien.id.i = uint32_t(g.below(rf.size() + 2));
            feature_info& u = use ? alien : f;
            auto i = std::find(rf.begin(), rf.end(), &u);
            auto res = throws([&] { dom.unregister_feature(u); });
            DCHECK(res == (i == rf.end()), "unregistration of a feature");
            if (res) { DCHECK(dump() == B, "refused unregistration of a feature changes something"); break; }
            *i = nullptr;
            DCHECK(u.id == invalid_feature_id, "id of an unregistered feature");
            break;
        }
        case D_GET: {
            auto v = request();
            bool alien = g.coin(3), span = g.coin();
            auto in = v;
            asked.push_back(v);
            h::step(h::cat("get ", str(v), alien ? " for another domain" : ""));
            const char* bad = nullptr;
            if (alien) { bad = "foreign mutation"; span = false; }
            if (!bad) bad = ref_rules(v);
            if (!bad) bad = ref_valid(v);
            const type* t = nullptr;
            auto ask = [&] {
                std::vector<const mixin_info*> is;
                for (auto x : in) is.push_back(&x->info);
                if (span) { t = &dom.get_type(itlib::span<const mixin_info* const>(is.data(), is.size())); return; }
                type_mutation mut(alien ? other : dom);
                for (auto i : is) mut.add(*i);
                t = &dom.get_type(std::move(mut));
            };
            auto res = throws(ask);
            DCHECK(res == !!bad, "get_type ", res ? "fails" : "succeeds", " though: ", bad ? bad : "nothing is wrong with it");
            if (res) { DCHECK(dump() == B, "refused request (", bad ? bad : "", ") changes something"); break; }
            std::vector<const mixin_info*> got(t->mixins.begin(), t->mixins.end()), want;
            for (auto x : v) want.push_back(&x->info);
            DCHECK(got == want, "the type has ", m::str(got), " instead of ", m::str(want));
            if (v.empty()) DCHECK(t == &dom.get_empty_type(), "the empty type");
            else {
                auto& known = types[v];
                if (known) DCHECK(known == t, "another type for the same mixins");
                for (auto& x : types) if (x.first != v) DCHECK(x.second != t, "the same type for other mixins");
                known = t;
            }
            check_type(*t);
            // asked again
            auto t0 = t;
            ask();
            DCHECK(t == t0, "the second answer differs");
            // one query is stored for it, all others stay
            break;
        }
        case D_RULE: {
            if (rules.empty()) return;
            auto& q = *rules[g.below(rules.size())];
            h::step("add rule " + q.name);
            if (g.coin(5)) {
                mutation_rule_info none = {};
                auto res = throws([&] { dom.add_mutation_rule(none); });
                DCHECK(res && dump() == B, "a rule without a function");
                break;
            }
            dom.add_mutation_rule(q.info);
            ++active[&q];
            break;
        }
        case D_UNRULE: {
            if (rules.empty()) return;
            auto& q = *rules[g.below(rules.size())];
            h::step("remove rule " + q.name);
            dom.remove_mutation_rule(q.info);
            if (active[&q]) --active[&q]; else DCHECK(dump() == B, "removal of a rule which is not added");
            break;
        }
        case D_GC: {
            h::step("collect");
            auto q = queries();
            std::set<const type*> used, gone;
            for (auto& o : objs) used.insert(&o->get_type());
            dom.garbage_collect_types();
            for (auto i = types.begin(); i != types.end();) {
                if (!used.count(i->second)) { gone.insert(i->second); i = types.erase(i); }
                else ++i;
            }
            for (auto i = q.begin(); i != q.end();) { if (gone.count(i->second)) i = q.erase(i); else ++i; }
            DCHECK(queries() == q, "stored queries after collection: ", queries().size(), " instead of ", q.size());
            break;
        }
        case D_NEWO: {
            if (types.empty() || objs.size() > 5) return;
            auto i = types.begin();
            std::advance(i, g.below(types.size()));
            h::step("object of " + str(i->first));
            objs.push_back(std::make_unique<object>(*i->second, allocator(&w.r)));
            break;
        }
        case D_DELO:
            if (objs.empty()) return;
            h::step("drop object");
            objs.erase(objs.begin() + g.below(objs.size()));
            break;
        case D_REGC: {
            auto& t = tcs[g.below(tcs.size())];
            h::step(h::cat("register type class ", t.name.to_std()));
            bool bad = t.name.to_std().empty() || !t.matches;
            for (auto c : rc) if (c && c->name.to_std() == t.name.to_std()) bad = true;
            auto res = throws([&] { dom.register_type_class(t); });
            DCHECK(res == bad, "registration of type class ", t.name.to_std());
            if (res) { DCHECK(dump() == B, "refused type class changes something"); break; }
            auto i = std::find(rc.begin(), rc.end(), nullptr);
            if (i == rc.end()) rc.push_back(&t); else *i = &t;
            break;
        }
        case D_UNREGC: {
            auto& t = tcs[g.below(tcs.size())];
            h::step(h::cat("unregister type class ", t.name.to_std()));
            dom.unregister_type_class(t);
            auto i = std::find(rc.begin(), rc.end(), &t);
            if (i == rc.end()) DCHECK(dump() == B, "unregistration of an unknown type class");
            else *i = nullptr;
            break;
        }
        case D_LOOK: {
            h::step("look up");
            for (uint32_t i = 0; i < rm.size() + 3; ++i) DCHECK(dom.get_mixin_info(mixin_id{i}) == (i < rm.size() ? rm[i] : nullptr), "mixin by id ", i);
            for (uint32_t i = 0; i < rf.size() + 3; ++i) DCHECK(dom.get_feature_info(feature_id{i}) == (i < rf.size() ? rf[i] : nullptr), "feature by id ", i);
            DCHECK(!dom.get_mixin_info(invalid_mixin_id) && !dom.get_feature_info(invalid_feature_id), "invalid ids");
            std::set<std::string> names = {"", "a", "b", "bc", "m", "m1", "f", "f0", "even", "one", "x0", "x1", "nofunc"};
            for (auto& x : w.own) names.insert(x->name);
            for (auto& x : fnames) names.insert(*x);
            auto find_name = [](auto& v, const std::string& n) { for (auto x : v) if (x && x->name.to_std() == n) return x; return decltype(&*v[0])(nullptr); };
            for (auto& n : names) {
                DCHECK(dom.get_mixin_info(n) == find_name(rm, n), "mixin by name ", n);
                DCHECK(dom.get_feature_info(n) == find_name(rf, n), "feature by name ", n);
                auto tc = find_name(rc, n);
                DCHECK(dom.get_type_class(n) == tc, "type class by name ", n);
                for (auto& t : types) {
                    bool is = false;
                    auto res = throws([&] { is = t.second->is_of(n); });
                    DCHECK(res == !tc, "is_of by name ", n);
                    if (tc) DCHECK(is == tc->matches(t.second) && t.second->is_of(*tc) == is, "is_of ", n);
                }
            }
            break;
        }
        default: break;
        }
        registry();
        // always: types hold registered, own, unique mixins; stored queries lead to living types
        dstrict = true;
        for (auto& t : types) {
            std::set<const mixin_info*> seen;
            for (auto i : t.second->mixins) CHECK(find(i)->info.dom == w.dom->to_c_hanlde() && seen.insert(i).second, "a type holds a foreign or duplicate mixin");
        }
        std::map<const type*, size_t> cnt;
        for (auto& o : objs) ++cnt[&o->get_type()];
        for (auto& t : types) CHECK(t.second->num_objects() == cnt[t.second], "number of objects ", t.second->num_objects(), " instead of ", cnt[t.second]);
        for (auto& q : queries()) CHECK(q.second == &w.dom->get_empty_type() || std::find_if(types.begin(), types.end(), [&](auto& t) { return t.second == q.second; }) != types.end(), "a stored query leads to a removed type");
    }
};

inline void dhistories(h::rng& r, int n, int steps, const std::vector<int>& weights) {
    int sum = 0;
    for (int x : weights) sum += x;
    for (int c = 0; c < n; ++c) {
        h::begin(h::cat("history ", c, " "));
        fresh_world();
        {
            domain_settings s = {};
            s.canonicalize_types = r.coin(30);
            s.allow_duplicate_feature_names = r.coin(30);
            s.allow_duplicate_mixin_names = r.coin(30);
            dhist H(r, s);
            if (look_types) H.check_index(H.w.dom->get_empty_type());
            if (look_features) H.check_features(H.w.dom->get_empty_type());
            if (look_next) H.check_next(H.w.dom->get_empty_type());
            for (int i = int(r.below(10)) + (H.chained ? 12 : 0); i-- > 0;) H.one(D_REGM);
            if (H.chained && weights[D_RULE]) {
                h::step("add the chain");
                for (int i = 0; i < H.chained; ++i) { H.w.dom->add_mutation_rule(H.rules[i]->info); ++H.active[H.rules[i].get()]; }
            }
            for (int i = int(r.below(steps)) + 4; i-- > 0;) {
                int x = int(r.below(sum)), k = 0;
                while (x >= weights[k]) x -= weights[k++];
                H.one(dop(k));
            }
            h::step("end");
            H.objs.clear();
            H.w.dom.reset();
            CHECK(blocks.empty(), "memory of the domain is not returned: ", blocks.size(), " blocks");
            live.clear();
        }
    }
}
}
