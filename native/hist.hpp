// random histories of object operations, each checked against a model (C16 - C21)
#pragma once
#include "m.hpp"

namespace m {
enum op_kind { RESET, CLEAR, COPY, COPY_FROM, COPY_MATCH, MOVE_MATCH, MOVE, MOVE_ASGN, SEAL, DROP, CREATE, UNWIND, COMPARE, MUTATION, N_OPS };

enum result { OK, LIB, INJECTED, BADALLOC, OTHER };
template <typename F> result attempt(F f) {
    try { f(); }
    catch (injected&) { return INJECTED; }
    catch (std::bad_alloc&) { return BADALLOC; }
    catch (dynamix::exception&) { return LIB; }
    catch (...) { return OTHER; }
    return OK;
}

// only the operations a property is about are compared with the model (memory and liveness always)
inline unsigned focus = ~0u;
inline bool strict = true;
#define HCHECK(c, ...) do { if (::m::strict) CHECK(c, __VA_ARGS__); } while (0)

struct hist {
    h::rng& g;
    world w;
    res r2;
    std::vector<const type*> types;
    struct slot { std::unique_ptr<object> o; res* r; };
    std::vector<slot> objs;
    int next_name = 0;

    hist(h::rng& rng, int nmix, unsigned must = 0, bool all = false) : g(rng) {
        for (int i = 0; i < nmix; ++i) {
            auto& x = w.random(g, "m" + std::to_string(i), must, all);
            w.dom->register_mixin(x.info);
            x.rank = i;
        }
        h::step("mixins " + w.desc());
        // the domain must not hand out types for the mixins in the wrong order later
        types.push_back(&w.dom->get_empty_type());
        for (int i = 0; i < 6; ++i) types.push_back(&w.get(w.subset(g)));
    }
    const type& pick_type() { return *types[g.below(types.size())]; }
    static std::string str(const type& t) {
        std::string s = "<";
        for (auto i : t.mixins) s += find(i)->name + " ";
        return s + ">";
    }

    std::map<object*, snap> all() {
        std::map<object*, snap> s;
        for (auto& o : objs) s[o.o.get()] = look(*o.o);
        return s;
    }
    void same(const std::map<object*, snap>& before, std::vector<object*> but, const char* what) {
        for (auto& b : before) {
            if (std::find(but.begin(), but.end(), b.first) != but.end()) continue;
            HCHECK(look(*b.first) == b.second, what, ": an object is changed which should not be");
        }
    }
    // the memory in use is exactly what the objects need, from the right places
    void audit() {
        size_t n = 0;
        for (auto& s : objs) {
            auto& t = s.o->get_type();
            HCHECK(s.o->get_allocator() == allocator(s.r), "the allocator of an object is changed");
            if (!t.num_mixins()) continue;
            ++n;
            for (mixin_index_t i = 0; i < t.num_mixins(); ++i) {
                auto p = static_cast<char*>(s.o->get_at(i));
                auto b = blocks.upper_bound(p);
                HCHECK(b != blocks.begin(), "memory");
                --b;
                auto& x = *find(t.mixins[i]);
                const void* owner = s.r;
                if (x.info.external()) {
                    ++n;
                    if (x.al) owner = &x.info;
                    HCHECK(b->second.size == x.info.obj_buf_size && b->second.align == x.info.obj_buf_alignment_and_mixin_offset, "the buffer of external ", x.name);
                }
                else {
                    HCHECK(b->second.size == t.object_buffer_size && b->second.align == t.object_buffer_alignment, "the object buffer for ", x.name);
                }
                HCHECK(b->second.owner == owner, "mixin ", x.name, " is in memory of the wrong allocator");
            }
        }
        HCHECK(blocks.size() == n, blocks.size(), " blocks in use, ", n, " needed");
        std::map<const type*, size_t> cnt;
        for (auto& s : objs) ++cnt[&s.o->get_type()];
        for (auto t : types) if (t->num_mixins()) HCHECK(t->num_objects() == cnt[t], "object count of ", str(*t), ": ", t->num_objects());
        for (auto& l : live) l.second.moved = false;
    }

    static bool common(mx* x, const snap& s) { return std::find(s.ms.begin(), s.ms.end(), x) != s.ms.end(); }
    static size_t at(mx* x, const snap& s) { return std::find(s.ms.begin(), s.ms.end(), x) - s.ms.begin(); }

    // a failed change of type to t: constructions (of kind what) of a prefix of the new mixins, then their destruction in reverse
    void check_rolled_back(const snap& before, const type& t, bool may_assign, const char* what) {
        std::vector<mx*> fresh;
        for (auto i : t.mixins) if (!common(find(i), before)) fresh.push_back(find(i));
        std::vector<event> built;
        size_t k = 0, e = 0;
        for (; e < evs.size() && (strchr("icu", evs[e].what) || (may_assign && evs[e].what == 'C')); ++e) {
            if (evs[e].what == 'C') continue;
            HCHECK(k < fresh.size() && evs[e].m == fresh[k], what, ": construction of ", evs[e].m->name, " out of order");
            ++k;
            built.push_back(evs[e]);
        }
        // the last construction may be the failed one
        for (size_t lost = 0; ; ++lost) {
            std::vector<event> d(evs.begin() + e, evs.end());
            std::vector<event> want;
            for (size_t i = built.size() - std::min(lost, built.size()); i-- > 0;) if (built[i].m->strong()) want.push_back(built[i]);
            bool ok = d.size() == want.size();
            for (size_t i = 0; ok && i < d.size(); ++i) ok = d[i].what == 'd' && d[i].m == want[i].m && d[i].a == want[i].a;
            if (ok || lost > 1) break;
            HCHECK(lost < 1, what, ": after a failure the constructed mixins are not destroyed in reverse order (", log(), ")");
        }
    }
    static std::string log() {
        std::string s;
        for (auto& e : evs) s += h::cat(e.what, e.m->name, " ");
        return s;
    }
    // a completed change of type; built: which event constructs, from: source of copies
    void check_changed(const snap& before, const snap& after, const type& t, const snap* from, const char* what) {
        HCHECK(after.t == &t, what, ": type is ", str(*after.t), " instead of ", str(t));
        std::vector<event> b;
        std::map<mx*, int> moved, destroyed, assigned;
        for (auto& e : evs) {
            if (e.what == 'i' || e.what == 'c' || e.what == 'u') b.push_back(e);
            else if (e.what == 'm') { HCHECK(!moved[e.m]++, what, ": ", e.m->name, " moved twice"); HCHECK(common(e.m, before) && common(e.m, after) && !e.m->info.external(), what, ": ", e.m->name, " moved"); }
            else if (e.what == 'd') { HCHECK(!destroyed[e.m]++, what, ": ", e.m->name, " destroyed twice"); HCHECK(common(e.m, before) && e.a == before.at[at(e.m, before)], what, ": destruction of ", e.m->name); }
            else if (e.what == 'C') { HCHECK(from, what, ": assignment"); HCHECK(!assigned[e.m]++, what, ": assigned twice"); }
            else HCHECK(false, what, ": unexpected ", e.what, e.m->name);
        }
        size_t k = 0;
        for (size_t i = 0; i < after.ms.size(); ++i) {
            auto x = after.ms[i];
            if (common(x, before)) {
                auto bi = at(x, before);
                if (from) HCHECK(assigned[x] == 1 && after.vals[i] == from->vals[at(x, *from)], what, ": ", x->name, " is not assigned from the source");
                else HCHECK(after.vals[i] == before.vals[bi], what, ": value of common ", x->name, " changed");
                if (before.t == &t || x->info.external()) HCHECK(after.at[i] == before.at[bi] && !moved[x] && !destroyed[x], what, ": ", x->name, " was not kept in place");
                else HCHECK(moved[x] == 1 && destroyed[x] == (x->strong() ? 1 : 0), what, ": common internal ", x->name, ": moved ", moved[x], ", destroyed ", destroyed[x]);
            }
            else {
                HCHECK(k < b.size() && b[k].m == x, what, ": ", x->name, " is not constructed in order: ", log());
                if (from) HCHECK(b[k].what == 'c' && b[k].b == from->at[at(x, *from)] && after.vals[i] == from->vals[at(x, *from)], what, ": ", x->name, " is not a copy of the source's");
                else HCHECK(b[k].what == 'i' || b[k].what == 'u', what, ": ", x->name, " not constructed by default");
                HCHECK(b[k].a == after.at[i], what, ": ", x->name, " constructed elsewhere");
                ++k;
            }
        }
        HCHECK(k == b.size(), what, ": too many constructions: ", log());
        for (auto x : before.ms) if (!common(x, after)) HCHECK(destroyed[x] == (x->strong() ? 1 : 0), what, ": dropped ", x->name, " destroyed ", destroyed[x], " times");
    }
    bool needs_init(const snap& before, const type& t) {
        for (auto i : t.mixins) if (!common(find(i), before) && !i->init) return true;
        return false;
    }
    void expect_fail(result res, bool lib_error, const char* what) {
        HCHECK(res != OTHER, what, ": an unknown exception");
        if (res == INJECTED || res == BADALLOC) HCHECK(blew, what, ": no failure was injected");
        if (res == LIB) HCHECK(lib_error || blew, what, ": unexpected failure");
        HCHECK(res != OK || (!blew && !lib_error), what, ": succeeds though it must not");
    }

    void make(int i) { (void)i; }

    void one(op_kind k, bool failures) {
        if (objs.empty()) k = CREATE;
        strict = focus >> k & 1;
        evs.clear();
        blew = false;
        auto before = all();
        auto arm = [&] { fuse = failures && g.coin(60) ? long(g.below(10)) : -1; if (fuse >= 0) h::step(h::cat("failure ", fuse)); };
        auto done = [&](result r) { fuse = -1; return r; };
        size_t oi = g.below(objs.size() ? objs.size() : 1), pi = g.below(objs.size() ? objs.size() : 1);
        object* o = objs.empty() ? nullptr : objs[oi].o.get();
        object* p = objs.empty() ? nullptr : objs[pi].o.get();
        const snap S = o ? before[o] : snap{}, P = p ? before[p] : snap{};
        switch (k) {
        case CREATE: {
            if (objs.size() >= 5) return;
            auto& t = pick_type();
            bool sealed = g.coin(10), second = g.coin(30);
            h::step(h::cat("create ", str(t), sealed ? " sealed" : ""));
            std::unique_ptr<object> n;
            auto R = second ? &r2 : &w.r;
            arm();
            bool plain = &t == types[0] && g.coin();
            auto res = done(attempt([&] { n = plain ? std::make_unique<object>(*w.dom, allocator(R)) : std::make_unique<object>(t, allocator(R), sealed); }));
            snap none; none.t = types[0];
            expect_fail(res, !plain && needs_init(none, t), "create");
            same(before, {}, "create");
            if (res != OK) { check_rolled_back(none, t, false, "create"); break; }
            auto a = look(*n);
            HCHECK(a.sealed == (sealed && !plain), "create: sealed");
            check_changed(none, a, t, nullptr, "create");
            objs.push_back({std::move(n), R});
            break;
        }
        case RESET: case UNWIND: case MUTATION: {
            auto& t = pick_type();
            int how = k == RESET ? 0 : k == MUTATION ? 1 + int(g.below(4)) : 5 + int(g.below(2));
            h::step(h::cat("reset ", oi, " to ", str(t), " way ", how));
            unsigned n = unsigned(g.below(t.num_mixins() + 1)), n2 = unsigned(g.below(t.num_mixins() + 1));
            if (n2 < n) std::swap(n, n2);
            auto ctor = [&](init_new_args a) {
                auto& x = mx::of(&a.info);
                evs.push_back({'u', &x, a.mixin_buf, nullptr});
                if (burn()) throw injected("override");
                mx::put(a.mixin_buf, x, ++counter, 'u');
            };
            std::vector<mx*> over;
            bool thrown = false;
            arm();
            auto res = done(attempt([&] {
                if (how == 0) { o->reset_type(t); return; }
                if (how == 1) { perform_object_mutation(*o, t); return; }
                if (how == 2) { perform_object_mutation(*o, t, ctor); return; }
                if (how == 3) {
                    object_mutation mut(*o, t);
                    mut.construct_each_new_mixin(ctor, n);
                    mut.default_construct_each_new_mixin(n2);
                    return;      // the rest by the destructor
                }
                if (how == 4) {
                    object_mutation mut(*o, t);
                    if (n < t.num_mixins()) mut.update_at(n, ctor, util::noop_udpate_common_func);
                    if (n2 < t.num_mixins() && n2 > n) mut.update_at(n2, ctor, util::noop_udpate_common_func);
                    return;
                }
                if (how == 5) {
                    object_mutation mut(*o, t);
                    mut.construct_each_new_mixin(ctor, n);
                    thrown = true;
                    throw std::logic_error("through the mutation");
                }
                // while another exception is under way
                struct at_exit {
                    std::function<void()> f;
                    ~at_exit() { f(); }
                };
                result inner = OK;
                try {
                    at_exit x{[&] { inner = attempt([&] { perform_object_mutation(*o, t); }); }};
                    throw 1;
                }
                catch (int) {}
                if (inner == INJECTED) throw injected("x");
                if (inner == BADALLOC) throw std::bad_alloc{};
                if (inner == LIB) { throw domain_error("x"); }
            }));
            bool noop = &t == S.t;
            bool may_lib = (S.sealed && !(noop && how == 0 && false)) || needs_init(S, t);
            if (thrown) {
                HCHECK(res == OTHER, "the exception does not come out");
                same(before, {}, "unwound mutation");
                check_rolled_back(S, t, false, "unwound mutation");
                break;
            }
            if (S.sealed) {
                HCHECK(res == LIB || (res != OK && blew), "a sealed object is mutated");
                HCHECK(evs.empty(), "sealed: something happens");
                same(before, {}, "mutation of a sealed object");
                break;
            }
            if (how == 2 || how == 3 || how == 4) { if (res == LIB) HCHECK(may_lib || blew, "unexpected failure"); HCHECK(res != OTHER, "unknown exception"); if (blew) HCHECK(res != OK, "the failure does not come out"); }
            else expect_fail(res, needs_init(S, t), "reset");
            if (res != OK) {
                same(before, {}, "failed mutation");
                check_rolled_back(S, t, false, "failed mutation");
                break;
            }
            same(before, {o}, "mutation");
            auto a = look(*o);
            HCHECK(a.sealed == S.sealed, "sealed");
            check_changed(S, a, t, nullptr, "mutation");
            for (auto& e : evs) if (e.what == 'u') {
                auto i = unsigned(t.index_of(e.m->info.id));
                HCHECK(how == 2 || (how == 3 && i < n) || (how == 4 && (i == n || i == n2)), "an override is used for another mixin");
            }
            else if (e.what == 'i') {
                auto i = unsigned(t.index_of(e.m->info.id));
                HCHECK(how != 2 && !(how == 3 && i < n) && !(how == 4 && (i == n || (i == n2 && n2 > n))), "an override is not used");
            }
            break;
        }
        case CLEAR: {
            h::step(h::cat("clear ", oi));
            auto res = attempt([&] { if (g.coin()) o->clear(); else o->reset_type(); });
            HCHECK((res == LIB) == S.sealed && (res == OK) != S.sealed, "clear of a sealed object");
            if (res != OK) { HCHECK(evs.empty(), "sealed clear: something happens"); same(before, {}, "sealed clear"); break; }
            same(before, {o}, "clear");
            HCHECK(o->empty(), "clear");
            check_changed(S, look(*o), *types[0], nullptr, "clear");
            break;
        }
        case DROP: {
            h::step(h::cat("destroy ", oi));
            objs.erase(objs.begin() + oi);
            same(before, {o}, "destruction");
            snap none; none.t = types[0];
            check_changed(S, none, *types[0], nullptr, "destruction");
            break;
        }
        case SEAL:
            h::step(h::cat("seal ", oi));
            o->seal();
            HCHECK(o->sealed() && evs.empty(), "seal");
            same(before, {o}, "seal");
            break;
        case MOVE: {
            h::step(h::cat("move ", oi));
            auto R = objs[oi].r;
            auto n = std::make_unique<object>(std::move(*o));
            HCHECK(evs.empty(), "move construction touches mixins: ", log());
            auto a = look(*n);
            HCHECK(a == S, "move construction does not transfer everything");
            HCHECK(n->get_allocator() == allocator(R), "move construction: allocator");
            auto b = look(*o);
            HCHECK(b.t == types[0] && b.ms.empty() && !b.sealed && o->empty(), "the source of a move is not empty and unsealed");
            same(before, {o}, "move");
            if (g.coin() || objs.size() >= 5) { objs[oi].o = std::move(n); HCHECK(evs.empty(), "destruction of a moved-from object"); }
            else objs.push_back({std::move(n), R});
            break;
        }
        case MOVE_ASGN: {
            h::step(h::cat("move assign ", oi, " from ", pi));
            auto res = attempt([&] { *o = std::move(*p); });
            if (o == p) { HCHECK(res == OK && evs.empty(), "self move assignment"); same(before, {}, "self move assignment"); break; }
            bool bad = objs[oi].r != objs[pi].r || S.sealed;
            HCHECK((res == LIB) == bad && (res == OK) != bad, "move assignment with ", S.sealed ? "sealed target" : bad ? "different allocators" : "equal allocators");
            if (bad) { HCHECK(evs.empty(), "refused move assignment: something happens"); same(before, {}, "refused move assignment"); break; }
            same(before, {o, p}, "move assignment");
            HCHECK(look(*o) == P, "move assignment does not transfer everything");
            auto b = look(*p);
            HCHECK(b.t == types[0] && b.ms.empty() && !b.sealed && p->empty(), "the source of a move assignment is not empty and unsealed");
            std::map<mx*, int> d;
            for (auto& e : evs) { HCHECK(e.what == 'd' && common(e.m, S) && e.a == S.at[at(e.m, S)], "move assignment: ", log()); ++d[e.m]; }
            for (auto x : S.ms) HCHECK(d[x] == x->strong(), "move assignment: target's ", x->name, " destroyed ", d[x], " times");
            break;
        }
        case COPY: {
            if (objs.size() >= 5) return;
            h::step(h::cat("copy ", oi));
            bool second = g.coin(30), miss = false;
            auto R = second ? &r2 : &w.r;
            for (auto x : S.ms) if (!x->info.copy_init) miss = true;
            std::unique_ptr<object> n;
            arm();
            auto res = done(attempt([&] { n = std::make_unique<object>(o->copy(allocator(R))); }));
            expect_fail(res, miss, "copy");
            same(before, {}, "copy");
            snap none; none.t = types[0];
            if (res != OK) { check_rolled_back(none, *S.t, false, "copy"); break; }
            HCHECK(!n->sealed(), "a copy is not sealed");
            check_changed(none, look(*n), *S.t, &S, "copy");
            objs.push_back({std::move(n), R});
            break;
        }
        case COPY_FROM: {
            h::step(h::cat("copy_from ", oi, " from ", pi));
            bool miss = false;
            for (auto x : P.ms) if (common(x, S) ? !x->info.copy_asgn : !x->info.copy_init) miss = true;
            arm();
            auto res = done(attempt([&] { o->copy_from(*p); }));
            if (S.sealed || miss) {
                HCHECK(res != OK, "copy_from ", S.sealed ? "to a sealed object" : "with missing functions");
                HCHECK(res == LIB || blew, "copy_from: exception");
                HCHECK(evs.empty(), "copy_from touches mixins though it cannot work: ", log());
                same(before, {}, "impossible copy_from");
                break;
            }
            expect_fail(res, false, "copy_from");
            same(before, {o}, "copy_from");
            auto a = look(*o);
            if (res != OK) {
                HCHECK(a.t == S.t && a.ms == S.ms && a.at == S.at, "failed copy_from: the type or the mixins are changed");
                for (size_t i = 0; i < a.ms.size(); ++i) HCHECK(a.vals[i] == S.vals[i] || (common(a.ms[i], P) && a.vals[i] == P.vals[at(a.ms[i], P)]), "failed copy_from: value of ", a.ms[i]->name);
                check_rolled_back(S, *P.t, true, "copy_from");
                break;
            }
            check_changed(S, a, *P.t, &P, "copy_from");
            break;
        }
        case COPY_MATCH: case MOVE_MATCH: {
            bool cp = k == COPY_MATCH, fb = g.coin();
            if (!cp && o == p) return;
            h::step(h::cat(cp ? "copy_matching " : fb ? "move_matching with fallback " : "move_matching ", oi, " from ", pi));
            bool miss = false;
            for (auto x : P.ms) if (common(x, S)) miss |= cp ? !x->info.copy_asgn : !(x->info.move_asgn || (fb && x->info.move_init));
            arm();
            auto res = done(attempt([&] { if (cp) o->copy_matching_from(*p); else o->move_matching_from(*p, fb); }));
            if (miss) {
                HCHECK(res == LIB, "matching assignment with missing functions");
                HCHECK(evs.empty(), "impossible matching assignment touches mixins: ", log());
                same(before, {}, "impossible matching assignment");
                break;
            }
            expect_fail(res, false, "matching assignment");
            for (auto& l : live) l.second.moved = false;
            same(before, {o}, "matching assignment");
            auto a = look(*o);
            HCHECK(a.t == S.t && a.ms == S.ms && a.at == S.at && a.sealed == S.sealed, "matching assignment changes the type or the mixins");
            std::map<mx*, std::string> did;
            for (auto& e : evs) {
                did[e.m] += e.what;
                HCHECK(common(e.m, S) && common(e.m, P) && e.a == S.at[at(e.m, S)], "matching assignment: target ", e.m->name);
                if (e.what != 'd') HCHECK(e.b == P.at[at(e.m, P)], "matching assignment: source ", e.m->name);
            }
            if (res == OK) for (auto x : S.ms) {
                if (common(x, P)) {
                    HCHECK(a.vals[at(x, a)] == P.vals[at(x, P)], "matching assignment: value of ", x->name);
                    std::string want = cp ? "C" : x->info.move_asgn ? "M" : x->strong() ? "dm" : "m";
                    HCHECK(did[x] == want, "matching assignment of ", x->name, ": ", did[x], " instead of ", want);
                }
                else HCHECK(a.vals[at(x, a)] == S.vals[at(x, S)] && did[x].empty(), "matching assignment: ", x->name, " is not common");
            }
            break;
        }
        case COMPARE: {
            h::step(h::cat("compare ", oi, " with ", pi));
            bool eq = true;
            if (o != p) {
                if (S.t != P.t) eq = false;
                else for (size_t i = 0; i < S.ms.size(); ++i) {
                    auto& x = *S.ms[i];
                    if (!(x.info.equals || x.info.compare) || S.vals[i] != P.vals[i]) eq = false;
                }
            }
            HCHECK(o->equals(*p) == eq, "equals: ", !eq, " instead of ", eq);
            int want = 0;
            bool miss = false;
            if (o != p) {
                if (S.t != P.t) {
                    want = std::lexicographical_compare(S.t->mixins.begin(), S.t->mixins.end(), P.t->mixins.begin(), P.t->mixins.end(), [](const mixin_info* a, const mixin_info* b) { return a != b && canonical_mixin_order{}(a, b); }) ? -1 : 1;
                    HCHECK((S.t->compare(*P.t) < 0) == (want < 0) && S.t->compare(*P.t), "comparison of types");
                }
                else for (size_t i = 0; i < S.ms.size(); ++i) {
                    if (!S.ms[i]->info.compare) { miss = true; break; }
                    if (S.vals[i] != P.vals[i]) { want = S.vals[i] < P.vals[i] ? -1 : 1; break; }
                }
            }
            int got = 0;
            auto res = attempt([&] { got = o->compare(*p); });
            HCHECK((res == LIB) == miss && (res == OK) != miss, "compare with", miss ? " " : "out ", "missing functions");
            if (res == OK) HCHECK((got < 0) == (want < 0) && (got > 0) == (want > 0), "compare: ", got, " instead of ", want);
            same(before, {}, "compare");
            break;
        }
        default: break;
        }
        strict = focus == ~0u;
        audit();
    }
};

// weights: per op
inline void histories(h::rng& r, int n, int steps, const std::vector<int>& weights, int fail_pct, bool all = false, unsigned must = 0) {
    int sum = 0;
    for (int x : weights) sum += x;
    for (int c = 0; c < n; ++c) {
        h::begin(h::cat("history ", c, " "));
        fresh_world();
        {
            hist H(r, 2 + int(r.below(7)), must, all);
            for (int i = 0; i < 2; ++i) H.one(CREATE, false);
            for (int s = int(r.below(steps)) + 2; s-- > 0;) {
                int x = int(r.below(sum)), k = 0;
                while (x >= weights[k]) x -= weights[k++];
                H.one(op_kind(k), r.coin(fail_pct));
            }
            h::step("destroy all");
            H.objs.clear();
            balanced();
        }
    }
}
}
