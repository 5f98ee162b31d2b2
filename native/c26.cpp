#include "d.hpp"
#include <dynamix/bits/make_from_tuple.hpp>
#include <array>
using dynamix::impl::make_from_tuple;

// an argument which counts its copies and moves and knows when it was moved from
struct arg {
    int v; bool gone = false;
    static inline int copies = 0, moves = 0, alive = 0;
    static void zero() { copies = moves = 0; }
    explicit arg(int v) : v(v) { ++alive; }
    arg(const arg& o) : v(o.v), gone(o.gone) { ++copies; ++alive; }
    arg(arg&& o) noexcept : v(o.v), gone(o.gone) { o.gone = true; ++moves; ++alive; }
    ~arg() { --alive; }
};
// a mixin which remembers how it was constructed
struct seen { std::string how; std::vector<const void*> addr; std::vector<int> vals; };
struct mix {
    seen s; std::unique_ptr<arg> kept; std::unique_ptr<int> up;
    char pad[5];
    static inline int made = 0, dead = 0;
    void in(const char* h) { s.how = h; ++made; }
    mix() { in("()"); }
    explicit mix(int i) { in("i"); s.vals = {i}; }
    explicit mix(arg& a) { in("&"); s.addr = {&a}; s.vals = {a.v}; }
    explicit mix(const arg& a) { in("c&"); s.addr = {&a}; s.vals = {a.v}; }
    explicit mix(arg&& a) : kept(new arg(std::move(a))) { in("&&"); s.vals = {kept->v}; }
    mix(int i, arg&& a, const arg& b, int& c) : kept(new arg(std::move(a))) { in("i&&c&i&"); s.addr = {&b, &c}; s.vals = {i, kept->v, b.v, c}; c += 1; }
    mix(int i, arg& a, const arg& b, int& c) { in("i&c&i&"); s.addr = {&a, &b, &c}; s.vals = {i, a.v, b.v, c}; c += 1; }
    mix(std::unique_ptr<int> p, std::string t) : up(std::move(p)) { in("up,str"); s.how += ":" + t; }
    mix(int a, int b) { in("ii"); s.vals = {a, b}; }
    mix(const void* a, const void* b, const void* c) { in("ppp"); s.addr = {a, b, c}; }
    mix(const mix&) { in("copy"); }
    mix(mix&&) { in("move"); }
    ~mix() { ++dead; }
};
struct other { int x = 7; char c[40]; };
struct big { alignas(32) char b[64]; int k; explicit big(int k) : k(k) {} big() : k(-1) {} };
MIXIN(mix)
MIXIN(other)
MIXIN(big)

template <typename F> static void built(const char* n, F f, std::function<void(mix&)> chk) {
    h::begin(h::cat("make_from_tuple: ", n));
    struct frame { char guard1[64]; alignas(mix) unsigned char mem[sizeof(mix)]; char guard2[64]; };
    auto fr = std::make_unique<frame>();
    memset((void*)fr.get(), 0x5a, sizeof(frame));
    int m = mix::made, d = mix::dead;
    f((void*)fr->mem);
    CHECK(mix::made == m + 1, "exactly one object is built (", mix::made - m, ")");
    CHECK(mix::dead == d, "nothing is destroyed");
    auto& r = *reinterpret_cast<mix*>(fr->mem);
    chk(r);
    for (char c : fr->guard1) CHECK(c == 0x5a, "memory before the object");
    for (char c : fr->guard2) CHECK(c == 0x5a, "memory after the object");
    r.~mix();
}

// an object whose mixins include mix, built with the given ops; f is run with the object's mix
static void object_case(h::rng& r, dynamix::domain& dom, int kind, bool before) {
    using namespace dynamix;
    object o(dom);
    static const char* const kinds[] = {"lvalue", "const lvalue", "rvalue", "four", "four (lvalue)", "unique_ptr+string", "none", "int", "two ints", "pointers"};
    h::begin(h::cat("object: ", kinds[kind], before ? " (with other mixins, construct)" : " (add)", r.below(1000000)));
    if (r.coin()) mutate(o, add<other>());
    arg a(int(r.below(1000))), b(int(r.below(1000)));
    int x = int(r.below(1000)), c = int(r.below(1000)), c0 = c;
    int made = mix::made;
    arg::zero();
    auto run = [&](auto&&... as) {
        // the arguments of add/construct are held by reference: they live to the end of mutate
        if (before) {
            const mixin_info* ms[] = {&g::get_mixin_info<big>(), &g::get_mixin_info<mix>(), &g::get_mixin_info<other>()};
            auto& t = dom.get_type(itlib::span<const mixin_info* const>(ms, 3));
            if (r.coin()) mutate_to(o, t, construct<big>(x + 1), construct<mix>(std::forward<decltype(as)>(as)...));
            else mutate_to(o, t, construct<mix>(std::forward<decltype(as)>(as)...), construct<big>(x + 1));
            CHECK(o.get<big>()->k == x + 1, "the other override got its own arguments");
        }
        else if (r.coin()) mutate(o, add<mix>(std::forward<decltype(as)>(as)...), add<big>(x + 2));
        else mutate(o, add<big>(x + 2), add<mix>(std::forward<decltype(as)>(as)...));
        if (!before) CHECK(o.get<big>()->k == x + 2, "the other override got its own arguments");
    };
    switch (kind) {
    case 0: run(a); break;
    case 1: run(std::as_const(a)); break;
    case 2: run(std::move(a)); break;
    case 3: run(x, std::move(a), b, c); break;
    case 4: run(x, a, b, c); break;
    case 5: run(std::make_unique<int>(x), std::string("text") + std::to_string(c)); break;
    case 6: if (before) run(); else { mutate(o, add<mix>(), add<big>(x + 2)); } break;
    case 7: run(x); break;
    case 8: run(x, c); break;
    default: run((const void*)&a, (const void*)&b, (const void*)&c);
    }
    CHECK(mix::made == made + 1, "the mixin is constructed exactly once");
    auto* m = o.get<mix>();
    CHECK(m, "has the mixin");
    auto& s = m->s;
    using V = std::vector<int>; using A = std::vector<const void*>;
    switch (kind) {
    case 0: CHECK(s.how == "&" && s.addr == A{&a} && s.vals == V{a.v} && !a.gone, "lvalue argument: ", s.how); break;
    case 1: CHECK(s.how == "c&" && s.addr == A{&a} && s.vals == V{a.v} && !a.gone, "const lvalue argument: ", s.how); break;
    case 2: CHECK(s.how == "&&" && s.vals == V{a.v} && a.gone && !m->kept->gone, "rvalue argument is moved: ", s.how, " ", arg::moves); break;
    case 3: CHECK(s.how == "i&&c&i&" && s.addr == (A{&b, &c}) && s.vals == (V{x, a.v, b.v, c0}) && a.gone && !b.gone && c == c0 + 1, "four arguments: ", s.how); break;
    case 4: CHECK(s.how == "i&c&i&" && s.addr == (A{&a, &b, &c}) && s.vals == (V{x, a.v, b.v, c0}) && !a.gone && !b.gone && c == c0 + 1, "four lvalue arguments: ", s.how); break;
    case 5: CHECK(s.how == h::cat("up,str:text", c) && m->up && *m->up == x, "move-only: ", s.how); break;
    case 6: CHECK(s.how == "()", "no arguments: ", s.how); break;
    case 7: CHECK(s.how == "i" && s.vals == V{x}, "int: ", s.how); break;
    case 8: CHECK(s.how == "ii" && s.vals == (V{x, c}), "two ints: ", s.how); break;
    default: CHECK(s.how == "ppp" && s.addr == (A{&a, &b, &c}), "pointers: ", s.how);
    }
    CHECK(arg::copies == 0, "nothing is copied (", arg::copies, ")");
}

void run(h::rng& r, bool thorough) {
    using V = std::vector<int>; using A = std::vector<const void*>;
    for (int n = thorough ? 300 : 20; n-- > 0;) {
        arg a(int(r.below(1000))), b(int(r.below(1000))); const arg ca(int(r.below(1000)));
        int x = int(r.below(1000)), c = int(r.below(1000)), c0;
        arg::zero();
        built("empty", [&](void* p) { make_from_tuple<mix>(p, std::tuple<>()); }, [&](mix& m) { CHECK(m.s.how == "()", m.s.how); });
        built("int", [&](void* p) { make_from_tuple<mix>(p, std::make_tuple(x)); }, [&](mix& m) { CHECK(m.s.how == "i" && m.s.vals == V{x}, m.s.how); });
        { std::tuple<int> t(x); built("int (lvalue tuple)", [&](void* p) { make_from_tuple<mix>(p, t); }, [&](mix& m) { CHECK(m.s.how == "i" && m.s.vals == V{x}, m.s.how); }); }
        built("lvalue reference", [&](void* p) { make_from_tuple<mix>(p, std::tuple<arg&>(a)); }, [&](mix& m) { CHECK(m.s.how == "&" && m.s.addr == A{&a} && !a.gone, m.s.how); });
        { std::tuple<arg&> t(a); built("lvalue reference (lvalue tuple)", [&](void* p) { make_from_tuple<mix>(p, t); }, [&](mix& m) { CHECK(m.s.how == "&" && m.s.addr == A{&a} && !a.gone, m.s.how); }); }
        built("const lvalue reference", [&](void* p) { make_from_tuple<mix>(p, std::tuple<const arg&>(a)); }, [&](mix& m) { CHECK(m.s.how == "c&" && m.s.addr == A{&a} && !a.gone, m.s.how); });
        { std::tuple<arg> t(arg(x + 1)); arg::zero(); built("value in an lvalue tuple", [&](void* p) { make_from_tuple<mix>(p, t); }, [&](mix& m) { CHECK(m.s.how == "&" && m.s.addr == A{&std::get<0>(t)} && !std::get<0>(t).gone && !arg::copies && !arg::moves, m.s.how); }); }
#ifndef VF_FALLBACK
        { const std::tuple<arg> t(arg(x + 1)); arg::zero(); built("value in a const tuple", [&](void* p) { make_from_tuple<mix>(p, t); }, [&](mix& m) { CHECK(m.s.how == "c&" && m.s.addr == A{&std::get<0>(t)} && !arg::copies && !arg::moves, m.s.how); }); }
#endif
        { std::tuple<arg> t(arg(x + 1)); arg::zero(); built("value in an rvalue tuple", [&](void* p) { make_from_tuple<mix>(p, std::move(t)); }, [&](mix& m) { CHECK(m.s.how == "&&" && m.s.vals == V{x + 1} && std::get<0>(t).gone && !m.kept->gone && arg::moves == 1 && !arg::copies, m.s.how); }); }
        arg::zero();
        built("rvalue reference", [&](void* p) { make_from_tuple<mix>(p, std::forward_as_tuple(std::move(b))); }, [&](mix& m) { CHECK(m.s.how == "&&" && m.s.vals == V{b.v} && b.gone && arg::moves == 1 && !arg::copies, m.s.how); });
        b.gone = false; arg::zero(); c0 = c;
        built("int, rvalue, const lvalue, lvalue int", [&](void* p) { make_from_tuple<mix>(p, std::forward_as_tuple(x, std::move(b), ca, c)); },
            [&](mix& m) { CHECK(m.s.how == "i&&c&i&" && m.s.addr == (A{&ca, &c}) && m.s.vals == (V{x, b.v, ca.v, c0}) && b.gone && c == c0 + 1 && arg::moves == 1 && !arg::copies, m.s.how); });
        c0 = c; arg::zero();
        built("int, lvalue, const lvalue, lvalue int", [&](void* p) { make_from_tuple<mix>(p, std::forward_as_tuple(x, a, ca, c)); },
            [&](mix& m) { CHECK(m.s.how == "i&c&i&" && m.s.addr == (A{&a, &ca, &c}) && m.s.vals == (V{x, a.v, ca.v, c0}) && !a.gone && c == c0 + 1 && !arg::moves && !arg::copies, m.s.how); });
        built("two ints", [&](void* p) { make_from_tuple<mix>(p, std::make_tuple(x, c)); }, [&](mix& m) { CHECK(m.s.how == "ii" && m.s.vals == (V{x, c}), m.s.how); });
        built("a pair", [&](void* p) { make_from_tuple<mix>(p, std::make_pair(x, c)); }, [&](mix& m) { CHECK(m.s.how == "ii" && m.s.vals == (V{x, c}), m.s.how); });
        built("an array", [&](void* p) { make_from_tuple<mix>(p, std::array<int, 2>{x, c}); }, [&](mix& m) { CHECK(m.s.how == "ii" && m.s.vals == (V{x, c}), m.s.how); });
        built("pointers", [&](void* p) { make_from_tuple<mix>(p, std::tuple<const void*, const void*, const void*>(&a, &b, &c)); }, [&](mix& m) { CHECK(m.s.how == "ppp" && m.s.addr == (A{&a, &b, &c}), m.s.how); });
        built("move-only", [&](void* p) { make_from_tuple<mix>(p, std::make_tuple(std::make_unique<int>(x), std::string("s"))); }, [&](mix& m) { CHECK(m.s.how == "up,str:s" && m.up && *m.up == x, m.s.how); });
    }
    CHECK(arg::alive == 0, "arguments balanced");
    dynamix::domain dom("d");
    dom.register_mixin(h::info<other>());
    dom.register_mixin(h::info<mix>());
    dom.register_mixin(h::info<big>());
    for (int n = thorough ? 200 : 12; n-- > 0;)
        for (int k = 0; k < 10; ++k) for (int b = 0; b < 2; ++b) object_case(r, dom, k, b);
    CHECK(arg::alive == 0 && mix::made == mix::dead, "objects balanced");
}
