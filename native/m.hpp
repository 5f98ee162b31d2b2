// a tracked world for harnesses: mixins made at run time whose life-cycle functions check every
// step (construction once, destruction once, alignment, no overlap, values), memory resources
// and mixin allocators which check every block, and injected failures
#pragma once
#include "h.hpp"
#include <dynamix/domain.hpp>
#include <dynamix/type.hpp>
#include <dynamix/type_mutation.hpp>
#include <dynamix/object.hpp>
#include <dynamix/object_of.hpp>
#include <dynamix/object_mutation.hpp>
#include <dynamix/mutate.hpp>
#include <dynamix/mutate_to.hpp>
#include <dynamix/mixin_info.hpp>
#include <dynamix/feature_info.hpp>
#include <dynamix/feature_for_mixin.hpp>
#include <dynamix/common_mixin_info.hpp>
#include <dynamix/common_feature_info.hpp>
#include <dynamix/mixin_allocator.hpp>
#include <dynamix/mutation_rule_info.hpp>
#include <dynamix/domain_settings_builder.hpp>
#include <dynamix/domain_traverse.hpp>
#include <dynamix/exception.hpp>
#include <algorithm>
#include <map>
#include <memory>
#include <optional>
#include <set>

namespace m {
using namespace dynamix;

struct mx;
struct inst { mx* m; uint64_t val; bool moved; };
struct block { size_t size, align; const void* owner; };
inline std::map<char*, inst> live;
inline std::map<char*, block> blocks;
inline uint64_t counter;
inline long constructed, destroyed, allocs, deallocs;
inline long fuse = -1;       // a failure is injected when it reaches zero
inline bool blew;
inline bool burn() {
    if (fuse < 0) return false;
    if (fuse-- == 0) { blew = true; return true; }
    return false;
}
struct injected : std::runtime_error { injected(const char* s) : std::runtime_error(s) {} };

struct event { char what; mx* m; const void* a; const void* b; };
inline std::vector<event> evs;

struct talloc final : mixin_allocator {
    byte_t* alloc_mixin_buf(const mixin_info& info) override;
    void dealloc_mixin_buf(byte_t* p, const mixin_info& info) noexcept override;
};

enum func { F_INIT = 1, F_CINIT = 2, F_MINIT = 4, F_CASGN = 8, F_MASGN = 16, F_DESTROY = 32, F_EQ = 64, F_CMP = 128, F_ALL = 63 };

struct mx {
    mixin_info info = dnmx_make_mixin_info();
    std::string name;
    std::vector<feature_for_mixin> feats;
    std::unique_ptr<talloc> al;
    bool throws = false;           // failing constructors throw (or return an error)
    int rank = 0;

    mx(std::string n, size_t size, size_t align, unsigned funcs) : name(std::move(n)) {
        info.name = dnmx_sv::from_std(name);
        info.set_size_alignment(byte_size_t(size), byte_size_t(align));
        info.user_data = uintptr_t(this);
        if (funcs & F_INIT) info.init = init;
        if (funcs & F_CINIT) info.copy_init = cinit;
        if (funcs & F_MINIT) info.move_init = minit;
        if (funcs & F_CASGN) info.copy_asgn = casgn;
        if (funcs & F_MASGN) info.move_asgn = masgn;
        if (funcs & F_DESTROY) info.destroy = destroy;
        if (funcs & F_EQ) info.equals = eq;
        if (funcs & F_CMP) info.compare = cmp;
    }
    mx(const mx&) = delete;
    void use_alloc() { al = std::make_unique<talloc>(); info.allocator = al->to_c_hanlde(); }
    void set_feats() { info.features = feats.data(); info.num_features = uint32_t(feats.size()); }
    bool strong() const { return !!info.destroy; }

    static mx& of(const mixin_info* i) { return *reinterpret_cast<mx*>(i->user_data); }
    static void fill(char* p, const mx& m, uint64_t v) { for (size_t i = 0; i < m.info.size; ++i) p[i] = char(v * 31 + i); }
    static void intact(char* p, const inst& x) {
        for (size_t i = 0; i < x.m->info.size; ++i) CHECK(p[i] == char(x.val * 31 + i), "mixin ", x.m->name, ": byte ", i, " was overwritten");
    }
    static inst& get(const void* q, const mx& m, const char* what) {
        auto p = static_cast<char*>(const_cast<void*>(q));
        auto it = live.find(p);
        CHECK(it != live.end(), what, " of ", m.name, ": not a living mixin");
        CHECK(it->second.m == &m, what, " of ", m.name, ": a ", it->second.m->name, " lives there");
        intact(p, it->second);
        return it->second;
    }
    static void put(void* q, mx& m, uint64_t v, char what) {
        auto p = static_cast<char*>(q);
        if (m.info.alignment) CHECK(uintptr_t(p) % m.info.alignment == 0, "mixin ", m.name, " is not aligned");
        auto b = blocks.upper_bound(p);
        CHECK(b != blocks.begin(), "mixin ", m.name, " is not in allocated memory");
        --b;
        CHECK(p >= b->first + sizeof(void*) && p + m.info.size <= b->first + b->second.size, "mixin ", m.name, " exceeds its buffer");
        if (auto it = live.find(p); it != live.end()) {
            CHECK(!it->second.m->strong(), "mixin ", m.name, " constructed over a living ", it->second.m->name);
            live.erase(it);
        }
        // neighbours (with the object pointer in front of each)
        for (auto it = live.lower_bound(p); it != live.end() && it->first < p + m.info.size + sizeof(void*);) {
            CHECK(!it->second.m->strong(), "mixin ", m.name, " overlaps ", it->second.m->name);
            it = live.erase(it);
        }
        for (auto it = live.lower_bound(p); it != live.begin();) {
            --it;
            if (it->first + it->second.m->info.size + sizeof(void*) <= p) break;
            CHECK(!it->second.m->strong(), "mixin ", m.name, " overlaps ", it->second.m->name);
            it = live.erase(it);
        }
        live[p] = {&m, v, false};
        fill(p, m, v);
        ++constructed;
        (void)what;
    }

    static error_return_t fail(mx& m) {
        if (m.throws) throw injected("constructor");
        return 77;
    }
    static error_return_t init(const mixin_info* i, void* p) {
        auto& m = of(i);
        CHECK(&m.info == i, "info");
        evs.push_back({'i', &m, p, nullptr});
        if (burn()) return fail(m);
        put(p, m, ++counter, 'i');
        return 0;
    }
    static error_return_t cinit(const mixin_info* i, void* p, const void* s) {
        auto& m = of(i);
        evs.push_back({'c', &m, p, s});
        auto v = get(s, m, "copy source").val;
        if (burn()) return fail(m);
        put(p, m, v, 'c');
        return 0;
    }
    static void minit(const mixin_info* i, void* p, void* s) noexcept {
        auto& m = of(i);
        evs.push_back({'m', &m, p, s});
        auto v = get(s, m, "move source").val;
        CHECK(!get(s, m, "move source").moved, "mixin ", m.name, " moved from twice");
        put(p, m, v, 'm');
        get(s, m, "move source").moved = true;
    }
    static error_return_t casgn(const mixin_info* i, void* p, const void* s) {
        auto& m = of(i);
        evs.push_back({'C', &m, p, s});
        auto v = get(s, m, "copy source").val;
        auto& d = get(p, m, "copy target");
        if (burn()) return fail(m);
        d.val = v; d.moved = false; fill(static_cast<char*>(p), m, v);
        return 0;
    }
    static void masgn(const mixin_info* i, void* p, void* s) noexcept {
        auto& m = of(i);
        evs.push_back({'M', &m, p, s});
        auto v = get(s, m, "move source").val;
        auto& d = get(p, m, "move target");
        d.val = v; d.moved = false; fill(static_cast<char*>(p), m, v);
        if (p != s) get(s, m, "move source").moved = true;
    }
    static void destroy(const mixin_info* i, void* p) noexcept {
        auto& m = of(i);
        evs.push_back({'d', &m, p, nullptr});
        get(p, m, "destruction");
        live.erase(static_cast<char*>(p));
        memset(p, 0xdd, m.info.size);
        ++destroyed;
    }
    static bool eq(const mixin_info* i, const void* a, const void* b) noexcept {
        auto& m = of(i);
        evs.push_back({'=', &m, a, b});
        return get(a, m, "comparison").val == get(b, m, "comparison").val;
    }
    static int cmp(const mixin_info* i, const void* a, const void* b) noexcept {
        auto& m = of(i);
        evs.push_back({'<', &m, a, b});
        auto x = get(a, m, "comparison").val, y = get(b, m, "comparison").val;
        return x < y ? -1 : x > y ? 1 : 0;
    }
};

inline char* take(size_t size, size_t align, const void* owner) {
    CHECK(align && !(align & (align - 1)), "alignment ", align, " requested");
    if (burn()) throw std::bad_alloc{};
    char* p = nullptr;
    size_t al = align < sizeof(void*) ? sizeof(void*) : align;
    // aligned to al but to nothing more
    void* raw;
    if (posix_memalign(&raw, 2 * al, al + size)) throw std::bad_alloc{};
    p = static_cast<char*>(raw) + al;
    memset(p, 0xcd, size);
    blocks[p] = {size, align, owner};
    ++allocs;
    return p;
}
inline void give(void* q, size_t size, size_t align, const void* owner) {
    auto p = static_cast<char*>(q);
    auto it = blocks.find(p);
    CHECK(it != blocks.end(), "a block is returned which was not allocated (or twice)");
    CHECK(it->second.owner == owner, "a block is returned to another allocator");
    CHECK(it->second.size == size && it->second.align == align, "a block of ", it->second.size, "/", it->second.align, " is returned as ", size, "/", align);
    for (auto l = live.lower_bound(p); l != live.end() && l->first <= p + size;) {
        if (l->first == p + size && size) break;
        CHECK(!l->second.m->strong(), "memory of the living mixin ", l->second.m->name, " is returned");
        l = live.erase(l);
    }
    blocks.erase(it);
    size_t al = align < sizeof(void*) ? sizeof(void*) : align;
    free(p - al);
    ++deallocs;
}

inline byte_t* talloc::alloc_mixin_buf(const mixin_info& info) {
    return reinterpret_cast<byte_t*>(take(info.obj_buf_size, info.obj_buf_alignment_and_mixin_offset, &info));
}
inline void talloc::dealloc_mixin_buf(byte_t* p, const mixin_info& info) noexcept { give(p, info.obj_buf_size, info.obj_buf_alignment_and_mixin_offset, &info); }

struct res final : std::pmr::memory_resource {
    void* do_allocate(size_t n, size_t a) override { return take(n, a, this); }
    void do_deallocate(void* p, size_t n, size_t a) override { give(p, n, a, this); }
    bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
};

// what an object should look like
struct snap {
    std::vector<mx*> ms;
    std::vector<uint64_t> vals;
    std::vector<const void*> at;
    const type* t;
    bool sealed;
    bool operator==(const snap& o) const { return ms == o.ms && vals == o.vals && at == o.at && t == o.t && sealed == o.sealed; }
};
inline mx* find(const mixin_info* i) { return reinterpret_cast<mx*>(i->user_data); }

// the accessors of the object agree with each other; its mixins are alive and know the object
inline snap look(object& o) {
    snap s;
    auto& t = o.get_type();
    s.t = &t;
    s.sealed = o.sealed();
    CHECK(o.num_mixins() == t.num_mixins(), "number of mixins");
    CHECK(o.empty() == (t.num_mixins() == 0), "empty() ", o.empty(), " with ", t.num_mixins(), " mixins");
    const object& c = o;
    for (mixin_index_t i = 0; i < t.num_mixins(); ++i) {
        auto info = t.mixins[i];
        auto m = find(info);
        void* p = o.get_at(i);
        CHECK(p, "mixin ", m->name, " is missing");
        CHECK(o.get(info->id) == p && o.get(*info) == p && c.get(info->id) == p && c.get(*info) == p && c.get_at(i) == p && o.unchecked_get_at(i) == p, "accessors of ", m->name, " differ");
        auto byname = o.get(m->name);
        mixin_index_t first = 0;
        while (t.mixins[first]->name != info->name) ++first;
        CHECK(byname == o.get_at(first) && c.get(m->name) == byname, "access of ", m->name, " by name");
        CHECK(o.has(info->id) && o.has(*info) && o.has(m->name), "has ", m->name);
        CHECK(object_of(p) == &o && object_of((const void*)p) == &o, "object_of ", m->name);
        s.ms.push_back(m);
        s.vals.push_back(mx::get(p, *m, "access").val);
        CHECK(!live[static_cast<char*>(p)].moved, "mixin ", m->name, " is moved from");
        s.at.push_back(p);
    }
    CHECK(!o.get_at(t.num_mixins()) && !c.get_at(t.num_mixins()) && !o.get_at(invalid_mixin_index), "get_at out of range");
    return s;
}
inline std::string str(const std::vector<mx*>& v) {
    std::string r = "[";
    for (auto m : v) r += m->name + " ";
    return r + "]";
}
inline std::string str(const std::vector<const mixin_info*>& v) {
    std::string r = "[";
    for (auto i : v) r += std::string(i->name.to_std()) + " ";
    return r + "]";
}

struct world {
    res r;
    res dr;     // the memory of the domain
    std::vector<std::unique_ptr<mx>> own;
    std::vector<std::unique_ptr<common_feature_info>> feats;
    std::unique_ptr<domain> dom;
    world(domain_settings s = {}, bool tracked = false) { dom = tracked ? std::make_unique<domain>("w", s, 0, nullptr, allocator(&dr)) : std::make_unique<domain>("w", s); }
    mx& add(std::string n, size_t size, size_t align, unsigned funcs = F_ALL) {
        own.push_back(std::make_unique<mx>(std::move(n), size, align, funcs));
        return *own.back();
    }
    mx& random(h::rng& g, std::string n, unsigned must = 0, bool all = false) {
        static const size_t als[] = {1, 2, 4, 8, 16, 32, 64, 128};
        size_t al = g.coin(70) ? als[g.below(4)] : als[g.below(8)], size = g.coin(8) ? 0 : al * (1 + g.below(4));
        if (!size && g.coin()) al = 0;
        unsigned f = F_ALL;
        if (!all) {
            if (g.coin(15)) f &= ~F_INIT;
            if (g.coin(15)) f &= ~F_CINIT;
            if (g.coin(20)) f &= ~F_MINIT;
            if (g.coin(15)) f &= ~F_CASGN;
            if (g.coin(15)) f &= ~F_MASGN;
            if (g.coin(10)) f &= ~F_DESTROY;
        }
        if (g.coin(60)) f |= F_EQ;
        if (g.coin(60)) f |= F_CMP;
        f |= must;
        auto& x = add(std::move(n), size, al, f);
        x.throws = g.coin();
        if (g.coin(15)) x.use_alloc();
        if (g.coin(15)) x.info.force_external = true;
        return x;
    }
    std::string desc() const {
        std::string s;
        for (auto& x : own)
            s += h::cat(x->name, "(", x->info.size, "/", x->info.alignment, x->info.init ? "" : " -init", x->info.copy_init ? "" : " -cinit", x->info.move_init ? "" : " -minit", x->info.copy_asgn ? "" : " -casgn",
                        x->info.move_asgn ? "" : " -masgn", x->info.destroy ? "" : " -destroy", x->info.equals ? " eq" : "", x->info.compare ? " cmp" : "", x->al ? " alloc" : "", x->info.force_external ? " ext" : "", ") ");
        return s;
    }
    const type& get(const std::vector<mx*>& v) {
        type_mutation t(*dom);
        for (auto x : v) t.add(x->info);
        return dom->get_type(std::move(t));
    }
    std::vector<mx*> subset(h::rng& g, size_t most = 6) {
        std::vector<mx*> v;
        for (auto& x : own) if (g.coin(45)) v.push_back(x.get());
        for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[g.below(i)]);
        if (v.size() > most) v.resize(most);
        return v;
    }
};

inline void fresh_world() {
    live.clear();
    CHECK(blocks.empty(), "blocks are left from the last case");
    evs.clear();
    constructed = destroyed = allocs = deallocs = 0;
    fuse = -1;
    blew = false;
}
// everything was destroyed and returned
inline void balanced() {
    CHECK(blocks.empty(), blocks.size(), " blocks were not returned");
    for (auto& l : live) CHECK(!l.second.m->strong(), "mixin ", l.second.m->name, " was not destroyed");
    CHECK(allocs == deallocs, "allocations ", allocs, ", deallocations ", deallocs);
}
template <typename F> bool throws(F f) {
    try { f(); } catch (...) { return true; }
    return false;
}
}
