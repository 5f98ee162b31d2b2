#include "m.hpp"
// the layout of types, over mixins with all combinations of sizes, alignments and kinds
static void check(const dynamix::type& t, const char* what) {
    using namespace m;
    size_t end = t.num_mixins() * sizeof(object_mixin_data), align = sizeof(void*);
    CHECK(t.mixin_offsets.size() == t.num_mixins(), what, ": offsets");
    for (size_t i = 0; i < t.num_mixins(); ++i) {
        auto& x = find(t.mixins[i])->info;
        size_t o = t.mixin_offsets[i];
        if (x.external()) { CHECK(o == 0, what, ": external ", x.name.to_std(), " has offset ", o); continue; }
        size_t a = std::max<size_t>(x.alignment, 1);
        CHECK(o != 0, what, ": internal ", x.name.to_std(), " has no offset");
        CHECK(o % a == 0, what, ": ", x.name.to_std(), " at ", o, " is not aligned by ", a);
        CHECK(o % sizeof(void*) == 0, what, ": object pointer of ", x.name.to_std(), " at ", o, " is not aligned");
        CHECK(o >= end + sizeof(void*), what, ": ", x.name.to_std(), " at ", o, " overlaps with what ends at ", end);
        end = o + x.size;
        align = std::max(align, a);
    }
    CHECK(end <= t.object_buffer_size, what, ": mixins end at ", end, " in a buffer of ", t.object_buffer_size);
    CHECK(t.object_buffer_alignment == align, what, ": alignment ", t.object_buffer_alignment, " instead of ", align);
}
static void one(h::rng& r, m::world& w) {
    using namespace m;
    auto v = w.subset(r, 1 + r.below(12));
    auto& t = w.get(v);
    h::step(m::str(v));
    if (!t.num_mixins()) return;
    check(t, "type");
    auto b = blocks.find((char*)&t);
    CHECK(b != blocks.end() && b->second.size == t.buf_size && b->second.owner == &w.dr, "the type's own storage");
    // everything of the type is inside of its storage
    auto in = [&](const void* p, size_t n, size_t al) { CHECK((char*)p >= (char*)&t + sizeof(type) && (char*)p + n <= (char*)&t + t.buf_size && uintptr_t(p) % al == 0, "part of the type at ", (char*)p - (char*)&t, " size ", n, " of ", t.buf_size); };
    std::vector<std::pair<const char*, size_t>> parts;
    auto part = [&](const void* p, size_t n, size_t al) { if (n) { in(p, n, al); parts.push_back({(const char*)p, n}); } };
    part(t.mixins.data(), t.mixins.size() * sizeof(void*), alignof(void*));
    part(t.mixin_offsets.data(), t.mixin_offsets.size() * 4, 4);
    part(t.sparse_mixin_indices.data(), t.sparse_mixin_indices.size() * sizeof(mixin_index_t), alignof(mixin_index_t));
    part(t.ftable, t.ftable_length * sizeof(type::ftable_entry), 8);
    for (size_t i = 0; i < t.ftable_length; ++i) part(t.ftable[i].begin, (t.ftable[i].end - t.ftable[i].begin) * sizeof(type::ftable_payload), 8);
    std::sort(parts.begin(), parts.end());
    for (size_t i = 1; i < parts.size(); ++i) CHECK(parts[i - 1].first + parts[i - 1].second <= parts[i].first, "parts of the type overlap");
    // an object has room for it
    bool ok = true;
    for (auto x : v) ok &= !!x->info.init;
    if (ok) { object o(t, allocator(&w.r)); m::look(o); }
}
void run(h::rng& r, bool thorough) {
    // every pair (and some triples) of shapes
    struct shape { size_t s, a; };
    std::vector<shape> shapes;
    for (size_t a : {0, 1, 2, 4, 8, 16, 64}) for (size_t n : {0, 1, 3}) if (a || !n) shapes.push_back({a * n, a});
    for (auto& x : shapes) for (auto& y : shapes) for (int ext = 0; ext < 3; ++ext) {
        h::begin(h::cat("two mixins ", x.s, "/", x.a, ext == 1 ? " external" : "", " and ", y.s, "/", y.a, ext == 2 ? " external" : ""));
        m::fresh_world();
        {
            m::world w({}, true);
            w.add("a", x.s, x.a).info.force_external = ext == 1;
            w.add("b", y.s, y.a).info.force_external = ext == 2;
            for (auto& i : w.own) w.dom->register_mixin(i->info);
            check(w.get({w.own[0].get(), w.own[1].get()}), "pair");
            m::object o(w.get({w.own[1].get(), w.own[0].get(),}), m::allocator(&w.r));
            m::look(o);
        }
        m::blocks.clear();
    }
    for (int c = thorough ? 3000 : 300; c-- > 0;) {
        h::begin("random ");
        m::fresh_world();
        {
            m::world w({}, true);
            int n = 1 + int(r.below(14)), gaps = int(r.below(5));
            std::vector<m::common_feature_info> fs(3);
            static const char* fn[] = {"f0", "f1", "f2"};
            for (int i = 0; i < 3; ++i) { fs[i].name = dnmx_sv::from_std(fn[i]); fs[i].allow_clashes = true; }
            for (int i = 0; i < n; ++i) {
                auto& x = w.random(r, "m" + std::to_string(i));
                for (auto& f : fs) if (r.coin(30)) { m::feature_for_mixin ff{}; ff.info = &f; ff.payload = &ff; ff.bid = int(r.below(3)); x.feats.push_back(ff); }
                x.set_feats();
            }
            h::step(w.desc());
            for (auto& i : w.own) w.dom->register_mixin(i->info);
            while (gaps-- > 0 && w.own.size() > 1) {   // ids with gaps
                auto k = r.below(w.own.size());
                w.dom->unregister_mixin(w.own[k]->info);
                w.own.erase(w.own.begin() + k);
            }
            for (int k = 0; k < 6; ++k) one(r, w);
            m::live.clear();
        }
        m::balanced();
    }
}
