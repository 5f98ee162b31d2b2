#include "h.hpp"
#include <dynamix/mixin_info.hpp>
#include <memory>
#include <tuple>

// reference: (priority, unsigned bytes of the name, id, address)
static bool ref(const dnmx_mixin_info& a, const dnmx_mixin_info& b) {
    if (a.order_priority != b.order_priority) return a.order_priority < b.order_priority;
    std::basic_string<unsigned char> x((const unsigned char*)a.name.begin, (const unsigned char*)a.name.end), y((const unsigned char*)b.name.begin, (const unsigned char*)b.name.end);
    size_t i = 0;
    for (; i < x.size() && i < y.size(); ++i) if (x[i] != y[i]) return x[i] < y[i];
    if (x.size() != y.size()) return x.size() < y.size();
    if (a.id.i != b.id.i) return a.id.i < b.id.i;
    return std::less<const void*>{}(&a, &b);
}
static std::string show(const dnmx_mixin_info& m) {
    return h::cat("(", m.order_priority, ",'", h::esc(std::string(m.name.begin, m.name.end)), "',", m.id.i, ")");
}
static void pair(const dnmx_mixin_info& a, const dnmx_mixin_info& b) {
    h::begin(h::cat("canonical order of ", show(a), " and ", show(b), &a == &b ? " same" : &a < &b ? " a below b" : " a above b"));
    bool r = ref(a, b);
    CHECK(dnmx_mixin_canonical_order(&a, &b) == r, "canonical order a b, expected ", r);
    CHECK(dynamix::canonical_mixin_order{}(&a, &b) == r, "functor on pointers, expected ", r);
    CHECK(dynamix::canonical_mixin_order{}(a, b) == r, "functor on references, expected ", r);
    bool q = ref(b, a);
    CHECK(dnmx_mixin_canonical_order(&b, &a) == q, "canonical order b a, expected ", q);
    CHECK(&a == &b ? !r && !q : r != q, "total order");
}
void run(h::rng& r, bool thorough) {
    const int32_t prios[] = {0, 1, -1, 2, INT32_MIN, INT32_MAX, -1000000, 2000000000, -2000000000};
    std::vector<std::string> names = {"", "a", "b", "aa", "ab", "A", "\xff", "a\xff", std::string("\0", 1), std::string("a\0", 2), std::string("a\0b", 3), "longer name", "longer namf"};
    const uint32_t ids[] = {0, 1, 2, dnmx_invalid_id, dnmx_invalid_id - 1, 0x80000000u, 0x7fffffffu};
    std::vector<dnmx_mixin_info> ms;
    // exactly sized name buffers, some shared
    std::vector<std::unique_ptr<char[]>> bufs;
    auto mk = [&](int32_t p, const std::string& n, uint32_t id) {
        auto m = dnmx_make_mixin_info();
        m.order_priority = p;
        bufs.emplace_back(new char[n.size()]);
        memcpy(bufs.back().get(), n.data(), n.size());
        m.name = dnmx_make_sv_len(bufs.back().get(), n.size());
        m.id.i = id;
        ms.push_back(m);
    };
    for (auto p : prios) for (auto id : {0u, dnmx_invalid_id}) mk(p, "n", id);
    for (auto& n : names) for (auto id : {3u, 4u}) for (auto p : {0, -5}) mk(p, n, id);
    for (auto id : ids) { mk(7, "same", id); mk(7, "same", id); }
    auto big = std::string("shared buffer of names");
    for (size_t i = 0; i < 6; ++i) { auto m = dnmx_make_mixin_info(); m.name = dnmx_make_sv_len(big.data(), i * 2); m.id.i = 9; ms.push_back(m); }
    { auto m = dnmx_make_mixin_info(); m.name = dnmx_sv{nullptr, nullptr}; m.id.i = 3; ms.push_back(m); }
    for (auto& a : ms) for (auto& b : ms) pair(a, b);
    for (int n = thorough ? 200000 : 5000; n-- > 0;) {
        auto gen = [&](dnmx_mixin_info& m, std::string& s) {
            m = dnmx_make_mixin_info();
            m.order_priority = r.coin(70) ? int32_t(r.below(3)) - 1 : int32_t(r.next());
            s.clear();
            for (size_t k = r.below(5); k-- > 0;) s += r.coin(80) ? char('a' + r.below(2)) : char(r.next());
            m.name = dnmx_make_sv_len(s.data(), s.size());
            m.id.i = uint32_t(r.coin() ? r.below(3) : r.next());
        };
        dnmx_mixin_info two[2]; std::string s[2];
        gen(two[0], s[0]); gen(two[1], s[1]);
        pair(two[0], two[1]);
    }
}
