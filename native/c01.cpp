#include "h.hpp"
#include <dnmx/bits/sv.h>
#include <algorithm>
#include <string_view>
#include <memory>

static int ref_cmp(const std::string& a, const std::string& b) {
    for (size_t i = 0; i < a.size() && i < b.size(); ++i) {
        unsigned char x = a[i], y = b[i];
        if (x != y) return x < y ? -1 : 1;
    }
    return a.size() < b.size() ? -1 : a.size() > b.size() ? 1 : 0;
}
static int sgn(int x) { return (x > 0) - (x < 0); }

static void pair(dnmx_sv a, dnmx_sv b) {
    std::string sa(a.begin, a.end), sb(b.begin, b.end);
    int c = ref_cmp(sa, sb);
    CHECK(sgn(dnmx_sv_cmp(a, b)) == c, "dnmx_sv_cmp order");
    CHECK(sgn(dnmx_sv_cmp(b, a)) == -c, "dnmx_sv_cmp swapped");
    CHECK(dnmx_sv_eq(a, b) == (c == 0), "dnmx_sv_eq");
    CHECK((a == b) == (c == 0), "==");
    CHECK((a != b) == (c != 0), "!=");
    CHECK((a < b) == (c < 0), "<");
    std::string_view vb = b.to_std();
    CHECK(vb.data() == b.begin && vb.size() == size_t(b.end - b.begin), "to_std");
    CHECK((a == vb) == (c == 0) && (a != vb) == (c != 0) && (vb == a) == (c == 0), "mixed comparison");
    dnmx_sv r = dnmx_sv::from_std(vb);
    CHECK(r.begin == b.begin && r.end == b.end, "from_std");
}
static void single(dnmx_sv a, int alphabet) {
    std::string s(a.begin, a.end);
    CHECK(dnmx_sv_len(a) == s.size(), "length");
    CHECK(dnmx_sv_is_empty(a) == s.empty() && a.empty() == s.empty(), "empty");
    CHECK(dnmx_sv_is_null(a) == (a.begin == nullptr), "null");
    for (int q = -1; q <= alphabet; ++q) {
        char ch = q < 0 ? char(200) : q == alphabet ? char(127) : char('a' + q);
        auto f = dnmx_sv_find_first(a, ch), l = dnmx_sv_find_last(a, ch);
        auto rf = s.find(ch), rl = s.rfind(ch);
        CHECK(f == (rf == s.npos ? nullptr : a.begin + rf), "find_first");
        CHECK(l == (rl == s.npos ? nullptr : a.begin + rl), "find_last");
    }
    // prefixes and near-prefixes; the C string and the view are in exactly sized buffers
    for (size_t n = 0; n <= s.size() + 1; ++n) {
        std::string p = s.substr(0, std::min(n, s.size()));
        if (n > s.size()) p += 'a';
        if (p.find('\0') != p.npos) continue;
        std::unique_ptr<char[]> c(new char[p.size() + 1]);
        memcpy(c.get(), p.c_str(), p.size() + 1);
        CHECK(dnmx_sv_starts_with(a, c.get()) == (n <= s.size()), "starts_with a prefix");
        if (p.empty()) continue;
        c[p.size() - 1] ^= 1;
        if (!c[p.size() - 1]) continue;
        CHECK(dnmx_sv_starts_with(a, c.get()) == (s.compare(0, p.size(), c.get()) == 0 && p.size() <= s.size()), "starts_with a non-prefix");
    }
    dnmx_sv be = dnmx_make_sv_be(a.begin, a.end), ln = dnmx_make_sv_len(a.begin, a.end - a.begin);
    CHECK(be.begin == a.begin && be.end == a.end && ln.begin == a.begin && ln.end == a.end, "make_sv");
    if (s.find('\0') == s.npos) {
        std::unique_ptr<char[]> c(new char[s.size() + 1]);
        memcpy(c.get(), s.c_str(), s.size() + 1);
        dnmx_sv m = dnmx_make_sv_str(c.get());
        CHECK(m.begin == c.get() && m.end == c.get() + s.size(), "make_sv_str");
    }
}
struct buf {   // exactly sized heap copy: reads outside are reported
    std::unique_ptr<char[]> p; size_t n;
    buf(const std::string& s) : p(new char[s.size() ? s.size() : 1]), n(s.size()) { memcpy(p.get(), s.data(), n); if (!n) { p.reset(new char[0]); } }
    dnmx_sv sv() const { return {p.get(), p.get() + n}; }
};
void run(h::rng& r, bool thorough) {
    h::begin("null views");
    pair({nullptr, nullptr}, {nullptr, nullptr});
    { dnmx_sv n{nullptr, nullptr}; CHECK(dnmx_sv_is_null(n) && dnmx_sv_is_empty(n) && dnmx_sv_len(n) == 0, "null view"); auto m = dnmx_make_sv_str(nullptr); CHECK(!m.begin && !m.end, "make_sv_str(null)"); CHECK(!dnmx_sv_find_first(n, 'a') && !dnmx_sv_find_last(n, 'a') && dnmx_sv_starts_with(n, "") && !dnmx_sv_starts_with(n, "a"), "search in null"); }
    { dnmx_sv l = dnmx_make_sv_lit("abc"); CHECK(l.end - l.begin == 3 && !memcmp(l.begin, "abc", 3), "make_sv_lit"); }
    // all strings over {a,b,c} up to length 4 (5), pairwise, in separate buffers
    std::vector<std::string> all{""};
    size_t lo = 0;
    for (int len = 1; len <= (thorough ? 5 : 4); ++len) {
        size_t hi = all.size();
        for (size_t i = lo; i < hi; ++i) for (char c : {'a', 'b', 'c'}) all.push_back(all[i] + c);
        lo = hi;
    }
    std::vector<buf> bufs;
    for (auto& s : all) bufs.emplace_back(s);
    for (auto& a : bufs) {
        h::begin("single " + std::string(a.sv().begin, a.sv().end));
        single(a.sv(), 3);
        pair(a.sv(), {nullptr, nullptr});
        for (auto& b : bufs) {
            h::begin("pair '" + std::string(a.sv().begin, a.sv().end) + "' '" + std::string(b.sv().begin, b.sv().end) + "'");
            pair(a.sv(), b.sv());
        }
    }
    // all pairs of sub-views of one buffer (overlaps, shared begin)
    for (std::string s : {"aabab", "aaaa", "ab\xff\x80z"}) {
        buf b(s);
        for (size_t i = 0; i <= s.size(); ++i) for (size_t j = i; j <= s.size(); ++j) for (size_t k = 0; k <= s.size(); ++k) for (size_t l = k; l <= s.size(); ++l) {
            h::begin(h::cat("overlap '", s, "' [", i, ",", j, ") [", k, ",", l, ")"));
            pair({b.p.get() + i, b.p.get() + j}, {b.p.get() + k, b.p.get() + l});
        }
    }
    // random bytes incl. nul and high bytes, long equal prefixes
    for (int n = 0; n < (thorough ? 60000 : 6000); ++n) {
        std::string a, b;
        size_t la = r.below(n % 50 == 0 ? 400 : 20);
        for (size_t i = 0; i < la; ++i) a += char(r.coin() ? r.below(256) : 'a' + r.below(3));
        b = a;
        if (r.coin()) b.resize(r.below(b.size() + 4), char(r.below(256)));
        if (r.coin() && b.size()) b[r.below(b.size())] = char(r.below(256));
        h::begin(h::cat("random ", h::esc(a), " / ", h::esc(b)));
        buf x(a), y(b);
        pair(x.sv(), y.sv());
        single(x.sv(), 3);
    }
}
