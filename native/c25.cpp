#include "h.hpp"
#include <dynamix/v1compat/combinators.hpp>
#include <cmath>
#include <numeric>
using namespace dynamix::v1compat::combinators;

template <typename V> std::string show(const V& v) { std::string s = "["; for (auto x : v) s += h::cat(s.size() > 1 ? "," : "", x); return s + "]"; }

// feeds like the message caller does
template <typename C, typename V>
static size_t feed(C& c, const V& v) {
    c.set_num_results(v.size());
    size_t i = 0;
    for (; i < v.size(); ++i) if (!c.add_result(v[i])) { ++i; break; }
    return i;
}
template <typename T, typename V>
static void logic(const V& v, const char* n) {
    h::begin(h::cat("boolean_and/or<", n, "> of ", show(v)));
    size_t ff = v.size(), ft = v.size();
    for (size_t i = v.size(); i-- > 0;) { if (!v[i]) ff = i; if (v[i]) ft = i; }
    bool all = ff == v.size(), some = ft != v.size();
    boolean_and<T> a; boolean_or<T> o;
    CHECK(a.result() == true && o.result() == false, "initial values");
    for (int round = 0; round < 3; ++round) {
        CHECK(feed(a, v) == (all ? v.size() : ff + 1), "boolean_and stops at the first false");
        CHECK(a.result() == all && a.result() == all, "boolean_and result");
        CHECK(feed(o, v) == (some ? ft + 1 : v.size()), "boolean_or stops at the first true");
        CHECK(o.result() == some, "boolean_or result");
        // a decided combinator stays decided
        if (!all) { CHECK(!a.add_result(T(1)) && !a.result(), "boolean_and after a false"); }
        if (some) { CHECK(!o.add_result(T(0)) && o.result(), "boolean_or after a true"); }
        a.reset(); o.reset();
        CHECK(a.result() == true && o.result() == false, "values after reset");
    }
}
template <typename T, typename V>
static void arith(const V& v, const char* n) {
    h::begin(h::cat("sum/mean<", n, "> of ", show(v)));
    T want = 0;
    for (auto x : v) want += x;
    sum<T> s; mean<T> m;
    CHECK(s.result() == T(0), "initial sum");
    for (int round = 0; round < 3; ++round) {
        CHECK(feed(s, v) == v.size() && s.result() == want, "sum ", s.result(), " instead of ", want);
        CHECK(feed(m, v) == v.size(), "mean takes all");
        if (!v.empty()) CHECK(m.result() == want / T(v.size()) && m.result() == want / T(v.size()), "mean ", m.result(), " instead of ", want / T(v.size()));
        s.reset(); m.reset();
        CHECK(s.result() == T(0), "sum after reset");
    }
    // announced results count, not the calls made
    if (v.size() > 1) {
        mean<T> k; k.set_num_results(v.size() * 2);
        for (auto x : v) k.add_result(x);
        CHECK(k.result() == want / T(v.size() * 2), "mean divides by the announced number");
    }
}
void run(h::rng& r, bool thorough) {
    std::vector<int> v;
    for (size_t len = 0; len <= (thorough ? 11 : 8); ++len)
        for (unsigned m = 0; m < (1u << len); ++m) {
            v.clear();
            for (size_t i = 0; i < len; ++i) v.push_back(m >> i & 1);
            std::vector<char> b(v.begin(), v.end());
            logic<bool>(b, "bool");
            std::vector<int> w = v; for (auto& x : w) x = x ? int(1u << r.below(31)) : 0;
            logic<int>(w, "int");
            std::vector<void*> p; for (auto x : v) p.push_back(x ? (void*)&v : nullptr);
            h::begin(h::cat("pointers ", m, "/", len));
            boolean_and<void*> a; boolean_or<void*> o;
            feed(a, p); feed(o, p);
            CHECK(a.result() == (m == (1u << len) - 1) && o.result() == (m != 0), "pointers");
        }
    for (int n = thorough ? 40000 : 3000; n-- > 0;) {
        std::vector<int> x; std::vector<int64_t> y; std::vector<double> d; std::vector<unsigned> u; std::vector<uint8_t> c;
        for (size_t k = r.below(9); k-- > 0;) {
            x.push_back(r.coin() ? int(r.below(7)) - 3 : int(r.below(400000000)) - 200000000);
            y.push_back(int64_t(r.next() >> 6) - (int64_t(1) << 56));
            d.push_back(r.coin() ? double(x.back()) : double(int64_t(r.next())) / 3e5);
            u.push_back(unsigned(r.below(400000000)));
            c.push_back(uint8_t(r.next()));
        }
        arith<int>(x, "int"); arith<int64_t>(y, "int64"); arith<double>(d, "double"); arith<unsigned>(u, "unsigned");
        h::begin(h::cat("sum<uint8>", n), false);
        sum<uint8_t> s; feed(s, c);
        CHECK(s.result() == uint8_t(std::accumulate(c.begin(), c.end(), 0)), "uint8 sum");
    }
}
