// bounded executable contracts: the real code is run on enumerated and seeded random cases
// and its results are compared with an independent reference. Labelled bounded; never a proof.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_set>
#include <functional>
#include <sstream>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__) || (defined(__has_feature) && __has_feature(address_sanitizer))
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#define H_SAN 1
#endif

namespace h {
struct rng {
    uint64_t s;
    explicit rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    bool coin(int pct = 50) { return int(below(100)) < pct; }
    template <typename C> auto& pick(C& c) { return c[below(c.size())]; }
};

inline std::string the_case;
inline std::string fixed_case;
inline uint64_t evaluations = 0;
inline std::unordered_set<uint64_t> distinct;
inline std::vector<std::string> samples;
inline bool reported = false;

inline void show_case() {
    if (reported) return;
    reported = true;
    fprintf(stdout, "\nCASE: %s\n", the_case.c_str());
    fflush(stdout);
}

[[noreturn]] inline void fail(const char* expr, const char* file, int line, const std::string& msg) {
    fprintf(stdout, "\nFAIL: %s\n  expected: %s (%s:%d)\n", msg.c_str(), expr, file, line);
    show_case();
    fflush(stdout);
    _exit(1);
}

// announce a case (its text is the replay description)
inline bool case_nontrivial = false;
inline void close_case() {
    if (case_nontrivial) {
        uint64_t x = 1469598103934665603ull;
        for (unsigned char c : the_case) x = (x ^ c) * 1099511628211ull;
        if (distinct.insert(x).second && samples.size() < 3 && distinct.size() % 37 == 1) samples.push_back(the_case);
    }
    case_nontrivial = false;
}
inline void begin(std::string desc, bool nontrivial = true) {
    close_case();
    the_case = std::move(desc);
    ++evaluations;
    case_nontrivial = nontrivial;
}
// more text on the case under way
inline void step(const std::string& d) { the_case += "; " + d; }

inline std::string esc(const std::string& s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += char(c);
    }
    return r;
}
template <typename... A> std::string cat(A&&... a) { std::ostringstream o; ((o << a), ...); return o.str(); }
}

#define CHECK(c, ...) do { if (!(c)) ::h::fail(#c, __FILE__, __LINE__, ::h::cat(__VA_ARGS__)); } while (0)

void run(h::rng& r, bool thorough);

#ifndef H_NO_MAIN
int main(int argc, char** argv) {
    uint64_t seed = argc > 1 ? strtoull(argv[1], nullptr, 10) : 1;
    bool thorough = argc > 2 && !strcmp(argv[2], "thorough");
#ifdef H_SAN
    __sanitizer_set_death_callback(h::show_case);
#endif
    std::set_terminate([] { printf("\nFAIL: std::terminate\n"); h::show_case(); fflush(stdout); _exit(1); });
    h::rng r(seed);
    try { run(r, thorough); }
    catch (std::exception& e) { h::fail("no exception", "", 0, h::cat("unexpected exception: ", e.what())); }
    h::close_case();
    printf("\nSTATS {\"evaluations\": %llu, \"distinct\": %llu, \"samples\": [", (unsigned long long)h::evaluations, (unsigned long long)h::distinct.size());
    for (size_t i = 0; i < h::samples.size(); ++i) printf("%s\"%s\"", i ? ", " : "", h::esc(h::samples[i]).c_str());
    printf("]}\n");
    fflush(stdout);
    return 0;
}
#endif
