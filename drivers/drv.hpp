// Common frame of the hand-written drivers: named scenarios run on random choices, FAIL lines, a JSON summary.
#pragma once
#ifdef DRV_HEAP
#include "heapcount.hpp"
#endif
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

namespace drv {
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9e3779b97f4a7c15ull + 0x1234567) { for (int i = 0; i < 4; ++i) next(); }
    uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545f4914f6cdd1dull; }
    int below(int n) { return int((next() >> 33) % uint64_t(n)); }
    double u() { return double(next() >> 11) * 0x1p-53; }
    double uni(double a, double b) { return a + (b - a) * u(); }
    bool chance(double p) { return u() < p; }
};
struct Scn { std::string name; std::function<void(Rng&)> f; double weight; };
struct State {
    std::vector<Scn> scn; std::string cur; int trial = 0; long evals = 0, fails = 0; std::map<std::string, long> cmp, seen; std::unordered_set<uint64_t> distinct;
    std::map<std::string, int> shown; std::vector<std::string> samples, failed; bool verbose = false; uint64_t digest = 0;
};
inline State& st() { static State s; return s; }
struct Add { Add(const char* n, std::function<void(Rng&)> f, double w = 1) { st().scn.push_back({n, f, w}); } };
#define SCENARIO(name, ...) static void name(drv::Rng& r); static drv::Add add_##name(#name, name, ##__VA_ARGS__); static void name(drv::Rng& r)

inline void saw(const std::string& what, long n = 1) { st().seen[what] += n; }
inline void mix(uint64_t x) { st().digest = (st().digest ^ x) * 1099511628211ull; }
inline void mix(double x) { uint64_t u; std::memcpy(&u, &x, 8); mix(u); }
inline void eval(long n = 1) { st().evals += n; }
__attribute__((format(printf, 2, 3))) inline void fail(const char* mon, const char* f, ...) {
    auto& s = st(); ++s.fails; if (s.shown[s.cur + mon]++ >= 3) return;
    char b[800]; va_list ap; va_start(ap, f); std::vsnprintf(b, sizeof b, f, ap); va_end(ap);
    std::printf("FAIL case=%s monitor=%s trial=%d %s\n", s.cur.c_str(), mon, s.trial, b); std::fflush(stdout);
}
inline bool count(const char* mon) { ++st().cmp[mon]; return true; }
// the comparison of a monitor: counted, reported when it does not hold
#define EXPECT(mon, cond, ...) do { drv::count(mon); if (!(cond)) drv::fail(mon, __VA_ARGS__); } while (0)
inline bool close(double a, double b, double scale = 1) { if (a == b) return true; return std::fabs(a - b) <= 1e-10 * (std::fabs(b) + scale); }
inline void sample(const std::string& s) {
#ifdef DRV_HEAP
    return;
#endif
    if (st().samples.size() < 4) st().samples.push_back(s); }
inline std::string esc(const std::string& s) { std::string o = "\""; for (char c : s) { if (c == '"' || c == '\\') o += '\\'; if (c >= 32) o += c; } return o + "\""; }

inline int run(int argc, char** argv) {
    auto& s = st(); long trials = 10; uint64_t seed = 1; std::string out, progress, only; std::set<std::string> skip; int one = -1;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--trials") trials = std::stol(v); else if (a == "--seed") seed = std::stoull(v); else if (a == "--out") out = v; else if (a == "--progress") progress = v;
        else if (a == "--only") only = v; else if (a == "--trial") { one = std::stoi(v); s.verbose = true; }
        else if (a == "--skip") { std::string t; for (char c : v + ",") if (c == ',') { skip.insert(t); t.clear(); } else t += c; }
    }
    long ran = 0;
    for (auto& c : s.scn) {
        if ((!only.empty() && c.name != only) || skip.count(c.name)) continue;
        ++ran; s.cur = c.name; int n = int(std::max(1., trials * c.weight));
        uint64_t h = 1469598103934665603ull; for (char ch : c.name) h = (h ^ uint64_t(ch)) * 1099511628211ull;
        FILE* p = progress.empty() ? nullptr : std::fopen(progress.c_str(), "w");
        for (int t = one >= 0 ? one : 0; t < (one >= 0 ? one + 1 : n); ++t) {
            s.trial = t;
            if (p) { std::rewind(p); std::fprintf(p, "%s %d\n                ", c.name.c_str(), t); std::fflush(p); }
            Rng r(h ^ (seed * 1000003ull + uint64_t(t) * 7919ull)); s.digest = h;
#ifdef DRV_HEAP
            {   // the same once more, when the driver's own tables are filled
                Rng again = r; c.f(r); heap::Mark m; c.f(again); bool same = m.same(); long by = heap::bytes - m.by, bl = heap::blocks - m.bl; ++s.cmp["LEFT"];
                if (!same && s.fails == 0) fail("LEFT", "%ld bytes in %ld blocks are left after the scenario", by, bl);
            }
#else
            c.f(r);
#endif
            s.distinct.insert(s.digest);
        }
        if (p) std::fclose(p);
    }
    if (!out.empty()) if (FILE* f = std::fopen(out.c_str(), "w")) {
        std::fprintf(f, "{\"evaluations\": %ld, \"distinct\": %zu, \"scenarios\": %ld", s.evals, s.distinct.size(), ran);
        for (auto& k : s.seen) std::fprintf(f, ", %s: %ld", esc(k.first).c_str(), k.second);
        std::fprintf(f, ", \"comparisons\": {"); const char* sep = "";
        for (auto& k : s.cmp) { std::fprintf(f, "%s%s: %ld", sep, esc(k.first).c_str(), k.second); sep = ", "; }
        std::fprintf(f, "}, \"samples\": ["); sep = "";
        for (auto& k : s.samples) { std::fprintf(f, "%s%s", sep, esc(k).c_str()); sep = ", "; }
        std::fprintf(f, "]}\n"); std::fclose(f);
    }
    std::printf("DONE scenarios=%ld evaluations=%ld fails=%ld\n", ran, s.evals, s.fails);
    return 0;
}
} // namespace drv
