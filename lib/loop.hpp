// Command line, case loop, failure lines and summary of the secondary runners (threads, heap, probes).
#pragma once
#include "env.hpp"
#include <chrono>
#include <cstdarg>
#include <map>
#include <unordered_set>
namespace vf {
std::vector<Case>& registry() { static std::vector<Case> r; return r; }
int& seed_changed() { static int n = 0; return n; }
const char*& accessor_problem() { static const char* p = nullptr; return p; }
static std::string g_case; static int g_trial; static long g_evals = 0, g_trials = 0, g_fails = 0; static std::map<std::string, long> g_seen, g_cmp; static std::unordered_set<uint64_t> g_distinct;
static std::vector<std::string> g_samples; static std::map<std::string, int> g_shown;
__attribute__((format(printf, 2, 3))) static void fail(const char* mon, const char* f, ...) {
    ++g_fails; if (g_shown[g_case + mon]++ >= 2) return;
    char b[700]; va_list ap; va_start(ap, f); std::vsnprintf(b, sizeof b, f, ap); va_end(ap);
    std::printf("FAIL case=%s monitor=%s trial=%d %s\n", g_case.c_str(), mon, g_trial, b); std::fflush(stdout);
}
static std::string jstr(const std::string& s) { std::string o = "\""; for (char ch : s) { if (ch == '"' || ch == '\\') o += '\\'; if ((unsigned char)ch >= 32) o += ch; } return o + "\""; }
static Mat draw_seed(const Env& e, ref::Rng& r) { Mat m(e.dim(e.c.rd), e.dim(e.c.cd)); for (double& x : m.d) x = r.chance(.1) && !(e.c.flags & F_NZSEED) ? 0. : r.uni(-2, 2); return m; }
template <class F> static int loop(int argc, char** argv, F trial) {
    long trials = 5, steps = 4, seed = 1, only_trial = -1; std::string only, prog, out; size_t start = 0;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i], b = argv[i + 1];
        if (a == "--trials") trials = atol(b.c_str()); else if (a == "--steps") steps = atol(b.c_str()); else if (a == "--seed") seed = atol(b.c_str()); else if (a == "--only") only = b;
        else if (a == "--trial") only_trial = atol(b.c_str()); else if (a == "--start") start = size_t(atol(b.c_str())); else if (a == "--progress") prog = b; else if (a == "--out") out = b;
    }
    auto& reg = registry(); FILE* pf = prog.empty() ? nullptr : std::fopen(prog.c_str(), "w"); size_t ran = 0;
    for (size_t ci = start; ci < reg.size(); ++ci) {
        auto& c = reg[ci]; if (!only.empty() && only != c.name) continue;
        ++ran; g_case = c.name; uint64_t h = 1469598103934665603ull; for (const char* p = c.name; *p; ++p) { h ^= (unsigned char)*p; h *= 1099511628211ull; }
        for (long t = 0; t < trials; ++t) {
            if (only_trial >= 0 && t != only_trial) continue;
            g_trial = int(t); ++g_trials;
            if (pf) { std::rewind(pf); std::fprintf(pf, "%zu %s %ld                                                  \n", ci, c.name, t); std::fflush(pf); }
            ref::Rng r(uint64_t(seed) * 1000003ull + h + uint64_t(t) * 7919ull);
            trial(c, r, int(steps), t);
        }
    }
    if (pf) std::fclose(pf);
    if (!out.empty()) if (FILE* f = std::fopen(out.c_str(), "w")) {
        std::fprintf(f, "{\"cases\": %zu, \"trials\": %ld, \"evaluations\": %ld, \"distinct\": %zu", ran, g_trials, g_evals, g_distinct.size());
        for (auto& k : g_seen) std::fprintf(f, ", %s: %ld", jstr(k.first).c_str(), k.second);
        std::fprintf(f, ", \"comparisons\": {"); const char* sep = "";
        for (auto& k : g_cmp) { std::fprintf(f, "%s%s: %ld", sep, jstr(k.first).c_str(), k.second); sep = ", "; }
        std::fprintf(f, "}, \"samples\": ["); sep = "";
        for (auto& k : g_samples) { std::fprintf(f, "%s%s", sep, jstr(k).c_str()); sep = ", "; }
        std::fprintf(f, "]}\n"); std::fclose(f);
    }
    std::printf("DONE cases=%zu evaluations=%ld fails=%ld\n", ran, g_evals, g_fails);
    return 0;
}
} // namespace vf
