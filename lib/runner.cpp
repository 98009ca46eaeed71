// Executes the generated cases under randomised histories and watches them.
// Non-template: compiled once per check, linked with the generated translation units.
#include "case.hpp"
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <set>
#include <unordered_set>
#include "env.hpp"
#include "expect.hpp"

namespace vf {
std::vector<Case>& registry() { static std::vector<Case> r; return r; }
int& seed_changed() { static int n = 0; return n; }
const char*& accessor_problem() { static const char* p = nullptr; return p; }

enum Mon { VAL = 1, GRAD = 2, ROUTES = 4, REPLAY = 8, FRAME = 16, CACHE = 32, RESTORE = 64, REPEAT = 128, INTER = 256, HOLDV = 512, LIFE = 1024, GARBAGE = 2048 };
static const char* mon_name(int m) {
    switch (m) { case VAL: return "VALUE"; case GRAD: return "GRADIENT"; case ROUTES: return "ROUTES"; case REPLAY: return "REPLAY"; case FRAME: return "FRAME";
        case CACHE: return "CACHE"; case RESTORE: return "RESTORE"; case REPEAT: return "REPEAT"; case INTER: return "INTERLEAVE"; case HOLDV: return "PLACEHOLDER"; case LIFE: return "OUTLIVE"; case GARBAGE: return "GARBAGE"; }
    return "?";
}

static unsigned g_mask = ~0u, g_run = 0;        // what is reported; what is run besides
static long g_evals = 0, g_steps = 0, g_inconcl = 0, g_trials = 0, g_neginf = 0, g_fails = 0, g_cmp[12], g_branchy = 0;
static std::unordered_set<uint64_t> g_distinct;
static std::map<std::string, long> g_dims;
static std::string g_case; static int g_trial; static std::vector<std::string> g_failed, g_samples;
static std::map<std::string, int> g_failcount;

static void count(int mon) { int i = 0; while (!(mon >> i & 1)) ++i; ++g_cmp[i]; }
static void fail(int mon, const std::string& msg) {
    if (!(g_mask & mon)) return;
    ++g_fails;
    if (g_failcount[g_case + mon_name(mon)]++ >= 3) return;
    std::string l = "FAIL case=" + g_case + " monitor=" + mon_name(mon) + " trial=" + std::to_string(g_trial) + " " + msg;
    std::printf("%s\n", l.c_str()); std::fflush(stdout);
    g_failed.push_back(l);
}
static std::string fmt(double x) { char b[64]; std::snprintf(b, sizeof b, "%.17g", x); return b; }

static void check_val(int mon, const Env& e, const Expect& x, const Mat& got, const std::string& how) {
    if (accessor_problem()) { fail(mon, how + ": after the forward pass " + accessor_problem()); accessor_problem() = nullptr; return; }
    if (!x.conclusive || !x.vok) return;
    count(mon);
    if (got.r != e.dim(e.c.rd) || got.c != e.dim(e.c.cd)) { fail(mon, "shape of the value is " + std::to_string(got.r) + "x" + std::to_string(got.c) + " (" + how + ")"); return; }
    for (size_t k = 0; k < x.val.size(); ++k) if (differs(got.d[k], x.val[k], x.vtol[k])) {
        fail(mon, how + ": value[" + std::to_string(k) + "] is " + fmt(got.d[k]) + ", expected " + fmt(x.val[k]) + " +- " + fmt(x.vtol[k]) + " n=" + std::to_string(e.in.n) + " p=" + std::to_string(e.in.p) + " q=" + std::to_string(e.in.q)); return; }
}
static void check_grad(int mon, const Env& e, const Expect& x, const Env::Snap& before, const std::string& how, const Expect* second = nullptr) {
    if (!x.conclusive || (second && !second->conclusive)) return;
    count(mon);
    for (size_t i = 0; i < e.c.in.size(); ++i) {
        if (e.c.in[i].role != VAR && e.c.in[i].role != OPEQ) continue;
        for (size_t k = 0; k < e.size(i); ++k) {
            if (x.skip[i][k] || (second && second->skip[i][k])) continue;
            double w = before.a[i][k] + x.vjp[i][k] + (second ? second->vjp[i][k] : 0);
            double at = (64 + 8. * std::max(e.in.n, 16)) * EPS * std::fabs(before.a[i][k]);           // every contribution is rounded into what is there
            double t = x.gtol[i][k] + (second ? second->gtol[i][k] : 0) + at;
            if (x.vjp[i][k] == 0 && x.gtol[i][k] <= 1e-280 && !second) { t = std::min(t, at + 1e-280); }
            if (differs(e.in.s[i].adj[k], w, t)) {
                fail(mon, how + ": adjoint of input " + std::to_string(i) + "[" + std::to_string(k) + "] is " + fmt(e.in.s[i].adj[k]) + ", expected " + fmt(w) + " +- " + fmt(t) + " n=" + std::to_string(e.in.n) + " p=" + std::to_string(e.in.p) + " q=" + std::to_string(e.in.q)); return; }
        }
    }
}
static bool same(const double* a, const std::vector<double>& b) { return b.empty() || std::memcmp(a, b.data(), 8 * b.size()) == 0; }
// what must not have changed: phase 0 after forward, 1 after backward
static void check_frame(Env& e, const Env::Snap& before, int phase, const std::string& how) {
    count(FRAME);
    for (size_t i = 0; i < e.c.in.size(); ++i) {
        auto& s = e.in.s[i]; Role ro = e.c.in[i].role; std::string nm = "input " + std::to_string(i);
        if ((ro == VAR || ro == CONST || ro == IDLE) && !same(s.val, before.v[i])) fail(FRAME, how + ": the value of " + nm + " (only read) changed");
        if (ro == IDLE && !same(s.adj, before.a[i])) fail(FRAME, how + ": the adjoint of " + nm + " (not in the expression) changed");
        if (phase == 0 && (ro == VAR || ro == OPEQ || ro == HOLD) && !same(s.adj, before.a[i])) fail(FRAME, how + ": forward evaluation changed the adjoint of " + nm);
    }
    if (seed_changed()) { fail(FRAME, how + ": the seed was modified"); seed_changed() = 0; }
}
static void check_restored(Env& e, const Env::Snap& before) {
    for (size_t i = 0; i < e.c.in.size(); ++i) if (e.c.in[i].role == OPEQ) { count(RESTORE); if (!same(e.in.s[i].val, before.v[i])) fail(RESTORE, "input " + std::to_string(i) + " not restored by the backward pass: " + fmt(e.in.s[i].val[0]) + " instead of " + fmt(before.v[i][0])); }
}
static void check_hold(Env& e, const Expect& x, bool after_forward, const std::string& how) {
    if (!x.conclusive) return;
    for (size_t i = 0; i < e.c.in.size(); ++i) {
        Role ro = e.c.in[i].role; if (x.fin[i].empty() || !(ro == HOLD || (ro == OPEQ && after_forward))) continue;
        count(HOLDV);
        for (size_t k = 0; k < x.fin[i].size(); ++k) if (std::isfinite(x.fin[i][k]) && differs(e.in.s[i].val[k], x.fin[i][k], x.ftol[i][k])) {
            fail(HOLDV, how + ": input " + std::to_string(i) + "[" + std::to_string(k) + "] holds " + fmt(e.in.s[i].val[k]) + ", expected " + fmt(x.fin[i][k])); break; }
    }
}
static Mat draw_seed(const Env& e, ref::Rng& r) {
    Mat m(e.dim(e.c.rd), e.dim(e.c.cd));
    int k = r.below(6);
    for (double& x : m.d) x = k == 0 ? 1. : k == 1 ? (r.chance(.4) ? 0. : r.uni(-2, 2)) : k == 2 ? -r.uni(.1, 3) : r.uni(-3, 3);
    if (r.chance(.06)) for (double& x : m.d) x = 0;
    if (e.c.flags & F_NZSEED) for (double& x : m.d) if (x == 0) x = -.75;
    return m;
}

static bool is_opeq(const Case& c) { for (auto& i : c.in) if (i.role == OPEQ) return true; return false; }

static void run_trial(const Case& c, ref::Rng& r, int steps, bool verbose) {
    ++g_trials;
    Env e(c, r);
    bool scl = c.flags & F_SCL;
    auto ex = c.make(e.in);
    e.scramble_sources();
    size_t nv, na; ex->sizes(nv, na);
    int pat = r.below(5);
    auto bind = [&](Buf& bv, Buf& ba) {
        double *ov, *oa; ex->bind(bv.p, ba.p, ov, oa);
        count(CACHE);
        if (ov != bv.p + nv || oa != ba.p + na)
            fail(CACHE, "binding consumed " + std::to_string(ov - bv.p) + " values and " + std::to_string(oa - ba.p) + " adjoints of the announced " + std::to_string(nv) + " and " + std::to_string(na));
        size_t nv2, na2; ex->sizes(nv2, na2);
        if (nv2 != nv || na2 != na) fail(CACHE, "the announced cache size changed after binding");
    };
    if ((c.flags & F_FOLD) && (nv || na)) fail(CACHE, "an expression of constants needs cache");
    Buf bv(nv, r), ba(na, r); fill(bv, pat, r); fill(ba, pat, r);
    bind(bv, ba);
    Env::Snap first; Mat first_seed, first_val; Env::Snap first_after; bool have_first = false;
    for (int st = 0; st < steps; ++st) {
        ++g_steps;
        if (st && r.chance(.25) && (g_run & (CACHE | REPLAY))) {             // move to other storage
            Buf nbv(nv, r), nba(na, r); fill(nbv, r.below(5), r); fill(nba, r.below(5), r);
            if (!bv.intact() || !ba.intact()) fail(CACHE, "wrote outside the storage of the cache");
            bv = std::move(nbv); ba = std::move(nba); bind(bv, ba);
            { Buf d1 = std::move(nbv), d2 = std::move(nba); }                 // the old storage is gone
            have_first = false;
        }
        e.redraw(r, !r.chance(.15));
        Mat seed = draw_seed(e, r); bool deflt = scl && r.chance(.2);
        if (deflt) seed.d[0] = 1;
        uint64_t js = r.next();
        Expect x = expect(e, &seed, js);
        if (!x.conclusive) ++g_inconcl;
        if (x.neginf) ++g_neginf;
        if (x.branchy) ++g_branchy;
        if (x.conclusive) g_distinct.insert(e.digest());
        Env::Snap before = e.snap();
        bool show = r.chance(.02);                                              // drawn always: a trial run alone draws the same
        if (show && g_samples.size() < 3 && x.conclusive) {
            std::string s = std::string(c.name) + " n=" + std::to_string(e.in.n) + " p=" + std::to_string(e.in.p) + " q=" + std::to_string(e.in.q) + " first inputs:";
            for (size_t i = 0; i < c.in.size() && i < 3; ++i) s += " " + fmt(e.in.s[i].val[0]);
            s += " value[0]=" + fmt(x.val[0]); g_samples.push_back(s);
        }
        std::string how = "step " + std::to_string(st);
        Mat got;
        int route = r.below(3);
        if (route == 0) { got = ex->autodiff(deflt ? nullptr : &seed); how += " (autodiff)"; }
        else {
            if (route == 2 && !is_opeq(c)) { ex->feval(); ++g_evals; }        // an abandoned forward pass
            // until the backward pass the adjoints are nobody's business, whatever they hold
            bool mark = r.chance(.4);
            if (mark) for (size_t i = 0; i < c.in.size(); ++i) if (c.in[i].role == OPEQ || c.in[i].role == HOLD) for (size_t k = 0; k < e.size(i); ++k) before.a[i][k] = e.in.s[i].adj[k] = r.uni(-2, 2);
            got = ex->feval(); check_frame(e, before, 0, how); check_hold(e, x, true, how);
            if (mark) for (size_t i = 0; i < c.in.size(); ++i) if (c.in[i].role == OPEQ || c.in[i].role == HOLD) for (size_t k = 0; k < e.size(i); ++k) before.a[i][k] = e.in.s[i].adj[k] = 0;
            ex->beval(seed); how += route == 2 ? " (evaluate twice, evaluate_adj)" : " (evaluate, evaluate_adj)";
        }
        ++g_evals;
        if (verbose) std::printf("TRACE step %d conclusive=%d value %s expected %s\n", st, x.conclusive, fmt(got.d[0]).c_str(), x.conclusive ? fmt(x.val[0]).c_str() : "?");
        check_val(VAL, e, x, got, how);
        check_grad(GRAD, e, x, before, how);
        check_frame(e, before, 1, how); check_hold(e, x, false, how); check_restored(e, before);
        if (!bv.intact() || !ba.intact()) { fail(CACHE, how + ": wrote outside the storage of the cache"); return; }
        if (!e.intact()) { fail(CACHE, how + ": wrote outside the storage of a variable"); return; }
        if (!have_first) { first = before; first_seed = seed; first_val = got; first_after = e.snap(); have_first = true; }
        if (!(c.flags & F_ASSIGN) && (g_run & REPEAT) && r.chance(.3)) {     // a second backward pass after the same forward pass
            Mat s2 = draw_seed(e, r); Expect x2 = expect(e, &s2, js + 77);
            ex->beval(s2); ++g_evals;
            check_grad(REPEAT, e, x, before, how + ", second backward pass", &x2);
            check_frame(e, before, 1, how);
        }
    }
    auto eqm = [](const std::vector<double>& a, const std::vector<double>& b) { for (size_t i = 0; i < a.size(); ++i) if (std::memcmp(&a[i], &b[i], 8) && !(std::isnan(a[i]) && std::isnan(b[i])) && a[i] != b[i]) return false; return true; };
    if (have_first && (g_run & REPLAY)) {                                    // the first step again, on differently filled storage
        count(REPLAY);
        fill(bv, (pat + 1 + r.below(4)) % 5, r); fill(ba, r.below(5), r); bind(bv, ba);
        e.restore(first);
        Mat got = ex->feval(); ex->beval(first_seed); ++g_evals;
        if (!eqm(got.d, first_val.d)) fail(REPLAY, "the value changes with the history or the content of the cache: " + fmt(got.d[0]) + " and before " + fmt(first_val.d[0]));
        Env::Snap now = e.snap();
        for (size_t i = 0; i < c.in.size(); ++i) if (c.in[i].role == VAR || c.in[i].role == OPEQ)
            if (!eqm(now.a[i], first_after.a[i])) { fail(REPLAY, "the gradient of input " + std::to_string(i) + " changes with the history or the content of the cache: " + fmt(now.a[i][0]) + " and before " + fmt(first_after.a[i][0])); break; }
    }
    if (have_first && (g_run & GARBAGE)) {                                   // nothing but the content of the same storage differs (elsewhere, vectorised functions may round differently)
        count(GARBAGE); Mat got[2]; Env::Snap after[2];
        int p1 = r.below(5), p2 = (p1 + 1 + r.below(4)) % 5;
        for (int k = 0; k < 2; ++k) { fill(bv, k ? p2 : p1, r); fill(ba, k ? p1 : p2, r); bind(bv, ba); e.restore(first); got[k] = ex->feval(); ex->beval(first_seed); ++g_evals; after[k] = e.snap(); }
        if (!eqm(got[0].d, got[1].d)) fail(GARBAGE, "the value depends on what the storage of the cache held before: " + fmt(got[0].d[0]) + " and " + fmt(got[1].d[0]));
        for (size_t i = 0; i < c.in.size(); ++i) if (c.in[i].role == VAR || c.in[i].role == OPEQ)
            if (!eqm(after[0].a[i], after[1].a[i])) { fail(GARBAGE, "the gradient of input " + std::to_string(i) + " depends on what the storage of the cache held before"); break; }
    }
    if ((g_run & ROUTES) && !(c.flags & F_NOBOUND)) {
        ex->mkbound();
        int order[5] = {0, 1, 2, 3, 4}; for (int i = 3; i > 0; --i) std::swap(order[i], order[r.below(i + 1)]);      // the copy route comes last
        for (int h : order) {
            e.redraw(r, r.chance(.5));
            Mat seed = draw_seed(e, r); bool deflt = scl && h == 0 && r.chance(.3); if (deflt) seed.d[0] = 1;
            if (h == 3 && is_opeq(c)) continue;
            Expect x = expect(e, &seed, r.next());
            Env::Snap before = e.snap();
            static const char* nm[] = {"autodiff of a bound expression", "evaluate and evaluate_adj of a bound expression", "autodiff of a temporary bound expression", "evaluate of a temporary bound expression", "autodiff of a copy of a bound expression"};
            Mat got = ex->bound(h, deflt ? nullptr : &seed); ++g_evals;
            check_val(ROUTES, e, x, got, nm[h]);
            if (h != 3) { check_grad(ROUTES, e, x, before, nm[h]); check_restored(e, before); }
            check_frame(e, before, h == 3 ? 0 : 1, nm[h]); check_hold(e, x, false, nm[h]);
            if (!e.intact()) { fail(CACHE, "wrote outside the storage of a variable"); return; }
        }
    }
    if ((g_run & INTER)) {
        // another instance of the same expression over other variables, evaluated in between
        Env e2(c, r); auto ex2 = c.make(e2.in); e2.scramble_sources(); size_t nv2, na2; ex2->sizes(nv2, na2);
        Buf bv2(nv2, r), ba2(na2, r); fill(bv2, 0, r); fill(ba2, 0, r); double *ov, *oa; ex2->bind(bv2.p, ba2.p, ov, oa);
        // and a copy over the same variables (only if nothing is assigned)
        bool cl = !(c.flags & F_ASSIGN);
        std::unique_ptr<IExpr> ex3; Buf bv3, ba3;
        if (cl) { ex3 = ex->clone(); bv3 = Buf(nv, r); ba3 = Buf(na, r); fill(bv3, 0, r); fill(ba3, 0, r); ex3->bind(bv3.p, ba3.p, ov, oa); }
        for (int k = 0; k < 2; ++k) {
            e.redraw(r, true); e2.redraw(r, true);
            Mat s1 = draw_seed(e, r), s2 = draw_seed(e2, r), s3 = draw_seed(e, r);
            Expect x1 = expect(e, &s1, r.next()), x2 = expect(e2, &s2, r.next()), x3 = cl ? expect(e, &s3, r.next()) : Expect();
            Env::Snap b1 = e.snap(), b2 = e2.snap();
            Mat v1 = ex->feval(), v2 = ex2->feval(), v3; if (cl) v3 = ex3->feval();
            check_val(INTER, e, x1, v1, "interleaved 1"); check_val(INTER, e2, x2, v2, "interleaved 2"); if (cl) check_val(INTER, e, x3, v3, "interleaved copy");
            auto m1 = e2.snap();
            if (r.chance(.5)) { ex->beval(s1); 
                auto m2 = e2.snap(); if (m1.a != m2.a) { bool ch = false; for (size_t i = 0; i < c.in.size(); ++i) if (!same(e2.in.s[i].adj ? e2.in.s[i].adj : m1.a[i].data(), m1.a[i])) ch = true; if (ch) fail(INTER, "back-evaluating one expression changed the adjoints of another one's variables"); }
                ex2->beval(s2); if (cl) ex3->beval(s3); }
            else { if (cl) ex3->beval(s3); ex2->beval(s2); ex->beval(s1); }
            g_evals += 3;
            check_grad(INTER, e, x1, b1, "interleaved 1", cl ? &x3 : nullptr);
            check_grad(INTER, e2, x2, b2, "interleaved 2");
            check_frame(e, b1, 1, "interleaved"); check_frame(e2, b2, 1, "interleaved"); check_restored(e, b1); check_restored(e2, b2);
            if (!bv.intact() || !ba.intact() || !bv2.intact() || !ba2.intact() || !bv3.intact() || !ba3.intact() || !e.intact() || !e2.intact()) { fail(CACHE, "interleaved: wrote outside some storage"); return; }
        }
    }
    if (g_run & LIFE) {
        // a copy of the bound expression evaluated on the same storage after the original is gone, then moved to other storage
        auto c2 = ex->clone(); auto c3 = c2->clone(); ex.reset();
        for (int k = 0; k < 3; ++k) {
            IExpr& w = k == 1 ? *c3 : *c2;
            if (k == 2) { c3.reset(); Buf nbv(nv, r), nba(na, r); fill(nbv, 0, r); fill(nba, 0, r); bv = std::move(nbv); ba = std::move(nba); double *ov, *oa; w.bind(bv.p, ba.p, ov, oa); }
            e.redraw(r, true); Mat seed = draw_seed(e, r); Expect x = expect(e, &seed, r.next()); Env::Snap before = e.snap();
            Mat got = w.feval(); w.beval(seed); ++g_evals;
            static const char* nm[] = {"copy after its original died", "copy of the copy", "copy bound to other storage"};
            check_val(LIFE, e, x, got, nm[k]); check_grad(LIFE, e, x, before, nm[k]); check_frame(e, before, 1, nm[k]); check_restored(e, before);
            if (!bv.intact() || !ba.intact() || !e.intact()) { fail(CACHE, "a copy wrote outside its storage"); return; }
        }
    }
}
} // namespace vf

static std::string jstr(const std::string& s) { std::string o = "\""; for (char ch : s) { if (ch == '"' || ch == '\\') o += '\\'; if ((unsigned char)ch >= 32) o += ch; } return o + "\""; }

int main(int argc, char** argv) {
    using namespace vf;
    long trials = 20, steps = 4, seed = 1, only_trial = -1; std::string only, prog, out; size_t start = 0; bool verbose = false;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i], b = argv[i + 1];
        if (a == "--trials") trials = atol(b.c_str()); else if (a == "--steps") steps = atol(b.c_str()); else if (a == "--seed") seed = atol(b.c_str());
        else if (a == "--mask") g_mask = unsigned(strtoul(b.c_str(), nullptr, 0)); else if (a == "--run") g_run = unsigned(strtoul(b.c_str(), nullptr, 0)); else if (a == "--only") only = b; else if (a == "--trial") only_trial = atol(b.c_str());
        else if (a == "--start") start = size_t(atol(b.c_str())); else if (a == "--progress") prog = b; else if (a == "--out") out = b; else if (a == "--verbose") verbose = b == "1";
    }
    g_run |= g_mask;
    auto& reg = registry();
    FILE* pf = prog.empty() ? nullptr : std::fopen(prog.c_str(), "w");
    size_t ran = 0;
    for (size_t ci = start; ci < reg.size(); ++ci) {
        auto& c = reg[ci];
        if (!only.empty() && only != c.name) continue;
        g_case = c.name; ++ran;
        uint64_t h = 1469598103934665603ull; for (const char* q = c.name; *q; ++q) { h ^= (unsigned char)*q; h *= 1099511628211ull; }
        for (long t = 0; t < trials; ++t) {
            if (only_trial >= 0 && t != only_trial) continue;
            g_trial = int(t);
            if (pf) { std::rewind(pf); std::fprintf(pf, "%zu %s %ld                                                  \n", ci, c.name, t); std::fflush(pf); }
            ref::Rng r(uint64_t(seed) * 1000003ull + h + uint64_t(t) * 7919ull);
            run_trial(c, r, int(steps), verbose);
        }
    }
    if (!out.empty()) {
        FILE* f = std::fopen(out.c_str(), "w");
        std::fprintf(f, "{\"cases\": %zu, \"trials\": %ld, \"steps\": %ld, \"evaluations\": %ld, \"distinct\": %zu, \"inconclusive\": %ld, \"neg_inf\": %ld, \"branching\": %ld, \"fails\": %ld, \"comparisons\": {",
                     ran, g_trials, g_steps, g_evals, g_distinct.size(), g_inconcl, g_neginf, g_branchy, g_fails);
        for (int i = 0; i < 12; ++i) std::fprintf(f, "%s\"%s\": %ld", i ? ", " : "", mon_name(1 << i), g_cmp[i]);
        std::fprintf(f, "}, \"failed\": [");
        for (size_t i = 0; i < g_failed.size(); ++i) std::fprintf(f, "%s%s", i ? ", " : "", jstr(g_failed[i]).c_str());
        std::fprintf(f, "], \"samples\": [");
        for (size_t i = 0; i < g_samples.size(); ++i) std::fprintf(f, "%s%s", i ? ", " : "", jstr(g_samples[i]).c_str());
        std::fprintf(f, "]}\n"); std::fclose(f);
    }
    std::printf("DONE cases=%zu evaluations=%ld fails=%ld\n", ran, g_evals, g_fails);
    return 0;
}
