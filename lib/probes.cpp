// Programs whose subexpressions are user-defined probes: every pass leaves a trace of visits, which is compared with what the
// reference visits, in which statement, with which value and which seed.
#include "expect.hpp"
#include "loop.hpp"
#include "probe.hpp"
namespace vf {
Trace& trace() { static Trace t; return t; }
using Seq = std::vector<Visit>;
static Seq take() { Seq s; s.swap(trace().v); return s; }
static std::string ids(const Seq& s, char what) { std::string o; int n = 0; for (auto& v : s) if (v.what == what) { o += (o.empty() ? "" : " ") + std::to_string(v.id); if (++n > 24) { o += " ..."; break; } } return o; }
static const Expect::Probe* find(const Expect& x, int id, int& n) { const Expect::Probe* f = nullptr; n = 0; for (auto& p : x.probes) if (p.id == id) { if (!f) f = &p; ++n; } return f; }
static void complaints(const Seq& s, const char* how) { for (auto& v : s) if (v.what == '!') { fail("KEPT", v.r ? "%s: at the backward visit of %d its own value, its argument's or its temporaries are not what the forward pass left" : "%s: get() of the argument of %d is not what its feval() returned", how, v.id); return; } }
static void check_forward(const Expect& x, const Seq& s, const char* how, bool backward_too) {
    ++g_cmp["FORWARD"]; std::map<int, int> seen; int last = -1, lastid = 0; bool done = false; complaints(s, how);
    for (auto& v : s) {
        if (v.what == '!') continue;
        if (v.what == 'b') { if (!backward_too && !done) { fail("FORWARD", "%s: a forward pass visited %d backward", how, v.id); return; } done = true; continue; }
        ++g_seen["forward visits"];
        if (done) { fail("BACKWARD", "%s: %d was evaluated forward during the backward pass", how, v.id); return; }
        ++seen[v.id]; int n; auto p = find(x, v.id, n);
        if (!p) { fail("FORWARD", "%s: %d was evaluated, which is not part of what this run should evaluate (visited: %s)", how, v.id, ids(s, 'f').c_str()); return; }
        if (seen[v.id] > n) { fail("FORWARD", "%s: %d was evaluated more than once (visited: %s)", how, v.id, ids(s, 'f').c_str()); return; }
        if (n > 1) continue;                                               // written once, part of several subexpressions
        if (p->stmt < last) { fail("ORDER", "%s: %d of statement %d was evaluated after %d of statement %d (visited: %s)", how, v.id, p->stmt, lastid, last, ids(s, 'f').c_str()); return; }
        last = p->stmt; lastid = v.id;
        if (v.r != p->r || v.c != p->c) { fail("SHAPE", "%s: %d is %dx%d instead of %dx%d", how, v.id, v.r, v.c, p->r, p->c); return; }
        if (p->vok) for (size_t k = 0; k < p->v.size(); ++k) if (differs(v.x[k], p->v[k], p->vt[k])) { fail("VALUE", "%s: value[%zu] of %d is %.17g, expected %.17g", how, k, v.id, v.x[k], p->v[k]); return; }
    }
    for (auto& p : x.probes) { int n; find(x, p.id, n); if (seen[p.id] != n) { fail("FORWARD", "%s: %d was evaluated %d times instead of %d (visited: %s)", how, p.id, seen[p.id], n, ids(s, 'f').c_str()); return; } }
}
static void check_backward(const Expect& x, const Seq& s, const char* how, bool forward_too) {
    ++g_cmp["BACKWARD"]; std::map<int, int> seen; int last = 1 << 30, lastid = 0; bool open = false;
    for (auto& q : x.skip) for (char k : q) open = open || k;             // a seed the property leaves open
    if (!forward_too) complaints(s, how);
    for (auto& v : s) {
        if (v.what == '!') continue;
        if (v.what == 'f') { if (!forward_too) { fail("BACKWARD", "%s: %d was evaluated forward during the backward pass", how, v.id); return; } continue; }
        ++g_seen["backward visits"]; ++seen[v.id]; int n; auto p = find(x, v.id, n);
        if (!p) { fail("BACKWARD", "%s: %d was visited, which was not evaluated", how, v.id); return; }
        if (seen[v.id] > n) { fail("BACKWARD", "%s: %d was visited more than once (visited: %s)", how, v.id, ids(s, 'b').c_str()); return; }
        if (n > 1) { ++g_seen["visits of repeated subexpressions"]; continue; }
        if (p->stmt > last) { fail("ORDER", "%s: %d of statement %d was visited backward after %d of statement %d (visited: %s)", how, v.id, p->stmt, lastid, last, ids(s, 'b').c_str()); return; }
        last = p->stmt; lastid = v.id;
        if (!v.scalar && !v.fits) { fail("SEED", "%s: the seed of %d (%dx%d) is %dx%d", how, v.id, p->r, p->c, v.r, v.c); return; }
        if (p->aok && !open) for (size_t k = 0; k < p->a.size(); ++k) if (differs(v.x[k], p->a[k], p->at[k])) { fail("SEED", "%s: seed[%zu] of %d is %.17g, expected %.17g +- %.3g (n=%zu)", how, k, v.id, v.x[k], p->a[k], p->at[k], p->a.size()); return; }
        if (p->aok) ++g_cmp["SEED"];
    }
    if (open) return;
    for (auto& p : x.probes) { int n; find(x, p.id, n); if (n == 1 && !seen[p.id] && p.aok) for (size_t k = 0; k < p.a.size(); ++k) if (differs(0., p.a[k], p.at[k])) { fail("BACKWARD", "%s: %d was never visited although its adjoint is %.17g", how, p.id, p.a[k]); return; } }
}
static void check_result(const Env& e, const Expect& x, const Mat& got, const Env::Snap& before, const char* how, bool grad) {
    ++g_cmp["RESULT"];
    if (x.vok) for (size_t k = 0; k < x.val.size(); ++k) if (k >= got.d.size() || differs(got.d[k], x.val[k], x.vtol[k])) { fail("RESULT", "%s: value[%zu] is %.17g, expected %.17g", how, k, k < got.d.size() ? got.d[k] : NAN, x.val[k]); return; }
    if (grad) for (size_t i = 0; i < e.c.in.size(); ++i) {
        if (e.c.in[i].role != VAR && e.c.in[i].role != OPEQ) continue;
        for (size_t k = 0; k < e.size(i); ++k) {
            if (x.skip[i][k]) continue;
            double w = before.a[i][k] + x.vjp[i][k], t = x.gtol[i][k] + (64 + 8. * std::max(e.in.n, 16)) * EPS * std::fabs(before.a[i][k]);
            if (differs(e.in.s[i].adj[k], w, t)) { fail("RESULT", "%s: adjoint of input %zu[%zu] is %.17g, expected %.17g", how, i, k, e.in.s[i].adj[k], w); return; }
        }
    }
}
static void trial(const Case& c, ref::Rng& r, int steps, long) {
    Env e(c, r); bool opeq = false; for (auto& i : c.in) opeq |= i.role == OPEQ;
    trace().on = true; take();
    auto ex = c.make(e.in); e.scramble_sources(); size_t nv, na; ex->sizes(nv, na);
    Buf bv(nv, r), ba(na, r); fill(bv, 0, r); fill(ba, 0, r); double *ov, *oa; ex->bind(bv.p, ba.p, ov, oa);
    if (ov != bv.p + nv || oa != ba.p + na) fail("CACHE", "binding consumed %ld and %ld of the announced %zu and %zu", long(ov - bv.p), long(oa - ba.p), nv, na);
    bool bound = r.chance(.5); if (bound) ex->mkbound();
    for (int st = 0; st < steps; ++st) {
        e.redraw(r, !r.chance(.15)); Mat seed = draw_seed(e, r); Expect x = expect(e, &seed, r.next());
        if (!x.conclusive) { ++g_seen["inconclusive"]; continue; }
        g_distinct.insert(e.digest()); g_seen["probes expected"] += long(x.probes.size());
        Env::Snap before = e.snap(); take(); Mat got; int way = r.below(bound ? 6 : 3);
        static const char* nm[] = {"autodiff", "evaluate, evaluate_adj", "evaluate twice, evaluate_adj", "autodiff of a bound expression", "evaluate, evaluate_adj of a bound expression", "autodiff of a temporary bound expression"};
        if (way == 2 && opeq) way = 1;
        if (way == 0 || way >= 3) { got = way == 0 ? ex->autodiff(&seed) : ex->bound(way - 3, &seed); Seq s = take(); check_forward(x, s, nm[way], true); check_backward(x, s, nm[way], true); }
        else {
            if (way == 2) { ex->feval(); check_forward(x, take(), "evaluate (abandoned)", false); }
            got = ex->feval(); check_forward(x, take(), nm[way], false);
            ex->beval(seed); check_backward(x, take(), nm[way], false);
        }
        check_result(e, x, got, before, nm[way], true); g_evals += way == 2 ? 2 : 1; ++g_seen[std::string("way: ") + nm[way]];
        if (!bv.intact() || !ba.intact() || !e.intact()) { fail("CACHE", "%s: wrote outside some storage", nm[way]); return; }
        bool show = r.chance(.1);
        if (show && g_samples.size() < 3 && x.probes.size() > 5) { std::string o = std::string(c.name) + ": statements"; for (auto& p : x.probes) o += " " + std::to_string(p.id) + "@" + std::to_string(p.stmt); g_samples.push_back(o.substr(0, 160)); }
    }
}
} // namespace vf
int main(int argc, char** argv) { return vf::loop(argc, argv, vf::trial); }
