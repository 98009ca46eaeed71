// Several threads build, bind, evaluate and back-evaluate instances of the same generated expression: distinct variables and
// adjoints, shared constants and shared value memory of read-only views.  ThreadSanitizer watches for races; every thread's
// results are compared bit for bit with those it had when it ran alone.
#include "loop.hpp"
#include <atomic>
#include <thread>
namespace vf {
struct Barrier { std::atomic<int> n{0}; int tot; explicit Barrier(int t) : tot(t) {} void wait() { n.fetch_add(1); while (n.load() < tot) std::this_thread::yield(); } };
struct Out { std::vector<Mat> v; std::vector<std::vector<std::vector<double>>> a, val; };
// everything one thread does; deterministic given the seed
static void work(Env& e, uint64_t seed, int steps, bool bound, Out& o, Barrier* b) {
    ref::Rng r(seed);
    if (b) b->wait();
    auto ex = e.c.make(e.in); size_t nv, na; ex->sizes(nv, na); Buf bv(nv, r), ba(na, r); fill(bv, 2, r); fill(ba, 2, r); double *ov, *oa; ex->bind(bv.p, ba.p, ov, oa);
    bool opeq = false; for (auto& i : e.c.in) opeq |= i.role == OPEQ;
    if (bound) ex->mkbound();
    for (int st = 0; st < steps; ++st) {
        for (size_t i = 0; i < e.c.in.size(); ++i) {                     // own variables only; what is shared stays
            auto& sp = e.c.in[i]; auto& s = e.in.s[i]; if (sp.role == CONST || sp.role == IDLE) continue; size_t n = e.size(i);
            if (sp.role == OPEQ || (sp.role == VAR && sp.own)) draw(s.val, s.r, s.c, sp.dom, r, e.in.p);
            for (size_t k = 0; k < n; ++k) s.adj[k] = sp.role == VAR ? r.uni(-1, 1) : 0;
        }
        Mat seed_ = draw_seed(e, r); Mat v;
        if (bound && r.chance(.5)) { int how = r.below(3); if (e.c.flags & F_NOBOUND) how = -1; if (how < 0) { v = ex->feval(); ex->beval(seed_); } else v = ex->bound(how, &seed_); }
        else if (r.chance(.3)) v = ex->autodiff(&seed_);
        else { v = ex->feval(); if (r.chance(.3) && b) std::this_thread::yield(); ex->beval(seed_); }
        if (r.chance(.2)) { auto c = ex->clone(); Buf b1(nv, r), b2(na, r); fill(b1, 2, r); fill(b2, 2, r); c->bind(b1.p, b2.p, ov, oa); Mat w = c->feval(); c->beval(seed_); o.v.push_back(w); }
        auto sn = e.snap(); o.v.push_back(v); o.a.push_back(sn.a); o.val.push_back(sn.v);
    }
}
static bool eq(const std::vector<double>& a, const std::vector<double>& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (std::memcmp(&a[i], &b[i], 8) && !(std::isnan(a[i]) && std::isnan(b[i]))) return false; return true; }
static void trial(const Case& c, ref::Rng& r, int steps, long t) {
    const int T = 4; Env base(c, r); std::vector<std::unique_ptr<Env>> es; std::vector<uint64_t> seeds;
    for (int i = 0; i < T; ++i) { es.push_back(std::make_unique<Env>(c, r, &base)); seeds.push_back(r.next()); }
    if (t % 3 == 2) seeds[1] = seeds[0];                                  // two threads do exactly the same
    bool bound = !(c.flags & F_NOBOUND) && r.chance(.4);
    g_distinct.insert(base.digest() ^ seeds[0]);
    std::vector<Out> alone(T), with(T);
    std::vector<Env::Snap> start; for (auto& e : es) start.push_back(e->snap());
    auto concurrent = [&] { Barrier b(T); std::vector<std::thread> th; for (int i = 0; i < T; ++i) th.emplace_back([&, i] { work(*es[size_t(i)], seeds[size_t(i)], steps, bound, with[size_t(i)], &b); }); for (auto& x : th) x.join(); };
    auto serial = [&] { for (int i = 0; i < T; ++i) work(*es[size_t(i)], seeds[size_t(i)], steps, bound, alone[size_t(i)], nullptr); };
    auto reset = [&] { for (int i = 0; i < T; ++i) { auto& e = *es[size_t(i)]; for (size_t k = 0; k < c.in.size(); ++k) { auto& sp = c.in[k]; if (sp.role == CONST) continue; if (sp.role == OPEQ || sp.role == HOLD || (sp.role == VAR && sp.own)) std::copy(start[size_t(i)].v[k].begin(), start[size_t(i)].v[k].end(), e.in.s[k].val); std::copy(start[size_t(i)].a[k].begin(), start[size_t(i)].a[k].end(), e.in.s[k].adj); } } };
    // concurrently first half of the time, so that lazy initialisation is met by all threads at once
    if (t % 2 == 0) { concurrent(); reset(); serial(); } else { serial(); reset(); concurrent(); }
    for (int i = 0; i < T; ++i) {
        auto &a = alone[size_t(i)], &w = with[size_t(i)]; ++g_cmp["ALONE"]; g_evals += 2 * long(a.v.size());
        bool ok = a.v.size() == w.v.size(); size_t k = 0;
        for (; ok && k < a.v.size(); ++k) if (!eq(a.v[k].d, w.v[k].d)) { ok = false; break; }
        if (!ok) { fail("ALONE", "thread %d evaluation %zu: value %.17g, alone %.17g", i, k, k < w.v.size() && !w.v[k].d.empty() ? w.v[k].d[0] : NAN, k < a.v.size() && !a.v[k].d.empty() ? a.v[k].d[0] : NAN); continue; }
        for (size_t s = 0; ok && s < a.a.size(); ++s) for (size_t q = 0; ok && q < a.a[s].size(); ++q) if (!eq(a.a[s][q], w.a[s][q]) || !eq(a.val[s][q], w.val[s][q])) { fail("ALONE", "thread %d step %zu: input %zu differs from what it is when the thread runs alone", i, s, q); ok = false; }
    }
    ++g_seen["concurrent runs"]; g_seen["threads started"] += T;
    if (g_samples.size() < 3 && r.chance(.05)) g_samples.push_back(std::string(c.name) + ": 4 threads x " + std::to_string(steps) + " steps, value[0] of thread 0 " + std::to_string(alone[0].v[0].d[0]));
}
} // namespace vf
int main(int argc, char** argv) { return vf::loop(argc, argv, vf::trial); }
