// What the reference expects of one evaluation, with tolerances from perturbed runs.
#pragma once
#include "env.hpp"
#include <algorithm>
namespace vf {
// ---------------------------------------------------------------- expectations from the reference
struct Expect {
    bool conclusive = true, neginf = false, branchy = false;
    std::vector<double> val, vtol; bool vok = true;
    std::vector<std::vector<double>> vjp, gtol; std::vector<std::vector<char>> skip;      // per input
    std::vector<std::vector<double>> fin, ftol;                                           // final values of OPEQ/HOLD
    struct Probe { int id, stmt, r, c; std::vector<double> v, vt, a, at; bool vok, aok; };
    std::vector<Probe> probes;                                                            // subexpressions evaluated, see probe.hpp
};
static const double EPS = 0x1p-52;
static inline Expect expect(const Env& e, const Mat* seed, uint64_t js) {
    Expect x; const Case& c = e.c; const int RUNS = 6;
    size_t ni = c.in.size();
    std::vector<std::vector<ref::LD>> bv; std::vector<ref::LD> vdev;
    std::vector<std::vector<ref::LD>> g(ni), gdev(ni), f(ni), fdev(ni); std::vector<ref::LD> v;
    std::vector<char> br; std::vector<std::vector<ref::LD>> base;
    std::vector<std::vector<ref::LD>> pv, pvd, pa, pad;
    for (int run = 0; run < RUNS; ++run) {
        ref::Tape t; t.amp = run ? 0x1p-51L : 0; t.rng = ref::Rng(js + run);
        t.nodes.reserve(64);
        RIn ri; ri.t = &t; ri.n = e.in.n; ri.p = e.in.p; ri.q = e.in.q; ri.fin.resize(ni);
        for (size_t i = 0; i < ni; ++i) ri.x.push_back(t.leaf(e.in.s[i].r, e.in.s[i].c, e.in.s[i].val));
        ref::N o = c.rf(ri);
        if (o.rows() != e.dim(c.rd) || o.cols() != e.dim(c.cd)) { std::fprintf(stderr, "REF-ERROR result shape of %s\n", c.name); std::exit(97); }
        auto ov = t.nodes[o.id].v;
        if (run == 0) { v = ov; br = t.branches; vdev.assign(v.size(), 0); }
        else { if (t.branches != br) x.conclusive = false; for (size_t k = 0; k < v.size() && k < ov.size(); ++k) vdev[k] = std::max(vdev[k], fabsl(ov[k] - v[k])); }
        if (!x.conclusive) return x;
        // errors that grow past what a linear bound describes (chaotic recursions): no verdict
        if (run == 0) { base.reserve(t.nodes.size()); for (auto& nd : t.nodes) base.push_back(nd.v); }
        else for (size_t q = 0; q < base.size() && q < t.nodes.size(); ++q) for (size_t k = 0; k < base[q].size() && k < t.nodes[q].v.size(); ++k)
            if (fabsl(t.nodes[q].v[k] - base[q][k]) > 1e-5L * (fabsl(base[q][k]) + 1)) { x.conclusive = false; return x; }
        for (size_t i = 0; i < ni; ++i) if (ri.fin[i].t) {
            auto& fv = t.nodes[ri.fin[i].id].v;
            if (run == 0) { f[i] = fv; fdev[i].assign(fv.size(), 0); } else for (size_t k = 0; k < fv.size(); ++k) fdev[i][k] = std::max(fdev[i][k], fabsl(fv[k] - f[i][k]));
        }
        t.backward(o, seed ? seed->d.data() : nullptr);
        for (size_t i = 0; i < ni; ++i) {
            auto& a = t.nodes[ri.x[i].id].a;
            if (run == 0) { g[i] = a; gdev[i].assign(a.size(), 0); } else for (size_t k = 0; k < a.size(); ++k) gdev[i][k] = std::max(gdev[i][k], fabsl(a[k] - g[i][k]));
        }
        for (size_t k = 0; k < t.probes.size(); ++k) {
            auto& p = t.probes[k]; auto& nd = t.nodes[p.node];
            if (run == 0) { x.probes.push_back({p.id, p.stmt, nd.r, nd.c, {}, {}, {}, {}, true, true}); pv.push_back(nd.v); pa.push_back(nd.a); pvd.emplace_back(nd.v.size(), 0); pad.emplace_back(nd.v.size(), 0); }
            else for (size_t q = 0; q < nd.v.size(); ++q) { pvd[k][q] = std::max(pvd[k][q], fabsl(nd.v[q] - pv[k][q])); pad[k][q] = std::max(pad[k][q], fabsl(nd.a[q] - pa[k][q])); }
        }
        if (run == 0) {
            x.skip.resize(ni); for (size_t i = 0; i < ni; ++i) x.skip[i].assign(g[i].size(), 0);
            for (auto& d : t.dontcare) { bool leaf = false; for (size_t i = 0; i < ni; ++i) if (ri.x[i].id == d.first) { x.skip[i][d.second] = 1; leaf = true; } if (!leaf) for (auto& s : x.skip) for (auto& q : s) q = 1; }
        }
    }
    x.branchy = !br.empty();
    auto tol = [](ref::LD v, ref::LD dev) { return double(300 * dev + 64 * EPS * fabsl(v) + 1e-290L); };
    for (size_t k = 0; k < v.size(); ++k) {
        if (std::isinf(double(v[k])) && v[k] < 0) x.neginf = true;
        if (std::isnan(double(v[k])) || (std::isfinite(double(v[k])) && !std::isfinite(double(vdev[k])))) x.vok = false;
        x.val.push_back(double(v[k])); x.vtol.push_back(std::isfinite(double(v[k])) ? tol(v[k], vdev[k]) : 0);
    }
    x.vjp.resize(ni); x.gtol.resize(ni); x.fin.resize(ni); x.ftol.resize(ni);
    for (size_t i = 0; i < ni; ++i) {
        for (size_t k = 0; k < g[i].size(); ++k) {
            double y = double(g[i][k]); double t = tol(g[i][k], gdev[i][k]);
            if (!std::isfinite(y) || std::fabs(y) > 1e290 || !std::isfinite(t)) x.skip[i][k] = 1;
            x.vjp[i].push_back(y); x.gtol[i].push_back(t);
        }
        for (size_t k = 0; k < f[i].size(); ++k) { x.fin[i].push_back(double(f[i][k])); x.ftol[i].push_back(tol(f[i][k], fdev[i][k])); }
    }
    for (size_t k = 0; k < x.probes.size(); ++k) {
        auto& p = x.probes[k];
        for (size_t q = 0; q < pv[k].size(); ++q) {
            p.v.push_back(double(pv[k][q])); p.vt.push_back(tol(pv[k][q], pvd[k][q])); p.a.push_back(double(pa[k][q])); p.at.push_back(tol(pa[k][q], pad[k][q]));
            if (!std::isfinite(p.v[q]) || !std::isfinite(p.vt[q])) p.vok = false;
            if (!std::isfinite(p.a[q]) || !std::isfinite(p.at[q])) p.aok = false;
        }
    }
    return x;
}
static inline bool differs(double got, double want, double tol) {
    if (std::isinf(want)) return !(got == want);
    return !(std::fabs(got - want) <= tol);          // catches NaN
}
} // namespace vf
