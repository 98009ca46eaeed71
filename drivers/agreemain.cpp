// The same program in both modes: value against value, gradient against directional derivatives.
#include "agreeprog.hpp"
using namespace drv; using rd::LD; using rd::RD;
namespace ag {
std::vector<Prog>& progs() { static std::vector<Prog> p; return p; }
static void one(Rng& r, const Prog& p) {
    RV x[NX], w[4]; auto e = p.m(x, w);
    for (int step = 0; step < 3; ++step) {
        double x0[NX], d[NX]; for (int i = 0; i < NX; ++i) { x0[i] = p.dom ? rd::extreme(p.dom, r) : r.chance(.15) ? double(r.below(5) - 2) * .5 : r.uni(-2, 2); d[i] = r.chance(.15) ? 0. : r.uni(-2, 2); mix(x0[i]); mix(d[i]); }
        double seed = r.chance(.3) ? 1. : r.uni(-3, 3);
        // how far rounding can move results: perturbed runs along the unit directions and along d
        LD tv = 0, tg[NX + 1] = {}, bv = 0, bg[NX + 1] = {}; bool ok = true; uint64_t js = r.next();
        for (int run = 0; run < 6; ++run) for (int k = 0; k <= NX; ++k) {
            rd::ctx().amp = run ? 0x1p-51L : 0; rd::ctx().r = Rng(js + uint64_t(run)); RD v[NX]; for (int i = 0; i < NX; ++i) v[i] = RD(x0[i], LD(k == NX ? d[i] : double(i == k)));
            RD y = p.r(v); if (run == 0) { bv = y.v; bg[k] = y.d; } else { tv = std::max(tv, fabsl(y.v - bv)); tg[k] = std::max(tg[k], fabsl(y.d - bg[k])); }
            if (!(fabsl(y.v) < 1e100L && fabsl(y.d) < 1e100L)) ok = false;
        }
        rd::ctx().amp = 0;
        if (!ok) { saw("inconclusive"); continue; }
        tv = 600 * tv + 128 * 0x1p-52L * fabsl(bv) + 1e-290L;
        for (int k = 0; k <= NX; ++k) tg[k] = 600 * tg[k] + 128 * 0x1p-52L * fabsl(bg[k]) + 1e-290L;
        for (int i = 0; i < NX; ++i) { x[i].get() = x0[i]; x[i].reset_adj(); } for (auto& z : w) { z.get() = NAN; z.reset_adj(); }
        double v = e->run(seed, r.below(2)); eval();
        FD a[NX]; for (int i = 0; i < NX; ++i) a[i] = FD(x0[i], d[i]); FD y = p.f(a); eval();
        EXPECT("VALUE", fabsl(LD(v) - y.get_value()) <= tv, "step %d: reverse value %.17g, forward value %.17g", step, v, y.get_value());
        LD ip = 0, tol = seed == 0 ? 0 : tg[NX] * fabsl(LD(seed)); for (int i = 0; i < NX; ++i) { ip += LD(x[i].get_adj()) * d[i]; tol += tg[i] * fabsl(LD(seed) * d[i]) + 64 * 0x1p-52L * fabsl(LD(x[i].get_adj()) * d[i]); }
        EXPECT("DIRECTION", fabsl(ip - LD(seed) * y.get_adjoint()) <= tol, "step %d: gradient in direction is %.17g, forward adjoint times seed %.17g", step, double(ip), double(LD(seed) * y.get_adjoint()));
        for (int k = 0; k < NX; ++k) { for (int i = 0; i < NX; ++i) a[i] = FD(x0[i], double(i == k)); FD z = p.f(a); eval();
            EXPECT("PARTIAL", fabsl(LD(x[k].get_adj()) - LD(seed) * z.get_adjoint()) <= tg[k] * fabsl(LD(seed)) * 2 + 1e-290L, "step %d: partial derivative %d is %.17g in reverse and %.17g in forward mode", step, k, x[k].get_adj(), seed * z.get_adjoint()); }
        saw("programs compared"); if (r.chance(.003)) sample(std::string(p.name) + ": value " + std::to_string(v) + ", direction " + std::to_string(double(ip)));
    }
}
} // namespace ag
int main(int argc, char** argv) {
    for (auto& p : ag::progs()) st().scn.push_back({p.name, [&p](Rng& r) { ag::one(r, p); }, 1});
    return drv::run(argc, argv);
}
