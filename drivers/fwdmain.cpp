// Runs the generated forward-mode programs against the reference, statement by statement.
#include "fwdprog.hpp"
using namespace drv; using rd::LD; using rd::RD;

namespace fw {
std::vector<Prog>& progs() { static std::vector<Prog> p; return p; }
template <class T> static void one(Rng& r, const Prog& p, void (*run)(ad::ForwardVar<T>*, int), const char* tn) {
    using F = ad::ForwardVar<T>; const LD eps = std::max<LD>(std::numeric_limits<T>::epsilon(), 0x1p-52L);
    std::array<double, NV> x, d; int dir = r.below(4), unit = r.below(NV);
    for (int i = 0; i < NV; ++i) { x[i] = p.dom ? rd::extreme(p.dom, r, sizeof(T) == 4) : r.chance(.15) ? double(r.below(5) - 2) * .5 : r.uni(-2, 2); if (sizeof(T) == 4) x[i] = double(float(x[i])); d[i] = dir == 0 ? double(i == unit) : dir == 1 && r.chance(.5) ? 0. : r.uni(-2, 2); if (sizeof(T) == 4) d[i] = double(float(d[i])); mix(x[i]); mix(d[i]); }
    // reference, statement by statement
    std::vector<std::array<RD, NV>> ref, dev; uint64_t js = r.next();
    for (int run = 0; run < 6; ++run) {
        rd::ctx().amp = run ? 2 * eps : 0; rd::ctx().r = Rng(js + uint64_t(run)); std::array<RD, NV> v;
        for (int i = 0; i < NV; ++i) v[i] = RD(x[i], LD(d[i]));
        for (int s = 0; s < p.n; ++s) {
            p.rd(v.data(), s);
            if (run == 0) { ref.push_back(v); dev.push_back({}); } else for (int i = 0; i < NV; ++i) { LD a = fabsl(v[i].v - ref[s][i].v), b = fabsl(v[i].d - ref[s][i].d); if (!(a <= dev[s][i].v)) dev[s][i].v = a; if (!(b <= dev[s][i].d)) dev[s][i].d = b; }
        }
    }
    rd::ctx().amp = 0;
    F v[NV]; for (int i = 0; i < NV; ++i) { if (r.chance(.5)) { v[i].set_value(T(x[i])); v[i].set_adjoint(T(d[i])); } else v[i] = F(T(x[i]), T(d[i])); }
    bool lost = false;
    for (int s = 0; s < p.n && !lost; ++s) {
        F before[NV]; for (int i = 0; i < NV; ++i) before[i] = v[i];
        run(v, s); eval();
        for (int i = 0; i < NV; ++i) {
            T a = v[i].get_value(), b = v[i].get_adjoint();
            if (!(p.lhs[s] >> i & 1)) {
                T a0 = before[i].get_value(), b0 = before[i].get_adjoint();
                bool same = (a == a0 || (a != a && a0 != a0)) && (b == b0 || (b != b && b0 != b0));
                EXPECT("OPERANDS", same, "%s statement %d changed v[%d], which it only reads", tn, s, i); continue; }
            const RD &w = ref[s][i], &q = dev[s][i]; LD tv = 300 * q.v + 64 * eps * fabsl(w.v) + 1e-30L, td = 300 * q.d + 64 * eps * fabsl(w.d) + 1e-30L;
            LD lim = sizeof(T) == 4 ? 1e25L : 1e200L;
            if (!(fabsl(w.v) < lim && fabsl(w.d) < lim && tv < lim && td < lim)) { saw("inconclusive"); lost = true; break; }
            if (tv > 1e-3L * (1 + fabsl(w.v)) || td > 1e-3L * (1 + fabsl(w.d))) { saw("inconclusive"); lost = true; break; }
            EXPECT("VALUE", fabsl(a - w.v) <= tv, "%s statement %d: v[%d] is %.17g, expected %.17g +- %.2g", tn, s, i, double(a), double(w.v), double(tv));
            EXPECT("DERIVATIVE", fabsl(b - w.d) <= td, "%s statement %d: adjoint of v[%d] is %.17g, expected %.17g +- %.2g", tn, s, i, double(b), double(w.d), double(td));
            if (!(fabsl(a - w.v) <= tv) || !(fabsl(b - w.d) <= td)) lost = true;
        }
        saw("statements");
        if (r.chance(.003)) sample(std::string(p.name) + " " + tn + " after statement " + std::to_string(s) + ": value " + std::to_string(double(v[0].get_value())) + " derivative " + std::to_string(double(v[0].get_adjoint())));
    }
}
} // namespace fw
int main(int argc, char** argv) {
    for (auto& p : fw::progs()) st().scn.push_back({p.name, [&p](Rng& r) { fw::one<double>(r, p, p.d, "double"); if (p.f && r.chance(.4)) fw::one<float>(r, p, p.f, "float"); if (p.l && r.chance(.3)) fw::one<long double>(r, p, p.l, "long double"); }, 1});
    return drv::run(argc, argv);
}
