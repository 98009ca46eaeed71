// Guarded storage and randomised inputs for the generated cases; used by the runner, the thread and the leak drivers.
#pragma once
#include "case.hpp"
#include <cstdio>
#include <cstdlib>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VF_ASAN 1
#endif
#endif
#ifdef __SANITIZE_ADDRESS__
#define VF_ASAN 1
#endif
#ifdef VF_ASAN
#include <sanitizer/asan_interface.h>
#else
#define ASAN_POISON_MEMORY_REGION(a, n) ((void)0)
#define ASAN_UNPOISON_MEMORY_REGION(a, n) ((void)0)
#endif

#ifdef VF_VALGRIND
#include <valgrind/memcheck.h>
#define VF_UNDEFINED(p, n) VALGRIND_MAKE_MEM_UNDEFINED(p, n)
#else
#define VF_UNDEFINED(p, n) ((void)0)
#endif

namespace vf {
// ---------------------------------------------------------------- guarded storage
struct Buf {
    double* base = nullptr; double* p = nullptr; size_t n = 0, tot = 0;
    static constexpr size_t PAD = 16;
    static constexpr uint64_t CAN = 0x7ff4deadbeefcafeull;          // a signalling NaN pattern
    Buf() {}
    Buf(size_t n_, ref::Rng& r) { alloc(n_, r.below(4)); }
    Buf(const Buf&) = delete; Buf& operator=(const Buf&) = delete;
    Buf(Buf&& o) noexcept { swap(o); }
    Buf& operator=(Buf&& o) noexcept { swap(o); return *this; }
    void swap(Buf& o) { std::swap(base, o.base); std::swap(p, o.p); std::swap(n, o.n); std::swap(tot, o.tot); }
    void alloc(size_t n_, int off) {
        n = n_; tot = n + 2 * PAD; base = static_cast<double*>(std::malloc(tot * 8)); p = base + PAD - off;
        for (size_t i = 0; i < tot; ++i) std::memcpy(base + i, &CAN, 8);
        poison();
    }
    void poison() { ASAN_POISON_MEMORY_REGION(base, size_t(p - base) * 8); ASAN_POISON_MEMORY_REGION(p + n, (tot - n - size_t(p - base)) * 8); }
    bool intact() {
        if (!base) return true;
        ASAN_UNPOISON_MEMORY_REGION(base, tot * 8);
        bool ok = true;
        for (size_t i = 0; i < tot; ++i) { if (base + i >= p && base + i < p + n) continue; if (std::memcmp(base + i, &CAN, 8)) ok = false; }
        poison();
        return ok;
    }
    ~Buf() { if (base) { ASAN_UNPOISON_MEMORY_REGION(base, tot * 8); std::free(base); } }
};
static inline void fill(Buf& b, int pattern, ref::Rng& r) {
    for (size_t i = 0; i < b.n; ++i)
        b.p[i] = pattern == 0 ? std::nan("") : pattern == 1 ? 1e300 : pattern == 2 ? r.uni(-5, 5) : pattern == 3 ? 0. : -INFINITY;
    VF_UNDEFINED(b.p, b.n * sizeof(double));
}

// ---------------------------------------------------------------- drawing inputs
static const double NICE[] = {0, 1, -1, 0.5, 2, -2, -0.5, 1.5};
static inline double draw1(Dom d, ref::Rng& r) {
    switch (d) {
    case R: return r.chance(.2) ? NICE[r.below(8)] : r.uni(-2, 2);
    case NZ: { double x = r.chance(.15) ? NICE[1 + r.below(7)] : r.uni(.3, 2.5) * (r.chance(.5) ? 1 : -1); return x; }
    case POS: return r.chance(.15) ? (r.chance(.5) ? 1. : 2.) : r.uni(.2, 3);
    case UNIT: return r.chance(.1) ? 0. : r.uni(-.9, .9);
    case TAN: return r.uni(-1.3, 1.3);
    case PROB: return r.chance(.1) ? .5 : r.uni(.05, .95);
    case BIN: return r.below(2);
    case SMALL: return r.uni(-.5, .5);
    case ZEROS: return r.chance(.3) ? 0. : r.chance(.1) ? -0. : r.uni(.3, 1.8) * (r.chance(.5) ? 1 : -1);
    case ZPOW: return r.chance(.15) ? 0. : r.uni(.3, 1.8) * (r.chance(.5) ? 1 : -1);
    case TIE: { static const double t[] = {-1, 0, .5, 1}; return t[r.below(4)]; }
    case EANY: { int k = r.below(6); double s = r.chance(.5) ? 1 : -1;
        return k == 0 ? s * r.uni(0, 5) : k == 1 ? s * r.uni(5, 40) : k == 2 ? s * r.uni(40, 690) : k == 3 ? s * std::pow(10., r.uni(-18, 0)) : k == 4 ? s * r.uni(.9, 1.1) : 0.; }
    case EEXP: { int k = r.below(5); double s = r.chance(.5) ? 1 : -1; return k == 0 ? s * r.uni(0, 5) : k == 1 ? s * r.uni(5, 100) : k == 2 ? s * r.uni(100, 690) : k == 3 ? s * std::pow(10., r.uni(-18, 0)) : 0.; }
    case EPOS: { int k = r.below(4); return k == 0 ? r.uni(0.01, 5) : k == 1 ? std::pow(10., r.uni(-140, 140)) : k == 2 ? 1 + r.uni(-1e-6, 1e-6) : 1.; }
    case EUNIT: { int k = r.below(4); double s = r.chance(.5) ? 1 : -1; return k == 0 ? r.uni(-.99, .99) : k == 1 ? s * (1 - std::pow(2., -r.below(40) - 1)) : k == 2 ? s * std::pow(10., r.uni(-18, 0)) * .99 : 0.; }
    case ETAN: { int k = r.below(3); const double h = 1.5707963267948966; return k == 0 ? r.uni(-1.5, 1.5) : k == 1 ? (r.chance(.5) ? 1 : -1) * (h - std::pow(10., r.uni(-6, -1))) : r.uni(-1, 1) + 3.141592653589793 * (r.below(20) - 10); }
    case FAR: return 1e7 + r.uni(-2, 2);                    // far from zero relative to the spread
    case EPOW: return (r.chance(.5) ? 1 : -1) * (r.chance(.2) ? 1. : std::pow(10., r.uni(-16, 16)));
    case EMAG: { double s = r.chance(.5) ? 1 : -1; return r.chance(.3) ? s * r.uni(.1, 2) : s * std::pow(10., r.uni(-60, 60)); }
    case ESC: { double s = r.chance(.5) ? 1 : -1; return r.chance(.3) ? s * r.uni(.1, 2) : r.chance(.1) ? 0. : s * std::pow(10., r.uni(-8, 8)); }
    case EPSC: return r.chance(.3) ? r.uni(.1, 2) : std::pow(10., r.uni(-8, 8));
    case EPROB: { double x = std::pow(10., r.uni(-12, 0)); return r.chance(.3) ? r.uni(.05, .95) : r.chance(.5) ? x * .9 : 1 - x * .9; }
    case ELO: return -std::pow(10., r.uni(-3, 12));
    case EHI: return std::pow(10., r.uni(-3, 12));
    case EXMID: return r.uni(-1, 1) * 1e-3;
    case LO: return r.chance(.3) ? -1. - .25 * r.below(4) : r.uni(-2, -1);
    case HI: return r.chance(.3) ? 1. + .25 * r.below(4) : r.uni(1, 2);
    case XMID: return r.chance(.3) ? .25 * (r.below(7) - 3) : r.uni(-.9, .9);
    case PROBX: { static const double t[] = {0, 1, -0.25, 1.5, -1e-12, 1 + 1e-12, 1e-9}; return r.chance(.3) ? t[r.below(7)] : r.uni(.05, .95); }
    case BINX: { static const double t[] = {2, -1, .5, 3, 1e-9}; return r.chance(.1) ? t[r.below(5)] : double(r.below(2)); }
    case SCALEX: { static const double t[] = {0., -0., -1., -1e-3, -50.}; return r.chance(.5) ? t[r.below(5)] : r.uni(-3, 3); }
    case INT: return r.below(7) - 3;
    case NZINT: { int x = r.below(6) - 3; return x >= 0 ? x + 1 : x; }
    case BOOL: return r.below(2);
    default: return r.uni(-2, 2);
    }
}
static inline void mmul(const std::vector<double>& a, const std::vector<double>& b, std::vector<double>& c, int n) {   // a * b^T
    c.assign(size_t(n) * n, 0); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { double s = 0; for (int k = 0; k < n; ++k) s += a[size_t(k) * n + i] * b[size_t(k) * n + j]; c[size_t(j) * n + i] = s; }
}
static inline void draw(double* v, int rr, int cc, Dom d, ref::Rng& r, int p) {
    int n = rr * cc;
    switch (d) {
    case SPD: case SND: case SPDX: case SING: case SINGSYM: {
        std::vector<double> a(size_t(n), 0.), c;
        int m = rr;
        bool ints = r.chance(.2);
        for (double& x : a) x = ints ? double(r.below(3) - 1) : r.uni(-1, 1);
        mmul(a, a, c, m);
        for (int i = 0; i < m; ++i) c[size_t(i) * m + i] += ints ? 1 : r.uni(.4, 1.2);
        if (d == SING) { for (int i = 0; i < n; ++i) c[i] = r.uni(-1, 1) + (i % (m + 1) == 0 ? (r.chance(.5) ? 2.5 : -2.5) : 0); }
        double sg = d == SND ? -1 : 1;
        if ((d == SING || d == SINGSYM) && r.chance(.4)) {               // exactly singular, with exact arithmetic
            int k = r.below(4);
            for (double& x : c) x = 0;
            if (k == 1) { for (int i = 0; i + 1 < m; ++i) c[size_t(i) * m + i] = 1 + r.below(3); }
            if (k == 2) { int z = r.below(m); for (int i = 0; i < m; ++i) if (i != z) c[size_t(i) * m + i] = 1 + r.below(3); }
            if (k == 3 && m >= 2) { for (int i = 0; i < m; ++i) c[size_t(i) * m + i] = 2; c[0] = c[1] = c[m] = c[m + 1] = 1; }
            if (k == 3 && m == 1) c[0] = 0;
        } else if (d == SINGSYM && r.chance(.4)) sg = -1;
        if (d == SPDX && r.chance(.4)) {
            int k = r.below(4);
            if (k == 0) sg = -1;
            else if (k == 1) { for (double& x : c) x = 0; }
            else if (k == 2) { int z = r.below(m); c[size_t(z) * m + z] = -c[size_t(z) * m + z]; }
            else if (m >= 2) { int z = 1 + r.below(m - 1); double big = 3 * (std::fabs(c[0]) + std::fabs(c[size_t(z) * m + z])) + 1; c[z] = c[size_t(z) * m] = big; }
            else sg = -1;
        }
        for (int i = 0; i < n; ++i) v[i] = sg * c[i];
        if (d != SING) for (int j = 0; j < m; ++j) for (int i = 0; i < j; ++i) v[size_t(j) * m + i] = v[size_t(i) * m + j];
        return; }
    case EGEN: case ESPD: case EGENX: case ESPDX: case ESPDW: {
        draw(v, rr, cc, d == EGEN || d == EGENX ? GEN : SPD, r, p); double e = d == EGEN ? 12 : d == ESPD ? 8 : d == ESPDW ? 60 : 140;
        double f = r.chance(.2) ? 1. : std::pow(10., r.uni(-e, e));
        if ((d == EGEN || d == ESPD) && r.chance(.5)) {       // rows and columns of very different size
            std::vector<double> a(rr), b(cc); for (double& x : a) x = std::exp2(r.below(15) - 7); for (double& x : b) x = std::exp2(r.below(15) - 7);
            if (d == ESPD) b = a;
            for (int j = 0; j < cc; ++j) for (int i = 0; i < rr; ++i) v[size_t(j) * rr + i] *= a[i] * b[j];
        }
        for (int i = 0; i < n; ++i) v[i] *= f; return; }
    case EDOF: v[0] = p - 1 + std::pow(10., r.uni(-3, 4)); return;
    case SYM: { for (int j = 0; j < cc; ++j) for (int i = 0; i <= j; ++i) v[j * rr + i] = v[i * rr + j] = r.uni(-2, 2); return; }
    case GEN: { for (int i = 0; i < n; ++i) v[i] = r.uni(-1, 1); for (int i = 0; i < std::min(rr, cc); ++i) v[i * rr + i] += r.chance(.5) ? 2 : -2;
        if (r.chance(.3) && rr == cc && rr > 1) for (int j = 0; j < cc; ++j) std::swap(v[j * rr], v[j * rr + rr - 1]); return; }
    case ZEROS: { int k = r.below(4); for (int i = 0; i < n; ++i) v[i] = k == 0 ? draw1(ZEROS, r) : r.uni(.4, 1.6) * (r.chance(.5) ? 1 : -1);
        if (k == 1 || k == 2) for (int z = 0; z < k; ++z) v[r.below(n)] = 0; return; }
    case LOX: case HIX: case XX: {
        Dom in = d == LOX ? LO : d == HIX ? HI : XMID;
        for (int i = 0; i < n; ++i) v[i] = draw1(in, r);
        if (r.chance(.3)) for (int k = r.chance(.6) ? 1 : 2 + r.below(n); k > 0; --k) v[r.below(n)] = .25 * (r.below(13) - 6);
        if (r.chance(.05)) v[r.below(n)] = (d == HIX ? -1 : 1) * 100.;
        return; }
    case SCALEX: {
        for (int i = 0; i < n; ++i) v[i] = draw1(POS, r);
        if (r.chance(.5)) return;
        int k = r.below(6), m = k < 3 ? 1 : k == 3 ? 2 : k == 4 ? n : 1 + r.below(n); bool neg = r.chance(.5);      // one, two, all or some entries are no scales
        if (k == 4) for (int i = 0; i < n; ++i) v[i] = neg ? -draw1(POS, r) : draw1(SCALEX, r);
        else for (int z = 0; z < m; ++z) { double& x = v[r.below(n)]; x = neg ? -draw1(POS, r) : draw1(SCALEX, r); }
        return; }
    case PROBX: { bool m = r.chance(.5); for (int i = 0; i < n; ++i) v[i] = draw1(m ? PROBX : PROB, r); return; }
    case BINX: { if (n >= 2 && r.chance(.15)) {  // not a sample of zeros and ones, although its sum is that of none or of successes only
            double z = r.chance(.5) ? 0. : 1.; for (int i = 0; i < n; ++i) v[i] = z;
            int i = r.below(n), j = (i + 1 + r.below(n - 1)) % n; double t = r.chance(.5) ? 1. : .5; v[i] = z + t; v[j] = z - t; return; }
        int k = r.below(5); for (int i = 0; i < n; ++i) v[i] = k == 0 ? 0. : k == 1 ? 1. : k == 2 ? draw1(BINX, r) : draw1(BIN, r); return; }
    case BIN: { int k = r.below(6); for (int i = 0; i < n; ++i) v[i] = k == 0 ? 0. : k == 1 ? 1. : draw1(BIN, r); return; }
    case DOF: { static const double t[] = {0, 1, 2.5, 10, -.5}; v[0] = p + t[r.below(5)]; return; }
    case DOFI: { static const double t[] = {0, 1, 2, 10}; v[0] = p + t[r.below(4)]; return; }
    case DOFXI: { v[0] = p - 2 + r.below(9); return; }
    case DOFX: { static const double t[] = {0, 1, 2.5, -1, -1.5, -.5, -2, 7}; v[0] = p + t[r.below(8)]; return; }
    default: { bool same = r.chance(.05); double x = 0; for (int i = 0; i < n; ++i) { if (!same || i == 0) x = draw1(d, r); v[i] = x; } }
    }
}

// ---------------------------------------------------------------- one environment: inputs of a case
struct Env {
    const Case& c; In in; std::vector<Buf> bv, ba;
    int dim(char s) const { return s == '1' ? 1 : s == 'n' ? in.n : s == 'p' ? in.p : s == 'q' ? in.q : s - '0'; }
    // share: the dimensions, constants and the value memory of viewing variables are those of another environment
    Env(const Case& c_, ref::Rng& r, const Env* share = nullptr) : c(c_) {
        static const int NS[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 16, 17, 33, 70};
        in.n = NS[r.chance(.85) ? r.below(10) : 10 + r.below(4)]; in.p = 1 + r.below(5); in.q = 1 + r.below(5);
        if (r.chance(.04)) in.p = 6 + r.below(6);
        if (r.chance(.04)) in.q = 6 + r.below(6);
#ifndef VF_SMALL
        if (r.chance(.02)) { int k = r.below(3); if (k != 1) in.n = 71 + r.below(450); if (k == 1) in.p = 12 + r.below(22); if (k == 1 && r.chance(.5)) in.q = 12 + r.below(22); }
        if ((c.flags & F_LONG) && r.chance(.004)) in.n = 600 + r.below(2000);
#endif
        if ((c.flags & F_MINP2) && in.p < 2) in.p = 2;
        if ((c.flags & F_NEEDN2) && in.n < 2) in.n = 2;
        if (share) { in.n = share->in.n; in.p = share->in.p; in.q = share->in.q; }
        in.s.resize(c.in.size()); bv.resize(c.in.size()); ba.resize(c.in.size());
        for (size_t i = 0; i < c.in.size(); ++i) {
            auto& sp = c.in[i]; auto& s = in.s[i]; s.sh = sp.shape; s.r = dim(sp.rd); s.c = dim(sp.cd);
            size_t n = size_t(s.r) * s.c;
            if (sp.role != CONST && sp.own) {
                if (sp.shape == S) { s.os = std::make_shared<ad::Var<double>>(); s.val = s.os->data(); s.adj = s.os->data_adj(); }
                else if (sp.shape == V) { s.ov = std::make_shared<ad::Var<double, ad::vec>>(size_t(s.r)); s.val = s.ov->data(); s.adj = s.ov->data_adj(); }
                else { s.om = std::make_shared<ad::Var<double, ad::mat>>(size_t(s.r), size_t(s.c)); s.val = s.om->data(); s.adj = s.om->data_adj(); }
            } else {
                bool sh = share && (sp.role == CONST || sp.role == VAR);
                if (sh) s.val = share->in.s[i].val; else { bv[i] = Buf(n, r); s.val = bv[i].p; }
                if (sp.role != CONST) { ba[i] = Buf(n, r); s.adj = ba[i].p; for (size_t k = 0; k < n; ++k) s.adj[k] = 0; } else s.adj = nullptr;
            }
            if (!share || !(sp.role == CONST || (sp.role == VAR && !sp.own))) draw(s.val, s.r, s.c, sp.dom, r, in.p);
            if (sp.role == CONST) {
                if (sp.shape == V) s.cv = Eigen::Map<Eigen::VectorXd>(s.val, s.r);
                if (sp.shape == M) s.cm = Eigen::Map<Eigen::MatrixXd>(s.val, s.r, s.c);
            }
        }
    }
    size_t size(size_t i) const { return size_t(in.s[i].r) * in.s[i].c; }
    // the sources of owned constants go away once the expression exists
    void scramble_sources() { for (auto& s : in.s) { if (s.cv.size()) s.cv.setConstant(std::nan("")); if (s.cm.size()) s.cm.setConstant(std::nan("")); } }
    void redraw(ref::Rng& r, bool values) {
        for (size_t i = 0; i < c.in.size(); ++i) {
            auto& sp = c.in[i]; auto& s = in.s[i]; size_t n = size(i);
            if (sp.role == CONST) continue;
            if (values || sp.role == HOLD) {
                if (sp.role == HOLD) for (size_t k = 0; k < n; ++k) s.val[k] = r.chance(.5) ? std::nan("") : r.uni(-9, 9);
                else draw(s.val, s.r, s.c, sp.dom, r, in.p);
            }
            bool z = sp.role == HOLD || sp.role == OPEQ || r.chance(.35);
            for (size_t k = 0; k < n; ++k) s.adj[k] = z ? 0. : r.chance(.1) ? 0. : r.uni(-2, 2);
        }
    }
    struct Snap { std::vector<std::vector<double>> v, a; };
    Snap snap() const { Snap o; for (size_t i = 0; i < c.in.size(); ++i) { auto& s = in.s[i]; o.v.emplace_back(s.val, s.val + size(i)); o.a.emplace_back(s.adj ? std::vector<double>(s.adj, s.adj + size(i)) : std::vector<double>()); } return o; }
    void restore(const Snap& o) { for (size_t i = 0; i < c.in.size(); ++i) { if (c.in[i].role == CONST) continue; std::copy(o.v[i].begin(), o.v[i].end(), in.s[i].val); std::copy(o.a[i].begin(), o.a[i].end(), in.s[i].adj); } }
    bool intact() { for (auto& b : bv) if (!b.intact()) return false; for (auto& b : ba) if (!b.intact()) return false; return true; }
    uint64_t digest() const {
        uint64_t h = 1469598103934665603ull;
        auto mix = [&](const void* p, size_t n) { const unsigned char* q = static_cast<const unsigned char*>(p); for (size_t i = 0; i < n; ++i) { h ^= q[i]; h *= 1099511628211ull; } };
        mix(c.name, std::strlen(c.name));
        for (size_t i = 0; i < c.in.size(); ++i) if (c.in[i].role != HOLD) { mix(&in.s[i].r, 4); mix(&in.s[i].c, 4); mix(in.s[i].val, 8 * size(i)); }
        return h;
    }
};

} // namespace vf
