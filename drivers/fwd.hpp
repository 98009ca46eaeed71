// Reference for scalar programs: (value, derivative) pairs in long double with optional relative perturbation of every operation.
#pragma once
#include <fastad>
#include <array>
#include <cmath>
#include "drv.hpp"

namespace rd {
// draws at and beyond the usual scale: 'P' positive, 'U' within [-1, 1], 'E' within the range of exp, 'T' away from the poles of tan, 'A' anything
inline double extreme(char dom, drv::Rng& r, bool narrow = false) {
    double s = r.chance(.5) ? 1 : -1, m = std::pow(10., r.uni(-14, 0)); int k = r.below(4);
    switch (dom) {
    case 'P': return k == 0 ? r.uni(.01, 5) : k == 1 ? std::pow(10., narrow ? r.uni(-6, 6) : r.uni(-30, 30)) : k == 2 ? std::pow(10., narrow ? r.uni(-3, 3) : r.uni(-10, 10)) : 1 + s * m;
    case 'U': return k == 0 ? r.uni(-1, 1) : k == 1 ? s * (1 - std::pow(10., r.uni(-9, 0))) : k == 2 ? s * m : 0.;
    case 'E': return k == 0 ? r.uni(-5, 5) : k == 1 ? s * r.uni(5, 60) : k == 2 ? s * m : 0.;
    case 'T': return k == 0 ? r.uni(-1.5, 1.5) : k == 1 ? s * m : k == 2 ? s * (1.5707 - std::pow(10., r.uni(-4, 0))) : 3.141592653589793 * s + r.uni(-1.2, 1.2);
    default: return k == 0 ? r.uni(-5, 5) : k == 1 ? s * std::pow(10., r.uni(0, narrow ? 3 : 12)) : k == 2 ? s * std::pow(10., r.uni(narrow ? -5 : -25, 0)) : 0.;
    }
}
using LD = long double;
struct Ctx { LD amp = 0; drv::Rng r{1}; };
inline Ctx& ctx() { static Ctx c; return c; }
inline LD jit(LD x) { return ctx().amp ? x * (1 + ctx().amp * LD(ctx().r.uni(-1, 1))) : x; }
struct RD { LD v = 0, d = 0; RD() {} RD(double x) : v(x) {} RD(LD v, LD d) : v(v), d(d) {}
    RD& operator+=(const RD& o); };
inline RD mk(LD v, LD d) { return RD(jit(v), jit(d)); }
inline RD operator+(const RD& a, const RD& b) { return mk(a.v + b.v, a.d + b.d); }
inline RD operator-(const RD& a, const RD& b) { return mk(a.v - b.v, a.d - b.d); }
inline RD operator*(const RD& a, const RD& b) { return mk(a.v * b.v, jit(a.d * b.v) + jit(a.v * b.d)); }
inline RD operator/(const RD& a, const RD& b) { LD q = a.v / b.v; return mk(q, jit(a.d / b.v) - jit(q * b.d / b.v)); }
inline RD& RD::operator+=(const RD& o) { return *this = *this + RD(o); }
inline RD operator-(const RD& a) { return RD(-a.v, -a.d); }
// arguments are perturbed as well: a function of a rounded argument may legitimately use any nearby one
inline RD arg(const RD& a) { return RD(jit(a.v), a.d); }
inline RD sin(const RD& a0) { RD a = arg(a0); return mk(sinl(a.v), cosl(a.v) * a.d); }
inline RD cos(const RD& a0) { RD a = arg(a0); return mk(cosl(a.v), -sinl(a.v) * a.d); }
inline RD tan(const RD& a0) { RD a = arg(a0); LD t = tanl(a.v); return mk(t, (1 + t * t) * a.d); }
inline RD asin(const RD& a0) { RD a = arg(a0); return mk(asinl(a.v), a.d / sqrtl((1 - a.v) * (1 + a.v))); }
inline RD acos(const RD& a0) { RD a = arg(a0); return mk(acosl(a.v), -a.d / sqrtl((1 - a.v) * (1 + a.v))); }
inline RD atan(const RD& a0) { RD a = arg(a0); return mk(atanl(a.v), a.d / (1 + a.v * a.v)); }
inline RD exp(const RD& a0) { RD a = arg(a0); LD e = expl(a.v); return mk(e, e * a.d); }
inline RD log(const RD& a0) { RD a = arg(a0); return mk(logl(a.v), a.d / a.v); }
inline RD sqrt(const RD& a0) { RD a = arg(a0); LD s = sqrtl(a.v); return mk(s, a.d / (2 * s)); }
inline RD erf(const RD& a0) { RD a = arg(a0); return mk(erfl(a.v), 1.128379167095512573896158903121545172L * expl(-a.v * a.v) * a.d); }
struct Out { LD v, d, tv, td; bool ok; };
} // namespace rd
