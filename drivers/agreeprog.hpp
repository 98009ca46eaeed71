#pragma once
#include "fwd.hpp"
namespace ag {
constexpr int NX = 4;
using FD = ad::ForwardVar<double>; using RV = ad::Var<double>;
struct IRev { virtual ~IRev() {} virtual double run(double seed, int how) = 0; };
template <class B> struct Rev : IRev { B b; explicit Rev(const B& b) : b(b) {}
    double run(double seed, int how) override { if (how == 0) return ad::autodiff(b, seed); double v = ad::evaluate(b); ad::evaluate_adj(b.get(), seed); return v; } };
template <class B> std::unique_ptr<IRev> rev(const B& b) { return std::make_unique<Rev<B>>(b); }
struct Prog { const char* name; FD (*f)(FD*); rd::RD (*r)(rd::RD*); std::unique_ptr<IRev> (*m)(RV*, RV*); char dom = 0; };
std::vector<Prog>& progs();
struct Reg { Reg(Prog p) { progs().push_back(p); } };
inline auto K(double x) { return ad::constant(x); }
} // namespace ag
