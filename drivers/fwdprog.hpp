#pragma once
#include "fwd.hpp"
#include <functional>
#include <numeric>
namespace fw {
constexpr int NV = 6;
using FD = ad::ForwardVar<double>; using FF = ad::ForwardVar<float>; using FL = ad::ForwardVar<long double>;
struct Prog { const char* name; int n; std::vector<unsigned> lhs; void (*rd)(rd::RD*, int); void (*d)(FD*, int); void (*f)(FF*, int); void (*l)(FL*, int); char dom = 0; };
std::vector<Prog>& progs();
struct Reg { Reg(Prog p) { progs().push_back(std::move(p)); } };
// where the address of the left side matters
template <class T> void same_object(T& a, T& b) { EXPECT("ALIAS", &a == &b, "x += y does not return x"); }
template <class T> T by_value(T a, T b) { using namespace ad; using namespace rd; a += b; return a * b; }
template <class T> T by_ref(const T& a, const T& b) { using namespace ad; using namespace rd; T c = a; c += a; c += b; return c; }
template <class T> void accumulate(T& t, const T& a) { t += a; }
} // namespace fw
