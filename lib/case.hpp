// What a generated case looks like to the runner: inputs, a factory for the FastAD expression, and the
// reference program.  Included by every generated translation unit.
#pragma once
#include <fastad>
#include <fastad_bits/reverse/core/det.hpp>
#include <fastad_bits/reverse/core/log_det.hpp>
#include <cstring>
#include <memory>
#include <string>
#include <vector>
#include "ref.hpp"

namespace vf {

enum Shape { S, V, M };
enum Role { VAR,      // differentiable input that the expression only reads
            OPEQ,     // differentiable input that the expression modifies with += -= *= /=
            HOLD,     // placeholder
            CONST,    // constant (owned by the expression or viewed by it)
            IDLE };   // variable that takes no part in the expression
enum Dom { R, NZ, POS, UNIT, TAN, PROB, BIN, SPD, SND, SYM, GEN, ZEROS, ZPOW, SMALL, TIE,
           EANY, EEXP, EPOS, EUNIT, ETAN,                      // extremes of a domain
           FAR, EPOW, LO, XMID, HI, LOX, XX, HIX,                         // uniform: inside / anywhere
           EMAG, ESC, EPSC, EPROB, EGEN, ESPD, EGENX, ESPDX, ESPDW, ELO, EXMID, EHI, EDOF,   // very small and very large magnitudes
           PROBX, BINX, SCALEX, SPDX, SING, SINGSYM, DOF, DOFX, DOFI, DOFXI, INT, BOOL, NZINT };

struct InSpec {
    Role role; Shape shape; char rd, cd;    // dimension symbols: '1','n','p','q','P'
    Dom dom; bool own;                      // own: ad::Var, else ad::VarView over external memory
};

struct Mat {                                // plain column-major data
    int r = 1, c = 1; std::vector<double> d;
    Mat() {}
    Mat(int r, int c) : r(r), c(c), d(size_t(r) * c, 0.) {}
};

// The inputs of one run, as FastAD sees them.
struct In {
    struct Slot {
        Shape sh; int r, c; double* val; double* adj;
        std::shared_ptr<ad::Var<double>> os; std::shared_ptr<ad::Var<double, ad::vec>> ov; std::shared_ptr<ad::Var<double, ad::mat>> om;
        Eigen::VectorXd cv; Eigen::MatrixXd cm;
    };
    std::vector<Slot> s;
    int n = 1, p = 1, q = 1;                 // dimensions of this run
    // views over external memory
    ad::VarView<double> ws(int i) { return {s[i].val, s[i].adj}; }
    ad::VarView<double, ad::vec> wv(int i) { return {s[i].val, s[i].adj, size_t(s[i].r)}; }
    ad::VarView<double, ad::mat> wm(int i) { return {s[i].val, s[i].adj, size_t(s[i].r), size_t(s[i].c)}; }
    // owning variables
    ad::Var<double>& vs(int i) { return *s[i].os; }
    ad::Var<double, ad::vec>& vv(int i) { return *s[i].ov; }
    ad::Var<double, ad::mat>& vm(int i) { return *s[i].om; }
    // constants
    double ks(int i) { return *s[i].val; }
    const Eigen::VectorXd& kv(int i) { return s[i].cv; }
    const Eigen::MatrixXd& km(int i) { return s[i].cm; }
    auto kwv(int i) { return ad::constant_view(static_cast<const double*>(s[i].val), s[i].r); }
    auto kwm(int i) { return ad::constant_view(static_cast<const double*>(s[i].val), s[i].r, s[i].c); }
    Eigen::VectorXi kiv(int i) { return s[i].cv.cast<int>(); }
    int ki(int i) { return int(*s[i].val); }
    std::vector<int> idx(int k) const { std::vector<int> v(k); for (int i = 0; i < k; ++i) v[i] = i; return v; }
    Eigen::MatrixXi kim(int i) { return s[i].cm.cast<int>(); }
    Eigen::VectorXf kfv(int i) { return s[i].cv.cast<float>(); }
};

struct RIn {                                 // the same inputs on the reference tape
    ref::Tape* t; std::vector<ref::N> x; int n, p, q;
    std::vector<ref::N> fin;                 // final value of every OPEQ / HOLD input, by input index
    ref::N k(double v) { return t->leaf(1, 1, &v); }
};

struct IExpr {
    virtual ~IExpr() {}
    virtual void sizes(size_t& v, size_t& a) = 0;
    virtual void bind(double* v, double* a, double*& ov, double*& oa) = 0;
    virtual Mat feval() = 0;
    virtual void beval(const Mat& seed) = 0;
    virtual Mat autodiff(const Mat* seed) = 0;                // both on the manually bound expression
    // the convenience API: ad::bind owns the cache.  How: 0 autodiff(bound), 1 evaluate+evaluate_adj,
    // 2 autodiff of a temporary bound expression, 3 evaluate a temporary (value only), 4 copy of a bound one
    virtual void mkbound() = 0;
    virtual Mat bound(int how, const Mat* seed) = 0;
    virtual std::unique_ptr<IExpr> clone() = 0;
};

int& seed_changed();
const char*& accessor_problem();

template <class T> inline Mat to_mat(const T& x) {
    if constexpr (std::is_arithmetic_v<T>) { Mat m(1, 1); m.d[0] = double(x); return m; }
    else { Mat m(int(x.rows()), int(x.cols())); for (int j = 0; j < m.c; ++j) for (int i = 0; i < m.r; ++i) m.d[size_t(j) * m.r + i] = double(x(i, j)); return m; }
}

template <class E>
struct Holder : IExpr {
    E e; using B = std::decay_t<decltype(ad::bind(std::declval<const E&>()))>; std::unique_ptr<B> b;
    using shape_t = typename ad::util::shape_traits<E>::shape_t;
    static constexpr bool scl = std::is_same_v<shape_t, ad::scl>;
    explicit Holder(const E& x) : e(x) {}
    void sizes(size_t& v, size_t& a) override { auto p = e.bind_cache_size(); v = p(0); a = p(1); }
    void bind(double* v, double* a, double*& ov, double*& oa) override {
        auto p = e.bind_cache(ad::util::PtrPack<double>(v, a)); ov = p.val; oa = p.adj;
    }
    template <class F> static auto with_seed(const Mat& s, F f) {
        if constexpr (scl) return f(s.d[0]);
        else if constexpr (std::is_same_v<shape_t, ad::vec>) {
            Eigen::ArrayXd a = Eigen::Map<const Eigen::ArrayXd>(s.d.data(), s.r); auto r = f(a);
            if (std::memcmp(a.data(), s.d.data(), sizeof(double) * s.d.size())) ++seed_changed();
            return r; }
        else {
            Eigen::ArrayXXd a = Eigen::Map<const Eigen::ArrayXXd>(s.d.data(), s.r, s.c); auto r = f(a);
            if (std::memcmp(a.data(), s.d.data(), sizeof(double) * s.d.size())) ++seed_changed();
            return r; }
    }
    // after a forward pass the accessors of the expression show what the pass returned
    template <class X> static auto elem(const X& x, size_t i, size_t j, int) -> decltype(double(x.get(i, j))) { return double(x.get(i, j)); }
    template <class X> static double elem(const X& x, size_t i, size_t j, long) { return to_mat(x.get()).d[j * size_t(x.rows()) + i]; }
    template <class X> static void accessors(const X& x, const Mat& r) {
        auto eq = [](double a, double b) { return a == b || (a != a && b != b); };
        if (size_t(x.rows()) != size_t(r.r) || size_t(x.cols()) != size_t(r.c) || size_t(x.size()) != r.d.size()) { accessor_problem() = "rows(), cols() or size() disagree with the value"; return; }
        Mat g = to_mat(x.get());
        if (g.r != r.r || g.c != r.c) { accessor_problem() = "get() has another shape than the value"; return; }
        for (size_t i = 0; i < r.d.size(); ++i) if (!eq(g.d[i], r.d[i])) { accessor_problem() = "get() is not the value"; return; }
        for (int j = 0; j < r.c; ++j) for (int i = 0; i < r.r; ++i) if (!eq(elem(x, size_t(i), size_t(j), 0), r.d[size_t(j) * r.r + i])) { accessor_problem() = "get(i,j) is not the element of the value"; return; }
    }
    Mat feval() override { Mat r = to_mat(ad::evaluate(e)); accessors(e, r); return r; }
    void beval(const Mat& s) override { with_seed(s, [&](const auto& a) { ad::evaluate_adj(e, a); return 0; }); }
    Mat autodiff(const Mat* s) override {
        if constexpr (scl) { if (!s) return to_mat(ad::autodiff(e)); }
        return with_seed(*s, [&](const auto& a) { return to_mat(ad::autodiff(e, a)); });
    }
#ifndef VF_LEAN
    void mkbound() override { b.reset(new B(ad::bind(e))); }
    Mat bound(int how, const Mat* s) override {
        if (how == 1) { Mat r = to_mat(ad::evaluate(*b)); with_seed(*s, [&](const auto& a) { ad::evaluate_adj(*b, a); return 0; }); return r; }
        if (how == 2) { return with_seed(*s, [&](const auto& a) { auto r = ad::autodiff(ad::bind(e), a); return to_mat(r); }); }
        if (how == 3) { auto r = ad::evaluate(ad::bind(e)); return to_mat(r); }
        if (how == 4) { auto c = std::make_unique<B>(*b); b.reset(); return with_seed(*s, [&](const auto& a) { return to_mat(ad::autodiff(*c, a)); }); }
        if constexpr (scl) { if (!s) return to_mat(ad::autodiff(*b)); }
        return with_seed(*s, [&](const auto& a) { return to_mat(ad::autodiff(*b, a)); });
    }
#else
    void mkbound() override {}
    Mat bound(int, const Mat*) override { return Mat(); }
#endif
    std::unique_ptr<IExpr> clone() override { return std::unique_ptr<IExpr>(new Holder(e)); }
};
template <class E> std::unique_ptr<IExpr> hold(const E& e) { return std::unique_ptr<IExpr>(new Holder<E>(e)); }

struct Case {
    const char* name;
    std::vector<InSpec> in;
    char rd, cd;                              // shape of the result
    std::unique_ptr<IExpr> (*make)(In&);
    ref::N (*rf)(RIn&);
    unsigned flags = 0;
};
enum Flags { F_MINP2 = 1,      // p >= 2
             F_ASSIGN = 2,     // contains placeholders or compound assignments
             F_NOBOUND = 4,    // the ad::bind routes do not apply
             F_FOLD = 8,       // only constants: the expression is a constant itself
             F_NEEDN2 = 16,    // n >= 2
             F_SCL = 32,       // the result has scalar shape
             F_NZSEED = 64,    // no zero seeds (nodes may prune the assignments they contain)
             F_LONG = 128 };   // nothing that accumulates over a range by multiplying: very long vectors cannot over- or underflow it
std::vector<Case>& registry();
struct Reg { Reg(Case c) { registry().push_back(std::move(c)); } };

} // namespace vf
