// Constants as objects: what they hold, how they fold, that they are values, next to plain numbers of every type.
#include "drv.hpp"
#include <fastad>
#include <type_traits>
using namespace drv;
namespace {
using D = double;
template <class X> constexpr bool is_const = ad::util::is_constant_v<std::decay_t<X>>;
struct Src { int p, q; std::vector<D> d; Eigen::MatrixXd m() const { return Eigen::Map<const Eigen::MatrixXd>(d.data(), p, q); } Eigen::VectorXd v() const { return Eigen::Map<const Eigen::VectorXd>(d.data(), p * q); } };
Src draw(Rng& r, D lo = -3, D hi = 3) {
    Src s; s.p = 1 + r.below(6); s.q = 1 + r.below(6); int k = r.below(6); if (k == 0) s.p = 1; if (k == 1) s.q = 1; if (k == 2) { s.p = 1 + r.below(30); s.q = 1 + r.below(3); }
    s.d.resize(size_t(s.p * s.q)); for (auto& x : s.d) { x = r.chance(.1) ? double(int(r.uni(lo, hi))) : r.uni(lo, hi); mix(x); } mix(uint64_t(s.p * 64 + s.q)); return s;
}
// everything readable of a constant agrees with the source
template <class K> void reads(const K& k, const Src& s, bool vec, const char* what) {
    size_t p = size_t(vec ? s.p * s.q : s.p), q = size_t(vec ? 1 : s.q);
    EXPECT("SHAPE", size_t(k.rows()) == p && size_t(k.cols()) == q && size_t(k.size()) == p * q, "%s: shape is %zux%zu (%zu)", what, size_t(k.rows()), size_t(k.cols()), size_t(k.size()));
    for (size_t j = 0; j < q; ++j) for (size_t i = 0; i < p; ++i) { D x = s.d[j * p + i];
        EXPECT("READ", D(k.get(i, j)) == x && D(k.get()(Eigen::Index(i), Eigen::Index(j))) == x && D(k.data()[j * p + i]) == x && D(k.feval()(Eigen::Index(i), Eigen::Index(j))) == x, "%s: element %zu,%zu is %.17g instead of %.17g", what, i, j, D(k.get(i, j)), x); }
    auto pk = k.bind_cache_size(), sp = k.single_bind_cache_size(); EXPECT("NOCACHE", pk(0) == 0 && pk(1) == 0 && sp(0) == 0 && sp(1) == 0, "%s needs cache", what);
    D a[2] = {1, 2}; ad::util::PtrPack<D> b(a, a + 1); auto c = k.bind_cache(b); EXPECT("NOCACHE", c.val == a && c.adj == a + 1 && a[0] == 1 && a[1] == 2, "%s moves the pointers of a cache", what);
    saw("constants read");
}
template <class K> void same_values(const K& k, const Eigen::MatrixXd& w, const char* what) {
    EXPECT("FOLD", k.rows() == size_t(w.rows()) && k.cols() == size_t(w.cols()), "%s: shape %zux%zu", what, size_t(k.rows()), size_t(k.cols()));
    for (int j = 0; j < w.cols(); ++j) for (int i = 0; i < w.rows(); ++i) EXPECT("FOLD", close(k.get(size_t(i), size_t(j)), w(i, j)) || (std::isnan(w(i, j)) && std::isnan(k.get(size_t(i), size_t(j)))), "%s: element %d,%d is %.17g instead of %.17g", what, i, j, D(k.get(size_t(i), size_t(j))), w(i, j));
}
SCENARIO(owned_matrix) {
    Src s = draw(r); auto m = std::make_unique<Eigen::MatrixXd>(s.m()); auto k = ad::constant(*m);
    static_assert(is_const<decltype(k)>, "a constant"); reads(k, s, false, "constant(matrix)");
    m->setConstant(NAN); m.reset(); reads(k, s, false, "constant(matrix), source gone");
    auto k2 = k; auto k3 = std::move(k2); { auto tmp = std::make_unique<decltype(k)>(k3); k = *tmp; } reads(k, s, false, "assigned constant"); reads(k3, s, false, "moved constant");
    reads(ad::constant(s.m()), s, false, "constant(temporary)"); reads(ad::constant((s.m() * 2.) / 2.), s, false, "constant(Eigen expression)"); reads(ad::constant(s.m().transpose().eval().transpose()), s, false, "constant(transposed)");
    if (s.p > 1 && s.q > 1) { Eigen::MatrixXd big = Eigen::MatrixXd::Random(s.p + 2, s.q + 1); big.block(1, 1, s.p, s.q) = s.m(); reads(ad::constant(big.block(1, 1, s.p, s.q).eval()), s, false, "constant(block)"); }
    eval(5);
}
SCENARIO(owned_vector) {
    Src s = draw(r); auto v = std::make_unique<Eigen::VectorXd>(s.v()); auto k = ad::constant(*v); reads(k, s, true, "constant(vector)"); (*v) *= 2.; v.reset(); reads(k, s, true, "constant(vector), source gone");
    Src t = draw(r); auto l = ad::constant(t.v()); auto c = k; k = l; reads(k, t, true, "assigned constant"); reads(c, s, true, "copy of a constant assigned later"); std::swap(k, c); reads(k, s, true, "swapped constant"); reads(c, t, true, "swapped constant"); eval(4);
}
SCENARIO(viewed) {
    Src s = draw(r), t = s; auto w = ad::constant_view(static_cast<const D*>(t.d.data()), size_t(s.p), size_t(s.q)); auto v = ad::constant_view(static_cast<const D*>(t.d.data()), s.d.size());
    static_assert(is_const<decltype(w)> && is_const<decltype(v)>, "a constant"); reads(w, s, false, "constant_view(matrix)"); reads(v, s, true, "constant_view(vector)");
    for (auto& x : s.d) x = r.uni(-3, 3); t.d = s.d;                            // a view shows what the memory holds now
    { const D* was = w.data(); EXPECT("READ", was == t.d.data(), "a constant view does not view"); } reads(w, s, false, "constant_view, memory changed"); auto w2 = w; reads(w2, s, false, "copied constant_view");
    ad::Var<D> x(r.uni(-2, 2)); mix(x.get()); auto e = ad::bind(ad::sum(w * x)); D sum = 0; for (D d : s.d) sum += d;
    D got = ad::autodiff(e); EXPECT("EVALUATE", close(got, sum * x.get(), 30) && close(x.get_adj(), sum, 30), "sum(view * x) is %.17g", got);
    sum = 0; for (size_t i = 0; i < s.d.size(); ++i) sum += t.d[i] = s.d[i] = r.uni(-3, 3); x.reset_adj(); got = ad::autodiff(e); EXPECT("EVALUATE", close(got, sum * x.get(), 30) && close(x.get_adj(), sum, 30), "after the viewed memory changed, sum(view * x) is %.17g instead of %.17g", got, sum * x.get()); eval(2);
}
SCENARIO(scalars) {
    D d = r.uni(-5, 5); mix(d); int i = r.below(11) - 5; float f = float(d); bool b = r.chance(.5); long l = i * 3; unsigned u = unsigned(r.below(9)); mix(uint64_t(i + 50)); mix(uint64_t(b)); 
    auto kd = ad::constant(d); auto ki = ad::constant(i); auto kf = ad::constant(f); auto kb = ad::constant(b); auto kl = ad::constant(l); auto ku = ad::constant(u);
    EXPECT("READ", kd.get() == d && kd.get(0, 0) == d && *kd.data() == d && kd.feval() == d && kd.rows() == 1 && kd.cols() == 1 && kd.size() == 1, "constant(double)");
    EXPECT("READ", ki.get() == i && kf.get() == f && kb.get() == b && kl.get() == l && ku.get() == u, "constants of other types");
    ad::Var<D> x(r.uni(.5, 2)); D v = x.get(); mix(v);
    auto chk = [&](auto&& e, D want, D grad, const char* what) { x.reset_adj(); auto bd = ad::bind(e); D got = ad::autodiff(bd); eval(); EXPECT("EVALUATE", close(got, want) && close(x.get_adj(), grad), "%s: %.17g, %.17g instead of %.17g, %.17g", what, got, x.get_adj(), want, grad); saw("numbers of every type"); };
    chk(x * d + d, v * d + d, d, "x*d+d"); chk(d - x / (d * d + 1), d - v / (d * d + 1), -1 / (d * d + 1), "d - x/.."); chk(x * i + i, v * i + i, i, "x*i+i"); chk(i / x, i / v, -i / (v * v), "i/x"); chk(x * f - f, v * D(f) - D(f), f, "x*f-f");
    chk(x * b, v * b, b, "x*bool"); chk(x + l, v + D(l), 1, "x+long"); chk(u * x, u * v, u, "unsigned*x"); chk(x * ki + kd, v * i + d, i, "x*ki+kd"); chk(kl / x, D(l) / v, -D(l) / (v * v), "kl/x"); chk(kf * x * ku, D(f) * v * u, D(f) * u, "kf*x*ku"); chk(kb * x, b * v, b, "kb*x"); chk(x * short(i), v * i, i, "x*short"); chk(x - char(3), v - 3, 1, "x-char"); chk(x * 1e300 * 1e-300, v * 1e300 * 1e-300, 1, "big");
    chk(ad::pow<2>(kd) * x, d * d * v, d * d, "pow<2>(k)*x"); chk(ad::if_else(kd < x, x, kd * x), d < v ? v : d * v, d < v ? 1 : d, "if_else with a constant in the condition"); chk(ad::if_else(kb, x * x, x), b ? v * v : v, b ? 2 * v : 1, "if_else(constant bool)");
    chk(ad::if_else(b, x * x, x), b ? v * v : v, b ? 2 * v : 1, "if_else(bool)");
    chk(ad::if_else(kd < ki, x, -x), d < i ? v : -v, d < i ? 1 : -1, "if_else(constant comparison)");
    // integer division does not happen: the numbers become the value type of the other operand
    int m = 1 + r.below(5); chk((x + m) / (m + 1), (v + m) / (m + 1), 1. / (m + 1), "integers next to x"); chk(x * ad::constant(1) / ad::constant(m), v / m, 1. / m, "integer constants next to x");
}
SCENARIO(folding) {
    Src s = draw(r, .1, 2.), t = s; for (auto& x : t.d) { x = r.uni(.2, 2); mix(x); } auto a = ad::constant(s.m()), b = ad::constant(t.m()); auto w = ad::constant_view(static_cast<const D*>(t.d.data()), size_t(s.p), size_t(s.q)); D c = r.uni(.3, 2); mix(c); auto k = ad::constant(c);
    Eigen::ArrayXXd A = s.m().array(), B = t.m().array();
    auto fold = [&](auto&& e, const Eigen::MatrixXd& want, const char* what) { static_assert(is_const<decltype(e)>, "operations on constants are constants"); same_values(e, want, what); saw("foldings"); eval(); };
    fold(a + b, (A + B).matrix(), "a+b"); fold(a - w, (A - B).matrix(), "a-w"); fold(w * a, (A * B).matrix(), "w*a"); fold(a / b, (A / B).matrix(), "a/b"); fold(k * a, (c * A).matrix(), "k*a"); fold(a / k, (A / c).matrix(), "a/k"); fold(k - w, (c - B).matrix(), "k-w"); fold(a + 2., (A + 2.).matrix(), "a+2."); fold(1. / w, (1. / B).matrix(), "1/w"); fold(3 * a, (3. * A).matrix(), "3*a");
    fold(ad::sin(a), A.sin().matrix(), "sin"); fold(ad::exp(w), B.exp().matrix(), "exp"); fold(ad::log(a), A.log().matrix(), "log"); fold(ad::sqrt(w), B.sqrt().matrix(), "sqrt"); fold(-a, (-A).matrix(), "neg"); fold(ad::tanh(a), A.tanh().matrix(), "tanh"); fold(ad::pow<3>(a), A.cube().matrix(), "pow<3>"); fold(ad::pow<-1>(w), (1. / B).matrix(), "pow<-1>");
    fold(ad::transpose(a), s.m().transpose(), "transpose"); fold(ad::dot(ad::transpose(a), w), s.m().transpose() * t.m(), "dot");
    auto scalar = [&](auto&& e, D want, const char* what) { static_assert(is_const<decltype(e)>, "operations on constants are constants"); EXPECT("FOLD", close(e.get(), want, 1 + std::fabs(want)), "%s is %.17g instead of %.17g", what, D(e.get()), want); eval(); saw("foldings"); };
    scalar(ad::sum(a), A.sum(), "sum"); scalar(ad::prod(w), B.prod(), "prod"); scalar(ad::norm(a), A.square().sum(), "norm"); scalar(ad::sum(a * b) / k + 1., (A * B).sum() / c + 1, "sum(a*b)/k+1"); scalar(ad::sin(k) * k - k / 2., std::sin(c) * c - c / 2, "scalars"); scalar(ad::norm(ad::sin(w) - k), (B.sin() - c).square().sum(), "norm(sin(w)-k)");
    // a folded constant owns its value
    auto keep = [&] { std::vector<D> gone = t.d; auto g = ad::constant_view(static_cast<const D*>(gone.data()), size_t(s.p), size_t(s.q)); auto e = ad::exp(g) * 2. + g; for (auto& x : gone) x = NAN; return e; }();
    same_values(keep, (B.exp() * 2. + B).matrix(), "a folded constant after its source died"); auto tr = [&] { std::vector<D> gone = t.d; auto e = ad::transpose(ad::constant_view(static_cast<const D*>(gone.data()), size_t(s.p), size_t(s.q))); for (auto& x : gone) x = NAN; return e; }(); same_values(tr, t.m().transpose(), "a folded transpose after its source died");
    EXPECT("INDEPENDENT", t.d.size() == s.d.size(), "sizes"); reads(a, s, false, "operand of folding"); reads(w, t, false, "operand of folding");
}
SCENARIO(next_to_variables) {
    Src s = draw(r, .2, 2.); auto a = ad::constant(s.m()); ad::Var<D, ad::mat> X(size_t(s.p), size_t(s.q)); for (int j = 0; j < s.q; ++j) for (int i = 0; i < s.p; ++i) { X.get()(i, j) = r.uni(.3, 2); mix(X.get()(i, j)); }
    Eigen::ArrayXXd A = s.m().array(), x = X.get().array();
    auto chk = [&](auto&& e, D want, const Eigen::ArrayXXd& g, const char* what) { X.reset_adj(); auto b = ad::bind(e); D got = ad::autodiff(b); eval(); EXPECT("EVALUATE", close(got, want, 1 + std::fabs(want)), "%s: value %.17g instead of %.17g", what, got, want);
        for (int j = 0; j < s.q; ++j) for (int i = 0; i < s.p; ++i) EXPECT("SLOTS", close(X.get_adj()(i, j), g(i, j), 1 + std::fabs(g(i, j))), "%s: adjoint %d,%d is %.17g instead of %.17g", what, i, j, X.get_adj()(i, j), g(i, j)); reads(a, s, false, what); };
    chk(ad::sum(X * a), (x * A).sum(), A, "sum(X*a)"); chk(ad::sum(a / X), (A / x).sum(), -A / x.square(), "sum(a/X)"); chk(ad::prod(X * a), (x * A).prod(), (x * A).prod() / x, "prod(X*a)"); chk(ad::norm(X - a), (x - A).square().sum(), 2 * (x - A), "norm(X-a)");
    chk(ad::sum(ad::dot(ad::transpose(a), X)), (s.m().transpose() * X.get()).sum(), (s.m().rowwise().sum().replicate(1, s.q)).array(), "sum(dot(a',X))"); chk(ad::sum(ad::dot(X, ad::transpose(a))), (X.get() * s.m().transpose()).sum(), (s.m().colwise().sum().replicate(s.p, 1)).array(), "sum(dot(X,a'))");
    chk(ad::sum(ad::transpose(X) + ad::transpose(a) * 2.), x.sum() + 2 * A.sum(), Eigen::ArrayXXd::Constant(s.p, s.q, 1.), "sum(X'+2a')");
    { std::vector<D> mem = s.d; auto w = ad::constant_view(static_cast<const D*>(mem.data()), size_t(s.p), size_t(s.q)); chk(ad::prod(w + X), (x + A).prod(), (x + A).prod() / (x + A), "prod(w+X)"); EXPECT("READ", mem == s.d, "an evaluation wrote to a constant view's memory"); }
    ad::Var<D, ad::mat> P(size_t(s.p), size_t(s.q)); chk((P = a, ad::sum(P * X)), (x * A).sum(), A, "P=a, sum(P*X)");
}
SCENARIO(data_of_statistics) {
    int n = 1 + r.below(12); Eigen::VectorXd y(n); for (int i = 0; i < n; ++i) { y(i) = r.uni(-2, 2); mix(y(i)); } ad::Var<D> mu(r.uni(-1, 1)), sg(r.uni(.5, 2)); mix(mu.get()); mix(sg.get());
    auto e = ad::bind(ad::normal_adj_log_pdf(ad::constant(y), mu, sg)); D got = ad::autodiff(e); D m = mu.get(), s = sg.get(), v = -n * std::log(s), dm = 0, ds = -n / s; for (int i = 0; i < n; ++i) { D z = (y(i) - m) / s; v -= z * z / 2; dm += z / s; ds += z * z / s; }
    EXPECT("EVALUATE", close(got, v, n) && close(mu.get_adj(), dm, n) && close(sg.get_adj(), ds, n * 10), "normal with constant data: %.17g, %.17g, %.17g instead of %.17g, %.17g, %.17g", got, mu.get_adj(), sg.get_adj(), v, dm, ds);
    const Eigen::VectorXd z = y; mu.reset_adj(); sg.reset_adj(); auto f = ad::bind(ad::normal_adj_log_pdf(ad::constant_view(z.data(), size_t(n)), mu, sg)); EXPECT("EVALUATE", ad::autodiff(f) == got && z == y, "normal with viewed data"); eval(2);
    // a plain number of any type as a parameter
    int k = 1 + r.below(3); mu.reset_adj(); auto g = ad::bind(ad::normal_adj_log_pdf(mu, 0, k)); D gv = ad::autodiff(g); EXPECT("EVALUATE", close(gv, -.5 * m * m / (k * k) - std::log(D(k))) && close(mu.get_adj(), -m / (k * k)), "normal(mu, 0, %d) is %.17g", k, gv); eval();
}
} // namespace
int main(int argc, char** argv) { return drv::run(argc, argv); }
