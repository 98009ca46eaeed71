// Ownership and viewing: Vars through copy, move, assignment, swap and containers; VarViews and subviews over foreign
// memory; expressions and bound expressions that outlive what they were made from.
#include <fastad>
#include <algorithm>
#include <deque>
#include <list>
#include <numeric>
#include <utility>
#include "drv.hpp"
using namespace drv;

namespace {
// ------------------------------------------------------------------ a Var and what it has to contain
template <class V> struct Tr;
template <class T> struct Tr<ad::Var<T, ad::scl>> { using T_ = T; static ad::Var<T, ad::scl> make(int, int, Rng& r) { if (r.chance(.5)) return ad::Var<T, ad::scl>(); return ad::Var<T, ad::scl>(T(0)); } static void dims(Rng&, int& a, int& b) { a = b = 1; } };
template <class T> struct Tr<ad::Var<T, ad::vec>> { using T_ = T; static ad::Var<T, ad::vec> make(int a, int, Rng&) { return ad::Var<T, ad::vec>(size_t(a)); } static void dims(Rng& r, int& a, int& b) { a = 1 + r.below(9); b = 1; } };
template <class T> struct Tr<ad::Var<T, ad::mat>> { using T_ = T; static ad::Var<T, ad::mat> make(int a, int b, Rng&) { return ad::Var<T, ad::mat>(size_t(a), size_t(b)); } static void dims(Rng& r, int& a, int& b) { a = 1 + r.below(4); b = 1 + r.below(4); } };
template <class V> auto& gv(V& v, int i, int j) { return v.get(size_t(i), size_t(j)); }
template <class V> auto& ga(V& v, int i, int j) { return v.get_adj(size_t(i), size_t(j)); }
struct Model { std::vector<double> v, a; };

template <class V, class C>                      // C: the container of the Vars
struct Pool {
    using T = typename Tr<V>::T_;
    C vars; std::vector<Model> m; int R, Cc; const char* last = "made";
    size_t n() const { return size_t(R) * Cc; }
    void check() {
        EXPECT("CONTENTS", vars.size() == m.size(), "%zu variables instead of %zu", vars.size(), m.size());
        std::vector<std::pair<const T*, const T*>> spans; size_t k = 0;
        for (auto& x : vars) {
            bool dim = int(x.rows()) == R && int(x.cols()) == Cc && x.size() == n();
            EXPECT("CONTENTS", dim, "after %s: shape is %zux%zu instead of %dx%d", last, size_t(x.rows()), size_t(x.cols()), R, Cc);
            if (!dim) return;
            const V& cx = x;
            for (int j = 0; j < Cc; ++j) for (int i = 0; i < R; ++i) {
                size_t q = size_t(j) * R + i;
                EXPECT("CONTENTS", double(gv(x, i, j)) == m[k].v[q] && double(x.data()[q]) == m[k].v[q] && double(cx.get(size_t(i), size_t(j))) == m[k].v[q], "after %s: variable %zu value(%d,%d) is %g instead of %g", last, k, i, j, double(gv(x, i, j)), m[k].v[q]);
                EXPECT("CONTENTS", double(ga(x, i, j)) == m[k].a[q] && double(x.data_adj()[q]) == m[k].a[q] && double(cx.get_adj(size_t(i), size_t(j))) == m[k].a[q], "after %s: variable %zu adjoint(%d,%d) is %g instead of %g", last, k, i, j, double(ga(x, i, j)), m[k].a[q]);
            }
            spans.push_back({x.data(), x.data() + n()}); spans.push_back({x.data_adj(), x.data_adj() + n()}); ++k;
        }
        std::sort(spans.begin(), spans.end());
        for (size_t i = 1; i < spans.size(); ++i) EXPECT("INDEPENDENT", spans[i - 1].second <= spans[i].first, "after %s: two variables share memory", last);
    }
    V& at(size_t i) { auto it = vars.begin(); std::advance(it, long(i)); return *it; }
    T num(Rng& r) { T x = T(r.below(4001) - 2000) / T(64); mix(double(x)); return x; }
    void write(size_t k, Rng& r) {
        V& x = at(k); int i = r.below(R), j = r.below(Cc); size_t q = size_t(j) * R + i; T z = num(r);
        switch (r.below(6)) {
        case 0: gv(x, i, j) = z; m[k].v[q] = double(z); last = "write get(i,j)"; break;
        case 1: x.data()[q] = z; m[k].v[q] = double(z); last = "write data()"; break;
        case 2: ga(x, i, j) = z; m[k].a[q] = double(z); last = "write get_adj(i,j)"; break;
        case 3: x.data_adj()[q] = z; m[k].a[q] = double(z); last = "write data_adj()"; break;
        case 4: if constexpr (std::is_arithmetic_v<std::decay_t<decltype(x.get())>>) { x.get() = z; } else { x.get().setConstant(z); } for (auto& y : m[k].v) y = double(z); last = "write get()"; break;
        default: if constexpr (std::is_arithmetic_v<std::decay_t<decltype(x.get())>>) { x.get_adj() = z; } else { x.get_adj().setConstant(z); } for (auto& y : m[k].a) y = double(z); last = "write get_adj()"; break;
        }
    }
    static V pass(V v) { return v; }                                       // by value, in and out
    V fresh(Rng& r, Model& mm) { V v = Tr<V>::make(R, Cc, r); mm.v.assign(n(), 0.); mm.a.assign(n(), 0.); for (size_t q = 0; q < n(); ++q) { T z = num(r); v.data()[q] = z; mm.v[q] = double(z); } return v; }
    void add(Rng& r) { Model mm; V v = fresh(r, mm); m.push_back(mm);
        switch (r.below(4)) {
        case 0: vars.push_back(v); last = "push_back(copy)"; v.data()[0] = T(-777); v.data_adj()[0] = T(-778); break;
        case 1: vars.push_back(std::move(v)); last = "push_back(move)"; break;
        case 2: vars.push_back(pass(v)); last = "push_back(returned)"; break;
        default: vars.emplace_back(pass(pass(std::move(v)))); last = "emplace_back(passed twice)"; } }
    void check_fresh(Rng& r) { V v = Tr<V>::make(R, Cc, r); for (size_t q = 0; q < n(); ++q) EXPECT("CONTENTS", v.data()[q] == 0 && v.data_adj()[q] == 0, "a new variable is not zero"); }
    // sum over elements of (x*y + sin(x)), gradients added to both
    void evaluate(Rng& r) {
        if (m.empty()) return;
        size_t a = size_t(r.below(int(m.size()))), b = size_t(r.below(int(m.size())));
        V &x = at(a), &y = at(b); double want = 0; double seed = r.below(9) - 4;
        for (size_t q = 0; q < n(); ++q) want += m[a].v[q] * m[b].v[q] + std::sin(m[a].v[q]);
        double got; const double lim = sizeof(T) == 4 ? 2e-3 : 1e-9;
        auto run = [&](auto&& e) { got = double(ad::autodiff(e, T(seed))); };
        if constexpr (std::is_same_v<typename V::shape_t, ad::scl>) { auto e = ad::bind(x * y + ad::sin(x)); run(e); } else { auto e = ad::bind(ad::sum(x * y + ad::sin(x))); run(e); }
        eval(); EXPECT("EVALUATE", std::fabs(got - want) <= lim * (1 + std::fabs(want)), "after %s: value %.17g instead of %.17g", last, got, want);
        std::vector<double> da(n()), db(n());
        for (size_t q = 0; q < n(); ++q) { da[q] = seed * (m[b].v[q] + std::cos(m[a].v[q])); db[q] = seed * m[a].v[q]; }
        for (size_t q = 0; q < n(); ++q) { m[a].a[q] += da[q]; m[b].a[q] += db[q]; }
        for (size_t k : {a, b}) for (size_t q = 0; q < n(); ++q) { double g = double(at(k).data_adj()[q]);
            EXPECT("EVALUATE", std::fabs(g - m[k].a[q]) <= lim * (1 + std::fabs(m[k].a[q]) + std::fabs(da[q]) + std::fabs(db[q])), "after %s: adjoint of variable %zu[%zu] is %.17g instead of %.17g", last, k, q, g, m[k].a[q]); m[k].a[q] = g; }
        last = "evaluate";
    }
};
template <class V, class C> void pool(Rng& r, bool vec_like) {
    Pool<V, C> p; using T = typename Tr<V>::T_; Tr<V>::dims(r, p.R, p.Cc); mix(uint64_t(p.R * 64 + p.Cc)); p.check_fresh(r);
    for (int k = 1 + r.below(3); k > 0; --k) p.add(r);
    int ops = 10 + r.below(40);
    for (int o = 0; o < ops; ++o) {
        int s = int(p.m.size()); int op = r.below(17); size_t a = size_t(r.below(s)), b = size_t(r.below(s)); mix(uint64_t(op)); saw("ownership operations");
        switch (op) {
        case 0: case 1: p.write(a, r); break;
        case 2: if (s < 9) p.add(r); break;
        case 3: p.at(a) = p.at(b); p.m[a] = p.m[b]; p.last = "copy assignment"; break;
        case 4: { V& z = p.at(a); const V& w = z; z = w; p.last = "self assignment"; break; }
        case 5: { V& z = p.at(a); z = std::move(p.at(a)); p.last = "self move assignment"; break; }
        case 6: std::swap(p.at(a), p.at(b)); std::swap(p.m[a], p.m[b]); p.last = "std::swap"; break;
        case 7: { V t(p.at(a)); p.check(); t.data()[0] = T(5); t.data_adj()[0] = T(6); p.last = "copy construction, copy modified"; break; }
        case 8: { Model mm; V t = p.fresh(r, mm); p.at(a) = std::move(t); p.m[a] = mm; t = p.at(b); t.data()[0] += T(1); p.last = "move assignment, source reused"; break; }
        case 9: { V t(std::move(p.at(a))); EXPECT("CONTENTS", double(t.data()[0]) == p.m[a].v[0] && double(t.data_adj()[0]) == p.m[a].a[0], "moving a variable lost its contents"); p.at(a) = t; t.data()[0] = T(-1); p.last = "move out and copy back"; break; }
        case 10: { V t(std::move(p.at(a))); p.at(a) = std::move(p.at(b)); if (a != b) { p.at(b) = std::move(t); std::swap(p.m[a], p.m[b]); } else p.at(a) = std::move(t); p.last = "three moves"; break; }
        case 11: if (s < 9) { auto it = p.vars.begin(); std::advance(it, long(a)); V t(p.at(b)); Model mb = p.m[b]; p.vars.insert(it, std::move(t)); p.m.insert(p.m.begin() + long(a), mb); p.last = "insert"; } break;
        case 12: if (s > 1) { auto it = p.vars.begin(); std::advance(it, long(a)); p.vars.erase(it); p.m.erase(p.m.begin() + long(a)); p.last = "erase"; } break;
        case 13: { V& z = p.at(a); auto& mm = p.m[a]; switch (r.below(5)) {
            case 0: z.reset_adj(); std::fill(mm.a.begin(), mm.a.end(), 0.); p.last = "reset_adj"; break;
            case 1: z.zero_adj(); std::fill(mm.a.begin(), mm.a.end(), 0.); p.last = "zero_adj"; break;
            case 2: z.ones_adj(); std::fill(mm.a.begin(), mm.a.end(), 1.); p.last = "ones_adj"; break;
            case 3: z.zero(); std::fill(mm.v.begin(), mm.v.end(), 0.); p.last = "zero"; break;
            default: z.ones(); std::fill(mm.v.begin(), mm.v.end(), 1.); p.last = "ones"; } break; }
        case 14: if constexpr (std::is_same_v<C, std::vector<V>>) { p.vars.reserve(p.vars.capacity() + 1 + size_t(r.below(3))); p.last = "reserve"; if (r.chance(.3)) { p.vars.shrink_to_fit(); p.last = "shrink_to_fit"; } } else (void)vec_like; break;
        case 15: { C copy(p.vars); C moved(std::move(p.vars)); p.vars = copy; for (auto& z : moved) z.data()[0] = T(-3); for (auto& z : copy) z.data_adj()[0] = T(-4); p.last = "container copied"; break; }
        default: p.evaluate(r); break;
        }
        p.check();
    }
    // rotate, reverse and sort move elements about
    if (r.chance(.6)) { std::rotate(p.vars.begin(), std::next(p.vars.begin()), p.vars.end()); std::rotate(p.m.begin(), p.m.begin() + 1, p.m.end()); p.last = "rotate"; p.check(); }
    if (r.chance(.6)) { std::reverse(p.vars.begin(), p.vars.end()); std::reverse(p.m.begin(), p.m.end()); p.last = "reverse"; p.check(); }
    p.evaluate(r); p.check(); eval();
}
using D = double; using F = float;
SCENARIO(pool_scl_vector) { pool<ad::Var<D>, std::vector<ad::Var<D>>>(r, true); }
SCENARIO(pool_vec_vector) { pool<ad::Var<D, ad::vec>, std::vector<ad::Var<D, ad::vec>>>(r, true); }
SCENARIO(pool_mat_vector) { pool<ad::Var<D, ad::mat>, std::vector<ad::Var<D, ad::mat>>>(r, true); }
SCENARIO(pool_scl_deque, .5) { pool<ad::Var<D>, std::deque<ad::Var<D>>>(r, false); }
SCENARIO(pool_vec_deque, .5) { pool<ad::Var<D, ad::vec>, std::deque<ad::Var<D, ad::vec>>>(r, false); }
SCENARIO(pool_mat_deque, .5) { pool<ad::Var<D, ad::mat>, std::deque<ad::Var<D, ad::mat>>>(r, false); }
SCENARIO(pool_float_scl, .5) { pool<ad::Var<F>, std::vector<ad::Var<F>>>(r, true); }
SCENARIO(pool_float_vec, .5) { pool<ad::Var<F, ad::vec>, std::vector<ad::Var<F, ad::vec>>>(r, true); }
SCENARIO(pool_float_mat, .5) { pool<ad::Var<F, ad::mat>, std::vector<ad::Var<F, ad::mat>>>(r, true); }

// ------------------------------------------------------------------ aggregates of Vars
struct Params { ad::Var<D> s{1.5}; ad::Var<D, ad::vec> v{3}; ad::Var<D, ad::mat> m{2, 3}; };
Params make_params(Rng& r) { Params p; p.s.get() = r.uni(-1, 1); for (int i = 0; i < 3; ++i) p.v.get()(i) = r.uni(-1, 1); for (int i = 0; i < 6; ++i) p.m.data()[i] = r.uni(-1, 1); return p; }
double params_value(Params& p) { return ad::autodiff(ad::bind(p.s * ad::sum(ad::dot(p.m, p.v)))); }
double params_plain(const Params& p) { double t = 0; for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) t += p.m.get()(i, j) * p.v.get()(j); return t * p.s.get(); }
SCENARIO(aggregates) {
    std::vector<Params> ps; std::vector<double> want; std::vector<D> sadj;
    for (int i = 0; i < 6; ++i) { ps.push_back(make_params(r)); want.push_back(params_plain(ps.back())); mix(want.back()); }
    for (int i = 0; i < 6; ++i) { EXPECT("EVALUATE", close(params_value(ps[size_t(i)]), want[size_t(i)]), "value of an aggregate after growth of its container"); eval(); }
    std::map<int, Params> mp; for (int i = 0; i < 6; ++i) mp.insert({5 - i, ps[size_t(i)]});
    for (int i = 0; i < 6; ++i) for (auto* a : {&ps[size_t(i)]}) { a->s.reset_adj(); a->v.reset_adj(); a->m.reset_adj(); }
    for (int i = 0; i < 6; ++i) {
        Params q = mp.at(5 - i); EXPECT("EVALUATE", close(params_value(q), want[size_t(i)]), "value of a copied aggregate");
        bool z = ps[size_t(i)].s.get_adj() == 0 && ps[size_t(i)].v.get_adj().isZero(0) && ps[size_t(i)].m.get_adj().isZero(0);
        EXPECT("INDEPENDENT", z, "differentiating with respect to a copy changed the original's adjoint"); eval();
    }
    auto pr = std::make_pair(ps[0], ps[1]); std::swap(pr.first, pr.second);
    EXPECT("EVALUATE", close(params_value(pr.first), want[1]) && close(params_value(pr.second), want[0]), "values of swapped aggregates");
    std::unique_ptr<Params> up; { Params t = make_params(r); double w = params_plain(t); up = std::make_unique<Params>(std::move(t)); EXPECT("EVALUATE", close(params_value(*up), w), "value of an aggregate moved to the heap"); }
    { up->s.reset_adj(); double w = params_plain(*up); Params t2 = *up; up.reset(); EXPECT("EVALUATE", close(params_value(t2), w), "value of a copy after its original died"); eval(); }
}

// ------------------------------------------------------------------ views over foreign memory
struct Arena {                                   // two arrays; everything outside what was announced as touched must stay
    std::vector<double> v, a, v0, a0;
    Arena(Rng& r, size_t n) : v(n), a(n) { for (auto& x : v) { x = r.uni(-2, 2); mix(x); } for (auto& x : a) x = r.uni(-2, 2); mark(); }
    void mark() { v0 = v; a0 = a; }
    bool vals_same() { return std::memcmp(v.data(), v0.data(), 8 * v.size()) == 0; }
};
void expect_grad(Arena& A, const std::vector<double>& g, const char* what) {
    EXPECT("FRAME", A.vals_same(), "%s: a value changed", what);
    for (size_t i = 0; i < g.size(); ++i) {
        if (g[i] == 0) EXPECT("SLOTS", std::memcmp(&A.a[i], &A.a0[i], 8) == 0, "%s: adjoint slot %zu outside the views changed from %g to %g", what, i, A.a0[i], A.a[i]);
        else EXPECT("SLOTS", close(A.a[i], A.a0[i] + g[i]), "%s: adjoint slot %zu is %.17g instead of %.17g", what, i, A.a[i], A.a0[i] + g[i]);
    }
    eval(); A.mark();
}
// adds the gradient of scale*sum(sin(x[o..o+n)))
void add_sin(const Arena& A, std::vector<double>& g, size_t o, size_t n, double scale, double& val) { for (size_t i = 0; i < n; ++i) { g[o + i] += scale * std::cos(A.v[o + i]); val += scale * std::sin(A.v[o + i]); } }
template <class X> void subviews(Rng& r, Arena& A, X& x, size_t o, size_t n) {      // x views [o, o+n)
    for (int k = 0; k < 6; ++k) {
        std::vector<double> g(A.v.size(), 0.); double val = 0, got = 0;
        size_t h = 1 + size_t(r.below(int(n))), t = 1 + size_t(r.below(int(n))), i = size_t(r.below(int(n))), j = size_t(r.below(int(n)));
        mix(uint64_t(h * 1000 + t * 100 + i * 10 + j)); int w = r.below(9); mix(uint64_t(w)); saw("subview expressions");
        switch (w) {
        case 0: { auto e = ad::bind(ad::sum(ad::sin(x.head(h)))); got = ad::autodiff(e); add_sin(A, g, o, h, 1, val); break; }
        case 1: { auto e = ad::bind(ad::sum(ad::sin(x.tail(t)))); got = ad::autodiff(e); add_sin(A, g, o + n - t, t, 1, val); break; }
        case 2: { auto e = ad::bind(ad::sum(ad::sin(x.head(h))) + ad::sum(ad::sin(x.tail(t))) * 3.); got = ad::autodiff(e, -2.); add_sin(A, g, o, h, -2, val); add_sin(A, g, o + n - t, t, -6, val); val /= -2; break; }
        case 3: { auto e = ad::bind(ad::sin(x(i)) + ad::sin(x[j]) * 2.); got = ad::autodiff(e, 1.5); add_sin(A, g, o + i, 1, 1.5, val); add_sin(A, g, o + j, 1, 3, val); val /= 1.5; break; }
        case 4: { size_t u = 1 + size_t(r.below(int(h))); auto y = x.head(h); auto z = y.tail(u); auto e = ad::bind(ad::sum(ad::sin(z))); got = ad::autodiff(e); add_sin(A, g, o + h - u, u, 1, val); break; }
        case 5: { size_t u = 1 + size_t(r.below(int(t))), q = size_t(r.below(int(u))); auto e = ad::bind(ad::sin(x.tail(t).head(u)(q)) * 4.); got = ad::autodiff(e); add_sin(A, g, o + n - t + q, 1, 4, val); break; }
        case 6: { auto y = x.head(h); auto z = x.tail(h); auto e = ad::bind(ad::sum(y * z)); got = ad::autodiff(e); for (size_t q = 0; q < h; ++q) { g[o + q] += A.v[o + n - h + q]; g[o + n - h + q] += A.v[o + q]; val += A.v[o + q] * A.v[o + n - h + q]; } break; }
        case 7: { std::vector<int> ix(n); std::iota(ix.begin(), ix.end(), 0); auto e = ad::bind(ad::sum(ix.begin(), ix.end(), [&](int q) { return ad::sin(x[size_t(q)]); })); got = ad::autodiff(e, .5); add_sin(A, g, o, n, .5, val); val /= .5; break; }
        default: { Eigen::ArrayXd s(static_cast<long>(h)); for (size_t q = 0; q < h; ++q) s(long(q)) = r.uni(-2, 2); auto e = ad::bind(x.head(h) * 2.); auto v = ad::autodiff(e, s); for (size_t q = 0; q < h; ++q) { g[o + q] += 2 * s(long(q)); EXPECT("EVALUATE", v(long(q)) == 2 * A.v[o + q], "value of a subview element"); } break; }
        }
        EXPECT("EVALUATE", close(got, val), "expression %d over subviews of [%zu,%zu): value %.17g instead of %.17g", w, o, o + n, got, val);
        expect_grad(A, g, "expression over subviews");
        // sub-views read and write the same memory
        auto hv = x.head(h); auto tv = x.tail(t); auto ev = x[i]; auto pv = x(j);
        bool at = hv.data() == A.v.data() + o && tv.data() == A.v.data() + o + n - t && ev.data() == A.v.data() + o + i && pv.data() == A.v.data() + o + j
               && hv.data_adj() == A.a.data() + o && tv.data_adj() == A.a.data() + o + n - t && ev.data_adj() == A.a.data() + o + i && pv.data_adj() == A.a.data() + o + j;
        EXPECT("MEMORY", at, "a subview does not view the memory it was built over");
        EXPECT("MEMORY", hv.size() == h && hv.rows() == h && hv.cols() == 1 && tv.size() == t && tv.rows() == t && tv.cols() == 1 && ev.size() == 1, "a subview has the wrong size");
        double z = r.uni(-2, 2); A.v[o + i] = z; EXPECT("MEMORY", ev.get() == z && (i >= h || hv.get()(long(i)) == z) && (i < n - t || tv.get()(long(i - (n - t))) == z), "a subview does not read its memory");
        tv.get()(0) = z + 1; EXPECT("MEMORY", A.v[o + n - t] == z + 1, "a subview does not write its memory");
        pv.get_adj() = 3; EXPECT("MEMORY", A.a[o + j] == 3, "an element view does not write its adjoint");
        if (r.chance(.3)) { auto h2 = x.head(h); h2.reset_adj(); for (size_t q = 0; q < h; ++q) EXPECT("MEMORY", A.a[o + q] == 0, "reset_adj of a subview left an element"); EXPECT("MEMORY", h == n || h > j || A.a[o + j] == 3, "reset_adj of a subview went too far"); }
        if (r.chance(.1)) { auto h0 = x.head(0); auto t0 = x.tail(0); EXPECT("MEMORY", h0.size() == 0 && t0.size() == 0, "an empty subview is not empty"); }
        A.mark();
    }
}
SCENARIO(subviews_of_views) {
    Arena A(r, size_t(4 + r.below(20))); size_t N = A.v.size(), o = size_t(r.below(int(N))), n = 1 + size_t(r.below(int(N - o)));
    ad::VarView<D, ad::vec> x(A.v.data() + o, A.a.data() + o, n); subviews(r, A, x, o, n);
    auto y = x; subviews(r, A, y, o, n);                                  // a copy views the same
    auto z = x.tail(1 + size_t(r.below(int(n)))); subviews(r, A, z, size_t(z.data() - A.v.data()), z.size());
}
SCENARIO(subviews_of_vars) {
    // the same over an owning variable, whose memory is copied to and from the arena
    size_t n = 1 + size_t(r.below(9)); std::vector<ad::Var<D, ad::vec>> pool; pool.emplace_back(n);
    for (int k = 0; k < 3; ++k) {
        pool.push_back(pool.back()); auto& x = pool[size_t(r.below(int(pool.size())))]; Arena A(r, n);
        for (size_t i = 0; i < n; ++i) { x.get()(long(i)) = A.v[i]; x.get_adj()(long(i)) = A.a[i]; }
        size_t h = 1 + size_t(r.below(int(n))), t = 1 + size_t(r.below(int(n))), i = size_t(r.below(int(n)));
        std::vector<double> g(n, 0.); double val = 0; auto e = ad::bind(ad::sum(ad::sin(x.head(h))) + ad::sum(ad::sin(x.tail(t))) * 3. + ad::sin(x(i)));
        double got = ad::autodiff(e); add_sin(A, g, 0, h, 1, val); add_sin(A, g, n - t, t, 3, val); add_sin(A, g, i, 1, 1, val);
        EXPECT("EVALUATE", close(got, val), "value over subviews of a Var is %.17g instead of %.17g", got, val);
        for (size_t q = 0; q < n; ++q) { A.v[q] = x.get()(long(q)); A.a[q] = x.get_adj()(long(q)); }
        expect_grad(A, g, "subviews of a Var");
        EXPECT("MEMORY", x.head(h).data() == x.data() && x.tail(t).data() == x.data() + n - t && x[i].data_adj() == x.data_adj() + i, "a subview of a Var does not view its memory");
    }
}
SCENARIO(plain_views) {
    // scalar, vector and matrix views side by side over one array, and two views over the same memory
    Arena A(r, 40); size_t p = 1 + size_t(r.below(4)), q = 1 + size_t(r.below(4)), o = size_t(r.below(5)), ov = o + 2, om = ov + q + size_t(r.below(3)); mix(uint64_t(p * 16 + q + o * 100));
    ad::VarView<D> s(A.v.data() + o, A.a.data() + o); ad::VarView<D, ad::vec> v(A.v.data() + ov, A.a.data() + ov, q); ad::VarView<D, ad::mat> m(A.v.data() + om, A.a.data() + om, p, q);
    EXPECT("MEMORY", s.size() == 1 && v.size() == q && v.rows() == q && v.cols() == 1 && m.rows() == p && m.cols() == q && m.size() == p * q, "a view has the wrong shape");
    for (int k = 0; k < 4; ++k) {
        std::vector<double> g(40, 0.); double val = 0; int w = r.below(4);
        if (w == 0) { auto e = ad::bind(ad::sum(ad::dot(m, v)) * s); double got = ad::autodiff(e); double t = 0;
            for (size_t i = 0; i < p; ++i) for (size_t j = 0; j < q; ++j) { t += A.v[om + j * p + i] * A.v[ov + j]; g[om + j * p + i] += A.v[ov + j] * A.v[o]; g[ov + j] += A.v[om + j * p + i] * A.v[o]; }
            g[o] = t; val = t * A.v[o]; EXPECT("EVALUATE", close(got, val), "value over views is %.17g instead of %.17g", got, val); }
        else if (w == 1) { ad::VarView<D, ad::vec> v2(A.v.data() + om, A.a.data() + om, p * q); auto e = ad::bind(ad::sum(ad::sin(v2)) + ad::sum(m)); double got = ad::autodiff(e, 2.);   // the matrix's memory again as a vector
            for (size_t i = 0; i < p * q; ++i) { g[om + i] = 2 * (std::cos(A.v[om + i]) + 1); val += std::sin(A.v[om + i]) + A.v[om + i]; } EXPECT("EVALUATE", close(got, val), "value over two views of the same memory"); }
        else if (w == 2) { ad::VarView<D> s2(A.v.data() + o, A.a.data() + 39); auto e = ad::bind(s * ad::sin(s2)); double got = ad::autodiff(e); val = A.v[o] * std::sin(A.v[o]); g[o] = std::sin(A.v[o]); g[39] = A.v[o] * std::cos(A.v[o]); EXPECT("EVALUATE", close(got, val), "value over views with the same value and different adjoints"); }
        else { // a view bound anew to other memory
            ad::VarView<D> b; b.bind({A.v.data() + 38, A.a.data() + 38}); ad::VarView<D, ad::vec> c(nullptr, nullptr, 3); auto nx = c.bind({A.v.data() + 34, A.a.data() + 34});
            EXPECT("MEMORY", nx.val == A.v.data() + 37 && nx.adj == A.a.data() + 37 && c.data() == A.v.data() + 34, "bind of a view");
            auto e = ad::bind(b * ad::sum(ad::sin(c))); double got = ad::autodiff(e); double t = 0; for (int i = 34; i < 37; ++i) { t += std::sin(A.v[size_t(i)]); g[size_t(i)] = A.v[38] * std::cos(A.v[size_t(i)]); } g[38] = t; EXPECT("EVALUATE", close(got, t * A.v[38]), "value over views bound later"); }
        expect_grad(A, g, "plain views");
        for (auto& x : A.v) if (r.chance(.5)) x = r.uni(-2, 2);
        A.mark();
    }
}

// ------------------------------------------------------------------ expressions that outlive what they were made from
// every maker builds its expression from handles and sources that die at its end; only the memory viewed lives on
struct Mem { std::vector<double> v, a; Mem(Rng& r) : v(30), a(30) { redraw(r); } void redraw(Rng& r) { for (auto& x : v) { x = r.uni(.2, 1.8); mix(x); } std::fill(a.begin(), a.end(), 0.); }
    double *val(int o) { return v.data() + o; } double* adj(int o) { return a.data() + o; }
    ad::VarView<D> s(int o) { return {val(o), adj(o)}; } ad::VarView<D, ad::vec> vec(int o, size_t n) { return {val(o), adj(o), n}; } ad::VarView<D, ad::mat> mat(int o, size_t p, size_t q) { return {val(o), adj(o), p, q}; } };
auto mk0(Mem& m) { auto x = m.s(0), y = m.s(1); return ad::sin(x) * y + x / y; }
auto mk1(Mem& m) { auto x = m.vec(0, 5), y = m.vec(5, 5); Eigen::VectorXd c(5); c << 1, 2, 3, 4, 5; return ad::sum(x * y + ad::constant(c) * x); }
auto mk2(Mem& m) { auto A = m.mat(0, 3, 3); auto x = m.vec(9, 3); Eigen::MatrixXd c = Eigen::MatrixXd::Constant(3, 3, .5); return ad::norm(ad::dot(A + ad::constant(c), x)); }
auto mk3(Mem& m) { auto w = m.s(20), x = m.s(0), y = m.s(1); return (w = x * y, w * w + ad::exp(w)); }
auto mk4(Mem& m) { auto x = m.vec(0, 4); std::vector<double> c = {1, 2, 3, 4}; return ad::prod(c.begin(), c.end(), [&](double q) { auto z = x; return ad::sin(z[size_t(q) - 1]) + 2. * q; }); }
auto mk5(Mem& m) { auto x = m.s(0), y = m.s(1); return ad::if_else(x < y, ad::sin(x) * y, ad::cos(y) + x) * x; }
auto mk6(Mem& m) { auto x = m.vec(0, 4); Eigen::VectorXd c(4); c << .1, -.3, .7, 2; return ad::normal_adj_log_pdf(ad::constant(c), x, m.s(10)) + ad::cauchy_adj_log_pdf(m.vec(12, 3), m.s(11), m.s(10)); }
auto mk7(Mem& m) { auto x = m.s(0), y = m.s(1); return (x += y, x * x); }
auto mk8(Mem& m) { auto A = m.mat(0, 2, 2); auto e = ad::transpose(A); return ad::sum(ad::dot(e, A)) * ad::pow<3>(m.s(8)); }
auto mk9(Mem& m) { auto x = m.vec(0, 6); std::vector<int> ix = {0, 1, 2}; auto w = m.vec(21, 3); return ad::for_each(ix.begin(), ix.end(), [&](int i) { auto z = x; auto u = w; return u[size_t(i)] = z[size_t(i)] * z[size_t(i + 3)]; }), ad::sum(w); }
auto mk10(Mem& m) { auto p = m.vec(0, 3); Eigen::VectorXi b(3); b << 1, 0, 1; return ad::bernoulli_adj_log_pdf(ad::constant(b), ad::sigmoid(p)); }
auto mk11(Mem& m) { auto x = m.vec(0, 3); return ad::uniform_adj_log_pdf(x, m.s(4) - 3., m.s(5) + 3.); }
auto mk12(Mem& m) { auto x = m.vec(0, 4); auto y = x.head(2), z = x.tail(3); return ad::prod(y) + ad::norm(z) * x[1]; }

struct Result { double v; std::vector<double> a; };
template <class E> Result plain_run(E e, Mem& m, double seed) {           // bound by hand to fresh storage
    auto p = e.bind_cache_size(); std::vector<double> cv(p(0) + 1, NAN), ca(p(1) + 1, NAN); e.bind_cache({cv.data(), ca.data()});
    std::fill(m.a.begin(), m.a.end(), 0.); Result q; q.v = ad::evaluate(e); ad::evaluate_adj(e, seed); q.a = m.a; std::fill(m.a.begin(), m.a.end(), 0.); return q;
}
bool same(const Result& a, const Result& b) { if (!(a.v == b.v || (std::isnan(a.v) && std::isnan(b.v)))) return false; for (size_t i = 0; i < a.a.size(); ++i) if (!(a.a[i] == b.a[i])) return false; return true; }
template <class B> Result bound_run(B& b, Mem& m, double seed, int how) { std::fill(m.a.begin(), m.a.end(), 0.); Result q; if (how == 0) q.v = ad::autodiff(b, seed); else { q.v = ad::evaluate(b); ad::evaluate_adj(b.get(), seed); } q.a = m.a; std::fill(m.a.begin(), m.a.end(), 0.); return q; }

template <class Mk> void lifetimes(Rng& r, Mk mk) {
    Mem m(r); double seed = r.uni(-2, 2); mix(seed);
    using E = decltype(mk(m)); using B = std::decay_t<decltype(ad::bind(std::declval<const E&>()))>;
    Result want = plain_run(mk(m), m, seed); EXPECT("EVALUATE", std::isfinite(want.v), "value %g", want.v);
    auto chk = [&](const Result& got, const char* what) { eval(); saw("lifetimes ended before use"); EXPECT("OUTLIVE", same(got, want), "%s: value %.17g instead of %.17g, or another gradient", what, got.v, want.v); };
    auto again = [&] { m.redraw(r); want = plain_run(mk(m), m, seed); };
    { // copies of an expression, the original destroyed; bound to own and to shared storage
        auto p = std::make_unique<E>(mk(m)); E c1(*p), c2(c1); E c3(std::move(c1)); p.reset(); chk(plain_run(c2, m, seed), "copy of an expression"); chk(plain_run(std::move(c3), m, seed), "moved expression");
        std::vector<E> es; for (int i = 0; i < 4; ++i) es.push_back(c2); again(); chk(plain_run(es[size_t(r.below(4))], m, seed), "expression in a grown vector"); }
    { // a bound expression copied and moved, in a growing vector
        std::vector<B> bs; int n = 1 + r.below(5); for (int i = 0; i < n; ++i) { bs.push_back(ad::bind(mk(m))); if (r.chance(.5)) { again(); chk(bound_run(bs[size_t(r.below(int(bs.size())))], m, seed, r.below(2)), "bound expression in a growing vector"); } }
        again(); for (auto& b : bs) chk(bound_run(b, m, seed, r.below(2)), "bound expression in a grown vector");
        B c(bs[0]); bs.clear(); bs.shrink_to_fit(); again(); chk(bound_run(c, m, seed, 0), "copy of a bound expression that died"); B d(std::move(c)); chk(bound_run(d, m, seed, 1), "moved bound expression");
        auto f = [&] { B t = ad::bind(mk(m)); ad::evaluate(t); return t; }; 
        { Mem keep = m; B t = f(); m.v = keep.v; again(); chk(bound_run(t, m, seed, 0), "bound expression returned from a function"); } }
    { // the original and a copy evaluated in turn
        auto a = std::make_unique<B>(ad::bind(mk(m))); chk(bound_run(*a, m, seed, 0), "bound"); auto b = std::make_unique<B>(*a); again(); chk(bound_run(*b, m, seed, 0), "copy"); again(); chk(bound_run(*a, m, seed, 1), "original after copy"); a.reset(); again(); chk(bound_run(*b, m, seed, 1), "copy after the original died");
        std::function<double()> fn = [c = B(*b), seed]() mutable { return double(ad::autodiff(c, seed)); }; b.reset(); again(); std::fill(m.a.begin(), m.a.end(), 0.); Result q; q.v = fn(); q.a = m.a; chk(q, "bound expression inside a std::function");
        std::function<double()> fn2 = fn; fn = nullptr; again(); q.v = fn2(); q.a = m.a; chk(q, "copy of that std::function"); }
    { // a copy taken between forward and backward pass carries the values with it
        auto a = std::make_unique<B>(ad::bind(mk(m))); Mem keep = m; std::fill(m.a.begin(), m.a.end(), 0.); Result q; q.v = ad::evaluate(*a); B b(*a); a.reset(); ad::evaluate_adj(b.get(), seed); q.a = m.a; std::fill(m.a.begin(), m.a.end(), 0.); (void)keep;
        // compound assignments: the copy views the same variable, which holds its new value
        chk(q, "copy taken between the forward and the backward pass"); }
}
SCENARIO(life_scalar) { lifetimes(r, mk0); }
SCENARIO(life_vector) { lifetimes(r, mk1); }
SCENARIO(life_matrix) { lifetimes(r, mk2); }
SCENARIO(life_glue) { lifetimes(r, mk3); }
SCENARIO(life_prod_range) { lifetimes(r, mk4); }
SCENARIO(life_if_else) { lifetimes(r, mk5); }
SCENARIO(life_stats) { lifetimes(r, mk6); }
SCENARIO(life_opeq) { lifetimes(r, [](Mem& m) { return mk7(m); }); }
SCENARIO(life_transpose_pow) { lifetimes(r, mk8); }
SCENARIO(life_for_each) { lifetimes(r, mk9); }
SCENARIO(life_bernoulli) { lifetimes(r, mk10); }
SCENARIO(life_uniform) { lifetimes(r, mk11); }
SCENARIO(life_subviews) { lifetimes(r, mk12); }

// ------------------------------------------------------------------ Vars, handles and expressions end in any order
SCENARIO(var_dies_after_binding_elsewhere) {
    // an expression over a Var keeps viewing that Var's memory, also when the handle object it was built from was a copy's original
    auto x = std::make_unique<ad::Var<D, ad::vec>>(4); for (int i = 0; i < 4; ++i) { x->get()(i) = r.uni(-1, 1); mix(x->get()(i)); }
    auto e = ad::bind(ad::sum(ad::sin(*x))); ad::Var<D, ad::vec> y(*x);
    double v = ad::autodiff(e), w = 0; for (int i = 0; i < 4; ++i) w += std::sin(x->get()(i));
    EXPECT("EVALUATE", close(v, w), "value over a Var that was copied afterwards"); bool z = y.get_adj().isZero(0); EXPECT("INDEPENDENT", z, "the copy of a Var received the gradient"); for (int i = 0; i < 4; ++i) EXPECT("SLOTS", close(x->get_adj()(i), std::cos(x->get()(i))), "gradient of the Var");
    auto e2 = ad::bind(ad::sum(ad::sin(y))); x.reset(); v = ad::autodiff(e2); EXPECT("EVALUATE", close(v, w), "value over the copy after the original died"); eval(2);
    // heap Vars keep their memory when moved: assignments into a Var keep expressions over it valid for scalars
    ad::Var<D> s(r.uni(.5, 1)), t(r.uni(1.5, 2)); auto es = ad::bind(s * s); s = t; v = ad::autodiff(es); EXPECT("EVALUATE", close(v, t.get() * t.get()) && close(s.get_adj(), 2 * t.get()) && t.get_adj() == 0, "expression over a scalar Var assigned later"); eval();
    std::swap(s, t); EXPECT("CONTENTS", s.data() != t.data(), "swapped scalars"); 
}
} // namespace
int main(int argc, char** argv) { return drv::run(argc, argv); }
