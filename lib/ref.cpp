#include "ref.hpp"
#include <algorithm>
#include <cassert>
#include <cstdio>
#include <cstdlib>
#include <limits>

namespace ref {

static const LD INF = std::numeric_limits<LD>::infinity();
static LD mz(LD a, LD j) { return a == 0 ? LD(0) : a * j; }      // a zero adjoint contributes nothing

int N::rows() const { return t->nodes[id].r; }
int N::cols() const { return t->nodes[id].c; }
int N::size() const { return rows() * cols(); }

[[noreturn]] static void die(const std::string& m) { std::fprintf(stderr, "REF-ERROR %s\n", m.c_str()); std::exit(97); }

N Tape::node(int r, int c, std::function<void(Tape&, int)> back) {
    Node n; n.r = r; n.c = c; n.v.assign(size_t(r) * c, 0); n.a.assign(size_t(r) * c, 0); n.back = std::move(back);
    nodes.push_back(std::move(n));
    return N{this, int(nodes.size()) - 1};
}
N Tape::leaf(int r, int c, const double* d) {
    N x = node(r, c, nullptr);
    for (int i = 0; i < r * c; ++i) nodes[x.id].v[i] = d[i];
    return x;
}
void Tape::backward(N out, const double* seed) {
    for (int i = 0; i < out.size(); ++i) nodes[out.id].a[i] += seed ? LD(seed[i]) : LD(1);
    for (int i = out.id; i >= 0; --i) {
        if (!nodes[i].back) continue;
        bool any = false;
        for (LD x : nodes[i].a) if (x != 0) { any = true; break; }
        if (any) { auto f = nodes[i].back; f(*this, i); }
    }
}

// ------------------------------------------------------------------ elementwise
static LD fval(const std::string& f, LD x) {
    if (f == "neg") return -x;
    if (f == "sin") return sinl(x);
    if (f == "cos") return cosl(x);
    if (f == "tan") return tanl(x);
    if (f == "asin") return asinl(x);
    if (f == "acos") return acosl(x);
    if (f == "atan") return atanl(x);
    if (f == "exp") return expl(x);
    if (f == "log") return logl(x);
    if (f == "sqrt") return sqrtl(x);
    if (f == "erf") return erfl(x);
    if (f == "sinh") return sinhl(x);
    if (f == "cosh") return coshl(x);
    if (f == "tanh") return tanhl(x);
    if (f == "sigmoid") return x >= 0 ? 1 / (1 + expl(-x)) : expl(x) / (1 + expl(x));
    die("unary " + f);
}
static LD fder(const std::string& f, LD x) {
    if (f == "neg") return -1;
    if (f == "sin") return cosl(x);
    if (f == "cos") return -sinl(x);
    if (f == "tan") { LD t = tanl(x); return 1 + t * t; }
    if (f == "asin") return 1 / sqrtl((1 - x) * (1 + x));
    if (f == "acos") return -1 / sqrtl((1 - x) * (1 + x));
    if (f == "atan") return 1 / (1 + x * x);
    if (f == "exp") return expl(x);
    if (f == "log") return 1 / x;
    if (f == "sqrt") return 1 / (2 * sqrtl(x));
    if (f == "erf") return 2 / sqrtl(acosl(-1.0L)) * expl(-x * x);
    if (f == "sinh") return coshl(x);
    if (f == "cosh") return sinhl(x);
    if (f == "tanh") { LD c = coshl(x); return 1 / (c * c); }   // see un() for what rounding of tanh costs
    if (f == "sigmoid") { LD e = expl(-fabsl(x)); return e / ((1 + e) * (1 + e)); }
    die("unary " + f);
}
N un(const std::string& f, N x) {
    Tape* t = x.t; int xi = x.id;
    N o = t->node(x.rows(), x.cols(), [f, xi](Tape& t, int id) {
        for (size_t k = 0; k < t.nodes[id].v.size(); ++k) {
            LD xv = t.nodes[xi].v[k];
            LD j = fder(f, xv);
            // an FP evaluation of the derivative sees a slightly different x; 1 - tanh^2 and s * (1 - s) cancel
            if (t.amp != 0) { LD j2 = fder(f, t.jit(xv)); if (std::isfinite(double(j2))) j = j2; }
            if ((f == "tanh" || f == "sigmoid") && t.amp != 0) j += t.amp * LD(2 * t.rng.u01() - 1);
            if ((f == "erf" || f == "exp" || f == "sigmoid") && t.amp != 0) j += 1e-306L * LD(2 * t.rng.u01() - 1);      // what vectorised exponentials give instead of an underflow
            t.acc(xi, int(k), mz(t.nodes[id].a[k], t.jit(j)));
        }
    });
    for (int k = 0; k < o.size(); ++k) {
        LD xv = t->nodes[xi].v[k];
        LD v = fval(f, xv);
        if ((f == "exp" || f == "sigmoid") && t->amp != 0) v += 1e-306L * LD(2 * t->rng.u01() - 1);
        t->nodes[o.id].v[k] = f == "neg" ? v : t->jit(v);
    }
    return o;
}

static int bidx(int n, int k) { return n == 1 ? 0 : k; }

N bin(char op, N x, N y) {
    Tape* t = x.t; int xi = x.id, yi = y.id;
    bool xs = x.rows() * x.cols() == 1, ys = y.rows() * y.cols() == 1;
    int r = xs ? y.rows() : x.rows(), c = xs ? y.cols() : x.cols();
    if (!xs && !ys && (x.rows() != y.rows() || x.cols() != y.cols())) die("shape mismatch");
    N o = t->node(r, c, [op, xi, yi](Tape& t, int id) {
        int nx = int(t.nodes[xi].v.size()), ny = int(t.nodes[yi].v.size()), n = int(t.nodes[id].v.size());
        for (int k = 0; k < n; ++k) {
            int a = bidx(nx, k), b = bidx(ny, k);
            LD g = t.nodes[id].a[k], xv = t.nodes[xi].v[a], yv = t.nodes[yi].v[b];
            switch (op) {
            case '+': t.acc(xi, a, g); t.acc(yi, b, g); break;
            case '-': t.acc(xi, a, g); t.acc(yi, b, -g); break;
            case '*': t.acc(xi, a, mz(g, yv)); t.acc(yi, b, mz(g, xv)); break;
            case '/': t.acc(xi, a, mz(g, t.jit(1 / yv))); t.acc(yi, b, mz(g, t.jit(-xv / (yv * yv)))); break;
            }
        }
    });
    for (int k = 0; k < r * c; ++k) {
        LD xv = t->nodes[xi].v[bidx(x.size(), k)], yv = t->nodes[yi].v[bidx(y.size(), k)], v = 0;
        switch (op) { case '+': v = xv + yv; break; case '-': v = xv - yv; break; case '*': v = xv * yv; break; case '/': v = xv / yv; break; default: die("bin"); }
        t->nodes[o.id].v[k] = t->jit(v);
    }
    return o;
}
N cmp(const std::string& op, N x, N y) {
    Tape* t = x.t;
    bool xs = x.size() == 1;
    N o = t->node(xs ? y.rows() : x.rows(), xs ? y.cols() : x.cols(), nullptr);
    for (int k = 0; k < o.size(); ++k) {
        LD a = t->nodes[x.id].v[bidx(x.size(), k)], b = t->nodes[y.id].v[bidx(y.size(), k)];
        bool v = op == "<" ? a < b : op == "<=" ? a <= b : op == ">" ? a > b : op == ">=" ? a >= b
               : op == "==" ? a == b : op == "!=" ? a != b : op == "&&" ? (a != 0 && b != 0) : (a != 0 || b != 0);
        // values that only rounding keeps apart may compare either way
        bool blur = op != "&&" && op != "||" && a != b && fabsl(a - b) <= 0x1p-50L * std::max(fabsl(a), fabsl(b));
        t->branches.push_back(blur && t->amp != 0 ? 2 : v);
        t->nodes[o.id].v[k] = v;
    }
    return o;
}
static LD ipow(LD x, int n) {
    if (n < 0) return 1 / ipow(x, -n);
    LD r = 1; for (int i = 0; i < n; ++i) r *= x; return r;
}
N powi(N x, int n) {
    Tape* t = x.t; int xi = x.id;
    // at a zero base with n < 0 only the value is specified
    if (n < 0) for (int k = 0; k < x.size(); ++k) if (t->nodes[xi].v[k] == 0) t->dontcare.push_back({xi, k});
    N o = t->node(x.rows(), x.cols(), [xi, n](Tape& t, int id) {
        if (n == 0) return;
        for (size_t k = 0; k < t.nodes[id].v.size(); ++k) {
            LD j = n * ipow(t.nodes[xi].v[k], n - 1);
            t.acc(xi, int(k), mz(t.nodes[id].a[k], t.jit(t.jit(j))));
        }
    });
    for (int k = 0; k < o.size(); ++k) {
        LD v = ipow(t->nodes[xi].v[k], n);
        for (int i = 0; i < (n < 0 ? -n : n); ++i) v = t->jit(v);
        t->nodes[o.id].v[k] = v;
    }
    return o;
}

// ------------------------------------------------------------------ reductions
N sum(N x) {
    Tape* t = x.t; int xi = x.id;
    N o = t->node(1, 1, [xi](Tape& t, int id) {
        for (size_t k = 0; k < t.nodes[xi].v.size(); ++k) t.acc(xi, int(k), t.nodes[id].a[0]);
    });
    LD s = 0; for (LD v : t->nodes[xi].v) s += t->jit(v);
    t->nodes[o.id].v[0] = t->jit(s);
    return o;
}
N prod(N x) {
    Tape* t = x.t; int xi = x.id;
    N o = t->node(1, 1, [xi](Tape& t, int id) {
        auto& v = t.nodes[xi].v; size_t n = v.size();
        for (size_t k = 0; k < n; ++k) {
            LD p = 1; for (size_t j = 0; j < n; ++j) if (j != k) p = t.jit(p * v[j]);
            t.acc(xi, int(k), mz(t.nodes[id].a[0], t.jit(t.jit(p))));
        }
    });
    LD p = 1; for (LD v : t->nodes[xi].v) p = t->jit(p * v);
    t->nodes[o.id].v[0] = p;
    return o;
}
N sqnorm(N x) {
    Tape* t = x.t; int xi = x.id;
    N o = t->node(1, 1, [xi](Tape& t, int id) {
        for (size_t k = 0; k < t.nodes[xi].v.size(); ++k) t.acc(xi, int(k), mz(t.nodes[id].a[0], t.jit(2 * t.nodes[xi].v[k])));
    });
    LD s = 0; for (LD v : t->nodes[xi].v) s += t->jit(v * v);
    t->nodes[o.id].v[0] = t->jit(s);
    return o;
}
N fold(char op, const std::vector<N>& xs) {
    if (xs.empty()) die("fold of nothing");
    if (op == '+') { N r = xs[0]; for (size_t i = 1; i < xs.size(); ++i) r = bin('+', r, xs[i]); return r; }
    // product of all others, elementwise (no divisions)
    Tape* t = xs[0].t; std::vector<int> ids; for (auto& x : xs) ids.push_back(x.id);
    N o = t->node(xs[0].rows(), xs[0].cols(), [ids](Tape& t, int id) {
        for (size_t k = 0; k < t.nodes[id].v.size(); ++k)
            for (size_t i = 0; i < ids.size(); ++i) {
                LD p = 1; for (size_t j = 0; j < ids.size(); ++j) if (j != i) p = t.jit(p * t.nodes[ids[j]].v[k]);
                t.acc(ids[i], int(k), mz(t.nodes[id].a[k], t.jit(t.jit(p))));
            }
    });
    for (int k = 0; k < o.size(); ++k) { LD p = 1; for (int i : ids) p = t->jit(p * t->nodes[i].v[k]); t->nodes[o.id].v[k] = p; }
    return o;
}

N concat(const std::vector<N>& xs) {
    Tape* t = xs[0].t; std::vector<int> ids; for (auto& x : xs) ids.push_back(x.id);
    N o = t->node(int(ids.size()), 1, [ids](Tape& t, int id) { for (size_t k = 0; k < ids.size(); ++k) t.nodes[ids[k]].a[0] += t.nodes[id].a[k]; });
    for (size_t k = 0; k < ids.size(); ++k) t->nodes[o.id].v[k] = t->nodes[ids[k]].v[0];
    return o;
}
N fill(N s, int r, int c) {
    Tape* t = s.t; int si = s.id;
    N o = t->node(r, c, [si](Tape& t, int id) { for (auto g : t.nodes[id].a) t.acc(si, 0, g); });
    for (int k = 0; k < r * c; ++k) t->nodes[o.id].v[k] = t->nodes[si].v[0];
    return o;
}
std::vector<N> iter(int n, const std::function<N(int)>& f) { std::vector<N> v; for (int i = 0; i < n; ++i) v.push_back(f(i)); return v; }

// ------------------------------------------------------------------ linear algebra (column major)
static LD at(Tape& t, int id, int i, int j) { return t.nodes[id].v[size_t(j) * t.nodes[id].r + i]; }

N dot(N a, N b) {
    Tape* t = a.t; int ai = a.id, bi = b.id, m = a.rows(), k = a.cols(), n = b.cols();
    if (b.rows() != k) die("dot shape");
    N o = t->node(m, n, [=](Tape& t, int id) {
        for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) {
            LD g = t.nodes[id].a[size_t(j) * m + i];
            for (int l = 0; l < k; ++l) {
                t.acc(ai, l * m + i, mz(g, t.nodes[bi].v[size_t(j) * k + l]));
                t.acc(bi, j * k + l, mz(g, t.nodes[ai].v[size_t(l) * m + i]));
            }
        }
    });
    for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) {
        LD s = 0; for (int l = 0; l < k; ++l) s += t->jit(at(*t, ai, i, l) * at(*t, bi, l, j));
        t->nodes[o.id].v[size_t(j) * m + i] = t->jit(s);
    }
    return o;
}
N transpose(N a) {
    Tape* t = a.t; int ai = a.id, m = a.rows(), n = a.cols();
    N o = t->node(n, m, [=](Tape& t, int id) {
        for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) t.acc(ai, j * m + i, t.nodes[id].a[size_t(i) * n + j]);
    });
    for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) t->nodes[o.id].v[size_t(i) * n + j] = at(*t, ai, i, j);
    return o;
}
N trace(N a) {
    Tape* t = a.t; int ai = a.id, m = a.rows();
    N o = t->node(1, 1, [=](Tape& t, int id) { for (int i = 0; i < m; ++i) t.acc(ai, i * m + i, t.nodes[id].a[0]); });
    LD s = 0; for (int i = 0; i < m; ++i) s += t->jit(at(*t, ai, i, i));
    t->nodes[o.id].v[0] = t->jit(s);
    return o;
}
// the matrix a backward-stable double algorithm effectively works with
static std::vector<LD> noisy(Tape& t, int id) {
    auto v = t.nodes[id].v;
    if (t.amp == 0) return v;
    // 0, 1, 2, 3 on a diagonal or 1 and 2 anywhere: eliminated without rounding by every decomposition, so singular stays singular
    int n = t.nodes[id].r; bool diag = true, exact = true;
    for (size_t k = 0; k < v.size(); ++k) { bool on = k % size_t(n + 1) == 0; exact = exact && v[k] == floorl(v[k]) && v[k] >= 0 && v[k] <= (on ? 3 : 2); diag = diag && (on || v[k] == 0); }
    if (exact && (diag || std::all_of(v.begin(), v.end(), [](LD x) { return x == 1 || x == 2; }))) return v;
    LD mx = 0; for (LD x : v) mx = std::max(mx, fabsl(x));
    for (LD& x : v) x += mx * t.nodes[id].r * t.amp * LD(2 * t.rng.u01() - 1);
    return v;
}
// determinant and inverse by Gauss-Jordan with complete row pivoting; returns false if singular
static bool gj(std::vector<LD> a, int n, LD& det, std::vector<LD>& inv) {
    inv.assign(size_t(n) * n, 0); for (int i = 0; i < n; ++i) inv[size_t(i) * n + i] = 1;
    det = 1;
    auto A = [&](std::vector<LD>& m, int i, int j) -> LD& { return m[size_t(j) * n + i]; };
    for (int c = 0; c < n; ++c) {
        int p = c; for (int i = c; i < n; ++i) if (fabsl(A(a, i, c)) > fabsl(A(a, p, c))) p = i;
        if (A(a, p, c) == 0) { det = 0; return false; }
        if (p != c) { det = -det; for (int j = 0; j < n; ++j) { std::swap(A(a, p, j), A(a, c, j)); std::swap(A(inv, p, j), A(inv, c, j)); } }
        LD d = A(a, c, c); det *= d;
        for (int j = 0; j < n; ++j) { A(a, c, j) /= d; A(inv, c, j) /= d; }
        for (int i = 0; i < n; ++i) if (i != c) {
            LD f = A(a, i, c); if (f == 0) continue;
            for (int j = 0; j < n; ++j) { A(a, i, j) -= f * A(a, c, j); A(inv, i, j) -= f * A(inv, c, j); }
        }
    }
    return true;
}
N inv(N a) {
    Tape* t = a.t; int ai = a.id, n = a.rows();
    N o = t->node(n, n, [=](Tape& t, int id) {
        // d inv = - inv dA inv  ->  adj(A) = - inv^T adj inv^T
        auto& V = t.nodes[id].v; auto& G = t.nodes[id].a;
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
            LD s = 0;
            for (int k = 0; k < n; ++k) for (int l = 0; l < n; ++l) s += t.jit(V[size_t(i) * n + k] * mz(G[size_t(l) * n + k], V[size_t(l) * n + j]));
            t.acc(ai, j * n + i, -s);
        }
    });
    LD d; std::vector<LD> iv; gj(noisy(*t, ai), n, d, iv);
    t->nodes[o.id].v = iv;
    return o;
}
static N detlike(N a, bool lg) {
    Tape* t = a.t; int ai = a.id, n = a.rows();
    LD d; std::vector<LD> iv; bool ok = gj(noisy(*t, ai), n, d, iv);
    t->branches.push_back(ok);
    N o = t->node(1, 1, !ok ? std::function<void(Tape&, int)>() : [=](Tape& t, int id) {
        LD g = t.nodes[id].a[0] * (lg ? LD(1) : d);
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) t.acc(ai, j * n + i, mz(g, iv[size_t(i) * n + j]));
    });
    t->nodes[o.id].v[0] = t->jit(lg ? logl(fabsl(d)) : d);
    return o;
}
N det(N a) { return detlike(a, false); }
N logabsdet(N a) { return detlike(a, true); }
static N spdlike(N a, bool lg) {
    Tape* t = a.t; bool ok = is_spd(a); t->branches.push_back(ok);
    if (ok) return detlike(a, lg);
    N o = t->node(1, 1, nullptr); t->nodes[o.id].v[0] = NAN;      // value unspecified, no gradient
    return o;
}
N det_spd(N a) { return spdlike(a, false); }
N logabsdet_spd(N a) { return spdlike(a, true); }
N sub(N v, int off, int n) {
    Tape* t = v.t; int vi = v.id;
    N o = t->node(n, 1, [=](Tape& t, int id) { for (int k = 0; k < n; ++k) t.nodes[vi].a[off + k] += t.nodes[id].a[k]; });
    for (int k = 0; k < n; ++k) t->nodes[o.id].v[k] = t->nodes[vi].v[off + k];
    return o;
}
N reshape(N v, int off, int r, int c) {
    Tape* t = v.t; int vi = v.id;
    N o = t->node(r, c, [=](Tape& t, int id) { for (int k = 0; k < r * c; ++k) t.nodes[vi].a[off + k] += t.nodes[id].a[k]; });
    for (int k = 0; k < r * c; ++k) t->nodes[o.id].v[k] = t->nodes[vi].v[off + k];
    return o;
}
N elem(N v, int i) { return sub(v, i, 1); }
N neg_inf(Tape* t) { N o = t->node(1, 1, nullptr); t->nodes[o.id].v[0] = -INF; return o; }

N probe(int id, N x) {
    Tape* t = x.t; int xi = x.id;
    N o = t->node(x.rows(), x.cols(), [xi](Tape& t, int id) { for (size_t k = 0; k < t.nodes[id].a.size(); ++k) t.nodes[xi].a[k] += t.nodes[id].a[k]; });
    t->nodes[o.id].v = t->nodes[xi].v; t->probes.push_back({id, t->stmt, o.id});
    return o;
}
bool truth(N c) { bool b = c.t->nodes[c.id].v[0] != 0; c.t->branches.push_back(b); return b; }

N select(N cond, N a, N b) {
    Tape* t = cond.t; bool c = t->nodes[cond.id].v[0] != 0;
    t->branches.push_back(c);
    N s = c ? a : b; int si = s.id;
    N o = t->node(s.rows(), s.cols(), [si](Tape& t, int id) { for (size_t k = 0; k < t.nodes[id].a.size(); ++k) t.nodes[si].a[k] += t.nodes[id].a[k]; });
    t->nodes[o.id].v = t->nodes[si].v;
    return o;
}

// ------------------------------------------------------------------ statistics
static N cst(Tape* t, double x) { return t->leaf(1, 1, &x); }
static N ones(Tape* t, int n) { std::vector<double> d(n, 1.); return t->leaf(n, 1, d.data()); }
static bool note(Tape* t, bool b) { t->branches.push_back(b); return b; }

bool is_spd(N a) {
    // Cholesky of the lower triangle
    int n = a.rows(); Tape& t = *a.t; std::vector<LD> L(size_t(n) * n, 0);
    for (int j = 0; j < n; ++j) {
        LD s = at(t, a.id, j, j); for (int k = 0; k < j; ++k) s -= L[size_t(k) * n + j] * L[size_t(k) * n + j];
        if (!(s > 0)) return false;
        L[size_t(j) * n + j] = sqrtl(s);
        for (int i = j + 1; i < n; ++i) {
            LD u = at(t, a.id, i, j); for (int k = 0; k < j; ++k) u -= L[size_t(k) * n + i] * L[size_t(k) * n + j];
            L[size_t(j) * n + i] = u / L[size_t(j) * n + j];
        }
    }
    return true;
}
static bool allpos(N s) { for (LD v : s.t->nodes[s.id].v) if (!(v > 0)) return false; return true; }

// locations only enter through differences: their own rounding (in a mean, say) is part of the conditioning
static N loc(N x) { return bin('*', x, cst(x.t, 1.)); }
N normal(N x, N m, N s, bool matrix) {
    Tape* t = x.t; x = loc(x); m = loc(m);
    if (matrix) {
        if (!note(t, is_spd(s))) return neg_inf(t);
        N d = bin('-', x.size() == 1 ? bin('*', ones(t, s.rows()), x) : x, m);
        if (d.size() != s.rows()) d = bin('*', ones(t, s.rows()), d);
        N q = dot(transpose(d), dot(inv(s), d));
        return bin('*', cst(t, -0.5), bin('+', q, logabsdet(s)));
    }
    if (!note(t, allpos(s))) return neg_inf(t);
    N z = bin('/', bin('-', x, m), s);
    N ls = un("log", s);
    N l = z.size() > 1 && s.size() == 1 ? bin('*', cst(t, z.size()), ls) : sum(ls);
    return bin('-', bin('*', cst(t, -0.5), sqnorm(z)), l);
}
N cauchy(N x, N m, N s) {
    Tape* t = x.t; x = loc(x); m = loc(m);
    if (!note(t, allpos(s))) return neg_inf(t);
    N d = bin('-', x, m);
    N in = bin('+', s, bin('/', bin('*', d, d), s));
    return un("neg", sum(un("log", in)));
}
N uniform(N x, N lo, N hi) {
    Tape* t = x.t;
    N a = cmp("<", lo, x), b = cmp("<", x, hi);
    bool ok = true; for (LD v : t->nodes[a.id].v) ok = ok && v != 0; for (LD v : t->nodes[b.id].v) ok = ok && v != 0;
    if (!note(t, ok)) return neg_inf(t);
    N w = un("log", bin('-', hi, lo));
    N l = w.size() == 1 && x.size() > 1 ? bin('*', cst(t, x.size()), w) : sum(w);
    return un("neg", l);
}
// x log p + (1-x) log(1-p), p clipped to [0,1]; impossible outcomes have log-density -inf
N bernoulli(N x, N p) {
    Tape* t = x.t; int n = x.size();
    N acc = cst(t, 0.); bool ok = true;
    std::vector<N> terms;
    for (int k = 0; k < n; ++k) {
        LD xv = t->nodes[x.id].v[k], pv = t->nodes[p.id].v[bidx(p.size(), k)];
        bool one = xv == 1, zero = xv == 0;
        if (!one && !zero) { ok = false; continue; }
        if ((one && !(pv > 0)) || (zero && !(pv < 1))) { ok = false; continue; }
        if (pv <= 0 || pv >= 1) continue;                       // certain outcome: log 1
        N pk = p.size() == 1 ? p : elem(p, k);
        terms.push_back(one ? un("log", pk) : un("log", bin('-', cst(t, 1.), pk)));
    }
    if (!note(t, ok)) {
        // an impossible sample next to possible ones: only the responsible probabilities are specified
        bool all01 = true;
        for (int k = 0; k < n; ++k) { LD xv = t->nodes[x.id].v[k]; all01 = all01 && (xv == 0 || xv == 1); }
        if (all01 && p.size() > 1) for (int k = 0; k < n; ++k) { LD pv = t->nodes[p.id].v[k]; if (pv > 0 && pv < 1) t->dontcare.push_back({p.id, k}); }
        return neg_inf(t);
    }
    for (auto& q : terms) acc = bin('+', acc, q);
    return acc;
}
N wishart(N x, N v, N n) {
    Tape* t = x.t; LD p = x.rows(), nn = t->nodes[n.id].v[0];
    if (!note(t, is_spd(x) && is_spd(v) && nn > p - 1)) return neg_inf(t);
    N a = bin('*', cst(t, double(0.5L * (nn - p - 1))), logabsdet(x));
    N b = bin('*', cst(t, 0.5), trace(dot(inv(v), x)));
    N c = bin('*', cst(t, double(0.5L * nn)), logabsdet(v));
    return bin('-', bin('-', a, b), c);
}

} // namespace ref
