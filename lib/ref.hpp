// Reference semantics for the monitors: a reverse-mode tape over dynamic matrices in long double,
// written from the mathematics of each operation (never from FastAD's formulas).
//
// Every run can be "jittered": each elementary result and each backward contribution is multiplied
// by 1 + amp*u with u uniform in [-1,1].  One exact run (amp = 0) gives the expected number; the spread
// of several jittered runs gives how far a double computation of the same thing may legitimately be off,
// so tolerances follow the conditioning of the input at hand instead of being guessed.
#pragma once
#include <cmath>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace ref {

using LD = long double;

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    double u01() { return (next() >> 11) * 0x1p-53; }
    double uni(double a, double b) { return a + (b - a) * u01(); }
    int below(int n) { return int(next() % uint64_t(n)); }
    bool chance(double p) { return u01() < p; }
};

struct Tape;

struct N {            // handle of a tape node
    Tape* t = nullptr;
    int id = -1;
    int rows() const;
    int cols() const;
    int size() const;
};

struct Tape {
    struct Node {
        int r, c;
        std::vector<LD> v, a;
        std::function<void(Tape&, int)> back;   // may be empty
    };
    std::vector<Node> nodes;
    LD amp = 0;
    Rng rng{1};
    std::vector<char> branches;                 // outcomes of every comparison / support test
    struct Probe { int id, stmt, node; };
    std::vector<Probe> probes; int stmt = 0;    // marked subexpressions in the order of the reference run, and the statement they belong to
    std::vector<std::pair<int, int>> dontcare;  // (node, element) whose adjoint the property leaves open
    LD jit(LD x) {
        if (amp == 0 || x == 0) return x;
        return x * (1 + amp * LD(2 * rng.u01() - 1));
    }
    N leaf(int r, int c, const double* d);
    N node(int r, int c, std::function<void(Tape&, int)> back);
    // seeds the node and runs the tape backwards
    void backward(N out, const double* seed);
    void acc(int id, int k, LD x) { if (x != 0) nodes[id].a[k] += jit(x); }
};

// elementwise
N un(const std::string& f, N x);
N bin(char op, N x, N y);                        // + - * /  with scalar broadcasting
N cmp(const std::string& op, N x, N y);          // < <= > >= == != && ||
N powi(N x, int n);
// reductions
N sum(N x);
N prod(N x);
N sqnorm(N x);
// linear algebra
N dot(N a, N b);
N transpose(N a);
N inv(N a);
N det(N a);
N logabsdet(N a);
N det_spd(N a);                                  // for a policy that rejects what is not positive definite
N logabsdet_spd(N a);
N trace(N a);
N sub(N v, int off, int n);                      // v[off .. off+n)
N reshape(N v, int off, int r, int c);           // consecutive elements (column-major) as a matrix
N elem(N v, int i);                              // v(i) as a scalar
N neg_inf(Tape* t);
N probe(int id, N x);                            // the same value, remembered in Tape::probes
bool truth(N c);                                 // the outcome of a condition, as a branch
N fold(char op, const std::vector<N>& xs);       // sum / prod of several expressions (elementwise)
N concat(const std::vector<N>& xs);              // scalars to a vector
N fill(N s, int r, int c);                       // a scalar repeated
std::vector<N> iter(int n, const std::function<N(int)>& f);
// selection: the value and gradient of the chosen one only
N select(N cond, N a, N b);
// statistics, up to the documented omission of constants; -inf without gradient outside the support
N normal(N x, N m, N s, bool matrix = false);   // matrix: s is a covariance
N cauchy(N x, N m, N s);
N uniform(N x, N lo, N hi);
N bernoulli(N x, N p);
N wishart(N x, N v, N n);
bool is_spd(N a);

} // namespace ref
