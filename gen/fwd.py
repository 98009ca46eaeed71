"""Scalar programs: straight-line code for forward mode (C20), and programs printed for both modes (C21)."""
UN = ['neg', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'exp', 'log', 'sqrt', 'erf']
def K(x): return f'T({float(x)!r})'

class Gen:
    """Expressions over v[0..n) that mostly stay inside every domain; k(c) prints a constant."""
    def __init__(self, g, names, k=K, lit=None):
        self.g, self.names, self.k, self.lit = g, names, k, lit
    def leaf(self):
        if self.g.random() < .18: return self.k(round(self.g.uniform(-2, 2), 2) or .5)
        return self.g.choice(self.names)
    def num(self): return self.k(round(self.g.uniform(.3, 2), 2))
    def pos(self, d):
        g = self.g; w = g.randrange(5)
        if w == 0 or d <= 0: a = g.choice(self.names); return f'({a} * {a} + {self.num()})'
        if w == 1: return f'exp({self.unit(d - 1)})'
        if w == 2: return f'sqrt({self.pos(d - 1)})'
        if w == 3: return f'({self.pos(d - 1)} * {self.pos(d - 2)})'
        return f'({self.pos(d - 1)} + {self.pos(d - 2)})'
    def unit(self, d):
        g = self.g; w = g.randrange(4)
        a = self.any(d - 1)
        if w == 0: return f'({self.k(.85)} * sin({a}))'
        if w == 1: return f'(cos({a}) * {self.k(.9)})'
        if w == 2: return f'({self.k(.6)} * atan({a}))'
        return f'(erf({a}) * {self.k(.9)})'
    def any(self, d):
        g = self.g
        if d <= 0: return self.leaf()
        w = g.random()
        if w < .45:
            f = g.choice(UN)
            if f == 'neg': return f'(-{self.v(d - 1)})'
            if f in ('log', 'sqrt'): return f'{f}({self.pos(d - 1)})'
            if f in ('asin', 'acos', 'tan', 'exp'): return f'{f}({self.unit(d - 1)})'
            return f'{f}({self.v(d - 1)})'
        op = g.choice('++-**/')
        if op == '/': return f'({self.v(d - 1)} / {self.pos(d - 2)})'
        a, b = self.v(d - 1), self.any(d - 2)
        return f'({a} {op} {b})' if g.random() < .5 else f'({b} {op} {a})'
    def v(self, d):                                     # certainly a variable expression
        return self.g.choice(self.names) if d <= 0 else self.any(d)

def c20_source(n):
    def src(g):
        texts = {}
        progs = [one(g, i) for i in range(n)]
        # every unary and binary operation alone, on every pattern of operands
        progs.append(prog('unary', [(0, f'v[0] = {"-" if f == "neg" else f}({a});') for f in UN for a in (['v[1]', 'v[0]'] if f not in ('log', 'sqrt', 'asin', 'acos') else ([f'(v[1] * v[1] + T(0.5))'] if f in ('log', 'sqrt') else ['(T(0.9) * sin(v[1]))']))]))
        progs.append(prog('binary', [(0, f'v[0] = v[{a}] {op} {b};') for op in '+-*' for a, b in ((1, 'v[2]'), (1, 'v[1]'), (0, 'v[1]'), (1, 'v[0]'), (0, 'v[0]'), (3, 'T(1.5)'))] + [(4, 'v[4] = v[5] * v[5] + T(0.5);'), (0, 'v[0] = sin(v[0]);'), (0, 'v[0] = v[1] / v[4];'), (4, 'v[4] = v[4] / v[4];'), (0, 'v[0] = v[4] / v[4];'), (0, 'v[0] = T(2.0) / v[4];'), (0, 'v[0] = v[0] / T(3.0);')]))
        progs.append(prog('compound', [(0, 'v[0] += v[1];'), (0, 'v[0] += v[0];'), (0, 'v[0] += 1.5;'), (0, 'v[0] += v[0] * v[0];'), (1, 'v[1] += (v[1] += v[2]);'), (2, '(v[2] += v[3]) += v[3];'), (2, '(v[2] += v[2]) += v[1];'), (3, 'same_object(v[3] += v[1], v[3]);'), (3, 'accumulate(v[3], v[3]);'), (4, 'auto& q = v[4]; q += v[4]; q += q;'),
                                       (5, 'const T& q = v[5]; v[5] += q;'), (5, 'v[5] = by_value(v[0], v[0]);'), (5, 'v[5] = by_value(v[5], v[1]);'), (5, 'v[5] = by_ref(v[5], v[5]);'), (0, 'T t; t += v[1]; t += t; v[0] = sin(t);'), (1, 'v[1] = 2.5;'), (1, 'v[1] += v[0];'), (2, 'T t(v[3]); t += v[2]; v[2] = t * v[3];'), (0, 'v[0] = v[0];')]))
        progs.append(prog('containers', [(0, 'std::vector<T> w(v + 1, v + 5); T t = std::accumulate(w.begin(), w.end(), T(0.0)); v[0] = t;'), (0, 'std::vector<T> w; for (int i = 0; i < 6; ++i) { w.push_back(v[i] * v[i]); w.push_back(w.back()); } v[0] = T(0.0); for (auto& z : w) v[0] += sin(z);'), (1, 'v[1] = std::inner_product(v + 2, v + 4, v + 3, T(1.0));'), (2, 'T t = v[2]; for (int i = 0; i < 4; ++i) t = sin(t) * v[3] + t; v[2] = t;'), (4, 'T a[3] = {v[0], 2.0, v[4]}; std::swap(a[0], a[2]); v[4] = a[0] - a[2] * a[1];'),
                                         (3, 'T p(1.0); for (int i = 0; i < 5; ++i) p = p * sin(v[i]); v[3] = p;'), (0, 'auto f = [&](const T& z) { return exp(sin(z)) * v[1]; }; v[0] = f(f(v[2]));'), (0b110000 | (1 << 30), 'std::swap(v[4], v[5]);')]))
        for f in UN: progs.append(prog(f'ext_{f}', [(i, f'v[{i}] = {"-" if f == "neg" else f}(v[{j}]);') for i, j in ((0, 3), (1, 4), (2, 2), (5, 4))], DOMS.get(f, 'A')))
        for nm, op in zip(('add', 'sub', 'mul', 'div'), '+-*/'): progs.append(prog(f'ext_{nm}', [(0, f'v[0] = v[1] {op} v[2];'), (1, f'v[1] = v[2] {op} T(3.5);'), (2, f'v[2] = T(0.125) {op} v[3];'), (3, f'v[3] = v[4] {op} v[4];'), (4, f'v[4] = v[5] {op} v[4];')], 'P'))
        progs.append(prog('ext_acc', [(0, 'v[0] += v[1];'), (1, 'v[1] += v[1];'), (2, 'v[2] += v[3] * v[4];'), (5, '(v[5] += v[0]) += 3.;')], 'A'))
        for k in range(4):
            texts[f'p{k}'] = '#include "fwdprog.hpp"\nnamespace fw {\n' + ''.join(progs[k::4]) + '}\n'
        return texts
    return src

DOMS = {'log': 'P', 'sqrt': 'P', 'asin': 'U', 'acos': 'U', 'tan': 'T', 'exp': 'E'}

def prog(name, stm, dom=None):
    """stm: (left side, text)"""
    body = ''.join(f'  case {i}: {{ {t} break; }}\n' for i, (l, t) in enumerate(stm))
    lhs = ', '.join(str((l & 63) if l >> 30 else 1 << l) for l, t in stm)
    dm = f", '{dom}'" if dom else ''
    return (f'struct P_{name} {{ template <class T> static void run(T* v, int s) {{ using namespace ad; using namespace rd; switch (s) {{\n{body}  }} }} }};\n'
            f'static Reg r_{name}({{"{name}", {len(stm)}, {{{lhs}}}, P_{name}::run<rd::RD>, P_{name}::run<FD>, P_{name}::run<FF>, P_{name}::run<FL>{dm}}});\n')

def one(g, i):
    n = g.randrange(4, 11); stm = []
    G = Gen(g, [f'v[{k}]' for k in range(6)])
    for _ in range(n):
        l = g.randrange(6); w = g.randrange(12); m, q = g.randrange(6), g.randrange(6)
        if w < 5: t = f'v[{l}] = {G.any(g.randrange(1, 5))};'
        elif w < 7: t = f'v[{l}] += {G.any(g.randrange(0, 4))};'
        elif w == 7: t = f'v[{l}] += v[{l}];'
        elif w == 8: t = f'(v[{l}] += v[{m}]) += {G.any(2)};'
        elif w == 9: t = f'const T& q = v[{m}]; T z = {G.any(2)}; z += q; v[{l}] = sin(z) * q;'
        elif w == 10: t = f'v[{l}] = by_ref(v[{m}], v[{q}]) * by_value(v[{q}], v[{m}]);'
        else: t = f'v[{l}] = {G.unit(2)}; v[{l}] += v[{m}];'
        stm.append((l, t))
        if g.random() < .25: stm.append((l, f'v[{l}] = T(0.5) * sin(v[{l}]) + v[{g.randrange(6)}] * T(0.25);'))
    return prog(f'r{i}', stm)

# ------------------------------------------------------------------ C21: one program, printed for both modes
def both(name, stm, res, dom=None):
    """stm: ('let', k, e) a local / placeholder w<k>;  ('add', i, e) x<i> += e.  Expressions over x<i>, w<k> and KK(c)."""
    dm = f", '{dom}'" if dom else ''
    f = ''.join(f'T w{k} = {e}; ' if op == 'let' else f'x{k} += {e}; ' for op, k, e in stm)
    fx = ''.join(f'T& x{i} = x[{i}]; ' for i in range(4))
    rx = ''.join(f'RV& x{i} = x[{i}]; ' for i in range(4)) + ''.join(f'RV& w{k} = w[{k}]; ' for k in range(4))
    r = ', '.join([f'w{k} = {e}' if op == 'let' else f'x{k} += {e}' for op, k, e in stm] + [res])
    fwd = lambda s: s.replace('KK(', 'T(')
    rev = lambda s: s.replace('KK(', 'K(')
    return (f'struct F_{name} {{ template <class T> static T run(T* x) {{ using namespace ad; using namespace rd; {fx}{fwd(f)}return {fwd(res)}; }} }};\n'
            f'static std::unique_ptr<IRev> m_{name}(RV* x, RV* w) {{ using namespace ad; {rx}return rev(ad::bind(({rev(r)}))); }}\n'
            f'static Reg g_{name}({{"{name}", F_{name}::run<FD>, F_{name}::run<rd::RD>, m_{name}{dm}}});\n')

def c21_source(n):
    def src(g):
        kk = lambda c: f'KK({float(c)!r})'
        out = []
        X = [f'x{i}' for i in range(4)]
        for f in UN:
            a = {'log': '(x0 * x0 + KK(0.5))', 'sqrt': '(x0 * x0 + KK(0.5))', 'asin': '(KK(0.9) * sin(x0))', 'acos': '(KK(0.9) * sin(x0))'}.get(f, 'x0')
            out.append(both(f'u_{f}', [], f'(-{a})' if f == 'neg' else f'{f}({a})'))
            out.append(both(f'v_{f}', [('let', 0, f'(-{a})' if f == 'neg' else f'{f}({a})')], 'w0 * w0 + w0 * x1'))
            a = '(-x0)' if f == 'neg' else f'{f}(x0)'; d = DOMS.get(f, 'A')
            out.append(both(f'e_{f}', [], a, d)); out.append(both(f'f_{f}', [('let', 0, a)], '(w0 + x1) * x2', d))
        for nm, op in zip(('add', 'sub', 'mul', 'div'), '+-*/'):
            for k, (a, b) in enumerate((('x0', 'x1'), ('x0', 'KK(1.5)'), ('KK(1.5)', 'x0'), ('x0', '(x0 * x1)'))): out.append(both(f'e_{nm}{k}', [], f'{a} {op} {b}', 'P'))
        for nm, op in zip(('add', 'sub', 'mul', 'div'), '+-*/'):
            for k, (a, b) in enumerate((('x0', '(x1 * x1 + KK(0.5))'), ('x0', 'KK(1.5)'), ('KK(1.5)', '(x0 * x0 + KK(0.5))'), ('x0', 'exp(x0)'), ('sin(x0)', 'exp(x1)'))):
                out.append(both(f'b_{nm}{k}', [], f'{a} {op} {b}'))
            if op != '/': out.append(both(f'b_{nm}s', [], f'x2 {op} x2'))
        for i in range(n):
            d = g.randrange(2, 6); G = Gen(g, X, kk); w = g.randrange(4); stm = []
            if w == 1 or w == 3:
                for k in range(g.randrange(1, 4)):
                    stm.append(('let', k, f'({G.any(g.randrange(1, 4))} + {g.choice(G.names)})')); G.names = G.names + [f'w{k}', f'w{k}']
            if w >= 2:
                for k in range(g.randrange(1, 4)): stm.append(('add', g.randrange(4), f'({G.any(g.randrange(1, 3))} * {g.choice(G.names)})')) if g.random() < .7 else stm.append(('add', *(lambda q: (q, f'(x{q} * KK(0.5))'))(g.randrange(4))))
                if w == 3: g.shuffle(stm) if False else None
            out.append(both(f'r{i}', stm, f'({G.any(d)} * {g.choice(G.names)})'))
        return {f'a{k}': '#include "agreeprog.hpp"\nnamespace ag {\n' + ''.join(out[k::8]) + '}\n' for k in range(8)}
    return src
