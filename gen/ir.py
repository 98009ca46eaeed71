"""Expressions that print themselves twice: as FastAD code and as code over the reference tape."""
import random, re

S = ('S', '1', '1')
def V(n='n'): return ('V', n, '1')
def M(p='p', q='q'): return ('M', p, q)

class E:
    __slots__ = ('c', 'r', 'sh', 'const', 'leaf')
    def __init__(self, c, r, sh, const=False, leaf=False):
        self.c, self.r, self.sh, self.const, self.leaf = c, r, sh, const, leaf

class Case:
    """One generated case: declares inputs, statements and the result."""
    def __init__(self, name, tags=()):
        self.name = name; self.tags = set(tags); self.ins = []; self.decl = []; self.rstm = []; self.flags = set(); self.res = None
        self.cstm = []; self.tmp = 0; self.flat = False     # flat: no statement structure
    # ---- inputs
    def inp(self, role, sh, dom, kind='own'):
        i = len(self.ins); own = kind == 'own'
        self.ins.append((role, sh, dom, own))
        k = sh[0].lower()
        if role == 'CONST':
            acc = {'const': 'k' + k, 'constview': 'kw' + k, 'iconst': 'k' + ('i' if k == 's' else 'i' + k), 'fconst': 'kfv'}[kind]
            if k == 's': acc = 'ki' if kind == 'iconst' else 'ks'
            self.decl.append(f'auto&& x{i} = I.{acc}({i});')
        elif own: self.decl.append(f'auto& x{i} = I.v{k}({i});')
        else: self.decl.append(f'auto x{i} = I.w{k}({i});')
        return E(f'x{i}', f'R.x[{i}]', sh, role == 'CONST', True)
    def var(self, sh, dom='R', kind='own'): return self.inp('VAR', sh, dom, kind)
    def const(self, sh, dom='R', kind='const'): return self.inp('CONST', sh, dom, kind)
    def hold(self, sh, kind='own'): self.flags.add('F_ASSIGN'); return self.inp('HOLD', sh, 'R', kind)
    def opeq(self, sh, dom='R', kind='own'): self.flags.add('F_ASSIGN'); return self.inp('OPEQ', sh, dom, kind)
    def idle(self, sh, kind='own'):
        i = len(self.ins); self.ins.append(('IDLE', sh, 'R', kind == 'own'))
    def lit(self, v): return E(repr(float(v)), f'R.k({float(v)!r})', S, True)
    def clit(self, v): return E(f'ad::constant({float(v)!r})', f'R.k({float(v)!r})', S, True)
    def ilit(self, v): return E(str(int(v)), f'R.k({int(v)})', S, True)
    # ---- finishing
    def emit(self):
        sh = self.res.sh
        ins = ', '.join('{%s, %s, \'%s\', \'%s\', %s, %s}' % (r, s[0], s[1], s[2], d, 'true' if o else 'false') for r, s, d, o in self.ins)
        fl = ' | '.join(sorted(self.flags | ({'F_SCL'} if sh == S else set()) | (set() if re.search(r'prod|for_each|\*=|/=', self.res.c + ' '.join(self.cstm + self.decl)) else {'F_LONG'}))) or '0'
        n = self.name
        return (f'static std::unique_ptr<IExpr> mk_{n}(In& I) {{ (void)I; {" ".join(self.decl)} {" ".join(self.cstm)} return hold({self.res.c}); }}\n'
                f'static ref::N rf_{n}(RIn& R) {{ (void)R; {(" " if self.flat else " ++R.t->stmt; ").join(self.rstm + [""])} return {self.res.r}; }}\n'
                f'static Reg rg_{n}({{"{n}", {{{ins}}}, \'{sh[1]}\', \'{sh[2]}\', mk_{n}, rf_{n}, {fl}}});\n')

# ---- probes: when a Prober is installed, operations are built over user-defined expressions that record their visits
PROBER = None; ITER = None
class Prober:
    def __init__(self, rng, p=.4, pl=.3): self.g, self.p, self.pl, self.n = rng, p, pl, 0
    def id(self):
        self.n += 1; i = self.n * 100
        return f'{i} + {ITER}' if ITER else str(i)
    def arg(self, e):
        if e.const or not e.leaf or self.g.random() > self.pl: return e
        i = self.id()
        c = f'leaf({i}, {e.c})' if re.match(r'x\d+$', e.c) and self.g.random() < .6 else f'probe<{self.g.randrange(3)}>({i}, {e.c})'
        return E(c, f'ref::probe({i}, {e.r})', e.sh)
    def res(self, e):
        if e.const or self.g.random() > self.p: return e
        i = self.id()
        return E(f'probe<{self.g.randrange(3)}>({i}, {e.c})', f'ref::probe({i}, {e.r})', e.sh)
def probed(res=True):
    def deco(f):
        def g(*a):
            if PROBER is None: return f(*a)
            e = f(*[PROBER.arg(x) if isinstance(x, E) else x for x in a])
            return PROBER.res(e) if res else e
        return g
    return deco

# ---- operations
CPP_UN = {'neg': '-', 'sigmoid': 'ad::sigmoid'}
@probed()
def un(f, e): return E(f'(-{e.c})' if f == 'neg' else f'ad::{f}({e.c})', f'ref::un("{f}", {e.r})', e.sh, e.const)
def bsh(a, b): return b.sh if a.sh == S else a.sh
@probed()
def bn(op, a, b): return E(f'({a.c} {op} {b.c})', f"ref::bin('{op}', {a.r}, {b.r})", bsh(a, b), a.const and b.const)
def assigned(op, a, b): return f"ref::bin('{op}', {a.r}, {b.r})"      # what a compound assignment leaves in the variable
@probed(False)
def cmp(op, a, b): return E(f'({a.c} {op} {b.c})', f'ref::cmp("{op}", {a.r}, {b.r})', bsh(a, b), a.const and b.const)
@probed()
def pw(n, e): return E(f'ad::pow<{n}>({e.c})', f'ref::powi({e.r}, {n})', e.sh, e.const)
@probed()
def sum_(e): return E(f'ad::sum({e.c})', f'ref::sum({e.r})', S, e.const)
@probed()
def prod_(e): return E(f'ad::prod({e.c})', f'ref::prod({e.r})', S, e.const)
@probed()
def norm_(e): return E(f'ad::norm({e.c})', f'ref::sqnorm({e.r})', S, e.const)
@probed()
def dot(a, b): return E(f'ad::dot({a.c}, {b.c})', f'ref::dot({a.r}, {b.r})', ('V', a.sh[1], '1') if b.sh[0] == 'V' else ('M', a.sh[1], b.sh[2]), a.const and b.const)
@probed()
def tr(a): return E(f'ad::transpose({a.c})', f'ref::transpose({a.r})', ('M', a.sh[2], a.sh[1]), a.const)
@probed()
def det(a, pol=None): return E(f'ad::det{"<ad::Det" + pol + ">" if pol else ""}({a.c})', f'ref::det({a.r})', S, a.const)
@probed()
def logdet(a, pol=None): return E(f'ad::log_det{"<ad::LogDet" + pol + ">" if pol else ""}({a.c})', f'ref::logabsdet({a.r})', S, a.const)
@probed()
def ite(c, a, b): return E(f'ad::if_else({c.c}, {a.c}, {b.c})', f'ref::select({c.r}, {a.r}, {b.r})' if PROBER is None else f'(ref::truth({c.r}) ? ({a.r}) : ({b.r}))', a.sh, c.const and a.const and b.const)
def wrapc(e): return E(f'ad::constant({e.c})', e.r, e.sh, True)
@probed()
def stat(d, *a):
    rf = ', '.join(x.r for x in a)
    if d == 'normal' and a[2].sh[0] == 'M': rf += ', true'
    return E(f'ad::{d}_adj_log_pdf({", ".join(x.c for x in a)})', f'ref::{d}({rf})', S, False)
# element of a vector variable by a loop variable (or literal index)
def el(v, i): return E(f'{v.c}({i})', f'ref::elem({v.r}, {i})', S, False, True)

UNARY = {'neg': 'R', 'sin': 'R', 'cos': 'R', 'tan': 'TAN', 'asin': 'UNIT', 'acos': 'UNIT', 'atan': 'R', 'exp': 'R', 'log': 'POS', 'sqrt': 'POS',
         'erf': 'R', 'sigmoid': 'R', 'sinh': 'R', 'cosh': 'R', 'tanh': 'R'}
EXTREME = {'neg': 'EANY', 'sin': 'EANY', 'cos': 'EANY', 'tan': 'ETAN', 'asin': 'EUNIT', 'acos': 'EUNIT', 'atan': 'EANY', 'exp': 'EEXP', 'log': 'EPOS', 'sqrt': 'EPOS',
           'erf': 'EANY', 'sigmoid': 'EANY', 'sinh': 'EEXP', 'cosh': 'EEXP', 'tanh': 'EANY'}

class Rnd:
    """Random expressions that stay inside every domain."""
    def __init__(self, case, rng, ops=None, share=.5, consts=.15, stats=True):
        self.k = case; self.g = rng; self.pool = []; self.share = share; self.consts = consts; self.ops = ops; self.stats = stats
        self.frozen = False; self.noiter = False
    def leaf(self, sh, dom):
        g = self.g
        if g.random() < self.consts and not self.frozen:
            if sh == S:
                w = g.random()
                if w < .4: return self.k.clit(round({'POS': g.uniform(.3, 2), 'UNIT': g.uniform(-.8, .8), 'NZ': g.choice([-1.5, .75, 2.])}.get(dom, g.uniform(-2, 2)), 3))
                return wrapc(self.k.const(S, dom))
            kd = g.choice(['const', 'constview']); e = self.k.const(sh, dom, kd)
            return e if kd == 'constview' else wrapc(e)
        c = [e for e, s, d in self.pool if s == sh and d == dom]
        if c and g.random() < self.share: return g.choice(c)
        if c and len(self.pool) > 7: return g.choice(c)
        e = self.k.var(sh, dom, g.choice(['own', 'view']))
        self.pool.append((e, sh, dom)); return e
    def vleaf(self, sh, dom):                    # a variable for certain
        o = self.consts; self.consts = 0; e = self.leaf(sh, dom); self.consts = o; return e
    def add(self, e, dom='R'): self.pool.append((e, e.sh, dom))
    def pos(self, sh, d):
        g = self.g
        if d <= 0: return self.leaf(sh, 'POS')
        w = g.randrange(7)
        if w == 0: return un('exp', self.unit(sh, d - 1))
        if w == 1: return bn('+', pw(2, self.any(sh, d - 1)), self.k.lit(.5))
        if w == 2: return un('sqrt', self.pos(sh, d - 1))
        if w == 3: return bn('*', self.pos(sh, d - 1), self.pos(g.choice([S, sh]), d - 2))
        if w == 4: return bn('+', self.pos(sh, d - 1), self.pos(g.choice([S, sh]), d - 2))
        if w == 5: return un('cosh', self.unit(sh, d - 1))
        return bn('/', self.pos(sh, d - 1), self.pos(S, d - 2))
    def unit(self, sh, d):
        g = self.g
        if d <= 0: return self.leaf(sh, 'UNIT')
        w = g.randrange(5)
        if w == 0: return bn('*', self.k.lit(.9), un('sin', self.any(sh, d - 1)))
        if w == 1: return bn('*', un('cos', self.any(sh, d - 1)), self.k.lit(.8))
        if w == 2: return bn('*', self.k.lit(.95), un('tanh', self.any(sh, d - 1)))
        if w == 3: return un('neg', bn('*', un('erf', self.any(sh, d - 1)), self.k.lit(.9)))
        return bn('-', un('sigmoid', self.any(sh, d - 1)), self.k.lit(.5))
    def dom(self, dom, sh, d):
        if dom == 'POS': return self.pos(sh, d)
        if dom in ('UNIT', 'TAN'): return self.unit(sh, d)
        return self.any(sh, d)
    def scalar_special(self, d):
        g = self.g
        w = g.randrange(12 if self.stats else 6)
        if w == 0: return sum_(self.any(g.choice([V(), M()]), d - 1))
        if w == 1: return prod_(self.unit(V('3'), d - 1)) if d > 1 else prod_(self.vleaf(V(), 'NZ'))
        if w == 2: return norm_(self.any(g.choice([V(), M()]), d - 1))
        if w == 3: return ite(cmp(g.choice(['<', '>', '<=', '>=']), self.any(S, d - 2), self.any(S, d - 2)), self.any(S, d - 1), self.any(S, d - 1))
        if w == 4 and not self.noiter: return self.iter(d)
        if w in (4, 5): return el(self.vleaf(V('4'), 'R'), g.randrange(4))
        if w == 6: return stat('normal', self.any(V(), d - 1), self.any(g.choice([S, V()]), d - 2), self.pos(g.choice([S, V()]), d - 2))
        if w == 7: return stat('cauchy', self.any(V(), d - 1), self.any(g.choice([S, V()]), d - 2), self.pos(g.choice([S, V()]), d - 2))
        if w == 8: return stat('normal', self.any(S, d - 1), self.any(S, d - 2), self.pos(S, d - 2))
        if w == 9: return stat('bernoulli', wrapc(self.k.const(V(), 'BIN')), un('sigmoid', bn('*', self.unit(g.choice([S, V()]), d - 1), self.k.lit(3.))))
        if w == 10: return logdet(bn('+', wrapc(self.k.const(M('p', 'p'), 'GEN')), bn('*', self.k.lit(.02), un('sin', self.any(M('p', 'p'), d - 1)))))
        return stat('normal', self.any(V('p'), d - 1), self.any(V('p'), d - 2), self.leaf(M('p', 'p'), 'SPD'))
    def iter(self, d):
        g = self.g; k = self.k
        v = self.vleaf(V(), 'R'); w = self.vleaf(V(), 'POS'); s = self.vleaf(S, 'R')
        op = g.choice(['sum', 'sum', 'prod'])
        b = g.choice([lambda i: bn('*', el(v, i), s), lambda i: un('log', el(w, i)), lambda i: bn('*', un('sin', el(v, i)), el(w, i)), lambda i: bn('/', el(v, i), bn('+', el(w, i), pw(2, s)))])
        if op == 'prod': b = g.choice([lambda i: bn('+', un('sin', el(v, i)), k.lit(1.5)), lambda i: un('sigmoid', bn('*', el(v, i), s))])
        global ITER
        ITER, o = 'i', ITER; bb = b('i'); ITER = o
        k.cstm.append('auto ix%d = I.idx(I.n);' % k.tmp); ix = 'ix%d' % k.tmp; k.tmp += 1
        return E(f'ad::{op}({ix}.begin(), {ix}.end(), [&](int i) {{ return {bb.c}; }})',
                 f"ref::fold('{'+' if op == 'sum' else '*'}', ref::iter(R.n, [&](int i) {{ return {bb.r}; }}))", S)
    def any(self, sh, d):
        g = self.g
        if d <= 0: return self.leaf(sh, 'R')
        w = g.random()
        if w < .28:
            f = g.choice(list(UNARY))
            if f in ('exp', 'sinh', 'cosh'): return un(f, self.unit(sh, d - 1))
            if f == 'tan': return un(f, self.unit(sh, d - 1))
            return un(f, self.dom(UNARY[f], sh, d - 1))
        if w < .62:
            op = g.choice(['+', '-', '*', '*', '/'])
            other = S if sh == S or g.random() < .35 else sh
            a = self.any(sh, d - 1); b = self.pos(other, d - 2) if op == '/' else self.any(other, d - g.choice([1, 2]))
            return bn(op, b, a) if other == sh and op != '/' and g.random() < .5 or (op in '+-*' and g.random() < .4) else bn(op, a, b)
        if w < .68: return pw(g.choice([0, 1, 2, 3, 4]), self.any(sh, d - 1))
        if w < .72: return pw(g.choice([-1, -2]), self.pos(sh, d - 1))
        if w < .78: return ite(cmp(g.choice(['<', '>', '<=', '>=', '==', '!=']), self.any(S, d - 2), self.any(S, 0)), self.any(sh, d - 1), self.any(sh, d - 1))
        if sh == S: return self.scalar_special(d)
        if w < .9:
            if sh[0] == 'M':
                if g.random() < .5: return tr(self.any(M(sh[2], sh[1]), d - 1))
                m = g.choice(['p', 'q', '2', '3']); return dot(self.any(M(sh[1], m), d - 1), self.any(M(m, sh[2]), d - 2))
            m = g.choice(['p', '2']); return dot(self.any(M(sh[1], m), d - 2), self.any(V(m), d - 1))
        return bn(g.choice(['+', '*']), self.scalar_special(d - 1), self.any(sh, d - 1))
