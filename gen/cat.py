"""The catalogue: which programs each property is judged on."""
import random, re
from ir import *

SH = {'S': S, 'V': V(), 'M': M()}

def leafkind(k, sh, dom, kind):
    """kind: own view const constview expr"""
    if kind in ('own', 'view'): return k.var(sh, dom, kind)
    if kind in ('const', 'constview', 'iconst', 'fconst'): return k.const(sh, dom, kind)
    raise ValueError(kind)

def compound(k, sh, dom, g):
    """a compound operand whose value lies in dom"""
    a = k.var(sh, {'POS': 'POS', 'UNIT': 'UNIT', 'TAN': 'UNIT', 'NZ': 'POS', 'PROB': 'R'}.get(dom, 'R'), g.choice(['own', 'view']))
    if dom == 'POS': return bn('*', a, un('exp', k.var(S, 'UNIT')))
    if dom in ('UNIT', 'TAN'): return bn('*', a, k.lit(.95))
    if dom == 'NZ': return un('neg', bn('+', a, k.lit(.3)))
    if dom == 'PROB': return un('sigmoid', a)
    return bn('*', a, un('sin', k.var(g.choice([S, sh]), 'R')))

# ------------------------------------------------------------------ C03
def unary(g):
    out = []
    for f in UNARY:
        for s in 'SVM':
            for kind in ('own', 'view', 'expr', 'ext'):
                k = Case(f'un_{f}_{s}_{kind}')
                dom = EXTREME[f] if kind == 'ext' else UNARY[f]
                if f in ('exp', 'sinh', 'cosh') and kind == 'expr': dom = 'UNIT'
                x = compound(k, SH[s], dom, g) if kind == 'expr' else k.var(SH[s], dom, 'own' if kind == 'ext' and g.random() < .5 else 'view' if kind in ('view', 'ext') else 'own')
                y = un(f, x)
                if kind == 'expr': y = bn('*', y, k.var(S, 'NZ'))
                k.idle(SH[g.choice('SVM')])
                k.res = y; out.append(k)
    # chains of two functions
    fs = list(UNARY)
    for i, f in enumerate(fs):
        h = g.choice(['sin', 'cos', 'tanh', 'erf', 'atan', 'neg', 'sigmoid'])
        s = g.choice('SVM'); k = Case(f'un2_{f}_{h}_{s}')
        x = k.var(SH[s], 'R', g.choice(['own', 'view']))
        inner = un(h, x)
        if UNARY[f] == 'POS': inner = bn('+', inner, k.lit(3.2))
        elif UNARY[f] in ('UNIT', 'TAN'): inner = bn('*', inner, k.lit(.3))
        k.res = un(f, inner); out.append(k)
    return out

# ------------------------------------------------------------------ C04
OPS = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div'}
CMPS = {'<': 'lt', '<=': 'le', '>': 'gt', '>=': 'ge', '==': 'eq', '!=': 'ne', '&&': 'and', '||': 'or'}
PAIRS = ['SS', 'SV', 'VS', 'VV', 'SM', 'MS', 'MM']
def binary(g, full=True):
    out = []
    kinds = [('own', 'view'), ('view', 'own'), ('own', 'const'), ('const', 'view'), ('constview', 'own'), ('own', 'constview'), ('expr', 'own'), ('view', 'expr'), ('expr', 'expr'), ('expr', 'const'), ('const', 'expr'), ('iconst', 'own'), ('own', 'iconst')]
    for op, nm in OPS.items():
        for pr in PAIRS:
            for ka, kb in kinds:
                if pr[0] == 'S' and ka == 'constview' or pr[1] == 'S' and kb == 'constview': continue
                if 'iconst' in (ka, kb) and ('iconst' == ka and pr[0] != 'S' or 'iconst' == kb and pr[1] != 'S'): continue
                k = Case(f'bin_{nm}_{pr}_{ka}_{kb}')
                d2 = 'NZ' if op == '/' else 'R'
                def mk(kind, sh, dom):
                    if kind == 'expr': return compound(k, sh, dom, g)
                    if kind == 'iconst': return k.const(sh, 'NZINT' if dom == 'NZ' else 'INT', kind)
                    return leafkind(k, sh, dom, kind)
                a = mk(ka, SH[pr[0]], 'R'); b = mk(kb, SH[pr[1]], d2)
                y = bn(op, a, b)
                if g.random() < .3: y = bn(g.choice('+*'), y, k.var(S, 'NZ'))
                k.idle(S); k.res = y; out.append(k)
        for s in 'SVM':
            k = Case(f'bin_{nm}_{s}_alias'); x = k.var(SH[s], 'NZ'); k.res = bn(op, x, x); out.append(k)
            k = Case(f'bin_{nm}_{s}_alias2'); x = k.var(SH[s], 'POS', 'view'); k.res = bn(op, bn('*', x, x), bn('+', x, un('exp', x))); out.append(k)
            k = Case(f'bin_{nm}_{s}_nest'); x = k.var(SH[s], 'POS'); y = k.var(SH[g.choice(['S', s])], 'POS'); z = k.var(S, 'POS'); k.res = bn(op, bn('/', y, x), bn(op, z, bn('*', x, y))); out.append(k)
        for pr in PAIRS:
            for t, (ka, kb) in enumerate((('own', 'view'), ('own', 'const'), ('const', 'view'), ('constview', 'own'), ('own', 'constview'))):
                if pr[0] == 'S' and ka == 'constview' or pr[1] == 'S' and kb == 'constview': continue
                k = Case(f'bin_{nm}_{pr}_ext{t}'); a = leafkind(k, SH[pr[0]], 'EMAG', ka); b = leafkind(k, SH[pr[1]], 'EMAG', kb)
                if g.random() < .3 and t == 0: a = un('neg', a)
                k.res = bn(op, a, b); out.append(k)
    # Eigen vectors of float or int as operands
    for op, nm in OPS.items():
        k = Case(f'bin_{nm}_S_litint'); x = k.var(S, 'NZ'); k.res = bn(op, k.ilit(3), x); out.append(k)
        k = Case(f'bin_{nm}_V_litint'); x = k.var(V(), 'NZ'); k.res = bn(op, k.ilit(-2), x); out.append(k)
        k = Case(f'bin_{nm}_M_lit'); x = k.var(M(), 'NZ'); k.res = bn(op, x, k.lit(2.5)); out.append(k)
        k = Case(f'bin_{nm}_V_ivec'); x = k.var(S, 'NZ'); k.res = un('sin', bn(op, x, k.lit(1.25))); out.append(k)
    for op, nm in CMPS.items():
        for pr in PAIRS:
            if nm in ('and', 'or') and pr != 'SS' and False: continue
            k = Case(f'cmp_{nm}_{pr}'); bl = nm in ('and', 'or')
            dom = 'TIE'
            a = k.var(SH[pr[0]], dom, g.choice(['own', 'view'])); b = k.var(SH[pr[1]], dom)
            if bl: a, b = cmp('<', a, k.lit(.3)), cmp('>=', b, k.lit(.5))
            k.res = cmp(op, a, b); out.append(k)
            # the outcome used as a number next to a differentiable use of the operand
            k = Case(f'cmp_{nm}_{pr}_used'); a = k.var(SH[pr[0]], dom); b = k.var(SH[pr[1]], dom)
            c = cmp(op, a, b) if not bl else cmp(op, cmp('>', a, k.lit(0)), cmp('<', b, k.lit(.6)))
            if bl or True: k.res = bn('*', c, bn('*', a, b)) if pr != 'XX' else c
            out.append(k)
        k = Case(f'cmp_{nm}_const'); a = k.var(V(), 'TIE')
        c = k.const(S, 'TIE') if nm not in ('and', 'or') else None
        k.res = cmp(op, a, c) if c else cmp(op, cmp('<', a, k.lit(.2)), cmp('==', a, k.lit(1.)))
        out.append(k)
    return out

# ------------------------------------------------------------------ several views of one memory
def parts_of(k, g, dom='R'):
    """a vector, a matrix and views over pieces of them"""
    x = k.var(V('5'), dom, g.choice(['own', 'view'])); m = k.var(M('p', '3'), dom, g.choice(['own', 'view']))
    ps = [x, m]
    for i in (0, 1, 3, 4): ps.append(E(f'{x.c}{g.choice(["(%d)", "[%d]"]) % i}', f'ref::elem({x.r}, {i})', S, False, True))
    for a, o, n in ((f'{x.c}.head(3)', 0, 3), (f'{x.c}.tail(3)', 2, 3), (f'{x.c}.head(4).tail(3)', 1, 3), (f'{x.c}.head(2)', 0, 2), (f'{x.c}.tail(2)', 3, 2)): ps.append(E(a, f'ref::sub({x.r}, {o}, {n})', V(str(n)), False, True))
    ps.append(E(f'ad::VarView<double, ad::vec>({x.c}.data(), {x.c}.data_adj(), 5)', x.r, V('5'), False, True))
    ps.append(E(f'ad::VarView<double, ad::mat>({m.c}.data(), {m.c}.data_adj(), {m.c}.rows(), 3)', m.r, M('p', '3'), False, True))
    for j in (0, 2):
        ps.append(E(f'ad::VarView<double, ad::vec>({m.c}.data() + {j} * {m.c}.rows(), {m.c}.data_adj() + {j} * {m.c}.rows(), {m.c}.rows())', f'ref::sub({m.r}, {j} * R.p, R.p)', V('p'), False, True))
        ps.append(E(f'ad::VarView<double>({m.c}.data() + {j}, {m.c}.data_adj() + {j})', f'ref::elem({m.r}, {j})', S, False, True))
    ps.append(E(f'ad::VarView<double, ad::mat>({m.c}.data() + {m.c}.rows(), {m.c}.data_adj() + {m.c}.rows(), {m.c}.rows(), 2)', f'ref::reshape({m.r}, R.p, R.p, 2)', M('p', '2'), False, True))
    ps.append(E(f'ad::VarView<double, ad::mat>({x.c}.data(), {x.c}.data_adj(), 2, 2)', f'ref::reshape({x.r}, 0, 2, 2)', M('2', '2'), False, True))
    return ps

def overlaps(g, nrand=8):
    out = []
    fits = lambda a, b: S in (a.sh, b.sh) or a.sh == b.sh
    for op, nm in OPS.items():
        k0 = Case('tmp'); n = len(parts_of(k0, random.Random(1)))
        pairs = [(i, j) for i in range(n) for j in range(n) if fits(*(lambda p: (p[i], p[j]))(parts_of(Case('t'), random.Random(1))))]
        for i, j in g.sample(pairs, 30):
            k = Case(f'ov_{nm}_{i}_{j}'); ps = parts_of(k, g, 'NZ'); k.res = bn(op, ps[i], ps[j])
            if g.random() < .3: k.res = bn('*', k.res, ps[g.choice([2, 3])])
            out.append(k)
    def c(nm, f, dom='R'): k = Case('ov_' + nm); ps = parts_of(k, g, dom); k.res = f(k, *ps); out.append(k)
    # x m x0 x1 x3 x4 h3 t3 m3 h2 t2 xx mm c0 m0 c2 m2 m12 x22
    c('sum', lambda k, x, m, *p: bn('*', sum_(x), sum_(p[4]))); c('prod', lambda k, x, m, *p: bn('*', prod_(p[5]), prod_(x)), 'ZEROS'); c('norm', lambda k, x, m, *p: bn('-', norm_(bn('*', p[4], p[5])), norm_(m)))
    c('matvec', lambda k, x, m, *p: dot(m, p[5])); c('dotself', lambda k, x, m, *p: dot(tr(p[10]), p[11])); c('mm', lambda k, x, m, *p: dot(tr(p[15]), m)); c('col', lambda k, x, m, *p: bn('+', p[11], p[13]))
    c('small', lambda k, x, m, *p: dot(p[16], p[7])); c('small2', lambda k, x, m, *p: bn('*', det(p[16]), p[0])); c('view2', lambda k, x, m, *p: dot(tr(m), p[10]))
    c('normal', lambda k, x, m, *p: stat('normal', p[4], p[3], p[1]), 'POS'); c('normalv', lambda k, x, m, *p: stat('normal', p[4], p[5], p[6]), 'POS'); c('cauchy', lambda k, x, m, *p: stat('cauchy', p[5], p[0], p[1]), 'POS'); c('cauchyv', lambda k, x, m, *p: stat('cauchy', p[5], p[4], p[4]), 'POS')
    c('bern', lambda k, x, m, *p: stat('bernoulli', k.const(V('3'), 'BIN'), un('sigmoid', bn('*', p[4], p[5])))); c('ite', lambda k, x, m, *p: ite(cmp('<', p[0], p[1]), bn('*', p[4], p[0]), bn('+', p[5], p[6])))
    c('rangeprod', lambda k, x, m, *p: (k.cstm.append('auto ix = I.idx(4);'), E('ad::prod(ix.begin(), ix.end(), [&](int i) { return x0(i) * x0(i + 1); })', "ref::fold('*', ref::iter(4, [&](int i) { return ref::bin('*', ref::elem(R.x[0], i), ref::elem(R.x[0], i + 1)); }))", S))[1])
    c('rangesum', lambda k, x, m, *p: (k.cstm.append('auto ix = I.idx(4);'), E('ad::sum(ix.begin(), ix.end(), [&](int i) { return x0.head(2) * x0(i) + x0.tail(2); })', "ref::fold('+', ref::iter(4, [&](int i) { return ref::bin('+', ref::bin('*', ref::sub(R.x[0], 0, 2), ref::elem(R.x[0], i)), ref::sub(R.x[0], 3, 2)); }))", V('2')))[1])
    for j in range(nrand):
        k = Case(f'ov_rand{j}'); r = Rnd(k, g, share=.97, consts=.05); ps = parts_of(k, g)
        for e in ps: r.add(e)
        k.res = r.any(g.choice([S, V('3'), V('5'), V('2'), V('p'), M('p', '3')]), g.choice([2, 3]))
        if k.res.leaf or k.res.const: k.res = bn('*', ps[2], un('sin', ps[0]))
        out.append(k)
    return out

# ------------------------------------------------------------------ C05 / C06 statement programs
def seq(stmts, res):
    """glue statements (cpp strings) in front of a result expression, left associated"""
    c = '(' + ', '.join(stmts + [res.c]) + ')' if stmts else res.c
    return E(c, res.r, res.sh)

def placeholders(g, nrand, tagname='ph'):
    out = []
    i = 0
    for s in 'SVM':
        for kind in ('own', 'view'):
            sh = SH[s]
            # used once / twice / in a chain / with the variable as well
            k = Case(f'{tagname}_{s}_{kind}_twice'); x = k.var(sh, 'R'); w = k.hold(sh, kind)
            e0 = bn("*", x, un("sin", x)); k.rstm.append(f'auto w0 = {e0.r}; R.fin[1] = w0;')
            W = E(w.c, 'w0', sh); k.res = seq([f'({w.c} = {e0.c})'], bn('+', bn('*', W, W), un('exp', bn('*', W, k.lit(.3))))); out.append(k)
            k = Case(f'{tagname}_{s}_{kind}_chain'); x = k.var(sh, 'POS'); w = k.hold(sh, kind); z = k.hold(sh, kind)
            e0 = bn('/', x, un('exp', x)); W = E(w.c, 'w0', sh); e1 = bn('*', W, bn('+', W, x)); Z = E(z.c, 'z0', sh)
            k.rstm.append(f'auto w0 = {e0.r}; R.fin[1] = w0; auto z0 = {e1.r}; R.fin[2] = z0;')
            k.res = seq([f'({w.c} = {e0.c})', f'({z.c} = {e1.c})'], bn('-', bn('*', Z, W), x)); out.append(k)
            k = Case(f'{tagname}_{s}_{kind}_direct'); x = k.var(sh, 'R'); y = k.var(S, 'NZ'); w = k.hold(sh, kind)
            e0 = un('tanh', bn('*', x, y)); k.rstm.append(f'auto w0 = {e0.r}; R.fin[2] = w0;')
            k.res = E(f'({w.c} = {e0.c})', 'w0', sh); out.append(k)
            k = Case(f'{tagname}_{s}_{kind}_const'); x = k.var(sh, 'R'); w = k.hold(sh, kind)
            cst = k.const(sh, 'R'); k.rstm.append(f'auto w0 = {cst.r}; R.fin[1] = w0;')
            k.res = seq([f'({w.c} = {cst.c})'], bn('*', E(w.c, 'w0', sh), x)); out.append(k)
            # every kind of root on the right-hand side
            roots = {'neg': lambda a, b: un('neg', a), 'pow0': lambda a, b: pw(0, a), 'pow1': lambda a, b: pw(1, a), 'pow3': lambda a, b: pw(3, a), 'powm1': lambda a, b: pw(-1, a),
                     'ite': lambda a, b: ite(cmp('<', E(b.c, b.r, S), k.lit(0)), un('sin', a), bn('*', a, a)), 'bin': lambda a, b: bn('-', b, a), 'div': lambda a, b: bn('/', b, a)}
            if s == 'S': roots.update({'sum': lambda a, b: sum_(bn('*', k.var(V(), 'R'), a)), 'prod': lambda a, b: prod_(bn('+', k.var(V('3'), 'ZEROS'), bn('*', a, k.lit(0.)))),
                     'norm': lambda a, b: norm_(bn('-', k.var(M(), 'R'), a)), 'normal': lambda a, b: stat('normal', k.var(V(), 'R'), b, a), 'cauchy': lambda a, b: stat('cauchy', k.var(V(), 'R'), b, a),
                     'bern': lambda a, b: stat('bernoulli', k.const(V(), 'BIN'), un('sigmoid', a)), 'unif': lambda a, b: stat('uniform', k.var(V(), 'XMID'), k.var(S, 'LO'), k.var(S, 'HI')),
                     'det': lambda a, b: det(k.var(M('p', 'p'), 'GEN')), 'logdet': lambda a, b: logdet(k.var(M('p', 'p'), 'GEN')), 'wish': lambda a, b: stat('wishart', k.var(M('p', 'p'), 'SPD'), k.var(M('p', 'p'), 'SPD'), k.const(S, 'DOF'))})
            if s == 'M': roots.update({'dot': lambda a, b: dot(k.var(M('p', '3'), 'R'), k.var(M('3', 'q'), 'R')), 'tr': lambda a, b: tr(k.var(M('q', 'p'), 'R'))})
            if s == 'V': roots.update({'dot': lambda a, b: dot(k.var(M('n', 'p'), 'R'), k.var(V('p'), 'R'))})
            for rn, rf in roots.items():
                if kind == 'view' and g.random() < .5: continue
                k = Case(f'{tagname}_{s}_{kind}_root_{rn}'); a = k.var(sh, 'POS'); b = k.var(S, 'R'); w = k.hold(sh, kind)
                e0 = rf(a, b); k.rstm.append(f'auto w0 = {e0.r}; R.fin[2] = w0;')
                W = E(w.c, 'w0', sh); k.res = seq([f'({w.c} = {e0.c})'], bn('+', bn('*', W, W), bn('*', a, W))); out.append(k)
    # a placeholder assigned inside the expression, iteration over placeholders, reductions of placeholders
    k = Case(f'{tagname}_foreach'); x = k.var(V(), 'R'); w = k.hold(V())
    k.cstm.append('auto ix = I.idx(I.n);'); k.rstm.append('auto w0 = ref::concat(ref::iter(R.n, [&](int i) { return ref::un("sin", ref::elem(R.x[0], i)); })); R.fin[1] = w0;')
    k.res = E('(ad::for_each(ix.begin(), ix.end(), [&](int i) { return x1(i) = ad::sin(x0(i)); }), ad::sum(x1) * ad::norm(x1))', "ref::bin('*', ref::sum(w0), ref::sqnorm(w0))", S); out.append(k)
    k = Case(f'{tagname}_foreach_rec'); x = k.var(V(), 'R'); w = k.hold(V())
    k.cstm.append('auto ix = I.idx(I.n);'); k.rstm.append('''std::vector<ref::N> w; for (int i = 0; i < R.n; ++i) w.push_back(i == 0 ? ref::un("tanh", ref::elem(R.x[0], 0)) : ref::un("tanh", ref::bin('*', ref::elem(R.x[0], i), w[i - 1]))); R.fin[1] = ref::concat(w);''')
    k.res = E('((x1(0) = ad::tanh(x0(0))), ad::for_each(ix.begin() + 1, ix.end(), [&](int i) { return x1(i) = ad::tanh(x0(i) * x1(i - 1)); }), ad::pow<2>(x1(I.n - 1)) + x1(0))', "ref::bin('+', ref::powi(w.back(), 2), w[0])", S)
    out.append(k)
    k = Case(f'{tagname}_sub'); x = k.var(V('4'), 'R'); w = k.hold(V('4'))
    k.rstm.append('''auto h = ref::bin('*', ref::sub(R.x[0], 0, 2), ref::sub(R.x[0], 2, 2)); auto t = ref::bin('+', h, ref::sub(R.x[0], 1, 2)); R.fin[1] = ref::concat({ref::elem(h, 0), ref::elem(h, 1), ref::elem(t, 0), ref::elem(t, 1)});''')
    k.res = E('((x1.head(2) = x0.head(2) * x0.tail(2)), (x1.tail(2) = x1.head(2) + x0.head(3).tail(2)), ad::prod(x1))', 'ref::prod(R.fin[1])', S); out.append(k)
    k = Case(f'{tagname}_inline'); x = k.var(S, 'R'); w = k.hold(S)
    k.rstm.append('''auto w0 = ref::bin('*', R.x[0], R.x[0]); R.fin[1] = w0;'''); k.res = E('((x1 = x0 * x0), ad::sin(x1) * x1)', '''ref::bin('*', ref::un("sin", w0), w0)''', S); out.append(k)
    k = Case(f'{tagname}_nested_assign'); x = k.var(V(), 'R'); w = k.hold(V()); z = k.hold(V(), 'view')
    k.rstm.append('''auto w0 = ref::un("sin", R.x[0]); R.fin[1] = w0; R.fin[2] = w0;'''); k.res = E('((x2 = (x1 = ad::sin(x0))), x1 * x2 + x0)', '''ref::bin('+', ref::bin('*', w0, w0), R.x[0])''', V()); out.append(k)
    k = Case(f'{tagname}_rightglue'); x = k.var(S, 'R'); y = k.var(S, 'POS'); w = k.hold(S); z = k.hold(S)
    k.rstm.append('''auto w0 = ref::bin('*', R.x[0], R.x[1]); R.fin[2] = w0; auto z0 = ref::bin('/', w0, R.x[1]); z0 = ref::bin('+', z0, w0); R.fin[3] = z0;''')
    k.res = E('((x2 = x0 * x1), ((x3 = x2 / x1 + x2), x3 * x2))', '''ref::bin('*', z0, w0)''', S); out.append(k)
    k = Case(f'{tagname}_unused'); x = k.var(S, 'R'); w = k.hold(S); k.rstm.append('''R.fin[1] = ref::un("exp", R.x[0]);'''); k.res = E('((x1 = ad::exp(x0)), x0 * 2.)', '''ref::bin('*', R.x[0], R.k(2.))''', S); out.append(k)
    # a placeholder assigned inside another assignment, in every position, with every pattern of later uses
    for s in 'SVM':
        sh = SH[s]
        pos = {'un': lambda n, k: un('sin', n), 'neg': lambda n, k: un('neg', n), 'pow': lambda n, k: pw(2, n), 'lhs': lambda n, k: bn('*', n, k.var(S, 'NZ')), 'rhs': lambda n, k: bn('-', k.var(sh, 'R', 'view'), n), 'cst': lambda n, k: bn('+', n, k.lit(1.5)),
               'div': lambda n, k: bn('/', k.var(sh, 'R'), bn('+', n, k.lit(6.)))}
        if s != 'S': pos.update({'sum': lambda n, k: sum_(n), 'norm': lambda n, k: norm_(n), 'prod': lambda n, k: prod_(bn('*', n, k.lit(.7))), 'brd': lambda n, k: bn('*', k.var(S, 'R'), n)})
        else: pos.update({'brdv': lambda n, k: bn('*', k.var(V(), 'R'), n), 'brdm': lambda n, k: bn('+', n, k.var(M(), 'R'))})
        if s == 'M': pos.update({'tr': lambda n, k: tr(n), 'dot': lambda n, k: dot(n, k.var(V('q'), 'R')), 'dot2': lambda n, k: dot(k.var(M('2', 'p'), 'R'), n)})
        if s == 'V': pos.update({'dot': lambda n, k: dot(k.var(M('2', 'n'), 'R'), n)})
        for pn, pf in pos.items():
            for use in ('in', 'out', 'both', 'none'):
                if g.random() < .35 and use in ('both', 'none') and tagname == 'ph': continue
                k = Case(f'{tagname}_nest_{s}_{pn}_{use}'); x = k.var(sh, 'R', g.choice(['own', 'view'])); v = k.hold(sh, g.choice(['own', 'view'])); e1 = bn('*', x, un('cos', x)) if g.random() < .5 else un('tanh', x)
                e2 = pf(E(f'({v.c} = {e1.c})', 'v0', sh), k); w = k.hold(e2.sh, g.choice(['own', 'view'])); k.rstm.append(f'auto v0 = {e1.r}; R.fin[1] = v0; auto w0 = {e2.r}; R.fin[{len(k.ins) - 1}] = w0;')
                VV, W = E(v.c, 'v0', sh, False, True), E(w.c, 'w0', e2.sh, False, True)
                fin = bn('+', bn('*', VV, VV), x) if use == 'in' else bn('*', un('sin', W), W) if use == 'out' else bn('*', x, k.lit(2.)) if use == 'none' else bn('*', sum_(bn('*', VV, x)) if s != 'S' else bn('*', VV, x), W)
                k.flat = True; k.res = seq([f'({w.c} = {e2.c})'], fin); out.append(k)
    # random programs
    for j in range(nrand):
        k = Case(f'{tagname}_rand{j}'); r = Rnd(k, g, consts=.08); st = []
        for t in range(g.randrange(1, 5)):
            sh = g.choice([S, S, V(), M()]); e = r.any(sh, g.choice([1, 2, 2, 3]))
            if g.random() < .3:      # assigned on the way into another assignment
                if e.leaf or e.const: e = bn('*', e, k.var(S, 'NZ'))
                z = k.hold(sh, g.choice(['own', 'view'])); k.rstm.append(f'auto z{t} = {e.r}; R.fin[{len(k.ins) - 1}] = z{t};'); e = E(f'({z.c} = {e.c})', f'z{t}', sh); k.flat = True
                e = g.choice([lambda e: un('sin', e), lambda e: bn('*', e, r.vleaf(S, 'R')), lambda e: bn('-', r.vleaf(sh, 'R'), e), lambda e: e])(e); zn = E(z.c, f'z{t}', sh, False, True)
            else: zn = None
            w = k.hold(sh, g.choice(['own', 'view']))
            if e.leaf: e = bn('*', e, k.clit(1.5))
            k.rstm.append(f'auto w{t} = {e.r}; R.fin[{len(k.ins) - 1}] = w{t};'); st.append(f'({w.c} = {e.c})')
            for _ in range(2): r.add(E(w.c, f'w{t}', sh, False, True), 'R')
            if zn: r.add(zn, 'R')
        fin = r.any(g.choice([S, S, V(), M()]), 3)
        if fin.const: fin = bn('*', fin, k.var(S, 'R'))       # a statement sequence ends in a differentiable expression
        k.res = seq(st, fin); out.append(k)
    return out

def opeqs(g, nrand):
    out = []
    OPQ = {'+=': '+', '-=': '-', '*=': '*', '/=': '/'}
    NM = {'+=': 'adde', '-=': 'sube', '*=': 'mule', '/=': 'dive'}
    for oq, op in OPQ.items():
        for s in 'SVM':
            for rs in sorted({s, 'S'}):
                for form in ('var', 'self', 'selffn', 'const', 'expr', 'chain', 'direct', 'operand', 'ph', 'multi', 'ext'):
                    k = Case(f'oe_{NM[oq]}_{s}{rs}_{form}'); sh = SH[s]; rsh = SH[rs]; od = 'EMAG' if form == 'ext' else 'NZ'
                    x = k.opeq(sh, od, g.choice(['own', 'view'])); v = k.var(rsh, od, g.choice(['own', 'view']))
                    if form in ('self', 'selffn', 'operand') and rs != s: continue
                    if form in ('var', 'ext'): e = v
                    elif form == 'self': e = E(x.c, x.r, sh)
                    elif form == 'selffn': e = bn('*', un('exp', bn('*', x, k.lit(.2))), v)
                    elif form == 'const': e = k.const(rsh, 'NZ', g.choice(['const', 'constview']) if rs != 'S' else 'const')
                    elif form == 'expr' or form in ('chain', 'multi'): e = bn('*', v, un('exp', k.var(S, 'UNIT')))
                    elif form == 'ph': e = v
                    else: e = bn('*', v, v)
                    k.rstm.append(f"auto y1 = {assigned(op, x, e)}; R.fin[0] = y1;")
                    st = [f'({x.c} {oq} {e.c})']; X = E(x.c, 'y1', sh)
                    if form in ('direct', 'ext'): k.res = E(st[0], 'y1', sh)
                    elif form == 'operand':      # the assignment used as a value
                        k.res = bn('*', E(st[0], 'y1', sh), k.var(S, 'R')); k.flat = True
                    elif form == 'chain':
                        e2 = bn('+', bn('*', X, k.lit(.5)), v)
                        k.rstm.append(f"auto y2 = {assigned('*', X, e2)}; R.fin[0] = y2;"); st.append(f'({x.c} *= {e2.c})'); X = E(x.c, 'y2', sh)
                        k.res = seq(st, bn('+', X, bn('*', X, v)))
                    elif form == 'multi':
                        st.append(st[0]); k.rstm.append(f"auto y2 = {assigned(op, X, e)}; R.fin[0] = y2;"); X = E(x.c, 'y2', sh); k.res = seq(st, bn('*', X, X))
                    elif form == 'ph':
                        w = k.hold(sh); wi = len(k.ins) - 1; pre = bn('*', E(x.c, 'R.x[0]', sh), v)
                        # w is defined from the old value, then x changes, then both are used
                        k.rstm.insert(0, f'auto w0 = {pre.r}; R.fin[{wi}] = w0;'); k.res = seq([f'({w.c} = {pre.c})'] + st, bn('-', bn('*', X, E(w.c, 'w0', sh)), X))
                    else: k.res = seq(st, bn('+', bn('*', X, X), v))
                    k.idle(S); out.append(k)
    k = Case('oe_foreach_acc'); x = k.opeq(S, 'R'); v = k.var(V(), 'R')
    k.cstm.append('auto ix = I.idx(I.n);'); k.rstm.append("auto s = R.x[0]; for (int i = 0; i < R.n; ++i) s = ref::bin('+', s, ref::bin('*', ref::elem(R.x[1], i), ref::elem(R.x[1], i))); R.fin[0] = s;")
    k.res = E('(ad::for_each(ix.begin(), ix.end(), [&](int i) { return x0 += x1(i) * x1(i); }), ad::sin(x0) * x0)', "ref::bin('*', ref::un(\"sin\", s), s)", S); out.append(k)
    k = Case('oe_foreach_rec'); x = k.opeq(S, 'POS'); v = k.var(V('4'), 'UNIT')
    k.cstm.append('auto ix = I.idx(4);'); k.rstm.append("auto s = R.x[0]; for (int i = 0; i < 4; ++i) s = ref::bin('*', s, ref::un(\"exp\", ref::bin('*', ref::elem(R.x[1], i), ref::un(\"sin\", s)))); R.fin[0] = s;")
    k.res = E('(ad::for_each(ix.begin(), ix.end(), [&](int i) { return x0 *= ad::exp(x1(i) * ad::sin(x0)); }), ad::log(x0))', 'ref::un("log", s)', S); out.append(k)
    k = Case('oe_foreach_direct'); x = k.opeq(V(), 'R'); v = k.var(V('3'), 'R')
    k.cstm.append('auto ix = I.idx(3);'); k.rstm.append("auto s = R.x[0]; for (int i = 0; i < 3; ++i) s = ref::bin('-', s, ref::bin('*', s, ref::elem(R.x[1], i))); R.fin[0] = s;")
    k.res = E('ad::for_each(ix.begin(), ix.end(), [&](int i) { return x0 -= x0 * x1(i); })', 's', V()); out.append(k)
    # assignments inside the terms of a sum or the factors of a product over a range: made in order, undone in reverse
    for oq, op in OPQ.items():
        for s in 'SV':
            for w in ('sum', 'prod'):
                for form in ('bare', 'fn', 'self', 'two'):
                    if oq == '/=' and form == 'self': continue
                    k = Case(f'oe_it{w}_{NM[oq]}_{s}_{form}'); x = k.opeq(SH[s], 'NZ', g.choice(['own', 'view'])); v = k.var(V('7'), 'NZ', g.choice(['own', 'view'])); z = k.var(SH[s], 'UNIT'); k.flat = True
                    rhs, rr = ('x1(i)', 'ref::elem(R.x[1], i)') if form != 'self' else ('ad::exp(x0 * .1) * x1(i)', "ref::bin('*', ref::un(\"exp\", ref::bin('*', s, R.k(.1))), ref::elem(R.x[1], i))")
                    f, fr = ('%s', '%s') if form == 'bare' else ('ad::sin(%s)', 'ref::un("sin", %s)') if form != 'two' else ('ad::tanh(%s) * x2', "ref::bin('*', ref::un(\"tanh\", %s), R.x[2])")
                    k.cstm.append('auto ix = I.idx(1 + I.n % 7);')
                    k.rstm.append(f"auto s = R.x[0]; std::vector<ref::N> b; for (int i = 0; i < 1 + R.n % 7; ++i) {{ s = ref::bin('{op}', s, {rr}); b.push_back({fr % 's'}); }} R.fin[0] = s;")
                    e = E(f'ad::{w}(ix.begin(), ix.end(), [&](int i) {{ return {f % f"(x0 {oq} {rhs})"}; }})', f"ref::fold('{'+' if w == 'sum' else '*'}', b)", SH[s])
                    k.res = bn('*', e, k.var(S, 'R')) if form == 'two' else e; out.append(k)
    # assignments as operands of everything: their value is the one they had when they were made, also while the pass back has restored the variable
    def use(name, sh, dom, f, oqs=('+=', '*=', '-=', '/=')):
        for oq in oqs:
            if dom != 'R' and oq == '-=': continue
            k = Case(f'oe_use_{name}_{NM[oq]}'); d = 'NZ' if dom == 'R' else dom if dom == 'SPD' else 'POS'
            x = k.opeq(sh, d, g.choice(['own', 'view'])); rs = g.choice([sh, S]) if dom != 'SPD' else S if oq in ('*=', '/=') else sh
            v = k.var(rs, 'POS' if dom == 'SPD' and rs == S else d, g.choice(['own', 'view']))
            e = v if g.random() < .4 else bn('*', v, un('exp', k.var(S, 'UNIT')))
            k.rstm.append(f'auto y1 = {assigned(OPQ[oq], x, e)}; R.fin[0] = y1;'); k.flat = True; k.flags.add('F_NZSEED')
            y = f(k, E(f'({x.c} {oq} {e.c})', 'y1', sh))
            k.res = y if g.random() < .6 or y.sh != S else bn('*', y, k.var(S, 'NZ')); out.append(k)
    vr = lambda k, sh, d='R': k.var(sh, d, g.choice(['own', 'view'])) if g.random() < .6 else bn('*', k.var(sh, d), k.lit(1.25))
    for s in 'SVM':
        for b in '+-*/':
            use(f'{s}l{ {"+": "add", "-": "sub", "*": "mul", "/": "div"}[b]}', SH[s], 'R', lambda k, y: bn(b, y, vr(k, SH[s], 'POS')), ('+=', '*='))
            use(f'{s}r{ {"+": "add", "-": "sub", "*": "mul", "/": "div"}[b]}', SH[s], 'POS', lambda k, y: bn(b, vr(k, SH[s]), y), ('+=', '*='))
        for f in ('exp', 'sin', 'tanh', 'sigmoid', 'erf'): use(f'{f}{s}', SH[s], 'R', lambda k, y: un(f, bn('*', k.lit(.3), y)) if f == 'exp' else un(f, y), (g.choice(['+=', '-=']), '*='))
        for f in ('log', 'sqrt'): use(f'{f}{s}', SH[s], 'POS', lambda k, y: un(f, y), ('+=', '*='))
        for n in (2, 3, -1): use(f'pow{"m" if n < 0 else ""}{abs(n)}{s}', SH[s], 'POS', lambda k, y: pw(n, y), ('*=', '/='))
        use(f'prod{s}', SH[s], 'R', lambda k, y: prod_(y)); use(f'sum{s}', SH[s], 'R', lambda k, y: sum_(y))
        if s != 'S': use(f'norm{s}', SH[s], 'R', lambda k, y: norm_(y)); use(f'tr{s}', SH[s], 'R', lambda k, y: tr(y))
    use('dotAv', V('q'), 'R', lambda k, y: dot(vr(k, M('p', 'q')), y)); use('dotAB', M('q', 'p'), 'R', lambda k, y: dot(vr(k, M('n', 'q')), y))
    use('dotxB', M('p', 'q'), 'R', lambda k, y: dot(y, vr(k, V('q')))); use('dotxM', M('p', 'q'), 'R', lambda k, y: dot(y, vr(k, M('q', 'n'))))
    for pol in (None, 'LDLT', 'LLT'): use(f'det{pol}', M('p', 'p'), 'SPD', lambda k, y: det(y, pol), ('+=', '*=')); use(f'logdet{pol}', M('p', 'p'), 'SPD', lambda k, y: logdet(y, pol), ('+=', '*='))
    for d in ('normal', 'cauchy'):
        for cb in ('SSS', 'VSS', 'VVS', 'VSV', 'VVV'):
            for i in range(3):
                use(f'{d}{cb}{i}', SH[cb[i]], 'POS' if i == 2 else 'R', lambda k, y: stat(d, *[y if j == i else vr(k, SH[cb[j]], 'POS' if j == 2 else 'R') for j in range(3)]), (g.choice(['+=', '-=']) if i < 2 else '+=', g.choice(['*=', '/='])))
    for i in range(3):
        for ms in 'SV':
            sh = [V('p'), V('p') if ms == 'V' else S, M('p', 'p')]
            use(f'mvn{ms}{i}', sh[i], 'SPD' if i == 2 else 'R', lambda k, y: stat('normal', *[y if j == i else vr(k, sh[j], 'SPD' if j == 2 else 'R') for j in range(3)]), ('+=', '*='))
    for i in range(2): use(f'wish{i}', M('p', 'p'), 'SPD', lambda k, y: stat('wishart', *[y if j == i else vr(k, M('p', 'p'), 'SPD') for j in range(2)], k.const(S, 'DOF')), ('+=', '*='))
    for j in range(nrand):
        k = Case(f'oe_rand{j}'); r = Rnd(k, g, consts=.08, stats=False); st = []; cur = []
        n = g.randrange(1, 3)
        for t in range(n):
            sh = g.choice([S, S, V(), M()]); x = k.opeq(sh, 'NZ', g.choice(['own', 'view'])); i = len(k.ins) - 1
            k.rstm.append(f'auto v{t} = R.x[{i}];'); cur.append([E(x.c, f'v{t}', sh, False, True), 0, i])
        for t in range(g.randrange(1, 5)):
            if g.random() < .25:
                sh = g.choice([S, V(), M()]); e = r.any(sh, 2)
                same = [c for c in cur if c[0].sh == sh]
                if same: e = bn(g.choice(['*', '+']), e, g.choice(same)[0])
                elif e.leaf: e = bn('*', e, k.clit(1.5))
                w = k.hold(sh); k.rstm.append(f'auto w{t} = {e.r}; R.fin[{len(k.ins) - 1}] = w{t};'); st.append(f'({w.c} = {e.c})'); r.add(E(w.c, f'w{t}', sh, False, True)); continue
            c = g.choice(cur); sh = c[0].sh; oq = g.choice(list(OPQ)); rsh = g.choice([S, sh])
            e = r.pos(rsh, 2) if oq == '/=' else r.any(rsh, 2) if oq in ('+=', '-=') else r.unit(rsh, 2)
            oth = [o for o in cur if o[0].sh in (S, rsh)]
            if oth and g.random() < .6 and oq != '/=':
                o = g.choice(oth)[0]
                if rsh == S and o.sh != S: pass
                else: e = bn(g.choice('+*'), un('sin', o), e)
            c[1] += 1; nn = f'u{t}'
            k.rstm.append(f"auto {nn} = {assigned(OPQ[oq], c[0], e)}; R.fin[{c[2]}] = {nn};"); st.append(f'({c[0].c} {oq} {e.c})')
            c[0] = E(c[0].c, nn, sh, False, True)
        fin = r.any(g.choice([S, V(), M()]), 2)
        for c in cur:
            if c[0].sh in (S, fin.sh): fin = bn(g.choice('+*'), fin, g.choice([lambda z: z, lambda z: un('sin', z), lambda z: bn('*', z, z)])(c[0]))
            elif c[0].sh != S: fin = bn('+', fin, sum_(un('tanh', c[0])))
        if fin.const: fin = bn('*', fin, k.var(S, 'R'))
        k.res = seq(st, fin); out.append(k)
    return out

# ------------------------------------------------------------------ C07
def reductions(g, nrand):
    out = []
    for f, fn in (('sum', sum_), ('prod', prod_), ('norm', norm_)):
        for s in 'SVM':
            if f == 'norm' and s == 'S': continue
            for kind in ('own', 'view', 'expr', 'sq', 'alias'):
                k = Case(f'red_{f}_{s}_{kind}'); dom = 'ZEROS' if f == 'prod' else 'R'
                if kind in ('own', 'view'): e = k.var(SH[s], dom, kind)
                elif kind == 'expr': e = bn('*', k.var(SH[s], dom), k.var(S, 'NZ', 'view'))
                elif kind == 'sq': e = bn('-', k.var(SH[s], dom), bn('*', k.lit(0.), k.var(SH[s], 'R', 'view')))
                else: x = k.var(SH[s], dom); e = bn('*', x, x)
                y = fn(e)
                if g.random() < .5: y = bn('*', y, k.var(S, 'R'))
                k.idle(V()); k.res = y; out.append(k)
            k = Case(f'red_{f}_{s}_ext'); x = k.var({'S': S, 'V': V('4'), 'M': M('2', '2')}[s] if f == 'prod' else SH[s], 'EMAG', g.choice(['own', 'view'])); k.res = fn(x); out.append(k)
            k = Case(f'red_{f}_{s}_inner'); x = k.var(SH[s], 'ZEROS' if f == 'prod' else 'R'); k.res = bn('+', bn('*', x, fn(x)), un('sin', x)); out.append(k)
            for kd in ('const', 'constview', 'wrapped', 'op'):
                if f == 'sum' and s == 'S' or s == 'S' and kd == 'constview': continue
                for t in range(2):
                    k = Case(f'red_{f}_{s}_k{kd}{t}'); c = k.const(SH[s], 'ZEROS' if f == 'prod' else 'R', 'constview' if kd == 'constview' else 'const'); x = k.var(SH[s] if t else S, 'R')
                    if kd == 'op': c = bn('*', wrapc(c), wrapc(k.const(S, 'NZ')))
                    elif kd == 'wrapped': c = wrapc(c)
                    elif kd == 'const': c = wrapc(c)
                    k.res = bn('*', fn(c), x) if t == 0 else bn('-', un('sin', x), fn(c)); out.append(k)
    # ranges with a functor
    bodies = {
        'elem': (lambda k: [k.var(V(), 'ZEROS')], 'x0(i)', 'ref::elem(R.x[0], i)', S),
        'scaled': (lambda k: [k.var(V(), 'ZEROS'), k.var(S, 'NZ', 'view')], 'x0(i) * x1', "ref::bin('*', ref::elem(R.x[0], i), R.x[1])", S),
        'shift': (lambda k: [k.var(V(), 'TIE', 'view'), k.var(S, 'TIE')], 'x0(i) - x1', "ref::bin('-', ref::elem(R.x[0], i), R.x[1])", S),
        'fn': (lambda k: [k.var(V(), 'UNIT', 'view')], 'ad::exp(ad::sin(x0(i)) * x0(i))', "ref::un(\"exp\", ref::bin('*', ref::un(\"sin\", ref::elem(R.x[0], i)), ref::elem(R.x[0], i)))", S),
        'same': (lambda k: [k.var(S, 'ZEROS')], 'x0 * 1.', "ref::bin('*', R.x[0], R.k(1.))", S),
        'idx': (lambda k: [k.var(S, 'UNIT')], 'ad::constant(.5 + .25 * (i % 4)) * ad::cos(x0)', "ref::bin('*', R.k(.5 + .25 * (i % 4)), ref::un(\"cos\", R.x[0]))", S),
        'vec': (lambda k: [k.var(V('p'), 'ZEROS'), k.var(V(), 'TIE', 'view')], 'x0 * x1(i)', "ref::bin('*', R.x[0], ref::elem(R.x[1], i))", V('p')),
        'vecvar': (lambda k: [k.var(V('p'), 'ZEROS')], 'x0 + 0.', "ref::bin('+', R.x[0], R.k(0.))", V('p')),
        'mat': (lambda k: [k.var(M(), 'ZEROS', 'view'), k.var(V(), 'TIE')], 'x0 - x1(i)', "ref::bin('-', R.x[0], ref::elem(R.x[1], i))", M()),
        'matfn': (lambda k: [k.var(M(), 'UNIT'), k.var(V(), 'UNIT')], 'ad::sin(x0 * x1(i)) + .75', "ref::bin('+', ref::un(\"sin\", ref::bin('*', R.x[0], ref::elem(R.x[1], i))), R.k(.75))", M()),
        'sub': (lambda k: [k.var(V('9'), 'ZEROS')], 'ad::sum(x0.head(2 + i % 7))', 'ref::sum(ref::sub(R.x[0], 0, 2 + i % 7))', S),
        'subfn': (lambda k: [k.var(V('9'), 'UNIT')], 'ad::norm(ad::sin(x0.head(1 + (i * 5 + 3) % 9)) + 1.5)', 'ref::sqnorm(ref::bin(\'+\', ref::un("sin", ref::sub(R.x[0], 0, 1 + (i * 5 + 3) % 9)), R.k(1.5)))', S),
        'subvec': (lambda k: [k.var(V('9'), 'UNIT'), k.var(V(), 'UNIT', 'view')], 'x1 * ad::sum(ad::exp(x0.tail(1 + (i * 4 + 2) % 9)))', 'ref::bin(\'*\', R.x[1], ref::sum(ref::un("exp", ref::sub(R.x[0], 8 - (i * 4 + 2) % 9, 1 + (i * 4 + 2) % 9))))', V()),
        'cst': (lambda k: [k.var(V(), 'R')], 'ad::constant(.5 * (i % 7) - 1)', 'R.k(.5 * (i % 7) - 1)', S),
        'cvec': (lambda k: [k.var(V(), 'R'), k.const(V('3'), 'R')], 'ad::constant(x1)', 'R.x[1]', V('3')),
        'cmat': (lambda k: [k.var(V(), 'R'), k.const(M(), 'R', 'constview')], 'x1', 'R.x[1]', M()),
    }
    for bname, (mk, c, r, sh) in bodies.items():
        for op in ('sum', 'prod', 'for_each'):
            if op == 'for_each' and bname in ('cst', 'cvec', 'cmat', 'elem'): continue
            for wrap in (0, 1):
                k = Case(f'it_{op}_{bname}{"_w" if wrap else ""}'); mk(k)
                if bname in ('elem', 'cmat'): c2 = c
                N = 'n' if wrap == 0 else '1'
                ln = 'I.n' if wrap == 0 else '1'
                if bname.startswith('sub') and op == 'prod' and wrap == 0: ln = 'I.n % 9 + 1'; N = 'n % 9 + 1'
                k.cstm.append(f'auto ix = I.idx({ln});')
                rn = 'R.' + N if wrap == 0 else '1'
                it = f'ref::iter({rn}, [&](int i) {{ (void)i; return {r}; }})'
                rr = f"ref::fold('{'+' if op == 'sum' else '*'}', {it})" if op != 'for_each' else f'{it}.back()'
                cst = bname.startswith('c') and bname != 'x'
                e = E(f'ad::{op}(ix.begin(), ix.end(), [&](int i) {{ (void)i; return {c}; }})', rr, sh)
                if cst: e = bn('*', e, E('x0(0)', 'ref::elem(R.x[0], 0)', S))
                elif wrap == 0 and g.random() < .5: e = bn('*', e, k.var(S, 'R')) if op != 'for_each' else un('sin', e)
                k.res = e; out.append(k)
    # empty ranges: a sum of nothing is zero, a product of nothing is one, a loop over nothing does nothing
    def empty(nm, ins, c, r, sh=S):
        k = Case('it_empty_' + nm); ins(k); k.cstm.append('std::vector<int> ix;'); k.res = E(c.replace('EMPTY', 'ix.begin(), ix.end()'), r, sh); out.append(k)
    empty('sum', lambda k: k.var(S, 'R'), 'ad::sum(EMPTY, [&](int) { return ad::sin(x0); }) + x0', 'R.x[0]')
    empty('prod', lambda k: k.var(S, 'R'), 'ad::prod(EMPTY, [&](int) { return ad::sin(x0); }) * x0', 'R.x[0]')
    empty('sumonly', lambda k: k.var(S, 'R'), 'ad::sum(EMPTY, [&](int) { return ad::sin(x0); })', 'R.k(0)')
    empty('prodonly', lambda k: k.var(S, 'R'), 'ad::prod(EMPTY, [&](int) { return ad::sin(x0); })', 'R.k(1)')
    empty('prodofsum', lambda k: k.var(S, 'R'), 'ad::sin(x0) * ad::exp(ad::sum(EMPTY, [&](int) { return ad::sin(x0) * x0; }))', 'ref::un("sin", R.x[0])')
    empty('prod2', lambda k: (k.var(S, 'R'), k.var(V(), 'R')), 'x1 * (ad::prod(EMPTY, [&](int i) { return x1(i); }) + ad::sum(EMPTY, [&](int i) { return x1(i) * x0; })) + x0', "ref::bin('+', R.x[1], R.x[0])", V())
    empty('loopr', lambda k: (k.var(S, 'R'), k.var(S, 'POS')), '(ad::for_each(EMPTY, [&](int) { return ad::sin(x0) * x1; }), x0 * x1)', "ref::bin('*', R.x[0], R.x[1])")
    empty('loopv', lambda k: (k.var(V(), 'R'), k.var(S, 'POS')), '(ad::for_each(EMPTY, [&](int) { return ad::sin(x0) * x1; }), ad::sum(x0 * x1))', "ref::sum(ref::bin('*', R.x[0], R.x[1]))")
    empty('loopm', lambda k: (k.var(M(), 'R'), k.var(S, 'POS')), '(ad::for_each(EMPTY, [&](int) { return ad::sin(x0) * x1; }), x0 * x1)', "ref::bin('*', R.x[0], R.x[1])", M())
    empty('loop2', lambda k: (k.var(S, 'R'), k.var(S, 'POS')), '((x0 * x1), (ad::for_each(EMPTY, [&](int) { return ad::exp(x0); }), ad::for_each(EMPTY, [&](int i) { return x0 - i; })), x0 / x1)', "ref::bin('/', R.x[0], R.x[1])")
    k = Case('it_empty_acc'); x = k.opeq(S, 'NZ'); v = k.var(V(), 'R'); k.cstm.append('std::vector<int> ix;'); k.rstm.append('R.fin[0] = R.x[0];')
    k.res = E('(ad::for_each(ix.begin(), ix.end(), [&](int i) { return x0 += x1(i); }), x0 * ad::sum(x1))', "ref::bin('*', R.x[0], ref::sum(R.x[1]))", S); out.append(k)
    for s in 'SV':       # a loop over nothing between an assignment and its use
        k = Case(f'it_empty_between_{s}'); x = k.var(SH[s], 'R'); w = k.hold(SH[s]); e0 = un('sin', x); k.rstm.append(f'auto w0 = {e0.r}; R.fin[1] = w0;'); k.cstm.append('std::vector<int> ix;')
        k.res = E(f'((x1 = {e0.c}), ad::for_each(ix.begin(), ix.end(), [&](int i) {{ return x1 = x0 * double(i); }}), x1 * x1)', 'ref::powi(w0, 2)', SH[s]); out.append(k)
    k = Case('it_sum_empty_const'); x = k.var(S, 'R'); k.cstm.append('std::vector<int> ix;'); k.res = E('ad::sum(ix.begin(), ix.end(), [&](int) { return ad::constant(2.); }) + x0', 'R.x[0]', S); out.append(k)
    # functor over containers of views
    k = Case('it_views'); x = k.var(V(), 'ZEROS'); k.cstm.append('std::vector<ad::VarView<double>> vs; for (int i = 0; i < I.n; ++i) vs.push_back(x0(i));')
    k.res = E('ad::prod(vs.begin(), vs.end(), [](const auto& v) { return v * 2.; }) + ad::sum(vs.begin(), vs.end(), [](const auto& v) { return v; })',
              "ref::bin('+', ref::fold('*', ref::iter(R.n, [&](int i) { return ref::bin('*', ref::elem(R.x[0], i), R.k(2.)); })), ref::sum(R.x[0]))", S); out.append(k)
    k = Case('it_nested'); x = k.var(V('4'), 'UNIT'); y = k.var(V('3'), 'UNIT'); k.cstm.append('auto ix = I.idx(4); auto iy = I.idx(3);')
    k.res = E('ad::sum(ix.begin(), ix.end(), [&](int i) { return ad::prod(iy.begin(), iy.end(), [&](int j) { return x0(i) + x1(j); }); })',
              "ref::fold('+', ref::iter(4, [&](int i) { return ref::fold('*', ref::iter(3, [&](int j) { return ref::bin('+', ref::elem(R.x[0], i), ref::elem(R.x[1], j)); })); }))", S); out.append(k)
    for j in range(nrand):
        k = Case(f'red_rand{j}'); r = Rnd(k, g, consts=.08)
        e = g.choice([sum_, norm_])(r.any(g.choice([V(), M()]), 2))
        if g.random() < .4: e = bn('*', e, r.iter(2))
        if g.random() < .4: e = bn('+', e, prod_(bn('*', k.var(V('5'), 'ZEROS'), r.any(S, 1))))
        k.res = e; out.append(k)
    return out

# ------------------------------------------------------------------ C08
def powers(g):
    out = []
    for n in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 20, 24, 31, 32, 33, 50, 64, -1, -2, -3, -4, -5, -6, -7, -8, -9, -10, -12, -15, -16, -17, -32):
        for s in 'SVM':
            if abs(n) > 8 and s == 'M' and g.random() < .5: continue
            k = Case(f'pow_{"m" if n < 0 else ""}{abs(n)}_{s}'); x = k.var(SH[s], 'ZEROS' if n >= 0 else 'ZPOW', g.choice(['own', 'view'])); y = pw(n, x)
            if g.random() < .3 and n >= 0: y = bn('*', y, k.var(S, 'R'))
            k.idle(SH[s]); k.res = y; out.append(k)
        for s in 'SVM' if abs(n) <= 16 else '':
            k = Case(f'pow_{"m" if n < 0 else ""}{abs(n)}_ext_{s}'); x = k.var(SH[s], 'EPOW', g.choice(['own', 'view'])); k.res = pw(n, x); out.append(k)
        s = g.choice('SVM'); k = Case(f'pow_{"m" if n < 0 else ""}{abs(n)}_expr_{s}'); x = k.var(SH[s], 'NZ'); k.res = bn('+', pw(n, bn('*', x, k.var(S, 'NZ'))), x); out.append(k)
        k = Case(f'pow_{"m" if n < 0 else ""}{abs(n)}_const'); x = k.var(S, 'R'); c = k.const(g.choice([S, V(), M()]), 'NZ'); k.res = bn('*', pw(n, wrapc(c)), x); out.append(k)
    for a, b in ((2, 3), (0, 2), (1, -1), (-2, 2), (3, 0)):
        k = Case(f'powpow_{abs(a)}{"m" if a < 0 else ""}_{abs(b)}{"m" if b < 0 else ""}'); x = k.var(V(), 'NZ'); k.res = pw(a, pw(b, x)); out.append(k)
    return out

# ------------------------------------------------------------------ C09
def linalg(g, nrand):
    out = []
    for A, B, nm in ((M('p', 'q'), M('q', 'n'), 'mm'), (M('p', 'q'), V('q'), 'mv'), (M('n', 'p'), V('p'), 'mv2'), (M('1', 'n'), V('n'), 'rv'), (M('p', '1'), M('1', 'q'), 'outer'), (M('p', 'p'), M('p', 'p'), 'sq')):
        for ka in ('own', 'view', 'const', 'constview', 'expr'):
            for kb in ('own', 'view', 'const', 'constview', 'expr'):
                if 'const' in ka and 'const' in kb: continue
                if g.random() < .35 and nm not in ('mm', 'mv'): continue
                k = Case(f'dot_{nm}_{ka}_{kb}')
                a = compound(k, A, 'R', g) if ka == 'expr' else leafkind(k, A, 'R', ka); b = compound(k, B, 'R', g) if kb == 'expr' else leafkind(k, B, 'R', kb)
                y = dot(a, b)
                if g.random() < .4: y = bn('*', y, k.var(S, 'R'))
                k.idle(M()); k.res = y; out.append(k)
        k = Case(f'dot_{nm}_ext'); k.res = dot(k.var(A, 'ESC'), k.var(B, 'ESC', 'view')); out.append(k)
    for sh, nm in ((V(), 'v'), (M(), 'm'), (M('1', 'n'), 'row'), (M('n', '1'), 'col'), (M('p', 'p'), 'sq')):
        for kind in ('own', 'view', 'expr', 'const', 'constview'):
            k = Case(f'tr_{nm}_{kind}'); x = k.var(sh, 'R', kind) if kind in ('own', 'view') else compound(k, sh, 'R', g) if kind == 'expr' else leafkind(k, sh, 'R', kind)
            y = tr(x if kind != 'const' else wrapc(x))
            if 'const' in kind: y = bn('*', y, k.var(S, 'R'))
            k.res = y; out.append(k)
    def c(nm, f): k = Case(nm); k.res = f(k); out.append(k)
    def xtx(k): x = k.var(M(), 'R'); return dot(tr(x), x)
    def xxt(k): x = k.var(M(), 'R', 'view'); return dot(x, tr(x))
    def sq(k): x = k.var(M('p', 'p'), 'R'); return dot(x, x)
    def cube(k): x = k.var(M('p', 'p'), 'R'); return dot(x, dot(x, x))
    def quad(k): x = k.var(V(), 'R'); a = k.var(M('n', 'n'), 'R'); return dot(tr(x), dot(a, x))
    def inner(k): x = k.var(V(), 'R'); return dot(tr(x), x)
    def outer(k): x = k.var(V(), 'R', 'view'); return dot(E(x.c, x.r, x.sh), tr(x)) if False else dot(tr(tr(x)), tr(x))
    def abt(k): a = k.var(M(), 'R'); b = k.var(M('n', 'q'), 'R'); return tr(dot(b, tr(a)))
    def chain(k): a = k.var(M(), 'R'); b = k.var(M('q', 'p'), 'R'); v = k.var(V('p'), 'R'); return dot(a, dot(b, v))
    def trtr(k): return tr(tr(k.var(M(), 'R')))
    def reg(k): X = k.const(M('n', 'p'), 'R', 'constview'); w = k.var(V('p'), 'R'); y = k.const(V(), 'R'); return norm_(bn('-', y, dot(X, w)))
    def mix(k): a = k.var(M(), 'R'); return bn('*', dot(a, tr(a)), sum_(a))
    for f in (xtx, xxt, sq, cube, quad, inner, outer, abt, chain, trtr, reg, mix): c('la_' + f.__name__, f)
    for j in range(nrand):
        k = Case(f'la_rand{j}'); r = Rnd(k, g, consts=.1, stats=False)
        m = g.choice(['p', 'q', '2']); a = r.any(M('p', m), 2); b = r.any(g.choice([M(m, 'q'), V(m)]), 2); y = dot(a, b)
        if g.random() < .4: y = tr(y)
        k.res = y; out.append(k)
    return out

# ------------------------------------------------------------------ C10
def dets(g):
    out = []
    PP = M('p', 'p')
    for lg, fn in ((0, det), (1, logdet)):
        for pol, dom, sing in ((None, 'GEN', 'SING'), ('FullPivLU', 'GEN', 'SING'), ('LDLT', 'SPD', 'SINGSYM'), ('LLT', 'SPD', 'SPDX')):
            nm = f'{"logdet" if lg else "det"}_{pol or "default"}'
            for kind in ('own', 'view', 'sing', 'expr', 'sub', 'inner', 'chain', 'ext', 'ext2', 'ext3', 'ext4'):
                if kind in ('ext3', 'ext4') and not lg: continue      # determinants beyond the range of the numbers, whose logarithm is not
                k = Case(f'{nm}_{kind}')
                if kind in ('own', 'view'): y = fn(k.var(PP, dom, kind), pol)
                elif kind == 'ext': y = fn(k.var(PP, 'E' + dom, g.choice(['own', 'view'])), pol)
                elif kind == 'ext3': y = fn(k.var(PP, 'E' + dom + 'X', g.choice(['own', 'view'])), pol)
                elif kind == 'ext4': y = fn(un('neg', k.var(M('>', '>'), 'E' + dom + 'X')) if pol != 'LLT' else bn('*', k.lit(3.), k.var(M('>', '>'), 'E' + dom + 'X')), pol)
                elif kind == 'ext2': y = fn(bn('*', k.var(PP, 'E' + dom), k.var(S, 'EPSC')), pol)
                elif kind == 'sing':
                    x = k.var(PP, sing); y = fn(x, pol)
                    if pol == 'LLT': y = E(y.c, y.r.replace('ref::logabsdet(', 'ref::logabsdet_spd(').replace('ref::det(', 'ref::det_spd('), S)
                elif kind == 'expr': y = fn(bn('*', k.var(PP, dom), k.var(S, 'POS')), pol)
                elif kind == 'sub': y = bn('*', fn(bn('+', k.var(PP, dom), k.const(PP, dom, 'constview')) if dom == 'SPD' else bn('*', k.var(S, 'NZ'), k.var(PP, dom)), pol), k.var(S, 'R'))
                elif kind == 'inner': x = k.var(PP, dom, 'view'); y = bn('+', bn('*', fn(x, pol), un('sin', fn(x, pol))), sum_(x))
                else: x = k.var(M('p', 'q'), 'R'); y = fn(bn('+', dot(x, tr(x)), k.const(PP, 'SPD')), pol)
                k.idle(PP); k.res = y; out.append(k)
            # matrices the decomposition accepts and rejects in turn, in several places
            spd = (lambda y: E(y.c, y.r.replace('ref::logabsdet(', 'ref::logabsdet_spd(').replace('ref::det(', 'ref::det_spd('), S)) if pol == 'LLT' else lambda y: y
            k = Case(f'{nm}_singview'); x = k.var(PP, sing, 'view'); k.res = spd(fn(x, pol)); k.idle(V()); out.append(k)
            k = Case(f'{nm}_singone'); x = k.var(PP, sing); k.res = spd(fn(E(f'({x.c} * 1.)', x.r, PP), pol)); out.append(k)
            k = Case(f'{nm}_singtwo'); x = k.var(PP, sing); z = k.var(PP, dom); y = k.var(S, 'R'); a, b = spd(fn(x, pol)), fn(z, pol)
            k.res = a if lg else bn('+', bn('*', a, y), b) if pol != 'LLT' else a; out.append(k)
            if pol == 'LDLT':
                k = Case(f'{nm}_neg'); k.res = fn(k.var(PP, 'SND'), pol); out.append(k)
            k = Case(f'{nm}_const'); x = k.var(S, 'R'); c = k.const(PP, dom); k.res = bn('*', fn(wrapc(c), pol), x); out.append(k)
    return out

# ------------------------------------------------------------------ C11
def ifelse(g, nrand):
    out = []
    conds = {'lt': lambda k, a, b: cmp('<', a, b), 'ge': lambda k, a, b: cmp('>=', a, b), 'eq': lambda k, a, b: cmp('==', a, b), 'ne': lambda k, a, b: cmp('!=', a, b),
             'and': lambda k, a, b: cmp('&&', cmp('<', a, k.lit(.7)), cmp('>', b, k.lit(-.5))), 'or': lambda k, a, b: cmp('||', cmp('>', a, b), cmp('<=', b, k.lit(-.5))),
             'expr': lambda k, a, b: cmp('<', bn('*', a, b), un('sin', a)), 'cmpconst': lambda k, a, b: cmp('>', a, k.const(S, 'TIE')), 'num': lambda k, a, b: bn('*', a, cmp('>', b, a))}
    for cn, cf in conds.items():
        for s in 'SVM':
            for form in ('leaf', 'expr', 'shared', 'operand'):
                k = Case(f'ite_{cn}_{s}_{form}'); a = k.var(S, 'TIE'); b = k.var(S, 'TIE', 'view'); c = cf(k, a, b); sh = SH[s]
                if form == 'leaf': y = ite(c, k.var(sh, 'R'), k.var(sh, 'R', 'view'))
                elif form == 'expr': y = ite(c, bn('*', k.var(sh, 'R'), k.var(S, 'R')), un('exp', k.var(sh, 'UNIT')))
                elif form == 'shared': x = k.var(sh, 'POS'); y = ite(c, bn('*', x, a), bn('/', x, bn('+', x, pw(2, b))))
                else: x = k.var(sh, 'POS'); y = un('sin', bn('*', ite(c, un('log', x), bn('*', x, x)), bn('+', x, a)))
                k.idle(S); k.res = y; out.append(k)
    for s in 'SVM':
        sh = SH[s]
        k = Case(f'ite_constcond_t_{s}'); k.res = ite(E('ad::constant(true)', 'R.k(1)', S), un('sin', k.var(sh)), k.var(sh)) ; 
        k.res = ite(E('ad::constant(true)', 'R.k(1)', S), un('sin', E('x0', 'R.x[0]', sh)), un('cos', E('x1', 'R.x[1]', sh))); out.append(k)
        k = Case(f'ite_constcond_f_{s}'); x = k.var(sh); y = k.var(sh); k.res = ite(E('ad::constant(false)', 'R.k(0)', S), un('sin', x), un('cos', y)); out.append(k)
        k = Case(f'ite_constbranch_{s}'); a = k.var(S, 'TIE'); x = k.var(sh, 'R'); c = k.const(sh, 'R'); k.res = ite(cmp('<', a, k.lit(.25)), bn('*', x, x), c); out.append(k)
        k = Case(f'ite_constbranch2_{s}'); a = k.var(S, 'TIE'); x = k.var(sh, 'R'); c = k.const(sh, 'R'); k.res = bn('*', ite(cmp('<', a, k.lit(.25)), c, bn('*', x, x)), x); out.append(k)
        k = Case(f'ite_nest_{s}'); a = k.var(S, 'TIE'); b = k.var(S, 'TIE'); x = k.var(sh, 'R'); y = k.var(sh, 'R')
        k.res = ite(cmp('<', a, b), ite(cmp('<', a, k.lit(0)), bn('*', x, x), bn('*', x, y)), ite(cmp('==', a, b), un('sin', y), bn('-', x, y))); out.append(k)
        k = Case(f'ite_both_{s}'); a = k.var(S, 'TIE'); x = k.var(sh, 'R'); i1 = ite(cmp('>', a, k.lit(.4)), bn('*', x, a), un('neg', x)); k.res = bn('+', bn('*', i1, ite(cmp('<=', a, k.lit(-.5)), x, un('exp', x))), x); out.append(k)
        k = Case(f'ite_ph_{s}'); a = k.var(S, 'TIE'); x = k.var(sh, 'R'); w = k.hold(sh); e = ite(cmp('>', a, k.lit(.4)), bn('*', x, a), un('sin', x)); k.rstm.append(f'auto w0 = {e.r}; R.fin[2] = w0;')
        W = E('x2', 'w0', sh); k.res = seq([f'(x2 = {e.c})'], bn('*', W, W)); out.append(k)
        k = Case(f'ite_infnan_{s}'); a = k.var(S, 'TIE'); x = k.var(sh, 'R'); k.res = ite(cmp('>', a, k.lit(.2)), un('sqrt', bn('+', un('exp', x), a)), un('log', bn('+', bn('*', x, x), k.lit(.1)))) ; out.append(k)
    k = Case('ite_allconst'); x = k.var(S); k.res = E('ad::if_else(ad::constant(true), ad::constant(2.), ad::constant(3.)) * x0', "ref::bin('*', R.k(2.), R.x[0])", S); out.append(k)
    k = Case('ite_allconst_f'); x = k.var(S); k.res = E('ad::if_else(ad::constant(false), ad::constant(2.), ad::constant(3.)) * x0', "ref::bin('*', R.k(3.), R.x[0])", S); out.append(k)
    for dname, args in (('det', None), ('normal', None)):
        k = Case(f'ite_{dname}'); a = k.var(S, 'TIE'); x = k.var(M('p', 'p'), 'GEN'); v = k.var(V(), 'R'); s = k.var(S, 'POS')
        k.res = ite(cmp('>', a, k.lit(.2)), det(x) if dname == 'det' else stat('normal', v, a, s), bn('*', norm_(v), s)); out.append(k)
    for j in range(nrand):
        k = Case(f'ite_rand{j}'); r = Rnd(k, g, consts=.08); sh = g.choice([S, V(), M()])
        c = cmp(g.choice(['<', '>', '<=', '>=']), r.any(S, 2), r.any(S, 1))
        y = ite(c, r.any(sh, 2), r.any(sh, 2))
        if g.random() < .6: y = bn(g.choice('+*'), y, r.any(sh, 1))
        k.res = y; out.append(k)
    return out

# ------------------------------------------------------------------ C12 / C13
def stats(g, outside=False):
    out = []
    tag = 'sx' if outside else 'st'
    combos3 = ['SSS', 'VSS', 'VVS', 'VSV', 'VVV']
    doms = {'normal': ('R', 'R', 'SCALEX' if outside else 'POS'), 'cauchy': ('R', 'R', 'SCALEX' if outside else 'POS'), 'uniform': ('XX', 'LOX', 'HIX') if outside else ('XMID', 'LO', 'HI')}
    def mixes(n):
        import itertools
        return [m for m in itertools.product('vk', repeat=n)]
    def arg(k, sh, dom, m):
        if m == 'v': return k.var(sh, dom, g.choice(['own', 'view']))
        if m == 'k': return k.const(sh, dom, g.choice(['const', 'constview']) if sh != S else 'const')
        # compound
        if dom in ('SCALEX', 'XX', 'LOX', 'HIX', 'XMID', 'LO', 'HI', 'SPD', 'SPDX', 'PROBX'): return bn('*', k.var(sh, dom), k.lit(1.))
        return compound(k, sh, dom, g)
    for d in ('normal', 'cauchy', 'uniform'):
        for cb in combos3:
            for mx in mixes(3) + [('e', 'v', 'v'), ('v', 'e', 'e'), ('k', 'e', 'e'), ('e', 'e', 'k')]:
                if all(m == 'k' for m in mx): continue
                if outside and d != 'uniform' and mx[2] == 'k' and False: continue
                k = Case(f'{tag}_{d}_{cb}_{"".join(mx)}')
                a = [arg(k, SH[cb[i]], doms[d][i], mx[i]) for i in range(3)]
                y = stat(d, *a)
                if not outside and g.random() < .3: y = bn('*', y, k.var(S, 'R'))
                k.idle(S); k.res = y; out.append(k)
        if not outside:
            for sh in (S, V()):
                k = Case(f'{tag}_{d}_{sh[0]}_lit'); x = k.var(sh, doms[d][0]); l = {'normal': (0., 1.), 'cauchy': (0., 1.), 'uniform': (-1., 1.)}[d]; k.res = stat(d, x, k.lit(l[0]), k.lit(l[1])); out.append(k)
    # locations far from zero relative to the spread
    for d in ('normal', 'cauchy'):
        for cb in combos3 + (['VSM', 'VVM'] if d == 'normal' else []):
            for mx in ('vvv', 'kvk', 'kvv', 'vkk', 'vvk'):
                if outside and mx not in ('kvk', 'kvv'): continue
                k = Case(f'{tag}_far_{d}_{cb}_{mx}'); mv = cb[2] == 'M'
                sh = lambda c: M('p', 'p') if c == 'M' else V('p') if c == 'V' and mv else SH[c]
                k.res = stat(d, arg(k, sh(cb[0]), 'FAR', mx[0]), arg(k, sh(cb[1]), 'FAR', mx[1]), arg(k, sh(cb[2]), ('SPDX' if outside else 'SPD') if mv else doms[d][2], mx[2])); k.idle(S); out.append(k)
    # small and large scales
    if not outside:
        ED = {'normal': ('ESC', 'ESC', 'EPSC'), 'cauchy': ('ESC', 'ESC', 'EPSC'), 'uniform': ('EXMID', 'ELO', 'EHI')}
        for d in ED:
            for cb in combos3:
                for mx in ('vvv', 'kvv', 'vkv', 'vvk', 'kkv', 'vkk', 'kvk'):
                    k = Case(f'st_ext_{d}_{cb}_{mx}'); k.res = stat(d, *[arg(k, SH[cb[i]], ED[d][i], mx[i]) for i in range(3)]); k.idle(S); out.append(k)
        for cb in ('VSM', 'VVM'):
            for mx in ('vvv', 'kvv', 'vkv', 'vvk', 'kkv'):
                k = Case(f'st_ext_mvn_{cb}_{mx}'); k.res = stat('normal', arg(k, V('p'), 'ESC', mx[0]), arg(k, V('p') if cb[1] == 'V' else S, 'ESC', mx[1]), arg(k, M('p', 'p'), 'ESPD', mx[2])); out.append(k)
                k = Case(f'st_ext_mvnx_{cb}_{mx}'); k.res = stat('normal', arg(k, V('<'), 'ESC', mx[0]), arg(k, V('<') if cb[1] == 'V' else S, 'ESC', mx[1]), arg(k, M('<', '<'), 'ESPDW', mx[2])); out.append(k)
        for mx in ('vv', 'kv', 'vk'): k = Case(f'st_ext_wishx_{mx}'); k.res = stat('wishart', arg(k, M('=', '='), 'ESPDW', mx[0]), arg(k, M('=', '='), 'ESPDW', mx[1]), k.lit(20.)); out.append(k)
        for cb in ('SS', 'VS', 'VV'):
            for mx in ('kv', 'vv', 'vk'): k = Case(f'st_ext_bern_{cb}_{mx}'); k.res = stat('bernoulli', arg(k, SH[cb[0]], 'BIN', mx[0]), arg(k, SH[cb[1]], 'EPROB', mx[1])); out.append(k)
        for mx in ('vv', 'kv', 'vk'): k = Case(f'st_ext_wish_{mx}'); k.res = stat('wishart', arg(k, M('p', 'p'), 'ESPD', mx[0]), arg(k, M('p', 'p'), 'ESPD', mx[1]), k.const(S, 'EDOF')); out.append(k)
    # the same variable in several arguments
    if not outside:
        k = Case('st_normal_alias'); x = k.var(V(), 'POS'); k.res = stat('normal', x, un('sin', x), x); out.append(k)
        k = Case('st_normal_alias_s'); x = k.var(S, 'POS'); k.res = stat('normal', x, un('sin', x), x); out.append(k)
        k = Case('st_cauchy_alias'); x = k.var(V(), 'POS'); k.res = stat('cauchy', un('cos', x), x, x); out.append(k)
        k = Case('st_model'); y = k.const(V(), 'R', 'constview'); X = k.const(M('n', 'p'), 'R', 'constview'); w = k.var(V('p'), 'R'); s = k.var(S, 'POS')
        k.res = bn('+', bn('+', stat('normal', y, dot(X, w), s), stat('normal', w, k.lit(0.), k.lit(5.))), stat('cauchy', s, k.lit(0.), k.lit(2.))); out.append(k)
    # normal with a covariance matrix
    sd = 'SPDX' if outside else 'SPD'
    for ms in 'SV':
        for mx in mixes(3) + [('e', 'v', 'v'), ('v', 'e', 'e')]:
            if all(m == 'k' for m in mx): continue
            k = Case(f'{tag}_mvn_V{ms}M_{"".join(mx)}')
            k.res = stat('normal', arg(k, V('p'), 'R', mx[0]), arg(k, V('p') if ms == 'V' else S, 'R', mx[1]), arg(k, M('p', 'p'), sd, mx[2])); k.idle(S); out.append(k)
    # bernoulli
    for cb in ('SS', 'VS', 'VV'):
        for mx in ('kv', 'ke', 'vv', 'vk', 'ev', 'Ke', 'Kv'):
            k = Case(f'{tag}_bern_{cb}_{mx}'); xd = 'BINX' if outside else 'BIN'
            if mx[0] == 'K' and not outside: xd = 'BIN'
            if mx[0] == 'k' or mx[0] == 'v' or mx[0] == 'e': x = arg(k, SH[cb[0]], xd, mx[0]) if mx[0] != 'e' else bn('*', k.var(SH[cb[0]], xd), k.lit(1.))
            else: x = k.const(SH[cb[0]], 'BIN', 'iconst')
            pd = 'PROBX' if outside else 'PROB'
            if mx[1] == 'e' and outside: p = bn('*', k.var(SH[cb[1]], 'PROBX'), k.lit(1.))
            else: p = arg(k, SH[cb[1]], pd, mx[1])
            y = stat('bernoulli', x, p)
            k.idle(V()); k.res = y; out.append(k)
    # wishart
    for mx in ('vv', 'vk', 'kv', 'ee', 'ev', 'ke'):
        for nk in ('const', 'iconst'):
            k = Case(f'{tag}_wish_{mx}_{nk}'); dof = ('DOFX' if outside else 'DOF') if nk == 'const' else 'DOFX' if outside else 'DOFI'
            if nk == 'iconst' and outside: dof = 'DOFXI'
            x = arg(k, M('p', 'p'), sd, mx[0]) if mx[0] != 'e' else bn('*', k.var(M('p', 'p'), sd), k.lit(1.)); v = arg(k, M('p', 'p'), sd, mx[1]) if mx[1] != 'e' else bn('*', k.var(M('p', 'p'), sd), k.lit(1.))
            n = k.const(S, dof, nk); k.res = stat('wishart', x, v, n); k.idle(M()); out.append(k)
    if not outside:
        k = Case('st_wish_scale'); x = k.var(M('p', 'p'), 'SPD'); v = k.var(M('p', 'p'), 'SPD'); s = k.var(S, 'POS'); k.res = stat('wishart', bn('*', x, s), bn('*', v, un('exp', s)), k.const(S, 'DOF')); out.append(k)
        k = Case('st_mvn_scale'); x = k.var(V('p'), 'R'); v = k.var(M('p', 'p'), 'SPD'); s = k.var(S, 'POS'); k.res = stat('normal', x, bn('*', x, s), bn('*', v, s)); out.append(k)
    return out

# ------------------------------------------------------------------ C19
def constants(g):
    out = []
    # only constants: folded, equal to the variable version
    for f in UNARY:
        for s in 'SVM':
            k = Case(f'fold_{f}_{s}'); c = k.const(SH[s], UNARY[f], 'const' if s == 'S' else g.choice(['const', 'constview'])); k.flags.add('F_FOLD')
            k.res = un(f, c if c.c and k.ins[0][0] == 'CONST' and 'kw' in k.decl[0] else wrapc(c)); out.append(k)
    for op, nm in list(OPS.items()):
        for pr in PAIRS:
            k = Case(f'foldb_{nm}_{pr}'); a = wrapc(k.const(SH[pr[0]], 'R')); b = wrapc(k.const(SH[pr[1]], 'NZ')); k.flags.add('F_FOLD'); k.res = bn(op, a, b); out.append(k)
            if pr[1] != 'S': k = Case(f'foldbv_{nm}_{pr}'); a = wrapc(k.const(SH[pr[0]], 'R')); b = k.const(SH[pr[1]], 'NZ', 'constview'); k.flags.add('F_FOLD'); k.res = bn(op, a, b); out.append(k)
    for op, nm in CMPS.items():
        k = Case(f'foldc_{nm}'); a = wrapc(k.const(S, 'TIE')); b = wrapc(k.const(S, 'TIE')); x = k.var(V(), 'R')
        c = cmp(op, a, b) if nm not in ('and', 'or') else cmp(op, cmp('<', a, k.lit(.2)), cmp('>', b, k.lit(.2)))
        k.res = bn('*', c, x); out.append(k)
    for nm, f, sh in (('sum', sum_, 'VM'), ('prod', prod_, 'VM'), ('norm', norm_, 'VM'), ('tr', tr, 'VM')):
        for s in sh:
            for kd in ('const', 'constview'):
                k = Case(f'foldr_{nm}_{s}_{kd}'); c = k.const(SH[s], 'ZEROS' if nm == 'prod' else 'R', kd); k.flags.add('F_FOLD'); k.res = f(c if kd == 'constview' else wrapc(c)); out.append(k)
    for n in (0, 1, 2, 3, -1, -2):
        for s in 'SVM':
            k = Case(f'foldp_{"m" if n < 0 else ""}{abs(n)}_{s}'); k.flags.add('F_FOLD'); k.res = pw(n, wrapc(k.const(SH[s], 'NZ'))); out.append(k)
    for nm, A, B in (('mm', M('p', 'q'), M('q', 'n')), ('mv', M('p', 'q'), V('q'))):
        for ka, kb in (('const', 'constview'), ('constview', 'const')):
            k = Case(f'foldd_{nm}_{ka}'); a = k.const(A, 'R', ka); b = k.const(B, 'R', kb); k.flags.add('F_FOLD'); k.res = dot(a if ka == 'constview' else wrapc(a), b); out.append(k)
    for kd in ('const', 'constview'):
        for nm, f in (('det', det), ('logdet', logdet)):
            for dm in ('GEN', 'EGEN') + (('EGENX',) if nm == 'logdet' else ()):
                k = Case(f'foldm_{nm}_{kd}_{dm}'); c = k.const(M('p', 'p'), dm, kd); k.flags.add('F_FOLD'); k.res = f(c if kd == 'constview' else wrapc(c)); out.append(k)
    k = Case('fold_ite'); a = wrapc(k.const(S, 'TIE')); b = wrapc(k.const(V(), 'R')); c = wrapc(k.const(V(), 'R')); k.flags.add('F_FOLD'); k.res = ite(cmp('<', a, k.lit(.2)), b, c); out.append(k)
    # constants next to variables, all conversions
    for kd in ('const', 'iconst', 'constview'):
        for s in 'SVM':
            if kd in ('fconst', 'iconst') and s != 'S' or kd == 'constview' and s == 'S': continue     # Eigen does not mix element types
            k = Case(f'mix_{kd}_{s}'); x = k.var(S, 'NZ'); c = k.const(SH[s], 'INT', kd)
            k.res = bn('*', c, x); out.append(k)
            k = Case(f'mix2_{kd}_{s}'); x = k.var(SH[s], 'NZ'); c = k.const(SH[s], 'INT', kd)
            k.res = bn('-', bn('/', c, x), bn('+', x, c)); out.append(k)
    k = Case('mix_glue'); x = k.var(S, 'R'); c = k.const(V(), 'R'); k.res = bn('*', sum_(wrapc(c)), x); out.append(k)
    k = Case('mix_bool'); x = k.var(S, 'R'); k.res = E('x0 * true', 'R.x[0]', S); out.append(k)
    k = Case('mix_longfloat'); x = k.var(S, 'R'); k.res = E('(x0 * 3L + 1.5f) * 2u', "ref::bin('*', ref::bin('+', ref::bin('*', R.x[0], R.k(3)), R.k(1.5)), R.k(2))", S); out.append(k)
    # deep trees of constants under one variable
    for j in range(12):
        k = Case(f'mixr_{j}'); r = Rnd(k, g, consts=.75, stats=j % 2 == 0); x = k.var(S, 'R'); sh = g.choice([S, V(), M()]); k.res = bn('*', r.any(sh, 3), x); out.append(k)
    # constants of statistics: constant data, variable parameters (and the reverse), are in the statistics catalogue
    for d, doms in (('normal', ('R', 'R', 'POS')), ('cauchy', ('R', 'R', 'POS')), ('uniform', ('XMID', 'LO', 'HI'))):
        for cb in ('SSS', 'VSS', 'VVS', 'VSV', 'VVV'):
            k = Case(f'foldst_{d}_{cb}'); a = [wrapc(k.const(SH[cb[i]], doms[i])) for i in range(3)]; x = k.var(S, 'R'); k.res = bn('*', stat(d, *a), x); out.append(k)
    return out

# ------------------------------------------------------------------ random composed programs
def composed(g, n, name='rnd', stats=True):
    out = []
    for j in range(n):
        k = Case(f'{name}{j}'); r = Rnd(k, g, share=g.choice([.2, .5, .8]), stats=stats)
        sh = g.choice([S, S, S, V(), M()])
        k.res = r.any(sh, g.choice([2, 3, 3, 4]))
        while k.res.leaf or k.res.const or not any(i[0] == 'VAR' for i in k.ins):
            k.res = bn('*', r.any(sh, 2), k.var(S, 'R'))
        k.idle(g.choice([S, V(), M()])); out.append(k)
    return out

def spread(g, cs, w):
    """w of the cases, every family (the first two parts of the name) represented, larger families more often"""
    if len(cs) <= w: return cs
    fam = {}
    for c in cs: fam.setdefault('_'.join(re.sub(r'rand\d+', 'rand', c.name).split('_')[:3 if c.name.startswith('it_') else 2]), []).append(c)
    for l in fam.values(): g.shuffle(l)
    # the i-th pick of a family of m cases comes at time i / sqrt(m)
    order = sorted(((i + g.random() * .5) / len(l) ** .5, k, i) for k, l in fam.items() for i in range(len(l)))
    return [fam[k][i] for _, k, i in order[:w]]

def everything(g, scale=1.):
    """a sample of the whole catalogue, for the cross-cutting properties"""
    groups = [unary(g), binary(g) + overlaps(g), placeholders(g, 12), opeqs(g, 12), reductions(g, 8), powers(g), linalg(g, 8), dets(g), ifelse(g, 8), stats(g), stats(g, True), constants(g)]
    want = [50, 100, 70, 70, 85, 24, 45, 40, 40, 130, 100, 50]
    out = []
    for cs, w in zip(groups, want): out += spread(g, cs, int(w * scale))
    return out + composed(g, int(60 * scale))
