"""Programs over probes (C24): the catalogue with probes inserted, and statement programs with loops."""
import random
import ir, cat
from ir import *

def body(k, g, atoms, d):
    """a scalar expression over the given atoms, with a root of its own"""
    r = Rnd(k, g, share=1.1, consts=.1, stats=False); r.frozen = r.noiter = True
    for e, dom in atoms: r.add(e, dom)
    for dom in ('UNIT', 'POS'): r.vleaf(S, dom)
    e = r.any(S, d)
    return bn('*', e, k.clit(1.25)) if e.leaf or e.const else e

def programs(g, n):
    out = []
    for j in range(n):
        k = Case(f'pp_rand{j}'); r = Rnd(k, g, consts=.08, stats=g.random() < .5); st = []; cur = []
        for t in range(g.randrange(0, 2)):
            sh = g.choice([S, S, V()]); x = k.opeq(sh, 'NZ', g.choice(['own', 'view'])); i = len(k.ins) - 1
            k.rstm.append(f'auto v{t} = R.x[{i}];'); cur.append([E(x.c, f'v{t}', sh, False, True), i])
        for t in range(g.randrange(1, 5)):
            w = g.random()
            if w < .3:                                                    # placeholder
                sh = g.choice([S, S, V(), M()]); e = r.any(sh, g.choice([1, 2, 3]))
                if e.leaf or e.const: e = bn('*', r.vleaf(sh, 'R'), k.clit(1.5))
                h = k.hold(sh, g.choice(['own', 'view']))
                k.rstm.append(f'auto w{t} = {e.r}; R.fin[{len(k.ins) - 1}] = w{t};'); st.append(f'({h.c} = {e.c})')
                for _ in range(2): r.add(E(h.c, f'w{t}', sh, False, True), 'R')
            elif w < .45 and cur:                                          # compound assignment
                c = g.choice(cur); sh = c[0].sh; oq = g.choice(['+=', '-=', '*=', '/=']); rsh = g.choice([S, sh])
                e = r.pos(rsh, 2) if oq == '/=' else r.any(rsh, 2) if oq in ('+=', '-=') else r.unit(rsh, 2)
                nm = f'y{t}'; k.rstm.append(f"auto {nm} = {assigned(oq[0], c[0], e)}; R.fin[{c[1]}] = {nm};")
                st.append(f'({c[0].c} {oq} {e.c})'); c[0] = E(c[0].c, nm, sh, False, True)
            else:                                                          # loops
                v = r.vleaf(V(), 'R'); p = r.vleaf(V(), 'POS'); s = r.vleaf(S, 'R')
                k.cstm.append('auto ix%d = I.idx(I.n);' % k.tmp); ix = 'ix%d' % k.tmp; k.tmp += 1
                form = g.choice(['map', 'map2', 'rec', 'acc'] if cur else ['map', 'map2', 'rec'])
                sc = [c for c in cur if c[0].sh == S]
                if form == 'acc' and not sc: form = 'map'
                ir.ITER = 'o'; atoms = [(el(v, 'o'), 'R'), (el(p, 'o'), 'POS'), (s, 'R')]
                if form == 'rec':
                    h = k.hold(V(), g.choice(['own', 'view'])); hi = len(k.ins) - 1
                    prev = E(f'{h.c}(o - 1)', f'a{t}[o - 1]', S, False, True); b = un(g.choice(['sin', 'tanh']), bn('*', prev, body(k, g, atoms + [(prev, 'R')], 2))); ir.ITER = None
                    b0 = un('tanh', bn('*', E(f'{v.c}(0)', f'ref::elem({v.r}, 0)', S, False, True), s))
                    k.rstm.append(f'std::vector<ref::N> a{t}; a{t}.push_back({b0.r});'); st.append(f'({h.c}(0) = {b0.c})')
                    k.rstm.append(f'for (int o = 1; o < R.n; ++o) {{ ++R.t->stmt; a{t}.push_back({b.r}); }} auto w{t} = ref::concat(a{t}); R.fin[{hi}] = w{t};')
                    st.append(f'ad::for_each({ix}.begin() + 1, {ix}.end(), [&](int o) {{ return {h.c}(o) = {b.c}; }})'); r.add(E(h.c, f'w{t}', V(), False, True))
                elif form == 'acc':
                    c = g.choice(sc); cx = E(c[0].c, f's{t}', S, False, True); b = body(k, g, atoms + [(cx, 'R')], 2); b = un('sin', b); oq = g.choice('+-*'); ir.ITER = None
                    k.rstm.append(f'auto s{t} = {c[0].r}; for (int o = 0; o < R.n; ++o) {{ ++R.t->stmt; s{t} = ref::bin(\'{oq}\', s{t}, {b.r}); }} R.fin[{c[1]}] = s{t};')
                    st.append(f'ad::for_each({ix}.begin(), {ix}.end(), [&](int o) {{ return {c[0].c} {oq}= {b.c}; }})'); c[0] = E(c[0].c, f's{t}', S, False, True)
                else:
                    h = k.hold(V(), g.choice(['own', 'view'])); hi = len(k.ins) - 1; b = body(k, g, atoms, g.choice([1, 2, 3])); W = E(f'{h.c}(o)', f'a{t}.back()', S, False, True)
                    if form == 'map': ref2 = cpp2 = ''; z = None
                    else:
                        z = k.hold(V()); zi = len(k.ins) - 1; b2 = body(k, g, atoms + [(W, 'R'), (W, 'R')], 2)
                        ref2 = f' ++R.t->stmt; b{t}.push_back({b2.r});'; cpp2 = f', ({z.c}(o) = {b2.c})'
                    ir.ITER = None
                    k.rstm.append(f'std::vector<ref::N> a{t}, b{t}; for (int o = 0; o < R.n; ++o) {{ ++R.t->stmt; a{t}.push_back({b.r});{ref2} }} auto w{t} = ref::concat(a{t}); R.fin[{hi}] = w{t};' + (f' auto z{t} = ref::concat(b{t}); R.fin[{zi}] = z{t};' if z else ''))
                    st.append(f'ad::for_each({ix}.begin(), {ix}.end(), [&](int o) {{ return (({h.c}(o) = {b.c}){cpp2}); }})')
                    r.add(E(h.c, f'w{t}', V(), False, True)); z and r.add(E(z.c, f'z{t}', V(), False, True))
        for c in cur: r.add(c[0])
        fin = r.any(g.choice([S, S, V(), M()]), g.choice([2, 3]))
        if fin.const or fin.leaf: fin = bn('*', fin, r.vleaf(S, 'R'))
        # the way the statements are glued
        while len(st) > 1 and g.random() < .3: b = st.pop(); st[-1] = f'({st[-1]}, {b})'
        if st and g.random() < .3: a = st.pop(); fin = E(f'({a}, {fin.c})', fin.r, fin.sh)
        k.res = cat.seq(st, fin); out.append(k)
    return out

def ranges(g, n):
    """sums and products over ranges whose terms contain probes; zero factors among the products"""
    out = []
    for j in range(n):
        k = Case(f'pr_rand{j}'); r = Rnd(k, g, consts=.08, stats=False); es = []
        for t in range(g.randrange(1, 3)):
            w = g.choice(['prod', 'prod', 'sum']); vec = g.random() < .3
            v = k.var(V('7'), 'ZEROS' if w == 'prod' else 'R', g.choice(['own', 'view'])); s = k.var(S, 'R'); ix = f'ix{k.tmp}'; k.tmp += 1; k.cstm.append(f'auto {ix} = I.idx(1 + I.n % 7);')
            ir.ITER = 'o'; b = bn('*', el(v, 'o'), body(k, g, [(el(v, 'o'), 'R'), (s, 'R')], g.choice([1, 2, 2, 3])))
            if vec: b = bn('*', k.var(V(), 'NZ'), b)
            if g.random() < .4: b = bn('-', b, bn('*', el(v, 'o'), k.clit(.5)))
            ir.ITER = None
            e = E(f'ad::{w}({ix}.begin(), {ix}.end(), [&](int o) {{ return {b.c}; }})', f"ref::fold('{'*' if w == 'prod' else '+'}', ref::iter(1 + R.n % 7, [&](int o) {{ return {b.r}; }}))", b.sh)
            if g.random() < .6: e = ir.PROBER.res(e)
            es.append(e)
        e = es[0]
        if len(es) > 1: e = bn(g.choice('+*'), *es) if es[0].sh == es[1].sh or S in (es[0].sh, es[1].sh) else bn('*', sum_(es[0]), sum_(es[1]))
        if g.random() < .5: e = bn('*', e, r.any(S, 2))
        k.res = e; out.append(k)
    return out

def catalogue(g, scale):
    """everything of the catalogue that one can put a probe into, and the programs above"""
    ir.PROBER = Prober(g)
    try:
        groups = [(cat.unary(g), 25), (cat.binary(g), 60), (cat.placeholders(g, 14), 50), (cat.opeqs(g, 14), 50), (cat.reductions(g, 8), 40), (cat.powers(g), 20), (cat.linalg(g, 8), 40), (cat.dets(g), 30),
                  (cat.ifelse(g, 16), 60), (cat.stats(g), 70), (cat.stats(g, True), 40), (cat.composed(g, 60), 60), (programs(g, int(100 * scale)), 10 ** 6), (ranges(g, int(40 * scale)), 10 ** 6)]
    finally: ir.PROBER = None
    out = []
    for cs, w in groups:
        cs = [c for c in cs if 'probe(' in (t := c.emit())]
        w = int(w * scale); out += cs if len(cs) <= w else g.sample(cs, w)
    return out
