"""What each check runs: parts of the catalogue (kind 'cat') and hand-written drivers (kind 'drv')."""
import cat, fwd, probes

VAL, GRAD, ROUTES, REPLAY, FRAME, CACHE, RESTORE, REPEAT, INTER, HOLDV, LIFE, GARBAGE = (1 << i for i in range(12))
ALL = 4095
NUM = VAL | GRAD | REPEAT | INTER            # numbers, however they are reached
RULE = ('a case is a generated program (expression tree or statement sequence over own/viewing variables, owned/viewing constants) run on random dimensions and random inputs, '
        'distinct by program, dimensions and input bits; non-trivial when the reference reaches the same branches under perturbation (a conclusive comparison was made)')
RULES = {}
ASSUME = ['the reference tape (lib/ref.cpp) states the mathematics of each operation correctly', 'tolerances: 300 x the spread of 6 perturbed reference runs + 64 ulp',
          'ranges are bounded: vectors up to 70, matrices up to 11x11, nesting depth up to 4 (8 in thorough)']

def sample(g, cs, n): return cs if len(cs) <= n else g.sample(cs, n)

# property -> (mask, quick generator, thorough generator)
GEN = {
    'C01': (NUM, lambda g: cat.composed(g, 200) + sample(g, cat.overlaps(g, 16), 80) + cat.everything(g, .2), lambda g: cat.composed(g, 400) + cat.overlaps(g, 100) + cat.everything(g, .5)),
    'C02': (VAL | ROUTES, lambda g: cat.everything(g, 1.), lambda g: cat.everything(g, 2.)),
    'C03': (NUM, lambda g: cat.unary(g), lambda g: cat.unary(g)),
    'C04': (NUM, lambda g: sample(g, cat.binary(g), 330) + cat.overlaps(g), lambda g: cat.binary(g) + cat.overlaps(g, 60)),
    'C05': (NUM | HOLDV | REPLAY, lambda g: cat.placeholders(g, 70), lambda g: cat.placeholders(g, 160)),
    'C06': (NUM | HOLDV | RESTORE | REPLAY, lambda g: cat.opeqs(g, 40), lambda g: cat.opeqs(g, 160)),
    'C07': (NUM, lambda g: cat.reductions(g, 20), lambda g: cat.reductions(g, 100)),
    'C08': (NUM, lambda g: cat.powers(g), lambda g: cat.powers(g)),
    'C09': (NUM, lambda g: cat.linalg(g, 20), lambda g: cat.linalg(g, 100)),
    'C10': (NUM, lambda g: cat.dets(g), lambda g: cat.dets(g)),
    'C11': (NUM | HOLDV, lambda g: cat.ifelse(g, 50), lambda g: cat.ifelse(g, 120)),
    'C12': (NUM, lambda g: cat.stats(g), lambda g: cat.stats(g)),
    'C13': (NUM, lambda g: cat.stats(g, True), lambda g: cat.stats(g, True)),
    'C14': (CACHE | REPLAY | INTER | GARBAGE, lambda g: cat.everything(g, 2.5), lambda g: cat.everything(g, 3.)),
    'C15': (GARBAGE, lambda g: cat.everything(g, .8), lambda g: cat.everything(g, 2.)),
    'C16': (REPLAY | REPEAT | GRAD | VAL, lambda g: cat.everything(g, 2.), lambda g: cat.everything(g, 3.)),
    'C17': (FRAME | INTER | RESTORE, lambda g: cat.everything(g, 2.), lambda g: cat.everything(g, 3.)),
    'C18': (LIFE | ROUTES | INTER, lambda g: cat.everything(g, .5), lambda g: cat.everything(g, 1.)),
    'C19': (NUM | CACHE | FRAME, lambda g: cat.constants(g), lambda g: cat.constants(g)),
}
TRIALS = {'C14': 40, 'C16': 50, 'C17': 50, 'C10': 200, 'C13': 100, 'C03': 120, 'C08': 120, 'C15': 30, 'C02': 40}

def parts(prop, tier, seed):
    out = []; quick = tier != 'thorough'
    if prop in GEN:
        mask, q, t = GEN[prop]; n = TRIALS.get(prop, 60)
        args = {'--run': ALL} if prop == 'C15' else {}
        if quick: out.append(dict(kind='cat', name='cat', gen=q, mask=mask, trials=n, gseed=seed, args=args))
        else:
            for i in range(2): out.append(dict(kind='cat', name=f'cat{i}', gen=t, mask=mask, trials=n * 6, gseed=seed + 1000 * i, steps=6, timeout=1500, args=args))
            for i, b in enumerate(('gasan', 'opt', 'avx')): out.append(dict(kind='cat', name=f'cat-{b}', build=b, gen=q, mask=mask, trials=n * 10, gseed=seed + 100 + i, timeout=1500, args=args))
    if prop == 'C22':
        out.append(dict(kind='cat', name='threads', build='tsan', main='threads', gen=lambda g: cat.everything(g, .35 if quick else 1.), mask=0, trials=4 if quick else 24, steps=3, gseed=seed, timeout=600 if quick else 1500))
        out.append(dict(kind='cat', name='threads-opt', build='opt', main='threads', gen=lambda g: cat.everything(g, .1 if quick else .4), mask=0, trials=30 if quick else 300, steps=4, gseed=seed + 3, timeout=600 if quick else 1500))
    if prop == 'C23':
        out.append(dict(kind='cat', name='heap', build='plain', main='heap', lib=['heapcount'], gen=lambda g: cat.everything(g, .7 if quick else 1.5), mask=0, trials=6 if quick else 40, steps=40, gseed=seed, timeout=600 if quick else 1500))
        out.append(dict(kind='drv', name='own', build='plain', files=['c18'], defs=('-DDRV_HEAP',), lib=['heapcount'], trials=40 if quick else 500, gseed=seed, only_monitors=('LEFT',), timeout=600 if quick else 1500))
    if prop == 'C24':
        sc, t = (1., 24) if quick else (3., 150)
        for b in ('asan',) if quick else ('asan', 'gasan', 'opt', 'avx'):
            out.append(dict(kind='cat', name='probes-' + b, build=b, main='probes', incl='probe.hpp', gen=lambda g: probes.catalogue(g, sc), mask=0, trials=t, steps=6, gseed=seed if b in ('asan', 'opt') else seed + 50, timeout=800 if quick else 2500))
    if prop == 'C20':
        n, t = (120, 150) if quick else (400, 400)
        for b in ('asan', 'opt') if quick else ('asan', 'gasan', 'opt', 'avx'): out.append(dict(kind='drv', name='fwd-' + b, build=b, files=['fwdmain'], source=fwd.c20_source(n), trials=t, gseed=seed, timeout=900))
    if prop == 'C21':
        n, t = (150, 150) if quick else (400, 300)
        for b in ('asan',) if quick else ('asan', 'gasan', 'opt', 'avx'): out.append(dict(kind='drv', name='agree-' + b, build=b, files=['agreemain'], source=fwd.c21_source(n), trials=t, gseed=seed, timeout=900))
    if prop == 'C15':
        # reads of uninitialised memory: fresh caches are undefined to valgrind
        out.append(dict(kind='cat', name='memcheck', build='plain', defs=('-DVF_VALGRIND',), gen=lambda g: cat.everything(g, .3 if quick else .8), mask=0, trials=2 if quick else 12, gseed=seed + 7, timeout=800 if quick else 2500,
                        args={'--run': ALL}, wrap=['valgrind', '-q', '--error-exitcode=99', '--exit-on-first-error=yes', '--leak-check=no']))
        out.append(dict(kind='drv', name='own', files=['c18'], trials=15 if quick else 300, gseed=seed, timeout=600 if quick else 1500, quiet=True))
    if prop == 'C19':
        for b in ('asan',) if quick else ('asan', 'gasan', 'opt', 'avx'): out.append(dict(kind='drv', name='const-' + b, build=b, files=['c19'], trials=150 if quick else 2000, gseed=seed, timeout=400 if quick else 1500))
    if prop == 'C18':
        out.append(dict(kind='drv', name='own', files=['c18'], trials=60 if quick else 1500, gseed=seed, timeout=400 if quick else 1500))
        if not quick:
            for b in ('gasan', 'opt'): out.append(dict(kind='drv', name='own-' + b, build=b, files=['c18'], trials=1500, gseed=seed + 5, timeout=1500))
    return out

TECH_DEFAULT = 'runtime monitoring of generated programs under ASan/UBSan: online comparison with an independent reference tape'
TECH = {
    'C14': 'runtime monitoring: guarded (poisoned, canaried) cache storage, cache-content replay, ASan',
    'C15': 'sanitizers (ASan, UBSan, Eigen assertions, valgrind memcheck on undefined caches) over generated programs and ownership scenarios',
    'C16': 'runtime monitoring: histories of evaluations compared with reference and with bit-exact replay',
    'C17': 'runtime monitoring: frame monitor (bit snapshots of everything not to be written), interleaved evaluations',
    'C18': 'runtime monitoring: model-based random histories of copy/move/assign/destroy over pools of variables and views, bound expressions outliving their originals, under ASan',
    'C20': 'runtime monitoring of generated forward-mode programs: online comparison with an independent dual-number reference under ASan/UBSan',
    'C21': 'runtime monitoring: differential monitor comparing forward- and reverse-mode executions of the same generated programs',
    'C22': 'ThreadSanitizer over generated programs evaluated concurrently, plus bit-exact comparison with the same program evaluated alone',
    'C23': 'runtime monitoring: malloc interposition counting live blocks and bytes over repeated evaluation, binding and destruction',
    'C24': 'runtime monitoring: user-defined expression nodes log every forward/backward visit; an online trace checker compares with the order and seeds of the reference',
}
NOTES = {}
