#!/usr/bin/env python3
"""Builds the workload of one property from /repo's working tree, runs it under its monitors, reports.

  run.py C07 [--tier quick|thorough] [--seed N]      a check
  run.py --replay evidence/replay/C07-1.json          the failing case of an earlier run, alone

exit 0: nothing the monitors watch for happened;  1: VIOLATION lines printed;  2: the check itself failed."""
import argparse, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(HERE, 'gen'))
import cat, plan                                               # noqa: E402

EIGEN = '/usr/include/eigen3'
INC = ['-std=c++17', '-I' + os.path.join(REPO, 'include'), '-isystem', EIGEN, '-I' + os.path.join(HERE, 'lib'), '-I' + os.path.join(HERE, 'drivers'), '-w', '-ferror-limit=5']
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:detect_stack_use_after_return=1:exitcode=99:allocator_may_return_null=1:handle_abort=0',
           UBSAN_OPTIONS='print_stacktrace=0:exitcode=99', TSAN_OPTIONS='halt_on_error=1:exitcode=66:report_signal_unsafe=0', OMP_NUM_THREADS='1')
BUILDS = {
    'asan': ['clang++', '-O0', '-fsanitize=address,undefined', '-fno-sanitize-recover=all'],
    'gasan': ['g++', '-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all'],
    'opt': ['g++', '-O2', '-DNDEBUG'],
    'avx': ['clang++', '-O2', '-march=native'],
    'plain': ['clang++', '-O1', '-g1'],
    'tsan': ['clang++', '-O1', '-g1', '-fsanitize=thread'],
}

class Broken(Exception):
    pass

def sh(cmd, timeout, cwd=None):
    """(status, output); status 'timeout' when it ran too long"""
    try:
        p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired as e:
        return 'timeout', (e.stdout or b'').decode('utf-8', 'replace')

def cc(build, src, obj, extra=()):
    base = BUILDS[build]
    inc = [a for a in INC if not (base[0] == 'g++' and a.startswith('-ferror-limit'))]
    link = obj if obj.endswith('.o') else obj
    cmd = base + inc + list(extra) + (['-c'] if obj.endswith('.o') else []) + [src] + ['-o', link]
    return sh(cmd, 600)

def gist(out):
    """the line of a crash report that says what happened"""
    keep = [l for l in out.splitlines() if re.search(r'runtime error:|ERROR: AddressSanitizer|WARNING: ThreadSanitizer|Assertion|SUMMARY|terminate called|what\(\)|Invalid (read|write)|uninitialised', l)]
    return ' | '.join(keep[:3])[:400] or (out.strip().splitlines() or ['no output'])[-1][:300]

def crash_kind(rc):
    return {'timeout': 'TERMINATION', 66: 'RACE'}.get(rc, 'SANITIZER' if rc == 99 else 'CRASH')

class Check:
    def __init__(self, prop, tier, seed, scratch):
        self.prop, self.tier, self.seed, self.dir = prop, tier, seed, scratch
        self.viol = []; self.tot = {}; self.cmpc = {}; self.samples = []; self.notes = []; self.evals = self.distinct = 0
        self.pool = ThreadPoolExecutor(max_workers=int(os.environ.get('VERIF_JOBS', os.cpu_count() or 8)))

    def path(self, n): return os.path.join(self.dir, n)
    def add(self, k, v):
        self.tot[k] = self.tot.get(k, 0) + v
    def violation(self, part, case, monitor, trial, msg, replay):
        self.viol.append(dict(part=part, case=case, monitor=monitor, trial=trial, msg=msg, replay=replay))

    # ---- support objects
    def support(self, build, names, defs=()):
        objs = {}
        def one(n):
            src = os.path.join(HERE, 'lib', n + '.cpp'); o = self.path(f'{n}-{build}.o')
            extra = list(defs) + (['-O1'] if n in ('ref', 'runner') else [])
            b = 'plain' if n == 'ref' and build in ('asan', 'plain') else build
            rc, out = cc(b, src, o, extra)
            return n, o, rc, out
        futs = [self.pool.submit(one, n) for n in names]
        def done():
            for f in futs:
                n, o, rc, out = f.result()
                if rc != 0: raise Broken(f'{n}.cpp does not compile: {gist(out)}\n{out[:3000]}')
                objs[n] = o
            return objs
        return done

    # ---- the catalogue under a runner
    def catalogue(self, part):
        """part: dict(name, gen(g) -> cases, build, mask, trials, steps, main)"""
        build = part.get('build', 'asan'); gseed = part.get('gseed', self.seed); main = part.get('main', 'runner')
        g = random.Random(f'{self.prop}/{gseed}'); cases = part['gen'](g)
        if part.get('only'): cases = [c for c in cases if c.name == part['only']]
        seen = set(); cases = [c for c in cases if not (c.name in seen or seen.add(c.name))]
        if not cases: raise Broken('no cases')
        per = part.get('per', 150); n = (1 if len(cases) < 16 else 8 * max(1, -(-len(cases) // (8 * per))))
        shards = [cases[i::n] for i in range(n)]
        tag = f"{part['name']}-{build}"
        defs = list(part.get('defs', ()))
        if main == 'runner' and not ((part['mask'] | int(part.get('args', {}).get('--run', 0))) & plan.ROUTES): defs.append('-DVF_LEAN')
        head = self.path(f'{tag}-head.hpp'); open(head, 'w').write('#pragma once\n#include "case.hpp"\n' + ('#include "%s"\n' % part['incl'] if part.get('incl') else ''))
        gcc = BUILDS[build][0] == 'g++'; pch = head + ('.gch' if gcc else '.pch')
        rc, out = cc(build, head, pch, defs + ['-x', 'c++-header'])       # the headers, once
        use = ['-include', head] if gcc else ['-include-pch', pch] if rc == 0 else ['-include', head]
        def compile_shard(i, cs, name):
            src = self.path(f'{tag}-{name}.cpp')
            with open(src, 'w') as f:
                f.write('using namespace vf;\n' + ''.join(c.emit() for c in cs))
            rc, out = cc(build, src, src + '.o', defs + use)
            return rc, out, src + '.o'
        supf = self.support(build, ['ref', main] + part.get('lib', []), part.get('defs', ()))
        futs = [self.pool.submit(compile_shard, i, cs, str(i)) for i, cs in enumerate(shards)]
        sup = supf()
        good = []
        for i, f in enumerate(futs):
            rc, out, o = f.result()
            if rc == 0: good.append((shards[i], o)); continue
            # which of the programs is it?
            sub = [self.pool.submit(compile_shard, i, [c], f'{i}_{k}') for k, c in enumerate(shards[i])]
            ok = []
            for c, s in zip(shards[i], sub):
                rc1, out1, o1 = s.result()
                if rc1 == 0: ok.append(o1)
                elif rc1 == 1 and 'error:' in out1:
                    err = [l for l in out1.splitlines() if 'error:' in l]
                    self.violation(part, c.name, 'COMPILE', 0, 'a legal program does not compile any more: ' + err[0][-300:], None)
                else: raise Broken(f'compiler failed on {c.name}: {rc1} {out1[-500:]}')
            keep = [c for c, s in zip(shards[i], sub) if s.result()[0] == 0]
            for c, o1 in zip(keep, ok): good.append(([c], o1))
        if not good: raise Broken('nothing compiles: ' + (self.viol[0]['msg'] if self.viol else ''))
        # cases compiled alone are linked together again
        single = [x for x in good if len(x[0]) == 1]
        bundles = [([x[0]], [x[1]]) for x in good if len(x[0]) > 1]
        bundles = [(a[0], b) for a, b in bundles]
        if single: bundles.append(([c for x in single for c in x[0]], [x[1] for x in single]))
        def run_shard(k, cs, objs):
            exe = self.path(f'{tag}-{k}.bin')
            rc, out = sh(BUILDS[build] + objs + list(sup.values()) + ['-o', exe, '-lpthread'], 300)
            if rc != 0: raise Broken('link: ' + out[-1500:])
            start = 0; res = []; restarts = 0; hangs = 0
            while True:
                outp = exe + f'.{start}.json'; prog = exe + '.prog'
                open(prog, 'w').close()
                cmd = part.get('wrap', []) + [exe, '--trials', str(part['trials']), '--steps', str(part.get('steps', 4)), '--seed', str(part.get('rseed', gseed)), '--mask', str(part['mask']),
                       '--start', str(start), '--progress', prog, '--out', outp]
                if part.get('trial') is not None: cmd += ['--trial', str(part['trial']), '--verbose', '1']
                for a, b in part.get('args', {}).items(): cmd += [a, str(b)]
                rc, out = sh(cmd, part.get('timeout', 400))
                res.append((rc, out, outp))
                if rc == 0: break
                if rc == 97: raise Broken('reference: ' + gist(out) + out[-400:])
                p = open(prog).read().split()
                if len(p) < 3: raise Broken(f'{exe} ended with {rc} before its first case: {out[-1500:]}')
                idx, case, trial = int(p[0]), p[1], int(p[2])
                kind = crash_kind(rc)
                res.append(('crash', case, kind, trial, gist(out)))
                restarts += 1
                if rc == 'timeout': hangs += 1
                if restarts >= 12 or hangs >= 1: self.notes.append(f'{tag}-{k}: gave up after {restarts} crashes'); break
                start = idx + 1
            return res
        for res in self.pool.map(lambda a: run_shard(*a), [(k, cs, objs) for k, (cs, objs) in enumerate(bundles)]):
            for r in res:
                if r[0] == 'crash': self.violation(part, r[1], r[2], r[3], r[4], None); continue
                rc, out, outp = r
                if part.get('verbose'): print(out)
                for l in out.splitlines():
                    m = re.match(r'FAIL case=(\S+) monitor=(\S+) trial=(-?\d+) (.*)', l)
                    if m: self.violation(part, m[1], m[2], int(m[3]), m[4], None)
                if os.path.exists(outp): self.merge(json.load(open(outp)))
        for f in os.listdir(self.dir):
            if f.startswith(tag + '-'): os.unlink(self.path(f))

    def merge(self, j):
        self.evals += j.pop('evaluations', 0); self.distinct += j.pop('distinct', 0)
        for k, v in j.pop('comparisons', {}).items(): self.cmpc[k] = self.cmpc.get(k, 0) + v
        for s in j.pop('samples', []):
            if len(self.samples) < 6: self.samples.append(s)
        for k, v in j.items():
            if isinstance(v, int): self.add(k, v)

    # ---- hand-written drivers
    def driver(self, part):
        build = part.get('build', 'asan'); exe = self.path(f"{part['name']}-{build}.bin"); outp = exe + '.json'
        srcs = []
        if 'source' in part:
            g = random.Random(f"{self.prop}/{part.get('gseed', self.seed)}"); texts = part['source'](g)
        else: texts = {}
        objs = []
        def comp(n, src): o = self.path(f"{part['name']}-{n}-{build}.o"); return n, o, cc(build, src, o, part.get('defs', ()))
        jobs = []
        for n, t in texts.items():
            src = self.path(f"{part['name']}-{n}.cpp")
            with open(src, 'w') as f: f.write(t)
            jobs.append(self.pool.submit(comp, n, src))
        for n in part.get('files', []): jobs.append(self.pool.submit(comp, n, os.path.join(HERE, 'drivers', n + '.cpp')))
        for jb in jobs:
            n, o, (rc, out) = jb.result()
            if rc == 0: objs.append(o)
            elif rc == 1 and 'error:' in out:
                # programs of the generator and of the drivers are legal: not compiling is a failure of the library, unless nothing compiles
                rc0, out0 = self.sanity(build)
                if rc0 != 0: raise Broken('even the smallest program does not compile: ' + out0[:1500])
                err = [l for l in out.splitlines() if 'error:' in l]
                self.violation(part, n, 'COMPILE', 0, 'a legal program does not compile any more: ' + err[0][-300:], None)
            else: raise Broken(f'compiler failed on {n}: {rc} {out[-500:]}')
        if any(v['monitor'] == 'COMPILE' and v['part'] is part for v in self.viol): return
        objs += list(self.support(build, part.get('lib', []))().values())
        rc, out = sh(BUILDS[build] + objs + ['-o', exe, '-lpthread'], 300)
        if rc != 0: raise Broken('link: ' + out[-1500:])
        prog = exe + '.prog'; skip = []
        for attempt in range(8):
            open(prog, 'w').close()
            cmd = part.get('wrap', []) + [exe, '--trials', str(part['trials']), '--seed', str(part.get('rseed', part.get('gseed', self.seed))), '--progress', prog, '--out', outp]
            if skip: cmd += ['--skip', ','.join(skip)]
            if part.get('only'): cmd += ['--only', part['only']]
            if part.get('trial') is not None: cmd += ['--trial', str(part['trial'])]
            for a, b in part.get('args', {}).items(): cmd += [a, str(b)]
            rc, out = sh(cmd, part.get('timeout', 400))
            if part.get('verbose'): print(out)
            for l in out.splitlines():
                m = re.match(r'FAIL case=(\S+) monitor=(\S+) trial=(-?\d+) (.*)', l)
                if m and not part.get('quiet') and m[2] in part.get('only_monitors', (m[2],)): self.violation(part, m[1], m[2], int(m[3]), m[4], None)
            if rc == 97: raise Broken('driver: ' + out[-800:])
            if rc == 0: break
            p = open(prog).read().split()
            if len(p) < 2: raise Broken(f'{exe} ended with {rc} before its first case: {out[-1500:]}')
            self.violation(part, p[0], crash_kind(rc), int(p[1]), gist(out), None)
            if rc == 'timeout': break
            skip.append(p[0])
        if os.path.exists(outp): self.merge(json.load(open(outp)))
        for f in os.listdir(self.dir):
            if f.startswith(part['name'] + '-'): os.unlink(self.path(f))

    def sanity(self, build):
        src = self.path('sanity.cpp')
        with open(src, 'w') as f: f.write('#include <fastad>\nint main() { ad::Var<double> x(2.); auto e = ad::bind(ad::sin(x) * x); ad::autodiff(e); return 0; }\n')
        return cc(build, src, self.path('sanity.bin'))

def load_known():
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) case=(\S+) monitor=(\S+) :: (.*)', l)
            if m: out.append(dict(prop=m[1], case=re.compile(m[2] + '$'), monitor=re.compile(m[3] + '$'), text=m[4].strip()))
    return out

def main():
    ap = argparse.ArgumentParser(); ap.add_argument('prop', nargs='?'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay'); ap.add_argument('--keep', action='store_true')
    a = ap.parse_args(); t0 = time.time(); rep = None
    if a.replay:
        rep = json.load(open(a.replay)); a.prop, a.tier, a.seed = rep['property'], rep['tier'], rep['seed']
    os.makedirs(os.path.join(HERE, 'build'), exist_ok=True)
    scratch = tempfile.mkdtemp(prefix=a.prop + '-', dir=os.path.join(HERE, 'build'))
    ck = Check(a.prop, a.tier, a.seed, scratch)
    try:
        parts = plan.parts(a.prop, a.tier, a.seed)
        if rep:
            parts = [p for p in parts if p['name'] == rep['part'] and p.get('build', 'asan') == rep['build'] and p.get('gseed') == rep.get('gseed')]
            for p in parts:
                p['only'] = rep['case']; p['verbose'] = True
                if rep['monitor'] not in ('COMPILE',): p['trial'] = rep['trial']
        for p in parts:
            t1 = time.time()
            (ck.catalogue if p['kind'] == 'cat' else ck.driver)(p)
            ck.notes.append(f"{p['name']} ({p.get('build', 'asan')}): {time.time() - t1:.0f} s")
        if not rep and ck.evals == 0 and not ck.viol: raise Broken('nothing was observed')
    except Broken as e:
        print(f'ERROR property={a.prop} {e}', flush=True)
        return 2
    finally:
        if not a.keep: shutil.rmtree(scratch, ignore_errors=True)
    known = load_known(); shown = set(); groups = {}
    for v in ck.viol:
        k = next((k for k in known if k['prop'] == a.prop and k['case'].match(v['case']) and k['monitor'].match(v['monitor'])), None)
        if k:
            if k['text'] not in shown: print(f"KNOWN-FINDING: property={a.prop} {k['text']}"); shown.add(k['text'])
            continue
        groups.setdefault((v['part']['name'], v['case']), []).append(v)
    if rep:
        for gs in groups.values():
            for v in gs: print(f"reproduced: case={v['case']} monitor={v['monitor']} trial={v['trial']} {v['msg']}")
        print('reproduced' if groups else 'not reproduced'); return 1 if groups else 0
    rd = os.path.join(HERE, 'evidence', 'replay'); os.makedirs(rd, exist_ok=True)
    for f in os.listdir(rd):
        if f.startswith(a.prop + '-'): os.unlink(os.path.join(rd, f))
    n = 0
    for (pn, case), vs in groups.items():
        n += 1; v = vs[0]
        if n > 10: continue
        path = f'evidence/replay/{a.prop}-{n}.json'
        p = v['part']
        json.dump(dict(property=a.prop, tier=a.tier, seed=a.seed, part=pn, build=p.get('build', 'asan'), gseed=p.get('gseed'), case=case, monitor=v['monitor'], trial=v['trial'], message=v['msg'],
                       how=f'python3 run.py --replay {path}'), open(os.path.join(HERE, path), 'w'), indent=1)
        print(f"VIOLATION property={a.prop} replay={path} case={case} monitor={v['monitor']} {v['msg']}")
    if n > 10: print(f'... and {n - 10} more failing cases')
    cov = dict(evaluations=ck.evals, distinct_nontrivial=ck.distinct, rule=plan.RULES.get(a.prop, plan.RULE), samples=ck.samples or ['(none)'], comparisons_per_monitor=ck.cmpc, observed=ck.tot, parts=ck.notes)
    json.dump(dict(property=a.prop, tier=a.tier, seed=a.seed, level='exploration', coverage=cov, assumptions=plan.ASSUME, wall_s=round(time.time() - t0, 1), violations=n), open(os.path.join(HERE, 'evidence', a.prop + '.json'), 'w'), indent=1)
    print(f'{a.prop}: {ck.evals} evaluations, {ck.distinct} distinct, {n} failing cases, {time.time() - t0:.0f} s')
    return 1 if n else 0

if __name__ == '__main__':
    sys.exit(main())
