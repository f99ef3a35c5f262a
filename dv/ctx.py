"""Check driver: runs verification targets in parallel processes, replays failed obligations
against the real code, writes evidence and prints the verdict."""
import os, sys, json, time, traceback, multiprocessing as mp, subprocess
import z3
from .sym import *
from . import build, ir
from .exe import Engine, Theory
from .ir import ParseError

KNOWN = os.path.join(build.VERIF, 'known_findings.json')


class Target:
    """fn(T) verifies something; T.engine(...) creates engines, T.require(...) records obligations"""

    def __init__(self, name, fn, budget=500):
        self.name, self.fn, self.budget = name, fn, budget


class TRun:
    def __init__(self, name, deadline, tier):
        self.name, self.deadline, self.tier = name, deadline, tier
        self.engines = []
        self.extra = []
        self.assumed = set()
        self.inputs = []          # concrete counterexamples worth replaying
        self.notes = []

    def engine(self, mod, theory=None, timeout=30000, name=''):
        e = Engine(mod, theory or Theory(), timeout, name or self.name)
        e.deadline = self.deadline
        if '-v' not in sys.argv: e.maxfail = 2
        self.engines.append(e)
        return e

    def lemma(self, name, goal, assumptions=(), timeout=60000):
        """a closed lemma, proved by z3 on every run"""
        t = time.time()
        s = z3.Solver(); s.set('timeout', timeout)
        s.add(*assumptions); s.add(z3.Not(goal))
        r = str(s.check())
        self.extra.append(Oblig(name, 'lemma', {'unsat': 'proved', 'sat': 'failed'}.get(r, 'unknown'), time.time() - t,
                                '' if r == 'unsat' else str(goal)[:400]))


_STOP = None       # shared: time at which every worker gives up


class Deadline:
    def __init__(self, t): self.t = t

    def __lt__(self, now): return now > min(self.t, _STOP.value if _STOP is not None else 1e18)

    def __bool__(self): return True


def _work(a):
    t, tier, q = a
    t0 = time.time()
    if _STOP is not None and t0 > _STOP.value:
        return dict(target=t.name, err=('engine', 'not attempted: other obligations already failed'), obls=[], time=0, functions=[], assumed=[], loops=[], inputs=[], notes=[], solver=0, queries=0, skipped=True)
    T = TRun(t.name, Deadline(t0 + t.budget), tier)
    err = None
    try:
        t.fn(T)
    except Fail:
        pass
    except build.BuildError as e:
        err = ('engine', 'harness build: ' + str(e))
    except (EngineError, ParseError, NotImplementedError, RecursionError) as e:
        err = ('engine', '%s: %s' % (type(e).__name__, e))
    except Exception as e:
        err = ('engine', traceback.format_exc()[-2500:])
    obls = [(t.name, o.name, o.where, o.status, o.t, o.detail) for e in T.engines for o in e.obls] + \
           [(t.name, o.name, o.where, o.status, o.t, o.detail) for o in T.extra]
    return dict(target=t.name, err=err, obls=obls, time=time.time() - t0,
                functions=sorted(set(e.dem.get(f, f) for e in T.engines for f in e.functions)),
                assumed=sorted(set(T.assumed).union(*[e.assumed for e in T.engines])) if T.engines or T.assumed else [],
                loops=[l for e in T.engines for l in e.loopreport], inputs=T.inputs, notes=T.notes,
                solver=sum(e.pv.time for e in T.engines), queries=sum(e.pv.nq for e in T.engines))


class Check:
    def __init__(self, pid, level_assumptions=()):
        self.pid = pid
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if '--thorough' in sys.argv: self.tier = 'thorough'
        self.verbose = '-v' in sys.argv
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.targets = []
        self.replays = []       # (name, callable(seed, tier, failed)) -> None | dict(input=..., text=...)
        self.bounded = []       # same, but always run: bounded stand-ins
        self.assumptions = list(level_assumptions)
        self.trusted = ['clang 18 front end and optimiser (LLVM IR of the compiled headers stands for the code)',
                        'dv verification-condition generator (/verif/dv)', 'z3 ' + z3.get_version_string()]
        self.knownprobes = []   # (key, what, callable -> bool still fails)
        self.t0 = time.time()
        build.tmpdir()

    def target(self, name, fn, budget=500):
        self.targets.append(Target(name, fn, budget))

    def run(self):
        only = [a[7:] for a in sys.argv if a.startswith('--only=')]
        tg = [t for t in self.targets if not only or any(o in t.name for o in only)]
        res = []
        if len(tg) == 1 and self.verbose:
            res = [_work((tg[0], self.tier, None))]
        elif tg:
            ctxm = mp.get_context('fork')
            _set(tg)
            global _STOP
            _STOP = ctxm.Value('d', self.t0 + (640 if self.tier == 'quick' else 1800))
            with ctxm.Pool(min(7, len(tg)), maxtasksperchild=1) as pool:
                for r in pool.imap_unordered(_wrap, [(i, self.tier) for i in range(len(tg))]):
                    res.append(r)
                    if r['err'] or any(o[3] != 'proved' for o in r['obls']):
                        _STOP.value = min(_STOP.value, time.time() + 45)      # the verdict is settled
                    if self.verbose: print('.. %s %.1fs err=%s obls=%d' % (r['target'], r['time'], (r['err'] or (0, ''))[1][-400:], len(r['obls'])), flush=True)
        return self.finish(res)

    def finish(self, res):
        res.sort(key=lambda r: r['target'])
        obls = [o for r in res for o in r['obls']]
        bad = [o for o in obls if o[3] != 'proved']
        errs = [(r['target'], r['err']) for r in sorted(res, key=lambda r: bool(r.get('skipped'))) if r['err']]
        if self.verbose:
            for r in res:
                print('== %s: %d obligations, %.1fs (solver %.1fs, %d queries) %s' % (r['target'], len(r['obls']), r['time'], r['solver'], r['queries'], (r['err'] or (0, ''))[1][-200:]))
                for o in r['obls']:
                    if o[3] != 'proved': print('   %s %s @%s\n      %s' % (o[3].upper(), o[1], o[2], o[5].replace('\n', '\n      ')[:3000]))
                if '-l' in sys.argv:
                    for l in r['loops']: print('   loop', l)
        berr = [e for e in errs if e[1][0] == 'build']
        # a target that produced no obligation at all proves nothing
        for r in res:
            if not r['err'] and not r['obls']:
                errs.append((r['target'], ('engine', 'no obligation was generated (vacuous)')))
        viol = []
        known = []
        listed = load_known(self.pid)
        bcov = []
        if berr:
            print('ERROR: %s' % berr[0][1][1]); self.evidence(res, obls, 0, bcov, errs); sys.exit(2)
        # bounded stand-ins (always run)
        for name, bound, fn in self.bounded:
            t = time.time()
            try:
                out = fn(self, None)
            except build.BuildError as e:
                print('ERROR: %s' % e); sys.exit(2)
            bcov.append(dict(name=name, bound=bound, wall_s=round(time.time() - t, 2), result='pass' if not out else 'fail',
                             stats=getattr(self, 'last_stats', None)))
            for f in out or []:
                f['obligation'] = 'bounded stand-in: ' + name
                viol.append(f)
        if bad or errs:
            found = None
            failed = [dict(target=o[0], obligation=o[1], where=o[2], status=o[3], detail=o[5]) for o in bad] + \
                     [dict(target=e[0], obligation='verification-condition generation', where='', status='error', detail=e[1][1]) for e in errs]
            inputs = [i for r in res for i in r['inputs']]
            if not viol:
                for name, fn in self.replays:
                    try:
                        found = fn(self, inputs)
                    except build.BuildError as e:
                        print('ERROR: %s' % e); sys.exit(2)
                    if found: break
            if found:
                for f in found: f['obligation'] = failed[0]['obligation']
                viol += found
            failed0 = failed
        else:
            failed0 = []
        unlisted = []
        for v in viol:
            if v.get('key') in listed: known.append((v['key'], listed[v['key']]))
            else: unlisted.append(v)
        code = 0
        nviol = 0
        for key, what, fn in self.knownprobes:
            if key in listed and not any(k == key for k, _ in known):
                try:
                    if fn(self): known.append((key, listed[key]))
                except build.BuildError as e:
                    pass
        for k, what in known:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, what))
        if unlisted or failed0:
            code = 1; nviol = max(1, len(unlisted))
            path = os.path.join(build.VERIF, 'evidence', 'replay-%s.json' % self.pid)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, 'w') as f:
                json.dump(dict(property=self.pid, failing_inputs=unlisted, failed_obligations=failed0[:20],
                               how='failing_inputs[].command re-runs the real code on the input; '
                                   'failed_obligations lists the obligations the verifier did not accept with its output'), f, indent=1)
            print('failed obligations: %d; first: %s' % (len(failed0), (failed0[0]['target'] + ' / ' + failed0[0]['obligation'] + ' @ ' + failed0[0]['where'][:100]) if failed0 else '-'))
            if failed0 and failed0[0]['status'] == 'error': print('   ' + failed0[0]['detail'][:600])
            if unlisted:
                print('failing input: ' + unlisted[0]['text'][:600])
                print('VIOLATION property=%s replay=%s' % (self.pid, path))
            else:
                print('VIOLATION property=%s replay=%s no-failing-input-found' % (self.pid, path))
        self.evidence(res, obls, nviol, bcov, errs)
        nb = sum(1 for o in obls if o[3] == 'proved')
        if code == 0:
            print('OK property=%s obligations=%d discharged=%d wall=%.1fs' % (self.pid, len(obls), nb, time.time() - self.t0))
        sys.stdout.flush()
        sys.exit(code)

    def evidence(self, res, obls, nviol, bcov, errs):
        fns = sorted(set(f for r in res for f in r['functions']))
        by = {}
        for r in res:
            by[r['target']] = dict(obligations=len(r['obls']), discharged=sum(1 for o in r['obls'] if o[3] == 'proved'),
                                   wall_s=round(r['time'], 2), solver_s=round(r['solver'], 2), queries=r['queries'],
                                   loop_invariants=[dict(function=l[0], header=l[1], invariants=l[2], memory=l[3]) for l in r['loops']][:40])
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level='proof',
                  coverage=dict(obligations=len(obls), discharged=sum(1 for o in obls if o[3] == 'proved'),
                                checker_cmd='python3-vt /verif/check.py %s' % self.pid,
                                trusted_base=self.trusted, back_end='z3 (QF_UFBV; IEEE arithmetic for float operations); Lean 4 with Mathlib for the counting and probing lemmas',
                                solver_s=round(sum(r['solver'] for r in res), 2),
                                functions_under_contract=fns, targets=by, bounded_standins=bcov,
                                errors=[list(map(str, e)) for e in errs]),
                  assumptions=sorted(set(self.assumptions) | set(a for r in res for a in r['assumed'])),
                  wall_s=round(time.time() - self.t0, 2), violations=nviol)
        p = os.path.join(build.VERIF, 'evidence', self.pid + '.json')
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as f: json.dump(ev, f, indent=1)


_TG = None


def _set(tg):
    global _TG
    _TG = tg
    return True


def _wrap(a):
    i, tier = a
    return _work((_TG[i], tier, None))


def load_known(pid):
    try:
        d = json.load(open(KNOWN))
    except FileNotFoundError:
        return {}
    return {e['key']: e['what'] for e in d.get('findings', []) if e['property'] == pid}


# ------------------------------------------------------------------ native replay
def native(src, args=(), defs=(), extra=(), timeout=120, std='c++17', cxx='g++'):
    """build and run a replay program; it prints lines 'FAIL key=<key> <text>' and exits 1 on failure.
    -> list of dict(key,text,command)"""
    def fn(chk, inputs):
        import hashlib
        h = hashlib.md5(repr((src, defs, extra)).encode()).hexdigest()[:8]
        exe = build.compile_native(src, os.path.basename(src) + h + '.exe', extra=extra, defs=defs, std=std, cxx=cxx)
        av = [str(a).replace('@SEED', str(chk.seed)).replace('@TIER', '1' if chk.tier == 'thorough' else '0') for a in args]
        cmd = 'g++ -std=%s -O1 -g -march=x86-64-v3 -DNDEBUG -w -I/repo/src -I/verif/replay %s %s /verif/%s -o /tmp/r && /tmp/r %s' % (
            std, ' '.join(extra), ' '.join('-D' + d for d in defs), src, ' '.join(av))
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=1:abort_on_error=0:exitcode=99', UBSAN_OPTIONS='halt_on_error=1:exitcode=98')
        try:
            p = subprocess.run([exe] + av, capture_output=True, text=True, timeout=timeout, env=env, errors='replace')
            out, rc, err = p.stdout, p.returncode, p.stderr
        except subprocess.TimeoutExpired as e:
            out, rc, err = (e.stdout or b'').decode(errors='replace'), 'timeout', ''
        fails = []
        cur = [l for l in out.splitlines() if l.startswith('CASE ')]
        for l in out.splitlines():
            if l.startswith('STATS '): chk.last_stats = l[6:]
            if l.startswith('FAIL '):
                k = l.split('key=', 1)[1].split()[0] if 'key=' in l else ''
                fails.append(dict(key=k, text=l[5:], command=cmd))
        if rc not in (0, 1) and not fails:
            last = cur[-1][5:] if cur else ''
            k = last.split('key=', 1)[1].split()[0] if 'key=' in last else 'crash'
            e = [l for l in err.splitlines() if 'ERROR' in l or 'runtime error' in l or 'terminate' in l][:2]
            fails.append(dict(key=k, text='%s: program ended with %s while running: %s' % (' '.join(e) or 'crash/hang', rc, last), command=cmd))
        return fails or None
    return fn
