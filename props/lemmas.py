"""arithmetic lemmas the map contracts instantiate; each is proved by z3 on every run"""
import z3


def arithmetic(T):
    x, y, h = z3.Ints('x y h')
    lim = 1 << 54
    bad = {}
    for m in range(128, 225):
        p = (x * m) / 256
        d = (256 * x) / m
        pre = [x >= 0, x <= lim]
        fs = dict(bounds=z3.And(x / 2 <= p, p <= x, x * m < 1 << 63), div=z3.And(x + x / 8 <= d, d <= 2 * x),
                  monotone=z3.Implies(z3.And(0 <= y, y <= x), y * m <= x * m))
        for kind, W in ((15, 15 * (2 * h) - 1), (16, 32 * h)):
            fs['reserve%d' % kind] = z3.Implies(z3.And(h >= 2, 16 * h >= d), z3.If(W > 32, (W * m) / 256, W) >= x)
            f = lambda w: z3.If(w > 32, (w * m) / 256, w)
            W0, W1 = (15 * h - 1, 15 * y - 1) if kind == 15 else (16 * h, 16 * y)
            fs['double%d' % kind] = z3.Implies(z3.And(h >= 2, y >= 2 * h, y <= lim, x <= f(W0)), z3.Or(x + 1 <= f(W1), z3.And(h == 2, x + 1 <= f(W1) + 1)))
        for nm, g in fs.items():
            s = z3.Solver(); s.set('timeout', 20000)
            s.add(*pre); s.add(z3.Not(g))
            r = str(s.check())
            if r != 'unsat': bad.setdefault(nm, []).append((m, r))
    txt = dict(bounds='load-bounds: x/2 <= x*mlf/256 <= x', div='load-bounds: x + x/8 <= x*256/mlf <= 2x', monotone='load-monotone',
               reserve15='load-reserve (group15)', reserve16='load-reserve (group16)',
               double15='load-double (group15)', double16='load-double (group16)')
    for nm, t in txt.items():
        T.lemma('%s, for every load factor 128..224 and x <= 2^54' % t, z3.BoolVal(nm not in bad))
        if nm in bad: print('lemma', nm, bad[nm][:3])
    a, s = z3.BitVecs('a s', 64)
    T.lemma('index-range: (hash >> shift) <= (-1 >> shift)', z3.ULE(z3.LShR(a, s), z3.LShR(z3.BitVecVal(-1, 64), s)))
    g, h2, p, q = z3.Ints('g h p q')
    T.lemma('position-unique: 15g+p determines g and p < 15', z3.Implies(z3.And(g >= 0, h2 >= 0, 0 <= p, p < 15, 0 <= q, q < 15, 240 * g + 16 * p == 240 * h2 + 16 * q), z3.And(g == h2, p == q)))


def lean(file, names):
    """closed lemmas proved by Lean (kernel-checked, axioms of the standard library only)"""
    def go(T):
        import os, re, subprocess, tempfile, time
        from dv.build import VERIF
        from dv.exe import Oblig
        t = time.time()
        p = os.path.join(VERIF, 'lemmas', file)
        with tempfile.TemporaryDirectory() as d:
            try:
                r = subprocess.run(['lean', p], capture_output=True, text=True, timeout=400, cwd=d)
                out, rc = r.stdout + r.stderr, r.returncode
            except (OSError, subprocess.TimeoutExpired) as e: out, rc = str(e), -1
        ax = set(re.findall(r'[\w.]+', ' '.join(re.findall(r'depends on axioms: \[([^\]]*)\]', out))))
        ok = rc == 0 and 'sorry' not in out and 'error' not in out and ax <= {'propext', 'Classical.choice', 'Quot.sound'} and ax
        src = open(p).read()
        for n, what in names.items():
            good = ok and re.search(r'theorem %s\b' % n, src) and 'sorry' not in src and 'axiom ' not in src
            T.extra.append(Oblig('%s (%s in lemmas/%s)' % (what, n, file), 'lemma (Lean)', 'proved' if good else 'unknown', (time.time() - t) / len(names), '' if good else out[-600:]))
    return go


COUNTING = lean('Swiss.lean', dict(
    probe_permutation='triangular probing reaches every group within mask steps', probe_injective='different probe numbers are different groups',
    room='fewer used positions than positions leave an unused one', cnt_ne_zero='a used position makes the count non-zero', cnt_lt='an unused position: fewer used positions than positions',
    cnt_le='no more used positions than positions', cnt_insert='occupying or freeing one position changes the count by one',
    sfx_zero='suffix count from 0 is the count', sfx_end='suffix count past the end is 0', sfx_le='suffix counts are at most the count', sfx_step='suffix count, one position', sfx_skip='suffix count over unused positions',
    pre_zero='prefix count at 0', pre_end='prefix count at the end is the count', pre_group='prefix count, one group', pre_le='prefix counts are at most the count'))
