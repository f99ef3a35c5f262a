"""Contracts on functions over machine integers (no memory): precondition, postcondition, and a
generic replay that calls the natively compiled function on the counterexample."""
import subprocess, sys, json, random, os
import z3
from .sym import *
from . import build
from .exe import Theory


class Fn:
    def __init__(self, name, bits, ret, pre, post, signed=()):
        self.name, self.bits, self.ret, self.pre, self.post = name, bits, ret, pre, post


def tobv(v):
    return b2bv(v) if isinstance(v, z3.BoolRef) else v


def verify(T, mod, fn, theory=None):
    eng = T.engine(mod, theory or Theory())
    f = mod.func('@' + fn.name)
    if f is None: raise EngineError('function under contract missing: ' + fn.name)
    st = St()
    args = [fresh('arg%d' % i, b) for i, b in enumerate(fn.bits)]
    pre = fn.pre(*args)
    st.assume(pre)
    if eng.pv.check(st.facts) != 'sat': raise EngineError('precondition of %s is not satisfiable' % fn.name)
    av = [bit(a, 0) if b == 1 else a for a, b in zip(args, fn.bits)]
    nret = 0
    for out in eng.run(f, av, st):
        if out[0] == 'throw':
            eng.oblige(out[1], 'no-exception', FALSE, fn.name); continue
        s, r = out[1], tobv(out[2])
        nret += 1
        goal = fn.post(*args, r)
        before = len(eng.obls)
        # the path must be reachable for the obligation to mean anything
        eng.oblige(s, 'post:' + fn.name, goal, fn.name)
        for o in eng.obls[before:]:
            if o.status != 'proved':
                sv = z3.Solver(); sv.set('timeout', 20000)
                sv.add(s.factlist()[:-1]); sv.add(pre); sv.add(z3.Not(goal))
                if sv.check() == z3.sat:
                    m = sv.model()
                    T.inputs.append((fn.name, [m.eval(a, model_completion=True).as_long() for a in args]))
    if not nret: raise EngineError('no path of %s returns' % fn.name)
    for o in eng.obls:
        if o.status != 'proved':
            # obligations inside the body: find an input violating them is left to sampling
            T.inputs.append((fn.name, None))
    return eng


def replay(src, fns, extra=(), defs=()):
    """-> replay callable: model inputs first, then corner cases and random samples"""
    tab = {f.name: f for f in fns}

    def go(chk, inputs):
        names = []
        for n, a in inputs:
            if n in tab and n not in names: names.append(n)
        for n in tab:
            if n not in names and not inputs: names.append(n)
        so = build.compile_native(os.path.join('harness', src), src + '.so', extra=('-shared', '-fPIC') + tuple(extra), defs=defs)
        rnd = random.Random(chk.seed)
        out = []
        for n in names:
            f = tab[n]
            cases = [a for m, a in inputs if m == n and a is not None]

            def corner(b):
                k = rnd.randrange(8)
                if k == 0: return rnd.randrange(0, 20)
                if k == 1: return (1 << rnd.randrange(b)) & ((1 << b) - 1)
                if k == 2: return ((1 << rnd.randrange(b)) - 1) & ((1 << b) - 1)
                if k == 3: return ((1 << rnd.randrange(b)) + 1) & ((1 << b) - 1)
                if k == 4: return (-rnd.randrange(20)) & ((1 << b) - 1)
                return rnd.getrandbits(b)
            ok = []
            for _ in range(600): cases.append([corner(b) for b in f.bits])
            for c in cases:
                if z3.is_true(z3.simplify(f.pre(*[bv(x, b) for x, b in zip(c, f.bits)]))): ok.append(c)
            code = ('import ctypes,sys,json\nL=ctypes.CDLL(%r)\nf=getattr(L,%r)\n'
                    'T={1:ctypes.c_bool,8:ctypes.c_uint8,16:ctypes.c_uint16,32:ctypes.c_uint32,64:ctypes.c_uint64}\n'
                    'f.argtypes=[T[b] for b in %r]\nf.restype=T[%d]\n'
                    'for c in json.load(sys.stdin):\n print(json.dumps([c,int(f(*c))]),flush=True)\n') % (so, n, list(f.bits), f.ret)
            try:
                p = subprocess.run(['python3', '-c', code], input=json.dumps(ok), capture_output=True, text=True, timeout=60)
                lines, rc = p.stdout.splitlines(), p.returncode
            except subprocess.TimeoutExpired as e:
                lines, rc = (e.stdout or b'').decode().splitlines(), 'timeout'
            for l in lines:
                c, r = json.loads(l)
                g = f.post(*[bv(x, b) for x, b in zip(c, f.bits)], bv(r, f.ret))
                if z3.is_false(z3.simplify(g)):
                    out.append(dict(key='%s%s' % (n, tuple(c)), text='%s(%s) returned %d, which its contract does not allow' % (n, ', '.join(map(str, c)), r),
                                    command='g++ -std=c++17 -O1 -march=x86-64-v3 -shared -fPIC -I/repo/src /verif/harness/%s -o r.so; call %s' % (src, n)))
                    break
            else:
                if rc != 0 and len(lines) < len(ok):
                    out.append(dict(key=n, text='%s(%s) crashed (%s)' % (n, ', '.join(map(str, ok[len(lines)])), rc), command=''))
            if out: return out
        return None
    return go


# ------------------------------------------------------------------ fixed-size buffers
class MFn:
    """args: bit widths or ('buf', nbytes).  pre(args); post(old, new, ret) -> list of (name, goal), where
    buffers appear as lists of 8-bit values"""

    def __init__(self, name, args, ret, pre, post):
        self.name, self.args, self.ret, self.pre, self.post = name, args, ret, pre, post


def verify_m(T, mod, fn, theory=None):
    eng = T.engine(mod, theory or Theory())
    f = mod.func('@' + fn.name)
    if f is None: raise EngineError('function under contract missing: ' + fn.name)
    st = St()
    vals, call = [], []
    for i, a in enumerate(fn.args):
        if isinstance(a, tuple):
            nm = 'buf%d' % i
            r = Region(nm, a[1], 'arr', cell=1)
            st.regs[nm] = r
            st.mem[nm] = ArrMem(Base(r))
            st.assume(r.base & bv(15) == 0, r.base != 0)
            vals.append([eng.mem_read(st, st.mem[nm], [bv(j)]) for j in range(a[1])])
            call.append(Ptr(nm, Aff()))
        else:
            v = fresh('arg%d' % i, a)
            vals.append(v); call.append(bit(v, 0) if a == 1 else v)
    st.assume(fn.pre(*vals))
    if eng.pv.check(st.facts) != 'sat': raise EngineError('precondition of %s is not satisfiable' % fn.name)
    nret = 0
    for out in eng.run(f, call, st):
        s = out[1]
        if out[0] == 'throw':
            eng.oblige(s, 'no-exception', FALSE, fn.name); continue
        nret += 1
        r = tobv(out[2]) if fn.ret else None
        new = []
        for i, a in enumerate(fn.args):
            if isinstance(a, tuple):
                new.append([eng.mem_read(s, s.mem['buf%d' % i], [bv(j)]) for j in range(a[1])])
            else: new.append(vals[i])
        for nm, g in fn.post(vals, new, r):
            k = len(eng.obls)
            f0 = s.facts
            eng.oblige(s, 'post:%s:%s' % (fn.name, nm), g, fn.name)
            if eng.obls[k:] and eng.obls[-1].status != 'proved':
                sv = z3.Solver(); sv.set('timeout', 20000)
                l = []
                x = f0
                while x: l.append(x[1]); x = x[0]
                sv.add(l[::-1]); sv.add(z3.Not(g))
                if sv.check() == z3.sat:
                    m = sv.model()
                    ev = lambda e: m.eval(e, model_completion=True).as_long()
                    T.inputs.append((fn.name, [[ev(b) for b in v] if isinstance(v, list) else ev(v) for v in vals]))
    if not nret: raise EngineError('no path of %s returns' % fn.name)
    if any(o.status != 'proved' for o in eng.obls): T.inputs.append((fn.name, None))
    return eng


def replay_m(src, fns, extra=(), defs=()):
    tab = {f.name: f for f in fns}

    def go(chk, inputs):
        names = []
        for n, a in inputs:
            if n in tab and n not in names: names.append(n)
        if not names: names = list(tab)
        so = build.compile_native(os.path.join('harness', src), src + '.so', extra=('-shared', '-fPIC') + tuple(extra), defs=defs)
        rnd = random.Random(chk.seed)

        def val(b):
            k = rnd.randrange(6)
            if k == 0: return rnd.randrange(0, 20)
            if k == 1: return 1 << rnd.randrange(b)
            if k == 2: return (1 << rnd.randrange(b)) - 1
            return rnd.getrandbits(b)
        for n in names:
            f = tab[n]
            cases = [a for m, a in inputs if m == n and a is not None]
            for _ in range(400):
                pool = [rnd.choice([0, 1, 8, 9, 128, 127, 255, rnd.randrange(256)]) for _ in range(4)]
                cases.append([[rnd.choice(pool) for _ in range(a[1])] if isinstance(a, tuple) else
                              (rnd.choice(pool) if rnd.random() < .5 else val(a)) & ((1 << a) - 1) for a in f.args])

            def sym(c):
                return [[bv(x, 8) for x in v] if isinstance(v, list) else bv(v, a) for v, a in zip(c, f.args)]
            ok = [c for c in cases if z3.is_true(z3.simplify(f.pre(*sym(c))))]
            code = ('import ctypes,sys,json\nL=ctypes.CDLL(%r)\nf=getattr(L,%r)\n'
                    'T={1:ctypes.c_bool,8:ctypes.c_uint8,16:ctypes.c_uint16,32:ctypes.c_uint32,64:ctypes.c_uint64}\n'
                    'f.restype=T.get(%r)\nA=%r\n'
                    'def buf(b):\n raw=(ctypes.c_uint8*(len(b)+64))();o=(-ctypes.addressof(raw))%%32\n'
                    ' v=(ctypes.c_uint8*len(b)).from_buffer(raw,o);v[:]=b;return v\n'
                    'for c in json.load(sys.stdin):\n'
                    ' B=[buf(x) if isinstance(x,list) else T[a](x) for x,a in zip(c,A)]\n'
                    ' r=f(*B)\n'
                    ' print(json.dumps([c,[list(b) if isinstance(x,list) else x for b,x in zip(B,c)],int(r) if r is not None else None]),flush=True)\n'
                    ) % (so, n, f.ret, [list(a) if isinstance(a, tuple) else a for a in f.args])
            try:
                p = subprocess.run(['python3', '-c', code], input=json.dumps(ok), capture_output=True, text=True, timeout=60)
                lines, rc = p.stdout.splitlines(), p.returncode
            except subprocess.TimeoutExpired as e:
                lines, rc = (e.stdout or b'').decode().splitlines(), 'timeout'
            for l in lines:
                c, c2, r = json.loads(l)
                for nm, g in f.post(sym(c), sym(c2), bv(r, f.ret) if f.ret else None):
                    if z3.is_false(z3.simplify(g)):
                        return [dict(key=n + str(c), text='%s(%s) -> %s, memory %s: violates its contract clause %s' % (n, c, r, c2, nm),
                                     command='g++ -std=c++17 -O1 -march=x86-64-v3 -DNDEBUG -shared -fPIC -I/repo/src /verif/harness/%s' % src)]
            if rc != 0 and len(lines) < len(ok):
                return [dict(key=n, text='%s(%s) crashed (%s)' % (n, ok[len(lines)], rc), command='')]
        return None
    return go
