"""Symbolic executor: one function at a time, loops cut by invariants (Houdini-filtered
candidates, each proved inductive), callees by contract (or executed when no contract is
registered)."""
import time, re, subprocess
import z3
from .sym import *
from . import ir


# floating-point values are carried as their IEEE bits
def fpsort(w): return z3.Float32() if w == 32 else z3.Float64()


def tofp(b): return z3.fpBVToFP(b, fpsort(b.size()))


def fpbits(f): return z3.simplify(z3.fpToIEEEBV(f))


def fpconst(t, w):
    import struct
    if t.startswith('0x'): x = struct.unpack('>d', bytes.fromhex(t[2:].rjust(16, '0')))[0]
    else: x = float(t)
    return bv(struct.unpack('>I', struct.pack('>f', x))[0] if w == 32 else struct.unpack('>Q', struct.pack('>d', x))[0], w)


def fpcmp(pred, a, b):
    if pred in ('true', 'false'): return z3.BoolVal(pred == 'true')
    nan = Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
    if pred == 'ord': return Not(nan)
    if pred == 'uno': return nan
    c = {'eq': z3.fpEQ, 'ne': lambda x, y: Not(z3.fpEQ(x, y)), 'lt': z3.fpLT, 'le': z3.fpLEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ}[pred[1:]](a, b)
    return And(Not(nan), c) if pred[0] == 'o' else Or(nan, c)


class Cand:
    """candidate loop invariant: fn(V) -> Bool (or None when it does not apply)"""

    def __init__(self, name, fn, required=False):
        self.name, self.fn, self.required = name, fn, required


class MemSchema:
    """candidate invariant  forall cells d of region: fn(V, d, now, entry); `init`: not reflexive, so
    initiation is checked as well"""

    def __init__(self, name, fn, init=False):
        self.name, self.fn, self.init = name, fn, init


class View:
    """a loop head: values of the phis, iteration number, memory (a snapshot) and the state that reads are charged to"""

    def __init__(self, phi, init, n, st, st0, eng, loop, mem=None):
        self.phi, self.init, self.n, self.st, self.st0, self.eng, self.loop = phi, init, n, st, st0, eng, loop
        self.mem = dict(st.mem) if mem is None else mem

    def at(self, st):
        return View(self.phi, self.init, self.n, st, self.st0, self.eng, self.loop, self.mem)

    def rd(self, reg, d):
        return self.eng.mem_read(self.st, self.mem[reg], d)


class LoopInfo:
    def __init__(self, f, h, body, phis):
        self.f, self.h, self.body, self.phis = f, h, body, phis
        self.key = None
        self.mods = set()


class Theory:
    """default hooks; targets derive from this"""
    unroll = None

    def candidates(self, L, V0, eng): return []
    def mem_schemas(self, L, region, V0, eng): return []
    def havoc_ghost(self, L, V0, st, eng): pass
    def at_cut(self, st, eng): pass
    def pre_loop(self, L, V0, st, eng): pass
    def on_base_read(self, st, base, d, val, eng): pass
    def on_load(self, st, p, ty, val, eng): pass
    def on_store(self, st, p, ty, val, eng): pass
    def alloc(self, st, size, eng, ins): return None
    def inttoptr(self, st, val, eng): return None
    def canon(self, st, r, p, val, eng): return val
    def unroll_limit(self, f, h, eng): return 0
    def call(self, st, name, dem, args, ins, eng): return None
    def region_for_alloca(self, ty, eng): return None


NOOP = ('llvm.prefetch', 'llvm.lifetime', 'llvm.assume', 'llvm.dbg', 'llvm.experimental.noalias', 'llvm.invariant',
        'llvm.donothing', 'llvm.var.annotation', 'llvm.stacksave', 'llvm.stackrestore', 'llvm.sideeffect')


class Engine:
    def __init__(self, mod, theory, timeout=30000, name=''):
        self.mod, self.th = mod, theory
        self.pv = Prover(timeout)
        self.obls = []
        self.mode = 'final'
        self.name = name
        self.cache = {}
        self.strong_inv = {}
        self.globreg = {}
        self.dem = {}
        self._demangle()
        self.maxfail = 6
        self.deadline = None
        self.uf = {}
        self.quiet = 0
        self.assumed = set()
        self.functions = set()
        self.loopreport = []
        self.verbose = False
        self.feas_timeout = 4000
        self.nohook = 0

    def _demangle(self):
        names = [n[1:].strip('"') for n in list(self.mod.functext) + list(self.mod.decls)]
        if not names: return
        p = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
        out = p.stdout.split('\n')
        for n, d in zip(names, out):
            self.dem['@' + n] = d

    # -------------------------------------------------------------- obligations
    def oblige(self, st, name, f, where='', assume=True):
        if self.mode != 'final' or self.quiet:
            if assume: st.assume(f)
            return
        if z3.is_true(f):
            self.obls.append(Oblig(name, where, 'proved', 0.0, 'trivial'))
            return
        t = time.time()
        r = self.prove(st, f)
        dt = time.time() - t
        detail = ''
        status = {'unsat': 'proved', 'sat': 'failed', 'unknown': 'unknown'}[r]
        if status != 'proved':
            detail = self._describe(st, f)
        self.obls.append(Oblig(name, where, status, dt, detail))
        if self.verbose and (status != 'proved' or dt > 2):
            print("   [%s] %s @%s %.2fs" % (status, name, where, dt), flush=True)
        if status != 'proved' and sum(1 for o in self.obls if o.status != 'proved') >= self.maxfail:
            raise Fail(self.obls[-1])
        if assume: st.assume(f)

    def lemma_oblige(self, name, goal, assumptions, where, timeout=100000):
        """an obligation proved by itself, from the given assumptions alone"""
        if self.mode != 'final' or self.quiet: return
        t = time.time()
        s = z3.Solver(); s.set('timeout', timeout)
        s.add(*assumptions); s.add(Not(goal))
        r = str(s.check())
        self.obls.append(Oblig(name, where, {'unsat': 'proved', 'sat': 'failed'}.get(r, 'unknown'), time.time() - t, '' if r == 'unsat' else str(s.model() if r == 'sat' else goal)[:600]))

    @staticmethod
    def factlist(st):
        out, c = [], st.facts
        while c: out.append(c[1]); c = c[0]
        return out

    def prove(self, st, f, timeout=None):
        r = self.pv.check(st.facts, Not(f), timeout=min(timeout or 1e9, 6000))
        if r == 'unknown':
            r = self.pv.check_fresh(st.facts, Not(f), timeout=timeout)
            if r == 'unknown' and timeout is None: r = self.pv.check_fresh(st.facts, Not(f), timeout=60000, logic=None)
        return r

    def _describe(self, st, f):
        s = z3.SolverFor('QF_UFBV'); s.set('timeout', 10000)
        s.add(st.factlist()); s.add(Not(f))
        out = ['trace: ' + ' '.join(map(str, st.trace[-30:])), 'goal: ' + str(f)[:1500]]
        if s.check() == z3.sat:
            m = s.model()
            vs = []
            for d in m.decls():
                if d.arity() == 0 and not d.name().startswith('base.'):
                    vs.append('%s=%s' % (d.name(), m[d]))
            out.append('model: ' + ', '.join(sorted(vs)[:80]))
        return '\n'.join(out)

    def feasible(self, st, c):
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        return self.pv.check(st.facts, c, timeout=self.feas_timeout) != 'unsat'

    def valid(self, st, f, timeout=None):
        if z3.is_true(f): return True
        if z3.is_false(f):
            return self.pv.check(st.facts, timeout=timeout) == 'unsat'
        return self.pv.check(st.facts, Not(f), timeout=timeout) == 'unsat'

    def UF(self, name, *sorts):
        if name not in self.uf:
            self.uf[name] = z3.Function(name, *sorts)
        return self.uf[name]

    # -------------------------------------------------------------- values
    def val(self, st, ty, v):
        k = v[0]
        if k == 'local':
            try:
                return st.env[v[1]]
            except KeyError:
                raise EngineError("undefined " + v[1])
        if k == 'int':
            if ty.n == 1: return z3.BoolVal(bool(v[1] & 1))
            return bv(v[1], ty.n)
        if k == 'null': return NULL
        if k == 'undef': return self.freshval(ty, 'undef')
        if k == 'zero': return self.zero(ty)
        if k == 'global':
            return self.globptr(st, v[1])
        if k == 'float':
            return fpconst(v[1], 32 if ty.k == 'float' else 64)
        if k == 'bytes':
            return [bv(b, 8) for b in v[1]]
        if k == 'agg':
            return [self.val(st, t, x) for t, x in v[1]]
        if k == 'cgep':
            p = self.val(st, ir.PTR, v[2])
            return self.gep(st, v[1], p, [(t, self.val(st, t, x)) for t, x in v[3]])
        if k == 'ccast':
            return self.cast(st, v[1], v[2], self.val(st, v[2], v[3]), v[4])
        if k == 'cbin':
            return self.binop(st, v[1], v[2], self.val(st, v[2], v[3]), self.val(st, v[2], v[4]))
        raise EngineError("value " + repr(v))

    def zero(self, ty):
        if ty.k == 'int': return FALSE if ty.n == 1 else bv(0, ty.n)
        if ty.k == 'ptr': return NULL
        if ty.k in ('vec', 'arr'): return [self.zero(ty.el) for _ in range(ty.n)]
        if ty.k == 'struct': return [self.zero(t) for t in ty.fields]
        if ty.k in ('float', 'double'): return bv(0, 32 if ty.k == 'float' else 64)
        raise EngineError("zero " + repr(ty))

    def freshval(self, ty, nm='v'):
        if ty.k == 'int': return freshb(nm) if ty.n == 1 else fresh(nm, ty.n)
        if ty.k == 'ptr': return Ptr(None, aff_of(fresh(nm + '.p')))
        if ty.k in ('vec', 'arr'): return [self.freshval(ty.el, nm) for _ in range(ty.n)]
        if ty.k == 'struct': return [self.freshval(t, nm) for t in ty.fields]
        if ty.k in ('float', 'double'): return fresh(nm + '.f', 32 if ty.k == 'float' else 64)
        if ty.k == 'void': return None
        raise EngineError("freshval " + repr(ty))

    def globptr(self, st, name):
        if name in self.mod.functext or name in self.mod.decls:
            return Ptr('fn:' + name, Aff())
        nm = 'glob:' + name
        if nm not in st.regs:
            g = self.mod.global_(name)
            if g is None: raise EngineError("global " + name)
            sz = self.mod.size(g['ty'])
            r = self.globreg.get(nm)
            if r is None:
                r = Region(nm, sz, 'glob', const=g['const'], init=g)
                r.table = None
                self.globreg[nm] = r
            st.regs[nm] = r
            if not g['const'] or True:
                d = {}
                if g['init'] is not None:
                    self.flatten(st, g['ty'], g['init'], 0, d)
                st.mem[nm] = ObjMem(d)
        return Ptr(nm, Aff())

    def flatten(self, st, ty, v, off, d):
        if ty.k in ('arr', 'vec') or ty.k == 'struct':
            if v[0] == 'zero':
                if ty.k == 'struct':
                    for t, o in zip(ty.fields, self.mod.field_offsets(ty)[0]): self.flatten(st, t, ('zero',), off + o, d)
                else:
                    s = self.mod.size(ty.el)
                    for i in range(ty.n): self.flatten(st, ty.el, ('zero',), off + i * s, d)
                return
            if v[0] == 'undef': return
            if v[0] == 'bytes':
                for i, b in enumerate(v[1]): d[off + i] = (1, bv(b, 8))
                return
            if v[0] == 'agg':
                if ty.k == 'struct':
                    for (t, x), o in zip(v[1], self.mod.field_offsets(ty)[0]): self.flatten(st, t, x, off + o, d)
                else:
                    s = self.mod.size(ty.el)
                    for i, (t, x) in enumerate(v[1]): self.flatten(st, t, x, off + i * s, d)
                return
            raise EngineError("flatten " + repr(v)[:80])
        if ty.k == 'int' and ty.n == 1:
            d[off] = (1, bv(v[1] if v[0] == 'int' else 0, 8)); return
        d[off] = (self.mod.size(ty), self.val(st, ty, v))

    # -------------------------------------------------------------- pointers
    def gep(self, st, bt, p, idx):
        off = p.off
        t = bt
        for i, (it, v) in enumerate(idx):
            if i == 0:
                off = off.add(self.idx(v), self.mod.size(t))
            elif t.k == 'struct':
                off = off.addc(self.mod.field_offsets(t)[0][num(v)])
                t = t.fields[num(v)]
            elif t.k in ('arr', 'vec'):
                t = t.el
                off = off.add(self.idx(v), self.mod.size(t))
            else:
                raise EngineError("gep into " + repr(t))
        return Ptr(p.reg, off)

    @staticmethod
    def idx(v):
        if isinstance(v, list): raise EngineError("vector gep")
        if v.size() < 64:
            if isnum(v): return Aff(None, snum(v) & M64)
            d = z3.SignExt(64 - v.size(), v)
            return aff_of(d)
        return aff_of(v)

    def region(self, st, p, what=''):
        if p.reg is None:
            return None
        if p.reg.startswith('fn:'): raise EngineError("access to function")
        return st.regs[p.reg]

    def ptrint(self, st, p):
        if p.reg is None: return p.off.bv()
        if p.reg.startswith('fn:'): return z3.BitVec('addr.' + p.reg, 64)
        return Aff({st.regs[p.reg].base.get_id(): (st.regs[p.reg].base, 1)}).add(p.off).bv()

    def inttoptr(self, st, v):
        r = self.th.inttoptr(st, v, self)
        if r is not None: return r
        if z3.is_app_of(v, z3.Z3_OP_BAND) and v.num_args() == 2 and any(isnum(x) for x in v.children()):
            # rounding an address down to a multiple of 2^k inside an aligned region
            x, c = v.children() if isnum(v.arg(1)) else reversed(v.children())
            low = (~num(c)) & M64
            if low and low & (low + 1) == 0:
                p = self.inttoptr(st, x)
                if p.reg is not None and self.valid(st, st.regs[p.reg].base & bv(low) == 0):
                    k = low.bit_length()
                    if p.off.const() is not None: return Ptr(p.reg, Aff(None, p.off.const() >> k << k))
                    return Ptr(p.reg, aff_of(z3.LShR(p.off.bv(), bv(k))).scale(1 << k))
        a = aff_of(v)
        for i, (e, c) in a.t.items():
            if c == 1 and z3.is_const(e) and e.decl().name().startswith('base.'):
                nm = e.decl().name()[5:]
                return Ptr(nm, a.add(Aff({i: (e, 1)}), -1))
        if a.t:
            regs = set()
            self._bases(v, regs, set())
            if len(regs) == 1:
                nm = regs.pop()
                b = st.regs[nm].base
                p = Ptr(nm, a.add(Aff({b.get_id(): (b, 1)}), -1))
                return p
        return Ptr(None, a)

    def _bases(self, e, out, seen):
        if e.get_id() in seen: return
        seen.add(e.get_id())
        if z3.is_const(e):
            n = e.decl().name()
            if n.startswith('base.'): out.add(n[5:])
            return
        for c in e.children(): self._bases(c, out, seen)

    # -------------------------------------------------------------- memory
    def bounds(self, st, p, size, what, write=False):
        r = self.region(st, p)
        if r is None:
            self.oblige(st, 'no-null-deref', FALSE, what)
            raise PathEnd()
        if r.freed or st.g.get(('freed', r.name)):
            self.oblige(st, 'no-use-after-free', FALSE, what)
        if write and r.const:
            self.oblige(st, 'no-write-to-const:' + r.name, FALSE, what)
        if r.inb is not None:
            return r
        c = p.off.const()
        if isinstance(r.size, int) and c is not None:
            if c + size > r.size:
                self.oblige(st, 'in-bounds:' + r.name, FALSE, what)
                raise PathEnd()
            return r
        off = p.off.bv()
        sz = r.size_bv()
        self.oblige(st, 'in-bounds:' + r.name, And(z3.ULE(bv(size), sz), z3.ULE(off, sz - bv(size))), what)
        return r

    def digits(self, st, r, aff, what):
        """aff: byte offset (multiple of cell) -> digit list"""
        cell = r.cell
        mods = [c % cell for _, c in aff.t.values()] + [aff.c % cell]
        if any(mods):
            off = aff.bv()
            lg = cell.bit_length() - 1
            self.oblige(st, 'aligned:' + r.name, z3.Extract(lg - 1, 0, off) == 0, what)
            cellidx = aff_of(z3.LShR(off, bv(lg)))
        else:
            c = aff.c if aff.c < (1 << 63) else aff.c - (1 << 64)
            t = {}
            for i, (e, co) in aff.t.items():
                co = co if co < (1 << 63) else co - (1 << 64)
                t[i] = (e, (co // cell) & M64)
            cellidx = Aff(t, (c // cell) & M64)
        if not r.radix:
            return [cellidx.bv()]
        mult = 1
        ms = []
        for x in reversed(r.radix):
            ms.insert(0, mult); mult *= x
        tot = mult
        c = cellidx.c if cellidx.c < (1 << 63) else cellidx.c - (1 << 64)
        parts = [Aff() for _ in range(len(r.radix) + 1)]
        for i, (e, co) in cellidx.t.items():
            s = co if co < (1 << 63) else co - (1 << 64)
            if s % tot == 0:
                parts[0] = parts[0].add(Aff({i: (e, 1)}).scale(s // tot)); continue
            for j, m in enumerate(ms):
                if s % m == 0:
                    parts[j + 1] = parts[j + 1].add(Aff({i: (e, 1)}).scale(s // m)); break
        carry = c
        for j in range(len(r.radix) - 1, -1, -1):
            # constants: distribute from the least significant digit
            dgt = carry % r.radix[j]
            carry = carry // r.radix[j]
            parts[j + 1] = parts[j + 1].addc(dgt)
        parts[0] = parts[0].addc(carry)
        ok = True
        ds = []
        for j, x in enumerate(r.radix):
            k = parts[j + 1].const()
            if k is not None:
                if k >= x: ok = False; break
                ds.append(bv(k, r.dw[j + 1]))
            else:
                b = parts[j + 1].bv()
                if not self.valid(st, z3.ULT(b, bv(x)), timeout=3000):
                    ok = False; break
                ds.append(extract(r.dw[j + 1] - 1, 0, b))
        if ok:
            return [parts[0].bv()] + [self.named(st, x, 'dg') for x in ds]
        # a term of several digits (e.g. 16*g+i spelled as one linear index): digits by definition
        lin = cellidx.bv()
        key = ('digits', r.name, lin.get_id())
        if key in st.g: return st.g[key][1]
        if len(r.radix) == 1 and parts[1].t:
            b = parts[1].bv()
            for k in (1, -1):
                x = parts[1].addc(-k * tot).bv()
                if self.valid(st, z3.ULT(x, bv(tot)), timeout=3000):
                    dg = extract(r.dw[1] - 1, 0, x)
                    if self.pv.check(st.facts, model=True, timeout=3000) == 'sat' and self.pv.last_model is not None:
                        c = self.pv.last_model.eval(dg, model_completion=True)
                        if self.valid(st, dg == c, timeout=3000): dg = c
                    st.g[key] = (lin, [parts[0].addc(k).bv(), dg if isnum(dg) else self.named(st, dg, 'dg')])
                    return st.g[key][1]
        if tot & (tot - 1) == 0:
            ds, pos = [], 0
            for j in reversed(range(len(r.radix))):
                w = r.dw[j + 1]
                ds.insert(0, z3.Extract(pos + w - 1, pos, lin)); pos += w
            d0 = z3.LShR(lin, bv(pos))
            return [d0] + ds
        D0 = fresh('D0')
        ds = [fresh('D%d' % (j + 1), r.dw[j + 1]) for j in range(len(r.radix))]
        s = D0 * bv(tot)
        for d, m, x in zip(ds, ms, r.radix):
            s = s + zext(d, 64) * bv(m)
            st.assume(z3.ULT(zext(d, 64), bv(x)))
        st.assume(z3.ULE(D0, bv(M64 // tot)), s == lin)
        st.g[key] = (lin, [D0] + ds)
        return [D0] + ds

    def arr_read(self, st, r, d):
        m = st.mem[r.name]
        return self.mem_read(st, m, d)

    def mem_read(self, st, m, d):
        base = m.base.app(d)
        key = ('hook', m.base.uid) + tuple(x.get_id() for x in d)
        if not self.nohook and key not in st.g:
            st.g[key] = d
            for h in m.base.hooks:
                h(st, d, base)
            self.th.on_base_read(st, m.base, d, base, self)
        v = base
        for w in m.writes:
            if w[0] == 'w':
                c = self.cell_eq(w[1], d)
                v = If(c, w[2], v)
            elif w[0] == 'f':
                v = If(w[1](d), w[2], v)
            elif w[0] == 'c':
                c = w[1](d)
                if not z3.is_false(c):
                    v = If(c, self.mem_read(st, w[2], w[3](d)), v)
        return v

    @staticmethod
    def cell_eq(a, b):
        cs = []
        for x, y in zip(a, b):
            if x.eq(y): continue
            if isnum(x) and isnum(y): return FALSE      # different numerals
            if x.size() == 64:
                df = aff_of(x).add(aff_of(y), -1)
                if not df.t:
                    if df.c: return FALSE
                    continue
            cs.append(x == y)
        return And(*cs)

    def load(self, st, p, ty, what=''):
        k = ty.k
        if k == 'struct':
            return [self.load(st, Ptr(p.reg, p.off.addc(o)), t, what) for t, o in zip(ty.fields, self.mod.field_offsets(ty)[0])]
        if k == 'arr':
            s = self.mod.size(ty.el)
            return [self.load(st, Ptr(p.reg, p.off.addc(i * s)), ty.el, what) for i in range(ty.n)]
        size = self.mod.size(ty)
        r = self.bounds(st, p, size, what)
        v = self.load_raw(st, r, p, size, ty, what)
        v = self.to_type(v, ty)
        self.th.on_load(st, p, ty, v, self)
        return v

    def to_type(self, v, ty):
        """v: BV of size bytes*8 or Ptr -> typed value"""
        if ty.k == 'ptr':
            if isinstance(v, Ptr): return v
            if isnum(v) and num(v) == 0: return NULL
            return Ptr(None, aff_of(v))
        if isinstance(v, Ptr): raise EngineError("pointer loaded as " + repr(ty))
        if ty.k == 'int':
            if ty.n == 1: return bit(v, 0)
            return extract(ty.n - 1, 0, v) if v.size() != ty.n else v
        if ty.k == 'vec':
            return self.split_vec(v, ty)
        if ty.k in ('float', 'double'): return v
        raise EngineError("load type " + repr(ty))

    def split_vec(self, v, ty):
        if ty.el.k == 'int' and ty.el.n == 1:
            return [bit(v, i) for i in range(ty.n)]
        w = ty.el.n if ty.el.k == 'int' else self.mod.size(ty.el) * 8
        return [extract((i + 1) * w - 1, i * w, v) for i in range(ty.n)]

    def flat(self, st, v, ty):
        """typed value -> BV"""
        if ty.k == 'int':
            if ty.n == 1: return b2bv(v, 8)
            if ty.n % 8: return zext(v, self.mod.size(ty) * 8)
            return v
        if ty.k == 'vec':
            if ty.el.k == 'int' and ty.el.n == 1: return concat([b2bv(x) for x in reversed(v)])
            if ty.el.k == 'ptr': raise EngineError("vector of pointers")
            return concat(list(reversed(v)))
        if ty.k in ('float', 'double'): return v
        raise EngineError("flat " + repr(ty))

    def load_raw(self, st, r, p, size, ty, what):
        if r.kind == 'arr':
            return self.arr_load(st, r, p, size, what)
        c = p.off.const()
        m = st.mem[r.name]
        if c is None:
            if r.kind == 'glob':
                return self.table_load(st, r, p, size)
            raise EngineError("symbolic offset into object %s at %s" % (r.name, what))
        return self.obj_load(st, r, m, c, size, what)

    def obj_load(self, st, r, m, off, size, what):
        e = m.d.get(off)
        if e is not None and e[0] == size: return e[1]
        # assemble
        parts = []
        o = off
        while o < off + size:
            hit = None
            for co in range(o, max(-1, o - 64), -1):
                if co in m.d and co + m.d[co][0] > o:
                    hit = (co, m.d[co]); break
            if hit is None:
                nxt = min([x for x in m.d if x > o] + [off + size])
                n = min(nxt, off + size) - o
                v = self.uninit(st, r, o, n)
                m = st.mem[r.name]
                parts.append(v); o += n; continue
            co, (cs, cv) = hit
            n = min(co + cs, off + size) - o
            if isinstance(cv, Ptr):
                if cv.reg is None: cv = cv.off.bv()
                else: cv = self.ptrint(st, cv)
            parts.append(extract((o - co + n) * 8 - 1, (o - co) * 8, cv)); o += n
        return concat(reversed(parts)) if len(parts) > 1 else parts[0]

    def uninit(self, st, r, off, size):
        v = fresh('%s+%d' % (r.name, off), size * 8)
        m = st.mem[r.name]
        d = dict(m.d); d[off] = (size, v)
        st.mem[r.name] = ObjMem(d, m.default)
        return v

    def table_load(self, st, r, p, size):
        """symbolic index into a constant table"""
        g = r.init
        m = st.mem[r.name]
        # element stride
        a = p.off
        cos = [c for _, c in a.t.values()]
        stride = 0
        from math import gcd
        for c in cos:
            c = c if c < (1 << 63) else (1 << 64) - c
            stride = gcd(stride, c)
        if stride < size: raise EngineError("table stride")
        base = a.c % stride
        if size > stride: raise EngineError("table stride")
        idxa = Aff({i: (e, ((c if c < (1 << 63) else c - (1 << 64)) // stride) & M64) for i, (e, c) in a.t.items()}, 0)
        k0 = (a.c - base) // stride
        idx = idxa.addc(k0).bv()
        n = (r.size - base) // stride
        vals = [self.obj_load(st, r, st.mem[r.name], base + i * stride, size, 'table') for i in range(n)]
        if not g['const'] and not all(isinstance(v, z3.BitVecRef) and isnum(v) for v in vals):
            raise EngineError("symbolic index into mutable global " + r.name)
        if any(isinstance(v, Ptr) for v in vals): raise EngineError("pointer table")
        return self.table_expr(idx, [num(v) for v in vals], size * 8)

    def table_expr(self, idx, vals, w):
        n = len(vals)
        M = (1 << w) - 1
        best = None
        small = extract(w - 1, 0, idx) if w <= 64 else zext(idx, w)
        for kind in ('mul', 'shl', 'const'):
            if kind == 'mul':
                cs = {vals[i] * pow(i, -1, 1 << w) & M if i & 1 else None for i in (1, 3, 5) if i < n} - {None}
                for c in cs:
                    exc = {i: v for i, v in enumerate(vals) if v != (i * c & M)}
                    if best is None or len(exc) < len(best[1]): best = (small * bv(c, w) if c != 1 else small, exc)
            elif kind == 'shl':
                exc = {i: v for i, v in enumerate(vals) if v != (1 << i & M)}
                if best is None or len(exc) < len(best[1]): best = (bv(1, w) << small, exc)
            else:
                from collections import Counter
                v0 = Counter(vals).most_common(1)[0][0]
                exc = {i: v for i, v in enumerate(vals) if v != v0}
                if best is None or len(exc) < len(best[1]): best = (bv(v0, w), exc)
        if best and len(best[1]) <= max(4, n // 16):
            e = best[0]
            for i, v in best[1].items():
                e = If(idx == bv(i), bv(v, w), e)
            return e
        nb = max(1, (n - 1).bit_length())

        def mux(lo, b):
            if b < 0: return bv(vals[lo], w) if lo < n else bv(0, w)
            return If(bit(idx, b), mux(lo + (1 << b), b - 1), mux(lo, b - 1))
        return mux(0, nb - 1)

    def arr_load(self, st, r, p, size, what):
        c = r.cell
        if size >= c:
            if size % c: raise EngineError("odd access size")
            parts = []
            for i in range(size // c):
                d = self.digits(st, r, p.off.addc(i * c), what)
                self.inb_check(st, r, d, what, i == 0 or True)
                parts.append(self.arr_read(st, r, d))
            return concat(reversed(parts)) if len(parts) > 1 else parts[0]
        # narrower than a cell
        if any(co % c for _, co in p.off.t.values()): raise EngineError("misaligned narrow access")
        sub = p.off.c % c
        if sub + size > c: raise EngineError("straddling access")
        d = self.digits(st, r, p.off.addc(-sub), what)
        self.inb_check(st, r, d, what)
        v = self.arr_read(st, r, d)
        return extract((sub + size) * 8 - 1, sub * 8, v)

    def inb_check(self, st, r, d, what, do=True):
        if r.inb is not None:
            key = ('inb', r.name) + tuple(x.get_id() for x in (d if getattr(r, 'inb_all', False) else d[:max(1, len(d) - 1)]))
            if key in st.g: return
            self.oblige(st, 'in-bounds:' + r.name.split('!')[0], r.inb(d), what)
            st.g[key] = d

    def store(self, st, p, ty, v, what=''):
        k = ty.k
        if k == 'struct':
            for t, o, x in zip(ty.fields, self.mod.field_offsets(ty)[0], v):
                self.store(st, Ptr(p.reg, p.off.addc(o)), t, x, what)
            return
        if k == 'arr':
            s = self.mod.size(ty.el)
            for i, x in enumerate(v): self.store(st, Ptr(p.reg, p.off.addc(i * s)), ty.el, x, what)
            return
        size = self.mod.size(ty)
        r = self.bounds(st, p, size, what, write=True)
        self.th.on_store(st, p, ty, v, self)
        raw = v if k == 'ptr' else self.flat(st, v, ty)
        if r.kind == 'obj' and isinstance(raw, z3.BitVecRef): raw = self.th.canon(st, r, p, raw, self)
        self.store_raw(st, r, p, size, raw, what)

    def store_raw(self, st, r, p, size, raw, what):
        if r.kind == 'arr':
            if isinstance(raw, Ptr): raw = self.ptrint(st, raw)
            self.arr_store(st, r, p, size, raw, what)
            return
        c = p.off.const()
        if c is None: raise EngineError("symbolic store offset into %s at %s" % (r.name, what))
        m = st.mem[r.name]
        d = dict(m.d)
        # split overlapped cells
        for co in [x for x in d if x < c + size and x + d[x][0] > c]:
            cs, cv = d[co]
            if co == c and cs == size: continue
            del d[co]
            if isinstance(cv, Ptr):
                if cv.reg is None and not cv.off.t: cv = cv.off.bv()
                elif co >= c and co + cs <= c + size: continue
                else: raise EngineError("partial overwrite of pointer")
            if co < c: d[co] = (c - co, extract((c - co) * 8 - 1, 0, cv))
            e = c + size
            if co + cs > e: d[e] = (co + cs - e, extract(cs * 8 - 1, (e - co) * 8, cv))
        d[c] = (size, raw)
        st.mem[r.name] = ObjMem(d, m.default)

    def arr_store(self, st, r, p, size, raw, what):
        c = r.cell
        if size >= c:
            for i in range(size // c):
                d = self.digits(st, r, p.off.addc(i * c), what)
                self.inb_check(st, r, d, what)
                self.cell_write(st, r, d, extract((i + 1) * c * 8 - 1, i * c * 8, raw))
            return
        if any(co % c for _, co in p.off.t.values()): raise EngineError("misaligned narrow store")
        sub = p.off.c % c
        d = self.digits(st, r, p.off.addc(-sub), what)
        self.inb_check(st, r, d, what)
        old = self.arr_read(st, r, d)
        parts = []
        if sub + size < c: parts.append(extract(c * 8 - 1, (sub + size) * 8, old))
        parts.append(raw)
        if sub: parts.append(extract(sub * 8 - 1, 0, old))
        self.cell_write(st, r, d, concat(parts))

    def cell_write(self, st, r, d, v):
        m = st.mem[r.name]
        st.wlog = (st.wlog, (r.name, d, v, m))
        st.mem[r.name] = m.write(d, v)

    # -------------------------------------------------------------- instructions
    def binop(self, st, op, ty, a, b):
        if ty.k == 'vec':
            return [self.binop(st, op, ty.el, x, y) for x, y in zip(a, b)]
        if ty.k in ('float', 'double'):
            fs = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}
            if op in fs: return fpbits(fs[op](z3.RNE(), tofp(a), tofp(b)))
            f = self.UF('fp.' + op + str(a.size()), a.sort(), a.sort(), a.sort())
            return f(a, b)
        if ty.n == 1:
            if op == 'and' or op == 'mul': return And(a, b)
            if op == 'or': return Or(a, b)
            if op in ('xor', 'add', 'sub'):
                if z3.is_true(b): return Not(a)
                if z3.is_true(a): return Not(b)
                return z3.Xor(a, b)
            raise EngineError("i1 " + op)
        n = ty.n
        na, nb = isnum(a), isnum(b)
        if op == 'add': return bvadd(a, b)
        if op == 'sub':
            if nb and num(b) == 0: return a
            if na and nb: return bv(num(a) - num(b), n)
            return a - b
        if op == 'mul':
            if na and nb: return bv(num(a) * num(b), n)
            if nb and num(b) == 1: return a
            if na and num(a) == 1: return b
            if (na and num(a) == 0) or (nb and num(b) == 0): return bv(0, n)
            if n > 64:
                # wide products are kept uninterpreted (only their functional dependence matters)
                key = sorted([a, b], key=lambda x: (isnum(x), str(x.hash())))
                f = self.UF('mul%d' % n, a.sort(), a.sort(), a.sort())
                if na: a, b = b, a
                return f(a, b)
            hook = getattr(self.th, 'mul', None)
            if hook:
                r = hook(st, a, b, self)
                if r is not None: return r
            return a * b
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            self.oblige(st, 'no-div-by-zero', b != 0, op)
            if na and nb and num(b):
                if op == 'udiv': return bv(num(a) // num(b), n)
                if op == 'urem': return bv(num(a) % num(b), n)
            if nb and num(b) & (num(b) - 1) == 0 and num(b):
                k = num(b).bit_length() - 1
                if op == 'udiv': return z3.LShR(a, bv(k, n)) if k else a
                if op == 'urem': return a & bv(num(b) - 1, n)
            hook = getattr(self.th, 'udiv', None)
            if hook and op == 'udiv':
                r = hook(st, a, b, self)
                if r is not None: return r
            return {'udiv': z3.UDiv, 'sdiv': lambda x, y: x / y, 'urem': z3.URem, 'srem': z3.SRem}[op](a, b)
        if op == 'and':
            if na and nb: return bv(num(a) & num(b), n)
            if nb and num(b) == (1 << n) - 1: return a
            if na and num(a) == (1 << n) - 1: return b
            if (nb and num(b) == 0) or (na and num(a) == 0): return bv(0, n)
            return a & b
        if op == 'or':
            if na and nb: return bv(num(a) | num(b), n)
            if nb and num(b) == 0: return a
            if na and num(a) == 0: return b
            return a | b
        if op == 'xor':
            if na and nb: return bv(num(a) ^ num(b), n)
            if nb and num(b) == 0: return a
            return a ^ b
        if op == 'shl':
            if nb and num(b) == 0: return a
            if na and nb: return bv(num(a) << num(b), n) if num(b) < n else bv(0, n)
            return a << b
        if op == 'lshr':
            if nb and num(b) == 0: return a
            if na and nb: return bv(num(a) >> num(b), n) if num(b) < n else bv(0, n)
            return z3.LShR(a, b)
        if op == 'ashr':
            if nb and num(b) == 0: return a
            return a >> b
        raise EngineError("binop " + op)

    def icmp(self, st, pred, ty, a, b):
        if ty.k == 'vec':
            return [self.icmp(st, pred, ty.el, x, y) for x, y in zip(a, b)]
        if ty.k == 'ptr':
            return self.pcmp(st, pred, a, b)
        if ty.n == 1:
            if pred == 'eq': return Not(z3.Xor(a, b)) if not (z3.is_true(b) or z3.is_false(b)) else (a if z3.is_true(b) else Not(a))
            if pred == 'ne': return z3.Xor(a, b) if not (z3.is_true(b) or z3.is_false(b)) else (Not(a) if z3.is_true(b) else a)
            a, b = b2bv(a), b2bv(b)
        if pred == 'eq': return Eq(a, b)
        if pred == 'ne': return Not(Eq(a, b))
        if pred == 'ult': return Ult(a, b)
        if pred == 'ule': return Ule(a, b)
        if pred == 'ugt': return Ult(b, a)
        if pred == 'uge': return Ule(b, a)
        if isnum(a) and isnum(b):
            x, y = snum(a), snum(b)
            return z3.BoolVal({'slt': x < y, 'sle': x <= y, 'sgt': x > y, 'sge': x >= y}[pred])
        return {'slt': lambda: a < b, 'sle': lambda: a <= b, 'sgt': lambda: a > b, 'sge': lambda: a >= b}[pred]()

    def pcmp(self, st, pred, a, b):
        if a.reg == b.reg:
            d = a.off.add(b.off, -1)
            if not d.t:
                if pred == 'eq': return z3.BoolVal(d.c == 0)
                if pred == 'ne': return z3.BoolVal(d.c != 0)
                if d.c == 0:
                    return z3.BoolVal(pred in ('ule', 'uge', 'sle', 'sge'))
            x, y = a.off.bv(), b.off.bv()
            return self.icmp(st, pred, ir.I64, x, y)
        if pred in ('eq', 'ne'):
            # distinct allocations: pointers into (or one past) different regions are taken to differ
            if a.reg is None and a.off.t or b.reg is None and b.off.t:
                e = Eq(self.ptrint(st, a), self.ptrint(st, b))
                return e if pred == 'eq' else Not(e)
            return z3.BoolVal(pred == 'ne')
        self.assumed.add('relational comparison of pointers into different regions is taken over symbolic base addresses')
        return self.icmp(st, pred, ir.I64, self.ptrint(st, a), self.ptrint(st, b))

    def cast(self, st, op, ft, v, tt):
        if op == 'bitcast':
            if ft.k == 'ptr' and tt.k == 'ptr': return v
            f = self.flat1(st, v, ft)
            if tt.k == 'vec': return self.split_vec(f, tt)
            if tt.k == 'int': return f if tt.n > 1 else bit(f, 0)
            if tt.k in ('float', 'double'): return f
            raise EngineError("bitcast to " + repr(tt))
        if ft.k == 'vec' and tt.k == 'vec':
            return [self.cast(st, op, ft.el, x, tt.el) for x in v]
        if op == 'trunc':
            if tt.n == 1: return bit(v, 0)
            return extract(tt.n - 1, 0, v)
        if op == 'zext':
            if ft.n == 1: return b2bv(v, tt.n)
            return zext(v, tt.n)
        if op == 'sext':
            if ft.n == 1: return If(v, bv(-1, tt.n), bv(0, tt.n))
            if isnum(v): return bv(snum(v), tt.n)
            return z3.SignExt(tt.n - ft.n, v)
        if op == 'ptrtoint':
            x = self.ptrint(st, v)
            return x if tt.n == 64 else extract(tt.n - 1, 0, x)
        if op == 'inttoptr': return self.inttoptr(st, v)
        if op in ('uitofp', 'sitofp', 'fptoui', 'fptosi', 'fpext', 'fptrunc'):
            w = tt.n if tt.k == 'int' else (32 if tt.k == 'float' else 64)
            if ft.k == 'int' and ft.n == 1: v = b2bv(v, 8)
            if op == 'uitofp': return fpbits(z3.fpUnsignedToFP(z3.RNE(), v, fpsort(w)))
            if op == 'sitofp': return fpbits(z3.fpSignedToFP(z3.RNE(), v, fpsort(w)))
            if op in ('fpext', 'fptrunc'): return fpbits(z3.fpFPToFP(z3.RNE(), tofp(v), fpsort(w)))
            r = (z3.fpToUBV if op == 'fptoui' else z3.fpToSBV)(z3.RTZ(), tofp(v), z3.BitVecSort(w))
            h = self.th.float_to_int(st, v, r, op) if self.th is not None and hasattr(self.th, 'float_to_int') else None
            return r if h is None else h
        raise EngineError("cast " + op)

    def flat1(self, st, v, ty):
        if ty.k == 'int': return b2bv(v) if ty.n == 1 else v
        if ty.k == 'vec':
            if ty.el.k == 'int' and ty.el.n == 1: return concat([b2bv(x) for x in reversed(v)])
            return concat(list(reversed(v)))
        if ty.k in ('float', 'double'): return v
        raise EngineError("flat1 " + repr(ty))

    def step(self, st, ins, f):
        """single-successor instruction"""
        op = ins.op
        what = ins.line[:110]
        if op == 'load':
            st.env[ins.res] = self.load(st, self.val(st, ir.PTR, ins.a), ins.ty, what)
        elif op == 'store':
            self.store(st, self.val(st, ir.PTR, ins.a[1]), ins.ty, self.val(st, ins.ty, ins.a[0]), what)
        elif op == 'getelementptr':
            p, idx, _ = ins.a
            st.env[ins.res] = self.gep(st, ins.ty, self.val(st, ir.PTR, p), [(t, self.val(st, t, x)) for t, x in idx])
        elif op in ir.Module.BIN:
            if op == 'or' and ' disjoint ' in ins.line: op = 'add'
            a, b = self.val(st, ins.ty, ins.a[0]), self.val(st, ins.ty, ins.a[1])
            v = None
            if op in ('ashr', 'lshr') and ins.ty.k == 'int' and ins.ty.n == 64 and isnum(b) and not isnum(a):
                v = self.shr_exact(st, op, a, num(b))
            st.env[ins.res] = v if v is not None else self.binop(st, op, ins.ty, a, b)
        elif op in ir.Module.CAST:
            ft, v = ins.a
            st.env[ins.res] = self.cast(st, op, ft, self.val(st, ft, v), ins.ty)
        elif op == 'icmp':
            pred, a, b = ins.a
            st.env[ins.res] = self.icmp(st, pred, ins.ty, self.val(st, ins.ty, a), self.val(st, ins.ty, b))
        elif op == 'fcmp':
            pred, a, b = ins.a
            a, b = self.val(st, ins.ty, a), self.val(st, ins.ty, b)
            st.env[ins.res] = fpcmp(pred, tofp(a), tofp(b))
        elif op == 'fneg':
            a = self.val(st, ins.ty, ins.a[0])
            st.env[ins.res] = fpbits(z3.fpNeg(tofp(a)))
        elif op == 'alloca':
            nm = 'alloca.%s!%d' % (ins.res, next(_cnt))
            sz = self.mod.size(ins.ty)
            if ins.a is not None and not (ins.a[0] == 'int' and ins.a[1] == 1):
                raise EngineError("array alloca")
            r = self.th.region_for_alloca(ins.ty, self)
            if r is None:
                r = Region(nm, sz, 'obj')
                st.mem[nm] = ObjMem()
            else:
                r.name = nm
                r = Region(nm, sz, 'arr', cell=r.cell, radix=r.radix)
                st.mem[nm] = ArrMem(Base(r))
            st.regs[nm] = r
            st.env[ins.res] = Ptr(nm, Aff())
        elif op == 'extractvalue':
            v = self.val(st, ins.ty, ins.a[0])
            for i in ins.a[1]: v = v[i]
            st.env[ins.res] = v
        elif op == 'insertvalue':
            v0, et, e, idx = ins.a
            v = self.val(st, ins.ty, v0)
            st.env[ins.res] = self._ins(v, idx, self.val(st, et, e))
        elif op == 'extractelement':
            v = self.val(st, ins.ty, ins.a[0]); i = self.val(st, ir.I64, ins.a[1])
            if isnum(i): st.env[ins.res] = v[num(i)]
            else:
                r = v[0]
                for j in range(1, len(v)): r = If(i == j, v[j], r)
                st.env[ins.res] = r
        elif op == 'insertelement':
            v0, et, e, ix = ins.a
            v = list(self.val(st, ins.ty, v0)); i = self.val(st, ir.I64, ix)
            if not isnum(i): raise EngineError("insertelement var")
            v[num(i)] = self.val(st, et, e)
            st.env[ins.res] = v
        elif op == 'shufflevector':
            a, b, mt, m = ins.a
            x, y = self.val(st, ins.ty, a), self.val(st, ins.ty, b)
            xs = list(x) + list(y)
            if m[0] == 'zero': mi = [0] * mt.n
            elif m[0] == 'undef': mi = [None] * mt.n
            else: mi = [None if e[0] == 'undef' else e[1] for _, e in m[1]]
            st.env[ins.res] = [self.freshval(ins.ty.el) if i is None else xs[i] for i in mi]
        elif op == 'freeze':
            st.env[ins.res] = self.val(st, ins.ty, ins.a[0])
        elif op == 'fence' or op == 'landingpad':
            if ins.res: st.env[ins.res] = [Ptr(None, aff_of(fresh('exc'))), fresh('sel', 32)] if op == 'landingpad' else None
        else:
            raise EngineError("instr " + op + ": " + ins.line)

    def named(self, st, e, label):
        """a constant standing for a large term (defined by an equation), so that later terms stay small"""
        if isnum(e) or z3.is_const(e): return e
        key = ('name', e.get_id())
        r = st.g.get(key)
        if r is None:
            c = fresh(label, e.size())
            st.assume(c == e)
            r = st.g[key] = (e, c)
        return r[1]

    def shr_exact(self, st, op, a, k):
        """(x * 2^k) >> k as x when x provably has no overflowing bits"""
        af = aff_of(a)
        if not af.t or k == 0 or any(c % (1 << k) for _, c in af.t.values()) or af.c % (1 << k): return None
        sg = lambda c: c - (1 << 64) if c >> 63 else c
        q = Aff({i: (e, (sg(c) >> k) & M64) for i, (e, c) in af.t.items()}, (sg(af.c) >> k) & M64)
        x = q.bv()
        y = z3.LShR(x << k, bv(k)) if op == 'lshr' else (x << k) >> k
        return x if self.valid(st, y == x, timeout=3000) else None

    def _ins(self, v, idx, e):
        v = list(v)
        if len(idx) == 1: v[idx[0]] = e
        else: v[idx[0]] = self._ins(v[idx[0]], idx[1:], e)
        return v

    # -------------------------------------------------------------- intrinsics (single result)
    def intrinsic(self, st, nm, args, ins):
        """nm without '@'; returns (True, value) if handled"""
        A = [v for _, v in args]
        if nm.startswith(NOOP): return True, (NULL if ins.ty.k == 'ptr' else None)
        def vecmap(fn, *xs):
            if isinstance(xs[0], list): return [fn(*t) for t in zip(*xs)]
            return fn(*xs)
        if nm.startswith('llvm.cttz'):
            def ctz(a):
                c = self.named(st, cttz(a), 'ctz')
                if not isnum(c) and a.size() <= 64: st.assume(Implies(a != 0, z3.ULT(c, bv(a.size(), c.size()))))
                return c
            return True, vecmap(ctz, A[0])
        if nm.startswith('llvm.ctlz'): return True, vecmap(ctlz, A[0])
        if nm.startswith('llvm.ctpop'): return True, vecmap(ctpop, A[0])
        if nm.startswith('llvm.umax'): return True, vecmap(lambda a, b: If(Ule(b, a), a, b), A[0], A[1])
        if nm.startswith('llvm.umin'): return True, vecmap(lambda a, b: If(Ule(a, b), a, b), A[0], A[1])
        if nm.startswith('llvm.smax'): return True, vecmap(lambda a, b: If(b <= a, a, b), A[0], A[1])
        if nm.startswith('llvm.smin'): return True, vecmap(lambda a, b: If(a <= b, a, b), A[0], A[1])
        if nm.startswith('llvm.abs'): return True, vecmap(lambda a: If(a < 0, -a, a), A[0])
        if nm.startswith('llvm.bswap'):
            n = A[0].size() // 8
            return True, concat([extract(i * 8 + 7, i * 8, A[0]) for i in range(n)])
        if nm.startswith(('llvm.fshl', 'llvm.fshr')):
            a, b, c = A[:3]
            n = a.size()
            s = z3.URem(c, bv(n, n)) if n & (n - 1) else c & bv(n - 1, n)
            if isnum(c):
                k = num(c) % n
                if nm.startswith('llvm.fshl'):
                    return True, (a if k == 0 else concat([extract(n - k - 1, 0, a), extract(n - 1, n - k, b)]))
                return True, (b if k == 0 else concat([extract(k - 1, 0, a), extract(n - 1, k, b)]))
            ab = z3.Concat(a, b)
            s2 = zext(s, 2 * n)
            if nm.startswith('llvm.fshl'): return True, extract(2 * n - 1, n, ab << s2)
            return True, extract(n - 1, 0, z3.LShR(ab, s2))
        if nm.startswith(('llvm.uadd.sat',)):
            a, b = A[:2]; return True, If(z3.ULT(a + b, a), bv(-1, a.size()), a + b)
        if nm.startswith(('llvm.usub.sat',)):
            return True, vecmap(lambda a, b: If(z3.ULT(a, b), bv(0, a.size()), a - b), A[0], A[1])
        if '.with.overflow' in nm:
            a, b = A[:2]; n = a.size()
            if nm.startswith('llvm.umul'):
                o = Not(z3.BVMulNoOverflow(a, b, False)); return True, [a * b, o]
            if nm.startswith('llvm.uadd'): return True, [a + b, z3.ULT(a + b, a)]
            if nm.startswith('llvm.usub'): return True, [a - b, z3.ULT(a, b)]
            raise EngineError(nm)
        if nm.startswith('llvm.expect'): return True, A[0]
        if nm.startswith('llvm.is.constant'): return True, FALSE
        if nm.startswith('llvm.objectsize'): return True, bv(-1, ins.ty.n)
        if nm.startswith('llvm.vector.reduce.'):
            op = nm.split('.')[3]
            v = A[0]; r = v[0]
            for x in v[1:]:
                if isinstance(r, z3.BoolRef): r = {'or': Or, 'and': And, 'xor': z3.Xor}[op](r, x)
                else: r = {'or': lambda: r | x, 'and': lambda: r & x, 'add': lambda: r + x, 'xor': lambda: r ^ x}[op]()
            return True, r
        if nm.startswith('llvm.x86.sse42.crc32'):
            return True, self.crc32(A[0], A[1])
        if nm.startswith('llvm.x86.ssse3.pshuf.b.128') or nm.startswith('llvm.x86.avx2.pshuf.b'):
            a, m = A[:2]; out = []
            for i, x in enumerate(m):
                lane = (i // 16) * 16
                if isnum(x):
                    out.append(bv(0, 8) if num(x) & 128 else a[lane + (num(x) & 15)])
                else:
                    r = a[lane]
                    for j in range(1, 16): r = If(extract(3, 0, x) == j, a[lane + j], r)
                    out.append(If(bit(x, 7), bv(0, 8), r))
            return True, out
        if nm.startswith('llvm.x86.sse42.pcmp'):
            return True, self.pcmpstr(nm, A)
        if nm.startswith(('llvm.x86.sse2.pmovmskb.128', 'llvm.x86.avx2.pmovmskb')):
            return True, zext(concat([extract(7, 7, x) for x in reversed(A[0])]), 32)
        if nm.startswith(('llvm.x86.sse41.ptest', 'llvm.x86.avx.ptest')):
            a, b = concat(list(reversed(A[0]))), concat(list(reversed(A[1])))
            if 'ptestz' in nm: return True, b2bv((a & b) == 0, 32)
            if 'ptestc' in nm: return True, b2bv((~a & b) == 0, 32)
            return True, b2bv(And((a & b) != 0, (~a & b) != 0), 32)
        if nm.startswith('llvm.ceil') or nm.startswith('llvm.fmuladd') or nm.startswith('llvm.maxnum') or nm.startswith('llvm.f'):
            f = self.UF('fp.' + nm, *([a.sort() for a in A] + [A[0].sort()])); return True, f(*A)
        if nm.startswith('llvm.load.relative') or nm.startswith('llvm.eh'): raise EngineError(nm)
        return False, None

    def crc32(self, crc, data):
        """SSE4.2 CRC32 (Castagnoli, reflected): bit-exact semantics as an uninterpreted function of
        (crc, data) unless the theory asks for the exact circuit"""
        if getattr(self.th, 'crc_exact', False):
            c = extract(31, 0, crc)
            for i in range(data.size()):
                b = extract(0, 0, c) ^ extract(i, i, data)
                c = z3.LShR(c, bv(1, 32)) ^ If(b == 1, bv(0x82F63B78, 32), bv(0, 32))
            return zext(c, crc.size())
        f = self.UF('crc32_%d' % data.size(), z3.BitVecSort(32), data.sort(), z3.BitVecSort(32))
        return zext(f(extract(31, 0, crc), data), crc.size())

    def pcmpstr(self, nm, A):
        """pcmpestri/pcmpistri family for the 'equal each' aggregation on unsigned bytes/words"""
        imm = num(A[-1])
        explicit = 'pcmpe' in nm
        if explicit: a, la, b, lb = A[0], A[1], A[2], A[3]
        else: a, b = A[0], A[1]
        words = imm & 1
        agg = (imm >> 2) & 3
        pol = (imm >> 4) & 3
        if agg != 2: raise EngineError("pcmpstr aggregation %d" % agg)
        if words:
            a = [concat([a[2 * i + 1], a[2 * i]]) for i in range(8)]; b = [concat([b[2 * i + 1], b[2 * i]]) for i in range(8)]
        n = len(a)
        va, vb = [], []
        if explicit:
            def lens(l):
                absl = If(l < 0, -l, l)
                return [z3.UGT(absl, bv(i, 32)) for i in range(n)]
            va, vb = lens(la), lens(lb)
        else:
            def zs(x):
                out, ok = [], TRUE
                for e in x:
                    ok = And(ok, e != 0); out.append(ok)
                return out
            va, vb = zs(a), zs(b)
        res = []
        for i in range(n):
            r = If(And(va[i], vb[i]), Eq(a[i], b[i]), Not(Or(va[i], vb[i])))
            if pol == 1: r = Not(r)
            elif pol == 3: r = If(vb[i], Not(r), r)
            res.append(r)
        if 'stri' in nm and 'stria' not in nm and nm.split('.')[3].rstrip('128') in ('pcmpestri', 'pcmpistri'):
            idx = bv(n, 32)
            order = range(n) if imm & 0x40 else range(n - 1, -1, -1)
            for i in order: idx = If(res[i], bv(i, 32), idx)
            return idx
        op = nm.split('.')[3]
        if op.startswith(('pcmpestric', 'pcmpistric')): return b2bv(Or(*res), 32)
        if op.startswith(('pcmpestriz', 'pcmpistriz')): return b2bv(Not(vb[n - 1]), 32)
        if op.startswith(('pcmpestris', 'pcmpistris')): return b2bv(Not(va[n - 1]), 32)
        if op.startswith(('pcmpestrio', 'pcmpistrio')): return b2bv(res[0], 32)
        if op.startswith(('pcmpestria', 'pcmpistria')): return b2bv(And(Not(Or(*res)), vb[n - 1]), 32)
        if op.startswith(('pcmpestrm', 'pcmpistrm')):
            if imm & 0x40:
                return [If(x, bv(255, 8), bv(0, 8)) for x in res]
            m = concat([b2bv(x) for x in reversed(res)])
            m = zext(m, 128)
            return [extract(i * 8 + 7, i * 8, m) for i in range(16)]
        raise EngineError(nm)

    # -------------------------------------------------------------- memcpy / memset
    def memset(self, st, p, val, n, what):
        if isnum(n):
            k = num(n)
            if k == 0: return
            r = self.bounds(st, p, k, what, write=True)
            if r.kind != 'arr' or k <= 64:
                if r.kind == 'arr':
                    pos = 0
                    while pos < k:
                        c = min(r.cell, k - pos)
                        self.arr_store(st, r, Ptr(p.reg, p.off.addc(pos)), c, concat([val] * c), what); pos += c
                else:
                    pos = 0
                    while pos < k:
                        c = min(8, k - pos)
                        self.store_raw(st, r, Ptr(p.reg, p.off.addc(pos)), c, concat([val] * c), what); pos += c
                return
        r = self.region(st, p)
        if r is None:
            self.oblige(st, 'no-null-deref(memset)', Eq(n, bv(0)), what); return
        if r.kind != 'arr': raise EngineError("symbolic memset on object " + what)
        h = getattr(self.th, 'memset', None)
        if h and h(st, r, p, val, n, self, what): return
        lo = p.off.bv()
        self.oblige(st, 'in-bounds:' + r.name, Or(n == 0, And(z3.ULE(lo, r.size_bv()), z3.ULE(n, r.size_bv() - lo))), what)
        tot = r.cell
        def pred(d, lo=lo, n=n, r=r):
            x = self.linear(r, d)
            return z3.ULT(x - lo, n)
        st.mem[r.name] = st.mem[r.name].fill(pred, concat([val] * r.cell))
        st.wlog = (st.wlog, (r.name, None, None, None))

    def linear(self, r, d):
        m = r.cell
        xs = []
        for x, rad in zip(reversed(d[1:]), reversed(r.radix)):
            xs.append(zext(x, 64) * bv(m) if m > 1 else zext(x, 64)); m *= rad
        s = d[0] * bv(m) if m > 1 else d[0]
        for x in reversed(xs): s = s + x
        return s

    def memcpy(self, st, d, s, n, what):
        if not isnum(n):
            h = getattr(self.th, 'memcpy', None)
            if h and h(st, d, s, n, self, what): return
            raise EngineError("symbolic memcpy " + what)
        k = num(n)
        if k == 0: return
        rs = self.bounds(st, s, k, what)
        rd = self.bounds(st, d, k, what, write=True)
        parts = []
        pos = 0
        while pos < k:
            sp = Ptr(s.reg, s.off.addc(pos))
            c = min(8, k - pos)
            if rs.kind != 'arr' and sp.off.const() is not None:
                e = st.mem[rs.name].d.get(sp.off.const())
                if e is not None and e[0] <= k - pos: c = e[0]
                elif e is None:
                    c = min([o - sp.off.const() for o in st.mem[rs.name].d if o > sp.off.const()] + [c])
            if rs.kind == 'arr' and c > rs.cell and c % rs.cell: c = rs.cell
            if rd.kind == 'arr' and c % rd.cell and c > rd.cell: c = rd.cell
            v = self.load_raw(st, rs, sp, c, None, what)
            parts.append((pos, c, v)); pos += c
        hook = getattr(self.th, 'on_memcpy', None)
        for pos, c, v in parts:
            self.store_raw(st, rd, Ptr(d.reg, d.off.addc(pos)), c, v, what)

    # -------------------------------------------------------------- calls
    def call(self, st, ins):
        """-> list/generator of (kind, st, value)"""
        d = ins.a
        name = d['callee']
        args = [(t, self.val(st, t, v) if t.k not in ('metadata',) else None) for t, v in d['args']]
        if name.startswith('%'):
            p = st.env[name]
            if isinstance(p, Ptr) and p.reg and p.reg.startswith('fn:'): name = p.reg[3:]
            else: raise EngineError("indirect call " + ins.line)
        if name.startswith('asm:'):
            if name in ('asm:""',) or name.startswith('asm:""'): return [('ret', st, None)]
            raise EngineError("inline asm " + name)
        nm = name[1:].strip('"')
        A = [v for _, v in args]
        if nm.startswith('llvm.'):
            what = ins.line[:110]
            if nm.startswith('llvm.memset'):
                self.memset(st, A[0], A[1], A[2], what); return [('ret', st, None)]
            if nm.startswith(('llvm.memcpy', 'llvm.memmove')):
                self.memcpy(st, A[0], A[1], A[2], what); return [('ret', st, None)]
            if nm.startswith('llvm.trap') : 
                self.oblige(st, 'no-trap', FALSE, what); return []
            ok, v = self.intrinsic(st, nm, args, ins)
            if ok: return [('ret', st, v)]
            raise EngineError("intrinsic " + nm)
        dem = self.dem.get(name, nm)
        r = self.th.call(st, nm, dem, args, ins, self)
        if r is not None: return r
        r = self.libcall(st, nm, dem, args, ins)
        if r is not None: return r
        f = self.mod.func(name)
        if f is None: raise EngineError("call to unknown function " + dem)
        return self.run(f, A, st)

    def libcall(self, st, nm, dem, args, ins):
        A = [v for _, v in args]
        if nm in ('_Znwm', '_Znam', 'malloc', '_ZnwmSt11align_val_t', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t'):
            failed = st.fork() if getattr(self.th, 'alloc_fails', False) and 'nothrow' not in nm else None
            r = self.th.alloc(st, A[0], self, ins)
            if r is None:
                r = Region('heap!%d' % next(_cnt), A[0], 'arr', cell=1)
            st.regs[r.name] = r
            if r.name not in st.mem:
                st.mem[r.name] = ArrMem(Base(r)) if r.kind == 'arr' else ObjMem()
            st.assume(r.base & bv(r.align - 1) == 0, r.base != 0)
            st.g[('heap', r.name)] = A[0]
            out = [('ret', st, Ptr(r.name, Aff()))]
            if failed is not None: out.append(('throw', failed, 'bad_alloc'))
            return out
        if nm in ('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', 'free', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t'):
            p = A[0]
            if p.reg is None:
                if p.off.const() == 0: return [('ret', st, None)]
                raise EngineError("delete of unknown pointer")
            r = st.regs[p.reg]
            self.oblige(st, 'delete-of-heap-block', z3.BoolVal(('heap', r.name) in st.g or getattr(r, 'heap', False)), ins.line[:90])
            self.oblige(st, 'delete-at-base', Eq(p.off.bv(), bv(0)), ins.line[:90])
            self.oblige(st, 'no-double-free', z3.BoolVal(('freed', r.name) not in st.g), ins.line[:90])
            st.g[('freed', r.name)] = True
            h = getattr(self.th, 'on_free', None)
            if h: h(st, r, self)
            return [('ret', st, None)]
        if nm == '__cxa_guard_acquire': return [('ret', st, bv(0, 32))]
        if nm in ('__cxa_guard_release', '__cxa_atexit'): return [('ret', st, None if nm.endswith('release') else bv(0, 32))]
        if nm in ('memset',):
            self.memset(st, A[0], extract(7, 0, A[1]), A[2], ins.line[:90]); return [('ret', st, A[0])]
        if nm in ('memcpy', 'memmove'):
            self.memcpy(st, A[0], A[1], A[2], ins.line[:90]); return [('ret', st, A[0])]
        if nm.startswith(('_ZSt17__throw', '_ZSt20__throw', '_ZSt28__throw', '_ZSt24__throw', '_ZSt19__throw', '__cxa_throw', '_ZSt25__throw',
                          '_ZSt16__throw', '_ZSt18__throw', '_ZSt21__throw', '__cxa_rethrow')):
            return [('throw', st, nm)]
        if nm in ('_ZSt9terminatev', 'abort', '__clang_call_terminate', '__assert_fail'):
            self.oblige(st, 'no-abort', FALSE, ins.line[:90]); return []
        if nm == '__cxa_allocate_exception':
            return [('ret', st, Ptr(None, aff_of(fresh('exc'))))]
        if dem.startswith('std::') and self.mod.func('@' + nm) is None and any(x in dem for x in ('::out_of_range::', '::length_error::', '::logic_error::', '::runtime_error::', '::invalid_argument::', '::bad_alloc::')):
            return [('ret', st, None)]
        if nm in ('__cxa_begin_catch', '__cxa_end_catch', '__cxa_free_exception'):
            return [('ret', st, Ptr(None, Aff()))]
        return None

    # -------------------------------------------------------------- control flow
    def run(self, f, args, st):
        """execute function f; yields ('ret', st, value) / ('throw', st, x)"""
        self.functions.add(f.name)
        saved, strace = st.env, st.trace
        st.env = {}
        st.depth += 1
        if st.depth > 40: raise EngineError("recursion depth")
        for (ty, nm), v in zip(f.params, args): st.env[nm] = v
        st.trace = st.trace + ('>' + self.dem.get(f.name, f.name).split('(')[0][-40:],)
        for out in self.explore(f, f.entry, None, st, frozenset(), None):
            k = out[0]
            if k == 'ret':
                s2 = out[1]
                s2.env = dict(saved); s2.depth -= 1
                yield ('ret', s2, out[2])
            elif k == 'throw':
                out[1].env = dict(saved); out[1].depth -= 1
                yield out
            else:
                raise EngineError("escape " + k)

    def phis(self, f, blk):
        return [i for i in f.blocks[blk].ins if i.op == 'phi']

    def do_phis(self, f, blk, prev, st):
        new = self.phi_vals(f, blk, prev, st)
        st.env.update(new)
        return new

    def phi_vals(self, f, blk, prev, st):
        m = st.g.get('mphi')
        if m is not None and m[0] == blk:
            return dict(m[1])
        new = {}
        for p in self.phis(f, blk):
            for v, b in p.a:
                if b == prev:
                    new[p.res] = self.val(st, p.ty, v); break
            else:
                raise EngineError("phi without edge %s->%s" % (prev, blk))
        return new

    # -------------------------------------------------------------- joining paths
    def merge(self, f, blk, lst):
        """join states that reach blk with the same memory: facts become a disjunction"""
        groups = []
        for prev, st in lst:
            for gr in groups:
                if self.mergeable(gr[0][1], st): gr.append((prev, st)); break
            else: groups.append([(prev, st)])
        for gr in groups:
            if len(gr) == 1: yield gr[0]; continue
            m = self.merge_group(f, blk, gr)
            if m is None: yield from gr
            else: yield m

    @staticmethod
    def same_val(a, b):
        if a is b: return True
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef): return a.eq(b)
        if isinstance(a, Ptr) and isinstance(b, Ptr): return a.reg == b.reg and a.off.same(b.off)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
            return all(Engine.same_val(x, y) for x, y in zip(a, b))
        if isinstance(a, (int, str, bool, type(None))) and type(a) is type(b): return a == b
        return False

    def mergeable(self, a, b):
        if a.depth != b.depth or set(a.mem) != set(b.mem): return False
        if not (a.wlog is b.wlog or (not a.wlog and not b.wlog)): return False
        for rn in a.mem:
            x, y = a.mem[rn], b.mem[rn]
            if x is y: continue
            if isinstance(x, ArrMem):
                if not isinstance(y, ArrMem) or x.base is not y.base or len(x.writes) != len(y.writes) or any(p is not q for p, q in zip(x.writes, y.writes)): return False
            else:
                if set(x.d) != set(y.d) or any(x.d[o][0] != y.d[o][0] or not self.same_val(x.d[o][1], y.d[o][1]) for o in x.d): return False
        return True

    SOFT = ('hook', 'inb', 'name', 'digits')

    def merge_group(self, f, blk, gr):
        sts = [s for _, s in gr]
        chains = []
        for s in sts:
            c, x = [], s.facts
            while x: c.append(x); x = x[0]
            c.reverse(); chains.append(c)
        k = 0
        while all(k < len(c) for c in chains) and all(c[k] is chains[0][k] for c in chains): k += 1
        extra = [[x[1] for x in c[k:]] for c in chains]
        try:
            ph = [self.phi_vals(f, blk, p, s) for p, s in gr]
        except KeyError:
            return None
        r = sts[0].fork()
        r.facts = chains[0][k - 1] if k else ()

        def join(vs):
            if all(self.same_val(vs[0], v) for v in vs[1:]): return vs[0]
            if all(isinstance(v, z3.BitVecRef) for v in vs):
                c = fresh('j', vs[0].size())
                for e, v in zip(extra, vs): e.append(c == v)
                return c
            if all(isinstance(v, z3.BoolRef) for v in vs):
                c = freshb('j')
                for e, v in zip(extra, vs): e.append(c == v)
                return c
            if all(isinstance(v, Ptr) for v in vs) and all(v.reg == vs[0].reg for v in vs) and vs[0].reg is not None:
                return Ptr(vs[0].reg, aff_of(join([v.off.bv() for v in vs])))
            if all(isinstance(v, list) for v in vs) and all(len(v) == len(vs[0]) for v in vs):
                return [join(list(t)) for t in zip(*vs)]
            raise PathEnd()
        g = {}
        try:
            for key in set().union(*[s.g.keys() for s in sts]):
                if key in ('mphi', 'moved'): continue
                soft = isinstance(key, tuple) and key[0] in self.SOFT
                if not all(key in s.g for s in sts):
                    if soft: continue
                    return None
                vs = [s.g[key] for s in sts]
                if all(self.same_val(vs[0], v) for v in vs[1:]): g[key] = vs[0]
                elif soft: continue
                elif key == 'loopns':
                    g[key] = tuple(x for x in vs[0] if all(any(x.eq(y) for y in v) for v in vs[1:]))
                elif isinstance(vs[0], z3.ExprRef): g[key] = join(vs)
                else: return None
            newphi = {p: join([x[p] for x in ph]) for p in ph[0]}
            env = {}
            for key in set.intersection(*[set(s.env) for s in sts]):
                try: env[key] = join([s.env[key] for s in sts])
                except PathEnd: pass
        except PathEnd:
            return None
        r.g = g
        r.env = env
        for s in sts: r.regs.update(s.regs)
        if newphi: r.g['mphi'] = (blk, newphi)
        r.trace = sts[0].trace + ('+%d' % (len(sts) - 1),)
        r.assume(Or(*[And(*e) for e in extra]))
        return gr[0][0], r

    def explore(self, f, blk, prev, st, active, limit):
        if limit is not None and blk not in limit:
            yield ('exit', blk, prev, st); return
        lps = ir.loops(f)
        if blk in lps:
            if blk in active:
                yield ('back', blk, prev, st); return
            u = self.th.unroll_limit(f, blk, self)
            if u:
                c = st.g.get(('unroll', f.name, blk), 0)
                # a fresh entry resets the counter
                if prev is None or prev not in lps[blk]: c = 0
                if c > u:
                    self.oblige(st, 'loop-bound', FALSE, '%s %s bound %d' % (f.name, blk, u)); return
                st.g[('unroll', f.name, blk)] = c + 1
            else:
                yield from self.enter_loop(f, blk, prev, st, active, limit)
                return
        st.trace = st.trace + (blk,)
        self.do_phis(f, blk, prev, st)
        st.g.pop('mphi', None)
        yield from self.exec_from(f, blk, len(self.phis(f, blk)), st, active, limit)

    def exec_from(self, f, blk, i, st, active, limit):
        ins_l = f.blocks[blk].ins
        while True:
            if self.deadline and time.time() > self.deadline: raise EngineError("time budget exhausted")
            ins = ins_l[i]
            op = ins.op
            try:
                if op in ('call', 'invoke'):
                    outs = self.call(st, ins)
                    if isinstance(outs, list) and len(outs) == 1 and outs[0][0] == 'ret':
                        st = outs[0][1]
                        if ins.res: st.env[ins.res] = outs[0][2]
                        if op == 'invoke':
                            yield from self.explore(f, ins.a['normal'], blk, st, active, limit); return
                        i += 1
                        continue
                    for k, s2, v in outs:
                        if k == 'throw':
                            if op == 'invoke' and getattr(self.th, 'follow_unwind', False):
                                yield from self.explore(f, ins.a['unwind'], blk, s2, active, limit)
                            else:
                                yield (k, s2, v)
                            continue
                        if ins.res: s2.env[ins.res] = v
                        if op == 'invoke':
                            yield from self.explore(f, ins.a['normal'], blk, s2, active, limit)
                        else:
                            yield from self.exec_from(f, blk, i + 1, s2, active, limit)
                    return
                if op == 'select':
                    ct, c, a, b = ins.a
                    if ct.k == 'vec':
                        cs, xs, ys = self.val(st, ct, c), self.val(st, ins.ty, a), self.val(st, ins.ty, b)
                        st.env[ins.res] = [If(q, x, y) for q, x, y in zip(cs, xs, ys)]
                        i += 1; continue
                    cv = self.val(st, ct, c)
                    x, y = self.val(st, ins.ty, a), self.val(st, ins.ty, b)
                    if z3.is_true(cv) or z3.is_false(cv):
                        st.env[ins.res] = x if z3.is_true(cv) else y
                        i += 1; continue
                    if isinstance(x, (Ptr, list)):
                        if isinstance(x, Ptr) and x.reg == y.reg and x.off.same(y.off):
                            st.env[ins.res] = x; i += 1; continue
                        if isinstance(x, Ptr) and x.reg == y.reg and x.reg is not None and getattr(self.th, 'merge_ptr_select', False):
                            st.env[ins.res] = Ptr(x.reg, aff_of(If(cv, x.off.bv(), y.off.bv()))); i += 1; continue
                        for cond, v in ((cv, x), (Not(cv), y)):
                            if self.feasible(st, cond):
                                s2 = st.fork(); s2.assume(cond); s2.env[ins.res] = v
                                yield from self.exec_from(f, blk, i + 1, s2, active, limit)
                        return
                    st.env[ins.res] = If(cv, x, y)
                    i += 1; continue
                if op == 'br':
                    yield from self.explore(f, ins.a[0], blk, st, active, limit); return
                if op == 'condbr':
                    c = self.val(st, ir.I1, ins.a[0])
                    if z3.is_true(c) or z3.is_false(c):
                        yield from self.explore(f, ins.a[1] if z3.is_true(c) else ins.a[2], blk, st, active, limit); return
                    t = self.feasible(st, c)
                    e = self.feasible(st, Not(c)) if t else True
                    if t and e:
                        s2 = st.fork(); s2.assume(c)
                        yield from self.explore(f, ins.a[1], blk, s2, active, limit)
                        st = st.fork(); st.assume(Not(c))
                        yield from self.explore(f, ins.a[2], blk, st, active, limit)
                    else:
                        st.assume(c if t else Not(c))
                        yield from self.explore(f, ins.a[1] if t else ins.a[2], blk, st, active, limit)
                    return
                if op == 'switch':
                    v = self.val(st, ins.ty, ins.a[0])
                    neg = []
                    for cv, lbl in ins.a[2]:
                        k = self.val(st, ins.ty, cv)
                        c = Eq(v, k)
                        if self.feasible(st, c):
                            s2 = st.fork(); s2.assume(c)
                            yield from self.explore(f, lbl, blk, s2, active, limit)
                        neg.append(Not(c))
                    c = And(*neg)
                    if self.feasible(st, c):
                        s2 = st.fork(); s2.assume(c)
                        yield from self.explore(f, ins.a[1], blk, s2, active, limit)
                    return
                if op == 'ret':
                    yield ('ret', st, self.val(st, ins.ty, ins.a) if ins.a is not None else None); return
                if op == 'unreachable':
                    self.oblige(st, 'unreachable-code', FALSE, f.name + blk); return
                if op == 'resume':
                    yield ('throw', st, 'resume'); return
                self.step(st, ins, f)
            except PathEnd:
                return
            i += 1

    # -------------------------------------------------------------- loops
    def enter_loop(self, f, h, prev, st, active, limit):
        body = ir.loops(f)[h]
        phis = self.phis(f, h)
        st = st.fork()
        self.th.at_cut(st, self)
        init = self.phi_vals(f, h, prev, st)
        st.g.pop('mphi', None)
        hook = getattr(self.th, 'canon_init', None)
        if hook: init = hook(st, init, self)
        L = LoopInfo(f, h, body, phis)
        L.key = key = (f.name, h, st.trace)
        act2 = active | {h}

        def backs(sth):
            outs = []
            for o in self.explore_at(f, h, sth.fork(), act2, body):
                if o[0] == 'back' and o[1] == h:
                    s2 = o[3]
                    self.th.at_cut(s2, self)
                    s2p = self.phi_vals(f, h, o[2], s2)
                    outs.append((s2, s2p))
            return outs

        # 1. discover what the body modifies and linear induction variables
        disc = self.cache.get(('disc', key))
        if disc is None:
            mode = self.mode; self.mode = 'discover'
            try:
                mods = {}
                for it in range(6):
                    sth, ph, n = self.havoc(st, L, init, mods, {}, [], [])
                    outs = backs(sth)
                    new = self.modified(sth, [o[0] for o in outs], mods)
                    if self.verbose: print('   disc', h, it, len(outs), sorted(map(str,new)), st.trace[-4:], flush=True)
                    if new == mods: break
                    mods = new
                else:
                    raise EngineError("modset")
                subst = {}
                for p in phis:
                    cur = ph[p.res]
                    ok, inc = True, None
                    for s2, bp in outs:
                        b = bp[p.res]
                        if isinstance(cur, Ptr):
                            if b.reg != cur.reg: ok = False; break
                            df = b.off.add(cur.off, -1)
                        elif isinstance(cur, z3.BitVecRef):
                            if b.size() == 64: df = aff_of(b).add(aff_of(cur), -1)
                            else:
                                d2 = z3.simplify(b - cur)
                                df = Aff(None, num(d2)) if isnum(d2) else None
                        else: df = None
                        if df is None or df.t or (inc is not None and inc != df.c): ok = False; break
                        inc = df.c
                    if ok and inc is not None:
                        subst[p.res] = inc
                disc = (mods, subst)
            finally:
                self.mode = mode
            if outs: self.cache[('disc', key)] = disc
        mods, subst = disc
        L.mods, L.subst = mods, subst
        if self.mode == 'discover':
            sth, ph, n = self.havoc(st, L, init, mods, subst, [], [])
            yield from self.leave(f, h, sth, act2, limit, L)
            return
        # 2. candidates
        V0 = View(init, init, bv(0), st, st, self, L)
        self.th.pre_loop(L, V0, st, self)
        cands = self.cache.get(('cand', key))
        if cands is None:
            cs = list(self.th.candidates(L, V0, self)) + self.generic_cands(L, V0)
            ms = {}
            for rn in mods:
                r = st.regs.get(rn)
                if r is not None and r.kind == 'arr':
                    ms[rn] = list(self.th.mem_schemas(L, r, V0, self)) + self.generic_schemas(r)
                    ms[rn] = [c for c in ms[rn] if not c.init or self.schema_holds(c, V0, st, st, rn, r)]
            # initiation
            keep = []
            for c in cs:
                g = c.fn(V0)
                if g is None: continue
                r = self.pv.check(st.facts, Not(g), timeout=8000)
                if r == 'unknown' and self.verbose:
                    print('   initiation unknown:', c.name, flush=True)
                    import os
                    if os.environ.get('DV_DUMP') and 'moved' in c.name:
                        so = z3.Solver(); x = st.facts
                        while x: so.add(x[1]); x = x[0]
                        so.add(Not(g)); open(os.environ['DV_DUMP'], 'w').write(so.to_smt2())
                if r == 'unknown': r = self.pv.check_fresh(st.facts, Not(g), timeout=25000, logic=None)
                if r == 'unsat': keep.append(c)
                elif self.verbose: print('   initially false:', h, c.name)
                elif c.required: raise EngineError('required loop invariant does not hold initially: %s (%s %s)' % (c.name, f.name[:60], h))
            cands = (keep, ms)
        else:
            cs, ms = cands
            def still(c):
                g = c.fn(V0)
                if g is None: return False
                r = self.pv.check(st.facts, Not(g), timeout=8000)
                if r == 'unknown': r = self.pv.check_fresh(st.facts, Not(g), timeout=25000, logic=None)
                return r == 'unsat'
            keep = [c for c in cs if still(c)]
            if self.verbose and len(keep) != len(cs): print('   re-entry', h, 'dropped:', [c.name for c in cs if c not in keep], flush=True)
            cands = (keep, {k: list(v) for k, v in ms.items()})
        cs, ms = cands
        # 3. Houdini
        mode = self.mode
        for rnd in range(40):
            self.mode = 'houdini'
            try:
                sth, ph, n = self.havoc(st, L, init, mods, subst, cs, ms)
                outs = backs(sth)
            finally:
                self.mode = mode
            bad = set(); badm = {}
            for s2, bp in outs:
                V2 = View(bp, init, n + bv(1), s2, st, self, L)
                goals = []
                for c in cs:
                    if c in bad: continue
                    g = c.fn(V2)
                    if g is None: bad.add(c); continue
                    if not z3.is_true(g): goals.append((c, g))
                self.drop_failing(s2, goals, bad)
                for rn, sch in ms.items():
                    r = st.regs[rn]
                    gl = []
                    for c in sch:
                        if c in badm.get(rn, ()): continue
                        if not self.schema_holds(c, V2, s2, st, rn, r): badm.setdefault(rn, set()).add(c)
            if self.verbose and bad: print('   round', rnd, h, 'dropped:', [c.name for c in bad], flush=True)
            if not bad and not any(badm.values()): break
            cs = [c for c in cs if c not in bad]
            ms = {rn: [c for c in sch if c not in badm.get(rn, ())] for rn, sch in ms.items()}
        else:
            raise EngineError("Houdini did not converge")
        self.cache[('cand', key)] = (cs, ms)
        lost = [c.name for c in cands[0] if c.required and c not in cs]
        if lost: raise EngineError('required loop invariant does not hold: %s (%s %s)' % (lost, f.name[:60], h))
        # 4. final pass
        sth, ph, n = self.havoc(st, L, init, mods, subst, cs, ms)
        if self.mode == 'final':
            self.loopreport.append((self.dem.get(f.name, f.name)[:80], h, [c.name for c in cs], {k.split('!')[0]: [c.name for c in v] for k, v in ms.items()}, dict((k, v if v < 1 << 63 else v - (1 << 64)) for k, v in subst.items())))
            for c in cs:
                self.obls.append(Oblig('inv:' + c.name, '%s %s' % (f.name[:60], h), 'proved', 0, 'inductive'))
            hook = getattr(self.th, 'loop_decreases', None)
            if hook: self._variant = hook
        yield from self.leave(f, h, sth, act2, limit, L, View(ph, init, n, sth, st, self, L))

    def leave(self, f, h, sth, act2, limit, L, V=None):
        pend = {}
        for o in self.explore_at(f, h, sth.fork(), act2, L.body):
            if o[0] == 'back' and o[1] == h:
                if V is not None and self.mode == 'final':
                    self.th_back(o, L, V)
                continue
            if o[0] == 'exit':
                if o[3].wlog: self.th.at_cut(o[3], self)
                pend.setdefault(o[1], []).append((o[2], o[3]))
                continue
            yield o
        for blk, lst in pend.items():
            for prev, s in (self.merge(f, blk, lst) if len(lst) > 1 else lst):
                yield from self.explore(f, blk, prev, s, act2, limit)

    def schema_holds(self, c, V2, s2, st, rn, r):
        """the schema at every cell of the region in state s2 (entry memory: st): at each written cell, then elsewhere"""
        cells = []
        for w in s2.mem[rn].writes:
            if c.init and w[0] == 'w' and not any(all(a.eq(b) for a, b in zip(w[1], x)) for x in cells): cells.append(w[1])
        other = [fresh('sk', w) for w in r.dw]
        for sk in cells + [other]:
            s3 = s2.fork()
            if sk is other:
                for x, rad in zip(sk[1:], r.radix): s3.assume(z3.ULT(zext(x, 64), bv(rad)))
                if r.inb is not None: s3.assume(r.inb(sk))
                for d in cells: s3.assume(Not(self.cell_eq(d, sk)))
            v0 = self.mem_read(s3, st.mem[rn], sk)
            v1 = self.mem_read(s3, s2.mem[rn], sk)
            g = c.fn(V2.at(s3), sk, v1, v0)
            gs = g if isinstance(g, list) else [g]
            for x in gs:
                if not self.valid(s3, x, timeout=8000):
                    if not c.init or self.pv.check_fresh(s3.facts, Not(x), timeout=60000) != 'unsat':
                        if c.init and self.verbose: print('   dropped:', c.name, 'at', 'a written cell' if sk is not other else 'other cells', str(x)[:300], s2.trace[-6:], flush=True)
                        return False
        return True

    def th_back(self, o, L, V):
        hook = getattr(self.th, 'on_back', None)
        if hook:
            s2 = o[3]
            bp = self.phi_vals(L.f, L.h, o[2], s2)
            hook(L, V, s2, bp, self)

    def drop_failing(self, st, goals, bad):
        """remove candidates not implied in state st"""
        goals = [g for g in goals if g[0] not in bad]
        for _ in range(len(goals) + 1):
            if not goals: return
            r = self.pv.check(st.facts, Not(And(*[g for _, g in goals])), timeout=6000, model=True)
            if r == 'unsat': return
            if r == 'sat' and self.pv.last_model is not None:
                m = self.pv.last_model
                fl = [c for c, g in goals if not z3.is_true(m.eval(g, model_completion=True))]
                if fl:
                    if self.verbose:
                        for c, g in goals:
                            if c in fl and (c.required or 'moved' in c.name or 'room' in c.name): print('   LOST', c.name, st.trace[-6:], str(z3.simplify(g))[:600], flush=True)
                    bad.update(fl)
                    goals = [x for x in goals if x[0] not in bad]
                    continue
            # individually
            for c, g in goals:
                if not self.valid(st, g, timeout=6000):
                    if self.pv.check_fresh(st.facts, Not(g), timeout=30000) != 'unsat' and self.pv.check_fresh(st.facts, Not(g), timeout=25000, logic=None) != 'unsat':
                        if self.verbose and (c.required or 'moved' in c.name or 'room' in c.name): print('   LOST?', c.name, st.trace[-6:], str(z3.simplify(g))[:600], flush=True)
                        bad.add(c)
            return

    def explore_at(self, f, h, st, active, limit):
        """continue after the (havoced) phis of header h"""
        try:
            yield from self.exec_from(f, h, len(self.phis(f, h)), st, active, limit)
        except PathEnd:
            return

    def modified(self, sth, outs, mods):
        new = dict(mods)
        for s2 in outs:
            for rn, m in s2.mem.items():
                m0 = sth.mem.get(rn)
                if m is m0: continue
                if m0 is None: continue     # region born inside the body
                if isinstance(m, ArrMem):
                    if m.writes != m0.writes or m.base is not m0.base: new[rn] = True
                else:
                    offs = set(new.get(rn) or ())
                    for o, (sz, v) in m.d.items():
                        e = m0.d.get(o)
                        if e is None:
                            if not any(x[0] == o for x in offs): offs.add((o, sz))
                        elif e[1] is not v and not (isinstance(v, z3.ExprRef) and isinstance(e[1], z3.ExprRef) and v.eq(e[1])) and not (
                                isinstance(v, Ptr) and isinstance(e[1], Ptr) and v.reg == e[1].reg and v.off.same(e[1].off)):
                            offs.add((o, sz))
                    if offs: new[rn] = frozenset(offs)
        return new

    def havoc(self, st, L, init, mods, subst, cs, ms):
        s = st.fork()
        n = fresh('n')
        ph = {}
        for p in L.phis:
            v0 = init[p.res]
            if p.res in subst:
                c = subst[p.res]
                if isinstance(v0, Ptr): ph[p.res] = Ptr(v0.reg, v0.off.add(Aff({n.get_id(): (n, 1)}), c))
                else:
                    nn = n if v0.size() == 64 else extract(v0.size() - 1, 0, n)
                    if v0.size() == 64:
                        ph[p.res] = aff_of(v0).add(Aff({n.get_id(): (n, 1)}), c).bv()
                    else:
                        cc = c & ((1 << v0.size()) - 1)
                        ph[p.res] = v0 if cc == 0 else bvadd(v0, nn * bv(cc, v0.size()) if cc != 1 else nn)
            elif isinstance(v0, Ptr):
                ph[p.res] = Ptr(v0.reg, aff_of(fresh('phi' + p.res)))
            elif isinstance(v0, list):
                ph[p.res] = self.freshval(p.ty, 'phi')
            elif isinstance(v0, z3.BoolRef):
                ph[p.res] = freshb('phi' + p.res)
            else:
                ph[p.res] = fresh('phi' + p.res, v0.size())
        hook = getattr(self.th, 'shape_phis', None)
        if hook: ph = hook(L, ph, init, s, st, self)
        for rn, what in mods.items():
            if rn not in s.mem: continue
            r = s.regs[rn]
            if r.kind == 'arr':
                b = Base(r, label='.' + L.h[1:])
                s.mem[rn] = ArrMem(b)
            else:
                d = dict(s.mem[rn].d)
                for o, sz in what:
                    old = d.get(o)
                    if old is not None and isinstance(old[1], Ptr) or sz > 64:
                        d[o] = (sz, Ptr(old[1].reg if old else None, aff_of(fresh(rn + str(o))))); continue
                    for co in [x for x in d if x < o + sz and x + d[x][0] > o]: del d[co]
                    d[o] = (sz, fresh('%s+%d' % (rn, o), sz * 8))
                s.mem[rn] = ObjMem(d)
        s.trace = s.trace + ('L' + L.h,)
        s.wlog = ()
        V = View(ph, init, n, s, st, self, L)
        self.th.havoc_ghost(L, V, s, self)
        # memory schemas become read hooks on the havoced bases
        for rn, sch in (ms or {}).items() if ms else ():
            base = s.mem[rn].base
            m0 = st.mem[rn]
            for c in sch:
                def hook(stx, d, val, c=c, m0=m0):
                    self.nohook += c.init       # instantiations do not trigger further instantiations
                    try: g = c.fn(V.at(stx), d, val, self.mem_read(stx, m0, d))
                    finally: self.nohook -= c.init
                    stx.assume(*(g if isinstance(g, list) else [g]))
                base.hooks.append(hook)
        s.env.update(ph)
        s.assume(z3.ULT(n, bv(1 << 62)))
        for c in cs:
            g = c.fn(V)
            if g is not None:
                s.assume(g)
                if getattr(c, 'record', None): s.g[c.record] = s.g.get(c.record, ()) + (g,)
        # state read during candidate evaluation is already in s
        return s, ph, n

    # -------------------------------------------------------------- generic candidates
    def generic_cands(self, L, V0):
        out = []
        for p in L.phis:
            if p.res in L.subst: continue
            v0 = V0.init[p.res]
            nm = p.res
            if isinstance(v0, z3.BitVecRef):
                w = v0.size()
                out.append(Cand('%s!=0' % nm, lambda V, nm=nm: V.phi[nm] != 0))
                if w <= 32:
                    out.append(Cand('%s subset init' % nm, lambda V, nm=nm: V.phi[nm] & ~V.init[nm] == 0))
                out.append(Cand('%s==init' % nm, lambda V, nm=nm: Eq(V.phi[nm], V.init[nm])))
                out.append(Cand('%s<=init' % nm, lambda V, nm=nm: z3.ULE(V.phi[nm], V.init[nm])))
                out.append(Cand('%s>=init' % nm, lambda V, nm=nm: z3.UGE(V.phi[nm], V.init[nm])))
        # n-bounds against other phis are supplied by theories
        # n <= bound where the loop exit compares an induction value
        return out

    def generic_schemas(self, r):
        return [MemSchema('unchanged', lambda V, d, now, old: now == old)]


_cnt = itertools.count()
