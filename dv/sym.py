"""Symbolic values, memory and the path/loop engine of the deductive verifier.

Verification conditions are generated from LLVM IR (dv.ir) that clang produces from
/repo's current sources.  Every loop is either cut by inductive invariants or (only when a
target explicitly says so, for loops bounded by an operand width) unrolled completely."""
import time, itertools, os
import z3
from . import ir

z3.set_param('smt.random_seed', 1)
z3.set_param('sat.random_seed', 1)


class EngineError(Exception):
    """The verifier cannot process the code (unsupported construct, ...)."""


B64 = z3.BitVecSort(64)
_fresh = itertools.count()


def fresh(name, n=64):
    return z3.BitVec('%s!%d' % (name, next(_fresh)), n)


def freshb(name):
    return z3.Bool('%s!%d' % (name, next(_fresh)))


def bv(v, n=64):
    return z3.BitVecVal(v, n)


def isnum(e):
    return z3.is_bv_value(e)


def num(e):
    return e.as_long()


def snum(e):
    return e.as_signed_long()


TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


def And(*xs):
    ys = []
    for x in xs:
        if z3.is_true(x): continue
        if z3.is_false(x): return FALSE
        ys.append(x)
    if not ys: return TRUE
    return ys[0] if len(ys) == 1 else z3.And(*ys)


def Or(*xs):
    ys = []
    for x in xs:
        if z3.is_false(x): continue
        if z3.is_true(x): return TRUE
        ys.append(x)
    if not ys: return FALSE
    return ys[0] if len(ys) == 1 else z3.Or(*ys)


def Not(x):
    if z3.is_true(x): return FALSE
    if z3.is_false(x): return TRUE
    if z3.is_not(x): return x.arg(0)
    return z3.Not(x)


def Implies(a, b):
    if z3.is_true(a): return b
    if z3.is_false(a) or z3.is_true(b): return TRUE
    return z3.Implies(a, b)


def If(c, a, b):
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if a.eq(b): return a
    return z3.If(c, a, b)


def Eq(a, b):
    if a.eq(b): return TRUE
    if isnum(a) and isnum(b): return z3.BoolVal(num(a) == num(b))
    return a == b


def Ult(a, b):
    if isnum(a) and isnum(b): return z3.BoolVal(num(a) < num(b))
    return z3.ULT(a, b)


def Ule(a, b):
    if isnum(a) and isnum(b): return z3.BoolVal(num(a) <= num(b))
    return z3.ULE(a, b)


# ------------------------------------------------------------------ affine offsets
M64 = (1 << 64) - 1


class Aff:
    __slots__ = ("t", "c")

    def __init__(self, t=None, c=0):
        self.t = t or {}
        self.c = c & M64

    def add(self, o, k=1):
        t = dict(self.t)
        for i, (e, co) in o.t.items():
            n = ((t[i][1] if i in t else 0) + co * k) & M64
            if n: t[i] = (e, n)
            else: t.pop(i, None)
        return Aff(t, self.c + o.c * k)

    def addc(self, c):
        return Aff(self.t, self.c + c)

    def scale(self, k):
        if k & M64 == 0: return Aff()
        t = {}
        for i, (e, co) in self.t.items():
            n = co * k & M64
            if n: t[i] = (e, n)
        return Aff(t, self.c * k)

    def const(self):
        return self.c if not self.t else None

    def bv(self):
        r = None
        for e, co in self.t.values():
            x = e if co == 1 else (e << (co.bit_length() - 1) if co & (co - 1) == 0 else e * bv(co))
            r = x if r is None else r + x
        if r is None: return bv(self.c)
        return r if self.c == 0 else r + bv(self.c)

    def same(self, o):
        return self.c == o.c and {k: v[1] for k, v in self.t.items()} == {k: v[1] for k, v in o.t.items()}


_affcache = {}


def aff_of(e, depth=0):
    k = e.get_id()
    r = _affcache.get(k)
    if r is not None and r[0].eq(e): return r[1]
    r = _aff(e, depth)
    _affcache[k] = (e, r)
    return r


def _aff(e, depth):
    if isnum(e): return Aff(None, num(e))
    if depth < 60 and z3.is_app(e):
        d = e.decl().kind()
        if d == z3.Z3_OP_BADD:
            r = Aff()
            for i in range(e.num_args()): r = r.add(aff_of(e.arg(i), depth + 1))
            return r
        if d == z3.Z3_OP_BSUB:
            return aff_of(e.arg(0), depth + 1).add(aff_of(e.arg(1), depth + 1), -1)
        if d == z3.Z3_OP_BNEG:
            return aff_of(e.arg(0), depth + 1).scale(-1)
        if d == z3.Z3_OP_BMUL and e.num_args() == 2:
            a, b = e.arg(0), e.arg(1)
            if isnum(a): return aff_of(b, depth + 1).scale(num(a))
            if isnum(b): return aff_of(a, depth + 1).scale(num(b))
        if d == z3.Z3_OP_BSHL and isnum(e.arg(1)) and num(e.arg(1)) < 64:
            return aff_of(e.arg(0), depth + 1).scale(1 << num(e.arg(1)))
    return Aff({e.get_id(): (e, 1)}, 0)


# ------------------------------------------------------------------ bv builders with folding
def bvadd(a, b):
    if isnum(a) and num(a) == 0: return b
    if isnum(b) and num(b) == 0: return a
    if isnum(a) and isnum(b): return bv(num(a) + num(b), a.size())
    return a + b


def zext(a, n):
    k = n - a.size()
    if k == 0: return a
    if isnum(a): return bv(num(a), n)
    return z3.ZeroExt(k, a)


def extract(hi, lo, a):
    if lo == 0 and hi == a.size() - 1: return a
    if isnum(a): return bv(num(a) >> lo, hi - lo + 1)
    d = a.decl().kind()
    if d == z3.Z3_OP_ZERO_EXT:
        x = a.arg(0); w = x.size()
        if lo >= w: return bv(0, hi - lo + 1)
        if hi < w: return extract(hi, lo, x)
        return zext(extract(w - 1, lo, x), hi - lo + 1)
    if d == z3.Z3_OP_CONCAT:
        pos = a.size()
        for i in range(a.num_args()):
            x = a.arg(i); w = x.size(); pos -= w
            if lo >= pos and hi < pos + w: return extract(hi - pos, lo - pos, x)
    if d == z3.Z3_OP_EXTRACT:
        o = a.params()[1]
        return extract(hi + o, lo + o, a.arg(0))
    if d == z3.Z3_OP_ITE:
        t, f = a.arg(1), a.arg(2)
        if isnum(t) and isnum(f):
            return If(a.arg(0), extract(hi, lo, t), extract(hi, lo, f))
    if d in (z3.Z3_OP_BAND, z3.Z3_OP_BOR, z3.Z3_OP_BXOR) and a.num_args() == 2 and hi == lo:
        x, y = extract(hi, lo, a.arg(0)), extract(hi, lo, a.arg(1))
        for p, q in ((x, y), (y, x)):
            if isnum(p):
                if d == z3.Z3_OP_BAND: return q if num(p) else bv(0, 1)
                if d == z3.Z3_OP_BOR: return bv(1, 1) if num(p) else q
        return {z3.Z3_OP_BAND: lambda: x & y, z3.Z3_OP_BOR: lambda: x | y, z3.Z3_OP_BXOR: lambda: x ^ y}[d]()
    if d == z3.Z3_OP_BLSHR and hi == lo and isnum(a.arg(1)):
        s = num(a.arg(1))
        return bv(0, 1) if hi + s >= a.size() else extract(hi + s, lo + s, a.arg(0))
    return z3.Extract(hi, lo, a)


def concat(hi_to_lo):
    xs = list(hi_to_lo)
    if all(isnum(x) for x in xs):
        v, n = 0, 0
        for x in xs:
            v = (v << x.size()) | num(x); n += x.size()
        return bv(v, n)
    if len(xs) == 1: return xs[0]
    # merge adjacent extracts of one term
    out = [xs[0]]
    for x in xs[1:]:
        p = out[-1]
        if isnum(p) and isnum(x):
            out[-1] = bv((num(p) << x.size()) | num(x), p.size() + x.size()); continue
        if p.decl().kind() == z3.Z3_OP_EXTRACT and x.decl().kind() == z3.Z3_OP_EXTRACT and p.arg(0).eq(x.arg(0)):
            ph, pl = p.params(); xh, xl = x.params()
            if pl == xh + 1:
                out[-1] = extract(ph, xl, p.arg(0)); continue
        out.append(x)
    return out[0] if len(out) == 1 else z3.Concat(*out)


def b2bv(b, n=1):
    if z3.is_true(b): return bv(1, n)
    if z3.is_false(b): return bv(0, n)
    return z3.If(b, bv(1, n), bv(0, n))


def bit(e, i):
    """bit i of bitvector e as Bool"""
    x = extract(i, i, e)
    if isnum(x): return z3.BoolVal(num(x) == 1)
    if x.decl().kind() == z3.Z3_OP_ITE and isnum(x.arg(1)) and isnum(x.arg(2)):
        t, f = num(x.arg(1)), num(x.arg(2))
        if (t, f) == (1, 0): return x.arg(0)
        if (t, f) == (0, 1): return Not(x.arg(0))
    return x == bv(1, 1)


def cttz(e):
    n = e.size()
    if isnum(e):
        v = num(e)
        return bv((v & -v).bit_length() - 1 if v else n, n)
    r = bv(n, n)
    for i in reversed(range(n)):
        r = If(bit(e, i), bv(i, n), r)
    return r


def ctlz(e):
    n = e.size()
    if isnum(e): return bv(n - num(e).bit_length(), n)
    r = bv(n, n)
    for i in range(n):
        r = If(bit(e, i), bv(n - 1 - i, n), r)
    return r


def ctpop(e):
    n = e.size()
    if isnum(e): return bv(bin(num(e)).count('1'), n)
    xs = [extract(i, i, e) for i in range(n)]
    while len(xs) > 1:
        w = xs[0].size() + 1
        xs = [zext(xs[i], w) + zext(xs[i + 1], w) if i + 1 < len(xs) else zext(xs[i], w) for i in range(0, len(xs), 2)]
    return zext(xs[0], n)


# ------------------------------------------------------------------ pointers, regions, memory
class Ptr:
    __slots__ = ("reg", "off")

    def __init__(self, reg, off):
        self.reg, self.off = reg, off

    def __repr__(self):
        return "Ptr(%s,%s)" % (self.reg, self.off.bv() if self.off.t else self.off.c)


NULL = Ptr(None, Aff())


class Region:
    """cell: bytes per memory cell; radix: [r1,r2,..] splits the cell index into digits
    D0*(r1*r2..)+D1*r2+..; size: z3 BV64/int bytes or None (then inb must be given)."""

    def __init__(self, name, size, kind='obj', cell=1, radix=(), inb=None, const=False, align=16, init=None, dwidth=None):
        self.name, self.size, self.kind, self.cell, self.radix, self.inb = name, size, kind, cell, tuple(radix), inb
        self.const, self.align, self.init = const, align, init
        self.base = z3.BitVec('base.' + name, 64)
        self.freed = False
        self.dw = [64] + [max(1, (r - 1).bit_length()) for r in self.radix]

    def size_bv(self):
        return bv(self.size) if isinstance(self.size, int) else self.size


class Base:
    """initial contents of an array region: an uninterpreted function of the digits, with
    optional lazily instantiated facts (hooks) about the cells that are read."""
    cnt = itertools.count()

    def __init__(self, reg, hooks=(), const=None, label=''):
        self.uid = next(Base.cnt)
        self.reg = reg
        self.const = const
        self.hooks = list(hooks)
        self.f = z3.Function('m.%s%s.%d' % (reg.name, label, self.uid), *([z3.BitVecSort(w) for w in reg.dw] + [z3.BitVecSort(8 * reg.cell)]))

    def app(self, d):
        if self.const is not None: return self.const
        return self.f(*d)


class ArrMem:
    __slots__ = ("base", "writes")

    def __init__(self, base, writes=()):
        self.base, self.writes = base, writes

    def write(self, d, v, guard=None):
        return ArrMem(self.base, self.writes + (('w', d, v),))

    def fill(self, pred, val):
        return ArrMem(self.base, self.writes + (('f', pred, val),))


def dig_eq(a, b):
    return And(*[Eq(x, y) for x, y in zip(a, b)])


class ObjMem:
    """cells at concrete offsets: dict off -> (size, value)"""
    __slots__ = ("d", "default")

    def __init__(self, d=None, default=None):
        self.d = d or {}
        self.default = default


class St:
    __slots__ = ("env", "mem", "facts", "g", "trace", "wlog", "regs", "depth")

    def __init__(self):
        self.env, self.mem, self.facts, self.g, self.trace, self.wlog, self.regs = {}, {}, (), {}, (), (), {}
        self.depth = 0

    def fork(self):
        s = St()
        s.env, s.mem, s.facts, s.g, s.trace, s.wlog, s.regs = dict(self.env), dict(self.mem), self.facts, dict(self.g), self.trace, self.wlog, dict(self.regs)
        s.depth = self.depth
        return s

    def assume(self, *fs):
        for f in fs:
            if z3.is_true(f): continue
            self.facts = (self.facts, f)

    def factlist(self):
        out = []
        x = self.facts
        while x:
            out.append(x[1]); x = x[0]
        out.reverse()
        return out


# ------------------------------------------------------------------ solver front end
class Prover:
    """one incremental z3 context following the path stack"""

    def __init__(self, timeout_ms=20000):
        self.s = z3.SolverFor('QF_UFBV')
        self.stack = []
        self.timeout = timeout_ms
        self.nq = 0
        self.time = 0.0
        self.last_model = None
        self.logic = 'QF_UFBV'

    def sync(self, facts):
        chain = []
        x = facts
        while x:
            chain.append(x); x = x[0]
        chain.reverse()
        k = 0
        while k < len(chain) and k < len(self.stack) and self.stack[k] is chain[k]:
            k += 1
        if k < len(self.stack):
            self.s.pop(len(self.stack) - k)
            del self.stack[k:]
        for c in chain[k:]:
            self.s.push(); self.s.add(c[1]); self.stack.append(c)

    def check(self, facts, *extra, timeout=None, model=False):
        """-> 'sat' | 'unsat' | 'unknown'"""
        t = time.time()
        self.sync(facts)
        self.s.set('timeout', timeout or self.timeout)
        self.s.push()
        for e in extra: self.s.add(e)
        r = self.s.check()
        self.last_model = None
        if r == z3.sat and model:
            self.last_model = self.s.model()
        self.s.pop()
        self.nq += 1
        self.time += time.time() - t
        return str(r)

    def check_fresh(self, facts, *extra, timeout=None, model=False, logic='QF_UFBV'):
        """non-incremental (full preprocessing) check"""
        t = time.time()
        s = z3.SolverFor(logic) if logic else z3.Solver()
        s.set('timeout', timeout or self.timeout)
        x = facts
        fl = []
        while x:
            fl.append(x[1]); x = x[0]
        s.add(fl[::-1])
        s.add(*extra)
        r = s.check()
        self.last_model = s.model() if (r == z3.sat and model) else None
        self.nq += 1
        self.time += time.time() - t
        return str(r)


class Oblig:
    def __init__(self, name, where, status, t, detail=''):
        self.name, self.where, self.status, self.t, self.detail = name, where, status, t, detail


class Fail(Exception):
    def __init__(self, ob):
        self.ob = ob


class PathEnd(Exception):
    pass
