"""Power-of-two arithmetic (jstd/support/Power2.h) and bit primitives (jstd/support/BitUtils.h)"""
from dv.ctx import Check
from dv import build, scalar
from dv.sym import *
from dv.scalar import Fn

T_ = lambda *a: TRUE
nz = lambda x: x != 0


def isp2(x): return And(x != 0, (x & (x - 1)) == 0)


def fns():
    out = []
    for S, w in (('u32', 32), ('u64', 64)):
        one, top = bv(1, w), bv(1 << (w - 1), w)
        le = lambda a, b: z3.ULE(a, b)
        lt = lambda a, b: z3.ULT(a, b)
        h32 = lambda r, w=w: zext(r, w) if r.size() < w else r
        F = lambda n, r, pre, post, w=w, S=S: out.append(Fn(n + '_' + S, [w], r, pre, post))
        F('is_pow2', 1, T_, lambda x, r, isp=isp2: (r == 1) == Or(x == 0, isp(x)))
        F('clear_low_bit', w, T_, lambda x, r: r == (x & (x - 1)))
        F('bitScanForward', 32, nz, lambda x, r, w=w: zext(r, 64) == zext(cttz(x), 64))
        F('bitScanReverse', 32, nz, lambda x, r, w=w: zext(r, 64) == bv(w - 1) - zext(ctlz(x), 64))
        F('countTrailingZeros', 32, T_, lambda x, r: zext(r, 64) == zext(cttz(x), 64))
        F('countLeadingZeros', 32, T_, lambda x, r: zext(r, 64) == zext(ctlz(x), 64))
        # largest power of two <= x / < x ; smallest >= x / > x
        F('round_to', w, T_, lambda x, r: If(x == 0, r == 0, And(isp2(r), z3.ULE(r, x), z3.ULT(z3.LShR(x, 1), r))))
        F('round_down', w, T_, lambda x, r: If(z3.ULE(x, 1), r == 0, And(isp2(r), z3.ULT(r, x), z3.ULT(z3.LShR(x - 1, 1), r))))
        F('prev_pow2', w, T_, lambda x, r: If(z3.ULE(x, 1), r == 0, And(isp2(r), z3.ULE(r, z3.LShR(x, 1)), z3.ULT(z3.LShR(x, 2), r))))
        F('round_up', w, lambda x, top=top: z3.ULE(x, top), lambda x, r: If(x == 0, r == 0, And(isp2(r), z3.ULE(x, r), z3.ULT(z3.LShR(r, 1), x))))
        F('next_pow2', w, lambda x, top=top: z3.ULT(x, top), lambda x, r: And(isp2(r), z3.ULT(x, r), z3.ULE(z3.LShR(r, 1), x)))
        F('log2_int', w, lambda x, top=top: z3.ULE(x, top), lambda x, r, w=w: If(z3.ULE(x, 1), r == 0,
          And(z3.ULT(r, bv(w, w)), z3.ULE(x, bv(1, w) << r), z3.ULT(bv(1, w) << (r - 1), x))))
    out.append(Fn('round_up4_u64', [64], 64, lambda x: And(z3.ULE(bv(4), x), z3.ULE(x, bv(1 << 63))),
                  lambda x, r: And(isp2(r), z3.ULE(x, r), z3.ULT(z3.LShR(r, 1), x))))
    pc = lambda x, r: zext(r, 64) == zext(ctpop(x), 64)
    ct = lambda x, r: zext(r, 64) == zext(cttz(x), 64)
    cl = lambda x, r: zext(r, 64) == zext(ctlz(x), 64)
    bsr = lambda x, r: zext(r, 64) == bv(x.size() - 1) - zext(ctlz(x), 64)
    A = lambda n, w, r, pre, post: out.append(Fn(n, [w], r, pre, post))
    for n in ('i_popcnt', 'i_popcnt_slow', 'i_hakmem', 'popcnt32'): A(n, 32, 32, T_, pc)
    for n in ('i_popcnt64', 'popcnt64', 'popcnt_'): A(n, 64, 32, T_, pc)
    A('i_clz', 32, 32, T_, cl); A('i_clzll', 64, 32, T_, cl); A('clz32', 32, 32, T_, cl); A('clz64', 64, 32, T_, cl); A('clz_', 64, 32, T_, cl)
    A('i_ctz', 32, 32, nz, ct); A('i_ctzll', 64, 32, nz, ct); A('ctz32', 32, 32, T_, ct); A('ctz64', 64, 32, T_, ct); A('ctz_', 64, 32, T_, ct)
    A('bsf32', 32, 32, nz, ct); A('bsf64', 64, 32, nz, ct); A('bsf_', 64, 32, nz, ct)
    A('bsr32', 32, 32, nz, bsr); A('bsr64', 64, 32, nz, bsr); A('bsr_', 64, 32, nz, bsr)
    ls = lambda x, r: And((r & ~x) == 0, (r & (r - 1)) == 0, (r == 0) == (x == 0), (x & (r - 1)) == If(x == 0, x, bv(0, x.size())))
    ms = lambda x, r: If(x == 0, r == 0, And((r & ~x) == 0, (r & (r - 1)) == 0, r != 0, z3.ULT(z3.LShR(x, 1), r)))
    for n, w in (('ls1b32', 32), ('ls1b64', 64), ('ls1b_', 64)): A(n, w, w, T_, ls)
    for n, w in (('ms1b32', 32), ('ms1b64', 64), ('ms1b_', 64)): A(n, w, w, T_, ms)
    for n, w in (('clow32', 32), ('clow64', 64), ('clow_', 64)): A(n, w, w, T_, lambda x, r: r == (x & (x - 1)))
    lg = lambda x, r: And(z3.ULE(r, bv(r.size(), r.size())), z3.ULE(x - 1, (bv(1, r.size()) << r) - 1), z3.ULE(bv(1, r.size()) << (r - 1), x - 1))
    for n, w in (('log2_32', 32), ('log2_64', 64), ('log2_', 64)): A(n, w, w, lambda x: z3.UGT(x, 1), lg)
    return out


def check():
    c = Check('B01')
    mod = build.compile_ir('bits.cpp')
    F = fns()
    k = 6
    for i in range(k):
        part = F[i::k]
        c.target('bits/%d' % i, lambda T, part=part: [scalar.verify(T, mod, f) for f in part])
    c.replays.append(('native', scalar.replay('bits.cpp', F)))
    return c
