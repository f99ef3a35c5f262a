"""SIMD control groups (flat_map_group15/16) against their scalar meaning; probe sequence step"""
from dv.ctx import Check
from dv import build, scalar
from dv.sym import *
from dv.scalar import MFn


def anyp(*a): return TRUE


def same_except(old, new, pred):
    """[(name, goal)]: byte j of the group unchanged unless pred(j)"""
    return ('frame', And(*[Or(pred(j), Eq(new[0][j], old[0][j])) for j in range(16)]))


def fns():
    out = []
    B = ('buf', 16)
    def F(n, args, ret, pre, post): out.append(MFn(n, args, ret, pre, post))
    ro = lambda o, n: ('reads only', And(*[Eq(n[0][j], o[0][j]) for j in range(16)]))
    for P, W in (('g15', 15), ('g16', 16)):
        hv = (lambda b: b) if P == 'g15' else (lambda b: b & 0x7F)
        def red(h, P=P):
            if P == 'g15':
                l = extract(7, 0, h)
                return If(l == 0, bv(8, 8), If(l == 1, bv(9, 8), l))
            l = extract(7, 0, h) & 0x7F
            return If(l == 0, bv(8, 8), l)
        inpos = lambda g, pos, *r, W=W: z3.ULT(pos, bv(W))
        pick = lambda bs, pos: _pick(bs, pos)
        F(P + '_init', [B], 0, anyp, lambda o, n, r: [('all empty', And(*[n[0][j] == 0 for j in range(16)]))])
        F(P + '_is_empty', [B, 64], 1, inpos, lambda o, n, r, hv=hv: [('value', (r == 1) == (hv(_pick(o[0], o[1])) == 0)), ro(o, n)])
        F(P + '_is_used', [B, 64], 1, inpos, lambda o, n, r, hv=hv: [('value', (r == 1) == (hv(_pick(o[0], o[1])) != 0)), ro(o, n)])
        F(P + '_is_equals', [B, 64, 64], 1, inpos, lambda o, n, r, hv=hv: [('value', (r == 1) == (hv(_pick(o[0], o[1])) == extract(7, 0, o[2]))), ro(o, n)])
        if P == 'g15':
            ov = lambda o: z3.LShR(o[0][15], zext(extract(2, 0, o[1]), 8)) & 1 == 1
        else:
            ov = lambda o: _pick(o[0], o[1] & 15) & 0x80 != 0
        F(P + '_is_overflow', [B, 64], 1, anyp, lambda o, n, r, ov=ov: [('value', (r == 1) == ov(o)), ro(o, n)])
        F(P + '_is_not_overflow', [B, 64], 1, anyp, lambda o, n, r, ov=ov: [('value', (r == 0) == ov(o)), ro(o, n)])
        if P == 'g15':
            anyov = lambda o: o[0][15] != 0
        else:
            anyov = lambda o: Or(*[b & 0x80 != 0 for b in o[0]])
        F(P + '_has_any_overflow', [B], 1, anyp, lambda o, n, r, anyov=anyov: [('value', (r == 1) == anyov(o)), ro(o, n)])
        keep = (lambda b: bv(0, 8)) if P == 'g15' else (lambda b: b & 0x80)
        upd = lambda o, n, val: [('byte', And(*[Eq(n[0][j], If(o[1] == j, val(o[0][j]), o[0][j])) for j in range(16)]))]
        F(P + '_set_empty', [B, 64], 0, inpos, lambda o, n, r, keep=keep, upd=upd: upd(o, n, keep))
        F(P + '_set_used', [B, 64, 64], 0, lambda g, pos, h, W=W: And(z3.ULT(pos, bv(W)), z3.UGT(h, 1), z3.ULT(h, 256 if W == 15 else 128)),
          lambda o, n, r, keep=keep, upd=upd: upd(o, n, lambda b: keep(b) | extract(7, 0, o[2])))
        if P == 'g15':
            F(P + '_set_overflow', [B, 64], 0, anyp, lambda o, n, r: [('bit', And(
                Eq(n[0][15], o[0][15] | (bv(1, 8) << zext(extract(2, 0, o[1]), 8))), *[Eq(n[0][j], o[0][j]) for j in range(15)]))])
        else:
            F(P + '_set_overflow', [B, 64], 0, anyp, lambda o, n, r: [('bit', And(*[Eq(n[0][j], If(o[1] & 15 == j, o[0][j] | 0x80, o[0][j])) for j in range(16)]))])
        def mask(o, r, pred, W=W):
            return [('mask', And(*([Eq(bit(r, j), pred(o[0][j])) for j in range(W)] + [extract(31, W, r) == 0])))]
        F(P + '_match_empty', [B], 32, anyp, lambda o, n, r, hv=hv, mask=mask: mask(o, r, lambda b: hv(b) == 0) + [ro(o, n)])
        F(P + '_match_used', [B], 32, anyp, lambda o, n, r, hv=hv, mask=mask: mask(o, r, lambda b: hv(b) != 0) + [ro(o, n)])
        for nm in ('_match_hash', '_match_hashbits'):
            F(P + nm, [B, 64], 32, anyp, lambda o, n, r, hv=hv, mask=mask, red=red: mask(o, r, lambda b: hv(b) == red(o[1])) + [ro(o, n)])
        F(P + '_reduced', [64], 8, anyp, lambda o, n, r, red=red, P=P: [('value', r == red(o[0])), ('not reserved', z3.UGT(r, 1) if P == 'g15' else And(r != 0, z3.ULT(r, 128)))])
        F(P + '_repeated', [64], 32, anyp, lambda o, n, r, red=red: [('value', And(*[extract(8 * i + 7, 8 * i, r) == red(o[0]) for i in range(4)]))])
        if P == 'g15':
            F('g15_set_used64', [B, 64, 64], 0, lambda g, pos, h: And(z3.ULT(pos, bv(15)), z3.UGT(h & 255, 1)), lambda o, n, r, upd=upd: upd(o, n, lambda b: extract(7, 0, o[2])))
            F('g15_is_equals64', [B, 64, 64], 1, inpos, lambda o, n, r: [('value', (r == 1) == (zext(_pick(o[0], o[1]), 64) == o[2])), ro(o, n)])
            F('g15_set_sentinel', [B], 0, anyp, lambda o, n, r: [('byte', And(n[0][14] == 1, *[Eq(n[0][j], o[0][j]) for j in range(16) if j != 14]))])
            F('g15_is_sentinel', [B, 64], 1, inpos, lambda o, n, r: [('value', (r == 1) == (_pick(o[0], o[1]) == 1)), ro(o, n)])
            F('g15_is_valid', [B, 64], 1, inpos, lambda o, n, r: [('value', (r == 1) == z3.UGT(_pick(o[0], o[1]), 1)), ro(o, n)])
            F('g15_clear_overflow', [B], 0, anyp, lambda o, n, r: [('byte', And(n[0][15] == 0, *[Eq(n[0][j], o[0][j]) for j in range(15)]))])
        else:
            F('g16_set_used_strict', [B, 64, 64], 0, lambda g, pos, h: And(z3.ULT(pos, bv(16)), h & 127 != 0), lambda o, n, r, keep=keep, upd=upd: upd(o, n, lambda b: keep(b) | (extract(7, 0, o[2]) & 127)))
            F('g16_match_empty_m', [B], 32, anyp, lambda o, n, r, hv=hv, mask=mask: mask(o, r, lambda b: hv(b) == 0) + [ro(o, n)])
            F('g16_match_used_m', [B], 32, anyp, lambda o, n, r, hv=hv, mask=mask: mask(o, r, lambda b: hv(b) != 0) + [ro(o, n)])
            for nm in ('_match_hash_m', '_match_hash_hm'):
                F(P + nm, [B, 64], 32, anyp, lambda o, n, r, hv=hv, mask=mask, red=red: mask(o, r, lambda b: hv(b) == red(o[1])) + [ro(o, n)])
    def u64(bs, i): return concat(list(reversed(bs[i:i + 8])))
    F('prober_step', [64, 64, 64, ('buf', 40)], 0, lambda i, s, m, b: And((m & (m + 1)) == 0, z3.ULE(s, m), z3.ULE(i, m)),
      lambda o, n, r: [('step', u64(n[3], 8) == o[1] + 1), ('index', u64(n[3], 0) == ((o[0] + o[1] + 1) & o[2])),
                       ('length', u64(n[3], 24) == o[1] + 2), ('more', (n[3][32] == 1) == z3.ULE(o[1] + 1, o[2]))])
    F('prober_start', [64, ('buf', 40)], 0, anyp, lambda o, n, r: [('start', And(u64(n[1], 0) == o[0], u64(n[1], 8) == 0, u64(n[1], 24) == 1))])
    return out


def _pick(bs, pos):
    e = bs[0]
    for j in range(1, len(bs)): e = If(pos == j, bs[j], e)
    return e


def check():
    c = Check('B02')
    mod = build.compile_ir('groups.cpp')
    F = fns()
    k = 7
    for i in range(k):
        part = F[i::k]
        c.target('group-ops/%d' % i, lambda T, part=part: [scalar.verify_m(T, mod, f) for f in part])
    c.replays.append(('native', scalar.replay_m('groups.cpp', F)))
    return c
