"""verification targets for the group15/group16 maps (shared by the M* checks)"""
import functools
import z3
from dv.sym import *
from dv import build
from dv.exe import Engine, Cand, MemSchema, tofp
from dv.swiss import Geo, SwissTheory, Snap, compile_mod


class Env:
    def __init__(self, T, kind, entry='alloc', defs=(), others=(), any_thr=False):
        self.T, self.kind, self.ek = T, kind, entry
        self.geo = Geo(kind)
        self.mod = compile_mod(self.geo, defs)
        self.th = SwissTheory(self.geo, self.mod)
        self.eng = T.engine(self.mod, self.th)
        self.th.tracked = 'TRACKED' in defs
        self.th.bind(self.eng)
        self.st = St()
        self.t = self.th.entry(self.st, 'T', entry, any_thr) if entry else None
        self.others = {nm: self.th.entry(self.st, nm, e) for nm, e in others}
        self.eng.assumed.add('element type u64 -> u64 with an arbitrary pure hash function (other element types: bounded stand-in)')
        for a in ('operator new returns a fresh aligned block below 2^57, or throws; requested capacities up to 2^50 (rehash_impl: 2^54)',
                  'the counting and probe-sequence facts used are instances of the theorems in lemmas/Swiss.lean (Lean; checked by M02, M04, M06, M07); that each instance matches its theorem is by inspection',
                  'LLVM IR: two\'s complement arithmetic; nsw/nuw/noalias/tbaa hints are ignored'):
            self.eng.assumed.add(a)
        self.ks = z3.BitVec('focus.k', 64)       # an arbitrary key
        self.qs = z3.BitVec('focus.q', 64)
        self.gs = z3.BitVec('focus.g', 64)
        self.ps = z3.BitVec('focus.p', 4)

    def run(self, fn, args):
        f = self.mod.func('@' + fn)
        if f is None: raise EngineError('function under contract missing: ' + fn)
        if self.eng.pv.check(self.st.facts) == 'unsat': raise EngineError('precondition unsatisfiable')
        n = 0
        for o in self.eng.run(f, args, self.st):
            n += 1
            if o[0] == 'ret':
                self.th.at_cut(o[1], self.eng)
            yield o
        if not n: raise EngineError('no path of %s returns' % fn)

    def obj(self): return Ptr('T', Aff())


def lookup(kind, entry, fn):
    """find family: decides membership and returns the element's own slot"""
    def go(T):
        E = Env(T, kind, entry)
        eng, t = E.eng, E.t
        k = z3.BitVec('k', 64)
        E.th.keys.append(k)
        args = [E.obj(), k]
        for o in E.run(fn, args):
            st = o[1]
            has = t.has(st, k)
            st.assume(t.A(st, k))
            if o[0] == 'throw':
                eng.oblige(st, '%s throws only if the key is absent' % fn, And(Not(has), z3.BoolVal(fn in ('op_at', 'op_cat'))), fn); continue
            r = o[2]
            if fn == 'op_contains': goal = (r == has)
            elif fn == 'op_count': goal = (r == If(has, bv(1), bv(0)))
            elif r.reg is None and r.off.const() == 0: goal = And(Not(has), z3.BoolVal(fn not in ('op_at', 'op_cat')))
            elif t.S is not None and r.reg == t.S:
                at = Aff()
                W = 15 if kind == 15 else 16
                lin = (t.lg(st, k) * bv(W) + zext(t.lp(st, k), 64)) * bv(16) + bv(8 if fn in ('op_at', 'op_cat') else 0)
                goal = And(has, r.off.bv() == lin)
            else: goal = FALSE
            eng.oblige(st, '%s: found exactly if present, at the element of that key' % fn, goal, fn)
            for rn in (t.G, t.S):
                if rn: eng.oblige(st, '%s changes nothing' % fn, z3.BoolVal(st.mem[rn] is E.st.mem[rn] or not st.mem[rn].writes), fn)
    return go


LOOKUPS = ('op_find', 'op_cfind', 'op_contains', 'op_count', 'op_at', 'op_cat')


def val_of(t, st, k): return t.val(st, t.lg(st, k), t.lp(st, k))


def post_view(E, st, n, k0, tag, kept, fn):
    """the other keys keep membership and value; `kept`: also their place"""
    eng, t, ks = E.eng, E.t, E.ks
    h0 = FALSE if t.empty else t.has(st, ks)
    k0 = z3.BitVec("nokey", 64) if k0 is None else k0
    if not t.empty: st.assume(t.A(st, ks), Implies(t.has(st, ks), t.size != 0))      # size counts the elements (lemma counting)
    eng.oblige(st, tag + ': every other key keeps its membership', Implies(ks != k0, (FALSE if n.empty else n.has(st, ks)) == h0), fn)
    if t.empty or n.empty: return
    eng.oblige(st, tag + ': every other element keeps its value', Implies(And(ks != k0, h0), val_of(n, st, ks) == val_of(t, st, ks)), fn)
    if kept and n.G == t.G:
        eng.oblige(st, tag + ': every other element keeps its place', Implies(And(ks != k0, h0), And(n.lg(st, ks) == t.lg(st, ks), n.lp(st, ks) == t.lp(st, ks))), fn)


def slot_off(n, st, k, plus=0):
    W = 15 if n.th.geo.kind == 15 else 16
    return (n.lg(st, k) * bv(W) + zext(n.lp(st, k), 64)) * bv(16) + bv(plus)


def insertion(kind, entry, fn):
    """emplace / try_emplace / insert / insert_or_assign / operator[]"""
    def go(T):
        E = Env(T, kind, entry)
        eng, t, th = E.eng, E.t, E.th
        k, v = z3.BitVec('k', 64), z3.BitVec('v', 64)
        th.keys.append(k)
        st = E.st
        rr = Region('R', 16, 'obj'); st.regs['R'] = rr; st.mem['R'] = ObjMem()
        if fn in ('op_insert', 'op_insert_rv'):
            kv = Region('KV', 16, 'obj'); st.regs['KV'] = kv
            st.mem['KV'] = ObjMem({0: (8, k), 8: (8, v)})
            args = [E.obj(), Ptr('KV', Aff()), Ptr('R', Aff())]
        elif fn == 'op_subscript': args = [E.obj(), k]
        else: args = [E.obj(), k, v, Ptr('R', Aff())]
        for o in E.run(fn, args):
            s = o[1]
            h0 = FALSE if t.empty else t.has(s, k)
            if o[0] == 'throw':
                n = th.oblige_rep(s, 'T', 'after an allocation failure', fn)
                post_view(E, s, n, None, 'after an allocation failure', True, fn)
                continue
            n = th.oblige_rep(s, 'T', 'RepInv', fn)
            if n.empty:
                eng.oblige(s, fn + ': the element is in the table', FALSE, fn); continue
            if fn == 'op_subscript': p, ins = o[2], None
            else:
                p = eng.obj_load(s, s.regs['R'], s.mem['R'], 0, 8, 'R')
                ins = bit(eng.obj_load(s, s.regs['R'], s.mem['R'], 8, 1, 'R'), 0)
            eng.oblige(s, fn + ': the key is present afterwards', n.has(s, k), fn)
            okp = isinstance(p, Ptr) and p.reg == n.S
            eng.oblige(s, fn + ': result refers to the element of that key', And(z3.BoolVal(okp), (p.off.bv() == slot_off(n, s, k, 8 if fn == 'op_subscript' else 0)) if okp else FALSE), fn)
            if ins is not None: eng.oblige(s, fn + ': reports insertion exactly if the key was absent', ins == Not(h0), fn)
            new = {'op_subscript': bv(0)}.get(fn, v)
            if fn == 'op_insert_or_assign': want = v
            else: want = new if t.empty else If(h0, val_of(t, s, k), new)
            eng.oblige(s, fn + ': value of the element (an existing element keeps its value except in insert_or_assign)', val_of(n, s, k) == want, fn)
            eng.oblige(s, fn + ': size grows by one exactly on insertion', n.size == t.size + If(h0, bv(0), bv(1)), fn)
            post_view(E, s, n, k, fn, True, fn)
    return go


INSERTS = ('op_emplace', 'op_try_emplace', 'op_insert', 'op_insert_rv', 'op_insert_or_assign', 'op_subscript')


def erasure(kind, entry, fn):
    def go(T):
        E = Env(T, kind, entry)
        eng, t, th = E.eng, E.t, E.th
        k = z3.BitVec('k', 64)
        th.keys.append(k)
        for o in E.run(fn, [E.obj(), k]):
            s = o[1]
            h0 = FALSE if t.empty else t.has(s, k)
            if o[0] == 'throw':
                eng.oblige(s, fn + ' does not throw', FALSE, fn); continue
            n = th.oblige_rep(s, 'T', 'RepInv', fn)
            eng.oblige(s, fn + ': returns the number of erased elements', o[2] == If(h0, bv(1), bv(0)), fn)
            eng.oblige(s, fn + ': the key is absent afterwards', TRUE if n.empty else Not(n.has(s, k)), fn)
            eng.oblige(s, fn + ': size shrinks by the number of erased elements', n.size == t.size - If(h0, bv(1), bv(0)), fn)
            post_view(E, s, n, k, fn, True, fn)
    return go


def leak_free(E, st, fn, tag='', owners=('T',)):
    """every table array allocated or owned on entry that no object points to has been freed"""
    eng, th = E.eng, E.th
    kept = [th.asptr(th.fld(st, o, 'slots')).reg for o in owners]
    for t in th.all_tables(st):
        if t.S is None or t.S in kept: continue
        for r in ((t.S,) if th.geo.kind == 15 else (t.G, t.S)):
            if st.regs[r].heap or ('heap', r) in st.g:
                eng.oblige(st, fn + ': arrays that are no longer used are freed' + tag, z3.BoolVal(('freed', r) in st.g), fn)


def rehash_body(kind, entry, shrink):
    """rehash_impl against its contract (the one the insertions and reserve/rehash/shrink_to_fit rely on)"""
    def go(T):
        E = Env(T, kind, entry, any_thr=True)
        eng, t, th = E.eng, E.t, E.th
        th.rehash_by_contract = False
        th.alloc_fails = th.follow_unwind = True
        want = z3.BitVec('want', 64)
        fn = 'rehash_impl<%s>' % ('true' if shrink else 'false')
        f = [x for x in E.mod.functext if 'rehash_implILb%d' % (1 if shrink else 0) in x]
        if len(f) != 1: raise EngineError('function under contract missing: ' + fn)
        st = E.st
        st.assume(z3.ULE(want, bv(1 << 54)))
        need = eng.named(st, th.need(want, t.size), 'need')
        capold = bv(0) if (t.empty and kind == 16) else th.cap(t)
        if shrink: st.assume(th.rehash_pre(want, t.size))
        for o in E.run(f[0][1:], [E.obj(), want]):
            s = o[1]
            thrown = o[0] == 'throw'
            tag = fn + (': after an allocation failure' if thrown else '')
            n = th.oblige_rep(s, 'T', tag, fn, any_thr=True)
            leak_free(E, s, fn, ' (after an allocation failure)' if thrown else '')
            post_view(E, s, n, None, tag, True, fn)
            eng.oblige(s, tag + ': the size is unchanged', n.size == t.size, fn)
            eng.oblige(s, tag + ': the load factor is unchanged', n.mlf == t.mlf, fn)
            if thrown:
                eng.oblige(s, tag + ': the table is unchanged', z3.BoolVal(n.G == t.G), fn)
                if not n.empty: eng.oblige(s, tag + ': the threshold is unchanged', n.thr == t.thr, fn)
                continue
            if n.G == t.G:
                eng.oblige(s, fn + ': an unchanged table was large enough', z3.ULE(need, capold), fn)
                if shrink: eng.oblige(s, fn + ': an unchanged table was not too large', z3.ULT(capold, need << bv(1)), fn)
                if not n.empty: eng.oblige(s, fn + ': an unchanged table keeps its threshold', n.thr == t.thr, fn)
            else:
                eng.oblige(s, fn + ': the capacity is large enough, and no larger than needed', And(z3.UGE(th.cap(n), need), z3.ULT(th.cap(n), need << bv(1))), fn)
                eng.oblige(s, fn + ': the threshold is the load limit', n.thr == th.thrmax(s, n), fn)
                eng.oblige(s, fn + ': the table is replaced only if its capacity does not suit', Not(And(z3.ULE(need, capold), z3.ULT(capold, need << bv(1)))) if shrink else z3.UGT(need, capold), fn)
    return go


def resizing(kind, entry, fn):
    """rehash(n) / reserve(n) / shrink_to_fit()"""
    def go(T):
        E = Env(T, kind, entry)
        eng, t, th = E.eng, E.t, E.th
        st = E.st
        want = z3.BitVec('want', 64)
        st.assume(z3.ULE(want, bv(1 << 50)))
        args = [E.obj()] if fn == 'op_shrink' else [E.obj(), want]

        for o in E.run(fn, args):
            s = o[1]
            thrown = o[0] == 'throw'
            tag = fn + (': after an allocation failure' if thrown else '')
            n = th.oblige_rep(s, 'T', tag, fn)
            post_view(E, s, n, None, tag, True, fn)
            leak_free(E, s, fn)
            eng.oblige(s, tag + ': the size is unchanged', n.size == t.size, fn)
            eng.oblige(s, tag + ': the load factor is unchanged', n.mlf == t.mlf, fn)
            if thrown: eng.oblige(s, tag + ': the table is unchanged', z3.BoolVal(n.G == t.G), fn); continue
            if n.empty:
                eng.oblige(s, fn + ': the table is given up only if it is empty and no room is requested', And(t.size == 0, TRUE if fn == 'op_shrink' else want == 0), fn)
                continue
            cap, thm = th.cap(n), th.thrmax(s, n)
            if n.G != t.G and fn == 'op_reserve':
                lemma_reserve(E, s, n, t.size)
                eng.oblige(s, fn + ': the elements are within the load limit of the new table', z3.ULE(t.size, thm), fn)
            if fn == 'op_rehash':
                eng.oblige(s, fn + ': at least the requested number of buckets', z3.UGE(cap, want), fn)
                eng.oblige(s, fn + ': room for the elements', z3.ULE(n.size, th.slotcap(n)), fn)
            elif fn == 'op_reserve':


                
                lemma_reserve(E, s, n, want)
                eng.oblige(s, fn + ': the load limit allows for the requested number of elements', z3.UGE(thm, want), fn)
                if n.G != t.G: eng.oblige(s, fn + ': so many elements fit without another rehash', z3.UGE(n.thr, want), fn)
            else:
                d = th.divmlf(t.size << bv(8), t.mlf)
                eng.oblige(s, fn + ': the capacity is the smallest suitable', Or(cap == 32, z3.ULT(cap, th.need(d, t.size) << bv(1))), fn)
    return go


def lemma_reserve(E, s, n, want):
    """instances of the lemmas load-monotone and load-reserve (proved in M04 'lemmas') for the capacities involved"""
    th, t = E.th, E.t
    W = lambda c: c if E.geo.kind == 16 else z3.LShR(c, bv(4)) * bv(15) - 1
    cap = th.cap(n)
    d = th.divmlf(want << bv(8), t.mlf)
    f = lambda c: If(z3.UGT(W(c), bv(32)), z3.LShR(th.mulmlf(W(c), t.mlf), bv(8)), W(c))
    # every smaller capacity has no larger limit (load-monotone); twice any capacity >= want*256/mlf is enough (load-reserve)
    muls = [x for x in s.g.get('mlfmul', ())]
    for x in muls: s.assume(Implies(z3.ULE(x, W(cap)), z3.ULE(th.mulmlf(x, t.mlf), th.mulmlf(W(cap), t.mlf))))
    half = z3.LShR(cap, bv(1))
    s.assume(Implies(And(z3.UGE(half, d), z3.UGE(half, bv(32))), z3.UGE(f(cap), want)))


# ------------------------------------------------------------------ iteration
def iter_obj(st, name):
    st.regs[name] = Region(name, 16, 'obj'); st.mem[name] = ObjMem()
    return Ptr(name, Aff())


def iter_put(E, st, name, g, p):
    """an iterator at position (g,p) of the table; g None: end()"""
    t = E.t
    if E.geo.kind == 15:
        c, s = (NULL, NULL) if g is None else (Ptr(t.G, aff_of(g).scale(16).add(aff_of(zext(p, 64)))), Ptr(t.S, aff_of(g).scale(240).add(aff_of(zext(p, 64)).scale(16))))
        d = {0: (8, c), 8: (8, s)}
    else:
        i = E.th.fld(st, 'T', 'slot_mask') + 1 if g is None else g * bv(16) + zext(p, 64)
        d = {0: (8, E.obj()), 8: (8, i)}
    st.regs[name] = Region(name, 16, 'obj'); st.mem[name] = ObjMem(d)
    return Ptr(name, Aff())


def iter_get(E, st, name):
    """(is_end, position as 16g+p, well-formed) of the iterator object"""
    eng, th, t = E.eng, E.th, E.t
    if E.geo.kind == 15:
        c = th.asptr(eng.obj_load(st, st.regs[name], st.mem[name], 0, 8, 'I'))
        s = th.asptr(eng.obj_load(st, st.regs[name], st.mem[name], 8, 8, 'I'))
        if s.reg is None: return s.off.bv() == 0, bv(0), s.off.bv() == 0
        if c.reg != t.G or s.reg != t.S: return FALSE, bv(0), FALSE
        return FALSE, c.off.bv(), (c, s)
    m = th.asptr(eng.obj_load(st, st.regs[name], st.mem[name], 0, 8, 'I'))
    i = eng.obj_load(st, st.regs[name], st.mem[name], 8, 8, 'I')
    i = i if isinstance(i, z3.BitVecRef) else bv(0)
    sm = th.fld(st, 'T', 'slot_mask')
    return i == sm + 1, i, z3.BoolVal(m.reg == 'T' and m.off.const() == 0)


def walk_result(E, s, name, lo, fn):
    """the iterator is at the first used position >= lo, or at the end if there is none"""
    eng, th, t = E.eng, E.th, E.t
    end, at, ok = iter_get(E, s, name)
    _, _, g, p = th.focus
    if isinstance(ok, tuple):
        c, sl = ok
        # slot offset = (15*(at/16) + at%16)*16 = 16*at - (at & ~15)
        ok = aff_of(at).scale(16).add(sl.off, -1).bv() == at & bv(-16)
    eng.oblige(s, fn + ': the iterator is well-formed', ok, fn)
    if t.empty:
        eng.oblige(s, fn + ': an empty map has no first element', end, fn); return
    g0, p0 = fresh('g.at'), fresh('p.at', 4)
    s.assume(Implies(Not(end), And(g0 == z3.LShR(at, bv(4)), p0 == extract(3, 0, at))))
    s2 = s.fork(); s2.assume(Not(end))
    if eng.feasible(s, Not(end)):
        eng.oblige(s2, fn + ': the iterator is at an element', And(t.valid_pos(g0, p0), E.geo.used(t.ctrl(s2, g0, p0))), fn)
        eng.oblige(s2, fn + ': it moves forward', z3.UGE(at, lo), fn)
    lf = th.lin(g, p)
    s.assume(t.C(s, g, p))
    k = t.key(s, g, p)
    s.assume(Implies(t.has(s, k), t.size != 0))         # size counts the elements (lemma counting)
    eng.oblige(s, fn + ': no element is skipped', Implies(And(t.valid_pos(g, p), z3.ULE(lo, lf), Or(end, z3.ULT(lf, at))), E.geo.empty(t.ctrl(s, g, p))), fn)


def unchanged(E, s, fn):
    t = E.t
    for rn in (t.G, t.S):
        if rn: E.eng.oblige(s, fn + ' changes nothing', z3.BoolVal(s.mem[rn] is E.st.mem[rn] or not s.mem[rn].writes), fn)


def spare(E, t):
    if E.geo.kind == 16 and t.S is not None:
        # the group array has 16 spare bytes (proved for create_slots in M04); the scan may look at the first of them
        E.st.regs[t.G].inb = lambda d: Or(z3.ULE(d[0], t.mask), And(d[0] == t.mask + 1, d[1] == 0))
    if E.geo.kind == 15 and t.S is not None: E.st.assume(t.ctrl(E.st, t.mask, bv(14, 4)) == 1)        # D


def iterating(kind, entry, fn):
    def go(T):
        E = Env(T, kind, entry)
        eng, t, th = E.eng, E.t, E.th
        st = E.st
        spare(E, t)
        it = iter_obj(st, 'I')
        if fn in ('op_begin', 'op_cbegin'):
            th.walk = (t, bv(0), None)
            for o in E.run(fn, [E.obj(), it]):
                if o[0] == 'throw': eng.oblige(o[1], fn + ' does not throw', FALSE, fn); continue
                walk_result(E, o[1], 'I', bv(0), fn); unchanged(E, o[1], fn)
        elif fn in ('op_next', 'op_nextc'):
            g0, p0 = z3.BitVec('g0', 64), z3.BitVec('p0', 4)
            st.assume(t.valid_pos(g0, p0), E.geo.used(t.ctrl(st, g0, p0)))
            it = iter_put(E, st, 'I', g0, p0)
            lo = th.lin(g0, p0) + 1
            th.walk = (t, lo, p0)
            for o in E.run(fn, [it]):
                if o[0] == 'throw': eng.oblige(o[1], fn + ' does not throw', FALSE, fn); continue
                walk_result(E, o[1], 'I', lo, fn); unchanged(E, o[1], fn)
        elif fn in ('op_end', 'op_cend'):
            for o in E.run(fn, [E.obj(), it]):
                end, at, ok = iter_get(E, o[1], 'I')
                eng.oblige(o[1], fn + ': past the last element', And(end, ok if not isinstance(ok, tuple) else FALSE), fn)
        elif fn in ('op_deref', 'op_derefc'):
            g0, p0 = z3.BitVec('g0', 64), z3.BitVec('p0', 4)
            st.assume(t.valid_pos(g0, p0), E.geo.used(t.ctrl(st, g0, p0)))
            it = iter_put(E, st, 'I', g0, p0)
            for o in E.run(fn, [it]):
                r = o[2]
                ok = isinstance(r, Ptr) and r.reg == t.S
                eng.oblige(o[1], fn + ': designates the element at the position of the iterator', And(z3.BoolVal(ok), r.off.bv() == (g0 * bv(E.geo.W) + zext(p0, 64)) * bv(16) if ok else FALSE), fn)
        elif fn in ('op_find_it', 'op_cfind_it'):
            k = z3.BitVec('k', 64); th.keys.append(k)
            for o in E.run(fn, [E.obj(), k, it]):
                s = o[1]; s.assume(t.A(s, k))
                end, at, ok = iter_get(E, s, 'I')
                if isinstance(ok, tuple): ok = ok[1].off.bv() == slot_off(t, s, k)
                eng.oblige(s, fn + ': the iterator is well-formed', ok, fn)
                eng.oblige(s, fn + ': end() exactly if the key is absent', end == Not(t.has(s, k)), fn)
                if not t.empty: eng.oblige(s, fn + ': iteration continues from the place of the element', Implies(t.has(s, k), at == th.lin(t.lg(s, k), t.lp(s, k))), fn)
        else:
            g0, p0, g1, p1 = z3.BitVec('g0', 64), z3.BitVec('p0', 4), z3.BitVec('g1', 64), z3.BitVec('p1', 4)
            for a, b in ((0, 0), (0, 1), (1, 1), (1, 0)):
                s0 = st.fork()
                s0.assume(t.valid_pos(g0, p0), t.valid_pos(g1, p1))
                if kind == 15:          # slot index = 15g+p determines g and p (lemma position-unique)
                    x0, x1 = [(z3.BitVec('g%d' % i, 64) * bv(15 * 16) + zext(z3.BitVec('p%d' % i, 4), 64) * bv(16)) for i in (0, 1)]
                    s0.assume((aff_of(x0).bv() == aff_of(x1).bv()) == And(g0 == g1, p0 == p1))
                x = iter_put(E, s0, 'I', g0 if a else None, p0); y = iter_put(E, s0, 'J', g1 if b else None, p1)
                E.st = s0
                for o in E.run(fn, [x, y]):
                    same = And(g0 == g1, p0 == p1) if a and b else z3.BoolVal(a == b)
                    eng.oblige(o[1], fn + ': equal exactly at the same position', (o[2] if z3.is_bool(o[2]) else bit(o[2], 0)) == (same if fn.startswith('op_iteq') else Not(same)), fn)
    return go


ITERS = ('op_begin', 'op_cbegin', 'op_end', 'op_cend', 'op_next', 'op_nextc', 'op_deref', 'op_derefc', 'op_find_it', 'op_cfind_it', 'op_iteq', 'op_itne', 'op_iteqc', 'op_itnec')


# ------------------------------------------------------------------ whole-map operations
def raw_obj(E, name='P'):
    """storage for an object that is constructed by the operation"""
    r = Region(name, 128, 'obj'); E.st.regs[name] = r; E.st.mem[name] = ObjMem()
    return Ptr(name, Aff())


def is_map(E, s, name, tag, fn, src, kept=False):
    """object `name` is a valid map with exactly the contents of the entry table src (None: no element); src and n are compared for an arbitrary key"""
    eng, th, ks = E.eng, E.th, E.ks
    n = th.oblige_rep(s, name, tag, fn)
    if src is not None and not src.empty: th.instances(s, ks)
    h0 = FALSE if src is None or src.empty else src.has(s, ks)
    if src is not None and not src.empty: s.assume(src.A(s, ks), Implies(src.has(s, ks), src.size != 0))     # size counts the elements (lemma counting)
    eng.oblige(s, tag + ': exactly the keys it should have', (FALSE if n.empty else n.has(s, ks)) == h0, fn)
    if src is not None and not src.empty and not n.empty:
        eng.oblige(s, tag + ': every element has its value', Implies(h0, val_of(n, s, ks) == val_of(src, s, ks)), fn)
    eng.oblige(s, tag + ': size', n.size == (bv(0) if src is None else src.size), fn)
    return n


def whole(kind, fn, e1, e2=None, alias=False, same_cap=False):
    """construct / destroy / clear / swap / copy / move / assign"""
    def go(T):
        ctor = fn in ('op_construct', 'op_default', 'op_copy', 'op_move')
        E = Env(T, kind, e1, others=[('U', e2)] if e2 else ())
        eng, th, t, st = E.eng, E.th, E.t, E.st
        u = E.others.get('U')
        th.alloc_fails = th.follow_unwind = True
        if e1 is None: th.empty_snap(st, 'empty', th.default_groups(st), bv(224))
        T_, U_ = E.obj(), Ptr('U', Aff())
        P_ = raw_obj(E) if ctor else None
        th.obj_name = 'P' if ctor else 'T'
        if fn == 'op_copy' and not t.empty:
            th.same_cap = same_cap
            if not same_cap: th.walk = (t, bv(0), None)
            spare(E, t)
        want = z3.BitVec('want', 64)
        st.assume(z3.ULE(want, bv(1 << 50)))
        args = {'op_construct': [P_, want], 'op_default': [P_], 'op_copy': [P_, T_], 'op_move': [P_, T_], 'op_destroy': [T_], 'op_clear': [T_]}.get(fn) or [T_, T_ if alias else U_]
        if fn == 'op_copy_assign': th.copy_from = 'T' if alias else 'U'; th.copy_ctor_contract = True
        for o in E.run(fn, args):
            s = o[1]
            thrown = o[0] == 'throw'
            if thrown and fn not in ('op_construct', 'op_default', 'op_copy', 'op_copy_assign'):
                eng.oblige(s, fn + ' does not throw', FALSE, fn); continue
            tag = fn + (': after an allocation failure' if thrown else '')
            if fn in ('op_construct', 'op_default'):
                if not thrown:
                    n = is_map(E, s, 'P', tag + ': the new map', fn, None)
                    eng.oblige(s, tag + ': the load factor is within its limits', And(z3.UGE(n.mlf, bv(128)), z3.ULE(n.mlf, bv(224))), fn)
                    if fn == 'op_construct': eng.oblige(s, tag + ': room for the requested number of elements', And(want == 0) if n.empty else z3.UGE(th.cap(n), want), fn)
                leak_free(E, s, fn, owners=() if thrown else ('P',))
            elif fn == 'op_destroy':
                eng.oblige(s, tag + ': only arrays of the map are freed', z3.BoolVal(all(x[0] != 'freed' or x[1] in (t.G, t.S) for x in s.g if isinstance(x, tuple))), fn)
                leak_free(E, s, fn, owners=())
            elif fn == 'op_clear':
                n = is_map(E, s, 'T', tag, fn, None)
                eng.oblige(s, tag + ': the load factor is unchanged', n.mlf == t.mlf, fn)
                leak_free(E, s, fn)
            elif fn == 'op_swap':
                for nm, src in (('T', t), ('T', t)) if alias else (('T', u), ('U', t)):
                    n = is_map(E, s, nm, tag + ': %s map' % ('first' if nm == 'T' else 'second'), fn, src)
                    eng.oblige(s, tag + ': the load factor goes with the contents', n.mlf == src.mlf, fn)
                    eng.oblige(s, tag + ': the threshold goes with the contents', n.thr == src.thr, fn)
                    eng.oblige(s, tag + ': the elements stay where they are', z3.BoolVal(n.G == src.G), fn)
                leak_free(E, s, fn, owners=('T',) if alias else ('T', 'U'))
            elif fn == 'op_copy':
                is_map(E, s, 'T', tag + ': the source', fn, t)
                eng.oblige(s, tag + ': the source keeps its arrays', z3.BoolVal(th.fld(s, 'T', 'groups').reg == t.G), fn)
                if not thrown:
                    n = is_map(E, s, 'P', tag + ': the copy', fn, t)
                    eng.oblige(s, tag + ': the copy has arrays of its own', z3.BoolVal(n.empty or n.G != t.G), fn)
                    eng.oblige(s, tag + ': the copy has the same load factor', n.mlf == t.mlf, fn)
                leak_free(E, s, fn, owners=('T',) if thrown else ('T', 'P'))
            elif fn == 'op_move':
                n = is_map(E, s, 'P', tag + ': the new map', fn, t)
                eng.oblige(s, tag + ': the load factor moves along', n.mlf == t.mlf, fn)
                eng.oblige(s, tag + ': the elements stay where they are', z3.BoolVal(n.G == t.G), fn)
                is_map(E, s, 'T', tag + ': the source', fn, None)
                leak_free(E, s, fn, owners=('T', 'P'))
            elif fn == 'op_copy_assign':
                src = t if alias else u
                n = is_map(E, s, 'T', tag + ': the target', fn, t if thrown else src)
                if not alias:
                    is_map(E, s, 'U', tag + ': the source', fn, u)
                    eng.oblige(s, tag + ': arrays of its own', z3.BoolVal(n.empty or n.G != u.G), fn)
                leak_free(E, s, fn, owners=('T',) if alias else ('T', 'U'))
            elif fn == 'op_move_assign':
                is_map(E, s, 'T', tag + ': the target', fn, t if alias else u)
                if not alias: is_map(E, s, 'U', tag + ': the source', fn, None)
                leak_free(E, s, fn, owners=('T',) if alias else ('T', 'U'))
    return go


# ------------------------------------------------------------------ size, capacity, load factor
GETTERS = ('op_size', 'op_empty', 'op_capacity', 'op_bucket_count', 'op_load_factor', 'op_get_mlf')


def getter(kind, entry, fn):
    def go(T):
        E = Env(T, kind, entry)
        eng, th, t = E.eng, E.th, E.t
        cap = bv(0) if t.empty else th.slotcap(t)
        for o in E.run(fn, [E.obj()]):
            s = o[1]
            if o[0] == 'throw': eng.oblige(s, fn + ' does not throw', FALSE, fn); continue
            r = o[2]
            if fn == 'op_size': g = r == t.size
            elif fn == 'op_empty': g = (r if z3.is_bool(r) else bit(r, 0)) == (t.size == 0)
            elif fn in ('op_capacity', 'op_bucket_count'): g = r == cap
            elif fn == 'op_load_factor':
                F = lambda x: z3.fpUnsignedToFP(z3.RNE(), x, z3.Float32())
                g = tofp(r) == z3.If(cap == 0, z3.FPVal(0.0, z3.Float32()), z3.fpDiv(z3.RNE(), F(t.size), F(cap)))
            else: g = tofp(r) == z3.fpDiv(z3.RNE(), z3.fpUnsignedToFP(z3.RNE(), t.mlf, z3.Float32()), z3.FPVal(256.0, z3.Float32()))
            ob = (lambda name, g, w: eng.lemma_oblige(name, g, eng.factlist(s), w)) if fn in ('op_load_factor', 'op_get_mlf') else lambda name, g, w: eng.oblige(s, name, g, w)
            ob(fn + ': ' + {'op_size': 'the number of elements', 'op_empty': 'true exactly if there is no element', 'op_load_factor': 'size / capacity, 0 without arrays',
                       'op_get_mlf': 'the load factor that is in force'}.get(fn, 'the number of slots, 0 without arrays'), g, fn)
            if not t.empty: unchanged(E, s, fn)
    return go


def set_mlf(kind, entry):
    def go(T):
        fn = 'op_set_mlf'
        E = Env(T, kind, entry)
        eng, th, t, st = E.eng, E.th, E.t, E.st
        f = z3.BitVec('f', 32)
        th.floats = (f,)
        if not t.empty: st.assume(z3.ULE(th.cap(t), bv(1 << 50)))
        for o in E.run(fn, [E.obj(), f]):
            s = o[1]
            thrown = o[0] == 'throw'
            tag = fn + (': after an allocation failure' if thrown else '')
            n = th.oblige_rep(s, 'T', tag, fn, any_thr=thrown)
            post_view(E, s, n, None, tag, True, fn)
            leak_free(E, s, fn)
            eng.oblige(s, tag + ': the size is unchanged', n.size == t.size, fn)
            m = s.g.get('mlf.set')
            if m is None: th.eng.lemma_oblige(fn + ': the factor is clamped to [0.5, 0.875] and kept in 256ths', n.mlf == th.mlf_of(f), [Not(z3.fpIsNaN(tofp(f)))] + eng.factlist(s), fn)
            else: eng.oblige(s, tag + ': the new factor is in force', n.mlf == m, fn)
            if not thrown and not n.empty: eng.oblige(s, tag + ': room for the elements', z3.ULE(n.size, th.slotcap(n)), fn)
    return go


def sized(kind, entry, fn):
    """insertion and erasure: size changes by the number of elements added or removed, and stays within the load limit when an element is added"""
    def go(T):
        E = Env(T, kind, entry)
        eng, t, th, st = E.eng, E.t, E.th, E.st
        k, v = z3.BitVec('k', 64), z3.BitVec('v', 64)
        th.keys.append(k)
        rr = Region('R', 16, 'obj'); st.regs['R'] = rr; st.mem['R'] = ObjMem()
        if fn in ('op_insert', 'op_insert_rv'):
            st.regs['KV'] = Region('KV', 16, 'obj'); st.mem['KV'] = ObjMem({0: (8, k), 8: (8, v)})
            args = [E.obj(), Ptr('KV', Aff()), Ptr('R', Aff())]
        elif fn in ('op_subscript', 'op_erase'): args = [E.obj(), k]
        else: args = [E.obj(), k, v, Ptr('R', Aff())]
        for o in E.run(fn, args):
            s = o[1]
            h0 = FALSE if t.empty else t.has(s, k)
            n = th.snap_of(s, 'T')
            thrown = o[0] == 'throw'
            tag = fn + (': after an allocation failure' if thrown else '')
            d = bv(0) if thrown else If(h0, bv(-1), bv(0)) if fn == 'op_erase' else If(h0, bv(0), bv(1))
            eng.oblige(s, tag + ': size changes by the number of elements added or removed', n.size == t.size + d, fn)
            eng.oblige(s, tag + ': the load factor is unchanged', n.mlf == t.mlf, fn)
            if n.empty: eng.oblige(s, tag + ': no element without arrays', n.size == 0, fn); continue
            th.oblige_size(s, n, tag, fn)
            if thrown or fn == 'op_erase': continue
            lim0, lim = th.thrmax(s, t) if not t.empty else bv(0), th.thrmax(s, n)
            two = And(t.mask == 1, n.G != t.G) if not t.empty else FALSE        # growing from the minimum capacity: one more
            if n.G != t.G and not t.empty:      # load-double (proved in 'lemmas')
                s.assume(Implies(And(z3.UGE(n.mask + 1, (t.mask + 1) << bv(1)), z3.ULE(t.size, lim0)), Or(z3.ULE(t.size + 1, lim), And(two, z3.ULE(t.size + 1, lim + 1)))))
            eng.oblige(s, tag + ': size stays within the load limit when an element is added', Or(h0, z3.UGT(t.size, lim0), z3.ULE(n.size, If(two, lim + 1, lim))), fn)
    return go


# ------------------------------------------------------------------ lifetime of elements (element type with external constructors and destructor)
def alive(kind, fn, e1, e2=None, alias=False, same_cap=False):
    """every operation constructs, moves, assigns and destroys elements only where it may, and leaves the element alive exactly at the used positions"""
    def go(T):
        ctor = fn in ('op_construct', 'op_default', 'op_copy', 'op_move')
        reh = fn.startswith('rehash_impl')
        E = Env(T, kind, e1, others=[('U', e2)] if e2 else (), defs=('TRACKED',), any_thr=reh)
        eng, th, t, st = E.eng, E.th, E.t, E.st
        eng.assumed.add('element operations (constructors, assignment, destructor) are external, do not throw and do not call back into the map; keys are u64')
        th.alloc_fails = th.follow_unwind = reh or fn in WHOLE
        if reh: th.rehash_by_contract = False
        k, v = z3.BitVec('k', 64), z3.BitVec('v', 64)
        T_, U_, P_ = E.obj(), Ptr('U', Aff()), raw_obj(E) if ctor else None
        th.obj_name = 'P' if ctor else 'T'
        want = z3.BitVec('want', 64)
        st.assume(z3.ULE(want, bv(1 << (54 if reh else 50))))
        if fn == 'op_copy' and not t.empty:
            th.same_cap = same_cap
            if not same_cap: th.walk = (t, bv(0), None)
            spare(E, t)
        if fn == 'op_copy_assign': th.copy_from = 'T' if alias else 'U'; th.copy_ctor_contract = True
        name = fn
        if reh:
            f = [x for x in E.mod.functext if 'rehash_implILb%d' % (1 if 'true' in fn else 0) in x]
            if len(f) != 1: raise EngineError('function under contract missing: ' + fn)
            name = f[0][1:]
            eng.named(st, th.need(want, t.size), 'need')
            if 'true' in fn: st.assume(th.rehash_pre(want, t.size))
        if fn in INSERTS:
            th.keys.append(k)
            st.regs['R'] = Region('R', 16, 'obj'); st.mem['R'] = ObjMem()
            if fn in ('op_insert', 'op_insert_rv'):
                st.regs['KV'] = Region('KV', 16, 'obj'); st.mem['KV'] = ObjMem({0: (8, k), 8: (8, v)})
                st.g[('live', 'KV', 8)] = True
                args = [T_, Ptr('KV', Aff()), Ptr('R', Aff())]
            else: args = [T_, k] if fn == 'op_subscript' else [T_, k, v, Ptr('R', Aff())]
        elif fn in ('op_erase', 'op_erase_it'): th.keys.append(k); args = [T_, k]
        elif reh or fn in ('op_rehash', 'op_reserve'): args = [T_, want]
        elif fn == 'op_shrink': args = [T_]
        else: args = {'op_construct': [P_, want], 'op_default': [P_], 'op_copy': [P_, T_], 'op_move': [P_, T_], 'op_destroy': [T_], 'op_clear': [T_]}.get(fn) or [T_, T_ if alias else U_]
        for o in E.run(name, args):
            s = o[1]
            tag = fn + (': after an allocation failure' if o[0] == 'throw' else '')
            own = {'op_destroy': (), 'op_construct': ('P',), 'op_default': ('P',), 'op_copy': ('T', 'P'), 'op_move': ('T', 'P')}.get(fn) or (('T', 'U') if e2 else ('T',))
            if o[0] == 'throw': own = tuple(x for x in own if x != 'P')
            for x in own:
                n = th.snap_of(s, x)
                eng.oblige(s, tag + ': groups_ points to a table', z3.BoolVal(n is not None), fn)
                if n is None: raise PathEnd()
                if n.empty: continue
                for r in (n.G, n.S): eng.oblige(s, tag + ': arrays not freed', z3.BoolVal(('freed', r) not in s.g), fn)
                th.oblige_live(s, n, tag, fn)
            th.oblige_temps(s, fn)
            if fn == 'op_insert': eng.oblige(s, tag + ': the argument is still alive', z3.BoolVal(s.g.get(('live', 'KV', 8)) is True), fn)
            if fn == 'op_insert_rv': eng.oblige(s, tag + ': the argument is destroyed by its owner only', z3.BoolVal(s.g.get(('live', 'KV', 8)) is True), fn)
            leak_free(E, s, fn, owners=own)
    return go


WHOLE = ('op_construct', 'op_default', 'op_copy', 'op_move', 'op_destroy', 'op_clear', 'op_swap', 'op_copy_assign', 'op_move_assign')
