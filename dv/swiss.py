"""Theory and contracts for the group-probed tables group15_flat_map / group16_flat_map.

Representation invariant (RepInv) of a table with groups 0..mask of W positions, relative to ghost
maps has/lg/lp/pd over keys (definitional: they name where a key is stored):
  A(k)    has(k) -> lg(k)<=mask, lp(k)<W, not the sentinel position, control byte there = ctrl(hash(k)),
          slot key there = k, P(start(k), pd(k)) = lg(k), pd(k) <= mask
  B(k,q)  has(k), q < pd(k) -> the overflow mark of k's class is set in group P(start(k), q)
  C(g,p)  position (g,p) used -> has(key), lg(key) = g, lp(key) = p   for key = slot key at (g,p)
  D       sentinel (group15): control byte (mask,14) = 1, no other control byte = 1
  E       size = number of used positions <= slot capacity, threshold <= load limit <= slot capacity
P(s,n) is the n-th group of the probe sequence: P(s,0)=s, P(s,n+1)=(P(s,n)+n+1)&mask.
hash/start/ctrl are extracted from the map's own functions (hash_for, index_for_hash, ctrl_for_hash)."""
import copy
import itertools
import re
import z3
from .sym import *
from . import build, ir
from .exe import Engine, Theory, Cand, MemSchema, View, tofp

NOOPF = lambda *a: None
_id = itertools.count()


class Geo:
    def __init__(self, kind):
        self.kind = kind
        self.W = 15 if kind == 15 else 16
        self.defs = () if kind == 15 else ('G16',)

    def used(self, b):
        return z3.UGT(b, bv(1, 8)) if self.kind == 15 else (b & bv(127, 8)) != 0

    def value(self, b):
        return b if self.kind == 15 else b & bv(127, 8)

    def empty(self, b):
        return b == 0 if self.kind == 15 else (b & bv(127, 8)) == 0


def compile_mod(geo, defs=()):
    return build.compile_ir('swiss.cpp', extra=('-fno-access-control',), defs=tuple(geo.defs) + ('TRYALL',) + tuple(defs))


class Snap:
    """one table: its regions, ghost maps and field values; formulas of RepInv over given memory"""

    def __init__(self, th, name, G, S, mask, shift):
        self.th, self.name, self.G, self.S, self.mask, self.shift = th, name, G, S, mask, shift
        self.gh = {x: '%s.%s' % (name, x) for x in ('has', 'lg', 'lp', 'pd')}
        self.L = name + '.live'     # ghost: positions whose element is constructed (tracked element type only)
        self.mem = None         # fixed memory (entry snapshot) or None = the state's current memory
        self.P = z3.Function('P.' + name, z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64))
        self.pre = z3.Function('pre.' + name, z3.BitVecSort(64), z3.BitVecSort(64))
        self.empty = False
        self.hasf = None        # optional: has(k) as a formula

    def rd(self, st, reg, d, mem=None):
        m = mem if mem is not None else (self.mem if self.mem is not None else st.mem)
        return self.th.eng.mem_read(st, m[reg], d)

    def has(self, st, k, mem=None): return self.rd(st, self.gh['has'], [k], mem) != 0
    def lg(self, st, k, mem=None): return self.rd(st, self.gh['lg'], [k], mem)
    def lp(self, st, k, mem=None): return extract(3, 0, self.rd(st, self.gh['lp'], [k], mem))
    def pd(self, st, k, mem=None): return self.rd(st, self.gh['pd'], [k], mem)

    def ctrl(self, st, g, p, mem=None): return self.rd(st, self.G, [g, p], mem)
    def key(self, st, g, p, mem=None): return self.rd(st, self.S, self.sd(g, p, 0), mem)
    def val(self, st, g, p, mem=None): return self.rd(st, self.S, self.sd(g, p, 1), mem)
    def sd(self, g, p, w): return [g, p, bv(w, 1)]

    def start(self, k): return self.th.start(k, self.shift, self.mask)

    def valid_pos(self, g, p):
        if self.th.geo.kind == 15:
            return And(z3.ULE(g, self.mask), z3.ULT(p, bv(15, 4)), Not(And(g == self.mask, p == 14)))
        return z3.ULE(g, self.mask)

    def ovf(self, st, g, k, mem=None):
        """overflow mark of k's class in group g"""
        c = self.th.ctrlbyte(k)
        if self.th.geo.kind == 15:
            b = self.ctrl(st, g, bv(15, 4), mem)
            return (b & (bv(1, 8) << (c & bv(7, 8)))) != 0
        b = self.ctrl(st, g, extract(3, 0, c), mem)
        return bit(b, 7)

    def A(self, st, k, mem=None):
        if self.empty: return TRUE
        g, p = self.lg(st, k, mem), self.lp(st, k, mem)
        return Implies(self.has(st, k, mem), And(
            self.valid_pos(g, p), self.th.geo.value(self.ctrl(st, g, p, mem)) == self.th.ctrlbyte(k),
            self.key(st, g, p, mem) == k, self.P(self.start(k), self.pd(st, k, mem)) == g, z3.ULE(self.pd(st, k, mem), self.mask)))

    def B(self, st, k, q, mem=None):
        if self.empty: return TRUE
        return Implies(And(self.has(st, k, mem), z3.ULT(q, self.pd(st, k, mem))), self.ovf(st, self.P(self.start(k), q), k, mem))

    def used(self, st, g, p, mem=None):
        return And(self.valid_pos(g, p), self.th.geo.used(self.ctrl(st, g, p, mem)))

    def C(self, st, g, p, mem=None):
        if self.empty: return TRUE
        k = self.key(st, g, p, mem)
        return Implies(self.used(st, g, p, mem), And(self.has(st, k, mem), self.lg(st, k, mem) == g, self.lp(st, k, mem) == p))

    def D(self, st, g, p, mem=None):
        """sentinel"""
        if self.th.geo.kind != 15: return TRUE
        return And(self.ctrl(st, self.mask, bv(14, 4), mem) == 1,
                   Implies(And(self.valid_pos(g, p)), self.ctrl(st, g, p, mem) != 1))

    def live(self, st, g, p, mem=None): return self.rd(st, self.L, [g, p], mem) != 0

    def usedmask(self, st, g, mem=None):
        """16-bit mask of used positions of group g"""
        bs = []
        for i in range(16):
            p = bv(i, 4)
            if self.th.geo.kind == 15 and i == 15: bs.append(bv(0, 1)); continue
            bs.append(b2bv(And(self.th.geo.used(self.ctrl(st, g, p, mem)))))
        return concat(list(reversed(bs)))


class SwissTheory(Theory):
    def __init__(self, geo, mod):
        self.geo, self.mod = geo, mod
        self.eng = None
        self.off = {}
        for f in ('groups', 'slots', 'slot_size', 'slot_threshold', 'index_shift', 'mlf', 'group_mask', 'slot_mask', 'groups_alloc'):
            g = mod.global_('@off_' + f)
            if g is not None and g.get('init'):
                v = g['init']
                self.off[f] = 0 if v[0] == 'zero' else v[1]
        self.ext = z3.Function('ext_hash', z3.BitVecSort(64), z3.BitVecSort(64))
        self._hash = self._ctrl = self._index = None
        self.dflt = None
        for nm in mod.globals_names() if hasattr(mod, 'globals_names') else []:
            if 'default_empty_groups' in nm and nm.startswith('@_ZZN'): self.dflt = nm
        self.tables = {}
        self.keys = []           # keys of interest (focus and arguments)
        self.witness = {}
        self.copy_ctor_contract = False
        self.same_cap = False           # only copies with the capacity of the source (see props/M07.py)
        self.rehash_by_contract = True
        self.floats = ()
        self.contracts = {}
        self.focus_new = []      # extra loop candidates per table: list of (name, fn(V))
        self.extra_cands = []
        self.ghost_schemas = {}
        self.walk = None             # (table, first position of the walk, its offset in its group)
        self.alloc_fails = False     # model allocation (and its failure); otherwise rehash_impl is used by contract
        self.copy_from = 'T'
        self.obj_name = 'T'
        self.tracked = False            # elements with constructors and destructors of their own (harness TRACKED)
        self.qfocus = z3.BitVec('focus.q', 64)
        self.focus = (z3.BitVec('focus.k', 64), self.qfocus, z3.BitVec('focus.g', 64), z3.BitVec('focus.p', 4))

    # ---------------------------------------------------------------- spec functions from the code
    def bind(self, eng):
        self.eng = eng
        k = z3.BitVec('spec.k', 64); h = z3.BitVec('spec.h', 64)
        sh, mk = z3.BitVec('spec.shift', 64), z3.BitVec('spec.mask', 64)
        e2 = Engine(self.mod, _SpecTheory(self.ext), 20000, 'spec')

        def ev(fn, arg):
            st = St()
            r = Region('spec.obj', 512, 'obj'); st.regs[r.name] = r
            d = {self.off['index_shift']: (8, sh), self.off['group_mask']: (8, mk)}
            st.mem[r.name] = ObjMem(d)
            outs = []
            for o in e2.run(self.mod.func('@' + fn), [Ptr(r.name, Aff()), arg], st):
                if o[0] == 'ret': outs.append((And(*o[1].factlist()), o[2]))
                else: raise EngineError(fn + ' throws')
            v = outs[0][1]
            for c, x in outs[1:]: v = If(c, x, v)
            return v
        hv = ev('sp_hash', k)
        cv = extract(7, 0, ev('sp_ctrl', h))
        iv = ev('sp_index', h)
        self._h = hv
        self._hash = lambda kk: z3.substitute(hv, (k, kk))
        self._ctrl = lambda hh: z3.substitute(cv, (h, hh))
        self._index = lambda hh, s, m: z3.substitute(iv, (h, hh), (sh, s), (mk, m))
        eng.functions |= e2.functions
        self._cc, self._sc = {}, {}

    def hash(self, k): return self._hash(k)

    def ctrlbyte(self, k):
        r = self._cc.get(k.get_id())
        if r is None: r = self._cc[k.get_id()] = (k, self._ctrl(self.hash(k)))
        return r[1]

    def start(self, k, shift, mask):
        key = (k.get_id(), shift.get_id(), mask.get_id())
        r = self._sc.get(key)
        if r is None: r = self._sc[key] = (k, shift, mask, self._index(self.hash(k), shift, mask))
        return r[3]

    # ---------------------------------------------------------------- entry states
    def obj(self, st, name, fields):
        r = Region(name, 128, 'obj'); st.regs[name] = r
        st.mem[name] = ObjMem({self.off[f]: (8, v) for f, v in fields.items()})
        return r

    def fld(self, st, name, f):
        return self.eng.obj_load(st, st.regs[name], st.mem[name], self.off[f], 8, f)

    def default_groups(self, st):
        """the static 'empty table' groups, already initialised"""
        nm = 'glob:' + self.dflt
        r = Region(nm, 32, 'arr', cell=1, radix=(16,), inb=lambda d: z3.ULE(d[0], bv(1)))
        r.table = None
        st.regs[nm] = r
        m = ArrMem(Base(r, const=bv(0, 8)))
        if self.geo.kind == 15:
            m = m.write([bv(0), bv(14, 4)], bv(1, 8)).write([bv(1), bv(14, 4)], bv(1, 8))
        st.mem[nm] = m
        gv = '@' + self.dflt[1:].replace('_ZZN', '_ZGVZN')
        for g in self.mod.globals_names():
            if g == gv:
                rr = Region('glob:' + g, 8, 'glob'); rr.init = self.mod.global_(g); rr.table = None
                st.regs[rr.name] = rr
                st.mem[rr.name] = ObjMem({0: (1, bv(1, 8)), 1: (7, bv(0, 56))})
        return nm

    def geometry_facts(self, st, mask, shift):
        lgv = fresh('lg')
        st.assume(mask & (mask + 1) == 0, z3.ULE(mask, bv((1 << 49) - 1)), z3.UGE(mask, bv(1)), z3.ULE(shift, 63), z3.UGE(shift, 1),
                  z3.LShR(bv(-1), shift) == mask)

    def shift_fact(self, st, sn, k):
        """start(k) <= mask (lemma 'index-range')"""
        st.assume(z3.ULE(sn.start(k), sn.mask))

    def calc_threshold(self, slotcap, mlf):
        return If(z3.UGT(slotcap, bv(32)), z3.LShR(self.mulmlf(slotcap, mlf), bv(8)), slotcap)

    def mulmlf(self, x, mlf):
        return self.eng.UF('mulmlf', z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64))(x, mlf)

    def mul(self, st, a, b, eng):
        for x, y in ((a, b), (b, a)):
            if not isnum(y) and y.decl().name().startswith('mlf'):
                r = self.mulmlf(x, y)
                st.g['mlfmul'] = st.g.get('mlfmul', ()) + (x,)
                st.assume(z3.ULE(z3.LShR(r, bv(8)), x), z3.UGE(z3.LShR(r, bv(8)), z3.LShR(x, bv(1))))
                return r
        return None

    def divmlf(self, x, mlf):
        return self.eng.UF('divmlf', z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64))(x, mlf)

    def udiv(self, st, a, b, eng):
        """x * 256 / mlf (lemma load-bounds)"""
        if isnum(b):
            if not 128 <= num(b) <= 224: return None
        elif not b.decl().name().startswith('mlf'): return None
        x = z3.LShR(a, bv(8))
        if not eng.valid(st, And(a == x << bv(8), z3.ULE(x, bv(1 << 54)))): return None
        r = self.divmlf(a, b)
        st.assume(z3.UGE(r, x + z3.LShR(x, bv(3))), z3.ULE(r, x << bv(1)))
        return r

    def float_to_int(self, st, v, r, op):
        """the load factor in 256ths; its range is proved by itself (floating-point facts stay out of the other obligations)"""
        pre = [z3.Not(z3.fpIsNaN(tofp(x))) for x in self.floats]
        m = fresh('mlf.set')
        if op != 'fptoui' or not self.floats: return None
        want = self.mlf_of(self.floats[0])
        self.eng.lemma_oblige('max_load_factor: the factor is clamped to [0.5, 0.875] and kept in 256ths', And(r == want, z3.UGE(r, bv(128)), z3.ULE(r, bv(224))), pre, 'op_set_mlf')
        st.assume(z3.UGE(m, bv(128)), z3.ULE(m, bv(224)))
        st.g['mlf.set'] = m
        return m

    @staticmethod
    def mlf_of(f):
        F = z3.Float32()
        c = If(z3.fpLT(tofp(f), z3.FPVal(0.5, F)), z3.FPVal(0.5, F), If(z3.fpGT(tofp(f), z3.FPVal(0.875, F)), z3.FPVal(0.875, F), tofp(f)))
        return z3.fpToUBV(z3.RTZ(), z3.fpMul(z3.RNE(), c, z3.FPVal(256.0, F)), z3.BitVecSort(64))

    def slotcap(self, sn):
        if self.geo.kind == 15: return sn.mask * bv(15) + bv(14)
        return sn.mask * bv(16) + bv(16)

    def entry(self, st, name, kind, any_thr=False):
        """kind: 'alloc' | 'empty' -> Snap with RepInv assumed (lazily instantiated)"""
        eng = self.eng
        geo = self.geo
        mlf = z3.BitVec('mlf.' + name, 64)
        st.assume(z3.UGE(mlf, bv(128)), z3.ULE(mlf, bv(224)))
        if kind == 'empty':
            gn = self.default_groups(st)
            f = dict(groups=Ptr(gn, Aff()), slots=NULL, slot_size=bv(0), slot_threshold=bv(0), index_shift=bv(63), mlf=mlf, group_mask=bv(0))
            if geo.kind == 16: f['slot_mask'] = bv(-1); f['groups_alloc'] = NULL
            self.obj(st, name, f)
            return self.empty_snap(st, name, gn, mlf)
        if self.dflt: self.empty_snap(st, 'empty', self.default_groups(st), mlf)
        mask, shift = z3.BitVec('mask.' + name, 64), z3.BitVec('shift.' + name, 64)
        size, thr = z3.BitVec('size.' + name, 64), z3.BitVec('thr.' + name, 64)
        self.geometry_facts(st, mask, shift)
        sn = Snap(self, name, name + '.G', name + '.S', mask, shift)
        self.mkregions(st, sn)
        sn.size, sn.thr, sn.mlf = size, thr, mlf
        sc = self.slotcap(sn)
        st.assume(z3.ULE(size, sc), z3.ULE(thr, sc))
        if not any_thr: st.assume(z3.ULE(thr, self.thrmax(st, sn)))
        gptr, sptr = self.tableptrs(sn)
        f = dict(groups=gptr, slots=sptr, slot_size=size, slot_threshold=thr, index_shift=shift, mlf=mlf, group_mask=mask)
        if geo.kind == 16:
            f['slot_mask'] = mask * bv(16) + bv(15)
            st.assume
            f['groups_alloc'] = Ptr(self.galloc(sn), Aff())
        self.obj(st, name, f)
        self.finish_entry(st, sn)
        return sn

    def empty_snap(self, st, name, gn, mlf):
        sn = Snap(self, name, gn, None, bv(0), bv(63))
        sn.empty = True
        sn.size = bv(0); sn.thr = bv(0); sn.mlf = mlf
        self.ghost_regions(st, sn, const0=True)
        sn.mem = dict(st.mem)
        self.tables[name] = sn
        st.g[('cnt', gn)] = bv(0)
        return sn

    def thrmax(self, st, sn):
        sc = self.slotcap(sn)
        m = self.mul(st, sc, sn.mlf, self.eng)
        if m is None: m = sc * sn.mlf
        return If(z3.UGT(sc, bv(32)), z3.LShR(m, bv(8)), sc)

    def galloc(self, sn): return sn.G

    def tableptrs(self, sn):
        return Ptr(sn.G, Aff()), Ptr(sn.S, Aff())

    def mkregions(self, st, sn):
        geo = self.geo
        g = Region(sn.G, None, 'arr', cell=1, radix=(16,), inb=lambda d, sn=sn: z3.ULE(d[0], sn.mask))
        if geo.kind == 15:
            s = Region(sn.S, None, 'arr', cell=8, radix=(15, 2), inb=lambda d, sn=sn: And(z3.ULE(d[0], sn.mask), Not(And(d[0] == sn.mask, d[1] == 14))))
            s.inb_all = True
        else:
            s = Region(sn.S, None, 'arr', cell=8, radix=(16, 2), inb=lambda d, sn=sn: z3.ULE(d[0], sn.mask))
        st.regs[sn.G], st.regs[sn.S] = g, s
        st.mem[sn.G], st.mem[sn.S] = ArrMem(Base(g)), ArrMem(Base(s))
        st.assume(g.base & bv(15) == 0, s.base & bv(15) == 0, g.base != 0, s.base != 0, z3.ULT(g.base, bv(1 << 57)), z3.ULT(s.base, bv(1 << 57)))
        s.heap = True
        g.heap = geo.kind == 16
        st.g[('heap', sn.S)] = True
        if geo.kind == 16: st.g[('heap', sn.G)] = True
        return g, s

    def ghost_regions(self, st, sn, const0=False):
        for x, w in (('has', 1), ('lg', 8), ('lp', 1), ('pd', 8)):
            r = Region(sn.gh[x], None, 'arr', cell=w, inb=lambda d: TRUE)
            st.regs[r.name] = r
            st.mem[r.name] = ArrMem(Base(r, const=bv(0, 8 * w) if const0 else None))
        if self.tracked:
            r = Region(sn.L, None, 'arr', cell=1, radix=(16,), inb=lambda d: TRUE)
            st.regs[sn.L] = r
            st.mem[sn.L] = ArrMem(Base(r, const=bv(0, 8) if const0 else None))

    def finish_entry(self, st, sn):
        """entry table: ghosts, RepInv hooks, counter"""
        self.ghost_regions(st, sn)
        sn.mem = dict(st.mem)
        self.rep_hooks(sn)
        self.tables[sn.name] = sn
        st.g[('cnt', sn.G)] = sn.size
        self.count_facts(st, sn)
        if self.geo.kind == 15:
            st.assume(sn.ctrl(st, sn.mask, bv(14, 4)) == 1)

    def rep_hooks(self, sn):
        """RepInv of the snapshot, instantiated at every location that is read"""
        geo = self.geo

        def raw(fn):
            # instantiations do not trigger further instantiations
            self.eng.nohook += 1
            try: return fn()
            finally: self.eng.nohook -= 1

        def on_slot(st, d, val):
            if isnum(d[2]) and num(d[2]) == 0:
                st.assume(raw(lambda: sn.C(st, d[0], d[1])))
        sn.mem[sn.S].base.hooks.append(on_slot)

        def on_lg(st, d, val):
            st.assume(raw(lambda: sn.A(st, d[0])), z3.ULE(sn.start(d[0]), sn.mask))
        for x in ('lg', 'lp', 'pd'): sn.mem[sn.gh[x]].base.hooks.append(on_lg)
        if self.tracked:
            def on_live(st, d, val):
                st.assume((val != 0) == raw(lambda: sn.used(st, d[0], d[1])))
            sn.mem[sn.L].base.hooks.append(on_live)
        if geo.kind == 15:
            def on_g(st, d, val):
                st.assume(Implies(sn.valid_pos(d[0], d[1]), val != 1))
            sn.mem[sn.G].base.hooks.append(on_g)

    def count_facts(self, st, sn):
        st.assume(sn.pre(bv(0)) == 0, sn.pre(sn.mask + 1) == sn.size)

    # ---------------------------------------------------------------- hooks of the engine
    def call(self, st, nm, dem, args, ins, eng):
        if nm == 'ext_hash':
            if self.alloc_fails: st.g['moved'] = (args[0][1],)
            return [('ret', st, self.ext(args[0][1]))]
        if self.tracked and nm in ('v_ctor', 'v_copy', 'v_move', 'v_assign', 'v_dtor'):
            return self.element_op(st, nm, [a[1] for a in args], ins, eng)
        if self.copy_ctor_contract and self.is_copy_ctor(nm):
            r = self.copy_contract(st, args, eng)
            if r is not None: return r
        if '::rehash_impl<' in dem and self.rehash_by_contract:
            return self.rehash_contract(st, args, dem, eng)
        return None

    # ---------------------------------------------------------------- lifetime of elements
    def cell_of(self, st, p, what):
        """the storage of an element: ('slot', table, g, p) or ('obj', region, offset)"""
        eng = self.eng
        r = eng.bounds(st, p, 8, what)
        if r.kind != 'arr':
            if p.off.const() is None: raise EngineError('element at a symbolic offset of ' + r.name)
            return ('obj', r.name, p.off.const())
        t = next((x for x in self.all_tables(st) if x.S == r.name), None)
        if t is None: raise EngineError('element outside a table: ' + what)
        d = eng.digits(st, r, p.off, what)
        eng.inb_check(st, r, d, what)
        eng.oblige(st, 'elements are constructed and destroyed at the place of the mapped value', d[2] == 1, what)
        return ('slot', t, d[0], d[1])

    def is_live(self, st, c):
        if c[0] == 'obj': return z3.BoolVal(st.g.get(('live', c[1], c[2])) is True)
        return c[1].live(st, c[2], c[3], st.mem)

    def set_live(self, st, c, v):
        if c[0] == 'obj': st.g[('live', c[1], c[2])] = v
        else: self.eng.cell_write(st, st.regs[c[1].L], [c[2], c[3]], bv(1 if v else 0, 8))

    def element_op(self, st, nm, a, ins, eng):
        what = ins.line[:90]
        c = self.cell_of(st, a[0], what)
        src = self.cell_of(st, a[1], what) if nm in ('v_copy', 'v_move', 'v_assign') else None
        where = '%s in %s' % (nm[2:], what[:60])
        if nm in ('v_ctor', 'v_copy', 'v_move'): eng.oblige(st, 'an element is constructed only where none is alive', Not(self.is_live(st, c)), where)
        else: eng.oblige(st, 'only a live element is assigned to or destroyed', self.is_live(st, c), where)
        if src is not None: eng.oblige(st, 'only a live element is copied or moved from', self.is_live(st, src), where)
        if nm == 'v_dtor': self.set_live(st, c, False)
        else:
            v = a[1] if nm == 'v_ctor' else eng.load_raw(st, st.regs[a[1].reg], a[1], 8, None, what)
            eng.store_raw(st, st.regs[a[0].reg], a[0], 8, v, what)
            if nm != 'v_assign': self.set_live(st, c, True)
        return [('ret', st, None)]

    def done_pos(self, g, p, nn, rest, pos):
        """position (g,p) has been handled (see processed)"""
        if isinstance(rest, str): return z3.ULT(self.lin(g, p), nn)
        d = z3.ULT(g, nn)
        if rest is not None: d = Or(d, And(g == nn, z3.Extract(0, 0, z3.LShR(rest, zext(p, rest.size()))) == 0))
        if pos is not None: d = Or(d, And(g == nn, z3.ULT(zext(p, 64), pos)))
        return d

    def live_schemas(self, L, t, V0):
        out = [MemSchema('alive exactly at the used positions', lambda V, d, now, old: (now != 0) == t.used(V.st, d[0], d[1], V.mem if t.mem is None else t.mem), init=True)]
        for nm, nn, rest, pos in self.progress_forms(L, V0):
            out.append(MemSchema('alive exactly at the used positions not handled yet (%s)' % nm, lambda V, d, now, old, nn=nn, rest=rest, pos=pos: (now != 0) == And(
                t.used(V.st, d[0], d[1], V.mem if t.mem is None else t.mem), Not(self.done_pos(d[0], d[1], nn(V), rest if isinstance(rest, str) else rest and rest(V), pos and pos(V)))), init=True))
            if self.fills(L, V0.st): out.append(MemSchema('alive exactly at the used positions handled so far (%s)' % nm, lambda V, d, now, old, nn=nn, rest=rest, pos=pos: (now != 0) == And(
                t.used(V.st, d[0], d[1], V.mem if t.mem is None else t.mem), self.done_pos(d[0], d[1], nn(V), rest if isinstance(rest, str) else rest and rest(V), pos and pos(V))), init=True))
        return out

    def live_candidates(self, L, V0):
        out = []
        for t in self.all_tables(V0.st):
            if t.empty or t.L not in L.mods or t.mem is None: continue
            for nm, nn, rest, pos in self.progress_forms(L, V0):
                if rest is None or isinstance(rest, str): continue
                def within(V, t=t, nn=nn, rest=rest):
                    um = t.usedmask(V.st, nn(V))
                    if self.geo.kind == 15: um = um | If(nn(V) == t.mask, bv(1 << 14, 16), bv(0, 16))
                    r = rest(V)
                    return And(r & ~zext(um, r.size()) == 0, r != 0)
                out.append(Cand('what is left of the group is used (%s)' % nm, within))
        return out

    def oblige_live(self, st, n, tag, fn):
        """clause L: the element is alive exactly at the used positions"""
        eng = self.eng
        k, q, g, p = self.focus
        s3 = st.fork()
        ps = self.written(st, n.L) + [x for x in self.written(st, n.G) if not (self.geo.kind == 15 and isnum(x[1]) and num(x[1]) == 15)]
        nm = tag + ': L elements are alive exactly at the used positions'
        for gg, pp in ps: eng.oblige(s3, nm + ' (the position operated on)', Implies(n.valid_pos(gg, pp), n.live(s3, gg, pp) == n.used(s3, gg, pp)), fn)
        s3.assume(*[Or(g != gg, p != pp) for gg, pp in ps])
        eng.oblige(s3, nm, n.live(s3, g, p) == n.used(s3, g, p), fn)

    def oblige_temps(self, st, fn):
        for key in list(st.g):
            if isinstance(key, tuple) and key[0] == 'live' and key[1] not in ('KV',):
                self.eng.oblige(st, fn + ': temporaries are destroyed', z3.BoolVal(st.g[key] is not True), key[1])

    def witness_facts(self, st, sn_like, phis, L):
        pass

    # events: control-byte writes since the last cut
    def at_cut(self, st, eng):
        log = []
        x = st.wlog
        while x:
            log.append(x[1]); x = x[0]
        st.wlog = ()
        log.reverse()
        for rn, d, v, m in log:
            sn = self.table_of(st, rn)
            if sn is None or d is None: continue
            g, p = d
            if self.geo.kind == 15 and isnum(p) and num(p) == 15: continue
            old = eng.mem_read(st, m, d)
            u0, u1 = self.geo.used(old), self.geo.used(v)
            if z3.simplify(u0 == u1).eq(z3.BoolVal(True)): continue
            if eng.valid(st, And(u1, Not(u0))):
                if sn.S is not None: st.assume(z3.ULT(st.g[('cnt', rn)], self.slotcap(sn)))   # counting: an unused position exists
                self.on_insert(st, sn, g, p, eng)
                st.g[('cnt', rn)] = st.g[('cnt', rn)] + bv(1)
            elif eng.valid(st, And(u0, Not(u1))):
                st.assume(st.g[('cnt', rn)] != 0)                           # counting: a used position exists
                self.on_erase(st, sn, g, p, eng)
                st.g[('cnt', rn)] = st.g[('cnt', rn)] - bv(1)
            elif eng.valid(st, u0 == u1):
                pass
            else:
                eng.oblige(st, 'control byte changes between used and empty in a determined way', FALSE, rn)

    def table_of(self, st, rn):
        for sn in list(self.tables.values()) + list(st.g.get('newtables', ())):
            if sn.G == rn: return sn
        return None

    def on_insert(self, st, sn, g, p, eng):
        if sn.S is None:
            eng.oblige(st, 'insertion only into an allocated table', FALSE, ''); return
        k = sn.rd(st, sn.S, sn.sd(g, p, 0), st.mem)
        s = sn.start(k)
        st.assume(sn.P(s, bv(0)) == s)
        cands = [bv(0)]
        for n in reversed(st.g.get('loopns', ())[-6:]): cands += [n, n + bv(1)]
        pd = None
        for c in cands:
            if c.decl().kind() == z3.Z3_OP_BADD: st.assume(sn.P(s, c) == ((sn.P(s, c.arg(0)) + c) & sn.mask))
            if eng.valid(st, sn.P(s, c) == g): pd = c; break
        if pd is None:
            eng.oblige(st, 'insertion position is on the probe sequence of the key', FALSE, str(g)[:60])
            pd = bv(0)
        for x, v in (('has', bv(1, 8)), ('lg', g), ('lp', zext(p, 8)), ('pd', pd)):
            eng.cell_write(st, st.regs[sn.gh[x]], [k], v)
        st.wlog = ()

    def on_erase(self, st, sn, g, p, eng):
        k = sn.rd(st, sn.S, sn.sd(g, p, 0), st.mem)
        eng.cell_write(st, st.regs[sn.gh['has']], [k], bv(0, 8))
        st.wlog = ()

    # ---------------------------------------------------------------- loops
    def all_tables(self, st):
        return [t for t in list(self.tables.values()) + list(st.g.get('newtables', ()))]

    def pre_loop(self, L, V0, st, eng):
        for t in self.all_tables(st):
            if t.empty or t.G not in L.mods: continue
            # pigeonhole: fewer used positions than slots -> some valid position is empty;
            # the triangular probe sequence visits every group within mask steps (lemmas, see lemmas/)
            eg, ep = fresh('eg'), fresh('ep', 4)
            room = z3.ULT(st.g[('cnt', t.G)], self.slotcap(t))
            fs = [t.valid_pos(eg, ep), self.geo.empty(t.rd(st, t.G, [eg, ep], st.mem))]
            qs = []
            for s in self.starts(L, V0, st, t):
                q = fresh('qe'); qs.append(q)
                fs += [Implies(z3.ULE(s, t.mask), And(t.P(s, q) == eg, z3.ULE(q, t.mask)))]
            st.assume(Implies(room, And(*fs)))
            st.g[('wit', t.name)] = (eg, ep, qs)
        for t in self.all_tables(st):
            for s in self.starts(L, V0, st, t):
                st.assume(t.P(s, bv(0)) == s, t.P(s, bv(1)) == ((t.P(s, bv(0)) + bv(1)) & t.mask))
            for k in self.probe_keys(st):
                if not t.empty: st.assume(z3.ULE(t.start(k), t.mask))

    def havoc_ghost(self, L, V, st, eng):
        n = V.n
        st.g['loopns'] = st.g.get('loopns', ()) + (n,)
        for t in self.all_tables(st):
            for s in self.starts(L, V, st, t):
                st.assume(t.P(s, bv(0)) == s, t.P(s, n + bv(1)) == ((t.P(s, n) + n + bv(1)) & t.mask),
                          t.P(s, n + bv(2)) == ((t.P(s, n + bv(1)) + n + bv(2)) & t.mask))
            if not t.empty:
                for k in self.keys:
                    for q in (n, n + bv(1)):
                        if t.mem is not None: st.assume(t.B(st, k, q))
            rn = t.G
            if rn in L.mods: st.g[('cnt', rn)] = fresh('cnt')
        if self.alloc_fails and self.building(L, V.st0) is not None: self.source_facts(st, n)

    def starts(self, L, V, st, t):
        out = []
        for p in L.phis:
            v = V.init[p.res]
            if isinstance(v, z3.BitVecRef) and v.size() == 64 and not isnum(v) and not any(v.eq(o) for o in out): out.append(v)
        for k in self.probe_keys(st):
            s = t.start(k)
            if not any(s.eq(o) for o in out): out.append(s)
        return out

    def probe_keys(self, st):
        return list(self.keys[:1]) + list(st.g.get('moved', ())[-1:])

    def candidates(self, L, V0, eng):
        out = []
        st0 = V0.st
        tabs = self.all_tables(st0)
        for t in tabs:
            ss = self.starts(L, V0, st0, t)
            for p in L.phis:
                v = V0.init[p.res]
                if isinstance(v, z3.BitVecRef) and v.size() == 64:
                    for j, s in enumerate(ss):
                        out.append(Cand('%s = P(%s#%d,n)' % (p.res, t.name, j), lambda V, p=p, j=j, t=t, L=L: V.phi[p.res] == t.P(self.starts(L, V, V.st0, t)[j], V.n)))
                        out.append(Cand('%s = P(%s#%d,n+1)' % (p.res, t.name, j), lambda V, p=p, j=j, t=t, L=L: V.phi[p.res] == t.P(self.starts(L, V, V.st0, t)[j], V.n + bv(1))))
                    out.append(Cand('%s<=mask' % p.res, lambda V, p=p, t=t: z3.ULE(V.phi[p.res], t.mask)))
            if ('wit', t.name) in st0.g and t.G in L.mods:
                for j in range(len(ss)):
                    def wq(V, j=j, t=t): return V.st0.g[('wit', t.name)][2][j]
                    out.append(Cand('n <= first group with room #%d' % j, lambda V, wq=wq: z3.ULE(V.n, wq(V))))
                    out.append(Cand('n < first group with room #%d' % j, lambda V, wq=wq: z3.ULT(V.n, wq(V))))
            out.append(Cand('n<=mask', lambda V, t=t: z3.ULE(V.n, t.mask)))
            if t.mem is not None and not t.empty:
                for i, k in enumerate(self.keys[:1]):
                    for c in (0, 1):
                        out.append(Cand('has(k%d) -> pd >= n+%d' % (i, c), lambda V, k=k, t=t, c=c: Implies(t.has(V.st, k), z3.UGE(t.pd(V.st, k), V.n + bv(c)))))
                    for p in L.phis:
                        v = V0.init[p.res]
                        if not isinstance(v, z3.BitVecRef): continue
                        w = v.size()
                        for j in range(min(3, len(st0.g.get('loopns', ())))):
                            for c in (0, 1):
                                out.append(Cand('%s keeps the match of k%d at n%d+%d' % (p.res, i, j, c), lambda V, p=p, k=k, t=t, j=j, c=c, w=w: Implies(
                                    And(t.has(V.st, k), t.pd(V.st, k) == V.st0.g['loopns'][-1 - j] + bv(c)), z3.Extract(0, 0, z3.LShR(V.phi[p.res], zext(t.lp(V.st, k), w))) == 1)))
                        out.append(Cand('%s keeps the match of k%d at start' % (p.res, i), lambda V, p=p, k=k, t=t, w=w: Implies(
                            And(t.has(V.st, k), t.pd(V.st, k) == 0), z3.Extract(0, 0, z3.LShR(V.phi[p.res], zext(t.lp(V.st, k), w))) == 1)))
            if t.G in L.mods and t.G in [x.G for x in tabs]:
                k0 = ('cnt', t.G)
                out.append(Cand('number of used positions unchanged (%s)' % t.name, lambda V, k0=k0: V.st.g[k0] == V.st0.g[k0]))
                for k in self.probe_keys(st0)[-1:]:
                    for c in (0, 1):
                        out.append(Cand('overflow marked in every earlier group +%d' % c, lambda V, k=k, t=t, c=c: Implies(
                            z3.ULT(self.qfocus, V.n + bv(c)), t.ovf(V.st, t.P(t.start(self.probe_keys(V.st0)[-1]), self.qfocus), self.probe_keys(V.st0)[-1], V.st.mem))))
        out += self.more_candidates(L, V0, eng)
        return out

    def on_back(self, L, V, s2, bp, eng):
        """every loop has a variant: a bounded iteration count or a strictly decreasing phi"""
        for t in self.all_tables(s2):
            if eng.valid(s2, z3.ULE(V.n, t.mask)):
                eng.oblige(s2, 'loop terminates (at most one iteration per group)', z3.ULE(V.n, t.mask), '%s %s' % (L.f.name[:60], L.h)); return
            if self.walk_at(s2) or self.fills(L, s2) is not None:
                for b in (bv(15), (t.mask + 2) * bv(16)):
                    if eng.valid(s2, z3.ULE(V.n, b)):
                        eng.oblige(s2, 'loop terminates (at most one iteration per position)', z3.ULE(V.n, b), '%s %s' % (L.f.name[:60], L.h)); return
        best = None
        for p in L.phis:
            v = V.phi[p.res]
            if isinstance(v, z3.BitVecRef):
                g = z3.ULT(bp[p.res], v)
                if eng.valid(s2, g): best = g; break
        eng.oblige(s2, 'loop terminates (strictly decreasing variant)', best if best is not None else FALSE, '%s %s' % (L.f.name[:60], L.h))

    def more_candidates(self, L, V0, eng):
        out = self.rebuild_candidates(L, V0, eng) if self.building(L, V0.st) else []
        if self.walk_at(V0.st): out += self.walk_candidates(L, V0, eng)
        if self.tracked: out += self.live_candidates(L, V0)
        ft = self.fills(L, V0.st)
        if ft is not None and self.fill_at(L, ft, V0) is not None:
            at = lambda V: self.fill_at(L, ft, V)
            for x, val, want in self.fill_forms(L, ft, V0, at): out.append(Cand('%s follows the position' % x.res, lambda V, val=val, want=want: val(V) == want(at(V)), required=True))
            out.append(Cand('position within the table', lambda V: z3.ULE(at(V), ft.mask * bv(16) + bv(15))))
            out.append(Cand('not at the last byte of a group', lambda V: at(V) & bv(15) != 15))
            out.append(Cand('n <= position', lambda V: z3.ULE(V.n, at(V))))
        return out

    def walk_at(self, st): return st.g.get('walk', self.walk)

    def slot_of_pos(self, V, x, t):
        for q in V.loop.phis:
            v = V.phi[q.res]
            if isinstance(v, Ptr) and v.reg == t.G:
                sp = self.split_off(V.st, v.off)
                if sp is None: return None
                return V.phi[x.res].off.add(sp[0], -240).add(sp[1], -16).bv() == 0
        return None

    def inserts(self, L):
        """a loop that walks over the source and inserts its elements one by one"""
        if not hasattr(L, '_ins'): L._ins = self.walk is not None and any('@ext_hash' in (i.line or '') for b in L.body for i in L.f.blocks[b].ins)
        return L._ins

    def fills(self, L, st):
        """the table whose elements are constructed one by one by this loop, its groups being complete already"""
        if not self.tracked or self.inserts(L): return None
        for t in self.new_ones(st):
            if t.L in L.mods and t.G not in L.mods: return t
        return None

    def fill_at(self, L, t, V):
        for p in L.phis:
            v = V.phi[p.res]
            if isinstance(v, Ptr) and v.reg in self.gs_of(V.st, 'G'): return v.off.bv()
        return None

    def gs_of(self, st, f):
        src = self.source(st)
        return [getattr(x, f) for x in self.new_ones(st)] + ([getattr(src, f)] if src is not None else [])

    def fill_forms(self, L, t, V0, at):
        """other induction variables of the loop at position 16g+p: (phi, value of the variable at V, its value expressed by the position)"""
        out = []
        per = 15 if self.geo.kind == 15 else 16
        idx = lambda a: (z3.LShR(a, bv(4)) << bv(4)) - (z3.LShR(a, bv(4)) if per == 15 else bv(0)) + (a & bv(15))
        for x in L.phis:
            v = V0.init[x.res]
            if isinstance(v, Ptr) and v.reg in self.gs_of(V0.st, 'S'): out.append((x, lambda V, x=x: V.phi[x.res].off.bv(), lambda a: idx(a) << bv(4)))
            elif isnum(v) and num(v) == 0 and v.size() == 64: out.append((x, lambda V, x=x: V.phi[x.res], idx))
        return out

    def shape_fill(self, L, t, ph, init, s):
        g, p = fresh('wg'), fresh('wp', 4)
        per = 15 if self.geo.kind == 15 else 16
        if not any(isinstance(init[x.res], Ptr) and init[x.res].reg in self.gs_of(s, 'G') for x in L.phis): return ph
        s.assume(z3.ULE(g, bv((1 << 60) - 1)))      # every offset can be written 16g+p with such a g
        out = dict(ph)
        for x in L.phis:
            v = init[x.res]
            if isinstance(v, Ptr) and v.reg in self.gs_of(s, 'G'): out[x.res] = Ptr(v.reg, aff_of(g).scale(16).add(aff_of(zext(p, 64))))
            elif isinstance(v, Ptr) and v.reg in self.gs_of(s, 'S'): out[x.res] = Ptr(v.reg, aff_of(g).scale(16 * per).add(aff_of(zext(p, 64)).scale(16)))
            elif isnum(v) and num(v) == 0 and v.size() == 64: out[x.res] = g * bv(per) + zext(p, 64)
        return out

    def at_phi(self, L, V):
        """position (16g+p) at which a walking loop stands"""
        t = self.walk[0]
        for p in L.phis:
            v = V.phi[p.res]
            if self.geo.kind == 15 and isinstance(v, Ptr) and v.reg == t.G: return v.off.bv()
            if self.geo.kind == 16 and isinstance(v, z3.BitVecRef) and v.size() == 64: return v
        for p in L.phis:
            v = V.phi[p.res]
            if isinstance(v, Ptr) and v.reg == t.G: return v.off.bv()
        return None

    def shape_phis(self, L, ph, init, s, st, eng):
        """the position of an inserting walk is written 16g+p (and its slot 240g+16p; justified by a required invariant)"""
        ft = self.fills(L, s)
        if ft is not None: return self.shape_fill(L, ft, ph, init, s)
        if not self.inserts(L): return ph
        t = self.walk[0]
        g, p = fresh('wg'), fresh('wp', 4)
        out = dict(ph)
        for x in L.phis:
            v = init[x.res]
            if self.geo.kind == 15 and isinstance(v, Ptr) and v.reg == t.G: out[x.res] = Ptr(t.G, aff_of(g).scale(16).add(aff_of(zext(p, 64))))
            elif self.geo.kind == 15 and isinstance(v, Ptr) and v.reg == t.S: out[x.res] = Ptr(t.S, aff_of(g).scale(240).add(aff_of(zext(p, 64)).scale(16)))
            elif self.geo.kind == 16 and isinstance(v, z3.BitVecRef) and v.size() == 64: out[x.res] = g * bv(16) + zext(p, 64)
        s.g['walk'] = (t, self.lin(g, p) + 1, p)
        s.assume(z3.ULE(g, t.mask + 1))         # (required invariant: positions are within the table)
        self.source_facts(s, g)
        return out

    def instances(self, st, k):
        """loop invariants proved for an arbitrary focus position, at the position of key k"""
        if not st.g.get('walkinv'): return
        src = self.source(st)
        _, _, g, p = self.focus
        lg, lp = src.lg(st, k), src.lp(st, k)
        st.assume(*[z3.substitute(f, (g, lg), (p, lp)) for f in st.g['walkinv']])

    # ---------------------------------------------------------------- iteration: positions in order, (g,p) -> 16g+p
    def lin(self, g, p): return g * bv(16) + zext(p, 64)

    def canon_init(self, st, init, eng):
        """positions at which a loop starts are given a name (g,p) with offset 16g+p, so that terms inside the loop stay simple"""
        if not self.walk_at(st): return init
        t = self.walk[0]
        out = dict(init)
        gi = pi = None
        for k, v in init.items():
            if isinstance(v, Ptr) and v.reg == t.G and len(v.off.t) > 2:
                e = v.off.bv()
                sp = self.split_off(st, v.off) if self.geo.kind == 15 else None
                if sp is not None:
                    pi = next((c for c in (0, 15, 14) if eng.valid(st, sp[1].bv() == c)), None)
                    if pi is not None:
                        gi, off = sp[0], sp[0].scale(16).addc(pi)
                        st.assume(e == off.bv())
                        out[k] = Ptr(t.G, off)
                        continue
                gi = eng.named(st, z3.LShR(e, bv(4)), 'gi')
                r = next((c for c in (0, 15, 14) if eng.valid(st, e & bv(15) == c)), None)
                if r is None: gi = None; continue
                pi = r
                st.assume(e == (gi << bv(4)) + bv(pi))
                out[k] = Ptr(t.G, aff_of(gi).scale(16).addc(pi))
        if gi is not None and self.geo.kind == 15:
            for k, v in init.items():
                if isinstance(v, Ptr) and v.reg == t.S and len(v.off.t) > 2 and eng.valid(st, v.off.bv() == (gi.scale(240).addc(16 * pi).bv() if isinstance(gi, Aff) else (gi << bv(8)) - (gi << bv(4)) + bv(16 * pi)), timeout=20000):
                    out[k] = Ptr(t.S, (gi if isinstance(gi, Aff) else aff_of(gi)).scale(240).addc(16 * pi))
        return out

    def walk_candidates(self, L, V0, eng):
        def rec(nm, fn):
            c = Cand(nm, fn)
            if self.alloc_fails: c.record = 'walkinv'
            return c
        """the focus position, if it lies between the start of the walk and the current position, is unused"""
        t, _, p0 = self.walk_at(V0.st)
        _, _, g, p = self.focus
        lf = self.lin(g, p)
        out = []
        lo = lambda V: self.walk_at(V.st0)[1]
        p00 = lambda V: self.walk_at(V.st0)[2]
        if self.inserts(L):
            at = lambda V: self.at_phi(L, V)
            for x in L.phis:
                v = V0.init[x.res]
                if self.geo.kind == 15 and isinstance(v, Ptr) and v.reg == t.S:
                    out.append(Cand('slot of the position', lambda V, x=x: self.slot_of_pos(V, x, t) if self.slot_of_pos(V, x, t) is not None else V.phi[x.res].off.bv() == (z3.LShR(at(V), bv(4)) << bv(8)) - (z3.LShR(at(V), bv(4)) << bv(4)) + ((at(V) & bv(15)) << bv(4)), required=True))
            out.append(Cand('within the table', lambda V: z3.ULE(at(V), t.mask * bv(16) + bv(15)), required=True))
            out.append(Cand('at a used position', lambda V: And(t.valid_pos(z3.LShR(at(V), bv(4)), extract(3, 0, at(V))), self.geo.used(t.ctrl(V.st, z3.LShR(at(V), bv(4)), extract(3, 0, at(V)))))))
            out.append(Cand('n <= position', lambda V: z3.ULE(V.n, at(V))))
            nt = self.new_ones(V0.st)
            if nt: out.append(Cand('elements moved + elements from the position on = size', lambda V: V.st.g[('cnt', nt[-1].G)] + self.sfx(V.st, t, at(V)) == t.size))
            return out
        if self.source(V0.st) is not None and self.walk is not None and self.alloc_fails:
            nt = self.new_ones(V0.st)
            a1 = lambda V: self.at_phi(L, V)
            if nt and self.at_phi(L, V0) is not None:
                cnt = lambda V: V.st.g[('cnt', nt[-1].G)]
                for c in (0, 1, 16):
                    out.append(Cand('elements moved + elements from position + %d on = size' % c, lambda V, c=c: cnt(V) + self.sfx(V.st, t, a1(V) + bv(c)) == t.size))
        for ph in L.phis:
            v = V0.init[ph.res]
            if isinstance(v, Ptr) and v.reg == t.G: at = lambda V, ph=ph: V.phi[ph.res].off.bv()
            elif isinstance(v, z3.BitVecRef) and v.size() == 64:
                at = lambda V, ph=ph: V.phi[ph.res]
                out.append(rec('no used position before group %s' % ph.res, lambda V, ph=ph: Implies(And(t.valid_pos(g, p), z3.ULE(lo(V), lf), z3.ULT(g, V.phi[ph.res])), self.geo.empty(t.ctrl(V.st, g, p)))))
            else: continue
            for nm, cmp in (('<', z3.ULT), ('<=', z3.ULE), ('< 16 +', lambda a, b: z3.ULT(a, b + bv(16)))):
                out.append(rec('no used position from the start to %s %s' % (nm, ph.res), lambda V, at=at, cmp=cmp: Implies(And(t.valid_pos(g, p), z3.ULE(lo(V), lf), cmp(lf, at(V))), self.geo.empty(t.ctrl(V.st, g, p)))))
            for c in (-16, 0, 13, 14, 15, 16):
                out.append(Cand('%s <= last position + %d' % (ph.res, c), lambda V, at=at, c=c: z3.ULE(at(V), t.mask * bv(16) + bv(c))))
        if p0 is not None:
            out.append(Cand('within the group of the start', lambda V: z3.ULE(zext(p00(V), 64) + V.n, bv(14))))
        return out

    # ---------------------------------------------------------------- building a new table (rehash, copy)
    def new_ones(self, st):
        return [t for t in st.g.get('newtables', ()) if getattr(t, 'built', False)]

    def building(self, L, st):
        """the table whose elements are inserted one by one by this loop"""
        for t in self.new_ones(st):
            if t.gh['has'] in L.mods: return t
        return None

    def source(self, st):
        for t in self.tables.values():
            if not t.empty and t.name == self.copy_from: return t
        return None

    def alloc(self, st, size, eng, ins):
        if not self.alloc_fails: return None
        geo = self.geo
        what = 'allocation of a table'
        pend = st.g.get('pending')
        if geo.kind == 16 and pend is not None:
            sn = [t for t in self.new_ones(st) if t.name == pend][0]
            del st.g['pending']
            rest = sn.S if st.g.pop('pendingG') else sn.G
            eng.oblige(st, 'the arrays of a new table fit its group mask', size == ((sn.mask + 1) * bv(256) if rest == sn.S else (sn.mask + 2) * bv(16)), what)
            return st.regs[rest]
        sz = eng.named(st, size, 'sz')
        nm = 'N%d' % next(_id)
        mask, shift = fresh('mask.' + nm), fresh('shift.' + nm)
        sn = Snap(self, nm, nm + '.G', nm + '.S', mask, shift)
        sn.built = True
        first = 'S'
        if geo.kind == 15: st.assume(mask == z3.LShR(sz, bv(8)) - 1)
        elif eng.valid(st, sz & bv(255) == 0): st.assume(mask == z3.LShR(sz, bv(8)) - 1)
        else: first = 'G'; st.assume(mask == z3.LShR(sz, bv(4)) - 2)
        eng.oblige(st, 'a new table has a power-of-two number of groups, at least 2', And(mask & (mask + 1) == 0, z3.UGE(mask, bv(1)), z3.ULE(mask, bv((1 << 56) - 1))), what)
        eng.oblige(st, 'the arrays of a new table fit its group mask', sz == ((mask + 1) * bv(256) if first == 'S' else (mask + 2) * bv(16)), what)
        self.geometry_facts(st, mask, shift)
        g, s = self.mkregions(st, sn)
        if geo.kind == 15: st.assume(g.base == s.base + mask * bv(240) + bv(224))
        else:
            st.g['pending'] = nm; st.g['pendingG'] = first == 'G'
        for r in (sn.G, sn.S): st.g.pop(('heap', r), None)
        g.heap = s.heap = False
        src = self.source(st)
        if self.same_cap and src is not None: st.assume(mask == src.mask)
        if src is not None: eng.oblige(st, 'a new table has room for all elements', z3.ULE(src.size, self.slotcap(sn)), what)
        self.ghost_regions(st, sn, const0=True)
        st.g['newtables'] = st.g.get('newtables', ()) + (sn,)
        st.g[('cnt', sn.G)] = bv(0)
        return s if first == 'S' else g

    def inttoptr(self, st, v, eng):
        if not self.alloc_fails or self.geo.kind != 15 or not z3.is_app_of(v, z3.Z3_OP_BAND): return None
        regs = set()
        eng._bases(v, regs, set())
        for t in self.new_ones(st):
            if t.S in regs and eng.valid(st, v == st.regs[t.G].base): return Ptr(t.G, Aff())
        return None

    def memset(self, st, r, p, val, n, eng, what):
        t = self.table_of(st, r.name)
        if t is None or not getattr(t, 'built', False) and t.mem is None: return False
        tot = (t.mask + 1) * bv(16)
        lo = p.off.bv()
        eng.oblige(st, 'in-bounds:' + r.name.split('!')[0], And(z3.ULE(lo, tot), z3.ULE(n, tot - lo)), what)
        if p.off.const() == 0 and eng.valid(st, n == tot):
            if not (isnum(val) and num(val) == 0): return False
            st.mem[r.name] = ArrMem(Base(r, const=bv(0, 8)))
            st.wlog = (st.wlog, (r.name, None, None, None))
            if st.g.get(('cnt', r.name)) is not None: self.on_clear(st, t, eng)
            return True
        return False

    def memcpy(self, st, d, s, n, eng, what):
        """copy of the whole group array or the whole slot array of the source table into a table being built"""
        src = self.source(st)
        t = next((x for x in self.new_ones(st) if d.reg in (x.G, x.S)), None)
        if src is None or t is None or s.reg not in (src.G, src.S) or (d.reg == t.G) != (s.reg == src.G): return False
        if d.off.const() != 0 or s.off.const() != 0: return False
        if not eng.valid(st, And(t.mask == src.mask, t.shift == src.shift)): return False
        st.assume(t.mask == src.mask, t.shift == src.shift)
        tot = (t.mask + 1) * bv(16) if d.reg == t.G else self.slotcap(t) * bv(16)
        if not eng.valid(st, n == tot): return False
        for r in (d.reg, s.reg): eng.oblige(st, 'copied array is alive', z3.BoolVal(('freed', r) not in st.g), what)
        st.mem[d.reg] = st.mem[s.reg]
        st.wlog = (st.wlog, (d.reg, None, None, None))
        if d.reg == t.G:
            for x in t.gh: st.mem[t.gh[x]] = st.mem[src.gh[x]]
            st.g[('cnt', t.G)] = st.g[('cnt', src.G)]
            c = copy.copy(t); c.P = src.P
            st.g['newtables'] = tuple(c if x is t else x for x in st.g['newtables'])
        return True

    def on_clear(self, st, t, eng):
        """all control bytes of the table are zero now: no element"""
        st.g[('cnt', t.G)] = bv(0)
        r = st.regs[t.gh['has']]
        st.mem[r.name] = ArrMem(Base(r, const=bv(0, 8)))

    def on_free(self, st, r, eng):
        for t in self.all_tables(st):
            if t.S == r.name and self.geo.kind == 15: st.g[('freed', t.G)] = True
            if t.S == r.name and self.tracked:
                _, _, g, p = self.focus
                eng.oblige(st, 'no element is alive in an array that is freed', Not(t.live(st, g, p, st.mem)), t.name)

    def canon(self, st, r, p, val, eng):
        """field values that equal a known name of the table being built are kept under that name"""
        if not self.alloc_fails or isnum(val): return val
        o = p.off.const()
        nt = self.new_ones(st)
        if nt and o is not None and r.kind == 'obj':
            for f, x in (('group_mask', nt[-1].mask), ('index_shift', nt[-1].shift), ('slot_mask', nt[-1].mask * bv(16) + bv(15))):
                if self.off.get(f) == o and eng.valid(st, val == x): return x
        return eng.named(st, val, 'f')

    def processed(self, t, st, k, nn, rest=None, pos=None):
        """key k of the source table has been handled: its group is before nn, or it is group nn and its position is not in the rest"""
        lg, lp = t.lg(st, k), t.lp(st, k)
        if isinstance(rest, str): return z3.ULT(self.lin(lg, lp), nn)
        d = z3.ULT(lg, nn)
        if rest is not None: d = Or(d, And(lg == nn, z3.Extract(0, 0, z3.LShR(rest, zext(lp, rest.size()))) == 0))
        if pos is not None: d = Or(d, And(lg == nn, z3.ULT(zext(lp, 64), pos)))
        return d

    def progress_forms(self, L, V0):
        """candidate measures of how far the source has been handled: (label, nn(V), rest(V), pos(V))"""
        if self.inserts(L):
            at = lambda V: self.at_phi(L, V)
            return [('position', at, 'linear', None)]
        ft = self.fills(L, V0.st)
        if ft is not None and self.fill_at(L, ft, V0) is not None: return [('position', lambda V: self.fill_at(L, ft, V), 'linear', None)]
        out = [('n', lambda V: V.n, None, None)]
        for j in range(min(2, len(V0.st.g.get('loopns', ())))):
            nn = lambda V, j=j: V.st0.g['loopns'][-1 - j]
            for p in L.phis:
                v = V0.init[p.res]
                if isinstance(v, z3.BitVecRef) and 16 <= v.size() <= 64:
                    out.append(('n%d, rest %s' % (j, p.res), nn, lambda V, p=p: V.phi[p.res], None))
            out.append(('n%d, position n' % j, nn, None, lambda V: V.n))
        return out

    @staticmethod
    def popcount(m):
        xs = [zext(extract(i, i, m), 5) for i in range(m.size())]
        while len(xs) > 1: xs = [xs[i] + xs[i + 1] for i in range(0, len(xs), 2)]
        return zext(xs[0], 64)

    def raw(self, fn):
        self.eng.nohook += 1
        try: return fn()
        finally: self.eng.nohook -= 1

    def rebuild_candidates(self, L, V0, eng):
        out = []
        t, src = self.building(L, V0.st), self.source(V0.st)
        if src is None: return out
        cnt = lambda V: V.st.g[('cnt', t.G)]
        for nm, nn, rest, pos in self.progress_forms(L, V0):
            if rest is None and pos is None:
                out.append(Cand('elements moved = elements before group %s' % nm, lambda V, nn=nn: cnt(V) == src.pre(nn(V))))
            elif rest is not None and not isinstance(rest, str):
                out.append(Cand('elements moved + elements in the rest of the group (%s) = elements up to this group' % nm, lambda V, nn=nn, rest=rest: cnt(V) + self.popcount(
                    (extract(15, 0, rest(V)) & src.usedmask(V.st, nn(V)))) == src.pre(nn(V) + bv(1))))
        for j in range(min(2, len(V0.st.g.get('loopns', ())))):
            for p in L.phis:
                v = V0.init[p.res]
                if not (isinstance(v, z3.BitVecRef) and v.size() == 64): continue
                out.append(Cand('%s is a used position of group n%d' % (p.res, j), lambda V, p=p, j=j: And(z3.ULT(V.phi[p.res], bv(src.th.geo.W)),
                    src.used(V.st, V.st0.g['loopns'][-1 - j], extract(3, 0, V.phi[p.res])))))
                for q in L.phis:
                    w = V0.init[q.res]
                    if isinstance(w, z3.BitVecRef) and 16 <= w.size() <= 64 and q is not p:
                        out.append(Cand('%s is the lowest bit of %s' % (p.res, q.res), lambda V, p=p, q=q: And(z3.ULT(V.phi[p.res], bv(V.phi[q.res].size())),
                            zext(V.phi[q.res] & -V.phi[q.res], 64) == bv(1) << V.phi[p.res])))
        for o, (sz, v) in V0.st.mem[self.obj_name].d.items():
            if sz == 8 and o in (self.off['slot_size'],):
                out.append(Cand('size field counts the inserted elements', lambda V, o=o: V.mem[self.obj_name].d[o][1] == cnt(V)))
        return out

    def inst_has(self, src, st, k):
        self.instances(st, k)
        return src.has(st, k)

    def rebuild_schemas(self, L, r, V0, eng):
        t, src = self.building(L, V0.st), self.source(V0.st)
        if t is None: return []
        out = []
        if r.name == t.gh['has'] and src is not None:
            for nm, nn, rest, pos in self.progress_forms(L, V0):
                out.append(MemSchema('the new table holds exactly the elements handled so far (%s)' % nm, lambda V, d, now, old, nn=nn, rest=rest, pos=pos: (now != 0) == And(
                    self.inst_has(src, V.st, d[0]), self.processed(src, V.st, d[0], nn(V), rest if isinstance(rest, str) else rest and rest(V), pos and pos(V))), init=True))
        if r.name == t.gh['lg']:
            def inv(V, d, now, old):
                k, m = d[0], V.mem
                fs = [z3.ULE(t.start(k), t.mask)] if V.st.g.get('assuming') else []
                A = self.raw(lambda: t.A(V.st, k, m)) if V.st.g.get('assuming') else t.A(V.st, k, m)
                fs += self.conj(A)
                fs.append(t.B(V.st, k, self.qfocus, m))
                return fs
            out.append(MemSchema('every inserted element is stored where its hash says', lambda V, d, now, old: self.conj(t.A(V.st, d[0], V.mem)), init=True))
            out.append(MemSchema('overflow marks on the whole probe path', lambda V, d, now, old: t.B(V.st, d[0], self.qfocus, V.mem), init=True))
            if src is not None:
                out.append(MemSchema('elements keep their value', lambda V, d, now, old: Implies(t.has(V.st, d[0], V.mem), And(src.has(V.st, d[0]), t.val(V.st, t.lg(V.st, d[0], V.mem), t.lp(V.st, d[0], V.mem), V.mem)
                                                                            == src.val(V.st, src.lg(V.st, d[0]), src.lp(V.st, d[0])))), init=True))
        if r.name == t.S:
            out.append(MemSchema('every used position is the place of its key', lambda V, d, now, old: TRUE if isnum(d[2]) and num(d[2]) == 1 else And(*self.conj(t.C(V.st, d[0], d[1], V.mem))), init=True))
        if r.name == t.G and self.geo.kind == 15:
            out.append(MemSchema('sentinel', lambda V, d, now, old: And(Implies(And(d[0] == t.mask, d[1] == 14), now == 1), Implies(t.valid_pos(d[0], d[1]), now != 1)), init=True))
        return out

    def sfx(self, st, t, a):
        """number of elements at positions >= a (lemma 'counting')"""
        f = z3.Function('sfx.' + t.name, z3.BitVecSort(64), z3.BitVecSort(64))
        key = ('sfx', a.get_id())
        if key not in st.g:
            st.g[key] = a
            end = t.mask * bv(16) + bv(16)
            st.assume(f(bv(0)) == t.size, f(end) == 0, z3.ULE(f(a), t.size))
            if self.geo.kind == 16:
                x = a
                for c in range(2):
                    g, p, nx = z3.LShR(x, bv(4)), extract(3, 0, x), f(aff_of(x).addc(1).bv())
                    st.assume(f(x) == z3.If(z3.ULT(x, end), z3.If(And(t.valid_pos(g, p), self.geo.used(t.ctrl(st, g, p))), bv(1), bv(0)) + nx, bv(0)),
                              Implies(z3.UGE(aff_of(x).addc(1).bv(), end), nx == 0))
                    x = aff_of(x).addc(1).bv()
                return f(a)
            sp = self.split_off(st, aff_of(a)) if self.geo.kind == 15 else None
            for c in range(3 if self.geo.kind == 15 else 2):
                if sp is not None and sp[1].const() == 0: break     # at the beginning of a group: the fact about the whole group
                x = aff_of(a).addc(c)
                s2 = (sp if c == 0 else self.split_off(st, x)) if self.geo.kind == 15 else None
                x = x.bv()
                g, p = (s2[0].bv(), extract(3, 0, s2[1].bv())) if s2 is not None else (z3.LShR(x, bv(4)), extract(3, 0, x))
                u = And(t.valid_pos(g, p), self.geo.used(t.ctrl(st, g, p)))
                nx = f(aff_of(x).addc(1).bv())
                st.assume(f(x) == z3.If(z3.ULE(g, t.mask), z3.If(u, bv(1), bv(0)) + nx, bv(0)), Implies(And(g == t.mask, p == 15), nx == 0), z3.ULE(nx, t.size))
            if sp is not None:
                g, r = sp
                b = g.scale(16)
                if r.const() != 0: self.group_sfx(st, t, f, g.addc(1))
                u = self.group_sfx(st, t, f, g)
                if r.const() != 0:
                    m = (bv(1, 16) << extract(15, 0, r.bv())) - bv(1, 16)
                    st.assume(Implies(And(z3.ULE(g.bv(), t.mask), u & m == 0), f(b.bv()) == f(a)))
        return f(a)

    def group_sfx(self, st, t, f, g):
        u = self.eng.named(st, t.usedmask(st, g.bv()), 'um')
        b = g.scale(16)
        st.assume(Implies(And(z3.ULE(g.bv(), t.mask), u == 0), f(b.bv()) == f(b.addc(16).bv())), Implies(z3.UGT(g.bv(), t.mask), f(b.bv()) == 0))
        return u

    def split_off(self, st, off):
        """(g, r) with off = 16g + r and r < 16, when the shape of off tells"""
        g, r = Aff(), Aff()
        for i, (e, co) in off.t.items():
            sg = co if co < 1 << 63 else co - (1 << 64)
            if sg % 16 == 0: g = g.add(Aff({i: (e, (sg // 16) & ((1 << 64) - 1))}))
            else: r = r.add(Aff({i: (e, co)}))
        c = off.c if off.c < 1 << 63 else off.c - (1 << 64)
        if not r.t: return g.addc(c // 16), r.addc(c % 16)
        for k in (0, 16, -16):
            d = r.addc(c % 16 - k)
            if self.eng.valid(st, z3.ULT(d.bv(), bv(16)), timeout=4000): return g.addc(c // 16 + k // 16), d
        return None

    def source_facts(self, st, n):
        """counting: pre(g) = number of elements in the groups before g (lemma 'counting')"""
        src = self.source(st)
        if src is None: return
        st.assume(Implies(z3.ULE(n, src.mask), And(src.pre(n + bv(1)) == src.pre(n) + self.popcount(src.usedmask(st, n)), z3.ULE(src.pre(n), src.size), z3.ULE(src.pre(n + bv(1)), src.size))),
                  src.pre(src.mask + bv(1)) == src.size)

    def mem_schemas(self, L, r, V0, eng):
        geo = self.geo
        t = self.table_of(V0.st, r.name)
        out = []
        if self.tracked:
            for x in self.all_tables(V0.st):
                if x.L == r.name and not x.empty: return self.live_schemas(L, x, V0)
        if self.building(L, V0.st) is not None: return self.rebuild_schemas(L, r, V0, eng)
        if t is not None:
            if geo.kind == 15:
                out.append(MemSchema('only overflow marks change, and only get set', lambda V, d, now, old: And(
                    Implies(d[1] != 15, now == old), now & old == old)))
            else:
                out.append(MemSchema('only overflow marks change, and only get set', lambda V, d, now, old: And(
                    now & bv(127, 8) == old & bv(127, 8), now & old == old)))
        return out


    # ---------------------------------------------------------------- contracts
    def snap_of(self, st, name):
        """the table object's current representation as a Snap over the current memory"""
        f = lambda x: self.fld(st, name, x)
        gp, sp = f('groups'), f('slots')
        base = None
        for t in self.all_tables(st):
            if t.G == gp.reg: base = t
        if base is None: return None
        n = Snap(self, base.name, base.G, base.S, f('group_mask'), f('index_shift'))
        n.gh, n.P, n.pre, n.empty, n.L = base.gh, base.P, base.pre, base.empty, base.L
        n.base = base
        n.size, n.thr, n.mlf = f('slot_size'), f('slot_threshold'), f('mlf')
        n.gptr, n.sptr = gp, self.asptr(sp)
        if self.geo.kind == 16: n.smask, n.galloc = f('slot_mask'), self.asptr(f('groups_alloc'))
        return n

    @staticmethod
    def asptr(v):
        return v if isinstance(v, Ptr) else Ptr(None, aff_of(v))

    def frozen(self, st, n):
        m = Snap(self, n.name, n.G, n.S, n.mask, n.shift)
        m.gh, m.P, m.pre, m.empty, m.L = n.gh, n.P, n.pre, n.empty, n.L
        m.size, m.thr, m.mlf = n.size, n.thr, n.mlf
        m.mem = dict(st.mem)
        return m

    def oblige_rep(self, st, name, tag, fn, any_thr=False):
        """RepInv of object `name` holds now (checked at arbitrary key / position / probe step)"""
        eng = self.eng
        n = self.snap_of(st, name)
        eng.oblige(st, tag + ': groups_ points to a table', z3.BoolVal(n is not None), fn)
        if n is None: raise PathEnd()
        k, q, g, p = self.focus
        b = n.base
        eng.oblige(st, tag + ': groups_/slots_ point to the start of their arrays', And(z3.BoolVal(n.gptr.off.const() == 0),
                   z3.BoolVal(n.sptr.reg == n.S and n.sptr.off.const() == 0)), fn)
        if n.empty:
            eng.oblige(st, tag + ': empty table fields', And(n.size == 0, n.thr == 0, n.mask == 0, n.shift == 63,
                       n.smask == bv(-1) if self.geo.kind == 16 else TRUE), fn)
            eng.oblige(st, tag + ': the shared empty groups are never written', self.rep_empty(st, n), fn)
            return n
        if not b.mask.eq(n.mask): eng.oblige(st, tag + ': group_mask_', n.mask == b.mask, fn)
        if not b.shift.eq(n.shift): eng.oblige(st, tag + ': index_shift_', n.shift == b.shift, fn)
        n.mask, n.shift = b.mask, b.shift
        if self.geo.kind == 16:
            eng.oblige(st, tag + ': slot_mask_', n.smask == n.mask * bv(16) + bv(15), fn)
            eng.oblige(st, tag + ': groups_alloc_', z3.BoolVal(n.galloc.reg == self.galloc(b)), fn)
        for r in (n.G, n.S): eng.oblige(st, tag + ': arrays not freed', z3.BoolVal(('freed', r) not in st.g), fn)
        # keys and positions touched by the operation are checked by themselves, then everything else
        ks = self.written(st, n.gh['has'], 0)
        for kk in ks + [k]:
            st.assume(z3.ULE(n.start(kk), n.mask))
            if b.mem is not None: st.assume(b.A(st, kk), b.B(st, kk, q))
        if b.mem is not None: st.assume(b.C(st, g, p))
        s2 = st.fork()
        for kk in ks:
            nm = ' (the key operated on)'
            for f in self.conj(n.A(s2, kk)): eng.oblige(s2, tag + ': A every element is stored where its hash says' + nm, f, fn)
            eng.oblige(s2, tag + ': B overflow marks on the whole probe path' + nm, n.B(s2, kk, q), fn)
        s2.assume(*[k != kk for kk in ks])
        for f in self.conj(n.A(s2, k)): eng.oblige(s2, tag + ': A every element is stored where its hash says', f, fn)
        eng.oblige(s2, tag + ': B overflow marks on the whole probe path', n.B(s2, k, q), fn)
        s3 = st.fork()
        ps = [(x, y) for x, y in self.written(st, n.G) if not (self.geo.kind == 15 and isnum(y) and num(y) == 15)]
        for gg, pp in ps:
            for f in self.conj(n.C(s3, gg, pp)): eng.oblige(s3, tag + ': C every used position is the place of its key (the position operated on)', f, fn)
        s3.assume(*[Or(g != gg, p != pp) for gg, pp in ps])
        for f in self.conj(n.C(s3, g, p)): eng.oblige(s3, tag + ': C every used position is the place of its key (no duplicates)', f, fn)
        eng.oblige(st, tag + ': D sentinel', n.D(st, g, p), fn)
        if self.tracked: self.oblige_live(st, n, tag, fn)
        self.oblige_size(st, n, tag, fn, any_thr)
        return n

    def written(self, st, rn, i=None):
        out = []
        for w in st.mem[rn].writes:
            if w[0] == 'w':
                x = w[1][i] if i is not None else tuple(w[1])
                if not any((x.eq(y) if i is not None else all(a.eq(c) for a, c in zip(x, y))) for y in out): out.append(x)
        return out

    @staticmethod
    def conj(f):
        """h -> a and b   as   h -> a,  h -> b"""
        if z3.is_implies(f) and z3.is_and(f.arg(1)):
            out, todo = [], [f.arg(1)]
            while todo:
                x = todo.pop(0)
                if z3.is_and(x): todo = x.children() + todo
                else: out.append(Implies(f.arg(0), x))
            return out
        return [f]

    def oblige_size(self, st, n, tag, fn, any_thr=False):
        eng = self.eng
        eng.oblige(st, tag + ': size = number of used positions', n.size == st.g[('cnt', n.G)], fn)
        sc = self.slotcap(n)
        eng.oblige(st, tag + ': size <= slot capacity', z3.ULE(n.size, sc), fn)
        eng.oblige(st, tag + ': threshold within the ' + ('slots' if any_thr else 'load limit'), z3.ULE(n.thr, sc if any_thr else self.thrmax(st, n)), fn)

    def rep_empty(self, st, n):
        m = st.mem[n.G]
        return z3.BoolVal(m is n.base.mem[n.G])

    def new_table(self, st, name, label=None):
        """a fresh table with unknown contents (RepInv assumed lazily)"""
        nm = '%s#%d' % (name, next(_id))
        mask, shift = fresh('mask.' + nm), fresh('shift.' + nm)
        sn = Snap(self, nm, nm + '.G', nm + '.S', mask, shift)
        self.geometry_facts(st, mask, shift)
        self.mkregions(st, sn)
        self.ghost_regions(st, sn)
        sn.mem = dict(st.mem)
        self.rep_hooks(sn)
        st.g['newtables'] = st.g.get('newtables', ()) + (sn,)
        return sn

    def same_contents(self, st, new, old):
        """hooks: new has the same keys and values as old (a frozen Snap)"""
        def on_has(st, d, val):
            st.assume((val != 0) == (FALSE if old.empty else old.has(st, d[0])))
        new.mem[new.gh['has']].base.hooks.append(on_has)

        def on_lg(st, d, val):
            k = d[0]
            if old.empty: st.assume(Not(new.has(st, k))); return
            st.assume(Implies(new.has(st, k), new.val(st, new.lg(st, k), new.lp(st, k)) == old.val(st, old.lg(st, k), old.lp(st, k))))
        new.mem[new.gh['lg']].base.hooks.append(on_lg)

    def cap(self, n): return n.mask * bv(16) + bv(16)

    def need(self, want, size):
        need = If(z3.UGT(want, size), want, size)
        return If(z3.UGT(need, bv(32)), need, bv(32))

    def rehash_pre(self, want, size):
        """precondition of rehash_impl<true>: the requested capacity leaves room for the elements"""
        if self.geo.kind == 16: return TRUE
        return Or(z3.UGE(want, size + z3.LShR(size, bv(3))), z3.ULE(size, bv(29)))

    def is_copy_ctor(self, nm):
        return '_flat_table' in nm and re.search(r'C2ERKS[0-9A-Z]*_RKS[0-9A-Z]*_$', nm) is not None

    def copy_contract(self, st, args, eng):
        """group1x_flat_table(const group1x_flat_table &, const allocator &): the postconditions proved by the targets op_copy/*/alloc"""
        dst, src = args[0][1], args[1][1]
        self.at_cut(st, eng)
        n = self.snap_of(st, src.reg)
        if n is None or n.empty or dst.off.const() != 0: return None
        n = self.oblige_rep(st, src.reg, 'before the copy', 'copy constructor')
        old = self.frozen(st, n)
        s1, s2 = st.fork(), st.fork()
        t = self.new_table(s2, 'C')
        t.size, t.mlf, t.thr = old.size, old.mlf, fresh('thr.' + t.name)
        self.same_contents(s2, t, old)
        s2.assume(z3.ULE(t.size, self.slotcap(t)), z3.ULE(t.thr, self.thrmax(s2, t)))
        if self.geo.kind == 15: s2.assume(t.ctrl(s2, t.mask, bv(14, 4)) == 1)
        s2.g[('cnt', t.G)] = t.size
        self.count_facts(s2, t)
        gp, sp = self.tableptrs(t)
        f = dict(groups=gp, slots=sp, slot_threshold=t.thr, index_shift=t.shift, group_mask=t.mask, slot_size=t.size, mlf=t.mlf)
        if self.geo.kind == 16: f['slot_mask'] = t.mask * bv(16) + bv(15); f['groups_alloc'] = Ptr(self.galloc(t), Aff())
        s2.mem[dst.reg] = ObjMem({self.off[x]: (8, v) for x, v in f.items()})
        outs = [('ret', s2, None), ('throw', s1, 'bad_alloc')]
        if eng.feasible(st, old.size == 0):
            s0 = st.fork(); s0.assume(old.size == 0)
            e = next(x for x in self.tables.values() if x.empty)
            f = dict(groups=Ptr(e.G, Aff()), slots=NULL, slot_threshold=bv(0), index_shift=bv(63), group_mask=bv(0), slot_size=bv(0), mlf=old.mlf)
            if self.geo.kind == 16: f['slot_mask'] = bv(-1); f['groups_alloc'] = NULL
            s0.mem[dst.reg] = ObjMem({self.off[x]: (8, v) for x, v in f.items()})
            outs.append(('ret', s0, None))
        return outs

    def rehash_contract(self, st, args, dem, eng):
        """rehash_impl<shrink>(n): keeps keys and values; new capacity is a power of two, at least max(n, size, 32)"""
        obj, want = args[0][1], args[1][1]
        name = obj.reg
        shrink = '<true>' in dem
        self.at_cut(st, eng)
        n = self.oblige_rep(st, name, 'before rehash', 'rehash_impl', any_thr=True)
        old = self.frozen(st, n)
        out = []
        outs = []
        need = self.need(want, old.size)
        eng.oblige(st, 'rehash_impl<%s>: requested capacity within limits' % ('true' if shrink else 'false'), z3.ULE(want, bv(1 << 54)), 'rehash_impl')
        if shrink: eng.oblige(st, 'rehash_impl<true>: the requested capacity leaves room for the elements', self.rehash_pre(want, old.size), 'rehash_impl')
        capold = bv(0) if (n.empty and self.geo.kind == 16) else self.cap(old)
        fits = z3.ULE(need, capold)
        noop = fits if not shrink else And(fits, z3.ULT(capold, need << bv(1)))
        s1 = st.fork(); s1.assume(noop)
        if eng.feasible(st, noop): outs.append(('ret', s1, None))
        s2 = st.fork()
        s2.assume(Not(noop))
        t = self.new_table(s2, name)
        t.size, t.mlf = old.size, old.mlf
        t.thr = fresh('thr.' + t.name)
        self.same_contents(s2, t, old)
        s2.assume(z3.UGE(self.cap(t), need), z3.ULT(self.cap(t), need << bv(1)), z3.ULE(t.size, self.slotcap(t)))
        s2.assume(t.thr == self.thrmax(s2, t))
        if self.geo.kind == 15: s2.assume(t.ctrl(s2, t.mask, bv(14, 4)) == 1)
        s2.g[('cnt', t.G)] = t.size
        self.count_facts(s2, t)
        for k in self.keys: s2.assume(z3.ULE(t.start(k), t.mask), t.P(t.start(k), bv(0)) == t.start(k))
        gp, sp = self.tableptrs(t)
        f = dict(groups=gp, slots=sp, slot_threshold=t.thr, index_shift=t.shift, group_mask=t.mask)
        if self.geo.kind == 16: f['slot_mask'] = t.mask * bv(16) + bv(15); f['groups_alloc'] = Ptr(self.galloc(t), Aff())
        d = dict(s2.mem[name].d)
        for x, v in f.items(): d[self.off[x]] = (8, v)
        s2.mem[name] = ObjMem(d)
        if not n.empty:
            for r in (old.G, old.S): s2.g[('freed', r)] = True
        outs.append(('ret', s2, None))
        s3 = st.fork()
        outs.append(('throw', s3, 'bad_alloc'))
        return outs


class _SpecTheory(Theory):
    def __init__(self, ext): self.ext = ext

    def call(self, st, nm, dem, args, ins, eng):
        if nm == 'ext_hash': return [('ret', st, self.ext(args[0][1]))]
        return None
