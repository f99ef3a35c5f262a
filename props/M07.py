"""construction, copy, move, assignment, swap, clear, destruction"""
from dv.ctx import Check
from props import swiss_t as S, lemmas
from props.mapreplay import mapdiff

AE = ('alloc', 'empty')


def check():
    c = Check('M07')
    for kind in (15, 16):
        for fn in ('op_construct', 'op_default'): c.target('%s/%d' % (fn, kind), S.whole(kind, fn, None))
        for fn in ('op_destroy', 'op_clear', 'op_copy', 'op_move'):
            for e in AE:
                if fn == 'op_copy' and kind == 15 and e == 'alloc':
                    # copying into a table of another capacity (element by element) takes about 8 minutes of solver time
                    c.target('op_copy/15/alloc, same capacity', S.whole(kind, fn, e, same_cap=True))
                    if c.tier == 'thorough': c.target('op_copy/15/alloc', S.whole(kind, fn, e), 1700)
                else: c.target('%s/%d/%s' % (fn, kind, e), S.whole(kind, fn, e))
        for fn in ('op_swap', 'op_move_assign', 'op_copy_assign'):
            for e in AE:
                for e2 in AE: c.target('%s/%d/%s,%s' % (fn, kind, e, e2), S.whole(kind, fn, e, e2))
                c.target('%s/%d/%s,self' % (fn, kind, e), S.whole(kind, fn, e, alias=True))
    c.target('lemmas (Lean)', lemmas.COUNTING)
    c.bounded.append(('differential run against std::unordered_map', 'about 250000 operations; u64, tracked and std::string elements; 9 hash families; up to 3000 keys', mapdiff((15, 16), [3], ['*@copy', '*@ctor'])))
    return c
