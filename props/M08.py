"""lifetime of elements"""
from dv.ctx import Check
from props import swiss_t as S, lemmas
from props.mapreplay import mapdiff

AE = ('alloc', 'empty')


def check():
    c = Check('M08')
    for kind in (15, 16):
        for fn in S.INSERTS + ('op_erase', 'op_erase_it', 'op_rehash', 'op_reserve', 'op_shrink', 'op_destroy', 'op_clear', 'op_copy', 'op_move', 'rehash_impl<false>', 'rehash_impl<true>'):
            for e in AE:
                if (fn, kind, e) == ('op_copy', 15, 'alloc'):          # 8 minutes of solver time: the quick tier proves the case that both have the same capacity
                    c.target('op_copy/15/alloc, same capacity', S.alive(kind, fn, e, same_cap=True))
                    if c.tier != 'thorough': continue
                c.target('%s/%d/%s' % (fn, kind, e), S.alive(kind, fn, e), 1700 if fn == 'op_copy' else 500)
        for fn in ('op_swap', 'op_move_assign', 'op_copy_assign'):
            for e in AE:
                for e2 in AE: c.target('%s/%d/%s,%s' % (fn, kind, e, e2), S.alive(kind, fn, e, e2))
                c.target('%s/%d/%s,self' % (fn, kind, e), S.alive(kind, fn, e, alias=True))
    c.bounded.append(('AddressSanitizer run with counted elements', 'about 250000 operations per mode', mapdiff((15, 16), [1, 2, 3], ['life@*', 'crash@*'], asan=True)))
    return c
