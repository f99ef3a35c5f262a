"""rehash / reserve / shrink_to_fit"""
from dv.ctx import Check
from props import swiss_t as S, lemmas
from props.mapreplay import mapdiff


def check():
    c = Check('M04')
    for kind in (15, 16):
        for e in ('alloc', 'empty'):
            for sh in (False, True):
                c.target('rehash_impl<%s>/%d/%s' % (str(sh).lower(), kind, e), S.rehash_body(kind, e, sh))
            for fn in ('op_rehash', 'op_reserve', 'op_shrink'):
                c.target('%s/%d/%s' % (fn, kind, e), S.resizing(kind, e, fn))
    c.target('lemmas', lemmas.arithmetic)
    c.target('lemmas (Lean)', lemmas.COUNTING)
    c.bounded.append(('differential run against std::unordered_map', 'about 250000 operations per mode; u64, tracked and std::string elements; 9 hash families; up to 3000 keys', mapdiff((15, 16), [2], ['*@rehash', 'lost@*', 'extra@*', 'value@*'])))
    return c
