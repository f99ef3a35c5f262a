"""iteration"""
from dv.ctx import Check
from props import swiss_t as S, lemmas
from props.mapreplay import mapdiff


def check():
    c = Check('M05')
    for kind in (15, 16):
        for fn in S.ITERS:
            for e in ('alloc', 'empty'):
                if e == 'empty' and fn not in ('op_begin', 'op_cbegin', 'op_end', 'op_cend', 'op_find_it', 'op_cfind_it'): continue
                c.target('%s/%d/%s' % (fn, kind, e), S.iterating(kind, e, fn))
    c.target('lemmas', lemmas.arithmetic)
    c.bounded.append(('differential run against std::unordered_map', 'about 250000 operations per mode; u64, tracked and std::string elements; 9 hash families; up to 3000 keys', mapdiff((15, 16), [0, 2, 4], ['iter@*'])))
    return c
