"""size, capacity and load limit"""
from dv.ctx import Check
from props import swiss_t as S, lemmas
from props.mapreplay import mapdiff

AE = ('alloc', 'empty')


def check():
    c = Check('M06')
    for kind in (15, 16):
        for e in AE:
            for fn in S.GETTERS: c.target('%s/%d/%s' % (fn, kind, e), S.getter(kind, e, fn))
            c.target('op_set_mlf/%d/%s' % (kind, e), S.set_mlf(kind, e))
            for fn in S.INSERTS + ('op_erase',): c.target('%s/%d/%s' % (fn, kind, e), S.sized(kind, e, fn))
    c.target('lemmas', lemmas.arithmetic)
    c.target('lemmas (Lean)', lemmas.COUNTING)
    c.bounded.append(('differential run against std::unordered_map', 'about 250000 operations; u64, tracked and std::string elements; 9 hash families; up to 3000 keys', mapdiff((15, 16), [0, 2, 5], ['size@*', 'cap@*', 'hang@*', '*@load'])))
    return c
