"""insertion"""
from dv.ctx import Check
from props import swiss_t as S, lemmas
from props.mapreplay import mapdiff


def check():
    c = Check('M02')
    for kind in (15, 16):
        for fn in S.INSERTS:
            for e in ('alloc', 'empty'):
                c.target('%s/%d/%s' % (fn, kind, e), S.insertion(kind, e, fn))
    c.target('lemmas (Lean)', lemmas.COUNTING)
    c.bounded.append(('differential run against std::unordered_map', 'about 250000 operations per mode; u64, tracked and std::string elements; 9 hash families; up to 3000 keys', mapdiff((15, 16), [0, 2], ['*@insert'])))
    return c
