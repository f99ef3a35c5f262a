"""lookup"""
from dv.ctx import Check
from props import swiss_t as S
from props.mapreplay import mapdiff


def check():
    c = Check('M01')
    for kind in (15, 16):
        for fn in S.LOOKUPS:
            for e in ('alloc', 'empty'):
                c.target('%s/%d/%s' % (fn, kind, e), S.lookup(kind, e, fn))
    c.bounded.append(('differential run against std::unordered_map', 'about 250000 operations per mode; u64, tracked and std::string elements; 9 hash families; up to 3000 keys', mapdiff((15, 16), [0, 1, 3], ['find@*','lost@*','extra@*','hang@lookup','crash@lookup'])))
    return c
