"""Abstract cuts and cut sets as the classes of the repository store them."""
import itertools, random
from rules.xl import *
from engine.objm import *

MAXL = 7


def cut_value(at, leaves, data=None, room=MAXL):
    """a cut stored at the place `at` (a pointer): leaves in ascending order"""
    l = list(leaves) + [Undef] * (room - len(leaves))
    p = Ptr(at.cell, at.keys + ('_leaves', len(leaves)))
    return rec('cut', _leaves=l, _length=len(leaves), _signature=sig(leaves), _cend=p, _end=p, _data=data if data is not None else rec('cut_data', func_id=0, data=rec('data')))


def sig(leaves):
    s = 0
    for x in leaves:
        s |= 1 << (x & 63)
    return s


def leaves_of(v, at):
    """leaves of a stored cut; '' or what is wrong with it"""
    d = v[2]
    n = d['_length']
    if not isinstance(n, int) or not 0 <= n <= len(d['_leaves']):
        raise Damage(f'a cut has {n} leaves')
    e = Ptr(at.cell, at.keys + ('_leaves', n))
    if d['_cend'] != e or d['_end'] != e:
        raise Damage(f'the end of a cut ({d["_cend"]}, {d["_end"]}) is not behind its {n} leaves')
    return list(d['_leaves'][:n])


def set_value(at, cuts, room, size, blank=None):
    """a cut set at `at`: storage of `room` cuts, the first ones in use"""
    st = [cut_value(Ptr(at.cell, at.keys + ('_cuts', i)), *(cuts[i] if i < len(cuts) else ((), blank))) for i in range(room)]
    ps = [Ptr(at.cell, at.keys + ('_cuts', i)) for i in range(room)]
    p = Ptr(at.cell, at.keys + ('_pcuts', len(cuts)))
    return rec('cut_set', _cuts=st, _pcuts=ps, _length=len(cuts), _pcend=p, _pend=p)
