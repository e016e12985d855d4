"""Edited networks with reference counters: contracts of the operations that change an AND-inverter graph in place."""
from rules.xl import *
from engine.objm import *


def vals(N):
    return getattr(N, 'vals', ())


def with_vals(N, v):
    M = N.but()
    M.vals = tuple(v)
    return M


def q_value(R, N, view, a):
    i = R.nodeno(N, a[0])
    v = vals(N)
    return v[i] if i < len(v) else 0


def count(R, loc, i, f):
    c = R.cell_of(loc)
    N = R.cur[c]
    while isinstance(N, View):
        c = N.base
        N = R.cur[c]
    i = R.nodeno(N, i)
    v = list(vals(N)) + [0] * (len(N.nodes) - len(vals(N)))
    old = v[i]
    v[i] = f(old) & 0xffffffff
    R.cur = {**R.cur, c: with_vals(N, v)}
    return old, v[i]


def c_incr(R, loc, a):
    return count(R, loc, a[0], lambda x: x + 1)[0]


def c_decr(R, loc, a):
    return count(R, loc, a[0], lambda x: x - 1)[1]


def c_set(R, loc, a):
    count(R, loc, a[0], lambda x: a[1])


def c_clear(R, loc, a):
    c = R.cell_of(loc)
    R.cur = {**R.cur, c: with_vals(R.cur[c], [0] * len(R.cur[c].nodes))}


def child(k):
    def set_child(R, loc, a):
        c = R.cell_of(loc)
        N = R.cur[c]
        i, s = R.nodeno(N, a[0]), N.inp(a[1])
        x = N.nodes[i]
        if x[0] != 'g':
            raise Damage(f'a fan-in of the node {i} is set, which is no gate')
        f = list(x[2])
        f[k] = s
        n = list(N.nodes)
        n[i] = ('g', x[1], tuple(f))
        R.cur = {**R.cur, c: N.but(nodes=n)}
    return set_child


def c_po(R, loc, a):
    c = R.cell_of(loc)
    N = R.cur[c]
    k, s = a[0], N.inp(a[1])
    if not isinstance(k, int) or not 0 <= k < len(N.pos):
        raise Damage(f'output {k} of {len(N.pos)} is set')
    p = list(N.pos)
    p[k] = s
    R.cur = {**R.cur, c: N.but(pos=p)}


EDIT = {'set_child0': child(0), 'set_child1': child(1), 'set_po_at': c_po}
CALLS = {'incr_value': c_incr, 'decr_value': c_decr, 'set_value': c_set, 'clear_values': c_clear, **EDIT}


def edits(qn, d, e):
    """operations of the network that edit it become calls of contracts"""
    n = d.get('n')
    if e.get('m') and net_class(d.get('cls')) and n in EDIT:
        def mut(I, st, fr, e, args):
            ev = I.event(st, fr, 'call', qn, (resolved(I, st, args[0]),) + tuple(I.load(st, a.args[0]) if isinstance(a, Term) and a.op == 'addr' else a for a in args[1:]), e, fid=None)
            if ev is not None:
                ev.extra, ev.val = ('net', n), T('ret', I.epoch(), qn)
            return T('void')
        return mut
    return None


def fanouts(N):
    r = [0] * len(N.nodes)
    for x in N.nodes:
        if x[0] == 'g':
            for j, _ in x[2]:
                r[j] += 1
    for i, _ in N.pos + N.ris:
        r[i] += 1
    return r


def cleaned(N):
    """the network without gates no output depends on, with the simplifications of creation; as cleanup_dangling returns it (C04)"""
    N.tts()
    for i in N.topo():
        x = N.nodes[i]
        if x[0] == 'g' and x[2][0] == x[2][1]:
            raise Damage(f'gate {i} has the same signal twice, it is taken for a combinational input')
    M = Net('aig')
    m = {0: (0, 0)}
    for i in N.cis:
        M, s = M.add(('pi',))
        M = M.but(cis=M.cis + (s[0],))
        m[i] = s
    for i in N.topo():
        x = N.nodes[i]
        if x[0] != 'g':
            continue
        a, b = sorted((m[j][0], m[j][1] ^ c) for j, c in x[2])
        m[i] = None
        if a[0] == b[0]:
            m[i] = a if a[1] == b[1] else (0, 0)
        elif a[0] == 0:
            m[i] = b if a[1] else (0, 0)
        else:
            for k, n in enumerate(M.nodes):
                if n[0] == 'g' and n[2] == (a, b):
                    m[i] = (k, 0)
            if m[i] is None:
                M, m[i] = M.add(('g', 'and', (a, b)))
    return M.but(pos=[(m[i][0], m[i][1] ^ c) for i, c in N.pos])


def depth(N):
    d = {}
    for i in N.topo():
        x = N.nodes[i]
        d[i] = 0 if x[0] != 'g' else 1 + max(d[j] for j, _ in x[2])
    return max([d[i] for i, _ in N.pos], default=0), d
