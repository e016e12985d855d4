"""Finite abstract stores of the two network classes, and the effect of a recovered
transfer function on such a store (guarded stores, pushes and loops)."""
import copy
from .terms import *
from .evalm import Eval, Unknown
from .store import evaluator, Ptr


def rec(name, **k):
    return ('rec', name, k)


def ptr(index, w):
    return rec('ptr', index=index, weight=w)


def split(data):
    return ptr(data >> 1, data & 1)


class AigStore:
    """cis: number of primary inputs and register outputs; gates: [((idx, compl), (idx, compl))]; dead: set; pos, ris: signals"""

    def __init__(self, npi, nro, gates, pos, ris, dead=(), trav=7, latches=None):
        self.n = 1 + npi + nro + len(gates)
        nodes = []
        ref = [0] * self.n

        def node(c0, c1, i):
            return rec('node', children=[c0, c1], data=[rec('st', h1=0, h2=0x40 + i), rec('st', h1=0x60 + i, h2=(i * 5) & 7)], next=0)
        nodes.append(node(split(0), split(0), 0))
        for i in range(npi + nro):
            nodes.append(node(split(i), split(i), 1 + i))
        for i, (a, b) in enumerate(gates):
            nodes.append(node(ptr(*a), ptr(*b), 1 + npi + nro + i))
            if 1 + npi + nro + i not in dead:
                ref[a[0]] += 1
                ref[b[0]] += 1
        for s in list(pos) + list(ris):
            ref[s[0]] += 1
        for i in range(self.n):
            nodes[i][2]['data'][0][2]['h1'] = 0x80000000 if i in dead else ref[i]
        self.ref = ref
        self.npi, self.nro, self.gates, self.pos, self.ris, self.dead = npi, nro, gates, list(pos), list(ris), set(dead)
        self.cis = list(range(1, 1 + npi + nro))
        self.ngates = len(gates) - len(self.dead)
        self.storage = rec('storage', nodes=nodes, inputs=list(self.cis), outputs=[ptr(*s) for s in list(pos) + list(ris)],
                           data=rec('data', num_pis=npi, num_pos=len(self.pos), latches=list(latches or [0] * len(self.ris)), trav_id=trav),
                           num_entries=self.ngates, hash=[])
        self.events = rec('events', on_add=[], on_modified=[], on_delete=[])
        self.this = rec('aig', _storage=Ptr(self.storage), _events=Ptr(self.events))

    def describe(self):
        return (f'the network with {self.npi} inputs, {self.nro} registers, {self.ngates} gates' + (f' ({len(self.dead)} dead)' if self.dead else '')
                + f', outputs {self.pos}' + (f', register inputs {self.ris}' if self.ris else ''))

    def is_ci(self, n):
        return 1 <= n <= self.npi + self.nro

    def live_gates(self):
        return [n for n in range(1 + self.npi + self.nro, self.n) if n not in self.dead]

    def fanins(self, n):
        return self.gates[n - 1 - self.npi - self.nro]


def aig_models():
    yield AigStore(0, 0, [], [], [])
    yield AigStore(2, 0, [((1, 0), (2, 1))], [(3, 1)], [])
    yield AigStore(3, 0, [((1, 0), (2, 1)), ((3, 1), (4, 0)), ((1, 1), (2, 1)), ((5, 0), (6, 1))], [(7, 0), (5, 1), (0, 1), (5, 0)], [])
    yield AigStore(3, 0, [((1, 0), (2, 1)), ((3, 1), (4, 0)), ((1, 1), (2, 1)), ((2, 0), (4, 1))], [(7, 1), (0, 0)], [], dead=(5, 6))
    yield AigStore(2, 2, [((1, 0), (3, 1)), ((2, 1), (5, 1)), ((4, 0), (6, 0))], [(6, 0), (1, 1)], [(7, 1), (5, 0)], latches=[0, 1])
    yield AigStore(1, 3, [((1, 1), (2, 1)), ((3, 0), (5, 1)), ((4, 0), (6, 0))], [(7, 0)], [(5, 1), (6, 0), (1, 0)], dead=(), latches=[1, 0, 3])


def wide_models():
    """past the ranges of 8-bit quantities"""
    for npi, nro in ((262, 3), (3, 262)):
        b = 1 + npi + nro
        yield AigStore(npi, nro, [((1, 0), (257, 1)), ((2, 1), (258, 0)), ((b, 0), (b + 1, 1)), ((3, 0), (b + 1, 0)), ((260, 1), (b + 2, 0))],
                       [(b + 2, 0), (257, 1), (1, 1)], [(b + 4, 1)] + [(i + 1, i & 1) for i in range(nro - 1)], dead=(b + 3,), latches=[i % 3 for i in range(nro)])
    g = [((1, 0), (2, 1)), ((3, 0), (5, 1)), ((3, 0), (6, 1))] + [((1 + i % 3, i & 1), (7 + i // 3, i & 1)) for i in range(262)]
    yield AigStore(4, 0, g, [(7, 0)] + [(i + 2, i & 1) for i in range(262)] + [(5, 1)], [], dead=(8, 269))


def path(ev, loc):
    """(root term, [keys]) of a location in the model"""
    keys = []
    while loc.op in ('fld', 'idx', 'deref', 'ite'):
        if loc.op == 'ite':
            loc = loc.args[1] if ev.b(loc.args[0]) else loc.args[2]
        elif loc.op == 'deref':
            p = loc.args[0]
            if p.op == 'ld':
                keys.append('*')
                loc = p.args[0]
            elif p.op == 'addr':
                loc = p.args[0]
            else:
                break
        else:
            keys.append(loc.args[1] if loc.op == 'fld' else ('i', ev.v(loc.args[1])))
            loc = loc.args[0]
    return loc, keys[::-1]


def effects(I, ev, root, value, skip=lambda root: False):
    """value (python store rooted at term root) after the function; writes to local variables are ignored"""
    out = copy.deepcopy(value)
    evs = [e for e in I.events if e.kind in ('write', 'push', 'pop', 'clear', 'erase', 'resize') and isinstance(e.name, Term)]
    for e in ev.trace(evs):
        r, ks = path(ev, e.name)
        if r is not root:
            if r.op == 'root' and r.args[0] in ('v', 'arg', 'heap', 'tmp') or skip(r):
                continue
            raise Unknown(f'effect on {show(e.name)[:120]}')
        cur = out
        for k in ks[:-1]:
            cur = step(cur, k)
        k = ks[-1]
        if e.kind == 'write':
            x = e.args[0]
            v = copy.deepcopy(ev.b(x) if isinstance(x, B) else ev.v(x))
            if isinstance(k, tuple):
                if not isinstance(cur, (list, dict)) or isinstance(cur, list) and not 0 <= k[1] < len(cur):
                    raise Unknown(f'store outside the model: {show(e.name)[:120]}')
                old = cur[k[1]] if isinstance(cur, list) else None
                cur[k[1]] = fit(old, v)
            else:
                if isinstance(cur, Ptr):
                    cur = cur.obj
                if cur[1] == 'ptr' and k == 'data':
                    cur[2].update(split(v)[2])
                elif k not in cur[2]:
                    raise Unknown(f'no field {k} in the model')
                else:
                    cur[2][k] = fit(cur[2][k], v)
        elif e.kind == 'push':
            c = step(cur, k)
            c.append(copy.deepcopy(ev.v(e.args[0])))
        else:
            raise Unknown(f'{e.kind} on {show(e.name)[:80]}')
    return out


def fit(old, v):
    if isinstance(old, tuple) and old[0] == 'rec' and old[1] == 'ptr':
        if isinstance(v, int):
            return split(v)
        if isinstance(v, tuple) and v[0] == 'rec':
            d = v[2]
            return ptr(d['index'], int(d.get('weight', d.get('complement', 0))))
    return v


def step(cur, k):
    if k == '*':
        return cur.obj
    if isinstance(cur, Ptr):
        cur = cur.obj
    try:
        return cur[k[1]] if isinstance(k, tuple) else cur[2][k]
    except (IndexError, KeyError):
        raise Unknown(f'store outside the model: {k}')


def norm(v):
    """comparable form: record names dropped, bools as ints, pointers followed"""
    if isinstance(v, Ptr):
        return ('*', norm(v.obj))
    if isinstance(v, tuple) and v and v[0] == 'rec':
        d = dict(v[2])
        if set(d) == {'index', 'complement'}:
            d = {'index': d['index'], 'weight': d['complement']}
        return ('rec', tuple(sorted((k, norm(x)) for k, x in d.items())))
    if isinstance(v, (list, tuple)):
        return tuple(norm(x) for x in v)
    if isinstance(v, bool):
        return int(v)
    return v


def diff(got, want, pre='network'):
    """first differing place of two stores"""
    if isinstance(got, Ptr) and isinstance(want, Ptr):
        return diff(got.obj, want.obj, pre)
    if isinstance(got, tuple) and isinstance(want, tuple) and got[:1] == ('rec',) == want[:1]:
        for k in want[2]:
            if k not in got[2]:
                return f'no {pre}.{k}'
            if norm(got[2][k]) != norm(want[2][k]):
                return diff(got[2][k], want[2][k], f'{pre}.{k}' if k != '_storage' else 'storage')
    if isinstance(got, list) and isinstance(want, list):
        if len(got) != len(want):
            return f'{len(got)} elements in {pre} instead of {len(want)}'
        for i, (a, b) in enumerate(zip(got, want)):
            if norm(a) != norm(b):
                return diff(a, b, f'{pre}[{i}]')
    return f'{pre} = {short(got)} instead of {short(want)}'


def short(v):
    n = norm(v)
    return str(n[1] if isinstance(n, tuple) and n and n[0] == 'rec' else n)[:120]
