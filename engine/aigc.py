"""Finite abstract AIGs for engine.trans: cells N (the network object), S (its storage), E (its events)."""
import itertools
from .terms import *
from .interp import Interp
from .evalm import Unknown, plain
from .trans import Run, rec, Ref

THIS = T('root', 'this', 'this')
DEAD = 0x80000000


def ptr(i, w):
    return rec('ptr', index=i, weight=int(w))


def sig(i, c):
    return rec('sig', index=i, complement=int(c))


def st(h1, h2):
    return rec('st', h1=h1, h2=h2)


def node(a, b, nxt=0, ref=0, tag=0):
    return rec('node', children=[ptr(*a), ptr(*b)], data=[st(ref, 0x40 + tag), st(0x60 + tag, (tag * 5) & 7)], next=nxt)


class Aig:
    """python view of the model: gates {index: (a, b)}"""

    def __init__(self, npi, gates, outs, nro=0, nri=0, dead=(), size=3, extra=None):
        self.npi, self.nro, self.nri = npi, nro, nri
        self.base = 1 + npi + nro
        self.gates, self.outs, self.dead, self.size = list(gates), list(outs), set(dead), size
        self.extra = extra or {}

    def cells(self, key, observers=1):
        n = self.base + len(self.gates)
        nodes = [node((0, 0), (0, 0))]
        for i in range(self.npi + self.nro):
            nodes.append(node((i >> 1, i & 1), (i >> 1, i & 1), tag=i + 1))
        ref = [0] * n
        h = [0] * self.size
        for i, (a, b) in enumerate(self.gates):
            g = self.base + i
            nodes.append(node(a, b, tag=g))
            if g not in self.dead:
                ref[a[0]] += 1
                ref[b[0]] += 1
        for o in self.outs:
            ref[o[0]] += 1
        for i in range(n):
            r = ref[i] + self.extra.get(i, 0)
            nodes[i][2]['data'][0][2]['h1'] = DEAD if i in self.dead else r
        for i in range(len(self.gates)):
            g = self.base + i
            if g not in self.dead:
                k = key(nodes[g], self.size)
                nodes[g][2]['next'] = h[k]
                h[k] = g
        S = rec('storage', nodes=nodes, inputs=list(range(1, self.base)), outputs=[ptr(*o) for o in self.outs],
                latch_information={}, hash=h, num_entries=len(self.gates) - len(self.dead),
                data=rec('data', num_pis=self.npi, num_pos=len(self.outs) - self.nri, latches=[0] * self.nri, trav_id=7))
        E = rec('events', **{k: [f'{k}#{i}' for i in range(observers)] for k in ('on_add', 'on_modified', 'on_delete')})
        return {'N': rec('aig', _storage=Ref('S'), _events=Ref('E')), 'S': S, 'E': E}

    def show(self):
        return f'{self.npi} inputs, gates {[f"{self.base + i}={lit(a)}*{lit(b)}" for i, (a, b) in enumerate(self.gates)]}, outputs {[lit(o) for o in self.outs]}'


def lit(s):
    return ('!' if s[1] else '') + str(s[0])


def sg(v):
    """(index, complement) of a signal or pointer record"""
    d = v[2]
    return d['index'], int(d['weight'] if 'weight' in d else d['complement'])


class State:
    """view of the storage cell after a run"""

    def __init__(self, cells):
        d = cells['S'][2]
        self.d = d
        self.nodes = d['nodes']
        self.n = len(self.nodes)
        self.inputs = d['inputs']
        self.outs = [sg(o) for o in d['outputs']]

    def kids(self, i):
        return tuple(sg(c) for c in self.nodes[i][2]['children'])

    def h1(self, i):
        return self.nodes[i][2]['data'][0][2]['h1']

    def dead(self, i):
        return self.h1(i) >> 31 & 1

    def ref(self, i):
        return self.h1(i) & 0x7fffffff

    def ci(self, i):
        return i in self.inputs

    def gate(self, i):
        return i != 0 and not self.ci(i)

    def refs(self):
        r = [0] * self.n
        for i in range(self.n):
            if self.gate(i) and not self.dead(i):
                for c, _ in self.kids(i):
                    r[c] += 1
        for o, _ in self.outs:
            r[o] += 1
        return r

    def table(self, key):
        """entries by chain, or a problem"""
        h = self.d['hash']
        seen = {}
        for b, e in enumerate(h):
            k = 0
            while e:
                if not isinstance(e, int) or not 0 < e < self.n or k > self.n:
                    return None, f'bucket {b} of the hash is damaged'
                if e in seen:
                    return None, f'gate {e} is chained twice'
                seen[e] = b
                e = self.nodes[e][2]['next']
                k += 1
        for e, b in seen.items():
            if key(self.nodes[e], len(h)) != b:
                return None, f'gate {e} is hashed under fan-ins it does not have'
        if self.d['num_entries'] != len(seen):
            return None, f'the gate counter is {self.d["num_entries"]} for {len(seen)} entries'
        return set(seen), ''

    def inv(self, key, loose=(), hold=None):
        """structural invariant; loose: nodes whose fan-out count is not compared; hold: extra references"""
        hold = hold or {}
        live = {i for i in range(self.n) if self.gate(i) and not self.dead(i)}
        ent, why = self.table(key)
        if ent is None:
            return why
        if ent != live:
            x = sorted(ent ^ live)[0]
            return f'gate {x} is {"dead but still" if x in ent else "live but not"} in the structural hash'
        r = self.refs()
        for i in sorted(live):
            a, b = self.kids(i)
            for c, _ in (a, b):
                if not 0 <= c < self.n:
                    return f'gate {i} has fan-in {c}'
                if self.dead(c):
                    return f'live gate {i} has the dead fan-in {c}'
            if not 0 < a[0] < b[0]:
                return f'gate {i} has the fan-ins {lit(a)}, {lit(b)}'
        for o, _ in self.outs:
            if self.dead(o):
                return f'an output refers to the dead node {o}'
        for i in range(1, self.n):
            if i in loose:
                continue
            if self.dead(i):
                if self.ref(i):
                    return f'dead node {i} has the fan-out count {self.ref(i)}'
            elif self.ref(i) != r[i] + hold.get(i, 0):
                return f'node {i} has the fan-out count {self.ref(i)} for {r[i] + hold.get(i, 0)} references'
        return ''

    def tts(self, over=None):
        """truth tables of all nodes over the inputs; over: {node: function(values) } overriding a gate"""
        k = len(self.inputs)
        full, cols = columns(k)
        v = {0: 0}
        for i, n in enumerate(self.inputs):
            v[n] = cols[i]
        busy = set()

        def val(i):
            if i in v:
                return v[i]
            if i in busy:
                raise Unknown('cyclic network')
            busy.add(i)
            if over and i in over and over[i][0] != i:
                j, c = over[i]
                v[i] = val(j) ^ (full if c else 0)
            else:
                (a, ac), (b, bc) = self.kids(i)
                v[i] = (val(a) ^ (full if ac else 0)) & (val(b) ^ (full if bc else 0))
                if over and i in over and over[i][1]:
                    v[i] ^= full
            return v[i]
        if over:
            for i in over:
                if i in v:
                    j, c = over[i]
                    keep = v.pop(i)
                    v[i] = (keep if j == i else val(j)) ^ (full if c else 0)
        for i in range(self.n):
            if not (self.gate(i) and self.dead(i)):
                val(i)
        self.full = full
        return v

    def po(self, v):
        return [v[o] ^ (self.full if c else 0) for o, c in self.outs]

    def fn(self, v, s):
        return v[s[0]] ^ (self.full if s[1] else 0)


class Fns:
    """recovered transfer functions of aig_network members; calls between them are resolved by running the callee's
    own transfer function on the current abstract store"""

    def __init__(self, ctx, P, cls='iFPGA::aig_network', opaque=()):
        self.ctx, self.P, self.cls, self.memo = ctx, P, cls, {}
        self.opaque = set(opaque)
        self.depth = 0

    def get(self, name):
        if name not in self.memo:
            fs = [f for f in self.P.find('aig_network::' + name) if f['decl']['qn'] == f'{self.cls}::{name}']
            self.ctx.need(fs, f'{self.cls}::{name} not found')
            f = fs[0]
            I = Interp(self.P, opaque={f'{self.cls}::{o}' for o in self.opaque if o != name})
            I.track_epochs = True
            ret, _ = I.run(f)
            self.ctx.functions.update(I.funcs_seen)
            self.memo[name] = f, I, ret, [T('root', 'arg', i, p['n'] or f'arg{i}') for i, p in enumerate(f['p'])]
        return self.memo[name]

    def contracts(self):
        def mk(o):
            def c(R, args):
                cells, ret, sub = self.run(o, R.cur, args[1:])
                R.cur = {**R.cur, **{k: cells[k] for k in 'NSE'}}
                R.log += sub.log
                R.asserts += sub.asserts
                return ret
            return c
        return {o: mk(o) for o in self.opaque}

    def run(self, name, cells, args):
        f, I, ret, roots = self.get(name)
        self.depth += 1
        try:
            if self.depth > 600:
                raise Unknown('recursion does not end in the model')
            cs = {k: cells[k] for k in 'NSE'}
            rt = {THIS: 'N'}
            for i, (r, a) in enumerate(zip(roots, args)):
                cs[f'a{i}'] = a
                rt[r] = f'a{i}'
            R = Run(I, cs, rt, contracts=self.contracts(), limit=60000)
            out = R.run()
            rv = None
            if not (isinstance(ret, Term) and ret.op in ('void', 'noret')):
                rv = R.val(ret)
            return out, rv, R
        finally:
            self.depth -= 1
