"""C02 the structural hash holds exactly the live gates, once each, and finds them."""
import itertools
from engine.terms import *
from engine.interp import Interp
from engine.evalm import Unknown, plain
from engine.ctx import loc
from engine.trans import Run, rec, Ref

LEVEL = 'bounded'
CLS = 'iFPGA::storage'
MIN_DECIDED = 200
THIS = T('root', 'this', 'this')


def ptr(i, w):
    return rec('ptr', index=i, weight=w)


def node(a, b, nxt=0, tag=0):
    return rec('node', children=[ptr(*a), ptr(*b)], data=[rec('st', h1=tag, h2=0), rec('st', h1=0, h2=0)], next=nxt)


class Fn:
    def __init__(self, ctx, P, name, prims=None):
        fs = [f for f in P.find('storage::' + name) if (f['decl'].get('cls') or '').startswith(CLS)]
        ctx.need(fs, f'storage::{name} not found')
        self.f = fs[0]
        self.I = Interp(P, prims=prims or {})
        self.I.track_epochs = True
        self.ret, self.st = self.I.run(self.f)
        ctx.functions.update(self.I.funcs_seen)
        self.args = [T('root', 'arg', i, p['n'] or f'arg{i}') for i, p in enumerate(self.f['p'])]

    def run(self, store, args):
        cells = {'S': store}
        roots = {THIS: 'S'}
        for i, (r, a) in enumerate(zip(self.args, args)):
            cells[f'a{i}'] = a
            roots[r] = f'a{i}'
        R = Run(self.I, cells, roots)
        out = R.run()
        ret = None
        if self.ret.op not in ('void', 'noret') if isinstance(self.ret, Term) else True:
            ret = R.val(self.ret)
        return out['S'], ret, R


class Keys:
    def __init__(self, ctx, P):
        self.fn = Fn(ctx, P, 'abc_hash')
        self.memo = {}

    def __call__(self, n, size):
        k = (plain(n[2]['children']), size)
        if k not in self.memo:
            self.memo[k] = self.fn.run(rec('storage', nodes=[], hash=[], num_entries=0), [n, size])[1]
        return self.memo[k]


GATES = [((1, 0), (2, 0)), ((1, 1), (2, 0)), ((1, 0), (2, 1)), ((3, 0), (4, 1)), ((2, 1), (5, 1)), ((1, 0), (2, 0))]


def build(keys, chosen, size):
    """a storage whose table holds the chosen gates, inserted in the given order"""
    nodes = [node((0, 0), (0, 0))] + [node((i, 0), (i, 0)) for i in (0, 1)]
    base = len(nodes)
    for i, (a, b) in enumerate(GATES):
        nodes.append(node(a, b, 0, tag=i))
    h = [0] * size
    for g in chosen:
        n = base + g
        k = keys(nodes[n], size)
        nodes[n][2]['next'] = h[k]
        h[k] = n
    return rec('storage', nodes=nodes, hash=h, num_entries=len(chosen)), base


# more than 256 nodes, fan-ins that agree modulo 256
BIG = [((1, 0), (2, 0)), ((1, 0), (258, 0)), ((257, 0), (258, 0)), ((1, 1), (258, 0)), ((2, 0), (257, 0)), ((1, 0), (65538, 0)), ((1, 0), (2, 0))] + [((3 + i, 0), (270 + i, i & 1)) for i in range(290)]


def build_big(keys, chosen, size):
    nodes = [node((0, 0), (0, 0))] + [node((i, 0), (i, 0)) for i in range(299)]
    base = len(nodes)
    for i, (a, b) in enumerate(BIG):
        nodes.append(node(a, b, 0, tag=i))
    h = [0] * size
    for g in chosen:
        n = base + g
        k = keys(nodes[n], size)
        nodes[n][2]['next'] = h[k]
        h[k] = n
    return rec('storage', nodes=nodes, hash=h, num_entries=len(chosen)), base


def content(s, keys):
    """(sorted entries, problem)"""
    d = s[2]
    seen = []
    for b, e in enumerate(d['hash']):
        n = 0
        while e:
            if not isinstance(e, int) or not 0 < e < len(d['nodes']):
                return seen, f'bucket {b} holds {e}'
            if n > len(d['nodes']):
                return seen, f'the chain of bucket {b} is cyclic'
            if keys(d['nodes'][e], len(d['hash'])) != b:
                return seen, f'gate {e} is chained in a bucket its key does not lead to'
            seen.append(e)
            e = d['nodes'][e][2]['next']
            n += 1
    if len(set(seen)) != len(seen):
        return seen, 'a gate is chained twice'
    if d['num_entries'] != len(seen):
        return seen, f'num_entries is {d["num_entries"]} for {len(seen)} entries'
    return sorted(seen), ''


def same_but(a, b, fields):
    """both stores agree outside hash chains"""
    x = [(plain(n[2]['children']), plain(n[2]['data'])) for n in a[2]['nodes']]
    y = [(plain(n[2]['children']), plain(n[2]['data'])) for n in b[2]['nodes']]
    return x == y


def stores(keys, twins):
    ids = list(range(len(GATES) if twins else len(GATES) - 1))
    for size in (1, 2, 3, 7):
        for k in range(0, 4):
            for sub in itertools.permutations(ids, k):
                if k == 3 and size > 1 and sub[0] > sub[1]:
                    continue
                yield sub, size


def check(ctx, rule, fn, cases):
    bad, n = None, 0
    key = fn.f['decl']['qn']
    try:
        for what, f in cases:
            r = f()
            n += 1
            if r and bad is None:
                bad = f'{what}: {r}'
    except Unknown as u:
        ctx.undecided(rule, key, u)
        return
    if bad:
        ctx.viol(rule, key, loc(fn.f), bad)
    else:
        ctx.ok(rule, key, n)


def run(ctx):
    P = ctx.prog('ops')
    keys = Keys(ctx, P)
    build, GATES_ = globals()['build'], GATES
    find, ins, era, res = (Fn(ctx, P, n) for n in ('hash_find', 'hash_insert', 'hash_erase', 'hash_reserve'))

    ctx.rule('key', 'value graph of the hash key: depends on the fan-ins only and stays below the table size')

    def keycase(g, size):
        a, b = GATES[g]
        k1, k2 = keys.fn.run(rec('storage'), [node(a, b, 0, 1), size])[1], keys.fn.run(rec('storage'), [node(a, b, 5, 9), size])[1]
        if k1 != k2:
            return 'two gates with the same fan-ins have different keys'
        if not 0 <= k1 < size:
            return f'key {k1} for a table of {size}'
    check(ctx, 'key', keys.fn, [(f'gate {GATES[g]}, table of {s}', lambda g=g, s=s: keycase(g, s)) for g in range(5) for s in (1, 2, 3, 7, 10000)])

    ctx.rule('table', 'transfer functions of find, insert, erase and rehash (one-iteration summaries of their chain walks iterated) on all small chained tables: '
             'find returns the entry with these fan-ins or 0, insert and erase add and remove exactly the given gate, rehashing keeps the set')

    def finds():
        for sub, size in stores(keys, False):
            for g in range(5):
                yield f'looking up {GATES[g]} in a table of {size} holding gates {sub}', lambda sub=sub, size=size, g=g: f1(sub, size, g)

    def f1(sub, size, g):
        s, base = build(keys, sub, size)
        out, r, R = find.run(s, [node(*GATES_[g]), ])
        want = base + g if g in sub else 0
        if r != want:
            return f'returns {r}, expected {want}'
        if plain(out) != plain(s):
            return 'the table changes'

    def inserts():
        for sub, size in stores(keys, True):
            for g in range(len(GATES)):
                if g not in sub:
                    yield f'inserting gate {g} into a table of {size} holding {sub}', lambda sub=sub, size=size, g=g: i1(sub, size, g)

    def i1(sub, size, g):
        s, base = build(keys, sub, size)
        out, r, R = ins.run(s, [node(*GATES_[g]), base + g])
        got, why = content(out, keys)
        if why:
            return why
        if got != sorted(base + x for x in sub + (g,)):
            return f'the table then holds {got}'
        if not same_but(out, s, ()):
            return 'the nodes change'
        if R.asserts:
            return f'the assertion {R.asserts[0][0]} fails'

    def erases():
        for sub, size in stores(keys, True):
            for g in sub:
                yield f'removing gate {g} from a table of {size} holding {sub}', lambda sub=sub, size=size, g=g: e1(sub, size, g)

    two = len(era.args) == 2

    def e1(sub, size, g):
        s, base = build(keys, sub, size)
        out, r, R = era.run(s, [s[2]['nodes'][base + g], base + g][:len(era.args)])
        got, why = content(out, keys)
        if why:
            return why
        if got != sorted(base + x for x in sub if x != g):
            return f'the table then holds {got}'
        if not same_but(out, s, ()):
            return 'the nodes change'
        if R.asserts:
            return f'the assertion {R.asserts[0][0]} fails'

    def rehashes():
        for sub, size in stores(keys, True):
            for n in (1, 2, 5):
                yield f'rehashing a table of {size} holding {sub} to {n}', lambda sub=sub, size=size, n=n: r1(sub, size, n)

    def r1(sub, size, n):
        s, base = build(keys, sub, size)
        out, r, R = res.run(s, [n])
        got, why = content(out, keys)
        if why:
            return why
        if len(out[2]['hash']) != n:
            return f'the table then has {len(out[2]["hash"])} buckets'
        if got != sorted(base + x for x in sub):
            return f'the table then holds {got}'
        if not same_but(out, s, ()):
            return 'the nodes change'

    allbut = tuple(range(len(BIG) - 1, 6, -1)) + tuple(range(6))

    def big(f, n):
        for size in (1, 3, 1009):
            for sub in ((0, 1, 3), (5, 4, 2, 1, 0), tuple(range(7, 20)) + (1,), allbut):
                if len(sub) > 100 and size < 1009 and f is not f1:
                    continue
                for g in n(sub):
                    def case(sub=sub, size=size, g=g):
                        nonlocal build, GATES_
                        b, build = build, build_big
                        o, GATES_ = GATES_, BIG
                        try:
                            return f(sub, size, g)
                        finally:
                            build, GATES_ = b, o
                    yield f'gate {BIG[g] if f is not r1 else g} and a table of {size} holding {len(sub)} gates', case
    pick = (0, 1, 2, 3, 4, 5, 7, 264, len(BIG) - 1)
    check(ctx, 'table', find, itertools.chain(finds(), big(f1, lambda s: pick)))
    check(ctx, 'table', ins, itertools.chain(inserts(), big(i1, lambda s: [g for g in pick + (6,) if g not in s])))
    check(ctx, 'table', era, itertools.chain(erases(), big(e1, lambda s: [g for g in pick if g in s])))
    check(ctx, 'table', res, itertools.chain(rehashes(), big(r1, lambda s: (2, 700))))
