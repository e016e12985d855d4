"""C03 fan-out counts, dead nodes and in-place substitution of the AND-inverter graph."""
import itertools
import random
from engine.aigc import *
from engine.ctx import loc
from engine.par import sweep
from rules.c02 import Keys

LEVEL = 'bounded'
MIN_DECIDED = 1000
NAMES = ('create_pi', 'create_ro', 'create_po', 'create_ri', 'create_and', 'take_out_node', 'replace_in_node', 'replace_in_outputs', 'substitute_node')
OPAQUE = ('take_out_node', 'replace_in_node', 'replace_in_outputs')


def structures(npi, ngates, nro=0):
    """all strashed gate lists over npi inputs"""
    base = 1 + npi + nro

    def rec_(gates):
        if len(gates) == ngates:
            yield list(gates)
            return
        n = base + len(gates)
        for a, b in itertools.combinations(range(1, n), 2):
            for p in range(4):
                g = ((a, p & 1), (b, p >> 1))
                if g not in gates:
                    yield from rec_(gates + [g])
    yield from rec_([])


def random_aig(rnd, npi, ngates, nro=0, nri=0):
    base = 1 + npi + nro
    gates = []
    while len(gates) < ngates:
        n = base + len(gates)
        a, b = sorted(rnd.sample(range(1, n), 2))
        if rnd.random() < .5 and n - 1 > a:
            b = n - 1
        g = ((a, rnd.randrange(2)), (b, rnd.randrange(2)))
        if g not in gates:
            gates.append(g)
    n = base + ngates
    outs = [(rnd.randrange(0 if i else base, n), rnd.randrange(2)) for i in range(nri + rnd.choice((1, 2, 3)))]
    return Aig(npi, gates, outs, nro=nro, nri=nri, size=rnd.choice((1, 2, 5)))


def shuffled(rnd, A):
    """the same network with its gates numbered in another (not topological) order, as earlier substitutions leave it"""
    p = list(range(len(A.gates)))
    rnd.shuffle(p)
    m = {i: i for i in range(A.base)}
    m.update({A.base + i: A.base + x for i, x in enumerate(p)})
    g = [None] * len(A.gates)
    for i, (a, b) in enumerate(A.gates):
        g[p[i]] = tuple(sorted(((m[a[0]], a[1]), (m[b[0]], b[1]))))
    return Aig(A.npi, g, [(m[o], c) for o, c in A.outs], nro=A.nro, nri=A.nri, size=A.size)


def family(ctx, thorough):
    fam = []
    lists = [(2, g) for k in (0, 1, 2) for g in structures(2, k)]
    third = [(2, g) for g in structures(2, 3)]
    lists += third if thorough else third[::29]
    for i, (npi, g) in enumerate(lists):
        n = 1 + npi + len(g)
        outs = [(n - 1, i & 1)] + ([(n - 2, (i >> 1) & 1)] if i & 4 else []) + ([(n - 1, 1 - (i & 1))] if i & 8 else [])
        fam.append(Aig(npi, g, outs, size=(1, 2, 5)[i % 3]))
    rnd = random.Random(20261119)
    for _ in range(600 if thorough else 50):
        fam.append(random_aig(rnd, rnd.choice((2, 3)), rnd.choice((3, 4, 5, 6))))
    for _ in range(100 if thorough else 20):
        fam.append(random_aig(rnd, 2, rnd.choice((2, 3, 4)), nro=1, nri=1))
    for _ in range(400 if thorough else 60):
        fam.append(shuffled(rnd, random_aig(rnd, rnd.choice((2, 3)), rnd.choice((3, 4, 5, 6)))))
    # cascades: a replacement that makes a fan-out trivial or equal to an existing gate, several levels deep
    fam += [Aig(3, [((1, 0), (2, 0)), ((1, 0), (3, 0)), ((2, 0), (4, 0)), ((2, 0), (5, 0)), ((6, 0), (7, 1))], [(8, 0)], size=3),
            Aig(3, [((1, 0), (2, 0)), ((3, 0), (4, 0)), ((1, 0), (3, 0)), ((2, 0), (6, 0)), ((5, 0), (7, 1)), ((1, 1), (8, 0))], [(9, 0), (7, 1)], size=1),
            Aig(2, [((1, 0), (2, 0)), ((1, 0), (3, 0)), ((1, 1), (4, 1)), ((2, 1), (5, 1)), ((3, 1), (6, 0))], [(7, 0), (4, 1)], size=2)]
    return fam


def wide():
    """networks past the ranges of 8-bit quantities: indices that agree modulo 256, more than 256 inputs, outputs and references"""
    out = []
    for npi in (258, 300):
        b = npi + 1
        g = [((1, 0), (2, 0)), ((1, 0), (257, 1)), ((2, 0), (258, 0)), ((b, 0), (b + 1, 0)), ((b + 1, 1), (b + 2, 0)), ((b + 3, 0), (b + 4, 1))]
        out.append(Aig(npi, g, [(b + 5, 0), (b + 3, 1)], size=5))
        out.append(Aig(npi, g, [(b + 3, 0)] * 254 + [(b + 4, 1), (b + 5, 0)], size=257))
    # one node with 255 gates below an output, one node with 300 fan-outs
    b = 303 + 1
    out.append(Aig(303, [((1, 0), (i, i & 1)) for i in range(2, 302)], [(b + 299, 0), (b + 255, 1), (1, 0)], size=64))
    out.append(Aig(303, [((1, 0), (2, 0)), ((3, 0), (b, 1))] + [((i, i & 1), (b, 0)) for i in range(4, 303)], [(b + i, 0) for i in range(1, 301)], size=512))
    return out


WIDE_NETS = wide()


def wide_cases(C):
    for A in WIDE_NETS:
        n = A.base + len(A.gates)
        ns = [i for i in (0, 1, 2, 257, 258) if i < n] + [i for i in range(A.base, n)][:6] + [n - 1]
        ns = sorted(set(ns))
        sh = f'{A.npi} inputs and {len(A.gates)} gates ({len(A.outs)} outputs)'
        for w in ('create_pi', 'create_ro'):
            yield w, f'{w} on {sh}', lambda A=A, w=w: C.create(A, w, [''])
        for i in ns:
            yield 'create_po', f'create_po({lit((i, 1))}) on {sh}', lambda A=A, i=i: C.create(A, 'create_po', [sig(i, 1), ''])
            yield 'create_ri', f'create_ri({lit((i, 1))}) on {sh}', lambda A=A, i=i: C.create(A, 'create_ri', [sig(i, 1), 1, ''])
        for i, j in itertools.combinations(ns, 2):
            q = (i + j) & 3
            a, b = (i, q & 1), (j, q >> 1)
            yield 'create_and', f'create_and({lit(a)}, {lit(b)}) on {sh}', lambda A=A, a=a, b=b: C.create(A, 'create_and', [sig(*a), sig(*b)])
        refs = C.base(A)[1].refs()
        for i in ns:
            if refs[i] == 0 or i < A.base:
                yield 'take_out_node', f'taking out node {i} of {sh}', lambda A=A, i=i: C.takeout(A, i)
            for j in ns:
                q = (i ^ j) & 1
                if not i or i == j:
                    continue
                yield 'replace_in_outputs', f'replacing {i} by {lit((j, q))} in the outputs of {sh}', lambda A=A, i=i, j=j, q=q: C.in_outputs(A, i, (j, q))
                if i in cone(A, j):
                    continue
                for g in ns:
                    if g >= A.base and g not in cone(A, j) and i in [k for k, _ in A.gates[g - A.base]]:
                        yield 'replace_in_node', f'replacing {i} by {lit((j, q))} in gate {g} of {sh}', lambda A=A, g=g, i=i, j=j, q=q: C.in_node(A, g, i, (j, q))
                if len(A.gates) < 100 or i >= A.base and j:
                    yield 'substitute_node', f'substituting {i} by {lit((j, q))} in {sh}', lambda A=A, i=i, j=j, q=q: C.substitute(A, i, (j, q))


def cone(A, n):
    """nodes in the fan-in cone of n, n included"""
    s, todo = set(), [n]
    while todo:
        i = todo.pop()
        if i in s:
            continue
        s.add(i)
        if i >= A.base:
            todo += [c[0] for c in A.gates[i - A.base]]
    return s


class Checker:
    def __init__(self, ctx, P):
        self.ctx = ctx
        self.key = Keys(ctx, P)
        self.F = Fns(ctx, P, opaque=OPAQUE)
        self.cache = {}

    def base(self, A, observers=1):
        k = id(A), observers
        if k not in self.cache:
            c = A.cells(self.key, observers)
            s = State(c)
            why = s.inv(self.key)
            self.ctx.need(not why, f'model broken: {why}')
            self.cache[k] = c, s, s.tts()
        return self.cache[k]

    def functions_kept(self, s0, v0, s1, skip=()):
        """every gate alive in both keeps its function and fan-ins"""
        for i in range(1, s0.n):
            if i in skip or (s0.gate(i) and s0.dead(i)):
                continue
            if s1.dead(i):
                return f'node {i} is dead afterwards'
            if s1.ci(i) != s0.ci(i) or (s0.gate(i) and s1.kids(i) != s0.kids(i)):
                return f'node {i} changes'
        return ''

    def events(self, R, want):
        got = sorted((str(w).split('#')[0], a[0] if a else None) for w, a in R.log)
        if got != sorted(want):
            return f'the observers are told {got}, expected {sorted(want)}'
        return ''

    # ---- construction
    def create(self, A, what, args, nobs=1):
        c, s0, v0 = self.base(A, nobs)
        out, r, R = self.F.run(what, c, args)
        s = State(out)
        if R.asserts:
            return f'the assertion {R.asserts[0][0]} fails'
        why = s.inv(self.key) or self.functions_kept(s0, v0, s)
        if why:
            return why
        ev = []
        if what in ('create_pi', 'create_ro'):
            n = s0.n
            if s.n != n + 1 or s.inputs != s0.inputs + [n] or sg(r) != (n, 0) or s.outs != s0.outs or s.refs()[n]:
                return f'the new input is not node {n} appended to the inputs'
            k = len(s0.inputs)
            if s.kids(n) != ((k >> 1, k & 1),) * 2:
                return f'the new input is not marked as the input at position {k}'
            d = s.d['data'][2]['num_pis'] - s0.d['data'][2]['num_pis']
            if d != (what == 'create_pi'):
                return f'the number of primary inputs changes by {d}'
        elif what in ('create_po', 'create_ri'):
            if s.outs != s0.outs + [sg(args[0])] or r != len(s0.outs) or s.n != s0.n:
                return f'the outputs become {[lit(o) for o in s.outs]}, index {r}'
            d = s.d['data'][2]
            d0 = s0.d['data'][2]
            if d['num_pos'] - d0['num_pos'] != (what == 'create_po') or len(d['latches']) - len(d0['latches']) != (what == 'create_ri'):
                return 'the output and register counters do not match'
            if what == 'create_ri' and d['latches'][-1] != args[1]:
                return f'the reset value {args[1]} is stored as {d["latches"][-1]}'
        else:
            a, b = sg(args[0]), sg(args[1])
            v = s.tts()
            want = s.fn(v, a) & s.fn(v, b)
            if s.fn(v, sg(r)) != want:
                return f'{lit(a)} and {lit(b)} returns {lit(sg(r))}'
            if s.n > s0.n + 1:
                return f'{s.n - s0.n} gates are added'
            if s.n == s0.n + 1:
                ev = [('on_add', s0.n)] * nobs
                if sg(r)[0] != s0.n:
                    return 'a gate is added and not returned'
            if s.outs != s0.outs or s.inputs != s0.inputs:
                return 'the interface changes'
        return self.events(R, ev)

    # ---- deletion
    def takeout(self, A, n):
        c, s0, v0 = self.base(A)
        out, r, R = self.F.run('take_out_node', c, [n])
        s = State(out)
        if R.asserts:
            return f'the assertion {R.asserts[0][0]} fails'
        gone = set()
        if s0.gate(n) and not s0.dead(n):
            ref = s0.refs()
            todo = [n]
            while todo:
                i = todo.pop()
                gone.add(i)
                for k, _ in s0.kids(i):
                    ref[k] -= 1
                    if ref[k] == 0 and s0.gate(k):
                        todo.append(k)
        for g in gone:
            if not s.dead(g):
                return f'gate {g}, which lost its last fan-out, stays alive'
        why = s.inv(self.key) or self.functions_kept(s0, v0, s, gone)
        return why or self.events(R, [('on_delete', g) for g in gone])

    # ---- one replacement
    def in_node(self, A, n, old, new):
        c, s0, v0 = self.base(A)
        out, r, R = self.F.run('replace_in_node', c, [n, old, sig(*new)])
        s = State(out)
        v = s.tts()
        if R.asserts:
            return f'the assertion {R.asserts[0][0]} fails'
        kids = s0.kids(n)
        ix = [k for k, _ in kids].index(old) if old in (kids[0][0], kids[1][0]) else None
        if ix is None:
            if r != ('nullopt',) or s.kids(n) != kids:
                return f'node {n} does not have the fan-in {old} and changes'
            why = s.inv(self.key) or self.functions_kept(s0, v0, s)
            return why or self.events(R, [])
        x = v0[new[0]] ^ (s0.full if new[1] ^ kids[ix][1] else 0)
        want = x & s0.fn(v0, kids[1 - ix])
        if r == ('nullopt',):
            if s.kids(n) == kids:
                return 'the fan-in is not replaced'
            why = s.inv(self.key, hold={old: 0 if new[0] == old else 1}) or self.functions_kept(s0, v0, s, (n,))
            if why:
                return why
            a, b = s.kids(n)
            if s0.fn(v0, a) & s0.fn(v0, b) != want:
                return f'the fan-ins become {lit(a)}, {lit(b)}'
            for w, a in R.log:
                if len(a) > 1 and [sg(x) for x in a[1]] != list(kids):
                    return 'the observers are told other former fan-ins'
            return self.events(R, [('on_modified', n)])
        p = plain(r)
        try:
            m, sgn = self.pair(r)
        except Unknown:
            return f'returns {p}'
        if m != n:
            return f'the pending substitution is for node {m}'
        if s0.fn(v0, sgn) != want:
            return f'node {n} is to be substituted by {lit(sgn)}, which is another function'
        why = s.inv(self.key) or self.functions_kept(s0, v0, s)
        return why or self.events(R, [])

    def pair(self, r):
        if isinstance(r, tuple) and r and r[0] == 'some':
            r = r[1]
        if isinstance(r, tuple) and r and r[0] == 'pair':
            return r[1], sg(r[2])
        raise Unknown('not a pair')

    # ---- outputs
    def in_outputs(self, A, old, new):
        c, s0, v0 = self.base(A)
        out, r, R = self.F.run('replace_in_outputs', c, [old, sig(*new)])
        s = State(out)
        v = s.tts()
        want = [(new[0], o[1] ^ new[1]) if o[0] == old else o for o in s0.outs]
        if old >= A.base and old in A.dead:
            want = s0.outs
        if s.outs != want:
            return f'the outputs become {[lit(o) for o in s.outs]}'
        k = sum(o[0] == old for o in s0.outs) if new[0] != old else 0
        why = s.inv(self.key, hold={old: k} if old not in A.dead else {}) or self.functions_kept(s0, v0, s)
        return why or self.events(R, [])

    # ---- substitution
    def substitute(self, A, old, new):
        c, s0, v0 = self.base(A)
        over = s0.tts({old: new})
        want = s0.po(over)
        out, r, R = self.F.run('substitute_node', c, [old, sig(*new)])
        s = State(out)
        if R.asserts:
            return f'the assertion {R.asserts[0][0]} fails'
        loose = {old} if s0.ci(old) else set()
        why = s.inv(self.key, loose=loose)
        if why:
            return why
        v = s.tts()
        got = s.po(v)
        for i, (a, b) in enumerate(zip(got, want)):
            if a != b:
                return f'output {i} computes another function'
        if s.n != s0.n or s.inputs != s0.inputs:
            return 'nodes are added'
        if old != new[0]:
            if s.refs()[old] and old not in A.dead:
                return f'node {old} is still referenced'
            if s0.gate(old) and not s.dead(old):
                return f'the substituted node {old} stays alive'
        R.log = [x for x in R.log if not str(x[0]).startswith('on_modified')]
        return self.events(R, [('on_delete', i) for i in range(s.n) if s.dead(i) and not s0.dead(i)])


def cases(C, fam, thorough):
    ctx = C.ctx
    small = fam if thorough else fam[:60] + fam[60::3]
    for fi, A in enumerate(small):
        n = A.base + len(A.gates)
        ns = range(n)
        sh = A.show()
        if fi % (1 if thorough else 6) == 0:
            for w in ('create_pi', 'create_ro'):
                yield w, f'{w} on {sh}', lambda A=A, w=w: C.create(A, w, [''])
            al = [i for i in ns if i not in A.dead]
            for i in al:
                for q in (0, 1):
                    yield 'create_po', f'create_po({lit((i, q))}) on {sh}', lambda A=A, i=i, q=q: C.create(A, 'create_po', [sig(i, q), ''])
                    yield 'create_ri', f'create_ri({lit((i, q))}) on {sh}', lambda A=A, i=i, q=q: C.create(A, 'create_ri', [sig(i, q), q, ''])
            for a, b in itertools.product(itertools.product(al, (0, 1)), repeat=2):
                if not thorough and (a[0] + b[0] + fi) % 3 == 0:
                    continue
                yield 'create_and', f'create_and({lit(a)}, {lit(b)}) on {sh}', lambda A=A, a=a, b=b, fi=fi: C.create(A, 'create_and', [sig(*a), sig(*b)], 1 + fi % 3)
        refs = C.base(A)[1].refs()
        for i in ns:
            if refs[i] == 0 or i < A.base or i in A.dead:
                yield 'take_out_node', f'taking out node {i} of {sh}', lambda A=A, i=i: C.takeout(A, i)
            if i in A.dead:
                continue
            for j, q in itertools.product(ns, (0, 1)):
                if j in A.dead:
                    continue
                if i:
                    yield 'replace_in_outputs', f'replacing {i} by {lit((j, q))} in the outputs of {sh}', lambda A=A, i=i, j=j, q=q: C.in_outputs(A, i, (j, q))
                    for g in range(A.base, n):
                        if g not in A.dead and g not in cone(A, j):
                            yield 'replace_in_node', f'replacing {i} by {lit((j, q))} in gate {g} of {sh}', lambda A=A, g=g, i=i, j=j, q=q: C.in_node(A, g, i, (j, q))
    for fi, A in enumerate(fam):
        n = A.base + len(A.gates)
        for i in range(1, n):
            if i in A.dead:
                continue
            for j, q in itertools.product(range(n), (0, 1)):
                if j in A.dead or i in cone(A, j):
                    continue
                if not thorough and len(A.gates) >= 3 and (i + j + q + fi) % 3:
                    continue
                yield 'substitute_node', f'substituting {i} by {lit((j, q))} in {A.show()}', lambda A=A, i=i, j=j, q=q: C.substitute(A, i, (j, q))


DEADNETS = [Aig(2, [((1, 0), (2, 0)), ((1, 1), (2, 0)), ((1, 0), (3, 0))], [(4, 0)], dead=(3, 5), size=2),
            Aig(3, [((1, 0), (2, 0)), ((3, 0), (4, 0)), ((1, 0), (3, 1)), ((2, 0), (6, 1))], [(7, 1)], dead=(4, 5), size=3)]


def run(ctx):
    P = ctx.prog('ops')
    C = Checker(ctx, P)
    thorough = ctx.tier == 'thorough'
    fam = family(ctx, thorough) + DEADNETS
    ctx.rule('store', 'transfer functions of the members of aig_network on finite networks: every live gate is hashed once under its fan-ins and refers to live nodes, every fan-out count equals the '
             'number of references, dead nodes have count zero; only the named change happens; observers are told exactly the added, changed and deleted gates; the Boolean functions of the outputs follow the substitution')
    for fn in NAMES:
        C.F.get(fn)
    for A in fam:
        C.base(A)
    res, bad, und = sweep(lambda: itertools.chain(cases(C, fam, thorough), wide_cases(C)))
    for fn in NAMES:
        q = 'iFPGA::aig_network::' + fn
        if fn in bad:
            ctx.viol('store', q, loc(C.F.get(fn)[0]), bad[fn])
        elif fn in und:
            ctx.undecided('store', q, und[fn])
        else:
            ctx.ok('store', q, res.get(fn, 0))
