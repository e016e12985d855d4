"""C42 the database of rewriting offers only structures of the function that is asked for."""
from rules.values import *
from rules.c25 import guarded
from rules.c22 import library, shannon, signals

LEVEL = 'bounded'
MIN_DECIDED = 60
K = NS + 'node_rewriting::'
FULL = 0xffff
MEMBERS = [K + n for n in ('operator()', 'generate_classes', 'generate_db', 'padding_network_by_signal')] + [NS + 'decode_data_rewriting']


def apply_npn(r, phase, perm):
    """the function of which r is the representative: f(x) = r(y) ^ phase[4], y_i = x_perm[i] ^ phase[perm[i]]"""
    f = 0
    for m in range(16):
        k = 0
        for i in range(4):
            k |= ((m >> perm[i] & 1) ^ (phase >> perm[i] & 1)) << i
        f |= ((r >> k & 1) ^ (phase >> 4 & 1)) << m
    return f


def inverse_npn(f, phase, perm):
    r = 0
    for m in range(16):
        k = 0
        for i in range(4):
            k |= ((m >> perm[i] & 1) ^ (phase >> perm[i] & 1)) << i
        r |= ((f >> m & 1) ^ (phase >> 4 & 1)) << k
    return r


def p_cbegin(R, a):
    return Ptr('words', (tts(a[0])[2],))


def a_simulate(R, e):
    N = R.net(e.locs[0] if e.locs and e.locs[0] is not None else locof(e.args[0]))
    k, val = R.machine.nvars, values(N)
    R.machine.sims[:] = [('tt', k, val[i]) for i in range(len(N.nodes))]       # an object of its own
    return rec('node_map', data=Ptr('sims'))


def machine(ctx, P):
    M = OMachine(ctx, P, MEMBERS, opaque={NS + 'simulate_nodes', 'kitty::exact_npn_canonization', 'kitty::static_truth_table::cbegin', 'kitty::next_inplace'})
    M.need('operator()')
    M.pures['kitty::static_truth_table::cbegin'] = p_cbegin
    M.pures['ctor:kitty::static_truth_table::static_truth_table'] = lambda R, a: ('tt', R.machine.nvars, 0)
    M.algos[NS + 'simulate_nodes'] = a_simulate
    M.algos['kitty::exact_npn_canonization'] = a_npn
    M.algos['kitty::next_inplace'] = a_next
    M.pures['kitty::extend_to'] = lambda R, a: p_extend(R, a if len(a) > 1 else (a[0], 4))
    return M


def offered(M, N, leaves, f, npn, db, sigs, stop):
    """signals handed to the callback, with the network at that moment"""
    r, phase, perm = npn
    got = []

    class D:
        cur = {}

    def fn(s):
        got.append((s, D.cur['ntk']))
        return not (stop and len(got) >= stop)
    M.start({'ntk': N, 'db': db, 'words': list(range(1 << 16)), 'leaves': [N.out(s) for s in leaves],
             'this': rec('node_rewriting', _vec_canonical_repre={f: ('pair', ('tt', 4, r), phase, list(perm))}, _umap_repre_to_signal={('tt', 4, r): [db.out(s) for s in sigs]} if sigs else {},
                         _ntk_subgraph_db=NetRef('db'))})
    k = len(leaves)
    g = sum(1 << m for m in range(1 << k) if f >> m & 1)
    M.ocall('operator()', Ptr('this'), [NetRef('ntk'), ('tt', k, g), Ptr('leaves', (0,)), Ptr('leaves', (k,)), ('fn', D, fn)])
    return got


def lookup(M, N, leaves, sups, f, npn, db, sigs, stop):
    got = offered(M, N, leaves, f, npn, db, sigs, stop)
    if M.asserts:
        return f'the assertion {M.asserts[0]} fails'
    if sigs and not got:
        return 'no structure of a class the database knows is offered'
    if stop and len(got) > stop:
        return 'structures are offered after the caller has declined'
    k = len(leaves)
    for s, A in got:
        x = A.inp(s)
        if len(A.pis()) != len(N.pis()) or A.pos != N.pos or A.nodes[:len(N.nodes)] != N.nodes:
            return 'the network the structures are built in is changed'
        A.tts()
        ins = A.pis()
        val = values(A)
        want = 0
        lit = lambda y: val[y[0]] ^ (A.full if y[1] else 0)
        ws = [lit(y) for y in leaves]
        for m in range(A.full.bit_length()):
            j = sum((ws[q] >> m & 1) << q for q in range(k))
            want |= (f >> j & 1) << m
        if lit(x) != want:
            return f'a signal offered for the function {f:#06x} over {k} signals computes something else'
    return ''


def words(n):
    return [sum(1 << m for m in range(1 << n) if m >> i & 1) for i in range(n)]


def values(N):
    """functions of the nodes over the inputs"""
    return N.tts()


def random_data(rnd, npi, ng, npo):
    """(data, function of every line) of a structure list as decode_data_rewriting reads it"""
    full = (1 << (1 << npi)) - 1
    fs = [0] + words(npi)
    gates = []
    for _ in range(ng):
        while True:
            a, b = (rnd.randrange(2, 2 * len(fs)) for _ in range(2))
            if a >> 1 != b >> 1:
                break
        x = fs[a >> 1] ^ (full if a & 1 else 0)
        y = fs[b >> 1] ^ (full if b & 1 else 0)
        fs.append(x ^ y if a > b else x & y)
        gates += [a, b]
    pos = [rnd.randrange(2, 2 * len(fs)) for _ in range(npo)]
    return [ng << 16 | npo << 8 | npi] + gates + pos, [fs[p >> 1] ^ (full if p & 1 else 0) for p in pos]


def decode(M, data, want, npi):
    M.start({'db': Net('aig'), 'data': rec('database_npn4_aig', _values=list(data))})
    M.ocall('decode_data_rewriting', None, [NetRef('db'), Ptr('data')])
    if M.asserts:
        return f'the assertion {M.asserts[0]} fails'
    N = M.store['db']
    if len(N.pis()) != npi or len(N.pos) != len(want):
        return f'{len(N.pis())} inputs and {len(N.pos)} outputs instead of {npi} and {len(want)}'
    v = values(N)
    full = (1 << (1 << npi)) - 1
    for i, (p, w) in enumerate(zip(N.pos, want)):
        if v[p[0]] ^ (full if p[1] else 0) != w:
            return f'structure {i} does not compute the function of its data'
    return ''


def collect(M, rnd_canon, data):
    M.nvars = 4
    canon = {t: ('pair', ('tt', 4, rnd_canon(t)), 0, [0, 1, 2, 3]) for t in range(1 << 16)}
    M.sims = []
    M.start({'db': Net('aig'), 'words': list(range(1 << 16)), 'data': list(data), 'sims': M.sims, 'this': rec('node_rewriting', _vec_canonical_repre=canon, _umap_repre_to_signal={}, _ntk_subgraph_db=NetRef('db'))})
    M.ocall('generate_db', Ptr('this'), [Ptr('data')])
    if M.asserts:
        return f'the assertion {M.asserts[0]} fails'
    N = M.store['db']
    v = values(N)
    got = {}
    for t, ss in M.get(Ptr('this', ('_umap_repre_to_signal',))).items():
        t = t if isinstance(t, tuple) else plain(t)
        for s in ss:
            n, c = N.inp(s)
            if v[n] ^ (FULL if c else 0) != t[2]:
                return f'the signal ({n}, {c}) is stored for the class {t[2]:#06x} but computes {v[n] ^ (FULL if c else 0):#06x}'
            if rnd_canon(t[2]) != t[2]:
                return f'{t[2]:#06x} is no representative'
            got.setdefault(n, set()).add(c)
    for n in N.gates():
        if n not in got and (rnd_canon(v[n]) == v[n] or rnd_canon(v[n] ^ FULL) == v[n] ^ FULL):
            return f'the structure of gate {n} is not stored for its class'
    return ''


def classes(M):
    M.nvars = 2
    M.start({'words': list(range(16)), 'this': rec('node_rewriting', _vec_canonical_repre=[None] * 16, _umap_repre_to_signal={}, _ntk_subgraph_db=NetRef('db')), 'db': Net('aig')})
    M.ocall('generate_classes', Ptr('this'), [])
    got = M.get(Ptr('this', ('_vec_canonical_repre',)))
    for t in range(16):
        if got[t] != canonical(t):
            return f'the entry of the table {t:#x} holds {got[t]} instead of its normal form'
    return ''


def canonical(t):
    return ('pair', ('tt', 2, t * 7 % 16), 32 + t, [t, 0])


def a_npn(R, e):
    t = tts(R.val(e.args[0]))
    return canonical(t[2])


def a_next(R, e):
    t = tts(R.val(e.args[0]))
    R.set_arg(e, 0, ('tt', t[1], (t[2] + 1) % (1 << (1 << t[1]))))


def run(ctx):
    P = ctx.prog('ops')
    M = machine(ctx, P)
    big = ctx.tier == 'thorough'
    ctx.rule('lookup', 'transfer function of node_rewriting::operator() on small networks and databases: each signal it offers computes the asked function of the given signals, whatever input permutation, input and output complementation relates the function to its class')
    ctx.rule('collect', 'transfer function of generate_db: a signal is stored under a class only if it computes the representative of that class; generate_classes fills the entry of every table with the normal form of that table')
    ctx.rule('decode', 'transfer function of decode_data_rewriting: the structures compute the functions of their data lines')
    rnd = random.Random(42)
    lk, dc, cl = [], [], []
    lib = library(random.Random(9), 6000)
    for i in range(600 if big else 90):
        N = rnd_aig(rnd, rnd.randrange(3, 6), rnd.randrange(2, 7))
        k = 4 if i % 5 else rnd.choice((2, 3))
        live = [j for j in range(1, len(N.nodes))]
        leaves = [(n, rnd.randrange(2)) for n in (rnd.sample(live, k))]
        perm = rnd.sample(range(4), 4)
        phase = rnd.randrange(32)
        while True:
            if k == 4:
                r = rnd.choice(sorted(lib))
                f = apply_npn(r, phase, perm)
            else:
                g = rnd.randrange(1 << (1 << k))
                f = g
                for j in range(k, 4):
                    f |= f << (1 << j)
                r = inverse_npn(f, phase, perm)
            break
        cands = [(shannon(r, rnd.sample(range(4), 4))) for _ in range(2)]
        db = Net('aig', [('c', 0)] + [('pi',)] * 4, (), (), [1, 2, 3, 4])
        sigs = []
        if i % 9 == 2:          # a database with more than 256 nodes
            db = rnd_aig(rnd, 4, 290, 0)
        for w in cands:
            db, s = signals(db, (1, 2, 3, 4), w)
            sigs.append(s)
        for w in lib.get(r, [])[:2]:
            db, s = signals(db, (1, 2, 3, 4), w)
            sigs.append(s)
        if i % 10 == 3:
            N, leaves = padded(N), [(n + 256 * (n > 1), c) for n, c in leaves]
        lk.append((N, leaves, f, (r, phase, perm), db, sigs if i % 9 else [], rnd.randrange(3) if sigs else 0))
    for i in range(200 if big else 40):
        npi = rnd.randrange(2, 5)
        dc.append((npi,) + random_data(rnd, npi, rnd.randrange(1, 8), rnd.randrange(1, 5)))
    for npo in (3, 200):
        dc.append((4,) + random_data(rnd, 4, 300, npo))
    for i in range(40 if big else 8):
        key = rnd.randrange(1, 1 << 16)
        cl.append((key, i % 3, random_data(rnd, 4, rnd.randrange(3, 9), 2)[0]))

    def canon(key, mode):
        def f(t):
            a, b = t, t ^ FULL
            if mode == 2 and bin(t & key).count('1') % 3 == 0 and t not in (0, FULL):
                return a ^ 1                     # representative of neither
            return min(a, b) if bin(min(a, b) * key & 0xfff).count('1') % 2 == 0 else max(a, b)
        return f

    def cases():
        for N, l, f, npn, db, s, stop in lk:
            yield 'lookup', f'{N.show()}; function {f:#06x} over {l}; class {npn}; database {db.show()} offers {s}', lambda N=N, l=l, f=f, npn=npn, db=db, s=s, stop=stop: guarded(lambda: lookup(M, N, l, None, f, npn, db, s, stop))
        for npi, d, w in dc:
            yield 'decode', f'data {d}', lambda npi=npi, d=d, w=w: guarded(lambda: decode(M, d, w, npi))
        for k, m, d in cl:
            yield 'collect', f'data {d}, classes {k} {m}', lambda k=k, m=m, d=d: guarded(lambda: collect(M, canon(k, m), d))
        yield 'classes', 'tables of two variables', lambda: guarded(lambda: classes(M))
    ok, bad, und = sweep(cases)
    report(ctx, 'lookup', 'lookup', loc(M.fns['operator()'].f), ok, bad, und)
    report(ctx, 'collect', 'collect', loc(M.fns['generate_db'].f), ok, bad, und)
    report(ctx, 'collect', 'classes', loc(M.fns['generate_classes'].f), ok, bad, und)
    report(ctx, 'decode', 'decode', loc(M.fns['decode_data_rewriting'].f), ok, bad, und)
