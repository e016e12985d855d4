"""C22 rewriting keeps every output, and a replacement saves what the options demand."""
import itertools
from rules.values import *
from rules.cuts import set_value
from rules.c25 import guarded

LEVEL = 'bounded'
MIN_DECIDED = 60
RW = NS + 'detail::rewrite_impl::'
REFS = [NS + n for n in ('deref_node_recursive', 'ref_node_recursive', 'deref_node_recursive_cond', 'ref_node_recursive_cond')]
OPAQUE = {NS + 'cleanup_dangling', NS + 'cut_enumeration', NS + 'network_cuts::cuts', NS + 'network_cuts::truth_table'}


def offers(qn, d, e):
    """the database of structures: a loop over the signals it offers, each created just before it is shown"""
    if d.get('n') == 'operator()' and e.get('m') and 'rewriting' in qn and '(lambda' not in qn:
        def h(I, st, fr, e, args):
            lamv = args[-1]
            if lamv.op == 'addr':
                lamv = I.load(st, lamv.args[0])
            key = (resolved(I, st, args[1]),) + tuple(args[2:-1])
            cnt = T('nel', I.epoch(), 'offer', *key)
            tm.mark_unsigned(cnt)

            def elems(iv):
                ev = I.event(st, fr, 'call', qn, key + (iv,), e, fid=None)
                v = T('ret', I.epoch(), qn)
                if ev is not None:
                    ev.extra, ev.val = ('net', 'offer'), v
                return [T('val', v)]
            s2 = I.run_callback_loop(st, fr, e, lamv, elems, 'offer', T('net', key[0]), count=cnt, stop=True)
            I.assign_state(st, s2)
            return T('void')
        return h
    return edits(qn, d, e)


class RwFrame(OFrame):
    def elements(self, op, loc, args, store):
        if op == 'offer':
            return list(range(len(self.machine.offer(self.leaves(args), args[0]))))
        return super().elements(op, loc, args, store)

    def leaves(self, args):
        return tuple(plain(self.base_inp(x)) for x in seq(self, args[1], args[2]))

    def base_inp(self, x):
        return self.cur['ntk'].inp(x)


def library(rnd, count):
    """structures over four signals by function: {table: [list of gates]}"""
    base = [sum(1 << m for m in range(16) if m >> i & 1) for i in range(4)]
    lib = {}
    for _ in range(count):
        v, g = list(base), []
        for _ in range(rnd.randrange(1, 6)):
            i, j = rnd.sample(range(len(v)), 2)
            if rnd.random() < .6:
                i = len(v) - 1
                j = rnd.randrange(i)
            c, d = rnd.randrange(2), rnd.randrange(2)
            x = (v[i] ^ (0xffff if c else 0)) & (v[j] ^ (0xffff if d else 0))
            if x in (0, 0xffff) or x in v or x ^ 0xffff in v:       # as in a database of minimal structures
                break
            g.append(((i, c), (j, d)))
            v.append(x)
        used = {k for x in g for k, _ in x}
        if any(4 + k not in used for k in range(len(g) - 1)):
            continue
        for out in (0, 1) if g else ():
            l = lib.setdefault(v[-1] ^ (0xffff if out else 0), [])
            if len(l) < 4 and (g, out) not in l:
                l.append((g, out))
    return lib


def shannon(t, order):
    """a structure of the table, by expansion in the given order of variables; signals are (index, complement), -1 is the constant"""
    g = []
    n = len(order)
    full = (1 << (1 << n)) - 1

    def land(a, b):
        g.append((a, b))
        return n + len(g) - 1, 0

    def neg(a):
        return a[0], a[1] ^ 1

    def go(f, vs):
        if f == 0 or f == full:
            return -1, int(f != 0)
        x, rest = vs[0], vs[1:]
        f0 = f1 = 0
        for m in range(1 << n):
            if f >> (m & ~(1 << x)) & 1:
                f0 |= 1 << m
            if f >> (m | 1 << x) & 1:
                f1 |= 1 << m
        if f0 == f1:
            return go(f0, rest)
        s0, s1 = go(f0, rest), go(f1, rest)
        a, b = land((x, 0), s1), land((x, 1), s0)
        return neg(land(neg(a), neg(b)))
    return g, go(t, list(order))


def build(R, leaves, what):
    g, out = what
    c, s = 'ntk', list(leaves)

    def sig(x):
        b = s[x[0]] if x[0] >= 0 else (0, 0)
        return b[0], b[1] ^ x[1]
    for a, b in g:
        x = R.aig_and(c, R.cur[c], [sig(a), sig(b)])
        s.append(R.cur[c].inp(x))
    return sig(out) if isinstance(out, tuple) else (s[-1][0], s[-1][1] ^ out)


def c_offer(R, loc, a):
    t, k = a[0], a[3]
    M = R.machine
    leaves = R.leaves(a[:3])
    if not (isinstance(t, tuple) and t[0] == 'tt' and t[1] == len(leaves)):
        raise Damage(f'the database is asked for a table of {t[1]} variables over {len(leaves)} signals')
    s = build(R, leaves, M.offer(leaves, t)[k])
    R.cur = {**R.cur, 'ntk': with_vals(R.cur['ntk'], list(vals(R.cur['ntk'])) + [0] * (len(R.cur['ntk'].nodes) - len(vals(R.cur['ntk']))))}
    return R.cur['ntk'].out(s)


# ---------------------------------------------------------------- cuts of the source
def all_cuts(N, limit):
    cs = {}
    for i, x in enumerate(N.nodes):
        if x[0] == 'c':
            cs[i] = [()]
        elif x[0] != 'g':
            cs[i] = [(i,)]
        else:
            r = []
            for a in cs[x[2][0][0]]:
                for b in cs[x[2][1][0]]:
                    u = tuple(sorted(set(a) | set(b)))
                    if len(u) <= 4 and u not in r and not any(set(c) < set(u) for c in r):
                        r.append(u)
            r.sort(key=lambda u: (-len(u), u))
            cs[i] = r[:limit] + [(i,)]
    return cs


def a_cut_enumeration(R, e):
    return rec('network_cuts')


def a_cuts(R, e):
    i = R.val(e.args[1])
    return Ptr('nc', ('_cuts', R.nodeno(R.cur['src'], i)))


def a_table(R, e):
    v = R.val(e.args[1])
    l = e.locs[1] if len(getattr(e, 'locs', [])) > 1 and e.locs[1] is not None else locof(e.args[1])
    leaves = [x for x in v[2]['_leaves'][:v[2]['_length']]]
    p = R.place(l)
    root = p[1][1]
    t = R.machine.ctts.get((root, tuple(leaves)))
    if t is None:
        raise Damage(f'the table of the cut {leaves} of the node {root} is asked for')
    return ('tt',) + t


def a_cleanup(R, e):
    R.cur = {**R.cur, 'result': R.cur['ntk']}
    return NetRef('result')


def machine(ctx, P):
    names = sorted({f['decl']['qn'] for f in P.fns.values() if f['decl']['qn'].startswith(RW) and '~' not in f['decl']['qn'] and not f['decl'].get('cst')})
    M = OMachine(ctx, P, [n for n in names if not n.endswith('::rewrite_impl')] + REFS, extra=offers, opaque=OPAQUE, frame=RwFrame)
    M.need('run')
    M.queries['value'] = q_value
    M.calls.update(CALLS)
    M.calls['offer'] = c_offer
    M.algos[NS + 'cut_enumeration'] = a_cut_enumeration
    M.algos[NS + 'network_cuts::cuts'] = a_cuts
    M.algos[NS + 'network_cuts::truth_table'] = a_table
    M.algos[NS + 'cleanup_dangling'] = a_cleanup
    return M


def rewriting(M, N, cuts, offer, zero, keep):
    n = len(N.nodes)
    room = max(len(c) for c in cuts.values()) + 1
    sets = [set_value(Ptr('nc', ('_cuts', i)), [(c,) for c in cuts[i]], room, len(cuts[i])) for i in range(n)]
    M.ctts = {(i, c): cone_tt(N, i, c) for i in cuts for c in cuts[i]}
    M.offer = offer
    ps = rec('rewrite_params', cut_enumeration_ps=rec('ps', cut_size=4, cut_limit=10), b_use_zero_gain=zero, b_preserve_depth=keep, verbose=False)
    M.start({'ntk': with_vals(N, [7] * n), 'src': N, 'ps': ps, 'nc': rec('network_cuts', _cuts=sets),
             'impl': rec('impl', _ntk=NetRef('ntk'), _rewriting_fn=rec('fn'), _ps=Ref(Ptr('ps')), _fanouts={}, _depth_arrive={}, _depth_require={})})
    M.ocall('run', Ptr('impl'), [])
    if M.asserts:
        return None, f'the assertion {M.asserts[0]} fails'
    R = M.store['result']
    if len(R.pis()) != len(N.pis()) or len(R.pos) != len(N.pos):
        return None, 'the inputs or outputs are changed'
    R.tts()
    R = cleaned(R)
    why = same_functions(N, R)
    return R, why


# ---------------------------------------------------------------- cases
def signals(N, leaves, what):
    """(edited network, signal) with the structure added"""
    g, out = what
    s = [(l, 0) for l in leaves]

    def sig(x):
        b = s[x[0]] if x[0] >= 0 else (0, 0)
        return b[0], b[1] ^ x[1]
    for a, b in g:
        a, b = sorted((sig(a), sig(b)))
        if a[0] == b[0]:
            s.append(a if a[1] == b[1] else (0, 0))
        elif a[0] == 0:
            s.append(b if a[1] else (0, 0))
        else:
            k = [i for i, n in enumerate(N.nodes) if n[0] == 'g' and n[2] == (a, b)]
            if k:
                s.append((k[0], 0))
            else:
                N, x = N.add(('g', 'and', (a, b)))
                s.append(x)
    return N, (sig(out) if isinstance(out, tuple) else (s[-1][0], s[-1][1] ^ out))


def replaced(N, n, s):
    """number of gates when every use of n becomes s, and its level; None when that makes a gate with equal fan-ins or a cycle"""
    nodes = list(N.nodes)
    put = lambda x: (s[0], s[1] ^ x[1]) if x[0] == n else x
    for i, x in enumerate(nodes):
        if x[0] == 'g':
            f = tuple(put(y) for y in x[2])
            if f[0][0] == f[1][0]:
                return None
            nodes[i] = ('g', 'and', f)
    M = N.but(nodes=nodes, pos=[put(x) for x in N.pos])
    try:
        M.tts()
    except Damage:
        return None
    return sum(M.nodes[i][0] == 'g' for i in M.topo())


def everywhere(M, N, limit, orders, zero, keep):
    cuts = all_cuts(N, limit)
    if not orders:                  # the last gate has no cut of its own
        cuts[len(N.nodes) - 1] = [(len(N.nodes) - 1,)]
    R, why = rewriting(M, N, cuts, lambda l, t: [shannon(t[2], [x for x in o if x < t[1]]) for o in orders] + (M.lib.get(t[2], [])[:1 if orders else 4] if t[1] == 4 else []), zero, keep)
    return why


def once(M, N, n, cut, offer, zero, keep):
    t = cone_tt(N, n, cut)
    cuts = all_cuts(N, 20)
    R, why = rewriting(M, N, cuts, lambda l, x: offer if tuple(a for a, _ in l) == cut and x[1:] == t else [], zero, keep)
    if why:
        return why
    a, b = len(N.gates()), len(R.gates())
    if keep and depth(R)[0] > depth(N)[0]:
        return f'the depth grows from {depth(N)[0]} to {depth(R)[0]}'
    if b > a:
        return f'the number of gates grows from {a} to {b}'
    if set(R.nodes) != set(N.nodes) and not zero and b >= a:
        return f'the network is changed without saving a gate'
    d = depth(N)[1]
    best = 0
    for o in offer:
        W, s = signals(N, cut, o)
        if s[0] == n:
            continue
        r = replaced(W, n, s)
        lv = {i: d[i] for i in d}
        for i, x in enumerate(W.nodes):
            if i not in lv:
                lv[i] = 1 + max(lv.get(j, 0) for j, _ in x[2]) if x[0] == 'g' else 0
        if r is not None and (not keep or lv[s[0]] <= d[n]):
            best = max(best, a - r)
    if best > 0 and b >= a:
        return f'a structure for node {n} that saves {best} gates is not used'
    return ''


def run(ctx):
    P = ctx.prog('ops')
    M = machine(ctx, P)
    M.lib = library(random.Random(3), 30000)
    big = ctx.tier == 'thorough'
    ctx.rule('function', 'transfer function of rewriting on small networks, with a database that offers several structures for every cut: inputs and outputs are kept, each output computes the same function, the edited network stays acyclic')
    ctx.rule('gain', 'the same with structures for one cut of one node only: gates never grow, depth does not grow when it is to be preserved, without zero-gain replacement a change saves gates, a saving structure is used')
    rnd = random.Random(22)
    fs, gs = [], []
    for i in range(300 if big else 60):
        N = rnd_aig(rnd, rnd.randrange(4, 7), rnd.randrange(5, 13))
        fs.append((N, rnd.choice((3, 6, 20)), [rnd.sample(range(4), 4) for _ in range(2)], bool(i % 2), bool(i // 2 % 2)))
    for i in range(60 if big else 16):
        # a gate whose fan-ins are the cone of a node and another structure of it, which the database offers
        while True:
            t = rnd.choice([t for t in sorted(M.lib)[:2000] if len(M.lib[t]) > 1])
            a, b = rnd.sample(M.lib[t], 2)
            N = Net('aig', [('c', 0)] + [('pi',)] * 4, (), (), [1, 2, 3, 4])
            N, x = signals(N, (1, 2, 3, 4), a)
            N, y = signals(N, (1, 2, 3, 4), b)
            if x[0] != y[0] and x[0] > 4 < y[0]:
                break
        c = rnd.randrange(2)
        N, z = N.add(('g', 'and', tuple(sorted(((x[0], x[1] ^ c), (y[0], y[1] ^ c ^ (i % 4 == 3)))))))
        N = N.but(pos=[(z[0], rnd.randrange(2))] + [[], [x], [y]][i % 3])
        fs.append((N, 20, [], True, False))
    while len(gs) < (1500 if big else 250):
        N = cleaned(rnd_aig(rnd, rnd.randrange(4, 6), rnd.randrange(6, 13)))
        cuts, fo, where = all_cuts(N, 20), fanouts(N), {}
        for n in N.gates():
            for q in cuts[n]:
                if len(q) == 4:
                    where.setdefault((q, cone_tt(N, n, q)), []).append(n)
        ks = [k for k in where if len(where[k]) == 1]
        if not ks:
            continue
        q, t = rnd.choice(ks)
        n = where[q, t][0]
        d = sum(a == n for a, _ in N.pos)
        if d > 1 or d and fo[n] > 1:
            continue
        offer = M.lib.get(t[1], [])[:3] or [shannon(t[1], rnd.sample(range(4), 4))]
        gs.append((N, n, q, offer, bool(len(gs) % 2), bool(len(gs) // 2 % 2)))
    fs += [(padded(N, 2), *a) for N, *a in fs[:8:2]]
    for N, n, q, *a in gs[:6]:
        u = lambda i: i if i <= 2 else i + 256
        gs.append((padded(N, 2), u(n), tuple(map(u, q)), *a))

    def flags(zero, keep):
        return ('zero gain allowed' if zero else 'gain demanded') + (', depth preserved' if keep else '')

    def cases():
        for N, l, o, z, k in fs:
            yield 'rewriting', f'{N.show()[:700]}; {flags(z, k)}', lambda N=N, l=l, o=o, z=z, k=k: guarded(lambda: everywhere(M, N, l, o, z, k))
        for N, n, q, o, z, k in gs:
            yield 'one replacement', f'{N.show()[:700]}; node {n}, cut {list(q)}, structures {o}; {flags(z, k)}', lambda N=N, n=n, q=q, o=o, z=z, k=k: guarded(lambda: once(M, N, n, q, o, z, k))
    ok, bad, und = sweep(cases)
    report(ctx, 'function', 'rewriting', loc(M.fns['run'].f), ok, bad, und)
    report(ctx, 'gain', 'one replacement', loc(M.fns['run'].f), ok, bad, und)
