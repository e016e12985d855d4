"""C23 refactoring keeps every output, and a replacement saves what the options demand."""
from rules.c22 import *
from rules.c26 import clear_visited, set_visited, visited, marks
from rules.c22 import offers as _offers

LEVEL = 'bounded'
MIN_DECIDED = 60
RF = NS + 'detail::refactor_impl::'
OPAQUE = {NS + 'cleanup_dangling', NS + 'aig_network::substitute_node'}


def offers(qn, d, e):
    return _offers(qn.replace('sop_factoring', 'rewriting'), d, e) if 'sop_factoring::operator()' in qn else _offers(qn, d, e)


# ---------------------------------------------------------------- contract of substitute_node (C03): dead gates have the kind 'x'
def substituted(N, old, new):
    nodes = [list(x) if x[0] == 'g' else x for x in N.nodes]
    pos = list(N.pos)
    ref = [0] * len(nodes)
    for x in nodes:
        if x[0] == 'g':
            for j, _ in x[2]:
                ref[j] += 1
    for j, _ in pos:
        ref[j] += 1
    done, held, todo = [], [], []

    def neg(s, c):
        return s[0], s[1] ^ c

    def add(n, s):
        for a, b in done:
            if s[0] == a:
                s = neg(b, s[1])
        ref[s[0]] += 1
        held.append(s[0])
        todo.append((n, s))

    def out(n):
        if nodes[n][0] != 'g':
            return
        nodes[n][0] = 'x'
        ref[n] = 0
        for j, _ in nodes[n][2]:
            if ref[j]:
                ref[j] -= 1
                if not ref[j]:
                    out(j)
    add(old, new)
    steps = 0
    while todo:
        o, s = todo.pop()
        steps += 1
        if steps > 200:
            raise Damage('the substitution does not end')
        for i in range(1, len(nodes)):
            if nodes[i][0] != 'g':
                continue
            f = nodes[i][2]
            k = next((k for k in (0, 1) if f[k][0] == o), None)
            if k is None:
                continue
            x = neg(s, f[k][1])
            a, b = sorted((x, f[1 - k]))
            if a[0] == b[0]:
                add(i, b if a[1] == b[1] else (0, 0))
                continue
            if a[0] == 0:
                add(i, b if a[1] else (0, 0))
                continue
            same = next((j for j, y in enumerate(nodes) if y[0] == 'g' and tuple(y[2]) == (a, b)), None)
            if same is not None and same != o:
                add(i, (same, 0))
                continue
            nodes[i][2] = (a, b)
            if s[0] != o:
                ref[s[0]] += 1
        if nodes[o][0] != 'x':
            for i, p in enumerate(pos):
                if p[0] == o:
                    pos[i] = neg(s, p[1])
                    if s[0] != o:
                        ref[s[0]] += 1
        if o != s[0]:
            for i, (n, t) in enumerate(todo):
                if t[0] == o:
                    todo[i] = n, neg(s, t[1])
                    ref[s[0]] += 1
                    held.append(s[0])
            done.append((o, s))
            out(o)
    for n in held:
        if nodes[n][0] != 'x':
            ref[n] -= 1
            if not ref[n] and n != new[0]:
                out(n)
    return N.but(nodes=tuple(tuple(x) for x in nodes), pos=tuple(pos))


def c_substitute(R, loc, a):
    c = R.cell_of(loc)
    N = R.cur[c]
    old, new = R.nodeno(N, a[0]), N.inp(a[1])
    R.cur = {**R.cur, c: substituted(N, old, new)}


class RfFrame(RwFrame):
    def elements(self, op, loc, args, store):
        if op == 'node':
            N = self.base(loc, store)
            return [i for i in super().elements(op, loc, args, store) if N.nodes[i][0] != 'x']
        if op == 'fanin':
            N = self.base(loc, store)
            x = N.nodes[self.nodeno(N, args[0])]
            if x[0] == 'x':
                return [N.out(s) for s in x[2]]
        return super().elements(op, loc, args, store)


def dead(R, N, view, a):
    return N.nodes[R.nodeno(N, a[0])][0] == 'x'


def machine(ctx, P):
    names = sorted({f['decl']['qn'] for f in P.fns.values() if f['decl']['qn'].startswith(RF) and '~' not in f['decl']['qn'] and not f['decl'].get('cst')})
    M = OMachine(ctx, P, [n for n in names if not n.endswith('::refactor_impl')] + REFS, extra=offers, opaque=OPAQUE, frame=RfFrame)
    M.need('run', 'replace_sub_ntk')
    M.queries.update(value=q_value, visited=visited, is_dead=dead)
    M.calls.update(CALLS)
    M.calls.update(offer=c_offer, set_visited=set_visited, clear_visited=clear_visited, substitute_node=c_substitute)
    M.algos[NS + 'cleanup_dangling'] = a_cleanup
    return M


def refactoring(M, N, offer, leaves, cone, up, zero):
    n = len(N.nodes)
    M.offer = offer
    ps = rec('refactor_params', max_leaves_num=leaves, max_cone_size=cone, allow_depth_up=up, allow_zero_gain=zero, verbose=False)
    M.start({'ntk': with_vals(marks(N, [3] * n, 5), [7] * n), 'ps': Undef, 'src': N,
             'impl': rec('impl', _ntk=NetRef('ntk'), _refactoring_fn=rec('fn'), _params=Ref(Ptr('par')), _node_cost_fn=rec('cost'), _visited_nodes=[], _leaves_nodes=[],
                         _depth_max=0, _depth_map={}, _r_depth_map={}, _fanouts_map={}), 'par': ps})
    M.ocall('init', Ptr('impl'), [])
    M.ocall('run', Ptr('impl'), [])
    if M.asserts:
        return None, f'the assertion {M.asserts[0]} fails'
    R = M.store['result']
    if len(R.pis()) != len(N.pis()) or len(R.pos) != len(N.pos):
        return None, 'the inputs or outputs are changed'
    R = cleaned(R)
    return R, same_functions(N, R)


def structures(M, seed):
    """one structure per question, the same whenever it is asked"""
    memo = {}

    def offer(l, t):
        if (l, t) not in memo:
            rnd = random.Random(f'{seed} {l} {t}')
            lib = M.lib.get(t[2], []) if t[1] == 4 else []
            memo[l, t] = [rnd.choice(lib) if lib and rnd.random() < .7 else shannon(t[2], rnd.sample(range(t[1]), t[1]))]
        return memo[l, t]
    return offer


def everywhere(M, N, seed, leaves, cone, up, zero):
    R, why = refactoring(M, N, structures(M, seed), leaves, cone, up, zero)
    if why:
        return why
    a, b = len(cleaned(N).gates()), len(R.gates())
    if b > a:
        return f'the number of gates grows from {a} to {b}'
    if not up and depth(R)[0] > depth(N)[0]:
        return f'the depth grows from {depth(N)[0]} to {depth(R)[0]}'
    return ''


def once(M, N, seed, k, leaves, cone, up, zero):
    """structures no better than Shannon expansions without sharing are refused, then the k-th question is answered"""
    asked, want = [], structures(M, seed)

    def offer(l, t):
        if (l, t) not in asked:
            asked.append((l, t))
        return want(l, t) if asked.index((l, t)) == k else []
    R, why = refactoring(M, N, offer, leaves, cone, up, zero)
    if why:
        return why
    a, b = len(N.gates()), len(R.gates())
    if not up and depth(R)[0] > depth(N)[0]:
        return f'the depth grows from {depth(N)[0]} to {depth(R)[0]}'
    if b > a:
        return f'the number of gates grows from {a} to {b}'
    if set(R.nodes) != set(N.nodes) and not zero and b >= a:
        return 'the network is changed without saving a gate'
    if len(asked) <= k or b < a:
        return ''
    l, t = asked[k]
    cut = tuple(i for i, _ in l)
    roots = [n for n in N.gates() if n not in cut and cone_tt(N, n, cut) == t[1:]]
    if len(roots) != 1:
        return ''
    n = roots[0]
    d = depth(N)[1]
    W, s = signals(N, cut, want(l, t)[0])
    r = replaced(W, n, s) if s[0] != n else None
    lv = {}
    for i, x in enumerate(W.nodes):
        lv[i] = 1 + max(lv[j] for j, _ in x[2]) if x[0] == 'g' else 0
    if r is not None and r < a and (up or lv[s[0]] <= d[n]):
        return f'a structure for node {n} over {list(cut)} that saves {a - r} gates is not used'
    return ''


def blocks(rnd, n):
    """conjunctions of four, balanced: their Shannon expansions are chains of the same size, one level deeper"""
    nodes = [('c', 0)] + [('pi',)] * n
    sigs = list(range(1, n + 1))

    def conj(a, b):
        a, b = sorted((a, b))
        nodes.append(('g', 'and', ((a, rnd.randrange(2)), (b, rnd.randrange(2)))))
        return len(nodes) - 1
    for i in range(rnd.randrange(1, 4)):
        a, b, c, d = (sigs.pop(rnd.randrange(len(sigs))) for _ in range(4)) if len(sigs) > 3 else rnd.sample(range(1, n + 1), 4)
        ab, cd = conj(a, b), conj(c, d)
        x = conj(ab, cd)
        sigs.append(x)
        if rnd.random() < .5:
            sigs = [s for s in sigs if s != x] + [conj(x, rnd.choice([j for j in range(1, n + 1) if j not in (a, b, c, d)]))]
    return Net('aig', nodes, [(len(nodes) - 1, rnd.randrange(2))] + [(s, 0) for s in sigs if s > n and s != len(nodes) - 1], [], list(range(1, n + 1)))


def run(ctx):
    P = ctx.prog('ops')
    M = machine(ctx, P)
    M.lib = library(random.Random(3), 30000)
    big = ctx.tier == 'thorough'
    ctx.rule('function', 'transfer function of refactoring on small networks, every cone being offered some structure: inputs and outputs are kept, each output computes the same function, neither gates nor (unless allowed) depth grow, the edited network is acyclic')
    ctx.rule('gain', 'the same with a structure for one cone only: gates never grow, depth does not grow unless allowed, without zero-gain replacement a change saves gates, a saving structure is used')
    rnd = random.Random(23)
    fs, gs = [], []
    for i in range(300 if big else 60):
        fs.append((rnd_aig(rnd, rnd.randrange(3, 6), rnd.randrange(4, 13)), rnd.randrange(1000), rnd.choice((2, 4, 4, 5)), rnd.choice((4, 8, 16)), bool(i % 2), bool(i // 2 % 2)))
    for i in range(300 if big else 60):
        fs.append((cleaned(blocks(rnd, rnd.randrange(5, 8))), rnd.randrange(1000), rnd.choice((4, 5, 6)), 16, False, bool(i % 2)))
    for i in range(1500 if big else 250):
        N = cleaned(rnd_aig(rnd, rnd.randrange(4, 6), rnd.randrange(6, 13)))
        gs.append((N, rnd.randrange(1000), rnd.randrange(4), rnd.choice((4, 5)), 16, bool(i % 2), bool(i // 2 % 2)))

    for i in range(400 if big else 80):
        gs.append((cleaned(blocks(rnd, rnd.randrange(5, 8))), rnd.randrange(1000), rnd.randrange(5), 4, 16, False, True))
    fs += [(padded(N, 2), *a) for N, *a in fs[:8:2]]
    gs += [(padded(N, 2), *a) for N, *a in gs[:6]]

    def flags(l, c, up, zero):
        return f'{l} leaves, cones of {c}, ' + ('zero gain allowed' if zero else 'gain demanded') + ('' if up else ', depth preserved')

    def cases():
        for a in fs:
            yield 'refactoring', f'{a[0].show()}; {flags(*a[2:])}', lambda a=a: guarded(lambda: everywhere(M, *a))
        for a in gs:
            yield 'one replacement', f'{a[0].show()}; question {a[2]}; {flags(*a[3:])}', lambda a=a: guarded(lambda: once(M, *a))
    ok, bad, und = sweep(cases)
    report(ctx, 'function', 'refactoring', loc(M.fns['run'].f), ok, bad, und)
    report(ctx, 'gain', 'one replacement', loc(M.fns['run'].f), ok, bad, und)
