"""C34 AND-balancing keeps the interface and every output function and does not increase the depth."""
from engine.evalm import Outside
from rules.xl import *
from engine.machine import *

LEVEL = 'bounded'
MIN_DECIDED = 300
Q = NS + 'and_balance::'
FNS = ('and_balance', 'run', 'balance_rec', 'get_balance_cone', 'get_balance_cone_rec', 'balance_unify', 'build_super', 'balance_find_left', 'balance_permute', 'push_unique_by_level')


def levels(N):
    lv = {}
    for i, x in enumerate(N.nodes):
        if x[0] != 'g':
            lv[i] = 0

    def go(i):
        if i not in lv:
            lv[i] = 0
            lv[i] = 1 + max(go(j) for j, _ in N.nodes[i][2])
        return lv[i]
    for i in range(len(N.nodes)):
        go(i)
    return lv


def level(R, N, view, args):
    return levels(N)[R.nodeno(N, args[0])]


def find_and(R, N, view, args):
    a, b = sorted((N.inp(args[0]), N.inp(args[1])))
    return any(x[0] == 'g' and x[2] == (a, b) for x in N.nodes)


def depth(N):
    lv = levels(N)
    return max((lv[i] for i, _ in N.pos), default=0)


def nop(R, loc, args):
    return None


def machine(ctx, P):
    M = Machine(ctx, P, [Q + n for n in FNS])
    M.need('and_balance', 'run')
    M.queries = {'level': level, 'find_and': find_and}
    M.calls = {'update_levels': nop}
    return M


def balance(M, N):
    M.start(rec(NS + 'and_balance', _old2new=[]), {}, {'src': N})
    M.call('and_balance', [None], {0: 'src'})
    r, _ = M.call('run', [])
    return r


def check(M, N):
    try:
        D = balance(M, N)
        if not isinstance(D, Net):
            raise Unknown('the resulting network is not resolved')
        if M.asserts:
            return f'the assertion {M.asserts[0][0]} fails'
        why = same_functions(N, D)
        if not why and depth(D) > depth(N):
            why = f'the depth grows from {depth(N)} to {depth(D)}'
        return why
    except (Damage, Outside) as x:
        return str(x)


def chain(rnd, npi, n, kind):
    """cascades of conjunctions, the cases balancing is about"""
    nodes = [('c', 0)] + [('pi',)] * npi
    top = (1, 0)
    g = set()
    for k in range(n):
        o = rnd.randrange(1, npi + 1) if kind != 'x' or k < 2 else rnd.randrange(1, len(nodes))
        p = rnd.randrange(2) if kind != 'p' else 0
        a, b = sorted((top, (o, p)))
        if a[0] == b[0] or (a, b) in g:
            continue
        g.add((a, b))
        nodes.append(('g', 'and', (a, b)))
        top = (len(nodes) - 1, int(rnd.random() < .15))
    pos = [top] + ([(rnd.randrange(len(nodes)), rnd.randrange(2))] if rnd.random() < .5 else [])
    return Net('aig', nodes, pos, (), list(range(1, npi + 1)))


def tree(rnd, npi, shape):
    """trees of conjunctions (balanced, skewed or random) whose leaves are inputs, inverted trees or constant sub-functions"""
    nodes = [('c', 0)] + [('pi',)] * npi
    known = {}

    def conj(a, b):
        a, b = sorted((a, b))
        if a[0] == b[0]:
            return a
        if (a, b) not in known:
            nodes.append(('g', 'and', (a, b)))
            known[a, b] = len(nodes) - 1
        return known[a, b], 0

    def join(l):
        if len(l) == 1:
            return l[0]
        k = len(l) // 2 if shape == 'b' else 1 if shape == 's' else rnd.randrange(1, len(l))
        return conj(join(l[:k]), join(l[k:]))

    def leaf(d):
        r = rnd.random()
        if d and r < .35:
            x, c = join([leaf(d - 1) for _ in range(rnd.choice((2, 2, 3, 4)))])
            return x, 1 - c
        if r < .45 and d:       # a conjunction that is constant 0, used in either polarity
            a, b = rnd.sample(range(1, npi + 1), 2)
            x, c = conj((a, 0), conj((a, 1), (b, 0)))
            return x, int(rnd.random() < .7) if c == 0 else c
        return rnd.randrange(1, npi + 1), rnd.randrange(2) if shape != 'b' else 0
    tops = [join([leaf(2) for _ in range(rnd.choice((2, 3, 4, 5, 6, 8)))]) for _ in range(rnd.choice((1, 1, 2)))]
    return Net('aig', nodes, [(x, c ^ rnd.randrange(2)) for x, c in tops], (), list(range(1, npi + 1)))


def family(thorough):
    rnd = random.Random(341)
    for k in (3, 4, 5, 6):
        for shape in 'bsr':
            yield tree(random.Random(k), k, shape)
    for n in range(4, 9):       # distinct inputs in a balanced tree: nothing to gain
        nodes = [('c', 0)] + [('pi',)] * n
        l = [(i, 0) for i in range(1, n + 1)]
        while len(l) > 1:
            l = [l[i] if i + 1 == len(l) else (nodes.append(('g', 'and', (l[i], l[i + 1]))), (len(nodes) - 1, 0))[1] for i in range(0, len(l), 2)]
        yield Net('aig', nodes, [(l[0][0], n & 1)], (), list(range(1, n + 1)))
    for i in range(1500 if thorough else 300):
        yield tree(rnd, rnd.choice((2, 3, 4, 5, 6)), rnd.choice('bsr'))
    yield Net('aig', [('c', 0), ('pi',)], [(0, 0), (0, 1), (1, 0), (1, 1)], (), [1])
    # a and !a below a chain: the conjunction is constant
    yield Net('aig', [('c', 0), ('pi',), ('pi',), ('g', 'and', ((1, 0), (2, 0))), ('g', 'and', ((1, 1), (3, 0)))], [(4, 1)], (), [1, 2])
    yield Net('aig', [('c', 0), ('pi',), ('pi',), ('g', 'and', ((1, 0), (2, 0))), ('g', 'and', ((1, 1), (3, 0))), ('g', 'and', ((2, 1), (4, 1)))], [(5, 0), (4, 0)], (), [1, 2])
    for n, npi in ((12, 14), (20, 20), (40, 41), (70, 90)):
        yield chain(rnd, npi, n, 'n')
        nodes = [('c', 0)] + [('pi',)] * npi + [('g', 'and', ((1, 0), (2, 1)))]
        for i in range(3, npi + 1):
            nodes.append(('g', 'and', ((i, i & 1), (len(nodes) - 1, 0))))
        yield Net('aig', nodes, [(len(nodes) - 1, 1)], (), list(range(1, npi + 1)))
    yield from wide_aigs()
    for i in range(1500 if thorough else 250):
        yield rnd_aig(rnd, rnd.choice((2, 3, 4)), rnd.randrange(1, 9))
    for i in range(1500 if thorough else 250):
        yield chain(rnd, rnd.choice((3, 4, 5)), rnd.randrange(2, 9), rnd.choice('xpn'))


def run(ctx):
    P = ctx.prog('ops')
    ctx.rule('balance', 'transfer functions of and_balance and its helpers composed on finite networks: inputs and outputs in order, every output the same function, depth not larger')
    M = machine(ctx, P)
    fam = list(family(ctx.tier == 'thorough'))

    def cases():
        for N in fam:
            yield 'and_balance', N.show(), lambda N=N: check(M, N)
    ok, bad, und = sweep(cases)
    report(ctx, 'balance', 'and_balance', loc(M.fns['run'].f), ok, bad, und)
