"""C43 the factored form computes the function that is asked for."""
from rules.values import *
from rules.c25 import guarded

LEVEL = 'bounded'
MIN_DECIDED = 60
HEADER = 'optimization/detail/sop_refactoring.hpp'


def isop(n, lo, hi, k):
    """irredundant cubes (bits, mask) between lo and hi over the variables below k (Minato-Morreale), and what they cover"""
    full = (1 << (1 << n)) - 1
    if lo == 0:
        return [], 0
    if hi == full:
        return [(0, 0)], full
    k -= 1
    v = sum(1 << m for m in range(1 << n) if m >> k & 1)
    w = 1 << k

    def c0(t):
        return (t & ~v) | (t & ~v) << w

    def c1(t):
        return (t & v) | (t & v) >> w
    a, fa = isop(n, c0(lo) & ~c1(hi), c0(hi), k)
    b, fb = isop(n, c1(lo) & ~c0(hi), c1(hi), k)
    c, fc = isop(n, c0(lo) & ~fa | c1(lo) & ~fb, c0(hi) & c1(hi), k)
    return [(x, m | 1 << k) for x, m in a] + [(x | 1 << k, m | 1 << k) for x, m in b] + c, fa & ~v | fb & v | fc


def p_isop(R, a):
    t = tts(a[0])
    cs, f = isop(t[1], t[2], t[2], t[1])
    assert f == t[2]
    return [rec('cube', _bits=b, _mask=m) for b, m in cs]


PURES = {
    'kitty::dynamic_truth_table::num_vars': lambda R, a: tts(a[0])[1],
    'kitty::isop': p_isop,
    'kitty::cube::get_mask': lambda R, a: bool(a[0][2]['_mask'] >> a[1] & 1),
    'kitty::cube::get_bit': lambda R, a: bool(a[0][2]['_bits'] >> a[1] & 1),
    'kitty::cube::num_literals': lambda R, a: bin(a[0][2]['_mask']).count('1'),
}


def machine(ctx, P):
    names = sorted({f['decl']['qn'] for f in P.fns.values() if f['file'].endswith(HEADER) and not f['decl'].get('ctor')})
    M = OMachine(ctx, P, names, pures=PURES, opaque=set(PURES))
    M.need('operator()')
    return M


def factored(M, N, leaves, n, f):
    got = []

    class D:
        cur = {}

    def fn(s):
        got.append((s, D.cur['ntk']))
    M.start({'ntk': N, 'leaves': [N.out(s) for s in leaves], 'this': rec('sop_factoring')})
    M.ocall('operator()', Ptr('this'), [NetRef('ntk'), ('tt', n, f), Ptr('leaves', (0,)), Ptr('leaves', (n,)), ('fn', D, fn)])
    if M.asserts:
        return f'the assertion {M.asserts[0]} fails'
    if len(got) != 1:
        return f'{len(got)} structures are offered'
    s, A = got[0]
    x = A.inp(s)
    if A.pis() != N.pis() or A.pos != N.pos or A.nodes[:len(N.nodes)] != N.nodes:
        return 'the network the structure is built in is changed'
    val = A.tts()
    full = A.full
    lit = lambda y: val[y[0]] ^ (full if y[1] else 0)
    ws = [lit(y) for y in leaves]
    want = 0
    for m in range(full.bit_length()):
        want |= (f >> sum((ws[q] >> m & 1) << q for q in range(n)) & 1) << m
    if lit(x) != want:
        return 'the structure computes another function'
    return ''


def run(ctx):
    P = ctx.prog('ops')
    M = machine(ctx, P)
    big = ctx.tier == 'thorough'
    ctx.rule('factor', 'transfer function of sop_factoring::operator() with all its divisions and kernels, for functions of up to six variables: exactly one structure is offered, it computes the function of the given signals, and the network it is built in is only extended')
    rnd = random.Random(43)
    cs = []

    def pis(k):
        return Net('aig', [('c', 0)] + [('pi',)] * k, (), (), list(range(1, k + 1)))
    for n in (1, 2, 3):
        for f in range(1 << (1 << n)):
            cs.append((pis(n), [(i + 1, 0) for i in range(n)], n, f))
    for i in range(1000 if big else 150):
        n = rnd.choice((4, 4, 5, 6))
        f = rnd.getrandbits(1 << n)
        for _ in range(rnd.randrange(3)):
            f &= rnd.getrandbits(1 << n)
        if i % 3 == 0:
            f ^= (1 << (1 << n)) - 1
        if i % 4 == 0:
            N = rnd_aig(rnd, n, rnd.randrange(3, 8))
            l = [(j, rnd.randrange(2)) for j in rnd.sample(range(1, len(N.nodes)), n)]
        else:
            N, l = pis(n), [(j + 1, 0) for j in range(n)]
        cs.append((N, l, n, f))

    u = lambda s: (s[0] if s[0] <= 1 else s[0] + 256, s[1])
    cs += [(padded(N), [u(s) for s in l], n, f) for N, l, n, f in cs[-40::4]]
    for i in range(30 if big else 6):       # sums of products without common literals, too wide for the tables above
        n = rnd.choice((8, 9))
        vs, f = rnd.sample(range(n), n), 0
        while vs:
            k = rnd.choice((1, 1, 2, 2)) if len(vs) > 1 else 1
            lits = [(vs.pop(), rnd.randrange(2)) for _ in range(k)]
            f |= sum(1 << m for m in range(1 << n) if all((m >> v & 1) == p for v, p in lits))
        cs.append((pis(n), [(j + 1, 0) for j in range(n)], n, f))

    def cases():
        for N, l, n, f in cs:
            yield 'factor', f'{N.show()}; function {f:#x} of {n} variables over {l}', lambda N=N, l=l, n=n, f=f: guarded(lambda: factored(M, N, l, n, f))
    ok, bad, und = sweep(cases)
    report(ctx, 'factor', 'factor', loc(M.fns['operator()'].f), ok, bad, und)
