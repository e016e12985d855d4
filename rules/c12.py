"""C12 a network of lookup tables is turned into an equivalent AND-inverter graph."""
from rules.xl import *

LEVEL = 'bounded'
MIN_DECIDED = 100


def cover(k, bits):
    """irredundant-ish cover of a table by cubes (mask, polarity)"""
    full = (1 << (1 << k)) - 1

    def cells(mask, pol):
        r = 0
        for m in range(1 << k):
            if (m ^ pol) & mask == 0:
                r |= 1 << m
        return r
    out, todo = [], bits
    while todo:
        m = (todo & -todo).bit_length() - 1
        mask = (1 << k) - 1
        for i in range(k):
            if cells(mask & ~(1 << i), m) & ~bits & full == 0:
                mask &= ~(1 << i)
        out.append((mask, m & mask))
        todo &= ~cells(mask, m)
    return out


@pure
def isop(R, args):
    t = args[0]
    if not (isinstance(t, tuple) and t and t[0] == 'tt'):
        raise Unknown('cover of a value that is no truth table')
    return [rec('cube', _mask=m, _bits=b) for m, b in cover(t[1], t[2])]


def cube_bit(field):
    @pure
    def f(R, args):
        c, i = args
        if not (isinstance(c, tuple) and c[0] == 'rec' and '_mask' in c[2]):
            raise Unknown('no cube')
        return c[2][field] >> i & 1
    return f


@pure
def num_vars(R, args):
    t = args[0]
    if not (isinstance(t, tuple) and t and t[0] == 'tt'):
        raise Unknown('variables of a value that is no truth table')
    return t[1]


@pure
def num_literals(R, args):
    return bin(args[0][2]['_mask']).count('1')


CONTRACTS = {'isop': isop, 'get_mask': cube_bit('_mask'), 'get_bit': cube_bit('_bits'), 'num_vars': num_vars, 'num_literals': num_literals, 'operator~': tt_not}


def check(op, N):
    try:
        R, out = evaluate(op, {0: N}, {}, contracts=CONTRACTS)
        D = R.base(op.ret)
        if R.asserts:
            return f'the assertion {R.asserts[0][0]} fails'
        return same_functions(N, D)
    except Damage as x:
        return str(x)


def family(thorough):
    rnd = random.Random(121)
    for k in range(1, 4):
        for t in range(1 << (1 << k)) if k < 3 else [rnd.getrandbits(8) for _ in range(256 if thorough else 40)]:
            yield Net('klut', [('c', 0), ('c', 1)] + [('pi',)] * k + [('g', (k, t), tuple((2 + i, 0) for i in range(k)))], [(2 + k, 0)], (), list(range(2, 2 + k)))
    for i in range(600 if thorough else 100):
        yield rnd_klut(rnd, rnd.choice((1, 2, 3, 4)), rnd.randrange(6), trivial=i % 3 == 0)


    yield from wide_kluts()


def mapped(thorough):
    rnd = random.Random(122)
    for k in range(500 if thorough else 120):
        N = rnd_aig(rnd, rnd.choice((1, 2, 3, 4)), rnd.randrange(8), npo=rnd.choice((1, 2, 3, 4)))
        M = rnd_mapping(rnd, N, k=rnd.choice((2, 3, 4)), extra=rnd.choice((0.0, 0.5)))
        if M.cells or not M.gates():
            yield M
    for k in range(150 if thorough else 30):
        M = rnd_mapping(rnd, tree_aig(rnd, rnd.choice((4, 5, 6, 7))), k=rnd.choice((4, 5, 6)), tries=12)
        if M.cells:
            yield M
    for N in wide_aigs():
        yield rnd_mapping(rnd, N, k=3)


def run(ctx):
    P = ctx.prog('ops')
    ctx.rule('expand', 'recovered transfer functions of convert_klut_to_aig on finite networks of lookup tables and of convert_mapped_graph_to_aig on finite graphs with a cover by cuts: '
             'inputs and outputs in order, every output the same function')
    fams = {'convert_klut_to_aig': (('klut_network',), list(family(ctx.tier == 'thorough'))),
            'convert_mapped_graph_to_aig': (('mapping_view',), list(mapped(ctx.tier == 'thorough')))}
    ops = {n: load(ctx, P, NS + n, t, 'aig_network') for n, (t, _) in fams.items()}

    def cases():
        for n, (_, fam) in fams.items():
            for N in fam:
                yield n, N.show() + (f' covered by {N.cells}' if getattr(N, 'cells', None) else ''), lambda n=n, N=N: check(ops[n], N)
    ok, bad, und = sweep(cases)
    for n, op in ops.items():
        report(ctx, 'expand', n, loc(op.f), ok, bad, und)
