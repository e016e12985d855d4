"""C11 a mapped network is turned into an equivalent network of lookup tables."""
from rules.xl import *

LEVEL = 'bounded'
MIN_DECIDED = 200
FNS = {'network_to_klut': ('mapping_view',), 'choice_to_klut': ('mapping_view',)}


def has_mapping(R, N, n, args):
    return bool(N.cells)


def check(op, N):
    try:
        R, out = evaluate(op, {0: N}, {}, contracts={'operator~': tt_not}, queries={'has_mapping': has_mapping})
        v = R.val(op.ret)
        if not (isinstance(v, tuple) and v[0] == 'some'):
            return 'no network is returned'
        D = v[1]
        if R.asserts:
            return f'the assertion {R.asserts[0][0]} fails'
        return same_functions(N, D) or over(N, D)
    except Damage as x:
        return str(x)


def over(N, D):
    """only lookup tables of the cover (or their complement), and inverters of inputs, appear"""
    w = max([2] + [len(c[0]) for c in N.cells.values()])
    for i in D.gates():
        if len(D.nodes[i][2]) > w:
            return f'a table with {len(D.nodes[i][2])} fan-ins is created for cuts of at most {w} leaves'
    return ''


def family(thorough):
    rnd = random.Random(111)
    for k in range(700 if thorough else 150):
        N = rnd_aig(rnd, rnd.choice((1, 2, 3, 4)), rnd.randrange(8), npo=rnd.choice((1, 2, 3, 4, 5)))
        M = rnd_mapping(rnd, N, k=rnd.choice((2, 3, 4)))
        # a network without gates is mapped by an empty cover; one with gates that are not used is as well, which the functions reject
        if M.cells or not M.gates():
            yield M


    for k in range(150 if thorough else 30):
        M = rnd_mapping(rnd, tree_aig(rnd, rnd.choice((4, 5, 6, 7))), k=rnd.choice((4, 5, 6)), tries=12)
        if M.cells:
            yield M
    for N in wide_aigs():
        yield rnd_mapping(rnd, N, k=3)


def run(ctx):
    P = ctx.prog('ops')
    ctx.rule('collapse', 'recovered transfer functions of network_to_klut and choice_to_klut on finite networks with a cover by cuts: inputs and outputs in order, every output the same function, '
             'tables not wider than the cuts')
    ops = {n: load(ctx, P, NS + n, t, 'optional') for n, t in FNS.items()}
    fam = list(family(ctx.tier == 'thorough'))

    def cases():
        for n, op in ops.items():
            for N in fam:
                yield n, f'{N.show()} covered by {N.cells}', lambda op=op, N=N: check(op, N)
    ok, bad, und = sweep(cases)
    for n, op in ops.items():
        report(ctx, 'collapse', n, loc(op.f), ok, bad, und)
