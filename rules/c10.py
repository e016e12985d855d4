"""C10 cleanup_dangling: same functions, nothing dangling."""
from rules.xl import *

LEVEL = 'bounded'
MIN_DECIDED = 200


def reach(N):
    s, todo = set(), [i for i, _ in N.pos + N.ris]
    while todo:
        i = todo.pop()
        if i not in s:
            s.add(i)
            if N.nodes[i][0] == 'g':
                todo += [j for j, _ in N.nodes[i][2]]
    return s


def family(ctx, thorough):
    rnd = random.Random(101)
    fam = [Net('aig', [('c', 0)], [], [], []), Net('aig', [('c', 0), ('pi',)], [(1, 1), (0, 0), (0, 1)], [], [1])]
    for _ in range(600 if thorough else 120):
        fam.append(rnd_aig(rnd, rnd.choice((1, 2, 3, 4)), rnd.randrange(8)))
    return fam + list(wide_aigs())


def check(op, N, drop_pi, drop_po):
    try:
        R, out = evaluate(op, {0: N}, {1: drop_pi, 2: drop_po})
        D = R.base(op.ret)
        if R.asserts:
            return f'the assertion {R.asserts[0][0]} fails'
        if out['n0'] is not N:
            return 'the source network is changed'
        pis = [p for p in N.pis() if not drop_pi or R.query('fanout_size', op.params[0], [p], out)]
        keep = None
        if drop_po:
            keep = [i for i, (j, _) in enumerate(N.pos) if N.nodes[j][0] == 'g']
        why = same_functions(N, D, pis, keep)
        if why:
            return why
        live = len([i for i in reach(N) if N.nodes[i][0] == 'g'])
        if len(D.gates()) != live and D.kind == 'aig':
            return f'{len(D.gates())} gates are created for {live} gates the outputs depend on'
        d = [i for i in D.gates() if i not in reach(D)]
        if d and D.kind == 'aig':
            return f'gate {d[0]} of the result is dangling'
    except Damage as x:
        return str(x)
    return ''


def run(ctx):
    P = ctx.prog('ops')
    ctx.rule('cleanup', 'the recovered transfer function of cleanup_dangling on finite AND-inverter graphs: the result has the inputs and outputs of the source in order, computing the same functions, '
             'and exactly the gates its outputs depend on; the source is not changed')
    ops = {t: load(ctx, P, NS + 'cleanup_dangling', ('aig_network', 'bool'), t) for t in ('aig_network', 'klut_network')}
    fam = family(ctx, ctx.tier == 'thorough')

    def cases():
        for t, op in ops.items():
            for N in fam:
                for a, b in ((0, 0), (1, 0), (0, 1), (1, 1)):
                    yield t, f'{N.show()}{" without dangling inputs" if a else ""}{" without redundant outputs" if b else ""}', lambda op=op, N=N, a=a, b=b: check(op, N, bool(a), bool(b))
    ok, bad, und = sweep(cases)
    for t, op in ops.items():
        q = f'cleanup_dangling to {t}'
        if t in bad:
            ctx.viol('cleanup', q, loc(op.f), bad[t])
        elif t in und:
            ctx.undecided('cleanup', q, und[t])
        else:
            ctx.ok('cleanup', q, ok.get(t, 0))
