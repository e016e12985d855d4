"""C16 the lookup-table netlist written for a mapped design is well formed and computes its functions."""
from rules.xl import *
from rules import fileform
from engine.text import *
from engine.netlist import *
from rules.c15 import params, NAMES, compare, label

LEVEL = 'bounded'
MIN_DECIDED = 60


def family(ctx, thorough):
    rnd = random.Random(161)
    fam = [(Net('klut', None, [0, 1] and [(0, 0), (1, 0)], [], []), params([], [])), (Net('klut', [('c', 0), ('c', 1), ('pi',)], [(2, 0), (0, 0), (1, 0), (2, 0)], [], [2]), params([], []))]
    for i in range(400 if thorough else 90):
        N = rnd_klut(rnd, rnd.choice((1, 2, 3, 4)), rnd.randrange(7), maxk=4)
        # a complemented literal: tables of one variable
        if i % 5 == 0 and N.pis():
            N = N.but(nodes=N.nodes + (('g', (1, 1), ((N.pis()[-1], 0),)),), pos=N.pos + ((len(N.nodes), 0),))
        if i % 2:
            ns = rnd.sample(NAMES, len(N.pis()) + len(N.pos))
            fam.append((N, params(ns[:len(N.pis())], ns[len(N.pis()):])))
        else:
            fam.append((N, params([], [])))
    for N in wide_kluts():
        fam.append((N, params([], [])))
        fam.append((N, params([f'a{i}' for i in range(len(N.pis()))], [f'f{i}' for i in range(len(N.pos))])))
    for k in (5, 6):
        for i in range(2):
            N = Net('klut', [('c', 0), ('c', 1)] + [('pi',)] * k + [('g', (k, rnd.getrandbits(1 << k)), tuple((j, 0) for j in rnd.sample(range(2, 2 + k), k)))], [(2 + k, 0), (2, 0)], [], list(range(2, 2 + k)))
            fam.append((N, params([], [])))
    N = Net('klut', [('c', 0), ('c', 1), ('pi',), ('pi',), ('g', (2, 6), ((2, 0), (3, 0)))], [(4, 0)], [], [2, 3])
    fam += [(N, params(['a', 'b'], [])), (N, params([], ['f']))]
    return fam


def check(op, N, ps):
    try:
        R, out = evaltext(op, {0: N}, {1: ('stream',), 2: ps})
        if R.asserts:
            return f'the assertion {R.asserts[0][0]} fails'
        if out['n0'] is not N:
            return 'the network is changed'
        return compare(Verilog(written(R)), N, ps, True, True)
    except (Bad, Damage, Outside) as x:
        return str(x)


def run(ctx):
    P = ctx.prog('io')
    ctx.rule('file-form', 'the forms that take a file name open the named file anew and send it exactly the text of the stream form, of the given network and port names')
    fileform.forms(ctx, P, 'file-form', NS + 'write_lut', 'write2LUT')
    ctx.rule('lut-netlist', 'the text that the recovered transfer function of write_lut sends to the stream on finite lookup-table networks and port names, read back by an independent reader, is well formed '
             '(ports in order, every net declared and driven once, tables as wide as their inputs) and computes the same functions')
    op = loadtext(ctx, P, NS + 'write_lut', ('klut_network', 'ostream'))
    fam = family(ctx, ctx.tier == 'thorough')

    def cases():
        for N, ps in fam:
            yield 'write_lut', label(N, ps), lambda N=N, ps=ps: check(op, N, ps)
    ok, bad, und = sweep(cases)
    report(ctx, 'lut-netlist', 'write_lut', loc(op.f), ok, bad, und)
