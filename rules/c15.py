"""C15 the Verilog netlist written for a graph is well formed and computes the functions of the graph."""
from rules.xl import *
from rules import fileform
from engine.text import *
from engine.netlist import *

LEVEL = 'bounded'
MIN_DECIDED = 60


def ports(names):
    return [('pair', n, 0) for n in names]


def params(ins, outs):
    return rec('iFPGA::write_verilog_params', module_name='top', input_names=ports(ins), output_names=ports(outs))


NAMES = ['a', 'b', '\\a[0] ', 'x', '\\n5 ', 'n', '\\n4 ', 'clk', '_w', '\\_w5_ ', 'name', '\\name0 ', '\\x0 ', '\\y0 ', '\\_n5 ', '__w', '_name']


def family(ctx, thorough):
    rnd = random.Random(151)
    fam = [(Net('aig', [('c', 0)], [], [], []), params([], [])), (Net('aig', [('c', 0), ('pi',)], [(1, 1), (0, 0), (0, 1), (1, 0)], [], [1]), params([], []))]
    for i in range(400 if thorough else 90):
        N = rnd_aig(rnd, rnd.choice((1, 2, 3, 4)), rnd.randrange(7))
        if i % 2:
            ns = rnd.sample(NAMES, len(N.pis()) + len(N.pos))
            fam.append((N, params(ns[:len(N.pis())], ns[len(N.pis()):])))
        else:
            fam.append((N, params([], [])))
    for N in wide_aigs():
        fam.append((N, params([], [])))
        fam.append((N, params([f'a{i}' for i in range(len(N.pis()))], [f'f{i}' for i in range(len(N.pos))])))
    # other combinations of named and unnamed ports, vector ports
    N = Net('aig', [('c', 0), ('pi',), ('pi',), ('pi',), ('g', 'and', ((1, 1), (2, 0))), ('g', 'and', ((3, 0), (4, 1)))], [(5, 1), (4, 0), (1, 1)], [], [1, 2, 3])
    fam.append((N, params(['a', 'b', 'c'], [])))
    fam.append((N, params([], ['f', 'g', 'h'])))
    fam.append((N, rec('iFPGA::write_verilog_params', module_name='m', input_names=[('pair', 'v', 2), ('pair', 's', 0)], output_names=[('pair', 'o', 3)])))
    return fam


def plainname(n):
    return n[1:-1] if n[0] == '\\' else n


def compare(V, N, ps, given_in, given_out):
    d = ps[2]
    for what, got, names, n, kind in (('input', V.inputs(), d['input_names'], len(N.pis()), given_in), ('output', V.outputs(), d['output_names'], len(N.pos), given_out)):
        if len(got) != n:
            return f'{len(got)} {what}s are declared for {n}'
        if names:
            want = []
            for x in names:
                want += [plainname(x[1])] if x[2] == 0 else [f'{plainname(x[1])}[{j}]' for j in range(x[2])]
            if got != want:
                return f'the {what}s are named {got}, not {want}'
    pin = [n for n, k in V.declared if k == 'input']
    pout = [n for n, k in V.declared if k == 'output']
    if V.ports != pin + pout:
        return 'the ports are not the inputs followed by the outputs'
    want = N.outputs()[0]
    for i, (a, b) in enumerate(zip(V.tts(), want)):
        if a != b:
            return f'the output {V.outputs()[i]} computes another function'
    return ''


def check(op, N, ps):
    try:
        R, out = evaltext(op, {0: N}, {1: ('stream',), 2: ps})
        if R.asserts:
            return f'the assertion {R.asserts[0][0]} fails'
        if out['n0'] is not N:
            return 'the network is changed'
        V = Verilog(written(R))
        return compare(V, N, ps, True, True)
    except (Bad, Damage, Outside) as x:
        return str(x)


def label(N, ps):
    d = ps[2]
    return N.show()[:300] + f', inputs named {[x[1] for x in d["input_names"]]}, outputs named {[x[1] for x in d["output_names"]]}'


def run(ctx):
    P = ctx.prog('io')
    ctx.rule('file-form', 'the forms that take a file name open the named file anew and send it exactly the text of the stream form, of the given network and port names')
    fileform.forms(ctx, P, 'file-form', NS + 'write_verilog', 'write2Verilog')
    ctx.rule('verilog', 'the text that the recovered transfer function of write_verilog sends to the stream on finite AND-inverter graphs and port names, read back by an independent reader of structural Verilog, '
             'is well formed (every net declared once, driven once), has the ports of the graph in order and computes the same functions')
    op = loadtext(ctx, P, NS + 'write_verilog', ('aig_network', 'ostream'))
    fam = family(ctx, ctx.tier == 'thorough')

    def cases():
        for N, ps in fam:
            yield 'write_verilog', label(N, ps), lambda N=N, ps=ps: check(op, N, ps)
    ok, bad, und = sweep(cases)
    report(ctx, 'verilog', 'write_verilog', loc(op.f), ok, bad, und)
