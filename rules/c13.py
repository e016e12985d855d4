"""C13 the binary AIGER file written for a design describes that design."""
from rules.xl import *
from rules import fileform
from engine.text import *
from engine.netlist import *

LEVEL = 'bounded'
MIN_DECIDED = 60


def family(ctx, thorough):
    rnd = random.Random(131)
    fam = [Net('aig', [('c', 0)], [], [], []), Net('aig', [('c', 0), ('pi',)], [(1, 1), (0, 0), (0, 1), (1, 0)], [], [1])]
    for _ in range(500 if thorough else 120):
        fam.append(rnd_aig(rnd, rnd.choice((1, 2, 3, 4)), rnd.randrange(8)))
    fam += list(wide_aigs())
    for n in (70, 150) + ((400,) if thorough else ()):
        fam.append(rnd_aig(rnd, 4, n, 6))
    return fam


def check(op, N):
    try:
        R, out = evaltext(op, {0: N}, {1: ('stream',)})
        if R.asserts:
            return f'the assertion {R.asserts[0][0]} fails'
        if out['n0'] is not N:
            return 'the network is changed'
        I, gates, outs, names = parse_aiger(written(R))
        if I != len(N.pis()):
            return f'{I} inputs are written'
        if len(gates) != len(N.gates()):
            return f'{len(gates)} gates are written'
        if len(outs) != len(N.pos):
            return f'{len(outs)} outputs are written'
        got, want = aiger_tts(I, gates, outs), N.outputs()[0]
        for k, (a, b) in enumerate(zip(got, want)):
            if a != b:
                return f'the output {k} of the file computes another function'
    except (Bad, Damage, Outside) as x:
        return str(x)
    return ''


def varint(op, v):
    try:
        R, out = evaltext(op, {}, {0: [], 1: v})
        b = out['a0']
    except Outside as x:
        return str(x)
    want, x = [], v
    while x > 127:
        want.append(x & 127 | 128)
        x >>= 7
    want.append(x)
    got = [c & 255 for c in b]
    return '' if got == want else f'the delta {v} is written as the bytes {got}, not {want}'


def run(ctx):
    P = ctx.prog('io')
    ctx.rule('file-form', 'the forms that take a file name open the named file anew and send it exactly the text of the stream form, of the given network and port names')
    fileform.forms(ctx, P, 'file-form', NS + 'write_aiger', 'write2AIG')
    ctx.rule('aiger-file', 'the bytes that the recovered transfer function of write_aiger sends to the stream on finite AND-inverter graphs, read back by the format definition, have the inputs, gates and outputs of the graph '
             'and compute the same functions')
    ctx.rule('delta-code', 'the variable-length code of a gate delta is the one of the format for boundary values of every length')
    op = loadtext(ctx, P, NS + 'write_aiger', ('aig_network', 'ostream'))
    fam = family(ctx, ctx.tier == 'thorough')
    enc = [f for f in P.find('encode') if f['file'].endswith('write_aiger.hpp') and len(f['p']) == 2]

    def cases():
        for N in fam:
            yield 'write_aiger', N.show()[:600], lambda N=N: check(op, N)
    ok, bad, und = sweep(cases)
    report(ctx, 'aiger-file', 'write_aiger', loc(op.f), ok, bad, und)
    if enc:
        e = loadtext(ctx, P, enc[0]['decl']['qn'])
        vals = sorted({x for k in range(32) for x in ((1 << k) - 1, 1 << k, (1 << k) + 1)} | {4294967295, 12345678, 300, 128 * 128 + 5})

        def cases2():
            for v in vals:
                yield 'encode', f'delta {v}', lambda v=v: varint(e, v)
        ok, bad, und = sweep(cases2)
        report(ctx, 'delta-code', 'encode', loc(e.f), ok, bad, und)
