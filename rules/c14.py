"""C14 reading a binary AIGER file builds the design and the port names the file describes."""
from rules.xl import *
from engine.text import *
from engine.rdtext import *
from engine.netlist import Bad
from rules.c15 import plainname

LEVEL = 'bounded'
MIN_DECIDED = 80
EMPTY = rec('iFPGA::write_verilog_params', module_name='top', input_names=[], output_names=[])
NAMES = ['a', 'b', 'clk', 'a[0]', 'data_in', 'n5', 'i0', 'i1', 'o0', 'o1', '_i0', '_o1', 'x', '$y', 'q 1', '0', 'i0 i1', 'sum<3>', 'c', 'ABC']


class Design:
    """what a file describes: literals of gates, next states and outputs, and the symbol table"""

    def __init__(self, ni, nl, gates, outs, nexts=(), resets=(), names=(), comment=None, eol='\n', last=True):
        self.ni, self.nl, self.gates, self.outs, self.nexts, self.resets, self.names, self.comment, self.eol, self.last = ni, nl, gates, outs, nexts, resets, names, comment, eol, last

    def text(self):
        b = 1 + self.ni + self.nl
        s = f'aig {b - 1 + len(self.gates)} {self.ni} {self.nl} {len(self.outs)} {len(self.gates)}\n'
        for n, r in zip(self.nexts, self.resets):
            s += f'{n}' + ('' if r is None else f' {r}') + '\n'
        s += ''.join(f'{o}\n' for o in self.outs)
        for k, (x, y) in enumerate(self.gates):
            for d in (2 * (b + k) - x, x - y):
                while d > 127:
                    s += chr(d & 127 | 128)
                    d >>= 7
                s += chr(d)
        t = ''.join(f'{k}{i} {n}{self.eol}' for k, i, n in self.names)
        if self.comment is not None:
            t += 'c' + self.eol + self.comment
        elif not self.last and t:
            t = t[:-len(self.eol)]
        return s + t

    def tts(self):
        n = self.ni + self.nl
        full, cols = columns(n)
        v = [0] + cols

        def lit(l):
            return v[l >> 1] ^ (full if l & 1 else 0)
        for a, b in self.gates:
            v.append(lit(a) & lit(b))
        return [lit(o) for o in self.outs], [lit(o) for o in self.nexts]

    def show(self):
        return f'file with {self.ni} inputs, {self.nl} latches, gates {self.gates[:12]}, outputs {self.outs}, next states {list(self.nexts)}, symbols {list(self.names)}'


def rnd_design(rnd, ni, ng, nl=0):
    b = 1 + ni + nl
    gates = []
    for k in range(ng):
        m = 2 * (b + k)
        r = rnd.random()
        lo = 0 if r < .15 else 2
        if m <= lo:
            break
        x, y = sorted((rnd.randrange(lo, m), rnd.randrange(lo, m)), reverse=True)
        if rnd.random() < .1 and gates:
            x, y = rnd.choice(gates)
        gates.append((x, y))
    m = 2 * (b + len(gates))
    outs = [rnd.randrange(m) for _ in range(rnd.choice((0, 1, 2, 3, 3)))]
    if outs and rnd.random() < .4:
        outs.append(outs[0])
    nexts = [rnd.randrange(m) for _ in range(nl)]
    resets = [rnd.choice((None, 0, 1)) for _ in range(nl)]
    names = []
    if rnd.random() < .75:
        pool = rnd.sample(NAMES, len(NAMES))
        names += [('i', i, pool.pop()) for i in range(ni) if pool and rnd.random() < .8]
        names += [('l', i, f'q{i}') for i in range(nl) if rnd.random() < .5]
        names += [('o', i, pool.pop()) for i in range(len(outs)) if pool and rnd.random() < .7]
        if rnd.random() < .2:
            rnd.shuffle(names)
    return Design(ni, nl, gates, outs, nexts, resets, names, rnd.choice((None, None, '', 'made by a tool\ni0 zz\no0 zz\n')), rnd.choice(('\n', '\n', '\n', '\r\n')), rnd.random() < .7)


def family(ctx, thorough):
    rnd = random.Random(141)
    fam = [Design(0, 0, [], []), Design(1, 0, [], [3, 0, 2, 1], names=[('o', 2, 'f')]), Design(2, 0, [(4, 2)], [6, 6], names=[('i', 0, 'a'), ('i', 1, 'b'), ('o', 0, 'f'), ('o', 1, 'g')])]
    for i in range(400 if thorough else 110):
        fam.append(rnd_design(rnd, rnd.choice((1, 2, 3, 4)), rnd.randrange(8), rnd.choice((0, 0, 0, 1, 2))))
    for n in (70, 150) + ((300,) if thorough else ()):
        fam.append(rnd_design(rnd, 4, n))
    return fam


class Reading(ReadRun):
    target = None

    def apply(self, e):
        if e.kind == 'write' and e.name == self.target:
            v = e.args[0]
            while isinstance(v, Term) and v.op in ('ld', 'val', 'addr', 'lref', 'deref'):
                v = v.args[0]
            self.memo = {}
            self.nets[self.target] = self.cell_of(v)
            return
        super().apply(e)

    def cell_of(self, loc):
        if isinstance(loc, Term) and loc.op == 'fld' and loc.args[1] == '_ntk' and self.network is not None:
            loc = self.network
        return super().cell_of(loc)


def evalread(op, data):
    cells = dict(n1=Net('aig', None, [], [], None) if False else Net('aig'), a2=EMPTY, s=('in', 0, 0, 0), a0='x.aig', a3=1)
    locs = {op.params[1]: 'n1'}
    roots = {op.params[2]: 'a2', STREAM: 's', op.params[0]: 'a0', op.params[3]: 'a3'}
    R = Reading(op.I, cells, roots, locs, contracts={}, limit=400000)
    R.queries, R.calls = {}, {}
    R.text = data
    R.target = op.params[1]
    R.network = op.network
    out = R.run()
    c = R.nets.get(op.params[1], 'n1')
    return R, out[c], out['a2'], out


def ident(n):
    """text of an identifier in the port lists: a simple identifier or an escaped one with its final blank"""
    if re.fullmatch(r'[A-Za-z_][A-Za-z0-9_$]*', n):
        return n
    if n[:1] == '\\' and n[-1:] == ' ' and len(n) > 2:
        return n[1:-1]
    raise Bad(f'"{n}" is no identifier')


def check(op, D):
    try:
        R, N, ps, _ = evalread(op, D.text())
        if R.asserts:
            return f'the assertion {R.asserts[0][0]} fails'
        if len(N.pis()) != D.ni or len(N.ros()) != D.nl or len(N.cis) != D.ni + D.nl:
            return f'{len(N.pis())} inputs and {len(N.ros())} register outputs are created'
        got, want = N.outputs(), D.tts()
        if len(got[0]) != len(want[0]) or len(got[1]) != len(want[1]):
            return f'{len(got[0])} outputs and {len(got[1])} register inputs are created'
        for k in range(2):
            for i, (a, b) in enumerate(zip(got[k], want[k])):
                if a != b:
                    return f'the {"output" if k == 0 else "register input"} {i} computes another function'
        d = ps[2]
        ins, outs = d['input_names'], d['output_names']
        given = {k + str(i): n for k, i, n in D.names}
        if not any(k[0] in 'io' for k in given):
            return 'ports are named although the file names none' if ins or outs else ''
        if len(ins) != D.ni or len(outs) != len(D.outs):
            return f'{len(ins)} input and {len(outs)} output names are stored'
        seen = set()
        for k, l in (('i', ins), ('o', outs)):
            for i, (_, n, w) in enumerate(l):
                if w != 0:
                    return f'the port {n} has the width {w}'
                n = ident(n)
                if k + str(i) in given and given[k + str(i)] != n:
                    return f'the port {k}{i} is named "{n}"'
                if n in seen:
                    return f'two ports are named "{n}"'
                seen.add(n)
    except (Bad, Damage, Outside) as x:
        return str(x)
    return ''


def check_bad(op, data):
    R, N, ps, out = evalread(op, data)
    if len(N.nodes) > 1 or N.pos or ps != EMPTY:
        return 'the design or the port names are changed although the file is no binary AIGER file'
    return ''


def run(ctx):
    P = ctx.prog('io')
    ctx.rule('aiger-read', 'the recovered transfer function of Reader (parser, callbacks, destructor that creates the outputs, completion of port names) applied to binary AIGER texts builds the inputs, registers and outputs in order with the '
             'functions the format defines, and stores each port name at its position')
    ctx.rule('aiger-reject', 'a file that does not start with a binary AIGER header changes neither the design nor the port names')
    rp = readprims(P)
    f = [f for f in P.find('Reader') if len(f['p']) == 4 and f['decl']['qn'].endswith('Reader::Reader')]
    ctx.need(f, 'Reader::Reader not found')
    from engine.interp import Interp
    I = Interp(P, prims=xprims(lambda qn, d, e: rp(qn, d, e) or textprims(qn, d, e)))
    I.dtors = ('aiger_reader', 'aig_reader')
    I.maxdepth = 12
    I.ctor_hook = lambda d: net_class(d.get('cls'))
    I.track_epochs = True
    ret, st = I.run(f[0])
    ctx.functions.update(I.funcs_seen)
    op = Op(ctx, f[0], I, ret)
    # the reader holds a reference to the network under construction
    b = {v.args[0] for k, v in st.mem.items() if k.op == 'fld' and k.args[1] == '_ntk' and k.args[0].op == 'bind' and isinstance(v, Term) and v.op == 'lref'}
    op.network = b.pop() if len(b) == 1 else None

    def cases():
        for D in family(ctx, ctx.tier == 'thorough'):
            yield 'Reader', D.show()[:600], lambda D=D: check(op, D)
    ok, bad, und = sweep(cases)
    report(ctx, 'aiger-read', 'Reader', loc(op.f), ok, bad, und)

    def cases2():
        for s in ('', 'aag 1 1 0 1 0\n2\n2\n', 'aig 1 1\n', 'xaig 1 1 0 1 0\n2\n', 'aig\n'):
            yield 'Reader', repr(s), lambda s=s: check_bad(op, s)
    ok, bad, und = sweep(cases2)
    report(ctx, 'aiger-reject', 'Reader, malformed header', loc(op.f), ok, bad, und)
