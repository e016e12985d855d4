"""Independent readers of the text formats the tool writes: binary AIGER and structural Verilog."""
import re
from .terms import columns


class Bad(Exception):
    """the text is no well-formed netlist"""


def parse_aiger(s):
    """text (one character per byte) -> (number of inputs, gates {index: (lit, lit)}, output literals, {kind+index: name})"""
    h, p = s.split('\n', 1) if '\n' in s else (s, '')
    m = re.fullmatch(r'aig (\d+) (\d+) (\d+) (\d+) (\d+)', h)
    if not m:
        raise Bad(f'header "{h}"')
    M, I, L, O, A = map(int, m.groups())
    if M != I + L + A:
        raise Bad(f'the header announces {M} variables for {I} inputs, {L} latches and {A} gates')
    if L:
        raise Bad('latches')
    outs = []
    for _ in range(O):
        x, _, p = p.partition('\n')
        if not x.isdigit():
            raise Bad(f'output line "{x}"')
        outs.append(int(x))
    pos = 0

    def num():
        nonlocal pos
        r = k = 0
        while True:
            if pos >= len(p):
                raise Bad('the gate section ends early')
            c = ord(p[pos])
            pos += 1
            r |= (c & 127) << 7 * k
            if not c & 128:
                return r
            k += 1
    gates = {}
    for i in range(I + 1, I + A + 1):
        d1 = num()
        d2 = num()
        a = 2 * i - d1
        b = a - d2
        if d1 == 0 or b < 0:
            raise Bad(f'gate {i} has the fan-ins {a} and {b}')
        gates[i] = (a, b)
    names = {}
    rest = p[pos:]
    while rest:
        line, _, rest = rest.partition('\n')
        if line == 'c':
            break
        m = re.fullmatch(r'([ilo])(\d+) (.*)', line)
        if not m:
            raise Bad(f'"{line[:40]}" after the gates')
        names[m[1] + m[2]] = m[3]
    for l in outs:
        if l >> 1 > M:
            raise Bad(f'the output literal {l} does not exist')
    return I, gates, outs, names


def aiger_tts(I, gates, outs):
    full, cols = columns(I)
    v = [0] + cols

    def lit(l):
        return v[l >> 1] ^ (full if l & 1 else 0)
    for i in sorted(gates):
        a, b = gates[i]
        v.append(lit(a) & lit(b))
    return [lit(l) for l in outs]


TOK = re.compile(r"\s*(\\\S+\s|[A-Za-z_][A-Za-z0-9_$]*|\d+'[bh][0-9a-fA-F]+|\d+|[()\[\];,.:=~&|^])")


def tokens(s):
    i, out = 0, []
    s = s.rstrip()
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            raise Bad(f'"{s[i:i + 30]}" is no Verilog')
        t = m[1]
        out.append('\\' + t[1:-1] if t[0] == '\\' else t)
        i = m.end()
    return out


KEY = {'module', 'endmodule', 'input', 'output', 'wire', 'assign', 'defparam'}


def ident(t):
    """name of an identifier token: an escaped identifier is the same as the plain one"""
    if t[0] == '\\':
        return t[1:]
    if re.fullmatch(r'[A-Za-z_][A-Za-z0-9_$]*', t) and t not in KEY:
        return t
    raise Bad(f'"{t}" where a name is expected')


class Verilog:
    def __init__(self, s):
        self.t = tokens(s)
        self.i = 0
        self.kind, self.order = {}, []
        self.driver = {}
        self.insts, self.init = {}, {}
        self.parse()

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ''

    def next(self, *want):
        t = self.peek()
        if not t:
            raise Bad('the text ends early')
        if want and t not in want:
            raise Bad(f'"{t}" where "{want[0]}" is expected')
        self.i += 1
        return t

    def bit(self):
        n = ident(self.next())
        if self.peek() == '[':
            self.next('[')
            n += f'[{self.next()}]'
            self.next(']')
        return n

    def declare(self, n, kind):
        if n in self.kind:
            raise Bad(f'{n} is declared twice')
        self.kind[n] = kind

    def parse(self):
        self.next('module')
        self.name = ident(self.next())
        self.next('(')
        self.ports = []
        if self.peek() == ')':
            self.next()
        else:
            while True:
                self.ports.append(ident(self.next()))
                if self.next(',', ')') == ')':
                    break
        self.next(';')
        if len(set(self.ports)) != len(self.ports):
            raise Bad('two ports have the same name')
        self.declared = []
        while True:
            t = self.next()
            if t == 'endmodule':
                break
            if t in ('input', 'output', 'wire'):
                w = None
                if self.peek() == '[':
                    self.next()
                    w = int(self.next()) + 1
                    self.next(':')
                    self.next('0')
                    self.next(']')
                while self.peek() != ';':
                    n = ident(self.next())
                    self.declared.append((n, t))
                    for k in [n] if w is None else [f'{n}[{j}]' for j in range(w)]:
                        self.declare(k, t)
                        self.order.append(k)
                    if self.peek() == ',':
                        self.next()
                        if self.peek() == ';':
                            raise Bad('"," before ";"')
                self.next(';')
            elif t == 'assign':
                n = self.bit()
                self.next('=')
                x = self.expr()
                self.next(';')
                self.drive(n, ('e', x))
            elif t == 'defparam':
                n = ident(self.next())
                self.next('.')
                if self.next() != 'INIT':
                    raise Bad('defparam of something else than INIT')
                self.next('=')
                v = self.next()
                self.next(';')
                if n in self.init:
                    raise Bad(f'two INIT values of {n}')
                self.init[n] = v
            elif re.fullmatch(r'LUT\d+', t):
                n = ident(self.next())
                self.next('(')
                c = []
                while True:
                    c.append(self.bit())
                    if self.next(',', ')') == ')':
                        break
                self.next(';')
                k = int(t[3:])
                if len(c) != k + 1:
                    raise Bad(f'{t} with {len(c)} connections')
                if n in self.insts or n in self.kind:
                    raise Bad(f'the name {n} is used twice')
                self.insts[n] = c
                self.drive(c[-1], ('l', n, c[:-1]))
            else:
                raise Bad(f'"{t}" in the module')
        if self.i != len(self.t):
            raise Bad('text after endmodule')
        for n in self.kind:
            if n in self.insts:
                raise Bad(f'the name {n} is used twice')
        if sorted(n for n, k in self.declared if k != 'wire') != sorted(self.ports):
            raise Bad('the declared inputs and outputs are not the ports of the module')

    def drive(self, n, how):
        if n in self.driver:
            raise Bad(f'{n} has two drivers')
        self.driver[n] = how

    def expr(self):
        x = self.xor()
        while self.peek() == '|':
            self.next()
            x = ('|', x, self.xor())
        return x

    def xor(self):
        x = self.conj()
        while self.peek() == '^':
            self.next()
            x = ('^', x, self.conj())
        return x

    def conj(self):
        x = self.prim()
        while self.peek() == '&':
            self.next()
            x = ('&', x, self.prim())
        return x

    def prim(self):
        t = self.peek()
        if t == '~':
            self.next()
            return ('~', self.prim())
        if t == '(':
            self.next()
            x = self.expr()
            self.next(')')
            return x
        if re.fullmatch(r"1'b[01]", t):
            self.next()
            return ('c', int(t[-1]))
        return ('n', self.bit())

    def inputs(self):
        return [n for n in self.order if self.kind[n] == 'input']

    def outputs(self):
        return [n for n in self.order if self.kind[n] == 'output']

    def tts(self):
        ins = self.inputs()
        k = len(ins)
        full, cols = columns(k)
        v = dict(zip(ins, cols))
        busy = set()
        for n in ins:
            if n in self.driver:
                raise Bad(f'the input {n} is driven')
        for n in self.driver:
            if n not in self.kind:
                raise Bad(f'{n} is not declared')

        def net(n):
            if n in v:
                return v[n]
            if n not in self.kind:
                raise Bad(f'{n} is not declared')
            if n not in self.driver:
                raise Bad(f'{n} has no driver')
            if n in busy:
                raise Bad(f'{n} depends on itself')
            busy.add(n)
            d = self.driver[n]
            if d[0] == 'e':
                v[n] = ev(d[1])
            else:
                x = self.init.get(d[1])
                m = re.fullmatch(r"(\d+)'h([0-9a-fA-F]+)", x or '')
                if not m or int(m[1]) != 1 << len(d[2]) or int(m[2], 16) >> (1 << len(d[2])):
                    raise Bad(f'the INIT value {x} of {d[1]} with {len(d[2])} inputs')
                bits = int(m[2], 16)
                xs = [net(q) for q in d[2]]
                r = 0
                for b in range(full.bit_length()):
                    j = sum(1 << i for i, q in enumerate(xs) if q >> b & 1)
                    r |= (bits >> j & 1) << b
                v[n] = r
            return v[n]

        def ev(x):
            if x[0] == 'n':
                return net(x[1])
            if x[0] == 'c':
                return full if x[1] else 0
            if x[0] == '~':
                return full ^ ev(x[1])
            a, b = ev(x[1]), ev(x[2])
            return a & b if x[0] == '&' else a | b if x[0] == '|' else a ^ b
        for n in self.order:
            if n in self.driver or self.kind[n] == 'output':
                net(n)
        return [v[n] for n in self.outputs()]
