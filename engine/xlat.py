"""Translations between networks: the algorithm's recovered transfer function is evaluated on finite source networks.
Operations of the networks themselves (iteration, queries, node creation) are contracts whose implementation in the
repository is decided by the rules of the network classes; everything in between comes from the analysed source."""
from .terms import *
from . import terms as tm
from .interp import Interp
from .evalm import Unknown, Outside, Undef
from .trans import Run, rec, Ref, conv
from .net import ITER

CLASSES = ('aig_network', 'klut_network', 'aig_with_choice', 'topo_view', 'depth_view', 'mapping_view', 'immutable_view')
QUERIES = set('''is_ci is_pi is_ro is_constant is_dead is_and is_or is_xor is_maj is_ite is_xor3 is_nary_and is_nary_or is_nary_xor is_function
constant_value is_combinational num_pis num_pos num_cis num_cos num_gates num_registers num_latches size fanin_size fanout_size node_function
get_constant pi_at po_at ci_at co_at ro_at ri_at pi_index ci_index ro_index level depth is_cell_root cell_function num_cells latch_reset
get_child0 get_child1 is_repr get_equiv_node get_repr has_mapping ro_to_ri ri_to_ro po_index co_index ri_index value visited trav_id find_and
is_on_critical_path phase mark_a mark_b'''.split())
MUTATORS = set('''create_pi create_po create_ro create_ri create_and create_or create_xor create_nand create_nor create_xnor create_lt create_le
create_ite create_maj create_xor3 create_nary_and create_nary_or create_nary_xor create_node clone_node create_buf create_not substitute_node
take_out_node set_value incr_value decr_value clear_values set_visited clear_visited incr_trav_id update_levels update_topo'''.split())
BOOL = {q for q in QUERIES if q.startswith('is_') or q.startswith('has_')} | {'constant_value', 'find_and', 'phase', 'mark_a', 'mark_b'}


def net_class(cls):
    base = (cls or '').split('<')[0].split('::')[-1]
    return base if base in CLASSES else None


def netloc(v):
    """location of the network object an argument stands for"""
    if isinstance(v, Term) and v.op == 'addr':
        v = v.args[0]
    if isinstance(v, Term) and v.op == 'lref':
        v = v.args[0]
    return v


def resolved(I, st, v):
    """network a location stands for: reference members lead to the network they are bound to"""
    l = netloc(v)
    try:
        x = I.load(st, l)
    except Exception:
        return l
    for _ in range(4):
        if isinstance(x, Term) and x.op in ('lref', 'addr'):
            return x.args[0]
        if isinstance(x, Term) and x.op == 'ld' and isinstance(x.args[0], Term):
            return x.args[0]
        break
    return l


def xprims(extra=None, mutators=MUTATORS, queries=QUERIES, keep=()):
    """'*' primitive: network operations become loops over elements, queries and calls of contracts"""

    def hook(qn, d, e):
        if extra:
            h = extra(qn, d, e)
            if h is not None:
                return h
        if not e.get('m') or net_class(d.get('cls')) is None or (keep(d) if callable(keep) else d['n'] in keep):
            return None
        n = d['n']
        if n in ITER:
            op = ITER[n][0]

            def each(I, st, fr, e, args):
                lamv = args[-1]
                if lamv.op == 'addr':
                    lamv = I.load(st, lamv.args[0])
                key = (resolved(I, st, args[0]),) + tuple(args[1:-1])
                ep = I.epoch()

                def elems(iv):
                    return [T('val', T('el', ep, op, *key, iv)), T('val', iv)]
                cnt = T('nel', ep, op, *key)
                tm.mark_unsigned(cnt)
                s2 = I.run_callback_loop(st, fr, e, lamv, elems, n, T('net', key[0]), count=cnt, stop=True)
                I.assign_state(st, s2)
                return T('void')
            return each
        if n in queries:
            def query(I, st, fr, e, args):
                v = T('q', I.epoch(), n, resolved(I, st, args[0]), *args[1:])
                if n in BOOL:
                    return atom(T('bitf', v))
                tm.mark_unsigned(v)
                return v
            return query
        if n in mutators:
            def mut(I, st, fr, e, args):
                ev = I.event(st, fr, 'call', qn, (resolved(I, st, args[0]),) + tuple(args[1:]), e, fid=e.get('fn'))
                v = T('ret', I.epoch(), qn)
                tm.mark_unsigned(v)
                if ev is not None:
                    ev.val = v
                    ev.extra = ('net', n)
                return v
            return mut
        return None
    return {'*': hook}


class Net:
    """immutable model of a network. kind: 'aig' | 'klut'.  nodes: ('c', v) | ('pi',) | ('ro',) | ('g', function, fan-ins);
    function: 'and' or a truth table (nvars, bits)"""

    def __init__(self, kind, nodes=None, pos=(), ris=(), cis=(), log=()):
        self.kind = kind
        self.nodes = tuple(nodes) if nodes is not None else ((('c', 0),) if kind == 'aig' else (('c', 0), ('c', 1)))
        self.pos, self.ris, self.cis, self.log = tuple(pos), tuple(ris), tuple(cis), tuple(log)

    def but(self, **k):
        d = dict(kind=self.kind, nodes=self.nodes, pos=self.pos, ris=self.ris, cis=self.cis, log=self.log)
        d.update(k)
        x = type(self)(**d)
        for a in self.__dict__:
            if a not in d:
                x.__dict__[a] = self.__dict__[a]
        return x

    # signals: aig (index, c); klut index
    def out(self, s):
        if self.kind == 'aig':
            return rec('iFPGA::aig_network::signal', index=s[0], complement=int(s[1]))
        return s[0]

    def inp(self, v):
        if isinstance(v, tuple) and v[0] == 'rec' and 'index' in v[2]:
            d = v[2]
            s = d['index'], int(d['weight'] if 'weight' in d else d['complement'])
        elif isinstance(v, int) and not isinstance(v, bool):
            s = (v, 0) if self.kind == 'klut' else (v >> 1, v & 1)
        elif v is Undef:
            raise Damage('a signal is used before it has a value')
        else:
            raise Unknown(f'not a signal: {v!r}'[:120])
        if not 0 <= s[0] < len(self.nodes):
            raise Damage(f'the signal {s[0]} does not exist in the network')
        return s

    def add(self, node):
        return self.but(nodes=self.nodes + (node,)), (len(self.nodes), 0)

    def gates(self):
        return [i for i, n in enumerate(self.nodes) if n[0] == 'g']

    def pis(self):
        return [i for i in self.cis if self.nodes[i][0] == 'pi']

    def ros(self):
        return [i for i in self.cis if self.nodes[i][0] == 'ro']

    def tts(self, where=None, wide=None):
        """functions of all nodes; where, wide: the inputs stand for the inputs at these positions of a network with wide inputs"""
        k = len(self.cis)
        full, cols = columns(wide or k)
        if where is not None:
            cols = [cols[i] for i in where]
        v = {}
        for i, n in enumerate(self.cis):
            v[n] = cols[i]
        busy = set()

        def val(i):
            if i in v:
                return v[i]
            n = self.nodes[i]
            if n[0] == 'c':
                v[i] = full if n[1] else 0
                return v[i]
            if i in busy:
                raise Damage('cyclic network')
            busy.add(i)
            xs = [val(j) ^ (full if c else 0) for j, c in n[2]]
            v[i] = apply_fn(n[1], xs, full)
            return v[i]
        for i in range(len(self.nodes)):
            val(i)
        self.full = full
        return v

    def outputs(self, where=None, wide=None):
        v = self.tts(where, wide)
        return [v[i] ^ (self.full if c else 0) for i, c in self.pos], [v[i] ^ (self.full if c else 0) for i, c in self.ris]

    def topo(self):
        """constants, combinational inputs, then the gates the outputs depend on, fan-ins first"""
        order = [i for i, n in enumerate(self.nodes) if n[0] == 'c'] + list(self.cis)
        seen = set(order)

        def go(i):
            if i in seen:
                return
            seen.add(i)
            for j, _ in self.nodes[i][2]:
                go(j)
            order.append(i)
        for i, _ in list(self.pos) + list(self.ris):
            go(i)
        return order

    def show(self):
        def l(s):
            return ('!' if s[1] else '') + str(s[0])
        g = ', '.join(f'{i}={n[1] if n[1] == "and" else "lut%d:%x" % n[1]}({",".join(l(s) for s in n[2])})' for i, n in enumerate(self.nodes) if n[0] == 'g')
        return f'{self.kind} with {len(self.pis())} inputs, {len(self.ros())} registers, gates [{g}], outputs [{", ".join(l(s) for s in self.pos)}]' + (
            f', register inputs [{", ".join(l(s) for s in self.ris)}]' if self.ris else '')


class Damage(Exception):
    """the evaluated operation uses something that does not exist"""


def apply_fn(f, xs, full):
    if f == 'and':
        r = full
        for x in xs:
            r &= x
        return r
    n, bits = f
    r = 0
    m = 1
    k = 0
    while m <= full:
        if full & m:
            i = 0
            for j, x in enumerate(xs):
                if x & m:
                    i |= 1 << j
            if bits >> i & 1:
                r |= m
        m <<= 1
    return r


def tt(n, bits):
    return ('tt', n, bits & ((1 << (1 << n)) - 1))


GATES = {
    'create_and': (2, 0x8), 'create_or': (2, 0xe), 'create_xor': (2, 0x6), 'create_nand': (2, 0x7), 'create_nor': (2, 0x1), 'create_xnor': (2, 0x9),
    'create_lt': (2, 0x4), 'create_le': (2, 0xd), 'create_maj': (3, 0xe8), 'create_ite': (3, 0xd8), 'create_xor3': (3, 0x96),
}


def ite_tt():
    # operands (cond, then, else) are variables 0, 1, 2
    r = 0
    for m in range(8):
        c, t, e = m & 1, m >> 1 & 1, m >> 2 & 1
        if (t if c else e):
            r |= 1 << m
    return r


GATES['create_ite'] = (3, ite_tt())


class View:
    def __init__(self, base, order=None):
        self.base, self.order = base, order


class XRun(Run):
    """Run over a store whose cells hold networks; nets: location term -> cell"""

    def __init__(self, I, cells, roots, nets, **k):
        self.calls = {}
        super().__init__(I, cells, roots, **k)
        self.nets = dict(nets)
        self.queries = {}

    # ---- networks
    def cell_of(self, loc):
        if loc in self.nets:
            return self.nets[loc]
        if isinstance(loc, Term):
            if loc.op == 'root' and ('local', loc) in self.cur and isinstance(self.cur[('local', loc)], Net):
                return ('local', loc)
            if loc.op in ('ld', 'val', 'deref') and isinstance(loc.args[0], Term):
                return self.cell_of(loc.args[0])
            if loc.op == 'addr':
                return self.cell_of(loc.args[0])
        raise Unknown(f'network {show(loc)[:80]}')

    def net(self, loc, store=None):
        c = self.cell_of(loc)
        n = (self.cur if store is None else store).get(c)
        if not isinstance(n, (Net, View)):
            raise Unknown(f'network {show(loc)[:80]} has no model')
        return n

    def base(self, loc, store=None):
        n = self.net(loc, store)
        while isinstance(n, View):
            n = (self.cur if store is None else store)[n.base]
        return n

    def elements(self, op, loc, args, store):
        n, N = self.net(loc, store), self.base(loc, store)
        if op == 'node':
            return list(n.order if isinstance(n, View) and n.order is not None else range(len(N.nodes)))
        if op == 'gate':
            return [i for i in (n.order if isinstance(n, View) and n.order is not None else range(len(N.nodes))) if N.nodes[i][0] == 'g']
        if op == 'pi':
            return N.pis()
        if op == 'ro':
            return N.ros()
        if op == 'ci':
            return list(N.cis)
        if op == 'po':
            return [N.out(s) for s in N.pos]
        if op == 'ri':
            return [N.out(s) for s in N.ris]
        if op == 'co':
            return [N.out(s) for s in N.pos + N.ris]
        if op == 'fanin':
            i = self.nodeno(N, args[0])
            x = N.nodes[i]
            return [N.out(s) for s in x[2]] if x[0] == 'g' else []
        if op == 'cellfanin':
            return list(N.cells[self.nodeno(N, args[0])][0])
        raise Unknown(f'elements {op}')

    def nodeno(self, N, v):
        if isinstance(v, tuple) and v[0] == 'rec' and 'index' in v[2]:
            v = v[2]['index']
        if v is Undef:
            raise Damage('a node is used before it has a value')
        if not isinstance(v, int):
            raise Unknown(f'node {v!r}')
        if not 0 <= v < len(N.nodes):
            raise Damage(f'the node {v} does not exist in the network')
        return v

    def query(self, name, loc, args, store):
        h = self.queries.get(name)
        if h:
            return h(self, self.base(loc, store), self.net(loc, store), args)
        N = self.base(loc, store)
        if name == 'size':
            return len(N.nodes)
        if name in ('num_pis', 'num_pos', 'num_cis', 'num_cos', 'num_registers', 'num_latches', 'num_gates'):
            return {'num_pis': len(N.pis()), 'num_pos': len(N.pos), 'num_cis': len(N.cis), 'num_cos': len(N.pos) + len(N.ris),
                    'num_registers': len(N.ris), 'num_latches': len(N.ris), 'num_gates': len(N.gates())}[name]
        if name == 'get_constant':
            v = int(args[0]) if args else 0
            return N.out((0, v)) if N.kind == 'aig' else v
        if name == 'is_combinational':
            return not N.ros()
        if name in ('pi_at', 'ci_at', 'ro_at', 'po_at', 'co_at', 'ri_at'):
            l = {'pi_at': N.pis(), 'ci_at': list(N.cis), 'ro_at': N.ros(), 'po_at': N.pos, 'co_at': N.pos + N.ris, 'ri_at': N.ris}[name]
            if not 0 <= args[0] < len(l):
                raise Damage(f'{name}({args[0]}) of {len(l)}')
            return l[args[0]] if name[0] in 'pcr' and name in ('pi_at', 'ci_at', 'ro_at') else N.out(l[args[0]])
        i = self.nodeno(N, args[0])
        x = N.nodes[i]
        if name == 'is_constant':
            return x[0] == 'c'
        if name == 'constant_value':
            return bool(x[1]) if x[0] == 'c' else False
        if name == 'is_ci':
            return x[0] in ('pi', 'ro') or N.kind == 'aig' and x[0] == 'c'
        if name == 'is_pi':
            return x[0] == 'pi' or N.kind == 'aig' and x[0] == 'c'
        if name == 'is_ro':
            return x[0] == 'ro'
        if name == 'is_and':
            return x[0] == 'g' and x[1] == 'and'
        if name in ('is_or', 'is_xor', 'is_maj', 'is_ite', 'is_xor3', 'is_nary_and', 'is_nary_or', 'is_nary_xor') and N.kind == 'aig':
            return False
        if name == 'is_dead':
            return i in getattr(N, 'dead', ())
        if name == 'is_function':
            return x[0] == 'g'
        if name == 'fanin_size':
            return len(x[2]) if x[0] == 'g' else 0
        if name == 'fanout_size':
            return sum(s[0] == i for y in N.nodes if y[0] == 'g' for s in y[2]) + sum(s[0] == i for s in N.pos + N.ris)
        if name == 'node_function':
            if x[0] != 'g':
                raise Unknown('node_function of a leaf')
            return tt(2, 8) if x[1] == 'and' else tt(*x[1])
        if name in ('pi_index', 'ci_index', 'ro_index'):
            l = {'pi_index': N.pis(), 'ci_index': list(N.cis), 'ro_index': N.ros()}[name]
            if i not in l:
                raise Unknown(f'{name} of another node')
            return l.index(i)
        if name in ('get_child0', 'get_child1') and x[0] == 'g':
            return N.out(x[2][int(name[-1])])
        if name == 'is_cell_root':
            return i in N.cells
        if name == 'cell_function':
            return tt(*N.cells[i][1])
        raise Unknown(f'query {name}')

    def mutate(self, name, loc, args):
        c = self.cell_of(loc)
        N = self.cur[c]
        while isinstance(N, View):
            c = N.base
            N = self.cur[c]
        if name == 'create_pi':
            M, s = N.add(('pi',))
            M = M.but(cis=N.cis + (s[0],))
        elif name == 'create_ro':
            M, s = N.add(('ro',))
            M = M.but(cis=N.cis + (s[0],))
        elif name == 'create_po':
            self.cur = {**self.cur, c: N.but(pos=N.pos + (N.inp(args[0]),))}
            return len(N.pos)
        elif name == 'create_ri':
            self.cur = {**self.cur, c: N.but(ris=N.ris + (N.inp(args[0]),))}
            return len(N.ris)
        elif name in ('create_not', 'create_buf'):
            a = N.inp(args[0])
            neg = name == 'create_not'
            if N.kind == 'aig':
                return N.out((a[0], a[1] ^ neg))
            if not neg:
                return N.out(a)
            M, s = N.add(('g', (1, 1), (a,)))
        elif name in GATES:
            k, bits = GATES[name]
            xs = [N.inp(a) for a in args[:k]]
            if name == 'create_and' and N.kind == 'aig':
                return self.aig_and(c, N, xs)
            M, s = N.add(('g', (k, bits), tuple(xs)))
        elif name in ('create_nary_and', 'create_nary_or', 'create_nary_xor'):
            xs = [N.inp(a) for a in args[0]]
            k = len(xs)
            bits = 0
            for m in range(1 << k):
                p = bin(m).count('1')
                if name.endswith('and') and p == k or name.endswith('_or') and p or name.endswith('xor') and p & 1:
                    bits |= 1 << m
            M, s = N.add(('g', (k, bits), tuple(xs)))
        elif name == 'create_node':
            xs = [N.inp(a) for a in args[0]]
            f = args[1]
            if not (isinstance(f, tuple) and f[0] == 'tt'):
                raise Unknown('node function')
            if f[1] != len(xs):
                raise Damage(f'a function of {f[1]} variables is given {len(xs)} fan-ins')
            M, s = N.add(('g', (f[1], f[2]), tuple(xs)))
        elif name == 'clone_node':
            src = args[0] if isinstance(args[0], Net) else self.base(args[0]) if isinstance(args[0], Term) else None
            if src is None:
                raise Unknown('source of clone_node')
            i = self.nodeno(src, args[1])
            x = src.nodes[i]
            if x[0] != 'g':
                raise Damage(f'clone_node of the node {i}, which is not a gate')
            xs = [N.inp(a) for a in args[2]]
            if len(xs) != len(x[2]):
                raise Damage(f'clone_node of the node {i} with {len(xs)} fan-ins')
            if x[1] == 'and' and N.kind == 'aig':
                return self.aig_and(c, N, xs)
            M, s = N.add(('g', x[1] if x[1] != 'and' else (2, 8), tuple(xs)))
        else:
            raise Unknown(f'operation {name}')
        self.cur = {**self.cur, c: M}
        return M.out(s)

    def aig_and(self, c, N, xs):
        """create_and with the simplifications and sharing of the AND-inverter graph (decided by C01, C02)"""
        a, b = sorted(xs)
        if a[0] == b[0]:
            return N.out(a if a[1] == b[1] else (0, 0))
        if a[0] == 0:
            return N.out(b if a[1] else (0, 0))
        for i, n in enumerate(N.nodes):
            if n[0] == 'g' and n[1] == 'and' and n[2] == (a, b):
                return N.out((i, 0))
        M, s = N.add(('g', 'and', (a, b)))
        self.cur = {**self.cur, c: M}
        return M.out(s)

    # ---- hooks into the evaluator
    def mleaf(self, t):
        x = t.args[0] if t.op == 'bitf' else t
        if x.op == 'q':
            return self.query(x.args[1], x.args[2], [self.v(a) for a in x.args[3:]], self.store_at(x.args[0]))
        if x.op == 'el':
            l = self.elements(x.args[1], x.args[2], [self.v(a) for a in x.args[3:-1]], self.store_at(x.args[0]))
            i = self.v(x.args[-1])
            if not 0 <= i < len(l):
                raise Unknown('element outside')
            return l[i]
        if x.op == 'ld' and isinstance(x.args[0], Term) and (x.args[0] in self.nets or x.args[0].op == 'root'):
            try:
                return self.base(x.args[0])
            except Unknown:
                pass
        if x.op == 'nel':
            return len(self.elements(x.args[1], x.args[2], [self.v(a) for a in x.args[3:]], self.store_at(x.args[0])))
        return super().mleaf(t)

    def apply(self, e):
        if e.kind == 'call' and isinstance(e.extra, tuple) and e.extra and e.extra[0] == 'net':
            self.steps += 1
            args = []
            for a in e.args[1:]:
                try:
                    args.append(self.val(a))
                except Outside:
                    raise
                except Unknown:
                    if isinstance(a, Term):
                        args.append(netloc(a))
                    else:
                        raise
            n = e.extra[1]
            h = self.calls.get(n)
            r = h(self, e.args[0], args) if h else self.mutate(n, e.args[0], args)
            if isinstance(e.val, Term):
                self.rets[e.val] = r
            self.memo = {}
            return
        if e.kind == 'ctor' and e.extra is not None:
            self.ctor(e)
            return
        if e.kind == 'new' and isinstance(e.val, Term):
            ta = str(e.extra or '')
            if 'unordered_map' in ta or 'std::map' in ta:
                v = {}
            elif 'vector' in ta:
                n = self.v(e.args[0]) if e.args else 0
                if not isinstance(n, int):
                    raise Unknown('size of a new vector')
                v = [self.val(e.args[1]) if len(e.args) > 1 else Undef] * n
            else:
                return
            self.memo = {}
            self.cur = {**self.cur, ('local', e.val): v}
            return
        super().apply(e)

    def ctor(self, e):
        cls = net_class(str(e.name).rsplit('::', 1)[0])
        if cls is None:
            return
        self.memo = {}
        cell = ('net', e.extra)
        self.nets[e.extra] = cell
        if cls in ('aig_network', 'klut_network', 'aig_with_choice') and not e.args:
            self.cur = {**self.cur, cell: Net('klut' if cls == 'klut_network' else 'aig')}
            return
        if cls in ('depth_view', 'topo_view') and e.args and isinstance(e.args[0], Term) and e.args[0].op == 'rec' and 'cost' in str(e.args[0].args[0]):
            # a view over a network of its own, given the cost function only
            self.cur = {**self.cur, cell: Net('klut' if 'klut_network' in str(e.args[0].args[0]) else 'aig')}
            return
        base = self.cell_of(netloc(e.args[0])) if e.args else None
        if base is None:
            raise Unknown('view of nothing')
        n = self.cur[base]
        while isinstance(n, View):
            base = n.base
            n = self.cur[base]
        if cls == 'topo_view':
            self.cur = {**self.cur, cell: View(base, n.topo())}
        elif cls in ('depth_view', 'immutable_view', 'mapping_view'):
            self.cur = {**self.cur, cell: View(base)}
        else:                       # a network object made from another one shares its storage
            self.cur = {**self.cur, cell: View(base)}

    KINDS = ('epoch', 'write', 'push', 'pop', 'clear', 'swap', 'erase', 'resize', 'insert', 'havoc', 'call', 'ctor', 'new')

    def run(self):
        evs = [e for e in self.I.events if e.kind in self.KINDS]
        for e in self.trace(evs):
            self.apply(e)
        return self.cur
