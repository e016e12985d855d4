"""C06 k-LUT networks: queries, traversals, setters, creation and substitution follow the indexing scheme."""
from rules.c04 import M, read_one, write_one, visit_one, callbacks, done, val
from engine.terms import *
from engine.evalm import Unknown, Outside
from engine.par import sweep
from engine.ctx import loc
from engine.store import Ptr
from engine.model import *
from engine.objm import OMachine, Ptr as OPtr, rec as orec
from engine.evalm import plain
from rules.c05 import CACHE

LEVEL = 'bounded'
NS = 'iFPGA::'
NET = NS + 'klut_network'
MIN_DECIDED = 300


def kp(i):
    return rec('kptr', index=i)


class KlutStore:
    """nodes 0, 1 constants; then inputs, register outputs, gates [(children, literal)]; outputs and register inputs are nodes"""

    def __init__(self, npi, nro, gates, pos, ris, trav=7, latches=None, mix=False):
        self.npi, self.nro, self.gates, self.pos, self.ris = npi, nro, list(gates), list(pos), list(ris)
        b = self.base = 2 + npi + nro
        self.n = b + len(gates)
        ref = [0] * self.n
        for ch, _ in gates:
            for c in ch:
                ref[c] += 1
        for s in self.pos + self.ris:
            ref[s] += 1
        self.ref = ref
        nodes = []
        for i in range(self.n):
            ch, lit = gates[i - b] if i >= b else ((), i if i < 2 else 2)
            # the application value is the user's: any value is possible on any node
            nodes.append(rec('node', children=[kp(c) for c in ch], data=[rec('st', h1=ref[i], h2=(i * 7 + 1) & 3), rec('st', h1=lit, h2=0x60 + i)]))
        self.cis = list(range(2, b))
        self.storage = rec('storage', nodes=nodes, inputs=list(self.cis), outputs=[kp(s) for s in self.pos + self.ris],
                           data=rec('data', cache=rec('cache', _data=list(TABLES)), num_pis=npi, num_pos=len(self.pos), latches=list(latches or [0] * len(self.ris)), trav_id=trav), hash=[])
        self.events = rec('events', on_add=[], on_modified=[], on_delete=[])
        self.this = rec('klut', _storage=Ptr(self.storage), _events=Ptr(self.events))

    def describe(self):
        return (f'the network with {self.npi} inputs, {self.nro} registers, {len(self.gates)} LUTs, outputs {self.pos}'
                + (f', register inputs {self.ris}' if self.ris else ''))

    def is_ci(self, n):
        return 2 <= n < self.base

    def all_gates(self):
        return list(range(self.base, self.n))


TABLES = [('tt', 0, 0), ('tt', 1, 1), ('tt', 2, 8), ('tt', 2, 0xe), ('tt', 2, 4), ('tt', 3, 0xd8), ('tt', 3, 0x96), ('tt', 3, 0xe0)]


def klut_models():
    yield KlutStore(0, 0, [], [], [])
    yield KlutStore(2, 0, [((2, 3), 4)], [4], [])
    yield KlutStore(3, 0, [((2, 3), 5), ((4, 5, 3), 10), ((6,), 2), ((2, 1), 8), ((7, 0, 8), 14)], [9, 6, 1, 6, 0], [])
    yield KlutStore(2, 2, [((2, 4), 4), ((3, 5, 6), 11), ((7,), 3)], [7, 3], [8, 6], latches=[0, 1])
    yield KlutStore(1, 3, [((4, 3), 4), ((2, 5, 6), 15)], [7], [6, 7, 2], latches=[1, 0, 3])


def first(l, x):
    return l.index(x) if x in l else (1 << 32) - 1


def data(m, n, w, h):
    return m.storage[2]['nodes'][n][2]['data'][w][2][h]


def cos(m):
    return m.pos + m.ris


def kids(m, n):
    return list(m.gates[n - m.base][0]) if n >= m.base else []


READ = {
    'size': ('', lambda m: m.n),
    'num_cis': ('', lambda m: m.npi + m.nro),
    'num_cos': ('', lambda m: len(cos(m))),
    'num_pis': ('', lambda m: m.npi),
    'num_pos': ('', lambda m: len(m.pos)),
    'num_latches': ('', lambda m: len(m.ris)),
    'num_registers': ('reg', lambda m: m.nro),
    'num_gates': ('', lambda m: len(m.gates)),
    'is_combinational': ('', lambda m: int(m.nro == 0 and not m.ris)),
    'trav_id': ('', lambda m: m.storage[2]['data'][2]['trav_id']),
    'is_constant': ('n', lambda m, n: int(n < 2)),
    'is_ci': ('n', lambda m, n: int(m.is_ci(n))),
    'is_pi': ('n', lambda m, n: int(2 <= n < 2 + m.npi)),
    'is_ro': ('n', lambda m, n: int(2 + m.npi <= n < m.base)),
    'is_function': ('n', lambda m, n: int(n >= m.base)),
    'fanin_size': ('n', lambda m, n: len(kids(m, n))),
    'fanout_size': ('n', lambda m, n: m.ref[n]),
    'constant_value': ('k', lambda m, n: n),
    'get_node': ('n', lambda m, n: n),
    'is_complemented': ('n', lambda m, n: 0),
    'make_signal': ('n', lambda m, n: n),
    'node_to_index': ('n', lambda m, n: n),
    'index_to_node': ('n', lambda m, n: n),
    'ci_at': ('i:ci', lambda m, i: 2 + i),
    'pi_at': ('i:pi', lambda m, i: 2 + i),
    'ro_at': ('i:ro', lambda m, i: 2 + m.npi + i),
    'co_at': ('i:co', lambda m, i: cos(m)[i]),
    'po_at': ('i:po', lambda m, i: m.pos[i]),
    'ri_at': ('i:ri', lambda m, i: m.ris[i]),
    'ci_index': ('ci', lambda m, n: n - 2),
    'pi_index': ('pi', lambda m, n: n - 2),
    'ro_index': ('ro', lambda m, n: n - 2 - m.npi),
    'co_index': ('n', lambda m, s: first(cos(m), s)),
    'po_index': ('n', lambda m, s: first(m.pos, s)),
    'ri_index': ('n', lambda m, s: first(m.ris, s)),
    'ro_to_ri': ('ros', lambda m, s: m.ris[s - 2 - m.npi]),
    'ri_to_ro': ('ris', lambda m, s: 2 + m.npi + first(m.ris, s)),
    'latch_reset': ('i:ri', lambda m, i: m.storage[2]['data'][2]['latches'][i]),
    'value': ('n', lambda m, n: data(m, n, 0, 'h2')),
    'visited': ('n', lambda m, n: data(m, n, 1, 'h2')),
    'get_constant': ('b', lambda m, b: b),
}


def args_of(m, kind):
    if kind == '':
        return [()]
    if kind == 'reg':
        return [()] if m.nro == len(m.ris) else []
    l = {'n': range(m.n), 'k': (0, 1), 'b': (0, 1), 'ci': m.cis, 'pi': m.cis[:m.npi], 'ro': m.cis[m.npi:], 'ros': m.cis[m.npi:], 'ris': m.ris}.get(kind)
    if l is None:
        l = range(dict(ci=len(m.cis), pi=m.npi, ro=m.nro, co=len(cos(m)), po=len(m.pos), ri=len(m.ris))[kind[2:]])
    return [(n,) for n in l]


VISIT = {
    'foreach_node': lambda m: list(range(m.n)),
    'foreach_gate': lambda m: m.all_gates(),
    'foreach_ci': lambda m: m.cis,
    'foreach_pi': lambda m: m.cis[:m.npi],
    'foreach_ro': lambda m: m.cis[m.npi:],
    'foreach_co': cos,
    'foreach_po': lambda m: m.pos,
    'foreach_ri': lambda m: m.ris,
}


def upd(m, n, w, h, v):
    out = copy.deepcopy(m.this)
    out[2]['_storage'].obj[2]['nodes'][n][2]['data'][w][2][h] = v
    return out


def seq(m, w, h):
    out = copy.deepcopy(m.this)
    for x in out[2]['_storage'].obj[2]['nodes']:
        x[2]['data'][w][2][h] = 0
    return out, None


def trav(m):
    out = copy.deepcopy(m.this)
    out[2]['_storage'].obj[2]['data'][2]['trav_id'] += 1
    return out, None


WRITE = {
    'set_value': ('nv', lambda m, n, v: (upd(m, n, 0, 'h2', v), None)),
    'set_visited': ('nv', lambda m, n, v: (upd(m, n, 1, 'h2', v), None)),
    'incr_value': ('n', lambda m, n: (upd(m, n, 0, 'h2', data(m, n, 0, 'h2') + 1), data(m, n, 0, 'h2'))),
    'decr_value': ('n', lambda m, n: (upd(m, n, 0, 'h2', data(m, n, 0, 'h2') - 1), data(m, n, 0, 'h2') - 1)),
    'clear_values': ('', lambda m: seq(m, 0, 'h2')),
    'clear_visited': ('', lambda m: seq(m, 1, 'h2')),
    'incr_trav_id': ('', trav),
}
MODELS = list(klut_models())
_g = [((2, 257), 4), ((3, 258, 514), 10), ((2, 2), 12)] + [((514 + i % 3, 2 + i % 500, 1), 10 + i % 4) for i in range(270)]
WIDE = KlutStore(512, 0, _g, [514, 516, 257] + [2 + i for i in range(260)], [])


def method(P, name, pick=None):
    return [f for f in P.find('klut_network::' + name) if f['decl'].get('cls') == NET and (not pick or pick(f))]


def lookups(ctx, P):
    for name, (kind, spec) in READ.items():
        fs = method(P, name, lambda f: len(f['p']) == (0 if kind in ('', 'reg') else 1))
        ctx.need(fs, f'klut_network::{name} not found')
        f = fs[0]
        bad, n = None, 0
        try:
            fn = M(ctx, P, f)
            for m in MODELS:
                for a in args_of(m, kind):
                    n += 1
                    bad = bad or read_one(fn, name, spec, m, a)
        except Unknown as u:
            ctx.undecided('lookup', f['decl']['qn'], u)
            continue
        done(ctx, 'lookup', f['decl']['qn'], f, bad, n)


def iterations(ctx, P):
    for name, spec in list(VISIT.items()) + [('foreach_fanin', None)]:
        fs = method(P, name)
        ctx.need(fs, f'klut_network::{name} not found')
        bad, n, where = None, 0, fs[0]
        try:
            for f in fs:
                fn = M(ctx, P, f)
                calls, b = callbacks(fn, P, name)
                for m in MODELS:
                    for a in [()] if spec else [(x,) for x in range(m.n)]:
                        want = spec(m) if spec else kids(m, a[0])
                        for stop in ([None, 0, 1] if b else [None]):
                            n += 1
                            x = visit_one(fn, name, m, a, calls, stop, want)
                            if x and not bad:
                                bad, where = x, f
        except Unknown as u:
            ctx.undecided('iteration', f'{NET}::{name}', u)
            continue
        done(ctx, 'iteration', f'{NET}::{name}', where, bad, n)


def setters(ctx, P):
    for name, (kind, spec) in WRITE.items():
        fs = method(P, name, lambda f: len(f['p']) == len(kind))
        ctx.need(fs, f'klut_network::{name} not found')
        f = fs[0]
        bad, n = None, 0
        try:
            fn = M(ctx, P, f)
            for m in MODELS:
                for a in {'': [()], 'n': [(x,) for x in range(m.n)], 'nv': [(x, v) for x in range(m.n) for v in (0, 1, 0x7fffffff, 0xfffffffe)]}[kind]:
                    if name == 'decr_value' and not data(m, a[0], 0, 'h2'):
                        continue
                    n += 1
                    bad = bad or write_one(fn, name, spec, m, a)
        except Unknown as u:
            ctx.undecided('field-write', f['decl']['qn'], u)
            continue
        done(ctx, 'field-write', f['decl']['qn'], f, bad, n)


MAKE = ('create_pi', 'create_ro', 'create_po', 'create_ri', '_create_node', 'create_node', 'clone_node', 'substitute_node', 'node_function', 'compute', 'get_constant', 'set_value', 'is_ci')


def machine(ctx, P, it=''):
    def pick(f):
        cls = f['decl'].get('cls') or ''
        if f['decl']['qn'].endswith('::compute'):
            return it != '' and it in P.ty(f['p'][1]['t'])
        return cls == NET or cls.startswith(CACHE + '<kitty::dynamic_truth_table')
    return OMachine(ctx, P, [NET + '::' + n for n in MAKE] + [CACHE + '::insert', CACHE + '::operator[]'], pick=pick, keep=lambda d: d.get('cls') == NET)


def num(x):
    if isinstance(x, list):
        return tuple(num(y) for y in x)
    if isinstance(x, tuple) and x and x[0] == 'rec':
        return x[2].get('index', x[2].get('data'))
    if isinstance(x, OPtr) or not isinstance(x, (int, str, tuple)):
        raise Unknown(f'unexpected value {x!r}')
    return x


OTHER = TABLES[:2] + TABLES[:1:-1]      # the cache of the other network of clone_node


def cells(m, sfx='', tabs=TABLES):
    d = m.storage[2]
    nodes = [orec('node', children=[orec('kptr', index=c[2]['index']) for c in x[2]['children']], data=[orec('st', **y[2]) for y in x[2]['data']]) for x in d['nodes']]
    st = orec('storage', nodes=nodes, inputs=list(d['inputs']), outputs=[orec('kptr', index=o[2]['index']) for o in d['outputs']], hash={},
              data=orec('data', cache=orec('cache', _indexes={plain(t): i for i, t in enumerate(tabs)}, _data=list(tabs)), num_pis=m.npi, num_pos=len(m.pos), latches=list(d['data'][2]['latches']), trav_id=7))
    ev = orec('events', **{k: [k] for k in ('on_add', 'on_modified', 'on_delete')})
    return {'S' + sfx: st, 'E' + sfx: ev, 'N' + sfx: orec('klut', _storage=OPtr('S' + sfx), _events=OPtr('E' + sfx))}


class View:
    """the observable state of a storage cell"""

    def __init__(self, S):
        d = S[2]
        tabs = d['data'][2]['cache'][2]['_data']
        self.cis = [num(x) for x in d['inputs']]
        self.cos = [num(x) for x in d['outputs']]
        self.npi, self.npo, self.trav = (d['data'][2][k] for k in ('num_pis', 'num_pos', 'trav_id'))
        self.latches = list(d['data'][2]['latches'])
        self.kids = [[num(c) for c in x[2]['children']] for x in d['nodes']]
        self.ref = [x[2]['data'][0][2]['h1'] for x in d['nodes']]
        self.vals = [(x[2]['data'][0][2]['h2'], x[2]['data'][1][2]['h2']) for x in d['nodes']]
        self.fun = []
        for i, x in enumerate(d['nodes']):
            l = x[2]['data'][1][2]['h1']
            if i < 2:
                self.fun.append(i)
            elif i in self.cis:
                self.fun.append('input')
            elif not isinstance(l, int) or not 0 <= l >> 1 < len(tabs):
                self.fun.append(f'literal {l}')
            else:
                _, k, w = tabs[l >> 1]
                self.fun.append((k, w ^ ((1 << (1 << k)) - 1 if l & 1 else 0)))

    def diff(self, o, fresh=()):
        """first difference from the expected view; the user's values of fresh nodes are free"""
        for k, what in (('kids', 'fan-ins'), ('fun', 'function'), ('ref', 'fan-out count'), ('vals', 'user values')):
            a, b = getattr(self, k), getattr(o, k)
            if len(a) != len(b):
                return f'{len(a)} nodes instead of {len(b)}'
            for i, (x, y) in enumerate(zip(a, b)):
                if x != y and not (k == 'vals' and i in fresh):
                    return f'the {what} of node {i}: {x} instead of {y}'
        for k, what in (('cis', 'inputs'), ('cos', 'outputs'), ('npi', 'number of primary inputs'), ('npo', 'number of primary outputs'), ('latches', 'reset values'), ('trav', 'traversal number')):
            if getattr(self, k) != getattr(o, k):
                return f'the {what}: {getattr(self, k)} instead of {getattr(o, k)}'
        return ''


def added(v, kids, fun):
    v.kids.append(list(kids))
    v.fun.append(fun)
    v.ref.append(0)
    v.vals.append((0, 0))
    for k in kids:
        v.ref[k] += 1


def step(M_, m, name, args, change, fresh, log):
    """runs one member; change(view) turns the view before into the expected one and returns the expected result"""
    M_.start({**cells(m), **cells(MODELS[2], '2', OTHER)})
    want = View(M_.store['S'])
    ret = change(want)
    got = M_.ocall(name, OPtr('N'), args)
    got = None if got is None else num(got)
    if got != ret:
        return f'returns {got}, expected {ret}'
    d = View(M_.store['S']).diff(want, fresh)
    if d:
        return 'leaves ' + d
    told = [(k,) + tuple(num(a) for a in xs) for k, xs in M_.log]
    if log is not None and told != log:
        return f'reports {told} to the observers, expected {log}'
    return ''


def creations(ctx, M_):
    cs = []

    def add(key, m, name, args, change, fresh=(), log=()):
        short = [a if not isinstance(a, OPtr) else '..' for a in args]
        cs.append((key, f'{name}{short} on {m.describe()}', lambda: step(M_, m, name, args, change, fresh, list(log) if log is not None else None)))
    for m in MODELS + [WIDE]:
        n = m.n
        some = range(n) if n < 60 else (0, 1, 2, 3, 257, 258, 259, 513, n - 1)
        for name in ('create_pi', 'create_ro'):
            def ci(v, name=name, n=n):
                added(v, [], 'input')
                v.cis.append(n)
                v.npi += name == 'create_pi'
                return n
            if name == 'create_ro' or not m.nro:
                add(name, m, name, ['x'], ci, (n,), None)
        for f in some:
            def po(v, f=f):
                v.cos.append(f)
                v.ref[f] += 1
                v.npo += 1
                return len(v.cos) - 1

            def ri(v, f=f):
                v.cos.append(f)
                v.ref[f] += 1
                v.latches.append(f & 1)
                return len(v.cos) - 1
            if not m.ris:
                add('create_po', m, 'create_po', [f, 'x'], po)
            add('create_ri', m, 'create_ri', [f, f & 1, 'x'], ri)
        for c in (0, 1):
            for name in ('create_node',):
                add(name, m, name, [[], ('tt', 0, c)], lambda v, c=c: c)
        kids = [(a,) for a in some] + [(a, b) for a in some for b in some if (a * 7 + b) % 3 == 0] + [(a, 1, b) for a in some for b in some if (a + b) % 5 == 0]
        for ch in kids[:40] if n < 60 else kids[::3]:
            for w in (6, 9, 0, 1):
                k = len(ch)
                w = (w * (1 if k < 3 else 0x1b) + len(kids)) & ((1 << (1 << k)) - 1)

                def node(v, ch=ch, k=k, w=w, n=n):
                    added(v, ch, (k, w))
                    return n
                add('create_node', m, 'create_node', [list(ch), ('tt', k, w)], node, (n,), [('on_add', n)])
        for src in range(MODELS[2].base, MODELS[2].n):
            k = len(MODELS[2].gates[src - MODELS[2].base][0])
            ch = [(src * 3 + i) % n for i in range(k)]
            lit = MODELS[2].gates[src - MODELS[2].base][1]
            _, kk, w = OTHER[lit >> 1]
            w ^= (1 << (1 << kk)) - 1 if lit & 1 else 0

            def clone(v, ch=ch, kk=kk, w=w, n=n):
                added(v, ch, (kk, w))
                return n
            add('clone_node', m, 'clone_node', [OPtr('N2'), src, ch], clone, (n,), [('on_add', n)])
        for old in some:
            for new in some:
                if old < 2 or old == new or old < m.base and n > 60 or new >= m.base and new > old:
                    continue

                def sub(v, old=old, new=new):
                    for i, ks in enumerate(v.kids):
                        for j, c in enumerate(ks):
                            if c == old:
                                ks[j] = new
                                v.ref[new] += 1
                    v.ref[new] += sum(c == old for c in v.cos)
                    v.cos = [new if c == old else c for c in v.cos]
                    v.ref[old] = 0
                log = []
                for i in range(m.base, n):
                    ks = list(m.gates[i - m.base][0])
                    for j in range(len(ks)):
                        if ks[j] == old:
                            log.append(('on_modified', i, tuple(ks)))
                            ks = ks[:j] + [new] + ks[j + 1:]
                add('substitute_node', m, 'substitute_node', [old, new], sub, (), log)
        for g in some:
            if g >= m.base:
                lit = m.gates[g - m.base][1]
                _, k, w = TABLES[lit >> 1]
                add('node_function', m, 'node_function', [g], lambda v, k=k, w=w ^ ((1 << (1 << k)) - 1 if lit & 1 else 0): ('tt', k, w))

    def one(t):
        def f():
            try:
                return t()
            except Outside as e:
                return f'reads outside its data ({e})'
        return f
    ok, bad, und = sweep(lambda: ((k, d, one(t)) for k, d, t in cs))
    for k in dict.fromkeys(k for k, _, _ in cs):
        where = M_.fns[k].f
        if k in bad:
            ctx.viol('creation', f'{NET}::{k}', loc(where), bad[k])
        elif k in und:
            ctx.undecided('creation', f'{NET}::{k}', und[k])
        else:
            ctx.ok('creation', f'{NET}::{k}', ok.get(k, 0))


def constructing(ctx, P):
    """a network made over an existing storage keeps what is in it; over an empty one it has exactly the two constants"""
    key = NET + '::klut_network'
    bad, n = '', 0

    def init(R, this, args):        # the second constant node
        S = R.store['S']
        R.store = {**R.store, 'S': orec('storage', **{**S[2], 'nodes': S[2]['nodes'] + [S[2]['nodes'][1]]})}
    try:
        M_ = OMachine(ctx, P, [NET + '::klut_network', NET + '::_init'], natives={NET + '::_init': init}, pick=lambda f: f['decl'].get('cls') == NET and len(f['p']) < 2 and ('shared_ptr' in P.ty(f['p'][0]['t']) if f['p'] else 1), keep=lambda d: d.get('cls') == NET)
        ctx.need(('klut_network', 1) in M_.fns, key + ' not found')
        for m in MODELS + [WIDE]:
            M_.start({**cells(m), 'N': orec('klut')})
            want = View(M_.store['S'])
            M_.ocall(M_.fns['klut_network', 1], OPtr('N'), [OPtr('S')])
            d = View(M_.store['S']).diff(want)
            n += 1
            if d and not bad:
                bad = f'a network over the storage of {m.describe()} changes {d}'
    except Unknown as u:
        ctx.undecided('creation', key, u)
        return
    done(ctx, 'creation', key, M_.fns['klut_network', 1].f, bad, n)


def computing(ctx, P):
    """compute of a gate from the values of its fan-ins, for Boolean values and for truth tables"""
    for kind, it in (('Boolean values', 'bool'), ('truth tables', 'dynamic_truth_table')):
        key = f'{NET}::compute on {kind}'
        try:
            M_ = machine(ctx, P, 'Bit_iterator' if kind[0] == 'B' else 'dynamic_truth_table')
            ctx.need(('compute', 3) in M_.fns, key + ' not found')
            bad, n = '', 0
            for m in MODELS[1:]:
                for g in m.all_gates():
                    ks, lit = m.gates[g - m.base]
                    k = len(ks)
                    w = TABLES[lit >> 1][2] ^ ((1 << (1 << k)) - 1 if lit & 1 else 0)
                    for x in range(1 << k):
                        if kind[0] == 'B':
                            v = [x >> i & 1 for i in range(k)]
                            want = w >> x & 1
                        else:
                            cols = [[0xaa, 0xcc, 0xf0, 0x96, 0x3c, 0, 0xff][(x * 3 + i * 2 + g) % 7] for i in range(k)]
                            v = [('tt', 3, c) for c in cols]
                            want = ('tt', 3, sum((w >> sum((c >> b & 1) << i for i, c in enumerate(cols)) & 1) << b for b in range(8)))
                        M_.start({**cells(m), 'v': v})
                        got = M_.ocall('compute', OPtr('N'), [g, OPtr('v', (0,)), OPtr('v', (k,))])
                        n += 1
                        if (int(got) if not isinstance(got, tuple) else got) != want and not bad:
                            bad = f'compute of a gate with the function {w:#x} on {v} is {got}, expected {want}'
        except Unknown as u:
            ctx.undecided('compute', key, u)
            continue
        done(ctx, 'compute', key, M_.fns['compute'].f, bad, n)


def run(ctx):
    P = ctx.prog('ops')
    ctx.rule('lookup', 'value graph of each read-only member of klut_network evaluated on finite abstract networks and every argument: equals the indexing scheme, whatever the application values are; nothing is written')
    lookups(ctx, P)
    ctx.rule('iteration', 'callback events of each foreach_* traced in the same models: exactly the named elements, once, in order; indices count from 0; a false result stops')
    iterations(ctx, P)
    ctx.rule('field-write', 'each setter writes exactly its own field of exactly its own node')
    setters(ctx, P)
    ctx.rule('creation', 'transfer functions of the creating members, cloning and substitution composed on the same models: exactly the new node, fan-ins, function, counts and notifications; everything else unchanged')
    creations(ctx, machine(ctx, P))
    constructing(ctx, P)
    ctx.rule('compute', 'transfer functions of compute: the value of a gate is its function at the values of its fan-ins, first fan-in least significant')
    computing(ctx, P)
