"""C04 AIG interface: lookups are mutually consistent, iteration visits exactly the named elements in order."""
from engine.terms import *
from engine.interp import Interp
from engine.evalm import Eval, Unknown
from engine.ctx import loc
from engine.store import evaluator, Ptr
from engine.model import *
from engine.par import sweep

LEVEL = 'bounded'
NS = 'iFPGA::'
NET = NS + 'aig_network'
MIN_DECIDED = 300


def sig(index, c):
    return rec('signal', index=index, complement=c)


class Spec:
    """expected value of a read-only method on a model; None = outside the precondition"""

    def nodes(m):
        return range(m.n)

    def all_sigs(m):
        return [(i, c) for i in range(m.n) for c in (0, 1)]


def cos(m):
    return m.pos + m.ris


def first(l, x):
    return l.index(x) if x in l else (1 << 32) - 1


def data(m, n, w, h):
    return m.storage[2]['nodes'][n][2]['data'][w][2][h]


def fanin(m, n, i):
    c = m.storage[2]['nodes'][n][2]['children'][i][2]
    return (c['index'], c['weight'])


# name -> (argument kind, expected(m, arg)); argument kinds: '' none, 'n' node, 'ci','pi','ro' a node of the kind, 'i:<count>' index, 's' signal
READ = {
    'size': ('', lambda m: m.n),
    'num_cis': ('', lambda m: m.npi + m.nro),
    'num_cos': ('', lambda m: len(cos(m))),
    'num_pis': ('', lambda m: m.npi),
    'num_pos': ('', lambda m: len(m.pos)),
    'num_latches': ('', lambda m: len(m.ris)),
    'num_registers': ('reg', lambda m: m.nro),
    'num_gates': ('', lambda m: m.ngates),
    'is_combinational': ('', lambda m: int(m.nro == 0 and not m.ris)),
    'trav_id': ('', lambda m: m.storage[2]['data'][2]['trav_id']),
    'is_constant': ('n', lambda m, n: int(n == 0)),
    'is_ci': ('n1', lambda m, n: int(m.is_ci(n))),
    'is_pi': ('n1', lambda m, n: int(1 <= n <= m.npi)),
    'is_ro': ('n1', lambda m, n: int(m.npi < n <= m.npi + m.nro)),
    'is_and': ('n', lambda m, n: int(n > m.npi + m.nro)),
    'is_dead': ('n', lambda m, n: int(n in m.dead)),
    'fanin_size': ('n', lambda m, n: 2 if n > m.npi + m.nro else 0),
    'fanout_size': ('n', lambda m, n: 0 if n in m.dead else m.ref[n]),
    'constant_value': ('n', lambda m, n: 0),
    'get_node': ('s', lambda m, s: s[0]),
    'is_complemented': ('s', lambda m, s: s[1]),
    'make_signal': ('n', lambda m, n: (n, 0)),
    'node_to_index': ('n', lambda m, n: n),
    'index_to_node': ('n', lambda m, n: n),
    'ci_at': ('i:ci', lambda m, i: 1 + i),
    'pi_at': ('i:pi', lambda m, i: 1 + i),
    'ro_at': ('i:ro', lambda m, i: 1 + m.npi + i),
    'co_at': ('i:co', lambda m, i: cos(m)[i]),
    'po_at': ('i:po', lambda m, i: m.pos[i]),
    'ri_at': ('i:ri', lambda m, i: m.ris[i]),
    'ci_index': ('ci', lambda m, n: n - 1),
    'pi_index': ('pi', lambda m, n: n - 1),
    'ro_index': ('ro', lambda m, n: n - 1 - m.npi),
    'co_index': ('s', lambda m, s: first(cos(m), s)),
    'po_index': ('s', lambda m, s: first(m.pos, s)),
    'ri_index': ('s', lambda m, s: first(m.ris, s)),
    'ro_to_ri': ('ros', lambda m, s: m.ris[s[0] - 1 - m.npi]),
    'ri_to_ro': ('ris', lambda m, s: 1 + m.npi + first(m.ris, s)),
    'latch_reset': ('i:ri', lambda m, i: m.storage[2]['data'][2]['latches'][i]),
    'get_child0': ('g', lambda m, n: fanin(m, n, 0)),
    'get_child1': ('g', lambda m, n: fanin(m, n, 1)),
    'value': ('n', lambda m, n: data(m, n, 0, 'h2')),
    'visited': ('n', lambda m, n: data(m, n, 1, 'h1')),
    'phase': ('n', lambda m, n: data(m, n, 1, 'h2') & 1),
    'mark_a': ('n', lambda m, n: data(m, n, 1, 'h2') >> 1 & 1),
    'mark_b': ('n', lambda m, n: data(m, n, 1, 'h2') >> 2 & 1),
    'get_constant': ('b', lambda m, b: (0, b)),
}


def args_of(m, kind, slow=False):
    l = args_all(m, kind)
    if m.n <= 60:
        return l
    if slow:
        return [l[i] for i in sorted({1, 257, len(l) - 1}) if 0 <= i < len(l)]
    # a sample of a large model that has indices equal modulo 256, and both ends
    k = len(l)
    pick = sorted({i for i in (0, 1, 2, 3, 254, 255, 256, 257, 258, 259, k - 4, k - 3, k - 2, k - 1) if 0 <= i < k} | set(range(0, k, max(1, k // 11))))
    return [l[i] for i in pick]


def args_all(m, kind):
    if kind == '':
        return [()]
    if kind == 'reg':
        return [()] if m.nro == len(m.ris) else []
    if kind == 'n':
        return [(n,) for n in range(m.n)]
    if kind == 'n1':
        return [(n,) for n in range(1, m.n)]
    if kind == 'g':
        return [(n,) for n in range(1 + m.npi + m.nro, m.n)]
    if kind == 'ci':
        return [(n,) for n in m.cis]
    if kind == 'pi':
        return [(n,) for n in m.cis[:m.npi]]
    if kind == 'ro':
        return [(n,) for n in m.cis[m.npi:]]
    if kind == 'b':
        return [(0,), (1,)]
    if kind == 's':
        return [((i, c),) for i in range(m.n) for c in (0, 1)]
    if kind == 'ros':
        return [((n, 0),) for n in m.cis[m.npi:]] if m.nro == len(m.ris) else []
    if kind == 'ris':
        return [(s,) for s in m.ris] if m.nro == len(m.ris) else []
    k = kind[2:]
    cnt = dict(ci=len(m.cis), pi=m.npi, ro=m.nro, co=len(cos(m)), po=len(m.pos), ri=len(m.ris))[k]
    return [(i,) for i in range(cnt)]


def val(a):
    return sig(*a) if isinstance(a, tuple) else a


def asres(v):
    """comparable form of a returned value: signals as (index, complement)"""
    if isinstance(v, Ptr):
        v = v.obj
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, tuple) and v and v[0] == 'rec' and 'index' in v[2]:
        d = v[2]
        c = d.get('complement', d.get('weight'))
        return (d['index'], int(c)) if c is not None else v
    return v


class M:
    """one member function as a transfer function over the model"""

    def __init__(self, ctx, P, f, prims=None, recursive=(), depth=8):
        self.f = f
        self.I = Interp(P, prims=prims or {}, recursive=recursive, depth=depth)
        self.ret, self.st = self.I.run(f)
        ctx.functions.update(self.I.funcs_seen)
        self.this = T('root', 'this', 'this')
        self.args = [T('root', 'arg', i, p['n'] or f'arg{i}') for i, p in enumerate(f['p'])]

    def ev(self, m, args, hooks=None):
        roots = {self.this: m.this}
        roots.update(zip(self.args, [val(a) for a in args]))
        e = evaluator(Eval, roots, hooks or {})
        e.loops = self.I.loopinfo
        return e

    def after(self, m, ev):
        return effects(self.I, ev, self.this, m.this, skip=lambda r: r in self.args)


def method(P, name, pick=None):
    fs = [f for f in P.find('aig_network::' + name) if f['decl'].get('cls') == NET]
    if pick:
        fs = [f for f in fs if pick(f)]
    return fs


def read_one(fn, name, spec, m, a):
    ev = fn.ev(m, a)
    got = asres(ev.v(fn.ret))
    want = spec(m, *a)
    if got != want:
        return f'{name}{a} is {got}, expected {want}, on {m.describe()}'
    return f'{name}{a} changes the network' if norm(fn.after(m, ev)) != norm(m.this) else ''


def write_one(fn, name, spec, m, a):
    ev = fn.ev(m, a)
    want, rv = spec(m, *a)
    if rv is not None and (got := asres(ev.v(fn.ret))) != rv:
        return f'{name}{a} returns {got}, expected {rv}'
    got = fn.after(m, ev)
    return f'{name}{a} leaves {diff(got, want)}, on {m.describe()}' if norm(got) != norm(want) else ''


def visit_one(fn, name, m, a, calls, stop, want):
    got, idx = visit(fn, m, a, calls, stop)
    exp = want if stop is None else want[:stop + 1]
    if got != exp:
        k = next((i for i, (x, y) in enumerate(zip(got, exp)) if x != y), min(len(got), len(exp)))
        short = lambda l: l if len(l) < 20 else f'{len(l)} elements, from position {k} on {l[k:k + 4]}'
        return f'{name}{a} visits {short(got)}, expected {short(exp)}{"" if stop is None else f" when the callback stops at element {stop}"}, on {m.describe()}'
    return f'{name} passes the indices {idx}' if idx and idx != list(range(len(exp))) else ''


def callbacks(fn, P, name):
    lam = fn.args[-1]
    calls = [e for e in fn.I.events if e.kind == 'call' and len(e.args) > 1 and (e.args[0] is lam or e.args[0].op in ('addr', 'ld') and e.args[0].args[0] is lam)]
    if not calls:
        raise Unknown(f'no callback invocation recovered in {name}<{fn.f["decl"].get("ta")}>')
    return calls, all(P.ty(c.node.get('t')) == 'bool' for c in calls)


def wide_rule(ctx, P):
    """the same obligations on models past the ranges of 8-bit quantities"""
    models = list(wide_models())
    fns, cs = {}, []
    for rule, table in (('lookup', READ), ('field-write', WRITE)):
        for name, (kind, spec) in table.items():
            for f in method(P, name, lambda f: len(f['p']) == (0 if kind in ('', 'reg') else 1 if rule == 'lookup' else len(kind)))[:1]:
                try:
                    fn = fns[rule, name] = M(ctx, P, f)
                except Unknown:
                    continue        # reported by the small models
                for m in models:
                    for a in args_of(m, kind, fn.I.loopinfo) if rule == 'lookup' else wargs(m, kind):
                        cs.append((rule, f['decl']['qn'] + '=' * (rule != 'lookup' and len(kind) == 2), f, lambda fn=fn, name=name, spec=spec, m=m, a=a, one=read_one if rule == 'lookup' else write_one: one(fn, name, spec, m, a)))
    for name, spec in list(VISIT.items()) + [('foreach_fanin', None)]:
        todo = {True, False}
        for f in method(P, name):
            try:
                fn = M(ctx, P, f)
                calls, b = callbacks(fn, P, name)
            except Unknown:
                continue
            if b not in todo:
                continue
            todo.discard(b)
            for m in models:
                for a in [()] if spec else [(1,), (257,), (1 + m.npi + m.nro,), (m.n - 2,)]:
                    want = spec(m) if spec else [] if a[0] <= m.npi + m.nro else [fanin(m, a[0], 0), fanin(m, a[0], 1)]
                    for stop in [None] + [258] * (b and len(want) > 258):
                        cs.append(('iteration', f'{NET}::{name}', f, lambda fn=fn, name=name, m=m, a=a, calls=calls, stop=stop, want=want: visit_one(fn, name, m, a, calls, stop, want)))
    ok, bad, und = sweep(lambda: (((r, k), k, t) for r, k, f, t in cs))
    where = {(r, k): loc(f) for r, k, f, t in cs}
    for rk in sorted(where):
        if rk in bad:
            ctx.viol(*rk, where[rk], bad[rk])
        elif rk in und:
            ctx.undecided(*rk, und[rk])
        else:
            ctx.ok(*rk, ok.get(rk, 0))


def read_rule(ctx, P):
    for name, (kind, spec) in READ.items():
        fs = method(P, name, lambda f: len(f['p']) == (0 if kind in ('', 'reg') else 1))
        ctx.need(fs, f'aig_network::{name} not found')
        f = fs[0]
        key = f['decl']['qn']
        bad, n = None, 0
        try:
            fn = M(ctx, P, f)
            for m in MODELS:
                for a in args_of(m, kind):
                    n += 1
                    bad = bad or read_one(fn, name, spec, m, a)
        except Unknown as u:
            ctx.undecided('lookup', key, u)
            continue
        done(ctx, 'lookup', key, f, bad, n)


def done(ctx, rule, key, f, bad, n):
    if bad:
        ctx.viol(rule, key, loc(f), bad)
    elif n:
        ctx.ok(rule, key, n)


VISIT = {
    'foreach_node': lambda m: [n for n in range(m.n) if n not in m.dead],
    'foreach_gate': lambda m: m.live_gates(),
    'foreach_ci': lambda m: m.cis,
    'foreach_pi': lambda m: m.cis[:m.npi],
    'foreach_ro': lambda m: m.cis[m.npi:],
    'foreach_co': lambda m: cos(m),
    'foreach_po': lambda m: m.pos,
    'foreach_ri': lambda m: m.ris,
}


def iter_rule(ctx, P):
    for name, spec in list(VISIT.items()) + [('foreach_fanin', None)]:
        fs = method(P, name)
        ctx.need(fs, f'aig_network::{name} not found')
        key = f'{NET}::{name}'
        bad, n, where = None, 0, fs[0]
        try:
            for f in fs:
                cases = []
                for m in MODELS:
                    if spec:
                        cases.append((m, (), spec(m)))
                    else:
                        for x in range(m.n):
                            if x not in m.dead:
                                cases.append((m, (x,), [] if x <= m.npi + m.nro else [fanin(m, x, 0), fanin(m, x, 1)]))
                fn = M(ctx, P, f)
                calls, b = callbacks(fn, P, name)
                for m, a, want in cases:
                    for stop in ([None, 0, 1] if b else [None]):
                        n += 1
                        x = visit_one(fn, name, m, a, calls, stop, want)
                        if x and not bad:
                            bad, where = x, f
        except Unknown as u:
            ctx.undecided('iteration', key, u)
            continue
        done(ctx, 'iteration', key, where, bad, n)


def visit(fn, m, a, calls, stop):
    """elements given to the callback; a callback with a result answers true except at position stop"""
    got, idx = [], []
    results = set()
    for c in calls:
        results |= set(batoms(c.val)) if isinstance(c.val, B) else {c.val}
    results |= {a.args[0] for a in results if isinstance(a, Term) and a.op == 'bitf'}
    ev = fn.ev(m, a)
    old = ev.leaf

    def leaf(t):
        if t in results:
            return len(got) - 1 != stop
        return old(t)
    ev.leaf = leaf
    for e in ev.trace(calls):
        got.append(asres(ev.v(e.args[1])))
        if len(e.args) > 2:
            idx.append(ev.v(e.args[2]))
        ev.memo = {}
    return got, idx


# ---- writers: exactly one location changes
def upd_state(m, n, w, h, v):
    out = copy.deepcopy(m.this)
    out[2]['_storage'].obj[2]['nodes'][n][2]['data'][w][2][h] = v
    return out


def flag(bit):
    def f(m, n, b):
        old = data(m, n, 1, 'h2')
        return upd_state(m, n, 1, 'h2', old | bit if b else old & ~bit), None
    return f


def seq(m, field, h):
    out = copy.deepcopy(m.this)
    for x in out[2]['_storage'].obj[2]['nodes']:
        x[2]['data'][field][2][h] = 0
    return out, None


def trav(m):
    out = copy.deepcopy(m.this)
    out[2]['_storage'].obj[2]['data'][2]['trav_id'] += 1
    return out, None


def store_child(i):
    def f(m, n, s):
        out = copy.deepcopy(m.this)
        out[2]['_storage'].obj[2]['nodes'][n][2]['children'][i] = ptr(*s)
        return out, None
    return f


# name -> (argument kinds, (model, args) -> (state, returned value or None))
WRITE = {
    'set_value': ('nv', lambda m, n, v: (upd_state(m, n, 0, 'h2', v), None)),
    'set_visited': ('nv', lambda m, n, v: (upd_state(m, n, 1, 'h1', v), None)),
    'incr_value': ('n', lambda m, n: (upd_state(m, n, 0, 'h2', data(m, n, 0, 'h2') + 1), data(m, n, 0, 'h2'))),
    'decr_value': ('n', lambda m, n: (upd_state(m, n, 0, 'h2', data(m, n, 0, 'h2') - 1), data(m, n, 0, 'h2') - 1)),
    'phase': ('nb', flag(1)),
    'mark_a': ('nb', flag(2)),
    'mark_b': ('nb', flag(4)),
    'clear_values': ('', lambda m: seq(m, 0, 'h2')),
    'clear_visited': ('', lambda m: seq(m, 1, 'h1')),
    'incr_trav_id': ('', trav),
    'set_child0': ('gs', store_child(0)),
    'set_child1': ('gs', store_child(1)),
}


def wargs(m, kind):
    if m.n > 60:
        b = 1 + m.npi + m.nro
        ns = [0, 1, 257, b, b + 2, m.n - 1]
        return {'': [()], 'n': [(n,) for n in ns], 'nv': [(n, v) for n in ns for v in (1, 257, 0x10001)], 'nb': [(n, v) for n in ns for v in (0, 1)],
                'gs': [(n, (x, 1)) for n in (b, m.n - 1) for x in (1, 257, 258)]}[kind]
    if kind == '':
        return [()]
    if kind == 'n':
        return [(n,) for n in range(m.n)]
    if kind == 'nv':
        return [(n, v) for n in range(m.n) for v in (0, 1, 0x7fffffff, 0xfffffffe)]
    if kind == 'nb':
        return [(n, v) for n in range(m.n) for v in (0, 1)]
    g = range(1 + m.npi + m.nro, m.n)
    return [(n, (x, c)) for n in g for x in range(m.n) for c in (0, 1)]


def write_rule(ctx, P):
    for name, (kind, spec) in WRITE.items():
        fs = method(P, name, lambda f: len(f['p']) == len(kind))
        ctx.need(fs, f'aig_network::{name} not found')
        f = fs[0]
        key = f['decl']['qn'] + '=' * (len(kind) == 2)
        bad, n = None, 0
        try:
            fn = M(ctx, P, f)
            for m in MODELS:
                for a in wargs(m, kind):
                    n += 1
                    bad = bad or write_one(fn, name, spec, m, a)
        except Unknown as u:
            ctx.undecided('field-write', key, u)
            continue
        done(ctx, 'field-write', key, f, bad, n)


MODELS = list(aig_models())


def run(ctx):
    P = ctx.prog('ops')
    ctx.rule('lookup', 'value graph of each read-only member evaluated on a family of finite abstract networks (constant, inputs, register outputs, live and dead gates, outputs, register inputs) and every argument: equals the indexing scheme; no location of the network is written')
    read_rule(ctx, P)
    ctx.rule('iteration', 'callback events of each foreach_* traced in the same models: exactly the named elements, once, in index order; indices count from 0; a false result stops')
    iter_rule(ctx, P)
    ctx.rule('field-write', 'each setter writes exactly its own field of exactly its own node')
    write_rule(ctx, P)
    wide_rule(ctx, P)
