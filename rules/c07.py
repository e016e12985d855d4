"""C07 CNF encodings are exact for every gate and operand polarity."""
import itertools
from engine.terms import *
from engine.interp import Interp
from engine.evalm import Eval, Unknown
from engine.cnfm import *
from engine.net import net_prims
from engine.store import evaluator, Ptr
from engine.ctx import loc

LEVEL = 'proof'
MIN_DECIDED = 10
GATES = {
    'on_and': lambda a, b: a & b,
    'on_or': lambda a, b: a | b,
    'on_xor': lambda a, b: a ^ b,
    'on_maj': lambda a, b, c: (a & b) | (a & c) | (b & c),
    'on_xor3': lambda a, b, c: a ^ b ^ c,
    'on_ite': lambda a, b, c: b if a else c,
}


def gate_encodings(ctx, P):
    for name, f in GATES.items():
        fns = ctx.fns('ops', 'detail::' + name, least=2)
        done = set()
        for fn in fns:
            sig = (tuple(P.ty(p['t']) for p in fn['p'][:-1]),)
            if sig in done:
                continue
            done.add(sig)
            ctx.functions.add(fn['decl']['qn'])
            I = Interp(P)
            I.run(fn)
            k = len(fn['p']) - 1
            roots = [T('root', 'arg', i, p['n'] or f'arg{i}') for i, p in enumerate(fn['p'])]
            cb = T('ld', roots[-1], 0)
            evs = [e for e in I.events if e.kind == 'call' and len(e.args) == 2 and e.args[0] is cb]
            key = f"{fn['decl']['qn']}({sig[0][0]})"
            bad = None
            n = 0
            try:
                for pol in itertools.product((0, 1), repeat=k):
                    ev = evaluator(Eval, {r: 2 * i + s for i, (r, s) in enumerate(zip(roots, pol))}, lit_hooks())
                    cl = [ev.v(e.args[1]) for e in evs if ev.b(e.guard)]
                    if any(e.loops for e in evs):
                        raise Unknown('clauses emitted in a loop')
                    models = sat_assignments(cl, k)
                    want = set()
                    for a in itertools.product((0, 1), repeat=k):
                        v = [x ^ s for x, s in zip(a, pol)]
                        if v[0] == f(*v[1:]):
                            want.add(a)
                    n += 1
                    if models != want and bad is None:
                        d = (models - want) or (want - models)
                        bad = (pol, 'admits' if models - want else 'excludes', sorted(d)[0], cl)
            except Unknown as u:
                ctx.undecided('gate-clauses', key, u)
                continue
            if bad:
                ctx.viol('gate-clauses', key, loc(fn), f'the emitted clauses {bad[3]} are not equivalent to output <-> {name[3:]}(inputs): they wrongly '
                         f'{bad[1]} the assignment {bad[2]} of (output, inputs)')
            else:
                ctx.ok('gate-clauses', key, n)


def aig_store(weights, kind='gate'):
    """model AIG: 0 const, 1,2 (PIs; ids 1 and 2), 3 = the gate under study"""
    def node(a, wa, b, wb):
        mk = lambda i, w: ('rec', 'np', {'weight': w, 'index': i})
        st = lambda: ('rec', 'ns', {'h1': 0, 'h2': 0})
        return ('rec', 'node', {'children': [mk(a, wa), mk(b, wb)], 'data': [st(), st()], 'next': 0})
    nodes = [node(0, 0, 0, 0), node(0, 0, 0, 0), node(0, 1, 0, 1), node(1, weights[0], 2, weights[1])]
    sto = ('rec', 'storage', {'nodes': nodes, 'inputs': [1, 2], 'outputs': [], 'data': ('rec', 'd', {'num_pis': 2, 'num_pos': 1})})
    return ('rec', 'aig', {'_storage': Ptr(sto)})


def network_cnf(ctx, P):
    fns = ctx.fns('ops', 'generate_cnf_impl::run', least=2)
    for fn in fns:
        cls = fn['decl']['cls']
        isaig = 'aig_network' in cls
        ctx.functions.add(fn['decl']['qn'])
        opaque_fn = {'iFPGA::detail::on_function'}
        I = Interp(P, prims=net_prims(P, fanin2=lambda c: 'klut' not in c), opaque=opaque_fn if not isaig else (), depth=10)
        ret, st = I.run(fn)
        for q in I.funcs_seen:
            ctx.functions.add(q)
        key = fn['decl']['qn'] + ('<' + cls.split('<')[-1] if '<' in cls else '')
        this = T('root', 'this', 'this')
        cb = T('ld', T('fld', this, 'fn_'), 0)
        evs = [e for e in I.events if e.kind == 'call' and len(e.args) == 2 and e.args[0].op == 'ld' and e.args[0].args[0].op == 'fld' and e.args[0].args[0].args[0] is this]
        # the per-gate callback must never end the iteration early
        for e in I.events:
            if e.kind == 'cbret' and e.name in ('foreach_gate', 'foreach_po', 'foreach_fanin'):
                v = e.args[0]
                b = v if isinstance(v, B) else None
                if b is not None and implies(e.guard, b) is True:
                    ctx.ok('every-gate-encoded', f'{key} {e.name}')
                elif b is not None and satisfiable(band(e.guard, bnot(b))):
                    ctx.viol('every-gate-encoded', f'{key} {e.name}', loc(fn), 'the callback can stop the iteration before every element was encoded')
        if not isaig:
            general_nodes(ctx, P, I, fn, key)
            continue
        bad, n = None, 0
        try:
            for w in itertools.product((0, 1), repeat=2):
                ntk = aig_store(w)
                roots = {this: ('rec', 'impl', {'ntk_': ntk, 'node_lits_': ('rec', 'nm', {'data': Ptr([0, 2, 4, 6])})})}

                def fanin(ev, t):
                    i = ev.v(t.args[-1])
                    n_ = ev.v(t.args[-2])
                    c = ntk[2]['_storage'].obj[2]['nodes'][n_][2]['children'][i]
                    return ('rec', 'signal', {'complement': c[2]['weight'], 'weight': c[2]['weight'], 'index': c[2]['index']})
                hooks = lit_hooks({'gate': lambda ev, t: 3, 'fanin': fanin})
                ev = evaluator(Eval, roots, hooks)
                cl, const = [], []
                for e in evs:
                    if not ev.b(e.guard):
                        continue
                    c = ev.v(e.args[1])
                    if e.loops:
                        if len(e.loops) > 1:
                            raise Unknown('clause in nested loop reached')
                        cl.append(c)
                    else:
                        const.append(c)
                models = {a[1:] for a in sat_assignments(cl, 4)}
                want = {(a, b, (a ^ w[0]) & (b ^ w[1])) for a in (0, 1) for b in (0, 1)}
                n += 1
                if models != want and bad is None:
                    bad = f'for a gate whose fanins have polarities {w} the clauses {cl} (literals 2,4: fanins, 6: gate) are not the conjunction'
                cm = {a for a in sat_assignments(const, 1)}
                if cm != {(0,)} and bad is None:
                    bad = f'the constant-0 node is not forced to 0 (unit clauses {const}, literal 0)'
        except Unknown as u:
            ctx.undecided('network-clauses', key, u)
            continue
        if bad:
            ctx.viol('network-clauses', key, loc(fn), bad)
        else:
            ctx.ok('network-clauses', key, n)
    # output literals
    for fn in fns:
        cls = fn['decl']['cls']
        isaig = 'aig_network' in cls
        key = fn['decl']['qn'] + '<' + cls.split('<')[-1] + ' outputs'
        I = Interp(P, prims=net_prims(P), depth=10)
        ret, st = I.run(fn)
        pushes = [e for e in I.events if e.kind == 'push' and e.loops and e.loops[0].kind == 'each:foreach_po']
        if len(pushes) != 1 or pushes[0].guard is not TRUE:
            ctx.undecided('output-literals', key, f'{len(pushes)} pushes')
            continue
        bad = None
        try:
            for c in (0, 1):
                this = T('root', 'this', 'this')
                roots = {this: ('rec', 'impl', {'node_lits_': ('rec', 'nm', {'data': Ptr([0, 2, 4, 6])})})}
                po = (lambda ev, t: ('rec', 'signal', {'complement': c, 'weight': c, 'index': 3})) if isaig else (lambda ev, t: 3)
                ev = evaluator(Eval, roots, lit_hooks({'po': po}))
                v = ev.v(pushes[0].args[0])
                if v != 6 + (c if isaig else 0):
                    bad = f'output literal is {v} for an output with complement {c} of the node with literal 6'
        except Unknown as u:
            ctx.undecided('output-literals', key, u)
            continue
        if bad:
            ctx.viol('output-literals', key, loc(fn), bad)
        else:
            ctx.ok('output-literals', key)


def general_nodes(ctx, P, I, fn, key):
    calls = [e for e in I.events if e.kind == 'call' and e.name.endswith('detail::on_function')]
    if not calls:
        ctx.undecided('lut-clauses', key, 'no on_function call found')
        return
    for e in calls:
        a = e.args
        g = [t for t in subterms(a[0]) if t.op == 'gate']
        g2 = [t for t in subterms(a[2]) if t.op == 'gate']
        if not g or not g2:
            ctx.undecided('lut-clauses', key, f'literal {a[0]} function {a[2]}')
        elif g[0] is not g2[0]:
            ctx.viol('lut-clauses', key, loc(fn), 'the function encoded belongs to a different node than the output literal')
        else:
            ctx.ok('lut-clauses', key)


def on_function(ctx, P):
    """clause of a cube: literal i (children in order, then the output) with the cube's polarity"""
    done = set()
    for fn in ctx.fns('ops', 'detail::on_function', least=1):
        sig = P.ty(fn['p'][0]['t'])
        if sig in done:
            continue
        done.add(sig)
        I = Interp(P)
        I.run(fn)
        key = f"{fn['decl']['qn']}({sig})"
        ctx.functions.add(fn['decl']['qn'])
        pushes = [e for e in I.events if e.kind == 'push' and len(e.loops) == 2]
        if len(pushes) != 1:
            # one push per polarity is fine: merge
            if not pushes:
                ctx.undecided('lut-clauses', key, 'no literal is appended per cube position')
                continue
        roots = {}
        for i, p in enumerate(fn['p'][:2]):
            roots[T('root', 'arg', i, p['n'] or f'arg{i}')] = [100, [10, 20]][i]
        bad, n = None, 0
        try:
            for pos in range(3):
                for mask, bit in itertools.product((0, 1), repeat=2):
                    outer, inner = pushes[0].loops[0], pushes[0].loops[1]

                    def call(ev, t):
                        f = t.args[0].split('::')[-1]
                        if f == 'get_mask':
                            return mask
                        if f == 'get_bit':
                            return bit
                        if f == 'cnf_characteristic':
                            return ['cube']
                        return NotImplemented
                    hooks = lit_hooks({'call': call, 'iv': lambda ev, t: pos if t is inner.iv else 0 if t is outer.iv else NotImplemented})
                    ev = evaluator(Eval, roots, hooks)
                    got = [ev.v(e.args[0]) for e in pushes if ev.b(e.guard)]
                    lit = [10, 20, 100][pos]
                    want = [lit ^ (1 - bit)] if mask else []
                    n += 1
                    if got != want and bad is None:
                        bad = f'for cube position {pos} with mask {mask}, polarity {bit} the clause receives {got} instead of {want} (10, 20 inputs, 100 output)'
        except Unknown as u:
            ctx.undecided('lut-clauses', key, u)
            continue
        if bad:
            ctx.viol('lut-clauses', key, loc(fn), bad)
        else:
            ctx.ok('lut-clauses', key, n)


def node_literals(ctx, P):
    for fn in ctx.fns('ops', 'node_literals', least=1):
        I = Interp(P, prims=net_prims(P), depth=10)
        ret, st = I.run(fn)
        isaig = 'aig' in (fn['decl'].get('ta') or '')
        key = fn['decl']['qn'] + '<' + (fn['decl'].get('ta') or '') + '>'
        ctx.functions.add(fn['decl']['qn'])
        bad, n = None, 0
        W = {}
        for e in I.events:
            if e.kind == 'write' and e.loops and e.name.op == 'idx':
                W.setdefault(e.loops[-1].kind, []).append(e)
        C0 = [e for e in I.events if e.kind == 'write' and not e.loops and e.name.op == 'idx']
        try:
            for iv in (0, 1, 5, 300, 70000):
                def evm(L):
                    hooks = lit_hooks({'iv': lambda ev, t: iv, 'pi': lambda ev, t: 40 + iv, 'gate': lambda ev, t: 70 + iv,
                                       'size': lambda ev, t: 9})

                    def call(ev, t):
                        if t.args[0].endswith('num_pis'):
                            return 9
                        return NotImplemented
                    fb = lambda t, ev: 9 if (t.op == 'ld' and 'num_pis' in show(t)) else (0 if t.op == 'has' else NotImplemented)
                    return evaluator(Eval, {}, hooks, fallback=fb)
                for kind, var, nodeid in (('each:foreach_pi', 1 + iv, 40 + iv), ('each:foreach_gate', 10 + iv, 70 + iv)):
                    es = W.get(kind, [])
                    if len(es) != 1:
                        raise Unknown(f'{len(es)} literal writes under {kind}')
                    ev = evm(es[0].loops[-1])
                    if not ev.b(es[0].guard):
                        raise Unknown('guarded literal write')
                    idx = ev.v(es[0].name.args[1])
                    v = ev.v(es[0].args[0])
                    n += 1
                    if (idx, v) != (nodeid, 2 * var) and bad is None:
                        bad = f'{kind[13:]} number {iv} (node {nodeid}) is given literal {v} at position {idx}, expected {2 * var}'
            ev = evm(None)
            lits = {ev.v(e.name.args[1]): ev.v(e.args[0]) for e in C0 if ev.b(e.guard)}
            want = {0: 0} if isaig else {0: 0, 1: 1}
            n += 1
            if lits != want and bad is None:
                bad = f'constant nodes are given literals {lits}, expected {want}'
        except Unknown as u:
            ctx.undecided('node-literals', key, u)
            continue
        if bad:
            ctx.viol('node-literals', key, loc(fn), bad)
        else:
            ctx.ok('node-literals', key, n)


def run(ctx):
    P = ctx.prog('ops')
    ctx.rule('gate-clauses', 'the clause set each on_* function emits is equivalent to output <-> gate(inputs), for both literal types and all literal polarities')
    ctx.rule('network-clauses', 'generate_cnf emits, for every gate, clauses equivalent to the conjunction of its fanins with their edge polarities, and forces the constant')
    ctx.rule('node-literals', 'distinct variables: constant 0, input i -> i+1, gates consecutively after the inputs')
    ctx.rule('lut-clauses', 'general nodes: each cube literal has the position and polarity of the characteristic cube')
    gate_encodings(ctx, P)
    network_cnf(ctx, P)
    on_function(ctx, P)
    node_literals(ctx, P)
