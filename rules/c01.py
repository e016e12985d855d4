"""C01 AIG gate constructors build the function they are named after."""
import itertools
from engine.terms import *
from engine.interp import Interp
from engine.evalm import Eval, Unknown
from engine.sigm import *
from engine.ctx import loc

LEVEL = 'proof'
MIN_DECIDED = 15
NS = 'iFPGA::'
NET = NS + 'aig_network'
SIG = NET + '::signal'


def gate_prims(prog, cls, skip, sigt):
    """create_* of cls (except `skip`) as function-level primitives"""
    prims = {}
    for name in list(GATE) + list(NARY):
        if name == skip:
            continue
        if name in ('not', 'buf') or name in GATE or name in NARY:
            def h(I, st, fr, e, args, name=name):
                return T('fop', name, *args[1:])
            prims[f'{cls}::create_{name}'] = h
    def const(I, st, fr, e, args):
        b = args[1] if len(args) > 1 else FALSE
        return T('fconst', b2i(b) if isinstance(b, B) else b)
    if skip != 'get_constant':
        prims[f'{cls}::get_constant'] = const
    return prims


def storage_prims():
    def hf(I, st, fr, e, args):
        n = args[1]
        if n.op == 'addr':
            n = I.load(st, n.args[0], NS + 'fixed_node<2, 2>')
        t = T('hashfind', n)
        I.event(st, fr, 'hashfind', 'hash_find', (n,), e)
        return t

    def hi(I, st, fr, e, args):
        n = args[1]
        if n.op == 'addr':
            n = I.load(st, n.args[0])
        I.event(st, fr, 'hashins', 'hash_insert', (n, args[2]), e)
        return T('void')

    def he(I, st, fr, e, args):
        n = args[1]
        if n.op == 'addr':
            n = I.load(st, n.args[0])
        I.event(st, fr, 'hasherase', 'hash_erase', (n,) + tuple(args[2:]), e)
        return T('void')
    return {NS + 'storage::hash_find': hf, NS + 'storage::hash_insert': hi, NS + 'storage::hash_erase': he}


def sig_hooks(w, tn=SIG, cfld='complement'):
    def fop(ev, t):
        name = t.args[0]
        xs = []
        for a in t.args[1:]:
            v = ev.v(a)
            if isinstance(v, list):
                xs += [w.func(*sigval(x)) for x in v]
            else:
                xs.append(w.func(*sigval(v)))
        f = (GATE.get(name) or NARY[name])(w, *xs)
        return mkrec(tn, w, f, cfld)

    def fconst(ev, t):
        return mkrec(tn, w, w.mask if ev.v(t.args[0]) else 0, cfld)
    return {'fop': fop, 'fconst': fconst}


def node_children(v):
    return [sigval(x) for x in v[2]['children']]


def and_of(w, v):
    f = w.mask
    for i, c in node_children(v):
        f &= w.func(i, c)
    return f


def leaf_for(argterms, assign):
    """leaf function for fields of the signal arguments: argterms {name:(root term)}"""
    def leaf(t):
        x = t
        if x.op == 'bitf':
            x = x.args[0]
        if x.op == 'ld' and x.args[0].op == 'fld' and x.args[0].args[0] in assign:
            return assign[x.args[0].args[0]][x.args[0].args[1]]
        if x.op == 'ld' and x.args[0] in assign:
            return ('rec', SIG, dict(assign[x.args[0]]))
        return NotImplemented
    return leaf


def run_ctor(ctx, P, fn, name, extra=None, nargs=None):
    d = fn['decl']
    ctx.functions.add(d['qn'])
    prims = gate_prims(P, NET, name, SIG)
    prims.update(storage_prims())
    I = Interp(P, prims=prims, recursive=('iFPGA::tree_reduce', 'iFPGA::ternary_tree_reduce'), depth=16)
    args = None
    roots = [T('root', 'arg', i, p['n'] or f'arg{i}') for i, p in enumerate(fn['p'])]
    if nargs is not None:
        roots = [T('root', 'operand', i, f'x{i}') for i in range(nargs)]
        for r in roots:
            I.loc_rec[r] = SIG
        args = [T('vec', *[T('rec', SIG, (('complement', atom(T('bitf', T('ld', T('fld', r, 'complement'), 0)))), ('index', T('ld', T('fld', r, 'index'), 0)))) for r in roots])]
    ret, st = I.run(fn, args=args)
    for q in I.funcs_seen:
        ctx.functions.add(q)
    return I, ret, roots


def models(k):
    for idx in itertools.product(range(k + 1), repeat=k):
        # canonical: the distinct nonzero indices used form an initial segment, in any order
        used = sorted(set(i for i in idx if i))
        if used != list(range(1, len(used) + 1)):
            continue
        for cpl in itertools.product((0, 1), repeat=k):
            yield idx, cpl


def mkworld(k, idx, norm=True):
    w = World(k, norm)
    for i in sorted(set(idx)):
        if i:
            w.set(i, w.var(i - 1))
    return w


def describe(roots, idx, cpl):
    return ', '.join(f"{r.args[-1]}={'!' if c else ''}{'n%d' % i if i else 'const0'}" for r, i, c in zip(roots, idx, cpl))


def check(ctx, P, fn, name, nargs=None):
    d = fn['decl']
    I, ret, roots = run_ctor(ctx, P, fn, name, nargs=nargs)
    k = len(roots)
    spec = GATE.get(name) or NARY[name]
    pushes = [e for e in I.events if e.kind == 'push' and 'nodes' in show(e.name)]
    bad = None
    n = 0
    key = f'{d["qn"]}' + (f'/{nargs}' if nargs is not None else '')
    for idx, cpl in models(max(k, 1)) if k else [((), ())]:
        for hit in (0, 1):
            w = mkworld(max(k, 1), idx)
            assign = {r: dict(index=i, complement=c) for r, i, c in zip(roots, idx, cpl)}
            hooks = sig_hooks(w)
            newid = 77

            def hf(ev, t):
                if not hit:
                    return 0
                f = and_of(w, ev.v(t.args[0]))
                # a node stored under this key computes the conjunction of its children
                if 78 not in w.fun:
                    w.fun[78] = f
                elif w.fun[78] != f:
                    raise Unknown('two different keys looked up')
                return 78
            hooks['hashfind'] = hf

            def size(ev, t):
                a = t.args[0]
                if a.op in ('ld',) and 'nodes' in show(a):
                    return newid
                return NotImplemented
            hooks['size'] = size
            ev = Eval(leaf_for(roots, assign), hooks)
            try:
                made = [e for e in pushes if ev.b(e.guard)]
                if made:
                    w.fun[newid] = and_of(w, ev.v(made[0].args[0]))
                got = w.func(*sigval(ev.v(ret)))
            except Unknown as u:
                ctx.undecided('constructor-function', f'{key} {describe(roots, idx, cpl)}', u)
                continue
            want = spec(w, *[w.func(i, c) for i, c in zip(idx, cpl)])
            n += 1
            if got != want and bad is None:
                bad = (idx, cpl, hit, got, want)
            if not pushes and not hit:
                pass
    if bad:
        idx, cpl, hit, got, want = bad
        ctx.viol('constructor-function', key, loc(fn), f"create_{name} returns a signal whose function differs from {name} when {describe(roots, idx, cpl)}"
                 + (' and the node is already hashed' if hit and pushes else ''), dict(got=bin(got), want=bin(want)))
    else:
        ctx.ok('constructor-function', key, max(n, 1))


def run(ctx):
    P = ctx.prog('ops')
    ctx.rule('constructor-function', 'the value graph of every aig gate constructor, with the other constructors and the structural-hash lookup as '
             'primitives, denotes the named Boolean function for every order type of the operand indices (including the constant), every '
             'operand polarity and both outcomes of the hash lookup')
    seen = 0
    for name in list(GATE):
        fs = [f for f in P.find('aig_network::create_' + name) if f['decl'].get('cls') == NET]
        ctx.need(fs, f'aig_network::create_{name} not found')
        check(ctx, P, fs[0], name)
    gc = ctx.fn('ops', 'aig_network::get_constant')
    # get_constant
    I = Interp(P)
    ret, _ = I.run(gc)
    r = T('root', 'arg', 0, gc['p'][0]['n'])
    for v in (0, 1):
        ev = Eval(lambda t: v if t.op == 'bitf' or t.op == 'ld' else NotImplemented)
        try:
            i, c = sigval(ev.v(ret))
            if (i, c) == (0, v):
                ctx.ok('constructor-function', 'get_constant')
            else:
                ctx.viol('constructor-function', 'aig_network::get_constant', loc(gc), f'get_constant({bool(v)}) returns node {i} complement {c}')
        except Unknown as u:
            ctx.undecided('constructor-function', 'get_constant', u)
    for name in NARY:
        fs = [f for f in P.find('aig_network::create_' + name) if f['decl'].get('cls') == NET]
        ctx.need(fs, f'aig_network::create_{name} not found')
        for k in range(0, 6 if ctx.tier == 'thorough' else 5):
            check(ctx, P, fs[0], name, nargs=k)
