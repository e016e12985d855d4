"""C05 k-LUT gate constructors build the function they are named after."""
import itertools
from engine.terms import *
from engine.interp import Interp
from engine.evalm import Eval, Unknown
from engine.sigm import *
from engine.ctx import loc
from engine.store import evaluator
from engine.objm import *

LEVEL = 'proof'
MIN_DECIDED = 10
NS = 'iFPGA::'
NET = NS + 'klut_network'
CACHE = NS + 'truth_table_cache'


def tt_prims(cls_prims=None):
    """kitty construction from constant words and cache insertion as value primitives"""
    def cfw(I, st, fr, e, args):
        tt = args[0].args[0] if args[0].op == 'addr' else None
        if tt is None:
            return None
        old = I.load(st, tt)
        nv = None
        if old.op == 'call' and 'dynamic_truth_table' in old.args[0] and len(old.args) == 2:
            nv = old.args[1]
        # tt(x.num_vars()) etc. stay opaque
        a, b = args[1], args[2]
        words = []
        if a.op == 'addr':
            base = a.args[0]
            if base.op == 'idx':
                base = base.args[0]
            w = I.load(st, a.args[0], 'u64')
            words = [w]
        elif a.op == 'iter':
            v = I.load(st, a.args[0])
            if v.op == 'vec' and v.args:
                words = [v.args[0]]
        I.event(st, fr, 'ttword', 'create_from_words', tuple(args), e)
        if nv is None or not words:
            I.havoc(st, tt)
        else:
            I.store(st, tt, T('tt', nv, words[0]))
        return T('void')

    def ins(I, st, fr, e, args):
        v = args[1]
        if v.op == 'addr':
            v = I.load(st, v.args[0])
        I.event(st, fr, 'cacheins', 'insert', (v,), e)
        return T('cacheins', v)

    def hexs(I, st, fr, e, args):
        tt = args[0].args[0] if args[0].op == 'addr' else None
        if tt is None or args[1].op != 's':
            return None
        old = I.load(st, tt)
        if old.op == 'call' and 'dynamic_truth_table' in old.args[0] and len(old.args) == 2:
            try:
                I.store(st, tt, T('tt', old.args[1], C(int(args[1].args[0], 16))))
                return T('void')
            except ValueError:
                pass
        return None
    return {'kitty::create_from_words': cfw, 'kitty::create_from_hex_string': hexs, CACHE + '::insert': ins}


def cache_table(ctx, P):
    """literal -> (vars, word) as set up by the network's constructor, by the documented
    normal-form numbering of the cache (position = order of first insertion)"""
    inits = [f for f in P.find('klut_network::klut_network')]
    ctx.need(inits, 'klut_network constructor not found')
    f = sorted(inits, key=lambda f: len(f['p']))[0]
    I = Interp(P, prims=tt_prims(), depth=10)
    I.run(f)
    for q in I.funcs_seen:
        ctx.functions.add(q)
    data = []
    where = loc(f)
    for e in I.events:
        if e.kind == 'cacheins':
            v = e.args[0]
            nv = w = None
            if v.op == 'tt' and isc(v.args[0]) and isc(v.args[1]):
                nv, w = cval(v.args[0]), cval(v.args[1])
            elif v.op == 'call' and 'dynamic_truth_table' in v.args[0] and len(v.args) == 2 and isc(v.args[1]):
                nv, w = cval(v.args[1]), 0
            if nv is None or e.guard is not TRUE or e.loops:
                return None, where, f'entry {show(v)[:80]} not a constant table'
            bits = 1 << nv
            mask = (1 << bits) - 1
            w &= mask
            if w & 1:
                w ^= mask
            if (nv, w) not in data:
                data.append((nv, w))
    if not data:
        return None, where, 'no cache insertion found'
    tab = {}
    for i, (nv, w) in enumerate(data):
        mask = (1 << (1 << nv)) - 1
        tab[2 * i] = (nv, w)
        tab[2 * i + 1] = (nv, w ^ mask)
    return tab, where, ''


def lut(w, fs, nv, word):
    r = 0
    for m in range(w.n):
        i = 0
        for j, f in enumerate(fs):
            if (f >> m) & 1:
                i |= 1 << j
        if (word >> i) & 1:
            r |= 1 << m
    return r


def gate_prims(skip):
    prims = {}
    for name in list(GATE) + list(NARY):
        if name == skip:
            continue
        def h(I, st, fr, e, args, name=name):
            return T('fop', name, *args[1:])
        prims[f'{NET}::create_{name}'] = h
    if skip != 'get_constant':
        def const(I, st, fr, e, args):
            b = args[1] if len(args) > 1 else FALSE
            return T('fconst', b2i(b) if isinstance(b, B) else b)
        prims[NET + '::get_constant'] = const
    return prims


def child(v):
    if isinstance(v, tuple) and v[0] == 'rec':
        if 'index' in v[2]:
            return v[2]['index']
        if 'data' in v[2]:
            return v[2]['data']
    return v


def check(ctx, P, fn, name, tab, nargs=None):
    d = fn['decl']
    ctx.functions.add(d['qn'])
    prims = gate_prims(name)
    prims.update(tt_prims())
    I = Interp(P, prims=prims, recursive=('iFPGA::tree_reduce', 'iFPGA::ternary_tree_reduce'), depth=16)
    roots = [T('root', 'arg', i, p['n'] or f'arg{i}') for i, p in enumerate(fn['p'])]
    args = None
    if nargs is not None:
        roots = [T('root', 'operand', i, f'x{i}') for i in range(nargs)]
        args = [T('vec', *[T('ld', r, 0) for r in roots])]
    ret, st = I.run(fn, args=args)
    for q in I.funcs_seen:
        ctx.functions.add(q)
    key = d['qn'] + (f'/{nargs}' if nargs is not None else '')
    spec = GATE.get(name) or NARY[name]
    k = len(roots)
    pushes = [e for e in I.events if e.kind == 'push' and isinstance(e.name, Term) and e.name.op == 'fld' and e.name.args[1] == 'nodes']
    bad, n = None, 0
    for idx in itertools.product(range(k + 2), repeat=k) if k else [()]:
        w = World(max(k, 1), norm=False)
        w.set(1, w.mask)
        for i in range(k):
            w.set(i + 2, w.var(i))
        w.next = 100

        def fop(ev, t):
            xs = []
            for a in t.args[1:]:
                v = ev.v(a)
                xs += [w.func(x, 0) for x in v] if isinstance(v, list) else [w.func(v, 0)]
            return w.sig((GATE.get(t.args[0]) or NARY[t.args[0]])(w, *xs))[0]

        def size(ev, t):
            if 'nodes' in show(t.args[0]):
                return 77
            return NotImplemented
        hooks = {'fop': fop, 'size': size, 'fconst': lambda ev, t: 1 if ev.v(t.args[0]) else 0}
        ev = evaluator(Eval, dict(zip(roots, idx)), hooks)
        try:
            made = [e for e in pushes if ev.b(e.guard)]
            if made:
                v = ev.v(made[0].args[0])
                lit = v[2]['data'][1][2]['h1']
                ch = [child(c) for c in v[2]['children']]
                if not isinstance(lit, int) or lit not in tab:
                    raise Unknown(f'literal {lit!r}')
                nv, word = tab[lit]
                if nv != len(ch):
                    bad = bad or (idx, f'a {len(ch)}-input node gets literal {lit}, a table over {nv} variables')
                    continue
                w.fun[77] = lut(w, [w.func(c, 0) for c in ch], nv, word)
            got = w.func(ev.v(ret), 0)
        except Unknown as u:
            ctx.undecided('constructor-function', key, u)
            return
        want = spec(w, *[w.func(i, 0) for i in idx])
        n += 1
        if got != want and bad is None:
            bad = (idx, f'function {got:#x} instead of {want:#x}')
    if bad:
        ctx.viol('constructor-function', key, loc(fn), f'create_{name} on operands {bad[0]}: {bad[1]}')
    else:
        ctx.ok('constructor-function', key, max(n, 1))


def tt_call(ev, t):
    """the truth-table operations used by the cache, on model values ('tt', vars, word)"""
    n = str(t.args[0]).split('::')[-1]
    xs = [ev.v(a) for a in t.args[1:]]
    tt = next((x for x in xs if isinstance(x, tuple) and x and x[0] == 'tt'), None)
    if tt is None:
        return NotImplemented
    bits = 1 << tt[1]
    if n == 'get_bit' and len(xs) == 2:
        return tt[2] >> xs[1] & 1
    if n == 'operator~' and len(xs) == 1:
        return ('tt', tt[1], tt[2] ^ (1 << bits) - 1)
    if n == 'num_bits':
        return bits
    if n == 'num_vars':
        return tt[1]
    if n == 'is_normal':
        return int(not tt[2] & 1)
    if n == 'is_const0':
        return int(tt[2] == 0)
    if n == 'count_ones':
        return bin(tt[2]).count('1')
    return NotImplemented


def cache_rule(ctx, P):
    """insert then operator[] on every function of up to two inputs and every relevant cache content"""
    M = OMachine(ctx, P, [CACHE + '::insert', CACHE + '::operator[]'], pick=lambda f: f['decl'].get('cls', '').startswith(CACHE + '<kitty::dynamic_truth_table'))
    M.need('insert', 'operator[]')
    p = Ptr('cache')
    where = loc(M.fns['insert'].f)
    bad, und, n = None, None, 0
    for nv in (0, 1, 2):
        mask = (1 << (1 << nv)) - 1
        for w in range(mask + 1):
            tt = ('tt', nv, w)
            norm = ('tt', nv, w if not w & 1 else w ^ mask)
            others = [('tt', 3, 0x96), ('tt', 3, 0xe8)]
            for data in ([], others, others[:1] + [norm] + others[1:], [norm], others + [norm]):
                try:
                    M.start({'cache': rec('truth_table_cache', _indexes={plain(d): i for i, d in enumerate(data)}, _data=list(data))})
                    lit = M.ocall('insert', p, [tt])
                    now = M.get(p)[2]
                    nd, ni = list(now['_data']), dict(now['_indexes'])
                    n += 1
                    got = M.ocall('operator[]', p, [lit]) if isinstance(lit, int) and 0 <= lit >> 1 < len(nd) else None
                except Unknown as x:
                    und = und or f'{nv}-input function {w:#x}: {x}'
                    continue
                if got != tt:
                    bad = bad or f'inserting the {nv}-input function {w:#x} into a cache of {len(data)} returns literal {lit}, which reads back as {got[2:] if got else "nothing"}'
                elif nd[:len(data)] != data or any(ni.get(plain(d)) != i for i, d in enumerate(nd)) or len(set(nd)) != len(nd):
                    bad = bad or f'inserting the {nv}-input function {w:#x} breaks the correspondence of table positions and index'
    if bad:
        ctx.viol('cache', CACHE, where, bad)
    elif und:
        ctx.undecided('cache', CACHE, und)
    else:
        ctx.ok('cache', CACHE, n)


def run(ctx):
    P = ctx.prog('ops')
    ctx.rule('cache', 'transfer functions of insert and operator[] composed on every function of up to two inputs and cache contents with and without it: the literal reads back the function, positions stay consistent')
    cache_rule(ctx, P)
    ctx.rule('constructor-function', 'the truth-table table the k-LUT network installs and the literal each gate constructor stores, read '
             'together, give the named Boolean function of the children in order')
    tab, where, why = cache_table(ctx, P)
    if tab is None:
        ctx.undecided('initial-tables', where, why)
        return
    ctx.ok('initial-tables', where, len(tab))
    for lit, what, val in ((0, 'constant 0', 0), (1, 'constant 1', 1)):
        nv, word = tab[lit]
        if nv == 0 and word == val:
            ctx.ok('constant-literal', where)
        else:
            ctx.viol('constant-literal', f'{NET}::literal{lit}', where, f'{what} is expected at literal {lit}, found a {nv}-variable table {word:#x}')
    seen = 0
    for name in list(GATE):
        fs = [f for f in P.find('klut_network::create_' + name) if f['decl'].get('cls') == NET]
        if not fs:
            continue
        seen += 1
        check(ctx, P, fs[0], name, tab)
    ctx.need(seen >= 9, f'only {seen} k-LUT gate constructors found')
    for name in NARY:
        fs = [f for f in P.find('klut_network::create_' + name) if f['decl'].get('cls') == NET]
        ctx.need(fs, f'klut create_{name}')
        for k in range(0, 5 if ctx.tier == 'thorough' else 4):
            check(ctx, P, fs[0], name, tab, nargs=k)
