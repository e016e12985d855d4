"""Shared parts of the rules that check translations between networks (engine.xlat)."""
import random
from engine.xlat import *
from engine.ctx import loc
from engine.par import sweep

NS = 'iFPGA::'


class Op:
    """recovered transfer function of one function; parameters that are networks are cells"""

    def __init__(self, ctx, f, I, ret):
        self.f, self.I, self.ret = f, I, ret
        self.params = [T('root', 'arg', i, p['n'] or f'arg{i}') for i, p in enumerate(f['p'])]


def load(ctx, P, name, types=(), rtype=None, opaque=(), extra=None, keep=(), need=True):
    """the instance of name whose parameter types contain the given class names"""
    c = []
    for f in P.find(name):
        if f['decl']['qn'].split('::')[-1] != name.split('::')[-1]:
            continue
        pt = [P.ty(p['t']) for p in f['p']]
        if all(i < len(pt) and x in pt[i] for i, x in enumerate(types)) and (rtype is None or rtype in P.ty(f['decl'].get('rt') or '')):
            c.append(f)
    if need:
        ctx.need(c, f'{name}({", ".join(types)}) not found')
    if not c:
        return None
    f = c[0]
    I = Interp(P, opaque=set(opaque), prims=xprims(extra, keep=keep))
    I.ctor_hook = lambda d: net_class(d.get('cls'))
    I.track_epochs = True
    ret, _ = I.run(f)
    ctx.functions.update(I.funcs_seen)
    return Op(ctx, f, I, ret)


def evaluate(op, nets, args, contracts=None, hooks=None, queries=None, calls=None, limit=20000):
    """nets: {parameter index: Net}; args: {parameter index: value} -> (run, evaluated store)"""
    cells, roots, locs = {}, {}, {}
    for i, n in nets.items():
        cells[f'n{i}'] = n
        locs[op.params[i]] = f'n{i}'
    for i, v in args.items():
        cells[f'a{i}'] = v
        roots[op.params[i]] = f'a{i}'
    limit = max([limit] + [500 * (len(n.nodes) + len(n.pos)) for n in nets.values() if len(n.nodes) > 100])
    R = XRun(op.I, cells, roots, locs, contracts=contracts or {}, hooks=hooks or {}, limit=limit)
    R.queries = queries or {}
    R.calls = calls or {}
    try:
        out = R.run()
    except Unknown as x:
        # an assertion that is known to fail is reported even where the run after it cannot be followed
        if R.asserts:
            raise Damage(f'the assertion {R.asserts[0][0]} fails') from x
        raise
    return R, out


def pure(f):
    f.pure = True
    return f


@pure
def tt_not(R, args):
    t = args[0]
    if not (isinstance(t, tuple) and t and t[0] == 'tt'):
        raise Unknown('complement of a value that is no truth table')
    return ('tt', t[1], ~t[2] & ((1 << (1 << t[1])) - 1))


# ---- families of source networks
def rnd_aig(rnd, npi, ngates, npo=None, nro=0):
    """normalised AND-inverter graph (no trivial and no duplicate gates), possibly with dangling gates and constant outputs"""
    nodes = [('c', 0)] + [('pi',)] * npi + [('ro',)] * nro
    base = len(nodes)
    seen = set()
    tries = 0
    while len(nodes) - base < ngates and tries < 200:
        tries += 1
        n = len(nodes)
        if n < 3:
            break
        a, b = sorted(rnd.sample(range(1, n), 2))
        if rnd.random() < .4 and n - 1 > a:
            b = n - 1
        g = ((a, rnd.randrange(2)), (b, rnd.randrange(2)))
        if g in seen:
            continue
        seen.add(g)
        nodes.append(('g', 'and', g))
    n = len(nodes)
    pos = []
    for i in range(npo if npo is not None else rnd.choice((1, 2, 3))):
        r = rnd.random()
        pos.append((0 if r < .1 else rnd.randrange(n) if r < .5 or n == base else rnd.randrange(base, n), rnd.randrange(2)))
    ris = [(rnd.randrange(n), rnd.randrange(2)) for _ in range(nro)]
    return Net('aig', nodes, pos, ris, list(range(1, base)))


def tree_aig(rnd, npi):
    """few gates are shared, so that cuts are wide: random trees over all inputs, with two extra gates over them"""
    nodes = [('c', 0)] + [('pi',)] * npi
    pool = list(range(1, npi + 1))
    while len(pool) > 1:
        a, b = sorted(rnd.sample(pool, 2))
        pool = [x for x in pool if x not in (a, b)] + [len(nodes)]
        nodes.append(('g', 'and', ((a, rnd.randrange(2)), (b, rnd.randrange(2)))))
    top = len(nodes) - 1
    for _ in range(2):
        a, b = sorted(rnd.sample(range(1, len(nodes)), 2))
        g = ('g', 'and', ((a, rnd.randrange(2)), (b, rnd.randrange(2))))
        if g not in nodes and not {a, b} == {x for x, _ in nodes[top][2]}:
            nodes.append(g)
    return Net('aig', nodes, [(top, rnd.randrange(2)), (len(nodes) - 1, rnd.randrange(2))], [], list(range(1, npi + 1)))


def chain_aig(npi, ngates, nro=0):
    """a chain of ngates gates"""
    b = 1 + npi + nro
    return Net('aig', [('c', 0)] + [('pi',)] * npi + [('ro',)] * nro
               + [('g', 'and', (((i % (b - 1)) + 1, i & 1), (b + i - 1, (i >> 1) & 1))) if i else ('g', 'and', ((1, 0), (2, 1))) for i in range(ngates)],
               [(b + ngates - 1, 1)], [(b + i, 1) for i in range(nro)], list(range(1, b)))


def wide_aigs(nro=0):
    """graphs past the ranges of 8-bit quantities: many inputs with indices that agree modulo 256, many gates and outputs, many fan-outs, deep chains"""
    b = 300 + nro + 1
    g = [('g', 'and', ((1, 0), (2, 0))), ('g', 'and', ((1, 0), (257, 1))), ('g', 'and', ((2, 0), (258, 0))), ('g', 'and', ((258, 0), (260, 1))), ('g', 'and', ((b, 0), (b + 1, 0))),
         ('g', 'and', ((b + 1, 1), (b + 2, 0))), ('g', 'and', ((b + 3, 0), (b + 4, 1))), ('g', 'and', ((300, 1), (b + 5, 1)))]
    yield Net('aig', [('c', 0)] + [('pi',)] * 300 + [('ro',)] * nro + g, [(b + 7, 0), (b + 6, 1), (257, 0), (0, 1)], [(b + 2, 1)] * nro, list(range(1, b)))
    yield Net('aig', [('c', 0)] + [('pi',)] * 300 + [('ro',)] * nro + g, [(b + 7, 0)] + [(i, i & 1) for i in range(1, 258)] + [(b + 4, 0), (b + 6, 1)], [(b + 2, 1)] * nro, list(range(1, b)))
    rnd = random.Random(404)
    N = rnd_aig(rnd, 4, 330, 300, nro)
    yield N
    yield chain_aig(3, 280, nro)
    b = 303 + nro
    yield Net('aig', [('c', 0)] + [('pi',)] * 302 + [('ro',)] * nro + [('g', 'and', ((1, 0), (2, 0)))] + [('g', 'and', ((i, i & 1), (b, i >> 1 & 1))) for i in range(3, 303)],
              [(b + 1, 0), (b + 255, 1), (b + 256, 0), (b + 257, 1), (b + 300, 0)], [(b + 256, 1)] * nro, list(range(1, b)))


def wide_kluts():
    b = 302
    g = [('g', (2, 8), ((2, 0), (3, 0))), ('g', (2, 2), ((258, 0), (2, 0))), ('g', (3, 0xca), ((2, 0), (258, 0), (259, 0))), ('g', (4, 0x6996), ((b, 0), (b + 1, 0), (b + 2, 0), (301, 0))),
         ('g', (3, 0x2d), ((b + 1, 0), (b + 3, 0), (260, 0)))]
    yield Net('klut', [('c', 0), ('c', 1)] + [('pi',)] * 300 + g, [(b + 4, 0), (b + 3, 0), (257, 0), (1, 0)], (), list(range(2, b)))
    yield Net('klut', [('c', 0), ('c', 1)] + [('pi',)] * 300 + g, [(b + 4, 0)] + [(i, 0) for i in range(2, 259)] + [(b + 2, 0)], (), list(range(2, b)))
    rnd = random.Random(405)
    yield rnd_klut(rnd, 4, 300, 290)


def rnd_klut(rnd, npi, ngates, npo=None, maxk=4, trivial=False):
    """network of lookup tables; without trivial=True no table is constant, a literal, or ignores a fan-in"""
    nodes = [('c', 0), ('c', 1)] + [('pi',)] * npi
    base = len(nodes)
    while len(nodes) - base < ngates:
        n = len(nodes)
        k = rnd.randrange(1 if trivial else 2, maxk + 1)
        pool = list(range(0 if trivial else 2, n))
        if len(pool) < k:
            k = len(pool)
            if k == 0 or k < 2 and not trivial:
                break
        f = tuple((i, 0) for i in rnd.sample(pool, k))
        for _ in range(50):
            t = rnd.getrandbits(1 << k)
            if trivial or depends(k, t):
                break
        nodes.append(('g', (k, t), f))
    n = len(nodes)
    pos = [(rnd.randrange(0 if rnd.random() < .2 or n == base else base, n), 0) for _ in range(npo if npo is not None else rnd.choice((1, 2, 3)))]
    return Net('klut', nodes, pos, (), list(range(2, base)))


def depends(k, t):
    """the table of k variables depends on all of them"""
    for i in range(k):
        if not any((t >> m & 1) != (t >> (m ^ (1 << i)) & 1) for m in range(1 << k)):
            return False
    return True


def cone_tt(N, root, leaves):
    """function of root over leaves, as (number of leaves, bits); None when the leaves are no cut"""
    k = len(leaves)
    full = (1 << (1 << k)) - 1
    v = {l: sum(1 << m for m in range(1 << k) if m >> i & 1) for i, l in enumerate(leaves)}

    def val(i):
        if i in v:
            return v[i]
        x = N.nodes[i]
        if x[0] == 'c':
            return full if x[1] else 0
        if x[0] != 'g':
            raise KeyError(i)
        xs = [val(j) ^ (full if c else 0) for j, c in x[2]]
        v[i] = apply_fn(x[1], xs, full)
        return v[i]
    try:
        return (k, val(root) & full)
    except KeyError:
        return None


def rnd_mapping(rnd, N, k=4, extra=0.0, tries=4):
    """N with a cover by cuts of at most k leaves: attribute cells {root: (leaves, table)}"""
    cells = {}
    todo = [i for i, _ in N.pos + N.ris if N.nodes[i][0] == 'g']
    if rnd.random() < extra:
        todo += [i for i in N.gates() if rnd.random() < .3]
    while todo:
        r = todo.pop()
        if r in cells:
            continue
        leaves = list(dict.fromkeys(j for j, _ in N.nodes[r][2]))
        for _ in range(rnd.randrange(tries)):
            g = [x for x in leaves if N.nodes[x][0] == 'g']
            if not g:
                break
            x = rnd.choice(g)
            l2 = sorted(set(leaves) - {x} | {j for j, _ in N.nodes[x][2]})
            if len(l2) <= k:
                leaves = l2
        rnd.shuffle(leaves)
        cells[r] = (leaves, cone_tt(N, r, leaves))
        todo += [x for x in leaves if N.nodes[x][0] == 'g']
    M = N.but()
    M.cells = cells
    return M


def same_functions(src, dst, pis=None, pos=None):
    """'' when the interface of dst is that of src (or the kept inputs pis / outputs pos) and all outputs are the same functions of the inputs"""
    pis = src.pis() if pis is None else pis
    if len(dst.pis()) != len(pis):
        return f'{len(dst.pis())} inputs are created for {len(pis)}'
    if len(dst.cis) != len(pis) + len(dst.ros()):
        return 'the inputs are damaged'
    want, _ = src.outputs()
    got, _ = dst.outputs()
    if pos is not None:
        want = [want[i] for i in pos]
    if len(got) != len(want):
        return f'{len(got)} outputs are created for {len(want)}'
    # functions over all inputs of the source: those of dst over the kept ones
    k = len(src.cis)
    if k > WIDE:
        got, _ = dst.outputs([src.cis.index(p) for p in list(pis) + src.ros()], k)
        for i, (g, w) in enumerate(zip(got, want)):
            if g != w:
                return f'output {i} is not the function of the source output'
        return ''
    where = [src.cis.index(p) for p in pis]
    for i, (g, w) in enumerate(zip(got, want)):
        for m in range(1 << k):
            j = sum((m >> x & 1) << n for n, x in enumerate(where))
            if (g >> j & 1) != (w >> m & 1):
                return f'output {i} is not the function of the source output'
    return ''


def report(ctx, rule, key, where, ok, bad, und, name=None):
    n = name or key
    if key in bad:
        ctx.viol(rule, n, where, bad[key])
    elif key in und:
        ctx.undecided(rule, n, und[key])
    else:
        ctx.ok(rule, n, ok.get(key, 0))


def padded(N, at=1, k=256):
    """N with k more inputs behind its first at inputs: indices on both sides of the 8-bit range, some equal modulo 256"""
    f = lambda i: i if i <= at else i + k
    g = lambda s: (f(s[0]), s[1])
    assert N.kind == 'aig' and list(N.cis) == list(range(1, len(N.cis) + 1))
    nodes = [x if x[0] != 'g' else ('g', x[1], tuple(map(g, x[2]))) for x in N.nodes]
    return Net('aig', nodes[:at + 1] + [('pi',)] * k + nodes[at + 1:], map(g, N.pos), map(g, N.ris), range(1, len(N.cis) + k + 1))
