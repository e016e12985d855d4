"""C29 topological views list every node the outputs depend on exactly once, fan-ins first."""
from engine.evalm import Outside
from rules.xl import *
from engine.machine import *
from engine.evalm import plain

LEVEL = 'bounded'
MIN_DECIDED = 300
Q = NS + 'topo_view::'
VIEW = ('update_topo', 'create_topo_rec', 'foreach_node', 'foreach_gate', 'foreach_po', 'size', 'num_gates', 'num_pos', 'index_to_node', 'node_to_index')


def own(cls):
    return lambda d: 'topo_view' in (d.get('cls') or '')


def marks(N, vis, tid):
    M = N.but()
    M.vis, M.tid = list(vis), tid
    return M


def visited(R, N, view, args):
    return N.vis[R.nodeno(N, args[0])]


def trav_id(R, N, view, args):
    return N.tid


def change(R, loc, f):
    c = R.cell_of(loc)
    while isinstance(R.cur[c], View):
        c = R.cur[c].base
    N = R.cur[c]
    M = N.but()
    f(M)
    R.cur = {**R.cur, c: M}


def incr(R, loc, args):
    def f(M):
        M.tid += 1
    change(R, loc, f)


def set_visited(R, loc, args):
    def f(M):
        M.vis = list(M.vis)
        M.vis[R.nodeno(M, args[0])] = args[1]
    change(R, loc, f)


@pure
def find(R, args):
    b, e, x = args
    l = R.res_list(b)
    k = [plain(y) for y in l[b[2]:e[2]]].index(plain(x)) if plain(x) in [plain(y) for y in l[b[2]:e[2]]] else e[2] - b[2]
    return ('it', b[1], b[2] + k)


@pure
def distance(R, args):
    return args[1][2] - args[0][2]


class TopoFrame(Frame_):
    def res_list(self, it):
        c, ks = self.place(it[1])
        v = self.cur[c]
        for k in ks:
            v = v[2][k]
        return v


def machine(ctx, P, ntk):
    def pick(f):
        c = f['decl'].get('cls') or ''
        if 'topo_view<' not in c or not (c.endswith(f'<{ntk}>') or c.endswith(f'::{ntk}>')):
            return False
        pt = [P.ty(p['t']) for p in f['p']]
        return not (f['decl']['n'].startswith('foreach') and 'drv/ops.cpp' not in pt[0])
    M = Machine(ctx, P, [Q + n for n in ('topo_view',) + VIEW], pick=pick, keep=own(None), frame=TopoFrame)
    M.need('topo_view', 'update_topo', 'create_topo_rec')
    M.queries = {'visited': visited, 'trav_id': trav_id}
    M.calls = {'incr_trav_id': incr, 'set_visited': set_visited}
    M.contracts = {'find': find, 'distance': distance}
    return M


def view(M, N, tid, vis, start=None):
    M.start(rec(NS + 'topo_view', topo_order=[], start_signal=('nullopt',)), {}, {'src': marks(N, vis, tid)})
    M.call('topo_view', [None] + ([N.out(start)] if start else []), {0: 'src'})
    return M.store['this'][2]['topo_order']


def logged(M, name):
    got = []
    frame = M.frame

    class F(frame):
        def apply(self, e):
            n = len(self.log)
            super().apply(e)
            got.extend(self.log[n:])
    M.frame = F
    try:
        M.call(name, [None])
    finally:
        M.frame = frame
    return [a for w, a in got]


def check(M, N, rnd, start=None):
    tid = rnd.randrange(3, 9)
    vis = [rnd.randrange(tid + 1) for _ in N.nodes]
    try:
        order = view(M, N, tid, vis, start)
        if M.asserts:
            return f'the assertion {M.asserts[0][0]} fails'
        if not all(isinstance(i, int) for i in order):
            raise Unknown('order of the nodes')
        consts = [i for i, n in enumerate(N.nodes) if n[0] == 'c']
        head = consts + list(N.cis)
        if order[:len(head)] != head:
            return f'the order {order} does not begin with the constants and the inputs {head}'
        tops = [start] if start else list(N.pos + N.ris)
        outs = [start] if start else list(N.pos)
        need, todo = set(), [i for i, _ in tops]
        while todo:
            i = todo.pop()
            if i in need or N.nodes[i][0] != 'g':
                continue
            need.add(i)
            todo += [j for j, _ in N.nodes[i][2]]
        body = order[len(head):]
        if len(set(body)) != len(body) or set(body) != need:
            return f'the gates {body} are visited, the outputs depend on {sorted(need)}'
        seen = set(head)
        for i in body:
            if any(j not in seen for j, _ in N.nodes[i][2]):
                return f'node {i} comes before one of its fan-ins in {order}'
            seen.add(i)
        # what the view reports
        st = dict(M.store), dict(M.netlocs)
        for what, want in (('size', len(order)), ('num_gates', len(body)), ('num_pos', len(outs))):
            if what not in M.fns:
                continue
            r, _ = M.call(what, [])
            if r != want:
                return f'{what} is {r}, expected {want}'
        for k, i in enumerate(order):
            for what, a, want in (('index_to_node', k, i), ('node_to_index', i, k)):
                if what in M.fns and (k < 3 or k > len(order) - 3):
                    r, _ = M.call(what, [a])
                    if r != want:
                        return f'{what}({a}) is {r}, expected {want}'
        for what, want in (('foreach_node', order), ('foreach_gate', body), ('foreach_po', [plain(N.out(s)) for s in outs])):
            if what in M.fns:
                got = logged(M, what)
                if [plain(a[0]) for a in got] != list(want):
                    return f'{what} visits {[plain(a[0]) for a in got]}, expected {list(want)}'
                if any(len(a) > 1 and a[1] != k for k, a in enumerate(got)):
                    return f'{what} hands out the indices {[a[1] for a in got]}'
        M.call('update_topo', [])
        again = M.store['this'][2]['topo_order']
        if again != order:
            return f'after another update_topo the order is {again}, expected {order}'
        if M.asserts:
            return f'the assertion {M.asserts[0][0]} fails'
    except (Damage, Outside) as x:
        return str(x)
    return ''


def shuffled(rnd, N):
    """the same network with its gates numbered in another order"""
    g = N.gates()
    p = list(g)
    rnd.shuffle(p)
    m = {i: i for i in range(len(N.nodes))}
    m.update(dict(zip(g, p)))
    nodes = list(N.nodes)
    for i in g:
        x = N.nodes[i]
        nodes[m[i]] = ('g', x[1], tuple((m[j], c) for j, c in x[2]))
    return Net(N.kind, nodes, [(m[i], c) for i, c in N.pos], [(m[i], c) for i, c in N.ris], N.cis)


def run(ctx):
    P = ctx.prog('ops')
    big = ctx.tier == 'thorough'
    ctx.rule('order', 'composed transfer functions of topo_view on finite networks: constants, inputs, then exactly the needed gates, fan-ins first; the queries and iterations agree with that order')
    A = machine(ctx, P, 'aig_network')
    K = machine(ctx, P, 'klut_network')
    rnd = random.Random(291)
    cs = []
    for i in range(900 if big else 200):
        N = rnd_aig(rnd, rnd.choice((1, 2, 3)), rnd.randrange(8), nro=(0, 0, 0, 1, 2)[i % 5])
        if i % 2:
            N = shuffled(rnd, N)
        cs.append(('topo_view<aig_network>', A, N, None))
        if i % 3 == 0:
            j = rnd.randrange(len(N.nodes))
            cs.append(('topo_view<aig_network>', A, N, (j, rnd.randrange(2))))
    for nro in (0, 1):
        for N in wide_aigs(nro):
            cs += [('topo_view<aig_network>', A, N, None), ('topo_view<aig_network>', A, shuffled(rnd, N), (len(N.nodes) - 1, 1))]
    cs += [('topo_view<klut_network>', K, N, None) for N in wide_kluts()]
    for i in range(500 if big else 120):
        N = rnd_klut(rnd, rnd.choice((1, 2, 3)), rnd.randrange(7), trivial=i % 2 == 0)
        cs.append(('topo_view<klut_network>', K, shuffled(rnd, N) if i % 3 else N, None))

    def cases():
        for k, (what, M, N, s) in enumerate(cs):
            yield what, N.show() + (f', start {s}' if s else ''), lambda M=M, N=N, s=s, k=k: check(M, N, random.Random(k), s)
    ok, bad, und = sweep(cases)
    report(ctx, 'order', 'topo_view<aig_network>', loc(A.fns['update_topo'].f), ok, bad, und)
    report(ctx, 'order', 'topo_view<klut_network>', loc(K.fns['update_topo'].f), ok, bad, und)
