"""C26 the mapper covers the network with LUTs that compute the functions of their roots."""
from rules.c25 import *
from rules.c29 import marks, visited, set_visited, change

LEVEL = 'bounded'
MIN_DECIDED = 30
KI = NS + 'detail::klut_mapping_impl::'
OWN = 'run init_parameters perform_mapping perform_mapping_round perform_mapping_and perform_mapping_and_choice compute_required_times mark_current_mapping_rec ' \
      'mark_ref_rec derive_final_mapping lut_area cut_delay cut_area_deref cut_area_ref cut_area_derefed cut_edge_deref cut_edge_ref cut_edge_derefed ' \
      'cut_area_flow cut_edge_flow merge_cuts compute_truth_table topologize dfs_topo_sort_rec clear_refs reset_refs'.split()
NULL = 0x7fffffffffffffff
BIG = 3.4028234663852886e+38
TRUST = (NS + 'aig_network::compute', NS + 'mapping_view::add_to_mapping', NS + 'mapping_view::set_cell_function')


def q(name):
    def h(f):
        QUERIES[name] = lambda R, N, view, a: f(N, R.nodeno(N, a[0]))
        return f
    return h


QUERIES = {'visited': visited}


@q('get_equiv_node')
def equiv(N, i):
    return N.eq[i]


@q('phase')
def phase(N, i):
    """value under the all-zero pattern, as choice_computation stores it"""
    return N.ph[i]


@q('is_repr')
def is_repr(N, i):
    return N.eq[i] != NULL and N.fo[i] > 0


def child(k):
    def h(R, N, view, a):
        i = R.nodeno(N, a[0])
        x = N.nodes[i]
        if x[0] == 'g':
            return N.out(x[2][k])
        d = N.cis.index(i) if i in N.cis else 0
        return N.out((d >> 1, d & 1))
    return h


def clear_visited(R, loc, a):
    def f(M):
        M.vis = [0] * len(M.nodes)
    change(R, loc, f)


def to_mapping(R, e):
    N = R.base(e.locs[0] if getattr(e, 'locs', None) and e.locs[0] is not None else e.args[0], R.cur)
    i = R.nodeno(N, R.val(e.args[1]))
    R.machine.cover.append([i, seq(R, R.val(e.args[2]), R.val(e.args[3])), None])


def to_function(R, e):
    N = R.base(e.locs[0] if getattr(e, 'locs', None) and e.locs[0] is not None else e.args[0], R.cur)
    i = R.nodeno(N, R.val(e.args[1]))
    for c in R.machine.cover:
        if c[0] == i:
            c[2] = R.val(e.args[2])
            return
    raise Damage(f'a function is stored for the node {i}, which is no cell')


def choices(rnd, N, many):
    """add nodes that compute the function of an existing gate (or its complement) and list them as its choices"""
    N.eq = None
    classes = {}
    base = list(N.gates())
    for _ in range(many):
        r = rnd.choice(base)
        k = len(N.cis)
        ts = N.tts()
        full = (1 << (1 << k)) - 1
        tfi = cone(N, [r])
        below = [i for i in range(len(N.nodes)) if i not in cone_up(N, r, classes) and N.nodes[i][0] != 'c']
        sigs = [(i, c) for i in below for c in (0, 1)]
        # an AND gate of two existing signals, or two levels, with the function of r
        found = None
        for t in range(400):
            a, b = rnd.choice(sigs), rnd.choice(sigs)
            if a[0] == b[0]:
                continue
            M = N
            va, vb = ts[a[0]] ^ (full if a[1] else 0), ts[b[0]] ^ (full if b[1] else 0)
            v = va & vb
            if v in (ts[r], ts[r] ^ full) and tuple(sorted((a, b))) not in [tuple(sorted(x[2])) for x in N.nodes if x[0] == 'g']:
                found = [(a, b)]
                break
            c = rnd.choice(sigs)
            cc = rnd.randrange(2)
            v2 = (v ^ (full if cc else 0)) & (ts[c[0]] ^ (full if c[1] else 0))
            if c[0] not in (a[0], b[0]) and v not in ts.values() and v ^ full not in ts.values() and v2 in (ts[r], ts[r] ^ full):
                found = [(a, b), (('x', cc), c)]
                break
        if not found:
            continue
        last = None
        for a, b in found:
            a = (last, a[1]) if a[0] == 'x' else a
            N, s = N.add(('g', 'and', tuple(sorted((a, b)))))
            last = s[0]
        classes.setdefault(r, []).append(last)
    return N, classes


def cone(N, roots):
    seen, st = set(), list(roots)
    while st:
        i = st.pop()
        if i in seen:
            continue
        seen.add(i)
        if N.nodes[i][0] == 'g':
            st += [j for j, _ in N.nodes[i][2]]
    return seen


def cone_up(N, r, classes):
    """nodes that reach r through fan-ins or through the choices of their fan-ins"""
    up = {r} | set(classes.get(r, ()))
    while True:
        more = {i for i, x in enumerate(N.nodes) if i not in up and (x[0] == 'g' and any(j in up for j, _ in x[2]) or any(c in up for c in classes.get(i, ())))}
        if not more:
            return up
        up |= more


def with_choices(rnd, N, many):
    N, classes = choices(rnd, N, many)
    n = len(N.nodes)
    M = N.but()
    M.eq = [NULL] * n
    for r, l in classes.items():
        at = r
        for c in l:
            M.eq[at] = c
            at = c
    M.ph = [int(t & 1) for _, t in sorted(N.tts().items())]
    M.fo = [0] * n
    for x in N.nodes:
        if x[0] == 'g':
            for j, _ in x[2]:
                M.fo[j] += 1
    for j, _ in N.pos:
        M.fo[j] += 1
    M.classes = classes
    return M


def covers(N, cells, size):
    """'' or what is wrong with the cells"""
    g, k = globals_of(N)
    roots = {}
    for i, ls, t in cells:
        if i in roots:
            return f'the node {i} is mapped twice'
        if not isinstance(i, int) or N.nodes[i][0] != 'g':
            return f'the node {i} is mapped, which is no gate'
        if not all(isinstance(l, int) and 0 <= l < len(N.nodes) for l in ls) or len(set(ls)) != len(ls):
            return f'the cell of node {i} has the leaves {ls}'
        if not 1 <= len(ls) <= size:
            return f'the cell of node {i} has {len(ls)} leaves, at most {size} are allowed'
        roots[i] = ls
        if t is None or t[1] != len(ls):
            return f'the cell of node {i} has no function over its {len(ls)} leaves'
        if of_leaves(t, ls, g, k) != g[i]:
            return f'the cell of node {i} over {ls} has the function {t[2]:x}, which is not the function of the node'
    for j, _ in N.pos:
        if N.nodes[j][0] == 'g' and j not in roots:
            return f'the gate {j} drives an output and is not mapped'
    for i, ls in roots.items():
        for l in ls:
            if N.nodes[l][0] == 'g' and l not in roots:
                return f'the leaf {l} of the cell of node {i} is a gate without a cell'
    # acyclic
    state = {}

    def walk(i):
        if state.get(i) == 1:
            return False
        if state.get(i) == 2 or i not in roots:
            return True
        state[i] = 1
        if not all(walk(l) for l in roots[i]):
            return False
        state[i] = 2
        return True
    if not all(walk(i) for i in roots):
        return 'the cells form a cycle'
    return ''


def params(size, limit, mini, flow, area):
    return rec('ps', cut_enumeration_ps=rec('ceps', cut_size=size, cut_limit=limit, fanin_limit=10, minimize_truth_table=mini, verbose=False, very_verbose=False),
               bPreprocess=True, bArea=False, bEdge=True, bPower=False, bFancy=False, bZeroGain=True, uFlowIters=flow, uAreaIters=area, eSortMode=0, eCutMode=0,
               bUseLutLib=False, iDelayTraget=-1, fAndDelay=1.0, fAndArea=1.0, fEpsilon=0.005, bDebug=False, verbose=False)


def mapping(M, N, size, limit, mini, flow, area, more=0):
    n = len(N.nodes)
    sets = [set_value(Ptr('impl', ('_cut_network', '_cuts', i)), (), M.room, 0, data()) for i in range(n)]
    nc = rec('network_cuts', _cuts=sets, _best_cuts=[cut_value(Ptr('impl', ('_cut_network', '_best_cuts', i)), (), data()) for i in range(n)],
             _truth_tables=cache_value(more), _total_tuples=0, _total_cuts=0)
    M.start({'ntk': marks(N, [0] * n, 0), 'ps': params(size, limit, mini, flow, area), 'st': rec('st', delay=0.0, area=0.0, edge=0.0),
             'stg': rec('stg', topo_order=[0] * n, topo_order_reverse=[0] * n, arrival_times=[-1.0] * n, require_times=[BIG] * n, est_refs=[0.0] * n,
                        refs=[0] * n, visits=[0] * n, visits_copy=[0] * n, delay_current=0.0, area_current=0.0, required_glo=0.0, area_glo=0.0, power_glo=0.0, edge_size=0),
             'impl': rec('impl', _ntk=NetRef('ntk'), _storage=Ptr('stg'), _ps=Ptr('ps'), _st=Ptr('st'), _cut_network=nc, _lcuts=[Undef] * 3)})
    M.cover = []
    M.ocall('run', Ptr('impl'), [])
    if M.asserts:
        return f'the assertion {M.asserts[0]} fails'
    return covers(N, M.cover, size)


def machine(ctx, P):
    pick = lambda f: 'general_cut_data' in (f['decl'].get('cls') or '') or not re.search(r'cut', (f['decl'].get('cls') or 'cut').split('<')[0])
    M = OMachine(ctx, P, [KI + n for n in OWN] + [CUT + n for n in ('merge', 'set_leaves', 'operator=', 'cut')] + [SET + n for n in ('add_cut', 'is_dominated', 'insert', 'limit', 'clear', 'resize')] +
                 [NC + n for n in ('add_unit_cut', 'add_zero_cut', 'compute_truth_table_support', 'incre_total_tuples', 'incre_total_cuts', 'set_best_cut', 'insert_truth_table', 'truth_table')] +
                 [TTC + n for n in ('insert', 'operator[]')], pick=pick, opaque=set(TRUST))
    M.need('run', 'insert')
    M.queries.update(QUERIES)
    M.queries['get_child0'], M.queries['get_child1'] = child(0), child(1)
    M.calls.update(set_visited=set_visited, clear_visited=clear_visited)
    M.algos[TRUST[0]] = aig_compute
    M.algos[TRUST[1]] = to_mapping
    M.algos[TRUST[2]] = to_function
    cls = [f['decl']['cls'] for f in P.find(SET + 'insert') if pick(f)]
    M.room = int(cls[0].rstrip('> ').split(',')[-1])
    return M


def distinct(N):
    """no gate is constant or equal to another node (its choices apart): minimised tables keep at least two leaves"""
    ts = N.tts()
    full = (1 << (1 << len(N.cis))) - 1
    ch = {c for l in N.classes.values() for c in l}
    fs = [min(t, t ^ full) for i, t in ts.items() if i not in ch]
    return len(set(fs)) == len(fs)


def tree(rnd, n):
    """a random tree of AND gates over n inputs: the cut of all leaves is wide"""
    nodes = [('c', 0)] + [('pi',)] * n
    sigs = list(range(1, n + 1))
    while len(sigs) > 1:
        a, b = sorted(sigs.pop(rnd.randrange(len(sigs))) for _ in range(2))
        nodes.append(('g', 'and', ((a, rnd.randrange(2)), (b, rnd.randrange(2)))))
        sigs.append(len(nodes) - 1)
    return Net('aig', nodes, [(sigs[0], rnd.randrange(2))], [], list(range(1, n + 1)))


def map_rule(ctx, P):
    M = machine(ctx, P)
    rnd = random.Random(28)
    cs = []
    for i in range(240 if ctx.tier == 'thorough' else 48):
        wide = i % 8 == 7
        N = tree(rnd, rnd.randrange(6, 8)) if wide else rnd_aig(rnd, rnd.randrange(2, 5), rnd.randrange(2, 8))
        N = with_choices(rnd, N, 0 if wide else i % 4)
        cs.append((N, 6 if wide else rnd.randrange(2, 7), rnd.choice((6, 8)), i % 2 and distinct(N), rnd.randrange(1, 3), rnd.randrange(1, 3), 300 if i % 7 == 3 else 0))
    # nodes with more cuts than a cut set has room for, under the largest limit the shell accepts
    for i in range(8 if ctx.tier == 'thorough' else 2):
        cs.append((with_choices(rnd, tree(rnd, 11 + i % 2), 0), 6, 20, False, 1, 1, 0))
    for N in itertools.islice(wide_aigs(), 2):
        cs.append((with_choices(rnd, N, 0), 4, 4, False, 1, 1, 0))

    def cases():
        for N, *a in cs:
            yield 'mapping', f'gates {with_nodes(N)}, outputs {N.pos}, choices {N.classes}, at most {a[0]} leaves and {a[1]} cuts, {a[3]} flow and {a[4]} area rounds' + (', tables minimised' if a[2] else ''), \
                lambda N=N, a=a: guarded(lambda: mapping(M, N, *a))
    ok, bad, und = sweep(cases)
    report(ctx, 'cover', 'mapping', loc(M.fns['run'].f), ok, bad, und)


MV = NS + 'mapping_view::'
VIEW = ('add_to_mapping', 'set_cell_function', 'cell_function', 'is_cell_root', 'has_mapping', 'num_cells', 'remove_from_mapping', 'foreach_cell_fanin')


class Here:
    def __init__(self, M):
        self.cur = dict(M.store)


def viewed(M, n, ops, more=0):
    """the view after every prefix of ops, against a dictionary"""
    v = Ptr('view')
    M.start({'mst': rec('mst', mappings=[0] * n, mapping_size=0, functions=[0] * n, cache=cache_value(more)),
             'view': rec('mapping_view', _mapping_storage=Ptr('mst'))})
    cells = {}
    for step, (op, i, leaves, t) in enumerate(ops):
        if op == 'add':
            M.start({**M.store, 'l': list(leaves)})
            M.ocall('add_to_mapping', v, [i, Ptr('l', (0,)), Ptr('l', (len(leaves),))])
            M.ocall('set_cell_function', v, [i, t])
            cells[i] = list(leaves), t
        elif ('remove_from_mapping', 1) in M.fns:
            M.ocall('remove_from_mapping', v, [i])
            cells.pop(i, None)
        if len(ops) > 50 and step + 2 < len(ops) and step % 90:
            continue
        for name, want in (('has_mapping', bool(cells)), ('num_cells', len(cells))):
            if (name, 0) in M.fns:
                r = M.ocall(name, v, [])
                if r != want:
                    return f'{name} is {r} with the cells {sorted(cells)}'
        for j in range(1, n):
            r = M.ocall('is_cell_root', v, [j])
            if bool(r) != (j in cells):
                return f'is_cell_root({j}) is {bool(r)} with the cells {sorted(cells)}'
            if j not in cells:
                continue
            got = []
            M.ocall('foreach_cell_fanin', v, [j, ('fn', Here(M), lambda *a: got.append(a[0]))])
            if got != cells[j][0]:
                return f'the leaves of the cell {j} are {got}, {cells[j][0]} were mapped'
            r = M.ocall('cell_function', v, [j])
            if r != cells[j][1]:
                return f'the function of the cell {j} is {r}, {cells[j][1]} was stored'
    return ''


def view_rule(ctx, P):
    def pick(f):
        pt = [P.ty(p['t']) for p in f['p']]
        return 'mapping_view' not in (f['decl'].get('cls') or '') or not (pt and 'mapping_view<' in pt[0])
    M = OMachine(ctx, P, [MV + n for n in VIEW] + [TTC + n for n in ('insert', 'operator[]')], pick=pick, keep=lambda d: 'mapping_view' in (d.get('cls') or ''))
    M.need('add_to_mapping', 'is_cell_root', 'foreach_cell_fanin')
    rnd = random.Random(29)
    cs = []
    for i in range(400 if ctx.tier == 'thorough' else 60):
        n = rnd.randrange(4, 12)
        ops = []
        for _ in range(rnd.randrange(1, 7)):
            k = rnd.randrange(1, min(n, 9))
            ops.append(('add' if rnd.random() < .8 else 'remove', rnd.randrange(1, n), tuple(rnd.sample(range(n), k)), ('tt', k, rnd.randrange(1 << (1 << k)))))
        cs.append((n, ops, 300 if i % 3 == 1 else 0))
    # more than 256 nodes, leaves and cells
    ops = [('add', i, tuple(rnd.sample(range(600), 4)), ('tt', 4, rnd.randrange(1 << 16))) for i in rnd.sample(range(1, 600), 280)]
    cs.append((600, ops + [('add', ops[0][1], (1, 257), ('tt', 2, 8)), ('remove', ops[5][1], (), None)], 300))

    def cases():
        for n, ops, more in cs:
            yield 'mapping_view', f'{[(o, i) + ((l, f"{t[2]:x}") if o == "add" else ()) for o, i, l, t in ops]} on {n} nodes', lambda n=n, ops=ops, more=more: guarded(lambda: viewed(M, n, ops, more))
    ok, bad, und = sweep(cases)
    report(ctx, 'cells', 'mapping_view', loc(M.fns['add_to_mapping'].f), ok, bad, und)


def run(ctx):
    P = ctx.prog('ops')
    ctx.rule('cover', 'transfer functions of klut_mapping on small networks with and without choices: the cells cover every output gate and every leaf gate, have at most cut_size leaves, form no cycle and their tables are the functions of their roots')
    map_rule(ctx, P)
    ctx.rule('cells', 'transfer functions of mapping_view: after any sequence of insertions and removals exactly the mapped nodes are cell roots, with the leaves and the function stored last')
    view_rule(ctx, P)
