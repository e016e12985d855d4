"""C30 depth views know the level of every node the outputs depend on and the depth of the network."""
from engine.evalm import Outside
from rules.xl import *
from engine.machine import *
from rules.c29 import shuffled, marks, visited, trav_id, incr, set_visited

LEVEL = 'bounded'
MIN_DECIDED = 100
Q = NS + 'depth_view::'
VIEW = ('update_levels', 'compute_levels', 'level', 'depth', 'create_po', 'on_add', 'resize_levels', 'set_level', 'set_depth')


def own(d):
    c = d.get('cls') or ''
    return c.split('<')[0].endswith('depth_view') and d['n'] in VIEW


class DepthFrame(Frame_):
    def apply(self, e):
        if e.kind == 'push' and '_events' in show(e.name):
            self.log.append(('registers', []))
            return
        super().apply(e)

    def net(self, loc, store=None):
        # the maps of the view refer to the view itself
        if isinstance(loc, Term) and loc.op in ('ld', 'fld') and show(loc).split("'")[0].endswith('.ntk'):
            loc = THIS
        return super().net(loc, store)

    def cell_of(self, loc):
        if isinstance(loc, Term) and show(loc).split("'")[0].endswith('.ntk') and THIS in self.nets:
            loc = THIS
        return super().cell_of(loc)


def machine(ctx, P):
    M = Machine(ctx, P, [Q + n for n in ('depth_view',) + VIEW], keep=own, frame=DepthFrame)
    M.need('depth_view', 'update_levels', 'compute_levels', 'level', 'depth')
    M.queries = {'visited': visited, 'trav_id': trav_id}
    M.calls = {'incr_trav_id': incr, 'set_visited': set_visited}
    M.ctors = {}
    for fid, m in M.byfid.items():
        if short(m.f['decl']['qn']) == 'depth_view':
            M.ctors[len(m.params), P.ty(m.f['p'][0]['t']).split('<')[0].split('::')[-1]] = m
    return M


def blank():
    return rec(NS + 'depth_view', _ps=rec('ps', count_complements=0), _depth=0, _cost_fn=rec('unit_cost'), _handle=None,
               _levels=rec('node_map', ntk=None, data=None), _crit_path=rec('node_map', ntk=None, data=None))


def levels(N, cc, tops):
    lv = {}

    def go(i):
        if i not in lv:
            x = N.nodes[i]
            lv[i] = 0 if x[0] != 'g' else 1 + max([go(j) + (c if cc else 0) for j, c in x[2]])
        return lv[i]
    d = 0
    for i, c in tops:
        d = max(d, go(i) + (c if cc else 0))
    return lv, d


def build(M, N, rnd, cc):
    tid = rnd.randrange(3, 9)
    m = M.ctors[3, 'aig_network']
    M.start(blank(), {}, {'src': marks(N, [rnd.randrange(tid + 1) for _ in N.nodes], tid)})
    M.call(m, [None, rec('unit_cost'), rec('ps', count_complements=cc)], {0: 'src'})


def told(M, N, cc, tops, what):
    """'' when level and depth report what they should"""
    lv, d = levels(N, cc, tops)
    for i in sorted(lv):
        r, _ = M.call('level', [i])
        if r != lv[i]:
            return f'{what}, level({i}) is {r}, expected {lv[i]}'
    r, _ = M.call('depth', [])
    if r != d:
        return f'{what}, depth is {r}, expected {d}'
    if M.asserts:
        return f'the assertion {M.asserts[0][0]} fails'
    return ''


def current(M):
    c = M.netlocs[THIS]
    n = M.store[c]
    while isinstance(n, View):
        c, n = n.base, M.store[n.base]
    return c, n


def check(M, N, rnd, cc, what):
    try:
        build(M, N, rnd, cc)
        why = told(M, N, cc, N.pos, 'after construction')
        if why or what == 'build':
            return why
        c, N = current(M)
        if what == 'update':
            # the outputs change behind the view; the levels are recomputed on request
            D = N.but(pos=tuple((rnd.randrange(len(N.nodes)), rnd.randrange(2)) for _ in range(2)))
            M.store[c] = D
            M.call('update_levels', [])
            return told(M, D, cc, D.pos, 'after update_levels')
        if what == 'add':
            D = N
            known = set(levels(D, cc, D.pos)[0])
            for _ in range(3):
                k = sorted(known)
                a, b = rnd.choice(k), rnd.choice(k)
                if a == b or 0 in (a, b):
                    continue
                D, s = D.add(('g', 'and', tuple(sorted(((a, rnd.randrange(2)), (b, rnd.randrange(2)))))))
                D = D.but()
                D.vis = list(D.vis) + [0] * (len(D.nodes) - len(D.vis))
                M.store[c] = D
                M.call('on_add', [s[0]])
                known.add(s[0])
            lv = levels(D, cc, [(i, 0) for i in known])[0]
            for i in sorted(known):
                r, _ = M.call('level', [i])
                if r != lv[i]:
                    return f'after gates are added, level({i}) is {r}, expected {lv[i]}'
            if cc:
                return ''
            for _ in range(2):
                f = rnd.choice(sorted(known)), rnd.randrange(2)
                D = D.but(pos=D.pos + (f,))
                d0, _ = M.call('depth', [])
                M.call('create_po', [D.out(f), ''])
                c, E = current(M)
                if E.pos != D.pos:
                    return 'create_po does not add the output'
                r, _ = M.call('depth', [])
                if r != max(d0, lv[f[0]]):
                    return f'after the output {f} is added, depth is {r}, expected {max(d0, lv[f[0]])}'
            return ''
    except (Damage, Outside) as x:
        return str(x)


def copied(M, N, rnd):
    """a copy has the levels of the original and does not share them"""
    try:
        build(M, N, rnd, 0)
        m = M.ctors.get((1, 'depth_view'))
        first = M.store['this']
        lv, d = levels(N, 0, N.pos)
        R0, l0 = dict(M.store), dict(M.netlocs)
        p = m.params[0]
        M.store['this'] = blank()
        M.store['other'] = first
        old = M.frame

        class F(old):
            def __init__(s, I, cells, roots, nets, **k):
                if I is m.I:
                    roots = {**roots, p: 'other'}
                    nets = {**nets, p: l0[THIS]}
                super().__init__(I, cells, roots, nets, **k)
        M.frame = F
        M.netlocs = {}
        try:
            M.call(m, [first], {})
        finally:
            M.frame = old
        if THIS not in M.netlocs:
            M.netlocs[THIS] = l0[THIS]
        why = told(M, N, 0, N.pos, 'in a copy')
        if why:
            return why
        a, b = first[2]['_levels'][2]['data'], M.store['this'][2]['_levels'][2]['data']
        if a == b:
            return 'a copy shares its levels with the original'
        return ''
    except (Damage, Outside) as x:
        return str(x)


def registration(ctx, M, P):
    """every constructor registers the view for added nodes, and the registered function updates the view"""
    for (n, t), m in sorted(M.ctors.items()):
        name = f'depth_view({t}, ...)'
        ev = [e for e in m.I.events if e.kind == 'push' and show(e.name).endswith('.on_add')]
        sure = [e for e in ev if e.guard is TRUE]
        if not sure:
            ctx.viol('register', name, loc(m.f), 'the view is not told about added nodes' if not ev else 'the view is told about added nodes only on some paths')
            continue
        lam = sure[0].args[0]
        if not (isinstance(lam, Term) and lam.op == 'lam'):
            ctx.undecided('register', name, 'registered function')
            continue
        body = str(m.I.lams[lam.args[0]].node)
        fids = {fid for fid, f in P.fns.items() if f['decl']['qn'] == Q + 'on_add'}
        ctx.ok('register', name, 1) if any(f"'fn': {fid}" in body or f'"fn": {fid}' in body for fid in fids) else ctx.viol('register', name, loc(m.f), 'the registered function does not update the view')


def run(ctx):
    P = ctx.prog('ops')
    big = ctx.tier == 'thorough'
    ctx.rule('levels', 'composed transfer functions of depth_view on finite networks: level is the longest path from the inputs, depth the deepest output, after construction, update, additions and copies')
    ctx.rule('register', 'every constructor registers the view for added nodes on all paths')
    M = machine(ctx, P)
    registration(ctx, M, P)
    rnd = random.Random(301)
    cs = []
    for i in range(600 if big else 150):
        N = rnd_aig(rnd, rnd.choice((1, 2, 3)), rnd.randrange(1, 9))
        if i % 3 == 0:
            N = shuffled(rnd, N)
        for what in ('build', 'update', 'add'):
            cs.append((what, N, i % 2))
        cs.append(('copy', N, 0))
    for N in wide_aigs():
        for what in ('build', 'update', 'add'):
            cs += [(what, N, 0), (what, N, 1)]

    def cases():
        for k, (what, N, cc) in enumerate(cs):
            f = (lambda N=N, k=k: copied(M, N, random.Random(k))) if what == 'copy' else (lambda N=N, k=k, cc=cc, what=what: check(M, N, random.Random(k), cc, what))
            yield 'depth_view ' + what, N.show() + (', counting complements' if cc else ''), f
    ok, bad, und = sweep(cases)
    at = {'build': 'compute_levels', 'update': 'update_levels', 'add': 'on_add' if 'on_add' in M.fns else 'compute_levels', 'copy': 'depth_view'}
    for what, n in at.items():
        report(ctx, 'levels', 'depth_view ' + what, loc(M.fns[n].f), ok, bad, und)
