"""C25 enumerated cuts are cuts of their node and carry the function of their cone."""
import re
from rules.cuts import *

LEVEL = 'bounded'
MIN_DECIDED = 100
CUT = NS + 'cut::'
SET = NS + 'cut_set::'
KINDS = {'cut_enumeration_rewrite_cut': 'rewriting', 'general_cut_data': 'mapping'}


def instance(kind):
    return lambda f: kind in (f['decl'].get('cls') or '') or not (f['decl'].get('cls') or '').startswith(NS + 'cut')


def data(k=0):
    return rec('cut_data', func_id=k, data=rec('data', gain=-1, delay=float(k % 3), area=float(k % 2), edge=0.0, power=0.0, useless=0))


# ---------------------------------------------------------------- single cuts
def guarded(f):
    try:
        return f()
    except (Damage, Outside) as x:
        return str(x)


def holds(M, p, leaves, k, what):
    v = M.get(p)
    got = leaves_of(v, p)
    if got != list(leaves):
        return f'{what} has the leaves {got}, expected {list(leaves)}'
    if v[2]['_signature'] != sig(leaves):
        return f'{what} has the signature {v[2]["_signature"]:x}, expected {sig(leaves):x}'
    if k is not None and plain(v[2]['_data']) != plain(data(k)):
        return f'{what} has other data'
    return ''


def pair(M, A, B, n):
    a, b, r = Ptr('a'), Ptr('b'), Ptr('r')
    M.start({'a': cut_value(a, A, data(1)), 'b': cut_value(b, B, data(2)), 'r': cut_value(r, (), data(3))})
    ok = M.ocall('merge', a, [b, r, n])
    U = sorted(set(A) | set(B))
    if bool(ok) != (len(U) <= n):
        return f'merge of {list(A)} and {list(B)} with at most {n} leaves is {bool(ok)}'
    why = holds(M, r, U, None, f'the merge of {list(A)} and {list(B)}') if ok else ''
    why = why or holds(M, a, A, 1, 'the first cut') or holds(M, b, B, 2, 'the second cut')
    if why:
        return why
    for x, y, X, Y in ((a, b, A, B), (b, a, B, A)) if ('dominates', 1) in M.fns else ():
        d = M.ocall('dominates', x, [y])
        if bool(d) != (set(X) <= set(Y)):
            return f'{list(X)} dominates {list(Y)}: {bool(d)}'
    if ('operator=', 1) in M.fns:
        M.ocall(M.fns['operator=', 1], r, [a])
        return holds(M, r, A, 1, f'a copy of {list(A)}') or holds(M, a, A, 1, 'the copied cut')
    return ''


def single(M, A, old):
    a, c = Ptr('a'), Ptr('c')
    M.start({'a': cut_value(a, old, data(1)), 'c': list(A), 'd': cut_value(Ptr('d'), A, data(4)), 'n': rec('cut', _leaves=[Undef] * MAXL)})
    why = ''
    if ('set_leaves', 2) in M.fns:
        M.ocall('set_leaves', a, [Ptr('c', (0,)), Ptr('c', (len(A),))])
        why = holds(M, a, A, 1, f'a cut set to {list(A)}')
    if not why and M.copy is not None:
        M.ocall(M.copy, Ptr('n'), [Ptr('d')])
        why = holds(M, Ptr('n'), A, 4, f'a copy of {list(A)}') or holds(M, Ptr('d'), A, 4, 'the copied cut')
    return why


def cut_rule(ctx, P, kind, what):
    M = OMachine(ctx, P, [CUT + n for n in ('merge', 'dominates', 'set_leaves', 'operator=', 'cut')], pick=instance(kind))
    M.need('merge')
    M.copy = M.fns.get(('cut', 1))
    rnd = random.Random(25)
    uni = [1, 2, 3, 4, 65, 66, 129, 7, 8, 9, 10, 130, 11, 70]
    cs = []
    small = [c for k in range(4) for c in itertools.combinations((1, 2, 65), k)]
    cs += [(a, b, n) for a in small for b in small for n in (2, 4)]
    big = ctx.tier == 'thorough'
    for _ in range(1200 if big else 250):
        n = rnd.randrange(2, MAXL + 1)
        a, b = (tuple(sorted(rnd.sample(uni, rnd.randrange(n + 1)))) for _ in range(2))
        if rnd.random() < .3:
            b = tuple(sorted(set(a) | set(rnd.sample(uni, 1))))[:n]
        cs.append((a, b, n))

    def cases():
        for a, b, n in cs:
            yield f'{what} cuts', f'{list(a)} and {list(b)}, at most {n} leaves', lambda a=a, b=b, n=n: guarded(lambda: pair(M, a, b, n))
        for k in range(len(small)):
            for o in ((), (5, 9), (1, 2, 3, 4, 5, 6, 7)):
                yield f'{what} cuts', f'leaves {list(small[k])}', lambda k=k, o=o: guarded(lambda: single(M, small[k], o))
    ok, bad, und = sweep(cases)
    report(ctx, 'cut', f'{what} cuts', loc(M.fns['merge'].f), ok, bad, und)


# ---------------------------------------------------------------- sets of cuts
ROOM = 8
SETOPS = ('add_cut', 'is_dominated', 'insert', 'limit', 'update_best', 'resize', 'clear', 'best', 'size')


def entries(M, p, room):
    """the cuts of a set, in order; raises Damage when the set is inconsistent"""
    d = M.get(p)[2]
    n = d['_pend'].index()
    m = d['_pcend'].index()
    if n != m or n[0] != (p.cell, p.keys + ('_pcuts',)) or not 0 <= n[1] <= len(d['_pcuts']):
        raise Damage(f'the ends of the set ({d["_pcend"]}, {d["_pend"]}) are wrong')
    slots = [q.keys for q in d['_pcuts']]
    if len(set(slots)) != len(slots):
        raise Damage('two entries of the set share one cut')
    out = []
    for q in d['_pcuts'][:n[1]]:
        v = M.get(q)
        out.append((tuple(leaves_of(v, q)), v[2]['_data'], v[2]['_signature']))
    return out


def sets(M, cuts, new, size, idx):
    """cuts: [(leaves, data)]; every operation from the same set"""
    p, c = Ptr('s'), Ptr('c')
    n = len(cuts)
    want = [(tuple(a), plain(d), sig(a)) for a, d in cuts]
    key = tuple(new[0]), plain(new[1]), sig(new[0])

    def begin():
        v = set_value(p, cuts, M.room, n)
        M.start({'s': v, 'c': cut_value(c, *new), 'l': list(new[0])})

    def now():
        return [(a, plain(d), s) for a, d, s in entries(M, p, M.room)]
    begin()
    if ('is_dominated', 1) in M.fns:
        r = M.ocall('is_dominated', p, [c])
        if bool(r) != any(set(a) <= set(new[0]) for a, _ in cuts):
            return f'is_dominated is {bool(r)}'
        if now() != want:
            return 'is_dominated changes the set'
    # insertion
    M.ocall('insert', p, [c])
    keep = [x for x in want if not set(new[0]) <= set(x[0])]
    got = now()
    rest = list(got)
    if key in rest:
        rest.remove(key)
        if rest != keep and rest != keep[:-1]:
            return f'insert leaves {[x[0] for x in got]}'
        if rest != keep and len(keep) < M.room:
            return f'insert loses a cut: {[x[0] for x in got]}'
        i = got.index(key)
        less = M.order
        if any(less(got[j], key) for j in range(i + 1, len(got))) or any(less(key, got[j]) for j in range(i)):
            return f'insert puts the cut at position {i} of {[x[0] for x in got]}'
    elif len(keep) < M.room:
        return f'insert does not store the cut: {[x[0] for x in got]}'
    elif rest != keep:
        return f'insert of a cut that does not fit leaves {[x[0] for x in got]}'
    elif any(M.order(key, x) for x in keep):
        return 'insert drops a cut that is better than a stored one'
    why = holds(M, c, new[0], None, 'the inserted cut')
    if why:
        return why
    # the smaller operations
    if n < M.room and ('add_cut', 2) in M.fns:
        begin()
        M.ocall('add_cut', p, [Ptr('l', (0,)), Ptr('l', (len(new[0]),))])
        got = now()
        if got[:-1] != want or got[-1][0] != tuple(new[0]) or got[-1][2] != sig(new[0]):
            return f'add_cut leaves {[x[0] for x in got]}'
    if ('limit', 1) in M.fns:
        begin()
        M.ocall('limit', p, [size])
        got = now()
        if got != want[:len(got)] or len(got) > size or n <= size and len(got) != n or len(got) < min(n, size) - 1:
            return f'limit({size}) of {n} cuts leaves {len(got)}: {[x[0] for x in got]}'
    if idx < n and ('update_best', 1) in M.fns:
        begin()
        M.ocall('update_best', p, [idx])
        if now() != [want[idx]] + want[:idx] + want[idx + 1:]:
            return f'update_best({idx}) leaves {[x[0] for x in now()]}'
        if ('resize', 1) in M.fns:
            begin()
            M.ocall('resize', p, [idx])
            if now() != want[:idx]:
                return f'resize({idx}) leaves {[x[0] for x in now()]}'
    if ('clear', 0) in M.fns:
        begin()
        M.ocall('clear', p, [])
        if now():
            return 'clear leaves cuts'
    return ''


def set_rule(ctx, P, kind, what):
    M = OMachine(ctx, P, [SET + n for n in SETOPS], pick=instance(kind))
    M.need('insert')
    cls = M.fns['insert'].f['decl']['cls']
    M.room = int(cls.rstrip('> ').split(',')[-1])
    M.order = (lambda x, y: len(x[0]) < len(y[0])) if kind != 'general_cut_data' else (lambda x, y: rank(x) < rank(y))
    rnd = random.Random(26)
    cs = []
    for i in range(400 if ctx.tier == 'thorough' else 80):
        n = rnd.choice((1, 2, 3, 5, M.room - 1, M.room))
        cuts = []
        while len(cuts) < n:
            a = tuple(sorted(rnd.sample(range(1, 12), rnd.randrange(2, 5))))
            if not any(set(a) <= set(b) or set(b) <= set(a) for b, _ in cuts):
                cuts.append((a, data(rnd.randrange(9))))
        cuts.sort(key=lambda c: (len(c[0]) if kind != 'general_cut_data' else rank((c[0], plain(c[1])))))
        new = tuple(sorted(rnd.sample(range(1, 12), rnd.randrange(1, 5))))
        cs.append((cuts, (new, data(rnd.randrange(9))), rnd.randrange(2, n + 2), rnd.randrange(n)))

    def cases():
        for cuts, new, size, idx in cs:
            if any(set(a) <= set(new[0]) for a, _ in cuts) and rnd.random() < .5:
                continue
            yield f'{what} cut sets', f'{[list(a) for a, _ in cuts]}, new cut {list(new[0])}', lambda c=cuts, n=new, s=size, i=idx: guarded(lambda: sets(M, c, n, s, i))
    ok, bad, und = sweep(cases)
    report(ctx, 'set', f'{what} cut sets', loc(M.fns['insert'].f), ok, bad, und)


def rank(x):
    d = dict(dict(dict(x[1][1])['data'][1]))
    return d['delay'], len(x[0]), d['area']


# ---------------------------------------------------------------- enumeration over a network
IMPL = NS + 'detail::cut_enumeration_impl::'
NC = NS + 'network_cuts::'
TTC = NS + 'truth_table_cache::'
PROJ = ('tt', 1, 2)
ZERO = ('tt', 0, 0)


def aig_compute(R, e):
    """contract of the network (C10): the function of a gate over given tables of its fan-ins"""
    N = R.base(e.locs[0] if getattr(e, 'locs', None) and e.locs[0] is not None else e.args[0], R.cur)
    i = R.nodeno(N, R.val(e.args[1]))
    x = N.nodes[i]
    ts = seq(R, R.val(e.args[2]), R.val(e.args[3]))
    if x[0] != 'g' or len(ts) != len(x[2]) or len({t[1] for t in ts}) != 1:
        raise Damage(f'the function of node {i} is asked for {len(ts)} tables')
    n = ts[0][1]
    full = (1 << (1 << n)) - 1
    return ('tt', n, apply_fn(x[1], [t[2] ^ (full if c else 0) for t, (_, c) in zip(ts, x[2])], full))


def cache_value(more=0):
    """a cache that holds the constant and the projection, as the database of cuts is created, and more other functions (of six variables, no cut of the models has them)"""
    d = [ZERO, PROJ] + [('tt', 6, (0x1000000000000000 + i * 0x10001) << 1) for i in range(more)]
    return rec('truth_table_cache', _indexes={plain(t): i for i, t in enumerate(d)}, _data=d)


def lit_table(cache, lit):
    d = cache[2]['_data']
    if not isinstance(lit, int) or not 0 <= lit >> 1 < len(d):
        raise Damage(f'the cut names the table {lit}, {len(d)} are stored')
    t = d[lit >> 1]
    return p_not(None, [t]) if lit & 1 else t


def is_cut(N, root, leaves):
    st, seen = [root], set()
    while st:
        i = st.pop()
        if i in leaves or i in seen:
            continue
        seen.add(i)
        x = N.nodes[i]
        if x[0] == 'c':
            continue
        if x[0] != 'g':
            return False
        st += [j for j, _ in x[2]]
    return True


def globals_of(N):
    k = len(N.cis)
    full, cols = columns(k)
    v = {}
    for i, x in enumerate(N.nodes):
        if x[0] == 'c':
            v[i] = full if x[1] else 0
        elif x[0] == 'g':
            v[i] = apply_fn(x[1], [v[j] ^ (full if c else 0) for j, c in x[2]], full)
        else:
            v[i] = cols[N.cis.index(i)]
    return v, full.bit_length()


def of_leaves(t, leaves, g, k):
    """the function of a table applied to the functions of its leaves"""
    r = 0
    for m in range(k):
        i = sum(1 << j for j, l in enumerate(leaves) if g[l] >> m & 1)
        if t[2] >> i & 1:
            r |= 1 << m
    return r


def enumerate_cuts(M, N, size, limit, mini, more=0):
    n = len(N.nodes)
    room = M.room
    ps, imp = Ptr('ps'), Ptr('impl')
    sets = [set_value(Ptr('nc', ('_cuts', i)), (), room, 0) for i in range(n)]
    M.start({'ntk': N, 'ps': rec('ps', cut_size=size, cut_limit=limit, fanin_limit=10, minimize_truth_table=mini, verbose=False, very_verbose=False),
             'st': rec('st', time_total=0.0, time_truth_table=0.0),
             'nc': rec('network_cuts', _cuts=sets, _best_cuts=[cut_value(Ptr('nc', ('_best_cuts', i)), ()) for i in range(n)], _truth_tables=cache_value(more), _total_tuples=0, _total_cuts=0),
             'impl': rec('impl', ntk=NetRef('ntk'), ps=Ref(ps), st=Ref(Ptr('st')), cuts=Ref(Ptr('nc')), lcuts=[Undef] * 3)})
    M.ocall('run', imp, [])
    if M.asserts:
        return f'the assertion {M.asserts[0]} fails'
    g, k = globals_of(N)
    cache = M.get(Ptr('nc', ('_truth_tables',)))
    for i, x in enumerate(N.nodes):
        es = entries(M, Ptr('nc', ('_cuts', i)), room)
        want = [()] if x[0] == 'c' else [(i,)] if x[0] != 'g' else None
        if want is not None:
            if [e[0] for e in es] != want:
                return f'node {i} has the cuts {[e[0] for e in es]}'
        else:
            if not es:
                return f'node {i} has no cut'
            if len(es) > max(limit, 1):
                return f'node {i} has {len(es)} cuts, at most {limit} are allowed'
            if len({e[0] for e in es}) != len(es):
                return f'a cut of node {i} is listed twice: {[e[0] for e in es]}'
        for leaves, data_, s in es:
            if list(leaves) != sorted(set(leaves)) or len(leaves) > size or not all(0 <= l < n for l in leaves):
                return f'{list(leaves)} is stored as a cut of node {i}, at most {size} leaves are allowed'
            if s != sig(leaves):
                return f'the cut {list(leaves)} of node {i} has a wrong signature'
            if not is_cut(N, i, leaves) and not mini:
                return f'{list(leaves)} is no cut of node {i}'
            t = lit_table(cache, data_[2]['func_id'])
            if t[1] != len(leaves):
                return f'the table of the cut {list(leaves)} of node {i} has {t[1]} variables'
            if of_leaves(t, leaves, g, k) != g[i]:
                return f'the table of the cut {list(leaves)} of node {i} is {t[2]:x}'
    return ''


def with_nodes(N):
    return f'{[x[2] for x in N.nodes if x[0] == "g"]} over {len(N.cis)} inputs'


def enum_rule(ctx, P):
    pick = lambda f: 'cut_enumeration_rewrite_cut' in (f['decl'].get('cls') or '') or not re.search(r'cut', (f['decl'].get('cls') or 'cut').split('<')[0])
    M = OMachine(ctx, P, [CUT + n for n in ('merge', 'set_leaves', 'operator=', 'cut')] + [SET + n for n in ('add_cut', 'is_dominated', 'insert', 'limit', 'clear')] +
                 [IMPL + n for n in ('run', 'merge_cuts2', 'compute_truth_table')] +
                 [NC + n for n in ('add_unit_cut', 'add_zero_cut', 'compute_truth_table_support', 'incre_total_tuples')] + [TTC + n for n in ('insert', 'operator[]')],
                 pick=pick, opaque={NS + 'aig_network::compute'})
    M.need('run', 'insert')
    M.algos[NS + 'aig_network::compute'] = aig_compute
    cls = [f['decl']['cls'] for f in P.find(SET + 'insert') if pick(f)]
    M.room = int(cls[0].rstrip('> ').split(',')[-1])
    rnd = random.Random(27)
    cs = []
    for i in range(60 if ctx.tier == 'thorough' else 16):
        N = rnd_aig(rnd, rnd.randrange(2, 6), rnd.randrange(1, 8))
        cs.append((N, rnd.randrange(2, 7), rnd.choice((3, 4, 8, 20)), i % 4 == 3, 300 if i % 5 == 2 else 0))
    cs.append((next(wide_aigs()), 3, 4, False, 0))

    def cases():
        for N, size, limit, mini, more in cs:
            yield 'enumeration', f'gates {with_nodes(N)}, at most {size} leaves and {limit} cuts' + (', tables minimised' if mini else ''), \
                lambda N=N, s=size, l=limit, m=mini, o=more: guarded(lambda: enumerate_cuts(M, N, s, l, m, o))
    ok, bad, und = sweep(cases)
    report(ctx, 'enum', 'enumeration', loc(M.fns['run'].f), ok, bad, und)


def run(ctx):
    P = ctx.prog('ops')
    ctx.rule('cut', 'transfer functions of cut on abstract cuts: merge yields the sorted union iff it is small enough and writes nothing else, dominates decides inclusion, copies are equal and own their leaves')
    for kind, what in KINDS.items():
        cut_rule(ctx, P, kind, what)
    ctx.rule('set', 'transfer functions of cut_set on abstract sets: insertion removes exactly the dominated cuts, keeps the order and never loses or shares a stored cut; limits keep a prefix')
    for kind, what in KINDS.items():
        set_rule(ctx, P, kind, what)
    ctx.rule('enum', 'transfer functions of cut_enumeration on small networks: every stored cut separates its node from the inputs, respects the limits and its table is the function of the node over its leaves')
    enum_rule(ctx, P)
