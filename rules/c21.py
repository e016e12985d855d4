"""C21 the history keeps isolated snapshots in its five slots."""
from rules.cli import *
from rules.c17 import outputs
from engine.evalm import Eval

LEVEL = 'proof'
MIN_DECIDED = 20
SLOTS = 5


def element(I, v, ev):
    """'copy' of the current design with storage of its own | 'shared' with it | 'empty'"""
    fresh = {}
    for e in I.events:
        if e.kind == 'new' and isinstance(e.val, Term):
            fresh[e.val] = e.args
    if not isinstance(v, Term):
        raise Unknown('stored value')
    if v.op == 'ite':
        return element(I, v.args[1] if ev.b(v.args[0]) else v.args[2], ev)
    if v.op == 'rec':
        d = dict(v.args[1])
        if '_storage' not in d:
            raise Unknown('no storage field')
        v = d['_storage']
        if v.op == 'addr' and v.args[0] in fresh:
            a = fresh[v.args[0]]
            if not a:
                return 'empty'
            if any(contains(x, lambda t: t is T('stcur', AIG)) for x in a):
                return 'copy'
            raise Unknown('initial content of the snapshot')
    t = v
    # a plain (shallow) copy of the stored element or of its storage pointer
    if t.op == 'ld':
        l = t.args[0]
        while l.op == 'fld':
            l = l.args[0]
        if l.op == 'stcur':
            return 'shared'
    raise Unknown(f'stored value {show(t)[:120]}')


def contains(t, pred):
    if isinstance(t, B):
        return any(contains(a, pred) for a in batoms(t))
    return isinstance(t, Term) and any(pred(x) for x in subterms(t))


def run(ctx):
    ctx.rule('transition', 'the transfer function of the command, evaluated for every history size, flag combination and replace index, against the documented transition: slots written, kind of stored element, new size, reported size, flags reset')
    ctx.rule('owned-storage', 'an element stored in a slot has a freshly made storage initialised from the current design, and that storage record contains no shared or raw pointer')
    fn, I = command(ctx, 'history')
    opt = options(ctx, 'history')
    ctx.need(all(o in opt for o in ('add', 'clear', 'size', 'replace')), f'history options missing: {sorted(opt)}')
    dft = member_defaults(ctx, 'history')
    idx = [m for m in dft if m not in opt.values() and dft[m] == -1]
    outs = outputs(I)
    this = T('root', 'this', 'this')
    P = ctx.prog('cli')
    hm = index_member(I, opt)
    ctx.need(hm, 'history size member not identified')
    n = 0
    bad = {}
    try:
        for h in range(-1, SLOTS):
            for add_ in (0, 1):
                for clr in (0, 1):
                    for siz in (0, 1):
                        for rep in (-2, -1, 0, 1, 2, 3, 4, 5, 6):
                            mem = dict(dft)
                            mem.update({opt['add']: add_, opt['clear']: clr, opt['size']: siz, opt['replace']: rep, hm: h})
                            what = case(ctx, I, opt, mem, hm, h, add_, clr, siz, rep, outs, this)
                            n += 1
                            if what and what[0] not in bad:
                                bad[what[0]] = (what[1], what[2], f'history with {h + 1} stored, add={add_} clear={clr} size={siz} replace={rep}')
    except Unknown as u:
        ctx.undecided('transition', 'history', u)
        return
    for k, (msg, line, cs) in bad.items():
        ctx.viol('transition', f'history:{k}', f'{loc(fn)}' + (f' line {line}' if line else ''), f'{cs}: {msg}')
    ctx.ok('transition', 'all cases', n - len(bad))
    # the storage record owns everything it holds
    r = [q for q in P.records if q.startswith(NS + 'storage<') or q.endswith('::aig_storage')]
    seen = set()
    todo = list(r)
    while todo:
        q = todo.pop()
        if q in seen or q not in P.records:
            continue
        seen.add(q)
        for f in P.records[q]['fields']:
            t = P.ty(f['t'])
            if 'shared_ptr' in t or t.rstrip().endswith('*') or t.rstrip().endswith('&'):
                ctx.viol('owned-storage', f'{q}:{f["n"]}', q, f'field {f["n"]} of the network storage has the sharing type {t}: a copied network is not independent')
            else:
                ctx.ok('owned-storage', f'{q}.{f["n"]}')
                todo += [x for x in P.records if x == t]
    ctx.need(seen, 'network storage record not found')


def index_member(I, opt):
    for e in I.events:
        if e.kind == 'write' and isinstance(e.name, Term) and e.name.op == 'fld' and e.name.args[1] not in opt.values() and e.name.args[0].op == 'root' and e.name.args[0].args[0] == 'this':
            return e.name.args[1]
    return None


def case(ctx, I, opt, mem, hm, h, add_, clr, siz, rep, outs, this):
    base = env(ctx, I, mem)
    inner = base.leaf
    filled = [i <= h for i in range(SLOTS + 1)]

    def leaf(t):
        x = t.args[0] if t.op == 'bitf' else t
        if x.op in ('call', 'm', 'ret', 'callv') or len(x.args) <= 4:
            el = [a for a in x.args if isinstance(a, Term) and (a.op == 'stelem' or a.op in ('addr', 'ld') and a.args[0].op == 'stelem')]
            nm = x.op if x.op not in ('call', 'm', 'ret', 'callv') else str(x.args[0])
            nm = nm.split('::')[-1]
            if el and nm in ('size', 'num_pis', 'num_pos', 'num_gates', 'num_cis', 'num_cos'):
                a = el[0] if el[0].op == 'stelem' else el[0].args[0]
                i = base.v(a.args[1])
                if not 0 <= i <= SLOTS:
                    raise Unknown('slot index')
                return {'size': 9 if filled[i] else 1}.get(nm, 2 if filled[i] else 0)
        return inner(t)
    base.leaf = leaf
    base.loops = I.loopinfo
    slots = {}
    order = []
    for e in I.events:
        if e.kind != 'write' or not isinstance(e.name, Term) or e.name.op not in ('stelem', 'stcur'):
            continue
        if e.name.op == 'stcur':
            if e.name.args[0] == AIG and True in values(base, e.guard):
                return 'current', 'the current design is overwritten', e.line
            continue
        if not e.loops:
            if base.b(e.guard):
                order.append((base.v(e.name.args[1]), element(I, e.args[0], base), e.line))
        else:
            if len(e.loops) > 1:
                raise Unknown('slots written in nested loops')
            iv = e.loops[0].iv
            for k in range(16):
                base.memo = {}
                base.leaf = lambda t, k=k: k if t is iv else leaf(t)
                if not base.b(e.guard):
                    break
                order.append((base.v(e.name.args[1]), element(I, e.args[0], base), e.line))
            base.memo = {}
            base.leaf = leaf
    h1 = h + 1 if add_ and h + 1 < SLOTS else h
    want = {}
    if add_ and h + 1 < SLOTS:
        want[h + 1] = 'copy'
    if 0 <= rep <= h1:
        want[rep] = 'copy'
    for i, k, line in order:
        if not 0 <= i < SLOTS:
            return 'outside', f'slot {i} is written, the history has slots 0..{SLOTS - 1}', line
        if k == 'shared':
            return 'shared', f'slot {i} shares its storage with the current design: later passes on the current design change the snapshot', line
        slots[i] = (k, line)
    if clr:
        for i in range(SLOTS):
            was = 'filled' if i <= h else 'empty'
            got = slots.get(i, (was, 0))
            if got[0] not in ('empty',):
                return 'clear', f'slot {i} still holds a design after clearing', got[1]
        hf = -1
    else:
        for i in range(SLOTS):
            got = slots.get(i, (None, 0))
            if want.get(i) != got[0]:
                return 'slot', f'slot {i} ' + ('is not stored' if got[0] is None else f'receives {got[0]}') + (' although it is the requested slot' if i in want else ' although it is not requested'), got[1]
        hf = h1
    fin = I.load(I.final, T('fld', this, hm))
    if base.v(fin) != hf:
        return 'size', f'{base.v(fin) + 1} snapshots are counted afterwards instead of {hf + 1}', 0
    for o, v in (('add', 0), ('clear', 0), ('size', 0), ('replace', -1)):
        f = I.load(I.final, T('fld', this, opt[o]))
        got = base.b(f) if isinstance(f, B) else base.v(f)
        if int(got) != v:
            return f'sticky:{o}', f'option --{o} stays set for the next invocation', 0
    rout = [e for e in outs if base.b(e.guard)]
    if siz:
        ok = False
        for e in rout:
            for a in e.args:
                if isinstance(a, Term) and a.op not in ('s', 'str'):
                    try:
                        ok = ok or base.v(a) == hf + 1
                    except Unknown:
                        pass
        if not ok:
            return 'report', f'--size does not report {hf + 1}', 0
    if (add_ and h + 1 >= SLOTS or rep < -1 or rep > h1) and not rout:
        return 'silent', 'a refused request is not reported', 0
    return None
