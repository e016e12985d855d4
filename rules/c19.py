"""C19 every option reaches the engine, which acts on the current design and whose result is stored."""
from rules.cli import *

LEVEL = 'proof'
MIN_DECIDED = 30
CE = 'cut_enumeration_ps'
# command -> (engine step, index of its parameter record, {option: path of the engine parameter})
SINK = {
    'rewrite': (NS + 'rewrite', 1, dict(priority_size=(CE, 'cut_limit'), cut_size=(CE, 'cut_size'), level_preserve=('b_preserve_depth',), zero_gain=('b_use_zero_gain',))),
    'refactor': (NS + 'refactor', 1, dict(max_input_size=('max_leaves_num',), max_cone_size=('max_cone_size',), level_preserve=('allow_depth_up',), zero_gain=('allow_zero_gain',))),
    'lut_opt': (NS + 'klut_mapping', 1, dict(priority_size=(CE, 'cut_limit'), cut_size=(CE, 'cut_size'), global_area_iterations=('uFlowIters',),
                                             local_area_iterations=('uAreaIters',), zero_gain=('bZeroGain',))),
    'map_fpga': (NS + 'klut_mapping', 1, dict(priority_size=(CE, 'cut_limit'), cut_size=(CE, 'cut_size'), global_area_iterations=('uFlowIters',), local_area_iterations=('uAreaIters',))),
}
VALS = dict(priority_size=(6, 11, 20), cut_size=(2, 3, 4), global_area_iterations=(1, 2), local_area_iterations=(1, 2, 3), level_preserve=(0, 1), zero_gain=(0, 1),
            max_input_size=(2, 7, 12), max_cone_size=(1, 9, 20))
# engine classes that receive those parameters must not overwrite them
ENGINE = [('klut_mapping_impl', ('uFlowIters', 'uAreaIters', 'bZeroGain', 'cut_size', 'cut_limit')),
          ('refactor_impl', ('max_leaves_num', 'max_cone_size', 'allow_depth_up', 'allow_zero_gain')),
          ('rewrite_impl', ('cut_limit', 'cut_size', 'b_preserve_depth', 'b_use_zero_gain'))]
# command -> chain of engine steps, first one on the current design, last one's result becomes the stored element
CHAIN = {
    'rewrite': ([NS + 'rewrite'], AIG), 'refactor': ([NS + 'refactor'], AIG), 'balance': ([NS + 'balance_and'], AIG),
    'cleanup': ([NS + 'cleanup_dangling'], AIG), 'lut_opt': ([NS + 'klut_mapping', NS + 'choice_to_klut', NS + 'convert_klut_to_aig'], AIG),
    'map_fpga': ([NS + 'klut_mapping', NS + 'choice_to_klut'], KLUT),
}
# writers: callee -> expected arguments
WRITE = {
    'write_aiger': (NS + 'write_aiger', [('cur', AIG), ('mem', 'filename')]),
    'write_fpga': (NS + 'write_lut', [('cur', KLUT), ('mem', 'filename')]),
    'write_primary': (NS + 'write_verilog', [('cur', AIG), ('mem', 'filename')]),
}


def get(v, path):
    for p in path:
        if not (isinstance(v, tuple) and v[0] == 'rec' and p in v[2]):
            raise Unknown(f'parameter {".".join(path)} not resolved')
        v = v[2][p]
    return v


def field(t, path):
    """symbolic field of a record value"""
    for p in path:
        if not isinstance(t, Term):
            raise Unknown(f'parameter {".".join(path)} not resolved')
        if t.op == 'rec':
            d = dict(t.args[1])
            if p not in d:
                raise Unknown(f'no field {p}')
            t = d[p]
        elif t.op == 'ld':
            t = T('ld', T('fld', t.args[0], p), *t.args[1:])
        else:
            raise Unknown(f'parameter {".".join(path)}: {show(t)[:100]}')
    return t


def run(ctx):
    ctx.rule('option-flow', 'the engine parameter record at the engine call, evaluated for every tested value of the option, holds the option value')
    ctx.rule('no-overwrite', 'no function of the engine classes stores into a caller-provided parameter a value different from the one it had')
    ctx.rule('current-in/out', 'the engine step receives the current design and its result is what the command stores')
    for name, (callee, ai, sinks) in SINK.items():
        fn, I = command(ctx, name)
        opt = options(ctx, name)
        ctx.need(all(o in opt for o in sinks), f'{name}: options {sorted(sinks)} not all registered')
        calls = [e for e in I.events if e.kind == 'call' and e.name == callee]
        ctx.need(calls, f'{name}: no call of {callee}')
        dft = member_defaults(ctx, name)
        for o, path in sinks.items():
            bad = None
            try:
                for e in calls:
                    for v in VALS[o]:
                        mem = dict(dft)
                        mem[opt[o]] = v
                        for ty in (0, 1):
                            if 'type' in mem:
                                mem['type'] = ty
                            ev = env(ctx, I, mem)
                            if values(ev, e.guard) == {False}:
                                continue
                            x = field(e.args[ai], path)
                            got = ev.b(x) if isinstance(x, B) else ev.v(x)
                            if int(got) != v and bad is None:
                                bad = (v, got, e.line)
            except Unknown as u:
                ctx.undecided('option-flow', f'{name} --{o}', u)
                continue
            if bad:
                ctx.viol('option-flow', f'{name}:{o}', f'{loc(fn)} line {bad[2]}', f'{name} --{o}={bad[0]}: the engine parameter {".".join(path)} is {bad[1]}')
            else:
                ctx.ok('option-flow', f'{name} --{o} -> {".".join(path)}')
    overwrite(ctx)
    chain(ctx)
    writers(ctx)


def overwrite(ctx):
    P = ctx.prog('cli')
    for cls, fields in ENGINE:
        fns = [f for f in P.fns.values() if strip(f['decl'].get('cls', '')).endswith('::' + cls)]
        ctx.need(fns, f'engine class {cls} not instantiated by the shell')
        n = 0
        for f in fns:
            n += 1
            names = {m['f'] for m in find_nodes(f.get('body'), 'mem')}
            if not names & set(fields):
                continue
            stores = []
            for k in ('bin', 'un'):
                for x in find_nodes(f.get('body'), k):
                    l = None
                    if k == 'bin' and x['op'].endswith('=') and x['op'] not in ('==', '!=', '<=', '>='):
                        l = x.get('a')
                    elif k == 'un' and ('++' in x['op'] or '--' in x['op']):
                        l = x.get('e') or x.get('a')
                    if isinstance(l, list):
                        l = l[0]
                    if isinstance(l, dict) and l.get('k') == 'mem' and l['f'] in fields and 'param' in l.get('r', ''):
                        stores.append(l['f'])
            if not stores:
                continue
            ctx.functions.add(f['decl']['qn'])
            I = Interp(P, inline=lambda qn, fn: False)
            I.run(f)
            for e in I.events:
                if e.kind == 'write' and isinstance(e.name, Term) and e.name.op == 'fld' and e.name.args[1] in stores:
                    v = e.args[0]
                    same = isinstance(v, Term) and v.op == 'ld' and v.args[0] is e.name or isinstance(v, B) and any(a.op == 'bitf' and a.args[0].op == 'ld' and a.args[0].args[0] is e.name for a in batoms(v)) and len(batoms(v)) == 1 and v.hi is TRUE
                    if same:
                        ctx.ok('no-overwrite')
                    else:
                        ctx.viol('no-overwrite', f'{cls}:{e.name.args[1]}', f'{loc(f)} line {e.line}', f'{cls} overwrites the caller\'s parameter {e.name.args[1]} with {show(v)[:80] if isinstance(v, Term) else showb(v)[:80]}')
        ctx.ok('no-overwrite', f'{cls}: {n} member functions')


def strip(s):
    from engine.prog import strip_targs
    return strip_targs(s)


def contains(t, pred):
    if isinstance(t, B):
        return any(contains(a, pred) for a in batoms(t))
    if not isinstance(t, Term):
        return False
    return any(pred(x) for x in subterms(t))


def chain(ctx):
    P = ctx.prog('cli')
    for name, (steps, ty) in CHAIN.items():
        fn, I = command(ctx, name)
        cur = T('stcur', AIG)
        writes = [e for e in I.events if e.kind == 'write' and isinstance(e.name, Term) and e.name is T('stcur', ty)]
        if not writes:
            ctx.viol('current-in/out', f'{name}:not-stored', loc(fn), f'the result of {name} is never stored')
            continue
        last = [e for e in I.events if e.kind == 'call' and e.name == steps[-1]]
        first = [e for e in I.events if e.kind == 'call' and e.name == steps[0]]
        ctx.need(last and first, f'{name}: engine steps {steps} not called')
        # stored whenever the engine ran, with the engine's result
        stored = bor(FALSE, *[e.guard for e in writes])
        ran = bor(FALSE, *[e.guard for e in last])
        if satisfiable(band(ran, bnot(stored))):
            ctx.viol('current-in/out', f'{name}:lost', loc(fn), f'{name} can run its engine step without storing the result')
        else:
            ctx.ok('current-in/out', f'{name}: result stored on every path')
        for e in writes:
            v = e.args[0]
            res = T('x')
            okv = contains(v, lambda x: x.op in ('call', 'ret', 'callv') and str(x.args[0]) == steps[-1] or x.op == steps[-1] or (x.op == 'ret' and len(x.args) > 1 and str(x.args[1]) == steps[-1])) or result_of(v, steps[-1])
            if not okv:
                ctx.viol('current-in/out', f'{name}:wrong-result', f'{loc(fn)} line {e.line}', f'{name} stores {show(v)[:120]}, not the result of its engine step')
            else:
                ctx.ok('current-in/out', f'{name}: stores the result of {steps[-1]}')
        for e in first:
            a = e.args[0] if e.args else None
            if name == 'map_fpga' and not contains(a, lambda x: x.op in ('stcur', 'stelem')):
                # choice mapping works on a network built from the history slots
                uses = [u for u in I.events if u.kind == 'stuse' and len(u.args) > 1]
                if not uses:
                    ctx.viol('current-in/out', f'{name}:not-history', loc(fn), 'choice mapping does not read any history slot')
                else:
                    ctx.ok('current-in/out', f'{name}: choice mapping reads the history slots')
                continue
            if contains(a, lambda x: x is cur):
                ctx.ok('current-in/out', f'{name}: engine step works on the current design')
            elif contains(a, lambda x: x.op in ('stcur', 'stelem')):
                ctx.viol('current-in/out', f'{name}:other-element', f'{loc(fn)} line {e.line}', f'{name} runs its engine step on {show(a)[:100]}, not on the current design')
            else:
                ctx.undecided('current-in/out', name, f'engine argument {show(a)[:150]}')


def result_of(v, callee):
    return isinstance(v, Term) and callee.split('::')[-1] in show(v)[:400]


def writers(ctx):
    for name, (callee, want) in WRITE.items():
        fn, I = command(ctx, name)
        calls = [e for e in I.events if e.kind == 'call' and e.name == callee]
        ctx.need(calls, f'{name}: no call of {callee}')
        for e in calls:
            for i, (k, x) in enumerate(want):
                a = e.args[i]
                good = isinstance(a, Term) and ((k == 'cur' and contains(a, lambda t: t is T('stcur', x))) or (k == 'mem' and contains(a, lambda t: t.op == 'fld' and t.args[1] == x)))
                if good:
                    ctx.ok('current-in/out', f'{name} argument {i}')
                else:
                    ctx.viol('current-in/out', f'{name}:arg{i}', f'{loc(fn)} line {e.line}', f'{name} passes {show(a)[:100]} to {callee.split("::")[-1]}')
