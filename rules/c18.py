"""C18 numeric options are accepted exactly inside their documented range."""
import itertools
from rules.cli import *
from rules.c17 import outputs

LEVEL = 'proof'
MIN_DECIDED = 40
BIG = 0xffffffff
# documented ranges (option help and README) and the engine step that must run / must not run
SPEC = {
    'rewrite': (dict(priority_size=(6, 20), cut_size=(2, 4)), [NS + 'rewrite']),
    'refactor': (dict(max_input_size=(2, 12), max_cone_size=(0, 20)), [NS + 'refactor']),
    'lut_opt': (dict(priority_size=(6, 20), cut_size=(2, 6), global_area_iterations=(1, 2), local_area_iterations=(1, 3)), [NS + 'klut_mapping', NS + 'convert_klut_to_aig']),
    'map_fpga': (dict(priority_size=(6, 20), cut_size=(2, 6), global_area_iterations=(1, 2), local_area_iterations=(1, 3), type=(0, 1)), [NS + 'klut_mapping', NS + 'choice_to_klut']),
    'write_dot': (dict(type=(0, 1)), [NS + 'write_dot']),
    'write_primary': (dict(type=(0, 0)), [NS + 'write_verilog']),
}


def run(ctx):
    ctx.rule('range', 'for every combination of option values around the documented bounds: the engine step runs iff all values are inside; otherwise a message is printed and no stored element changes')
    for name, (spec, mains) in SPEC.items():
        fn, I = command(ctx, name)
        opt = options(ctx, name)
        ctx.need(all(o in opt for o in spec), f'{name}: documented options {sorted(spec)} are not all registered ({sorted(opt)})')
        for m in mains:
            ctx.need(any(e.kind == 'call' and e.name == m for e in I.events), f'{name}: engine step {m} not called')
        dom = []
        names = list(spec)
        ty = member_types(ctx, name)
        for o in names:
            lo, hi = spec[o]
            vs = {lo, hi, hi + 1, BIG if ty.get(opt[o], 'u32').startswith('u') else 0x7fffffff}
            if lo > 0:
                vs |= {lo - 1, 0}
            elif not ty.get(opt[o], 'u32').startswith('u'):
                vs.add(-1)
            if ctx.tier == 'thorough':
                vs |= set(range(max(lo - 2, 0), hi + 3))
            dom.append(sorted(vs))
        defaults = member_defaults(ctx, name)
        outs = outputs(I)
        muts = [e for e in I.events if e.kind == 'write' and isinstance(e.name, Term) and root_of(e.name).op in ('stcur', 'stelem')]
        combos = itertools.product(*dom)
        if ctx.tier != 'thorough' or len(dom) > 3:
            combos = around(spec, names, dom)
        bad = None
        n = 0
        try:
            for vals in combos:
                mem = dict(defaults)
                mem.update({opt[o]: v for o, v in zip(names, vals)})
                ev = env(ctx, I, mem)
                inside = all(spec[o][0] <= v <= spec[o][1] for o, v in zip(names, vals))
                for m in mains:
                    ran = values(ev, bor(*[e.guard for e in I.events if e.kind == 'call' and e.name == m]))
                    n += 1
                    if (not inside) in ran and bad is None:
                        ran = not inside
                        bad = (vals, f'{m} ' + ('runs although an option is outside' if ran else 'does not run although every option is inside') + ' the documented range')
                if not inside and bad is None:
                    n += 2
                    if True in values(ev, bor(FALSE, *[e.guard for e in muts])):
                        bad = (vals, 'a stored element is changed although an option is outside the documented range')
                    elif False in values(ev, bor(FALSE, *[e.guard for e in outs])):
                        bad = (vals, 'nothing is reported although an option is outside the documented range')
        except Unknown as u:
            ctx.undecided('range', name, u)
            continue
        if bad:
            ctx.viol('range', f'{name}', loc(fn), f'{name} with ' + ', '.join(f'--{o}={v}' for o, v in zip(names, bad[0])) + f': {bad[1]}')
        else:
            ctx.ok('range', name, n)


def root_of(l):
    while l.op in ('fld', 'idx', 'deref') or (l.op == 'ld'):
        l = l.args[0]
        if not isinstance(l, Term):
            break
    return l


def around(spec, names, dom):
    mid = [spec[o][0] for o in names]
    hi = [spec[o][1] for o in names]
    yield tuple(mid)
    yield tuple(hi)
    for base in (mid, hi):
        for i, d in enumerate(dom):
            for v in d:
                c = list(base)
                c[i] = v
                yield tuple(c)
    for i in range(len(dom)):
        for j in range(i):
            for a in dom[i]:
                for b in dom[j]:
                    c = list(mid)
                    c[i], c[j] = a, b
                    yield tuple(c)
