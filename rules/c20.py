"""C20 every accepted option value fits the fixed capacities of the engines."""
from rules.cli import *
from rules.c18 import SPEC

LEVEL = 'proof'
MIN_DECIDED = 6


def constant(P, suffix):
    out = []
    for q, ds in P.globals.items():
        if q == suffix or q.endswith('::' + suffix):
            i = ds[0]['d'].get('init')
            while isinstance(i, dict) and i.get('k') not in ('int',) and isinstance(i.get('e'), dict):
                i = i['e']
            out.append((q, i['v'] if isinstance(i, dict) and i.get('k') == 'int' else None))
    return out


def accepted(ctx, name, option, mains, lo=0, hi=80):
    """values of the option for which the engine step can run, the other options at any accepted value"""
    fn, I = command(ctx, name)
    opt = options(ctx, name)
    spec = SPEC[name][0]
    g = bor(FALSE, *[e.guard for e in I.events if e.kind == 'call' and e.name == mains[0]])
    out = []
    dft = member_defaults(ctx, name)
    for v in list(range(lo, hi)) + [255, 256, 257, 65535, 65536, 0x7fffffff, 0xffffffff]:
        mem = dict(dft)
        mem[opt[option]] = v
        if True in values(env(ctx, I, mem), g):
            out.append(v)
    return out


def run(ctx):
    ctx.rule('capacity', 'the largest (smallest) option value with which an engine step is reachable, computed from the guards, against the capacity constants of the instantiated engine classes')
    P = ctx.prog('cli')
    nums = constant(P, 'max_cut_num')
    leaves = [c for c in constant(P, 'max_cut_size') if c[0].startswith(NS + 'max_cut_size')]
    ctx.need(nums and leaves, 'capacity constants of the cut engine not found')

    def check(name, option, ok, cap, what):
        fn, I = command(ctx, name)
        try:
            acc = accepted(ctx, name, option, SPEC[name][1])
        except Unknown as u:
            ctx.undecided('capacity', f'{name} --{option}', u)
            return
        ctx.need(acc, f'{name}: no accepted value of --{option}')
        bad = [v for v in acc if not ok(v)]
        if bad:
            ctx.viol('capacity', f'{name}:{option}:{what}', loc(fn), f'{name} accepts --{option}={bad[-1] if bad[-1] > acc[0] else bad[0]}, {what} is {cap}')
        else:
            ctx.ok('capacity', f'{name} --{option} in [{acc[0]}, {acc[-1]}] vs {what} {cap}')

    for name, sel in (('rewrite', 'cut_enumeration_rewrite_cut'), ('lut_opt', 'mapping_view'), ('map_fpga', 'mapping_view')):
        caps = [c for c in nums if sel in c[0]] or nums
        vals = [c[1] for c in caps]
        if None in vals:
            ctx.undecided('capacity', name, 'capacity is not a literal constant')
        else:
            check(name, 'priority_size', lambda v: v < min(vals), min(vals), 'the exclusive capacity of a cut set')
        lv = leaves[0][1]
        if lv is None:
            ctx.undecided('capacity', name, 'leaf capacity is not a literal constant')
        else:
            check(name, 'cut_size', lambda v: v <= lv, lv, 'the leaf capacity of a cut')
        check(name, 'cut_size', lambda v: v >= 2, 2, 'the fan-in of a gate')
        # a limit of P keeps P-1 cuts minus the reserved trivial one: it has to leave at least one real cut
        check(name, 'priority_size', lambda v: v >= 3, 3, 'the smallest useful cut limit')
    check('rewrite', 'cut_size', lambda v: v <= 4, 4, 'the input count of the replacement database')
    check('refactor', 'max_input_size', lambda v: v >= 2, 2, 'the fan-in of a gate')
    check('refactor', 'max_input_size', lambda v: v <= 16, 16, 'the truth-table input limit of the cone function')
    for name in ('lut_opt', 'map_fpga'):
        for o in ('global_area_iterations', 'local_area_iterations'):
            check(name, o, lambda v: v <= 255, 255, 'the range of the engine counter')
