"""C17 commands never touch a missing design: they report and do nothing."""
from rules.cli import *

LEVEL = 'proof'
MIN_DECIDED = 20
OUTPUT = ('printf', 'fprintf', 'puts', 'fputs', 'vprintf', 'perror')


def outputs(I):
    return [e for e in I.events if (e.kind == 'call' and str(e.name).split('::')[-1] in OUTPUT) or e.kind == 'out' or
            (e.kind == 'call' and str(e.name).split('::')[-1] in ('out', 'err', 'operator<<', 'print'))]


def run(ctx):
    ctx.rule('guarded-use', 'every access to the current/indexed stored element happens only where the store is provably non-empty')
    ctx.rule('message', 'a command that needs a stored element prints a message when there is none')
    ctx.rule('complete-reset', 'reading a design clears every store of the previous one and provides the fixed number of slots')
    for name in CMDS:
        fn, I = command(ctx, name)
        uses = [e for e in I.events if e.kind == 'stuse']
        for e in uses:
            bad = band(e.guard, e.args[0])
            w = f'{loc(fn)} line {e.line}'
            if satisfiable(bad):
                ctx.viol('guarded-use', f'{name}:{e.name}', w, f'command {name} accesses the stored {str(e.name).split("::")[-1]} although the store may be empty')
            else:
                ctx.ok('guarded-use', f'{name} line {e.line}')
        need = {str(e.name) for e in uses}
        # the first test of emptiness in the command (initial state)
        for ty in sorted(need):
            E0 = entry_empty(I, ty)
            if E0 is None or name == 'read_aiger':
                continue
            if any(satisfiable(band(e.guard, E0)) for e in uses if str(e.name) == ty and e.args[0] is not FALSE) :
                continue          # reported above
            # under an empty store no use is reachable; if the command would use it when full, a message must be possible
            if not any(satisfiable(band(e.guard, E0)) for e in outputs(I)) and not any(e.kind == 'stextend' and e.name == ty for e in I.events) \
                    and not any(e.kind == 'call' and str(e.name).startswith(NS) and satisfiable(band(e.guard, E0)) for e in I.events):
                ctx.viol('message', f'{name}:{ty}:silent', loc(fn), f'command {name} ends silently when there is no stored {ty.split("::")[-1]}')
            else:
                ctx.ok('message', f'{name}:{ty}')
    # reading replaces everything
    fn, I = command(ctx, 'read_aiger')
    reset(ctx, fn, I)


def entry_empty(I, ty):
    for e in I.events:
        if e.kind == 'stuse' and e.name == ty and e.args[0] not in (FALSE, TRUE):
            return e.args[0]
    for e in I.events:
        for a in batoms(e.guard):
            if a.op == 'ld' and a.args[0] is T('stE', ty):
                return atom(a)
    return None


def reset(ctx, fn, I):
    readers = [e for e in I.events if e.kind in ('call', 'ctor', 'enter', 'new') and 'Reader' in str(e.name)]
    for ty, n in ((AIG, 6), (PORT, 1), (KLUT, 0)):
        # count of elements after the command when the stores were empty / held k elements before
        for was in (True, False):
            def count(guard):
                def leaf(t):
                    if t.op == 'ld' and t.args[0].op == 'stE':
                        return 0 if not was else 1
                    return NotImplemented
                return evaluator(Eval, {}, {}, fallback=lambda t, ev: leaf(t)).b(guard)
            k = 0 if was else None      # None: stale elements
            try:
                for e in I.events:
                    if e.kind == 'stclear' and e.name == ty and count(e.guard):
                        k = 0
                    if e.kind == 'stextend' and e.name == ty and count(e.guard):
                        if e.loops:
                            raise Unknown('slots provided in a loop')
                        k = k if k is None else k + 1
            except Unknown as u:
                ctx.undecided('complete-reset', ty, u)
                continue
            nm = ty.split('::')[-1]
            if k is None:
                ctx.viol('complete-reset', f'read_aiger:{nm}:stale', loc(fn), f'the {nm} store of the previous design survives reading another one')
            elif k != n:
                ctx.viol('complete-reset', f'read_aiger:{nm}:slots', loc(fn), f'{k} {nm} slots exist after reading a design, {n} are addressed by the other commands')
            else:
                ctx.ok('complete-reset', f'{nm} (was empty={was})')
