"""Shared analysis of the shell commands (C17-C21): every execute() is reduced to its
guarded events; calls into the engine are kept as calls, helpers of the command layer
are followed, and the element stores are modelled by their emptiness."""
import re
from engine.terms import *
from engine.interp import Interp
from engine.evalm import Eval, Unknown, Undef
from engine.store import evaluator
from engine.ctx import loc, REPO

NS = 'iFPGA::'
CMDS = ['read_aiger', 'write_aiger', 'write_fpga', 'write_primary', 'write_dot', 'rewrite', 'refactor', 'balance', 'lut_opt',
        'map_fpga', 'cleanup', 'print_stats', 'history']
AIG, KLUT, PORT = NS + 'aig_network', NS + 'klut_network', NS + 'write_verilog_params'


def targ(d):
    m = re.match(r'.*?<(.*)>$', d.get('cls', ''))
    return m.group(1) if m else d.get('cls', '')


def store_prims():
    def unref(I, st, a):
        return a.args[0] if a.op in ('addr', 'lref') else a

    def store(I, st, fr, e, args):
        return T('lref', T('store', I.p.decls[e['fn']].get('ta', '')))

    def eloc(d):
        return T('stE', targ(d))

    def hook(qn, d, e):
        if qn == 'alice::command::store' or (d['n'] == 'store' and d.get('cls', '').startswith('alice::')):
            return store
        if not qn.startswith('alice::store_container::'):
            return None
        n = d['n']
        ty = targ(d)

        def empty(I, st, fr, e, args):
            return I.tobit(I.load(st, eloc(d), 'bool'))

        def use(I, st, fr, e, args):
            E = I.tobit(I.load(st, eloc(d), 'bool'))
            ix = args[1] if n == 'operator[]' else None
            I.event(st, fr, 'stuse', ty, (E, ix) if ix is not None else (E,), e)
            return T('lref', T('stcur', ty) if ix is None else T('stelem', ty, ix))

        def extend(I, st, fr, e, args):
            I.event(st, fr, 'stextend', ty, (), e)
            I.setmem(st, eloc(d), FALSE)
            return T('lref', T('stcur', ty))

        def clear(I, st, fr, e, args):
            I.event(st, fr, 'stclear', ty, (), e)
            I.setmem(st, eloc(d), TRUE)
            return T('void')

        def size(I, st, fr, e, args):
            return T('stsize', ty)

        return dict(empty=empty, current=use, extend=extend, clear=clear, size=size, **{'operator[]': use}).get(n)
    return {'*': hook}


def in_cli(qn, fn):
    return fn['file'].startswith(REPO + '/cli/')


_memo = {}


def command(ctx, name):
    """(fn, interp with events) of the command's execute(); followed into helpers of the command layer"""
    P = ctx.prog('cli')
    k = (id(P), name)
    if k not in _memo:
        fs = [f for f in P.find(f'{name}_command::execute')]
        ctx.need(fs, f'command {name} has no execute()')
        I = Interp(P, prims=store_prims(), inline=in_cli, depth=12)
        I.wrap_unsigned = True
        I.final = I.run(fs[0])[1]
        _memo[k] = (fs[0], I)
    fn, I = _memo[k]
    ctx.functions.add(fn['decl']['qn'])
    ctx.functions.update(I.funcs_seen)
    return fn, I


def options(ctx, name):
    """{long option name: (member name, kind, help)} from the constructor"""
    P = ctx.prog('cli')
    fs = P.find(f'{name}_command::{name}_command')
    fs = [f for f in fs if len(f['p']) == 1 and 'environment' in P.ty(f['p'][0]['t'])] or fs
    out = {}

    def visit(n):
        if n.get('k') == 'call':
            d = P.decls[n['fn']]
            if d['n'] in ('add_option', 'add_flag') and 'alice' in d['qn']:
                a = n['a'][1:] if n.get('m') else n['a']
                s = a[0]
                while s and s.get('k') != 'str':
                    s = next((s[x] for x in ('e', 'a', 'x', 'sub') if isinstance(s.get(x), dict)), None) if not isinstance(s.get('a'), list) else (s['a'][0] if s['a'] else None)
                m = a[1]
                while m and m.get('k') not in ('mem', 'member', 'fld') and any(isinstance(m.get(x), dict) for x in ('e', 'a', 'x', 'sub')):
                    m = next(m[x] for x in ('e', 'a', 'x', 'sub') if isinstance(m.get(x), dict))
                out[json_str(s)] = (json_mem(m), d['n'])
    from engine.prog import walk
    for f in fs:
        walk(f, lambda n: visit(n))
    return out


def json_str(s):
    return (s or {}).get('v')


def json_mem(m):
    return (m or {}).get('f') or (m or {}).get('n')


def engine_calls(I):
    """events that act on the stored data: calls into the engine namespace"""
    return [e for e in I.events if e.kind in ('call', 'ctor') and str(e.name).startswith(NS)]


def find_nodes(n, kind, out=None):
    out = [] if out is None else out
    if isinstance(n, dict):
        if n.get('k') == kind:
            out.append(n)
        for v in n.values():
            if isinstance(v, (dict, list)):
                find_nodes(v, kind, out)
    elif isinstance(n, list):
        for x in n:
            find_nodes(x, kind, out)
    return out


def options(ctx, name):
    """{long option name: member} declared by the command's constructor"""
    P = ctx.prog('cli')
    out = {}
    for f in P.find(f'{name}_command::{name}_command'):
        for c in find_nodes(f.get('body'), 'call'):
            d = P.decls[c['fn']]
            if d['n'] in ('add_option', 'add_flag') and d['qn'].startswith(('alice::', 'CLI::')):
                a = c['a'][1:] if c.get('m') else c['a']
                s = find_nodes(a[0], 'str')
                m = find_nodes(a[1], 'mem')
                if s and m:
                    for part in s[0]['v'].split(','):
                        part = part.strip()
                        if part.startswith('--'):
                            out[part[2:]] = m[0]['f']
    return out


def member_types(ctx, name):
    r = ctx.prog('cli').records.get(f'alice::{name}_command')
    P = ctx.prog('cli')
    return {f['n']: P.ty(f['t']) for f in r['fields']} if r else {}


def env(ctx, I, members, empty=False):
    """evaluator with the command's members at the given values and every store holding elements"""
    def leaf(t, ev):
        x = t
        if x.op == 'bitf':
            x = x.args[0]
        if x.op == 'ld':
            l = x.args[0]
            if l.op == 'stE':
                return 1 if empty else 0
            if l.op == 'fld' and l.args[1] in members and l.args[0].op != 'fld':
                return members[l.args[1]]
        if x.op == 'stsize':
            return 6
        return NotImplemented
    return evaluator(Eval, {}, {}, fallback=leaf)


def member_defaults(ctx, name):
    """in-class initialisers, with flags as left by registration (false)"""
    P = ctx.prog('cli')
    out = {}
    for f in P.find(f'{name}_command::{name}_command'):
        for i in f.get('inits', []):
            if 'f' in i and i['e'].get('k') == 'int':
                out[i['f']] = i['e']['v']
    return out


def values(ev, g, cap=8):
    """set of truth values g can take, atoms the model does not fix being free"""
    free = []
    for a in batoms(g):
        try:
            ev.at(a)
        except Unknown:
            free.append(a)
    if len(free) > cap:
        raise Unknown(f'{len(free)} undetermined conditions')
    out = set()
    for m in range(1 << len(free)):
        ev.memo.clear()
        for i, a in enumerate(free):
            ev.choice[a] = bool(m >> i & 1)
        out.add(ev.b(g))
    for a in free:
        del ev.choice[a]
    ev.memo.clear()
    return out
