"""The forms of a writer that write into a file by name: the file opened is the one that was named, it is opened anew, and exactly the text of the stream form goes into it."""
import re
from engine.terms import *
from engine.interp import Interp
from engine.xlat import xprims, net_class
from engine.text import textprims
from engine.ctx import loc

APP, IN = 1, 8          # std::ios_base of libstdc++


def root(t):
    while isinstance(t, Term) and t.op in ('lref', 'addr', 'ld', 'deref'):
        t = t.args[0]
    return t


def named(t, f):
    """is the term the text of the file name"""
    t = root(t)
    while isinstance(t, Term) and t.op == 'call' and str(t.args[0]).split('::')[-1] in ('c_str', 'data'):
        t = root(t.args[-1])
    return str(t) == f


def forms(ctx, P, rule, writer, method=None):
    """every file form of the writer (and the method of Writer that uses it) keeps the rule"""
    n = 0
    for f in P.find(writer):
        if f['decl']['qn'] == writer and len(f['p']) > 1 and 'string' in P.ty(f['p'][1]['t']):
            n += 1
            net = f['p'][0]['n']
            check(ctx, P, rule, f, writer, lambda t: str(root(t)) == net, f['p'][1]['n'], f['p'][2]['n'] if len(f['p']) > 2 else None)
    for f in P.find(method) if method else ():
        if f['decl']['qn'].endswith(method) and f['p']:
            n += 1
            check(ctx, P, rule, f, writer, lambda t: isinstance(root(t), Term) and root(t).op == 'fld', f['p'][0]['n'], f['p'][1]['n'] if len(f['p']) > 1 else None, True)
    ctx.need(n > (1 if method else 0), f'file forms of {writer} not found')


def check(ctx, P, rule, f, writer, is_net, fname, ps, method=False):
    """f: function of the file form; writer: qualified name of the stream form; is_net: is a term the network; fname, ps: names of the parameters"""
    I = Interp(P, opaque={writer}, prims=xprims(textprims))
    I.ctor_hook = lambda d: net_class(d.get('cls')) or any(s in (d.get('cls') or '') for s in ('fstream', 'stringstream'))
    I.track_epochs = True
    I.run(f)
    ctx.functions.update(I.funcs_seen)
    key = f['decl']['qn'].split('iFPGA::')[-1] + '(' + ', '.join(P.ty(p['t']).split('::')[-1] for p in f['p']) + ')'
    where = loc(f)
    text = {}           # stream -> its contents: list of (writer call arguments) or other text
    files = {}          # stream -> (path, mode)
    und = []
    bad = []

    def name(t):
        return str(root(t))
    evs = [e for e in I.events if e.kind in ('ctor', 'call', 'out', 'abort', 'sprintf')]
    for e in evs:
        cls = str(e.name)
        if e.kind == 'ctor' and 'fstream' in cls:
            files[name(e.extra)] = tuple(e.args)
            text[name(e.extra)] = []
        elif e.kind == 'ctor' and 'stringstream' in cls:
            text[name(e.extra)] = [] if not e.args else [('other', e)]
        elif e.kind == 'call' and cls.endswith('fstream::open'):
            s = name(e.args[0])
            files[s] = tuple(e.args[1:])
        elif e.kind == 'call' and cls == writer:
            s = name(e.args[1])
            if s == fname and method:       # by way of the file form, which is checked itself
                files.setdefault(s, (e.args[1],))
            text.setdefault(s, []).append(('writer', e))
        elif e.kind == 'out':
            s = name(e.name)
            if s in text:
                v = e.args[0]
                src = [x for x in text if x != s and isinstance(v, Term) and mentions_name(v, x)]
                if len(src) == 1 and ('str' in str(v.op) or v.op == 'call'):
                    text[s] += [(k, x if k == 'writer' else x) for k, x in text[src[0]]]
                    if e.guard is not TRUE or e.loops:
                        und.append(f'the contents are copied under {str(e.guard)[:80]}')
                elif v == S(''):
                    pass
                else:
                    text[s].append(('other', e))
    real = {s: a for s, a in files.items() if a}
    if not real:
        bad.append('no file is opened')
    for s, a in real.items():
        if not named(a[0], fname):
            bad.append(f'the file opened is {str(a[0])[:80]}, not the one named')
        mode = a[1] if len(a) > 1 else C(16)
        m = mode.args[0] if isinstance(mode, Term) and mode.op == 'c' and isinstance(mode.args[0], int) else None
        if m is None:
            und.append(f'open mode {mode}')
        elif m & APP:
            bad.append('the file is opened for appending: what it held before stays in front of the text')
        elif m & IN and not m & 32:
            bad.append('the file is opened without being truncated: the rest of a longer old text stays behind the new one')
        w = [e for k, e in text[s] if k == 'writer']
        o = [e for k, e in text[s] if k == 'other']
        if len(w) != 1 and not o:
            bad.append(f'the stream form is called {len(w)} times for the file')
        elif o and len(w) == 1:
            bad.append(f'text other than that of {writer} is written into the file: {str(o[0].args)[:80]}')
        elif o:
            und.append(f'text that is not followed: {str(o[0].args)[:80]}')
        for e in w:
            if not is_net(e.args[0]):
                bad.append(f'another network than the given one is written: {str(e.args[0])[:80]}')
            if ps is not None and (len(e.args) < 3 or name(e.args[2]) != ps):
                bad.append('the given port names do not reach the stream form')
            if e.loops:
                bad.append('the stream form is called in a loop')
            if e.guard is not TRUE:
                g = str(e.guard)
                if not re.fullmatch(r"\{!?ret\(\d+, std::basic_\w+::(is_open|good|fail|bad|operator!|operator bool)\)\}|\{!?(is_open|good|fail|bad)\(\w+'?\d*\)\}", g):
                    on = [x for x in (name(e.args[0]), ps) if x and re.search(r'(?<![\w.])' + re.escape(x) + r'(?!\w)', g)]
                    (bad if on else und).append(f'the text is written only if {g[:100]}')
    if len(real) > 1:
        und.append('more than one file')
    if bad:
        ctx.viol(rule, key, where, '; '.join(bad)[:400])
    elif und:
        ctx.undecided(rule, key, '; '.join(und)[:300])
    else:
        ctx.ok(rule, key, 5)


def mentions_name(v, s):
    if str(root(v)) == s:
        return True
    return isinstance(v, Term) and any(isinstance(a, Term) and mentions_name(a, s) for a in v.args)
