"""Strings and byte streams in recovered transfer functions: formatting calls become pure terms, output calls 'out' events."""
import re
from .terms import *
from . import terms as tm
from .evalm import Unknown, Outside, plain
from .xlat import XRun


def deref(I, st, v):
    if isinstance(v, Term) and v.op in ('addr', 'lref'):
        return I.load(st, v.args[0])
    return v


def buffer_root(l):
    """array a pointer into its first element stands for"""
    if isinstance(l, Term) and l.op == 'idx' and l.args[1] == C(0):
        return l.args[0]
    return l


def textprims(qn, d, e):
    n = d['n']
    if qn.startswith('fmt::') and n in ('format', 'join'):
        def fmt(I, st, fr, e, args):
            return T('fmt' if n == 'format' else 'join', *[deref(I, st, a) for a in args])
        return fmt
    if qn in ('std::to_string',):
        return lambda I, st, fr, e, args: T('fmt', S('{}'), deref(I, st, args[0]))
    if n in ('sprintf', 'snprintf') and qn in (n, 'std::' + n):
        def spr(I, st, fr, e, args):
            l = place_of(I, st, fr, e['a'][0])
            if l is None:
                return None
            rest = list(args[1:])
            lim = None
            if n == 'snprintf':
                lim = rest.pop(0)
            v = T('cfmt', *[deref(I, st, a) for a in rest])
            if lim is not None:
                v = T('cut', v, lim)
            I.event(st, fr, 'sprintf', l, (v,), e)
            I.store(st, l, v)
            return T('size', v)
        return spr
    if n == 'compare' and qn.startswith('std::') and 'basic_string' in qn:
        return lambda I, st, fr, e, args: T('scmp', *[deref(I, st, a) for a in args])
    if n == 'to_hex' and qn.startswith('kitty::'):
        return lambda I, st, fr, e, args: T('hex', deref(I, st, args[0]))
    if n == 'strlen' and qn in (n, 'std::' + n):
        def sl(I, st, fr, e, args):
            l = place_of(I, st, fr, e['a'][0])
            if l is None:
                return None
            return T('size', I.load(st, l))
        return sl
    if n in ('atoi', 'atol', 'atoll', 'stoi', 'stoul') and qn in (n, 'std::' + n):
        return lambda I, st, fr, e, args: T('atol', deref(I, st, args[0]))
    if (d.get('cls') or '').startswith('std::basic_ostream') and n in ('write', 'put'):
        def out(I, st, fr, e, args):
            s = args[0]
            s = s.args[0] if s.op in ('addr', 'lref') else s
            if n == 'put':
                I.event(st, fr, 'out', s, (T('chr', args[1]),), e)
                return T('lref', s)
            v = args[1]
            if isinstance(v, Term) and v.op == 'addr':
                v = I.load(st, buffer_root(v.args[0]))
            I.event(st, fr, 'out', s, (T('cut', v, args[2]),), e)
            return T('lref', s)
        return out
    return None


def place_of(I, st, fr, a):
    """location of the array or element whose address an argument is"""
    while isinstance(a, dict) and a.get('k') in ('cast', 'paren', 'decay', 'ic') and 'a' in a:
        a = a['a'] if isinstance(a['a'], dict) else a['a'][0]
    if isinstance(a, dict) and a.get('k') == 'un' and a.get('op') == '&':
        a = a['a'] if isinstance(a['a'], dict) else a['a'][0]
    try:
        return buffer_root(I.lv(st, fr, a))
    except Exception:
        return None


def pyfmt(f, args):
    out, i, k = '', 0, 0
    while i < len(f):
        c = f[i]
        if c in '{}' and f[i:i + 2] == c + c:
            out += c
            i += 2
            continue
        if c == '{':
            j = f.index('}', i)
            spec = f[i + 1:j]
            if ':' in spec:
                raise Unknown(f'format {spec}')
            if spec == '':
                n, k = k, k + 1
            else:
                n = int(spec)
            if n >= len(args):
                raise Unknown('too few arguments of a format')
            out += text(args[n])
            i = j + 1
            continue
        out += c
        i += 1
    return out


def text(v):
    if isinstance(v, bool):
        return 'true' if v else 'false'
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return v
    raise Unknown(f'text of {v!r}'[:100])


def cfmt(f, args):
    i = 0
    out = ''
    for p in re.split(r'(%(?:l*[udi]|s|c|%))', f):
        if p == '%%':
            out += '%'
        elif p.startswith('%') and len(p) > 1:
            if i >= len(args):
                raise Unknown('too few arguments of a format')
            out += chr(args[i]) if p == '%c' else text(int(args[i]) if isinstance(args[i], bool) else args[i])
            i += 1
        else:
            if '%' in p:
                raise Unknown(f'format {f}')
            out += p
    return out


class TextRun(XRun):
    CAP = 3000

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.out = {}

    def _v(self, t):
        o = t.op
        if o == 'fmt':
            return pyfmt(self.v(t.args[0]), [self.v(a) for a in t.args[1:]])
        if o == 'cfmt':
            return cfmt(self.v(t.args[0]), [self.v(a) for a in t.args[1:]])
        if o == 'join':
            l = self.v(t.args[0])
            if not isinstance(l, list):
                raise Unknown('join')
            return self.v(t.args[1]).join(text(x) for x in l)
        if o == 'strcat':
            return ''.join(chr(x & 255) if isinstance(x, int) else text(x) for x in (self.v(t.args[0]), self.v(t.args[1])))
        if o == 'chr':
            return chr(self.v(t.args[0]) & 255)
        if o == 'cut':
            s, n = self.v(t.args[0]), self.v(t.args[1])
            if n > len(s):
                raise Outside(f'{n} characters of the string "{s}" are written')
            return s[:n]
        if o in ('basic_string_view', 'ctor', 'obj', 'call') and 'basic_string_view' in show(t)[:40] and t.args:
            return self.v(t.args[-1])
        if o == 'scmp':
            a = [self.v(x) for x in t.args]
            if len(a) == 2:
                x, y = a
            elif len(a) == 4:
                if a[1] > len(a[0]):
                    raise Outside(f'position {a[1]} of "{a[0]}"')
                x, y = a[0][a[1]:a[1] + a[2]], a[3]
            else:
                raise Unknown(t)
            return (x > y) - (x < y)
        if o == 'hex':
            x = self.v(t.args[0])
            if not (isinstance(x, tuple) and x and x[0] == 'tt'):
                raise Unknown('to_hex')
            return format(x[2], '0%dx' % max(1, (1 << x[1]) >> 2))
        if o == 'endl':
            return '\n'
        if o == 'flush':
            return ''
        if o == 'at':
            l, i = self.v(t.args[0]), self.v(t.args[1])
            if isinstance(l, list) and isinstance(i, int) and not 0 <= i < len(l):
                raise Outside(f'element {i} of a container of {len(l)} is used')
            if isinstance(l, str) and isinstance(i, int):
                if not 0 <= i <= len(l):
                    raise Outside(f'character {i} of "{l}"')
                return ord(l[i]) if i < len(l) else 0
            if isinstance(l, dict) and l and plain(i) not in l and all(isinstance(x, str) for x in l.values()):
                return ''     # operator[] of a map of names inserts an empty one
        return super()._v(t)

    KINDS = XRun.KINDS + ('out',)

    def apply(self, e):
        if e.kind == 'out':
            self.steps += 1
            self.out.setdefault(e.name, []).append(text(self.val(e.args[0])))
            return
        if e.kind == 'insert' and len(e.args) == 1:
            v = self.val(e.args[0])
            self.update(e.name, lambda old: (old or []) + ([v] if v not in (old or []) else []))
            return
        super().apply(e)

    def resolve(self, l, s):
        r = super().resolve(l, s)
        if r is NotImplemented and l.op == 'fld' and l.args[1] in ('first', 'second'):
            b = self.resolve(l.args[0], s)
            if isinstance(b, tuple) and b and b[0] == 'pair':
                return b[1 if l.args[1] == 'first' else 2]
        if r is NotImplemented and l.op == 'idx':
            b = self.resolve(l.args[0], s)
            if isinstance(b, str):
                i = self.v(l.args[1])
                if not 0 <= i <= len(b):
                    raise Outside(f'character {i} of "{b}"')
                return ord(b[i]) if i < len(b) else 0
        return r


def loadtext(ctx, P, name, types=(), opaque=(), extra=None, cls=None):
    """recovered transfer function of a function that writes or reads text"""
    from .interp import Interp
    from .xlat import xprims, net_class
    c = []
    for f in P.find(name):
        pt = [P.ty(p['t']) for p in f['p']]
        if f['decl']['qn'].split('::')[-1] != name.split('::')[-1] or cls and cls not in (f['decl'].get('cls') or ''):
            continue
        if all(i < len(pt) and x in pt[i] for i, x in enumerate(types)):
            c.append(f)
    ctx.need(c, f'{name}({", ".join(types)}) not found')

    def both(qn, d, e):
        return (extra(qn, d, e) if extra else None) or textprims(qn, d, e)
    from rules.xl import Op
    I = Interp(P, opaque=set(opaque), prims=xprims(both))
    I.ctor_hook = lambda d: net_class(d.get('cls'))
    I.track_epochs = True
    ret, _ = I.run(c[0])
    ctx.functions.update(I.funcs_seen)
    return Op(ctx, c[0], I, ret)


def evaltext(op, nets, args, contracts=None, queries=None, calls=None, limit=200000):
    cells, roots, locs = {}, {}, {}
    for i, n in nets.items():
        cells[f'n{i}'] = n
        locs[op.params[i]] = f'n{i}'
    for i, v in args.items():
        cells[f'a{i}'] = v
        roots[op.params[i]] = f'a{i}'
    R = TextRun(op.I, cells, roots, locs, contracts=contracts or {}, limit=limit)
    R.queries = queries or {}
    R.calls = calls or {}
    out = R.run()
    return R, out


def written(R):
    """what was written to the output file (not to the console)"""
    return ''.join(''.join(l) for s, l in R.out.items() if not show(s).startswith('std::c'))
