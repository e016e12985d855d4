"""Classes whose member functions call each other (also recursively): every member function has its own recovered
transfer function; a call is replaced by the transfer function of the callee applied to the store at the call."""
from .terms import *
from .net import ITER
from .trans import conv
from .xlat import *
from .interp import Interp
from .evalm import Unknown, Outside

THIS = T('root', 'this', 'this')


def short(qn):
    return str(qn).split('::')[-1]


def of_this(l):
    while isinstance(l, Term) and l.op == 'fld':
        l = l.args[0]
    return l is THIS


class Member:
    def __init__(self, f, I, ret):
        self.f, self.I, self.ret = f, I, ret
        self.params = [T('root', 'arg', i, p['n'] or f'arg{i}') for i, p in enumerate(f['p'])]
        self.method = bool(f['decl'].get('cls')) and not f['decl'].get('static')


class Machine:
    """members: qualified names of the functions that are summarised one by one; everything else they call is expanded in place"""

    def __init__(self, ctx, P, members, extra=None, opaque=(), pick=None, keep=(), frame=None, ctor_hook=None):
        self.ctx, self.P = ctx, P
        self.fns = {}
        qns = set(members)
        self.frame = frame or Frame_
        self.byfid = {}
        for qn in members:
            for f in P.find(qn):
                if f['decl']['qn'].split('::')[-1] != short(qn) or pick is not None and not pick(f):
                    continue
                I = Interp(P, opaque=qns | set(opaque), prims=xprims(extra, keep=keep))
                I.ctor_hook = ctor_hook or (lambda d: net_class(d.get('cls')))
                I.track_epochs = True
                ret, _ = I.run(f)
                ctx.functions.update(I.funcs_seen)
                m = Member(f, I, ret)
                self.byfid[f['fid']] = m
                k = short(qn), len(m.params)
                self.fns.setdefault(k, m)
                self.fns.setdefault(short(qn), m)
        self.contracts, self.queries, self.calls, self.hooks = {}, {}, {}, {}
        self.limit = 200000

    def need(self, *names):
        for n in names:
            self.ctx.need(n in self.fns, f'{n} not found')

    def start(self, this=None, nets=(), cells=()):
        """nets: {name of a member of the object: cell name}"""
        self.store = {'this': this}
        self.store.update(cells)
        self.netlocs = {}
        for k, v in dict(nets).items():
            self.netlocs[T('fld', THIS, k)] = v
        self.depth = 0
        self.asserts = []
        self.steps = 0

    def call(self, name, args, argnets=None):
        """(result, values of the arguments afterwards); the store of the machine is updated"""
        m = name if isinstance(name, Member) else self.fns.get((name, len(args))) or self.fns[name]
        name = short(m.f['decl']['qn'])
        self.depth += 1
        if self.depth > 600:
            raise Unknown(f'{name}: the recursion does not end in the model')
        cells = dict(self.store)
        roots = {THIS: 'this'} if m.method else {}
        for i, v in enumerate(args):
            cells[f'arg{i}'] = v
            roots[m.params[i]] = f'arg{i}'
        nets = dict(self.netlocs)
        for i, c in (argnets or {}).items():
            nets[m.params[i]] = c
            roots.pop(m.params[i], None)
        R = self.frame(m.I, cells, roots, nets, contracts=self.contracts, hooks=self.hooks, limit=self.limit)
        R.machine, R.queries, R.calls = self, self.queries, self.calls
        R.argnets = argnets or {}
        R.member = m
        try:
            out = R.run()
            r = None
            if m.ret is not None and not (isinstance(m.ret, Term) and m.ret.op == 'void'):
                R.memo = {}
                try:
                    r = R.val(m.ret)
                except Outside:
                    raise
                except Unknown:
                    if not isinstance(m.ret, Term):
                        raise
                    r = R.netval(m.ret)
        finally:
            self.depth -= 1
            self.asserts += R.asserts
            self.steps += R.steps
            if self.steps > 2000000:
                raise Unknown('too many steps in the model')
        out = R.cur
        self.store = {c: v for c, v in out.items() if not (isinstance(c, tuple) and c[0] == 'local') and not (isinstance(c, str) and c.startswith('arg'))}
        for l, c in R.nets.items():
            if of_this(l):
                self.netlocs[l] = c
        return r, [out.get(f'arg{i}') for i in range(len(args))]


class Frame_(XRun):
    machine = None

    def netval(self, t):
        """a network the function returns"""
        return self.base(t)

    def apply(self, e):
        if e.kind == 'call' and self.machine is not None and e.fid in self.machine.byfid and not (isinstance(e.extra, tuple) and e.extra and e.extra[0] == 'net'):
            self.steps += 1
            m = self.machine.byfid[e.fid]
            self.memo = {}
            vals, argnets = [], {}
            off = 1 if m.method else 0
            for i, a in enumerate(e.args[off:]):
                try:
                    vals.append(self.val(a))
                except Outside:
                    raise
                except Unknown as x:
                    c = None
                    if isinstance(a, Term):
                        try:
                            c = self.cell_of(netloc(a))
                        except Unknown:
                            raise x
                    if c is None:
                        raise
                    argnets[i] = c
                    vals.append(None)
            M = self.machine
            for l, c in self.nets.items():
                if of_this(l):
                    M.netlocs[l] = c
            M.store = {c: v for c, v in self.cur.items() if not (isinstance(c, tuple) and c[0] == 'local') and not (isinstance(c, str) and c.startswith('arg'))}
            keep = {c: v for c, v in self.cur.items() if c not in M.store}
            r, after = M.call(m, vals, argnets)
            self.cur = {**M.store, **keep}
            for l, c in M.netlocs.items():
                self.nets.setdefault(l, c)
            for i, l in enumerate(getattr(e, 'locs', [])[off:]):
                if l is not None and i not in argnets:
                    v = after[i]
                    self.update(l, lambda old: v)
            if e.val is not None and isinstance(e.val, Term):
                self.rets[e.val] = r
            elif isinstance(e.val, B):
                at = batoms(e.val)
                for a in at.values() if isinstance(at, dict) else at:
                    if isinstance(a, Term) and a.op == 'bitf':
                        self.rets[a.args[0]] = r
            self.memo = {}
            return
        if e.kind == 'call' and len(e.args) > 1 and isinstance(e.args[0], Term) and e.args[0].op in ('root', 'ld') and e.args[0] in self.callbacks():
            # the function handed to the analysed member
            self.memo = {}
            self.log.append(('fn', [self.val(a) for a in e.args[1:]]))
            return
        if e.kind == 'call' and short(e.name) in ITER and len(e.args) == 1 and e.args[0] in self.callbacks() and THIS in self.nets:
            self.memo = {}
            for x in self.elements(ITER[short(e.name)][0], THIS, [], self.cur):
                self.log.append(('fn', [x]))
            return
        if e.kind == 'new' and isinstance(e.val, Term):
            ta = str(e.extra or '')
            self.memo = {}
            if 'unordered_map' in ta or 'std::map' in ta:
                v = {}
            elif 'vector' in ta:
                if e.args and isinstance(e.args[0], Term) and e.args[0].op in ('vec', 'ld', 'app'):
                    v = list(self.v(e.args[0]))
                else:
                    n = self.v(e.args[0]) if e.args else 0
                    if not isinstance(n, int):
                        raise Unknown('size of a new vector')
                    v = [self.val(e.args[1]) if len(e.args) > 1 else 0] * n
            else:
                return super().apply(e)
            M = self.machine
            M.heap = getattr(M, 'heap', 0) + 1
            c = f'heap{M.heap}'
            self.roots[e.val] = c
            self.cur = {**self.cur, c: v}
            return
        if e.kind == 'init':
            self.memo = {}
            try:
                v = self.val(e.args[0])
            except Outside:
                raise
            except Unknown:
                a = e.args[0]
                if isinstance(a, Term) and a.op == 'addr':
                    try:
                        self.nets[e.name] = self.cell_of(a)
                    except Unknown:
                        pass
                return
            self.update(e.name, lambda old: conv(old, v))
            return
        super().apply(e)

    KINDS = XRun.KINDS + ('init',)

    def callbacks(self):
        m = self.member
        r = self.__dict__.get('_cb')
        if r is None:
            r = self._cb = {p for p, d in zip(m.params, m.f['p']) if '(lambda' in self.machine.P.ty(d['t'])}
            r |= {T('ld', p, k) for p in r for k in (0,)} | {T('ld', p) for p in r}
        return r
