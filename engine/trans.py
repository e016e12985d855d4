"""Effect of a recovered transfer function on a finite abstract store.  The guarded
events of the value graph (stores, pushes, calls, loops) are applied in program order;
a load recorded at memory epoch e is resolved in the store as it was when e began."""
from .terms import *
from . import terms as tm
from .evalm import Eval, Unknown, plain, PAIR, pset, view_set, nth


class Ref:
    """pointer to a named cell"""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '&' + self.name

    def __eq__(self, o):
        return isinstance(o, Ref) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class Abort(Exception):
    pass


def rec(name, **k):
    return ('rec', name, k)


_ep = {}


def epoch_of(l):
    """latest epoch of a pointer the location goes through: what lies behind it is not older"""
    if not isinstance(l, Term):
        return 0
    if l in _ep:
        return _ep[l]
    if l.op == 'ld':
        r = max(l.args[1] if len(l.args) > 1 else 0, epoch_of(l.args[0]))
    elif l.op in ('fld', 'deref'):
        r = epoch_of(l.args[0])
    elif l.op == 'idx':
        r = epoch_of(l.args[0])
    else:
        r = 0
    _ep[l] = r
    return r


def conv(old, v):
    """value as stored into a place now holding old"""
    if isinstance(old, tuple) and old and old[0] == 'rec' and 'index' in old[2]:
        c = 'weight' if 'weight' in old[2] else 'complement'
        if isinstance(v, int) and not isinstance(v, bool):
            return ('rec', old[1], {'index': v >> 1, c: v & 1})
        if isinstance(v, tuple) and v[0] == 'rec' and 'index' in v[2]:
            d = v[2]
            return ('rec', old[1], {'index': d['index'], c: int(d['weight'] if 'weight' in d else d.get('complement', 0))})
    if isinstance(v, bool):
        return int(v)
    return v


class Run(Eval):
    def __init__(self, I, cells, roots, hooks=None, contracts=None, elem=None, limit=20000):
        super().__init__(self.mleaf, hooks)
        self.I = I
        self.loops = I.loopinfo
        self.init = dict(cells)
        self.cur = self.init
        self.roots = roots          # root term -> cell name
        self.snap = {0: self.init}
        self.contracts = contracts or {}
        self.res = {}               # loop id -> outcome recorded when the loop was executed in the model
        self.elem = elem or {}      # default element of a container by (record, field)
        self.asserts = []
        self.log = []
        self.rets = {}
        self.steps = 0
        self.limit = limit
        self.driven = set()         # loops whose events are being applied
        self.tops = {}
        self.conds = {}

    def adjust(self, lid, vals):
        """containers and heap locations carried by an executed loop have the value of the store"""
        if lid not in self.driven:
            return vals
        out = dict(vals)
        for q in self.loops[lid]['init']:
            try:
                c, ks = self.place(q)
            except (Unknown, AttributeError):
                continue
            if c is None or c not in self.cur:
                continue
            v = self.cur[c]
            try:
                for k in ks:
                    v = v[2][k] if isinstance(v, tuple) and v[0] == 'rec' else v[k]
            except (KeyError, IndexError, TypeError):
                continue
            if isinstance(c, tuple) and not isinstance(v, (list, dict)):
                continue
            out[q] = v
        return out

    # ---- loads
    def store_at(self, ep):
        s = self.snap.get(ep)
        if s is None:
            raise Unknown(f'memory epoch {ep} is not reached in the model')
        return s

    def resolve(self, l, s):
        """value at location l in store s, or NotImplemented"""
        if l in self.roots:
            return s.get(self.roots[l], NotImplemented)
        o = l.op
        if o == 'root' and ('local', l) in s:
            return s[('local', l)]
        if o == 'ite':
            return self.resolve(l.args[1] if self.b(l.args[0]) else l.args[2], s)
        if o == 'deref':
            try:
                p = self.v(l.args[0])
            except Unknown:
                return NotImplemented
            if isinstance(p, Ref):
                return s.get(p.name, NotImplemented)
            return NotImplemented
        if o == 'fld':
            b = self.resolve(l.args[0], s)
            if isinstance(b, Ref):
                b = s.get(b.name, NotImplemented)
            if isinstance(b, tuple) and b and b[0] == 'pair' and l.args[1] in ('first', 'second'):
                return b[1 if l.args[1] == 'first' else 2]
            if isinstance(b, tuple) and b and b[0] == 'some' and l.args[1] == '*':
                return b[1]
            if isinstance(b, tuple) and b and b[0] == 'rec':
                d = b[2]
                k = l.args[1]
                if k in d:
                    return d[k]
                if k in ('weight', 'complement') and 'index' in d:
                    return d['weight' if 'weight' in d else 'complement']
                if k == 'data' and 'index' in d:
                    return d['index'] << 1 | int(d.get('weight', d.get('complement', 0)))
                if k == 'n' and 'h1' in d:
                    return d['h2'] << 32 | d['h1']
            return NotImplemented
        if o == 'idx':
            b = self.resolve(l.args[0], s)
            if b is NotImplemented:
                return b
            if isinstance(l.args[1], Term) and l.args[1].op == 'nth':
                return nth(b, self.v(l.args[1].args[0]))
            i = self.v(l.args[1])
            if isinstance(b, list):
                if not isinstance(i, int) or not 0 <= i < len(b):
                    raise Unknown(f'index {i} outside the model store ({show(l)[:120]})')
                return b[i]
            if isinstance(b, dict):
                return b.get(i, NotImplemented)
            return NotImplemented
        if o == 'val':
            return self.v(l.args[0])
        return NotImplemented

    def mleaf(self, t):
        x = t.args[0] if t.op == 'bitf' else t
        if x.op == 'ld':
            r = self.resolve(x.args[0], self.store_at(max(x.args[1] if len(x.args) > 1 else 0, epoch_of(x.args[0]))))
            if r is not NotImplemented:
                return r
        if x.op == 'size' and not isinstance(x.args[0], B):
            v = self.v(x.args[0])
            if isinstance(v, (list, str, dict)):
                return len(v)
        if x.op == 'ret' and x in self.rets:
            return self.rets[x]
        if x.op == 'addr':
            l = x.args[0]
            if l in self.roots:
                return Ref(self.roots[l])
        if x.op == 'iter' and len(x.args) == 2:
            return ('it', x.args[0], self.v(x.args[1]))
        if x.op == 'call' and str(x.args[0]).split('::')[-1] in ('operator==', 'operator!=') and len(x.args) == 3:
            a, b = self.v(x.args[1]), self.v(x.args[2])
            if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == 'it' and a[1] is b[1]:
                return (a[2] == b[2]) == str(x.args[0]).endswith('==')
        if x.op in ('call', 'm'):
            h = self.contracts.get(str(x.args[0]).split('::')[-1])
            if h is not None and getattr(h, 'pure', False):
                return h(self, [self.v(a) for a in x.args[1:]])
        return NotImplemented

    # ---- stores
    def place(self, loc):
        """(cell, keys)"""
        keys = []
        while True:
            o = loc.op
            if loc in self.roots:
                return self.roots[loc], keys[::-1]
            if o == 'ite':
                loc = loc.args[1] if self.b(loc.args[0]) else loc.args[2]
            elif o == 'fld':
                keys.append(loc.args[1])
                loc = loc.args[0]
            elif o == 'idx':
                keys.append(self.v(loc.args[1]))
                loc = loc.args[0]
            elif o == 'deref':
                p = self.v(loc.args[0])
                if not isinstance(p, Ref):
                    raise Unknown(f'store through {p!r}')
                return p.name, keys[::-1]
            elif o == 'val':
                return None, keys
            elif o == 'root':
                return ('local', loc), keys[::-1]
            else:
                raise Unknown(loc)

    def update(self, loc, f):
        c, ks = self.place(loc)
        if c is None:
            return
        if isinstance(c, tuple) and c not in self.cur:
            if ks:
                return                  # part of a local the model does not track
            try:
                v = f(None)
            except (Unknown, TypeError, AttributeError):
                return
            self.cur = {**self.cur, c: v}
            return
        if isinstance(c, tuple):
            try:
                self.cur = {**self.cur, c: pset(self.cur[c], ks, f)}
            except Unknown:
                self.cur = {k: v for k, v in self.cur.items() if k != c}
            return
        self.cur = {**self.cur, c: pset(self.cur[c], ks, f)}

    def val(self, x):
        return self.b(x) if isinstance(x, B) else self.v(x)

    def apply(self, e):
        k = e.kind
        self.steps += 1
        if self.steps > self.limit:
            raise Unknown('too many steps in the model')
        if k == 'epoch':
            self.snap[e.extra] = self.cur
            self.memo = {}
        elif k == 'write':
            c = self.place(e.name)[0]
            local = isinstance(c, tuple)
            try:
                v = self.val(e.args[0])
            except Unknown:
                if local:
                    if c in self.cur:           # not known any more
                        self.cur = {q: x for q, x in self.cur.items() if q != c}
                    return
                raise
            self.update(e.name, lambda old: conv(old, v))
        elif k == 'push':
            v = self.val(e.args[0])
            self.update(e.name, lambda old: (old or []) + [v])
        elif k == 'pop':
            self.update(e.name, lambda old: old[:-1])
        elif k == 'clear':
            self.update(e.name, lambda old: type(old)() if old is not None else [])
        elif k == 'swap':
            a, b = self.val(e.args[0]), self.val(e.args[1])
            self.update(e.name, lambda old: b)
            self.update(e.extra, lambda old: a)
        elif k == 'insert' and len(e.args) == 2 and plain_iter(e.args[0]):
            i, v = self.v(plain_iter(e.args[0]).args[1]), self.val(e.args[1])
            if not isinstance(i, int):
                raise Unknown('insertion at an unknown place')
            self.update(e.name, lambda old: (old or [])[:i] + [v] + (old or [])[i:])
        elif k in ('erase', 'resize', 'insert', 'havoc'):
            raise Unknown(f'{k} on {show(e.name)[:80]} ({", ".join(show(x)[:60] if isinstance(x, Term) else str(x) for x in (e.args or ()))})')
        elif k == 'call':
            n = str(e.name).split('::')[-1]
            if n == '__assert_fail':
                self.asserts.append((e.args[0].args[0] if e.args[0].op == 's' else show(e.args[0]), e.line))
                return
            if n == 'indirect':
                try:
                    who = self.val(e.args[0])
                except Unknown:
                    who = None
                self.log.append((who if isinstance(who, str) else 'observer', [self.val(a) for a in e.args[1:]]))
                return
            if n in ('resize', 'assign') and str(e.name).startswith('std::'):
                xs = [self.val(a) for a in e.args[1:]]
                if n == 'assign' and not isinstance(xs[0], (int, bool)):
                    l = self.between(*xs)
                    self.update(e.args[0], lambda old: l)
                    return
                fill = xs[1] if len(xs) > 1 else 0
                self.update(e.args[0], lambda old: [fill] * xs[0] if n == 'assign' else (old or [])[:xs[0]] + [fill] * (xs[0] - len(old or [])))
                return
            h = self.contracts.get(n)
            if h is None:
                return
            args = []
            for a in e.args:
                try:
                    args.append(self.val(a))
                except Unknown:
                    args.append(None)
            if getattr(h, 'pure', False):
                return
            r = h(self, args)
            if e.val is not None and isinstance(e.val, Term):
                self.rets[e.val] = r
            elif isinstance(e.val, B):
                for a in batoms(e.val).values() if isinstance(batoms(e.val), dict) else batoms(e.val):
                    if isinstance(a, Term) and a.op == 'bitf':
                        self.rets[a.args[0]] = r
            self.memo = {}

    def between(self, b, e):
        raise Unknown('range')

    def run(self):
        evs = [e for e in self.I.events if e.kind in ('epoch', 'write', 'push', 'pop', 'clear', 'swap', 'erase', 'resize', 'insert', 'havoc', 'call')]
        for e in self.trace(evs):
            self.apply(e)
        return self.cur

    # ---- loops
    def enter(self, lid):
        """containers that are local variables have, at the start of the loop, the value the loop finds"""
        for q, x in self.loops[lid]['init'].items():
            if isinstance(q, Term) and q.op == 'root' and q not in self.roots:
                try:
                    v = self.val(x)
                except Unknown:
                    continue
                if isinstance(v, (list, dict)):
                    self.cur = {**self.cur, ('local', q): v}

    def top(self, lid):
        for ep in self.tops.get(lid, ()) if lid in self.active else ():
            self.snap[ep] = self.cur

    def before(self, lid):
        if lid not in self.active or lid not in self.conds:
            return
        sub, d = self.conds[lid]
        for e in self._block(sub, d):
            self.apply(e)
        self.memo = {}

    def loop_how(self, lid):
        if lid in self.res:
            return self.res[lid]
        return super().loop_how(lid)

    def _block(self, evs, d):
        i = 0
        while i < len(evs):
            e = evs[i]
            if len(e.loops) <= d:
                i += 1
                self.memo = {}
                if e.kind == 'call' and str(e.name) == '__assert_fail':
                    try:
                        if self.b(e.guard):
                            yield e
                    except Unknown:
                        pass                # a condition the model cannot express
                elif e.kind == 'epoch' or self.b(e.guard):
                    yield e
                continue
            L = e.loops[d]
            j = i
            while j < len(evs) and len(evs[j].loops) > d and evs[j].loops[d] is L:
                j += 1
            sub = evs[i:j]
            i = j
            if L.id not in self.loops:
                raise Unknown(f'loop at line {L.line} has no transfer function')
            self.memo = {}
            if not self.b(L.pc0):
                continue
            eps = [x.extra for x in sub if x.kind == 'epoch']
            first = [x for x in sub if L in getattr(x, 'conds', ())]
            if any(x.kind != 'epoch' for x in first):
                # what the condition does comes before it is known whether there is another iteration
                self.conds[L.id] = first, d + 1
                sub = [x for x in sub if L not in getattr(x, 'conds', ())]
            self.res.pop(L.id, None)
            self.driven.add(L.id)
            self.enter(L.id)
            g = self.iterate(L.id)
            self.active.add(L.id)
            self.tops[L.id] = eps
            while True:
                try:
                    next(g)
                except StopIteration as s:
                    how, vals, n = s.value
                    self.res[L.id] = (how, vals, n, self.last_over)
                    self.active.discard(L.id)
                    self.memo = {}
                    break
                for x in sub:
                    for l in x.loops[d + 1:]:
                        self.res.pop(l.id, None)
                yield from self._block(sub, d + 1)

