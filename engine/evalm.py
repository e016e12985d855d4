"""Evaluation of value graphs over finite abstract domains (truth tables, small
index models).  Terms are interpreted bottom-up; leaves come from a rule-supplied
function.  Nothing of the repository is executed: what is evaluated is the value
graph recovered from the source."""
import math
from .terms import *
from . import terms as tm


class Unknown(Exception):
    def __init__(self, t):
        self.t = t
        super().__init__(show(t)[:200] if isinstance(t, (Term, B)) else str(t))


class Outside(Unknown):
    """an element outside a container is used"""


M64 = (1 << 64) - 1
PAIR = {'first': 1, 'second': 2}


def pset(v, keys, f):
    """persistent update of v at keys"""
    if not keys:
        return f(v)
    k = keys[0]
    if isinstance(v, list):
        if not isinstance(k, int) or not 0 <= k < len(v):
            raise Outside(f'index {k} outside a sequence of {len(v)}')
        l = list(v)
        l[k] = pset(l[k], keys[1:], f)
        return l
    if isinstance(v, dict):
        d = dict(v)
        d[k] = pset(d.get(k), keys[1:], f)
        return d
    if isinstance(v, tuple) and v and v[0] == 'pair' and k in PAIR:
        l = list(v)
        l[PAIR[k]] = pset(l[PAIR[k]], keys[1:], f)
        return tuple(l)
    if isinstance(v, tuple) and v and v[0] == 'rec':
        d = dict(v[2])
        if k not in d:
            w = view_set(v[1], d, k, keys[1:], f)
            if w is None:
                raise Unknown(f'no member {k} in the model of {v[1]}')
            return ('rec', v[1], w)
        d[k] = pset(d[k], keys[1:], f)
        return ('rec', v[1], d)
    raise Unknown(f'store into {v!r}'[:120])


def view_set(name, d, k, rest, f):
    if rest:
        return None
    if k == 'data' and 'index' in d:
        c = 'weight' if 'weight' in d else 'complement'
        x = f(d['index'] << 1 | int(d[c]))
        return {'index': x >> 1, c: x & 1}
    if k == 'n' and 'h1' in d:
        x = f(d['h2'] << 32 | d['h1'])
        return {'h1': x & 0xffffffff, 'h2': x >> 32}
    return None


def nth(m, i):
    """element i of a map or set in the order of its keys"""
    if isinstance(m, dict) and isinstance(i, int) and 0 <= i < len(m):
        k = sorted(m, key=sortkey)[i]
        return ('pair', k, m[k])
    if isinstance(m, list) and isinstance(i, int) and 0 <= i < len(m):
        return m[i]
    raise Unknown(f'element {i!r} of {m!r}'[:100])


def sortkey(v):
    """natural order of integers, pairs, strings and signals"""
    if isinstance(v, tuple) and v and v[0] == 'rec' and 'index' in v[2]:
        return v[2]['index'] << 1 | int(v[2]['weight'] if 'weight' in v[2] else v[2]['complement'])
    if isinstance(v, tuple) and v and v[0] == 'pair':
        return tuple(sortkey(x) for x in v[1:])
    if isinstance(v, (int, float, str)):
        return v
    raise Unknown(f'order of {v!r}'[:100])


class _U:
    def __repr__(self):
        return 'uninitialised'

    def _used(self, *a):
        raise Outside('a value is used before it is set')
    __lt__ = __le__ = __gt__ = __ge__ = __add__ = __radd__ = __sub__ = __rsub__ = __and__ = __rand__ = __xor__ = __rxor__ = __or__ = __ror__ = __lshift__ = __rshift__ = __bool__ = _used


Undef = _U()


def plain(v):
    """comparable form"""
    if isinstance(v, tuple) and v and v[0] == 'rec':
        return ('rec', tuple(sorted(('weight' if k == 'complement' else k, plain(x)) for k, x in v[2].items())))
    if isinstance(v, (list, tuple)):
        return tuple(plain(x) for x in v)
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, dict):
        return tuple(sorted((k, plain(x)) for k, x in v.items()))
    return v


class Eval:
    """leaf(term) -> python value (int/bool/('rec',name,dict)/tuple) or raises Unknown / returns NotImplemented.
    choice: dict atomTerm->bool for atoms the model leaves open."""

    def __init__(self, leaf, hooks=None, choice=None, wrap=M64):
        self.leaf = leaf
        self.hooks = hooks or {}
        self.memo = {}
        self.loops = None
        self.over = {}
        self.active = set()
        self.choice = choice if choice is not None else {}
        self.wrap = wrap

    def b(self, b):
        """evaluate BDD"""
        x = b
        while x.v is not None:
            a = tm._atoms[x.v]
            try:
                x = x.hi if self.at(a) else x.lo
            except Unknown:
                # a value that exists on some paths only (e.g. the result of a loop that returned): it must not matter
                h, l = self.b(x.hi), self.b(x.lo)
                if h != l:
                    raise
                return h
        return x is TRUE

    def at(self, a):
        k = ('a', a)
        if k in self.memo:
            return self.memo[k]
        if a in self.choice:
            r = self.choice[a]
        else:
            r = self._at(a)
        self.memo[k] = bool(r)
        return bool(r)

    def _at(self, a):
        if a.op == 'le0':
            return self.lin(a.args[0]) <= 0
        if a.op == 'eq0':
            c, ts = a.args[0].args if a.args[0].op == 'lin' else (0, ())
            if c == 0 and len(ts) == 2 and {k for _, k in ts} == {1, -1}:
                x, y = self.v(ts[0][0]), self.v(ts[1][0])
                return plain(x) == plain(y)
            return self.lin(a.args[0]) == 0
        if a.op == 'ltf':
            return self.lin(a.args[0]) < 0
        if a.op == 'gtf':
            return self.lin(a.args[0]) > 0
        h = self.hooks.get(('atom', a.op))
        if h:
            return h(self, a)
        if a.op == 'contains':
            return self.v(a)
        if a.op == 'eq':
            return plain(self.v(a.args[0])) == plain(self.v(a.args[1]))
        if a.op == 'lt':
            return self.v(a.args[0]) < self.v(a.args[1])
        if a.op == 'bitf':
            return self.v(a.args[0])
        if a.op == 'isnull':
            return self.v(a.args[0]) is None
        if a.op == 'lo' and len(a.args) == 1:
            return self.v(a.args[0]) & 1
        if a.op == 'has' and a not in self.over and self.leaf(a) is NotImplemented:
            v = self.v(a.args[0])
            if isinstance(v, tuple) and v and v[0] in ('some', 'nullopt'):
                return v[0] == 'some'
        if a in self.over:
            return self.over[a]
        r = self.leaf(a)
        if r is NotImplemented:
            if a.op == 'loopret' and self.loops and a.args[0] in self.loops:
                how = self.loop_how(a.args[0])[0]
                return isinstance(how, tuple) and how[0] == 'ret' and how[1] is a
            raise Unknown(a)
        return r

    def lin(self, t):
        c, ts = t.args
        s = c
        for x, k in ts:
            v = self.v(x)
            if not isinstance(v, (int, bool, float)):
                raise Unknown(x)
            s += k * (v if isinstance(v, float) else int(v))
        return s

    def v(self, t):
        if isinstance(t, B):
            return self.b(t)
        if t in self.memo:
            return self.memo[t]
        r = self._v(t)
        self.memo[t] = r
        return r

    def _v(self, t):
        o = t.op
        if o == 'c':
            return t.args[0]
        if self.over and t in self.over:
            return self.over[t]
        if o == 's':
            return t.args[0]
        if o == 'lin':
            return self.lin(t)
        if o == 'b2i':
            return int(self.b(t.args[0]))
        h = self.hooks.get(o)
        if h:
            r = h(self, t)
            if r is not NotImplemented:
                return r
        if o == 'ite':
            return self.v(t.args[1]) if self.b(t.args[0]) else self.v(t.args[2])
        if o == 'fdiv':
            a, b = self.v(t.args[0]), self.v(t.args[1])
            if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                return a / b if b else (float('nan') if not a or a != a else math.copysign(float('inf'), a))
            raise Unknown(t)
        if o == 'rec':
            return ('rec', t.args[0], {f: self.v(x) for f, x in t.args[1]})
        if o == 'proj':
            b = self.v(t.args[0])
            if b is Undef:
                return b
            if isinstance(b, tuple) and b and b[0] == 'rec' and t.args[1] in b[2]:
                return b[2][t.args[1]]
            if isinstance(b, tuple) and b and b[0] == 'pair' and t.args[1] in PAIR:
                return b[PAIR[t.args[1]]]
            if isinstance(b, tuple) and b and b[0] == 'rec' and 'index' in b[2] and t.args[1] in ('weight', 'complement', 'data'):
                c = b[2]['weight'] if 'weight' in b[2] else b[2]['complement']
                return b[2]['index'] << 1 | int(c) if t.args[1] == 'data' else c
            raise Unknown(t)
        if o == 'get':
            b = self.v(t.args[0])
            k = t.args[1] if isinstance(t.args[1], str) else show(t.args[1])
            if isinstance(b, tuple) and b and b[0] == 'pair' and k.rstrip('UuLl').isdigit():
                return b[1 + int(k.rstrip('UuLl'))]
            raise Unknown(t)
        if o == 'findpos':
            l, i, j, x = (self.v(y) for y in t.args)
            if not isinstance(l, (list, tuple)) or l and isinstance(l, tuple) and isinstance(l[0], str) or not 0 <= i <= j <= len(l):
                raise Unknown(t)
            x = plain(x)
            return next((k for k in range(i, j) if plain(l[k]) == x), j)
        if o == 'optval':
            b = self.v(t.args[0])
            if isinstance(b, tuple) and b and b[0] == 'some':
                return b[1]
            raise Unknown(t)
        if o == 'map':
            return {}
        if o == 'contains':
            l, k = self.v(t.args[0]), self.v(t.args[1])
            if isinstance(l, (dict, list)):
                return k in l
            raise Unknown(t)
        if o == 'vec':
            return [self.v(x) for x in t.args]
        if o == 'app':
            return list(self.v(t.args[0])) + [self.v(t.args[1])]
        if o == 'ins':
            l, i = list(self.v(t.args[0])), self.v(t.args[1])
            return l[:i] + [self.v(t.args[2])] + l[i:]
        if o == 'sorted':
            return self.sort(t)
        if o == 'range':
            return list(self.v(t.args[0]))[self.v(t.args[1]):self.v(t.args[2])]
        if o == 'popped':
            l = list(self.v(t.args[0]))
            if not l:
                raise Outside('the last element of an empty container is removed')
            return l[:-1]
        if o == 'resized':
            l, n = list(self.v(t.args[0])), self.v(t.args[1])
            return l[:n] + [self.v(t.args[2]) if len(t.args) > 2 else 0] * (n - len(l))
        if o == 'vcat':
            return list(self.v(t.args[0])) + list(self.v(t.args[1]))
        if o == 'pair':
            return tuple(['pair'] + [self.v(x) for x in t.args])
        if o == 'some':
            return ('some', self.v(t.args[0]))
        if o == 'nullopt':
            return ('nullopt',)
        if o == 'at' and isinstance(t.args[1], Term) and t.args[1].op == 'nth':
            return nth(self.v(t.args[0]), self.v(t.args[1].args[0]))
        if o == 'at':
            l, i = self.v(t.args[0]), self.v(t.args[1])
            if isinstance(l, list) and isinstance(i, int) and 0 <= i < len(l):
                return l[i]
            if isinstance(l, dict) and plain(i) in l:
                return l[plain(i)]
            if isinstance(l, list) and isinstance(i, int):
                raise Outside(f'index {i} outside a sequence of {len(l)}')
            raise Unknown(t)
        if o == 'upd':
            path = [self.v(p) if isinstance(p, (Term, B)) else p for p in t.args[1]]
            x = self.v(t.args[2])
            return pset(self.v(t.args[0]), path, lambda old: x)
        if o == 'and':
            return self.i(t.args[0]) & self.i(t.args[1])
        if o == 'or':
            return self.i(t.args[0]) | self.i(t.args[1])
        if o == 'xor':
            return self.i(t.args[0]) ^ self.i(t.args[1])
        if o == 'shl':
            return (self.i(t.args[0]) << self.i(t.args[1])) & self.wrap
        if o == 'shr':
            return self.i(t.args[0]) >> self.i(t.args[1])
        if o == 'flt':
            return float(t.args[0])
        if o == 'filled':
            n, x = self.v(t.args[0]), self.v(t.args[1])
            if isinstance(n, (int, float)):
                return [x] * int(n)
            return self.filled(t, n, x)
        if o == 'mul':
            x, y = self.v(t.args[0]), self.v(t.args[1])
            if isinstance(x, float) or isinstance(y, float):
                return x * y
            return self.i(t.args[0]) * self.i(t.args[1])
        if o == 'div':
            return self.i(t.args[0]) // self.i(t.args[1])
        if o == 'mod':
            x, y = self.v(t.args[0]), self.v(t.args[1])
            if isinstance(y, float):
                y = int(y)
            return (int(x) if isinstance(x, (bool, float)) else self.i(t.args[0])) % (y if isinstance(y, int) and y else self.nz(t))
        if o == 'wrap':
            if t.args[0] < 0:
                w = -t.args[0]
                x = self.i(t.args[1]) & (1 << w) - 1
                return x - (1 << w) if x >> (w - 1) else x
            return self.i(t.args[1]) & (1 << t.args[0]) - 1
        if o == 'inv':
            return ~self.i(t.args[0])
        if o == 'hi':
            return self.i(t.args[0]) >> 1
        if o == 'cat':
            return (self.i(t.args[0]) << 1) | self.i(t.args[1])
        if o == 'null':
            return None
        if o == 'undef':
            return Undef
        r = self.leaf(t)
        if r is NotImplemented:
            if self.loops and t.args and t.args[0] in self.loops:
                if o == 'lo':
                    return self.loop_out(t.args[0], t.args[1])
                if o in ('iv', 'phi'):      # mentioned after the loop: its last (returning or breaking) iteration
                    how, vals, n, last = self.loop_how(t.args[0])
                    if how != 'end' and t in last:
                        return last[t]
            raise Unknown(t)
        return r

    def sort(self, t):
        import functools
        l = list(self.v(t.args[0]))
        i, j = self.v(t.args[1]), self.v(t.args[2])
        if not (isinstance(i, int) and isinstance(j, int) and 0 <= i <= j <= len(l)):
            raise Unknown(t)
        cmp, tag = t.args[3], t.args[4]
        if cmp is C(0):
            return l[:i] + sorted(l[i:j], key=sortkey) + l[j:]
        k0, k1 = T('cmparg', tag, 0), T('cmparg', tag, 1)

        def less(x, y):
            memo, self.memo = self.memo, {}
            saved = {k: self.over[k] for k in (k0, k1) if k in self.over}
            self.over[k0], self.over[k1] = x, y
            try:
                return bool(self.b(cmp) if isinstance(cmp, B) else self.v(cmp))
            finally:
                self.over.pop(k0), self.over.pop(k1)
                self.over.update(saved)
                self.memo = memo
        return l[:i] + sorted(l[i:j], key=functools.cmp_to_key(lambda x, y: -1 if less(x, y) else 1 if less(y, x) else 0)) + l[j:]

    def nz(self, t):
        raise Unknown(t)

    def known(self, d):
        out = {}
        for q, x in d.items():
            try:
                if x is not None:
                    out[q] = self.b(x) if isinstance(x, B) else self.v(x)
            except Unknown:
                pass
        return out

    def adjust(self, lid, vals):
        return vals

    def position(self, it):
        """position of an iterator carried by a loop"""
        return it[2] if isinstance(it, tuple) and len(it) == 3 and it[0] == 'it' else it

    # ---- loops: the one-iteration transfer function is iterated in the model
    CAP = 1500

    def iterate(self, lid, cap=None):
        """generator over the iterations of a loop in the model; self is positioned inside each iteration.
        The generator's return value tells how the loop ended: ('end'|('brk', i)|('ret', i), values)"""
        li = self.loops[lid]
        iv = li['L'].iv
        cur = self.adjust(lid, self.known(li['init']))
        saved = {q: self.over[q] for q in self.over}
        recs = [(q, x.args[1]) for q, x in li['init'].items() if isinstance(x, Term) and x.op == 'rec']
        try:
            for n in range(cap or self.CAP):
                self.memo = {}
                self.top(lid)
                self.over[iv] = n
                for q in li['init']:
                    self.over.pop(T('phi', lid, q), None)
                for q in recs:
                    for f, _ in q[1]:
                        self.over.pop(T('phi', lid, q[0], f), None)
                for q in cur:
                    x0 = li['init'].get(q)
                    self.over[T('phi', lid, q)] = self.position(cur[q]) if isinstance(x0, Term) and x0.op in ('iter', 'riter') else cur[q]
                    if isinstance(cur[q], tuple) and cur[q] and cur[q][0] == 'rec':
                        for f in cur[q][2]:
                            self.over[T('phi', lid, q, f)] = cur[q][2][f]
                self.before(lid)
                if not self.b(li['cond']):
                    return 'end', dict(cur), n
                yield n
                self.memo = {}
                for i, (pc, vals) in enumerate(li['brk']):
                    if self.b(pc):
                        return ('brk', i), self.adjust(lid, self.known(vals)), n
                for i, (a, pc) in enumerate(li['rets']):
                    if self.b(pc):
                        return ('ret', a), self.adjust(lid, dict(cur)), n
                if not self.b(li['post']):
                    nx = self.adjust(lid, self.known({q: x for q, x in li['next'].items()}))
                    return 'end', nx, n + 1
                if any(x is None for x in li['next'].values()):
                    raise Unknown('loop body does not complete')
                cur = self.adjust(lid, self.known(li['next']))
            raise Unknown(f'loop at line {li["L"].line} does not end in the model')
        finally:
            self.last_over = dict(self.over)
            self.over.clear()
            self.over.update(saved)
            self.memo = {}

    def top(self, lid):
        """an iteration begins"""

    def filled(self, t, n, x):
        raise Unknown(t)

    def before(self, lid):
        """the condition of an iteration is to be evaluated"""

    def loop_how(self, lid):
        """(how the loop ends, loop variables, iterations, bindings of its last iteration)"""
        memo = self.memo
        k = ('how', lid)
        if k not in memo:
            if lid in self.active:
                raise Unknown(f'loop {lid} refers to its own result')
            self.active.add(lid)
            g = self.iterate(lid)
            try:
                while True:
                    next(g)
            except StopIteration as s:
                how, vals, n = s.value
            finally:
                self.active.discard(lid)
                self.memo = memo
            memo[k] = how, vals, n, self.last_over
        return memo[k]

    def loop_out(self, lid, k):
        """value of loop variable k after the loop"""
        li = self.loops[lid]
        how, vals, n, _ = self.loop_how(lid)
        memo = self.memo
        if k in li['ivs']:
            ov = dict(self.over)
            self.over[li['L'].iv] = n
            self.memo = {}
            try:
                x = li['ivs'][k]
                return self.v(x)
            finally:
                self.over.clear()
                self.over.update(ov)
                self.memo = memo
        if k in vals:
            return vals[k]
        raise Unknown(f'loop variable {show(k)} not resolved')

    def trace(self, events):
        """events in execution order in the model; the evaluator is positioned at each yielded event"""
        yield from self._block([e for e in events], 0)

    def _block(self, evs, d):
        i = 0
        while i < len(evs):
            e = evs[i]
            if len(e.loops) <= d:
                i += 1
                if self.b(e.guard):
                    yield e
                continue
            L = e.loops[d]
            j = i
            while j < len(evs) and len(evs[j].loops) > d and evs[j].loops[d] is L:
                j += 1
            sub = evs[i:j]
            i = j
            if L.id not in self.loops:
                raise Unknown(f'loop at line {L.line} has no transfer function')
            g = self.iterate(L.id)
            while True:
                try:
                    next(g)
                except StopIteration as s:
                    how = s.value[0]
                    for (a, pc) in self.loops[L.id]['rets']:
                        self.over[a] = isinstance(how, tuple) and how[0] == 'ret' and how[1] is a
                    self.memo = {}
                    break
                yield from self._block(sub, d + 1)

    def i(self, t):
        v = self.v(t)
        if isinstance(v, (bool, float)):
            return int(v)
        if not isinstance(v, int):
            raise Unknown(t)
        return v
