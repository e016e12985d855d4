"""Machines over several kinds of objects: member functions of any analysed class are summarised one by one; a call is
replaced by the transfer function of the callee, applied to the object the call names.  The abstract store holds records,
sequences and pointers to places in it; iterators are pointers to elements."""
from .terms import *
from . import terms as tm
from .machine import Machine, Member, Frame_, THIS, short
from .xlat import *
from .evalm import Unknown, Outside, Undef, plain, sortkey, nth
from .trans import conv
import functools


class Ptr:
    __slots__ = ('cell', 'keys')

    def __init__(self, cell, keys=()):
        self.cell, self.keys = cell, tuple(keys)

    def __eq__(self, o):
        return isinstance(o, Ptr) and o.cell == self.cell and o.keys == self.keys

    def __hash__(self):
        return hash((self.cell, self.keys))

    def __repr__(self):
        return f'&{self.cell}{list(self.keys)}'

    def moved(self, n):
        if n == 0:
            return self
        if not isinstance(n, int):
            raise Unknown(f'pointer moved by {n!r}')
        k = self.keys
        if k and isinstance(k[-1], int) and not isinstance(k[-1], bool):
            return Ptr(self.cell, k[:-1] + (k[-1] + n,))
        if k and isinstance(k[-1], tuple) and k[-1][0] == '+':
            n += k[-1][1]
            k = k[:-1]
        return Ptr(self.cell, k + (('+', n),) if n else k)

    def index(self):
        k = self.keys
        if k and isinstance(k[-1], int):
            return (self.cell, k[:-1]), k[-1]
        if k and isinstance(k[-1], tuple) and k[-1][0] == '+':
            return (self.cell, k[:-1]), k[-1][1]
        return (self.cell, k), 0


class RPtr(Ptr):
    """a reverse iterator at an element"""
    __slots__ = ()


class Ref:
    """a member that is a reference to the place of p"""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p

    def __eq__(self, o):
        return isinstance(o, Ref) and o.p == self.p

    def __hash__(self):
        return hash(self.p)


class NetRef:
    """a member that refers to a network"""
    __slots__ = ('cell',)

    def __init__(self, cell):
        self.cell = cell

    def __eq__(self, o):
        return isinstance(o, NetRef) and o.cell == self.cell

    def __hash__(self):
        return hash(self.cell)


MISSING = object()


def iter_type(tn):
    return tn.endswith('*') or 'iterator' in tn.split('<')[0]


def walk(v, keys):
    for k in keys:
        if v is Undef:
            return v
        if isinstance(v, tuple) and v and v[0] == 'some' and k == '*':
            v = v[1]
        elif isinstance(v, tuple) and v and v[0] == 'rec':
            d = v[2]
            if k in d:
                v = d[k]
            elif k in ('weight', 'complement') and 'index' in d:
                v = d['weight' if 'weight' in d else 'complement']
            elif k == 'data' and 'index' in d:
                v = d['index'] << 1 | int(d.get('weight', d.get('complement', 0)))
            else:
                return MISSING
        elif isinstance(v, tuple) and v and v[0] == 'pair' and k in ('first', 'second'):
            v = v[1 if k == 'first' else 2]
        elif isinstance(v, list):
            if not isinstance(k, int):
                return MISSING
            if not 0 <= k < len(v):
                raise Outside(f'index {k} outside a sequence of {len(v)}')
            v = v[k]
        elif isinstance(v, dict):
            k = plain(k)
            if k not in v:
                return MISSING
            v = v[k]
        else:
            return MISSING
    return v


def oset(v, keys, f):
    """persistent update; unknown objects come into being member by member"""
    if not keys:
        return f(None if v is MISSING else v)
    k = keys[0]
    if v is None or v is MISSING or v is Undef:
        v = ('rec', '?', {}) if isinstance(k, str) else {}
    if isinstance(v, list):
        if not isinstance(k, int) or not 0 <= k < len(v):
            raise Outside(f'index {k} outside a sequence of {len(v)}')
        l = list(v)
        l[k] = oset(l[k], keys[1:], f)
        return l
    if isinstance(v, dict):
        d = dict(v)
        k = plain(k)
        d[k] = oset(d.get(k), keys[1:], f)
        return d
    if isinstance(v, tuple) and v and v[0] == 'some' and k == '*':
        return ('some', oset(v[1], keys[1:], f))
    if isinstance(v, tuple) and v and v[0] == 'pair' and k in ('first', 'second'):
        l = list(v)
        i = 1 if k == 'first' else 2
        l[i] = oset(l[i], keys[1:], f)
        return tuple(l)
    if isinstance(v, tuple) and v and v[0] == 'rec':
        d = dict(v[2])
        if k == 'data' and 'index' in d and not keys[1:]:
            x = f(0)
            d['index'], d['weight' if 'weight' in d else 'complement'] = x >> 1, x & 1
        elif k in ('weight', 'complement') and 'index' in d:
            k = 'weight' if 'weight' in d else 'complement'
            d[k] = oset(d[k], keys[1:], f)
        else:
            d[k] = oset(d.get(k), keys[1:], f)
        return ('rec', v[1], d)
    raise Unknown(f'store into {v!r}'[:120])


class OMachine(Machine):
    def __init__(self, ctx, P, members, natives=None, pures=None, **k):
        k.setdefault('frame', OFrame)
        super().__init__(ctx, P, members, **k)
        self.natives = natives or {}
        self.pures = {}
        self.pures.update(PURE)
        self.pures.update(pures or {})
        self.count = 0
        self.algos = {}

    def start(self, cells):
        self.store = dict(cells)
        self.depth = self.steps = 0
        self.asserts = []
        self.log = []

    def get(self, p):
        v = walk(self.store.get(p.cell, MISSING), p.keys)
        if v is MISSING:
            raise Unknown(f'{p!r} has no value')
        return v

    def put(self, p, v):
        self.store = {**self.store, p.cell: oset(self.store.get(p.cell, MISSING), list(p.keys), lambda old: v)}

    def ocall(self, m, this, args):
        """this: Ptr or None; args: Ptr for a reference, value otherwise"""
        if not isinstance(m, Member):
            m = self.fns.get((m, len(args))) or self.fns[m]
        name = m.f['decl']['qn']
        self.depth += 1
        if self.depth > 600:
            raise Unknown(f'{name}: the recursion does not end in the model')
        self.count += 1
        n = self.count
        try:
            h = self.natives.get(name.split('<')[0]) or self.natives.get('::'.join(name.split('::')[-2:]))
            if h is not None:
                return h(self, this, args)
            roots = {}
            if m.method:
                roots[THIS] = this
            cells = dict(self.store)
            for i, v in enumerate(args):
                if isinstance(v, Ptr) and m.f['p'][i].get('ref'):
                    roots[m.params[i]] = v
                elif isinstance(v, NetRef):
                    roots[m.params[i]] = v
                else:
                    c = ('tmp', n, i)
                    cells[c] = v
                    roots[m.params[i]] = Ptr(c)
            R = self.frame(m.I, cells, roots, {}, contracts=self.contracts, hooks=self.hooks, limit=self.limit)
            R.machine, R.queries, R.calls, R.member, R.no = self, self.queries, self.calls, m, n
            R.log = self.log
            try:
                out = R.run()
                r = None
                if m.ret is not None and not (isinstance(m.ret, Term) and m.ret.op == 'void'):
                    R.memo = {}
                    if isinstance(m.ret, Term) and m.ret.op == 'lref':
                        r = Ptr(*map(lambda x: x, R.place(m.ret.args[0])))
                    else:
                        r = R.val(m.ret)
            except Unknown:
                bad = self.asserts + R.asserts
                if bad:
                    raise Unknown(f'the assertion {bad[0]} fails')
                raise
            finally:
                self.asserts += R.asserts
                self.steps += R.steps
                if self.steps > 4000000:
                    raise Unknown('too many steps in the model')
            self.store = {c: v for c, v in R.cur.items() if not (isinstance(c, tuple) and len(c) > 1 and c[1] == n)}
            return r
        finally:
            self.depth -= 1


def locof(t):
    """the place a value term was read from"""
    if not isinstance(t, Term):
        return None
    if t.op == 'ld':
        return t.args[0]
    if t.op == 'rec' and t.args[1]:
        f, x = t.args[1][0]
        l = locof(x)
        if l is not None and l.op == 'fld' and l.args[1] == f:
            return l.args[0]
    return None


# ---- library functions without effects: (frame, argument values) -> value
def seq(R, b, e, store=None):
    """elements between two iterators"""
    (c, i), (d, j) = b.index(), e.index()
    if c != d:
        raise Damage('iterators of different containers are combined')
    if j < i:
        raise Damage('the end of a range lies before its begin')
    s = R.cur if store is None else store
    return [R.at_ptr(b.moved(k), s) for k in range(j - i)]


def p_find(R, a):
    b, e, v = a
    for k, x in enumerate(seq(R, b, e)):
        if plain(x) == plain(v):
            return b.moved(k)
    return e


def p_distance(R, a):
    (c, i), (d, j) = a[0].index(), a[1].index()
    if c != d:
        raise Damage('distance of iterators of different containers')
    return j - i


def p_equal(R, a):
    x = seq(R, a[0], a[1])
    y = seq(R, a[2], a[3] if len(a) > 3 else a[2].moved(len(x)))
    return plain(x) == plain(y)


def fits(n, k, v):
    m = (1 << (1 << n)) - 1
    return ('tt', n, v & m)


def p_extend(R, a):
    (_, n, b), k = a
    if k < n:
        raise Damage(f'a table of {n} variables is extended to {k}')
    while n < k:
        b |= b << (1 << n)
        n += 1
    return ('tt', n, b)


def tts(x):
    if not (isinstance(x, tuple) and x and x[0] == 'tt'):
        raise Unknown(f'not a truth table: {x!r}'[:100])
    return x


def same(x, y):
    if tts(x)[1] != tts(y)[1]:
        raise Damage(f'tables of {x[1]} and {y[1]} variables are combined')


def p_and(R, a):
    same(*a)
    return ('tt', a[0][1], a[0][2] & a[1][2])


def p_or(R, a):
    same(*a)
    return ('tt', a[0][1], a[0][2] | a[1][2])


def p_xor(R, a):
    same(*a)
    return ('tt', a[0][1], a[0][2] ^ a[1][2])


def p_not(R, a):
    x = tts(a[0])
    return ('tt', x[1], x[2] ^ ((1 << (1 << x[1])) - 1))


def p_shrink(R, a):
    x, k = tts(a[0]), a[1]
    if k > x[1]:
        raise Damage('a table is shrunk to more variables')
    return fits(k, k, x[2])


def p_bit(R, a):
    return tts(a[0])[2] >> a[1] & 1


def p_size(R, a):
    return tts(a[0])[1]


def p_pow(R, a):
    if not all(isinstance(x, int) for x in a) or a[1] < 0 or a[0] ** a[1] >= 1 << 53:
        raise Unknown('pow')
    return a[0] ** a[1]


def p_plus(R, a):
    return a[0].moved(a[1])


def p_minus(R, a):
    if isinstance(a[1], Ptr):
        (c, i), (d, j) = a[0].index(), a[1].index()
        if c != d:
            raise Damage('iterators of different containers are combined')
        return i - j
    return a[0].moved(-a[1])


PURE = {'__gnu_cxx::__normal_iterator::operator+': p_plus, '__gnu_cxx::__normal_iterator::operator-': p_minus, 'std::find': p_find, 'std::distance': p_distance, 'std::equal': p_equal, 'kitty::extend_to': p_extend, 'kitty::shrink_to': p_shrink,
        'kitty::operator&': p_and, 'kitty::operator|': p_or, 'kitty::operator^': p_xor, 'kitty::operator~': p_not, 'kitty::get_bit': p_bit,
        'ctor:kitty::dynamic_truth_table::dynamic_truth_table': lambda R, a: ('tt', a[0] if a else 0, 0),
        'pow': p_pow, 'std::pow': p_pow, 'kitty::binary_and': p_and, 'kitty::binary_or': p_or, 'kitty::binary_xor': p_xor, 'kitty::unary_not': p_not,
        **{f'kitty::{c}::{n}': f for c in ('dynamic_truth_table', 'static_truth_table') for n, f in (
            ('construct', lambda R, a: ('tt', tts(a[0])[1], 0)), ('num_bits', lambda R, a: 1 << tts(a[0])[1]), ('num_vars', lambda R, a: tts(a[0])[1]))},
        'kitty::is_const0': lambda R, a: tts(a[0])[2] == 0,
        '__builtin_popcount': lambda R, a: bin(a[0] & 0xffffffff).count('1'),
        '__builtin_popcountl': lambda R, a: bin(a[0] & (1 << 64) - 1).count('1'),
        '__builtin_popcountll': lambda R, a: bin(a[0] & (1 << 64) - 1).count('1')}


# ---- library functions with effects: (frame, event, argument values, place of an argument) -> value
def a_copy(R, e, a):
    b, end, d = a[:3]
    for x in seq(R, b, end):
        R.set_ptr(d, x)
        d = d.moved(1)
    return d


def a_set_union(R, e, a):
    x, y = seq(R, a[0], a[1]), seq(R, a[2], a[3])
    out, i, j = [], 0, 0
    while i < len(x) and j < len(y):
        if x[i] < y[j]:
            out.append(x[i])
            i += 1
        elif y[j] < x[i]:
            out.append(y[j])
            j += 1
        else:
            out.append(x[i])
            i += 1
            j += 1
    out += x[i:] + y[j:]
    d = a[4]
    for v in out:
        R.set_ptr(d, v)
        d = d.moved(1)
    return d


def a_fill(R, e, a):
    b, end, v = a
    (c, i), (d, j) = b.index(), end.index()
    for k in range(j - i):
        R.set_ptr(b.moved(k), v)


def a_find_if(R, e, a):
    f = R.callback(e)
    for k in range(a[1].index()[1] - a[0].index()[1]):
        if f(R.at_ptr(a[0].moved(k))):
            return a[0].moved(k)
    return a[1]


def a_any(R, e, a):
    f = R.callback(e)
    return any(f(x) for x in seq(R, a[0], a[1]))


def a_all(R, e, a):
    f = R.callback(e)
    return all(f(x) for x in seq(R, a[0], a[1]))


def a_none(R, e, a):
    f = R.callback(e)
    return not any(f(x) for x in seq(R, a[0], a[1]))


def a_count_if(R, e, a):
    f = R.callback(e)
    return sum(1 for x in seq(R, a[0], a[1]) if f(x))


def a_count(R, e, a):
    return sum(1 for x in seq(R, a[0], a[1]) if plain(x) == plain(a[2]))


def a_find_if_not(R, e, a):
    f = R.callback(e)
    for k in range(a[1].index()[1] - a[0].index()[1]):
        if not f(R.at_ptr(a[0].moved(k))):
            return a[0].moved(k)
    return a[1]


def a_includes(R, e, a):
    if len(a) > 4:
        raise Unknown('an order')
    x, y = seq(R, a[0], a[1]), seq(R, a[2], a[3])
    if any(not isinstance(v, int) for v in x + y) or x != sorted(x) or y != sorted(y):
        raise Unknown('ranges that are not sorted numbers')
    y = list(y)
    for v in x:
        if y and y[0] == v:
            y.pop(0)
    return not y


def kept(keep):
    def h(R, e, a):
        f = R.callback(e) if len(a) > 2 and a[2] is None else (lambda v: plain(v) == plain(a[2]))
        x = seq(R, a[0], a[1])
        y = [v for v in x if not f(v)]
        for i, v in enumerate(y):
            R.set_ptr(a[0].moved(i), v)
        return a[0].moved(len(y))
    return h


def a_unique(R, e, a):
    x = seq(R, a[0], a[1])
    same = R.callback(e) if len(a) > 2 else lambda p, q: plain(p) == plain(q)
    y = []
    for v in x:
        if not y or not same(y[-1], v):
            y.append(v)
    for i, v in enumerate(y):
        R.set_ptr(a[0].moved(i), v)
    return a[0].moved(len(y))


def a_reverse(R, e, a):
    for i, v in enumerate(reversed(seq(R, a[0], a[1]))):
        R.set_ptr(a[0].moved(i), v)


def a_rotate(R, e, a):
    x, k = seq(R, a[0], a[2]), a[1].index()[1] - a[0].index()[1]
    if not 0 <= k <= len(x):
        raise Damage('the middle of a rotation lies outside its range')
    for i, v in enumerate(x[k:] + x[:k]):
        R.set_ptr(a[0].moved(i), v)
    return a[0].moved(len(x) - k)


def a_fill_n(R, e, a):
    for k in range(a[1]):
        R.set_ptr(a[0].moved(k), a[2])
    return a[0].moved(max(a[1], 0))


def a_copy_n(R, e, a):
    for k in range(a[1]):
        R.set_ptr(a[2].moved(k), R.at_ptr(a[0].moved(k)))
    return a[2].moved(max(a[1], 0))


def a_iota(R, e, a):
    v = a[2]
    for k in range(len(seq(R, a[0], a[1]))):
        R.set_ptr(a[0].moved(k), v + k)


def a_accumulate(R, e, a):
    f = R.callback(e) if len(a) > 3 else None
    r = a[2]
    for x in seq(R, a[0], a[1]):
        if f is None and not (isinstance(x, (int, float)) and isinstance(r, (int, float))):
            raise Unknown('a sum')
        r = f(r, x) if f else r + x
    return r


def extreme(high):
    def h(R, e, a):
        x = seq(R, a[0], a[1])
        less = R.callback(e) if len(a) > 2 else lambda p, q: sortkey(p) < sortkey(q)
        k = 0
        for i in range(1, len(x)):
            if less(x[k], x[i]) if high else less(x[i], x[k]):
                k = i
        return a[0].moved(k)
    return h


def a_swap_at(R, e, a):
    x, y = R.at_ptr(a[0]), R.at_ptr(a[1])
    R.set_ptr(a[0], y)
    R.set_ptr(a[1], x)


def a_stable_partition(R, e, a):
    f = R.callback(e)
    x = seq(R, a[0], a[1])
    k = [bool(f(v)) for v in x]
    y = [v for v, c in zip(x, k) if c] + [v for v, c in zip(x, k) if not c]
    for i, v in enumerate(y):
        R.set_ptr(a[0].moved(i), v)
    return a[0].moved(sum(k))


def a_lower_bound(R, e, a):
    x = seq(R, a[0], a[1])
    less = R.callback(e) if len(a) > 3 else lambda p, q: sortkey(p) < sortkey(q)
    i, n = 0, len(x)
    while n > 0:
        h = n // 2
        if less(x[i + h], a[2]):
            i += h + 1
            n -= h + 1
        else:
            n = h
    return a[0].moved(i)


def a_upper_bound(R, e, a):
    x = seq(R, a[0], a[1])
    less = R.callback(e) if len(a) > 3 else lambda p, q: sortkey(p) < sortkey(q)
    for i, v in enumerate(x):
        if less(a[2], v):
            return a[0].moved(i)
    return a[1]


def a_expand(R, e, a):
    """kitty::expand_inplace: variable k of the table becomes variable support[k]"""
    t, sup = tts(a[0]), a[1]
    n = t[1]
    if any(not 0 <= s < n for s in sup):
        raise Damage(f'a table of {n} variables is expanded to the variables {list(sup)}')
    r = 0
    for m in range(1 << n):
        i = 0
        for k, s in enumerate(sup):
            if m >> s & 1:
                i |= 1 << k
        if t[2] >> i & 1:
            r |= 1 << m
    R.set_arg(e, 0, ('tt', n, r))


def a_min_base(R, e, a):
    t = tts(a[0])
    n = t[1]
    sup = [k for k in range(n) if any((t[2] >> m & 1) != (t[2] >> (m ^ 1 << k) & 1) for m in range(1 << n))]
    r = 0
    for m in range(1 << n):
        i = sum(1 << s for k, s in enumerate(sup) if m >> k & 1)
        if t[2] >> i & 1:
            r |= 1 << m
    R.set_arg(e, 0, ('tt', n, r))
    return list(sup)


def bit_op(f):
    def h(R, e, a):
        _, n, v = tts(a[0])
        if not isinstance(a[1], int):
            raise Unknown('index of a bit')
        if not 0 <= a[1] < 1 << n:
            raise Damage(f'bit {a[1]} of a table of {n} variables')
        R.set_arg(e, 0, ('tt', n, f(v, 1 << a[1])))
    return h


ALGO = {'set_bit': bit_op(lambda v, b: v | b), 'clear_bit': bit_op(lambda v, b: v & ~b), 'flip_bit': bit_op(lambda v, b: v ^ b), 'copy': a_copy, 'set_union': a_set_union, 'fill': a_fill, 'find_if': a_find_if, 'any_of': a_any, 'all_of': a_all, 'stable_partition': a_stable_partition, 'partition': a_stable_partition, 'none_of': a_none, 'count_if': a_count_if, 'count': a_count,
        'find_if_not': a_find_if_not, 'includes': a_includes, 'remove': kept(1), 'remove_if': kept(1), 'unique': a_unique, 'reverse': a_reverse, 'rotate': a_rotate, 'fill_n': a_fill_n, 'copy_n': a_copy_n,
        'iota': a_iota, 'accumulate': a_accumulate, 'min_element': extreme(False), 'max_element': extreme(True), 'iter_swap': a_swap_at,
        'lower_bound': a_lower_bound, 'upper_bound': a_upper_bound, 'expand_inplace': a_expand, 'min_base_inplace': a_min_base}
PURE.update({'std::' + n: (lambda f: lambda R, a: f(R, None, a))(ALGO[n]) for n in ('includes', 'count', 'accumulate', 'min_element', 'max_element')})


DEFAULTS = {'bool': False, 'f32': 0.0, 'f64': 0.0, **{x + n: 0 for x in 'iu' for n in ('8', '16', '32', '64')}}


KNOWN = {'__assert_fail', 'indirect', 'resize', 'assign'}


class OFrame(Frame_):
    no = 0

    # ---- places
    def filled(self, t, n, x):
        """a sequence constructed from a pair of iterators"""
        if isinstance(n, Ptr) and isinstance(x, Ptr):
            return list(seq(self, n, x))
        raise Unknown(t)

    def place(self, loc):
        c, keys = self.place_(loc)
        if c is None or not keys:
            return c, keys
        for _ in range(4):
            v = self.cur.get(c, MISSING)
            for i, k in enumerate(keys):
                try:
                    v = walk(v, [k])
                except Outside:
                    break
                if isinstance(v, Ref):
                    c, keys = v.p.cell, list(v.p.keys) + keys[i + 1:]
                    break
                if v is MISSING or isinstance(v, NetRef):
                    return c, keys
            else:
                return c, keys
        return c, keys

    def place_(self, loc):
        keys = []
        while True:
            if loc in self.roots:
                r = self.roots[loc]
                if isinstance(r, Ptr):
                    return r.cell, list(r.keys) + keys[::-1]
                if isinstance(r, NetRef):
                    return ('netref', r.cell), keys[::-1]
                return r, keys[::-1]
            o = loc.op
            if o == 'ite':
                loc = loc.args[1] if self.b(loc.args[0]) else loc.args[2]
            elif o == 'fld':
                k = loc.args[1]
                base = loc.args[0]
                if base.op == 'deref' and isinstance(base.args[0], Term) and base.args[0].op == 'find' and k == 'second':
                    a, _, key = base.args[0].args
                    keys.append(self.v(key))
                    loc = a.args[0]
                    continue
                if k == '*':
                    # what a smart pointer or optional holds
                    p = self.peek(base)
                    if isinstance(p, Ptr):
                        return p.cell, list(p.keys) + keys[::-1]
                if base.op == 'idx' and isinstance(base.args[1], Term) and base.args[1].op == 'nth' and k == 'second':
                    # an entry of a map met while walking over it
                    p = nth(self.peek(base.args[0]), self.v(base.args[1].args[0]))
                    keys.append(p[1])
                    loc = base.args[0]
                    continue
                keys.append(k)
                loc = base
            elif o == 'idx' and isinstance(loc.args[1], Term) and loc.args[1].op == 'nth':
                p = nth(self.peek(loc.args[0]), self.v(loc.args[1].args[0]))
                return None, [p] + keys[::-1]
            elif o == 'idx':
                keys.append(self.v(loc.args[1]))
                loc = loc.args[0]
            elif o == 'deref':
                p = self.v(loc.args[0])
                if not isinstance(p, Ptr):
                    if p is None:
                        raise Damage('a null pointer is dereferenced')
                    raise Unknown(f'store through {p!r}'[:100])
                return p.cell, list(p.keys) + keys[::-1]
            elif o == 'val':
                x = self.v(loc.args[0])
                if isinstance(x, Ptr):
                    return x.cell, list(x.keys) + keys[::-1]
                return None, [x] + keys[::-1]
            elif o == 'lref':
                loc = loc.args[0]
            elif o == 'root':
                return ('local', self.no, loc), keys[::-1]
            else:
                raise Unknown(loc)

    def peek(self, loc, s=None):
        c, ks = self.place(loc)
        s = self.cur if s is None else s
        if c is None:
            return walk(ks[0], ks[1:])
        v = walk(s.get(c, MISSING), ks)
        return v

    def through(self, keys, v):
        return keys, v

    def resolve(self, l, s):
        try:
            v = self.peek(l, s)
        except Outside:
            raise
        except Unknown:
            return NotImplemented
        if v is MISSING and l.op == 'idx' and l.args[0] in self.fresh():
            c, ks = self.place(l.args[0])
            if isinstance(walk(s.get(c, MISSING), ks), dict):
                return self.fresh()[l.args[0]]
        if v is MISSING or v is None and l.op == 'root':
            return NotImplemented
        return v

    def fresh(self):
        """values operator[] gives to keys a map does not have"""
        r = self.I.__dict__.get('_fresh')
        if r is None:
            r = self.I._fresh = {}
            for e in self.I.events:
                if e.kind == 'index' and e.name == 'operator[]' and isinstance(e.node, dict) and e.node.get('t') is not None:
                    t = self.machine.P.ty(e.node['t'])
                    d = DEFAULTS.get(t, [] if t.startswith('std::vector') else MISSING)
                    if d is not MISSING:
                        r[e.args[0]] = d
        return r

    def between(self, b, e):
        if not isinstance(b, RPtr):
            return seq(self, b, e)
        (c, i), (d, j) = b.index(), e.index()
        if c != d or j > i:
            raise Damage('iterators of different containers are combined')
        return [self.at_ptr(Ptr(b.cell, b.keys[:-1] + (k,))) for k in range(i, j, -1)]

    def at_ptr(self, p, s=None):
        v = walk((self.cur if s is None else s).get(p.cell, MISSING), p.keys)
        if v is MISSING:
            raise Unknown(f'{p!r} has no value')
        return v

    def set_ptr(self, p, v):
        self.cur = {**self.cur, p.cell: oset(self.cur.get(p.cell, MISSING), list(p.keys), lambda old: conv(old, v))}

    def set_arg(self, e, i, v):
        l = e.locs[i] if i < len(getattr(e, 'locs', [])) else None
        if l is None:
            l = locof(e.args[i])
        if l is None:
            raise Unknown(f'{e.name}: argument {i} has no place')
        self.update(l, lambda old: v)

    def update(self, loc, f):
        c, ks = self.place(loc)
        if c is None:
            return
        if isinstance(c, tuple) and c[0] == 'local':
            try:
                self.cur = {**self.cur, c: oset(self.cur.get(c, MISSING), ks, f)}
            except Outside:
                raise
            except (Unknown, TypeError, AttributeError):
                self.cur = {k: v for k, v in self.cur.items() if k != c}
            return
        self.cur = {**self.cur, c: oset(self.cur.get(c, MISSING), ks, f)}

    def enter(self, lid):
        for q, x in self.loops[lid]['init'].items():
            if isinstance(q, Term) and q.op == 'root' and q not in self.roots:
                try:
                    v = self.val(x)
                except Unknown:
                    continue
                if isinstance(v, (list, dict)) or isinstance(v, tuple) and v and v[0] == 'tt':
                    self.cur = {**self.cur, ('local', self.no, q): v}

    # ---- networks
    def cell_of(self, loc):
        if isinstance(loc, NetRef):
            return loc.cell
        if loc in self.nets:
            return self.nets[loc]
        if isinstance(loc, Term):
            if loc in self.roots and isinstance(self.roots[loc], NetRef):
                return self.roots[loc].cell
            if loc.op in ('ld', 'val', 'addr', 'lref') and isinstance(loc.args[0], Term):
                return self.cell_of(loc.args[0])
            try:
                c, ks = self.place(loc)
            except Unknown:
                raise Unknown(f'network {show(loc)[:80]}')
            if isinstance(c, tuple) and c[0] == 'netref':
                return c[1]
            v = walk(self.cur.get(c, MISSING), ks)
            if isinstance(v, NetRef):
                return v.cell
            if isinstance(v, (Net, View)) and not ks:
                return c
        raise Unknown(f'network {show(loc)[:80]}')

    # ---- values
    def lin(self, t):
        c, ts = t.args
        s, ptr = c, []
        for x, k in ts:
            v = self.v(x)
            if isinstance(v, Ptr):
                ptr.append((v, k))
            elif isinstance(v, (int, bool, float)):
                s += k * (v if isinstance(v, float) else int(v))
            elif v is Undef:
                raise Damage(f'{show(x)[:60]} is used before it has a value')
            else:
                raise Unknown(x)
        if not ptr:
            return s
        if len(ptr) == 1 and ptr[0][1] == 1:
            return ptr[0][0].moved(s)
        if len(ptr) == 2 and {k for _, k in ptr} == {1, -1}:
            p = [x for x, k in ptr if k == 1][0]
            q = [x for x, k in ptr if k == -1][0]
            (a, i), (b, j) = p.index(), q.index()
            if a != b:
                raise Damage('iterators of different containers are compared')
            return i - j + s
        raise Unknown(t)

    def position(self, it):
        return it.index()[1] if isinstance(it, Ptr) else it

    def known_pure(self, x):
        n = str(x.args[0])
        h = self.machine.pures.get(n) or self.machine.pures.get(short(n))
        return h

    def mleaf(self, t):
        x = t.args[0] if t.op == 'bitf' else t
        o = x.op
        if o in ('call', 'm', 'ret', 'std') and x in self.rets:
            return self.rets[x]
        if o in ('iter', 'riter'):
            c, ks = self.place(x.args[0])
            if c is None:
                raise Unknown(x)
            return (Ptr if o == 'iter' else RPtr)(c, tuple(ks) + (self.v(x.args[1]),))
        if o == 'addr':
            c, ks = self.place(x.args[0])
            if c is not None:
                return Ptr(c, ks)
        if o == 'call' and isinstance(x.args[0], str) and x.args[0].endswith('&'):
            k = ('ref', x.args[0][:-1])
            if k in self.rets:
                return self.rets[k]
        if o == 'call' and str(x.args[0]).split('::')[-1] in ('operator==', 'operator!=') and len(x.args) == 3:
            a, b = self.v(x.args[1]), self.v(x.args[2])
            return (plain(a) == plain(b)) == str(x.args[0]).endswith('==')
        if o == 'call' and str(x.args[0]).endswith('operator()') and len(x.args) > 1:
            f = self.v(x.args[1])
            if isinstance(f, tuple) and f and f[0] == 'fn':
                return self.call_fn(f, [self.v(a) for a in x.args[2:]])
        if o == 'call':
            h = self.known_pure(x)
            if h is not None:
                return h(self, [self.v(a) for a in x.args[1:]])
        if o == 'size' and not isinstance(x.args[0], B):
            v = self.v(x.args[0])
            if isinstance(v, (list, str, dict)):
                return len(v)
        if o == 'call' and str(x.args[0]).startswith(('std::vector', 'ctor:std::vector')) or o == 'vector':
            a = [self.v(y) for y in x.args[(1 if o == 'call' else 0):]]
            if len(a) == 2 and all(isinstance(y, Ptr) for y in a):
                return seq(self, *a)
        if o == 'call' and str(x.args[0]) in ('ctor:unordered_set', 'ctor:set') and len(x.args) > 2:
            a = [self.v(y) for y in x.args[1:3]]
            if all(isinstance(y, Ptr) for y in a):
                l = list(dict.fromkeys(plain(y) for y in seq(self, *a)))
                return sorted(l, key=sortkey) if str(x.args[0]) == 'ctor:set' else l
        if o == 'ld':
            r = self.resolve(x.args[0], self.store_at(max(x.args[1] if len(x.args) > 1 else 0, ep_(x.args[0]))))
            if r is not NotImplemented:
                return r
            if x.args[0].op == 'root' and x.args[0].args[0] == 'new':
                return Undef                # an object whose construction sets nothing
        if o in ('q', 'el', 'nel'):
            return XRun.mleaf(self, t)
        return super().mleaf(t)

    def query(self, name, loc, args, store):
        h = self.queries.get(name)
        if h:
            return h(self, self.base(loc, store), self.net(loc, store), args)
        return super().query(name, loc, args, store)

    # ---- callbacks handed to library functions
    def callback(self, e):
        evs = self.I.events
        i = next(k for k, x in enumerate(evs) if x is e)
        cb = None
        for x in evs[i + 1:]:
            if x.kind == 'cbret' and len(x.loops) > len(e.loops) and str(x.loops[len(e.loops)].kind).startswith('each:') and str(x.name) == short(e.name):
                cb = x
                break
            if len(x.loops) <= len(e.loops) and x.kind not in ('epoch',):
                break
        if cb is None:
            raise Unknown(f'the function handed to {e.name}')
        L = cb.loops[len(e.loops)]
        args = {}

        def find(t):
            st, seen = [t], set()
            while st:
                y = st.pop()
                if id(y) in seen:
                    continue
                seen.add(id(y))
                if isinstance(y, B):
                    at = batoms(y)
                    st += list(at.values() if isinstance(at, dict) else at)
                elif isinstance(y, Term):
                    if y.op == 'cbarg' and y.args[2] is L.iv:
                        args[y] = y.args[1]
                        continue
                    st += list(y.args)
                    if y.op in ('lo', 'phi', 'loopret') and y.args and y.args[0] in self.loops:
                        li = self.loops[y.args[0]]
                        for part in (li['init'], li['next']):
                            st += [z for z in part.values() if z is not None]
                        st += [li['cond'], li['post']] + [b for b, _ in li['brk']] + [b for _, b in li['rets']]
                        st += [z for _, d in li['brk'] for z in d.values()]
                elif isinstance(y, (list, tuple)):
                    st += list(y)
        find(cb.args[0])
        depth = len(e.loops) + 1
        body = [x for x in evs if L in x.loops]
        busy = any(x.kind not in ('epoch', 'cbret') for x in body)
        if busy:
            for x in body:
                find([x.args, x.guard])

        def fn(*xs):
            memo, self.memo = self.memo, {}
            saved = dict(self.over)
            for a, i in args.items():
                self.over[a] = xs[i]
            for x in evs:
                # memory seen inside the function is the present one
                if x.kind == 'epoch' and L in x.loops:
                    self.snap[x.extra] = self.cur
            try:
                if busy:
                    for x in self._block(body, depth):
                        self.apply(x)
                    self.memo = {}
                return self.val(cb.args[0])
            finally:
                self.over.clear()
                self.over.update(saved)
                self.memo = memo
        return fn

    # ---- events
    KINDS = Frame_.KINDS + ('cbret', 'index')

    def apply(self, e):
        k = e.kind
        if k == 'cbret':
            return
        if k == 'insert' and isinstance(e.extra, tuple) and 'map' in e.extra[1]:
            self.memo = {}
            a = [self.val(x) for x in e.args]
            key, v = (a[0][1], a[0][2]) if len(a) == 1 and isinstance(a[0], tuple) and a[0][0] == 'pair' else a
            key, over = plain(key), e.extra[0] == 'insert_or_assign'
            new = [True]

            def put(old):
                old = {} if old is MISSING or not old else old
                new[0] = key not in old
                return {**old, key: v} if over or new[0] else old
            self.update(e.name, put)
            self.result(e, ('pair', Undef, new[0]))
            return
        if k == 'insert' and isinstance(e.extra, tuple) and 'set' in e.extra[1] and len(e.args) == 1:
            self.memo = {}
            v, new = plain(self.val(e.args[0])), [True]

            def put(old):
                old = [] if old is MISSING or not old else list(old)
                new[0] = v not in old
                if not new[0]:
                    return old
                return old + [v] if e.extra[1].startswith('unordered') else sorted(old + [v], key=sortkey)
            self.update(e.name, put)
            self.result(e, ('pair', Undef, new[0]))
            return
        if k == 'erase' and self.erase(e):
            return
        if k == 'index':
            if e.name == 'operator[]' and e.args[0] in self.fresh():
                try:
                    c, ks = self.place(e.args[0])
                    m = walk(self.cur.get(c, MISSING), ks)
                    if isinstance(m, dict) and plain(self.val(e.args[1])) not in m:
                        self.memo = {}
                        d = self.fresh()[e.args[0]]
                        self.cur = {**self.cur, c: oset(self.cur[c], ks + [self.val(e.args[1])], lambda old: d)}
                except Outside:
                    raise
                except Unknown:
                    pass
            return
        if k == 'call' and not (isinstance(e.extra, tuple) and e.extra and e.extra[0] == 'net'):
            M = self.machine
            name = str(e.name)
            if e.fid in M.byfid:
                self.steps += 1
                self.memo = {}
                m = M.byfid[e.fid]
                off = 1 if m.method else 0
                locs = list(getattr(e, 'locs', []))
                locs += [None] * (len(e.args) - len(locs))
                this = None
                if off:
                    c, ks = self.place(locs[0])
                    this = Ptr(c, ks) if c is not None else None
                    if this is None:
                        raise Unknown(f'{name}: object')
                vals, boxed = [], []
                for i, a in enumerate(e.args[off:]):
                    l = locs[i + off]
                    p = m.f['p'][i]
                    if p.get('ref') and l is None:
                        l = locof(a)
                    if p.get('ref') and l is not None:
                        try:
                            c, ks = self.place(l)
                        except Outside:
                            raise
                        except Unknown:
                            c = None
                        if isinstance(c, tuple) and c[0] == 'netref':
                            vals.append(NetRef(c[1]))
                            continue
                        if isinstance(c, tuple) and c[0] == 'local' and not ks:
                            # the value the local variable is known to have comes before what was stored for it
                            try:
                                v = self.val(a)
                            except Outside:
                                raise
                            except Unknown:
                                v = MISSING
                            if v is not MISSING and not isinstance(v, (Ptr, NetRef)):
                                self.cur = {**self.cur, c: v}
                        if c is not None and (not p.get('cst') or walk(self.cur.get(c, MISSING), ks) is not MISSING):
                            if isinstance(walk(self.cur.get(c, MISSING), ks), NetRef):
                                vals.append(walk(self.cur[c], ks))
                            else:
                                vals.append(Ptr(c, ks))
                            continue
                    if isinstance(a, Term) and a.op == 'lam':
                        vals.append(('fn', self, self.callback(e)))
                        continue
                    v = self.val(a)
                    if p.get('ref') and isinstance(v, Ptr) and iter_type(m.I.p.ty(p['t'])):
                        M.boxes = getattr(M, 'boxes', 0) + 1        # a reference to a temporary iterator
                        c = ('boxed', M.boxes)
                        self.cur = {**self.cur, c: v}
                        boxed.append(c)
                        v = Ptr(c)
                    vals.append(v)
                M.store = self.cur
                r = M.ocall(m, this, vals)
                self.cur = {c: v for c, v in M.store.items() if c not in boxed} if boxed else M.store
                self.result(e, r)
                return
            if name.endswith('(lambda)::operator()'):
                self.memo = {}
                f = self.val(e.args[0])
                if isinstance(f, tuple) and f and f[0] == 'fn':
                    self.result(e, self.call_fn(f, [self.val(a) for a in e.args[1:]]))
                    return
            h = M.pures.get(name) or (M.pures.get(short(name)) if not name.startswith('std::') else None)
            if h is not None and not (short(name) in ALGO and any(isinstance(a, Term) and a.op == 'lam' for a in e.args)):
                self.memo = {}
                try:
                    r = h(self, [self.val(a) for a in e.args])
                except (Damage, Outside):
                    raise
                except Unknown:
                    return
                self.result(e, r)
                return
            h = M.algos.get(name)
            if h is not None:
                self.memo = {}
                self.result(e, h(self, e))
                return
            if short(name) in ALGO and (name.startswith('std::') or name.startswith('kitty::')):
                self.memo = {}
                r = ALGO[short(name)](self, e, [None if isinstance(a, Term) and a.op == 'lam' else self.val(a) for a in e.args])
                self.result(e, r)
                return
            if name in ('std::tuple::operator=', 'std::pair::operator=') and len(e.args) == 2:
                self.memo = {}
                self.set_arg(e, 0, self.val(e.args[1]))
                return
            self.unmodelled(e, name)
        super().apply(e)

    def erase(self, e):
        """one element, given by its iterator or key, or a range of a vector"""
        self.memo = {}
        c, ks = self.place(e.name)
        old = walk(self.cur.get(c, MISSING), ks)
        a = [x.args[0] if isinstance(x, Term) and x.op == 'call' and 'iterator' in str(x.args[0]) and len(x.args) == 2 and isinstance(x.args[0], Term) else x for x in e.args]
        a = [plain_iter(x) or x for x in a]
        if isinstance(old, dict) and len(a) == 1:
            key = plain(self.val(a[0].args[2] if isinstance(a[0], Term) and a[0].op == 'find' else a[0]))
            if isinstance(a[0], Term) and a[0].op == 'find' and key not in old:
                raise Damage('the end of a container is erased')
            if isinstance(key, Ptr):
                raise Unknown('erase of an entry met while walking over the container')
            self.update(e.name, lambda o: {x: y for x, y in o.items() if x != key})
            return True
        if not isinstance(old, list):
            return False
        pos = []
        for x in a:
            v = self.val(x)
            if isinstance(v, Ptr) and v.keys and isinstance(v.keys[-1], int) and (v.cell, tuple(v.keys[:-1])) == (c, tuple(ks)):
                pos.append(v.keys[-1])
            elif isinstance(v, tuple) and v and v[0] == 'it' and isinstance(v[2], int):
                pos.append(v[2])
            elif len(a) == 1 and isinstance(v, (int, tuple)) and not isinstance(v, Ptr):
                v = plain(v)                # a key of a set
                self.update(e.name, lambda o: [y for y in o if y != v])
                return True
            else:
                return False
        if len(pos) == 1:
            pos.append(pos[0] + 1)
        i, j = pos
        if not 0 <= i <= j <= len(old):
            raise Damage(f'the positions {i} to {j} of a container of {len(old)} elements are erased')
        self.update(e.name, lambda o: o[:i] + o[j:])
        if len(e.args) == 1:
            self.result(e, Ptr(c, tuple(ks) + (i,)))
        return True

    def unmodelled(self, e, name):
        """a call without a model that may store into its arguments: their values are not known any more"""
        v = e.val
        if isinstance(v, B):
            at = batoms(v)
            v = next((a.args[0] for a in (at.values() if isinstance(at, dict) else at) if isinstance(a, Term) and a.op == 'bitf'), None)
        if not (isinstance(v, Term) and v.op == 'ret') or short(name) in KNOWN or self.contracts.get(short(name)):
            return
        for l in getattr(e, 'locs', []):
            if l is None:
                continue
            try:
                c, ks = self.place(l)
            except Outside:
                raise
            except Unknown:
                continue
            if c is None:
                continue
            if isinstance(c, tuple) and c[0] in ('local', 'netref'):
                self.cur = {k: x for k, x in self.cur.items() if k != c}
            else:
                raise Unknown(f'{name} may change {show(l)[:80]}')

    def call_fn(self, f, xs):
        _, R, fn = f
        R.cur = {**R.cur, **self.cur}
        return fn(*xs)

    def result(self, e, r):
        if e.val is not None and isinstance(e.val, Term):
            self.rets[e.val] = r
        elif isinstance(e.val, B):
            at = batoms(e.val)
            for a in at.values() if isinstance(at, dict) else at:
                if isinstance(a, Term) and a.op == 'bitf':
                    self.rets[a.args[0]] = r
        if isinstance(r, Ptr):
            self.rets['ref', str(e.name)] = r
        self.memo = {}

    def _block(self, evs, d):
        """the loops that stand for the functions handed to library functions are not run on their own"""
        L = self.__dict__.get('_lib')
        if L is None:
            L = self._lib = {l for e in self.I.events if e.kind == 'cbret' and e.loops for l in [e.loops[-1]]
                             if str(l.kind).startswith('each:') and (l.kind[5:] in ALGO or l.kind[5:] in self.machine.fns)}
        return super()._block([e for e in evs if not (len(e.loops) > d and e.loops[d] in L)], d)


def ep_(l):
    from .trans import epoch_of
    return epoch_of(l)
