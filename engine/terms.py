"""Hash-consed value terms, canonical linear integer forms and Boolean guards
(ROBDDs whose variables are canonical atoms).  Everything the rules compare is
compared by identity of these canonical forms, so two spellings of the same
computation are the same object."""
import sys
sys.setrecursionlimit(200000)


class Term:
    __slots__ = ('op', 'args', 'tid', '_h')

    def __repr__(self):
        return show(self)


_tab = {}
_cnt = [0]


def T(op, *args):
    k = (op,) + args
    t = _tab.get(k)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        _cnt[0] += 1
        t.tid = _cnt[0]
        _tab[k] = t
    return t


def is_t(x):
    return isinstance(x, Term)


# ---------------------------------------------------------------- Booleans
# BDD node: (var, lo, hi) interned; terminals False/True as 0/1
class B:
    __slots__ = ('v', 'lo', 'hi', 'bid', 'op', 'args', 'tid')

    def __repr__(self):
        return showb(self)


def _mkterm(v):
    b = B()
    b.v = None
    b.lo = b.hi = None
    b.bid = v
    b.op = 'bool'
    b.args = ()
    _cnt[0] += 1
    b.tid = _cnt[0]
    return b


FALSE = _mkterm(0)
TRUE = _mkterm(1)
_btab = {}
_bcnt = [2]
_atoms = []          # index -> atom Term
_atomidx = {}
_itecache = {}


class Blowup(Exception):
    pass


LIMIT = [400000]


def _mk(v, lo, hi):
    if lo is hi:
        return lo
    k = (v, lo.bid, hi.bid)
    b = _btab.get(k)
    if b is None:
        b = B()
        b.v, b.lo, b.hi = v, lo, hi
        b.bid = _bcnt[0]
        _bcnt[0] += 1
        b.op = 'bool'
        b.args = ()
        _cnt[0] += 1
        b.tid = _cnt[0]
        _btab[k] = b
    return b


def atom(t):
    i = _atomidx.get(t)
    if i is None:
        i = len(_atoms)
        _atoms.append(t)
        _atomidx[t] = i
    return _mk(i, FALSE, TRUE)


def _top(*bs):
    return min(b.v for b in bs if b.v is not None)


def bite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    k = (c.bid, a.bid, b.bid)
    r = _itecache.get(k)
    if r is not None:
        return r
    v = c.v
    if a.v is not None and a.v < v:
        v = a.v
    if b.v is not None and b.v < v:
        v = b.v

    def lo(x):
        return x.lo if x.v == v else x

    def hi(x):
        return x.hi if x.v == v else x
    r = _mk(v, bite(lo(c), lo(a), lo(b)), bite(hi(c), hi(a), hi(b)))
    _itecache[k] = r
    return r


def band(*xs):
    r = TRUE
    for x in xs:
        r = bite(r, x, FALSE)
    return r


def bor(*xs):
    r = FALSE
    for x in xs:
        r = bite(r, TRUE, x)
    return r


def bnot(x):
    return bite(x, FALSE, TRUE)


def bxor(a, b):
    return bite(a, bnot(b), b)


def bxnor(a, b):
    return bite(a, b, bnot(b))


def bimp(a, b):
    return bite(a, b, TRUE)


def batoms(b):
    """atoms in the support of b"""
    seen = set()
    out = {}

    def go(x):
        if x.v is None or x.bid in seen:
            return
        seen.add(x.bid)
        out[x.v] = _atoms[x.v]
        go(x.lo)
        go(x.hi)
    go(b)
    return [out[k] for k in sorted(out)]


def bsub(b, f):
    """substitute atoms: f(atom Term) -> B (or None to keep)"""
    memo = {}

    def go(x):
        if x.v is None:
            return x
        r = memo.get(x.bid)
        if r is None:
            a = _atoms[x.v]
            s = f(a)
            if s is None:
                s = atom(a)
            r = bite(s, go(x.hi), go(x.lo))
            memo[x.bid] = r
        return r
    return go(b)


def brestrict(b, t, val):
    i = _atomidx.get(t)
    if i is None:
        return b
    return bsub(b, lambda a: (TRUE if val else FALSE) if a is t else None)


def bexists(b, pred):
    """existentially quantify atoms satisfying pred"""
    for a in batoms(b):
        if pred(a):
            b = bor(brestrict(b, a, True), brestrict(b, a, False))
    return b


# ---------------------------------------------------------------- theory
def _lin_split(l):
    # ('lin', const, ((t,c),...))
    return l.args[0], l.args[1]


def consistent(assign):
    """assign: list of (atom Term, bool).  Decide consistency of the integer
    bounds / equalities they put on linear forms (interval reasoning per
    linear part, plus transitive equality of terms)."""
    lo, hi, ne, eqv = {}, {}, {}, {}
    for a, v in assign:
        if a.op in ('le0', 'eq0'):
            c, part = _lin_split(a.args[0])
            if a.op == 'le0':
                # part + c <= 0
                if v:
                    hi[part] = min(hi.get(part, 10**30), -c)
                else:
                    lo[part] = max(lo.get(part, -10**30), -c + 1)
            else:
                if v:
                    if part in eqv and eqv[part] != -c:
                        return False
                    eqv[part] = -c
                else:
                    ne.setdefault(part, set()).add(-c)
    for p in set(lo) | set(hi) | set(eqv) | set(ne):
        l, h = lo.get(p, -10**30), hi.get(p, 10**30)
        if len(p) == 1 and p[0][1] == 1 and nonneg(p[0][0]):
            l = max(l, 0)
        if p in eqv:
            l = max(l, eqv[p])
            h = min(h, eqv[p])
        while l in ne.get(p, ()):
            l += 1
        while h in ne.get(p, ()):
            h -= 1
        if l > h:
            return False
        if l == h and p not in eqv:
            eqv[p] = l
    # equality propagation  a==c fixes a ; a-b==0 -> same class
    cls = {}

    def find(x):
        while cls.get(x, x) is not x:
            x = cls[x]
        return x
    val = {}
    diffs = []
    for p, c in eqv.items():
        if len(p) == 2 and p[0][1] == -p[1][1] and c == 0:
            a, b = find(p[0][0]), find(p[1][0])
            if a is not b:
                cls[a] = b
        elif len(p) == 1 and c % p[0][1] == 0:
            val[p[0][0]] = c // p[0][1]
    vals = {}
    for t, c in val.items():
        r = find(t)
        if r in vals and vals[r] != c:
            return False
        vals[r] = c
    bounds = {}
    for p in set(lo) | set(hi) | set(ne):
        s = 0
        ok = True
        acc = {}
        for t, c in p:
            r = find(t)
            if r in vals:
                s += c * vals[r]
            else:
                acc[r] = acc.get(r, 0) + c
        if any(acc.values()):
            ok = False
        if ok:
            if s < lo.get(p, -10**30) or s > hi.get(p, 10**30) or s in ne.get(p, ()):
                return False
    # difference ordering: x<=y-1 and y<=x-1 etc. share the same linear part,
    # already handled by canonical sign.  x<y, y<z not chained (sound: weaker).
    dist = {}
    for p in set(lo) | set(hi):
        if len(p) == 2 and p[0][1] == 1 and p[1][1] == -1:
            a, b = find(p[0][0]), find(p[1][0])
            if p in hi:   # a - b <= h
                k = (a, b)
                dist[k] = min(dist.get(k, 10**30), hi[p])
            if p in lo:   # b - a <= -l
                k = (b, a)
                dist[k] = min(dist.get(k, 10**30), -lo[p])
    if len(dist) > 1:
        nodes = {x for k in dist for x in k}
        if len(nodes) <= 8:
            for k in nodes:
                for i in nodes:
                    for j in nodes:
                        if (i, k) in dist and (k, j) in dist:
                            d = dist[(i, k)] + dist[(k, j)]
                            if d < dist.get((i, j), 10**30):
                                dist[(i, j)] = d
            for n in nodes:
                if dist.get((n, n), 0) < 0:
                    return False
    return True


_unsigned = set()


def mark_unsigned(t):
    _unsigned.add(t)


def nonneg(t):
    return t in _unsigned or t.op in ('size', 'iv', 'b2i')


def satisfiable(b, limit=20000):
    """True iff some path of b is consistent with the integer theory"""
    n = [0]

    def go(x, asg):
        if x is FALSE:
            return False
        n[0] += 1
        if n[0] > limit:
            raise Blowup()
        if x is TRUE:
            return consistent(asg)
        a = _atoms[x.v]
        rel = a.op in ('le0', 'eq0')
        for val, nx in ((True, x.hi), (False, x.lo)):
            if nx is FALSE:
                continue
            a2 = asg + [(a, val)]
            if rel and not consistent(a2):
                continue
            if go(nx, a2):
                return True
        return False
    try:
        return go(b, [])
    except Blowup:
        return None


def implies(g, c):
    """g => c ?  True / False / None(unknown)"""
    s = satisfiable(band(g, bnot(c)))
    return None if s is None else (not s)


def equiv(a, b):
    s = satisfiable(bxor(a, b))
    return None if s is None else (not s)


def witness(b):
    """a consistent satisfying cube (list of (atom,val)) or None"""
    def go(x, asg):
        if x is FALSE:
            return None
        if x is TRUE:
            return asg if consistent(asg) else None
        a = _atoms[x.v]
        for val, nx in ((True, x.hi), (False, x.lo)):
            r = go(nx, asg + [(a, val)])
            if r is not None:
                return r
        return None
    return go(b, [])


# ---------------------------------------------------------------- integers
def C(n):
    return T('c', int(n))


def S(s):
    return T('s', s)


def isc(t):
    return t.op == 'c'


def cval(t):
    return t.args[0]


def to_lin(t):
    if t.op == 'c':
        return t.args[0], ()
    if t.op == 'lin':
        return t.args
    if isinstance(t, B):
        if t is TRUE:
            return 1, ()
        if t is FALSE:
            return 0, ()
        return 0, ((T('b2i', t), 1),)
    return 0, ((t, 1),)


def from_lin(c, terms):
    d = {}
    for t, k in terms:
        d[t] = d.get(t, 0) + k
    l = tuple(sorted(((t, k) for t, k in d.items() if k), key=lambda x: x[0].tid))
    if not l:
        return C(c)
    if c == 0 and len(l) == 1 and l[0][1] == 1:
        return l[0][0]
    return T('lin', c, l)


def add(a, b):
    if a.op == 'ite' and b.op in ('c',):
        return ite(a.args[0], add(a.args[1], b), add(a.args[2], b))
    if b.op == 'ite' and a.op in ('c',):
        return ite(b.args[0], add(a, b.args[1]), add(a, b.args[2]))
    ca, la = to_lin(a)
    cb, lb = to_lin(b)
    return from_lin(ca + cb, la + lb)


def scale(a, k):
    ca, la = to_lin(a)
    return from_lin(ca * k, tuple((t, c * k) for t, c in la))


def sub(a, b):
    return add(a, scale(b, -1)) if not (b.op == 'ite' and a.op == 'c') else ite(b.args[0], sub(a, b.args[1]), sub(a, b.args[2]))


def mul(a, b):
    if isc(b):
        return scale(a, cval(b))
    if isc(a):
        return scale(b, cval(a))
    if a.tid > b.tid:
        a, b = b, a
    return T('mul', a, b)


def as_bit(t):
    """view integer term t as Boolean if it is 0/1"""
    if isinstance(t, B):
        return t
    if isc(t) and cval(t) in (0, 1):
        return TRUE if cval(t) else FALSE
    if t.op == 'b2i':
        return t.args[0]
    if t.op == 'bitf':      # one-bit field value
        return atom(t)
    if t.op == 'ite':
        x, y = as_bit(t.args[1]), as_bit(t.args[2])
        if x is not None and y is not None:
            return bite(t.args[0], x, y)
    if t.op == 'lin' and t.args[0] == 1 and len(t.args[1]) == 1 and t.args[1][0][1] == -1:
        x = as_bit(t.args[1][0][0])
        if x is not None:
            return bnot(x)
    return None


def split_low(t):
    """decompose integer t = 2*hi + lo(bool); returns (hi, lo) or None"""
    if isc(t) and cval(t) >= 0:
        return C(cval(t) >> 1), (TRUE if cval(t) & 1 else FALSE)
    if t.op == 'ld2':           # whole packed word of a record
        return None
    if t.op == 'ite':
        a, b = split_low(t.args[1]), split_low(t.args[2])
        if a and b:
            return ite(t.args[0], a[0], b[0]), bite(t.args[0], a[1], b[1])
        return None
    if t.op == 'lin':
        c, l = t.args
        ev = [(x, k // 2) for x, k in l if k % 2 == 0]
        od = [(x, k) for x, k in l if k % 2]
        if not od:
            return from_lin(c // 2, tuple(ev)), (TRUE if c % 2 else FALSE)
        if len(od) == 1 and od[0][1] in (1, -1):
            bt = as_bit(od[0][0])
            if bt is not None:
                k = od[0][1]
                # c + k*b : c even,k=1 -> (c/2, b) ; c odd,k=-1 -> ((c-1)/2, !b)
                if c % 2 == 0 and k == 1:
                    return from_lin(c // 2, tuple(ev)), bt
                if c % 2 == 1 and k == -1:
                    return from_lin((c - 1) // 2, tuple(ev)), bnot(bt)
                if c % 2 == 1 and k == 1:   # 2m+1+b = 2(m+b)+!b
                    return add(from_lin((c - 1) // 2, tuple(ev)), b2i(bt)), bnot(bt)
                if c % 2 == 0 and k == -1:
                    return sub(from_lin(c // 2, tuple(ev)), b2i(bt)), bt
    bt = as_bit(t)
    if bt is not None:
        return C(0), bt
    return None


def cat(hi, lo):
    return add(scale(hi, 2), b2i(lo))


def b2i(b):
    if not isinstance(b, B):
        return b
    if b is TRUE:
        return C(1)
    if b is FALSE:
        return C(0)
    return T('b2i', b)


def i2b(t):
    """integer/pointer term -> truth value"""
    if isinstance(t, B):
        return t
    if isc(t):
        return TRUE if cval(t) else FALSE
    if t.op == 'b2i':
        return t.args[0]
    if t.op == 'ite':
        return bite(t.args[0], i2b(t.args[1]), i2b(t.args[2]))
    if t.op == 'null':
        return FALSE
    if t.op in ('addr', 'new', 'lam'):
        return TRUE
    if t.op in ('lin', 'bitf'):
        return bnot(eq(t, C(0)))
    return bnot(eq(t, C(0)))


def bxor_i(a, b):
    """integer xor"""
    if isc(a) and isc(b):
        return C(cval(a) ^ cval(b))
    if isc(a):
        a, b = b, a
    x, y = as_bit(a), as_bit(b)
    if x is not None and y is not None:
        return b2i(bxor(x, y))
    if y is not None:
        s = split_low(a)
        if s:
            return cat(s[0], bxor(s[1], y))
    if x is not None:
        s = split_low(b)
        if s:
            return cat(s[0], bxor(s[1], x))
    if b.op == 'ite':
        return ite(b.args[0], bxor_i(a, b.args[1]), bxor_i(a, b.args[2]))
    if a.op == 'ite':
        return ite(a.args[0], bxor_i(a.args[1], b), bxor_i(a.args[2], b))
    if isc(b) and cval(b) == 0:
        return a
    if a is b:
        return C(0)
    if a.tid > b.tid:
        a, b = b, a
    return T('xor', a, b)


def and_i(a, b):
    if isc(a) and isc(b):
        return C(cval(a) & cval(b))
    if isc(a):
        a, b = b, a
    x, y = as_bit(a), as_bit(b)
    if x is not None and y is not None:
        return b2i(band(x, y))
    if isc(b):
        if cval(b) == 0:
            return C(0)
        if cval(b) == 1:
            s = split_low(a)
            if s:
                return b2i(s[1])
        if (cval(b) | 1) & 0xffffffff == 0xffffffff and not cval(b) & 1:
            s = split_low(a)
            if s:
                return scale(s[0], 2)
    if a.op == 'ite':
        return ite(a.args[0], and_i(a.args[1], b), and_i(a.args[2], b))
    if b.op == 'ite':
        return ite(b.args[0], and_i(a, b.args[1]), and_i(a, b.args[2]))
    if a is b:
        return a
    if a.tid > b.tid:
        a, b = b, a
    return T('and', a, b)


def or_i(a, b):
    if isc(a) and isc(b):
        return C(cval(a) | cval(b))
    if isc(a):
        a, b = b, a
    x, y = as_bit(a), as_bit(b)
    if x is not None and y is not None:
        return b2i(bor(x, y))
    if isc(b) and cval(b) == 0:
        return a
    if isc(a) and cval(a) == 0:
        return b
    for p, q in ((a, b), (b, a)):
        bt = as_bit(q)
        if bt is not None:
            s = split_low(p)
            if s:
                return cat(s[0], bor(s[1], bt))
    if a.op == 'ite':
        return ite(a.args[0], or_i(a.args[1], b), or_i(a.args[2], b))
    if b.op == 'ite':
        return ite(b.args[0], or_i(a, b.args[1]), or_i(a, b.args[2]))
    if a is b:
        return a
    if a.tid > b.tid:
        a, b = b, a
    return T('or', a, b)


def shl(a, b):
    if isc(b) and 0 <= cval(b) < 64:
        return scale(a, 1 << cval(b))
    return T('shl', a, b)


def shr(a, b):
    if isc(a) and isc(b):
        return C(cval(a) >> cval(b))
    if isc(b) and cval(b) == 0:
        return a
    if isc(b) and 0 < cval(b) < 64:
        s = split_low(a)
        if s:
            return shr(s[0], C(cval(b) - 1))
    if a.op == 'shr' and isc(a.args[1]) and isc(b):
        return T('shr', a.args[0], C(cval(a.args[1]) + cval(b)))
    return T('shr', a, b)


def div(a, b):
    if isc(a) and isc(b) and cval(b):
        q = abs(cval(a)) // abs(cval(b))
        return C(q if (cval(a) < 0) == (cval(b) < 0) else -q)
    if isc(b):
        n = cval(b)
        if n == 1:
            return a
        if n == 2:
            return shr(a, C(1))
        if n > 0 and n & (n - 1) == 0:
            return shr(a, C(n.bit_length() - 1))
    return T('div', a, b)


def mod(a, b):
    if isc(a) and isc(b) and cval(b):
        return C(cval(a) % cval(b))
    if isc(b) and cval(b) == 2:
        return and_i(a, C(1))
    return T('mod', a, b)


def neg(a):
    return scale(a, -1)


def _canon(l):
    """sign-normalise a lin: returns (term, flipped)"""
    c, ts = to_lin(l)
    if ts and ts[0][1] < 0:
        return from_lin(-c, tuple((t, -k) for t, k in ts)), True
    return l, False


def _aslin(t):
    c, ts = to_lin(t)
    return T('lin', c, ts)


def eq(a, b):
    if a is b:
        return TRUE
    if isinstance(a, B) or isinstance(b, B):
        x, y = as_bit(a), as_bit(b)
        if x is not None and y is not None:
            return bxnor(x, y)
        if isc(a) or isc(b):
            o = a if isc(a) else b
            if cval(o) not in (0, 1):
                return FALSE
    if a.op == 'ite':
        return bite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if b.op == 'ite':
        return bite(b.args[0], eq(a, b.args[1]), eq(a, b.args[2]))
    if a.op == 'b2i' or b.op == 'b2i':
        x, y = as_bit(a), as_bit(b)
        if x is not None and y is not None:
            return bxnor(x, y)
    x, y = as_bit(a), as_bit(b)
    if x is not None and y is not None:
        return bxnor(x, y)
    if a.op == 's' and b.op == 's':
        return FALSE
    if a.op == 'null' or b.op == 'null':
        o = b if a.op == 'null' else a
        if o.op in ('addr', 'new', 'lam'):
            return FALSE
        if o.op == 'c':
            return TRUE if cval(o) == 0 else FALSE
        return atom(T('isnull', o))
    if a.op == 'rec' and b.op == 'rec' and a.args[0] == b.args[0]:
        r = TRUE
        fa, fb = dict(a.args[1]), dict(b.args[1])
        for f in fa:
            r = band(r, eq(fa[f], fb.get(f, T('unk', f))))
        return r
    if isarith(a) and isarith(b):
        sa, sb = split_low(a), split_low(b)
        if sa and sb and (sa[1] not in (TRUE, FALSE) or sb[1] not in (TRUE, FALSE)) and (sa[0] is not C(0) or sb[0] is not C(0)):
            return band(eq(sa[0], sb[0]), bxnor(sa[1], sb[1]))
        d = sub(a, b)
        if isc(d):
            return TRUE if cval(d) == 0 else FALSE
        c, ts = to_lin(d)
        g = 0
        for _, k in ts:
            from math import gcd
            g = gcd(g, abs(k))
        if g > 1:
            if c % g:
                return FALSE
            c //= g
            ts = tuple((t, k // g) for t, k in ts)
        d = from_lin(c, ts)
        d, _ = _canon(d)
        c, ts = to_lin(d)
        # b2i single
        if len(ts) == 1:
            bt = as_bit(ts[0][0])
            if bt is not None:
                return bt if c == -1 else (bnot(bt) if c == 0 else FALSE)
        return atom(T('eq0', _aslin(d)))
    if a.tid > b.tid:
        a, b = b, a
    return atom(T('eq', a, b))


def isarith(t):
    return t.op not in ('s', 'rec', 'null', 'addr', 'lam', 'vec', 'app', 'ins', 'new', 'pair', 'iter')


def le(a, b, flt=False, unsigned=False):
    """a <= b"""
    if flt:
        return bnot(lt(b, a, True))
    return lt(a, add(b, C(1)), False, unsigned)


def lt(a, b, flt=False, unsigned=False):
    if a.op == 'ite' and (isc(a.args[1]) or isc(a.args[2])):
        return bite(a.args[0], lt(a.args[1], b, flt, unsigned), lt(a.args[2], b, flt, unsigned))
    if b.op == 'ite' and (isc(b.args[1]) or isc(b.args[2])):
        return bite(b.args[0], lt(a, b.args[1], flt, unsigned), lt(a, b.args[2], flt, unsigned))
    if a.op == 'flt' and b.op == 'flt':
        return TRUE if float(a.args[0]) < float(b.args[0]) else FALSE
    if flt:
        if a is b:
            return FALSE
        d = sub(a, b)
        if isc(d):
            return TRUE if cval(d) < 0 else FALSE
        d, fl = _canon(d)
        return atom(T('gtf' if fl else 'ltf', _aslin(d)))
    if not (isarith(a) and isarith(b)):
        return atom(T('lt', a, b))
    d = add(sub(a, b), C(1))          # d <= 0
    if isc(d):
        return TRUE if cval(d) <= 0 else FALSE
    c, ts = to_lin(d)
    if len(ts) == 1:
        bt = as_bit(ts[0][0])
        k = ts[0][1]
        if bt is not None:
            r = FALSE
            t1 = TRUE if c + k <= 0 else FALSE
            t0 = TRUE if c <= 0 else FALSE
            return bite(bt, t1, t0)
    neg_ = ts[0][1] < 0
    if neg_:
        # d<=0  <=> not(-d+1 <= 0)
        d2 = add(neg(d), C(1))
        return bnot(_le0(d2, unsigned))
    return _le0(d, unsigned)


def _le0(d, unsigned):
    c, ts = to_lin(d)
    if len(ts) == 1 and ts[0][1] == 1 and (unsigned or nonneg(ts[0][0])):
        if c == 0:
            return atom(T('eq0', _aslin(d)))
        if c > 0:
            return FALSE
    return atom(T('le0', _aslin(d)))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if isinstance(a, B) and isinstance(b, B):
        return bite(c, a, b)
    if isinstance(a, B) and b.op in ('c', 'b2i'):
        b2 = as_bit(b)
        if b2 is not None:
            return bite(c, a, b2)
    if isinstance(b, B) and a.op in ('c', 'b2i'):
        a2 = as_bit(a)
        if a2 is not None:
            return bite(c, a2, b)
    if isinstance(a, B):
        a = b2i(a)
    if isinstance(b, B):
        b = b2i(b)
    x, y = as_bit(a), as_bit(b)
    if x is not None and y is not None:
        return b2i(bite(c, x, y))
    # ite(c, ite(c, x, _), y)
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if b.op == 'ite' and b.args[1] is a:
        return ite(bor(c, b.args[0]), a, b.args[2])
    if a.op == 'ite' and a.args[2] is b:
        return ite(band(c, a.args[0]), a.args[1], b)
    if a.op == 'rec' and b.op == 'rec' and a.args[0] == b.args[0]:
        fa, fb = a.args[1], b.args[1]
        if [f for f, _ in fa] == [f for f, _ in fb]:
            return T('rec', a.args[0], tuple((f, ite(c, v, w)) for (f, v), (_, w) in zip(fa, fb)))
    return T('ite', c, a, b)


# ---------------------------------------------------------------- printing
def show(t, d=0):
    if d > 7:
        return '…'
    if isinstance(t, B):
        return showb(t, d)
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return '(' + ', '.join(show(x, d + 1) for x in t) + ')'
        return str(t)
    o, a = t.op, t.args
    if o == 'c':
        return str(a[0])
    if o == 's':
        return repr(a[0])
    if o == 'lin':
        s = ' + '.join((f'{k}*' if k != 1 else '') + show(x, d + 1) for x, k in a[1])
        return f'({s}{" + " + str(a[0]) if a[0] else ""})'
    if o == 'root':
        return str(a[-1])
    if o == 'fld':
        return f'{show(a[0], d)}.{a[1]}'
    if o == 'idx':
        return f'{show(a[0], d)}[{show(a[1], d + 1)}]'
    if o == 'deref':
        return f'*{show(a[0], d)}'
    if o == 'ld':
        return show(a[0], d) + (f"'{a[1]}" if len(a) > 1 and a[1] else '')
    if o == 'le0':
        return f'{show(a[0], d + 1)}<=0'
    if o == 'eq0':
        return f'{show(a[0], d + 1)}==0'
    if o == 'b2i':
        return f'int({show(a[0], d + 1)})'
    if o == 'bitf':
        return show(a[0], d)
    if o == 'call':
        return f'{a[0].split("::")[-1]}({", ".join(show(x, d + 1) for x in a[1:])})'
    if o == 'iv':
        return f'iv{a[0]}'
    if o == 'ite':
        return f'({show(a[0], d + 1)} ? {show(a[1], d + 1)} : {show(a[2], d + 1)})'
    return o + '(' + ', '.join(show(x, d + 1) for x in a) + ')'


def showb(b, d=0):
    if b is TRUE:
        return 'true'
    if b is FALSE:
        return 'false'
    cubes = []

    def go(x, acc):
        if len(cubes) > 6:
            return
        if x is TRUE:
            cubes.append(acc)
            return
        if x is FALSE:
            return
        s = show(_atoms[x.v], d + 1)
        go(x.hi, acc + [s])
        go(x.lo, acc + ['!' + s])
    go(b, [])
    return '{' + ' | '.join(' & '.join(c) for c in cubes) + '}'


def subterms(t, seen=None):
    """all sub-Terms of t (through BDD atoms and tuples)"""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if isinstance(x, B):
            if ('b', x.bid) in seen:
                continue
            seen.add(('b', x.bid))
            for a in batoms(x):
                st.append(a)
            continue
        if not isinstance(x, Term) or x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(x.args)


def subst(t, f, memo=None):
    """rebuild t bottom-up; f(term)->replacement or None"""
    if memo is None:
        memo = {}
    if isinstance(t, tuple):
        return tuple(subst(x, f, memo) for x in t)
    if isinstance(t, B):
        return bsub(t, lambda a: _sub_atom(a, f, memo))
    if not isinstance(t, Term):
        return t
    if t in memo:
        return memo[t]
    r = f(t)
    if r is None:
        args = tuple(subst(x, f, memo) for x in t.args)
        r = rebuild(t, args)
    memo[t] = r
    return r


def rebuild(t, args):
    if args == t.args:
        return t
    o = t.op
    if o == 'lin':
        r = C(args[0])
        for x, k in args[1]:
            r = add(r, scale(x, k))
        return r
    if o == 'ite':
        return ite(*args)
    if o == 'b2i':
        return b2i(args[0])
    if o == 'and':
        return and_i(*args)
    if o == 'or':
        return or_i(*args)
    if o == 'xor':
        return bxor_i(*args)
    if o == 'shr':
        return shr(*args)
    if o == 'shl':
        return shl(*args)
    if o == 'mul':
        return mul(*args)
    return T(o, *args)


def _sub_atom(a, f, memo):
    r = f(a)
    if r is not None:
        return r if isinstance(r, B) else i2b(r)
    if a.op == 'le0':
        l = subst(a.args[0], f, memo)
        return le(l, C(0))
    if a.op == 'eq0':
        return eq(subst(a.args[0], f, memo), C(0))
    args = tuple(subst(x, f, memo) for x in a.args)
    if args == a.args:
        return None
    if a.op == 'eq':
        return eq(*args)
    if a.op == 'bitf':
        pass
    return atom(T(a.op, *args))


def plain_iter(t):
    while isinstance(t, Term) and len(t.args) == 1 or isinstance(t, Term) and t.op == 'call' and len(t.args) == 2 and 'iterator' in str(t.args[0]):
        t = t.args[-1]
    return t if isinstance(t, Term) and t.op == 'iter' else None


# ---- functions of inputs as bit vectors: all assignments of up to 8 inputs, else 192 fixed ones
WIDE = 8
_pat = {}


def columns(k):
    """(mask, [values of input 0..k-1])"""
    if k not in _pat:
        if k <= WIDE:
            n = 1 << k
            _pat[k] = (1 << n) - 1, [sum(1 << m for m in range(n) if m >> i & 1) for i in range(k)]
        else:
            import random
            rnd = random.Random(77)
            # rare values of single inputs show in the second half
            cs = []
            for i in range(k):
                x = rnd.getrandbits(96)
                y = rnd.getrandbits(96) & rnd.getrandbits(96) & rnd.getrandbits(96)
                cs.append(x | (y if i & 1 else y ^ ((1 << 96) - 1)) << 96)
            _pat[k] = (1 << 192) - 1, cs
    return _pat[k]
