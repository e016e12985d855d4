"""Gated value-graph construction over the resolved AST.

Every function is turned into (a) canonical value terms for what it returns and
writes and (b) a list of events (calls, writes, pushes, returns, aborts) each
carrying the canonical Boolean guard under which it is reached and the loops it
is nested in.  Joins merge values with gating conditions (no path enumeration);
loops are summarised once: induction variables are recognised, everything else a
loop writes becomes an opaque loop value; loops with a statically known trip
count are unrolled.  Repo functions are inlined down to the primitives a rule
names, so extracting or merging helpers does not change the result."""
import re
from .terms import *
from . import terms as tm


class Ev:
    __slots__ = ('kind', 'name', 'args', 'guard', 'loops', 'line', 'file', 'fn', 'val', 'seq', 'node', 'fid', 'extra', 'stack', 'locs', 'conds')

    def __repr__(self):
        return f'<{self.kind} {self.name} {self.args} if {self.guard} @{self.fn}:{self.line}>'


class Loop:
    __slots__ = ('id', 'kind', 'cond', 'count', 'container', 'line', 'elem', 'breaks', 'broke', 'iv', 'pc0', 'parent', 'over')


class Lam:
    __slots__ = ('node', 'env', 'this', 'fn', 'caps')


class State:
    __slots__ = ('mem', 'ep', 'anc', 'pc', 'wild')

    def __init__(self):
        self.mem = {}
        self.ep = {}
        self.anc = set()
        self.wild = {}
        self.pc = TRUE

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.ep = dict(self.ep)
        s.anc = set(self.anc)
        s.wild = dict(self.wild)
        s.pc = self.pc
        return s


class Frame:
    def __init__(self, fn, this=None, parent=None):
        self.fn = fn
        self.env = {}
        self.this = this
        self.rets = []
        self.rref = bool(fn.get('rref')) if fn else False
        self.brk = []      # stack of dict(kind, states)
        self.parent = parent
        self.qn = ''
        self.file = fn.get('file', '') if fn else ''


def restrict(f, c):
    """simplify BDD f using care set c"""
    if c is FALSE or f.v is None:
        return f
    memo = {}

    def go(f, c):
        if c is TRUE or f.v is None or c is FALSE:
            return f
        k = (f.bid, c.bid)
        if k in memo:
            return memo[k]
        if c.v < f.v:
            r = go(f, bor(c.lo, c.hi))
        else:
            cl, ch = (c.lo, c.hi) if c.v == f.v else (c, c)
            if cl is FALSE:
                r = go(f.hi, ch)
            elif ch is FALSE:
                r = go(f.lo, cl)
            else:
                r = tm._mk(f.v, go(f.lo, cl), go(f.hi, ch))
        memo[k] = r
        return r
    return go(f, c)


def ancestors(loc):
    while loc.op in ('fld', 'idx'):
        loc = loc.args[0]
        yield loc


def held(loc):
    """the container in which a location reached through the result of find() lies, or None"""
    while loc.op in ('fld', 'idx'):
        loc = loc.args[0]
    if loc.op == 'deref' and is_t(loc.args[0]) and loc.args[0].op == 'find':
        a = loc.args[0].args[0]
        if is_t(a) and a.op == 'addr':
            return a.args[0]
    return None


MOVES = {'lin', 'phi', 'iv'}


# library functions that store through iterators: the place of the iterator written to, or every iterator
INTS = {'unsigned int': (32, 0), 'int': (32, 1), 'unsigned long': (64, 0), 'long': (64, 1), 'unsigned char': (8, 0), 'unsigned short': (16, 0), 'u32': (32, 0), 'i32': (32, 1), 'u64': (64, 0), 'i64': (64, 1), 'u8': (8, 0), 'u16': (16, 0)}
FLOATS = {'float': (3.4028234663852886e+38, 1.1754943508222875e-38, 1.1920928955078125e-07), 'double': (1.7976931348623157e+308, 2.2250738585072014e-308, 2.220446049250313e-16)}


def limits(tn, name):
    if tn in FLOATS:
        big, small, eps = FLOATS[tn]
        return {'max': big, 'lowest': -big, 'min': small, 'epsilon': eps}[name]
    if tn in INTS:
        w, sg = INTS[tn]
        return ((1 << (w - sg)) - 1) if name == 'max' else None if name == 'epsilon' else -(1 << (w - 1)) if sg else 0
    return None


WRITES = {'std::' + k: v for k, v in {'copy': 2, 'copy_n': 2, 'copy_if': 2, 'move': 2, 'fill': 0, 'fill_n': 0, 'generate': 0, 'generate_n': 0, 'iota': 0, 'sort': 0, 'stable_sort': 0, 'reverse': 0, 'rotate': 0,
                                      'random_shuffle': 0, 'shuffle': 0, 'unique': 0, 'remove': 0, 'remove_if': 0, 'replace': 0, 'replace_if': 0, 'partition': 0, 'stable_partition': 0, 'nth_element': 0,
                                      'partial_sort': 0, 'next_permutation': 0, 'prev_permutation': 0, 'transform': None, 'set_union': 4, 'set_intersection': 4, 'set_difference': 4, 'merge': 4,
                                      'push_heap': 0, 'pop_heap': 0, 'make_heap': 0, 'inplace_merge': 0, 'swap_ranges': None, 'reverse_copy': 2, 'unique_copy': 2, 'partial_sum': 2}.items()}


def small(v, w):
    """values which fit w bits by their form"""
    if v.op == 'ite':
        return small(v.args[1], w) and small(v.args[2], w)
    if isc(v):
        return 0 <= cval(v) < 1 << w - 1
    return v.op in ('b2i', 'bitf', 'wrap') or v.op == 'mod' and isc(v.args[1]) and 0 < cval(v.args[1]) <= 1 << w - 1


def moving(loc):
    """a place behind a pointer that is the result of pointer arithmetic or of a library search"""
    if loc.op != 'deref':
        return False
    p = loc.args[0]
    return is_t(p) and (p.op in MOVES or p.op == 'ret' and isinstance(p.args[-1], str) and p.args[-1].startswith('std::'))


def wildpat(loc):
    if moving(loc):
        return T('deref', T('*'))
    if loc.op == 'fld':
        b = wildpat(loc.args[0])
        return T('fld', b, loc.args[1])
    if loc.op == 'idx':
        b = wildpat(loc.args[0])
        return T('idx', b, T('*'))
    return loc


def has_idx(loc):
    while loc.op in ('fld', 'idx'):
        if loc.op == 'idx':
            return True
        loc = loc.args[0]
    return moving(loc)


PURE_FREE = {
    'std::min', 'std::max', 'std::abs', 'abs', 'std::pow', 'std::log2', 'std::ceil', 'std::floor', 'std::get', 'std::tie', 'std::to_string', 'std::distance',
    'std::count', 'std::find', 'std::find_if', 'std::equal', 'std::begin', 'std::end', 'std::size', 'std::is_same', 'std::forward', 'std::move', 'std::ref', 'std::cref',
}


class Interp:
    dtors = ()

    def __init__(self, prog, prims=None, opaque=None, depth=8, inline=None, max_unroll=70, loop_unroll=True, stop=None, keep_abort=True, recursive=()):
        self.recursive = set(recursive)
        self.p = prog
        self.track_epochs = False
        self.find_positions = True
        self.plain_range = False    # treat containers of the program like library containers
        self.prims = prims or {}
        self.ctor_hook = None
        self.opaque = set(opaque or ())
        self.maxdepth = depth
        self.inline = inline
        self.events = []
        self.loops = ()
        self.n = 0
        self.seq = 0
        self.max_unroll = max_unroll
        self.mute = 0
        self.loopinfo = {}
        self.wrap_unsigned = False
        self.stack = []
        self.lams = {}
        self.loc_rec = {}
        self.funcs_seen = set()
        self.steps = 0
        self.loop_unroll = loop_unroll

    # ------------------------------------------------------------ utilities
    def fresh(self, hint='u'):
        self.n += 1
        return T('fresh', self.n, hint)

    def epoch(self):
        """a new memory epoch; its beginning is recorded in the event sequence"""
        self.n += 1
        if not self.mute and self.track_epochs:
            e = Ev()
            e.kind, e.name, e.args, e.guard, e.loops = 'epoch', None, (), TRUE, self.loops
            e.line, e.fn, e.file, e.val, e.node, e.fid, e.extra, e.stack, e.seq = 0, '', '', None, None, None, self.n, (), self.seq
            self.events.append(e)
        return self.n

    def event(self, st, fr, kind, name, args=(), node=None, val=None, fid=None, extra=None):
        if self.mute or st.pc is FALSE:
            return None
        e = Ev()
        e.kind, e.name, e.args, e.guard, e.loops = kind, name, tuple(args), st.pc, self.loops
        e.line = (node or {}).get('l', 0) if isinstance(node, dict) else 0
        f = fr
        e.fn = fr.qn
        e.file = fr.file
        e.val = val
        e.node = node
        e.fid = fid
        e.extra = extra
        e.stack = tuple(self.stack)
        self.seq += 1
        e.seq = self.seq
        self.events.append(e)
        return e

    # ------------------------------------------------------------ memory
    def fldloc(self, base, f, rn=None):
        if rn and base not in self.loc_rec:
            self.loc_rec[base] = rn
        if base.op == 'ite':
            return ite_loc(base.args[0], self.fldloc(base.args[1], f, rn), self.fldloc(base.args[2], f, rn))
        if rn:
            fl = self.p.flat(rn)
            if fl and f in fl['alias']:
                f = fl['alias'][f]
        return T('fld', base, f)

    def sig(self, st, loc):
        m = st.ep.get(loc, 0)
        for a in ancestors(loc):
            e = st.ep.get(a, 0)
            if e > m:
                m = e
        h = held(loc)
        if h is not None:
            m = max(m, self.sig(st, h))
        if st.wild:
            if has_idx(loc):
                w = wildpat(loc)
                ws = [w] + list(ancestors(w))
                for x in ws:
                    e = st.wild.get(x, 0)
                    if e > m:
                        m = e
            else:
                w = loc
            for k, e in st.wild.items():
                if e > m:
                    for a in ancestors(k):
                        if a is w:
                            m = e
                            break
        return m

    def entry(self, st, loc):
        m = self.sig(st, loc)
        return T('ld', loc, m)

    def bitwrap(self, loc, v, tn=None):
        """a one-bit field loads as a Boolean"""
        if loc.op == 'fld':
            rn = self.loc_rec.get(loc.args[0])
            if rn:
                fl = self.p.flat(rn)
                if fl:
                    for (n, bf, t) in fl['fields']:
                        if n == loc.args[1] and bf == 1:
                            return self.tobit(v)
        return v

    def tobit(self, v):
        x = as_bit(v)
        if x is not None:
            return x
        if v.op == 'ite':
            return bite(v.args[0], self.tobit(v.args[1]), self.tobit(v.args[2]))
        return atom(T('bitf', v))

    def load(self, st, loc, tn=None):
        if loc.op == 'ite':
            return ite(loc.args[0], self.load(st, loc.args[1], tn), self.load(st, loc.args[2], tn))
        if loc.op == 'val':
            return loc.args[0]
        if loc.op == 'fld':
            rn = self.loc_rec.get(loc.args[0])
            fl = self.p.flat(rn) if rn else None
            if fl and fl['view'] and loc.args[1] == fl['view'][0]:
                _, lo, hi, w = fl['view']
                l = self.load(st, self.fldloc(loc.args[0], lo, rn))
                h = self.load(st, self.fldloc(loc.args[0], hi, rn))
                if w == 1:
                    lb = as_bit(l)
                    if lb is None:
                        lb = atom(T('bitf', l))
                    return cat(h, lb)
                return T('cat', h, l)
        v = st.mem.get(loc)
        if v is not None:
            return v
        if loc in st.anc:
            return self.assemble(st, loc, tn)
        # project out of nearest valued ancestor
        path = []
        a = loc
        while a.op in ('fld', 'idx'):
            path.append(a)
            a = a.args[0]
            v = a.args[0] if a.op == 'val' else st.mem.get(a)
            if v is not None:
                for x in reversed(path):
                    v = self.project(v, x)
                return self.bitwrap(loc, v)
        v = self.entry(st, loc)
        v = self.bitwrap(loc, v)
        if tn in ('u8', 'u16', 'u32', 'u64') and isinstance(v, Term):
            tm.mark_unsigned(v)
        elif tn == 'bool' and not isinstance(v, B):
            v = self.tobit(v)
        return v

    def assemble(self, st, loc, tn=None):
        rn = self.loc_rec.get(loc) or tn
        fl = self.p.flat(rn) if rn else None
        if fl:
            self.loc_rec.setdefault(loc, rn)
            vals = []
            for (n, bf, t) in fl['fields']:
                vals.append((n, self.load(st, self.fldloc(loc, n, rn), self.p.ty(t))))
            return T('rec', rn, tuple(vals))
        # container / unknown record with touched children
        base = self.entry(st, loc)
        for k, v in sorted(st.mem.items(), key=lambda kv: kv[0].tid):
            pth = self.relpath(loc, k)
            if pth:
                base = T('upd', base, pth, v)
        return base

    @staticmethod
    def relpath(loc, k):
        path = []
        a = k
        while a.op in ('fld', 'idx'):
            path.append(a.args[1] if a.op == 'idx' else a.args[1])
            a = a.args[0]
            if a is loc:
                return tuple(reversed(path))
        return None

    def project(self, v, loc):
        """component of value v selected by the last step of loc"""
        if isinstance(v, B):
            return self.fresh('proj')
        key = loc.args[1]
        if v.op == 'ite':
            return ite(v.args[0], self.project(v.args[1], loc), self.project(v.args[2], loc))
        if loc.op == 'fld':
            if v.op == 'rec':
                d = dict(v.args[1])
                if key in d:
                    return d[key]
                rn = v.args[0]
                fl = self.p.flat(rn)
                if fl and fl['view'] and key == fl['view'][0]:
                    _, lo, hi, w = fl['view']
                    if w == 1 and lo in d and hi in d and as_bit(d[lo]) is not None:
                        return cat(d[hi], as_bit(d[lo]))
                return T('proj', v, key)
            if v.op == 'pair' and key in ('first', 'second'):
                return v.args[0 if key == 'first' else 1]
            if v.op == 'ld':
                return T('ld', T('fld', v.args[0], key), v.args[1])
            return T('proj', v, key)
        # idx
        if v.op == 'vec':
            if isinstance(key, Term) and isc(key) and 0 <= cval(key) < len(v.args):
                return v.args[cval(key)]
            return T('at', v, key)
        if v.op == 'ld':
            return T('ld', T('idx', v.args[0], key), v.args[1])
        if v.op == 'upd' and len(v.args[1]) == 1:
            k2 = v.args[1][0]
            if k2 is key:
                return v.args[2]
            if is_t(k2) and is_t(key):
                if isc(k2) and isc(key):
                    return self.project(v.args[0], loc)
                return ite(eq(k2, key), v.args[2], self.project(v.args[0], loc))
        if v.op == 'filled' :
            return v.args[1]
        return T('at', v, key)

    def drop_children(self, st, loc):
        if loc in st.anc:
            dead = [k for k in st.mem if self.relpath(loc, k) is not None]
            for k in dead:
                del st.mem[k]
            st.anc.discard(loc)
            for a in list(st.anc):
                if self.relpath(loc, a) is not None:
                    st.anc.discard(a)

    def setmem(self, st, loc, v):
        st.mem[loc] = v
        for a in ancestors(loc):
            st.anc.add(a)

    def store(self, st, loc, v, tn=None):
        if loc.op == 'ite':
            c, a, b = loc.args
            if a.op != 'val':
                self.store(st, a, ite(c, v, self.load(st, a, tn)), tn)
            if b.op != 'val':
                self.store(st, b, ite(c, self.load(st, b, tn), v), tn)
            return
        if loc.op == 'val':
            return
        if loc.op == 'fld':
            rn = self.loc_rec.get(loc.args[0])
            fl = self.p.flat(rn) if rn else None
            if fl and fl['view'] and loc.args[1] == fl['view'][0]:
                _, lo, hi, w = fl['view']
                s = split_low(v) if w == 1 and not isinstance(v, B) else None
                if isinstance(v, B):
                    s = (C(0), v)
                if s is None:
                    s = (T('hi', v), atom(T('lo', v)))
                self.store(st, self.fldloc(loc.args[0], lo, rn), s[1])
                self.store(st, self.fldloc(loc.args[0], hi, rn), s[0])
                return
            v = self.bitwrap(loc, v) if not isinstance(v, B) else v
        # push value of an already-valued ancestor down or update functionally
        for a in ancestors(loc):
            pv = st.mem.get(a)
            if pv is not None:
                path = self.relpath(a, loc)
                st.mem[a] = self.upd(pv, path, v)
                return
        self.drop_children(st, loc)
        if has_idx(loc):
            w = wildpat(loc)
            hit = False
            for k in list(st.mem):
                if k is not loc and has_idx(k) and wildpat(k) is w:
                    d = self.distinct(loc, k)
                    if not d:
                        st.mem[k] = self.maybe(st, loc, k, v)
            if not self.const_idx(loc):
                st.wild[w] = self.epoch()
        h = held(loc)
        if h is not None:
            self.havoc(st, h)
        self.setmem(st, loc, v)

    def const_idx(self, loc):
        while loc.op in ('fld', 'idx'):
            if loc.op == 'idx' and not (is_t(loc.args[1]) and isc(loc.args[1])):
                return False
            loc = loc.args[0]
        return not moving(loc)

    def distinct(self, a, b):
        while a.op in ('fld', 'idx') and b.op == a.op:
            if a.op == 'idx':
                if isc(a.args[1]) and isc(b.args[1]) and a.args[1] is not b.args[1]:
                    return True
                if eq(a.args[1], b.args[1]) is FALSE:
                    return True
            a, b = a.args[0], b.args[0]
        if moving(a) and moving(b):
            d = sub(a.args[0], b.args[0]) if isarith(a.args[0]) and isarith(b.args[0]) else None
            return d is not None and isc(d) and cval(d) != 0
        return False

    def maybe(self, st, loc, k, v):
        c = TRUE
        a, b = loc, k
        while a is not b:
            if a.op == 'idx':
                c = band(c, eq(a.args[1], b.args[1]))
            if a.op not in ('fld', 'idx'):
                if moving(a):
                    c = band(c, eq(a.args[0], b.args[0]))
                break
            a, b = a.args[0], b.args[0]
        return ite(c, v, st.mem[k])

    def upd(self, pv, path, v):
        if not path:
            return v
        if isinstance(pv, B):
            return self.fresh('upd')
        k = path[0]
        if pv.op == 'rec' and isinstance(k, str):
            return T('rec', pv.args[0], tuple((f, self.upd(x, path[1:], v) if f == k else x) for f, x in pv.args[1]))
        if pv.op == 'pair' and k in ('first', 'second'):
            l = list(pv.args)
            i = 0 if k == 'first' else 1
            l[i] = self.upd(l[i], path[1:], v)
            return T('pair', *l)
        if pv.op == 'vec' and is_t(k) and isc(k) and 0 <= cval(k) < len(pv.args):
            l = list(pv.args)
            l[cval(k)] = self.upd(l[cval(k)], path[1:], v)
            return T('vec', *l)
        if pv.op == 'ite':
            return ite(pv.args[0], self.upd(pv.args[1], path, v), self.upd(pv.args[2], path, v))
        if pv.op == 'upd' and pv.args[1] == path:
            return T('upd', pv.args[0], path, v)
        return T('upd', pv, path, v)

    def settle(self, st, fr, loc, e):
        """the known value of a local container is stored before the container is changed in place"""
        v = st.mem.get(loc)
        if self.track_epochs and isinstance(v, Term) and loc.op == 'root' and loc.args[0] == 'v':
            self.event(st, fr, 'write', loc, (v,), e)

    def spill(self, st, fr, loc, e):
        """a sequence known element by element is handed to other code: its elements become memory"""
        for a in ancestors(loc):
            v = st.mem.get(a)
            if isinstance(v, Term) and v.op == 'vec':
                self.event(st, fr, 'write', a, (v,), e)
                self.drop_children(st, a)
                st.mem.pop(a)
                st.ep[a] = self.epoch()
                return

    def havoc(self, st, loc, hint='hv'):
        if loc.op == 'ite':
            self.havoc(st, loc.args[1])
            self.havoc(st, loc.args[2])
            return
        if loc.op == 'val':
            return
        for a in ancestors(loc):
            if a in st.mem:
                pth = self.relpath(a, loc)
                st.mem[a] = self.upd(st.mem[a], pth, self.fresh(hint))
                return
        st.mem.pop(loc, None)
        self.drop_children(st, loc)
        st.ep[loc] = self.epoch()
        for k in [k for k in st.mem if k.op == 'fld' and (h := held(k)) is not None and (h is loc or self.relpath(loc, h) is not None)]:
            del st.mem[k]
        if has_idx(loc) and not self.const_idx(loc):
            st.wild[wildpat(loc)] = self.epoch()

    # ------------------------------------------------------------ merging
    def merge(self, a, b):
        if a is None or a.pc is FALSE:
            return b if b is not None else a
        if b is None or b.pc is FALSE:
            return a
        s = State()
        s.pc = bor(a.pc, b.pc)
        sel = restrict(a.pc, s.pc)
        s.ep = dict(a.ep)
        for k, e in b.ep.items():
            if s.ep.get(k) != e:
                s.ep[k] = max(e, s.ep.get(k, 0)) if (k in a.ep) is False else self.epoch()
        for k in a.ep:
            if k not in b.ep:
                pass
        s.wild = dict(a.wild)
        for k, e in b.wild.items():
            if s.wild.get(k) != e:
                s.wild[k] = max(e, s.wild.get(k, 0)) if k not in a.wild else self.epoch()
        s.anc = a.anc | b.anc
        keys = list(a.mem)
        keys += [k for k in b.mem if k not in a.mem]
        # handle differing granularity: if one side holds ancestor value, other children
        for k in keys:
            va, vb = a.mem.get(k), b.mem.get(k)
            if va is vb:
                s.mem[k] = va
                continue
            if va is None:
                va = self.load(a, k)
            if vb is None:
                vb = self.load(b, k)
            s.mem[k] = ite(sel, va, vb)
        # drop children under valued ancestors (ancestor value already assembled)
        for k in list(s.mem):
            for x in ancestors(k):
                if x in s.mem:
                    del s.mem[k]
                    break
        return s

    # ------------------------------------------------------------ functions
    def run(self, fn, this=None, args=None, st=None):
        """Summarise fn with symbolic arguments.  Returns (retval, state)."""
        st = st or State()
        d = fn['decl']
        fr = Frame(fn)
        fr.qn = d['qn']
        if this is None and d.get('cls') and not d.get('static'):
            this = T('root', 'this', 'this')
            self.loc_rec.setdefault(this, d['cls'])
        fr.this = this
        for i, p in enumerate(fn['p']):
            nm = p['n'] or f'arg{i}'
            tn = self.p.ty(p['t'])
            if args and i < len(args) and args[i] is not None:
                a = args[i]
                if a.op in ('root', 'fld', 'idx', 'deref'):
                    fr.env[p['id']] = a
                else:
                    loc = T('root', 'arg', i, nm)
                    self.loc_rec.setdefault(loc, tn)
                    self.setval(st, loc, a, tn)
                    fr.env[p['id']] = loc
            else:
                loc = T('root', 'arg', i, nm)
                self.loc_rec.setdefault(loc, tn)
                fr.env[p['id']] = loc
        self.stack.append(fn['fid'])
        self.funcs_seen.add(d['qn'])
        ret, st = self.body(fn, fr, st)
        self.stack.pop()
        return ret, st

    def setval(self, st, loc, v, tn=None):
        if tn and loc not in self.loc_rec:
            self.loc_rec[loc] = tn
        self.store(st, loc, v, tn)

    def body(self, fn, fr, st):
        for i in fn.get('inits', ()):
            if 'f' in i and fr.this is not None:
                rn = fr.fn['decl'].get('cls')
                loc = self.fldloc(fr.this, i['f'], rn)
                if i.get('ref'):
                    l = self.lv(st, fr, i['e'])
                    st.mem[T('fld', T('bind', fr.this), i['f'])] = T('lref', l)
                    self.store(st, loc, T('addr', l))
                    if self.track_epochs:
                        self.event(st, fr, 'init', loc, (T('addr', l),), i['e'])
                    continue
                x = i['e']
                if self.ctor_hook and x and x.get('k') == 'ctor' and self.ctor_hook(self.p.decls[x['fn']]):
                    self.construct(st, fr, loc, x)
                    continue
                v = self.ev(st, fr, x)
                self.store(st, loc, v)
                if self.track_epochs:
                    self.event(st, fr, 'init', loc, (v,), x)
            elif fr.this is not None:
                # base / delegating constructor: inline onto this
                e = i['e']
                if e and e.get('k') == 'ctor':
                    self.construct(st, fr, fr.this, e)
                elif e and e.get('k') == 'copy':
                    v = self.ev(st, fr, e['e'])
                    tn = self.p.ty(e.get('t')) or ''
                    if self.ctor_hook and self.track_epochs and self.ctor_hook({'cls': tn}):
                        self.event(st, fr, 'ctor', tn.split('<')[0] + '::' + tn.split('<')[0].split('::')[-1], (v,), e, extra=fr.this)
                    if v.op == 'rec':
                        for f, x in v.args[1]:
                            self.store(st, self.fldloc(fr.this, f, v.args[0]), x)
                    elif v.op == 'ld':
                        fl = self.p.flat(self.p.ty(e.get('t')))
                        for (n, bf, t) in (fl['fields'] if fl else ()):
                            self.store(st, self.fldloc(fr.this, n), T('ld', T('fld', v.args[0], n), v.args[1]))
        st2 = self.exec(st, fr, fn['body'])
        outs = list(fr.rets)
        if st2 is not None and st2.pc is not FALSE:
            outs.append((st2, T('void')))
        if not outs:
            d = st.copy()
            d.pc = FALSE
            return T('noret'), d
        s = None
        val = None
        pcs = FALSE
        for (x, v) in outs:
            if val is None:
                val = v
                pcs = x.pc
            else:
                tot = bor(pcs, x.pc)
                sel = restrict(pcs, tot)
                if v.op == 'void' and val.op == 'void':
                    pass
                elif v.op == 'lref' or val.op == 'lref':
                    if v.op == 'lref' and val.op == 'lref':
                        val = T('lref', ite_loc(sel, val.args[0], v.args[0]))
                    elif v.op == 'lref':
                        val = v
                else:
                    val = ite(sel, val, v)
                pcs = tot
            s = self.merge(s, x) if s is not None else x
        return val, s

    # ------------------------------------------------------------ statements
    def exec(self, st, fr, n):
        if n is None or st is None or st.pc is FALSE:
            return st
        self.steps += 1
        k = n['s']
        m = getattr(self, 'x_' + k, None)
        if m is None:
            return st
        return m(st, fr, n)

    def x_block(self, st, fr, n):
        for s in n['b']:
            st = self.exec(st, fr, s)
            if st is None or st.pc is FALSE:
                break
        if self.dtors and st is not None and st.pc is not FALSE:
            for s in reversed(n['b']):
                for d in reversed(s['d']) if s.get('s') == 'decl' else ():
                    if not d.get('ref') and not d.get('static') and d['id'] in fr.env:
                        self.destroy(st, fr, fr.env[d['id']], self.p.ty(d['t']), s)
        return st

    def destroy(self, st, fr, loc, tn, n):
        """end of the lifetime of a local object of a class whose destructor acts (self.dtors)"""
        if not self.dtors or tn.split('<')[0].split('::')[-1] not in self.dtors:
            return
        for f in self.p.fns.values():
            if f['decl']['n'].startswith('~') and f['decl'].get('cls') == tn:
                self.invoke(st, fr, f, dict(l=n.get('l', 0)), loc, [])
        r = self.p.records.get(tn)
        for b in r['bases'] if r else ():
            self.destroy(st, fr, loc, b, n)

    def override(self, st, fr, e, d):
        """the member function a virtual call runs, when the class of the object is known"""
        l = self.this_of(st, fr, e)
        todo = [self.loc_rec.get(l)]
        while todo:
            tn = todo.pop(0)
            if not tn:
                continue
            for f in self.p.fns.values():
                if f['decl']['n'] == d['n'] and f['decl'].get('cls') == tn and len(f['p']) == len(e['a']) - 1 and f['fid'] not in self.stack:
                    return f
            r = self.p.records.get(tn)
            todo += r['bases'] if r else []
        return None

    def x_null(self, st, fr, n):
        return st

    def x_label(self, st, fr, n):
        return self.exec(st, fr, n['b'])

    def x_expr(self, st, fr, n):
        e = n['e']
        # assert(): cond ? void : __assert_fail
        self.ev(st, fr, e)
        return st

    def x_decl(self, st, fr, n):
        for d in n['d']:
            self.declare(st, fr, d)
        return st

    def declare(self, st, fr, d):
        tn = self.p.ty(d['t'])
        init = d.get('init')
        if d.get('ref'):
            loc = self.lv(st, fr, init) if init else self.newloc(fr, d)
            fr.env[d['id']] = loc
            return
        loc = self.newloc(fr, d)
        self.loc_rec.setdefault(loc, tn)
        fr.env[d['id']] = loc
        if d.get('static'):
            if init is not None and loc not in st.mem and init['k'] in ('int', 'cast', 'flt', 'str', 'il', 'copy'):
                self.store(st, loc, self.coerce(self.ev(st, fr, init), tn), tn)
            return
        if init is None:
            st.mem.pop(loc, None)
            self.drop_children(st, loc)
            st.mem[loc] = T('undef', self.epoch())
            fl = self.p.flat(tn)
            if fl:
                del st.mem[loc]
                st.ep[loc] = self.epoch()
            return
        if self.ctor_hook and self.ctor_hook(dict(cls=tn)):
            x = init
            while x['k'] in ('cast', 'copy', 'temp', 'bind') and x.get('x'):
                x = x['x']
            if x['k'] == 'ctor' and self.p.decls[x['fn']].get('cls') == tn and not (len(x['a']) == 1 and self.tyof(x['a'][0]) == tn):
                args = [self.ev(st, fr, a) for a in x['a']]
                name = self.p.decls[x['fn']]['qn']
            else:
                args = [self.ev(st, fr, init)]
                name = tn.split('<')[0] + '::copy'
            st.mem.pop(loc, None)
            self.drop_children(st, loc)
            st.ep[loc] = self.epoch()
            self.event(st, fr, 'ctor', name, args, init, extra=loc)
            return
        if self.track_epochs and init['k'] == 'copy' and init.get('fn') in self.p.fns and self.p.flat(tn) and self.p.decls[init['fn']]['qn'] in self.opaque and not init.get('mv'):
            # a copy constructor that is summarised by itself
            l = self.lv(st, fr, init['e'])
            v = l.args[0] if l.op == 'val' else self.load(st, l)
            st.mem.pop(loc, None)
            self.drop_children(st, loc)
            blank = self.default_rec(st, fr, tn)
            self.event(st, fr, 'write', loc, (blank,), init)
            st.ep[loc] = self.epoch()
            ev = self.event(st, fr, 'call', self.p.decls[init['fn']]['qn'], (self.load(st, loc), v), init, fid=init['fn'])
            if ev is not None:
                ev.locs, ev.val = [loc, None if l.op == 'val' else l], T('void')
            self.havoc(st, loc)
            return
        v = self.ev(st, fr, init)
        st.mem.pop(loc, None)
        self.drop_children(st, loc)
        self.store(st, loc, self.coerce(v, tn), tn)

    def coerce(self, v, tn):
        if isinstance(v, Term) and v.op == 'vec' and len(v.args) == 1 and tn and (tn == 'bool' or tn in ('float', 'double') or (tn[0] in 'iu' and tn[1:].isdigit())):
            v = v.args[0]
        if tn == 'bool' and not isinstance(v, B):
            return i2b(v)
        if isinstance(v, B) and tn and tn[0] in 'iu' and tn[1:].isdigit():
            return b2i(v)
        return v

    def newloc(self, fr, d):
        return T('root', 'v', d['id'], len(self.stack), self.stack_id(), d['n'])

    def stack_id(self):
        return self.stack[-1] if self.stack else 0

    def x_if(self, st, fr, n):
        if n.get('init'):
            st = self.exec(st, fr, n['init'])
        if n.get('cv'):
            self.declare(st, fr, n['cv'])
        c = self.cond(st, fr, n['c'])
        if c is TRUE:
            return self.exec(st, fr, n['a'])
        if c is FALSE:
            return self.exec(st, fr, n['b']) if n['b'] else st
        a, b = st, st.copy()
        a.pc = band(st.pc, c)
        b.pc = band(b.pc, bnot(c))
        a = self.exec(a, fr, n['a'])
        if n['b']:
            b = self.exec(b, fr, n['b'])
        if a is None or a.pc is FALSE:
            return b
        return self.merge(a, b)

    def cond(self, st, fr, e):
        v = self.ev(st, fr, e)
        b = i2b(v)
        return b

    def x_ret(self, st, fr, n):
        e = n['e']
        if e is None:
            v = T('void')
        elif fr.rref:
            v = T('lref', self.lv(st, fr, e))
        else:
            v = self.ev(st, fr, e)
            rt = self.p.ty(fr.fn.get('ret')) if fr.fn else ''
            v = self.coerce(v, rt)
        s = st.copy()
        fr.rets.append((s, v))
        self.event(st, fr, 'return', fr.qn, (v,), n)
        st.pc = FALSE
        return st

    def x_break(self, st, fr, n):
        if fr.brk:
            fr.brk[-1]['b'].append(st.copy())
        st.pc = FALSE
        return st

    def x_continue(self, st, fr, n):
        for b in reversed(fr.brk):
            if b['k'] == 'loop':
                b['c'].append(st.copy())
                break
        st.pc = FALSE
        return st

    def x_goto(self, st, fr, n):
        st.pc = FALSE
        return st

    def x_try(self, st, fr, n):
        return self.exec(st, fr, n['b'])

    def x_omp(self, st, fr, n):
        self.event(st, fr, 'omp', n['cls'], (), n)
        return self.exec(st, fr, n['b'])

    def x_opaque(self, st, fr, n):
        return st

    def x_case(self, st, fr, n):
        return self.exec(st, fr, n['b'])

    def x_default(self, st, fr, n):
        return self.exec(st, fr, n['b'])

    def x_switch(self, st, fr, n):
        c = self.ev(st, fr, n['c'])
        items = []     # (labels, stmt)

        def flatten(s):
            labels = []
            while s is not None and s['s'] in ('case', 'default'):
                labels.append(s)
                s = s['b']
            items.append((labels, s))
        body = n['b']
        for s in (body['b'] if body and body['s'] == 'block' else [body]):
            flatten(s)
        match = []
        for labels, _ in items:
            for l in labels:
                if l['s'] == 'case':
                    match.append(eq(c, self.ev(st, fr, l['v'])))
        anym = bor(*match) if match else FALSE
        pc0 = st.pc
        base = st.copy()
        cur = st.copy()
        cur.pc = FALSE
        fr.brk.append(dict(k='switch', b=[], c=[]))
        hasdef = False
        for labels, s in items:
            for l in labels:
                if l['s'] == 'case':
                    g = eq(c, self.ev(base, fr, l['v']))
                else:
                    g = bnot(anym)
                    hasdef = True
                e = base.copy()
                e.pc = band(pc0, g)
                cur = self.merge(cur, e)
            if cur.pc is FALSE:
                continue
            cur = self.exec(cur, fr, s)
        b = fr.brk.pop()
        out = cur
        for x in b['b']:
            out = self.merge(out, x)
        if not hasdef:
            e = base.copy()
            e.pc = band(pc0, bnot(anym))
            out = self.merge(out, e)
        return out

    # ------------------------------------------------------------ loops
    def x_for(self, st, fr, n):
        if n['i']:
            st = self.exec(st, fr, n['i'])
        return self.loop(st, fr, n, 'for', n['c'], n['n'], n['b'])

    def x_while(self, st, fr, n):
        return self.loop(st, fr, n, 'while', n['c'], None, n['b'])

    def x_do(self, st, fr, n):
        return self.loop(st, fr, n, 'do', n['c'], None, n['b'])

    def x_range(self, st, fr, n):
        r = self.lv(st, fr, n['r'])
        v = self.load(st, r)
        d = n['v'][0]
        rest = n['v'][1:]
        if isinstance(v, Term) and v.op == 'vec' and self.loop_unroll and len(v.args) <= self.max_unroll:
            fr.brk.append(dict(k='loop', b=[], c=[]))
            for i in range(len(v.args)):
                fr.brk[-1]['c'] = []
                self.bind_elem(st, fr, d, rest, T('idx', r, C(i)))
                st = self.exec(st, fr, n['b'])
                for x in fr.brk[-1]['c']:
                    st = self.merge(st, x)
                if st.pc is FALSE:
                    break
            b = fr.brk.pop()
            for x in b['b']:
                st = self.merge(st, x)
            return st
        be = self.own_range(st, fr, n)
        return self.loop(st, fr, n, 'range', None, None, n['b'], rng=(r, d, rest) + be)

    def own_range(self, st, fr, n):
        """begin and number of elements of a container of the program with its own begin() and end()"""
        tn = self.p.ty(n['r'].get('t'))
        cst = tn.startswith('const ')
        tn = tn[6:] if cst else tn
        if tn.startswith('std::') or not tn:
            return ()
        fs = {}
        for nm in ('begin', 'end'):
            c = [f for f in self.p.byqn.get(tn.split('<')[0] + '::' + nm, ()) if f['decl'].get('cls') == tn and not f['p']]
            c.sort(key=lambda f: bool(f['decl'].get('cst')) != cst)
            if not c:
                return ()
            fs[nm] = c[0]
        if self.plain_range:
            return ()
        b, e = (self.ev(st, fr, {'k': 'call', 'fn': fs[nm]['fid'], 'm': 1, 'a': [n['r']], 'l': n.get('l', 0)}) for nm in ('begin', 'end'))
        if b.op == 'iter' and e.op == 'iter' and b.args[0] is e.args[0]:
            return b, sub(e.args[1], b.args[1])
        return b, T('call', 'std::distance', b, e)

    def bind_elem(self, st, fr, d, rest, loc):
        tn = self.p.ty(d['t'])
        if d.get('ref'):
            fr.env[d['id']] = loc
            self.loc_rec.setdefault(loc, tn)
        else:
            self.loc_rec.setdefault(loc, tn)
            l = self.newloc(fr, d)
            self.loc_rec.setdefault(l, tn)
            fr.env[d['id']] = l
            v = self.load(st, loc, tn)
            st.mem.pop(l, None)
            self.drop_children(st, l)
            self.store(st, l, self.coerce(v, tn), tn)
        for x in rest:
            self.declare(st, fr, x)

    def find_loopid(self, n, fr):
        return (n.get('l', 0), self.stack_id(), len(self.loops))

    def loop(self, st, fr, n, kind, cnode, inc, body, rng=None, cb=None, count=None):
        """generic loop. cb(st) executes the body for callback iteration."""
        # try unrolling
        if self.loop_unroll and kind in ('for', 'while') and cnode is not None:
            st, done = self.try_unroll(st, fr, cnode, inc, body)
            if done:
                return st
        L = Loop()
        L.id = self.epoch()
        L.kind = kind
        L.line = n.get('l', 0)
        L.container = None
        L.elem = None
        L.iv = T('iv', L.id)
        L.pc0 = st.pc
        L.count = None
        L.over = None
        if rng and kind == 'range':
            L.container = rng[0]
            L.over = self.load(st, rng[0])
            L.count = rng[4] if len(rng) > 3 else self.size_of(st, rng[0])
        entry = st.copy()

        def bodyrun(s):
            """one abstract iteration from state s (already phi'd). returns (end state, breaks, cond)"""
            fr.brk.append(dict(k='loop', b=[], c=[]))
            nr = len(fr.rets)
            c = TRUE
            if kind in ('for', 'while') and cnode is not None:
                first = len(self.events)
                c = self.cond(s, fr, cnode)
                for x in self.events[first:]:
                    x.conds = getattr(x, 'conds', ()) + (L,)
                s.pc = band(s.pc, c)
            if kind == 'range':
                s.pc = band(s.pc, lt(L.iv, L.count))
                c = lt(L.iv, L.count)
                if len(rng) > 3:
                    el = self.derefloc(s, self.iadd(rng[3], L.iv) if rng[3].op == 'iter' else add(rng[3], L.iv))
                else:
                    tn = self.p.ty((n.get('r') or {}).get('t')).removeprefix('const ')
                    el = T('idx', rng[0], T('nth', L.iv) if tn.startswith(('std::map<', 'std::unordered_map<', 'std::set<', 'std::unordered_set<')) else L.iv)
                self.bind_elem(s, fr, rng[1], rng[2], el)
            L.cond = c
            if cb:
                s = cb(s)
            else:
                s = self.exec(s, fr, body)
            for x in fr.brk[-1]['c']:
                s = self.merge(s, x)
            if inc and s.pc is not FALSE:
                self.ev(s, fr, inc)
            if kind == 'do' and s.pc is not FALSE:
                dc = self.cond(s, fr, cnode)
                L.cond = dc
            b = fr.brk.pop()
            rets = fr.rets[nr:]
            del fr.rets[nr:]
            return s, b['b'], rets

        # pass 1: find what the body writes (muted)
        self.mute += 1
        saved_env = dict(fr.env)
        saved_loops = self.loops
        self.loops = self.loops + (L,)
        W, wild, eps = set(), {}, set()
        inits = {}
        phis = {}
        for rnd in range(3):
            s = entry.copy()
            self.apply_phi(s, entry, W, eps, wild, L, phis, {})
            end, brs, rets = bodyrun(s)
            nW, nE, nWild = set(), set(), {}
            for x in [end] + brs + [r[0] for r in rets]:
                if x is None:
                    continue
                for k, v in x.mem.items():
                    if entry.mem.get(k) is not v and (k not in phis or phis[k] is not v):
                        nW.add(k)
                for k, e in x.ep.items():
                    if entry.ep.get(k) != e:
                        nE.add(k)
                for k, e in x.wild.items():
                    if entry.wild.get(k) != e:
                        nWild[k] = 1
                for k in entry.mem:
                    if k not in x.mem:
                        nE.add(k)
            fr.env = dict(saved_env)
            nW = {k for k in nW if self.outer(k, entry, saved_env, fr)}
            if nW <= W and nE <= eps and set(nWild) <= set(wild):
                break
            W |= nW
            eps |= nE
            wild.update(nWild)
        # detect induction variables from last dry run
        ivs = {}
        for k in W:
            ph = phis.get(k)
            if ph is None:
                continue
            ev_ = self.load(end, k) if end.pc is not FALSE else None
            if ev_ is None or isinstance(ev_, B):
                continue
            init = self.load(entry, k)
            x = self.iv_form(ph, ev_, init, L)
            if x is not None:
                ivs[k] = x
        self.mute -= 1
        if self.track_epochs:
            # values of variables that become memory in the loop
            self.loops, inner = saved_loops, self.loops
            for k in eps:
                v = entry.mem.get(k)
                if isinstance(v, Term) and k.op == 'root' and k.args[0] == 'v' and (v.op in ('call', 'vec', 'rec', 'map') or isc(v)):
                    self.event(entry, fr, 'write', k, (v,), n)
            self.loops = inner
        # pass 2: real
        s = entry.copy()
        fr.env = dict(saved_env)
        phis2 = {}
        self.apply_phi(s, entry, W, eps, wild, L, phis2, ivs)
        L.broke = False
        end, brs, rets = bodyrun(s)
        L.breaks = [b.pc for b in brs]
        if count is not None:
            L.count = count
            L.cond = lt(L.iv, count)
        fr.env = dict(saved_env)
        self.loops = saved_loops
        # returns inside loop
        retflag = FALSE
        lrets = []
        for (x, v) in rets:
            # visible to the caller: guard mentions loop symbols; existential over iterations
            rt_ = T('loopret', L.id, len(fr.rets))
            lrets.append(rt_)
            r = atom(rt_)
            y = x.copy()
            y.pc = band(entry.pc, bnot(retflag), r)
            retflag = bor(retflag, r)
            fr.rets.append((y, v))
        if kind != 'do' and end is not None:
            pass
        out = entry.copy()
        # count for canonical forms i<n
        if L.count is None:
            L.count = self.count_of(L)
        for k in W:
            if k in ivs and L.count is not None and not brs and not rets and ivs[k].op not in ('iter', 'riter'):
                init = self.load(entry, k)
                fin = self.iv_final(ivs[k], init, L, k)
                out.mem.pop(k, None)
                self.drop_children(out, k)
                self.setmem(out, k, fin)
                continue
            old = self.load(entry, k)
            if isinstance(old, B):
                v = atom(T('bitf', T('lo', L.id, k)))
            else:
                v = T('lo', L.id, k)
            out.mem.pop(k, None)
            self.drop_children(out, k)
            self.setmem_anc(out, k, v)
        for k in eps:
            self.havoc(out, k)
        for k in wild:
            out.wild[k] = self.epoch()
        out.pc = band(entry.pc, bnot(retflag))
        if kind == 'do' and not brs and end is not None and end.pc is FALSE and not rets:
            out.pc = FALSE
        if cnode is not None and kind in ('for', 'while') and L.cond is TRUE and not brs:
            out.pc = FALSE
        self.last_loop = L
        # one-iteration transfer function of the scalar loop variables, for evaluation over finite models
        L_init, L_next, L_brk = {}, {}, [(x.pc, {}) for x in brs]
        for k in W:
            if k in phis2 and k not in ivs:
                L_init[k] = self.load(entry, k)
                L_next[k] = self.load(end, k) if end is not None and end.pc is not FALSE else None
                for x, (_, vals) in zip(brs, L_brk):
                    vals[k] = self.load(x, k)
        self.loopinfo[L.id] = dict(L=L, init=L_init, next=L_next, ivs=ivs, cond=L.cond if kind != 'do' else TRUE, post=L.cond if kind == 'do' else TRUE,
                                   brk=L_brk, rets=[(r, x.pc) for r, (x, v) in zip(lrets, rets)], cb=cb is not None)
        return out

    def iv_form(self, ph, nxt, init, L):
        """closed form over the iteration number of a loop variable that advances by a constant"""
        if not isinstance(ph, Term) or not isinstance(nxt, Term) or not isinstance(init, Term):
            return None
        if ph.op == 'iter' and nxt.op == 'iter' and nxt.args[0] is ph.args[0] and init.op == 'iter':
            d = sub(nxt.args[1], ph.args[1])
            if isc(d) and cval(d) == 1:
                return T('iter', init.args[0], add(init.args[1], L.iv))
            return None
        if ph.op == 'riter' and nxt.op == 'riter' and nxt.args[0] is ph.args[0] and init.op == 'riter':
            d = sub(nxt.args[1], ph.args[1])
            if isc(d) and cval(d) == -1:
                return T('riter', init.args[0], sub(init.args[1], L.iv))
            return None
        if ph.op == 'rec' and nxt.op == 'rec' and init.op == 'rec' and ph.args[0] == nxt.args[0] == init.args[0]:
            pf, nf, of = dict(ph.args[1]), dict(nxt.args[1]), dict(init.args[1])
            out, hit = [], False
            for f in of:
                if f not in pf or f not in nf:
                    return None
                if nf[f] is pf[f]:
                    out.append((f, of[f]))
                    continue
                x = self.iv_form(pf[f], nf[f], of[f], L)
                if x is None:
                    return None
                hit = True
                out.append((f, x))
            return T('rec', init.args[0], tuple(out)) if hit else None
        if ph.op == 'phi' and isarith(nxt) and isarith(init):
            d = sub(nxt, ph)
            if isc(d) and cval(d) != 0 and abs(cval(d)) < 1000:
                return add(init, scale(L.iv, cval(d)))
        return None

    def iv_final(self, x, init, L, k):
        if x is init:
            return init
        if x.op == 'rec':
            of = dict(init.args[1])
            return T('rec', x.args[0], tuple((f, self.iv_final(y, of[f], L, k) if isinstance(y, Term) else y) for f, y in x.args[1]))
        if x.op in ('iter', 'riter'):
            return T('lo', L.id, k)
        # init + step*count
        c_, t_ = to_lin(sub(x, init))
        coef = t_[0][1] if t_ else 0
        return add(init, scale(L.count, coef))

    def setmem_anc(self, st, k, v):
        for a in ancestors(k):
            if a in st.mem:
                st.mem[a] = self.upd(st.mem[a], self.relpath(a, k), v)
                return
        self.setmem(st, k, v)

    def outer(self, k, entry, env, fr):
        """is location k meaningful outside the loop body (not a body-local)?"""
        root = k
        while root.op in ('fld', 'idx'):
            root = root.args[0]
        if root.op == 'root' and root.args[0] == 'v':
            if root in entry.mem or any(a is root for a in entry.anc) or root in entry.ep:
                return True
            for l in env.values():
                r = l
                while r.op in ('fld', 'idx'):
                    r = r.args[0]
                if r is root:
                    return True
            # locals of enclosing frames live in entry.mem; otherwise body-local
            return False
        return True

    def apply_phi(self, s, entry, W, eps, wild, L, phis, ivs):
        for k in eps:
            self.havoc(s, k)
        for k in wild:
            s.wild[k] = T_epoch(L.id, self)
        for k in sorted(W, key=lambda x: x.tid):
            if has_idx(k) and not self.const_idx(k):
                s.mem.pop(k, None)
                s.wild[wildpat(k)] = self.epoch()
                continue
            old = self.load(entry, k)
            if k in ivs:
                v = ivs[k]
            elif isinstance(old, B):
                v = atom(T('bitf', T('phi', L.id, k)))
            elif old.op == 'iter':
                v = T('iter', old.args[0], T('phi', L.id, k))
            elif old.op == 'riter' and self.track_epochs:
                v = T('riter', old.args[0], T('phi', L.id, k))
            elif old.op == 'rec':
                v = T('rec', old.args[0], tuple((f, atom(T('bitf', T('phi', L.id, k, f))) if isinstance(x, B) else T('phi', L.id, k, f)) for f, x in old.args[1]))
            else:
                v = T('phi', L.id, k)
            phis[k] = v
            s.mem.pop(k, None)
            self.drop_children(s, k)
            self.setmem_anc(s, k, v)

    def count_of(self, L):
        c = L.cond
        if c is None or c.v is None:
            return None
        # single atom le0(iv + ... ) : iv - n + 1 <= 0
        if c.v is not None and c.lo is FALSE and c.hi is TRUE:
            a = tm._atoms[c.v]
            if a.op == 'le0':
                k, ts = a.args[0].args
                d = dict(ts)
                if d.get(L.iv) == 1:
                    rest = from_lin(k, tuple((t, x) for t, x in ts if t is not L.iv))
                    return sub(C(1), rest) if True else None
        if c.v is not None and c.lo is TRUE and c.hi is FALSE:
            a = tm._atoms[c.v]
            if a.op == 'le0':
                k, ts = a.args[0].args
                d = dict(ts)
                if d.get(L.iv) == -1:    # not( rest - iv <=0 ) : iv < rest
                    return from_lin(k, tuple((t, x) for t, x in ts if t is not L.iv))
            if a.op == 'eq0':            # iv != n
                k, ts = a.args[0].args
                d = dict(ts)
                if d.get(L.iv) in (1, -1):
                    rest = from_lin(k, tuple((t, x) for t, x in ts if t is not L.iv))
                    return scale(rest, -d[L.iv])
        return None

    def try_unroll(self, st, fr, cnode, inc, body):
        # only when the condition is statically decided at entry
        self.mute += 1
        probe = st.copy()
        c = self.cond(probe, fr, cnode)
        self.mute -= 1
        if c is FALSE:
            self.cond(st, fr, cnode)
            return st, True
        if c is not TRUE:
            return st, False
        # dry: does it terminate within the bound with constant conditions?
        self.mute += 1
        probe = st.copy()
        env = dict(fr.env)
        nr = len(fr.rets)
        ok = False
        cnt = 0
        fr.brk.append(dict(k='loop', b=[], c=[]))
        budget = self.steps + 60000
        while cnt <= self.max_unroll and self.steps < budget:
            c = self.cond(probe, fr, cnode)
            if c is FALSE:
                ok = True
                break
            if c is not TRUE:
                break
            fr.brk[-1]['c'] = []
            probe = self.exec(probe, fr, body)
            for x in fr.brk[-1]['c']:
                probe = self.merge(probe, x)
            if probe.pc is FALSE:
                ok = True
                break
            if inc:
                self.ev(probe, fr, inc)
            cnt += 1
        fr.brk.pop()
        del fr.rets[nr:]
        fr.env = env
        self.mute -= 1
        if not ok:
            return st, False
        fr.brk.append(dict(k='loop', b=[], c=[]))
        while True:
            c = self.cond(st, fr, cnode)
            if c is FALSE:
                break
            fr.brk[-1]['c'] = []
            st = self.exec(st, fr, body)
            for x in fr.brk[-1]['c']:
                st = self.merge(st, x)
            if st.pc is FALSE:
                break
            if inc:
                self.ev(st, fr, inc)
        b = fr.brk.pop()
        for x in b['b']:
            st = self.merge(st, x)
        return st, True

    # ------------------------------------------------------------ lvalues
    def lv(self, st, fr, e):
        k = e['k']
        if k == 'var':
            l = fr.env.get(e['id'])
            if l is None:
                if 'g' in e:
                    l = T('root', 'g', e['g'])
                    self.loc_rec.setdefault(l, self.p.ty(e.get('t')))
                else:
                    l = T('root', 'v', e['id'], 0, 0, e['n'])
                    self.loc_rec.setdefault(l, self.p.ty(e.get('t')))
            return l
        if k == 'this':
            return T('val', T('addr', fr.this)) if False else T('thisptr') if fr.this is None else T('val', T('addr', fr.this))
        if k == 'mem':
            b = e['b']
            if e['f'] == '':
                return self.lv(st, fr, b) if not e.get('ar') else self.derefloc(st, self.ev(st, fr, b))
            rn = self.p.ty(b.get('t')) if b.get('t') else None
            bb = b
            while bb['k'] == 'mem' and bb['f'] == '':
                if bb.get('ar'):
                    break
                bb = bb['b']
            rn = self.p.ty(bb.get('t')) if bb.get('t') else None
            if e.get('ar') or b['k'] == 'this' or bb['k'] == 'this':
                base = self.derefloc(st, self.ev(st, fr, b)) if bb['k'] != 'this' else fr.this
            elif b['k'] == 'mem' and b['f'] == '' and b.get('ar'):
                base = self.derefloc(st, self.ev(st, fr, b['b']))
            else:
                base = self.lv(st, fr, b)
            if base is None:
                base = T('root', 'nothis', 'this')
            if e.get('r'):
                rn2 = e['r']
            else:
                rn2 = rn
            if base.op == 'val':
                v = self.project(base.args[0], T('fld', base, e['f']))
                return T('val', v) if not isinstance(v, B) else T('val', v)
            # reference members
            fl = self.p.flat(rn) or self.p.flat(rn2)
            if rn and rn.endswith('*'):
                rn = rn[:-1].strip()
            if fl and rn not in self.p.records:
                rn = rn2
            loc = self.fldloc(base, e['f'], rn if self.p.flat(rn) else rn2)
            isref = False
            if fl:
                for f in fl['rec']['fields']:
                    if f['n'] == e['f'] and f.get('ref'):
                        isref = True
            if isref:
                b_ = st.mem.get(T('fld', T('bind', base), e['f']))
                if b_ is not None:
                    return b_.args[0]
                v = st.mem.get(loc)
                if v is not None and v.op == 'addr':
                    return v.args[0]
            tn = self.p.ty(e.get('t'))
            if tn:
                self.loc_rec.setdefault(loc, tn)
            return loc
        if k == 'idx':
            b = self.ev_or_loc(st, fr, e['b'])
            i = self.ev(st, fr, e['i'])
            if isinstance(i, B):
                i = b2i(i)
            loc = T('idx', b, i)
            self.event(st, fr, 'index', 'subscript', (b, i), e)
            self.loc_rec.setdefault(loc, self.p.ty(e.get('t')))
            return loc
        if k == 'un' and e['op'] == '*':
            return self.derefloc(st, self.ev(st, fr, e['e']))
        if k == 'un' and e['op'] in ('++', '--') and not e.get('post'):
            self.ev(st, fr, e)
            return self.lv(st, fr, e['e'])
        if k == 'bin' and (e['op'] == '=' or e['op'] in ASSIGN):
            self.ev(st, fr, e)
            return self.lv(st, fr, e['a'])
        if k == 'bin' and e['op'] == ',':
            self.ev(st, fr, e['a'])
            return self.lv(st, fr, e['b'])
        if k == 'cond':
            c = self.cond(st, fr, e['c'])
            if c is TRUE:
                return self.lv(st, fr, e['a'])
            if c is FALSE:
                return self.lv(st, fr, e['b'])
            return ite_loc(c, self.lv(st, fr, e['a']), self.lv(st, fr, e['b']))
        if k == 'call':
            return self.call(st, fr, e, want_loc=True)
        if k == 'cast':
            return self.lv(st, fr, e['e'])
        if k == 'ctor' and self.ctor_hook and self.ctor_hook(self.p.decls[e['fn']]):
            loc = T('root', 'tmp', self.epoch(), 'tmp')
            self.loc_rec[loc] = self.p.ty(e.get('t'))
            self.construct(st, fr, loc, e)
            return loc
        if k in ('copy', 'ctor', 'il', 'lambda', 'str', 'int', 'zero', 'new', 'opaque', 'fn', 'flt', 'null', 'un', 'bin'):
            v = self.ev(st, fr, e)
            return self.temp(st, v, self.p.ty(e.get('t')))
        v = self.ev(st, fr, e)
        return T('val', v)

    def temp(self, st, v, tn=None):
        """materialise a temporary holding v"""
        if isinstance(v, Term) and v.op in ('rec', 'vec', 'app', 'ins', 'filled', 'upd', 'ld'):
            loc = T('root', 'tmp', self.epoch(), 'tmp')
            if tn:
                self.loc_rec[loc] = tn
            st.mem[loc] = v
            return loc
        return T('val', v)

    def ev_or_loc(self, st, fr, e):
        """base of a subscript: array lvalue or pointer value"""
        tn = self.p.ty(e.get('t')) if e.get('t') else ''
        if tn.endswith('*'):
            return self.derefarr(self.ev(st, fr, e))
        return self.lv(st, fr, e)

    def derefarr(self, v):
        if v.op == 'addr':
            return v.args[0]
        return T('deref', v)

    def derefloc(self, st, v):
        if isinstance(v, B):
            return T('deref', self.fresh('b'))
        if v.op == 'addr':
            return v.args[0]
        if v.op == 'ite':
            return ite_loc(v.args[0], self.derefloc(st, v.args[1]), self.derefloc(st, v.args[2]))
        if v.op == 'iter':
            return T('idx', v.args[0], v.args[1])
        return T('deref', v)

    # ------------------------------------------------------------ rvalues
    def ev(self, st, fr, e):
        if e is None:
            return T('none')
        if st.pc is FALSE:
            return T('dead')
        k = e['k']
        if k == 'int':
            t = self.p.ty(e.get('t'))
            v = int(e['v'])
            if t == 'bool':
                return TRUE if v else FALSE
            return C(v)
        if k in ('var', 'mem', 'idx'):
            if k == 'var' and e.get('ec'):
                return T('enum', e['n'])
            l = self.lv(st, fr, e)
            v = self.load(st, l, self.p.ty(e.get('t')))
            if k == 'var' and 'g' in e and v.op == 'ld':
                g = self.p.globals.get(e['g'])
                if g and g[0]['d'].get('init'):
                    init = g[0]['d']['init']
                    if init['k'] in ('int', 'str', 'flt'):
                        return self.ev(st, fr, init)
            return v
        m = getattr(self, 'e_' + k, None)
        if m is None:
            return self.fresh(k)
        return m(st, fr, e)

    def e_str(self, st, fr, e):
        return S(e['v'])

    def e_flt(self, st, fr, e):
        try:
            f = float(e['v'])
            if f == int(f) and abs(f) < 1e15:
                return C(int(f))
        except (ValueError, OverflowError):
            pass
        return T('flt', e['v'])

    def e_null(self, st, fr, e):
        return T('null')

    def e_this(self, st, fr, e):
        return T('addr', fr.this) if fr.this is not None else T('thisptr')

    def e_fn(self, st, fr, e):
        return T('fnref', self.p.decls[e['fn']]['qn'], e['fn'])

    def e_zero(self, st, fr, e):
        tn = self.p.ty(e.get('t'))
        if tn == 'bool':
            return FALSE
        if tn and tn[0] in 'iu' and tn[1:].isdigit():
            return C(0)
        if tn.endswith('*'):
            return T('null')
        fl = self.p.flat(tn)
        if fl:
            return self.default_rec(st, fr, tn, zero=True)
        if tn.startswith('std::vector'):
            return T('vec')
        if tn.startswith('std::array') or '[' in tn:
            v = self.array_val(st, fr, tn, True)
            return v if v is not None else T('filled', S(tn), C(0))
        return T('zero', tn)

    def array_val(self, st, fr, tn, zero):
        """element-wise value of a small fixed-size array type"""
        m = re.match(r'^std::array<(.*), *(\d+)(?:UL|ul|u)?>$', tn)
        if not m:
            m = re.match(r'^(.*)\[(\d+)\]$', tn)
        if not m or int(m.group(2)) > 16:
            return None
        et, k = m.group(1).strip(), int(m.group(2))
        fl = self.p.flat(et)
        out = []
        for i in range(k):
            if fl:
                out.append(self.default_rec(st, fr, et, zero))
            elif zero:
                out.append(FALSE if et == 'bool' else C(0))
            elif et.startswith('std::vector'):
                out.append(T('vec'))
            else:
                out.append(T('undef', self.epoch()))
        return T('vec', *out)

    def default_rec(self, st, fr, tn, zero=False):
        fl = self.p.flat(tn)
        vals = []
        inits = {}

        def coll(r):
            for b in r['bases']:
                rb = self.p.records.get(b)
                if rb:
                    coll(rb)
            for f in r['fields']:
                if 'init' in f:
                    inits[f['n']] = f['init']
        coll(fl['rec'])
        vz = set()
        if fl['view'] and fl['view'][0] in inits:       # a union initialised through its wide view
            x = self.ev(st, fr, inits[fl['view'][0]])
            if isinstance(x, Term) and isc(x) and cval(x) == 0:
                vz = {fl['view'][1], fl['view'][2]}
        for (n, bf, t) in fl['fields']:
            ft = self.p.ty(t)
            if n in vz:
                v = FALSE if bf == 1 else C(0)
            elif n in inits:
                v = self.coerce(self.ev(st, fr, inits[n]), ft)
            elif bf == 1:
                v = FALSE if zero else atom(T('bitf', self.fresh('undef')))
            elif zero:
                v = self.e_zero(st, fr, {'t': t})
            elif ft.startswith('std::vector'):
                v = T('vec')
            elif ft.startswith('std::array') and self.array_val(st, fr, ft, zero) is not None:
                v = self.array_val(st, fr, ft, zero)
            elif self.p.flat(ft):
                v = self.default_rec(st, fr, ft, zero)
            elif ft.startswith('std::basic_string') or ft.startswith('std::__cxx11::basic_string'):
                v = S('')
            else:
                v = T('undef', self.epoch())
            vals.append((n, v))
        return T('rec', tn, tuple(vals))

    def e_lambda(self, st, fr, e):
        L = Lam()
        L.node = e
        L.env = dict(fr.env)
        L.this = fr.this
        L.fn = fr
        L.caps = {}
        for c in e['cap']:
            if 'init' in c:
                v = self.ev(st, fr, c['init'])
                loc = T('root', 'cap', self.epoch(), c['n'])
                st.mem[loc] = v
                L.env[c['id']] = loc
            elif 'id' in c and not c.get('ref'):
                if c['id'] in fr.env:
                    src = fr.env[c['id']]
                    v = self.load(st, src)
                    loc = T('root', 'cap', self.epoch(), c['n'])
                    if src in self.loc_rec:
                        self.loc_rec[loc] = self.loc_rec[src]
                    if v.op != 'ld':
                        st.mem[loc] = v
                        L.env[c['id']] = loc
        i = len(self.lams)
        self.lams[i] = L
        return T('lam', i)

    def e_copy(self, st, fr, e):
        inner = e['e']
        v = self.ev(st, fr, inner)
        return v

    def e_cond(self, st, fr, e):
        c = self.cond(st, fr, e['c'])
        if c is TRUE:
            return self.ev(st, fr, e['a'])
        if c is FALSE:
            return self.ev(st, fr, e['b'])
        a, b = st.copy(), st.copy()
        a.pc = band(st.pc, c)
        b.pc = band(st.pc, bnot(c))
        va = self.ev(a, fr, e['a'])
        vb = self.ev(b, fr, e['b'])
        m = self.merge(a, b)
        self.assign_state(st, m)
        if a.pc is FALSE:
            return vb
        if b.pc is FALSE:
            return va
        return ite(c, va, vb)

    def assign_state(self, st, m):
        st.mem, st.ep, st.anc, st.pc, st.wild = m.mem, m.ep, m.anc, m.pc, m.wild

    def e_cast(self, st, fr, e):
        v = self.ev(st, fr, e['e'])
        tn = self.p.ty(e.get('t'))
        ck = e['ck']
        if tn == 'bool':
            return i2b(v)
        if isinstance(v, B):
            return b2i(v)
        if ck == 'IntegralCast' and tn and tn[0] in 'iu' and tn[1:].isdigit():
            w = int(tn[1:])
            if isc(v):
                x = cval(v)
                if tn[0] == 'u':
                    x &= (1 << w) - 1
                else:
                    x &= (1 << w) - 1
                    if x >> (w - 1):
                        x -= 1 << w
                return C(x)
            sn = self.tyof(e['e'])
            if w < 32 and sn and sn[0] in 'iu' and sn[1:].isdigit() and int(sn[1:]) > w and not small(v, w):
                return T('wrap', w if tn[0] == 'u' else -w, v)
        return v

    def e_il(self, st, fr, e):
        tn = self.p.ty(e.get('t'))
        vals = [self.ev(st, fr, a) for a in e['a']]
        fl = self.p.flat(tn)
        if fl and not tn.startswith('std::'):
            names = [f for f in fl['fields']]
            # unions / bitfield packs: positional on flattened fields only if plain
            d = []
            for i, (n, bf, t) in enumerate(names):
                if i < len(vals):
                    v = self.coerce(vals[i], self.p.ty(t))
                    if bf == 1 and not isinstance(v, B):
                        v = i2b(v)
                    d.append((n, v))
                else:
                    d.append((n, T('undef', self.epoch())))
            return T('rec', tn, tuple(d))
        if tn.startswith('std::array') and len(e['a']) == 1 and e['a'][0] and e['a'][0]['k'] == 'il':
            v = vals[0]
            full = self.array_val(st, fr, tn, True) if isinstance(v, Term) and v.op == 'vec' else None
            if full is not None and len(full.args) > len(v.args):
                v = T('vec', *v.args, *full.args[len(v.args):])
            return v
        return T('vec', *[b2i(v) if False else v for v in vals])

    def e_ctor(self, st, fr, e):
        d = self.p.decls[e['fn']]
        tn = self.p.ty(e.get('t'))
        h = self.prims.get(d['qn'])
        if h:
            args = [self.ev(st, fr, a) for a in e['a']]
            return h(self, st, fr, e, args)
        fn = self.p.fns.get(e['fn'])
        if fn is not None and self.p.flat(tn) and d['qn'] not in self.opaque and len(self.stack) < self.maxdepth + 4:
            loc = T('root', 'new', self.epoch(), tn.split('::')[-1])
            self.loc_rec[loc] = tn
            self.construct(st, fr, loc, e)
            v = self.load(st, loc, tn)
            return v
        if tn.startswith('std::') or tn.startswith('parallel') or tn.startswith('phmap'):
            return self.std_ctor(st, fr, e, tn, d)
        if not e['a'] and self.p.flat(tn):
            return self.default_rec(st, fr, tn)
        args = [self.ev(st, fr, a) for a in e['a']]
        if len(args) == 1 and d['qn'].endswith(('::__normal_iterator', '::_Rb_tree_const_iterator', '::_Node_const_iterator', '::_List_const_iterator')):
            return args[0]      # the conversion to a constant iterator
        self.event(st, fr, 'ctor', d['qn'], args, e, fid=e['fn'])
        return T('call', 'ctor:' + d['qn'], *args)

    def std_ctor(self, st, fr, e, tn, d):
        args = [self.ev(st, fr, a) for a in e['a']]
        base = tn[5:].split('<')[0].replace('__cxx11::', '')
        if base == 'array' and not args:
            v = self.array_val(st, fr, tn, False)
            return v if v is not None else T('undef', self.epoch())
        if base in ('vector', 'deque', 'list', 'array', 'set', 'unordered_set', 'queue', 'stack', 'priority_queue', 'map', 'unordered_map', 'multimap'):
            real = [a for a in args if not (isinstance(a, Term) and a.op == 'call' and a.args[0] == 'ctor:std::allocator')]
            real = [a for a in real if not (isinstance(a, Term) and a.op in ('alloc',))]
            if not real:
                return T('map') if base in ('map', 'unordered_map') else T('vec')
            if base in ('vector', 'deque', 'list', 'set', 'unordered_set') and len(real) == 1 and real[0].op == 'vec' and e['a'][0]['k'] in ('il', 'var', 'cast', 'copy', 'call', 'mem'):
                return real[0]
            if base in ('vector', 'deque') and e['a']:
                k0 = real[0]
                if isinstance(k0, Term) and k0.op in ('vec', 'app') and len(real) == 1:
                    return k0
                if k0.op == 'iter':
                    if len(real) >= 2 and real[1].op == 'iter' and k0.args[0] is real[1].args[0]:
                        src = self.load(st, k0.args[0])
                        if k0.args[1] is C(0) and real[1].args[1] is self.size_of(st, k0.args[0]):
                            return src
                        return T('slice', src, k0.args[1], real[1].args[1])
                    return T('call', 'ctor:' + d['qn'], *real)
                if len(real) == 2 and k0.op not in ('iter', 'riter') and 'iterator' in self.p.ty(e['a'][0].get('t')).split('<')[0]:
                    return T('call', 'ctor:' + d['qn'], *real)
                if isarith(k0) or isc(k0):
                    if isc(k0) and len(real) == 2 and cval(k0) <= 64:
                        return T('vec', *([real[1]] * cval(k0)))
                    if len(real) == 2:
                        return T('filled', k0, real[1])
                    et = tn[tn.find('<') + 1:]
                    return T('filled', k0, C(0) if not et.startswith('bool') else FALSE)
        if base == 'allocator':
            return T('alloc')
        if base in ('pair', 'tuple') and len(args) >= 2:
            return T('pair', *args)
        if base.startswith('basic_string'):
            r = [a for a in args if a.op != 'alloc']
            if not r:
                return S('')
            if len(r) == 1:
                return r[0]
        if base in ('function', 'optional', 'shared_ptr', 'unique_ptr') and len(args) == 1:
            if base == 'optional':
                a = args[0]
                if isinstance(a, Term) and (a.op == 'call' and 'nullopt' in str(a.args[0]) or (a.op == 'ld' and 'nullopt' in show(a))):
                    return T('nullopt')
                return T('some', a)
            return args[0]
        if base == 'optional' and not args:
            return T('nullopt')
        if base in ('shared_ptr', 'unique_ptr') and not args:
            return T('null')
        if base.startswith('initializer_list') and args:
            return args[0]
        return T('call', 'ctor:' + base, *args)

    def construct(self, st, fr, loc, e):
        """run constructor expression e on object at loc"""
        fn = self.p.fns.get(e['fn'])
        d = self.p.decls[e['fn']]
        tn = self.p.ty(e.get('t'))
        if self.ctor_hook and self.ctor_hook(d):
            args = [self.ev(st, fr, a) for a in e['a']]
            st.ep[loc] = self.epoch()
            self.event(st, fr, 'ctor', d['qn'], args, e, extra=loc)
            return
        if fn is None:
            if not e['a'] and self.p.flat(tn):
                v = self.default_rec(st, fr, tn)
                for f, x in v.args[1]:
                    self.store(st, self.fldloc(loc, f, tn), x)
                return
            args = [self.ev(st, fr, a) for a in e['a']]
            st.ep[loc] = self.epoch()
            self.event(st, fr, 'ctor', d['qn'], args, e)
            return
        st.ep[loc] = self.epoch()
        inited = {i['f'] for i in fn.get('inits', ()) if 'f' in i}
        self.invoke(st, fr, fn, e, loc, e['a'], depthok=True)
        return

    def e_new(self, st, fr, e):
        args = [self.ev(st, fr, a) for a in e['a']]
        loc = T('root', 'heap', self.epoch(), 'new')
        if args and isinstance(args[-1], Term) and args[-1].op == 'rec':
            self.loc_rec[loc] = args[-1].args[0]
            self.store(st, loc, args[-1])
        self.event(st, fr, 'new', 'new', args, e, val=loc)
        return T('addr', loc)

    def e_delete(self, st, fr, e):
        v = self.ev(st, fr, e['e'])
        self.event(st, fr, 'delete', 'delete', (v,), e)
        return T('void')

    def e_throw(self, st, fr, e):
        v = self.ev(st, fr, e['e']) if e.get('e') else T('none')
        self.event(st, fr, 'throw', 'throw', (v,), e)
        st.pc = FALSE
        return T('void')

    def e_opaque(self, st, fr, e):
        a = [self.ev(st, fr, x) for x in e.get('a', ())]
        return T('call', 'opaque:' + e['cls'], *a)

    def e_un(self, st, fr, e):
        op = e['op']
        tn = self.p.ty(e.get('t'))
        if op == '!':
            return bnot(i2b(self.ev(st, fr, e['e'])))
        if op == '&':
            if e['e']['k'] == 'fn':
                return self.ev(st, fr, e['e'])
            return T('addr', self.lv(st, fr, e['e']))
        if op == '*':
            l = self.derefloc(st, self.ev(st, fr, e['e']))
            return self.load(st, l, tn)
        if op in ('++', '--'):
            l = self.lv(st, fr, e['e'])
            old = self.load(st, l, tn)
            if isinstance(old, B):
                old = b2i(old)
            new = self.iadd(old, C(1 if op == '++' else -1))
            self.write(st, fr, l, new, tn, e)
            return old if e.get('post') else new
        v = self.ev(st, fr, e['e'])
        if op == '-':
            if v.op == 'flt':
                return T('flt', '-' + v.args[0])
            return neg(b2i(v) if isinstance(v, B) else v)
        if op == '+':
            return b2i(v) if isinstance(v, B) else v
        if op == '~':
            if isc(v):
                w = int(tn[1:]) if tn[1:].isdigit() else 64
                x = ~cval(v)
                return C(x & ((1 << w) - 1) if tn[0] == 'u' else x)
            return T('inv', b2i(v) if isinstance(v, B) else v)
        return self.fresh(op)

    def iadd(self, a, b):
        if a.op == 'iter':
            return T('iter', a.args[0], add(a.args[1], b))
        if a.op == 'addr' and a.args[0].op == 'idx':
            return T('addr', T('idx', a.args[0].args[0], add(a.args[0].args[1], b)))
        return add(a, b)

    def write(self, st, fr, loc, v, tn, node):
        root = loc
        while root.op in ('fld', 'idx'):
            root = root.args[0]
        if not (root.op == 'root' and root.args[0] in ('v', 'tmp', 'cap', 'new')) or True:
            self.event(st, fr, 'write', loc, (v,), node)
        self.store(st, loc, v, tn)

    def e_bin(self, st, fr, e):
        op = e['op']
        tn = self.p.ty(e.get('t'))
        if op == '&&':
            a = self.cond(st, fr, e['a'])
            if a is FALSE:
                return FALSE
            s = st.copy()
            s.pc = band(st.pc, a)
            if s.pc is FALSE:
                return FALSE
            b = self.cond(s, fr, e['b'])
            if a is TRUE:
                self.assign_state(st, s)
            else:
                o = st.copy()
                o.pc = band(st.pc, bnot(a))
                m = self.merge(s, o)
                self.assign_state(st, m)
            return band(a, b)
        if op == '||':
            a = self.cond(st, fr, e['a'])
            if a is TRUE:
                return TRUE
            s = st.copy()
            s.pc = band(st.pc, bnot(a))
            if s.pc is FALSE:
                return TRUE
            b = self.cond(s, fr, e['b'])
            if a is FALSE:
                self.assign_state(st, s)
            else:
                o = st.copy()
                o.pc = band(st.pc, a)
                m = self.merge(s, o)
                self.assign_state(st, m)
            return bor(a, b)
        if op == ',':
            self.ev(st, fr, e['a'])
            return self.ev(st, fr, e['b'])
        if op == '=':
            v = self.ev(st, fr, e['b'])
            l = self.lv(st, fr, e['a'])
            v = self.coerce(v, tn)
            self.write(st, fr, l, v, tn, e)
            return v
        if op in ASSIGN:
            l = self.lv(st, fr, e['a'])
            a = self.load(st, l, tn)
            b = self.ev(st, fr, e['b'])
            v = self.arith(ASSIGN[op], a, b, tn, self.p.ty(e.get('ct')))
            v = self.coerce(v, tn)
            self.write(st, fr, l, v, tn, e)
            return v
        a = self.ev(st, fr, e['a'])
        b = self.ev(st, fr, e['b'])
        at = self.tyof(e['a'])
        return self.arith(op, a, b, tn, at)

    def tyof(self, e):
        return self.p.ty(e['t']) if isinstance(e, dict) and e.get('t') else ''

    def wrapped(self, v, tn):
        """modular unsigned arithmetic (only where a rule asks for it)"""
        if not self.wrap_unsigned or tn not in ('u8', 'u16', 'u32', 'u64'):
            return v
        w = int(tn[1:])
        if isc(v):
            return C(cval(v) & (1 << w) - 1)
        return T('wrap', w, v)

    def arith(self, op, a, b, tn, at=''):
        flt = at in ('double', 'float', 'long double')
        uns = at[:1] == 'u' and at[1:].isdigit()
        if op == '==':
            return eq_iter(a, b)
        if op == '!=':
            return bnot(eq_iter(a, b))
        if op in ('<', '>', '<=', '>='):
            if isinstance(a, B):
                a = b2i(a)
            if isinstance(b, B):
                b = b2i(b)
            if a.op == 'iter' and b.op == 'iter' and a.args[0] is b.args[0]:
                a, b = a.args[1], b.args[1]
            if op == '<':
                return lt(a, b, flt, uns)
            if op == '>':
                return lt(b, a, flt, uns)
            if op == '<=':
                return le(a, b, flt, uns)
            return le(b, a, flt, uns)
        bothb = isinstance(a, B) and isinstance(b, B)
        if op in ('&', '|', '^'):
            if bothb or (tn == 'bool'):
                x, y = i2b(a), i2b(b)
                r = band(x, y) if op == '&' else bor(x, y) if op == '|' else bxor(x, y)
                return r if tn == 'bool' else r
            a = b2i(a) if isinstance(a, B) else a
            b = b2i(b) if isinstance(b, B) else b
            return and_i(a, b) if op == '&' else or_i(a, b) if op == '|' else bxor_i(a, b)
        if isinstance(a, B):
            a = b2i(a)
        if isinstance(b, B):
            b = b2i(b)
        if op == '+':
            if a.op in ('iter', 'addr'):
                return self.iadd(a, b)
            if b.op in ('iter', 'addr'):
                return self.iadd(b, a)
            return self.wrapped(add(a, b), tn)
        if op == '-':
            if a.op == 'iter' and b.op == 'iter':
                if a.args[0] is b.args[0]:
                    return sub(a.args[1], b.args[1])
            elif a.op == 'iter':
                return self.iadd(a, neg(b))
            return self.wrapped(sub(a, b), tn)
        if op == '*':
            return mul(a, b)
        if op == '/':
            return T('fdiv', a, b) if tn in ('double', 'float') else div(a, b)
        if op == '%':
            return mod(a, b)
        if op == '<<':
            return shl(a, b)
        if op == '>>':
            return shr(a, b)
        return T('call', 'op' + op, a, b)

    # ------------------------------------------------------------ calls
    def size_of(self, st, loc):
        v = self.load(st, loc)
        return self.size_val(v)

    def size_val(self, v):
        if isinstance(v, B):
            return self.fresh('size')
        if v.op == 'map':
            return C(0)
        if v.op == 'vec':
            return C(len(v.args))
        if v.op in ('app', 'ins'):
            return add(self.size_val(v.args[0]), C(1))
        if v.op == 'filled':
            if v.args[0].op == 's':
                return T('size', v)
            return v.args[0]
        if v.op == 'upd':
            return self.size_val(v.args[0])
        if v.op == 'ite':
            return ite(v.args[0], self.size_val(v.args[1]), self.size_val(v.args[2]))
        if v.op == 's':
            return C(len(v.args[0]))
        t = T('size', v)
        return t

    def e_call(self, st, fr, e):
        return self.call(st, fr, e, want_loc=False)

    def ret_loc(self, st, v, want_loc):
        if want_loc:
            if isinstance(v, Term) and v.op == 'lref':
                return v.args[0]
            return self.temp(st, v)
        if isinstance(v, Term) and v.op == 'lref':
            return self.load(st, v.args[0])
        return v

    def call(self, st, fr, e, want_loc):
        if st.pc is FALSE:
            return T('val', T('dead')) if want_loc else T('dead')
        if 'fn' not in e:
            v = self.call_ptr(st, fr, e)
            return self.ret_loc(st, v, want_loc)
        d = self.p.decls[e['fn']]
        qn = d['qn']
        h = self.prims.get(qn) or self.prims.get(d['n'] if False else qn)
        if h is None and '*' in self.prims:
            h = self.prims['*'](qn, d, e)
        if h is not None:
            args = self.args_for(st, fr, e, d)
            v = h(self, st, fr, e, args)
            if v is not None:
                return self.ret_loc(st, v, want_loc)
        if d.get('lam') and e.get('oper') == '()':
            lamv = self.ev(st, fr, e['a'][0])
            if lamv.op == 'lam':
                v = self.call_lam(st, fr, lamv, e['fn'], e['a'][1:], e)
                return self.ret_loc(st, v, want_loc)
        fn = self.p.fns.get(e['fn'])
        if self.dtors and d.get('virt') and e.get('m'):
            fn = self.override(st, fr, e, d) or fn
            d = fn['decl'] if fn else d
            qn = d['qn']
        if e.get('m') and d.get('impl') and d['n'] == 'operator=' and (self.p.flat(d.get('cls', '')) or not d.get('cls', '').startswith('std::')):
            l = self.this_of(st, fr, e)
            tn = d['cls']
            v = self.ev(st, fr, e['a'][1])
            self.loc_rec.setdefault(l, tn)
            self.write(st, fr, l, v, tn, e)
            return l if want_loc else v
        if fn is not None and qn not in self.opaque and (e['fn'] not in self.stack or (qn in self.recursive and self.stack.count(e['fn']) < 7)) and len(self.stack) < self.maxdepth and (self.inline is None or self.inline(qn, fn)):
            this = None
            argn = e['a']
            if e.get('m'):
                this = self.this_of(st, fr, e)
                argn = e['a'][1:]
            self.event(st, fr, 'enter', qn, (), e, fid=e['fn'])
            v = self.invoke(st, fr, fn, e, this, argn)
            return self.ret_loc(st, v, want_loc)
        # std model
        v = self.std_call(st, fr, e, d, want_loc)
        if v is not NotImplemented:
            return v
        return self.opaque_call(st, fr, e, d, want_loc)

    def this_of(self, st, fr, e):
        o = e['a'][0]
        if e.get('ar') or o['k'] == 'this':
            return self.derefloc(st, self.ev(st, fr, o))
        l = self.lv(st, fr, o)
        if l.op == 'val':
            v = l.args[0]
            loc = T('root', 'tmp', self.epoch(), 'tmp')
            t = self.tyof(o)
            if t:
                self.loc_rec[loc] = t
            st.mem[loc] = v
            return loc
        t = self.tyof(o)
        if t:
            self.loc_rec.setdefault(l, t)
        return l

    def args_for(self, st, fr, e, d):
        out = []
        al = e['a']
        if e.get('m'):
            out.append(T('addr', self.this_of(st, fr, e)))
            al = al[1:]
        pt = d.get('pt', [])
        for i, a in enumerate(al):
            if i < len(pt) and pt[i] and not self.tyof(a).endswith('*'):
                l = self.lv(st, fr, a)
                out.append(l.args[0] if l.op == 'val' else T('addr', l))
            else:
                out.append(self.ev(st, fr, a))
        return out

    def invoke(self, st, fr, fn, e, this, argnodes, depthok=False, argvals=None):
        d = fn.get('decl') or {}
        nf = Frame(fn, this)
        nf.qn = d.get('qn', '')
        nf.file = fn.get('file', '')
        self.funcs_seen.add(nf.qn)
        binds = []
        for i, p in enumerate(fn['p']):
            tn = self.p.ty(p['t'])
            if argvals is not None:
                a = argvals[i] if i < len(argvals) else None
                if a is None:
                    a = T('val', self.fresh('arg'))
                binds.append((p, tn, a))
                continue
            if i >= len(argnodes):
                binds.append((p, tn, T('val', self.fresh('arg'))))
                continue
            an = argnodes[i]
            if p.get('ref'):
                l = self.lv(st, fr, an)
                if l.op == 'val' and self.p.flat(tn):
                    loc = T('root', 'tmp', self.epoch(), p['n'])
                    self.loc_rec[loc] = tn
                    st.mem[loc] = l.args[0]
                    l = loc
                binds.append((p, tn, l))
            else:
                v = self.ev(st, fr, an)
                binds.append((p, tn, T('val', self.coerce(v, tn))))
        self.stack.append(fn['fid'])
        for p, tn, a in binds:
            if p.get('ref'):
                if a.op == 'val':
                    loc = T('root', 'v', p['id'], len(self.stack), self.stack_id(), p['n'])
                    st.mem.pop(loc, None)
                    self.drop_children(st, loc)
                    st.mem[loc] = a.args[0]
                    a = loc
                self.loc_rec.setdefault(a, tn)
                nf.env[p['id']] = a
            else:
                v = a.args[0] if a.op == 'val' else self.load(st, a, tn)
                loc = T('root', 'v', p['id'], len(self.stack), self.stack_id(), p['n'])
                self.loc_rec.setdefault(loc, tn)
                st.mem.pop(loc, None)
                self.drop_children(st, loc)
                self.store(st, loc, self.coerce(v, tn), tn)
                nf.env[p['id']] = loc
        v, s = self.body(fn, nf, st.copy())
        self.stack.pop()
        self.assign_state(st, s)
        if v.op == 'lref':
            return v
        return v

    def call_lam(self, st, fr, lamv, fid, argnodes, e, argvals=None):
        L = self.lams[lamv.args[0]]
        ops = L.node['ops']
        op = None
        for o in ops:
            if o['fid'] == fid:
                op = o
        if op is None:
            n = len(argvals if argvals is not None else argnodes)
            c = [o for o in ops if len(o['p']) == n]
            op = c[0] if c else (ops[0] if ops else None)
        if op is None:
            return self.fresh('lam')
        key = ('lam', lamv.args[0])
        if key in self.stack or len(self.stack) > self.maxdepth + 6:
            return self.fresh('lamrec')
        fn = dict(op)
        fn['decl'] = {'qn': L.fn.qn + '::(lambda)'}
        fn['file'] = L.fn.file
        nf = Frame(fn, L.this)
        nf.qn = L.fn.qn
        nf.file = L.fn.file
        nf.env = dict(L.env)
        nf.rref = False
        vals = []
        for i, p in enumerate(op['p']):
            tn = self.p.ty(p['t'])
            if argvals is not None:
                a = argvals[i] if i < len(argvals) else T('val', self.fresh('a'))
            elif i >= len(argnodes):
                a = T('val', self.fresh('a'))
            elif p.get('ref'):
                a = self.lv(st, fr, argnodes[i])
            else:
                a = T('val', self.coerce(self.ev(st, fr, argnodes[i]), tn))
            vals.append((p, tn, a))
        self.stack.append(key)
        for p, tn, a in vals:
            if p.get('ref') and a.op != 'val':
                self.loc_rec.setdefault(a, tn)
                nf.env[p['id']] = a
            else:
                v = a.args[0] if a.op == 'val' else self.load(st, a, tn)
                loc = T('root', 'v', p['id'], len(self.stack), 0, p['n'])
                self.loc_rec.setdefault(loc, tn)
                st.mem.pop(loc, None)
                self.drop_children(st, loc)
                self.store(st, loc, self.coerce(v, tn), tn)
                nf.env[p['id']] = loc
        v, s = self.body(fn, nf, st.copy())
        self.stack.pop()
        self.assign_state(st, s)
        return v

    def call_ptr(self, st, fr, e):
        f = self.ev(st, fr, e['ptr']) if e.get('ptr') else self.fresh('fp')
        if f.op == 'lam':
            return self.call_lam(st, fr, f, None, e['a'], e)
        args = [self.ev(st, fr, a) for a in e['a']]
        self.event(st, fr, 'call', 'indirect', [f] + args, e)
        return T('call', 'indirect', f, *args)

    def run_callback_loop(self, st, fr, e, lamv, elems, name, objval, argc=None, count=None, stop=False, sink=None):
        """foreach-style primitive: one abstract iteration of the callback.
        elems: list of values/locs given to the callback; the iteration counter is appended"""
        if lamv.op != 'lam':
            self.event(st, fr, 'call', name, (lamv,), e)
            return st
        outer = self

        def cb(s):
            iv = outer.loops[-1].iv
            vals = elems(iv)
            v = outer.call_lam(s, fr, lamv, None, None, e, argvals=vals)
            if v is not None and v.op != 'void':
                if sink is not None:
                    outer.write(s, fr, sink(iv), v, None, e)
                    return s
                outer.event(s, fr, 'cbret', name, (v,), e)
                if stop and isinstance(v, B) and v is not TRUE:
                    o = s.copy()
                    o.pc = band(s.pc, bnot(v))
                    fr.brk[-1]['b'].append(o)
                    s.pc = band(s.pc, v)
            return s
        n = {'l': e.get('l', 0)}
        out = self.loop(st, fr, n, 'each:' + name, None, None, None, cb=cb, count=count)
        self.last_loop.over = objval
        return out

    def opaque_call(self, st, fr, e, d, want_loc):
        qn = d['qn']
        args = []
        al = e['a']
        thisloc = None
        muts = []
        locs = []
        if e.get('m'):
            thisloc = self.this_of(st, fr, e)
            if not d.get('cst') and not d.get('static'):
                muts.append(thisloc)
            al = al[1:]
            args.append(self.load(st, thisloc))
            locs.append(thisloc)
        pt = d.get('pt', [])
        lams = []
        for i, a in enumerate(al):
            if i < len(pt) and pt[i]:
                v0 = None
                tn = self.tyof(a)
                if tn.endswith('*'):
                    v0 = self.ev(st, fr, a)
                    l = self.derefloc(st, v0)
                    if self.track_epochs:
                        self.spill(st, fr, l, e)
                        if l.op == 'idx':
                            l = l.args[0]
                    muts.append(l)
                    args.append(v0)
                else:
                    l = self.lv(st, fr, a)
                    if l.op == 'val':
                        args.append(l.args[0])
                        if l.args[0].op == 'lam':
                            lams.append(l.args[0])
                    else:
                        args.append(self.load(st, l))
                        muts.append(l)
                        locs.extend([None] * (len(args) - 1 - len(locs)) + [l])
            else:
                v = self.ev(st, fr, a)
                args.append(v)
            if isinstance(args[-1], Term) and args[-1].op == 'lam':
                lams.append(args[-1])
        args = [b2i(a) if False else a for a in args]
        if qn in WRITES:
            # a library function that stores through iterators
            for a in args if WRITES[qn] is None else args[WRITES[qn]:WRITES[qn] + 1]:
                it = plain_iter(a)
                if it is not None and it.args[0].op != 'val' and it.args[0] not in muts:
                    self.spill(st, fr, T('idx', it.args[0], it.args[1]), e)
                    muts.append(it.args[0])
        if self.track_epochs:
            for a in args:
                it = plain_iter(a)
                if it is not None and it.args[0].op == 'root' and it.args[0].args[0] == 'v':
                    v = st.mem.get(it.args[0])
                    if isinstance(v, Term) and (v.op == 'slice' or v.op == 'call' and str(v.args[0]).startswith('ctor:std::')):
                        self.event(st, fr, 'write', it.args[0], (v,), e)
        ev = self.event(st, fr, 'call', qn, args, e, fid=e['fn'])
        if ev is not None:
            ev.locs = locs + [None] * (len(args) - len(locs))
        for lv_ in lams:
            # a callback handed to code we do not see: analyse one abstract invocation
            L = self.lams[lv_.args[0]]
            o = L.node['ops'][0] if L.node['ops'] else None
            if o is not None:
                def elems(iv, o=o):
                    return [T('val', T('cbarg', e.get('l', 0), i, iv)) for i in range(len(o['p']))]
                s2 = self.run_callback_loop(st, fr, e, lv_, elems, d['n'], args[0] if args else None)
                self.assign_state(st, s2)
        if d.get('nr'):
            self.event(st, fr, 'abort', qn, args, e)
            # modelled as an assertion: release builds continue
            return T('val', T('void')) if want_loc else T('void')
        if muts:
            val = T('ret', self.epoch(), qn)
        else:
            val = T('call', qn, *args)
        for m in muts:
            self.havoc(st, m, 'mut:' + d['n'])
        rt = self.p.ty(d.get('rt'))
        if rt == 'bool':
            val = atom(T('bitf', val))
        elif rt[:1] == 'u' and rt[1:].isdigit():
            tm.mark_unsigned(val)
        if ev is not None:
            ev.val = val
        if want_loc:
            if d.get('rref'):
                return T('deref', T('call', qn + '&', *([T('addr', thisloc)] if thisloc is not None else []), *args[1:])) if thisloc is not None else T('val', val)
            return self.temp(st, val, rt)
        if d.get('rref') and thisloc is not None and not muts:
            pass
        return val

    # ------------------------------------------------------------ std models
    def std_call(self, st, fr, e, d, want_loc):
        qn = d['qn']
        if qn.startswith('__gnu_cxx::operator') and not e.get('m'):
            kind, v = self.std_free(st, fr, e, d, d['n'])
            return v if not want_loc else self.temp(st, v) if isinstance(v, Term) else v
        if not qn.startswith('std::') and not qn.startswith('phmap') and '::' in qn and not d.get('cls', '').startswith(('std::', 'phmap', '__gnu_cxx')):
            return NotImplemented
        name = d['n']
        cls = d.get('cls', '') or ''
        if cls.startswith('std::numeric_limits<') and name in ('max', 'min', 'lowest', 'epsilon') and not e.get('a'):
            v = limits(cls[20:-1].strip(), name)
            if v is not None:
                return C(v)
        if e.get('m') and cls:
            r = self.std_method(st, fr, e, d, name, cls)
        else:
            r = self.std_free(st, fr, e, d, name)
        if r is NotImplemented:
            return r
        kind, v = r
        if kind == 'loc':
            return v if want_loc else self.load(st, v, self.p.ty(e.get('t')))
        return T('val', v) if want_loc and not (isinstance(v, Term) and v.op in ('rec', 'vec', 'app')) else (self.temp(st, v, self.p.ty(e.get('t'))) if want_loc else v)

    def std_free(self, st, fr, e, d, name):
        qn = d['qn']
        a = e['a']
        oper = e.get('oper')
        if qn in ('std::move', 'std::forward', 'std::as_const', 'std::ref', 'std::cref') and len(a) == 1:
            return 'loc', self.lv(st, fr, a[0])
        if qn == 'std::swap' and len(a) == 2:
            l1, l2 = self.lv(st, fr, a[0]), self.lv(st, fr, a[1])
            t = self.tyof(a[0])
            v1, v2 = self.load(st, l1, t), self.load(st, l2, t)
            if self.track_epochs:
                self.event(st, fr, 'write', l1, (v2,), e)
                self.event(st, fr, 'write', l2, (v1,), e)
            self.store(st, l1, v2, t)
            self.store(st, l2, v1, t)
            return 'val', T('void')
        if qn in ('std::min', 'std::max') and len(a) == 2 and self.tyof(a[0]):
            x, y = self.ev(st, fr, a[0]), self.ev(st, fr, a[1])
            t = self.tyof(a[0])
            if isinstance(x, Term) and isinstance(y, Term):
                flt = t in ('double', 'float')
                c = lt(y, x, flt)
                return 'val', (ite(c, y, x) if name == 'min' else ite(lt(x, y, flt), y, x))
        if qn in ('std::begin', 'std::end', 'std::cbegin', 'std::cend') and len(a) == 1:
            l = self.lv(st, fr, a[0])
            return 'val', T('iter', l, C(0) if 'begin' in name else self.size_of(st, l))
        if qn in ('std::make_pair', 'std::make_tuple') :
            return 'val', T('pair', *[self.ev(st, fr, x) for x in a])
        if qn == 'std::get' and len(a) == 1:
            v = self.ev(st, fr, a[0])
            ta = d.get('ta', '')
            i = ta.split(',')[0].strip()
            if isinstance(v, Term) and v.op == 'pair' and i.isdigit() and int(i) < len(v.args):
                return 'val', v.args[int(i)]
            if isinstance(v, Term):
                if v.op == 'ld' and i in ('0', '1'):
                    l = self.lv(st, fr, a[0])
                    if l.op not in ('val',):
                        return 'loc', T('fld', l, 'first' if i == '0' else 'second')
                return 'val', T('get', v, i)
        if name in ('operator!=', 'operator==', 'operator<', 'operator-') and qn.startswith('__gnu_cxx::') and len(a) == 2:
            x, y = self.ev(st, fr, a[0]), self.ev(st, fr, a[1])
            if isinstance(x, Term) and isinstance(y, Term) and x.op == 'iter' and y.op == 'iter' and x.args[0] is y.args[0]:
                p, q = x.args[1], y.args[1]
                return 'val', {'operator!=': lambda: bnot(eq(p, q)), 'operator==': lambda: eq(p, q), 'operator<': lambda: lt(p, q), 'operator-': lambda: sub(p, q)}[name]()
            if self.track_epochs and isinstance(x, Term) and isinstance(y, Term) and isarith(x) and isarith(y):
                return 'val', {'operator!=': lambda: bnot(eq(x, y)), 'operator==': lambda: eq(x, y), 'operator<': lambda: lt(x, y), 'operator-': lambda: sub(x, y)}[name]()
            r = T('call', qn, x, y)
            return 'val', atom(T('bitf', r)) if name != 'operator-' else r
        if qn == 'std::make_shared' or qn == 'std::make_unique':
            loc = T('root', 'heap', self.epoch(), 'shared')
            args = [self.ev(st, fr, x) for x in a]
            ta = d.get('ta', '').split(',')[0].strip()
            tn = ta
            cands = [r for r in self.p.records if r == tn or r.endswith('::' + tn)]
            if cands:
                self.loc_rec[loc] = cands[0]
                if len(args) == 1 and isinstance(args[0], Term) and args[0].op in ('rec', 'ld'):
                    st.mem[loc] = args[0]
            self.event(st, fr, 'new', qn, args, e, val=loc, extra=d.get('ta', ''))
            st.ep[loc] = self.epoch()
            return 'val', T('addr', loc)
        if qn in ('std::abs', 'abs', 'std::log2', 'std::ceil', 'std::floor', 'std::to_string', 'std::distance'):
            args = [self.ev(st, fr, x) for x in a]
            if name == 'distance' and len(args) == 2 and args[0].op == 'iter' and args[1].op == 'iter' and args[0].args[0] is args[1].args[0]:
                return 'val', sub(args[1].args[1], args[0].args[1])
            if name == 'abs' and isc(args[0]):
                return 'val', C(abs(cval(args[0])))
            return 'val', T('call', qn, *args)
        if qn == 'std::find' and len(a) == 3 and self.find_positions:
            args = [self.ev(st, fr, x) for x in a]
            b, en = plain_iter(args[0]), plain_iter(args[1])
            if b is not None and en is not None and b.args[0] is en.args[0]:
                x = args[2]
                return 'val', T('iter', b.args[0], T('findpos', self.load(st, b.args[0]), b.args[1], en.args[1], x))
            return 'val', T('call', qn, *args)
        if qn in ('std::for_each',) and len(a) == 3:
            b, en, f = [self.ev(st, fr, x) for x in a]
            if b.op == 'iter' and f.op == 'lam':
                base = b.args[0]

                def elems(iv):
                    return [T('idx', base, add(b.args[1], iv))]
                cnt = sub(en.args[1], b.args[1]) if en.op == 'iter' and en.args[0] is base else None
                s2 = self.run_callback_loop(st, fr, e, f, elems, 'for_each', self.load(st, base), count=cnt)
                self.last_loop.container = base
                self.assign_state(st, s2)
                return 'val', T('void')
        if qn == 'std::generate' and len(a) == 3:
            b, en, f = [self.ev(st, fr, x) for x in a]
            if b.op == 'iter' and en.op == 'iter' and b.args[0] is en.args[0] and f.op == 'lam':
                base = b.args[0]
                s2 = self.run_callback_loop(st, fr, e, f, lambda iv: [], 'generated', self.load(st, base), count=sub(en.args[1], b.args[1]), sink=lambda iv: T('idx', base, add(b.args[1], iv)))
                self.assign_state(st, s2)
                return 'val', T('void')
        if qn in ('std::sort', 'std::stable_sort') and len(a) in (2, 3):
            args = [self.ev(st, fr, x) for x in a]
            b, en = args[0], args[1]
            if b.op == 'iter' and en.op == 'iter' and b.args[0] is en.args[0] and len(b.args) == 2 and (len(a) == 2 or args[2].op == 'lam'):
                base = b.args[0]
                tag = self.epoch()
                cmp = C(0)
                if len(a) == 3:
                    s2 = st.copy()
                    s2.pc = TRUE
                    k = len(self.events)
                    cmp = self.call_lam(s2, fr, args[2], None, None, e, argvals=[T('val', T('cmparg', tag, 0)), T('val', T('cmparg', tag, 1))])
                    self.events[k:] = [x for x in self.events[k:] if x.kind == 'epoch']
                old = self.load(st, base)
                v = T('sorted', old, b.args[1], en.args[1], cmp, tag)
                if self.track_epochs:
                    self.event(st, fr, 'write', base, (v,), e)
                self.store(st, base, v)
                return 'val', T('void')
        if qn == 'std::next' or qn == 'std::prev' or qn == 'std::advance':
            args = [self.ev(st, fr, x) for x in a]
            k = args[1] if len(args) > 1 else C(1)
            if args[0].op == 'iter':
                v = self.iadd(args[0], k if name != 'prev' else neg(k))
                if name == 'advance':
                    self.store(st, self.lv(st, fr, a[0]), v)
                    return 'val', T('void')
                return 'val', v
        if qn == 'std::transform' and len(a) in (4, 5):
            args = [self.ev(st, fr, x) for x in a]
            f = args[-1]
            if f.op == 'lam' and args[0].op == 'iter':
                base = args[0].args[0]
                b2 = args[2] if len(a) == 5 else None
                res = []

                def cb(s):
                    iv = self.loops[-1].iv
                    vals = [T('idx', base, add(args[0].args[1], iv))]
                    if b2 is not None:
                        vals.append(T('idx', b2.args[0], add(b2.args[1], iv)) if b2.op == 'iter' else T('val', T('elem', b2, iv)))
                    v = self.call_lam(s, fr, f, None, None, e, argvals=vals)
                    out = args[-2]
                    if out.op == 'inserter':
                        self.push(s, fr, out.args[0], v, e)
                    elif out.op == 'iter':
                        self.write(s, fr, T('idx', out.args[0], add(out.args[1], iv)), v, None, e)
                    return s
                cnt = sub(args[1].args[1], args[0].args[1]) if args[1].op == 'iter' and args[1].args[0] is base else None
                s2 = self.loop(st, fr, {'l': e.get('l', 0)}, 'each:transform', None, None, None, cb=cb, count=cnt)
                self.last_loop.container = base
                self.assign_state(st, s2)
                return 'val', T('void')
        if qn == 'std::back_inserter' or qn == 'std::inserter':
            return 'val', T('inserter', self.lv(st, fr, a[0]))
        if qn in ('std::copy',) and len(a) == 3:
            args = [self.ev(st, fr, x) for x in a]
            if args[0].op == 'iter':
                base = args[0].args[0]
                src = self.load(st, base)
                if isinstance(src, Term) and src.op == 'vec' and args[2].op == 'inserter' and isc(args[0].args[1]) and args[1].op == 'iter' and isc(args[1].args[1]):
                    for i in range(cval(args[0].args[1]), min(cval(args[1].args[1]), len(src.args))):
                        self.push(st, fr, args[2].args[0], src.args[i], e)
                    return 'val', args[2]

                def cb(s):
                    iv = self.loops[-1].iv
                    v = self.load(s, T('idx', base, add(args[0].args[1], iv)))
                    if args[2].op == 'inserter':
                        self.push(s, fr, args[2].args[0], v, e)
                    elif args[2].op == 'iter':
                        self.write(s, fr, T('idx', args[2].args[0], add(args[2].args[1], iv)), v, None, e)
                    return s
                cnt = sub(args[1].args[1], args[0].args[1]) if args[1].op == 'iter' and args[1].args[0] is base else None
                if cnt is None and args[1].op in ('ld', 'ret', 'call', 'lin'):
                    cnt = T('call', 'std::distance', args[0], args[1])
                s2 = self.loop(st, fr, {'l': e.get('l', 0)}, 'each:copy', None, None, None, cb=cb, count=cnt)
                self.last_loop.container = base
                self.assign_state(st, s2)
                if args[2].op == 'iter' and cnt is not None:
                    return 'val', T('iter', args[2].args[0], add(args[2].args[1], cnt))
                return 'val', args[2] if args[2].op == 'inserter' else T('void')
        if oper in ('==', '!=', '<', '>', '<=', '>=', '+', '-') and len(a) == 2:
            x, y = self.ev(st, fr, a[0]), self.ev(st, fr, a[1])
            # optional vs value / nullopt
            if oper in ('+',):
                if x.op == 's' and y.op == 's':
                    return 'val', S(x.args[0] + y.args[0])
                return 'val', (T('strcat', x, y) if x.op not in ('iter',) else self.iadd(x, y))
            if oper == '-' and x.op == 'iter':
                return 'val', self.arith('-', x, y, '')
            if oper in ('==', '!='):
                r = eq_iter(x, y)
                return 'val', r if oper == '==' else bnot(r)
            if x.op == 'iter' and y.op == 'iter':
                return 'val', self.arith(oper, x, y, 'bool', 'i64')
            if oper in ('<', '>'):
                return 'val', atom(T('lt', x, y) if oper == '<' else T('lt', y, x))
            return 'val', bnot(atom(T('lt', y, x) if oper == '<=' else T('lt', x, y)))
        if oper == '<<':
            # stream output: keep the sequence of things written
            s = self.lv(st, fr, a[0])
            v = self.ev(st, fr, a[1]) if a[1]['k'] != 'fn' else T('flush' if 'flush' in str(a[1]) else 'endl')
            self.event(st, fr, 'out', self.stream_root(s), (v,), e)
            return 'loc', s
        return NotImplemented

    def stream_root(self, l):
        return l

    def insert_at(self, st, fr, loc, i, v, e):
        self.event(st, fr, 'insert', loc, [T('iter', loc, i), v], e)
        old = self.load(st, loc)
        if isinstance(old, Term) and old.op == 'vec' and isinstance(i, Term) and i.op == 'c' and i.args[0] <= len(old.args):
            k = i.args[0]
            self.store(st, loc, T('vec', *(old.args[:k] + (v,) + old.args[k:])))
        else:
            self.store(st, loc, T('ins', old, i, v))

    def push(self, st, fr, loc, v, e):
        self.event(st, fr, 'push', loc, (v,), e)
        old = self.load(st, loc)
        if isinstance(old, Term) and old.op == 'vec':
            nv = T('vec', *(old.args + (v,)))
        elif isinstance(old, Term) and old.op == 'ite' and self.small_vecs(old):
            nv = self.map_vec(old, v)
        else:
            nv = T('app', old, v)
        self.store(st, loc, nv)

    def small_vecs(self, t, n=0):
        if t.op == 'vec':
            return True
        return t.op == 'ite' and n < 4 and isinstance(t.args[1], Term) and isinstance(t.args[2], Term) and self.small_vecs(t.args[1], n + 1) and self.small_vecs(t.args[2], n + 1)

    def map_vec(self, t, v):
        if t.op == 'vec':
            return T('vec', *(t.args + (v,)))
        return ite(t.args[0], self.map_vec(t.args[1], v), self.map_vec(t.args[2], v))

    def std_method(self, st, fr, e, d, name, cls):
        a = e['a']
        base = cls.split('<')[0].split('::')[-1]
        if base in ('__shared_ptr_access', 'shared_ptr', '__shared_ptr', 'unique_ptr', '__unique_ptr_impl'):
            v = self.ev(st, fr, a[0])
            if name in ('operator->', 'get'):
                return 'val', v
            if name == 'operator*':
                return 'loc', self.derefloc(st, v)
            if name == 'operator bool':
                return 'val', bnot(eq(v, T('null')))
            if name in ('operator=', 'reset'):
                l = self.lv(st, fr, a[0])
                nv = self.ev(st, fr, a[1]) if len(a) > 1 else T('null')
                self.write(st, fr, l, nv, None, e)
                return 'loc', l
            return NotImplemented
        if base in ('__normal_iterator', '_Node_iterator', '_Node_const_iterator', '_List_iterator', '_Rb_tree_iterator', '_Rb_tree_const_iterator', '_List_const_iterator', '_Deque_iterator', 'reverse_iterator', '_Node_iterator_base', '_Bit_iterator', '_Bit_const_iterator'):
            v = self.ev(st, fr, a[0])
            if name == 'operator*':
                if v.op == 'riter':
                    return 'loc', T('idx', v.args[0], v.args[1])
                return 'loc', self.derefloc(st, v)
            if name == 'operator->':
                return 'val', T('addr', self.derefloc(st, v)) if v.op != 'riter' else T('addr', T('idx', v.args[0], v.args[1]))
            if name in ('operator++', 'operator--'):
                l = self.lv(st, fr, a[0])
                post = len(a) > 1
                if v.op == 'iter':
                    nv = self.iadd(v, C(1 if '+' in name else -1))
                elif v.op == 'riter':
                    nv = T('riter', v.args[0], add(v.args[1], C(-1 if '+' in name else 1)))
                elif self.track_epochs and base in ('__normal_iterator', '_Bit_iterator', '_Bit_const_iterator') and isarith(v):
                    nv = add(v, C(1 if '+' in name else -1))
                else:
                    nv = T('call', 'iter' + name, v)
                self.store(st, l, nv)
                if post:
                    return 'val', v
                return 'loc', l
            if name in ('operator+', 'operator-', 'operator+=', 'operator-='):
                k = self.ev(st, fr, a[1])
                if v.op == 'iter' and isarith(k):
                    nv = self.iadd(v, k if '+' in name else neg(k))
                    if name.endswith('='):
                        self.store(st, self.lv(st, fr, a[0]), nv)
                    return 'val', nv
            if name == 'operator[]':
                k = self.ev(st, fr, a[1])
                if v.op == 'iter':
                    return 'loc', T('idx', v.args[0], add(v.args[1], k))
            return NotImplemented
        if base == 'optional' or base.startswith('_Optional'):
            v = self.ev(st, fr, a[0])
            if name in ('operator bool', 'has_value'):
                if v.op == 'some':
                    return 'val', TRUE
                if v.op == 'nullopt':
                    return 'val', FALSE
                if v.op == 'ite':
                    return 'val', self.opt_has(v)
                return 'val', atom(T('has', v))
            if name in ('operator*', 'value', 'operator->'):
                self.event(st, fr, 'optderef', name, (v,), e)
                val = self.opt_get(v)
                if name == 'operator->':
                    if isinstance(val, Term) and val.op == 'ld':
                        return 'val', T('addr', val.args[0])
                    return 'val', T('addr', self.temp(st, val))
                return 'val', val
            if name == 'operator=':
                l = self.lv(st, fr, a[0])
                nv = self.ev(st, fr, a[1])
                if nv.op not in ('nullopt', 'some') and not (nv.op == 'ld' and self.tyof(a[1]).startswith('std::optional')) and not self.tyof(a[1]).startswith(('std::optional', 'std::nullopt')):
                    nv = T('some', nv)
                if self.tyof(a[1]).startswith('std::nullopt'):
                    nv = T('nullopt')
                self.write(st, fr, l, nv, None, e)
                return 'loc', l
            return NotImplemented
        if base == 'function':
            if name == 'operator()':
                f = self.ev(st, fr, a[0])
                if f.op == 'lam':
                    v = self.call_lam(st, fr, f, None, a[1:], e)
                    return 'val', v
                args = [self.ev(st, fr, x) for x in a[1:]]
                self.event(st, fr, 'call', 'indirect', [f] + args, e)
                return 'val', T('call', 'indirect', f, *args)
            if name == 'operator bool':
                return 'val', i2b(self.ev(st, fr, a[0]))
        if base in ('vector', 'deque', 'array', 'basic_string', 'initializer_list', 'list', 'queue', 'stack', '_Bvector_base', 'unordered_map', 'map', 'set', 'unordered_set', 'priority_queue', 'flat_hash_map', 'bitset', '_Map_base', '_Insert_base', '_Hashtable', 'parallel_flat_hash_map') or cls.startswith('phmap'):
            l = self.this_of(st, fr, e)
            assoc = base in ('unordered_map', 'map', 'set', 'unordered_set', '_Map_base', 'flat_hash_map', '_Hashtable') or cls.startswith('phmap')
            if name in ('size', 'length') and len(a) == 1:
                return 'val', self.size_of(st, l)
            if name == 'empty':
                return 'val', eq(self.size_of(st, l), C(0))
            if name in ('operator[]', 'at') and len(a) == 2:
                i = self.ev(st, fr, a[1])
                if isinstance(i, B):
                    i = b2i(i)
                loc = T('idx', l, i)
                tn = self.p.ty(e.get('t'))
                if tn:
                    self.loc_rec.setdefault(loc, tn)
                self.event(st, fr, 'index', name, (l, i), e, extra=base)
                return 'loc', loc
            if name in ('begin', 'cbegin') and len(a) == 1:
                return 'val', T('iter', l, C(0))
            if name in ('end', 'cend') and len(a) == 1:
                if assoc:
                    return 'val', T('iterend', self.load(st, l))
                return 'val', T('iter', l, self.size_of(st, l))
            if name in ('rbegin', 'crbegin'):
                return 'val', T('riter', l, add(self.size_of(st, l), C(-1)))
            if name in ('rend', 'crend'):
                return 'val', T('riter', l, C(-1))
            if name == 'back' and base != 'queue':
                loc = T('idx', l, add(self.size_of(st, l), C(-1)))
                self.event(st, fr, 'index', 'back', (l, loc.args[1]), e, extra=base)
                tn = self.p.ty(e.get('t'))
                if tn:
                    self.loc_rec.setdefault(loc, tn)
                v = self.load(st, l)
                if isinstance(v, Term) and v.op == 'app':
                    return 'val', v.args[1]
                return 'loc', loc
            if name == 'front':
                loc = T('idx', l, C(0))
                tn = self.p.ty(e.get('t'))
                if tn:
                    self.loc_rec.setdefault(loc, tn)
                return 'loc', loc
            if name in ('push_back', 'emplace_back', 'push', 'emplace', 'push_front', 'emplace_front') and not (assoc and name == 'emplace'):
                args = [self.ev(st, fr, x) for x in a[1:]]
                tn = None
                if len(args) == 1:
                    v = args[0]
                elif not args:
                    et = cls[cls.find('<') + 1:]
                    v = T('default')
                    tn = self.p.ty(e.get('t'))
                    if name == 'emplace_back' and self.p.flat(tn):
                        v = self.default_rec(st, fr, tn, zero=True)
                else:
                    v = T('pair', *args)
                    tn = self.p.ty(e.get('t'))
                    cand = self.ctor_value(st, fr, tn, args, e)
                    if cand is not None:
                        v = cand
                oldsz = self.size_of(st, l)
                if name.endswith('_front'):
                    self.insert_at(st, fr, l, C(0), v, e)
                    return 'val', T('ret', self.epoch(), 'insert')
                self.push(st, fr, l, v, e)
                if name == 'emplace_back':
                    loc = T('idx', l, oldsz)
                    tn = self.p.ty(e.get('t'))
                    if tn:
                        self.loc_rec.setdefault(loc, tn)
                    return 'loc', loc
                return 'val', T('void')
            if name == 'clear':
                self.event(st, fr, 'clear', l, (), e)
                self.store(st, l, S('') if base == 'basic_string' else T('map') if base in ('map', 'unordered_map') else T('vec'))
                return 'val', T('void')
            if name in ('resize', 'assign') and base in ('vector', 'deque') and len(a) in (2, 3):
                args = [self.ev(st, fr, x) for x in a[1:]]
                self.event(st, fr, 'call', cls.split('<')[0] + '::' + name, [l] + args, e)
                if name == 'assign' and len(args) == 2 and args[0].op not in ('iter', 'riter'):
                    self.store(st, l, T('filled', args[0], args[1]))
                elif name == 'resize':
                    old = self.load(st, l)
                    if isc(args[0]) and cval(args[0]) == 0:
                        self.store(st, l, T('vec'))
                    elif isinstance(old, Term) and old.op == 'vec' and not old.args and len(args) == 2:
                        self.store(st, l, T('filled', args[0], args[1]))
                    elif isinstance(old, Term) and old.op == 'vec' and not old.args:
                        self.store(st, l, T('filled', args[0], C(0)))
                    else:
                        self.store(st, l, T('resized', old, *args))
                else:
                    self.havoc(st, l)
                return 'val', T('void')
            if name == 'fill' and base == 'array':
                v = self.ev(st, fr, a[1])
                self.store(st, l, T('filled', S('array'), v))
                return 'val', T('void')
            if name in ('reserve', 'shrink_to_fit', 'rehash'):
                for x in a[1:]:
                    self.ev(st, fr, x)
                return 'val', T('void')
            if name == 'capacity':
                return 'val', T('call', 'capacity', self.load(st, l))
            if name == 'pop_back' or (name == 'pop' and base == 'stack'):
                v = self.load(st, l)
                self.event(st, fr, 'pop', l, (), e)
                if isinstance(v, Term) and v.op == 'vec' and v.args:
                    self.store(st, l, T('vec', *v.args[:-1]))
                elif isinstance(v, Term) and v.op == 'app':
                    self.store(st, l, v.args[0])
                else:
                    self.store(st, l, T('popped', v))
                return 'val', T('void')
            if name == 'operator=':
                v = self.ev(st, fr, a[1])
                self.write(st, fr, l, v, None, e)
                return 'loc', l
            if name == 'data' or name == 'c_str':
                return 'val', T('addr', T('idx', l, C(0))) if name == 'data' else T('call', 'c_str', self.load(st, l))
            if name in ('insert', 'emplace', 'try_emplace', 'insert_or_assign') and assoc:
                args = [self.ev(st, fr, x) for x in a[1:]]
                self.settle(st, fr, l, e)
                ev = self.event(st, fr, 'insert', l, args, e, extra=(name, base))
                self.havoc(st, l, 'insert')
                r = T('ret', self.epoch(), 'insert')
                if ev is not None:
                    ev.val = r
                return 'val', r
            if name in ('find', 'count', 'contains') and assoc:
                k = self.ev(st, fr, a[1])
                v = self.load(st, l)
                if name == 'find':
                    return 'val', T('find', T('addr', l), v, k)
                if name == 'count':
                    return 'val', ite(atom(T('contains', v, k)), C(1), C(0))
                return 'val', atom(T('contains', v, k))
            if name == 'erase':
                args = [self.ev(st, fr, x) for x in a[1:]]
                self.settle(st, fr, l, e)
                ev = self.event(st, fr, 'erase', l, args, e)
                self.havoc(st, l, 'erase')
                r = T('ret', self.epoch(), 'erase')
                if ev is not None:
                    ev.val = r
                return 'val', r
            if name == 'insert':
                args = [self.ev(st, fr, x) for x in a[1:]]
                it = plain_iter(args[0]) if len(args) == 2 else None
                if len(args) == 3 and base == 'vector' and plain_iter(args[0]) == T('iter', l, self.size_of(st, l)):
                    x, y = plain_iter(args[1]), plain_iter(args[2])
                    if x is not None and y is not None and x.args[0] == y.args[0]:
                        v = T('range', self.load(st, x.args[0]), x.args[1], y.args[1])
                        self.write(st, fr, l, T('vcat', self.load(st, l), v), None, e)
                        return 'val', T('void')
                if it is not None and it.args[0] == l:
                    self.insert_at(st, fr, l, it.args[1], args[1], e)
                    return 'val', T('iter', l, it.args[1])
                self.settle(st, fr, l, e)
                self.event(st, fr, 'insert', l, args, e)
                self.havoc(st, l, 'insert')
                return 'val', T('ret', self.epoch(), 'insert')
            if name in ('operator+=', 'append') and base == 'basic_string':
                v = self.ev(st, fr, a[1])
                old = self.load(st, l)
                self.store(st, l, T('strcat', old, v))
                return 'loc', l
            if name == 'swap' and len(a) == 2:
                l2 = self.lv(st, fr, a[1])
                v1, v2 = self.load(st, l), self.load(st, l2)
                self.event(st, fr, 'write', l, (v2,), e)
                self.event(st, fr, 'write', l2, (v1,), e)
                self.store(st, l, v2)
                self.store(st, l2, v1)
                return 'val', T('void')
            return NotImplemented
        if base == '_Bit_reference' or base == '_Bit_iterator':
            if name == 'operator bool':
                return 'val', i2b(self.ev(st, fr, a[0]))
            if name == 'operator=':
                l = self.lv(st, fr, a[0])
                v = self.ev(st, fr, a[1])
                self.write(st, fr, l, v, 'bool', e)
                return 'loc', l
        if base.startswith('basic_ostream') or base.startswith('basic_o'):
            if name == 'operator<<':
                s = self.lv(st, fr, a[0])
                v = self.ev(st, fr, a[1]) if a[1]['k'] != 'fn' else T('flush' if 'flush' in str(a[1]) else 'endl')
                self.event(st, fr, 'out', s, (v,), e)
                return 'loc', s
            if name == 'put' or name == 'write':
                s = self.lv(st, fr, a[0])
                v = self.ev(st, fr, a[1])
                self.event(st, fr, 'out', s, (v,), e)
                return 'loc', s
        return NotImplemented

    def ctor_value(self, st, fr, tn, args, e):
        """value of constructing repo record tn from args (for emplace_back)"""
        fl = self.p.flat(tn) if tn else None
        if not fl:
            return None
        sn = fl['rec']['sn']
        best = None
        for f in self.p.fns.values():
            d = f['decl']
            if d.get('ctor') and d.get('cls') == tn and len(f['p']) == len(args):
                best = f
        if best is None:
            return None
        loc = T('root', 'new', self.epoch(), sn)
        self.loc_rec[loc] = tn
        st.ep[loc] = self.epoch()
        self.invoke(st, fr, best, e, loc, None, argvals=[T('val', x) for x in args])
        return self.load(st, loc, tn)

    def opt_has(self, v):
        if v.op == 'some':
            return TRUE
        if v.op == 'nullopt':
            return FALSE
        if v.op == 'ite':
            return bite(v.args[0], self.opt_has(v.args[1]), self.opt_has(v.args[2]))
        return atom(T('has', v))

    def opt_get(self, v):
        if v.op == 'some':
            return v.args[0]
        if v.op == 'ite':
            a, b = v.args[1], v.args[2]
            if isinstance(a, Term) and a.op == 'nullopt':
                return self.opt_get(b)
            if isinstance(b, Term) and b.op == 'nullopt':
                return self.opt_get(a)
            return ite(v.args[0], self.opt_get(a), self.opt_get(b))
        if v.op == 'ld':
            return T('ld', T('fld', v.args[0], '*'), v.args[1])
        return T('optval', v)


ASSIGN = {'+=': '+', '-=': '-', '*=': '*', '/=': '/', '%=': '%', '&=': '&', '|=': '|', '^=': '^', '<<=': '<<', '>>=': '>>'}


def T_epoch(lid, I):
    return I.epoch()


def ite_loc(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return T('ite', c, a, b)


def eq_iter(a, b):
    if isinstance(a, Term) and isinstance(b, Term):
        if a.op == 'iter' and b.op == 'iter' and a.args[0] is b.args[0]:
            return eq(a.args[1], b.args[1])
        if a.op == 'riter' and b.op == 'riter' and a.args[0] is b.args[0]:
            return eq(a.args[1], b.args[1])
        if a.op == 'find' and b.op == 'iterend':
            return bnot(atom(T('contains', a.args[1], a.args[2])))
        if b.op == 'find' and a.op == 'iterend':
            return bnot(atom(T('contains', b.args[1], b.args[2])))
        if a.op in ('some', 'nullopt') and b.op in ('some', 'nullopt'):
            if a.op != b.op:
                return FALSE
            if a.op == 'nullopt':
                return TRUE
            return eq(a.args[0], b.args[0])
    return eq(a, b)
