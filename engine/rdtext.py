"""Input streams in recovered transfer functions: one abstract stream (text, position, end-of-file and fail flags) per evaluation."""
import re
from .terms import *
from .evalm import Unknown, plain
from .text import TextRun, Outside, textprims, deref
from .prog import Prog

STREAM = T('root', 'instream', 'instream')


def readprims(P):
    def prims(qn, d, e):
        n = d['n']
        cls = d.get('cls') or ''
        if qn == 'lorina::detail::getline' or qn == 'std::getline' and len(e['a']) == 2:
            def gl(I, st, fr, e, args):
                s = I.load(st, STREAM)
                l = I.lv(st, fr, e['a'][1])
                I.write(st, fr, l, T('in_line', s), None, e)
                I.write(st, fr, STREAM, T('in_next', s), None, e)
                return T('lref', STREAM)
            return gl
        if 'basic_istream' in cls and n in ('get', 'peek') and len(e['a']) == 1:
            def get(I, st, fr, e, args):
                s = I.load(st, STREAM)
                I.write(st, fr, STREAM, T('in_nextb' if n == 'get' else 'in_peeked', s), None, e)
                return T('in_byte', s)
            return get
        if 'basic_ios' in cls and n in ('operator bool', 'operator!', 'good', 'eof', 'fail', 'bad'):
            def ok(I, st, fr, e, args):
                v = I.load(st, STREAM)
                return {'operator bool': lambda: atom(T('in_ok', v)), 'operator!': lambda: bnot(atom(T('in_ok', v))), 'fail': lambda: bnot(atom(T('in_ok', v))),
                        'eof': lambda: atom(T('in_eof', v)), 'good': lambda: band(bnot(atom(T('in_eof', v))), atom(T('in_ok', v))), 'bad': lambda: FALSE}[n]()
            return ok
        if n == 'is_open' and 'fstream' in cls:
            return lambda I, st, fr, e, args: TRUE
        if n in ('close', 'open') and 'fstream' in cls:
            return lambda I, st, fr, e, args: T('void')
        if n == 'regex_search' and qn == 'std::regex_search' and len(e['a']) in (3, 4):
            g = e['a'][2].get('g')
            gd = P.globals.get(g)
            try:
                pat = gd[0]['d']['init']['a'][0]['v']
            except (TypeError, KeyError, IndexError):
                return None

            def rx(I, st, fr, e, args):
                v = I.ev(st, fr, e['a'][0])
                l = I.lv(st, fr, e['a'][1])
                I.write(st, fr, l, T('rxgroups', v, S(pat)), None, e)
                return atom(T('rxmatch', v, S(pat)))
            return rx
        if 'sub_match' in cls and n.startswith('operator basic_string') or 'sub_match' in cls and n == 'str':
            return lambda I, st, fr, e, args: deref(I, st, args[0])
        if n == 'word_exp_filename':
            return lambda I, st, fr, e, args: deref(I, st, args[0])
        if n == 'isFileExist':
            return lambda I, st, fr, e, args: TRUE
        if qn.endswith('detail::split'):
            return lambda I, st, fr, e, args: T('split', *[deref(I, st, a) for a in args])
        if 'match_results' in cls and n == 'operator[]':
            def elem(I, st, fr, e, args):
                l = I.lv(st, fr, e['a'][0])
                return T('lref', T('idx', l, I.ev(st, fr, e['a'][1])))
            return elem
        if n in ('isalpha', 'isdigit', 'isalnum', 'isspace', 'isupper', 'islower', 'isprint') and qn in (n, 'std::' + n):
            return lambda I, st, fr, e, args: T('ischar', S(n), args[0])
        if n in ('all_of', 'any_of', 'none_of') and qn == 'std::' + n and len(e['a']) == 3:
            def quant(I, st, fr, e, args):
                a, b = plain_iter(args[0]), plain_iter(args[1])
                if a is None or b is None or a.args[0] != b.args[0]:
                    return None
                x = T('root', 'elem', I.epoch(), 'elem')
                fv = args[2]
                if fv.op == 'lam':
                    r = I.call_lam(st, fr, fv, None, [], e, argvals=[T('val', x)])
                elif fv.op == 'fnref' and I.p.fns.get(fv.args[1]):
                    r = I.invoke(st, fr, I.p.fns[fv.args[1]], e, None, [], argvals=[T('val', x)])
                else:
                    return None
                if isinstance(r, Term) and r.op == 'lref':
                    r = I.load(st, r.args[0])
                r = r if isinstance(r, B) else i2b(r)
                return atom(T('quant', S(n), T('range', I.load(st, a.args[0]), a.args[1], b.args[1]), x, b2i(r)))
            return quant
        if n == 'resize' and cls.startswith('std::vector') and len(e['a']) == 2:
            def rs(I, st, fr, e, args):
                l = I.this_of(st, fr, e)
                dv = default_of(cls[cls.index('<') + 1:-1])
                if dv is None:
                    return None
                I.write(st, fr, l, T('resized', I.load(st, l), args[1], dv), None, e)
                return T('void')
            return rs
        if n == 'insert' and cls.startswith('std::set') and len(e['a']) == 2:
            def ins(I, st, fr, e, args):
                l = I.this_of(st, fr, e)
                old, v = I.load(st, l), deref(I, st, args[1])
                I.write(st, fr, l, T('with', old, v), None, e)
                return T('pair', T('void'), b2i(bnot(atom(T('contains', old, v)))))
            return ins
        if n == 'insert' and 'NameMap' in cls:
            return lambda I, st, fr, e, args: T('void')
        return None
    return prims


def default_of(tn):
    tn = tn.strip()
    if tn.startswith('std::basic_string'):
        return S('')
    if tn.startswith('std::pair<'):
        x = tn[10:-1]
        k = d = 0
        for k, c in enumerate(x):
            d += (c == '<') - (c == '>')
            if c == ',' and d == 0:
                break
        a, b = default_of(x[:k]), default_of(x[k + 1:])
        return None if a is None or b is None else T('pair', a, b)
    if tn in ('int', 'unsigned int', 'unsigned long', 'long', 'bool', 'char', 'unsigned char'):
        return C(0)
    return None


class ReadRun(TextRun):
    """text: the content of the input file; a stream state is (position, eof flag, fail flag)"""
    text = ''

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.bound = {}

    ATOMS = ('in_ok', 'in_eof', 'rxmatch', 'quant')

    def _at(self, a):
        if a.op in self.ATOMS:
            return bool(self.v(a))
        return super()._at(a)

    def _v(self, t):
        o = t.op
        if o.startswith('in_'):
            s = self.v(t.args[0])
            pos, eof, fail = s[1:]
            x = self.text
            if o == 'in_ok':
                return int(not fail)
            if o == 'in_eof':
                return int(bool(eof))
            bad = eof or fail
            if o in ('in_byte', 'in_nextb', 'in_peeked'):
                if o == 'in_byte':
                    return ord(x[pos]) if not bad and pos < len(x) else -1
                if bad or pos >= len(x):
                    return ('in', pos, 1, 1 if o == 'in_nextb' else fail)
                return ('in', pos + (o == 'in_nextb'), 0, 0)
            # getline: a stream at its end keeps reading nothing, the flag of the end is set by an empty last line
            j = pos
            while j < len(x) and x[j] not in '\n\r':
                j += 1
            if o == 'in_line':
                return x[pos:j]
            if j >= len(x):
                return ('in', j, 1 if j == pos else eof, 1 if bad else 0)
            j += 2 if x[j] == '\r' and x[j + 1:j + 2] == '\n' else 1
            return ('in', j, eof, 1 if bad else 0)
        if o in ('rxmatch', 'rxgroups'):
            v, p = self.v(t.args[0]), self.v(t.args[1])
            m = re.search(p.replace('\\\\', '\\'), v)
            if o == 'rxmatch':
                return int(bool(m))
            return [m.group(0)] + [g or '' for g in m.groups()] if m else []
        if o == 'atol':
            v = self.v(t.args[0])
            m = re.match(r'\s*([+-]?\d+)', v)
            return int(m.group(1)) if m else 0
        if o == 'ischar':
            k, c = self.v(t.args[0]), self.v(t.args[1])
            return int(c < 128 and getattr(chr(c), {'isprint': 'isprintable'}.get(k, k))()) if c >= 0 else 0
        if o == 'quant':
            l = self.v(t.args[1])
            r = []
            for x in (list(map(ord, l)) if isinstance(l, str) else l):
                self.bound[t.args[2]] = x
                self.memo = {}
                r.append(bool(self.v(t.args[3])))
            self.memo = {}
            q = self.v(t.args[0])
            return int(all(r) if q == 'all_of' else any(r) if q == 'any_of' else not any(r))
        if t in self.bound:
            return self.bound[t]
        if o == 'resized':
            l, n = list(self.v(t.args[0])), self.v(t.args[1])
            return l[:n] + [self.v(t.args[2])] * (n - len(l))
        if o == 'with':
            l = list(self.v(t.args[0]) or [])
            x = self.v(t.args[1])
            return l if x in l else l + [x]
        if o == 'range':
            l = self.v(t.args[0])
            return l[self.v(t.args[1]):self.v(t.args[2])]
        if o == 'call' and t.args[0] == 'c_str':
            return self.v(t.args[1])
        if o == 'call' and t.args[0] == 'ctor:tuple' and len(t.args) == 2:
            return self.v(t.args[1])
        if o == 'addr':
            return ('ref', t)
        if o == 'split':
            return [x for x in self.v(t.args[0]).split(self.v(t.args[1])) if x]
        return super()._v(t)
