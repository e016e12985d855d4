"""Clause-set semantics: literals are integers 2*var+sign whatever their C++ type."""
import itertools
from .terms import *
from .evalm import Eval, Unknown
from .store import evaluator

LITNOT = ('bill::lit_type::operator~', 'bill::operator~')


def lit_hooks(hooks=None):
    h = dict(hooks or {})
    prev = h.get('call')

    def call(ev, t):
        f = t.args[0]
        if f in LITNOT or f.endswith('lit_type::operator~'):
            return ev.i(t.args[1]) ^ 1
        if f.startswith('ctor:') and f.endswith('lit_type') and len(t.args) >= 3:
            v = ev.i(t.args[1])
            p = t.args[2]
            if p.op == 'enum':
                return 2 * v + (1 if 'neg' in str(p.args[0]) else 0)
            pv = ev.v(p)
            return 2 * v + int(bool(pv))
        if f.endswith('var_type') and len(t.args) == 2:
            return ev.i(t.args[1])
        if f.endswith('operator^') and len(t.args) == 3 and 'lit_type' in f:
            return ev.i(t.args[1]) ^ int(bool(ev.v(t.args[2])))
        if f == 'pabc::Abc_LitNot':
            return ev.i(t.args[1]) ^ 1
        if prev:
            return prev(ev, t)
        return NotImplemented
    h['call'] = call
    return h


def clause_events(events, fnterms):
    """calls of the clause callback: an indirect / lambda call taking one literal list"""
    out = []
    for e in events:
        if e.kind == 'call' and len(e.args) >= 2 and e.args[0] in fnterms:
            out.append(e)
    return out


def sat_assignments(clauses, nv):
    res = set()
    for a in itertools.product((0, 1), repeat=nv):
        ok = True
        for c in clauses:
            if not any((a[l >> 1] ^ (l & 1)) for l in c):
                ok = False
                break
        if ok:
            res.add(a)
    return res
