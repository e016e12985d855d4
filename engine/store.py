"""Finite store model: resolves the initial-state loads of a value graph against a
small abstract store (python values), so a function's whole transfer function can
be evaluated on every element of a finite abstract domain."""
from .terms import *
from .evalm import Unknown


class Ptr:
    def __init__(self, obj):
        self.obj = obj


def mem_leaf(roots, deref=None, fallback=None):
    """roots: {root term: value}.  Values: ('rec',n,{..}), list, int, Ptr"""
    def make(evget):
        def resolve(loc):
            if loc in roots:
                return roots[loc]
            if loc.op == 'fld':
                b = resolve(loc.args[0])
                if b is NotImplemented:
                    return b
                if isinstance(b, Ptr):
                    b = b.obj
                if isinstance(b, tuple) and b[0] == 'rec' and loc.args[1] in b[2]:
                    return b[2][loc.args[1]]
                return NotImplemented
            if loc.op == 'idx':
                b = resolve(loc.args[0])
                if b is NotImplemented:
                    return b
                i = evget().v(loc.args[1])
                if isinstance(b, list):
                    if not isinstance(i, int) or not 0 <= i < len(b):
                        raise Unknown(f'index {i} outside the model store ({show(loc)[:120]})')
                    return b[i]
                if isinstance(b, dict):
                    return b.get(i, NotImplemented)
                return NotImplemented
            if loc.op == 'deref':
                try:
                    p = evget().v(loc.args[0])
                except Unknown:
                    return NotImplemented
                if isinstance(p, Ptr):
                    return p.obj
                return NotImplemented
            if loc.op == 'ite':
                return resolve(loc.args[1] if evget().b(loc.args[0]) else loc.args[2])
            return NotImplemented

        def leaf(t):
            x = t
            if x.op == 'bitf':
                x = x.args[0]
            if x.op == 'ld' and (len(x.args) < 2 or x.args[1] == 0):     # the initial content only
                r = resolve(x.args[0])
                if r is not NotImplemented:
                    return r
            if x.op == 'size' and not isinstance(x.args[0], B):
                v = evget().v(x.args[0])
                if isinstance(v, (list, str, dict)):
                    return len(v)
            if fallback:
                return fallback(t, evget())
            return NotImplemented
        return leaf
    return make


def evaluator(Eval, roots, hooks=None, choice=None, fallback=None):
    box = []
    leaf = mem_leaf(roots, fallback=fallback)(lambda: box[0])
    e = Eval(leaf, hooks, choice)
    box.append(e)
    return e
