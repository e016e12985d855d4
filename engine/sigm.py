"""Boolean-function model of network signals: every signal-valued term of a value
graph is interpreted as the Boolean function (truth table over the leaves) it
denotes, in a world where node ids are hash-consed by function."""
import itertools
from .terms import *
from .evalm import Eval, Unknown


class World:
    """k variables; ids: 0 = constant false, leaves get the ids the model assigns, gates next."""

    def __init__(self, k, norm=True):
        self.k = k
        self.n = 1 << k
        self.mask = (1 << self.n) - 1
        self.norm = norm            # complemented edges available (aig) / not (klut)
        self.ids = {}
        self.fun = {}
        self.set(0, 0)
        self.next = 100

    def var(self, i):
        r = 0
        for m in range(self.n):
            if (m >> i) & 1:
                r |= 1 << m
        return r

    def set(self, i, f):
        self.fun[i] = f
        self.ids.setdefault(f, i)

    def neg(self, f):
        return f ^ self.mask

    def sig(self, f):
        """(index, complement) of function f"""
        if self.norm:
            c = 0
            if f not in self.ids:
                if self.neg(f) in self.ids:
                    c = 1
                elif f & 1:
                    c = 1
            g = self.neg(f) if c else f
        else:
            c, g = 0, f
        if g not in self.ids:
            self.set(self.next, g)
            self.next += 1
        return self.ids[g], c

    def func(self, index, c):
        if index not in self.fun:
            raise Unknown(f'node {index} of unknown function')
        f = self.fun[index]
        return self.neg(f) if c else f


def sigval(v, idx='index', cpl='complement'):
    """(index, complement) of an evaluated signal record / literal"""
    if isinstance(v, tuple) and v and v[0] == 'rec':
        d = v[2]
        c = d.get('complement', d.get('weight'))
        return d['index'], int(c)
    raise Unknown(f'not a signal: {v!r}')


def mkrec(tn, w, f, fld='complement'):
    i, c = w.sig(f)
    return ('rec', tn, {fld: c, 'index': i})


GATE = {
    'and': lambda w, a, b: a & b,
    'nand': lambda w, a, b: w.neg(a & b),
    'or': lambda w, a, b: a | b,
    'nor': lambda w, a, b: w.neg(a | b),
    'lt': lambda w, a, b: w.neg(a) & b,
    'le': lambda w, a, b: w.neg(a) | b,
    'xor': lambda w, a, b: a ^ b,
    'xnor': lambda w, a, b: w.neg(a ^ b),
    'ite': lambda w, c, t, e: (c & t) | (w.neg(c) & e),
    'maj': lambda w, a, b, c: (a & b) | (a & c) | (b & c),
    'xor3': lambda w, a, b, c: a ^ b ^ c,
    'not': lambda w, a: w.neg(a),
    'buf': lambda w, a: a,
}
ARITY = dict(ite=3, maj=3, xor3=3, buf=1)
ARITY['not'] = 1


def nary(op):
    def f(w, *xs):
        r = w.mask if op == 'and' else 0
        for x in xs:
            r = (r & x) if op == 'and' else (r | x) if op == 'or' else (r ^ x)
        return r
    return f


NARY = {'nary_and': nary('and'), 'nary_or': nary('or'), 'nary_xor': nary('xor')}


def argvals_pairs(k):
    """operand index patterns: every order type of the operands and the constant"""
    return itertools.product(range(0, k + 1), repeat=k)
