"""Evaluates a stream of (name, description, thunk) cases on all cores; the outcome does not depend on the number of cores."""
import multiprocessing as mp
import os
from .evalm import Unknown

MAXUND = 6      # undecided cases per construct and core before the search for a violation stops
NONTERM = ('recursion does not end', 'does not end in the model')


def _part(cases, k, n):
    ok, bad, und, nund = {}, {}, {}, {}

    def undecided(fn, i, what, why):
        nund[fn] = nund.get(fn, 0) + 1
        und.setdefault(fn, (i, f'{what[:160]}: {why}'))
    for i, (fn, what, f) in enumerate(cases()):
        if i % n != k or fn in bad or nund.get(fn, 0) >= MAXUND:
            continue
        try:
            r = f()
        except Unknown as u:
            if any(x in str(u) for x in NONTERM):
                r = 'the operation does not end'
            elif str(u).startswith('the assertion '):
                r = str(u)
            else:
                undecided(fn, i, what, u)
                continue
        except RecursionError:
            undecided(fn, i, what, 'recursion too deep for the model')
            continue
        except Exception as x:      # a construct the model has no value for
            undecided(fn, i, what, f'{type(x).__name__}: {x}')
            continue
        if r:
            bad[fn] = i, f'{what}: {r}'
        else:
            ok[fn] = ok.get(fn, 0) + 1
    return ok, bad, und


_job = None


def _run(a):
    return _part(_job, *a)


def sweep(cases, cores=None):
    """cases: function returning a fresh iterator of (name, description, thunk)"""
    global _job
    n = cores or min(8, os.cpu_count() or 1)
    _job = cases
    if n == 1:
        parts = [_part(cases, 0, 1)]
    else:
        with mp.get_context('fork').Pool(n) as p:
            parts = p.map(_run, [(k, n) for k in range(n)])
    ok, bad, und = {}, {}, {}
    for o, b, u in parts:
        for k, v in o.items():
            ok[k] = ok.get(k, 0) + v
        for d, s in ((bad, b), (und, u)):
            for k, v in s.items():
                if k not in d or v < d[k]:
                    d[k] = v
    return ok, {k: v[1] for k, v in bad.items()}, {k: v[1] for k, v in und.items()}
