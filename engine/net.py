"""Network-interface primitives: iteration over gates, fanins, inputs and outputs is
summarised as one abstract callback invocation per loop, whatever class (network or
view) provides it."""
from .terms import *

ITER = {
    # name -> (element op, is the element a signal?)
    'foreach_gate': ('gate', False), 'foreach_node': ('node', False), 'foreach_pi': ('pi', False), 'foreach_ci': ('ci', False),
    'foreach_ro': ('ro', False), 'foreach_po': ('po', True), 'foreach_co': ('co', True), 'foreach_ri': ('ri', True),
    'foreach_fanin': ('fanin', True), 'foreach_fanout': ('fanout', False), 'foreach_cell_fanin': ('cellfanin', False),
    'foreach_unit': ('unit', False), 'foreach_register': ('reg', False),
}


def net_prims(prog, names=None, skip=(), extra=None, fanin2=None):
    """'*' primitive hook for foreach_* methods"""
    names = names or set(ITER)

    def hook(qn, d, e):
        if extra:
            h = extra(qn, d, e)
            if h is not None:
                return h
        n = d['n']
        if n not in names or qn in skip or not e.get('m'):
            return None
        cls = d.get('cls') or ''
        if cls.startswith('std::') or cls.startswith('phmap'):
            return None
        op, sig = ITER[n]

        def h(I, st, fr, e, args):
            ntk = args[0]
            if ntk.op == 'addr':
                ntk = ntk.args[0]
            lamv = args[-1]
            if lamv.op == 'addr':
                lamv = I.load(st, lamv.args[0])
            key = (ntk,) + tuple(a for a in args[1:-1])
            if op == 'fanin' and fanin2 and fanin2(cls) and lamv.op == 'lam':
                # two-input nodes: exactly two callback invocations, the second only if
                # the first did not ask to stop
                rest = []
                for c in range(2):
                    v = I.call_lam(st, fr, lamv, None, None, e, argvals=[T('val', T(op, *key, C(c))), T('val', C(c))])
                    if c == 0 and isinstance(v, B) and v is not TRUE:
                        o = st.copy()
                        o.pc = band(o.pc, bnot(v))
                        st.pc = band(st.pc, v)
                        rest.append(o)
                    elif c == 0 and isinstance(v, Term) and v.op not in ('void', 'noret', 'fresh') and isc(v) and cval(v) == 0:
                        break
                for o in rest:
                    I.assign_state(st, I.merge(st, o))
                return T('void')

            def elems(iv):
                v = T(op, *key, iv)
                return [T('val', v), T('val', iv)]
            s2 = I.run_callback_loop(st, fr, e, lamv, elems, n, T('net', ntk))
            I.assign_state(st, s2)
            return T('void')
        return h
    return {'*': hook}
