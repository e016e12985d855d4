"""Which properties rest on which others.

A rule module decides its property with the code it calls into represented by the contract another
property states for it (the gate constructors, the structural hash, substitution, the topological
order ...).  If such a contract is broken, the property that uses it is broken too: the argument for
it has lost a premise.  LEMMAS lists, per property, the rule modules whose obligations it uses as
premises and the constructs (violation keys) in question; the driver decides those premises on the
same tree and reports a failing one under the property that needs it."""
import re

AIG_STORE = r'aig_network::(create_and|take_out_node|replace_in_node|replace_in_outputs|substitute_node|decr_value|incr_value|create_po|create_pi)$'
FOREACH = r'klut_network::(foreach_\w+|is_\w+|node_function|num_\w+|fanin_size|size)$'
AIG_AND = r'create_and$'

LEMMAS = {
    'C03': [('C02', r'.')],
    'C10': [('C01', AIG_AND), ('C29', r'.')],
    'C07': [('C06', FOREACH)],
    'C11': [('C06', r'create_(pi|po|node)$|_create_node$'), ('C29', r'.'), ('C26', r'mapping_view'), ('C05', r'truth_table_cache')],
    'C12': [('C06', FOREACH), ('C05', r'truth_table_cache'), ('C01', r'create_(and|or|nary_and|nary_or)$')],
    'C13': [('C29', r'.')],
    'C15': [('C29', r'.')],
    'C16': [('C06', FOREACH), ('C29', r'.')],
    'C14': [('C01', AIG_AND)],
    'C22': [('C01', AIG_AND), ('C02', r'.'), ('C03', AIG_STORE), ('C42', r'.'), ('C25', r'.'), ('C29', r'aig_network')],
    'C23': [('C01', r'create_(and|or|xor)$'), ('C02', r'.'), ('C03', AIG_STORE), ('C43', r'.'), ('C29', r'aig_network')],
    'C26': [('C25', r'.'), ('C29', r'aig_network')],
    'C34': [('C01', AIG_AND), ('C30', r'.'), ('C29', r'aig_network')],
    'C42': [('C01', r'create_(and|or|xor)$')],
    'C43': [('C01', r'create_(and|or|xor)$')],
}


def premises(pid):
    return [(m, re.compile(k)) for m, k in LEMMAS.get(pid, [])]
