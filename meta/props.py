"""The property table: properties.jsonl and MANIFEST.json are generated from it."""
VG = 'static: gated value-graph (GVN / gated SSA) abstract interpretation of the resolved clang AST; '
PROPS = []
NA = {}


def P(**k):
    PROPS.append(k)


P(id='C01', title='AND-inverter gate constructors compute the named Boolean function',
  statement='Every gate constructor of the AND-inverter graph (and, nand, or, nor, xor, xnor, lt, le, ite, maj, not, buf, constants and the n-ary and/or/xor) returns a signal whose Boolean function over the operand signals is exactly the function it is named after. This holds for every operand, every operand order and every combination of complemented, constant, equal or opposite operands, and whether or not a structurally equal gate already exists.',
  over=['inputs', 'histories'], quant='all operand signals (order relation, polarity, constants, coincidences) and all prior network contents (structural-hash hit or miss)',
  why='The existing tests build a handful of gates with distinct positive inputs; the trivial cases, operand swaps and polarity combinations are a product space they do not enumerate.',
  files=['include/database/network/aig_network.hpp'],
  mech=[('create_* family', 'aig_network::create_and and the derived constructors'), ('trivial-case folding and operand ordering', 'aig_network::create_and')],
  technique=VG + 'transfer function of each constructor evaluated over a complete finite domain of operand order x polarity x coincidence x hash-hit models',
  note='Each constructor is reduced to a value graph over its operands; the graph is evaluated on every element of a finite abstraction (order types, polarities, coincidences, hash hit or miss), with callees replaced by their own specification (assume-guarantee). Trusted: clang front end, the extractor, the interpreter, the hash primitive (C02).')

P(id='C05', title='k-LUT gate constructors and the function cache keep the named function',
  statement='Every gate constructor of the k-LUT network creates a node whose stored local function, read back over its fan-ins in order, is exactly the Boolean function the constructor is named after, including degenerate constant or fan-in-free nodes. Storing a function in the function cache and reading it back by the returned literal yields the same function, complement included.',
  over=['inputs', 'histories'], quant='all operands, all functions and all prior cache contents',
  why='Tests instantiate only some gate kinds and check node counts; the literal table shared by all networks and the complement handling of the cache hold or fail for every function.',
  files=['include/database/network/klut_network.hpp', 'include/utils/truth_table_cache.hpp'],
  mech=[('gate literals preloaded in the cache', 'klut_network::_init'), ('normalisation by the value at minterm 0', 'truth_table_cache::insert / operator[]')],
  technique=VG + 'node-function literals of each constructor matched against the recovered cache preload table, evaluated over all truth tables of the arity',
  note='The preload table is recovered from the constructor of the network, each gate literal is decoded through the recovered cache read-back and compared with the named function on all input vectors.')

P(id='C06', title='k-LUT network queries, traversals, creation and substitution are exact',
  statement='Every query of the k-LUT network (kind of a node, index and position lookups, counters, stored function) returns what the indexing scheme defines for the element named, whatever application values and visited marks the user has set, and modifies nothing; every foreach traversal visits exactly the elements it names, once, in order, with indices from zero, and stops when the callback returns false; a setter writes only its own field. Creating inputs, outputs, registers, LUTs and clones adds exactly the element described, with its fan-ins in order, its function and its fan-out counts, reports it to the observers and changes nothing else; substituting a node redirects every reference to it. Computing a gate from values of its fan-ins gives its stored function at those values, the first fan-in being the least significant variable.',
  over=['inputs', 'histories'], quant='all networks (inputs, registers, LUTs of any arity), arguments, values set by users, and cache contents',
  why='Tests create a handful of two-input gates with symmetric functions; registers, wide indices, values set by users, clones between networks and substitution with several references are not compared.',
  files=['include/database/network/klut_network.hpp', 'include/database/network/details/foreach.hpp', 'include/utils/truth_table_cache.hpp'],
  mech=[('queries and setters', 'klut_network accessors'), ('traversals', 'klut_network::foreach_*'), ('creation and cloning', 'create_pi, create_po, create_ro, create_ri, _create_node, create_node, clone_node'), ('substitution', 'substitute_node'), ('simulation of a gate', 'compute')],
  technique=VG + 'value graphs of the accessors and callback events of the traversals evaluated on a family of finite abstract networks; composed transfer functions of the creating members, substitution and compute on the same abstract stores',
  note='Finite family of abstract networks with registers and one with several hundred inputs, LUTs and outputs; substituting a node by itself is outside the claim.', level='bounded')

P(id='C07', title='CNF encodings are equivalent to the network they encode',
  statement='The clauses emitted for each gate kind are satisfied by exactly the assignments in which the gate output equals the named function of its inputs, for every polarity of the literals involved. The clauses emitted for a network constrain every gate by its own function over its own fan-in literals (complemented edges included), fix the constant node, give distinct variables to distinct nodes, and return one literal per output with the output polarity.',
  over=['inputs', 'programs'], quant='all gate kinds, literal polarities and networks',
  why='A wrong clause shows only for particular polarity combinations and only as a wrong SAT verdict; no test compares models of the CNF with the network.',
  files=['include/operations/algorithms/cnf.hpp'],
  mech=[('gate encodings', 'detail::on_and, on_or, on_xor, on_maj, on_ite, on_xor3, on_function'), ('network traversal and literal assignment', 'detail::generate_cnf_impl::run, node_literals, cnf_view')],
  technique=VG + 'clause sets emitted as callback events, recovered as symbolic literal lists and compared with the gate relation over all assignments and polarities',
  note='Complete for the finite gate encodings; for network traversal the per-gate callback is summarised once for an arbitrary gate. SAT solver itself is trusted.')

P(id='C17', title='Shell commands never act on a missing design',
  statement='A shell command that needs a stored network accesses it only when the store holds one; otherwise it prints a message and leaves every store unchanged. Reading a design replaces everything the previous design left: AIG slots, LUT network and port names are cleared and the fixed number of slots (five history slots plus the current design) is provided.',
  over=['histories'], quant='all sequences of shell commands and all option values',
  why='The test suite does not drive the shell; every command must be safe in every state of the stores, including an empty one.',
  files=['cli/command', 'libs/alice/include/alice/store.hpp'],
  mech=[('emptiness guard of each command', 'cli/command/*.hpp execute()'), ('reset when reading', 'read_aiger_command::execute')],
  technique=VG + 'typestate of the element stores: the path condition of each element access implies non-emptiness (BDD), per command',
  note='All paths of all 13 commands; helper functions of the command layer are followed.')

P(id='C18', title='Numeric options are accepted exactly inside their documented ranges',
  statement='For rewrite, refactor, lut_opt, map_fpga, write_dot and write_primary the engine runs if and only if every numeric option lies inside the documented range (priority cuts 6-20, cut size 2-4 for rewrite and 2-6 for mapping, cone input size 2-12, cone size up to 20, area iterations 1-2 and 1-3, type 0/1). Outside it the command prints a warning and changes no stored network.',
  over=['inputs'], quant='all combinations of option values',
  why='Boundary values of option combinations are not tested; an off-by-one drives the engines beyond their fixed capacities.',
  files=['cli/command/rewrite.hpp', 'cli/command/refactor.hpp', 'cli/command/lut_opt.hpp', 'cli/command/map_fpga.hpp', 'cli/command/io/write_dot.hpp', 'cli/command/io/write_verilog.hpp'],
  mech=[('range checks', 'execute() of each command')],
  technique=VG + 'path condition of the engine call evaluated on all boundary combinations of the option values',
  note='The guards are linear in the options; the boundary values and their pairwise combinations decide them (thorough: full ranges).')

P(id='C19', title='Options reach the engine, which acts on the current design and is stored',
  statement='Every option of rewrite, refactor, lut_opt and map_fpga arrives unchanged in the engine parameter it names and no engine class overwrites a parameter the caller set. The engine runs on the current design (or on the history for choice mapping) and its result becomes the stored network on every path on which it ran. The writers receive the current network and the given file name.',
  over=['inputs', 'histories'], quant='all option values and all command paths',
  why='A dropped or swapped option leaves every result functionally correct, so no functional test notices it.',
  files=['cli/command', 'include/operations/algorithms/klut_mapping.hpp', 'include/operations/optimization/rewrite.hpp', 'include/operations/optimization/refactor.hpp'],
  mech=[('parameter records', 'rewrite_params, refactor_params, klut_mapping_params'), ('result storing', 'execute() of each command')],
  technique=VG + 'value flow from option member to engine parameter field, effect analysis of stores into parameter records',
  note='Values are followed through copies, helpers and conditional assignments; the writes into the parameter records of the engine classes are enumerated.')

P(id='C20', title='Accepted option values fit the fixed capacities of the engines',
  statement='The largest value a command accepts for the number of priority cuts, the cut size, the cone input size and the iteration counts does not exceed the fixed capacity of the engine data structure it parametrises (cut sets, cut leaves, replacement database inputs, truth-table inputs), and the smallest accepted value is one the engine can work with.',
  over=['inputs'], quant='all accepted option values against all instantiated capacities',
  why='Exceeding a fixed array is silent until an unlucky circuit fills it.',
  files=['cli/command', 'include/database/cut/cut_enumeration.hpp', 'include/database/cut/cut_set.hpp'],
  mech=[('capacity constants', 'network_cuts::max_cut_num, max_cut_size'), ('range checks', 'execute() of each command')],
  technique=VG + 'accepted interval from path conditions compared with the capacity constants of the instantiated templates',
  note='Capacity constants are read from the instantiated classes of the current source.')

P(id='C21', title='The history keeps isolated snapshots in its five slots',
  statement='history --add stores a copy of the current design in the next free slot (at most five) and --replace overwrites exactly the addressed existing slot; a snapshot shares no storage with the current design, so later passes cannot change it. Requests outside the range are reported and change nothing, --clear empties the slots, --size reports the number of stored snapshots, the current design is never overwritten, and no option leaks into the next invocation.',
  over=['histories'], quant='all sequences of history and optimisation commands',
  why='Snapshots that alias the current design look right until a later in-place pass changes them; tests do not drive the shell.',
  files=['cli/command/history.hpp', 'cli/command/map_fpga.hpp', 'include/database/network/details/storage.hpp'],
  mech=[('slot selection and counting', 'history_command::execute'), ('value semantics of the storage', 'storage / aig_storage')],
  technique=VG + 'transfer function of the command evaluated over all (size, flags, index) states; ownership analysis of the stored element',
  note='432 abstract states; loops are evaluated by iterating their one-iteration transfer function in the model.')

P(id='C02', title='The structural hash keeps exactly the gates inserted and finds them',
  statement='A lookup in the structural hash returns the gate registered with the given fan-ins, polarities included, or reports its absence. Inserting and erasing add and remove exactly the given gate, also when a structural twin or a colliding gate shares its bucket, growing the table loses nothing, the entry counter (reported as the number of gates) follows, and no operation touches the nodes themselves.',
  over=['histories'], quant='all table contents, bucket collisions, twins and table sizes',
  why='With 10000 buckets the tests never produce a collision or a rehash; chain surgery is only wrong when several entries share a bucket.',
  files=['include/database/network/details/storage.hpp'],
  mech=[('chained table', 'storage::hash_find, hash_insert, hash_erase, hash_reserve'), ('key', 'storage::abc_hash')],
  technique=VG + 'transfer functions of the table operations applied to every small chained table (abstract store with memory epochs) and compared with the set semantics',
  note='Small-scope: tables of 1 to 7 buckets with up to 3 entries including twins, key function taken from the source.', level='bounded')

P(id='C03', title='Fan-out counts, dead gates and in-place substitution stay consistent',
  statement='After creating inputs, registers, outputs and gates, replacing a fan-in or an output, taking out a node or substituting a node by a signal outside its fan-out cone: every live gate is in the structural hash once under its current fan-ins and has only live fan-ins, every fan-out count equals the number of references from live gates and outputs, and a gate that lost its last reference is dead. A substitution terminates and every output then computes its former function with the replaced node standing for the new signal. Observers are told exactly the gates added, modified and deleted.',
  over=['histories'], quant='all networks, including those whose gate indices are not topological after earlier substitutions, and all operands',
  why='Cascading replacements need particular structures several levels deep; the tests substitute in a few fixed circuits and never compare all counts and functions afterwards.',
  files=['include/database/network/aig_network.hpp'],
  mech=[('reference counts and dead flag', 'create_and, create_po, create_ri, take_out_node'), ('in-place substitution with a pending list', 'substitute_node, replace_in_node, replace_in_outputs'), ('observers', 'network_events on_add, on_modified, on_delete')],
  technique=VG + 'guarded transfer functions of the network operations applied to every abstract network of a finite family (memory epochs, callees by their own transfer function), checked against the structural invariant and the Boolean functions of the outputs',
  note='Small-scope: all strashed networks of 2 inputs and up to 2 gates, a fixed sample of 3-gate networks (all of them in the thorough tier), plus seeded random networks of up to 6 gates in and out of index order, with registers and dead gates. substitute_nodes (several at once, unused by the shell) and substituting a node by its own complement are outside the claim.', level='bounded')

P(id='C04', title='AIG queries and traversals agree with the indexing scheme and change nothing',
  statement='Every query of the AND-inverter graph (kind of a node, index and position lookups, fan-ins, outputs, register inputs and outputs, counters) returns what the indexing scheme defines for the element named and modifies no location. Every foreach traversal visits exactly the elements it names, once, in index order with indices counting from zero, and stops when the callback returns false. Every setter (values, visited marks, polarity, children) writes only its own field of its own node.',
  over=['inputs', 'programs'], quant='all networks (inputs, registers, dead gates) and arguments',
  why='Tests use small combinational networks; mixes of registers and inputs, dead gates and early stops are hardly sampled.',
  files=['include/database/network/aig_network.hpp', 'include/database/network/details/foreach.hpp'],
  mech=[('queries', 'aig_network accessors'), ('traversals', 'aig_network::foreach_*'), ('setters', 'aig_network::set_*')],
  technique=VG + 'value graphs of the accessors and callback events of the traversals evaluated on a family of finite abstract networks; effect analysis',
  note='Every accessor is summarised once and evaluated on all model networks and arguments; loops through one-iteration transfer functions.', level='bounded')

P(id='C10', title='Removing dangling nodes keeps every output function and drops exactly dead logic',
  statement='cleanup_dangling on a combinational AND-inverter graph returns a network with the same primary inputs and outputs in the same order, each output computing the same Boolean function as before, and containing exactly one gate per gate that some output depends on and no dangling gate. The optional removals drop exactly the inputs without fan-out and the outputs driven by no gate. The source network is not changed.',
  over=['inputs'], quant='all combinational AND-inverter graphs, dangling logic, constant and complemented outputs, shared outputs, and flag combinations',
  why='The tests clean up a few small circuits and compare sizes; polarity, ordering and sharing of outputs over arbitrary graphs are not compared.',
  files=['include/operations/algorithms/cleanup.hpp', 'include/database/views/topo_view.hpp'],
  mech=[('topological copy through an old-to-new map', 'cleanup_dangling'), ('topological order', 'topo_view')],
  technique=VG + 'the recovered copy loop is applied to a finite family of abstract source networks with element-wise traversal contracts, and the abstract result is compared with the source',
  note='Queries and constructors of the source and destination are replaced by the contracts decided by C01 to C05. Networks with registers are outside the claim: the copy keeps only combinational designs.', level='bounded')

P(id='C11', title='Mapping to lookup tables and choice networks copies the mapped cones faithfully',
  statement='Turning a mapped AND-inverter graph (plain mapping view or choice network mapping) into a k-LUT network yields one table per mapped cell whose fan-ins are the cell leaves in order and whose function is the cell function, keeps the primary inputs and outputs in order, and resolves constants, complemented outputs and outputs driven by inputs, so that every output computes its former function.',
  over=['inputs'], quant='all combinational networks and all valid mappings of them',
  why='The tests map sample circuits and count tables; complemented, constant and input-driven outputs and shared cells are not compared by function.',
  files=['include/operations/algorithms/network_to_klut.hpp'],
  mech=[('conversion of mapped cells', 'network_to_klut'), ('conversion of the chosen cuts', 'choice_to_klut')],
  technique=VG + 'the recovered conversion is applied to finite abstract networks with abstract mappings; the resulting abstract k-LUT network is compared with the source by function',
  note='The cell functions handed to the conversion are those of the cones, as the mapper guarantees them; node indices of leaves precede those of their roots.', level='bounded')

P(id='C12', title='Decomposing lookup tables into AND-inverter graphs keeps every function',
  statement='Converting a k-LUT network, or a graph with a cover of lookup tables (the form in which the mapped design is checked when debugging), to an AND-inverter graph keeps the primary inputs and outputs in order, and every output computes the function it had, for every table (constants, single literals, exclusive-ors, majority, tables ignoring a fan-in), every sharing of tables between outputs and every complemented output.',
  over=['inputs'], quant='all combinational k-LUT networks and covers up to the table sizes of the mapper',
  why='Each table kind follows its own path (named gate, Shannon or cover expansion); the tests convert a few circuits with common tables.',
  files=['include/operations/algorithms/detail/convert_to_aig.hpp'],
  mech=[('conversion loops', 'convert_klut_to_aig and convert_mapped_graph_to_aig'), ('cube covers of the tables', 'kitty::isop')],
  technique=VG + 'the recovered conversions are applied to finite abstract k-LUT networks over a family of tables and to covered graphs; the abstract result is compared with the source by function',
  note='kitty primitives (cofactor tests, cube covers) are replaced by their mathematical contracts.', level='bounded')

P(id='C13', title='Written AIGER files describe exactly the network',
  statement='For every combinational AND-inverter graph whose gates are indexed after their fan-ins, the binary AIGER text written by write_aiger (and so by the shell command) is well formed under the AIGER format (header counts, output literals, delta-coded gates with the larger fan-in first) and the design it describes has the same inputs and outputs in the same order computing the same functions; the variable-length code of a delta decodes to that delta.',
  over=['inputs'], quant='all combinational networks and gate counts (deltas beyond one byte included)',
  why='Deltas above 127 need large graphs; tests never read back a written file and compare it by function.',
  files=['include/operations/io/detail/write_aiger.hpp', 'include/operations/io/writer.hpp'],
  mech=[('file writer', 'write_aiger'), ('delta code', 'encode')],
  technique=VG + 'the output events of the writer form an abstract text per abstract network; an independent AIGER reader decides that it describes the same network',
  note='126 abstract networks of up to 150 gates and the encoder over a set of deltas up to 2^28; the format reader is written from the AIGER specification, not from the code.', level='bounded')

P(id='C14', title='Reading a binary AIGER file builds exactly the described design',
  statement='For every well-formed binary AIGER file the reader builds a design with the inputs, register outputs, outputs and register inputs the header announces, in file order, each output and register input computing the function the file defines, and stores every port name of the symbol table at the position it names (unnamed ports get distinct names when some port is named, none otherwise). A file without a binary AIGER header changes neither the design nor the names.',
  over=['inputs'], quant='all well-formed binary AIGER files: multi-byte deltas, constant and shared fan-ins, redundant gates, outputs sharing a signal, partial symbol tables, comments, CRLF symbol lines, registers',
  why='Tests read a few benchmark files and look at sizes; files with redundant gates, shared outputs or partial symbol tables are not compared.',
  files=['include/operations/io/detail/aiger_reader.hpp', 'include/operations/io/reader.hpp', 'libs/lorina/lorina/aiger.hpp'],
  mech=[('parser of the format', 'lorina::read_aiger'), ('construction callbacks and creation of the outputs at the end of the reader', 'aiger_reader'), ('port names', 'aig_reader::set_name, complete_port_names')],
  technique=VG + 'the recovered parser, with virtual callbacks resolved and the destructor that creates the outputs, is applied to abstract file contents; the abstract network is compared with the functions the format defines',
  note='113 abstract files of up to 150 gates and 5 malformed headers. std::regex, getline and streams are replaced by their contracts. Truncated files and literals outside the header range are outside the claim, as are reset values of registers.', level='bounded')

P(id='C15', title='Written Verilog netlists describe exactly the network',
  statement='For every combinational AND-inverter graph and every set of distinct port names, the structural Verilog written by write_verilog is well formed (each used wire is declared once and driven once, no internal wire carries the name of a port), its ports are the inputs and outputs in order under the given names, and each output computes the function of the network.',
  over=['inputs'], quant='all combinational networks and port names, including names that look like internal ones',
  why='Name clashes with user ports, complemented and constant outputs and outputs wired to inputs are not sampled by tests, which only check that a file appears.',
  files=['include/operations/io/detail/write_verilog.hpp', 'libs/lorina/lorina/verilog.hpp'],
  mech=[('netlist writer', 'write_verilog'), ('text of a module', 'lorina::verilog_writer'), ('internal names', 'internal_prefix')],
  technique=VG + 'the output events of the writer form an abstract text per abstract network and name set; an independent Verilog reader decides well-formedness and functions',
  note='95 abstract networks; Verilog keywords as port names and equal names of an input and an output are outside the claim.', level='bounded')

P(id='C16', title='Written LUT netlists describe exactly the mapped design',
  statement='For every combinational k-LUT network and every set of distinct port names, the netlist written by write_lut (map_fpga / write_fpga) is well formed (instances and wires are declared once under names distinct from the ports, each wire has one driver), its ports are the inputs and outputs in order, every instance LUTk has k inputs and an INIT word of 2^k bits, and each output computes the function of the network.',
  over=['inputs'], quant='all combinational k-LUT networks (tables of 1 to 6 inputs, constants, outputs wired to inputs) and port names',
  why='The INIT word and its fan-in order decide the programmed device; tests do not interpret the netlist.',
  files=['include/operations/io/detail/writer_lut.hpp', 'include/operations/io/writer.hpp'],
  mech=[('netlist writer', 'write_lut'), ('internal names', 'internal_prefix')],
  technique=VG + 'the output events of the writer form an abstract text per abstract network and name set; an independent reader of LUT netlists decides well-formedness and functions',
  note='98 abstract networks; kitty::to_hex is replaced by its contract.', level='bounded')

P(id='C34', title='AND-balancing keeps every output and never makes the design deeper',
  statement='For every combinational AND-inverter graph, and_balance (the shell command balance) returns a network with the same primary inputs and outputs in order, each output computing the same function, and its depth in AND levels is not larger than that of the source.',
  over=['inputs'], quant='all combinational networks: reconvergent, with repeated, opposite and constant conjunction leaves, shared cones, outputs wired to inputs or constants',
  why='Tests compare sizes on a few benchmarks; the multi-step supergate collection, unification, pairing and sorted re-insertion go wrong only for particular coincidences of leaves and levels.',
  files=['include/operations/optimization/and_balance.hpp', 'cli/command/balance.hpp'],
  mech=[('traversal with the map from old nodes to new signals', 'and_balance::balance_rec'), ('leaves of a conjunction', 'get_balance_cone, balance_unify'), ('pairing by level', 'build_super, balance_find_left, balance_permute, push_unique_by_level')],
  technique=VG + 'the recovered transfer functions of the class, composed through their (recursive) calls, are applied to finite abstract networks; result and source are compared by interface, function and depth',
  note='800 abstract networks of up to 8 inputs and about 20 gates. Levels kept by depth_view and the simplifications of create_and are contracts (C30, C01).', level='bounded')

P(id='C29', title='Topological views list exactly the needed nodes, fan-ins before their users',
  statement='For every AND-inverter graph and k-LUT network, topo_view lists the constant node and the inputs, then every gate an output (or register input) depends on exactly once and no other gate, each after all its fan-ins, whatever order the nodes were created in; sizes, index maps, iterations and the start-signal variant agree with that list, and updating it again yields the same list.',
  over=['inputs', 'histories'], quant='all networks, node numberings and start signals, including dangling gates and numberings left by substitution',
  why='Index order usually is a topological order in tests; only networks edited in place have fan-ins with larger indices, and every converter and writer relies on the list.',
  files=['include/database/views/topo_view.hpp'],
  mech=[('depth-first construction of the order', 'topo_view::update_topo, create_topo_rec'), ('reported sizes and maps', 'size, num_gates, node_to_index, index_to_node'), ('iterations', 'foreach_node, foreach_gate, foreach_po')],
  technique=VG + 'the recovered transfer functions of the view, composed through their (recursive) calls, are applied to finite abstract networks in any numbering; the abstract list is compared with the cones of the outputs',
  note='About 390 abstract networks of up to 8 gates, half of them renumbered. Combinational cones of outputs and register inputs.', level='bounded')

P(id='C30', title='Depth views know the level of every needed node and the depth of the network',
  statement='After construction, after update_levels and in a copy, depth_view::level returns for every node the outputs depend on the length of its longest path from an input (complemented edges counted when asked to) and depth the largest over the outputs; a gate added later gets its level at once, an added output raises the depth, and every constructor registers the view so that added nodes are reported to it, safely after the view is gone.',
  over=['inputs', 'histories'], quant='all networks and histories of added gates and outputs, copies of views included',
  why='Depth limits of rewriting, refactoring and balancing rely on these levels; wrong ones give valid but deeper results no test flags.',
  files=['include/database/views/depth_view.hpp', 'include/utils/node_map.hpp'],
  mech=[('level computation', 'depth_view::update_levels, compute_levels'), ('incremental update', 'depth_view::on_add, create_po, resize_levels'), ('handler lifetime', 'depth_view::register_events')],
  technique=VG + 'the recovered transfer functions of the view, composed through their (recursive) calls, are applied to finite abstract networks and edit histories and compared with longest paths; registration of the handler is a must-call rule on the recovered events',
  note='About 600 abstract networks and histories. is_on_critical_path (never computed), register outputs and nodes no output depends on are outside the claim.', level='bounded')

P(id='C25', title='Enumerated cuts are cuts of their node and carry the function of their cone',
  statement='For every network, cut enumeration gives each node a set of cuts that respects the limits on leaves and cuts: leaves are sorted and distinct, they separate the node from the inputs (unless tables are minimised), no cut is listed twice, and the stored truth table applied to the leaves is the function of the node. Merging two cuts yields their union exactly when it fits, a cut dominates another iff its leaves are included, and inserting into a cut set removes exactly the dominated cuts and never loses, shares or reorders stored ones.',
  over=['inputs'], quant='all networks, cut sizes and limits; all pairs of cuts of up to the maximal number of leaves; all cut sets including full ones',
  why='Rewriting and mapping replace logic on the word of these cuts. Signature collisions, full sets, unions of exactly the maximal size and constant cones are coincidences no test sets up.',
  files=['include/database/cut/cut.hpp', 'include/database/cut/cut_set.hpp', 'include/database/cut/cut_enumeration.hpp'],
  mech=[('cuts as sorted leaf arrays with signatures', 'cut::merge, dominates, set_leaves'), ('ordered set of pointers into a pool', 'cut_set::insert, add_cut, limit, update_best'), ('enumeration and truth tables', 'cut_enumeration_impl::run, merge_cuts2, compute_truth_table')],
  technique=VG + 'recovered transfer functions of cut, cut_set and cut_enumeration_impl over an abstract store (pointers into the pool included) are applied to abstract cuts, sets and networks; unions, inclusions and cone functions computed independently decide the results',
  note='970 obligations: pairs of up to maximal cuts, sets up to the full pool, 16 abstract networks (60 thorough). Tables are compared over the functions of the leaves.', level='bounded')

P(id='C22', title='Rewriting keeps every output and a replacement never costs gates or depth',
  statement='For every combinational AND-inverter graph and any database of structures with the asked functions, rewriting returns a network with the same inputs and outputs, each computing the same function, and never makes the graph cyclic. Where a single node is restructured, the number of gates does not grow (it shrinks when zero-gain replacement is off), the depth does not grow when it is to be preserved, and a structure that saves gates is used.',
  over=['inputs'], quant='all combinational networks, cut sets, database contents and option combinations',
  why='Several replacements interact (replaced nodes inside each other\'s cones, equal fan-ins after replacement, reference counts borrowed per cut); tests run a few benchmarks with the built-in database only.',
  files=['include/operations/optimization/rewrite.hpp', 'include/operations/algorithms/ref_deref.hpp'],
  mech=[('selection of the best structure by dereferencing and referencing cones', 'rewrite_impl::run, deref_cut, ref_cut'), ('arrival and required depth', 'initialize_depth, update_arrive_depth'), ('replacement in place', 'local_replacement')],
  technique=VG + 'the recovered transfer functions of rewrite_impl over an abstract store are applied to finite abstract networks, the database being a contract that offers arbitrary irredundant structures; functions, acyclicity, gate counts and depths of the result are compared with the source',
  note='326 abstract networks of up to 12 gates (about 2000 thorough). A node that drives an output and gates, or two outputs, is outside the gate-count claim (only its first output is redirected); combined replacements are outside the gate and depth claims.', level='bounded')

P(id='C23', title='Refactoring keeps every output and never costs gates or depth',
  statement='For every combinational AND-inverter graph, and whatever irredundant structures the factoring step returns for the cones it is asked about, refactoring returns a network with the same inputs and outputs, each computing the same function, and never makes the graph cyclic. The number of gates does not grow, the depth does not grow unless that is allowed, and a structure that saves gates at an admissible depth is used.',
  over=['inputs'], quant='all combinational networks, cone and leaf limits, factored structures and option combinations',
  why='The gain of a replacement is computed from reference counts that are borrowed and given back for every candidate, depths are patched incrementally, and replaced nodes lie in the cones of later ones; tests run a few benchmarks and compare no function.',
  files=['include/operations/optimization/refactor.hpp', 'include/operations/algorithms/ref_deref.hpp'],
  mech=[('reconvergence-driven cut and its truth table', 'refactor_impl::compute_reconvergence_driven_cut, collect_cone_nodes, compute_cone_tt'), ('gain and depth test', 'refactor_impl::replace_sub_ntk, recursive_update_depth'), ('depths and fan-outs', 'compute_depth_info, compute_reverse_depth_info')],
  technique=VG + 'the recovered transfer functions of refactor_impl over an abstract store are applied to finite abstract networks, the factoring step being a contract that offers arbitrary irredundant structures; functions, gate counts and depths of the result are compared with the source',
  note='450 abstract networks of up to 16 gates (about 2500 thorough). The factoring step itself is C43. Trees of gates, reconvergent and random networks; combinational only.', level='bounded')

P(id='C26', title='Technology mapping covers the network with LUTs of the right functions',
  statement='For every AND-inverter graph, with or without structural choices, LUT mapping ends with a set of cells such that every gate driving an output and every gate feeding a cell is itself the root of exactly one cell, every cell has at most cut-size distinct leaves, the cells form no cycle, and the function stored for each cell, applied to the functions of its leaves, is the function of its root - whatever cut limit and number of area rounds is chosen. The mapping is stored and read back unchanged: roots, leaves, functions and the number of cells.',
  over=['inputs'], quant='all combinational networks with choices, cut sizes, cut limits, round counts; all sequences of mapping updates',
  why='Five to eight rounds reuse cut sets, best cuts, reference counts and required times of the previous round; choices come with either phase. A stale best cut or a wrong phase needs a particular network and round to show.',
  files=['include/operations/algorithms/klut_mapping.hpp', 'include/database/views/mapping_view.hpp', 'include/database/cut/general_cut_enumeration.hpp', 'include/database/cut/cut_enumeration.hpp'],
  mech=[('mapping rounds', 'klut_mapping_impl::perform_mapping, perform_mapping_round, perform_mapping_and, perform_mapping_and_choice'), ('cut merging and truth tables', 'merge_cuts, compute_truth_table'), ('cover', 'compute_required_times, mark_ref_rec, derive_final_mapping'), ('mapping storage', 'mapping_view')],
  technique=VG + 'the recovered transfer functions of klut_mapping_impl, cut, cut_set, network_cuts and mapping_view over an abstract store are applied to finite abstract networks with choices; the cover is compared with the functions of all nodes',
  note='About 110 obligations: 48 abstract networks of up to 10 gates with up to three choices (240 thorough) and 60 update sequences. Area and delay of the result are not claimed; table minimisation (which no command turns on for mapping) only where no gate equals another node, since a cell with one leaf trips an assertion.', level='bounded')

P(id='C43', title='Factoring a function yields a structure of exactly that function',
  statement='For every function of up to the supported number of variables and every choice of signals (complemented, internal, repeated), the factoring step of refactoring hands exactly one signal to its caller; in the network extended by the new gates it computes the function of the given signals; constants become constants; existing nodes and outputs are not touched, and factoring ends.',
  over=['inputs'], quant='all functions and leaf signals',
  why='Algebraic division marks covered cubes in place, recursion alternates between divisors, quotients, kernels and literals, and polarity is chosen by cube counts: a wrong remainder needs a particular sum of products.',
  files=['include/operations/optimization/detail/sop_refactoring.hpp'],
  mech=[('kernels and division', 'sop_divide, sop_best_kernel_rec, sop_good_divisor'), ('factored form', 'sop_factoring::gen_factor_rec, lit_factor_rec, gen_andor_circuit_rec'), ('choice of polarity', 'sop_factoring::get_isop')],
  technique=VG + 'the recovered transfer functions of sop_factoring and its divisions, iterated over an abstract store, are applied to every function of up to three variables and to samples up to nine; the function of the offered signal is compared with the asked one; kitty::isop is a contract',
  note='432 functions (all up to three variables), about 1300 thorough. The quality of the factored form is not claimed.', level='bounded')

P(id='C42', title='The rewriting database offers only structures of the function asked for',
  statement='Whatever cut function of up to four signals rewriting asks for, every signal the built-in database offers computes that function of exactly those signals, for every input permutation, input complementation and output complementation that relates the function to its class; building a structure leaves the existing gates alone, structures are stored only under the class they compute, and the encoded database is decoded gate by gate as written.',
  over=['inputs'], quant='all functions, class transformations, databases of structures and networks the structures are built in',
  why='4096 combinations of permutation and polarities times 222 classes: tests meet the few functions their benchmarks contain, and a wrong polarity for one class shows only where that class is replaced.',
  files=['include/operations/optimization/detail/node_rewriting.hpp', 'include/operations/optimization/detail/database_npn4_aig.hpp'],
  mech=[('lookup and transformation of inputs and output', 'node_rewriting::operator()'), ('copying a structure', 'padding_network_by_signal'), ('classes and their structures', 'generate_classes, generate_db'), ('decoding', 'decode_data_rewriting, insert_into_network')],
  technique=VG + 'recovered transfer functions of node_rewriting are applied to abstract networks, databases and class transformations; what the callback receives is compared with the asked function',
  note='About 140 abstract cases (800 thorough). kitty::exact_npn_canonization is a contract (any permutation and polarities in its documented convention).', level='bounded')
