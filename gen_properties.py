#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state: a['state'] = state
    if observe: a['observe_at'] = observe
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))

prop('C01', 'Vector costs add componentwise and are totally ordered lexicographically',
 'For vector costs of equal length (and numbers, which act as constant vectors): addition is componentwise from either side; ==, <, <=, >, >= are exactly the lexicographic order on the components, so exactly one of a<b, a==b, a>b holds, a<=a and not a>a. '
 'Combining vectors of different lengths raises ValueError and never yields a value. '
 'The set of valid transition costs contains every non-negative number and every vector cost that is lexicographically at least zero, and rejects negative values and non-numeric objects.',
 ['inputs'], 'all pairs of vector costs of any length, and all numbers',
 'The tests compare no two equal vectors and only a few fixed ones; the order must be a lawful total order for every length because the planner sorts by it.',
 ['tulip/transys/cost.py'], [('VectorCost', 'tulip/transys/cost.py'), ('ValidTransitionCost', 'tulip/transys/cost.py')])

prop('C02', 'Shortest-path search returns a real, cheapest path to the target set',
 'For every finite transition graph with non-negative edge costs (numbers or vector costs), searching from a source (or set of sources) to a set of targets returns a path that starts at a given source, ends at a target, follows existing transitions, and the returned cost equals the sum of the costs of the cheapest transitions along it and is minimal among all paths from the sources to the targets. '
 'If no target is reachable the result is (infinity, empty list); if a source is itself a target the result is cost zero and the one-node path.',
 ['inputs'], 'all finite weighted graphs incl. parallel edges, zero costs, cycles; all source/target sets',
 'Tests run a handful of small graphs; optimality over all path is a universally quantified claim.',
 ['tulip/transys/graph_algorithms.py', 'tulip/transys/cost.py'],
 [('dijkstra_single_source_multiple_targets', 'tulip/transys/graph_algorithms.py'),
  ('dijkstra_multiple_sources_multiple_targets', 'tulip/transys/graph_algorithms.py')])

prop('C03', 'The product of a transition system with a Büchi automaton is exactly the product',
 'The synchronous product of a finite transition system and a Büchi automaton has as initial states exactly the pairs (s0, q) where the automaton moves from one of its initial states to q on the label of an initial state s0, and from a pair (s, q) exactly one-step successors (t, r) with s→t in the system and q→r enabled by the label of t (a transition is enabled when it is unlabeled, its letter equals the label, or its letter is {True}). '
 'Its states are exactly the pairs reachable from the initial ones, and its accepting (persistent) states are exactly the pairs whose automaton component is accepting. '
 'The transition-system form, the automaton form (transitions labeled with the label of the target system state) and the on-the-fly product after all its states have been added agree on initial states, states, transitions and accepting states.',
 ['inputs'], 'all finite transition systems and Büchi automata',
 'Tests build two fixed products; a missing or spurious product transition makes every verdict computed from the product wrong.',
 ['tulip/transys/products.py'],
 [('ts_ba_sync_prod', 'tulip/transys/products.py'), ('ba_ts_sync_prod', 'tulip/transys/products.py'),
  ('find_ba_succ', 'tulip/transys/products.py'), ('find_prod_succ', 'tulip/transys/products.py'),
  ('OnTheFlyProductAutomaton', 'tulip/transys/products.py')])

prop('C04', 'Synchronous parallel composition and policy application are exact',
 'Composing Kripke structures, weighted Kripke structures, Markov chains and decision processes yields the states, initial states and labels given by the tuples, tuples of initial states and unions of the component labels; there is a transition between tuples exactly for each choice of one transition per component, whose cost is the sum of the component costs, whose probability is the product of the component probabilities and whose action is the action of the single acting component or the tuple of actions. '
 'The kind of the result is the most specific kind among the components (decision process, then Markov chain, then weighted structure, then Kripke structure) and incompatible components are rejected. '
 'Applying a policy to a decision process keeps all states, initial states, propositions and labels, and keeps exactly the transitions whose action is the one the policy chooses, with their probabilities and without the action.',
 ['inputs'], 'all lists of models, all policies',
 'The tests compare one composed model; exactness quantifies over all component transition choices.',
 ['tulip/transys/compositions.py'],
 [('synchronous_parallel', 'tulip/transys/compositions.py'), ('apply_policy', 'tulip/transys/compositions.py'),
  ('_get_transition_attr', 'tulip/transys/compositions.py'), ('sum_values, mult_values, neglect_none', 'tulip/transys/compositions.py')])

prop('C05', 'Minimum-violation planning accounts every violation and minimizes it by priority',
 'A prioritized specification enumerates, indexes and counts its rules by level first and insertion order second, whatever the order the rules were added in. '
 'The weighted product built by the planner has a transition for every system transition (and for entering each initial system state) and every pair of rule-automata states, whose cost at each level is the sum of the priorities of the rules of that level that have no automaton transition between those automaton states on exactly the label of the entered system state, followed by the cost of the system transition. '
 'The returned plan is a trajectory of the system from an initial state to a goal state, and its cost is the lexicographic minimum over all accepting runs of that product reaching a goal-labeled state.',
 ['inputs'], 'all Kripke structures, goals and prioritized specifications',
 'Tests solve two fixed scenarios; cost accounting and optimality are claims about all systems and rule sets.',
 ['tulip/mvp.py', 'tulip/spec/prioritized_safety.py'],
 [('solve', 'tulip/mvp.py'), ('_construct_weighted_product_automaton', 'tulip/mvp.py'),
  ('_get_rule_violation_cost', 'tulip/mvp.py'), ('PrioritizedSpecification', 'tulip/spec/prioritized_safety.py')])

prop('C06', 'Labeled graphs stay well-formed under every sequence of edits',
 'After any sequence of additions and removals of states, transitions, initial states and accepting states on a labeled transition system or automaton: initial and accepting states are states of the graph, every transition joins two existing states, and every attribute of a declared label type has an allowed value; an edit that would break this raises an exception. '
 'Adding a state or transition sets exactly the given attributes over the declared defaults, adding a transition with a label already present between the same states does not create a second one, and no edit changes any other state or transition. '
 'Removing a state removes it from the initial and accepting states and removes its transitions; removing a labeled transition removes exactly the transitions between the two states with that label; removing dead-ends leaves exactly the states from which an infinite path exists.',
 ['histories'], 'all histories of edit operations on all graphs',
 'Tests exercise a few fixed edit sequences; well-formedness is an invariant over all histories.',
 ['tulip/transys/labeled_graphs.py', 'tulip/transys/automata.py'],
 [('LabeledDiGraph', 'tulip/transys/labeled_graphs.py'), ('States', 'tulip/transys/labeled_graphs.py'),
  ('Transitions', 'tulip/transys/labeled_graphs.py'), ('FiniteStateAutomaton', 'tulip/transys/automata.py')])

prop('C07', 'Graph queries return exactly the matching states and transitions',
 'Finding states (or transitions) returns each state (transition) that is among the requested states (source and target states) and whose attributes equal the requested label, exactly once per occurrence and no other, with a copy of its attributes; with no requested label every one matches, and a transition without any attributes matches every label. '
 'Successor and predecessor queries of a set of states return exactly the one-step successors and predecessors, dead-end and terminal queries report exactly the states with no outgoing transition. '
 'Queries do not modify the graph.',
 ['inputs'], 'all graphs and all queries',
 'Tests query a few graphs; all algorithms (products, synthesis encodings, machine runs) rely on these queries being exact.',
 ['tulip/transys/labeled_graphs.py'],
 [('States.find', 'tulip/transys/labeled_graphs.py'), ('Transitions.find', 'tulip/transys/labeled_graphs.py'),
  ('States.post, States.pre', 'tulip/transys/labeled_graphs.py'), ('label_is_desired', 'tulip/transys/labeled_graphs.py')])

prop('C08', 'Simulation-based abstraction yields a bisimulation or dual simulation',
 'The bisimulation abstraction of a finite transition system partitions its states into cells of equally labeled states, with a transition between two cells exactly when every state of the first has a successor in the second, and no state of a cell has a successor in a cell its own cell has no transition to. '
 'The dual-simulation abstraction covers all states with cells of equally labeled states such that each concrete transition leaves from some cell containing its source with a transition to each cell containing its target, and each abstract transition is realizable from every state of its source cell. '
 'Abstract initial states are the cells containing initial states, and the two returned maps between states and cells are inverse to each other.',
 ['inputs'], 'all finite labeled transition systems',
 'Tests abstract two fixed systems; bisimulation is a claim about all states, transitions and splitting orders.',
 ['tulip/transys/transys.py'],
 [('simu_abstract', 'tulip/transys/transys.py'), ('_output_fts', 'tulip/transys/transys.py'), ('_pre', 'tulip/transys/transys.py')])

prop('C09', 'Mathematical sets obey set algebra for hashable and unhashable members',
 'A mathematical set built or edited by any sequence of adding, updating, union, difference, removal, intersection, Cartesian product and iteration contains an item exactly when the corresponding mathematical set does, with each member once, whether or not its members are hashable; operators leave their operands unchanged, and equality holds exactly when the members are the same. '
 'A subset object never contains an element outside its superset: adding one raises ValueError and changes nothing. '
 'A power set contains exactly the subsets of its base set, enumerates each once and has length two to the size of its base; a typed dictionary never stores, by any means of assignment, a disallowed value under a typed key.',
 ['histories', 'inputs'], 'all operation histories over hashable and unhashable items',
 'Tests cover fixed operands; set laws quantify over all sets and operation sequences.',
 ['tulip/transys/mathset.py'],
 [('MathSet', 'tulip/transys/mathset.py'), ('SubSet', 'tulip/transys/mathset.py'),
  ('PowerSet', 'tulip/transys/mathset.py'), ('TypedDict', 'tulip/transys/mathset.py'),
  ('unique, is_subset, compare_lists', 'tulip/transys/mathset.py')])

prop('C10', 'Machine reactions follow the transition function; conversions preserve behavior',
 'A Mealy machine reacting to a full input valuation takes the unique transition from the current state carrying exactly those input values and returns its target and its output values; if there is none or more than one it raises ValueError, and a guided run is the iteration of that reaction from the given or initial state over the input sequences, without changing the machine. '
 'Converting a Moore machine to a Mealy machine keeps ports, states, initial states, and each transition with its inputs plus the outputs of its source state; converting a Mealy machine to a Moore machine yields a machine that, after its arbitrary initial output, produces for each input sequence the same outputs, and has no behavior the Mealy machine lacks. '
 'Removing ports from a machine removes exactly those ports from its declarations and transition labels.',
 ['inputs'], 'all machines, states and input sequences',
 'Tests run two machines; input/output equivalence quantifies over all machines and words.',
 ['tulip/transys/machines.py'],
 [('MealyMachine.reaction', 'tulip/transys/machines.py'), ('guided_run', 'tulip/transys/machines.py'),
  ('moore2mealy', 'tulip/transys/machines.py'), ('mealy2moore', 'tulip/transys/machines.py'), ('strip_ports', 'tulip/transys/machines.py')])

prop('C11', 'GR(1) encodings of transition systems admit exactly the system behaviors',
 'For a system (environment) transition system, the generated specification allows, for a state variable that is at a system state, exactly those one-step moves to a next state and next actions that agree with some transition from that state, whose labels the step carries (actions marked as previous are matched in the current step); no step is allowed from a dead-end. '
 'The initial condition allows exactly the initial states (anything if initial states are ignored), proposition variables hold at a step exactly when they label the current state, and action variables are constrained to at most or exactly one action as requested. '
 'For a system transition system, the environment is restricted in each state only to the action combinations that label some outgoing transition; a state of an environment that no outgoing transition unconditionally leaves remains free where the system disables every outgoing transition.',
 ['inputs'], 'all finite transition systems, Boolean and integer/string encodings',
 'Tests check realizability of a few encodings; exactness quantifies over all systems and valuations.',
 ['tulip/synth.py'],
 [('sys_to_spec', 'tulip/synth.py'), ('env_to_spec', 'tulip/synth.py'), ('_sys_trans_from_ts', 'tulip/synth.py'),
  ('_env_trans_from_sys_ts', 'tulip/synth.py'), ('_env_trans_from_env_ts', 'tulip/synth.py'),
  ('_ap_trans_from_ts', 'tulip/synth.py'), ('iter2var', 'tulip/synth.py')])

prop('C12', 'Combining, copying and compiling GR(1) specifications preserves their meaning',
 'The conjunction of two GR(1) specifications declares the variables of both and contains exactly the conditions of both, part by part, with their common flags; operands are unchanged, conflicting declarations (different domains, or input in one and output in the other) and different flags are rejected, a copy is equal to and independent of the original, and a specification shares no list or dictionary with the arguments it was made from. '
 'Textual and canonical forms of a specification denote the implication from the conjunction of all assumptions to the conjunction of all guarantees, where initial conditions hold initially, safety conditions always and progress conditions infinitely often, and reading back a saved formula gives the same formula and variables (finite domains as sets). '
 'The compiled initial condition is true in a valuation exactly when the initial assumptions imply the initial guarantees there, with string values or with their positions in the domain as requested.',
 ['inputs'], 'all GR(1) specifications',
 'Tests combine a few specifications; meaning preservation is over all formula lists.',
 ['tulip/spec/form.py'],
 [('GRSpec.__or__', 'tulip/spec/form.py'), ('GRSpec.copy', 'tulip/spec/form.py'), ('GRSpec.to_canon', 'tulip/spec/form.py'),
  ('LTL.dumps, LTL.loads', 'tulip/spec/form.py'), ('GRSpec.compile_init', 'tulip/spec/form.py')])

prop('C13', 'Translating a formula to a solver language preserves its meaning',
 'Translating any formula to gr1c, slugs, JTLV-style, Python, SPIN, SMV and other supported syntaxes yields text which, read in the target syntax, is the same formula: same operators applied to same operands in the same order, with variables, numbers and primed variables preserved. '
 'Translating a GR(1) specification emits every variable with its domain, and every initial, safety and progress condition exactly once in the corresponding section of the target format.',
 ['inputs'], 'all formulas and specifications in the supported fragment',
 'Tests translate a handful of formulas; the property is an induction over all formulas.',
 ['tulip/spec/translation.py', 'tulip/spec/ast.py'],
 [('translate_ast', 'tulip/spec/translation.py'), ('translate', 'tulip/spec/translation.py'),
  ('_to_gr1c, _to_slugs', 'tulip/spec/translation.py'), ('nodes', 'tulip/spec/ast.py')])

prop('C14', 'Printing a parsed formula and parsing it again gives the same formula',
 'For every formula in the LTL syntax, parsing the text printed for its syntax tree gives the same tree, and all documented spellings of an operator parse to the same tree. '
 'Parsing respects the documented precedence and associativity, so that removing redundant parentheses does not change the tree.',
 ['inputs'], 'all formulas',
 'Tests parse a fixed list of strings.',
 ['tulip/spec/lexyacc.py', 'tulip/spec/parser.py', 'tulip/spec/ast.py'],
 [('Lexer, Parser', 'tulip/spec/lexyacc.py'), ('parse', 'tulip/spec/parser.py'), ('nodes.flatten', 'tulip/spec/ast.py')])

prop('C15', 'Conversions of LTL patterns to GR(1) are sound and splitting is exact',
 'The specification generated for a response pattern []((p) -> <>(q)), an eventuality <>(p) or an until pattern (p) U (q) is satisfied, for some valuation of the auxiliary variable, by exactly the infinite words that satisfy the pattern; for persistence <>[](p) every word that satisfies the generated specification satisfies the pattern and vice versa for some auxiliary valuation. '
 'Splitting a GR(1) formula yields initial, safety and progress parts whose recombination (initially, always, infinitely often) is equivalent to the formula, and raises an exception if a part contains a temporal operator inadmissible there. '
 'The auxiliary variable never coincides with a variable of the formula.',
 ['inputs'], 'all propositional p, q and all infinite words; all formulas given to the splitter',
 'Tests check realizability of a few instances; the claim is about all infinite words.',
 ['tulip/spec/gr1_fragment.py'],
 [('response_to_gr1', 'tulip/spec/gr1_fragment.py'), ('eventually_to_gr1', 'tulip/spec/gr1_fragment.py'),
  ('until_to_gr1', 'tulip/spec/gr1_fragment.py'), ('stability_to_gr1', 'tulip/spec/gr1_fragment.py'), ('split_gr1', 'tulip/spec/gr1_fragment.py')])

prop('C16', 'Exclusion constraints mean at most one and exactly one',
 'For every list of distinct formulas, the mutual-exclusion constraint holds in exactly the valuations where at most one of the (non-empty) formulas holds, and the exactly-one constraint of a non-empty list of non-empty formulas holds in exactly the valuations where precisely one holds; no constraint is emitted for mutual exclusion of fewer than two formulas. '
 'Representing a finite set by variables gives each element its own expression, such that distinct elements have mutually exclusive expressions under the emitted constraints, and the declared variable domain contains every element.',
 ['inputs'], 'all lists of formulas of any length',
 'Tests compare emitted strings for lists of length up to three.',
 ['tulip/synth.py'],
 [('mutex', 'tulip/synth.py'), ('exactly_one', 'tulip/synth.py'), ('iter2var', 'tulip/synth.py'), ('_conj, _disj, _conj_neg_diff', 'tulip/synth.py')])

prop('C17', 'The machine built from a strategy has exactly the behaviors of the strategy',
 'The Mealy machine built from a synthesized strategy has the declared inputs and outputs of the specification, one state per strategy node besides the start state, and for each strategy edge a transition labeled with exactly the values at the edge target; from the start state, for each valuation of the variables that an admissible initial node has (the given initial nodes, or those satisfying the initial conditions as quantified), it has exactly one transition, to such a node, labeled with the values at that node. '
 'Making the initial choice deterministic keeps, for each initial input, exactly one initial transition, with the requested output values if given, and changes no other transition. '
 'Masking outputs erases from each transition exactly the outputs whose value is zero, and nothing else.',
 ['inputs'], 'all strategy graphs and specifications',
 'Tests convert a few synthesized strategies.',
 ['tulip/synth.py'],
 [('strategy2mealy', 'tulip/synth.py'), ('determinize_machine_init', 'tulip/synth.py'), ('mask_outputs', 'tulip/synth.py'), ('_int2str', 'tulip/synth.py')])

prop('C18', 'Answers of external solvers are decoded without loss',
 'A strategy returned by slugs is decoded so that each Boolean variable keeps its value and each integer variable gets the number whose binary digits are the bits reported for it, for every domain; each node and each edge of the answer appears exactly once. '
 'A strategy in the JSON format of gr1c and gr1py is loaded as the graph with exactly the listed nodes, each carrying the value of each variable at the position given by the variable order, exactly the listed edges, and the initial flags and variable domains of the answer; a strategy in the XML format of gr1c likewise, in any XML namespace.',
 ['inputs'], 'all strategies and variable declarations',
 'Needs the solver executables, which the tests cannot run; only one fixed answer file is loaded.',
 ['tulip/interfaces/slugs.py', 'tulip/interfaces/gr1c.py', 'tulip/interfaces/gr1py.py'],
 [('_bitfields_to_ints', 'tulip/interfaces/slugs.py'), ('synthesize', 'tulip/interfaces/slugs.py'), ('load_aut_json', 'tulip/interfaces/gr1c.py'), ('_parse_vars', 'tulip/interfaces/gr1c.py')])

prop('C19', 'Substituting values, variables and subformulas preserves the formula otherwise',
 'Replacing variables or constants of a formula by given expressions replaces every occurrence of a listed variable, and nothing else, and leaves the shape of the formula unchanged; replacing string values of finite-domain variables by numbers maps each value to its position in the declared domain of the variable it is compared with, so the result has the same meaning. '
 'The sets of variables (and of primed variables) reported for a formula are exactly the variables that occur (occur under a next operator); names that are not variables are quoted, everything else stays; and in a specification the integer form and the tree stored for each condition are those of that condition, whatever was parsed, converted or removed before.',
 ['inputs'], 'all formulas, substitutions and domains',
 'Tests substitute in a few formulas.',
 ['tulip/spec/transformation.py', 'tulip/spec/form.py', 'tulip/spec/ast.py'],
 [('sub_values, sub_constants, sub_bool_with_subtree, infer_constants', 'tulip/spec/transformation.py'), ('GRSpec.str_to_int, ast, parse, sub_values, replace_dependent_vars', 'tulip/spec/form.py'), ('collect_primed_vars', 'tulip/spec/transformation.py')])

prop('C20', 'Gridworlds keep their cells through text, copies and GR(1) encoding',
 'A gridworld written as text and read back has the same size, obstacles, and initial and goal cells (as sets, when those are unoccupied and disjoint), a copy has the same cells and lists, and two gridworlds are equal exactly when those agree; cell names, states and coordinates read from names are mutually consistent for every cell and offset, and out-of-range keys are rejected. '
 'Reachability between two cells holds exactly when a path of unoccupied 4-connected cells joins them. '
 'The GR(1) encoding of a gridworld with every encoding option allows exactly the moves to the same or a 4-adjacent unoccupied cell, starts exactly at the initial cells, and requires visiting each goal cell repeatedly.',
 ['inputs'], 'all grids, cells and options',
 'Tests use two fixed grids.',
 ['tulip/gridworld.py'],
 [('GridWorld.loads, GridWorld.dumps', 'tulip/gridworld.py'), ('GridWorld.is_reachable', 'tulip/gridworld.py'), ('GridWorld.spec', 'tulip/gridworld.py'), ('extract_coord', 'tulip/gridworld.py')])

prop('C21', 'The exported Python controller behaves as the Mealy machine',
 'For every Mealy machine with deterministic transitions, the generated Python class starts in the start state of the machine and, for each sequence of inputs, returns the outputs the machine gives and moves to the corresponding state; an input for which the machine has no transition raises ValueError and a state without transitions raises RuntimeError.',
 ['inputs', 'programs'], 'all Mealy machines and input sequences',
 'Tests export two machines and take a few steps.',
 ['tulip/dumpsmach.py'], [('python_case', 'tulip/dumpsmach.py')])

prop('C22', 'Synthesis answers agree with the game and strategies satisfy the specification',
 'A specification is reported realizable exactly when the system can force satisfaction of the guarantees under the assumptions from the initial conditions as quantified by the chosen option, and the synthesized machine, against every environment that keeps the assumptions, keeps the guarantees: initial, safety and progress. '
 'All available solvers agree on realizability.',
 ['inputs', 'programs'], 'all GR(1) specifications and environment behaviors',
 'Tests check a few specifications; correctness is over all infinite plays.',
 ['tulip/synth.py', 'tulip/interfaces/omega.py', 'tulip/interfaces/gr1py.py'],
 [('synthesize', 'tulip/synth.py'), ('is_realizable', 'tulip/synth.py'), ('synthesize_enumerated_streett', 'tulip/interfaces/omega.py')])

prop('C23', 'Partitions of the continuous domain preserve propositions',
 'A partition computed from a domain and propositions (prop2part), and its refinements (part2convex, pwa_partition, add_grid), cover the domain with nonempty regions that do not overlap, each labeled with exactly the propositions that hold everywhere inside of it and do not hold anywhere inside of it otherwise; refined regions are mapped to the region and subsystem that contain them, and the adjacency matrix marks exactly the adjacent pairs. '
 'The transition system (ppp2ts) has one state per region with the label of the region, and a transition exactly for each adjacent pair. '
 'The constructor refuses regions outside of the domain, labels that are not propositions, and matrices of a wrong shape, and preserves_predicates is true exactly when propositions are preserved.',
 ['inputs'], 'all polytopic domains, propositions, subsystems and grids',
 'Tests partition a few domains; coverage and labels must hold for every arrangement of propositions.',
 ['tulip/abstract/prop2partition.py', 'tulip/transys/labeled_graphs.py'],
 [('prop2part', 'tulip/abstract/prop2partition.py'), ('PropPreservingPartition.__init__', 'tulip/abstract/prop2partition.py'), ('PropPreservingPartition.preserves_predicates', 'tulip/abstract/prop2partition.py'),
  ('part2convex', 'tulip/abstract/prop2partition.py'), ('pwa_partition', 'tulip/abstract/prop2partition.py'), ('add_grid', 'tulip/abstract/prop2partition.py'), ('ppp2ts', 'tulip/abstract/prop2partition.py'), ('Transitions.add_adj', 'tulip/transys/labeled_graphs.py')])

prop('C24', 'Transitions of discretized systems are realizable by the dynamics',
 'Each transition of a discretized system between two regions is realizable by the dynamics from every point of the first region, within the horizon, under every admissible disturbance.',
 ['inputs'], 'all partitions and piecewise affine dynamics',
 'Tests discretize a few systems numerically.',
 ['tulip/abstract/discretization.py', 'tulip/abstract/feasible.py'],
 [('discretize', 'tulip/abstract/discretization.py'), ('solve_feasible', 'tulip/abstract/feasible.py')])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        assert p['statement'].count('. ') <= 2, (p['id'], p['statement'].count('. '))
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
