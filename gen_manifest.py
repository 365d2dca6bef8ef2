"""Writes MANIFEST.json from the list of claimed properties below."""
import json
T = 'contract-based deductive verification (symbolic VC generation from the real source, z3/cvc5)'
D = ', plus executable contracts on the real code as labelled bounded stand-in and replay source'
# id: (level, technique suffix, note)
CLAIMED = {
 'C01': ('proof', D, 'All obligations for VectorCost and ValidTransitionCost for vectors of any length; components are mathematical reals (floats: assumption).'),
 'C02': ('proof', D, 'Both searches for any finite graph, any totally ordered commutative cost monoid (laws from C01), with loop invariants and rule induction; heapq and the transition query are used through contracts; termination only by bounded runs.'),
 'C16': ('proof', D, 'mutex, exactly_one, iter2var and _add_actions for every finite list or set of formulas: the emitted text is read back as a formula tree and compared in an arbitrary valuation.'),
 'C11': ('proof', D, 'Every encoding function and both sys_to_spec/env_to_spec for any finite transition system; Transitions.find through its contract (C07); exclusion constraints through C16.'),
 'C12': ('proof', D, 'Constructor, copy, conjunction, canonical text and compiled initial condition for every list of conditions and every variable table; the file reader LTL.loads (text scanning) is decided by the bounded executable contract only.'),
 'C03': ('proof', D, 'The three products for any finite system and automaton: loop invariants over arbitrary families, rule induction for reachability; graph queries and edits through contracts (C06, C07); termination by bounded runs.'),
 'C04': ('exploration', D, 'Kind of the composition for any list of models, policies for any decision process, and compositions of 1, 2 and 3 arbitrary components of every combination of kinds: all obligations; more components and user-given operations by bounded executable contracts only, hence not counted as proved.'),
 'C15': ('proof', D, 'The four conversions are equivalent to their patterns on every infinite word for opaque propositional p, q (induction over time, explicit witnesses for the auxiliary variable); split_gr1, has_operator and str_to_grspec for every formula tree; parsing and the variable collector through contracts.'),
 'C09': ('proof', D, 'Every edit and query of MathSet and SubSet, membership in power sets and edits of typed dictionaries, for arbitrary items (hashable, unhashable, hashable type without hash) and any number of members; products and enumeration of power sets by the bounded executable contract.'),
 'C06': ('proof', D, 'Additions and removals of states and transitions, one by one and in bulk, removal of dead-ends, for arbitrary well-formed labeled graphs and automata (networkx.MultiDiGraph through an assumed contract, labels as values); sharing of mutable labels and several accepting pairs by the bounded executable contract.'),
 'C07': ('proof', D, 'Both find queries for every form of argument, label comparison, successors, predecessors, terminal and dead-end queries, for arbitrary labeled graphs (networkx.MultiDiGraph through an assumed contract).'),
 'C08': ('proof', D, 'Both refinement loops, the predecessor computation and the construction of the abstraction, for systems of any size and any number of cells (0/1 matrices of numpy and networkx through assumed contracts).'),
 'C10': ('proof', D, 'Reactions, guided runs of any length, both conversions (with their worklist), state naming, port projections and port removal, for arbitrary machines (networkx and machine construction through contracts; values as opaque terms).'),
 'C17': ('proof', D, 'Conversion of strategies to machines, initial transitions from given nodes and from initial conditions, machine ports, masks and deterministic initialization, for arbitrary strategies and machines (networkx, machine construction and evaluation of the compiled initial condition through contracts).'),
 'C18': ('proof', D, 'Decoding of slugs answers (bits and graph), JSON answers and variable domains for answers of any size (parsed JSON through contracts); the XML reader by the bounded executable contract.'),
 'C05': ('proof', D, 'Costs of transitions, the product, the search problem and prioritized specifications, for any system and any rules (labeled graphs through their contracts C06, C07, the search through C02).'),
 'C22': ('exploration', D, 'All code of the repository between the call and the solvers is under contract and discharged: the game given to omega (as formulas over an arbitrary step), combination with transition systems, dispatch, use of the solver, the enumerated strategy. The solvers are external packages: assumed contracts, with a bounded executable contract (explicit game, plays of the machines), therefore exploration.'),
 'C21': ('proof', D, 'The text that python_case generates, for arbitrary machines, read back as Python code with families of branches: every branch, guard, output, target and error (rendering of values by repr and the reader by assumption).'),
 'C20': ('exploration', D, 'Names, states, cells, equality, reachability and coordinates: all obligations for every table of any size; the GR(1) encoding, text and trolls by the bounded executable contract.'),
 'C13': ('proof', D, 'Every operator and operand of every target language, read back by an independent reader of that language; the sections of the text emitted for GR(1) specifications for any number of conditions and variables of any domain; re.sub through an assumed contract; unsupported constructs are known findings.'),
 'C14': ('proof', D, 'The lexer rules, grammar productions and precedence table are read from the code on every run; every node prints to a text whose only derivation under that grammar is the same node, for arbitrary operands; every documented spelling and every pair of operators. PLY (lex, yacc) is assumed to implement its documented semantics.'),
 'C19': ('proof', D, 'Graph of a formula and back, replacement of values, constants and subtrees, the variable compared with a constant, names that occur (also under next), quoting of names, integer forms and cached trees of specifications: all obligations, for any formula, by induction through contracts (networkx relabeling and parser assumed). Known findings: single-name formulas, non-text values, lost quotes, comparisons between two string variables.'),
 'C23': ('exploration', D, 'prop2part with its three loops (loop invariants, ghost indices), pwa_partition, part2convex, the adjacency loops, the constructor, preserves_predicates, ppp2ts, Transitions.add_adj, compute_interval and product_interval for any number of regions, over ideal geometry (package polytope through assumed contracts, no rounding): all obligations; add_grid for 1, 2 and 3 dimensions only, therefore exploration.'),
}
NA = {
 'C24': 'polytope projections and feasibility computations in floating point on external LP solvers and the polytope package (not in /repo); no contract on /repo code within the verifier\'s reach expresses coverage or feasibility up to rounding',
}
ids = [json.loads(l)['id'] for l in open('properties.jsonl')]
checks = [dict(property=i, quick_cmd=f'python3-vt vf/check.py {i}',
               thorough_cmd=f'python3-vt vf/check.py {i} --thorough', technique=T + s, level=lv, level_note=n)
          for i in ids if i in CLAIMED for lv, s, n in [CLAIMED[i]]]
na = [dict(property=i, reason=NA.get(i, 'no check built yet')) for i in ids if i not in CLAIMED]
json.dump(dict(version=1, setup_cmd='python3-vt vf/setup.py', checks=checks, not_applicable=na,
               notes='No hooks in /repo: contracts live in /verif/contracts and are checked against /repo\'s source on every run.'),
          open('MANIFEST.json', 'w'), indent=1)
