"""Writes /verif/properties.jsonl (the texts live here so that they can be edited in one place)."""
import json, os
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        a['observe_at'] = observe
    if hook:
        a['hook_needed'] = hook
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                  why_tests_cant=why, anchors=a))


prop('C01', 'Every ZX rewrite rule is an equality, global scalar included',
     'Applying any match that a rewrite rule reports (spider fusion, identity removal, local complementation, pivoting with its gadget and boundary variants, phase-gadget fusion, supplementarity, state copy, bialgebra, W fusion, conversion to Z-boxes, unfusing a spider, the four-target phase-polynomial rule) leaves the linear map of the diagram unchanged, and also its tracked global scalar (the phase-polynomial rule only up to a scalar). This holds for each match on its own, for the whole set of matches a rule returns at once, and after any sequence of such rewrites, with discarded (grounded) spiders read as partial traces.',
     ['inputs', 'histories'], 'All diagrams in the documented domain of each rule, all matches (single and simultaneous), all sequences of rewrites.',
     'Tests rewrite a few seeded random circuits and compare tensors up to scalar on the final result of whole strategies; they never visit all local neighbourhoods (boundary or Hadamard legs, overlapping neighbourhoods, several simultaneous matches, scalar diagrams).',
     ['pyzx/rules.py', 'pyzx/graph/base.py', 'pyzx/graph/graph_s.py', 'pyzx/graph/multigraph.py', 'pyzx/graph/scalar.py'],
     [('match conditions and non-interaction of parallel matches', 'pyzx/rules.py match_*'),
      ('rewrites with scalar bookkeeping', 'pyzx/rules.py spider/pivot/lcomp/remove_ids/merge_phase_gadgets/apply_*'),
      ('parallel-edge resolution when edges are added', 'pyzx/graph/graph_s.py add_edge, pyzx/graph/base.py add_edge_table'),
      ('scalars of removed isolated components', 'pyzx/graph/base.py remove_isolated_vertices')],
     [('graph', 'vertices, phases, typed edges, boundary order', 'BaseGraph'), ('scalar', 'tracked global factor', 'Scalar')],
     ['rules.match_*/apply_rule on a graph, then the linear map of the graph'])

prop('C02', 'Simplification strategies preserve the map and terminate',
     'Every simplification strategy (spider/identity/pivot/local-complementation/gadget passes, interior and full Clifford simplification, full reduction, scalar reduction, phase-free simplification, conversion to graph-like form, colour changes to all-Z or mostly-X form) terminates on every ZX-diagram in its domain and returns a diagram with the same linear map including the tracked global scalar, the same inputs and outputs in the same order. The same holds for every intermediate diagram yielded by the step-by-step versions, and when the strategy is restricted to some vertices and edges; then connected components without any of them stay as they are.',
     ['inputs', 'histories'], 'All diagrams and circuits, all strategies, all restrictions to a subset of the vertices.',
     'Tests run the strategies on a handful of seeded random circuits, compare up to scalar, and never on arbitrary non-circuit diagrams, scalar diagrams or restricted subsets.',
     ['pyzx/simplify.py', 'pyzx/rules.py', 'pyzx/graph/base.py'],
     [('fix-point loops over matches', 'pyzx/simplify.py simp'), ('strategy combinators', 'pyzx/simplify.py full_reduce, clifford_simp, reduce_scalar, *_iter'),
      ('graph-like conversion', 'pyzx/simplify.py to_graph_like, to_gh, to_rg')],
     observe=['zx.simplify.<strategy>(g), then the linear map of g'])

prop('C03', 'Simplification reaches the advertised normal form',
     'After the reduction strategies finish, the advertised structural form holds: interior Clifford simplification leaves a graph-like diagram with no interior proper Clifford spider and no two adjacent interior Pauli spiders; full reduction additionally leaves every interior Pauli spider (with a leg, and not next to a spider with several inputs/outputs) as the hub of a phase gadget, with no two gadgets on the same targets, and is idempotent in size; a Clifford diagram without inputs and outputs reduces to just its number (at most spiders without legs remain). The Clifford normal form of a Clifford circuit consists of exactly the documented layers (Hadamards, phases, CZs, a parity layer from Z to X spiders, Hadamards, CZs, phases, Hadamards). Graph-likeness tests and conversions agree with the definition: only Z spiders, joined by Hadamard edges without loops, and in strict form one distinct spider per input or output.',
     ['inputs'], 'All diagrams.',
     'No test inspects the structure of the reduced diagram beyond sizes on one or two circuits; the claim is about every input.',
     ['pyzx/simplify.py', 'pyzx/rules.py', 'pyzx/extract.py'],
     [('strategy loops run until no rule matches', 'pyzx/simplify.py'), ('graph-like predicate', 'pyzx/simplify.py is_graph_like'),
      ('Clifford normal form', 'pyzx/simplify.py to_clifford_normal_form_graph')],
     observe=['structure of g after full_reduce / interior_clifford_simp / to_graph_like'])

prop('C04', 'Phase teleportation keeps structure and meaning, never adds T gates',
     'Phase teleportation returns a diagram with exactly the same spiders and connections as its input in which only phases differ, representing the same linear map up to a global scalar, with no more non-Clifford phases than the input (and, for circuits, no more than full reduction of the same diagram leaves). Turning the result of a circuit back into a circuit gives a circuit with the same unitary and no higher T-count.',
     ['inputs', 'programs'], 'All circuits and graph diagrams.',
     'Phase teleportation tracks phase identities through an arbitrary sequence of fusions and sign flips; tests cover a few seeded circuits.',
     ['pyzx/simplify.py', 'pyzx/graph/base.py', 'pyzx/rules.py'],
     [('phase tracking', 'pyzx/graph/base.py fuse_phases, phase_negate, update_phase_index'), ('Simplifier', 'pyzx/simplify.py Simplifier.fuse_phases'),
      ('T count', 'pyzx/simplify.py tcount, pyzx/circuit/__init__.py tcount')],
     [('phase_index / phase_mult', 'which original phase a vertex carries, with sign', 'BaseGraph')],
     ['zx.simplify.teleport_reduce(g)'])

prop('C05', 'Interactive rewrites: an accepted rewrite preserves the diagram',
     'For every diagram and every vertex or pair of vertices, if an interactive rewrite (colour change, strong complementarity, pi-commutation, state copy, fusion including Z-boxes and W nodes, identity removal) reports that it applies then performing it keeps the linear map (including the global scalar wherever the rewrite tracks it), and if it reports that it does not apply then attempting it returns false and leaves the diagram untouched. The same holds for each operation offered by the diagram editor applied to any selection it matches, and asking whether a rewrite applies never changes the diagram. (The backend without parallel edges may refuse a rewrite whose result it cannot hold.)',
     ['inputs', 'histories'], 'All diagrams, all vertices / pairs / selections, all sequences of interactive rewrites.',
     'Tests apply each basic rewrite to one or two fixed diagrams; the editor operations have no tests at all.',
     ['pyzx/basicrules.py', 'pyzx/editor_actions.py', 'pyzx/rules.py'],
     [('applicability checks', 'pyzx/basicrules.py check_*'), ('rewrites', 'pyzx/basicrules.py'), ('editor operations', 'pyzx/editor_actions.py')],
     observe=['check_X(g,...) / X(g,...) results and the linear map of g', 'operations dictionary of the editor'])

prop('C06', 'H-box (ZH) rewrites and simplification preserve the diagram',
     'Every ZH rewrite (Hadamard H-box to edge, H-box fusion, copying states through spiders and H-boxes, removing NOTs between and fusing parallel H-boxes, introduction of parallel H-boxes, zero H-box absorption, hyper-pivoting), the ZH simplification strategies built on them, and the conversions between phase gadgets, H-boxes and ordinary ZX form keep the linear map of every diagram they are applied to, up to the global scalar they document to ignore, and terminate. The conversion to hypergraph form leaves only phase-free Z-spiders and H-boxes, with no two H-boxes adjacent and no Hadamard edge between two of its vertices. (The backend without parallel edges may refuse a result it cannot hold.)',
     ['inputs', 'histories'], 'All ZH-diagrams, all matches, all strategies.',
     'Tests simplify a few fixed circuits with Toffoli-like gates.',
     ['pyzx/hrules.py', 'pyzx/hsimplify.py'],
     [('matchers and rewrites', 'pyzx/hrules.py'), ('strategies and conversions', 'pyzx/hsimplify.py')],
     observe=['hsimplify.*(g), then the linear map of g'])

prop('C07', 'Every gate is translated to a diagram with its standard matrix',
     'For every supported gate, every choice of parameter, number of qubits and position of its (distinct) control and target qubits, the diagram of a circuit containing it is the standard matrix of that gate, with correct placement and order of wires; so the diagram and matrix of a whole circuit are the products of its gate matrices in order. This holds for gates with classical parameters or symbolic phases after substituting values, for state preparation, post-selection, discarding and measurement reading a qubit, and with every graph backend and compression option.',
     ['inputs', 'programs'], 'All gates, all parameters, all qubit positions, all gate sequences.',
     'Tests compare a few gates against each other; most gates, qubit orders and sequences mixing gates are never evaluated against an independent matrix.',
     ['pyzx/circuit/gates.py', 'pyzx/circuit/graphparser.py', 'pyzx/circuit/__init__.py', 'pyzx/tensor.py'],
     [('per-gate expansion', 'pyzx/circuit/gates.py to_graph/to_basic_gates'), ('circuit to graph', 'pyzx/circuit/graphparser.py circuit_to_graph')],
     observe=['Circuit.to_graph(), Circuit.to_matrix()'])

prop('C08', 'Circuit algebra: adjoint, composition, tensor, gate rewriting',
     'Adjoint of a circuit is its inverse unitary; composing, adding a circuit onto chosen qubits (with any qubit mapping), tensoring and prepending gates produce exactly the corresponding matrix operations; expanding into basic gates and splitting phases keep the unitary. None of these operations changes the circuits it reads from, copies never share gates with the original, equal circuits have equal matrices, and reported statistics (gate counts, two-qubit and T counts, depth) agree with counting over the expanded gate list.',
     ['programs', 'histories'], 'All circuits over the full gate set, all qubit mappings, all sequences of operations.',
     'Tests compose one or two circuits; adjoints and re-positioning of most gates are untested.',
     ['pyzx/circuit/__init__.py', 'pyzx/circuit/gates.py'],
     [('adjoint/reposition/copy', 'pyzx/circuit/gates.py'), ('circuit operators', 'pyzx/circuit/__init__.py'), ('statistics', 'pyzx/circuit/__init__.py stats_dict, depth, tcount')],
     observe=['Circuit operators and statistics'])

prop('C09', 'Circuit file formats round-trip to the same unitary',
     'Writing any circuit in a supported textual format (OpenQASM, QC, Quipper, and their basic-gate variants) and reading the text back yields a circuit on the same number of qubits with the same unitary (up to a global phase, and to the decimal precision the format prints), whatever gates and qubit positions it contains, or the writer refuses; the format auto-detection picks the right reader; reading is independent of what was read before.',
     ['programs', 'histories'], 'All circuits over the gate set, all formats, all sequences of files read by one process.',
     'Tests round-trip a few files; they do not enumerate gate kinds, parameters and orders per format.',
     ['pyzx/circuit/__init__.py', 'pyzx/circuit/gates.py', 'pyzx/circuit/qasmparser.py', 'pyzx/circuit/qcparser.py', 'pyzx/circuit/quipperparser.py', 'pyzx/circuit/qsimparser.py'],
     [('writers', 'pyzx/circuit/gates.py to_qasm/to_qc/to_quipper'), ('readers', 'pyzx/circuit/*parser.py'), ('auto-detection', 'pyzx/circuit/__init__.py load')],
     observe=['Circuit.to_qasm/from_qasm, to_qc/from_qc, to_quipper/from_quipper, Circuit.load'])

prop('C10', 'OpenQASM programs are read with their specified meaning',
     'For every OpenQASM 2 or 3 program in the supported subset (several registers, register-wide gate application, indices, angle expressions, user-defined gates calling each other, comments and layout, both header versions, measurement, barriers) the circuit that is read has the unitary the language assigns to the program, and invalid references are rejected rather than misread. Reading one program never affects how later programs are read.',
     ['programs', 'histories'], 'All programs in the supported subset, all orders of reading several programs.',
     'Tests parse a fixed list of small programs.',
     ['pyzx/circuit/qasmparser.py', 'pyzx/circuit/gates.py'],
     [('statement parser', 'pyzx/circuit/qasmparser.py parse, parse_command'), ('angle parser', 'pyzx/circuit/qasmparser.py parse_phase_arg'), ('gate table', 'pyzx/circuit/gates.py qasm_gate_table')],
     [('registers / customgates / version', 'parser state while reading one file', 'QASMParser')],
     ['Circuit.from_qasm(text)'])

prop('C11', 'Circuit extraction returns a circuit for the same unitary',
     'For every diagram obtained from a circuit by a simplification strategy, circuit extraction succeeds and returns a circuit, in the promised gate set, whose unitary equals the map of the diagram up to a global scalar, under every combination of options (CZ and CNOT optimisation levels, extraction up to an output permutation, the look-ahead and greedy strategies, Clifford normal form extraction, simple extraction of circuit-like diagrams), with qubits in input/output order.',
     ['programs', 'configurations'], 'All circuits, all simplification strategies before extraction, all option combinations.',
     'Tests extract a few seeded random circuits with default options.',
     ['pyzx/extract.py', 'pyzx/linalg.py', 'pyzx/simplify.py', 'pyzx/circuit/graphparser.py'],
     [('frontier extraction', 'pyzx/extract.py extract_circuit'), ('CNOT / CZ reduction', 'pyzx/extract.py cz_saving_matching, greedy_reduction, column_optimal_swap, linalg'),
      ('look-ahead', 'pyzx/extract.py lookahead_extract'), ('permutation', 'pyzx/extract.py graph_to_swaps')],
     [('frontier, neighbour set', 'the unextracted spiders adjacent to the extracted part', 'extract.py')],
     ['zx.extract_circuit(g, ...)'])

prop('C12', 'Circuit-like diagrams are read back as the same circuit',
     'For every circuit, converting it to a diagram and reading the diagram back as a circuit (with either phase-splitting option, after teleportation or any rewrite that keeps it circuit-like, and for hand-built circuit-like diagrams with any row numbering) yields a circuit with the same unitary up to global scalar and the same number of qubits; diagrams with wires that cross between lines and rows, or with vertical connections that are not a gate, are refused with an error.',
     ['programs'], 'All circuits and circuit-like diagrams.',
     'Tests read back a few random Clifford+T circuits.',
     ['pyzx/circuit/graphparser.py', 'pyzx/circuit/__init__.py', 'pyzx/extract.py'],
     [('row-by-row reader', 'pyzx/circuit/graphparser.py graph_to_circuit'), ('simple extraction', 'pyzx/extract.py extract_simple')],
     observe=['Circuit.from_graph(g), extract_simple(g)'])

prop('C13', 'Circuit optimisation preserves the unitary and never adds T gates',
     'Every circuit-level optimisation (basic gate cancellation and commutation with or without swaps, phase-block optimisation, full optimisation, the combined pipeline) applied to any circuit over its documented gate set terminates, leaves the input circuit object unchanged, and returns a circuit on the same qubits with the same unitary up to global phase, whose T-count (and for basic optimisation without swaps, two-qubit gate count) is not larger than that of its input; gates outside that set are refused.',
     ['programs', 'configurations'], 'All circuits, all options.',
     'Cancellation depends on every gate that may sit between two cancelling gates; tests optimise a few seeded circuits.',
     ['pyzx/optimize.py', 'pyzx/todd.py', 'pyzx/extract.py'],
     [('gate commutation and cancellation', 'pyzx/optimize.py Optimizer'), ('phase-block optimisation', 'pyzx/optimize.py phase_block_optimize, full_optimize')],
     [('available gates per qubit', 'gates that can still be commuted through, per qubit', 'Optimizer')],
     ['zx.basic_optimization(c), zx.full_optimize(c), zx.optimize.phase_block_optimize(c)'])

prop('C14', 'Phase-polynomial (TODD) optimisation keeps the phase polynomial',
     'Third-order duplicate-and-destroy optimisation of any set of weighted parities returns an equivalent set: applied to the phases of a CNOT+phase circuit together with the Clifford correction it reports, the diagonal unitary is unchanged up to global phase, with never more odd-weight (T) parities than before; synthesis of a set of parities with a final linear map implements exactly those phases and that map. This holds for every order in which the search explores candidates.',
     ['inputs', 'schedules'], 'All parity sets with all phases that are multiples of pi/4, all search orders.',
     'The search is randomised; tests run one circuit with a fixed seed.',
     ['pyzx/todd.py', 'pyzx/parity_network.py'],
     [('signature tensor and null-space search', 'pyzx/todd.py do_todd_single, todd_iter'), ('Clifford correction', 'pyzx/todd.py ParityPolynomial/MultiLinearPoly'), ('parity network synthesis', 'pyzx/parity_network.py')],
     observe=['zx.todd.todd_simp / todd_on_graph / phase-block optimisation'])

prop('C15', 'Equality checks are sound and complete on small circuits',
     'Two circuits are reported equal only if their unitaries agree (up to a global phase, and up to swaps only when asked), and reported unequal or undecided otherwise; circuits that differ by a provably trivial change (inserting a gate and its inverse, rewriting, optimising) and whose difference simplifies away are reported equal. Tensor comparison says equal exactly when the tensors are equal up to a non-zero factor (or exactly, when the scalar is to be preserved), the unitarity test is true exactly for unitaries up to a number, and the scalar correction is the actual factor.',
     ['programs'], 'All pairs of circuits and of diagrams.',
     'Tests check a few equal pairs and hardly any unequal pair; a checker that says equal too often would pass most other tests too.',
     ['pyzx/circuit/__init__.py', 'pyzx/tensor.py', 'pyzx/graph/base.py'],
     [('compose with adjoint and reduce', 'pyzx/circuit/__init__.py verify_equality'), ('tensor comparison', 'pyzx/tensor.py compare_tensors, is_unitary, find_scalar_correction'), ('identity test', 'pyzx/graph/base.py is_id')],
     observe=['Circuit.verify_equality, zx.compare_tensors, zx.tensor.is_unitary'])

prop('C16', 'Generalised flow is found exactly when it exists',
     'For every graph-like diagram (in which no wire joins two inputs) the flow finder returns a generalised flow exactly when one exists for all-XY measurements with the given inputs and outputs, and what it returns satisfies every defining condition (correction sets avoid inputs, odd neighbourhoods stay in the future, the vertex itself is in its odd neighbourhood, layers are consistent).',
     ['inputs'], 'All open graphs.',
     'Existence over all orders and correction sets is a global condition; tests use one or two graphs.',
     ['pyzx/gflow.py', 'pyzx/linalg.py'],
     [('layer-by-layer linear systems over GF(2)', 'pyzx/gflow.py gflow')],
     observe=['zx.gflow.gflow(g)'])

prop('C17', 'Graph backends behave like a labelled multigraph under any edits',
     'After any sequence of edits (adding and removing vertices and edges, indexed insertion, changing types, phases, edge types, positions, inputs and outputs, vertex data, grounds), every query of the graph (vertices, edges, counts, neighbours, degrees, incident edges, connectivity, types, phases, rows, depth, next index) agrees with a plain reference model, edges are symmetric, phases are reduced modulo 2 pi, and removed vertices leave nothing behind. When adding an edge in parallel to an existing one, the represented linear map including the scalar is that of the diagram with both edges, or the addition is refused.',
     ['histories'], 'All sequences of operations, for each backend, with and without automatic simplification of parallel edges.',
     'Tests check single operations on one small graph.',
     ['pyzx/graph/graph_s.py', 'pyzx/graph/multigraph.py', 'pyzx/graph/base.py'],
     [('adjacency dictionaries', 'pyzx/graph/graph_s.py'), ('edge multiplicities', 'pyzx/graph/multigraph.py Edge'), ('parallel edge resolution', 'add_edge, add_edge_table')],
     [('graph, ty, _phase, _vindex, nedges', 'backend storage', 'GraphS/Multigraph')],
     ['public graph interface'])

prop('C18', 'Copying, composing and slicing diagrams is exact and independent',
     'Copies, clones and adjoints of a diagram represent the same map (adjoints the conjugate transpose) with the same scalar and attributes; sequential and parallel composition, plugging states and effects, merging, taking subgraphs, renumbering rows, normalising and detecting inputs and outputs produce exactly the corresponding combination of maps and scalars, including wires that connect boundaries directly. The result never shares mutable state with its arguments: editing one afterwards does not change the other, and the arguments are not modified. (The backend without parallel edges may refuse a composition that needs parallel edges it cannot hold.)',
     ['inputs', 'histories'], 'All pairs of diagrams (any vertex types, discards, vertex data), all backends, all edits after the operation.',
     'Tests compose circuits only, look at tensors up to scalar, and never edit a copy to see whether the original changes.',
     ['pyzx/graph/base.py', 'pyzx/graph/graph_s.py', 'pyzx/graph/multigraph.py'],
     [('copy/adjoint', 'pyzx/graph/base.py copy'), ('compose/tensor/merge', 'pyzx/graph/base.py'), ('clone', 'graph_s.py, multigraph.py')],
     observe=['g.copy, g.clone, g.adjoint, g+h, g*h, g@h, g.apply_state, g.merge, g.subgraph_from_vertices, g.normalize, g.auto_detect_io'])

prop('C19', 'Saving a diagram as JSON and loading it restores it',
     'Writing any diagram to JSON and reading it back gives a diagram with the same linear map including the scalar, the same inputs and outputs in order, the same vertex types, phases (including symbolic phases and H-box and Z-box labels), edge types and multiplicities, positions (to three digits), discards and JSON-representable vertex data, with any supported backend; loading never depends on the order of entries and does not modify the diagram saved. The GraphML export lists exactly the vertices and edges of the diagram.',
     ['inputs'], 'All diagrams, all backends.',
     'Tests round-trip one or two circuits.',
     ['pyzx/graph/jsonparser.py', 'pyzx/graph/scalar.py', 'pyzx/io.py'],
     [('writer and reader', 'pyzx/graph/jsonparser.py'), ('scalar serialisation', 'pyzx/graph/scalar.py to_json/from_json')],
     observe=['g.to_json(), Graph.from_json()'])

prop('C20', 'TikZ export and import restore the diagram',
     'Exporting any diagram (rational phases, no discards) to TikZ and importing the text gives back a diagram with the same linear map up to the global scalar once inputs and outputs (which a picture does not record) are put back, the same spiders, phases, labels and connections (a Hadamard edge may come back as a Hadamard box), and positions that match up to the drawing scale; sequences of diagrams and circuits export without loss, and malformed input is refused.',
     ['inputs'], 'All diagrams.',
     'Tests round-trip a few fixed diagrams.',
     ['pyzx/tikz.py'],
     [('writer', 'pyzx/tikz.py to_tikz'), ('reader', 'pyzx/tikz.py tikz_to_graph')],
     observe=['g.to_tikz(), zx.tikz.tikz_to_graph()'])

prop('C21', 'Graph diffs and editor undo restore states exactly',
     'For any two diagrams that share vertex names, the difference computed from the first to the second, applied to the first, gives a diagram identical to the second (vertices, types, phases, edges and their types, positions, data, variables; the global scalar, inputs, outputs and discards are not part of a difference), also after the difference has been written to JSON and read back, and applying it does not modify its source. Consequently undoing and redoing any sequence of edits in the editor returns exactly through the earlier states.',
     ['histories'], 'All edit sequences and all pairs of diagrams.',
     'There are almost no tests of differences; undo is a statement about all edit histories.',
     ['pyzx/graph/diff.py', 'pyzx/editor.py'],
     [('calculate_diff / apply_diff', 'pyzx/graph/diff.py'), ('undo stack', 'pyzx/editor.py')],
     [('new/removed vertices and edges, changed attributes', 'the recorded difference', 'GraphDiff')],
     ['GraphDiff(g1,g2).apply_diff(g1)'])

prop('C22', 'Tensor evaluation gives the linear map of any diagram',
     'Evaluating a diagram to a tensor or matrix gives exactly the linear map it stands for, with indices in input/output order and the scalar applied when asked (and up to a positive factor otherwise), for every diagram: any vertex types and arities (including isolated vertices), phases, labels, row layouts, vertex numbering, wires directly between boundaries. The tensor helpers for composition and adjoint agree with matrix product and conjugate transpose, and conversion to an external tensor network contracts to the same value. Diagrams that have no such map (discards, symbolic phases, unset inputs and outputs) are refused.',
     ['inputs'], 'All diagrams, all row layouts.',
     'Tensor evaluation is the oracle the tests themselves use; nothing independent checks it, least of all on unusual layouts and vertex types.',
     ['pyzx/tensor.py', 'pyzx/quimb.py'],
     [('row-ordered contraction', 'pyzx/tensor.py tensorfy, pop_and_shift'), ('vertex tensors', 'pyzx/tensor.py *_to_tensor'), ('quimb export', 'pyzx/quimb.py')],
     observe=['g.to_tensor(), g.to_matrix(), zx.quimb.to_quimb_tensor(g)'])

prop('C23', 'The global scalar is an exact number under all operations',
     'After any sequence of operations on a global scalar (multiplying by powers of root two, phases, solitary spiders, pairs of connected spiders, complex factors or other scalars, conjugating, copying, saving and loading) its value equals the product of the corresponding complex numbers, zero is recognised exactly when a factor is zero, and copies are independent. Text renderings describe that same value.',
     ['histories', 'inputs'], 'All sequences of operations and all phases.',
     'Most formulas (pairs of spiders with special phases) have no direct test and errors cancel in comparisons up to scalar.',
     ['pyzx/graph/scalar.py'],
     [('closed formulas per special phase', 'pyzx/graph/scalar.py add_spider_pair, add_node'), ('serialisation', 'pyzx/graph/scalar.py to_json/from_json')],
     observe=['Scalar methods, to_number()'])

prop('C24', 'Binary linear algebra returns correct results for every matrix',
     'For every binary matrix with at least one row and column, elimination yields a (reduced) echelon form of the same row space with the right rank, and the recorded row or column operations turn the input into the output; inverses exist exactly for invertible matrices and multiply to the identity; null spaces are bases of the kernel and solutions solve the system exactly when it is solvable; CNOT circuits synthesised from an invertible matrix (with any optimisation option or block size) implement that matrix (as row operations that reduce it to the identity).',
     ['inputs', 'configurations'], 'All binary matrices, all options and block sizes.',
     'Tests use a few random matrices of fixed size.',
     ['pyzx/linalg.py'],
     [('block elimination', 'pyzx/linalg.py Mat2.gauss'), ('inverse, null space, solve', 'pyzx/linalg.py'), ('CNOT synthesis', 'pyzx/linalg.py to_cnots, greedy')],
     observe=['Mat2 methods'])

prop('C25', 'Symbolic phases compute like the numbers they stand for',
     'Symbolic phase expressions form a commutative ring: sums, differences, products, scalar multiples, powers, substitution, reduction of Boolean variables, equality, hashing, printing and parsing agree (as phases, that is modulo 2) with evaluating the expressions at any assignment of values to the variables; division is by numbers and negative powers are of monomials of continuous variables only. Every rewrite, simplification and extraction applied to a diagram with symbolic phases gives, after substituting any values, the same linear map as substituting first.',
     ['inputs', 'programs'], 'All expressions up to size bounds, all assignments, all diagrams with symbolic phases.',
     'Tests check a few identities; commutation of simplification with substitution is not tested.',
     ['pyzx/symbolic.py', 'pyzx/rules.py', 'pyzx/graph/base.py'],
     [('polynomial normal form', 'pyzx/symbolic.py Poly, Term'), ('parser', 'pyzx/symbolic.py parse'), ('phase predicates on symbolic phases', 'pyzx/symbolic.py is_pauli, is_clifford')],
     observe=['Poly operators, zx.symbolic.parse, full_reduce on symbolic diagrams'])

prop('C26', 'CNOT routing obeys the architecture and keeps the linear map',
     'For every connected architecture and every invertible linear map (CNOT circuit), architecture-aware synthesis (recursive and plain Steiner elimination, elimination up to permutation, and CNOT mapping with every mode) uses CNOTs only between neighbouring qubits and implements the requested linear map, after the permutations it reports. The recorded operations, the transformed matrix and the returned circuit agree with each other. (Placements in which some qubit other than the last has no neighbour with a larger number may be refused with an error.)',
     ['inputs', 'configurations'], 'All architectures and all invertible maps up to the bound, all modes.',
     'Tests route a few random circuits on fixed architectures.',
     ['pyzx/routing/steiner.py', 'pyzx/routing/cnot_mapper.py', 'pyzx/routing/parity_maps.py', 'pyzx/routing/architecture.py', 'pyzx/linalg.py'],
     [('Steiner-tree elimination', 'pyzx/routing/steiner.py'), ('mapper', 'pyzx/routing/cnot_mapper.py'), ('matrix tracker', 'pyzx/routing/parity_maps.py CNOT_tracker')],
     observe=['routing.gauss, rec_steiner_gauss, sequential_gauss, CNOT_tracker'])

prop('C27', 'Phase-polynomial routing obeys the architecture and keeps the unitary',
     'For every phase-polynomial circuit (CNOT and Z-phase gates; others are refused) and connected architecture, routing with every method, root heuristic and split heuristic returns a circuit whose CNOTs join neighbouring qubits only and whose unitary equals the original up to global phase, after the qubit permutations it reports.',
     ['inputs', 'configurations'], 'All phase polynomials and architectures up to the bound, all methods and heuristics.',
     'Tests route a few seeded polynomials with a couple of methods.',
     ['pyzx/routing/phase_poly.py', 'pyzx/routing/parity_maps.py', 'pyzx/routing/architecture.py'],
     [('parity partition and synthesis', 'pyzx/routing/phase_poly.py'), ('heuristics', 'pyzx/routing/phase_poly.py RootHeuristic, SplitHeuristic')],
     observe=['routing.route_phase_poly'])

prop('C28', 'Architecture queries describe the coupling graph',
     'For every connected architecture, however it was created, the queries used for routing are right: distances are shortest-path lengths and reported paths are shortest paths of existing couplings, Steiner trees span the requested qubits within the allowed region (and are refused exactly when these cannot be joined there), cut vertices are exactly those whose removal disconnects, the placements of the Hamiltonian-path architectures visit all qubits once along couplings, elimination orders are permutations that never disconnect the remaining qubits, and the named architectures have the stated number of qubits and the published couplings.',
     ['inputs', 'configurations'], 'All coupling graphs up to the bound and all named architectures.',
     'Tests query a few named architectures.',
     ['pyzx/routing/architecture.py'],
     [('distance tables', 'pyzx/routing/architecture.py Architecture'), ('Steiner trees', 'steiner_tree, rec_steiner_tree'), ('cut vertices', 'non_cutting_vertices')],
     observe=['Architecture methods, create_architecture'])

prop('C29', 'Strong simulation: decompositions sum to the original diagram',
     'Every stabiliser decomposition step replaces a graph-like Clifford+T diagram by a finite sum of diagrams whose values add up to the original value, for every choice of spiders to replace; iterating to the end gives the exact amplitude, and computed probabilities and sums over paths equal the true values. Operations on sums of diagrams (reducing, plugging states and effects, converting to a tensor) act on every term and preserve the sum, and sampling draws each outcome with its probability conditional on the earlier ones when the norm estimate is exact.',
     ['inputs', 'histories'], 'All Clifford+T scalar diagrams up to the bound, all choices of spiders to decompose.',
     'Tests evaluate one or two diagrams.',
     ['pyzx/simulate.py'],
     [('replacement formulas', 'pyzx/simulate.py replace_magic_states, replace_1_1..., find_stabilizer_decomp'), ('sums of graphs', 'pyzx/simulate.py SumGraph'), ('path sums', 'pyzx/simulate.py calculate_path_sum')],
     observe=['zx.simulate.*'])

prop('C30', 'Local-search moves preserve the map for every random choice',
     'Every congruence move of the local search (local complementation, pivoting, unfusing) maps a graph-like diagram to one with the same linear map up to scalar, for every vertex or edge it may pick, and leaves it alone when there is none. Simulated annealing and the genetic search return, for every outcome of their random choices, the best diagram they have seen by their own score (so never one worse than the input), it represents the map of the input up to scalar and a circuit can be extracted from it after full reduction, the scores they report are those of the diagrams, and the input is not changed.',
     ['inputs', 'schedules'], 'All diagrams, all random choices.',
     'The searches are randomised; tests run one seed.',
     ['pyzx/local_search/congruences.py', 'pyzx/local_search/simulated_annealing.py', 'pyzx/local_search/genetic.py', 'pyzx/local_search/scores.py'],
     [('congruences', 'pyzx/local_search/congruences.py'), ('annealing', 'pyzx/local_search/simulated_annealing.py'), ('genetic search', 'pyzx/local_search/genetic.py')],
     observe=['local_search.congruences.*, anneal, GeneticOptimizer'])

prop('C31', 'Generated circuits and diagrams are what was asked for',
     'Every generator (identity, CNOT, Clifford, Clifford+T with or without measurements, CNOT-Hadamard-phase, phase-polynomial, random parity map, single spider, identity-circuit families) returns, for every size and every outcome of its random choices, a well-formed object with the requested number of qubits and gates, using only the advertised gate set and phases, each gate with the stated probability and place, and representing the product of those gates. Cluster states are the graph states of their grid with the given inputs, and measuring a position or applying a Pauli to it gives the projected or corrected state up to scalar, with impossible requests refused.',
     ['inputs', 'schedules'], 'All sizes up to the bound and all random choices.',
     'Tests use a few seeds as a source of inputs and never check the generator itself.',
     ['pyzx/generate.py', 'pyzx/mbqc.py'],
     [('generators', 'pyzx/generate.py'), ('measurement patterns', 'pyzx/mbqc.py')],
     observe=['zx.generate.*'])

prop('C32', 'The command-line tools do what they say, on files',
     'python -m pyzx opt, for every readable circuit file (QASM, QC, Quipper), simplifier (-g full, cliff, tele), -p, -v, output type (-t) and destination (-d), writes exactly one file, at the documented place, in the requested format (default: that of the input), whose circuit has the same number of qubits and the same unitary up to global phase. tikz writes one file showing the same linear map. cnots and phasepoly write exactly the requested tree of QASM files, each with the requested number of qubits and of CNOT gates or phase gadgets. A request that cannot be met (missing file, unknown type or option, inexpressible circuit) writes and changes no file and ends with a message, an error or a non-zero exit status. Commands can be run any number of times.',
     ['inputs', 'programs'], 'All circuit files, options and option combinations.',
     'No test runs the command-line tools.',
     ['pyzx/scripts/', 'pyzx/__main__.py', 'pyzx/circuit/__init__.py'],
     [('opt', 'pyzx/scripts/circ2circ.py'), ('tikz', 'pyzx/scripts/circ2tikz.py'), ('cnots', 'pyzx/scripts/cnot_generator.py'), ('phasepoly', 'pyzx/scripts/phase_poly_generator.py'), ('dispatch', 'pyzx/scripts/__init__.py main')],
     observe=['python -m pyzx opt|tikz|cnots|phasepoly'])

prop('C33', 'Spider QASM programs denote the diagram that is plugged together',
     'zx.sqasm(program) returns a diagram whose linear map, scalar included, is that of the QASM program with, for every register whose name starts with a capital letter, normalised spiders plugged in: at the inputs for names starting with A, at the outputs for names starting with Z, at both for any other capital letter; the colour of a plugged spider is that of the first (at an output: last) spider on that qubit (a Hadamard counts as a Z-spider, and an empty wire gets a Z-spider). Remaining inputs and outputs keep the order of the registers. By default the result is simplified: no two spiders of one colour joined by a plain edge and no phaseless two-legged spider is left; simplify=False only plugs. The simple graph backend may refuse a fused diagram with parallel edges at an H-box with a ValueError.',
     ['inputs', 'programs'], 'All programs and kinds of registers.',
     'sqasm has no tests beyond a few examples.',
     ['pyzx/circuit/sqasm.py', 'pyzx/circuit/qasmparser.py', 'pyzx/simplify.py'],
     [('sqasm', 'pyzx/circuit/sqasm.py sqasm')],
     observe=['zx.sqasm(program)'])

prop('C34', 'What is shown is what is there: numbers, matrices and pictures',
     'The LaTeX text of a complex number (pretty_complex) denotes that number, up to the two decimals it is given with (or 1e-4), and matrix_to_latex of a matrix of any shape the matrix, its printed common factor included. zx.draw leaves the diagram or circuit alone and draws exactly its vertices and edges, for both backends (d3 and matplotlib), both graph backends and all options: every vertex once, at its place up to one common scale, inside of the picture, with the shape of its kind, its phase (modulo 2 pi; nothing for the usual phase) or label, its ground and its chosen data; every edge once between its ends with its type (parallel edges told apart for d3), names and scalar exactly if asked for, and only the chosen rows. The d3 data are valid JavaScript and JSON. pack_circuit_nf and arrange_scalar_diagram only move vertices.',
     ['inputs'], 'All numbers, matrices, diagrams and options.',
     'Drawing has no tests.',
     ['pyzx/drawing.py', 'pyzx/utils.py'],
     [('numbers', 'pyzx/drawing.py pretty_complex'), ('matrices', 'pyzx/drawing.py matrix_to_latex'), ('pictures', 'pyzx/drawing.py draw_d3, draw_matplotlib'), ('layouts', 'pyzx/drawing.py pack_circuit_nf, arrange_scalar_diagram')],
     observe=['zx.draw(g)', 'zx.drawing.matrix_to_latex(m)'])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
