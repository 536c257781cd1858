#!/usr/bin/env python3
"""Writes DESIGN.md: fixed texts (here), plus the numbers of the last runs, the repaired defects and the planted bugs."""
import json, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

HEAD = '''# Model checking pyzx

## Approach
The library is sequential Python whose guarantees quantify over *inputs* (diagrams, circuits, matrices, architectures,
texts), over *histories* (sequences of edits, rewrites or operations) and over *outcomes of internal random choices*. All
three are explored as state spaces by explicit, complete enumeration within bounds, executing the real code in /repo on every element
and comparing the result with an independent reference model. No sampling decides anything and no solver is used; what is
outside the stated bounds is not claimed.

* **Inputs** are enumerated up to isomorphism: `lib/diag.py` produces every typed multigraph on *n* spiders with the given
  spider kinds, edge types (none / plain / Hadamard / both / double) and boundary attachments, one representative per
  isomorphism class of coloured graphs; `lib/circ.py` produces every gate sequence over an alphabet (gates x placements x
  parameters) modulo exchange of neighbouring gates on disjoint qubits.
* **Histories** are explored breadth- or depth-first from an initial state with states identified by a canonical dump of
  the object (rewrite sequences in C01, edits in C17, operations on scalars in C23, editor sessions in C21, search steps in C30 ...).
* **Random choices** (`lib/choice.py`): while a program runs, `random` and `numpy.random` are replaced by a controlled scheduler;
  each draw is a nondeterministic choice point and depth-first search replays the program for every sequence of outcomes
  (real-valued draws: one representative for each interval that the code can tell apart, named in each check).
* **Oracles** share no code with pyzx: `lib/ref.py` contracts a diagram from the definition of its spiders (with a doubled
  version for discards), `lib/circ.py` has every gate matrix by definition, and single checks carry their own models (labelled
  multigraph for C17, breadth-first search for C28, bit vectors for C24, polynomials for C25, grammar with a denotation for C10, ...).
  Numerical comparison uses a relative tolerance of 1e-6 or 1e-7, far below the difference between distinct values here
  (phases are multiples of pi/4 or the like).
* Small sizes miss bugs that need arity, so each check also has *wide* families: parametric diagrams, circuits or
  matrices (stars, ladders, complete graphs, chains, block matrices) over every combination of their parameters. Code that
  only acts above a size threshold (a bound in a loop, a second block, a second pass) is reached by the `layers`, `big` and `mixed`
  families of `lib/big.py`: every sequence of whole *layers* over a menu (a gate on every qubit, CNOT/CZ/CCZ in nine arrangements,
  permutations), which enumerates a small alphabet but makes circuits of dozens of gates.

`./check Cxx [--tier quick|thorough] [--family F] [--replay FILE]` runs one check; `lib/core.py` distributes chunks of the
enumeration over processes, counts states / transitions / executions, writes `evidence/Cxx.json`, stores every violation as a
replayable JSON file (`--replay` re-runs just that case) and reports known findings. Bounds of both tiers are the `tasks()`
function at the end of each `checks/Cxx.py`. Each case runs under a time limit (40 s by default), so that non-termination is
a violation, too.

**Binding.** There is no separate model of the implementation that could drift: all transitions are executions of the code in
/repo (imported from its working tree by every run, no build product involved). "traces_validated_against_impl" in the evidence
therefore counts executions compared with the oracle.

**Refactorings.** Checks judge observable results: linear maps, structures promised by the documentation, values returned, exceptions
where refusal is promised, arguments left unchanged. Private helpers are called only where the property is about them (e.g. the
elimination routines); internals are never compared textually.

**Hooks.** None: no instrumentation was added to /repo.

**Not applicable.** No property is: everything in properties.jsonl is decided by bounded exhaustive exploration. What is left out of the
*properties* (unfinished, marked experimental, or not importable): `altextract`, `gadget_extract`, the igraph/graph-tool/quizx
backends (refused or not complete here), the browser side of the notebook widgets, `pyquil_circuit` and `quantomatic` (external programs), the
`reinforcement learning` part of routing (not importable).

## The properties
For every property: what is enumerated (families in `code`), the oracle, and what it reaches that tests do not.
'''

T = {}
T['C01'] = '''States are diagrams; transitions are rewrites. `graphlike`/`zx`/`multi`: all diagrams of up to 3-4 spiders with Z/X kinds, phases, plain/Hadamard/
parallel edges and all boundary attachments; `gadgets`, `supp`, `bialg`, `zbox`, `w`, `ground`, `phasepoly`, `unspider`: diagrams in the special domains of those
rules; `wide`: stars, ladders and gadgets of larger arity; `bfs`: all rewrite *sequences* breadth-first. Each match is applied alone, and the whole
parallel set together, on both backends. Oracle: contraction with the tracked scalar before and after.'''
T['C02'] = '''All strategies (and their step-by-step versions, every intermediate diagram) on all small graph-like, ZX, multi-edge, phase-free, grounded diagrams, gadget
diagrams, bare wires and circuits; `part` restricts strategies to every subset of vertices, `apart` also checks that components outside it are untouched; `cliffnf` the Clifford normal form. Oracle: contraction with scalar,
input/output order, time limit for termination. `layers`, `wide`, `big`: circuits made of whole layers of gates and parametric families of up to some thirty spiders (see above).'''
T['C03'] = '''Same domains; oracle: structural predicates written from the documentation (no interior proper Clifford spider, Pauli spiders only as gadget hubs, no duplicate
gadgets, scalar diagrams reduce to spiders without legs, idempotence), and an independent definition of graph-likeness compared with the code's predicates on all diagrams
including loops. `cliffnf`: the layer structure documented for the Clifford normal form, on every circuit of Clifford layers; `layers`, `wide`, `big` as in C02.'''
T['C04'] = '''All short circuits (also wrapped so that phases meet across gadgets), graph-like and ZX diagrams. Oracle: same vertices/edges/types, same map up to scalar, T-count not larger than before (and than full
reduction for circuits), read back as a circuit with the same unitary. `blocks`, `layers`, `wide`, `big`: larger circuits made of gadget blocks and of whole layers, so that phases meet across many gadgets. `multi`: circuits, diagrams with parallel edges and loops, and gadgets on the Multigraph backend. `split`, `terms`, `tof`: phases in eighths and thirds of pi, of both signs, split over several spiders together with Clifford phases, so that the bookkeeping of moved phases and their signs is used several times in a row.'''
T['C05'] = '''Every basic rewrite on every vertex / pair of every small diagram of Z, X, Z-box, H-box and W vertices (`basic`, `basicw`, `basicwire`), and every editor operation on every
selection it matches (`editor`, `editorw`). Oracle: map with scalar where tracked, refusal leaves the dump unchanged, checks do not modify. `editorm`, `editorp`: every editor operation on the Multigraph backend, including diagrams with parallel edges and self-loops; every matcher also without a selection.'''
T['C06'] = '''All small ZH diagrams x every matcher (single and parallel), all strategies, conversions; parametric families for parallel H-boxes and hyper-pivots; circuits with CCZ/Toffoli. `mrules`, `multi`: rules and strategies on the Multigraph backend, including parallel edges and self-loops, with and without automatic simplification; a rewrite the simple backend refuses is repeated there.'''
T['C07'] = '''Every gate x parameter grid x placement x backend x option against matrices by definition (exactly for basic gates, up to phase for composite ones); all gate pairs; measurements, ancillas and
discards through the doubled contraction; symbolic parameters after substitution.'''
T['C08'] = '''All gates, all pairs of short circuits under every binary operation and mask, histories of operations interleaved with edits of the results (aliasing), equality against matrices, statistics
recounted from gate lists, gate expressions. `layers`: operations on long circuits of layers.'''
T['C09'] = '''Every gate, parameter and placement written in every format and read again; all short sequences; hand-written texts in each format by an independent writer (`qcread`, `quipread`, `qsim`,
`emoji`); all orders of reading several files.'''
T['C10'] = '''All programs of a bounded grammar (statements x registers x broadcasting x angles x user gates x layout x headers), with a denotational evaluator; malformed programs must be refused; all
orders of reading programs in one process.'''
T['C11'] = '''All short circuits x simplification x extraction options; all extractable diagrams of given shapes; biadjacency matrices and row-operation helpers on all small binary matrices. Oracle: unitary up to
scalar. `flat`, `sums`: biadjacency matrices whose extraction needs sums of several rows; `layers`: long layered circuits.'''
T['C12'] = '''All circuits in all layouts and backends; all hand-built grids of vertices with all row numberings; defective diagrams must be refused with TypeError.'''
T['C13'] = '''All circuits to a depth over basic and extended alphabets x optimisers x options, with every outcome of the random column order of TODD. `layers`, `queue`: whole layers, and sequences that fill and drain the optimisers' queues of waiting gates.'''
T['C14'] = '''All parity matrices with few columns, all phase polynomials on few variables, gate lists, reduced diagrams; every outcome of random choices; oracle: value table of the polynomial, CNOT synthesis simulated.'''
T['C15'] = '''All pairs of small circuits (equal and unequal), gate-and-inverse insertions, all pairs of tensors over a small value set, all small diagrams for the identity and unitarity tests.'''
T['C16'] = '''All open graphs up to isomorphism; the oracle is an explicit-state search over sets of corrected vertices for existence, and the definition for the answer returned.'''
T['C17'] = '''Depth-first exploration of edit sequences on each backend; after each edit every query is compared with a plain labelled multigraph; `pairs`: all parallel-edge additions against the contraction. `batch`: edits of many vertices or edges by one call.'''
T['C18'] = '''All (pairs of) small diagrams under copy, clone, adjoint, compose, tensor, plug, merge, subgraph, normalise, row renumbering, io detection; the result is then edited and the arguments compared (aliasing). `wide`, `wide2`, `wideplug`, `copy`: diagrams of higher arity with many inputs and outputs.'''
T['C19'] = '''All diagrams over all vertex kinds x backends; values (phases, polynomials, labels, positions, data); entry orders; texts from an independent writer; GraphML. `mixed`: diagrams of up to some thirty vertices of all kinds, the kinds running through every rotation.'''
T['C20'] = '''All small diagrams written by pyzx and read by an independent TikZ reader, written by an independent writer and read by pyzx, and round trips; malformed input.'''
T['C21'] = '''All pairs of small diagrams on shared names and all edit kinds; all editor sessions (edits, undo, redo) to a depth with the widget front end replaced by a stand-in. `big`: histories between larger diagrams.'''
T['C22'] = '''All diagrams x row layouts x numbering; high arity, deep diagrams, wires, scalars, tensor helpers, quimb networks. `mixed`: as in C19.'''
T['C23'] = '''All sequences of scalar operations to a depth, all pairs of phases for spider pairs, nodes; symbolic phases; flags; renderings read by an independent reader. Oracle: complex arithmetic.'''
T['C24'] = '''All binary matrices up to 4x4 (and rectangular ones, and parametric larger families) x block sizes x options; oracle: bit vectors.'''
T['C25'] = '''All polynomials from a small term set under all binary/ternary operations against evaluation at every assignment; printed texts read back; rewriting of symbolic diagrams and circuits commutes with
substitution.'''
T['C26'] = '''All connected graphs up to 4 (some 5) vertices and named architectures x all invertible matrices x modes; the permutation searches (genetic, swarm) under every outcome of their random choices. `free`: the eliminations without an architecture.'''
T['C27'] = '''All phase polynomials on up to 3 qubits x architectures x methods x heuristics; the polynomial is evaluated by a table; partitions checked for independence.'''
T['C28'] = '''All connected graphs up to 5 (6) vertices, all placements, regions and target sets; oracle: breadth-first search and brute force; named devices against coupling lists written down independently.'''
T['C29'] = '''All graph-like Clifford+T diagrams to a size x random picks x decompositions; amplitudes; path sums; sums of diagrams under all operations; sampling with every draw. `big`, `layers`: diagrams with many T spiders. `on`: the same families on the Multigraph backend.'''
T['C30'] = '''Every congruence at every place of all small graph-like diagrams and of wide ones; annealing and the genetic search on circuits under every outcome of their random choices (real draws at 0 and just below 1), with the
default and with an arbitrary score; the search skeleton with abstract candidates (all outcome sequences); selection on all score vectors. `on`: the same families on the Multigraph backend.'''
T['C31'] = '''Every outcome of every random choice of every generator for small sizes: results compared as *distributions* with all gate sequences; every sequence of measurements and corrections on small cluster states.'''
T['C32'] = '''Every small circuit file in three formats (independent writers) x every combination of options, run in a scratch folder in this process and as separate processes; files before and after are compared and
the result is interpreted by independent readers.'''
T['C33'] = '''Every small program x every kind of register on every qubit (and registers of several qubits, and wide programs), against states and effects applied to the program's matrix.'''
T['C34'] = '''All pairs of parts from a table of special and ordinary numbers, all small angles x radii, scales; all small matrices over 12 entries and matrices of circuits, read back by an independent LaTeX reader;
all small diagrams of every kind drawn with both backends and all options (the text handed to the viewer is decoded as JavaScript and JSON; the matplotlib artists are read back). Larger mixed diagrams and layered circuits are drawn too.'''
OUT = {
 'C07': 'Composite gates are compared up to a global phase only.',
 'C14': 'Optimality of the result is not claimed.',
 'C26': 'Not exercised: permutations with plain Gauss mode, `try_transpose`, genetic modes on one qubit; recursive elimination of singular matrices.',
 'C27': 'Minimality of partitions is not claimed (the augmentation is not a full matroid search).',
 'C29': 'The norm estimate used for sampling is replaced by the exact norm.',
 'C32': 'The router command does not work at all (known finding C32-router): it cannot be started with any mode, and the routing code behind it is written for graph methods that were removed. Routing itself (C26, C27) is exercised through the library.',
 'C31': 'Single-qubit requests that need a CNOT raise ValueError.',
}


def main():
    props = {p['id']: p for p in map(json.loads, open(V + '/properties.jsonl'))}
    out = [HEAD]
    fixed = {}
    for l in open(V + '/tools/fixed.txt'):
        w = l.split()
        fixed.setdefault(w[0], []).extend(w[1:])
    for i, p in props.items():
        out.append('### %s %s' % (i, p['title']))
        out.append(T[i])
        if i in OUT:
            out.append(OUT[i])
        ev = V + '/evidence/%s.json' % i
        if os.path.exists(ev):
            d = json.load(open(ev))
            c = d['coverage']
            out.append('Last %s run here: %d states, %d transitions, %d cases, %.0f s; families: %s.' % (
                d['tier'], c['states'], c['transitions'], c['cases'], d['wall_s'], ', '.join('%s %d' % (k, f['cases']) for k, f in sorted(c['families'].items()))))
        if fixed.get(i):
            out.append('Defects found and repaired: %d (listed below).' % len(fixed[i]))
        out.append('')
    out.append('## Planted bugs\nEach is a patch against /repo with a demonstration (seeded/<id>), passing the existing tests. Caught by the quick tier of:\n')
    cb = {}
    f = V + '/tools/caught.json'
    if os.path.exists(f):
        cb = json.load(open(f))
    for b in sorted(os.listdir(V + '/seeded')) if os.path.isdir(V + '/seeded') else []:
        m = V + '/seeded/%s/meta.json' % b
        if os.path.exists(m):
            m = json.load(open(m))
            out.append('* **%s** (%s; %s): %s Needs: %s.' % (b, m['property'], 'caught by ' + ', '.join(cb[b]) if cb.get(b) else 'not caught' if b in cb else 'caught by ' + m['property'], m['what_it_breaks'].rstrip('.') + '.', m['needs'].rstrip('.')))
    out.append('')
    extra = V + '/tools/design_extra.md'
    if os.path.exists(extra):
        out.append(open(extra).read())
    out.append('## Open findings (known_findings.json)')
    for k in json.load(open(V + '/known_findings.json'))['findings']:
        out.append('* **%s** (%s): %s' % (k['id'], k['property'], k['what']))
    out.append('')
    out.append('## Defects of pyzx found on the original tree and repaired\nOne `fix:` commit each in /repo; known_findings.json lists them and the open findings. After each repair the check passes, and it reports the violation again when the repair is reverted.\n')
    log = dict(l.split(' ', 1) for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s'], text=True).splitlines())
    full = {}
    for h, s in log.items():
        full[h] = s
    for i in props:
        if fixed.get(i):
            out.append('**%s**' % i)
            for h in fixed[i]:
                s = next((s for k, s in full.items() if h.startswith(k) or k.startswith(h)), '?')
                out.append('* %s %s' % (h[:8], re.sub('^fix: ', '', s)))
            out.append('')
    open(V + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
    n = json.load(open(V + '/tools/notes.json'))
    for i in props:
        n.setdefault(i, {})['note'] = ' '.join((T[i] + ' ' + OUT.get(i, '')).split())
    json.dump(n, open(V + '/tools/notes.json', 'w'), indent=1)
    print('DESIGN.md', len(out))


main()
