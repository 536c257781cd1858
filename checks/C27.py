"""C27: phase-polynomial routing: all small phase polynomials, architectures, methods, heuristics and random choices, compared with an independent evaluation of the polynomial."""
import itertools, contextlib, io
from fractions import Fraction as F
import numpy as np
import core, choice
from core import require, slice_iter
from C24 import rank, ints, eye, mul
from C26 import SOURCES, Every, linear, neighbours, placed, is_perm, named, GS, GG, PS, PG, S, G
from C28 import graphs, unlabelled, build, edge_key
from pyzx.circuit import Circuit
from pyzx.circuit.gates import CNOT, ZPhase, S as SGate, T as TGate, Z as ZGate
from pyzx.linalg import Mat2
from pyzx.routing import architecture as A
from pyzx.routing.architecture import create_architecture
from pyzx.routing.cnot_mapper import ElimMode
from pyzx.routing.parity_maps import CNOT_tracker, Parity
from pyzx.routing.phase_poly import PhasePoly, RoutingMethod, RootHeuristic, SplitHeuristic, route_phase_poly, inverse_hack

MATROID, GRAY, MEIJER, BOTH = RoutingMethod.MATROID, RoutingMethod.GRAY, RoutingMethod.MEIJER, RoutingMethod.GRAY_MEIJER
PHASES = [F(1, 4), F(7, 8), F(-3, 16), F(1, 2), F(-1, 32), F(5, 64), F(1), F(3, 128), F(-7, 256), F(9, 512), F(11, 1024), F(1, 3), F(-2, 5), F(1, 7), F(3, 11)]


# ---------------------------------------------------------------- oracle
def table(poly, n):
    """phase of every basis state"""
    out = []
    for x in range(1 << n):
        t = F(0)
        for par, ph in poly:
            if sum(b and (x >> q & 1) for q, b in enumerate(par)) % 2:
                t += ph
        out.append(t % 2)
    return out


def run_gates(gs, n):
    """phase polynomial and output parities of a circuit, computed independently"""
    rows, poly = eye(n), []
    for g in gs:
        if type(g) is CNOT:
            require(g.control != g.target and 0 <= g.control < n and 0 <= g.target < n, 'gate %s', g)
            rows[g.target] = [a ^ b for a, b in zip(rows[g.target], rows[g.control])]
        else:
            require(isinstance(g, ZPhase) and 0 <= g.target < n, 'gate %s', g)
            poly.append((tuple(rows[g.target]), F(g.phase)))
    return poly, rows


def judge(c, poly, rows, n, near, pin=None, pout=None):
    pin, pout = pin or list(range(n)), pout or list(range(n))
    require(is_perm(pin, n) and is_perm(pout, n), 'permutations %s %s', pin, pout)
    require(c.qubits == n, '%d qubits', c.qubits)
    got, rr = run_gates(c.gates, n)
    want = [(tuple(par[s] for s in pin), ph) for par, ph in poly]
    require(rr == [[rows[r][s] for s in pin] for r in pout], 'the circuit %s computes %s', c.gates, rr)
    require(table(got, n) == table(want, n), 'the circuit %s has other phases than %s', c.gates, want)
    if near is not None:
        require(all(frozenset((g.control, g.target)) in near for g in c.gates if type(g) is CNOT), 'CNOTs between qubits that are not coupled: %s', c.gates)
    # as many phase gates as there are terms
    require(len(got) == len({p for p, _ in poly}), '%d phase gates for %d terms', len(got), len(poly))


def poly_of(poly, rows):
    return PhasePoly({Parity(p): ph for p, ph in poly}, [Parity(r) for r in rows])


def settings(kind):
    """(method, mode, keyword arguments, obeys the architecture)"""
    roots, splits = list(RootHeuristic), list(SplitHeuristic)
    if kind == 'default':
        return [(m, S, {}, True) for m in RoutingMethod]
    if kind == 'heuristics':
        return [(GRAY, S, dict(root_heuristic=r, split_heuristic=s), True) for r in roots for s in splits]
    if kind == 'fixed':
        return [(GRAY, S, dict(root_heuristic=r, split_heuristic=s), True) for r in (RootHeuristic.EXHAUSTIVE, RootHeuristic.RECURSIVE) for s in (SplitHeuristic.COUNT, SplitHeuristic.ARITY)]
    if kind == 'options':
        o = [(MEIJER, S, dict(zeroes_rec=z, neighbour_path=p, tie_break=t), True) for z, p, t in itertools.product((False, True), repeat=3)]
        return o + [(MATROID, S, dict(optimize_parity_order=a, optimize_partition_order=b), True) for a, b in itertools.product((False, True), repeat=2)]
    if kind == 'modes':
        return [(m, G, {}, False) for m in RoutingMethod] + [(m, mode, dict(input_perm=False, output_perm=False), mode == GS) for m in RoutingMethod for mode in (GS, GG)]
    raise KeyError(kind)


def route_case(rep, a, near, poly, rows, kind, key):
    n = len(rows)
    for method, mode, kw, obeys in settings(kind):
        def program():
            p = poly_of(poly, rows)
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    c = route_phase_poly(p, a, method=method, mode=mode, **kw)
                return p, c
            except Exception as e:
                return None, e
        with Every():
            for ch, res, cut in choice.explore(program, limit=30):
                with rep.case('%s %s %s %s %s' % (key, method, mode, {k: str(v) for k, v in kw.items()}, ch), dict(op=method.value, mode=mode.value)):
                    rep.step()
                    require(not cut, 'runs on')
                    p, c = res
                    if isinstance(c, ValueError) and obeys and not placed(n, near):
                        rep.outcome('refused')
                        continue
                    if isinstance(c, Exception):
                        raise c
                    rep.outcome('ok')
                    judge(c, poly, rows, n, near if obeys else None)
                    require({tuple(k.to_mat2_row()): v for k, v in p.zphases.items()} == dict(poly) and [x.to_mat2_row() for x in p.out_par] == [list(r) for r in rows], 'the polynomial is changed')


# ---------------------------------------------------------------- phase polynomials
def parities(n):
    return [tuple(b) for b in itertools.product((0, 1), repeat=n) if any(b)]


def subsets(n, sizes):
    ps = parities(n)
    for r in sizes:
        yield from itertools.combinations(ps, r)


def polys(n, sizes, order='one'):
    for sub in subsets(n, sizes):
        for ps in (itertools.permutations(sub) if order == 'all' else [sub] if order == 'one' else [sub, sub[::-1]]):
            yield [(p, PHASES[k]) for k, p in enumerate(ps)]


def archs(n, src, maps):
    for es in (graphs(n) if src == 'all' else unlabelled(n)):
        for qm in ([None] + list(itertools.permutations(range(n))) if maps else [None]):
            a, _ = build(n, es, 'matrix', **({} if qm is None else dict(qubit_map=list(qm))))
            yield '%s %s' % (edge_key(n, es), qm), a


def fam_route(rep, n, src, maps, sizes, order, source, kind, i, k):
    for key, a in archs(n, src, maps):
        near = neighbours(a)
        for poly, rows in slice_iter(itertools.product(list(polys(n, sizes, order)), list(SOURCES[source](n))), i, k):
            sk = 'route %s %s %s' % (key, poly_key(poly), rows)
            rep.state(sk)
            route_case(rep, a, near, poly, rows, kind, sk)


def poly_key(poly):
    return ' '.join('%s:%s' % (''.join(map(str, p)), ph) for p, ph in poly)


def wide_polys(n):
    q = list(range(n))
    unit = lambda *on: tuple(int(x in on) for x in q)
    pairs = [unit(a, b) for a, b in itertools.combinations(q, 2)]
    yield 'singles', [unit(a) for a in q]
    yield 'chain', [unit(*range(a, b + 1)) for a in q for b in q if a < b]
    yield 'pairs', pairs
    yield 'prefixes', [unit(*range(a + 1)) for a in q]
    yield 'suffixes', [unit(*range(a, n)) for a in q][::-1]
    yield 'full', [unit(*q)]
    yield 'cofactors', [unit(*[b for b in q if b != a]) for a in q]
    yield 'ends', [unit(0, n - 1), unit(*q), unit(0), unit(n - 1), unit(*q[1:-1])]
    yield 'triples', [unit(*t) for t in itertools.combinations(q, 3)][:12]
    yield 'strided', [unit(*q[s::t]) for t in (2, 3) for s in range(t) if q[s::t]]
    yield 'empty', []
    for s in range(1, 6):
        yield 'mixed%d' % s, list(dict.fromkeys(unit(*[b for b in q if (b * b + a * s + b * a) % (s + 2) == 0]) for a in range(n + 2)))


def wide_maps(n):
    yield 'id', eye(n)
    yield 'rev', eye(n)[::-1]
    yield 'chain', linear([(q, q + 1) for q in range(n - 1)], n)
    yield 'cycle', [eye(n)[(q + 1) % n] for q in range(n)]
    yield 'mix', linear([(p, q) for p in range(n) for q in range(n) if p != q and (p * q + p) % 3 == 1], n)


def fam_wide(rep, name, n, kind, i, k):
    a = create_architecture(name, n_qubits=n) if name in A.dynamic_size_architectures else named(name)
    near, n = neighbours(a), a.n_qubits
    for (pk, ps), (mk, rows) in slice_iter(itertools.product(list(wide_polys(n)), list(wide_maps(n))), i, k):
        ps = [p for p in dict.fromkeys(ps) if any(p)]
        poly = [(p, PHASES[j % len(PHASES)]) for j, p in enumerate(ps)]
        key = 'wide %s %d %s %s' % (name, n, pk, mk)
        rep.state(key)
        route_case2(rep, a, near, poly, rows, kind, key)


def route_case2(rep, a, near, poly, rows, kind, key):
    """as route_case, without the exponential table: term-by-term comparison"""
    n = len(rows)
    for method, mode, kw, obeys in settings(kind):
        with rep.case('%s %s %s %s' % (key, method, mode, {k: str(v) for k, v in kw.items()}), dict(op=method.value, mode=mode.value)):
            rep.step()
            with contextlib.redirect_stdout(io.StringIO()):
                c = route_phase_poly(poly_of(poly, rows), a, method=method, mode=mode, **kw)
            require(c.qubits == n, 'qubits')
            got, rr = run_gates(c.gates, n)
            require(rr == [list(r) for r in rows], 'another linear map')
            require(len(got) == len(poly) and all((ph - dict(poly)[p]) % 2 == 0 for p, ph in got if p in dict(poly)) and {p for p, _ in got} == {p for p, _ in poly}, 'other phases: %s', got)
            require(not obeys or all(frozenset((g.control, g.target)) in near for g in c.gates if type(g) is CNOT), 'CNOTs between qubits that are not coupled')


# ---------------------------------------------------------------- the synthesis functions themselves
def fam_synth(rep, n, src, sizes, source, i, k):
    for key, a in archs(n, src, False):
        near = neighbours(a)
        for poly, rows in slice_iter(itertools.product(list(polys(n, sizes, 'both')), list(SOURCES[source](n))), i, k):
            rep.state('synth %s %s %s' % (key, poly_key(poly), rows))
            for fn, mode, arch, kw in [(f, m, x, {}) for f in ('matroid_synth', 'gray_synth', 'rec_gray_synth', 'Ariannes_synth') for m, x in ((S, a), (G, a), (S, None), (GS, a), (GG, a))] + \
                    [('rec_gray_synth', S, a, dict(phase_qubit=q)) for q in range(n)] + [(f, S, a, dict(full=False)) for f in ('rec_gray_synth', 'Ariannes_synth')]:
                def program():
                    try:
                        with contextlib.redirect_stdout(io.StringIO()):
                            return getattr(poly_of(poly, rows), fn)(mode, arch, **kw)
                    except Exception as e:
                        return e
                with Every():
                    for ch, res, cut in choice.explore(program):
                        with rep.case('synth %s %s %s %s %s %s %s %s' % (key, poly_key(poly), rows, fn, mode, arch is None, kw, ch), dict(op=fn, mode=mode.value)):
                            rep.step()
                            if isinstance(res, Exception):
                                raise res
                            c, pin, pout = res
                            obeys = arch is not None and mode in (S, GS)
                            want = rows
                            if kw.get('full') is False:
                                want = run_gates(c.gates, n)[1]
                            judge(c, poly, want, n, near if obeys else None, [int(x) for x in pin], [int(x) for x in pout])
                            if isinstance(c, CNOT_tracker):
                                require([list(r) for r in c.matrix.data] == run_gates(c.gates, n)[1], 'tracked matrix')


# ---------------------------------------------------------------- circuits
def fam_circuit(rep, n, depth, i, k):
    """phase polynomial of every circuit"""
    ops = [('CNOT', p) for p in itertools.permutations(range(n), 2)] + [(g, (q,)) for g in ('T', 'S*', 'Z', 'P') for q in range(n)]
    near = {frozenset(p) for p in itertools.combinations(range(n), 2)}
    a = create_architecture(A.FULLY_CONNECTED, n_qubits=n) if n > 1 else None
    for seq in slice_iter((s for d in range(depth + 1) for s in itertools.product(ops, repeat=d)), i, k):
        key = 'circuit %d %s' % (n, seq)
        rep.state(key)
        c = Circuit(n)
        for g, qs in seq:
            if g == 'CNOT':
                c.add_gate(CNOT(*qs))
            else:
                c.add_gate(TGate(*qs) if g == 'T' else SGate(qs[0], adjoint=True) if g == 'S*' else ZGate(*qs) if g == 'Z' else ZPhase(qs[0], F(-5, 4)))
        poly, rows = run_gates(c.gates, n)
        with rep.case(key, dict(op='circuit')):
            before = [repr(g) for g in c.gates]
            p = PhasePoly.fromCircuit(c)
            rep.step()
            got = [(tuple(x.to_mat2_row()), ph) for x, ph in p.zphases.items()]
            require(table(got, n) == table(poly, n) and [x.to_mat2_row() for x in p.out_par] == rows, 'polynomial %s, outputs %s', got, p.out_par)
            require(all(-1 < ph <= 1 and ph != 0 for _, ph in got) and p.n_qubits == n and p.all_parities == list(p.zphases), 'phases %s', got)
            for qi in itertools.permutations(range(n)):
                for qo in itertools.permutations(range(n)):
                    p = PhasePoly.fromCircuit(c, initial_qubit_placement=list(qi), final_qubit_placement=list(qo))
                    rep.step()
                    got = [(tuple(x.to_mat2_row()), ph) for x, ph in p.zphases.items()]
                    # wire q holds the variable that the placement gives it
                    sub = [[e[j] for j in qi] for e in eye(n)]
                    want = [(tuple(mul([list(par)], sub)[0]), ph) for par, ph in poly]
                    require(table(got, n) == table(want, n), 'placement %s: polynomial %s', qi, got)
                    require([x.to_mat2_row() for x in p.out_par] == [mul([rows[r]], sub)[0] for r in qo], 'placement %s %s: outputs', qi, qo)
            for m in (RoutingMethod if a is not None else []):
                with contextlib.redirect_stdout(io.StringIO()):
                    r = route_phase_poly(c, a, method=m)
                rep.step()
                g2, r2 = run_gates(r.gates, n)
                require(r2 == rows and table(g2, n) == table(poly, n), 'routed by %s', m)
            require([repr(g) for g in c.gates] == before, 'the circuit is changed')


def fam_refused(rep):
    for name in ('HAD', 'XPhase', 'CZ', 'NOT', 'SWAP'):
        with rep.case('refused ' + name, dict(op='refused')):
            c = Circuit(2)
            c.add_gate(name, *dict(HAD=(0,), XPhase=(0,), CZ=(0, 1), NOT=(0,), SWAP=(0, 1))[name], **(dict(phase=F(1, 4)) if name == 'XPhase' else {}))
            rep.state(name)
            try:
                PhasePoly.fromCircuit(c)
            except Exception:
                rep.step()
                continue
            require(False, '%s is not refused', name)


# ---------------------------------------------------------------- partitions
def fam_partition(rep, n, sizes, order, source, i, k):
    for poly, rows in slice_iter(itertools.product(list(polys(n, sizes, order)), list(SOURCES[source](n))), i, k):
        key = 'partition %s %s' % (poly_key(poly), rows)
        rep.state(key)
        with rep.case(key, dict(op='partition')):
            for skip in (True, False):
                for opt in (True, False):
                    p = poly_of(poly, rows)
                    parts = p.partition(skip_output_parities=skip, optimize_parity_order=opt)
                    rep.step()
                    need = [q for q, _ in poly if not (skip and list(q) in [list(r) for r in rows])]
                    flat = [tuple(x.to_mat2_row()) for part in parts for x in part]
                    require(all(q in flat for q in need), 'missing parities: %s', flat)
                    for part in parts:
                        d = [x.to_mat2_row() for x in part]
                        require(len(d) == n and rank(ints(d)) == n, 'dependent partition %s', d)


def fam_hack(rep, n, r):
    """completion of independent parities to an invertible matrix"""
    for rows in itertools.permutations(parities(n), r):
        with rep.case('hack %s' % (rows,), dict(op='hack')):
            rep.state(str(rows))
            d = [list(x) for x in rows]
            res = inverse_hack(Mat2([list(x) for x in d]))
            rep.step()
            require((res is None) == (rank(ints(d)) < r), 'independence of %s', d)
            if res is not None:
                m, inv = res
                require(m.data[:r] == d and len(m.data) == n and mul(m.data, inv.data) == eye(n), 'completed to %s with inverse %s', m.data, inv.data)


FAMILIES = dict(route=fam_route, wide=fam_wide, synth=fam_synth, circuit=fam_circuit, refused=fam_refused, partition=fam_partition, hack=fam_hack)


def tasks(tier):
    q = tier == 'quick'
    t = [('refused', ())]
    R = range
    for kind in ('default', 'heuristics', 'options', 'modes'):
        t += [('route', (1, 'all', False, R(2), 'all', 'all', kind, 0, 1))]
        t += [('route', (2, 'all', True, R(4), 'all', 'all', kind, i, 4)) for i in R(4)]
    for kind in ('default', 'fixed', 'options'):
        t += [('route', (3, 'all', False, R(8), 'one', 'el1', kind, i, 16)) for i in (R(4) if q else R(16))]
        t += [('route', (3, 'unlabelled', False, R(4), 'one', 'all', kind, i, 32)) for i in (R(2) if q else R(32))]
        t += [('route', (4, 'unlabelled', False, (1, 2, 3), 'one', 'el0', kind, i, 32)) for i in (R(4) if q else R(32))]
    t += [('route', (3, 'all', True, R(3), 'both', 'el0', 'default', i, 8)) for i in R(8)]
    t += [('route', (3, 'unlabelled', False, R(4), 'one', 'el0', k, i, 8)) for k in ('heuristics', 'modes') for i in R(8)]
    for name, n in [(A.LINE, 4), (A.LINE, 6), (A.CIRCLE, 5), (A.SQUARE, 9), (A.FULLY_CONNECTED, 5), (A.IBM_QX2, 5), (A.RIGETTI_8Q_AGAVE, 8)] + ([] if q else [(A.IBM_QX5, 16), (A.IBM_Q20_TOKYO, 20)]):
        t += [('wide', (name, n, kind, i, 4)) for kind in ('default', 'fixed', 'options') for i in (R(1) if q and n > 6 else R(4))]
    t += [('synth', (2, 'all', R(4), 'all', i, 2)) for i in R(2)] + [('synth', (3, 'unlabelled', R(3), 'el1', i, 16)) for i in (R(4) if q else R(16))]
    t += [('circuit', (1, 3, 0, 1))] + [('circuit', (2, 3, i, 4)) for i in R(4)] + [('circuit', (3, 2, i, 4)) for i in R(4)] + ([] if q else [('circuit', (2, 4, i, 32)) for i in R(32)] + [('circuit', (3, 3, i, 32)) for i in R(32)])
    t += [('partition', (n, R(8), 'one', 'el0', i, 4)) for n in (1, 2, 3) for i in R(4)] + [('partition', (3, R(5), 'all', 'el0', i, 8)) for i in R(8)] + [('partition', (3, R(4), 'one', 'all', i, 8)) for i in R(8)]
    t += [('partition', (4, (4, 5) if q else (3, 4, 5, 6), 'one', 'el0', i, 64)) for i in (R(16) if q else R(64))]
    t += [('hack', (n, r)) for n in (1, 2, 3) for r in R(1, n + 1)] + [('hack', (4, r)) for r in (1, 2, 3)]
    return t


def run():
    return core.main('C27', FAMILIES, tasks, assumptions=['the result of the genetic search is replaced by every permutation it could return'],
                     exhaustive_note='all phase polynomials over the stated number of qubits, terms and output maps, all connected architectures, methods, heuristics and random outcomes')
