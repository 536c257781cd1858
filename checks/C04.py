"""C04: phase teleportation keeps the structure and the linear map (up to a global scalar) and never adds T gates."""
import itertools
from fractions import Fraction as F
import core
from core import require, slice_iter
import ref, circ, big
from ref import BOUNDARY, Z, X, SIMPLE, HAD
from diag import V, build, spec_of, with_boundaries
import C01
import pyzx as zx
from pyzx import simplify as S

q, h, o = F(1, 4), F(1, 2), F(1)


def skeleton(g):
    """Vertices in order with everything but the phases; edges with renumbered ends."""
    vs = sorted(g.vertices())
    idx = {v: i for i, v in enumerate(vs)}
    es = []
    for e in g.edges():
        a, b = g.edge_st(e)
        a, b = sorted((idx[a], idx[b]))
        es.append((a, b, int(g.edge_type(e))))
    return ([(int(g.type(v)), g.qubit(v), g.row(v)) for v in vs], sorted(es), [idx[v] for v in g.inputs()],
            [idx[v] for v in g.outputs()])


def nont(g):
    return sum(1 for v in g.vertices() if F(g.phase(v)).denominator > 2)


def tele_case(rep, key, mk, circuit=None, feats=None, light=False):
    if not rep.state(key):
        return
    with rep.case('teleport ' + key, dict(feats or {}, what='teleport')):
        g = mk()
        base = ref.value(g)
        sk = skeleton(g)
        show = spec_of(g).show()
        t0 = nont(g)
        g2 = S.teleport_reduce(g)
        rep.step()
        require(spec_of(g).show() == show, 'teleport_reduce changed its input diagram')
        require(skeleton(g2) == sk, 'teleport_reduce changed the structure of the diagram')
        after = ref.value(g2)
        require(ref.prop(base, after, 1e-6), 'teleport_reduce changed the linear map')
        t1 = nont(g2)
        rep.outcome('T:%d->%d' % (t0, t1))
        require(t1 <= t0, 'teleport_reduce raised the number of non-Clifford phases from %d to %d', t0, t1)
        if circuit is not None:   # (in a diagram with scalar parts full reduction moves phases into the global scalar)
            g3 = mk()
            S.full_reduce(g3)
            t2 = nont(g3)
            require(t1 <= t2, 'teleport_reduce leaves %d non-Clifford phases, full_reduce %d', t1, t2)
        require(S.tcount(g2) == t1, 'tcount reports %s instead of %s', S.tcount(g2), t1)
        if circuit is not None:
            c = zx.Circuit.from_graph(g2)
            require(c.qubits == circuit.qubits, 'number of qubits changed')
            u, w = circ.circuit_unitary(circuit), circ.circuit_unitary(c)
            require(circ.up_to_phase(u, w), 'the circuit read back from the teleported diagram has another unitary')
            tc = sum(1 for x in c.gates if hasattr(x, 'phase') and F(x.phase).denominator > 2)
            # both diagrams can be worked with afterwards
            for nm, x in () if light else (('input', g), ('result', g2)):
                for fn, f in (('full_reduce', S.full_reduce), ('clifford_simp', S.clifford_simp), ('teleport_reduce', None)):
                    y = x.copy() if fn == 'full_reduce' else x.clone()
                    if f is None:
                        y = S.teleport_reduce(y)
                    else:
                        f(y, quiet=True)
                    rep.step()
                    require(ref.prop(base, ref.value(y), 1e-6), '%s of the %s of teleport_reduce changed the linear map', fn, nm)
            require(tc <= t0, 'the circuit read back has more T gates (%d) than the input (%d)', tc, t0)


def fam_circ(rep, n, gates, params, depth, i, m):
    alpha = circ.alphabet(n, gates, dict(params))
    for sq in slice_iter(circ.sequences(alpha, depth), i, m):
        key = circ.show(n, sq)
        rep.sample(key)
        c = circ.circuit(n, sq)
        tele_case(rep, key, c.to_graph, c)


def fam_wrapped(rep, n, depth, i, m):
    """T gates separated by every Clifford block of the given depth: the phases must teleport through."""
    alpha = circ.alphabet(n, ['HAD', 'S', 'CNOT'])
    ts = [circ.d('T', 0), circ.d('T*', 0), circ.d('ZPhase', 0, F(3, 4)), circ.d('ZPhase', 0, F(1, 3)), circ.d('XPhase', 0, F(1, 4))]

    def seqs():
        for b in circ.sequences(alpha, depth):
            for t1 in ts:
                for t2 in ts:
                    yield (t1,) + b + (t2,)
                    yield (t1,) + b + (t2,) + tuple(reversed(b)) + (t1,)
    for sq in slice_iter(seqs(), i, m):
        key = circ.show(n, sq)
        rep.sample(key)
        c = circ.circuit(n, sq)
        tele_case(rep, key, c.to_graph, c)


def fam_blocks(rep, n, names, depth, pre, i, m):
    """long circuits made of blocks: a phase on the parity of any set of wires, possibly with its sign flipped by NOTs,
    Hadamards, NOTs, and pairs of Hadamards that cancel"""
    bl = dict(H=[(circ.d('HAD', a),) for a in range(n)], HH=[(circ.d('HAD', a),) * 2 for a in range(n)],
              N=[(circ.d('NOT', a),) for a in range(n)], S=[(circ.d('S', a),) for a in range(n)], P=[], Q=[])
    for k in range(1, n + 1):
        for w in itertools.combinations(range(n), k):
            cn = tuple(circ.d('CNOT', (w[j], w[j + 1])) for j in range(k - 1))
            bl['P'].append(cn + (circ.d('T', w[-1]),) + cn[::-1])
            bl['Q'].append((circ.d('NOT', w[0]),) + cn + (circ.d('T', w[-1]),) + cn[::-1] + (circ.d('NOT', w[0]),))
    alpha = [b for x in names for b in bl[x]]
    first = tuple(circ.d('HAD', a) for a in range(n)) if pre else ()
    for bs in slice_iter(itertools.product(alpha, repeat=depth), i, m):
        if bs[0] not in bl['P'] + bl['Q'] or bs[-1] not in bl['P'] + bl['Q']:
            continue
        sq = first + tuple(x for b in bs for x in b)
        key = circ.show(n, sq)
        rep.sample(key)
        c = circ.circuit(n, sq)
        tele_case(rep, key, c.to_graph, c, light=True)


def fam_gl(rep, n, phases, bopts, i, m):
    for s in slice_iter(C01.gl_specs(n, phases, bopts), i, m):
        rep.sample(s.show())
        tele_case(rep, s.show(), lambda: build(s))


def fam_zx(rep, n, kinds, bopts, i, m):
    for s in slice_iter(C01.zx_specs(n, kinds, bopts), i, m):
        if len(s.ins) + len(s.outs) > 4:
            continue
        rep.sample(s.show())
        tele_case(rep, s.show(), lambda: build(s))


def fam_gadgets(rep, nt, ng, phases, axels, tph, i, m):
    for s in slice_iter(C01.gadget_specs(nt, ng, phases, axels, tph), i, m):
        rep.sample(s.show())
        tele_case(rep, s.show(), lambda: build(s))


def fam_layers(rep, n, menu, lengths, i, m):
    for nm, sq in slice_iter(big.layers(n, menu, lengths), i, m):
        key = '%d qubits: %s' % (n, nm)
        rep.sample(key)
        c = circ.circuit(n, sq)
        tele_case(rep, key, lambda: circ.circuit(n, sq).to_graph(), c, light=True)


def fam_wide(rep, kind, k, i, m):
    for _, s in slice_iter(C01.wide_specs(kind, k), i, m):
        rep.sample(s.show())
        tele_case(rep, s.show(), lambda: build(s))


def fam_big(rep, lo, hi, i, m):
    for s in slice_iter(big.gl(lo=lo, hi=hi), i, m):
        rep.sample(s.show())
        tele_case(rep, s.show(), lambda: build(s))


def fam_multi(rep, what, args, i, m):
    """the same on the other graph backend, with parallel edges and loops where the diagrams have them"""
    if what == 'circ':
        n, gates, depth = args
        for sq in slice_iter(circ.sequences(circ.alphabet(n, gates, {}), depth), i, m):
            key = 'multigraph ' + circ.show(n, sq)
            rep.sample(key)
            c = circ.circuit(n, sq)
            tele_case(rep, key, lambda: circ.circuit(n, sq).to_graph(backend='multigraph'), c)
        return
    for s in slice_iter(C01.multi_specs(*args) if what == 'multi' else C01.gadget_specs(*args) if what == 'gadgets' else C01.zx_specs(*args), i, m):
        key = 'multigraph ' + s.show()
        rep.sample(key)
        tele_case(rep, key, lambda: build(s, 'multigraph'))


def fam_split(rep, nt, ng, pieces, hubs, i, m):
    """gadgets on the same targets whose leaves are split in pieces over several spiders, so that their phases move, with their signs, more than once"""
    opts = [(pc, hb) for pc in pieces for hb in hubs]
    for gs in slice_iter(itertools.product(opts, repeat=ng), i, m):
        for first in (0, 1):
            verts, edges = [V(Z, 0) for _ in range(nt)], []
            for pc, hb in gs:
                n = len(verts)
                lf, hub = ([n + 1 + j for j in range(len(pc))], n) if first else ([n + j for j in range(len(pc))], n + len(pc))
                verts += [V(Z, hb)] + [V(Z, p) for p in pc] if first else [V(Z, p) for p in pc] + [V(Z, hb)]
                edges += [(a, b, 1) for a, b in zip(lf, lf[1:])] + [(lf[0], hub, 2)] + [(t, hub, 2) for t in range(nt)]
            s = with_boundaries(verts, edges, [(1,)] * nt + [()] * (len(verts) - nt))
            rep.sample(s.show())
            tele_case(rep, s.show(), lambda: build(s))


def fam_terms(rep, k, ps, i, m):
    """two-qubit circuits of k phases, each on one wire or on the parity of both, plain or between NOTs, whole or split by another gate"""
    opts = list(itertools.product((0, 1), (0, 1), ps))
    for ts in slice_iter(itertools.product(opts, repeat=k), i, m):
        sq = []
        for par, neg, pc in ts:
            pre = ([('CNOT', 0, 1)] if par else []) + ([('NOT', 1)] if neg else [])
            sq += pre + [('ZPhase', 1, p) for p in pc] + pre[::-1]
        key = 'terms %s' % ' '.join('%s(%s)' % (g[0], ','.join(map(str, g[1:]))) for g in sq)
        rep.sample(key)
        c = zx.Circuit(2)
        for g in sq:
            c.add_gate(*g)
        tele_case(rep, key, c.to_graph, c, light=True)


def fam_tof(rep, k, menu, i, m):
    """k Toffoli gates (or other gates on three qubits) with a NOT between them: phases that cancel, move and change sign all at once"""
    for ts in slice_iter(itertools.product(menu, repeat=k), i, m):
        for pos in range(1, k):
            for x in range(3):
                sq = ts[:pos] + (('NOT', x),) + ts[pos:]
                key = 'tof %s' % ' '.join('%s(%s)' % (g[0], ','.join(map(str, g[1:]))) for g in sq)
                rep.sample(key)
                c = zx.Circuit(3)
                for g in sq:
                    c.add_gate(*g)
                tele_case(rep, key, c.to_graph, c, light=True)


FAMILIES = dict(tof=fam_tof, split=fam_split, terms=fam_terms, multi=fam_multi, layers=fam_layers, wide=fam_wide, big=fam_big, circ=fam_circ, wrapped=fam_wrapped, blocks=fam_blocks, gl=fam_gl, zx=fam_zx, gadgets=fam_gadgets)
B3 = ((), (1,), (2,))


def tasks(tier):
    deep = tier == 'thorough'
    T = []

    def add(fam, args, n):
        for i in range(n):
            T.append((fam, tuple(args) + (i, n)))
    add('circ', (1, ('HAD', 'T', 'T*', 'S', 'NOT', 'Z'), (), 5 if deep else 4), 8)
    add('circ', (2, ('HAD', 'T', 'CNOT'), (), 6 if deep else 5), 64)
    add('circ', (2, ('HAD', 'ZPhase', 'XPhase', 'CNOT', 'CZ'), (('ZPhase', ((F(1, 4),), (F(7, 4),), (F(1, 2),))), ('XPhase', ((F(3, 4),),))),
                 4 if deep else 3), 32)
    add('circ', (3, ('HAD', 'T', 'CNOT'), (), 4 if deep else 3), 64)
    add('wrapped', (1, 4 if deep else 3), 4)
    add('wrapped', (2, 3 if deep else 2), 16)
    if deep:
        add('wrapped', (3, 2), 16)
    for pre in (True, False):
        add('blocks', (1, ('P', 'Q', 'H', 'HH', 'N'), 6 if deep else 5, pre), 16)
        add('blocks', (2, ('P', 'Q', 'H', 'N') + (('S',) if deep else ()), 5 if deep else 4, pre), 128 if deep else 32)
        add('blocks', (3, ('P', 'H', 'N') if deep else ('P', 'N'), 4 if deep else 3, pre), 64 if deep else 16)
    add('gl', (1, (F(0), q, h, o, F(3, 4)), B3 + ((1, 1), (1, 2))), 1)
    add('gl', (2, (F(0), q, h, o, F(3, 4), F(1, 3)), B3 + ((1, 1),)), 4)
    add('gl', (3, (F(0), q, F(3, 4), h, o), ((), (1,)) if not deep else B3), 32)
    add('gl', (4, (F(0), q, F(7, 4)) if deep else (F(0), q), ((), (1,))), 64)
    if deep:
        add('gl', (5, (F(0), q), ((),)), 64)
    add('zx', (2, (V(Z, 0), V(Z, q), V(X, F(3, 4)), V(X, h), V(Z, F(1, 3))), B3), 4)
    add('zx', (3, (V(Z, q), V(X, F(3, 4)), V(Z, 0)), ((), (1,))), 32)
    add('multi', ('circ', (2, ('HAD', 'T', 'CNOT'), 5 if deep else 4)), 16)
    add('multi', ('zx', (2, (V(Z, q), V(X, F(3, 4)), V(Z, 0)), ((), (1,), (2,)))), 4)
    add('multi', ('zx', (3, (V(Z, q), V(X, F(3, 4))), ((), (1,)))), 16)
    add('multi', ('multi', (2, (V(Z, q), V(X, F(3, 4)), V(Z, 0)), 2)), 8)
    add('multi', ('gadgets', (2, 2, (q, F(7, 4)), (F(0), o), (F(0),))), 4)
    add('layers', (4, ('H', 'Tr', 'He', 'cp', 'zo', 'T', 'Px', 'ci'), (2, 3, 4) if deep else (2, 3), ), 48)
    add('layers', (5, ('H', 'Tr', 'ci', 'zk', 'T', 'Pd'), (3,) if deep else (2,)), 16)
    add('layers', (4, ('Tr', 'H', 'cp', 'T', 'He', 'zo'), (5,) if deep else (4,)), 48)
    for kind, k in (('gadgets', 4), ('lcomp', 5), ('pivot', 3), ('pivotb', 3), ('supp', 5), ('copy', 5), ('bialg', 4), ('spider', 4), ('ids', 5)):
        add('wide', (kind, k + (2 if deep else 1)), 8)
    add('big', (4, 6 if deep else 5), 24)
    add('gadgets', (2, 2, (q, F(7, 4)), (F(0), o), (F(0), q)), 4)
    add('gadgets', (3, 2, (q, F(7, 4)), (F(0), o), (F(0),)), 8)
    e = F(1, 8)
    add('split', (2, 3, ((e,), (-e,), (F(0), e), (e, F(0))), (F(0), o)), 16)
    add('split', (1, 2, ((e,), (F(1, 3),), (F(0), e), (h, e), (e, o), (e, e), (F(1, 3), e), (F(0), e, e)), (F(0), o)), 8)
    add('terms', (3, ((e,), (h, e), (F(1, 3),))), 32)
    add('terms', (4, ((e,), (h, e))), 32)
    add('terms', (4, ((h,), (h, e))), 32)
    add('terms', (3, ((h,), (h, e), (e,), (o, e), (e, h))), 32)
    add('terms', (3, ((e,), (h, F(3, 8)), (q, h, e))), 32)
    tofs = (('Tof', 1, 2, 0), ('Tof', 2, 1, 0), ('Tof', 0, 1, 2))
    add('tof', (4, tofs), 32)
    if deep:
        add('tof', (4, tofs + (('CCZ', 0, 1, 2), ('HAD', 1))), 128)
        add('split', (2, 3, ((e,), (-e,), (q,), (F(0), e), (e, F(0)), (h, e), (e, e)), (F(0), o)), 64)
        add('split', (2, 4, ((e,), (F(0), e)), (F(0), o)), 64)
        add('terms', (4, ((e,), (h, e), (F(3, 8),))), 64)
        add('terms', (6, ((e,),)), 64)
        add('terms', (5, ((h,), (h, e))), 128)
        add('terms', (5, ((e,),)), 64)
    if deep:
        add('gadgets', (3, 3, (q, F(7, 4)), (F(0), o), (F(0),)), 64)
        add('gadgets', (4, 2, (q,), (F(0), o), (F(0), q)), 32)
    return T


ASSUME = ['phases are multiples of pi/8 or pi/3 (no symbolic phases)', 'maps compared up to a global scalar, as documented']
BOUNDS = 'all circuits over the listed gates up to the listed depth on <=3 qubits; all graph-like diagrams with <=4 spiders'


def run():
    return core.main('C04', FAMILIES, tasks, ASSUME, BOUNDS)
