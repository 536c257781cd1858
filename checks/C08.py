"""C08: circuit algebra. Exhaustive gates x placements x parameters, all pairs of short circuits under every binary
operation and every qubit mapping, and all histories of circuit operations up to a depth, against matrices."""
import itertools
from fractions import Fraction as F
import numpy as np
import core
from core import require, slice_iter
import ref, circ, big
import pyzx as zx
from pyzx.circuit import gates as G
from pyzx.circuit.gates import Measurement, DiscardBit
import C07

BASIC = {'ZPhase', 'XPhase', 'Z', 'S', 'T', 'NOT', 'SX', 'HAD', 'CNOT', 'CZ'}


def U(c):
    return circ.circuit_unitary(c)


def same(a, b, what):
    require(a.shape == b.shape, '%s: matrix has shape %s, not %s', what, b.shape, a.shape)
    require(circ.up_to_phase(a, b), '%s: the matrix is not the expected one', what)


def gsnap(g):
    return (type(g).__name__,) + tuple(sorted((k, repr(v)) for k, v in vars(g).items()))


def qubits_of(g):
    return circ.read_gate(g)[1]


def layers(gl, n):
    d = [0] * n
    for g in gl:
        qs = qubits_of(g)
        m = max(d[q] for q in qs) + 1
        for q in qs:
            d[q] = m
    return max(d, default=0)


def tphase(p):
    return F(p).denominator > 2


def ref_tcount(gl):
    k = 0
    for g in gl:
        nm, qs, ps = circ.read_gate(g)
        if nm in ('T', 'T*'):
            k += 1
        elif nm in ('ZPhase', 'XPhase'):
            k += tphase(ps[0])
        elif nm not in ('Z', 'S', 'S*', 'NOT', 'SX', 'SX*', 'HAD', 'CNOT', 'CZ', 'XCX', 'SWAP', 'FSim'):
            raise ValueError('%s is not basic' % nm)
    return k


def expand(gl):
    """expanded gate list, as to_basic_gates of each gate gives it (FSim stays)"""
    out = []
    for g in gl:
        for b in g.to_basic_gates():
            require(type(b).__name__ in BASIC or isinstance(b, G.FSim), 'to_basic_gates returns a %s', type(b).__name__)
            out.append(b)
    return out


# -- single gates -----------------------------------------------------------------------------------------------
def fam_gate(rep, name, deep, i, m):
    ar, k, ctor, mat = circ.GATES[name]
    ps = [p for p in C07.params(name, deep) if not any(isinstance(x, float) for x in p)]
    for p in slice_iter(ps, i, m):
        for qs in circ.placements(name, ar):
            key = '%s%s%s' % (name, qs, tuple(map(str, p)))
            rep.state(key)
            feats = dict(gate=name)
            u = circ.unitary(ar, [(name, qs, p)])
            with rep.case('adjoint ' + key, dict(feats, op='adjoint')):
                g = ctor(qs, p)
                s0 = gsnap(g)
                a = g.to_adjoint()
                require(gsnap(g) == s0, 'to_adjoint changes the gate')
                ca = zx.Circuit(ar)
                ca.add_gate(a)
                same(u.conj().T, U(ca), 'to_adjoint')
                mt = np.asarray(zx.Circuit.to_graph(ca).to_matrix()) if ar < 3 else None
                same(u.conj().T, ref.matrix(ca.to_graph()), 'diagram of to_adjoint')
                aa = zx.Circuit(ar)
                aa.add_gate(a.to_adjoint())
                same(u, U(aa), 'to_adjoint twice')
                same(u, ref.matrix(aa.to_graph()), 'diagram of to_adjoint twice')
                rep.step(3)
                rep.outcome('adjoint')
            with rep.case('basic ' + key, dict(feats, op='basic')):
                g = ctor(qs, p)
                s0 = gsnap(g)
                c = zx.Circuit(ar)
                c.gates = expand([g])
                require(gsnap(g) == s0, 'to_basic_gates changes the gate')
                same(u, U(c), 'to_basic_gates')
                require(g.tcount() == (ref_tcount(c.gates) if not isinstance(g, G.FSim) else 0), 'tcount is %s but the expanded gates have %s',
                        g.tcount(), ref_tcount(c.gates))
                rep.step()
                if isinstance(g, (G.ZPhase, G.XPhase)):
                    c = zx.Circuit(ar)
                    c.gates = list(g.split_phases())
                    same(u, U(c), 'split_phases')
                    require(ref_tcount(c.gates) == g.tcount(), 'split_phases has another T-count')
                    require(gsnap(g) == s0, 'split_phases changes the gate')
                rep.outcome('basic')
            with rep.case('move ' + key, dict(feats, op='reposition')):
                g = ctor(qs, p)
                require(g._max_target() == max(qs), '_max_target')
                s0 = gsnap(g)
                for mask in itertools.permutations(range(4 if ar < 3 else 5 if deep and ar == 3 else 4), ar):
                    h = g.reposition(list(mask))
                    require(gsnap(g) == s0, 'reposition changes the gate')
                    want = (name, tuple(mask[q] for q in qs), p)
                    nn = max(mask) + 1
                    c = zx.Circuit(nn)
                    c.add_gate(h)
                    w = circ.unitary(nn, [want])
                    same(w, U(c), 'reposition')
                    require(h._max_target() == max(mask), '_max_target after reposition')
                    require(h == ctor(want[1], p), 'the repositioned gate is not equal to the gate on the new qubits')
                    if nn <= 3:
                        same(w, ref.matrix(c.to_graph()), 'diagram after reposition')
                        same(w, U_qasm(h, nn), 'QASM after reposition')
                        same(w, np.linalg.inv(U_adj(h, nn)), 'adjoint after reposition')
                    rep.step()
                rep.outcome('move')
            with rep.case('copy ' + key, dict(feats, op='copy')):
                g = ctor(qs, p)
                h = g.copy()
                require(h == g and g == h and h is not g, 'a copy is not equal to the gate')
                s0 = gsnap(g)
                for at in list(vars(h)):
                    v = getattr(h, at)
                    setattr(h, at, [5] if isinstance(v, (list, tuple)) else 5)
                require(gsnap(g) == s0, 'a copy shares state with the gate')
                rep.outcome('copy')


def U_adj(g, n):
    c = zx.Circuit(n)
    c.add_gate(g.to_adjoint())
    return U(c)


def U_qasm(g, n):
    """Matrix read from the gate's own textual description of its qubits (falls back on its qubits when it has none)."""
    c = zx.Circuit(n)
    c.add_gate(g)
    if isinstance(g, G.FSim):
        return U(c)
    return U(zx.Circuit.from_qasm(c.to_qasm())) if len(qubits_of(g)) > 1 or not isinstance(g, G.ParityPhase) else U(c)


def pool(deep):
    out = []
    for name in circ.GATES:
        ar, k, ctor, mat = circ.GATES[name]
        ps = [p for p in C07.params(name, False) if not any(isinstance(x, float) for x in p)]
        if k >= 2:
            ps = [p for p in ps if set(p) <= {F(1, 4), F(-1, 3), F(1, 2), 1}][:40 if deep else 8]
        for p in ps:
            for qs in itertools.permutations(range(3), ar):
                out.append((name, qs, p))
    return [d for d in out if d[0] != 'PP4']


def fam_eq(rep, deep, i, m):
    """equal gates have equal matrices; equality is symmetric; different basic parameters are told apart"""
    pl = pool(deep)
    gs = [circ.mk(d) for d in pl]
    us = [None] * len(pl)
    for x in slice_iter(range(len(pl)), i, m):
        rep.state(str(pl[x]))
        with rep.case('eq %s' % (pl[x],), dict(gate=pl[x][0], op='eq')):
            require(gs[x] == circ.mk(pl[x]), 'a gate is not equal to the same gate built again')
            for y in range(len(pl)):
                rep.step()
                if gs[x] == gs[y]:
                    require(gs[y] == gs[x], '== is not symmetric for %s', gs[y])
                    for k in (x, y):
                        if us[k] is None:
                            us[k] = circ.unitary(3, [pl[k]])
                    same(us[x], us[y], 'equal gates %s and %s' % (pl[x], pl[y]))
                    rep.outcome('equal')
            for other in (Measurement(0, None), DiscardBit(0), G.InitAncilla(0), 'HAD', None):
                require(not gs[x] == other, 'a gate is equal to %s', other)


def fam_cls(rep):
    """measurement, discard and ancilla gates: copying, equality, moving onto other qubits and bits"""
    for t, b in itertools.product(range(3), [None, 0, 1, 2]):
        with rep.case('measure %s %s' % (t, b), dict(gate='Measurement')):
            g = Measurement(t, b)
            rep.state('%s %s' % (t, b))
            require(g == g.copy() and g.copy() is not g, 'a copied measurement is not equal')
            for t2, b2 in itertools.product(range(3), [None, 0, 1, 2]):
                require((g == Measurement(t2, b2)) == ((t, b) == (t2, b2)), 'measurement equality with %s %s', t2, b2)
                rep.step()
            for mask in itertools.permutations(range(4), 3):
                for bm in [None] + list(itertools.permutations(range(4), 3)):
                    h = g.reposition(list(mask), list(bm) if bm else None)
                    require((h.target, h.result_bit) == (mask[t], b if bm is None or b is None else bm[b]), 'reposition')
                    rep.step()
                    require((g.target, g.result_bit) == (t, b), 'reposition changes the measurement')
            rep.outcome('measure')
    for l1, l2 in itertools.product(range(3), repeat=2):
        for cl in (G.InitAncilla, G.PostSelect, DiscardBit):
            with rep.case('%s %s %s' % (cl.__name__, l1, l2), dict(gate=cl.__name__)):
                require((cl(l1) == cl(l2)) == (l1 == l2), 'equality of %s', cl.__name__)
                require(cl(l1).copy() == cl(l1), 'copy')
                rep.step()
        with rep.case('DiscardBit move %s %s' % (l1, l2), dict(gate='DiscardBit')):
            bm = list(itertools.permutations(range(3)))[l2]
            require(DiscardBit(l1).reposition([0, 1, 2], list(bm)).target == bm[l1], 'reposition')
        rep.outcome('label')
    # hybrid circuits: bits are kept by every operation
    for n1, b1, n2, b2 in itertools.product((1, 2), (0, 1, 2), (1, 2), (0, 1, 2)):
        with rep.case('bits %s' % ((n1, b1, n2, b2),), dict(op='bits')):
            c, d = zx.Circuit(n1, bit_amount=b1), zx.Circuit(n2, bit_amount=b2)
            for q in range(n1):
                for b in range(b1):
                    c.add_gate(Measurement(q, b))
            for q in range(n2):
                d.add_gate('ZPhase', q, F(1, 4))
                for b in range(b2):
                    d.add_gate(Measurement(q, b))
                    d.add_gate(DiscardBit(b))
            t = c @ d
            rep.state(str((n1, b1, n2, b2)))
            rep.step()
            require((t.qubits, t.bits) == (n1 + n2, b1 + b2), 'tensor has %d qubits and %d bits', t.qubits, t.bits)
            want = [gsnap(g) for g in c.gates]
            for g in d.gates:
                if isinstance(g, Measurement):
                    want.append(gsnap(Measurement(g.target + n1, g.result_bit + b1)))
                elif isinstance(g, DiscardBit):
                    want.append(gsnap(DiscardBit(g.target + b1)))
                else:
                    want.append(gsnap(G.ZPhase(g.target + n1, g.phase)))
            require([gsnap(g) for g in t.gates] == want, 'tensor moved the gates wrongly')
            t.to_graph()
            for nm, r in (('copy', d.copy()), ('to_basic_gates', d.to_basic_gates()), ('split_phase_gates', d.split_phase_gates())):
                require((r.qubits, r.bits) == (n2, b2), '%s: %d qubits and %d bits', nm, r.qubits, r.bits)
                require(len(r.gates) == len(d.gates), nm)
                r.to_graph()
            for bm in itertools.permutations(range(3), b2):
                e = zx.Circuit(3, bit_amount=3)
                e.add_circuit(d, mask=[2, 0][:n2], bit_mask=list(bm))
                for g, h in zip(d.gates, e.gates):
                    if isinstance(g, Measurement):
                        require((h.target, h.result_bit) == ([2, 0][g.target], bm[g.result_bit]), 'add_circuit with masks')
                    elif isinstance(g, DiscardBit):
                        require(h.target == bm[g.target], 'add_circuit with masks (DiscardBit)')
                rep.step()
            if n1 == n2 and b1 == b2:
                e = c + d
                require([gsnap(g) for g in e.gates] == [gsnap(g) for g in c.gates + d.gates] and e.bits == b1, 'sum')
            rep.outcome('bits')


# -- pairs of circuits -----------------------------------------------------------------------------------------------
NM2 = ['T', 'S*', 'HAD', 'CNOT', 'CRX', 'Tof', 'FSim', 'RZZ', 'PP2', 'U3', 'CU', 'CSX', 'Y', 'SWAP', 'CSWAP', 'SX*']
PAR = {'U2': [(F(1, 4), F(1, 3))], 'U3': [(F(1, 4), F(1, 2), F(1, 3))], 'CU3': [(F(1, 4), F(1, 2), F(1, 3))],
       'CU': [(F(1, 4), F(1, 2), F(1, 3), F(3, 4))], 'FSim': [(F(1, 2), F(1, 3))], 'ZPhase': [(F(1, 3),)], 'XPhase': [(F(3, 4),)]}


def circs(n, depth, names):
    if isinstance(depth, tuple):       # whole layers
        yield from (tuple(sq) for _, sq in big.layers(n, names, depth))
        return
    al = circ.alphabet(n, [nm for nm in names if circ.GATES[nm][0] <= n], PAR)
    for k in range(depth + 1):
        yield from circ.sequences(al, k, canon=False)


def share(a, b):
    ids = {id(g) for g in a.gates}
    return any(id(g) in ids for g in b.gates)


def fam_pair(rep, n1, n2, d1, d2, names, i, m):
    A = list(circs(n1, d1, names))
    B = list(circs(n2, d2, names))
    for sq in slice_iter(A, i, m):
        ua = circ.unitary(n1, sq)
        for tq in B:
            key = '%s | %s' % (circ.show(n1, sq), circ.show(n2, tq))
            rep.state(key)
            with rep.case(key, dict(op='pair')):
                ub = circ.unitary(n2, tq)
                a, b = circ.circuit(n1, sq), circ.circuit(n2, tq)
                sa, sb = circ.snapshot(a), circ.snapshot(b)
                t = a @ b
                same(np.kron(ua, ub), U(t), '@')
                require(not share(t, a) and not share(t, b), '@ shares gates with its arguments')
                t = a.tensor(b)
                require(t.qubits == n1 + n2, 'tensor')
                masks = itertools.permutations(range(n1), n2)
                for mask in masks if n1 < 4 else list(masks)[::17] + [tuple(range(n2)), tuple(range(n1))[-n2:], tuple(range(n1))[::-1][:n2]]:
                    c = a.copy()
                    require(not share(c, a), 'copy shares gates')
                    c.add_circuit(b, mask=list(mask))
                    same(circ.embed(ub, mask, n1) @ ua, U(c), 'add_circuit mask %s' % (mask,))
                    require(not share(c, b), 'add_circuit shares gates')
                    rep.step()
                if n1 == n2:
                    c = a + b
                    same(ub @ ua, U(c), '+')
                    require(not share(c, a) and not share(c, b), '+ shares gates')
                    c = a.copy()
                    c += b
                    same(ub @ ua, U(c), '+=')
                    require(not share(c, b), '+= shares gates')
                    c = a.copy()
                    c.add_circuit(b)
                    same(ub @ ua, U(c), 'add_circuit')
                    c.add_circuit(c)
                    same(ub @ ua @ ub @ ua, U(c), 'add_circuit to itself')
                    c = (a + b).adjoint()
                    same((ub @ ua).conj().T, U(c), 'adjoint')
                    rep.step(4)
                    if tuple(sq) == tuple(tq):
                        require(a.gates == b.gates, 'the same gates are not equal')
                require(circ.snapshot(a) == sa and circ.snapshot(b) == sb, 'an operation changed its arguments')
                rep.outcome('ok')


def fam_one(rep, n, depth, names, i, m):
    """unary operations and statistics"""
    for sq in slice_iter(circs(n, depth, names), i, m):
        key = circ.show(n, sq)
        rep.state(key)
        rep.sample(key)
        with rep.case(key, dict(op='unary')):
            u = circ.unitary(n, sq)
            c = circ.circuit(n, sq)
            s0 = circ.snapshot(c)
            a = c.adjoint()
            same(u.conj().T, U(a), 'adjoint')
            require(not share(a, c), 'adjoint shares gates')
            b = c.to_basic_gates()
            same(u, U(b), 'to_basic_gates')
            ex = expand(c.gates)
            s = c.split_phase_gates()
            same(u, U(s), 'split_phase_gates')
            same(u, U(b.split_phase_gates()), 'to_basic_gates + split_phase_gates')
            require(circ.snapshot(c) == s0, 'the circuit was changed')
            rep.step(4)
            require(len(c) == len(sq) and len(list(c)) == len(sq), 'len')
            require([gsnap(g) for g in b.gates] == [gsnap(g) for g in ex], 'to_basic_gates is not gate-wise')
            tc = ref_tcount(ex)
            two = sum(type(g).__name__ in ('CNOT', 'CZ') for g in ex)
            require(c.tcount() == tc, 'tcount is %s, the expanded gates have %s', c.tcount(), tc)
            require(b.tcount() == tc, 'tcount of the basic gates')
            require(s.tcount() == tc, 'tcount of the split gates is %s, not %s', s.tcount(), tc)
            require(c.twoqubitcount() == two, 'twoqubitcount is %s, not %s', c.twoqubitcount(), two)
            st = c.stats_dict(depth=True)
            gl = c.gates
            had = sum(isinstance(g, G.HAD) for g in gl)
            tq = sum(isinstance(g, (G.CNOT,)) or type(g).__name__ in ('CZ', 'XCX', 'SWAP') for g in gl)
            cl = had + tq + sum(isinstance(g, (G.ZPhase, G.XPhase)) and F(g.phase).denominator <= 2 for g in gl)
            known = sum(isinstance(g, (G.ZPhase, G.XPhase, G.HAD, G.CNOT)) or type(g).__name__ in ('CZ', 'XCX', 'SWAP') for g in gl)
            want = dict(qubits=n, gates=len(gl), tcount=tc, clifford=cl, twoqubit=tq, had=had, measurement=0,
                        cnot=sum(isinstance(g, G.CNOT) for g in gl), other=len(gl) - known, depth=layers(ex, n))
            for k, v in want.items():
                require(st[k] == v, 'stats %s: %s instead of %s', k, st[k], v)
            require(c.depth() == layers(gl, n), 'depth is %s instead of %s', c.depth(), layers(gl, n))
            ncz = []
            for g in ex:
                ncz += [G.HAD(g.target), G.CNOT(g.control, g.target), G.HAD(g.target)] if isinstance(g, G.CZ) else [g]
            require(st['depth_cz'] == layers(ncz, n), 'depth without CZ')
            txt = c.stats(depth=True)
            require('%d qubits with %d gates' % (n, len(gl)) in txt and '%d is the T-count' % tc in txt, 'stats text')
            rep.outcome('t%d' % min(tc, 9))


# -- histories ---------------------------------------------------------------------------------------------------
G1 = ('CRX', (0, 1), (F(1, 4),))
G2 = ('T', (1,), ())
G3 = ('CSX', (1, 0), ())
G4 = ('U3', (0,), (F(1, 4), F(1, 2), F(1, 3)))


def hist_ops():
    ops = []
    for r in (0, 1):
        for g in (G1, G2, G3, G4):
            ops.append(('add', r, g))
        ops.append(('pre', r, G2))
        ops.append(('pre', r, G1))
        ops.append(('adj', r))
        ops.append(('basic', r))
        ops.append(('split', r))
        ops.append(('copyto', r))
        ops.append(('iadd', r))
        ops.append(('self+', r))
        ops.append(('mask', r, (1, 0)))
        ops.append(('selfmask', r))
        ops.append(('row', r))
        ops.append(('col', r))
    return ops


def fam_hist(rep, depth, i, m):
    ops = hist_ops()
    first = list(itertools.product(ops, repeat=2))
    e4 = np.eye(4, dtype=complex)
    CN = circ.ctrl(circ.XM)
    for o1, o2 in slice_iter(first, i, m):
        for rest in itertools.product(ops, repeat=depth - 2):
            sq = (o1, o2) + rest
            if sq[0][1] == 1 and sq[0][0] != 'add':
                continue
            key = ' '.join('%s%s' % (o[0], o[1]) + (str(o[2]) if len(o) > 2 else '') for o in sq)
            rep.state(key)
            with rep.case(key, dict(op='history')):
                regs = [circ.circuit(2, [('CNOT', (0, 1), ())]), circ.circuit(2, [('T', (0,), ()), ('HAD', (1,), ())])]
                us = [U(c) for c in regs]
                for o in sq:
                    r = o[1]
                    other = regs[1 - r]
                    s_other = circ.snapshot(other)
                    old = regs[r]
                    if o[0] == 'add':
                        regs[r].add_gate(circ.mk(o[2]))
                        us[r] = circ.unitary(2, [o[2]]) @ us[r]
                    elif o[0] == 'pre':
                        regs[r].prepend_gate(circ.mk(o[2]))
                        us[r] = us[r] @ circ.unitary(2, [o[2]])
                    elif o[0] == 'adj':
                        regs[r] = regs[r].adjoint()
                        us[r] = us[r].conj().T
                    elif o[0] == 'basic':
                        regs[r] = regs[r].to_basic_gates()
                    elif o[0] == 'split':
                        regs[r] = regs[r].split_phase_gates()
                    elif o[0] == 'copyto':
                        regs[r] = other.copy()
                        us[r] = us[1 - r]
                    elif o[0] == 'iadd':
                        regs[r] += other
                        us[r] = us[1 - r] @ us[r]
                    elif o[0] == 'self+':
                        regs[r] = regs[r] + regs[r]
                        us[r] = us[r] @ us[r]
                    elif o[0] == 'mask':
                        regs[r].add_circuit(other, mask=list(o[2]))
                        us[r] = circ.embed(us[1 - r], o[2], 2) @ us[r]
                    elif o[0] == 'selfmask':
                        regs[r].add_circuit(regs[r].copy(), mask=[1, 0])
                        us[r] = circ.embed(us[r], (1, 0), 2) @ us[r]
                    elif o[0] == 'row':
                        regs[r].row_add(1, 0)
                        us[r] = circ.embed(CN, (1, 0), 2) @ us[r]
                    elif o[0] == 'col':
                        regs[r].col_add(0, 1)
                        us[r] = us[r] @ circ.embed(CN, (1, 0), 2)
                    require(circ.snapshot(other) == s_other, 'operation %s changed the other circuit', o[0])
                    require(not share(regs[0], regs[1]), 'after %s two circuits share gates', o[0])
                    rep.step()
                for r in (0, 1):
                    same(us[r], U(regs[r]), 'register %d' % r)
                rep.outcome(len(regs[0].gates) // 4)


def fam_expr(rep):
    """gate and circuit expressions with + and @"""
    import operator
    gs = [('T', (0,), ()), ('HAD', (1,), ()), ('CNOT', (1, 0), ()), ('Tof', (2, 0, 1), ()), ('PP2', (0, 2), (F(1, 4),)), ('CRZ', (0, 1), (F(1, 4),)),
          ('FSim', (1, 0), (F(1, 2), F(1, 3)))]
    for a, b in itertools.product(gs, repeat=2):
        na, nb = max(a[1]) + 1, max(b[1]) + 1
        n = max(na, nb)
        with rep.case('expr %s %s' % (a, b), dict(op='expr')):
            rep.state(str((a, b)))
            ga, gb = circ.mk(a), circ.mk(b)
            same(circ.unitary(n, [a, b]), U(ga + gb), 'gate + gate')
            ua, ub = circ.unitary(na, [a]), circ.unitary(nb, [b])
            same(np.kron(ua, ub), U(ga @ gb), 'gate @ gate')
            same(np.kron(ua, ub), U(circ.circuit(na, [a]) @ gb), 'circuit @ gate')
            same(np.kron(ua, ub), U(ga @ circ.circuit(nb, [b])), 'gate @ circuit')
            c = circ.circuit(na, [a])
            c += gb
            same(circ.unitary(n, [a, b]), U(c), 'circuit += gate')
            if na == nb:
                same(circ.unitary(n, [a, b]), U(ga + circ.circuit(nb, [b])), 'gate + circuit')
            rep.step(5)
            rep.outcome('ok')
    for n in range(4):
        with rep.case('empty %d' % n, dict(op='empty')):
            c = zx.Circuit(n)
            require(c.depth() == 0 and c.tcount() == 0 and c.twoqubitcount() == 0, 'empty circuit')
            c.stats(depth=True)
            require(np.allclose(U(c.adjoint()), np.eye(2 ** n)), 'empty')
            rep.step()
    for bad, args in ((lambda: zx.Circuit(2).add_circuit(zx.Circuit(3)), 0), (lambda: zx.Circuit(3).add_circuit(zx.Circuit(2), mask=[0]), 0),
                      (lambda: zx.Circuit(2, bit_amount=1).add_circuit(zx.Circuit(2)), 0), (lambda: zx.Circuit(2) @ 3, 0)):
        with rep.case('mismatch', dict(op='mismatch')):
            try:
                bad()
                ok = False
            except Exception:
                ok = True
            require(ok, 'a mismatch of sizes is not refused')


FAMILIES = dict(gate=fam_gate, eq=fam_eq, cls=fam_cls, pair=fam_pair, one=fam_one, hist=fam_hist, expr=fam_expr)


def tasks(tier):
    deep = tier == 'thorough'
    T = [('cls', ()), ('expr', ())]

    def add(fam, args, n):
        for i in range(n):
            T.append((fam, tuple(args) + (i, n)))
    for nm in circ.GATES:
        add('gate', (nm, deep), 4 if circ.GATES[nm][1] > 2 else 1)
    add('eq', (deep,), 16)
    ALL = [nm for nm in circ.GATES if nm != 'PP4']
    S = NM2 if not deep else ALL
    add('pair', (2, 2, 1, 1, S), 16)
    add('pair', (3, 2, 1, 1, S), 16)
    add('pair', (3, 3, 1, 1, S if not deep else NM2), 16 if not deep else 64)
    add('pair', (2, 1, 2, 2, ['T', 'HAD', 'CNOT', 'U3', 'SX*', 'CRX'] if not deep else NM2), 16)
    add('one', (2, 2, ALL), 16)
    add('one', (3, 2, NM2 if not deep else ALL), 16 if not deep else 64)
    if deep:
        add('one', (2, 3, NM2), 64)
    GL = tuple('@' + nm for nm in circ.GATES if circ.GATES[nm][0] > 1 or nm in ('U2', 'U3', 'SX*', 'YPhase', 'Y'))
    add('one', (4, (1,), GL), 8)
    add('one', (5, (1,), GL), 16)
    add('one', (4, (2,), GL if deep else ('@CRX', '@Tof', '@CSWAP', '@FSim', '@CU3', '@PP3', '@CSX', 'H', 'M', '@YPhase')), 32)
    add('one', (5, (2, 3) if deep else (2,), ('H', 'Tr', 'cp', 'zo', 'M', 'yp', 'Px', 'X')), 16)
    add('pair', (4, 4, (1, 2) if deep else (1,), (1,), ('H', 'Tr', 'cp', 'zo', 'M', '@CRX', '@Tof', '@PP3')), 16)
    add('pair', (5, 4, (1,), (1,), ('Tr', 'cp', 'M', '@CSWAP', '@U3', '@PP4')), 16)
    add('hist', (3 if not deep else 4,), 32 if not deep else 128)
    return T


ASSUME = ['standard gate matrices in lib/circ.py (qubit 0 most significant)', 'circuits are compared up to a global phase']
BOUNDS = dict(quick='every gate x parameters x placements x all injective masks into 4 qubits; all pairs of pool gates; pairs of circuits of depth 1 on 2-3 qubits; histories of 3 operations on 2 circuits',
              thorough='finer parameters; all gates in pairs; depth 3 statistics; histories of 4 operations')


def run():
    return core.main('C08', FAMILIES, tasks, ASSUME, BOUNDS)
