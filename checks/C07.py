"""C07: every gate is translated to a diagram with its standard matrix; circuits are products."""
import itertools
from fractions import Fraction as F
import numpy as np
import core
from core import require, slice_iter
import ref, circ, big
import pyzx as zx
from pyzx.circuit import gates as G
from pyzx.circuit.gates import Measurement, DiscardBit, InitAncilla, PostSelect
from pyzx.symbolic import new_var, Poly, Term, Var

EIGHTH = [F(k, 4) for k in range(8)] + [1, 0, -1]
ODD = [F(1, 3), F(-1, 4), F(5, 2), F(7, 16), 0.3]
# matrix convention of the basic gates is exact, including the scalar
EXACT = {'ZPhase', 'XPhase', 'Z', 'S', 'S*', 'T', 'T*', 'NOT', 'SX', 'SX*', 'HAD', 'CNOT', 'CZ', 'XCX', 'SWAP', 'CCZ', 'Tof'}


def params(name, deep):
    k = circ.GATES[name][1]
    if name == 'FSim':
        return [(F(1, 2), p) for p in EIGHTH + [F(1, 3)]]
    if k == 0:
        return [()]
    if k == 1:
        return [(p,) for p in EIGHTH + ODD]
    if k == 2:
        return list(itertools.product(EIGHTH if deep else (0, F(1, 4), F(1, 2), 1, F(-1, 3)), repeat=2))
    if k == 3:
        vals = (0, F(1, 4), F(1, 2), 1, F(-1, 3)) if deep else (0, F(1, 4), 1, F(-1, 3))
    else:
        vals = (0, F(1, 4), 1, F(-1, 3)) if deep else (F(1, 2), F(1, 4), F(-1, 3))
    return list(itertools.product(vals, repeat=k))


def cmp(u, m, exact, what):
    require(m.shape == u.shape, '%s: shape %s instead of %s', what, m.shape, u.shape)
    if exact:
        require(ref.close(u, m, 1e-6), '%s is not the standard matrix of the gates (including the scalar)', what)
    else:
        require(circ.up_to_phase(u, m), '%s is not the standard matrix of the gates (up to a phase)', what)


def variants(n, sq, backends=('simple', 'multigraph')):
    zhs = (False, True) if any(g[0] in ('CCZ', 'Tof', 'CSWAP', 'SWAP', 'CHAD', 'CRZ', 'XCX') for g in sq) else (False,)
    for be in backends:
        for zh in zhs:
            for cr in (True, False):
                yield dict(zh=zh, compress_rows=cr, backend=be)


def check_circuit(rep, n, sq, backends=('simple', 'multigraph'), allv=True, tomat=False):
    key = circ.show(n, sq)
    if not rep.state(key):
        return
    rep.sample(key)
    u = circ.unitary(n, sq)
    exact = all(g[0] in EXACT for g in sq)
    for kw in list(variants(n, sq, backends))[:None if allv else 2]:
        feats = dict(gates='+'.join(g[0] for g in sq) if len(sq) == 1 else 'sequence', **kw)
        with rep.case('%s %s' % (key, sorted(kw.items())), feats):
            c = circ.circuit(n, sq)
            s0 = circ.snapshot(c)
            g = c.to_graph(**kw)
            require(circ.snapshot(c) == s0, 'to_graph changed the circuit')
            require(len(g.inputs()) == n and len(g.outputs()) == n, 'wrong number of inputs/outputs')
            for k, v in enumerate(g.inputs()):
                require(g.qubit(v) == k, 'input %d lies on line %s', k, g.qubit(v))
            for k, v in enumerate(g.outputs()):
                require(g.qubit(v) == k, 'output %d lies on line %s', k, g.qubit(v))
            for e in g.edges():
                a, b = g.edge_st(e)
                if {a, b} & (set(g.inputs()) | set(g.outputs())):
                    require(g.row(a) != g.row(b), 'a boundary is on the row of its neighbour')
            cmp(u, ref.matrix(g), exact, 'diagram')
            rep.outcome('exact' if exact else 'phase')
            rep.step()
    if tomat:
        with rep.case('matrix ' + key, dict(gates=sq[0][0], what='to_matrix')):
            cmp(u, np.asarray(circ.circuit(n, sq).to_matrix()), exact, 'to_matrix')
            rep.step()


def fam_gate(rep, name, extra, deep, i, m):
    n = circ.GATES[name][0] + extra
    cs = ((n, ((name, qs, p),)) for p in params(name, deep) for qs in circ.placements(name, n))
    for n, sq in slice_iter(cs, i, m):
        check_circuit(rep, n, sq, ('simple', 'multigraph') if not extra else ('simple',), allv=not extra,
                      tomat=(not extra))


def alphabet(n, names):
    return circ.alphabet(n, names, {'U2': [(F(1, 4), F(1, 3))], 'U3': [(F(1, 4), F(1, 2), F(1, 3))],
                                    'CU3': [(F(1, 4), F(1, 2), F(1, 3))], 'CU': [(F(1, 4), F(1, 2), F(1, 3), F(3, 4))],
                                    'FSim': [(F(1, 2), F(1, 3))], 'ZPhase': [(F(1, 3),)], 'XPhase': [(F(3, 4),)]})


def fam_seq(rep, n, depth, names, i, m):
    al = alphabet(n, names)
    for sq in slice_iter(circ.sequences(al, depth, canon=False), i, m):
        check_circuit(rep, n, sq, ('simple',), allv=False)


def fam_layers(rep, n, menu, lengths, opts, i, m):
    for nm, sq in slice_iter(big.layers(n, menu, lengths), i, m):
        check_circuit(rep, n, sq, opts, allv=False)


# -- names of the gate table ------------------------------------------------------------------------------
def fam_names(rep):
    """every gate can be added by its name, its printed name, its class"""
    for name, (ar, k, ctor, mat) in circ.GATES.items():
        for p in params(name, False)[:2]:
            qs = tuple(range(ar))[::-1]
            with rep.case('%s %s' % (name, p), dict(gate=name)):
                gate = ctor(qs, p)
                rep.state(name + str(p))
                rep.step()
                u = circ.unitary(ar, [(name, qs, p)])
                # printed name is usable in add_gate
                nm = gate.name
                adj = getattr(gate, 'adjoint', None)
                c = zx.Circuit(ar)
                if isinstance(gate, G.ParityPhase) and not isinstance(gate, G.RZZ):
                    c.add_gate(nm, p[0], *qs)
                elif adj is not None:
                    c.add_gate(nm, *qs, adjoint=adj)
                else:
                    c.add_gate(nm, *qs, *p)
                require(circ.up_to_phase(u, circ.circuit_unitary(c)), 'add_gate(%r) adds another gate', nm)
                c2 = zx.Circuit(ar)
                c2.add_gate('HAD', 0)
                c2.prepend_gate(gate)
                require(circ.up_to_phase(circ.embed(circ.HM, (0,), ar) @ u, circ.circuit_unitary(c2)), 'prepend_gate puts the gate elsewhere')
                rep.outcome('ok')


# -- classical control, measurement, ancillas ----------------------------------------------------------------
def channel_ops(n, bits, ops):
    """Doubled map of the sequence as tensor rho_out,bits <- rho_in,bits with all bits as (doubled) wires."""
    N = n + bits
    d = 2 ** N
    S = np.eye(d * d, dtype=complex).reshape((2,) * (2 * N) + (d * d,))   # axes: ket N, bra N

    def ap(K, qs):
        nonlocal S
        tot = 0
        for k in K:
            x = circ.apply(k, list(qs), S, 2 * N)
            x = circ.apply(k.conj(), [q + N for q in qs], x, 2 * N)
            tot = tot + x
        S = tot
    P0, P1 = np.diag([1, 0]).astype(complex), np.diag([0, 1]).astype(complex)
    for op in ops:
        if op[0] == 'M':
            _, q, b = op
            # trace the bit, measure, write the result
            if b is None:
                ap([P0, P1], [q])
                continue
            ks = []
            for j in (0, 1):
                for mres in (0, 1):
                    e = np.zeros((2, 2), complex)
                    e[mres, j] = 1
                    ks.append(np.kron(P0 if mres == 0 else P1, e))
            ap(ks, [q, n + b])
        elif op[0] == 'D':
            ks = []
            for j in (0, 1):
                e = np.zeros((2, 2), complex)
                e[0, j] = 1
                ks.append(e)
            ap(ks, [n + op[1]])
        else:
            ap([circ.gate_matrix(op)], op[1])
    return S.reshape(d * d, d * d)


def mk_op(op):
    if op[0] == 'M':
        return Measurement(op[1], op[2])
    if op[0] == 'D':
        return DiscardBit(op[1])
    return circ.mk(op)


def fam_measure(rep, n, bits, depth, i, m):
    al = [('HAD', (q,), ()) for q in range(n)] + [('T', (q,), ()) for q in range(min(1, n))]
    if n > 1:
        al += [('CNOT', (0, 1), ())]
    al += [('M', q, b) for q in range(n) for b in [None] + list(range(bits))] + [('D', b) for b in range(bits)]
    seqs = itertools.chain.from_iterable(itertools.product(al, repeat=k) for k in range(1, depth + 1))
    for sq in slice_iter((s for s in seqs if any(o[0] in 'MD' and len(o[0]) == 1 for o in s)), i, m):
        key = '%d+%d %s' % (n, bits, ';'.join('%s%s' % (o[0], o[1:]) for o in sq))
        rep.state(key)
        rep.sample(key)
        want = channel_ops(n, bits, sq)
        for be in ('simple', 'multigraph'):
            for cr in (True, False):
                with rep.case('%s %s %s' % (key, be, cr), dict(gate='measure', backend=be)):
                    c = zx.Circuit(n, bit_amount=bits)
                    for o in sq:
                        c.add_gate(mk_op(o))
                    g = c.to_graph(backend=be, compress_rows=cr)
                    t = ref.value(g, doubled=True)
                    k = n + bits
                    # axes: (ins ket, bra interleaved?) -> see ref.value
                    got = to_super(t, k, k)
                    rep.step()
                    require(circ.up_to_scalar(want, got), 'the diagram is not the channel of the measured circuit')
                    a = np.abs(want).max()
                    j = np.unravel_index(np.argmax(np.abs(want)), want.shape)
                    rep.outcome('scale %.3f' % abs(got[j] / want[j]))


def to_super(t, ni, no):
    """Doubled tensor (ket inputs, ket outputs, bra inputs, bra outputs) -> matrix (ket out, bra out) x (ket in, bra in)."""
    r = range
    w = ni + no
    return np.asarray(t).transpose([*r(ni, w), *r(w + ni, 2 * w), *r(ni), *r(w, w + ni)]).reshape(4 ** no, 4 ** ni)


def fam_ancilla(rep, i, m):
    """|+> preparation and <+| post-selection on labelled extra wires"""
    labels = [2, 7, 9, 'a']
    base = [('HAD', (0,), ()), ('CNOT', (0, 1), ()), ('T', (1,), ())]
    progs = []
    for lab in labels:
        for g1 in (None, ('CNOT', (0, lab), ()), ('CZ', (lab, 1), ()), ('CNOT', (lab, 1), ())):
            for g2 in (None, ('T', (lab,), ()), ('CNOT', (lab, 0), ()), ('HAD', (lab,), ())):
                for post in (True, False):
                    for pre in (None,) + tuple(base):
                        progs.append([pre, ('I', lab), g1, g2, ('P', lab) if post else None, base[1]])
    for l1, l2 in itertools.permutations(labels, 2):
        for post in ((), (l1,), (l2,), (l1, l2), (l2, l1)):
            progs.append([('I', l1), ('CNOT', (0, l1), ()), ('I', l2), ('CZ', (l1, l2), ()), ('CNOT', (l2, 1), ())] +
                         [('P', l) for l in post] + [base[0]])
        # reuse of a label after post-selection
        progs.append([('I', l1), ('CNOT', (0, l1), ()), ('P', l1), ('I', l1), ('T', (l1,), ()), ('CZ', (l1, 1), ())])
        progs.append([('I', l1), ('I', l2), ('CZ', (l1, l2), ()), ('P', l1), ('I', l1), ('CNOT', (l1, l2), ()), ('CNOT', (l2, 1), ())])
    for prog in slice_iter(progs, i, m):
        prog = [p for p in prog if p is not None]
        key = ';'.join('%s%s' % (o[0], o[1:]) for o in prog)
        rep.state(key)
        rep.sample(key)
        with rep.case(key, dict(gate='ancilla')):
            wires = [0, 1]
            t = np.eye(4, dtype=complex).reshape(2, 2, 4)
            c = zx.Circuit(2)
            for o in prog:
                if o[0] == 'I':
                    wires.append(o[1])
                    t = np.moveaxis(np.multiply.outer(t, np.ones(2)), -1, -2)
                    c.add_gate(InitAncilla(o[1]))
                elif o[0] == 'P':
                    k = wires.index(o[1])
                    t = t.sum(axis=k)
                    wires.remove(o[1])
                    c.add_gate(PostSelect(o[1]))
                else:
                    t = circ.apply(circ.gate_matrix(o), [wires.index(w) for w in o[1]], t, len(wires))
                    c.add_gate(circ.mk(o))
            for be in ('simple', 'multigraph'):
                for cr in (True, False):
                    g = c.to_graph(backend=be, compress_rows=cr)
                    rep.step()
                    cmp(t.reshape(-1, 4), ref.matrix(g), True, 'diagram with ancillas (%s)' % be)
            rep.outcome(len(wires))


# -- symbolic phases -------------------------------------------------------------------------------------------
SYM = ['ZPhase', 'XPhase', 'YPhase', 'CRX', 'CRY', 'CRZ', 'CPhase', 'RXX', 'RZZ', 'PP1', 'PP2', 'PP3', 'U2', 'U3', 'CU3', 'CU', 'FSim']


def fam_sym(rep, i, m):
    a, b = new_var('a', False), new_var('b', False)
    exprs = [('a', a, lambda x, y: x), ('a+b', a + b, lambda x, y: x + y), ('-a', -a, lambda x, y: -x),
             ('1/2*a+1/4', a * F(1, 2) + F(1, 4), lambda x, y: x / 2 + F(1, 4)), ('2a', a * 2, lambda x, y: 2 * x)]
    cases = [(nm, e) for nm in SYM for e in exprs]
    for nm, (en, ex, fn) in slice_iter(cases, i, m):
        ar, k, ctor, mat = circ.GATES[nm]
        for pos in range(k):
            if nm == 'FSim' and pos == 0:
                continue
            p0 = [F(1, 2), F(1, 4), F(3, 4), F(1, 8)][:k]
            for qs in circ.placements(nm, ar):
                with rep.case('%s[%d]=%s %s' % (nm, pos, en, qs), dict(gate=nm, what='symbolic')):
                    ps = list(p0)
                    ps[pos] = ex
                    c = zx.Circuit(ar)
                    c.add_gate(ctor(qs, tuple(ps)))
                    g = c.to_graph()
                    rep.state('%s%s%s%s' % (nm, pos, en, qs))
                    for va, vb in ((F(1, 4), F(1, 3)), (F(0), F(1, 2)), (F(-5, 4), F(7, 3))):
                        pv = list(p0)
                        pv[pos] = fn(va, vb)
                        u = circ.unitary(ar, [(nm, qs, tuple(pv))])
                        t = ref.value(g, env={'a': va, 'b': vb})
                        mt = t.transpose(list(range(ar, 2 * ar)) + list(range(ar))).reshape(2 ** ar, 2 ** ar)
                        rep.step()
                        cmp(u, mt, False, 'diagram with a=%s b=%s' % (va, vb))
                    rep.outcome(nm)


FAMILIES = dict(layers=fam_layers, gate=fam_gate, seq=fam_seq, names=fam_names, measure=fam_measure, ancilla=fam_ancilla, sym=fam_sym)
ALL = list(circ.GATES)
SMALL = ['ZPhase', 'XPhase', 'HAD', 'CNOT', 'CZ', 'SWAP', 'CPhase', 'Tof', 'YPhase', 'CRY', 'XCX', 'PP2', 'PP3', 'FSim', 'CY', 'CSX']


def tasks(tier):
    deep = tier == 'thorough'
    T = []

    def add(fam, args, n):
        for i in range(n):
            T.append((fam, tuple(args) + (i, n)))
    T.append(('names', ()))
    for nm in ALL:
        w = 4 if circ.GATES[nm][1] >= 3 else 1
        add('gate', (nm, 0, deep), w * (2 if deep else 1))
        if circ.GATES[nm][0] < 4:
            add('gate', (nm, 1, deep and circ.GATES[nm][1] < 3), w)
        if deep and circ.GATES[nm][0] < 3:
            add('gate', (nm, 2, False), w)
    add('seq', (2, 2, ALL), 16)
    add('seq', (3, 2, SMALL if not deep else ALL), 16 if not deep else 64)
    add('seq', (2, 3, ['T', 'HAD', 'CNOT', 'CZ', 'SWAP', 'CY', 'XCX', 'CHAD', 'XPhase'] if not deep else SMALL), 8 if not deep else 64)
    GL = tuple('@' + nm for nm in circ.GATES if circ.GATES[nm][0] > 1 or nm in ('U2', 'U3', 'SX*', 'YPhase', 'Y'))
    add('layers', (4, GL, (1,), ('simple', 'multigraph')), 16)
    add('layers', (5, GL, (1,), ('simple',)), 16)
    add('layers', (4, GL + ('H', 'M', 'cp', 'T', 'zo'), (2,), ('simple',)), 32)
    add('layers', (4, ('H', 'Tr', 'cp', 'zo', 'M', 'yp', 'Px', 'X'), (2, 3) if deep else (2,), ('simple', 'multigraph')), 16)
    add('layers', (5, ('H', 'Tr', 'ci', 'zk', 'R', 'tp', 'V'), (3,) if deep else (2,), ('simple',)), 16)
    add('measure', (1, 1, 3), 2)
    add('measure', (2, 1, 2), 2)
    add('measure', (1, 2, 2 if not deep else 3), 2)
    add('measure', (2, 2, 1 if not deep else 2), 2 if not deep else 8)
    add('ancilla', (), 8)
    add('sym', (), 8)
    return T


ASSUME = ['composite gates are compared up to a global phase (their decompositions ignore it), with exact norm; basic gates exactly',
          'FSim only with theta=pi/2 (the only value the gate accepts)']
BOUNDS = 'every gate, every placement on arity..arity+2 qubits, all parameters on a grid of multiples of pi/4 and some others; all gate sequences of length 2 on <=3 qubits and 3 on 2 qubits; measured circuits of <=3 operations'


def run():
    return core.main('C07', FAMILIES, tasks, ASSUME, BOUNDS)
