"""Circuits as plain data + independent standard matrices.

A gate descriptor is (name, qubits, params); qubit 0 is the most significant bit."""
import cmath, itertools, math
from fractions import Fraction as F
import numpy as np
import pyzx as zx
from pyzx.circuit import gates as G

R = 1 / math.sqrt(2)
HM = np.array([[R, R], [R, -R]], dtype=complex)
XM = np.array([[0, 1], [1, 0]], dtype=complex)
YM = np.array([[0, -1j], [1j, 0]])
ZM = np.diag([1, -1]).astype(complex)
I2 = np.eye(2, dtype=complex)


def ex(p):
    return cmath.exp(1j * math.pi * float(p))


def P(p):
    return np.diag([1, ex(p)])


def RZ(p):
    return np.diag([ex(-p / 2), ex(p / 2)])


def RX(p):
    return HM @ RZ(p) @ HM


def RY(p):
    c, s = math.cos(math.pi * float(p) / 2), math.sin(math.pi * float(p) / 2)
    return np.array([[c, -s], [s, c]], dtype=complex)


def U(t, ph, la):
    c, s = math.cos(math.pi * float(t) / 2), math.sin(math.pi * float(t) / 2)
    return np.array([[c, -ex(la) * s], [ex(ph) * s, ex(ph + la) * c]])


def ctrl(m, k=1):
    n = m.shape[0]
    r = np.eye(n * 2 ** k, dtype=complex)
    r[-n:, -n:] = m
    return r


SWAPM = np.eye(4, dtype=complex)[[0, 2, 1, 3]]


def parity(p, n):
    return np.diag([ex(p) if bin(k).count('1') % 2 else 1 for k in range(2 ** n)])


def rxx(p):
    hh = np.kron(HM, HM)
    return hh @ parity(p, 2) @ hh


def fsim(t, p):
    c, s = math.cos(math.pi * float(t)), math.sin(math.pi * float(t))
    return np.array([[1, 0, 0, 0], [0, c, -1j * s, 0], [0, -1j * s, c, 0], [0, 0, 0, ex(-p)]])


# name: (arity, number of params, constructor(qubits, params), matrix(params), matrix exact in the diagram?)
GATES = {
    'ZPhase': (1, 1, lambda q, p: G.ZPhase(q[0], p[0]), lambda p: P(p[0])),
    'XPhase': (1, 1, lambda q, p: G.XPhase(q[0], p[0]), lambda p: HM @ P(p[0]) @ HM),
    'YPhase': (1, 1, lambda q, p: G.YPhase(q[0], p[0]), lambda p: RY(p[0])),
    'Z': (1, 0, lambda q, p: G.Z(*q), lambda p: ZM),
    'S': (1, 0, lambda q, p: G.S(*q), lambda p: P(0.5)),
    'S*': (1, 0, lambda q, p: G.S(q[0], adjoint=True), lambda p: P(-0.5)),
    'T': (1, 0, lambda q, p: G.T(*q), lambda p: P(0.25)),
    'T*': (1, 0, lambda q, p: G.T(q[0], adjoint=True), lambda p: P(-0.25)),
    'NOT': (1, 0, lambda q, p: G.NOT(*q), lambda p: XM),
    'Y': (1, 0, lambda q, p: G.Y(*q), lambda p: YM),
    'SX': (1, 0, lambda q, p: G.SX(*q), lambda p: HM @ P(0.5) @ HM),
    'SX*': (1, 0, lambda q, p: G.SX(q[0], adjoint=True), lambda p: HM @ P(-0.5) @ HM),
    'HAD': (1, 0, lambda q, p: G.HAD(*q), lambda p: HM),
    'CNOT': (2, 0, lambda q, p: G.CNOT(*q), lambda p: ctrl(XM)),
    'CZ': (2, 0, lambda q, p: G.CZ(*q), lambda p: ctrl(ZM)),
    'CY': (2, 0, lambda q, p: G.CY(*q), lambda p: ctrl(YM)),
    'CHAD': (2, 0, lambda q, p: G.CHAD(*q), lambda p: ctrl(HM)),
    'CSX': (2, 0, lambda q, p: G.CSX(*q), lambda p: ctrl(HM @ P(0.5) @ HM)),
    'XCX': (2, 0, lambda q, p: G.XCX(*q), lambda p: np.kron(HM, I2) @ ctrl(XM) @ np.kron(HM, I2)),
    'SWAP': (2, 0, lambda q, p: G.SWAP(*q), lambda p: SWAPM),
    'CRX': (2, 1, lambda q, p: G.CRX(q[0], q[1], p[0]), lambda p: ctrl(RX(p[0]))),
    'CRY': (2, 1, lambda q, p: G.CRY(q[0], q[1], p[0]), lambda p: ctrl(RY(p[0]))),
    'CRZ': (2, 1, lambda q, p: G.CRZ(q[0], q[1], p[0]), lambda p: ctrl(RZ(p[0]))),
    'CPhase': (2, 1, lambda q, p: G.CPhase(q[0], q[1], p[0]), lambda p: ctrl(P(p[0]))),
    'RXX': (2, 1, lambda q, p: G.RXX(q[0], q[1], p[0]), lambda p: rxx(p[0])),
    'RZZ': (2, 1, lambda q, p: G.RZZ(q[0], q[1], p[0]), lambda p: parity(p[0], 2)),
    'FSim': (2, 2, lambda q, p: G.FSim(q[0], q[1], p[0], p[1]), lambda p: fsim(p[0], p[1])),
    'CCZ': (3, 0, lambda q, p: G.CCZ(*q), lambda p: ctrl(ZM, 2)),
    'Tof': (3, 0, lambda q, p: G.Tofolli(*q), lambda p: ctrl(XM, 2)),
    'CSWAP': (3, 0, lambda q, p: G.CSWAP(*q), lambda p: ctrl(SWAPM)),
    'U2': (1, 2, lambda q, p: G.U2(q[0], *p), lambda p: U(0.5, p[0], p[1])),
    'U3': (1, 3, lambda q, p: G.U3(q[0], *p), lambda p: U(*p)),
    'CU3': (2, 3, lambda q, p: G.CU3(q[0], q[1], *p), lambda p: ctrl(U(*p))),
    'CU': (2, 4, lambda q, p: G.CU(q[0], q[1], *p), lambda p: ctrl(ex(p[3]) * U(*p[:3]))),
    'PP1': (1, 1, lambda q, p: G.ParityPhase(p[0], *q), lambda p: parity(p[0], 1)),
    'PP2': (2, 1, lambda q, p: G.ParityPhase(p[0], *q), lambda p: parity(p[0], 2)),
    'PP3': (3, 1, lambda q, p: G.ParityPhase(p[0], *q), lambda p: parity(p[0], 3)),
    'PP4': (4, 1, lambda q, p: G.ParityPhase(p[0], *q), lambda p: parity(p[0], 4)),
}


def d(name, qubits, *params):
    return (name, tuple(qubits) if not isinstance(qubits, int) else (qubits,), tuple(params))


def mk(desc):
    return GATES[desc[0]][2](desc[1], desc[2])


def circuit(n, descs):
    c = zx.Circuit(n)
    for g in descs:
        c.gates.append(mk(g))
    return c


_mcache = {}


def gate_matrix(desc):
    k = (desc[0], desc[2])
    m = _mcache.get(k)
    if m is None:
        m = GATES[desc[0]][3](desc[2])
        if len(_mcache) < 50000:
            _mcache[k] = m
    return m


def embed(m, qubits, n):
    """Matrix on n qubits acting as m on the listed qubits (first listed = most significant bit of m)."""
    k = len(qubits)
    t = np.eye(2 ** n, dtype=complex).reshape((2,) * n + (2 ** n,))
    return apply(m, qubits, t, n).reshape(2 ** n, 2 ** n)


def apply(m, qubits, t, n):
    k = len(qubits)
    t = np.tensordot(m.reshape((2,) * (2 * k)), t, axes=(list(range(k, 2 * k)), list(qubits)))
    # result axes: qubits first, then the remaining in order
    rest = [a for a in range(t.ndim) if a not in qubits]
    perm = [0] * t.ndim
    src = list(qubits) + rest
    for i, a in enumerate(src):
        perm[a] = i
    return t.transpose(perm)


def unitary(n, descs):
    t = np.eye(2 ** n, dtype=complex).reshape((2,) * n + (2 ** n,))
    for g in descs:
        t = apply(gate_matrix(g), g[1], t, n)
    return t.reshape(2 ** n, 2 ** n)


def show(n, descs):
    return '%d:%s' % (n, ';'.join('%s%s%s' % (a, ','.join(map(str, b)),
                                              '(%s)' % ','.join(map(str, c)) if c else '') for a, b, c in descs))


def read_gate(g):
    """Independent reading of a pyzx gate object into a descriptor."""
    t = type(g).__name__
    if t in ('S', 'T', 'SX'):
        return (t + ('*' if g.adjoint else ''), (g.target,), ())
    if t in ('ZPhase', 'XPhase', 'YPhase'):
        return (t, (g.target,), (g.phase,))
    if t in ('Z', 'NOT', 'Y', 'HAD'):
        return (t, (g.target,), ())
    if t in ('CNOT', 'CZ', 'CY', 'CHAD', 'CSX', 'XCX', 'SWAP'):
        return (t, (g.control, g.target), ())
    if t in ('CRX', 'CRY', 'CRZ', 'CPhase', 'RXX'):
        return (t, (g.control, g.target), (g.phase,))
    if t == 'FSim':
        return (t, (g.control, g.target), (g.theta, g.phi))
    if t in ('CCZ', 'Tofolli', 'CSWAP'):
        return ({'Tofolli': 'Tof'}.get(t, t), (g.ctrl1, g.ctrl2, g.target), ())
    if t == 'U2':
        return (t, (g.target,), (g.theta, g.phi))
    if t == 'U3':
        return (t, (g.target,), (g.theta, g.phi, g.rho))
    if t == 'CU3':
        return (t, (g.control, g.target), (g.theta, g.phi, g.rho))
    if t == 'CU':
        return (t, (g.control, g.target), (g.theta, g.phi, g.rho, g.gamma))
    if t in ('ParityPhase', 'RZZ'):
        return ('PP', tuple(g.targets), (g.phase,))
    raise ValueError('unknown gate %r' % (g,))


def circuit_unitary(c):
    """Matrix of a pyzx circuit object from its gate list, by the standard gate matrices."""
    n = c.qubits
    t = np.eye(2 ** n, dtype=complex).reshape((2,) * n + (2 ** n,))
    for g in c.gates:
        name, qs, ps = read_gate(g)
        if len(set(qs)) != len(qs) or any(not (0 <= q < n) for q in qs):
            raise ValueError('gate %s has invalid qubits on %d qubits' % (g, n))
        m = parity(ps[0], len(qs)) if name == 'PP' else gate_matrix((name, qs, ps))
        t = apply(m, qs, t, n)
    return t.reshape(2 ** n, 2 ** n)


def snapshot(c):
    """Deep content of a circuit object."""
    return (c.qubits, c.bits, c.name, tuple((type(g).__name__,) + tuple(sorted((k, repr(v)) for k, v in vars(g).items()))
                                            for g in c.gates))


def placements(name, n):
    return list(itertools.permutations(range(n), GATES[name][0]))


def alphabet(n, names, params=None):
    """All placements of the named gates; params: name -> list of param tuples."""
    out = []
    for nm in names:
        qs = placements(nm, n)
        if nm in ('CZ', 'CCZ', 'SWAP', 'XCX', 'RZZ', 'RXX', 'PP2', 'PP3', 'PP4'):
            qs = [x for x in qs if tuple(sorted(x)) == x]
        for x in qs:
            for p in (params or {}).get(nm, [()] if GATES[nm][1] == 0 else [(F(1, 4),)] if GATES[nm][1] == 1 else []):
                out.append((nm, x, p))
    return out


def sequences(alpha, depth, canon=True):
    """All gate sequences of exactly the given depth; canon: skip sequences where two adjacent gates on disjoint
    qubits are out of order (same circuit up to trivial commutation)."""
    if depth == 0:
        yield ()
        return
    idx = range(len(alpha))
    qs = [set(a[1]) for a in alpha]

    def rec(pre, last):
        if len(pre) == depth:
            yield tuple(alpha[i] for i in pre)
            return
        for i in idx:
            if canon and last is not None and i < last and not (qs[i] & qs[last]):
                continue
            yield from rec(pre + [i], i)
    yield from rec([], None)


def up_to_phase(a, b, tol=1e-6):
    """a, b equal up to a complex number of modulus one."""
    if a.shape != b.shape:
        return False
    k = np.unravel_index(np.argmax(np.abs(a)), a.shape)
    if abs(abs(a[k]) - abs(b[k])) > tol * max(1, abs(a[k])):
        return False
    if abs(b[k]) < 1e-12:
        return bool(np.max(np.abs(a - b)) < tol)
    return bool(np.max(np.abs(a * (b[k] / a[k]) - b)) < tol * max(1.0, abs(a[k])))


def up_to_scalar(a, b, tol=1e-6):
    if a.shape != b.shape:
        return False
    na, nb = np.linalg.norm(a), np.linalg.norm(b)
    if na < 1e-12 or nb < 1e-12:
        return na < 1e-12 and nb < 1e-12
    return abs(abs(np.vdot(a, b)) / (na * nb) - 1) < tol
