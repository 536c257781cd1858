"""C15: equality checks. All pairs of small circuits, all pairs of small tensors, all small diagrams."""
import itertools
from fractions import Fraction as F
import numpy as np
import core
from core import require, slice_iter
import ref, circ
from diag import V, Spec, build, with_boundaries, enum_graphs, canon_graphs, kind_multisets
from ref import Z, X, HBOX, ZBOX
from C13 import csnap
import pyzx as zx
from pyzx import tensor as T
from pyzx.utils import EdgeType

q, h = F(1, 4), F(1, 2)
CLIFF = {1: ['HAD', 'S', 'NOT', 'Z'], 2: ['HAD', 'S', 'CNOT', 'CZ', 'SWAP']}


def perms_of(u, n):
    for p in itertools.permutations(range(n)):
        yield np.transpose(u.reshape((2,) * n + (2 ** n,)), tuple(p) + (n,)).reshape(2 ** n, 2 ** n)


def circuits(n, names, depth, params=None):
    alpha = circ.alphabet(n, names, params)
    for d in range(depth + 1):
        for s in circ.sequences(alpha, d, canon=False):
            yield s


def pair_case(rep, n, s1, u1, s2, u2, complete, feats):
    key = '%s ~ %s' % (circ.show(n, s1), circ.show(n, s2))
    if not rep.state(key):
        return
    eq = circ.up_to_phase(u1, u2)
    eqp = eq or any(circ.up_to_phase(v, u2) for v in perms_of(u1, n))
    for swaps, want in ((False, eq), (True, eqp)):
        with rep.case('%s %s' % (swaps, key), dict(feats, swaps=swaps)):
            c1, c2 = circ.circuit(n, s1), circ.circuit(n, s2)
            a, b = csnap(c1), csnap(c2)
            r = c1.verify_equality(c2, up_to_swaps=swaps) if swaps else c1.verify_equality(c2)
            require(r in (True, False, None), 'answers %s', r)
            require(not r or want, 'different circuits are reported equal')
            require(csnap(c1) == a and csnap(c2) == b, 'the circuits were changed')
            if complete and want:
                require(r, 'equal circuits are not recognised')
            rep.step()
            rep.outcome('%s/%s' % (bool(r), want))


def fam_pairs(rep, n, names, d1, d2, complete, i, k):
    """all pairs of circuits (complete: the gate set is Clifford, where the reduction is complete)"""
    cs = [(s, circ.unitary(n, s)) for s in circuits(n, names, d2, {'ZPhase': [(F(3, 4),)]})]
    for s1 in slice_iter(circuits(n, names, d1, {'ZPhase': [(F(3, 4),)]}), i, k):
        u1 = circ.unitary(n, s1)
        for s2, u2 in cs:
            pair_case(rep, n, s1, u1, s2, u2, complete, {})


def inv(d):
    nm, qs, ps = d
    if nm in ('S', 'T'):
        return (nm + '*', qs, ps)
    if nm in ('S*', 'T*'):
        return (nm[0], qs, ps)
    if nm in ('ZPhase', 'XPhase', 'CRZ', 'RZZ'):
        return (nm, qs, tuple(-p for p in ps))
    return d


def fam_insert(rep, n, names, depth, i, k):
    """inserting a gate and its inverse anywhere, or swapping neighbours that act on different qubits, is recognised"""
    alpha = circ.alphabet(n, names, {'ZPhase': [(F(3, 8),)]})
    for s in slice_iter(circ.sequences(alpha, depth, canon=False), i, k):
        u = circ.unitary(n, s)
        for pos in range(len(s) + 1):
            for g in alpha:
                s2 = tuple(s[:pos]) + (g, inv(g)) + tuple(s[pos:])
                pair_case(rep, n, s, u, s2, u, True, dict(op='insert'))
        for pos in range(len(s) - 1):
            if not set(s[pos][1]) & set(s[pos + 1][1]):
                s2 = tuple(s[:pos]) + (s[pos + 1], s[pos]) + tuple(s[pos + 2:])
                pair_case(rep, n, s, u, s2, u, True, dict(op='commute'))


def fam_refuse(rep, i, k):
    for n1, n2 in itertools.product(range(1, 4), repeat=2):
        with rep.case('sizes %d %d' % (n1, n2), dict(op='sizes')):
            rep.state('sizes %d %d' % (n1, n2))
            try:
                r = zx.Circuit(n1).verify_equality(zx.Circuit(n2))
            except TypeError:
                r = False
            require(bool(r) == (n1 == n2), 'circuits on %d and %d qubits', n1, n2)
            rep.step()


# -- tensors -----------------------------------------------------------------------------------------------------
def same(a, b):
    return a.shape == b.shape and np.abs(a - b).max(initial=0) <= 1e-9 * max(np.abs(a).max(initial=0), np.abs(b).max(initial=0))


def proportional(a, b):
    if a.shape != b.shape:
        return False
    ma, mb = np.abs(a).max(initial=0), np.abs(b).max(initial=0)
    if ma == 0 or mb == 0:
        return ma == mb
    k = np.unravel_index(np.argmax(np.abs(a)), a.shape)
    return abs(b[k]) > 0 and same(a / a[k], b / b[k])


def tensors(shape, entries):
    for e in itertools.product(entries, repeat=int(np.prod(shape)) if shape else 1):
        yield np.array(e, dtype=complex).reshape(shape)


FACTORS = (1, -1, 1j, 2 ** -0.5, 1e-3, 1e-6, 1e-9, 1e-12, 1e-15, 1e9, 0.3 - 0.4j)


def fam_tensors(rep, shape1, shape2, entries, noise, i, k):
    """all pairs of tensors over a small set of entries, each scaled by factors of many magnitudes; noise: relative
    rounding errors in the entries that should be zero"""
    l2 = list(tensors(shape2, entries))
    for a in slice_iter(tensors(shape1, entries), i, k):
        for b in l2:
            for f, f2 in [(x, 1) for x in FACTORS] + [(x, x) for x in FACTORS if abs(x) != 1]:
                key = '%s *%s %s *%s noise=%s' % (a.tolist(), f, b.tolist(), f2, noise)
                if not rep.state(key):
                    continue
                with rep.case(key, dict(op='compare_tensors', noise=noise)):
                    c, d = np.asarray(a * f), np.asarray(b * f2)
                    if noise:
                        c, d = c.copy(), d.copy()
                        c[c == 0] = 1e-16 * np.abs(c).max()
                        d[d == 0] = -1e-16 * np.abs(d).max()
                    c0, d0 = c.copy(), d.copy()
                    want, want2 = proportional(a, b), same(a * f, b * f2)
                    for x, y in ((c, d), (d, c)):
                        r = zx.compare_tensors(x, y)
                        require(bool(r) == want, 'compare_tensors says %s, the tensors are%s proportional', r, '' if want else ' not')
                        r = zx.compare_tensors(x, y, preserve_scalar=True)
                        require(bool(r) == want2, 'compare_tensors with the scalar says %s, the tensors are%s equal', r, '' if want2 else ' not')
                    if want and np.abs(a).max() > 0:
                        z = T.find_scalar_correction(c, d)
                        require(same(c, z * d) or noise and np.abs(c - z * d).max() < 1e-9 * np.abs(c).max(), 'find_scalar_correction gives %s', z)
                        z = T.find_scalar_correction(d, c)
                        require(same(d, z * c) or noise and np.abs(d - z * c).max() < 1e-9 * np.abs(d).max(), 'find_scalar_correction gives %s', z)
                    require((c == c0).all() and (d == d0).all(), 'the tensors were changed')
                    rep.step()
                    rep.outcome('%s %s' % (want, want2))


def fam_compose(rep, n, i, k):
    """compose_tensors and adjoint against matrix products, on all matrices with one or two non-zero entries"""
    N = 4 ** n
    basis = []
    for a, b in itertools.combinations_with_replacement(range(N), 2):
        t = np.zeros(N, dtype=complex)
        t[a] = 1
        t[b] += 2j
        basis.append(t.reshape((2,) * (2 * n)))
    for a in slice_iter(basis, i, k):
        with rep.case('adjoint %s' % (np.nonzero(a.ravel()),), dict(op='adjoint')):
            rep.state('adjoint %s' % (a.ravel().tolist(),))
            m = a.reshape(2 ** n, 2 ** n)
            require(np.allclose(T.adjoint(a).reshape(2 ** n, 2 ** n), m.conj().T), 'adjoint is wrong')
            rep.step()
        for b in basis:
            key = 'compose %s %s' % (a.ravel().tolist(), b.ravel().tolist())
            if not rep.state(key):
                continue
            with rep.case(key, dict(op='compose_tensors')):
                m2 = b.reshape(2 ** n, 2 ** n)
                require(np.allclose(T.compose_tensors(a, b).reshape(2 ** n, 2 ** n), m2 @ m), 'compose_tensors is not the matrix product')
                rep.step()


# -- diagrams -----------------------------------------------------------------------------------------------------
def dspecs(n, kinds, colors, bopts):
    ks = [(kd, b) for kd in kinds for b in bopts]
    for c, sizes in kind_multisets(ks, n):
        sel = [ks[j] for j in c]
        if sum(len(s[1]) for s in sel) > 4:
            continue
        for es in canon_graphs(sizes, colors):
            yield with_boundaries([s[0] for s in sel], es, [s[1] for s in sel]), sum(len(s[1]) for s in sel)


def fam_unitary(rep, n, kinds, colors, bopts, i, k):
    """is_unitary against U*U = UU* = c on all small diagrams with every split of the boundaries"""
    for s, nb in slice_iter(dspecs(n, kinds, colors, bopts), i, k):
        for ni in range(nb + 1):
            key = '%d inputs: %s' % (ni, s.show())
            if not rep.state(key):
                continue
            g = build(s)
            bs = list(g.inputs()) + list(g.outputs())
            g.set_inputs(tuple(bs[:ni]))
            g.set_outputs(tuple(bs[ni:]))
            m = ref.matrix(g)
            d = m.shape
            if abs(m).max() < 1e-9 and (nb == 0 or any(g.vertex_degree(v) == 0 for v in g.vertices())):
                continue    # a factor that is zero only up to rounding: cannot be decided with floating-point numbers
            want = d[0] == d[1] and np.abs(m).max() > 1e-9
            if want:
                p = m @ m.conj().T
                want = np.allclose(p / p[0, 0], np.eye(d[0])) if abs(p[0, 0]) > 1e-9 else False
            with rep.case(key, dict(op='is_unitary', square=d[0] == d[1])):
                try:
                    r = T.is_unitary(g)
                except ValueError as ex:
                    if 'unreducible parallel edge' in str(ex):
                        rep.outcome('refused by the simple backend')
                        continue
                    raise
                require(bool(r) == bool(want), 'is_unitary says %s for a map that is%s unitary up to a number', r, '' if want else ' not')
                rep.step()
                rep.outcome('%s' % want)


def fam_id(rep, n, extra, i, k):
    """is_id on every way to connect n inputs, n outputs and extra spiders by wires of both types"""
    N = 2 * n + extra
    for backend in ('simple', 'multigraph'):
        for es in slice_iter(enum_graphs(N, (0, 1, 2)), i, k):
            for nin in range(2 * n + 1):
                key = '%s %d+%d+%d %s' % (backend, nin, 2 * n - nin, extra, es)
                if not rep.state(key):
                    continue
                with rep.case(key, dict(op='is_id', backend=backend)):
                    g = zx.Graph(backend)
                    vs = [g.add_vertex(0 if j < 2 * n else Z) for j in range(N)]
                    for a, b, t in es:
                        g.add_edge((vs[a], vs[b]), t)
                    g.set_inputs(tuple(vs[:nin]))
                    g.set_outputs(tuple(vs[nin:2 * n]))
                    want = extra == 0 and nin == n and sorted((a, b, t) for a, b, t in es) == [(j, n + j, 1) for j in range(n)]
                    require(bool(g.is_id()) == want, 'is_id says %s', g.is_id())
                    rep.step()
                    rep.outcome('%s' % want)


FAMILIES = dict(pairs=fam_pairs, insert=fam_insert, refuse=fam_refuse, tensors=fam_tensors, compose=fam_compose, unitary=fam_unitary, id=fam_id)


def tasks(tier):
    deep = tier == 'thorough'
    L = []

    def add(fam, args, n):
        for i in range(n):
            L.append((fam, tuple(args) + (i, n)))
    add('pairs', (1, CLIFF[1], 3, 3 if deep else 2, True), 16)
    add('pairs', (2, CLIFF[2], 2, 2 if deep else 1, True), 32)
    add('pairs', (1, ['HAD', 'T', 'ZPhase'], 3, 3, False), 16)
    add('pairs', (2, ['HAD', 'T', 'CNOT'], 2, 2, False), 32)
    add('pairs', (3, ['CNOT'], 2, 2, True), 32)
    add('pairs', (3, ['SWAP', 'CZ'], 2, 2, True), 32)
    if deep:
        add('pairs', (3, ['HAD', 'CNOT', 'S'], 2, 2, True), 64)
        add('pairs', (2, ['HAD', 'T', 'CNOT'], 3, 2, False), 64)
    add('pairs', (4, ['SWAP', 'CZ'], 2, 1, True), 16)
    add('pairs', (5, ['SWAP'], 2 if deep else 1, 1, True), 4)
    add('pairs', (4, ['HAD', 'CNOT', 'S'], 1, 1, True), 8)
    add('insert', (1, ['HAD', 'T', 'ZPhase', 'S'], 3), 4)
    add('insert', (2, ['HAD', 'T', 'CNOT', 'ZPhase'], 2), 8)
    add('insert', (3, ['HAD', 'T', 'CNOT', 'CZ'], 2 if deep else 1), 16)
    add('insert', (2, ['CCZ', 'Tof', 'CRZ', 'RZZ', 'XCX', 'SWAP', 'HAD', 'T'], 1), 8)
    add('insert', (3, ['CCZ', 'Tof', 'SWAP', 'HAD', 'T'], 1), 8)
    add('refuse', (), 1)
    E = (0, 1, -1, 1j, 0.5)
    for noise in (False, True):
        add('tensors', ((), (), E, noise), 1)
        add('tensors', ((2,), (2,), E, noise), 4)
        add('tensors', ((2, 2), (2, 2), (0, 1, 1j) if deep else (0, 1), noise), 32 if deep else 4)
    for a, b in (((), (2,)), ((2,), (2, 2)), ((2,), (2, 2, 2)), ((), (2, 2)), ((), (1,)), ((2, 2), (4,)), ((2, 1), (2,)), ((2, 1), (1, 2))):
        add('tensors', (a, b, (0, 1), False), 2)
    add('compose', (1,), 2)
    add('compose', (2,), 16)
    K = [V(Z, 0), V(Z, q), V(X, 0), V(X, F(1)), V(HBOX, F(1))]
    B = ((), (1,), (1, 2), (1, 1))
    add('unitary', (1, K, (0, 1, 2), B + ((1, 1, 1), (1, 1, 2, 2))), 1)
    add('unitary', (2, K, (0, 1, 2), B), 8)
    add('unitary', (3, K[:3], (0, 1, 2) if deep else (0, 2), B[:3]), 32)
    for n, e in ((0, 0), (0, 1), (1, 0), (1, 1), (2, 0)):
        add('id', (n, e), 4)
    return L


ASSUME = ['unitaries by definition (lib/circ.py); tensors count as equal when they differ by less than 1e-9 of their largest entry',
          'completeness is claimed for Clifford circuits and for trivial insertions, where the reduction is known to be complete']
BOUNDS = dict(quick='all pairs of Clifford circuits of depth 3x2 (1 qubit), 2x1 (2 qubits), of Clifford+T circuits of depth 3 (1 qubit), 2 (2 qubits), CNOT circuits on 3 qubits; all tensors of 1, 2, 4 entries over 2-5 values times 11 magnitudes; all diagrams with <=3 spiders',
              thorough='one more level of depth and all entry values')


def run():
    return core.main('C15', FAMILIES, tasks, ASSUME, BOUNDS)
