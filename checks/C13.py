"""C13: circuit optimisation. Exhaustive circuits x optimisers x options x outcomes of the random column shuffle of TODD."""
import itertools, random
from fractions import Fraction as F
import core
from core import require, slice_iter
import ref, circ, choice, big
import C07
from C08 import gsnap
import pyzx as zx
from pyzx import optimize as O

OUT = {'ZPhase', 'Z', 'S', 'T', 'NOT', 'HAD', 'CNOT', 'CZ', 'SWAP', 'XPhase', 'ParityPhase'}


def csnap(c):
    return (c.qubits, c.bits, [gsnap(g) for g in c.gates])


def two(c):
    return sum(1 for g in c.to_basic_gates().gates if g.name in ('CNOT', 'CZ'))


class Order(object):
    """random.shuffle always giving one order"""
    def __init__(self, rev):
        self.rev = rev

    def run(self, fn):
        inst = random._inst
        inst._randbelow = (lambda n: n - 1) if not self.rev else (lambda n: 0)
        try:
            return fn()
        finally:
            del inst._randbelow


def opt_case(rep, key, c, u, feats, what, f, orders, refuse=False, swaps=True):
    """f(circuit) under all shuffles ('all') or the two extreme ones"""
    if not rep.state(what + key):
        return
    with rep.case('%s %s' % (what, key), dict(feats, op=what)):
        s0 = csnap(c)
        t0, q0 = c.tcount(), two(c)

        def judge(r, ch):
            require(csnap(c) == s0, 'the input circuit was changed (choices %s)', ch)
            require(isinstance(r, zx.Circuit) and r.qubits == c.qubits, 'not a circuit on the same qubits')
            require({type(g).__name__ for g in r.gates} <= OUT, 'unexpected gates')
            require(circ.up_to_phase(u, circ.circuit_unitary(r)), 'the circuit has another unitary (choices %s)', ch)
            require(r.tcount() <= t0, 'T-count went from %d to %d (choices %s)', t0, r.tcount(), ch)
            if what.startswith('basic') and not swaps:
                require(two(r) <= q0, 'two-qubit count went from %d to %d', q0, two(r))
            rep.step()
            rep.outcome('T %d->%d' % (t0, r.tcount()))
        try:
            if orders == 'all':
                for ch, r, cut in choice.explore(lambda: f(c)):
                    judge(r, ch)
            else:
                for rev in orders:
                    judge(Order(rev).run(lambda: f(c)), 'reversed' if rev else 'in order')
        except (TypeError, AttributeError) as e:     # gates outside the documented set (parity phases have no target at all)
            if not refuse or not any(x in str(e) for x in ('Unknown gate', 'only works on Clifford+T', "no attribute 'target'")):
                raise
            require(csnap(c) == s0, 'the input circuit was changed by the refusal')
            rep.outcome('refused')


FN = dict(basic=lambda c: zx.basic_optimization(c), basic_noswap=lambda c: zx.basic_optimization(c, do_swaps=False),
          block=lambda c: O.phase_block_optimize(c), block_nopre=lambda c: O.phase_block_optimize(c, pre_optimize=False),
          full=lambda c: zx.full_optimize(c), teleport=lambda c: zx.basic_optimization(zx.Circuit.from_graph(zx.simplify.teleport_reduce(c.to_graph()))),
          loud=lambda c: zx.full_optimize(c, quiet=False))


def fam_circ(rep, n, names, params, depth, whats, orders, i, m):
    alpha = circ.alphabet(n, names, dict(params))
    for sq in slice_iter(circ.sequences(alpha, depth), i, m):
        key = circ.show(n, sq)
        rep.sample(key)
        u = circ.unitary(n, sq)
        for w in whats:
            c = circ.circuit(n, sq)
            if w == 'block_nopre' and any(d[0] == 'NOT' for d in sq):
                continue      # without pre-optimisation NOT gates are refused
            opt_case(rep, key, c, u, {}, w, FN[w], orders if w not in ('basic', 'basic_noswap', 'teleport') else (False,), swaps=w != 'basic_noswap')


def fam_gate(rep, name, i, m):
    """every gate is optimised correctly or refused"""
    ar = circ.GATES[name][0]
    n = max(ar, 2)
    for p in slice_iter([p for p in C07.params(name, False) if not any(isinstance(x, float) for x in p)], i, m):
        for qs in circ.placements(name, n):
            for a in ((), (('HAD', (0,), ()), ('CNOT', (0, 1), ()))):
                sq = a + ((name, qs, p),) + a
                u = circ.unitary(n, sq)
                for w in ('basic', 'basic_noswap', 'block', 'full'):
                    c = circ.circuit(n, sq)
                    opt_case(rep, circ.show(n, sq), c, u, dict(gate=name), w, FN[w], (False, True), refuse=True, swaps=True)


def fam_poly(rep, n, phases, maxterms, tail, whats, orders, i, m):
    """all phase polynomials with up to maxterms parities, followed by a linear map and the inverse polynomial or nothing"""
    masks = range(1, 1 << n)
    for k in range(maxterms + 1):
        for ms in slice_iter(itertools.combinations(masks, k), i, m):
            for ph in itertools.product(phases, repeat=k):
                sq = []
                for mk, p in zip(ms, ph):
                    t = tuple(q for q in range(n) if mk >> q & 1)
                    sq.append(('PP%d' % len(t), t, (p,)) if len(t) > 1 else ('ZPhase', t, (p,)))
                for tl in tail:
                    full = tuple(sq) + tuple(tl)
                    key = circ.show(n, full)
                    u = circ.unitary(n, full)
                    rep.sample(key)
                    for w in whats:
                        opt_case(rep, key, circ.circuit(n, full).to_basic_gates(), u, {}, w, FN[w], orders, swaps=w != 'basic_noswap')


def fam_layers(rep, n, menu, lengths, whats, i, m):
    """circuits made of whole layers of gates"""
    for nm, sq in slice_iter(big.layers(n, menu, lengths), i, m):
        key = '%d qubits: %s' % (n, nm)
        rep.sample(key)
        u = circ.unitary(n, sq)
        for w in whats:
            if w == 'block_nopre' and any(d[0] == 'NOT' for d in sq):
                continue
            opt_case(rep, key, circ.circuit(n, sq).to_basic_gates(), u, {}, w, FN[w], (False, True) if w not in ('basic', 'basic_noswap', 'teleport') else (False,), swaps=w != 'basic_noswap')


def fam_queue(rep, n, ka, kb, nt, whats, i, m):
    """many gates of one kind waiting on a wire, then many of the other kind, then gates that may cancel against them"""
    A = [('CNOT', (c, 0), ()) for c in range(1, n)] + [('NOT', (0,), ())]
    B = [('CZ', (0, c), ()) for c in range(1, n)] + [('S', (0,), ()), ('CNOT', (0, 1), ())]
    E = [('HAD', (0,), ()), ('S', (0,), ()), ('NOT', (0,), ()), ('HAD', (1,), ()), ('T', (1,), ())] + \
        [('CNOT', p, ()) for c in range(1, n) for p in ((c, 0), (0, c))] + [('CZ', (0, c), ()) for c in range(1, n)]

    def words():
        for a in range(ka + 1):
            for b in range(kb + 1):
                for ra in range(len(A) if a else 1):
                    for rb in range(len(B) if b else 1):
                        for pre in ((), (('HAD', (0,), ()),), (('HAD', (0,), ()), ('HAD', (1,), ()))):
                            for k in range(nt + 1):
                                for t in itertools.product(E, repeat=k):
                                    yield pre + tuple(A[(ra + j) % len(A)] for j in range(a)) + tuple(B[(rb + j) % len(B)] for j in range(b)) + t
    for sq in slice_iter(words(), i, m):
        key = circ.show(n, sq)
        rep.sample(key)
        u = circ.unitary(n, sq)
        for w in whats:
            opt_case(rep, key, circ.circuit(n, sq), u, {}, w, FN[w], (False,), swaps=w != 'basic_noswap')


FAMILIES = dict(layers=fam_layers, queue=fam_queue, circ=fam_circ, gate=fam_gate, poly=fam_poly)
q, h, o = F(1, 4), F(1, 2), F(1)


def tasks(tier):
    deep = tier == 'thorough'
    T = []

    def add(fam, args, n):
        for i in range(n):
            T.append((fam, tuple(args) + (i, n)))
    PS = (('ZPhase', ((q,), (h,), (F(7, 4),), (o,))),)
    PI = (('ZPhase', ((F(1, 3),), (F(5, 8),))),)
    B = ('basic', 'basic_noswap')
    for dpt in range(1, 7 if not deep else 8):
        add('circ', (1, ('HAD', 'T', 'S', 'S*', 'NOT', 'Z'), PS, dpt, B, ()), 1 if dpt < 5 else 8)
    for dpt in range(0, 5 if not deep else 6):
        add('circ', (2, ('HAD', 'T', 'S*', 'NOT', 'CNOT', 'CZ') if dpt < 4 else ('HAD', 'S', 'CNOT', 'CZ', 'NOT'), PS, dpt, B, ()), 1 if dpt < 3 else 16 if dpt < 5 else 128)
    for dpt in range(1, 4 if not deep else 5):
        add('circ', (3, ('HAD', 'S', 'NOT', 'CNOT', 'CZ') if dpt < 4 else ('HAD', 'S', 'CNOT', 'CZ'), PS, dpt, B, ()), 1 if dpt < 3 else 16 if dpt < 4 else 128)
    for dpt in range(1, 4):
        add('circ', (2, ('HAD', 'ZPhase', 'Z', 'NOT', 'CNOT', 'CZ'), PS, dpt, B, ()), 8)
        add('circ', (2, ('HAD', 'ZPhase', 'NOT', 'CNOT', 'CZ'), PI, dpt, B, ()), 8)
    # alternating patterns are where gates wait for each other: deeper sequences over few gates
    add('circ', (2, ('HAD', 'CNOT'), PS, 6 if not deep else 8, B, ()), 16)
    add('circ', (2, ('HAD', 'CZ', 'S'), PS, 5 if not deep else 7, B, ()), 16)
    add('circ', (3, ('CNOT', 'CZ'), PS, 3 if not deep else 5, B, ()), 16 if not deep else 128)
    add('circ', (3, ('HAD', 'CNOT'), PS, 4 if not deep else 5, B, ()), 16)
    A = ('block', 'block_nopre', 'full', 'teleport')
    for dpt in range(0, 4 if not deep else 5):
        add('circ', (2, ('HAD', 'T', 'S', 'CNOT', 'CZ', 'NOT') if dpt < 3 else ('HAD', 'T', 'CNOT', 'CZ'), PS, dpt, A if dpt < 4 else A[:3], 'all'), 2 if dpt < 3 else 16)
    for dpt in range(1, 3 if not deep else 4):
        add('circ', (3, ('HAD', 'T', 'CNOT', 'CZ'), PS, dpt, A + ('loud',) if dpt < 3 else A[:3], 'all'), 8 if dpt < 3 else 64)
    add('circ', (1, ('HAD', 'T', 'S*', 'Z'), PS, 4 if not deep else 5, A[:3], 'all'), 8)
    add('circ', (2, ('T', 'HAD', 'CNOT'), PS, 4 if not deep else 6, ('block_nopre', 'full'), (False, True)), 16)
    add('circ', (3, ('T', 'HAD', 'CNOT'), PS, 3, ('block_nopre', 'full'), (False, True)), 32)
    if deep:
        add('circ', (3, ('T', 'HAD', 'CNOT'), PS, 4, ('block_nopre', 'full'), (False, True)), 64)
    LB = ('H', 'He', 'Sr', 'X', 'cp', 'ci', 'zo', 'M', 'R')
    add('layers', (4, LB, (1, 2, 3) if not deep else (4,), B), 32)
    add('layers', (5, LB, (1, 2) if not deep else (3,), B), 32)
    add('layers', (2, ('H', 'He', 'Sr', 'cp', 'cu', 'zp', 'M'), (4,) if not deep else (5,), B), 16)
    add('layers', (3, ('H', 'He', 'Sr', 'cp', 'ci', 'zo', 'M'), (3,) if not deep else (4, 5), B), 32)
    add('layers', (4, ('H', 'He', 'Tr', 'cp', 'zk', 'ci', 'M'), (1, 2, 3) if not deep else (4,), A[:3]), 32)
    add('layers', (5, ('H', 'Tr', 'T', 'cp', 'zo', 'ci', 'R'), (2,) if not deep else (3,), A), 16)
    add('layers', (4, ('He', 'H', 'Sr', 'cp', 'zo', 'cu'), (4,) if not deep else (5,), B), 32)
    add('layers', (4, ('H', 'Tr', 'cp', 'ci'), (4,) if not deep else (5, 6), A[:3]), 32)
    add('queue', (3, 4, 4, 1 if not deep else 2, B), 32)
    add('queue', (4, 4 if not deep else 5, 4 if not deep else 5, 1 if not deep else 2, B), 64)
    for nm in circ.GATES:
        if circ.GATES[nm][0] <= 3:
            add('gate', (nm,), 2 if circ.GATES[nm][0] > 1 else 1)
    TL = ((), (('HAD', (0,), ()), ('T', (0,), ())), (('CNOT', (0, 1), ()), ('HAD', (1,), ()), ('CNOT', (1, 0), ())))
    add('poly', (2, (q, F(3, 4), h, F(7, 4)), 3, TL, ('block', 'block_nopre', 'full'), 'all'), 8)
    add('poly', (3, (q,), 3, TL, ('block_nopre', 'full'), 'all'), 16)
    add('poly', (3, (q,), 7, TL[:2], ('block', 'block_nopre', 'full'), (False, True)), 16)
    add('poly', (3, (q, F(7, 4)), 4 if deep else 3, TL[:1] if not deep else TL, ('block_nopre',), (False, True)), 32)
    add('poly', (4, (q,), 5 if deep else 2, TL[:1], ('block_nopre',) + (('full',) if deep else ()), (False, True)), 32)
    if deep:
        add('poly', (3, (q,), 4, TL, ('block_nopre',), 'all'), 32)
        add('poly', (4, (q,), 15, TL[:1], ('block_nopre',), (False,)), 128)
    return T


ASSUME = ['standard gate matrices in lib/circ.py; circuits compared up to a global phase',
          'the column order that TODD shuffles is enumerated completely for few columns, otherwise only its two extremes']
BOUNDS = dict(quick='circuits of depth <=6 (1 qubit), <=4..6 (2 qubits), <=3..4 (3 qubits) through basic optimisation; depth <=3 (2 qubits), 2 (3 qubits) through phase-block optimisation with all shuffles; all phase polynomials on 3 qubits',
              thorough='one more level of depth; all subsets of the 15 parities of 4 qubits')


def run():
    return core.main('C13', FAMILIES, tasks, ASSUME, BOUNDS)
