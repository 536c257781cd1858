"""C33: Spider QASM: every small program with every kind of register on every qubit, against states and effects plugged into the circuit's matrix."""
import itertools
from fractions import Fraction as F
import numpy as np
import core, ref, circ
from core import require, slice_iter
from ref import Z, X, BOUNDARY
import pyzx as zx

# statement: number of qubits, colour of the spider on every qubit (a Hadamard is a Z-spider with a Hadamard edge), matrix
R2 = 1 / np.sqrt(2)
OPS = {
    'h': (1, 'Z', circ.HM), 's': (1, 'Z', circ.P(.5)), 'sdg': (1, 'Z', circ.P(-.5)), 't': (1, 'Z', circ.P(.25)), 'tdg': (1, 'Z', circ.P(-.25)),
    'z': (1, 'Z', circ.ZM), 'x': (1, 'X', circ.XM), 'sx': (1, 'X', circ.HM @ circ.P(.5) @ circ.HM),
    'cx': (2, 'ZX', circ.ctrl(circ.XM)), 'cz': (2, 'ZZ', circ.ctrl(circ.ZM)), 'ccz': (3, 'ZZZ', circ.ctrl(circ.ZM, 2)), 'ccx': (3, 'ZZZ', circ.ctrl(circ.XM, 2)),
    'p(pi/4)': (1, 'Z', circ.P(.25)), 'p(0)': (1, 'Z', circ.I2), 'rz(pi/2)': (1, 'Z', circ.P(.5)), 'rx(pi/2)': (1, 'X', circ.HM @ circ.P(.5) @ circ.HM), 'rx(0*pi)': (1, 'X', circ.I2),
}
STATE = {'Z': np.array([R2, R2]), 'X': np.array([1, 0])}
PLAIN, ANC, POST, BOTH = 'q', 'A', 'Z', 'G'


def program(regs, ops):
    out = []
    for n, s in regs:
        out.append('qreg %s[%d];' % (n, s))
    where = [(n, i) for n, s in regs for i in range(s)]
    for o, qs in ops:
        out.append('%s %s;' % (o, ','.join('%s[%d]' % where[q] for q in qs)))
    return '\n'.join(out)


def reference(kinds, ops):
    """matrix with the states and effects that the registers ask for, as a tensor outputs+inputs"""
    n = len(kinds)
    t = np.eye(2 ** n, dtype=complex).reshape((2,) * n + (2 ** n,))
    first, last = [None] * n, [None] * n
    for o, qs in ops:
        a, cols, m = OPS[o]
        t = circ.apply(m, qs, t, n)
        for q, c in zip(qs, cols):
            if c:
                first[q] = first[q] or c
                last[q] = c
    t = t.reshape((2,) * (2 * n))
    keep = []
    for q in range(n):
        k = kinds[q]
        # an empty wire gets a Z-spider
        if k in (POST, BOTH):
            st = STATE[last[q] or 'Z']
            t = np.moveaxis(np.expand_dims(np.tensordot(st.conj(), t, axes=(0, q)), 0), 0, q)
        if k in (ANC, BOTH):
            st = STATE[first[q] or 'Z']
            t = np.moveaxis(np.expand_dims(np.tensordot(t, st, axes=(n + q, 0)), 0), 0, n + q)
    return t


def judge(rep, regs, ops, simplify, backend=None):
    kinds = []
    for nm, s in regs:
        k = nm[0] if nm[0] in 'AZ' else BOTH if nm[0].isupper() else PLAIN
        kinds += [k] * s
    src = program(regs, ops)
    key = '%s|%s' % (src.replace('\n', ' '), simplify)
    if not rep.state(key):
        return
    with rep.case(key, dict(simplify=simplify)):
        try:
            g = zx.sqasm(src, simplify=simplify) if simplify is not None else zx.sqasm(src)
        except ValueError as ex:
            # the simple backend says so when the fused diagram has two edges between a spider and an H-box
            if 'unreducible parallel edge' in str(ex) and simplify is not False and sum(o[0] in ('ccz', 'ccx') for o in ops) and len(ops) > 1:
                rep.outcome('refused')
                return
            raise
        rep.step(len(ops) + 1)
        n = len(kinds)
        nin = sum(k in (PLAIN, POST) for k in kinds)
        nout = sum(k in (PLAIN, ANC) for k in kinds)
        ins, outs = g.inputs(), g.outputs()
        require(len(ins) == nin and len(outs) == nout, '%d inputs and %d outputs', len(ins), len(outs))
        bd = [v for v in g.vertices() if g.type(v) == BOUNDARY]
        require(sorted(bd) == sorted(list(ins) + list(outs)), 'boundaries')
        want = reference(kinds, ops)
        # drop the plugged axes
        idx = [slice(None) if k in (PLAIN, ANC) else 0 for k in kinds] + [slice(None) if k in (PLAIN, POST) else 0 for k in kinds]
        want = want[tuple(idx)].reshape((2 ** nout, 2 ** nin))
        got = ref.matrix(g)
        require(got.shape == want.shape, 'shape %s', got.shape)
        require(ref.close(got, want, 1e-7), 'another matrix: %s', np.round(got, 3).tolist() if got.size < 20 else '')
        rep.outcome((nin, nout))
        if simplify is not False:
            for e in g.edges():
                a, b = g.edge_st(e)
                require(not (g.edge_type(e) == 1 and g.type(a) == g.type(b) and g.type(a) in (Z, X)), 'two spiders of one colour are left unfused')
            for v in g.vertices():
                if g.type(v) in (Z, X) and g.phase(v) == 0 and g.vertex_degree(v) == 2:
                    require(False, 'an identity spider is left')
        rs = [g.row(v) for v in g.vertices()]
        require(all(isinstance(r, (int, float)) for r in rs), 'rows')


def alphabet(n, names):
    out = []
    for o in names:
        a = OPS[o][0]
        qs = itertools.permutations(range(n), a)
        for q in qs:
            if OPS[o][1] in ('ZZ', 'ZZZ') and tuple(sorted(q)) != q:
                continue
            out.append((o, q))
    return out


def fam_single(rep, n, depth, names, i, m):
    """one register of one qubit per wire, every kind of register on every wire"""
    al = alphabet(n, names)
    for ops in slice_iter(itertools.product(al, repeat=depth), i, m):
        for kinds in itertools.product('qAZG', repeat=n):
            regs = tuple((k + 'r' + 'abc'[j], 1) for j, k in enumerate(kinds))
            for s in (False, True) if depth < 3 else (None,):
                judge(rep, regs, ops, s)


def fam_registers(rep, shapes, depth, names, i, m):
    """registers of several qubits, several registers of one kind, registers of no special kind in between"""
    n = sum(shapes)
    al = alphabet(n, names)
    for ops in slice_iter(itertools.product(al, repeat=depth), i, m):
        for kinds in itertools.product(('q', 'A', 'Z', 'G', 'anc', 'zz', 'Anc', 'Zz', 'B0'), repeat=len(shapes)):
            regs = tuple((k + '_%d' % j, s) for j, (k, s) in enumerate(zip(kinds, shapes)))
            judge(rep, regs, ops, None)


def fam_wide(rep, n):
    """larger programs: one wire connected with all the others, every way round, registers of every kind"""
    shapes = [((a, 1), (b, n - 2), (c, 1)) for a in 'qAZG' for b in 'qAZG' for c in 'qAG']
    shapes = [tuple((k + 'xyz'[j], m) for j, (k, m) in enumerate(s) if m) for s in shapes]
    progs = []
    for hub in (0, n - 1):
        rest = [q for q in range(n) if q != hub]
        progs += [[('cx', (hub, q)) for q in rest], [('cx', (q, hub)) for q in rest], [('cz', tuple(sorted((q, hub)))) for q in rest],
                  [('cx', (hub, q)) for q in rest] + [('t', (q,)) for q in rest] + [('cx', (hub, q)) for q in rest],
                  [('h', (q,)) for q in range(n)] + [('cx', (q, hub)) for q in rest] + [('x', (hub,))] + [('h', (q,)) for q in rest],
                  [('t', (hub,))] + [('cx', (q, hub)) for q in rest] + [('tdg', (hub,))] + [('cx', (hub, q)) for q in rest]]
    progs.append([('cx', (q, q + 1)) for q in range(n - 1)] + [('cx', (q + 1, q)) for q in range(n - 1)])
    for regs in shapes:
        for ops in progs:
            judge(rep, regs, tuple(ops), None)
            judge(rep, regs, tuple(ops), False)


def fam_broad(rep, w, i, m):
    """registers of w wires, next to one or two registers of one wire; one gate on every placement, or a chain"""
    def items():
        for k in ('q', 'A', 'Z', 'G', 'anc', 'Zz', 'B0'):
            for shape in (((k + 'x', w),), ((k + 'x', w), ('qy', 1)), (('qw', 1), (k + 'x', w)), (('Gw', 1), (k + 'x', w), ('Ay', 1))):
                n = sum(s for _, s in shape)
                for ops in [(), tuple(('cx', (j, j + 1)) for j in range(n - 1)), tuple(('t', (j,)) for j in range(n)), tuple(('h', (j,)) for j in range(n))]:
                    yield shape, ops
                for o in (('t', 'x', 'h', 'cx', 'cz') if k in 'qAZG' else ('cx',)):
                    for qs in itertools.permutations(range(n), OPS[o][0]):
                        if o == 'cz' and qs[0] > qs[1]:
                            continue
                        yield shape, ((o, qs),)
    for regs, ops in slice_iter(items(), i, m):
        for s in (None, False):
            judge(rep, regs, ops, s)


FAMILIES = dict(broad=fam_broad, single=fam_single, registers=fam_registers, wide=fam_wide)
A1 = tuple(o for o in OPS if OPS[o][0] == 1)
A2 = ('h', 't', 'x', 'cx', 'cz')


def tasks(tier):
    q = tier == 'quick'
    R = range
    t = [('single', (1, d, A1, 0, 1)) for d in (0, 1, 2)] + [('single', (1, 3, A1, i, 4)) for i in R(4)]
    t += [('single', (2, d, A1 + ('cx', 'cz'), 0, 1)) for d in (0, 1)] + [('single', (2, 2, A1[:7] + ('cx', 'cz'), i, 4)) for i in R(4)]
    t += [('single', (2, 3, ('h', 't', 'cx') if q else A2, i, 8)) for i in R(8)]
    t += [('single', (3, 1, ('h', 't', 'cx', 'cz', 'ccz', 'ccx'), 0, 1))] + [('single', (3, 2, ('cx', 'ccz', 'h') if q else ('h', 't', 'cx', 'cz', 'ccz', 'ccx', 'x'), i, 8)) for i in R(8)]
    t += [('registers', (s, 1, ('h', 't', 'x', 'cx'), 0, 1)) for s in ((2,), (1, 1), (2, 1), (1, 2), (3,), (1, 1, 1))]
    t += [('registers', (s, 2, ('t', 'cx'), i, 4)) for s in ((2,), (2, 1), (1, 2)) for i in R(4)]
    t += [('wide', (n,)) for n in ((3, 4, 5) if q else (3, 4, 5, 6))]
    t += [('broad', (w, i, 4)) for w in ((3, 4, 5) if q else (3, 4, 5, 6)) for i in R(4)]
    if not q:
        t += [('registers', (s, 2, ('h', 'x', 'cx', 'cz'), i, 8)) for s in ((1, 2), (2, 1), (3,), (2, 2)) for i in R(8)]
        t += [('single', (2, 4, ('h', 't', 'cx', 'x'), i, 16)) for i in R(16)]
    return t


def run():
    return core.main('C33', FAMILIES, tasks, assumptions=['numerical comparison with tolerance 1e-7'], exhaustive_note='all programs of the stated sizes with every kind of register on every qubit')
