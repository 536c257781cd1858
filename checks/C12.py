"""C12: reading circuit-like diagrams back as circuits. Exhaustive circuits (all gates, layouts, backends), all hand-built
grids of spiders with every set of vertical connections, row numbering and vertex order, and all small defects of them."""
import itertools
from fractions import Fraction as F
import numpy as np
import core
from core import require, slice_iter
import ref, circ
from ref import BOUNDARY, Z, X, SIMPLE, HAD
import C07
import pyzx as zx
from pyzx import simplify as S
from C05 import dump

ONLY = {True: {'Z', 'S', 'T', 'NOT', 'ZPhase', 'XPhase', 'HAD', 'CNOT', 'CZ', 'XCX'},
        False: {'ZPhase', 'XPhase', 'HAD', 'CNOT', 'CZ', 'XCX'}}


def readback(rep, key, mk, u, n, feats, refuse=False):
    """refuse: a TypeError is acceptable too."""
    for split in (True, False):
        with rep.case('%s split=%s' % (key, split), feats):
            g = mk()
            s0 = dump(g)
            try:
                c = zx.Circuit.from_graph(g, split_phases=split)
            except TypeError as e:
                if not refuse:
                    raise
                rep.outcome('refused')
                continue
            require(dump(g) == s0, 'reading changed the diagram')
            require(c.qubits == n, 'the circuit has %d qubits', c.qubits)
            bad = {type(x).__name__ for x in c.gates} - ONLY[split]
            require(not bad, 'gates %s with split_phases=%s', bad, split)
            require(circ.up_to_scalar(u, circ.circuit_unitary(c)), 'the circuit has another unitary')
            rep.step(len(c.gates))
            rep.outcome('same')


def fam_gate(rep, name, n, deep, backend, i, m):
    """every gate with every parameter, alone and after / before another gate"""
    ar = circ.GATES[name][0]
    if ar > n:
        return
    pre = [(), (('HAD', (0,), ()), ('T', (n - 1,), ())), (('CNOT', (n - 1, 0), ()),) if n > 1 else ()]
    ps = [p for p in C07.params(name, deep) if not any(isinstance(x, float) for x in p)]
    for p in slice_iter(ps, i, m):
        for qs in circ.placements(name, n):
            for a in pre:
                sq = a + ((name, qs, p),) + a
                u = circ.unitary(n, sq)
                for cr in (True, False):
                    for zh in (False, True):
                        key = 'gate %s compress=%s zh=%s %s' % (circ.show(n, sq), cr, zh, backend)
                        if not rep.state(key):
                            continue
                        c = circ.circuit(n, sq)
                        readback(rep, key, lambda: c.to_graph(zh=zh, compress_rows=cr, backend=backend), u, n, dict(gate=name, what='gate'),
                                 refuse=zh or name == 'FSim')     # H-boxes and phase gadgets are not circuit-like


def fam_circ(rep, n, names, params, depth, preps, backend, i, m):
    alpha = circ.alphabet(n, names, dict(params))
    for sq in slice_iter(circ.sequences(alpha, depth), i, m):
        u = circ.unitary(n, sq)
        rep.sample(circ.show(n, sq))
        for pr in preps:
            for cr in (True, False):
                key = '%s %s compress=%s %s' % (pr, circ.show(n, sq), cr, backend)
                if not rep.state(key):
                    continue
                c = circ.circuit(n, sq)

                def mk():
                    g = c.to_graph(compress_rows=cr, backend=backend)
                    if pr == 'tele':
                        g = S.teleport_reduce(g)
                    elif pr == 'copy':
                        g = g.copy()
                    elif pr == 'clone':
                        g = g.clone()
                    elif pr == 'json':
                        g = zx.Graph().from_json(g.to_json())
                    elif pr == 'norm':
                        g.normalize()
                    elif pr == 'pack':
                        g.pack_circuit_rows()
                    elif pr == 'id':
                        S.id_simp(g)
                    return g
                readback(rep, key, mk, u, n, dict(what=pr), refuse=pr == 'id')


# -- hand-built grids -----------------------------------------------------------------------------------------------
def grids(n, rows, cells, hor):
    """cells: spider options (None = no spider there); hor: horizontal edge types; vertical edges join all pairs of
    adjacent qubits with a spider in the same row (also qubits 0 and 2)"""
    for cl in itertools.product(cells, repeat=n * rows):
        cell = [[cl[r * n + q_] for q_ in range(n)] for r in range(rows)]
        vert = [(r, a, b) for r in range(rows) for a in range(n) for b in range(a + 1, n) if cell[r][a] and cell[r][b]]
        nh = sum(1 for x in cl if x) + n
        for vs in itertools.product((0, 1), repeat=len(vert)):
            for hs in (hor if hor is not None else itertools.product((SIMPLE, HAD), repeat=nh)):
                yield cell, [v for v, x in zip(vert, vs) if x], [hs[k % len(hs)] for k in range(nh)]


def build_grid(cell, vert, hs, order, rownum, backend, coords=None):
    """order: 'row', 'col', 'rev', 'outfirst' - the order in which the vertices are made"""
    rows, n = len(cell), len(cell[0])
    g = zx.Graph(backend)
    pos = [(r, a) for r in range(rows) for a in range(n) if cell[r][a]]
    want = [('i', a) for a in range(n)] + pos + [('o', a) for a in range(n)]
    if order == 'col':
        want = [('i', a) for a in range(n)] + sorted(pos, key=lambda p: p[1]) + [('o', a) for a in range(n)]
    elif order == 'rev':
        want = want[::-1]
    elif order == 'outfirst':
        want = [('o', a) for a in range(n)] + sorted(pos, key=lambda p: (-p[0], p[1])) + [('i', a) for a in range(n)]
    rn = {'i': rownum[0], 'o': rownum[rows + 1]}
    rn.update({r: rownum[r + 1] for r in range(rows)})
    ids = {}
    for p in want:
        r, a = p
        if r in ('i', 'o'):
            ids[p] = g.add_vertex(BOUNDARY, a, rn[r])
        else:
            ty, ph = cell[r][a]
            ids[p] = g.add_vertex(ty, a, rn[r], phase=ph)
    k = 0
    for a in range(n):
        last = ids[('i', a)]
        for r in list(range(rows)) + ['o']:
            if r != 'o' and not cell[r][a]:
                continue
            v = ids[(r, a)]
            g.add_edge((last, v), hs[k])
            k += 1
            last = v
    for r, a, b in vert:
        g.add_edge((ids[(r, a)], ids[(r, b)]), HAD if cell[r][a][0] == cell[r][b][0] else SIMPLE)
    g.set_inputs(tuple(ids[('i', a)] for a in range(n)))
    g.set_outputs(tuple(ids[('o', a)] for a in range(n)))
    return g


def unit_grid(cell, vert, hs):
    """Unitary of the grid, gate by gate."""
    rows, n = len(cell), len(cell[0])
    sq = []
    hor, k = {}, 0
    for a in range(n):
        for r in list(range(rows)) + ['o']:
            if r == 'o' or cell[r][a]:
                hor[(r, a)] = hs[k]
                k += 1
    for r in range(rows):
        for a in range(n):
            if cell[r][a]:
                if hor[(r, a)] == HAD:
                    sq.append(('HAD', (a,), ()))
                sq.append(('ZPhase' if cell[r][a][0] == Z else 'XPhase', (a,), (cell[r][a][1],)))
        for r2, a, b in vert:
            if r2 == r:
                ta, tb = cell[r][a][0], cell[r][b][0]
                sq.append(('CZ' if ta == tb == Z else 'XCX' if ta == tb else 'CNOT', (a, b) if ta == Z or tb == X else (b, a), ()))
    for a in range(n):
        if hor[('o', a)] == HAD:
            sq.append(('HAD', (a,), ()))
    return circ.unitary(n, sq)


def fam_grid(rep, n, rows, cells, hor, layouts, backend, i, m):
    for cell, vert, hs in slice_iter(grids(n, rows, cells, hor), i, m):
        u = None
        for order, rn in layouts:
            key = 'grid %s vert=%s hor=%s order=%s rows=%s %s' % ([[str(c and (int(c[0]), str(c[1]))) for c in r] for r in cell], vert,
                                                                ''.join(str(int(x)) for x in hs), order, rn, backend)
            if not rep.state(key):
                continue
            rep.sample(key)
            if u is None:
                u = unit_grid(cell, vert, hs)
                if n * rows <= 4 and not ref.prop(u, ref.matrix(build_grid(cell, vert, hs, order, rn, backend))):
                    raise RuntimeError('the oracle disagrees with itself')
            readback(rep, key, lambda: build_grid(cell, vert, hs, order, rn, backend), u, n, dict(what='grid'))


def fam_tall(rep, n, rows, cells, full, backend, i, m):
    """many qubits: in every row, stars, paths, single connections at all distances and all connections at once"""
    def conns():
        ps = [(a, b) for a in range(n) for b in range(a + 1, n)]
        yield ()
        for p in ps:
            yield (p,)
        for hub in range(n):
            yield tuple(tuple(sorted((hub, a))) for a in range(n) if a != hub)
        yield tuple((a, a + 1) for a in range(n - 1))
        yield tuple((a, b) for a, b in ps if b - a > 1)
        yield tuple(ps)
        if full:
            for p, q_ in itertools.combinations(ps, 2):
                yield (p, q_)
    lay = (('row', tuple(range(rows + 2))), ('rev', tuple(range(rows + 2))), ('outfirst', tuple(10 * r for r in range(rows + 2))), ('col', tuple(range(rows + 2))))

    def items():
        for rot in range(len(cells)):
            for st in range(1, max(2, len(cells))):
                cell = [[cells[(rot + st * a + r) % len(cells)] for a in range(n)] for r in range(rows)]
                cs = list(conns())
                for c1 in cs:
                    for c2 in (cs if rows > 1 and full else cs[:1] + cs[-2:] if rows > 1 else ((),)):
                        vert = [(0, a, b) for a, b in c1 if cell[0][a] and cell[0][b]] + [(1, a, b) for a, b in c2 if rows > 1 and cell[1][a] and cell[1][b]]
                        for hs in ((SIMPLE,), (SIMPLE, HAD, SIMPLE)):
                            yield cell, vert, [hs[k % len(hs)] for k in range(n * rows + n)]
    for cell, vert, hs in slice_iter(items(), i, m):
        u = None
        for order, rn in lay:
            key = 'tall %s vert=%s hor=%s order=%s %s' % ([[str(c and (int(c[0]), str(c[1]))) for c in r] for r in cell], vert, ''.join(str(int(x)) for x in hs), order, backend)
            if not rep.state(key):
                continue
            if u is None:
                u = unit_grid(cell, vert, hs)
            readback(rep, key, lambda: build_grid(cell, vert, hs, order, rn, backend), u, n, dict(what='tall'))


def fam_defect(rep, n, rows, cells, backend, i, m):
    """circuit-like grids with one wrong connection: a wire that crosses between qubits or a vertical connection of the
    wrong kind must be refused"""
    rn = tuple(range(rows + 2))
    for cell, vert, hs in slice_iter(grids(n, rows, cells, [(SIMPLE,), (SIMPLE, HAD)]), i, m):
        base = build_grid(cell, vert, hs, 'row', rn, backend)
        s0 = sorted(base.vertices())
        for kind in ('vertical', 'cross', 'extra'):
            if kind == 'vertical':
                cands = [(base.edge_st(e)) for e in base.edges() if base.row(base.edge_s(e)) == base.row(base.edge_t(e))]
            else:
                cands = [(v, w) for v in s0 for w in s0 if v < w and not base.connected(v, w) and base.row(v) < base.row(w)
                         and base.qubit(v) != base.qubit(w) and base.type(w) != BOUNDARY]
            for v, w in cands:
                key = '%s %s,%s of %s vert=%s hor=%s %s' % (kind, v, w, [[str(c and (int(c[0]), str(c[1]))) for c in r] for r in cell], vert,
                                                            ''.join(str(int(x)) for x in hs), backend)
                if not rep.state(key):
                    continue
                with rep.case(key, dict(what=kind)):
                    g = build_grid(cell, vert, hs, 'row', rn, backend)
                    if kind == 'vertical':
                        e = g.edge(v, w)
                        g.set_edge_type(e, HAD if g.edge_type(e) == SIMPLE else SIMPLE)
                    elif kind == 'extra':
                        g.add_edge((v, w), SIMPLE)
                    else:   # the wire into w comes from another qubit
                        p = [x for x in g.neighbors(w) if g.row(x) < g.row(w)][0]
                        g.remove_edge(g.edge(p, w))
                        g.add_edge((v, w), SIMPLE)
                    try:
                        zx.Circuit.from_graph(g)
                    except TypeError:
                        rep.outcome('refused')
                        rep.step()
                        continue
                    require(False, 'a diagram that is not circuit-like was read as a circuit')


FAMILIES = dict(tall=fam_tall, gate=fam_gate, circ=fam_circ, grid=fam_grid, defect=fam_defect)
q, h, o = F(1, 4), F(1, 2), F(1)


def tasks(tier):
    deep = tier == 'thorough'
    T = []

    def add(fam, args, n):
        for i in range(n):
            T.append((fam, tuple(args) + (i, n)))
    for nm in circ.GATES:
        ar = circ.GATES[nm][0]
        if nm in ('PP4',):
            continue
        if True:
            for b in ('simple', 'multigraph') if ar < 3 or deep else ('simple',):
                add('gate', (nm, ar, deep, b), 1 if ar < 3 else 4)
                if ar < 3 and (b == 'simple' or deep):
                    add('gate', (nm, ar + 1, deep, b), 4)
    PS = (('ZPhase', ((q,), (F(1, 3),), (F(3, 4),))), ('XPhase', ((q,), (F(3, 2),))))
    PR = ('plain', 'tele', 'copy', 'clone', 'json', 'pack', 'id')
    for b in ('simple', 'multigraph'):
        pr = PR if b == 'simple' else tuple(p for p in PR if p != 'json')
        for dpt in (0, 1, 2):
            add('circ', (2, ('HAD', 'T', 'S*', 'NOT', 'CNOT', 'CZ', 'XCX', 'SWAP', 'ZPhase', 'XPhase'), PS, dpt, pr, b), 8)
            add('circ', (3, ('HAD', 'T', 'CNOT', 'CZ', 'XCX', 'Tof'), PS, dpt, ('plain', 'pack', 'tele'), b), 8)
        if deep:
            add('circ', (2, ('HAD', 'T', 'S*', 'NOT', 'CNOT', 'CZ', 'XCX', 'SWAP', 'ZPhase', 'XPhase'), PS, 3, pr, b), 64)
            add('circ', (3, ('HAD', 'T', 'CNOT', 'CZ', 'XCX'), PS, 3, ('plain', 'pack', 'tele'), b), 64)
    add('circ', (2, ('HAD', 'T', 'CNOT', 'CZ'), PS, 3, ('plain', 'tele', 'id', 'pack'), 'simple'), 16)
    L = (('row', (0, 1, 2, 3, 4)), ('col', (0, 1, 2, 3, 4)), ('rev', (0, 1, 2, 3, 4)), ('outfirst', (-3, -1, F(1, 2), 5, 100)), ('row', (0, 10, 20, 30, 40)))
    C3 = (None, (Z, F(0)), (X, F(0)))
    C5 = (None, (Z, q), (X, h), (Z, o), (X, F(3, 4)))
    PH = tuple((t, F(k, 4)) for t in (Z, X) for k in range(8)) + ((Z, F(1, 3)), (X, F(5, 3)), (Z, F(1, 8)))
    for b in ('simple', 'multigraph'):
        add('grid', (1, 1, PH, None, L, b), 1)
        add('grid', (1, 2, C5, None, L, b), 1)
        add('grid', (2, 1, PH, [(SIMPLE,), (HAD, SIMPLE, SIMPLE)], L, b), 2)
        add('grid', (2, 2, C3 if not deep else C5, None if deep else [(SIMPLE,), (SIMPLE, HAD), (HAD, SIMPLE, SIMPLE), (HAD,)], L if deep else L[:4], b), 8 if not deep else 64)
        add('grid', (3, 1, C5, [(SIMPLE,), (SIMPLE, HAD), (HAD, SIMPLE, SIMPLE)], L, b), 4)
        add('grid', (2, 3, C3, [(SIMPLE, HAD, SIMPLE)], L[:2] if not deep else L, b), 8)
        if deep:
            add('grid', (3, 2, C3, [(SIMPLE,), (SIMPLE, HAD, SIMPLE)], L[:4], b), 64)
        C4 = ((Z, q), (X, h), (Z, F(0)), (X, F(7, 4)))
        for n in (4, 5) if not deep else (4, 5, 6, 7):
            add('tall', (n, 1, C4, deep, b), 4)
            add('tall', (n, 2, C3[1:], False, b), 4)
        if deep:
            add('tall', (4, 2, C4, True, b), 32)
        if b == 'simple' or deep:
            add('circ', (4, ('HAD', 'T', 'CNOT', 'CZ', 'XCX', 'SWAP'), PS, 1, ('plain', 'pack', 'tele'), b), 2)
            add('circ', (5, ('HAD', 'T', 'CNOT', 'CZ', 'XCX', 'SWAP', 'Tof') if deep else ('T', 'CNOT', 'CZ', 'XCX'), PS, 1, ('plain', 'tele'), b), 2)
            add('circ', (4, ('T', 'CNOT') if not deep else ('HAD', 'T', 'CNOT', 'CZ', 'XCX'), PS, 2, ('plain', 'pack'), b), 8)
        add('defect', (2, 2, C3, b), 4)
        add('defect', (3, 1, C3, b), 2)
    return T


ASSUME = ['standard gate matrices in lib/circ.py', 'circuit-like: every spider has one earlier neighbour, on its own qubit, and every other connection is to a spider in its row']
BOUNDS = dict(quick='every gate x parameters x placements on up to 3 qubits; circuits of depth 2-3; all grids of spiders 2x2, 3x1, 2x3 with all vertical connections',
              thorough='circuits of depth 3 on 2-3 qubits; 3x2 grids, all edge types of 2x2 grids with 5 kinds of spider')


def run():
    return core.main('C12', FAMILIES, tasks, ASSUME, BOUNDS)
