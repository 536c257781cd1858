"""C02: simplification strategies preserve the linear map (with scalar) and terminate."""
import itertools
from fractions import Fraction as F
import core
from core import require, slice_iter
import ref, circ, big
from ref import BOUNDARY, Z, X, HBOX, WIN, WOUT, ZBOX, SIMPLE, HAD, WIO
from diag import V, build, with_boundaries
import C01
import pyzx as zx
from pyzx import simplify as S

q, h, o = F(1, 4), F(1, 2), F(1)


def is_gl(s):
    k = {i for i, v in enumerate(s.verts) if v[0] != BOUNDARY}
    return all(s.verts[i][0] == Z for i in k) and all(t == 2 for a, b, t in s.edges if a in k and b in k)


STRAT = {
    # name: (function, domain)
    'spider_simp': (lambda g: S.spider_simp(g, quiet=True), 'zx'),
    'id_simp': (lambda g: S.id_simp(g, quiet=True), 'zx'),
    'pivot_simp': (lambda g: S.pivot_simp(g, quiet=True), 'gl'),
    'pivot_gadget_simp': (lambda g: S.pivot_gadget_simp(g, quiet=True), 'gl'),
    'pivot_boundary_simp': (lambda g: S.pivot_boundary_simp(g, quiet=True), 'gl'),
    'gadget_simp': (lambda g: S.gadget_simp(g, quiet=True), 'gl'),
    'lcomp_simp': (lambda g: S.lcomp_simp(g, quiet=True), 'gl'),
    'supplementarity_simp': (lambda g: S.supplementarity_simp(g, quiet=True), 'gl'),
    'copy_simp': (lambda g: S.copy_simp(g, quiet=True), 'gl'),
    'interior_clifford_simp': (lambda g: S.interior_clifford_simp(g, quiet=True), 'zx'),
    'clifford_simp': (lambda g: S.clifford_simp(g, quiet=True), 'zx'),
    'full_reduce': (lambda g: S.full_reduce(g, quiet=True), 'zx'),
    'to_gh': (lambda g: S.to_gh(g), 'zx'),
    'to_rg': (lambda g: S.to_rg(g), 'zx'),
    'to_rg_even': (lambda g: S.to_rg(g, select=lambda v: v % 2 == 0), 'zx'),
    'to_graph_like': (lambda g: S.to_graph_like(g), 'zx'),
    'phase_free_simp': (lambda g: S.phase_free_simp(g, quiet=True), 'pf'),
    'bialg_simp': (lambda g: S.bialg_simp(g, quiet=True), 'pf'),
    'reduce_scalar': (lambda g: S.reduce_scalar(g, quiet=True), 'zx'),
    'iter_full': ('full_reduce_iter', 'zx'),
    'iter_clifford': ('clifford_iter', 'zx'),
    'iter_interior': ('interior_clifford_iter', 'zx'),
    'iter_bialg': ('bialg_iter', 'pf'),
    'iter_spider': ('spider_iter', 'zx'),
    'iter_id': ('id_iter', 'zx'),
    'iter_pivot': ('pivot_iter', 'gl'),
    'iter_lcomp': ('lcomp_iter', 'gl'),
    'iter_pivot_gadget': ('pivot_gadget_iter', 'gl'),
    'iter_pivot_boundary': ('pivot_boundary_iter', 'gl'),
    'iter_gadget': ('gadget_iter', 'gl'),
}
ALL = list(STRAT)
MAIN = ['spider_simp', 'id_simp', 'interior_clifford_simp', 'clifford_simp', 'full_reduce', 'to_gh', 'to_rg', 'to_rg_even',
        'to_graph_like', 'reduce_scalar', 'iter_full', 'iter_clifford']
BIG = ['full_reduce', 'clifford_simp', 'reduce_scalar']


def in_domain(dom, s, gl):
    if dom == 'zx':
        return True
    if dom == 'gl':
        return gl
    if dom == 's':
        return not s.ins and not s.outs
    if dom == 'pf':
        return all(v[0] in (Z, X, BOUNDARY) and not v[1] for v in s.verts) and all(e[2] == 1 for e in s.edges)
    raise KeyError(dom)


def check(base, g, io, what, grounded):
    require((g.inputs(), g.outputs()) == io, '%s changed the lists of inputs/outputs: %s', what, (g.inputs(), g.outputs()))
    vs = set(g.vertices())
    require(all(v in vs for v in io[0] + io[1]), '%s removed a boundary vertex', what)
    after = ref.value(g, doubled=grounded)
    require(ref.close(base, after), '%s changed the linear map or scalar: %s', what, C01.ratio(base, after))


def run_strategies(rep, s, names, backend, auto=None, feats=None, matchfs=None):
    key = s.show()
    if not rep.state(backend + str(auto) + key):
        return
    grounded = any(v[3] for v in s.verts)
    base = s.value(doubled=grounded)
    gl = is_gl(s)
    for nm in names:
        fn, dom = STRAT[nm]
        if not in_domain(dom, s, gl):
            continue
        with rep.case('%s %s%s %s' % (nm, backend, '' if auto is None else auto, key), dict(feats or {}, strategy=nm, backend=backend)):
            g = build(s, backend, auto)
            io = (g.inputs(), g.outputs())
            nv = g.num_vertices()
            if isinstance(fn, str):
                k = 0
                for g2, step in getattr(S, fn)(g):
                    require(g2 is g, 'iterator yields another graph')
                    k += 1
                    rep.step()
                    check(base, g, io, '%s step %s' % (fn, step), grounded)
                rep.outcome('%s:%d steps' % (nm, min(k, 8)))
            else:
                fn(g)
                rep.step()
                rep.outcome('%s:%+d' % (nm, g.num_vertices() - nv))
                check(base, g, io, nm, grounded)


def fam_gl(rep, n, phases, bopts, names, backend, i, m):
    for s in slice_iter(C01.gl_specs(n, phases, bopts), i, m):
        rep.sample(s.show())
        run_strategies(rep, s, names, backend)


def fam_zx(rep, n, kinds, bopts, names, backend, i, m):
    for s in slice_iter(C01.zx_specs(n, kinds, bopts), i, m):
        if len(s.ins) + len(s.outs) > 4:
            continue
        rep.sample(s.show())
        run_strategies(rep, s, names, backend)


def fam_multi(rep, n, kinds, mult, auto, names, i, m):
    for s in slice_iter(C01.multi_specs(n, kinds, mult), i, m):
        rep.sample(s.show())
        run_strategies(rep, s, names, 'multigraph', auto)


def fam_gadgets(rep, nt, ng, phases, axels, tph, names, i, m):
    for s in slice_iter(C01.gadget_specs(nt, ng, phases, axels, tph), i, m):
        rep.sample(s.show())
        run_strategies(rep, s, names, 'simple')


def fam_pf(rep, n, i, m):
    for s in slice_iter(C01.bialg_specs(n), i, m):
        rep.sample(s.show())
        run_strategies(rep, s, ['phase_free_simp', 'bialg_simp', 'iter_bialg', 'full_reduce'], 'simple')


def fam_ground(rep, n, phases, bopts, i, m):
    for s in slice_iter(C01.ground_specs(n, phases, bopts), i, m):
        rep.sample(s.show())
        run_strategies(rep, s, ['spider_simp', 'id_simp', 'interior_clifford_simp', 'clifford_simp', 'full_reduce', 'to_gh',
                                'to_rg', 'iter_full'], 'simple', feats=dict(ground=1))


def fam_wires(rep, i, m):
    """bare wires (identity, cup, cap, swap; plain and Hadamard) next to a small spider diagram."""
    def specs():
        for k in (1, 2):
            for ets in itertools.product((1, 2), repeat=k):
                for io in itertools.product(('io', 'ii', 'oo'), repeat=k):
                    for sp in (None, V(Z, 0), V(Z, q), V(X, o), V(X, h)):
                        for b in ((), (1,), (2,), (1, 2), (1, 1)):
                            if sp is None and b:
                                continue
                            s = with_boundaries([sp] if sp else [], [], [b] if sp else [])
                            for e, w in zip(ets, io):
                                a = len(s.verts)
                                s.verts += [V(BOUNDARY), V(BOUNDARY)]
                                s.edges.append((a, a + 1, e))
                                for v, t in zip((a, a + 1), w):
                                    (s.ins if t == 'i' else s.outs).append(v)
                            yield s
    for s in slice_iter(specs(), i, m):
        rep.sample(s.show())
        run_strategies(rep, s, MAIN, 'simple')
        run_strategies(rep, s, MAIN, 'multigraph')


class _Sel(object):
    """Restriction of a strategy to part of the diagram: accepts a vertex in the set, an edge inside the set."""
    def __init__(self, vs):
        self.vs = vs

    def __call__(self, x):
        if isinstance(x, tuple):
            return x[0] in self.vs and x[1] in self.vs
        return x in self.vs


def fam_part(rep, n, phases, bopts, i, m):
    for s in slice_iter(C01.gl_specs(n, phases, bopts), i, m):
        rep.sample(s.show())
        key = s.show()
        base = s.value()
        vs = list(range(len(s.verts)))
        inner = [v for v in vs if s.verts[v][0] != BOUNDARY]
        rep.state(key)
        for r in range(1, len(inner)):
            for sub in itertools.combinations(inner, r):
                for nm in ('interior_clifford_simp', 'clifford_simp', 'full_reduce'):
                    with rep.case('%s|%s %s' % (nm, sub, key), dict(strategy=nm, part=1)):
                        g = build(s)
                        io = (g.inputs(), g.outputs())
                        getattr(S, nm)(g, matchf=_Sel(set(sub)), quiet=True)
                        rep.step()
                        check(base, g, io, '%s restricted to %s' % (nm, sub), False)
                        left = set(g.vertices())
                        # spiders outside the part may only disappear by being fused / rewired from inside it
                        require(all(v in left for v in g.inputs() + g.outputs()), 'boundary removed')


# diagrams on which some rewrite of every kind applies, put next to another diagram
APART = [
    # boundary pivot: pi/2-free spider with a boundary next to an interior one
    ([V(Z), V(Z, o), V(Z, q)], [(0, 1, 2), (1, 2, 2)], [(0, 1), (2, 1), (2, 2)]),
    # interior pivot, local complementation
    ([V(Z, q), V(Z), V(Z, o), V(Z, q), V(Z, h)], [(0, 1, 2), (1, 2, 2), (2, 3, 2), (3, 4, 2), (0, 4, 2)], [(0, 1), (3, 1)]),
    # two gadgets on the same targets, gadget pivot
    ([V(Z, F(1, 3)), V(Z, q), V(Z), V(Z, q), V(Z), V(Z, q)], [(0, 2, 2), (1, 2, 2), (2, 3, 2), (0, 4, 2), (1, 4, 2), (4, 5, 2)], [(0, 1), (1, 1)]),
    # identity, fusion
    ([V(Z, q), V(Z), V(Z, h), V(Z, F(1, 3))], [(0, 1, 1), (1, 2, 2), (2, 3, 1)], [(0, 1), (3, 1)]),
    # interior spider with an arbitrary phase next to an interior Pauli spider
    ([V(Z, q), V(Z, o), V(Z, F(1, 3)), V(Z, q)], [(0, 1, 2), (1, 2, 2), (2, 3, 2), (0, 2, 2)], [(0, 1), (3, 2)]),
]
APARTN = ['spider_simp', 'id_simp', 'pivot_simp', 'pivot_gadget_simp', 'pivot_boundary_simp', 'lcomp_simp', 'gadget_simp',
          'interior_clifford_simp', 'clifford_simp', 'full_reduce']


def fam_apart(rep, n, phases, bopts, i, m):
    """Strategies restricted to vertices (and edges between them): a component without any of them stays as it is."""
    from diag import Spec
    for s in slice_iter(C01.gl_specs(n, phases, bopts) if n else [Spec([], [], [], [])], i, m):
        inner = [v for v in range(len(s.verts)) if s.verts[v][0] != BOUNDARY]
        for k, (vs, es, bs) in enumerate(APART):
            b0 = len(s.verts)
            verts = list(s.verts) + list(vs)
            edges = list(s.edges) + [(a + b0, b + b0, t) for a, b, t in es]
            ins, outs = list(s.ins), list(s.outs)
            for j, (v, t) in enumerate(bs):
                verts.append(V(BOUNDARY)); edges.append((v + b0, len(verts) - 1, t))
                (outs if j % 2 else ins).append(len(verts) - 1)
            d = Spec(verts, edges, ins, outs)
            key = d.show()
            rep.sample(key)
            if not rep.state(key):
                continue
            base = d.value()

            def part(g):
                mine = [v for v in g.vertices() if v >= b0 and v < len(verts)]
                return ([(v, g.type(v), g.phase(v), g.row(v), g.qubit(v)) for v in sorted(mine)],
                        sorted((min(g.edge_st(e)), max(g.edge_st(e)), g.edge_type(e)) for e in g.edges() if max(g.edge_st(e)) >= b0 and min(g.edge_st(e)) < len(verts) and max(g.edge_st(e)) < len(verts)),
                        [e for e in g.edges() if (min(g.edge_st(e)) in mine or max(g.edge_st(e)) in mine) and max(g.edge_st(e)) >= len(verts)])
            for sub in {(), tuple(inner), tuple(inner[:1]), tuple(inner[-1:])}:
                for nm in APARTN:
                    with rep.case('%s|%s %s' % (nm, sub, key), dict(strategy=nm, part=2)):
                        g = build(d)
                        io = (g.inputs(), g.outputs())
                        was = part(g)
                        getattr(S, nm)(g, matchf=_Sel(set(sub)), quiet=True)
                        rep.step()
                        now = part(g)
                        require(now == was, '%s restricted to %s changed another part of the diagram: %s', nm, sub,
                                [x for x in now[0] + now[1] + now[2] if x not in was[0] + was[1]] + [x for x in was[0] + was[1] if x not in now[0] + now[1]])
                        check(base, g, io, '%s restricted to %s' % (nm, sub), False)


CL = ['HAD', 'S', 'T', 'NOT', 'CNOT', 'CZ']
CL2 = ['HAD', 'T', 'CNOT', 'XPhase']


def fam_circ(rep, n, gates, depth, names, i, m):
    alpha = circ.alphabet(n, gates)
    for sq in slice_iter(circ.sequences(alpha, depth), i, m):
        key = circ.show(n, sq)
        rep.sample(key)
        if not rep.state(key):
            continue
        c = circ.circuit(n, sq)
        g0 = c.to_graph()
        base = ref.value(g0)
        for nm in names:
            with rep.case('%s %s' % (nm, key), dict(strategy=nm)):
                g = c.to_graph()
                io = (g.inputs(), g.outputs())
                STRAT[nm][0](g)
                rep.step()
                rep.outcome('%s:%d' % (nm, g.num_vertices()))
                check(base, g, io, nm, False)


def fam_cliffnf(rep, n, gates, depth, i, m):
    alpha = circ.alphabet(n, gates)
    for sq in slice_iter(circ.sequences(alpha, depth), i, m):
        key = circ.show(n, sq)
        rep.sample(key)
        if not rep.state('nf' + key):
            continue
        with rep.case('to_clifford_normal_form_graph ' + key, dict(strategy='cliffnf')):
            g = circ.circuit(n, sq).to_graph()
            base = ref.value(g)
            io = (g.inputs(), g.outputs())
            S.to_clifford_normal_form_graph(g)
            rep.step()
            check(base, g, io, 'to_clifford_normal_form_graph', False)


def fam_layers(rep, n, menu, lengths, names, nf, i, m):
    for nm, sq in slice_iter(big.layers(n, menu, lengths), i, m):
        key = '%d qubits: %s' % (n, nm)
        rep.sample(key)
        if not rep.state(key):
            continue
        base = ref.value(circ.circuit(n, sq).to_graph())
        for st in names:
            with rep.case('%s layers %s' % (st, key), dict(strategy=st)):
                g = circ.circuit(n, sq).to_graph()
                io = (g.inputs(), g.outputs())
                STRAT[st][0](g)
                rep.step()
                rep.outcome('%s:%d' % (st, g.num_vertices()))
                check(base, g, io, st, False)
        if nf:
            with rep.case('to_clifford_normal_form_graph layers ' + key, dict(strategy='cliffnf')):
                g = circ.circuit(n, sq).to_graph()
                io = (g.inputs(), g.outputs())
                S.to_clifford_normal_form_graph(g)
                rep.step()
                check(base, g, io, 'to_clifford_normal_form_graph', False)


def fam_wide(rep, kind, k, names, i, m):
    for _, s in slice_iter(C01.wide_specs(kind, k), i, m):
        rep.sample(s.show())
        run_strategies(rep, s, names, 'simple')


def fam_big(rep, lo, hi, names, i, m):
    for s in slice_iter(big.gl(lo=lo, hi=hi), i, m):
        rep.sample(s.show())
        run_strategies(rep, s, names, 'simple')


FAMILIES = dict(layers=fam_layers, wide=fam_wide, big=fam_big, gl=fam_gl, zx=fam_zx, multi=fam_multi, gadgets=fam_gadgets, pf=fam_pf, ground=fam_ground, wires=fam_wires,
                part=fam_part, apart=fam_apart, circ=fam_circ, cliffnf=fam_cliffnf)
B3 = ((), (1,), (2,))
ZXK = (V(Z, 0), V(Z, q), V(X, 0), V(X, h), V(Z, o))
ZXK2 = (V(Z, 0), V(Z, q), V(X, h))


def tasks(tier):
    deep = tier == 'thorough'
    T = []

    def add(fam, args, n):
        for i in range(n):
            T.append((fam, tuple(args) + (i, n)))
    add('gl', (1, (F(0), q, h, o, F(3, 2)), B3 + ((1, 1), (1, 2), (2, 2)), ALL, 'simple'), 1)
    add('gl', (2, (F(0), q, h, o) if not deep else (F(0), q, h, o, F(3, 2), F(5, 4), F(1, 3)), B3 + (((1, 1), (1, 2)) if deep else ()), ALL, 'simple'), 8)
    add('gl', (3, (F(0), q, h, o) if deep else (F(0), q, h), ((), (1,), (2,)) if deep else ((), (1,)), ALL if deep else ALL, 'simple'), 32)
    if deep:
        add('gl', (4, (F(0), q, h, o), ((), (1,)), BIG + ['iter_full', 'clifford_simp', 'interior_clifford_simp'], 'simple'), 64)
        add('gl', (5, (F(0), q, h), ((),), BIG, 'simple'), 64)
    else:
        add('gl', (4, (F(0), q, h), ((),), BIG + ['iter_full'], 'simple'), 24)
        add('gl', (4, (F(0), q), ((), (1,)), ['full_reduce'], 'simple'), 24)
    for be in ('simple', 'multigraph'):
        add('zx', (2, ZXK, B3, MAIN + ['iter_spider', 'iter_id', 'iter_interior'], be), 8)
    add('zx', (3, ZXK if deep else ZXK2, ((), (1,)), MAIN if deep else ['full_reduce', 'clifford_simp', 'to_graph_like', 'to_rg'], 'simple'), 32)
    if deep:
        add('zx', (3, ZXK2, ((), (1,)), MAIN, 'multigraph'), 32)
        add('zx', (4, ZXK2, ((),), BIG[:2], 'simple'), 64)
    for auto in (True, False):
        add('multi', (2, (V(Z, q), V(X, 0)), 3 if deep else 2, auto, ['spider_simp', 'full_reduce', 'to_gh', 'to_rg', 'to_graph_like'] if auto
                      else ['spider_simp', 'to_gh', 'to_rg']), 16)
    add('gadgets', (2, 2, (q, F(7, 4)), (F(0), o), (F(0), q), ['gadget_simp', 'full_reduce', 'iter_gadget', 'clifford_simp']), 8)
    add('gadgets', (3, 2, (q,), (F(0), o), (F(0), h) if deep else (F(0),), ['gadget_simp', 'full_reduce']), 8)
    if deep:
        add('gadgets', (3, 3, (q, F(7, 4)), (F(0), o), (F(0),), ['full_reduce']), 64)
        add('gadgets', (4, 2, (q, F(1, 3)), (F(0), o), (F(0),), ['full_reduce']), 32)
    add('pf', (3,), 4)
    add('pf', (4,), 24)
    if deep:
        add('pf', (5,), 64)
    add('ground', (2, (F(0), h, q, o), B3), 8)
    add('ground', (3, (F(0), h, q) if deep else (F(0), q), ((), (1,))), 24)
    add('wires', (), 4)
    add('part', (2, (F(0), q, h, o), B3), 4)
    add('part', (3, (F(0), q, h, o) if deep else (F(0), q, h), ((), (1,)) if deep else ((), (1,))), 16)
    if deep:
        add('part', (4, (F(0), h, q), ((),)), 64)
    add('apart', (0, (), ()), 1)
    add('apart', (1, (F(0), h, q), B3), 1)
    add('apart', (2, (F(0), h, q), B3 if deep else ((), (1,))), 4)
    add('apart', (3, (F(0), h, q) if deep else (F(0), h), ((), (1,)) if deep else ((),)), 16)
    add('circ', (2, CL, 3 if not deep else 5, BIG[:2] + (['iter_full'] if 0 else [])), 32)
    add('circ', (3, CL2, 2 if not deep else 4, BIG[:2]), 32)
    add('cliffnf', (1, ['HAD', 'S', 'NOT'], 4 if not deep else 6), 2)
    add('cliffnf', (2, ['HAD', 'S', 'CNOT', 'CZ', 'NOT'], 3 if not deep else 4), 8)
    add('layers', (4, big.CLIFF, (1, 2, 3), ['full_reduce', 'clifford_simp'], True), 32)
    add('layers', (5, ('H', 'Sr', 'ci', 'zk', 'zp', 'cp'), (2, 3, 4) if deep else (2, 3), ['full_reduce'], True), 16)
    add('layers', (4, ('H', 'Tr', 'He', 'cp', 'zo', 'T', 'Px', 'ci'), (2, 3, 4) if deep else (2, 3), ['full_reduce', 'clifford_simp', 'to_rg'], False), 32)
    if deep:
        add('layers', (4, big.CLIFF, (4,), ['full_reduce'], True), 128)
        add('layers', (6, big.CLIFF, (2,), ['full_reduce'], True), 64)
    for kind, k, nms in (('gadgets', 4, ['gadget_simp', 'full_reduce']), ('lcomp', 5, ['lcomp_simp', 'interior_clifford_simp', 'full_reduce']),
                         ('pivot', 3, ['pivot_simp', 'pivot_gadget_simp', 'full_reduce']), ('pivotb', 3, ['pivot_boundary_simp', 'pivot_gadget_simp', 'clifford_simp']),
                         ('supp', 5, ['supplementarity_simp', 'full_reduce']), ('copy', 5, ['copy_simp', 'full_reduce']),
                         ('bialg', 4, ['bialg_simp', 'phase_free_simp', 'full_reduce']), ('spider', 4, ['spider_simp', 'to_gh', 'to_rg', 'full_reduce']),
                         ('ids', 5, ['id_simp', 'interior_clifford_simp', 'to_rg', 'reduce_scalar'])):
        add('wide', (kind, k + (2 if deep else 1), nms), 8)
    add('big', (4, 6 if deep else 5, ['full_reduce', 'clifford_simp', 'interior_clifford_simp', 'reduce_scalar'] if deep else ['full_reduce', 'clifford_simp']), 24)
    if deep:
        add('cliffnf', (3, ['HAD', 'S', 'CNOT', 'CZ'], 3), 16)
    return T


ASSUME = ['strategies are explored on their documented domain: the Clifford passes on graph-like diagrams, phase-free '
          'simplification on phase-free diagrams with plain edges, full reduction on ZX-diagrams without H-boxes',
          'phases are multiples of pi/4 or pi/3; a run is taken not to terminate after 40 s']
BOUNDS = 'all diagrams with <=3 spiders (<=5 thorough for a reduced alphabet), all circuits up to the listed depth'


def run():
    return core.main('C02', FAMILIES, tasks, ASSUME, BOUNDS)
