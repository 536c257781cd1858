"""C03: the advertised normal form holds after the reduction strategies finish; graph-likeness tests agree with
the definition."""
import itertools
from fractions import Fraction as F
import core
from core import require, slice_iter
import ref, circ, big
from ref import BOUNDARY, Z, X, SIMPLE, HAD
from diag import V, Spec, build, with_boundaries, spec_of
import C01, C02
import pyzx as zx
from pyzx import simplify as S

q, h, o = F(1, 4), F(1, 2), F(1)


class View(object):
    """Plain reading of a graph."""

    def __init__(self, g):
        self.ty = {v: int(g.type(v)) for v in g.vertices()}
        self.ph = {v: F(g.phase(v)) % 2 for v in g.vertices()}
        self.edges = [tuple(g.edge_st(e)) + (int(g.edge_type(e)),) for e in g.edges()]
        self.nb = {v: set() for v in self.ty}
        self.inc = {v: [] for v in self.ty}
        for a, b, t in self.edges:
            self.nb[a].add(b)
            self.nb[b].add(a)
            self.inc[a].append((b, t))
            self.inc[b].append((a, t))
        self.bd = {v for v in self.ty if self.ty[v] == BOUNDARY}
        self.interior = {v for v in self.ty if v not in self.bd and not (self.nb[v] & self.bd)}
        self.leaves = {v for v in self.ty if v not in self.bd and len(self.inc[v]) == 1}

    def graphlike(self, strict=False):
        if any(t not in (BOUNDARY, Z) for t in self.ty.values()):
            return 'a spider that is not a Z spider'
        if any(a == b for a, b, t in self.edges):
            return 'a self-loop'
        if any(self.ty[a] == Z and self.ty[b] == Z and t != HAD for a, b, t in self.edges):
            return 'a plain edge between Z spiders'
        if strict:
            for b in self.bd:
                if len(self.inc[b]) != 1:
                    return 'a boundary of degree %d' % len(self.inc[b])
                if self.ty[self.inc[b][0][0]] != Z:
                    return 'a boundary not on a Z spider'
            for v in self.ty:
                if self.ty[v] == Z and len(self.nb[v] & self.bd) > 1:
                    return 'a spider with several boundaries'
        return None

    def parallel(self):
        k = [(min(a, b), max(a, b)) for a, b, t in self.edges]
        return len(k) != len(set(k))


def check_interior(w, what):
    gl = w.graphlike()
    require(gl is None, '%s left %s', what, gl)
    require(not w.parallel(), '%s left parallel edges', what)
    for v in w.interior:
        require(w.ph[v].denominator != 2, '%s left an interior spider %s with phase %s', what, v, w.ph[v])
        if w.ph[v] in (0, 1):
            for u in w.nb[v]:
                if u in w.interior:
                    require(w.ph[u] not in (0, 1), '%s left adjacent interior Pauli spiders %s,%s', what, v, u)
    for v in w.ty:
        if w.ty[v] == Z and w.ph[v] == 0 and len(w.inc[v]) == 2:
            b = [u for u, t in w.inc[v] if u in w.bd]
            require(False, '%s left an identity spider %s', what, v)


def check_full(w, what):
    check_interior(w, what)
    gad = {}
    for v in w.interior:
        if w.ph[v] in (0, 1) and w.inc[v] and not any(len(w.nb[u] & w.bd) > 1 for u in w.nb[v]):
            lv = [u for u in w.nb[v] if u in w.leaves]
            require(len(lv) >= 1, '%s left an interior Pauli spider %s that is no phase-gadget hub', what, v)
    for u in w.leaves:
        if u in w.interior and w.ph[u].denominator > 2 or (w.ty[u] == Z and w.ph[u] not in (0, 1, h, F(3, 2)) and not (w.nb[u] & w.bd)):
            (v, t), = w.inc[u]
            if w.ph[v] not in (0, 1) or v in w.bd or v in w.leaves:
                continue
            # a hub of a gadget with a single leaf
            if len([x for x in w.nb[v] if x in w.leaves]) > 1:
                continue
            require(w.ph[v] == 0, '%s left a gadget hub %s with phase pi', what, v)
            k = frozenset(w.nb[v] - {u})
            require(k not in gad, '%s left two phase gadgets on the same targets %s', what, sorted(k))
            gad[k] = v
            require(len(k) != 1, '%s left a phase gadget with a single target', what)


def scalar_clifford(s):
    return not s.ins and not s.outs and all(v[1] in (0, h, o, F(3, 2)) for v in s.verts)


def norm_case(rep, key, mkg, clifford_scalar=False, unitary_clifford=False, feats=None, backend=''):
    if not rep.state(backend + key):
        return
    with rep.case('interior_clifford_simp %s%s' % (backend, key), dict(feats or {}, strategy='interior')):
        g = mkg()
        S.interior_clifford_simp(g, quiet=True)
        rep.step()
        w = View(g)
        rep.outcome('int:%d' % len(w.interior))
        check_interior(w, 'interior_clifford_simp')
    with rep.case('clifford_simp %s%s' % (backend, key), dict(feats or {}, strategy='clifford')):
        g = mkg()
        S.clifford_simp(g, quiet=True)
        rep.step()
        w = View(g)
        check_interior(w, 'clifford_simp')
        if unitary_clifford:
            require(not w.interior, 'clifford_simp left interior spiders %s in a Clifford circuit', sorted(w.interior))
    with rep.case('full_reduce %s%s' % (backend, key), dict(feats or {}, strategy='full')):
        g = mkg()
        S.full_reduce(g, quiet=True)
        rep.step()
        w = View(g)
        rep.outcome('full:%d' % len(w.ty))
        check_full(w, 'full_reduce')
        if unitary_clifford:
            require(not w.interior, 'full_reduce left interior spiders in a Clifford circuit')
        if clifford_scalar:
            require(not w.edges, 'full_reduce left %d connected spiders in a Clifford scalar diagram', len(w.ty))
        n = (g.num_vertices(), g.num_edges(), S.tcount(g))
        S.full_reduce(g, quiet=True)
        rep.step()
        n2 = (g.num_vertices(), g.num_edges(), S.tcount(g))
        require(n2 == n, 'full_reduce is not idempotent: (spiders, edges, T) %s then %s', n, n2)


def fam_gl(rep, n, phases, bopts, i, m):
    for s in slice_iter(C01.gl_specs(n, phases, bopts), i, m):
        rep.sample(s.show())
        norm_case(rep, s.show(), lambda: build(s), scalar_clifford(s))


def fam_zx(rep, n, kinds, bopts, backend, i, m):
    for s in slice_iter(C01.zx_specs(n, kinds, bopts), i, m):
        if len(s.ins) + len(s.outs) > 4:
            continue
        rep.sample(s.show())
        norm_case(rep, s.show(), lambda: build(s, backend), scalar_clifford(s), backend=backend, feats=dict(backend=backend))


def fam_gadgets(rep, nt, ng, phases, axels, tph, i, m):
    for s in slice_iter(C01.gadget_specs(nt, ng, phases, axels, tph), i, m):
        rep.sample(s.show())
        norm_case(rep, s.show(), lambda: build(s))


def fam_circ(rep, n, gates, depth, i, m):
    alpha = circ.alphabet(n, gates)
    cl = 'T' not in gates
    for sq in slice_iter(circ.sequences(alpha, depth), i, m):
        key = circ.show(n, sq)
        rep.sample(key)
        norm_case(rep, key, lambda: circ.circuit(n, sq).to_graph(), unitary_clifford=cl)


def like_case(rep, s, backend, auto=None):
    key = '%s%s %s' % (backend, auto, s.show())
    if not rep.state('like' + key):
        return
    with rep.case('is_graph_like ' + key, dict(test='is_graph_like', backend=backend)):
        g = build(s, backend, auto)
        w = View(g)
        before = spec_of(g).show()
        for strict in (False, True):
            want = w.graphlike(strict) is None
            got = S.is_graph_like(g, strict=strict)
            rep.outcome('like:%s' % want)
            require(bool(got) == want, 'is_graph_like(strict=%s) is %s but the diagram %s', strict, got,
                    'is graph-like' if want else 'has ' + str(w.graphlike(strict)))
        require(spec_of(g).show() == before, 'is_graph_like changed the diagram')
    with rep.case('to_graph_like ' + key, dict(test='to_graph_like', backend=backend)):
        g = build(s, backend, auto)
        S.to_graph_like(g)
        rep.step()
        bad = View(g).graphlike(True)
        require(bad is None, 'to_graph_like left %s', bad)


def fam_like(rep, n, kinds, bopts, backend, i, m):
    for s in slice_iter(C01.zx_specs(n, kinds, bopts), i, m):
        rep.sample(s.show())
        like_case(rep, s, backend)


def fam_likeloops(rep, i, m):
    for s in slice_iter(C01.multi_specs(2, (V(Z, 0), V(X, h)), 1), i, m):
        with rep.case('is_graph_like loops ' + s.show(), dict(test='is_graph_like')):
            rep.state(s.show())
            g = build(s, 'multigraph', False)
            w = View(g)
            if any(a == b for a, b, t in w.edges):
                require(not S.is_graph_like(g), 'a diagram with a self-loop is reported graph-like')


def fam_judge(rep, n, backend, mult, i, m):
    """is_graph_like on everything that can be put together from n vertices, boundaries of any degree included"""
    cols = [c for c in itertools.product(range(mult + 1), repeat=2)] if backend == 'multigraph' else [(0, 0), (1, 0), (0, 1)]
    for ty in itertools.combinations_with_replacement((Z, X, BOUNDARY), n):
        for es in slice_iter(itertools.product(cols, repeat=n * (n - 1) // 2), i, m):
            edges = [(a, b, t) for (a, b), c in zip(itertools.combinations(range(n), 2), es) for t, k in zip((ref.SIMPLE, HAD), c) for _ in range(k)]
            s = Spec([V(t) for t in ty], edges, (), ())
            key = '%s %s' % (backend, s.show())
            rep.state('judge' + key)
            with rep.case('is_graph_like ' + key, dict(test='is_graph_like', backend=backend)):
                g = build(s, backend, False if backend == 'multigraph' else None)
                w = View(g)
                require(len(w.edges) == len(edges), 'harness')
                for strict in (False, True):
                    bad = w.graphlike(strict)
                    got = S.is_graph_like(g, strict=strict)
                    rep.step()
                    rep.outcome('like:%s' % (bad is None))
                    require(bool(got) == (bad is None), 'is_graph_like(strict=%s) is %s but the diagram has %s', strict, got, bad or 'no fault')


def check_cliffnf(g, what):
    """Hadamards, phases, CZs, parities (Z spiders to X spiders), Hadamards, CZs, phases, Hadamards"""
    w = View(g)
    n = len(g.inputs())
    require(len(g.outputs()) == n, '%s changed the number of outputs', what)
    seen = set()

    def walk(b, side):
        require(len(w.inc[b]) == 1, '%s: boundary %s has degree %d', what, b, len(w.inc[b]))
        seen.add(b)
        u, t = w.inc[b][0]
        layer = []
        prev, tin = b, t
        # an optional phase spider
        if w.ty.get(u) == Z and len(w.inc[u]) == 2:
            (x, tx), = [(x, tx) for x, tx in w.inc[u] if x != prev]
            if x not in w.bd and not (side == 'in' and w.ty[x] == X):
                if not (side == 'out' and w.ty[x] == X):
                    require((2 * w.ph[u]).denominator == 1, '%s: phase %s', what, w.ph[u])
                    require(tx == SIMPLE, '%s: a Hadamard gate inside the %sput phases', what, side)
                    seen.add(u)
                    prev, u, tin = u, x, tx
        return prev, u, tin
    cz = {}
    zs, xs = set(), set()
    for side, bs in (('in', g.inputs()), ('out', g.outputs())):
        for b in bs:
            prev, u, tin = walk(b, side)
            require(w.ty[u] == Z and w.ph[u] == 0, '%s: no phase-free Z spider after the %sput phases, but %s', what, side, u)
            plain = [x for x, t in w.inc[u] if x != prev and w.ty[x] == X]
            onz = [x for x, t in w.inc[u] if x != prev and w.ty[x] == Z and t == SIMPLE]
            if side == 'out':
                require(len(plain) == 1, '%s: the CZ spider of output %s meets %d parities', what, b, len(plain))
                require(plain[0] not in xs, '%s: two outputs share a parity', what)
                require(not onz, '%s: a plain edge between Z spiders at an output', what)
                xs.add(plain[0])
                cz[u] = ('out', prev, plain[0])
            elif onz:
                require(len(onz) == 1, '%s: the CZ spider of input %s has %d successors', what, b, len(onz))
                require(not plain, '%s: input CZ spider also in the parity layer', what)
                cz[u] = ('in', prev, onz[0])
                seen.add(u)
                zs.add(onz[0])
            else:
                zs.add(u)
                cz.setdefault(u, ('none', prev, None))
            seen.add(u)
    require(len(zs) == n and len(xs) == n, '%s: %d parity inputs and %d parities for %d qubits', what, len(zs), len(xs), n)
    require(not (zs & xs), '%s: layers overlap', what)
    seen |= zs | xs
    require(seen == set(w.ty), '%s left further vertices %s', what, sorted(set(w.ty) - seen))
    for x in xs:
        require(w.ty[x] == X and w.ph[x] == 0, '%s: parity %s has phase %s', what, x, w.ph[x])
        for u, t in w.inc[x]:
            if u in zs:
                require(t == SIMPLE, '%s: a Hadamard edge inside the parity layer', what)
            else:
                require(u in cz and cz[u][0] == 'out' and cz[u][2] == x, '%s: parity %s joined to %s', what, x, u)
    for z in zs:
        require(w.ty[z] == Z and w.ph[z] == 0, '%s: parity input %s has phase %s', what, z, w.ph[z])
        for u, t in w.inc[z]:
            require(u in xs or u == cz.get(z, (0, None))[1] or (u in cz and cz[u][0] == 'in' and cz[u][2] == z),
                    '%s: parity input %s joined to %s', what, z, u)
    for u, (side, a, b) in cz.items():
        if side == 'none':
            continue
        for v, t in w.inc[u]:
            if v not in (a, b):
                require(t == HAD and v in cz and cz[v][0] == side, '%s: CZ spider %s joined to %s', what, u, v)


def fam_cliffnf(rep, kind, n, menu, lengths, i, m):
    it = ((circ.show(n, sq), sq) for sq in circ.sequences(circ.alphabet(n, menu), lengths)) if kind == 'gates' else big.layers(n, menu, lengths)
    for nm, sq in slice_iter(it, i, m):
        key = 'nf %d qubits: %s' % (n, nm)
        rep.sample(key)
        if not rep.state(key):
            continue
        with rep.case(key, dict(strategy='cliffnf')):
            g = circ.circuit(n, sq).to_graph()
            S.to_clifford_normal_form_graph(g)
            rep.step()
            rep.outcome('nf:%d' % g.num_vertices())
            check_cliffnf(g, 'to_clifford_normal_form_graph')


def fam_layers(rep, n, menu, lengths, clifford, i, m):
    for nm, sq in slice_iter(big.layers(n, menu, lengths), i, m):
        key = '%d qubits: %s' % (n, nm)
        rep.sample(key)
        norm_case(rep, key, lambda: circ.circuit(n, sq).to_graph(), unitary_clifford=clifford)


def fam_wide(rep, kind, k, i, m):
    for _, s in slice_iter(C01.wide_specs(kind, k), i, m):
        rep.sample(s.show())
        norm_case(rep, s.show(), lambda: build(s), scalar_clifford(s))


def fam_big(rep, lo, hi, i, m):
    for s in slice_iter(big.gl(lo=lo, hi=hi), i, m):
        rep.sample(s.show())
        norm_case(rep, s.show(), lambda: build(s), scalar_clifford(s))


FAMILIES = dict(cliffnf=fam_cliffnf, layers=fam_layers, wide=fam_wide, big=fam_big, judge=fam_judge, gl=fam_gl, zx=fam_zx, gadgets=fam_gadgets, circ=fam_circ, like=fam_like, likeloops=fam_likeloops)
B3 = ((), (1,), (2,))
ZXK = (V(Z, 0), V(Z, q), V(X, 0), V(X, h), V(Z, o))


def tasks(tier):
    deep = tier == 'thorough'
    T = []

    def add(fam, args, n):
        for i in range(n):
            T.append((fam, tuple(args) + (i, n)))
    add('gl', (1, (F(0), q, h, o, F(3, 2)), B3 + ((1, 1), (1, 2), (2, 2))), 1)
    add('gl', (2, (F(0), q, h, o, F(3, 2)), B3 + ((1, 1),)), 8)
    add('gl', (3, (F(0), q, h, o, F(3, 4)), ((), (1,)) if not deep else B3), 32)
    if deep:
        add('gl', (4, (F(0), q, h, o), ((), (1,))), 64)
        add('gl', (5, (F(0), h, q), ((),)), 64)
        add('gl', (5, (F(0), q), ((), (1,))), 64)
    else:
        add('gl', (4, (F(0), q, h), ((),)), 24)
        add('gl', (4, (F(0), q), ((), (1,))), 32)
    for be in ('simple', 'multigraph'):
        add('zx', (2, ZXK, B3, be), 8)
    add('zx', (3, ZXK if deep else (V(Z, 0), V(Z, q), V(X, h)), ((), (1,)), 'simple'), 32)
    add('gadgets', (2, 2, (q, F(7, 4)), (F(0), o), (F(0), q)), 4)
    add('gadgets', (3, 2, (q,), (F(0), o), (F(0), h)), 8)
    if deep:
        add('gadgets', (3, 3, (q,), (F(0), o), (F(0),)), 64)
        add('gadgets', (4, 2, (q,), (F(0), o), (F(0),)), 32)
    add('circ', (2, ['HAD', 'S', 'T', 'NOT', 'CNOT', 'CZ'], 4 if deep else 3), 32)
    add('circ', (2, ['HAD', 'S', 'CNOT', 'CZ'], 5 if deep else 4), 32)
    add('circ', (3, ['HAD', 'S', 'CNOT', 'CZ'], 4 if deep else 2), 32)
    add('circ', (3, ['HAD', 'T', 'CNOT'], 4 if deep else 2), 32)
    add('like', (2, (V(Z, 0), V(X, h), V(ref.HBOX)), B3 + ((1, 1), (1, 2)), 'simple'), 8) if 0 else None
    add('like', (1, (V(Z, 0), V(X, h)), B3 + ((1, 1), (1, 2), (2, 2)), 'simple'), 1)
    add('like', (2, (V(Z, 0), V(X, h)), B3 + ((1, 1), (1, 2)), 'simple'), 4)
    add('like', (3, (V(Z, 0), V(X, h)), B3 if deep else ((), (1,), (1, 1)), 'simple'), 16)
    add('like', (2, (V(Z, 0), V(X, h)), B3 + ((1, 1), (1, 2)), 'multigraph'), 4)
    if deep:
        add('like', (3, (V(Z, 0), V(X, h)), B3, 'multigraph'), 16)
    add('cliffnf', ('gates', 1, ('HAD', 'S', 'NOT', 'Z'), 4), 2)
    add('cliffnf', ('gates', 2, ('HAD', 'S', 'CNOT', 'CZ', 'NOT'), 4 if deep else 3), 16)
    add('cliffnf', ('gates', 3, ('HAD', 'S', 'CNOT', 'CZ'), 3 if deep else 2), 8)
    add('cliffnf', ('layers', 4, big.CLIFF, (1, 2, 3)), 32)
    add('cliffnf', ('layers', 5, big.CLIFF, (3,) if deep else (2,)), 16)
    add('layers', (4, big.CLIFF, (1, 2, 3), True), 32)
    add('layers', (4, ('H', 'Tr', 'He', 'cp', 'zo', 'T', 'Px', 'ci'), (2, 3, 4) if deep else (2, 3), False), 32)
    add('layers', (5, ('H', 'Tr', 'ci', 'zk', 'T', 'Pd'), (3,) if deep else (2,), False), 16)
    for kind, k in (('gadgets', 4), ('lcomp', 5), ('pivot', 3), ('pivotb', 3), ('supp', 5), ('copy', 5), ('bialg', 4), ('spider', 4), ('ids', 5)):
        add('wide', (kind, k + (2 if deep else 1)), 8)
    add('big', (4, 6 if deep else 5), 24)
    add('likeloops', (), 4)
    for n in (1, 2, 3, 4):
        add('judge', (n, 'simple', 1), 1 + n)
    for n in (1, 2, 3):
        add('judge', (n, 'multigraph', 2 if deep or n < 3 else 1), 1 + n * n)
    return T


ASSUME = ['the gadget-hub condition is not required next to a spider carrying several inputs/outputs, and spiders without legs are disregarded',
          'phases are multiples of pi/4', 'normal forms are read off the final diagram by an independent definition']
BOUNDS = 'all graph-like diagrams with <=3 spiders (5 thorough), all mixed diagrams with <=3, all circuits up to the listed depth'


def run():
    return core.main('C03', FAMILIES, tasks, ASSUME, BOUNDS)
