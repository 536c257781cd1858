"""C16: gflow finder against an explicit-state search over the sets of vertices that can already be corrected."""
import itertools
from fractions import Fraction as F
import core
from core import require, slice_iter
import circ
from diag import V, Spec, build, canon_graphs, kind_multisets
from ref import Z, BOUNDARY
import pyzx as zx
from pyzx.gflow import gflow
from C05 import dump


def open_graph(g):
    """(measured vertices, inputs, outputs, neighbours): the boundary vertices at the outputs are the output vertices"""
    ins, outs = set(g.inputs()), set(g.outputs()) | set(g.grounds())
    nb = {v: set(g.neighbors(v)) for v in g.vertices()}
    I = set()
    for i in ins:
        if g.type(i) == BOUNDARY:
            I |= nb[i]
        else:
            I.add(i)
    drop = {i for i in ins if g.type(i) == BOUNDARY}
    vs = [v for v in g.vertices() if v not in drop]
    return [v for v in vs if v not in outs], I, outs, {v: nb[v] - drop for v in vs}


def odd(K, nb):
    r = set()
    for v in K:
        r ^= nb[v]
    return r


def subsets(s):
    s = sorted(s)
    for r in range(len(s) + 1):
        for c in itertools.combinations(s, r):
            yield set(c)


def search(meas, I, outs, nb):
    """explores every set of corrected vertices reachable from the outputs, one correction at a time.
    Returns (whether all can be corrected, number of states, number of transitions, earliest layer of each vertex)"""
    todo, seen, trans, ok = [frozenset(outs)], {frozenset(outs)}, 0, False
    full = frozenset(outs) | frozenset(meas)
    cache = {}

    def correctable(done):
        if done not in cache:
            rest = set(full) - done
            r = set()
            for K in subsets(v for v in done - I if nb[v] & rest):
                o = odd(K, nb) & rest
                if len(o) == 1:
                    r |= o
            cache[done] = r
        return cache[done]
    while todo:
        s = todo.pop()
        if s == full:
            ok = True
        for u in correctable(s):
            trans += 1
            t = s | {u}
            if t not in seen:
                seen.add(t)
                todo.append(t)
    layer, done, k = {}, frozenset(outs), 0
    while True:
        k += 1
        new = correctable(done)
        if not new:
            break
        for u in new:
            layer[u] = k
        done = done | new
    return ok, len(seen), trans, layer


def check(rep, g, key, feats, expect=None):
    if not rep.state(key):
        return
    with rep.case(key, feats):
        before = dump(g)
        r = gflow(g)
        require(dump(g) == before, 'the diagram was changed')
        meas, I, outs, nb = open_graph(g)
        ok, states, trans, layer = search(meas, I, outs, nb)
        rep.step(trans)
        if expect is not None:
            require(ok == expect, 'harness: a diagram of a circuit without gflow')
        require((r is not None) == ok, 'gflow %s, but there is %s', 'found' if r is not None else 'not found', 'one' if ok else 'none')
        rep.outcome('%s, %d layers' % (ok, max(layer.values(), default=0)))
        if r is None:
            return
        l, gf, k = r
        require(set(gf) == set(meas), 'correction sets for the vertices %s, measured are %s', sorted(gf), sorted(meas))
        require(set(l) == set(meas) | outs, 'layers for %s', sorted(l))
        require(all(l[v] == 0 for v in outs), 'outputs are not in layer 0')
        for u, K in gf.items():
            K = set(K)
            require(not K & I, 'the correction set of %s contains inputs', u)
            require(K <= set(l), 'the correction set of %s contains unknown vertices', u)
            o = odd(K, nb)
            require(u in o, '%s is not in the odd neighbourhood of its correction set', u)
            for w in (o | K) - {u}:
                require(l[w] < l[u], '%s corrects or disturbs %s, which is not in its future', u, w)
            require(u not in K, '%s is in its own correction set', u)
        require(all(l[v] == layer[v] for v in meas), 'the gflow is not maximally delayed')
        require(k == max(l.values(), default=0) + 1, 'number of layers is %s', k)


def specs(n, bopts, grounds=False):
    """bopts: (number of inputs, number of outputs) attached to a spider"""
    kinds = [(b, gr) for b in bopts for gr in ((False, True) if grounds else (False,))]
    for c, sizes in kind_multisets(kinds, n):
        ks = [kinds[j] for j in c]
        ni, no = sum(k[0][0] for k in ks), sum(k[0][1] for k in ks)
        for es in canon_graphs(sizes, (0, 2)):
            for rev in (False, True):
                verts = [V(Z, F(1, 4), None, k[1]) for k in ks]
                edges = list(es)
                ins, outs = [], []
                for j, (b, _) in enumerate(ks):
                    for x, lst in ((b[0], ins), (b[1], outs)):
                        for _ in range(x):
                            edges.append((j, len(verts), 1))
                            lst.append(len(verts))
                            verts.append(V(BOUNDARY))
                if rev:
                    if n == 1:
                        continue
                    N = len(verts)
                    verts = verts[::-1]
                    edges = [(N - 1 - b, N - 1 - a, t) for a, b, t in edges]
                    ins, outs = [N - 1 - x for x in ins], [N - 1 - x for x in outs]
                yield Spec(verts, edges, ins, outs)


def fam_graphs(rep, n, bopts, backend, grounds, i, k):
    for s in slice_iter(specs(n, bopts, grounds), i, k):
        rep.sample(s.show())
        check(rep, build(s, backend), '%s %s' % (backend, s.show()), dict(backend=backend, grounds=grounds))


def fam_wires(rep, n, i, k):
    """spiders together with direct wires between the boundaries"""
    for s in slice_iter(specs(n, ((0, 0), (1, 0), (0, 1))), i, k):
        for ws in (('io',), ('oo',), ('io', 'io')):
            for et in (1, 2):
                verts, edges, ins, outs = list(s.verts), list(s.edges), list(s.ins), list(s.outs)
                for w in ws:
                    a = len(verts)
                    verts += [V(BOUNDARY), V(BOUNDARY)]
                    edges.append((a, a + 1, et))
                    for v, c in ((a, w[0]), (a + 1, w[1])):
                        (ins if c == 'i' else outs).append(v)
                t = Spec(verts, edges, ins, outs)
                check(rep, build(t), 'wires %s %s' % (ws, t.show()), dict(wires=','.join(ws)))


def fam_inner(rep, n, i, k):
    """inputs and outputs that are spiders themselves (a graph state with designated inputs and outputs)"""
    for es in slice_iter(canon_graphs((1,) * n, (0, 2)), i, k):
        for roles in itertools.product('.io', repeat=n):
            g = zx.Graph()
            vs = [g.add_vertex(Z, j, j) for j in range(n)]
            for a, b, t in es:
                g.add_edge((vs[a], vs[b]), t)
            g.set_inputs(tuple(v for v, r in zip(vs, roles) if r == 'i'))
            g.set_outputs(tuple(v for v, r in zip(vs, roles) if r == 'o'))
            check(rep, g, 'roles %s %s' % (''.join(roles), es), dict(roles=True))


def fam_circ(rep, n, names, depth, i, k):
    """diagrams of circuits have gflow, also after simplification that keeps it"""
    for s in slice_iter(circ.sequences(circ.alphabet(n, names), depth), i, k):
        for how in ('graph_like', 'interior_clifford', 'clifford', 'full'):
            g = circ.circuit(n, s).to_graph()
            if how == 'graph_like':
                zx.simplify.to_graph_like(g)
            elif how == 'interior_clifford':
                zx.simplify.interior_clifford_simp(g, quiet=True)
            elif how == 'clifford':
                zx.simplify.clifford_simp(g, quiet=True)
            else:
                zx.simplify.full_reduce(g, quiet=True)
            if how in ('clifford', 'full') and any(g.vertex_degree(v) == 1 and g.type(v) == Z for v in g.vertices()):
                check(rep, g, '%s %s' % (how, circ.show(n, s)), dict(how=how))      # phase gadgets: not all-XY
            elif g.num_vertices() <= 18:
                check(rep, g, '%s %s' % (how, circ.show(n, s)), dict(how=how), True)


FAMILIES = dict(graphs=fam_graphs, wires=fam_wires, inner=fam_inner, circ=fam_circ)
B = ((0, 0), (1, 0), (0, 1), (1, 1))


def tasks(tier):
    deep = tier == 'thorough'
    T = []

    def add(fam, args, n):
        for i in range(n):
            T.append((fam, tuple(args) + (i, n)))
    for be in ('simple', 'multigraph'):
        for n in (1, 2, 3):
            add('graphs', (n, B + ((2, 0), (0, 2)), be, False), 4)
    add('graphs', (4, B, 'simple', False), 16)
    add('graphs', (5, B, 'simple', False), 64)
    add('graphs', (6, ((0, 0), (1, 0), (0, 1)) if deep else ((0, 0), (0, 1)), 'simple', False), 64)
    if deep:
        add('graphs', (7, ((0, 0), (0, 1)), 'simple', False), 256)
        add('graphs', (4, B, 'multigraph', True), 64)
    for n in (1, 2, 3) + ((4,) if deep else ()):
        add('graphs', (n, B[:3], 'simple', True), 8)
    for n in (0, 1, 2, 3):
        add('wires', (n,), 4)
    for n in (1, 2, 3, 4, 5) + ((6,) if deep else ()):
        add('inner', (n,), 4 if n < 5 else 16)
    add('circ', (1, ['HAD', 'T', 'S'], 4), 4)
    add('circ', (2, ['HAD', 'T', 'CNOT', 'CZ'], 3), 16)
    add('circ', (3, ['HAD', 'CNOT', 'T'], 3), 32)
    if deep:
        add('circ', (2, ['HAD', 'T', 'CNOT', 'CZ'], 4), 64)
        add('circ', (2, ['HAD', 'S', 'CNOT'], 5), 64)
        add('circ', (3, ['HAD', 'CNOT', 'T'], 4), 128)
    return T


ASSUME = ['the boundary vertices at the outputs count as the output vertices of the open graph, the spiders at the inputs as its inputs; all measurements in the XY plane']
BOUNDS = dict(quick='all graph-like diagrams up to isomorphism (two labellings) with <=5 spiders and 0/1 inputs and outputs each, 6 spiders with outputs; all graph states with <=5 vertices and all roles; all circuits of depth <=3 on 3 qubits, 4 on 1',
              thorough='6 spiders with inputs and outputs, 7 with outputs; circuits one gate deeper')


def run():
    return core.main('C16', FAMILIES, tasks, ASSUME, BOUNDS)
