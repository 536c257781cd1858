"""C28: architecture queries on all small connected coupling graphs (all placements, all regions) and all named architectures, against breadth-first search."""
import itertools, contextlib, io
import numpy as np
import networkx as nx
import core, choice
from core import require, slice_iter
from pyzx.graph.graph import Graph
from pyzx.routing import architecture as A
from pyzx.routing.architecture import Architecture, create_architecture


# ---------------------------------------------------------------- coupling graphs
def pairs(n):
    return list(itertools.combinations(range(n), 2))


def connected(n, edges):
    if n == 0:
        return True
    adj = adjacency(range(n), edges)
    return len(reach(adj, 0)) == n


def adjacency(vs, edges):
    adj = {v: set() for v in vs}
    for a, b in edges:
        adj[a].add(b)
        adj[b].add(a)
    return adj


def reach(adj, s, allowed=None):
    seen, todo = {s}, [s]
    while todo:
        for w in adj[todo.pop()]:
            if w not in seen and (allowed is None or w in allowed):
                seen.add(w)
                todo.append(w)
    return seen


def bfs(succ, s):
    d, todo = {s: 0}, [s]
    for v in todo:
        for w in succ(v):
            if w not in d:
                d[w] = d[v] + 1
                todo.append(w)
    return d


def graphs(n):
    ps = pairs(n)
    for x in range(1 << len(ps)):
        es = [p for k, p in enumerate(ps) if x >> k & 1]
        if connected(n, es):
            yield es


def unlabelled(n):
    for g in nx.graph_atlas_g():
        if g.number_of_nodes() == n and nx.is_connected(g):
            yield sorted(tuple(sorted(e)) for e in g.edges())


def build(n, edges, how, **kw):
    """an architecture on the coupling graph with qubits named as the graph vertices (gap: vertex names with holes)"""
    if how == 'matrix':
        m = np.zeros((n, n), dtype=int)
        for a, b in edges:
            m[a, b] = 1
            if (a + b) % 2:       # one entry suffices
                m[b, a] = 1
        return Architecture('m', coupling_matrix=m, **kw), list(range(n))
    g = Graph()
    if how == 'gap':
        vs = list(g.add_vertices(n + 3))
        for v in (vs[0], vs[2], vs[-1]):
            g.remove_vertex(v)
        vs = list(g.vertices())
    else:
        vs = list(g.add_vertices(n))
    g.add_edges([(vs[a], vs[b]) for a, b in edges])
    if 'qubit_map' in kw:
        kw['qubit_map'] = [vs[v] for v in kw['qubit_map']]
    return Architecture('g', coupling_graph=g, **kw), vs


def edge_key(n, edges):
    return '%d:%s' % (n, ','.join('%d%d' % e for e in edges))


# ---------------------------------------------------------------- basic queries
def components(adj, vs):
    vs, k = set(vs), 0
    while vs:
        vs -= reach(adj, next(iter(vs)), vs)
        k += 1
    return k


def basics(a, vs, edges, qm=None):
    n = len(vs)
    adj = adjacency(range(n), edges)
    require(a.n_qubits == n and list(a.vertices) == vs, 'qubits')
    require(sorted(a.qubit_map) == vs and (qm is None or list(a.qubit_map) == [vs[v] for v in qm]), 'placement %s', a.qubit_map)
    idx = {v: k for k, v in enumerate(vs)}
    q2i = [idx[v] for v in a.qubit_map]            # qubit -> vertex number in our graph
    i2q = {v: q for q, v in enumerate(q2i)}
    for q in range(n):
        require(a.qubit2vertex(q) == vs[q2i[q]] and a.vertex2qubit(vs[q2i[q]]) == q, 'qubit %d and its vertex', q)
        require(a.get_neighboring_qubits(q) == {i2q[w] for w in adj[q2i[q]]}, 'neighbours of %d', q)
        require(a.get_neighboring_vertices(vs[q]) == {vs[w] for w in adj[q]}, 'neighbours of vertex %d', q)
    ar = a.arities()
    require(sorted(ar) == [(k, len(adj[k])) for k in range(n)] and all(x[1] >= y[1] for x, y in zip(ar, ar[1:])), 'arities %s', ar)
    qadj = [{i2q[w] for w in adj[q2i[q]]} for q in range(n)]
    return qadj, q2i


def order_ok(order, qadj):
    n = len(qadj)
    require(sorted(order) == list(range(n)), 'the reduction order %s is not a permutation', order)
    if all(any(x > q for x in qadj[q]) for q in range(n - 1)):
        left = set(range(n))
        for q in order:
            require(components(qadj, left - {q}) <= components(qadj, left), 'the reduction order %s removes %d, which disconnects the rest', order, q)
            left.discard(q)


def fam_basic(rep, n, hows, maps, i, k):
    for es in slice_iter(graphs(n), i, k):
        for how in hows:
            for qm in ([None] + list(itertools.permutations(range(n))) if maps else [None]):
                key = 'basic %s %s %s' % (how, edge_key(n, es), qm)
                rep.state(key)
                with rep.case(key, dict(op='basic')):
                    a, vs = build(n, es, how, **({} if qm is None else dict(qubit_map=list(qm))))
                    rep.step()
                    qadj, q2i = basics(a, vs, es, qm)
                    order_ok(a.reduce_order, qadj)
                    if qm is None:      # depth-first placement: each qubit but the last is next to a larger one
                        for q in range(n - 1):
                            require(max(qadj[q]) > q, 'the placement %s leaves qubit %d without a larger neighbour', a.qubit_map, q)
                        require(a.qubit_map[-1] == max(vs), 'placement starts elsewhere')
                    t = a.transpose()
                    require(t.qubit_map == list(reversed(a.qubit_map)) and t.n_qubits == n, 'transpose')
                    basics(t, vs, es, list(reversed(q2i)))
                    basics(a, vs, es, q2i)
                    order_ok(t.reduce_order, basics(t, vs, es)[0])


def fam_cut(rep, n, hows, i, k):
    """cut vertices of every region, in every listed order"""
    for es in slice_iter(graphs(n), i, k):
        for how in hows:
            a, vs = build(n, es, how)
            adj = adjacency(range(n), es)
            for r in range(0, n + 1):
                for sub in itertools.combinations(range(n), r):
                    for s in {sub, sub[::-1], sub[1:] + sub[:1]}:
                        key = 'cut %s %s %s' % (how, edge_key(n, es), s)
                        rep.state(key)
                        with rep.case(key, dict(op='cut')):
                            c = components(adj, s)
                            want = [v for v in s if components(adj, set(s) - {v}) <= c]
                            b = a if len(s) % 2 else build(n, es, how)[0]      # cached and fresh answers
                            got = [vs.index(x) for x in b.non_cutting_vertices([vs[x] for x in s])]
                            rep.step()
                            require(sorted(got) == sorted(want), 'non-cutting vertices %s instead of %s', got, want)
                            require([vs.index(x) for x in b.non_cutting_vertices([vs[x] for x in s])] == got, 'asked again')
                            cut = b._is_cutting([vs[v] for v in s])
                            require([v for v, t in zip(s, cut) if not t] == want, '_is_cutting')
            with rep.case('cut all %s %s' % (how, edge_key(n, es)), dict(op='cut')):
                require([not t for t in a._is_cutting()] == [components(adj, set(range(n)) - {v}) <= 1 for v in range(n)], '_is_cutting of everything')


# ---------------------------------------------------------------- distances
def dist_case(a, vs, edges, q2i, sub, upper, rec):
    i2q = {v: q for q, v in enumerate(q2i)}
    idx = {v: k for k, v in enumerate(vs)}
    S, R = set(sub), set(rec)
    adj = adjacency(range(len(vs)), edges)

    def succ(v):
        return [w for w in adj[v] if w in S and (upper or (v in R and w in R) or i2q[v] > i2q[w])]
    got = a.floyd_warshall([vs[v] for v in sub], upper=upper, rec_vertices=[vs[v] for v in rec])
    want = {}
    for v in sub:
        for w, d in bfs(succ, v).items():
            want[vs[v], vs[w]] = d
    check_table(got, want, lambda x, y: idx[y] in succ(idx[x]))


def check_table(got, want, edge):
    require(set(got) == set(want), 'pairs with a distance: %s instead of %s', sorted(got), sorted(want))
    for (v, w), (d, path) in got.items():
        require(d == want[v, w], 'distance of %s to %s is %d instead of %d', v, w, d, want[v, w])
        require(len(path) == d and all(edge(x, y) for x, y in path), 'path %s from %s to %s', path, v, w)
        require(d == 0 or (path[0][0] == v and path[-1][1] == w and all(p[1] == q[0] for p, q in zip(path, path[1:]))), 'path %s from %s to %s', path, v, w)


def subsets(n):
    for r in range(1, n + 1):
        for s in itertools.combinations(range(n), r):
            yield list(s)


def fam_dist(rep, n, how, deep, i, k):
    for es in slice_iter(graphs(n), i, k):
        a, vs = build(n, es, how)
        q2i = [vs.index(v) for v in a.qubit_map]
        for sub in subsets(n):
            recs = [[]] + ([r for r in subsets(n) if set(r) <= set(sub) and len(r) > 1] if deep else [sub[1:]])
            for upper, rec in [(True, [])] + [(False, r) for r in recs]:
                key = 'dist %s %s %s %s %s' % (how, edge_key(n, es), sub, upper, rec)
                rep.state(key)
                with rep.case(key, dict(op='dist')):
                    dist_case(a, vs, es, q2i, sub, upper, rec)
                    rep.step()


def fam_path(rep, n, how, i, k):
    for es in slice_iter(graphs(n), i, k):
        for qm in (None, [(3 * v + 1) % n for v in range(n)] if n % 3 else list(range(n))[::-1]):
            a, vs = build(n, es, how, **({} if qm is None else dict(qubit_map=qm)))
            qadj, q2i = basics(a, vs, es)
            for sub in [None] + list(subsets(n)):
                S = set(range(n)) if sub is None else set(sub)
                for s in range(n):
                    d = bfs(lambda v: [w for w in qadj[v] if w in S], s)
                    for t in range(n):
                        key = 'path %s %s %s %s %d %d' % (how, edge_key(n, es), qm, sub, s, t)
                        rep.state(key)
                        with rep.case(key, dict(op='path')):
                            p = a.shortest_path(s, t, sub)
                            rep.step()
                            require((p is not None) == (t in d), 'path %s', p)
                            if p is not None:
                                q = [a.vertex2qubit(v) for v in p]
                                require(q[0] == s and q[-1] == t and all(y in qadj[x] for x, y in zip(q, q[1:])), 'not a path: %s', q)
                                require(set(q[1:]) <= S, 'path %s leaves the region', q)
                                require(len(p) - 1 == d[t], 'path %s is not a shortest one', q)


def fam_relabel(rep, n, i, k):
    """lines, rings, combs and grids with every numbering of the vertices: all distances"""
    shapes = dict(line=[(v, v + 1) for v in range(n - 1)], ring=[(v, (v + 1) % n) for v in range(n)], comb=[(v, v + 1) for v in range(n - 2)] + [(n // 2, n - 1)])
    for p in slice_iter(itertools.permutations(range(n)), i, k):
        for name, es0 in shapes.items():
            es = sorted(tuple(sorted((p[a], p[b]))) for a, b in es0)
            key = 'relabel %s %s' % (name, p)
            rep.state(key)
            with rep.case(key, dict(op='relabel')):
                a, vs = build(n, es, 'matrix')
                q2i = list(a.qubit_map)
                dist_case(a, vs, es, q2i, list(range(n)), True, [])
                dist_case(a, vs, es, q2i, list(range(n)), False, [])
                dist_case(a, vs, es, q2i, list(range(n))[::-1], False, [p[0], p[1], p[2], p[3]])
                pre = a.pre_calc_distances()
                rep.step()
                qadj, _ = basics(a, vs, es)
                for u in range(n):
                    for kind, S in (('upper', set(range(u, n))), ('full', set(range(u + 1)))):
                        want = {}
                        for s in S:
                            for t, d in bfs(lambda v: [w for w in qadj[v] if w in S and (kind == 'upper' or w < v)], s).items():
                                want[q2i[s], q2i[t]] = d
                        check_table(pre[kind][u], want, lambda x, y: y in a.get_neighboring_vertices(x))


# ---------------------------------------------------------------- Steiner trees
def walk(it, limit=400):
    out, cur = [], []
    for e in itertools.islice(it, limit):
        if e is None:
            out.append(cur)
            cur = []
        else:
            cur.append(e)
    require(not cur and len(out) == 2, 'the walk has %d phases', len(out))
    return out


def tree_case(down, up, root, targets, qadj, region, step):
    require(len(set(down)) == len(down) and sorted(down) == sorted(up), 'edges down %s and up %s', down, up)
    seen = {root}
    for p, c in down:
        require(p in seen and c not in seen, 'edge %s is visited before its parent, or twice, in %s', (p, c), down)
        require(c in qadj[p], 'no coupling %s', (p, c))
        require(step(p, c), 'coupling %s is used in the wrong direction in %s', (p, c), down)
        seen.add(c)
    require(seen <= region | {root}, 'the tree %s leaves the region', down)
    require(set(targets) <= seen, 'the tree %s misses some of %s', down, targets)
    leaves = seen - {p for p, c in down}
    require(leaves <= set(targets) | {root}, 'superfluous leaves %s in %s', leaves - set(targets), down)
    gone = set()
    for p, c in up:
        require(not any(a == c and (a, b) not in gone for a, b in down), 'edge %s is climbed before its children in %s', (p, c), up)
        gone.add((p, c))


def fam_steiner(rep, src, n, how, maps, i, k):
    for es in slice_iter(graphs(n) if src == 'all' else unlabelled(n), i, k):
        for qm in ([None] + [list(p) for p in itertools.permutations(range(n))] if maps else [None, list(range(n))]):
            a, vs = build(n, es, how, **({} if qm is None else dict(qubit_map=qm)))
            qadj, q2i = basics(a, vs, es)
            for root in range(n):
                for upper in (True, False):
                    region = set(range(root, n)) if upper else set(range(root + 1))
                    others = sorted(region - {root})
                    # upper triangular form moves freely in the region; full reduction only from larger to smaller qubits
                    ok = set(bfs(lambda v: [w for w in qadj[v] if w in region and (upper or w < v)], root))
                    for x in range(1 << len(others)):
                        T = [q for j, q in enumerate(others) if x >> j & 1]
                        for targets in ([root] + T, T[::-1]):
                            key = 'steiner %s %s %s root %d %s %s' % (how, edge_key(n, es), qm, root, upper, targets)
                            rep.state(key)
                            with rep.case(key, dict(op='steiner')):
                                try:
                                    down, up = walk(a.steiner_tree(root, targets, upper))
                                    rep.step()
                                except ValueError:
                                    require(not set(targets) <= ok, 'refused, but all targets are reachable')
                                    continue
                                require(set(targets) <= ok, 'targets are not reachable')
                                tree_case(down, up, root, targets, qadj, region, lambda p, c: upper or p > c)


def fam_recsteiner(rep, src, n, how, maps, i, k):
    for es in slice_iter(graphs(n) if src == 'all' else unlabelled(n), i, k):
        for qm in ([None] + [list(p) for p in itertools.permutations(range(n))] if maps else [None]):
            a, vs = build(n, es, how, **({} if qm is None else dict(qubit_map=qm)))
            qadj, q2i = basics(a, vs, es)
            for region in subsets(n):
                S = set(region)
                for root in region:
                    for upper, rec in [(True, [])] + [(False, r) for r in ([], region[::2], region)]:
                        R = set(rec)

                        def step(v, w):
                            return upper or v > w or (v in R and w in R)
                        ok = set(bfs(lambda v: [w for w in qadj[v] if w in S and step(v, w)], root))
                        others = [q for q in region if q != root]
                        for x in range(1 << len(others)):
                            T = [q for j, q in enumerate(others) if x >> j & 1]
                            targets = T if x % 3 == 1 else [root] + T
                            key = 'recsteiner %s %s %s root %d in %s rec %s %s %s' % (how, edge_key(n, es), qm, root, region, rec, upper, targets)
                            rep.state(key)
                            with rep.case(key, dict(op='recsteiner')):
                                try:
                                    down, up = walk(a.rec_steiner_tree(root, targets, list(region), list(rec), upper))
                                    rep.step()
                                except ValueError:
                                    require(not set(targets) <= ok, 'refused, but all targets are reachable')
                                    continue
                                require(set(targets) <= ok, 'targets are not reachable')
                                tree_case(down, up, root, targets, qadj, S, step)


# ---------------------------------------------------------------- the catalogue
def grid(r, c):
    return [(i * c + j, i * c + j + 1) for i in range(r) for j in range(c - 1)] + [(i * c + j, i * c + c + j) for i in range(r - 1) for j in range(c)]


def lines(*ranges):
    return [(x, x + 1) for a, b in ranges for x in range(a, b)]


def sycamore():
    rows = [(5, 6), (4, 7), (3, 8), (2, 9), (1, 9), (0, 8), (1, 7), (2, 6), (3, 5), (4, 4)]
    s = {(r, c) for r, (a, b) in enumerate(rows) for c in range(a, b + 1)} - {(3, 2)}
    return [(p, t) for p in sorted(s) for t in ((p[0] + 1, p[1]), (p[0], p[1] + 1)) if t in s]


ROWS5 = lines((0, 4), (5, 9), (10, 14), (15, 19))
SINGAPORE = ROWS5 + [(1, 6), (3, 8), (5, 10), (7, 12), (9, 14), (11, 16), (13, 18)]
OCTAGON = [(v, (v + 1) % 8) for v in range(8)]
DEVICES = dict(
    ibm_qx2=[(0, 1), (0, 2), (1, 2), (3, 2), (3, 4), (4, 2)], ibm_qx4=[(1, 0), (2, 0), (2, 1), (3, 2), (3, 4), (2, 4)],
    ibm_qx3=[(0, 1), (1, 2), (2, 3), (3, 14), (4, 3), (4, 5), (6, 7), (6, 11), (7, 10), (8, 7), (9, 8), (9, 10), (11, 10), (12, 5), (12, 11), (12, 13), (13, 4), (13, 14), (15, 0), (15, 14)],
    ibm_qx5=[(1, 0), (1, 2), (2, 3), (3, 4), (3, 14), (5, 4), (6, 5), (6, 7), (6, 11), (7, 10), (8, 7), (9, 8), (9, 10), (11, 10), (12, 5), (12, 11), (12, 13), (13, 4), (13, 14), (15, 0), (15, 2), (15, 14)],
    ibm_q20_tokyo=grid(4, 5) + [(1, 7), (2, 6), (3, 9), (4, 8), (5, 11), (6, 10), (7, 13), (8, 12), (11, 17), (12, 16), (13, 19), (14, 18)],
    ibmq_poughkeepsie=ROWS5 + [(0, 5), (4, 9), (5, 10), (7, 12), (9, 14), (10, 15), (14, 19)], ibmq_singapore=SINGAPORE, ibmq_boeblingen=SINGAPORE,
    rigetti_8q_agave=OCTAGON, rigetti_16q_aspen=OCTAGON + [(10 + a, 10 + b) for a, b in OCTAGON] + [(1, 16), (2, 15)],
    rigetti_19q_acorn=[(0, 5), (0, 6), (1, 6), (1, 7), (2, 7), (2, 8), (3, 8), (3, 9), (4, 9), (5, 10), (6, 11), (7, 12), (8, 13), (9, 14), (10, 15), (10, 16), (11, 16), (11, 17), (12, 17), (12, 18), (13, 18), (13, 19), (14, 19)],
    ibm_rochester=lines((0, 4), (7, 15), (19, 27), (30, 38), (42, 50)) + [(0, 5), (5, 9), (4, 6), (6, 13), (7, 16), (16, 19), (11, 17), (17, 23), (15, 18), (18, 27), (21, 28), (28, 32), (25, 29), (29, 36), (30, 39), (39, 42),
                                                                          (34, 40), (40, 46), (38, 41), (41, 50), (44, 51), (48, 52)],
    google_sycamore=sycamore(), recursive_architecture=[(2, 0), (2, 1), (5, 3), (5, 4), (7, 6), (7, 8), (7, 2), (7, 5)])
SIZES = dict(sycamore_like=(20, 27))


def graph_of(a):
    g = nx.Graph()
    g.add_nodes_from(a.vertices)
    es = [tuple(a.graph.edge_st(e)) for e in a.graph.edges()]
    require(len(set(map(frozenset, es))) == len(es) and all(x != y for x, y in es), 'couplings twice or to itself')
    g.add_edges_from(es)
    return g


def full_queries(a, key, rep):
    g = graph_of(a)
    vs = list(a.vertices)
    require(a.n_qubits == len(vs) == g.number_of_nodes() and nx.is_connected(g), '%s is not connected', key)
    idx = {v: k for k, v in enumerate(vs)}
    es = [(idx[x], idx[y]) for x, y in g.edges()]
    qadj, q2i = basics(a, vs, es)
    order_ok(a.reduce_order, qadj)
    n = len(vs)
    want = {v: nx.single_source_shortest_path_length(g, v) for v in vs}
    for s in range(n):
        for t in range(n):
            p = a.shortest_path(s, t)
            rep.step()
            require(p[0] == a.qubit2vertex(s) and p[-1] == a.qubit2vertex(t) and all(g.has_edge(x, y) for x, y in zip(p, p[1:])), 'path')
            require(len(p) - 1 == want[p[0]][p[-1]], 'path %s is not a shortest one', p)
    tab = a.floyd_warshall(list(vs), upper=True)
    check_table(tab, {(x, y): d for x in want for y, d in want[x].items()}, g.has_edge)
    cut = set(nx.articulation_points(g))
    require([bool(x) for x in a._is_cutting()] == [v in cut for v in vs], 'cut vertices')


def fam_named(rep, name):
    with rep.case('named ' + name, dict(op='named')):
        rep.state(name)
        a = create_architecture(name)
        require(a.name == name, 'name %s', a.name)
        g = graph_of(a)
        if name in DEVICES:
            ref = nx.Graph(DEVICES[name])
            require(g.number_of_nodes() == ref.number_of_nodes() and g.number_of_edges() == ref.number_of_edges(), '%d qubits and %d couplings', g.number_of_nodes(), g.number_of_edges())
            require(nx.is_isomorphic(g, ref), 'couplings differ from those of the device')
        else:
            require((g.number_of_nodes(), g.number_of_edges()) == SIZES[name], '%d qubits and %d couplings', g.number_of_nodes(), g.number_of_edges())
        full_queries(a, name, rep)
        require(create_architecture(a) is a, 'an architecture stands for itself')
        b = create_architecture(name, backend='multigraph') if name not in ('x',) else a
        require(nx.is_isomorphic(graph_of(b), g) and type(b.graph).__name__ == 'Multigraph', 'other backend')
        if name in A.hamiltonian_path_architectures:
            qadj, _ = basics(a, list(a.vertices), [(list(a.vertices).index(x), list(a.vertices).index(y)) for x, y in g.edges()])
            require(all(q + 1 in qadj[q] for q in range(a.n_qubits - 1)), 'the placement %s is not a Hamiltonian path', a.qubit_map)


def fam_sized(rep, n):
    for name in A.dynamic_size_architectures:
        if name == A.DENSITY:
            continue
        with rep.case('sized %s %d' % (name, n), dict(op='sized')):
            rep.state('%s %d' % (name, n))
            s = int(n ** 0.5 + 0.5)
            try:
                a = create_architecture(name, n_qubits=n)
            except KeyError:
                require(name == A.SQUARE and s * s != n, 'refused')
                continue
            require(name != A.SQUARE or s * s == n, 'accepted')
            require(a.n_qubits == n and a.name == '%dq-%s' % (n, name), 'size or name %s', a.name)
            ref = {A.LINE: nx.path_graph(n), A.CIRCLE: nx.cycle_graph(n) if n > 2 else nx.path_graph(n), A.FULLY_CONNECTED: nx.complete_graph(n), A.SQUARE: nx.grid_2d_graph(s, s)}[name]
            require(nx.is_isomorphic(graph_of(a), ref), 'couplings')
            full_queries(a, name, rep)
            qadj, _ = basics(a, list(a.vertices), [tuple(e) for e in graph_of(a).edges()])
            require(all(q + 1 in qadj[q] for q in range(n - 1)), 'the placement %s is not a Hamiltonian path', a.qubit_map)


DENS = dict(tree=A.create_dynamic_density_tree_architecture, hamiltonian=A.create_dynamic_density_hamiltonian_architecture, random=A.create_dynamic_density_architecture)


def fam_density(rep, kind, n, prob):
    """every outcome of the random choices"""
    def program():
        try:
            return DENS[kind](n, density_prob=prob)
        except Exception as e:
            return e
    for ch, a, cut in choice.explore(program):
        if cut:
            rep.note('cut')
            continue
        with rep.case('density %s %d %s %s' % (kind, n, prob, ch), dict(op='density')):
            if isinstance(a, Exception):
                raise a
            rep.state('%s %s' % (n, sorted(map(tuple, a.graph.edges()))))
            rep.step()
            g = graph_of(a)
            want = int(prob * n * (n - 1) / 2)
            require(a.n_qubits == n and nx.is_connected(g), 'not connected: %s', g.edges())
            if kind != 'random':
                require(g.number_of_edges() == max(want, n - 1), '%d couplings, asked for density %s', g.number_of_edges(), prob)
            if kind == 'hamiltonian':
                require(all(g.has_edge(v, v + 1) for v in range(n - 1)), 'no Hamiltonian path')
            require(a.name == '%dq-dynamic_density%s' % (n, prob), 'name')
            qadj, q2i = basics(a, list(a.vertices), [tuple(e) for e in g.edges()])
            order_ok(a.reduce_order, qadj)


FAMILIES = dict(basic=fam_basic, cut=fam_cut, dist=fam_dist, path=fam_path, relabel=fam_relabel, steiner=fam_steiner, recsteiner=fam_recsteiner, named=fam_named, sized=fam_sized, density=fam_density)


def tasks(tier):
    q = tier == 'quick'
    t = [('named', (x,)) for x in DEVICES] + [('named', (x,)) for x in SIZES]
    t += [('sized', (n,)) for n in range(1, 13 if q else 26)] + [('sized', (n,)) for n in (16, 25)]
    for n in range(1, 5):
        t += [('basic', (n, ('matrix', 'gap'), True, i, 4)) for i in range(4)]
        t += [('cut', (n, ('matrix', 'gap'), i, 2)) for i in range(2)]
        t += [('dist', (n, h, True, i, 2)) for i in range(2) for h in ('matrix', 'gap')]
        t += [('path', (n, h, i, 2)) for i in range(2) for h in ('matrix', 'gap')]
        t += [('steiner', ('all', n, h, True, i, 4)) for i in range(4) for h in ('matrix', 'gap')]
        t += [('recsteiner', ('all', n, h, h == 'matrix', i, 4)) for i in range(4) for h in ('matrix', 'gap')]
    m = 16
    t += [('basic', (5, ('matrix',), not q, i, m)) for i in range(m)]
    t += [('cut', (5, ('gap',), i, m)) for i in range(m)]
    t += [('dist', (5, 'matrix', not q, i, m)) for i in range(m)]
    t += [('path', (5, 'gap', i, m)) for i in range(m)]
    t += [('steiner', ('all', 5, 'matrix', not q, i, m)) for i in range(m)]
    t += [('steiner', ('unlabelled', 6, 'matrix', not q, i, m)) for i in range(m)]
    t += [('recsteiner', ('unlabelled' if q else 'all', 5, 'gap', False, i, m)) for i in range(m)]
    t += [('relabel', (n, i, 8 if n < 6 else 16)) for n in ((5, 6) if q else (5, 6, 7, 8)) for i in range(8 if n < 6 else 16)]
    if not q:
        t += [('basic', (6, ('gap',), False, i, 48)) for i in range(48)] + [('cut', (6, ('matrix',), i, 48)) for i in range(48)]
        t += [('dist', (6, 'gap', False, i, 48)) for i in range(48)] + [('recsteiner', ('unlabelled', 6, 'matrix', False, i, 48)) for i in range(48)]
        t += [('steiner', ('all', 6, 'matrix', False, i, 64)) for i in range(64)]
    for k, n, p in [('tree', 1, 0.1), ('tree', 2, 0.1), ('tree', 3, 0.1), ('tree', 3, 1.0), ('tree', 4, 0.5), ('tree', 4, 0.7), ('hamiltonian', 1, 0.1), ('hamiltonian', 4, 0.1), ('hamiltonian', 4, 0.7), ('hamiltonian', 5, 0.6), ('hamiltonian', 4, 1.0),
                    ('random', 1, 0.1), ('random', 2, 0.5), ('random', 3, 0.5), ('random', 4, 0.5), ('random', 3, 0.0), ('random', 3, 1.0)] + ([] if q else [('tree', 5, 0.3), ('hamiltonian', 6, 0.5)]):
        t.append(('density', (k, n, p)))
    return t


def run():
    return core.main('C28', FAMILIES, tasks, assumptions=['coupling graphs are connected', 'the device couplings are those published by the vendors, written down independently here'],
                     exhaustive_note='all connected coupling graphs up to the stated size with all regions, roots, targets and placements; all named architectures')
