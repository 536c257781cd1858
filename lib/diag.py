"""Diagram specs (plain data), builders into pyzx graphs, exhaustive labelled enumerators."""
import itertools
from fractions import Fraction as F
from ref import Net, evaluate, BOUNDARY, Z, X, HBOX, WIN, WOUT, ZBOX, SIMPLE, HAD, WIO, cexp
import pyzx as zx
from pyzx.utils import VertexType, EdgeType

VT = {int(t): t for t in VertexType.__members__.values()} if hasattr(VertexType, '__members__') else None
TN = {0: 'B', 1: 'Z', 2: 'X', 3: 'H', 4: 'Wi', 5: 'Wo', 6: 'Zb'}


class Spec(object):
    """verts: list of (type, phase, label, ground); edges: list of (i,j,et)"""
    __slots__ = ('verts', 'edges', 'ins', 'outs')

    def __init__(self, verts, edges, ins, outs):
        self.verts, self.edges, self.ins, self.outs = verts, edges, ins, outs

    def show(self):
        vs = ','.join('%s%s%s%s' % (TN[v[0]], ('' if v[0] != HBOX else '0') if not v[1] else str(v[1]), '' if v[2] is None else '<%s>' % (v[2],),
                                    '_' if v[3] else '') for v in self.verts)
        es = ','.join('%d%s%d' % (a, {1: '-', 2: '=', 3: '~'}[e], b) for a, b, e in self.edges)
        return '[%s|%s|%s>%s]' % (vs, es, ' '.join(map(str, self.ins)), ' '.join(map(str, self.outs)))

    def net(self, env=None):
        from ref import num
        return Net([(t, float(num(p, env)), (complex(l) if l is not None else None), g) for t, p, l, g in self.verts],
                   list(self.edges), list(self.ins), list(self.outs))

    def value(self, env=None, doubled=False):
        return evaluate(self.net(env), doubled=doubled)


def V(ty, phase=0, label=None, ground=False):
    return (ty, phase, label, ground)


def build(spec, backend='simple', auto=None, rows=None):
    """pyzx graph for the spec; vertex i of the spec gets index i."""
    g = zx.Graph(backend)
    if auto is not None and hasattr(g, 'set_auto_simplify'):
        g.set_auto_simplify(auto)
    ni = 0
    ins, outs = set(spec.ins), set(spec.outs)
    depth = 1 + len(spec.verts)
    for i, (ty, p, lab, gr) in enumerate(spec.verts):
        if rows is not None:
            q, r = rows[i]
        elif i in ins:
            q, r = spec.ins.index(i), 0
        elif i in outs:
            q, r = spec.outs.index(i), depth
        else:
            q, r = i % 3, 1 + i
        v = g.add_vertex(VertexType(ty) if isinstance(VertexType, type) and hasattr(VertexType, '__members__') else ty,
                         q, r, p if p else None, gr)
        if ty == HBOX and not p:
            g.set_phase(v, 0)
        if lab is not None:
            if ty == ZBOX:
                zx.utils.set_z_box_label(g, v, lab)
            else:
                g.set_vdata(v, 'label', lab)
    for a, b, et in spec.edges:
        g.add_edge((a, b), EdgeType(et) if hasattr(EdgeType, '__members__') else et)
    g.set_inputs(tuple(spec.ins))
    g.set_outputs(tuple(spec.outs))
    return g


def pairs(n):
    return [(i, j) for i in range(n) for j in range(i + 1, n)]


def enum_graphs(n, colors=(0, 1, 2)):
    """All labelled simple graphs on n vertices with edges coloured from colors (0 = absent)."""
    ps = pairs(n)
    for cs in itertools.product(colors, repeat=len(ps)):
        yield [(i, j, c) for (i, j), c in zip(ps, cs) if c]


def enum_edges_canon(n, colors, vkey):
    """As enum_graphs but only one representative per permutation of equal-kind vertices? (unused: order matters)"""
    raise NotImplementedError


_canon_cache = {}


def canon_graphs(sizes, colors):
    """Edge colourings of K_n up to permutations inside the consecutive vertex classes of the given sizes:
    one (lexicographically maximal) representative per orbit, as lists of (i,j,colour)."""
    key = (tuple(sizes), tuple(colors))
    r = _canon_cache.get(key)
    if r is not None:
        return r
    n = sum(sizes)
    ps = pairs(n)
    pidx = {p: i for i, p in enumerate(ps)}
    groups, s = [], 0
    for z in sizes:
        groups.append(list(itertools.permutations(range(s, s + z))))
        s += z
    perms = []
    for combo in itertools.product(*groups):
        m = [x for g in combo for x in g]
        perms.append([pidx[tuple(sorted((m[i], m[j])))] for i, j in ps])
    seen = set()
    out = []
    for cs in itertools.product(sorted(colors, reverse=True), repeat=len(ps)):
        if cs in seen:
            continue
        for p in perms:
            seen.add(tuple(cs[k] for k in p))
        out.append([(i, j, c) for (i, j), c in zip(ps, cs) if c])
    _canon_cache[key] = out
    return out


def kind_multisets(kinds, n):
    """(tuple of kind indices non-decreasing, class sizes)"""
    for c in itertools.combinations_with_replacement(range(len(kinds)), n):
        sizes = [len(list(g)) for _, g in itertools.groupby(c)]
        yield c, sizes


def with_boundaries(verts, edges, bspec, io=None, first=True):
    """verts: list of vertex tuples; bspec: for each vertex a tuple of boundary edge types.
    Boundaries come first in the vertex order when first is True. Alternates input/output unless io is given."""
    nb = sum(len(b) for b in bspec)
    bt = []
    off = nb if first else 0
    n = len(verts)
    es = [(a + off, b + off, c) for a, b, c in edges]
    k = 0
    ins, outs = [], []
    for i, bs in enumerate(bspec):
        for et in bs:
            b = k if first else n + k
            es.append((b, i + off, et) if first else (i + off, b, et))
            which = (io[k] if io is not None else ('i' if k % 2 == 0 else 'o'))
            (ins if which == 'i' else outs).append(b)
            k += 1
    bv = [V(BOUNDARY)] * nb
    vs = bv + list(verts) if first else list(verts) + bv
    return Spec(vs, es, ins, outs)


def connected(n, edges):
    if n <= 1:
        return True
    seen, st = {0}, [0]
    adj = {i: [] for i in range(n)}
    for a, b, _ in edges:
        adj[a].append(b)
        adj[b].append(a)
    while st:
        x = st.pop()
        for y in adj[x]:
            if y not in seen:
                seen.add(y)
                st.append(y)
    return len(seen) == n


def spec_of(g):
    """Renumbered spec of a pyzx graph (order of the graph's own vertex listing), without the scalar."""
    from ref import zlabel
    idx = {}
    verts = []
    gr = set(g.grounds())
    for v in sorted(g.vertices()):
        idx[v] = len(verts)
        ty = int(g.type(v))
        verts.append((ty, g.phase(v) if ty != BOUNDARY else 0, zlabel(g, v) if ty == ZBOX else None, v in gr))
    es = []
    for e in g.edges():
        a, b = g.edge_st(e)
        a, b = sorted((idx[a], idx[b]))
        es.append((a, b, int(g.edge_type(e))))
    es.sort()
    return Spec(verts, es, [idx[v] for v in g.inputs()], [idx[v] for v in g.outputs()])
