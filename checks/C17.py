"""C17: graph backends. Explicit-state exploration of edit sequences; after every edit every query is compared with a plain
reference model, and parallel edges and self-loops with the linear map of the diagram that has both edges."""
import copy, itertools
from fractions import Fraction as F
from collections import Counter
import core
from core import require, slice_iter, Violation
import ref, big
from ref import Net, BOUNDARY, Z, X, HBOX, WIN, WOUT, ZBOX, SIMPLE, HAD, WIO
import pyzx as zx
from pyzx.utils import VertexType, EdgeType

VTY = {int(t): t for t in VertexType}
ETY = {int(t): t for t in EdgeType}
ZXLIKE = (Z, X, ZBOX)
q, h = F(1, 4), F(1, 2)


class Model(object):
    """labelled multigraph"""
    def __init__(self):
        self.v = {}          # name -> dict(ty, ph, q, r, gr, data)
        self.e = Counter()   # (a, b, type) with a <= b
        self.ins, self.outs = (), ()
        self.nxt = (0,)      # admissible next names
        self.scal = 1.0

    def key(self):
        return (tuple(sorted((v, tuple(sorted((k, str(x)) for k, x in d.items()))) for v, d in self.v.items())),
                tuple(sorted(self.e.items())), self.ins, self.outs)

    def between(self, a, b):
        a, b = min(a, b), max(a, b)
        return {t: self.e[(a, b, t)] for t in (1, 2, 3) if self.e[(a, b, t)]}

    def value(self):
        """tensor with every spider opened"""
        idx = {v: k for k, v in enumerate(sorted(self.v))}
        verts = [(d['ty'], float(d['ph']), complex(d['data'].get('label', 1)) if d['ty'] == ZBOX else None, False) for _, d in sorted(self.v.items())]
        opens = [idx[v] for v, d in sorted(self.v.items()) if d['ty'] in (BOUNDARY,) + ZXLIKE]
        es = [(idx[a], idx[b], t) for (a, b, t), n in self.e.items() for _ in range(n)]
        return ref.evaluate(Net(verts, es, opens, [], self.scal))


def model_of(g):
    """the model that the queries of the graph describe"""
    m = Model()
    for v in g.vertices():
        m.v[v] = dict(ty=int(g.type(v)), ph=g.phase(v), q=g.qubit(v), r=g.row(v), gr=g.is_ground(v),
                      data={k: g.vdata(v, k) for k in g.vdata_keys(v)})
    for e in g.edges():
        a, b = g.edge_st(e)
        m.e[(min(a, b), max(a, b), int(g.edge_type(e)))] += 1
    m.ins, m.outs = tuple(g.inputs()), tuple(g.outputs())
    m.scal = ref.scalar_value(g.scalar)
    return m


# -- the operations: (name, args); apply to graph and to model --------------------------------------------------------
class Refused(Exception):
    pass


def apply_graph(g, op):
    n, a = op[0], op[1:]
    if n == 'add_vertex':
        ty, ph = a
        return g.add_vertex(VTY[ty], phase=ph)
    if n == 'add_vertex_at':
        return g.add_vertex(VTY[a[0]], qubit=a[1], row=a[2], phase=a[3], ground=a[4])
    if n == 'add_vertices':
        return list(g.add_vertices(a[0]))
    if n == 'add_vertex_indexed':
        return g.add_vertex_indexed(a[0])
    if n == 'add_edge':
        return g.add_edge((a[0], a[1]), ETY[a[2]])
    if n == 'add_edges':
        return g.add_edges([tuple(x) for x in a[0]], ETY[a[1]])
    if n == 'add_edge_table':
        return g.add_edge_table({k: list(v) for k, v in a[0]})
    if n == 'remove_edge':
        e = g.edge(a[0], a[1]) if len(a) == 2 else (a[0], a[1], ETY[a[2]])
        return g.remove_edge(e)
    if n == 'remove_edges':
        return g.remove_edges(list(g.edges()))
    if n == 'remove_edges_at':
        es = [g.edge(x, y) for x, y in a[0]]
        return g.remove_edges(es if len(es) % 2 else iter(es))
    if n == 'set_edge_type':
        e = g.edge(a[0], a[1]) if len(a) == 3 else (a[0], a[1], ETY[a[2]])
        return g.set_edge_type(e, ETY[a[-1]])
    if n == 'set_label':
        return zx.utils.set_z_box_label(g, a[0], a[1])
    if n == 'set_type':
        return g.set_type(a[0], VTY[a[1]])
    if n in ('remove_vertex', 'set_phase', 'add_to_phase', 'set_row', 'set_qubit', 'set_position', 'set_inputs', 'set_outputs',
             'set_ground', 'set_vdata', 'remove_vertices'):
        return getattr(g, n)(*a)
    raise KeyError(n)


def red(p):
    return p % 2


def apply_model(m, op, ret, simple, auto):
    """Structural effect; returns False when the effect is only specified semantically (parallel edges)"""
    n, a = op[0], op[1:]
    semantic = False

    def vertex(v, ty=BOUNDARY, ph=0, qq=-1, r=-1, gr=False):
        require(v not in m.v, 'new vertex has the name of an existing vertex')
        m.v[v] = dict(ty=ty, ph=ph, q=qq, r=r, gr=gr, data={})

    def add(s, t, et):
        nonlocal semantic
        ks = (min(s, t), max(s, t))
        par = bool(m.between(s, t)) or s == t
        if par:
            t1, t2 = m.v[s]['ty'], m.v[t]['ty']
            if et == WIO or WIO in m.between(s, t):
                raise Refused()
            if t1 in ZXLIKE and t2 in ZXLIKE and (simple or auto):
                semantic = True
            elif simple:
                raise Refused()
        m.e[ks + (et,)] += 1
    if n in ('add_vertex', 'add_vertex_at'):
        ty, ph = (a[0], a[1]) if n == 'add_vertex' else (a[0], a[3])
        if ph is None:
            ph = 1 if ty == HBOX else 0
        require(ret in m.nxt, 'new vertex is %s, expected %s', ret, m.nxt)
        if n == 'add_vertex':
            vertex(ret, ty, red(ph))
        else:
            vertex(ret, ty, red(ph), a[1], a[2], a[4])
    elif n == 'add_vertices':
        require(len(ret) == a[0] and ret[0] in m.nxt and ret == list(range(ret[0], ret[0] + a[0])), 'new vertices %s', ret)
        for v in ret:
            vertex(v)
    elif n == 'add_vertex_indexed':
        if a[0] in m.v:
            raise Refused()
        vertex(a[0])
    elif n == 'add_edge':
        add(*a)
    elif n == 'add_edges':
        for s, t in a[0]:
            add(s, t, a[1])
    elif n == 'add_edge_table':
        for (s, t), (ns, nh) in a[0]:
            for _ in range(ns):
                add(s, t, SIMPLE)
            for _ in range(nh):
                add(s, t, HAD)
    elif n == 'remove_edge':
        bt = m.between(a[0], a[1])
        et = a[2] if len(a) == 3 else list(bt)[0]
        k = (min(a[0], a[1]), max(a[0], a[1]), et)
        m.e[k] -= 1
        if not m.e[k]:
            del m.e[k]
    elif n == 'remove_edges':
        m.e.clear()
    elif n == 'remove_edges_at':
        for x, y in a[0]:
            for t in m.between(x, y):
                del m.e[(min(x, y), max(x, y), t)]
    elif n == 'set_edge_type':
        bt = m.between(a[0], a[1])
        et = a[2] if len(a) == 4 else list(bt)[0]
        k = (min(a[0], a[1]), max(a[0], a[1]))
        m.e[k + (et,)] -= 1
        if not m.e[k + (et,)]:
            del m.e[k + (et,)]
        m.e[k + (a[-1],)] += 1
    elif n in ('remove_vertex', 'remove_vertices'):
        for v in ([a[0]] if n == 'remove_vertex' else a[0]):
            del m.v[v]
            for k in [k for k in m.e if v in k[:2]]:
                del m.e[k]
            m.ins = tuple(x for x in m.ins if x != v)
            m.outs = tuple(x for x in m.outs if x != v)
    elif n == 'set_type':
        m.v[a[0]]['ty'] = a[1]
    elif n == 'set_phase':
        m.v[a[0]]['ph'] = red(a[1])
    elif n == 'add_to_phase':
        m.v[a[0]]['ph'] = red(m.v[a[0]]['ph'] + a[1])
    elif n == 'set_row':
        m.v[a[0]]['r'] = a[1]
    elif n == 'set_qubit':
        m.v[a[0]]['q'] = a[1]
    elif n == 'set_position':
        m.v[a[0]]['q'], m.v[a[0]]['r'] = a[1], a[2]
    elif n == 'set_inputs':
        m.ins = a[0]
    elif n == 'set_outputs':
        m.outs = a[0]
    elif n == 'set_ground':
        m.v[a[0]]['gr'] = a[1]
    elif n == 'set_vdata':
        m.v[a[0]]['data'][a[1]] = a[2]
    elif n == 'set_label':
        m.v[a[0]]['data']['label'] = a[1]
    if n.startswith('add_vert') or n.startswith('remove_vert'):
        m.nxt = (max(m.v) + 1,) if m.v else (0, 1)
    return not semantic


def eqv(a, b):
    return a == b and (not isinstance(a, bool)) == (not isinstance(b, bool))


def agree(g, m, simple):
    """every query agrees with the model"""
    V = sorted(m.v)
    require(sorted(g.vertices()) == V and g.vertex_set() == set(V) and g.num_vertices() == len(V), 'vertices are %s, expected %s', sorted(g.vertices()), V)
    es = sorted(m.e.elements())
    got = []
    for e in g.edges():
        s, t = g.edge_st(e)
        require((g.edge_s(e), g.edge_t(e)) == (s, t), 'edge_s/edge_t')
        got.append((min(s, t), max(s, t), int(g.edge_type(e))))
    require(sorted(got) == es, 'edges are %s, expected %s', sorted(got), es)
    require(g.num_edges() == len(es), 'num_edges is %s, there are %s', g.num_edges(), len(es))
    pairs = {k[:2] for k in es}
    require({tuple(sorted(g.edge_st(e))) for e in g.edge_set()} == pairs, 'edge_set')
    deg = Counter()
    for a, b, t in es:
        deg[a] += 1
        deg[b] += 1
    tys, phs = g.types(), g.phases()
    require(sorted(tys) == V and sorted(phs) == V, 'types() or phases() have other vertices')
    for v in V:
        d = m.v[v]
        nb = {b if a == v else a for a, b, t in es if v in (a, b)}
        require(set(g.neighbors(v)) == nb and len(list(g.neighbors(v))) == len(nb), 'neighbours of %s', v)
        require(g.vertex_degree(v) == deg[v], 'degree of %s is %s, expected %s', v, g.vertex_degree(v), deg[v])
        inc = []
        for e in g.incident_edges(v):
            s, t = g.edge_st(e)
            inc.append((min(s, t), max(s, t), int(g.edge_type(e))))
        require(sorted(inc) == [k for k in es if v in k[:2]], 'incident edges of %s', v)
        inc = sorted((min(g.edge_st(e)), max(g.edge_st(e)), int(g.edge_type(e))) for e in g.edges(v))
        require(inc == [k for k in es if v in k[:2]], 'edges(%s) are %s', v, inc)
        require(int(g.type(v)) == d['ty'] == int(tys[v]), 'type of %s', v)
        require(g.phase(v) == d['ph'] == phs[v], 'phase of %s is %s, expected %s', v, g.phase(v), d['ph'])
        require(0 <= g.phase(v) < 2, 'phase is not reduced')
        require(g.qubit(v) == d['q'] and g.row(v) == d['r'], 'position of %s', v)
        require(bool(g.is_ground(v)) == d['gr'], 'ground of %s', v)
        require({k: g.vdata(v, k) for k in g.vdata_keys(v)} == d['data'], 'vertex data of %s', v)
        require(g.vdata(v, 'nothing', 'dflt') == 'dflt', 'default of vertex data')
    require(set(g.grounds()) == {v for v in V if m.v[v]['gr']} and bool(g.is_hybrid()) == any(d['gr'] for d in m.v.values()), 'grounds')
    rows = {v: m.v[v]['r'] for v in V}
    require(all(g.rows().get(v, -1) == rows[v] for v in V) and set(g.rows()) <= set(V), 'rows()')
    require(all(g.qubits().get(v, -1) == m.v[v]['q'] for v in V) and set(g.qubits()) <= set(V), 'qubits()')
    require(g.depth() == max(rows.values(), default=-1), 'depth is %s', g.depth())
    require(tuple(g.inputs()) == m.ins and tuple(g.outputs()) == m.outs and (g.num_inputs(), g.num_outputs()) == (len(m.ins), len(m.outs)), 'inputs or outputs')
    require(g.vindex() in (m.nxt if m.v else (0, 1)), 'vindex is %s, expected %s', g.vindex(), m.nxt)
    for a in range(-1, 3):
        for b in range(a + 1, a + 5):
            want = [v for v in V if a < v < b and all(a < w < b for k in es if v in k[:2] for w in k[:2])]
            require(sorted(g.vertices_in_range(a, b)) == want, 'vertices between %s and %s', a, b)
    for a in V:
        for b in V:
            want = m.between(a, b)
            require(bool(g.connected(a, b)) == bool(want), 'connected(%s,%s)', a, b)
            if a != b or not simple:
                l = sorted(int(g.edge_type(e)) for e in g.edges(a, b))
                require(l == sorted(Counter(want).elements()), 'edges(%s,%s) are %s', a, b, l)
                require(all(set(g.edge_st(e)) == {a, b} for e in g.edges(a, b)), 'edges(%s,%s)', a, b)
            if not want:
                require(int(g.edge_type(g.edge(a, b))) == 0, 'type of a missing edge')
            elif sum(want.values()) == 1:
                require(int(g.edge_type(g.edge(a, b))) == list(want)[0], 'type of the edge %s,%s', a, b)
                require(int(g.edge_type((a, b))) == list(want)[0], 'type of the edge from %s to %s', a, b)
    for lo in range(-1, max(V, default=0) + 1):
        hi = max(V, default=0) + 1 if lo < 1 else max(V, default=0)
        inside = [v for v in V if lo < v < hi and all(lo < w < hi for w in g.neighbors(v))]
        require(sorted(g.vertices_in_range(lo, hi)) == inside, 'vertices_in_range(%s,%s)', lo, hi)
    require(str(len(V)) in str(g) and str(len(es)) in str(g), 'str')
    g.stats()
    wf = all((d['ty'] != BOUNDARY or deg[v] == 1) and (d['ty'] != WIN or deg[v] == 2) and (d['ty'] != WOUT or deg[v] >= 2) for v, d in m.v.items())
    require(bool(g.is_well_formed()) == wf, 'is_well_formed is %s', g.is_well_formed())


def ops_for(m, cfg):
    """all operations of the configuration in the model state"""
    V = sorted(m.v)
    out = []
    if len(V) < cfg['maxv']:
        for ty, ph in cfg.get('add', ()):
            out.append(('add_vertex', ty, ph))
        for a in cfg.get('add_at', ()):
            out.append(('add_vertex_at',) + a)
        if cfg.get('bulk'):
            out.append(('add_vertices', 2))
    for k in cfg.get('indexed', ()):
        out.append(('add_vertex_indexed', k))
    E = sorted(m.e)
    if len(list(m.e.elements())) < cfg['maxe']:
        for a in V:
            for b in V:
                if a < b or (a == b and cfg.get('loops')) or (a > b and cfg.get('both')):
                    for t in cfg['et']:
                        if t == WIO and {m.v[a]['ty'], m.v[b]['ty']} != {WIN, WOUT}:
                            continue
                        out.append(('add_edge', a, b, t))
    if cfg.get('bulk') and len(V) >= 2:
        for t in (SIMPLE, HAD):
            out.append(('add_edges', ((V[0], V[1]), (V[-1], V[0]), (V[0], V[1])), t))
        out.append(('add_edge_table', (((V[0], V[1]), (2, 1)), ((V[-1], V[0]), (0, 2)))))
        out.append(('remove_edges',))
        out.append(('remove_vertices', (V[0], V[1])))
    if cfg.get('remove'):
        for (a, b, t) in E:
            if len(m.between(a, b)) == 1 and m.e[(a, b, t)] == 1:
                out.append(('remove_edge', b, a))
            if cfg['multi']:
                out.append(('remove_edge', a, b, t))
        for v in V:
            out.append(('remove_vertex', v))
    if cfg.get('etype'):
        for (a, b, t) in E:
            if t == WIO:
                continue
            if m.e[(a, b, t)] == 1 and len(m.between(a, b)) == 1:
                out.append(('set_edge_type', a, b, 3 - t))
                out.append(('set_edge_type', b, a, t))
            if cfg['multi']:
                out.append(('set_edge_type', a, b, t, 3 - t))
    if cfg.get('attr'):
        for v in V[-2:]:
            out += [('set_phase', v, F(9, 4)), ('set_phase', v, -1), ('add_to_phase', v, F(7, 4)), ('set_row', v, 3), ('set_qubit', v, 2.5),
                    ('set_position', v, 1, -2), ('set_ground', v, True), ('set_ground', v, False), ('set_vdata', v, 'k', (1, 2)), ('set_vdata', v, 'k', 'x'),
                    ('set_type', v, X)]
        out += [('set_inputs', tuple(V[:1])), ('set_outputs', tuple(V[::-1])), ('set_inputs', ())]
    if cfg.get('batch'):
        P = sorted({k[:2] for k in E})
        free = [p for p in itertools.combinations(V, 2) if p not in set(P)]
        for r in range(0, len(V), 2):
            w = V[r:] + V[:r]
            out += [('remove_vertices', tuple(w[:k])) for k in range(2, len(V) + 1, 2 if r else 1)]
            out += [('remove_vertices', tuple(w[:5][::-1]))]
            out += [('set_inputs', tuple(w[:6])), ('set_outputs', tuple(w[:5][::-1]))]
        for r in range(0, len(P), 3):
            w = P[r:] + P[:r]
            out += [('remove_edges_at', tuple(w[:k])) for k in range(1, len(P) + 1, 2 if r else 1)]
        for r in range(0, len(free), 4):
            w = free[r:] + free[:r]
            out += [('add_edges', tuple(w[:k]), t) for t in (SIMPLE, HAD) for k in range(1, min(len(w), 8) + 1, 3 if r else 1)]
            out += [('add_edge_table', tuple((e, ((1, 0), (0, 1))[j % 2]) for j, e in enumerate(w[:k]))) for k in range(1, min(len(w), 8) + 1, 3 if r else 1)]
        if len(V) < cfg['maxv']:
            out += [('add_vertices', k) for k in (1, 3, 5, 8)]
    if cfg.get('labels'):
        out += [('set_label', v, 1j) for v in V if m.v[v]['ty'] == ZBOX]
    return out


def explore(rep, cfg, depth, first=None):
    """breadth-first over operation sequences; states are merged when graph and model agree in all their stored data"""
    simple = cfg['backend'] == 'simple'
    auto = cfg.get('auto', True)
    cfg = dict(cfg, multi=not simple)

    def start():
        g = zx.Graph(cfg['backend'])
        if not simple:
            g.set_auto_simplify(auto)
        return g
    frontier = [((), start(), Model())]
    seen = set()
    tag = '%s%s' % (cfg['backend'], '' if auto else '/manual')
    for init in cfg.get('init', ()):
        hist, g, m = frontier[0]
        ret = apply_graph(g, init)
        if not apply_model(m, init, ret, simple, auto):
            m = model_of(g)
        frontier = [(hist + (init,), g, m)]
    for lvl in range(depth):
        nxt = []
        for hist, g, m in frontier:
            ops = ops_for(m, cfg)
            if lvl == 0 and first is not None:
                ops = [o for k, o in enumerate(ops) if k % first[1] == first[0]]
            for op in ops:
                key = '%s %s' % (tag, ' '.join(map(str, hist + (op,))))
                with rep.case(key, dict(backend=tag, op=op[0])):
                    g2, m2 = copy.deepcopy(g), copy.deepcopy(m)
                    before = store(g2)
                    try:
                        exact = apply_model(m2, op, None if not op[0].startswith('add_vert') else peek(g2, op), simple, auto)
                        refuse = False
                    except Refused:
                        refuse, exact = True, True
                    rep.step()
                    try:
                        ret = apply_graph(g2, op)
                        raised = None
                    except ValueError as ex:
                        raised = ex
                    if refuse or raised is not None:
                        require(raised is not None and refuse, 'raised %s' % raised if raised is not None else 'accepted, but it cannot be represented')
                        if op[0] in ('add_edge', 'add_vertex_indexed'):
                            require(store(g2) == before, 'the refused operation changed the graph')
                        rep.outcome('refused')
                        continue
                    if op[0].startswith('add_vert') and op[0] != 'add_vertex_indexed':
                        require((ret if not isinstance(ret, range) else list(ret)) == peek(g, op), 'index of the new vertex')
                    if exact:
                        m2.scal = m.scal
                        require(abs(ref.scalar_value(g2.scalar) - m.scal) < 1e-9, 'the scalar changed')
                        agree(g2, m2, simple)
                        rep.outcome('edit')
                    else:
                        got = model_of(g2)
                        got.nxt = m2.nxt
                        require(got.v.keys() == m2.v.keys(), 'vertices changed')
                        for v in got.v:
                            require(all(got.v[v][k] == m2.v[v][k] for k in ('ty', 'q', 'r', 'gr')), 'attributes of %s changed', v)
                        x, y = m2.value(), got.value()
                        require(ref.close(x, y), 'the diagram with the parallel edge has another map or scalar: %s', got.key()[1])
                        if simple:
                            require(all(n == 1 for n in Counter(k[:2] for k in got.e.elements()).values()), 'parallel edges in a simple graph')
                        agree(g2, got, simple)
                        m2 = got
                        rep.outcome('parallel')
                    k = (m2.key(), store(g2))
                    hk = hash(k)
                    if hk not in seen:
                        seen.add(hk)
                        rep.state(tag + str(hist + (op,)) + str(cfg.get('init')))
                        nxt.append((hist + (op,), g2, m2))
        frontier = nxt
    if frontier:
        rep.sample(' '.join(map(str, frontier[len(frontier) // 2][0])))


def peek(g, op):
    """the names that the graph announces for new vertices (vindex)"""
    n = g.vindex()
    return list(range(n, n + op[1])) if op[0] == 'add_vertices' else n


def store(g):
    """all stored data of a graph"""
    out = []
    for k, x in sorted(vars(g).items()):
        if k == 'scalar':
            s = x
            x = (s.power2, str(s.phase), [str(p) for p in s.phasenodes], str(s.floatfactor), s.is_zero)
        elif k == 'graph':
            x = [(v, sorted((w, (e.s, e.h, e.w_io) if hasattr(e, 'w_io') else int(e)) for w, e in d.items())) for v, d in sorted(x.items())]
        elif k in ('nedges', '_maxq', '_maxr'):
            continue
        elif isinstance(x, dict):
            x = sorted((str(a), str(b)) for a, b in x.items())
        elif isinstance(x, (set, frozenset)):
            x = sorted(map(str, x))
        out.append((k, str(x)))
    return tuple(out)


CFGS = {
    'batch': dict(maxv=12, maxe=0, et=(), batch=True),
    'struct': dict(maxv=4, maxe=4, add=((Z, None), (HBOX, None), (Z, h)), et=(SIMPLE, HAD), remove=True, etype=True),
    'attrs': dict(maxv=2, maxe=1, add=((Z, F(5, 2)), (HBOX, 0)), add_at=((X, 1, 2, q, True),), et=(SIMPLE,), remove=True, attr=True),
    'names': dict(maxv=4, maxe=2, add=((BOUNDARY, None),), indexed=(0, 3, 5), et=(SIMPLE,), remove=True, bulk=True, both=True),
    'par': dict(maxv=0, maxe=5, et=(SIMPLE, HAD), loops=True, both=False, remove=False, etype=False),
    'parx': dict(maxv=0, maxe=4, et=(SIMPLE, HAD), loops=True, remove=True, etype=True, labels=True),
    'w': dict(maxv=0, maxe=4, et=(SIMPLE, HAD, WIO), loops=True, remove=True),
}
PAIRS = [(Z, Z), (Z, X), (X, X), (Z, ZBOX), (X, ZBOX), (ZBOX, ZBOX), (ZBOX, Z), (ZBOX, X), (X, Z), (Z, HBOX), (HBOX, HBOX), (X, HBOX), (Z, BOUNDARY), (BOUNDARY, BOUNDARY), (WIN, WOUT), (Z, WOUT)]


def fam_edit(rep, cfg, backend, auto, depth, i, k):
    explore(rep, dict(CFGS[cfg], backend=backend, auto=auto), depth, (i, k))


def fam_pairs(rep, cfg, tys, backend, auto, depth, i, k):
    init = []
    for j, t in enumerate(tys):
        init.append(('add_vertex', t, (q if t in (Z, X) and j == 0 else 0)))
        if t == ZBOX:
            init.append(('set_label', j, 2 - 1j))
    explore(rep, dict(CFGS[cfg], backend=backend, auto=auto, init=tuple(init)), depth, (i, k))


def fam_batch(rep, hi, backend, auto, depth, i, k):
    """edits of many vertices or edges at once, on diagrams of several shapes"""
    for sh, n, es, _ in slice_iter(big.shapes(4, hi), i, k):
        init = [('add_vertex', (Z, X, HBOX)[j % 3], F(j % 4, 4)) for j in range(n)] + [('add_edge', a, b, 1 + j % 2) for j, (a, b) in enumerate(es)]
        init += [('set_outputs', tuple(range(n))[::-2]), ('set_inputs', tuple(range(n))[::2]), ('set_vdata', 0, 'k', 1), ('set_vdata', n - 1, 'k', 2), ('set_ground', n - 2, True)]
        explore(rep, dict(CFGS['batch'], backend=backend, auto=auto, init=tuple(init)), depth, (0, 1))


FAMILIES = dict(batch=fam_batch, edit=fam_edit, pairs=fam_pairs)


def tasks(tier):
    deep = tier == 'thorough'
    L = []

    def add(fam, args, n):
        for i in range(n):
            L.append((fam, tuple(args) + (i, n)))
    for be, auto in (('simple', True), ('multigraph', True), ('multigraph', False)):
        add('edit', ('struct', be, auto, 7 if deep else 5), 3)
        add('edit', ('attrs', be, auto, 5 if deep else 3), 4)
        add('edit', ('names', be, auto, 6 if deep else 4), 4)
        add('batch', (5 if deep else 6, be, auto, 2 if deep else 1), 8)
        for p in PAIRS:
            add('pairs', ('par', p, be, auto, 5 if deep else 4), 2)
            add('pairs', ('parx', p, be, auto, 4 if deep else 3), 2)
            if WOUT in p or deep:
                add('pairs', ('w', p, be, auto, 3), 2)
        for t in ((Z, Z, X), (Z, X, ZBOX), (Z, X, HBOX), (ZBOX, X, Z)):
            add('pairs', ('parx', t, be, auto, 4 if deep else 3), 4)
            add('pairs', ('par', t, be, auto, 4 if deep else 3), 4)
    return L


ASSUME = ['the bound on edges and vertices limits the operations offered, not their effect', 'edits that are refused raise ValueError',
          'the external-library backends (igraph, graph_tool, quizx) are optional and not covered']
BOUNDS = dict(quick='all sequences of 5 structural edits on <=4 vertices and <=4 edges, of 3 attribute edits, of 4 edits with chosen names; all sequences of 3-4 additions/removals/changes of parallel edges and loops on 16 type pairs and 4 triples; simple and multigraph backends',
              thorough='one more edit each')


def run():
    return core.main('C17', FAMILIES, tasks, ASSUME, BOUNDS)
