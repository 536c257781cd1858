"""C19: saving diagrams as JSON (and GraphML) and loading them again."""
import itertools, json
import xml.etree.ElementTree as ET
from collections import Counter
from fractions import Fraction as F
import core, ref
from core import require, slice_iter
from diag import V, Spec, build, enum_graphs
from ref import Z, X, HBOX, ZBOX, WIN, WOUT, WIO, BOUNDARY
import pyzx as zx
from pyzx.symbolic import Poly, new_var
from pyzx.utils import VertexType, EdgeType
import big, C01, C06, C18, C25

CLS = dict(simple=zx.graph.graph_s.GraphS, multigraph=zx.graph.multigraph.Multigraph)
RESERVED = ('coord', 'boundary', 'input', 'output')


def lab(x):
    if isinstance(x, Poly):
        return ('poly', C25.key(x))
    return ('number', complex(x))


def phase(g, v):
    p = g.phase(v)
    if isinstance(p, Poly) and p.free_vars():
        return ('poly', C25.key(p), tuple(sorted((x.name, x.is_bool) for x in p.free_vars())))
    return C25.ev(p, {})


def same(x, y):
    if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
        return len(x) == len(y) and all(same(a, b) for a, b in zip(x, y))
    if isinstance(x, dict) and isinstance(y, dict):
        return set(x) == set(y) and all(same(x[k], y[k]) for k in x)
    return x == y and isinstance(x, str) == isinstance(y, str)


def place(g):
    """distinct positions, not all of them integers"""
    for i, v in enumerate(g.vertices()):
        g.set_position(v, (i * 0.75 if i % 2 else i), (i * i) % 7 + (0.125 if i % 3 == 2 else 0))


def compare(g, h, scalar=True, names=()):
    """h is the copy of g that was read; vertices are matched by their positions"""
    pos = {}
    for v in g.vertices():
        pos[(round(g.row(v), 3), round(g.qubit(v), 3))] = v
    require(len(pos) == g.num_vertices(), 'harness: positions')
    require(h.num_vertices() == g.num_vertices(), '%d vertices instead of %d', h.num_vertices(), g.num_vertices())
    m = {}
    for v in h.vertices():
        k = (round(h.row(v), 3), round(h.qubit(v), 3))
        require(k in pos and pos[k] not in m.values(), 'no vertex of the diagram is at %s', k)
        m[v] = pos[k]
    require(h.num_edges() == g.num_edges(), '%d edges instead of %d', h.num_edges(), g.num_edges())

    def edges(x, m):
        return Counter((frozenset((m[a], m[b])), int(x.edge_type(e))) for e in x.edges() for a, b in [x.edge_st(e)])
    eg, eh = edges(g, {v: v for v in g.vertices()}), edges(h, m)
    require(eg == eh, 'edges %s instead of %s', sorted((sorted(map(str, k)), n, t) for (k, t), n in eh.items()), sorted((sorted(map(str, k)), n, t) for (k, t), n in eg.items()))
    for v in h.vertices():
        w = m[v]
        require(h.type(v) == g.type(w), 'type of vertex %s is %s', w, h.type(v))
        if g.type(w) != BOUNDARY:
            require(phase(g, w) == phase(h, v), 'phase of vertex %s is %s instead of %s', w, h.phase(v), g.phase(w))
        require(h.is_ground(v) == g.is_ground(w), 'discard at %s', w)
        kg, kh = set(g.vdata_keys(w)), set(h.vdata_keys(v))
        require(kg - {'name'} <= kh and kh <= kg | {'name', 'label'}, 'data of vertex %s: %s instead of %s', w, sorted(kh), sorted(kg))
        for key in kg:
            x, y = g.vdata(w, key), h.vdata(v, key)
            if key == 'name' and w in names:
                continue
            if key == 'label' and g.type(w) == ZBOX:
                require(lab(x) == lab(y), 'label of vertex %s is %s instead of %s', w, y, x)
            else:
                require(same(x, y), 'data %s of vertex %s is %r instead of %r', key, w, y, x)
        if g.type(w) == ZBOX:
            require(lab(zx.utils.get_z_box_label(g, w)) == lab(zx.utils.get_z_box_label(h, v)), 'label of vertex %s', w)
    require([m[v] for v in h.inputs()] == list(g.inputs()), 'inputs %s', [m[v] for v in h.inputs()])
    require([m[v] for v in h.outputs()] == list(g.outputs()), 'outputs %s', [m[v] for v in h.outputs()])
    used = {x.name for v in g.vertices() if isinstance(g.phase(v), Poly) for x in g.phase(v).free_vars()}
    for n in set(g.variable_types) | used:
        require(h.variable_types.get(n) == g.variable_types.get(n, h.variable_types.get(n)), 'type of variable %s', n)
    s, t = g.scalar, h.scalar
    if not scalar:
        s = zx.graph.scalar.Scalar()
    require(s.is_unknown == t.is_unknown, 'unknown scalar')
    require(s.is_zero == t.is_zero and s.power2 == t.power2 and s.phase == t.phase and list(map(str, s.phasenodes)) == list(map(str, t.phasenodes))
            and abs(s.floatfactor - t.floatfactor) < 1e-12 * max(1, abs(s.floatfactor)), 'scalar %s instead of %s', t.to_json(), s.to_json())


def all_of(g):
    s = g.scalar
    return C18.dump(g, False) if s.is_unknown else C18.full(g)


def roundtrip(rep, g, what, value=True, names=()):
    before = all_of(g)
    js = g.to_json()
    require(all_of(g) == before, 'saving changes the diagram')
    require(js == g.to_json(), 'saving twice gives different texts')
    rep.step()
    h = CLS[g.backend].from_json(js)
    require(h.backend == g.backend, 'read with backend %s', h.backend)
    compare(g, h, names=names)
    if value and not any(isinstance(g.phase(v), Poly) for v in g.vertices()):
        require(ref.close(ref.value(h), ref.value(g)) if not g.grounds() else True, 'another map')
    compare(g, CLS[g.backend].from_json(g.to_json(include_scalar=False)), scalar=False, names=names)
    # a second trip, now with names
    compare(h, CLS[g.backend].from_json(h.to_json()))
    require(h.to_json() == CLS[g.backend].from_json(h.to_json()).to_json(), 'saving what was read gives another text')
    return js, h


def other_backend(rep, g, js):
    if g.backend == 'simple':
        rep.step()
        h = CLS['multigraph'].from_json(js)
        compare(g, h)


def graphml(g):
    root = ET.fromstring(g.to_graphml().encode())
    ns = '{http://graphml.graphdrawing.org/xmlns}'
    gr = root.find(ns + 'graph')
    nodes = {}
    for n in gr.findall(ns + 'node'):
        require(n.get('id') not in nodes, 'graphml: two vertices %s', n.get('id'))
        nodes[n.get('id')] = {d.get('key'): d.text for d in n.findall(ns + 'data')}
    require(set(nodes) == {str(v) for v in g.vertices()}, 'graphml: vertices %s', sorted(nodes))
    for v in g.vertices():
        d = nodes[str(v)]
        require(int(d['type']) == int(g.type(v)), 'graphml: type of %s is %s', v, d['type'])
        require(d['phase'] == str(g.phase(v)), 'graphml: phase of %s is %s', v, d['phase'])
        require(float(d['x']) == g.row(v) * 100 and float(d['y']) == g.qubit(v) * 100, 'graphml: position of %s', v)
    es = Counter()
    for e in gr.findall(ns + 'edge'):
        d = {x.get('key'): x.text for x in e.findall(ns + 'data')}
        es[(frozenset((e.get('source'), e.get('target'))), int(d['etype']))] += 1
    want = Counter((frozenset(map(str, g.edge_st(e))), int(g.edge_type(e))) for e in g.edges())
    require(es == want, 'graphml: edges %s', es)


def case(rep, s, backend, variant):
    key = '%s %s v%d' % (s.show(), backend, variant)
    rep.state(key)
    with rep.case(key, dict(backend=backend)):
        g = build(s, backend, auto=False if backend == 'multigraph' else None)
        place(g)
        if variant:
            C18.decorate(g)
            if len(s.ins) > 1:
                g.set_inputs(tuple(reversed(s.ins)))
        js, h = roundtrip(rep, g, key, value=variant or len(s.verts) < 4)
        other_backend(rep, g, js)
        graphml(g)
        rep.outcome('restored')


def fam_diag(rep, src, args, backend, variant, i, k):
    if src == 'multi':
        it = C18.multi_diagrams()
    else:
        mod = big if src == 'mixed' else C18 if src in ('all_kinds', 'w_diagrams') else C06 if src == 'zh_specs' else C01
        it = getattr(mod, src)(*args)
    for s in slice_iter(it, i, k):
        case(rep, s, backend, variant)


# ---------------------------------------------------------------- parallel edges and self-loops
def fam_parallel(rep, i, k):
    """multigraphs: all combinations of up to 3 normal and 3 Hadamard edges and of self-loops"""
    cases = [(t, u, a, b, l1, l2, loops) for t, u in itertools.product((Z, X, HBOX, BOUNDARY), repeat=2) for a in range(4) for b in range(4)
             for l1 in range(3) for l2 in range(3) for loops in (0, 1) if not (loops == 0 and (l1 or l2)) and not (BOUNDARY in (t, u) and a + b > 1)
             and not (loops and BOUNDARY in (t, u))]
    for t, u, a, b, l1, l2, loops in slice_iter(cases, i, k):
        key = '%s %s %d- %d= loops %d %d %d' % (t, u, a, b, loops, l1, l2)
        rep.state(key)
        with rep.case(key, {}):
            g = zx.Graph('multigraph')
            g.set_auto_simplify(False)
            x = g.add_vertex(t, 0, 1, F(1, 4) if t != BOUNDARY else None)
            y = g.add_vertex(u, 1, 2, F(1, 2) if u != BOUNDARY else None)
            g.set_inputs(tuple(v for v in (x, y) if g.type(v) == BOUNDARY))
            for e, n in (((x, y), a), ((y, y), l1)):
                for _ in range(n):
                    g.add_edge(e, EdgeType.SIMPLE)
            for e, n in (((y, x), b), ((y, y), l2)):
                for _ in range(n):
                    g.add_edge(e, EdgeType.HADAMARD)
            roundtrip(rep, g, key, value=False)
            graphml(g)


# ---------------------------------------------------------------- names
def fam_names(rep, n, pool, i, k):
    """every assignment of names to the vertices of a small diagram with Hadamard edges"""
    for asg in slice_iter(itertools.product(pool, repeat=n), i, k):
        for tys in ((Z,) * n, (Z, BOUNDARY) + (X,) * (n - 2), (BOUNDARY,) + (Z,) * (n - 1)):
            key = 'names %s %s' % (asg, tys)
            rep.state(key)
            with rep.case(key, {}):
                g = zx.Graph()
                vs = [g.add_vertex(t, j, 2 * j + 1, F(1, j + 2) if t != BOUNDARY else None) for j, t in enumerate(tys)]
                for a, b in zip(vs, vs[1:]):
                    g.add_edge((a, b), EdgeType.HADAMARD)
                if n > 2:
                    g.add_edge((vs[0], vs[2]), EdgeType.SIMPLE)
                g.set_inputs(tuple(v for v in vs if g.type(v) == BOUNDARY))
                for v, nm in zip(vs, asg):
                    if nm is not None:
                        g.set_vdata(v, 'name', nm)
                dup = {v for v, nm in zip(vs, asg) if nm is None or not isinstance(nm, str) or asg.count(nm) > 1}
                # when the names are free they are kept
                roundtrip(rep, g, key, names=dup)


# ---------------------------------------------------------------- labels, phases, data, positions
LABELS = [0, 1, 2, -1, F(1, 2), F(2, 3), F(1, 300), F(-1, 4), F(0), 0.5, -2.25, 1e-9, 1j, 1 + 2j, -0.5j, 2 + 0j, complex(0, 1e-7), 1e300]
DATA = [None, True, False, 0, 1, -3, 2.5, '', 'text', '1', 'j', '1j', '(1+2j)', 'nan', 'inf', 'pi', [1, 2], ['j', '1'], {'a': '1', 'b': [1]}, {'re': 1, 'im': 2}, 1 + 2j, 'ünï"\\']
POS = [0, 1, -1, 0.5, 2.125, -3.001, 10, 100000, 1e7, 0.1]


def one_vertex(t=Z, p=None):
    g = zx.Graph()
    b = g.add_vertex(BOUNDARY, -7, -9)
    v = g.add_vertex(t, 3, 4, p)
    if t == HBOX and p == 0:
        g.set_phase(v, 0)
    g.add_edge((b, v), EdgeType.HADAMARD)
    g.set_inputs((b,))
    return g, b, v


def fam_values(rep, part, i, k):
    if part == 'phase':
        ps = sorted({F(a, b) for b in list(range(1, 20)) + [31, 32, 64, 100, 128, 255, 256, 257, 300, 1000, 12345, 10 ** 9 + 7] for a in (range(2 * b) if b < 20 else (1, 3, b - 1, b + 2, 2 * b - 1))})
        ps += [0.0, 0.5, 0.1, 1.25, 1e-5, 1e-12, 1.9999]
        for p in slice_iter(ps, i, k):
            for t in (Z, X, HBOX, ZBOX):
                with rep.case('phase %s %s' % (t, p), {}):
                    rep.state((t, str(p)))
                    g, b, v = one_vertex(t, p)
                    roundtrip(rep, g, p, value=t != ZBOX) # a Z-box with a phase has no map
    elif part == 'poly':
        for j, p in enumerate(slice_iter(C25.polys(1), i, k)):
            for t in (Z, X, HBOX):
                with rep.case('poly %s %s' % (t, p), {}):
                    rep.state((t, C25.key(p)))
                    g, b, v = one_vertex(t, p % 2)
                    for x in p.free_vars():
                        g.variable_types[x.name] = x.is_bool
                    roundtrip(rep, g, p)
        if i == 0:
            for n in ('j', 'e', 'e1', 'E', 'nan', 'inf', 'pi2', 'Theta', 'a_1', 'i', 'infinity', 'x', 'l', 'J'):
                for bl in (False, True):
                    for make in (lambda q: q, lambda q: 2 * q if not bl else q, lambda q: q + F(1, 2), lambda q: F(1, 2) * q, lambda q: -q, lambda q: q * q * 3):
                        g, b, v = one_vertex(Z)
                        p = make(new_var(n, g.variable_types if g.variable_types.__setitem__(n, bl) is None else None))
                        g.set_phase(v, p)
                        with rep.case('variable %s %s %s' % (n, bl, p), {}):
                            rep.state((n, bl, C25.key(p)))
                            roundtrip(rep, g, p)
    elif part == 'label':
        for l in slice_iter(LABELS, i, k):
            with rep.case('label %r' % (l,), {}):
                rep.state(str(l))
                g, b, v = one_vertex(ZBOX)
                zx.utils.set_z_box_label(g, v, l)
                roundtrip(rep, g, l, value=not isinstance(l, float) or l < 10)
        with rep.case('label without', {}):
            g, b, v = one_vertex(ZBOX)
            roundtrip(rep, g, None)
    elif part == 'data':
        for x, key in slice_iter(itertools.product(DATA, ('note', 'label', 'value', 'type', 'ty', 'x')), i, k):
            for t in (Z, X, HBOX, BOUNDARY):
                with rep.case('data %r %s %s' % (x, key, t), {}):
                    rep.state((str(x), key, t))
                    g, b, v = one_vertex(t if t != BOUNDARY else Z, F(1, 2))
                    if t == BOUNDARY:
                        v = b
                    g.set_vdata(v, key, x)
                    roundtrip(rep, g, x)
    elif part == 'position':
        for q, r in slice_iter(itertools.product(POS, repeat=2), i, k):
            with rep.case('position %s %s' % (q, r), {}):
                rep.state((q, r))
                g, b, v = one_vertex(Z, F(1, 2))
                g.set_position(v, q, r)
                _, h = roundtrip(rep, g, (q, r))
                rep.outcome('restored')
    elif part == 'scalar':
        from pyzx.graph.scalar import Scalar
        for pw, ph, nodes, fl, z, u in slice_iter(itertools.product((0, 3, -2), (0, F(1, 4), 1, F(7, 300)), ((), (F(1, 3),), (F(1, 4), F(5, 7))), (1, 0.5, 1j, 1e-3 - 2j), (False, True), (False, True)), i, k):
            with rep.case('scalar %s %s %s %s %s %s' % (pw, ph, nodes, fl, z, u), {}):
                rep.state((pw, ph, nodes, fl, z, u))
                g, b, v = one_vertex(Z, F(1, 2))
                s = g.scalar
                s.add_power(pw)
                s.add_phase(ph)
                for n in nodes:
                    s.add_node(n)
                s.add_float(fl)
                s.is_zero = z
                if u:
                    s.set_unknown()
                roundtrip(rep, g, s, value=not u)


# ---------------------------------------------------------------- order of the entries
def fam_order(rep, i, k):
    """reading does not depend on the order in which vertices and edges are listed, nor on which end of an edge is listed first"""
    specs = [Spec([V(BOUNDARY), V(Z, F(1, 4)), V(X, F(1, 2)), V(BOUNDARY)], es, [0], [3])
             for es in ([(0, 1, 1), (1, 2, 1), (2, 3, 1)], [(0, 1, 2), (1, 2, 1), (2, 3, 1)], [(0, 1, 1), (1, 2, 2), (2, 3, 1)], [(0, 3, 2), (1, 2, 1)], [(0, 1, 2), (1, 2, 2)])]
    specs.append(Spec([V(WIN), V(WOUT), V(Z, 1), V(BOUNDARY)], [(0, 1, 3), (1, 2, 1), (1, 3, 1)], [], [3]))
    jobs = []
    for s in specs:
        g = build(s)
        place(g)
        j = json.loads(g.to_json())
        es = list(j['undir_edges'].items())
        vs = list(j['node_vertices'].items())
        ws = list(j['wire_vertices'].items())
        top = list(itertools.permutations(('wire_vertices', 'node_vertices', 'undir_edges')))
        jobs += [(s, j, es, vs, ws, pe, pv, pw, fl, tp) for pe in itertools.permutations(range(len(es))) for pv in (tuple(range(len(vs))), tuple(reversed(range(len(vs)))))
                 for pw in itertools.permutations(range(len(ws))) for fl in range(min(1 << len(es), 16)) for tp in top[:1]]
        jobs += [(s, j, es, vs, ws, tuple(range(len(es))), pv, tuple(range(len(ws))), fl, tp) for pv in itertools.permutations(range(len(vs)))
                 for fl in (0, 5) for tp in top]
    for n, (s, j, es, vs, ws, pe, pv, pw, fl, tp) in enumerate(slice_iter(jobs, i, k)):
        key = 'order %s edges %s vertices %s wires %s flips %s %s' % (s.show(), pe, pv, pw, fl, tp)
        rep.state(key)
        with rep.case(key, {}):
            rep.step()
            e2 = [(a, dict(b, src=b['tgt'], tgt=b['src']) if fl >> m & 1 else b) for m, (a, b) in enumerate(es)]
            d = dict(wire_vertices=dict(ws[x] for x in pw), node_vertices=dict(vs[x] for x in pv), undir_edges=dict(e2[x] for x in pe))
            d = {x: d[x] for x in tp}
            d['variable_types'], d['scalar'] = j['variable_types'], j['scalar']
            g = build(s)
            place(g)
            for be in ('simple', 'multigraph'):
                h = CLS[be].from_json(json.dumps(d))
                compare(g, h)


def fam_foreign(rep, i, k):
    """files as Quantomatic writes them: missing parts, Hadamard nodes joined to each other, names of all kinds"""
    jobs = [(nh, nm, order, missing) for nh in range(5) for nm in range(3) for order in range(24) for missing in range(4)]
    for nh, nm, order, missing in slice_iter(jobs, i, k):
        key = 'chain of %d hadamard nodes, names %d, order %d, missing %d' % (nh, nm, order, missing)
        rep.state(key)
        with rep.case(key, {}):
            rep.step()
            nz = [['v0', 'v1', 'v2', 'v3', 'v4', 'v5', 'v6'], ['v3', 'v4', 'v5', 'v6', 'v7', 'v8', 'v9'], ['v6', 'a', 'v2', 'v1', 'h', '1', 'j']][nm]
            spider = {'annotation': {'coord': [1, -1]}}
            if missing & 1:
                spider['data'] = {'type': 'X', 'value': '\\pi/4'}
            other = {'annotation': {'coord': [2.5, 0]}, 'data': {'value': '3\\pi/4'}}
            nodes = {nz[0]: spider, nz[1]: other}
            for x in nz[2:2 + nh]:
                nodes[x] = {'annotation': {'coord': [0, 0]}, 'data': {'type': 'hadamard', 'is_edge': 'true'}}
            chain = [nz[0]] + nz[2:2 + nh] + [nz[1]]
            es = list(zip(chain, chain[1:])) + [('b0', nz[0]), (nz[1], 'b1')]
            o = order % len(es)
            es = es[o:] + es[:o]
            if order % 5 % 2:
                es = [(b, a) for a, b in reversed(es)]
            d = dict(wire_vertices={'b0': {'annotation': {'boundary': True, 'coord': [0, 0], 'input': 0}}, 'b1': {'annotation': {'boundary': True, 'coord': [4, 0], 'output': 0}}},
                     node_vertices=nodes, undir_edges={'e%d' % n: dict(src=a, tgt=b) for n, (a, b) in enumerate(es)})
            if missing & 2:
                d['variable_types'] = {}
            g = zx.Graph.from_json(json.dumps(d))
            a = Spec([V(BOUNDARY), V(BOUNDARY), V(X, F(1, 4)) if missing & 1 else V(Z, 0), V(Z, F(3, 4))] + [V(Z)] * max(0, nh - 1),
                     [(0, 2, 1), (1, 3, 1)], [0], [1])
            ch = [2] + list(range(4, 4 + max(0, nh - 1))) + [3]
            a.edges += [(x, y, 2 if nh else 1) for x, y in zip(ch, ch[1:])]
            require(ref.close(ref.value(g), a.value()), 'another map')
            require(g.num_inputs() == 1 and g.num_outputs() == 1, 'inputs and outputs')


def fam_wrong(rep, i, k):
    if i:
        return
    g, b, v = one_vertex(Z, F(1, 2))
    base = json.loads(g.to_json())

    def bad(what, edit):
        with rep.case('bad %s' % what, {}):
            rep.step()
            d = json.loads(json.dumps(base))
            edit(d)
            try:
                zx.Graph.from_json(json.dumps(d))
            except Exception:
                return rep.outcome('refused')
            require(False, '%s is accepted', what)
    n = [x for x, y in base['node_vertices'].items() if y['data']['type'] == 'Z'][0]
    hd = [x for x, y in base['node_vertices'].items() if y['data']['type'] != 'Z'][0]
    bad('unknown type', lambda d: d['node_vertices'][n]['data'].update(type='Y'))
    bad('unknown phase', lambda d: d['node_vertices'][n]['data'].update(value='1/'))
    bad('dangling edge', lambda d: d['undir_edges'].update(e9=dict(src=n, tgt='nowhere')))
    bad('Hadamard with three legs', lambda d: d['undir_edges'].update(e9=dict(src=n, tgt=hd)))
    bad('Hadamard with one leg', lambda d: d['undir_edges'].pop('e0'))
    bad('missing coord', lambda d: d['node_vertices'][n]['annotation'].pop('coord'))
    # the deprecated functions are the methods
    import contextlib, io
    with rep.case('deprecated functions', {}):
        with contextlib.redirect_stdout(io.StringIO()):
            require(zx.io.graph_to_json(g) == g.to_json(), 'graph_to_json')
            compare(g, zx.io.json_to_graph(g.to_json()))
            require(zx.io.to_graphml(g) == g.to_graphml(), 'to_graphml')


def fam_old(rep, gen, args, i, k):
    """the old writer and reader (force_deprecated_behavior): spiders and H-boxes, up to the scalar"""
    import contextlib, io
    if gen == 'values':
        for a, b in slice_iter([(a, b) for a in range(-9, 10) for b in range(1, 10)], i, k):
            for t in ('%d\\pi/%d' % (a, b), '%d \\pi/%d' % (a, b), '%d/%d' % (a, b)) + (('-\\pi/%d' % b,) if a == -1 else ('\\pi/%d' % b,) if a == 1 else ()) + \
                    (('%d\\pi' % a, str(a)) if b == 1 else ()) + (('-\\pi', '\\pi') if b == 1 and abs(a) == 1 else ()):
                rep.state(t)
                with rep.case('old %s' % t, {}):
                    js = json.dumps(dict(wire_vertices={}, node_vertices={'v0': {'annotation': {'coord': [0, 0]}, 'data': {'type': 'Z', 'value': t}}}, undir_edges={}))
                    with contextlib.redirect_stdout(io.StringIO()):
                        g = zx.io.json_to_graph(js, True)
                    want = F(a, b) if not t.startswith(('-\\pi', '\\pi')) else F(-1 if t[0] == '-' else 1, b)
                    require(g.phase(next(iter(g.vertices()))) == want % 2, '%s is read as %s', t, g.phase(next(iter(g.vertices()))))
        return
    mod = big if gen == 'mixed' else C18 if gen == 'all_kinds' else C06 if gen == 'zh_specs' else C01
    for s in slice_iter(getattr(mod, gen)(*args), i, k):
        if any(v[0] not in (BOUNDARY, Z, X, HBOX) or v[3] for v in s.verts) or s.ins != sorted(s.ins) or s.outs != sorted(s.outs):
            continue
        key = s.show()
        rep.sample(key)
        if not rep.state(key):
            continue
        with rep.case('old ' + key, dict(gen=gen)):
            g = build(s)
            with contextlib.redirect_stdout(io.StringIO()):
                t = zx.io.graph_to_json(g, True)
                h = zx.io.json_to_graph(t, True)
                d = json.loads(t)
                for e in d['undir_edges'].values():
                    e['src'], e['tgt'] = e['tgt'], e['src']
                h2 = zx.io.json_to_graph(json.dumps(d), True)
            rep.step()
            require(h2.edge_set() == h.edge_set() and all(h2.edge_type(e) == h.edge_type(e) for e in h.edges()), 'edges with their ends exchanged')
            require(len(h.inputs()) == len(g.inputs()) and len(h.outputs()) == len(g.outputs()), 'inputs or outputs')
            require(ref.prop(s.value(), ref.value(h)), 'another map')
            for a, b in zip(sorted(g.vertices(), key=lambda v: (g.type(v) == BOUNDARY, v)), h.vertices()):
                require((g.type(a), g.phase(a), g.row(a), g.qubit(a)) == (h.type(b), h.phase(b), h.row(b), h.qubit(b)), 'vertex %s', a)


FAMILIES = dict(old=fam_old, diag=fam_diag, parallel=fam_parallel, names=fam_names, values=fam_values, order=fam_order, foreign=fam_foreign, wrong=fam_wrong)


def tasks(tier):
    deep = tier == 'thorough'
    T = []

    def add(fam, args, n):
        for i in range(n):
            T.append((fam, tuple(args) + (i, n)))
    for be in ('simple', 'multigraph'):
        for v in (0, 1):
            add('diag', ('all_kinds', (2,), be, v), 8)
            add('diag', ('w_diagrams', (), be, v), 1)
            add('diag', ('zbox_specs', (2,), be, v), 1)
            add('diag', ('ground_specs', (2, (0, F(1, 4)), ((), (1,), (2,))), be, v), 2)
            add('diag', ('zx_specs', (2, [V(t, p) for t in (Z, X) for p in (0, F(3, 4))], ((), (1,), (2,), (1, 2))), be, v), 4)
        add('diag', ('mixed', (4, 6, 1 if deep else 3, True), be, 1), 8)
        add('diag', ('mixed', (4, 6, 1 if deep else 5, False), be, 0), 8)
        add('diag', ('zh_specs', (3, [V(Z, 0), V(HBOX, 1), V(HBOX, F(1, 2))], ((), (1,))), be, 1), 16)
    add('diag', ('multi', (), 'multigraph', 1), 4)
    if deep:
        for be in ('simple', 'multigraph'):
            add('diag', ('all_kinds', (3,), be, 1), 128)
            add('diag', ('zx_specs', (3, [V(t, p) for t in (Z, X) for p in (0, F(3, 4))], ((), (1,), (2,), (1, 2))), be, 1), 64)
    add('parallel', (), 8)
    add('names', (3, (None, 'v0', 'v1', 'v2', 'v3', 'b0', 'b1', 'x', '1', 'j')), 8)
    add('names', (2, (None, 'v0', 'v1', 'b0', 'b1', 'j', 0, 5, '')), 2)
    if deep:
        add('names', (4, (None, 'v0', 'v1', 'v2', 'v3', 'v4', 'b0', 'b1', 'x', '1', 'j')), 64)
    for p in ('phase', 'poly', 'label', 'data', 'position', 'scalar'):
        add('values', (p,), 8 if p != 'label' else 2)
    add('order', (), 16)
    add('foreign', (), 8)
    add('wrong', (), 1)
    add('old', ('values', ()), 4)
    add('old', ('zx_specs', (2, [V(t, p) for t in (Z, X) for p in (0, F(3, 4))], ((), (1,), (2,), (1, 2)))), 4)
    add('old', ('zh_specs', (3 if deep else 2, [V(Z, 0), V(HBOX, 1), V(HBOX, F(1, 2))], ((), (1,)))), 4)
    add('old', ('gl_specs', (3, (0, F(7, 4)), ((), (1,)))), 8)
    return T


ASSUME = ['positions are compared after rounding to three digits, which is what the format stores', 'vertex data are values JSON can express and complex numbers; the keys coord, boundary, input and output are reserved',
          'inputs and outputs are boundary vertices']
BOUNDS = dict(quick='all diagrams with <=2 spiders of every kind and both backends (3 for ZH), all multiplicities of parallel edges and loops <=3, all assignments of 10 names to 3 vertices, all orders of the entries of six files',
              thorough='diagrams with 3 spiders of every kind; names for 4 vertices')


def run():
    return core.main('C19', FAMILIES, tasks, ASSUME, BOUNDS)
