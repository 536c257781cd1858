"""C21: differences between diagrams (GraphDiff) and the undo stack of the editor, on every pair of diagrams and every edit sequence within the bounds."""
import contextlib, copy, itertools, json
from collections import Counter
from fractions import Fraction as F
import core, ref, big
from core import require, slice_iter
from diag import V, Spec, build
from ref import Z, X, HBOX, ZBOX, WIN, WOUT, WIO, BOUNDARY
import pyzx as zx
from pyzx.symbolic import Poly, new_var
from pyzx.utils import VertexType, EdgeType
import C18, C25

CLS = dict(simple=zx.graph.graph_s.GraphS, multigraph=zx.graph.multigraph.Multigraph)
GraphDiff = zx.graph.diff.GraphDiff


def pk(p):
    if isinstance(p, Poly):
        return ('poly', C25.key(p), tuple(sorted((x.name, x.is_bool) for x in p.free_vars()))) if p.free_vars() else C25.ev(p, {})
    return p


def dk(x):
    if isinstance(x, Poly):
        return ('poly', C25.key(x))
    if isinstance(x, (list, tuple)):
        return [dk(y) for y in x]
    if isinstance(x, dict):
        return {k: dk(y) for k, y in x.items()}
    if isinstance(x, (int, float, complex, F)) and not isinstance(x, bool):
        return complex(x)
    return x


def content(g):
    """what a diff speaks about"""
    vs = {v: (int(g.type(v)), pk(g.phase(v)), g.qubit(v), g.row(v), {k: dk(g.vdata(v, k)) for k in g.vdata_keys(v)}) for v in g.vertices()}
    return vs, Counter((tuple(sorted(g.edge_st(e))), int(g.edge_type(e))) for e in g.edges())


def differ(a, b):
    (va, ea), (vb, eb) = a, b
    if set(va) != set(vb):
        return 'vertices %s instead of %s' % (sorted(vb), sorted(va))
    for v in va:
        if va[v] != vb[v]:
            return 'vertex %s is %s instead of %s' % (v, vb[v], va[v])
    if ea != eb:
        return 'edges %s instead of %s' % (sorted(eb.items()), sorted(ea.items()))


# ---------------------------------------------------------------- diffs
def base(backend, auto):
    g = CLS[backend]()
    if backend == 'multigraph':
        g.set_auto_simplify(auto)
    for i, t in enumerate([BOUNDARY, Z, X, HBOX, BOUNDARY]):
        g.add_vertex(VertexType(t), i % 2, i, F(1, 2) if t == Z else None)
    g.add_edge((0, 1), EdgeType.SIMPLE)
    g.add_edge((1, 2), EdgeType.HADAMARD)
    g.add_edge((2, 3), EdgeType.SIMPLE)
    g.add_edge((2, 4), EdgeType.SIMPLE)
    g.set_vdata(1, 'k', [1, 'two', None])
    g.set_inputs((0,))
    g.set_outputs((4,))
    return g


def poly(g, name, b):
    g.variable_types[name] = b
    return new_var(name, g.variable_types)


def edits(backend):
    """single edits: name -> function; those that do not apply raise KeyError / AssertionError and are skipped"""
    def has(g, *v):
        assert all(x in g.vertices() for x in v)
    E = {}

    def E_(name, f):
        E[name] = f

    def addv(n, t, ph=None, q=2.5, r=7, lab=None, data=None):
        def f(g):
            assert n not in g.vertices()
            g.add_vertex_indexed(n)
            g.set_type(n, VertexType(t))
            if ph is not None:
                g.set_phase(n, ph)
            if q is not None:
                g.set_position(n, q, r)
            if lab is not None:
                zx.utils.set_z_box_label(g, n, lab)
            for k, x in (data or {}).items():
                g.set_vdata(n, k, copy.deepcopy(x))
        return f
    E_('new Z', addv(5, Z))
    E_('new X phase', addv(5, X, F(7, 4)))
    E_('new bare', addv(5, BOUNDARY, q=None))
    E_('new H', addv(9, HBOX, F(1, 3)))
    E_('new H one', addv(9, HBOX, F(1), 0, 0))
    E_('new Z box', addv(5, ZBOX, lab=1 + 2j))
    E_('new Z box frac', addv(5, ZBOX, lab=F(-1, 3)))
    E_('new data', addv(6, Z, F(12345, 54321), data={'x': {'y': [1, 2.5, 1j]}, 'label': 'text'}))

    def W(g):
        assert 6 not in g.vertices() and 7 not in g.vertices()
        addv(6, WIN)(g)
        addv(7, WOUT, q=3, r=8)(g)
        g.add_edge((6, 7), EdgeType.W_IO)
    E_('new W', W)
    for v in (0, 1, 2, 3):
        E_('remove %d' % v, lambda g, v=v: (has(g, v), g.remove_vertex(v)))
        for t in (Z, X, HBOX, ZBOX):
            E_('type %d %d' % (v, t), lambda g, v=v, t=t: (has(g, v), g.set_type(v, VertexType(t))))
    for p in (F(0), F(1), F(3, 4), F(1, 1009)):
        E_('phase 1 %s' % p, lambda g, p=p: (has(g, 1), g.set_phase(1, p)))
    E_('phase 2 int', lambda g: (has(g, 2), g.set_phase(2, 1)))
    E_('phase H', lambda g: (has(g, 3), g.set_phase(3, F(0))))
    E_('poly', lambda g: (has(g, 1), g.set_phase(1, poly(g, 'a', False) + F(1, 4))))
    E_('poly bool', lambda g: (has(g, 2), g.set_phase(2, F(3, 2) * poly(g, 'b', True) * poly(g, 'c', True))))
    E_('position', lambda g: (has(g, 1), g.set_position(1, -1.5, 0.1)))
    E_('row', lambda g: (has(g, 2), g.set_row(2, 1 / 3)))
    E_('data', lambda g: (has(g, 2), g.set_vdata(2, 'k', {'n': True})))
    E_('data changed', lambda g: (has(g, 1), g.set_vdata(1, 'k', 'other'), g.set_vdata(1, 'l', 2 - 1j)))
    E_('no data', lambda g: (has(g, 1), g._vdata.pop(1, None)))
    E_('label', lambda g: (has(g, 2), g.set_type(2, VertexType.Z_BOX), zx.utils.set_z_box_label(g, 2, -0.5 + 0.25j)))
    E_('poly label', lambda g: (has(g, 3), g.set_type(3, VertexType.Z_BOX), zx.utils.set_z_box_label(g, 3, poly(g, 'a', False) * 2)))
    prs = list(itertools.combinations(range(6), 2)) + ([(1, 1)] if backend == 'multigraph' else [])
    for a, b in prs:
        for t in (1, 2):
            def add(g, a=a, b=b, t=t):
                has(g, a, b)
                assert backend == 'multigraph' or not g.connected(a, b)
                g.add_edge((b, a) if t == 2 else (a, b), EdgeType(t))
            if b < 5 or t == 1:
                E_('edge %d-%d %d' % (a, b, t), add)
    for a, b in [(0, 1), (1, 2), (2, 3), (2, 4)]:
        def rem(g, a=a, b=b):
            has(g, a, b)
            assert g.connected(a, b)
            g.remove_edge(next(iter(g.edges(a, b))) if backend == 'multigraph' else g.edge(a, b))
        E_('cut %d-%d' % (a, b), rem)

        def tog(g, a=a, b=b):
            has(g, a, b)
            assert g.connected(a, b)
            e = next(iter(g.edges(a, b))) if backend == 'multigraph' else g.edge(a, b)
            g.set_edge_type(e, EdgeType(3 - g.edge_type(e)))
        E_('toggle %d-%d' % (a, b), tog)
    return E


def do(g, E, seq):
    for n in seq:
        try:
            E[n](g)
        except AssertionError:
            return None
    return g


def pair_case(rep, key, g, h, backend, js=True):
    rep.state(key)
    with rep.case(key, dict(backend=backend)):
        fg, fh = C18.full(g), C18.full(h)
        cg, ch = content(g), content(h)
        for a, b, cb, d in ((g, h, ch, 'there'), (h, g, cg, 'back')):
            diff = GraphDiff(a, b)
            rep.step()
            r = diff.apply_diff(a)
            w = differ(cb, content(r))
            require(w is None, '%s: %s', d, w)
            require(type(r) is type(a) and r is not a, '%s: result', d)
            require((C18.full(g), C18.full(h)) == (fg, fh), 'applying the diff changes a diagram')
            require(r._auto_simplify == a._auto_simplify if backend == 'multigraph' else True, 'settings of the graph')
            names = {x.name for x in free(b)}
            require(all(r.variable_types.get(n) == b.variable_types[n] for n in names), 'types of the variables')
            v = r.add_vertex(VertexType.Z)
            require(v not in b.vertices() and r.vertex_degree(v) == 0, 'new vertex after applying')
            if js:
                t = diff.to_json()
                d2 = GraphDiff.from_json(t)
                rep.step()
                r2 = d2.apply_diff(a)
                w = differ(cb, content(r2))
                require(w is None, '%s, from JSON: %s', d, w)
                require(all(r2.variable_types.get(n) == b.variable_types[n] for n in names), 'from JSON: types of the variables')
                require(all(isinstance(r2.type(v), VertexType) for v in r2.vertices()) and all(isinstance(r2.edge_type(e), EdgeType) for e in r2.edges()), 'from JSON: kinds of types')
                require(d2.to_json() == t, 'reading and writing a diff changes it')
            # the diff is independent of everything else
            r = diff.apply_diff(a)
            mangle(r)
            require((C18.full(g), C18.full(h)) == (fg, fh), 'editing the result changes a diagram')
            require(differ(cb, content(diff.apply_diff(a))) is None, 'editing the result changes the diff')
        diff = GraphDiff(g, h)
        hh = copy.deepcopy(h)
        mangle(hh)
        diff = GraphDiff(g, hh2 := copy.deepcopy(h))
        mangle(hh2)
        require(differ(ch, content(diff.apply_diff(g))) is None, 'editing the second diagram changes the diff')
        rep.outcome('same' if cg == ch else 'different')


def free(g):
    out = set()
    for v in g.vertices():
        p = g.phase(v)
        if isinstance(p, Poly):
            out |= set(p.free_vars())
    return out


def mangle(g):
    for v in list(g.vertices()):
        for k in list(g.vdata_keys(v)):
            x = g.vdata(v, k)
            if isinstance(x, list):
                x.append('mangled')
            if isinstance(x, dict):
                x['mangled'] = 1
            g.set_vdata(v, k + '!', 1)
        g.set_phase(v, F(1, 11))
        g.set_position(v, 99, 99)
    for e in list(g.edges()):
        g.remove_edge(e)


MODES = [('simple', None), ('multigraph', False), ('multigraph', True)]


def fam_diff(rep, backend, auto, depth, left, i, k):
    """all pairs of a diagram reached with `left` edits and one reached with `depth` edits"""
    E = edits(backend)
    names = list(E)
    seqs = itertools.chain.from_iterable(itertools.product(names, repeat=d) for d in range(depth + 1)) if left == 0 else itertools.product(itertools.product(names, repeat=left), itertools.product(names, repeat=depth))
    seen = set()
    for s in slice_iter(seqs, i, k):
        l, r = ((), s) if left == 0 else s
        g, h = do(base(backend, auto), E, l), do(base(backend, auto), E, r)
        if g is None or h is None:
            continue
        key = '%s %s: %s / %s' % (backend, auto, ', '.join(l), ', '.join(r))
        pair_case(rep, key, g, h, backend)


def fam_kinds(rep, backend, i, k):
    """diagrams of all kinds against each other, vertex names as they come"""
    pool = list(itertools.islice(C18.all_kinds(2), 0, None, 7))[:60] + list(C18.w_diagrams())[:10]
    pool += list(itertools.islice(C18.multi_diagrams(), 0, None, 5))[:30] if backend == 'multigraph' else []
    for a, b in slice_iter(itertools.product(range(len(pool)), repeat=2), i, k):
        if a > b:
            continue
        try:
            g, h = build(pool[a], backend, auto=False if backend == 'multigraph' else None), build(pool[b], backend, auto=False if backend == 'multigraph' else None)
        except ValueError as ex:
            if C18.refused(ex):
                continue
            raise
        pair_case(rep, '%s %s / %s' % (backend, pool[a].show(), pool[b].show()), g, h, backend)


# ---------------------------------------------------------------- the editor
class Output(object):
    failed = None

    def __enter__(self):
        import sys
        self.failed = str(sys.exc_info()[1]) if sys.exc_info()[1] is not None else 'message'
        return self

    def __exit__(self, *a):
        return False


class Label(object):
    value = ''


TRAITS = ('graph_json', 'graph_selected', 'button_clicked', 'action', 'last_operation', 'graph_buttons')


def make_widget(g, scale, **kw):
    """the widget of the editor with a minimal stand-in for the notebook front end: assigning a trait notifies the observers if the value changes"""
    from pyzx import editor
    editor.widgets.Output = Output
    editor.widgets.Label = Label

    class W(editor.ZXEditorWidget):
        def observe(self, f, name):
            self.__dict__.setdefault('obs', {}).setdefault(name, []).append(f)

        def __setattr__(self, n, x):
            old = getattr(self, n, None)
            object.__setattr__(self, n, x)
            if n in TRAITS and old != x:
                for f in self.__dict__.get('obs', {}).get(n, []):
                    f(dict(name=n, old=old, new=x))
    for n in TRAITS:
        setattr(W, n, '')
    W.graph_selected = '{"nodes": [], "links": []}'
    W.graph_json = editor.graph_to_json(g, scale)
    W.graph_buttons = editor.operations_to_js()
    g.scale = scale
    return W(g, **kw)


def strip(js):
    d = json.loads(js)
    return dict(nodes=[{k: n[k] for k in ('name', 'x', 'y', 't', 'phase')} for n in d['nodes']], links=[{k: l[k] for k in ('source', 'target', 't')} for l in d['links']])


def state(g):
    vs = {v: (int(g.type(v)), pk(g.phase(v)) if g.type(v) != BOUNDARY else 0, round(g.qubit(v), 6) + 0.0, round(g.row(v), 6) + 0.0, bool(g.is_ground(v)),
              dk(zx.utils.get_z_box_label(g, v)) if g.type(v) == ZBOX else None) for v in g.vertices()}
    sc = g.scalar
    return vs, frozenset(((tuple(sorted(g.edge_st(e))), int(g.edge_type(e))) for e in g.edges())), tuple(g.inputs()), tuple(g.outputs()), (sc.power2, str(sc.phase), sorted(map(str, sc.phasenodes)), sc.floatfactor, sc.is_zero)


def near(a, b):
    if set(a[0]) != set(b[0]) or a[1:] != b[1:]:
        return False
    return all(x[:2] + x[4:] == y[:2] + y[4:] and abs(x[2] - y[2]) < 1e-5 and abs(x[3] - y[3]) < 1e-5 for v in a[0] for x, y in [(a[0][v], b[0][v])])


def wellformed(g):
    return g.is_well_formed() and all(sum(g.edge_type(e) == EdgeType.W_IO for e in g.incident_edges(v)) == 1 for v in g.vertices() if g.type(v) in (WIN, WOUT))


class Refused(Exception):
    pass


def read_phase(s, t):
    if s == '':
        return F(1) if t == HBOX else F(0)
    if '\u03c0' not in s:
        return F(s)
    a, b = s.split('\u03c0')
    return F(a + '1' if a in ('', '-') else a) / F(b[1:] or 1)


def starts():
    S = []
    g = zx.Graph()
    for t, q, r, p in [(BOUNDARY, 0, 0, None), (Z, 0, 1, F(1, 2)), (X, 0, 2.5, F(0)), (BOUNDARY, 0, 4, None), (HBOX, 1, 2, F(1)), (BOUNDARY, 1, 0, None)]:
        g.add_vertex(VertexType(t), q, r, p)
    for a, b, t in [(0, 1, 1), (1, 2, 1), (2, 3, 2), (1, 4, 1), (4, 5, 1)]:
        g.add_edge((a, b), EdgeType(t))
    g.set_inputs((0, 5))
    g.set_outputs((3,))
    g.scalar.add_power(3)
    g.scalar.add_phase(F(1, 4))
    S.append(g)
    h = g.clone()          # vertex names with holes, a Z-box, a discard, an exact and a symbolic phase
    h.remove_vertex(1)
    for t, q, r, p in [(ZBOX, 2, 1, None), (Z, 2, 2, F(5, 1009)), (Z, 1.25, 3, None), (X, 2, 3, None)]:
        h.add_vertex(VertexType(t), q, r, p)
    zx.utils.set_z_box_label(h, 6, 2 - 1j)
    h.set_phase(8, poly(h, 'a', False) + F(1, 2))
    h.set_ground(9, True)
    for a, b, t in [(0, 6, 1), (6, 7, 2), (7, 8, 1), (7, 2, 1), (4, 9, 1)]:
        h.add_edge((a, b), EdgeType(t))
    S.append(h)
    w = zx.Graph()
    for t, q, r in [(BOUNDARY, 0, 0), (WIN, 0, 1), (WOUT, 0, 1.5), (BOUNDARY, 0, 3), (WIN, 1, 2), (WOUT, 1, 2.5), (BOUNDARY, 1, 4), (Z, 2, 4)]:
        w.add_vertex(VertexType(t), q, r)
    for a, b, t in [(0, 1, 1), (1, 2, 3), (2, 3, 1), (2, 4, 1), (4, 5, 3), (5, 6, 1), (5, 7, 1)]:
        w.add_edge((a, b), EdgeType(t))
    w.set_inputs((0,))
    w.set_outputs((3, 6))
    S.append(w)
    S.append(zx.Graph())
    return S


NEWPH = ['', '\u03c0', '\u03c0/2', '-\u03c0/4', '3\u03c0/2', '0', '-1\u03c0', '17\u03c0/300']


def vtype(f, v):
    return next(x['t'] for x in f['nodes'] if x['name'] == v)


def actions(w, full):
    """all actions the user can take in this state"""
    f = strip(w.graph_json)
    names = [n['name'] for n in f['nodes']]
    out = [('undo',), ('redo',)]
    pick = names if full else names[1:3]
    for v in pick:      # the two halves of a W node stay together
        if vtype(f, v) not in (WIN, WOUT):
            out.append(('delete', v))
    for l in f['links']:
        if l['t'] == 3 and full:
            out.append(('delete two', l['source'], l['target']))
    plain = [v for v in names if vtype(f, v) not in (WIN, WOUT)]
    if len(plain) > 2:
        out.append(('delete two', plain[1], plain[-1]))
    for l in f['links'][:len(f['links']) if full else 1]:
        if l['t'] == 3:
            continue
        out.append(('cut', l['source'], l['target']))
    out += [('add', t) for t in ((Z, X, HBOX, BOUNDARY) if full else (X,))]
    pr = [(a, b) for a, b in itertools.combinations(names, 2) if not w.graph.connected(a, b)]
    for a, b in (pr if full else pr[:1]):
        for t in ((1, 2) if full else (2,)):
            out.append(('link', a, b, t) if t == 1 else ('link', b, a, t))
    zxv = [n for n in f['nodes'] if n['t'] in (Z, X, HBOX)]
    for n in (zxv if full else zxv[:1]):
        for p in (NEWPH if full else NEWPH[2:3]):
            if p != n['phase']:
                out.append(('phase', n['name'], p))
    if names:
        out.append(('move', names[-1]))
    from pyzx.editor_actions import operations
    if names:
        out += [('op', o) for o in (operations if full else ('spider', 'to_x', 'id_z', 'bialgebra'))]
        if full:
            out += [('op', o, v) for o in ('to_z', 'to_x', 'rem_id', 'z_to_z_box', 'euler', 'id_z') for v in names[1:3]]
        out += [('update',), ('paste',)]
        if full:
            out += [('update unchanged',), ('snapshot',), ('copy',)]
    return out


class Play(object):
    def __init__(self, g, scale, rep, **kw):
        self.w = make_widget(g, scale, **kw)
        self.hist = [state(g)]
        self.at = 0
        self.rep = rep
        self.maxname = max(g.vertices(), default=0)
        self.ok()

    def ok(self):
        o = self.w.output
        require(o.failed is None, 'the editor reports an error: %s', o.failed)

    def act(self, a):
        w, g = self.w, self.w.graph
        before = state(g)
        n = len(w.undo_stack)
        want = None
        self.rep.step()
        kind = a[0]
        if kind in ('undo', 'redo'):
            to = self.at + (-1 if kind == 'undo' else 1)
            w.action = kind
            self.ok()
            require(w.action == '', 'the button %s stays pressed', kind)
            if 0 <= to < len(self.hist):
                self.at = to
            require(near(self.hist[self.at], state(g)), '%s gives %s instead of %s', kind, state(g), self.hist[self.at])
            require(len(w.undo_stack) == n, 'undo stack')
            self.front()
            return
        if kind in ('delete', 'delete two', 'cut', 'add', 'link', 'phase', 'move'):
            f = strip(w.graph_json)
            vs, es, ins, outs, sc = before
            vs, es = dict(vs), set(es)
            if kind.startswith('delete'):
                f['nodes'] = [x for x in f['nodes'] if x['name'] not in a[1:]]
                f['links'] = [l for l in f['links'] if l['source'] not in a[1:] and l['target'] not in a[1:]]
                for v in a[1:]:
                    vs.pop(v)
                es = {e for e in es if not set(e[0]) & set(a[1:])}
                ins, outs = tuple(v for v in ins if v not in a[1:]), tuple(v for v in outs if v not in a[1:])
            elif kind == 'cut':
                f['links'] = [l for l in f['links'] if (l['source'], l['target']) != a[1:]]
                es = {e for e in es if e[0] != tuple(sorted(a[1:]))}
            elif kind == 'add':
                self.maxname = max(self.maxname, max(vs, default=0)) + 1
                x, y = 123.4 + 10 * len(vs), 77.7
                f['nodes'].append(dict(name=self.maxname, x=x, y=y, t=a[1], phase=''))
                vs[self.maxname] = (a[1], (F(1) if a[1] == HBOX else F(0)) if a[1] else 0, y / g.scale - 2, x / g.scale - 1, False, None)
            elif kind == 'link':
                f['links'].append(dict(source=a[1], target=a[2], t=a[3]))
                es.add((tuple(sorted(a[1:3])), a[3]))
            elif kind == 'phase':
                nd = next(x for x in f['nodes'] if x['name'] == a[1])
                nd['phase'] = a[2]
                vs[a[1]] = (vs[a[1]][0], read_phase(a[2], nd['t']) % 2) + vs[a[1]][2:]
            elif kind == 'move':
                nd = next(x for x in f['nodes'] if x['name'] == a[1])
                nd['x'], nd['y'] = nd['x'] + 33.3, nd['y'] - 11.1
                q, r = vs[a[1]][2:4]
                vs[a[1]] = vs[a[1]][:2] + (q - 11.1 / g.scale, r + 33.3 / g.scale) + vs[a[1]][4:]
            want = (vs, frozenset(es), ins, outs, sc)
            w.last_operation = kind
            w.graph_json = json.dumps(f)
        elif kind == 'op':
            f = strip(w.graph_json)
            sel = f if len(a) == 2 else dict(nodes=[x for x in f['nodes'] if x['name'] == a[2]], links=[l for l in f['links'] if a[2] in (l['source'], l['target'])])
            w.graph_selected = json.dumps(sel)
            self.ok()
            require(near(before, state(g)) and len(w.undo_stack) == n, 'selecting changes the diagram')
            act = json.loads(w.graph_buttons)[a[1]]['active']
            val = None
            if not any(g.is_ground(v) or isinstance(g.phase(v), Poly) for v in g.vertices()) and wellformed(g):
                val = self.value(g)
            w.last_operation = a[1]
            w.button_clicked = a[1]
            if w.output.failed and ('unreducible parallel edge' in w.output.failed or 'self-loop' in w.output.failed):
                raise Refused()      # the simple backend cannot hold the result
            self.ok()
            require(w.button_clicked == '', 'the button %s stays pressed', a[1])
            s = json.loads(w.graph_selected)
            require(all(x['name'] in g.vertices() for x in s['nodes']), 'the selection has removed vertices')
            if not act:
                want = before
            elif val is not None and near(before, state(g)) is False:
                x = self.value(g)
                require(ref.close(x, val), 'the operation %s changes the linear map', a[1])
        elif kind == 'update':
            v = list(g.vertices())[0]
            u = g.add_vertex(VertexType.Z, 3, 3, F(1, 4))
            if g.type(v) != BOUNDARY:
                g.add_to_phase(v, F(1, 4))
            g.scalar.add_phase(F(1, 8))
            w.last_operation = 'python'
            want = state(g)
            w.update()
        elif kind == 'update unchanged':
            want = before
            w.update()
        elif kind == 'snapshot':
            want = before
            m = len(w.snapshots)
            w.action = 'snapshot'
            require(len(w.snapshots) == m + 1 and C18.plain(w.snapshots[-1], False) == C18.plain(g, False) and w.snapshots[-1] is not g, 'snapshot')
        elif kind in ('copy', 'paste'):
            import pyzx.editor as ed
            clip = []

            class pc(object):
                copy = staticmethod(clip.append)
                paste = staticmethod(lambda: PASTE)
            ed.pyperclip = pc
            if kind == 'copy':
                want = before
                f = strip(w.graph_json)
                w.graph_selected = json.dumps(dict(nodes=[x for x in f['nodes'] if x['name'] not in g.grounds()], links=[]))
                if not any(isinstance(g.phase(v), Poly) for v in g.vertices()) and wellformed(g):
                    w.action = 'copy'
                    require(len(clip) == 1, 'clipboard')
                    h = zx.tikz.tikz_to_graph(clip[0], warn_overlap=False)
                    require(h.num_vertices() >= g.num_vertices() - len(g.grounds()), 'copied diagram')
            else:
                w.action = 'paste'
                vs, es, ins, outs, sc = state(g)
                require(set(before[0].items()) <= set(vs.items()) and before[1] <= es and (ins, outs, sc) == before[2:] and len(vs) == len(before[0]) + 3 and len(es) == len(before[1]) + 2, 'paste')
        self.ok()
        now = state(g)
        if want is not None:
            require(near(want, now), '%s gives %s instead of %s', a, now, want)
        m = len(w.undo_stack)
        changed = not near(now, before)
        pos = len(self.hist) if self.at == len(self.hist) - 1 else self.at + 1
        if changed or w.undo_position == 1 and (m, 1) != (n, len(self.hist) - self.at):
            require(w.undo_position == 1, 'an edit leaves the redo entries')
            self.hist = self.hist[:self.at + 1]
            if changed or m > len(self.hist):
                self.hist.append(now)
            self.at = len(self.hist) - 1
            require(m == len(self.hist), '%d entries on the undo stack instead of %d', m, len(self.hist))
        else:
            require(m == n, 'undo stack grows without an edit')
        self.front()

    def value(self, g):
        h = g.clone()
        b = [v for v in h.vertices() if h.type(v) == BOUNDARY]
        h.set_inputs(())
        h.set_outputs(tuple(sorted(b)))
        return ref.value(h)

    def front(self):
        """what the front end shows is the diagram"""
        f = json.loads(self.w.graph_json)
        g = self.w.graph
        require(sorted(x['name'] for x in f['nodes']) == sorted(g.vertices()), 'the front end shows other vertices')
        require(sorted((min(l['source'], l['target']), max(l['source'], l['target']), l['t']) for l in f['links']) == sorted(tuple(sorted(g.edge_st(e))) + (int(g.edge_type(e)),) for e in g.edges()), 'the front end shows other edges')
        for x in f['nodes']:
            v = x['name']
            require(x['t'] == g.type(v) and abs(x['x'] / g.scale - 1 - g.row(v)) < 1e-6 and abs(x['y'] / g.scale - 2 - g.qubit(v)) < 1e-6, 'the front end shows vertex %s elsewhere', v)
            if g.type(v) != BOUNDARY and not isinstance(g.phase(v), Poly):
                require(read_phase(x['phase'], x['t']) % 2 == g.phase(v), 'the front end shows phase %s of vertex %s', x['phase'], v)


_t = zx.Graph()
for _i in range(3):
    _t.add_vertex(VertexType(1 + _i % 2), -1, _i - 2, F(1, 4) if _i else None)
_t.add_edge((0, 1), EdgeType.SIMPLE)
_t.add_edge((1, 2), EdgeType.SIMPLE)
PASTE = _t.to_tikz()


def replay(rep, si, scale, seq, kw):
    p = Play(starts()[si].clone(), scale, rep, **kw)
    for a in seq:
        p.act(a)
    return p


def fam_editor(rep, si, scale, full, depth, i, k):
    """all sequences of actions up to the depth; then undo everything and redo everything"""
    kw = dict(show_scalar=True) if si == 0 and full else {}
    n = 0
    stack = [()]
    while stack:
        seq = stack.pop()
        if len(seq) == 1:
            n += 1
            if (n - 1) % k != i:
                continue
        key = '%d x%s %s' % (si, scale, seq)
        acts = None
        with rep.case(key, dict(start=si)):
            rep.state(key)
            try:
                p = replay(rep, si, scale, seq, kw)
            except Refused:
                rep.outcome('refused')
                continue
            acts = actions(p.w, full and len(seq) < 1) if len(seq) < depth else []
            if len(seq) == depth or not full:
                m = len(p.hist)
                for _ in range(m + 1):
                    p.act(('undo',))
                require(p.at == 0, 'undo does not reach the first state')
                for _ in range(m + 1):
                    p.act(('redo',))
                require(p.at == m - 1, 'redo does not reach the last state')
            rep.outcome(len(p.hist))
        for a in reversed(acts or []):
            stack.append(seq + (a,))


def fam_big(rep, step, backend, i, k):
    """larger diagrams against neighbours, against far ones and against themselves with a run of vertices or edges missing or changed"""
    pool = list(big.mixed(4, 6, step, True))

    def mk(s):
        return build(s, backend, auto=False if backend == 'multigraph' else None)

    def without(w, r, n):
        def f(g):
            vs = list(g.vertices())
            if w == 'v':
                g.remove_vertices((vs[r:] + vs[:r])[:n])
            elif w == 'e':
                g.remove_edges((list(g.edges())[r:] + list(g.edges())[:r])[:n])
            else:
                for j, v in enumerate((vs[r:] + vs[:r])[:n]):
                    g.set_phase(v, F(j, 5))
                    g.set_position(v, j, -j)
                    g.set_vdata(v, 'd', [j])
                es = list(g.edges())
                for e in (es[r:] + es[:r])[:n // 2]:
                    if int(g.edge_type(e)) != WIO:
                        g.set_edge_type(e, EdgeType(3 - int(g.edge_type(e))))
        return f
    cs = []
    for a in range(len(pool)):
        cs += [(a, (a + d) % len(pool), None) for d in (1, 7)]
        cs += [(a, a, (w, r, n)) for w in 'vec' for r, n in ((0, 5), (1, 4), (2, 6))]
    for a, b, e in slice_iter(cs, i, k):
        try:
            g, h = mk(pool[a]), mk(pool[b])
            if e is not None:
                without(*e)(h)
        except ValueError as ex:
            if C18.refused(ex):
                continue
            raise
        pair_case(rep, '%s %s / %s' % (backend, pool[a].show(), e or pool[b].show()), g, h, backend)


FAMILIES = dict(big=fam_big, diff=fam_diff, kinds=fam_kinds, editor=fam_editor)


def tasks(tier):
    t = []
    for b, auto in MODES:
        n = 8 if tier == 'quick' else 24
        t += [('diff', (b, auto, 1 if tier == 'quick' else 2, 0, i, n)) for i in range(n)]
        t += [('diff', (b, auto, 1, 1, i, n)) for i in range(n)]
    if tier == 'thorough':
        t += [('diff', (b, auto, 2, 1, i, 160)) for b, auto in MODES for i in range(160)]
    t += [('kinds', (b, i, 4)) for b in CLS for i in range(4)]
    t += [('big', (9 if tier == 'thorough' else 90, b, i, 64 if tier == 'thorough' else 16)) for b in CLS for i in range(64 if tier == 'thorough' else 16)]
    for si in range(4):
        t += [('editor', (si, 50, True, 2, i, 16)) for i in range(16)]
        t += [('editor', (si, 37.5 if si else 20, False, 3 if tier == 'quick' else 5, i, 8)) for i in range(8)]
        if tier == 'thorough':
            t += [('editor', (si, 41.3, True, 3, i, 64)) for i in range(64)]
    return t


def run():
    return core.main('C21', FAMILIES, tasks, assumptions=[
        'a diff covers vertices, types, phases, positions, vertex data, edges and variables; scalar, inputs/outputs and discards are not part of it',
        'data at vertices is what JSON can represent, or complex numbers, fractions and symbolic expressions as Z-box labels',
        'the front end of the editor is modelled: it sends the diagram in the JSON form of the widget; positions agree up to rounding'],
        exhaustive_note='all pairs of diagrams within the edit distance, all action sequences up to the depth')
