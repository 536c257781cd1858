"""C20: TikZ export and import. The writer is judged by an independent reader, the reader by an independent writer, and both by the round trip."""
import itertools, re, warnings
from collections import Counter
from fractions import Fraction as F
import core, ref
from core import require, slice_iter
from diag import V, Spec, build
from ref import Z, X, HBOX, ZBOX, WIN, WOUT, WIO, BOUNDARY
import pyzx as zx
from pyzx.utils import VertexType, EdgeType
from pyzx import tikz
import C01, C06, C18, C19, big

CLS = C19.CLS
STYLE = {'none': BOUNDARY, 'Z dot': Z, 'X dot': X, 'Z phase dot': Z, 'X phase dot': X, 'Z box': ZBOX, 'hadamard': HBOX, 'W triangle': WOUT, 'W input': WIN}
ESTYLE = {'': 1, 'hadamard edge': 2, 'W io edge': 3}
NODE = re.compile(r'\\node \[style=([^\],]*)\] \((\d+)\) at \((-?[\d.]+), (-?[\d.]+)\) \{(.*)\};$')
DRAW = re.compile(r'\\draw (?:\[style=([^\],]*)\] )?\((\d+)\) to \((\d+)\);$')


def number(t, ty):
    """the phase or label a text stands for"""
    t = t.strip('$')
    if t == '':
        return F(1) if ty in (HBOX, ZBOX) else F(0)
    m = re.match(r'\\frac\{(-?\d*)\\pi\}\{(\d+)\}$', t)
    if m:
        return F(int(m.group(1) + '1' if m.group(1) in ('', '-') else m.group(1)), int(m.group(2)))
    m = re.match(r'(-?\d*)\\pi$', t)
    if m:
        return F(int(m.group(1) + '1' if m.group(1) in ('', '-') else m.group(1)))
    require(ty == ZBOX, 'unreadable phase %r', t)
    return complex(t)


def read(text):
    """independent reader of the tikz that the writer produces: vertices {id: (type, phase, x, y)}, edges [(id, id, kind)]"""
    lines = [l.strip() for l in text.strip().splitlines()]
    require(lines[0] == r'\begin{tikzpicture}' and lines[-1] == r'\end{tikzpicture}', 'not a tikz picture')
    require(lines.count(r'\begin{pgfonlayer}{nodelayer}') == 1 and lines.count(r'\begin{pgfonlayer}{edgelayer}') == 1 and lines.count(r'\end{pgfonlayer}') == 2, 'layers')
    vs, es, layer = {}, [], None
    for l in lines[1:-1]:
        if not l:
            continue
        if l.startswith(r'\begin'):
            layer = l
        elif l.startswith(r'\end'):
            layer = None
        elif 'nodelayer' in layer:
            m = NODE.match(l)
            require(m, 'node %s', l)
            st, i, x, y, t = m.groups()
            require(st in STYLE, 'style %s', st)
            require(int(i) not in vs, 'two nodes have number %s', i)
            vs[int(i)] = (STYLE[st], number(t, STYLE[st]) if STYLE[st] != BOUNDARY else t, float(x), float(y), t, st)
        else:
            m = DRAW.match(l)
            require(m, 'edge %s', l)
            st, a, b = m.groups()
            require((st or '') in ESTYLE, 'style %s', st)
            require(int(a) in vs and int(b) in vs, 'the edge %s leads nowhere', l)
            es.append((int(a), int(b), ESTYLE[st or '']))
    return vs, es


def contract(vs, es):
    """Hadamard edges at a boundary stand for a Hadamard node on the wire"""
    vs, out = dict(vs), []
    for a, b, t in es:
        if t == 2 and BOUNDARY in (vs[a][0], vs[b][0]):
            h = (a, b, len(out))
            vs[h] = (HBOX, F(1), (vs[a][2] + vs[b][2]) / 2, (vs[a][3] + vs[b][3]) / 2)
            out += [(a, h, 1), (h, b, 1)]
        else:
            out.append((a, b, t))
    return vs, out


def content(g):
    vs = {}
    for v in g.vertices():
        t = int(g.type(v))
        vs[v] = (t, None if t == BOUNDARY else zx.utils.get_z_box_label(g, v) if t == ZBOX else g.phase(v), g.row(v), -g.qubit(v))
    return vs, [g.edge_st(e) + (int(g.edge_type(e)),) for e in g.edges()]


def match(want, got, what, dx=0.0, dy=0.0, exact=False):
    """same vertices (matched by position), phases, edges"""
    (wv, we), (gv, ge) = want, got
    wv, we = contract(wv, we)
    gv, ge = contract(gv, ge)
    require(len(wv) == len(gv), '%s: %d vertices instead of %d', what, len(gv), len(wv))
    m = {}
    for k, v in gv.items():
        c = [w for w, u in wv.items() if abs(u[2] + dx - v[2]) < 0.0051 and abs(u[3] + dy - v[3]) < 0.0051]
        require(len(c) == 1, '%s: %d vertices at %s', what, len(c), v[2:4])
        m[k] = c[0]
        u = wv[c[0]]
        require(u[0] == v[0], '%s: type of %s is %s', what, c[0], v[0])
        if u[0] != BOUNDARY:
            require(complex(u[1]) == complex(v[1]) if u[0] == ZBOX else (u[1] - v[1]) % 2 == 0, '%s: phase of %s is %s instead of %s', what, c[0], v[1], u[1])
    require(len(set(m.values())) == len(m), '%s: vertices', what)
    a = Counter((frozenset(e[:2]), e[2]) for e in we)
    b = Counter((frozenset((m[x], m[y])), t) for x, y, t in ge)
    require(a == b, '%s: edges %s instead of %s', what, sorted((sorted(map(str, k)), t, n) for (k, t), n in b.items()), sorted((sorted(map(str, k)), t, n) for (k, t), n in a.items()))
    return m


def spread(g):
    """positions such that no vertex is on the middle of two others"""
    for i, v in enumerate(g.vertices()):
        g.set_position(v, [0, 1, 3, 7, 0.25, 2.5, -1, 11, 6.75][i % 9], [0, 1, 4.5, 13, -2.25, 40, 28.33, 60, 90, 133, 201][i % 11])


def with_io(h, g, m):
    inv = {w: v for v, w in m.items()}
    h.set_inputs(tuple(inv[v] for v in g.inputs()))
    h.set_outputs(tuple(inv[v] for v in g.outputs()))
    return h


def case(rep, s, backend, key=None, want=None):
    key = '%s %s' % (s.show(), backend)
    rep.state(key)
    with rep.case(key, dict(backend=backend)):
        g = build(s, backend, auto=False if backend == 'multigraph' else None)
        spread(g)
        before = C18.full(g)
        t = g.to_tikz()
        require(C18.full(g) == before, 'exporting changes the diagram')
        rep.step()
        vs, es = read(t)
        for v in vs.values():
            if v[0] in (Z, X):
                require(('phase' in v[5]) == (v[1] != 0), 'style %s of a spider with phase %s', v[5], v[1])
        match(content(g), (vs, es), 'exported text')
        full = tikz.to_tikz(g, draw_scalar=True)
        lab = [l for l in full.splitlines() if r'\node' in l][0]
        require(g.scalar.to_latex() in lab, 'the scalar is not drawn')
        rest = '\n'.join(l for l in full.splitlines() if l != lab)
        match(content(g), read(rest), 'text with the scalar')
        h = CLS[backend].from_tikz(t)
        rep.step()
        require(h.backend == backend, 'backend %s', h.backend)
        if backend == 'simple' or all(n == 1 for n in Counter(frozenset(e[:2]) for e in es).values()) and not any(a == b for a, b, _ in es):
            m = match(content(g), content(h), 'imported diagram')
            if len(s.verts) <= 5 and not any(v[3] for v in s.verts):
                rv = ref.value(with_io(h, g, m))
                w = ref.value(g)
                require(ref.prop(rv, w) or abs(w).max() < 1e-9 and abs(rv).max() < 1e-9, 'another map')
        else:     # parallel edges are merged
            pv, _ = content(h)
            m = {v: [w for w, u in content(g)[0].items() if abs(u[2] - p[2]) < 0.0051 and abs(u[3] - p[3]) < 0.0051] for v, p in pv.items()}
            m = {v: w[0] for v, w in m.items() if len(w) == 1}
            rv, w = ref.value(with_io(h, g, m)), ref.value(g)
            require(ref.prop(rv, w) or abs(w).max() < 1e-9 and abs(rv).max() < 1e-9, 'another map')
        rep.outcome('restored')


def fam_diag(rep, src, args, backend, i, k):
    if src == 'multi':
        it = C18.multi_diagrams()
    else:
        mod = C18 if src in ('all_kinds', 'w_diagrams') else C06 if src == 'zh_specs' else C01
        it = getattr(mod, src)(*args)
    for s in slice_iter(it, i, k):
        if any(v[3] for v in s.verts):
            continue       # TikZ has no discards
        case(rep, s, backend)


def fam_values(rep, i, k):
    """phases and labels, positions"""
    ps = sorted({F(a, b) for b in list(range(1, 17)) + [31, 64, 257, 1000, 12345] for a in (range(2 * b) if b < 17 else (1, b - 1, b + 2, 2 * b - 1))})
    jobs = [('phase', t, p) for p in ps for t in (Z, X, HBOX)] + [('int', t, p) for p in (0, 1) for t in (Z, X, HBOX)] + \
           [('label', ZBOX, l) for l in [0, 1, -1, 2, F(1, 2), F(-1, 2), F(2, 3), F(0), F(1), F(-1), F(2), 0.5, -2.25, 1e-9, 1j, -1j, 1 + 2j, -1 + 0j, complex(0, 1e-7), -0.5 - 0.25j, 1e20]] + \
           [('nolabel', ZBOX, None)] + [('pos', q, r) for q in C19.POS for r in C19.POS if (q, r) != (-9, -7)]
    for kind, t, p in slice_iter(jobs, i, k):
        key = '%s %s %s' % (kind, t, p)
        rep.state(key)
        with rep.case(key, {}):
            rep.step()
            g, b, v = C19.one_vertex(t if kind != 'pos' else Z, p if kind in ('phase',) else None)
            if kind == 'int':
                g.set_phase(v, p)
            elif kind == 'label':
                zx.utils.set_z_box_label(g, v, p)
            elif kind == 'pos':
                g.set_position(v, t, p)
                g.set_phase(v, F(1, 2))
            w = content(g)
            x = g.to_tikz()
            match(w, read(x), 'exported text')
            match(w, content(zx.Graph.from_tikz(x)), 'imported diagram')


def fam_sequence(rep, n, names, i, k):
    """sequences of diagrams and circuits of all small shapes in one picture"""
    def shapes():
        c = zx.Circuit(2)
        c.add_gate('CNOT', 0, 1)
        c.add_gate('HAD', 0)
        c.add_gate('T', 1)
        yield 'circuit', c.to_graph()
        c = zx.Circuit(1)
        c.add_gate('HAD', 0)
        yield 'had', c.to_graph()
        g = build(Spec([V(Z, F(1, 4)), V(BOUNDARY), V(BOUNDARY), V(BOUNDARY), V(BOUNDARY), V(BOUNDARY)], [(0, j, 2) for j in range(1, 6)], [], [1, 2, 3, 4, 5]))
        spread(g)
        yield 'hstar', g
        g = build(Spec([V(BOUNDARY), V(BOUNDARY)], [(0, 1, 2)], [0], [1]))
        yield 'hwire', g
        g = build(Spec([V(X, 1)], [], [], []))
        yield 'dot', g
        g = build(Spec([V(WIN), V(WOUT), V(BOUNDARY), V(ZBOX, 0, 2 + 1j)], [(0, 1, 3), (1, 2, 1), (1, 3, 1)], [], [2]))
        spread(g)
        g.scalar.add_power(3)
        yield 'w', g
        g = zx.Graph()
        for j in (0, 3, 9):
            g.add_vertex_indexed(j)
            g.set_type(j, VertexType.Z)
            g.set_position(j, j, j + 0.5)
        g.add_edge((0, 9), EdgeType.HADAMARD)
        yield 'gaps', g
        yield 'empty', zx.Graph()
    sh = dict(shapes())
    for seq in slice_iter(itertools.product(sorted(names or sh), repeat=n), i, k):
        for scalar in (False, True):
            for width in (10, 3, 100):
                key = 'sequence %s %s %s' % (seq, scalar, width)
                rep.state(key)
                with rep.case(key, {}):
                    rep.step()
                    gs = [sh[x] for x in seq]
                    text = tikz.to_tikz_sequence(gs, scalar, width)
                    lines = text.splitlines()
                    if scalar:
                        labs = [l for l in lines if r'\node' in l and 'style=none' in l and not l.endswith('{};')]
                        want = sorted(g.scalar.to_latex() for g in gs if g.scalar.to_latex())
                        require(sorted(l[l.rindex(') {') + 3:-2] for l in labs) == want, 'scalars %s', labs)
                        blank = [l for l in lines if r'\node' in l and 'style=none' in l and l.endswith('{};')]
                    vs, es = read('\n'.join(l for l in lines if not scalar or l not in labs))
                    vs, es = contract(vs, es)
                    # the diagrams do not overlap, and each of them is there
                    deg = Counter(x for e in es for x in e[:2])
                    tot = Counter()
                    for g in gs:
                        wv, we = contract(*content(g))
                        tot.update((u[0], None if u[1] is None else complex(u[1]), sum(x in e[:2] for e in we)) for x, u in wv.items())
                        if scalar and not g.scalar.to_latex():
                            tot[(BOUNDARY, None, 0)] += 1
                    got = Counter((u[0], None if u[0] == BOUNDARY else complex(u[1]), deg[x]) for x, u in vs.items())
                    require(tot == got, 'vertices %s instead of %s', got, tot)
                    require(len(es) == sum(len(contract(*content(g))[1]) for g in gs), 'edges')
                    # vertices come in the order of the sequence: split them and compare
                    ids, at = sorted(vs, key=lambda x: x if isinstance(x, int) else max(x[:2])), 0
                    parts = []
                    for g in gs:
                        cnt = len(contract(*content(g))[0]) + (1 if scalar and not g.scalar.to_latex() else 0)
                        parts.append(ids[at:at + cnt])
                        at += cnt
                    places = []
                    for g, part in zip(gs, parts):
                        wv, we = contract(*content(g))
                        part = [x for x in part if not (vs[x][0] == BOUNDARY and deg[x] == 0)] if scalar else part
                        if not part:
                            continue
                        dx = min(vs[x][2] for x in part) - min(u[2] for u in wv.values())
                        dy = max(vs[x][3] for x in part) - max(u[3] for u in wv.values())
                        match((wv, we), ({x: vs[x] for x in part}, [e for e in es if e[0] in part]), 'a diagram of the sequence', dx, dy)


def fam_big(rep, leaves, sizes, backend, i, k):
    """regular diagrams with many vertices and edges"""
    for s in slice_iter(big.specs((V(Z, F(1, 4)), V(HBOX, 1), V(ZBOX, 0, 2 + 1j)), leaves, lo=sizes[0], hi=sizes[1], hb=((), (1,)), lb=((), (2,)), maxb=5), i, k):
        case(rep, s, backend)


SYN = {BOUNDARY: ['none', 'empty', 'boundary', 'None'], Z: tikz.synonyms_z + ['Z dot', 'Green Node'], X: tikz.synonyms_x + ['X Phase Dot'], HBOX: tikz.synonyms_hadamard + ['Hadamard'],
       WIN: tikz.synonyms_w_input, WOUT: tikz.synonyms_w_output, ZBOX: tikz.synonyms_z_box}


def text_of(nodes, edges, sp=''):
    return '\\begin{tikzpicture}\n%s\\begin{pgfonlayer}{nodelayer}\n%s\n%s\\end{pgfonlayer}\n%s\\begin{pgfonlayer}{edgelayer}\n%s\n%s\\end{pgfonlayer}\n\\end{tikzpicture}\n' % (
        sp, '\n'.join('\t\t\\node [%s] (%d) at (%s, %s) {%s};' % n for n in nodes), sp, sp, '\n'.join('\t\t\\draw %s(%s) to (%s);' % e for e in edges), sp)


def fam_reader(rep, i, k):
    """the reader on pictures as Tikzit writes them"""
    phases = [('', None), ('$\\pi$', 1), ('$-\\pi$', 1), ('$\\frac{\\pi}{2}$', F(1, 2)), ('$\\frac{-\\pi}{2}$', F(3, 2)), ('$\\frac{3\\pi}{4}$', F(3, 4)), ('$\\frac{\\pi}{4} $', F(1, 4)),
              ('$\\pi/2$', F(1, 2)), ('$3\\pi/4$', F(3, 4)), ('$-\\pi/4$', F(7, 4)), ('$2\\pi$', 0), ('$0$', 0), ('0', 0), ('$\\neg$', 1), ('$\\frac{ 5 \\pi}{ 4}$', F(5, 4)), ('$ \\pi $', 1), ('$\\ \\pi$', 1), ('$~\\pi$', 1)]
    jobs = []
    for t, syn in SYN.items():
        for st in syn:
            jobs.append(('node', t, st, '', None))
    for t in (Z, X, HBOX):
        for p, want in phases:
            jobs.append(('node', t, SYN[t][0], p, want))
    for p, want in [('$2$', 2), ('$0.5$', 0.5), ('$-1$', -1), ('$1j$', 1j), ('$(1+2j)$', 1 + 2j), ('$\\frac{\\pi}{2}$', F(1, 2)), ('$0$', 0), ('', 1), ('$-1.5$', -1.5)]:
        jobs.append(('node', ZBOX, 'Z box', p, want))
    for es, want in [('', 1), ('[style=empty] ', 1), ('[style=simple] ', 1), ('[style=none] ', 1), ('[style=hadamard edge] ', 2), ('[style=Hadamard Edge] ', 2), ('[style=hadamard edge, bend left] ', 2),
                     ('[bend left] ', 1), ('[bend right=30, style=hadamard edge] ', 2), ('[in=90, out=0] ', 1), ('[bend left, style=simple, looseness=1.25] ', 1)]:
        for a, b in (('0', '7'), ('7', '0'), ('0.center', '7'), ('7', '0.center')):
            jobs.append(('edge', es, a, b, want))
    for job in slice_iter(jobs, i, k):
        key = 'read %s' % (job,)
        rep.state(key)
        with rep.case(key, {}):
            rep.step()
            if job[0] == 'node':
                _, t, st, p, want = job
                x = text_of([('style=' + st, 7, '1.5', '-2.25', p), ('style=none', 0, '-3.0', '0', '')], [('', 0, 7)], '\t')
                for be in ('simple', 'multigraph'):
                    g = zx.tikz.tikz_to_graph(x, backend=be)
                    w = (content(g)[0])
                    v = [v for v in g.vertices() if g.row(v) == 1.5][0]
                    require(g.num_vertices() == 2 and g.num_edges() == 1 and g.type(v) == t and g.qubit(v) == 2.25, 'vertex %s at %s', g.type(v), g.qubit(v))
                    if t == ZBOX:
                        require(complex(zx.utils.get_z_box_label(g, v)) == complex(1 if want is None else want), 'label %s', zx.utils.get_z_box_label(g, v))
                    elif t in (Z, X, HBOX):
                        require(g.phase(v) == ((1 if t == HBOX else 0) if want is None else want), 'phase %s', g.phase(v))
            else:
                _, es, a, b, want = job
                x = text_of([('style=Z dot', 7, '1.5', '-2.25', ''), ('style=X dot', 0, '-3.0', '0', '')], [(es, a, b)])
                g = zx.tikz.tikz_to_graph(x)
                require([int(g.edge_type(e)) for e in g.edges()] == [want], 'edges %s', [g.edge_type(e) for e in g.edges()])
    if i == 0:
        two = [('style=Z dot', 0, '0', '0', ''), ('style=Z dot', 1, '0', '0', '$\\pi$'), ('style=none', 2, '1', '0', ''), ('style=none', 3, '2', '0', '')]
        x = text_of(two, [('', 0, 2), ('', 1, 3)])
        with rep.case('overlap', {}):
            try:
                zx.tikz.tikz_to_graph(x)
                require(False, 'overlapping vertices are accepted silently')
            except Warning:
                pass
            g = zx.tikz.tikz_to_graph(x, warn_overlap=False, fuse_overlap=False)
            require(g.num_vertices() == 4 and g.num_edges() == 2, 'not separate')
            g = zx.tikz.tikz_to_graph(x, warn_overlap=False)
            require(g.num_vertices() == 3 and g.num_edges() == 2, 'not fused')
        good = text_of([('style=Z dot', 0, '0', '0', '$\\frac{\\pi}{4}$'), ('style=none', 1, '1', '0', '')], [('', 0, 1)])
        bad = {'nothing': '', 'no begin': good.replace('\\begin{tikzpicture}', ''), 'no end': good.replace('\\end{tikzpicture}', ''), 'no node layer': good.replace('nodelayer', 'layer'),
               'no edge layer': good.replace('edgelayer', 'layer'), 'style': good.replace('Z dot', 'Y dot'), 'no style': good.replace('[style=Z dot]', ''), 'phase': good.replace('\\pi', 'x'),
               'fraction': good.replace('{4}', '{b}'), 'missing node': good.replace('to (1)', 'to (5)'), 'not a node': good.replace('\\node', '\\path', 1), 'not an edge': good.replace('\\draw', '\\path'),
               'position': good.replace('at (0, 0)', 'at (0)'), 'edge style': good.replace('\\draw (', '\\draw [style=wavy] ('), 'cut off': good[:good.index('\\draw')]}
        for n, t in bad.items():
            with rep.case('malformed: %s' % n, {}):
                rep.step()
                require(t != good, 'harness')
                try:
                    g = zx.tikz.tikz_to_graph(t)
                except Exception:
                    rep.outcome('refused')
                    continue
                require(False, 'accepted')
        with rep.case('ignore_nonzx', {}):
            for n in ('style', 'edge style', 'phase'):
                g = zx.tikz.tikz_to_graph(bad[n], ignore_nonzx=True)
                require(g.num_vertices() == 2 and g.num_edges() == 1, '%s', n)


FAMILIES = dict(big=fam_big, diag=fam_diag, values=fam_values, sequence=fam_sequence, reader=fam_reader)


def tasks(tier):
    deep = tier == 'thorough'
    T = []

    def add(fam, args, n):
        for i in range(n):
            T.append((fam, tuple(args) + (i, n)))
    zk = [V(t, p) for t in (Z, X) for p in (0, F(3, 4))]
    for be in ('simple', 'multigraph'):
        add('diag', ('all_kinds', (2,), be), 8)
        add('diag', ('w_diagrams', (), be), 1)
        add('diag', ('zbox_specs', (2,), be), 1)
        add('diag', ('zx_specs', (2, zk, ((), (1,), (2,), (1, 2), (2, 2))), be), 4)
        add('diag', ('zh_specs', (3, [V(Z, 0), V(HBOX, 1), V(HBOX, F(1, 2))], ((), (1,))), be), 16)
        if deep:
            add('diag', ('all_kinds', (3,), be), 128)
            add('diag', ('zx_specs', (3, zk, ((), (1,), (2,), (1, 2))), be), 64)
    add('diag', ('multi', (), 'multigraph'), 4)
    add('values', (), 8)
    add('sequence', (1, None), 1)
    add('sequence', (2, None), 2)
    add('sequence', (3, None), 8)
    add('sequence', (4, ('dot', 'circuit', 'hwire', 'gaps')), 2)
    add('sequence', (5, ('dot', 'hwire', 'empty')), 2)
    add('sequence', (7, ('dot', 'had')), 2)
    for be in ('simple', 'multigraph'):
        for lv in ((V(Z, 0), V(X, F(3, 4)), V(HBOX, 1)), (V(X, 1), V(ZBOX, 0, -1.0))):
            add('big', (lv, (4, 5) if not deep else (4, 7), be), 4 if not deep else 16)
    if deep:
        add('sequence', (4, None), 32)
    add('reader', (), 4)
    return T


ASSUME = ['phases are rational multiples of pi (symbolic and floating-point phases are not read back) and there are no discards, for which TikZ has no notation',
          'inputs and outputs are not part of a picture: boundaries are matched by their positions', 'a Hadamard edge at a boundary is drawn with a Hadamard node and comes back as an H-box',
          'positions are distinct after rounding to two digits']
BOUNDS = dict(quick='all diagrams with <=2 spiders of every kind (3 for ZH), all phases with denominators <=16 and some larger, all sequences of <=3 of eight diagrams, all styles and phase notations of the reader',
              thorough='diagrams with 3 spiders, sequences of four')


def run():
    return core.main('C20', FAMILIES, tasks, ASSUME, BOUNDS)
