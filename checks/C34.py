"""C34: what is shown: numbers and matrices in LaTeX read back by an independent reader, the data handed to the d3 viewer, matplotlib pictures, layout helpers."""
import itertools, json, math, re, cmath
from collections import Counter
from fractions import Fraction as F
import numpy as np
import core, ref, circ, big
from core import require, slice_iter
from diag import V, Spec, build
from ref import Z, X, HBOX, ZBOX, WIN, WOUT, BOUNDARY
import pyzx as zx
from pyzx import drawing as D
import C01, C06, C19

R2 = math.sqrt(2)


# -- reader of LaTeX numbers -----------------------------------------------------------------------------------
TOK = re.compile(r'\s*(\\left\(|\\right\)|\\frac|\\sqrt|\\cdot|\\pi|\d+\.\d+|\.\d+|\d+|[-+(){}^ei])')


def tokens(s):
    out, p = [], 0
    while p < len(s):
        m = TOK.match(s, p)
        if not m:
            if not s[p:].strip():
                break
            require(False, 'unreadable: %r in %r', s[p:p + 10], s)
        out.append({r'\left(': '(', r'\right)': ')'}.get(m.group(1), m.group(1)))
        p = m.end()
    return out


class Reader(object):
    """sum of products of powers, with juxtaposition as multiplication"""

    def __init__(self, s):
        self.s, self.t, self.p = s, tokens(s), 0

    def peek(self):
        return self.t[self.p] if self.p < len(self.t) else None

    def take(self, x=None):
        y = self.peek()
        require(y is not None and (x is None or x == y), 'unreadable at %s: %r', self.p, self.s)
        self.p += 1
        return y

    def all(self):
        v = self.sum()
        require(self.peek() is None, 'unreadable at %s: %r', self.p, self.s)
        return v

    def sum(self):
        v, first = 0, True
        while self.peek() not in (None, ')', '}'):
            sg = 1
            if self.peek() in '+-':
                sg = 1 if self.take() == '+' else -1
            else:
                require(first, 'missing operator: %r', self.s)
            v, first = v + sg * self.product(), False
        require(not first, 'empty expression: %r', self.s)
        return v

    def product(self):
        v, n, prev = 1, 0, False
        while self.peek() not in (None, ')', '}', '+', '-'):
            if self.peek() == r'\cdot':
                require(n > 0, 'product: %r', self.s)
                self.take()
                prev = False
            number = self.peek()[0].isdigit()
            require(not (number and n and prev), 'two numbers side by side: %r', self.s)
            prev = number
            v, n = v * self.power(), n + 1
        require(n > 0, 'empty product: %r', self.s)
        return v

    def group(self):
        self.take('{')
        v = self.sum()
        self.take('}')
        return v

    def arg(self):
        """argument of a macro: a group or one digit"""
        if self.peek() == '{':
            return self.group()
        x = self.take()
        require(x.isdigit(), 'argument: %r', self.s)
        if len(x) > 1:
            self.p -= 1
            self.t[self.p] = x[1:]
        return int(x[0])

    def power(self):
        x = self.take()
        if x == '(':
            v = self.sum()
            self.take(')')
        elif x == r'\frac':
            a = self.arg()
            v = a / self.arg()
        elif x == r'\sqrt':
            v = cmath.sqrt(self.group())
        elif x == r'\pi':
            v = math.pi
        elif x == 'e':
            v = math.e
        elif x == 'i':
            v = 1j
        else:
            require(x[0].isdigit() or x[0] == '.', 'unreadable %r in %r', x, self.s)
            v = float(x)
        if self.peek() == '^':
            self.take()
            v = v ** self.group()
        return v


def read_number(s):
    return complex(Reader(s).all())


def unit(z):
    """what two decimals can resolve: the power of ten printed with the number"""
    f = int(math.log10(1 / abs(z)))
    return 10.0 ** -f if abs(f) > 1 else 1.0


def number_case(rep, z, key):
    rep.state(key)
    with rep.case(key, dict(op='number')):
        s = D.pretty_complex(z)
        rep.step()
        require(isinstance(s, str) and s != '', 'nothing is printed')
        v = read_number(s)
        tol = 1e-7 if abs(z) < 1e-7 else 0.0075 * unit(z)
        require(abs(v - z) <= tol, '%s is printed as %s = %s', z, s, v)
        t = D.strip_brackets(s)
        require(abs(read_number(t) - z) <= tol, '%s is printed in matrices as %s', z, t)
        rep.outcome('special' if not re.search(r'\d\.\d', s) else 'decimal')


PARTS = [0, 1, 2, 3, .5, 1 / 3, .25, R2, math.sqrt(3), R2 / 2, R2 / 4, R2 / 8, 2 * R2, 3 * R2, 3 * R2 / 2, 5 * R2 / 2, math.sqrt(3) / 2, 1 + R2, 1 - R2, R2 - 1, .5 + R2, .5 - R2, 1 + R2 / 2, 1 - R2 / 2,
         2 - R2, 2 + R2 / 2, 3 - R2, 3 - 2 * R2, 1 + 2 * R2, math.sqrt(1 + R2 / 2) / 2, math.sqrt(1 - R2 / 2) / 2, .125, .1, .123, .9, 1.5, 1.25, 7, 10, 12.3, 1.004, .996, .0011, .05, 2.5 * R2]


def fam_number(rep, i, m, deep=False):
    vals = sorted({s * p for p in PARTS for s in (1, -1)})
    if deep:    # everything the tables of special values combine, and neighbours of it
        vals = sorted({round(v + w * s + d, 12) for v in (0, 1, .5, 1 / 3, .25, 2, 3) for w in (0, R2, math.sqrt(3), math.sqrt(3) / 2, R2 / 2, 2 * R2, R2 / 4, R2 / 8) for s in (1, -1) for d in (0, .004)})
        vals = sorted(set(vals) | {-v for v in vals})
    for a, b in slice_iter(itertools.product(vals, repeat=2), i, m):
        number_case(rep, complex(a, b), '%r%+rj' % (a, b))



def fam_scaled(rep, i, m):
    """small and large numbers"""
    base = [1, 1j, 1.5, 1.5j, 1 + 1j, 1 + 2j, 1 - 2j, -1 + .5j, -2.5 - 1.25j, R2 + 1j, R2, 3, 7, 9.99, 1.234 + 5.678j, 5.678 - 1.234j, .5 + .001j, cmath.exp(1j), 3 * cmath.exp(2j), 1 + .01j, .01 + 1j, -1 - .02j]
    for z in slice_iter(base, i, m):
        for k in range(-7, 8):
            for sc in (10.0 ** k, 2.0 ** (k * 1.5), 2.0 ** k):
                number_case(rep, z * sc, '%r * %r' % (z, sc))


def fam_polar(rep, i, m):
    """all radii of a set with all angles that are small fractions of pi"""
    rad = [R2 ** k for k in range(-20, 21)] + [2 ** F(k, 8) for k in range(-16, 17)] + [p for p in PARTS if p > 0]
    ang = sorted({F(a, b) for b in (1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 32, 48, 64) for a in range(-b + 1, b + 1)})
    for r, a in slice_iter(itertools.product(rad, ang), i, m):
        number_case(rep, complex(float(r) * cmath.exp(1j * math.pi * a)), 'polar %r %s' % (float(r), a))


def read_matrix(s):
    m = re.fullmatch(r'\\begin\{equation\}\n(.*?)\n?\\begin\{pmatrix\}\n(.*)\n\\end\{pmatrix\}\n\\end\{equation\}', s, re.S)
    require(m is not None, 'not a matrix: %r', s[:200])
    pre = m.group(1).strip()
    c = 1 if pre == '' else -1 if pre == '-' else read_number(pre)
    return c, [[read_number(x) for x in r.split('&')] for r in m.group(2).split('\\\\')]


def matrix_case(rep, mat, key):
    rep.state(key)
    with rep.case(key, dict(op='matrix')):
        s = D.matrix_to_latex(mat)
        rep.step()
        c, rows = read_matrix(s)
        require(len(rows) == mat.shape[0] and all(len(r) == mat.shape[1] for r in rows), 'shape')
        got = c * np.array(rows)
        for x, y in zip(mat.flat, got.flat):
            if abs(x) <= 1e-7 * max(1, abs(c)):
                require(abs(y) <= 1e-6 * max(1, abs(c)), '0 is printed as %s', y)
            else:
                rel = 0.0075 * (unit(x / c) / abs(x / c) + (0 if abs(c) == 1 else unit(c) / abs(c)))
                require(abs(x - y) <= abs(x) * rel * 1.05, '%s is printed as %s', x, y)
        rep.outcome('%dx%d' % mat.shape)


W = cmath.exp(1j * math.pi / 4)
ENT = [0, 1, -1, 1j, W, R2 / 2, -R2 / 2, 1j * R2, 1 + W, .3 - .2j, 2, W / 4]


def fam_matrix(rep, shape, ent, i, m):
    for e in slice_iter(itertools.product(ENT[:ent], repeat=shape[0] * shape[1]), i, m):
        matrix_case(rep, np.array(e, dtype=complex).reshape(shape), '%s' % (np.round(e, 4).tolist(),))


def fam_circuits(rep, n, depth, i, m):
    """matrices of circuits and their diagrams, as they are shown"""
    al = circ.alphabet(n, ('HAD', 'T', 'CNOT', 'S', 'ZPhase') if n == 2 else ('HAD', 'CNOT', 'T', 'Tof'), {'ZPhase': [(F(1, 3),)]})
    for sq in slice_iter(circ.sequences(al, depth) if not isinstance(depth, tuple) else (tuple(x) for _, x in big.layers(n, ('H', 'He', 'Tr', 'cp', 'zo', 'Px', 'M'), depth)), i, m):
        u = circ.unitary(n, sq)
        matrix_case(rep, u, 'circuit ' + circ.show(n, sq))
        matrix_case(rep, circ.circuit(n, sq).to_matrix(), 'to_matrix ' + circ.show(n, sq))
        matrix_case(rep, u * 2 ** -.5, 'scaled circuit ' + circ.show(n, sq))


# -- pictures ----------------------------------------------------------------------------------------------------
def notebook(shown):
    D.get_mode = lambda: 'notebook'
    D.display = shown.append
    D.HTML = lambda s: s


def read_phase(s):
    """text of a phase on a vertex; None: nothing is written"""
    if s == '':
        return None
    if s == '0':
        return F(0)
    m = re.fullmatch(r'(-?)(\d*)π(?:/(\d+))?', s)
    require(m, 'unreadable phase %r', s)
    return F(int(m.group(2) or 1), int(m.group(3) or 1)) * (-1 if m.group(1) else 1)


def phase_ok(g, v, s):
    """a text must be written unless the phase is the ordinary one of its kind of vertex"""
    usual = F(1) if g.type(v) == HBOX else F(0)
    p = read_phase(s)
    require((p is None and g.phase(v) == usual) or (p is not None and (p - g.phase(v)) % 2 == 0), 'phase %r instead of %s at %s', s, g.phase(v), v)


def js_string(s):
    """value of the body of a JavaScript string literal in single quotes"""
    out, p = [], 0
    simple = dict(n='\n', t='\t', r='\r', b='\b', f='\f', v='\v')
    while p < len(s):
        c = s[p]
        require(c not in "'\n", 'the string ends early')
        if c == '\\':
            c = s[p + 1]
            if c == 'u':
                out.append(chr(int(s[p + 2:p + 6], 16)))
                p += 6
                continue
            out.append(simple.get(c, c))
            p += 2
        else:
            out.append(c)
            p += 1
    return ''.join(out)


NUM = r'([-\d.e+]+)'
CALL = re.compile(r"showGraph\('#graph-output-(\w+)',\s*JSON\.parse\('(.*)'\), %s, %s, %s,\s*%s, (true|false), (true|false), '(.*)'\);\s*</script>$" % ((NUM,) * 4), re.S)


def payload(text):
    m = CALL.search(text[text.rindex("showGraph('#"):])
    require(m is not None, 'no call of the viewer')
    require('id="graph-output-%s"' % m.group(1) in text, 'no element to draw in')
    try:
        data = json.loads(js_string(m.group(2)))
    except (ValueError, IndexError) as e:
        require(False, 'the data are not JSON: %s', e)
    return data, tuple(float(x) for x in m.group(3, 4, 5, 6)), m.group(7) == 'true', m.group(8) == 'true', js_string(m.group(9))


def pairs(x):
    return [list(t) for t in x]


def d3_check(g, text, opts):
    data, (w, h, sc, ns), hbox, labels, sca = payload(text)
    require(set(data) == {'nodes', 'links'}, 'keys')
    by = {n['name']: n for n in data['nodes']}
    require(len(by) == len(data['nodes']) == g.num_vertices() and set(by) == {str(v) for v in g.vertices()}, 'vertices')
    vs = list(g.vertices())
    for v in vs:
        n = by[str(v)]
        require(n['t'] == int(g.type(v)), 'type of %s', v)
        require(bool(n['ground']) == g.is_ground(v), 'ground of %s', v)
        if g.type(v) == ZBOX:
            require(complex(n['phase']) == complex(zx.utils.get_z_box_label(g, v)), 'label of %s', v)
        elif g.type(v) in (Z, X, HBOX):
            phase_ok(g, v, n['phase'])
        want = [[k, g.vdata(v, k)] for k in opts.get('vdata', []) if g.vdata(v, k, None) is not None]
        require(n['vdata'] == want, 'data of %s: %s', v, n['vdata'])
        o = vs[0]
        require(abs((n['x'] - by[str(o)]['x']) - sc * (g.row(v) - g.row(o))) < 1e-6 and abs((n['y'] - by[str(o)]['y']) - sc * (g.qubit(v) - g.qubit(o))) < 1e-6, 'place of %s', v)
        require(0 < n['x'] < w and 0 < n['y'] < h, '%s lies outside of the picture', v)
    require(sc == opts['scale'] if opts.get('scale') else 20 <= sc <= 50, 'scale %s', sc)
    got, groups = Counter(), {}
    for l in data['links']:
        require(l['source'] in by and l['target'] in by, 'edge to nowhere')
        k = (min(l['source'], l['target']), max(l['source'], l['target']))
        got[k, l['t']] += 1
        groups.setdefault(k, []).append(l)
    want = Counter()
    for e in g.edges():
        a, b = map(str, g.edge_st(e))
        want[(min(a, b), max(a, b)), int(g.edge_type(e))] += 1
    require(got == want, 'edges %s instead of %s', got, want)
    for ls in groups.values():
        require(sorted(l['index'] for l in ls) == list(range(len(ls))) and all(l['num_parallel'] == len(ls) for l in ls), 'parallel edges are not told apart')
    auto = opts.get('auto_hbox')
    require(labels == bool(opts.get('labels')) and hbox == (zx.settings.drawing_auto_hbox if auto is None else auto), 'options')
    require(sca == (g.scalar.to_unicode() if opts.get('show_scalar') else ''), 'scalar %r', sca)


COL = {(.0, .0, .0): 1, (.0, .6, 1.): 2, (.5, .5, .5): 3}
FILL = {Z: '#ccffcc', X: '#ff8888', HBOX: 'yellow', ZBOX: '#ccffcc'}


def mpl_check(g, fig, opts):
    import matplotlib.colors as mc
    from matplotlib import patches
    ax, = fig.axes
    rows = opts.get('rows')
    vs = [v for v in g.vertices() if rows is None or rows[0] <= g.row(v) <= rows[1]]
    pos = {v: (float(g.row(v)), -float(g.qubit(v))) for v in vs}
    r6 = lambda p: (round(float(p[0]), 6) + 0., round(float(p[1]), 6) + 0.)
    box = opts.get('h_edge_draw') == 'box'
    shapes = {p: [] for p in pos.values()}
    wires, boxes = Counter(), []

    def wire(a, b, colour):
        c = COL.get(tuple(round(x, 1) for x in mc.to_rgb(colour)))
        require(c, 'colour of a wire: %s', colour)
        wires[tuple(sorted((r6(a), r6(b)))), c] += 1
    for p in ax.patches:
        f = mc.to_hex(p.get_facecolor())
        if isinstance(p, patches.PathPatch):
            wire(p.get_path().vertices[0], p.get_path().vertices[-1], p.get_edgecolor())
        elif isinstance(p, patches.Circle):
            shapes.setdefault(tuple(p.center), []).append(('circle', p.radius, f))
        elif isinstance(p, patches.Rectangle):
            c = p.get_patch_transform().transform((.5, .5))
            if (round(p.get_width(), 3), round(p.get_height(), 3)) == (.2, .2):
                shapes.setdefault(next((q for q in shapes if abs(q[0] - c[0]) + abs(q[1] - c[1]) < 1e-9), tuple(c)), []).append(('square', .1, f))
            else:
                require(f == mc.to_hex('yellow'), 'a box is %s', f)
                boxes.append(r6(c))
        elif isinstance(p, patches.Polygon):
            x, y = p.get_xy()[:3].mean(axis=0)
            shapes.setdefault(next((q for q in shapes if abs(q[0] + .05 - x) + abs(q[1] - y) < 1e-9), (x, y)), []).append(('triangle', .2, f))
        else:
            require(False, 'unknown shape %r', p)
    for l in ax.lines:
        (x0, x1), (y0, y1) = l.get_xdata(), l.get_ydata()
        wire((x0, y0), (x1, y1), l.get_color())
    require(len(shapes) == len(pos) and all(len(x) == 1 for x in shapes.values()), 'shapes at %s', sorted(shapes))
    for v in vs:
        (k, rad, f), = shapes[pos[v]]
        t = g.type(v)
        want = {Z: 'circle', X: 'circle', HBOX: 'square', ZBOX: 'square', WIN: 'circle', WOUT: 'triangle', BOUNDARY: 'circle'}[t]
        require(k == want and f == mc.to_hex(FILL.get(t, 'black')), '%s is drawn as %s %s', v, k, f)
    want, hs = Counter(), []
    for e in g.edges():
        a, b = g.edge_st(e)
        if a not in pos or b not in pos:
            continue
        t = int(g.edge_type(e))
        want[tuple(sorted((r6(pos[a]), r6(pos[b])))), 1 if box and t == 2 else t] += 1
        if box and t == 2:
            hs.append((np.array(pos[a]), np.array(pos[b])))
    require(wires == want, 'wires %s instead of %s', wires, want)
    require(len(hs) == len(boxes), '%d boxes', len(boxes))
    for b in boxes:     # each box is on an edge of its own
        on = [i for i, (p, q) in enumerate(hs) if any(np.abs(p + u * (q - p) - b).max() < 1e-5 for u in (.4, .5, .6))]
        require(on, 'a box is not on a Hadamard edge')
        hs.pop(on[0])
    texts = Counter((r6(t.get_position()), t.get_text()) for t in ax.texts)
    if opts.get('show_scalar'):
        require(sum(c for (p, t), c in texts.items() if t == g.scalar.to_latex()) >= 1, 'no scalar')
        p = next(k for k in texts if k[1] == g.scalar.to_latex())
        texts -= Counter([p])
    for v in vs:
        x, y = pos[v]
        if opts.get('labels'):
            k = (r6((x + .25, y + .25)), str(v))
            require(texts[k], 'no name at %s', v)
            texts[k] -= 1
        here = [k for k, c in texts.items() if c and abs(k[0][0] - x) < 1e-6 and any(abs(k[0][1] - (y - d)) < 1e-6 for d in (.5, .25))]
        t = g.type(v)
        if t in (Z, X, HBOX):
            here = [k for k in here if abs(k[0][1] - (y - (.25 if t == HBOX else .5))) < 1e-6]
            phase_ok(g, v, here[0][1] if here else '')
        elif t == ZBOX:
            require(here and complex(here[0][1]) == complex(zx.utils.get_z_box_label(g, v)), 'label of %s', v)
        if here and t in (Z, X, HBOX, ZBOX):
            texts[here[0]] -= 1
    require(not any(texts.values()), 'more texts: %s', +texts)


DATA = [dict(p='plain'), dict(q="it's"), dict(p='a "b" c', q=[1, 'x']), dict(p='back\\slash', q='é\n'), dict(p=0, q=None), dict(p={'k': [True]}), {}]
OPTS = [dict(), dict(labels=True, scale=30), dict(auto_hbox=True, show_scalar=True), dict(auto_hbox=False, labels=False, scale=77.5), dict(vdata=['p', 'q']), dict(vdata=['q'], labels=True)]
MOPTS = [dict(), dict(labels=True), dict(h_edge_draw='box'), dict(h_edge_draw='box', labels=True, rows=(0, 2.5)), dict(show_scalar=True), dict(rows=(1, 3))]


def picture(rep, g, how, k, key, tags):
    rep.state(key)
    with rep.case(key, dict(tags, op='picture ' + how)):
        before = C19.all_of(g) if not isinstance(g, zx.Circuit) else circ.snapshot(g)
        h = g.to_graph(zh=True) if isinstance(g, zx.Circuit) else g
        if how == 'd3':
            opts, shown = OPTS[k % len(OPTS)], []
            notebook(shown)
            zx.settings.drawing_backend = 'd3'
            D.draw(g, **opts)
            require(len(shown) == 1, 'shown %d times', len(shown))
            d3_check(h, shown[0], opts)
        else:
            opts = MOPTS[k % len(MOPTS)]
            D.get_mode = lambda: 'shell'
            mpl_check(h, D.draw(g, **opts), opts)
        rep.step()
        require(before == (C19.all_of(g) if not isinstance(g, zx.Circuit) else circ.snapshot(g)), 'drawing changes what is drawn')
        rep.outcome('drawn')


LAYOUT = [lambda j: (j % 4, j // 4), lambda j: (1, j), lambda j: (j * .75, -(j * j % 5)), lambda j: (-j, j % 3 + j / 8), lambda j: (13 * j, 2 * j)]


def fam_draw(rep, src, args, backend, how, i, m):
    if src == 'multi':
        it = C18 = __import__('C18').multi_diagrams()
    else:
        mod = big if src == 'mixed' else __import__('C18') if src in ('all_kinds', 'w_diagrams') else C01
        it = getattr(mod, src)(*args)
    for k, s in enumerate(slice_iter(it, i, m)):
        g = build(s, backend, auto=False if backend == 'multigraph' else None)
        lay = LAYOUT[k % len(LAYOUT)]
        for j, v in enumerate(g.vertices()):
            y, x = lay(j)
            g.set_position(v, x, y)
            for a, b in DATA[(j + k) % len(DATA)].items():
                g.set_vdata(v, a, b)
        picture(rep, g, how, k // len(LAYOUT) + k, '%s %s %s %d' % (how, backend, s.show(), k), dict(backend=backend))


def fam_drawcircuit(rep, how, n, depth, i, m):
    al = circ.alphabet(n, ('HAD', 'T', 'CNOT', 'CZ', 'SWAP', 'ZPhase', 'CHAD') if n == 2 else ('HAD', 'Tof', 'CCZ', 'XPhase'), {'ZPhase': [(F(-1, 3),)], 'XPhase': [(F(1, 512),)]} if how == 'none' else {'ZPhase': [(F(-1, 3),)], 'XPhase': [(F(7, 5),)]})
    for k, sq in enumerate(slice_iter(circ.sequences(al, depth) if not isinstance(depth, tuple) else (tuple(x) for _, x in big.layers(n, ('H', '@CRX', 'Tr', 'cp', 'zo', '@Tof', 'M'), depth)), i, m)):
        picture(rep, circ.circuit(n, sq), how, k, '%s %s' % (how, circ.show(n, sq)), {})


# -- layouts -----------------------------------------------------------------------------------------------------
def fam_layout(rep, src, args, backend, i, m):
    """arrangements only move vertices"""
    for k, s in enumerate(slice_iter(getattr(C01, src)(*args), i, m)):
        for what in ('grg', 'gslc', 'scalar'):
            if what == 'scalar' and (s.ins or s.outs):
                continue
            key = '%s %s %s' % (what, backend, s.show())
            rep.state(key)
            with rep.case(key, dict(op='layout ' + what, backend=backend)):
                g = build(s, backend, auto=False if backend == 'multigraph' else None)
                for j, v in enumerate(g.vertices()):
                    y, x = LAYOUT[k % len(LAYOUT)](j)
                    g.set_position(v, x, y)
                h = g.clone()
                if what == 'scalar':
                    D.arrange_scalar_diagram(g)
                else:
                    D.pack_circuit_nf(g, what)
                rep.step()
                for v in g.vertices():
                    require(math.isfinite(g.row(v)) and math.isfinite(g.qubit(v)), 'no place for %s', v)
                    if what != 'scalar' and (v in g.inputs() or v in g.outputs()):
                        require(g.row(v) == (0 if v in g.inputs() else 4) and g.qubit(v) == h.qubit(v), 'place of the boundary %s', v)
                    h.set_position(v, g.qubit(v), g.row(v))
                require(C19.all_of(g) == C19.all_of(h), 'more than positions changed')
                rep.outcome(what)


FAMILIES = dict(number=fam_number, scaled=fam_scaled, polar=fam_polar, matrix=fam_matrix, circuits=fam_circuits, draw=fam_draw, drawcircuit=fam_drawcircuit, layout=fam_layout)


def tasks(tier):
    q = tier == 'quick'
    R = range
    t = [('number', (i, 4)) for i in R(4)] + [('scaled', (0, 1))] + [('polar', (i, 4)) for i in R(4)]
    t += [('matrix', (s, k, 0, 1)) for s, k in (((1, 1), 12), ((1, 2), 12), ((2, 1), 12), ((1, 3), 12))] + [('matrix', ((2, 2), 7 if q else 12, i, 4)) for i in R(4)] + [('matrix', ((2, 3), 3, 0, 1)), ('matrix', ((4, 2), 2, 0, 1))]
    t += [('circuits', (2, d, i, 4)) for d in (0, 1, 2, 3) for i in R(4)] + [('circuits', (3, d, i, 4)) for d in (1, 2) for i in R(4)]
    t += [('circuits', (4, (1, 2), i, 16)) for i in R(16)] + [('circuits', (3, (3,), i, 16)) for i in R(16)]
    for how in ('d3', 'matplotlib'):
        n = 2 if how == 'd3' else 8
        for be in ('simple', 'multigraph'):
            for src, args in (('all_kinds', (2,)), ('w_diagrams', ()), ('zbox_specs', (2,)), ('ground_specs', (2, (0, F(1, 4)), ((), (1,), (2,)))), ('gadget_specs', (2, 2, (F(1, 4),), (0,), (0, F(1, 2))))):
                t += [('draw', (src, args, be, how, i, n)) for i in R(n)]
        t += [('draw', ('multi', (), 'multigraph', how, i, 2)) for i in R(2)]
        for be in ('simple', 'multigraph'):
            t += [('draw', ('mixed', (4, 6, (6 if how == 'd3' else 40) if not q else 40 if how == 'd3' else 250, True), be, how, i, 8)) for i in R(8)]
        t += [('drawcircuit', (how, 4, (1,) if q else (1, 2), i, 8)) for i in R(8)]
        if not q:
            for be in ('simple', 'multigraph'):
                t += [('draw', ('zx_specs', (3, [V(k, p) for k in (Z, X) for p in (0, F(1, 4))], ((), (1,), (2,))), be, how, i, 64)) for i in R(64)]
            t += [('drawcircuit', (how, 2, 3, i, 32)) for i in R(32)]
        t += [('drawcircuit', (how, n_, d, i, n)) for n_, d in ((2, 1), (2, 2), (3, 1)) for i in R(n)]
    if not q:
        t += [('circuits', (2, 4, i, 32)) for i in R(32)] + [('circuits', (3, 3, i, 16)) for i in R(16)] + [('matrix', ((2, 3), 6, i, 16)) for i in R(16)] + [('number', (i, 64, True)) for i in R(64)]
    for be in ('simple', 'multigraph'):
        for src, args in (('zx_specs', (3, [V(k, p) for k in (Z, X) for p in (0, F(1, 4))], ((), (1,), (2,)))), ('gadget_specs', (2, 2, (F(1, 4),), (0,), (0, F(1, 2))))):
            t += [('layout', (src, args, be, i, 4)) for i in R(4)]
    return t


def run():
    return core.main('C34', FAMILIES, tasks, assumptions=['numbers are printed with two decimals: comparisons allow for that'], exhaustive_note='all numbers, matrices and diagrams of the stated sets')
