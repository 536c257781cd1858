"""C18: copies, adjoints, composition, tensor products, plugging, merging, subgraphs and normalisation of diagrams."""
import itertools
from fractions import Fraction as F
import numpy as np
import core, ref, big
from core import require, slice_iter
from diag import V, Spec, build, enum_graphs
from ref import Z, X, HBOX, ZBOX, WIN, WOUT, WIO, BOUNDARY
import pyzx as zx
from pyzx.utils import VertexType, EdgeType
from C05 import dump
import C01, C06


def full(g):
    s = g.scalar
    return dump(g), s.power2, str(s.phase), [str(x) for x in s.phasenodes], s.floatfactor, s.is_zero, s.is_unknown, dict(g.variable_types)


def decorate(g, k=0):
    """a scalar that is not one, data at the vertices, variable types"""
    g.scalar.add_power(1 + k)
    g.scalar.add_phase(F(1, 4))
    g.scalar.add_node(F(1, 3))
    g.scalar.add_float(1 + 0.5j * (k + 1))
    for v in list(g.vertices())[::2]:
        g.set_vdata(v, 'mark%d' % k, 'at %d' % v)
    g.variable_types['v%d' % k] = bool(k)
    return g


def scramble(g):
    """edits everything that can be edited"""
    g.scalar.add_power(3)
    g.scalar.add_node(F(1, 5))
    g.variable_types['other'] = True
    vs = list(g.vertices())
    for v in vs:
        g.add_to_phase(v, F(1, 7))
        g.set_vdata(v, 'label', 77)
        g.set_vdata(v, 'new', 1)
        g.set_position(v, 50, 60)
        g.set_ground(v, not g.is_ground(v))
    w = g.add_vertex(VertexType.Z, 1, 1, F(1, 3))
    if vs:
        for e in list(g.edges())[:1]:
            g.remove_edge(e)
        g.remove_vertex(vs[-1])
    g.set_inputs((w,))
    g.set_outputs(())


def independent(res, args, what):
    fa = [full(a) for a in args]
    scramble(res)
    for a, f in zip(args, fa):
        require(full(a) == f, 'editing the result of %s changes its argument', what)


def independent2(make, args, what):
    r = make()
    f = full(r)
    for a in args:
        scramble(a)
    require(full(r) == f, 'editing the argument of %s changes the result', what)


def refused(ex):
    return 'unreducible parallel edge' in str(ex)


# ---------------------------------------------------------------- copies
def plain(g, keep_names):
    """everything apart from scalar; vertices by name or by position in the order of vertices()"""
    n = {v: (v if keep_names else i) for i, v in enumerate(g.vertices())}
    return ([(n[v], int(g.type(v)), str(g.phase(v)), g.qubit(v), g.row(v), g.is_ground(v),
              sorted((k, str(g.vdata(v, k))) for k in g.vdata_keys(v))) for v in g.vertices()],
            sorted((tuple(sorted((n[a], n[b]))), int(g.edge_type(e))) for e in g.edges() for a, b in [g.edge_st(e)]),
            [n[v] for v in g.inputs()], [n[v] for v in g.outputs()])


def copy_cases(rep, s, backend, variant):
    def mk():
        g = build(s, backend, auto=False if variant == 'raw' else None)
        if variant == 'holes':
            w = [g.add_vertex(VertexType.Z) for _ in range(2)]
            x = g.add_vertex(VertexType.X, 5, 6, F(1, 4))
            g.remove_vertices(w)
            g.add_edge((x, next(iter(g.vertices()))) if g.type(next(iter(g.vertices()))) in (VertexType.Z, VertexType.X) else (x, x))
        elif variant == 'bare':      # vertices without a position
            for v in g.add_vertices(2):
                g.set_type(v, VertexType.Z)
                g.set_phase(v, F(1, 4))
        return decorate(g)
    key = '%s %s %s' % (backend, variant, s.show())
    feats = dict(backend=backend, variant=variant)
    try:
        g = mk()
    except ValueError as ex:
        if refused(ex):
            return
        raise
    if not rep.state(key):
        return
    dbl = bool(g.grounds())
    want = ref.value(g, doubled=dbl)
    f = full(g)
    ni, no = len(s.ins), len(s.outs)

    def same(h):
        require(ref.close(ref.value(h, doubled=dbl), want), 'represents another map')
    for op in ('copy', 'clone', 'backend', 'adjoint', 'adjoint backend', 'translate'):
        other = 'multigraph' if backend == 'simple' else 'simple'
        with rep.case('%s %s' % (op, key), dict(feats, op=op)):
            rep.step()

            def do(g):
                if op == 'copy':
                    return g.copy()
                if op == 'clone':
                    return g.clone()
                if op == 'backend':
                    return g.copy(backend=other)
                if op == 'adjoint':
                    return g.adjoint()
                if op == 'translate':
                    return g.translate(2, 3)
                return g.copy(adjoint=True, backend=other)
            try:
                h = do(g)
            except ValueError as ex:
                require('backend' in op and other == 'simple' and refused(ex), 'refused: %s', ex)
                rep.outcome('refused')
                continue
            rep.outcome(op)
            require(full(g) == f, 'the argument was changed')
            require(type(h).backend == (other if 'backend' in op else backend), 'backend of the result is %s', type(h).backend)
            require(h.variable_types == g.variable_types, 'the variable types are lost')
            require(h.is_well_formed() or not g.is_well_formed(), 'not well-formed')
            if 'adjoint' in op:
                if not dbl:
                    t = want.reshape(2 ** ni, 2 ** no).conj().T
                    require(ref.close(ref.value(h).reshape(2 ** no, 2 ** ni), t), 'is not the adjoint')
                hh = h.adjoint()
                same(hh)
                require(len(h.inputs()) == no and len(h.outputs()) == ni, 'inputs and outputs are not exchanged')
                require(h.grounds().__len__() == g.grounds().__len__(), 'grounds are lost')
            else:
                same(h)
                if op == 'translate':
                    require(all(h.row(w) == g.row(v) + 2 and h.qubit(w) == g.qubit(v) + 3
                                for v, w in zip(g.vertices(), h.vertices())), 'not translated')
                elif op != 'backend' or backend == 'simple' or g.num_edges() == h.num_edges():
                    require(plain(g, op == 'clone') == plain(h, op == 'clone'), 'structure differs')
            independent(h, [g], op)
            g2 = mk()
            independent2(lambda: do(g2), [g2], op)


def fam_copy(rep, src, args, backend, variant, i, k):
    it = SRC[src](*args)
    for s in slice_iter(it, i, k):
        rep.sample(s.show())
        copy_cases(rep, s, backend, variant)


def all_kinds(n):
    """every kind of vertex, with phases and labels"""
    ks = [V(Z, F(1, 4)), V(X, F(3, 4)), V(Z, 0), V(HBOX, F(1, 2)), V(HBOX, 1), V(ZBOX, 0, 2 + 1j), V(ZBOX, 0, -0.5j), V(Z, F(1, 4), None, True)]
    for c in itertools.combinations_with_replacement(ks, n):
        for es in enum_graphs(n):
            for b in range(n):
                verts = list(c) + [V(BOUNDARY), V(BOUNDARY)]
                edges = list(es) + [(b, n, 1), (n - 1, n + 1, 2)]
                yield Spec(verts, edges, [n], [n + 1])
                if b == 0:
                    yield Spec(verts[::-1], [(n + 1 - y, n + 1 - x, t) for x, y, t in edges], [0], [1])


def w_diagrams():
    for p in (0, F(1, 4)):
        for et in (1, 2):
            verts = [V(WIN), V(WOUT), V(Z, p), V(BOUNDARY), V(BOUNDARY), V(BOUNDARY)]
            yield Spec(verts, [(0, 1, WIO), (0, 3, 1), (1, 2, et), (1, 4, 1), (2, 5, et)], [3], [4, 5])
            yield Spec(verts, [(0, 1, WIO), (0, 3, et), (1, 2, 1), (1, 4, et), (2, 5, 1)], [4], [5, 3])


def multi_diagrams():
    for p in (0, F(1, 4)):
        for m in itertools.product(range(3), repeat=4):
            verts = [V(Z, p), V(X, F(1, 2)), V(BOUNDARY), V(BOUNDARY)]
            edges = [(0, 1, 1)] * m[0] + [(0, 1, 2)] * m[1] + [(0, 0, 1)] * m[2] + [(1, 1, 2)] * m[3] + [(0, 2, 1), (1, 3, 2)]
            yield Spec(verts, edges, [2], [3])


def big_diagrams(hi):
    ks = [V(Z, F(1, 4)), V(X, F(3, 4)), V(HBOX, F(1, 2)), V(ZBOX, 0, 2 + 1j), V(Z, F(1, 4), None, True)]
    return big.specs([V(Z, F(1, 4)), V(HBOX, 1)], ks, lo=4, hi=hi, hb=((), (1,)), lb=((), (2,)))


SRC = dict(big=big_diagrams, all=all_kinds, w=w_diagrams, multi=multi_diagrams)


# ---------------------------------------------------------------- a pool of small diagrams
KINDS = dict(z=V(Z, F(1, 4)), x=V(X, F(1, 2)), h=V(HBOX, F(1, 2)), b=V(ZBOX, 0, 2 + 1j), g=V(Z, F(1, 4), None, True))


def attachments(m, spiders):
    """all ways to connect m boundaries with each other or to spiders: list of (a,b,type), spiders are -1,-2,.."""
    def rec(todo):
        if not todo:
            yield []
            return
        a, rest = todo[0], todo[1:]
        for t in (1, 2):
            for s in range(spiders):
                for r in rec(rest):
                    yield [(a, -1 - s, t)] + r
            for b in rest:
                for r in rec([x for x in rest if x != b]):
                    yield [(a, b, t)] + r
    return rec(list(range(m)))


def pool(ni, no, kinds):
    m = ni + no
    out = []
    for ks in [''] + list(kinds):
        for at in attachments(m, len(ks)):
            if ks and len(ks) == 1 and all(b >= 0 for _, b, _ in at) and m:
                continue        # isolated spider next to wires: only once
            verts = [V(BOUNDARY)] * m + [KINDS[k] for k in ks]
            edges = [(a, b if b >= 0 else m - 1 - b, t) for a, b, t in at]
            if len(ks) == 2:
                edges.append((m, m + 1, 2))
            out.append(Spec(verts, edges, list(range(ni)), list(range(ni, m))))
    return out


def glue(s, t, n=None):
    """the composite (s, then t) as one network; the tensor product if n == 0"""
    k = len(s.verts)
    verts = list(s.verts) + list(t.verts)
    edges = list(s.edges) + [(a + k, b + k, e) for a, b, e in t.edges]
    if n == 0:
        return Spec(verts, edges, list(s.ins) + [k + i for i in t.ins], list(s.outs) + [k + o for o in t.outs])
    edges += [(o, k + i, 1) for o, i in zip(s.outs, t.ins)]
    return Spec(verts, edges, list(s.ins), [k + o for o in t.outs])


def sval(g):
    return ref.scalar_value(g.scalar)


def comp_case(rep, s, t, backend):
    key = '%s ; %s' % (s.show(), t.show())
    rep.state(key)
    feats = dict(backend=backend)
    dbl = any(v[3] for v in s.verts + t.verts)
    want = None
    for op in ('+', '*', 'compose'):
        if op != 'compose' and (len(s.verts) + len(t.verts)) % 3 == (op == '*'):
            continue
        with rep.case('%s %s %s' % (op, backend, key), dict(feats, op=op)):
            rep.step()
            g, h = decorate(build(s, backend)), decorate(build(t, backend), 1)
            fg, fh = full(g), full(h)
            sc = sval(g) * sval(h)
            try:
                if op == '+':
                    r = g + h
                elif op == '*':
                    r = h * g
                else:
                    r = g.copy()
                    r.compose(h)
            except ValueError as ex:
                if backend == 'simple' and refused(ex):
                    rep.outcome('refused')
                    continue
                raise
            if want is None:
                want = glue(s, t).value(doubled=dbl)
            require(full(g) == fg and full(h) == fh, 'the arguments were changed')
            w = want * (abs(sc) ** 2 if dbl else sc)
            require(ref.close(ref.value(r, doubled=dbl), w), 'the result is not the composite')
            require(sorted(r.variable_types) == ['v0', 'v1'], 'variable types are lost')
            require(r.is_well_formed(), 'not well-formed')
            rep.outcome('composed')
            independent(r, [g, h], op)
    if want is None:
        return


def fam_compose(rep, nl, b, nr, kl, kr, backend, i, k):
    for s, t in slice_iter(((s, t) for s in pool(nl, b, kl) for t in pool(b, nr, kr)), i, k):
        comp_case(rep, s, t, backend)


def wide_pool(ni, no):
    """diagrams with many inputs and outputs"""
    m = ni + no
    rot = [V(Z, F(1, 4)), V(X, F(1, 2)), V(HBOX, F(1, 2)), V(ZBOX, 0, 2 + 1j)]
    b = [V(BOUNDARY)] * m
    io = list(range(ni)), list(range(ni, m))
    for et in ((1,), (1, 2)):
        for hub in rot[:3] + [V(Z, F(1, 4), None, True)]:
            if m:
                yield Spec(b + [hub], [(j, m, et[j % len(et)]) for j in range(m)], *io)
        for h1, h2, e in ((0, 1, 2), (2, 0, 1)):
            yield Spec(b + [rot[h1], rot[h2]], [(j, m + (j >= ni), et[j % len(et)]) for j in range(m)] + [(m, m + 1, e)], *io)
        for r in range(2):      # a spider on every leg, joined in a chain
            yield Spec(b + [rot[(j + r) % 4] for j in range(m)], [(j, m + j, et[j % len(et)]) for j in range(m)] + [(m + j, m + j + 1, 1 + j % 2) for j in range(m - 1)], *io)
        if ni == no:            # wires, in any rotation
            for r in range(ni):
                yield Spec(b, [(j, ni + (j + r) % ni, et[j % len(et)]) for j in range(ni)], *io)
        if ni % 2 == 0 and no % 2 == 0:      # cups and caps
            yield Spec(b, [(2 * j, 2 * j + 1, et[j % len(et)]) for j in range(m // 2)], *io)
            yield Spec(b, [(o + j, o + l - 1 - j, et[j % len(et)]) for o, l in ((0, ni), (ni, no)) for j in range(l // 2)], *io)


def fam_wide(rep, hi, backend, i, k):
    w = [0, 1] + list(range(3, hi + 1))
    cs = ((s, t) for a, b, c in itertools.product(w, repeat=3) if b > 2 and a + c <= (2 * hi - 2 if hi > 4 else 4) for s in wide_pool(a, b) for t in wide_pool(b, c))
    for s, t in slice_iter(cs, i, k):
        if sum(v[3] for v in s.verts + t.verts) and len(s.ins) + len(t.outs) > 5:
            continue
        rep.sample('%s ; %s' % (s.show(), t.show()))
        comp_case(rep, s, t, backend)


def fam_wide2(rep, lim, hi, backend, i, k):
    w = range(0, lim)
    cs = ((s, t) for a, b, c, d in itertools.product(w, repeat=4) if a + b + c + d <= lim + (hi > 0) and (a + c >= 4 or b + d >= 4) for s in wide_pool(a, b) for t in wide_pool(c, d))
    for s, t in slice_iter(cs, i, k):
        if sum(v[3] for v in s.verts + t.verts) and sum(len(x) for x in (s.ins, t.ins, s.outs, t.outs)) > 6:
            continue
        rep.sample('%s x %s' % (s.show(), t.show()))
        tens_case(rep, s, t, backend, False)


def fam_wideplug(rep, lo, hi, backend, i, k):
    strs = ('0', '1', '+', '-', '/', '01+-/', '/+', '1/0', '-/+1')

    def words(l):
        return sorted({(x * l)[:l] for x in strs} | {(x * l)[:l][::-1] for x in strs})
    for s in slice_iter((s for a in range(hi + 1) for b in range(hi + 1) if lo <= max(a, b) <= hi and a + b <= hi + 2 for s in wide_pool(a, b)), i, k):
        if not any(v[3] for v in s.verts):
            rep.sample(s.show())
            plug_case(rep, s, backend, words)


def fam_wrong(rep, k):
    """numbers of outputs and inputs that differ are refused, and nothing is changed"""
    for a, b in itertools.product(range(3), repeat=2):
        if a == b:
            continue
        for s in pool(1, a, 'z')[:6]:
            for t in pool(b, 1, 'z')[:6]:
                with rep.case('%s ; %s' % (s.show(), t.show()), {}):
                    rep.step()
                    g, h = build(s), build(t)
                    fg, fh = full(g), full(h)
                    try:
                        g.compose(h)
                    except TypeError:
                        require(full(g) == fg and full(h) == fh, 'the diagrams were changed')
                        continue
                    require(False, 'composed %d outputs with %d inputs', a, b)


def fam_chain(rep, kinds, backend, i, k):
    """three diagrams composed with three more, in every bracketing, in place with one diagram growing"""
    ps = [s for s in pool(1, 1, kinds)] + pool(1, 2, 'z')[::3] + pool(2, 1, 'z')[::3]
    for c in slice_iter((c for c in itertools.product(ps, repeat=3) if len(c[0].outs) == len(c[1].ins) and len(c[1].outs) == len(c[2].ins)), i, k):
        key = ' ; '.join(s.show() for s in c)
        if not rep.state(key):
            continue
        with rep.case('%s %s' % (backend, key), dict(backend=backend)):
            gs = [decorate(build(s, backend), j) for j, s in enumerate(c)]
            dbl = any(v[3] for s in c for v in s.verts)
            sc = sval(gs[0]) * sval(gs[1]) * sval(gs[2])
            w = glue(glue(c[0], c[1]), c[2]).value(doubled=dbl) * (abs(sc) ** 2 if dbl else sc)
            fs = [full(g) for g in gs]
            for r in (lambda: (gs[0] + gs[1]) + gs[2], lambda: gs[0] + (gs[1] + gs[2]), lambda: gs[2] * gs[1] * gs[0]):
                rep.step()
                try:
                    h = r()
                except ValueError as ex:
                    if backend == 'simple' and refused(ex):
                        rep.outcome('refused')
                        continue
                    raise
                require(ref.close(ref.value(h, doubled=dbl), w), 'the result is not the composite')
                rep.outcome('composed')
            require([full(g) for g in gs] == fs, 'the arguments were changed')


def tens_case(rep, s, t, backend, bare):
    key = '%s x %s' % (s.show(), t.show())
    rep.state(key)
    dbl = any(v[3] for v in s.verts + t.verts)
    with rep.case('%s %s %s' % (backend, bare, key), dict(backend=backend)):
        rep.step()
        g, h = decorate(build(s, backend)), decorate(build(t, backend), 1)
        extra = 1
        if bare:
            for x in (g, h):
                for v in x.add_vertices(1):
                    x.set_type(v, VertexType.Z)
                    x.set_phase(v, F(1, 4))
                extra *= 1 + ref.cexp(.25)
        fg, fh = full(g), full(h)
        sc = sval(g) * sval(h) * extra
        r = g @ h
        w = glue(s, t, 0).value(doubled=dbl) * (abs(sc) ** 2 if dbl else sc)
        require(full(g) == fg and full(h) == fh, 'the arguments were changed')
        require(ref.close(ref.value(r, doubled=dbl), w), 'the result is not the tensor product')
        require(len(r.grounds()) == len(g.grounds()) + len(h.grounds()), 'grounds are lost')
        require(sorted(r.variable_types) == ['v0', 'v1'], 'variable types are lost')
        marks = sorted(k for v in r.vertices() for k in r.vdata_keys(v))
        require(marks == sorted(k for x in (g, h) for v in x.vertices() for k in x.vdata_keys(v)), 'vertex data is lost')
        require(r.is_well_formed(), 'not well-formed')
        if not bare:
            for l in (r.inputs(), r.outputs()):
                qs = [r.qubit(v) for v in l]
                require(len(set(qs)) == len(qs), 'boundaries are drawn on top of each other')
        independent(r, [g, h], '@')


def fam_tensor(rep, kinds, backend, i, k):
    ps = [s for ni in range(3) for no in range(3 - ni) for s in pool(ni, no, kinds)] + pool(1, 2, 'z')[::2] + pool(2, 1, 'z')[::2]
    for s, t in slice_iter(itertools.product(ps, repeat=2), i, k):
        tens_case(rep, s, t, backend, False)
        tens_case(rep, s, t, backend, True)


# ---------------------------------------------------------------- states and effects
KET = {'0': (1, 0), '1': (0, 1), '+': (2 ** -.5, 2 ** -.5), '-': (2 ** -.5, -2 ** -.5)}


def fam_plug(rep, ni, no, kinds, backend, i, k):
    for s in slice_iter(pool(ni, no, kinds), i, k):
        if not any(v[3] for v in s.verts):
            plug_case(rep, s, backend, lambda l: map(''.join, itertools.product('01+-/', repeat=l)))


def plug_case(rep, s, backend, words):
    ni, no = len(s.ins), len(s.outs)
    if 1:
        val = s.value()
        for side in ('state', 'effect'):
            n = ni if side == 'state' else no
            for l in range(n + 2):
                for w in words(l):
                    key = '%s %s %s' % (side, w, s.show())
                    rep.state(key)
                    with rep.case('%s %s' % (backend, key), dict(side=side, backend=backend)):
                        rep.step()
                        g = decorate(build(s, backend))
                        sc = sval(g)
                        f = full(g)
                        try:
                            (g.apply_state if side == 'state' else g.apply_effect)(w)
                        except TypeError:
                            require(l > n, 'refused')
                            require(full(g) == f, 'a refused %s changes the diagram', side)
                            rep.outcome('refused')
                            continue
                        require(l <= n, 'too many entries are accepted')
                        t = val * sc
                        off = 0 if side == 'state' else ni
                        for j in range(l - 1, -1, -1):
                            if w[j] != '/':
                                t = np.tensordot(t, np.array(KET[w[j]]), ([off + j], [0]))
                        require(len(g.inputs()) == ni - (l - w.count('/')) * (side == 'state') and
                                len(g.outputs()) == no - (l - w.count('/')) * (side == 'effect'), 'number of inputs or outputs is wrong')
                        require(ref.close(ref.value(g), t), 'the %s is not plugged correctly', side)
                        rep.outcome('plugged')
            with rep.case('%s bad %s %s' % (backend, side, s.show()), dict(side=side, backend=backend)):
                if n:
                    g = build(s, backend)
                    f = full(g)
                    for bad in ('a', '0' * (n - 1) + 'i'):
                        try:
                            (g.apply_state if side == 'state' else g.apply_effect)(bad)
                        except TypeError:
                            require(full(g) == f, 'a refused %s changes the diagram', side)
                            continue
                        require(False, 'accepted %s', bad)


# ---------------------------------------------------------------- merge, subgraphs
def fam_merge(rep, kinds, backend, i, k):
    ps = [s for ni in range(3) for no in range(3 - ni) for s in pool(ni, no, kinds)] + list(multi_diagrams() if backend == 'multigraph' else [])[::20]
    for s, t in slice_iter(itertools.product(ps, repeat=2), i, k):
        key = '%s u %s' % (s.show(), t.show())
        rep.state(key)
        with rep.case('%s %s' % (backend, key), dict(backend=backend)):
            rep.step()
            g, h = decorate(build(s, backend, auto=False)), decorate(build(t, backend, auto=False), 1)
            if len(s.verts) % 2:
                for x in (g, h):
                    for v in x.add_vertices(1):
                        x.set_type(v, VertexType.Z)
            vt = {**g.variable_types, **h.variable_types}
            g0, fh, sc = g.copy(), full(h), sval(g) * sval(h)
            vg = set(g.vertices())
            vs, es = g.merge(h)
            require(full(h) == fh, 'the other diagram was changed')
            require(abs(sval(g) - sc) < 1e-9, 'the scalar is wrong')
            require(set(vs) == set(g.vertices()) - vg and len(vs) == h.num_vertices(), 'returned vertices are wrong')
            require(len(es) == h.num_edges() and set(es) <= set(g.edges()), 'returned edges are wrong')
            m = dict(zip(h.vertices(), vs))
            for v, w in m.items():
                require(int(g.type(w)) == int(h.type(v)) and g.phase(w) == h.phase(v) and g.is_ground(w) == h.is_ground(v) and
                        g.qubit(w) == h.qubit(v) and g.row(w) == h.row(v) and
                        {k: g.vdata(w, k) for k in g.vdata_keys(w)} == {k: h.vdata(v, k) for k in h.vdata_keys(v)}, 'vertex %s is copied wrongly', v)
            want = sorted((tuple(sorted(m[x] for x in h.edge_st(e))), int(h.edge_type(e))) for e in h.edges())
            got = sorted((tuple(sorted(g.edge_st(e))), int(g.edge_type(e))) for e in es)
            require(want == got, 'edges are copied wrongly: %s instead of %s', got, want)
            new = [e for e in g.edges() if not set(g.edge_st(e)) <= vg]
            require(sorted((tuple(sorted(g.edge_st(e))), int(g.edge_type(e))) for e in new) == want, 'edges of the merged diagram are wrong')
            require(tuple(g.inputs()) == tuple(g0.inputs()) and tuple(g.outputs()) == tuple(g0.outputs()), 'inputs or outputs were changed')
            require(g.variable_types == vt, 'types of the variables')
            independent(g, [h], 'merge')


def sub_case(rep, s, backend):
    g = decorate(build(s, backend, auto=False))
    for v in g.add_vertices(1):
        g.set_type(v, VertexType.Z)
    vs = list(g.vertices())
    f = full(g)
    for r in range(len(vs) + 1):
        for c in itertools.combinations(vs, r):
            for sel in ((c, c[::-1]) if r > 1 else (c,)):
                key = '%s of %s' % (sel, s.show())
                rep.state(key)
                with rep.case('%s %s' % (backend, key), dict(backend=backend)):
                    rep.step()
                    h = g.subgraph_from_vertices(list(sel))
                    require(full(g) == f, 'the diagram was changed')
                    ws = list(h.vertices())
                    require(len(ws) == len(sel), 'number of vertices')
                    m = dict(zip(sel, ws))
                    for v, w in m.items():
                        require(int(g.type(v)) == int(h.type(w)) and g.phase(v) == h.phase(w) and g.is_ground(v) == h.is_ground(w) and
                                g.qubit(v) == h.qubit(w) and g.row(v) == h.row(w) and
                                {k: h.vdata(w, k) for k in h.vdata_keys(w)} == {k: g.vdata(v, k) for k in g.vdata_keys(v)}, 'vertex %s is copied wrongly', v)
                    want = sorted((tuple(sorted((m[a], m[b]))), int(g.edge_type(e))) for e in g.edges() for a, b in [g.edge_st(e)] if a in m and b in m)
                    got = sorted((tuple(sorted(h.edge_st(e))), int(h.edge_type(e))) for e in h.edges())
                    require(want == got, 'edges are copied wrongly: %s instead of %s', got, want)
                    require(abs(sval(h) - 1) < 1e-9, 'the scalar is not one')
                    require(h.variable_types == g.variable_types, 'types of the variables')
                    independent(h, [g], 'subgraph')


def fam_sub(rep, src, args, backend, i, k):
    for s in slice_iter(SRC[src](*args), i, k):
        sub_case(rep, s, backend)


# ---------------------------------------------------------------- rows, normalisation, detection of inputs and outputs
def fam_norm(rep, ni, no, kinds, backend, i, k):
    for s in slice_iter(pool(ni, no, kinds), i, k):
        dbl = any(v[3] for v in s.verts)
        m = ni + no
        for pi in itertools.permutations(range(ni)):
            for po in itertools.permutations(range(no)):
                for shift in (0, 5):
                    for rows in ('apart', 'same', 'bent'):
                        key = '%s %s %s %s %s' % (pi, po, shift, rows, s.show())
                        pos = {}
                        for a, v in enumerate(s.ins):
                            pos[v] = (pi[a] * 2 + shift, 0)
                        for a, v in enumerate(s.outs):
                            pos[v] = (po[a] * 2 + shift, dict(apart=4, same=1, bent=-3)[rows])
                        for v in range(m, len(s.verts)):
                            pos[v] = (1, 1)
                        g = build(s, backend, rows=[pos[v] for v in range(len(s.verts))])
                        decorate(g)
                        w = s.value(doubled=dbl) * (abs(sval(g)) ** 2 if dbl else sval(g))
                        if rows == 'apart' and ni:
                            with rep.case('detect %s %s' % (backend, key), dict(op='detect', rows=rows)):
                                rep.step()
                                detect_case(rep, g.copy(), backend)
                        if not m:
                            continue
                        rep.state(key)
                        with rep.case('normalize %s %s' % (backend, key), dict(op='normalize', rows=rows)):
                            rep.step()
                            try:
                                g.normalize()
                            except ValueError as ex:
                                if backend == 'simple' and refused(ex):
                                    rep.outcome('refused')
                                    continue
                                raise
                            require(tuple(g.inputs()) == tuple(s.ins) and tuple(g.outputs()) == tuple(s.outs), 'the inputs or outputs changed')
                            require(ref.close(ref.value(g, doubled=dbl), w), 'the map changed')
                            rs = [g.row(v) for v in g.vertices()]
                            for a, v in enumerate(s.ins):
                                require(g.row(v) == 0 and g.qubit(v) == pi[a], 'input %s is at %s, %s', v, g.qubit(v), g.row(v))
                            for a, v in enumerate(s.outs):
                                require(g.row(v) == max(rs) and g.qubit(v) == po[a], 'output %s is at %s, %s', v, g.qubit(v), g.row(v))
                            require(set(rs) == set(range(len(set(rs)))), 'rows are not consecutive: %s', rs)
                            rep.outcome('normalized')


def detect_case(rep, g, backend):
    """inputs and outputs follow from the drawing"""
    nb = {v: list(g.neighbors(v)) for v in g.vertices() if int(g.type(v)) == BOUNDARY}
    bad = any(len(n) != 1 or g.row(n[0]) == g.row(v) for v, n in nb.items())
    wi = sorted((v for v, n in nb.items() if not bad and g.row(n[0]) > g.row(v)), key=g.qubit)
    wo = sorted((v for v, n in nb.items() if not bad and g.row(n[0]) < g.row(v)), key=g.qubit)
    f = full(g)
    try:
        g.auto_detect_io()
    except TypeError:
        require(bad, 'refused')
        require(full(g) == f, 'refused, but changed')
        rep.outcome('not detected')
        return
    require(not bad, 'detected inputs and outputs of a diagram that does not determine them')
    require([g.qubit(v) for v in g.inputs()] == [g.qubit(v) for v in wi] and set(g.inputs()) == set(wi), 'inputs are %s', g.inputs())
    require([g.qubit(v) for v in g.outputs()] == [g.qubit(v) for v in wo] and set(g.outputs()) == set(wo), 'outputs are %s', g.outputs())
    rep.outcome('detected')


def fam_rows(rep, n, i, k):
    """compressing the rows keeps their order"""
    for rows in slice_iter(itertools.product((-1.5, 0, 0.5, 1, 3), repeat=n), i, k):
        rep.state(rows)
        with rep.case(str(rows), {}):
            rep.step()
            g = zx.Graph()
            vs = [g.add_vertex(VertexType.Z, j, r) for j, r in enumerate(rows)]
            g.pack_circuit_rows()
            order = sorted(set(rows))
            require([g.row(v) for v in vs] == [order.index(r) for r in rows], 'rows are %s', [g.row(v) for v in vs])
            require([g.qubit(v) for v in vs] == list(range(n)), 'qubits changed')


FAMILIES = dict(wide=fam_wide, wide2=fam_wide2, wideplug=fam_wideplug, copy=fam_copy, compose=fam_compose, wrong=fam_wrong, chain=fam_chain, tensor=fam_tensor, plug=fam_plug,
                merge=fam_merge, sub=fam_sub, norm=fam_norm, rows=fam_rows)


def tasks(tier):
    deep = tier == 'thorough'
    T = []

    def add(fam, args, n):
        for i in range(n):
            T.append((fam, tuple(args) + (i, n)))
    for be in ('simple', 'multigraph'):
        for var in ('plain', 'holes', 'bare'):
            add('copy', ('all', (1,), be, var), 2)
            add('copy', ('all', (2,), be, var), 8)
            add('copy', ('w', (), be, var), 1)
        add('sub', ('all', (1,), be), 2)
        add('sub', ('all', (2,), be), 16)
        add('sub', ('w', (), be), 2)
        for a in range(3):
            for c in range(3 - (0 if deep else a > 1)):
                ks = 'zxhbg' if deep or a + c < 3 else 'zhb'
                add('compose', (a, 1, c, ks, ks, be), 8)
                ks = 'zxhbg' if a + c == 0 else 'zhb' if a + c < 2 or deep else 'zh' if a + c == 2 else 'z'
                add('compose', (a, 2, c, ks, ks, be), 32)
        add('compose', (1, 0, 1, 'zxhbg', 'zxhbg', be), 1)
        add('compose', (0, 3, 0, 'zh' if deep else 'z', 'z', be), 8)
        add('compose', (0, 3, 1, 'z', 'z' if deep else '', be), 8)
        add('compose', (1, 2, 1, ('zx', 'zh') if deep else ('zz',), 'z', be), 32)
        add('wide', (5 if deep else 4, be), 16)
        add('wide2', (6 if deep else 5, 1 if deep else 0, be), 16)
        add('wideplug', (3, 5 if deep else 4, be), 16)
        add('copy', ('big', (6 if deep else 4,), be, 'plain'), 16)
        add('chain', ('zxhbg' if deep else 'zhb', be), 32)
        add('tensor', ('zxhbg' if deep else 'zhg', be), 16)
        add('merge', ('zxhbg' if deep else 'zhb', be), 16)
        for a, b in ((0, 1), (1, 0), (1, 1), (2, 0), (0, 2), (2, 1), (1, 2)) + (((2, 2), (3, 0), (0, 3)) if deep else ()):
            add('plug', (a, b, 'zxhb' if a + b < 3 or deep else 'zh', be), 8)
            add('norm', (a, b, 'zxhbg' if a + b < 3 or deep else 'zhg', be), 8)
    for a, b in ((3, 0), (0, 3), (2, 2)):
        add('norm', (a, b, 'zh' if deep else 'z', 'simple'), 16)
    for m in (0, 1):
        add('copy', ('multi', (), 'multigraph', ('raw', 'plain')[m]), 4)
    add('sub', ('multi', (), 'multigraph'), 4)
    add('rows', (5 if deep else 4,), 4)
    T.append(('wrong', (0,)))
    if deep:
        for be in ('simple', 'multigraph'):
            add('copy', ('all', (3,), be, 'plain'), 64)
    return T


ASSUME = ['merging multiplies the scalars; a subgraph has scalar one',
          'a simple graph may refuse a composition that needs a parallel edge it cannot represent']
BOUNDS = dict(quick='copies and subgraphs: all diagrams with <=2 vertices of every kind; compositions: all pairs of diagrams with <=1 spider of every kind, '
                    '<=2 outer wires each and 0-3 shared wires connected in every way, all triples on one wire; all plugging strings',
              thorough='3 vertices for copies, all kinds everywhere, plugging with up to 4 wires')


def run():
    return core.main('C18', FAMILIES, tasks, ASSUME, BOUNDS)
