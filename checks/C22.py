"""C22: tensors and matrices of diagrams, tensor helpers and the quimb export, against an independent evaluator."""
import itertools, warnings
from fractions import Fraction as F
import numpy as np
import core, ref
from core import require, slice_iter
from diag import V, Spec, build, enum_graphs, spec_of
from ref import Z, X, HBOX, ZBOX, WIN, WOUT, WIO, BOUNDARY
import pyzx as zx
from pyzx.symbolic import new_var
from pyzx.utils import VertexType, EdgeType
import big, C01, C06, C18

SIZES = {}


def rel(a, b, tol=1e-6):
    """equal up to a relative error; the sizes may be anything"""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    m = max(float(np.abs(a).max()) if a.size else 0, float(np.abs(b).max()) if b.size else 0)
    return bool(np.all(np.isfinite(a))) and (m == 0 or bool(float(np.abs(a - b).max()) <= tol * m)) if m > 1e-12 else True


def want_matrix(g):
    return ref.matrix(g, scalar=False), ref.scalar_value(g.scalar)


def judge(rep, g, w, sc, what=''):
    """w: the matrix without the scalar"""
    ni, no = len(g.inputs()), len(g.outputs())
    f = C18.full(g)
    t = g.to_tensor()
    rep.step()
    require(t.shape == (2,) * (ni + no), '%s: shape %s', what, t.shape)
    require(ref.close(t.reshape(2 ** no, 2 ** ni), w * sc), '%s: tensor %s instead of %s', what, t.reshape(2 ** no, 2 ** ni).round(4).tolist(), (w * sc).round(4).tolist())
    m = g.to_matrix()
    require(m.shape == (2 ** no, 2 ** ni) and ref.close(m, w * sc), '%s: matrix', what)
    for x in (g.to_tensor(False).reshape(2 ** no, 2 ** ni), g.to_matrix(False), zx.tensorfy(g, preserve_scalar=False).reshape(2 ** no, 2 ** ni)):
        k = np.unravel_index(np.abs(w).argmax(), w.shape)
        if abs(w[k]) < 1e-9:
            require(np.abs(x).max() < 1e-7, '%s: the map is zero', what)
            continue
        c = x[k] / w[k]
        require(abs(c.imag) < 1e-6 * abs(c) and c.real > 0 and ref.close(x, c * w), '%s: without the scalar', what)
    require(C18.full(g) == f, '%s: evaluating changes the diagram', what)


def get(src, args):
    if src == 'multi':
        return C18.multi_diagrams()
    mod = big if src == 'mixed' else C18 if src in ('all_kinds', 'w_diagrams') else C06 if src in ('zh_specs', 'par_specs', 'hyper_specs') else C01
    return getattr(mod, src)(*args)


def fam_diag(rep, src, args, backend, i, k):
    for s in slice_iter(get(src, args), i, k):
        if any(v[3] for v in s.verts):
            continue
        key = '%s %s' % (backend, s.show())
        if not rep.state(key):
            continue
        try:
            g = build(s, backend, auto=False if backend == 'multigraph' else None)
        except ValueError as ex:
            if C18.refused(ex):
                continue
            raise
        with rep.case(key, dict(backend=backend)):
            C18.decorate(g)
            g.scalar.phasenodes = []
            w, sc = want_matrix(g)
            judge(rep, g, w, sc)


def fam_multi(rep, kinds, i, k):
    """two vertices of every kind joined by several edges, self-loops"""
    ks = dict(z=V(Z, F(1, 4)), x=V(X, F(3, 4)), h=V(HBOX, F(1, 2)), b=V(ZBOX, 0, 2 - 1j), i=V(Z, 0))
    def specs():
        for a, b in kinds:
            for m in itertools.product(range(4), range(4), range(3), range(3), range(3)):
                verts = [ks[a], ks[b], V(BOUNDARY), V(BOUNDARY)]
                edges = [(0, 1, 1)] * m[0] + [(0, 1, 2)] * m[1] + [(0, 0, 1)] * m[2] + [(0, 0, 2)] * m[3] + [(1, 1, 2)] * m[4]
                yield Spec(verts, edges + [(0, 2, 1), (1, 3, 2)], [2], [3])
    for s in slice_iter(specs(), i, k):
        key = 'multi %s' % s.show()
        with rep.case(key, dict(backend='multigraph')):
            rep.state(key)
            g = build(s, 'multigraph', auto=False)
            judge(rep, g, s_matrix(s), 1)


def s_matrix(s):
    t = s.value()
    return t.reshape(2 ** len(s.ins), 2 ** len(s.outs)).T


def fam_arity(rep, n, phases, i, k):
    """one vertex of every kind and arity, with every mixture of edges and every split in inputs and outputs"""
    ks = [V(t, p) for t in (Z, X, HBOX) for p in phases] + [V(ZBOX, 0, l) for l in (0, 1, -1, 2 + 1j, F(1, 2))]
    def jobs():
        for kd in ks:
            for h in range(n + 1):
                for ni in range(n + 1):
                    yield kd, h, ni
    for kd, h, ni in slice_iter(jobs(), i, k):
        verts = [V(BOUNDARY)] * n + [kd]
        edges = [(n, b, 2 if (b * 3 + 1) % n < h else 1) for b in range(n)]
        s = Spec(verts, edges, list(range(ni)), list(range(ni, n)))
        key = '%s arity %d' % (s.show(), n)
        with rep.case(key, {}):
            rep.state(key)
            judge(rep, build(s), s_matrix(s), 1)
    for h in range(n + 1):           # W nodes: the leg of the W input, n - 1 legs of the W output
        for ni in range(n + 1):
            if n and (h + ni) % k == i:
                s = Spec([V(BOUNDARY)] * n + [V(WIN), V(WOUT)], [(n, n + 1, WIO)] +
                         [(n + (b > 0), b, 2 if (b * 3 + 1) % n < h else 1) for b in range(n)], list(range(ni)), list(range(ni, n)))
                key = '%s W arity %d' % (s.show(), n)
                with rep.case(key, {}):
                    rep.state(key)
                    judge(rep, build(s), s_matrix(s), 1)


def layouts():
    """small diagrams whose layout and numbering is varied"""
    b = V(BOUNDARY)
    yield Spec([b, V(Z, F(1, 4)), V(X, F(1, 2)), b, b], [(0, 1, 1), (1, 2, 2), (2, 3, 1), (1, 4, 2)], [0], [3, 4])
    yield Spec([b, b, V(Z, F(1, 4)), b, b], [(0, 3, 2), (1, 2, 1), (2, 4, 1)], [0, 1], [3, 4])
    yield Spec([b, b, V(HBOX, F(1, 2)), V(Z, 0), b], [(0, 2, 1), (1, 2, 2), (2, 3, 1), (3, 4, 2)], [0, 1], [4])
    yield Spec([b, b, b, V(ZBOX, 0, 1 + 2j), b], [(0, 1, 2), (2, 3, 1), (3, 4, 1)], [0, 1, 2], [4])
    yield Spec([b, V(WIN), V(WOUT), b, b], [(0, 1, 1), (1, 2, WIO), (2, 3, 1), (2, 4, 2)], [0], [3, 4])
    yield Spec([V(Z, F(1, 4)), V(X, F(1, 3)), V(Z, 0), b, b], [(0, 1, 1), (1, 2, 2), (2, 3, 1)] + [(0, 4, 2)], [], [3, 4])
    yield Spec([b, b, V(X, F(1, 4)), V(Z, 0), V(X, 0)], [(0, 2, 1), (2, 3, 1), (3, 4, 2), (4, 1, 1), (2, 4, 2)], [0, 1], [])
    yield Spec([V(Z, F(1, 4)), V(X, F(1, 2)), V(HBOX, F(1, 3)), V(Z, F(1, 3)), V(X, F(7, 4))], [(0, 1, 2), (1, 2, 1), (2, 3, 2), (0, 3, 1)], [], [])


def fam_layout(rep, which, mode, backend, i, k):
    s = list(layouts())[which]
    n = len(s.verts)
    if mode == 'rows':
        jobs = itertools.product((0, 1, 2), repeat=n)
    elif mode == 'odd':
        jobs = itertools.product((-3, 0.5, None), repeat=n)
    else:
        jobs = itertools.permutations(range(n))
    w = s_matrix(s)
    for j in slice_iter(jobs, i, k):
        key = 'layout %d %s %s %s' % (which, mode, j, backend)
        with rep.case(key, dict(backend=backend)):
            rep.state(key)
            if mode == 'names':
                g = zx.Graph(backend)
                for v in j:
                    g.add_vertex_indexed(2 * v + 1)
                    g.set_position(2 * v + 1, 0, j[0] % 3 + v % 2)
                nm = {x: 2 * j[x] + 1 for x in range(n)}
            else:
                g = zx.Graph(backend)
                g.add_vertices(n)
                nm = {x: x for x in range(n)}
                for v, r in enumerate(j):
                    if r is not None:
                        g.set_position(v, 0, r)
            for x, (t, p, l, gr) in enumerate(s.verts):
                g.set_type(nm[x], VertexType(t))
                g.set_phase(nm[x], p)
                if l is not None:
                    zx.utils.set_z_box_label(g, nm[x], l)
            for a, b, t in s.edges:
                g.add_edge((nm[b], nm[a]), EdgeType(t))
            for ins in itertools.permutations(range(len(s.ins))):
                for outs in itertools.permutations(range(len(s.outs))):
                    g.set_inputs(tuple(nm[s.ins[x]] for x in ins))
                    g.set_outputs(tuple(nm[s.outs[x]] for x in outs))
                    t = s.value().transpose(list(ins) + [len(s.ins) + x for x in outs])
                    judge(rep, g, t.reshape(2 ** len(s.ins), 2 ** len(s.outs)).T, 1, '%s %s' % (ins, outs))


def fam_wires(rep, ni, no, kinds, backend, i, k):
    for s in slice_iter(C18.pool(ni, no, kinds), i, k):
        if any(v[3] for v in s.verts):
            continue
        key = 'wires %s %s' % (s.show(), backend)
        with rep.case(key, dict(backend=backend)):
            rep.state(key)
            judge(rep, build(s, backend), s_matrix(s), 1)


def fam_deep(rep, i, k):
    """long diagrams with values that get small or large; every length up to the bound"""
    jobs = [(n, p, t, w) for n in list(range(1, 90)) for p in (F(1), F(3, 4), F(15, 16), F(1, 8)) for t in (Z, X) for w in (1, 2)]
    for n, p, t, wd in slice_iter(jobs, i, k):
        key = 'deep %d %s %d %d' % (n, p, t, wd)
        with rep.case(key, {}):
            rep.state(key)
            g = zx.Graph()
            a = [g.add_vertex(VertexType.BOUNDARY, q, 0) for q in range(wd)]
            m = np.eye(2 ** wd)
            o = list(a)
            e = np.exp(1j * np.pi * float(p))
            # a leaf on the wire: multiplies by diag(1 + e, 1 - e) (or its conjugate by H) over sqrt 2
            for r in range(n):
                v = g.add_vertex(VertexType.Z if t == Z else VertexType.X, 0, r + 1)
                w = g.add_vertex(VertexType.X if t == Z else VertexType.Z, -1, r + 1, p)
                g.add_edge((o[0], v))
                g.add_edge((v, w))
                o[0] = v
                d = np.diag([1 + e, 1 - e]) / np.sqrt(2)
                if t == X:
                    h = np.array([[1, 1], [1, -1]]) / np.sqrt(2)
                    d = h @ d @ h
                m = np.kron(d, np.eye(2 ** (wd - 1))) @ m
            b = [g.add_vertex(VertexType.BOUNDARY, q, n + 2) for q in range(wd)]
            for x, y in zip(o, b):
                g.add_edge((x, y))
            g.set_inputs(tuple(a))
            g.set_outputs(tuple(b))
            g.scalar.add_power(-3)
            x = g.to_matrix()
            sc = np.sqrt(2) ** -3
            require(np.abs(x - m * sc).max() <= 1e-6 * np.abs(m * sc).max(), 'matrix')
            x = g.to_matrix(False)
            j = np.unravel_index(np.abs(m).argmax(), m.shape)
            c = x[j] / m[j]
            require(c.real > 0 and abs(c.imag) < 1e-6 * abs(c) and np.abs(x - c * m).max() <= 1e-6 * np.abs(x).max(), 'without the scalar')
            rep.step(2)


def fam_scalar(rep, i, k):
    """scalars and what has no value"""
    sp = Spec([V(BOUNDARY), V(Z, F(1, 4)), V(BOUNDARY)], [(0, 1, 1), (1, 2, 2)], [0], [2])
    jobs = list(itertools.product(range(-8, 9), (F(0), F(1, 4), F(3, 2)), ((), (F(1, 3),), (F(1, 2), F(1))), (1, -2.5, 1j)))
    for p2, ph, nodes, fl in slice_iter(jobs, i, k):
        key = 'scalar %s %s %s %s' % (p2, ph, nodes, fl)
        with rep.case(key, {}):
            rep.state(key)
            g = build(sp)
            g.scalar.add_power(p2)
            g.scalar.add_phase(ph)
            for x in nodes:
                g.scalar.add_node(x)
            g.scalar.add_float(fl)
            e = np.exp(1j * np.pi / 4)
            w = np.array([[1, e], [1, -e]]) / np.sqrt(2)
            z = np.sqrt(2) ** p2 * np.exp(1j * np.pi * float(ph)) * fl
            for x in nodes:
                z *= 1 + np.exp(1j * np.pi * float(x))
            judge(rep, g, w, z)
    if i:
        return
    for what in ('ground', 'io', 'poly', 'outdeg', 'intype'):
        with rep.case('refused %s' % what, {}):
            rep.state('refused %s' % what)
            g = build(sp)
            if what == 'ground':
                g.set_ground(1)
            elif what == 'io':
                g.set_inputs(())
                g.set_outputs(())
            elif what == 'poly':
                g.variable_types['a'] = False
                g.set_phase(1, new_var('a', g.variable_types))
            elif what == 'outdeg':
                g.add_edge((2, g.add_vertex(VertexType.Z)))
            elif what == 'intype':
                g.set_type(0, VertexType.Z)
            try:
                g.to_tensor()
                require(False, 'a diagram without a value is evaluated')
            except ValueError:
                pass
            rep.step()
    with rep.case('zero', {}):
        g = build(sp)
        g.scalar.is_zero = True
        require(np.abs(g.to_tensor()).max() == 0, 'zero')
    with rep.case('empty', {}):
        for b in ('simple', 'multigraph'):
            g = zx.Graph(b)
            require(g.to_tensor().shape == () and g.to_tensor() == 1 and g.to_matrix().shape == (1, 1), 'empty')
            g.scalar.add_power(2)
            require(abs(g.to_tensor() - 2) < 1e-9, 'empty with scalar')


def fam_matrix(rep, i, k):
    """tensor_to_matrix of every shape; find_scalar_correction; circuits"""
    from pyzx import tensor as T
    for ni, no in slice_iter(itertools.product(range(5), repeat=2), i, k):
        with rep.case('shape %d %d' % (ni, no), {}):
            rep.state((ni, no))
            t = np.arange(2 ** (ni + no)).reshape((2,) * (ni + no)) * (1 + 1j)
            m = T.tensor_to_matrix(t, ni, no)
            rep.step()
            require(np.array_equal(m, t.reshape(2 ** no, 2 ** ni)), 'tensor_to_matrix')
    pool = [s for s in C18.pool(1, 1, 'zx') + C18.pool(1, 1, 'h')]
    for a in slice_iter(pool, i, k):
        for b in pool:
            key = 'compose %s %s' % (a.show(), b.show())
            with rep.case(key, {}):
                rep.state(key)
                ga, gb = build(a), build(b)
                ta, tb = ga.to_tensor(), gb.to_tensor()
                rep.step()
                require(ref.close(T.compose_tensors(ta, tb), s_matrix(b) @ s_matrix(a)), 'compose_tensors')
                require(ref.close(T.adjoint(ta), s_matrix(a).conj().T), 'adjoint')
                x, y = s_matrix(a), s_matrix(b)
                if ref.prop(x, y) and np.abs(x).max() > 1e-9:
                    z = zx.find_scalar_correction(ga, gb)
                    require(ref.close(x, z * y), 'find_scalar_correction')


def fam_quimb(rep, src, args, backend, i, k):
    from pyzx.quimb import to_quimb_tensor
    for s in slice_iter(get(src, args), i, k):
        if any(v[3] for v in s.verts):
            continue
        key = 'quimb %s %s' % (backend, s.show())
        if not rep.state(key):
            continue
        try:
            g = build(s, backend, auto=False if backend == 'multigraph' else None)
        except ValueError as ex:
            if C18.refused(ex):
                continue
            raise
        quimb_case(rep, key, g, backend, to_quimb_tensor)


def quimb_case(rep, key, g, backend, conv, dec=True):
    with rep.case(key, dict(backend=backend)):
        if dec:
            C18.decorate(g)
        f = C18.full(g)
        try:
            tn = conv(g)
        except NotImplementedError:
            require(any(g.type(v) not in (Z, X, BOUNDARY) for v in g.vertices()), 'refused')
            rep.outcome('refused')
            return
        rep.step()
        require(C18.full(g) == f, 'exporting changes the diagram')
        num = {v: j for j, v in enumerate(g.vertices())}
        oi = [str(num[v]) for v in list(g.inputs()) + list(g.outputs())]
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            t = tn.contract(output_inds=oi)
        require(set(oi) <= set(tn.ind_map), 'indices')
        x = t if not oi else t.transpose(*oi).data
        w = ref.value(g)
        require(ref.close(np.asarray(x), w), 'contracts to %s instead of %s', np.asarray(x).round(4).tolist(), w.round(4).tolist())
        rep.outcome('contracted')


def fam_quimb2(rep, i, k):
    """scalars, isolated spiders, arities"""
    from pyzx.quimb import to_quimb_tensor
    jobs = []
    for n in range(6):
        for t in (Z, X, HBOX, ZBOX):
            for p in (F(0), F(1), F(1, 4)):
                for h in (0, 1, n):
                    jobs.append((n, t, p, h))
    for n, t, p, h in slice_iter(jobs, i, k):
        for zero in (False, True):
            key = 'quimb arity %s %s' % ((n, t, p, h), zero)
            rep.state(key)
            verts = [V(BOUNDARY)] * n + [V(t, 0, 2 + 1j) if t == ZBOX else V(t, p), V(Z, F(1, 4)), V(X, 0)]
            s = Spec(verts, [(n, b, 2 if b < h else 1) for b in range(n)], [], list(range(n)))
            g = build(s)
            g.scalar.add_phase(p)
            g.scalar.add_power(-5)
            g.scalar.add_node(F(1, 3))
            g.scalar.add_float(-0.5)
            if zero:
                g.scalar.is_zero = True
            quimb_case(rep, key, g, 'simple', to_quimb_tensor, False)
    if i == 0:
        for z in (False, True):
            g = zx.Graph()
            g.scalar.add_power(3)
            g.scalar.is_zero = z
            quimb_case(rep, 'quimb empty %s' % z, g, 'simple', to_quimb_tensor, False)


FAMILIES = dict(diag=fam_diag, multi=fam_multi, arity=fam_arity, layout=fam_layout, wires=fam_wires, deep=fam_deep, scalar=fam_scalar, matrix=fam_matrix, quimb=fam_quimb, quimb2=fam_quimb2)
ZK = [V(Z, 0), V(Z, F(1, 4)), V(X, F(1, 2)), V(HBOX, 1), V(HBOX, F(1, 2)), V(ZBOX, 0, 2 + 1j)]


def tasks(tier):
    q = tier == 'quick'
    t = []
    for b in ('simple', 'multigraph'):
        t += [('diag', ('all_kinds', (2,), b, i, 4)) for i in range(4)]
        t += [('diag', ('w_diagrams', (), b, 0, 1))]
        t += [('diag', ('zh_specs', (3, ZK[:4] if q else ZK, ((), (1,), (1, 2))), b, i, 24)) for i in range(24)]
        t += [('quimb', ('all_kinds', (2,), b, i, 4)) for i in range(4)]
        t += [('quimb', ('w_diagrams', (), b, 0, 1))]
        t += [(f, ('mixed', (4, 6, 9 if q else 1), b, i, 8)) for f in ('diag', 'quimb') for i in range(8)]
        for w in range(8):
            t += [('layout', (w, m, b, i, 2)) for m in ('rows', 'odd', 'names') for i in range(2)]
        for ni, no in [(0, 0), (0, 1), (0, 2), (1, 1), (2, 1), (2, 2), (1, 3), (3, 1), (4, 0)] + ([] if q else [(3, 2), (2, 3), (3, 3)]):
            t += [('wires', (ni, no, 'zxhb', b, i, 2)) for i in range(2)]
    if not q:
        t += [('diag', ('all_kinds', (3,), 'simple', i, 64)) for i in range(64)]
        t += [('diag', ('zh_specs', (4, ZK[1:5], ((), (1,))), 'simple', i, 96)) for i in range(96)]
        t += [('quimb', ('zh_specs', (3, ZK, ((), (1,), (2, 1))), 'simple', i, 64)) for i in range(64)]
    t += [('multi', (('zz', 'zx', 'xx'), i, 4)) for i in range(4)]
    t += [('multi', (('hz', 'hx', 'hh', 'bz', 'bx', 'bb', 'bh', 'zi') if not q else ('hx', 'bz', 'hi'), i, 4)) for i in range(4)]
    t += [('quimb', ('multi', (), 'multigraph', i, 2)) for i in range(2)]
    ph = [F(a, 8) for a in range(16)] if not q else [F(0), F(1), F(1, 4), F(3, 2), F(13, 8)]
    for n in range(1, 7 if q else 9):
        t += [('arity', (n, ph, i, 2)) for i in range(2)]
    t += [('deep', (i, 8)) for i in range(8)] + [('scalar', (i, 2)) for i in range(2)] + [('matrix', (i, 4)) for i in range(4)] + [('quimb2', (i, 4)) for i in range(4)]
    return t


def run():
    return core.main('C22', FAMILIES, tasks, assumptions=['values are compared with a relative tolerance of 1e-7', 'the network exported to quimb is contracted with quimb itself'],
                     exhaustive_note='all diagrams, layouts, numberings and orders of inputs and outputs within the bounds')
