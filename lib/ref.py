"""Independent reference semantics of ZX/ZH/W diagrams (sum over paths, exact up to float rounding).

Shares no code with pyzx.tensor: every spider is one boolean variable, an X spider toggles the
Hadamard parity of its legs, plain edges identify variables, Hadamard edges contribute
(-1)^{xy}/sqrt2, everything else (H-box, W) is an explicit factor over leg variables.
"""
import cmath, math
import itertools
import numpy as np
from fractions import Fraction

BOUNDARY, Z, X, HBOX, WIN, WOUT, ZBOX = 0, 1, 2, 3, 4, 5, 6
SIMPLE, HAD, WIO = 1, 2, 3
R2 = math.sqrt(2.0)


def cexp(p):
    return cmath.exp(1j * math.pi * p)


class Net(object):
    """verts: list of (type, phase(float), label(complex or None), grounded); edges: list (i,j,et);
    ins/outs: lists of indices; scalar: complex."""
    __slots__ = ('verts', 'edges', 'ins', 'outs', 'scalar')

    def __init__(self, verts, edges, ins, outs, scalar=1.0):
        self.verts, self.edges, self.ins, self.outs, self.scalar = verts, edges, ins, outs, scalar


_tabs = {}


def _table(n):
    t = _tabs.get(n)
    if t is None:
        N = 1 << n
        B = np.array([[(k >> (n - 1 - i)) & 1 for i in range(n)] for k in range(N)], dtype=float).reshape(N, n)
        pairs = {}
        cols = []
        for i in range(n):
            for j in range(i + 1, n):
                pairs[(i, j)] = len(cols)
                cols.append(B[:, i] * B[:, j])
        P = np.array(cols).T.copy() if cols else np.zeros((N, 0))
        t = (B, P, pairs)
        _tabs[n] = t
    return t


class DSU(object):
    def __init__(self):
        self.p = []

    def new(self):
        self.p.append(len(self.p))
        return len(self.p) - 1

    def find(self, x):
        p = self.p
        while p[x] != x:
            p[x] = p[p[x]]
            x = p[x]
        return x

    def union(self, a, b):
        a, b = self.find(a), self.find(b)
        if a != b:
            self.p[b] = a


def evaluate(net, dense_max=10, doubled=False):
    """Tensor of shape (2,)*(len(ins)+len(outs)), inputs first. With grounds: doubled (CPM) tensor of
    shape (2,)*(2*(nin+nout))."""
    if doubled or any(v[3] for v in net.verts):
        return _evaluate_doubled(net, dense_max)
    d = DSU()
    var = [None] * len(net.verts)
    isx = [False] * len(net.verts)
    ph = {}
    mult = []      # (var, label) : |0> + label |1>
    legs = {}
    for i, (ty, p, lab, gr) in enumerate(net.verts):
        if ty in (BOUNDARY, Z, X, ZBOX):
            var[i] = d.new()
            if ty == X:
                isx[i] = True
            if ty in (Z, X) and p:
                ph[var[i]] = ph.get(var[i], 0.0) + p
            if ty == ZBOX:
                if p: raise ValueError('a Z-box with a phase')
                mult.append((var[i], lab))
        else:
            legs[i] = []
    scal = complex(net.scalar)
    hpairs = []
    for (a, b, et) in net.edges:
        h = (1 if et == HAD else 0) ^ isx[a] ^ isx[b]
        va = var[a]
        if va is None:
            va = d.new()
            legs[a].append(va)
        vb = var[b]
        if vb is None:
            vb = d.new()
            legs[b].append(vb)
        if h:
            hpairs.append((va, vb))
        else:
            d.union(va, vb)
    return _contract(d, ph, mult, hpairs, _tensors(net, legs), [var[i] for i in net.ins] + [var[i] for i in net.outs],
                     scal, dense_max)


def _tensors(net, legs):
    ts = []
    for i, l in legs.items():
        ty, p, lab, gr = net.verts[i]
        n = len(l)
        if ty == HBOX:
            m = np.ones((2,) * n, dtype=complex)
            m[(1,) * n] = lab if lab is not None else (cexp(p) if p else 1.0)
            ts.append((l, m))
        elif ty in (WIN, WOUT):
            m = np.zeros((2,) * n, dtype=complex)
            for k in range(n):
                idx = [0] * n
                idx[k] = 1
                m[tuple(idx)] = 1
            ts.append((l, m))
        else:
            raise ValueError('vertex type %r' % (ty,))
    return ts


def _contract(d, ph, mult, hpairs, tensors, opens, scal, dense_max):
    roots = {}

    def rid(v):
        r = d.find(v)
        if r not in roots:
            roots[r] = len(roots)
        return roots[r]
    opn = [rid(v) for v in opens]
    phase = {}
    for v, p in ph.items():
        r = rid(v)
        phase[r] = phase.get(r, 0.0) + p
    # every spider variable must be summed even when it has no factor
    for v in range(len(d.p)):
        rid(v)
    n = len(roots)
    pc = {}
    for a, b in hpairs:
        a, b = rid(a), rid(b)
        scal /= R2
        if a == b:
            phase[a] = phase.get(a, 0.0) + 1.0
        else:
            k = (a, b) if a < b else (b, a)
            pc[k] = pc.get(k, 0) ^ 1
    pairs = [k for k, c in pc.items() if c]
    mu = [(rid(v), l) for v, l in mult]
    ts = [([rid(v) for v in l], m) for l, m in tensors]
    # classes of open legs
    cls = []
    for o in opn:
        if o not in cls:
            cls.append(o)
    k = len(cls)
    order = {}
    for r in cls:
        order[r] = len(order)
    if n <= dense_max:
        for r in range(n):
            if r not in order:
                order[r] = len(order)
        B, P, pidx = _table(n)
        e = np.zeros(B.shape[0])
        if phase:
            pv = np.zeros(n)
            for r, p in phase.items():
                pv[order[r]] += p
            e = B @ pv
        if pairs:
            hv = np.zeros(P.shape[1])
            for a, b in pairs:
                a, b = order[a], order[b]
                hv[pidx[(a, b) if a < b else (b, a)]] += 1
            e = e + P @ hv
        amp = np.exp(1j * math.pi * e)
        for r, l in mu:
            amp = amp * np.where(B[:, order[r]] > 0, l, 1.0)
        for l, m in ts:
            idx = tuple(B[:, order[r]].astype(int) for r in l)
            amp = amp * (m[idx] if idx else m[()])
        res = amp.reshape(1 << k, -1).sum(axis=1).reshape((2,) * k) * scal
    else:
        res = _eliminate(n, phase, pairs, mu, ts, cls) * scal
    if len(opn) != k:
        full = np.zeros((2,) * len(opn), dtype=complex)
        pos = {r: i for i, r in enumerate(cls)}
        for bits in itertools.product((0, 1), repeat=k):
            full[tuple(bits[pos[o]] for o in opn)] = res[bits]
        res = full
    return res


_hf = np.array([[1, 1], [1, -1]], dtype=complex)


def _eliminate(n, phase, pairs, mu, ts, cls):
    factors = []
    seen = set()
    for r, p in phase.items():
        factors.append(((r,), np.array([1, cexp(p)])))
        seen.add(r)
    for r, l in mu:
        factors.append(((r,), np.array([1, l])))
        seen.add(r)
    for a, b in pairs:
        factors.append(((a, b), _hf))
        seen.add(a)
        seen.add(b)
    for l, m in ts:
        # repeated variables: take diagonal
        u = []
        for r in l:
            if r not in u:
                u.append(r)
        if len(u) != len(l):
            mm = np.zeros((2,) * len(u), dtype=complex)
            for bits in itertools.product((0, 1), repeat=len(u)):
                mm[bits] = m[tuple(bits[u.index(r)] for r in l)]
            m = mm
        factors.append((tuple(u), m))
        seen.update(u)
    keep = set(cls)
    for r in range(n):
        if r not in seen:
            factors.append(((r,), np.ones(2, dtype=complex)))
    todo = set(range(n)) - keep
    byvar = {r: set() for r in range(n)}
    fs = dict(enumerate(factors))
    for i, (vs, m) in fs.items():
        for r in vs:
            byvar[r].add(i)
    nxt = len(fs)
    scal = 1.0
    nb = {}
    for r in range(n):
        s = set()
        for i in byvar[r]:
            s.update(fs[i][0])
        s.discard(r)
        nb[r] = s
    while todo:
        r = min(todo, key=lambda q: (len(nb[q]), q))
        todo.discard(r)
        ids = sorted(byvar[r])
        vs = sorted(nb[r])
        if len(vs) > 22:
            raise MemoryError('reference contraction too wide')
        m = _combine([fs[i] for i in ids], vs + [r])
        m = m.sum(axis=-1)
        for i in ids:
            for q in fs[i][0]:
                byvar[q].discard(i)
            del fs[i]
        if vs:
            fs[nxt] = (tuple(vs), m)
            for q in vs:
                byvar[q].add(nxt)
            nxt += 1
        else:
            scal = scal * complex(m)
        for q in vs:
            nb[q].update(vs)
            nb[q].discard(q)
            nb[q].discard(r)
    return _combine(list(fs.values()), list(cls)) * scal


def _combine(factors, vs):
    pos = {v: i for i, v in enumerate(vs)}
    n = len(vs)
    out = np.ones((2,) * n, dtype=complex)
    for fv, m in factors:
        ps = [pos[v] for v in fv]
        perm = sorted(range(len(ps)), key=lambda i: ps[i])
        m = np.transpose(m, perm)
        shape = [1] * n
        for p in ps:
            shape[p] = 2
        out = out * m.reshape(shape)
    return out


def _evaluate_doubled(net, dense_max):
    nv = len(net.verts)
    verts, edges = [], []
    for (ty, p, lab, gr) in net.verts:
        verts.append((ty, p, lab, False))
    for (ty, p, lab, gr) in net.verts:
        if lab is None and ty == HBOX:
            lab2 = cexp(p).conjugate() if p else 1.0
        else:
            lab2 = None if lab is None else complex(lab).conjugate()
        verts.append((ty, -p, lab2, False))
    for a, b, et in net.edges:
        edges.append((a, b, et))
    for a, b, et in net.edges:
        edges.append((a + nv, b + nv, et))
    for i, (ty, p, lab, gr) in enumerate(net.verts):
        if gr:
            edges.append((i, i + nv, SIMPLE))
    opens = list(net.ins) + list(net.outs)
    return evaluate(Net(verts, edges, opens, [o + nv for o in opens], abs(complex(net.scalar)) ** 2), dense_max)


# ---------------------------------------------------------------------------------------------
# reading pyzx objects

def poly_value(p, env):
    """Numeric value of a symbolic polynomial under env (name -> number)."""
    tot = 0
    for c, t in p.terms:
        m = c
        for var, e in t.vars:
            m = m * (env[var.name] ** e)
        tot = tot + m
    return tot


def num(p, env=None):
    if hasattr(p, 'terms'):
        return poly_value(p, env or {})
    return p


def scalar_value(s, env=None):
    """Independent evaluation of a global scalar."""
    if s.is_zero:
        return 0j
    if s.is_unknown:
        raise ValueError('scalar is marked unknown')
    v = cexp(float(num(s.phase, env)))
    for nd in s.phasenodes:
        v *= 1 + cexp(float(num(nd, env)))
    return v * R2 ** s.power2 * s.floatfactor


def zlabel(g, v):
    lab = g.vdata(v, 'label', 1)
    return complex(lab)


def net_of(g, env=None, scalar=True):
    """Read a pyzx graph through its public interface."""
    idx = {}
    verts = []
    grounds = set(g.grounds()) if hasattr(g, 'grounds') else set()
    for v in g.vertices():
        idx[v] = len(verts)
        ty = int(g.type(v))
        p = g.phase(v)
        lab = zlabel(g, v) if ty == ZBOX else None
        verts.append((ty, float(num(p, env)) if ty != BOUNDARY else 0.0, lab, v in grounds))
    edges = []
    for e in g.edges():
        a, b = g.edge_st(e)
        edges.append((idx[a], idx[b], int(g.edge_type(e))))
    return Net(verts, edges, [idx[v] for v in g.inputs()], [idx[v] for v in g.outputs()],
               scalar_value(g.scalar, env) if scalar else 1.0)


def value(g, env=None, scalar=True, doubled=False):
    return evaluate(net_of(g, env, scalar), doubled=doubled)


def matrix(g, env=None, scalar=True):
    """2^out x 2^in matrix."""
    t = value(g, env, scalar)
    ni, no = len(g.inputs()), len(g.outputs())
    return t.reshape(2 ** ni, 2 ** no).T


def close(a, b, tol=1e-7):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    m = max(1e-9, float(np.max(np.abs(a))) if a.size else 0.0, float(np.max(np.abs(b))) if b.size else 0.0)
    return bool(np.all(np.isfinite(a))) and float(np.max(np.abs(a - b))) <= tol * max(m, 1e-3)


def prop(a, b, tol=1e-7, allow_zero=True):
    """a and b equal up to a non-zero scalar."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    ma, mb = float(np.max(np.abs(a))), float(np.max(np.abs(b)))
    if ma < 1e-10 or mb < 1e-10:
        return allow_zero and ma < 1e-10 and mb < 1e-10
    k = np.unravel_index(np.argmax(np.abs(a)), a.shape)
    if abs(b[k]) < 1e-9 * mb:
        return False
    return float(np.max(np.abs(a / a[k] - b / b[k]))) <= tol * 10
