"""C31: generators and measurement patterns: every outcome of every random choice, compared with what was asked for."""
import collections, itertools
from fractions import Fraction as F
import numpy as np
import core, choice, ref, circ
from core import require, slice_iter
from ref import Z, X, BOUNDARY
import pyzx as zx
from pyzx import generate as N, mbqc
from pyzx.utils import VertexType, EdgeType

I2 = np.eye(2)
HAD = np.array([[1, 1], [1, -1]]) / np.sqrt(2)


def grid(m):
    return tuple((j + 0.5) / m for j in range(m))


def well_formed(g, n, backend='simple'):
    """n inputs and outputs, one wire each, on their own lines from left to right"""
    ins, outs = g.inputs(), g.outputs()
    require(isinstance(ins, tuple) and isinstance(outs, tuple), 'inputs are no tuple')
    require(len(set(ins)) == len(ins) == n and len(set(outs)) == len(outs) == n, '%d inputs and %d outputs', len(ins), len(outs))
    require(not set(ins) & set(outs), 'an input is an output')
    bd = {v for v in g.vertices() if g.type(v) == BOUNDARY}
    require(bd == set(ins) | set(outs), 'boundaries')
    for v in bd:
        require(g.vertex_degree(v) == 1, 'boundary of degree %d', g.vertex_degree(v))
    for k in range(n):
        require(g.qubit(ins[k]) == k and g.qubit(outs[k]) == k, 'boundary %d is on the lines %s and %s', k, g.qubit(ins[k]), g.qubit(outs[k]))
    for v in g.vertices():
        require(g.qubit(v) in range(n), 'vertex on line %s', g.qubit(v))
        for w in g.neighbors(v):
            require(v != w, 'self loop')
            require(g.qubit(v) == g.qubit(w) or g.row(v) == g.row(w), 'wire between lines and rows')
            require(g.qubit(v) != g.qubit(w) or g.row(v) != g.row(w), 'two vertices at one place')
    if n:
        require(len({g.row(v) for v in ins}) == 1 and len({g.row(v) for v in outs}) == 1, 'boundaries are not aligned')
        require(min(g.row(v) for v in g.vertices()) == g.row(ins[0]) and max(g.row(v) for v in g.vertices()) == g.row(outs[0]), 'boundaries are not at the ends')


def rounded(m):
    return tuple(np.round(np.ravel(m), 5).real + 0.0) + tuple(np.round(np.ravel(m), 5).imag + 0.0)


def tagged(fn):
    def run():
        try:
            return fn()
        except Exception as e:
            return e
    return run


def products(n, steps, depth):
    """multiset of the products of all sequences of the steps"""
    cnt = collections.Counter()
    for s in itertools.product(steps, repeat=depth):
        u = np.eye(2 ** n)
        for m in s:
            u = m @ u
        cnt[rounded(u)] += 1
    return cnt


def same_distribution(got, want, what):
    require(set(got) == set(want), '%s: %d different results instead of %d', what, len(got), len(want))
    tg, tw = sum(got.values()), sum(want.values())
    for k in want:
        require(got[k] * tw == want[k] * tg, '%s: probabilities', what)


# ---------------------------------------------------------------- CNOT circuits
def cnot_steps(n):
    return [circ.embed(circ.gate_matrix(('CNOT', (0, 1), ())), (a, b), n) for a, b in itertools.permutations(range(n), 2)]


def fam_cnots(rep, n, d, backend):
    got = collections.Counter()
    for ch, g, cut in choice.explore(tagged(lambda: N.cnots(n, d, backend) if backend else N.cnots(n, d))):
        key = 'cnots %d %d %s %s' % (n, d, backend, ch)
        rep.state(key)
        with rep.case(key, dict(op='cnots')):
            rep.step()
            if isinstance(g, Exception):
                raise g
            require(zx.Graph(backend).backend == g.backend, 'backend %s', g.backend)
            well_formed(g, n)
            m = ref.matrix(g)
            got[rounded(m)] += 1
            require(all(g.edge_type(e) == 1 for e in g.edges()) and not any(g.phase(v) for v in g.vertices()), 'phases or Hadamard edges')
            c = zx.Circuit.from_graph(g)
            require(c.qubits == n and [x.name for x in c.gates] == ['CNOT'] * d, 'gates %s', [x.name for x in c.gates])
            require(ref.close(circ.circuit_unitary(c), m), 'the circuit read from the diagram has another matrix')
    with rep.case('cnots %d %d distribution' % (n, d), dict(op='cnots distribution')):
        same_distribution(got, products(n, cnot_steps(n), d) if n > 1 else products(n, [np.eye(2)], 0), 'CNOT circuits')


def fam_parity_map(rep, n, d):
    got = collections.Counter()
    from pyzx.linalg import Mat2

    class Rec(object):
        def __init__(self):
            self.rows = []

        def row_add(self, a, b):
            self.rows.append((a, b))
    for form in ('none', 'one', 'list'):
        def program():
            r = [Rec() for _ in range(5)]
            m = N.build_random_parity_map(n, d) if form == 'none' else N.build_random_parity_map(n, d, circuit=r[0] if form == 'one' else r)
            return m, r
        for ch, res, cut in choice.explore(tagged(program)):
            key = 'parity map %d %d %s %s' % (n, d, form, ch)
            rep.state(key)
            with rep.case(key, dict(op='parity_map')):
                rep.step()
                if isinstance(res, Exception):
                    raise res
                m, r = res
                a = np.eye(n, dtype=int)
                for s, t in r[0].rows:
                    a[t] = (a[t] + a[s]) % 2
                if form != 'none':
                    require(len(r[0].rows) == d and all(s != t for s, t in r[0].rows), 'CNOTs added %s', r[0].rows)
                    require(np.array_equal(np.array(m).astype(int), a), 'matrix is not that of the CNOTs: %s %s', m, r[0].rows)
                require(all(x.rows == (r[0].rows if form == 'list' else []) for x in r[1:]), 'further circuits')
                got[(form, tuple(np.ravel(np.array(m).astype(int))))] += 1
    with rep.case('parity map %d %d' % (n, d), dict(op='parity_map distribution')):
        want = collections.Counter()
        for s in itertools.product(list(itertools.permutations(range(n), 2)), repeat=d):
            a = np.eye(n, dtype=int)
            for x, y in s:
                a[y] = (a[y] + a[x]) % 2
            for form in ('none', 'one', 'list'):
                want[(form, tuple(np.ravel(a)))] += 1
        same_distribution(got, want, 'parity maps')


# ---------------------------------------------------------------- Clifford+T circuits
GATES = dict(t=circ.P(F(1, 4)), s=circ.P(F(1, 2)), hsh=HAD @ circ.P(F(1, 2)) @ HAD)


def weights(p, names):
    left = [k for k in names if p.get(k) is None]
    rest = 1 - sum(v for v in p.values() if v is not None)
    return {k: p[k] if p.get(k) is not None else rest / F(len(left)) for k in names}


def fam_cliffordT(rep, n, d, p, m, meas):
    """probabilities are multiples of 1/m; the real draws are the middles of m equal intervals"""
    names = ('t', 's', 'hsh', 'cnot') + (('meas',) if meas else ())
    w = weights({k: F(v).limit_denominator(m) for k, v in p.items()}, names)
    kw = {'p_' + k: float(v) for k, v in p.items()}
    want = collections.Counter()
    steps = []
    for k in names:
        c = int(w[k] * m)
        require(c == w[k] * m, 'harness: probabilities')
        for q in range(n):
            for r in ([x for x in range(n) if x != q] if k == 'cnot' else [None] * max(1, n - 1)):
                steps += [(k, q, r)] * c
    for s in itertools.product(steps, repeat=d):
        want[wanted(n, s, meas)] += 1
    got = collections.Counter()

    def one(c):
        k = {}
        return c
    for ch, g, cut in choice.explore(tagged(lambda: N.cliffordTmeas(n, d, **kw) if meas else N.cliffordT(n, d, **kw)), floats=grid(m)):
        key = 'cliffordT %d %d %s %s' % (n, d, sorted(p.items()), ch)
        rep.state(key)
        with rep.case(key, dict(op='cliffordT')):
            rep.step()
            if isinstance(g, Exception):
                raise g
            well_formed(g, n)
            res = observed(g, n, meas)
            # a step without a CNOT makes fewer draws: weigh it as if it drew the second qubit, too
            k = g.num_vertices() - 4 * n - d
            got[res] += (n - 1) ** (d - k) if n > 2 else 1
    with rep.case('cliffordT %d %d %s distribution' % (n, d, sorted(p.items())), dict(op='cliffordT distribution')):
        same_distribution(got, want, 'Clifford+T circuits')


def wanted(n, s, meas):
    if not meas:
        u = np.eye(2 ** n)
        for k, q, r in s:
            u = (circ.embed(circ.gate_matrix(('CNOT', (0, 1), ())), (q, r), n) if k == 'cnot' else circ.embed(GATES[k], (q,), n)) @ u
        return rounded(u)
    ops = [np.eye(2 ** n)]
    for k, q, r in s:
        if k == 'meas':
            ops = [circ.embed(np.diag([1 - b, b]), (q,), n) @ o for o in ops for b in (0, 1)]
        else:
            u = circ.embed(circ.gate_matrix(('CNOT', (0, 1), ())), (q, r), n) if k == 'cnot' else circ.embed(GATES[k], (q,), n)
            ops = [u @ o for o in ops]
    return rounded(sum(np.kron(o, o.conj()) for o in ops))


def observed(g, n, meas):
    if not meas:
        return rounded(ref.matrix(g))
    t = ref.value(g, doubled=True)
    return rounded(from_doubled(t, n))


def from_doubled(t, n):
    """doubled tensor (inputs, outputs, and the same of the conjugate copy) as a superoperator on vectorised operators"""
    R = list(range(n))
    axes = [n + k for k in R] + [3 * n + k for k in R] + R + [2 * n + k for k in R]
    return np.reshape(np.transpose(t, axes), (4 ** n, 4 ** n))


def fam_chp(rep, n, d, ph, pt, m, cliff):
    """CNOT_HAD_PHASE_circuit; the rejection of equal qubits is cut off"""
    first = {}
    seen = set()
    for ch, c, cut in choice.explore(tagged(lambda: N.CNOT_HAD_PHASE_circuit(n, d, float(ph), float(pt), cliff)), floats=grid(m), limit=3 * d + 2):
        if cut:
            rep.outcome('cut')
            continue
        key = 'CHP %d %d %s %s %s %s' % (n, d, ph, pt, cliff, ch)
        rep.state(key)
        with rep.case(key, dict(op='chp')):
            rep.step()
            if isinstance(c, Exception):
                raise c
            require(isinstance(c, zx.Circuit) and c.qubits == n and len(c.gates) == d, '%d gates', len(c.gates))
            names = [g.name for g in c.gates]
            require(set(names) <= {'CNOT', 'HAD', 'S' if cliff else 'T'}, 'gates %s', names)
            require(all(not getattr(g, 'adjoint', False) and g.target in range(n) and getattr(g, 'control', -1) in range(-1, n) and getattr(g, 'control', -1) != g.target for g in c.gates), 'gates %s', c.gates)
            seen.add(tuple((g.name, getattr(g, 'control', None), g.target) for g in c.gates))
            if names:
                first.setdefault(ch[0] if m > 1 else 0, set()).add(names[0])
    with rep.case('CHP %d %d %s %s distribution' % (n, d, ph, pt), dict(op='chp distribution')):
        pn = 'S' if cliff else 'T'
        al = []
        if ph:
            al += [('HAD', None, q) for q in range(n)]
        if pt:
            al += [(pn, None, q) for q in range(n)]
        if 1 - ph - pt:
            al += [('CNOT', a, b) for a, b in itertools.permutations(range(n), 2)]
        require(seen == set(itertools.product(al, repeat=d)), '%d circuits instead of %d', len(seen), len(al) ** d)
        if d:
            require(all(len(s) == 1 for s in first.values()), 'the gate depends on other draws')
            cnt = collections.Counter(list(s)[0] for s in first.values())
            require(cnt['HAD'] == ph * m and cnt[pn] == pt * m, 'probabilities %s', dict(cnt))


def fam_chp_one(rep, d):
    """one qubit: either no CNOT is asked for or it is refused"""
    with rep.case('CHP on one qubit, %d gates' % d, dict(op='chp one')):
        for ph, pt in ((.5, .5), (.25, .25), (.5, 0), (0, 0)):
            for ch, c, cut in choice.explore(tagged(lambda: N.CNOT_HAD_PHASE_circuit(1, d, ph, pt)), floats=grid(4), limit=d + 1):
                rep.step()
                rep.state('CHP 1 %d %s %s %s' % (d, ph, pt, ch))
                need = d and (ph + pt < 1 if ph + pt != .5 else any(x < 2 for x in ch))
                require(isinstance(c, ValueError) if need else isinstance(c, zx.Circuit) and len(c.gates) == d and c.qubits == 1, 'CHP 1 %s %s %s: %s', ph, pt, ch, c)


def fam_cliffords(rep, n, d, nohad, tg, i, k, conv):
    units = set()
    had = False
    for j, (ch, g, cut) in enumerate(choice.explore(tagged(lambda: N.cliffords(n, d, no_hadamard=nohad, t_gates=tg)), floats=(0.05, 0.999))):
        if j % k != i:
            continue
        key = 'cliffords %d %d %s %s %s' % (n, d, nohad, tg, ch)
        rep.state(key)
        with rep.case(key, dict(op='cliffords')):
            rep.step()
            if isinstance(g, Exception):
                raise g
            well_formed(g, n)
            require(g.num_vertices() == 4 * n + 2 * d, '%d vertices', g.num_vertices())
            ps = [g.phase(v) for v in g.vertices()]
            require(all((4 if tg else 2) % F(p).denominator == 0 for p in ps), 'phases %s', ps)
            hs = [e for e in g.edges() if g.edge_type(e) == 2]
            require(not (nohad and hs), 'a Hadamard edge')
            had = had or bool(hs)
            m = ref.matrix(g)
            u = m @ m.conj().T
            require(abs(u[0, 0]) > 1e-9 and ref.close(u / u[0, 0], np.eye(2 ** n)), 'the diagram is not unitary')
            rep.outcome('%d Hadamard edges' % len(hs))
            if conv:
                c = zx.Circuit.from_graph(g)
                require(ref.prop(circ.circuit_unitary(c), m), 'the circuit read from the diagram has another matrix')
    if k == 1 and d:
        with rep.case('cliffords %d %d %s' % (n, d, nohad), dict(op='cliffords had')):
            require(had != nohad, 'Hadamard edges never appear')


# ---------------------------------------------------------------- phase polynomials
def polynomial(c, n):
    """(phases per parity, linear map as rows) of a CNOT+ZPhase circuit"""
    rows = [1 << q for q in range(n)]
    ph = {}
    cn = 0
    for g in c.gates:
        if g.name == 'CNOT':
            rows[g.target] ^= rows[g.control]
            cn += 1
        else:
            require(g.name == 'ZPhase', 'gate %s', g.name)
            ph[rows[g.target]] = (ph.get(rows[g.target], 0) + g.phase) % 2
    return {k: v for k, v in ph.items() if v}, rows, cn


def fam_phase_poly(rep, n, layers, cpl):
    seen, runs = set(), 0
    for ch, c, cut in choice.explore(tagged(lambda: N.phase_poly(n, layers, cpl)), limit=60):
        key = 'phase_poly %d %d %d %s' % (n, layers, cpl, ch)
        rep.state(key)
        with rep.case(key, dict(op='phase_poly')):
            rep.step()
            if isinstance(c, Exception):
                raise c
            names = [g.name for g in c.gates]
            require(isinstance(c, zx.Circuit) and c.qubits == n and names == (['CNOT'] * cpl + ['ZPhase'] * n) * layers, 'gates %s', names)
            for l in range(layers):
                blk = c.gates[l * (cpl + n):(l + 1) * (cpl + n)]
                require([g.target for g in blk[cpl:]] == list(range(n)), 'phases on the qubits %s', [g.target for g in blk[cpl:]])
                require(all(F(g.phase) % 2 in {F(s, e) % 2 for s in (1, -1) for e in (1, 2, 4)} for g in blk[cpl:]), 'phases')
            polynomial(c, n)
            m = np.eye(n, dtype=int)
            for g in c.gates:
                if g.name == 'CNOT':
                    m[g.target] = (m[g.target] + m[g.control]) % 2
            require(np.array_equal(np.array(c.matrix.data).astype(int), m), 'tracked matrix')
            seen.add(tuple((g.name, getattr(g, 'control', None), g.target, getattr(g, 'phase', 0) % 2) for g in c.gates))
            runs += 1
    with rep.case('phase_poly %d %d %d all' % (n, layers, cpl), dict(op='phase_poly all')):
        want = ((n * (n - 1)) ** cpl * 5 ** n) ** layers
        require(len(seen) == want, '%d circuits instead of %d', len(seen), want)


def fam_phase_poly_approx(rep, n, cn, ph):
    seen = set()
    for ch, c, cut in choice.explore(tagged(lambda: N.phase_poly_approximate(n, cn, ph)), floats=(0.0, 0.999999), limit=3 * cn + 3 * ph + 1):
        if cut:
            rep.outcome('cut')
            continue
        key = 'phase_poly_approximate %d %d %d %s' % (n, cn, ph, ch)
        rep.state(key)
        with rep.case(key, dict(op='approx')):
            rep.step()
            if isinstance(c, Exception):
                raise c
            require(isinstance(c, zx.Circuit) and c.qubits == n, 'qubits')
            names = [g.name for g in c.gates]
            require(names.count('CNOT') == cn and set(names) <= {'CNOT', 'ZPhase'}, 'gates %s', names)
            require(ph or 'ZPhase' not in names, 'a phase gate')
            require(all(F(g.phase) % 2 in {F(s, e) % 2 for s in (1, -1) for e in (1, 2, 4)} for g in c.gates if g.name == 'ZPhase'), 'phases')
            require(all(g.target in range(n) and getattr(g, 'control', -1) != g.target for g in c.gates), 'qubits')
            seen.add(tuple((g.name, getattr(g, 'control', None), g.target) for g in c.gates))
            rep.outcome('%d phases' % names.count('ZPhase'))
    with rep.case('phase_poly_approximate %d %d %d all' % (n, cn, ph), dict(op='approx all')):
        require(sum(1 for s in seen if len(s) == cn) == (n * (n - 1)) ** cn, '%d CNOT circuits', len(seen))


def fam_gadgets(rep, n, k, i, kk):
    total = 2 ** n - 1
    seen = set()
    num = min(k, total)
    for j, (ch, c, cut) in enumerate(choice.explore(tagged(lambda: N.phase_poly_from_gadgets(n, k)))):
        if j % kk != i:
            continue
        key = 'phase_poly_from_gadgets %d %d %s' % (n, k, ch)
        rep.state(key)
        with rep.case(key, dict(op='gadgets')):
            rep.step()
            if isinstance(c, Exception):
                raise c
            require(isinstance(c, zx.Circuit) and c.qubits == n, 'qubits')
            ph, rows, cn = polynomial(c, n)
            require(len(ph) == num and set(ph.values()) <= {F(1, 4)}, '%d gadgets %s', len(ph), ph)
            require(rows == [1 << q for q in range(n)], 'not diagonal')
            seen.add(tuple(sorted(ph)))
    if kk == 1:
        with rep.case('phase_poly_from_gadgets %d %d all' % (n, k), dict(op='gadgets all')):
            require(len(seen) == len(list(itertools.combinations(range(total), num))), '%d polynomials', len(seen))


# ---------------------------------------------------------------- fixed diagrams
def fam_identity(rep):
    for n in range(0, 8):
        for depth in (1, 2, 5, F(1, 2)):
            for be in (None, 'simple', 'multigraph'):
                key = 'identity %d %s %s' % (n, depth, be)
                rep.state(key)
                with rep.case(key, dict(op='identity')):
                    rep.step()
                    g = N.identity(n, depth, be) if be else N.identity(n, depth)
                    well_formed(g, n)
                    require(all(g.row(v) == depth for v in g.outputs()) and g.num_vertices() == 2 * n, 'rows')
                    require(ref.close(ref.matrix(g), np.eye(2 ** n)), 'not the identity')
    for f, args in [(N.circuit_identity_phasepoly, ()), (N.circuit_identity_two_qubit1, ()), (N.circuit_identity_two_qubit2, ())] + [(N.circuit_identity_commuting_controls, (F(a, 4), F(b, 4))) for a in range(8) for b in range(8)]:
        key = '%s %s' % (f.__name__, args)
        rep.state(key)
        with rep.case(key, dict(op='identity circuit')):
            rep.step()
            c = f(*args)
            u = circ.circuit_unitary(c)
            require(circ.up_to_phase(u, np.eye(len(u))), 'not the identity')


def spider_tensor(kind, ph, a, b):
    n = a + b
    t = np.zeros((2,) * n, dtype=complex)
    if kind in ('Z', 'X', 'ZBox'):
        e = np.exp(1j * np.pi * float(ph)) if kind != 'ZBox' else complex(ph)
        if n == 0:
            return np.array(1 + e)
        t[(0,) * n] += 1
        t[(1,) * n] += e
        if kind == 'X':
            for k in range(n):
                t = np.moveaxis(np.tensordot(HAD, t, axes=(1, k)), 0, k)
    elif kind == 'H':
        t = np.ones((2,) * n, dtype=complex)
        if n == 0:
            return np.array(np.exp(1j * np.pi * float(ph)))
        t[(1,) * n] = np.exp(1j * np.pi * float(ph))
    elif kind == 'W':
        t[(0,) * n] = 1 if b == 0 else 0
        if b:
            t = np.zeros((2,) * n, dtype=complex)
            t[(0,) * n] = 1
            for k in range(b):
                t[(1,) + tuple(int(j == k) for j in range(b))] = 1
    return t


TYPES = dict(Z=VertexType.Z, X=VertexType.X, H=VertexType.H_BOX, ZBox=VertexType.Z_BOX, W=VertexType.W_OUTPUT)


def fam_spider(rep, m):
    for kind in TYPES:
        for a, b in itertools.product(range(m + 1), repeat=2):
            phs = [None] + ([0, 1, F(1, 4), F(3, 2), F(1, 3)] if kind in 'ZXH' else [2, -1, 0.5, 2.2 + 1.5j] if kind == 'ZBox' else [])
            for ph in phs:
                for typ in (kind, TYPES[kind]):
                    key = 'spider %s %d %d %s' % (typ, a, b, ph)
                    rep.state(key)
                    with rep.case(key, dict(op='spider')):
                        rep.step()
                        try:
                            g = N.spider(typ, a, b) if ph is None else N.spider(typ, a, b, ph)
                        except ValueError:
                            require(kind == 'W' and a != 1, 'refused')
                            rep.outcome('refused')
                            continue
                        require(kind != 'W' or a == 1, 'accepted')
                        require(len(g.inputs()) == a and len(g.outputs()) == b, 'inputs and outputs')
                        for k, v in enumerate(g.inputs()):
                            require(g.type(v) == BOUNDARY and g.qubit(v) == k, 'inputs')
                        for k, v in enumerate(g.outputs()):
                            require(g.type(v) == BOUNDARY and g.qubit(v) == k, 'outputs')
                        p = ph if ph is not None else 1 if kind in ('ZBox', 'H') else 0
                        t = ref.value(g)
                        w = spider_tensor(kind, p, a, b)
                        require(t.shape == w.shape and ref.close(t, w), 'tensor %s instead of %s', np.round(np.ravel(t)[:8], 3), np.round(np.ravel(w)[:8], 3))
    for bad in ('Y', 'B', None, 1.5):
        with rep.case('spider %r' % (bad,), dict(op='spider')):
            try:
                N.spider(bad, 1, 1)
                ok = False
            except TypeError:
                ok = True
            require(ok, 'accepted')


# ---------------------------------------------------------------- measurement patterns
def cluster(m, n, ins):
    """tensor with an axis for every input (row-major) and then every grid position"""
    k = m * n
    pos = {(q, r): q * n + r for q in range(m) for r in range(n)}
    t = np.ones((2,) * k, dtype=complex)
    for (q, r), a in pos.items():
        for b in [(q + 1, r), (q, r + 1)]:
            if b in pos:
                ix = [slice(None)] * k
                ix[a] = ix[pos[b]] = 1
                t[tuple(ix)] *= -1
    t = t.copy()
    for p in sorted(ins, reverse=True):
        a = pos[p]
        # input axis equal to the axis of the position
        e = np.zeros((2,) + t.shape, dtype=complex)
        for b in (0, 1):
            ix = [slice(None)] * t.ndim
            ix[a + (t.ndim - k)] = b
            e[(b,) + tuple(ix)] = t[tuple(ix)]
        t = e
    return t


def fam_cluster(rep, maxq):
    for m, n in itertools.product(range(1, maxq + 1), repeat=2):
        if m * n > maxq:
            continue
        cells = list(itertools.product(range(m), range(n)))
        for k in range(0, min(3, len(cells)) + 1):
            for ins in itertools.combinations(cells, k):
                for order in {tuple(ins), tuple(reversed(ins))}:
                    key = 'cluster %dx%d %s' % (m, n, order)
                    rep.state(key)
                    with rep.case(key, dict(op='cluster')):
                        rep.step()
                        g = mbqc.cluster_state(m, n, list(order)) if order else mbqc.cluster_state(m, n)
                        require(len(g.inputs()) == k and len(g.outputs()) == m * n, 'inputs and outputs')
                        require(ref.prop(ref.value(g), cluster(m, n, ins)), 'not the cluster state')


PAULI = {VertexType.Z: np.diag([1, -1]), VertexType.X: np.array([[0, 1], [1, 0]])}


def fam_pattern(rep, m, n, ins, depth, phases, i, kk):
    """every sequence of measurements and corrections"""
    cells = list(itertools.product(range(m), range(n)))
    ops = [('m', c, t, p) for c in cells + [(m, 0)] for t in (VertexType.Z, VertexType.X) for p in phases] + [('p', c, t, p) for c in cells + [(0, n)] for t in (VertexType.Z, VertexType.X) for p in (0, 1)]
    ops += [('p', cells[0], VertexType.Z, F(1, 2))]
    start = cluster(m, n, ins)
    nin = len(ins)

    def rec(seq, t, alive):
        yield seq, t, alive
        if len(seq) == depth:
            return
        for op in ops:
            kind, c, ty, p = op
            bad = c not in alive
            if kind == 'p' and (p == 0 or p != 1):
                bad = p != 0
            if bad:
                yield seq + (op,), None, alive
                continue
            if kind == 'p' and p == 0:
                yield from rec(seq + (op,), t, alive)
                continue
            ax = nin + alive.index(c)
            if kind == 'm':
                e = np.exp(1j * np.pi * float(p))
                vec = np.array([1, e]) if ty == VertexType.Z else HAD @ np.array([1, e])
                yield from rec(seq + (op,), np.tensordot(vec, t, axes=(0, ax)), [x for x in alive if x != c])
            else:
                yield from rec(seq + (op,), np.moveaxis(np.tensordot(PAULI[ty], t, axes=(1, ax)), 0, ax), alive)
    for seq, want, alive in slice_iter(rec((), start, cells), i, kk):
        key = 'pattern %dx%d %s: %s' % (m, n, ins, ' '.join('%s%s%s(%s)' % (a, b, 'ZX'[c == VertexType.X], d) for a, b, c, d in seq))
        rep.state(key)
        with rep.case(key, dict(op='pattern')):
            rep.step()
            g = mbqc.cluster_state(m, n, list(ins))
            for k, (kind, c, ty, p) in enumerate(seq):
                try:
                    r = mbqc.measure(g, c, ty, p) if kind == 'm' else mbqc.apply_pauli(g, c, ty, p)
                except ValueError:
                    require(want is None and k == len(seq) - 1, 'refused')
                    rep.outcome('refused')
                    break
                require(r is None, 'returned something')
            else:
                require(want is not None, 'accepted')
                rep.outcome('ok')
                v = ref.value(g)
                require(v.shape == want.shape, 'shape')
                require(ref.prop(v, want), 'another state')


FAMILIES = dict(cnots=fam_cnots, parity_map=fam_parity_map, cliffordT=fam_cliffordT, chp=fam_chp, chp_one=fam_chp_one, cliffords=fam_cliffords, phase_poly=fam_phase_poly, approx=fam_phase_poly_approx,
                gadgets=fam_gadgets, identity=fam_identity, spider=fam_spider, cluster=fam_cluster, pattern=fam_pattern)


def tasks(tier):
    q = tier == 'quick'
    R = range
    t = [('identity', ()), ('spider', (4 if q else 5,)), ('cluster', (6 if q else 9,))]
    t += [('cnots', (n, d, be)) for n, d in [(1, 0), (2, 0), (3, 0), (2, 1), (2, 2), (2, 3), (2, 5), (3, 1), (3, 2), (3, 3), (4, 1), (4, 2), (2, 6), (5, 1), (6, 1), (7, 1)] for be in (None, 'multigraph')]
    t += [('parity_map', (n, d)) for n, d in [(1, 0), (2, 0), (2, 1), (2, 3), (3, 1), (3, 2), (3, 3), (4, 2), (2, 5), (3, 4), (4, 1), (5, 1), (6, 1)]]
    for p, m in (({}, 4), (dict(t=.25), 4), (dict(t=.25, s=.25, hsh=.25, cnot=.25), 4), (dict(t=.4, cnot=.2), 5), (dict(t=0, s=0), 2), (dict(t=.4, s=.3, hsh=.2, cnot=.1), 10), (dict(t=.1, s=.2, hsh=.3, cnot=.4), 10), (dict(cnot=1), 1)):
        t += [('cliffordT', (n, d, p, m, False)) for n, d in ([(2, 0), (2, 1), (3, 1), (2, 2), (4, 1), (4, 0), (5, 1)] + ([(3, 2)] if m < 10 else [])) if n > 1]
    for p, m in (({}, 5), (dict(meas=.4), 20), (dict(t=.2, s=.2, hsh=.2, cnot=.2, meas=.2), 5)):
        t += [('cliffordT', (n, d, p, m, True)) for n, d in [(2, 1), (2, 2)]]
    t += [('cliffordT', (1, d, dict(cnot=0), 3, False)) for d in (0, 1, 2, 3)]
    for ph, pt, m in ((F(1, 5), F(1, 5), 5), (F(1, 2), 0, 2), (0, F(1, 2), 2), (0, 0, 1), (F(1, 2), F(1, 2), 2)):
        t += [('chp', (n, d, ph, pt, m, cl)) for n, d in [(2, 0), (2, 1), (2, 2), (3, 1), (3, 2), (4, 1), (5, 1), (2, 3)] for cl in (False, True)]
    t += [('chp_one', (d,)) for d in (0, 1, 2, 3)]
    for nh, tg in itertools.product((False, True), repeat=2):
        t += [('cliffords', (2, d, nh, tg, 0, 1, False)) for d in (0, 1)] + [('cliffords', (3, 1, nh, tg, 0, 1, False)), ('cliffords', (4, 0, nh, tg, 0, 1, True)), ('cliffords', (5, 0, nh, tg, 0, 1, False)), ('cliffords', (3, 0, nh, tg, 0, 1, True))]
    t += [('phase_poly', a) for a in [(2, 0, 2), (2, 1, 0), (2, 1, 2), (3, 1, 1), (2, 2, 0), (2, 2, 1), (4, 1, 0), (5, 1, 0), (4, 0, 2)]]
    t += [('approx', a) for a in [(2, 1, 0), (2, 2, 0), (3, 2, 0), (2, 1, 1), (2, 2, 1), (3, 1, 1), (3, 2, 1), (4, 1, 0), (5, 1, 0), (2, 4, 0), (4, 1, 1), (2, 1, 4)]]
    t += [('gadgets', (n, k, 0, 1)) for n, k in [(1, 0), (1, 1), (1, 2), (1, 3), (2, 0), (2, 1), (2, 2), (2, 3), (2, 4), (2, 5), (2, 9), (3, 1), (3, 2), (3, 3), (3, 4), (4, 1), (4, 2), (5, 1), (6, 1)]]
    t += [('gadgets', (n, k, i, 8)) for n, k in [(3, 5), (3, 7), (4, 3)] + ([] if q else [(4, 4), (3, 6), (5, 2), (5, 3)]) for i in R(8)]
    t += [('pattern', (1, 2, (), 3, (0, F(1, 4)), i, 4)) for i in R(4)] + [('pattern', (1, 2, ((0, 0),), 3, (0, F(1, 4)), i, 4)) for i in R(4)] + [('pattern', (2, 2, ((0, 0), (1, 0)), 2, (F(1, 4), 1), 0, 1))] + [('pattern', (1, 3, ((0, 0),), 2, (0, F(1, 4)), 0, 1))]
    t += [('pattern', (1, 1, (), 4, (F(1, 4),), i, 4)) for i in R(4)] + [('pattern', (1, 1, ((0, 0),), 4, (F(1, 4),), i, 4)) for i in R(4)]
    return t


def run():
    return core.main('C31', FAMILIES, tasks, assumptions=['real-valued draws are explored at one point of every interval on which the stated probabilities cannot differ', 'numerical comparison with tolerance 1e-6'],
                     exhaustive_note='all random outcomes of the generators and all measurement patterns of the stated sizes')
