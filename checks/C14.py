"""C14: TODD. Exhaustive parity matrices, phase polynomials, gate lists and reduced diagrams, with every outcome of the
column shuffle, against brute-force evaluation of the phase function."""
import itertools
from fractions import Fraction as F
import core
from core import require, slice_iter
import ref, circ, choice
from ref import BOUNDARY, Z, SIMPLE, HAD
from C13 import Order, csnap
from C08 import gsnap
import C11
import pyzx as zx
from pyzx import todd, simplify as S
from pyzx.linalg import Mat2
from pyzx.parity_network import parity_network


def cols_of(m):
    return [tuple(r[k] for r in m.data) for k in range(m.cols())]


def fun(cols, n):
    """phase function (mod 8) of a list of parities (bit tuples), on all 2^n assignments"""
    out = []
    for x in itertools.product((0, 1), repeat=n):
        out.append(sum(sum(a & b for a, b in zip(c, x)) & 1 for c in cols) % 8)
    return tuple(out)


def clifford(f, n):
    """is the phase function f (mod 8, f(0) = 0) generated by S and CZ? Returns the coefficients or None"""
    idx = {x: v for x, v in zip(itertools.product((0, 1), repeat=n), f)}

    def e(*qs):
        return tuple(int(k in qs) for k in range(n))
    l = [idx[e(k)] for k in range(n)]
    q = {(a, b): (idx[e(a, b)] - l[a] - l[b]) % 8 for a in range(n) for b in range(a + 1, n)}
    if any(v % 2 for v in l) or any(v % 4 for v in q.values()):
        return None
    for x, v in idx.items():
        s = sum(l[k] for k in range(n) if x[k]) + sum(v2 for (a, b), v2 in q.items() if x[a] and x[b])
        if (s - v) % 8:
            return None
    return l, q


def gates_fun(gates, n):
    """phase function of diagonal gates"""
    out = []
    for x in itertools.product((0, 1), repeat=n):
        s = F(0)
        for g in gates:
            nm, qs, ps = circ.read_gate(g)
            if nm in ('T', 'T*', 'S', 'S*', 'Z', 'ZPhase'):
                p = {'T': F(1, 4), 'T*': F(-1, 4), 'S': F(1, 2), 'S*': F(-1, 2), 'Z': F(1)}.get(nm) if nm != 'ZPhase' else F(ps[0])
                s += p * x[qs[0]]
            elif nm == 'CZ':
                s += x[qs[0]] & x[qs[1]]
            elif nm.startswith('PP'):
                s += F(ps[0]) * (sum(x[k] for k in qs) & 1)
            else:
                raise ValueError('gate %s is not diagonal' % nm)
        v = s * 4
        require(v.denominator == 1, 'phase is not a multiple of pi/4')
        out.append(int(v) % 8)
    return tuple(out)


def par_lists(n, m):
    """all multisets (as sorted lists) of m parities on n bits"""
    return itertools.combinations_with_replacement([tuple(x >> k & 1 for k in range(n)) for x in range(1 << n)], m)


def mat(cols, n):
    return Mat2([[c[k] for c in cols] for k in range(n)])


def todd_judge(n, cols, m2, what):
    require(m2.rows() in (n, 0) or m2.cols() == 0, '%s changed the number of variables', what)
    c2 = cols_of(m2) if m2.rows() else []
    f1, f2 = fun(cols, n), fun(c2, n)
    d = tuple((a - b) % 8 for a, b in zip(f1, f2))
    require(clifford(d, n) is not None, '%s: the difference is not a Clifford phase', what)
    odd = {}
    for c in cols:
        odd[c] = odd.get(c, 0) + 1
    t1 = sum(1 for c, k in odd.items() if any(c) and k % 2)
    require(len(c2) <= t1, '%s: %d parities became %d', what, t1, len(c2))
    require(all(any(c) for c in c2) and len(set(c2)) == len(c2), '%s leaves trivial parities', what)
    return t1, len(c2)


def fam_matrix(rep, n, m, orders, i, k):
    for cols in slice_iter(par_lists(n, m), i, k):
        key = 'parities %d %s' % (n, cols)
        if not rep.state(key):
            continue
        rep.sample(key)
        with rep.case('todd_iter ' + key, dict(op='todd_iter')):
            base = [list(r) for r in mat(cols, n).data]

            def run():
                M = Mat2([list(r) for r in base])
                r = todd.todd_iter(M)
                return r
            if orders == 'all':
                outs = set()
                for ch, r, cut in choice.explore(run):
                    outs.add(todd_judge(n, cols, r, 'todd_iter (shuffle %s)' % (ch,)))
                    rep.step()
            else:
                outs = set()
                for rev in orders:
                    outs.add(todd_judge(n, cols, Order(rev).run(run), 'todd_iter'))
                    rep.step()
            for a in outs:
                rep.outcome('%d->%d' % a)
        with rep.case('single ' + key, dict(op='do_todd_single')):
            red = [c for c in cols if any(c)]
            red = [c for c in dict.fromkeys(red) if red.count(c) % 2]
            if red:
                M = mat(red, n)
                m2, gain = todd.do_todd_single(M)
                a, b = todd_judge(n, red, m2, 'do_todd_single')
                rep.step()
        with rep.case('trivial ' + key, dict(op='remove_trivial_cols')):
            M = Mat2([list(c) for c in cols])
            todd.remove_trivial_cols(M)
            want = sorted(c for c in set(cols) if any(c) and cols.count(c) % 2)
            require(sorted(map(tuple, M.data)) == want, 'remove_trivial_cols leaves %s', M.data)
        with rep.case('gates ' + key, dict(op='par_matrix_to_gates')):
            if cols and all(any(c) for c in cols):
                require(gates_fun(todd.par_matrix_to_gates(mat(cols, n)), n) == fun(cols, n), 'par_matrix_to_gates')


def fam_mlp(rep, n, m1, m2, dbl, i, k):
    """multilinear polynomials: the difference of two sets of parities as Clifford gates, or not Clifford
    (dbl: every parity twice, which is always Clifford)"""
    for c1 in slice_iter(par_lists(n, m1), i, k):
        if dbl:
            c1 = tuple(c1) * 2
        for c2 in par_lists(n, m2):
            if dbl:
                c2 = tuple(c2) * 2
            key = 'difference %d %s - %s' % (n, c1, c2)
            if not rep.state(key):
                continue
            with rep.case(key, dict(op='MultiLinearPoly')):
                d = tuple((a - b) % 8 for a, b in zip(fun(c1, n), fun(c2, n)))
                want = clifford(d, n)
                p = todd.MultiLinearPoly()
                p.add_par_matrix(mat(c1, n), False)
                p.add_par_matrix(mat(c2, n), True)
                try:
                    gs = p.to_clifford()
                except ValueError:
                    require(want is None, 'a Clifford difference is reported as not Clifford')
                    rep.outcome('not Clifford')
                    continue
                require(want is not None, 'a difference that is not Clifford gives Clifford gates')
                require(gates_fun(gs, n) == d, 'the Clifford correction is wrong')
                rep.step()
                rep.outcome('Clifford')


def fam_poly(rep, n, depth, i, k):
    """ParityPolynomial and phase_gates_to_poly against simulation"""
    alpha = circ.alphabet(n, ['T', 'T*', 'S', 'Z', 'CZ', 'CNOT', 'ZPhase'], {'ZPhase': [(F(3, 4),)]})
    for sq in slice_iter(circ.sequences(alpha, depth, canon=False), i, k):
        key = 'poly ' + circ.show(n, sq)
        if not rep.state(key):
            continue
        with rep.case(key, dict(op='phase_gates_to_poly')):
            gs = circ.circuit(n, sq).gates
            s0 = [gsnap(g) for g in gs]
            pp, pars = todd.phase_gates_to_poly(gs, n)
            require([gsnap(g) for g in gs] == s0, 'the gates were changed')
            lin, vals = [], []
            for x in itertools.product((0, 1), repeat=n):
                y, ph = list(x), F(0)
                for nm, qs, ps in sq:
                    if nm == 'CNOT':
                        y[qs[1]] ^= y[qs[0]]
                    elif nm == 'CZ':
                        ph += y[qs[0]] & y[qs[1]]
                    else:
                        ph += {'T': F(1, 4), 'T*': F(-1, 4), 'S': F(1, 2), 'Z': F(1)}.get(nm, ps[0] if ps else 0) * y[qs[0]]
                want = int(ph * 4) % 8
                got = sum(v * (sum(x[q] for q in t) & 1) for t, v in pp.terms.items()) % 8
                require(got == want, 'phase polynomial is wrong')
                require([sum(x[q] for q in p.par) & 1 for p in pars] == y, 'output parities are wrong')
            require(all(0 < v < 8 for v in pp.terms.values()), 'zero or unreduced terms')
            m = pp.to_par_matrix()
            cs = cols_of(m) if m.rows() else []
            require(fun(cs, n) == tuple(sum(v * (sum(x[q] for q in t) & 1) for t, v in pp.terms.items()) % 8
                                        for x in itertools.product((0, 1), repeat=n)), 'to_par_matrix is wrong')
            p2 = pp.copy()
            p3 = pp + p2
            require(p3.terms == {t: 2 * v % 8 for t, v in pp.terms.items() if 2 * v % 8}, 'sum of polynomials')
            require(p2.terms == pp.terms and p2.terms is not pp.terms, 'copy')
            str(pp), str(pars)
            rep.step()
            rep.outcome('%d terms' % len(pp.terms))


def fam_network(rep, n, k1, k2, i, k):
    masks = list(range(1, 1 << n))
    for r in range(k1, k2 + 1):
        for ms in slice_iter(itertools.combinations(masks, r), i, k):
            for rev in (False, True):
                key = 'network %d %s %s' % (n, ms, rev)
                if not rep.state(key):
                    continue
                with rep.case(key, dict(op='parity_network')):
                    l = [[x >> b & 1 for b in range(n)] for x in (ms[::-1] if rev else ms)]
                    cn = parity_network(n, [list(x) for x in l])
                    seen = {tuple(int(a == b) for b in range(n)) for a in range(n)}
                    rows = [[int(a == b) for b in range(n)] for a in range(n)]
                    for c in cn:
                        require(type(c).__name__ == 'CNOT' and c.control != c.target, 'not a CNOT')
                        rows[c.target] = [a ^ b for a, b in zip(rows[c.target], rows[c.control])]
                        seen.add(tuple(rows[c.target]))
                    require(all(tuple(x) in seen for x in l), 'a parity never appears')
                    rep.step(len(cn))
                    rep.outcome('%d CNOTs' % len(cn))


def simp_judge(n, sq, u, gates, r, rep, ch):
    out, perm = r
    require(perm == {q: q for q in range(n)}, 'todd_simp reports a permutation')
    c = zx.Circuit(n)
    c.gates = list(out)
    require(circ.up_to_phase(u, circ.circuit_unitary(c)), 'todd_simp changed the unitary (shuffle %s)', ch)
    t0 = sum(1 for nm, qs, ps in sq if nm in ('T', 'T*') or (ps and F(ps[0]).denominator == 4))
    require(c.tcount() <= t0, 'todd_simp raised the T-count from %d to %d', t0, c.tcount())
    rep.step()
    rep.outcome('T %d->%d' % (t0, c.tcount()))


def fam_simp(rep, n, names, depth, orders, i, k):
    alpha = circ.alphabet(n, names, {'ZPhase': [(F(3, 4),)]})
    for sq in slice_iter(circ.sequences(alpha, depth), i, k):
        simp_one(rep, n, sq, orders)


def simp_one(rep, n, sq, orders):
    key = 'todd_simp ' + circ.show(n, sq)
    if not rep.state(key):
        return
    rep.sample(key)
    with rep.case(key, dict(op='todd_simp')):
        u = circ.unitary(n, sq)
        gs = circ.circuit(n, sq).gates
        s0 = [gsnap(g) for g in gs]
        if orders == 'all':
            for ch, r, cut in choice.explore(lambda: todd.todd_simp(gs, n)):
                simp_judge(n, sq, u, gs, r, rep, ch)
        else:
            for rev in orders:
                simp_judge(n, sq, u, gs, Order(rev).run(lambda: todd.todd_simp(gs, n)), rep, rev)
        require([gsnap(g) for g in gs] == s0, 'todd_simp changed its gates')


def fam_simp_poly(rep, n, k1, k2, phases, tails, orders, i, k):
    """T gates on every set of parities, each parity made by CNOTs onto its last qubit and undone"""
    for r in range(k1, k2 + 1):
        for ms in slice_iter(itertools.combinations(range(1, 1 << n), r), i, k):
            for ph in itertools.product(phases, repeat=r):
                sq = []
                for mk, p in zip(ms, ph):
                    t = [q for q in range(n) if mk >> q & 1]
                    cn = [('CNOT', (q, t[-1]), ()) for q in t[:-1]]
                    sq += cn + [('ZPhase', (t[-1],), (p,))] + cn[::-1]
                for tl in tails:
                    simp_one(rep, n, tuple(sq) + tuple(tl), orders)


def graph_case(rep, key, mk, orders):
    with rep.case('todd_on_graph ' + key, dict(op='todd_on_graph')):
        base = ref.value(mk())
        t0 = S.tcount(mk())

        def run():
            g = mk()
            todd.todd_on_graph(g)
            return g

        def judge(g, ch):
            require(ref.prop(base, ref.value(g), 1e-6), 'todd_on_graph changed the linear map (shuffle %s)', ch)
            require(S.tcount(g) <= t0, 'todd_on_graph raised the T-count')
            require(tuple(g.inputs()) == tuple(mk().inputs()) and tuple(g.outputs()) == tuple(mk().outputs()), 'boundaries changed')
            rep.step()
            rep.outcome('T %d->%d' % (t0, S.tcount(g)))
        if orders == 'all':
            for ch, g, cut in choice.explore(run):
                judge(g, ch)
        else:
            for rev in orders:
                judge(Order(rev).run(run), rev)


def fam_graph(rep, n, gads, maxg, ph, orders, i, k):
    """in - a - out diagrams with phase gadgets on all sets of target sets"""
    sets = [s for s in range(1, 1 << n) if bin(s).count('1') > 1]
    for r in range(1, maxg + 1):
        for ms in slice_iter(itertools.combinations(sets, r), i, k):
            for gp in itertools.product(gads, repeat=r):
                for p in ph:
                    a = (n, tuple(1 << q for q in range(n)), 0, 0, tuple(zip(ms, gp)), (), p, (0, 0))
                    key = 'gadgets %d %s phases %s' % (n, [(m, str(x)) for m, x in zip(ms, gp)], [str(x) for x in p])
                    if rep.state(key):
                        graph_case(rep, key, lambda: C11.graph_of(*a), orders)


def fam_gcirc(rep, n, names, depth, orders, i, k):
    alpha = circ.alphabet(n, names)
    for sq in slice_iter(circ.sequences(alpha, depth), i, k):
        key = circ.show(n, sq)

        def mk():
            g = circ.circuit(n, sq).to_graph()
            S.full_reduce(g)
            return g
        if rep.state('gc ' + key):
            rep.sample(key)
            graph_case(rep, key, mk, orders)


FAMILIES = dict(matrix=fam_matrix, mlp=fam_mlp, poly=fam_poly, network=fam_network, simp=fam_simp, simp_poly=fam_simp_poly,
                graph=fam_graph, gcirc=fam_gcirc)
q, h, o = F(1, 4), F(1, 2), F(1)


def tasks(tier):
    deep = tier == 'thorough'
    T = []

    def add(fam, args, n):
        for i in range(n):
            T.append((fam, tuple(args) + (i, n)))
    E = (False, True)
    for n, m in ((1, 1), (1, 3), (2, 1), (2, 2), (2, 3), (2, 4), (3, 1), (3, 2), (3, 3)):
        add('matrix', (n, m, 'all'), 1 if n < 3 else 8)
    add('matrix', (3, 4, 'all' if deep else E), 16)
    add('matrix', (3, 5, E), 16)
    if deep:
        add('matrix', (3, 6, E), 32)
        add('matrix', (3, 7, E), 64)
        add('matrix', (4, 4, E), 64)
        add('matrix', (4, 3, 'all'), 32)
    add('matrix', (4, 2 if not deep else 3, E), 8)
    # all sets of parities on 4 variables of the sizes at which TODD finds reductions
    add('sets', (4, 7 if not deep else 8, (False,) if not deep else E), 64)
    # many variables: all pairs and triples of parities of the kinds 'all but few' and 'few'
    for n in (5, 6) if not deep else (5, 6, 7, 8):
        add('broad', (n, (False,) if not deep else E), 8)
    for n, a, b in ((1, 4, 4), (2, 2, 2), (2, 4, 3), (3, 2, 1), (3, 2, 2), (3, 3, 1), (3, 4, 0)):
        add('mlp', (n, a, b, False), 4)
    add('mlp', (5, 1, 1, False), 4)
    add('mlp', (6, 1, 1, False), 8)
    add('mlp', (4, 2, 1, False), 8)
    add('mlp', (4, 1, 2, True), 4)
    add('mlp', (5, 1, 1, True), 4)
    add('mlp', (6, 1, 1, True), 8)
    add('mlp', (7, 1, 0, True), 1)
    add('mlp', (7, 0, 1, True), 1)
    if deep:
        add('mlp', (5, 2, 1, False), 64)
        add('mlp', (3, 3, 3, False), 64)
        add('mlp', (4, 2, 2, False), 64)
        add('mlp', (3, 8, 0, False), 16)
    for n, dpt in ((1, 3), (2, 2), (2, 3), (3, 2)) + (((2, 4), (3, 3)) if deep else ()):
        add('poly', (n, dpt), 8)
    add('network', (1, 0, 1), 1)
    add('network', (2, 0, 3), 1)
    add('network', (3, 0, 7), 2)
    add('network', (4, 0, 15), 16)
    add('network', (5, 0, 2 if not deep else 3), 8)
    for dpt in range(0, 4 if not deep else 5):
        add('simp', (2, ('T', 'S', 'CZ', 'CNOT', 'ZPhase'), dpt, 'all'), 2 if dpt < 3 else 16)
    for dpt in range(1, 4 if not deep else 5):
        add('simp', (3, ('T', 'CZ', 'CNOT'), dpt, 'all'), 2 if dpt < 3 else 16)
    TL = ((), (('CNOT', (0, 1), ()), ('CNOT', (1, 0), ()), ('CZ', (0, 1), ())))
    add('simp_poly', (3, 0, 7, (q,), TL, E), 8)
    add('simp_poly', (3, 1, 3, (q, h, F(3, 4), F(7, 4)), TL[:1], E), 16)
    add('simp_poly', (3, 2, 3, (q,), TL, 'all'), 8)
    add('simp_poly', (4, 1, 2 if not deep else 4, (q,), TL, E), 16)
    add('simp_poly', (4, 13, 15, (q,), TL[1:], (False,)), 16)
    if deep:
        add('simp_poly', (4, 5, 12, (q,), TL[:1], (False,)), 128)
    P3 = ((F(0),) * 6, (q, h, F(3, 4), F(0), F(0), F(0)), (q, q, q, q, F(0), q))
    add('graph', (2, tuple(F(k, 4) for k in range(8)), 1, ((F(0),) * 4, (q, F(0), h, F(0)), (F(7, 4), F(3, 4), q, F(0))), 'all' if deep else E), 2)
    add('graph', (3, (q, F(7, 4), h), 4 if deep else 2, P3, E), 16)
    add('graph', (3, (q,), 4, P3, E), 8)
    add('graph', (4, (q,), 11 if deep else 2, ((F(0),) * 8, (q,) * 8), (False,)), 64)
    for dpt in (1, 2, 3) + ((4,) if deep else ()):
        add('gcirc', (2, ('HAD', 'T', 'CNOT', 'CZ'), dpt, E), 2 if dpt < 3 else 16)
        add('gcirc', (3, ('HAD', 'T', 'CNOT') + (('CCZ', 'Tof') if dpt < 3 else ()), dpt, E), 2 if dpt < 3 else 16)
    return T


def fam_sets(rep, n, kmax, orders, i, k):
    """all sets of parities that contain the unit parities' span: sizes up to kmax, and their complements"""
    vecs = [tuple(x >> b & 1 for b in range(n)) for x in range(1, 1 << n)]
    sizes = [len(vecs) - j for j in range(4)] if kmax < 8 else list(range(5, len(vecs) + 1))
    for r in sizes:
        for cols in slice_iter(itertools.combinations(vecs, r), i, k):
            key = 'parities %d %s' % (n, cols)
            if not rep.state(key):
                continue
            with rep.case('todd_iter ' + key, dict(op='todd_iter')):
                for rev in orders:
                    a = todd_judge(n, cols, Order(rev).run(lambda: todd.todd_iter(mat(cols, n))), 'todd_iter')
                    rep.outcome('%d->%d' % a)
                    rep.step()


def fam_broad(rep, n, orders, i, k):
    """many variables: sets of parities that are intervals, stars, complements of single variables, all variables"""
    one = [1 << q for q in range(n)]
    full = (1 << n) - 1
    kinds = {'single': one, 'but one': [full ^ x for x in one], 'prefix': [(2 << q) - 1 for q in range(n)], 'suffix': [full ^ ((1 << q) - 1) for q in range(n)],
             'pairs': [one[a] | one[a + 1] for a in range(n - 1)], 'star': [one[0] | one[a] for a in range(1, n)], 'triples': [one[a] | one[(a + 1) % n] | one[(a + 2) % n] for a in range(n)],
             'last star': [one[-1] | one[a] for a in range(n - 1)], 'all': [full]}
    items = []
    for (k1, a), (k2, b) in itertools.product(kinds.items(), repeat=2):
        ms = list(dict.fromkeys(a + b))
        items += [ms, ms[::-1], ms[::2], ms[1:]]
    for j, ms in slice_iter(enumerate(items), i, k):
        key = 'broad %d %s' % (n, ms)
        if not rep.state(key):
            continue
        vecs = [tuple(x >> b & 1 for b in range(n)) for x in ms]
        with rep.case('network ' + key, dict(op='parity_network')):
            cn = parity_network(n, [list(x) for x in vecs])
            rows = [[int(a == b) for b in range(n)] for a in range(n)]
            seen = {tuple(r) for r in rows}
            for c in cn:
                require(type(c).__name__ == 'CNOT' and c.control != c.target, 'not a CNOT')
                rows[c.target] = [a ^ b for a, b in zip(rows[c.target], rows[c.control])]
                seen.add(tuple(rows[c.target]))
            require(all(x in seen for x in vecs), 'a parity never appears')
            rep.step(len(cn))
        if j % 2 == 0 and n <= 7:
            with rep.case('todd_iter ' + key, dict(op='todd_iter')):
                for rev in orders:
                    a = todd_judge(n, vecs, Order(rev).run(lambda: todd.todd_iter(mat(vecs, n))), 'todd_iter')
                    rep.outcome('%d->%d' % a)
                    rep.step()
        if j % 4 == 0 and n <= 6:
            sq = []
            for x in ms:
                t = [q_ for q_ in range(n) if x >> q_ & 1]
                cn = [('CNOT', (q_, t[-1]), ()) for q_ in t[:-1]]
                sq += cn + [('T', (t[-1],), ())] + cn[::-1]
            simp_one(rep, n, tuple(sq) + (('CNOT', (0, n - 1), ()), ('CZ', (1, n - 1), ())), (False,))


FAMILIES['sets'] = fam_sets
FAMILIES['broad'] = fam_broad
ASSUME = ['the meaning of a set of parities is its phase function, evaluated on all assignments',
          'the only random choice of TODD is the shuffle of the columns; it is enumerated completely for few columns, otherwise its two extremes']
BOUNDS = dict(quick='all multisets of <=5 parities on 3 variables, all shuffles for <=3; all sets of 12-15 parities on 4 variables; all CNOT+CZ+T gate lists of depth 3; all parity networks on 4 bits',
              thorough='all multisets of <=7 parities on 3 variables, all sets of 5-15 parities on 4 variables; depth 4')


def run():
    return core.main('C14', FAMILIES, tasks, ASSUME, BOUNDS)
