"""C11: circuit extraction. Exhaustive short circuits x strategies x extraction options, exhaustive extractable diagrams
(every invertible connection matrix, controlled phases and gadgets on both sides), Clifford normal forms, simple
extraction, swap networks and the helpers on all small matrices, against the matrix of the circuit / diagram."""
import itertools
from fractions import Fraction as F
import numpy as np
import core
from core import require, slice_iter
import ref, circ, big
from ref import BOUNDARY, Z, X, SIMPLE, HAD
from diag import V, Spec, build, spec_of
import pyzx as zx
from pyzx import simplify as S, extract as E
from pyzx.circuit.gates import CNOT, Gate
from pyzx.linalg import Mat2
from C05 import dump

STRATS = dict(full=S.full_reduce, cliff=S.clifford_simp, icliff=S.interior_clifford_simp, gl=S.to_graph_like,
              spider=S.spider_simp, tele=lambda g: None, raw=lambda g: None)


def names(c):
    return {type(g).__name__ for g in c.gates}


def up_to_input_perm(u, w, n):
    """u = w . P for some permutation P of the input qubits, up to a scalar"""
    for p in itertools.permutations(range(n)):
        t = w.reshape((2,) * (2 * n)).transpose(list(range(n)) + [n + p[i] for i in range(n)]).reshape(2 ** n, 2 ** n)
        if circ.up_to_scalar(u, t):
            return True
    return False


def judge(u, c, n, perm, allowed, what):
    require(isinstance(c, zx.Circuit), '%s returned a %s', what, type(c).__name__)
    require(c.qubits == n, '%s returned a circuit on %s qubits', what, c.qubits)
    if perm:
        allowed = allowed - {'SWAP'}
    bad = names(c) - allowed
    require(not bad, '%s used gates %s', what, bad)
    w = circ.circuit_unitary(c)
    if perm:
        require(up_to_input_perm(u, w, n), '%s: not the unitary of the diagram up to a permutation of the inputs', what)
    else:
        require(circ.up_to_scalar(u, w), '%s: not the unitary of the diagram', what)


SET = {'HAD', 'ZPhase', 'CZ', 'CNOT', 'SWAP'}
OPTS = [(a, b, c) for a in (True, False) for b in (0, 1, 2, 3) for c in (False, True)]
LOOK = [('fast', lambda g, d, p: E.lookahead_fast(g, d, p)), ('extract', lambda g, d, p: E.lookahead_extract(g, d, p)),
        ('full', lambda g, d, p: E.lookahead_full(g, d, p))]


def ext_case(rep, key, mk, u, n, opts, looks=(), feats=None, sol=False):
    """mk() builds the diagram to extract from."""
    g0 = mk()
    if not rep.state((repr(dump(g0)), sol)):
        return
    for o in opts:
        with rep.case('%s opts=%s' % (key, o), dict(feats or {}, op='extract_circuit')):
            g = mk()
            c = zx.extract_circuit(g, optimize_czs=o[0], optimize_cnots=o[1], up_to_perm=o[2], quiet=o[0])
            judge(u, c, n, o[2], SET, 'extract_circuit')
            rep.step(len(c.gates))
            rep.outcome('%d gates' % len(c.gates))
    for nm, f in looks:
        for depth in (False, True):
            for perm in (False, True):
                with rep.case('%s lookahead_%s depth=%s perm=%s' % (key, nm, depth, perm), dict(feats or {}, op='lookahead_' + nm)):
                    c = f(mk(), depth, perm)
                    judge(u, c, n, perm, SET, 'lookahead_' + nm)
                    rep.step(len(c.gates))
                    rep.outcome('lookahead')


def prepared(n, sq, strat, backend):
    c = circ.circuit(n, sq)
    g = c.to_graph(backend=backend) if backend else c.to_graph()
    if strat == 'tele':
        g = S.teleport_reduce(g)
    else:
        STRATS[strat](g)
    if strat in ('full',) :
        g.normalize()
    return g


def fam_circ(rep, n, gates, params, depth, strats, opts, looks, backend, i, m):
    alpha = circ.alphabet(n, gates, dict(params)) if not isinstance(depth, tuple) else ()
    for sq in slice_iter(circ.sequences(alpha, depth) if alpha else (tuple(x) for _, x in big.layers(n, gates, depth)), i, m):
        key = circ.show(n, sq)
        rep.sample(key)
        u = circ.unitary(n, sq)
        for st in strats:
            try:
                g = prepared(n, sq, st, backend)
            except Exception:
                with rep.case('%s %s' % (st, key), dict(strat=st)):
                    prepared(n, sq, st, backend)
                continue
            ext_case(rep, '%s %s %s' % (st, backend or 'simple', key), (lambda: g.copy()) if not backend else (lambda: prepared(n, sq, st, backend)),
                     u, n, [OPTS[k] for k in opts], [LOOK[k] for k in looks], dict(strat=st))


# -- every extractable shape: in - a_i - M - b_j - out ----------------------------------------------------------
_INV = {}


def invertible(n):
    """All invertible n x n binary matrices as tuples of row bit masks."""
    if n not in _INV:
        out = []

        def rec(rows, span):
            if len(rows) == n:
                out.append(tuple(rows))
                return
            for r in range(1, 1 << n):
                if r not in span:
                    rec(rows + [r], span | {r ^ s for s in span})
        rec([], {0})
        _INV[n] = out
    return _INV[n]


def bits(x, n):
    return [k for k in range(n) if x >> k & 1]


def graph_of(n, M, cz1, cz2, gad1, gad2, ph, io, backend=None):
    """inputs 0..n-1, a n..2n-1, b 2n..3n-1, outputs 3n..4n-1; M: a-b connections; cz: edges in each layer; gad: list of
    (mask, phase) phase gadgets on each layer; io: Hadamard mask for inputs and outputs; ph: phases of a and b"""
    g = zx.Graph(backend) if backend else zx.Graph()
    ins = [g.add_vertex(BOUNDARY, q, 0) for q in range(n)]
    a = [g.add_vertex(Z, q, 1, phase=ph[q]) for q in range(n)]
    b = [g.add_vertex(Z, q, 2, phase=ph[n + q]) for q in range(n)]
    outs = [g.add_vertex(BOUNDARY, q, 3) for q in range(n)]
    for q in range(n):
        g.add_edge((ins[q], a[q]), HAD if io[0] >> q & 1 else SIMPLE)
        g.add_edge((b[q], outs[q]), HAD if io[1] >> q & 1 else SIMPLE)
    for r in range(n):
        for k in bits(M[r], n):
            g.add_edge((a[k], b[r]), HAD)
    prs = list(itertools.combinations(range(n), 2))
    for k, (x, y) in enumerate(prs):
        if cz1 >> k & 1:
            g.add_edge((a[x], a[y]), HAD)
        if cz2 >> k & 1:
            g.add_edge((b[x], b[y]), HAD)
    for lay, gads in ((a, gad1), (b, gad2)):
        for mask, p in gads:
            h = g.add_vertex(Z, -1, 2)
            t = g.add_vertex(Z, -2, 2, phase=p)
            g.add_edge((h, t), HAD)
            for q in bits(mask, n):
                g.add_edge((lay[q], h), HAD)
    g.set_inputs(tuple(ins))
    g.set_outputs(tuple(outs))
    return g


def shapes(n, cols, czs, gads, phs, ios):
    for M in invertible(n):
        if cols:      # one representative per permutation of the columns
            cs = [tuple(M[r] >> k & 1 for r in range(n)) for k in range(n)]
            if cs != sorted(cs):
                continue
        for cz1, cz2 in czs:
            for g1, g2 in gads:
                for ph in phs:
                    for io in ios:
                        yield (n, M, cz1, cz2, g1, g2, ph, io)


def fam_shape(rep, n, cols, czs, gads, phs, ios, opts, looks, backend, i, m):
    for a in slice_iter(shapes(n, cols, czs, gads, phs, ios), i, m):
        key = '%d M=%s cz=%s,%s gadgets=%s,%s phases=%s io=%s %s' % (a + (backend or 'simple',))
        rep.sample(key)
        u = ref.matrix(graph_of(*a))
        ext_case(rep, key, lambda: graph_of(*a, backend=backend), u, n, [OPTS[k] for k in opts], [LOOK[k] for k in looks], dict(strat='shape'))


def fam_base(rep, n, czs, gads, combos, i, m):
    """lookahead_extract_base with its own options"""
    for a in slice_iter(shapes(n, True, czs, gads, [(F(1, 4),) * (2 * n)], [(0, 0)]), i, m):
        u = ref.matrix(graph_of(*a))
        c0 = zx.extract_circuit(graph_of(*a), optimize_cnots=1)
        d0 = E.get_optimize_value(c0, False, True)
        for steps, dl, me, nk, hl, algs, dep, cb, perm in combos:
            key = '%d M=%s cz=%s,%s gadgets=%s,%s base %s' % (a[:6] + ((steps, dl, me, nk, hl, algs, dep, cb, perm),))
            if not rep.state(key):
                continue
            with rep.case(key, dict(op='lookahead_base')):
                lim = -1 if hl is None else max(d0 + hl, 0)
                c = E.lookahead_extract_base(graph_of(*a), steps, dl, me, nk, lim, list(algs) if algs else None, dep, cb, perm)
                rep.step()
                if c is None:
                    require(lim != -1, 'no circuit without a limit')
                    rep.outcome('none')
                    continue
                judge(u, c, n, perm, SET, 'lookahead_extract_base')
                val = E.get_optimize_value(c, dep, True)
                if lim != -1:
                    require(val < lim, 'the circuit has cost %d over the limit %d', val, lim)
                rep.outcome('circuit')


# -- Clifford normal form ------------------------------------------------------------------------------------------
LAYERS = [{'HAD'}, {'ZPhase'}, {'CZ'}, {'CNOT'}, {'HAD'}, {'CZ'}, {'ZPhase'}, {'HAD'}]


def layered(gates):
    k = 0
    for g in gates:
        nm = type(g).__name__
        while k < len(LAYERS) and nm not in LAYERS[k]:
            k += 1
        if k == len(LAYERS):
            return False
    return True


def cnf_case(rep, key, mk, u, n):
    if not rep.state('cnf ' + repr(dump(mk()))):
        return
    with rep.case('normal form ' + key, dict(op='clifford_normal_form')):
        c = zx.extract.extract_clifford_normal_form(mk())
        judge(u, c, n, False, SET - {'SWAP'}, 'extract_clifford_normal_form')
        require(layered(c.gates), 'the circuit does not have the promised layers: %s', [type(g).__name__ for g in c.gates])
        rep.step()
        rep.outcome('%d gates' % len(c.gates))


def fam_cnf(rep, n, gates, depth, backend, i, m):
    for sq in slice_iter(circ.sequences(circ.alphabet(n, gates), depth) if not isinstance(depth, tuple) else (tuple(x) for _, x in big.layers(n, gates, depth)), i, m):
        rep.sample(circ.show(n, sq))
        cc = circ.circuit(n, sq)
        cnf_case(rep, circ.show(n, sq) + ' ' + (backend or ''), lambda: cc.to_graph(backend=backend) if backend else cc.to_graph(), circ.unitary(n, sq), n)


def fam_cnf_shape(rep, n, cols, czs, phs, ios, i, m):
    for a in slice_iter(shapes(n, cols, czs, [((), ())], phs, ios), i, m):
        key = '%d M=%s cz=%s,%s phases=%s io=%s' % (a[:4] + a[6:])
        rep.sample(key)
        cnf_case(rep, key, lambda: graph_of(*a), ref.matrix(graph_of(*a)), n)


def fam_cnf_refuse(rep, n, depth, i, m):
    """diagrams that are not unitary Clifford diagrams are refused"""
    alpha = circ.alphabet(n, ['HAD', 'S', 'CNOT', 'T'])
    for sq in slice_iter(circ.sequences(alpha, depth), i, m):
        u = circ.unitary(n, sq)
        key = circ.show(n, sq)
        if not rep.state('refuse ' + key):
            continue
        with rep.case('refuse ' + key, dict(op='clifford_normal_form')):
            try:
                c = zx.extract.extract_clifford_normal_form(circ.circuit(n, sq).to_graph())
            except ValueError:
                rep.outcome('refused')
                continue
            judge(u, c, n, False, SET - {'SWAP'}, 'extract_clifford_normal_form')
            rep.outcome('circuit')


# -- simple extraction ---------------------------------------------------------------------------------------------
def fam_simple(rep, n, gates, params, depth, preps, backend, i, m):
    alpha = circ.alphabet(n, gates, dict(params))
    PR = dict(raw=lambda g: None, spider=S.spider_simp, id=lambda g: (S.spider_simp(g), S.id_simp(g)), gl=S.to_graph_like,
              rg=S.to_rg, gh=S.to_gh)
    for sq in slice_iter(circ.sequences(alpha, depth), i, m):
        u = circ.unitary(n, sq)
        for pr in preps:
            for perm in (False, True):
                key = 'simple %s %s perm=%s %s' % (pr, circ.show(n, sq), perm, backend or '')
                if not rep.state(key):
                    continue
                rep.sample(key)
                with rep.case(key, dict(op='extract_simple', prep=pr)):
                    g = circ.circuit(n, sq).to_graph(backend=backend) if backend else circ.circuit(n, sq).to_graph()
                    r = PR[pr](g)
                    if pr == 'rg' and r is not None:
                        g = r
                    c = zx.extract_simple(g, up_to_perm=perm)
                    judge(u, c, n, perm, SET | {'XPhase', 'XCX'}, 'extract_simple')
                    rep.step()
                    rep.outcome('%d gates' % len(c.gates))


def fam_swaps(rep, n, i, m):
    """all wire permutations with Hadamards"""
    for p in slice_iter(itertools.permutations(range(n)), i, m):
        with rep.case('permutation_as_swaps %s' % (p,), dict(op='permutation_as_swaps')):
            d = {k: p[k] for k in range(n)}
            sw = E.permutation_as_swaps(d)
            l = list(range(n))
            for a, b in sw:
                l[a], l[b] = l[b], l[a]
            require(all(p[l[k]] == k for k in range(n)), 'the swaps do not realise the permutation')
            require(d == {k: p[k] for k in range(n)}, 'the argument was changed')
        for hm in range(1 << n) if n < 5 else (0, 1 << n - 1):
            for ns in (False, True):
                for backend in ('simple', 'multigraph') if n < 5 else ('simple',):
                    key = 'swaps %s %s %s %s' % (p, hm, ns, backend)
                    if not rep.state(key):
                        continue
                    with rep.case(key, dict(op='graph_to_swaps')):
                        g = zx.Graph(backend)
                        ins = [g.add_vertex(BOUNDARY, q, 0) for q in range(n)]
                        outs = [g.add_vertex(BOUNDARY, q, 1) for q in range(n)]
                        for q in range(n):
                            g.add_edge((ins[p[q]], outs[q]), HAD if hm >> q & 1 else SIMPLE)
                        g.set_inputs(tuple(ins))
                        g.set_outputs(tuple(outs))
                        u = ref.matrix(g)
                        h = g.copy()
                        c = E.graph_to_swaps(g, ns)
                        judge(u, c, n, ns, {'HAD', 'SWAP'}, 'graph_to_swaps')
                        if n > 0:
                            c = zx.extract_circuit(h, up_to_perm=ns)
                            judge(u, c, n, ns, {'HAD', 'SWAP'}, 'extract_circuit')
                        rep.step(2)
                        rep.outcome('ok')


# -- helpers on all matrices ---------------------------------------------------------------------------------------
def mats(r, c):
    for x in range(1 << (r * c)):
        yield [[x >> (i * c + j) & 1 for j in range(c)] for i in range(r)]


def rank(m):
    rows = [int(''.join(map(str, r)) or '0', 2) for r in m]
    k = 0
    while rows:
        p = rows.pop()
        if p:
            k += 1
            lb = p & -p
            rows = [r ^ p if r & lb else r for r in rows]
    return k


def greedy_case(rep, d, key, full, single):
    r, c = len(d), len(d[0])
    with rep.case('greedy ' + key, dict(op='greedy')):
        if full:
            for f, cnt in ((E.greedy_reduction, 1), (E.greedy_reduction_flat, 1)) + (((E.greedy_two_reduction, 2),) if not single else ()):
                M = Mat2([list(x) for x in d])
                ops = f(M)
                require(M.data == d, 'the matrix was changed')
                if ops is None:
                    require(f is E.greedy_two_reduction and not (r == c and r > 1 and not single) or r != c, '%s finds no reduction of an invertible matrix', f.__name__)
                    rep.outcome(f.__name__ + ' none')
                    continue
                for a, b in ops:
                    require(a != b, 'row added to itself')
                    M.row_add(a, b)
                got = sum(1 for x in M.data if sum(x) == 1)
                require(got >= cnt, '%s leaves %d rows with a single 1', f.__name__, got)
                # and none of the CNOTs that matter is dropped
                M2 = Mat2([list(x) for x in d])
                red = E.remove_extra_cnots([CNOT(b, a) for a, b in ops], M2)
                require(M2.data == d, 'remove_extra_cnots changed the matrix')
                for cn in red:
                    M2.row_add(cn.target, cn.control)
                require(len(red) <= len(ops), 'remove_extra_cnots adds gates')
                require(sum(1 for x in M2.data if sum(x) == 1) >= 1, 'remove_extra_cnots removed necessary gates')
                rep.step()
                rep.outcome(f.__name__)


def fam_flat(rep, r, c, i, m):
    """adding any set of rows into one of them, whatever the rows are"""
    for d in slice_iter(mats(r, c), i, m):
        for k in range(r + 1):
            for rows in itertools.combinations(range(r), k):
                for order in (rows, rows[::-1]) if k > 1 else (rows,):
                    key = 'flat %s %s' % (d, order)
                    with rep.case(key, dict(op='flat_indices')):
                        rep.state(key)
                        M = Mat2([list(x) for x in d])
                        ops, t = E.flat_indices(M, list(order))
                        require(M.data == d, 'the matrix was changed')
                        require((t == -1 and not ops) if not k else (t in rows and len(ops) == k - 1), 'flat_indices gives %s, %s', ops, t)
                        depth = {x: 0 for x in rows}
                        for a, b in ops:
                            require(a in rows and b in rows and a != b, 'row operation %s, %s', a, b)
                            M.row_add(a, b)
                            depth[a] = depth[b] = max(depth[a], depth[b]) + 1
                        if k:
                            require(M.data[t] == [sum(d[x][j] for x in rows) % 2 for j in range(c)], 'row %d is not the sum of the rows', t)
                            require(max(depth.values()) <= (k - 1).bit_length(), 'depth %d for %d rows', max(depth.values()), k)
                        rep.step()
                        rep.outcome('%d rows' % k)


def fam_sums(rep, r, i, m):
    """matrices whose rows have to be added in two chosen sets to become unit vectors"""
    subs = [x for x in range(1, 1 << r)]
    heavy = [(1 << r) - 1 ^ 1 << j for j in range(r)] + [(1 << r) - 1]

    def bits(x):
        return [x >> j & 1 for j in range(r)]
    for s1, s2 in slice_iter(((a, b) for a in subs for b in subs if a != b), i, m):
        A = [bits(s1), bits(s2)]
        for x in heavy:
            if len(A) < r and rank(A + [bits(x)]) == len(A) + 1:
                A.append(bits(x))
        if len(A) < r:
            continue
        d = inverse(A)
        key = 'sums %s' % (d,)
        if rep.state(key):
            greedy_case(rep, d, key, True, any(sum(x) == 1 for x in d))


def inverse(A):
    n = len(A)
    W = [list(a) + [int(i == j) for j in range(n)] for i, a in enumerate(A)]
    for c in range(n):
        p = next(k for k in range(c, n) if W[k][c])
        W[c], W[p] = W[p], W[c]
        for k in range(n):
            if k != c and W[k][c]:
                W[k] = [x ^ y for x, y in zip(W[k], W[c])]
    return [w[n:] for w in W]


def fam_mat(rep, r, c, i, m):
    for d in slice_iter(mats(r, c), i, m):
        key = 'matrix %s' % (d,)
        if not rep.state(key):
            continue
        full = rank(d) == r
        single = any(sum(x) == 1 for x in d)
        with rep.case('column_optimal_swap ' + key, dict(op='column_optimal_swap')):
            if full:
                M = Mat2([list(x) for x in d])
                t = E.column_optimal_swap(M)
                require(M.data == d, 'the matrix was changed')
                require(sorted(t.keys()) == list(range(c)) and sorted(t.values()) == list(range(c)), 'not a permutation: %s', t)
                rep.step()
        greedy_case(rep, d, key, full, single)
        if r == c:
            with rep.case('max_overlap ' + key, dict(op='max_overlap')):
                if all(d[a][b] == d[b][a] for a in range(r) for b in range(a)) and not any(d[a][a] for a in range(r)):
                    (a, b), com = E.max_overlap(Mat2([list(x) for x in d]))
                    best = max([sum(x & y for x, y in zip(d[x1], d[x2])) for x1 in range(r) for x2 in range(x1)], default=0)
                    require(len(com) == best, 'max_overlap found %d common qubits of %d', len(com), best)
                    if best:
                        require(a != b and com == [k for k in range(r) if d[a][k] and d[b][k]], 'wrong common qubits')
                    rep.step()


def fam_cnots(rep, n, depth, i, m):
    """cancelling CNOTs and comparing lists of CNOTs"""
    al = [(a, b) for a in range(n) for b in range(n) if a != b]

    def mat(l):
        M = [[int(x == y) for y in range(n)] for x in range(n)]
        for a, b in l:
            M[b] = [x ^ y for x, y in zip(M[b], M[a])]
        return M
    for k in range(depth + 1):
        for l in slice_iter(itertools.product(al, repeat=k), i, m):
            with rep.case('cnots %s' % (l,), dict(op='filter_duplicate_cnots')):
                gs = [CNOT(a, b) for a, b in l]
                out = E.filter_duplicate_cnots(gs)
                require(all(type(x) is CNOT for x in out), 'filter_duplicate_cnots returns other gates')
                require(mat([(x.control, x.target) for x in out]) == mat(l), 'filter_duplicate_cnots changed the linear map')
                require([(x.control, x.target) for x in gs] == list(l) and len(out) <= len(gs), 'filter_duplicate_cnots changed its argument')
                rep.state('cnots %s' % (l,))
                for l2 in ((), l[::-1], l[1:], l[:-1], l[:1] + l, tuple((b, a) for a, b in l)):
                    same = E.compare_cnots(gs, [CNOT(a, b) for a, b in l2], n)
                    require(same == (mat(l) == mat(l2)), 'compare_cnots says %s about %s and %s', same, l, l2)
                    rep.step()
                rep.outcome('ok')


def fam_biadj(rep, r, c, backend, i, m):
    for d in slice_iter(mats(r, c), i, m):
        for d2 in mats(r, c):
            with rep.case('biadj %s %s %s' % (d, d2, backend), dict(op='biadj')):
                g = zx.Graph(backend)
                L = list(g.add_vertices(c))
                R = list(g.add_vertices(r))
                for v in L + R:
                    g.set_type(v, Z)
                for x in range(r):
                    for y in range(c):
                        if d[x][y]:
                            g.add_edge((L[y], R[x]), HAD)
                require(E.bi_adj(g, L, R).data == d, 'bi_adj is wrong')
                E.connectivity_from_biadj(g, Mat2([list(x) for x in d2]), L, R)
                require(E.bi_adj(g, L, R).data == d2, 'connectivity_from_biadj is wrong')
                want = sorted((L[y], R[x]) for x in range(r) for y in range(c) if d2[x][y])
                require(sorted(tuple(sorted(g.edge_st(e))) for e in g.edges()) == want and all(g.edge_type(e) == HAD for e in g.edges()), 'wrong edges')
                rep.state('%s %s %s' % (d, d2, backend))
                rep.step()


FAMILIES = dict(circ=fam_circ, shape=fam_shape, base=fam_base, cnf=fam_cnf, cnf_shape=fam_cnf_shape, cnf_refuse=fam_cnf_refuse,
                simple=fam_simple, swaps=fam_swaps, mat=fam_mat, flat=fam_flat, sums=fam_sums, cnots=fam_cnots, biadj=fam_biadj)
q, h, o = F(1, 4), F(1, 2), F(1)
ALLO = tuple(range(16))
SOMEO = (0, 3, 4, 6, 10, 12)      # both CZ options, all CNOT levels, with and without permutation
PS = (('ZPhase', ((q,), (F(1, 3),))), ('XPhase', ((q,),)))


def tasks(tier):
    deep = tier == 'thorough'
    T = []

    def add(fam, args, n):
        for i in range(n):
            T.append((fam, tuple(args) + (i, n)))
    ST = ('full', 'cliff', 'icliff', 'gl', 'tele') if False else ('full', 'cliff', 'icliff', 'gl')
    for dpt in (0, 1, 2):
        add('circ', (1, ('HAD', 'T', 'S', 'SX', 'ZPhase'), PS, dpt + 1, ST, ALLO, (0, 1, 2), None), 1)
        add('circ', (2, ('HAD', 'T', 'S', 'CNOT', 'CZ', 'SWAP', 'XPhase'), PS, dpt, ST, ALLO, (0, 1, 2) if dpt < 2 or deep else (), None), 4)
        add('circ', (2, ('HAD', 'T', 'CNOT', 'CZ', 'SWAP'), PS, dpt, ST, SOMEO, (0,), 'multigraph'), 4)
        add('circ', (3, ('HAD', 'T', 'CNOT', 'CZ'), PS, dpt, ST, ALLO, (0, 1) if deep else (), None), 8)
    add('circ', (2, ('HAD', 'T', 'S', 'CNOT', 'CZ'), PS, 3, ST, SOMEO if not deep else ALLO, (0,) if deep else (), None), 16)
    add('circ', (2, ('HAD', 'T', 'CNOT'), PS, 4, ('full', 'icliff'), SOMEO, (), None), 16)
    add('circ', (3, ('HAD', 'T', 'CNOT'), PS, 3, ('full', 'cliff'), SOMEO, (), None), 16)
    add('circ', (3, ('T', 'CCZ', 'Tof', 'CNOT', 'HAD'), PS, 2, ('full', 'cliff'), SOMEO, (0,) if deep else (), None), 16)
    if deep:
        add('circ', (2, ('HAD', 'T', 'CNOT'), PS, 6, ('full',), SOMEO, (), None), 64)
        add('circ', (3, ('HAD', 'T', 'CNOT', 'CZ'), PS, 4, ('full', 'cliff'), SOMEO, (), None), 64)
        add('circ', (3, ('HAD', 'T', 'CNOT'), PS, 4, ('full',), SOMEO, (0, 1), None), 64)
        add('circ', (4, ('HAD', 'T', 'CNOT'), PS, 3, ('full', 'cliff'), SOMEO, (0,), None), 64)
    C3 = tuple((a, b) for a in (0, 7, 5) for b in (0, 7))
    G0 = (((), ()),)
    G3 = (((), ()), (((7, q),), ()), ((), ((7, q),)), (((3, q), (6, q)), ((5, q),)), (((7, q), (3, q), (5, q), (6, q)), ((7, F(1, 3)),)))
    p2, p3, p4 = (q, h, F(7, 4), o), (q, h, F(0), o, F(1, 3), q), (F(0),) * 4 + (q, h, o, F(1, 3))
    add('shape', (2, False, ((0, 0), (1, 0), (0, 1), (1, 1)), (((), ()), (((3, q),), ()), ((), ((3, q),)), (((3, q),), ((3, q),))), ((F(0),) * 4, p2, (F(0), q, h, F(0))),
                  tuple((a, b) for a in range(4) for b in range(4)), ALLO if deep else SOMEO, (0,), None), 8)
    add('shape', (3, False, C3 if deep else C3[:4], G3 if deep else G3[:4], (p3,), ((0, 0),) if not deep else ((0, 0), (5, 2)), SOMEO, (0,) if deep else (), None), 32)
    add('shape', (3, True, C3, G3, ((F(0),) * 6, p3), ((0, 0), (3, 6)), ALLO if deep else (0, 4, 14), (0, 1, 2) if deep else (), None), 32)
    add('shape', (3, True, ((0, 0), (7, 5)), G3[:1] + G3[3:], (p3,), ((0, 0),), (), (0, 1, 2), None), 16)
    add('shape', (3, True, ((0, 0), (7, 5)), G3[:2], (p3,), ((0, 3),), SOMEO, (0,), 'multigraph'), 8)
    C4 = ((0, 0), (63, 13), (30, 63)) if deep else ((63, 30),)
    G4 = (((), ()), (((15, q), (7, q)), ())) if deep else (((), ()),)
    add('shape', (4, True, C4, G4, (p4,), ((0, 0),), ALLO if deep else (0, 4, 14), (0,) if deep else (), None), 32)
    if deep:
        add('shape', (4, False, ((0, 0),), G0, (p4,), ((0, 0),), (0, 2, 4, 6), (), None), 64)
        add('shape', (4, True, ((0, 0), (63, 63)), (((), ()), (((15, q), (5, q)), ((6, q),))), (p4,), ((0, 0),), (), (0, 1, 2), None), 64)
    add('shape', (4, True, ((0, 0),), G0, (p4,), ((0, 0),), (), (0,) , None), 32)
    # 5 and 6 qubits: controlled-Z layers of every shape (the CZ optimisation needs three common neighbours)
    add('czs', (5, SOMEO), 16)
    if deep:
        add('czs', (6, (0, 4)), 64)
    cb = [(-1, 7, 5, 4, None, None, False, True, False), (1, 1, 0, 1, None, (0, 1, 2, 3), False, False, False), (2, -1, 0, 2, 1, (0, 3), True, False, True),
          (3, 2, 1, 1, 0, (0, 2), False, True, False), (1, 3, 0, 3, 2, (0, 1, 3), False, False, True), (2, 1, 2, 2, None, (0,), True, False, False),
          (2, 2, 0, 1, 1, (0, 1, 2, 3), False, False, False)]
    add('base', (3, ((0, 0), (7, 7)), G3[:1] + G3[3:4] if not deep else G3, tuple(cb)), 16)
    if deep:
        add('base', (4, ((0, 0),), G0, tuple(cb)), 64)
    CL = ('HAD', 'S', 'CNOT', 'CZ')
    for dpt in (0, 1, 2, 3):
        add('cnf', (1, ('HAD', 'S', 'SX', 'Z'), dpt, None), 1)
        add('cnf', (2, CL + ('SWAP',), dpt, None), 4)
        add('cnf', (3, CL if deep or dpt < 3 else ('HAD', 'S', 'CNOT'), dpt, None), 16)
        if dpt < 3:
            add('cnf', (2, CL, dpt, 'multigraph'), 2)
    add('cnf', (2, CL, 4, None), 16)
    if deep:
        add('cnf', (2, CL, 5, None), 64)
        add('cnf', (3, CL, 4, None), 64)
        add('cnf', (4, ('HAD', 'S', 'CNOT'), 3, None), 32)
    add('cnf', (4, big.CLIFF, (1, 2, 3) if deep else (1, 2), None), 16)
    add('cnf', (5, big.CLIFF if deep else ('H', 'Sr', 'cp', 'ci', 'zk', 'M'), (2,), None), 16)
    LY = ('H', 'He', 'Tr', 'T', 'cp', 'ci', 'zo', 'M')
    add('circ', (4, LY, PS, (1, 2, 3) if deep else (1, 2), ('full', 'cliff'), SOMEO, (0,), None), 32)
    add('circ', (4, ('H', 'Tr', 'cp', 'zo'), PS, (4,) if deep else (3,), ('full', 'icliff'), SOMEO, (), None), 32)
    add('circ', (5, ('H', 'Tr', 'ci', 'zk', 'T', 'R'), PS, (3,) if deep else (2,), ('full',), SOMEO, (), None), 32)
    add('cnf_shape', (2, False, ((0, 0), (1, 0), (0, 1), (1, 1)), tuple(itertools.product((F(0), h), repeat=4)), tuple((a, b) for a in range(4) for b in range(4)), ), 8)
    add('cnf_shape', (3, False, tuple((a, b) for a in (0, 7, 2) for b in (0, 5)), ((h, o, F(0), F(3, 2), h, o),), ((0, 0), (7, 2)) if deep else ((0, 5),)), 16)
    add('cnf_shape', (4, True, ((0, 0),), ((h,) * 8,), ((0, 0),)), 8)
    add('cnf_refuse', (2, 3 if deep else 2), 4)
    for dpt in (0, 1, 2, 3):
        SP = ('HAD', 'T', 'NOT', 'CNOT', 'CZ', 'XCX', 'SWAP', 'XPhase') if dpt < 3 or deep else ('HAD', 'T', 'CNOT')
        add('simple', (2, SP, PS, dpt, ('raw', 'spider', 'id', 'gl', 'rg', 'gh'), None), 8)
        if dpt < 3 or deep:
            add('simple', (3, ('HAD', 'T', 'CNOT', 'CZ', 'XPhase'), PS, dpt, ('spider', 'id', 'gl', 'rg'), None), 8)
            add('simple', (2, ('HAD', 'T', 'CNOT', 'XCX'), PS, dpt, ('raw', 'id', 'gl'), 'multigraph'), 4)
    for n in (0, 1, 2, 3, 4, 5):
        add('swaps', (n,), 1 if n < 4 else 4)
    for r, c in ((1, 1), (1, 2), (2, 2), (2, 3), (3, 3), (3, 4), (1, 4), (2, 4), (3, 5), (2, 5)) + (((4, 4), (4, 5)) if deep else ()):
        add('mat', (r, c), 1 if r * c < 12 else 8 if r * c < 16 else 64)
    add('matinv', (4,), 16)
    for r, c in ((3, 3), (4, 2), (5, 2)) + (((6, 2), (5, 3)) if deep else ((6, 1),)):
        add('flat', (r, c), 4)
    for r in (4, 6) if not deep else (4, 6, 8):
        add('sums', (r,), 8 if r < 8 else 64)
    add('cnots', (3, 4 if not deep else 5), 8)
    add('cnots', (4, 3), 8)
    for b in ('simple', 'multigraph'):
        add('biadj', (2, 2, b), 1)
        add('biadj', (2, 3, b), 2)
    return T


def fam_matinv(rep, n, i, m):
    """the row-reduction helpers on all invertible matrices of the next size"""
    for M in slice_iter(invertible(n), i, m):
        d = [[r >> k & 1 for k in range(n)] for r in M]
        if not rep.state('inv %s' % (d,)):
            continue
        with rep.case('invertible %s' % (d,), dict(op='greedy')):
            t = E.column_optimal_swap(Mat2([list(x) for x in d]))
            require(sorted(t.keys()) == list(range(n)) and sorted(t.values()) == list(range(n)), 'not a permutation: %s', t)
            single = any(sum(x) == 1 for x in d)
            for f, cnt in ((E.greedy_reduction, 1), (E.greedy_reduction_flat, 1)) + (((E.greedy_two_reduction, 2),) if not single else ()):
                M1 = Mat2([list(x) for x in d])
                ops = f(M1)
                require(ops is not None, '%s finds no reduction of an invertible matrix', f.__name__)
                for a, b in ops:
                    M1.row_add(a, b)
                got = sum(1 for x in M1.data if sum(x) == 1)
                require(got >= cnt, '%s leaves %d rows with a single 1', f.__name__, got)
                rep.step()
            rep.outcome('ok')


def fam_czs(rep, n, opts, i, m):
    """all graphs of controlled-Z gates on n qubits"""
    prs = list(itertools.combinations(range(n), 2))
    ident = tuple(1 << k for k in range(n))
    for cz in slice_iter(range(1 << len(prs)), i, m):
        if n > 5:      # one representative per sorted degree sequence order
            deg = [0] * n
            for k, (a, b) in enumerate(prs):
                if cz >> k & 1:
                    deg[a] += 1
                    deg[b] += 1
            if deg != sorted(deg):
                continue
        a = (n, ident, 0, cz, (), (), (F(0),) * (2 * n - 1) + (q,), (0, 0))
        dg = np.ones(2 ** n, complex)
        for x in range(2 ** n):
            bs = [x >> (n - 1 - k) & 1 for k in range(n)]
            s = sum(bs[p] & bs[r] for k, (p, r) in enumerate(prs) if cz >> k & 1)
            dg[x] = (-1) ** s * np.exp(1j * np.pi / 4 * bs[n - 1])
        # in - a -H- b - out: a Hadamard on each qubit, then the diagonal
        H = np.array([[1, 1], [1, -1]]) / np.sqrt(2)
        hh = np.ones((1, 1))
        for k in range(n):
            hh = np.kron(hh, H)
        ext_case(rep, 'czs %d %d' % (n, cz), lambda: graph_of(*a), dg[:, None] * hh, n, [OPTS[k] for k in opts if not OPTS[k][2]], (), dict(strat='czs'))


FAMILIES.update(matinv=fam_matinv, czs=fam_czs)
ASSUME = ['the unitary of a circuit is the product of standard gate matrices (lib/circ.py), of a diagram the sum over spider values (lib/ref.py)',
          'extraction is asked only for diagrams obtained from circuits or of the graph-like shape inputs - spiders - spiders - outputs with an invertible connection matrix']
BOUNDS = dict(quick='circuits of 1-3 qubits and depth 2-4 x 4 strategies x 16 option sets; all invertible connection matrices of 2-3 qubits (and of 4 up to column order) with CZs, gadgets, Hadamards; all 5-qubit CZ graphs; Clifford circuits of depth 3-4; matrices up to 3x5',
              thorough='circuits up to depth 6 (2 qubits), 4 (3 qubits), 3 (4 qubits); all 4x4 invertible matrices; look-ahead everywhere; 6-qubit CZ graphs')


def run():
    return core.main('C11', FAMILIES, tasks, ASSUME, BOUNDS)
