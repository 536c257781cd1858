"""C29: strong simulation: every decomposition of every small Clifford+T diagram, sums of diagrams, path sums and sampling, compared with direct evaluation."""
import itertools, random
from fractions import Fraction as F
import numpy as np
import core, choice, ref, circ, big, diag
from core import require, slice_iter
from diag import V, canon_graphs, kind_multisets, with_boundaries, connected
from ref import Z, BOUNDARY
from C05 import dump
import pyzx as zx
from pyzx import simulate as M
from pyzx.simulate import SumGraph, replace_magic_states, find_stabilizer_decomp, max_terms_needed, calculate_path_sum

Q = F(1, 4)


BACKEND = ['simple']


def build(spec):
    return diag.build(spec, BACKEND[0])


def fam_on(rep, backend, fam, *args):
    """a family on another graph backend"""
    BACKEND[0] = backend
    try:
        FAMILIES[fam](rep, *args)
    finally:
        BACKEND[0] = 'simple'


def specs(n, phases, bopts=((),), io=None, conn=False):
    """graph-like diagrams: Z spiders with the given phases, Hadamard edges, boundaries attached by the edge types in bopts"""
    if n == 'big':       # fixed shapes with 5-7 spiders
        yield from big.gl(phases=phases, hubs=phases[:2], lo=4, hi=6, hb=bopts, lb=bopts, maxb=len(io or ''), io=io or 'o' * 20)
        return
    kinds = [(p, b) for p in phases for b in bopts]
    for c, sizes in kind_multisets(kinds, n):
        ks = [kinds[j] for j in c]
        if io is not None and len([1 for k in ks for _ in k[1]]) > len(io):
            continue
        for es in canon_graphs(sizes, (0, 2)):
            if conn and not connected(n, es):
                continue
            yield with_boundaries([V(Z, p) for p, _ in ks], es, [b for _, b in ks], io=io or 'o' * 20)


def total(gs, like):
    t = np.zeros(np.shape(like), dtype=complex)
    for g in gs:
        v = ref.value(g)
        require(np.shape(v) == np.shape(like), 'a term has another shape')
        t = t + v
    return t


def same(a, b, what='value'):
    require(np.shape(a) == np.shape(b) and ref.close(a, b), '%s %s instead of %s', what, np.round(np.ravel(a)[:4], 4), np.round(np.ravel(b)[:4], 4))


def tlike(g):
    return sum(1 for v in g.vertices() if g.phase(v) and g.phase(v).denominator == 4)


# ---------------------------------------------------------------- single replacement steps
def fam_magic(rep, order, i, k):
    """the identities themselves, for every order of the spiders, on spiders with outputs"""
    for ph in itertools.product((1, 3, 5, 7), repeat=2) if order < 6 else [(1, 1), (7, 3), (5, 5)]:
        phases = [F(ph[j % 2], 4) for j in range(order)]
        spec = with_boundaries([V(Z, p) for p in phases], [], [(1,)] * order, io='o' * order)
        g = build(spec)
        want = ref.value(g)
        fs = {6: [M.replace_B60, M.replace_B66, M.replace_E6, M.replace_O6, M.replace_K6, M.replace_phi1, M.replace_phi2], 2: [M.replace_2_S, M.replace_2_N], 1: [M.replace_1_0, M.replace_1_1]}[order]
        verts = [v for v in g.vertices() if g.type(v) != BOUNDARY]
        for p in slice_iter(itertools.permutations(verts), i, k):
            key = 'magic %d %s %s' % (order, ph, p)
            rep.state(key)
            with rep.case(key, dict(op='magic%d' % order)):
                terms = [f(g.copy(), [verts.index(x) + order for x in p]) for f in fs]
                for h in terms:
                    if order == 6:
                        h.scalar.add_float(M.MAGIC_GLOBAL)
                    rep.step()
                    require(tlike(h) == 0, 'a term is not Clifford')
                same(total(terms, want), want, 'sum')


def replace_case(rep, g, key, modes=(False, True)):
    want, before, t = ref.value(g), dump(g), tlike(g)
    for pick in modes:
        def program():
            try:
                return replace_magic_states(g, pick)
            except Exception as e:
                return e
        for ch, res, cut in choice.explore(program):
            with rep.case('replace %s %s %s' % (key, pick, ch), dict(op='replace')):
                rep.step()
                if isinstance(res, Exception):
                    require(t == 0, 'raised %s', res)
                    rep.outcome('nothing to replace')
                    continue
                require(t > 0, 'nothing to replace')
                k = 6 if t >= 6 else 2 if t >= 2 else 1
                rep.outcome('%d' % k)
                require(len(res.graphs) == {6: 7, 2: 2, 1: 2}[k] and all(tlike(h) == t - k for h in res.graphs), 'terms')
                require(len({id(h) for h in res.graphs}) == len(res.graphs) and all(h is not g for h in res.graphs), 'shared diagrams')
                same(total(res.graphs, want), want, 'sum')
                require(dump(g) == before, 'the diagram is changed')


def fam_replace(rep, n, phases, bopts, io, modes, i, k):
    for spec in slice_iter(specs(n, phases, bopts, io), i, k):
        g = build(spec)
        g.scalar.add_phase(F(1, 4))
        g.scalar.add_power(3)
        rep.state(spec.show())
        replace_case(rep, g, spec.show(), modes)


# ---------------------------------------------------------------- full decompositions
def decomp_case(rep, g, key, exact=True):
    want, before, bound = ref.value(g), dump(g), max_terms_needed(g)

    def program():
        try:
            return find_stabilizer_decomp(g)
        except Exception as e:
            return e
    runs = choice.explore(program) if exact else [((), seeded(program), False)]
    for ch, res, cut in runs:
        with rep.case('decomp %s %s' % (key, ch), dict(op='decomp')):
            rep.step()
            if isinstance(res, Exception):
                raise res
            require(all(zx.simplify.tcount(h) == 0 for h in res), 'a term is not Clifford')
            require(len(res) <= bound, '%d terms, at most %d expected', len(res), bound)
            rep.outcome('%d terms' % len(res))
            same(total(res, want), want, 'sum')
            require(dump(g) == before, 'the diagram is changed')


def seeded(program):
    random.seed(7)
    return program()


def fam_decomp(rep, n, phases, bopts, io, exact, i, k):
    for spec in slice_iter(specs(n, phases, bopts, io), i, k):
        rep.state(spec.show())
        decomp_case(rep, build(spec), spec.show(), exact)


def fam_bound(rep):
    """the number of terms as documented: 7 for every six T gates, and for what remains 1, 2, 2, 4, 4, 8"""
    for t in range(0, 20):
        with rep.case('bound %d' % t, dict(op='bound')):
            rep.state(str(t))
            g = zx.Graph()
            for _ in range(t):
                g.add_vertex(1, phase=Q)
            rep.step()
            require(max_terms_needed(g) == 7 ** (t // 6) * [1, 2, 2, 4, 4, 8][t % 6], 'bound %s', max_terms_needed(g))


def amp_circuits(n, depth, names):
    if isinstance(depth, tuple):
        yield from (tuple(x) for _, x in big.layers(n, ('H', 'Tr', 'cp', 'T', 'zo', 'Tz'), depth) if sum(g[0] in ('T', 'T*') for g in x) <= 8)
        return
    alpha = circ.alphabet(n, names)
    yield from circ.sequences(alpha, depth)


def fam_amplitude(rep, n, depth, i, k):
    """amplitudes of all small circuits"""
    names = ['HAD', 'T', 'CNOT'] + (['CZ'] if n > 1 else [])
    for ds in slice_iter(amp_circuits(n, depth, [x for x in names if n > 1 or x in ('HAD', 'T')]), i, k):
        u = circ.unitary(n, ds)
        key = circ.show(n, ds)
        rep.state(key)
        for si, so in [('0' * n, '0' * n), ('+' * n, '0' * n), (('0-' * n)[:n], ('+1' * n)[:n])]:
            with rep.case('amplitude %s %s %s' % (key, si, so), dict(op='amplitude')):
                vec = {'0': [1, 0], '1': [0, 1], '+': [2 ** -.5] * 2, '-': [2 ** -.5, -2 ** -.5]}
                a, b = np.array([1.0]), np.array([1.0])
                for x, y in zip(si, so):
                    a, b = np.kron(a, vec[x]), np.kron(b, vec[y])
                want = b @ np.asarray(u).reshape(2 ** n, 2 ** n) @ a
                g = circ.circuit(n, ds).to_graph(backend=BACKEND[0])
                g.apply_state(si)
                g.apply_effect(so)
                h, f = g.copy(), g.copy()
                zx.simplify.reduce_scalar(h) if len(ds) % 2 else zx.simplify.full_reduce(h)
                rep.step()
                require(abs(seeded(lambda: sum(complex(np.ravel(ref.value(x))[0]) for x in find_stabilizer_decomp(h))) - want) < 1e-6, 'the decomposition of %s sums to something else', h)
                zx.simplify.full_reduce(f)
                require(abs(calculate_path_sum(f) - want) < 1e-6, 'path sum %s instead of %s', calculate_path_sum(f), want)
                require(np.abs(SumGraph(find_stabilizer_decomp(f)).to_tensor() - want).max() < 1e-6, 'to_tensor of the sum')


# ---------------------------------------------------------------- path sums
def fam_path(rep, n, phases, reduce, i, k):
    for spec in slice_iter(specs(n, phases), i, k):
        g = build(spec)
        g.scalar.add_phase(Q)
        want = complex(np.ravel(ref.value(g))[0])
        with rep.case('path %s %s' % (spec.show(), reduce), dict(op='path')):
            rep.state(spec.show())
            getattr(zx.simplify, reduce)(g)
            before = dump(g)
            got = calculate_path_sum(g)
            rep.step()
            require(abs(got - want) < 1e-6, 'path sum %s instead of %s', got, want)
            require(dump(g) == before, 'the diagram is changed')


# ---------------------------------------------------------------- sums of diagrams
def sums(n, phases, bopts, io, nout):
    """sums of one to three diagrams with nout outputs"""
    pool = [s for s in specs(n, phases, bopts, io) if len(s.outs) == nout and len(s.ins) == (io or '').count('i')]
    for s in pool:
        yield [s]
    for a, b in zip(pool, pool[1:] + pool[:1]):
        yield [a, b]
    for a, b, c in zip(pool, pool[7 % len(pool):] + pool[:7 % len(pool)], pool[::-1]):
        yield [a, b, c]


def make(ss):
    gs = [build(s) for s in ss]
    for k, g in enumerate(gs):
        g.scalar.add_phase(F(k, 2))
        g.scalar.add_power(k - 1)
    return gs


EFF = {'0': [1, 0], '1': [0, 1], '+': [2 ** -.5] * 2, '-': [2 ** -.5, -2 ** -.5]}


def posted(t, nin, qubits):
    """plug effects into the outputs of the tensor (outputs first in pyzx order? reference: outputs are the last axes)"""
    for q in sorted(qubits, reverse=True):
        t = np.tensordot(t, np.array(EFF[qubits[q]]), axes=([nin + q], [0]))
    return t


def axes(g):
    return g.num_inputs()


def fam_sum(rep, n, phases, bopts, io, nout, i, k):
    for ss in slice_iter(sums(n, phases, bopts, io, nout), i, k):
        key = ' + '.join(s.show() for s in ss)
        rep.state(key)
        with rep.case('sum ' + key, dict(op='sum')):
            gs = make(ss)
            want = total(gs, ref.value(gs[0]))
            nin = gs[0].num_inputs()
            mat = sum(ref.matrix(g) for g in gs)
            s = SumGraph(gs)
            rep.step()
            same(np.asarray(s.to_matrix()), mat, 'to_matrix')
            same(np.asarray(s.to_tensor()), sum(g.to_tensor(True) for g in gs), 'to_tensor')
            require(np.allclose(np.asarray(s.to_tensor()).reshape(mat.shape), mat, atol=1e-7), 'to_tensor')
            before = [dump(g) for g in gs]
            for r in range(nout + 1):
                for qs in itertools.combinations(range(nout), r):
                    for eff in itertools.product('01+-', repeat=r):
                        p = s.post_select(dict(zip(qs, eff)))
                        rep.step()
                        require(len(p.graphs) == len(gs) and all(h.num_outputs() == nout - r and h.num_inputs() == nin for h in p.graphs), 'number of outputs')
                        got = total(p.graphs, ref.value(p.graphs[0]))
                        same(got, posted(want, nin, dict(zip(qs, eff))), 'post_select %s' % dict(zip(qs, eff)))
            require([dump(g) for g in gs] == before, 'post_select changes the sum')
            for op in ('full_reduce', 'reduce_scalar'):
                t = SumGraph([g.copy() for g in gs])
                getattr(t, op)()
                rep.step()
                require(len(t.graphs) <= len(gs) and all(not g.scalar.is_zero for g in t.graphs), 'zero terms are kept')
                same(total(t.graphs, want), want, op)
            c = SumGraph()
            require(c.graphs == [] and not np.any(c.to_tensor()) and not np.any(c.to_matrix()) and c.inner_product_with_random_state() == 0, 'the empty sum')
            c.graphs.append(gs[0])
            require(SumGraph().graphs == [], 'empty sums share their terms')


def fam_inner(rep, n, phases, bopts, nout, i, k):
    """inner product with every equatorial effect; their average is the norm"""
    for ss in slice_iter(sums(n, phases, bopts, None, nout), i, k):
        key = ' + '.join(s.show() for s in ss)
        rep.state(key)
        gs = make(ss)
        want = np.ravel(total(gs, ref.value(gs[0])))
        before = [dump(g) for g in gs]

        def program():
            try:
                return SumGraph(gs).inner_product_with_random_state()
            except Exception as e:
                return e
        acc = []
        effects = {}
        for ph in itertools.product(range(4), repeat=nout):
            prs = list(itertools.combinations(range(nout), 2))
            for con in itertools.product((0, 1), repeat=len(prs)):
                e = sum(want[x] * 1j ** sum(p * b for p, b in zip(ph, bits(x, nout))) * (-1) ** sum(c * bits(x, nout)[a] * bits(x, nout)[b] for c, (a, b) in zip(con, prs)) for x in range(2 ** nout))
                effects[(ph, con)] = e
        vals = []
        with rep.case('inner ' + key, dict(op='inner')):
            for ch, res, cut in choice.explore(program, floats=(0.25, 0.75)):
                if isinstance(res, Exception):
                    raise res
                rep.step()
                vals.append(complex(res))
            # every equatorial effect is drawn equally often
            exp = sorted(effects.values(), key=lambda z: (round(z.real, 5), round(z.imag, 5)))
            got = sorted(vals, key=lambda z: (round(z.real, 5), round(z.imag, 5)))
            require(len(got) == len(exp) and multiset(got) == multiset(exp), 'inner products %s instead of %s', got[:4], exp[:4])
            require(abs(np.mean([abs(v) ** 2 for v in vals]) - np.linalg.norm(want) ** 2) < 1e-6, 'average')
            require([dump(g) for g in gs] == before, 'the sum is changed')


def multiset(zs):
    return sorted((round(z.real + 1e-9, 4) + 0.0, round(z.imag + 1e-9, 4) + 0.0) for z in zs)


def bits(x, n):
    return [x >> (n - 1 - j) & 1 for j in range(n)]


def fam_norm(rep):
    """the estimate is the mean of |inner product|^2 over 4/epsilon^2 draws"""
    s = SumGraph([])
    for eps, count in ((2, 1), (1, 4), (0.5, 16), (0.3, 44), (0.05, 1600)):
        with rep.case('norm %s' % eps, dict(op='norm')):
            rep.state(str(eps))
            draws = []

            def fake():
                draws.append(complex(len(draws) % 3, len(draws) % 2))
                return draws[-1]
            s.inner_product_with_random_state = fake
            got = s.estimate_norm(eps)
            rep.step()
            require(len(draws) == count and abs(got - sum(abs(d) ** 2 for d in draws) / count) < 1e-9, '%d draws, estimate %s', len(draws), got)


def fam_sample(rep, n, phases, bopts, nout, i, k):
    """sampling with an exact norm: every draw follows the probabilities of the measurement"""
    old = SumGraph.estimate_norm
    SumGraph.estimate_norm = lambda s, epsilon=0.05: float(np.linalg.norm(np.ravel(total(s.graphs, ref.value(s.graphs[0])))) ** 2) if s.graphs else 0.0
    try:
        for ss in slice_iter(sums(n, phases, bopts, None, nout), i, k):
            want = total(make(ss), ref.value(make(ss)[0]))
            for post in [None] + [{q: e} for q in range(nout) for e in '01+-']:
                t = posted(want, 0, post or {})
                if np.linalg.norm(t) < 1e-6:
                    continue
                left = [q for q in range(nout) if not post or q not in post]
                for qs in (itertools.permutations(left, r) for r in (len(left), 1)):
                    for qubits in qs:
                        if not qubits:
                            continue
                        sample_case(rep, ss, t, left, list(qubits), post)
    finally:
        SumGraph.estimate_norm = old


def sample_case(rep, ss, t, left, qubits, post):
    key = '%s %s %s' % (' + '.join(s.show() for s in ss), qubits, post)
    rep.state(key)
    amount = 2

    def program():
        draws = []
        f = random.random

        def rnd():
            draws.append(f())
            return draws[-1]
        random.random = rnd
        try:
            return SumGraph(make(ss)).sample(list(qubits), dict(post) if post else None, amount), draws
        except Exception as e:
            return e, draws
        finally:
            random.random = f
    for ch, (res, draws), cut in choice.explore(program, floats=(0.3, 0.999) if len(qubits) > 2 else (0.001, 0.4, 0.999)):
        with rep.case('sample %s %s' % (key, ch), dict(op='sample')):
            if isinstance(res, Exception):
                raise res
            rep.step()
            require(len(res) == amount and len(draws) == amount * len(qubits), '%d samples from %d draws', len(res), len(draws))
            it = iter(draws)
            for out in res:
                require([q for q, _ in out] == qubits, 'sampled qubits %s', out)
                fixed = {}
                for q, v in out:
                    pr = [np.linalg.norm(np.ravel(posted(t, 0, {left.index(a): str(b) for a, b in list(fixed.items()) + [(q, x)]}))) ** 2 for x in (0, 1)]
                    r = next(it)
                    p0 = pr[0] / (pr[0] + pr[1])
                    require(abs(r - p0) < 1e-6 or v == int(r > p0), 'outcome %s of qubit %s for the draw %s, probability of 0 is %s', v, q, r, p0)
                    if pr[v] < 1e-9:
                        return
                    fixed[q] = v


FAMILIES = dict(on=fam_on, magic=fam_magic, replace=fam_replace, decomp=fam_decomp, bound=fam_bound, amplitude=fam_amplitude, path=fam_path, sum=fam_sum, inner=fam_inner, norm=fam_norm, sample=fam_sample)

ALL8 = tuple(F(k, 4) for k in range(8))
SOME = (F(0), Q, F(1, 2), F(5, 4), F(1))
TS = (Q, F(7, 4))


def tasks(tier):
    q = tier == 'quick'
    R = range
    t = [('magic', (1, 0, 1)), ('magic', (2, 0, 1))] + [('magic', (6, i, 32)) for i in (R(8) if q else R(32))] + [('bound', ()), ('norm', ())]
    for n in (1, 2, 3):
        t += [('replace', (n, ALL8, ((),), None, (False, True), i, 4)) for i in R(1 if n < 3 else 4)] if n < 3 else [('replace', (n, ALL8, ((),), None, (False, True), i, 4)) for i in R(4)]
        t += [('replace', (n, SOME, ((), (1,), (2,)), 'oiooo', (False,), i, 8)) for i in R(8)]
    t += [('replace', (4, SOME, ((),), None, (False,), i, 4)) for i in R(4)] + [('replace', (4, (Q, F(3, 4)), ((), (1,)), 'oooo', (False, True), i, 4)) for i in R(4)]
    t += [('replace', (6, (Q, F(5, 4)), ((),), None, (False,), i, 8)) for i in (R(2) if q else R(8))] + [('replace', (6, (F(3, 4),), ((), (1,)), 'o' * 6, (False,), i, 24)) for i in (R(4) if q else R(24))]
    for n in (1, 2, 3):
        t += [('decomp', (n, ALL8, ((),), None, True, i, 8)) for i in R(8)]
    t += [('decomp', (4, SOME, ((),), None, False, i, 8)) for i in R(8)] + [('decomp', (3, SOME, ((), (1,)), 'ooo', True, i, 8)) for i in R(8)]
    t += [('decomp', (5, TS, ((),), None, False, i, 8)) for i in R(8)] + [('decomp', (6, (Q,), ((),), None, False, i, 8)) for i in (R(4) if q else R(8))]
    t += [('amplitude', (1, 6, i, 2)) for i in R(2)] + [('amplitude', (2, 3 if q else 5, i, 32)) for i in R(32)] + [('amplitude', (3, 3, i, 32)) for i in (R(8) if q else R(32))]
    t += [('decomp', ('big', (F(0), Q, F(3, 4), F(1, 2), F(1)), ((),), None, False, i, 16)) for i in R(16)] + [('decomp', ('big', (Q, F(7, 4), F(0), F(1, 2)), ((), (1,)), 'ooo', False, i, 16)) for i in R(16)]
    t += [('replace', ('big', (F(1, 2), Q, F(0), Q, F(3, 4)), ((), (1,)), 'oooo', (False,), i, 16)) for i in (R(2) if q else R(16))]
    t += [('amplitude', (3, (2, 3) if q else (2, 3, 4), i, 16)) for i in R(16)] + [('amplitude', (4, (2, 3) if q else (2, 3, 4), i, 32)) for i in R(32)]
    for red in ('full_reduce', 'reduce_scalar'):
        t += [('path', ('big', (F(0), Q, F(3, 4), F(1, 2), F(1)), red, i, 8)) for i in R(8)]
        t += [('path', (n, ALL8, red, i, 4)) for n in (1, 2, 3) for i in R(4)] + [('path', (4, ALL8 if not q else SOME, red, i, 8)) for i in R(8)] + [('path', (5, TS if q else (Q, F(3, 4), F(0)), red, i, 8)) for i in R(8)]
        t += [('path', (6, (Q, F(0)), red, i, 16)) for i in (R(4) if q else R(16))]
    cl = (F(0), F(1, 2), F(1), F(3, 2))
    t += [('sum', (2, ALL8, ((1,), (2,)), 'oo', 2, i, 4)) for i in R(4)] + [('sum', (2, SOME, ((1,), (2, 1), ()), 'oio', 2, i, 8)) for i in R(8)] + [('sum', (3, (F(0), Q), ((1,),), 'ooo', 3, i, 4)) for i in R(4)]
    t += [('inner', (2, cl, ((1,), (2,)), 2, i, 8)) for i in R(8)] + [('inner', (1, cl, ((1,), (2,)), 1, 0, 1))] + [('inner', (3, (F(0), F(1, 2)), ((1,), (2,), ()), 2, i, 32)) for i in (R(8) if q else R(32))]
    t += [('inner', (1, cl, ((1, 1), (2, 1)), 2, 0, 1))] + [('inner', (3, (F(0), F(1, 2)), ((1,),), 3, i, 8)) for i in (R(1) if q else R(8))]
    t += [('sample', (1, cl, ((1,), (2,)), 1, 0, 1))] + [('sample', (2, cl, ((1,), (2,)), 2, i, 32)) for i in (R(7) if q else R(32))] + [('sample', (1, SOME, ((1, 1), (2, 1)), 2, i, 8)) for i in R(8)] + [('sample', (3, (F(1, 2), Q), ((1,),), 3, i, 48)) for i in (R(4) if q else R(48))]
    M = 'multigraph'
    t += [('on', (M, 'replace', 2, SOME, ((), (1,), (2,)), 'oiooo', (False, True), i, 8)) for i in R(8)] + [('on', (M, 'replace', 6, (F(3, 4),), ((),), None, (False,), i, 24)) for i in (R(2) if q else R(24))]
    t += [('on', (M, 'decomp', n, SOME if q else ALL8, ((),), None, True, i, 8)) for n in (2, 3) for i in R(8)] + [('on', (M, 'decomp', 5, TS, ((),), None, False, i, 8)) for i in (R(2) if q else R(8))]
    t += [('on', (M, 'amplitude', 2, 3, i, 32)) for i in (R(8) if q else R(32))]
    for red in ('full_reduce', 'reduce_scalar'):
        t += [('on', (M, 'path', n, SOME if q else ALL8, red, i, 4)) for n in (2, 3) for i in R(4)]
    t += [('on', (M, 'sum', 2, SOME, ((1,), (2, 1), ()), 'oio', 2, i, 8)) for i in (R(2) if q else R(8))] + [('on', (M, 'inner', 2, cl, ((1,), (2,)), 2, i, 8)) for i in (R(2) if q else R(8))]
    return t


def run():
    return core.main('C29', FAMILIES, tasks, assumptions=['sampling is checked with an exact norm in place of the estimate', 'numerical comparison with tolerance 1e-6'],
                     exhaustive_note='all graph-like Clifford+T diagrams up to the stated size and all random choices')
