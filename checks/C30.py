"""C30: local search: every congruence at every place, annealing and genetic search under every outcome of their random choices."""
import inspect, itertools, zlib
import numpy as np
from fractions import Fraction as F
import core, choice, ref, circ
from core import require, slice_iter
from ref import Z, BOUNDARY
import diag
import C05
from C29 import specs
import pyzx as zx
from pyzx.utils import VertexType, EdgeType
from pyzx.local_search import congruences as C, scores as S, simulated_annealing as A, genetic as G


BACKEND = ['simple']


def build(spec):
    return diag.build(spec, BACKEND[0])


def fam_on(rep, backend, fam, *args):
    """a family on another graph backend"""
    BACKEND[0] = backend
    try:
        FAMILIES[fam](rep, *args)
    finally:
        BACKEND[0] = 'simple'


def dump(g):
    return repr(C05.dump(g))


SOME = (F(0), F(1, 4), F(1, 2), F(5, 4), F(1), F(3, 2))
BOPTS = ((), (1,), (2,), (1, 2))


def same_map(g, want):
    a = ref.value(g)
    require(a.shape == want.shape, 'shape %s instead of %s', a.shape, want.shape)
    require(ref.prop(a, want), 'another linear map')


def well_formed(g, ins, outs):
    require(tuple(g.inputs()) == ins and tuple(g.outputs()) == outs, 'inputs or outputs')
    for v in g.vertices():
        if g.type(v) == BOUNDARY:
            require(g.vertex_degree(v) == 1, 'boundary of degree %d', g.vertex_degree(v))


def wide(n, m, phases):
    """two adjacent spiders with up to m common and private neighbours, and one spider with n neighbours"""
    from diag import V, with_boundaries
    for a, b, c in itertools.product(range(m + 1), repeat=3):
        for bd in itertools.product(((), (1,), (2,)), repeat=2):
            vs = [V(Z, phases[k % len(phases)]) for k in range(2 + a + b + c)]
            es = [(0, 1, 2)] + [(0, 2 + j, 2) for j in range(a + c)] + [(1, 2 + a + j, 2) for j in range(b + c)]
            es = [(0, 1, 2)] + [(0, 2 + j, 2) for j in range(a)] + [(1, 2 + a + j, 2) for j in range(b)] + [(i, 2 + a + b + j, 2) for j in range(c) for i in (0, 1)]
            yield vs, es, [bd[0], bd[1]] + [(1,)] * min(2, a + b + c) + [()] * max(0, a + b + c - 2)


def moves(rep, g, key, full=True):
    want, ins, outs = ref.value(g), tuple(g.inputs()), tuple(g.outputs())
    zs = [v for v in g.vertices() if g.type(v) == VertexType.Z]
    for v in zs:
        if C.is_lc_vertex(g, v):
            with rep.case('lc_cong %s at %s' % (key, v), dict(op='lc_cong')):
                rep.step()
                rep.outcome('lc')
                h = g.copy()
                C.lc_cong(h, {a: b for a, b in zip(g.vertices(), h.vertices())}[v])
                same_map(h, want)
        require(C.is_lc_vertex(g, v) == (g.vertex_degree(v) >= 2 and all(g.type(w) != BOUNDARY for w in g.neighbors(v))), 'is_lc_vertex of %s', v)
        for name, f in (('lc_cong2', C.lc_cong2), ('unfuse', C.unfuse)):
            with rep.case('%s %s at %s' % (name, key, v), dict(op=name)):
                rep.step()
                h = g.clone()
                f(h, v)
                same_map(h, want)
                well_formed(h, ins, outs)
    for e in list(g.edges()):
        s, t = g.edge_st(e)
        require(C.is_pivot_edge(g, e) == (s in zs and t in zs), 'is_pivot_edge of %s', e)
        if not C.is_pivot_edge(g, e):
            continue
        for a, b in ((s, t), (t, s)):
            with rep.case('pivot_cong %s at %s %s' % (key, a, b), dict(op='pivot_cong')):
                rep.step()
                rep.outcome('pivot')
                h = g.clone()
                C.pivot_cong(h, a, b)
                same_map(h, want)
                well_formed(h, ins, outs)


def randoms(rep, g, key):
    want, ins, outs = ref.value(g), tuple(g.inputs()), tuple(g.outputs())
    lcs = [v for v in g.vertices() if C.is_lc_vertex(g, v)]
    pes = [e for e in g.edges() if C.is_pivot_edge(g, e)]
    for name, f, cand in (('rand_lc', C.apply_rand_lc, lcs), ('rand_pivot', C.apply_rand_pivot, pes)):
        def program():
            h = g.clone()
            try:
                f(h)
            except Exception as e:
                return e
            return h
        n = 0
        for ch, h, cut in choice.explore(program):
            n += 1
            with rep.case('%s %s %s' % (name, key, ch), dict(op=name)):
                rep.step()
                if isinstance(h, Exception):
                    raise h
                rep.outcome(name if cand else name + ' without candidates')
                same_map(h, want)
                well_formed(h, ins, outs)
                if not cand:
                    require(dump(h) == dump(g), 'changed without a candidate')
        with rep.case('%s %s outcomes' % (name, key), dict(op=name)):
            require(n == max(1, len(cand)), '%d outcomes for %d candidates', n, len(cand))


def fam_moves(rep, n, phases, bopts, io, i, k):
    for spec in slice_iter(specs(n, phases, bopts, io), i, k):
        g = build(spec)
        rep.state(spec.show())
        moves(rep, g, spec.show())
        randoms(rep, g, spec.show())


def fam_wide(rep, m, i, k):
    from diag import with_boundaries
    for ph in ((F(1, 4), F(0), F(3, 2)), (F(0), F(1, 2)), (F(1), F(7, 4), F(1, 4), F(1, 2))):
        for vs, es, bs in slice_iter(wide(0, m, ph), i, k):
            spec = with_boundaries(vs, [(a, b, t) for a, b, t in es], bs, io='o' * 20)
            g = build(spec)
            rep.state(spec.show())
            moves(rep, g, spec.show())


def fam_dense(rep, lo, hi, i, k):
    """congruences at spiders with many (common) neighbours, which are connected in every regular way"""
    from diag import with_boundaries, V
    import big

    def items():
        for ph in ((F(1, 4), F(0), F(3, 2)), (F(1), F(7, 4), F(1, 2), F(0))):
            for c in range(lo, hi + 1):
                for a, b in ((0, 0), (1, 0), (1, 1), (2, 1)) if c < hi else ((0, 0), (0, 1)):
                    for inner in ((), 'path', 'complete'):
                        for bd in (((), ()), ((1,), ()), ((2,), (1,)), ((1, 2), ())):
                            n = 2 + a + b + c
                            if n > 8:
                                continue
                            es = [(0, 1, 2)] + [(0, 2 + j, 2) for j in range(a)] + [(1, 2 + a + j, 2) for j in range(b)] + [(x, 2 + a + b + j, 2) for j in range(c) for x in (0, 1)]
                            if inner == 'path':
                                es += [(x, x + 1, 2) for x in range(2, n - 1)]
                            elif inner == 'complete':
                                es += [(x, y, 2) for x in range(2, n) for y in range(x + 1, n)]
                            yield with_boundaries([V(Z, ph[j % len(ph)]) for j in range(n)], es, [bd[0], bd[1]] + [()] * (n - 3) + [(1,)], io='oooooo')
        for s in big.gl(lo=4, hi=hi + 1, hubs=(F(0), F(1, 2)), phases=(F(0), F(1, 4), F(1)), hb=((), (1,), (1, 1)), lb=((),)):
            yield s
    for spec in slice_iter(items(), i, k):
        g = build(spec)
        rep.state(spec.show())
        moves(rep, g, spec.show())


# ---------------------------------------------------------------- scores
CLT = ['T', 'S', 'HAD', 'CNOT', 'CZ', 'Z', 'NOT']


def circuits(n, d, names):
    for gs in circ.sequences(circ.alphabet(n, names, {'ZPhase': [(F(1, 4),)]}), d):
        yield gs


def prepared(n, gs, how):
    g = circ.circuit(n, gs).to_graph(backend=BACKEND[0])
    if how == 'graph_like':
        zx.simplify.to_graph_like(g)
    elif how == 'full_reduce':
        zx.simplify.full_reduce(g)
    elif how == 'clifford':
        zx.simplify.clifford_simp(g)
    return g


def fam_scores(rep, n, d, names, i, k):
    for gs in slice_iter(circuits(n, d, names), i, k):
        c = circ.circuit(n, gs)
        key = circ.show(n, gs)
        rep.state(key)
        want = circ.unitary(n, gs)
        with rep.case('wgc ' + key, dict(op='wgc')):
            b = circ.snapshot(c)
            basic = c.to_basic_gates()
            for w in (10, 3, 0):
                rep.step()
                got = S.wgc(c, two_qb_weight=w)
                exp = sum(w if len(q) > 1 else 1 for q in ([x for x in (getattr(g, 'control', None), getattr(g, 'target', None)) if x is not None] for g in basic.gates))
                require(got == exp, '%s instead of %s', got, exp)
            require(S.wgc(c) == S.wgc(c, 10) and circ.snapshot(c) == b, 'default weight or the circuit is changed')
        for how in ('graph_like', 'full_reduce'):
            g = prepared(n, gs, how)
            before = dump(g)
            for simp, cs in itertools.product((False, True), repeat=2):
                with rep.case('g_wgc %s %s %s %s' % (key, how, simp, cs), dict(op='g_wgc')):
                    rep.step()
                    seen = []
                    f = S.wgc
                    S.wgc = lambda c, *a, **kw: (seen.append((c.copy(), kw)), f(c, *a, **kw))[1]
                    try:
                        got = S.g_wgc(g, two_qb_weight=7, g_simplify=simp, c_simplify=cs)
                    finally:
                        S.wgc = f
                    require(dump(g) == before, 'the diagram is changed')
                    for cc, kw in seen:
                        require(ref.prop(circ.circuit_unitary(cc), want), 'the circuit scored is another one')
                        require(got == f(cc, two_qb_weight=7), 'score')
                    h = g.copy()
                    if simp:
                        zx.simplify.full_reduce(h)
                    e = zx.extract_circuit(h).to_basic_gates()
                    if cs:
                        e = zx.optimize.basic_optimization(e)
                    require(got == f(e, two_qb_weight=7), 'score %s instead of %s', got, f(e, two_qb_weight=7))


# ---------------------------------------------------------------- annealing
LO_HI = (0.0, 0.999999)


def landscape(m):
    """an arbitrary score, different for most diagrams"""
    return lambda h: zlib.crc32(dump(h.copy()).encode()) % m


def fam_anneal(rep, n, d, names, how, iters, temp, reset, scoring, i, k):
    for gs in slice_iter(circuits(n, d, names), i, k):
        g = prepared(n, gs, how)
        key = '%s %s iters=%d temp=%s reset=%s score=%s' % (circ.show(n, gs), how, iters, temp, reset, scoring)
        rep.state(key)
        want, before = circ.unitary(n, gs), dump(g)
        cache = {}
        default = inspect.signature(A.anneal).parameters['score'].default if scoring is None else landscape(scoring)

        def program():
            seen = []

            def score(h):
                d = dump(h)
                if d not in cache:
                    cache[d] = default(h)
                seen.append((cache[d], d))
                return cache[d]
            try:
                return A.anneal(g, iters=iters, temp=temp, score=score, full_reduce_prob=0.5, reset_prob=reset, quiet=True), seen
            except Exception as e:
                return e, seen
        checked = set()
        for ch, (res, seen), cut in choice.explore(program, floats=LO_HI):
            with rep.case('anneal %s %s' % (key, ch), dict(op='anneal')):
                rep.step()
                if isinstance(res, Exception):
                    raise res
                best, scores = res
                rep.outcome('improved' if min(x for x, _ in seen) < seen[0][0] else 'not improved')
                require(dump(g) == before, 'the input is changed')
                require(len(scores) == iters and len(seen) == iters + 1, '%d best scores, %d scored', len(scores), len(seen))
                lows = [min(x for x, _ in seen[:j + 1]) for j in range(len(seen))]
                require(list(scores) == lows[:-1], 'best scores %s, seen %s', scores, [x for x, _ in seen])
                got = default(best)
                require(got == lows[-1], 'result scores %s, best seen %s', got, lows[-1])
                if dump(best) not in checked:
                    checked.add(dump(best))
                    h = best.copy()
                    zx.simplify.full_reduce(h)
                    require(ref.prop(circ.circuit_unitary(zx.extract_circuit(h)), want), 'extracted circuit')
                    same_map(best, ref_io(want, n))


def ref_io(u, n):
    t = np.reshape(u, (2,) * (2 * n))
    return np.transpose(t, IO(n))


def IO(n):
    return list(range(n, 2 * n)) + list(range(n))


# ---------------------------------------------------------------- genetic search
def fam_genetic(rep, n, d, names, how, acts, mutants, gens, prob, i, k):
    for gs in slice_iter(circuits(n, d, names), i, k):
        g = prepared(n, gs, how)
        key = '%s %s %s mutants=%d generations=%d' % (circ.show(n, gs), how, acts, mutants, gens)
        rep.state(key)
        want, before = circ.unitary(n, gs), dump(g)
        pool = dict(pivot=G.rand_pivot, lc=G.rand_lc)

        def program():
            seen = []

            def score(m):
                x = G.default_score(m)
                seen.append((x, dump(m.g_curr), circ.snapshot(m.c_curr), m.c_curr))
                return x
            opt = G.GeneticOptimizer(actions=[lambda c, h, f=pool[a]: f(c, h, prob) for a in acts], score=score)
            try:
                if prob == 0:
                    return (None, None, opt.evolve(g, mutants, gens)), seen
                opt.quiet = True
                return opt._evolve(g, mutants, gens), seen
            except Exception as e:
                return e, seen
        checked = set()
        for ch, (res, seen), cut in choice.explore(program, floats=LO_HI, limit=60):
            with rep.case('genetic %s %s' % (key, ch), dict(op='genetic')):
                rep.step()
                if isinstance(res, Exception):
                    raise res
                bests, gensc, best = res
                low = min(s[0] for s in seen)
                rep.outcome('improved' if low < seen[0][0] else 'not improved')
                require(dump(g) == before, 'the input is changed')
                require((low, dump(best)) in [s[:2] for s in seen], 'the result does not have the best score seen, %s of %s', [s[0] for s in seen if s[1] == dump(best)], low)
                if bests is not None:
                    require(bests[-1] == low and bests[0] == seen[0][0] and all(x >= y for x, y in zip(bests, bests[1:])) and len(gensc) == len(bests) <= gens + 1, 'best scores %s', bests)
                    require(bests == [min(gensc[:j + 1]) for j in range(len(gensc))], 'best %s, generations %s', bests, gensc)
                for x, dg, sc, c in seen:
                    if sc not in checked:
                        require(ref.prop(circ.circuit_unitary(c), want), 'a candidate circuit is another one')
                        checked.add(sc)
                    require(x == S.wgc(c), 'score')
                if dump(best) not in checked:
                    same_map(best, ref_io(want, n))
                    h = best.copy()
                    zx.simplify.full_reduce(h)
                    require(ref.prop(circ.circuit_unitary(zx.extract_circuit(h)), want), 'extracted circuit')
                    checked.add(dump(best))


def fam_evolve(rep, mutants, gens, outcomes, i, k):
    """the search itself with abstract candidates: every sequence of action outcomes (failure or a new score)"""
    base = circ.circuit(1, [('HAD', (0,), ())])
    g0 = base.to_graph(backend=BACKEND[0])

    def run(first):
        import random
        log = []

        def tagged(name):
            def act(c, g):
                o = outcomes[random.randrange(len(outcomes))]
                if o is None:
                    log.append((name, None))
                    return False, (c, g)
                h = g.copy()
                h.scalar.add_power(0)
                cc = c.copy()
                cc.name = '%d' % o
                log.append((name, o))
                return True, (cc, h)
            return act

        def score(m):
            s = int(m.c_curr.name) if m.c_curr.name and m.c_curr.name.isdigit() else first
            scored.append((s, id(m), m))
            m.g_curr.scalar.add_phase(0)
            m.g_curr.tag = s
            return s
        scored = []
        opt = G.GeneticOptimizer(actions=[tagged('a')] if len(outcomes) > 2 else [tagged('a'), tagged('b')], score=score)
        opt.quiet = True
        try:
            return opt._evolve(g0, mutants, gens), [s[0] for s in scored], log
        except Exception as e:
            return e, [s[0] for s in scored], log
    first = 5
    j = 0
    for ch, (res, scored, log), cut in choice.explore(lambda: run(first), limit=80):
        j += 1
        if j % k != i:
            continue
        key = 'evolve mutants=%d generations=%d %s' % (mutants, gens, ch)
        rep.state(key)
        with rep.case(key, dict(op='evolve')):
            rep.step()
            if isinstance(res, Exception):
                raise res
            bests, gensc, best = res
            low = min(scored)
            require(getattr(best, 'tag', None) == low, 'result scores %s, best seen %s', getattr(best, 'tag', None), low)
            require(bests[0] == first and bests[-1] == low and all(x >= y for x, y in zip(bests, bests[1:])), 'best scores %s of %s', bests, scored)


def fam_select(rep, n, values, method):
    """every vector of scores and dead flags through one selection"""
    base = circ.circuit(1, [('HAD', (0,), ())])
    g0 = base.to_graph(backend=BACKEND[0])
    vecs = itertools.product(values, repeat=n) if n <= 4 else itertools.combinations_with_replacement(values, n)
    for vec in vecs:
        for dead in (itertools.product((False, True), repeat=n) if method == 'tournament' else [(False,) * n]):
            def program():
                opt = G.GeneticOptimizer(actions=[])
                opt.n_mutants = n
                opt.mutants = []
                for j, s in enumerate(vec):
                    m = G.Mutant(base, g0)
                    m.score, m.dead, m.tag = s, dead[j], j
                    opt.mutants.append(m)
                try:
                    opt.select(method)
                    return opt.mutants
                except Exception as e:
                    return e
            rep.state('%s %s %s' % (method, vec, dead))
            for ch, ms, cut in choice.explore(program):
                with rep.case('select %s %s dead=%s %s' % (method, vec, dead, ch), dict(op='select')):
                    rep.step()
                    if isinstance(ms, Exception):
                        raise ms
                    require(len(ms) == n and len({id(m) for m in ms}) == n and len({id(m.g_curr) for m in ms}) == n, 'not %d separate mutants', n)
                    require(all((m.score, m.dead) == (vec[m.tag], dead[m.tag]) for m in ms), 'changed mutants')
                    order = sorted(vec)
                    if method == 'top_half':
                        require(sorted(m.score for m in ms) == sorted(order[:n // 2] * 2 + order[:n % 2]), 'selected %s', [m.score for m in ms])
                    elif method == 'top_n':
                        top = order[:10]
                        require(sorted(m.score for m in ms) == sorted((top * n)[:n]), 'selected %s', [m.score for m in ms])
                    else:
                        for m in ms:
                            if not m.dead and n > 1:
                                require(any(t != m.tag and (dead[t] or vec[t] >= m.score) for t in range(n)), 'the worst mutant wins a tournament')
    with rep.case('select unknown %s' % method, dict(op='select')):
        try:
            opt = G.GeneticOptimizer(actions=[])
            opt.n_mutants, opt.mutants = 0, []
            opt.select('best')
            ok = False
        except RuntimeError:
            ok = True
        require(ok, 'unknown selection method accepted')


FAMILIES = dict(on=fam_on, moves=fam_moves, dense=fam_dense, wide=fam_wide, scores=fam_scores, anneal=fam_anneal, genetic=fam_genetic, evolve=fam_evolve, select=fam_select)


def tasks(tier):
    q = tier == 'quick'
    R = range
    t = []
    for n in (1, 2, 3):
        t += [('moves', (n, SOME if n < 3 else (F(0), F(1, 4), F(3, 2)), BOPTS if n < 3 else BOPTS[:2], 'oioioi', i, 8)) for i in R(1 if n < 2 else 8)]
    t += [('moves', (4, (F(0), F(1, 4)), ((), (1,)), 'oioo', i, 8)) for i in R(8)]
    t += [('moves', (n, (F(1, 4), F(1, 2)), ((), (1, 1, 2), (1, 2, 1, 1)), 'oioioioio', i, 4)) for n in (1, 2, 3) for i in R(4) if n < 3 or i < (1 if q else 4)]
    t += [('wide', (2, i, 8)) for i in R(8)]
    t += [('dense', (3, 4 if q else 6, i, 16)) for i in R(16)]
    t += [('scores', (1, d, CLT, 0, 1)) for d in (0, 1, 2, 3)] + [('scores', (2, d, CLT, i, 8)) for d in (0, 1, 2) for i in R(8 if d > 1 else 1) for i in [i]]
    for how in ('graph_like', 'full_reduce'):
        for it, temp, reset in ((1, 25, 0.5), (1, 0, 0.5), (0, 25, 0)):
            t += [('anneal', (1, d, CLT, how, it, temp, reset, None, 0, 1)) for d in (0, 1, 2)] + [('anneal', (2, 2, CLT, how, it, temp, reset, None, i, 8)) for i in R(8)]
        t += [('anneal', (2, 3, ['CNOT', 'T'], how, 2, 25, 0.5, None, i, 16)) for i in (R(2) if q else R(16))]
        t += [('anneal', (2, 2, CLT, how, 2, temp, reset, 3, i, 32)) for temp in (0, 2) for reset in (0, 0.5, 1) for i in (R(2) if q else R(32))]
        t += [('anneal', (2, 2, ['CNOT', 'HAD'], how, 3, temp, 0.5, 3, i, 8)) for temp in (0, 2) for i in (R(1) if q else R(8))]
        t += [('genetic', (1, d, CLT, how, ('pivot', 'lc'), 2, 1, 0, 0, 1)) for d in (0, 1, 2)]
        t += [('genetic', (2, 2, ['CNOT', 'HAD', 'T'], how, ('pivot', 'lc'), 2, 1, 0.5, i, 8)) for i in (R(2) if q else R(8))]
    t += [('evolve', (2, 1, (None, 3, 5, 7), 0, 1)), ('evolve', (2, 2, (None, 3, 7), 0, 1)), ('evolve', (2, 1, (7, 3), 0, 1)), ('evolve', (3, 1, (None, 3, 7), 0, 1)), ('evolve', (1, 0, (3, 7), 0, 1))]
    t += [('select', (n, (1, 2, 3), m)) for m in ('tournament', 'top_half', 'top_n') for n in ((2, 3) if m == 'tournament' else (1, 2, 3, 4))] + [('select', (n, (1, 2, 3), 'top_n')) for n in (10, 12, 25)]
    M = 'multigraph'
    for n in (1, 2, 3):
        t += [('on', (M, 'moves', n, SOME if n < 3 and not q else (F(0), F(1, 4), F(3, 2)), BOPTS[:3] if n < 3 else BOPTS[:2], 'oioioi', i, 8)) for i in R(1 if n < 2 else 8)]
    for how in ('graph_like', 'full_reduce'):
        t += [('on', (M, 'anneal', 1, d, CLT, how, 1, 25, 0.5, None, 0, 1)) for d in (0, 1, 2)] + [('on', (M, 'anneal', 2, 2, CLT, how, 1, 25, 0.5, None, i, 8)) for i in R(1 if q else 8)]
        t += [('on', (M, 'genetic', 1, d, CLT, how, ('pivot', 'lc'), 2, 1, 0, 0, 1)) for d in (0, 1)]
    return t


def run():
    return core.main('C30', FAMILIES, tasks, assumptions=['real-valued draws are explored at 0 and just below 1', 'numerical comparison with tolerance 1e-6'],
                     exhaustive_note='all places of all congruences on the stated diagrams, and all random outcomes of the searches')
