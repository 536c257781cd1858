"""C26: architecture-aware CNOT synthesis on all small architectures, invertible maps, modes and permutations; the permutation searches with every outcome of their random choices."""
import itertools, contextlib, io
import numpy as np
import core, choice
from core import require, slice_iter
from C24 import mats, ints, rank, mul, eye, perms_lu, span, echelon, lead
from C28 import graphs, unlabelled, build, edge_key
from pyzx.linalg import Mat2
from pyzx.circuit import Circuit
from pyzx.circuit.gates import CNOT, ZPhase, HAD
from pyzx.routing import architecture as A, cnot_mapper as M, machine_learning as ML
from pyzx.routing.architecture import create_architecture
from pyzx.routing.parity_maps import CNOT_tracker, Parity
from pyzx.routing.steiner import steiner_gauss, rec_steiner_gauss
from pyzx.routing.cnot_mapper import ElimMode, CostMetric, FitnessFunction, gauss, permuted_gauss, sequential_gauss

S, G, GS, GG, PS, PG = (ElimMode.STEINER_MODE, ElimMode.GAUSS_MODE, ElimMode.GENETIC_STEINER_MODE, ElimMode.GENETIC_GAUSS_MODE, ElimMode.PSO_STEINER_MODE, ElimMode.PSO_GAUSS_MODE)


class Rec(object):
    """records the operations it is told about"""
    def __init__(self):
        self.ops = []

    def row_add(self, a, b):
        self.ops.append((a, b))

    col_add = row_add


def gates_of(c, n):
    out = []
    for g in c.gates:
        require(type(g) is CNOT and g.control != g.target and all(0 <= q < n for q in (g.control, g.target)), 'gate %s', g)
        out.append((int(g.control), int(g.target)))
    return out


def linear(gs, n):
    m = eye(n)
    for c, t in gs:
        m[t] = [a ^ b for a, b in zip(m[t], m[c])]
    return m


def neighbours(a):
    """couplings between qubits, read off the coupling graph"""
    pos = {v: q for q, v in enumerate(a.qubit_map)}
    return {frozenset((pos[s], pos[t])) for s, t in map(a.graph.edge_st, a.graph.edges())}


def tracker_ok(c, n, want, near):
    gs = gates_of(c, n)
    got = linear(gs, n)
    require(got == want, 'the circuit %s implements %s instead of %s', gs, got, want)
    require([list(r) for r in c.matrix.data] == got, 'the tracked matrix %s differs from the gates %s', c.matrix.data, gs)
    require(near is None or all(frozenset(g) in near for g in gs), 'CNOTs between qubits that are not coupled: %s', gs)
    require(c.qubits == n and c.count_cnots() == len(gs), 'count')


def inv_ops(ops, d):
    d = [list(r) for r in d]
    for a, b in ops:
        require(a != b, 'row added to itself')
        d[b] = [x ^ y for x, y in zip(d[a], d[b])]
    return d


# ---------------------------------------------------------------- invertible maps
def elementary(n, depth):
    """all products of at most depth row additions"""
    seen = {tuple(map(tuple, eye(n)))}
    layer = list(seen)
    yield eye(n)
    for _ in range(depth):
        nxt = []
        for d in layer:
            for a, b in itertools.permutations(range(n), 2):
                e = [list(r) for r in d]
                e[b] = [x ^ y for x, y in zip(e[a], e[b])]
                t = tuple(map(tuple, e))
                if t not in seen:
                    seen.add(t)
                    nxt.append(t)
                    yield e
        layer = nxt


def invertible(n):
    for d in mats(n, n):
        if rank(ints(d)) == n:
            yield d


def shaped(n):
    """permutations, upper and lower unitriangular matrices, and structured ones"""
    for p in itertools.permutations(range(n)):
        yield [[int(j == p[i]) for j in range(n)] for i in range(n)]
    ps = list(itertools.combinations(range(n), 2))
    for x in range(1 << len(ps)):
        up = eye(n)
        for k, (i, j) in enumerate(ps):
            up[i][j] = x >> k & 1
        yield up
        yield [list(r) for r in zip(*up)]
        yield [up[(i + 1) % n] for i in range(n)]


def structured(n):
    for key, d in perms_lu(n):
        if len(d) == len(d[0]) and rank(ints(d)) == n:
            yield key, d


SOURCES = dict(el0=lambda n: elementary(n, 0), all=invertible, el1=lambda n: elementary(n, 1), el2=lambda n: elementary(n, 2), el3=lambda n: elementary(n, 3), el4=lambda n: elementary(n, 4), shaped=shaped)


# ---------------------------------------------------------------- elimination
def placed(n, near):
    """every qubit but the last is coupled to a larger one"""
    return all(any(q in e and max(e) > q for e in near) for q in range(n - 1))


def rec_case(rep, a, near, d, key, perms=()):
    n = len(d)
    for full in (True, False):
        with rep.case('rec %s %s' % (full, key), dict(op='rec')):
            m, y, x, r1 = Mat2([list(r) for r in d]), CNOT_tracker(n), CNOT_tracker(n), Rec()
            try:
                with contextlib.redirect_stdout(io.StringIO()) as out:
                    rec_steiner_gauss(m, a, full_reduce=full, x=x, y=y)
            except ValueError:
                require(not placed(n, near), 'refused')
                rep.outcome('refused')
                continue
            rep.step()
            rep.outcome('ok')
            require(out.getvalue() == '', 'prints %s', out.getvalue()[:80])
            final(m, x, y, d, n, near, full)
            m2 = Mat2([list(r) for r in d])
            rec_steiner_gauss(m2, a, full_reduce=full, x=r1)
            require(m2 == m and r1.ops == gates_of(x, n), 'recording changes the result')
    for p in perms:
        with rep.case('rec perm %s %s' % (p, key), dict(op='recperm')):
            m, y = Mat2([list(r) for r in d]), CNOT_tracker(n)
            try:
                rec_steiner_gauss(m, a, full_reduce=True, y=y, permutation=list(p))
            except ValueError:
                require(not placed(n, near), 'refused')
                continue
            rep.step()
            tracker_ok(y, n, [[r[k] for k in p] for r in d], near)
            require(m.data == eye(n), 'not reduced')


def final(m, x, y, d, n, near, full):
    if full:
        require([list(r) for r in m.data] == eye(n), 'the matrix is reduced to %s', m.data)
        tracker_ok(y, n, d, near)
    else:
        require(all(not any(m.data[i][:i]) and m.data[i][i] for i in range(n)), 'not upper triangular: %s', m.data)
        tracker_ok(y, n, linear(gates_of(y, n), n), near)
        require(mul(linear(gates_of(y, n), n), m.data) == d, 'the recorded operations do not undo the elimination')
    gx = gates_of(x, n)
    tracker_ok(x, n, linear(gx, n), near)
    require(mul(linear(gx, n), d) == [list(r) for r in m.data], 'the recorded operations give another matrix')
    require(gx[::-1] == gates_of(y, n), 'the two records differ')


def archs(n, src, how, maps):
    for es in graphs(n) if src == 'all' else unlabelled(n):
        for qm in ([None] if not maps else [None] + list(itertools.permutations(range(n)))):
            a, vs = build(n, es, how, **({} if qm is None else dict(qubit_map=list(qm))))
            yield '%s %s %s' % (how, edge_key(n, es), qm), a


def fam_rec(rep, n, src, how, maps, source, perms, i, k):
    for key, a in archs(n, src, how, maps):
        near = neighbours(a)
        for d in slice_iter(SOURCES[source](n), i, k):
            rep.state('%s %s' % (key, d))
            rec_case(rep, a, near, d, '%s %s' % (key, d), list(itertools.permutations(range(n))) if perms else ())


def named(name):
    n = 9 if name in A.dynamic_size_architectures else None
    return create_architecture(name, **(dict(n_qubits=n) if n else {}))


def fam_named(rep, name, i, k):
    a = named(name)
    near, n = neighbours(a), a.n_qubits

    def source():
        if n <= 9:
            yield from structured(n)
        sh = [(0, n - 1), (n - 1, 0), (n // 2, 1), (1, n // 2), (n // 3, n - 2), (n - 2, 2), (3, n // 4)]
        for r in range(1, 4):
            for gs in itertools.permutations(sh, r):
                yield 'cnots %s' % (gs,), linear(gs, n)
        yield 'prefix', linear([(q, q + 1) for q in range(n - 1)], n)
        yield 'fan', linear([(0, q) for q in range(1, n)], n)
        yield 'reversed', eye(n)[::-1]
        yield 'full', linear([(p, q) for p in range(n) for q in range(n) if p != q and (p * q + p) % 3 == 1], n)
    for key, d in slice_iter(source(), i, k):
        rep.state('%s %s' % (name, key))
        rec_case(rep, a, near, d, '%s %s' % (name, key))


def plain_case(rep, a, near, d, key):
    n, c = len(d), len(d[0])
    rk = rank(ints(d))
    for full in (True, False):
        with rep.case('plain %s %s' % (full, key), dict(op='plain')):
            m, y, x = Mat2([list(r) for r in d]), CNOT_tracker(n), CNOT_tracker(n)
            try:
                with contextlib.redirect_stdout(io.StringIO()) as out:
                    k = steiner_gauss(m, a, full_reduce=full, x=x, y=y)
            except ValueError:
                # only when the qubits from some qubit on (or, for full reduction, descending paths) do not hang together
                require(not all(frozenset((q, q + 1)) in near for q in range(n - 1)), 'refused although the qubits are on a line')
                rep.outcome('refused')
                continue
            rep.step()
            rep.outcome('ok')
            require(out.getvalue() == '', 'prints %s', out.getvalue()[:80])
            require(k == rk, 'rank %s instead of %s', k, rk)
            echelon([list(r) for r in m.data], full, 'steiner')
            gx, gy = gates_of(x, n), gates_of(y, n)
            tracker_ok(x, n, linear(gx, n), near)
            tracker_ok(y, n, linear(gy, n), near)
            require(mul(linear(gx, n), d) == [list(r) for r in m.data] and gx[::-1] == gy, 'the recorded operations give another matrix')


def fam_plain(rep, n, c, src, how, maps, i, k):
    for key, a in archs(n, src, how, maps):
        near = neighbours(a)
        for d in slice_iter(mats(n, c), i, k):
            rep.state('%s %s' % (key, d))
            plain_case(rep, a, near, d, '%s %s' % (key, d))


def fam_plainwide(rep, name, i, k):
    a = named(name)
    near = neighbours(a)
    for key, d in slice_iter(perms_lu(a.n_qubits), i, k):
        if len(d) == a.n_qubits:
            rep.state('%s %s' % (name, key))
            plain_case(rep, a, near, d, '%s %s' % (name, key))


# ---------------------------------------------------------------- permutation searches, with the search replaced by every result it can have
class Every(object):
    """find_optimum of the genetic search becomes a nondeterministic choice of a permutation"""
    def __enter__(self):
        self.old = ML.GeneticAlgorithm.find_optimum
        ML.GeneticAlgorithm.find_optimum = lambda s, n, *a, **k: np.random.permutation(n)
        self.cpu = ML.cpu_count
        ML.cpu_count = lambda: 1
        return self

    def __exit__(self, *a):
        ML.GeneticAlgorithm.find_optimum = self.old
        ML.cpu_count = self.cpu


def is_perm(p, n):
    return sorted(int(x) for x in p) == list(range(n))


def seq_ok(ds, circuits, perms, score, near, n, inp, outp):
    require(len(circuits) == len(ds) and len(perms) == len(ds) + 1, '%d circuits and %d permutations', len(circuits), len(perms))
    require(all(is_perm(p, n) for p in perms), 'permutations %s', perms)
    require((inp or list(perms[0]) == list(range(n))) and (outp or list(perms[-1]) == list(range(n))), 'permutations %s', perms)
    for d, c, p, q in zip(ds, circuits, perms, perms[1:]):
        tracker_ok(c, n, [[d[r][s] for s in p] for r in q], near)
    require(score == sum(c.cnot_depth() * 10000 + c.count_cnots() for c in circuits), 'score')


def seq_case(rep, a, near, ds, mode, inp, outp, key, **kw):
    n = len(ds[0])
    near = near if mode in (S, GS, PS) else None

    def program():
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                return sequential_gauss([Mat2([list(r) for r in d]) for d in ds], mode=mode, architecture=a, input_perm=inp, output_perm=outp, **kw)
        except Exception as e:
            return e
    with Every():
        for ch, res, cut in choice.explore(program, floats=(0.0,)):
            with rep.case('seq %s %s %s %s %s' % (key, mode, inp, outp, ch), dict(op='seq', mode=mode.value)):
                if isinstance(res, Exception):
                    raise res
                rep.step()
                circuits, perms, score = res
                if mode in (S, G):
                    require(all(list(p) == list(range(n)) for p in perms), 'permutations')
                seq_ok(ds, circuits, perms, score, near, n, inp, outp)


def maplist(n, length, source):
    return itertools.product(*[list(SOURCES[source](n)) for _ in range(length)])


def fam_seq(rep, n, src, length, source, modes, i, k, steps=2):
    for key, a in archs(n, src, 'matrix', False):
        near = neighbours(a)
        for ds in slice_iter(maplist(n, length, source), i, k):
            for mode in [ElimMode(m) for m in modes]:
                for inp, outp in itertools.product((True, False), repeat=2):
                    kw = dict(swarm_size=1, n_steps=steps, pso_mutation=0.4, p_crossover=0.4, s_crossover=0.4) if mode in (PS, PG) else {}
                    rep.state('%s %s %s %s %s' % (key, ds, mode, inp, outp))
                    seq_case(rep, a, near, ds, mode, inp, outp, '%s %s' % (key, ds), **kw)


def fam_free(rep, n, length, source, modes, i, k, steps=1):
    """without an architecture"""
    for ds in slice_iter(maplist(n, length, source), i, k):
        for mode in [ElimMode(m) for m in modes]:
            for inp, outp in itertools.product((True, False), repeat=2):
                kw = dict(swarm_size=1, n_steps=steps, pso_mutation=0.4, p_crossover=0.4, s_crossover=0.4) if mode == PG else {}
                rep.state('free %s %s %s %s' % (ds, mode, inp, outp))
                seq_case(rep, None, None, ds, mode, inp, outp, 'free %s' % (ds,), **kw)


def fam_perm(rep, n, src, source, i, k):
    """permuted_gauss with every permutation, and gauss with every mode"""
    for key, a in archs(n, src, 'matrix', False):
        near = neighbours(a)
        for d in slice_iter(SOURCES[source](n), i, k):
            rep.state('%s %s' % (key, d))
            for mode in (S, G):
                for row, col in itertools.product((True, False), repeat=2):
                    def program():
                        m = Mat2([list(r) for r in d])
                        try:
                            return m, permuted_gauss(m, mode, a, row=row, col=col)
                        except Exception as e:
                            return e
                    with Every():
                        for ch, res, cut in choice.explore(program):
                            with rep.case('permuted %s %s %s %s %s %s' % (key, d, mode, row, col, ch), dict(op='permuted')):
                                if isinstance(res, Exception):
                                    raise res
                                m, (p, c, rk) = res
                                rep.step()
                                require(m.data == d and is_perm(p, n) and rk == n, 'changes the matrix, or permutation %s, or rank %s', p, rk)
                                idn = list(range(n))
                                rp, cp = (p if row else idn), (p if col else idn)
                                tracker_ok(c, n, [[d[r][s] for s in cp] for r in rp], near if mode == S else None)
                                require([int(x) for x in c.row_perm] == list(rp) and [int(x) for x in c.col_perm] == list(cp), 'recorded permutations')
            for mode in (S, G, None):
                for full in (True, False):
                    with rep.case('gauss %s %s %s %s' % (key, d, mode, full), dict(op='gauss')):
                        m, y, x = Mat2([list(r) for r in d]), CNOT_tracker(n), CNOT_tracker(n)
                        rk = gauss(mode, m, a, x=x, y=y, full_reduce=full)
                        rep.step()
                        require(rk == n, 'rank %s', rk)
                        final(m, x, y, d, n, near if mode == S else None, full)
            for p in itertools.permutations(range(n)):
                with rep.case('gauss perm %s %s %s' % (key, d, p), dict(op='gaussperm')):
                    m, y = Mat2([list(r) for r in d]), CNOT_tracker(n)
                    gauss(S, m, a, permutation=list(p), y=y, full_reduce=True)
                    rep.step()
                    require(m.data == eye(n), 'not reduced')
                    tracker_ok(y, n, [[d[r][s] for s in p] for r in p], near)
            for mode in (GS, GG):
                def program():
                    y = CNOT_tracker(n)
                    try:
                        gauss(mode, Mat2([list(r) for r in d]), a, y=y, full_reduce=True)
                        return y
                    except Exception as e:
                        return e
                with Every():
                    for ch, y, cut in choice.explore(program):
                        with rep.case('gauss %s %s %s %s' % (key, d, mode, ch), dict(op='gaussgen')):
                            if isinstance(y, Exception):
                                raise y
                            rep.step()
                            rp, cp = [int(v) for v in y.row_perm], [int(v) for v in y.col_perm]
                            tracker_ok(y, n, [[d[r][s] for s in cp] for r in rp], near if mode == GS else None)
            with rep.case('no architecture %s' % (d,), dict(op='noarch')):
                m, y = Mat2([list(r) for r in d]), CNOT_tracker(n)
                with contextlib.redirect_stdout(io.StringIO()):
                    gauss(S, m, None, y=y, full_reduce=True)
                tracker_ok(y, n, d, None)
            for metric in CostMetric:
                with rep.case('fitness %s %s %s' % (key, d, metric), dict(op='fitness')):
                    for mode in (S, G):
                        for p in itertools.permutations(range(n)):
                            f = FitnessFunction(metric, Mat2([list(r) for r in d]), mode, a)(list(p))
                            y = CNOT_tracker(n)
                            gauss(mode, Mat2([[d[r][s] for s in p] for r in p]), a, y=y, full_reduce=True)
                            rep.step()
                            require(f == {'combined': 10000 * y.cnot_depth() + y.count_cnots(), 'depth': y.cnot_depth(), 'count': y.count_cnots()}[metric.value], 'cost %s', f)


# ---------------------------------------------------------------- the searches themselves
def cost(p):
    return sum((3 * k + 1) * int(v) for k, v in enumerate(p)) % 7


def fam_genetic(rep, part, n, i, k):
    if part == 'cross':      # every pair of parents, every cut
        for p, q in slice_iter(itertools.product(itertools.permutations(range(n)), repeat=2), i, k):
            def program():
                g = ML.GeneticAlgorithm(4, 0.8, 0.2, cost)
                g.n_qubits = n
                try:
                    c = g._crossover(np.array(p), np.array(q))
                    return list(c), list(g._mutate(c)) if n > 1 else list(c)
                except Exception as e:
                    return e
            for ch, res, cut in choice.explore(program):
                with rep.case('cross %s %s %s' % (p, q, ch), dict(op='cross')):
                    rep.state('%s %s %s' % (p, q, ch))
                    if isinstance(res, Exception):
                        raise res
                    rep.step()
                    require(is_perm(res[0], n) and is_perm(res[1], n), 'child %s and mutant %s are not permutations', *res)
                    require(n < 2 or sum(x != y for x, y in zip(*res)) in (0, 2), 'mutation')
    elif part == 'pcross':
        for p, q in slice_iter(itertools.product(itertools.permutations(range(n)), repeat=2), i, k):
            for m in range(n + 1):
                def program():
                    x = ML.Particle(n, lambda c: (c, None, 0), 0.5, 0.5, m / n + 1e-9)
                    x.current = np.array(p)
                    try:
                        return list(x._crossover(np.array(p), np.array(q), m)), list(x._mutate(np.array(q)))
                    except Exception as e:
                        return e
                for ch, res, cut in choice.explore(lambda: [None for z in [np.random.permutation(1)]] and program() if False else patched(program)):
                    with rep.case('pcross %s %s %d %s' % (p, q, m, ch), dict(op='pcross')):
                        rep.state('%s %s %d %s' % (p, q, m, ch))
                        if isinstance(res, Exception):
                            raise res
                        rep.step()
                        require(is_perm(res[0], n) and is_perm(res[1], n), 'crossover %s, mutant %s', *res)
                        require(sum(x == y for x, y in zip(res[0], q)) >= m and sum(x != y for x, y in zip(res[1], q)) <= m, 'positions kept')
    elif part == 'run':      # whole runs: best of everything seen is returned
        pop, gens, child = i, k, 1

        def program():
            seen = []

            def f(p):
                seen.append((cost(p), tuple(int(v) for v in p)))
                return seen[-1][0]
            try:
                g = ML.GeneticAlgorithm(pop, 0.5, 0.5, f)
                return g.find_optimum(n, gens, n_child=child), seen
            except Exception as e:
                return e
        for ch, res, cut in choice.explore(program, floats=(0.0, 0.6), limit=60):
            with rep.case('genetic run %d %d %d %s' % (n, pop, gens, ch), dict(op='genetic')):
                rep.state('%d %d %s' % (n, pop, ch))
                if isinstance(res, Exception):
                    raise res
                best, seen = res
                rep.step()
                require(is_perm(best, n) and cost(best) == min(seen)[0] and tuple(int(v) for v in best) in [p for _, p in seen], 'returns %s of %s', best, seen)
    elif part == 'order':    # starting from a given order, whole or as a prefix
        for order in itertools.permutations(range(n)):
            for m in range(2, n + 1):
                def program():
                    try:
                        return ML.GeneticAlgorithm(2, 0.5, 0.5, cost).find_optimum(m, 0, initial_order=list(order))
                    except Exception as e:
                        return e
                for ch, res, cut in choice.explore(program):
                    with rep.case('genetic order %s %d %s' % (order, m, ch), dict(op='genetic')):
                        rep.state('%s %d %s' % (order, m, ch))
                        if isinstance(res, Exception):
                            raise res
                        rep.step()
                        require(is_perm(res, n) and [int(x) for x in res[m:]] == list(order[m:]), 'returns %s', res)


def patched(program):
    """the initial position of a particle does not matter here"""
    old = np.random.permutation
    first = [True]

    def perm(n):
        if first[0]:
            first[0] = False
            return np.arange(n)
        return old(n)
    np.random.permutation = perm
    try:
        return program()
    finally:
        np.random.permutation = old


def fam_swarm(rep, n, size, steps):
    """whole swarm runs with every random outcome: the best solution seen is returned"""
    def program():
        seen = []

        def step(p):
            require(is_perm(p, n), 'position %s', p)
            seen.append((cost(p), tuple(int(v) for v in p)))
            return np.array([p[(j + 1) % n] for j in range(n)]) if seen[-1][0] % 2 else np.array(p), seen[-1][1], seen[-1][0]
        cpu, ML.cpu_count = ML.cpu_count, lambda: 1
        try:
            return ML.ParticleSwarmOptimization(size, step, 0.4, 0.4, 0.7).find_optimum(n, steps), seen
        except Exception as e:
            return e
        finally:
            ML.cpu_count = cpu
    for ch, res, cut in choice.explore(program, limit=60):
        with rep.case('swarm %d %d %d %s' % (n, size, steps, ch), dict(op='swarm')):
            rep.state('%d %d %s' % (n, size, ch))
            if isinstance(res, Exception):
                raise res
            best, seen = res
            rep.step()
            require(seen[0][1] == tuple(range(n)), 'the first particle starts elsewhere')
            require(cost(best) == min(seen)[0] and best in [p for _, p in seen], 'returns %s of %s', best, seen)


def fam_pool(rep, mode):
    """one run of the real searches, swarm in worker processes"""
    mode = ElimMode(mode)
    a = create_architecture(A.LINE, n_qubits=4)
    for d in itertools.islice(shaped(4), 0, 40, 13):
        with rep.case('pool %s %s' % (mode, d), dict(op='pool')):
            rep.state(str(d))
            np.random.seed(5)
            circuits, perms, score = sequential_gauss([Mat2([list(r) for r in d]), Mat2(eye(4)[::-1])], mode=mode, architecture=a, swarm_size=3, n_steps=2, population_size=4, n_iterations=1)
            rep.step()
            seq_ok([d, eye(4)[::-1]], circuits, perms, score, neighbours(a) if mode in (PS, GS) else None, 4, True, True)


# ---------------------------------------------------------------- the tracker
def fam_tracker(rep, n, depth, i, k):
    """every sequence of tracker operations: gates, matrix, counts and depth agree"""
    prs = list(itertools.permutations(range(n), 2))
    ops = [(o, p) for o in ('row_add', 'col_add', 'gate', 'name', 'prepend') for p in prs]
    for seq in slice_iter((s for d in range(depth + 1) for s in itertools.product(ops, repeat=d)), i, k):
        key = 'tracker %d %s' % (n, seq)
        rep.state(key)
        with rep.case(key, dict(op='tracker')):
            c, gs, m = CNOT_tracker(n), [], eye(n)
            for o, (p, q) in seq:
                if o == 'row_add':
                    c.row_add(p, q)
                    gs.append((p, q))
                elif o == 'col_add':
                    c.col_add(p, q)
                    gs.insert(0, (q, p))
                elif o == 'gate':
                    c.add_gate(CNOT(p, q))
                    gs.append((p, q))
                elif o == 'name':
                    c.add_gate('CNOT', p, q)
                    gs.append((p, q))
                else:
                    c.prepend_gate(CNOT(p, q))
                    gs.insert(0, (p, q))
                rep.step()
            tracker_ok(c, n, linear(gs, n), None)
            require(gates_of(c, n) == gs, 'gates')
            lev = [0] * n
            for p, q in gs:
                lev[p] = lev[q] = max(lev[p], lev[q]) + 1
            require(c.cnot_depth() == max(lev), 'depth %d instead of %d', c.cnot_depth(), max(lev))
            require(c.gather_metrics() == dict(n_cnots=len(gs), depth=max(lev)) and set(CNOT_tracker.get_metric_names()) == {'n_cnots', 'depth'}, 'metrics')
            circ = Circuit(n)
            for p, q in gs:
                circ.add_gate('CNOT', p, q)
            t = CNOT_tracker.from_circuit(circ)
            tracker_ok(t, n, linear(gs, n), None)
            if n > 1:
                t.row_add(0, 1)
                require(len(circ.gates) == len(gs), 'tracking a circuit changes it')
            b = Circuit.from_qasm(c.to_qasm())
            require(b.qubits == n and [(g.control, g.target) for g in b.gates] == gs, 'QASM')
            t.update_matrix()
            require([list(r) for r in t.matrix.data] == linear(gates_of(t, n), n), 'update_matrix')


def fam_trackerwide(rep, n):
    with rep.case('wide %d' % n, dict(op='wide')):
        rep.state(str(n))
        c = CNOT_tracker(n)
        for q in range(n - 1):
            c.row_add(q, q + 1)
        b = Circuit.from_qasm(c.to_qasm())
        rep.step()
        require(b.qubits == n and len(b.gates) == n - 1, 'QASM')
        require(c.cnot_depth() == n - 1, 'depth')


def fam_parity(rep, n):
    for bits in itertools.product((0, 1), repeat=n):
        with rep.case('parity %s' % (bits,), dict(op='parity')):
            rep.state(str(bits))
            s = ''.join(map(str, bits))
            ps = [Parity(s), Parity(bits), Parity(list(bits)), Parity(bool(b) for b in bits), Parity(Parity(s))]
            for p in ps:
                rep.step()
                require(str(p) == s and p == ps[0] and hash(p) == hash(ps[0]) and p == s and len(p) == p.n_qubits() == n, 'parity')
                require(p.count() == sum(bits) and p.to_mat2_row() == list(bits) and [int(b) for b in p] == list(bits) and [int(p[j]) for j in range(n)] == list(bits), 'bits')
            for other in itertools.product((0, 1), repeat=n):
                require((Parity(other) == ps[0]) == (other == bits), 'equality')
            require(Parity(s, n + 2).to_mat2_row() == list(bits) + [0, 0], 'padding')
            if n and bits[0]:
                require(str(Parity(int(s, 2))) == s, 'from an integer')


FAMILIES = dict(rec=fam_rec, named=fam_named, plain=fam_plain, plainwide=fam_plainwide, seq=fam_seq, free=fam_free, perm=fam_perm, genetic=fam_genetic, swarm=fam_swarm, pool=fam_pool,
                tracker=fam_tracker, trackerwide=fam_trackerwide, parity=fam_parity)


def tasks(tier):
    q = tier == 'quick'
    t = []
    for n in (1, 2, 3):
        k = 1 if n < 3 else 8
        t += [('rec', (n, 'all', h, True, 'all', h == 'matrix', i, k)) for h in ('matrix', 'gap') for i in range(k)]
    t += [('rec', (4, 'all', 'matrix', False, 'el2' if q else 'all', False, i, 16)) for i in range(16)]
    t += [('rec', (4, 'unlabelled', 'gap', True, 'el2', False, i, 16)) for i in range(16)]
    t += [('rec', (4, 'unlabelled', 'matrix', False, 'el3' if q else 'all', not q, i, 24)) for i in range(24)]
    t += [('rec', (5, 'unlabelled', 'gap', False, s, False, i, 24)) for s in (('el1', 'shaped') if q else ('el3', 'shaped')) for i in (range(0, 24, 4) if q and s == 'shaped' else range(24))]
    if not q:
        t += [('rec', (6, 'unlabelled', 'matrix', False, 'el2', False, i, 64)) for i in range(64)] + [('rec', (5, 'all', 'matrix', False, 'el2', False, i, 64)) for i in range(64)]
    for name in A.architectures:
        if name != A.DENSITY:
            t += [('named', (name, i, 24)) for i in ([] if q and name in (A.IBM_ROCHESTER, A.GOOGLE_SYCAMORE) else range(2) if q else range(24))]
    for n, c in [(1, 1), (2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (3, 3)] + ([] if q else [(3, 4), (4, 3)]):
        k = 1 if n < 3 else 8
        t += [('plain', (n, c, 'all', h, True, i, k)) for i in range(k) for h in ('matrix', 'gap')]
    t += [('plain', (4, 2 if q else 4, 'all', 'matrix', False, i, 16)) for i in range(16)]
    t += [('plain', (4, 4, 'line', 'matrix', False, i, 16)) for i in range(0)]
    t += [('plainwide', (x, i, 4)) for x in (A.SQUARE, A.LINE, A.CIRCLE, A.FULLY_CONNECTED, A.RIGETTI_8Q_AGAVE, A.IBM_QX2) for i in range(4)]
    basic, gen, pso = [S.value, G.value], [GS.value, GG.value], [PS.value, PG.value]
    t += [('seq', (2, 'all', l, 'all', basic + gen + (pso if l == 1 else []), i, 4)) for l in (1, 2) for i in range(4)] + [('seq', (2, 'all', 3, 'all', basic + gen[:1], i, 8)) for i in (range(2) if q else range(8))]
    t += [('seq', (3, 'all', 1, 'all', basic + gen, i, 8)) for i in range(8)]
    t += [('seq', (3, 'unlabelled', 2, 'el2' if not q else 'el2', basic + gen[:1], i, 64)) for i in (range(16) if q else range(64))]
    t += [('free', (2, l, 'all', [G.value, GG.value] + ([PG.value] if l == 1 else []), i, 2)) for l in (1, 2) for i in range(2)]
    t += [('free', (3, 1, 'el1' if q else 'el2', [G.value, GG.value, PG.value], i, 8)) for i in range(8)]
    t += [('seq', (3, 'unlabelled', 1, 'el1', pso[:1], i, 8, 1)) for i in range(7)]
    if not q:
        t += [('seq', (3, 'unlabelled', 1, 'el2', pso[:1], i, 32)) for i in range(32)]
    t += [('perm', (n, 'all', 'all', i, 1 if n < 3 else 16)) for n in (2, 3) for i in range(1 if n < 3 else 16)]
    t += [('perm', (4, 'unlabelled', 'el2', i, 32)) for i in (range(8) if q else range(32))]
    t += [('genetic', ('cross', n, i, 4)) for n in (2, 3, 4) for i in range(4)] + [('genetic', ('pcross', n, i, 4)) for n in ((1, 2, 3) if q else (1, 2, 3, 4)) for i in range(4)]
    t += [('genetic', ('run', 2, 4, 1)), ('genetic', ('run', 3, 4, 0)), ('genetic', ('order', 3, 0, 1)), ('genetic', ('order', 4, 0, 1))] + ([] if q else [('genetic', ('run', 2, 4, 2)), ('genetic', ('run', 2, 5, 1))])
    t += [('swarm', (n, s, st)) for n, s, st in [(2, 1, 1), (2, 2, 2), (2, 1, 3), (3, 1, 2), (3, 2, 1)] + ([] if q else [(3, 1, 3), (2, 2, 3)])]
    t += [('pool', (m.value,)) for m in (GS, PS, PG)]
    t += [('tracker', (n, d, i, 8)) for n, d in [(1, 1), (2, 4), (3, 2)] + ([] if q else [(3, 3), (4, 2)]) for i in range(8)]
    t += [('trackerwide', (n,)) for n in (10, 26, 40, 60, 120)] + [('parity', (n,)) for n in range(0, 6)]
    return t


def run():
    return core.main('C26', FAMILIES, tasks, assumptions=['recursive elimination is given invertible matrices', 'permutations with plain Gauss mode and transposed elimination are unfinished and not exercised',
                                                          'the result of the genetic search is replaced by every permutation it could return'],
                     exhaustive_note='all invertible maps and connected architectures up to the stated size, all permutations and random outcomes')
