"""C01: every match of every rewrite rule, applied on its own and as the parallel set the matcher returns,
leaves the linear map and the global scalar of the diagram unchanged."""
import itertools
from fractions import Fraction as F
import core
from core import require, Violation, slice_iter
import ref
from ref import BOUNDARY, Z, X, HBOX, WIN, WOUT, ZBOX, SIMPLE, HAD, WIO
from diag import Spec, V, build, spec_of, canon_graphs, kind_multisets, with_boundaries, enum_graphs, pairs, connected
import pyzx as zx
from pyzx import rules

EDGE, VERT = 'edge', 'vert'
# rule name -> (matcher, rewriter, kind of filter)
RULES = {
    'spider': (rules.match_spider_parallel, rules.spider, EDGE),
    'pivot': (rules.match_pivot_parallel, rules.pivot, EDGE),
    'pivot_gadget': (rules.match_pivot_gadget, rules.pivot, EDGE),
    'pivot_boundary': (rules.match_pivot_boundary, rules.pivot, VERT),
    'lcomp': (rules.match_lcomp_parallel, rules.lcomp, VERT),
    'ids': (rules.match_ids_parallel, rules.remove_ids, VERT),
    'gadgets': (rules.match_phase_gadgets, rules.merge_phase_gadgets, VERT),
    'supplementarity': (rules.match_supplementarity, rules.apply_supplementarity, VERT),
    'copy': (rules.match_copy, rules.apply_copy, VERT),
    'bialg': (rules.match_bialg_parallel, rules.bialg, EDGE),
    'z_to_z_box': (rules.match_z_to_z_box_parallel, rules.z_to_z_box, VERT),
    'w_fusion': (rules.match_w_fusion_parallel, rules.w_fusion, EDGE),
}
GRAPHLIKE = ['pivot', 'pivot_gadget', 'pivot_boundary', 'lcomp', 'ids', 'gadgets', 'supplementarity', 'copy', 'z_to_z_box']


def apply_one(spec, name, backend, auto, filt):
    """Returns (number of matches, graph after) on a fresh graph."""
    match, rewrite, kind = RULES[name]
    g = build(spec, backend, auto)
    if filt is None:
        m = match(g)
    else:
        m = match(g, filt)
    n = len(m)
    if n:
        rules.apply_rule(g, rewrite, m)
    return n, g


def explore_spec(rep, spec, names, backend='simple', auto=None, single=True, feats=None, per_site=False):
    key0 = spec.show()
    if not rep.state(backend + key0):
        return
    grounded = any(v[3] for v in spec.verts)
    base = spec.value(doubled=grounded)
    for name in names:
        n = 0
        with rep.case('%s %s %s' % (name, backend, key0), dict(feats or {}, rule=name, backend=backend)):
            n, g = apply_one(spec, name, backend, auto, None)
            rep.outcome('%s:%d' % (name, min(n, 3)))
            if n:
                rep.step()
                check_graph(base, g, name, grounded)
        if not n:
            continue
        if n > 1 or per_site:
            kind = RULES[name][2]
            if kind == VERT:
                sites = [('v%d' % i, (lambda i: lambda v: v == i)(i)) for i in range(len(spec.verts))]
                if name == 'gadgets':   # pairs of gadgets need two leaves
                    leaves = [i for i in range(len(spec.verts)) if sum(i in e[:2] for e in spec.edges) == 1]
                    sites += [('v%d,%d' % p, (lambda p: lambda v: v in p)(p)) for p in itertools.combinations(leaves, 2)]
                if name == 'supplementarity':
                    sites = [('v%d,%d' % p, (lambda p: lambda v: v in p)(p))
                             for p in itertools.combinations(range(len(spec.verts)), 2)]
            else:
                sites = [('e%d,%d' % (a, b), (lambda a, b: lambda e: set(e[:2]) == {a, b})(a, b)) for a, b, _ in spec.edges]
            for sname, f in sites:
                with rep.case('%s@%s %s %s' % (name, sname, backend, key0), dict(feats or {}, rule=name, backend=backend)):
                    n2, g = apply_one(spec, name, backend, auto, f)
                    if n2:
                        rep.step()
                        check_graph(base, g, name, grounded)


def check_graph(base, g, name, grounded=False):
    after = ref.value(g, doubled=grounded)
    require(after.shape == base.shape, 'rule %s changed the number of inputs/outputs', name)
    # (labels of converted spiders are rounded to 8 decimals by design)
    ok = ref.close(base, after) if name != 'z_to_z_box' else ref.close(base, after, 1e-6) or abs(base - after).max() < 1e-6
    require(ok, 'rule %s changed the linear map or scalar: ratio %s', name, ratio(base, after))


def ratio(a, b):
    import numpy as np
    k = np.unravel_index(np.argmax(abs(a)), a.shape)
    try:
        if ref.prop(a, b):
            return 'proportional, factor %s' % (b[k] / a[k])
        return 'not proportional'
    except Exception:
        return '?'


# -- A: graph-like diagrams -------------------------------------------------------------------
def gl_specs(n, phases, bopts, colors=(0, 2)):
    kinds = [(p, b) for p in phases for b in bopts]
    for c, sizes in kind_multisets(kinds, n):
        ks = [kinds[i] for i in c]
        if sum(len(k[1]) for k in ks) > 4:
            continue
        for es in canon_graphs(sizes, colors):
            for order in (0, 1):
                verts = [V(Z, k[0]) for k in ks]
                bs = [k[1] for k in ks]
                e2 = es
                if order:   # reversed labelling: other iteration orders of the matchers
                    if n == 1:
                        continue
                    verts, bs = verts[::-1], bs[::-1]
                    e2 = [(n - 1 - b, n - 1 - a, t) for a, b, t in es]
                yield with_boundaries(verts, e2, bs, first=not order)


def fam_graphlike(rep, n, phases, bopts, i, m):
    for s in slice_iter(gl_specs(n, phases, bopts), i, m):
        rep.sample(s.show())
        explore_spec(rep, s, GRAPHLIKE)


# -- B: general ZX diagrams (both colours, both edge types) -------------------------------------
def zx_specs(n, kinds0, bopts):
    kinds = [(k, b) for k in kinds0 for b in bopts]
    for c, sizes in kind_multisets(kinds, n):
        ks = [kinds[i] for i in c]
        for es in canon_graphs(sizes, (0, 1, 2)):
            verts = [k[0] for k in ks]
            bs = [k[1] for k in ks]
            yield with_boundaries(verts, es, bs)


def fam_zx(rep, n, kinds0, bopts, backend, i, m):
    for s in slice_iter(zx_specs(n, kinds0, bopts), i, m):
        rep.sample(s.show())
        explore_spec(rep, s, ['spider', 'ids', 'z_to_z_box'], backend, per_site=True)


# -- C: multigraphs with parallel edges and loops -----------------------------------------------
def multi_specs(n, kinds, maxmult):
    ps = [(i, j) for i in range(n) for j in range(i, n)]
    mults = [(s, h) for s in range(maxmult + 1) for h in range(maxmult + 1) if s + h <= maxmult]
    for ks in itertools.product(kinds, repeat=n):
        for ms in itertools.product(mults, repeat=len(ps)):
            es = []
            for (i, j), (s, h) in zip(ps, ms):
                es += [(i, j, 1)] * s + [(i, j, 2)] * h
            for b in ((), (1,), (2,)):
                yield with_boundaries(list(ks), es, [b] + [()] * (n - 1))


def fam_multi(rep, n, kinds, maxmult, auto, i, m):
    for s in slice_iter(multi_specs(n, kinds, maxmult), i, m):
        rep.sample(s.show())
        explore_spec(rep, s, ['spider', 'ids'], 'multigraph', auto)


# -- D: phase gadgets -----------------------------------------------------------------------------
def gadget_specs(ntargets, ngadgets, phases, axels, tphases):
    """ngadgets gadgets on subsets of ntargets boundary spiders."""
    subs = [s for k in range(0, ntargets + 1) for s in itertools.combinations(range(ntargets), k)]
    one = [(s, a, p) for s in subs for a in axels for p in phases]
    for gs in itertools.combinations_with_replacement(one, ngadgets):
        for tp in tphases:
            verts = [V(Z, tp) for _ in range(ntargets)]
            edges = []
            for (s, a, p) in gs:
                ax = len(verts)
                verts.append(V(Z, a))
                verts.append(V(Z, p))
                edges.append((ax, ax + 1, 2))
                edges += [(t, ax, 2) for t in s]
            yield with_boundaries(verts, edges, [(1,)] * ntargets + [()] * (2 * ngadgets))


def fam_gadgets(rep, nt, ng, phases, axels, tphases, i, m):
    for s in slice_iter(gadget_specs(nt, ng, phases, axels, tphases), i, m):
        rep.sample(s.show())
        explore_spec(rep, s, GRAPHLIKE)


# -- E: supplementarity -----------------------------------------------------------------------------
def supp_specs(k, phases, tph):
    """two or three non-Clifford spiders with the same k neighbours, connected or not."""
    for cnt in (2, 3):
        for ps in itertools.product(phases, repeat=cnt):
            for conn in itertools.product((0, 1), repeat=cnt * (cnt - 1) // 2):
                for tp in itertools.product(tph, repeat=k):
                    for inner in ((), (2,)):
                        verts = [V(Z, p) for p in ps] + [V(Z, t) for t in tp]
                        edges = [(a, cnt + b, 2) for a in range(cnt) for b in range(k)]
                        edges += [(a, b, 2) for (a, b), c in zip(pairs(cnt), conn) if c]
                        if inner and k >= 2:
                            edges.append((cnt, cnt + 1, 2))
                        elif inner:
                            continue
                        yield with_boundaries(verts, edges, [()] * cnt + [(1,)] * k)
                        if k <= 1:
                            yield with_boundaries(verts, edges, [()] * (cnt + k))


def fam_supp(rep, k, phases, tph, i, m):
    for s in slice_iter(supp_specs(k, phases, tph), i, m):
        rep.sample(s.show())
        explore_spec(rep, s, ['supplementarity', 'gadgets'])


# -- F: bialgebra (phase-free two-coloured diagrams with plain edges), complete bipartite patterns -------
def bialg_specs(n):
    for ks in itertools.product((Z, X), repeat=n):
        for es in enum_graphs(n, (0, 1)):
            for b in itertools.product(((), (1,)), repeat=n):
                if sum(map(len, b)) <= 3:
                    yield with_boundaries([V(t) for t in ks], es, list(b))


def fam_bialg(rep, n, backend, i, m):
    for s in slice_iter(bialg_specs(n), i, m):
        rep.sample(s.show())
        explore_spec(rep, s, ['bialg'], backend)


# -- G: Z-boxes and W nodes ------------------------------------------------------------------------
def zbox_specs(n):
    ks = [V(Z, F(1, 4)), V(Z, 1), V(ZBOX, 0, 2.0), V(ZBOX, 0, 0.5 + 1j), V(ZBOX, 0, -1.0), V(X, F(1, 2))]
    for s in zx_specs(n, ks, ((), (1,), (2,))):
        yield s


def fam_zbox(rep, n, i, m):
    for s in slice_iter(zbox_specs(n), i, m):
        rep.sample(s.show())
        explore_spec(rep, s, ['spider', 'z_to_z_box'], per_site=True)


def w_specs():
    """Two W nodes (input+output halves) joined output-to-input, all leg counts and edge types."""
    for la in range(0, 3):
        for lb in range(0, 3):
            for ets in itertools.product((1, 2), repeat=la + lb + 1):
                for ph in (0, F(1, 2)):
                    for joined in (1, 2, 0):
                        verts = [V(WIN), V(WOUT), V(WIN), V(WOUT)]
                        edges = [(0, 1, WIO), (2, 3, WIO)]
                        if joined:
                            edges.append((1, 2, joined))
                        for x in range(la + lb):
                            i = len(verts)
                            verts.append(V(Z, ph if x == 0 else 0))
                            edges.append((1 if x < la else 3, i, ets[x]))
                        i = len(verts)
                        verts.append(V(Z, 0))
                        edges.append((0, i, ets[-1]))
                        b = [()] * 4 + [(1,)] * (la + lb + 1)
                        yield with_boundaries(verts, edges, b, first=False)


def fam_w(rep, i, m):
    for s in slice_iter(w_specs(), i, m):
        rep.sample(s.show())
        explore_spec(rep, s, ['w_fusion'])


# -- H: grounds (discard) -------------------------------------------------------------------------
def ground_specs(n, phases, bopts):
    kinds = [(p, b, gr) for p in phases for b in bopts for gr in (False, True) if not (gr and p)]
    for c, sizes in kind_multisets(kinds, n):
        ks = [kinds[i] for i in c]
        if not any(k[2] for k in ks) or sum(len(k[1]) for k in ks) > 3:
            continue
        for es in canon_graphs(sizes, (0, 1, 2) if n <= 2 else (0, 2)):
            verts = [V(Z, k[0], None, k[2]) for k in ks]
            yield with_boundaries(verts, es, [k[1] for k in ks])


def fam_ground(rep, n, phases, bopts, i, m):
    for s in slice_iter(ground_specs(n, phases, bopts), i, m):
        rep.sample(s.show())
        names = ['spider', 'ids']
        k = {i for i, v in enumerate(s.verts) if v[0] != BOUNDARY}
        if all(t == 2 for a, b, t in s.edges if a in k and b in k):
            names += ['pivot', 'pivot_gadget', 'pivot_boundary', 'lcomp', 'gadgets']
        explore_spec(rep, s, names, feats=dict(ground=True))


# -- I: unspider, phase-polynomial rule R13 ---------------------------------------------------------
def fam_unspider(rep, i, m):
    def specs():
        for ty in (Z, X):
            for p in (0, F(1, 4), F(1, 2), 1, F(5, 4)):
                for d in range(0, 4):
                    for ets in itertools.product((1, 2), repeat=d):
                        verts = [V(ty, p)] + [V(Z if k % 2 else X, F(k, 4)) for k in range(d)]
                        edges = [(0, k + 1, ets[k]) for k in range(d)]
                        yield with_boundaries(verts, edges, [()] + [(1,)] * d), d
    for (s, d) in slice_iter(specs(), i, m):
        base = s.value()
        off = d
        for r in range(d + 1):
            for sub in itertools.combinations(range(d), r):
                for p in (None, 0, F(1, 4), F(1), F(7, 4)):
                    with rep.case('unspider %s %s %s' % (s.show(), sub, p), dict(rule='unspider')):
                        g = build(s)
                        mm = [off, [off + 1 + k for k in sub]] + ([p] if p is not None else [])
                        v = rules.unspider(g, mm)
                        rep.state(s.show() + str(sub) + str(p))
                        rep.step()
                        check_graph(base, g, 'unspider')
                        want = set(mm[1]) | {off}
                        require(set(g.neighbors(v)) == want, 'new spider has neighbours %s instead of %s', set(g.neighbors(v)), want)


def fam_phasepoly(rep, missing, i, m):
    """4 targets, all subsets of gadgets obtained by deleting up to `missing` of the 15 parities."""
    subs = [s for k in range(1, 5) for s in itertools.combinations(range(4), k)]

    def specs():
        for r in range(missing + 1):
            for miss in itertools.combinations(subs, r):
                for base_phase, axel in ((F(1, 4), 0), (F(3, 4), 0), (F(1, 4), 1), (F(7, 4), 1)):
                    if r == missing and r > 1 and (base_phase, axel) != (F(1, 4), 0):
                        continue
                    verts = [V(Z, 0) for _ in range(4)]
                    edges = []
                    for s in subs:
                        if s in miss:
                            continue
                        if len(s) == 1:
                            verts[s[0]] = V(Z, base_phase)
                            continue
                        ax = len(verts)
                        verts += [V(Z, axel), V(Z, base_phase)]
                        edges.append((ax, ax + 1, 2))
                        edges += [(t, ax, 2) for t in s]
                    yield with_boundaries(verts, edges, [(1,)] * 4 + [()] * (len(verts) - 4))
    for s in slice_iter(specs(), i, m):
        with rep.case('phasepoly ' + s.show(), dict(rule='phasepoly')):
            rep.state(s.show())
            g = build(s)
            ms = rules.match_gadgets_phasepoly(g)
            rep.outcome('phasepoly:%d' % len(ms))
            if ms:
                rep.step()
                base = s.value()
                rules.apply_gadget_phasepoly(g, ms)
                after = ref.value(g)
                require(ref.prop(base, after), 'phase-polynomial rule changed the linear map')


# -- J: reachable diagrams: breadth-first search over single rewrites ---------------------------------
BFSRULES = ['spider', 'pivot', 'pivot_gadget', 'pivot_boundary', 'lcomp', 'ids', 'gadgets', 'supplementarity', 'copy']


def fam_bfs(rep, n, phases, bopts, maxb, depth, i, m):
    """States: graph-like diagrams; transitions: every single match of every rule; from every initial diagram
    with n spiders, to the given depth (fresh real graph per transition)."""
    seen = set()

    def gl(spec):
        k = {j for j, v in enumerate(spec.verts) if v[0] != BOUNDARY}
        return all(spec.verts[j][0] == Z for j in k) and all(t == 2 for a, b, t in spec.edges if a in k and b in k)
    for s0 in slice_iter(gl_specs(n, phases, bopts), i, m):
        if len(s0.ins) + len(s0.outs) > maxb:
            continue
        frontier = [s0]
        for d in range(depth):
            nxt = []
            for s in frontier:
                key = s.show()
                if key in seen:
                    continue
                seen.add(key)
                rep.state('bfs' + key)
                base = s.value()
                names = BFSRULES if gl(s) else ['spider', 'ids']
                for name in names:
                    match, rewrite, kind = RULES[name]
                    if kind == VERT:
                        sites = [(j, (lambda j: lambda v: v == j)(j)) for j in range(len(s.verts))]
                    else:
                        sites = [((a, b), (lambda a, b: lambda e: set(e[:2]) == {a, b})(a, b)) for a, b, _ in s.edges]
                    if name in ('gadgets', 'supplementarity'):
                        sites = [('all', None)]
                    for sname, f in sites:
                        with rep.case('%s@%s %s' % (name, sname, key), dict(rule=name, backend='simple', depth=d)):
                            k, g = apply_one(s, name, 'simple', None, f)
                            if k:
                                rep.step()
                                rep.outcome('depth%d' % (d + 1))
                                check_graph(base, g, name)
                                t = spec_of(g)
                                if len(t.verts) <= 9:
                                    nxt.append(t)
            frontier = nxt
            if not frontier:
                break


# -- wide matches: every rule at large arities (a rule's formula may only fail from some arity on) -------------
def wide_specs(kind, m):
    ph = (F(0), F(1, 4), F(1), F(1, 2), F(7, 4), F(3, 4))

    def nb(k, p0=0):     # k neighbour spiders with (rotating) phases
        return [V(Z, ph[(p0 + j) % len(ph)]) for j in range(k)]
    if kind == 'gadgets':          # c gadgets on the same t targets
        for t in range(0, 4):
            for c in range(2, m + 1):
                for ps in itertools.product((F(1, 4), F(3, 4)), repeat=2):
                    for axels in ((0,) * c, (1,) + (0,) * (c - 1), (0,) * (c - 1) + (1,), (1,) * c):
                        verts, edges = nb(t), []
                        for j in range(c):
                            a = len(verts)
                            verts += [V(Z, F(axels[j])), V(Z, ps[j % 2])]
                            edges += [(a, a + 1, 2)] + [(x, a, 2) for x in range(t)]
                        yield ('gadgets',), with_boundaries(verts, edges, [(1,)] * t + [()] * (2 * c))
    elif kind == 'lcomp':
        for n in range(0, m + 1):
            for p in (F(1, 2), F(3, 2)):
                for b in range(0, min(n, 4) + 1):
                    for es in ((), [(1 + a, 2 + a, 2) for a in range(n - 1)], [(1 + a, 1 + c, 2) for a, c in pairs(n)]):
                        yield ('lcomp',), with_boundaries([V(Z, p)] + nb(n), [(0, 1 + j, 2) for j in range(n)] + list(es),
                                                          [()] + [(1,)] * b + [()] * (n - b))
    elif kind == 'pivot':
        for a, b, c in itertools.product(range(m), repeat=3):
            if a + b + c > 2 * m - 2:
                continue
            for p in itertools.product((F(0), F(1)), repeat=2):
                n = a + b + c
                edges = [(0, 1, 2)] + [(0, 2 + j, 2) for j in range(a + c)] + [(1, 2 + j, 2) for j in range(a, n)]
                bs = [(1,) if j % 2 == 0 and j < 8 else () for j in range(n)]
                for es in ((), [(2 + x, 2 + y, 2) for x, y in pairs(n)]):
                    yield ('pivot', 'pivot_gadget', 'pivot_boundary'), with_boundaries([V(Z, p[0]), V(Z, p[1])] + nb(n, 1), edges + list(es), [(), ()] + bs)
    elif kind == 'pivotb':         # with a boundary or a non-Clifford phase at the second spider
        for a, b, c in itertools.product(range(m), repeat=3):
            if a + b + c > 2 * m - 3:
                continue
            for p in (F(0), F(1)):
                for p2, bb in ((F(0), (1,)), (F(1, 4), ()), (F(1, 2), (2,)), (F(1), (1, 1))):
                    n = a + b + c
                    edges = [(0, 1, 2)] + [(0, 2 + j, 2) for j in range(a + c)] + [(1, 2 + j, 2) for j in range(a, n)]
                    bs = [(1,) if j % 2 == 0 and j < 6 else () for j in range(n)]
                    yield ('pivot', 'pivot_gadget', 'pivot_boundary'), with_boundaries([V(Z, p), V(Z, p2)] + nb(n, 1), edges, [(), bb] + bs)
    elif kind == 'supp':
        for n in range(0, m + 1):
            for p in (F(1, 4), F(3, 4), F(5, 4), F(7, 4)):
                for p2 in (1 - p, -p, p + 1):
                    for conn in ((), [(0, 1, 2)]):
                        yield ('supplementarity',), with_boundaries([V(Z, p), V(Z, p2 % 2)] + nb(n), list(conn) + [(x, 2 + j, 2) for x in (0, 1) for j in range(n)],
                                                                    [(), ()] + [(1,) if j < 4 else () for j in range(n)])
    elif kind == 'copy':
        for n in range(0, m + 1):
            for p in (F(0), F(1)):
                for q2 in ph:
                    yield ('copy',), with_boundaries([V(Z, p), V(Z, q2)] + nb(n), [(0, 1, 2)] + [(1, 2 + j, 2) for j in range(n)],
                                                     [(), ()] + [(1,) if j < 4 else () for j in range(n)])
    elif kind == 'bialg':
        for a, b in itertools.product(range(m), repeat=2):
            for sel in (0, 1):
                verts = [V(Z), V(X)] + [V(X if sel else Z)] * a + [V(Z if sel else X)] * b
                edges = [(0, 1, 1)] + [(0, 2 + j, 1) for j in range(a)] + [(1, 2 + a + j, 1) for j in range(b)]
                yield ('bialg',), with_boundaries(verts, edges, [(), ()] + [(1,)] * (a + b))
                yield ('bialg',), with_boundaries(verts[:2], edges[:1], [(1,) * a, (1,) * b])
    elif kind == 'spider':
        for t in (Z, X):
            for a, b in itertools.product(range(m), repeat=2):
                for k in range(3):      # a legs, b legs, k common neighbours of the other colour
                    verts = [V(t, F(1, 4)), V(t, F(3, 2))] + [V(Z + X - t, F(1, 4))] * k
                    edges = [(0, 1, 1)] + [(x, 2 + j, 1 + (j % 2)) for x in (0, 1) for j in range(k)]
                    yield ('spider',), with_boundaries(verts, edges, [(1,) * a, (2,) * b] + [(1,)] * k)
            for n in range(2, m + 3):   # chains and stars of fusable spiders, disjoint pairs
                yield ('spider',), with_boundaries([V(t, F(1, 4))] * n, [(j, j + 1, 1) for j in range(n - 1)], [(1,)] + [()] * (n - 2) + [(1,)])
                yield ('spider',), with_boundaries([V(t, F(1, 4))] * n, [(0, j + 1, 1) for j in range(n - 1)], [(1,)] * n if n < 6 else [(1,)] + [()] * (n - 1))
    elif kind == 'ids':
        for n in range(1, m + 3):
            for es in itertools.product((1, 2), repeat=2):
                ed = [(j, j + 1, es[j % 2]) for j in range(n - 1)]
                for bl in (1, 2):
                    yield ('ids',), with_boundaries([V(Z if j % 3 else X) for j in range(n)], ed, [(bl,)] + [()] * (n - 2) + [(1,)] if n > 1 else [(bl, 1)])


def fam_wide(rep, kind, m, i, k):
    for names, s in slice_iter(wide_specs(kind, m), i, k):
        rep.sample(s.show())
        explore_spec(rep, s, names)


FAMILIES = dict(wide=fam_wide, bfs=fam_bfs, graphlike=fam_graphlike, zx=fam_zx, multi=fam_multi, gadgets=fam_gadgets, supp=fam_supp,
                bialg=fam_bialg, zbox=fam_zbox, w=fam_w, ground=fam_ground, unspider=fam_unspider,
                phasepoly=fam_phasepoly)

q, h, o = F(1, 4), F(1, 2), F(1)
B3 = ((), (1,), (2,))
ZXK = (V(Z, 0), V(Z, q), V(Z, o), V(X, 0), V(X, h))
ZXK2 = (V(Z, 0), V(Z, q), V(X, 0), V(X, o))


def tasks(tier):
    T = []

    def add(fam, args, n):
        for i in range(n):
            T.append((fam, tuple(args) + (i, n)))
    deep = tier == 'thorough'
    add('graphlike', (1, (F(0), q, h, F(3, 4), o, F(3, 2)), B3), 1)
    add('graphlike', (2, (F(0), q, h, o, F(3, 2), F(3, 4)), B3 + ((1, 1), (1, 2))), 4)
    add('graphlike', (3, (F(0), q, h, o, F(3, 2)), B3), 24)
    add('graphlike', (4, (F(0), h, o, q) if deep else (F(0), h, q), B3 if deep else ((), (1,))), 64)
    if deep:
        add('graphlike', (5, (F(0), h, o, q), ((),)), 64)
        add('graphlike', (5, (F(0), h), ((), (1,))), 64)
        add('graphlike', (3, (F(0), q, h, o, F(3, 2), F(3, 4), F(5, 4), F(1, 3)), B3 + ((1, 2),)), 64)
    add('bfs', (3, (F(0), q, o, h), ((), (1,)), 2, 6 if deep else 3), 64)
    if deep:
        add('bfs', (4, (F(0), q, h), ((), (1,)), 2, 4), 64)
    add('zx', (2, ZXK, B3, 'simple'), 4)
    add('zx', (3, ZXK if deep else ZXK2, B3 if deep else ((), (1,)), 'simple'), 32)
    add('zx', (2, ZXK, B3, 'multigraph'), 4)
    if deep:
        add('zx', (3, ZXK2, ((), (1,)), 'multigraph'), 32)
        add('zx', (4, (V(Z, 0), V(X, q)), ((), (1,)), 'simple'), 64)
    for auto in (False, True):
        add('multi', (2, (V(Z, 0), V(Z, q), V(X, 0)), 2, auto), 8)
        if deep:
            add('multi', (2, (V(Z, 0), V(Z, q), V(X, 0)), 4, auto), 64)
    add('gadgets', (2, 2, (q, F(3, 4), F(7, 4)), (F(0), o), (F(0), q)), 8)
    add('gadgets', (3, 2, (q, F(7, 4)), (F(0), o), (F(0),)), 8)
    if deep:
        add('gadgets', (3, 3, (q, F(7, 4)), (F(0), o), (F(0),)), 64)
        add('gadgets', (4, 2, (q, F(1, 3)), (F(0), o), (F(0),)), 32)
    else:
        add('gadgets', (2, 3, (q,), (F(0), o), (F(0),)), 8)
    sp = (q, F(3, 4), F(5, 4), F(7, 4), F(1, 3)) if deep else (q, F(3, 4), F(5, 4), F(7, 4))
    for k in (0, 1, 2):
        add('supp', (k, sp, (F(0), q)), 8 if k == 2 else 2)
    if deep:
        add('supp', (3, (q, F(3, 4), F(7, 4)), (F(0), q)), 16)
    add('bialg', (3, 'simple'), 2)
    add('bialg', (4, 'simple'), 8)
    add('bialg', (4, 'multigraph'), 8)
    if deep:
        add('bialg', (5, 'simple'), 64)
    add('zbox', (2,), 4)
    if deep:
        add('zbox', (3,), 64)
    add('w', (), 8)
    add('ground', (2, (F(0), h, q, o), B3), 4)
    add('ground', (3, (F(0), h, q, o) if deep else (F(0), h, q), B3 if deep else ((), (1,))), 16)
    for kind, m, n in (('gadgets', 5, 8), ('lcomp', 7, 8), ('pivot', 4, 16), ('pivotb', 4, 16), ('supp', 5, 4), ('copy', 6, 2), ('bialg', 5, 4), ('spider', 5, 8), ('ids', 6, 2)):
        add('wide', (kind, m + (1 if deep else 0), ), n)
    add('unspider', (), 8)
    add('phasepoly', (4 if deep else 2,), 16)
    return T


ASSUME = ['diagrams bounded as listed in coverage.bounds; phases are multiples of pi/4 or pi/3; floating-point tolerance 1e-7',
          'the bialgebra matcher is documented as not aware of Hadamard edges: explored on plain-edge diagrams only',
          'the Clifford+T rules are explored on graph-like diagrams (Z spiders, Hadamard edges), their documented domain',
          'the phase-polynomial rule (R13) is documented up to scalar and is compared up to a scalar']
BOUNDS = 'all diagrams up to isomorphism (two labellings each) with <=4 spiders (5 thorough), <=4 boundaries; every single match and the full parallel match; every rule at arities up to 5-7 (wide family)'


def run():
    return core.main('C01', FAMILIES, tasks, ASSUME, BOUNDS)
