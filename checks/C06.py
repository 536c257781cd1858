"""C06: H-box (ZH) rewrites, strategies and conversions preserve the diagram."""
import itertools
from fractions import Fraction as F
import core
from core import require, slice_iter
import ref
from ref import BOUNDARY, Z, X, HBOX, SIMPLE, HAD
from diag import V, Spec, build, with_boundaries, canon_graphs, kind_multisets
import C01, big
from C05 import dump
import pyzx as zx
from pyzx import hrules as H, hsimplify as S, rules, simplify

q, h, o = F(1, 4), F(1, 2), F(1)


def app(rule):
    return lambda g, m: rules.apply_rule(g, rule, m)


# name: (matcher taking a graph, applier of a list of matches)
RULES = {
    'hadamards': (H.match_hadamards, app(H.hadamard_to_h_edge)),
    'connected_hboxes': (H.match_connected_hboxes, app(H.fuse_hboxes)),
    'copy': (H.match_copy, app(H.apply_copy)),
    'parallel_not': (H.match_hbox_parallel_not, app(H.hbox_parallel_not_remove)),
    'par_hbox': (H.match_par_hbox, app(H.par_hbox)),
    'par_hbox_intro': (H.match_par_hbox_intro, app(H.par_hbox_intro)),
    'zero_hbox': (H.match_zero_hbox, H.zero_hbox),
    'hpivot': (H.match_hpivot, H.hpivot),
}
STRATS = {
    'hadamard_simp': lambda g: S.hadamard_simp(g, quiet=True),
    'par_hbox_simp': lambda g: S.par_hbox_simp(g, quiet=True),
    'par_hbox_intro_simp': lambda g: S.par_hbox_intro_simp(g, quiet=True),
    'copy_simp': lambda g: S.copy_simp(g, quiet=True),
    'hspider_simp': lambda g: S.hspider_simp(g, quiet=True),
    'parallel_not_simp': lambda g: S.hbox_parallel_not_remove_simp(g, quiet=True),
    'hpivot_simp': lambda g: S.hpivot_simp(g, quiet=True),
    'zh_simp': lambda g: S.zh_simp(g, quiet=True),
    'to_hyper': S.to_hypergraph_form,
    'from_hyper': S.from_hypergraph_form,
    'to_from_hyper': lambda g: (S.to_hypergraph_form(g), S.from_hypergraph_form(g)),
}


def same(base, after, what):
    require(after.shape == base.shape, '%s changed the inputs/outputs', what)
    require(ref.close(base, after, 1e-6), '%s changed the linear map or scalar: %s', what, C01.ratio(base, after))


class Refused(Exception):
    pass


def attempt(f, *a):
    """Performs f; the simple backend refuses (with an error) diagrams with parallel edges it cannot represent."""
    try:
        return f(*a)
    except ValueError as ex:
        if 'unreducible parallel edge' in str(ex):
            raise Refused()
        raise


def white_only(s):
    """every H-box with phase 0 has only plain-white surroundings (documented precondition of zero_hbox)"""
    for a, b, et in s.edges:
        for x, y in ((a, b), (b, a)):
            if s.verts[x][0] == HBOX and s.verts[x][1] == 0 and not (s.verts[y][0] == Z and et == SIMPLE):
                return False
    return True


def again(rep, s, name, k, val):
    """The rewrite that the simple backend refused, on the backend that can hold its result."""
    g = build(s, 'multigraph')
    match, apply = RULES[name]
    m = match(g)
    if k is not None and k >= len(m):
        return
    apply(g, m if k is None else [m[k]])
    rep.outcome(name + ':multigraph')
    rep.step()
    same(val(), ref.value(g), name + ' (multigraph)')


def rules_on(rep, s, names, per=True, backend='simple', auto=None):
    key = s.show()
    if backend != 'simple':
        key = '%s%s %s' % (backend, '' if auto is None else ' raw', key)
    if not rep.state('r' + key):
        return
    base = []

    def val():
        if not base:
            base.append(s.value())
        return base[0]
    g0 = build(s, backend, auto)
    d0 = dump(g0)
    for name in names:
        match, apply = RULES[name]
        if name == 'zero_hbox' and not white_only(s):
            continue
        with rep.case('%s %s' % (name, key), dict(rule=name)) as f:
            ms = match(g0)
            require(dump(g0) == d0, 'matching %s changes the diagram', name)
            rep.outcome('%s:%d' % (name, min(2, len(ms))))
            sel = [None] if ms else []
            if per and len(ms) > 1:
                sel += list(range(len(ms)))
            for k in sel:
                g = build(s, backend, auto)
                m = match(g)
                require(len(m) == len(ms), 'matching %s again gives %d instead of %d matches', name, len(m), len(ms))
                try:
                    attempt(apply, g, m if k is None else [m[k]])
                except Refused:
                    rep.outcome(name + ':refused')
                    again(rep, s, name, k, val)
                    continue
                rep.step()
                same(val(), ref.value(g), name if k is None else name + ' (single match)')
            # matches found when restricted to a part of the diagram
            if per and name not in ('zero_hbox',) and ms:
                for v in range(len(s.verts)):
                    g = build(s, backend, auto)
                    if name == 'connected_hboxes':
                        m = match(g, lambda e: v not in g.edge_st(e))
                    else:
                        m = match(g, lambda x: x != v)
                    if not m:
                        continue
                    try:
                        attempt(apply, g, m)
                    except Refused:
                        continue
                    rep.step()
                    same(val(), ref.value(g), name + ' (without %d)' % v)


def strats_on(rep, s, names, backend='simple', auto=None):
    key = s.show()
    if backend != 'simple':
        key = '%s%s %s' % (backend, '' if auto is None else ' raw', key)
    if not rep.state('s' + key):
        return
    base = s.value()
    for name in names:
        with rep.case('%s %s' % (name, key), dict(strategy=name), limit=20):
            g = build(s, backend, auto)
            try:
                attempt(STRATS[name], g)
            except Refused:
                rep.outcome(name + ':refused')
                continue
            rep.outcome('%s:%d' % (name, len(s.verts) - g.num_vertices()))
            rep.step()
            same(base, ref.value(g), name)
            if name == 'to_hyper':
                for v in g.vertices():
                    t = int(g.type(v))
                    require(t in (BOUNDARY, Z, HBOX), 'the hypergraph form has a vertex of type %s', t)
                    require(t != Z or g.phase(v) == 0, 'the hypergraph form has a spider with phase %s', g.phase(v))
                    if t == HBOX:
                        require(all(int(g.type(w)) != HBOX for w in g.neighbors(v)), 'the hypergraph form has two connected H-boxes')
                for e in g.edges():
                    a, b = g.edge_st(e)
                    require(int(g.edge_type(e)) == SIMPLE or BOUNDARY in (int(g.type(a)), int(g.type(b))), 'the hypergraph form has an interior Hadamard edge')


def zh_specs(n, kinds0, bopts, maxb=4, colors=(0, 1, 2), maxdeg=99):
    kinds = [(k, b) for k in kinds0 for b in bopts]
    for c, sizes in kind_multisets(kinds, n):
        ks = [kinds[i] for i in c]
        if sum(len(k[1]) for k in ks) > maxb or not any(k[0][0] == HBOX for k in ks):
            continue
        for es in canon_graphs(sizes, colors):
            yield with_boundaries([k[0] for k in ks], es, [k[1] for k in ks])


def fam_rules(rep, n, kinds, bopts, i, m, colors=(0, 1, 2), backend='simple'):
    for s in slice_iter(zh_specs(n, kinds, bopts, colors=colors), i, m):
        rep.sample(s.show())
        rules_on(rep, s, list(RULES), True, backend)


def fam_strats(rep, n, kinds, bopts, names, i, m, colors=(0, 1, 2), backend='simple'):
    for s in slice_iter(zh_specs(n, kinds, bopts, colors=colors), i, m):
        rep.sample(s.show())
        strats_on(rep, s, names, backend)


def fam_mrules(rep, n, kinds, bopts, names, i, m):
    for s in slice_iter(zh_specs(n, kinds, bopts), i, m):
        rep.sample(s.show())
        rules_on(rep, s, list(RULES), True, 'multigraph')
        strats_on(rep, s, names, 'multigraph')


def fam_multi(rep, n, kinds, maxmult, names, raw, i, m):
    import pyzx as zx
    for s in slice_iter(C01.multi_specs(n, kinds, maxmult), i, m):
        if not any(v[0] == HBOX for v in s.verts):
            continue
        rep.sample(s.show())
        rules_on(rep, s, list(RULES), True, 'multigraph', False if raw else None)
        strats_on(rep, s, names, 'multigraph', False if raw else None)


NEAR = [(X, 1, 1, 2, 0), (Z, 1, 2, 1, 0), (Z, 1, 1, 2, 0), (X, 1, 2, 2, 0), (Z, 1, 1, 1, 0), (X, 0, 1, 1, 0), (Z, 0, 2, 2, 0), (X, q, 1, 1, 0), (Z, q, 2, 2, 0),
        (X, 1, 1, 1, 1), (Z, 1, 2, 2, 1), (HBOX, 1, 1, 1, 0), (HBOX, q, 1, 1, 0), (HBOX, 1, 2, 2, 0)]


# -- special structures ----------------------------------------------------------------------------------
def par_specs(nt, nh, phases, modes, zph, wire):
    """nh H-boxes on nt boundary Z-spiders; each leg absent / plain / through a NOT in one of several presentations.
    modes: 0 absent, 1 plain to Z, 2 X(pi) NOT with plain edges, 3 Z(pi) with two Hadamard edges."""
    legs = list(itertools.product(modes, repeat=nt))
    hb = [(p, l) for p in phases for l in legs]
    for hs in itertools.combinations_with_replacement(hb, nh):
        verts = [V(Z, zph) for _ in range(nt)]
        edges = []
        nb = [wire] * nt
        for p, l in hs:
            hi = len(verts)
            verts.append(V(HBOX, p))
            nb.append(())
            for t, mode in enumerate(l):
                if mode == 0:
                    continue
                if mode == 1:
                    edges.append((hi, t, 1))
                elif mode in (2, 3):
                    ni = len(verts)
                    verts.append(V(X, 1) if mode == 2 else V(Z, 1))
                    nb.append(())
                    edges += [(hi, ni, 1 if mode == 2 else 2), (ni, t, 1 if mode == 2 else 2)]
                elif mode == 4:      # both directly and through a NOT
                    ni = len(verts)
                    verts.append(V(X, 1))
                    nb.append(())
                    edges += [(hi, t, 1), (hi, ni, 1), (ni, t, 1)]
                elif mode == 5:
                    ni = len(verts)
                    verts.append(V(Z, 1))
                    nb.append(())
                    edges += [(hi, t, 1), (hi, ni, 2), (ni, t, 2)]
                elif mode == 6:      # a hanging white spider next to the leg
                    ni = len(verts)
                    verts.append(V(Z, 0))
                    nb.append(())
                    edges += [(hi, ni, 1), (hi, t, 1)]
                elif mode == 7:      # NOT on a Hadamard leg is no NOT
                    ni = len(verts)
                    verts.append(V(X, 1))
                    nb.append(())
                    edges += [(hi, ni, 2), (ni, t, 1)]
                elif mode == 8:      # Hadamard leg
                    edges.append((hi, t, 2))
                elif mode >= 10:     # anything that looks like a NOT but is none
                    k, p2, t1, t2, leg = NEAR[mode - 10]
                    ni = len(verts)
                    verts.append(V(k, p2))
                    nb.append((1,) if leg else ())
                    edges += [(hi, ni, t1), (ni, t, t2)]
        yield with_boundaries(verts, edges, nb)


def fam_par(rep, nt, nh, phases, modes, zph, wire, strats, i, m):
    for s in slice_iter(par_specs(nt, nh, phases, modes, zph, wire), i, m):
        rep.sample(s.show())
        rules_on(rep, s, ['par_hbox', 'par_hbox_intro', 'parallel_not', 'hpivot', 'hadamards', 'copy'], per=False)
        strats_on(rep, s, strats)


def hyper_specs(nt, phases2, wires):
    """hypergraph states: H-boxes on chosen subsets of nt white spiders"""
    subs = [c for k in range(1, nt + 1) for c in itertools.combinations(range(nt), k)]
    for pick in itertools.product([None] + list(phases2), repeat=len(subs)):
        hs = [(c, p) for c, p in zip(subs, pick) if p is not None]
        if not hs:
            continue
        for w in wires:
            if len(w) != nt:
                continue
            verts = [V(Z, 0)] * nt
            edges = []
            for c, p in hs:
                hi = len(verts)
                verts = verts + [V(HBOX, p)]
                edges += [(hi, t, 1) for t in c]
            yield with_boundaries(verts, edges, list(w) + [()] * len(hs))


def fam_hyper(rep, nt, phases2, wires, i, m):
    for s in slice_iter(hyper_specs(nt, phases2, wires), i, m):
        rep.sample(s.show())
        rules_on(rep, s, ['hpivot', 'par_hbox', 'par_hbox_intro', 'zero_hbox'], per=False)
        strats_on(rep, s, ['hpivot_simp', 'zh_simp', 'from_hyper', 'to_hyper'])


def fam_big(rep, hubs, leaves, sizes, kinds, bopts, per, strats, i, m):
    """regular diagrams with H-boxes and spiders of many legs"""
    for s in slice_iter(big.specs(hubs, leaves, lo=sizes[0], hi=sizes[1], kinds=kinds, hb=bopts[0], lb=bopts[1], etypes=bopts[2]), i, m):
        rep.sample(s.show())
        rules_on(rep, s, list(RULES), per=per)
        strats_on(rep, s, strats)


def fam_trees(rep, hp, leaves, na, nb, pk, i, m):
    for s in slice_iter(big.trees(hp, leaves, na, nb, pk=pk), i, m):
        rep.sample(s.show())
        rules_on(rep, s, list(RULES), per=False)
        strats_on(rep, s, list(STRATS))


def bigpar(nt, phases, modes, extra):
    """two or three H-boxes with nt legs each: the legs' kinds run through all rotations and all near-uniform patterns"""
    pats = set()
    for a in modes:
        for b in modes:
            for k in range(nt + 1):
                pats.add((a,) * k + (b,) * (nt - k))
            pats.add(tuple((a, b)[j % 2] for j in range(nt)))
    pats = sorted(pats)
    for p1 in pats:
        for p2 in pats if extra else [p1, tuple(modes[0] if x else x for x in p1), p1[::-1]]:
            for ph in phases:
                verts = [V(Z, 0)] * nt
                edges = []
                for p, l in zip(ph, (p1, p2, p1)):
                    hi = len(verts)
                    verts.append(V(HBOX, p))
                    for t, mode in enumerate(l):
                        if mode == 1:
                            edges.append((hi, t, 1))
                        elif mode in (2, 3):
                            verts.append(V(X, 1) if mode == 2 else V(Z, 1))
                            edges += [(hi, len(verts) - 1, mode - 1), (len(verts) - 1, t, mode - 1)]
                yield with_boundaries(verts, edges, [(1,)] * nt + [()] * (len(verts) - nt))


def fam_bigpar(rep, nt, phases, modes, extra, strats, i, m):
    for s in slice_iter(bigpar(nt, phases, modes, extra), i, m):
        rep.sample(s.show())
        rules_on(rep, s, ['par_hbox', 'par_hbox_intro', 'parallel_not', 'hpivot', 'zero_hbox'], per=False)
        strats_on(rep, s, strats)


def bighyper(nt, sizes, phases, wires):
    """pairs of H-boxes with many legs over nt white spiders and single phases on them"""
    subs = [c for k in sizes for c in itertools.combinations(range(nt), k)]
    for a, b in itertools.combinations_with_replacement(subs, 2):
        for pa, pb in phases:
            for w in wires:
                verts = [V(Z, (0, 1)[j == 0 and a == b]) for j in range(nt)] + [V(HBOX, pa), V(HBOX, pb)]
                edges = [(nt, t, 1) for t in a] + [(nt + 1, t, 1) for t in b]
                yield with_boundaries(verts, edges, [w[j % len(w)] for j in range(nt)] + [()] * 2)


def fam_bighyper(rep, nt, sizes, phases, wires, i, m):
    for s in slice_iter(bighyper(nt, sizes, phases, wires), i, m):
        rep.sample(s.show())
        rules_on(rep, s, ['hpivot', 'par_hbox', 'par_hbox_intro', 'zero_hbox'], per=False)
        strats_on(rep, s, ['hpivot_simp', 'zh_simp', 'from_hyper', 'to_hyper'])


# -- circuits with multiply-controlled gates --------------------------------------------------------------
def fam_circuits(rep, n, depth, names, i, m):
    import circ
    al = circ.alphabet(n, names)
    for sq in slice_iter(circ.sequences(al, depth), i, m):
        key = circ.show(n, sq)
        rep.state(key)
        rep.sample(key)
        u = circ.unitary(n, sq)
        for name in ('zh_simp', 'hpivot_simp', 'to_from_hyper'):
            with rep.case('%s %s' % (name, key), dict(strategy=name)):
                g = circ.circuit(n, sq).to_graph()
                try:
                    attempt(STRATS[name], g)
                except Refused:
                    rep.outcome(name + ':refused')
                    continue
                rep.step()
                require(circ.up_to_phase(u, ref.matrix(g)), '%s changed the unitary of the circuit', name)
                rep.outcome(name)


FAMILIES = dict(trees=fam_trees, big=fam_big, bigpar=fam_bigpar, bighyper=fam_bighyper, mrules=fam_mrules, multi=fam_multi, rules=fam_rules, strats=fam_strats, par=fam_par, hyper=fam_hyper, circuits=fam_circuits)
B = ((), (1,), (2,), (1, 1))
KH = (V(HBOX, 1), V(HBOX, h), V(HBOX, 0), V(HBOX, q))
K1 = KH + (V(Z, 0), V(Z, 1), V(Z, q), V(X, 0), V(X, 1), V(X, h))
K3 = (V(HBOX, 1), V(HBOX, q), V(Z, 0), V(Z, 1), V(X, 0), V(X, 1))
SUB = ['hadamard_simp', 'copy_simp', 'hspider_simp', 'to_hyper', 'from_hyper', 'to_from_hyper', 'zh_simp', 'hpivot_simp']


def tasks(tier):
    deep = tier == 'thorough'
    T = []

    def add(fam, args, n):
        for i in range(n):
            T.append((fam, tuple(args) + (i, n)))
    add('rules', (1, KH, B + ((1, 1, 1), (1, 1, 2), (1, 2))), 1)
    add('rules', (2, K1, B), 8)
    add('rules', (3, K3 if not deep else K1, ((), (1,)) if not deep else ((), (1,), (2,))), 64 if deep else 24)
    add('strats', (1, KH, B + ((1, 1, 1), (1, 1, 2), (1, 2)), list(STRATS)), 1)
    add('strats', (2, K1, B, list(STRATS)), 16)
    add('strats', (3, K3, ((), (1,)), list(STRATS) if deep else ['zh_simp', 'hpivot_simp', 'to_from_hyper']), 48)
    add('mrules', (2, K1, B, list(STRATS)), 8)
    add('mrules', (3, K3, ((), (1,)), list(STRATS) if deep else ['zh_simp', 'hpivot_simp', 'to_from_hyper']), 48)
    for raw in (False, True):      # without automatic simplification only the ZH rewrites are meant for parallel edges and loops
        nm = [x for x in (list(STRATS) if deep else SUB) if not raw or x != 'zh_simp']
        if deep:
            add('multi', (2, KH + (V(Z, 0), V(Z, q), V(X, 1)), 2, nm, raw), 16)
            add('multi', (3, (V(HBOX, 1), V(Z, 0)), 1, nm, raw), 32)
        else:
            add('multi', (2, (V(HBOX, 1), V(HBOX, h), V(Z, 0)) + (() if raw else (V(X, 1),)), 2, nm, raw), 8)
    add('par', (2, 2, (1, q, F(7, 4)), (0, 1, 2, 3), 0, (1,), ['par_hbox_simp', 'par_hbox_intro_simp']), 8)
    add('par', (1, 2, (1, q, h), (0, 1, 2, 3, 4, 5, 6, 7, 8), 0, (1,), ['parallel_not_simp', 'par_hbox_intro_simp', 'zh_simp']), 8)
    add('par', (2, 1, (1, q), (0, 1, 2, 3, 4, 5, 6, 7, 8), q, (1,), ['parallel_not_simp', 'hpivot_simp', 'zh_simp']), 8)
    add('par', (2, 2, (1, q), (1, 2, 4, 6), 0, (1,), ['parallel_not_simp']), 8)
    add('par', (2, 3, (1,), (1, 2), 0, (1,), ['par_hbox_simp', 'par_hbox_intro_simp']), 4)
    add('par', (1, 3, (1, q), (0, 1, 2, 7), 0, (1,), ['par_hbox_simp', 'zh_simp']), 4)
    add('par', (1, 2, (1, q), (1, 2, 3, 7) + tuple(range(10, 10 + len(NEAR))), 0, (1,), ['par_hbox_simp', 'par_hbox_intro_simp', 'zh_simp']), 8)
    add('par', (2, 2, (1,), (1, 2, 3) + tuple(range(10, 10 + len(NEAR))), 0, (1,), ['par_hbox_intro_simp'] if deep else []), 16)
    add('hyper', (3, (o, q), (((), (1,), (1,)), ((), (), (1,)), ((), (), ()))), 16)
    add('hyper', (4, (o,), (((), (), (1,), (1,)),)) if not deep else
        (4, (o,), (((), (), (1,), (1,)), ((), (1,), (1,), (1,)), ((), (), (), (1,)), ((),) * 4)), 64)
    add('circuits', (3, 2, ['CCZ', 'Tof', 'HAD', 'CNOT', 'T', 'NOT']), 8)
    SH = ('star', 'two hubs', 'bipartite', 'double star', 'wheel', 'cycle', 'complete')
    HP = ((V(HBOX, 1), V(HBOX, q)), (V(HBOX, 1), V(Z, 0)), (V(Z, q), V(HBOX, h)), (V(HBOX, 1), V(X, 0)))
    LT = ((V(Z, 0), V(X, 1)), (V(HBOX, 1), V(Z, 0), V(Z, q)))
    for lv in LT:
        for na in ((3, 4, 5) if deep else (4,)):
            add('trees', (HP, lv, (na,), (1, 3) if deep else (1,), (V(HBOX, 1), V(Z, 0), V(X, 1)) if deep else (V(HBOX, 1),)), 16 if deep else 4)
    L1, L2 = (V(Z, 0), V(X, 1), V(Z, q)), (V(HBOX, 1), V(Z, 0), V(HBOX, q))
    if deep:
        for lv in (L1, L2):
            add('big', (K1, lv, (4, 5), SH, (((), (1,)), ((), (1,)), ((1, 1), (2, 2), (1, 2))), True, list(STRATS)), 64)
        for nt in (3, 4, 5):
            add('bigpar', (nt, ((1, 1), (q, q), (q, F(7, 4), h)), (0, 1, 2, 3), nt < 5, ['par_hbox_simp', 'par_hbox_intro_simp', 'zh_simp']), 32)
        add('bighyper', (5, (3, 4, 5), ((1, 1), (q, 1)), (((),), ((1,), ()), ((1,),))), 32)
        add('bighyper', (6, (3, 5, 6), ((1, 1),), (((),), ((1,), (), ()))), 32)
    else:
        add('big', ((V(HBOX, 1), V(HBOX, q), V(Z, 0), V(X, 1)), L1, (4, 4), SH[:4], (((), (1,)), ((),), ((1, 1), (1, 2))), False, SUB), 8)
        add('big', ((V(HBOX, h), V(Z, q), V(X, 0)), L2, (4, 4), SH[:3], (((1,),), ((),), ((1, 1), (2, 2))), False, SUB), 8)
        add('bigpar', (4, ((1, 1), (q, q)), (1, 2, 3), False, ['par_hbox_simp', 'par_hbox_intro_simp', 'zh_simp']), 8)
        add('bigpar', (5, ((q, q),), (0, 1, 2), False, ['parallel_not_simp', 'zh_simp']), 8)
        add('bighyper', (4, (3, 4), ((1, 1), (q, 1)), (((),), ((1,), ()), ((1,),))), 8)
        add('bighyper', (5, (4, 5), ((1, 1),), (((),), ((1,), ()))), 8)
    if deep:
        add('circuits', (3, 3, ['CCZ', 'Tof', 'HAD', 'CNOT', 'T', 'NOT']), 64)
        add('par', (3, 2, (1, q), (0, 1, 2), 0, (1,), ['par_hbox_simp', 'par_hbox_intro_simp']), 32)
        add('par', (2, 3, (1, q), (1, 2, 3), 0, (1,), ['par_hbox_simp', 'par_hbox_intro_simp']), 32)
        add('strats', (4, (V(HBOX, 1), V(Z, 0), V(X, 1)), ((), (1,)), ['zh_simp']), 64)
        add('rules', (4, (V(HBOX, 1), V(Z, 0), V(X, 1)), ((), (1,))), 64)
    return T


ASSUME = ['H-box phases are multiples of pi/4', 'a ValueError "unreducible parallel edge" by the simple graph backend counts as a refusal',
          'zero_hbox is only applied where its documentation allows (all neighbours white, plain edges)']
BOUNDS = 'all ZH diagrams with <=3 (4) nodes over the listed kinds, all H-box pairs over <=2 (3) white spiders with every NOT pattern, all hypergraph diagrams on <=4 spiders'


def run():
    return core.main('C06', FAMILIES, tasks, ASSUME, BOUNDS)
