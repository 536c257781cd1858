"""Large but regular diagrams and circuits: a formula or a loop may only go wrong from some size on.
Every family below has a fixed shape and a few free parameters, which are enumerated completely."""
import itertools
from fractions import Fraction as F
from ref import BOUNDARY, Z, X, HBOX, ZBOX, SIMPLE, HAD
from diag import V, Spec, with_boundaries, pairs


def shapes(lo=4, hi=6):
    """(name, number of vertices, edges, hubs): the hubs come first"""
    for n in range(lo, hi + 1):
        yield 'star%d' % n, n + 1, [(0, 1 + j) for j in range(n)], 1
        yield 'path%d' % (n + 1), n + 1, [(j, j + 1) for j in range(n)], 1
        yield 'cycle%d' % n, n, [(j, (j + 1) % n) for j in range(n)], 1
        yield 'wheel%d' % n, n + 1, [(0, 1 + j) for j in range(n)] + [(1 + j, 1 + (j + 1) % n) for j in range(n)], 1
        yield 'two hubs%d' % n, n + 2, [(0, 1)] + [(h, 2 + j) for h in (0, 1) for j in range(n)], 2
        yield 'bipartite%d' % n, n + 2, [(h, 2 + j) for h in (0, 1) for j in range(n)], 2
        yield 'double star%d' % n, n + 2, [(0, 1)] + [(j % 2, 2 + j) for j in range(n)], 2
        yield 'isolated%d' % n, n, [], 1
    for n in range(lo, min(hi, 5) + 1):
        yield 'complete%d' % n, n, pairs(n), 1


def specs(hubs, leaves, etypes=((1, 1), (2, 2), (1, 2)), hb=((), (1,)), lb=((), (1,), (2,)), lo=4, hi=5, maxb=8, first=True, io=None, kinds=None):
    """hubs, leaves: vertex kinds (the leaves' phases rotate through the list from every start);
    etypes: edge types that alternate; hb, lb: boundaries at the hubs and at the leaves"""
    for name, n, es, nh in shapes(lo, hi):
        if kinds is not None and name.rstrip('0123456789') not in kinds:
            continue
        for h in hubs:
            for r in range(len(leaves)):
                verts = [h] * nh + [leaves[(r + j) % len(leaves)] for j in range(n - nh)]
                for et in etypes:
                    edges = [(a, b, et[j % len(et)]) for j, (a, b) in enumerate(es)]
                    for b1 in hb:
                        for b2 in lb:
                            if nh * len(b1) + (n - nh) * len(b2) > maxb:
                                continue
                            yield with_boundaries(verts, edges, [b1] * nh + [b2] * (n - nh), first=first, io=io)


def gl(phases=(F(0), F(1, 4), F(1), F(1, 2), F(7, 4)), hubs=(F(0), F(1, 2), F(1), F(1, 4)), rot=None, **kw):
    """graph-like ones: Z spiders, Hadamard edges, plain boundaries"""
    kw.setdefault('hb', ((), (1,)))
    kw.setdefault('lb', ((), (1,)))
    return specs([V(Z, p) for p in hubs], [V(Z, p) for p in phases], etypes=((2,),), **kw)


def trees(hub_pairs, leaves, na=(2, 3, 4), nb=(1, 3), het=(1, 2), let=((1,), (1, 2)), pend=(None, 'b'), pk=()):
    """two adjacent hubs of the given kinds, with na and nb leaves; the last (or first) leaf of each hub is extended by nothing,
    a boundary or a further spider of a kind in pk"""
    for h1, h2 in hub_pairs:
        for r1 in range(len(leaves)):
            for a in na:
                for b in nb:
                    for e in het:
                        for le in let:
                            for p in tuple(pend) + tuple(pk):
                                for where in (0, -1) if p is not None else (0,):
                                    verts = [h1, h2]
                                    edges = [(0, 1, e)]
                                    bnd = [(), ()]
                                    for hub, n, rot in ((0, a, r1), (1, b, r1 + 1)):
                                        ls = []
                                        for j in range(n):
                                            edges.append((hub, len(verts), le[j % len(le)]))
                                            ls.append(len(verts))
                                            verts.append(leaves[(rot + j) % len(leaves)])
                                            bnd.append(())
                                        if p == 'b':
                                            bnd[ls[where]] = (1,)
                                        elif p is not None:
                                            edges.append((ls[where], len(verts), 1))
                                            verts.append(p)
                                            bnd.append((1,))
                                    yield with_boundaries(verts, edges, bnd, first=True)


# -- circuits out of whole layers: many gates, few parameters ---------------------------------------------------
def _layer(name, n):
    q = range(n)
    one = {'H': ['HAD'], 'He': ['HAD', None], 'Ho': [None, 'HAD'], 'S': ['S'], 'Sr': ['S', 'Z', 'S*', None], 'X': [None, 'NOT'], 'T': ['T'],
           'Tr': ['T', 'T*', 'S', None], 'Tz': ['T', None, 'T', 'Z', 'T*'], 'V': ['SX', None, 'SX*']}
    if name in one:
        p = one[name]
        return [(p[j % len(p)], (j,), ()) for j in q if p[j % len(p)]]
    if name in ('Px', 'Pz', 'Pd'):     # general phases
        p = {'Px': ('XPhase', F(1, 4)), 'Pz': ('ZPhase', F(3, 4)), 'Pd': ('ZPhase', F(1, 3))}[name]
        return [(p[0], (j,), (p[1],)) for j in q]
    if name == 'M':                    # reverse the wires
        return [('SWAP', (j, n - 1 - j), ()) for j in range(n // 2)]
    if name == 'R':                    # rotate the wires
        return [('SWAP', (j, j + 1), ()) for j in range(n - 1)]
    if name[0] == '@':                 # any gate, on all windows of wires
        import circ
        ar, k = circ.GATES[name[1:]][:2]
        ps = [F(1, 4), F(1, 2), F(1, 3), F(3, 4)] if name != '@FSim' else [F(1, 2), F(1, 3)]
        return [(name[1:], tuple(range(j, j + ar))[::-1 if j % 2 else 1], tuple(ps[:k])) for j in range(n - ar + 1)]
    g, shape = {'c': 'CNOT', 'z': 'CZ', 'y': 'CCZ', 't': 'Tof'}[name[0]], name[1:]
    if g in ('CCZ', 'Tof'):
        return [(g, ((j + (shape == 'o')) % n, (j + 1) % n, (j + 2) % n), ()) for j in range(0, n - 2, 1 if shape == 'p' else 2)]
    es = {'p': [(j, j + 1) for j in range(n - 1)],            # chain
          'u': [(j + 1, j) for j in reversed(range(n - 1))],  # chain upwards
          's': [(0, j) for j in range(1, n)],                 # star
          'i': [(j, n - 1) for j in range(n - 1)],            # star into the last wire
          'k': [(a, b) for a in q for b in range(a + 1, n)],  # complete
          'o': [(j, (j + 1) % n) for j in q],                 # ring
          'e': [(j, j + 1) for j in range(0, n - 1, 2)],      # brick walls
          'd': [(j, j + 1) for j in range(1, n - 1, 2)],
          'x': [(j, n - 1 - j) for j in range(n // 2)]}[shape]
    return [(g, e, ()) for e in es]


CLIFF = ('H', 'He', 'S', 'Sr', 'X', 'cp', 'ci', 'zp', 'zk', 'zo', 'zx', 'M')


def layers(n, menu, lengths, reps=()):
    """(names, gate sequence): all words over the menu of the given lengths; with reps also words repeated"""
    for k in lengths:
        for w in itertools.product(menu, repeat=k):
            for r in (1,) + tuple(reps):
                yield '%dx %s' % (r, ' '.join(w)) if r > 1 else ' '.join(w), [x for _ in range(r) for l in w for x in _layer(l, n)]


def mixed(lo=4, hi=6, step=1, ground=False):
    """diagrams with all kinds of vertices (every step-th one)"""
    ks = [V(Z, F(1, 4)), V(X, F(3, 4)), V(HBOX, F(1, 2)), V(ZBOX, 0, 2 + 1j), V(X, 0), V(HBOX, 1), V(Z, 1)]
    if ground:
        ks.append(V(Z, F(1, 4), None, True))
    it = specs([V(Z, F(1, 4)), V(HBOX, 1), V(X, F(1, 2))], ks, lo=lo, hi=hi, hb=((), (1,)), lb=((), (2,), (1,)), maxb=7)
    return itertools.islice(it, 0, None, step)
