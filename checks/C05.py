"""C05: interactive rewrites (basicrules) and editor operations: an accepted rewrite preserves the diagram,
a refused one leaves it untouched, asking changes nothing."""
import itertools
from fractions import Fraction as F
import core
from core import require, slice_iter
import ref
from ref import BOUNDARY, Z, X, HBOX, WIN, WOUT, ZBOX, SIMPLE, HAD, WIO
from diag import V, build, spec_of, with_boundaries, canon_graphs, kind_multisets
import C01, big
import pyzx as zx
from pyzx import basicrules as B, rules, editor_actions as E

q, h, o = F(1, 4), F(1, 2), F(1)
ONE = {'color_change': (B.check_color_change, B.color_change), 'copy_X': (B.check_copy_X, B.copy_X),
       'copy_Z': (B.check_copy_Z, B.copy_Z), 'pi_commute_X': (B.check_pi_commute_X, B.pi_commute_X),
       'pi_commute_Z': (B.check_pi_commute_Z, B.pi_commute_Z), 'remove_id': (B.check_remove_id, B.remove_id)}
TWO = {'strong_comp': (B.check_strong_comp, B.strong_comp), 'fuse': (B.check_fuse, B.fuse)}


def dump(g, scalar=True):
    """Everything observable about a graph."""
    return (sorted((v, int(g.type(v)), str(g.phase(v)), g.qubit(v), g.row(v), g.is_ground(v),
                    tuple(sorted((k, str(g.vdata(v, k))) for k in g.vdata_keys(v)))) for v in g.vertices()),
            sorted((tuple(sorted(g.edge_st(e))), int(g.edge_type(e))) for e in g.edges()),
            tuple(g.inputs()), tuple(g.outputs()), not scalar or abs(ref.scalar_value(g.scalar) - 1) < 1e-9)


def basic_case(rep, s, backend, name, check, op, args, base, key, cell):
    with rep.case('%s%s %s %s' % (name, args, backend, key), dict(rule=name, backend=backend)):
        if cell[0] is None:      # the diagram is rebuilt after every rewrite; refusals must leave it as it was
            g = build(s, backend)
            cell[:] = [g, dump(g)]
        g, d0 = cell
        cell[0] = None
        ok = check(g, *args)
        require(ok in (True, False), 'check_%s returns %r', name, ok)
        require(dump(g) == d0, 'check_%s changes the diagram', name)
        try:
            r = op(g, *args)
        except ValueError as ex:
            if ok and 'unreducible parallel edge' in str(ex):
                rep.outcome('%s:refused' % name)
                return
            raise
        rep.outcome('%s:%s' % (name, bool(ok)))
        require(bool(r) == bool(ok), 'check_%s says %s but %s returns %s', name, ok, name, r)
        if ok:
            rep.step()
            after = ref.value(g)
            require(after.shape == base.shape, '%s changed the inputs/outputs', name)
            tol = ref.close(base, after, 1e-6) or (any(v[0] == ZBOX for v in s.verts) and abs(base - after).max() < 1e-6)
            require(tol, '%s changed the linear map or scalar: %s', name, C01.ratio(base, after))
        else:
            require(dump(g) == d0, '%s was refused but changed the diagram', name)
            cell[0] = g


def basic_spec(rep, s, backend):
    key = s.show()
    if not rep.state(backend + key):
        return
    base = s.value()
    n = len(s.verts)
    cell = [None, None]
    for name, (c, f) in ONE.items():
        for v in range(n):
            basic_case(rep, s, backend, name, c, f, (v,), base, key, cell)
    for name, (c, f) in TWO.items():
        for v in range(n):
            for w in range(n):
                if v != w:
                    basic_case(rep, s, backend, name, c, f, (v, w), base, key, cell)


def zx_specs(n, kinds0, bopts, maxb=4, colors=(0, 1, 2)):
    kinds = [(k, b) for k in kinds0 for b in bopts]
    for c, sizes in kind_multisets(kinds, n):
        ks = [kinds[i] for i in c]
        if sum(len(k[1]) for k in ks) > maxb:
            continue
        for es in canon_graphs(sizes, colors):
            yield with_boundaries([k[0] for k in ks], es, [k[1] for k in ks])


def fam_basic(rep, n, kinds, bopts, backend, i, m):
    for s in slice_iter(zx_specs(n, kinds, bopts), i, m):
        rep.sample(s.show())
        basic_spec(rep, s, backend)


def fam_basicw(rep, i, m):
    for s in slice_iter(C01.w_specs(), i, m):
        rep.sample(s.show())
        basic_spec(rep, s, 'simple')


def fam_basicwire(rep, i, m):
    """identity spiders next to bare wires and boundaries"""
    def specs():
        for ets in itertools.product((1, 2), repeat=2):
            for k in (V(Z, 0), V(X, 0), V(ZBOX, 0, 1.0), V(HBOX, 0), V(HBOX, 1), V(Z, 1), V(ZBOX, 0, 2.0)):
                for wire in (0, 1, 2):
                    s = with_boundaries([k], [], [ets])
                    if wire:
                        a = len(s.verts)
                        s.verts += [V(BOUNDARY), V(BOUNDARY)]
                        s.edges.append((a, a + 1, wire))
                        s.ins.append(a)
                        s.outs.append(a + 1)
                    yield s
    for s in slice_iter(specs(), i, m):
        for be in ('simple', 'multigraph'):
            basic_spec(rep, s, be)


# -- editor operations ------------------------------------------------------------------------------
def editor_spec(rep, s, ops, subsets=2, feats=None, backend='simple'):
    key = s.show() + ('' if backend == 'simple' else ' ' + backend)
    if not rep.state('ed' + key):
        return
    base = s.value()
    nv = len(s.verts)
    cell = [None, None]
    for name in ops:
        opr = E.operations[name]
        byv = opr['type'] == E.MATCHES_VERTICES
        if byv:
            items = list(range(nv))
        else:
            items = [(a, b) for a, b, _ in s.edges]
        sels = [tuple(items), 'everything']
        if subsets:
            sels += [(x,) for x in items] + [p for p in itertools.combinations(items, 2) if len(items) > 2 and subsets > 1]
        for sel in sels:
            if not sel:
                continue
            with rep.case('%s %s %s' % (name, sel, key), dict(feats or {}, op=name)):
                if cell[0] is None:
                    g = build(s, backend)
                    cell[:] = [g, dump(g)]
                g, d0 = cell
                cell[0] = None
                if sel == 'everything':
                    m = opr['matcher'](g, lambda e: True) if name == 'pivot' else opr['matcher'](g)
                elif byv:
                    st = set(sel)
                    m = opr['matcher'](g, lambda v: v in st)
                else:
                    st = set(tuple(sorted(x)) for x in sel)
                    m = opr['matcher'](g, lambda e: tuple(sorted(g.edge_st(e))) in st)
                rep.outcome('%s:%d' % (name, min(len(m), 3)))
                if not m:
                    require(dump(g) == d0, 'the matcher of %s found nothing but changed the diagram', name)
                    cell[0] = g
                    continue
                try:
                    rules.apply_rule(g, opr['rule'], m)
                except ValueError as ex:
                    if 'unreducible parallel edge' in str(ex):   # this backend cannot represent the result and says so
                        rep.outcome('%s:refused' % name)
                        continue
                    raise
                rep.step()
                after = ref.value(g)
                require(after.shape == base.shape, 'inputs/outputs changed')
                ok = ref.close(base, after, 1e-6) or (name == 'z_to_z_box' and abs(base - after).max() < 1e-6)
                require(ok, 'editor operation %s changed the linear map or scalar: %s', name, C01.ratio(base, after))


def fam_editor(rep, n, kinds, bopts, ops, i, m):
    for s in slice_iter(zx_specs(n, kinds, bopts), i, m):
        rep.sample(s.show())
        editor_spec(rep, s, ops)


def fam_editorm(rep, n, kinds, bopts, sub, i, m):
    for s in slice_iter(zx_specs(n, kinds, bopts), i, m):
        rep.sample(s.show())
        editor_spec(rep, s, ALLOPS, sub, None, 'multigraph')


def fam_editorp(rep, n, kinds, mult, i, m):
    """diagrams with parallel edges and loops"""
    for s in slice_iter(C01.multi_specs(n, kinds, mult), i, m):
        rep.sample(s.show())
        editor_spec(rep, s, ALLOPS, 0, None, 'multigraph')


def fam_editorw(rep, sub, i, m):
    for s in slice_iter(C01.w_specs(), i, m):
        rep.sample(s.show())
        editor_spec(rep, s, ALLOPS, sub)


LEAVES = ((V(Z, 0), V(X, o), V(Z, q)), (V(X, 0), V(Z, o), V(X, q)), (V(HBOX, 1), V(Z, 0), V(HBOX, h)), (V(ZBOX, 0, 2.0), V(X, F(3, 2)), V(Z, 0), V(HBOX, 1)))


def fam_big(rep, hubs, leaves, sizes, kinds, bopts, backend, what, i, m):
    """regular diagrams with spiders of many legs"""
    for s in slice_iter(big.specs(hubs, leaves, lo=sizes[0], hi=sizes[1], kinds=kinds, hb=bopts[0], lb=bopts[1], etypes=bopts[2]), i, m):
        rep.sample(s.show())
        if what == 'basic':
            basic_spec(rep, s, backend)
        else:
            editor_spec(rep, s, ALLOPS, 1, None, backend)


def fam_trees(rep, hp, leaves, na, nb, pk, what, i, m):
    for s in slice_iter(big.trees(hp, leaves, na, nb, pk=pk), i, m):
        rep.sample(s.show())
        if what == 'basic':
            basic_spec(rep, s, 'simple')
        else:
            editor_spec(rep, s, ALLOPS, 1)


PAULIOPS = ['pauli', 'bialgebra', 'copy', 'spider', 'fuse_hbox', 'euler']
ALLOPS = [k for k in E.operations]
FAMILIES = dict(trees=fam_trees, big=fam_big, basic=fam_basic, basicw=fam_basicw, basicwire=fam_basicwire, editor=fam_editor, editorw=fam_editorw, editorm=fam_editorm, editorp=fam_editorp)
B3 = ((), (1,), (2,))
K1 = (V(Z, 0), V(Z, q), V(Z, h), V(Z, o), V(X, 0), V(X, q), V(X, F(3, 2)), V(X, o), V(ZBOX, 0, 1.0), V(ZBOX, 0, 2 + 1j), V(HBOX, 1),
      V(HBOX, 0), V(HBOX, h))
K2 = (V(Z, 0), V(X, 0), V(Z, q), V(X, o), V(Z, o), V(HBOX, 1))
K3 = (V(Z, 0), V(X, o), V(ZBOX, 0, 2.0), V(X, 0))


def tasks(tier):
    deep = tier == 'thorough'
    T = []

    def add(fam, args, n):
        for i in range(n):
            T.append((fam, tuple(args) + (i, n)))
    add('basic', (1, K1, B3 + ((1, 1), (1, 2), (1, 1, 1), (1, 1, 2)), 'simple'), 2)
    add('basic', (2, K1, B3, 'simple'), 16)
    add('basic', (2, K1 if deep else K2, B3, 'multigraph'), 16)
    add('basic', (3, K2 if deep else (V(Z, q), V(X, o), V(Z, 0)), ((), (1,)), 'simple'), 32)
    add('basic', (3, K3 if deep else (V(X, 0), V(ZBOX, 0, 2.0), V(X, o)), ((), (1,)), 'simple'), 16)
    if deep:
        add('basic', (2, K2, B3 + ((1, 1), (1, 2)), 'simple'), 32)
        add('basic', (3, K2[:4], ((), (1,)), 'multigraph'), 32)
        add('basic', (4, (V(Z, 0), V(X, o)), ((),), 'simple'), 32)
    SH = ('star', 'two hubs', 'bipartite', 'double star', 'wheel', 'complete', 'cycle')
    for lv in LEAVES:
        for what in ('basic', 'editor'):
            if deep:
                add('big', (K1, lv, (4, 6), SH, (((), (1,), (2,)), ((), (1,)), ((1, 1), (2, 2), (1, 2))), 'simple', what), 32)
                add('big', (K2, lv, (4, 5), SH, (((), (1,)), ((),), ((1, 1), (1, 2))), 'multigraph', what), 16)
            else:
                add('big', (K1 if lv is LEAVES[0] else K2, lv, (4, 4), SH[:4], (((1,),), ((),), ((1, 1), (1, 2), (2, 2))), 'simple', what), 4)
                add('big', (K2, lv, (5, 5), SH[:1], (((),), ((1,),), ((1, 1), (1, 2))), 'multigraph', what), 2)
    HP = ((V(Z, 0), V(X, 0)), (V(HBOX, 1), V(X, 0)), (V(X, o), V(Z, q)), (V(Z, h), V(Z, 0)), (V(HBOX, 1), V(HBOX, 1)), (V(ZBOX, 0, 2.0), V(X, o)))
    LT = ((V(X, 0),), (V(Z, 0),), (V(X, 0), V(Z, 0), V(HBOX, 1)), (V(Z, q), V(X, o)))
    for lv in LT:
        for what in ('basic', 'editor'):
            add('trees', (HP if deep else HP[:3], lv, (3, 4) if deep else (4,), (1, 3) if deep else (2,), (V(Z, 0), V(X, 0), V(HBOX, 1)) if deep else (V(Z, 0),), what), 8 if deep else 2)
    add('basicw', (), 8)
    add('basicwire', (), 4)
    add('editor', (1, K1, B3 + ((1, 1), (1, 2), (1, 1, 1), (1, 1, 2)), ALLOPS), 2)
    add('editor', (2, K1, ((), (1,), (2,), (1, 1)) if deep else ((), (1,)), ALLOPS), 16)
    add('editor', (3, K2, ((), (1,)), ALLOPS), 64) if deep else add('editor', (3, K2[:4], ((), (1,)), ALLOPS), 32)
    add('editor', (3, (V(HBOX, 1), V(HBOX, h), V(Z, 0), V(Z, o)), ((),) if not deep else ((), (1,)), ALLOPS), 16)
    add('editor', (2, (V(X, 0), V(Z, 0), V(Z, o), V(HBOX, 1), V(HBOX, h), V(X, o)), ((), (1, 1), (2, 1, 1)), PAULIOPS), 8)
    add('editorm', (2, K1 if deep else K2, ((), (1,)), 1), 16)
    add('editorp', (2, K2 if deep else (V(Z, 0), V(X, 0), V(X, o), V(HBOX, 1)), 2), 16)
    if deep:
        add('editorp', (3, (V(Z, 0), V(X, 0), V(X, o)), 1), 32)
        add('editorm', (3, K2[:4], ((), (1,)), 1), 32)
    add('editorw', (2 if deep else 1,), 8)
    return T


ASSUME = ['phases are multiples of pi/4; labels of Z-boxes made from spiders are rounded to 8 decimals by design (tolerance 1e-6)']
BOUNDS = 'all diagrams with <=3 spiders over the listed kinds, every vertex / ordered pair, every selection of <=2 and of all items'


def run():
    return core.main('C05', FAMILIES, tasks, ASSUME, BOUNDS)
