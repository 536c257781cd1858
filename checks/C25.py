"""C25: symbolic phases: operations against evaluation at all assignments, printing/parsing, and rewriting of symbolic diagrams."""
import copy, itertools
from fractions import Fraction as F
import core, ref
from core import require, slice_iter
import circ
from diag import V, Spec, build, canon_graphs, kind_multisets
from ref import Z, X, HBOX, BOUNDARY
import pyzx as zx
from pyzx.symbolic import Poly, Term, Var, new_var, new_const, parse

NAMES = dict(a=False, b=False, x=True, y=True)
ENVS = [dict(a=a, b=b, x=x, y=y) for a, b in ((F(3, 10), F(-17, 10)), (F(2), F(1, 2)), (F(1), F(5))) for x in (0, 1) for y in (0, 1)]


def ev(p, env):
    """value of a polynomial, read through its terms"""
    if not isinstance(p, Poly):
        return p
    r = 0
    for c, t in p.terms:
        v = c
        for var, n in t.vars:
            v = v * env[var.name] ** n
        r = r + v
    return r


def mod2(v):
    if isinstance(v, complex):
        return v
    d = float(v) % 2
    return min(d, 2 - d)


def even(v):
    if isinstance(v, complex) and abs(v.imag) > 1e-9:
        return False
    return mod2(v.real if isinstance(v, complex) else v) < 1e-7


def types():
    return dict(NAMES)


def atoms(level):
    t = types()
    a, b, x, y = (new_var(n, t) for n in 'abxy')
    cs = [new_const(c) for c in ((0, 1, F(1, 2), -1) if level < 2 else (0, 1, -1, 3, F(1, 2), F(3, 2), F(-1, 3), 0.25))]
    return [a, b, x, y] + cs


def key(p):
    return tuple(sorted((str(c), tuple(sorted((v.name, n) for v, n in t.vars))) for c, t in p.terms))


def polys(level):
    """all polynomials that one operation (two for level 2) makes from the atoms"""
    at = atoms(level)
    out = {}
    for p in at:
        out.setdefault(key(p), p)
    for p in at:
        for q in (-p, 2 * p, p * F(1, 2), p ** 2, p % 2):
            out.setdefault(key(q), q)
    for p, q in itertools.product(at, repeat=2):
        for r in (p + q, p * q, p - q):
            out.setdefault(key(r), r)
    if level > 1:
        base = list(out.values())
        for p in base:
            for q in at[:4]:
                for r in (p * q, p + q):
                    out.setdefault(key(r), r)
    return list(out.values())


def vals(p):
    return [ev(p, e) for e in ENVS]


def agree(r, f, what):
    for e, w in zip(ENVS, f):
        require(even(ev(r, e) - w), '%s is %s, whose value at %s is %s instead of %s', what, r, {k: str(v) for k, v in e.items()}, ev(r, e), w)


def canonical(p):
    return p % 2


def fam_pairs(rep, level, i, k):
    ps = polys(level)
    vs = [vals(p) for p in ps]
    for m, n in slice_iter(itertools.product(range(len(ps)), repeat=2), i, k):
        p, q = ps[m], ps[n]
        ky = '%s , %s' % (p, q)
        rep.state(ky)
        with rep.case(ky, {}):
            kp, kq = key(p), key(q)
            s, d, pr = p + q, p - q, p * q
            rep.step(3)
            agree(s, [x + y for x, y in zip(vs[m], vs[n])], 'the sum')
            agree(d, [x - y for x, y in zip(vs[m], vs[n])], 'the difference')
            agree(pr, [x * y for x, y in zip(vs[m], vs[n])], 'the product')
            require(s == q + p and pr == q * p, 'not commutative')
            require(p + 0 * q == p + 0 and s - q == p + 0, 'adding and subtracting does not cancel')
            same = all(even(x - y) for x, y in zip(vs[m], vs[n]))
            c, e = canonical(s), canonical(d)
            cp, cq = canonical(p + 0), canonical(q + 0)
            require((cp == cq) == same, 'equality is %s, the functions are %s', cp == cq, 'equal' if same else 'different')
            require((cp == cq) == (not (cp != cq)) and (cq == cp) == (cp == cq), '== is not symmetric')
            if cp == cq:
                require(hash(cp) == hash(cq), 'equal expressions have different hashes')
            if p == q:
                require(hash(p) == hash(q), 'equal expressions have different hashes')
                require(same, 'different expressions are equal')
            require(key(p) == kp and key(q) == kq, 'the operands were changed')
            rep.outcome('equal' if same else 'different')


def fam_triples(rep, i, k):
    at = atoms(1)
    t = types()
    a, x, y = (new_var(n, t) for n in 'axy')
    at = at + [a + x, x * y, a * x + F(1, 2), x + y + 1, 2 * a]
    for p, q, r in slice_iter(itertools.product(at, repeat=3), i, k):
        ky = '%s , %s , %s' % (p, q, r)
        rep.state(ky)
        with rep.case(ky, {}):
            rep.step(3)
            require((p + q) + r == p + (q + r), 'addition is not associative')
            for l, m, what in ((p * (q * r), (p * q) * r, 'multiplication is not associative'), (p * (q + r), p * q + p * r, 'not distributive')):
                # coefficients of Boolean products only matter modulo two, so that a reduced factor is a different number
                full = [ev(p, e) * (ev(q, e) * ev(r, e) if what[0] == 'm' else ev(q, e) + ev(r, e)) for e in ENVS]
                if all(even(ev(z, e) - w) for z in (l, m) for e, w in zip(ENVS, full)):
                    require(canonical(l) == canonical(m), what)
            agree(p * (q + 0), [u * v for u, v in zip(vals(p), vals(q))], 'the product')


def fam_unary(rep, level, i, k):
    """numbers on either side, negation, powers, reduction, substitution, printing and parsing, predicates"""
    for p in slice_iter(polys(level), i, k):
        rep.state(key(p))
        with rep.case(str(p), {}):
            kp = key(p)
            v = vals(p)
            agree(-p, [-x for x in v], 'the negative')
            for c in (0, 1, 2, -1, F(1, 2), F(-3, 4), 0.5, 3):
                rep.step(8)
                agree(p + c, [x + c for x in v], 'p + %s' % c)
                agree(c + p, [x + c for x in v], '%s + p' % c)
                agree(p - c, [x - c for x in v], 'p - %s' % c)
                agree(c - p, [c - x for x in v], '%s - p' % c)
                agree(p * c, [x * c for x in v], 'p * %s' % c)
                agree(c * p, [x * c for x in v], '%s * p' % c)
                if c:
                    agree(p / c, [x / c for x in v], 'p / %s' % c)
                const = all(x == v[0] for x in v) and not p.free_vars()
                require((p == c) == (const and v[0] == c), 'p == %s is %s', c, p == c)
                require((p in (c,)) == (p == c) and (p != c) != (p == c), 'comparison with %s', c)
                if p == c:
                    require(hash(p) == hash(c), 'hash differs from that of the equal number %s', c)
            for n in range(5):
                r = p ** n
                # the powers are computed by repeated multiplication of reduced expressions
                w = [1] * len(v)
                q = new_const(1)
                for _ in range(n):
                    w = [x * y for x, y in zip(vals(q), v)]
                    q = q * p
                require(canonical(r) == canonical(q), 'power %d', n)
                agree(r, w, 'power %d' % n)
            agree(p % 2, v, 'p % 2')
            for c, t in (p % 2).terms:
                if all(NAMES[x.name] for x, _ in t.vars):
                    require(0 < c < 2, 'not reduced: %s', p % 2)
            for c, t in (p * p + p).terms:
                require(all(n == 1 for x, n in t.vars if NAMES[x.name]), 'a Boolean variable has a power: %s', p * p + p)
                require(c != 0, 'a zero term: %s', p * p + p)
            # substitution
            vs = sorted(p.free_vars(), key=lambda x: x.name)
            require({x.name for x in vs} == {x.name for _, t in p.terms for x, _ in t.vars}, 'free_vars is %s', vs)
            for r in range(len(vs) + 1):
                for sub in itertools.combinations(vs, r):
                    for e in ENVS[::2] if r else ENVS[:1]:
                        rep.step()
                        q = p.substitute({x: e[x.name] for x in sub})
                        require({x.name for x in q.free_vars()} <= {x.name for x in vs if x not in sub}, 'variables are left')
                        for f in ENVS:
                            g = dict(f, **{x.name: e[x.name] for x in sub})
                            require(even(ev(q, g) - ev(p, g)), 'substituting %s in %s gives %s', {x.name: str(e[x.name]) for x in sub}, p, q)
            # printing and parsing
            q = p + 0
            t2 = types()
            for s in (str(q), str(p), '(%s)' % q):
                r = parse(s, lambda n: new_var(n, t2))
                require(canonical(r) == canonical(q), 'parsing %r gives %s', s, r)
                agree(r, v, 'the parsed expression')
            require(repr(p) == 'Poly(%s)' % p, 'repr')
            # predicates
            vals_bool = [ev(p, e) for e in ENVS]
            names = {x.name for x in p.free_vars()}
            const = not any(not NAMES[n] for n in names)
            if p.is_pauli:
                require(const and all(float(x) % 1 == 0 for x in vals_bool), 'is_pauli')
            elif const:
                require(any(float(x) % 1 != 0 for x in vals_bool), 'not is_pauli, but always 0 or pi')
            if p.is_clifford:
                require(const and all(float(2 * x) % 1 == 0 for x in vals_bool), 'is_clifford')
            elif const and all(float(c) % 1 == 0 for c, t in q.terms if t.vars):
                require(any(float(2 * x) % 1 != 0 for x in vals_bool), 'not is_clifford, but always a multiple of pi/2')
            c = p.copy()
            require(c == p and key(c) == kp, 'copy')
            c.terms.append((5, Term([])))
            require(key(p) == kp, 'the operand was changed')
    # types follow the dictionary until they are frozen
    if i == 0:
        with rep.case('freeze', {}):
            t = dict(z=False)
            z = new_var('z', t)
            z2 = new_var('z', t)
            z2.freeze()
            t['z'] = True
            require(z.is_pauli and not z2.is_pauli, 'freeze')
            require(z * z == z, 'not reduced')
        for bad in ('', '+', 'a+', '2**a', '(a', 'a)', 'a b', '1/', '*a'):
            with rep.case('bad %s' % bad, {}):
                try:
                    r = parse(bad, lambda n: new_var(n, False))
                except Exception:
                    continue
                require(False, '%r is read as %s', bad, r)


def fam_powers(rep, i, k):
    """negative powers of products of continuous variables, division by constant expressions, degrees, copies of variables"""
    t = types()
    x, y = new_var('a', t), new_var('b', t)
    envs = [dict(a=u, b=w) for u in (F(1, 2), F(-2), F(3)) for w in (F(1), F(-1, 3), F(5, 2))]
    for c, m, n in slice_iter(itertools.product((1, 2, -1, F(1, 2), F(-3, 4), 0.5), range(-3, 4), range(-3, 4)), i, k):
        p = Poly([(c, Term([(v.terms[0][1].vars[0][0], e) for v, e in ((x, m), (y, n)) if e]))])
        f = lambda e: c * e['a'] ** m * e['b'] ** n
        for r in range(-3, 4):
            with rep.case('power %s %d' % (p, r), {}):
                rep.state((str(c), m, n, r))
                rep.step()
                q = p ** r
                for e in envs:
                    require(abs(float(ev(q, e)) - float(f(e)) ** r) < 1e-9 * max(1, abs(float(f(e)) ** r)), 'is %s', q)
                if not isinstance(c, float):
                    require(q * p ** -r == 1, 'times the inverse power is %s', q * p ** -r)
                    require(all(isinstance(a, (int, F)) for a, _ in q.terms), 'not exact: %s', q)
        with rep.case('degree %s' % p, {}):
            require(p.degree == m + n, 'is %s', p.degree)
            require((p + 7 * x ** 3).degree == max(m + n, 3), 'of the sum: %s', (p + 7 * x ** 3).degree)
    if i:
        return
    z = new_var('x', t)
    for p in polys(1):
        for c in (1, 2, -1, F(1, 2), F(-3, 4)):
            with rep.case('divide %s by %s' % (p, c), {}):
                rep.step()
                require(p / new_const(c) == p / c, 'is %s', p / new_const(c))
    for p, bad in itertools.product((z, x + y, x + 1, z * x), (-1, -2)):
        with rep.case('power %s %d' % (p, bad), {}):
            try:
                q = p ** bad
            except Exception:
                continue
            require(False, 'is %s', q)
    with rep.case('division by zero', {}):
        for zero in (0, new_const(0), Poly([])):
            try:
                q = x / zero
            except ZeroDivisionError:
                continue
            require(False, 'x / 0 is %s', q)
    # copies of variables keep their types, frozen or not
    for b, frozen, make in itertools.product((False, True), (False, True), (copy.copy, copy.deepcopy)):
        with rep.case('copy %s %s %s' % (b, frozen, make.__name__), {}):
            rep.step()
            d = dict(z=b)
            v = new_var('z', d).terms[0][1].vars[0][0]
            if frozen:
                v.freeze()
            w = make(v)
            require(w == v and hash(w) == hash(v) and w.name == 'z' and w.is_bool == b, 'differs')
            d['z'] = not b
            require(v.is_bool == (b if frozen else not b), 'type of the variable')
            require(w.is_bool == v.is_bool, 'type of the copy')


# ---------------------------------------------------------------- reading expressions
def fam_parse(rep, i, k):
    """expressions written by hand, with every combination of coefficient, sign, spaces"""
    cs = [('', 1), ('2', 2), ('1/2', F(1, 2)), ('3/4*', F(3, 4)), ('2*', 2), ('pi*', 1), ('\\pi*', 1), ('3pi/4*', F(3, 4)), ('pi/2*', F(1, 2))]
    vs = [('a', 'a'), ('x', 'x'), ('a*x', 'ax'), ('x*y', 'xy'), ('b*a', 'ab'), ('x*x', 'x')]
    mono = [(c + v, cv, vv) for c, cv in cs for v, vv in vs] + [('1', 1, ''), ('1/2', F(1, 2), ''), ('pi', 1, ''), ('pi/4', F(1, 4), ''), ('3pi/4', F(3, 4), ''), ('0', 0, '')]
    for (s, c, v), (t, d, w) in slice_iter(itertools.product(mono, repeat=2), i, k):
        for sep in ('+', ' + '):
            e = s + sep + t
            rep.state(e)
            with rep.case(e, {}):
                rep.step()
                ty = types()
                p = parse(e, lambda n: new_var(n, ty))
                for env in ENVS:
                    x = c
                    for n in v:
                        x *= env[n]
                    y = d
                    for n in w:
                        y *= env[n]
                    require(even(ev(p, env) - x - y), '%s is read as %s', e, p)


# ---------------------------------------------------------------- symbolic diagrams
def sym(t):
    a, b, x, y = (new_var(n, t) for n in 'abxy')
    return dict(a=a, b=b, x=x, y=y, ah=a + F(1, 2), aq=a + F(1, 4), xh=x + F(1, 2), xq=x + F(1, 4), x2=x * F(1, 2), xy=x + y, xm=x * y, x1=x + 1, na=-a, nx=-x,
                zero=a - a, one=a - a + 1)


DENVS = [dict(a=a, b=b, x=x, y=y) for a, b in ((0.3, 1.45), (0.5, 0), (1, 1.5)) for x in (0, 1) for y in (0, 1)]
SIMPS = ['spider_simp', 'id_simp', 'copy_simp', 'supplementarity_simp', 'pivot_simp', 'pivot_gadget_simp', 'pivot_boundary_simp', 'lcomp_simp', 'bialg_simp',
         'gadget_simp', 'to_gh', 'to_rg', 'to_graph_like', 'interior_clifford_simp', 'clifford_simp', 'phase_free_simp', 'full_reduce', 'reduce_scalar',
         'z_to_z_box_simp', 'zh_simp']


def sspecs(n, phases, bs, colors, xs=False):
    kinds = [(p, b, t) for p in phases for b in bs for t in ((Z, X) if xs else (Z,))]
    for c, sizes in kind_multisets(kinds, n):
        ks = [kinds[j] for j in c]
        for es in canon_graphs(sizes, colors):
            verts, edges, outs = [V(k[2], 0) for k in ks], list(es), []
            for j, (_, b, _) in enumerate(ks):
                for _ in range(b):
                    edges.append((j, len(verts), 1))
                    outs.append(len(verts))
                    verts.append(V(BOUNDARY))
            yield [k[0] for k in ks], Spec(verts, edges, outs[:len(outs) // 2], outs[len(outs) // 2:])


def diag_case(rep, ps, s, backend, simps):
    def mk():
        g = build(s, backend)
        g.variable_types = types()
        d = sym(g.variable_types)
        for j, p in enumerate(ps):
            q = d[p] if isinstance(p, str) else p
            g.set_phase(j, q)
        return g
    shown = '%s %s' % (','.join(map(str, ps)), s.show())
    rep.state(shown)
    g0 = mk()
    want = []
    for e in DENVS:
        t = Spec([V(v[0], mod2f(ref.num(g0.phase(j), e)) if v[0] != BOUNDARY else 0) for j, v in enumerate(s.verts)], s.edges, s.ins, s.outs)
        want.append(t.value())
    with rep.case('build %s %s' % (backend, shown), dict(op='build', backend=backend)):
        for e, w in zip(DENVS, want):
            require(ref.close(ref.value(g0, e), w), 'harness')
        require(all(ref.close(ref.value(substituted(g0, e)), w) for e, w in zip(DENVS[::5], want[::5])), 'substituting changes the diagram')
    for op in simps:
        if op not in AVAIL or (op == 'copy_simp' and any(e[2] == 1 for e in s.edges if s.verts[e[0]][0] != BOUNDARY and s.verts[e[1]][0] != BOUNDARY)):
            continue  # copy_simp is documented for fused diagrams
        with rep.case('%s %s %s' % (op, backend, shown), dict(op=op, backend=backend)):
            rep.step()
            g = mk()
            kw = {} if op in ('to_gh', 'to_rg', 'to_graph_like', 'reduce_scalar') else dict(quiet=True)
            try:
                getattr(zx.simplify, op)(g, **kw)
            except ValueError as ex:
                if backend == 'simple' and 'unreducible parallel edge' in str(ex):
                    rep.outcome('refused')
                    continue
                raise
            for e, w in zip(DENVS, want):
                if g.scalar.is_unknown:
                    require(any(isinstance(x, str) for x in ps), 'unknown scalar')
                    r = ref.value(g, e, scalar=False)
                    require(ref.prop(r, w) or abs(w).max() < 1e-9, 'another map at %s', e)
                else:
                    require(ref.close(ref.value(g, e), w), 'another map at %s', e)
            require(g.is_well_formed(), 'not well-formed')
            rep.outcome('unknown scalar' if g.scalar.is_unknown else 'same map')


def mod2f(x):
    return float(x) % 2


def substituted(g, env):
    h = g.copy()
    for v in h.vertices():
        p = h.phase(v)
        if isinstance(p, Poly):
            q = p.substitute({x: env[x.name] for x in p.free_vars()})
            require(not q.free_vars(), 'variables are left')
            h.set_phase(v, F(float(ev(q, {}))).limit_denominator(10 ** 6))
    return h


AVAIL = [n for n in SIMPS if hasattr(zx.simplify, n)]


def fam_diag(rep, n, phases, bs, colors, xs, backend, simps, i, k):
    for ps, s in slice_iter(sspecs(n, phases, bs, colors, xs), i, k):
        if not any(isinstance(p, str) for p in ps):
            continue
        diag_case(rep, ps, s, backend, simps or AVAIL)


# ---------------------------------------------------------------- circuits with symbolic phases
def fam_circ(rep, n, depth, i, k):
    """optimise and extract circuits with symbolic rotations"""
    from pyzx.circuit import Circuit
    t = types()
    d = sym(t)
    al = [('ZPhase', q, p) for q in range(n) for p in ('a', 'x', 'xh', 'x2')] + [('HAD', q, None) for q in range(n)] + [('T', q, None) for q in range(n)] + \
         [('XPhase', 0, 'b')] + [('CNOT', q, r) for q in range(n) for r in range(n) if q != r] + ([('CZ', 0, 1)] if n > 1 else [])
    for seq in slice_iter(itertools.product(al, repeat=depth), i, k):
        if not any(isinstance(p, str) for _, _, p in seq):
            continue
        c = Circuit(n)
        for g, q, p in seq:
            if g in ('CNOT', 'CZ'):
                c.add_gate(g, q, p)
            elif p is None:
                c.add_gate(g, q)
            else:
                c.add_gate(g, q, phase=d[p])
        ky = ' '.join('%s%s%s' % (g, q, '' if p is None else ',%s' % p) for g, q, p in seq)
        rep.state(ky)
        for how in ('graph', 'clifford', 'full'):
            with rep.case('%s %s' % (how, ky), dict(how=how)):
                rep.step()
                g = c.to_graph()
                g.variable_types = types()
                want = [ref.matrix(g, e) for e in DENVS[::2]]
                if how == 'clifford':
                    zx.simplify.clifford_simp(g, quiet=True)
                elif how == 'full':
                    zx.simplify.full_reduce(g, quiet=True)
                elif how == 'graph':
                    zx.simplify.to_graph_like(g)
                else:
                    g = g.copy()
                c2 = zx.extract_circuit(g)
                g2 = c2.to_graph()
                require(all(ref.prop(ref.matrix(g2, e), w) for e, w in zip(DENVS[::2], want)), 'another unitary')
                rep.outcome(how)


def fam_divide(rep, n, i, k):
    """exact divisions: a product of two expressions in continuous variables divided by one of them is the other"""
    t = types()
    x, y = new_var('a', t), new_var('b', t)
    cs = (0, 1, -1, F(1, 2), 3)
    mono = [new_const(1), x, y, x * y, x * x]
    vals = [(u, w) for u in (F(1, 2), F(-2), F(3)) for w in (F(1), F(-1, 3), F(5, 2))]
    lin = [c for c in itertools.product(cs, repeat=5) if 1 <= sum(1 for a in c if a) <= n]
    mk = lambda c: sum((a * m for a, m in zip(c, mono)), Poly([]))
    small = [c for c in lin if sum(1 for a in c if a) <= 2 and set(c) <= {0, 1, -1, F(1, 2)}]
    for c, d in slice_iter(((c, d) for c in lin for d in small), i, k):
        p, q = mk(c), mk(d)
        with rep.case('(%s) * (%s) / itself' % (p, q), {}):
            rep.state((c, d))
            rep.step()
            r = (p * q) / q
            require(r == p, 'is %s', r)
            require(r.degree == p.degree, 'degree')
    for c in slice_iter(lin, i, k):
        p = mk(c)
        for m, n, a in itertools.product((-2, -1, 0, 1, 2), (-1, 0, 1), (1, -2, F(2, 3))):
            if not (m or n):
                continue
            q = a * x ** m * y ** n
            with rep.case('(%s) / (%s)' % (p, q), {}):
                rep.step()
                r = p / q
                require(r * q == p, 'is %s', r)
                for e in (dict(a=u, b=w) for u, w in vals):
                    require(ev(r, e) == F(ev(p, e)) / ev(q, e), 'value at %s', e)


FAMILIES = dict(divide=fam_divide, powers=fam_powers, pairs=fam_pairs, triples=fam_triples, unary=fam_unary, parse=fam_parse, diag=fam_diag, circ=fam_circ)


def tasks(tier):
    deep = tier == 'thorough'
    T = []

    def add(fam, args, n):
        for i in range(n):
            T.append((fam, tuple(args) + (i, n)))
    add('pairs', (1,), 16)
    add('unary', (1,), 4)
    add('unary', (2,), 16)
    add('triples', (), 8)
    add('parse', (), 4)
    add('powers', (), 4)
    add('divide', (3 if deep else 2,), 16)
    allp = ('a', 'x', 'xh', 'x2', 'aq', 'xy', 'xm', 'nx', 'one', 'zero')
    for be in ('simple', 'multigraph'):
        add('diag', (1, allp + (0, 1, F(1, 2)), (0, 1, 2), (0,), True, be, None), 2)
        add('diag', (2, allp + (0, 1, F(1, 2), F(1, 4)), (0, 1), (0, 1, 2), False, be, None), 16)
        add('diag', (2, ('a', 'x', 'xh', 0, F(1, 2)), (0, 1, 2), (0, 1, 2), True, be, None), 16)
    add('diag', (3, ('a', 'x', 'xh', 0, F(1, 4)), (0, 1), (0, 2), False, 'simple', ['pivot_simp', 'lcomp_simp', 'pivot_gadget_simp', 'pivot_boundary_simp', 'gadget_simp', 'copy_simp', 'full_reduce', 'supplementarity_simp']), 64)
    add('diag', (3, ('a', 'x', 'nx', F(1, 4)), (0, 1), (0, 2), False, 'multigraph', ['pivot_simp', 'gadget_simp', 'full_reduce']), 32)
    add('diag', (4, ('x', 'a', 0) if deep else ('x', 0), (0, 1), (0, 2), False, 'simple', ['pivot_simp', 'pivot_gadget_simp', 'gadget_simp', 'full_reduce']), 64)
    add('circ', (1, 3 if not deep else 4), 8)
    add('circ', (2, 2 if not deep else 3), 16 if not deep else 64)
    if deep:
        add('pairs', (2,), 256)
        add('diag', (3, ('a', 'x', 'xh', 'x2', 0, F(1, 2), F(1, 4)), (0, 1), (0, 1, 2), False, 'simple', None), 256)
        add('diag', (4, ('x', 'xy', F(1, 2), 0), (0, 1), (0, 2), False, 'simple', ['pivot_simp', 'lcomp_simp', 'full_reduce']), 128)
    return T


ASSUME = ['expressions are phases: values and the coefficients of products of Boolean variables are compared modulo two (multiples of 2 pi)',
          'division is only considered by numbers, by products of continuous variables, and where there is no remainder; negative powers only of continuous variables; coefficients are real numbers',
          'a rewrite may lose the scalar of a symbolic diagram when it says so (is_unknown)']
BOUNDS = dict(quick='all expressions made by <=2 operations from 4 variables and constants, all pairs of those with one operation; all symbolic diagrams with <=3 spiders (4 with Boolean phases) and all circuits with <=3 gates',
              thorough='all pairs of two-operation expressions; more phases, deeper circuits')


def run():
    return core.main('C25', FAMILIES, tasks, ASSUME, BOUNDS)
