"""C23: global scalars against complex arithmetic, for all sequences of operations up to a depth."""
import cmath, itertools, math, re
from fractions import Fraction as F
import core, ref
from core import require, slice_iter
import pyzx as zx
from pyzx.graph.scalar import Scalar
from pyzx.symbolic import Poly, Term, Var, new_var

R2 = math.sqrt(2)
PH = [F(k, 4) for k in range(8)] + [F(1, 3), F(5, 3), F(2, 3), F(4, 3), F(1, 8), F(15, 8), F(3, 8), F(13, 8), F(9, 8)]


def pair(a, b):
    """<a|H|b> for spiders of one leg"""
    a, b = ref.cexp(float(a)), ref.cexp(float(b))
    return (1 + a + b - a * b) / R2


FL = [2.0, -1, 1j, 0.5 + 0.5j, 1 / 3]


def others():
    r = []
    for k in range(5):
        s = Scalar()
        if k == 0:
            s.add_power(3)
            s.add_node(F(1, 3))
        elif k == 1:
            s.add_phase(F(7, 4))
            s.add_float(1 - 2j)
        elif k == 2:
            s.add_node(1)
        elif k == 3:
            s.add_spider_pair(F(1, 4), F(1, 3))
            s.add_phase(1)
        r.append(s)
    return r


OTHERS = others()
OTHER_VAL = [2 * R2 * (1 + cmath.exp(1j * math.pi / 3)), cmath.exp(1.75j * math.pi) * (1 - 2j), 0, -pair(F(1, 4), F(1, 3)), 1]
OPS = ([('power', n) for n in (1, -1, 2, -3)] + [('phase', p) for p in (F(1, 4), F(1, 2), F(1), F(7, 4), F(1, 3), F(-1, 2), 1)] +
       [('node', p) for p in (0, F(0), 1, F(1), F(1, 2), F(3, 2), F(1, 4), F(1, 3), F(7, 4))] +
       [('float', f) for f in FL + [0]] + [('mult', k) for k in range(5)] + [('copy', c) for c in (0, 1, 2)] + [('json', 0), ('unset', 0)] +
       [('pair', p) for p in ((0, F(1, 4)), (F(1, 3), 0), (1, F(1, 4)), (F(1, 4), F(1)), (F(1, 2), F(1, 2)), (F(3, 2), F(1, 2)), (F(1, 3), F(1, 2)),
                              (F(1, 4), F(7, 4)), (F(3, 4), F(5, 4)), (F(1, 3), F(5, 3)), (F(1, 4), F(1, 3)), (F(3, 4), F(3, 4)))])


def apply(s, v, o):
    """(scalar after, value after)"""
    n, a = o
    if n == 'power':
        s.add_power(a)
        return s, v * R2 ** a
    if n == 'phase':
        s.add_phase(a)
        return s, v * ref.cexp(float(a))
    if n == 'node':
        s.add_node(a)
        return s, (0 if a == 1 else v * (1 + ref.cexp(float(a))))
    if n == 'float':
        s.add_float(a)
        return s, v * a
    if n == 'pair':
        s.add_spider_pair(*a)
        w = pair(*a)
        return s, (0 if abs(w) < 1e-12 else v * w)
    if n == 'mult':
        o = OTHERS[a]
        d = dict(o.__dict__, phasenodes=list(o.phasenodes))
        s.mult_with_scalar(o)
        require(o.__dict__ == d, 'the other factor was changed')
        return s, v * OTHER_VAL[a]
    if n == 'copy':
        t = s.copy() if a == 0 else s.copy(conjugate=True) if a == 1 else s.conjugate()
        before = s.to_number()
        w = t.copy()
        for x in (w,):
            x.add_power(1)
            x.add_node(F(1, 5))
            x.add_phase(F(1, 3))
            x.add_float(0)
        require(ref.close(s.to_number(), before) and ref.close(t.to_number(), v if a == 0 else complex(v).conjugate()), 'copies are not independent')
        t2 = s.copy()
        s.add_node(F(1, 5))
        s.add_float(0)
        require(ref.close(t2.to_number(), v) and not (t2.is_zero and v), 'the copy follows the original')
        return t, v if a == 0 else complex(v).conjugate()
    if n == 'json':
        js = s.to_json()
        require(isinstance(js, str), 'not a string')
        t = Scalar.from_json(js)
        require(isinstance(t, Scalar) and t.is_unknown == s.is_unknown and t.is_zero == s.is_zero, 'flags are lost')
        require(Scalar.from_json(js).to_json() == t.to_json(), 'not reproducible')
        return t, v
    if n == 'unset':
        return s, v
    raise AssertionError(n)


def num(t):
    """the complex number printed by python"""
    return complex(t.replace(' ', ''))


def read_latex(t):
    if t in ('0', ''):
        return 0 if t else 1
    require(t[0] == '$' and t[-1] == '$', 'latex %r', t)
    t = t[1:-1]
    m = re.match(r'^(?P<f>-|\([^)]*\)|[-+0-9.ej]*?)(\\sqrt\{2\}\^\{(?P<p>-?\d+)\})?(\\exp\(i~\\frac\{(?P<n>-?\d*)\\pi\}\{(?P<d>\d+)\}\))?$', t)
    require(m, 'latex %r', t)
    f = m.group('f')
    v = 1 if f == '' else -1 if f == '-' else num(f)
    if m.group('p'):
        v *= R2 ** int(m.group('p'))
    if m.group('d'):
        v *= ref.cexp(int(m.group('n') or 1) / int(m.group('d')))
    return v


SUP = {c: str(i) for i, c in enumerate('\u2070\u00b9\u00b2\u00b3\u2074\u2075\u2076\u2077\u2078\u2079')}
UF = {'\u00bc': F(1, 4), '\u00bd': F(1, 2), '\u00be': F(3, 4)}


def read_unicode(t):
    if t == '0':
        return 0
    m = re.match('^(?P<f>-|\\([^)]*\\)|[-+0-9.ej]*?)(\u221a2(?P<s>\u207b)?(?P<p>[%s]+))?(exp\\(i(?P<q>[^)]*)\u03c0\\))?$' % ''.join(SUP), t)
    require(m, 'unicode %r', t)
    f = m.group('f')
    v = 1 if f == '' else -1 if f == '-' else num(f)
    if m.group('p'):
        v *= R2 ** ((-1 if m.group('s') else 1) * int(''.join(SUP[c] for c in m.group('p'))))
    if m.group('q') is not None:
        q = m.group('q')
        v *= ref.cexp(float(UF[q] if q in UF else F(q)))
    return v


def read_str(t):
    """(the rounded number, the product, its rounding error)"""
    m = re.match(r'^(-?[\d.]+)([+-][\d.]+)i = (.*)$', t)
    require(m, 'text %r', t)
    head = complex(float(m.group(1)), float(m.group(2)))
    rest = m.group(3)
    v, err = 1, 0
    m = re.match(r'^(-?[\d.]+)([+-][\d.]+)i', rest)
    if m:
        v, err = complex(float(m.group(1)), float(m.group(2))), 0.0075
        rest = rest[m.end():]
    w = 1
    while rest:
        m = re.match(r'^exp\(([-\d/]+)ipi\)|^sqrt\(2\)\^(-?\d+)|^\(1\+exp\(([-\d/]+)ipi\)\)', rest)
        require(m, 'text %r', t)
        if m.group(1):
            w *= ref.cexp(float(F(m.group(1))))
        elif m.group(2):
            w *= R2 ** int(m.group(2))
        else:
            w *= 1 + ref.cexp(float(F(m.group(3))))
        rest = rest[m.end():]
    return head, v * w, err * abs(w)


def near(a, b, tol):
    return abs(a - b) <= tol


def check(s, v, text):
    n = s.to_number()
    require(abs(n - v) <= 1e-9 * max(1, abs(v)), 'value is %s instead of %s', n, v)
    require(complex(s) == n, 'complex() differs')
    require(bool(s.is_zero) == (v == 0), 'is_zero is %s, the value is %s', s.is_zero, v)
    require(not s.is_unknown, 'is_unknown')
    if not text:
        return
    tol = 2e-3 * max(1, abs(v)) + 1e-9
    h, p, err = read_str(str(s))
    require(near(h, v, 0.0075 + 1e-9), 'text says %s, value is %s', str(s), v)
    if not s.is_zero:
        require(near(p, v, err + 1e-9 * max(1, abs(v))), 'the product in the text %s is %s', str(s), p)
    require(repr(s) == 'Scalar(%s)' % s, 'repr')
    m = re.match(r'^([\d.e+-]+)( \* exp\(i pi \* (-?[\d.e+-]+)\))?$', s.polar_str())
    require(m, 'polar %s', s.polar_str())
    q = float(m.group(1)) * ref.cexp(float(m.group(3) or 0))
    require(near(q, v, 0.01 * abs(v) + 1e-9), 'polar form says %s, value is %s', s.polar_str(), v)
    l = s.to_latex()
    require(near(read_latex(l), v, tol), 'latex %s, value is %s', l, v)
    u = s.to_unicode()
    require(near(read_unicode(u), v, tol), 'unicode %s, value is %s', u, v)


def fam_seq(rep, depth, ops, text, i, k):
    ops = [o for o in OPS if ops is None or o[0] in ops]
    for seq in slice_iter(itertools.product(ops, repeat=depth), i, k):
        if depth > 1 and seq[-1][0] == 'unset':
            continue
        key = ' '.join('%s(%s)' % (n, a) for n, a in seq)
        with rep.case(key, dict(last=seq[-1][0])):
            s, v = Scalar(), 1.0
            for o in seq:
                s, v = apply(s, v, o)
                rep.step()
            rep.state((s.power2, str(s.phase), tuple(map(str, s.phasenodes)), str(s.floatfactor), s.is_zero))
            check(s, v, text)
            rep.outcome('zero' if v == 0 else 'value')


def fam_long(rep, reps, i, k):
    """long histories: one operation many times, another one many times, then a copy, a conversion or a product; also with
    poly phases in between left out"""
    ops = [o for o in OPS if o[0] in ('power', 'phase', 'node', 'float', 'pair', 'mult') and o != ('float', 0)]
    ends = [('unset', 0)] + [o for o in OPS if o[0] in ('copy', 'json', 'mult')]
    for a, b in slice_iter(itertools.product(ops, repeat=2), i, k):
        for x, y in reps:
            for e in ends:
                key = '%s(%s)x%d %s(%s)x%d %s(%s)' % (a + (x,) + b + (y,) + e)
                with rep.case(key, dict(last='long')):
                    s, v = Scalar(), 1.0
                    for o in [a] * x + [b] * y + [e]:
                        s, v = apply(s, v, o)
                        rep.step()
                    rep.state((s.power2, str(s.phase), tuple(map(str, s.phasenodes)), str(s.floatfactor), s.is_zero))
                    check(s, v, abs(v) > 0.05 and abs(v) < 1e6)
                    t = Scalar()
                    t.mult_with_scalar(s)
                    t.mult_with_scalar(s)
                    require(abs(t.to_number() - v * v) <= 1e-9 * max(1, abs(v * v)), 'the square is %s instead of %s', t.to_number(), v * v)


def fam_pairs(rep, den, i, k):
    """every pair of connected spiders with phases that are multiples of 1/den, also outside [0,2)"""
    ps = [F(j, den) for j in range(-den, 3 * den + 1)] + [0, 1]
    for a, b in slice_iter(itertools.product(ps, repeat=2), i, k):
        rep.state((a, b))
        with rep.case('%s %s' % (a, b), {}):
            rep.step()
            s = Scalar()
            s.add_spider_pair(a, b)
            v = pair(a, b)
            check(s, 0 if abs(v) < 1e-12 else v, True)


def fam_nodes(rep, den, i, k):
    """solitary spiders and phases with every phase, also outside [0,2)"""
    for j, l in slice_iter(itertools.product(range(-2 * den, 4 * den + 1), repeat=2), i, k):
        p, q = F(j, den), F(l, den)
        rep.state((p, q))
        with rep.case('%s %s' % (p, q), {}):
            rep.step()
            s = Scalar()
            s.add_node(p)
            s.add_phase(q)
            v = (1 + ref.cexp(float(p))) * ref.cexp(float(q))
            check(s, 0 if p % 2 == 1 else v, True)
            s = Scalar()
            s.add_phase(q)
            s.add_phase(p)
            check(s, ref.cexp(float(q + p)), True)


def fam_poly(rep, i, k):
    """symbolic phases: the value after substitution, or unknown"""
    types = {'a': False, 'b': True}
    a, b = new_var('a', types), new_var('b', types)
    ps = [a, b, a + F(1, 2), b * F(1, 2), a + b, 2 * a, a * b + 1]
    ops = [('phase', p) for p in ps] + [('node', p) for p in ps] + \
          [('pair', (p, q)) for p in ps[:3] for q in (0, 1, F(1, 2), F(1, 4), a)] + [('pair', (q, p)) for p in ps[:3] for q in (0, 1, F(1, 2), F(1, 4))] + \
          [('phase', F(1, 4)), ('float', 2j), ('mult', 0), ('mult', 2), ('power', 1), ('copy', 1), ('json', 0)]
    for seq in slice_iter(itertools.product(ops, repeat=2), i, k):
        key = ' '.join('%s(%s)' % (n, x) for n, x in seq)
        with rep.case(key, {}):
            s = Scalar()
            zero = False
            for n, x in seq:
                rep.step()
                if n == 'copy':
                    s = s.conjugate()
                elif n == 'json':
                    s = Scalar.from_json(s.to_json(), types)
                elif n == 'pair':
                    s.add_spider_pair(*x)
                elif n == 'mult':
                    s.mult_with_scalar(OTHERS[x])
                    zero |= x == 2
                else:
                    getattr(s, 'add_' + n)(x)
            rep.state(key)
            require(bool(s.is_zero) == zero, 'is_zero is %s', s.is_zero)
            str(s.to_latex())
            if s.is_unknown:
                require(any(n == 'pair' for n, _ in seq), 'unknown')
                require(zero or s.to_latex() == 'Unknown', 'unknown scalar is written as %s', s.to_latex())
                rep.outcome('unknown')
                continue
            for va, vb in ((.3, 0), (.3, 1), (1.7, 1), (0, 0)):
                env = dict(a=va, b=vb)
                v = 1
                for n, x in seq:
                    f = lambda y: float(ref.num(y, env))
                    if n == 'phase':
                        v *= ref.cexp(f(x))
                    elif n == 'node':
                        v *= 1 + ref.cexp(f(x))
                    elif n == 'pair':
                        v *= pair(f(x[0]), f(x[1]))
                    elif n == 'copy':
                        v = complex(v).conjugate()
                    elif n == 'mult':
                        v *= OTHER_VAL[x]
                    elif n == 'float':
                        v *= x
                    elif n == 'power':
                        v *= R2 ** x
                require(abs(ref.scalar_value(s, env) - v) < 1e-9 * max(1, abs(v)), 'value is %s instead of %s for %s', ref.scalar_value(s, env), v, env)
            rep.outcome('value')


def fam_flags(rep, i, k):
    """scalars that are marked as unknown or zero"""
    for seq in slice_iter(itertools.product(OPS, repeat=2), i, k):
        with rep.case(' '.join('%s(%s)' % o for o in [(a, str(b)) for a, b in seq]), {}):
            s = Scalar()
            s.set_unknown()
            for n, x in seq:
                rep.step()
                if n == 'copy':
                    s = s.copy(conjugate=bool(x))
                elif n == 'json':
                    s = Scalar.from_json(s.to_json())
                elif n == 'mult':
                    t = OTHERS[x].copy()
                    t.mult_with_scalar(s)
                    s = t
                elif n == 'pair':
                    s.add_spider_pair(*x)
                elif n != 'unset':
                    getattr(s, 'add_' + n)(x)
            rep.state(str(seq))
            require(s.is_unknown is True, 'an unknown scalar becomes %s', s.is_unknown)
            require(s.is_zero or (str(s) == 'UNKNOWN' and s.to_latex() == 'Unknown' and s.to_unicode() == 'Unknown'), 'unknown is not shown')


FAMILIES = dict(long=fam_long, seq=fam_seq, pairs=fam_pairs, nodes=fam_nodes, poly=fam_poly, flags=fam_flags)


def tasks(tier):
    deep = tier == 'thorough'
    T = []

    def add(fam, args, n):
        for i in range(n):
            T.append((fam, tuple(args) + (i, n)))
    add('seq', (1, None, True), 1)
    add('seq', (2, None, True), 4)
    add('seq', (3, None, True), 64)
    if deep:
        add('seq', (4, None, False), 256)
        add('seq', (5, ('power', 'phase', 'pair'), True), 256)
    add('long', (((4, 0), (5, 1), (4, 4)) if not deep else ((4, 0), (5, 1), (4, 4), (7, 0), (2, 5), (8, 3)),), 8)
    for den in (2, 3, 4, 5, 8, 12, 16) + ((24, 32, 40) if deep else ()):
        add('pairs', (den,), 4)
        add('nodes', (den,), 4)
    add('poly', (), 8)
    add('flags', (), 4)
    return T


ASSUME = ['symbolic pairs of spiders may make the scalar unknown']
BOUNDS = dict(quick='all sequences of <=3 operations from an alphabet of 46; all pairs and solitary spiders with phases k/n, n<=16, in [-1,3]',
              thorough='all sequences of 4; phases k/40')


def run():
    return core.main('C23', FAMILIES, tasks, ASSUME, BOUNDS)
