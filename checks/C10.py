"""C10: OpenQASM programs. All programs of a bounded grammar (statements x registers x broadcasting, angle expressions,
custom gates, layouts, versions, histories of one parser) against an independent evaluation of the program."""
import itertools, math
from fractions import Fraction as F
import numpy as np
import core
from core import require, slice_iter
import circ
import pyzx as zx
from pyzx.circuit.qasmparser import QASMParser, qasm
import C09

U = circ.circuit_unitary
HEAD = {2: 'OPENQASM 2.0;\ninclude "qelib1.inc";\n', 3: 'OPENQASM 3;\ninclude "stdgates.inc";\n'}
DEFP = {1: '(pi/4)', 2: '(pi/4,3*pi/2)', 3: '(pi/4,3*pi/2,-pi/3)', 4: '(pi/4,3*pi/2,-pi/3,pi)'}
DEFV = {0: (), 1: (F(1, 4),), 2: (F(1, 4), F(3, 2)), 3: (F(1, 4), F(3, 2), F(-1, 3)), 4: (F(1, 4), F(3, 2), F(-1, 3), F(1))}


def reads(rep, txt, n, ops, what, feats, must=True, parse=None):
    """ops: list of descriptors / matrices, or None when the program is invalid (must be rejected)."""
    with rep.case(txt if len(txt) < 700 else what, dict(feats)):
        rep.state(txt)
        rep.step()
        try:
            c = (parse or zx.Circuit.from_qasm)(txt)
        except Exception as e:
            require(ops is None or not must, 'a valid program is rejected (%s): %s %s', what, type(e).__name__, str(e)[:100])
            rep.outcome('rejected')
            return
        require(ops is not None, 'an invalid program is read (%s) as %s', what, c.gates)
        require(c.qubits == n, '%s: %d qubits instead of %d', what, c.qubits, n)
        u = mat(n, ops)
        require(circ.up_to_phase(u, U(c)), '%s: the circuit %s has another unitary than the program', what, c.gates)
        rep.outcome('read')


def mat(n, ops):
    return C09.mat(n, [(circ.gate_matrix(o), o[1]) if isinstance(o[0], str) else o for o in ops])


# -- statements and broadcasting ------------------------------------------------------------------------------------
REGS = [[('a', 1), ('b', 2), ('c', 2)], [('q', 3)], [('r1', 2), ('Q', 1)]]


def decl(regs, v):
    return ''.join(('qreg %s[%d];\n' if v == 2 else 'qubit[%d] %s;\n') % ((r, k) if v == 2 else (k, r)) for r, k in regs)


def operands(regs):
    off, out = 0, []
    for r, k in regs:
        out.append((r, [off + j for j in range(k)], True))
        for j in range(k):
            out.append(('%s[%d]' % (r, j), [off + j], False))
        off += k
    return out, off


def bad_operands(regs):
    r, k = regs[0]
    return ['%s[%d]' % (r, k), '%s[%d]' % (regs[-1][0], regs[-1][1]), 'zz', 'zz[0]', '%s[-1]' % r, '%s[]' % r, '%s[x]' % r]


def expand(nm, qs, sizes):
    """broadcast; None when invalid"""
    dims = {len(q) for q, whole in qs if whole}
    if len(dims) > 1:
        return None
    dim = dims.pop() if dims else 1
    ops = []
    for j in range(dim):
        a = tuple(q[j] if whole else q[0] for q, whole in qs)
        if len(set(a)) != len(a):
            return None
        ops.append((nm, a, DEFV[circ.GATES[nm][1]]))
    return ops


def fam_stmt(rep, ri, v, i, m):
    regs = REGS[ri]
    opnds, n = operands(regs)
    d = HEAD[v] + decl(regs, v)
    cases = []
    for q, nm in C09.QASM.items():
        ar, k = circ.GATES[nm][:2]
        for args in itertools.product(opnds, repeat=ar):
            cases.append((q, nm, k, args))
    for q, nm, k, args in slice_iter(cases, i, m):
        ps = DEFP.get(k, '')
        ops = expand(nm, [(a[1], a[2]) for a in args], None)
        reads(rep, d + '%s%s %s;\n' % (q, ps, ', '.join(a[0] for a in args)), n, ops, 'statement', dict(gate=q, what='statement'))


def fam_bad(rep, v):
    """wrong numbers of arguments or parameters, and references to nothing"""
    for regs in REGS:
        opnds, n = operands(regs)
        bits = [o[0] for o in opnds if not o[2]]
        d = HEAD[v] + decl(regs, v)
        for q, nm in C09.QASM.items():
            ar, k = circ.GATES[nm][:2]
            good = bits[:ar] if len(bits) >= ar else None
            for na in range(0, 5):
                if na != ar and na <= len(bits):
                    reads(rep, d + '%s%s %s;\n' % (q, DEFP.get(k, ''), ','.join(bits[:na])), n, None, '%d arguments' % na, dict(gate=q, what='arguments'))
            if good is None:
                continue
            for nk in range(0, 5):
                if nk != k:
                    reads(rep, d + '%s%s %s;\n' % (q, DEFP.get(nk, ''), ','.join(good)), n, None, '%d parameters' % nk, dict(gate=q, what='parameters'))
            for pos in range(ar):
                for b in bad_operands(regs):
                    a = list(good)
                    a[pos] = b
                    reads(rep, d + '%s%s %s;\n' % (q, DEFP.get(k, ''), ','.join(a)), n, None, 'operand %s' % b, dict(gate=q, what='operand'))
        for st in ('foo q[0]', 'opaque foo a', 'if(c==1) x %s' % bits[0], 'reset %s' % bits[0], 'ctrl @ x %s, %s' % (bits[0], bits[1]), 'inv @ s %s' % bits[0],
                   'pow(2) @ s %s' % bits[0], 'H %s' % bits[0], 'cxx %s,%s' % (bits[0], bits[1]), 'gphase(pi)', 'h%s' % bits[0], 'while (true) x %s' % bits[0],
                   'x', 'rz(pi', 'rz pi) %s' % bits[0]):
            reads(rep, d + st + ';\n', n, None, 'statement', dict(gate='-', what='unsupported'))
        for st in ('barrier %s' % bits[0], 'barrier %s,%s' % tuple(bits[:2]), 'id %s' % bits[0], 'creg cc[3]', 'barrier %s' % regs[0][0]) + \
                (('measure %s -> cc[0]' % bits[0], 'measure %s -> cc' % regs[0][0]) if v == 2 else ('bit[3] cc', 'cc[0] = measure %s' % bits[0])):
            reads(rep, d + 'h %s;\n%s;\nh %s;s %s;\n' % (bits[0], st, bits[0], bits[1]), n, [('S', (1,), ())], 'no-op statement', dict(gate='-', what='no-op'))
    # duplicate declarations, wrong headers
    for txt in ('qreg q[2];\nqreg q[3];\nx q[2];\n', ):
        reads(rep, HEAD[2] + txt, 5, None, 'register declared twice', dict(what='duplicate'))
    for txt in ('qreg q[1];\nx q[0];\n', 'OPENQASM 4.0;\ninclude "qelib1.inc";\nqreg q[1];\n', 'OPENQASM 2.0;\nqreg q[1];\nx q[0];\n',
                'OPENQASM 3;\ninclude "qelib1.inc";\nqubit[1] q;\n', 'OPENQASM 2.0;\ninclude "stdgates.inc";\nqreg q[1];\n', 'include "qelib1.inc";\nqreg q[1];'):
        reads(rep, txt, 1, None, 'wrong header', dict(what='header'))
    for txt in ('OPENQASM 2.0;\ninclude "qelib1.inc";\n', 'OPENQASM 2.1;\ninclude "qelib1.inc";\n', 'OPENQASM 2;\ninclude "qelib1.inc";\n'):
        reads(rep, txt + 'qreg q[1];x q[0];', 1, [('NOT', (0,), ())], 'header', dict(what='header'))
    for txt in ('OPENQASM 3;\ninclude "stdgates.inc";\n', 'OPENQASM 3.0;\ninclude "stdgates.inc";\n', 'OPENQASM 3.1;\ninclude "stdgates.inc";\n'):
        reads(rep, txt + 'qubit[1] q;x q[0];', 1, [('NOT', (0,), ())], 'header', dict(what='header'))
        reads(rep, txt + 'qreg q[1];x q[0];', 1, [('NOT', (0,), ())], 'header', dict(what='header'))


# -- angles ---------------------------------------------------------------------------------------------------
NUMS = ['0', '1', '2', '3', '10', '0.5', '.25', '1.', '1e-3', '2.5E+1', '0.7853981633974483']


def angle_exprs(deep):
    """(text, value in radians, must be accepted)"""
    pi = math.pi
    out = []
    val = {x: float(x) for x in NUMS}
    ints = ['1', '2', '3', '4', '7', '16']
    for x in NUMS:
        out.append((x, val[x], True))
        out.append(('-' + x, -val[x], True))
        out.append((x + '*pi', val[x] * pi, True))
        out.append(('-' + x + '*pi', -val[x] * pi, True))
        out.append(('pi*' + x, val[x] * pi, True))
        out.append(('- ' + x + ' * pi', -val[x] * pi, False))
        out.append((x + ' * pi', val[x] * pi, True))
        out.append(('+' + x, val[x], False))
    for s, sg in (('', 1), ('-', -1), ('+', 1)):
        out.append((s + 'pi', sg * pi, s != '+'))
        for d in ints:
            out.append((s + 'pi/' + d, sg * pi / int(d), s != '+'))
            out.append((s + 'pi / ' + d, sg * pi / int(d), s != '+'))
            out.append(('%spi/-%s' % (s, d), -sg * pi / int(d), False))
            for x in ints:
                out.append(('%s%s*pi/%s' % (s, x, d), sg * int(x) * pi / int(d), s != '+'))
                out.append(('%s%s/%s*pi' % (s, x, d), sg * int(x) * pi / int(d), False))
                out.append(('%spi*%s/%s' % (s, x, d), sg * int(x) * pi / int(d), False))
                out.append(('%spi/%s*%s' % (s, d, x), sg * int(x) * pi / int(d), False))
                out.append(('%s%s*%s*pi' % (s, x, d), sg * int(x) * pi * int(d), False))
                out.append(('%s%s*pi*%s' % (s, x, d), sg * int(x) * pi * int(d), False))
                out.append(('%spi/%s/%s' % (s, x, d), sg * pi / int(x) / int(d), False))
                out.append(('%s%s/%s' % (s, x, d), sg * int(x) / int(d), False))
                out.append(('%s%s*%s' % (s, x, d), sg * int(x) * int(d), False))
                out.append(('%spi/%s+%s' % (s, x, d), sg * pi / int(x) + int(d), False))
                out.append(('%spi/%s-pi/%s' % (s, x, d), sg * pi / int(x) - pi / int(d), False))
                out.append(('%s(%s*pi)/%s' % (s, x, d), sg * int(x) * pi / int(d), False))
                out.append(('%s0.%s*pi/%s' % (s, x, d), sg * float('0.' + x) * pi / int(d), False))
        for x in NUMS:
            out.append(('%spi+%s' % (s, x), sg * pi + val[x], False))
            out.append(('%spi-%s' % (s, x), sg * pi - val[x], False))
            out.append(('%s%s+pi' % (s, x), sg * val[x] + pi, False))
            out.append(('%s%s-pi' % (s, x), sg * val[x] - pi, False))
            out.append(('%spi**%s' % (s, x), None if val[x] > 9 else sg * pi ** val[x], False))
            if val[x]:
                out.append(('%s%s/pi' % (s, x), sg * val[x] / pi, False))
                out.append(('%spi*pi/%s' % (s, x), sg * pi * pi / val[x], False))
                out.append(('%s%s/%s*pi' % (s, x, '0.5'), sg * val[x] * 2 * pi, False))
        out += [(s + 'pi*pi', sg * pi * pi, False), (s + 'pi/pi', sg, False), (s + 'pi+pi', sg * pi + pi, False), (s + '(pi)', sg * pi, False),
                (s + 'pi^2', sg * pi * pi, False), (s + 'sin(pi)', 0.0, False), (s + '((pi/2))', sg * pi / 2, False), (s + 'tau', sg * 2 * pi, False)]
    out += [(t, None, False) for t in ('', ' ', 'x', 'pie', 'spi', 'pi pi', '2 3', '--pi', 'pi/', '/2', '*pi', 'pi*', 'nan', 'inf', 'pi/0', '1/0*pi', 'pi 2', '2 2*pi', 'ppii', 'p*i', 'p i', 'p/i', '2*p*i')]
    return [(t, None if r is None else r / pi, mu) for t, r, mu in out]


def fam_angle(rep, deep, i, m):
    for t, p, must in slice_iter(angle_exprs(deep), i, m):
        for v in (2, 3):
            d = HEAD[v] + decl([('q', 2)], v)
            for name, nm, pos, k in (('rz', 'ZPhase', 0, 1), ('rx', 'XPhase', 0, 1), ('u3', 'U3', 1, 3), ('cp', 'CPhase', 0, 1)):
                ps = ['pi/4'] * k
                ps[pos] = t
                if k > 1 and ',' in t:
                    continue
                dv = [F(1, 4)] * k
                if p is not None:
                    dv[pos] = p
                qs = (0,) if circ.GATES[nm][0] == 1 else (0, 1)
                reads(rep, d + '%s(%s) %s;\n' % (name, ','.join(ps), ','.join('q[%d]' % q for q in qs)), 2,
                      None if p is None else [(nm, qs, tuple(dv))], 'angle %r' % t, dict(gate=name, what='angle'), must=must)
        if p is not None and must and abs(p * 16 - round(p * 16)) < 1e-12:
            with rep.case('exact %s' % t, dict(what='angle exact')):
                c = zx.Circuit.from_qasm(HEAD[2] + 'qreg q[1];\nrz(%s) q[0];' % t)
                require(type(c.gates[0].phase) is F and c.gates[0].phase == F(round(p * 16), 16), 'angle %s is read as %s', t, c.gates[0].phase)


# -- custom gates -----------------------------------------------------------------------------------------------
def fam_custom(rep, deep, i, m):
    B1 = [([('HAD', 'a')], 'h a;'), ([('T', 'a'), ('NOT', 'a')], 't a; x a;'), ([], ''), ([('XPhase', 'a', F(3, 4))], 'rx(3*pi/4) a;'), ([('S*', 'a')], 'barrier a;\n sdg a; id a;')]
    B2 = [([('CNOT', 'ab')], 'cx a,b;'), ([('CNOT', 'ba'), ('T', 'a')], 'cx b,a;\n\tt a;'), ([('RZZ', 'ab', F(1, 4)), ('HAD', 'b')], 'rzz(pi/4) a,b; h b;'),
          ([('CRX', 'ba', F(1, 2))], 'crx(pi/2) b , a ;'), ([('g1', 'a'), ('CZ', 'ab'), ('g1', 'b')], 'g1 a; cz a,b; g1 b;'), ([('CU', 'ab', F(1, 4), F(1, 2), F(1, 3), F(1))], 'cu(pi/4,pi/2,pi/3,pi) a,b;'),
          ([('FU', 'ba')], 'swap b,a;')]
    B3 = [([('g2', 'ca'), ('g2', 'ab')], 'g2 c,a; g2 a,b;'), ([('Tof', 'bca'), ('g1', 'c')], 'ccx b,c,a; g1 c;'), ([('g2', 'bc'), ('CSWAP', 'abc')], 'g2 b,c; cswap a,b,c;')]
    names = [('g1', 'g2', 'g3'), ('mygate', 'gate2', 'x_gate'), ('h1', 'cx2', 'ccxx'), ('G', 'If', 'qregs')]
    layouts = ['gate {n} {a} {{ {b} }}\n', 'gate {n} {a}\n{{\n{b}\n}}\n', 'gate {n}() {a}{{{b}}}', 'gate  {n}  {a}  {{{b}}} \n']
    calls1 = ['q[0]', 'q[2]', 'q', 'r']
    calls2 = ['q[0],q[1]', 'q[2],q[0]', 'q[1],r', 'r[1],r[0]']
    calls3 = ['q[0],q[1],q[2]', 'r[1],q[0],r[0]', 'q[2],q[1],r']
    off = {'q': 0, 'r': 3}
    size = {'q': 3, 'r': 2}

    def inl(defs, nm, qs):
        out = []
        for o in defs[nm]:
            a = tuple(qs['abc'.index(x)] for x in o[1])
            if o[0] in ('g1', 'g2'):
                out += inl(defs, o[0], a)
            else:
                out.append(('SWAP' if o[0] == 'FU' else o[0], a, tuple(o[2:])))
        return out
    combos = itertools.product(B1, B2, B3, names, range(len(layouts)), (2, 3))
    for b1, b2, b3, nms, li, v in slice_iter(combos, i, m):
        lay = layouts[li]
        ren = dict(zip(('g1', 'g2', 'g3'), nms))

        def sub(t):
            for k in ('g1', 'g2', 'g3'):
                t = t.replace(k + ' ', '@%s ' % k)
            for k, w in ren.items():
                t = t.replace('@%s ' % k, w + ' ')
            return t
        defs = dict(g1=b1[0], g2=b2[0], g3=b3[0])
        txt = ''.join(lay.format(n=ren[g], a=a, b=sub(b)) for g, a, b in (('g1', 'a', b1[1]), ('g2', 'a,b', b2[1]), ('g3', 'a, b,c', b3[1])))
        stm, ops = '', []
        for g, cl in (('g1', calls1), ('g2', calls2), ('g3', calls3)):
            for c in cl:
                stm += '%s %s;\n' % (ren[g], c)
                args = []
                for a in c.split(','):
                    if '[' in a:
                        args.append(([off[a[0]] + int(a[2])], False))
                    else:
                        args.append(([off[a] + j for j in range(size[a])], True))
                dim = max([len(a) for a, w in args if w], default=1)
                for j in range(dim):
                    ops += inl(defs, g, tuple(a[j] if w else a[0] for a, w in args))
        # gates from both before and after the declarations
        reads(rep, HEAD[v] + txt + decl([('q', 3), ('r', 2)], v) + stm, 5, ops, 'custom gates %s' % li, dict(what='custom'))
        if b3 is B3[0]:
            d1 = decl([('q', 3), ('r', 2)], v)
            reads(rep, HEAD[v] + d1 + 'h q[0];\n' + txt + stm, 5, [('HAD', (0,), ())] + ops, 'custom gates after statements', dict(what='custom'))


def fam_custombad(rep):
    d = HEAD[2] + 'qreg q[3];\n'
    for t in ('gate g a,b {cx a,b;}\ng q[0];', 'gate g a {h a;}\ng q[0],q[1];', 'gate g a,a {h a;}\ng q[0],q[1];', 'gate g a {h b;}\ng q[0];',
              'gate g(t) a {rz(t) a;}\ng(pi) q[0];', 'gate g a {h a;}\ng(pi) q[0];', 'gate g a,b {cx a,b;}\ng q[0],q[0];', 'gate g a {h a;}\ng q[3];', 'gate g a {h q[0];}\ng q[1];',
              'gate g a,b {cx a,a;}\ng q[0],q[1];', 'gate g a {h a;\ng q[0];', 'gate g {h a;}\ng q[0];', 'gate g a {k a;}\ngate k a {h a;}\ng q[0];', 'gate g a,b {cx a,b;}\ng q,q;',
              'gate g a {g a;}\ng q[0];'):
        reads(rep, d + t, 3, None, 'custom gate', dict(what='custom invalid'))


# -- layout ---------------------------------------------------------------------------------------------------
def fam_layout(rep, i, m):
    base = ['qreg q[2];', 'qreg r[1];', 'creg c[2];', 'gate g a,b { cx a,b; t b; }', 'h q[0];', 'cx q[0],q[1];', 'rz(pi/4) r[0];', 'g r[0],q[0];', 'u3(pi/2,0,pi/4) q[1];', 'ccx q[0],q[1],r[0];']
    ops = [('HAD', (0,), ()), ('CNOT', (0, 1), ()), ('ZPhase', (2,), (F(1, 4),)), ('CNOT', (2, 0), ()), ('T', (0,), ()), ('U3', (1,), (F(1, 2), F(0), F(1, 4))), ('Tof', (0, 1, 2), ())]
    T = [('crlf', lambda h, b: (h.replace('\n', '\r\n'), b, '\r\n')),
         ('oneline', lambda h, b: (h, b, ' ')), ('nosep', lambda h, b: (h, b, '')),
         ('same line as include', lambda h, b: (h.rstrip('\n') + ' ', b, '\n')),
         ('all on the line of include', lambda h, b: (h.rstrip('\n') + ' ', b, ' ')),
         ('tabs', lambda h, b: (h, [l.replace('h q', 'h\tq').replace('cx q', 'cx\tq').replace('g r', 'g\tr') for l in b], '\n')),
         ('newline in statement', lambda h, b: (h, [l.replace('h q', 'h\nq').replace('cx q', 'cx\nq') for l in b], '\n')),
         ('newline in arguments', lambda h, b: (h, [l.replace('],', '],\n') for l in b], '\n')),
         ('space before bracket', lambda h, b: (h, [l.replace('rz(', 'rz (').replace('u3(', 'u3 (') for l in b], '\n')),
         ('space in brackets', lambda h, b: (h, [l.replace('(', '( ').replace('pi/', 'pi / ') for l in b], '\n')),
         ('no space after bracket', lambda h, b: (h, [l.replace(') ', ')') for l in b], '\n')),
         ('space around comma', lambda h, b: (h, [l.replace(',', ' , ') for l in b], '\n')),
         ('double space', lambda h, b: (h, [l.replace(' ', '  ') for l in b], '\n')),
         ('space before semicolon', lambda h, b: (h, [l.replace(';', ' ;') for l in b], '\n')),
         ('comments', lambda h, b: ('//x y;\n' + h, [l + ' // h q[0];' for l in b], '\n//cx q[0],q[1];\n')),
         ('comment in gate', lambda h, b: (h, [l.replace('{', '{ // gate x a { h a; }\n') for l in b], '\n')),
         ('blank lines', lambda h, b: ('\n\n' + h, b, '\n\n   \n')), ('indent', lambda h, b: (h, ['    ' + l for l in b], '\n')),
         ('empty statements', lambda h, b: (h, b, '\n;\n'))]
    for (n1, f1), (n2, f2) in slice_iter(itertools.product(T, repeat=2), i, m):
        if n1 in ('comments', 'comment in gate') and (n2.startswith('newline') or n2 == 'comment in gate'):
            continue
        h, b, sep = f1(HEAD[2], base)
        h2, b, sep2 = f2(h, b)
        if ('line' in n1 or 'nosep' in n1) and 'comment' in n2 or ('line' in n2 or 'nosep' in n2) and 'comment' in n1 or {n1, n2} == {'crlf', 'oneline'}:
            if sep in (' ', '') or sep2 in (' ', '') or '//' in h2.split('\n')[-1]:
                continue
        s = sep2 if sep == '\n' else sep
        if any('//' in l for l in b) and '\n' not in s:
            continue
        reads(rep, h2 + s.join(b) + s, 3, ops, 'layout %s + %s' % (n1, n2), dict(what='layout', layout=n1))


# -- sequences of statements with declarations in between ------------------------------------------------------------
def fam_seq(rep, depth, v, i, m):
    st = [('h {0}[0];', lambda o: [('HAD', (o[0],), ())], 1), ('cx {0}[0],{1}[1];', lambda o: [('CNOT', (o[0], o[1] + 1), ())], 2), ('t {1};', lambda o: [('T', (o[1] + j,), ()) for j in range(2)], 2),
          ('cz {1},{2};', lambda o: [('CZ', (o[1] + j, o[2] + j), ()) for j in range(2)], 3), ('rz(pi/3) {2}[1];', lambda o: [('ZPhase', (o[2] + 1,), (F(1, 3),))], 3),
          ('DECL', None, 0), ('creg c{k}[2];', lambda o: [], 0), ('barrier {0};', lambda o: [], 1), ('gate g{k} x,y {{ cx y,x; }}', lambda o: [], 0), ('g0 {0}[0],{1}[0];', lambda o: [('CNOT', (o[1], o[0]), ())], 2)]
    size = [1, 2, 2]
    names = ['aa', 'a', 'b2']
    for sq in slice_iter(itertools.product(range(len(st)), repeat=depth), i, m):
        nd, off, ops, txt, ok = 1, [0], [], decl([(names[0], size[0])], v), True
        gdef = 0
        n = size[0]
        for s in sq:
            t, f, need = st[s]
            if t == 'DECL':
                if nd == 3:
                    ok = False
                    break
                off.append(n)
                n += size[nd]
                txt += decl([(names[nd], size[nd])], v)
                nd += 1
                continue
            if need > nd:
                ok = False
                break
            if t.startswith('gate'):
                txt += t.format(k=gdef) + '\n'
                gdef += 1
                continue
            if t.startswith('g0') and not gdef:
                ok = False
                break
            txt += t.format(*names, k=len(txt)) + '\n'
            ops += f(off)
        if not ok:
            continue
        reads(rep, HEAD[v] + txt, n, ops, 'sequence', dict(what='sequence'))


# -- histories of one parser -----------------------------------------------------------------------------------------
def fam_hist(rep, depth, i, m):
    P = [(HEAD[2] + 'gate g a { h a; }\nqreg q[2];\ng q[0];cx q[0],q[1];', 2, [('HAD', (0,), ()), ('CNOT', (0, 1), ())], True),
         (HEAD[2] + 'gate g a { t a; }\nqreg r[1];\nqreg q[1];g q[0];', 2, [('T', (1,), ())], True),
         (HEAD[3] + 'qubit[1] q;bit[1] c;\nx q[0];c[0] = measure q[0];', 1, [('NOT', (0,), ())], True),
         (HEAD[2] + 'qreg q[1];\ng q[0];', 1, None, True),
         (HEAD[2] + 'qreg z[1];\nx q[0];', 1, None, True),
         (HEAD[2] + 'qubit[1] q;\nx q[0];', 1, None, True),
         ('qreg q[2];\nh q[1];', 2, [('HAD', (1,), ())], False),
         ('qubit[1] q;\nx q[0];', 1, None, False),
         (HEAD[2], 0, [], True)]
    for h in slice_iter(itertools.product(range(len(P)), repeat=depth), i, m):
        p = QASMParser()
        for j, k in enumerate(h):
            txt, n, ops, strict = P[k]
            reads(rep, txt, n, ops, 'history %s' % (h[:j + 1],), dict(what='history'), parse=lambda t: p.parse(t, strict=strict))
            if not strict:
                reads(rep, txt, n, ops, 'qasm() in history %s' % (h[:j + 1],), dict(what='history'), parse=qasm)
        rep.state(str(h))


def fam_wide(rep, v, i, m):
    """many qubits: wide registers, many registers, custom gates with many arguments, many custom gates; every argument
    is a bit or a whole register, in every combination"""
    progs = []
    # 1. gates of up to 3 arguments on registers of width 4 and 5
    for w in (4, 5):
        for q, nm in (('h', 'HAD'), ('t', 'T'), ('cx', 'CNOT'), ('cp', 'CPhase'), ('swap', 'SWAP'), ('ccx', 'Tof'), ('cswap', 'CSWAP')):
            ar, k = circ.GATES[nm][:2]
            regs = [('a', w)] if ar == 1 else [('a', w), ('b', 8 - w)] if ar == 2 else [('a', w), ('b', 1), ('c', 1)]
            off = [sum(s for _, s in regs[:j]) for j in range(len(regs))]
            for perm in itertools.permutations(range(len(regs)), min(ar, len(regs))):
                for mask in itertools.product((None, 0, 1, -1), repeat=len(perm)):
                    args, names, dims = [], [], set()
                    for j, x in zip(perm, mask):
                        r, s = regs[j]
                        if x is None:
                            args.append((list(range(off[j], off[j] + s)), True))
                            names.append(r)
                        else:
                            x = x % s
                            args.append(([off[j] + x], False))
                            names.append('%s[%d]' % (r, x))
                    if len(args) == ar:
                        progs.append((regs, '', '%s%s %s;' % (q, DEFP.get(k, ''), ','.join(names)), expand(nm, args, None), 'register of %d' % w))
    # 2. custom gates with 4-6 arguments, on bits and registers in every combination
    for k in (4, 5, 6):
        letters = 'abcdef'[:k]
        chain = ' '.join('cx %s,%s;' % (letters[j], letters[j + 1]) for j in range(k - 1)) + ' t %s; h %s; ccx %s,%s,%s;' % (letters[-1], letters[0], letters[k - 1], letters[0], letters[k - 2])
        ops = [('CNOT', (j, j + 1), ()) for j in range(k - 1)] + [('T', (k - 1,), ()), ('HAD', (0,), ()), ('Tof', (k - 1, 0, k - 2), ())]
        nw = {4: 4, 5: 3, 6: 2}[k]
        for mask in itertools.product((False, True), repeat=k):
            if sum(mask) > nw:
                continue
            for rev in (False, True):
                w = 2 if sum(mask) > 1 else 4
                regs, args, names, off = [], [], [], 0
                for j, x in enumerate(mask):
                    s = w if x else 1
                    regs.append(('r%d' % j, s))
                    args.append((list(range(off, off + s)), x))
                    names.append('r%d' % j if x else 'r%d[0]' % j)
                    off += s
                if off > 8:
                    continue
                if rev:
                    args, names = args[::-1], names[::-1]
                full = []
                for j in range(w if any(mask) else 1):
                    a = [p[j] if x else p[0] for p, x in args]
                    full += [(o[0], tuple(a[q] for q in o[1]), o[2]) for o in ops]
                progs.append((regs, 'gate big %s { %s }' % (','.join(letters), chain), 'big %s;' % ', '.join(names), full, 'custom gate of %d' % k))
    # 3. many custom gates, each using those before it
    for k in (4, 5, 6, 8):
        for last in range(k):
            d = 'gate g0 a,b { cx a,b; t b; }\n' + ''.join('gate g%d a,b { g%d b,a; %s a; }\n' % (j, j - 1, 'hts'[j % 3]) for j in range(1, k))

            def inl(j, a, b):
                return [('CNOT', (a, b), ()), ('T', (b,), ())] if j == 0 else inl(j - 1, b, a) + [(('HAD', 'T', 'S')[j % 3], (a,), ())]
            progs.append(([('q', 3)], d, 'g%d q[2],q[0];\ng%d q[0],q[1];' % (last, k - 1 - last), inl(last, 2, 0) + inl(k - 1 - last, 0, 1), '%d custom gates' % k))
    # 4. many registers, many gates on a line
    for k in (4, 5, 6, 7):
        for x, y in itertools.permutations(range(k), 2):
            progs.append(([('r%d' % j, 1 + (j == 1)) for j in range(k)], '', 'cx r%d[0],r%d[0]; h r%d; t r%d[0];' % (x, y, x, y),
                          [('CNOT', (x + (x > 1), y + (y > 1)), ()), ('HAD', (x + (x > 1),), ())] + ([('HAD', (2,), ())] if x == 1 else []) + [('T', (y + (y > 1),), ())], '%d registers' % k))
    for regs, d, st, ops, what in slice_iter(progs, i, m):
        reads(rep, HEAD[v] + d + '\n' + decl(regs, v) + st + '\n', sum(s for _, s in regs), ops, what, dict(what='wide'))


FAMILIES = dict(wide=fam_wide, stmt=fam_stmt, bad=fam_bad, angle=fam_angle, custom=fam_custom, custombad=fam_custombad, layout=fam_layout, seq=fam_seq, hist=fam_hist)


def tasks(tier):
    deep = tier == 'thorough'
    T = [('bad', (2,)), ('bad', (3,)), ('custombad', ())]

    def add(fam, args, n):
        for i in range(n):
            T.append((fam, tuple(args) + (i, n)))
    for ri in range(len(REGS)):
        for v in (2, 3):
            add('stmt', (ri, v), 4)
    for v in (2, 3):
        add('wide', (v,), 8)
    add('angle', (deep,), 8)
    add('custom', (deep,), 12)
    add('layout', (), 4)
    for v in (2, 3):
        add('seq', (4 if not deep else 6, v), 8 if not deep else 32)
    add('hist', (3 if not deep else 4,), 4 if not deep else 16)
    return T


ASSUME = ['the meaning of OpenQASM statements as evaluated by this file (broadcasting, custom gates as macros, standard gate matrices up to a global phase)',
          'language features outside the supported subset must be rejected or read correctly']
BOUNDS = 'all gate names x operand choices (bits and whole registers of 3 register layouts); all angle texts of a grammar; 840 combinations of 3 nested custom gates x layouts; pairs of layout changes; all statement sequences of length 4 (6 thorough); all histories of 3 (4) programs of one parser'


def run():
    return core.main('C10', FAMILIES, tasks, ASSUME, BOUNDS)
