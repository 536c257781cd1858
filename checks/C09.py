"""C09: circuit file formats. Every gate, parameter and placement, and all short sequences, are written in each format;
the text is interpreted by an independent reader of the format and read back by pyzx."""
import itertools, math, os, re, shutil, tempfile
from fractions import Fraction as F
import numpy as np
import core
from core import require, slice_iter
import ref, circ
import pyzx as zx
from pyzx.circuit import gates as G
import C07

U = circ.circuit_unitary


def same(a, b, what):
    require(a.shape == b.shape, '%s: matrix has shape %s, not %s', what, b.shape, a.shape)
    require(circ.up_to_phase(a, b), '%s has another unitary than the circuit', what)


# -- independent readers -------------------------------------------------------------------------------------------
QASM = {'x': 'NOT', 'y': 'Y', 'z': 'Z', 's': 'S', 'sdg': 'S*', 't': 'T', 'tdg': 'T*', 'h': 'HAD', 'sx': 'SX', 'sxdg': 'SX*', 'rx': 'XPhase',
        'ry': 'YPhase', 'rz': 'ZPhase', 'p': 'ZPhase', 'u1': 'ZPhase', 'u2': 'U2', 'u3': 'U3', 'u': 'U3', 'U': 'U3', 'cx': 'CNOT', 'CX': 'CNOT',
        'cy': 'CY', 'cz': 'CZ', 'ch': 'CHAD', 'csx': 'CSX', 'swap': 'SWAP', 'crx': 'CRX', 'cry': 'CRY', 'crz': 'CRZ', 'cp': 'CPhase', 'cu1': 'CPhase',
        'rxx': 'RXX', 'rzz': 'RZZ', 'cu3': 'CU3', 'cu': 'CU', 'ccx': 'Tof', 'ccz': 'CCZ', 'cswap': 'CSWAP'}


def sem_qasm(txt, version):
    ls = [l for l in txt.split('\n') if l]
    if version == 2:
        require(ls[0] == 'OPENQASM 2.0;' and ls[1] == 'include "qelib1.inc";', 'QASM 2 header')
        n = int(re.fullmatch(r'qreg q\[(\d+)\];', ls[2])[1])
    else:
        require(ls[0] == 'OPENQASM 3;' and ls[1] == 'include "stdgates.inc";', 'QASM 3 header')
        n = int(re.fullmatch(r'qubit\[(\d+)\] q;', ls[2])[1])
    ds = []
    for l in ls[3:]:
        mt = re.fullmatch(r'(\w+)\s*(?:\(([^)]*)\))?\s+(.*);', l)
        require(mt is not None, 'not a QASM statement: %s', l)
        nm = QASM.get(mt[1])
        require(nm is not None, 'not a QASM gate: %s', l)
        ps = tuple(float(p.replace('*pi', '')) for p in mt[2].split(',')) if mt[2] else ()
        qs = tuple(int(re.fullmatch(r'q\[(\d+)\]', a.strip())[1]) for a in mt[3].split(','))
        require(len(qs) == circ.GATES[nm][0] and len(ps) == circ.GATES[nm][1], 'wrong number of arguments: %s', l)
        ds.append((nm, qs, ps))
    return n, ds


def sem_qc(txt):
    ls = [l.strip() for l in txt.split('\n') if l.strip()]
    require(ls[0].split()[0] == '.v' and ls[1] == 'BEGIN' and ls[-1] == 'END', 'QC layout')
    lab = {q: i for i, q in enumerate(ls[0].split()[1:])}
    ds = []
    one = {'X': 'NOT', 'Y': 'Y', 'Z': 'Z', 'S': 'S', 'S*': 'S*', 'T': 'T', 'T*': 'T*', 'H': 'HAD', 'TOF': 'NOT'}
    two = {'TOF': 'CNOT', 'Z': 'CZ', 'SWAP': 'SWAP', 'CNOT': 'CNOT', 'CZ': 'CZ'}
    three = {'TOF': 'Tof', 'Z': 'CCZ', 'CCZ': 'CCZ'}
    for l in ls[2:-1]:
        nm, *qs = l.split()
        t = {1: one, 2: two, 3: three}[len(qs)].get(nm.upper())
        require(t is not None, 'not a QC gate: %s', l)
        ds.append((t, tuple(lab[q] for q in qs), ()))
    return len(lab), ds


def sem_quipper(txt):
    """list of (matrix, qubits)"""
    ls = txt.split('\n')
    ins = re.fullmatch(r'Inputs: (.*)', ls[0])[1]
    n = 0 if ins.strip() in ('', 'none') else len(ins.split(','))
    require(re.fullmatch(r'Outputs: .*', ls[-1]), 'Quipper layout')
    ops = []
    M = {'H': circ.HM, 'not': circ.XM, 'X': circ.XM, 'Y': circ.YM, 'Z': circ.ZM, 'S': circ.P(0.5), 'T': circ.P(0.25)}
    for l in ls[1:-1]:
        if not l:
            continue
        mt = re.fullmatch(r'QRot\["exp\(-i%([XYZ])\)",([-+0-9.e]+)\]\((\d+)\)', l)
        if mt:
            th = float(mt[2]) / math.pi * 2
            ops.append(({'X': circ.RX, 'Y': circ.RY, 'Z': circ.RZ}[mt[1]](th), (int(mt[3]),)))
            continue
        mt = re.fullmatch(r'QGate\["(\w+)"\](\*?)\((\d+)\)(?: with controls=\[([^]]*)\])? with nocontrol', l)
        require(mt is not None, 'not a Quipper statement: %s', l)
        require(mt[1] in M, 'not a Quipper gate: %s', l)
        m = M[mt[1]]
        if mt[2]:
            m = m.conj().T
        cs = mt[4].split(',') if mt[4] else []
        for c in cs:
            require(re.fullmatch(r'[+]\d+', c.strip()), 'control %s', c)
        ops.append((circ.ctrl(m, len(cs)) if cs else m, tuple(int(c.strip()[1:]) for c in cs) + (int(mt[3]),)))
    return n, ops


def mat(n, ops):
    t = np.eye(2 ** n, dtype=complex).reshape((2,) * n + (2 ** n,))
    for m, qs in ops:
        t = circ.apply(m, qs, t, n)
    return t.reshape(2 ** n, 2 ** n)


def formats(c):
    yield 'qasm2', lambda: c.to_qasm(), lambda s: zx.Circuit.from_qasm(s), lambda s: circ.unitary(*sem_qasm(s, 2))
    yield 'qasm3', lambda: c.to_qasm(3), lambda s: zx.Circuit.from_qasm(s), lambda s: circ.unitary(*sem_qasm(s, 3))
    yield 'qc', lambda: c.to_qc(), lambda s: zx.Circuit.from_qc(s), lambda s: circ.unitary(*sem_qc(s))
    yield 'quipper', lambda: c.to_quipper(), lambda s: zx.Circuit.from_quipper(s), lambda s: mat(*sem_quipper(s))


def ok_refuse(fmt, c):
    """formats that cannot express the circuit"""
    names = [circ.read_gate(g) for g in c.gates]
    if any(nm[0] == 'FSim' for nm in names):
        return True
    if fmt == 'qc':
        return any(F(p).denominator not in (1, 2, 4) or F(p).denominator == 1 and p not in (0, 1)
                   for g in c.to_basic_gates().gates for p in circ.read_gate(g)[2])
    return False


def gs(c):
    return sorted(str(circ.read_gate(g)) for g in c.gates)


def roundtrip(rep, n, sq, basic=False, feats=None):
    key = circ.show(n, sq)
    u = circ.unitary(n, sq)
    c = circ.circuit(n, sq)
    if basic:
        c = c.to_basic_gates()
        key += ' basic'
    for fmt, wr, rd, sem in formats(c):
        with rep.case('%s %s' % (fmt, key), dict(feats or {}, format=fmt)):
            s0 = circ.snapshot(c)
            try:
                txt = wr()
            except TypeError as e:
                require(ok_refuse(fmt, c), 'the writer refuses a circuit the format can express: %s', str(e)[:100])
                rep.outcome(fmt + ' refused')
                continue
            require(circ.snapshot(c) == s0, 'writing changes the circuit')
            same(u, sem(txt), 'the %s text' % fmt)
            d = rd(txt)
            require(d.qubits == n, 'the circuit read back has %d qubits instead of %d', d.qubits, n)
            same(u, U(d), 'the circuit read back from %s' % fmt)
            if fmt == 'quipper' or fmt.startswith('qasm'):
                for g in d.gates:
                    for p in circ.read_gate(g)[2]:
                        require(F(p).denominator < 10 ** 9, 'phase %s', p)
            # stable: writing what was read gives a text that reads as the same gates
            e = rd(wr2(fmt, d))
            require([circ.read_gate(a)[:2] for a in e.gates] == [circ.read_gate(a)[:2] for a in d.gates] or fmt == 'qc', 'a second round trip changes the gates')
            same(u, U(e), 'the second round trip')
            rep.step(2)
            rep.outcome(fmt)


def wr2(fmt, d):
    return {'qasm2': d.to_qasm, 'qasm3': lambda: d.to_qasm(3), 'qc': d.to_qc, 'quipper': d.to_quipper}[fmt]()


SMALLP = [F(1, 16), F(-3, 8), F(1, 1000000), F(12345, 1000003), F(7, 2), F(-1, 3)]


def fam_gate(rep, name, extra, deep, i, m):
    ar, k, ctor, mt = circ.GATES[name]
    n = ar + extra
    ps = [p for p in C07.params(name, deep) if not any(isinstance(x, float) for x in p)]
    if k == 1:
        ps += [(p,) for p in SMALLP]
    elif k > 1 and name != 'FSim':
        ps += [tuple(x) for x in itertools.permutations(SMALLP[:k + 1], k)][:24]
    for p in slice_iter(ps, i, m):
        for qs in circ.placements(name, n):
            rep.state('%s%s%s' % (name, qs, p))
            roundtrip(rep, n, [(name, qs, p)], feats=dict(gate=name))
            roundtrip(rep, n, [(name, qs, p)], basic=True, feats=dict(gate=name))
            with rep.case('exact %s %s %s' % (name, qs, p), dict(gate=name, format='exact phases')):
                c = circ.circuit(n, [(name, qs, p)])
                if name != 'FSim' and k == 1 and F(p[0]).denominator <= 16 and 0 < p[0] < 2:
                    for fmt, wr, rd, sem in formats(c):
                        if fmt == 'qc':
                            continue
                        q = c
                        for g in rd(wr()).gates:
                            pass
                        d = rd(wr())
                        if len(d.gates) == 1:
                            require(circ.read_gate(d.gates[0])[2] == (p[0],) or circ.read_gate(d.gates[0])[0] not in ('ZPhase', 'XPhase', 'YPhase'),
                                    '%s: phase %s is read back as %s', fmt, p[0], circ.read_gate(d.gates[0])[2])
                            require(type(d.gates[0].phase) is F if hasattr(d.gates[0], 'phase') else True, '%s: phase is a %s', fmt, type(getattr(d.gates[0], 'phase', 0)))
                        rep.step()


def fam_seq(rep, n, depth, names, i, m):
    al = circ.alphabet(n, names, {'U2': [(F(1, 4), F(1, 3))], 'U3': [(F(1, 4), F(1, 2), F(1, 3))], 'CU3': [(F(1, 4), F(1, 2), F(1, 3))],
                                  'CU': [(F(1, 4), F(1, 2), F(1, 3), F(3, 4))], 'ZPhase': [(F(1, 3),)], 'XPhase': [(F(3, 4),)]})
    for sq in slice_iter(itertools.chain(*(circ.sequences(al, d, canon=False) for d in (range(depth + 1) if depth < 3 else (depth,)))), i, m):
        rep.state(circ.show(n, sq))
        rep.sample(circ.show(n, sq))
        roundtrip(rep, n, sq, feats=dict(gate='sequence'))


# -- files and auto-detection ----------------------------------------------------------------------------------
def fam_files(rep, depth):
    """all histories of reading files of several formats and extensions: each is recognised and read as itself"""
    prog = [('HAD', (0,), ()), ('CNOT', (1, 0), ()), ('T*', (2,), ()), ('Tof', (2, 0, 1), ())]
    c = circ.circuit(3, prog)
    c2 = circ.circuit(2, [('S', (1,), ()), ('CZ', (0, 1), ())])
    tmp = tempfile.mkdtemp(prefix='c09_')
    try:
        files = []
        for j, (cc, pr, n) in enumerate(((c, prog, 3), (c2, [('S', (1,), ()), ('CZ', (0, 1), ())], 2))):
            u = circ.unitary(n, pr)
            for fmt, exts, txt in (('qasm', ('.qasm', '.qasm2', '.txt', '.circuit', ''), cc.to_qasm()), ('qasm3', ('.qasm', '.qasm3', '.txt'), cc.to_qasm(3)),
                                   ('qc', ('.qc', '.tfc', '.txt', '.circuit', ''), cc.to_qc()), ('quipper', ('.quip', '.quipper', '.txt', '.circuit', ''), cc.to_quipper())):
                for e in exts:
                    fn = os.path.join(tmp, 'f%d_%s%s' % (j, fmt, e))
                    with open(fn, 'w') as f:
                        f.write(txt)
                    files.append((fn, u, fmt, txt))
        qs = os.path.join(tmp, 'a.qsim')
        with open(qs, 'w') as f:
            f.write('2\n0 x_1_2 0\n1 rz 1 0.78539816339\n')
        files.append((qs, np.kron(circ.HM @ circ.P(0.5) @ circ.HM, circ.P(0.25)), 'qsim', ''))
        for fn, u, fmt, txt in files:
            with rep.case('load ' + os.path.basename(fn), dict(format=fmt, what='load')):
                rep.state(os.path.basename(fn))
                d = zx.Circuit.load(fn)
                same(u, U(d), 'the loaded file')
                require(d.name == os.path.basename(fn), 'name of the loaded circuit: %s', d.name)
                rep.step()
                f = {'qasm': zx.Circuit.from_qasm_file, 'qasm3': zx.Circuit.from_qasm_file, 'qc': zx.Circuit.from_qc_file,
                     'quipper': zx.Circuit.from_quipper_file, 'qsim': zx.Circuit.from_qsim_file}[fmt]
                same(u, U(f(fn)), 'the file')
                rep.outcome(fmt)
        core_files = [f for f in files if f[0].endswith(('.txt', '.qsim'))]
        from pyzx.circuit.qasmparser import QASMParser, qasm
        for hist in itertools.product(range(len(core_files)), repeat=depth):
            with rep.case('history %s' % (hist,), dict(what='history')):
                p = QASMParser()
                for h in hist:
                    fn, u, fmt, txt = core_files[h]
                    same(u, U(zx.Circuit.load(fn)), 'file %s' % fmt)
                    if fmt.startswith('qasm'):
                        same(u, U(p.parse(txt)), 'a parser that read other programs before')
                        same(u, U(qasm(txt)), 'qasm()')
                    rep.step()
                rep.outcome('history')
    finally:
        shutil.rmtree(tmp)


# -- readers of things pyzx does not write -----------------------------------------------------------------------
def anc_unitary(n, tot, d, what):
    """matrix on the first n qubits when the others start as |0>; they must return to |0>."""
    u = U(d).reshape(2 ** n, 2 ** (tot - n), 2 ** n, 2 ** (tot - n))[:, :, :, 0]
    require(np.abs(u[:, 1:]).max(initial=0) < 1e-9, '%s: an ancilla is not returned to 0', what)
    return u[:, 0]


def fam_qcread(rep):
    names1 = {'tof': 'NOT', 't1': 'NOT', 'not': 'NOT', 'x': 'NOT', 'z': 'Z', 's': 'S', 'p': 'S', 's*': 'S*', 'p*': 'S*', 't': 'T', 't*': 'T*', 'h': 'HAD', 'y': 'Y'}
    names2 = {'cnot': 'CNOT', 'tof': 'CNOT', 't2': 'CNOT', 'cz': 'CZ', 'z': 'CZ', 'swap': 'SWAP'}
    names3 = {'t3': 'Tof', 'tof': 'Tof', 'ccz': 'CCZ', 'z': 'CCZ'}
    heads = ['.v a b c\n', '.v a,b,c\n.i a,b\n.o c\n', '#comment\n.v a b\n.i c\n', '.v  a  b  c \n\n'.replace('\n\n', '\n')]
    lab = 'abc'
    for names, k in ((names1, 1), (names2, 2), (names3, 3)):
        for nm, g in names.items():
            for qs in itertools.permutations(range(3), k):
                for case in (str.lower, str.upper):
                    for sep in (' ', ',', ', ', '  '):
                        for head in heads:
                            txt = head + '\nBEGIN\n#c\n%s %s\n\nH a\nEND\n' % (case(nm), sep.join(lab[q] for q in qs))
                            with rep.case(repr(txt), dict(format='qc', what='read', gate=nm)):
                                rep.state(txt)
                                d = zx.Circuit.from_qc(txt)
                                rep.step()
                                require(d.qubits == 3, 'number of qubits is %s', d.qubits)
                                same(circ.unitary(3, [(g, qs, ()), ('HAD', (0,), ())]), U(d), 'QC')
                rep.outcome(nm)
    for k in (3, 4, 5, 6):
        n = k + 1
        for t in range(n):
            qs = [q for q in range(n) if q != t] + [t]
            for nm in ('tof', 't%d' % n):
                txt = '.v %s\nBEGIN\n%s %s\nEND\n' % (' '.join('q%d' % q for q in range(n)), nm, ' '.join('q%d' % q for q in qs))
                with rep.case('multi %s' % txt, dict(format='qc', what='multi-controlled')):
                    rep.state(txt)
                    d = zx.Circuit.from_qc(txt)
                    rep.step()
                    # permutation semantics (classical reversible)
                    w = apply_classical(d)
                    for x in range(2 ** n):
                        bits = [(x >> (n - 1 - q)) & 1 for q in range(n)]
                        out = list(bits)
                        if all(bits[q] for q in qs[:-1]):
                            out[t] ^= 1
                        require(w(bits + [0] * (d.qubits - n)) == out + [0] * (d.qubits - n), 'input %s', bits)
                    rep.outcome('tof%d' % k)
    for k1, k2 in itertools.product((3, 4, 5, 6), repeat=2):
        n = 7
        txt = '.v %s\nBEGIN\ntof %s\ntof %s\nEND\n' % (' '.join('q%d' % q for q in range(n)), ' '.join('q%d' % q for q in range(k1 + 1)),
                                                     ' '.join('q%d' % q for q in reversed(range(n - k2 - 1, n))))
        with rep.case('two multi %s %s' % (k1, k2), dict(format='qc', what='multi-controlled')):
            d = zx.Circuit.from_qc(txt)
            w = apply_classical(d)
            for x in range(2 ** n):
                b = [(x >> (n - 1 - q)) & 1 for q in range(n)]
                o = list(b)
                o[k1] ^= all(o[:k1])
                o[n - k2 - 1] ^= all(o[n - k2:])
                require(w(b + [0] * (d.qubits - n)) == o + [0] * (d.qubits - n), 'input %s', b)
            rep.step()


def apply_classical(d):
    gl = [circ.read_gate(g) for g in d.gates]

    def run(bits):
        b = list(bits)
        for nm, qs, ps in gl:
            require(nm in ('Tof', 'CNOT', 'NOT'), 'gate %s', nm)
            b[qs[-1]] ^= all(b[q] for q in qs[:-1])
        return b
    return run


def fam_quipread(rep):
    M = {'H': circ.HM, 'not': circ.XM, 'X': circ.XM, 'Y': circ.YM, 'Z': circ.ZM, 'S': circ.P(0.5), 'T': circ.P(0.25)}
    hdr = 'Inputs: 0:Qbit, 1:Qbit, 2:Qbit'
    tail = 'Outputs: 0:Qbit, 1:Qbit, 2:Qbit'
    progs = []
    for nm, adj, t in itertools.product(M, ('', '*'), range(3)):
        m = M[nm].conj().T if adj else M[nm]
        for suf in ('', ' with nocontrol'):
            progs.append(('QGate["%s"]%s(%d)%s' % (nm, adj, t, suf), m, (t,), nm in ('H', 'not', 'Z', 'S', 'T')))
        for c in range(3):
            if c != t:
                for sg in '+-':
                    mm = circ.ctrl(m)
                    if sg == '-':
                        mm = np.kron(circ.XM, circ.I2) @ mm @ np.kron(circ.XM, circ.I2)
                    progs.append(('QGate["%s"]%s(%d) with controls=[%s%d] with nocontrol' % (nm, adj, t, sg, c), mm, (c, t), nm in ('not', 'Z') and sg == '+'))
        for c1, c2 in itertools.permutations([q for q in range(3) if q != t]):
            for s1, s2 in itertools.product('+-', repeat=2):
                x = np.kron(np.kron(circ.XM if s1 == '-' else circ.I2, circ.XM if s2 == '-' else circ.I2), circ.I2)
                progs.append(('QGate["%s"]%s(%d) with controls=[%s%d,%s%d] with nocontrol' % (nm, adj, t, s1, c1, s2, c2), x @ circ.ctrl(m, 2) @ x, (c1, c2, t),
                              nm in ('not', 'Z')))
    for ax, fn in (('X', circ.RX), ('Y', circ.RY), ('Z', circ.RZ)):
        for k in range(-8, 9):
            th = k * math.pi / 8
            for t in range(3):
                progs.append(('QRot["exp(-i%%%s)",%r](%d)' % (ax, th, t), fn(F(k, 4)), (t,), ax != 'Y'))
    for l, m, qs, must in progs:
        for extra in ('', 'Comment["x"](0:"a")\n'):
            txt = '\n'.join([hdr, 'QGate["H"](1)', extra + l, 'QGate["T"]*(2) with nocontrol', tail])
            with rep.case(l + extra, dict(format='quipper', what='read')):
                rep.state(txt)
                rep.step()
                try:
                    d = zx.Circuit.from_quipper(txt)
                except TypeError as e:
                    require(not must, 'refused: %s', str(e)[:100])
                    rep.outcome('refused')
                    continue
                require(d.qubits == 3, 'qubits')
                same(mat(3, [(circ.HM, (1,)), (m, qs), (circ.P(-0.25), (2,))]), U(d), 'Quipper')
                rep.outcome('ok')


def fam_qsim(rep):
    sq = lambda m: (1 + 1j) / 2 * np.eye(2) + (1 - 1j) / 2 * m
    W = (circ.XM + circ.YM) / math.sqrt(2)
    one = {'x_1_2': sq(circ.XM), 'y_1_2': sq(circ.YM), 'hz_1_2': sq(W)}
    progs = [('%s %%d' % nm, m, 1) for nm, m in one.items()]
    for k in range(-8, 9):
        progs.append(('rz %%d %r' % (k * math.pi / 8), circ.RZ(F(k, 8)), 1))
    for k in range(-4, 5):
        progs.append(('fs %%d %%d %r %r' % (math.pi / 2, k * math.pi / 6), circ.fsim(F(1, 2), F(k, 6)), 2))
    for (l1, m1, a1), (l2, m2, a2) in itertools.product(progs, repeat=2):
        for q1 in itertools.permutations(range(2), a1):
            for q2 in itertools.permutations(range(2), a2):
                txt = '2\n0 %s\n\n1 %s\n' % (l1 % q1, l2 % q2)
                with rep.case(txt, dict(format='qsim', what='read')):
                    rep.state(txt)
                    from pyzx.circuit.qsimparser import parse_qsim
                    d = parse_qsim(txt)
                    same(mat(2, [(m1, q1), (m2, q2)]), U(d), 'qsim')
                    rep.step()
                    rep.outcome(l1.split()[0])
    for bad in ('h 0', 'cz 0 1', 't 1', 'foo 0', 'x 0'):
        with rep.case('qsim ' + bad, dict(format='qsim', what='unknown')):
            from pyzx.circuit.qsimparser import parse_qsim
            try:
                d = parse_qsim('2\n0 %s\n' % bad)
                ok = False
            except Exception:
                ok = True
            if not ok:
                require(len(d.gates) > 0, 'an unknown gate is silently dropped')


def fam_qcnames(rep, i, m):
    """.qc declarations: every way to spread n names over .v, .i and .o, in every kind of overlap"""
    items = []
    for n in range(1, 8):
        lab = ['n%d' % j for j in range(n)]
        for nv in range(n + 1):
            for ov in (False, True):
                for revi in (False, True):
                    rest = lab[nv:]
                    if not nv and not rest:
                        continue
                    for cut in range(len(rest) + 1):
                        ii, oo = rest[:cut], rest[cut:]
                        decl = []
                        order = []
                        if nv:
                            decl.append('.v ' + ' '.join(lab[:nv]))
                            order += lab[:nv]
                        a = (lab[:nv] if ov else []) + ii
                        if revi:
                            a = a[::-1]
                        if a:
                            decl.append('.i ' + ' '.join(a))
                        b = (ii if ov else []) + oo
                        if b:
                            decl.append('.o ' + ','.join(b))
                        for x in a + b:
                            if x not in order:
                                order.append(x)
                        items.append((n, decl, order))
    for n, decl, order in slice_iter(items, i, m):
        pos = {x: k for k, x in enumerate(order)}
        for f in (0, 1):
            ls, sq = [], []
            for j in range(n):
                ls.append('T n%d' % j)
                sq.append(('T', (pos['n%d' % j],), ()))
                if j + 1 < n:
                    a, b = ('n%d' % j, 'n%d' % (j + 1)) if f else ('n%d' % (n - 1 - j), 'n0')
                    ls.append('tof %s %s' % (a, b))
                    sq.append(('CNOT', (pos[a], pos[b]), ()))
            ls.append('H n%d' % (n - 1))
            sq.append(('HAD', (pos['n%d' % (n - 1)],), ()))
            txt = '\n'.join(decl) + '\nBEGIN\n' + '\n'.join(ls) + '\nEND\n'
            with rep.case('names ' + repr(txt), dict(format='qc', what='names')):
                rep.state(txt)
                d = zx.Circuit.from_qc(txt)
                rep.step()
                require(d.qubits == n, 'number of qubits is %s', d.qubits)
                same(circ.unitary(n, sq), U(d), 'QC')
                rep.outcome('qc %d' % n)


def fam_many(rep, n, names, i, m):
    """many qubits: every gate on every placement, with another gate on the last wire and one on the first"""
    for nm in names:
        ar, k = circ.GATES[nm][:2]
        ps = {0: (), 1: (F(1, 4),), 2: (F(1, 4), F(1, 2)), 3: (F(1, 4), F(1, 2), F(3, 4)), 4: (F(1, 4), F(1, 2), F(3, 4), F(1))}[k]
        for qs in slice_iter(itertools.permutations(range(n), ar), i, m):
            sq = [(nm, qs, ps), ('CNOT', (n - 1, 0), ()), ('T', (n - 1,), ()), ('HAD', (0,), ()), ('CNOT', (qs[0], (qs[0] + 1) % n), ())]
            rep.state('%d %s %s' % (n, nm, qs))
            roundtrip(rep, n, sq, feats=dict(gate='many'))


# -- emoji ---------------------------------------------------------------------------------------------------
def decode_emoji(txt, n):
    rows = [re.findall(r':[^:]+:', l) for l in txt.split('\n')]
    require(len(rows) == n and len({len(r) for r in rows}) == 1, 'rows of different lengths')
    names = {'H_': circ.HM}
    for k, nm in ((1, 'p4'), (2, 'p2'), (3, '3p4'), (4, 'p'), (5, '5p4'), (6, '3p2'), (7, '7p4')):
        names['Z' + nm] = circ.P(F(k, 4))
        names['X' + nm] = circ.HM @ circ.P(F(k, 4)) @ circ.HM
    ops = []
    for col in zip(*rows):
        q = 0
        while q < n:
            t = col[q][1:-1]
            if t == 'W_':
                q += 1
            elif t in names:
                ops.append((names[t], (q,)))
                q += 1
            elif t in ('Zd', 'Xd'):
                e = q + 1
                while col[e] == ':Wud:':
                    e += 1
                require(col[e] == (':Xu:' if t == 'Zd' else ':Zu:'), 'the wire from row %d ends in %s', q, col[e])
                ops.append((circ.ctrl(circ.XM), (q, e) if t == 'Zd' else (e, q)))
                q = e + 1
            else:
                require(False, 'emoji %s', t)
    return mat(n, ops)


def fam_emoji(rep, n, depth, i, m):
    from pyzx.circuit.emojiparser import circuit_to_emoji
    al = [('ZPhase', (q,), (F(k, 4),)) for q in range(n) for k in ((1, 2, 3, 4, 5, 6, 7, 9, -1) if q == 0 else (2, 3))]
    al += [('XPhase', (q,), (F(k, 4),)) for q in range(n) for k in ((1, 2, 3, 4, 5, 6, 7, 9, -1) if q == 0 else (1, 6))]
    al += circ.alphabet(n, ['HAD', 'CNOT', 'CZ', 'S*', 'NOT'])
    al += [('CZ', (1, 0), ())]
    for sq in slice_iter(itertools.chain(*(circ.sequences(al, d, canon=False) for d in range(depth + 1))), i, m):
        with rep.case('emoji ' + circ.show(n, sq), dict(format='emoji')):
            rep.state(circ.show(n, sq))
            c = circ.circuit(n, sq)
            for cr in (True, False):
                txt = circuit_to_emoji(c, cr)
                same(circ.unitary(n, sq), decode_emoji(txt, n), 'emoji')
                rep.step()
            rep.outcome('emoji')


FAMILIES = dict(qcnames=fam_qcnames, many=fam_many, gate=fam_gate, seq=fam_seq, files=fam_files, qcread=fam_qcread, quipread=fam_quipread, qsim=fam_qsim, emoji=fam_emoji)


def tasks(tier):
    deep = tier == 'thorough'
    T = [('files', (3 if deep else 2,)), ('qcread', ()), ('quipread', ()), ('qsim', ())]

    def add(fam, args, n):
        for i in range(n):
            T.append((fam, tuple(args) + (i, n)))
    for nm in circ.GATES:
        w = 4 if circ.GATES[nm][1] > 2 else 1
        add('gate', (nm, 0, deep), w)
        if circ.GATES[nm][0] < 4:
            add('gate', (nm, 1, False), w)
    ALL = [nm for nm in circ.GATES if nm not in ('FSim', 'PP4')]
    S = ['S*', 'T', 'HAD', 'CNOT', 'Tof', 'CZ', 'CSWAP', 'Y', 'SX*', 'PP3', 'CRZ', 'RZZ', 'SWAP', 'XCX', 'PP1']
    add('seq', (0, 0, []), 1)
    add('seq', (1, 2, [n for n in ALL if circ.GATES[n][0] == 1]), 8)
    add('seq', (2, 2, [n for n in ALL if circ.GATES[n][0] <= 2] if deep else ['S', 'T*', 'HAD', 'CNOT', 'CZ', 'Y', 'SX', 'RZZ', 'CU', 'SWAP', 'XPhase', 'CHAD', 'CPhase']), 16)
    add('seq', (3, 2, S if deep else ['T', 'Tof', 'CSWAP', 'PP3', 'RZZ', 'CNOT']), 16)
    if deep:
        add('seq', (3, 3, ['S*', 'HAD', 'CNOT', 'CSWAP']), 32)
    add('qcnames', (), 4)
    for n in (4, 5) if not deep else (4, 5, 6, 7):
        add('many', (n, ['T', 'HAD', 'CNOT', 'CZ', 'SWAP', 'CHAD', 'RZZ'] + (['Tof', 'CCZ', 'CSWAP'] if n < 6 else [])), 4)
    add('emoji', (4, 1), 2)
    add('emoji', (5, 1), 2)
    add('emoji', (3, 2), 4)
    if deep:
        add('emoji', (2, 3), 8)
        add('emoji', (4, 2), 8)
    return T


ASSUME = ['meaning of the formats as written down in the independent readers of this file', 'unitaries up to a global phase',
          'the .qc format has no gates for phases that are not multiples of pi/4; no format has FSim: refusing those is allowed']
BOUNDS = 'every gate x parameters x placements; all sequences of <=2 gates over pools (3 in thorough); all histories of 2 (3) file reads; all single statements of the readers'


def run():
    return core.main('C09', FAMILIES, tasks, ASSUME, BOUNDS)
