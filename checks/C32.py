"""C32: the command line (python -m pyzx opt / tikz / cnots / phasepoly): every option combination on all small circuit files, in a scratch folder."""
import contextlib, io, itertools, os, random, shutil, subprocess, sys, tempfile
from fractions import Fraction as F
import numpy as np
import core, ref, circ, big
from core import require, slice_iter
import pyzx as zx
import pyzx.scripts
import C09, C20, C31

PI4 = {'T': 'rz(pi/4)', 'S': 's', 'Z': 'z', 'S*': 'sdg', 'T*': 'tdg'}


# -- independent writers of the input files
def w_qasm(n, sq):
    nm = {'HAD': 'h', 'NOT': 'x', 'CNOT': 'cx', 'CZ': 'cz', 'Tof': 'ccx', 'CCZ': 'ccz', 'SWAP': 'swap', **PI4}
    out = ['OPENQASM 2.0;', 'include "qelib1.inc";', 'qreg w[%d];' % n]
    for g, qs, ps in sq:
        s = 'rz(%s*pi)' % float(ps[0]) if g == 'ZPhase' else nm[g]
        out.append('%s %s;' % (s, ', '.join('w[%d]' % q for q in qs)))
    return '\n'.join(out) + '\n'


def w_qc(n, sq):
    nm = {'HAD': 'H', 'NOT': 'X', 'CNOT': 'tof', 'Tof': 'tof', 'CZ': 'Z', 'CCZ': 'Z', 'SWAP': 'swap', 'T': 'T', 'S': 'S', 'S*': 'S*', 'T*': 'T*', 'Z': 'Z'}
    v = ' '.join('v%d' % q for q in range(n))
    return '\n'.join(['.v ' + v, '.i ' + v, '.o ' + v, '', 'BEGIN'] + [' '.join([nm[g]] + ['v%d' % q for q in qs]) for g, qs, ps in sq] + ['END']) + '\n'


def w_quipper(n, sq):
    io = ', '.join('%d:Qbit' % q for q in range(n))
    nm = {'HAD': 'H', 'NOT': 'not', 'CNOT': 'not', 'Tof': 'not', 'CZ': 'Z', 'CCZ': 'Z', 'Z': 'Z', 'T': 'T', 'S': 'S', 'S*': 'S', 'T*': 'T'}
    out = ['Inputs: ' + io]
    for g, qs, ps in sq:
        c = ' with controls=[%s]' % ', '.join('+%d' % q for q in qs[:-1]) if len(qs) > 1 else ''
        out.append('QGate["%s"]%s(%d)%s with nocontrol' % (nm[g], '*' if g.endswith('*') else '', qs[-1], c))
    return '\n'.join(out + ['Outputs: ' + io])


WR = {'qasm': w_qasm, 'qc': w_qc, 'quipper': w_quipper}


def sem(fmt, txt):
    if fmt == 'qasm':
        return circ.unitary(*C09.sem_qasm('\n'.join(l for l in txt.split('\n') if not l.startswith('//')), 2))
    return circ.unitary(*C09.sem_qc(txt)) if fmt == 'qc' else C09.mat(*C09.sem_quipper(txt))


def cli(*args):
    """runs a command in this process; (what it printed, exit status or None)"""
    o = io.StringIO()
    with contextlib.redirect_stdout(o), contextlib.redirect_stderr(o):
        try:
            zx.scripts.main(['pyzx'] + list(args))
            code = None
        except SystemExit as e:
            code = e.code
    return o.getvalue(), code


def tree(d):
    out = {}
    for r, ds, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            out[os.path.relpath(p, d)] = open(p).read()
    return out


@contextlib.contextmanager
def scratch(files=()):
    d = tempfile.mkdtemp(prefix='c32_')
    try:
        for f, t in dict(files).items():
            os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
            with open(os.path.join(d, f), 'w') as h:
                h.write(t)
        yield d
    finally:
        shutil.rmtree(d)


EXT = {'qasm': 'qasm', 'qc': 'qc', 'quipper': 'quip'}


def opt_case(rep, n, sq, fmt, simp, out, pp, dest, verbose=False, ext=None):
    key = 'opt %s %s -> %s -g %s%s%s %s %s' % (fmt, circ.show(n, sq), out, simp, ' -p' if pp else '', ' -v' if verbose else '', dest, ext)
    if not rep.state(key):
        return
    with rep.case(key, dict(op='opt', simp=simp, format=fmt)):
        src = 'a.' + (ext or EXT[fmt])
        with scratch({src: WR[fmt](n, sq)}) as d:
            before = tree(d)
            a = ['opt', os.path.join(d, src)]
            if simp:
                a += ['-g', simp]
            if out:
                a += ['-t', out]
            if pp:
                a += ['-p']
            if verbose:
                a += ['-v']
            if dest:
                a += ['-d', os.path.join(d, dest)]
            try:
                txt, code = cli(*a)
            except TypeError as e:   # the phase-polynomial optimiser is for Clifford+T circuits
                require(pp and 'Clifford+T' in str(e) and any(g[0] == 'ZPhase' and 4 % F(g[2][0]).denominator for g in sq), 'raised %r', e)
                require(tree(d) == before, 'files were written')
                rep.outcome('refused')
                return
            require(code in (None, 0), 'exit status %s: %s', code, txt[-200:])
            rep.step()
            after = tree(d)
            ofmt = out or fmt
            where = dest or 'a.' + ofmt
            changed = {f for f in after if before.get(f) != after[f]}
            require(not set(before) - set(after), 'a file is gone')
            require(changed <= {where} and where in after, 'wrote %s instead of %s', sorted(changed), where)
            require(circ.up_to_phase(circ.unitary(n, sq), sem(ofmt, after[where])), 'the optimised circuit has another unitary')
            c = zx.Circuit.load(os.path.join(d, where)) if dest != 'out' else None
            if c is not None:
                require(c.qubits == n and circ.up_to_phase(circ.unitary(n, sq), circ.circuit_unitary(c)), 'the written file reads as another circuit')
            if verbose:
                require('Circuit' in txt, 'no statistics')
            rep.outcome((fmt, ofmt, simp))


def fam_opt(rep, n, depth, names, fmts, grid, i, m):
    al = circ.alphabet(n, names, {'ZPhase': [(F(1, 3),), (F(7, 4),)]}) if not isinstance(depth, tuple) else ()
    combos = [(f, g, o, p) for f in fmts for g in (None, 'full', 'cliff', 'tele') for o in (None, 'qasm', 'qc', 'quipper') for p in (False, True)] if grid == 'all' else \
             [(f, g, o, p) for f in fmts for g, o, p in ((None, None, False), ('tele', None, True), ('cliff', 'qasm', False))]
    words = circ.sequences(al, depth) if not isinstance(depth, tuple) else (tuple(x) for _, x in big.layers(n, names, depth))
    for sq in slice_iter(words, i, m):
        for f, g, o, p in combos:
            if any(s[0] == 'ZPhase' for s in sq) and ('qc' in (f, o) or f == 'quipper'):
                continue
            if any(s[0] in ('SWAP',) for s in sq) and f == 'quipper':
                continue
            opt_case(rep, n, sq, f, g, o, p, None)


def fam_dest(rep, fmt):
    """names and places of the result, the input's extension, verbose"""
    n, sq = 2, (('HAD', (0,), ()), ('T', (0,), ()), ('CNOT', (0, 1), ()), ('T', (0,), ()))
    for f, o, dest, ext, v in itertools.product((fmt,), (None, 'qasm', 'qc', 'quipper'), (None, 'b.txt', 'a.b.c', 'sub/x.qasm', 'out'), (None, 'txt', 'b.' + 'x'), (False, True)):
        e = ext and (ext if ext == 'txt' else 'v1.' + EXT[f])
        if dest == 'sub/x.qasm':
            continue
        if e and e.startswith('v1.') and not dest:
            # the name without its last extension
            key = 'opt stem %s %s' % (f, o)
            rep.state(key)
            with rep.case(key, dict(op='opt')):
                with scratch({'a.' + e: WR[f](n, sq)}) as d:
                    txt, code = cli('opt', os.path.join(d, 'a.' + e), *(('-t', o) if o else ()))
                    require(code is None and os.path.exists(os.path.join(d, 'a.v1.' + (o or f))), 'the result is not in a.v1.%s', o or f)
                    rep.step()
            continue
        for g in (None, 'tele', 'cliff', 'full'):
            opt_case(rep, n, sq, f, g, o, False, dest, v, e)
    # nothing is written when nothing can be done
    if fmt != 'qasm':
        return
    src = w_qasm(n, sq)
    for key, files, args, bad in (('missing source', {'a.qasm': src}, ['opt', 'D/b.qasm'], 'does not exist'), ('missing source with destination', {'a.qasm': src}, ['opt', '-d', 'D/c.qasm', 'D/b.qasm'], 'does not exist'),
                                  ('unknown output type', {'a.qasm': src}, ['opt', '-t', 'tex', 'D/a.qasm'], 'Unsupported'), ('unknown output type and destination', {'a.qasm': src}, ['opt', '-d', 'D/x.tex', '-t', 'QASM2', 'D/a.qasm'], 'Unsupported'),
                                  ('no output format for qsim', {'a.qsim': '2\n0 x_1_2 0\n1 rz 1 0.78539816339\n'}, ['opt', 'D/a.qsim'], 'Unsupported'),
                                  ('phase that qc cannot express', {'a.qasm': 'OPENQASM 2.0;\nqreg q[1];\nrz(pi/3) q[0];\n', 'o.qc': 'old'}, ['opt', '-t', 'qc', '-d', 'D/o.qc', 'D/a.qasm'], None),
                                  ('broken source', {'a.qasm': 'OPENQASM 2.0;\nqreg q[1];\nfoo q[0];\n'}, ['opt', 'D/a.qasm'], None), ('no argument', {}, ['opt'], 2), ('two sources', {'a.qasm': src}, ['opt', 'D/a.qasm', 'D/a.qasm'], 2),
                                  ('unknown option', {'a.qasm': src}, ['opt', 'D/a.qasm', '-z'], 2), ('tikz missing', {'a.qasm': src}, ['tikz', 'D/b.qasm'], 'does not exist'), ('tikz help', {}, ['tikz'], 'usage'),
                                  ('no command', {}, [], 1), ('unknown command', {}, ['optimise', 'D/a.qasm'], 1), ('cnots without -d', {}, ['cnots', 'D/x'], 2), ('cnots without folder', {}, ['cnots', '-d', '3'], 2), ('phasepoly without folder', {}, ['phasepoly'], 2)):
        rep.state(key)
        with rep.case(key, dict(op='refusal')):
            with scratch(files) as d:
                before = tree(d)
                rep.step()
                try:
                    txt, code = cli(*[a.replace('D/', d + '/') for a in args])
                except (TypeError, ValueError) as e:
                    require(bad is None, 'raised %r', e)
                else:
                    require(bad is not None, 'nothing was refused')
                    if isinstance(bad, int):
                        require(code == bad, 'exit status %s', code)
                    else:
                        require(bad in txt and code in (None, 0, 1), 'printed %r', txt[-200:])
                require(tree(d) == before, 'files were written')
                rep.outcome('refused')


def tikz_value(txt):
    vs, es = C20.read(txt)
    g = zx.Graph(backend='multigraph')
    g.set_auto_simplify(False)
    m = {}
    for k, (t, p, x, y, *r) in vs.items():
        m[k] = g.add_vertex(zx.VertexType(t), qubit=-y, row=x)
        if t != ref.BOUNDARY:
            g.set_phase(m[k], p)
    for a, b, t in es:
        g.add_edge((m[a], m[b]), zx.EdgeType(t))
    bd = [v for v in g.vertices() if g.type(v) == ref.BOUNDARY]
    lo, hi = min(g.row(v) for v in g.vertices()), max(g.row(v) for v in g.vertices())
    g.set_inputs(tuple(sorted((v for v in bd if g.row(v) == lo), key=g.qubit)))
    g.set_outputs(tuple(sorted((v for v in bd if g.row(v) == hi), key=g.qubit)))
    require(len(bd) == len(g.inputs()) + len(g.outputs()), 'boundaries')
    return ref.matrix(g)


def fam_tikz(rep, n, depth, names, fmts, i, m):
    al = circ.alphabet(n, names, {'ZPhase': [(F(1, 3),)]})
    for sq in slice_iter(circ.sequences(al, depth), i, m):
        for f in fmts:
            for dest in (None, 'pic.tex'):
                key = 'tikz %s %s %s' % (f, circ.show(n, sq), dest)
                rep.state(key)
                with rep.case(key, dict(op='tikz', format=f)):
                    src = 'a.b.' + EXT[f]
                    with scratch({src: WR[f](n, sq)}) as d:
                        before = tree(d)
                        txt, code = cli('tikz', os.path.join(d, src), *([os.path.join(d, dest)] if dest else []))
                        require(code is None, 'exit status')
                        after = tree(d)
                        where = dest or 'a.b.tikz'
                        require({k for k in after if after[k] != before.get(k)} == {where}, 'wrote %s', sorted(after))
                        require('with %d gates' % len(sq) in txt, 'printed %s', txt)
                        u = circ.unitary(n, sq)
                        require(circ.up_to_scalar(u, tikz_value(after[where])), 'the picture shows another map')
                        rep.step()
                        rep.outcome(f)


def expect_files(d, want):
    """{relative path: checker} is exactly what is below d"""
    t = tree(d)
    require(set(t) == set(want), 'files %s instead of %s', sorted(t), sorted(want))
    for f, chk in want.items():
        chk(t[f])


def body(txt):
    return C09.sem_qasm('\n'.join(l for l in txt.split('\n') if not l.startswith('//')), 2)


def fam_generators(rep):
    for qs, m, ds, folder in itertools.product(((1,), (2,), (3,), (2, 3), (4, 2, 3), (9,)), (None, 1, 2, 3), ((0,), (1,), (4,), (2, 5)), ('out', 'new/deep')):
        key = 'cnots %s %s %s %s' % (qs, m, ds, folder)
        if max(ds) > 0 and min(qs) == 1:
            continue
        rep.state(key)
        with rep.case(key, dict(op='cnots')):
            with scratch() as d:
                random.seed(7)
                np.random.seed(7)
                txt, code = cli('cnots', os.path.join(d, folder), '-q', *map(str, qs), *(() if m is None else ('-m', str(m))), '-d', *map(str, ds))
                require(code is None, 'exit status %s: %s', code, txt[-300:])
                rep.step()

                def chk(q, k):
                    def f(t):
                        n, sq = body(t)
                        require(n == q, '%d qubits instead of %d', n, q)
                        require(all(g[0] == 'CNOT' for g in sq) and len(sq) == k, 'gates %s', sq)
                    return f
                expect_files(d, {'%s/%dqubits/%d/Original%d.qasm' % (folder, q, k, j): chk(q, k) for q in qs for k in ds for j in range(m or 1)})
                rep.outcome('cnots')
    for qs, m, ps, folder in itertools.product(((1,), (2,), (3,), (2, 3), (4, 2, 3), (5,)), (None, 1, 2, 3), (None, (1,), (2,), (3, 1)), ('out', 'new/deep')):
        key = 'phasepoly %s %s %s %s' % (qs, m, ps, folder)
        rep.state(key)
        with rep.case(key, dict(op='phasepoly')):
            with scratch() as d:
                random.seed(7)
                np.random.seed(7)
                txt, code = cli('phasepoly', os.path.join(d, folder), '-q', *map(str, qs), *(() if m is None else ('-m', str(m))), *(() if ps is None else ('-p',) + tuple(map(str, ps))))
                require(code is None, 'exit status %s: %s', code, txt[-300:])
                rep.step()

                def chk(q, k):
                    def f(t):
                        n, sq = body(t)
                        require(n == q, '%d qubits instead of %d', n, q)
                        c = circ.circuit(n, sq)
                        ph, rows, cn = C31.polynomial(c, n)
                        require(len(ph) == min(k, 2 ** q - 1), '%d gadgets instead of %d', len(ph), k)
                        require(rows == [1 << b for b in range(n)], 'not diagonal')
                    return f
                expect_files(d, {'%s/%dqubits/%dgadgets/Original%d.qasm' % (folder, q, k, j): chk(q, k) for q in qs for k in (ps or (1,)) for j in range(m or 1)})
                rep.outcome('phasepoly')


def fam_process(rep, f):
    """the commands as separate processes, called twice with the same arguments: the second run gives the same files"""
    n, sq = 3, (('HAD', (0,), ()), ('CNOT', (0, 1), ()), ('T', (1,), ()), ('Tof', (0, 1, 2), ()), ('HAD', (2,), ()))
    if True:
        for cmd in (['opt'], ['opt', '-g', 'tele', '-p', '-t', 'quipper'], ['opt', '-d', 'D/o.qc', '-t', 'qc'], ['tikz']):
            key = 'python -m pyzx %s %s' % (' '.join(cmd), f)
            rep.state(key)
            with rep.case(key, dict(op='process')):
                with scratch({'a.' + EXT[f]: WR[f](n, sq)}) as d:
                    for k in range(2):
                        r = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'pyzx'] + [a.replace('D/', d + '/') for a in cmd] + [os.path.join(d, 'a.' + EXT[f])],
                                           capture_output=True, text=True, cwd=d, env=dict(os.environ, PYTHONPATH=core.REPO, PYTHONDONTWRITEBYTECODE='1'))
                        require(r.returncode == 0, 'exit status %s: %s', r.returncode, r.stderr[-300:])
                        rep.step()
                    t = tree(d)
                    if cmd == ['tikz']:
                        require(circ.up_to_scalar(circ.unitary(n, sq), tikz_value(t['a.tikz'])), 'the picture shows another map')
                    else:
                        o = 'quipper' if '-p' in cmd else 'qc' if '-d' in cmd else f
                        require(circ.up_to_phase(circ.unitary(n, sq), sem(o, t['o.qc' if '-d' in cmd else 'a.' + o])), 'the optimised circuit has another unitary')
                    rep.outcome(cmd[0])


def fam_router(rep):
    """the router command gives a circuit on the architecture with the same unitary"""
    sq = (('HAD', (0,), ()), ('CNOT', (0, 1), ()))
    for mode in (None, 'steiner', 'gauss'):
        key = 'router %s' % mode
        rep.state(key)
        with rep.case(key, dict(op='router')):
            with scratch({'a.qasm': w_qasm(2, sq)}) as d:
                txt, code = cli('router', os.path.join(d, 'a.qasm'), '-a', 'line', '-q', '2', '--output_perm', 'n', '--destination', os.path.join(d, 'out'), *(['-m', mode] if mode else []))
                require(code in (None, 0), 'exit status %s: %s', code, txt[-100:])
                out = [t for f, t in tree(d).items() if f.startswith('out')]
                require(len(out) == 1, '%d files written', len(out))
                require(circ.up_to_phase(circ.unitary(2, sq), circ.unitary(*body(out[0]))), 'the routed circuit has another unitary')
                rep.step()


FAMILIES = dict(router=fam_router, opt=fam_opt, dest=fam_dest, tikz=fam_tikz, generators=fam_generators, process=fam_process)


def tasks(tier):
    q = tier == 'quick'
    R = range
    ALL = ('HAD', 'NOT', 'Z', 'S', 'S*', 'T', 'T*', 'CNOT', 'CZ', 'SWAP', 'Tof', 'CCZ', 'ZPhase')
    F3 = ('qasm', 'qc', 'quipper')
    t = [('process', (f,)) for f in WR] + [('dest', (f,)) for f in WR] + [ ('generators', ())]
    t += [('router', ())]
    t += [('opt', (3, 1, ALL, F3, 'all', i, 8)) for i in R(8)] + [('opt', (2, 0, ALL, F3, 'all', 0, 1))]
    t += [('opt', (2, 2, ('HAD', 'T', 'CNOT', 'ZPhase'), F3, 'all', i, 8)) for i in R(8)]
    t += [('opt', (2, 3, ('HAD', 'T', 'CNOT') if q else ('HAD', 'T', 'CNOT', 'S*', 'CZ', 'NOT'), F3, 'some', i, 16)) for i in R(16)]
    t += [('opt', (3, 2, ('Tof', 'HAD', 'CNOT') if q else ALL, F3, 'some', i, 16)) for i in R(16)]
    t += [('tikz', (3, 1, ALL[:9] + ALL[10:12], F3, 0, 1)), ('tikz', (2, 2, ALL[:9], ('qasm',), 0, 1)), ('tikz', (2, 0, ALL, F3, 0, 1)), ('tikz', (2, 2, ('HAD', 'T', 'CNOT', 'ZPhase', 'SWAP'), ('qasm',), 0, 1))]
    t += [('tikz', (3, 2, ('HAD', 'T', 'CNOT', 'Tof'), F3, i, 4)) for i in R(4)]
    t += [('opt', (4, (2,) if q else (2, 3), ('H', 'Tr', 'cp', 'zo', 'ci', 'tp') if q else ('H', 'Tr', 'He', 'cp', 'zo', 'T', 'ci', 'tp', 'yp'), F3[:1] if q else F3, 'some', i, 16)) for i in R(16)]
    if not q:
        t += [('opt', (2, 3, ('HAD', 'T', 'CNOT'), F3, 'all', i, 16)) for i in R(16)] + [('tikz', (2, 3, ('HAD', 'T', 'CNOT', 'CZ', 'NOT', 'SWAP'), ('qasm',), i, 8)) for i in R(8)]
    return t


def run():
    return core.main('C32', FAMILIES, tasks, assumptions=['numerical comparison with tolerance 1e-6', 'the generators run with fixed seeds (their random choices are explored in C31)'],
                     exhaustive_note='all small circuit files x all option combinations of the commands')
