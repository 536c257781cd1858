"""C24: linear algebra over Z2 (Mat2) on all small matrices and exhaustive parametric families of larger ones, against bit-vector arithmetic."""
import itertools, math
import core
from core import require, slice_iter
from pyzx.linalg import Mat2
from pyzx.circuit.gates import CNOT


# ---------------------------------------------------------------- oracle: rows as integers
def mats(r, c):
    for x in range(1 << (r * c)):
        yield [[x >> (i * c + j) & 1 for j in range(c)] for i in range(r)]


def ints(d):
    return [sum(b << j for j, b in enumerate(row)) for row in d]


def rank(rows):
    rows = list(rows)
    k = 0
    while rows:
        p = rows.pop()
        if p:
            k += 1
            lb = p & -p
            rows = [r ^ p if r & lb else r for r in rows]
    return k


def span(rows):
    s = {0}
    for r in rows:
        if r not in s:
            s |= {x ^ r for x in s}
    return s


def mul(a, b):
    n, c = len(b), len(b[0])
    return [[sum(row[k] & b[k][j] for k in range(n)) & 1 for j in range(c)] for row in a]


def eye(n):
    return [[int(i == j) for j in range(n)] for i in range(n)]


class Rec(object):
    """records row (or column) operations"""
    def __init__(self):
        self.ops = []

    def row_add(self, a, b):
        self.ops.append((a, b))

    col_add = row_add


def lead(row):
    return next((j for j, b in enumerate(row) if b), None)


def echelon(d, full, what):
    last = -1
    for i, row in enumerate(d):
        l = lead(row)
        if l is None:
            require(not any(any(r) for r in d[i:]), '%s: a zero row above others', what)
            break
        require(l > last, '%s: not an echelon form: %s', what, d)
        last = l
        if full:
            require(sum(r[l] for r in d) == 1, '%s: column %d of the pivot is not reduced: %s', what, l, d)


def gauss_case(rep, d, blocks, fulls=(False, True)):
    r, c = len(d), len(d[0])
    rk = rank(ints(d))
    sp = span(ints(d)) if c <= 9 else None
    for b in blocks:
        for full in fulls:
            key = 'gauss %s block %s %s' % (d, b, full)
            with rep.case(key, dict(op='gauss')):
                m = Mat2([list(x) for x in d])
                x, y, piv, rec, rec2 = Mat2(eye(r)), Mat2(eye(r)), [], Rec(), Rec()
                k = m.gauss(full_reduce=full, x=x, y=y, blocksize=b, pivot_cols=piv)
                rep.step()
                require(k == rk, 'rank %s instead of %s', k, rk)
                require(m.rows() == r and m.cols() == c and all(v in (0, 1) for row in m.data for v in row), 'shape')
                echelon(m.data, full, 'gauss')
                require(sum(any(row) for row in m.data) == rk, 'non-zero rows')
                require(piv == [lead(row) for row in m.data if any(row)], 'pivot columns %s', piv)
                if sp is not None:
                    require(span(ints(m.data)) == sp, 'another row space')
                require(mul(x.data, d) == m.data, 'x is not the transformation')
                require(mul(y.data, m.data) == d, 'y is not the inverse transformation')
                require(mul(x.data, y.data) == eye(r), 'x and y are not inverse')
                m2 = Mat2([list(v) for v in d])
                m2.gauss(full_reduce=full, x=rec, blocksize=b)
                m3 = Mat2([list(v) for v in d])
                m3.gauss(full_reduce=full, y=rec2, blocksize=b)
                require(m2 == m and m3 == m, 'recording changes the result')
                z = Mat2([list(v) for v in d])
                for p, q in rec.ops:
                    require(p != q, 'row added to itself')
                    z.row_add(p, q)
                require(z.data == m.data, 'the recorded operations give another matrix')
                require([(q, p) for p, q in rec2.ops] == rec.ops, 'the operations recorded on rows and columns differ')


def fam_gauss(rep, r, c, blocks, i, k):
    for d in slice_iter(mats(r, c), i, k):
        rep.state('%s' % (d,))
        gauss_case(rep, d, blocks)


def solve_case(rep, d, bs, key):
    r, c = len(d), len(d[0])
    rows = ints(d)
    rk = rank(rows)
    with rep.case('solve ' + key, dict(op='solve')):
        m = Mat2([list(x) for x in d])
        require(m.rank() == rk and m.data == d, 'rank')
        cols = ints([[d[i][j] for i in range(r)] for j in range(c)])
        image = span(cols) if r <= 9 else None
        for b in bs:
            bv = Mat2([[b >> i & 1] for i in range(r)])
            x = m.solve(bv)
            rep.step()
            require(m.data == d and bv.data == [[b >> i & 1] for i in range(r)], 'solving changes its arguments')
            ok = (b in image) if image is not None else rank(cols + [b]) == rank(cols)
            require((x is not None) == ok, 'solve finds %s for right-hand side %s', x, b)
            if x is not None:
                require(x.rows() == c and x.cols() == 1 and mul(d, x.data) == bv.data, 'not a solution for %s: %s', b, x.data)
    with rep.case('nullspace ' + key, dict(op='nullspace')):
        m = Mat2([list(x) for x in d])
        ns = m.nullspace()
        rep.step()
        require(m.data == d, 'changes the matrix')
        require(len(ns) == c - rk and rank(ints(ns)) == len(ns), 'nullspace has %d vectors of rank %d, expected %d', len(ns), rank(ints(ns)), c - rk)
        require(all(len(v) == c and all(x in (0, 1) for x in v) and not any(sum(a & b for a, b in zip(row, v)) & 1 for row in d) for v in ns), 'not in the kernel')
        require(Mat2([list(x) for x in d]).nullspace(should_copy=False) == ns, 'nullspace without copy')
    with rep.case('factor ' + key, dict(op='factor')):
        m = Mat2([list(x) for x in d])
        a, b = m.factor()
        rep.step()
        require(m.data == d, 'changes the matrix')
        require(len(a.data) == r and all(len(x) == rk for x in a.data) and len(b.data) == rk, 'shape of the factors')
        if rk:
            require(mul(a.data, b.data) == d and (a * b).data == d, 'the factors give another matrix')
    with rep.case('inverse ' + key, dict(op='inverse')):
        m = Mat2([list(x) for x in d])
        v = m.inverse()
        rep.step()
        require(m.data == d, 'changes the matrix')
        require((v is not None) == (r == c == rk), 'inverse is %s', v)
        if v is not None:
            require(mul(v.data, d) == eye(r) and mul(d, v.data) == eye(r), 'not the inverse')


def fam_solve(rep, r, c, i, k):
    for d in slice_iter(mats(r, c), i, k):
        rep.state('%s' % (d,))
        solve_case(rep, d, range(1 << r), str(d))


def perform(cnots, n):
    """the linear map of a CNOT circuit"""
    m = eye(n)
    for g in cnots:
        require(type(g) is CNOT and g.control != g.target and 0 <= g.control < n and 0 <= g.target < n, 'gate %s', g)
        m[g.target] = [a ^ b for a, b in zip(m[g.target], m[g.control])]
    return m


def cnot_case(rep, d, key):
    n = len(d)
    for kw in (dict(), dict(optimize=True), dict(use_log_blocksize=True), dict(optimize=True, use_log_blocksize=True)):
        with rep.case('to_cnots %s %s' % (sorted(kw), key), dict(op='to_cnots')):
            m = Mat2([list(x) for x in d])
            cn = m.to_cnots(**kw)
            rep.step()
            require(m.data == d, 'changes the matrix')
            # the matrix acts on the qubits as columns: its transpose is the map on basis states
            got = perform(cn, n)
            require([list(x) for x in zip(*got)] == d, 'the circuit implements %s', got)
            if kw.get('optimize'):
                best = min(len(Mat2([list(x) for x in d]).to_cnots()) if s == 5 else count(d, s) for s in range(1, max(2, n)))
                require(len(cn) == best, '%d CNOTs, with one of the block sizes %d', len(cn), best)


def count(d, size):
    r = Rec()
    Mat2([list(x) for x in d]).gauss(full_reduce=True, x=r, blocksize=size)
    return len(r.ops)


def fam_cnots(rep, n, i, k):
    for d in slice_iter((d for d in mats(n, n) if rank(ints(d)) == n), i, k):
        rep.state('cnots %s' % (d,))
        cnot_case(rep, d, str(d))


def perms_lu(n):
    """larger matrices: circulant, banded, companion, permuted triangular, low rank"""
    for x in range(1, 1 << n):
        row = [x >> j & 1 for j in range(n)]
        yield 'circulant %d %d' % (n, x), [row[-s:] + row[:-s] if s else row for s in range(n)]
        yield 'companion %d %d' % (n, x), [[int(j == i + 1) for j in range(n)] for i in range(n - 1)] + [row]
        yield 'upper %d %d' % (n, x), [[1 if i == j else (row[(i + 2 * j) % n] if j > i else 0) for j in range(n)] for i in range(n)][::-1]
        yield 'hankel %d %d' % (n, x), [[row[(i * j + i + j) % n] for j in range(n)] for i in range(n)]
        yield 'outer %d %d' % (n, x), [[row[i] & row[(3 * j + 1) % n] ^ int((i + j) % 3 == 0) for j in range(n)] for i in range(n)]
        yield 'wide %d %d' % (n, x), [[row[(i + j * j) % n] for j in range(n + 3)] for i in range(n - 2)]
        yield 'tall %d %d' % (n, x), [[row[(2 * i + j * (i + 1)) % n] for j in range(n - 2)] for i in range(n + 3)]


def fam_large(rep, n, blocks, i, k):
    for key, d in slice_iter(perms_lu(n), i, k):
        rep.state(key)
        gauss_case(rep, d, blocks)
        r = len(d)
        solve_case(rep, d, [0, 1, (1 << r) - 1, 5, 1 << (r - 1), (1 << r) // 3], key)
        if len(d) == len(d[0]) == rank(ints(d)):
            cnot_case(rep, d, key)


def fam_ops(rep, r, c, i, k):
    """element access, slices, row and column operations, products, transpose, permutations on all matrices of a shape"""
    for d in slice_iter(mats(r, c), i, k):
        key = 'ops %s' % (d,)
        rep.state(key)
        with rep.case(key, dict(op='ops')):
            m = Mat2([list(x) for x in d])
            require(m.rows() == r and m.cols() == c, 'shape')
            n = m.copy()
            require(n == m and not (n != m) and n is not m and n.data is not m.data, 'copy')
            require(m.transpose().data == [list(x) for x in zip(*d)], 'transpose')
            require(m.transpose().transpose() == m, 'transpose twice')
            for a in range(-r, r):
                for b in range(-c, c):
                    require(m[a, b] == d[a][b], 'element')
                    for v in (0, 1):
                        n = m.copy()
                        n[a, b] = v
                        e = [list(x) for x in d]
                        e[a][b] = v
                        require(n.data == e and m.data == d, 'setting an element')
                        rep.step()
            sl = [slice(None), slice(0, 1), slice(1, None), slice(None, -1), slice(None, None, 2), slice(None, None, -1)]
            for s in sl:
                for b in list(range(-c, c)) + sl:
                    want = [row[b] if isinstance(b, slice) else [row[b]] for row in d[s]]
                    require(m[s, b].data == want, 'slice %s,%s', s, b)
                    v = Mat2([[1 - x for x in row] for row in want])
                    n = m.copy()
                    n[s, b] = v
                    require(n[s, b] == v and sum(x != y for p, q in zip(n.data, d) for x, y in zip(p, q)) == sum(map(len, want)), 'setting a slice')
                    rep.step()
                for a in range(-r, r):
                    require(m[a, s].data == [d[a][s]], 'slice %s,%s is %s', a, s, m[a, s].data)
            for a, b in itertools.permutations(range(r), 2):
                n = m.copy()
                n.row_add(a, b)
                require(n.data == [[x ^ y for x, y in zip(d[a], row)] if j == b else row for j, row in enumerate(d)], 'row_add')
                n = m.copy()
                n.row_swap(a, b)
                require(n.data == [d[b] if j == a else d[a] if j == b else row for j, row in enumerate(d)], 'row_swap')
            for a, b in itertools.permutations(range(c), 2):
                n = m.copy()
                n.col_add(a, b)
                require(n.data == [[x ^ row[a] if j == b else x for j, x in enumerate(row)] for row in d], 'col_add')
                n = m.copy()
                n.col_swap(a, b)
                require(n.data == [[row[b] if j == a else row[a] if j == b else x for j, x in enumerate(row)] for row in d], 'col_swap')
            require(m.data == d, 'operations on a copy change the original')
            for p in itertools.permutations(range(r)):
                n = m.copy()
                n.permute_rows(list(p))
                require(n.data == [d[j] for j in p], 'permute_rows')
            for p in itertools.permutations(range(c)):
                n = m.copy()
                n.permute_cols(list(p))
                require(n.data == [[row[j] for j in p] for row in d], 'permute_cols')
            require((Mat2.id(r) * m).data == d and (m * Mat2.id(c)).data == d and not any(map(any, (Mat2.zeros(r, r) * m).data)), 'unit and zero')
            for e in range(c):
                require((m * Mat2.unit_vector(c, e)).data == [[row[e]] for row in d], 'unit vector')
            require(str(m).count('\n') == r - 1 and [int(x) for x in str(m) if x in '01'] == sum(d, []), 'str')
            require(m != d and m != Mat2([row + [0] for row in d]) and m != Mat2(d + [[0] * c]), 'equality')


def fam_mul(rep, r, n, c, i, k):
    for a in slice_iter(mats(r, n), i, k):
        with rep.case('mul %s' % (a,), dict(op='mul')):
            for b in mats(n, c):
                rep.state('%s %s' % (a, b))
                p, q = Mat2([list(x) for x in a]), Mat2([list(x) for x in b])
                require((p * q).data == mul(a, b) and p.data == a and q.data == b, 'product with %s', b)
                require((p == q) == (a == b), 'equality')
                rep.step()


def fam_empty(rep):
    with rep.case('empty', dict(op='empty')):
        rep.state('empty')
        m = Mat2([])
        require(m.rows() == m.cols() == 0 and m.rank() == 0 and m.inverse() == m and m.to_cnots() == [] and m.to_cnots(optimize=True) == [] and
                m.to_cnots(use_log_blocksize=True) == [] and m.nullspace() == [], 'empty matrix')
        require(Mat2.id(0) == m and Mat2.zeros(0, 0) == m, 'empty')
        rep.step()


FAMILIES = dict(gauss=fam_gauss, solve=fam_solve, cnots=fam_cnots, large=fam_large, ops=fam_ops, mul=fam_mul, empty=fam_empty)


def tasks(tier):
    q = tier == 'quick'
    t = [('empty', ())]
    sh = [(r, c) for r in range(1, 5) for c in range(1, 7) if r * c <= (12 if q else 16)] + [(5, 2), (6, 2), (8, 1), (1, 8), (5, 3), (3, 5)][:None if not q else 4]
    for r, c in sh:
        n = max(1, (1 << (r * c)) // 500)
        bl = sorted({1, 2, 3, c, c + 1, 6})
        t += [('gauss', (r, c, bl, i, n)) for i in range(n)]
        t += [('solve', (r, c, i, n)) for i in range(n)]
    if q:       # 4x4 with one block size each
        t += [('gauss', (4, 4, (2,), i, 16)) for i in range(0, 16)]
    t += [('cnots', (n, i, 1 if n < 4 else 16)) for n in range(1, 5) for i in range(1 if n < 4 else 16)]
    for n in (5, 6, 7, 8, 9) if q else (5, 6, 7, 8, 9, 10, 11, 12):
        t += [('large', (n, (1, 3, 6) if q else tuple(range(1, n + 2)), i, 4 if n < 8 or q else 48)) for i in range(4 if n < 8 or q else 48)]
    for r, c in [(1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (3, 3)] + ([(2, 4), (4, 2)] if q else [(2, 5), (3, 4), (4, 3)]):
        t += [('ops', (r, c, i, 4)) for i in range(4)]
    for s in [(1, 1, 1), (2, 2, 2), (2, 3, 2), (3, 2, 3), (1, 4, 1), (4, 1, 4), (1, 5, 2)] + ([] if q else [(2, 4, 2), (3, 3, 2), (3, 3, 3)]):
        t += [('mul', s + (i, 4)) for i in range(4)]
    return t


def run():
    return core.main('C24', FAMILIES, tasks, assumptions=['matrices have at least one row and one column, or none of either', 'the optional C extension is not built here'],
                     exhaustive_note='all binary matrices of the listed shapes, all block sizes, all right-hand sides; larger matrices from parametric families')
