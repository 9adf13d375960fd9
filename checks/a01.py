from common import *
import random

N = 7
ADD, SET, COMPRESS, CLEAR, ROW, ROWS, COL, COLS, ROWCOL, RESIZE, B3, B2, B3F, B2F = range(14)


def sources(): return [('emat', 'emat.cpp', [])]


def ref(ops, v, rows, cols):
    """the matrix after the operations, by the mathematical meaning of each"""
    m = {}
    for t, (c, i, j) in enumerate(ops):
        x = v[9 * t:9 * t + 9]
        if c == ADD: m[i, j] = m.get((i, j), 0) + x[0]
        elif c == SET: m[i, j] = x[0]
        elif c in (CLEAR, RESIZE):
            m = {}
            if c == RESIZE: rows, cols = i, j
        elif c in (B3, B3F, B2, B2F):
            w = 3 if c in (B3, B3F) else 2
            for k in range(w):
                for l in range(w): m[i + k, j + l] = m.get((i + k, j + l), 0) + x[w * k + l]
        elif c != COMPRESS:
            lo, hi = (i, j) if c in (ROWS, COLS) else (i, i)
            m = {p: q for p, q in m.items() if not ((c in (ROW, ROWS, ROWCOL) and lo <= p[0] <= hi) or (c in (COL, COLS, ROWCOL) and lo <= p[1] <= hi))}
    return rows, cols, m


def sequence(rng, rows, cols, n, dense, blocks=True):
    """a list of operations on a rows x cols matrix that ends in a state where the entries may be read"""
    ops = []; C = [ADD] * 6 + [SET] * 3 + [COMPRESS] * 2 + [ROW, ROWS, COL, COLS] * 2 + [ROWCOL] * (0 if dense else 2) + ([B3, B2] if blocks else []) + [CLEAR] * (rng.random() < .2)
    lead = rng.randint(2, max(2, n // 2))
    for t in range(n):
        c = rng.choice([ADD] * 5 + ([B3, B2] if blocks else []) if t < lead else C); ops.append(one(rng, c, rows, cols))
    if rng.random() < .5 and not any(c in (CLEAR,) for c, _, _ in ops): ops.insert(rng.randint(0, 1), (RESIZE, rows, cols))
    return ops + [(COMPRESS, 0, 0)]


def one(rng, c, rows, cols):
    r = lambda k: rng.randrange(k)
    if c in (ADD, SET): return (c, r(rows), r(cols))
    if c in (ROW, ROWCOL): return (c, r(min(rows, cols) if c == ROWCOL else rows), 0)
    if c == COL: return (c, r(cols), 0)
    if c in (ROWS, COLS): return (c,) + tuple(sorted((r(rows if c == ROWS else cols), r(rows if c == ROWS else cols))))
    if c in (B3, B2, B3F, B2F): w = 3 if c in (B3, B3F) else 2; return (c, r(rows - w + 1), r(cols - w + 1))
    return (c, 0, 0)


def symmetric(rng, n):
    """a symmetric pattern, then one row and column cleared"""
    ops = []
    for _ in range(5):
        i, j = rng.randrange(n), rng.randrange(n); ops.append((ADD, i, j))
        if i != j: ops.append((ADD, j, i))
    ops.append((B2, 1, 1)); ops.append((COMPRESS, 0, 0)); ops.append((ROWCOL, rng.randrange(n), 0))
    if rng.random() < .5: ops += [(ADD, 0, n - 1), (ADD, n - 1, 0), (ROWCOL, rng.choice([0, n - 1]), 0)]     # in reopened storage
    return ops


# the operations of interest on a matrix whose storage has been reopened by an insertion
REOPEN = [[(ADD, 0, 1), (ADD, 0, 3), (ADD, 1, 0), (ADD, 1, 1), (ADD, 2, 2), (ADD, 3, 1), (ADD, 3, 3), (COMPRESS, 0, 0), (SET, 1, 3), (SET, 2, 0)] + t for t in
          ([(ROW, 1, 0)], [(COL, 1, 0)], [(ROWS, 1, 2)], [(COLS, 1, 2)], [(ROWCOL, 1, 0)], [(COL, 3, 0), (COMPRESS, 0, 0)], [(ADD, 0, 0), (ADD, 0, 2), (COL, 3, 0)], [(ADD, 0, 0), (ROWCOL, 3, 0)], [(ADD, 3, 0), (COLS, 3, 3)], [(ADD, 0, 3), (ADD, 2, 3), (ROWS, 3, 3)])]
UNSET = [[(ADD, 0, 1), (ADD, 0, 1), (ADD, 2, 1), (ADD, 1, 2)] + t for t in ([(SET, 0, 1)], [(ROW, 0, 0)], [(COL, 1, 0)], [(ROWS, 0, 1)], [(COLS, 1, 2)], [(ROWCOL, 1, 0)], [(CLEAR, 0, 0), (ADD, 1, 1), (COMPRESS, 0, 0)], [(COMPRESS, 0, 0), (CLEAR, 0, 0), (ADD, 1, 1), (ADD, 1, 1), (COMPRESS, 0, 0)], [(COMPRESS, 0, 0), (RESIZE, 3, 5), (ADD, 2, 4), (ADD, 0, 0), (COMPRESS, 0, 0)], [(RESIZE, 3, 5), (ADD, 2, 4), (SET, 0, 0)])]
KIND = {'sr': 'SparseMatrix<RowMajor>', 'sc': 'SparseMatrix<ColMajor>', 'srr': 'SparseMatrix<RowMajor>&', 'scr': 'SparseMatrix<ColMajor>&', 'dr': 'Matrix<RowMajor>', 'dc': 'Matrix<ColMajor>&', 'dcc': 'Matrix<ColMajor> (copied)'}
FN = ['add', 'set', 'compress', 'clear', 'clearRow', 'clearRows', 'clearCol', 'clearCols', 'clearRowCol', 'resize', 'add_block', 'initialize', 'element']


def unit(kind, name, ops, rows, cols, sym=0):
    n = len(ops); V = {'v': ('R', 9 * n)}
    sy = sym     # a symmetric matrix: mirrored entries have the same value

    def vals(v):
        x = list(v.v)
        if sy:
            last = None
            for t, (c, i, j) in enumerate(ops):
                if c == ADD and t and ops[t - 1] == (ADD, j, i) and i != j and t - 1 != last: x[9 * t] = x[9 * t - 9]; last = t
                if c == B2: x[9 * t + 2] = x[9 * t + 1]
        return x

    def post(v, o):
        r, c, m = ref(ops, vals(v), rows, cols)
        out = [('size', E.and_(E.eq(o.r[0], r), E.eq(o.r[1], c)))]
        for i in range(r):
            for j in range(c): out.append(('entry (%d, %d)' % (i, j), E.and_(E.eq(o.e[i * N + j], m.get((i, j), 0)), E.eq(o.u[i * N + j], m.get((i, j), 0)))))
        return out
    return Unit('EigenMatrix<%s>: %s' % (KIND[kind], name), kind, 'emat', V, lambda v: [('in', 'I', [x for op in ops for x in op]), ('val', 'I', n), ('in', 'R', vals(v)), ('val', 'I', rows), ('val', 'I', cols), ('val', 'I', sym), ('out', 'R', 'e', N * N), ('out', 'R', 'u', N * N), ('out', 'I', 'r', 2), ('val', 'I', N)], post,
                sample=lambda rng: {'v': [F(rng.choice([c for c in range(-32, 33) if c]), 8) for _ in range(9 * n)]}, funcs=['EigenMatrix<%s>::%s' % (KIND[kind], f) for f in FN], bounded='the %d operations listed, on a %d x %d matrix' % (n, rows, cols), nsamp=6, limit=120)


def units(tier):
    us = []
    for kind in KIND:
        dense = kind[0] == 'd'; rng = random.Random(7 + len(kind))
        for k, t in enumerate(REOPEN + UNSET):
            if dense and any(c == ROWCOL for c, _, _ in t): continue
            us.append(unit(kind, 'sequence %d' % k, t, 4, 4))
        for k in range(10 if kind in ('sr', 'sc') else 4 if tier == 'quick' else 20):
            rows, cols = rng.choice([(3, 5), (5, 4), (4, 4), (6, 6)])
            us.append(unit(kind, 'sequence r%d' % k, sequence(rng, rows, cols, rng.randint(6, 14), dense), rows, cols))
        if not dense:
            for k in range(5): us.append(unit(kind, 'symmetric %d' % k, symmetric(rng, 5), 5, 5, 1))
        # random sequences on the real code
        L = 30
        V = {'p': ('I', 3 * L, 0, 14), 'v': ('R', 9 * L), 'z': ('I', 2, 3, N)}

        def npost(v, o, L=L):
            r, c, m = ref([tuple(int(x) for x in v.p[3 * t:3 * t + 3]) for t in range(L)], v.v, int(v.z[0]), int(v.z[1]))
            return [('size', E.and_(E.eq(o.r[0], r), E.eq(o.r[1], c)))] + [('entry (%d, %d)' % (i, j), E.and_(E.eq(o.e[i * N + j], m.get((i, j), 0)), E.eq(o.u[i * N + j], m.get((i, j), 0)))) for i in range(r) for j in range(c)]

        def smp(rng, dense=dense, L=L):
            rows, cols = rng.randint(3, N), rng.randint(3, N); s = sequence(rng, rows, cols, L - 2, dense)[:L]; s += [(COMPRESS, 0, 0)] * (L - len(s))
            return {'p': [x for op in s for x in op], 'v': [F(rng.randint(-32, 32), 8) for _ in range(9 * L)], 'z': [rows, cols]}
        us.append(Unit('EigenMatrix<%s>: random sequences' % KIND[kind], kind, 'emat', V, lambda v, L=L: [('in', 'I', v.p), ('val', 'I', L), ('in', 'R', v.v), ('val', 'I', v.z[0]), ('val', 'I', v.z[1]), ('val', 'I', 0), ('out', 'R', 'e', N * N), ('out', 'R', 'u', N * N), ('out', 'I', 'r', 2), ('val', 'I', N)], None, npost=npost,
                       sample=smp, sym=False, funcs=['EigenMatrix<%s>::%s' % (KIND[kind], f) for f in FN], bounded='random sequences of %d operations, matrices up to %d x %d: native sampling, no proof' % (L, N, N), nsamp=200 if tier == 'quick' else 3000))
    for kind in ('vec', 'vecr'):
        for k, (s, ops) in enumerate([(4, [(0, 1), (0, 1), (1, 2), (0, 2), (1, 3), (1, 3), (0, 0)]), (3, [(1, 0), (2, 0), (0, 2), (0, 2)]), (3, [(1, 0), (3, 5), (0, 4), (1, 1)]), (5, [(1, 0), (1, 4), (3, 2), (0, 1)])]):
            def post(v, o, s=s, ops=ops):
                m = {}
                for t, (c, i) in enumerate(ops):
                    if c == 0: m[i] = m.get(i, 0) + v.v[t]
                    elif c == 1: m[i] = v.v[t]
                    else:
                        m = {}
                        if c == 3: s = i
                return [('size', E.eq(o.r[0], s))] + [('element %d' % i, E.and_(E.eq(o.e[i], m.get(i, 0)), E.eq(o.e[N + i], m.get(i, 0)))) for i in range(s)]
            us.append(Unit('EigenVector<VectorXd%s>: sequence %d' % ('&' * (kind == 'vecr'), k), kind, 'emat', {'v': ('R', len(ops))}, lambda v, s=s, ops=ops: [('in', 'I', [x for op in ops for x in op]), ('val', 'I', len(ops)), ('in', 'R', v.v), ('val', 'I', s), ('out', 'R', 'e', 2 * N), ('out', 'I', 'r', 1), ('val', 'I', N)], post,
                           sample=lambda rng, ops=ops: {'v': [F(rng.randint(-32, 32), 8) for _ in ops]}, funcs=['EigenVector::' + f for f in ('add', 'set', 'clear', 'resize', 'element', 'size')], bounded='the %d operations listed' % len(ops), nsamp=5))
    return us
