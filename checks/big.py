"""Larger instances, executed natively through the public interface and judged in exact arithmetic: bounded stand-ins for the sizes beyond
those the proofs cover, and the only units that do not name a private member."""
from common import *
import itertools, math

TXT = 'native sampling of larger instances through the public interface (no proof): '


def sources(part): return [('big_%d' % part, 'big.cpp', ['-DPART=%d' % part] + (['-fno-access-control'] if part == 3 else []))]


def mk(name, fn, part, vars, args, npost, smp, funcs, size, n, **kw):
    return Unit(name, fn, 'big_%d' % part, vars, args, None, npost=npost, sample=smp, sym=False, bounded=TXT + size, funcs=funcs, nsamp=n, **kw)


def solve(A, b):
    """exact solution of a small linear system, or None"""
    n = len(A); M = [list(r) + [y] for r, y in zip(A, b)]
    for c in range(n):
        p = next((r for r in range(c, n) if M[r][c] != 0), None)
        if p is None: return None
        M[c], M[p] = M[p], M[c]
        M[c] = [x / M[c][c] for x in M[c]]
        for r in range(n):
            if r != c and M[r][c] != 0: M[r] = [x - M[r][c] * y for x, y in zip(M[r], M[c])]
    return [r[n] for r in M]


def det3(A): return A[0][0] * (A[1][1] * A[2][2] - A[1][2] * A[2][1]) - A[0][1] * (A[1][0] * A[2][2] - A[1][2] * A[2][0]) + A[0][2] * (A[1][0] * A[2][1] - A[1][1] * A[2][0])


def close(a, b, s=1.0): return math.isfinite(a) and abs(a - float(b)) <= 1e-9 * max(1.0, s, abs(float(b)))


# ---------------------------------------------------------------- meshes of simplices
def simplices(D, m):
    """connectivity of a grid of m^D cells cut in simplices, over (m+1)^D nodes"""
    id = lambda c: sum(x * (m + 1) ** k for k, x in enumerate(c))
    out = []
    for c in itertools.product(range(m), repeat=D):
        for o in itertools.permutations(range(D)):
            p = list(c); s = [id(p)]
            for a in o: p[a] += 1; s.append(id(p))
            out.append(s)
    return out


def grid_nodes(D, m, rng, jit=True):
    """the nodes of that grid: jittered, scaled and translated"""
    h = F(2) ** rng.randint(-3, 3); t = [F(rng.randint(-40, 40), 4) for _ in range(D)]
    out = []
    for c in itertools.product(range(m + 1), repeat=D):
        c = c[::-1]
        out.append([h * (t[k] + c[k] + (F(rng.randint(-12, 12), 64) if jit else 0)) for k in range(D)])
    return out


SX = {'Seg1L': (1, 14), 'Tri2L': (2, 4), 'TetL': (3, 2)}


def bary(N, p):
    """barycentric coordinates (of node 1..) of p in the simplex with nodes N"""
    D = len(p)
    return solve([[N[j + 1][k] - N[0][k] for j in range(D)] for k in range(D)], [p[k] - N[0][k] for k in range(D)])


def lam(b): return [1 - sum(b)] + list(b)


def bary_units():
    us = []
    for nm, (D, m) in SX.items():
        con = simplices(D, m); ne = len(con); nn = (m + 1) ** D; np = 30; cls = ELEMS[nm].cls

        def smp(rng, D=D, m=m, con=con, ne=ne, nn=nn, np=np):
            X = grid_nodes(D, m, rng, rng.random() < .7); P = []
            lo = [min(x[k] for x in X) for k in range(D)]; hi = [max(x[k] for x in X) for k in range(D)]
            far = rng.random() < .3
            for _ in range(np):
                t = rng.random(); S = [X[i] for i in con[rng.randrange(ne)]]
                if t < .15: P.append(list(rng.choice(S)))
                elif t < .3: P.append([(a + b) / 2 for a, b in zip(S[0], S[1])])
                elif t < .5: w = [rng.randint(0, 8) for _ in S]; w[0] += 1; P.append([sum(F(c, sum(w)) * s[k] for c, s in zip(w, S)) for k in range(D)])
                else: e = F(3) if far and t > .6 else F(1, 4); P.append([lo[k] + (hi[k] - lo[k]) * (F(rng.randint(-64, 128), 64) * e if t > .8 else F(rng.randint(0, 64), 64)) for k in range(D)])
            # positions are given as doubles
            P = [[F(float(x)) for x in p] for p in P]
            rn = rng.sample(range(ne), ne)
            return {'x': [c for x in X for c in x], 'i': [a for e in rn for a in (lambda s: s[1:] + s[:1] if rng.random() < .3 else s)(con[e])], 'p': [c for p in P for c in p], 'f': [F(rng.randint(-64, 64), 16) for _ in range(2 * nn)], 'g': [F(rng.randint(-64, 64), 16) for _ in range(2 * np)]}

        def post(v, o, D=D, ne=ne, np=np):
            X = rows(v.x, len(v.x) // D, D); con = rows(v.i, ne, D + 1); out = [('one entry per embedded point', o.el[np] == np)]
            outs = []
            for k in range(np):
                p = v.p[D * k:D * k + D]; B = [bary([X[i] for i in s], p) for s in con]
                mg = [min(lam(b)) if b else None for b in B]
                best = max(x for x in mg if x is not None); el = o.el[k]
                if el == -1: outs.append(k)
                if best >= 0: out.append(('a point of the domain is found', 0 <= el < ne))
                elif best < F(-1, 10**6): out.append(('a point outside is reported so', el == -1))
                if 0 <= el < ne:
                    out.append(('the element holds the point', mg[el] is not None and mg[el] > F(-1, 10**6)))
                    if B[el]:
                        out.append(('local coordinates', all(abs(a - float(2 * b - 1 if D == 1 else b)) < 1e-7 for a, b in zip(o.xi[D * k:D * k + D], B[el]))))
                        for c in range(2): out.append(('interpolated value', abs(o.g[2 * k + c] - float(sum(l * v.f[2 * i + c] for l, i in zip(lam(B[el]), con[el])))) < 1e-6))
                else: out.append(('values of an outside point are left alone', all(o.g[2 * k + c] == float(v.g[2 * k + c]) for c in range(2))))
            out.append(('exactly the points found in no element are listed', o.out[np] == len(outs) and o.out[:len(outs)] == outs))
            return out
        us.append(mk('BarycentricContainer<%s>: %d elements, %d points' % (cls, ne, np), nm + '_bigbary', 1, {'x': ('R', nn * D), 'i': ('I', ne * (D + 1)), 'p': ('R', np * D), 'f': ('R', 2 * nn), 'g': ('R', 2 * np)},
                     lambda v, nn=nn, ne=ne, np=np, D=D: [('in', 'R', v.x), ('val', 'I', nn), ('in', 'I', v.i), ('val', 'I', ne), ('in', 'R', v.p), ('val', 'I', np), ('in', 'R', v.f), ('out', 'I', 'el', np + 1), ('out', 'R', 'xi', np * D), ('out', 'I', 'out', np + 1), ('io', 'R', 'g', v.g)],
                     post, smp, ['BarycentricContainer::BarycentricContainer', 'BarycentricContainer::interpolate'], '%d elements, %d points' % (ne, np), 12))
    return us


def hash_units():
    us = []
    for nm, (D, m) in SX.items():
        ne = 16; np = 20; N = D + 1; cls = ELEMS[nm].cls

        def smp(rng, D=D, N=N, ne=ne, np=np):
            h = F(2) ** rng.randint(-2, 3); n = []
            rep = rng.random() < .3; c0 = [F(rng.randint(-24, 24), 8) for _ in range(D)]
            for e in range(ne):
                c = c0 if rep else [F(rng.randint(-24, 24), 8) for _ in range(D)]; s = F(rng.choice([1, 4, 16, 24 if D < 3 else 12]), 8)
                for a in range(N): n += [h * (c[k] + s * F(rng.randint(-8, 8), 8)) for k in range(D)]
            P = []
            for _ in range(np): P += [h * (F(rng.randint(-5, 5)) if rng.random() < .3 else F(rng.randint(-40, 40), 8) + F(1, 16)) for _ in range(D)]
            return {'n': n, 'h': [h], 'p': P}

        def post(v, o, D=D, N=N, ne=ne, np=np):
            h = v.h[0]; out = []
            bx = []
            for e in range(ne):
                Q = rows(v.n[e * N * D:(e + 1) * N * D], N, D); bx.append([(min(q[k] for q in Q), max(q[k] for q in Q)) for k in range(D)])
            for k in range(np):
                p = v.p[D * k:D * k + D]; r = o.o[k * (ne + 1):(k + 1) * (ne + 1)]
                cs = []
                for x in p:
                    f = x // h; cs.append((f - 1, f) if x == f * h else (f,))
                for e in range(ne):
                    box = all(bx[e][j][0] <= p[j] <= bx[e][j][1] for j in range(D))
                    cell = any(all(bx[e][j][0] // h <= c[j] <= bx[e][j][1] // h for j in range(D)) for c in itertools.product(*cs))
                    if box: out.append(('an element whose bounding box holds the point is returned', r[e] == 1))
                    if not cell: out.append(('an element away from the cells of the point is not returned', r[e] == 0))
                out.append(('nothing else is returned', r[ne] == sum(r[:ne])))
            return out
        us.append(mk('HashGrid<%s>: %d elements, %d points' % (cls, ne, np), nm + '_bighash', 1, {'n': ('R', ne * N * D), 'h': ('R', 1), 'p': ('R', np * D)},
                     lambda v, ne=ne, np=np: [('in', 'R', v.n), ('val', 'I', ne), ('val', 'R', v.h[0]), ('in', 'R', v.p), ('val', 'I', np), ('out', 'I', 'o', np * (ne + 1))], post, smp, ['HashGrid::add', 'HashGrid::get'], '%d elements, %d points' % (ne, np), 40))
    return us


def dom_units():
    us = []
    for nm in ('Seg2L', 'Tri2L', 'Quad3Q', 'TetQ', 'HexL'):
        e = ELEMS[nm]; ne = 23; nn = 41; S = e.n * e.dim

        def post(v, o, e=e, ne=ne, nn=nn):
            want = [float(v.x[i * e.dim + k]) for i in v.i for k in range(e.dim)]
            return [('elements of the domain', o.o1 == want), ('elements of the domain of a copy of the mesh, the mesh being gone', o.o2 == want), ('elements of the domain of a moved mesh', o.o3 == want), ('counts and attachment', o.c == [ne, nn, 1, ne, 1, ne])]
        us.append(mk('Domain<%s>: %d elements, %d nodes' % (e.cls, ne, nn), nm + '_bigdom', 2, {'x': ('R', nn * e.dim), 'i': ('I', ne * e.n)}, lambda v, e=e, ne=ne, nn=nn, S=S: [('in', 'R', v.x), ('val', 'I', nn), ('in', 'I', v.i), ('val', 'I', ne), ('out', 'R', 'o1', ne * S), ('out', 'R', 'o2', ne * S), ('out', 'R', 'o3', ne * S), ('out', 'I', 'c', 6)],
                     post, lambda rng, e=e, ne=ne, nn=nn: {'x': [F(rng.randint(-999, 999), 16) for _ in range(nn * e.dim)], 'i': [rng.randrange(nn) for _ in range(ne * e.n)]}, ['Domain::element', 'Mesh::add_domain', 'Mesh::Mesh'], '%d elements, %d nodes' % (ne, nn), 6))
    return us


def reg_units():
    n = 40

    def post(v, o):
        L = []; out = []
        for s, c in enumerate(v.c):
            j = c % 8; hit = [x for x in L if x[0] == j]
            if c < 8: r = int(not hit); L = L + [(j, s)] if not hit else L
            elif c < 24: r = int(bool(hit)); L = [x for x in L if x[0] != j]
            else: r = 1
            out += [('what an operation returns', o.r[s] == r), ('number of domains', o.n[s] == len(L))]
        for j in range(8):
            k = [i for i, x in enumerate(L) if x[0] == j]
            out.append(('domains found by name, in order of addition, attached to the mesh', o.o[3 * j:3 * j + 3] == ([k[0], L[k[0]][1], 1] if k else [-1, -1, -1])))
        return out

    def smp(rng):
        few = rng.choice([2, 4, 8]); t = rng.choice([.35, .5, .7]); out = []
        for _ in range(n):
            u = rng.random()
            out.append(rng.randrange(few) if u < t else rng.choice([8, 16]) + rng.randrange(few) if u < .9 else 24 + rng.randrange(3))
        return {'c': out}
    return [mk('Mesh: histories of %d operations' % n, 'reg_long', 2, {'c': ('I', n)}, lambda v: [('in', 'I', v.c), ('val', 'I', n), ('out', 'I', 'r', n), ('out', 'I', 'o', 24), ('out', 'I', 'n', n)], post, smp, ['Mesh::add_domain', 'Mesh::remove_domain', 'Mesh::remove', 'Mesh::domain', 'Mesh copies and moves'], '%d operations over eight names' % n, 150)]


# ---------------------------------------------------------------- force fields
def hyper_units():
    D, m = 3, 1; con = [s for s in simplices(3, 1)] + [[8, 1, 3, 7]]; nn = 9; ne = len(con); st = 3

    def field(X0, con, la, mu, x):
        f = [[F(0)] * 3 for _ in X0]; en = F(0)
        for s in con:
            J = [[X0[s[j + 1]][k] - X0[s[0]][k] for j in range(3)] for k in range(3)]; dj = det3(J)
            Ji = [solve(J, [F(int(i == c)) for i in range(3)]) for c in range(3)]     # columns of the inverse
            G = [[Ji[c][j] for c in range(3)] for j in range(3)]; G = [[-sum(g[c] for g in G) for c in range(3)]] + G     # gradients of the shape functions
            Fm = [[sum(x[s[a]][i] * G[a][j] for a in range(4)) for j in range(3)] for i in range(3)]
            Em = [[(sum(Fm[k][i] * Fm[k][j] for k in range(3)) - int(i == j)) / 2 for j in range(3)] for i in range(3)]; tr = sum(Em[i][i] for i in range(3))
            S = [[la * tr * int(i == j) + 2 * mu * Em[i][j] for j in range(3)] for i in range(3)]; V = abs(dj) / 6
            P = [[sum(Fm[i][k] * S[k][j] for k in range(3)) for j in range(3)] for i in range(3)]
            for a in range(4):
                for i in range(3): f[s[a]][i] -= V * sum(P[i][j] * G[a][j] for j in range(3))
            en += V * (la / 2 * tr * tr + mu * sum(Em[i][j] ** 2 for i in range(3) for j in range(3)))
        return [c for r in f for c in r], en

    def post(v, o):
        X0 = rows(v.x0, nn, 3); C = rows(v.i, ne, 4); nu = v.nu[0]; y = v.y[0]; la = y * nu / ((1 + nu) * (1 - 2 * nu)); mu = y / (2 * (1 + nu)); out = []
        for t in range(st):
            x = v.x[t * 3 * nn:(t + 1) * 3 * nn]; w, en = field(X0, C, la, mu, rows(x, nn, 3)); sc = max(1.0, max(abs(float(c)) for c in w))
            fd = {}
            for q in (1, -1, 2, -2): fd[q] = field(X0, C, la, mu, rows([a + q * b for a, b in zip(x, v.dx)], nn, 3))[0]
            dw = [(8 * (a - b) - (c - d)) / 12 for a, b, c, d in zip(fd[1], fd[-1], fd[2], fd[-2])]; sd = max(1.0, max(abs(float(c)) for c in dw))
            sl = slice(t * 3 * nn, (t + 1) * 3 * nn)
            out += [('forces of step %d' % t, all(close(a, b, sc) for a, b in zip(o.f[sl], w))), ('product with the stiffness, step %d' % t, all(close(a, b, sd) for a, b in zip(o.df[sl], dw))), ('stiffness matrix, step %d' % t, all(close(a, -b, sd) for a, b in zip(o.K[sl], dw))), ('energy, step %d' % t, close(o.en[t], en))]
        return out

    def smp(rng):
        while True:
            X = [[F(c) + F(rng.randint(-8, 8), 64) for c in p[::-1]] for p in itertools.product((0, 1), repeat=3)] + [[F(5, 2), F(rng.randint(-8, 8), 16), F(3, 4)]]
            C = []
            for s in con:
                d = det3([[X[s[j + 1]][k] - X[s[0]][k] for j in range(3)] for k in range(3)])
                if d == 0: break
                C.append(s if d > 0 else [s[0], s[2], s[1], s[3]])
            if len(C) == ne: break
        rng.shuffle(C); pm = rng.sample(range(nn), nn); Y = [None] * nn
        for a, b in enumerate(pm): Y[b] = X[a]
        x0 = [c for r in Y for c in r]
        return {'x0': x0, 'i': [pm[a] for s in C for a in s], 'y': [F(rng.randint(1, 40), 4)], 'nu': [F(rng.randint(0, 28), 64)], 'x': [c + F(rng.randint(-16, 16), 64) for _ in range(st) for c in x0], 'dx': [F(rng.randint(-16, 16), 16) for _ in x0]}
    return [mk('HyperelasticForcefield<Tetrahedron<Linear>>: %d steps on %d elements' % (st, ne), 'tet_bighyper', 3, {'x0': ('R', 3 * nn), 'i': ('I', 4 * ne), 'y': ('R', 1), 'nu': ('R', 1), 'x': ('R', 3 * nn * st), 'dx': ('R', 3 * nn)},
               lambda v: [('in', 'R', v.x0), ('val', 'I', nn), ('in', 'I', v.i), ('val', 'I', ne), ('val', 'R', v.y[0]), ('val', 'R', v.nu[0]), ('in', 'R', v.x), ('in', 'R', v.dx), ('val', 'I', st), ('out', 'R', 'f', 3 * nn * st), ('out', 'R', 'df', 3 * nn * st), ('out', 'R', 'en', st), ('out', 'R', 'K', 3 * nn * st)],
               post, smp, ['HyperelasticForcefield::init', 'HyperelasticForcefield::addForce', 'HyperelasticForcefield::addDForce', 'HyperelasticForcefield::K', 'HyperelasticForcefield::getPotentialEnergy'], '%d elements, %d positions in a row' % (ne, st), 12)]


def tract_units():
    con = simplices(2, 2); nn = 9; ne = len(con); n = 30

    def post(v, o):
        X = rows(v.x, nn, 3); C = rows(v.i, ne, 3); w = [0.0] * nn; A = 0.0
        for s in C:
            a, b = ([X[s[j]][k] - X[s[0]][k] for k in range(3)] for j in (1, 2))
            c = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]; ar = math.sqrt(float(dot(c, c))) / 2; A += ar
            for i in s: w[i] += ar / 3
        t = [float(c) for c in v.t]; nt = math.sqrt(sum(c * c for c in t)); sl = v.s[0]; const = sl == 0; wait = v.w[0]; out = []
        cur, cnt = F(1) if const else F(0), wait
        for k in range(n + 1):
            if k:
                op = v.h[k - 1]
                if op == 0 and not const and cur < 1:
                    cnt += 1
                    if cnt >= wait: cnt = 0; cur = min(F(1), cur + sl)
                elif op == 2: cnt = wait; cur = F(1) if const else F(0)
            f = o.f[3 * nn * k:3 * nn * (k + 1)]
            out += [('forces after %d events' % k, all(close(f[3 * a + i], float(cur) * t[i] * w[a], nt * A) for a in range(nn) for i in range(3))), ('total load after %d events' % k, close(o.tl[k], float(cur) * nt * A, nt * A))]
        return out

    def smp(rng):
        X = [[F(i % 3) + F(rng.randint(-12, 12), 64), F(i // 3) + F(rng.randint(-12, 12), 64), F(rng.randint(-32, 32), 32)] for i in range(nn)]
        t = [F(rng.randint(-16, 16), 4) for _ in range(3)]; t[0] = t[0] or F(1)
        return {'x': [c for r in X for c in r], 'i': [a for s in rng.sample(con, ne) for a in s], 't': t, 's': [rng.choice([F(0), F(1, 8), F(1, 4), F(3, 16), F(3, 8), F(1), F(2), F(5, 16)])], 'w': [rng.choice([1, 1, 2, 3, 4])], 'h': [rng.choice([0] * 9 + [1] * 2 + [2]) if rng.random() < .9 else 0 for _ in range(n)]}
    return [mk('TractionForcefield<Triangle<3,Linear>>: histories of %d events on %d elements' % (n, ne), 'tri_bigtract', 3, {'x': ('R', 3 * nn), 'i': ('I', 3 * ne), 't': ('R', 3), 's': ('R', 1), 'w': ('I', 1), 'h': ('I', n)},
               lambda v: [('in', 'R', v.x), ('val', 'I', nn), ('in', 'I', v.i), ('val', 'I', ne), ('in', 'R', v.t), ('val', 'R', v.s[0]), ('val', 'I', v.w[0]), ('in', 'I', v.h), ('val', 'I', n), ('out', 'R', 'f', 3 * nn * (n + 1)), ('out', 'R', 'tl', n + 1)],
               post, smp, ['TractionForcefield::init', 'TractionForcefield::handleEvent', 'TractionForcefield::reset', 'TractionForcefield::addForce'], '%d elements, %d events in a row' % (ne, n), 60)]


# ---------------------------------------------------------------- VTK
def vtk_units(types):
    us = []; nc, nn = 24, 37
    for D in (1, 2, 3):
        kinds = [t for t in types if t != 25]; sup = [t for t in kinds if types[t][2] <= D]; size = {**{t: types[t][1] for t in kinds}, 13: 6, 1: 1}; tot = 10 * nc

        def smp(rng, D=D, kinds=kinds, size=size, tot=tot):
            few = rng.sample(sorted(size), rng.randint(2, 6)); ty = [rng.choice(few) for _ in range(nc)]
            x = [F(rng.randint(-64, 64), 8) for _ in range(3 * nn)]
            flat = rng.sample(range(3), 3 - D)
            for a in flat:
                for i in range(nn): x[3 * i + a] = x[a]
            if D < 3 and rng.random() < .3:      # the only point that differs along an axis
                a = next(b for b in range(3) if b not in flat)
                for i in range(nn): x[3 * i + a] = F(1)
                x[3 * rng.randrange(nn) + a] = F(2)
            return {'x': x, 't': ty, 'i': [rng.randrange(nn) for _ in range(tot)]}

        def post(v, o, D=D, sup=sup, size=size):
            ax = [a for a in range(3) if any(v.x[3 * i + a] != v.x[a] for i in range(nn))] if D < 3 else [0, 1, 2]
            out = [('one node per point', o.s[0] == nn), ('node positions', o.p == [float(v.x[3 * i + a]) for i in range(nn) for a in ax])]
            cells = {}; k = 0
            for t in v.t:
                ids = v.i[k:k + size[t]]; k += size[t]
                if t in sup: cells.setdefault(t, []).append(ids)
            out.append(('one domain per supported cell type', o.s[1] == len(cells)))
            for d, (t, c) in enumerate(cells.items()):
                out.append(('domain of type %d' % t, o.s[2 + 3 * d:5 + 3 * d] == [t, len(c), size[t]]))
                out.append(('cells of type %d' % t, all(o.i[20 * nc * d + 20 * e:20 * nc * d + 20 * e + size[t]] == r for e, r in enumerate(c))))
            return out
        us.append(mk('VTKReader<%d>: %d points, %d cells' % (D, nn, nc), 'vtk_big%d' % D, 4, {'x': ('R', 3 * nn), 't': ('I', nc), 'i': ('I', tot)},
                     lambda v, D=D, size=size: [('in', 'R', v.x), ('val', 'I', nn), ('val', 'I', nc), ('in', 'I', v.t), ('in', 'I', [sizeterm(t, size) for t in v.t]), ('in', 'I', v.i), ('out', 'I', 's', 32), ('out', 'I', 'i', 200 * nc), ('out', 'R', 'p', D * nn)], post, smp, ['VTKReader::Read', 'VTKReader::mesh'], '%d points, %d cells' % (nn, nc), 30))
    return us


def sizeterm(t, size):
    r = 0
    for k, n in size.items(): r = E.ite(E.eq(t, k), n, r)
    return r
