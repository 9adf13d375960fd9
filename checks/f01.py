from common import *
import big
from s01 import diff
from m01 import VOIGT

H = F(1, 2)
FE = {'tet': ('TetL', 5, 2, 1), 'hex': ('HexL', 8, 1, 8), 'tet10': ('TetQ', 10, 1, 4)}
PART = {'tet': 1, 'hex': 2, 'tet10': 3}
# concrete rest shapes of the stiffness units: two tetrahedra sharing a face with opposite orderings of its edges, a distorted hexahedron
REST = {'tet': ([0, 0, 0, 2, 0, F(1, 4), F(1, 2), F(3, 2), 0, F(1, 4), F(1, 2), 1, 2, 2, F(3, 2)], [0, 1, 2, 3, 2, 1, 4, 3]),
        'hex': ([0, 0, 0, 2, F(1, 4), 0, 2, 1, F(1, 8), F(-1, 4), 1, 0, 0, 0, 1, 2, 0, 1, F(9, 4), 1, F(3, 2), 0, F(5, 4), 1], [1, 2, 3, 0, 5, 6, 7, 4])}


def sources(): return [('ff_%d' % p, 'ff.cpp', ['-DPART=%d' % p, '-fno-access-control']) for p in (1, 2, 3)] + big.sources(3)


def matT(A): return [list(r) for r in zip(*A)]


def mul(A, B): return [[dot(r, c) for c in matT(B)] for r in A]


def Fgrad(xs, dN):
    """sum of x_a (x) dN_a"""
    return [[sum((xs[a][i] * dN[a][j] for a in range(len(xs))), F(0)) for j in range(3)] for i in range(3)]


def dN_of(e, X, xi):
    J = e.jac(X, xi); Ji = spec.inv(J); dL = e.dL(xi)
    return [[dot(r, [Ji[k][j] for k in range(3)]) for j in range(3)] for r in dL], abs(spec.det(J))


def gp_of(o, NG): return [(o.gp[4 * g:4 * g + 3], o.gp[4 * g + 3]) for g in range(NG)]


near_ = near


def units(tier):
    us = []
    rr = lambda rng, n, d=16: [F(rng.randint(-2 * d, 2 * d), d) for _ in range(n)]
    for nm, (en, NN, NE, NG) in FE.items():
        e = ELEMS[en]; N = e.n; mod = 'ff_%d' % PART[nm]
        cl = 'HyperelasticForcefield<%s>' % e.cls
        idx = {'tet': REST['tet'][1], 'hex': REST['hex'][1], 'tet10': [3, 1, 0, 2, 4, 9, 6, 7, 5, 8]}[nm]
        con = [[idx[k * N + a] for a in range(N)] for k in range(NE)]
        Q = NE * NG

        # ---- integration points
        def postg(v, o, e=e, N=N, NG=NG):
            X = rows(v.n, N, 3); out = []
            for g in range(NG):
                xi, w = o.gp[4 * g:4 * g + 3], o.gp[4 * g + 3]
                J = e.jac(X, xi); dL = e.dL(xi); D = spec.det(J)
                B = rows(o.g[g * N * 3:(g + 1) * N * 3], N, 3)
                out.append(('point %d: weight of the quadrature' % g, E.eq(o.w[g], w)))
                out.append(('point %d: absolute determinant of the jacobian' % g, E.and_(E.ge(o.d[g], 0), E.or_(near(o.d[g], D), near(o.d[g], -D)))))
                out += [('point %d: gradient of the shape function %d in the world frame' % (g, a), E.and_(*[near(dot(B[a], [J[k][j] for k in range(3)]), dL[a][j]) for j in range(3)])) for a in range(N)]
            return out
        nodes = lambda v, e=e, nm=nm: list(v.n) if nm == 'tet' else [v.c[i] + dot(v.A[3 * i:3 * i + 3], list(x)) for x in e.cnodes for i in range(3)]   # every tetrahedron, every affine image of the reference cell

        def postg_(v, o, postg=postg, nodes=nodes): return postg(type('V', (), {'n': nodes(v)}), o)
        det0 = lambda v, e=e, N=N, nodes=nodes: [E.ne(spec.det(e.jac(rows(nodes(v), N, 3), (F(0),) * 3)), 0)]
        V = {'n': ('R', 3 * N)} if nm == 'tet' else {'c': ('R', 3), 'A': ('R', 9)}
        us.append(Unit(cl + '.get_gauss_nodes', nm + '_gauss', mod, V, lambda v, N=N, NG=NG, nodes=nodes: [('in', 'R', nodes(v)), ('out', 'R', 'gp', 4 * NG), ('out', 'R', 'w', NG), ('out', 'R', 'd', NG), ('out', 'R', 'g', NG * N * 3)],
                       postg_, pre=det0, sample=lambda rng, V=V: {k: rr(rng, x[1]) for k, x in V.items()}, funcs=[cl + '::get_gauss_nodes'], bounded=None if nm == 'tet' else 'affine images of the reference cell'))

        # ---- forces and energy, arbitrary quadrature data
        mats = [('S constant', list(range(9)))] + ([('S depends on J and C', list(range(27)))] if nm == 'tet' else [])
        for mname, act in mats:
            V = {'w': ('R', Q), 'd': ('R', Q), 'g': ('R', Q * N * 3), 'p': ('R', len(act)), 'x': ('R', 3 * NN), 'f': ('R', 3 * NN)}
            par = lambda v, act=act: [v.p[act.index(i)] if i in act else F(0) for i in range(27)]

            def post(v, o, con=con, N=N, NN=NN, NE=NE, NG=NG, par=par):
                p = par(v); X = rows(v.x, NN, 3)
                f = [[v.f[3 * i + k] for k in range(3)] for i in range(NN)]
                for k in range(NE):
                    xs = [X[i] for i in con[k]]
                    for g in range(NG):
                        q = k * NG + g; dN = rows(v.g[q * N * 3:(q + 1) * N * 3], N, 3)
                        Fg = Fgrad(xs, dN); J = spec.det(Fg); C = mul(matT(Fg), Fg)
                        S = [[p[3 * i + j] + p[9 + 3 * i + j] * J + p[18 + 3 * i + j] * C[i][j] for j in range(3)] for i in range(3)]
                        P = mul(Fg, S)
                        for a in range(N):
                            for i in range(3):
                                f[con[k][a]][i] = f[con[k][a]][i] - v.w[q] * v.d[q] * dot(P[i], dN[a])
                return [('material parameters refreshed, stiffness marked out of date', E.and_(E.eq(o.c[0], 1), E.eq(o.c[1], 0)))] + [
                    ('force %d of node %d' % (k, i), E.eq(o.f[3 * i + k], f[i][k])) for i in range(NN) for k in range(3)]
            us.append(Unit('%s.addForce (%s)' % (cl, mname), nm + '_force', mod, V, lambda v, idx=idx, par=par, NN=NN: [('in', 'I', idx), ('in', 'R', v.w), ('in', 'R', v.d), ('in', 'R', v.g), ('in', 'R', par(v)), ('in', 'R', v.x), ('io', 'R', 'f', v.f), ('out', 'I', 'c', 2)],
                           post, sample=lambda rng, V=V: {k: rr(rng, x[1]) for k, x in V.items()}, funcs=[cl + '::addForce'], bounded='meshes of %d element%s' % (NE, 's' * (NE > 1)), nsamp=6))
        # ---- potential energy
        act = [0] + ([1] if nm == 'tet' else []) + list(range(2, 11))
        V = {'x0': ('R', 3 * NN), 'w': ('R', Q), 'd': ('R', Q), 'g': ('R', Q * N * 3), 'p': ('R', len(act)), 'x': ('R', 3 * NN)}
        par = lambda v, act=act: [v.p[act.index(i)] if i in act else F(0) for i in range(11)]

        def poste(v, o, con=con, N=N, NN=NN, NE=NE, NG=NG, par=par):
            p = par(v); U = [[a - b for a, b in zip(r, s)] for r, s in zip(rows(v.x, NN, 3), rows(v.x0, NN, 3))]; tot = F(0)
            for k in range(NE):
                us_ = [U[i] for i in con[k]]
                for g in range(NG):
                    q = k * NG + g; G = Fgrad(us_, rows(v.g[q * N * 3:(q + 1) * N * 3], N, 3))
                    Fg = [[G[i][j] + int(i == j) for j in range(3)] for i in range(3)]
                    C = mul(matT(Fg), Fg); ps = p[0] + sum((p[2 + 3 * i + j] * C[i][j] for i in range(3) for j in range(3)), F(0))
                    if not (isinstance(p[1], F) and p[1] == 0): ps = ps + p[1] * spec.det(Fg)
                    tot = tot + v.w[q] * v.d[q] * ps
            return [('energy: integral of the strain energy density', E.eq(o.ret, tot))]
        us.append(Unit(cl + '.getPotentialEnergy', nm + '_energy', mod, V, lambda v, idx=idx, par=par: [('in', 'R', v.x0), ('in', 'I', idx), ('in', 'R', v.w), ('in', 'R', v.d), ('in', 'R', v.g), ('in', 'R', par(v)), ('in', 'R', v.x)],
                       poste, ret='R', sample=lambda rng, V=V: {k: rr(rng, x[1]) for k, x in V.items()}, funcs=[cl + '::getPotentialEnergy'], bounded='meshes of %d element%s' % (NE, 's' * (NE > 1)), nsamp=6))

        # ---- initialize_elements
        if nm == 'tet':
            def posti(v, o, e=e, N=N, NG=NG, NE=NE, con=con, NN=NN):
                X = rows(v.x, NN, 3); out = [('one set of integration points per element', E.eq(o.c[0], NE))]
                for k in range(NE):
                    for g in range(NG):
                        q = k * NG + g; J = e.jac([X[i] for i in con[k]], o.gp[4 * g:4 * g + 3]); dL = e.dL(o.gp[4 * g:4 * g + 3]); D = spec.det(J)
                        B = rows(o.g[q * N * 3:(q + 1) * N * 3], N, 3)
                        out.append(('element %d, point %d: weight and absolute determinant' % (k, g), E.and_(E.eq(o.w[q], o.gp[4 * g + 3]), E.ge(o.d[q], 0), E.or_(near(o.d[q], D), near(o.d[q], -D)))))
                        out += [('element %d, point %d: gradient of the shape function %d in the world frame' % (k, g, a), E.and_(*[near(dot(B[a], [J[m][j] for m in range(3)]), dL[a][j]) for j in range(3)])) for a in range(N)]
                return out
            us.append(Unit(cl + '.initialize_elements', nm + '_init', mod, {'x': ('R', 3 * NN)}, lambda v, idx=idx, Q=Q, NG=NG, N=N: [('in', 'R', v.x), ('in', 'I', idx), ('out', 'R', 'gp', 4 * NG), ('out', 'R', 'w', Q), ('out', 'R', 'd', Q), ('out', 'R', 'g', Q * N * 3), ('out', 'I', 'c', 1)],
                           posti, pre=lambda v, e=e, con=con, NN=NN: [E.ne(spec.det(e.jac([rows(v.x, NN, 3)[i] for i in c], (F(0),) * 3)), 0) for c in con], sample=lambda rng, NN=NN: {'x': rr(rng, 3 * NN)}, funcs=[cl + '::initialize_elements'], bounded='meshes of %d elements' % NE, nsamp=6))

        # ---- Saint-Venant-Kirchhoff: forces, stiffness, differential forces
        if nm in REST:
            nu = F(1, 4); n3 = 3 * NN; gsym = nm == 'tet'
            import random
            rg = random.Random(7); gc = [F(rg.randint(-32, 32), 16) for _ in range(Q * N * 3)]; wc = [F(rg.randint(1, 16), 8) for _ in range(2 * Q)]

            def data(v, gsym=gsym, gc=gc, wc=wc, Q=Q): return (v.w, v.d, v.g) if gsym else (wc[:Q], wc[Q:], gc)

            def posts(v, o, con=con, N=N, NN=NN, NE=NE, NG=NG, nu=nu, n3=n3, data=data, full=nm == 'tet' or tier == 'thorough'):
                y, k_ = v.y[0], v.k[0]; mu = y / (2 * (1 + nu)); l = y * nu / ((1 + nu) * (1 - 2 * nu)); W, D, G = data(v)
                X = rows(v.x, NN, 3); f = [[F(0)] * 3 for _ in range(NN)]; K = [[F(0)] * n3 for _ in range(n3)]
                for k in range(NE):
                    c = con[k]
                    for g_ in range(NG):
                        q = k * NG + g_; dN = rows(G[q * N * 3:(q + 1) * N * 3], N, 3); s = W[q] * D[q]
                        Fg = Fgrad([X[i] for i in c], dN); C = mul(matT(Fg), Fg)
                        Eg = [[H * (C[i][j] - int(i == j)) for j in range(3)] for i in range(3)]; tr = Eg[0][0] + Eg[1][1] + Eg[2][2]
                        S = [[2 * mu * Eg[i][j] + (l * tr if i == j else F(0)) for j in range(3)] for i in range(3)]
                        P = mul(Fg, S); B = [[dot(Fg[i], dN[a]) for i in range(3)] for a in range(N)]; b = mul(Fg, matT(Fg))
                        Sd = [[dot(S[i], dN[a]) for i in range(3)] for a in range(N)]
                        for a in range(N):
                            for i in range(3): f[c[a]][i] = f[c[a]][i] - s * dot(P[i], dN[a])
                            for bb in range(N):
                                g = dot(dN[a], Sd[bb]); dd = dot(dN[a], dN[bb])
                                for i in range(3):
                                    for j in range(3):
                                        t = l * B[a][i] * B[bb][j] + mu * (b[i][j] * dd + B[bb][i] * B[a][j])
                                        if i == j: t = t + g
                                        K[3 * c[a] + i][3 * c[bb] + j] = K[3 * c[a] + i][3 * c[bb] + j] + s * t
                out = [('force %d of node %d' % (k, i), E.eq(o.f[3 * i + k], f[i][k])) for i in range(NN) for k in range(3)]
                out.append(('stiffness up to date, of size 3n x 3n', E.and_(E.eq(o.c[0], 1), E.eq(o.c[1], n3), E.eq(o.c[2], n3))))
                for i in range(n3):
                    for j in range(n3):
                        out.append(('stiffness (%d,%d): derivative of the force' % (i, j), E.eq(o.K[i * n3 + j], K[i][j])))
                m = n3 + 2
                for i in range(m if full else 0):
                    for j in range(m):
                        want = -k_ * K[i - 2][j - 2] if i > 1 and j > 1 else F(0)
                        out.append(('addKToMatrix (%d,%d)' % (i, j), E.eq(o.A[i * m + j], want)))
                for i in range(n3):
                    out.append(('addDForce %d' % i, E.eq(o.df[i], -k_ * sum((K[i][j] * v.dx[j] for j in range(n3)), F(0)))))
                return out
            V = {'y': ('R', 1), 'x': ('R', n3), 'dx': ('R', n3), 'k': ('R', 1)}
            if gsym: V.update({'w': ('R', Q), 'd': ('R', Q), 'g': ('R', Q * N * 3)})
            us.append(Unit(cl + ' with SaintVenantKirchhoffMaterial', nm + '_svk', mod, V,
                           lambda v, idx=idx, n3=n3, nu=nu, data=data: [('val', 'R', v.y[0]), ('val', 'R', nu), ('in', 'I', idx)] + [('in', 'R', x) for x in data(v)] + [('in', 'R', v.x), ('in', 'R', v.dx), ('val', 'R', v.k[0]),
                                                              ('out', 'R', 'f', n3), ('out', 'R', 'K', n3 * n3), ('out', 'R', 'df', n3), ('out', 'R', 'A', (n3 + 2) ** 2), ('out', 'I', 'c', 4)],
                           posts, sample=lambda rng, V=V: {k: rr(rng, x[1]) for k, x in V.items()}, funcs=[cl + '::' + f for f in ('addForce', 'assemble_stiffness', 'K', 'addDForce', 'addKToMatrix')],
                           bounded='meshes of %d element%s, Poisson ratio 1/4%s' % (NE, 's' * (NE > 1), '' if gsym else ', one set of integration data'), nsamp=4, max_steps=60_000_000, limit=400))

        # ---- any material: stress and (symmetric) tangent as parameters
        if nm == 'tet':
            def postt(v, o, con=con, N=N, NN=NN, NE=NE, NG=NG, n3=n3):
                X = rows(v.x, NN, 3); K = [[F(0)] * n3 for _ in range(n3)]; k_ = v.k[0]; t = iter(v.t); D = [[None] * 6 for _ in range(6)]
                for i in range(6):
                    for j in range(i, 6): D[i][j] = D[j][i] = next(t)
                S = rows(v.p, 3, 3)
                for k in range(NE):
                    c = con[k]
                    for g_ in range(NG):
                        q = k * NG + g_; dN = rows(v.g[q * N * 3:(q + 1) * N * 3], N, 3); s = v.w[q] * v.d[q]; Fg = Fgrad([X[i] for i in c], dN)
                        # dE = sym(F^T dx (x) dN), engineering shear strains
                        B = [[[Fg[i][r] * dN[a][s_] if r == s_ else Fg[i][r] * dN[a][s_] + Fg[i][s_] * dN[a][r] for i in range(3)] for r, s_ in VOIGT] for a in range(N)]
                        for a in range(N):
                            for bb in range(a, N):
                                g = sum((dN[a][i] * S[i][j] * dN[bb][j] for i in range(3) for j in range(3)), F(0))
                                for i in range(3):
                                    for j in range(3):
                                        x = s * (sum((B[a][r][i] * D[r][u] * B[bb][u][j] for r in range(6) for u in range(6)), F(0)) + (g if i == j else F(0)))
                                        K[3 * c[a] + i][3 * c[bb] + j] = K[3 * c[a] + i][3 * c[bb] + j] + x
                                        if bb != a: K[3 * c[bb] + j][3 * c[a] + i] = K[3 * c[bb] + j][3 * c[a] + i] + x
                return [('stiffness (%d,%d)' % (i, j), E.eq(o.K[i * n3 + j], K[i][j])) for i in range(n3) for j in range(n3)]
            V = {'p': ('R', 9), 't': ('R', 21), 'x': ('R', n3), 'dx': ('R', n3), 'k': ('R', 1), 'w': ('R', Q), 'd': ('R', Q), 'g': ('R', Q * N * 3)}
            us.append(Unit(cl + '.assemble_stiffness', nm + '_tangent', mod, V, lambda v, idx=idx, n3=n3: [('in', 'R', list(v.p) + [F(0)] * 18), ('in', 'R', v.t), ('in', 'I', idx), ('in', 'R', v.w), ('in', 'R', v.d), ('in', 'R', v.g), ('in', 'R', v.x), ('in', 'R', v.dx), ('val', 'R', v.k[0]),
                                                              ('out', 'R', 'f', n3), ('out', 'R', 'K', n3 * n3), ('out', 'R', 'df', n3), ('out', 'R', 'A', (n3 + 2) ** 2), ('out', 'I', 'c', 4)],
                           postt, sample=lambda rng, V=V: {k: rr(rng, x[1]) for k, x in V.items()}, funcs=[cl + '::assemble_stiffness'], bounded='meshes of %d elements' % NE, nsamp=4, limit=300))
    return us + big.hyper_units()
