from common import *
import c03, c05

TOL = F(float('1e-5'))


def sources():
    return c03.sources() + [('c04_%d' % p, 'c04.cpp', ['-DPART=%d' % p]) for p in PARTS]


# ---------------------------------------------------------------- reference Newton iteration (numbers)
def num_world(e, buf, xi): return e.world(rows(buf, e.n, e.dim), xi)


def num_jac(e, buf, xi): return e.jac(rows(buf, e.n, e.dim), xi)


def solve(e, J, r):
    """the Newton step: J d = r, or its normal equations on non-matching manifolds"""
    if e.dim != e.cd:
        Jt = spec.transpose(J)
        A = spec.matmul(Jt, J); b = spec.matvec(Jt, r)
    else: A, b = J, r
    D = spec.det(A); n = len(A)
    out = []
    for k in range(n):
        M = [[b[i] if j == k else A[i][j] for j in range(n)] for i in range(n)]
        out.append(spec.det(M) / D)
    return out


def gram(e, J):
    return spec.det(J) if e.dim == e.cd else spec.det(spec.matmul(spec.transpose(J), J))


class Newton:
    """symbolic iterates: XI[k] opaque, W[k] = world(XI[k]), J[k] = jacobian(XI[k])"""
    def __init__(self, e, nodes, x, start):
        self.e = e; self.base = tuple(start) + tuple(x) + tuple(nodes); self.nodes = tuple(nodes); self.x = list(x); self.start = list(start)

    def XI(self, k):
        if k == 0: return self.start
        return [E.uf('XI%d_%s_%d' % (k, self.e.name, i), self.base, 'R') for i in range(self.e.cd)]

    def at(self, xi): return [E.uf('W_%s_%d' % (self.e.name, d), tuple(xi) + self.nodes, 'R') for d in range(self.e.dim)]

    def jat(self, xi): return [[E.uf('J_%s_%d_%d' % (self.e.name, d, k), tuple(xi) + self.nodes, 'R') for k in range(self.e.cd)] for d in range(self.e.dim)]

    def r(self, k): return [a - b for a, b in zip(self.x, self.at(self.XI(k)))]

    def step(self, k): return [a + b for a, b in zip(self.XI(k), solve(self.e, self.jat(self.XI(k)), self.r(k)))]


def ufs_of(e, kmax=6):
    fs = {}; cd, dim = e.cd, e.dim
    cache = {}

    def it(k, a):
        key = (k, a)
        if key in cache: return cache[key]
        if k == 0: v = list(a[:cd])
        else:
            xi = it(k - 1, a); N = rows(a[cd + dim:], e.n, dim); x = a[cd:cd + dim]
            w = e.world(N, xi); J = e.jac(N, xi)
            if gram(e, J) == 0: v = xi
            else: v = [p + q for p, q in zip(xi, solve(e, J, [s - t for s, t in zip(x, w)]))]
        if len(cache) > 5000: cache.clear()
        cache[key] = v
        return v
    fl = lambda a: tuple(float(x) for x in a)
    for k in range(1, kmax):
        for i in range(cd): fs['XI%d_%s_%d' % (k, e.name, i)] = lambda *a, k=k, i=i: float(it(k, fl(a))[i])
    for d in range(dim):
        fs['W_%s_%d' % (e.name, d)] = lambda *a, d=d: float(e.world(rows(fl(a)[cd:], e.n, dim), fl(a)[:cd])[d])
        for k in range(cd): fs['J_%s_%d_%d' % (e.name, d, k)] = lambda *a, d=d, k=k: float(e.jac(rows(fl(a)[cd:], e.n, dim), fl(a)[:cd])[d][k])
    return fs


def k_world(ip, st, vals, rt, dem):
    """contract of Element::world_coordinates as the map W (verified by C03); a point equal to a Newton iterate is named as that iterate"""
    nw = ip.newton; xi = ident(ip, st, vals[2], nw)
    wr(ip, st, vals[0], nw.at(xi))


def k_jac(ip, st, vals, rt, dem):
    nw = ip.newton; xi = ident(ip, st, vals[2], nw)
    wr(ip, st, vals[0], colmajor(nw.jat(xi)))


def ident(ip, st, p, nw):
    xi = rd(ip, st, p, nw.e.cd)
    k = st.ghost.get('k', 0)
    for j in range(k + 1):
        if all(a is b or a == b for a, b in zip(xi, nw.XI(j))): return xi
    S = ip.solver
    if all(S.prove_eq(a, b) is True for a, b in zip(xi, nw.step(k))):
        st.ghost['k'] = k + 1
        X = nw.XI(k + 1)
        for a, b in zip(X, xi): st.assume(E.eq(a, b))
        if ip.obj(st, p, 8 * nw.e.cd): wr(ip, st, p, X)
        return X
    return xi


KN = [(re.compile(r'^caribou::geometry::Element<.*>::world_coordinates\('), k_world), (re.compile(r'^caribou::geometry::Element<.*>::jacobian\('), k_jac)]


def newton_result(nw, tol, K):
    n2 = lambda k: dot(nw.r(k), nw.r(k))
    t2 = tol * tol
    res = nw.XI(K)
    for k in range(K - 1, 0, -1):
        c = E.lt(n2(k), n2(0) * t2)
        res = [E.ite(c, a, b) for a, b in zip(nw.XI(k), res)]
    c = E.lt(n2(0), t2)
    return [E.ite(c, a, b) for a, b in zip(nw.XI(0), res)]


def gentle(e, rng):
    """sample element: placed copy of the reference element, slightly distorted"""
    rr = lambda a, b: F(rng.randint(int(a * 64), int(b * 64)), 64)
    A = None
    while A is None or abs(spec.det(A)) < F(1, 2): A = [[rr(-2, 2) for _ in range(e.dim)] for _ in range(e.dim)]
    c = [rr(-3, 3) for _ in range(e.dim)]
    amp = rng.choice([0, F(1, 16), F(1, 8)]) if e.shape in ('quad', 'hex', 'seg') else rng.choice([0, F(1, 32), F(1, 16)])
    n = []
    for p in e.cnodes:
        pp = list(p) + [F(0)] * (e.dim - e.cd)
        n += [c[d] + dot(A[d], pp) + (rr(-amp, amp) if amp else 0) for d in range(e.dim)]
    return {'n': n}


def in_xi(e, rng):
    if e.simplex:
        while True:
            x = [F(rng.randint(0, 64), 64) for _ in range(e.cd)]
            if sum(x) <= 1: return x
    return [F(rng.randint(-64, 64), 64) for _ in range(e.cd)]


AFFINE = ['Seg1L', 'Seg2L', 'Seg3L', 'Tri2L', 'Tri3L', 'TetL']
CURVED = ['Seg1Q', 'Seg2Q', 'Seg3Q', 'Tri2Q', 'Tri3Q', 'Quad2L', 'Quad3L', 'Quad2Q', 'Quad3Q', 'TetQ', 'HexL', 'HexQ']
RECT = ['RQuad2L', 'RQuad3L', 'RQuad2Q', 'RQuad3Q']
RHEX = ['RHexL', 'RHexQ']


def newton_units(tier):
    us = []
    for n in CURVED + AFFINE:
        e = ELEMS[n]; stem = 'c04_%d' % PART_OF[n]
        for K in ([1, 2, 3] if tier == 'quick' else [1, 2, 3, 4]):
            def pre(v, e=e, K=K):
                nw = Newton(e, v.n, v.x, v.s)
                return [E.ne(gram(e, nw.jat(nw.XI(k))), 0) for k in range(K)] + [E.gt(v.tol, 0)]

            def smp(rng, e=e, K=K):
                d = gentle(e, rng)
                N = rows(d['n'], e.n, e.dim)
                d['x'] = [F(float(a)) for a in e.world(N, in_xi(e, rng))]
                d['s'] = [F(rng.randint(-16, 16), 64) for _ in range(e.cd)] if rng.random() < .6 else in_xi(e, rng)
                if rng.random() < .2: d['x'] = [F(float(a)) + F(rng.randint(-8, 8), 64) for a in e.world(N, d['s'])]
                d['tol'] = F(rng.choice([1e-5, 1e-2, .125, .5, 1, 2]))
                return d
            us.append(Unit('%s.local_coordinates(start,tol,%d)' % (n, K), n + '_loc4', stem,
                           {'n': ('R', e.n * e.dim), 'x': ('R', e.dim), 's': ('R', e.cd), 'tol': ('R', None)},
                           lambda v, e=e, K=K: [('in', 'R', v.n), ('in', 'R', v.x), ('in', 'R', v.s), ('val', 'R', v.tol), ('val', 'I', K), ('out', 'R', 'xi', e.cd)],
                           lambda v, o, e=e, K=K: [('result[%d] is the first Newton iterate meeting the tolerance, or the last one allowed' % i, E.eq(o.xi[i], r))
                                                   for i, r in enumerate(newton_result(Newton(e, v.n, v.x, v.s), v.tol, K))],
                           pre=pre, sample=smp, contracts=KN, ufs=ufs_of(e), tol=1e-7, nsamp=24, simp=False,
                           setup=lambda ip, st, e=e: setattr(ip, 'newton', Newton(e, ip.uv.n, ip.uv.x, ip.uv.s)),
                           funcs=['Element<%s>::local_coordinates(x, start, tolerance, iterations)' % e.cls]))

        def pre0(v, e=e):
            nw = Newton(e, v.n, v.x, [F(0)] * e.cd)
            return [E.ne(gram(e, nw.jat(nw.XI(k))), 0) for k in range(5)]

        def smp0(rng, e=e):
            d = gentle(e, rng)
            d['x'] = [F(float(a)) for a in e.world(rows(d['n'], e.n, e.dim), in_xi(e, rng))]
            return d
        us.append(Unit('%s.local_coordinates' % n, n + '_loc', stem, {'n': ('R', e.n * e.dim), 'x': ('R', e.dim)},
                       lambda v, e=e: [('in', 'R', v.n), ('in', 'R', v.x), ('out', 'R', 'xi', e.cd)],
                       lambda v, o, e=e: [('result[%d] is the first Newton iterate from the origin meeting 1e-5, or the fifth' % i, E.eq(o.xi[i], r))
                                          for i, r in enumerate(newton_result(Newton(e, v.n, v.x, [F(0)] * e.cd), TOL, 5))],
                       pre=pre0, sample=smp0, contracts=KN, ufs=ufs_of(e), tol=1e-7, nsamp=24,
                       setup=lambda ip, st, e=e: setattr(ip, 'newton', Newton(e, ip.uv.n, ip.uv.x, [F(0)] * e.cd)),
                       funcs=['Element<%s>::local_coordinates(x)' % e.cls]))
    return us


def k_Lsimp(ip, st, vals, rt, dem):
    """contract of Element::L at a point rewritten by its rational normal form"""
    e = elem_of(dem)
    wr(ip, st, vals[2], [E.simp(x, 64) for x in rd(ip, st, vals[2], e.cd)])
    k_L(ip, st, vals, rt, dem)


SHAPE_S = [(SHAPE[0][0], k_Lsimp), SHAPE[1]]


def affine_units():
    """affine elements, described by their map x = o + A xi (every placement of the nodes is of this form)"""
    us = []
    for n in AFFINE + RECT:
        e = ELEMS[n]; stem = 'c04_%d' % PART_OF[n]
        vs = {'o': ('R', e.dim), 'A': ('R', e.dim * e.cd)} if not e.rect else elem_vars(e)

        def A(v, e=e):
            if not e.rect: return rows(v.A, e.dim, e.cd)
            R = rot(e, v)
            return [[R[d][k] * v.h[k] / 2 for k in range(e.cd)] for d in range(e.dim)]

        def buf(v, e=e, A=A):
            if e.rect: return elem_buf(e, v)
            return [v.o[d] + dot(A(v)[d], p) for p in e.cnodes for d in range(e.dim)]

        def post(v, o, e=e, A=A):
            d = spec.matvec(A(v), v.xi)
            near0 = E.lt(dot(d, d), TOL * TOL)
            return [('local(world(xi))[%d] = xi, or the origin when that is already within 1e-5' % i, E.eq(o.r[i], E.ite(near0, F(0), v.xi[i]))) for i in range(e.cd)]

        def smp(rng, e=e):
            d = rnd_elem(e, rng)
            if not e.rect:
                rr = lambda a, b: F(rng.randint(int(a * 64), int(b * 64)), 64)
                d = {'o': [rr(-3, 3) for _ in range(e.dim)], 'A': [rr(-2, 2) for _ in range(e.dim * e.cd)]}
                if abs(gram(e, rows(d['A'], e.dim, e.cd))) < F(1, 16): d['A'] = [F(int(i == j)) for i in range(e.dim) for j in range(e.cd)]
            d['xi'] = rnd_xi(e, rng) if rng.random() < .8 else [F(rng.randint(-64, 64), 2 ** 24) for _ in range(e.cd)]
            return d
        us.append(Unit('%s.roundtrip' % n, n + '_rt', stem, dict(vs, xi=('R', e.cd)),
                       lambda v, e=e, buf=buf: [('in', 'R', buf(v)), ('in', 'R', v.xi), ('out', 'R', 'r', e.cd)], post,
                       pre=lambda v, e=e, A=A: elem_pre(e, v) + ([E.ne(gram(e, A(v)), 0)] if not e.rect else []), sample=smp, simp=True, tol=1e-7, contracts=SHAPE_S,
                       funcs=['Element<%s>::local_coordinates(x)' % e.cls]))
    return us


def rhex_units():
    us = []
    for n in RHEX:
        e = ELEMS[n]; stem = 'c04_7'
        us.append(elem_unit('%s.roundtrip' % n, n + '_rt', stem, e, {'xi': ('R', 3)},
                            lambda v, e=e: [('in', 'R', elem_buf(e, v)), ('in', 'R', v.xi), ('out', 'R', 'r', 3)],
                            lambda v, o: [('local(world(xi))[%d] = xi[%d]' % (i, i), E.eq(o.r[i], v.xi[i])) for i in range(3)], simp=True,
                            funcs=['RectangularHexahedron::local_coordinates', 'RectangularHexahedron::world_coordinates']))
        us.append(elem_unit('%s.roundtrip2' % n, n + '_wl', stem, e, {'x': ('R', 3)},
                            lambda v, e=e: [('in', 'R', elem_buf(e, v)), ('in', 'R', v.x), ('out', 'R', 'r', 3)],
                            lambda v, o: [('world(local(x))[%d] = x[%d]' % (i, i), E.eq(o.r[i], v.x[i])) for i in range(3)], simp=True,
                            funcs=['RectangularHexahedron::local_coordinates', 'RectangularHexahedron::world_coordinates']))

        def locs(v, e=e):
            R = rot(e, v); d = [a - b for a, b in zip(v.x, v.c)]
            return [2 * dot([R[k][i] for k in range(3)], d) / v.h[i] for i in range(3)]

        def pc(v, o, e=e):
            # exactly the closed box: |2 R^T (x - c) . e_i| <= h_i, the numerical slack on the border is at most 1e-10
            s = F(1) + F(1, 10**9)
            l = locs(v)
            return [('points of the closed box are contained', E.or_(E.eq(o.ret, 1), *[E.or_(E.gt(x, 1), E.lt(x, -1)) for x in l])),
                    ('points outside the box are not contained', E.or_(E.eq(o.ret, 0), E.and_(*[E.and_(E.le(x, s), E.ge(x, -s)) for x in l])))]

        def smp(rng, e=e):
            return {'x': [F(rng.randint(-256, 256), 64) for _ in range(3)]}
        us.append(elem_unit('%s.contains' % n, n + '_has', stem, e, {'x': ('R', 3)},
                            lambda v, e=e: [('in', 'R', elem_buf(e, v)), ('in', 'R', v.x)], pc, ret='I', simp=True, sample=smp,
                            funcs=['BaseRectangularHexahedron::contains']))
    return us


def own_units(tier): return newton_units(tier) + affine_units() + rhex_units()


def units(tier): return c03.units(tier) + own_units(tier)
