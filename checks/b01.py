from common import *
import re, itertools
import interp as I
import c01, c04, c05, h01, big
from irparse import IntTy, PTR

i64 = IntTy(64)
ACC = ['-fno-access-control']


def sources(): return [('bary_%d' % p, 'bary.cpp', ['-DPART=%d' % p] + ACC) for p in (1, 2, 3)] + h01.sources() + c01.sources() + c04.sources() + c05.sources()


ELS = ('Seg1L', 'Tri2L', 'TetL')


def units(tier):
    """own units, and those that verify the contracts relied on"""
    mine = lambda u, els: any(u.fn.startswith(n + '_') for n in els)
    return own_units(tier) + big.bary_units() + [u for u in c01.units(tier) if mine(u, ELS + ('Tri2Q', 'Quad2L', 'HexL'))] + [u for u in c04.own_units(tier) + c05.units(tier) if mine(u, ELS)] + h01.own_units(tier)


def perm(N):
    """node indices of the two elements, out of 2N+1 nodes (they share one node)"""
    NB = 2 * N + 1
    a = [(3 * k + 1) % NB for k in range(NB)] if NB % 3 else [(5 * k + 1) % NB for k in range(NB)]
    return a[:N], [a[N - 1]] + a[N:2 * N - 1][::-1]


EPS = F(1, 10 ** 10)


# ---------------------------------------------------------------- the specification functions
def nodes_of(e, x, el):
    return [[x[i * e.dim + k] for k in range(e.dim)] for i in perm(e.n)[el]]


def lc_py(e, a):
    """affine elements: local coordinates of p"""
    D = e.dim; N = rows(a[:e.n * D], e.n, D); p = a[e.n * D:]
    if e.name.startswith('Seg') and N[0][0] == N[1][0]: raise E.Undef('flat element')
    if e.name.startswith('Seg'): return [(p[0] - (N[0][0] + N[1][0]) / 2) / ((N[1][0] - N[0][0]) / 2)]
    M = [[N[j + 1][i] - N[0][i] for j in range(D)] for i in range(D)]
    if spec.det(M) == 0: raise E.Undef('flat element')
    Mi = spec.inv(M)
    return [sum(Mi[i][j] * (p[j] - N[0][j]) for j in range(D)) for i in range(D)]


def ok_py(e, xi, eps):
    if xi is None: return False
    if e.name.startswith('Seg'): return -1 - eps <= xi[0] <= 1 + eps
    return all(x >= -eps for x in xi) and sum(xi) <= 1 + eps


def ufs(e):
    fs = {'lc_%s_%d' % (e.name, k): (lambda *a, k=k: F(lc_py(e, list(map(F, a)))[k])) for k in range(e.cd)}
    fs['ok_' + e.name] = lambda *a: bool(ok_py(e, list(map(F, a)), EPS))
    fs['in_' + e.name] = lambda *a: bool(ok_py(e, lc_py(e, list(map(F, a))), 0))
    return fs


def LC(e, N, p): return [E.uf('lc_%s_%d' % (e.name, k), tuple(x for r in N for x in r) + tuple(p), 'R') for k in range(e.cd)]
def OK(e, xi): return E.uf('ok_' + e.name, tuple(xi), 'B')
def IN(e, N, p): return E.uf('in_' + e.name, tuple(x for r in N for x in r) + tuple(p), 'B')


# ---------------------------------------------------------------- contracts
def el_nodes(ip, st, p, e):
    """the nodes of an element object (stored row by row or column by column)"""
    return rows(rd(ip, st, p, e.n * e.dim), e.n, e.dim) if e.dim == 1 or not ip.ucol else [[ip.load(st, F64, ip.padd(p, 8 * (k * e.n + a))) for k in range(e.dim)] for a in range(e.n)]


def k_hctor(ip, st, vals, rt, dem):
    st.ghost['grid'] = {**st.ghost.get('grid', {}), vals[0].o: (ip.load(st, F64, vals[1]) if isinstance(vals[1], I.Ptr) else vals[1], ())}


def k_hadd(ip, st, vals, rt, dem):
    """contract of HashGrid::add (H01)"""
    g = dict(st.ghost.get('grid', {})); e = ip.ue
    h, l = g[vals[0].o]
    id = ip.load(st, i64, vals[2]) if isinstance(vals[2], I.Ptr) else vals[2]
    g[vals[0].o] = (h, l + ((id, el_nodes(ip, st, vals[1], e)),)); st.ghost['grid'] = g


def k_hget(ip, st, vals, rt, dem):
    """contract of HashGrid::get (H01): a set of the added ids with, at least, those of the elements holding the point"""
    e = ip.ue; out, this, pp = vals
    h, l = st.ghost['grid'][this.o]
    p = rd(ip, st, pp, e.dim)
    res = []
    for sub in itertools.product((True, False), repeat=len(l)):
        s = st.clone()
        for (id, N), c in zip(l, sub):
            t = E.uf('cand_%s' % e.name, tuple(x for r in N for x in r) + tuple(p), 'B')
            s.assume(t if c else E.not_(t))
            if not c: s.assume(E.not_(IN(e, N, p)))
        ids = [id for (id, N), c in zip(l, sub) if c]
        mkset(ip, s, out, ids)
        res.append((s, I.UNDEF))
    return I.Multi(res)


def mkset(ip, s, out, ids):
    """a std::set of these (concrete, distinct) ids"""
    ids = sorted(ids)
    hd = ip.padd(out, 8)
    ns = [ip.alloc(s, 40, 'setnode', 'heap') for _ in ids]
    for n, x in zip(ns, ids): ip.store(s, i64, x, ip.padd(n, 32))
    nx = ns + [hd]
    ip.store(s, PTR, ns[0] if ns else hd, ip.padd(hd, 16)); ip.store(s, PTR, ns[-1] if ns else hd, ip.padd(hd, 24)); ip.store(s, PTR, ns[0] if ns else ip.int2ptr(0), ip.padd(hd, 8)); ip.store(s, i64, len(ids), ip.padd(hd, 32))
    s.ghost['next'] = {**s.ghost.get('next', {}), **{n.o: nx[k + 1] for k, n in enumerate(ns)}}


def k_inc(ip, st, vals, rt, dem):
    n = st.ghost.get('next', {}).get(vals[0].o)
    if n is None: raise I.Unsupported('iterator')
    return n


def k_lc(ip, st, vals, rt, dem):
    """contract of Element::local_coordinates: a function of the nodes and the point (C04)"""
    e = ip.ue
    wr(ip, st, vals[0], LC(e, el_nodes(ip, st, vals[1], e), rd(ip, st, vals[2], e.dim)))


def k_ok(ip, st, vals, rt, dem):
    """contract of Element::contains_local: a function of the local coordinates (C05), true at those of a point of the element"""
    e = ip.ue
    if ip.load(st, F64, vals[2]) != F(1e-10): raise I.Unsupported('tolerance')
    xi = rd(ip, st, vals[1], e.cd); c = OK(e, xi); N = None
    for el in (0, 1):
        N = nodes_of(e, ip.uv.x, el)
        if all(a is b for a, b in zip(xi, LC(e, N, ip.uv.p))): st.assume(E.implies(IN(e, N, ip.uv.p), c))
    return E.ite(c, 1, 0)


def k_bp(ip, st, vals, rt, dem):
    """contract of BarycentricContainer::barycentric_point (verified by the barycentric_point units), as functions of the point"""
    e = ip.ue; p = rd(ip, st, vals[2], e.dim)
    i = E.uf('bi_' + e.name, tuple(ip.uv.x) + tuple(p), 'I')
    st.assume(E.le(-1, i)); st.assume(E.le(i, 1))
    ip.store(st, i64, i, vals[0]); wr(ip, st, ip.padd(vals[0], ip.ulo), [E.uf('bl_%s_%d' % (e.name, k), tuple(ip.uv.x) + tuple(p), 'R') for k in range(e.cd)])


def nop(ip, st, vals, rt, dem): return I.UNDEF


def k_cellsize(ip, st, vals, rt, dem): return st.ghost['grid'][vals[0].o][0]


def k_present(ip, st, vals, rt, dem):
    """1 when exactly the element of this id was added under it, once"""
    e = ip.ue; l = st.ghost['grid'][vals[0].o][1]; id = vals[1]
    m = [N for i, N in l if i == id]
    if not m: return 0
    good = id in (0, 1) and len(m) == 1 and all(E.eq(a, b) is True for r, q in zip(m[0], nodes_of(e, ip.uv.x, id)) for a, b in zip(r, q))
    return 1 if good else 2


def k_minmax(mx):
    def f(ip, st, vals, rt, dem):
        a, b = (ip.load(st, F64, x) for x in vals)
        return E.ite(E.lt(a, b) if mx else E.lt(b, a), b, a)
    return f


def k_str(ip, st, vals, rt, dem):
    """text of a diagnostic message: left empty"""
    ip.store(st, PTR, ip.padd(vals[0], 16), vals[0]); ip.store(st, i64, 0, ip.padd(vals[0], 8)); ip.store(st, IntTy(8), 0, ip.padd(vals[0], 16))


def k_first(ip, st, vals, rt, dem): return vals[0]


HG = r'^(?:void |auto )?caribou::topology::HashGrid<.*>::'
SETN = r'^std::set<unsigned long long, std::less<unsigned long long>, std::allocator<unsigned long long> ?>::'
GRID = [(re.compile(HG + r'HashGrid\('), k_hctor), (re.compile(HG + r'~HashGrid\('), nop), (re.compile(HG + r'add\('), k_hadd), (re.compile(HG + r'get\('), k_hget),
        (re.compile(SETN + r'~set\(\)'), nop), (re.compile(r'^std::_Rb_tree_increment\('), k_inc), (re.compile(r'(^|[ )])vh_cellsize<'), k_cellsize), (re.compile(r'(^|[ )])vh_present<'), k_present)]
GRID += [(re.compile(r'Eigen::numext::mini<double>\('), k_minmax(False)), (re.compile(r'Eigen::numext::maxi<double>\('), k_minmax(True)),
         (re.compile(r'(^|[ :])std::(__cxx11::)?to_string\('), k_str), (re.compile(r'^std::__cxx11::basic_stringstream<.*>::str\('), k_str), (re.compile(r'^std::__cxx11::basic_stringstream<'), nop),
         (re.compile(r'^(std::(basic_ostream<.*>|ostream)::operator<<|(std::(basic_ostream<[^()]*>|ostream)& )?std::operator<< ?<)'), k_first)]
LOC = [(re.compile(r'caribou::geometry::Element<.*>::local_coordinates\(Eigen::Matrix<[^()]*> const&\) const'), k_lc), (re.compile(r'caribou::geometry::Element<.*>::contains_local\('), k_ok)]
BP = [(re.compile(r'BarycentricContainer<.*>::barycentric_point\('), k_bp)]


def setup(e):
    def f(ip, st): ip.ue = e; ip.ucol = True; ip.ulo = 8
    return f


def mesh_sample(e, rng):
    """two copies of a random element, far apart"""
    D, N = e.dim, e.n
    while True:
        A = [[F(rng.randint(-16, 16), 4) for _ in range(D)] for _ in range(N)]
        if D == 1: ok = abs(A[0][0] - A[1][0]) > 1
        else:
            M = [[A[j + 1][i] - A[0][i] for j in range(D)] for i in range(D)] if N == D + 1 else None
            ok = M is None or abs(spec.det(M)) > 8
        if ok: break
    a, b = perm(N)
    x = [[F(rng.randint(-50, 50), 8) for _ in range(D)] for _ in range(2 * N + 1)]
    for k, i in enumerate(a): x[i] = A[k]
    # the second element shares the last node of the first and extends away from it
    sh = A[N - 1]
    for k, i in enumerate(b):
        if k: x[i] = [2 * s - y for s, y in zip(sh, A[k - 1])]
    return [y for r in x for y in r]


def far(e, x, p):
    """local coordinates well away from the boundary of both elements"""
    for el in (0, 1):
        try: xi = lc_py(e, [y for r in nodes_of(e, x, el) for y in r] + list(p))
        except StopIteration: return False
        b = list(xi) + [1 - sum(xi)] if not e.name.startswith('Seg') else [1 + xi[0], 1 - xi[0]]
        if any(abs(y) < F(1, 1000) for y in b): return False
    return True


def point_sample(e, rng, x):
    while True:
        el = rng.choice((0, 1)); N = nodes_of(e, x, el)
        w = [F(rng.randint(-3, 20)) for _ in range(e.n)]
        if sum(w) == 0: continue
        p = [sum(w[a] * N[a][k] for a in range(e.n)) / sum(w) for k in range(e.dim)]
        if far(e, x, p): return p


def smp(e, npts):
    def f(rng):
        x = mesh_sample(e, rng)
        r = {'x': x}
        ps = [point_sample(e, rng, x) for _ in range(npts)]
        if npts == 1: r['p'] = ps[0]
        elif npts: r['q'] = [y for p in ps for y in p]
        return r
    return f


def indep_pre(e):
    """elements are not flat"""
    return lambda v: []


def own_units(tier='quick'):
    us = []
    for nm, part in (('Seg1L', 1), ('Tri2L', 1), ('TetL', 2)):
        e = ELEMS[nm]; D, N = e.dim, e.n; NB = 2 * N + 1; mod = 'bary_%d' % part
        ix = [i for r in perm(N) for i in r]
        base = lambda v, ix=ix: [('in', 'R', v.x), ('in', 'I', ix)]
        common = dict(setup=setup(e), ufs={**ufs(e), **bp_ufs(e)}, bounded='domains of two elements')

        def p_ctor(v, o, e=e):
            ext = []
            for k in range(e.dim):
                t = 0
                for el in (0, 1):
                    xs = [r[k] for r in nodes_of(e, v.x, el)]
                    t = t + mx(xs) - mn(xs)
                ext.append(t / 2)
            return [('cell size is the largest mean extent of the elements', E.eq(o.o[0], mx(ext))), ('every element is in the grid under its index', E.and_(E.eq(o.c[0], 1), E.eq(o.c[1], 1))), ('nothing else is in the grid', E.and_(E.eq(o.c[2], 0), E.eq(o.c[3], 0))),
                    ('no embedded point yet', E.and_(E.eq(o.c[4], 0), E.eq(o.c[5], 0)))]
        us.append(Unit('BarycentricContainer<%s> constructor' % e.cls, nm + '_bctor', mod, {'x': ('R', NB * D)}, lambda v, base=base: base(v) + [('out', 'R', 'o', 1), ('out', 'I', 'c', 6)], p_ctor,
                       sample=smp(e, 0), contracts=GRID, funcs=['BarycentricContainer<%s>::BarycentricContainer' % e.cls], **common))

        def p_point(v, o, e=e):
            Ns = [nodes_of(e, v.x, el) for el in (0, 1)]
            lc = [LC(e, Nn, v.p) for Nn in Ns]
            out = [('a point of an element is found', E.implies(E.eq(o.i[0], -1), E.and_(*[E.not_(IN(e, Nn, v.p)) for Nn in Ns]))),
                   ('the index is that of an element, or -1', E.or_(*[E.eq(o.i[0], k) for k in (-1, 0, 1)]))]
            for el in (0, 1):
                out.append(('element %d is only returned when it contains the point' % el, E.implies(E.eq(o.i[0], el), OK(e, lc[el]))))
                out.append(('local coordinates in element %d' % el, E.implies(E.eq(o.i[0], el), E.and_(*[E.eq(o.o[k], lc[el][k]) for k in range(e.cd)]))))
            return out
        us.append(Unit('BarycentricContainer<%s>.barycentric_point' % e.cls, nm + '_bpoint', mod, {'x': ('R', NB * D), 'p': ('R', D)}, lambda v, base=base, e=e: base(v) + [('in', 'R', v.p), ('out', 'I', 'i', 1), ('out', 'R', 'o', e.cd)], p_point,
                       sample=smp(e, 1), contracts=GRID + LOC, funcs=['BarycentricContainer<%s>::barycentric_point' % e.cls], **common))
        def p_close(v, o, e=e):
            Ns = [nodes_of(e, v.x, el) for el in (0, 1)]; lc = [LC(e, Nn, v.p) for Nn in Ns]; n = o.i[0]
            out = [('at most one entry per element', E.and_(E.le(0, n), E.le(n, 2), E.implies(E.eq(n, 2), E.ne(o.i[1], o.i[2]))))]
            for k in (0, 1):
                out.append(('entry %d is an element' % k, E.implies(E.lt(k, n), E.or_(E.eq(o.i[1 + k], 0), E.eq(o.i[1 + k], 1)))))
                out += [('local coordinates of entry %d in element %d' % (k, el), E.implies(E.and_(E.lt(k, n), E.eq(o.i[1 + k], el)), E.and_(*[E.eq(o.o[k * e.cd + j], lc[el][j]) for j in range(e.cd)]))) for el in (0, 1)]
            out += [('element %d is listed when it holds the point' % el, E.implies(IN(e, Ns[el], v.p), E.or_(*[E.and_(E.lt(k, n), E.eq(o.i[1 + k], el)) for k in (0, 1)]))) for el in (0, 1)]
            return out
        us.append(Unit('BarycentricContainer<%s>.closest_elements' % e.cls, nm + '_bclosest', mod, {'x': ('R', NB * D), 'p': ('R', D)}, lambda v, base=base, e=e: base(v) + [('in', 'R', v.p), ('out', 'I', 'i', 3), ('out', 'R', 'o', 2 * e.cd)], p_close,
                       sample=smp(e, 1), contracts=GRID + LOC, funcs=['BarycentricContainer<%s>::closest_elements' % e.cls], **common))
        for f, w in (('bembed', 'fixed'), ('bembedd', 'dynamic')):
            def p_embed(v, o, e=e):
                Q = rows(v.q, 3, e.dim)
                bi = [E.uf('bi_' + e.name, tuple(v.x) + tuple(q), 'I') for q in Q]
                out = [('one barycentric point per embedded point', E.eq(o.i[0], 3))]
                for k in range(3):
                    out.append(('barycentric point %d' % k, E.and_(E.eq(o.i[2 + k], bi[k]), *[E.eq(o.o[k * e.cd + j], E.uf('bl_%s_%d' % (e.name, j), tuple(v.x) + tuple(Q[k]), 'R')) for j in range(e.cd)])))
                neg = [E.ite(E.lt(b, 0), 1, 0) for b in bi]
                cnt = neg[0] + neg[1] + neg[2]
                out.append(('number of outside nodes', E.eq(o.i[1], cnt)))
                for k in range(3):
                    before = sum(neg[:k], 0)
                    for pos in range(3):
                        if pos <= k: out.append(('outside node %d at rank %d' % (k, pos), E.implies(E.and_(E.lt(bi[k], 0), E.eq(before, pos)), E.eq(o.i[5 + pos], k))))
                return out
            us.append(Unit('BarycentricContainer<%s> embedded points (%s)' % (e.cls, w), nm + '_' + f, mod, {'x': ('R', NB * D), 'q': ('R', 3 * D)}, lambda v, base=base, e=e: base(v) + [('in', 'R', v.q), ('out', 'I', 'i', 8), ('out', 'R', 'o', 3 * e.cd)], p_embed,
                           sample=smp(e, 3), contracts=GRID + BP, funcs=['BarycentricContainer<%s>::set_embedded_points' % e.cls], **{**common, 'bounded': 'domains of two elements, three embedded points'}))
    for nm, part in (('Seg1L', 1), ('Tri2L', 1), ('Tri2Q', 1), ('TetL', 2), ('Quad2L', 3), ('HexL', 3)):
        e = ELEMS[nm]; D, N = e.dim, e.n; NB = 2 * N + 1; mod = 'bary_%d' % part
        ix = [i for r in perm(N) for i in r]
        for f, nc in (('binterp1', 1), ('binterp2', 2), ('binterpd', 2)):
            V = {'x': ('R', NB * D), 'el': ('I', 3, -1, 1), 'xi': ('R', 3 * e.cd), 'f': ('R', NB * nc), 'g': ('R', 3 * nc)}

            def p_int(v, o, e=e, nc=nc):
                out = []
                for k in range(3):
                    L = e.L(v.xi[k * e.cd:(k + 1) * e.cd])
                    for c in range(nc):
                        r = o.g[k * nc + c]
                        out.append(('an outside point keeps its value (%d, %d)' % (k, c), E.implies(E.eq(v.el[k], -1), E.eq(r, v.g[k * nc + c]))))
                        for el in (0, 1):
                            out.append(('point %d column %d in element %d is the weighted sum of the nodal values' % (k, c, el), E.implies(E.eq(v.el[k], el), E.eq(r, sum((L[a] * v.f[i * nc + c] for a, i in enumerate(perm(e.n)[el])), 0)))))
                return out

            def smi(rng, e=e, nc=nc, NB=NB):
                R = lambda n: [F(rng.randint(-32, 32), 8) for _ in range(n)]
                return {'x': R(NB * e.dim), 'el': [rng.randint(-1, 1) for _ in range(3)], 'xi': [F(rng.randint(-8, 8), 8) for _ in range(3 * e.cd)], 'f': R(NB * nc), 'g': R(3 * nc)}
            us.append(Unit('BarycentricContainer<%s>.interpolate (%s)' % (e.cls, {'binterp1': 'scalar', 'binterp2': 'fixed columns', 'binterpd': 'dynamic'}[f]), nm + '_' + f, mod, V,
                           lambda v, ix=ix: [('in', 'R', v.x), ('in', 'I', ix), ('in', 'I', v.el), ('in', 'R', v.xi), ('in', 'R', v.f), ('io', 'R', 'g', v.g)], p_int, sample=smi, contracts=GRID + SHAPE, setup=setup(e), ufs={},
                           funcs=['BarycentricContainer<%s>::interpolate' % e.cls], bounded='domains of two elements, three embedded points', max_paths=4000))
    for nm, part in (('Tri2L', 1), ('TetL', 2)):
        e = ELEMS[nm]; D, N = e.dim, e.n; NB = 2 * N + 1; mod = 'bary_%d' % part
        ix = [i for r in perm(N) for i in r]
        us.append(Unit('BarycentricContainer<%s> of an empty domain' % e.cls, nm + '_bempty', mod, {'x': ('R', NB * D), 'ne': ('I', 1, 0, 2)}, lambda v, ix=ix: [('in', 'R', v.x), ('in', 'I', ix), ('val', 'I', v.ne[0])],
                       lambda v, o: [], throws=lambda v: E.eq(v.ne[0], 0), contracts=GRID, setup=setup(e), sample=lambda rng, e=e: {'x': mesh_sample(e, rng), 'ne': [rng.randint(0, 2)]}, funcs=['BarycentricContainer<%s>::BarycentricContainer' % e.cls], bounded='domains of at most two elements'))
        us.append(Unit('BarycentricContainer<%s>.interpolate refuses wrong sizes' % e.cls, nm + '_bsizes', mod, {'x': ('R', NB * D), 's': ('I', 4, 0, 1 << 20)}, lambda v, ix=ix: [('in', 'R', v.x), ('in', 'I', ix)] + [('val', 'I', k) for k in v.s],
                       lambda v, o: [], throws=lambda v, NB=NB: E.or_(E.ne(v.s[0], NB), E.ne(v.s[2], 3), E.ne(v.s[1], v.s[3])), contracts=GRID, setup=setup(e),
                       sample=lambda rng, e=e, NB=NB: {'x': mesh_sample(e, rng), 's': [rng.choice([NB, NB, NB + 1, 3]), rng.choice([1, 1, 2]), rng.choice([3, 3, 4, NB]), rng.choice([1, 1, 2])]}, funcs=['BarycentricContainer<%s>::interpolate' % e.cls]))
        us.append(Unit('BarycentricContainer<%s> refuses points of another dimension' % e.cls, nm + '_bcols', mod, {'x': ('R', NB * D), 'c': ('I', 1, 1, 1 << 20)}, lambda v, ix=ix: [('in', 'R', v.x), ('in', 'I', ix), ('val', 'I', v.c[0])],
                       lambda v, o: [], throws=lambda v, D=D: E.ne(v.c[0], D), contracts=GRID, setup=setup(e), sample=lambda rng, e=e: {'x': mesh_sample(e, rng), 'c': [rng.randint(1, 4)]}, funcs=['BarycentricContainer<%s>::set_embedded_points' % e.cls]))
    return us


def mx(xs):
    r = xs[0]
    for x in xs[1:]: r = E.ite(E.lt(r, x), x, r)
    return r


def mn(xs):
    r = xs[0]
    for x in xs[1:]: r = E.ite(E.lt(x, r), x, r)
    return r


def bp_ufs(e):
    NB = 2 * e.n + 1; K = NB * e.dim

    def bi(*a):
        x, p = list(map(F, a[:K])), list(map(F, a[K:]))
        for el in (0, 1):
            if ok_py(e, lc_py(e, [y for r in nodes_of(e, x, el) for y in r] + p), EPS): return el
        return -1

    def bl(k):
        def f(*a):
            x, p = list(map(F, a[:K])), list(map(F, a[K:])); i = bi(*a)
            return F(0) if i < 0 else lc_py(e, [y for r in nodes_of(e, x, i) for y in r] + p)[k]
        return f
    return {'bi_' + e.name: bi, **{'bl_%s_%d' % (e.name, k): bl(k) for k in range(e.cd)}}
