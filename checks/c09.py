from common import *
import c03, c08

sources = c08.sources


def k_world(ip, st, vals, rt, dem):
    """contract of Element::world_coordinates as an unknown map W (verified by C03), written relative to a base point:
    W(base) = p and W(x) = p + D(x), where D(x) = W(x) - W(base) by definition"""
    e = elem_of(dem)
    xi = rd(ip, st, vals[2], e.cd)
    wr(ip, st, vals[0], Wt(e, ip.ghost_nodes, ip.ghost_base, xi))


def Wt(e, N, base, xi):
    same = all(E.sub(x, y) == 0 if not isinstance(E.sub(x, y), T) else False for x, y in zip(xi, base))
    p = [E.uf('P_%s_%d' % (e.name, d), tuple(base) + tuple(N), 'R') for d in range(e.dim)]
    if same: return p
    return [x + y for x, y in zip(p, Dt(e, N, base, xi))]


def Dt(e, N, base, xi): return [E.uf('D_%s_%d' % (e.name, d), tuple(xi) + tuple(base) + tuple(N), 'R') for d in range(e.dim)]


def ufs_of(e):
    fs = {}
    for d in range(e.dim):
        fs['P_%s_%d' % (e.name, d)] = lambda *a, d=d: e.world(rows(a[e.cd:], e.n, e.dim), a[:e.cd])[d]
        fs['D_%s_%d' % (e.name, d)] = lambda *a, d=d: (lambda N: e.world(N, a[:e.cd])[d] - e.world(N, a[e.cd:2 * e.cd])[d])(rows(a[2 * e.cd:], e.n, e.dim))
    return fs


WORLD = [(re.compile(r'^caribou::geometry::Element<.*>::world_coordinates\('), k_world)]


def sub(a, b): return [x - y for x, y in zip(a, b)]


def nrm(a): return E.sqrt(dot(a, a))


def frame_post(a, b, gram, o, dim):
    """columns of the frame against the directions a, b"""
    M = rows(o.m, dim, dim)
    u = [M[d][0] for d in range(dim)]; v = [M[d][1] for d in range(dim)]
    na, nb = nrm(a), nrm(b)
    out = [('u[%d] is the unit vector along the first direction' % d, E.eq(u[d] * na, a[d])) for d in range(dim)]
    if not gram:
        out += [('v[%d] is the unit vector along the second direction' % d, E.eq(v[d] * nb, b[d])) for d in range(dim)]
    if dim == 3:
        w = [M[d][2] for d in range(3)]
        c = spec.cross(a, b); nc = nrm(c)
        out += [('w[%d] is the unit normal of the two directions' % d, E.eq(w[d] * nc, c[d])) for d in range(3)]
        if gram:
            vv = spec.cross(c, a)
            out += [('v[%d] completes the right-handed orthonormal frame' % d, E.eq(v[d] * nc * na, vv[d])) for d in range(3)]
    return out


def indep(a, b, dim):
    return [E.gt(nrm(a), 0), E.gt(nrm(b), 0)] + ([E.gt(nrm(spec.cross(a, b)), 0)] if dim == 3 else [])


def roots_of(a, b, dim):
    na, nb = nrm(a), nrm(b)
    if dim == 2: return [na, nb]
    nc = nrm(spec.cross(a, b))
    return [na, nb, nc, nc / (na * nb), F(1)]


def frame_units():
    us = []
    for n in ('Quad2L', 'Quad2Q', 'Quad3L', 'Quad3Q', 'HexL', 'HexQ'):
        e = ELEMS[n]; stem = 'c08_3' if e.cd == 3 else 'c08_%d' % (e.dim - 1)
        for at0 in (False, True):
            def base(v, e=e, at0=at0): return [F(0)] * e.cd if at0 else list(v.xi)

            def ab(v, e=e, base=base):
                x = base(v)
                return Dt(e, v.n, x, [F(1)] + x[1:]), Dt(e, v.n, x, [x[0], F(1)] + x[2:])

            def setup(ip, st, e=e, at0=at0):
                ip.ghost_nodes = [E.rvar('n[%d]' % i) for i in range(e.n * e.dim)]
                ip.ghost_base = [F(0)] * e.cd if at0 else [E.rvar('xi[%d]' % i) for i in range(e.cd)]
            us.append(elem_unit('%s.frame(%s)' % (n, '' if at0 else 'xi'), '%s_frame%s' % (n, '0' if at0 else ''), stem, e, {} if at0 else {'xi': ('R', e.cd)},
                                lambda v, e=e, at0=at0: [('in', 'R', elem_buf(e, v))] + ([] if at0 else [('in', 'R', v.xi)]) + [('out', 'R', 'm', e.dim**2)],
                                lambda v, o, e=e, ab=ab: frame_post(*ab(v), e.cd == 3, o, e.dim),
                                pre=lambda v, ab=ab, e=e: indep(*ab(v), e.dim), roots=lambda v, ab=ab, e=e: roots_of(*ab(v), e.dim),
                                contracts=WORLD, ufs=ufs_of(e), setup=setup, simp=True, funcs=['%s::frame' % e.cls], tol=1e-7))
        # rectangular placement: the frame is the rotation
        r = ELEMS['R' + n]
        us.append(elem_unit('%s.frame of a rectangle is its rotation' % n, '%s_frame' % n, stem, r, {'xi': ('R', e.cd)},
                            lambda v, r=r: [('in', 'R', [x for p in elem_nodes(r, v) for x in p]), ('in', 'R', v.xi), ('out', 'R', 'm', r.dim**2)],
                            lambda v, o, r=r: [('frame entry %d' % i, E.eq(o.m[i], x)) for i, x in enumerate([x for row in rot(r, v) for x in row])],
                            pre=lambda v: [E.lt(v.xi[0], 1), E.lt(v.xi[1], 1)], contracts=SHAPE, simp=True, funcs=['%s::frame' % e.cls], tol=1e-7))
    for n, fn in (('TetL', 'frame0'), ('TetQ', 'frame0'), ('Tri3L', 'normal'), ('Tri3Q', 'normal')):
        e = ELEMS[n]

        def post(v, o, fn=fn):
            if fn == 'frame0': return frame_post(v.a, v.b, True, o, 3)
            c = spec.cross(v.a, v.b); nc = nrm(c)
            return [('normal[%d]' % d, E.eq(o.m[d] * nc, c[d])) for d in range(3)]

        def nodes(v, e=e): return list(v.p) + [x + y for x, y in zip(v.p, v.a)] + [x + y for x, y in zip(v.p, v.b)] + list(v.r)
        us.append(Unit('%s.%s' % (n, 'frame' if fn == 'frame0' else fn), '%s_%s' % (n, fn), 'c08_3' if n[1] == 'e' else 'c08_2',
                       {'p': ('R', 3), 'a': ('R', 3), 'b': ('R', 3), 'r': ('R', e.n * 3 - 9)},
                       lambda v, nodes=nodes, fn=fn: [('in', 'R', nodes(v)), ('out', 'R', 'm', 9 if fn == 'frame0' else 3)], post,
                       pre=lambda v: indep(v.a, v.b, 3), roots=lambda v: roots_of(v.a, v.b, 3), simp=True, funcs=['%s::%s' % (e.cls, fn)], tol=1e-7))
    return us


def units(tier):
    return c03.units(tier) + frame_units()
