from common import *
import c04


def sources(): return [('c10', 'c10.cpp', []), ('c04_7', 'c04.cpp', ['-DPART=7'])]


def pvars(e, k):
    vs = {'c': ('R', 3), 'h': ('R', 3), 'q': ('R', 4), 'l': ('R', 3 * k)}
    if not e.rect: vs['k'] = ('R', 3)
    return vs


def loc(v, k): return [v.l[3 * i:3 * i + 3] for i in range(k)]


def place(e, v, l):
    """world position of a local point: rectangular, or sheared (every affine element is a rotated, sheared and scaled cube)"""
    R = spec.quat_R(v.q); y = [v.h[k] * F(1, 2) * l[k] for k in range(3)]
    if not e.rect: y[0] = y[0] + v.k[0] * l[1] + v.k[1] * l[2]; y[1] = y[1] + v.k[2] * l[2]
    return [v.c[d] + dot(R[d], y) for d in range(3)]


def buf(e, v): return elem_buf(e, v) if e.rect else [x for p in e.cnodes for x in place(e, v, p)]


def pre(e, v):
    return [E.ne(dot(v.q, v.q), 0)] + [E.gt(x, 0) for x in v.h]


def k_local(e, k):
    def f(ip, st, vals, rt, dem):
        """contract of local_coordinates (C04): the local coordinates of the image of a local point are that point"""
        x = rd(ip, st, vals[2], 3)
        for l, w in zip(loc(ip.uv, k), ip.uw):
            if all(a is b for a, b in zip(x, w)): wr(ip, st, vals[0], l); return
        raise interp.Unsupported('local coordinates of an unexpected point')
    return (re.compile(r'^(?:.* )?caribou::geometry::(?:Element|BaseRectangularHexahedron)<caribou::geometry::\w+<[^<>]*>(?:, double)? ?>::local_coordinates\([^()]*\) const$'), f)


def at(a, b, t): return [x + t * (y - x) for x, y in zip(a, b)]


def incube(p): return E.and_(*[E.and_(E.le(-1, x), E.le(x, 1)) for x in p])


def entry(a, b):
    """parameter at which the line enters the cube, clipped to the segment"""
    t = F(0)
    for x, y in zip(a, b):
        d = y - x
        u = E.ite(E.gt(d, 0), E.div(-1 - x, d), E.ite(E.lt(d, 0), E.div(1 - x, d), F(0)))
        t = E.ite(E.gt(u, t), u, t)
    return t


def seg_hits(a, b):
    """exact numbers: does the segment meet the cube?"""
    lo, hi = F(0), F(1)
    for x, y in zip(a, b):
        d = y - x
        if d == 0:
            if abs(x) > 1: return False
            continue
        u, w = sorted(((-1 - x) / d, (1 - x) / d)); lo, hi = max(lo, u), min(hi, w)
    return lo <= hi


def cross(a, b): return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


AX = [[F(int(i == j)) for j in range(3)] for i in range(3)]


def gaps(P):
    """separating axis theorem for the cube [-1,1]^3 and a segment or triangle: normalised gap along every candidate axis"""
    n = len(P); ed = [[y - x for x, y in zip(P[i], P[(i + 1) % n])] for i in range(n)] if n > 2 else [[y - x for x, y in zip(P[0], P[1])]]
    ax = AX + [cross(a, e) for a in AX for e in ed]
    if n > 2: ax.append(cross(ed[0], ed[1]))
    out = []
    for a in ax:
        r = sum(abs(x) for x in a)
        if r == 0: continue
        s = [dot(a, p) / r for p in P]; out.append(max(min(s) - 1, -1 - max(s)))
    return out


def hits(P): return max(gaps(P)) <= 0


def smp(e, k, exact, keep):
    def f(rng):
        while True:
            t = rng.random()
            if t < .45: l = [F(rng.randint(-12, 12), 4) for _ in range(3 * k)]
            elif t < .75: l = [F(rng.randint(-200, 200), 64) for _ in range(3 * k)]
            else:        # around an edge or a corner of the cube, or far points with a small gap
                c = [F(rng.choice([-1, 0, 1])) for _ in range(3)]; s = F(rng.choice([1, 2, 8, 40]), rng.choice([1, 4, 16]))
                l = [c[j] + s * F(rng.randint(-64, 64), 64) for _ in range(k) for j in range(3)]
            if k == 3 and rng.random() < .3:      # in a plane parallel to a face
                d = rng.randrange(3); c = F(rng.choice([-5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5]), 4); s = rng.choice([1, 1, 2, 8])
                l = [c if i % 3 == d else s * x for i, x in enumerate(l)]
            P = [l[3 * i:3 * i + 3] for i in range(k)]; g = gaps(P)
            if not keep(P, g): continue
            break
        d = {'l': l}
        if exact:
            d.update(c=[F(rng.randint(-4, 4)) for _ in range(3)], h=[F(2) ** rng.randint(-2, 3) for _ in range(3)])
            d['q'] = [F(0)] * 4; d['q'][rng.randrange(4)] = F(1)
        else:
            d.update(rnd_elem(ELEMS['RHexL'], rng))
        if not e.rect: d['k'] = [F(rng.randint(-64, 64), 64) for _ in range(3)]
        return d
    return f


def exact3(P, g):
    """triangles that the floating point code decides exactly: an edge meets the cube, or the plane is parallel to a face, or there is a margin"""
    e = [(P[i], P[(i + 1) % 3]) for i in range(3)]
    if not any(cross([y - x for x, y in zip(P[0], P[1])], [y - x for x, y in zip(P[0], P[2])])): return False
    return any(seg_hits(a, b) for a, b in e) or any(P[0][d] == P[1][d] == P[2][d] for d in range(3)) or apart(P, g)


def apart(P, g): return all(abs(x) > F(1, 1000) for x in g) and all(abs(abs(x) - 1) > F(1, 1000) for p in P for x in p)


def sq(x): return x * x


def lem(v):
    a, b = loc(v, 2); d = [y - x for x, y in zip(a, b)]; sg = [E.ite(E.lt(x, 0), -1, 1) for x in d]
    out = []
    for i in range(3):
        j, k = (i + 1) % 3, (i + 2) % 3
        p = [a[m] + v.s[0] * d[m] for m in (j, k)]
        out.append(E.implies(incube(p), E.le(sq(d[k] * a[j] - d[j] * a[k]), sq(d[k] * sg[j] + d[j] * sg[k]))))
    return out


def units(tier):
    us = c04.rhex_units()
    for n in ('HexL', 'HexQ', 'RHexL', 'RHexQ'):
        e = ELEMS[n]
        setup = lambda k, e=e: (lambda ip, st: setattr(ip, 'uw', [place(e, ip.uv, l) for l in loc(ip.uv, k)]))
        args = lambda k, e=e: (lambda v: [('in', 'R', buf(e, v)), ('in', 'R', [x for l in loc(v, k) for x in place(e, v, l)])])
        for ex in ((True, False) if e.rect else (False,)):
            kind = 'exact contacts' if ex else 'any placement'
            keep = (lambda P, g: True) if ex else apart

            def post(v, o, e=e):
                a, b = loc(v, 2)
                return [('meets a segment only if they share a point', E.implies(E.eq(o.ret, 1), incube(at(a, b, entry(a, b))))),
                        ('meets every segment that has a point in it', E.implies(E.and_(E.le(0, v.s[0]), E.le(v.s[0], 1), incube(at(a, b, v.s[0]))), E.eq(o.ret, 1))), ('0 or 1', E.or_(E.eq(o.ret, 0), E.eq(o.ret, 1)))]

            def s2(rng, f=smp(e, 2, ex, keep)):
                d = f(rng); a, b = d['l'][:3], d['l'][3:]
                t = F(rng.randint(0, 8), 8)
                if seg_hits(a, b):
                    t = F(0)
                    for x, y in zip(a, b):
                        if x != y: t = max(t, min((-1 - x) / (y - x), (1 - x) / (y - x)))
                d['s'] = [t]; return d
            if not ex: us.append(Unit(n + '.intersects(segment)', n + '_seg', 'c10', dict(pvars(e, 2), s=('R', 1)), args(2), post, pre=lambda v, e=e: pre(e, v), sample=s2, ret='I', contracts=[k_local(e, 2)], setup=setup(2),
                                      funcs=['%s::intersects(Segment)' % e.cls, '%s::intersects_local_segment' % e.cls], nsamp=400, timeout=20000, limit=300, simp=True, lemmas=lem))
            else: us.append(Unit(n + '.intersects(segment): exact contacts', n + '_seg', 'c10', pvars(e, 2), args(2), None, npost=lambda v, o: [('meets exactly the segments that share a point with it', o.ret == int(seg_hits(*loc(v, 2))))], pre=lambda v, e=e: pre(e, v), sample=smp(e, 2, True, keep), ret='I', sym=False, bounded='native sampling with exactly representable data', nsamp=600, funcs=['%s::intersects(Segment)' % e.cls]))
            if True:
                us.append(Unit(n + '.intersects(triangle)' + (': exact contacts' if ex else ''), n + '_tri', 'c10', pvars(e, 3), args(3), None, npost=lambda v, o: [('meets exactly the triangles that share a point with it', o.ret == int(hits(loc(v, 3))))], pre=lambda v, e=e: pre(e, v),
                               sample=smp(e, 3, ex, exact3 if ex else apart), ret='I', sym=False, bounded='native sampling against the separating axis theorem in exact arithmetic', nsamp=1500, funcs=['%s::intersects(Triangle)' % e.cls, '%s::intersects_local_polygon' % e.cls]))
    return us
