"""Shared pieces of the contracts: element variables, callee contracts."""
import re
from fractions import Fraction as F
import expr as E, interp, irparse
from expr import T
from unit import Unit, default_real
import spec
from spec import ELEMS, PARTS, PART_OF, rows, dot

F64 = irparse.F64
ALL = [n for p in sorted(PARTS) for n in PARTS[p]]


def rd(ip, st, p, n):
    return [ip.load(st, F64, ip.padd(p, 8 * i)) for i in range(n)]


def wr(ip, st, p, vals):
    for i, x in enumerate(vals): ip.store(st, F64, x if isinstance(x, T) else F(x), ip.padd(p, 8 * i))


def colmajor(M):
    return [M[i][j] for j in range(len(M[0])) for i in range(len(M))]


# demangled class name -> Elem
def elem_of(dem):
    """identify the element in a demangled 'caribou::geometry::Element<caribou::geometry::X<..> >::f(' name"""
    m = re.search(r'caribou::geometry::(?:Element|Base\w+)<caribou::geometry::(\w+)<([^<>]*)>', dem)
    if not m: return None
    cls, a = m.group(1), [x.strip() for x in m.group(2).split(',')]
    a = [re.sub(r'[^0-9]', '', x) for x in a]
    pre = {'Segment': 'Seg', 'Triangle': 'Tri', 'Quad': 'Quad', 'RectangularQuad': 'RQuad', 'Tetrahedron': 'Tet', 'Hexahedron': 'Hex', 'RectangularHexahedron': 'RHex'}.get(cls)
    if pre is None: return None
    nm = pre + (a[0] if len(a) == 2 else '') + ('L' if a[-1] == '1' else 'Q')
    return ELEMS.get(nm)


def k_L(ip, st, vals, rt, dem):
    """contract of Element::L : the Lagrange basis of the element (verified by C01)"""
    e = elem_of(dem)
    if e is None: raise interp.Unsupported('unknown element ' + dem)
    wr(ip, st, vals[0], e.L(rd(ip, st, vals[2], e.cd)))


def k_dL(ip, st, vals, rt, dem):
    """contract of Element::dL : its exact derivative (verified by C02)"""
    e = elem_of(dem)
    if e is None: raise interp.Unsupported('unknown element ' + dem)
    wr(ip, st, vals[0], colmajor(e.dL(rd(ip, st, vals[2], e.cd))))


SHAPE = [(re.compile(r'^caribou::geometry::Element<.*>::L\('), k_L), (re.compile(r'^caribou::geometry::Element<.*>::dL\('), k_dL)]


# ---------------------------------------------------------------- element inputs
def elem_vars(e):
    """ghost variables describing an arbitrary element"""
    if not e.rect: return {'n': ('R', e.n * e.dim)}
    return {'c': ('R', e.dim), 'h': ('R', e.cd), 'q': ('R', 4 if e.dim == 3 else 2)}


def elem_buf(e, v):
    """content of the harness buffer"""
    if not e.rect: return list(v.n)
    R = rot(e, v)
    return list(v.c) + list(v.h) + [x for r in R for x in r]


def rot(e, v):
    return spec.quat_R(v.q) if e.dim == 3 else spec.ang_R(v.q)


def elem_pre(e, v):
    if not e.rect: return []
    return [E.ne(dot(v.q, v.q), 0)] + [E.gt(x, 0) for x in v.h]


def elem_nodes(e, v):
    """world positions of the nodes, as rows"""
    if not e.rect: return rows(v.n, e.n, e.dim)
    R = rot(e, v)
    out = []
    for p in e.cnodes:
        loc = [v.h[k] * F(1, 2) * p[k] for k in range(e.cd)] + [F(0)] * (e.dim - e.cd)
        out.append([v.c[d] + dot(R[d], loc) for d in range(e.dim)])
    return out


def rnd_elem(e, rng):
    """sample: a (mildly distorted) placed copy of the reference element, or wild nodes"""
    rr = lambda a, b: F(rng.randint(int(a * 64), int(b * 64)), 64)
    if e.rect:
        q = [rr(-2, 2) for _ in range(4 if e.dim == 3 else 2)]
        if not any(q): q[0] = F(1)
        return {'c': [rr(-3, 3) for _ in range(e.dim)], 'h': [rr(0.25, 3) for _ in range(e.cd)], 'q': q}
    A = None
    while A is None or abs(spec.det(A)) < F(1, 2):
        A = [[rr(-2, 2) for _ in range(e.dim)] for _ in range(e.dim)]
    c = [rr(-3, 3) for _ in range(e.dim)]
    amp = rng.choice([0, 0.0625, 0.0625, 1])
    n = []
    for p in e.cnodes:
        pp = list(p) + [F(0)] * (e.dim - e.cd)
        n += [c[d] + dot(A[d], pp) + (rr(-amp, amp) if amp else 0) for d in range(e.dim)]
    return {'n': n}


def rnd_xi(e, rng, k=None):
    k = k or e.cd
    t = rng.random()
    if t < 0.25: return [rng.choice([F(0), F(1), F(-1), F(1, 2), F(-1, 2)]) for _ in range(k)]
    return [F(rng.randint(-128, 128), 64) for _ in range(k)]


def geq(xs, ys):
    return E.and_(*[E.eq(x, y) for x, y in zip(xs, ys)])


def elem_unit(name, fn, stem, e, extra, args, post, pre=None, sample=None, **kw):
    """unit on an element wrapper: element ghost variables + extra variables"""
    vs = dict(elem_vars(e)); vs.update(extra)

    def smp(rng):
        d = rnd_elem(e, rng)
        d.update(sample(rng) if sample else {n: rnd_xi(e, rng, x[1]) for n, x in extra.items()})
        return d
    return Unit(name, fn, stem, vs, args, post, pre=lambda v: elem_pre(e, v) + (pre(v) if pre else []), sample=smp, **kw)


def near(a, b, tol=F(1, 10**12)):
    """equality of quantities built from rounded constants"""
    return E.and_(E.le(a - b, tol), E.le(b - a, tol))
