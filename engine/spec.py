"""Mathematical specification of the finite elements: reference nodes, interpolation spaces, reference domains.

Nothing here is read from the code under verification; the node numberings are the ones drawn in the documentation."""
from fractions import Fraction as F
import itertools

H = F(1, 2)


def inv(A):
    n = len(A)
    M = [list(map(F, r)) + [F(int(i == j)) for j in range(n)] for i, r in enumerate(A)]
    for c in range(n):
        p = next(r for r in range(c, n) if M[r][c] != 0)
        M[c], M[p] = M[p], M[c]
        d = M[c][c]
        M[c] = [x / d for x in M[c]]
        for r in range(n):
            if r != c and M[r][c] != 0:
                f = M[r][c]
                M[r] = [x - f * y for x, y in zip(M[r], M[c])]
    return [r[n:] for r in M]


def mono(m, xi):
    r = F(1)
    for e, x in zip(m, xi):
        for _ in range(e): r = r * x
    return r


def dmono(m, xi, k):
    if m[k] == 0: return F(0)
    m2 = list(m); m2[k] -= 1
    return F(m[k]) * mono(m2, xi)


class Elem:
    def __init__(self, name, cls, shape, dim, order, nodes, monos):
        self.name = name; self.cls = cls; self.shape = shape; self.dim = dim; self.order = order
        self.cnodes = [tuple(F(x) for x in p) for p in nodes]; self.monos = monos
        self.n = len(nodes); self.cd = len(nodes[0])
        V = [[mono(m, p) for m in monos] for p in self.cnodes]
        C = inv(V)                       # C[m][i] : coefficient of monomial m in basis i
        self.coef = [[C[m][i] for m in range(self.n)] for i in range(self.n)]
        self.rect = cls.startswith('Rectangular')

    def L(self, xi):
        ms = [mono(m, xi) for m in self.monos]
        out = []
        for i in range(self.n):
            s = F(0)
            for c, m in zip(self.coef[i], ms):
                if c: s = s + c * m
            out.append(s)
        return out

    def dL(self, xi):
        cols = [[dmono(m, xi, k) for m in self.monos] for k in range(self.cd)]
        out = []
        for i in range(self.n):
            r = []
            for k in range(self.cd):
                s = F(0)
                for c, m in zip(self.coef[i], cols[k]):
                    if c: s = s + c * m
                r.append(s)
            out.append(r)
        return out

    def world(self, nodes, xi):
        L = self.L(xi)
        return [sum((L[i] * nodes[i][d] for i in range(self.n)), F(0)) for d in range(self.dim)]

    def jac(self, nodes, xi):
        dL = self.dL(xi)
        return [[sum((dL[i][k] * nodes[i][d] for i in range(self.n)), F(0)) for k in range(self.cd)] for d in range(self.dim)]

    @property
    def simplex(self): return self.shape in ('tri', 'tet')

    def measure(self):
        return {'seg': F(2), 'tri': F(1, 2), 'quad': F(4), 'tet': F(1, 6), 'hex': F(8)}[self.shape]

    def integral(self, m):
        """exact integral of a monomial over the reference domain"""
        if self.simplex:
            import math
            n = 1
            for e in m: n *= math.factorial(e)
            return F(n, math.factorial(sum(m) + self.cd))
        r = F(1)
        for e in m: r *= F(2, e + 1) if e % 2 == 0 else 0
        return r


SEG = [(-1,), (1,), (0,)]
TRI = [(0, 0), (1, 0), (0, 1), (H, 0), (H, H), (0, H)]
QUAD = [(-1, -1), (1, -1), (1, 1), (-1, 1), (0, -1), (1, 0), (0, 1), (-1, 0)]
TET = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (H, 0, 0), (H, H, 0), (0, H, 0), (0, 0, H), (H, 0, H), (0, H, H)]
HEX = [(-1, -1, -1), (1, -1, -1), (1, 1, -1), (-1, 1, -1), (-1, -1, 1), (1, -1, 1), (1, 1, 1), (-1, 1, 1),
       (0, -1, -1), (1, 0, -1), (0, 1, -1), (-1, 0, -1), (0, -1, 1), (1, 0, 1), (0, 1, 1), (-1, 0, 1),
       (-1, -1, 0), (1, -1, 0), (1, 1, 0), (-1, 1, 0)]


def full(d, k):
    return [m for m in itertools.product(range(k + 1), repeat=d) if sum(m) <= k]


def tens(d):
    return list(itertools.product(range(2), repeat=d))


def seren(d):
    """serendipity of order 2: superlinear degree <= 2"""
    return [m for m in itertools.product(range(3), repeat=d) if sum(e for e in m if e > 1) <= 2]


ELEMS = {}


def _add(name, cls, shape, dim, order, nodes, monos):
    ELEMS[name] = Elem(name, cls, shape, dim, order, nodes, monos)


for d in (1, 2, 3):
    _add('Seg%dL' % d, 'Segment<%d,Linear>' % d, 'seg', d, 1, SEG[:2], full(1, 1))
    _add('Seg%dQ' % d, 'Segment<%d,Quadratic>' % d, 'seg', d, 2, SEG, full(1, 2))
for d in (2, 3):
    _add('Tri%dL' % d, 'Triangle<%d,Linear>' % d, 'tri', d, 1, TRI[:3], full(2, 1))
    _add('Tri%dQ' % d, 'Triangle<%d,Quadratic>' % d, 'tri', d, 2, TRI, full(2, 2))
    _add('Quad%dL' % d, 'Quad<%d,Linear>' % d, 'quad', d, 1, QUAD[:4], tens(2))
    _add('Quad%dQ' % d, 'Quad<%d,Quadratic>' % d, 'quad', d, 2, QUAD, seren(2))
    _add('RQuad%dL' % d, 'RectangularQuad<%d,Linear>' % d, 'quad', d, 1, QUAD[:4], tens(2))
    _add('RQuad%dQ' % d, 'RectangularQuad<%d,Quadratic>' % d, 'quad', d, 2, QUAD, seren(2))
_add('TetL', 'Tetrahedron<Linear>', 'tet', 3, 1, TET[:4], full(3, 1))
_add('TetQ', 'Tetrahedron<Quadratic>', 'tet', 3, 2, TET, full(3, 2))
_add('HexL', 'Hexahedron<Linear>', 'hex', 3, 1, HEX[:8], tens(3))
_add('HexQ', 'Hexahedron<Quadratic>', 'hex', 3, 2, HEX, seren(3))
_add('RHexL', 'RectangularHexahedron<Linear>', 'hex', 3, 1, HEX[:8], tens(3))
_add('RHexQ', 'RectangularHexahedron<Quadratic>', 'hex', 3, 2, HEX, seren(3))

PARTS = {1: ['Seg1L', 'Seg2L', 'Seg3L', 'Seg1Q', 'Seg2Q', 'Seg3Q'], 2: ['Tri2L', 'Tri3L', 'Tri2Q', 'Tri3Q'],
         3: ['Quad2L', 'Quad3L', 'Quad2Q', 'Quad3Q'], 4: ['TetL', 'TetQ'], 5: ['HexL', 'HexQ'],
         6: ['RQuad2L', 'RQuad3L', 'RQuad2Q', 'RQuad3Q'], 7: ['RHexL', 'RHexQ']}
PART_OF = {n: p for p, ns in PARTS.items() for n in ns}


# ---- small linear algebra over terms / rationals
def dot(a, b):
    s = F(0)
    for x, y in zip(a, b): s = s + x * y
    return s


def matvec(M, v): return [dot(r, v) for r in M]


def matmul(A, B):
    Bt = list(zip(*B))
    return [[dot(r, c) for c in Bt] for r in A]


def transpose(A): return [list(r) for r in zip(*A)]


def cross(a, b): return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def det(M):
    if len(M) == 1: return M[0][0]
    if len(M) == 2: return M[0][0] * M[1][1] - M[0][1] * M[1][0]
    return dot(M[0], cross(M[1], M[2]))


def rows(flat, r, c): return [list(flat[i * c:(i + 1) * c]) for i in range(r)]


def quat_R(q):
    """rotation matrix of a (non-zero) quaternion: entries rational in q"""
    a, b, c, d = q
    n = a * a + b * b + c * c + d * d
    M = [[a * a + b * b - c * c - d * d, 2 * (b * c - a * d), 2 * (b * d + a * c)],
         [2 * (b * c + a * d), a * a - b * b + c * c - d * d, 2 * (c * d - a * b)],
         [2 * (b * d - a * c), 2 * (c * d + a * b), a * a - b * b - c * c + d * d]]
    return [[x / n for x in r] for r in M]


def ang_R(q):
    a, b = q
    n = a * a + b * b
    return [[(a * a - b * b) / n, -2 * a * b / n], [2 * a * b / n, (a * a - b * b) / n]]
