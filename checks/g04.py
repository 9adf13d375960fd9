from gridspec import *
import g01

sources = gsources


def own_units():
    us = []

    def U(D, name, fn, vs, args, post, **kw):
        us.append(Unit('Grid<%d>.%s' % (D, name), 'g%d_%s' % (D, fn), 'grid_%d' % D, vs, args, post, funcs=['Grid<%d>::%s' % (D, name.split('[')[0])], timeout=30000, **kw))
    # ---- 2D
    U(2, 'number_of_edges', 'nedges', gvars(2), gargs, lambda v, o: [('one edge per lattice segment', E.eq(o.ret, v.n[0] * (v.n[1] + 1) + (v.n[0] + 1) * v.n[1]))], pre=gpre, sample=gsample(2), ret='I')
    row = lambda v: 2 * v.n[0] + 1
    nat = lambda v, c: flat(np1(v), c)

    def rnd(lim):
        def f(rng, n, d): return {'c': [rng.choice([0, m - 1, rng.randrange(m)]) for m in lim(n)]}
        return f

    def add(D, name, fn, lim, idx, ends, extra_lem=None, quot=None, count=None):
        vs = gvars(D, c=('I', D, 0, NMAX))
        pre = lambda v: gpre(v) + [E.lt(x, m) for x, m in zip(v.c, lim(v.n))]
        U(D, name, fn, vs, lambda v: gargs(v) + [('val', 'I', idx(v)), ('out', 'I', 'e', len(ends))],
          lambda v, o: [('end %d is the lattice node at offset %s' % (k, p), E.eq(o.e[k], nat(v, [v.c[i] + p[i] for i in range(D)]))) for k, p in enumerate(ends)],
          pre=pre, sample=gsample(D, rnd(lim)), quots=quot, lemmas=lambda v: (extra_lem(v) if extra_lem else []) + ([E.and_(E.le(0, idx(v)), E.lt(idx(v), count(v)))] if count else []))
    ne2 = lambda v: v.n[0] * (v.n[1] + 1) + (v.n[0] + 1) * v.n[1]
    add(2, 'edge[x]', 'edge', lambda n: [n[0], n[1] + 1], lambda v: v.c[1] * row(v) + v.c[0], [(0, 0), (1, 0)], quot=lambda v: [v.c[1]], count=ne2)
    add(2, 'edge[y]', 'edge', lambda n: [n[0] + 1, n[1]], lambda v: v.c[1] * row(v) + v.n[0] + v.c[0], [(0, 0), (0, 1)], quot=lambda v: [v.c[1]], count=ne2)
    # ---- 3D edges
    S = lambda v: row(v) * v.n[1] + v.n[0]
    B = lambda v: (v.n[0] + 1) * (v.n[1] + 1)
    ne3 = lambda v: S(v) * (v.n[2] + 1) + v.n[2] * B(v)
    U(3, 'number_of_edges', 'nedges', gvars(3), gargs, lambda v, o: [('one edge per lattice segment', E.eq(o.ret,
      v.n[0] * (v.n[1] + 1) * (v.n[2] + 1) + (v.n[0] + 1) * v.n[1] * (v.n[2] + 1) + (v.n[0] + 1) * (v.n[1] + 1) * v.n[2]))], pre=gpre, sample=gsample(3), ret='I')
    q3 = lambda v: [v.c[2], v.c[1]]
    inS = lambda x: (lambda v: [E.and_(E.le(0, x(v)), E.lt(x(v), S(v)))])
    x0 = lambda v: v.c[1] * row(v) + v.c[0]
    add(3, 'edge[x]', 'edge', lambda n: [n[0], n[1] + 1, n[2] + 1], lambda v: v.c[2] * (S(v) + B(v)) + x0(v), [(0, 0, 0), (1, 0, 0)], inS(x0), q3)
    x1 = lambda v: v.c[1] * row(v) + v.n[0] + v.c[0]
    add(3, 'edge[y]', 'edge', lambda n: [n[0] + 1, n[1], n[2] + 1], lambda v: v.c[2] * (S(v) + B(v)) + x1(v), [(0, 0, 0), (0, 1, 0)], inS(x1), q3)
    x2 = lambda v: v.c[1] * (v.n[0] + 1) + v.c[0]
    add(3, 'edge[z]', 'edge', lambda n: [n[0] + 1, n[1] + 1, n[2]], lambda v: v.c[2] * (S(v) + B(v)) + S(v) + x2(v), [(0, 0, 0), (0, 0, 1)],
        lambda v: [E.and_(E.le(0, x2(v)), E.lt(x2(v), B(v)))], q3)
    # ---- 3D faces
    P = lambda v: v.n[0] * v.n[1]
    Q = lambda v: (v.n[0] + 1) * v.n[1] + v.n[0] * (v.n[1] + 1)
    U(3, 'number_of_faces', 'nfaces', gvars(3), gargs, lambda v, o: [('one face per lattice square', E.eq(o.ret,
      v.n[0] * v.n[1] * (v.n[2] + 1) + v.n[0] * (v.n[1] + 1) * v.n[2] + (v.n[0] + 1) * v.n[1] * v.n[2]))], pre=gpre, sample=gsample(3), ret='I')
    nl = lambda v: lemmas(np1(v), v.c)
    qf = lambda v: [v.c[2], v.c[1]] + quots(np1(v), v.c)
    f0 = lambda v: v.c[1] * v.n[0] + v.c[0]
    add(3, 'face[xy]', 'face', lambda n: [n[0], n[1], n[2] + 1], lambda v: v.c[2] * (P(v) + Q(v)) + f0(v), [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0)],
        lambda v: [E.and_(E.le(0, f0(v)), E.lt(f0(v), P(v)))] + nl(v), qf)
    XZ = lambda v: v.n[0] * (v.n[1] + 1)
    add(3, 'face[xz]', 'face', lambda n: [n[0], n[1] + 1, n[2]], lambda v: v.c[2] * (P(v) + Q(v)) + P(v) + f0(v), [(0, 0, 0), (1, 0, 0), (1, 0, 1), (0, 0, 1)],
        lambda v: [E.and_(E.le(0, f0(v)), E.lt(f0(v), XZ(v)))] + nl(v), qf)
    f2 = lambda v: v.c[1] * (v.n[0] + 1) + v.c[0]
    add(3, 'face[yz]', 'face', lambda n: [n[0] + 1, n[1], n[2]], lambda v: v.c[2] * (P(v) + Q(v)) + P(v) + XZ(v) + f2(v), [(0, 0, 0), (0, 1, 0), (0, 1, 1), (0, 0, 1)],
        lambda v: [E.and_(E.le(0, f2(v)), E.lt(f2(v), (v.n[0] + 1) * v.n[1]))] + nl(v), qf)
    return us


def units(tier): return g01.own_units() + own_units()
