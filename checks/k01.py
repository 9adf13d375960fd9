from common import *
import re
import b01

NN, NE = 4, 2
NAME = b01.GRID[-4:] + [(re.compile(r'^std::__cxx11::basic_ostringstream<.*>::str\('), b01.k_str), (re.compile(r'^std::__cxx11::basic_ostringstream<'), b01.nop)]     # the name given to a domain added without one: any text (there is no other domain)


def sources(): return [('ctopo', 'ctopo.cpp', ['-fno-access-control'])]


def pick(xs, i):
    """xs[i] for a symbolic index"""
    r = xs[-1]
    for k in range(len(xs) - 2, -1, -1): r = E.ite(E.eq(i, k), xs[k], r)
    return r


def idx(v, n):
    """indices of the elements: an arbitrary one at an arbitrary place"""
    return [E.ite(E.eq(v.at[0], k), v.i[0], (3 * k + 1) % NN) for k in range(n)]


def attach(nm, cls, ne, N, D, lo, hi, at):
    V = {'x': ('R', NN * D), 'i': ('I', 1, 0, NN - 1), 'at': ('I', 1, lo, hi)}

    def posta(v, o, ne=ne, N=N, D=D):
        ix = idx(v, ne * N); X = rows(v.x, NN, D)
        return [('the domain of the topology is the attached one', E.and_(E.eq(o.c[0], 1), E.eq(o.c[1], ne), E.eq(o.c[2], NN), E.eq(o.c[3], 1))), ('one entry of the data per element', E.eq(o.c[4], ne))] + [('index %d in the data' % k, E.eq(o.io[k], ix[k])) for k in range(ne * N)] + \
               [('position of node %d, axis %d' % (k, c), E.eq(o.o[k * D + c], pick([p[c] for p in X], ix[k]))) for k in range(ne * N) for c in range(D)]
    return Unit(cls + '.attachDomain' + at, nm + '_tattach', 'ctopo', V, lambda v, ne=ne, N=N, D=D: [('in', 'R', v.x), ('val', 'I', NN), ('in', 'I', idx(v, ne * N)), ('val', 'I', ne), ('out', 'R', 'o', ne * N * D), ('out', 'I', 'io', ne * N), ('out', 'I', 'c', 5)], posta,
                   sample=lambda rng, V=V: {k: [F(rng.randint(-64, 64), 8) for _ in range(x[1])] if x[0] == 'R' else [rng.randint(x[2], x[3]) for _ in range(x[1])] for k, x in V.items()}, funcs=[cls + '::attachDomain', cls + '::element'], bounded='%d positions, %d element%s' % (NN, ne, 's' * (ne > 1)), nsamp=8, limit=200)


def units(tier):
    us = []
    for nm in ('Seg1L', 'Tri2L', 'Tri3Q', 'Quad2L', 'TetL', 'TetQ', 'HexL'):
        e = ELEMS[nm]; N, D = e.n, e.dim; cls = 'CaribouTopology<%s>' % e.cls
        ne = NE if N <= 4 else 1
        for kind, lo, hi in [(k, lo, hi) for lo, hi in ([(a, a) for a in (0, 4, N - 1)] if N > 8 else [(0, ne * N - 1)]) for k in ('data', 'unset', 'again', 'attach')]:
            if kind == 'unset' and lo: continue
            V = {'x': ('R', NN * D), 'i': ('I', 1, 0, NN - 1 if kind == 'again' else NN + 3), 'at': ('I', 1, lo, hi)}     # a bad index leaves the earlier domain, if any

            def post(v, o, kind=kind, ne=ne, N=N, D=D):
                ix = idx(v, ne * N); X = rows(v.x, NN, D); none = E.and_(E.eq(o.c[0], 0), E.eq(o.c[1], 0))
                if kind == 'unset': return [('no domain without indices', none)]
                good = E.and_(*[E.lt(i, NN) for i in ix])
                r = [('no domain when an index exceeds the positions', E.implies(E.not_(good), none)), ('one domain over all positions', E.implies(good, E.and_(E.eq(o.c[0], 1), E.eq(o.c[1], ne), E.eq(o.c[2], NN))))]
                for k in range(ne * N):
                    r.append(('index %d' % k, E.implies(good, E.eq(o.io[k], ix[k]))))
                    for c in range(D): r.append(('position of node %d, axis %d' % (k, c), E.implies(good, E.eq(o.o[k * D + c], pick([p[c] for p in X], ix[k])))))
                return r
            at = ' (node %d)' % lo if N > 8 else ''
            if kind == 'attach':
                us.append(attach(nm, cls, ne, N, D, lo, hi, at)); continue
            us.append(Unit(cls + '.init: ' + {'data': 'mesh of the data', 'unset': 'no indices', 'again': 'initialised again'}[kind] + at * (kind != 'unset'), nm + '_tinit', 'ctopo', V,
                           lambda v, ne=ne, N=N, D=D, kind=kind: [('in', 'R', v.x), ('val', 'I', NN), ('in', 'I', idx(v, ne * N)), ('val', 'I', ne), ('val', 'I', {'unset': 1, 'again': 2}.get(kind, 0)), ('out', 'R', 'o', ne * N * D), ('out', 'I', 'io', ne * N), ('out', 'I', 'c', 3)], post,
                           sample=lambda rng, V=V: {k: [F(rng.randint(-64, 64), 8) for _ in range(x[1])] if x[0] == 'R' else [rng.randint(x[2], x[3]) for _ in range(x[1])] for k, x in V.items()}, contracts=NAME, funcs=[cls + '::init', cls + '::initializeFromIndices'],
                           bounded='%d positions, %d element%s' % (NN, ne, 's' * (ne > 1)), nsamp=8, limit=200))
    for nm, fn, D in (('Tetrahedron<Linear>', 'bbox', 3), ('Triangle<2,Linear>', 'bbox2', 2)):
        for vis in (1, 0):
            n = 3

            def postb(v, o, vis=vis, n=n, D=D):
                X = rows(v.x, n, D); r = []
                for c in range(3):
                    if not vis: r.append(('the box is left alone, axis %d' % c, E.and_(E.eq(o.b[c], v.b[c]), E.eq(o.b[3 + c], v.b[3 + c])))); continue
                    if c >= D: r.append(('the box is flat, axis %d' % c, E.and_(E.eq(o.b[c], 0), E.eq(o.b[3 + c], 0)))); continue
                    r.append(('no position is below the box, axis %d' % c, E.and_(*[E.le(o.b[c], p[c]) for p in X])))
                    r.append(('no position is above the box, axis %d' % c, E.and_(*[E.le(p[c], o.b[3 + c]) for p in X])))
                    r.append(('the box touches a position, axis %d' % c, E.and_(E.or_(*[E.eq(o.b[c], p[c]) for p in X]), E.or_(*[E.eq(o.b[3 + c], p[c]) for p in X]))))
                return r
            us.append(Unit('CaribouForcefield<%s>.computeBBox' % nm + ('' if vis else ' (invisible)'), fn, 'ctopo', {'x': ('R', D * n), 'b': ('R', 6)}, lambda v, n=n, vis=vis: [('in', 'R', v.x), ('val', 'I', n), ('val', 'I', vis), ('io', 'R', 'b', v.b)], postb,
                           pre=lambda v: [E.and_(E.lt(-(1 << 40), c), E.lt(c, 1 << 40)) for c in v.x], sample=lambda rng, n=n, D=D: {'x': [F(rng.randint(-64, 64), 8) for _ in range(D * n)], 'b': [F(rng.randint(-64, 64), 8) for _ in range(6)]}, funcs=['CaribouForcefield::computeBBox'], bounded='three positions', nsamp=30, max_paths=4000, limit=300))
    return us
