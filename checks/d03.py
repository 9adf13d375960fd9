from topo import *
import d01, d02, big, itertools


def sources(): return [('reg', 'reg.cpp', ACC)] + big.sources(2)


def b2i(c): return E.ite(c, 1, 0)


def expect(v, codes):
    """model of the registry: presence and time of the last addition of each name"""
    P = [False] * 3; Tm = [0] * 3; rets = []
    for s, c in enumerate(codes):
        r = -1
        for j in range(3):
            r = E.ite(E.eq(c, j), b2i(E.not_(P[j]) if isinstance(P[j], T) else not P[j]), r)
            r = E.ite(E.or_(E.eq(c, 3 + j), E.eq(c, 6 + j)), b2i(P[j]), r)
        rets.append(r)
        for j in range(3):
            add = E.and_(E.eq(c, j), E.not_(P[j]) if isinstance(P[j], T) else not P[j])
            Tm[j] = E.ite(add, s, Tm[j])
            P[j] = E.and_(E.or_(P[j], E.eq(c, j)), E.not_(E.or_(E.eq(c, 3 + j), E.eq(c, 6 + j))))
    return P, Tm, rets


def post_state(v, o, P, Tm, idx):
    out = []
    tot = 0
    for j in range(3):
        q = o.o[6 * j:6 * j + 6]
        pos = 0
        for i in range(3):
            if i != j: pos = pos + b2i(E.and_(P[i], E.lt(Tm[i], Tm[j])))
        tot = tot + b2i(P[j])
        out += [('domain %d is found by name exactly when it is registered' % j, E.eq(q[0], b2i(P[j]))),
                ('domain %d is at its place in the list' % j, E.eq(q[1], E.ite(P[j], pos, -1))),
                ('domain %d has its connectivity' % j, E.and_(*[E.eq(q[2 + k], E.ite(P[j], idx[3 * j + k], -1)) for k in range(3)])),
                ('domain %d is attached to the mesh' % j, E.eq(q[5], E.ite(P[j], 1, -1)))]
    return out + [('number of domains', E.eq(o.o[18], tot))]


def own_units(tier='quick'):
    us = []
    ix = lambda rng: [rng.randint(0, 99) for _ in range(9)]

    for k0 in range(9):
        def post(v, o, k0=k0):
            P, Tm, rets = expect(v, [k0] + list(v.c))
            return [('result of operation %d' % s, E.eq(o.r[s], rets[s])) for s in range(3)] + post_state(v, o, P, Tm, v.i)
        w = ('add', 'remove by name', 'remove by pointer')[k0 // 3] + ' of domain %d' % (k0 % 3)
        us.append(Unit('Mesh: every history of three operations starting with the %s' % w, 'reg_history', 'reg', {'c': ('I', 2, 0, 8), 'i': ('I', 9, 0, NN)},
                       lambda v, k0=k0: [('val', 'I', k0)] + [('val', 'I', c) for c in v.c] + [('in', 'I', v.i), ('out', 'I', 'r', 3), ('out', 'I', 'o', 19)], post, sample=lambda rng: {'c': [rng.choice([0, 0, 1, 1, 2, 3, 4, 5, 6, 7, 8]) for _ in range(2)], 'i': ix(rng)},
                       funcs=['Mesh::add_domain', 'Mesh::remove_domain', 'Mesh::remove', 'Mesh::domain', 'Mesh::number_of_domains'], bounded='histories of three operations on three names', limit=400, nsamp=40))

    def post3(v, o):
        c = v.c[0]
        P = [E.not_(E.or_(E.eq(c, j), E.eq(c, 3 + j))) for j in range(3)]
        return [('the removal reports success exactly when the domain was there', E.eq(o.r[0], b2i(E.lt(c, 6))))] + post_state(v, o, P, [0, 1, 2], v.i)
    us.append(Unit('Mesh: one removal among three domains', 'reg_remove3', 'reg', {'c': ('I', 1, 0, 7), 'i': ('I', 9, 0, NN)}, lambda v: [('val', 'I', v.c[0]), ('in', 'I', v.i), ('out', 'I', 'r', 1), ('out', 'I', 'o', 19)], post3,
                   sample=lambda rng: {'c': [rng.randint(0, 7)], 'i': ix(rng)}, funcs=['Mesh::remove_domain', 'Mesh::remove'], bounded='three domains'))
    for f in ('copy', 'move', 'assign', 'swap'):
        def postm(v, o, f=f):
            t0 = [(2, 0, 1), None, None]; t1 = [None, (1, 2, 0), None]
            exp1 = t0; exp2 = t0 if f == 'copy' else t1
            out = []
            for nm, ex in (('o1', exp1), ('o2', exp2)):
                r = getattr(o, nm)
                for j in range(3):
                    q = r[6 * j:6 * j + 6]
                    w = [1, 0] + list(ex[j]) + [1] if ex[j] else [0, -1, -1, -1, -1, -1]
                    out.append(('%s: domain %d' % (nm, j), E.and_(*[E.eq(q[k], w[k]) for k in range(6)])))
                out.append((nm + ': number of domains', E.eq(r[18], 1)))
            P1 = (v.x, (2, 0, 1)); P2 = (v.x, (2, 0, 1)) if f == 'copy' else (v.y, (1, 2, 0))
            for nm, (x, t) in (('p', P1), ('q', P2)):
                out.append((nm + ': the element has the nodes of the mesh that holds it', E.and_(*[E.eq(getattr(o, nm)[2 * a + k], x[2 * t[a] + k]) for a in range(3) for k in range(2)])))
            return out
        us.append(Unit('Mesh: domains follow a %s' % f, 'reg_' + f, 'reg', {'x': ('R', 6), 'y': ('R', 6)}, lambda v: [('in', 'R', v.x), ('in', 'R', v.y), ('out', 'R', 'p', 6), ('out', 'R', 'q', 6), ('out', 'I', 'o1', 19), ('out', 'I', 'o2', 19)],
                       postm, funcs=['Mesh: %s' % f], bounded='two meshes of three nodes and one domain'))
    us.append(Unit('Mesh: refused additions', 'reg_refuse', 'reg', {'c': ('I', 1, 0, 3), 'i': ('I', 9, 0, NN)}, lambda v: [('val', 'I', v.c[0]), ('in', 'I', v.i), ('out', 'I', 'o', 19)],
                   lambda v, o: [('adding again the same domain under the same name changes nothing', E.and_(E.eq(o.o[18], 1), E.eq(o.o[0], 1)))], throws=lambda v: E.le(v.c[0], 2), sample=lambda rng: {'c': [rng.randint(0, 3)], 'i': ix(rng)},
                   funcs=['Mesh::add_domain', 'Domain::attach_to'], bounded='one domain'))
    return us


def units(tier): return own_units(tier) + big.reg_units()
