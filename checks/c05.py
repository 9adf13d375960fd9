from common import *


def src5():
    return [('c05_%d' % p, 'c05.cpp', ['-DPART=%d' % p]) for p in PARTS]


def sources():
    return src5()


def inside(e, xi, eps):
    """the reference domain enlarged by eps: closed for boxes, open for simplices (as documented: less than eps outside)"""
    if e.simplex:
        s = F(1)
        for x in xi: s = s - x
        return E.and_(*[E.gt(x, -eps) for x in xi], E.gt(s, -eps))
    return E.and_(*[c for x in xi for c in (E.le(-1 - eps, x), E.le(x, 1 + eps))])


def xi_near(e, rng, eps):
    """samples hugging the boundary"""
    t = rng.random()
    if t < 0.3: return rnd_xi(e, rng)
    b = [F(rng.choice([0, 1, -1, F(1, 2), F(1, 4)])) for _ in range(e.cd)]
    if e.simplex: b = [abs(x) * F(rng.choice([0, 1, 1, F(1, 2)])) for x in b]
    k = rng.randrange(e.cd)
    b[k] += F(rng.choice([-2, -1, F(-1, 2), 0, F(1, 2), 1, 2])) * (eps if eps else F(1, 1000))
    return b


def contains_units():
    us = []
    for n in ALL:
        e = ELEMS[n]; stem = 'c05_%d' % PART_OF[n]

        def smp(rng, e=e):
            eps = F(rng.choice([0, F(1, 1024), F(1, 8), F(1, 2), F(3)]))
            return {'xi': xi_near(e, rng, eps), 'eps': eps}
        us.append(elem_unit(n + '.contains_local', n + '_contains', stem, e, {'xi': ('R', e.cd), 'eps': ('R', None)},
                            lambda v, e=e: [('in', 'R', elem_buf(e, v)), ('in', 'R', v.xi), ('val', 'R', v.eps)],
                            lambda v, o, e=e: [('contained iff inside the enlarged reference domain', E.eq(o.ret, E.ite(inside(e, v.xi, v.eps), 1, 0)))],
                            pre=lambda v: [E.ge(v.eps, 0)], sample=smp, ret='I', funcs=['Element<%s>::contains_local' % e.cls]))
        us.append(elem_unit(n + '.contains_local(default eps)', n + '_contains_d', stem, e, {'xi': ('R', e.cd)},
                            lambda v, e=e: [('in', 'R', elem_buf(e, v)), ('in', 'R', v.xi)],
                            lambda v, o, e=e: [('contained in the closed reference domain', E.implies(inside(e, v.xi, F(1, 10**13)), E.eq(o.ret, 1))),
                                               ('not contained when clearly outside', E.implies(E.not_(inside(e, v.xi, F(1, 10**6))), E.eq(o.ret, 0)))],
                            sample=lambda rng, e=e: {'xi': xi_near(e, rng, F(1, 1024))}, ret='I', funcs=['Element<%s>::contains_local' % e.cls]))
    return us


def units(tier):
    return contains_units()
