from common import *


def sources():
    return [('c01_%d' % p, 'c01.cpp', ['-DPART=%d' % p]) for p in PARTS]


def L_units():
    us = []
    for n in ALL:
        e = ELEMS[n]; stem = 'c01_%d' % PART_OF[n]

        def post(v, o, e=e):
            cl = [('partition of unity', E.eq(sum(o.L, F(0)), F(1)))]
            # reproduction of every monomial of the element's space
            for m in e.monos:
                cl.append(('reproduces monomial %s' % (m,), E.eq(dot(o.L, [spec.mono(m, p) for p in e.cnodes]), spec.mono(m, v.xi))))
            for i, x in enumerate(e.L(v.xi)): cl.append(('L[%d] is the Lagrange function of node %d' % (i, i), E.eq(o.L[i], x)))
            return cl
        us.append(Unit(n + '.L', n + '_L', stem, {'xi': ('R', e.cd)}, lambda v, e=e: [('in', 'R', v.xi), ('out', 'R', 'L', e.n)], post,
                       sample=lambda r, e=e: {'xi': rnd_xi(e, r)}, funcs=['Element<%s>::L' % e.cls]))

        us.append(Unit(n + '.canonical', n + '_cn', stem, {}, lambda v, e=e: [('out', 'R', 'N', e.n * e.dim)],
                       lambda v, o, e=e: [('default node %d' % i, geq(o.N[i * e.dim:(i + 1) * e.dim], list(e.cnodes[i]) + [F(0)] * (e.dim - e.cd))) for i in range(e.n)],
                       sample=lambda r: {}, nsamp=1, funcs=['%s::%s()' % (e.cls, e.cls.split('<')[0]), 'Element<%s>::nodes' % e.cls]))
    return us


def units(tier):
    return L_units()
