from common import *
import c01


def sources():
    return c01.sources()


def dL_units():
    us = []
    for n in ALL:
        e = ELEMS[n]; stem = 'c01_%d' % PART_OF[n]

        def post(v, o, e=e):
            cl = []
            d = e.dL(v.xi)
            for k in range(e.cd):
                cl.append(('derivatives along axis %d sum to zero' % k, E.eq(sum((o.D[i * e.cd + k] for i in range(e.n)), F(0)), F(0))))
            for i in range(e.n):
                for k in range(e.cd):
                    cl.append(('dL[%d][%d] is the derivative of shape function %d' % (i, k, i), E.eq(o.D[i * e.cd + k], d[i][k])))
            return cl
        us.append(Unit(n + '.dL', n + '_dL', stem, {'xi': ('R', e.cd)}, lambda v, e=e: [('in', 'R', v.xi), ('out', 'R', 'D', e.n * e.cd)], post,
                       sample=lambda r, e=e: {'xi': rnd_xi(e, r)}, funcs=['Element<%s>::dL' % e.cls]))
    return us


def units(tier):
    return c01.L_units() + dL_units()
