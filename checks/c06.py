from common import *
import c05, itertools

sources = c05.src5
CAP = 16
# polynomial degree integrated exactly; 'total' for simplices, per variable for boxes
DEG = {('seg', 1): 1, ('seg', 2): 3, ('tri', 1): 1, ('tri', 2): 2, ('quad', 1): 3, ('quad', 2): 3, ('tet', 1): 1, ('tet', 2): 2, ('hex', 1): 3, ('hex', 2): 3}


def gauss_units():
    us = []
    for n in ALL:
        e = ELEMS[n]
        k = DEG[(e.shape, e.order)]
        ms = [m for m in itertools.product(range(k + 1), repeat=e.cd) if not e.simplex or sum(m) <= k]

        def post(v, o, e=e, ms=ms):
            P = rows(o.pos, CAP, e.cd)
            out = [('the declared number of gauss nodes is the number of gauss nodes', E.eq(o.cnt[0], o.cnt[1])),
                   ('the compile-time number of gauss nodes is the number of gauss nodes', E.eq(o.cnt[0], o.cnt[2])),
                   ('between 1 and %d gauss nodes' % CAP, E.and_(E.le(1, o.cnt[0]), E.le(o.cnt[0], CAP)))]
            out += [('gauss_node(%d) is the entry %d of gauss_nodes()' % (i, i), geq(o.pos[i * e.cd:(i + 1) * e.cd] + [o.w[i]], o.pos2[i * e.cd:(i + 1) * e.cd] + [o.w2[i]])) for i in range(CAP)]
            for m in ms:
                s = F(0)
                for i in range(CAP): s = s + o.w[i] * spec.mono(m, P[i])
                out.append(('quadrature of the monomial %s is its integral over the reference domain' % (m,), near(s, e.integral(m))))
            for i in range(CAP):
                out.append(('gauss node %d lies inside the reference domain with a positive weight' % i,
                            E.implies(E.lt(i, o.cnt[0]), E.and_(c05.inside(e, P[i], F(0)), E.gt(o.w[i], 0)))))
            return out
        us.append(elem_unit(n + '.gauss_nodes', n + '_gauss', 'c05_%d' % PART_OF[n], e, {},
                            lambda v, e=e: [('in', 'R', elem_buf(e, v)), ('out', 'R', 'pos', CAP * e.cd), ('out', 'R', 'w', CAP), ('out', 'R', 'pos2', CAP * e.cd), ('out', 'R', 'w2', CAP), ('out', 'I', 'cnt', 3)],
                            post, funcs=['Element<%s>::%s' % (e.cls, f) for f in ('gauss_nodes', 'gauss_node', 'number_of_gauss_nodes')], nsamp=4))
    return us


def units(tier):
    return gauss_units()
