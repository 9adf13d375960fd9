from common import *
import c01, c02


def sources():
    return c01.sources() + [('c03_%d' % p, 'c03.cpp', ['-DPART=%d' % p]) for p in PARTS]


def map_units():
    us = []
    for n in ALL:
        e = ELEMS[n]; stem = 'c03_%d' % PART_OF[n]
        buf = lambda v, e=e: ('in', 'R', elem_buf(e, v))

        def add(suffix, extra, args, post, e=e, n=n, stem=stem, fn=None, **kw):
            us.append(elem_unit('%s.%s' % (n, suffix), '%s_%s' % (n, fn or suffix), stem, e, extra, args, post, contracts=SHAPE,
                                funcs=['Element<%s>::%s' % (e.cls, suffix)], **kw))
        nv = lambda v, e=e: elem_nodes(e, v)
        add('world', {'xi': ('R', e.cd)}, lambda v, buf=buf, e=e: [buf(v), ('in', 'R', v.xi), ('out', 'R', 'x', e.dim)],
            lambda v, o, e=e, nv=nv: [('world coordinate %d is the nodal interpolation' % d, E.eq(o.x[d], x)) for d, x in enumerate(e.world(nv(v), v.xi))])
        add('jac', {'xi': ('R', e.cd)}, lambda v, buf=buf, e=e: [buf(v), ('in', 'R', v.xi), ('out', 'R', 'J', e.dim * e.cd)],
            lambda v, o, e=e, nv=nv: [('dx%d/dxi%d' % (d, k), E.eq(o.J[d * e.cd + k], x)) for d, r in enumerate(e.jac(nv(v), v.xi)) for k, x in enumerate(r)])

        def pc(v, o, e=e, nv=nv):
            # the centre is the image of the barycentre of the reference element
            b = [sum(p[k] for p in e.cnodes[:{'seg': 2, 'tri': 3, 'quad': 4, 'tet': 4, 'hex': 8}[e.shape]]) / {'seg': 2, 'tri': 3, 'quad': 4, 'tet': 4, 'hex': 8}[e.shape] for k in range(e.cd)]
            return [('center[%d]' % d, E.eq(o.c[d], x)) for d, x in enumerate(e.world(nv(v), b))]
        add('center', {}, lambda v, buf=buf, e=e: [buf(v), ('out', 'R', 'c', e.dim)], pc)
        add('nodes', {}, lambda v, buf=buf, e=e: [buf(v), ('out', 'R', 'N', e.n * e.dim), ('out', 'R', 'M', e.n * e.dim)],
            lambda v, o, e=e, nv=nv: [('nodes() row %d' % i, geq(o.N[i * e.dim:], x)) for i, x in enumerate(nv(v))] +
                                     [('node(%d)' % i, geq(o.M[i * e.dim:], x)) for i, x in enumerate(nv(v))])
        add('number_of_nodes', {}, lambda v, buf=buf: [buf(v)], lambda v, o, e=e: [('number_of_nodes', E.eq(o.ret, e.n))], fn='nn', ret='I')
        add('interpolate(scalar)', {'xi': ('R', e.cd), 'f': ('R', e.n)}, lambda v, buf=buf: [buf(v), ('in', 'R', v.xi), ('in', 'R', v.f)],
            lambda v, o, e=e: [('interpolated scalar', E.eq(o.ret, dot(e.L(v.xi), v.f)))], fn='interp1', ret='R')
        add('interpolate(vector)', {'xi': ('R', e.cd), 'f': ('R', 2 * e.n)}, lambda v, buf=buf: [buf(v), ('in', 'R', v.xi), ('in', 'R', v.f), ('out', 'R', 'r', 2)],
            lambda v, o, e=e: [('interpolated component %d' % c, E.eq(o.r[c], dot(e.L(v.xi), v.f[c::2]))) for c in range(2)], fn='interp2')
        if n.startswith('RQuad'):
            add('T', {'xi': ('R', e.cd)}, lambda v, buf=buf, e=e: [buf(v), ('in', 'R', v.xi), ('out', 'R', 'x', e.dim)],
                lambda v, o, e=e, nv=nv: [('T coordinate %d agrees with the nodal interpolation' % d, E.eq(o.x[d], x)) for d, x in enumerate(e.world(nv(v), v.xi))])
    return us


def units(tier):
    return c01.L_units() + c02.dL_units() + map_units()
