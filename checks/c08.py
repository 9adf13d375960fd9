from common import *
import c03, c05, c01


def src8():
    return [('c08_%d' % p, 'c08.cpp', ['-DPART=%d' % p]) for p in (1, 2, 3)]


def sources():
    return c03.sources() + c05.src5() + src8()


def nodes_post(name, exp):
    def post(v, o):
        X = exp(v); out = []
        for i, x in enumerate(X):
            out.append(('node %d of %s' % (i, name), geq(getattr(o, 'x')[i * len(x):(i + 1) * len(x)], x)))
        return out
    return post


def pad(p, d): return list(p) + [F(0)] * (d - len(p))


def ctor_units():
    us = []
    for n in ALL:
        e = ELEMS[n]; stem = 'c05_%d' % PART_OF[n]
        us.append(Unit(n + '.default constructor', n + '_def', stem, {}, lambda v, e=e: [('out', 'R', 'x', e.n * e.dim)],
                       nodes_post('the default element', lambda v, e=e: [pad(p, e.dim) for p in e.cnodes]), contracts=SHAPE, nsamp=1, funcs=['%s::%s()' % (e.cls, e.cls)]))
        if e.rect: continue
        for k, what in (('series', 'constructor from a series of nodes'), ('lref', 'constructor from a node matrix')):
            us.append(elem_unit('%s.%s' % (n, what), '%s_%s' % (n, k), stem, e, {}, lambda v, e=e: [('in', 'R', elem_buf(e, v)), ('out', 'R', 'x', e.n * e.dim)],
                                nodes_post('the element', lambda v, e=e: elem_nodes(e, v)), funcs=['%s constructors' % e.cls], nsamp=20))
    for n in ('Tri2Q', 'Tri3Q', 'Quad2Q', 'Quad3Q', 'TetQ', 'HexQ'):
        q = ELEMS[n]; l = ELEMS[n[:-1] + 'L']

        def post(v, o, q=q, l=l):
            N = elem_nodes(l, v); out = []
            for i, p in enumerate(q.cnodes):
                x = l.world(N, p)
                for k in ('a', 'b', 'c'):
                    out.append(('node %d sits on the linear element at its reference position (%s)' % (i, {'a': 'from the linear element', 'b': 'from its corner nodes', 'c': 'from lvalue corner nodes'}[k]),
                                geq(getattr(o, k)[i * q.dim:(i + 1) * q.dim], x)))
            return out
        us.append(elem_unit(n + '.constructor from the linear element', n + '_fromlin', 'c05_%d' % PART_OF[n], l, {},
                            lambda v, q=q, l=l: [('in', 'R', elem_buf(l, v))] + [('out', 'R', k, q.n * q.dim) for k in 'abc'], post, contracts=SHAPE, funcs=['%s constructors' % q.cls], nsamp=20))
    # rectangular elements
    for n in ('RQuad2L', 'RQuad2Q', 'RQuad3L', 'RQuad3Q', 'RHexL', 'RHexQ'):
        e = ELEMS[n]; stem = 'c08_%d' % {2: 1, 3: 2}[e.dim] if e.cd == 2 else 'c08_3'
        I = [[F(int(i == j)) for j in range(e.dim)] for i in range(e.dim)]

        def box(c, h, R, e=e):
            return [[c[d] + dot(R[d], pad([h[k] * F(1, 2) * p[k] for k in range(e.cd)], e.dim)) for d in range(e.dim)] for p in e.cnodes]
        two = [F(2)] * e.cd
        us.append(Unit(n + '.constructor(center)', n + '_c', stem, {'c': ('R', e.dim)}, lambda v, e=e: [('in', 'R', v.c), ('out', 'R', 'x', e.n * e.dim)],
                       nodes_post('the box', lambda v, box=box, I=I, two=two: box(v.c, two, I)), contracts=SHAPE, funcs=['%s(center)' % e.cls], nsamp=20))

        def full(exp, h, R, e=e):
            def post(v, o):
                k = e.n * e.dim; hh = h(v); RR = [x for r in R(v) for x in r]
                return exp(v, o) + [('size()', geq(o.x[k:k + e.cd], hh)), ('rotation()', geq(o.x[k + e.cd:], RR))]
            return post
        tot = e.n * e.dim + e.cd + e.dim * e.dim
        us.append(Unit(n + '.constructor(center,size)', n + '_ch', stem, {'c': ('R', e.dim), 'h': ('R', e.cd)}, lambda v, tot=tot: [('in', 'R', v.c), ('in', 'R', v.h), ('out', 'R', 'x', tot)],
                       full(nodes_post('the box', lambda v, box=box, I=I: box(v.c, v.h, I)), lambda v: v.h, lambda v, I=I: I), contracts=SHAPE, funcs=['%s(center,size)' % e.cls], nsamp=20))
        us.append(Unit(n + '.constructor(center,rotation)', n + '_cr', stem, {'c': ('R', e.dim), 'R': ('R', e.dim**2)}, lambda v, tot=tot: [('in', 'R', v.c), ('in', 'R', v.R), ('out', 'R', 'x', tot)],
                       full(nodes_post('the box', lambda v, box=box, e=e, two=two: box(v.c, two, rows(v.R, e.dim, e.dim))), lambda v, two=two: two, lambda v, e=e: rows(v.R, e.dim, e.dim)),
                       contracts=SHAPE, funcs=['%s(center,rotation)' % e.cls], nsamp=20))
    for g, r in (('Quad2L', 'RQuad2L'), ('Quad2Q', 'RQuad2Q'), ('Quad2L', 'RQuad2Q'), ('Quad3L', 'RQuad3L'), ('Quad3Q', 'RQuad3Q'), ('Quad3L', 'RQuad3Q'),
                 ('HexL', 'RHexL'), ('HexQ', 'RHexQ'), ('HexL', 'RHexQ')):
        ge_, re_ = ELEMS[g], ELEMS[r]
        src = ELEMS[('R' + g)]          # the general element is a rectangle: parametrised as such
        stem = 'c08_%d' % {2: 1, 3: 2}[re_.dim] if re_.cd == 2 else 'c08_3'
        for k, what in (('', 'element'), ('_m', 'node matrix'), ('_cm', 'const node matrix')):
            if k and r[-1] != g[-1] and g[0] == 'Q': continue
            us.append(elem_unit('%s from a rectangular %s (%s)' % (r, g, what), '%s_%s%s' % (g, r, k), stem, src, {},
                                lambda v, src=src, re_=re_: [('in', 'R', [x for p in elem_nodes(src, v) for x in p]), ('out', 'R', 'x', re_.n * re_.dim)],
                                nodes_post('the rectangular element', lambda v, re_=re_: elem_nodes(re_, v)), contracts=SHAPE, simp=True, funcs=['%s(%s)' % (re_.cls, ge_.cls)], nsamp=20))
    return us


def units(tier):
    return c03.units(tier) + ctor_units()
