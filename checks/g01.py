from gridspec import *

sources = gsources


def rc(D, nodes):
    def f(rng, n, d):
        m = [x + 1 for x in n] if nodes else n
        return {'c': [rng.choice([0, x - 1, rng.randrange(x)]) for x in m]}
    return f


def own_units():
    us = []
    for D in (1, 2, 3):
        stem = 'grid_%d' % D
        nm = 'Grid<%d>' % D

        def U(name, fn, vs, args, post, **kw):
            us.append(Unit('%s.%s' % (nm, name), 'g%d_%s' % (D, fn), stem, vs, args, post, funcs=['%s::%s' % (nm, name)], timeout=30000, **kw))
        gp = gpre
        U('number_of_cells', 'ncells', gvars(D), gargs, lambda v, o: [('number of cells is the product of the subdivisions', E.eq(o.ret, prod(v.n)))], pre=gp, sample=gsample(D), ret='I')
        U('number_of_nodes', 'nnodes', gvars(D), gargs, lambda v, o: [('number of nodes is the product of subdivisions plus one', E.eq(o.ret, prod(np1(v))))], pre=gp, sample=gsample(D), ret='I')
        U('accessors', 'get', gvars(D), lambda v, D=D: gargs(v) + [('out', 'R', 'a', D), ('out', 'I', 'n', D), ('out', 'R', 's', D)],
          lambda v, o: [('anchor', geq(o.a, v.a)), ('N', geq(o.n, v.n)), ('size', geq(o.s, v.s))], pre=gp, sample=gsample(D))
        for nodes in (True, False):
            w = 'node' if nodes else 'cell'; p = 'n' if nodes else 'c'
            rad = (lambda v: np1(v)) if nodes else (lambda v: list(v.n))
            vs = gvars(D, c=('I', D, 0, NMAX))
            pre = lambda v, rad=rad: gpre(v) + inrange(v.c, rad(v))
            kw = dict(pre=pre, sample=gsample(D, rc(D, nodes)), lemmas=lambda v, rad=rad: lemmas(rad(v), v.c), quots=lambda v, rad=rad: quots(rad(v), v.c))
            U('%s_index_at' % w, p + 'idx', vs, lambda v: gargs(v) + [('in', 'I', v.c)],
              lambda v, o, rad=rad: [('index numbers the lattice with the first axis fastest', E.eq(o.ret, flat(rad(v), v.c)))] +
                                    [('index within range', E.and_(E.le(0, o.ret), E.lt(o.ret, prod(rad(v)))))], ret='I', **kw)
            U('%s_coordinates_at' % w, p + 'coord', vs, lambda v, rad=rad, D=D: gargs(v) + [('val', 'I', flat(rad(v), v.c)), ('out', 'I', 'c', D)],
              lambda v, o, D=D: [('coordinate %d of the entity numbered by the index' % k, E.eq(o.c[k], v.c[k])) for k in range(D)], **kw)
    return us


def units(tier): return own_units()
