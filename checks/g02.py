from gridspec import *
import g01

sources = gsources


def own_units():
    us = []
    for D in (1, 2, 3):
        stem = 'grid_%d' % D; nm = 'Grid<%d>' % D

        def U(name, fn, vs, args, post, **kw):
            us.append(Unit('%s.%s' % (nm, name), 'g%d_%s' % (D, fn), stem, vs, args, post, funcs=['%s::%s' % (nm, name)], timeout=30000, **kw))
        vs = gvars(D, c=('I', D, 0, NMAX))
        kn = dict(pre=lambda v: gpre(v) + inrange(v.c, np1(v)), sample=gsample(D, g01.rc(D, True)), lemmas=lambda v: lemmas(np1(v), v.c), quots=lambda v: quots(np1(v), v.c))
        kc = dict(pre=lambda v: gpre(v) + inrange(v.c, v.n), sample=gsample(D, g01.rc(D, False)), lemmas=lambda v: lemmas(list(v.n), v.c), quots=lambda v: quots(list(v.n), v.c))
        U('H', 'H', gvars(D), lambda v, D=D: gargs(v) + [('out', 'R', 'h', D)], lambda v, o, D=D: [('cell size %d' % k, E.eq(o.h[k] * R(v.n[k]), v.s[k])) for k in range(D)], pre=gpre, sample=gsample(D))
        U('node(index)', 'node', vs, lambda v, D=D: gargs(v) + [('val', 'I', flat(np1(v), v.c)), ('out', 'R', 'x', D)],
          lambda v, o: [('node position %d' % k, E.eq(o.x[k], x)) for k, x in enumerate(pos(v, v.c))], **kn)
        U('node(coordinates)', 'nodec', vs, lambda v, D=D: gargs(v) + [('in', 'I', v.c), ('out', 'R', 'x', D)],
          lambda v, o: [('node position %d' % k, E.eq(o.x[k], x)) for k, x in enumerate(pos(v, v.c))], **kn)
        cn = CORNERS[D]
        cellpost = lambda v, o, cn=cn, D=D: [('node %d of the cell is at the lattice corner %s' % (i, p), geq(o.x[i * D:(i + 1) * D], pos(v, [v.c[k] + p[k] for k in range(D)]))) for i, p in enumerate(cn)]
        U('cell_at(index)', 'cell', vs, lambda v, D=D, cn=cn: gargs(v) + [('val', 'I', flat(list(v.n), v.c)), ('out', 'R', 'x', D * len(cn))], cellpost, **kc)
        U('cell_at(coordinates)', 'cellc', vs, lambda v, D=D, cn=cn: gargs(v) + [('in', 'I', v.c), ('out', 'R', 'x', D * len(cn))], cellpost, **kc)
        nofpost = lambda v, o, cn=cn, D=D: [('node index %d of the cell is that of the lattice corner %s' % (i, p), E.eq(o.i[i], flat(np1(v), [v.c[k] + p[k] for k in range(D)]))) for i, p in enumerate(cn)]
        U('node_indices_of(index)', 'nof', vs, lambda v, D=D, cn=cn: gargs(v) + [('val', 'I', flat(list(v.n), v.c)), ('out', 'I', 'i', len(cn))], nofpost, **kc)
        U('node_indices_of(coordinates)', 'nofc', vs, lambda v, D=D, cn=cn: gargs(v) + [('in', 'I', v.c), ('out', 'I', 'i', len(cn))], nofpost, **kc)
    return us


def units(tier): return g01.own_units() + own_units()
