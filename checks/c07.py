from common import *
import c05, c03, c01, itertools


def sources():
    return c03.sources() + c05.src5()


def sub(a, b): return [x - y for x, y in zip(a, b)]


def mid(e, i, j):
    m = tuple((x + y) / 2 for x, y in zip(e.cnodes[i], e.cnodes[j]))
    return e.cnodes.index(m) if m in e.cnodes else None


def ncorner(e): return {'seg': 2, 'tri': 3, 'quad': 4, 'tet': 4, 'hex': 8}[e.shape]


def facets(e):
    """outward oriented corner cycles of the facets of the reference element, with their mid-edge nodes appended"""
    nc = ncorner(e); C = e.cnodes[:nc]
    ctr = [sum(c[k] for c in C) / nc for k in range(e.cd)]
    out = []
    if e.cd == 2:
        for i in range(nc):            # corners are listed counter clockwise in the documentation
            out.append([i, (i + 1) % nc])
    elif e.shape == 'tet':
        for f in itertools.combinations(range(4), 3):
            a, b, c = (C[i] for i in f)
            nrm = spec.cross(sub(b, a), sub(c, a))
            out.append(list(f) if dot(nrm, sub(a, ctr)) > 0 else [f[0], f[2], f[1]])
    else:
        for k in range(3):
            for s in (-1, 1):
                ids = [i for i in range(8) if C[i][k] == s]
                # order as a cycle
                cyc = [ids[0]]
                while len(cyc) < 4:
                    cyc.append(next(i for i in ids if i not in cyc and sum(abs(x) for x in sub(C[i], C[cyc[-1]])) == 2))
                a, b, c = (C[i] for i in cyc[:3])
                if dot(spec.cross(sub(b, a), sub(c, b)), sub(a, ctr)) < 0: cyc = [cyc[0]] + cyc[:0:-1]
                out.append(cyc)
    return out


def rotations(e, f):
    """all node lists that describe facet f with the same orientation"""
    out = []
    k = len(f)
    for r in range(k if k > 2 else 1):
        g = f[r:] + f[:r]
        if e.order == 2:
            g = g + ([mid(e, g[0], g[1])] if k == 2 else [mid(e, g[i], g[(i + 1) % k]) for i in range(k)])
        out.append(g)
    return out


def edges(e):
    nc = ncorner(e); C = e.cnodes[:nc]
    out = []
    for i, j in itertools.combinations(range(nc), 2):
        d = sub(C[i], C[j])
        if e.simplex or sum(1 for x in d if x) == 1:
            out.append([[i, j] + ([mid(e, i, j)] if e.order == 2 else []), [j, i] + ([mid(e, i, j)] if e.order == 2 else [])])
    return out


def table_post(name, allowed, nrow, width):
    """each of the described entities is listed exactly once, each row describes one of them"""
    def match(row, al): return E.or_(*[E.and_(*[E.eq(x, y) for x, y in zip(row, a)]) for a in al])

    def post(v, o):
        R = [o.t[i * width:(i + 1) * width] for i in range(nrow)]
        out = [('%d %ss are listed' % (nrow, name), E.eq(o.ret, nrow))]
        for fi, al in enumerate(allowed):
            out.append(('%s %s is listed with its own nodes, in order' % (name, al[0]), E.or_(*[match(r, al) for r in R])))
        for i, r in enumerate(R):
            out.append(('row %d describes a %s' % (i, name), E.or_(*[match(r, al) for al in allowed])))
        return out
    return post


def nfac(e): return {'tri': 3, 'quad': 4, 'tet': 4, 'hex': 6}[e.shape]


def boundary_units():
    us = []
    for n in ALL:
        e = ELEMS[n]; stem = 'c05_%d' % PART_OF[n]
        buf = lambda v, e=e: ('in', 'R', elem_buf(e, v))
        add = lambda suffix, fn, extra, args, post, e=e, n=n, stem=stem, **kw: us.append(elem_unit(
            '%s.%s' % (n, suffix), '%s_%s' % (n, fn), stem, e, extra, args, post, funcs=['Element<%s>::%s' % (e.cls, suffix)], contracts=SHAPE, nsamp=8, **kw))
        nf = 0 if e.shape == 'seg' else nfac(e)
        add('number_of_boundary_elements', 'nb', {}, lambda v, buf=buf: [buf(v)], lambda v, o, nf=nf: [('number of facets', E.eq(o.ret, nf))], ret='I')
        if e.shape == 'seg': continue
        us.append(Unit(n + '.NumberOfBoundaryElementsAtCompileTime', n + '_nbc', stem, {}, lambda v: [], lambda v, o, nf=nf: [('number of facets', E.eq(o.ret, nf))], ret='I', nsamp=1,
                       funcs=['traits<%s>' % e.cls]))
        fac = [rotations(e, f) for f in facets(e)]; w = len(fac[0][0])
        add('boundary_elements_node_indices', 'bnd', {}, lambda v, buf=buf: [buf(v), ('out', 'I', 't', 48)], table_post('facet', fac, nf, w), ret='I')
        if e.cd == 3:
            add('faces', 'faces', {}, lambda v, buf=buf: [buf(v), ('out', 'I', 't', 48)], table_post('facet', fac, nf, w), ret='I')
        ed = edges(e)
        add('edges', 'edges', {}, lambda v, buf=buf: [buf(v), ('out', 'I', 't', 36)], table_post('edge', fac if e.cd == 2 else ed, len(ed), len(ed[0][0])), ret='I')
        for i in range(nf):
            def post(v, o, e=e, w=w):
                N = elem_nodes(e, v)
                out = []
                for k in range(w):
                    ex = []
                    for d in range(e.dim):
                        x = N[0][d]
                        for j in range(1, e.n): x = E.ite(E.eq(o.idx[k], j), N[j][d], x)
                        ex.append(x)
                    out.append(('node %d of the boundary element is the listed node of the element' % k, geq(o.b[k * e.dim:(k + 1) * e.dim], ex)))
                return out
            add('boundary_element(%d)' % i, 'bel', {}, lambda v, buf=buf, i=i, e=e, w=w: [buf(v), ('val', 'I', i), ('out', 'R', 'b', w * e.dim), ('out', 'I', 'idx', w)], post, simp=e.rect)
    return us


def units(tier):
    return c03.units(tier) + boundary_units()
