from topo import *
import d01, big

NAMES = [n for n in ALL if not n.startswith('R')]
NE = 1 << 20


def sources(): return [('topo_%d' % p, 'topo.cpp', ['-DPART=%d' % p] + ACC) for p in (1, 2, 3, 4, 5)] + big.sources(2)


def own_units(tier='quick'):
    us = []
    for nm in NAMES:
        e = ELEMS[nm]; D, N = e.dim, e.n; mod = 'topo_%d' % PART_OF[nm]
        V = {'n': ('I', 1, 1, NN), 'ne': ('I', 1, 1, NE), 'os': ('I', 1, 1, 1 << 20), 'is': ('I', 1, 1, 1 << 10), 'e': ('I', 1, 0, NE)}
        g = lambda v: (v.n[0], v.ne[0], v.os[0], getattr(v, 'is')[0], v.e[0])
        pre = lambda v, N=N, g=g: (lambda n, ne, os, s, e: [E.lt(e, ne)])(*g(v))
        prem = lambda v, N=N, g=g: (lambda n, ne, os, s, e: [E.lt(e, ne), E.eq(os, N), E.eq(s, 1)])(*g(v))

        def smp(m, N=N):
            def f(rng):
                ne = rng.randint(1, 40)
                return {'n': [rng.randint(64, 120)], 'ne': [ne], 'os': [N if m else rng.randint(1, 3 * N)], 'is': [1 if m else rng.randint(1, 5)], 'e': [rng.randrange(ne)]}
            return f
        # the index buffer: every entry used is a node of the mesh
        I_ = lambda v, N=N, g=g: (lambda n, ne, os, s, e: iarr(os * (ne - 1) + s * (N - 1) + 1, n))(*g(v))
        row = lambda v, a, g=g: (lambda n, ne, os, s, e: IDX(os * e + s * a))(*g(v))
        us.append(Unit('Domain<%s>.counts' % e.cls, nm + '_dcounts', mod, V, lambda v, I_=I_, g=g: [I_(v), ('val', 'I', v.ne[0]), ('val', 'I', v.os[0]), ('val', 'I', getattr(v, 'is')[0]), ('out', 'I', 'c', 4)],
                       lambda v, o, N=N, e=e: [('number of elements', E.eq(o.c[0], v.ne[0])), ('number of nodes per element', E.eq(o.c[1], N)), ('canonical dimension', E.eq(o.c[2], e.cd)), ('attached mesh', E.eq(o.c[3], 1))],
                       pre=pre, sample=smp(False), ufs=UFS, funcs=['Domain<%s>::%s' % (e.cls, f) for f in ('number_of_elements', 'number_of_nodes_per_elements', 'canonical_dimension')]))
        us.append(Unit('Domain<%s>.element_indices' % e.cls, nm + '_dindices', mod, V, lambda v, I_=I_, N=N: [I_(v), ('val', 'I', v.ne[0]), ('val', 'I', v.os[0]), ('val', 'I', getattr(v, 'is')[0]), ('val', 'I', v.e[0]), ('out', 'I', 'c', N)],
                       lambda v, o, N=N, row=row: [('node %d of the element' % a, E.eq(o.c[a], row(v, a))) for a in range(N)], pre=pre, sample=smp(False), ufs=UFS, funcs=['Domain<%s>::element_indices' % e.cls]))
        pos = lambda v, o, N=N, D=D, row=row: [('node %d of the element is at the position of its index' % a, E.and_(*[E.eq(o.p[a * D + k], X(row(v, a) * D + k)) for k in range(D)])) for a in range(N)]
        us.append(Unit('Domain<%s>.element (strided)' % e.cls, nm + '_delement', mod, V,
                       lambda v, I_=I_, N=N, D=D: [xarr(v.n[0], D), ('val', 'I', v.n[0]), I_(v), ('val', 'I', v.ne[0]), ('val', 'I', v.os[0]), ('val', 'I', getattr(v, 'is')[0]), ('val', 'I', v.e[0]), ('out', 'R', 'p', N * D)],
                       pos, pre=pre, sample=smp(False), ufs=UFS, funcs=['Domain<%s>::element(id)' % e.cls]))
        pos1 = lambda v, o, N=N, D=D: [('node %d of the element is at the position of its index' % a, E.and_(*[E.eq(o.p[a * D + k], X(IDX(v.e[0] * N + a) * D + k)) for k in range(D)])) for a in range(N)]
        V1 = {k: V[k] for k in ('n', 'ne', 'e')}; pre1 = lambda v: [E.lt(v.e[0], v.ne[0])]
        smp1 = lambda rng: (lambda ne: {'n': [rng.randint(64, 120)], 'ne': [ne], 'e': [rng.randrange(ne)]})(rng.randint(1, 40))
        for f in ('delementd', 'delementp'):
            us.append(Unit('Domain<%s>.element (%s)' % (e.cls, 'contiguous' if f[-1] == 'd' else 'given positions'), nm + '_' + f, mod, V1,
                           lambda v, N=N, D=D: [xarr(v.n[0], D), ('val', 'I', v.n[0]), iarr(v.ne[0] * N, v.n[0]), ('val', 'I', v.ne[0]), ('val', 'I', v.e[0]), ('out', 'R', 'p', N * D)],
                           pos1, pre=pre1, sample=smp1, ufs=UFS, funcs=['Domain<%s>::element(id%s)' % (e.cls, '' if f[-1] == 'd' else ', positions')]))

        def postc(v, o, N=N):
            out = []
            for nmo, mesh, w in (('o1', 1, 'copied indices'), ('o2', 1, 'referenced indices'), ('o3', 0, 'copy of a domain of referenced indices'), ('o4', 0, 'clone that outlives its original'), ('o5', 1, 'moved domain')):
                r = getattr(o, nmo)
                out.append((w + ': same connectivity', E.and_(E.eq(r[0], 2), E.eq(r[1], N), *[E.eq(r[3 + k], v.i[k]) for k in range(2 * N)])))
                out.append((w + ': attached mesh', E.eq(r[2], mesh)))
            return out
        us.append(Unit('Domain<%s> constructors and copies' % e.cls, nm + '_dcopy', mod, {'i': ('I', 2 * N, 0, NN)}, lambda v, N=N: [('in', 'I', v.i)] + [('out', 'I', 'o%d' % k, 3 + 2 * N) for k in range(1, 6)],
                       postc, sample=lambda rng, N=N: {'i': [rng.randint(0, 1000) for _ in range(2 * N)]}, funcs=['Domain<%s>: constructors, copy, clone, move, attach_to' % e.cls], bounded='domains of two elements'))
        def posts(v, o, N=N, row=row):
            out = []
            for nmo, mesh, w in (('o1', 0, 'copy'), ('o2', 0, 'moved'), ('o3', 1, 'swapped')):
                r = getattr(o, nmo)
                out.append((w + ': number of elements and nodes', E.and_(E.eq(r[0], v.ne[0]), E.eq(r[1], N))))
                out.append((w + ': attached mesh', E.eq(r[2], mesh)))
                out += [(w + ': node %d of the element' % a, E.eq(r[3 + a], row(v, a))) for a in range(N)]
            out.append(('swapped with an owning domain: its connectivity', E.and_(E.eq(o.o4[0], 1), E.eq(o.o4[1], N), E.eq(o.o4[2], 0), *[E.eq(o.o4[3 + a], 7 + a) for a in range(N)])))
            return out
        us.append(Unit('Domain<%s> copy, move and swap of strided indices' % e.cls, nm + '_dstrided', mod, V, lambda v, I_=I_, N=N: [I_(v), ('val', 'I', v.ne[0]), ('val', 'I', v.os[0]), ('val', 'I', getattr(v, 'is')[0]), ('val', 'I', v.e[0])] + [('out', 'I', 'o%d' % k, 3 + N) for k in range(1, 5)],
                       posts, pre=pre, sample=smp(False), ufs=UFS, funcs=['Domain<%s>: copy, move, swap' % e.cls]))
    return us


def units(tier): return own_units(tier) + big.dom_units()
