from common import *
import itertools
import big

# VTK cell type -> (class, nodes); the documented node order of VTK coincides with the one of caribou for all of them
TYPES = {3: ('Segment<Linear>', 2, 1), 21: ('Segment<Quadratic>', 3, 1), 5: ('Triangle<Linear>', 3, 2), 22: ('Triangle<Quadratic>', 6, 2), 9: ('Quad<Linear>', 4, 2), 23: ('Quad<Quadratic>', 8, 2),
         10: ('Tetrahedron<Linear>', 4, 3), 24: ('Tetrahedron<Quadratic>', 10, 3), 12: ('Hexahedron<Linear>', 8, 3), 25: ('Hexahedron<Quadratic>', 20, 3)}
WEDGE, VERTEX = 13, 1
NN = 4
# order in which the current code reads the nodes of quadratic hexahedra (finding): caribou's node k is the node H20[k] of the file
H20 = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 18, 11, 10, 14, 15, 12, 13, 16, 19, 17]


def sources(): return [('vtk', 'vtk.cpp', ['-fno-access-control'])] + big.sources(4)


def mesh_unit(name, D, axes, cells, h20=False):
    """cells: list of (type, nodes); symbolic points and indices"""
    off = [sum(n for _, n in cells[:i]) for i in range(len(cells))]; tot = sum(n for _, n in cells)
    doms = []
    for t, _ in cells:
        if t in TYPES and TYPES[t][2] <= D and t not in doms: doms.append(t)

    def post(v, o):
        out = [('one node per point', E.eq(o.s[0], NN)), ('one domain per supported cell type', E.eq(o.s[1], len(doms)))]
        out += [('node %d' % i, E.and_(*[E.eq(o.p[D * i + k], v.x[3 * i + axes[k]]) for k in range(D)])) for i in range(NN)]
        for d, t in enumerate(doms):
            mine = [i for i, c in enumerate(cells) if c[0] == t]; n = TYPES[t][1]
            out.append(('domain %d: elements of type %s, attached to the mesh' % (d, TYPES[t][0]), E.eq(o.s[2 + 3 * d], t)))
            out.append(('domain %d: number of elements and of nodes per element' % d, E.and_(E.eq(o.s[3 + 3 * d], len(mine)), E.eq(o.s[4 + 3 * d], n))))
            row = lambda e, order: E.and_(*[E.eq(o.i[40 * d + 20 * e + a], v.i[off[mine[e]] + order[a]]) for a in range(n)])
            for e in range(min(2, len(mine))):
                if t != 25: out.append(('domain %d: nodes of element %d in the order of VTK' % (d, e), row(e, list(range(n)))))
                elif h20: return [('nodes in the order of VTK', row(e, list(range(n))))]
                else: out.append(('domain %d: element %d has its nodes in the order of VTK or in that of meshio 4.0' % (d, e), E.or_(row(e, list(range(n))), row(e, H20))))
        return out
    return Unit(name, 'vtk_mesh%d' % D, 'vtk', {'x': ('R', 3 * NN), 'i': ('I', tot)},
                lambda v: [('in', 'R', v.x), ('val', 'I', NN), ('in', 'I', list(axes)), ('val', 'I', len(cells)), ('in', 'I', [c[0] for c in cells]), ('in', 'I', [c[1] for c in cells]), ('in', 'I', v.i), ('out', 'I', 's', 14), ('out', 'I', 'i', 160), ('out', 'R', 'p', D * NN)],
                post, pre=lambda v: [E.and_(E.ge(x, 0), E.le(x, 2**31)) for x in v.i], sample=lambda rng: {'x': [F(rng.randint(-32, 32), 8) for _ in range(3 * NN)], 'i': rng.sample(range(100), tot)},
                funcs=['VTKReader<%d>::mesh' % D, 'VTKReader<%d>::VTKReader' % D, 'VTKReader<%d>::register_element_type' % D], bounded='%d points, %d cells' % (NN, len(cells)), nsamp=3)


def k_true(ip, st, vals, rt, dem): return True


# std::filesystem: the file exists, its path is of no consequence
FS = [(re.compile(r'^(?:.* )?std::filesystem::exists\('), k_true), (re.compile(r'^std::filesystem::__cxx11::path::~?path\b|^std::filesystem::__cxx11::path::path<'), lambda ip, st, vals, rt, dem: None)]


def varies(v, nn, a): return E.or_(*[E.ne(v.x[3 * i + a], v.x[a]) for i in range(1, nn)])


def read_unit(D, t, nn):
    n = TYPES[t][1]; combos = list(itertools.combinations(range(3), D))

    def is_ax(v, ax): return E.and_(*[varies(v, nn, a) if a in ax else E.not_(varies(v, nn, a)) for a in range(3)]) if D < 3 else True

    def post(v, o):
        out = [('one node per point', E.eq(o.s[0], nn)), ('one domain, of the cell', E.and_(E.eq(o.s[1], 1), E.eq(o.s[2], t), E.eq(o.s[3], 1), E.eq(o.s[4], n))), ('nodes of the cell', E.and_(*[E.eq(o.i[a], v.i[a]) for a in range(n)]))]
        for ax in combos:
            for i in range(nn): out.append(('node %d, points in axes %s' % (i, ''.join('xyz'[a] for a in ax)), E.implies(is_ax(v, ax), E.and_(*[E.eq(o.p[D * i + k], v.x[3 * i + ax[k]]) for k in range(D)]))))
        return out

    def smp(rng):
        x = [F(rng.randint(-8, 8), 4) for _ in range(3 * nn)]
        for a in rng.sample(range(3), 3 - D if rng.random() < .8 else rng.randint(0, 3)):
            for i in range(nn): x[3 * i + a] = x[a]
        return {'x': x, 'i': rng.sample(range(100), n)}
    return Unit('VTKReader<%d>::Read: a %s on %d points' % (D, TYPES[t][0], nn), 'vtk_read%d' % D, 'vtk', {'x': ('R', 3 * nn), 'i': ('I', n)},
                lambda v: [('in', 'R', v.x), ('val', 'I', nn), ('val', 'I', t), ('val', 'I', n), ('in', 'I', v.i), ('out', 'I', 's', 5), ('out', 'I', 'i', 40), ('out', 'R', 'p', D * nn)],
                post, pre=lambda v: [E.and_(E.ge(x, 0), E.le(x, 2**31)) for x in v.i], throws=(lambda v: E.not_(E.or_(*[is_ax(v, ax) for ax in combos]))) if D < 3 else None, sample=smp, contracts=FS,
                funcs=['VTKReader<%d>::Read' % D, 'VTKReader<%d>::mesh' % D], bounded='%d points, one cell' % nn, nsamp=20)


def units(tier):
    us = [read_unit(1, 3, 2), read_unit(1, 3, 3), read_unit(2, 5, 3), read_unit(3, 10, 2)]
    for D, axes in ((1, [2]), (1, [0]), (2, [0, 2]), (2, [1, 2]), (3, [0, 1, 2])):
        sup = [t for t in TYPES if TYPES[t][2] <= D]
        if D == 2 and axes == [1, 2]: sup = sup[2:3]
        if D == 1 and axes == [0]: sup = sup[:1]
        for t in sup:
            other = {3: 21, 21: 3, 5: 9, 9: 5, 22: 23, 23: 22, 10: 12, 12: 10, 24: 5, 25: 9}[t]
            if TYPES[other][2] > D: other = 3
            us.append(mesh_unit('VTKReader<%d>.mesh (axes %s): cells of type %s among others' % (D, ''.join('xyz'[a] for a in axes), TYPES[t][0]), D, axes, [(WEDGE, 6), (t, TYPES[t][1]), (other, TYPES[other][1]), (VERTEX, 1), (t, TYPES[t][1])]))
        if D == 3: us.append(mesh_unit('VTKReader<3>.mesh: node order of Hexahedron<Quadratic>', D, axes, [(25, 20)], h20=True))
        us.append(mesh_unit('VTKReader<%d>.mesh (axes %s): no cell' % (D, ''.join('xyz'[a] for a in axes)), D, axes, []))
    for D in (1, 2):
        for nn in (1, 2, 3):
            def varies(v, nn=nn): return [E.or_(*[E.ne(v.x[3 * i + a], v.x[a]) for i in range(1, nn)]) if nn > 1 else False for a in range(3)]

            def count(v, D=D, varies=varies):
                w = varies(v); n = [E.not_(x) if isinstance(x, T) else not x for x in w]
                if D == 1: return E.or_(*[E.and_(*[w[b] if b == a else n[b] for b in range(3)]) for a in range(3)])
                return E.or_(*[E.and_(*[n[b] if b == a else w[b] for b in range(3)]) for a in range(3)])

            def post(v, o, D=D, varies=varies):
                w = varies(v); out = []
                for a in range(3):
                    out.append(('axis %s is kept exactly when the points differ along it' % 'xyz'[a], E.iff(w[a], E.or_(*[E.eq(o.a[k], a) for k in range(D)])) if isinstance(w[a], T) else E.and_(*[E.ne(o.a[k], a) for k in range(D)])))
                if D == 2: out.append(('axes in increasing order', E.lt(o.a[0], o.a[1])))
                return out

            def smp(rng, nn=nn):
                x = [F(rng.randint(-8, 8), 4) for _ in range(3 * nn)]
                for a in rng.sample(range(3), rng.randint(0, 3)):
                    for i in range(nn): x[3 * i + a] = x[a]
                return {'x': x}
            us.append(Unit('extract_axes_from_3D_vectors<%d>: %d points' % (D, nn), 'vtk_axes%d' % D, 'vtk', {'x': ('R', 3 * nn)}, lambda v, D=D, nn=nn: [('in', 'R', v.x), ('val', 'I', nn), ('out', 'I', 'a', D)],
                           post, throws=lambda v, count=count: E.not_(count(v)) if isinstance(count(v), T) else not count(v), sample=smp, funcs=['extract_axes_from_3D_vectors<%d>' % D], bounded='%d points' % nn, nsamp=20))
    us.append(Unit('extract_axes_from_3D_vectors<3>', 'vtk_axes3', 'vtk', {'x': ('R', 6), 'n': ('I', 1)}, lambda v: [('in', 'R', v.x), ('val', 'I', v.n[0]), ('out', 'I', 'a', 3)], lambda v, o: [('all axes', E.and_(*[E.eq(o.a[k], k) for k in range(3)]))],
                   pre=lambda v: [E.ge(v.n[0], 0), E.le(v.n[0], 2)], sample=lambda rng: {'x': [F(rng.randint(-8, 8), 4) for _ in range(6)], 'n': [rng.randint(0, 2)]}, funcs=['extract_axes_from_3D_vectors<3>']))
    return us + big.vtk_units(TYPES)
