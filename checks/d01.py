from topo import *


def sources(): return [('topo_0', 'topo.cpp', ['-DPART=0'] + ACC)]


def own_units(tier='quick'):
    us = []
    for D in (1, 2, 3):
        V = {'n': ('I', 1, 1, NN), 'i': ('I', 1, 0, NN)}
        pre = lambda v: [E.lt(x, v.n[0]) for x in v.i]
        S = lambda m: (lambda rng: (lambda n: {'n': [n], 'i': [rng.randrange(n) for _ in range(m)]})(rng.randint(1, 120)))
        us.append(Unit('Mesh<%d>.number_of_nodes' % D, 'm%d_count' % D, 'topo_0', {'n': ('I', 1, 0, NN)}, lambda v, D=D: [xarr(v.n[0], D), ('val', 'I', v.n[0])],
                       lambda v, o: [('number of nodes', E.eq(o.ret, v.n[0]))], sample=lambda rng: {'n': [rng.randint(0, 120)]}, ret='I', ufs=UFS, funcs=['Mesh<%d>::number_of_nodes' % D]))
        us.append(Unit('Mesh<%d>.node' % D, 'm%d_node' % D, 'topo_0', V, lambda v, D=D: [xarr(v.n[0], D), ('val', 'I', v.n[0]), ('val', 'I', v.i[0]), ('out', 'R', 'p', 3)],
                       lambda v, o, D=D: [('coordinate %d of the node' % k, E.eq(o.p[k], X(v.i[0] * D + k))) for k in range(D)] + [('the coordinate %d is zero' % k, E.eq(o.p[k], 0)) for k in range(D, 3)],
                       pre=pre, sample=S(1), ufs=UFS, funcs=['Mesh<%d>::node' % D]))
        us.append(Unit('Mesh<%d>.position' % D, 'm%d_position' % D, 'topo_0', V, lambda v, D=D: [xarr(v.n[0], D), ('val', 'I', v.n[0]), ('val', 'I', v.i[0]), ('out', 'R', 'p', D)],
                       lambda v, o, D=D: [('coordinate %d of the node' % k, E.eq(o.p[k], X(v.i[0] * D + k))) for k in range(D)], pre=pre, sample=S(1), ufs=UFS, funcs=['Mesh<%d>::position' % D]))
        for f in 'caversb':
            us.append(Unit('Mesh<%d>.positions(%s)' % (D, {'c': 'C array', 'a': 'std::array', 'v': 'std::vector', 'e': 'fixed Eigen vector', 'r': 'dynamic Eigen row', 's': 'strided view', 'b': 'column of a table'}[f]), 'm%d_positions_%s' % (D, f), 'topo_0',
                           {'n': ('I', 1, 1, NN), 'i': ('I', 3, 0, NN)}, lambda v, D=D: [xarr(v.n[0], D), ('val', 'I', v.n[0]), ('in', 'I', v.i), ('out', 'R', 'p', 3 * D)],
                           lambda v, o, D=D: [('row %d is the node of the index %d' % (a, a), E.and_(*[E.eq(o.p[a * D + k], X(v.i[a] * D + k)) for k in range(D)])) for a in range(3)],
                           pre=pre, sample=S(3), ufs=UFS, funcs=['Mesh<%d>::positions' % D]))
        for f in 'vex':
            us.append(Unit('Mesh<%d>(%s)' % (D, {'v': 'std::vector', 'e': 'fixed columns', 'x': 'dynamic columns'}[f]), 'm%d_ctor_%s' % (D, f), 'topo_0', {'x': ('R', 3 * D)},
                           lambda v, D=D: [('in', 'R', v.x), ('out', 'R', 'p', 3 * D), ('out', 'I', 'c', 3)],
                           lambda v, o, D=D: [('three nodes, dimension, no domain', E.and_(E.eq(o.c[0], 3), E.eq(o.c[1], D), E.eq(o.c[2], 0)))] + [('coordinate %d' % k, E.eq(o.p[k], v.x[k])) for k in range(3 * D)],
                           funcs=['Mesh<%d>::Mesh' % D], bounded='meshes of three nodes'))
        us.append(Unit('Mesh<%d> copies' % D, 'm%d_copy' % D, 'topo_0', {'x': ('R', 3 * D), 'y': ('R', 2 * D)}, lambda v, D=D: [('in', 'R', v.x), ('in', 'R', v.y), ('out', 'R', 'p', 7 * D), ('out', 'I', 'c', 4)],
                       lambda v, o, D=D: [('node counts after copy, assignment and move', E.and_(*[E.eq(o.c[i], q) for i, q in enumerate((3, 2, 2, 2))]))] + [('coordinate %d' % k, E.eq(o.p[k], (list(v.x) + list(v.y) + list(v.y))[k])) for k in range(7 * D)],
                       funcs=['Mesh<%d>: copy, assignment, move' % D], bounded='meshes of two and three nodes'))
    return us


def units(tier): return own_units(tier)
