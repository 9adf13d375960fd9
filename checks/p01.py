from common import *
import re
import interp as I
import b01, big
from irparse import IntTy

i64 = IntTy(64)
NR = 4     # lines of the constraint matrices
AT = [1, 0, 2, 2, 1, -1, 0, -1, -1, 3, 2, 1]     # line, columns (mapped nodes): two entries, one, none, two (in another order)
NL, WD = 4, 2


def sources(): return [('map', 'map.cpp', ['-fno-access-control'])]


def k_bp(ip, st, vals, rt, dem):
    """contract of BarycentricContainer::barycentric_point (B01): the element that holds the point and the local coordinates there"""
    e, el, Q, xi = ip.up
    p = rd(ip, st, vals[2], 3)
    for k, q in enumerate(Q):
        if all(E.eq(a, b) is True for a, b in zip(p, q)):
            ip.store(st, i64, el[k], vals[0]); wr(ip, st, ip.padd(vals[0], 8), xi[k] if el[k] >= 0 else [F(0)] * 3)
            return I.UNDEF
    raise I.Unsupported('barycentric_point of another point')


BP = [(re.compile(r'BarycentricContainer<.*>::barycentric_point\('), k_bp)]
# element -> nodes, connectivity, points (element, or -1)
FE = {'TetL': (5, [[3, 0, 4, 1], [2, 4, 0, 1]], [1, 0, 1]), 'HexL': (8, [[5, 0, 3, 7, 1, 6, 2, 4]], [0, 0, 0]), 'TetQ': (10, [[9, 3, 5, 0, 1, 7, 2, 8, 4, 6]], [0, 0, 0])}


def mesh(nm, rng):
    """nodes of a mesh whose elements do not overlap and are affine images of the reference one"""
    nn, con, _ = FE[nm]; e = ELEMS[nm]
    while True:
        A = [[F(2 * int(i == j)) + F(rng.randint(-4, 4), 8) for j in range(3)] for i in range(3)]
        if spec.det(A) > 1: break
    t = [F(rng.randint(-16, 16), 4) for _ in range(3)]; im = lambda p: [t[i] + sum(A[i][j] * p[j] for j in range(3)) for i in range(3)]
    X = [None] * nn
    for a, i in enumerate(con[0]): X[i] = im([F(c) for c in e.cnodes[a]])
    if len(con) > 1: X[con[1][0]] = im([1 + F(rng.randint(-1, 3), 8) for _ in range(3)])     # a tetrahedron on the slanted face
    return X


def units(tier):
    us = []
    for nm, (nn, con, els) in FE.items():
        e = ELEMS[nm]; np = 3; cls = 'CaribouBarycentricMapping<%s>' % e.cls
        idx = [i for r in con for i in r]
        V = {'x0': ('R', 3 * nn), 'xi': ('R', 3 * np), 'x': ('R', 3 * nn), 'v': ('R', 3 * nn), 'm': ('R', 3 * np), 'cv': ('R', 3 * NL * WD), 'ox': ('R', 3 * np), 'ov': ('R', 3 * np), 'f': ('R', 3 * nn), 'h': ('R', 3 * nn * NR)}
        for how, find, inits, ok in ((0, 0, 1, None), (1, 0, 1, None), (0, 0, 2, None), (0, 0, 1, 1), (0, 0, 1, 0), (0, 0, 1, 2), (0, 1, 1, None), (0, 2, 1, None), (0, 3, 1, None)):
            if nm != 'TetL' and (how or find or inits > 1 or ok in (0, 2)): continue
            out = ok is not None
            el = [-1 if k == ok else x for k, x in enumerate(els)]; native = find > 0

            def Q(v, e=e, con=con, els=els):
                X = rows(v.x0, len(v.x0) // 3, 3)
                return [e.world([X[i] for i in con[els[k]]], v.xi[3 * k:3 * k + 3]) for k in range(3)]

            def post(v, o, e=e, nn=nn, con=con, el=el, out=out, inits=inits):
                r = []
                W = [[0] * nn for _ in range(3)]      # the mapping matrix
                if not out:
                    for k in range(3):
                        for L, i in zip(e.L(v.xi[3 * k:3 * k + 3]), con[el[k]]): W[k][i] = L
                cols = {}
                for l in range(NL):
                    for k in range(WD):
                        j = AT[l * (WD + 1) + 1 + k]
                        if j >= 0: cols.setdefault(AT[l * (WD + 1)], []).append((j, v.cv[3 * (l * WD + k):3 * (l * WD + k) + 3]))
                for k in range(3):
                    for c in range(3):
                        r.append(('position of point %d, axis %d' % (k, c), E.eq(o.ox[3 * k + c], v.ox[3 * k + c] if out else sum((W[k][i] * v.x[3 * i + c] for i in range(nn)), 0))))
                        r.append(('velocity of point %d, axis %d' % (k, c), E.eq(o.ov[3 * k + c], v.ov[3 * k + c] if out else sum((W[k][i] * v.v[3 * i + c] for i in range(nn)), 0))))
                for i in range(nn):
                    for c in range(3):
                        r.append(('force on node %d, axis %d' % (i, c), E.eq(o.f[3 * i + c], v.f[3 * i + c] + sum((W[k][i] * v.m[3 * k + c] for k in range(3)), 0))))
                        for l in range(NR):
                            b = v.h[3 * (l * nn + i) + c] if l % 2 and i % 2 == 0 else 0
                            r.append(('constraint %d of node %d, axis %d' % (l, i, c), E.eq(o.h[3 * (l * nn + i) + c], b + sum((W[k][i] * w[c] for k, w in cols.get(l, [])), 0))))
                r += [('initial state mapped', E.eq(o.c[0], 0 if out else inits)), ('points outside', E.eq(o.c[1], int(out))), ('number of mapped nodes', E.eq(o.c[2], 3)), ('no empty constraint is added', E.eq(o.c[3], 0))]
                return r

            def smp(rng, nm=nm, nn=nn, e=e, V=V, ok=ok):
                s = {k: [F(rng.randint(-32, 32), 8) for _ in range(x[1])] for k, x in V.items()}; s['x0'] = [c for p in mesh(nm, rng) for c in p]; s['xi'] = []
                for k in range(3):
                    if k == ok: s['xi'] += [F(9), F(7) + F(rng.randint(0, 8), 8), F(5)] if rng.random() < .5 else [F(-3), F(-1), F(-2)]
                    elif nm == 'HexL': s['xi'] += [F(rng.randint(-15, 15), 16) for _ in range(3)]
                    else: w = [rng.randint(1, 8) for _ in range(4)]; s['xi'] += [F(c, sum(w)) for c in w[1:]]
                return s

            def setup(ip, st, e=e, el=el, Q=Q): ip.ue = e; ip.ucol = True; ip.ulo = 8; ip.up = (e, el, Q(ip.uv), rows(ip.uv.xi, 3, 3))
            what = ['first', 'second', 'third'][ok] + ' point outside' if out else 'rest positions left empty' if how else 'initialised twice' if inits > 1 else ('topology found in the ' + ['parent node', 'node', 'parent node, then the node'][find - 1]) if find else 'positions, velocities, forces, constraints'
            us.append(Unit(cls + ': ' + what, nm + '_map', 'map', V, lambda v, nn=nn, con=con, idx=idx, how=how, find=find, inits=inits, Q=Q, np=np:
                           [('in', 'R', v.x0), ('val', 'I', nn), ('in', 'I', idx), ('val', 'I', len(con)), ('in', 'R', [c for q in Q(v) for c in q]), ('val', 'I', np), ('val', 'I', how), ('val', 'I', find), ('val', 'I', inits), ('in', 'R', v.x), ('in', 'R', v.v), ('in', 'R', v.m),
                            ('in', 'I', AT), ('in', 'R', v.cv), ('val', 'I', NL), ('val', 'I', WD), ('val', 'I', NR), ('io', 'R', 'ox', v.ox), ('io', 'R', 'ov', v.ov), ('io', 'R', 'f', v.f), ('io', 'R', 'h', v.h), ('out', 'I', 'c', 4)],
                           post, sample=smp, setup=setup, sym=not native, contracts=b01.GRID + BP + SHAPE, funcs=[cls + '::' + f for f in ('init', 'apply', 'applyJ', 'applyJT')], tol=1e-7,
                           bounded='meshes of %d element%s, three mapped points, %d constraints' % (len(con), 's' * (len(con) > 1), NR) + ('; native sampling, no proof' if native else ''), nsamp=8 if not native else 20, limit=120))
    return us
