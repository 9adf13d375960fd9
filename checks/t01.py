from common import *
import big

FE = {'tri': ('Tri3L', 4, 2, 1, 4, [0, 1, 2, 2, 1, 3]), 'quad': ('Quad3L', 4, 1, 4, 5, [2, 3, 0, 1])}


def sources(): return [('ff_%d' % p, 'ff.cpp', ['-DPART=%d' % p, '-fno-access-control']) for p in (4, 5)] + big.sources(3)


def cross(a, b): return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def near6(a, b): return near(a, b, F(1, 10**9))


def units(tier):
    us = []
    rr = lambda rng, n, d=16: [F(rng.randint(-2 * d, 2 * d), d) for _ in range(n)]
    for nm, (en, NN, NE, NG, part, idx) in FE.items():
        e = ELEMS[en]; N = e.n; mod = 'ff_%d' % part; cl = 'TractionForcefield<%s>' % e.cls; Q = NE * NG
        con = [idx[k * N:(k + 1) * N] for k in range(NE)]

        def geo(o, X, g, e=e):
            xi = o.gp[3 * g:3 * g + 2]; J = e.jac(X, xi); c = cross([r[0] for r in J], [r[1] for r in J])
            return xi, dot(c, c)

        def postg(v, o, e=e, N=N, NG=NG, geo=geo):
            X = rows(v.n, N, 3); out = []
            for g in range(NG):
                xi, a2 = geo(o, X, g); L = e.L(xi)
                out.append(('point %d: weight of the quadrature' % g, E.eq(o.w[g], o.gp[3 * g + 2])))
                out.append(('point %d: area density |dx/du x dx/dv|' % g, E.and_(E.ge(o.d[g], 0), E.eq(o.d[g] * o.d[g], a2))))
                out += [('point %d: shape function %d' % (g, a), near(o.N[N * g + a], L[a])) for a in range(N)]
            return out
        us.append(Unit(cl + '.get_gauss_nodes', nm + '_tgauss', mod, {'n': ('R', 3 * N)}, lambda v, N=N, NG=NG: [('in', 'R', v.n), ('out', 'R', 'gp', 3 * NG), ('out', 'R', 'w', NG), ('out', 'R', 'd', NG), ('out', 'R', 'N', NG * N)],
                       postg, sample=lambda rng, N=N: {'n': rr(rng, 3 * N)}, funcs=[cl + '::get_gauss_nodes'], tol=1e-9))

        def integral(W, D, S, t, con=con, N=N, NN=NN, NE=NE, NG=NG):
            """nodal forces of the traction t: sum over the points of t w |J| N_a; and their resultant"""
            f = [[F(0)] * 3 for _ in range(NN)]; tot = [F(0)] * 3
            for k in range(NE):
                for g in range(NG):
                    q = k * NG + g
                    for a in range(N):
                        for i in range(3):
                            x = t[i] * W[q] * D[q] * S[q * N + a]
                            f[con[k][a]][i] = f[con[k][a]][i] + x; tot[i] = tot[i] + x
            return f, tot

        def incr(v, o, t, nf0, tl0, NN=NN, integral=integral):
            f, tot = integral(v.w, v.d, v.N, t)
            return [('nodal force %d of node %d' % (i, a), E.eq(o.nf[3 * a + i], nf0[3 * a + i] + f[a][i])) for a in range(NN) for i in range(3)] + \
                   [('total load grows by the norm of the resultant', E.and_(E.ge(o.tl[0] - tl0, 0), E.eq((o.tl[0] - tl0) * (o.tl[0] - tl0), dot(tot, tot))))]
        V0 = {'w': ('R', Q), 'd': ('R', Q), 'N': ('R', Q * N), 't': ('R', 3), 'nf': ('R', 3 * NN), 'tl': ('R', 1)}
        us.append(Unit(cl + '.increment_load', nm + '_load', mod, V0, lambda v, idx=idx: [('in', 'I', idx), ('in', 'R', v.w), ('in', 'R', v.d), ('in', 'R', v.N), ('in', 'R', v.t), ('io', 'R', 'nf', v.nf), ('io', 'R', 'tl', v.tl)],
                       lambda v, o, incr=incr: incr(v, o, v.t, v.nf, v.tl[0]), sample=lambda rng, V0=V0: {k: rr(rng, x[1]) for k, x in V0.items()}, funcs=[cl + '::increment_load'], bounded='meshes of %d element%s' % (NE, 's' * (NE > 1)), tol=1e-9))

        # ---- events
        for what, const in ((0, 0), (0, 1), (1, 0), (2, 0), (2, 1), (3, 0)):
            if (nm, what, const, tier) == ('quad', 0, 0, 'quick'): continue   # the same template as for triangles
            V = dict(V0, l=('R', 1), s=('R', 1), wait=('I', 1), c=('I', 1), f=('R', 3 * NN))
            cur = lambda v: [v.l[0] * x for x in v.t]

            def post(v, o, what=what, const=const, NN=NN, cur=cur, incr=incr):
                m = cur(v); same = [('nodal forces unchanged', E.and_(*[E.eq(o.nf[i], v.nf[i]) for i in range(3 * NN)])), ('total load unchanged', E.eq(o.tl[0], v.tl[0])), ('applied traction unchanged', E.and_(*[E.eq(o.cur[i], m[i]) for i in range(3)]))]
                out = [('one force per node of the state', E.eq(o.sz[0], NN))] + [('addForce adds nodal force %d' % i, E.eq(o.f[i], v.f[i] + o.nf[i])) for i in range(3 * NN)]
                if what in (1, 3) or (what == 0 and const): return out + same + [('counter unchanged', E.eq(o.c[0], v.c[0]))]
                if what == 2:
                    z = [F(0)] * (3 * NN)
                    out += [('counter ready for an increment', E.eq(o.c[0], v.wait[0])), ('no traction applied', E.and_(*[E.eq(o.cur[i], 0) for i in range(3)]))]
                    return out + (incr(v, o, v.t, z, F(0)) if const else [('nodal forces zero', E.and_(*[E.eq(o.nf[i], 0) for i in range(3 * NN)])), ('no load', E.eq(o.tl[0], 0))])
                done = E.ge(v.l[0], 1); c1 = v.c[0] + 1; waits = E.and_(E.not_(done), E.lt(c1, v.wait[0])); acts = E.and_(E.not_(done), E.ge(c1, v.wait[0]))
                out += [('goal reached: ' + n, E.implies(done, x)) for n, x in same] + [('goal reached: counter unchanged', E.implies(done, E.eq(o.c[0], v.c[0])))]
                out += [('waiting: ' + n, E.implies(waits, x)) for n, x in same] + [('waiting: one more step waited', E.implies(waits, E.eq(o.c[0], c1)))]
                last = E.gt(v.l[0] + v.s[0], 1)
                for nme, cond, k in (('increment', E.and_(acts, E.not_(last)), v.s[0]), ('last increment', E.and_(acts, last), 1 - v.l[0])):
                    out += [(nme + ': ' + n, E.implies(cond, x)) for n, x in incr(v, o, [k * x for x in v.t], v.nf, v.tl[0])[:-1]]
                    out += [(nme + ': applied traction', E.implies(cond, E.and_(*[E.eq(o.cur[i], (v.l[0] + k) * v.t[i]) for i in range(3)]))), (nme + ': counter restarted', E.implies(cond, E.eq(o.c[0], 0)))]
                return out
            def smp(rng, V0=V0, NN=NN):
                r = {k: rr(rng, x[1]) for k, x in V0.items()}; r['t'][0] = F(1); r.update(l=[F(rng.randint(0, 16), 16)], s=[F(rng.randint(1, 16), 16)], wait=[rng.randint(0, 4)], c=[rng.randint(0, 4)], f=rr(rng, 3 * NN)); return r
            us.append(Unit('%s.%s, then addForce' % (cl, {0: 'handleEvent (begin of step, %s traction)' % ['incremental', 'constant'][const], 1: 'handleEvent (another event)', 2: 'reset (%s traction)' % ['incremental', 'constant'][const], 3: 'addForce'}[what]), nm + '_event', mod, V,
                           lambda v, what=what, const=const, idx=idx, cur=cur: [('val', 'I', what), ('in', 'I', idx), ('in', 'R', v.w), ('in', 'R', v.d), ('in', 'R', v.N), ('in', 'R', v.t), ('val', 'R', v.s[0]), ('val', 'I', const), ('val', 'I', v.wait[0]), ('io', 'I', 'c', v.c), ('io', 'R', 'cur', cur(v)), ('io', 'R', 'nf', v.nf), ('io', 'R', 'tl', v.tl), ('out', 'I', 'sz', 1), ('io', 'R', 'f', v.f)],
                           post, pre=lambda v: [E.gt(dot(v.t, v.t), 0), E.ge(v.l[0], 0), E.le(v.l[0], 1), E.gt(v.s[0], 0), E.ge(v.wait[0], 0), E.le(v.wait[0], 2**20), E.ge(v.c[0], 0), E.le(v.c[0], 2**20)],
                           sample=smp, funcs=[cl + '::handleEvent', cl + '::reset', cl + '::addForce'], bounded='meshes of %d element%s' % (NE, 's' * (NE > 1)), tol=1e-9, limit=400))

        # ---- init
        x0 = [0, 0, 0, 3, 0, 0, 0, 4, 0, 3, 4, 0] if nm == 'tri' else [0, 0, 0, 3, 0, 0, 3, 4, 0, 0, 4, 0]
        for const in (0, 1):
            def posti(v, o, const=const, NN=NN, NE=NE, Q=Q, integral=integral):
                f, tot = integral(o.w, o.d, o.N, v.t)
                out = [('one force per node, one set of points per element, ready for an increment', E.and_(E.eq(o.o[0], NN), E.eq(o.o[3], NE), E.eq(o.o[1], v.wait[0]), E.eq(o.o[2], const)))]
                out.append(('area of the surface', near6(sum((o.w[q] * o.d[q] for q in range(Q)), F(0)), F(12))))
                out.append(('constant traction applied at once' if const else 'no load before the first step', E.and_(*[near6(o.nf[3 * a + i], f[a][i] if const else F(0)) for a in range(NN) for i in range(3)])))
                return out
            us.append(Unit('%s.init (%s traction)' % (cl, ['incremental', 'constant'][const]), nm + '_init', mod, {'t': ('R', 3), 'wait': ('I', 1), 's': ('R', 1)},
                           lambda v, const=const, idx=idx, x0=x0, NN=NN, NE=NE, NG=NG, Q=Q, N=N: [('in', 'R', [F(x) for x in x0]), ('in', 'I', idx), ('in', 'R', v.t), ('val', 'R', F(0) if const else v.s[0]), ('val', 'I', v.wait[0]), ('out', 'R', 'gp', 3 * NG), ('out', 'R', 'nf', 3 * NN), ('out', 'R', 'tl', 1), ('out', 'I', 'o', 4), ('out', 'R', 'w', Q), ('out', 'R', 'd', Q), ('out', 'R', 'N', Q * N)],
                           posti, pre=lambda v: [E.ge(v.s[0], F(1, 1000)), E.ge(v.wait[0], 0), E.le(v.wait[0], 2**20)] + [E.and_(E.ge(x, -100), E.le(x, 100)) for x in v.t], sample=lambda rng: {'t': rr(rng, 3), 'wait': [rng.randint(0, 4)], 's': [F(rng.randint(1, 16), 16)]},
                           funcs=[cl + '::init', cl + '::initialize_elements'], bounded='one rectangle of two triangles, or one quad', tol=1e-9))
    return us + big.tract_units()
