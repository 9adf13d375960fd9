from gridspec import *
import g01

sources = gsources
SLV = F(1, 10**9)        # the code's tolerance on grid lines is far below this


def at(v, t): return [v.a[k] + t[k] * h(v, k) for k in range(len(t))]


def rc(D):
    def f(rng, n, d):
        return {'c': [rng.choice([0, x - 1, rng.randrange(x)]) for x in n], 'f': [F(rng.choice([0, 1, 32, 63, rng.randint(0, 63)]), 64) for _ in range(D)]}
    return f


def box_units():
    us = []
    for D in (1, 2, 3):
        stem = 'grid_%d' % D; nm = 'Grid<%d>' % D

        def U(name, fn, vs, args, post, **kw):
            us.append(Unit('%s.%s' % (nm, name), 'g%d_%s' % (D, fn), stem, vs, args, post, funcs=['%s::%s' % (nm, name.split('[')[0])], timeout=30000, simp=True, **(dict(ints=lambda v: list(v.c)) if 'c' in vs else {}), **kw))
        # x = a + t * size
        sx = lambda rng, n, d, D=D: {'t': [F(rng.choice([0, 64, 32, -1, 65, rng.randint(-16, 80)]), 64) for _ in range(D)], 'eps': F(rng.choice([0, 1, 4]), 64)}
        sx0 = lambda rng, n, d, D=D: {'t': [F(rng.choice([0, 64, 32, -1, 65, rng.randint(-16, 80)]), 64) for _ in range(D)]}
        U('contains', 'contains', gvars(D, t=('R', D)), lambda v: gargs(v) + [('in', 'R', [v.a[k] + v.t[k] * v.s[k] for k in range(len(v.a))])],
          lambda v, o: [('points of the closed box are contained', E.or_(E.eq(o.ret, 1), *[E.or_(E.lt(x, 0), E.gt(x, 1)) for x in v.t])),
                        ('points outside the box are not', E.or_(E.eq(o.ret, 0), E.and_(*[E.and_(E.le(-SLV, x), E.le(x, 1 + SLV)) for x in v.t])))], pre=gpre, sample=gsample(D, sx0), ret='I')
        U('contains(eps)', 'containse', gvars(D, t=('R', D), eps=('R', None)), lambda v: gargs(v) + [('in', 'R', [v.a[k] + v.t[k] * v.s[k] for k in range(len(v.a))]), ('val', 'R', v.eps)],
          lambda v, o: [('contained exactly in the box enlarged by the tolerance', E.eq(o.ret, E.ite(E.and_(*[E.and_(E.le(-v.eps, x), E.le(x, 1 + v.eps)) for x in v.t]), 1, 0)))], pre=gpre, sample=gsample(D, sx), ret='I')
        # x = a + (c + f) h : in the half-open cell c
        vs = gvars(D, c=('I', D, 0, NMAX), f=('R', D))
        frac = lambda v: [E.and_(E.le(0, x), E.lt(x, 1)) for x in v.f]
        X = lambda v: at(v, [R(v.c[k]) + v.f[k] for k in range(len(v.c))])
        kw = dict(pre=lambda v: gpre(v) + inrange(v.c, v.n) + frac(v), sample=gsample(D, rc(D)))
        U('cell_coordinates_at(point)', 'locate', vs, lambda v, D=D: gargs(v) + [('in', 'R', X(v)), ('out', 'I', 'c', D)],
          lambda v, o, D=D: [('coordinate %d is that of the half-open cell holding the point' % k, E.eq(o.c[k], v.c[k])) for k in range(D)], **kw)
        U('cell_coordinates_at(point,false)', 'locateb', vs, lambda v, D=D: gargs(v) + [('in', 'R', X(v)), ('val', 'I', 0), ('out', 'I', 'c', D)],
          lambda v, o, D=D: [('coordinate %d is that of the half-open cell holding the point' % k, E.eq(o.c[k], v.c[k])) for k in range(D)], **kw)
        U('cell_index_containing', 'find', vs, lambda v, D=D: gargs(v) + [('in', 'R', X(v)), ('val', 'I', 0)],
          lambda v, o, D=D: [('index of the half-open cell holding the point', E.eq(o.ret, flat(list(v.n), v.c)))], ret='I', **kw)
        # with the upper boundary: x = a + (c + f) h with f = 1 allowed in the last cell
        last = lambda v: [E.and_(E.le(0, f), E.or_(E.lt(f, 1), E.and_(E.eq(f, 1), E.eq(c, n - 1)))) for f, c, n in zip(v.f, v.c, v.n)]

        def rcb(rng, n, d, D=D):
            e = rc(D)(rng, n, d)
            for k in range(D):
                if rng.random() < .4: e['c'][k] = n[k] - 1; e['f'][k] = F(1)
            return e
        kb = dict(pre=lambda v: gpre(v) + inrange(v.c, v.n) + last(v), sample=gsample(D, rcb))
        U('cell_coordinates_at(point,true)', 'locateb', vs, lambda v, D=D: gargs(v) + [('in', 'R', X(v)), ('val', 'I', 1), ('out', 'I', 'c', D)],
          lambda v, o, D=D: [('coordinate %d is that of the cell holding the point, the upper boundary belonging to the last cell' % k, E.eq(o.c[k], v.c[k])) for k in range(D)], **kb)
        U('cell_index_containing(boundary)', 'find', vs, lambda v, D=D: gargs(v) + [('in', 'R', X(v)), ('val', 'I', 1)],
          lambda v, o, D=D: [('index of the cell holding the point', E.eq(o.ret, flat(list(v.n), v.c)))], ret='I', **kb)
    return us


def axis_spec(v, k, on):
    """cells of axis k touching the coordinate i (on a grid line) or i + f (strictly between lines), i any integer"""
    i, n = v.c[k], v.n[k]
    inr = lambda x: E.and_(E.le(0, x), E.lt(x, n))
    one = lambda c: E.ite(c, 1, 0)
    if on: return (lambda q: E.or_(E.eq(q, i), E.eq(q, i - 1))), one(inr(i)) + one(inr(i - 1))
    return (lambda q: E.eq(q, i)), one(inr(i))


def coord(v, on): return [R(v.c[k]) if on[k] else R(v.c[k]) + v.f[k] for k in range(len(on))]


def masks(D): return [tuple(bool(m >> k & 1) for k in range(D)) for m in range(1 << D)]


def around_units():
    us = []
    for D in (1, 2, 3):
        vs = gvars(D, c=('I', D, -NMAX, NMAX), f=('R', D), q=('I', D, 0, NMAX))
        for on in masks(D):
            def smp(rng, n, d, D=D):
                c = [rng.choice([-1, 0, x - 1, x, x + 1, -2, rng.randrange(x)]) for x in n]
                f = [F(rng.choice([1, 32, 63, rng.randint(1, 63)]), 64) for _ in range(D)]
                q = [min(max(0, c[k] + rng.choice([0, 0, -1, 1])), n[k] - 1) for k in range(D)]
                return {'c': c, 'f': f, 'q': q}

            def post(v, o, D=D, on=on):
                ax = [axis_spec(v, k, on[k]) for k in range(D)]
                return [('number of cells around the point', E.eq(o.r[0], prod([a[1] for a in ax]))),
                        ('a cell is listed (once) exactly when its closed box touches the point', E.eq(o.r[1], E.ite(E.and_(*[a[0](v.q[k]) for k, a in enumerate(ax)]), 1, 0)))]
            us.append(Unit('Grid<%d>.cells_around[%s]' % (D, ''.join('+' if x else '-' for x in on)), 'g%d_around' % D, 'grid_%d' % D, vs,
                           lambda v, on=on: gargs(v) + [('in', 'R', at(v, coord(v, on))), ('val', 'I', flat(list(v.n), v.q)), ('out', 'I', 'r', 2)],
                           post, pre=lambda v: gpre(v) + inrange(v.q, v.n) + [E.and_(E.le(SLV, x), E.le(x, 1 - SLV)) for x in v.f], sample=gsample(D, smp), simp=True, timeout=30000,
                           funcs=['Grid<%d>::cells_around' % D], lemmas=lambda v: lemmas(list(v.n), v.q), limit=240, ints=lambda v: list(v.c)))
    return us


def own_units(): return box_units() + around_units()


def units(tier): return g01.own_units() + own_units()
