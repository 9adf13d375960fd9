from common import *

NMAX = 1 << 20


def gsources(): return [('grid_%d' % d, 'grid.cpp', ['-DPART=%d' % d]) for d in (1, 2, 3)]


def gvars(D, **kw):
    vs = {'a': ('R', D), 'n': ('I', D, 1, NMAX), 's': ('R', D)}
    vs.update(kw)
    return vs


def gargs(v): return [('in', 'R', v.a), ('in', 'I', v.n), ('in', 'R', v.s)]


def gpre(v): return [E.gt(x, 0) for x in v.s]


def gsample(D, extra=None, nmax=6):
    def f(rng):
        n = [rng.randint(1, nmax) for _ in range(D)]
        if rng.random() < .1: n[rng.randrange(D)] = rng.choice([1, 1000, NMAX])
        d = {'a': [F(rng.randint(-40, 40), 8) for _ in range(D)], 'n': n, 's': [n[i] * F(rng.randint(1, 32), 8) for i in range(D)]}
        if extra: d.update(extra(rng, n, d))
        return d
    return f


def flat(n, c):
    """flattened index, first axis fastest"""
    r = c[-1]
    for k in range(len(c) - 2, -1, -1): r = r * n[k] + c[k]
    return r


def prod(xs):
    r = 1
    for x in xs: r = r * x
    return r


def inrange(c, n): return [E.and_(E.le(0, x), E.lt(x, m)) for x, m in zip(c, n)]


def quots(n, c):
    """c_z, c_y (+ n_y c_z) ... : the quotients of a mixed radix number"""
    q = [c[-1]]
    for k in range(len(c) - 2, -1, -1): q.append(q[-1] * n[k] + c[k])
    return list(c[1:]) + q


def lemmas(n, c):
    """partial mixed radix numbers are in range"""
    out = []
    for k in range(2, len(c) + 1): out.append(E.and_(E.le(0, flat(n[:k], c[:k])), E.lt(flat(n[:k], c[:k]), prod(n[:k]))))
    return out


def np1(v): return [x + 1 for x in v.n]


def h(v, k): return v.s[k] / E.toreal(v.n[k])


def R(x): return E.toreal(x) if isinstance(x, T) else F(x)


def pos(v, c): return [v.a[k] + R(c[k]) * h(v, k) for k in range(len(c))]


CORNERS = {1: [(0,), (1,)], 2: [(0, 0), (1, 0), (1, 1), (0, 1)],
           3: [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]}
