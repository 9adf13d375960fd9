from gridspec import *
import re, itertools
import g01, g03
import interp as I, loops
from irparse import IntTy, F64, PTR

sources = gsources
SLV = g03.SLV
i64 = IntTy(64)


# ---------------------------------------------------------------- contracts used at the call sites inside cells_enclosing
def rd(ip, st, p, ty, k): return [ip.load(st, ty, ip.padd(p, 8 * i)) for i in range(k)]


def rdi(ip, st, p, k): return [ip.observe(st, x, 64, True) for x in rd(ip, st, p, i64, k)]


def newvec(ip, st, sret, xs):
    """a std::vector<long long> with these elements at sret"""
    cap = max(1, len(xs))
    b = ip.alloc(st, 8 * cap, 'heap', 'heap')
    for i, x in enumerate(xs): ip.store(st, i64, x, ip.padd(b, 8 * i))
    ip.store(st, PTR, b, sret); ip.store(st, PTR, ip.padd(b, 8 * len(xs)), ip.padd(sret, 8)); ip.store(st, PTR, ip.padd(b, 8 * cap), ip.padd(sret, 16))


def cell_index(ip, st, c):
    f = flat(list(ip.uv.n), c)
    r = dict(st.ghost.get('rec', {})); r[f.id if isinstance(f, T) else ('c', f)] = tuple(c); st.ghost['rec'] = r
    return f


def k_cidx(ip, st, vals, rt, dem):
    """contract of cell_index_at (G01): requires coordinates of the grid, returns their flattened index"""
    n = ip.uv.n; c = rdi(ip, st, vals[1], len(n))
    ip.side(st, 'precondition of cell_index_at: coordinates within the grid', E.and_(*inrange(c, n)))
    return cell_index(ip, st, c)


def k_ccoord(ip, st, vals, rt, dem):
    """contract of cell_coordinates_at(index) (G01): the coordinates whose flattened index is given"""
    i = ip.load(st, i64, vals[2])
    c = st.ghost.get('rec', {}).get(i.id if isinstance(i, T) else ('c', i))
    if c is None: raise I.Unsupported('cell_coordinates_at of an index that is not known as the index of a cell')
    for k, x in enumerate(c): ip.store(st, i64, x, ip.padd(vals[0], 8 * k))


def whichp(ip, st, p):
    D = len(ip.uv.n); x = rd(ip, st, p, F64, D)
    for j, X in enumerate(ip.uv.X):
        if all(a is b for a, b in zip(x, X)): return j
    raise I.Unsupported('query at an unexpected position')


def inside(v, j): return E.and_(*[E.and_(E.le(0, v.t[j][k]), E.le(v.t[j][k], R(v.n[k]))) for k in range(len(v.n))])


def inside_i(v, j):
    """the same in terms of the integer parts: 0 <= t iff 0 <= floor(t); t <= n iff ceil(t) <= n"""
    return E.and_(*[E.and_(E.le(0, v.fl[j][k]), E.le(v.ce[j][k], v.n[k])) for k in range(len(v.n))])


def clo(v, j, k): return E.ite(E.lt(v.ce[j][k] - 1, 0), 0, E.ite(E.gt(v.ce[j][k], v.n[k]), v.n[k] - 1, v.ce[j][k] - 1))


def chi(v, j, k): return E.ite(E.ge(v.fl[j][k], v.n[k]), v.n[k] - 1, E.ite(E.lt(v.fl[j][k], 0), 0, v.fl[j][k]))


def k_contains(ip, st, vals, rt, dem):
    """contract of contains (G03)"""
    v = ip.uv; j = whichp(ip, st, vals[1])
    eps = vals[2]
    if isinstance(eps, T) or not (0 <= eps < SLV): raise I.Unsupported('contains with another tolerance')
    return inside_i(v, j)


def k_around(ip, st, vals, rt, dem):
    """contract of cells_around (G03): the cells of the grid whose closed box touches the position, each once; none outside"""
    v = ip.uv; D = len(v.n); j = whichp(ip, st, vals[2])
    outs = []
    ins = inside_i(v, j)
    cases = [(E.not_(ins), None)]
    for two in itertools.product((False, True), repeat=D):
        cs = [ins]
        for k in range(D):
            a, b = clo(v, j, k), chi(v, j, k)
            cs.append(E.lt(a, b) if two[k] else E.le(b, a))
        cases.append((E.and_(*cs), two))
    for c, two in cases:
        parts = c.args if isinstance(c, T) and c.op == 'and' else (c,)
        if not ip.solver.feasible(st.pc, st.pcs, c): continue
        s = st.clone()
        for p in parts: s.assume(p)
        xs = []
        if two is not None:
            ax = [[chi(v, j, k)] if not two[k] else [v.fl[j][k] - 1, v.fl[j][k]] for k in range(D)]
            for m in itertools.product(*ax): xs.append(cell_index(ip, s, list(m)))
        newvec(ip, s, vals[0], xs)
        outs.append((s, None))
    return I.Multi(outs)


def k_minmax(mx):
    def f(ip, st, vals, rt, dem):
        """std::min / std::max on integers: the value is known, the identity of the referred object is not"""
        a, b = (ip.load(st, i64, x) for x in vals)
        if not isinstance(a, T) and not isinstance(b, T):
            x, y = I.sgn(a, 64), I.sgn(b, 64)
            return vals[0] if ((x >= y) if mx else (x <= y)) else vals[1]
        x, y = ip.observe(st, a, 64, True), ip.observe(st, b, 64, True)
        c = E.lt(x, y) if mx else E.lt(y, x)
        if isinstance(c, T):
            if c.id in st.pcs or ip.solver.valid(st.pc, c, quick=True) is True: c = True
            elif E.not_(c).id in st.pcs or ip.solver.valid(st.pc, E.not_(c), quick=True) is True: c = False
        if isinstance(c, bool): return vals[1] if c else vals[0]
        p = ip.alloc(st, 8, 'minmax', 'stack')
        ip.store(st, i64, E.ite(c, y, x), p)
        return p
    return f


def k_append(ip, st, vals, rt, dem):
    """contract of std::list::emplace_back: the sequence grows by this value"""
    x = ip.load(st, i64, vals[1])
    st.ghost['ev'] = list(st.ghost.get('ev', [])) + [('app', (vals[0].o, vals[0].off), x)]
    return vals[1]


def flatten(e):
    q = []
    while e[0] == 'all': q.append(e[1:4]); e = e[4]
    return q, e


def events(ip, st, p):
    return [flatten(e) for e in st.ghost.get('ev', []) if flatten(e)[1][1] == (p.o, p.off)]


def k_size(ip, st, vals, rt, dem):
    """number of values appended to the list, over all iterations of the (cut) loops"""
    tot = 0
    for q, e in events(ip, st, vals[0]):
        n = 1
        for X, lo, hi in q: n = n * fac(ip, st, E.ite(E.le(lo, hi), hi - lo + 1, 0))
        tot = tot + n
    return tot


def fac(ip, st, f):
    """name a number of iterations as one of the numbers of the specification when it is equal to it"""
    for g in ip.ufac:
        if ip.solver.valid(st.pc, E.eq(f, g)) is True: return g
    return f


def k_count(ip, st, vals, rt, dem):
    """occurrences in the list of the cell whose coordinates are the ghost query q (cells are equal iff their coordinates are: G01)"""
    v = ip.uv; D = len(v.n); tot = 0
    rec = st.ghost.get('rec', {})
    for q, e in events(ip, st, vals[0]):
        c = rec.get(e[2].id if isinstance(e[2], T) else ('c', e[2]))
        if c is None: raise I.Unsupported('appended value is not the index of a cell')
        m = {}
        cond = []
        for k in range(D):
            hit = [X for X, lo, hi in q if X is c[k]]
            if hit: m[hit[0]] = v.q[k]
            else: cond.append((c[k], v.q[k]))
        if len(m) != len(q): raise I.Unsupported('a loop does not control a coordinate of the appended cells')
        sb = lambda t: E.subst([t], m)[0] if isinstance(t, T) else t
        cs = [E.eq(sb(a), b) for a, b in cond] + [E.and_(E.le(sb(lo), m[X]), E.le(m[X], sb(hi))) for X, lo, hi in q]
        tot = tot + E.ite(E.and_(*cs), 1, 0)
    return tot


CON = [(re.compile(r'^(?:.* )?caribou::topology::internal::BaseGrid<\d+ul, caribou::topology::Grid<\d+ul> ?>::cells_around\([^()]*\) const$'), k_around),
       (re.compile(r'^(?:.* )?caribou::topology::internal::BaseGrid<\d+ul, caribou::topology::Grid<\d+ul> ?>::contains\([^()]*, double\) const$'), k_contains),
       (re.compile(r'^(?:.* )?caribou::topology::internal::Base(?:Multi|Uni)dimensionalGrid<.*>::cell_index_at\(Eigen::Matrix<long long[^()]*\) const$'), k_cidx),
       (re.compile(r'^(?:.* )?caribou::topology::internal::Base(?:Multi|Uni)dimensionalGrid<.*>::cell_coordinates_at\(long long const&\) const$'), k_ccoord),
       (re.compile(r'std::min<long long>\('), k_minmax(False)), (re.compile(r'std::max<long long>\('), k_minmax(True)),
       (re.compile(r'std::__cxx11::list<long long, std::allocator<long long> ?>::(emplace|push)_back'), k_append),
       (re.compile(r'^(\(anonymous namespace\)::)?vh_size\('), k_size), (re.compile(r'^(\(anonymous namespace\)::)?vh_count\('), k_count)]


def own_units(tier='quick'):
    plan = [(1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (3, 1)]
    us = [mk(D, P) for D, P in plan]
    for D, P in ((2, 3), (3, 2), (3, 3)): us.append(mk(D, P, False))      # bounded stand-ins: too many position classes for a proof in the time given
    return us


def mk(D, P, sym=True):
    vs = gvars(D, q=('I', D, 0, NMAX), fl=('I', D * P, -NMAX, 2 * NMAX), ce=('I', D * P, -NMAX, 2 * NMAX), t=('R', D * P))

    def shape(v, D=D, P=P):
        if not hasattr(v, 'X'):
            v.X = None
            for nm in ('fl', 'ce', 't'):
                a = getattr(v, nm); setattr(v, nm, [a[j * D:(j + 1) * D] for j in range(P)])
            v.X = [[v.a[k] + v.t[j][k] * h(v, k) for k in range(D)] for j in range(P)]
        return v

    def pre(v, D=D, P=P):
        shape(v)
        cs = gpre(v) + inrange(v.q, v.n)
        for j in range(P):
            for k in range(D):
                t, fl, ce = v.t[j][k], v.fl[j][k], v.ce[j][k]
                cs += [E.or_(E.and_(E.eq(t, R(fl)), E.eq(ce, fl)), E.and_(E.eq(ce, fl + 1), E.le(R(fl) + SLV, t), E.le(t, R(ce) - SLV)))]
        return cs

    def args(v, D=D, P=P):
        shape(v)
        return gargs(v) + [('in', 'R', x) for x in v.X] + [('val', 'I', flat(list(v.n), v.q)), ('out', 'I', 'r', 2)]

    def lohi(v, D=D, P=P):
        mn = lambda xs: xs[0] if len(xs) == 1 else E.ite(E.lt(mn(xs[1:]), xs[0]), mn(xs[1:]), xs[0])
        mx = lambda xs: xs[0] if len(xs) == 1 else E.ite(E.lt(xs[0], mx(xs[1:])), mx(xs[1:]), xs[0])
        return [(mn([clo(v, j, k) for j in range(P)]), mx([chi(v, j, k) for j in range(P)])) for k in range(D)]

    def post(v, o, D=D, P=P):
        shape(v)
        some = E.or_(*[inside_i(v, j) for j in range(P)])
        b = lohi(v)
        return [('number of enclosing cells', E.eq(o.r[0], E.ite(some, prod([hi - lo + 1 for lo, hi in b]), 0))),
                ('a cell is listed (once) exactly when it lies in the clipped box of cells', E.eq(o.r[1], E.ite(E.and_(some, *[E.and_(E.le(lo, q), E.le(q, hi)) for (lo, hi), q in zip(b, v.q)]), 1, 0)))]

    def smp(rng, n, d, D=D, P=P):
        fl, ce, t, q = [], [], [], []
        for j in range(P):
            for k in range(D):
                i = rng.choice([-2, -1, 0, n[k] - 1, n[k], n[k] + 1, rng.randrange(n[k]), rng.randrange(n[k])])
                if rng.random() < .4: fl.append(i); ce.append(i); t.append(F(i))
                else: fl.append(i); ce.append(i + 1); t.append(i + F(rng.randint(1, 63), 64))
        for k in range(D): q.append(min(n[k] - 1, max(0, rng.choice(fl[k::D] + ce[k::D]) + rng.choice([0, 0, -1, 1]))))
        return {'fl': fl, 'ce': ce, 't': t, 'q': q}

    def setup(ip, st, D=D, P=P, lohi=lohi):
        ip.ufac = [hi - lo + 1 for lo, hi in lohi(ip.uv)]
    return Unit('Grid<%d>.cells_enclosing(%d positions)' % (D, P), 'g%d_encl%d' % (D, P), 'grid_%d' % D, vs, args, post, pre=pre,
                   sample=gsample_small(D, smp), contracts=CON, loops=[loops.auto(re.compile(r'::cells_enclosing'))], setup=setup, timeout=20000,
                   funcs=['Grid<%d>::cells_enclosing (%d positions)' % (D, P)], ints=lambda v, shape=shape: [x for a in shape(v).fl + v.ce for x in a] + list(v.n) + [0], simp=True,
                   max_paths=20000, limit=500, **({} if sym else dict(sym=False, bounded='native sampling only (no proof)', nsamp=400)))


def gsample_small(D, smp):
    g = gsample(D, None)

    def f(rng):
        d = g(rng)
        d['n'] = [min(x, 40) for x in d['n']]; d['s'] = [x * F(rng.randint(1, 32), 8) for x in d['n']]
        d.update(smp(rng, d['n'], d))
        return d
    return f


def units(tier): return g01.own_units() + g03.own_units() + own_units(tier)
