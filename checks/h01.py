from common import *
import re, itertools
import interp as I, loops
from irparse import IntTy, F64, PTR
import g03, g05, big

i64 = IntTy(64)
SLV = g03.SLV
CMAX = 1 << 19
ACC = ['-fno-access-control']


def sources(): return [('hash_%d' % p, 'hash.cpp', ['-DPART=%d' % p] + ACC) for p in (1, 2, 3, 4, 5)] + big.sources(1)


# ---------------------------------------------------------------- contracts of the containers, over a ghost log
def k_index(ip, st, vals, rt, dem):
    """unordered_map::operator[]: the slot of this key"""
    D = ip.ud; key = tuple(ip.observe(st, x, 64, True) for x in g05.rd(ip, st, vals[1], i64, D))
    p = ip.alloc(st, 24, 'slot', 'heap')
    st.ghost['slots'] = {**st.ghost.get('slots', {}), p.o: key}
    return p


def k_push(ip, st, vals, rt, dem):
    key = st.ghost.get('slots', {}).get(vals[0].o)
    if key is None: raise I.Unsupported('append to another vector')
    st.ghost['ev'] = list(st.ghost.get('ev', [])) + [('app', key, ip.load(st, i64, vals[1]))]
    return vals[1]


def match(q, key, K):
    """condition under which an event quantified by q with this key appends at cell K"""
    m = {}; cs = []
    done = set()
    for X, lo, hi in q:
        ks = [k for k, c in enumerate(key) if isinstance(c, T) and X in E.free_vars([c])]
        if len(ks) != 1: raise I.Unsupported('a loop does not control one coordinate of the cells')
        k = ks[0]; r = E.sub(key[k], X) if key[k] is not X else 0
        if isinstance(r, T) and (X in E.free_vars([r]) or any(Y in E.free_vars([r]) for Y, _, _ in q)): raise I.Unsupported('cell coordinate is not an offset of a loop counter')
        m[X] = E.sub(K[k], r); done.add(k)
    sb = lambda t: E.subst([t], m)[0] if isinstance(t, T) else t
    for k, c in enumerate(key):
        if k not in done: cs.append(E.eq(c, K[k]))
    for X, lo, hi in q: cs += [E.le(sb(lo), m[X]), E.le(m[X], sb(hi))]
    return cs


def apps(st): return [(q, e) for q, e in map(g05.flatten, st.ghost.get('ev', [])) if e[0] == 'app']


def k_find(ip, st, vals, rt, dem):
    """unordered_map::find: the entry of this key when something was put there"""
    D = ip.ud; K = [ip.observe(st, x, 64, True) for x in g05.rd(ip, st, vals[1], i64, D)]
    work = [(st.clone(), [])]
    for q, e in apps(st):
        cs = match(q, e[1], K)
        nxt = []
        for s, ids in work:
            c = E.and_(*cs)
            for cond, hit in ((c, True), (E.not_(c) if isinstance(c, T) else not c, False)):
                if cond is False: continue
                if cond is not True:
                    if not ip.solver.feasible(s.pc, s.pcs, cond): continue
                    s2 = s.clone()
                    for x in (cs if hit else [cond]):
                        if isinstance(x, T): s2.assume(x)
                else: s2 = s.clone()
                nxt.append((s2, ids + [e[2]] if hit else ids))
        work = nxt
    out = []
    for s, ids in work:
        if not ids: out.append((s, ip.int2ptr(0))); continue
        p = ip.alloc(s, 8 + 8 * D + 24 + 8, 'node', 'heap')
        for k in range(D): ip.store(s, i64, K[k], ip.padd(p, 8 + 8 * k))
        g05.newvec(ip, s, ip.padd(p, 8 + 8 * D), ids)
        out.append((s, p))
    return I.Multi(out)


def k_end(ip, st, vals, rt, dem): return ip.int2ptr(0)


def k_sins(ip, st, vals, rt, dem):
    """std::set::emplace / insert of one value, or of a range"""
    if len(vals) == 3:
        a, b = vals[1], vals[2]
        if not (isinstance(a, I.Ptr) and isinstance(b, I.Ptr) and a.o == b.o and isinstance(a.off, int) and isinstance(b.off, int) and (b.off - a.off) % 8 == 0): raise I.Unsupported('insertion of a range')
        st.ghost['ev'] = list(st.ghost.get('ev', [])) + [('ins', (vals[0].o, vals[0].off), ip.load(st, i64, ip.padd(a, k))) for k in range(0, b.off - a.off, 8)]
        return I.UNDEF
    if len(vals) != 2: raise I.Unsupported('insertion with a hint')
    st.ghost['ev'] = list(st.ghost.get('ev', [])) + [('ins', (vals[0].o, vals[0].off), ip.load(st, i64, vals[1]))]
    return I.UNDEF


def inserted(ip, st, p):
    evs = [g05.flatten(e) for e in st.ghost.get('ev', [])]
    if any(q for q, e in evs if e[0] == 'ins'): raise I.Unsupported('insertion in a cut loop')
    xs = []
    for q, e in evs:
        if e[0] == 'ins' and e[1] == (p.o, p.off) and e[2] not in xs: xs.append(e[2])
    return xs


def k_has(ip, st, vals, rt, dem):
    return 1 if any(x is vals[1] for x in inserted(ip, st, vals[0])) else 0


def k_ssize(ip, st, vals, rt, dem): return len(inserted(ip, st, vals[0]))


def k_cellcount(ip, st, vals, rt, dem):
    tot = 0
    for q, e in apps(st):
        if e[2] is not vals[2]: continue
        tot = tot + E.ite(E.and_(*match(q, e[1], ip.uv.q)), 1, 0)
    return tot


def k_total(ip, st, vals, rt, dem):
    tot = 0
    for q, e in apps(st):
        n = 1
        for X, lo, hi in q: n = n * g05.fac(ip, st, E.ite(E.le(lo, hi), hi - lo + 1, 0))
        tot = tot + n
    return tot


def k_minmax(mx):
    def f(ip, st, vals, rt, dem):
        """min / max of two reals; named after the extent of the element when equal to it"""
        a, b = (ip.load(st, F64, x) for x in vals)
        r = E.ite(E.lt(a, b) if mx else E.lt(b, a), b, a)
        if isinstance(r, T):
            for c in ip.uext[mx]:
                if ip.solver.valid(st.pc, E.eq(r, c), quick=True) is True: return c
        return r
    return f


def nop(ip, st, vals, rt, dem): return I.UNDEF


def k_add(ip, st, vals, rt, dem):
    """contract of HashGrid::add (verified by the add units): the id is entered once in each cell from lo to hi"""
    D = ip.ud; v = ip.uv
    x = ip.load(st, F64, vals[1]); s = [s for s in ip.uss if getattr(v, 'n' + s)[0] is x]
    if len(s) != 1: raise I.Unsupported('unknown element')
    lo, hi = getattr(v, 'lo' + s[0]), getattr(v, 'hi' + s[0])
    loops.counter[0] += 1
    X = [E.mk('var', ('cell%d_%d' % (loops.counter[0], k),), 'I') for k in range(D)]
    ev = ('app', tuple(X), ip.load(st, i64, vals[2]))
    for k in reversed(range(D)): ev = ('all', X[k], lo[k], hi[k], ev)
    st.ghost['ev'] = list(st.ghost.get('ev', [])) + [ev]


MAP = r'^(?:[^()]* )?std::unordered_map<.*>::'
SET = r'(?:^|[ &])std::set<unsigned long long, std::less<unsigned long long>, std::allocator<unsigned long long> ?>::'
CON = [(re.compile(MAP + r'operator\[\]\('), k_index), (re.compile(MAP + r'find\('), k_find), (re.compile(MAP + r'c?end\(\)'), k_end),
       (re.compile(MAP + r'(reserve|unordered_map|~unordered_map)\('), nop),
       (re.compile(r'std::vector<unsigned long long, std::allocator<unsigned long long> ?>::(emplace|push)_back'), k_push),
       (re.compile(SET + r'(set|~set)\(\)'), nop), (re.compile(SET + r'(std::pair<.*>)?(emplace|insert)[<(]'), k_sins), (re.compile(r'std::set<unsigned long long[^()]*::(emplace|insert)[<(]'), k_sins),
       (re.compile(r'^(\(anonymous namespace\)::)?vh_has\('), k_has), (re.compile(r'^(\(anonymous namespace\)::)?vh_ssize\('), k_ssize),
       (re.compile(r'(^|[ )])vh_cellcount<'), k_cellcount), (re.compile(r'(^|[ )])vh_total<'), k_total),
       (re.compile(r'Eigen::numext::mini<double>\('), k_minmax(False)), (re.compile(r'Eigen::numext::maxi<double>\('), k_minmax(True))]
CONGET = [(re.compile(r'^(?:void )?caribou::topology::HashGrid<.*>::add\('), k_add)] + CON
LOOPS = [loops.auto(re.compile(r'::HashGrid<.*>::add\('))]


def box_vars(D, N, s=''):
    return {'n' + s: ('R', N * D), 'u' + s: ('R', D), 'w' + s: ('R', D), 'lo' + s: ('I', D, -CMAX, CMAX), 'hi' + s: ('I', D, -CMAX, CMAX)}


def R(x): return E.toreal(x) if isinstance(x, T) else F(x)


def box_pre(v, D, N, s=''):
    """u h and w h are the componentwise minimum and maximum of the nodes, lo and hi their integer parts"""
    n, u, w, lo, hi = (getattr(v, x + s) for x in ('n', 'u', 'w', 'lo', 'hi'))
    h = v.h[0]; cs = []
    for k in range(D):
        xs = [n[a * D + k] for a in range(N)]
        cs += [E.le(u[k] * h, x) for x in xs] + [E.le(x, w[k] * h) for x in xs]
        cs += [E.or_(*[E.eq(u[k] * h, x) for x in xs]), E.or_(*[E.eq(w[k] * h, x) for x in xs]), E.le(u[k], w[k])]
        cs += [E.le(R(lo[k]), u[k]), E.lt(u[k], R(lo[k]) + 1), E.le(R(hi[k]), w[k]), E.lt(w[k], R(hi[k]) + 1), E.le(lo[k], hi[k])]
    return cs


def box_sample(rng, D, N, h, s='', at=None):
    n = []
    for a in range(N):
        for k in range(D):
            n.append(h * rng.choice([F(rng.randint(-6, 6)), F(rng.randint(-60, 60), 16), F(rng.randint(-6, 6)) + F(rng.choice([-1, 1]), 1024)]))
    if at is not None and rng.random() < .8:
        for k in range(D):
            for a in range(N): n[a * D + k] = at[k] * h + (n[a * D + k] / rng.choice([1, 2, 4]))
    u = [min(n[k::D]) / h for k in range(D)]; w = [max(n[k::D]) / h for k in range(D)]
    fl = lambda x: x.numerator // x.denominator
    return {'n' + s: n, 'u' + s: u, 'w' + s: w, 'lo' + s: [fl(x) for x in u], 'hi' + s: [fl(x) for x in w]}


def setup(D, ss, get=False):
    def f(ip, st):
        v = ip.uv; ip.ud = D; ip.uss = ss
        if get:           # the positions of the nodes play no role beyond the contract of add
            nv = {x for s in ss for x in getattr(v, 'n' + s)}
            st.pc = [c for c in st.pc if not any(x in nv for x in E.free_vars([c]))]; st.pcs = {c.id for c in st.pc}
        ip.uext = [[getattr(v, 'u' + s)[k] * v.h[0] for s in ss for k in range(D)], [getattr(v, 'w' + s)[k] * v.h[0] for s in ss for k in range(D)]]
        ip.ufac = [getattr(v, 'hi' + s)[k] - getattr(v, 'lo' + s)[k] + 1 for s in ss for k in range(D)]
    return f


def covered(v, D, s=''):
    """the box of cells of the element reaches a cell touching the point"""
    lo, hi = getattr(v, 'lo' + s), getattr(v, 'hi' + s)
    return E.and_(*[E.and_(E.le(lo[k], v.fl[k]), E.le(v.ce[k] - 1, hi[k])) for k in range(D)])


def inbox(v, D, s=''):
    u, w = getattr(v, 'u' + s), getattr(v, 'w' + s)
    return E.and_(*[E.and_(E.le(u[k], v.t[k]), E.le(v.t[k], w[k])) for k in range(D)])


ELS = [('Seg1L', 1), ('Tri2L', 2), ('Tri2Q', 2), ('Quad2L', 3), ('TetL', 4), ('Tri3L', 4), ('HexL', 5)]


def own_units(tier='quick'):
    us = []
    for nm, part in ELS:
        e = ELEMS[nm]; D, N = e.dim, e.n
        H = {'h': ('R', 1)}

        def hs(rng): return F(2) ** rng.randint(-3, 3)

        def pre_add(v, D=D, N=N): return [E.gt(v.h[0], 0)] + box_pre(v, D, N) + [E.and_(E.le(-CMAX, x), E.le(x, CMAX)) for x in v.q]

        def smp_add(rng, D=D, N=N):
            h = hs(rng); d = {'h': [h]}; d.update(box_sample(rng, D, N, h))
            d['q'] = [rng.choice([d['lo'][k], d['hi'][k], d['lo'][k] - 1, d['hi'][k] + 1, rng.randint(d['lo'][k], d['hi'][k])]) for k in range(D)]
            d['id'] = [rng.randint(0, 1000)]
            return d

        def post_add(v, o, D=D):
            return [('the element is entered once in each cell its bounding box reaches and in no other', E.eq(o.r[0], E.ite(E.and_(*[E.and_(E.le(v.lo[k], v.q[k]), E.le(v.q[k], v.hi[k])) for k in range(D)]), 1, 0))),
                    ('nothing else is entered', E.eq(o.r[1], prod([v.hi[k] - v.lo[k] + 1 for k in range(D)])))]
        ints = lambda v, ss=('',): [x for s in ss for x in list(getattr(v, 'lo' + s)) + list(getattr(v, 'hi' + s))]
        us.append(Unit('HashGrid<%s>.add' % e.cls, nm + '_hadd', 'hash_%d' % part, {**box_vars(D, N), **H, 'q': ('I', D, -CMAX, CMAX), 'id': ('I', 1, 0, 1 << 40)},
                       lambda v: [('in', 'R', v.n), ('val', 'R', v.h[0]), ('val', 'I', v.id[0]), ('in', 'I', v.q), ('out', 'I', 'r', 2)], post_add, pre=pre_add, sample=smp_add,
                       contracts=CON, loops=LOOPS, setup=setup(D, ['']), funcs=['HashGrid<%s>::add' % e.cls], ints=ints, simp=True))

        def ptpre(v, D=D):
            cs = []
            for k in range(D):
                t, fl, ce = v.t[k], v.fl[k], v.ce[k]
                cs += [E.or_(E.and_(E.eq(t, R(fl)), E.eq(ce, fl)), E.and_(E.eq(ce, fl + 1), E.le(R(fl) + SLV, t), E.le(t, R(ce) - SLV)))]
            return cs

        def ptsmp(rng, D=D):
            fl, ce, t = [], [], []
            for k in range(D):
                i = rng.randint(-4, 4)
                if rng.random() < .5: fl.append(i); ce.append(i); t.append(F(i))
                else: fl.append(i); ce.append(i + 1); t.append(i + F(rng.randint(1, 63), 64))
            return {'fl': fl, 'ce': ce, 't': t}
        PV = {'t': ('R', D), 'fl': ('I', D, -CMAX, CMAX), 'ce': ('I', D, -CMAX, CMAX)}
        for m in ((1, 2) if nm in ('Seg1L', 'Tri2L') else (1,)):
            ss = ['', '2'][:m]

            def pre(v, D=D, N=N, ss=ss, ptpre=ptpre): return [E.gt(v.h[0], 0)] + [c for s in ss for c in box_pre(v, D, N, s)] + ptpre(v) + ([E.not_(E.eq(v.id[0], v.id[1]))] if len(ss) == 2 else [])

            def smp(rng, D=D, N=N, ss=ss, ptsmp=ptsmp):
                h = hs(rng); d = {'h': [h], 'id': rng.sample(range(1000), len(ss))}
                d.update(ptsmp(rng))
                for s in ss: d.update(box_sample(rng, D, N, h, s, d['t']))
                return d

            def args(v, ss=ss, D=D):
                return [('in', 'R', getattr(v, 'n' + s)) for s in ss] + [('val', 'R', v.h[0])] + [('val', 'I', v.id[i]) for i in range(len(ss))] + [('in', 'R', [x * v.h[0] for x in v.t]), ('out', 'I', 'r', len(ss) + 1)]

            def post(v, o, D=D, ss=ss):
                out = []; tot = 0
                for i, s in enumerate(ss):
                    c = covered(v, D, s)
                    out += [('an element whose bounding box holds the point is returned (%d)' % i, E.implies(inbox(v, D, s), E.eq(o.r[i], 1))),
                            ('an element is returned exactly when a cell of its bounding box touches the point (%d)' % i, E.eq(o.r[i], E.ite(c, 1, 0)))]
                    tot = tot + E.ite(c, 1, 0)
                return out + [('only elements that were added are returned, each once', E.eq(o.r[-1], tot))]
            vs = {**H, **PV, 'id': ('I', m, 0, 1 << 40)}
            for s in ss: vs.update(box_vars(D, N, s))
            us.append(Unit('HashGrid<%s>.get after %d add' % (e.cls, m), nm + '_hget%d' % m, 'hash_%d' % part, vs, args, post, pre=pre, sample=smp, contracts=CONGET, loops=LOOPS, setup=setup(D, ss, True),
                           funcs=['HashGrid<%s>::get' % e.cls], ints=lambda v, ss=ss, ints=ints: ints(v, ss) + list(v.fl) + list(v.ce), simp=True, limit=400))

        def eqs(rng, D=D):
            a = [rng.randint(-50, 50) for _ in range(D)]; b = list(a)
            for k in range(D):
                if rng.random() < .4: b[k] += rng.choice([-1, 1, 2, 1 << 20, -(1 << 29)])
            return {'a': a, 'b': b}
        if nm in ('Seg1L', 'Tri2L', 'TetL'):
            us.append(Unit('HashGrid<%s> key comparison' % e.cls, nm + '_hequal', 'hash_%d' % part, {'a': ('I', D, -CMAX, CMAX), 'b': ('I', D, -CMAX, CMAX)}, lambda v: [('in', 'I', v.a), ('in', 'I', v.b)],
                           lambda v, o, D=D: [('two keys are equal exactly when all their coordinates are', E.eq(o.ret, E.ite(E.and_(*[E.eq(v.a[k], v.b[k]) for k in range(D)]), 1, 0)))], sample=eqs, ret='I',
                           funcs=['HashGrid<%s>::HashEqual' % e.cls]))
    return us


def prod(xs):
    r = 1
    for x in xs: r = r * x
    return r


def units(tier): return own_units(tier) + big.hash_units()
