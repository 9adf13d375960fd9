"""Hash-consed terms over mathematical reals (R), mathematical integers (I) and booleans (B).

Concrete values stay ordinary Python values: Fraction / int / bool.  Term operators accept both."""
from fractions import Fraction
import math

_tab = {}
_cnt = [0]


class T:
    __slots__ = ('op', 'args', 'sort', 'id', '__weakref__')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    # arithmetic sugar
    def __add__(s, o): return add(s, o)
    def __radd__(s, o): return add(o, s)
    def __sub__(s, o): return sub(s, o)
    def __rsub__(s, o): return sub(o, s)
    def __mul__(s, o): return mul(s, o)
    def __rmul__(s, o): return mul(o, s)
    def __truediv__(s, o): return div(s, o)
    def __rtruediv__(s, o): return div(o, s)
    def __neg__(s): return neg(s)
    def __pow__(s, n):
        r = 1
        for _ in range(n): r = mul(r, s)
        return r
    def __bool__(self):
        raise TypeError('symbolic term used as python bool: %s' % show(self)[:200])


def mk(op, args, sort):
    key = (op, args, sort)
    t = _tab.get(key)
    if t is None:
        t = T(); t.op = op; t.args = args; t.sort = sort
        _cnt[0] += 1; t.id = _cnt[0]
        _tab[key] = t
    return t


def reset():
    _tab.clear()


def is_t(x):
    return isinstance(x, T)


def rvar(name): return mk('var', (name,), 'R')
def ivar(name): return mk('var', (name,), 'I')
def bvar(name): return mk('var', (name,), 'B')


_fresh = [0]


def fresh(prefix, sort):
    _fresh[0] += 1
    return mk('var', ('%s!%d' % (prefix, _fresh[0]),), sort)


def sort_of(x):
    if isinstance(x, T): return x.sort
    if isinstance(x, bool): return 'B'
    if isinstance(x, int): return 'I'
    return 'R'


def const_r(x):
    return x if isinstance(x, Fraction) else Fraction(x)


def _srt(a, b):
    sa, sb = sort_of(a), sort_of(b)
    if sa == sb: return sa
    if 'R' in (sa, sb): return 'R'
    return sa


def _wrap(x, s):
    """constants inside terms: keep Fraction for R and int for I"""
    if isinstance(x, T):
        if s == 'R' and x.sort == 'I': return toreal(x)
        return x
    if s == 'R' and not isinstance(x, Fraction): return Fraction(x)
    return x


def isnan(x):
    return isinstance(x, float)


def add(a, b):
    ta, tb = isinstance(a, T), isinstance(b, T)
    if not ta and not tb: return a + b
    s = _srt(a, b)
    a = _wrap(a, s); b = _wrap(b, s)
    if not ta:
        if a == 0: return b
    elif not tb:
        if b == 0: return a
        a, b = b, a
    else:
        if a.id > b.id: a, b = b, a
        if a.op == 'mul' and a.args[0] == -1 and a.args[1] is b: return _zero(s)
        if b.op == 'mul' and b.args[0] == -1 and b.args[1] is a: return _zero(s)
    if not isinstance(a, T) and isinstance(b, T) and b.op == 'add' and not isinstance(b.args[0], T):
        return add(a + b.args[0], b.args[1])
    return mk('add', (a, b), s)


def _zero(s):
    return Fraction(0) if s == 'R' else 0


def neg(a):
    return mul(-1, a)


def sub(a, b):
    if a is b and isinstance(a, T): return _zero(a.sort)
    return add(a, neg(b))


def mul(a, b):
    ta, tb = isinstance(a, T), isinstance(b, T)
    if not ta and not tb: return a * b
    s = _srt(a, b)
    a = _wrap(a, s); b = _wrap(b, s)
    if ta and not tb:
        a, b = b, a; ta, tb = tb, ta
    if not ta:
        if a == 0: return _zero(s)
        if a == 1: return b
        if b.op == 'mul' and not isinstance(b.args[0], T):
            return mul(a * b.args[0], b.args[1])
        if b.op == 'ite' and not isinstance(b.args[1], T) and not isinstance(b.args[2], T):
            return ite(b.args[0], a * b.args[1], a * b.args[2])
        return mk('mul', (a, b), s)
    if a.id > b.id: a, b = b, a
    # pull constants out
    if a.op == 'mul' and not isinstance(a.args[0], T): return mul(a.args[0], mul(a.args[1], b))
    if b.op == 'mul' and not isinstance(b.args[0], T): return mul(b.args[0], mul(a, b.args[1]))
    return mk('mul', (a, b), s)


def div(a, b):
    """real division"""
    if not isinstance(b, T):
        b = Fraction(b)
        if b == 0:
            raise ZeroDivisionError('concrete division by zero')
        return mul(1 / b, _wrap(a, 'R') if isinstance(a, T) else Fraction(a))
    a = _wrap(a, 'R'); b = _wrap(b, 'R')
    if not isinstance(a, T) and a == 0: return Fraction(0)
    if b.op == 'mul' and not isinstance(b.args[0], T):
        return div(mul(1 / b.args[0], a), b.args[1])
    if a is b:
        return mk('div', (a, b), 'R')
    return mk('div', (a, b), 'R')


def toreal(x):
    if not isinstance(x, T): return Fraction(x)
    if x.sort == 'R': return x
    if x.op == 'ite':
        return ite(x.args[0], toreal(x.args[1]), toreal(x.args[2]))
    return mk('toreal', (x,), 'R')


def isqrt_frac(f):
    n, d = f.numerator, f.denominator
    a, b = math.isqrt(n), math.isqrt(d)
    if a * a == n and b * b == d: return Fraction(a, b)
    return None


def sqrt(x):
    if not isinstance(x, T):
        x = Fraction(x)
        if x < 0: raise ValueError('sqrt of negative')
        r = isqrt_frac(x)
        if r is not None: return r
    elif x.op == 'mul' and x.args[0] is x.args[1]:
        return ite(ge(x.args[0], 0), x.args[0], neg(x.args[0]))
    return mk('sqrt', (x,), 'R')


def uf(name, args, sort):
    return mk('uf', (name,) + tuple(args), sort)


def floor(x):
    if not isinstance(x, T): return math.floor(x)
    if x.sort == 'I': return x
    if x.op == 'toreal': return x.args[0]
    if x.op == 'ite': return ite(x.args[0], floor(x.args[1]), floor(x.args[2]))
    return mk('floor', (x,), 'I')


def ite(c, a, b):
    if isinstance(c, bool): return a if c else b
    if a is b: return a
    sa, sb = sort_of(a), sort_of(b)
    if not isinstance(a, T) and not isinstance(b, T) and a == b and sa == sb: return a
    s = sa if sa == sb else ('R' if 'R' in (sa, sb) else sa)
    if s == 'B':
        return or_(and_(c, a), and_(not_(c), b))
    a = _wrap(a, s); b = _wrap(b, s)
    return mk('ite', (c, a, b), s)


def not_(a):
    if isinstance(a, bool): return not a
    if a.op == 'not': return a.args[0]
    if a.op == 'lt': return mk('le', (a.args[1], a.args[0]), 'B')
    if a.op == 'le': return mk('lt', (a.args[1], a.args[0]), 'B')
    return mk('not', (a,), 'B')


def and_(*xs):
    out = []
    for x in xs:
        if isinstance(x, bool):
            if not x: return False
            continue
        if x.op == 'and':
            for y in x.args:
                if y not in out: out.append(y)
        elif x not in out: out.append(x)
    for x in out:
        if not_(x) in out: return False
    if not out: return True
    if len(out) == 1: return out[0]
    return mk('and', tuple(out), 'B')


def or_(*xs):
    out = []
    for x in xs:
        if isinstance(x, bool):
            if x: return True
            continue
        if x.op == 'or':
            for y in x.args:
                if y not in out: out.append(y)
        elif x not in out: out.append(x)
    for x in out:
        if not_(x) in out: return True
    if not out: return False
    if len(out) == 1: return out[0]
    return mk('or', tuple(out), 'B')


def implies(a, b): return or_(not_(a), b)


def iff(a, b):
    return and_(implies(a, b), implies(b, a))


def _cmpz(op, a, b):
    if not isinstance(a, T) and not isinstance(b, T):
        return {'lt': a < b, 'le': a <= b, 'eq': a == b}[op]
    s = _srt(a, b)
    a = _wrap(a, s); b = _wrap(b, s)
    if a is b: return op != 'lt'
    # distribute over ite with constant branches when it folds
    for (x, y, sw) in ((a, b, False), (b, a, True)):
        if isinstance(x, T) and x.op == 'ite' and not isinstance(y, T) and not isinstance(x.args[1], T) and not isinstance(x.args[2], T):
            f = (lambda v: _cmpz(op, y, v)) if sw else (lambda v: _cmpz(op, v, y))
            return ite(x.args[0], f(x.args[1]), f(x.args[2]))
    # drop additive constants / positive multiplicative constants
    if op == 'eq' and isinstance(b, T) and not isinstance(a, T): a, b = b, a
    if op == 'eq' and isinstance(a, T) and isinstance(b, T) and a.id > b.id: a, b = b, a
    return mk(op, (a, b), 'B')


def lt(a, b): return _cmpz('lt', a, b)
def le(a, b): return _cmpz('le', a, b)
def gt(a, b): return _cmpz('lt', b, a)
def ge(a, b): return _cmpz('le', b, a)


def eq(a, b):
    if sort_of(a) == 'B': return iff(a, b)
    return _cmpz('eq', a, b)


def ne(a, b): return not_(eq(a, b))


def abs_(a):
    if not isinstance(a, T): return abs(a)
    return ite(ge(a, 0), a, neg(a))


def show(t, depth=6):
    if not isinstance(t, T):
        if isinstance(t, Fraction):
            return str(t) if t.denominator < 10**6 else '%.17g' % float(t)
        return str(t)
    if t.op == 'var': return t.args[0]
    if depth == 0: return '#%d' % t.id
    sy = {'add': '+', 'mul': '*', 'div': '/', 'lt': '<', 'le': '<=', 'eq': '=='}
    if t.op in sy:
        return '(%s)' % (' %s ' % sy[t.op]).join(show(x, depth - 1) for x in t.args)
    return '%s(%s)' % (t.op, ', '.join(x if isinstance(x, str) else show(x, depth - 1) for x in t.args))


# ------------------------------------------------------------------ traversal / evaluation
def topo(roots):
    seen = set(); out = []
    for r in roots:
        if not isinstance(r, T) or r.id in seen: continue
        st = [(r, 0)]
        while st:
            t, i = st.pop()
            if i == 0:
                if t.id in seen: continue
            done = True
            a = t.args
            while i < len(a):
                x = a[i]; i += 1
                if isinstance(x, T) and x.id not in seen:
                    st.append((t, i)); st.append((x, 0)); done = False
                    break
            if done and t.id not in seen:
                seen.add(t.id); out.append(t)
    return out


def free_vars(roots):
    return [t for t in topo(roots) if t.op == 'var']


class Undef(Exception):
    pass


def evaluate(roots, env, exact=True, ufs=None):
    """evaluate terms given env {var name: value}.  exact=True uses Fractions except for sqrt/uf (then float)."""
    val = {}

    def g(x):
        return val[x.id] if isinstance(x, T) else x
    for t in topo(roots):
        op = t.op; a = t.args
        if op == 'var':
            if a[0] not in env: raise Undef(a[0])
            v = env[a[0]]
        elif op == 'add': v = _num(g(a[0]), g(a[1]), lambda x, y: x + y)
        elif op == 'mul': v = _num(g(a[0]), g(a[1]), lambda x, y: x * y)
        elif op == 'div':
            d = g(a[1])
            if d is None or d == 0: v = None
            else: v = _num(g(a[0]), d, lambda x, y: x / y)
        elif op == 'toreal':
            v = g(a[0]); v = Fraction(v) if isinstance(v, int) else v
        elif op == 'sqrt':
            x = g(a[0])
            if x is None or x < 0: v = None
            else:
                r = isqrt_frac(Fraction(x)) if not isinstance(x, float) else None
                v = r if r is not None else math.sqrt(float(x))
        elif op == 'floor':
            x = g(a[0]); v = None if x is None else math.floor(x)
        elif op == 'ite':
            c = g(a[0]); v = None if c is None else (g(a[1]) if c else g(a[2]))
        elif op == 'and':
            vs = [g(x) for x in a]; v = False if False in [x for x in vs if x is not None] else (None if None in vs else True)
        elif op == 'or':
            vs = [g(x) for x in a]; v = True if True in [x for x in vs if x is not None] else (None if None in vs else False)
        elif op == 'not':
            x = g(a[0]); v = None if x is None else not x
        elif op in ('lt', 'le', 'eq'):
            x, y = g(a[0]), g(a[1])
            if x is None or y is None: v = None
            else: v = {'lt': x < y, 'le': x <= y, 'eq': x == y}[op]
        elif op == 'uf':
            if ufs is None or a[0] not in ufs: raise Undef('uf ' + a[0])
            xs = [g(x) for x in a[1:]]
            v = None if None in xs else ufs[a[0]](*xs)
        elif op == 'idiv':
            x, y = g(a[0]), g(a[1]); v = None if (x is None or not y) else x // y
        elif op == 'imod':
            x, y = g(a[0]), g(a[1]); v = None if (x is None or not y) else x % y
        else:
            raise Undef(op)
        val[t.id] = v
    return [g(r) for r in roots]


def _num(x, y, f):
    if x is None or y is None: return None
    if isinstance(x, float) or isinstance(y, float):
        return f(float(x), float(y))
    return f(x, y)


def subst(roots, m):
    """m: {T: value}.  rebuild"""
    val = {}

    def g(x):
        return val[x.id] if isinstance(x, T) else x
    for t in topo(roots):
        if t in m: val[t.id] = m[t]; continue
        op = t.op
        if op == 'var': v = t
        else:
            a = [g(x) for x in t.args]
            if all(x is y for x, y in zip(a, t.args)): v = t
            else: v = rebuild(op, a, t.sort)
        val[t.id] = v
    return [g(r) for r in roots]


def rebuild(op, a, sort):
    if op == 'add': return add(*a)
    if op == 'mul': return mul(*a)
    if op == 'div': return div(*a)
    if op == 'toreal': return toreal(*a)
    if op == 'sqrt': return sqrt(*a)
    if op == 'floor': return floor(*a)
    if op == 'ite': return ite(*a)
    if op == 'and': return and_(*a)
    if op == 'or': return or_(*a)
    if op == 'not': return not_(*a)
    if op in ('lt', 'le', 'eq'): return _cmpz(op, *a)
    if op == 'idiv': return idiv(*a)
    if op == 'imod': return imod(*a)
    return mk(op, tuple(a), sort)


def idiv(a, b):
    """floor division on mathematical ints (used with b > 0)"""
    if not isinstance(a, T) and not isinstance(b, T): return a // b
    if b == 1 and not isinstance(b, T): return a
    return mk('idiv', (a, b), 'I')


def imod(a, b):
    if not isinstance(a, T) and not isinstance(b, T): return a % b
    if b == 1 and not isinstance(b, T): return 0
    return mk('imod', (a, b), 'I')


# ------------------------------------------------------------------ polynomials / rational functions
class TooBig(Exception):
    pass


LIMIT = 400000


def p_const(c):
    return {(): c} if c else {}


def p_add(a, b):
    if len(a) < len(b): a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m)
        if v is None: r[m] = c
        else:
            v = v + c
            if v: r[m] = v
            else: del r[m]
    return r


def p_scale(a, k):
    if not k: return {}
    return {m: c * k for m, c in a.items()}


def m_mul(m1, m2):
    if not m1: return m2
    if not m2: return m1
    i = j = 0; out = []
    n1, n2 = len(m1), len(m2)
    while i < n1 and j < n2:
        a, b = m1[i], m2[j]
        if a[0] == b[0]:
            out.append((a[0], a[1] + b[1])); i += 1; j += 1
        elif a[0] < b[0]: out.append(a); i += 1
        else: out.append(b); j += 1
    out.extend(m1[i:]); out.extend(m2[j:])
    return tuple(out)


def p_mul(a, b):
    if not a or not b: return {}
    if len(a) * len(b) > LIMIT * 20: raise TooBig()
    if len(a) == 1 and () in a: return p_scale(b, a[()])
    if len(b) == 1 and () in b: return p_scale(a, b[()])
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m_mul(m1, m2)
            v = r.get(m)
            r[m] = c1 * c2 if v is None else v + c1 * c2
    r = {m: c for m, c in r.items() if c}
    if len(r) > LIMIT: raise TooBig()
    return r


class Poly:
    """Normal forms over atoms (vars, sqrt, floor, uf, ite ... terms).  sqrt atoms satisfy s^2 = radicand."""
    def __init__(self):
        self.memo = {}
        self.atoms = {}
        self.sq = {}      # atom id -> (num, den) of radicand

    def rat(self, t):
        """(num, den) polynomials"""
        if not isinstance(t, T):
            return (p_const(Fraction(t)), {(): Fraction(1)})
        for x in topo([t]):
            if x.id in self.memo: continue
            self.memo[x.id] = self._rat1(x)
        return self.memo[t.id]

    def _g(self, x):
        if isinstance(x, T): return self.memo[x.id]
        return (p_const(Fraction(x)), ONE)

    def _rat1(self, x):
        op = x.op
        if x.sort == 'B': return None
        if op == 'add':
            (n1, d1), (n2, d2) = self._g(x.args[0]), self._g(x.args[1])
            if d1 is d2 or d1 == d2: return self.red(p_add(n1, n2)), d1
            if len(d1) == 1 and () in d1: return self.red(p_add(p_mul(n1, d2), p_scale(n2, d1[()]))), p_scale(d2, d1[()])
            if len(d2) == 1 and () in d2: return self.red(p_add(p_scale(n1, d2[()]), p_mul(n2, d1))), p_scale(d1, d2[()])
            # divisibility
            q = p_divexact(d2, d1)
            if q is not None: return self.red(p_add(p_mul(n1, q), n2)), d2
            q = p_divexact(d1, d2)
            if q is not None: return self.red(p_add(n1, p_mul(n2, q))), d1
            return self.red(p_add(p_mul(n1, d2), p_mul(n2, d1))), self.red(p_mul(d1, d2))
        if op == 'mul':
            (n1, d1), (n2, d2) = self._g(x.args[0]), self._g(x.args[1])
            n1, d2 = cancel(n1, d2)
            n2, d1 = cancel(n2, d1)
            return self.red(p_mul(n1, n2)), self.red(p_mul(d1, d2))
        if op == 'div':
            (n1, d1), (n2, d2) = self._g(x.args[0]), self._g(x.args[1])
            n1, n2 = cancel(n1, n2)
            d1, d2 = cancel(d1, d2)
            return self.red(p_mul(n1, d2)), self.red(p_mul(d1, n2))
        if op == 'toreal':
            return self._g(x.args[0])
        # atom
        self.atoms[x.id] = x
        if op == 'sqrt':
            self.sq[x.id] = self._g(x.args[0])
        return {((x.id, 1),): Fraction(1)}, ONE

    def red(self, p):
        """rewrite s^2 -> radicand (only when the radicand is polynomial)"""
        if not self.sq: return p
        while True:
            hit = None
            for m in p:
                for (v, e) in m:
                    if e >= 2 and v in self.sq and self._polyden(v):
                        hit = v; break
                if hit: break
            if hit is None: return p
            n, d = self.sq[hit]
            k = d[()]
            out = {}
            rest = {}
            for m, c in p.items():
                e = 0
                for (v, ee) in m:
                    if v == hit: e = ee
                if e >= 2:
                    m2 = tuple((v, ee) for v, ee in m if v != hit)
                    if e % 2: m2 = m_mul(m2, ((hit, 1),))
                    rest.setdefault(e // 2, {})[m2] = c
                else:
                    out[m] = c
            for h, pp in rest.items():
                f = pp
                for _ in range(h): f = p_scale(p_mul(f, n), 1 / k)
                out = p_add(out, f)
            p = out

    def _polyden(self, v):
        d = self.sq[v][1]
        return len(d) == 1 and () in d

    def zero_num(self, t):
        """numerator polynomial of t, with sqrt atoms whose radicands are rational cleared"""
        n, d = self.rat(t)
        while True:
            hit = None
            for m in n:
                for (v, e) in m:
                    if v in self.sq and e >= 2: hit = v; break
                if hit: break
            if hit is None: return n
            rn, rd = self.sq[hit]
            mx = 0
            parts = {}
            for m, c in n.items():
                e = 0
                for (v, ee) in m:
                    if v == hit: e = ee
                m2 = tuple((v, ee) for v, ee in m if v != hit)
                parts.setdefault(e, {})[m2] = c
                mx = max(mx, e // 2)
            out = {}
            for e, pp in parts.items():
                f = pp
                for _ in range(e // 2): f = p_mul(f, rn)
                for _ in range(mx - e // 2): f = p_mul(f, rd)
                if e % 2: f = p_mul(f, {((hit, 1),): Fraction(1)})
                out = p_add(out, f)
            n = out


ONE = {(): Fraction(1)}


def lead(p):
    """leading monomial under a fixed graded order"""
    return max(p, key=lambda m: (sum(e for _, e in m), m))


def m_div(m, d):
    out = []
    dd = dict(d)
    for v, e in m:
        k = dd.pop(v, 0)
        if e < k: return None
        if e > k: out.append((v, e - k))
    if dd: return None
    return tuple(out)


def p_divexact(a, b, limit=3000):
    """exact quotient a/b or None"""
    if b is a: return ONE
    if len(b) == 1:
        (mb, cb), = b.items()
        out = {}
        for m, c in a.items():
            q = m_div(m, mb)
            if q is None: return None
            out[q] = c / cb
        return out
    if len(a) < len(b) or len(a) * len(b) > 200000: return None if a != b else ONE
    lb = lead(b); cb = b[lb]
    q = {}
    r = dict(a)
    steps = 0
    while r:
        lm = lead(r)
        t = m_div(lm, lb)
        if t is None: return None
        c = r[lm] / cb
        q[t] = c
        r = p_add(r, p_scale(p_mul({t: Fraction(1)}, b), -c))
        steps += 1
        if steps > limit: return None
    return q


def cancel(n, d):
    """cancel common factor when one divides the other"""
    if not n: return n, d
    if len(d) == 1 and () in d:
        return (p_scale(n, 1 / d[()]), ONE) if d[()] != 1 else (n, d)
    q = p_divexact(n, d)
    if q is not None: return q, ONE
    if len(n) > 1 or () not in n:
        q = p_divexact(d, n)
        if q is not None: return ONE, q
    return n, d


def poly_of_int(t, memo):
    """polynomial (integer coeffs) of an int term over atoms"""
    if not isinstance(t, T): return {(): t} if t else {}
    for x in topo([t]):
        if x.id in memo: continue
        g = lambda y: memo[y.id] if isinstance(y, T) else ({(): y} if y else {})
        if x.op == 'add' and x.sort == 'I': memo[x.id] = p_add(g(x.args[0]), g(x.args[1]))
        elif x.op == 'mul' and x.sort == 'I': memo[x.id] = p_mul(g(x.args[0]), g(x.args[1]))
        else:
            memo[x.id] = {((x.id, 1),): 1}
            ATOM[x.id] = x
    return memo[t.id]


ATOM = {}


def from_poly_int(p):
    r = 0
    for m, c in sorted(p.items()):
        t = c
        for v, e in m:
            for _ in range(e): t = mul(t, ATOM[v])
        r = add(r, t)
    return r


# ---------------------------------------------------------------- simplification through the normal form
SIMP = {}


def from_poly(P, p):
    r = Fraction(0)
    for m, c in sorted(p.items(), key=lambda x: (len(x[0]), x[0])):
        t = c
        for v, e in m:
            for _ in range(e): t = mul(t, P.atoms[v])
        r = add(r, t)
    return r


def norm_rat(t, P, lim=60000):
    """(num, den) after cancelling, or None if it grows too large"""
    global LIMIT
    old = LIMIT; LIMIT = lim
    try:
        n, d = P.rat(t)
        n, d = cancel(n, d)
        return n, d
    except TooBig:
        return None
    finally:
        LIMIT = old


def simp(t, maxm=24):
    """rewrite a real term by its cancelled rational normal form when that is small (equal wherever defined)"""
    if not isinstance(t, T) or t.sort != 'R': return t
    r = SIMP.get(t.id)
    if r is None:
        P = Poly()
        q = norm_rat(t, P)
        r = t
        if q is not None and len(q[0]) + len(q[1]) <= maxm:
            r = div(from_poly(P, q[0]), from_poly(P, q[1]))
        SIMP[t.id] = r
    return r


def p_sqrt(p):
    """polynomial square root of a perfect square, else None"""
    if not p: return {}
    lm = lead(p); c = isqrt_frac(Fraction(p[lm])) if p[lm] > 0 else None
    if c is None or any(e % 2 for _, e in lm): return None
    s = {tuple((v, e // 2) for v, e in lm): c}
    ls = next(iter(s)); k = 0
    r = p_add(p, p_scale(p_mul(s, s), -1))
    while r:
        m = lead(r); t = m_div(m, ls)
        if t is None or k > 200: return None
        nt = {t: r[m] / (2 * c)}
        # (s+nt)^2 = s^2 + 2 s nt + nt^2
        r = p_add(r, p_scale(p_add(p_scale(p_mul(s, nt), 2), p_mul(nt, nt)), -1))
        if t in s: return None
        s = p_add(s, nt); k += 1
    return s


def sqrt_simp(t, positive):
    """sqrt of a term whose normal form is a perfect square; positive(x) -> True when x >= 0 is known"""
    if not isinstance(t, T): return sqrt(t)
    P = Poly()
    q = norm_rat(t, P)
    if q is None: return sqrt(t)
    n, d = p_sqrt(q[0]), p_sqrt(q[1])
    if n is None or d is None:
        return sqrt(simp(t))

    def ab(p):
        # factor out a monomial, treat each factor separately
        m = None
        for k in p:
            kk = dict(k)
            m = kk if m is None else {v: min(e, kk.get(v, 0)) for v, e in m.items() if kk.get(v, 0)}
        r = Fraction(1)
        mm = tuple(sorted(m.items()))
        rest = {m_div(k, mm): c for k, c in p.items()}
        for v, e in mm:
            a = P.atoms[v]
            a = a if positive(a) else ite(ge(a, 0), a, neg(a))
            for _ in range(e): r = mul(r, a)
        t = from_poly(P, rest)
        if not isinstance(t, T): return mul(r, abs(t))
        if positive(t): return mul(r, t)
        if positive(neg(t)): return mul(r, neg(t))
        return mul(r, ite(ge(t, 0), t, neg(t)))
    return div(ab(n), ab(d))
