"""Trusted models of C/C++ runtime functions reached from the verified code (see DESIGN.md, trusted base)."""
import math
from fractions import Fraction
import expr as E
from expr import T
import interp as I


def _new(ip, st, a, rt):
    n = a[0]
    if isinstance(n, T): n = ip.conc(st, n)
    return ip.alloc(st, n, 'heap', 'heap')


def _delete(ip, st, a, rt):
    p = a[0]
    if isinstance(p, I.Ptr) and p.o:
        o = st.mem[p.o]
        if o.freed: raise I.MemErr('double free')
        if p.off != 0: raise I.MemErr('free of interior pointer')
        ip.wobj(st, p.o).freed = True
    return None


def _memcpy(ip, st, a, rt):
    ip.memcpy(st, a[0], a[1], a[2]); return a[0]


def _memset(ip, st, a, rt):
    v = a[1]
    ip.memset(st, a[0], v & 255 if isinstance(v, int) else v, a[2]); return a[0]


def _memcmp(ip, st, a, rt):
    n = a[2]
    if isinstance(n, T): raise I.Unsupported('memcmp')
    for i in range(n):
        x = ip.load(st, I.IntTy(8), ip.padd(a[0], i)); y = ip.load(st, I.IntTy(8), ip.padd(a[1], i))
        if not isinstance(x, int) or not isinstance(y, int): raise I.Unsupported('memcmp symbolic')
        if x != y: return (1 if x > y else -1) & 0xffffffff
    return 0


def _strlen(ip, st, a, rt):
    i = 0
    while True:
        x = ip.load(st, I.IntTy(8), ip.padd(a[0], i))
        if not isinstance(x, int): raise I.Unsupported('strlen')
        if x == 0: return i
        i += 1


def _sqrt(ip, st, a, rt):
    x = a[0]
    if x is I.UNDEF: return x
    if isinstance(x, float): return x
    if isinstance(x, T):
        ip.side(st, 'sqrt of nonnegative', E.ge(ip.fsimp(x), 0))
        if ip.simp:
            c = ip.root_of(x)
            if c is not None:
                if isinstance(c, T): ip.side(st, 'declared root is nonnegative', E.ge(c, 0))
                return c
            return E.sqrt_simp(x, lambda y: ip.nonneg(st, y))
        return E.sqrt(x)
    if x < 0: return float('nan')
    return E.sqrt(x)


def _floor(ip, st, a, rt):
    x = a[0]
    if not isinstance(x, T): return Fraction(math.floor(x))
    r = ip.ifloor(st, x)
    return E.toreal(r) if isinstance(r, T) else Fraction(r)


def _ceil(ip, st, a, rt):
    x = a[0]
    return E.toreal(E.neg(E.floor(E.neg(x)))) if isinstance(x, T) else Fraction(math.ceil(x))


def _trunc(ip, st, a, rt):
    x = a[0]
    if not isinstance(x, T): return Fraction(int(x))
    return E.toreal(E.ite(E.ge(x, 0), E.floor(x), E.neg(E.floor(E.neg(x)))))


def _round(ip, st, a, rt):
    x = a[0]
    h = Fraction(1, 2)
    if not isinstance(x, T):
        return Fraction(math.floor(x + h) if x >= 0 else -math.floor(-x + h))
    if ip.ints:
        x = ip.fsimp(x)
        if not isinstance(x, T): return _round(ip, st, [x], rt)
        c = ip.icand(st, x)
        if c is not None:
            d = ip.fsimp(E.sub(x, E.toreal(c)))
            up = E.toreal(E.add(c, 1)) if isinstance(c, T) else Fraction(c + 1)
            lo = E.toreal(c) if isinstance(c, T) else Fraction(c)
            out = []
            for cond, val in ((E.lt(d, h), lo), (E.or_(E.gt(d, h), E.and_(E.eq(d, h), E.ge(x, 0))), up), (E.and_(E.eq(d, h), E.lt(x, 0)), lo)):
                if cond is False: continue
                if cond is not True and not ip.solver.feasible(st.pc, st.pcs, cond): continue
                out.append((cond, val))
            if len(out) == 1:
                st.assume(out[0][0]); return out[0][1]
            items = []
            for cond, val in out:
                s2 = st.clone(); s2.assume(cond); items.append((s2, val))
            import interp
            return interp.Multi(items)
    return E.toreal(E.ite(E.ge(x, 0), E.floor(E.add(x, h)), E.neg(E.floor(E.sub(h, x)))))


def _lround(ip, st, a, rt):
    r = _round(ip, st, a, rt)
    if isinstance(r, T): return E.floor(r)
    return int(r) & ((1 << 64) - 1)


def _rint(ip, st, a, rt):
    x = a[0]
    if not isinstance(x, T): return Fraction(round(x))
    f = E.floor(x); d = E.sub(x, E.toreal(f)); h = Fraction(1, 2)
    return E.toreal(E.ite(E.lt(d, h), f, E.ite(E.gt(d, h), E.add(f, 1), E.ite(E.eq(E.imod(f, 2), 0), f, E.add(f, 1)))))


def _fabs(ip, st, a, rt):
    x = a[0]
    if isinstance(x, float): return abs(x)
    return E.abs_(x)


def _copysign(ip, st, a, rt):
    x, y = a[0], a[1]
    m = E.abs_(x)
    return E.ite(E.ge(y, 0), m, E.neg(m))


def _fmax(ip, st, a, rt):
    return E.ite(E.ge(a[0], a[1]), a[0], a[1])


def _fmin(ip, st, a, rt):
    return E.ite(E.le(a[0], a[1]), a[0], a[1])


def _fma(ip, st, a, rt):
    return E.add(E.mul(a[0], a[1]), a[2])


def _uf(name):
    def f(ip, st, a, rt):
        if isinstance(a[0], float): raise I.Unsupported(name)
        if name == 'log' and not isinstance(a[0], T) and a[0] == 1: return Fraction(0)
        if name == 'log': ip.side(st, 'log of positive', E.gt(a[0], 0))
        return E.uf(name, tuple(E._wrap(x, 'R') if isinstance(x, T) else Fraction(x) for x in a), 'R')
    return f


def _pow(ip, st, a, rt):
    x, y = a
    if not isinstance(y, T) and y.denominator == 1:
        n = int(y)
        r = Fraction(1)
        for _ in range(abs(n)): r = E.mul(r, x)
        if n < 0:
            if isinstance(r, T): ip.side(st, 'nonzero divisor', E.ne(r, 0))
            return E.div(Fraction(1), r)
        return r
    if not isinstance(y, T) and y == Fraction(1, 2): return _sqrt(ip, st, a, rt)
    return E.uf('pow', (x, y), 'R')


def _powi(ip, st, a, rt):
    n = a[1]
    return _pow(ip, st, [a[0], Fraction(I.sgn(n, 32))], rt)


def _guard_acquire(ip, st, a, rt):
    v = ip.load(st, I.IntTy(8), a[0])
    return 0 if v == 1 else 1


def _guard_release(ip, st, a, rt):
    ip.store(st, I.IntTy(8), 1, a[0])


def _zero32(ip, st, a, rt): return 0


def _throw(what):
    def f(ip, st, a, rt): return I.Throw(what)
    return f


def _cxa_alloc(ip, st, a, rt): return ip.alloc(st, a[0], 'exception', 'heap')


def _cxa_throw(ip, st, a, rt):
    ti = a[1]
    nm = ''
    if isinstance(ti, I.Ptr): nm = st.mem[ti.o].name
    return I.Throw(nm)


def _abort(ip, st, a, rt): raise I.MemErr('abort')


def _expect(ip, st, a, rt): return a[0]


def _bswap(ip, st, a, rt): raise I.Unsupported('bswap')


def _umax(ip, st, a, rt):
    n = rt.n
    x, y = ip.observe(st, a[0], n, False), ip.observe(st, a[1], n, False)
    return E.ite(E.ge(x, y), x, y)


def _umin(ip, st, a, rt):
    n = rt.n
    x, y = ip.observe(st, a[0], n, False), ip.observe(st, a[1], n, False)
    return E.ite(E.le(x, y), x, y)


def _smax(ip, st, a, rt):
    n = rt.n
    x, y = ip.observe(st, a[0], n, True), ip.observe(st, a[1], n, True)
    r = E.ite(E.ge(x, y), x, y)
    return r & ((1 << n) - 1) if isinstance(r, int) else r


def _smin(ip, st, a, rt):
    n = rt.n
    x, y = ip.observe(st, a[0], n, True), ip.observe(st, a[1], n, True)
    r = E.ite(E.le(x, y), x, y)
    return r & ((1 << n) - 1) if isinstance(r, int) else r


def _iabs(ip, st, a, rt):
    x = ip.observe(st, a[0], rt.n, True)
    r = E.abs_(x)
    return r & ((1 << rt.n) - 1) if isinstance(r, int) else r


def _mulo(signed):
    def f(ip, st, a, rt):
        n = rt.elts[0].n
        x, y = ip.observe(st, a[0], n, signed), ip.observe(st, a[1], n, signed)
        p = E.mul(x, y)
        lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if signed else (0, (1 << n) - 1)
        o = E.or_(E.lt(p, lo), E.gt(p, hi))
        if isinstance(o, T):
            if ip.solver.valid(st.pc, E.not_(o), quick=True) is True: o = False
        return [p & ((1 << n) - 1) if isinstance(p, int) else p, o]
    return f


def _is_fpclass(ip, st, a, rt):
    x, m = a
    if isinstance(x, float):
        raise I.Unsupported('is.fpclass')
    if m & 3 and not (m & ~3): return False   # isnan
    if m & 0x204 and not (m & ~0x204): return False   # isinf
    if m == 504: return True
    raise I.Unsupported('is.fpclass %d' % m)


TABLE = {
    '_Znwm': _new, '_Znam': _new, 'malloc': _new, '_ZnwmSt11align_val_t': _new,
    '_ZdlPv': _delete, '_ZdlPvm': _delete, '_ZdaPv': _delete, 'free': _delete, '_ZdaPvm': _delete,
    'memcpy': _memcpy, 'memmove': _memcpy, 'memset': _memset, 'memcmp': _memcmp, 'bcmp': _memcmp, 'strlen': _strlen,
    'sqrt': _sqrt, 'floor': _floor, 'ceil': _ceil, 'trunc': _trunc, 'round': _round, 'lround': _lround, 'llround': _lround,
    'rint': _rint, 'nearbyint': _rint, 'fabs': _fabs, 'pow': _pow, 'log': _uf('log'), 'exp': _uf('exp'), 'sin': _uf('sin'), 'cos': _uf('cos'),
    'fmax': _fmax, 'fmin': _fmin, 'copysign': _copysign, 'cbrt': _uf('cbrt'), 'acos': _uf('acos'), 'atan2': _uf('atan2'), 'hypot': _uf('hypot'),
    '__cxa_guard_acquire': _guard_acquire, '__cxa_guard_release': _guard_release, '__cxa_atexit': _zero32,
    '__cxa_allocate_exception': _cxa_alloc, '__cxa_throw': _cxa_throw, 'abort': _abort, '__assert_fail': _abort, '_ZSt21__glibcxx_assert_failPKciS0_S0_': _abort,
    '_ZSt17__throw_bad_allocv': _throw('std::bad_alloc'), '_ZSt20__throw_length_errorPKc': _throw('std::length_error'),
    '_ZSt28__throw_bad_array_new_lengthv': _throw('std::bad_array_new_length'), '_ZSt19__throw_logic_errorPKc': _throw('std::logic_error'),
    '_ZSt24__throw_out_of_range_fmtPKcz': _throw('std::out_of_range'), '_ZSt20__throw_out_of_rangePKc': _throw('std::out_of_range'),
    '_ZSt25__throw_bad_function_callv': _throw('std::bad_function_call'),
}
PREFIX = [
    ('llvm.lifetime', 'skip'), ('llvm.dbg', 'skip'), ('llvm.assume', 'skip'), ('llvm.experimental.noalias', 'skip'),
    ('llvm.invariant', 'skip'), ('llvm.prefetch', 'skip'), ('llvm.stacksave', None), ('llvm.stackrestore', 'skip'),
    ('llvm.memcpy', _memcpy), ('llvm.memmove', _memcpy), ('llvm.memset', _memset),
    ('llvm.sqrt', _sqrt), ('llvm.floor', _floor), ('llvm.ceil', _ceil), ('llvm.trunc', _trunc), ('llvm.round.', _round),
    ('llvm.lround', _lround), ('llvm.llround', _lround), ('llvm.rint', _rint), ('llvm.nearbyint', _rint),
    ('llvm.fabs', _fabs), ('llvm.copysign', _copysign), ('llvm.pow.', _pow), ('llvm.powi', _powi), ('llvm.log.', _uf('log')), ('llvm.exp.', _uf('exp')),
    ('llvm.maxnum', _fmax), ('llvm.minnum', _fmin), ('llvm.maximum', _fmax), ('llvm.minimum', _fmin),
    ('llvm.fmuladd', _fma), ('llvm.fma', _fma), ('llvm.expect', _expect),
    ('llvm.umax', _umax), ('llvm.umin', _umin), ('llvm.smax', _smax), ('llvm.smin', _smin), ('llvm.abs', _iabs),
    ('llvm.umul.with.overflow', _mulo(False)), ('llvm.smul.with.overflow', _mulo(True)), ('llvm.is.fpclass', _is_fpclass),
    ('llvm.trap', _abort), ('llvm.sin', _uf('sin')), ('llvm.cos', _uf('cos')),
]


def _str_create(ip, st, a, rt):
    """std::string::_M_create(capacity &, old capacity)"""
    import irparse
    n = ip.load(st, irparse.IntTy(64), a[1])
    if isinstance(n, T) or isinstance(a[2], T): raise I.Unsupported('symbolic string length')
    if n > a[2] and n < 2 * a[2]:
        n = 2 * a[2]; ip.store(st, irparse.IntTy(64), n, a[1])
    return ip.alloc(st, n + 1, 'heap', 'heap')


def _str_data(ip, st, p):
    import irparse
    return ip.load(st, irparse.PTR, p), ip.load(st, irparse.IntTy(64), ip.padd(p, 8))


def _str_set(ip, st, p, bs):
    """give the string at p these bytes (its buffer is renewed when it is too small)"""
    import irparse
    i8 = irparse.IntTy(8); i64 = irparse.IntTy(64)
    d, n = _str_data(ip, st, p)
    local = isinstance(d, I.Ptr) and d.o == p.o and d.off == ip.padd(p, 16).off
    cap = 15 if local else ip.load(st, i64, ip.padd(p, 16))
    if len(bs) > cap:
        if not local: ip.wobj(st, d.o).freed = True
        d = ip.alloc(st, len(bs) + 1, 'heap', 'heap'); ip.store(st, irparse.PTR, d, p); ip.store(st, i64, len(bs), ip.padd(p, 16))
    for k, b in enumerate(list(bs) + [0]): ip.store(st, i8, b, ip.padd(d, k))
    ip.store(st, i64, len(bs), ip.padd(p, 8))


def _str_bytes(ip, st, d, n):
    import irparse
    if isinstance(n, T): raise I.Unsupported('symbolic string length')
    return [ip.load(st, irparse.IntTy(8), ip.padd(d, k)) for k in range(n)]


def _str_assign(ip, st, a, rt):
    if (a[0].o, a[0].off) != (a[1].o, a[1].off): _str_set(ip, st, a[0], _str_bytes(ip, st, *_str_data(ip, st, a[1])))


def _str_append(ip, st, a, rt):
    _str_set(ip, st, a[0], _str_bytes(ip, st, *_str_data(ip, st, a[0])) + _str_bytes(ip, st, a[1], a[2]))
    return a[0]


def _str_replace(ip, st, a, rt):
    x = _str_bytes(ip, st, *_str_data(ip, st, a[0]))
    if isinstance(a[1], T) or isinstance(a[2], T): raise I.Unsupported('symbolic string length')
    _str_set(ip, st, a[0], x[:a[1]] + _str_bytes(ip, st, a[3], a[4]) + x[a[1] + a[2]:])
    return a[0]


def _str_fill(ip, st, a, rt):
    n = ip.conc(st, a[1]) if isinstance(a[1], T) else a[1]
    _str_set(ip, st, a[0], [a[2]] * n)


_S = '_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE'
TABLE.update({_S + '9_M_createERmm': _str_create, _S + '9_M_assignERKS4_': _str_assign, _S + '12_M_constructEmc': _str_fill, _S + '9_M_appendEPKcm': _str_append, _S + '10_M_replaceEmmPKcm': _str_replace})


def _next_bkt(ip, st, p, n):
    """std::__detail::_Prime_rehash_policy::_M_next_bkt with a load factor of 1: a prime not less than n"""
    if isinstance(n, T): raise I.Unsupported('symbolic hash table size')
    b = max(n, 2)
    while any(b % d == 0 for d in range(2, int(b ** .5) + 1)): b += 1
    ip.store(st, I.IntTy(64), b, ip.padd(p, 8))
    return b


def _need_rehash(ip, st, a, rt):
    p, nb, ne, ni = a
    nr = ip.load(st, I.IntTy(64), ip.padd(p, 8))
    if any(isinstance(x, T) for x in (nb, ne, ni, nr)): raise I.Unsupported('symbolic hash table size')
    if ne + ni > nr:
        m = max(ne + ni, 0 if nr else 11)
        if m >= nb: return [1, _next_bkt(ip, st, p, max(m + 1, nb * 2))]
        ip.store(st, I.IntTy(64), nb, ip.padd(p, 8))
    return [0, 0]


def _ctpop(ip, st, a, rt):
    if isinstance(a[0], T): raise I.Unsupported('ctpop symbolic')
    return bin(a[0]).count('1')


PREFIX.append(('llvm.ctpop', _ctpop))
TABLE.update({'_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm': _need_rehash, '_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm': lambda ip, st, a, rt: _next_bkt(ip, st, a[0], a[1])})


def _stacksave(ip, st, a, rt): return I.NULL


def lookup(nm, dem):
    if nm in TABLE: return TABLE[nm]
    if nm.startswith('llvm.'):
        if nm.startswith('llvm.stacksave'): return _stacksave
        for p, h in PREFIX:
            if nm.startswith(p): return h
    if nm.startswith('_ZNSt') and dem.startswith('std::') and ('runtime_error::' in dem or 'logic_error::' in dem or 'domain_error::' in dem or 'invalid_argument::' in dem or 'out_of_range::' in dem):
        return 'skip'
    if nm in ('__cxa_free_exception',): return 'skip'
    return None
