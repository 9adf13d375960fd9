"""Symbolic execution of LLVM IR: generates the verification conditions.

Doubles are mathematical reals, iN are mathematical integers modulo 2^N (range obligations are generated
wherever a representative is observed).  Every symbolic branch forks; each path ends in an Outcome."""
import math, re
from fractions import Fraction
import irparse
from irparse import sizeof, layout, IntTy
import expr as E
from expr import T

UNDEF = type('Undef', (), {'__repr__': lambda s: 'UNDEF'})()


class Split(Exception):
    """restart the instruction once for each value of a variable"""
    def __init__(self, x, lo, hi): self.x, self.lo, self.hi = x, lo, hi


class Unsupported(Exception):
    pass


class Ptr:
    __slots__ = ('o', 'off')

    def __init__(self, o, off):
        self.o = o; self.off = off

    def __repr__(self): return 'Ptr(%d,%s)' % (self.o, self.off if not isinstance(self.off, T) else E.show(self.off, 3))

    def __eq__(self, b): return isinstance(b, Ptr) and self.o == b.o and (self.off is b.off or self.off == b.off)

    def __hash__(self): return hash((self.o, self.off))


NULL = Ptr(0, 0)


class Fn:
    __slots__ = ('name',)

    def __init__(self, n): self.name = n

    def __repr__(self): return 'Fn(%s)' % self.name

    def __eq__(self, b): return isinstance(b, Fn) and self.name == b.name

    def __hash__(self): return hash(self.name)


class Bits:
    """raw bits of a non-integer value seen through an integer-typed load"""
    __slots__ = ('v', 'n')

    def __init__(self, v, n): self.v = v; self.n = n


class Obj:
    __slots__ = ('id', 'size', 'cells', 'name', 'kind', 'freed', 'sym', 'log', 'zero')

    def clone(self):
        o = Obj(); o.id = self.id; o.size = self.size; o.cells = dict(self.cells); o.name = self.name
        o.kind = self.kind; o.freed = self.freed; o.sym = self.sym; o.log = list(self.log); o.zero = self.zero
        return o


class Frame:
    __slots__ = ('f', 'b', 'prev', 'ip', 'env', 'ret', 'ctx')

    def clone(self):
        g = Frame(); g.f = self.f; g.b = self.b; g.prev = self.prev; g.ip = self.ip; g.env = dict(self.env); g.ret = self.ret
        g.ctx = dict(self.ctx) if self.ctx else None
        return g


class State:
    __slots__ = ('frames', 'mem', 'owned', 'pc', 'pcs', 'side', 'next', 'globals', 'steps', 'ghost', 'trace')

    def clone(self):
        s = State()
        s.frames = [f.clone() for f in self.frames]
        s.mem = dict(self.mem); s.owned = set(); self.owned = set()
        s.pc = list(self.pc); s.pcs = set(self.pcs); s.side = list(self.side); s.next = self.next
        s.globals = dict(self.globals); s.steps = self.steps
        s.ghost = {k: (v.copy() if hasattr(v, 'copy') else v) for k, v in self.ghost.items()}
        s.trace = list(self.trace)
        return s

    def assume(self, c):
        if isinstance(c, bool):
            return c
        if c.op == 'and':
            ok = True
            for x in c.args: ok = self.assume(x) and ok
            return ok
        if c.id not in self.pcs:
            self.pcs.add(c.id); self.pc.append(c)
        return True


class Outcome:
    def __init__(self, kind, st, val=None, info=None):
        self.kind = kind; self.st = st; self.val = val; self.info = info


import os
DBG = os.environ.get('VERIF_DBG')
ADDR_SHIFT = 40


class Interp:
    def __init__(self, module, solver, demangle=None, contracts=None, max_steps=3000000, max_paths=4000, define_mode='prove'):
        self.m = module
        self.solver = solver          # .feasible(pc, c) -> bool ; .valid(pc, c) -> True/False/None
        self.demangle = demangle or {}
        self.contracts = contracts or []   # list of (compiled regex, handler)
        self.max_steps = max_steps; self.max_paths = max_paths
        self.ccache = {}
        self.unsup = None
        self.used_contracts = {}
        self.used_lib = {}
        self.entered = set()
        self.loop_hooks = []; self.aux = []; self.nbranch = 0; self.loops_cut = 0
        self.ints = []                # candidate floors of real terms (checked before use)
        self.quots = []               # candidate quotients of integer divisions (checked before use)
        self.simp = False; self.roots = []; self.rcache = {}
        self.stats = {'steps': 0, 'paths': 0, 'forks': 0}

    def root_of(self, x):
        """a declared candidate whose square equals x (checked by the normal form)"""
        if not self.roots or not isinstance(x, T): return None
        if x.id not in self.rcache:
            r = None
            for c in self.roots:
                if self.solver.prove_eq(x, E.mul(c, c)) is True: r = c; break
            self.rcache[x.id] = r
        return self.rcache[x.id]

    def fsimp(self, x):
        if not self.simp or not isinstance(x, T): return x
        c = self.root_of(x)
        if c is not None: return E.mul(c, c)
        return E.simp(x)

    def nonneg(self, st, y):
        c = E.ge(y, 0)
        if isinstance(c, bool): return c
        if c.id in st.pcs or E.gt(y, 0).id in st.pcs: return True
        return self.solver.valid(st.pc, c, quick=True) is True

    # ------------------------------------------------------------ state
    def new_state(self):
        s = State(); s.frames = []; s.mem = {}; s.owned = set(); s.pc = []; s.pcs = set(); s.side = []; s.next = 1
        s.globals = {}; s.steps = 0; s.ghost = {}; s.trace = []
        return s

    def alloc(self, st, size, name, kind):
        o = Obj(); o.id = st.next; st.next += 1; o.size = size; o.cells = {}; o.name = name; o.kind = kind; o.freed = False
        o.sym = None; o.log = []; o.zero = False
        st.mem[o.id] = o; st.owned.add(o.id)
        return Ptr(o.id, 0)

    def wobj(self, st, oid):
        o = st.mem[oid]
        if oid not in st.owned:
            o = o.clone(); st.mem[oid] = o; st.owned.add(oid)
        return o

    def obj(self, st, p, n):
        if not isinstance(p, Ptr): raise Unsupported('access through %r' % (p,))
        if p.o == 0: raise MemErr('null dereference')
        o = st.mem[p.o]
        if o.freed: raise MemErr('use after free of ' + o.name)
        if isinstance(o.size, int) and isinstance(p.off, int):
            if p.off < 0 or p.off + n > o.size:
                raise MemErr('out of bounds access off=%d n=%d in %s (size %d)' % (p.off, n, o.name, o.size))
        return o

    # ------------------------------------------------------------ memory
    def load(self, st, ty, p):
        k = ty.k
        if k in ('struct', 'arr', 'vec'):
            layout(ty)
            if k == 'struct':
                return [self.load(st, e, self.padd(p, o)) for e, o in zip(ty.elts, ty.offs)]
            es = sizeof(ty.elts)
            return [self.load(st, ty.elts, self.padd(p, i * es)) for i in range(ty.n)]
        n = sizeof(ty)
        o = self.obj(st, p, n)
        off = p.off
        if isinstance(off, T) and o.sym is None:
            p = Ptr(p.o, self.conc(st, off, o)); o = self.obj(st, p, n); off = p.off
        if isinstance(off, T) or o.log:
            return self.load_sym(st, o, off, n, ty)
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            return self.coerce(c[1], ty)
        if o.sym is not None and c is None and not self._overlap(o, off, n):
            return self.load_sym(st, o, off, n, ty)
        # assemble from bytes
        bs = self.bytes_at(o, off, n)
        if bs is None:
            return UNDEF
        v = int.from_bytes(bytes(bs), 'little')
        if k == 'i':
            return v & ((1 << ty.n) - 1) if ty.n > 1 else bool(v & 1)
        if k == 'double':
            import struct
            d = struct.unpack('<d', bytes(bs))[0]
            return Fraction(d) if math.isfinite(d) else d
        if k == 'ptr':
            return self.int2ptr(v)
        raise Unsupported('partial load of %r' % ty)

    def _overlap(self, o, off, n):
        c = o.cells
        for d in range(off - 15, off + n):
            x = c.get(d)
            if x is not None and d + x[0] > off: return True
        return False

    def bytes_at(self, o, off, n):
        out = [None] * n
        hit = False
        for d in range(off - 15, off + n):
            x = o.cells.get(d)
            if x is None: continue
            sz, v = x
            if d + sz <= off: continue
            if isinstance(v, bool): v = int(v)
            if isinstance(v, Ptr) and v == NULL: v = 0
            if isinstance(v, Fraction):
                import struct
                b = struct.pack('<d', float(v)) if sz == 8 else struct.pack('<f', float(v))
            elif isinstance(v, int):
                b = (v & ((1 << (8 * sz)) - 1)).to_bytes(sz, 'little')
            elif v is UNDEF:
                return None
            else:
                raise Unsupported('byte view of %r' % (v,))
            for i in range(sz):
                if 0 <= d + i - off < n: out[d + i - off] = b[i]
            hit = True
        if o.zero:
            out = [0 if x is None else x for x in out]; hit = True
        if not hit: return None
        if None in out:
            return [0 if x is None else x for x in out] if all(x is None or True for x in out) and False else None
        return out

    def coerce(self, v, ty):
        if v is UNDEF: return v
        k = ty.k
        if k == 'i':
            if isinstance(v, Bits):
                return v
            if isinstance(v, (Fraction, float)) or (isinstance(v, T) and v.sort == 'R'):
                return Bits(v, ty.n)
            if isinstance(v, Ptr) or isinstance(v, Fn):
                return Bits(v, ty.n)
            if ty.n == 1:
                if isinstance(v, T) and v.sort == 'I': return E.ne(E.imod(v, 2), 0)
                if isinstance(v, int) and not isinstance(v, bool): return bool(v & 1)
                return v
            if isinstance(v, bool): return int(v)
            if isinstance(v, T) and v.sort == 'B': return E.ite(v, 1, 0)
            return v
        if k in ('double', 'float'):
            if isinstance(v, Bits): return v.v
            if isinstance(v, int) and not isinstance(v, bool):
                import struct
                if v == 0: return Fraction(0)
                d = struct.unpack('<d', v.to_bytes(8, 'little'))[0] if k == 'double' else struct.unpack('<f', v.to_bytes(4, 'little'))[0]
                return Fraction(d) if math.isfinite(d) else d
            return v
        if k == 'ptr':
            if isinstance(v, Bits): return v.v
            if isinstance(v, int): return self.int2ptr(v)
            return v
        return v

    def conc(self, st, t, o=None):
        """an integer needed as a constant: case split on its variables when they have few values"""
        kn = st.ghost.get('known')
        if kn: t = E.subst([t], kn)[0]
        if not isinstance(t, T): return t
        for x in E.free_vars([t]):
            if x.sort != 'I': continue
            lo, hi = self.solver.bounds(x)
            if lo is not None and hi is not None and hi - lo < 8: raise Split(x, lo, hi)
        raise Unsupported('symbolic offset into %s' % o.name if o is not None else 'symbolic size')

    def load_sym(self, st, o, off, n, ty):
        if o.sym is None:
            raise Unsupported('symbolic offset into %s' % o.name)
        kind, es, name, rng = o.sym
        if n != es: raise Unsupported('sized load from symbolic array %s: %d' % (o.name, n))
        idx = self.idx_of(off, es)
        base = self.sel(st, name, kind, idx, rng)
        # bounds obligation
        if o.size is not None:
            sz = o.size if isinstance(o.size, T) else o.size // es
            if isinstance(o.size, T): sz = self.idx_of(o.size, es)
            self.side(st, 'bounds(%s)' % o.name, E.and_(E.le(0, idx), E.lt(idx, sz)))
        for (i2, v2) in o.log:
            base = E.ite(E.eq(idx, i2), v2, base)
        if not o.log and isinstance(off, int):
            c = o.cells.get(off)
            if c: return self.coerce(c[1], ty)
        elif o.cells:
            for c, v in o.cells.items():
                base = E.ite(E.eq(idx, c // es), v[1], base)
        return base

    def sel(self, st, name, kind, idx, rng):
        v = E.uf(name, (self.canon(idx),), kind)
        if rng is not None and isinstance(v, T):
            if rng[0] is not None: st.assume(E.le(rng[0], v))
            if rng[1] is not None: st.assume(E.lt(v, rng[1]))
        return v

    def canon(self, t):
        if not isinstance(t, T): return t
        return E.from_poly_int(E.poly_of_int(t, self._pm))

    _pm = {}

    def idx_of(self, off, es):
        if isinstance(off, int): return off // es
        p = E.poly_of_int(off, self._pm)
        q = {}
        for m, c in p.items():
            if c % es: raise Unsupported('unaligned symbolic offset %s' % E.show(off))
            q[m] = c // es
        return E.from_poly_int(q)

    def store(self, st, ty, v, p):
        k = ty.k
        if k in ('struct', 'arr', 'vec'):
            layout(ty)
            if v is UNDEF: return
            if k == 'struct':
                for e, o, x in zip(ty.elts, ty.offs, v): self.store(st, e, x, self.padd(p, o))
            else:
                es = sizeof(ty.elts)
                for i in range(ty.n): self.store(st, ty.elts, v[i], self.padd(p, i * es))
            return
        n = sizeof(ty)
        if type(v) is int and v < 0 and k == 'i': v &= (1 << ty.n) - 1
        self.obj(st, p, n)
        o = self.wobj(st, p.o)
        off = p.off
        if isinstance(off, T) or o.log:
            if o.sym is None: raise Unsupported('symbolic store into %s' % o.name)
            kind, es, name, rng = o.sym
            if es != n: raise Unsupported('sized symbolic store')
            idx = self.idx_of(off, es)
            if o.size is not None and isinstance(idx, T):
                sz = self.idx_of(o.size, es)
                self.side(st, 'bounds(%s)' % o.name, E.and_(E.le(0, idx), E.lt(idx, sz)))
            # existing concrete cells go to the log first
            for c, vv in sorted(o.cells.items()): o.log.append((c // es, vv[1]))
            o.cells.clear()
            o.log.append((idx, v))
            return
        self.put(o, off, n, v)

    def put(self, o, off, n, v):
        c = o.cells
        x = c.get(off)
        if x is not None and x[0] == n:
            c[off] = (n, v); return
        if c:
            self.clear(o, off, n)
        c[off] = (n, v)

    def clear(self, o, off, n):
        c = o.cells
        if n > 4 * len(c) + 32:
            ds = [d for d in c if d - 0 < off + n and d + c[d][0] > off]
        else:
            ds = [d for d in range(off - 15, off + n) if d in c and d + c[d][0] > off]
        for d in ds:
            sz, v = c.pop(d)
            if d < off or d + sz > off + n:
                # split concrete
                if isinstance(v, bool): v = int(v)
                if v is UNDEF: continue
                if isinstance(v, Ptr) and v == NULL: v = 0
                if isinstance(v, Fraction) and v == 0: v = 0
                if not isinstance(v, int): raise Unsupported('split cell %r' % (v,))
                b = (v & ((1 << (8 * sz)) - 1)).to_bytes(sz, 'little')
                for i in range(sz):
                    if d + i < off or d + i >= off + n: c[d + i] = (1, b[i])

    def memcpy(self, st, dst, src, n):
        if isinstance(n, T): n = self.conc(st, n)
        if n == 0: return
        so = self.obj(st, src, n); self.obj(st, dst, n)
        if isinstance(src.off, T) or isinstance(dst.off, T) or so.log or (so.sym is not None):
            # element-wise
            es = so.sym[1] if so.sym else (st.mem[dst.o].sym[1] if st.mem[dst.o].sym else 8)
            kind = so.sym[0] if so.sym else 'R'
            ty = irparse.F64 if kind == 'R' else IntTy(es * 8)
            vals = [self.load(st, ty, self.padd(src, i)) for i in range(0, n, es)]
            for i, v in enumerate(vals): self.store(st, ty, v, self.padd(dst, i * es))
            return
        s0 = src.off
        items = []
        cells = so.cells
        if n > 4 * len(cells) + 64:
            ks = [d for d in cells if s0 - 16 < d < s0 + n]
        else:
            ks = [d for d in range(s0 - 15, s0 + n) if d in cells]
        for d in ks:
            sz, v = cells[d]
            if d + sz <= s0: continue
            if d < s0 or d + sz > s0 + n:
                bs = self.bytes_at(so, max(d, s0), min(d + sz, s0 + n) - max(d, s0))
                if bs is None: continue
                for i, b in enumerate(bs): items.append((max(d, s0) + i - s0, 1, b))
            else:
                items.append((d - s0, sz, v))
        zero = so.zero
        o = self.wobj(st, dst.o)
        d0 = dst.off
        self.clear(o, d0, n)
        if zero:
            covered = set()
            for d, sz, v in items: covered.update(range(d, d + sz))
            i = 0
            while i < n:
                if i in covered: i += 1; continue
                if i % 8 == 0 and i + 8 <= n and not any(j in covered for j in range(i, i + 8)):
                    o.cells[d0 + i] = (8, 0); i += 8
                else:
                    o.cells[d0 + i] = (1, 0); i += 1
        for d, sz, v in items: o.cells[d0 + d] = (sz, v)

    def memset(self, st, dst, b, n):
        if isinstance(n, T) or isinstance(b, T): raise Unsupported('symbolic memset')
        if n == 0: return
        self.obj(st, dst, n)
        o = self.wobj(st, dst.o)
        if o.sym is not None:
            es = o.sym[1]
            if b != 0: raise Unsupported('memset sym')
            for i in range(0, n, es): self.store(st, irparse.F64 if o.sym[0] == 'R' else IntTy(es * 8), Fraction(0) if o.sym[0] == 'R' else 0, self.padd(dst, i))
            return
        off = dst.off
        self.clear(o, off, n)
        i = 0
        while i < n:
            if (off + i) % 8 == 0 and i + 8 <= n:
                o.cells[off + i] = (8, int.from_bytes(bytes([b]) * 8, 'little')); i += 8
            else:
                o.cells[off + i] = (1, b); i += 1

    def padd(self, p, d):
        if isinstance(p, Ptr):
            if isinstance(d, int) and d == 0: return p
            return Ptr(p.o, E.add(p.off, d))
        raise Unsupported('pointer arithmetic on %r' % (p,))

    def int2ptr(self, v):
        if isinstance(v, Bits): return v.v
        if isinstance(v, T):
            p = E.poly_of_int(v, self._pm)
            c = p.get((), 0)
            o = c >> ADDR_SHIFT
            return Ptr(o, E.sub(v, o << ADDR_SHIFT))
        return Ptr(v >> ADDR_SHIFT, v & ((1 << ADDR_SHIFT) - 1))

    def ptr2int(self, p):
        if isinstance(p, Bits): return self.ptr2int(p.v)
        if isinstance(p, Fn): return (1 << 62) + (hash(p.name) & 0xffffffff) * 16
        return E.add(p.o << ADDR_SHIFT, p.off)

    # ------------------------------------------------------------ obligations
    def side(self, st, name, f):
        if f is True: return
        st.side.append((name, len(st.pc), f, st.frames[-1].f.name if st.frames else ''))

    # ------------------------------------------------------------ globals
    def gaddr(self, st, name):
        name = self.m.aliases.get(name, name)
        if name in self.m.funcs: return Fn(name)
        p = st.globals.get(name)
        if p is None:
            g = self.m.global_(name)
            if g is None: raise Unsupported('unknown global ' + name)
            try:
                size = sizeof(g.ty)
            except TypeError:
                size = None
            p = self.alloc(st, size if not g.external else None, name, 'global')
            st.globals[name] = p
            if g.init is not None:
                self.init(st, p, g.ty, g.init)
            elif g.external and name.startswith('@_ZTV'):
                pass
        return p

    def init(self, st, p, ty, op):
        k = op[0]
        if k == 'undef': return
        if k == 'zero' or (k == 'null'):
            o = self.wobj(st, p.o)
            n = sizeof(ty)
            if n > 4096 and p.off == 0 and n == o.size: o.zero = True
            else:
                self.zinit(o, p.off, ty)
            return
        if k == 'agg':
            layout(ty)
            for i, (et, eo) in enumerate(op[2]):
                off = ty.offs[i] if ty.k == 'struct' else i * sizeof(et)
                self.init(st, self.padd(p, off), et, eo)
            return
        if k == 'str':
            o = self.wobj(st, p.o)
            for i, b in enumerate(op[1]): o.cells[p.off + i] = (1, b)
            return
        self.store(st, ty, self.val(st, None, op, ty), p)

    def zinit(self, o, off, ty):
        layout(ty)
        if ty.k == 'struct':
            for e, eo in zip(ty.elts, ty.offs): self.zinit(o, off + eo, e)
        elif ty.k == 'arr' or ty.k == 'vec':
            es = sizeof(ty.elts)
            for i in range(ty.n): self.zinit(o, off + i * es, ty.elts)
        else:
            o.cells[off] = (ty.size, self.zero(ty))

    def zero(self, ty):
        k = ty.k
        if k == 'i': return False if ty.n == 1 else 0
        if k in ('double', 'float', 'x86_fp80'): return Fraction(0)
        if k == 'ptr': return NULL
        if k == 'struct': return [self.zero(e) for e in ty.elts]
        return [self.zero(ty.elts) for _ in range(ty.n)]

    # ------------------------------------------------------------ operands
    def val(self, st, env, op, ty):
        k = op[0]
        if k == 'l': return env[op[1]]
        if k == 'c':
            v = op[1]
            if ty is not None and ty.k == 'i' and ty.n == 1 and not isinstance(v, bool): return bool(v & 1)
            return v
        if k == 'g': return self.gaddr(st, op[1])
        if k == 'null': return NULL if ty is None or ty.k == 'ptr' else self.zero(ty)
        if k == 'undef': return UNDEF
        if k == 'zero': return self.zero(ty)
        if k == 'agg': return [self.val(st, env, o, t) for t, o in op[2]]
        if k == 'gep':
            base = self.val(st, env, op[2], irparse.PTR)
            return self.gep(st, env, op[1], base, op[3])
        if k == 'cast':
            v = self.val(st, env, op[3], op[2])
            return self.cast(st, op[1], op[2], v, op[4])
        if k == 'cbin':
            return self.binop(st, op[1], op[2], self.val(st, env, op[3], op[2]), self.val(st, env, op[4], op[2]), ())
        if k == 'meta': return None
        if k == 'str': return list(op[1])
        raise Unsupported('operand %r' % (op,))

    def gep(self, st, env, ty, base, idx):
        off = 0
        first = True
        t = ty
        for it, io in idx:
            v = self.val(st, env, io, it)
            if isinstance(v, int): v = sgn(v, it.n)
            elif isinstance(v, T):
                v = self.observe(st, v, it.n, True)
            if first:
                off = E.add(off, E.mul(v, sizeof(t))); first = False
            elif t.k == 'struct':
                layout(t)
                off = E.add(off, t.offs[v]); t = t.elts[v]
            else:
                t = t.elts
                off = E.add(off, E.mul(v, sizeof(t)))
        if isinstance(base, Fn):
            if isinstance(off, int) and off == 0: return base
            raise Unsupported('gep on function')
        if isinstance(base, Bits): base = base.v
        if base is UNDEF: return UNDEF
        return self.padd(base, off)

    # ------------------------------------------------------------ integers
    def observe(self, st, t, n, signed):
        """representative of t (ring value mod 2^n) in the signed / unsigned range"""
        if isinstance(t, bool): return int(t)
        if isinstance(t, int):
            return sgn(t, n) if signed else t & ((1 << n) - 1)
        if isinstance(t, T) and t.sort == 'B': return E.ite(t, 1, 0)
        lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if signed else (0, (1 << n) - 1)
        if t.op == 'ite':
            a = t.args[1] if isinstance(t.args[1], T) else self.observe(st, t.args[1], n, signed)
            b = t.args[2] if isinstance(t.args[2], T) else self.observe(st, t.args[2], n, signed)
            if a is not t.args[1] or b is not t.args[2]:
                t = E.ite(t.args[0], a, b)
                if not isinstance(t, T): return t
        b = self.solver.bounds(t)
        if b[0] is not None and b[0] >= lo and b[1] is not None and b[1] <= hi: return t
        f = E.and_(E.le(lo, t), E.le(t, hi))
        r = self.solver.valid(st.pc, f, quick=True)
        if r is True: return t
        # try a shifted representative
        M = 1 << n
        for sh in (M, -M):
            b2 = E.add(t, sh)
            f2 = E.and_(E.le(lo, b2), E.le(b2, hi))
            if self.solver.valid(st.pc, f2, quick=True) is True: return b2
        # modular semantics
        if signed:
            return E.sub(E.imod(E.add(t, M >> 1), M), M >> 1)
        return E.imod(t, M)

    def binop(self, st, op, ty, a, b, flags):
        if ty.k == 'vec':
            return [self.binop(st, op, ty.elts, x, y, flags) for x, y in zip(a, b)]
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if ty.k in ('double', 'float', 'x86_fp80'):
            if isinstance(a, float) or isinstance(b, float):
                return self.fspecial(op, a, b)
            if op == 'fadd': return E.add(a, b)
            if op == 'fsub': return E.sub(a, b)
            if op == 'fmul': return E.mul(a, b)
            if op == 'fdiv':
                if not isinstance(b, T):
                    if b == 0:
                        if isinstance(a, T): raise Unsupported('division of symbolic by 0')
                        if a == 0: return float('nan')
                        return float('inf') if a > 0 else float('-inf')
                    return E.div(a, b)
                self.side(st, 'nonzero divisor', E.ne(b, 0))
                return E.div(a, b)
            raise Unsupported(op)
        n = ty.n
        if n == 1:
            a = self.b1(a); b = self.b1(b)
            if op == 'and': return E.and_(a, b)
            if op == 'or': return E.or_(a, b)
            if op in ('xor', 'add', 'sub'): return E.not_(E.iff(a, b)) if not isinstance(b, bool) and not isinstance(a, bool) else (
                E.not_(a) if b is True else a if b is False else E.not_(b) if a is True else b)
            if op == 'mul': return E.and_(a, b)
            raise Unsupported('i1 ' + op)
        if isinstance(a, Bits) or isinstance(b, Bits):
            if isinstance(a, Bits) and isinstance(a.v, Ptr): a = self.ptr2int(a.v)
            if isinstance(b, Bits) and isinstance(b.v, Ptr): b = self.ptr2int(b.v)
            if isinstance(a, Bits) or isinstance(b, Bits):
                raise Unsupported('integer op on raw bits')
        mask = (1 << n) - 1
        if isinstance(a, T) and a.sort == 'B': a = E.ite(a, 1, 0)
        if isinstance(b, T) and b.sort == 'B': b = E.ite(b, 1, 0)
        if not isinstance(a, T) and not isinstance(b, T):
            a = int(a); b = int(b)
            if op == 'add': return (a + b) & mask
            if op == 'sub': return (a - b) & mask
            if op == 'mul': return (a * b) & mask
            if op == 'and': return a & b
            if op == 'or': return a | b
            if op == 'xor': return a ^ b
            if op == 'shl': return (a << b) & mask if b < n else 0
            if op == 'lshr': return a >> b
            if op == 'ashr': return (sgn(a, n) >> b) & mask
            if op in ('udiv', 'urem', 'sdiv', 'srem'):
                if b == 0: raise MemErr('division by zero')
                if op == 'udiv': return a // b
                if op == 'urem': return a % b
                x, y = sgn(a, n), sgn(b, n)
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0): q = -q
                return q & mask if op == 'sdiv' else (x - q * y) & mask
            raise Unsupported(op)
        if not isinstance(a, T): a = sgn(int(a), n)
        if not isinstance(b, T): b = sgn(int(b), n)
        if op == 'add': return E.add(a, b)
        if op == 'sub': return E.sub(a, b)
        if op == 'mul': return E.mul(a, b)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            signed = op[0] == 's'
            x = self.observe(st, a, n, signed); y = self.observe(st, b, n, signed)
            self.side(st, 'nonzero divisor', E.ne(y, 0))
            return self.intdiv(st, x, y, signed, op.endswith('rem'))
        if op == 'shl':
            if isinstance(b, int): return E.mul(a, 1 << b)
        if op == 'lshr':
            if isinstance(b, int):
                return self.intdiv(st, self.observe(st, a, n, False), 1 << b, False, False)
        if op == 'ashr':
            if isinstance(b, int):
                x = self.observe(st, a, n, True)
                q = self.exactdiv(x, 1 << b)
                return q if q is not None else E.idiv(x, 1 << b)
        if op == 'and':
            for x, y in ((a, b), (b, a)):
                if isinstance(y, int) and y >= 0 and (y & (y + 1)) == 0:
                    return E.imod(self.observe(st, x, n, False), y + 1)
                if isinstance(y, int) and y < 0 and ((-y) & (-y - 1)) == 0:
                    xx = self.observe(st, x, n, False)
                    return E.sub(xx, E.imod(xx, -y))
        if op == 'xor' and isinstance(b, int) and b == -1: return E.sub(-1, a)
        if op == 'or' and 'disjoint' in flags: return E.add(a, b)
        raise Unsupported('symbolic integer op %s' % op)

    def exactdiv(self, x, d):
        if not isinstance(x, T): return None
        p = E.poly_of_int(x, self._pm)
        if all(c % d == 0 for c in p.values()):
            return E.from_poly_int({m: c // d for m, c in p.items()})
        return None

    def intdiv(self, st, x, y, signed, rem):
        # concrete sign reasoning: require y > 0
        if isinstance(y, int):
            if y < 0:
                if rem: return self.intdiv(st, x, -y, signed, True)
                return E.neg(self.intdiv(st, x, -y, signed, False))
        else:
            if signed and self.solver.valid(st.pc, E.gt(y, 0), quick=True) is not True:
                raise Unsupported('signed division by a possibly negative value')
        if signed:
            nonneg = self.solver.valid(st.pc, E.ge(x, 0), quick=True) is True
        else:
            nonneg = True
        if not nonneg:
            if self.solver.valid(st.pc, E.le(x, 0), quick=True) is True:
                r = self.intdiv(st, E.neg(x), y, False, rem)
                return E.neg(r)
            q = self.exactdiv(x, y) if isinstance(y, int) else None
            if q is not None:
                return 0 if rem else q
            q = E.ite(E.ge(x, 0), E.idiv(x, y), E.neg(E.idiv(E.neg(x), y)))
            return E.sub(x, E.mul(q, y)) if rem else q
        # try symbolic split x = Q*y + R
        Q, R = self.split(x, y)
        if Q is not None:
            f = E.and_(E.le(0, R), E.lt(R, y))
            if f is True or self.solver.valid(st.pc, f, quick=True) is True:
                return R if rem else Q
        for c in self.quots:
            R = self.intnorm(E.sub(x, E.mul(c, y)))
            f = E.and_(E.le(0, R), E.lt(R, y))
            if f is True or (isinstance(f, T) and self.solver.valid(st.pc, f) is True):
                return R if rem else c
        q = E.idiv(x, y)
        if isinstance(q, T) and q.op == 'idiv':
            # defining axioms (floor division, y > 0)
            st.assume(E.le(E.mul(q, y), x)); st.assume(E.lt(x, E.add(E.mul(q, y), y)))
            st.assume(E.ge(q, 0))
        return E.sub(x, E.mul(q, y)) if rem else q

    def ifloor(self, st, x):
        """floor of a real term: an integer candidate c with c <= x < c + 1, when one is known"""
        if not isinstance(x, T): return math.floor(x)
        x = self.fsimp(x)
        if isinstance(x, T) and self.ints:
            c = self.icand(st, x)
            if c is not None: return c
        return E.floor(x)

    def icand(self, st, x):
        for k in self.ints:
            for o in (0, -1, 1):
                c = E.add(k, o); d = self.fsimp(E.sub(x, E.toreal(c)))
                f = E.and_(E.le(0, d), E.lt(d, 1))
                if f is True or (isinstance(f, T) and self.solver.valid(st.pc, f, quick=True) is True): return c
        return None

    def intnorm(self, x):
        return E.from_poly_int(E.poly_of_int(x, self._pm)) if isinstance(x, T) else x

    def split(self, x, y):
        px = E.poly_of_int(x, self._pm) if isinstance(x, T) else {(): x}
        py = E.poly_of_int(y, self._pm) if isinstance(y, T) else {(): y}
        if len(py) != 1: return None, None
        (my, cy), = py.items()
        Q = {}; R = {}
        for m, c in px.items():
            q = E.m_div(m, my)
            if q is None: R[m] = c
            elif c % cy == 0: Q[q] = c // cy
            else:
                if my == () and c // cy:
                    Q[q] = c // cy; R[m] = c % cy
                else: R[m] = c
        if not Q: return 0, x
        return E.from_poly_int(Q), E.from_poly_int(R)

    def b1(self, x):
        if isinstance(x, bool): return x
        if isinstance(x, int): return bool(x & 1)
        if isinstance(x, T) and x.sort == 'I': return E.ne(E.imod(x, 2), 0)
        return x

    def fspecial(self, op, a, b):
        if isinstance(a, T) or isinstance(b, T): raise Unsupported('inf/nan with symbolic')
        try:
            x, y = float(a), float(b)
            v = {'fadd': lambda: x + y, 'fsub': lambda: x - y, 'fmul': lambda: x * y, 'fdiv': lambda: x / y if y else float('nan')}[op]()
        except OverflowError:
            raise Unsupported('float overflow')
        return Fraction(v) if math.isfinite(v) else v

    # ------------------------------------------------------------ casts / compares
    def cast(self, st, op, t1, v, t2):
        if v is UNDEF: return UNDEF
        if t1.k == 'vec' and op not in ('bitcast',):
            return [self.cast(st, op, t1.elts, x, t2.elts) for x in v]
        if op == 'zext':
            if isinstance(v, Bits): raise Unsupported('zext bits')
            if t1.n == 1:
                if isinstance(v, bool): return int(v)
                return E.ite(v, 1, 0) if v.sort == 'B' else v
            if isinstance(v, int): return v
            return self.observe(st, v, t1.n, False)
        if op == 'sext':
            if t1.n == 1:
                if isinstance(v, bool): return ((1 << t2.n) - 1) if v else 0
                return E.ite(v, -1, 0)
            if isinstance(v, int): return sgn(v, t1.n) & ((1 << t2.n) - 1)
            return self.observe(st, v, t1.n, True)
        if op == 'trunc':
            if isinstance(v, Bits):
                if isinstance(v.v, Ptr): v = self.ptr2int(v.v)
                else: raise Unsupported('trunc bits')
            if t2.n == 1: return self.b1(v)
            if isinstance(v, bool): return int(v)
            if isinstance(v, int): return v & ((1 << t2.n) - 1)
            return v
        if op in ('sitofp', 'uitofp'):
            if isinstance(v, bool):
                return Fraction(-1 if (v and op == 'sitofp') else int(v))
            if isinstance(v, int): return Fraction(sgn(v, t1.n) if op == 'sitofp' else v)
            if v.sort == 'B': return E.ite(v, Fraction(-1 if op == 'sitofp' else 1), Fraction(0))
            return E.toreal(self.observe(st, v, t1.n, op == 'sitofp'))
        if op in ('fptosi', 'fptoui'):
            if isinstance(v, float): raise MemErr('fptoint of non-finite value')
            if isinstance(v, T):
                if self.simp: v = self.fsimp(v)
                if not isinstance(v, T): return int(v) & ((1 << t2.n) - 1)
                if v.op == 'toreal':
                    r = v.args[0]
                elif self.solver.valid(st.pc, E.ge(v, 0), quick=True) is True:
                    r = self.ifloor(st, v)
                elif op == 'fptoui':
                    r = E.ite(E.ge(v, 0), E.floor(v), E.neg(E.floor(E.neg(v))))
                    self.side(st, 'fptoui operand > -1', E.gt(v, -1))
                else:
                    r = E.ite(E.ge(v, 0), E.floor(v), E.neg(E.floor(E.neg(v))))
                self.side(st, 'float to int in range', E.lt(E.abs_(v), 1 << (t2.n - 1)))
                if isinstance(r, T) and r.op != 'ite': self.solver.note_range(r, t2.n)
                return r
            r = int(v)
            return r & ((1 << t2.n) - 1)
        if op == 'fpext': return v
        if op == 'fptrunc':
            if isinstance(v, T):
                return E.uf('fptrunc', (v,), 'R')
            if isinstance(v, float): return v
            import struct
            return Fraction(struct.unpack('<f', struct.pack('<f', float(v)))[0]) if t2.k == 'float' else v
        if op == 'bitcast':
            if t1.k == t2.k == 'ptr': return v
            if t1.k == 'double' and t2.k == 'i': return Bits(v, 64)
            if t1.k == 'i' and t2.k == 'double': return self.coerce(v, t2)
            if t1.k == 'vec' and t2.k == 'vec' and sizeof(t1.elts) == sizeof(t2.elts):
                return [self.coerce(x, t2.elts) for x in v]
            raise Unsupported('bitcast')
        if op == 'ptrtoint': return self.ptr2int(v)
        if op == 'inttoptr': return self.int2ptr(v)
        raise Unsupported(op)

    def icmp(self, st, pr, ty, a, b):
        if ty.k == 'vec': return [self.icmp(st, pr, ty.elts, x, y) for x, y in zip(a, b)]
        if a is UNDEF or b is UNDEF: return UNDEF
        if isinstance(a, Bits) and isinstance(a.v, (Ptr, Fn)): a = a.v
        if isinstance(b, Bits) and isinstance(b.v, (Ptr, Fn)): b = b.v
        if isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)):
            if isinstance(a, int): a = self.int2ptr(a)
            if isinstance(b, int): b = self.int2ptr(b)
            if isinstance(a, Fn) or isinstance(b, Fn):
                e = a == b
                return e if pr == 'eq' else not e
            if a.o != b.o:
                if pr == 'eq': return False
                if pr == 'ne': return True
                return {'ult': a.o < b.o, 'ule': a.o < b.o, 'ugt': a.o > b.o, 'uge': a.o > b.o}[pr]
            x, y = a.off, b.off
            return {'eq': E.eq, 'ne': E.ne, 'ult': E.lt, 'ule': E.le, 'ugt': E.gt, 'uge': E.ge,
                    'slt': E.lt, 'sle': E.le, 'sgt': E.gt, 'sge': E.ge}[pr](x, y)
        if isinstance(a, Bits) or isinstance(b, Bits): raise Unsupported('icmp on raw bits')
        n = ty.n
        if n == 1:
            a = self.b1(a); b = self.b1(b)
            e = E.iff(a, b) if isinstance(a, T) or isinstance(b, T) else a == b
            if pr == 'eq': return e
            if pr == 'ne': return E.not_(e)
            if pr == 'ult': return E.and_(E.not_(a), b)
            if pr == 'ugt': return E.and_(a, E.not_(b))
            raise Unsupported('icmp i1 ' + pr)
        signed = pr[0] == 's'
        if pr in ('eq', 'ne'):
            if isinstance(a, int) and isinstance(b, int):
                e = a == b
            else:
                # prefer the unsigned representative when cheap, otherwise signed
                e = self.ieq(st, a, b, n)
            return e if pr == 'eq' else E.not_(e)
        x = self.observe(st, a, n, signed); y = self.observe(st, b, n, signed)
        return {'lt': E.lt, 'le': E.le, 'gt': E.gt, 'ge': E.ge}[pr[1:]](x, y)

    def ieq(self, st, a, b, n):
        def bnd(x, lo, hi):
            if not isinstance(x, T): return lo <= x <= hi
            q = self.solver.bounds(x)
            return q[0] is not None and q[1] is not None and q[0] >= lo and q[1] <= hi
        sa = a if isinstance(a, T) else sgn(a, n)
        sb = b if isinstance(b, T) else sgn(b, n)
        lo, hi = -(1 << (n - 1)), (1 << (n - 1)) - 1
        if bnd(sa, lo, hi) and bnd(sb, lo, hi): return E.eq(sa, sb)
        return E.eq(self.observe(st, a, n, True), self.observe(st, b, n, True))

    def fcmp(self, st, pr, ty, a, b):
        if ty.k == 'vec': return [self.fcmp(st, pr, ty.elts, x, y) for x, y in zip(a, b)]
        if a is UNDEF or b is UNDEF: return UNDEF
        if isinstance(a, float) or isinstance(b, float):
            if isinstance(a, T) or isinstance(b, T):
                # comparing a finite symbolic with +-inf / nan
                f, other, sw = (a, b, False) if isinstance(a, float) else (b, a, True)
                if f != f: return pr[0] == 'u' and pr != 'uno' or pr == 'uno'
                big = f > 0
                p2 = pr[1:]
                if pr in ('ord',): return True
                if pr in ('uno',): return False
                if p2 == 'eq': return False
                if p2 == 'ne': return True
                less = (not big) if not sw else big      # a < b ?
                return less if p2 in ('lt', 'le') else not less
            x, y = float(a), float(b)
            nan = x != x or y != y
            if pr == 'ord': return not nan
            if pr == 'uno': return nan
            if nan: return pr[0] == 'u'
            return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[pr[1:]]
        if pr == 'ord' or pr == 'true': return True
        if pr == 'uno' or pr == 'false': return False
        a, b = self.fsimp(a), self.fsimp(b)
        return {'eq': E.eq, 'ne': E.ne, 'lt': E.lt, 'le': E.le, 'gt': E.gt, 'ge': E.ge}[pr[1:]](a, b)

    # ------------------------------------------------------------ run
    def run(self, st, fname, args):
        """execute function; returns list of Outcome"""
        self.push_call(st, self.m.func(fname), args, None)
        return self.explore(st)

    def explore(self, st):
        """run a state to the end of all its paths"""
        outs = []
        work = [st]
        while work:
            s = work.pop()
            while True:
                try:
                    r = self.step_until(s)
                except MemErr as e:
                    r = Outcome('error', s, info=str(e))
                except Split as e:
                    s.frames[-1].ip -= 1; r = []
                    for k in range(e.lo, e.hi + 1):
                        c = E.eq(e.x, k)
                        if not self.solver.feasible(s.pc, s.pcs, c): continue
                        s2 = s.clone(); s2.assume(c); s2.ghost['known'] = {**s2.ghost.get('known', {}), e.x: k}; r.append(s2)
                except Unsupported as e:
                    fr = s.frames[-1] if s.frames else None
                    where = ''
                    if fr is not None:
                        ii = fr.f.blocks[fr.b]
                        where = ' in %s at %r' % (self.dm(fr.f.name), ii[min(fr.ip, len(ii)) - 1].line[:200])
                    r = Outcome('unsupported', s, info=str(e) + where)
                if isinstance(r, Outcome):
                    outs.append(r); self.stats['paths'] += 1
                    break
                # fork: list of states
                if not r: break          # infeasible
                s = r[0]
                self.stats['forks'] += len(r) - 1
                work.extend(r[1:])
                if len(work) + len(outs) > self.max_paths:
                    return outs + [Outcome('unsupported', s, info='path limit')]
        return outs

    def dm(self, n):
        return self.demangle.get(n.lstrip('@'), n)

    def push_call(self, st, f, args, ret):
        if f is None or f.decl: raise Unsupported('call to undefined function')
        fr = Frame(); fr.f = f; fr.b = f.entry; fr.prev = None; fr.ip = 0; fr.ret = ret; fr.ctx = None
        fr.env = {p[0]: a for p, a in zip(f.params, args)}
        if len(st.frames) > 400: raise Unsupported('recursion depth')
        st.frames.append(fr)
        self.entered.add(f.name)

    def branch(self, st, fr, c, tgt_t, tgt_f):
        """symbolic condition: returns list of states"""
        self.nbranch += 1
        res = []
        a, b = E.not_(c), c
        ft = self.solver.feasible(st.pc, st.pcs, c)
        ff = self.solver.feasible(st.pc, st.pcs, a) if ft else True
        if ft and ff:
            if DBG: print('FORK', self.dm(fr.f.name)[-90:], fr.b, E.show(c, 4)[:160], flush=True)
            s2 = st.clone()
            f2 = s2.frames[-1]
            s2.assume(a); self.goto(s2, f2, tgt_f)
            st.assume(c); self.goto(st, fr, tgt_t)
            return [st, s2]
        if ft:
            st.assume(c)
            self.goto(st, fr, tgt_t); return [st]
        if ff:
            st.assume(a)
            self.goto(st, fr, tgt_f); return [st]
        return []

    def fork_value(self, st, c):
        """fork on condition inside an instruction that will be re-executed: returns list of states (each re-executes)"""
        raise NotImplementedError

    def goto(self, st, fr, b):
        fr.prev = fr.b; fr.b = b; fr.ip = 0

    def step_until(self, st):
        val = self.val
        while True:
            fr = st.frames[-1]
            block = fr.f.blocks[fr.b]
            env = fr.env
            if fr.ip == 0:
                if self.loop_hooks:
                    r = self.at_block(st, fr)
                    if r is not None:
                        if r is True: continue
                        return r
                # phis
                if block[0].op == 'phi':
                    vals = []
                    i = 0
                    while block[i].op == 'phi':
                        ins = block[i]
                        t, inc = ins.a
                        vals.append((ins.dst, val(st, env, inc[fr.prev], t)))
                        i += 1
                    for d, v in vals: env[d] = v
                    fr.ip = i
            ins = block[fr.ip]
            fr.ip += 1
            st.steps += 1
            self.stats['steps'] += 1
            if st.steps > self.max_steps: raise Unsupported('step limit')
            op = ins.op
            a = ins.a
            if op == 'call':
                r = self.do_call(st, fr, ins)
                if r is not None: return r
            elif op == 'load':
                env[ins.dst] = self.load(st, a[0], val(st, env, a[1], None))
            elif op == 'store':
                self.store(st, a[0], val(st, env, a[1], a[0]), val(st, env, a[2], None))
            elif op == 'gep':
                env[ins.dst] = self.gep(st, env, a[0], val(st, env, a[1], None), a[2])
            elif op == 'bin':
                env[ins.dst] = self.binop(st, a[0], a[1], val(st, env, a[2], a[1]), val(st, env, a[3], a[1]), a[4])
            elif op == 'icmp':
                env[ins.dst] = self.icmp(st, a[0], a[1], val(st, env, a[2], a[1]), val(st, env, a[3], a[1]))
            elif op == 'fcmp':
                env[ins.dst] = self.fcmp(st, a[0], a[1], val(st, env, a[2], a[1]), val(st, env, a[3], a[1]))
            elif op == 'jmp':
                self.goto(st, fr, a[0])
            elif op == 'br':
                c = val(st, env, a[0], IntTy(1))
                if c is True: self.goto(st, fr, a[1])
                elif c is False: self.goto(st, fr, a[2])
                elif c is UNDEF: raise MemErr('branch on uninitialised value')
                else:
                    c = self.b1(c)
                    return self.branch(st, fr, c, a[1], a[2])
            elif op == 'ret':
                v = val(st, env, a[1], a[0]) if a[1] is not None else None
                st.frames.pop()
                if not st.frames:
                    return Outcome('ret', st, v)
                if fr.ret is not None:
                    kind = fr.ret[0]
                    cf = st.frames[-1]
                    if fr.ret[1] is not None: cf.env[fr.ret[1]] = v
                    if fr.ret[2] is not None: self.goto(st, cf, fr.ret[2])
            elif op == 'cast':
                env[ins.dst] = self.cast(st, a[0], a[1], val(st, env, a[2], a[1]), a[3])
            elif op == 'alloca':
                n = val(st, env, a[2], a[1])
                if isinstance(n, T): raise Unsupported('symbolic alloca')
                env[ins.dst] = self.alloc(st, sizeof(a[0]) * n, fr.f.name + ins.dst, 'stack')
            elif op == 'select':
                c = val(st, env, a[1], a[0])
                if a[0].k == 'vec':
                    x = val(st, env, a[3], a[2]); y = val(st, env, a[4], a[2])
                    env[ins.dst] = [p if cc is True else q if cc is False else E.ite(cc, p, q) for cc, p, q in zip(c, x, y)]
                    continue
                if c is UNDEF: raise MemErr('select on uninitialised value')
                if isinstance(c, bool):
                    env[ins.dst] = val(st, env, a[3] if c else a[4], a[2])
                else:
                    c = self.b1(c)
                    x = val(st, env, a[3], a[2]); y = val(st, env, a[4], a[2])
                    if self.same(x, y):
                        env[ins.dst] = x
                    elif a[2].k in ('ptr', 'struct') or x is UNDEF or y is UNDEF or isinstance(x, (Bits, float)) or isinstance(y, (Bits, float)):
                        s2 = st.clone()
                        out = []
                        if self.solver.feasible(st.pc, st.pcs, c):
                            st.assume(c); env[ins.dst] = x; out.append(st)
                        if self.solver.feasible(s2.pc, s2.pcs, E.not_(c)):
                            s2.assume(E.not_(c)); s2.frames[-1].env[ins.dst] = y; out.append(s2)
                        return out
                    else:
                        if a[2].k == 'i' and a[2].n > 1:
                            if isinstance(x, int): x = sgn(x, a[2].n)
                            if isinstance(y, int): y = sgn(y, a[2].n)
                        env[ins.dst] = E.ite(c, x, y)
            elif op == 'fneg':
                v = val(st, env, a[1], a[0])
                if a[0].k == 'vec': env[ins.dst] = [E.neg(x) if not isinstance(x, float) else -x for x in v]
                else: env[ins.dst] = v if v is UNDEF else (-v if isinstance(v, float) else E.neg(v))
            elif op == 'switch':
                v = val(st, env, a[1], a[0])
                if isinstance(v, int):
                    for c, b in a[3]:
                        if c == v: self.goto(st, fr, b); break
                    else: self.goto(st, fr, a[2])
                else:
                    v = self.observe(st, v, a[0].n, True)
                    return self.do_switch(st, fr, v, a)
            elif op == 'extractvalue':
                v = val(st, env, a[1], a[0])
                for i in a[2]: v = v[i] if v is not UNDEF else UNDEF
                env[ins.dst] = v
            elif op == 'insertvalue':
                v = val(st, env, a[1], a[0])
                x = val(st, env, a[3], a[2])
                env[ins.dst] = self.insertv(v, a[0], a[4], x)
            elif op == 'extractelement':
                v = val(st, env, a[1], a[0]); i = val(st, env, a[2], None)
                env[ins.dst] = v[i] if v is not UNDEF else UNDEF
            elif op == 'insertelement':
                v = val(st, env, a[1], a[0]); i = val(st, env, a[3], None)
                v = list(v) if v is not UNDEF else [UNDEF] * a[0].n
                v[i] = val(st, env, a[2], a[0].elts); env[ins.dst] = v
            elif op == 'shufflevector':
                x = val(st, env, a[1], a[0]); y = val(st, env, a[2], a[0]); m = val(st, env, a[4], a[3])
                n = a[0].n
                if x is UNDEF: x = [UNDEF] * n
                if y is UNDEF: y = [UNDEF] * n
                z = list(x) + list(y)
                env[ins.dst] = [UNDEF if i is UNDEF else z[i] for i in (m if m is not UNDEF else [UNDEF] * a[3].n)]
            elif op == 'freeze':
                v = val(st, env, a[1], a[0])
                env[ins.dst] = self.zero(a[0]) if v is UNDEF else v
            elif op == 'nop' or op == 'asm':
                if op == 'asm' and a[0].k != 'void': raise Unsupported('inline asm')
            elif op == 'cmpxchg':
                p = val(st, env, a[0], None); cur = self.load(st, a[1], p)
                c = val(st, env, a[2], a[1]); nv = val(st, env, a[3], a[1])
                e = cur == c
                if e: self.store(st, a[1], nv, p)
                env[ins.dst] = [cur, bool(e)]
            elif op == 'atomicrmw':
                p = val(st, env, a[1], None); cur = self.load(st, a[2], p); v = val(st, env, a[3], a[2])
                nv = self.binop(st, a[0], a[2], cur, v, ()) if a[0] != 'xchg' else v
                self.store(st, a[2], nv, p); env[ins.dst] = cur
            elif op == 'unreachable':
                return Outcome('error', st, info='reached unreachable')
            elif op == 'landingpad' or op == 'resume':
                raise Unsupported('exception handling reached')
            else:
                raise Unsupported('instruction ' + ins.line)

    def same(self, x, y):
        return x is y or (type(x) == type(y) and not isinstance(x, (T, list)) and x == y)

    def insertv(self, v, ty, idx, x):
        n = len(ty.elts) if ty.k == 'struct' else ty.n
        v = list(v) if v is not UNDEF else [UNDEF] * n
        if len(idx) == 1: v[idx[0]] = x
        else:
            et = ty.elts[idx[0]] if ty.k == 'struct' else ty.elts
            v[idx[0]] = self.insertv(v[idx[0]], et, idx[1:], x)
        return v

    def do_switch(self, st, fr, v, a):
        out = []
        rest = []
        targets = [(sgn(c, a[0].n), b) for c, b in a[3]]
        for c, b in targets:
            cond = E.eq(v, c)
            rest.append(E.not_(cond))
            if cond is False: continue
            if self.solver.feasible(st.pc, st.pcs, cond):
                s = st.clone(); s.assume(cond); self.goto(s, s.frames[-1], b); out.append(s)
        d = E.and_(*rest)
        if d is not False and self.solver.feasible(st.pc, st.pcs, d):
            s = st.clone(); s.assume(d); self.goto(s, s.frames[-1], a[2]); out.append(s)
        return out

    # ------------------------------------------------------------ calls
    def do_call(self, st, fr, ins):
        rt, callee, args, norm, unw = ins.a
        env = fr.env
        if callee[0] == 'g':
            name = self.m.aliases.get(callee[1], callee[1])
        else:
            v = self.val(st, env, callee, None)
            if isinstance(v, Bits): v = v.v
            if not isinstance(v, Fn): raise Unsupported('indirect call through %r' % (v,))
            name = v.name
        h = self.ccache.get(name)
        if h is None:
            h = self.ccache[name] = self.resolve(name)
        kind, fn = h
        if kind == 'skip':
            if norm: self.goto(st, fr, norm)
            return None
        vals = []
        for t, o, at in args:
            v = self.val(st, env, o, t)
            if 'byval' in at:
                p = self.alloc(st, sizeof(at['byval']), 'byval', 'stack')
                self.memcpy(st, p, v, sizeof(at['byval'])); v = p
            vals.append(v)
        if kind == 'body':
            self.push_call(st, fn, vals, ('call', ins.dst, norm))
            return None
        # library or contract handler
        r = fn(self, st, vals, rt)
        if isinstance(r, Throw):
            return self.do_throw(st, r)
        if isinstance(r, Multi):
            outs = []
            for s2, v in r.items:
                f2 = s2.frames[-1]
                if ins.dst is not None: f2.env[ins.dst] = v
                if norm: self.goto(s2, f2, norm)
                outs.append(s2)
            return outs
        if ins.dst is not None: env[ins.dst] = r
        if norm: self.goto(st, fr, norm)
        return None

    def do_throw(self, st, r):
        # look for an enclosing handler that catches
        for f in reversed(st.frames):
            ins = f.f.blocks[f.b][f.ip - 1]
            if ins.op == 'call' and ins.a[4]:
                lp = f.f.blocks[ins.a[4]]
                for i in lp:
                    if i.op == 'landingpad' and i.a[2]:
                        # a catch clause: only libstdc++ clean-up-and-rethrow handlers are expected
                        if not self.dm(f.f.name).startswith('std::') and '__gnu_cxx' not in self.dm(f.f.name):
                            raise Unsupported('catch handler')
        return Outcome('throw', st, info=r.what)

    def resolve(self, name):
        import libmodel
        nm = name.lstrip('@').strip('"')
        d = self.demangle.get(nm, nm)
        for rx, hd in self.contracts:
            if rx.search(d):
                def w(ip, st, vals, rt, hd=hd, d=d):
                    ip.used_contracts[d] = ip.used_contracts.get(d, 0) + 1
                    r = hd(ip, st, vals, rt, d)
                    if type(r) is int and r < 0 and getattr(rt, 'k', '') == 'i': r &= (1 << rt.n) - 1
                    return r
                return ('hook', w)
        l = libmodel.lookup(nm, d)
        if l is not None:
            if l == 'skip': return ('skip', None)
            def w(ip, st, vals, rt, l=l, nm=nm):
                ip.used_lib[nm] = ip.used_lib.get(nm, 0) + 1
                return l(ip, st, vals, rt)
            return ('hook', w)
        f = self.m.func(name)
        if f is None or f.decl:
            def u(ip, st, vals, rt, d=d): raise Unsupported('external function ' + d)
            return ('hook', u)
        return ('body', f)

    def at_block(self, st, fr):
        for h in self.loop_hooks:
            r = h(self, st, fr)
            if r is not None: return r
        return None


class MemErr(Exception):
    pass


class Throw:
    def __init__(self, what): self.what = what


class Multi:
    def __init__(self, items): self.items = items


def sgn(v, n):
    v &= (1 << n) - 1
    return v - (1 << n) if v >> (n - 1) else v
