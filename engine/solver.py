"""Discharging verification conditions: polynomial normal form, z3, cvc5."""
import os, subprocess, tempfile, time, itertools
from fractions import Fraction
import z3
import expr as E
from expr import T

EPS_COEF = Fraction(1, 10**12)     # literal rounding slack on polynomial coefficients (see DESIGN.md)


class Solver:
    def __init__(self):
        self.vb = {}            # var name -> (lo, hi)
        self.rng = {}           # term id -> (lo, hi)
        self.cache = {}
        self.bc = {}
        self.time = {'poly': 0.0, 'z3': 0.0, 'cvc5': 0.0}
        self.queries = {'poly': 0, 'z3': 0, 'cvc5': 0}
        self.log = []
        self.feas_timeout = 400

    # -------------------------------------------------- intervals
    def note_range(self, t, n):
        self.rng[t.id] = (-(1 << (n - 1)), (1 << (n - 1)) - 1)

    def bounds(self, t):
        if not isinstance(t, T):
            return (t, t)
        for x in E.topo([t]):
            if x.id in self.bc: continue
            self.bc[x.id] = self._b(x)
        return self.bc[t.id]

    def _b(self, x):
        g = lambda y: self.bc[y.id] if isinstance(y, T) else (y, y)
        if x.sort != 'I': return (None, None)
        op = x.op
        if op == 'var': return self.vb.get(x.args[0], (None, None))
        if x.id in self.rng: return self.rng[x.id]
        if op == 'uf': return self.vb.get('uf:' + x.args[0], (None, None))
        if op == 'add':
            (a, b), (c, d) = g(x.args[0]), g(x.args[1])
            return (None if a is None or c is None else a + c, None if b is None or d is None else b + d)
        if op == 'mul':
            (a, b), (c, d) = g(x.args[0]), g(x.args[1])
            if None in (a, b, c, d):
                if x.args[0] == -1: return (None if d is None else -d, None if c is None else -c)
                if a is not None and c is not None and a >= 0 and c >= 0: return (a * c, None)
                return (None, None)
            p = (a * c, a * d, b * c, b * d)
            return (min(p), max(p))
        if op == 'ite':
            (a, b), (c, d) = g(x.args[1]), g(x.args[2])
            return (None if a is None or c is None else min(a, c), None if b is None or d is None else max(b, d))
        if op == 'idiv':
            (a, b), (c, d) = g(x.args[0]), g(x.args[1])
            if c is not None and c >= 1 and a is not None and a >= 0:
                return (0, None if b is None else b // c)
            return (None, None)
        if op == 'imod':
            (c, d) = g(x.args[1])
            if c is not None and c >= 1: return (0, None if d is None else d - 1)
        return (None, None)

    # -------------------------------------------------- feasibility / quick validity during execution
    def feasible(self, pc, pcs, c):
        if isinstance(c, bool): return c
        if c.id in pcs: return True
        if E.not_(c).id in pcs: return False
        if c.op == 'and' and any(E.not_(x).id in pcs for x in c.args): return False
        key = ('f', tuple(x.id for x in pc), c.id)
        r = self.cache.get(key)
        if r is None:
            rel = self.relevant(pc, [c])
            r = self.z3check(rel + [c], self.feas_timeout)[0]
            self.cache[key] = r
        return r != 'unsat'

    def relevant(self, pc, goals):
        """cone of influence by shared variables (dropping the rest only weakens the hypothesis)"""
        need = set()
        for g in goals: need |= self.fv(g)
        rest = list(pc); out = []
        ch = True
        while ch:
            ch = False; nr = []
            for p in rest:
                f = self.fv(p)
                if f & need or not f:
                    out.append(p); need |= f; ch = True
                else: nr.append(p)
            rest = nr
        return out

    def fv(self, t):
        if not isinstance(t, T): return frozenset()
        k = ('v', t.id)
        r = self.cache.get(k)
        if r is None:
            r = frozenset((x.id if x.op == 'var' else ('uf', x.args[0])) for x in E.topo([t]) if x.op in ('var', 'uf'))
            self.cache[k] = r
        return r

    def valid(self, pc, f, quick=False, timeout=None):
        if isinstance(f, bool): return f
        key = ('q', tuple(x.id for x in pc), f.id, quick)
        if key in self.cache: return self.cache[key]
        rel = self.relevant(pc, [f])
        r = self.z3check(rel + [E.not_(f)], timeout or (1500 if quick else 20000))[0]
        v = True if r == 'unsat' else False if r == 'sat' else None
        self.cache[key] = v
        return v

    # -------------------------------------------------- z3
    def encode(self, fs):
        """returns (z3 constraints, varmap T.id->z3 expr, flags)"""
        enc = {}
        cons = []
        flags = set()
        ufs = {}
        cnt = [0]

        def nm(p):
            cnt[0] += 1
            return '%s_%d' % (p, cnt[0])

        def g(x, sort):
            if isinstance(x, T): return enc[x.id]
            if isinstance(x, bool): return z3.BoolVal(x)
            if sort == 'R':
                x = Fraction(x)
                return z3.RealVal(str(x.numerator)) if x.denominator == 1 else z3.Q(x.numerator, x.denominator)
            return z3.IntVal(x)
        for t in E.topo(fs):
            op, a, s = t.op, t.args, t.sort
            if op == 'var':
                v = {'R': z3.Real, 'I': z3.Int, 'B': z3.Bool}[s](a[0])
                if s == 'I':
                    flags.add('int')
                    lo, hi = self.vb.get(a[0], (None, None))
                    if lo is not None: cons.append(v >= lo)
                    if hi is not None: cons.append(v <= hi)
            elif op == 'add': v = g(a[0], s) + g(a[1], s)
            elif op == 'mul':
                v = g(a[0], s) * g(a[1], s)
                if isinstance(a[0], T) and isinstance(a[1], T): flags.add('nl')
            elif op == 'div':
                v = z3.Real(nm('q'))
                d = g(a[1], 'R')
                cons.append(v * d == g(a[0], 'R')); cons.append(d != 0)
                flags.add('nl')
            elif op == 'toreal': v = z3.ToReal(g(a[0], 'I'))
            elif op == 'sqrt':
                v = z3.Real(nm('s')); x = g(a[0], 'R')
                cons.append(v >= 0); cons.append(v * v == x); flags.add('nl')
            elif op == 'floor':
                v = z3.Int(nm('fl')); x = g(a[0], 'R'); flags.add('int')
                cons.append(z3.ToReal(v) <= x); cons.append(x < z3.ToReal(v) + 1)
            elif op == 'ite': v = z3.If(g(a[0], 'B'), g(a[1], s), g(a[2], s))
            elif op == 'and': v = z3.And(*[g(x, 'B') for x in a])
            elif op == 'or': v = z3.Or(*[g(x, 'B') for x in a])
            elif op == 'not': v = z3.Not(g(a[0], 'B'))
            elif op in ('lt', 'le', 'eq'):
                ss = E.sort_of(a[0]) if isinstance(a[0], T) else E.sort_of(a[1])
                x, y = g(a[0], ss), g(a[1], ss)
                v = x < y if op == 'lt' else x <= y if op == 'le' else x == y
            elif op == 'uf':
                v = {'R': z3.Real, 'I': z3.Int, 'B': z3.Bool}[s](nm('uf_' + a[0]))
                args = [g(x, E.sort_of(x)) for x in a[1:]]
                for args2, v2 in ufs.setdefault((a[0], s), []):
                    cons.append(z3.Implies(z3.And(*[p == q for p, q in zip(args, args2)]), v == v2))
                ufs[(a[0], s)].append((args, v))
                if s == 'I':
                    flags.add('int')
                    lo, hi = self.vb.get('uf:' + a[0], (None, None))
                    if lo is not None: cons.append(v >= lo)
                    if hi is not None: cons.append(v <= hi)
            elif op == 'idiv':
                x, y = g(a[0], 'I'), g(a[1], 'I')
                v = z3.Int(nm('dv')); flags.add('int')
                if isinstance(a[1], T): flags.add('nl')
                cons.append(z3.Implies(y > 0, z3.And(v * y <= x, x < v * y + y)))
            elif op == 'imod':
                x, y = g(a[0], 'I'), g(a[1], 'I')
                q = z3.Int(nm('dq')); v = z3.Int(nm('md')); flags.add('int')
                if isinstance(a[1], T): flags.add('nl')
                cons.append(z3.Implies(y > 0, z3.And(x == q * y + v, v >= 0, v < y)))
            else:
                raise E.Undef(op)
            enc[t.id] = v
        return [g(f, 'B') for f in fs] + cons, enc, flags

    def z3check(self, fs, timeout, want_model=False, tactic=None):
        for f in fs:
            if f is False: return ('unsat', None)
        fs = [f for f in fs if f is not True]
        t0 = time.time()
        cs, enc, flags = self.encode(fs)
        self.queries['z3'] += 1
        if tactic:
            s = z3.Tactic(tactic).solver()
        elif 'nl' in flags and 'int' not in flags:
            s = z3.Tactic('qfnra-nlsat').solver() if not any(True for _ in ()) else z3.Solver()
        else:
            s = z3.Solver()
        s.set('timeout', int(timeout))
        try:
            s.add(*cs)
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        rs = str(r)
        model = None
        if rs == 'sat' and want_model:
            m = s.model()
            model = {}
            for t in E.topo(fs):
                if t.op in ('var',) or t.op == 'uf':
                    v = m.eval(enc[t.id], model_completion=True)
                    k = t.args[0] if t.op == 'var' else t
                    model[k] = conv(v)
        self.time['z3'] += time.time() - t0
        return (rs, model)

    def smt2(self, fs):
        cs, enc, flags = self.encode([f for f in fs if f is not True])
        s = z3.Solver(); s.add(*cs)
        return s.to_smt2()

    def cvc5(self, fs, timeout):
        t0 = time.time()
        self.queries['cvc5'] += 1
        try:
            txt = self.smt2(fs)
            logic = 'QF_NIRA'
            txt = '(set-logic ALL)\n' + '\n'.join(l for l in txt.split('\n') if not l.startswith('(set-info') and not l.startswith('(set-logic'))
            with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as fh:
                fh.write(txt)
            try:
                p = subprocess.run(['cvc5', '--nl-cov', '--tlimit=%d' % int(timeout), fh.name], capture_output=True, text=True, timeout=timeout / 1000 + 10)
                out = p.stdout.strip().split('\n')[0]
            except subprocess.TimeoutExpired:
                out = 'unknown'
            os.unlink(fh.name)
        except E.Undef:
            out = 'unknown'
        self.time['cvc5'] += time.time() - t0
        return out if out in ('sat', 'unsat') else 'unknown'

    # -------------------------------------------------- main entry
    def prove_eq(self, a, b):
        """a = b as rational functions (with sqrt atoms).  True / residual polynomial / None"""
        t0 = time.time()
        self.queries['poly'] += 1
        try:
            P = E.Poly()
            d = E.sub(a, b)
            if not isinstance(d, T):
                ok = abs(d) <= EPS_COEF
                return True if ok else d
            n = P.zero_num(d)
            if all(abs(c) <= EPS_COEF for c in n.values()): return True
            return n
        except E.TooBig:
            return None
        finally:
            self.time['poly'] += time.time() - t0

    def prove(self, pc, goal, timeout=20000, use_cvc5=True):
        """('proved', backend) | ('refuted', model or None, backend) | ('unknown', reason)"""
        if goal is True: return ('proved', 'constant folding')
        gs = list(goal.args) if isinstance(goal, T) and goal.op == 'and' else [goal]
        if len(gs) > 1:
            backs = set()
            for g in gs:
                r = self.prove(pc, g, timeout, use_cvc5)
                if r[0] != 'proved': return r
                backs.add(r[1])
            return ('proved', '+'.join(sorted(backs)))
        g = gs[0]
        if isinstance(g, T):
            if any(p is g for p in pc): return ('proved', 'hypothesis')
            if g.op == 'eq' and E.sort_of(g.args[0] if isinstance(g.args[0], T) else g.args[1]) in 'RI':
                r = self.prove_eq(E.toreal(g.args[0]) if isinstance(g.args[0], T) else g.args[0], E.toreal(g.args[1]) if isinstance(g.args[1], T) else g.args[1])
                if r is True: return ('proved', 'polynomial normal form')
        rel = self.relevant(pc, [g] if isinstance(g, T) else list(pc))
        ng = E.not_(g)
        r, m = self.z3check(rel + [ng], timeout, want_model=True)
        if r == 'unsat': return ('proved', 'z3')
        if r == 'sat': return ('refuted', m, 'z3')
        r2, m2 = self.z3check(rel + [ng], timeout, want_model=True, tactic='smt' if True else None)
        if r2 == 'unsat': return ('proved', 'z3')
        if r2 == 'sat': return ('refuted', m2, 'z3')
        if use_cvc5:
            c = self.cvc5(rel + [ng], timeout)
            if c == 'unsat': return ('proved', 'cvc5')
            if c == 'sat': return ('refuted', None, 'cvc5')
        return ('unknown', 'z3 and cvc5 gave no answer in %d ms' % timeout)


def conv(v):
    if z3.is_int_value(v): return v.as_long()
    if z3.is_rational_value(v): return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    if z3.is_true(v): return True
    if z3.is_false(v): return False
    return None
