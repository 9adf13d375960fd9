"""A unit = one wrapper around real code + its contract.  Proves the contract, replays counterexamples natively."""
import math, random, time, traceback, os, struct, signal
from fractions import Fraction
from types import SimpleNamespace as NS
import expr as E, interp, irparse
from expr import T
from solver import Solver
from native import Native

SCALE_TOL = 1e-9


# ------------------------------------------------------------------ tolerant (three valued) evaluation
class TE:
    """evaluates terms over floats with a running error bound; comparisons inside the error are None"""
    def __init__(self, roots):
        self.roots = roots; self.order = E.topo(roots)

    def run(self, env, ufs=None):
        val = {}

        def g(x):
            if isinstance(x, T): return val[x.id]
            if isinstance(x, bool): return x
            if isinstance(x, int): return (x, 0)
            return (float(x), abs(float(x)) * 2e-16)
        for t in self.order:
            op, a = t.op, t.args
            if op == 'var':
                v = env.get(a[0], MISSING)
                if v is MISSING: raise E.Undef(a[0])
            elif op == 'add': v = self.num(g(a[0]), g(a[1]), 0)
            elif op == 'mul': v = self.num(g(a[0]), g(a[1]), 1)
            elif op == 'div':
                x, y = g(a[0]), g(a[1])
                if x is None or y is None or abs(y[0]) <= y[1] or y[0] == 0: v = None
                else:
                    q = x[0] / y[0]
                    v = (q, (x[1] + abs(q) * y[1]) / max(1e-300, abs(y[0]) - y[1]) + abs(q) * 4e-16)
            elif op == 'toreal':
                x = g(a[0]); v = None if x is None else (float(x[0]), x[1])
            elif op == 'sqrt':
                x = g(a[0])
                if x is None or x[0] < -x[1]: v = None
                else:
                    s = math.sqrt(max(0.0, x[0])); hi = math.sqrt(max(0.0, x[0]) + x[1])
                    v = (s, (hi - s) + x[1] / (s + hi + 1e-300) + s * 4e-16)
            elif op == 'floor':
                x = g(a[0])
                if x is None: v = None
                else:
                    l, h = math.floor(x[0] - x[1]), math.floor(x[0] + x[1])
                    v = (l, 0) if l == h else None
            elif op == 'ite':
                c = g(a[0])
                if c is None:
                    x, y = g(a[1]), g(a[2])
                    v = None
                    if x is not None and y is not None and isinstance(x, tuple) and not isinstance(x[0], int) and abs(x[0] - y[0]) <= 1e-6 * (1 + abs(x[0])):
                        v = (x[0], max(x[1], y[1]) + abs(x[0] - y[0]))
                else: v = g(a[1]) if c else g(a[2])
            elif op == 'and':
                vs = [g(x) for x in a]; v = False if any(x is False for x in vs) else (None if any(x is None for x in vs) else True)
            elif op == 'or':
                vs = [g(x) for x in a]; v = True if any(x is True for x in vs) else (None if any(x is None for x in vs) else False)
            elif op == 'not':
                x = g(a[0]); v = None if x is None else not x
            elif op in ('lt', 'le', 'eq'):
                x, y = g(a[0]), g(a[1])
                if x is None or y is None: v = None
                else:
                    e = x[1] + y[1]; d = x[0] - y[0]
                    if math.isnan(d): v = False if op == 'eq' else None
                    elif abs(d) > e or e == 0: v = {'lt': d < 0, 'le': d <= 0, 'eq': d == 0}[op]
                    else: v = None
            elif op == 'uf':
                if ufs is None or a[0] not in ufs: raise E.Undef('uf ' + a[0])
                xs = [g(x) for x in a[1:]]
                if any(x is None for x in xs): v = None
                else:
                    r = ufs[a[0]](*[x[0] for x in xs])
                    if isinstance(r, bool): val[t.id] = r; continue
                    e = 0 if isinstance(r, int) else (1e-9 if any(x[1] for x in xs) else 1e-13) * max(1.0, abs(r))
                    v = (r, e)
            elif op in ('idiv', 'imod'):
                x, y = g(a[0]), g(a[1])
                v = None if x is None or y is None or not y[0] else ((x[0] // y[0], 0) if op == 'idiv' else (x[0] % y[0], 0))
            else: raise E.Undef(op)
            val[t.id] = v
        out = []
        for r in self.roots:
            x = g(r)
            out.append(x)
        return out

    @staticmethod
    def num(x, y, m):
        if x is None or y is None: return None
        (a, ea), (b, eb) = x, y
        if isinstance(a, int) and isinstance(b, int): return (a * b if m else a + b, 0)
        a = float(a); b = float(b)
        if m:
            r = a * b
            return (r, abs(a) * eb + abs(b) * ea + ea * eb + abs(r) * 4e-16)
        r = a + b
        return (r, ea + eb + (abs(r) + 0.1 * (abs(a) + abs(b))) * 4e-16)


MISSING = object()


def tvar(x, tol=0.0):
    """value -> tolerant env entry"""
    if isinstance(x, bool): return x
    if isinstance(x, int): return (x, 0)
    return (float(x), tol if tol else 0.0)


deadline = None


class OutOfTime(BaseException): pass


def on_alarm(*a): raise OutOfTime()


class Unit:
    def __init__(self, name, fn, mod, vars, args, post, pre=None, sample=None, ret=None, contracts=(), ufs=None,
                 throws=None, tol=SCALE_TOL, nsamp=None, timeout=20000, max_paths=4000, funcs=(), bounded=None, hints=None,
                 max_steps=3000000, loops=None, sym=True, lemmas=None, cvc5=True, setup=None, simp=False, roots=None, limit=None, quots=None, ints=None, npost=None):
        self.__dict__.update(locals()); del self.__dict__['self']

    def mkvars(self):
        v = NS(); self.names = []; self.bnds = {}
        for n, d in self.vars.items():
            s, k = d[0], d[1]
            if k is None:
                ts = E.mk('var', (n,), s); self.names.append((n, s, ts, d))
            else:
                ts = []
                for i in range(k):
                    t = E.mk('var', ('%s[%d]' % (n, i),), s); ts.append(t); self.names.append(('%s[%d]' % (n, i), s, t, d))
            setattr(v, n, ts)
        for n, s, t, d in self.names:
            if s == 'I' and len(d) > 2: self.bnds[n] = (d[2], d[3])
        return v

    def mkouts(self):
        o = NS()
        for a in self.aspec:
            if a[0] in ('out', 'io'):
                n = a[2]; k = a[3] if a[0] == 'out' else len(a[3])
                setattr(o, n, [E.mk('var', ('out.%s[%d]' % (n, i),), a[1]) for i in range(k)])
        if self.ret: o.ret = E.mk('var', ('out.ret',), self.ret)
        return o

    def prepare(self):
        self.v = self.mkvars()
        self.aspec = self.args(self.v)
        self.o = self.mkouts()
        self.prec = [c for c in (self.pre(self.v) if self.pre else []) if c is not True]
        for n, s, t, d in self.names:
            if s == 'I' and len(d) > 2:
                if d[2] is not None: self.prec.append(E.le(d[2], t))
                if d[3] is not None: self.prec.append(E.le(t, d[3]))
        self.prec = [c for c in self.prec if c is not True]
        self.clauses = [(n, c) for n, c in self.post(self.v, self.o)] if self.post else []
        self.mute = bool(self.clauses) and not self.npost and all(c is True for _, c in self.clauses)
        self.thr = self.throws(self.v) if self.throws else False
        self.te = TE([c for _, c in self.clauses])
        self.tepre = TE(self.prec)
        self.in_terms = []
        for a in self.aspec:
            if a[0] == 'val': self.in_terms.append(a[2])
            elif a[0] == 'in': self.in_terms.extend(a[2])
            elif a[0] == 'io': self.in_terms.extend(a[3])

    # ---------------------------------------------------------------- samples
    def draw(self, rng):
        if self.sample:
            d = self.sample(rng)
        else:
            d = {}
            for n, dd in self.vars.items():
                s, k = dd[0], dd[1]
                if s == 'R':
                    f = lambda: default_real(rng)
                else:
                    lo = dd[2] if len(dd) > 2 and dd[2] is not None else -8
                    hi = dd[3] if len(dd) > 3 and dd[3] is not None else 8
                    f = lambda: rng.choice([lo, hi, rng.randint(lo, hi), rng.randint(lo, min(hi, lo + 6))])
                d[n] = f() if k is None else [f() for _ in range(k)]
        env = {}
        for n, x in d.items():
            cv = (lambda y: Fraction(y)) if self.vars[n][0] == 'R' else norm
            if isinstance(x, (list, tuple)):
                for i, y in enumerate(x): env['%s[%d]' % (n, i)] = cv(y)
            else: env[n] = cv(x)
        return env

    def samples(self, rng, n):
        out = []
        tries = 0
        while len(out) < n and tries < 60 * n + 200:
            tries += 1
            env = self.draw(rng)
            try:
                ok = E.evaluate(self.prec, env, ufs=self.ufs)
            except E.Undef as e:
                raise
            if all(x is True for x in ok): out.append(env)
        return out

    # ---------------------------------------------------------------- native
    def native_call(self, nat, env):
        vals = E.evaluate([t for t in self.in_terms if isinstance(t, T)], env, ufs=self.ufs)
        it = iter(vals)
        g = lambda t: next(it) if isinstance(t, T) else t
        args = []
        cv = lambda s, x: float(x) if s == 'R' else int(x)
        for a in self.aspec:
            if a[0] == 'val': args.append(('val', a[1], cv(a[1], g(a[2]))))
            elif a[0] == 'arr': args.append(('in', a[1], [cv(a[1], self.ufs[a[2]](i)) for i in range(a[5])]))
            elif a[0] == 'in': args.append(('in', a[1], [cv(a[1], g(t)) for t in a[2]]))
            elif a[0] == 'io': args.append(('io', a[1], [cv(a[1], g(t)) for t in a[3]]))
            else: args.append(('out', a[1], a[3]))
        r = nat.call(self.fn, self.ret, args)
        return args, r

    def out_env(self, r, mag, tol=None, exact=False):
        """native result -> env of output variables"""
        env = {}
        tol = self.tol if tol is None else tol
        outs = iter(r[2])

        def put(n, s, x):
            if s == 'I': env[n] = x if exact else (x, 0)
            else:
                if exact:
                    env[n] = Fraction(x) if math.isfinite(x) else None
                else: env[n] = (x, tol * max(mag, abs(x) if math.isfinite(x) else 1.0))
        for a in self.aspec:
            if a[0] in ('out', 'io'):
                for i, x in enumerate(next(outs)): put('out.%s[%d]' % (a[2], i), a[1], x)
        if self.ret: put('out.ret', self.ret, r[1])
        return env

    def mag(self, env):
        return max([1.0] + [abs(float(x)) for x in env.values() if isinstance(x, (Fraction, float)) and abs(x) < 1e6])

    def check_native(self, nat, env):
        """returns (verdict, detail, result).  verdict: 'ok' | 'bad' ; detail = clause name"""
        args, r = self.native_call(nat, env)
        if r[0] in ('crash', 'hang'):
            return 'bad', 'native %s (%s)' % (r[0], r[1]), r, args
        if r[0] == 'throw':
            ok = self.thr if isinstance(self.thr, bool) else E.evaluate([self.thr], env, ufs=self.ufs)[0]
            return ('bad' if ok is False else 'ok'), 'unexpected exception', r, args
        if self.thr is not False:
            ok = self.thr if isinstance(self.thr, bool) else TE([self.thr]).run({k: tvar(x) for k, x in env.items()}, self.ufs)[0]
            if ok is True: return 'bad', 'expected exception not raised', r, args
        te = {k: tvar(x) for k, x in env.items()}
        te.update(self.out_env(r, self.mag(env)))
        res = self.te.run(te, self.ufs)
        for (n, _), v in zip(self.clauses, res):
            if v is False: return 'bad', n, r, args
        if self.npost:
            for n, ok in self.npost(self.numv(env), self.numo(r)):
                if not ok: return 'bad', n, r, args
        return 'ok', None, r, args

    def numv(self, env):
        """the concrete inputs, by name"""
        v = NS()
        for n, d in self.vars.items(): setattr(v, n, env[n] if d[1] is None else [env['%s[%d]' % (n, i)] for i in range(d[1])])
        return v

    def numo(self, r):
        o = NS(); outs = iter(r[2]); o.ret = r[1]
        for a in self.aspec:
            if a[0] in ('out', 'io'): setattr(o, a[2], list(next(outs)))
        return o

    # ---------------------------------------------------------------- the proof
    def run(self, module, dem, so, seed, tier, known=()):
        t0 = time.time()
        rng = random.Random('%s/%s' % (seed, self.name))
        R = {'unit': self.name, 'fn': self.fn, 'obl': [], 'viol': [], 'undecided': [], 'notes': [], 'paths': 0, 'contracts': {}, 'lib': {},
             'native_calls': 0, 'validated': 0, 'bounded': self.bounded, 'funcs': list(self.funcs)}
        self.prepare()
        S = Solver(); S.vb.update(self.bnds)
        nat = Native(so)
        try:
            self._run(R, S, nat, module, dem, rng, tier)
        except Exception as e:
            R['error'] = traceback.format_exc()
        finally:
            R['native_calls'] = nat.calls
            nat.stop()
        R['solver'] = {k: round(v, 3) for k, v in S.time.items()}; R['queries'] = S.queries
        R['wall'] = round(time.time() - t0, 3)
        return R

    def symrun(self, module, dem, S):
        ip = interp.Interp(module, S, dem, list(self.contracts), max_paths=self.max_paths, max_steps=self.max_steps)
        ip.simp = self.simp
        if self.roots: ip.roots = list(self.roots(self.v))
        ip.uv = self.v
        if self.ints: ip.ints = list(self.ints(self.v))
        if self.quots: ip.quots = list(self.quots(self.v))
        if self.loops: ip.loop_hooks = list(self.loops)
        st = ip.new_state()
        for c in self.prec: st.assume(c)
        if self.lemmas:
            for c in self.lemmas(self.v): st.assume(c)
        vals = []; outs = []
        for a in self.aspec:
            if a[0] == 'val':
                x = a[2]
                if not isinstance(x, T): x = Fraction(x) if a[1] == 'R' else int(x) & ((1 << 64) - 1)
                vals.append(x); continue
            if a[0] == 'arr':           # ('arr', sort, name, number of entries, (lo, hi) of the entries, entries made for native runs)
                p = ip.alloc(st, 0, a[2], 'arg'); o = ip.wobj(st, p.o)
                o.size = a[3] * 8; o.sym = (a[1], 8, a[2], a[4]); vals.append(p); continue
            items = a[2] if a[0] == 'in' else a[3] if a[0] == 'io' else [None] * a[3]
            p = ip.alloc(st, 8 * len(items), a[0] + (a[2] if a[0] != 'in' else ''), 'arg')
            o = st.mem[p.o]
            for i, x in enumerate(items):
                if x is None: continue
                if not isinstance(x, T): x = Fraction(x) if a[1] == 'R' else int(x) & ((1 << 64) - 1)
                o.cells[8 * i] = (8, x)
            vals.append(p)
            if a[0] != 'in': outs.append((a[2], a[1], p, len(items)))
        if self.setup: self.setup(ip, st)
        res = ip.run(st, '@' + self.fn, vals)
        self.ip = ip
        return ip, res, outs

    def outmap(self, ip, oc, outs):
        m = {}
        for n, s, p, k in outs:
            o = oc.st.mem[p.o]
            for i in range(k):
                t = E.mk('var', ('out.%s[%d]' % (n, i),), s)
                v = ip.load(oc.st, irparse.F64 if s == 'R' else irparse.IntTy(64), interp.Ptr(p.o, 8 * i))
                if v is interp.UNDEF:
                    m[t] = None; continue
                if s == 'I': v = ip.observe(oc.st, v, 64, True)
                elif isinstance(v, float): v = None
                m[t] = v
        if self.ret:
            t = E.mk('var', ('out.ret',), self.ret)
            v = oc.val
            if self.ret == 'I' and v is not interp.UNDEF: v = ip.observe(oc.st, v, 64, True)
            m[t] = None if v is interp.UNDEF or isinstance(v, float) else v
        return m

    def _run(self, R, S, nat, module, dem, rng, tier):
        nval = 12 if tier == 'quick' else 60
        nsamp = self.nsamp or (60 if tier == 'quick' else 600)
        envs = self.samples(rng, nsamp)
        if not envs:
            R['error'] = 'vacuous precondition: sampler found no input'; return
        if self.mute:
            R['error'] = 'the contract says nothing'; return
        R['pre_witness'] = len(envs)
        tmul = 1 if tier == 'quick' else 4
        fails = []          # (obligation, how, env or None, text)
        if self.sym:
            self.paths = []
            try:
                signal.signal(signal.SIGALRM, on_alarm); signal.setitimer(signal.ITIMER_REAL, max(5.0, min(self.limit or (120 if tier == 'quick' else 900), (deadline or 1e18) - time.time())), 3.0)
                self._sym(R, S, nat, module, dem, envs, nval, tmul, fails)
            except OutOfTime:
                R['undecided'].append(('unit', 'time budget of the unit exhausted'))
            except (MemoryError, RecursionError, Exception) as e:
                R['undecided'].append(('unit', 'engine failure: %s' % traceback.format_exc()[-260:]))
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        else:
            self.paths = []
            R['undecided'].append(('unit', 'no symbolic run: bounded stand-in only'))
        self._native(R, S, nat, rng, envs, nval, nsamp, fails, tier)

    def _sym(self, R, S, nat, module, dem, envs, nval, tmul, fails):
        if 1:
            if self.lemmas:
                for i, c in enumerate(self.lemmas(self.v)): self.oblig(R, S, fails, 'lemma %d' % i, self.prec, c, envs, None, tmul)
            ip, res, outs = self.symrun(module, dem, S)
            R['paths'] = len(res); R['contracts'] = dict(ip.used_contracts); R['lib'] = dict(ip.used_lib)
            R['entered'] = sorted(dem.get(x.lstrip('@'), x) for x in ip.entered)
            paths = []
            for pi, oc in enumerate(res):
                if oc.kind == 'unsupported':
                    R['undecided'].append(('path %d' % pi, oc.info)); continue
                if oc.kind in ('throw', 'error'):
                    goal = self.thr if oc.kind == 'throw' else False
                    nm = 'path %d: %s (%s) only where allowed' % (pi, oc.kind, oc.info)
                    self.oblig(R, S, fails, nm, oc.st.pc, goal, envs, None, tmul)
                    self.sides(R, S, fails, oc, envs, tmul, pi)
                    paths.append((oc, None)); continue
                m = self.outmap(ip, oc, outs)
                paths.append((oc, m))
                self.sides(R, S, fails, oc, envs, tmul, pi)
                if self.thr is not False:
                    self.oblig(R, S, fails, 'path %d: normal return only where no exception is due' % pi, oc.st.pc, E.not_(self.thr) if isinstance(self.thr, T) else not self.thr, envs, m, tmul)
                for n, c in self.clauses:
                    nm = '%s [path %d]' % (n, pi)
                    fv = [x for x in E.free_vars([c])] if isinstance(c, T) else []
                    if any(m.get(x, x) is None for x in fv):
                        fails.append((nm, 'uninitialised or non-finite output', self.path_env(oc, envs), '')); R['obl'].append((nm, 'refuted', 'uninitialised', 0)); continue
                    goal = E.subst([c], m)[0] if isinstance(c, T) else c
                    hyps = oc.st.pc
                    if self.hints: hyps = hyps + [h for h in self.hints(self.v, m) if h is not True]
                    self.oblig(R, S, fails, nm, hyps, goal, envs, m, tmul)
            for oc in ip.aux: self.sides(R, S, fails, oc, envs, tmul, 'iteration')
            if ip.loops_cut: R['loop_invariants'] = ip.loops_cut
            self.paths = paths
            self.validate(R, nat, paths, envs[:nval])

    def _native(self, R, S, nat, rng, envs, nval, nsamp, fails, tier):
        # native sampling: guards the translation, and stands in (bounded) for anything undecided
        seen = False
        for env in envs[:nsamp if (R['undecided'] or fails) else max(nval, nsamp // 3)]:
            v, d, r, args = self.check_native(nat, env)
            if v == 'bad':
                self.violation(R, d, env, r, args, 'sampled input'); seen = True; break
        if fails and not seen:
            for nm, how, env, txt in fails:
                if env is not None and self.confirm(R, nat, nm, how, env, S): seen = True; break
        if (fails or (R['undecided'] and not self.bounded)) and not seen:
            extra = 1500 if tier == 'quick' else 20000
            dl = time.time() + (30 if tier == 'quick' else 300)
            R['extra_samples'] = 0
            while extra > 0 and time.time() < dl:
                es = self.samples(rng, 100)
                if not es: break
                for env in es:
                    extra -= 1; R['extra_samples'] += 1
                    v, d, r, args = self.check_native(nat, env)
                    if v == 'bad':
                        self.violation(R, d, env, r, args, 'sampled input'); seen = True; break
                if seen: break
        if fails and not seen and any(n.startswith('validation:') for n in R['notes']):
            # the predictions of the verifier are not what the compiled code returns, and no input fails: its semantics is at fault, not the code
            for nm, how, env, txt in fails: R['undecided'].append((nm, 'refuted in a run whose predictions differ from the compiled code'))
        elif fails and not seen:
            nm, how, env, txt = fails[0]
            R['viol'].append({'obligation': nm, 'how': how, 'confirmed': False, 'model': fmt(env) if env else None, 'text': txt,
                              'all_failed': [f[0] for f in fails][:50]})

    def path_env(self, oc, envs):
        for env in envs:
            try:
                if all(x is True for x in E.evaluate(oc.st.pc, env, ufs=self.ufs)): return env
            except E.Undef: pass
        return None

    def sides(self, R, S, fails, oc, envs, tmul, pi):
        done = getattr(self, '_sd', None)
        if done is None: done = self._sd = set()
        for nm, k, f, where in oc.st.side:
            key = (tuple(x.id for x in oc.st.pc[:k]), f.id if isinstance(f, T) else f)
            if key in done: continue
            done.add(key)
            self.oblig(R, S, fails, 'safety: %s in %s [path %s]' % (nm, self.ip.dm(where)[:120], pi), oc.st.pc[:k], f, envs, None, tmul, side=True)

    def oblig(self, R, S, fails, nm, pc, goal, envs, m, tmul, side=False):
        t0 = time.time()
        if goal is True:
            R['obl'].append((nm, 'proved', 'constant folding', 0)); return
        # an equality that holds as a polynomial / rational identity
        env = None
        r = None
        if self.simp and isinstance(goal, T):
            goal = self.resolve_ites(pc, goal)
            if side and isinstance(goal, T) and goal.op == 'not' and goal.args[0].op == 'eq': goal = E.not_(E.eq(E.simp(goal.args[0].args[0], 64), E.simp(goal.args[0].args[1], 64)))
        if goal is True:
            R['obl'].append((nm, 'proved', 'path condition', round(time.time() - t0, 3))); return
        if isinstance(goal, T):
            gs = goal.args if goal.op == 'and' else (goal,)
            rest = []
            for g in gs:
                if any(p is g for p in pc): continue
                if g.op == 'eq' and E.sort_of(g.args[0]) in 'RI':
                    if S.prove_eq(E.toreal(g.args[0]) if isinstance(g.args[0], T) else g.args[0], E.toreal(g.args[1]) if isinstance(g.args[1], T) else g.args[1]) is True: continue
                rest.append(g)
            if not rest: r = ('proved', 'polynomial normal form')
            else: goal = E.and_(*rest)
        if r is None:
            env = self.find_env(pc, goal, envs)
            if env is not None: r = ('refuted', env, 'evaluation')
        if r is None:
            r = S.prove(list(pc), goal, self.timeout * tmul, use_cvc5=self.cvc5)
        dt = round(time.time() - t0, 3)
        if r[0] == 'proved':
            R['obl'].append((nm, 'proved', r[1], dt))
        elif r[0] == 'refuted':
            R['obl'].append((nm, 'refuted', r[2], dt))
            fails.append((nm, 'refuted by ' + r[2], self.complete(r[1]), 'goal: %s' % E.show(goal, 5)[:1500]))
        else:
            R['obl'].append((nm, 'undecided', r[1], dt))
            R['undecided'].append((nm, r[1]))

    def resolve_ites(self, pc, goal):
        """replace the conditions of the goal that the path condition literally decides (compared by normal form)"""
        keys = {}
        def key(c):
            k = ('k', c.id)
            if k not in self._kc:
                d = E.sub(c.args[0], c.args[1])
                n = E.simp(d, 64) if isinstance(d, T) else d; m = E.simp(E.neg(d), 64) if isinstance(d, T) else -d
                f = lambda x: x.id if isinstance(x, T) else ('c', x)
                self._kc[k] = (f(n), f(m))
            return self._kc[k]
        if not hasattr(self, '_kc'): self._kc = {}
        cs = [t.args[0] for t in E.topo([goal]) if t.op == 'ite']
        cs = [c for c in {c.id: c for c in cs if isinstance(c, T)}.values() if c.op in ('lt', 'le') and c.sort == 'B' and E.sort_of(c.args[0] if isinstance(c.args[0], T) else c.args[1]) == 'R']
        if not cs: return goal
        for c in pc:
            if isinstance(c, T) and c.op in ('lt', 'le') and E.sort_of(c.args[0] if isinstance(c.args[0], T) else c.args[1]) == 'R':
                a, b = key(c); keys[(c.op, a)] = True; keys[('le' if c.op == 'lt' else 'lt', b)] = False
        m = {}
        for c in cs:
            v = keys.get((c.op, key(c)[0]))
            if v is not None: m[c] = v
        return E.subst([goal], m)[0] if m else goal

    def complete(self, model):
        if model is None: return None
        env = {}
        for n, s, t, d in self.names:
            x = model.get(n)
            if x is None: x = Fraction(0) if s == 'R' else max(0, d[2] if len(d) > 2 and d[2] is not None else 0)
            env[n] = x
        return env

    def find_env(self, pc, goal, envs):
        """an input sample on this path that falsifies the goal (tolerantly)"""
        roots = list(pc) + [goal] if isinstance(goal, T) else list(pc)
        try:
            te = TE(roots)
            for env in envs:
                vs = te.run({k: tvar(x) for k, x in env.items()}, self.ufs)
                if isinstance(goal, T):
                    if vs[-1] is False and all(x is True for x in vs[:-1]): return env
                elif all(x is True for x in vs): return env
        except E.Undef:
            return None
        return None

    def validate(self, R, nat, paths, envs):
        """the symbolic result must predict the native one (guards the IR semantics)"""
        for env in envs:
            hit = None
            try:
                tenv = {k: tvar(x) for k, x in env.items()}
                for oc, m in paths:
                    if all(x is True for x in TE(oc.st.pc).run(tenv, self.ufs)): hit = (oc, m); break
                if hit is None: continue
                oc, m = hit
                args, r = self.native_call(nat, env)
                if m is None:
                    if oc.kind == 'error' and oc.info == 'abort' and r[0] == 'ret': R['notes'].append('validation: abort predicted, native returns (input %s)' % fmt(env)); continue
                    if (oc.kind == 'throw') != (r[0] == 'throw'): R['notes'].append('validation: exception mismatch')
                    else: R['validated'] += 1
                    continue
                if r[0] != 'ret':
                    R['notes'].append('validation: native %s where the symbolic run returns (input %s)' % (r[0], fmt(env))); continue
                oe = self.out_env(r, self.mag(env))
                ks = [k for k in m if m[k] is not None]
                pv = TE([m[k] for k in ks]).run(tenv, self.ufs)
                for k, p in zip(ks, pv):
                    if p is None: continue
                    if isinstance(p, bool): p = (int(p), 0)
                    q = oe[k.args[0]]
                    if not abs(p[0] - q[0]) <= 10 * (p[1] + q[1]):
                        R['notes'].append('validation: %s predicted %r native %r (input %s)' % (k.args[0], p[0], q[0], fmt(env))); break
                else: R['validated'] += 1
            except (E.Undef, interp.Unsupported) as e:
                R['notes'].append('validation skipped: %s' % e); return

    def confirm(self, R, nat, nm, how, env, S):
        env = {k: (Fraction(float(x)) if isinstance(x, Fraction) else x) for k, x in env.items()}
        try:
            if not all(x is True for x in E.evaluate(self.prec, env, ufs=self.ufs)): return False
            v, d, r, args = self.check_native(nat, env)
            if v == 'bad':
                self.violation(R, d, env, r, args, how + ', replayed'); return True
            # exact confirmation: native behaves as predicted and the prediction violates the contract exactly
            if r[0] != 'ret': return False
            for oc, m in self.paths:
                if m is None: continue
                if not all(x is True for x in E.evaluate(oc.st.pc, env, ufs=self.ufs)): continue
                ks = [k for k in m if m[k] is not None]
                pv = E.evaluate([m[k] for k in ks], env, ufs=self.ufs)
                oe = self.out_env(r, self.mag(env), tol=1e-11)
                pred = {}
                for k, p in zip(ks, pv):
                    if p is None: return False
                    q = oe[k.args[0]]
                    if abs(float(p) - float(q[0])) > q[1]: return False
                    pred[k.args[0]] = p
                e2 = dict(env); e2.update(pred)
                for n, c in self.clauses:
                    if E.evaluate([c], e2, ufs=self.ufs)[0] is False:
                        if all(s == 'I' for s in [x.sort for x in E.free_vars([c]) if x.args[0].startswith('out.')]):
                            self.violation(R, n, env, r, args, how + ', replayed (exact arithmetic)'); return True
        except E.Undef:
            return False
        return False

    def violation(self, R, clause, env, r, args, how):
        R['viol'].append({'obligation': clause, 'how': how, 'confirmed': True, 'input': fmt(env), 'args': repr(args)[:4000], 'native': repr(r)[:4000]})


def fmt(env):
    return {k: (str(x) if not isinstance(x, Fraction) else ('%.17g' % float(x))) for k, x in env.items()}


def norm(x):
    if isinstance(x, bool): return x
    if isinstance(x, int): return x
    if isinstance(x, float): return Fraction(x)
    return x


def default_real(rng):
    k = rng.random()
    if k < 0.4: return Fraction(rng.randint(-32, 32), 8)
    if k < 0.5: return Fraction(rng.choice([0, 1, -1, 2, -2]))
    return Fraction(rng.uniform(-3, 3))


def rf(x):
    """sample value for an R variable"""
    return Fraction(x)
