"""Inferred invariants for counting loops.

A loop `for (x = lo; x <= hi; ++x) body(x)` met with a symbolic trip count is cut at its header.  The invariant is
    lo <= x  and  (x == lo or the loop condition held at x-1)  and  G == G0 + { effect(y) : lo <= y < x }
where G is the ghost event log fed by the contracts of the containers (append to a list, write into a map ...), effect(y) is
what one arbitrary iteration does, and every memory cell an iteration writes is forgotten (reading it after the loop, or in an
iteration before writing it, is an error).  One arbitrary iteration is executed from the invariant to establish that it is
inductive: x is incremented by one, any other loop-carried value is unchanged, and the body has a single path.
Anything else makes the path unsupported."""
import expr as E
from expr import T
import interp as I


def succs(block):
    ins = block[-1]
    out = []
    def add(x):
        if isinstance(x, str): out.append(x)
    if ins.op == 'jmp': add(ins.a[0])
    elif ins.op == 'br': add(ins.a[1]); add(ins.a[2])
    elif ins.op == 'switch':
        for x in ins.a:
            if isinstance(x, str): add(x)
            elif isinstance(x, (list, tuple)):
                for y in x:
                    if isinstance(y, (list, tuple)): add(y[-1])
            elif isinstance(x, dict):
                for y in x.values(): add(y)
    for i in block:
        if i.op == 'call':
            add(i.a[3]); add(i.a[4])
    return [x for x in out if x is not None]


def loopinfo(f):
    """header -> set of blocks of its natural loop"""
    L = getattr(f, 'loops', None)
    if L is not None: return L
    bl = f.blocks; entry = f.entry if f.entry in bl else next(iter(bl))
    S = {b: [x for x in succs(v) if x in bl] for b, v in bl.items()}
    P = {b: [] for b in bl}
    for b, ss in S.items():
        for s in ss: P[s].append(b)
    # back edges by depth first search
    color = {}; back = []
    stack = [(entry, iter(S[entry]))]; color[entry] = 1
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in color: color[s] = 1; stack.append((s, iter(S[s]))); break
            if color[s] == 1: back.append((b, s))
        else:
            color[b] = 2; stack.pop()
    L = {}
    for b, h in back:
        body = L.setdefault(h, {h}); w = [b]
        while w:
            x = w.pop()
            if x in body: continue
            body.add(x); w.extend(P[x])
    f.loops = L
    return L


def phis(block):
    out = []
    for i in block:
        if i.op != 'phi': break
        out.append(i)
    return out


def test_blocks(f, h):
    """the blocks from the header to the branch that tests the loop condition"""
    out = {h}
    while True:
        ins = f.blocks[h][-1]
        nx = ins.a[0] if ins.op == 'jmp' else ins.a[3] if ins.op == 'call' else None
        if nx is None or nx in out: return out
        out.add(nx); h = nx


counter = [0]


def auto(rx):
    def hook(ip, st, fr):
        if st.ghost.get('enter'): st.ghost['enter'] = None; return None      # resuming at the header of the loop being summarised
        stk = st.ghost.get('loops')
        depth = len(st.frames)
        if stk:
            d, h, body = stk[-1]
            if st.ghost.get('trial'):
                if depth < d or depth == d and fr.b not in body: return I.Outcome('exit', st)
                return None
            if depth == d:
                if fr.b == h and fr.prev in body: return I.Outcome('back', st)
                if fr.b not in body: return I.Outcome('exit', st)
            elif depth < d: return I.Outcome('exit', st)
        L = loopinfo(fr.f)
        if fr.b not in L or fr.prev in L[fr.b] or not rx.search(ip.dm(fr.f.name)): return None
        return summarise(ip, st, fr, L[fr.b])
    return hook


def changed(a, b):
    """cells of objects of state a that differ in b"""
    out = {}
    for o, x in a.mem.items():
        y = b.mem.get(o)
        if y is x or y is None: continue
        if x.freed != y.freed: raise I.Unsupported('loop frees an object of the context')
        ks = {k for k in set(x.cells) | set(y.cells) if x.cells.get(k) is not y.cells.get(k) and x.cells.get(k) != y.cells.get(k)}
        if x.sym is not y.sym or len(x.log) != len(y.log): raise I.Unsupported('loop writes at symbolic offsets')
        if ks: out[o] = ks
    return out


def summarise(ip, st, fr, body):
    h = fr.b; depth = len(st.frames)
    ps = phis(fr.f.blocks[h])
    init = [ip.val(st, fr.env, p.a[1][fr.prev], p.a[0]) for p in ps]
    # is the trip count symbolic at all?
    ints = [k for k, p in enumerate(ps) if p.a[0].k == 'i']
    counter[0] += 1
    xs = {}
    for k in ints: xs[k] = E.mk('var', ('loop%d_%d' % (counter[0], k),), 'I')
    t = st.clone(); tf = t.frames[-1]
    for p, v in zip(ps, init): tf.env[p.dst] = v
    tf.ip = len(ps)
    t.ghost['loops'] = list(t.ghost.get('loops', [])) + [(depth, h, test_blocks(fr.f, h))]; t.ghost['trial'] = True; t.ghost['enter'] = not ps
    nb = ip.nbranch
    o0 = ip.explore(t)
    if ip.nbranch == nb: return None          # the condition is a constant: unroll
    inv = set(range(len(ps))) - set(ints)
    havoc = {}
    slot = None                                 # a counter kept in memory: (object, offset, size), its initial value and its variable
    for attempt in range(6):
        s = st.clone(); f = s.frames[-1]
        for k, p in enumerate(ps): f.env[p.dst] = init[k] if k in inv else xs[k]
        f.ip = len(ps)
        s.ghost['loops'] = list(s.ghost.get('loops', [])) + [(depth, h, body)]; s.ghost['enter'] = not ps
        n0 = len(s.ghost.get('ev', []))
        for o, ks in havoc.items():
            ob = ip.wobj(s, o)
            for c in ks:
                if slot is None or (o, c) != slot[0][:2]: ob.cells.pop(c, None)
        if slot is not None:
            (o, c, n), lo, X = slot
            ip.wobj(s, o).cells[c] = (n, X)
            lo = ip.observe(s, lo, 8 * n, True) if isinstance(lo, T) else I.sgn(lo, 8 * n)
            s.assume(E.le(lo, X))
            ip.solver.vb.setdefault(X.args[0], (ip.solver.bounds(lo)[0] if isinstance(lo, T) else lo, (1 << 62)))
        base = s.clone()
        act = [k for k in ints if k not in inv]
        for k in act:
            lo = ip.observe(s, init[k], ps[k].a[0].n, True) if isinstance(init[k], T) else I.sgn(init[k], ps[k].a[0].n)
            s.assume(E.le(lo, xs[k]))
            ip.solver.vb.setdefault(xs[k].args[0], (ip.solver.bounds(lo)[0] if isinstance(lo, T) else lo, (1 << 62)))
        npc = len(s.pc)
        outs = ip.explore(s)
        back = [o for o in outs if o.kind == 'back']; ex = [o for o in outs if o.kind == 'exit']
        bad = [o for o in outs if o.kind not in ('back', 'exit')]
        if bad: raise I.Unsupported('loop body ends with %s (%s)' % (bad[0].kind, bad[0].info))
        if len(back) != 1 or len(ex) != 1 and (slot is not None or ints): raise I.Unsupported('loop body has %d iteration paths and %d exits' % (len(back), len(ex)))
        b = back[0].st; bf = b.frames[-1]
        redo = False
        ind = None
        for k, p in enumerate(ps):
            v = ip.val(b, bf.env, p.a[1][bf.prev], p.a[0])
            if k in inv:
                if not ip.same(v, init[k]): raise I.Unsupported('loop-carried value')
            elif ip.same(v, xs[k]): inv.add(k); redo = True
            elif isinstance(v, T) and E.eq(v, xs[k] + 1) is True: ind = k
            else: raise I.Unsupported('loop-carried value is not a counter')
        ch = changed(base, b)
        if slot is None and ind is None:
            for o, ks in ch.items():
                for c in ks:
                    x, y = base.mem[o].cells.get(c), b.mem[o].cells.get(c)
                    if x is None or y is None or x[0] != y[0] or x[0] not in (4, 8): continue
                    if not all(isinstance(z, (int, T)) and not isinstance(z, bool) for z in (x[1], y[1])): continue
                    d = E.eq(y[1], x[1] + 1) if isinstance(x[1], T) or isinstance(y[1], T) else y[1] == x[1] + 1
                    if d is True and slot is None:
                        slot = ((o, c, x[0]), x[1], E.mk('var', ('loop%d_m' % counter[0],), 'I')); redo = True
        if slot is not None:
            (o, c, n), _, X = slot
            if not redo:
                y = b.mem[o].cells.get(c)
                if y is None or y[0] != n or not isinstance(y[1], T) or E.eq(y[1], X + 1) is not True: raise I.Unsupported('loop-carried cell is not a counter')
            ch = {k: (ks - {c} if k == o else ks) for k, ks in ch.items()}
        for o, ks in ch.items():
            if not ks <= havoc.get(o, set()): havoc.setdefault(o, set()).update(ks); redo = True
        if redo: continue
        break
    else: raise I.Unsupported('loop invariant not inductive')
    if (ind is not None) + (slot is not None) != 1 or len([k for k in ints if k not in inv]) != (ind is not None): raise I.Unsupported('loop without a single counter')
    if ind is not None: X = xs[ind]; w = ps[ind].a[0].n; lo = init[ind]
    else: (mo, mc, mn), lo, X = slot; w = 8 * mn
    lo = ip.observe(st, lo, w, True) if isinstance(lo, T) else I.sgn(lo, w)
    # the loop condition: what the iteration path assumed about the counter in the header
    cond = [c for c in b.pc[npc:] if X in E.free_vars([c])]
    if not cond: raise I.Unsupported('loop condition')
    hi = upper(ip, cond[0], X)
    if hi is None or X in (E.free_vars([hi]) if isinstance(hi, T) else []): raise I.Unsupported('loop bound %s' % (cond[0],))
    ip.aux.append(I.Outcome('aux', b))
    e = ex[0].st
    ev = b.ghost.get('ev', [])[n0:]
    if len(e.ghost.get('ev', [])) != n0: raise I.Unsupported('effect on loop exit')
    e.ghost['loops'] = list(st.ghost.get('loops', []))
    e.ghost['ev'] = list(e.ghost.get('ev', [])) + [('all', X, lo, hi, x) for x in ev]
    for g, v in b.ghost.items():          # records of pure facts made by an iteration (e.g. the coordinates of a cell index)
        if g.startswith('rec'): e.ghost.setdefault(g, {}); e.ghost[g] = {**v, **e.ghost[g]}
    m = {X: E.ite(E.le(lo, hi), hi + 1, lo)}           # value of the counter after the loop
    sb = lambda v: E.subst([v], m)[0] if isinstance(v, T) else v
    ef = e.frames[-1]
    for k, v in list(ef.env.items()):
        if isinstance(v, T): ef.env[k] = sb(v)
    if slot is not None: ip.wobj(e, mo).cells[mc] = (mn, m[X])
    pc = []
    for c in e.pc:
        c2 = sb(c)
        pc.append(c2 if isinstance(c2, T) else (pc[0] if pc else None))
    if c2 is False or any(c is None for c in pc): raise I.Unsupported('loop exit condition')
    e.pc = pc; e.pcs = {c.id for c in pc} if all(isinstance(x, int) for x in e.pcs) else set(pc)
    e.side = [(n, k, sb(g), w) for n, k, g, w in e.side]
    ip.loops_cut = getattr(ip, 'loops_cut', 0) + 1
    return [e]


def upper(ip, c, X):
    """c is X <= hi or X < hi, up to linear rearrangement -> hi"""
    if not isinstance(c, T) or c.op not in ('le', 'lt'): return None
    a, b = c.args
    k = 1 if c.op == 'lt' else 0
    if a is X: hi = b
    else:
        d = E.sub(b, a)
        hi = E.subst([d], {X: 0})[0]
        if ip.solver.valid([], E.eq(d, E.sub(hi, X)), quick=True) is not True: return None
    return E.sub(hi, k)
