"""Parser for textual LLVM IR (LLVM 18, opaque pointers).

Produces decoded instructions which engine/interp.py executes symbolically.  Functions are decoded
lazily (only the ones reached by a harness)."""
import re, struct
from fractions import Fraction

TOK = re.compile(r'''
   (?P<str>c?"(?:[^"])*")
 | (?P<loc>%(?:"[^"]*"|[-\w$.]+))
 | (?P<glob>@(?:"[^"]*"|[-\w$.]+))
 | (?P<hexf>0x[KMLHR]?[0-9A-Fa-f]+)
 | (?P<fp>-?\d+\.\d*(?:e[+-]?\d+)?)
 | (?P<num>-?\d+)
 | (?P<attr>\#\d+)
 | (?P<meta>!(?:"[^"]*"|[-\w$.]*))
 | (?P<word>[A-Za-z_$][-\w$.]*)
 | (?P<punct>\.\.\.|[()\[\]{}<>,=*:|&])
 | (?P<ws>\s+)
''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            raise SyntaxError('bad token at %r' % s[pos:pos + 40])
        pos = m.end()
        k = m.lastgroup
        if k == 'ws':
            continue
        out.append((k, m.group()))
    return out


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'n', 'elts', 'size', 'align', 'offs', 'name', 'packed')

    def __init__(self, k, n=0, elts=None, name=None, packed=False):
        self.k = k; self.n = n; self.elts = elts; self.name = name; self.packed = packed
        self.size = None; self.align = None; self.offs = None

    def __repr__(self):
        if self.k == 'i': return 'i%d' % self.n
        if self.k == 'arr': return '[%d x %r]' % (self.n, self.elts)
        if self.k == 'vec': return '<%d x %r>' % (self.n, self.elts)
        if self.k == 'struct': return self.name or '{%s}' % ', '.join(map(repr, self.elts))
        return self.k


VOID = Ty('void'); PTR = Ty('ptr'); F64 = Ty('double'); F32 = Ty('float'); F80 = Ty('x86_fp80')
LABEL = Ty('label'); META = Ty('metadata'); TOKEN = Ty('token')
_ints = {}


def IntTy(n):
    t = _ints.get(n)
    if t is None:
        t = _ints[n] = Ty('i', n)
    return t


PRIM = {'void': VOID, 'ptr': PTR, 'double': F64, 'float': F32, 'x86_fp80': F80, 'label': LABEL,
        'metadata': META, 'token': TOKEN}


def _al(x, a):
    return (x + a - 1) // a * a


def layout(t):
    if t.size is not None:
        return
    k = t.k
    if k == 'i':
        b = (t.n + 7) // 8
        p = 1
        while p < b: p *= 2
        t.size = p; t.align = min(p, 16)
    elif k in ('ptr', 'double'):
        t.size = 8; t.align = 8
    elif k == 'float':
        t.size = 4; t.align = 4
    elif k == 'x86_fp80':
        t.size = 16; t.align = 16
    elif k == 'arr':
        layout(t.elts); t.size = t.n * t.elts.size; t.align = t.elts.align
    elif k == 'vec':
        layout(t.elts); t.size = t.n * t.elts.size
        p = 1
        while p < t.size: p *= 2
        t.size = p; t.align = p
    elif k == 'struct':
        if t.elts is None:
            raise TypeError('opaque ' + str(t.name))
        o = 0; a = 1; offs = []
        for e in t.elts:
            layout(e)
            ea = 1 if t.packed else e.align
            o = _al(o, ea); offs.append(o); o += e.size; a = max(a, ea)
        t.size = _al(o, a); t.align = a; t.offs = offs
    elif k == 'void':
        t.size = 0; t.align = 1
    else:
        raise TypeError('no layout for ' + k)


def sizeof(t):
    if t.size is None: layout(t)
    return t.size


# ---------------------------------------------------------------- operand encodings
# ('c', value)  constant python value      ('l', name) local      ('g', name) global address
# ('undef',)  ('zero', ty)  ('agg', ty, [ops])  ('str', bytes)  ('gep', basety, op, [ops])
# ('cast', op, operand, toty)

PARAM_ATTRS = {'noundef', 'nonnull', 'signext', 'zeroext', 'inreg', 'noalias', 'nocapture', 'readonly', 'readnone',
               'writeonly', 'writable', 'returned', 'immarg', 'dead_on_unwind', 'swiftself', 'nofree', 'nest',
               'allocptr', 'allocalign', 'noext'}
FN_ATTR_WORDS = {'unnamed_addr', 'local_unnamed_addr', 'comdat', 'nounwind', 'dso_local', 'noreturn', 'cold',
                 'builtin', 'nobuiltin'}
LINK = {'private', 'internal', 'linkonce_odr', 'linkonce', 'weak', 'weak_odr', 'external', 'available_externally',
        'dso_local', 'dso_preemptable', 'hidden', 'protected', 'default', 'unnamed_addr', 'local_unnamed_addr',
        'thread_local', 'externally_initialized', 'common', 'appending', 'extern_weak'}


class P:
    """token cursor"""
    def __init__(self, mod, toks):
        self.m = mod; self.t = toks; self.i = 0

    def peek(self, o=0):
        return self.t[self.i + o][1] if self.i + o < len(self.t) else None

    def kind(self, o=0):
        return self.t[self.i + o][0] if self.i + o < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]; self.i += 1; return v

    def accept(self, s):
        if self.i < len(self.t) and self.t[self.i][1] == s:
            self.i += 1; return True
        return False

    def expect(self, s):
        v = self.next()
        if v != s:
            raise SyntaxError('expected %r got %r near %r' % (s, v, [x[1] for x in self.t[max(0, self.i - 6):self.i + 6]]))

    # types
    def is_type(self):
        k, v = self.kind(), self.peek()
        if v is None: return False
        if k == 'word':
            return v in PRIM or bool(re.match(r'i\d+$', v)) or v == 'opaque'
        if k == 'loc':
            return v in self.m.types
        return v in ('[', '{', '<')

    def type(self):
        k, v = self.t[self.i]
        self.i += 1
        if k == 'word':
            if v in PRIM:
                t = PRIM[v]
                if v == 'ptr' and self.peek() == 'addrspace':
                    self.i += 4
            elif v[0] == 'i':
                t = IntTy(int(v[1:]))
            elif v == 'opaque':
                t = Ty('struct', elts=None)
            else:
                raise SyntaxError('type ' + v)
        elif k == 'loc':
            t = self.m.named(v)
        elif v == '[':
            n = int(self.next()); self.expect('x'); e = self.type(); self.expect(']')
            t = Ty('arr', n, e)
        elif v == '<':
            if self.peek() == '{':
                self.next()
                el = self._tylist('}'); self.expect('>')
                t = Ty('struct', elts=el, packed=True)
            else:
                n = int(self.next()); self.expect('x'); e = self.type(); self.expect('>')
                t = Ty('vec', n, e)
        elif v == '{':
            t = Ty('struct', elts=self._tylist('}'))
        else:
            raise SyntaxError('type ' + v)
        # function type
        if self.peek() == '(' and k == 'word' or (self.peek() == '(' and v in ('}', ')')):
            # only called in contexts where a function type may follow (call with fn type)
            save = self.i
            try:
                self.next()
                while not self.accept(')'):
                    if self.accept('...') or self.accept(','):
                        continue
                    self.type(); self.param_attrs()
                self.last_fn = True
            except SyntaxError:
                self.i = save
        return t

    def _tylist(self, end):
        el = []
        while not self.accept(end):
            if self.accept(','): continue
            el.append(self.type())
        return el

    def param_attrs(self):
        at = {}
        while True:
            v = self.peek()
            if v in PARAM_ATTRS:
                self.next(); at[v] = True
            elif v in ('align',):
                self.next()
                if self.accept('('):
                    self.next(); self.expect(')')
                else:
                    self.next()
            elif v in ('sret', 'byval', 'byref', 'inalloca', 'preallocated', 'elementtype'):
                self.next(); self.expect('('); at[v] = self.type(); self.expect(')')
            elif v in ('dereferenceable', 'dereferenceable_or_null', 'captures', 'initializes', 'memory', 'range', 'nofpclass'):
                self.next(); self.expect('(')
                d = 1
                while d:
                    x = self.next()
                    if x == '(': d += 1
                    elif x == ')': d -= 1
            else:
                return at

    # operands
    def operand(self, ty):
        k, v = self.t[self.i]
        self.i += 1
        if k == 'loc':
            return ('l', v)
        if k == 'glob':
            return ('g', v)
        if k == 'num':
            if ty.k == 'i':
                return ('c', int(v) & ((1 << ty.n) - 1))
            return ('c', Fraction(int(v)))
        if k == 'fp':
            return ('c', Fraction(float(v)))
        if k == 'hexf':
            if v[2] in 'KMLHR':
                if v[2] == 'K':
                    raw = int(v[3:], 16)
                    se = raw >> 64; man = raw & ((1 << 64) - 1)
                    s = -1 if se >> 15 else 1; e = se & 0x7fff
                    if man == 0: return ('c', Fraction(0))
                    return ('c', s * Fraction(man) * Fraction(2) ** (e - 16383 - 63))
                raise SyntaxError('hex fp ' + v)
            d = struct.unpack('>d', struct.pack('>Q', int(v, 16)))[0]
            if d != d or d in (float('inf'), float('-inf')):
                return ('c', d)
            return ('c', Fraction(d))
        if k == 'str':
            s = v[2:-1] if v[0] == 'c' else v[1:-1]
            return ('str', _unescape(s))
        if k == 'meta':
            return ('meta', v)
        if v == 'true': return ('c', True)
        if v == 'false': return ('c', False)
        if v == 'null': return ('null',)
        if v == 'none': return ('null',)
        if v in ('undef', 'poison'): return ('undef',)
        if v == 'zeroinitializer': return ('zero', ty)
        if v in ('{', '[', '<'):
            end = {'{': '}', '[': ']', '<': '>'}[v]
            packed = False
            if v == '<' and self.peek() == '{':
                self.next(); end = '}'; packed = True
            els = []
            while not self.accept(end):
                if self.accept(','): continue
                et = self.type(); els.append((et, self.operand(et)))
            if packed: self.expect('>')
            return ('agg', ty, els)
        if v == 'getelementptr':
            self.accept('inbounds'); self.accept('nuw')
            if self.accept('inrange'):
                self.expect('(')
                while not self.accept(')'): self.next()
            self.expect('(')
            bt = self.type(); self.expect(',')
            pt = self.type(); base = self.operand(pt)
            idx = []
            while self.accept(','):
                self.accept('inrange')
                it = self.type(); idx.append((it, self.operand(it)))
            self.expect(')')
            return ('gep', bt, base, idx)
        if v in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast', 'trunc', 'zext', 'sext'):
            self.expect('('); st = self.type(); o = self.operand(st); self.expect('to'); tt = self.type(); self.expect(')')
            return ('cast', v, st, o, tt)
        if v in ('add', 'sub', 'mul', 'xor', 'and', 'or'):
            while self.peek() in ('nuw', 'nsw'): self.next()
            self.expect('('); st = self.type(); a = self.operand(st); self.expect(','); self.type(); b = self.operand(st); self.expect(')')
            return ('cbin', v, st, a, b)
        raise SyntaxError('operand %r' % v)


def _unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        c = s[i]
        if c == '\\':
            out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out += c.encode('utf-8'); i += 1
    return bytes(out)


class Global:
    __slots__ = ('name', 'ty', 'init', 'const', 'external')


class Func:
    __slots__ = ('name', 'rty', 'params', 'lines', 'blocks', 'entry', 'decl', 'order', 'pidx', 'demangled', 'vararg', 'loops')


class Ins:
    __slots__ = ('op', 'dst', 'a', 'line')

    def __init__(self, op, dst, a, line):
        self.op = op; self.dst = dst; self.a = a; self.line = line

    def __repr__(self):
        return self.line


class Module:
    def __init__(self, text):
        self.types = {}
        self._typesrc = {}
        self.globals = {}
        self.funcs = {}
        self.aliases = {}
        self._scan(text)

    def named(self, n):
        t = self.types[n]
        if t.k == 'pending':
            t.k = 'struct'
            p = P(self, tokenize(self._typesrc[n]))
            b = p.type()
            t.elts = b.elts; t.packed = b.packed
            if b.k != 'struct':
                t.k = b.k; t.n = b.n
        return t

    def _scan(self, text):
        lines = text.split('\n')
        i = 0; n = len(lines)
        gl = []
        while i < n:
            ln = lines[i]
            if ln.startswith('define'):
                j = i + 1
                while lines[j] != '}': j += 1
                self._add_func(ln, lines[i + 1:j])
                i = j + 1
                continue
            if ln.startswith('%') and ' = type ' in ln:
                nm, src = ln.split(' = type ', 1)
                t = Ty('pending', name=nm); self.types[nm] = t; self._typesrc[nm] = src
            elif ln.startswith('@'):
                gl.append(ln)
            elif ln.startswith('declare'):
                self._add_func(ln, None)
            i += 1
        for ln in gl:
            m = re.match(r'(@(?:"[^"]*"|[-\w$.]+)) = (.*)', ln)
            g = Global(); g.name = m.group(1)
            rest = m.group(2)
            am = re.match(r'(?:[\w]+ )*?alias ', rest)
            if am:
                # alias <ty>, ptr @target
                self.aliases[g.name] = re.findall(r'@(?:"[^"]*"|[-\w$.]+)', rest)[-1]
                continue
            g.init = None; g.ty = rest; g.const = False; g.external = False
            self.globals[g.name] = g

    def global_(self, name):
        g = self.globals.get(name)
        if g is None: return None
        if isinstance(g.ty, str):
            toks = tokenize(re.sub(r', (?:section|comdat|align|!).*$', '', g.ty) if ', comdat' in g.ty or ', align' in g.ty else g.ty)
            p = P(self, toks)
            ext = False
            while True:
                v = p.peek()
                if v in ('external', 'extern_weak'): ext = True
                if v in LINK:
                    p.next()
                    if v == 'thread_local' and p.peek() == '(':
                        p.next(); p.next(); p.next()
                elif v == 'addrspace':
                    p.next(); p.next(); p.next(); p.next()
                else: break
            kind = p.next()  # constant | global
            g.const = kind == 'constant'
            g.ty = p.type()
            g.external = ext
            if not ext:
                g.init = p.operand(g.ty)
        return g

    def _add_func(self, head, body):
        m = re.search(r'@(?:"[^"]*"|[-\w$.]+)(?=\()', head)
        if not m:
            return
        f = Func(); f.name = m.group(0); f.lines = body; f.blocks = None; f.decl = body is None
        f.params = None; f.rty = head; f.demangled = None; f.loops = None
        if f.name in self.funcs and f.decl:
            return
        self.funcs[f.name] = f

    def func(self, name):
        name = self.aliases.get(name, name)
        f = self.funcs.get(name)
        if f is None: return None
        if isinstance(f.rty, str):
            head = f.rty
            toks = tokenize(head.split(' !dbg')[0])
            p = P(self, toks)
            p.next()
            while p.peek() in LINK or p.peek() in ('fastcc', 'ccc', 'noundef', 'signext', 'zeroext', 'nonnull', 'noalias', 'align',
                                                    'dereferenceable', 'dereferenceable_or_null', 'range', 'nofpclass') or p.kind() == 'num':
                if p.peek() in ('dereferenceable', 'dereferenceable_or_null', 'align', 'range', 'nofpclass'):
                    p.param_attrs()
                else:
                    p.next()
            # avoid function-type parse: parse type then expect @name
            f.rty = p.type()
            assert p.next() == f.name, (head, p.peek())
            p.expect('(')
            f.params = []; f.vararg = False
            while not p.accept(')'):
                if p.accept(','): continue
                if p.accept('...'): f.vararg = True; continue
                t = p.type(); at = p.param_attrs()
                nm = p.next() if p.kind() == 'loc' else '%' + str(len(f.params))
                f.params.append((nm, t, at))
        if f.blocks is None and not f.decl:
            self._decode(f)
        return f

    def _decode(self, f):
        # join continuation lines
        ins = []
        for ln in f.lines:
            if not ln.strip() or ln.lstrip().startswith(';'):
                continue
            if ln[0] != ' ':
                ins.append(('L', ln)); continue
            if ln.startswith('   ') or ln.strip() == ']':
                k, s = ins[-1]; ins[-1] = (k, s + ' ' + ln.strip())
            else:
                ins.append(('I', ln.strip()))
        f.blocks = {}; f.order = []
        cur = None
        first = True
        for k, s in ins:
            if k == 'L':
                nm = s.split(':')[0]
                if nm.startswith('"'): nm = nm
                cur = '%' + nm
                f.blocks[cur] = []; f.order.append(cur); first = False
                continue
            if cur is None:
                cur = '%' + str(len(f.params))
                f.blocks[cur] = []; f.order.append(cur)
            f.blocks[cur].append(self._ins(s))
        f.entry = f.order[0]
        f.lines = None

    def _ins(self, s):
        src = s
        # strip trailing metadata
        s = re.sub(r'(, ![\w.]+ ![\w.]+)+$', '', s)
        s = re.sub(r', !(srcloc|tbaa|range|prof|llvm\.loop|noundef|nonnull|align|dereferenceable|invariant\.group|heapallocsite|nosanitize) ![\w.]+', '', s)
        p = P(self, tokenize(s))
        dst = None
        if p.kind() == 'loc' and p.peek(1) == '=':
            dst = p.next(); p.next()
        op = p.next()
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()
        h = getattr(self, '_i_' + op, None)
        if h is None:
            if op in BIN:
                h = self._bin
            elif op in CASTS:
                h = self._cast
            else:
                return Ins('unsupported', dst, (op,), src)
        o, a = h(p, op)
        return Ins(o, dst, a, src)

    def _bin(self, p, op):
        fl = []
        while p.peek() in FLAGS: fl.append(p.next())
        t = p.type(); a = p.operand(t); p.expect(','); b = p.operand(t)
        return ('bin', (op, t, a, b, fl))

    def _cast(self, p, op):
        while p.peek() in ('nneg', 'nuw', 'nsw'): p.next()
        t = p.type(); a = p.operand(t); p.expect('to'); t2 = p.type()
        return ('cast', (op, t, a, t2))

    def _i_fneg(self, p, op):
        while p.peek() in FLAGS: p.next()
        t = p.type(); return ('fneg', (t, p.operand(t)))

    def _i_freeze(self, p, op):
        t = p.type(); return ('freeze', (t, p.operand(t)))

    def _i_icmp(self, p, op):
        pr = p.next(); t = p.type(); a = p.operand(t); p.expect(','); b = p.operand(t)
        return ('icmp', (pr, t, a, b))

    def _i_fcmp(self, p, op):
        while p.peek() in FLAGS: p.next()
        pr = p.next(); t = p.type(); a = p.operand(t); p.expect(','); b = p.operand(t)
        return ('fcmp', (pr, t, a, b))

    def _i_select(self, p, op):
        while p.peek() in FLAGS: p.next()
        ct = p.type(); c = p.operand(ct); p.expect(','); t = p.type(); a = p.operand(t); p.expect(','); p.type(); b = p.operand(t)
        return ('select', (ct, c, t, a, b))

    def _i_phi(self, p, op):
        while p.peek() in FLAGS: p.next()
        t = p.type(); inc = {}
        while True:
            p.expect('['); v = p.operand(t); p.expect(','); b = p.next(); p.expect(']')
            inc[b] = v
            if not p.accept(','): break
        return ('phi', (t, inc))

    def _i_br(self, p, op):
        if p.accept('label'):
            return ('jmp', (p.next(),))
        p.type(); c = p.operand(IntTy(1)); p.expect(','); p.expect('label'); a = p.next(); p.expect(','); p.expect('label'); b = p.next()
        return ('br', (c, a, b))

    def _i_switch(self, p, op):
        t = p.type(); v = p.operand(t); p.expect(','); p.expect('label'); d = p.next(); p.expect('[')
        cases = []
        while not p.accept(']'):
            ct = p.type(); c = p.operand(ct); p.expect(','); p.expect('label'); cases.append((c[1], p.next()))
        return ('switch', (t, v, d, cases))

    def _i_ret(self, p, op):
        t = p.type()
        if t.k == 'void': return ('ret', (t, None))
        return ('ret', (t, p.operand(t)))

    def _i_unreachable(self, p, op):
        return ('unreachable', ())

    def _i_alloca(self, p, op):
        p.accept('inalloca')
        t = p.type(); n = ('c', 1); nt = IntTy(32)
        if p.accept(',') and p.is_type():
            nt = p.type(); n = p.operand(nt)
        return ('alloca', (t, nt, n))

    def _i_load(self, p, op):
        p.accept('atomic'); p.accept('volatile')
        t = p.type(); p.expect(','); pt = p.type(); a = p.operand(pt)
        return ('load', (t, a))

    def _i_store(self, p, op):
        p.accept('atomic'); p.accept('volatile')
        t = p.type(); v = p.operand(t); p.expect(','); pt = p.type(); a = p.operand(pt)
        return ('store', (t, v, a))

    def _i_getelementptr(self, p, op):
        while p.peek() in ('inbounds', 'nuw', 'nusw'): p.next()
        bt = p.type(); p.expect(','); pt = p.type(); b = p.operand(pt)
        idx = []
        while p.accept(','):
            it = p.type(); idx.append((it, p.operand(it)))
        return ('gep', (bt, b, idx))

    def _i_extractvalue(self, p, op):
        t = p.type(); a = p.operand(t); idx = []
        while p.accept(','): idx.append(int(p.next()))
        return ('extractvalue', (t, a, idx))

    def _i_insertvalue(self, p, op):
        t = p.type(); a = p.operand(t); p.expect(','); t2 = p.type(); b = p.operand(t2); idx = []
        while p.accept(','): idx.append(int(p.next()))
        return ('insertvalue', (t, a, t2, b, idx))

    def _i_extractelement(self, p, op):
        t = p.type(); a = p.operand(t); p.expect(','); it = p.type(); i = p.operand(it)
        return ('extractelement', (t, a, i))

    def _i_insertelement(self, p, op):
        t = p.type(); a = p.operand(t); p.expect(','); t2 = p.type(); b = p.operand(t2); p.expect(','); it = p.type(); i = p.operand(it)
        return ('insertelement', (t, a, b, i))

    def _i_shufflevector(self, p, op):
        t = p.type(); a = p.operand(t); p.expect(','); p.type(); b = p.operand(t); p.expect(','); mt = p.type(); m = p.operand(mt)
        return ('shufflevector', (t, a, b, mt, m))

    def _i_landingpad(self, p, op):
        t = p.type()
        cleanup = False; clauses = []
        while p.peek() is not None:
            if p.accept('cleanup'): cleanup = True
            elif p.accept('catch'):
                ct = p.type(); clauses.append(p.operand(ct))
            elif p.accept('filter'):
                ct = p.type(); clauses.append(('filter', p.operand(ct)))
            else: break
        return ('landingpad', (t, cleanup, clauses))

    def _i_resume(self, p, op):
        t = p.type(); return ('resume', (t, p.operand(t)))

    def _i_fence(self, p, op):
        return ('nop', ())

    def _i_cmpxchg(self, p, op):
        p.accept('weak'); p.accept('volatile')
        pt = p.type(); a = p.operand(pt); p.expect(','); t = p.type(); c = p.operand(t); p.expect(','); p.type(); n = p.operand(t)
        return ('cmpxchg', (a, t, c, n))

    def _i_atomicrmw(self, p, op):
        p.accept('volatile'); o = p.next(); pt = p.type(); a = p.operand(pt); p.expect(','); t = p.type(); v = p.operand(t)
        return ('atomicrmw', (o, a, t, v))

    def _i_call(self, p, op):
        return self._call(p, 'call')

    def _i_invoke(self, p, op):
        return self._call(p, 'invoke')

    def _call(self, p, op):
        while p.peek() in FLAGS or p.peek() in ('fastcc', 'ccc', 'coldcc'): p.next()
        p.param_attrs()
        rt = p.type()
        if p.peek() == '(':
            # function type given explicitly
            p.next(); d = 1
            while d:
                x = p.next()
                if x == '(': d += 1
                elif x == ')': d -= 1
        if p.peek() == 'asm':
            return ('asm', (rt,))
        callee = p.operand(PTR)
        p.expect('(')
        args = []
        while not p.accept(')'):
            if p.accept(','): continue
            t = p.type(); at = p.param_attrs()
            if t.k == 'metadata':
                # skip
                args.append((t, ('meta', p.next()), at)); continue
            args.append((t, p.operand(t), at))
        norm = unw = None
        if op == 'invoke':
            while p.peek() != 'to': p.next()
            p.next(); p.expect('label'); norm = p.next(); p.expect('unwind'); p.expect('label'); unw = p.next()
        return ('call', (rt, callee, args, norm, unw))


FLAGS = {'nuw', 'nsw', 'exact', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'disjoint', 'samesign'}
BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul',
       'fdiv', 'frem'}
CASTS = {'trunc', 'zext', 'sext', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'bitcast', 'ptrtoint', 'inttoptr', 'fpext', 'fptrunc',
         'addrspacecast'}
