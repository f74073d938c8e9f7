"""Reader for the textual LLVM IR produced by clang-18 from /repo's sources."""
import re

TOK = re.compile(r'''
   c"(?:[^"])*"                                  # c-string constant
 | [%@]"[^"]*" | [%@][-a-zA-Z$._0-9]+              # value names
 | \$"[^"]*" | \$[-a-zA-Z$._0-9]+
 | "[^"]*"
 | ![-a-zA-Z$._0-9]*
 | \#[0-9]+
 | -?[0-9]+(?:\.[0-9]+(?:e[+-]?[0-9]+)?)? | 0x[0-9A-Fa-f]+
 | \.\.\. | [a-zA-Z_][-a-zA-Z_0-9.]*:? 
 | [\[\]{}()<>,=*|:]
''', re.X)


class Type:
    __slots__ = ('k', 'n', 'e', 'name', 'packed')

    def __init__(self, k, n=0, e=None, name=None, packed=False):
        self.k, self.n, self.e, self.name, self.packed = k, n, e, name, packed

    def __repr__(self):
        if self.k == 'int': return 'i%d' % self.n
        if self.k in ('arr', 'vec'): return '%s[%d x %r]' % (self.k, self.n, self.e)
        if self.k == 'struct': return self.name or '{%s}' % ','.join(map(repr, self.e))
        return self.k


_ints = {}


def I(n):
    if n not in _ints: _ints[n] = Type('int', n)
    return _ints[n]


PTR = Type('ptr'); VOID = Type('void'); LABEL = Type('label'); META = Type('metadata')
FLOATS = {'float': 32, 'double': 64, 'x86_fp80': 80, 'half': 16}

ATTR_PAREN = {'align', 'dereferenceable', 'dereferenceable_or_null', 'memory', 'allocsize', 'byval', 'sret', 'elementtype',
              'byref', 'inalloca', 'preallocated', 'vscale_range', 'range', 'initializes', 'addrspace'}
ATTRS = set('''noundef nonnull zeroext signext noalias nocapture readonly writeonly readnone returned immarg nest
 swiftself inreg nofree dead_on_unwind writable tail musttail notail fastcc ccc coldcc dso_local local_unnamed_addr unnamed_addr
 hidden internal linkonce_odr weak_odr external private available_externally linkonce weak common constant global
 default protected thread_local nnan ninf nsz arcp contract afn reassoc fast nounwind noreturn swiftasync
 allocptr allocalign noext'''.split())


class Inst:
    __slots__ = ('op', 'res', 'ty', 'a', 'x', 'line')

    def __init__(self, op, res=None, ty=None, a=None, x=None, line=''):
        self.op, self.res, self.ty, self.a, self.x, self.line = op, res, ty, a or [], x, line

    def __repr__(self):
        return self.line.strip()


class Block:
    def __init__(self, name):
        self.name = name; self.insts = []; self.succs = []


class Function:
    def __init__(self, name, ret, params, mod):
        self.name, self.ret, self.params, self.mod = name, ret, params, mod
        self.body_text = None; self._blocks = None; self.attrs = ''; self.sret = None

    @property
    def blocks(self):
        if self._blocks is None: self._parse()
        return self._blocks

    def _parse(self):
        self._blocks = {}
        cur = None
        lines = self.body_text
        i = 0
        while i < len(lines):
            l = lines[i]; i += 1
            s = l.strip()
            if not s or s.startswith(';'): continue
            if not l.startswith(' ') or (s.endswith(':') and '=' not in s) or re.match(r'^[-a-zA-Z$._0-9"]+:', l):
                m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', s)
                if m:
                    nm = m.group(1)
                    cur = Block(nm.strip('"')); self._blocks[cur.name] = cur
                    continue
            if cur is None:
                cur = Block(str(sum(1 for p in self.params)))  # implicit entry label
                self._blocks[cur.name] = cur
            # join multi-line switch / invoke / landingpad
            if s.startswith('switch') and s.endswith('['):
                while not lines[i].strip().startswith(']'):
                    s += ' ' + lines[i].strip(); i += 1
                s += ' ]'; i += 1
            if ' invoke ' in ' ' + s and ' unwind ' not in s:
                s += ' ' + lines[i].strip(); i += 1
            while i < len(lines) and re.match(r'\s+(cleanup|catch |filter )', lines[i]):
                s += ' ' + lines[i].strip(); i += 1
            cur.insts.append(InstParser(self.mod, s).inst())
        for b in self._blocks.values():
            t = b.insts[-1]
            b.succs = {'br': lambda: t.x, 'switch': lambda: [t.x[0]] + [d for _, d in t.x[1]], 'invoke': lambda: [t.x['normal'], t.x['unwind']]}.get(t.op, lambda: [])()


class Global:
    def __init__(self, name, ty, text, const, mod):
        self.name, self.ty, self.text, self.const, self.mod = name, ty, text, const, mod
        self._init = None

    @property
    def init(self):
        if self._init is None and self.text:
            p = InstParser(self.mod, self.text)
            self._init = p.const(self.ty)
        return self._init


def unq(n):
    return n.replace('"', '')


class InstParser:
    def __init__(self, mod, s):
        self.mod = mod
        # fast path: drop metadata suffixes
        s = re.sub(r', ![a-zA-Z_.]+ !\d+', '', s) if s[:1] != '[' else s
        self.s = s
        self.t = TOK.findall(s)
        self.p = 0

    def pk(self):
        return self.t[self.p] if self.p < len(self.t) else None

    def nx(self):
        v = self.t[self.p]; self.p += 1
        return v

    def eat(self, v):
        if self.pk() == v:
            self.p += 1
            return True
        return False

    def exp(self, v):
        if not self.eat(v): raise SyntaxError('expected %r got %r in %s' % (v, self.pk(), self.s[:300]))

    # ---- types
    def type(self):
        t = self.nx()
        if re.fullmatch(r'i\d+', t): ty = I(int(t[1:]))
        elif t == 'ptr': ty = PTR
        elif t == 'void': ty = VOID
        elif t == 'label': ty = LABEL
        elif t == 'metadata': ty = META
        elif t in FLOATS: ty = Type('float', FLOATS[t])
        elif t[0] == '%': ty = self.mod.named(t)
        elif t == '[':
            n = int(self.nx()); self.exp('x'); e = self.type(); self.exp(']')
            ty = Type('arr', n, e)
        elif t == '{':
            es = []
            while not self.eat('}'):
                es.append(self.type()); self.eat(',')
            ty = Type('struct', 0, es)
        elif t == '<':
            if self.eat('{'):
                es = []
                while not self.eat('}'):
                    es.append(self.type()); self.eat(',')
                self.exp('>')
                ty = Type('struct', 0, es, packed=True)
            else:
                n = int(self.nx()); self.exp('x'); e = self.type(); self.exp('>')
                ty = Type('vec', n, e)
        elif t == 'opaque': ty = Type('opaque')
        elif t == 'token': ty = Type('token')
        else:
            raise SyntaxError('type? %r in %s' % (t, self.s[:200]))
        while self.pk() == '(':  # function type
            d = 0
            while True:
                x = self.nx()
                if x == '(': d += 1
                if x == ')':
                    d -= 1
                    if d == 0: break
            ty = Type('func', e=ty)
        return ty

    def skip_attrs(self):
        out = []
        while True:
            t = self.pk()
            if t is None: return out
            if t in ATTR_PAREN:
                self.nx(); a = t
                if self.pk() == '(':
                    d = 0; start = self.p
                    while True:
                        x = self.nx()
                        if x == '(': d += 1
                        if x == ')':
                            d -= 1
                            if d == 0: break
                    a = (t, self.t[start + 1:self.p - 1])
                elif t == 'align': self.nx()
                out.append(a)
            elif t in ATTRS or t[0] == '#' or (t[0] == '"' and len(t) > 2 and self.p + 1 < len(self.t) and False):
                out.append(self.nx())
            else:
                return out

    # ---- constants / operands : tuples
    def const(self, ty):
        t = self.nx()
        if t[0] == '%': return ('reg', unq(t[1:]))
        if t[0] == '@': return ('glob', unq(t[1:]))
        if t == 'true': return ('int', 1)
        if t == 'false': return ('int', 0)
        if t == 'null': return ('null',)
        if t in ('undef', 'poison'): return (t,)
        if t == 'zeroinitializer': return ('zero',)
        if t == 'none': return ('none',)
        if re.fullmatch(r'-?\d+', t):
            return ('int', int(t) & ((1 << ty.n) - 1))
        if re.fullmatch(r'-?\d+\..*|0x[0-9A-Fa-fKLMHR]+', t): return ('float', t)
        if t[:2] == 'c"':
            raw = t[2:-1]
            b = re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), raw)
            return ('agg', [('int', ord(c)) for c in b])
        if t == '[' or t == '{' or t == '<':
            close = {'[': ']', '{': '}', '<': '>'}[t]
            packed = False
            if t == '<' and self.eat('{'): close = '}'; packed = True
            es = []
            while not self.eat(close):
                ety = self.type(); es.append(self.const(ety)); self.eat(',')
            if packed: self.exp('>')
            return ('agg', es)
        if t == 'getelementptr':
            self.eat('inbounds')
            while self.pk() in ('nuw', 'nusw', 'inrange'):
                self.nx()
                if self.pk() == '(':
                    while self.nx() != ')': pass
            self.exp('(')
            bt = self.type(); self.exp(',')
            ops = []
            while not self.eat(')'):
                if self.eat('inrange'): pass
                oty = self.type(); ops.append((oty, self.const(oty))); self.eat(',')
            return ('cgep', bt, ops)
        if t in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            self.exp('('); fty = self.type(); v = self.const(fty); self.exp('to'); tty = self.type(); self.exp(')')
            return ('ccast', t, fty, v, tty)
        if t in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            while self.pk() != '(': self.nx()
            self.exp('('); ty1 = self.type(); a = self.const(ty1); self.exp(','); ty2 = self.type(); b = self.const(ty2); self.exp(')')
            return ('cbin', t, ty1, a, b)
        if t == 'dso_local_equivalent' or t == 'no_cfi': return self.const(ty)
        raise SyntaxError('const? %r in %s' % (t, self.s[:300]))

    def tv(self):
        ty = self.type(); self.skip_attrs()
        return (ty, self.const(ty))

    def inst(self):
        res = None
        if self.pk()[0] == '%' and self.t[self.p + 1] == '=':
            res = unq(self.nx()[1:]); self.nx()
        while self.pk() in ('tail', 'musttail', 'notail'): self.nx()
        op = self.nx()
        L = self.s
        mk = lambda **k: Inst(op, res, line=L, **k)
        if op == 'ret':
            if self.pk() == 'void': return mk(a=[])
            return mk(a=[self.tv()])
        if op == 'br':
            if self.eat('label'): return mk(x=[unq(self.nx()[1:])])
            ty = self.type(); c = self.const(ty); self.exp(','); self.exp('label'); d1 = unq(self.nx()[1:]); self.exp(',')
            self.exp('label'); d2 = unq(self.nx()[1:])
            return mk(a=[(ty, c)], x=[d1, d2])
        if op == 'switch':
            v = self.tv(); self.exp(','); self.exp('label'); d = unq(self.nx()[1:]); self.exp('[')
            cs = []
            while not self.eat(']'):
                cty = self.type(); c = self.const(cty); self.exp(','); self.exp('label'); cs.append((c, unq(self.nx()[1:])))
            return mk(a=[v], x=(d, cs))
        if op in ('unreachable', 'resume'): return mk()
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            fl = []
            while self.pk() in ('nuw', 'nsw', 'exact', 'disjoint'): fl.append(self.nx())
            ty = self.type(); a = self.const(ty); self.exp(','); b = self.const(ty)
            return mk(ty=ty, a=[(ty, a), (ty, b)], x=fl)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fcmp', 'fneg'):
            return mk(ty=None)
        if op == 'icmp':
            while self.pk() in ('samesign',): self.nx()
            pr = self.nx(); ty = self.type(); a = self.const(ty); self.exp(','); b = self.const(ty)
            return mk(ty=ty, a=[(ty, a), (ty, b)], x=pr)
        if op == 'select':
            self.skip_attrs()
            c = self.tv(); self.exp(','); a = self.tv(); self.exp(','); b = self.tv()
            return mk(ty=a[0], a=[c, a, b])
        if op == 'phi':
            self.skip_attrs()
            ty = self.type(); inc = []
            while self.eat('['):
                v = self.const(ty); self.exp(','); inc.append((v, unq(self.nx()[1:]))); self.exp(']')
                if not self.eat(','): break
            return mk(ty=ty, x=inc)
        if op in ('call', 'invoke'):
            self.skip_attrs()
            rty = self.type()
            if rty.k == 'func': rty = rty.e
            self.skip_attrs()
            if self.pk() == 'asm':
                return Inst('asm', res, line=L)
            callee = self.const(PTR)
            self.exp('('); args = []; ats = []
            while not self.eat(')'):
                if self.pk() == 'metadata':
                    d = 0
                    self.nx()
                    while not (d == 0 and self.pk() in (',', ')')):
                        x = self.nx()
                        if x in '([{': d += 1
                        if x in ')]}': d -= 1
                    self.eat(',')
                    continue
                ty = self.type(); at = self.skip_attrs(); ats.append(at); args.append((ty, self.const(ty))); self.eat(',')
            x = {'callee': callee, 'attrs': ats}
            self.skip_attrs()
            if op == 'invoke':
                while self.pk() != 'to': self.nx()
                self.exp('to'); self.exp('label'); x['normal'] = unq(self.nx()[1:]); self.exp('unwind'); self.exp('label')
                x['unwind'] = unq(self.nx()[1:])
            return mk(ty=rty, a=args, x=x)
        if op == 'load':
            while self.pk() in ('volatile', 'atomic'): self.nx()
            ty = self.type(); self.exp(','); p = self.tv()
            return mk(ty=ty, a=[p])
        if op == 'store':
            while self.pk() in ('volatile', 'atomic'): self.nx()
            v = self.tv(); self.exp(','); p = self.tv()
            return mk(a=[v, p])
        if op == 'getelementptr':
            ib = False
            while self.pk() in ('inbounds', 'nuw', 'nusw'):
                ib = True; self.nx()
            bt = self.type(); self.exp(','); ops = []
            while True:
                ops.append(self.tv())
                if not self.eat(','): break
            return mk(ty=bt, a=ops, x=ib)
        if op == 'alloca':
            self.eat('inalloca')
            ty = self.type(); n = None
            if self.eat(',') and self.pk() != 'align':
                n = self.tv()
            return mk(ty=ty, a=[n] if n else [])
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'fpext',
                  'fptrunc', 'addrspacecast'):
            while self.pk() in ('nneg', 'nuw', 'nsw'): self.nx()
            v = self.tv(); self.exp('to'); ty = self.type()
            return mk(ty=ty, a=[v])
        if op == 'freeze':
            v = self.tv()
            return mk(ty=v[0], a=[v])
        if op == 'extractvalue':
            v = self.tv(); ix = []
            while self.eat(','): ix.append(int(self.nx()))
            return mk(a=[v], x=ix)
        if op == 'insertvalue':
            v = self.tv(); self.exp(','); e = self.tv(); ix = []
            while self.eat(','): ix.append(int(self.nx()))
            return mk(ty=v[0], a=[v, e], x=ix)
        if op == 'extractelement':
            v = self.tv(); self.exp(','); e = self.tv()
            return mk(ty=v[0].e, a=[v, e])
        if op == 'insertelement':
            v = self.tv(); self.exp(','); e = self.tv(); self.exp(','); i = self.tv()
            return mk(ty=v[0], a=[v, e, i])
        if op == 'shufflevector':
            v = self.tv(); self.exp(','); e = self.tv(); self.exp(','); i = self.tv()
            return mk(ty=Type('vec', i[0].n, v[0].e), a=[v, e, i])
        if op == 'landingpad': return mk()
        if op in ('fence',): return mk()
        if op in ('atomicrmw', 'cmpxchg'): return mk()
        raise SyntaxError('inst? ' + L)


class Module:
    def __init__(self, text):
        self.types = {}; self._tt = {}
        self.globals = {}; self.functions = {}; self.decls = {}
        self.aliases = {}
        lines = text.split('\n')
        i = 0
        while i < len(lines):
            l = lines[i]; i += 1
            if not l or l[0] in ' ;!}': continue
            if l[0] == '%':
                m = re.match(r'(%"[^"]*"|%[-a-zA-Z$._0-9]+) = type (.*)', l)
                self._tt[m.group(1)] = m.group(2)
            elif l[0] == '@':
                m = re.match(r'@("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)', l)
                name = unq(m.group(1)); rest = m.group(2)
                if ' alias ' in ' ' + rest:
                    mm = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\s*$', rest)
                    if mm: self.aliases[name] = unq(mm.group(1))
                    continue
                hd = re.match(r'((?:[a-z_]+(?:\([^)]*\))? )*?)(global|constant) ', rest)
                if not hd: continue
                body = rest[hd.end():]
                self.globals[name] = ('lazy', body, hd.group(2) == 'constant', 'external' in hd.group(1))
            elif l.startswith('define'):
                body = []
                while lines[i] != '}':
                    body.append(lines[i]); i += 1
                i += 1
                f = self._sig(l[len('define'):])
                f.body_text = body
                self.functions[f.name] = f
            elif l.startswith('declare'):
                try:
                    f = self._sig(l[len('declare'):])
                    self.decls[f.name] = f
                except SyntaxError:
                    pass

    def named(self, t):
        if t not in self.types:
            ty = Type('struct', name=t); self.types[t] = ty
            d = self._tt[t]
            if d == 'opaque': ty.k = 'opaque'
            else:
                x = InstParser(self, d).type()
                ty.k, ty.n, ty.e, ty.packed = x.k, x.n, x.e, x.packed
        return self.types[t]

    def glob(self, name):
        g = self.globals.get(name)
        if isinstance(g, tuple):
            _, body, const, ext = g
            # split type from initialiser
            cut = body
            m = re.search(r', (comdat|align|section|!)', body)
            if len(body) < 4000000 and m:
                cut = body
            p = InstParser(self, re.sub(r'(, comdat(\([^)]*\))?)?(, align \d+)?(, comdat(\([^)]*\))?)?(, !dbg !\d+)?$', '', body))
            ty = p.type()
            gl = Global(name, ty, None, const, self)
            if not ext and p.p < len(p.t): gl._init = p.const(ty)
            self.globals[name] = gl
            return gl
        return g

    def _sig(self, l):
        p = InstParser(self, l.rstrip('{ '))
        p.skip_attrs()
        ret = p.type(); p.skip_attrs()
        name = unq(p.nx()[1:])
        p.exp('(')
        ps = []
        sret = None
        while not p.eat(')'):
            if p.eat('...'): continue
            ty = p.type(); at = p.skip_attrs()
            nm = None
            if p.pk() and p.pk()[0] == '%': nm = unq(p.nx()[1:])
            if nm is None: nm = str(len(ps))
            ps.append((ty, nm, at)); p.eat(',')
        return Function(name, ret, ps, self)

    def fn(self, name):
        name = self.aliases.get(name, name)
        return self.functions.get(name)


# ---------------------------------------------------------------- layout
def align_of(t):
    if t.k == 'int': return min(16, max(1, 1 << max(0, ((t.n + 7) // 8 - 1).bit_length())))
    if t.k == 'ptr': return 8
    if t.k == 'float': return {32: 4, 64: 8, 80: 16, 16: 2}[t.n]
    if t.k == 'arr': return align_of(t.e)
    if t.k == 'vec': return size_of(t)
    if t.k == 'struct': return 1 if t.packed else max([align_of(e) for e in t.e] or [1])
    raise TypeError(t)


def _up(x, a): return (x + a - 1) // a * a


def size_of(t):
    if t.k == 'int': return _up((t.n + 7) // 8, align_of(t))
    if t.k == 'ptr': return 8
    if t.k == 'float': return {32: 4, 64: 8, 80: 16, 16: 2}[t.n]
    if t.k == 'arr': return t.n * size_of(t.e)
    if t.k == 'vec': return (t.n * t.e.n + 7) // 8 if t.e.k == 'int' else t.n * size_of(t.e)
    if t.k == 'struct': return _up(offs(t)[1], align_of(t))
    raise TypeError(t)


_off = {}


def offs(t):
    if id(t) in _off: return _off[id(t)][0]
    o = 0; out = []
    for e in t.e:
        if not t.packed: o = _up(o, align_of(e))
        out.append(o); o += size_of(e)
    _off[id(t)] = ((out, o), t)
    return out, o


def store_size(t):
    if t.k == 'int': return (t.n + 7) // 8
    return size_of(t)
