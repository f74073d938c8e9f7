"""Deductive verifier core: weakest-precondition style symbolic execution of LLVM IR functions.

* every function is executed once over symbolic inputs; control-flow joins merge states with if-then-else;
* loops are cut at their header: modified state is havocked, candidate invariants are assumed, the body is executed and the
  candidates are checked on every back edge (Houdini); loops whose branch conditions are all concrete are unrolled exactly;
* calls go to contracts when one is registered, otherwise the callee body is executed in place;
* every load/store yields a bounds obligation, every `unreachable`/assert/throw yields an unreachability obligation.

Integers are exact bit vectors.  A value of integer type is a Python int (concrete) or a z3 BitVec; i1 is bool or z3 Bool.
"""
import math, itertools, os, re, time
import z3
from . import ir
from .ir import I, PTR, size_of, offs, store_size


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------ scalar helpers
def is_c(v): return isinstance(v, (int, bool))


def bv(v, n):
    if isinstance(v, bool): v = int(v)
    if isinstance(v, int): return z3.BitVecVal(v, n)
    if z3.is_bool(v): return z3.If(v, z3.BitVecVal(1, n), z3.BitVecVal(0, n))
    return v


def zb(v):
    if isinstance(v, bool): return z3.BoolVal(v)
    if isinstance(v, int): return z3.BoolVal(bool(v & 1))
    if z3.is_bv(v): return z3.Extract(0, 0, v) == 1
    return v


def fold(e):
    """turn value-terms back into Python constants"""
    if isinstance(e, (int, bool)): return e
    if z3.is_bv_value(e): return e.as_long()
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    return e


def simp(e):
    if is_c(e): return e
    return fold(z3.simplify(e))


def And(*a):
    r = []
    for x in a:
        if x is True: continue
        if x is False: return False
        if isinstance(x, z3.ExprRef):
            if z3.is_true(x): continue
            if z3.is_false(x): return False
        r.append(x)
    if not r: return True
    if len(r) == 1: return r[0]
    return z3.And(*r)


def Or(*a):
    r = []
    for x in a:
        if x is False: continue
        if x is True: return True
        if isinstance(x, z3.ExprRef):
            if z3.is_false(x): continue
            if z3.is_true(x): return True
        r.append(x)
    if not r: return False
    if len(r) == 1: return r[0]
    return z3.Or(*r)


def Not(x):
    if isinstance(x, bool): return not x
    if z3.is_not(x): return x.arg(0)
    return z3.Not(x)


def Implies(a, b): return Or(Not(a), b)


def same(a, b):
    if a is b: return True
    if is_c(a) and is_c(b): return type(a) == type(b) and a == b
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef): return a.eq(b)
    return False


def mask(n): return (1 << n) - 1


def sgn(v, n): return v - (1 << n) if v >> (n - 1) else v


def ite(c, a, b, n):
    if c is True: return a
    if c is False: return b
    if same(a, b): return a
    if n == 1:
        if isinstance(a, int): a = bool(a)
        if isinstance(b, int): b = bool(b)
        if a is True and b is False: return c
        if a is False and b is True: return Not(c)
        return z3.If(c, zb(a), zb(b))
    return z3.If(c, bv(a, n), bv(b, n))


def eqv(a, b, n):
    if is_c(a) and is_c(b): return int(a) == int(b)
    if same(a, b): return True
    if n == 1: return zb(a) == zb(b)
    return bv(a, n) == bv(b, n)


def binop(op, a, b, n):
    if n == 1 and op in ('and', 'or', 'xor'):
        if op == 'and': return And(a if not isinstance(a, int) else bool(a), b if not isinstance(b, int) else bool(b))
        if op == 'or': return Or(bool(a) if is_c(a) else a, bool(b) if is_c(b) else b)
        if is_c(a) and is_c(b): return bool(a) != bool(b)
        if is_c(a): return Not(b) if a else b
        if is_c(b): return Not(a) if b else a
        return z3.Xor(a, b)
    if n == 1: a, b = (bv(a, 1), bv(b, 1))
    if is_c(a) and is_c(b):
        a = int(a); b = int(b); m = mask(n)
        if op == 'add': return (a + b) & m
        if op == 'sub': return (a - b) & m
        if op == 'mul': return (a * b) & m
        if op == 'and': return a & b
        if op == 'or': return a | b
        if op == 'xor': return a ^ b
        if op == 'shl': return (a << b) & m if b < n else 0
        if op == 'lshr': return a >> b if b < n else 0
        if op == 'ashr': return (sgn(a, n) >> min(b, n - 1)) & m
        if op == 'udiv': return a // b if b else m
        if op == 'urem': return a % b if b else a
        if op in ('sdiv', 'srem'):
            x, y = sgn(a, n), sgn(b, n)
            if y == 0: return m if op == 'sdiv' else a
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0): q = -q
            return (q if op == 'sdiv' else x - q * y) & m
    # identities
    if op in ('add', 'or', 'xor', 'shl', 'lshr', 'ashr', 'sub') and is_c(b) and b == 0: return a
    if op in ('add', 'or', 'xor') and is_c(a) and a == 0: return b
    if op == 'and' and ((is_c(b) and b == 0) or (is_c(a) and a == 0)): return 0
    if op == 'and' and is_c(b) and b == mask(n): return a
    if op == 'mul':
        if is_c(a): a, b = b, a
        if is_c(b) and b == 1: return a
        if is_c(b) and b == 0: return 0
    x, y = bv(a, n), bv(b, n)
    return {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y, 'or': lambda: x | y,
            'xor': lambda: x ^ y, 'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y,
            'udiv': lambda: z3.UDiv(x, y), 'urem': lambda: z3.URem(x, y), 'sdiv': lambda: x / y, 'srem': lambda: z3.SRem(x, y)}[op]()


def cmpop(pr, a, b, n):
    if n == 1:
        if pr in ('eq', 'ne'):
            r = binop('xor', a, b, 1)
            return Not(r) if pr == 'eq' else r
        a, b = (int(a) if is_c(a) else bv(a, 1)), (int(b) if is_c(b) else bv(b, 1))
    if is_c(a) and is_c(b):
        a = int(a); b = int(b)
        if pr[0] == 's': a, b = sgn(a, n), sgn(b, n)
        return {'eq': a == b, 'ne': a != b}.get(pr) if pr in ('eq', 'ne') else {'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[pr[1:]]
    if pr == 'eq' and same(a, b): return True
    if pr == 'ne' and same(a, b): return False
    x, y = bv(a, n), bv(b, n)
    return fold({'eq': lambda: x == y, 'ne': lambda: x != y, 'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y),
                 'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y), 'sgt': lambda: x > y, 'sge': lambda: x >= y,
                 'slt': lambda: x < y, 'sle': lambda: x <= y}[pr]())


def zext(a, n, m):
    if n == m: return a
    if is_c(a): return int(a)
    if n == 1: return bv(a, m)
    return z3.ZeroExt(m - n, a)


def sext(a, n, m):
    if n == m: return a
    if is_c(a): return sgn(int(a), n) & mask(m) if n > 1 else (mask(m) if a else 0)
    if n == 1: return z3.If(a, z3.BitVecVal(mask(m), m), z3.BitVecVal(0, m))
    return z3.SignExt(m - n, a)


def extract(a, hi, lo, n):
    """bits hi..lo of an n-bit value; peels the usual concat/zext structure"""
    if hi == n - 1 and lo == 0: return a
    if is_c(a): return (int(a) >> lo) & mask(hi - lo + 1)
    if n == 1: return a
    k = a.decl().kind()
    if k == z3.Z3_OP_CONCAT:
        top = n
        for i in range(a.num_args()):
            p = a.arg(i); w = p.size(); bot = top - w
            if hi < top and lo >= bot: return extract(fold(p), hi - bot, lo - bot, w)
            top = bot
    elif k == z3.Z3_OP_EXTRACT:
        h, l = a.params()
        return extract(fold(a.arg(0)), hi + l, lo + l, a.arg(0).size())
    elif k == z3.Z3_OP_ZERO_EXT:
        w = a.arg(0).size()
        if hi < w: return extract(fold(a.arg(0)), hi, lo, w)
        if lo >= w: return 0
    return z3.Extract(hi, lo, a)


def trunc(a, n, m):
    if n == m: return a
    if m == 1:
        if is_c(a): return bool(a & 1)
        if a.decl().kind() == z3.Z3_OP_ITE and z3.is_bv_value(a.arg(1)) and z3.is_bv_value(a.arg(2)):
            x, y = a.arg(1).as_long() & 1, a.arg(2).as_long() & 1
            return ite(a.arg(0), bool(x), bool(y), 1)
        return z3.Extract(0, 0, a) == 1
    return extract(a, m - 1, 0, n)


def concat(parts):
    """parts: list of (value, nbits), most significant first"""
    parts = [(v, n) for v, n in parts if n]
    if len(parts) == 1: return parts[0][0]
    if all(is_c(v) for v, _ in parts):
        r = 0
        for v, n in parts: r = (r << n) | int(v)
        return r
    # fuse adjacent extracts of the same term
    out = []
    for v, n in parts:
        if out and not is_c(v) and not is_c(out[-1][0]):
            a, an = out[-1]
            def ex(t):
                return (t.arg(0), t.params()[0], t.params()[1]) if t.decl().kind() == z3.Z3_OP_EXTRACT else (t, t.size() - 1, 0)
            (t1, h1, l1), (t2, h2, l2) = ex(bv(a, an)), ex(bv(v, n))
            if t1.eq(t2) and l1 == h2 + 1:
                out[-1] = (extract(t1, h1, l2, t1.size()), an + n); continue
        elif out and is_c(v) and is_c(out[-1][0]):
            out[-1] = ((int(out[-1][0]) << n) | int(v), out[-1][1] + n); continue
        out.append((v, n))
    if len(out) == 1: return out[0][0]
    return z3.Concat(*[bv(v, n) for v, n in out])


# ------------------------------------------------------------------ pointers
class Off:
    """byte offset  g*t + c  (t: 64-bit term or None), 0 <= c < g when t is present"""
    __slots__ = ('g', 't', 'c')

    def __init__(self, g, t, c):
        if t is None: self.g, self.t, self.c = 0, None, c
        elif is_c(t): self.g, self.t, self.c = 0, None, g * sgn(t & mask(64), 64) + c
        else:
            if c < 0 or c >= g:
                q = c // g
                t = binop('add', t, q & mask(64), 64)
                c -= q * g
            self.g, self.t, self.c = g, t, c

    def addc(self, k):
        return Off(self.g, self.t, self.c + k)

    def adds(self, s, u):
        """+ s*u"""
        if s == 0: return self
        if is_c(u): return self.addc(s * sgn(int(u) & mask(64), 64))
        u = bv(u, 64)
        # peel scaling from u:  u = k*v
        if u.decl().kind() in (z3.Z3_OP_BMUL, z3.Z3_OP_BADD, z3.Z3_OP_BSHL, z3.Z3_OP_ITE, z3.Z3_OP_BSUB):
            m = multiple(u)
            if m > 1 and m < (1 << 32):
                q = quotient(u, m)
                if q is not None:
                    s *= m; u = q
                    if is_c(u): return self.addc(s * sgn(int(u) & mask(64), 64))
        if s < 0: s, u = -s, -u
        if self.t is None: return Off(s, u, self.c)
        g = math.gcd(self.g, s)
        t = binop('add', binop('mul', self.t, self.g // g, 64), binop('mul', u, s // g, 64), 64)
        return Off(g, t, self.c)

    def term(self):
        if self.t is None: return self.c & mask(64)
        return binop('add', binop('mul', self.t, self.g, 64), self.c, 64)

    def idx(self, es):
        """index in units of es bytes, or None when not provably aligned"""
        if self.t is None:
            return (self.c // es) & mask(64) if self.c % es == 0 else None
        if self.g % es or self.c % es: return None
        return binop('add', binop('mul', self.t, self.g // es, 64), self.c // es, 64)

    def __repr__(self): return '%s*%s+%s' % (self.g, self.t, self.c)


def multiple(e, neutral=None, n=64, depth=0):
    """a constant every value of e is a multiple of (modulo 2^n arithmetic); 0 for zero / the neutral term"""
    if isinstance(e, Scaled): return math.gcd(e.g, 0) * max(1, 1)
    if is_c(e): return abs(sgn(int(e) & mask(n), n))
    if not isinstance(e, z3.ExprRef): return 1
    if neutral is not None and e.eq(neutral): return 0
    if z3.is_bv_value(e): return abs(sgn(e.as_long(), n))
    if depth > 12: return 1
    k = e.decl().kind()
    if k == z3.Z3_OP_BMUL:
        r = 1
        for a in e.children(): r *= multiple(fold(a), neutral, n, depth + 1)
        return r
    if k in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB):
        r = 0
        for a in e.children(): r = math.gcd(r, multiple(fold(a), neutral, n, depth + 1))
        return r
    if k == z3.Z3_OP_BNEG: return multiple(fold(e.arg(0)), neutral, n, depth + 1)
    if k == z3.Z3_OP_BSHL and z3.is_bv_value(e.arg(1)) and e.arg(1).as_long() < n: return multiple(fold(e.arg(0)), neutral, n, depth + 1) << e.arg(1).as_long() if not (neutral is not None and e.arg(0).eq(neutral)) else 0
    if k == z3.Z3_OP_ITE: return math.gcd(multiple(fold(e.arg(1)), neutral, n, depth + 1), multiple(fold(e.arg(2)), neutral, n, depth + 1))
    return 1


def quotient(e, d, n=64):
    """q with e = d * q (modulo 2^n), or None"""
    if isinstance(e, Scaled): return binop('mul', e.t, e.g // d, n) if e.g % d == 0 else None
    if is_c(e):
        v = sgn(int(e) & mask(n), n)
        return (v // d) & mask(n) if v % d == 0 else None
    if z3.is_bv_value(e): return quotient(e.as_long(), d, n)
    k = e.decl().kind()
    if k == z3.Z3_OP_BMUL and e.num_args() == 2:
        for i in (0, 1):
            c, o = e.arg(i), e.arg(1 - i)
            if z3.is_bv_value(c) and sgn(c.as_long(), n) % d == 0: return binop('mul', fold(o), (sgn(c.as_long(), n) // d) & mask(n), n)
            if z3.is_bv_value(c):
                q = quotient(fold(o), d, n)
                if q is not None: return binop('mul', q, c.as_long(), n)
        return None
    if k in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB):
        qs = [quotient(fold(a), d, n) for a in e.children()]
        if any(q is None for q in qs): return None
        r = qs[0]
        for q in qs[1:]: r = binop('add' if k == z3.Z3_OP_BADD else 'sub', r, q, n)
        return r
    if k == z3.Z3_OP_BNEG:
        q = quotient(fold(e.arg(0)), d, n); return None if q is None else binop('sub', 0, q, n)
    if k == z3.Z3_OP_BSHL and z3.is_bv_value(e.arg(1)) and (1 << e.arg(1).as_long()) % d == 0: return binop('mul', fold(e.arg(0)), (1 << e.arg(1).as_long()) // d, n)
    if k == z3.Z3_OP_ITE:
        a, b = quotient(fold(e.arg(1)), d, n), quotient(fold(e.arg(2)), d, n)
        return None if a is None or b is None else ite(e.arg(0), a, b, n)
    return None


def off_common(a, b):
    """express two offsets as g*ta+c, g*tb+c"""
    ga, gb = a.g, b.g
    g = math.gcd(math.gcd(ga, gb), a.c - b.c)
    if g == 0: return None
    c = a.c % g

    def conv(o):
        t = 0 if o.t is None else binop('mul', o.t, o.g // g, 64)
        return binop('add', t, ((o.c - c) // g) & mask(64), 64)
    return g, conv(a), conv(b), c


def off_ite(cond, a, b):
    if a.t is None and b.t is None and a.c == b.c: return a
    if a.g == b.g and a.c == b.c and same(a.t, b.t): return a
    g, ta, tb, c = off_common(a, b)
    return Off(g, ite(cond, ta, tb, 64), c)


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off=None):
        self.obj, self.off = obj, off or Off(0, None, 0)

    def __repr__(self): return '<%s + %r>' % (self.obj, self.off)


class PtrIte:
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b): self.c, self.a, self.b = c, a, b


class Obj:
    _n = itertools.count()

    def __init__(self, name, kind, size=None, es=None, n=None, const=None):
        self.id = next(Obj._n); self.name = name; self.kind = kind
        self.size, self.es, self.n, self.const = size, es, n, const
        self.tag = None
        self.alive = True
        self.readonly = False

    def __repr__(self): return self.name

    def length(self):   # in bytes as 64-bit value
        if self.kind == 'arr': return binop('mul', self.n, self.es, 64)
        return self.size


NULL = Obj('null', 'null', size=0)
NULLP = Ptr(NULL)


class Scaled:
    """integer g*t : the result of a pointer difference"""
    __slots__ = ('g', 't', 'n')

    def __init__(self, g, t): self.g, self.t, self.n = g, t, 64


class PInt:
    __slots__ = ('p',)

    def __init__(self, p): self.p = p


class Poison:
    pass


def ptr_ite(c, a, b):
    if c is True: return a
    if c is False: return b
    if a is b: return a
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
        return Ptr(a.obj, off_ite(c, a.off, b.off))
    if isinstance(a, PtrIte) and isinstance(b, PtrIte) and same(a.c, b.c):
        return PtrIte(a.c, ptr_ite(c, a.a, b.a), ptr_ite(c, a.b, b.b))
    return PtrIte(c, a, b)


def leaves(p, g=True):
    if isinstance(p, PtrIte):
        yield from leaves(p.a, And(g, p.c)); yield from leaves(p.b, And(g, Not(p.c)))
    else:
        yield g, p


# ------------------------------------------------------------------ memory
class Cells:
    """fixed-size object contents: sorted dict offset -> (value, nbytes)"""
    __slots__ = ('d',)

    def __init__(self, d=None): self.d = d if d is not None else {}

    def copy(self): return Cells(dict(self.d))


class Arr:
    __slots__ = ('a',)

    def __init__(self, a): self.a = a


class StrVal:
    """abstract contents of a std::basic_string / std::vector: characters and length (backing object id for data())"""
    __slots__ = ('a', 'n', 'es', 'obj')

    def __init__(self, a, n, es, obj): self.a, self.n, self.es, self.obj = a, n, es, obj


class State:
    __slots__ = ('g', 'm')

    def __init__(self, g, m): self.g, self.m = g, m


class Obligation:
    __slots__ = ('name', 'fn', 'kind', 'guard', 'prop', 'nfacts', 'status', 'backend', 'time', 'model', 'detail')

    def __init__(self, name, fn, kind, guard, prop, nfacts):
        self.name, self.fn, self.kind, self.guard, self.prop, self.nfacts = name, fn, kind, guard, prop, nfacts
        self.status = None; self.backend = None; self.time = 0; self.model = None; self.detail = ''


_fresh = itertools.count()


def fresh(name, n):
    nm = '%s!%d' % (name, next(_fresh))
    return z3.Bool(nm) if n == 1 else z3.BitVec(nm, n)


BV64 = z3.BitVecSort(64)


def cvc5_unsat(s, ms):
    import subprocess
    p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % ms, '-'], input='(set-logic ALL)\n' + s.to_smt2(), capture_output=True, text=True)
    return p.stdout.strip() == 'unsat'


class Exec:
    def __init__(self, mod, contracts=None, opts=None):
        self.mods = mod if isinstance(mod, list) else [mod]
        self.contracts = contracts or []     # list of (regex, handler(ex, st, fn, args, inst))
        self.facts = []
        self.obls = []
        self.dry = 0
        self.wlog = None
        self.stack = []
        self.globs = {}
        self.loop_hook = None                # fn(ex, loopinfo) -> candidates
        self.load_hook = None                # fn(ex, obj, idx, val, guard)
        self.loops_seen = {}
        self.functions_done = {}
        self.assumed = set()
        self.opts = {'unroll': 300, 'maxinline': 60}
        self.opts.update(opts or {})
        if os.environ.get('VERIF_TRACE'): self.opts['trace'] = True
        self.solver_time = 0.0
        self.nqueries = 0
        self.houdini_memo = {}
        self.timeout = 20000
        self.checks_mem = True
        self.load_size = 0
        self.block_hook = None               # fn(ex, obj, first idx, count, guard): a load of several elements
        self.tables = {}
        self.tf_pending = None
        self.tbl_used = set()
        self.unroll_feasible = False

    # ---------------------------------------------------------------- solver
    def query(self, assertions, timeout=None):
        s = z3.SimpleSolver() if getattr(self, 'opts', {}).get('cvc5') else z3.Solver()
        s.set('timeout', timeout or self.timeout)
        for a in assertions:
            if a is True: continue
            if a is False: return 'unsat', None
            s.add(a)
        t = time.time()
        if getattr(self, 'opts', {}).get('cvc5') and not z3.is_true(z3.simplify(z3.Not(z3.And(*s.assertions())))):
            if cvc5_unsat(s, self.opts['cvc5']):
                self.solver_time += time.time() - t; self.nqueries += 1; return 'unsat', None
        r = s.check()
        self.solver_time += time.time() - t; self.nqueries += 1
        if r == z3.sat: return 'sat', s.model()
        return str(r), None

    def valid(self, prop, extra=(), timeout=None):
        if prop is True: return 'unsat', None
        return self.query(self.facts + list(extra) + [Not(prop) if not isinstance(prop, bool) else (not prop)], timeout)

    # ---------------------------------------------------------------- facts and obligations
    def fact(self, f):
        if f is True: return
        self.facts.append(f if not isinstance(f, bool) else z3.BoolVal(f))

    def oblige(self, name, guard, prop, kind='post', fn=None):
        if self.dry: return
        p = Implies(guard, prop)
        if p is True:
            ob = Obligation(name, fn or (self.stack[-1] if self.stack else ''), kind, guard, prop, len(self.facts))
            ob.status = 'discharged'; ob.backend = 'constant folding'
            self.obls.append(ob); return
        self.obls.append(Obligation(name, fn or (self.stack[-1] if self.stack else ''), kind, guard, prop, len(self.facts)))

    # ---------------------------------------------------------------- objects
    def new_cells(self, name, size, sym=True, init=None):
        o = Obj(name, 'cell', size=size)
        o.tag = 'sym' if sym else 'undef'
        return o

    def new_arr(self, name, es, n, a=None):
        o = Obj(name, 'arr', es=es, n=n)
        o.init = Arr(a if a is not None else z3.Array(name + '.data', BV64, z3.BitVecSort(es * 8)))
        return o

    def content(self, st, o):
        c = st.m.get(o.id)
        if c is None:
            if o.kind == 'cell': c = Cells(self._cinit(o))
            elif o.kind == 'arr': c = o.init
            elif o.kind == 'const': c = None
            else: raise Unsupported('access to %s' % o.name)
        return c

    def _cinit(self, o):
        return dict(getattr(o, 'cinit', None) or {})

    def initbyte(self, o, k):
        return z3.BitVec('%s#%d.b%d' % (o.name, o.id, k), 8)

    # ---------------------------------------------------------------- memory access
    def _bounds(self, st, o, off, size, what, g):
        if not self.checks_mem: return
        if o.kind == 'null':
            self.oblige('%s through null pointer unreachable' % what, g, False, 'memory'); return
        if o.kind in ('cell', 'const'):
            if off.t is None:
                ok = 0 <= off.c and off.c + size <= o.size
            else:
                t = off.term()
                ok = And(cmpop('ule', t, (o.size - size) & mask(64), 64)) if o.size >= size else False
        elif o.kind == 'arr':
            i = off.idx(o.es); on = self.arr_len(st, o)
            if i is None:
                ok = cmpop('ult', binop('add', off.term(), size - 1, 64), binop('mul', on, o.es, 64), 64)
            else:
                k = (size + o.es - 1) // o.es
                # i + k <= n without wrap: i <= n and k <= n - i
                if k == 1: ok = cmpop('ult', i, on, 64)
                else: ok = And(cmpop('ule', i, on, 64), cmpop('ule', k, binop('sub', on, i, 64), 64))
        else:
            raise Unsupported('bounds of ' + o.kind)
        if not o.alive: ok = False
        self.oblige('%s of %d byte(s) stays inside %s' % (what, size, o.name), g, ok, 'memory')

    def arr_len(self, st, o):
        """number of elements; for the characters of a string: the size field of the string object"""
        d = getattr(o, 'dyn', None)
        if d is None: return o.n
        return self.mat(self.load_bytes(st, d[0], Off(0, None, d[1] + 8), 8, True))

    def load_bytes(self, st, o, off, size, g):
        """integer value of size bytes, little endian"""
        if o.kind == 'null':
            return fresh('null', 8 * size)
        if o.kind == 'const': return self._load_const(o, off, size, g)
        c = self.content(st, o)
        if o.kind == 'arr':
            i = off.idx(o.es)
            if i is None:
                if off.g % o.es == 0 and (off.c % o.es) + size <= o.es:
                    sh = off.c % o.es
                    base = Off(off.g, off.t, off.c - sh).idx(o.es)
                    v = self._sel(st, o, c, base, g)
                    return extract(v, 8 * (sh + size) - 1, 8 * sh, 8 * o.es)
                raise Unsupported('unaligned array access %r in %s' % (off, o.name))
            if size < o.es:
                return extract(self._sel(st, o, c, i, g), 8 * size - 1, 0, 8 * o.es)
            if size % o.es: raise Unsupported('odd size')
            parts = []
            if self.block_hook and size > o.es: self.block_hook(self, o, i, size // o.es, g)
            for k in range(size // o.es):
                parts.append((self._sel(st, o, c, binop('add', i, k, 64), g), 8 * o.es))
            return concat(parts[::-1])
        # cells
        if off.t is not None:
            return self._symload(st, o, off, size, g)
        v = self._cellload(o, c, off.c, size)
        return v

    def _sel(self, st, o, c, i, g):
        v = fold(z3.Select(c.a, bv(i, 64)))
        if not is_c(v) and z3.is_store(c.a): v = simp(v)
        if self.load_hook: self.load_hook(self, o, i, v, g)
        return v

    def _symload(self, st, o, off, size, g):
        r = None
        pos = [p for p in range(off.c % off.g, o.size - size + 1, off.g)]
        if len(pos) > 80: raise Unsupported('symbolic offset in large cell object')
        t = off.term()
        c = self.content(st, o)
        for p in pos:
            v = self._cellload(o, c, p, size)
            if not (is_c(v) or isinstance(v, z3.ExprRef)):
                if self.query(self.facts + [zb(And(g, bv(t, 64) == p))], 3000)[0] == 'unsat': continue
                raise Unsupported('symbolic load of pointers')
            r = v if r is None else ite(bv(t, 64) == p, v, r, 8 * size)
        return r

    def _cellload(self, o, c, off, size):
        d = c.d
        e = d.get(off)
        if e is not None and e[1] == size: return e[0]
        parts = []; k = off; end = off + size
        while k < end:
            seg = None
            for s, (v, n) in d.items():
                if s <= k < s + n: seg = (s, v, n); break
            if seg is None:
                if k < 0 or (o.size is not None and k >= o.size): b = fresh('oob', 8)
                elif o.tag == 'zero': b = 0
                else: b = self.initbyte(o, k)
                parts.append((b, 8)); k += 1
            else:
                s, v, n = seg
                e2 = min(end, s + n)
                if isinstance(v, (Ptr, PtrIte)):
                    if s == off and n == size: return v
                    raise Unsupported('partial pointer load in %s at %d size %d' % (o.name, off, size))
                if isinstance(v, Scaled): v = self.mat(v)
                if not (is_c(v) or isinstance(v, z3.ExprRef)): raise Unsupported('load of %r' % (v,))
                parts.append((extract(v if not isinstance(v, bool) else int(v), 8 * (e2 - s) - 1, 8 * (k - s), 8 * n), 8 * (e2 - k)))
                k = e2
        return concat(parts[::-1])

    def mat(self, v):
        if isinstance(v, Scaled): return binop('mul', v.t, v.g & mask(64), 64)
        return v

    def store_bytes(self, st, o, off, size, v, g):
        if self.wlog is not None: self.wlog.append((o, off, size))
        if o.kind == 'null': return
        if o.kind == 'const': self.oblige('store to constant data', g, False, 'memory'); return
        c = self.content(st, o)
        if o.kind == 'arr':
            i = off.idx(o.es)
            if i is None or size % o.es:
                raise Unsupported('unaligned array store %r' % (off,))
            a = c.a
            for k in range(size // o.es):
                x = extract(self.mat(v), 8 * o.es * (k + 1) - 1, 8 * o.es * k, 8 * size)
                a = z3.Store(a, bv(binop('add', i, k, 64), 64), bv(x, 8 * o.es))
            st.m[o.id] = Arr(a)
            return
        if off.t is not None:
            pos = [p for p in range(off.c % off.g, o.size - size + 1, off.g)]
            if len(pos) > 80: raise Unsupported('symbolic store in large cell object')
            t = off.term(); c = c.copy()
            for p in pos:
                old = self._cellload(o, c, p, size)
                self._cellstore(o, c, p, size, ite(bv(t, 64) == p, v, old, 8 * size))
            st.m[o.id] = c
            return
        c = c.copy()
        self._cellstore(o, c, off.c, size, v)
        st.m[o.id] = c

    def _cellstore(self, o, c, off, size, v):
        d = c.d
        e = d.get(off)
        if e is None or e[1] != size:
            for s in [s for s, (w, n) in d.items() if s < off + size and s + n > off]:
                w, n = d.pop(s)
                if s < off: d[s] = self._slice(w, n, 0, off - s)
                if s + n > off + size:
                    d[off + size] = self._slice(w, n, off + size - s, s + n - off - size)
        d[off] = (v, size)

    def _slice(self, w, n, lo, k):
        if isinstance(w, (Ptr, PtrIte, StrVal)): raise Unsupported('split pointer cell')
        w = self.mat(w)
        if isinstance(w, bool): w = int(w)
        return (extract(w, 8 * (lo + k) - 1, 8 * lo, 8 * n), k)

    def load(self, st, p, ty, what='load'):
        r = None
        for g, q in leaves(p):
            gg = And(st.g, g)
            if gg is False: continue
            if not isinstance(q, Ptr): raise Unsupported('load through %r' % (q,))
            v = self.load1(st, q, ty, gg, what)
            r = v if r is None else self.vite(g, v, r, ty)
        if r is None: return self.fresh_of(ty, 'dead')
        return r

    def load1(self, st, q, ty, g, what='load'):
        sz = store_size(ty)
        if ty.k in ('struct', 'arr'):
            if ty.k == 'struct':
                return [self.load1(st, Ptr(q.obj, q.off.addc(o)), e, g, what) for o, e in zip(offs(ty)[0], ty.e)]
            return [self.load1(st, Ptr(q.obj, q.off.addc(i * size_of(ty.e))), ty.e, g, what) for i in range(ty.n)]
        self._bounds(st, q.obj, q.off, sz, what, g)
        if ty.k == 'ptr':
            if q.obj.kind == 'cell' and q.off.t is None:
                v = self._cellload(q.obj, self.content(st, q.obj), q.off.c, 8)
            elif q.obj.kind == 'const':
                v = self._load_const(q.obj, q.off, 8, g, ptr=True)
            elif q.obj.kind == 'cell': raise Unsupported('symbolic pointer load')
            elif q.obj.kind == 'null': return NULLP
            else: raise Unsupported('pointer load from %s' % q.obj.kind)
            return self.as_ptr(v)
        self.load_size = sz
        v = self.load_bytes(st, q.obj, q.off, sz, g)
        if isinstance(v, (Ptr, PtrIte)): v = PInt(v)
        if isinstance(v, StrVal): raise Unsupported('raw load from string object')
        if ty.k == 'vec':
            return self.to_vec(v, ty)
        if ty.k == 'float': return fresh('fp', ty.n)
        if ty.n % 8 and not isinstance(v, PInt): v = trunc(v if not isinstance(v, bool) else int(v), 8 * sz, ty.n)
        return v

    def as_ptr(self, v):
        if isinstance(v, (Ptr, PtrIte)): return v
        if isinstance(v, PInt): return v.p
        if is_c(v) and int(v) == 0: return NULLP
        if isinstance(v, z3.ExprRef):
            o = Obj('opaque(%s)' % v.sexpr()[:40], 'opaque')
            return Ptr(o)
        raise Unsupported('pointer from integer %r' % (v,))

    def to_vec(self, v, ty):
        n = ty.e.n if ty.e.k == 'int' else 64
        tot = n * ty.n
        return [extract(v, n * (i + 1) - 1, n * i, tot) if n > 1 else trunc(extract(v, i, i, tot), 1, 1) if is_c(v) else (extract(v, i, i, tot) == 1) for i in range(ty.n)]

    def from_vec(self, v, ty):
        n = ty.e.n
        if n == 1:
            return concat([((int(x) if is_c(x) else bv(x, 1)), 1) for x in v[::-1]])
        return concat([(x, n) for x in v[::-1]])

    def store(self, st, p, v, ty, what='store'):
        for g, q in leaves(p):
            gg = And(st.g, g)
            if gg is False: continue
            if not isinstance(q, Ptr): raise Unsupported('store through %r' % (q,))
            self.store1(st, q, v, ty, gg, g, what)

    def store1(self, st, q, v, ty, gg, g, what):
        if ty.k == 'struct':
            for i, (o, e) in enumerate(zip(offs(ty)[0], ty.e)): self.store1(st, Ptr(q.obj, q.off.addc(o)), v[i], e, gg, g, what)
            return
        if ty.k == 'arr':
            for i in range(ty.n): self.store1(st, Ptr(q.obj, q.off.addc(i * size_of(ty.e))), v[i], ty.e, gg, g, what)
            return
        sz = store_size(ty)
        self._bounds(st, q.obj, q.off, sz, what, gg)
        if q.obj.kind == 'cell' and q.off.t is None and (q.off.c < 0 or q.off.c + sz > q.obj.size): return
        if ty.k == 'vec': v = self.from_vec(v, ty)
        elif ty.k == 'int' and ty.n % 8:
            v = zext(v, ty.n, 8 * sz)
        elif ty.k == 'float': v = fresh('fp', 8 * sz)
        if isinstance(v, PInt): v = v.p
        if isinstance(v, Scaled): v = self.mat(v)
        if isinstance(v, bool): v = int(v)
        if g is not True:
            if ty.k == 'ptr':
                old = self.load1(st, q, PTR, False)
                v = ptr_ite(g, v, old)
            else:
                old = self.load_bytes(st, q.obj, q.off, sz, False)
                v = ite(g, v, old, 8 * sz)
        self.store_bytes(st, q.obj, q.off, sz, v, gg)

    # constant globals -------------------------------------------------
    def global_obj(self, name, mod):
        key = name
        if key in self.globs: return self.globs[key]
        for m in [mod] + [x for x in self.mods if x is not mod]:
            if m.fn(name): 
                o = Obj('@' + name, 'func'); o.fname = name; self.globs[key] = o; return o
            g = m.globals.get(name)
            if g is not None:
                g = m.glob(name)
                if g.init is None and any(name in y.globals and y.glob(name).init is not None for y in self.mods): continue
                if g.const and g.init is not None:
                    o = Obj('@' + name, 'const', size=size_of(g.ty)); o.gl = g; o.gmod = m
                else:
                    o = Obj('@' + name, 'cell', size=size_of(g.ty)); o.tag = 'sym'
                    if g.init is not None and self.opts.get('global_init') and re.search(self.opts['global_init'], name):
                        o.cinit = self._init_cells(g, m)
                self.globs[key] = o
                return o
        o = Obj('@' + name, 'func'); o.fname = name
        self.globs[key] = o
        return o

    def _init_cells(self, g, m):
        d = {}

        def put(ty, c, off):
            if c[0] in ('zero', 'undef', 'poison'):
                if ty.k == 'ptr': d[off] = (NULLP, 8)
                elif ty.k in ('struct',):
                    for o, e in zip(offs(ty)[0], ty.e): put(e, c, off + o)
                elif ty.k == 'arr':
                    for i in range(ty.n): put(ty.e, c, off + i * size_of(ty.e))
                else: d[off] = (0, store_size(ty))
            elif c[0] == 'agg':
                if ty.k == 'struct':
                    for o, e, x in zip(offs(ty)[0], ty.e, c[1]): put(e, x, off + o)
                else:
                    for i, x in enumerate(c[1]): put(ty.e, x, off + i * size_of(ty.e))
            else:
                v = self.constval(c, ty, m)
                d[off] = (v, store_size(ty))
        put(g.ty, g.init, 0)
        return d

    def _load_const(self, o, off, size, g, ptr=False):
        gl = o.gl
        if off.t is None:
            v = const_read(gl.ty, gl.init, off.c, size)
            if v is None:
                if off.c < 0 or off.c + size > o.size: return fresh('oob', 8 * size)
                raise Unsupported('constant read %s+%d' % (o.name, off.c))
            if isinstance(v, tuple): return self.constval(v, PTR, o.gmod)
            return v
        if ptr: return self._ptr_table(o, off)
        # symbolic index into a constant table: small tables as ite chains, large ones as uninterpreted functions + ground lemma
        nel = (o.size - off.c % off.g - size) // off.g + 1
        key = (o.name, off.g, off.c, size)
        if nel <= self.opts.get('table_ite', 64):
            r = None
            for k in range(nel):
                v = const_read(gl.ty, gl.init, off.g * k + off.c, size)
                if v is None or isinstance(v, tuple): raise Unsupported('table read')
                r = v if r is None else ite(bv(off.t, 64) == k, v, r, 8 * size)
            return r
        if key not in self.tables:
            f = z3.Function('tbl_%s_%d_%d_%d' % (o.name, off.g, off.c, size), BV64, z3.BitVecSort(8 * size))
            self.tables[key] = (f, o, off.g, off.c, size)
        e = self.tables[key][0](bv(off.t, 64))
        self.tbl_used.add(key)
        if self.opts.get('table_facts') and not self.quick:
            if self.tf_pending is not None: self.tf_pending.append((key, bv(off.t, 64), e))
            else: self.table_fact(key, bv(off.t, 64), e)
        if self.opts.get('table_hook') and not self.quick: self.opts['table_hook'](self, key, bv(off.t, 64), e, g)
        return e

    def table_column(self, key):
        """all values of a table column (ground data)"""
        memo = self.__dict__.setdefault('_tcols', {})
        if key not in memo:
            f, o, g, c, size = self.tables[key]
            fl = flat(o)
            if fl is not None and g > 0:
                memo[key] = [int.from_bytes(fl[k:k + size], 'little') for k in range(c, o.size - size + 1, g)]
                return memo[key]
            memo[key] = [const_read(o.gl.ty, o.gl.init, g * k + c, size) for k in range((o.size - c - size) // g + 1)]
        return memo[key]

    def table_fact(self, key, i, e):
        """ground lemma: the values of a constant column lie between its minimum and maximum"""
        col = self.table_column(key)
        if any(v is None or isinstance(v, tuple) for v in col): return
        f, o, g, c, size = self.tables[key]
        if self.opts.get('trace'): print('table_fact', key)
        es = size_of(o.gl.ty.e) if o.gl.ty.k == 'arr' else (size_of(o.gl.ty.e[0].e) if o.gl.ty.k == 'struct' and o.gl.ty.e and o.gl.ty.e[0].k == 'arr' else 0)
        if es > g and es % g == 0 and es // g <= 64:
            m = es // g
            for r in range(m):
                sub = col[r::m]
                if sub: self.fact(z3.Implies(z3.And(z3.ULT(i, len(col)), z3.URem(i, m) == r if m & (m - 1) else (i & (m - 1)) == r), z3.And(z3.UGE(e, min(sub)), z3.ULE(e, max(sub)))))
        self.fact(z3.Implies(z3.ULT(i, len(col)), z3.And(z3.UGE(e, min(col)), z3.ULE(e, max(col)))))
        self.fact(self.tables[key][0](z3.BitVecVal(0, 64)) == col[0])

    def _ptr_table(self, o, off):
        h = self.opts.get('ptr_table')
        if h: return h(self, o, off)
        raise Unsupported('symbolic pointer table load %s' % o.name)

    # ---------------------------------------------------------------- value utilities
    def vite(self, c, a, b, ty):
        if c is True: return a
        if c is False: return b
        if a is b: return a
        k = ty.k
        if k == 'ptr': return ptr_ite(c, a, b)
        if k == 'vec': return [self.vite(c, x, y, ty.e) for x, y in zip(a, b)]
        if k == 'struct': return [self.vite(c, x, y, e) for x, y, e in zip(a, b, ty.e)]
        if k == 'arr': return [self.vite(c, x, y, ty.e) for x, y in zip(a, b)]
        if k == 'float': return a
        if isinstance(a, Poison): return b
        if isinstance(b, Poison): return a
        if isinstance(a, PInt) and isinstance(b, PInt): return PInt(ptr_ite(c, a.p, b.p))
        if isinstance(a, Scaled) and isinstance(b, Scaled) and a.g == b.g: return Scaled(a.g, ite(c, a.t, b.t, 64))
        if isinstance(a, Scaled) and is_c(b) and b % a.g == 0: return Scaled(a.g, ite(c, a.t, b // a.g, 64))
        if isinstance(b, Scaled) and is_c(a) and a % b.g == 0: return Scaled(b.g, ite(c, a // b.g, b.t, 64))
        a, b = self.mat(a), self.mat(b)
        if isinstance(a, PInt) or isinstance(b, PInt):
            pa = a.p if isinstance(a, PInt) else self.as_ptr(a)
            pb = b.p if isinstance(b, PInt) else self.as_ptr(b)
            return PInt(ptr_ite(c, pa, pb))
        return ite(c, a, b, ty.n)

    def fresh_of(self, ty, name='u'):
        if ty.k == 'int': return fresh(name, ty.n)
        if ty.k == 'vec': return [self.fresh_of(ty.e, name) for _ in range(ty.n)]
        if ty.k == 'struct': return [self.fresh_of(e, name) for e in ty.e]
        if ty.k == 'arr': return [self.fresh_of(ty.e, name) for _ in range(ty.n)]
        if ty.k == 'ptr': return NULLP
        if ty.k == 'float': return fresh(name, ty.n)
        return None

    def constval(self, c, ty, mod):
        k = c[0]
        if k == 'int': return bool(c[1] & 1) if ty.n == 1 else c[1] & mask(ty.n)
        if k == 'null': return NULLP
        if k == 'zero':
            if ty.k == 'int': return False if ty.n == 1 else 0
            if ty.k == 'ptr': return NULLP
            if ty.k in ('vec', 'arr'): return [self.constval(c, ty.e, mod) for _ in range(ty.n)]
            if ty.k == 'struct': return [self.constval(c, e, mod) for e in ty.e]
        if k in ('undef', 'poison'): return self.fresh_of(ty, k)
        if k == 'agg':
            es = ty.e if ty.k == 'struct' else [ty.e] * ty.n
            return [self.constval(x, e, mod) for x, e in zip(c[1], es)]
        if k == 'glob': return Ptr(self.global_obj(c[1], mod))
        if k == 'cgep':
            ops = [(t, self.constval(v, t, mod)) for t, v in c[2]]
            return self.gep(c[1], ops)
        if k == 'ccast':
            v = self.constval(c[3], c[2], mod)
            if c[1] == 'ptrtoint': return PInt(v)
            if c[1] == 'inttoptr': return self.as_ptr(v)
            return v
        if k == 'cbin':
            a, b = self.constval(c[3], c[2], mod), self.constval(c[4], c[2], mod)
            return self.arith(c[1], a, b, c[2], [])
        if k == 'float': return fresh('fp', ty.n)
        raise Unsupported('constant %r' % (c,))

    def gep(self, bt, ops):
        p = ops[0][1]
        idx = ops[1:]
        if isinstance(p, list): raise Unsupported('vector gep')

        def one(q):
            o = q.off; ty = bt
            for n, (ity, iv) in enumerate(idx):
                if n == 0: s = size_of(ty)
                elif ty.k == 'struct':
                    o = o.addc(offs(ty)[0][iv]); ty = ty.e[iv]; continue
                elif ty.k in ('arr', 'vec'): ty = ty.e; s = size_of(ty)
                else: raise Unsupported('gep into %r' % ty)
                if isinstance(iv, Scaled): o = o.adds(s * iv.g, iv.t)
                else: o = o.adds(s, sext(iv, ity.n, 64) if ity.n < 64 else iv)
            return Ptr(q.obj, o)

        def rec(q):
            return PtrIte(q.c, rec(q.a), rec(q.b)) if isinstance(q, PtrIte) else one(q)
        return rec(p)

    def ptr_cmp(self, pr, a, b):
        r = None
        for g1, p in leaves(a):
            for g2, q in leaves(b):
                g = And(g1, g2)
                if g is False: continue
                if p.obj is q.obj:
                    if p.off.t is None and q.off.t is None: v = cmpop(pr.replace('u', 's') if pr[0] == 'u' else pr, p.off.c & mask(64), q.off.c & mask(64), 64)
                    else:
                        gg, ta, tb, c = off_common(p.off, q.off) or (1, p.off.term(), q.off.term(), 0)
                        v = cmpop(pr.replace('u', 's') if pr[0] == 'u' else pr, ta, tb, 64)
                else:
                    if pr == 'eq': v = False
                    elif pr == 'ne': v = True
                    else: v = fresh('ptrcmp', 1)
                r = v if r is None else ite(g, v, r, 1)
        return r

    def arith(self, op, a, b, ty, fl):
        n = ty.n
        if isinstance(a, PInt) or isinstance(b, PInt):
            if op == 'sub' and isinstance(a, PInt) and isinstance(b, PInt):
                res = None
                for g1, p in leaves(a.p):
                    for g2, q in leaves(b.p):
                        if p.obj is not q.obj:
                            v = fresh('ptrdiff', 64)
                        elif p.off.t is None and q.off.t is None: v = (p.off.c - q.off.c) & mask(64)
                        else:
                            g, ta, tb, c = off_common(p.off, q.off)
                            t = simp(binop('sub', ta, tb, 64))
                            v = (t * g) & mask(64) if is_c(t) else Scaled(g, t)
                        res = v if res is None else self.vite(And(g1, g2), v, res, ty)
                return res
            if op in ('add', 'sub') and isinstance(a, PInt) and isinstance(a.p, Ptr) and is_c(b):
                return PInt(Ptr(a.p.obj, a.p.off.addc(b if op == 'add' else -b)))
            if op == 'and' and is_c(b): return fresh('ptrbits', n)
            raise Unsupported('pointer arithmetic %s' % op)
        if isinstance(a, Scaled) and is_c(b):
            if op in ('ashr', 'lshr') and a.g % (1 << b) == 0 and b < 60 and (op == 'ashr' or True):
                g = a.g >> b
                return Scaled(g, a.t) if g != 1 else a.t
            if op in ('sdiv', 'udiv') and b and a.g % b == 0:
                g = a.g // b
                return Scaled(g, a.t) if g != 1 else a.t
            if op == 'shl': return Scaled(a.g << b, a.t)
            if op == 'mul': return Scaled(a.g * b, a.t) if b else 0
        if isinstance(a, Scaled) and isinstance(b, Scaled) and op in ('add', 'sub'):
            g = math.gcd(a.g, b.g)
            return Scaled(g, binop(op, binop('mul', a.t, a.g // g, 64), binop('mul', b.t, b.g // g, 64), 64))
        a, b = self.mat(a), self.mat(b)
        # keep multiplicative structure visible for address computations
        return binop(op, a, b, n)


_flat = {}


def flat(o):
    """bytes of an integer-only constant initialiser (None when it holds pointers)"""
    k = id(o.gl)
    if k in _flat: return _flat[k][1]
    out = bytearray(o.size)

    def put(ty, c, off):
        if c[0] in ('zero', 'undef', 'poison'): return True
        if ty.k == 'struct':
            return all(put(e, x, off + p) for p, e, x in zip(offs(ty)[0], ty.e, c[1])) if c[0] == 'agg' else False
        if ty.k == 'arr':
            if c[0] != 'agg': return False
            es = size_of(ty.e)
            return all(put(ty.e, x, off + i * es) for i, x in enumerate(c[1]))
        if ty.k == 'int' and c[0] == 'int':
            n = store_size(ty); out[off:off + n] = (c[1] & mask(8 * n)).to_bytes(n, 'little'); return True
        return False
    try: r = bytes(out) if put(o.gl.ty, o.gl.init, 0) else None
    except Exception: r = None
    if r is not None: r = bytes(out)
    _flat[k] = (o, r)
    return r


def const_read(ty, c, off, size):
    """bytes [off, off+size) of a constant initialiser as an integer, or a constant tuple for pointers; None on failure"""
    if off < 0: return None
    if c[0] == 'zero': return 0
    if ty.k == 'struct':
        if c[0] != 'agg': return None
        os_ = offs(ty)[0]
        parts = []
        k = off; end = off + size
        for o, e, x in zip(os_, ty.e, c[1]):
            sz = size_of(e) if e.k in ('struct', 'arr') else store_size(e)
            if k < end and o <= k < o + sz:
                n = min(end, o + sz) - k
                v = const_read(e, x, k - o, n)
                if v is None or isinstance(v, tuple): return v
                parts.append((v, n * 8)); k += n
            elif o > k and k < end and k >= off and o < end and parts:
                parts.append((0, (o - k) * 8)); k = o
                n = min(end, o + sz) - k
                v = const_read(e, x, 0, n)
                if v is None or isinstance(v, tuple): return v
                parts.append((v, n * 8)); k += n
        if k < end:
            if k == off: return 0
            parts.append((0, (end - k) * 8))
        return concat(parts[::-1])
    if ty.k == 'arr':
        es = size_of(ty.e)
        parts = []; k = off; end = off + size
        while k < end:
            i = k // es
            if i >= ty.n: return None
            n = min(end, (i + 1) * es) - k
            v = const_read(ty.e, c[1][i], k - i * es, n)
            if v is None or isinstance(v, tuple): return v
            parts.append((v, n * 8)); k += n
        return concat(parts[::-1])
    if ty.k == 'int':
        if c[0] == 'int':
            return extract(c[1], 8 * (off + size) - 1, 8 * off, max(8 * store_size(ty), 8 * (off + size)))
        if c[0] in ('undef', 'poison'): return 0
        return None
    if ty.k == 'ptr':
        if off == 0 and size == 8: return c
        return None
    return None
