"""std::basic_string (libstdc++ layout: pointer, size, local buffer) handled by contract.

The readers size(), data(), begin(), end(), operator[] stay the real inlined code: they load the pointer and the size from the object.
Every other member is replaced by its contract (the standard's postcondition): the characters live in a backing array whose
length is the size field of the object, so reads and writes past the size fail the memory obligations.
Assumed: allocation succeeds, size < 2^60, no pointer or iterator into a string is used after an operation that may reallocate."""
import re
import z3
from .sym import *

READ = ['4size', '6length', '5empty', '4data', '5begin', '3end', '6cbegin', '4cend', '5c_str', '4back', '5front', '7_M_data']
SKIP = r'(?:' + '|'.join(READ) + r')Ev$|ixEm$|cvSt17basic_string_view'
MEMBERS = r'^_ZNK?St7__cxx1112basic_stringI(?!.*E(?:%s))' % SKIP.replace('$', '$')
TY = {'c': 1, 'Ds': 2, 'Di': 4, 'w': 4}


class StringModel:
    """collects the contracts; one instance per Verifier"""

    def __init__(self):
        self.backs = {}
        self.v = None
        self.on_append = None

    # ------------------------------------------------------------ representation
    def back(self, ex, p, es):
        q = p
        if not isinstance(q, Ptr) or q.off.t is not None: raise Unsupported('string object at a symbolic address')
        k = (q.obj.id, q.off.c)
        if k not in self.backs:
            o = ex.new_arr('%s+%d.chars' % (q.obj.name.split('.')[-1], q.off.c), es, 0)
            o.init = Arr(z3.Array('%s#%d' % (o.name, o.id), BV64, z3.BitVecSort(8 * es)))
            o.dyn = (q.obj, q.off.c)
            ex.reg(o); self.backs[k] = o
        o = self.backs[k]
        if o.es != es: raise Unsupported('string of another character type at the same address')
        return o

    def make(self, ex, st, p, es, a, n):
        """the object at p becomes the string (a, n)"""
        for g, q in leaves(p):
            if g is not True: raise Unsupported('string object at alternative addresses')
        o = self.back(ex, p, es)
        if st.g is False: return o
        ex.store_bytes(st, p.obj, p.off, 8, Ptr(o), st.g)
        self.setn(ex, st, p, n)
        self.seta(ex, st, o, a)
        return o

    def seta(self, ex, st, o, a):
        if ex.wlog is not None: ex.wlog.append((o, Off(0, None, 0), 0))
        st.m[o.id] = Arr(a)

    def setn(self, ex, st, p, n): ex.store_bytes(st, p.obj, p.off.addc(8), 8, n, st.g)

    def get(self, ex, st, p, es):
        o = self.back(ex, p, es)
        n = ex.load_bytes(st, p.obj, p.off.addc(8), 8, st.g)
        return o, ex.content(st, o).a, ex.mat(n)

    def string(self, ex, name, es, a=None, n=None):
        """a string object with arbitrary contents, as an initial object of the proof"""
        s = ex.reg(ex.new_cells(name, 32))
        o = self.back(ex, Ptr(s), es)
        if a is not None: o.init = Arr(a)
        n = n if n is not None else z3.BitVec(name + '.size', 64)
        s.cinit = {0: (Ptr(o), 8), 8: (n, 8)}
        ex.fact(z3.ULT(n, z3.BitVecVal(1 << 60, 64)))
        return s, o, n

    # ------------------------------------------------------------ operations
    def push(self, ex, st, p, es, vals, cnt=None):
        """appends vals; cnt (symbolic, <= len(vals)) limits how many"""
        o, a, n = self.get(ex, st, p, es)
        ex.fact(Implies(st.g, cmpop('ult', n, 1 << 60, 64)))
        if cnt is None or is_c(cnt):
            k = len(vals) if cnt is None else int(cnt)
            for i in range(k): a = z3.Store(a, bv(binop('add', n, i, 64), 64), bv(ex.mat(vals[i]), 8 * es))
            self.seta(ex, st, o, a); self.setn(ex, st, p, binop('add', n, k, 64)); return
        r = a; b = a
        for i, x in enumerate(vals):
            b = z3.Store(b, bv(binop('add', n, i, 64), 64), bv(ex.mat(x), 8 * es))
            r = z3.If(zb(eqv(cnt, i + 1, 64)), b, r)
        self.seta(ex, st, o, r); self.setn(ex, st, p, binop('add', n, cnt, 64))

    def src(self, ex, st, p, k, es):
        """the k elements at p: (array, start index) or a list of values"""
        k = ex.mat(k)
        if not is_c(k): k = simp(k)
        q = p
        if isinstance(q, PtrIte): q = ex.collapse(q)
        if q.obj.kind == 'null':
            ex.oblige('only the empty range starts at null', st.g, eqv(k, 0, 64), 'memory'); return [], 0
        if q.obj.kind == 'arr':
            ln = self.length(ex, st, q.obj); i = q.off.idx(es)
            if i is None: raise Unsupported('misaligned string source')
            ex.oblige('the range appended stays inside %s' % q.obj.name, st.g, And(cmpop('ule', k, ln, 64), cmpop('ule', i, binop('sub', ln, k, 64), 64)), 'memory')
            return (ex.content(st, q.obj).a, i, q.obj), k
        sz = q.obj.size
        if q.off.t is not None: raise Unsupported('string source at a symbolic address')
        cap = (sz - q.off.c) // es
        if is_c(k):
            ex.oblige('the range appended stays inside %s' % q.obj.name, st.g, int(k) <= cap, 'memory')
            return [ex.load_bytes(st, q.obj, q.off.addc(i * es), es, st.g) for i in range(min(int(k), cap))], min(int(k), cap)
        if cap > 64: raise Unsupported('append from a large table')
        ex.oblige('the range appended stays inside %s' % q.obj.name, st.g, cmpop('ule', k, cap, 64), 'memory')
        return [ex.load_bytes(st, q.obj, q.off.addc(i * es), es, st.g) for i in range(cap)], k

    def length(self, ex, st, o):
        d = getattr(o, 'dyn', None)
        if d is None: return o.n
        return ex.mat(ex.load_bytes(st, d[0], Off(0, None, d[1] + 8), 8, st.g))

    def blit(self, es, a, n, b, i, k):
        """contents after copying k elements from b[i..] to a[n..]"""
        A = z3.ArraySort(BV64, z3.BitVecSort(8 * es))
        f = z3.Function('blit%d' % es, A, BV64, A, BV64, BV64, A)
        return f(a, bv(n, 64), b, bv(i, 64), bv(k, 64))

    def copy(self, es, b, i, k):
        """contents of a fresh string made of the k elements b[i..]"""
        A = z3.ArraySort(BV64, z3.BitVecSort(8 * es))
        if is_c(i) and int(i) == 0: return b
        return z3.Function('slice%d' % es, A, BV64, BV64, A)(b, bv(i, 64), bv(k, 64))

    def append_range(self, ex, st, p, es, q, k):
        s, k = self.src(ex, st, q, k, es)
        if isinstance(s, list): self.push(ex, st, p, es, s, k); return
        o, a, n = self.get(ex, st, p, es)
        b, i, so = s
        if is_c(k) and int(k) <= 4:
            self.push(ex, st, p, es, [z3.Select(b, bv(binop('add', i, j, 64), 64)) for j in range(int(k))]); return
        self.seta(ex, st, o, self.blit(es, a, n, b, i, k)); self.setn(ex, st, p, binop('add', n, k, 64))

    def from_range(self, ex, st, p, es, q, k):
        s, k = self.src(ex, st, q, k, es)
        if isinstance(s, list):
            self.make(ex, st, p, es, self.back(ex, p, es).init.a, 0)
            self.push(ex, st, p, es, s, k); return
        self.make(ex, st, p, es, self.copy(es, s[0], s[1], k), k)

    # ------------------------------------------------------------ contracts
    def contracts(self):
        out = []

        def add(rx, h, tail=''):
            for t, es in TY.items():
                pre = r'^_ZNK?St7__cxx1112basic_stringI%sSt11char_traitsI%sESaI%sEE' % (t, t, t)
                out.append((re.compile(pre + rx), lambda ex, st, name, a, i, es=es, h=h: h(ex, st, es, a, i)))
        me = self
        fresh_a = lambda ex, p, es: me.back(ex, p, es).init.a

        def ctor(ex, st, es, a, i): me.make(ex, st, a[0], es, fresh_a(ex, a[0], es), 0)

        def take(ex, st, es, a, i):
            o, x, n = me.get(ex, st, a[1], es)
            me.make(ex, st, a[0], es, x, n)
            me.setn(ex, st, a[1], 0)

        def copyc(ex, st, es, a, i):
            o, x, n = me.get(ex, st, a[1], es)
            me.make(ex, st, a[0], es, x, n)
            return a[0]

        def move(ex, st, es, a, i):
            take(ex, st, es, a, i)
            return a[0]

        def clear(ex, st, es, a, i): me.setn(ex, st, a[0], 0)

        def nothing(ex, st, es, a, i): return None

        def push(ex, st, es, a, i): me.push(ex, st, a[0], es, [a[1]])

        def pluseq(ex, st, es, a, i): me.push(ex, st, a[0], es, [a[1]]); return a[0]

        def pop(ex, st, es, a, i):
            o, x, n = me.get(ex, st, a[0], es)
            ex.oblige('pop_back on a non-empty string', st.g, Not(eqv(n, 0, 64)), 'pre'); me.setn(ex, st, a[0], binop('sub', n, 1, 64))

        def app_range(ex, st, es, a, i):
            d = ex.ptr_diff(a[2], a[1], es) if hasattr(ex, 'ptr_diff') else None
            me.append_range(ex, st, a[0], es, a[1], ptr_distance(ex, a[1], a[2], es)); return a[0]

        def app_n(ex, st, es, a, i): me.append_range(ex, st, a[0], es, a[1], a[2]); return a[0]

        def app_view(ex, st, es, a, i):
            q = a[1]
            p = ex.load1(st, q, PTR_(), st.g); n = ex.load_bytes(st, q.obj, q.off, 8, st.g)
            me.append_range(ex, st, a[0], es, ex.load1(st, Ptr(q.obj, q.off.addc(8)), PTR_(), st.g), n); return a[0]

        def app_str(ex, st, es, a, i):
            o, x, n = me.get(ex, st, a[1], es)
            me.append_range(ex, st, a[0], es, Ptr(o), n); return a[0]

        def app_fill(ex, st, es, a, i):
            o, x, n = me.get(ex, st, a[0], es); k = ex.mat(a[1])
            A = z3.ArraySort(BV64, z3.BitVecSort(8 * es))
            f = z3.Function('fill%d' % es, A, BV64, BV64, z3.BitVecSort(8 * es), A)
            me.seta(ex, st, o, f(x, bv(n, 64), bv(k, 64), bv(a[2], 8 * es))); me.setn(ex, st, a[0], binop('add', n, k, 64)); return a[0]

        def resize(ex, st, es, a, i):
            """shrinking keeps the leading elements; growing appends zeroes (or the given character)"""
            o, x, n = me.get(ex, st, a[0], es); k = ex.mat(a[1]); ch = a[2] if len(a) > 2 else 0
            if is_c(n) and int(n) == 0 and is_c(ch):
                me.seta(ex, st, o, z3.K(BV64, z3.BitVecVal(int(ch), 8 * es)))
            else:
                A = z3.ArraySort(BV64, z3.BitVecSort(8 * es))
                f = z3.Function('grown%d' % es, A, BV64, BV64, z3.BitVecSort(8 * es), A)
                me.seta(ex, st, o, z3.If(zb(cmpop('ule', k, n, 64)), x, f(x, bv(n, 64), bv(k, 64), bv(ch, 8 * es))))
            me.setn(ex, st, a[0], k)

        def compare(ex, st, es, a, i):
            o, x, n = me.get(ex, st, a[0], es); o2, y, m = me.get(ex, st, a[1], es)
            return me.cmpf(es)(x, bv(n, 64), y, bv(m, 64))

        def ctor_n(ex, st, es, a, i): me.from_range(ex, st, a[0], es, a[1], a[2])

        def ctor_range(ex, st, es, a, i): me.from_range(ex, st, a[0], es, a[1], ptr_distance(ex, a[1], a[2], es))

        def ctor_view(ex, st, es, a, i):
            q = a[1]
            n = ex.load_bytes(st, q.obj, q.off, 8, st.g)
            me.from_range(ex, st, a[0], es, ex.load1(st, Ptr(q.obj, q.off.addc(8)), PTR_(), st.g), n)
        add(r'C[12]Ev$', ctor); add(r'C[12]ERKS3_$', ctor)
        add(r'C[12]EOS4_$', take); add(r'C[12]ERKS4_$', copyc)
        add(r'C[12]EPK(?:\w|D[is])mRKS3_$', ctor_n)
        add(r'C[12]IPK?(?:\w|D[is])vEET_S\w*_RKS3_$', ctor_range)
        add(r'C[12]ISt17basic_string_viewI', ctor_view)
        add(r'D[12]Ev$', nothing)
        add(r'aSEOS4_$', move); add(r'aSERKS4_$', copyc); add(r'6assignERKS4_$', copyc); add(r'6assignEOS4_$', move)
        add(r'5clearEv$', clear); add(r'7reserveE', nothing); add(r'13shrink_to_fitEv$', nothing)
        add(r'9push_backE', push); add(r'pLE(?:\w|D[is])$', pluseq); add(r'8pop_backEv$', pop)
        add(r'6appendIPK?(?:\w|D[is])vEERS4_', app_range)
        add(r'6appendIN9__gnu_cxx17__normal_iteratorIPK?(?:\w|D[is])S4_EEvEERS4_', app_range)
        add(r'6appendEPK(?:\w|D[is])m$', app_n)
        add(r'6appendISt17basic_string_view', app_view); add(r'pLISt17basic_string_view', app_view)
        add(r'6appendERKS4_$', app_str); add(r'pLERKS4_$', app_str)
        add(r'6appendEm(?:\w|D[is])$', app_fill)
        add(r'6resizeEm(?:\w|D[is])?$', resize)
        add(r'7compareERKS4_$', compare)
        return out

    def cmpf(self, es):
        A = z3.ArraySort(BV64, z3.BitVecSort(8 * es))
        return z3.Function('compare%d' % es, A, BV64, A, BV64, z3.BitVecSort(32))


def PTR_():
    from .ir import PTR
    return PTR


def ptr_distance(ex, a, b, es):
    """(b - a) in elements, for pointers into one object"""
    if isinstance(a, PtrIte): a = ex.collapse(a)
    if isinstance(b, PtrIte):
        if len({q.obj for g, q in leaves(b) if g is not False}) == 1: b = ex.collapse(b)
        else: raise Unsupported('range over several objects')
    if a.obj.kind == 'null' and b.obj.kind == 'null': return 0
    if a.obj is not b.obj: raise Unsupported('range over several objects')
    x, y = a.off.idx(es), b.off.idx(es)
    if x is None or y is None:
        x = Off(a.off.g, a.off.t, 0).idx(es); 
        if x is None or (b.off.c - a.off.c) % es: raise Unsupported('misaligned range')
        y = Off(b.off.g, b.off.t, b.off.c - a.off.c).idx(es)
        if y is None: raise Unsupported('misaligned range')
    return binop('sub', y, x, 64)
