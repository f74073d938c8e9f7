"""segmenters over a code point array: the reported segments partition the text at exactly the positions where the break machine reports a boundary"""
import ctypes, re, random
import z3
from engine import ir
from engine.sym import *
from engine.exec import Verifier
from engine.cands import generic, indices, pidx


class Partition:
    """
    cls       class name (constructed from a pointer pair, from a u32string_view, or empty)
    init,step regexes of the mangled names of the break machine's functions (handled by contract)
    peek      whether step takes (cp, rest, count, state) instead of (cp, state)
    ssize     size of the machine's state;  pad: padding byte offsets;  fresh0: its bytes after construction
    """

    def __init__(self, check, cls, tu, init, step, peek, ssize, pad, fresh0, sources, props, methods=('codepointsAvailable',)):
        self.c, self.cls, self.init, self.step, self.peek, self.ssize, self.pad, self.fresh0 = check, cls, init, step, peek, ssize, pad, fresh0
        self.sources, self.props = sources, props
        m = methods
        self.tu = tu + '''
#include <new>
using namespace unicode;
extern "C" {
unsigned z_size() { return sizeof(%(c)s); }
void z_ctor(char32_t const* b, char32_t const* e, %(c)s* o) { new (o) %(c)s(b, e); }
void z_view(char32_t const* b, size_t n, %(c)s* o) { new (o) %(c)s(std::u32string_view(b, n)); }
void z_inc(%(c)s* o) { ++*o; }
char32_t const* z_ptr(%(c)s const* o) { return (**o).data(); }
size_t z_len(%(c)s const* o) { return (**o).size(); }
bool z_avail(%(c)s const* o) { return o->codepointsAvailable(); }
bool z_bool(%(c)s const* o) { return static_cast<bool>(*o); }
bool z_done(%(c)s const* o) { return *o == %(c)s(); }
bool z_same(%(c)s const* o, %(c)s const* p) { return *o == *p; }
}
''' % {'c': cls}
        B = check.build()
        self.so = ctypes.CDLL(B.so(self.tu, sources))
        self.size = self.so.z_size()
        self.so.z_ptr.restype = ctypes.c_void_p; self.so.z_len.restype = ctypes.c_size_t
        for f in ('z_avail', 'z_bool', 'z_done', 'z_same'): getattr(self.so, f).restype = ctypes.c_bool
        self.layout()

    def native(self, text):
        """[(start, length, available, bool, done)] as iterated, at most len(text) + 3 steps"""
        a = (ctypes.c_uint32 * max(1, len(text)))(*text); b = ctypes.addressof(a)
        o = (ctypes.c_ubyte * self.size)()
        self.so.z_ctor(ctypes.c_void_p(b), ctypes.c_void_p(b + 4 * len(text)), o)
        out = []
        for _ in range(len(text) + 3):
            p = self.so.z_ptr(o); n = self.so.z_len(o)
            av = self.so.z_avail(o)
            out.append(((p - b) // 4 if p else 0, n, av, self.so.z_bool(o), self.so.z_done(o)))
            if len(out) > 1 and not out[-2][2]: break     # one step past exhaustion
            self.so.z_inc(o)
        return out

    def layout(self):
        """where the object keeps the begin and end of the segment and the end of the text: found by construction over a text with three distinct positions"""
        found = None
        for L in ((0x41, 0x0A, 0x42), (0x0A, 0x0A, 0x41, 0x0A)):
            a = (ctypes.c_uint32 * len(L))(*L); b = ctypes.addressof(a)
            o = (ctypes.c_ubyte * self.size)(*([0xA5] * self.size))
            self.so.z_ctor(ctypes.c_void_p(b), ctypes.c_void_p(b + 4 * len(L)), o)
            if self.so.z_len(o) != 1: raise Unsupported('a first segment of one code point was expected')
            self.so.z_inc(o)
            w = [int.from_bytes(bytes(o[k:k + 8]), 'little') for k in range(0, self.size - 7, 8)]
            p = self.so.z_ptr(o); n = self.so.z_len(o)
            m = {'left': {8 * i for i, x in enumerate(w) if x == p}, 'right': {8 * i for i, x in enumerate(w) if x == p + 4 * n}, 'end': {8 * i for i, x in enumerate(w) if x == b + 4 * len(L)}}
            found = m if found is None else {k: found[k] & m[k] for k in m}
        if any(len(x) != 1 for x in found.values()): raise Unsupported('the segmenter is not a record of segment begin, segment end and text end: %s' % found)
        self.at = {k: x.pop() for k, x in found.items()}
        rest = [k for k in range(self.size) if not any(x <= k < x + 8 for x in self.at.values())]
        st = None
        for k in rest:
            if all(k + i in rest for i in range(self.ssize)) and k % 4 == 0: st = k if st is None else st
        if self.ssize <= 4 or st is None:
            for k in rest:
                if all(k + i in rest for i in range(self.ssize)): st = k; break
        self.rest = rest; self.st = st

    # ------------------------------------------------------------ proof
    def module(self):
        t = open(self.c.build().ir(self.tu, noinline=['codepoint_properties3getE', self.init, self.step], strip=['codepoint_properties3getE', self.init, self.step])).read()
        return ir.Module(t)

    def env(self, m):
        c = self.c
        self.n = n = z3.BitVec('n', 64)
        S = 8 * self.ssize
        Rp = z3.Function('StateAfter', z3.BitVecSort(S), BV64, z3.BoolSort()); Brk = z3.Function('Boundary', BV64, z3.BoolSort())
        self.Rp, self.Brk = Rp, Brk
        last = []

        def lh(ex, obj, i, val, g):
            if obj is self.text: last.append((bv(i, 64), val))

        def position(x):
            x = bv(x, 32)
            if z3.is_select(x) and x.arg(0).eq(self.T): return x.arg(1)
            for i, w in last[::-1]:
                if isinstance(w, z3.ExprRef) and w.eq(x): return i
            raise Unsupported('the break machine is given something else than a code point of the text')

        def statebytes(ex, st, p):
            return bv(self.statev(ex, st, p.obj, p.off.c), S)

        def put(ex, st, p):
            x = fresh('state', S)
            ex.store_bytes(st, p.obj, p.off, self.ssize, x, st.g)
            return bv(x, S)

        def hinit(ex, st, name, a, i):
            j = position(a[0]); p = a[1]
            s = statebytes(ex, st, p)
            freshs = And(*[eqv(extract(s, 8 * k + 7, 8 * k, S), self.fresh0[k], 8) for k in range(self.ssize) if k not in self.pad])
            ex.oblige('the machine is (re)started at the beginning of the text or at a boundary it has reported', st.g,
                      Or(And(eqv(j, 0, 64), freshs), And(Brk(j), Rp(s, j), Not(eqv(j, 0, 64)))), 'pre', name)
            y = put(ex, st, p)
            ex.fact(Implies(st.g, Rp(y, j)))
            return None

        def hstep(ex, st, name, a, i):
            j = position(a[0]); p = a[-1]
            s = statebytes(ex, st, p)
            ex.oblige('the machine is stepped with the code point following the last one', st.g, And(Not(eqv(j, 0, 64)), Rp(s, j - 1)), 'pre', name)
            if self.peek:
                cnt = bv(a[2], 64); q = a[1]
                ok = ptr_at(ex, q, self.text, binop('add', j, 1, 64))
                ex.oblige('the look-ahead is exactly the rest of the text', st.g, And(eqv(cnt, binop('sub', binop('sub', n, j, 64), 1, 64), 64), ok), 'pre', name)
            y = put(ex, st, p)
            ex.fact(Implies(st.g, Rp(y, j)))
            return Brk(j)
        self.handlers = [self.props.get_contract(), (re.compile(self.init), hinit), (re.compile(self.step), hstep)]
        v = Verifier(m, self.handlers)
        v.fact(z3.ULT(n, z3.BitVecVal(1 << 60, 64)))
        self.text = v.reg(v.new_arr('text', 4, n)); self.T = self.text.init.a
        v.load_hook = lh
        self.k0 = k0 = z3.BitVec('k0', 64)
        v.fact(Brk(z3.BitVecVal(0, 64)))

        def extra(ex, info):
            out = []
            ix = indices(info, [self.text])
            ss = [x for x in info.cells if x.key[0] == 'cell' and x.kind == 'int' and x.bits == S]
            for nm, I in ix:
                for x in ss: out.append(('machine state %s after code point %s - 1' % (x.name, nm), lambda w, x=x, I=I: Rp(bv(ex.mat(w[x.key]), S), bv(I(w), 64) - 1)))
                out.append(('%s > 0' % nm, lambda w, I=I: Not(eqv(I(w), 0, 64))))
                out.append(('%s > segment begin' % nm, lambda w, I=I: z3.ULT(self.i0, bv(I(w), 64)) if self.i0 is not None else Not(eqv(I(w), 0, 64))))
                out.append(('no boundary inside up to %s' % nm, lambda w, I=I: z3.Implies(z3.And(z3.ULT(bv(self.i0, 64), k0), z3.ULT(k0, bv(I(w), 64))), z3.Not(Brk(k0)))))
            return out
        v.loop_hook = generic(extra=extra)
        return v

    def statev(self, v, st, o, off): return v.load_bytes(st, o, Off(0, None, off), self.ssize, True)

    def ptr(self, v, st, o, what):
        return v.load1(st, Ptr(o, Off(0, None, self.at[what])), ir.PTR, True)

    def object(self, v, name, left, right, s):
        """an object satisfying the class invariant"""
        o = v.reg(v.new_cells(name, self.size))
        d = {self.at['left']: (Ptr(self.text, Off(4, left, 0)), 8), self.at['right']: (Ptr(self.text, Off(4, right, 0)), 8), self.at['end']: (Ptr(self.text, Off(4, self.n, 0)), 8)}
        d[self.st] = (s, self.ssize)
        o.cinit = d
        return o

    def post(self, v, st, o, left, what):
        n, Brk, Rp, k0 = self.n, self.Brk, self.Rp, self.k0
        g = st.g
        # contents after the call, by the observers
        l, r, e = [self.ptr(v, st, o, k) for k in ('left', 'right', 'end')]
        R = pidx_of(v, r, self.text)
        v.oblige('%s: the segment begins where the previous one ended' % what, g, ptr_at(v, l, self.text, left), fn=what)
        v.oblige('%s: the end of the text is kept' % what, g, ptr_at(v, e, self.text, n), fn=what)
        v.oblige('%s: the segment lies inside the text' % what, g, And(z3.ULE(bv(left, 64), R), z3.ULE(R, n)), fn=what)
        v.oblige('%s: the segment is not empty while text is left' % what, g, Implies(z3.ULT(bv(left, 64), n), z3.ULT(bv(left, 64), R)), fn=what)
        v.oblige('%s: there is no boundary inside the segment' % what, g, Implies(And(z3.ULT(bv(left, 64), k0), z3.ULT(k0, R)), Not(Brk(k0))), fn=what)
        v.oblige('%s: the segment ends at a boundary or at the end of the text' % what, g, Or(R == n, Brk(R)), fn=what)
        s = bv(self.statev(v, st, o, self.st), 8 * self.ssize)
        v.oblige('%s: the class invariant holds' % what, g, Or(R == n, And(Brk(R), Rp(s, R), z3.ULT(bv(left, 64), R))), 'representation', what)

    def prove(self):
        c = self.c; m = self.module()
        zero = z3.BitVecVal(0, 64)
        for form in ('z_ctor', 'z_view'):
            v = self.env(m); self.i0 = zero
            o = v.reg(v.new_cells('segmenter', self.size))
            a = [Ptr(self.text), Ptr(self.text, Off(4, self.n, 0)), Ptr(o)] if form == 'z_ctor' else [Ptr(self.text), self.n, Ptr(o)]
            r, st = v.call_fn(m.fn(form), a, State(True, {}))
            self.post(v, st, o, zero, self.cls + ' constructor')
            c.satisfiable(form, v.facts); c.discharge(v, timeout=60)
        v = self.env(m); l, rr = z3.BitVecs('l r', 64); self.i0 = rr
        s = z3.BitVec('s', 8 * self.ssize)
        o = self.object(v, 'segmenter', l, rr, s)
        v.fact(z3.ULE(l, rr)); v.fact(z3.ULE(rr, self.n)); v.fact(z3.Or(rr == self.n, z3.And(self.Brk(rr), self.Rp(s, rr), z3.ULT(l, rr))))
        r, st = v.call_fn(m.fn('z_inc'), [Ptr(o)], State(True, {}))
        self.post(v, st, o, rr, self.cls + '::operator++')
        c.satisfiable('operator++', v.facts); c.discharge(v, timeout=60)
        # observers
        v = self.env(m); self.i0 = rr
        o = self.object(v, 'segmenter', l, rr, s)
        v.fact(z3.ULE(l, rr)); v.fact(z3.ULE(rr, self.n)); v.fact(z3.Or(rr == self.n, z3.And(self.Brk(rr), self.Rp(s, rr), z3.ULT(l, rr))))
        f = self.cls
        r, st = v.call_fn(m.fn('z_ptr'), [Ptr(o)], State(True, {}))
        v.oblige('the reported segment starts at the segment begin', st.g, ptr_at(v, r, self.text, l), fn=f + '::operator*')
        r, st = v.call_fn(m.fn('z_len'), [Ptr(o)], State(True, {}))
        v.oblige('the reported segment ends at the segment end', st.g, eqv(r, rr - l, 64), fn=f + '::operator*')
        for q in ('z_avail', 'z_bool'):
            r, st = v.call_fn(m.fn(q), [Ptr(o)], State(True, {}))
            v.oblige('%s: exhaustion is reported exactly at the end of the text' % q, st.g, eqv(r, rr != self.n, 1), fn=f + '::codepointsAvailable')
        r, st = v.call_fn(m.fn('z_done'), [Ptr(o)], State(True, {}))
        v.oblige('comparing with the empty segmenter reports exhaustion exactly at the end of the text', st.g, eqv(r, rr == self.n, 1), fn=f + '::operator==')
        c.discharge(v, timeout=60)
        c.contracts += [f + '::' + f, f + '::operator++', f + '::operator*', f + '::codepointsAvailable', f + '::operator==']

    # ------------------------------------------------------------ search
    def check_native(self, text, bounds):
        """bounds: sorted boundary positions strictly inside the text"""
        got = self.native(text)
        cuts = [0] + list(bounds) + [len(text)]
        want = ([(a, b - a) for a, b in zip(cuts, cuts[1:])] if text else [(0, 0)]) + [(len(text), 0)]
        g = [(a, n) for a, n, *_ in got]
        bad = None
        if g != want: bad = (g, want)
        else:
            for i, (a, n, av, bo, done) in enumerate(got):
                w = a + n != len(text)
                if (av, bo, done) != (w, w, not w): bad = ([av, bo, done], [w, w, not w]); break
        if bad: return {'class': self.cls, 'text': ['U+%04X' % x for x in text], 'got (begin, length)': bad[0], 'expected': bad[1]}
        return None


def texts(rnd, reps, n):
    """random texts, some with very long runs"""
    for i in range(n):
        sub = rnd.choice([reps, rnd.sample(reps, 3), rnd.sample(reps, 5), rnd.sample(reps, 2)])
        t = []
        for _ in range(rnd.randint(0, 9)): t += [rnd.choice(sub)] * (1 if rnd.random() < .95 else rnd.choice([2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 130, 257]))
        yield t


def ptr_at(v, p, obj, i):
    """pointer p is &obj[i]"""
    out = []
    for g, q in leaves(p):
        if g is False: continue
        if q.obj is not obj: out.append(Not(g)); continue
        k = pidx(q, obj.es)
        out.append(Implies(g, eqv(k, i, 64)))
    return And(*out)


def pidx_of(v, p, obj):
    r = None
    for g, q in leaves(p):
        if g is False: continue
        if q.obj is not obj: raise Unsupported('pointer to another object')
        k = bv(pidx(q, obj.es), 64)
        r = k if r is None else z3.If(zb(g), k, r)
    return r
