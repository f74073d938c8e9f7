"""streaming normalisation equals normalising the whole text at once"""
import ctypes, random, re
import numpy as np
import z3
from oracle import ucd
from engine import ir
from engine.sym import *
from engine.exec import Verifier
from engine.cands import generic, along, indices
from engine.strings import StringModel, MEMBERS
from . import utf8
from .tables import N
from .C11 import full, CCC, CCCN, NORM32, AS, BV8, BV32, hccc
from .C12 import FORM, NORM_SRC
from .C13 import qc_table

STD = ''.join('#include <%s>\n' % x for x in 'algorithm array cassert cstddef cstdint cstring functional iterator map memory new optional ostream span sstream string string_view tuple type_traits utility variant vector'.split())
TU = STD + '''#define private public
#include "utf8.cpp"
#include "normalization.cpp"
#undef private
using namespace unicode; using NF = Normalization_Form;
extern "C" {
unsigned z_off(int k) { switch (k) { case 0: return sizeof(normalizer); case 1: return offsetof(normalizer, _form); case 2: return offsetof(normalizer, _pending); case 3: return offsetof(normalizer, _output);
 case 4: return sizeof(utf8_normalizer); case 5: return offsetof(utf8_normalizer, _inner); case 6: return offsetof(utf8_normalizer, _utf8State); case 7: return offsetof(utf8_normalizer, _utf8Output);
 case 8: return offsetof(utf8_decoder_state, expectedLength); case 9: return offsetof(utf8_decoder_state, currentLength); case 10: return offsetof(utf8_decoder_state, character); case 11: return sizeof(normalizer::_form); } return 0; }
unsigned z_form(int k) { return (unsigned)(k == 0 ? NF::NFC : k == 1 ? NF::NFD : k == 2 ? NF::NFKC : NF::NFKD); }
bool z_bnd(normalizer const* o, char32_t c) { return o->is_boundary(c); }
void z_bnds(int f, unsigned* out) { normalizer n((NF)f); for (unsigned c = 0; c < 0x110000; ++c) out[c] = n.is_boundary(c); }
void z_new(normalizer* o, NF f) { new (o) normalizer(f); }
char32_t const* z_feed(normalizer* o, char32_t c, size_t* n) { auto r = o->feed(c); *n = r.size(); return r.data(); }
char32_t const* z_flush(normalizer* o, size_t* n) { auto r = o->flush(); *n = r.size(); return r.data(); }
void z_reset(normalizer* o) { o->reset(); }
void y_new(utf8_normalizer* o, NF f) { new (o) utf8_normalizer(f); }
char const* y_feed(utf8_normalizer* o, char const* p, size_t k, size_t* n) { auto r = o->feed(std::string_view(p, k)); *n = r.size(); return r.data(); }
char const* y_flush(utf8_normalizer* o, size_t* n) { auto r = o->flush(); *n = r.size(); return r.data(); }
void y_reset(utf8_normalizer* o) { o->reset(); }
}
'''
NAT = '''
extern "C" int n_run(unsigned const* s, unsigned n, int f, unsigned seed, int dirty, unsigned* got, unsigned* ng, unsigned* want, unsigned* nw, unsigned cap) {
  std::u32string t((char32_t const*)s, n), out; normalizer z((NF)f); if (dirty) { (void)z.feed(U'a'); (void)z.feed(0x301); if (dirty == 1) z.reset(); else (void)z.flush(); }
  for (char32_t c: t) { auto r = z.feed(c); out.append(r.data(), r.size()); } { auto r = z.flush(); out.append(r.data(), r.size()); }
  auto w = normalize(std::u32string_view(t), (NF)f);
  *ng = out.size(); *nw = w.size(); for (size_t i = 0; i < out.size() && i < cap; ++i) got[i] = out[i]; for (size_t i = 0; i < w.size() && i < cap; ++i) want[i] = w[i];
  if (out != w) return 1;
  std::string u = convert_to<char>(std::u32string_view(t)), o8; utf8_normalizer y((NF)f); if (dirty) { (void)y.feed("a\\xCC"); if (dirty == 2) (void)y.feed("\\x81"); if (dirty == 1) y.reset(); else (void)y.flush(); }
  for (size_t i = 0; i < u.size();) { seed = seed * 1103515245u + 12345u; size_t k = 1 + (seed >> 16) % 5; k = std::min(k, u.size() - i); auto r = y.feed(std::string_view(u).substr(i, k)); o8.append(r.data(), r.size()); i += k; }
  { auto r = y.flush(); o8.append(r.data(), r.size()); }
  auto w8 = normalize(std::string_view(u), (NF)f); if (o8 == w8) return 0;
  auto b = convert_to<char32_t>(std::string_view(o8)); *ng = b.size(); for (size_t i = 0; i < b.size() && i < cap; ++i) got[i] = b[i]; return 2; }
'''
FEED, FLUSH, RESET = r'^_ZN7unicode10normalizer4feedEDi$', r'^_ZN7unicode10normalizer5flushEv$', r'^_ZN7unicode10normalizer5resetEv$'
BND = r'^_ZNK7unicode10normalizer11is_boundaryEDi$'
CONV = r'^_ZN7unicode10convert_toIcSt20back_insert_iterator'
QCN = r'^_ZN7unicode\d+nfk?[cd]_quick_checkEDi$'
A8 = z3.ArraySort(BV64, BV8)
IB = z3.Function('SafeBoundary', BV32, BV32, z3.BoolSort())
NA, NN = z3.Function('Normalised', AS, BV64, BV32, AS), z3.Function('NormalisedSize', AS, BV64, BV32, BV64)


class Proof:
    def __init__(self, c, so, mod, mod8):
        self.c, self.so, self.mod, self.mod8 = c, so, mod, mod8
        k = [so.z_off(i) for i in range(12)]
        self.size, self.form, self.pend, self.out, self.size8, self.inner, self.dec, self.out8 = k[:8]
        self.f3 = [self.dec + x for x in k[8:11]]; self.fs = k[11]; self.fb = 8 * self.fs

    def formof(self, ex, st, p):
        return bv(zext(ex.mat(ex.load_bytes(st, p.obj, p.off.addc(self.form), self.fs, st.g)), self.fb, 32), 32)

    # ------------------------------------------------------------ code point normaliser
    def env(self):
        self.S = S = StringModel()

        def hn(ex, st, nm, a, i):
            dst, k, q = a[0], bv(ex.mat(a[1]), 64), a[2]
            if isinstance(q, PtrIte): q = ex.collapse(q)
            if q.obj.kind != 'arr' or not is_c(q.off.idx(4)) or int(q.off.idx(4)) != 0: raise Unsupported('a whole string is expected')
            ex.oblige('the whole pending text is normalised', st.g, eqv(k, S.length(ex, st, q.obj), 64), 'pre', nm)
            x = ex.content(st, q.obj).a; f = bv(zext(a[3], self.fb, 32), 32)
            ex.fact(z3.ULT(NN(x, k, f), z3.BitVecVal(1 << 60, 64)))
            S.make(ex, st, dst, 4, NA(x, k, f), NN(x, k, f))

        def hb(ex, st, nm, a, i):
            return IB(bv(a[1], 32), self.formof(ex, st, a[0]))
        self.v = v = Verifier(self.mod, [(re.compile(NORM32), hn), (re.compile(BND), hb)] + S.contracts(), {})
        v.loop_hook = generic()
        o = self.o = v.reg(v.new_cells('normalizer', self.size))
        f = z3.BitVec('form', self.fb); self.f = bv(zext(f, self.fb, 32), 32); o.cinit = {self.form: (f, self.fs)}
        self.p, self.q = S.back(v, Ptr(o, Off(0, None, self.pend)), 4), S.back(v, Ptr(o, Off(0, None, self.out)), 4)
        self.pn, self.qn = z3.BitVecs('pending.size output.size', 64)
        for at, b, n in ((self.pend, self.p, self.pn), (self.out, self.q, self.qn)):
            o.cinit[at] = (Ptr(b), 8); o.cinit[at + 8] = (n, 8); v.fact(z3.ULT(n, z3.BitVecVal(1 << 60, 64)))
        self.n = v.reg(v.new_cells('size', 8))
        return v

    def after(self, st):
        """(pending contents, pending size, output contents, output size)"""
        v = self.v
        _, a, n = self.S.get(v, st, Ptr(self.o, Off(0, None, self.pend)), 4); _, b, m = self.S.get(v, st, Ptr(self.o, Off(0, None, self.out)), 4)
        return a, bv(n, 64), b, bv(m, 64)

    def view(self, st, r, emitted, a, n, what):
        """the returned view: empty, or the whole of (a, n)"""
        v = self.v
        k = bv(v.mat(v.load_bytes(st, self.n, Off(0, None, 0), 8, True)), 64)
        v.oblige('%s: the size of the returned segment' % what, st.g, k == z3.If(zb(emitted), n, z3.BitVecVal(0, 64)), fn=what)
        ok = False
        for g, q in leaves(r):
            if q.obj is self.q and is_c(q.off.idx(4)) and int(q.off.idx(4)) == 0: ok = Or(ok, g)
        v.oblige('%s: the returned segment is the output buffer' % what, And(st.g, emitted, n != 0), ok, fn=what)
        _, _, b, m = self.after(st)
        v.oblige('%s: the output buffer holds the normalised pending text' % what, And(st.g, emitted), And(b == a, m == n), fn=what)

    def code_points(self):
        c = self.c
        v = self.env(); cp = z3.BitVec('cp', 32); P = self.p.init.a
        r, st = v.call_fn(self.mod.fn('z_feed'), [Ptr(self.o), cp, Ptr(self.n)], State(True, {}))
        cut = z3.And(self.pn != 0, IB(cp, self.f)); w = 'normalizer::feed'
        self.view(st, r, cut, NA(P, self.pn, self.f), NN(P, self.pn, self.f), w)
        a, n, b, m = self.after(st)
        v.oblige('the pending text is continued, or restarted after a segment was emitted', st.g, And(n == z3.If(cut, z3.BitVecVal(1, 64), self.pn + 1), z3.Implies(cut, z3.Select(a, 0) == cp), z3.Implies(z3.Not(cut), a == z3.Store(P, self.pn, cp))), fn=w)
        v.oblige('the form is kept', st.g, eqv(self.formof(v, st, Ptr(self.o)), self.f, 32), fn=w)
        c.satisfiable(w, v.facts + [cut]); c.contracts.append(w); c.discharge(v)
        v = self.env(); P = self.p.init.a; w = 'normalizer::flush'
        r, st = v.call_fn(self.mod.fn('z_flush'), [Ptr(self.o), Ptr(self.n)], State(True, {}))
        self.view(st, r, self.pn != 0, NA(P, self.pn, self.f), NN(P, self.pn, self.f), w)
        v.oblige('nothing is pending afterwards', st.g, self.after(st)[1] == 0, fn=w)
        v.oblige('the form is kept', st.g, eqv(self.formof(v, st, Ptr(self.o)), self.f, 32), fn=w)
        c.contracts += [w, 'normalizer::emit_pending']; c.discharge(v)
        v = self.env(); w = 'normalizer::reset'
        r, st = v.call_fn(self.mod.fn('z_reset'), [Ptr(self.o)], State(True, {}))
        v.oblige('nothing is pending afterwards', st.g, self.after(st)[1] == 0, fn=w)
        v.oblige('the form is kept', st.g, eqv(self.formof(v, st, Ptr(self.o)), self.f, 32), fn=w)
        c.contracts.append(w); c.discharge(v)
        v = self.env(); w = 'normalizer::normalizer'; self.o.cinit = {}
        f = z3.BitVec('form', self.fb)
        r, st = v.call_fn(self.mod.fn('z_new'), [Ptr(self.o), f], State(True, {}))
        v.oblige('nothing is pending', st.g, self.after(st)[1] == 0, fn=w)
        v.oblige('the form is stored', st.g, eqv(self.formof(v, st, Ptr(self.o)), zext(f, self.fb, 32), 32), fn=w)
        c.contracts.append(w); c.discharge(v)

    # ------------------------------------------------------------ boundary predicate
    def boundary(self, form):
        """is_boundary reads nothing of the object but the form (its values: ground lemma)"""
        c = self.c; so = self.so; fv = so.z_form(FORM[form])
        q = lambda ex, st, nm, a, i: fresh('qc', i.ty.n)
        v = Verifier(self.mod, [hccc, (re.compile(QCN), q)], {'table_facts': True})
        cp = z3.BitVec('cp', 32); v.loop_hook = generic(key=cp)
        o = v.reg(v.new_cells('normalizer', self.size)); o.cinit = {self.form: (fv, self.fs)}
        old = v.load_bytes

        def guard(st, ob, off, size, g):
            if ob is o: v.oblige('only the form is read', And(st.g, g), off.t is None and off.c == self.form and size == self.fs, 'frame', 'normalizer::is_boundary')
            return old(st, ob, off, size, g)
        v.load_bytes = guard
        v.call_fn(self.mod.fn('z_bnd'), [Ptr(o), cp], State(True, {}))
        c.contracts.append('normalizer::is_boundary'); c.discharge(v)

    # ------------------------------------------------------------ UTF-8 normaliser
    def env8(self):
        """the inner normaliser by contract: an abstract state (kept where its pending size is), next state and emitted segment as functions"""
        self.S = S = StringModel()
        self.Nx = Nx = z3.Function('InnerNext', BV64, BV32, BV64); self.Sg = Sg = z3.Function('Segment', BV64, BV32, AS); self.Sn = Sn = z3.Function('SegmentSize', BV64, BV32, BV64)
        self.Fg, self.Fn, self.F0 = z3.Function('LastSegment', BV64, AS), z3.Function('LastSegmentSize', BV64, BV64), z3.BitVec('InnerEmpty', 64)
        self.EA, self.EN = z3.Function('EncodedAppended', A8, BV64, AS, BV64, A8), z3.Function('EncodedSize', AS, BV64, BV64)

        def token(ex, st, p): return bv(ex.mat(ex.load_bytes(st, p.obj, p.off.addc(self.pend + 8), 8, st.g)), 64)
        self.token = token

        def emit(ex, st, p, a, n, nxt):
            ex.fact(z3.ULT(n, z3.BitVecVal(1 << 56, 64)))
            q = Ptr(p.obj, p.off.addc(self.out))
            S.make(ex, st, q, 4, a, n)
            ex.store_bytes(st, p.obj, p.off.addc(self.pend + 8), 8, nxt, st.g)
            return [n, Ptr(S.back(ex, q, 4))]

        def feed(ex, st, nm, a, i):
            t, x = token(ex, st, a[0]), bv(a[1], 32)
            return emit(ex, st, a[0], Sg(t, x), Sn(t, x), Nx(t, x))

        def flush(ex, st, nm, a, i):
            t = token(ex, st, a[0])
            return emit(ex, st, a[0], self.Fg(t), self.Fn(t), self.F0)

        def reset(ex, st, nm, a, i): ex.store_bytes(st, a[0].obj, a[0].off.addc(self.pend + 8), 8, self.F0, st.g)

        def conv(ex, st, nm, a, i):
            """convert_to<char>(view, back_inserter(string)): appends the encoding (C03)"""
            args = [x for x in a]
            n = [x for x in args if not isinstance(x, (Ptr, PtrIte))]; ps = [x for x in args if isinstance(x, (Ptr, PtrIte))]
            if len(n) != 1 or len(ps) < 2: raise Unsupported('conversion to a back inserter: %s' % (a,))
            src = [p for p in ps if isinstance(p, Ptr) and p.obj.kind == 'arr']; dst = [p for p in ps if p not in src]
            if len(src) != 1 or len(dst) != 1: raise Unsupported('conversion arguments')
            if not (is_c(src[0].off.idx(4)) and int(src[0].off.idx(4)) == 0): raise Unsupported('a whole segment is expected')
            k = bv(ex.mat(n[0]), 64)
            ex.oblige('the whole segment is encoded', st.g, eqv(k, S.length(ex, st, src[0].obj), 64), 'pre', nm)
            x = ex.content(st, src[0].obj).a
            o, y, m = S.get(ex, st, dst[0], 1); m = bv(m, 64)
            S.seta(ex, st, o, self.EA(y, m, x, k)); S.setn(ex, st, dst[0], m + self.EN(x, k))
            return dst[0]
        self.v = v = Verifier(self.mod8, [(re.compile(FEED), feed), (re.compile(FLUSH), flush), (re.compile(RESET), reset), (re.compile(CONV), conv)] + S.contracts(), {})
        o = self.o = v.reg(v.new_cells('utf8_normalizer', self.size8)); o.cinit = {}
        b, q = S.back(v, Ptr(o, Off(0, None, self.out8)), 1), S.back(v, Ptr(o, Off(0, None, self.inner + self.out)), 4)
        self.b = b
        self.bn, self.t0 = z3.BitVecs('utf8Output.size inner', 64)
        o.cinit[self.out8] = (Ptr(b), 8); o.cinit[self.out8 + 8] = (self.bn, 8); o.cinit[self.inner + self.pend + 8] = (self.t0, 8)
        v.fact(z3.ULT(self.bn, z3.BitVecVal(1 << 60, 64)))
        self.nn = v.reg(v.new_cells('size', 8))
        return v

    def app(self, A, Nn, a, n):
        return z3.If(n == 0, A, self.EA(A, Nn, a, n)), z3.If(n == 0, Nn, Nn + self.EN(a, n))

    def decoder(self, ex, st):
        return [bv(ex.mat(ex.load_bytes(st, self.o, Off(0, None, k), 4, True)), 32) for k in self.f3]

    def rel(self, ex, st, s):
        e, c, a = self.decoder(ex, st); need, seen, acc = s
        return And(eqv(e, zext(need, 8, 32), 32), Or(eqv(need, 0, 8), And(eqv(c, zext(seen, 8, 32), 32), eqv(a, acc, 32))))

    def view8(self, st, r, a, n, what):
        v = self.v
        _, x, m = self.S.get(v, st, Ptr(self.o, Off(0, None, self.out8)), 1)
        k = bv(v.mat(v.load_bytes(st, self.nn, Off(0, None, 0), 8, True)), 64)
        v.oblige('%s: the result has the size of the encoded segments' % what, st.g, And(k == n, eqv(m, n, 64)), fn=what)
        v.oblige('%s: the result is the concatenation of the encoded segments' % what, And(st.g, n != 0), x == a, fn=what)
        ok = False
        for g, q in leaves(r):
            if q.obj is self.b and is_c(q.off.idx(1)) and int(q.off.idx(1)) == 0: ok = Or(ok, g)
        v.oblige('%s: the result is the output buffer' % what, And(st.g, n != 0), ok, fn=what)

    def bytes_(self):
        c = self.c; w = 'utf8_normalizer::feed'
        v = self.env8()
        n = z3.BitVec('n', 64); v.fact(z3.ULT(n, z3.BitVecVal(1 << 58, 64)))
        text = v.reg(v.new_arr('text', 1, n)); T = text.init.a
        s = [z3.Function(x, BV64, z3.BitVecSort(k)) for x, k in (('need', 8), ('seen', 8), ('acc', 32))]
        S_ = lambda i: tuple(f(i) for f in s)
        I, A, Nn = z3.Function('InnerAfter', BV64, BV64), z3.Function('OutputAfter', BV64, A8), z3.Function('OutputSizeAfter', BV64, BV64)
        z = z3.BitVecVal(0, 64)
        v.fact(zb(utf8.inv(S_(z)))); v.fact(zb(self.rel(v, State(True, {}), S_(z))))
        v.fact(z3.And(I(z) == self.t0, Nn(z) == 0, A(z) == self.b.init.a))

        def lh(ex, obj, i, val, g):
            if obj is not text: return
            i = bv(i, 64)
            out, cp, s2 = utf8.step(S_(i), z3.Select(T, i))
            x = bv(ite(eqv(out, 2, 8), cp, 0xFFFD, 32), 32); fed = zb(Not(eqv(out, 1, 8)))
            a2, n2 = self.app(A(i), Nn(i), self.Sg(I(i), x), self.Sn(I(i), x))
            ex.fact(z3.Implies(z3.ULT(i, n), z3.And(zb(And(*[eqv(f(i + 1), y, k) for f, y, k in zip(s, s2, (8, 8, 32))])), zb(utf8.inv(S_(i))), zb(utf8.inv(S_(i + 1))),
                    I(i + 1) == z3.If(fed, self.Nx(I(i), x), I(i)), A(i + 1) == z3.If(fed, a2, A(i)), Nn(i + 1) == z3.If(fed, n2, Nn(i)))))
        v.load_hook = lh

        def extra(ex, info):
            r = []
            for nm, X in indices(info, [text]):
                St = lambda w: State(True, w.mem); i = lambda w, X=X: bv(X(w), 64)
                r.append(('decoder state after %s' % nm, lambda w, i=i: self.rel(ex, St(w), S_(i(w)))))
                r.append(('inner state after %s' % nm, lambda w, i=i: self.token(ex, St(w), Ptr(self.o, Off(0, None, self.inner))) == I(i(w))))
                r.append(('output after %s' % nm, lambda w, i=i: And(self.S.get(ex, St(w), Ptr(self.o, Off(0, None, self.out8)), 1)[1] == A(i(w)), bv(self.S.get(ex, St(w), Ptr(self.o, Off(0, None, self.out8)), 1)[2], 64) == Nn(i(w)))))
                r.append(('%s <= n' % nm, lambda w, i=i: z3.ULE(i(w), n)))
                r.append(('decoder invariant after %s' % nm, lambda w, i=i: utf8.inv(S_(i(w)))))
            return r
        v.loop_hook = generic(extra=extra)
        r, st = v.call_fn(self.mod8.fn('y_feed'), [Ptr(self.o), Ptr(text), n, Ptr(self.nn)], State(True, {}))
        self.view8(st, r, A(n), Nn(n), w)
        v.oblige('the decoder state is the one after the piece', st.g, self.rel(v, st, S_(n)), fn=w)
        v.oblige('the inner normaliser is the one after the piece', st.g, self.token(v, st, Ptr(self.o, Off(0, None, self.inner))) == I(n), fn=w)
        c.satisfiable(w, v.facts); c.contracts.append(w); c.discharge(v, timeout=60)
        v = self.env8(); w = 'utf8_normalizer::flush'
        r, st = v.call_fn(self.mod8.fn('y_flush'), [Ptr(self.o), Ptr(self.nn)], State(True, {}))
        a, k = self.app(self.b.init.a, z, self.Fg(self.t0), self.Fn(self.t0))
        self.view8(st, r, a, k, w)
        v.oblige('the inner normaliser is flushed', st.g, self.token(v, st, Ptr(self.o, Off(0, None, self.inner))) == self.F0, fn=w)
        c.contracts.append(w); c.discharge(v)
        for fn, w in (('y_reset', 'utf8_normalizer::reset'),):
            v = self.env8()
            r, st = v.call_fn(self.mod8.fn(fn), [Ptr(self.o)], State(True, {}))
            v.oblige('the inner normaliser is reset and no character is unfinished', st.g, And(self.token(v, st, Ptr(self.o, Off(0, None, self.inner))) == self.F0, self.rel(v, st, (0, 0, 0))), fn=w)
            c.contracts.append(w); c.discharge(v)
        v = self.env8(); self.o.cinit = {}; w = 'utf8_normalizer::utf8_normalizer'; f = z3.BitVec('form', self.fb)
        r, st = v.call_fn(self.mod8.fn('y_new'), [Ptr(self.o), f], State(True, {}))
        v.oblige('construction: nothing pending, no unfinished character, the form stored', st.g, And(self.rel(v, st, (0, 0, 0)), eqv(self.token(v, st, Ptr(self.o, Off(0, None, self.inner))), 0, 64),
                 eqv(self.formof(v, st, Ptr(self.o, Off(0, None, self.inner))), zext(f, self.fb, 32), 32)), fn=w)
        c.contracts.append(w); c.discharge(v)


def lemmas(c):
    """a text may be cut before a starter that leads its own decomposition and never composes with what precedes it"""
    a, b = z3.Array('a', BV64, BV32), z3.Array('b', BV64, BV32)
    K = lambda x, i: CCC(z3.Select(x, i))
    q, i, k, n1 = z3.BitVecs('q i k n1', 64); z8 = z3.BitVecVal(0, 8)
    pair = lambda x, q: z3.And(z3.UGE(q, 1), K(x, q) != 0, z3.UGT(K(x, q - 1), K(x, q)))
    swp = lambda x, j: z3.Store(z3.Store(x, j - 1, z3.Select(x, j)), j, z3.Select(x, j - 1))
    c.prove('ordering: a leading starter is never moved', [K(a, 0) == 0, pair(a, q)], z3.Select(swp(a, q), 0) == z3.Select(a, 0), 'specification')
    # concatenation c of x (n1 code points) and y: a reorderable pair of c is one of x or of y, an exchange in x or y is one in c
    cc = lambda i: z3.If(z3.ULT(i, n1), z3.Select(a, i), z3.Select(b, i - n1)); KC = lambda i: CCC(cc(i))
    lim = [z3.ULT(n1, z3.BitVecVal(1 << 60, 64)), z3.ULT(q, z3.BitVecVal(1 << 61, 64))]
    c.prove('ordering: a reorderable pair of the concatenation lies in one of the parts', lim + [K(b, 0) == 0, z3.UGE(q, 1), KC(q) != 0, z3.UGT(KC(q - 1), KC(q))], z3.Or(z3.And(z3.ULT(q, n1), pair(a, q)), z3.And(z3.UGT(q, n1), pair(b, q - n1))), 'specification')
    c.prove('ordering: a reorderable pair of the first part is one of the concatenation', lim + [z3.ULT(q, n1), pair(a, q)], z3.And(KC(q) != 0, z3.UGT(KC(q - 1), KC(q))), 'specification')
    c.prove('ordering: a reorderable pair of the second part is one of the concatenation', lim + [z3.ULT(q, z3.BitVecVal(1 << 60, 64)), pair(b, q)], z3.And(KC(q + n1) != 0, z3.UGT(KC(q + n1 - 1), KC(q + n1))), 'specification')
    # composition: run 1 continues after the first part (result size n1), run 2 starts with the second part
    P = z3.Function('PrimaryComposite', BV32, BV32, BV32)

    def step(R, n, s, l, hs, x):
        kx = CCC(x); comp = z3.If(z3.And(hs, z3.Or(l == 0, z3.ULT(l, kx))), P(z3.Select(R, s), x), z3.BitVecVal(0, 32)); d = comp != 0; t = kx == 0
        return (z3.If(d, z3.Store(R, s, comp), z3.Store(R, n, x)), z3.If(d, n, n + 1), z3.If(z3.And(z3.Not(d), t), n, s), z3.If(d, l, z3.If(z3.Not(z3.Or(hs, t)), z8, z3.If(t, z8, kx))), z3.Or(hs, t))
    R1, R2, R0 = [z3.Array(x, BV64, BV32) for x in ('R1', 'R2', 'R0')]
    m, s1, s2 = z3.BitVecs('m s1 s2', 64); l1, l2 = z3.BitVecs('l1 l2', 8); hs = z3.Bool('hs'); x = z3.BitVec('x', 32)
    big = z3.BitVecVal(1 << 60, 64)

    def same(u, v, k):
        return z3.And(u[1] == n1 + v[1], u[2] == n1 + v[2], u[3] == v[3], u[4], v[4], z3.ULT(v[2], v[1]), z3.Implies(z3.ULT(k, v[1]), z3.Select(u[0], n1 + k) == z3.Select(v[0], k)), z3.Implies(z3.ULT(k, n1), z3.Select(u[0], k) == z3.Select(R0, k)))
    zz = z3.BitVecVal(0, 64)
    c.prove('composition: after the leading starter the rest is composed as on its own, base', [z3.ULT(n1, big), CCC(x) == 0, z3.ForAll([i], P(z3.Select(R1, i), x) == 0), z3.Implies(z3.ULT(k, n1), z3.Select(R1, k) == z3.Select(R0, k))],
            same(step(R1, n1, s1, l1, hs, x), step(R2, zz, zz, z8, z3.BoolVal(False), x), k), 'specification')
    u, v = (R1, n1 + m, s1, l1, z3.BoolVal(True)), (R2, m, s2, l2, z3.BoolVal(True))
    c.prove('composition: after the leading starter the rest is composed as on its own, step', [z3.ULT(n1, big), z3.ULT(m, big), same(u, v, k), same(u, v, s2)], same(step(*u, x), step(*v, x), k), 'specification')


def main(c):
    B = c.build()
    core = [x for x in NORM_SRC if x not in ('normalization.cpp', 'utf8.cpp')]
    so = ctypes.CDLL(B.so(TU + NAT, core))
    ccc = ucd.ccc(); ud = ucd.unicode_data(); want = ucd.compositions()
    sec = {b for a, b in want} | set(range(0x1161, 0x1161 + 21)) | set(range(0x11A8, 0x11A8 + 27))
    marks = [x for x in range(N) if ccc[x]]

    def native(s, f, seed=1, dirty=0):
        cap = 64 + 20 * len(s)
        a = (ctypes.c_uint * max(1, len(s)))(*s); g = (ctypes.c_uint * cap)(); w = (ctypes.c_uint * cap)(); ng, nw = ctypes.c_uint(), ctypes.c_uint()
        r = so.n_run(a, len(s), so.z_form(FORM[f]), seed, dirty, g, ctypes.byref(ng), w, ctypes.byref(nw), cap)
        return None if r == 0 else {'function': 'normalizer' if r == 1 else 'utf8_normalizer', 'form': f, 'used before': ['no', 'yes, then reset', 'yes, then flushed'][dirty], 'text': ['U+%04X' % x for x in s], 'streamed': ['U+%04X' % x for x in g[:ng.value]], 'batch': ['U+%04X' % x for x in w[:nw.value]], 'piece seed': seed}

    def search(ch):
        rnd = random.Random(c.seed)
        few = [0x61, 0x65, 0x20, 0xE9, 0x1100, 0x1161, 0x11A7, 0x11A8, 0xAC00, 0x1175, 0x9C7, 0x9BE, 0xDD9, 0xDCA, 0xDCF, 0xF71, 0xF72, 0xF73, 0xF75, 0xF81, 0xF74, 0xFF76, 0xFF9E, 0xFF9F, 0x304B, 0x3099, 0x1112, 0x2126, 0xFDFA, 0xCC6, 0xCC2, 0xCD5, 0x10FFFF]
        fs = sorted({a for a, b in want}); sl = sorted(sec); dec = [x for x in ud if ud[x].decomp]
        low = [x for x in marks if 0 < ccc[x] < 210]; high = [x for x in marks if ccc[x] >= 220]
        for it in range(-300, 60000):
            if it < 0:
                s = [rnd.choice((0x61, 0x1100, 0x304B))] + [rnd.choice(high)] * (2 + (it + 300)) + [rnd.choice(low), 0x62]
                for f in FORM:
                    x = native(s, f, 1, 0)
                    if x: return x
                continue
            k = 200 if it % 200 == 0 else rnd.choice((1, 2, 3, 4, 6, 9)); s = []
            for _ in range(k):
                r = rnd.random()
                s.append(rnd.choice(few) if r < .4 else rnd.choice(marks) if r < .6 else rnd.choice(fs) if r < .72 else rnd.choice(sl) if r < .84 else rnd.choice(dec) if r < .95 else rnd.randrange(0xE000, N))
            for f in FORM:
                x = native(s, f, rnd.randrange(1 << 30), it % 3)
                if x:
                    i = 0
                    while i < len(s):
                        t = s[:i] + s[i + 1:]; y = native(t, f, 1, it % 3)
                        if y and t: s, x, i = t, y, 0
                        else: i += 1
                    return x
        return None
    c.searcher = search
    c.assumptions += ['batch normalisation is decomposition, ordering and composition as in C11', 'the ordering of a text is unique (D109)', 'the UTF-8 variant is compared on well-formed UTF-8; convert_to encodes scalar by scalar (C03)',
                      'std::basic_string by contract: allocation succeeds, sizes below 2^60']
    c.notes.append('composition of the parts: a text cut before safe boundaries has the concatenation of the parts\' normalisations as its normalisation (lemmas + the homomorphic decomposition of C11); feed/flush emit exactly the normalisation of the text between two safe boundaries')
    for f in FORM:
        a = np.zeros(N, np.uint32); so.z_bnds(so.z_form(FORM[f]), a.ctypes.data_as(ctypes.c_void_p))
        bad = []
        for cp in np.flatnonzero(a):
            d = full(int(cp), 'K' in f, ud)[0]
            if ccc[d] or (f in ('NFC', 'NFKC') and d in sec): bad.append(int(cp))
        for x in bad[:1]:
            for t in [(m, x) for m in marks] + [(0x61, m, x) for m in marks] + [(p, x) for p, q in want if q == full(x, 'K' in f, ud)[0]] + [(0x1100, x), (0xAC00, x)]:
                y = native(list(t), f)
                if y: c.hints.append(y); break
        c.ground('every code point taken for a boundary leads its decomposition with a starter that never composes with preceding text (%s)' % f, not bad, str([hex(x) for x in bad[:5]]), 'normalizer::is_boundary', N)
    W = [MEMBERS, NORM32, BND, CCCN, QCN]
    mod = ir.Module(open(B.ir(TU, noinline=W, strip=[MEMBERS, NORM32])).read())
    W8 = [MEMBERS, FEED, FLUSH, RESET, CONV]
    mod8 = ir.Module(open(B.ir(TU, noinline=W8, strip=W8)).read())
    P = Proof(c, so, mod, mod8)
    jobs = [('code points', lambda c: P.code_points()), ('bytes', lambda c: P.bytes_()), ('lemmas', lemmas), ('decoder', lambda c: utf8.U8(c).step_contract('from_utf8'))]
    for f in FORM: jobs.append(('is_boundary ' + f, lambda c, f=f: P.boundary(f)))
    c.parallel(jobs)
