"""script segmentation partitions the text into runs of one script"""
import ctypes, random, re
import numpy as np
import z3
from oracle import ucd
from engine import ir
from engine.sym import *
from engine.exec import Verifier, Forall
from engine.cands import generic, indices, spans
from .tables import N

STD = ''.join('#include <%s>\n' % x for x in 'algorithm array cassert cstddef cstdint cstring functional iterator map memory new optional ostream span sstream string string_view tuple type_traits utility variant vector'.split())
TU = STD + '''#define private public
#include "script_segmenter.cpp"
#undef private
using namespace unicode; using SS = script_segmenter; using Set = SS::ScriptSet;
extern "C" {
unsigned z_off(int k) { switch (k) { case 0: return sizeof(SS); case 1: return offsetof(SS, data_); case 2: return offsetof(SS, offset_); case 3: return offsetof(SS, size_); case 4: return offsetof(SS, currentScriptSet_);
 case 5: return offsetof(SS, commonPreferredScript_); case 6: return sizeof(Set); case 7: return offsetof(Set, size_); case 8: return offsetof(Set, values_); case 9: return sizeof(Script); case 10: return sizeof(Set::array_type); } return 0; }
unsigned z_script(int k) { return (unsigned)(k == 0 ? Script::Invalid : k == 1 ? Script::Common : Script::Inherited); }
bool z_merge(SS* o, Set const* a, Set* b) { return o->mergeSets(*a, *b); }
void z_set(SS* o, char32_t c, Set* r) { new (r) Set(o->getScriptsFor(c)); }
void z_ctor(SS* o, char32_t const* p, size_t n) { new (o) SS(p, n); }
void z_view(SS* o, char32_t const* p, size_t n) { new (o) SS(std::u32string_view(p, n)); }
void z_default(SS* o) { new (o) SS(); }
bool z_consume(SS* o, size_t* n, Script* s) { auto r = o->consume(); if (!r) return false; *n = r->size; *s = r->script; return true; }
bool z_outs(SS* o, size_t* n, Script* s) { return o->consume(out<size_t>(*n), out<Script>(*s)); }
}
'''
NAT = '''
extern "C" void n_set(unsigned c, unsigned char* o) { SS s; Set r = s.getScriptsFor(c); o[0] = r.size(); for (size_t i = 0; i < r.size(); ++i) o[1 + i] = (unsigned char)r[i]; }
extern "C" unsigned n_ext(unsigned c, unsigned char* o) { o[0] = (unsigned char)script(c); auto e = script_extensions(c); if (!e) return 0; for (size_t i = 0; i < e->size() && i < 60; ++i) o[1 + i] = (unsigned char)(*e)[i]; return 1 + e->size(); }
extern "C" unsigned n_run(unsigned const* s, unsigned n, unsigned* e, unsigned char* sc, unsigned cap) { SS x((char32_t const*)s, n); unsigned k = 0; while (k < cap) { auto r = x.consume(); if (!r) break; e[k] = r->size; sc[k++] = (unsigned char)r->script; } return k; }
extern "C" int n_name(unsigned char s, char const* t) { return 0; }
'''
FIND = r'^_ZSt4find'
SETS = r'^_ZN7unicode16script_segmenter13getScriptsForEDi$'
MERGE = r'^_ZN7unicode16script_segmenter9mergeSetsE'
SCRIPT, EXTS = r'^_ZN7unicode6scriptEDi$', r'^_ZN7unicode17script_extensionsEDi$'
BV32 = z3.BitVecSort(32); B8 = z3.BitVecSort(8); A8 = z3.ArraySort(BV64, B8); B256 = z3.BitVecSort(256)
NO = z3.BitVecVal(0, 256)
K = lambda x: z3.BitVecVal(x, 64)


class Proof:
    def __init__(self, c, so):
        self.c, self.so = c, so
        o = [so.z_off(i) for i in range(11)]
        self.size, self.data, self.offset, self.length, self.cur, self.pref_at, self.ss, self.sn, sv, es, cap = o
        self.cap = cap
        if es != 1 or sv != 0: raise Unsupported('layout of the script set')
        self.un = sorted({so.z_script(k) for k in range(3)}); self.common = so.z_script(1)
        self.S = 8 * self.ss

    def pref(self, x): return z3.And(*[x != u for u in self.un])

    def mset(self, xs):
        r = 0
        for x in xs: r |= 1 << x
        return z3.BitVecVal(r, 256)

    # ------------------------------------------------------------ mergeSets
    def merge(self):
        c = self.c; w = 'script_segmenter::mergeSets'
        mod = ir.Module(open(c.build().ir(TU, noinline=[FIND])).read())
        s = z3.BitVec('s', 8)                                    # membership is followed for an arbitrary script
        Has = z3.Function('Has', A8, BV64, BV64, z3.BoolSort())  # s is among the elements [from, to)
        size = lambda a: z3.Concat(*[z3.Select(a, K(self.sn + k)) for k in range(7, -1, -1)])
        at = lambda a, i: z3.Select(a, bv(i, 64))

        def find(ex, st, nm, a, i):
            f, l, vp = a[:3]
            if isinstance(f, PtrIte): f = ex.collapse(f)
            if isinstance(l, PtrIte): l = ex.collapse(l)
            if f.obj is not l.obj or f.obj.kind != 'arr': raise Unsupported('find over something else than one set')
            x = bv(ex.load1(st, vp, ir.I(8), st.g), 8)
            p, q = bv(f.off.idx(1), 64), bv(l.off.idx(1), 64)
            ex.oblige('the range of find is inside the set', st.g, And(z3.ULE(p, q), z3.ULE(q, K(self.cap))), 'pre', nm)
            k = z3.BitVec('found%d' % len(ex.facts), 64); arr = ex.content(st, f.obj).a
            ex.fact(Implies(st.g, And(z3.ULE(p, k), z3.ULE(k, q), z3.Implies(z3.ULT(k, q), at(arr, k) == x), z3.Implies(x == s, z3.ULT(k, q) == Has(arr, p, q)))))
            unfold(ex, arr, p, q); ex.term(k)
            return Ptr(f.obj, Off(1, k, 0))

        def unfold(ex, arr, p, q):
            ex.fact(Has(arr, p, q) == z3.And(z3.ULT(p, q), z3.Or(at(arr, p) == s, Has(arr, p + 1, q))))
        v = Verifier(mod, [(re.compile(FIND), find)], {})
        nx, cu = v.reg(v.new_arr('next', 1, self.ss)), v.reg(v.new_arr('current', 1, self.ss))
        o = v.reg(v.new_cells('segmenter', self.size)); P = z3.BitVec('preferred', 8); o.cinit = {self.pref_at: (P, 1)}
        X, C = nx.init.a, cu.init.a; xn, cn = size(X), size(C)

        def wf(a, n, j): return z3.Implies(z3.ULT(j + 1, n), self.pref(at(a, j)))
        for a, n in ((X, xn), (C, cn)):
            v.fact(z3.And(z3.UGE(n, 1), z3.ULT(n, K(self.cap))))
            v.assume(True, Forall(lambda j, a=a, n=n: wf(a, n, j)))
            v.fact(z3.Not(Has(a, K(0), K(0)))); v.fact(z3.Not(Has(a, K(1), K(1))))
            unfold(v, a, K(0), n); v.fact(Has(a, K(0), K(1)) == (at(a, 0) == s))
        for t in (0, 1): v.term(K(t))

        def lh(ex, obj, i, val, g):
            if obj in (nx, cu):
                i = bv(i, 64); ex.term(i)
                if obj is cu:
                    ex.fact(z3.Implies(z3.ULT(i, K(self.cap)), z3.And(Has(C, K(1), i + 1) == z3.Or(z3.And(z3.UGE(i, 1), at(C, i) == s), Has(C, K(1), i)), Has(C, K(0), i + 1) == z3.Or(at(C, i) == s, Has(C, K(0), i)))))
                    ex.fact(z3.Implies(z3.And(z3.UGE(i, 1), z3.ULT(i, cn), at(C, i) == s), Has(C, K(1), cn)))
        v.load_hook = lh
        store = v.store_bytes

        def put(st, ob, off, n, x, g):
            if ob is o and st is not None: v.oblige('the preferred script is kept', And(st.g, g), False, 'frame', w)
            old = v.content(st, ob).a if ob is cu else None
            if ob is nx: v.oblige('the other set is not written', And(st.g, g), False, 'frame', w)
            store(st, ob, off, n, x, g)
            if ob is cu:
                new = v.content(st, ob).a; i = bv(off.idx(1), 64)
                v.fact(z3.Not(Has(new, K(0), K(0))))
                if n == 1:
                    v.term(i)
                    v.fact(Has(new, K(0), i + 1) == z3.Or(bv(x, 8) == s, Has(old, K(0), i)))
                elif n == 8 and z3.is_bv_value(z3.simplify(i)) and z3.simplify(i).as_long() == self.sn:
                    k = bv(v.mat(x), 64)
                    v.fact(z3.Implies(z3.ULE(k, K(self.cap)), Has(new, K(0), k) == Has(old, K(0), k)))
        v.store_bytes = put
        mc = v.memcpy

        def copy(st, d, q, n, move=False):
            if isinstance(d, Ptr) and isinstance(q, Ptr) and d.obj is cu and q.obj is nx and is_c(n) and int(n) == self.ss and not d.off.t and not q.off.t and d.off.c == q.off.c == 0:
                st.m[cu.id] = Arr(v.content(st, nx).a); return
            mc(st, d, q, n, move)
        v.memcpy = copy
        cont = lambda w_: v.content(State(True, w_.mem), cu).a

        def front(info):
            for rn, e in info.env.items():
                if isinstance(e, PtrIte) and all(q.obj is nx for g, q in leaves(e) if g is not False): e = v.collapse(e)
                if isinstance(e, Ptr) and e.obj is nx and not (e.off.t is None and e.off.c == 0): yield rn, bv(pidx_(e), 64)

        def extra(ex, info):
            r = []
            ps = [x for x in info.cells if x.kind == 'ptr' and x.obj is cu]
            for a in ps:
                A = lambda w_, a=a: bv(pidx_(w_[a.key]), 64)
                for b in ps:
                    if a is b: continue
                    B = lambda w_, b=b: bv(pidx_(w_[b.key]), 64)
                    # a: next element read, b: next element written
                    r.append(('%s is not behind %s' % (b.name, a.name), lambda w_, A=A, B=B: z3.ULE(B(w_), A(w_))))
                    r.append(('elements from %s on are unchanged' % a.name, lambda w_, A=A: Forall(lambda j: z3.Implies(z3.UGE(j, A(w_)), at(cont(w_), j) == at(C, j)))))
                    for en, E in (('of the rest', lambda w_, A=A: Has(C, K(1), A(w_))), ('', lambda w_, A=A: Has(C, K(0), A(w_)))):
                        for pn, Q in [('', z3.BoolVal(False))] + [(' or first of the other set, %s' % rn, z3.And(at(X, 0) == s, Has(C, K(1), cn), e != 0)) for rn, e in front(info)]:
                            r.append(('the set written up to %s is the intersection%s up to %s%s' % (b.name, en, a.name, pn), lambda w_, E=E, B=B, Q=Q: Has(cont(w_), K(0), B(w_)) == z3.And(Has(X, K(0), xn), z3.Or(E(w_), Q))))
                    r.append(('preferred scripts up to %s' % b.name, lambda w_, A=A, B=B: Forall(lambda j: z3.Implies(z3.ULT(j, B(w_)), z3.Or(self.pref(at(cont(w_), j)), z3.And(j + 1 == B(w_), A(w_) == cn))))))
                r.append(('nothing is written while %s is at the beginning' % a.name, lambda w_, A=A: z3.Implies(A(w_) == 0, cont(w_) == C)))
                r.append(('the leading script is the first written up to %s' % a.name, lambda w_, A=A: z3.Implies(z3.And(at(C, 0) == s, Has(X, K(0), xn)), z3.And(z3.UGE(A(w_), 1), at(cont(w_), 0) == s))))
                r.append(('%s inside' % a.name, lambda w_, A=A: z3.ULE(A(w_), cn)))
                r.append(('%s >= 1' % a.name, lambda w_, A=A: z3.UGE(A(w_), 1)))
            return r
        v.loop_hook = generic(extra=lambda ex, info: extra(ex, info) + spans(ex, info))
        r, st = v.call_fn(mod.fn('z_merge'), [Ptr(o), Ptr(nx), Ptr(cu)], State(True, {}))
        D = v.content(st, cu).a; dn = size(D); r = zb(r)
        x0, c0 = self.pref(at(X, 0)), self.pref(at(C, 0))
        HX, HC, HD = Has(X, K(0), xn), Has(C, K(0), cn), Has(D, K(0), dn)
        ob = lambda nm, p: v.oblige(nm, st.g, p, fn=w)
        ob('a script-neutral code point belongs to every run', z3.Implies(z3.Not(x0), z3.And(r, D == C)))
        ob('a run without a script takes those of the code point', z3.Implies(z3.And(x0, z3.Not(c0)), z3.And(r, HD == HX, D == X)))
        ob('otherwise the run keeps the common scripts', z3.Implies(z3.And(x0, c0, r), z3.And(HD == z3.And(HX, HC), z3.UGE(dn, 1))))
        ob('the leading script of the run is kept while it is common', z3.Implies(z3.And(x0, c0, r, HX, at(C, 0) == s), at(D, 0) == s))
        ob('a boundary is reported only if there is no common script', z3.Implies(z3.Not(r), z3.And(x0, c0, z3.Not(z3.And(HX, HC)))))
        ob('the set is kept when a boundary is reported', z3.Implies(z3.Not(r), D == C))
        j = z3.BitVec('j', 64); v.term(j); v.term(j + 1)
        ob('script-neutral values come last in the set', z3.Implies(r, z3.And(wf(D, dn, j), z3.UGE(dn, 1), z3.ULT(dn, K(self.cap)))))
        c.satisfiable(w, v.facts); c.contracts.append(w); c.discharge(v, timeout=60)


    # ------------------------------------------------------------ getScriptsFor
    def sets(self):
        """memory safety, capacity, and that the result depends on script() and script_extensions() of the code point alone (its values: ground)"""
        c = self.c; w = 'script_segmenter::getScriptsFor'
        mod = ir.Module(open(c.build().ir(TU, noinline=[FIND, SCRIPT, EXTS])).read())
        cp = z3.BitVec('cp', 32); sc = z3.Function('Script', BV32, B8); he, en = z3.Function('HasExtensions', BV32, z3.BoolSort()), z3.Function('ExtensionCount', BV32, BV64)
        size = lambda a: z3.Concat(*[z3.Select(a, K(self.sn + k)) for k in range(7, -1, -1)])

        def hs(ex, st, nm, a, i): return sc(bv(a[0], 32))

        def he_(ex, st, nm, a, i):
            r, x = a[0], bv(a[1], 32)
            ex.oblige('the extensions of the code point itself are looked up', st.g, x == cp, 'pre', nm)
            ex.store_bytes(st, r.obj, r.off.addc(16), 1, z3.If(he(x), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)), st.g)
            ex.store_bytes(st, r.obj, r.off.addc(0), 8, Ptr(ext), st.g); ex.store_bytes(st, r.obj, r.off.addc(8), 8, en(x), st.g)

        def find(ex, st, nm, a, i):
            f, l, vp = a[:3]
            if isinstance(f, PtrIte): f = ex.collapse(f)
            if isinstance(l, PtrIte): l = ex.collapse(l)
            if f.obj is not l.obj: raise Unsupported('find over two sets')
            ex.load1(st, vp, ir.I(8), st.g)
            p, q = bv(f.off.idx(1), 64), bv(l.off.idx(1), 64)
            ex.oblige('the range of find is inside the set', st.g, And(z3.ULE(p, q), z3.ULE(q, K(self.cap))), 'pre', nm)
            k = fresh('found', 64); ex.fact(Implies(st.g, And(z3.ULE(p, k), z3.ULE(k, q))))
            return Ptr(f.obj, Off(1, k, 0))
        v = Verifier(mod, [(re.compile(FIND), find), (re.compile(SCRIPT), hs), (re.compile(EXTS), he_)], {})
        o, r = v.reg(v.new_cells('segmenter', self.size)), v.reg(v.new_arr('result', 1, self.ss))
        v.fact(z3.And(z3.UGE(en(cp), 1), z3.ULE(en(cp), K(self.cap - 2))))
        ext = v.reg(v.new_arr('extensions', 1, en(cp)))
        load, store = v.load_bytes, v.store_bytes
        bad = lambda ob, st, g, what: ob is o and v.oblige('the segmenter itself is not %s' % what, And(st.g, g), False, 'frame', w)

        def ld(st, ob, off, n, g): bad(ob, st, g, 'read'); return load(st, ob, off, n, g)

        def sto(st, ob, off, n, x, g): bad(ob, st, g, 'written'); return store(st, ob, off, n, x, g)
        v.load_bytes, v.store_bytes = ld, sto

        def extra(ex, info):
            out = []
            for cnt in indices(info, [ext]):
                nm, X = cnt
                for d in (0, 1):
                    out.append(('elements so far %s + %d' % (nm, d), lambda w_, X=X, d=d: size(v.content(State(True, w_.mem), r).a) == bv(X(w_), 64) + d))
                out.append(('%s <= extensions' % nm, lambda w_, X=X: z3.ULE(bv(X(w_), 64), en(cp))))
            for x in info.cells:
                if x.kind == 'int' and x.bits == 64: out.append(('%s <= extensions' % x.name, lambda w_, x=x: z3.ULE(bv(v.mat(w_[x.key]), 64), en(cp))))
            return out + spans(ex, info)
        v.loop_hook = generic(extra=extra)
        _, st = v.call_fn(mod.fn('z_set'), [Ptr(o), cp, Ptr(r)], State(True, {}))
        n = size(v.content(st, r).a)
        v.oblige('the set is not empty and fits', st.g, z3.And(z3.UGE(n, 1), z3.ULT(n, K(self.cap))), fn=w)
        c.satisfiable(w, v.facts); c.contracts.append(w); c.discharge(v)

    # ------------------------------------------------------------ consume
    def spec(self):
        """facts of the specification over masks of scripts"""
        self.U = self.mset(self.un); self.Pm = ~self.U
        BS = z3.BitVecSort(self.S)
        self.GS, self.SM, self.WF = z3.Function('ScriptsOf', BV32, BS), z3.Function('ScriptMask', BS, B256), z3.Function('WellFormed', BS, z3.BoolSort())
        self.F, self.M, self.Bd, self.R = z3.Function('LeadingScript', BV64, B8), z3.Function('RunScripts', BV64, B256), z3.Function('Boundary', BV64, z3.BoolSort()), z3.Function('RunStart', BV64, BV64)

    def bit(self, m, k): return z3.Extract(0, 0, z3.LShR(m, z3.ZeroExt(248, k))) == 1

    def head(self, x): return z3.Extract(7, 0, x)

    def neutral(self, m): return (m & self.Pm) == 0

    def wfacts(self, ex, x):
        """what well-formedness of a set value means (proved of mergeSets' results, ground for getScriptsFor's)"""
        h = z3.Extract(7, 0, x)
        ex.fact(z3.Implies(self.WF(x), z3.And(self.SM(x) != 0, self.bit(self.SM(x), h), self.pref(h) == z3.Not(self.neutral(self.SM(x))))))

    def env(self, mod):
        self.spec()
        val = lambda ex, st, p: bv(ex.mat(ex.load_bytes(st, p.obj, p.off, self.ss, st.g)), self.S)

        def hset(ex, st, nm, a, i):
            r, o, x = a[0], a[1], bv(a[2], 32)
            y = self.GS(x); ex.store_bytes(st, r.obj, r.off, self.ss, y, st.g)
            ex.fact(self.WF(y)); self.wfacts(ex, y)

        def hmerge(ex, st, nm, a, i):
            o, n, k = a
            ex.oblige('the sets differ in place', st.g, not (n.obj is k.obj and n.off.c == k.off.c), 'pre', nm)
            x, y = val(ex, st, n), val(ex, st, k)
            ex.oblige('both sets are well-formed', st.g, And(self.WF(x), self.WF(y)), 'pre', nm)
            self.wfacts(ex, x); self.wfacts(ex, y)
            r = z3.BitVec('set%d' % len(ex.facts), self.S); mx, my = self.SM(x), self.SM(y)
            ok = z3.Or(self.neutral(mx), self.neutral(my), (mx & my) != 0)
            ex.fact(z3.Implies(ok, z3.And(self.WF(r), self.SM(r) == z3.If(self.neutral(mx), my, z3.If(self.neutral(my), mx, mx & my)))))
            ex.fact(z3.Implies(z3.Not(ok), r == y)); ex.fact(z3.Implies(self.neutral(mx), r == y)); ex.fact(z3.Implies(z3.And(z3.Not(self.neutral(mx)), self.neutral(my)), r == x))
            ex.fact(z3.Implies(z3.And(ok, z3.Not(self.neutral(mx)), z3.Not(self.neutral(my)), self.bit(mx, self.head(y))), self.head(r) == self.head(y)))
            self.wfacts(ex, r)
            ex.store_bytes(st, k.obj, k.off, self.ss, r, st.g)
            return ok
        v = self.v = Verifier(mod, [(re.compile(SETS), hset), (re.compile(MERGE), hmerge)], {})
        n = self.n = z3.BitVec('n', 64); v.fact(z3.ULT(n, K(1 << 60)))
        self.text = v.reg(v.new_arr('text', 4, n)); T = self.T = self.text.init.a
        M, Bd, R = self.M, self.Bd, self.R; Sc = self.Sc = lambda i: self.SM(self.GS(z3.Select(T, i)))
        self.o = v.reg(v.new_cells('segmenter', self.size)); self.o.cinit = {}
        v.fact(M(K(0)) == self.mset([self.common])); v.fact(R(K(0)) == 0); v.fact(M(K(0)) != 0); v.fact(self.F(K(0)) == self.common); F = self.F

        def rec(i):
            m, s = M(i), Sc(i)
            return z3.Implies(z3.ULT(i, n), z3.And(self.WF(self.GS(z3.Select(T, i))), Bd(i) == z3.And(z3.Not(self.neutral(m)), z3.Not(self.neutral(s)), (m & s) == 0),
                M(i + 1) == z3.If(z3.Or(Bd(i), z3.And(z3.Not(self.neutral(s)), self.neutral(m))), s, z3.If(self.neutral(s), m, m & s)), R(i + 1) == z3.If(Bd(i), i, R(i)),
                F(i + 1) == z3.If(z3.Or(Bd(i), z3.And(z3.Not(self.neutral(s)), self.neutral(m))), self.head(self.GS(z3.Select(T, i))), F(i))))
        self.rec = rec

        def lh(ex, obj, i, x, g):
            if obj is self.text: ex.fact(rec(bv(i, 64)))
        v.load_hook = lh
        return v

    def consume(self):
        c = self.c
        mod = ir.Module(open(c.build().ir(TU, noinline=[SETS, MERGE])).read())
        for fn, w in (('z_consume', 'script_segmenter::consume'), ('z_outs', 'script_segmenter::consume(out, out)')):
            v = self.env(mod); M, Bd, R, n = self.M, self.Bd, self.R, self.n
            p = z3.BitVec('position', 64); x0 = z3.BitVec('scripts', self.S); o = self.o
            at = lambda i: z3.If(i == 0, M(K(0)), self.Sc(i))
            o.cinit = {self.data: (Ptr(self.text), 8), self.length: (n, 8), self.offset: (p, 8), self.cur: (x0, self.ss), self.pref_at: (self.common, 1)}
            # class invariant: at the beginning, at a boundary it has reported, or at the end
            v.fact(z3.ULE(p, n)); v.fact(z3.Implies(z3.ULT(p, n), z3.And(self.WF(x0), self.SM(x0) == at(p), self.head(x0) == z3.If(p == 0, z3.BitVecVal(self.common, 8), self.head(self.GS(z3.Select(self.T, p)))), z3.Or(p == 0, Bd(p))))); self.wfacts(v, x0)
            sz, sc = v.reg(v.new_cells('size', 8)), v.reg(v.new_cells('script', 1))
            val = lambda st, k, m: bv(v.mat(v.load_bytes(st, o, Off(0, None, k), m, True)), 8 * m)

            def extra(ex, info):
                S_ = lambda w_: State(True, w_.mem)
                i = lambda w_: val(S_(w_), self.offset, 8); x = lambda w_: val(S_(w_), self.cur, self.ss)
                def known(w_): self.wfacts(ex, x(w_)); return True
                return [('the scripts of the run', lambda w_: known(w_) and z3.And(self.WF(x(w_)), self.SM(x(w_)) == z3.If(i(w_) == p, at(p), M(i(w_))))),
                        ('the leading script of the run', lambda w_: z3.And(z3.Implies(i(w_) == p, self.head(x(w_)) == self.head(x0)), z3.Implies(z3.And(i(w_) != p, self.bit(M(i(w_)), self.F(i(w_)))), self.head(x(w_)) == self.F(i(w_))))),
                        ('no boundary since the start', lambda w_: z3.Implies(i(w_) != p, R(i(w_)) == p)), ('inside the text', lambda w_: z3.And(z3.ULE(p, i(w_)), z3.ULE(i(w_), n))),
                        ('the preferred script is unset', lambda w_: val(S_(w_), self.pref_at, 1) == self.common)]
            v.loop_hook = generic(extra=extra)
            r, st = v.call_fn(mod.fn(fn), [Ptr(o), Ptr(sz), Ptr(sc)], State(True, {}))
            r = zb(r) if not isinstance(r, z3.BitVecRef) else r != 0
            e, s = bv(v.mat(v.load_bytes(st, sz, Off(0, None, 0), 8, True)), 64), bv(v.mat(v.load_bytes(st, sc, Off(0, None, 0), 1, True)), 8)
            q, y = val(st, self.offset, 8), val(st, self.cur, self.ss)
            ob = lambda nm, pr: v.oblige(nm, st.g, pr, fn=w)
            v.fact(z3.Implies(z3.ULT(e, n), self.rec(e)))
            ob('a run is reported exactly while text is left', r == z3.ULT(p, n))
            ob('the run is not empty and ends inside the text, where the next one begins', z3.Implies(r, z3.And(z3.ULT(p, e), z3.ULE(e, n), q == e)))
            ob('the run ends at a script boundary or at the end of the text', z3.Implies(r, z3.Or(e == n, Bd(e))))
            ob('there is no script boundary inside the run', z3.Implies(r, R(e) == p))
            ob('the reported script is one of those of the run, and a neutral one only if the run has no other', z3.Implies(r, z3.And(z3.Extract(0, 0, z3.LShR(M(e), z3.ZeroExt(248, s))) == 1, self.pref(s) == z3.Not(self.neutral(M(e))))))
            ob('the script of the first code point that has one is reported if it fits the whole run', z3.Implies(z3.And(r, self.bit(M(e), self.F(e))), s == self.F(e)))
            ob('the segmenter is left at the beginning of the next run', z3.Implies(z3.And(r, z3.ULT(e, n)), z3.And(self.WF(y), self.SM(y) == self.Sc(e), self.head(y) == self.head(self.GS(z3.Select(self.T, e))), Bd(e))))
            ob('the text and the preferred script are kept', And(val(st, self.length, 8) == n, val(st, self.pref_at, 1) == self.common, isinstance(v.load_bytes(st, o, Off(0, None, self.data), 8, True), Ptr) and v.load_bytes(st, o, Off(0, None, self.data), 8, True).obj is self.text))
            ob('at the end nothing changes', z3.Implies(z3.Not(r), q == p))
            c.satisfiable(w, v.facts + [z3.ULT(p, n)]); c.contracts.append(w); c.discharge(v)
        for fn, args in (('z_ctor', 2), ('z_view', 2), ('z_default', 0)):
            w = {'z_ctor': 'script_segmenter(pointer, size)', 'z_view': 'script_segmenter(u32string_view)', 'z_default': 'script_segmenter()'}[fn]
            v = self.env(mod); o = self.o; n = self.n
            v.loop_hook = generic()
            _, st = v.call_fn(mod.fn(fn), [Ptr(o)] + ([Ptr(self.text), n] if args else []), State(True, {}))
            val = lambda k, m: bv(v.mat(v.load_bytes(st, o, Off(0, None, k), m, True)), 8 * m)
            v.oblige('construction: at the beginning, over the whole text', st.g, And(val(self.offset, 8) == 0, val(self.length, 8) == (n if args else 0), val(self.pref_at, 1) == self.common), fn=w)
            if args:
                d = v.load_bytes(st, o, Off(0, None, self.data), 8, True)
                v.oblige('construction: the text is the one given', st.g, isinstance(d, Ptr) and d.obj is self.text and d.off.t is None and d.off.c == 0, fn=w)
                v.oblige('construction: the run has the script Common', st.g, And(val(self.cur, 1) == self.common, val(self.cur + self.sn, 8) == 1), fn=w)
            c.contracts.append(w); c.discharge(v)

    # ------------------------------------------------------------ consequences of the specification
    def lemmas(self):
        c = self.c; self.spec()
        M, s, sk = z3.BitVecs('M S Sk', 256); nt = self.neutral
        b = z3.And(z3.Not(nt(M)), z3.Not(nt(s)), (M & s) == 0)
        nx = z3.If(z3.Or(b, z3.And(z3.Not(nt(s)), nt(M))), s, z3.If(nt(s), M, M & s))
        inv = lambda m, k: z3.Or((k & self.U) != 0, z3.And(m != 0, (m & ~k) == 0))
        c.prove('compatibility: the scripts of a run are among those of each code point with a script of its own, base', [M != 0, s != 0], z3.And(nx != 0, inv(nx, s)), 'specification')
        c.prove('compatibility: the scripts of a run are among those of each code point with a script of its own, step', [M != 0, s != 0, sk != 0, z3.Not(b), inv(M, sk)], z3.And(nx != 0, inv(nx, sk)), 'specification')
        c.prove('a script-neutral code point never begins a run', [nt(s)], z3.Not(b), 'specification')
        r = z3.BitVec('r', 8)
        c.prove('compatibility: the reported script is one of each such code point', [inv(M, sk), z3.Extract(0, 0, z3.LShR(M, z3.ZeroExt(248, r))) == 1, (sk & self.U) == 0], z3.Extract(0, 0, z3.LShR(sk, z3.ZeroExt(248, r))) == 1, 'specification')

def pidx_(p):
    i = p.off.idx(1)
    if i is None: raise Unsupported('pointer into a set')
    return i


def main(c):
    from engine.build import CORE
    B = c.build()
    so = ctypes.CDLL(B.so(TU + NAT, [x for x in CORE if x != 'script_segmenter.cpp']))
    P = Proof(c, so)
    un = set(P.un)
    buf, sets, heads = (ctypes.c_ubyte * 128)(), {}, {}
    bad = []
    for cp in range(N):
        k = so.n_ext(cp, buf); e = list(buf[1:k]) if k else None; sc = buf[0]
        so.n_set(cp, buf); r = list(buf[1:1 + buf[0]])
        want = set(e if e is not None else []) | {sc}
        sets[cp] = frozenset(want); heads[cp] = sc if sc not in un else r[0]
        if set(r) != want or (sc not in un or len(want) == 1) and r[0] != sc or len(r) != len(want) or any(x in un for x in r[:-1]) or len(r) >= P.cap or (e is not None and (not e or len(e) > P.cap - 2 or un & set(e))): bad.append(cp)
    keys = {}
    for cp, x in sets.items(): keys.setdefault(x, []).append(cp)

    def spec(s):
        m = {P.common}; runs = []; start = 0; f = P.common
        nt = lambda m: not (m - un)
        for i, cp in enumerate(s):
            x = set(sets[cp])
            if not nt(m) and not nt(x) and not (m & x): runs.append((start, i, m, f)); start = i; m = x; f = heads[cp]
            elif not nt(x):
                if nt(m): m = x; f = heads[cp]
                else: m = m & x
        if s: runs.append((start, len(s), m, f))
        return runs

    def native(s):
        n = len(s); a = (ctypes.c_uint * max(1, n))(*s); e = (ctypes.c_uint * (n + 3))(); sc = (ctypes.c_ubyte * (n + 3))()
        k = so.n_run(a, n, e, sc, n + 3); w = spec(s)
        ok = k == len(w) and all(e[i] == w[i][1] and sc[i] in w[i][2] and ((sc[i] in un) == (not (w[i][2] - un))) and (w[i][3] not in w[i][2] or sc[i] == w[i][3]) for i in range(k))
        return None if ok else {'text': ['U+%04X' % x for x in s], 'runs reported (end, script)': [(e[i], sc[i]) for i in range(k)], 'runs expected (end, scripts)': [(b, sorted(m)) for a_, b, m, f in w]}

    def search(ch):
        rnd = random.Random(c.seed); ks = sorted(keys, key=lambda x: (len(x), sorted(x))); multi = [k for k in ks if len(k) > 1]
        for it in range(200000):
            n = rnd.choice((1, 2, 3, 3, 4, 6)) if it % 50 else 200
            s = [rnd.choice(keys[rnd.choice(multi if rnd.random() < .5 else ks)]) for _ in range(n)]
            x = native(s)
            if x:
                i = 0
                while i < len(s):
                    t = s[:i] + s[i + 1:]; y = native(t)
                    if y: s, x, i = t, y, 0
                    else: i += 1
                return x
        return None
    c.searcher = search
    for b in bad[:3]:
        for t in [[b], [b, 0x61], [0x61, b]]:
            x = native(t)
            if x: c.hints.append(x); break
    c.ground('the set of every code point: its script extensions and its script, a neutral one last', not bad, str([hex(b) for b in bad[:3]]), 'getScriptsFor', N)
    c.assumptions += ['the text consists of code points up to U+10FFFF', 'script() and script_extensions() are the UCD values (C18)', 'std::find by contract', 'text lengths below 2^60']
    c.notes.append('result::size is the end offset of the run (as the component users rely on); a code point whose own script is Common, Inherited or invalid is compatible with every run')
    c.parallel([('mergeSets', lambda c: P.merge()), ('getScriptsFor', lambda c: P.sets()), ('consume', lambda c: P.consume()), ('lemmas', lambda c: P.lemmas())])
