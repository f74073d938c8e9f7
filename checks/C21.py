"""the run segmenter yields the common refinement of its component segmentations"""
import ctypes, random, re
import z3
from engine import ir
from engine.sym import *
from engine.exec import Verifier
from engine.cands import generic

STD = ''.join('#include <%s>\n' % x for x in 'algorithm array cassert cstddef cstdint cstring functional iterator map memory new optional ostream span sstream string string_view tuple type_traits utility variant vector format iostream'.split())
TU = STD + '''#define private public
#include "libunicode/run_segmenter.h"
#undef private
using namespace unicode;
template <int K> struct Component {
    using property_type = std::uint32_t;
    char32_t const* data = nullptr; std::size_t size = 0; std::size_t at = 0;
    Component() noexcept = default; Component(char32_t const* d, std::size_t n) noexcept: data { d }, size { n } {}
    bool consume(out<std::size_t> size, out<property_type> p) noexcept;
};
using Three = basic_run_segmenter<Component<0>, Component<1>, Component<2>>;
template <typename RS, std::size_t K> unsigned at(int what) {
    using T = std::tuple_element_t<K, typename RS::segmenter_tuple>; using P = segmenter_property_t<T>;
    alignas(RS) static unsigned char raw[sizeof(RS)]; auto* o = reinterpret_cast<RS*>(raw); typename RS::range r {};
    switch (what) { case 0: return (unsigned) ((unsigned char*) &std::get<K>(o->segmenter_) - raw); case 1: return (unsigned) ((unsigned char*) &std::get<K>(o->properties_) - raw);
      case 2: return (unsigned) ((unsigned char*) &std::get<K>(r.properties) - (unsigned char*) &r); case 3: return sizeof(P); case 4: return (unsigned) ((unsigned char*) &o->positions_[K] - raw); }
    return 0;
}
template <typename RS> unsigned main_at(int what) {
    alignas(RS) static unsigned char raw[sizeof(RS)]; auto* o = reinterpret_cast<RS*>(raw);
    switch (what) { case 0: return sizeof(RS); case 1: return (unsigned) ((unsigned char*) &o->lastSplit_ - raw); case 2: return (unsigned) ((unsigned char*) &o->candidate_.start - raw); case 3: return (unsigned) ((unsigned char*) &o->candidate_.end - raw);
      case 4: return (unsigned) ((unsigned char*) &o->size_ - raw); case 5: return sizeof(typename RS::range); case 6: return offsetof(typename RS::range, start); case 7: return offsetof(typename RS::range, end); case 8: return (unsigned) ((unsigned char*) &o->candidate_ - raw); }
    return 0;
}
extern "C" {
unsigned n_at(int rs, int k, int what) { if (rs == 0) return k == 0 ? at<run_segmenter, 0>(what) : at<run_segmenter, 1>(what); return k == 0 ? at<Three, 0>(what) : k == 1 ? at<Three, 1>(what) : at<Three, 2>(what); }
unsigned n_main(int rs, int what) { return rs == 0 ? main_at<run_segmenter>(what) : main_at<Three>(what); }
unsigned n_comp(int k, int what) { if (k == 0) { using T = script_segmenter; switch (what) { case 0: return offsetof(T, data_); case 1: return offsetof(T, size_); case 2: return offsetof(T, offset_); case 3: return offsetof(T, offset_); case 4: return sizeof(T); } }
  if (k == 1) { using T = emoji_segmenter; switch (what) { case 0: return offsetof(T, buffer_); case 1: return offsetof(T, size_); case 2: return offsetof(T, currentCursorEnd_); case 3: return offsetof(T, nextCursorBegin_); case 4: return sizeof(T); } }
  using T = Component<0>; switch (what) { case 0: return offsetof(T, data); case 1: return offsetof(T, size); case 2: return offsetof(T, at); case 3: return offsetof(T, at); case 4: return sizeof(T); } return 0; }
%s
}
'''
def wrap(p, T): return '''void {p}ctor({T}* o, char32_t const* d, std::size_t n) {{ new (o) {T}(d, n); }}
void {p}view({T}* o, char32_t const* d, std::size_t n) {{ new (o) {T}(std::u32string_view(d, n)); }}
bool {p}consume({T}* o, {T}::range* r) {{ return o->consume(out<{T}::range>(*r)); }}
bool {p}finished({T} const* o) {{ return o->finished(); }}
'''.format(p=p, T=T)
NAT = '''
extern "C" unsigned n_run(unsigned const* s, unsigned n, unsigned* o, unsigned cap) { run_segmenter x((char32_t const*) s, n); unsigned k = 0; run_segmenter::range r; while (k < cap && x.consume(out<run_segmenter::range>(r))) { o[4*k] = r.start; o[4*k+1] = r.end; o[4*k+2] = (unsigned) std::get<0>(r.properties); o[4*k+3] = (unsigned) std::get<1>(r.properties); ++k; if (x.finished() != (r.end >= n)) return 0; } return k; }
extern "C" unsigned n_script(unsigned const* s, unsigned n, unsigned* o, unsigned cap) { script_segmenter x((char32_t const*) s, n); unsigned k = 0; std::size_t z = 0; Script p {}; while (k < cap && x.consume(out<std::size_t>(z), out<Script>(p))) { o[2*k] = z; o[2*k+1] = (unsigned) p; ++k; } return k; }
extern "C" unsigned n_emoji(unsigned const* s, unsigned n, unsigned* o, unsigned cap) { emoji_segmenter x((char32_t const*) s, n); unsigned k = 0; std::size_t z = 0; PresentationStyle p {}; while (k < cap && x.consume(out<std::size_t>(z), out<PresentationStyle>(p))) { o[2*k] = z; o[2*k+1] = (unsigned) p; ++k; } return k; }
'''
CONS = [r'^_ZN7unicode16script_segmenter7consumeENS_3outImEENS1_INS_6ScriptEEE', r'^_ZN7unicode15emoji_segmenter7consumeE', r'^_ZN9ComponentILi(\d)EE7consumeE']
CTOR = r'^_ZN7unicode15emoji_segmenterC[12]EPKDi[jm]'
BV64 = z3.BitVecSort(64)
K = lambda x: z3.BitVecVal(x, 64)


class Proof:
    def __init__(self, c, so, rs):
        self.c, self.so, self.rs = c, so, rs
        self.k = 2 if rs == 0 else 3; self.name = ['run_segmenter', 'basic_run_segmenter of three components'][rs]
        m = [so.n_main(rs, i) for i in range(9)]
        self.size, self.L, self.cs, self.ce, self.n_, self.rsize, self.r_s, self.r_e, self.cand = m
        self.at = [[so.n_at(rs, k, i) for i in range(5)] for k in range(self.k)]
        self.comp = [[so.n_comp(k if rs == 0 else 2, i) for i in range(5)] for k in range(self.k)]

    def env(self):
        pre = 'zr_' if self.rs == 0 else 'zt_'
        mod = ir.Module(open(self.c.build().ir(TU % (wrap('zr_', 'run_segmenter') + wrap('zt_', 'Three')), noinline=CONS[:2], strip=CONS[:2])).read())
        n = self.n = z3.BitVec('n', 64)
        self.Next = [z3.Function('Next%d' % k, BV64, BV64) for k in range(self.k)]
        self.Prop = [z3.Function('Property%d' % k, BV64, z3.BitVecSort(8 * self.at[k][3])) for k in range(self.k)]
        def h(k):
            def f(ex, st, name, args, inst):
                kk = int(re.match(CONS[2], name).group(1)) if k is None else k
                o, pos, prop = args[:3]; w = name; comp = self.comp[kk]
                ex.oblige('consume is asked of the component itself', st.g, And(o.obj is self.o, o.off.t is None and o.off.c == self.at[kk][0]), 'pre', w)
                ld = lambda x, m: ex.load_bytes(st, o.obj, o.off.addc(x), m, st.g)
                d = ld(comp[0], 8); E = bv(ex.mat(ld(comp[2], 8)), 64)
                ex.oblige('the component is over the text given', st.g, And(isinstance(d, Ptr) and d.obj is self.text and d.off.t is None and d.off.c == 0, bv(ex.mat(ld(comp[1], 8)), 64) == n, bv(ex.mat(ld(comp[3], 8)), 64) == E, z3.ULE(E, n)), 'pre', w)
                x = self.Next[kk](E); more = z3.ULT(E, n)
                ex.fact(Implies(st.g, z3.Implies(more, z3.And(z3.ULT(E, x), z3.ULE(x, n)))))
                g = And(st.g, more)
                for a in (comp[2], comp[3]): ex.store_bytes(st, o.obj, o.off.addc(a), 8, z3.If(more, x, E), st.g)
                for p, b, val in ((pos, 8, x), (prop, self.at[kk][3], self.Prop[kk](E))):
                    for pg, q in leaves(p):
                        old = bv(ex.mat(ex.load_bytes(st, q.obj, q.off, b, And(st.g, pg))), 8 * b)
                        ex.store_bytes(st, q.obj, q.off, b, z3.If(zb(And(pg, more)), val, old), And(st.g, pg))
                return more
            return f
        def ctor(ex, st, name, args, inst):
            o, d, m = args[:3]; comp = self.comp[1]
            ex.store_bytes(st, o.obj, o.off.addc(comp[0]), 8, d, st.g); ex.store_bytes(st, o.obj, o.off.addc(comp[1]), 8, m, st.g)
            for a in range(0, comp[4], 1):
                if not any(x <= a < x + 8 for x in comp[:2]): ex.store_bytes(st, o.obj, o.off.addc(a), 1, z3.BitVecVal(0, 8) if any(x <= a < x + 8 for x in comp[2:4]) else fresh('byte', 8), st.g)
            return None
        con = [(re.compile(CONS[0]), h(0)), (re.compile(CONS[1]), h(1)), (re.compile(CTOR), ctor)] if self.rs == 0 else [(re.compile(CONS[2]), h(None))]
        v = Verifier(mod, con, {}); v.fact(z3.ULT(n, K(1 << 60)))
        self.text = v.reg(v.new_arr('text', 4, n)); self.o = v.reg(v.new_cells('segmenter', self.size)); self.o.cinit = {}
        v.loop_hook = generic()
        return v, mod, pre

    def val(self, v, st, k, m=8, o=None): return bv(v.mat(v.load_bytes(st, o or self.o, Off(0, None, k), m, True)), 8 * m)

    def invariant(self, L, P, E, S, p, ce):
        """class invariant while text is left: where the last run ended, each component is either due there or has a segment reaching beyond it"""
        ok = [z3.And(E[k] == P[k], z3.ULE(E[k], self.n), z3.Or(P[k] == L, z3.And(z3.ULE(S[k], L), z3.ULT(L, P[k]), P[k] == self.Next[k](S[k]), p[k] == self.Prop[k](S[k])))) for k in range(self.k)]
        return z3.And(ce == L, *ok)

    def consume(self):
        c = self.c; v, mod, pre = self.env(); n = self.n; w = self.name + '::consume'
        L, cs, ce = z3.BitVecs('L cs ce', 64); ks = range(self.k)
        P = [z3.BitVec('P%d' % k, 64) for k in ks]; E = [z3.BitVec('E%d' % k, 64) for k in ks]; S = [z3.BitVec('S%d' % k, 64) for k in ks]
        p = [z3.BitVec('p%d' % k, 8 * self.at[k][3]) for k in ks]
        init = {self.L: (L, 8), self.cs: (cs, 8), self.ce: (ce, 8), self.n_: (n, 8)}
        for k in ks:
            b = self.at[k]; cp = self.comp[k]; init[b[1]] = (p[k], b[3]); init[b[4]] = (P[k], 8)
            init[b[0] + cp[0]] = (Ptr(self.text), 8); init[b[0] + cp[1]] = (n, 8); init[b[0] + cp[2]] = (E[k], 8); init[b[0] + cp[3]] = (E[k], 8)
        self.o.cinit = init
        v.fact(z3.ULE(L, n)); v.fact(z3.Implies(z3.ULT(L, n), self.invariant(L, P, E, S, p, ce)))
        r_ = v.reg(v.new_cells('range', self.rsize)); r_.cinit = {self.r_s: (z3.BitVec('rs', 64), 8), self.r_e: (z3.BitVec('re', 64), 8)}
        r, st = v.call_fn(mod.fn(pre + 'consume'), [Ptr(self.o), Ptr(r_)], State(True, {}))
        r = zb(r) if not isinstance(r, z3.BitVecRef) else r != 0
        u = lambda a, m=8: self.val(v, st, a, m); a, b = self.val(v, st, self.r_s, 8, r_), self.val(v, st, self.r_e, 8, r_)
        ob = lambda nm, q: v.oblige(nm, st.g, z3.Implies(r, q), fn=w)
        S2 = [z3.If(P[k] == L, L, S[k]) for k in ks]; P2 = [u(self.at[k][4]) for k in ks]; p2 = [u(self.at[k][1], self.at[k][3]) for k in ks]
        v.oblige('a run is reported exactly while text is left', st.g, r == z3.ULT(L, n), fn=w)
        ob('the run begins where the last one ended', a == L)
        ob('the run is not empty and ends inside the text', z3.And(z3.ULT(a, b), z3.ULE(b, n)))
        for k in ks: ob('the run lies in one segment of component %d' % k, z3.And(z3.ULE(S2[k], a), z3.ULE(b, P2[k]), P2[k] == self.Next[k](S2[k])))
        ob('the run ends at a boundary of one of the components', z3.Or(*[b == P2[k] for k in ks]))
        for k in ks: ob('the run has the property component %d reports for its segment' % k, self.val(v, st, self.at[k][2], self.at[k][3], r_) == self.Prop[k](S2[k]))
        ob('the next run begins where this one ends', z3.And(u(self.L) == b, u(self.n_) == n))
        E2 = [u(self.at[k][0] + self.comp[k][2]) for k in ks]
        ob('the components are left consistent', z3.Implies(z3.ULT(b, n), self.invariant(u(self.L), P2, E2, S2, p2, u(self.ce))))
        v.oblige('at the end nothing changes', st.g, z3.Implies(z3.Not(r), z3.And(u(self.L) == L, *[P2[k] == P[k] for k in ks], *[E2[k] == E[k] for k in ks])), fn=w)
        c.satisfiable(w, v.facts + [z3.ULT(L, n)]); c.contracts.append(w); c.discharge(v)
        w = self.name + '::finished'
        v, mod, pre = self.env(); L = z3.BitVec('L', 64); v.fact(z3.ULE(L, self.n)); self.o.cinit = {self.L: (L, 8), self.n_: (self.n, 8)}
        r, st = v.call_fn(mod.fn(pre + 'finished'), [Ptr(self.o)], State(True, {}))
        r = zb(r) if not isinstance(r, z3.BitVecRef) else r != 0
        v.oblige('finished exactly when the whole text is reported', st.g, r == z3.UGE(L, self.n), fn=w); c.contracts.append(w); c.discharge(v)
        for f, what in (('ctor', '(pointer, size)'), ('view', '(u32string_view)')):
            w = self.name + what; v, mod, pre = self.env(); n = self.n
            _, st = v.call_fn(mod.fn(pre + f), [Ptr(self.o), Ptr(self.text), n], State(True, {}))
            u = lambda a, m=8: self.val(v, st, a, m)
            v.oblige('construction: at the beginning of the whole text', st.g, z3.And(u(self.L) == 0, u(self.n_) == n, u(self.ce) == 0), fn=w)
            for k in ks:
                d = v.load_bytes(st, self.o, Off(0, None, self.at[k][0] + self.comp[k][0]), 8, True)
                v.oblige('construction: component %d is at the beginning of the whole text' % k, st.g, And(isinstance(d, Ptr) and d.obj is self.text and d.off.t is None and d.off.c == 0, u(self.at[k][0] + self.comp[k][1]) == n,
                         u(self.at[k][0] + self.comp[k][2]) == 0, u(self.at[k][0] + self.comp[k][3]) == 0, u(self.at[k][4]) == 0), fn=w)
            c.contracts.append(w); c.discharge(v)


def main(c):
    B = c.build()
    tu = TU % ''
    from engine.build import CORE
    so = ctypes.CDLL(B.so(tu + NAT + 'template <int K> bool Component<K>::consume(out<std::size_t>, out<property_type>) noexcept { return false; } template struct Component<0>; template struct Component<1>; template struct Component<2>;', CORE))
    PS = [Proof(c, so, r) for r in (0, 1)]

    def native(s):
        n = len(s); a = (ctypes.c_uint * max(1, n))(*s); cap = 2 * n + 4
        def segs(f, w): o = (ctypes.c_uint * (w * cap))(); k = getattr(so, f)(a, n, o, cap); return [tuple(o[w * i:w * i + w]) for i in range(k)]
        runs, sc, em = segs('n_run', 4), segs('n_script', 2), segs('n_emoji', 2)
        want = []; i = 0
        for b in sorted({e for e, _ in sc} | {e for e, _ in em}):
            want.append((i, b, next(x for e, x in sc if e >= b), next(x for e, x in em if e >= b))); i = b
        return None if runs == want else {'text': ['U+%04X' % x for x in s], 'runs reported (start, end, script, style)': runs, 'runs expected': want}

    def search(ch):
        rnd = random.Random(c.seed); t = __import__('time').time()
        pool = [0x41, 0x42, 0x20, 0x2E, 0x31, 0x5D0, 0x5D1, 0x627, 0x3B1, 0x3042, 0x30A2, 0x4E00, 0x30FC, 0x3001, 0x1F600, 0x1F466, 0x1F3FB, 0x200D, 0xFE0F, 0xFE0E, 0x2764, 0x1F1E9, 0x1F1EA, 0xAC00, 0x0915, 0x0964, 0x0301, 0xE0067, 0x1F3F4]
        n = 0
        while __import__('time').time() - t < 100:
            k = 1 + n // 3000; n += 1; k = min(k, 12)
            s = [rnd.choice(pool) for _ in range(rnd.randrange(0, k + 1))]
            if n % 3 == 0:      # near a round offset
                m = 1 << rnd.choice((4, 5, 6, 7, 8, 8, 9)); s = [rnd.choice(pool)] * max(0, m - rnd.randrange(0, 7)) + s + s + [rnd.choice(pool) for _ in range(4)]
            x = native(s)
            if x: return x
        return None
    c.searcher = search
    c.assumptions += ['text lengths below 2^60', 'contract of the components: script_segmenter (C20) and emoji_segmenter (C19) yield non-empty contiguous segments covering the text, each a function of where it begins']
    c.notes.append('the templates of run_segmenter.h are verified for run_segmenter itself and for an instantiation over three abstract components')
    c.parallel([(p.name, lambda c, p=p: p.consume()) for p in PS])
