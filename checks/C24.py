"""the C interface: cluster counting and width by the C++ contracts; UTF-32 to UTF-8 within the stated capacity"""
import re, subprocess
import z3
from engine import ir
from engine.build import CORE
from engine.sym import *
from engine.exec import Verifier
from engine.cands import generic, along
from engine.strings import StringModel, MEMBERS, ptr_distance
from . import utf8

TU = '#include "capi.cpp"\n'
SEG = r'^_ZNK?7unicode18grapheme_segmenter'
BRK = [r'^_ZN7unicode22grapheme_process_init', r'^_ZN7unicode27grapheme_process_breakable']
NAT = r'''
#include <libunicode/capi.h>
#include <libunicode/convert.h>
#include <libunicode/grapheme_segmenter.h>
#include <libunicode/width.h>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <random>
#include <vector>
using namespace unicode;
static std::u32string t;
static void show(char const* w, long a, long b) { printf("FAIL %s got=%ld want=%ld text=", w, a, b); for (auto c: t) printf("%X ", (unsigned)c); printf("\n"); exit(3); }
static void enc(std::string& o, char32_t c) { if (c < 0x80) o += char(c); else if (c < 0x800) { o += char(0xC0 | c >> 6); o += char(0x80 | (c & 63)); } else if (c < 0x10000) { o += char(0xE0 | c >> 12); o += char(0x80 | (c >> 6 & 63)); o += char(0x80 | (c & 63)); } else { o += char(0xF0 | c >> 18); o += char(0x80 | (c >> 12 & 63)); o += char(0x80 | (c >> 6 & 63)); o += char(0x80 | (c & 63)); } }
int main(int, char** argv) {
  std::mt19937 g(atoi(argv[1])); long iters = atol(argv[2]);
  std::vector<char32_t> pool = {U'a', U' ', 0x301, 0x200D, 0x1F468, 0x1F469, 0x2764, 0xFE0F, 0xFE0E, 0x1F1E6, 0x1F1E7, 0x1F3FE, 0x915, 0x94D, 0x93E, 0x1100, 0x1161, 0x11A8, 0xAC00, 0x600, 0x4E00, 0xD, 0xA, 0, 0x7F, 0x80, 0x7FF, 0x800, 0xFFFF, 0x10000, 0x10FFFF, 0xE9, U'#', 0x20E3, 0xAD, 0x3042};
  for (long it = 0; it < iters; ++it) {
    t.clear(); size_t n = it % 97 == 0 ? g() % 400 : g() % 9; for (size_t i = 0; i < n; ++i) { char32_t c = g() % 8 ? pool[g() % pool.size()] : g() % 0x110000; if (c >= 0xD800 && c < 0xE000) c = U'x'; t += c; }
    if (it % 61 == 0) { t += pool[g() % pool.size()]; t += pool[g() % pool.size()]; t.append(g() % 70, pool[g() % 2 ? 2 : 7]); t += pool[g() % pool.size()]; n = t.size(); }
    int cnt = 0, w = 0, b = 0; size_t pos = 0;
    if (n) { grapheme_segmenter s(t); while (true) { auto c = *s; ++cnt; w += grapheme_cluster_width(c); b += width(c.front()); pos += c.size(); if (!s.codepointsAvailable()) break; ++s; } if (pos != n) show("segmentation", pos, n); }
    auto* p = (u32_char_t const*) t.data();
    std::string u; for (auto c: t) enc(u, c);
    std::vector<u32_char_t> exact(t.begin(), t.end());
    if (int r = u32_gc_count(exact.data(), n); r != cnt) show("u32_gc_count", r, cnt);
    if (int r = u8_gc_count(u.data(), u.size()); r != cnt) show("u8_gc_count", r, cnt);
    if (int r = u32_gc_width(exact.data(), n, GC_WIDTH_MODE_MODIFIABLE); r != w) show("u32_gc_width(MODIFIABLE)", r, w);
    if (int r = u32_gc_width(exact.data(), n, GC_WIDTH_MODE_NON_MODIFIABLE); r != b) show("u32_gc_width(NON_MODIFIABLE)", r, b);
    if (int r = u8_gc_width(u.data(), u.size(), GC_WIDTH_MODE_MODIFIABLE); r != w) show("u8_gc_width(MODIFIABLE)", r, w);
    if (int r = u8_gc_width(u.data(), u.size(), GC_WIDTH_MODE_NON_MODIFIABLE); r != b) show("u8_gc_width(NON_MODIFIABLE)", r, b);
    for (int k = 0; k < 4; ++k) {
      size_t cap = k == 0 ? u.size() : k == 1 ? u.size() + 1 + g() % 9 : k == 2 ? (u.size() ? u.size() - 1 : 0) : (u.size() ? g() % u.size() : 0);
      std::vector<char> d(cap + 16, 0x5A); int r = u32u8_convert(p, n, d.data() + 8, cap); bool fits = u.size() <= cap;
      if (r != (fits ? (int)u.size() : -1)) show(fits ? "u32u8_convert when the result fits" : "u32u8_convert when the result does not fit", r, fits ? (long)u.size() : -1);
      if (fits && memcmp(d.data() + 8, u.data(), u.size())) show("u32u8_convert bytes", 0, 0);
      for (size_t i = 0; i < 8; ++i) if (d[i] != 0x5A || d[8 + cap + i] != 0x5A) show("u32u8_convert writes outside the buffer of capacity", (long)cap, (long)u.size());
      if (fits) for (size_t i = u.size(); i < cap; ++i) if (d[8 + i] != 0x5A) show("u32u8_convert writes beyond the result", (long)i, (long)u.size());
    }
    auto h = u8u32_stream_convert_create(); std::u32string back; for (char c: u) { u32_char_t o = 0; if (u8u32_stream_convert_run(h, c, &o)) back += o; } u8u32_stream_convert_destroy(&h);
    if (back != t) show("u8u32_stream_convert", (long)back.size(), (long)n);
  }
  printf("ok\n"); return 0; }
'''


def cfn(mod, name):
    f = mod.fn(name)
    if f is None: raise Unsupported('%s is not defined with C linkage' % name)
    return f


def native(c, n):
    r = subprocess.run([c.build().exe(NAT, CORE), str(c.seed), str(n)], capture_output=True, text=True, timeout=150)
    if r.stdout.strip() == 'ok': return None
    return {'call': r.stdout.strip() or 'crashed with status %d' % r.returncode}


class Segments:
    """grapheme_segmenter by contract over one text: an object holds the cluster [l, e), e the next boundary or the end"""

    def __init__(self, text, n, on_segment):
        self.text, self.n, self.on = text, n, on_segment
        self.Brk = z3.Function('ClusterBoundary', BV64, z3.BoolSort())

    def is_boundary(self, i): return z3.Or(i == 0, i == self.n, self.Brk(i))

    def advance(self, ex, st, p, r):
        r = bv(r, 64); e = fresh('cluster.end', 64)
        ex.fact(Implies(st.g, z3.If(r == self.n, e == self.n, z3.And(z3.ULT(r, e), z3.ULE(e, self.n), self.is_boundary(e)))))
        self.on(ex, st, r, e)
        ex.store_bytes(st, p.obj, p.off, 8, r, st.g); ex.store_bytes(st, p.obj, p.off.addc(8), 8, e, st.g)

    def get(self, ex, st, p): return [bv(ex.mat(ex.load_bytes(st, p.obj, p.off.addc(k), 8, st.g)), 64) for k in (0, 8)]

    def contracts(self):
        def ctor(ex, st, name, a, i):
            p, q, m = (a + [0, 0])[:3] if len(a) < 3 else a[:3]
            if not isinstance(q, (Ptr, PtrIte)): q, m = m, q
            if isinstance(q, PtrIte): q = ex.collapse(q)
            if isinstance(m, (Ptr, PtrIte)): m = ptr_distance(ex, q, m, 4)
            ex.oblige('the segmenter is given the whole text', st.g, And(eqv(m, self.n, 64), q.obj is self.text and eqv(q.off.idx(4), 0, 64)), 'pre', name)
            self.advance(ex, st, p, 0)

        def inc(ex, st, name, a, i):
            self.advance(ex, st, a[0], self.get(ex, st, a[0])[1]); return a[0]

        def deref(ex, st, name, a, i):
            l, r = self.get(ex, st, a[0])
            return [binop('sub', r, l, 64), Ptr(self.text, Off(4, l, 0))]

        def avail(ex, st, name, a, i): return Not(eqv(self.get(ex, st, a[0])[1], self.n, 64))
        return [(re.compile(SEG + r'C[12]E'), ctor), (re.compile(SEG + r'ppEv$'), inc), (re.compile(SEG + r'deEv$'), deref), (re.compile(SEG + r'(19codepointsAvailableEv|cvbEv)$'), avail)]

    def candidates(self, ex, info):
        out = []
        cs = [x for x in info.cells if x.key[0] == 'cell' and x.kind == 'int' and x.bits == 64]
        for x in cs:
            out.append(('boundary at %s' % x.name, lambda w, x=x: self.is_boundary(bv(ex.mat(w[x.key]), 64))))
            for y in cs:
                if y.key[1] == x.key[1] and y.key[2] == x.key[2] + 8:
                    X, Y = (lambda w, x=x: bv(ex.mat(w[x.key]), 64)), (lambda w, y=y: bv(ex.mat(w[y.key]), 64))
                    out.append(('cluster %s %s' % (x.name, y.name), lambda w, X=X, Y=Y: z3.And(z3.ULE(X(w), Y(w)), z3.ULE(Y(w), self.n), z3.Implies(z3.ULT(X(w), self.n), z3.ULT(X(w), Y(w))))))
        return out


def clusters(c, mod):
    n = z3.BitVec('n', 64)
    W1 = z3.Function('width', z3.BitVecSort(32), z3.BitVecSort(32)); CW = z3.Function('cluster_width', BV64, BV64, z3.BitVecSort(32))
    for fn, modes in (('u32_gc_count', (None,)), ('u32_gc_width', (0, 1))):
        for mode in modes:
            S = z3.Function('total', BV64, z3.BitVecSort(32))
            z = z3.BitVecVal(0, 64)

            def on(ex, st, l, e):
                one = z3.BitVecVal(1, 32) if mode is None else CW(l, e) if mode else W1(z3.Select(text.init.a, l))
                ex.fact(S(z) == 0)
                ex.fact(Implies(st.g, z3.Implies(l != n, S(e) == S(l) + one)))

            def cw(ex, st, name, a, i):
                q = a[1] if isinstance(a[1], (Ptr, PtrIte)) else a[0]; m = a[0] if q is a[1] else a[1]
                if isinstance(q, PtrIte): q = ex.collapse(q)
                if q.obj is not text: raise Unsupported('width of something that is not a part of the text')
                l = bv(q.off.idx(4), 64); m = bv(ex.mat(m), 64)
                ex.oblige('the cluster lies inside the text', st.g, z3.And(z3.ULE(l, n), z3.ULE(m, n - l)), 'pre', name)
                return CW(l, l + m)
            v = Verifier(mod, [])
            text = v.reg(v.new_arr('text', 4, n))
            v.fact(z3.ULT(n, z3.BitVecVal(1 << 31, 64)))
            sg = Segments(text, n, on)
            v.contracts = sg.contracts() + [(re.compile(r'^_ZN7unicode5widthEDi$'), lambda ex, st, name, a, i: W1(bv(ex.mat(a[0]), 32))),
                                            (re.compile(r'^_ZN7unicode22grapheme_cluster_widthESt17basic_string_viewIDi'), cw)]
            v.loop_hook = along([text], eqs=[('total', S, 32)], base=generic(extra=sg.candidates))
            r, st = v.call_fn(cfn(mod, fn), [Ptr(text), n] + ([] if mode is None else [mode]), State(True, {}))
            nm = fn if mode is None else '%s(mode %d)' % (fn, mode)
            v.fact(S(z) == 0)
            what = {None: 'the number of grapheme clusters', 0: 'the sum of the widths of the first code points of the clusters', 1: 'the sum of the widths of the clusters'}[mode]
            v.oblige('the result is ' + what, st.g, eqv(v.mat(r), S(n), 32), fn=nm)
            v.oblige('an empty text gives zero', And(st.g, n == 0), eqv(v.mat(r), 0, 32), fn=nm)
            c.satisfiable(nm, v.facts + [n == 0]); c.satisfiable(nm, v.facts + [z3.UGT(n, 3)])
            c.contracts.append(nm); c.discharge(v, timeout=60)


def bytewise(c, mod):
    """u8_* are the u32_* functions on the decoded text"""
    A8, A32 = z3.ArraySort(BV64, z3.BitVecSort(8)), z3.ArraySort(BV64, z3.BitVecSort(32))
    dec, decn = z3.Function('Decode', A8, BV64, A32), z3.Function('Decode.size', A8, BV64, BV64)
    for fn, modes in (('gc_count', (None,)), ('gc_width', (0, 1))):
        for mode in modes:
            S = StringModel(); F = z3.Function('u32_' + fn, A32, BV64, z3.BitVecSort(32), z3.BitVecSort(32))

            def hdec(ex, st, nm, a, i):
                q = ex.collapse(a[2]) if isinstance(a[2], PtrIte) else a[2]
                if q.obj.kind != 'arr' or not is_c(q.off.idx(1)) or int(q.off.idx(1)) != 0: raise Unsupported('the whole text is expected')
                x = ex.content(st, q.obj).a; k = bv(ex.mat(a[1]), 64)
                ex.oblige('the whole text is decoded', st.g, eqv(k, n, 64), 'pre', nm)
                ex.fact(z3.ULE(decn(x, k), k))
                S.make(ex, st, a[0], 4, dec(x, k), decn(x, k))

            def h32(ex, st, nm, a, i):
                q = ex.collapse(a[0]) if isinstance(a[0], PtrIte) else a[0]
                if q.obj.kind != 'arr' or not is_c(q.off.idx(4)) or int(q.off.idx(4)) != 0: raise Unsupported('the whole text is expected')
                return F(ex.content(st, q.obj).a, bv(ex.mat(a[1]), 64), bv(ex.mat(a[2]) if len(a) > 2 else 0, 32))
            v = Verifier(mod, [(re.compile(r'^_ZN7unicode10convert_toIDicEE'), hdec), (re.compile('^u32_%s$' % fn), h32)] + S.contracts())
            n = z3.BitVec('n', 64); v.fact(z3.ULT(n, z3.BitVecVal(1 << 58, 64)))
            text = v.reg(v.new_arr('text', 1, n))
            r, st = v.call_fn(cfn(mod, 'u8_' + fn), [Ptr(text), n] + ([] if mode is None else [mode]), State(True, {}))
            T = text.init.a; nm = 'u8_%s%s' % (fn, '' if mode is None else '(mode %d)' % mode)
            v.oblige('the result is the one for the decoded text', st.g, eqv(v.mat(r), F(dec(T, n), decn(T, n), z3.BitVecVal(mode or 0, 32)), 32), fn=nm)
            c.contracts.append(nm); c.discharge(v)


def encode(c, mod):
    v = Verifier(mod, [], {'unroll_symbolic': '.', 'unroll_try': 4})
    n, cap = z3.BitVecs('n cap', 64); i0 = z3.BitVec('any', 64)
    v.fact(z3.ULT(n, z3.BitVecVal(1 << 58, 64))); v.fact(z3.ULT(cap, z3.BitVecVal(1 << 31, 64)))
    text = v.reg(v.new_arr('text', 4, n)); dest = v.reg(v.new_arr('dest', 1, cap)); D0 = dest.init.a
    AS = z3.ArraySort(BV64, z3.BitVecSort(8))
    A = z3.Function('A', BV64, AS); N = z3.Function('N', BV64, BV64); z = z3.BitVecVal(0, 64)
    v.fact(z3.And(A(z) == D0, N(z) == 0))
    # sizes never decrease, so a prefix that does not fit means the whole does not (induction over N(i+1) >= N(i))
    def grow(i): v.fact(z3.Implies(z3.ULE(i, n), z3.And(z3.ULE(N(i), N(n)), z3.ULE(N(i), i * 4))))

    def lh(ex, obj, i, val, g):
        if obj is not text: return
        i = bv(i, 64); cp = bv(val, 32); k = N(i); a = A(i)
        L = bv(utf8.enc_len(cp), 32); r = None
        for m in (4, 3, 2, 1):
            x = a
            for q in range(m): x = z3.Store(x, k + q, bv(utf8.enc_byte(cp, m, q), 8))
            r = x if r is None else z3.If(L == m, x, r)
        ex.fact(z3.Implies(z3.ULT(i, n), z3.And(A(i + 1) == r, N(i + 1) == k + z3.ZeroExt(32, L)))); grow(i); grow(i + 1)
        ex.fact(z3.Implies(z3.ULT(i, n), zb(utf8.scalar(cp))))
    v.load_hook = lh
    i = z3.BitVec('i', 64); k = z3.BitVec('len', 64)
    c.prove('the encoded length of a prefix is bounded by the whole length and by four bytes each: induction step', [z3.ULT(i, n), z3.ULT(n, z3.BitVecVal(1 << 58, 64)), z3.ULE(k, 4), z3.ULE(N(i), i * 4), N(i + 1) == N(i) + k], z3.And(z3.ULE(N(i + 1), (i + 1) * 4), z3.ULE(N(i), N(i + 1))), 'specification')

    def extra(ex, info):
        out = []
        from engine.cands import indices
        for nm, I in indices(info, [text]):
            out.append(('%s <= n' % nm, lambda w, I=I: z3.ULE(bv(I(w), 64), n)))
            for x in info.cells:
                if x.kind == 'int' and x.bits == 64: out.append(('%s == cap - N(%s)' % (x.name, nm), lambda w, x=x, I=I: z3.And(eqv(ex.mat(w[x.key]), cap - N(bv(I(w), 64)), 64), z3.ULE(N(bv(I(w), 64)), cap))))
                if x.kind == 'ptr' and x.obj is dest: out.append(('%s at N(%s)' % (x.name, nm), lambda w, x=x, I=I: eqv(w[x.key].off.idx(1), N(bv(I(w), 64)), 64)))
                if x.kind == 'int' and x.bits == 32: out.append(('%s == N(%s)' % (x.name, nm), lambda w, x=x, I=I: eqv(zext(ex.mat(w[x.key]), 32, 64), N(bv(I(w), 64)), 64)))
        return out
    v.loop_hook = along([text], arrs=[('A', dest, A)], base=generic(extra=extra))
    r, st = v.call_fn(cfn(mod, 'u32u8_convert'), [Ptr(text), n, Ptr(dest), cap], State(True, {}))
    r = bv(v.mat(r), 32); fits = z3.ULE(N(n), cap); nm = 'u32u8_convert'
    v.oblige('the number of bytes is returned when the result fits', And(st.g, fits), eqv(zext(r, 32, 64), N(n), 64), fn=nm)
    v.oblige('the buffer holds the standard encoding and is otherwise untouched when the result fits', And(st.g, fits), v.content(st, dest).a == A(n), fn=nm)
    v.oblige('-1 is returned when the result does not fit', And(st.g, Not(fits)), eqv(r, 0xFFFFFFFF, 32), fn=nm)
    c.satisfiable(nm, v.facts + [n == 3, cap == 5]); c.contracts.append(nm); c.discharge(v, timeout=60)


def stream(c, mod):
    """one byte through the C stream converter is one decoder step"""
    u = utf8.U8(c)
    v = Verifier(mod, [])
    o = v.reg(v.new_cells('handle', u.so.x_sized())); st = State(True, {})
    vd = v
    s = tuple(z3.BitVec('s_' + n, w) for n, w in (('need', 8), ('seen', 8), ('acc', 32))); b = z3.BitVec('byte', 8)
    offs = {}
    def fields(st):
        vv = Verifier(u.mod, []); 
        return [bv(v.mat(v.load_bytes(st, o, Off(0, None, offs[k]), 4, True)), 32) for k in ('x_expd', 'x_curd', 'x_chrd')]
    import ctypes
    buf = (ctypes.c_ubyte * u.so.x_sized())()
    for f in ('x_expd', 'x_curd', 'x_chrd'):
        for k in range(0, u.so.x_sized(), 4):
            for j in range(len(buf)): buf[j] = 0
            buf[k] = 77
            if getattr(u.so, f)(buf) == 77: offs[f] = k
    v.fact(zb(utf8.inv(s))); v.fact(zb(u.rel(fields(st), s)))
    out = v.reg(v.new_cells('output', 4)); before = v.load_bytes(st, out, Off(0, None, 0), 4, True)
    r, st = v.call_fn(cfn(mod, 'u8u32_stream_convert_run'), [Ptr(o), b, Ptr(out)], st)
    want, val, s2 = utf8.step(s, b); done = eqv(want, 2, 8); nm = 'u8u32_stream_convert_run'
    got = v.load_bytes(st, out, Off(0, None, 0), 4, True)
    v.oblige('1 exactly when a character is complete', st.g, eqv(v.mat(r), ite(done, 1, 0, 32), 32), fn=nm)
    v.oblige('the value is stored when complete and the output is untouched otherwise', st.g, eqv(got, ite(done, val, before, 32), 32), fn=nm)
    v.oblige('the decoder state is advanced', st.g, And(u.rel(fields(st), s2), utf8.inv(s2)), fn=nm)
    c.contracts.append(nm); c.discharge(v)


def main(c):
    B = c.build()
    st = [MEMBERS, SEG, r'^_ZN7unicode10convert_toI', r'^_ZN7unicode5widthEDi$', r'^_ZN7unicode22grapheme_cluster_width'] + BRK
    mod = ir.Module(open(B.ir(TU, noinline=st + ['^u32_gc_'], strip=st)).read())
    c.searcher = lambda ch: native(c, 60000)
    c.assumptions += ['grapheme_segmenter yields the clusters between consecutive boundaries (C06)', 'width and grapheme_cluster_width are functions of their argument (C09, C10)',
                      'convert_to<char32_t> is a function of the bytes with at most one code point per byte (C02)', 'texts shorter than 2^31 code points and buffers below 2^31 bytes, so that results fit the int they are returned in',
                      'u32u8_convert: the source consists of Unicode scalar values', 'std::basic_string destructor frees only its own memory']
    jobs = [('clusters', lambda c: clusters(c, mod)), ('bytewise', lambda c: bytewise(c, mod)), ('encode', lambda c: encode(c, mod)), ('stream', lambda c: stream(c, mod))]

    def nat(c):
        k = 400000 if c.tier == 'thorough' else 30000
        r = native(c, k)
        c.bounded.append('native comparison of the C functions with the C++ library on %d pseudo-random texts (backstop, not counted as proof)' % k)
        if r: c.hints.append(r); c.failed.append(('native comparison', str(r)[:300]))
    c.parallel(jobs + [('native', nat)])
