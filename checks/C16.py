"""string case operations are the concatenation of the per-character mappings"""
import ctypes, random, re, subprocess
import z3
from engine import ir
from engine.sym import *
from engine.exec import Verifier
from engine.cands import generic, along
from engine.strings import StringModel, MEMBERS
from engine.build import CORE

TU = '''#include "case_mapping.cpp"
#include <new>
using namespace unicode; using std::u32string; using std::u32string_view; using std::string; using std::string_view;
extern "C" {
void z_up(char32_t const* p, size_t n, u32string* o) { new (o) u32string(to_uppercase(u32string_view(p, n))); }
void z_lo(char32_t const* p, size_t n, u32string* o) { new (o) u32string(to_lowercase(u32string_view(p, n))); }
void z_ti(char32_t const* p, size_t n, u32string* o) { new (o) u32string(to_titlecase(u32string_view(p, n))); }
void z_fo(char32_t const* p, size_t n, u32string* o) { new (o) u32string(casefold(u32string_view(p, n))); }
void y_up(char const* p, size_t n, string* o) { new (o) string(to_uppercase(string_view(p, n))); }
void y_lo(char const* p, size_t n, string* o) { new (o) string(to_lowercase(string_view(p, n))); }
void y_ti(char const* p, size_t n, string* o) { new (o) string(to_titlecase(string_view(p, n))); }
void y_fo(char const* p, size_t n, string* o) { new (o) string(casefold(string_view(p, n))); }
int z_cmp(char32_t const* p, size_t n, char32_t const* q, size_t m) { return casefold_compare(u32string_view(p, n), u32string_view(q, m)); }
bool z_eq(char32_t const* p, size_t n, char32_t const* q, size_t m) { return casefold_equals(u32string_view(p, n), u32string_view(q, m)); }
int y_cmp(char const* p, size_t n, char const* q, size_t m) { return casefold_compare(string_view(p, n), string_view(q, m)); }
bool y_eq(char const* p, size_t n, char const* q, size_t m) { return casefold_equals(string_view(p, n), string_view(q, m)); }
}
'''
NAT = '''#include <libunicode/case_mapping.h>
#include <libunicode/word_segmenter.h>
#include <libunicode/convert.h>
#include <cstdio>
#include <cstring>
#include <random>
using namespace unicode;
static void add(std::u32string& r, case_mapping_result m, char32_t c) { if (m.length == 0) r += c; else r.append(m.codepoints.data(), m.length); }
static std::u32string spec(int k, std::u32string const& t) {
  std::u32string r;
  if (k == 2) { // title
    size_t pos = 0; word_segmenter s(t); std::vector<size_t> cuts; 
    while (pos < t.size()) { auto w = *s; bool seen = false; if (w.empty()) break; for (char32_t c: w) { if (!is_cased(c)) r += c; else if (!seen) { add(r, full_titlecase(c), c); seen = true; } else add(r, full_lowercase(c), c); } pos += w.size(); ++s; }
    return r; }
  for (char32_t c: t) add(r, k == 0 ? full_uppercase(c) : k == 1 ? full_lowercase(c) : full_casefold(c), c);
  return r; }
static std::u32string real(int k, std::u32string const& t) { return k == 0 ? to_uppercase(t) : k == 1 ? to_lowercase(t) : k == 2 ? to_titlecase(t) : casefold(t); }
static std::string real8(int k, std::string const& t) { return k == 0 ? to_uppercase(t) : k == 1 ? to_lowercase(t) : k == 2 ? to_titlecase(t) : casefold(t); }
static std::string u8(std::u32string const& t) { return convert_to<char>(std::u32string_view(t)); }
static int sg(int x) { return (x > 0) - (x < 0); }
static void show(char const* what, std::u32string const& t, std::u32string const& u) { printf("%s;", what); for (auto c: t) printf("%X ", (unsigned)c); printf(";"); for (auto c: u) printf("%X ", (unsigned)c); printf("\\n"); }
int main(int argc, char** argv) {
  std::vector<char32_t> pool; for (char32_t c = 0; c < 0x110000; ++c) if ((c < 0xD800 || c > 0xDFFF) && (full_uppercase(c).length || full_lowercase(c).length || full_casefold(c).length || full_titlecase(c).length)) pool.push_back(c);
  std::vector<char32_t> few = {U'a', U'Z', U' ', U'.', U':', U'_', U'\\'', 0xDF, 0x130, 0x149, 0xFB03, 0x1E9E, 0x345, 0x301, 0x3A3, U'1', 0x1F0, 0x10400, 0x2019, U'-', 0x390, 0xAD, 0, 0x10FFFF, 0x1C5, 0x1F80, 0x200D};
  std::mt19937 g(atoi(argv[1])); std::u32string prev;
  char const* nm[] = {"to_uppercase", "to_lowercase", "to_titlecase", "casefold"};
  for (long it = 0; it < atol(argv[2]); ++it) {
    std::u32string t; size_t n = it % 997 == 0 ? g() % 3000 : it % 31 == 0 ? g() % 300 : g() % 12; bool one = g() % 8 == 0, word = g() % 4 == 0; char32_t c0 = few[g() % few.size()];
    for (size_t i = 0; i < n; ++i) t += word && g() % 500 ? few[g() % 5 == 0 ? 11 : g() % 2] : one && g() % 4 ? c0 : g() % 3 ? few[g() % few.size()] : g() % 2 ? pool[g() % pool.size()] : pool[(g() % 40 + it) % pool.size()];
    for (int k = 0; k < 4; ++k) { if (real(k, t) != spec(k, t)) { show(nm[k], t, {}); return 0; } if (real8(k, u8(t)) != u8(spec(k, t))) { show((std::string(nm[k]) + " (UTF-8)").c_str(), t, {}); return 0; } }
    std::u32string o = g() % 2 ? prev : g() % 2 ? real(g() % 4, t) : t; if (g() % 2 && !o.empty()) o[g() % o.size()] = few[g() % few.size()]; if (g() % 4 == 0) o += few[g() % few.size()];
    auto a = spec(3, t), b = spec(3, o); int w = sg(a.compare(b)); if (sg(casefold_compare(t, o)) != w || casefold_equals(t, o) != (w == 0)) { show("casefold_compare", t, o); return 0; }
    int w8 = sg(u8(a).compare(u8(b))); if (sg(casefold_compare(u8(t), u8(o))) != w8 || casefold_equals(u8(t), u8(o)) != (w8 == 0)) { show("casefold_compare (UTF-8)", t, o); return 0; }
    prev = t; }
  printf("ok\\n"); return 0; }
'''
FULL = {'_ZN7unicode14full_uppercaseEDi': 'Upper', '_ZN7unicode14full_lowercaseEDi': 'Lower', '_ZN7unicode14full_titlecaseEDi': 'Title', '_ZN7unicode13full_casefoldEDi': 'Fold'}
SEG = r'^_ZNK?7unicode14word_segmenter'


def search(c, n=60000):
    exe = c.build().exe('#include <vector>\n#include <string>\n#include <cstdlib>\n' + NAT, CORE)
    r = subprocess.run([exe, str(c.seed), str(n)], capture_output=True, text=True, timeout=150)
    if r.stdout.strip() == 'ok': return None
    if r.returncode: return {'crash': r.returncode, 'output': r.stdout[-400:]}
    w, a, b = r.stdout.strip('\n').split(';')
    return {'function': w, 'text': ['U+' + x for x in a.split()], 'other text': ['U+' + x for x in b.split()]}


class Case:
    def __init__(self, c, mod):
        self.c, self.mod = c, mod

    def env(self, extra=(), unroll=False):
        self.S = S = StringModel()
        BV8, BV32 = z3.BitVecSort(8), z3.BitVecSort(32)
        self.F = {k: (z3.Function(k + '.length', BV32, BV8), [z3.Function('%s.%d' % (k, i), BV32, BV32) for i in range(3)]) for k in FULL.values()}
        self.cased = z3.Function('cased', BV32, z3.BoolSort())

        def full(k):
            def h(ex, st, name, a, i):
                cp = bv(a[0], 32); ln, cs = self.F[k]
                ex.fact(z3.ULE(ln(cp), 3))
                return [concat([(cs[1](cp), 32), (cs[0](cp), 32)]), concat([(fresh('pad', 24), 24), (ln(cp), 8), (cs[2](cp), 32)])]
            return h
        H = [(re.compile('^%s$' % k), full(v)) for k, v in FULL.items()]
        H.append((re.compile(r'^_ZN7unicode8is_casedEDi$'), lambda ex, st, name, a, i: self.cased(bv(a[0], 32))))
        v = Verifier(self.mod, H + S.contracts() + list(extra), {'unroll_try': 4, 'unroll_symbolic': '.'} if unroll else {})
        self.v = v
        self.n = n = z3.BitVec('n', 64); v.fact(z3.ULT(n, z3.BitVecVal(1 << 58, 64)))
        self.text = v.reg(v.new_arr('text', 4, n)); self.T = self.text.init.a
        self.out = v.reg(v.new_cells('out', 32)); self.o = S.back(v, Ptr(self.out), 4)
        return v

    def step(self, A, N, M, cp):
        """contents and size after the mapping M of cp was appended"""
        ln, cs = self.F[M]
        one = z3.Store(A, N, cs[0](cp)); two = z3.Store(one, N + 1, cs[1](cp)); three = z3.Store(two, N + 2, cs[2](cp))
        L = ln(cp)
        return z3.If(L == 0, z3.Store(A, N, cp), z3.If(L == 1, one, z3.If(L == 2, two, three))), N + z3.If(L == 0, z3.BitVecVal(1, 64), z3.ZeroExt(56, L))

    def spec(self, v, unfold):
        """the specification sequences A(i), N(i): output contents and size after the first i code points"""
        AS = z3.ArraySort(BV64, z3.BitVecSort(32))
        A = z3.Function('A', BV64, AS); N = z3.Function('N', BV64, BV64)
        z = z3.BitVecVal(0, 64)
        v.fact(z3.And(A(z) == self.o.init.a, N(z) == 0))
        seen = set()

        def lh(ex, obj, i, val, g):
            if obj is not self.text: return
            i = bv(i, 64)
            a, k = unfold(i, bv(val, 32), A(i), N(i))
            ex.fact(z3.Implies(z3.ULT(i, self.n), z3.And(A(i + 1) == a, N(i + 1) == k, z3.ULE(N(i), i * 3))))
        v.load_hook = lh
        return A, N

    def hook(self, A, N, extra=None):
        return along([self.text], eqs=[('N', N, 64)], arrs=[('A', self.o, A)], base=generic(extra=extra))

    def finish(self, v, st, A, N, fn):
        S = self.S
        o, a, k = S.get(v, st, Ptr(self.out), 4)
        v.oblige('the result has the length of the concatenated mappings', st.g, eqv(k, N(self.n), 64), fn=fn)
        v.oblige('the result is the concatenation of the mappings', st.g, a == A(self.n), fn=fn)
        self.c.satisfiable(fn, v.facts); self.c.discharge(v, timeout=60)

    def simple(self, fn, M, name):
        v = self.env()
        A, N = self.spec(v, lambda i, cp, a, k: self.step(a, k, M, cp))
        v.loop_hook = self.hook(A, N)
        r, st = v.call_fn(self.mod.fn(fn), [Ptr(self.text), self.n, Ptr(self.out)], State(True, {}))
        self.finish(v, st, A, N, name); self.c.contracts.append(name)

    def title(self):
        segs, words = [], []
        Brk = z3.Function('WordBoundary', BV64, z3.BoolSort())
        SEEN = z3.Function('CasedBefore', BV64, z3.BoolSort())
        n = z3.BitVec('n', 64)

        def ctor(ex, st, name, a, i):
            # (view) as (size, pointer) or (pointer, pointer)
            p, q, m = a[0], a[1], a[2]
            if not isinstance(q, (Ptr, PtrIte)): q, m = m, q
            if isinstance(q, PtrIte): q = ex.collapse(q)
            if isinstance(m, (Ptr, PtrIte)): m = pdist(ex, q, m)
            ex.oblige('the segmenter is given the whole text', st.g, And(eqv(m, self.n, 64), q.obj is self.text and eqv(q.off.idx(4), 0, 64)), 'pre', name)
            self.advance(ex, st, p, z3.BitVecVal(0, 64))

        def inc(ex, st, name, a, i):
            p = a[0]
            r = ex.load_bytes(st, p.obj, p.off.addc(8), 8, st.g)
            self.advance(ex, st, p, r)
            return p

        def deref(ex, st, name, a, i):
            l, r = [ex.mat(ex.load_bytes(st, a[0].obj, a[0].off.addc(k), 8, st.g)) for k in (0, 8)]
            segs.append((bv(l, 64), bv(r, 64))); words.append(segs[-1])
            return [binop('sub', r, l, 64), Ptr(self.text, Off(4, bv(l, 64), 0))]

        def avail(ex, st, name, a, i):
            r = ex.mat(ex.load_bytes(st, a[0].obj, a[0].off.addc(8), 8, st.g))
            return Not(eqv(r, self.n, 64))

        def advance(ex, st, p, r):
            r = bv(r, 64); e = fresh('segment.end', 64)
            ex.fact(Implies(st.g, z3.If(r == self.n, e == self.n, z3.And(z3.ULT(r, e), z3.ULE(e, self.n), z3.Or(e == self.n, Brk(e))))))
            segs.append((r, e)); self.segs = segs
            ex.store_bytes(st, p.obj, p.off, 8, r, st.g); ex.store_bytes(st, p.obj, p.off.addc(8), 8, e, st.g)
        self.advance = advance
        H = [(re.compile(SEG + r'C[12]E'), ctor), (re.compile(SEG + r'ppEv$'), inc), (re.compile(SEG + r'deEv$'), deref), (re.compile(SEG + r'(19codepointsAvailableEv|cvbEv)$'), avail)]
        v = self.env(H); v.fact(Brk(z3.BitVecVal(0, 64)))
        # at a boundary (and at the start) no cased character was seen before; inside a segment there is no boundary
        before = lambda i: z3.And(SEEN(i), z3.Not(Brk(i)))

        def unfold(i, cp, a, k):
            v.fact(SEEN(i + 1) == z3.Or(before(i), self.cased(cp)))
            for l, r in segs: v.fact(z3.Implies(z3.And(z3.ULT(l, i), z3.ULT(i, r)), z3.Not(Brk(i))))
            t, tn = self.step(a, k, 'Title', cp); l, lnn = self.step(a, k, 'Lower', cp)
            c = self.cased(cp)
            return z3.If(c, z3.If(before(i), l, t), z3.Store(a, k, cp)), z3.If(c, z3.If(before(i), lnn, tn), k + 1)
        A, N = self.spec(v, unfold)

        def extra(ex, info):
            out = []
            segc = [x for x in info.cells if x.key[0] == 'cell' and x.kind == 'int' and x.bits == 64 and 'seg' in self.objname(ex, x)]
            segcells = sorted({(x.key[1]) for x in segc})
            for x in info.cells:
                if x.kind == 'int' and x.bits in (1, 8):
                    if x.bits == 8: out.append(('%s <= 1' % x.name, lambda w, x=x: cmpop('ule', w[x.key], 1, 8)))
                    for y in info.cells:
                        if y.kind == 'ptr' and y.obj is self.text:
                            for l, r in words[-1:]:
                                for neg in (False, True):
                                    def f(w, x=x, y=y, l=l, neg=neg):
                                        i = bv(w[y.key].off.idx(4), 64); s = z3.And(SEEN(i), i != l)
                                        return eqv(trunc(ex.mat(w[x.key]), x.bits, 1) if x.bits > 1 else w[x.key], z3.Not(s) if neg else s, 1)
                                    out.append(('%s == %scased seen before %s' % (x.name, 'no ' if neg else '', y.name), f))
            for y in info.cells:
                if y.kind == 'ptr' and y.obj is self.text:
                    I = lambda w, y=y: bv(w[y.key].off.idx(4), 64)
                    for l, r in words[-1:]:
                        out.append(('%s inside the segment' % y.name, lambda w, I=I, l=l, r=r: z3.And(z3.ULE(l, I(w)), z3.ULE(I(w), r))))
                        out.append(('text left at %s' % y.name, lambda w, I=I: z3.Implies(z3.BoolVal(True), z3.ULE(I(w), self.n))))
            for x in segc:
                if x.key[2] == 0 or True:
                    out.append(('boundary at %s' % x.name, lambda w, x=x: z3.Or(Brk(bv(ex.mat(w[x.key]), 64)), bv(ex.mat(w[x.key]), 64) == self.n)))
                    out.append(('A at %s' % x.name, lambda w, x=x: ex.content(State(True, w.mem), self.o).a == A(bv(ex.mat(w[x.key]), 64))))
                    for y in segc:
                        if y is x: continue
                        X, Y = (lambda w, x=x: bv(ex.mat(w[x.key]), 64)), (lambda w, y=y: bv(ex.mat(w[y.key]), 64))
                        out.append(('segment %s %s' % (x.name, y.name), lambda w, X=X, Y=Y: z3.And(z3.ULE(X(w), Y(w)), z3.ULE(Y(w), self.n), z3.Implies(z3.ULT(X(w), self.n), z3.ULT(X(w), Y(w))), z3.Or(Y(w) == self.n, Brk(Y(w))))))
            return out
        v.loop_hook = self.hook(A, N, extra)
        r, st = v.call_fn(self.mod.fn('z_ti'), [Ptr(self.text), self.n, Ptr(self.out)], State(True, {}))
        self.finish(v, st, A, N, 'to_titlecase(u32string_view)'); self.c.contracts.append('to_titlecase(u32string_view)')

    def objname(self, ex, x): return ex.objs[x.key[1]].name

    def wrappers(self):
        """the UTF-8 overloads and the comparisons are the stated compositions of the operations above"""
        c = self.c; mod = self.mod
        A8, A32 = z3.ArraySort(BV64, z3.BitVecSort(8)), z3.ArraySort(BV64, z3.BitVecSort(32))
        U = {}

        def uf(name, a, r):
            return z3.Function(name, a, BV64, r), z3.Function(name + '.size', a, BV64, BV64)

        def op(name, es, rs):
            fa, fn = uf(name, A32 if es == 4 else A8, A32 if rs == 4 else A8)

            def h(ex, st, nm, a, i):
                dst, k, q = a[0], bv(ex.mat(a[1]), 64), a[2]
                if isinstance(q, PtrIte): q = ex.collapse(q)
                if q.obj.kind != 'arr' or not is_c(q.off.idx(es)) or int(q.off.idx(es)) != 0: raise Unsupported('a whole string is expected')
                x = ex.content(st, q.obj).a
                ex.oblige('%s is given the whole string' % name, st.g, eqv(k, S.length(ex, st, q.obj), 64), 'pre', nm)
                ex.fact(z3.ULT(fn(x, k), z3.BitVecVal(1 << 60, 64)))
                S.make(ex, st, dst, rs, fa(x, k), fn(x, k))
            return fa, fn, h
        dec, decn, hdec = op('Decode', 1, 4); enc, encn, henc = op('Encode', 4, 1)
        H = [(re.compile(r'^_ZN7unicode10convert_toIDicEE'), hdec), (re.compile(r'^_ZN7unicode10convert_toIcDiEE'), henc)]
        ops = {}
        for k, f in (('up', '12to_uppercase'), ('lo', '12to_lowercase'), ('ti', '12to_titlecase'), ('fo', '8casefold')):
            a, m, h = op(k + '32', 4, 4); ops[k] = (a, m); H.append((re.compile(r'^_ZN7unicode%sB5cxx11ESt17basic_string_viewIDi' % f), h))

        def fold8(x, k):
            y, j = dec(x, k), decn(x, k); a, m = ops['fo']
            z, l = a(y, j), m(y, j)
            return enc(z, l), encn(z, l)
        for k, nm in (('up', 'to_uppercase'), ('lo', 'to_lowercase'), ('ti', 'to_titlecase'), ('fo', 'casefold')):
            S = StringModel()
            v = Verifier(mod, H + S.contracts(), {})
            n = z3.BitVec('n', 64); t = v.reg(v.new_arr('text', 1, n)); out = v.reg(v.new_cells('out', 32))
            v.fact(z3.ULT(n, z3.BitVecVal(1 << 58, 64)))
            r, st = v.call_fn(mod.fn('y_' + k), [Ptr(t), n, Ptr(out)], State(True, {}))
            o, a, m = S.get(v, st, Ptr(out), 1)
            y, j = dec(t.init.a, n), decn(t.init.a, n); fa, fm = ops[k]; z, l = fa(y, j), fm(y, j)
            v.oblige('the result is the encoding of the converted decoded text', st.g, And(eqv(m, encn(z, l), 64), a == enc(z, l)), fn=nm + '(string_view)')
            c.discharge(v); c.contracts.append(nm + '(string_view)')
        for w, es in (('z', 4), ('y', 1)):
            for f in ('cmp', 'eq'):
                S = StringModel()
                HH = list(H)
                if es == 1:
                    a8, n8, h8 = op('Fold8', 1, 1); HH.append((re.compile(r'^_ZN7unicode8casefoldB5cxx11ESt17basic_string_viewIcS'), h8))
                v = Verifier(mod, HH + S.contracts(), {})
                n, m = z3.BitVecs('n m', 64); t = v.reg(v.new_arr('a', es, n)); u = v.reg(v.new_arr('b', es, m))
                for x in (n, m): v.fact(z3.ULT(x, z3.BitVecVal(1 << 58, 64)))
                r, st = v.call_fn(mod.fn('%s_%s' % (w, f)), [Ptr(t), n, Ptr(u), m], State(True, {}))
                fa, fm = ops['fo'] if es == 4 else (a8, n8)
                want = S.cmpf(es)(fa(t.init.a, n), fm(t.init.a, n), fa(u.init.a, m), fm(u.init.a, m))
                nm = {'cmp': 'casefold_compare', 'eq': 'casefold_equals'}[f] + ('(u32string_view)' if es == 4 else '(string_view)')
                got = bv(r, 32) if f == 'cmp' else None
                v.oblige('the comparison is that of the folded strings', st.g, got == want if f == 'cmp' else eqv(r, want == 0, 1), fn=nm)
                c.discharge(v); c.contracts.append(nm)


def pdist(ex, a, b):
    from engine.strings import ptr_distance
    return ptr_distance(ex, a, b, 4)


def main(c):
    B = c.build()
    st = [MEMBERS] + ['^%s$' % k for k in FULL] + [r'^_ZN7unicode8is_casedEDi$', SEG]
    mod = ir.Module(open(B.ir(TU, noinline=st, strip=st)).read())
    W = [MEMBERS, r'^_ZN7unicode10convert_toI', r'^_ZN7unicode(12to_(upper|lower|title)case|8casefold)B5cxx11ESt17basic_string_viewIDi']
    modw = ir.Module(open(B.ir(TU, noinline=W, strip=W)).read())
    W2 = W + [r'^_ZN7unicode8casefoldB5cxx11ESt17basic_string_viewIc']
    c.searcher = search
    c.assumptions += ['std::basic_string members behave as the standard says (allocation succeeds, sizes below 2^60); size(), data() and iterators are executed as compiled',
                      'full_uppercase, full_lowercase, full_titlecase, full_casefold and is_cased are functions of the code point with at most three results (their values: C15)',
                      'word_segmenter yields the segments between consecutive word boundaries (C08)', 'convert_to between UTF-8 and UTF-32 is a function of the string (C02, C03)',
                      'basic_string::compare is lexicographic comparison of code units']
    jobs = [('to_uppercase', lambda c: Case(c, mod).simple('z_up', 'Upper', 'to_uppercase(u32string_view)')),
            ('to_lowercase', lambda c: Case(c, mod).simple('z_lo', 'Lower', 'to_lowercase(u32string_view)')),
            ('casefold', lambda c: Case(c, mod).simple('z_fo', 'Fold', 'casefold(u32string_view)')),
            ('to_titlecase', lambda c: Case(c, mod).title()),
            ('wrappers', lambda c: Case(c, modw).wrappers())]

    def native(c):
        r = search(c, 400000 if c.tier == 'thorough' else 40000)
        c.bounded.append('native comparison of all string case operations with the specification on %d pseudo-random texts (backstop, not counted as proof)' % (400000 if c.tier == 'thorough' else 40000))
        if r: c.hints.append(r); c.failed.append(('native comparison', str(r)[:300]))
    c.parallel(jobs + [('native', native)])
