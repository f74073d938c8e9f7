"""bulk UTF-8 conversion equals byte-wise decoding, for every vector width"""
import re, subprocess
import z3
from engine import ir
from engine.build import CORE
from engine.sym import *
from engine.exec import Verifier
from engine.cands import generic, indices, pidx, select
from . import utf8

FLAGS = {128: ('-msse4.1',), 256: ('-mavx2',), 512: ('-mavx512f', '-mavx512bw')}
TU = '''#include <cstddef>
#include <concepts>
#include "convert_simd_impl.h"
extern "C" size_t x_conv(char const* p, size_t n, char%d_t* o) { return unicode::detail::convert_utf8_to_utf%d_simd<%d>(p, n, o); }
'''

SEARCH = r'''
#include <libunicode/convert.h>
#include <libunicode/convert_simd_impl.h>
#include <libunicode/simd_detector.h>
#include <sys/mman.h>
#include <signal.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <random>
#include <vector>
using namespace unicode;
static std::vector<unsigned char> cur; static char const* curf;
static void show(char const* what, long a, long b) { printf("FAIL %s %s got=%ld want=%ld bytes=", curf, what, a, b); for (auto x: cur) printf("%02x", x); printf("\n"); fflush(stdout); _exit(3); }
static void segv(int) { show("accesses-outside", -1, -1); }
struct Guard { char *lo, *hi; Guard() { long pg = sysconf(_SC_PAGESIZE); char* b = (char*)mmap(0, 4 * pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(b, pg, PROT_NONE); mprotect(b + 3 * pg, pg, PROT_NONE); lo = b + pg; hi = b + 3 * pg; } };
// reference: byte-wise decoding as documented (a non-continuation byte ends an unfinished character)
template <class C> static std::vector<C> ref(std::vector<unsigned char> const& s)
{
    std::vector<C> out; unsigned need = 0, seen = 0, acc = 0;
    auto put = [&](unsigned v) {
        if (sizeof(C) == 4) { out.push_back(v); return; }
        if (v < 0xD800 || (v >= 0xE000 && v < 0x10000)) out.push_back(v);
        else if (v >= 0x10000 && v < 0x110000) { out.push_back(0xD800 + ((v - 0x10000) >> 10)); out.push_back(0xDC00 + ((v - 0x10000) & 0x3ff)); }
    };
    for (unsigned b: s) {
        if (b < 0x80) { need = 0; put(b); }
        else if (b >= 0xC0) { need = b < 0xE0 ? 2 : b < 0xF0 ? 3 : b < 0xF8 ? 4 : 0; acc = b < 0xE0 ? b & 31 : b < 0xF0 ? b & 15 : b & 7; seen = 1; }
        else if (need) { acc = acc << 6 | (b & 63); if (++seen == need) { need = 0; put(acc); } }
    }
    return out;
}
static Guard in, o32, o16;
template <class C> static void one(char const* n, size_t (*f)(char const*, size_t, C*), Guard& o)
{
    curf = n; auto w = ref<C>(cur);
    for (int side = 0; side < 2; ++side) {
        memset(in.lo, 0x41, 8192); memset(o.lo, 0x5A, 8192);
        char* p = side ? in.hi - cur.size() : in.lo; memcpy(p, cur.data(), cur.size());
        C* q = side ? (C*)o.hi - cur.size() : (C*)o.lo;
        size_t r = f(p, cur.size(), q);
        if (r != w.size()) show("count", (long)r, (long)w.size());
        for (size_t i = 0; i < r; ++i) if (q[i] != w[i]) show("unit", (long)q[i], (long)w[i]);
        for (size_t i = r; i < cur.size(); ++i) for (size_t k = 0; k < sizeof(C); ++k) if (((unsigned char*)(q + i))[k] != 0x5A) show("touches-output-beyond-end", (long)i, (long)r);
    }
}
static size_t f128_32(char const* p, size_t n, char32_t* o) { return detail::convert_utf8_to_utf32_simd<128>(p, n, o); }
static size_t f128_16(char const* p, size_t n, char16_t* o) { return detail::convert_utf8_to_utf16_simd<128>(p, n, o); }
int main(int, char** argv)
{
    signal(SIGSEGV, segv); signal(SIGBUS, segv); signal(SIGABRT, segv);
    std::mt19937 g(atoi(argv[1])); size_t w = detail::max_simd_size();
    auto run = [&] {
        one<char32_t>("utf32 simd<128>", f128_32, o32); one<char16_t>("utf16 simd<128>", f128_16, o16);
        if (w >= 256) { one<char32_t>("utf32 256", detail::convert_utf8_to_utf32_256, o32); one<char16_t>("utf16 256", detail::convert_utf8_to_utf16_256, o16); }
        if (w >= 512) { one<char32_t>("utf32 512", detail::convert_utf8_to_utf32_512, o32); one<char16_t>("utf16 512", detail::convert_utf8_to_utf16_512, o16); }
        one<char32_t>("utf32 dispatch", detail::convert_utf8_to_utf32, o32); one<char16_t>("utf16 dispatch", detail::convert_utf8_to_utf16, o16);
        // string interface
        curf = "convert_to"; auto s = std::string((char const*)cur.data(), cur.size());
        auto a = convert_to<char32_t>(std::string_view(s)); auto ra = ref<char32_t>(cur); if (a.size() != ra.size() || !std::equal(ra.begin(), ra.end(), a.begin())) show("convert_to<char32_t>", (long)a.size(), (long)ra.size());
        auto b = convert_to<char16_t>(std::string_view(s)); auto rb = ref<char16_t>(cur); if (b.size() != rb.size() || !std::equal(rb.begin(), rb.end(), b.begin())) show("convert_to<char16_t>", (long)b.size(), (long)rb.size());
    };
    static char const* pieces[] = {"\xC2\x80", "\xDF\xBF", "\xE0\xA0\x80", "\xEF\xBF\xBF", "\xF0\x90\x80\x80", "\xF4\x8F\xBF\xBF", "\xE2\x82", "\xF0\x9F\x98", "\x80", "\xFF", "\xED\xA0\x80", "\xF5\x80\x80\x80", "\xC3", "\xE2\x82\xAC", "\xF0\x9F\x98\x80", "\xF7\xBF\xBF\xBF"};
    for (size_t n = 0; n <= 140; ++n) for (size_t k = 0; k <= n; k += 1 + (n > 66) * 5) for (auto* p: pieces) {
        cur.assign(n, 0); for (size_t i = 0; i < n; ++i) cur[i] = 1 + (i * 7) % 127;
        cur.insert(cur.begin() + k, (unsigned char const*)p, (unsigned char const*)p + strlen(p)); run();
    }
    for (int it = 0; it < 40000; ++it) {
        cur.clear(); int parts = g() % 8;
        for (int k = 0; k < parts; ++k) {
            unsigned r = g() % 4;
            if (r == 0) { auto* p = pieces[g() % (sizeof pieces / sizeof *pieces)]; cur.insert(cur.end(), (unsigned char const*)p, (unsigned char const*)p + strlen(p)); }
            else if (r == 1) { int m = g() % 70; while (m--) cur.push_back(g() % 128); }
            else if (r == 2) { int m = g() % 6; while (m--) cur.push_back(g() % 256); }
            else cur.push_back(0x80 + g() % 64);
        }
        run();
    }
    return 0;
}
'''


def units(val, out):
    """UTF-16 units of a delivered value: (count, first, second)"""
    one = Or(cmpop('ult', val, 0xD800, 32), And(cmpop('uge', val, 0xE000, 32), cmpop('ult', val, 0x10000, 32)))
    two = And(cmpop('uge', val, 0x10000, 32), cmpop('ult', val, 0x110000, 32))
    x = binop('sub', val, 0x10000, 32)
    hi = binop('add', 0xD800, binop('lshr', x, 10, 32), 32); lo = binop('add', 0xDC00, binop('and', x, 0x3FF, 32), 32)
    return ite(one, 1, ite(two, 2, 0, 64), 64), ite(one, trunc(val, 32, 16), trunc(hi, 32, 16), 16), trunc(lo, 32, 16)


class Spec:
    """state of byte-wise decoding before byte i, number of units delivered before byte i, and the units"""

    def __init__(self, v, T, n, bits, j):
        self.j = j; self.v, self.T, self.n, self.bits = v, T, n, bits
        B = z3.BitVecSort
        self.need = z3.Function('need', B(64), B(8)); self.seen = z3.Function('seen', B(64), B(8)); self.acc = z3.Function('acc', B(64), B(32))
        self.O = z3.Function('delivered', B(64), B(64)); self.W = z3.Function('unit', B(64), B(bits))
        z = z3.BitVecVal(0, 64)
        for f in (self.need(z) == 0, self.seen(z) == 0, self.acc(z) == 0, self.O(z) == 0): v.fact(f)
        self.done = set()

    def s(self, i): return self.need(i), self.seen(i), self.acc(i)

    def lemma(self, i):
        """consequences of the recurrence, by induction (proved in induction())"""
        return z3.And(zb(utf8.inv(self.s(i))), z3.ULE(self.O(i), i), z3.ULE(z3.ZeroExt(56, self.seen(i)), i - self.O(i)))

    def deliver(self, i, b):
        out, val, s2 = utf8.step(self.s(i), b)
        ok = eqv(out, 2, 8)
        if self.bits == 32: return s2, ite(ok, 1, 0, 64), val, None
        c, a, b2 = units(val, ok)
        return s2, ite(ok, c, 0, 64), a, b2

    def unfold(self, i):
        i = bv(i, 64)
        s2, cnt, a, b2 = self.deliver(i, z3.Select(self.T, i))
        eq = [eqv(x(i + 1), y, w) for x, y, w in zip((self.need, self.seen, self.acc), s2, (8, 8, 32))]
        f = [*eq, self.O(i + 1) == self.O(i) + bv(cnt, 64), Implies(cmpop('uge', cnt, 1, 64), eqv(self.W(self.O(i)), a, self.bits))]
        if b2 is not None: f.append(Implies(eqv(cnt, 2, 64), eqv(self.W(self.O(i) + 1), b2, 16)))
        f += [self.lemma(i), self.lemma(i + 1)]
        self.v.fact(z3.Implies(z3.ULT(i, self.n), zb(And(*f))))

    def block(self, b, k, g):
        """k ASCII bytes from b on are delivered as themselves, whatever the state (induction on k, see induction());
        g: path condition of a load whose bounds obligation says b + k <= n"""
        b = bv(b, 64); j = self.j
        alla = z3.And(*[z3.ULT(z3.Select(self.T, b + q if q else b), 0x80) for q in range(k)])
        for q in range(k): self.v.fact(z3.Implies(j - b == q, z3.Select(self.T, j) == z3.Select(self.T, b + q if q else b)))
        self.v.cases = [[j - b == q for q in range(k)], [z3.ULT(j, b)]]
        inside = z3.Or(*self.v.cases[0])
        self.v.fact(z3.Implies(zb(g), inside == z3.And(z3.ULE(b, j), z3.ULT(j, b + k))))      # bit-vector arithmetic (induction())
        self.v.fact(z3.Implies(z3.And(zb(g), alla), z3.And(self.O(b + k) == self.O(b) + k, self.need(b + k) == 0, self.seen(b + k) == 0, self.acc(b + k) == 0,
                    z3.Implies(inside, z3.And(self.O(j) == self.O(b) + (j - b), z3.Implies(self.O(b) == b, z3.And(self.O(j) == j, self.W(j) == bv(zext(z3.Select(self.T, j), 8, self.bits), self.bits))),
                                            self.W(self.O(j)) == bv(zext(z3.Select(self.T, j), 8, self.bits), self.bits))))))

    def induction(self, c):
        i = z3.BitVec('i', 64); b = z3.BitVec('b', 8)
        s2, cnt, a, b2 = self.deliver(i, b)
        O2 = self.O(i) + bv(cnt, 64)
        c.prove('decoder state stays valid and units never outrun bytes: induction step (UTF-%d)' % self.bits, [z3.ULT(i, z3.BitVecVal(1 << 60, 64)), self.lemma(i)],
                And(utf8.inv(s2), z3.ULE(O2, i + 1), z3.ULE(bv(zext(s2[1], 8, 64), 64), i + 1 - O2)), 'specification')
        c.prove('an ASCII byte is delivered as itself in every state (UTF-%d)' % self.bits, [z3.ULT(b, 0x80)],
                And(*[eqv(x, 0, k) for x, k in zip(s2, (8, 8, 32))], eqv(cnt, 1, 64), eqv(a, zext(b, 8, self.bits), self.bits)), 'specification')


def conv(c, w, bits):
    mod = ir.Module(open(c.build().ir(TU % (bits, bits, w), flags=FLAGS[w])).read())
    v = Verifier(mod, []); v.timeout = 16000
    n, j = z3.BitVecs('n j', 64)
    v.fact(z3.ULT(n, z3.BitVecVal(1 << 60, 64)))
    text = v.reg(v.new_arr('text', 1, n)); T = text.init.a
    out = v.reg(v.new_arr('out', bits // 8, n)); out0 = out.init.a
    sp = Spec(v, T, n, bits, j)
    sp.induction(c)
    v.load_hook = lambda ex, o, i, val, g: sp.unfold(i) if o is text and ex.load_size == 1 else None
    v.block_hook = lambda ex, o, i, k, g: sp.block(i, k, g) if o is text else None
    base = generic(pairs=False)

    def correct(a, O, i):
        x = select(a, j, v, i)
        return (z3.Implies(z3.ULT(j, O), x == sp.W(j)), z3.Implies(z3.UGE(j, O), x == z3.Select(out0, j)))

    def base_of(i):
        return i.arg(1) if i.decl().kind() == z3.Z3_OP_BADD and z3.is_bv_value(i.arg(0)) else i.arg(0) if i.decl().kind() == z3.Z3_OP_BADD and z3.is_bv_value(i.arg(1)) else i

    def hook(ex, info):
        r = list(base(ex, info))
        for nm, I in indices(info, [text]):
            def J(v_, I=I):
                i = bv(I(v_), 64); v.fact(z3.Implies(z3.ULE(i, n), sp.lemma(i)))
                return i
            r.append(('%s within the input' % nm, lambda v_, J=J: z3.ULE(J(v_), n)))
            r.append(('between characters at %s' % nm, lambda v_, J=J: sp.need(J(v_)) == 0))
            r.append(('as many units as bytes at %s' % nm, lambda v_, J=J: sp.O(J(v_)) == J(v_)))
            for c_ in info.cells:
                if c_.kind == 'ptr' and c_.obj is out: r.append(('%s == delivered(%s)' % (c_.name, nm), lambda v_, c_=c_, J=J: eqv(pidx(v_[c_.key], out.es), sp.O(J(v_)), 64)))
                if c_.kind == 'arr' and c_.obj is out: 
                    for q in (0, 1): r.append((('output correct up to delivered(%s)', 'output untouched from delivered(%s) on')[q] % nm, lambda v_, c_=c_, J=J, q=q: correct(v_[c_.key], sp.O(J(v_)), base_of(J(v_)))[q]))
                if c_.kind == 'int' and c_.bits == 32:
                    for fn, f, fb, gd in (('need', sp.need, 8, 0), ('seen', sp.seen, 8, 1), ('acc', sp.acc, 32, 1)):
                        r.append(('%s == %s(%s)' % (c_.name, fn, nm), lambda v_, c_=c_, J=J, f=f, fb=fb, gd=gd: Or(And(bool(gd), sp.need(J(v_)) == 0), eqv(ex.mat(v_[c_.key]), zext(f(J(v_)), fb, 32), 32))))
        return r
    v.loop_hook = hook
    nm = 'convert_utf8_to_utf%d_simd<%d>' % (bits, w)
    r, st = v.call_fn(mod.fn('x_conv'), [Ptr(text), n, Ptr(out)], State(True, {}))
    r = v.mat(r)
    v.oblige('the reported number of units is the number byte-wise conversion delivers', st.g, eqv(r, sp.O(n), 64), fn=nm)
    v.oblige('every unit equals the one byte-wise conversion delivers; the rest of the output is untouched', st.g, And(*correct(v.content(st, out).a, bv(r, 64), None)), fn=nm)
    v.oblige('at most one unit per byte', st.g, cmpop('ule', r, n, 64), fn=nm)
    c.satisfiable(nm + ' precondition', v.facts)
    c.contracts.append(nm); c.discharge(v, timeout=60)


def wrapper(c, tu, fn, bits, w):
    mod = ir.Module(open(c.build().ir('#include <concepts>\n#include "%s"\n' % tu, noinline=[r'convert_utf8_to_utf\d+_simdILm'], flags=FLAGS[w])).read())
    n, R = z3.BitVecs('n R', 64)

    def h(ex, st, name, a, i):
        same_ = lambda p, o: isinstance(p, Ptr) and p.obj is o and p.off.t is None and p.off.c == 0
        ex.oblige('the arguments are passed on unchanged to a conversion of the same kind', st.g, And(same_(a[0], text), eqv(a[1], n, 64), same_(a[2], out), ('utf8_to_utf%d' % bits) in name), 'precondition')
        return R
    v = Verifier(mod, [(re.compile(r'.*convert_utf8_to_utf\d+(_256|_512|_simdILm)'), h), (re.compile(r'.*max_simd_size'), lambda ex, st, name, a, i: fresh('simd', 64))])
    text = v.reg(v.new_arr('text', 1, n)); out = v.reg(v.new_arr('out', bits // 8, n))
    f = [x for x in mod.functions if re.match(fn, x)]
    if len(f) != 1: raise Unsupported('%s not found' % fn)
    r, st = v.call_fn(mod.fn(f[0]), [Ptr(text), n, Ptr(out)], State(True, {}))
    v.oblige('the result is the one of the vector conversion', st.g, eqv(v.mat(r), R, 64), fn=f[0])
    c.contracts.append(f[0]); c.discharge(v)


def native_search(c):
    r = subprocess.run([c.build().exe(SEARCH, CORE, tuflags=('-msse4.1',)), str(c.seed)], capture_output=True, text=True, timeout=150)
    return {'conversion': r.stdout.strip()} if r.returncode == 3 else None


def main(c):
    def search(ch):
        r = native_search(c)
        return r or utf8.U8(c).search(('decoder',))
    c.searcher = search
    jobs = []
    for w in (512, 256, 128):
        for bits in (16, 32): jobs.append(('utf%d %d' % (bits, w), lambda c, w=w, bits=bits: conv(c, w, bits)))
    for bits in (16, 32):
        jobs.append(('dispatch %d' % bits, lambda c, bits=bits: wrapper(c, 'convert.cpp', r'_ZN7unicode6detail21convert_utf8_to_utf%dE' % bits, bits, 128)))
        for w in (256, 512): jobs.append(('wrapper %d %d' % (bits, w), lambda c, bits=bits, w=w: wrapper(c, 'convert%d.cpp' % w, r'_ZN7unicode6detail25convert_utf8_to_utf%d_%dE' % (bits, w), bits, w)))
    c.parallel(jobs)
