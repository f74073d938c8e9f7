"""UTF-16 round trip; whole-string conversions stay inside the input and are standard on well-formed input"""
import re, subprocess
import z3
from engine import ir
from engine.build import CORE
from engine.sym import *
from engine.exec import Verifier
from engine.cands import generic, along, indices
from engine.strings import StringModel, MEMBERS
from . import utf8
from .C02 import units

T = {'8': ('char', 1), '16': ('char16_t', 2), '32': ('char32_t', 4), 'w': ('wchar_t', 4)}
PAIRS = [(a, b) for a in T for b in T]
TU = '''#include <libunicode/convert.h>
#include <new>
using namespace unicode;
extern "C" {
long z_enc(char32_t c, char16_t* p) { return encoder<char16_t>{}(c, p) - p; }
int z_dec(char16_t const* p, long* used, unsigned* v) { auto q = p; auto r = decoder<char16_t>{}(q); *used = q - p; if (r.has_value()) { *v = *r; return 1; } return 0; }
%s}
''' % ''.join('void s_%s_%s(%s const* p, size_t n, std::basic_string<%s>* o) { new (o) std::basic_string<%s>(convert_to<%s>(std::basic_string_view<%s>(p, n))); }\n'
               'void i_%s_%s(%s const* p, size_t n, std::basic_string<%s>* o) { new (o) std::basic_string<%s>(); convert_to<%s>(std::basic_string_view<%s>(p, n), std::back_inserter(*o)); }\n'
               % (a, b, T[a][0], T[b][0], T[b][0], T[b][0], T[a][0], a, b, T[a][0], T[b][0], T[b][0], T[b][0], T[a][0]) for a, b in PAIRS)
NAT = r'''
#include <libunicode/convert.h>
#include <sys/mman.h>
#include <signal.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <random>
#include <vector>
using namespace unicode;
static char what[64]; static std::vector<unsigned> cur;
static void show(char const* w) { printf("FAIL %s %s units=", what, w); for (auto c: cur) printf("%X ", c); printf("\n"); fflush(stdout); _exit(3); }
static void segv(int) { show("reads-outside-the-input"); }
struct Guard { char *lo, *hi; Guard() { long pg = sysconf(_SC_PAGESIZE); char* b = (char*)mmap(0, 4 * pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(b, pg, PROT_NONE); mprotect(b + 3 * pg, pg, PROT_NONE); lo = b + pg; hi = b + 3 * pg; } };
static Guard G;
template <class C> static std::basic_string<C> enc(std::u32string const& t) { std::basic_string<C> o; for (char32_t c: t) {
  if (sizeof(C) == 4) o += C(c);
  else if (sizeof(C) == 2) { if (c < 0x10000) o += C(c); else { o += C(0xD800 + ((c - 0x10000) >> 10)); o += C(0xDC00 + ((c - 0x10000) & 0x3FF)); } }
  else if (c < 0x80) o += C(c); else if (c < 0x800) { o += C(0xC0 | c >> 6); o += C(0x80 | (c & 63)); } else if (c < 0x10000) { o += C(0xE0 | c >> 12); o += C(0x80 | (c >> 6 & 63)); o += C(0x80 | (c & 63)); }
  else { o += C(0xF0 | c >> 18); o += C(0x80 | (c >> 12 & 63)); o += C(0x80 | (c >> 6 & 63)); o += C(0x80 | (c & 63)); } } return o; }
template <class T, class S> static void one(std::basic_string<S> const& s, std::basic_string<T> const* want) {
  snprintf(what, sizeof what, "convert_to u%zu->u%zu", sizeof(S) * 8, sizeof(T) * 8); cur.assign(s.size(), 0); for (size_t i = 0; i < s.size(); ++i) cur[i] = sizeof(S) == 1 ? (unsigned char)s[i] : (unsigned)s[i];
  for (int side = 0; side < 2; ++side) { S* p = side ? (S*)G.hi - s.size() : (S*)G.lo; memset(G.lo, 0x41, 8192); memcpy(p, s.data(), s.size() * sizeof(S));
    if (side == 0 && sizeof(S) == 1 && !want) memset(p + s.size(), 0x80, 16);
    auto r = convert_to<T>(std::basic_string_view<S>(p, s.size())); std::basic_string<T> r2; convert_to<T>(std::basic_string_view<S>(p, s.size()), std::back_inserter(r2));
    if (want && r != *want) show("wrong-result"); if (want && r2 != *want) show("wrong-result (iterator form)");
    if (!want) { static std::basic_string<T> first; if (side == 0) first = r2; else if (first != r2) show("depends-on-memory-outside-the-input"); } } }
template <class S> static void all(std::basic_string<S> const& s) { one<char, S>(s, nullptr); one<char16_t, S>(s, nullptr); one<char32_t, S>(s, nullptr); one<wchar_t, S>(s, nullptr); }
template <class S> static void good(std::u32string const& t) { auto s = enc<S>(t); auto a = enc<char>(t); auto b = enc<char16_t>(t); auto c = enc<char32_t>(t); auto d = enc<wchar_t>(t); one<char, S>(s, &a); one<char16_t, S>(s, &b); one<char32_t, S>(s, &c); one<wchar_t, S>(s, &d); }
int main(int, char** argv) {
  signal(SIGSEGV, segv); signal(SIGBUS, segv); std::mt19937 g(atoi(argv[1])); long iters = atol(argv[2]);
  for (char32_t c = 0; c < 0x110000; ++c) if (c < 0xD800 || c > 0xDFFF) { char16_t b[2]; auto e = encoder<char16_t>{}(c, b); auto w = enc<char16_t>({c}); auto q = b; auto r = decoder<char16_t>{}(q); if (e - b != (long)w.size() || b[0] != w[0] || (w.size() > 1 && b[1] != w[1]) || q != e || !r || *r != c) { strcpy(what, "encoder/decoder<char16_t>"); cur = {(unsigned)c}; show("round-trip"); } }
  for (unsigned a = 0xD7F0; a < 0xE010; ++a) for (unsigned b: {0u, 0x41u, 0xD7FFu, 0xD800u, 0xDBFFu, 0xDC00u, 0xDFFFu, 0xE000u, 0xFFFFu}) { char16_t t[2] = {(char16_t)a, (char16_t)b}; auto q = t; auto r = decoder<char16_t>{}(q); bool hi = a >= 0xD800 && a < 0xDC00, lo = a >= 0xDC00 && a < 0xE000, ok = !lo && (!hi || (b >= 0xDC00 && b < 0xE000)); char32_t w = hi ? 0x10000 + ((a - 0xD800) << 10) + (b - 0xDC00) : a; if (r.has_value() != ok || (ok && *r != w)) { strcpy(what, "decoder<char16_t>"); cur = {a, b}; show("surrogates"); } }
  std::vector<unsigned> edge = {0, 0x41, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x10FFFF, 0x1F600, 0x20AC, 0xE9, 0xFEFF, 0xFFFE};
  for (long it = 0; it < iters; ++it) {
    std::u32string t; size_t n = it % 50 == 0 ? g() % 300 : g() % 8; for (size_t i = 0; i < n; ++i) { unsigned c = g() % 4 ? edge[g() % edge.size()] : g() % 3 ? 0x20 + g() % 90 : g() % 0x110000; if (c >= 0xD800 && c < 0xE000) c = 'x'; t += c; }
    good<char>(t); good<char16_t>(t); good<char32_t>(t); good<wchar_t>(t);
    auto s = enc<char>(t); for (int k = g() % 3; k >= 0; --k) { unsigned op = g() % 3; if (op == 0 && s.size()) s.pop_back(); else if (op == 1) s += (char)("\xC2\xE2\xF0\xFB\xFD\x80\xFF\x82\xED"[g() % 9]); else if (s.size()) s[g() % s.size()] = (char)g(); } all<char>(s);
    auto u = enc<char16_t>(t); for (int k = g() % 3; k >= 0; --k) { unsigned op = g() % 3; if (op == 0 && u.size()) u.pop_back(); else if (op == 1) u += (char16_t)(0xD800 + g() % 0x800); else if (u.size()) u[g() % u.size()] = (char16_t)g(); } all<char16_t>(u);
  }
  printf("ok\n"); return 0; }
'''


def native(c, n):
    r = subprocess.run([c.build().exe(NAT, CORE), str(c.seed), str(n)], capture_output=True, text=True, timeout=150)
    if r.stdout.strip() == 'ok': return None
    return {'conversion': r.stdout.strip() or 'crashed with status %d' % r.returncode}


def lemmas(c, mod):
    cp = z3.BitVec('cp', 32)
    v = Verifier(mod, []); v.fact(zb(utf8.scalar(cp)))
    p = v.reg(v.new_cells('p', 4))
    r, st = v.call_fn(mod.fn('z_enc'), [cp, Ptr(p)], State(True, {}))
    n, a, b = units(cp, True); nm = 'encoder<char16_t>'
    g = [v.load_bytes(st, p, Off(0, None, k), 2, True) for k in (0, 2)]
    v.oblige('one or two units', st.g, eqv(r, n, 64), fn=nm); v.oblige('the first unit is the standard one', st.g, eqv(g[0], a, 16), fn=nm)
    v.oblige('the second unit is the standard one', And(st.g, eqv(n, 2, 64)), eqv(g[1], b, 16), fn=nm)
    c.satisfiable(nm, v.facts); c.contracts.append(nm); c.discharge(v)
    v = Verifier(mod, []); v.fact(zb(utf8.scalar(cp)))
    text = v.reg(v.new_arr('units', 2, bv(n, 64))); used = v.reg(v.new_cells('used', 8)); val = v.reg(v.new_cells('value', 4)); nm = 'decoder<char16_t>'
    v.fact(zb(And(eqv(z3.Select(text.init.a, z3.BitVecVal(0, 64)), a, 16), Or(eqv(n, 1, 64), eqv(z3.Select(text.init.a, z3.BitVecVal(1, 64)), b, 16)))))
    r, st = v.call_fn(mod.fn('z_dec'), [Ptr(text), Ptr(used), Ptr(val)], State(True, {}))
    v.oblige('decoding the encoded value succeeds', st.g, eqv(r, 1, 32), fn=nm); v.oblige('all of it is consumed', st.g, eqv(v.load_bytes(st, used, Off(0, None, 0), 8, True), n, 64), fn=nm)
    v.oblige('the value comes back', st.g, eqv(v.load_bytes(st, val, Off(0, None, 0), 4, True), cp, 32), fn=nm)
    c.satisfiable(nm, v.facts); c.contracts.append(nm); c.discharge(v)
    # any two units: a value exactly when they start with a well-formed character
    v = Verifier(mod, []); two = z3.BitVecVal(2, 64)
    text = v.reg(v.new_arr('units', 2, two)); used = v.reg(v.new_cells('used', 8)); val = v.reg(v.new_cells('value', 4))
    ok, L, x = well_formed(2, lambda k: z3.Select(text.init.a, bv(k, 64)), z3.BitVecVal(0, 64), two)
    r, st = v.call_fn(mod.fn('z_dec'), [Ptr(text), Ptr(used), Ptr(val)], State(True, {}))
    v.oblige('a value is delivered exactly for a well-formed character', st.g, eqv(r, ite(ok, 1, 0, 32), 32), fn=nm)
    v.oblige('the value is the encoded one and its units are consumed', And(st.g, ok), And(eqv(v.load_bytes(st, val, Off(0, None, 0), 4, True), x, 32), eqv(v.load_bytes(st, used, Off(0, None, 0), 8, True), L, 64)), fn=nm)
    c.satisfiable(nm, v.facts); c.discharge(v)


def well_formed(es, sel, i, n):
    """(condition that a well-formed character starts at i, its length, its scalar value)"""
    x = sel(i)
    if es == 4: return And(utf8.scalar(x), z3.ULT(i, n)), z3.BitVecVal(1, 64), x
    one, two, three, four = (z3.BitVecVal(k, 64) for k in (1, 2, 3, 4))
    if es == 2:
        y = sel(i + 1); sur = z3.And(z3.UGE(x, 0xD800), z3.ULE(x, 0xDFFF)); hi = z3.And(sur, z3.ULE(x, 0xDBFF))
        ok = z3.Or(z3.And(z3.Not(sur), z3.ULT(i, n)), z3.And(hi, z3.ULE(z3.BitVecVal(2, 64), n - i), z3.UGE(y, 0xDC00), z3.ULE(y, 0xDFFF)))
        return ok, z3.If(hi, two, one), z3.If(hi, 0x10000 + (z3.ZeroExt(16, x - 0xD800) << 10) + z3.ZeroExt(16, y - 0xDC00), z3.ZeroExt(16, x))
    b = [sel(i + k) if k else x for k in range(4)]; c = [z3.And(z3.UGE(y, 0x80), z3.ULE(y, 0xBF)) for y in b]
    z = [z3.ZeroExt(24, y) for y in b]; f = [y & 0x3F for y in z]
    cp = z3.If(z3.ULT(x, 0x80), z[0], z3.If(z3.ULT(x, 0xE0), (z[0] & 0x1F) << 6 | f[1], z3.If(z3.ULT(x, 0xF0), (z[0] & 0xF) << 12 | f[1] << 6 | f[2], (z[0] & 7) << 18 | f[1] << 12 | f[2] << 6 | f[3])))
    L = z3.If(z3.ULT(x, 0x80), one, z3.If(z3.ULT(x, 0xE0), two, z3.If(z3.ULT(x, 0xF0), three, four)))
    ok = z3.And(z3.Or(z3.ULT(x, 0x80), z3.And(z3.UGE(x, 0xC2), c[1], z3.Or(z3.ULT(x, 0xE0), z3.And(c[2], z3.Or(z3.ULT(x, 0xF0), z3.And(z3.ULE(x, 0xF4), c[3])))))), z3.ULE(L, n - i), z3.ULT(i, n),
                zb(utf8.scalar(cp)), bv(utf8.enc_len(cp), 32) == z3.Extract(31, 0, L))
    return ok, L, cp


def encoded(es, cp):
    """units of the standard encoding: list of (condition, [units])"""
    if es == 4: return [(z3.BoolVal(True), [cp])]
    if es == 2:
        n, a, b = units(cp, True)
        return [(zb(eqv(n, 1, 64)), [bv(a, 16)]), (zb(eqv(n, 2, 64)), [bv(a, 16), bv(b, 16)])]
    return [(zb(eqv(utf8.enc_len(cp), m, 32)), [bv(utf8.enc_byte(cp, m, q), 8) for q in range(m)]) for m in (1, 2, 3, 4)]


def convert(c, mod, form, a, b, wf):
    es, et = T[a][1], T[b][1]
    S = StringModel(); nm = 'convert_to<%s>(%s view%s)%s' % (T[b][0], T[a][0], '' if form == 's' else ', iterator', ' on well-formed input' if wf else ' on any input')
    n = z3.BitVec('n', 64)
    vec = {}

    def simd(ex, st, name, args, i):
        # contract of the vector conversions (C02): at most one unit per byte, the result is a function of the input
        q, k, o = args[:3]
        q = ex.collapse(q) if isinstance(q, PtrIte) else q; o = ex.collapse(o) if isinstance(o, PtrIte) else o
        ex.oblige('the whole input is converted', st.g, And(q.obj is text and eqv(q.off.idx(1), 0, 64), eqv(k, n, 64)), 'pre', name)
        ex.oblige('the conversion is the one to the requested unit type', st.g, ('utf8_to_utf%d' % (8 * et)) in name, 'pre', name)
        if o.obj.kind != 'arr' or not is_c(o.off.idx(et)) or int(o.off.idx(et)): raise Unsupported('conversion into the middle of a string')
        ex.oblige('the output has room for one unit per byte', st.g, cmpop('uge', S.length(ex, st, o.obj), k, 64), 'memory', name)
        AS = z3.ArraySort(BV64, z3.BitVecSort(8 * et))
        R = z3.BitVec('delivered', 64); W = z3.Array('delivered units', BV64, z3.BitVecSort(8 * et))
        ex.fact(z3.ULE(R, n)); vec['r'] = (R, W)
        S.seta(ex, st, o.obj, W)
        return R
    v = Verifier(mod, [(re.compile(r'^_ZN7unicode6detail2\dconvert_utf8_to_utf'), simd)] + S.contracts()); v.timeout = 20000
    v.fact(z3.ULT(n, z3.BitVecVal(1 << 50, 64)))
    text = v.reg(v.new_arr('text', es, n)); out = v.reg(v.new_cells('out', 32)); o = S.back(v, Ptr(out), et)
    A = z3.Function('A', BV64, z3.ArraySort(BV64, z3.BitVecSort(8 * et))); N = z3.Function('N', BV64, BV64); WF = z3.Function('CharacterStart', BV64, z3.BoolSort())
    z = z3.BitVecVal(0, 64)
    if wf:
        v.fact(z3.And(A(z) == o.init.a, N(z) == 0, WF(z)))

        def lh(ex, obj, i, val, g):
            if obj is not text: return
            i = bv(i, 64); sel = lambda k: z3.Select(text.init.a, k)
            if a == b:      # copied unit by unit
                ex.fact(z3.Implies(z3.ULT(i, n), z3.And(WF(i), A(i + 1) == z3.Store(A(i), i, sel(i)), N(i) == i, N(i + 1) == i + 1))); return
            ok, L, cp = well_formed(es, sel, i, n)
            r, cnt = None, None
            for cond, us in encoded(et, cp)[::-1]:
                x = A(i)
                for q, u in enumerate(us): x = z3.Store(x, N(i) + q if q else N(i), u)
                r = x if r is None else z3.If(cond, x, r); cnt = z3.BitVecVal(len(us), 64) if cnt is None else z3.If(cond, z3.BitVecVal(len(us), 64), cnt)
            ex.fact(z3.Implies(z3.And(WF(i), z3.ULT(i, n)), z3.And(zb(ok), WF(i + L), A(i + L) == r, N(i + L) == N(i) + cnt, z3.ULE(N(i), i * 4))))
        v.load_hook = lh

        def extra(ex, info):
            # the string need not change in every loop
            r = []
            for nm_, I in indices(info, [text]):
                def f(w, I=I, q=0):
                    i = bv(I(w), 64); m_ = State(True, w.mem)
                    return eqv(ex.mat(ex.load_bytes(m_, out, Off(0, None, 8), 8, True)), N(i), 64) if q else ex.content(m_, o).a == A(i)
                r += [('string == A(%s)' % nm_, f), ('size == N(%s)' % nm_, lambda w, f=f: f(w, q=1))]
            return r
        v.loop_hook = along([text], invs=[('CharacterStart', lambda w, i: WF(bv(i, 64)))], eqs=[('N', N, 64)], arrs=[('A', o, A)], base=generic(extra=extra))
    else:
        v.loop_hook = along([text], base=generic())
    r, st = v.call_fn(mod.fn('%s_%s_%s' % (form, a, b)), [Ptr(text), n, Ptr(out)], State(True, {}))
    oo, x, m = S.get(v, st, Ptr(out), et)
    if vec:
        R, W = vec['r']
        v.oblige('the result has as many units as the conversion delivers', st.g, eqv(m, z3.If(n == 0, z, R), 64), fn=nm)
        v.oblige('the result consists of the units the conversion delivers', And(st.g, n != 0), x == W, fn=nm)
    elif wf:
        v.oblige('the result has the length of the standard encoding', st.g, eqv(m, N(n), 64), fn=nm)
        v.oblige('the result is the standard encoding of the same scalar values', st.g, x == A(n), fn=nm)
    c.satisfiable(nm, v.facts + [n == 4]); c.contracts.append(nm); c.discharge(v, timeout=60)
    if wf and a == '8' and not vec:
        i = z3.BitVec('i', 64); k = z3.BitVec('k', 64); L = z3.BitVec('L', 64)
        c.prove('an encoding never takes more than four units per unit: induction step', [z3.ULT(i, n), z3.ULT(n, z3.BitVecVal(1 << 50, 64)), z3.ULE(N(i), i * 4), z3.ULE(k, 4), z3.UGE(L, 1), z3.ULE(L, 4)], z3.ULE(N(i) + k, (i + L) * 4), 'specification')


def main(c):
    B = c.build()
    st = [MEMBERS]
    mod = ir.Module(open(B.ir(TU, noinline=st, strip=st)).read())
    c.searcher = lambda ch: native(c, 60000)
    c.assumptions += ['the vector conversions behind convert_to<char16_t/char32_t>(string_view) satisfy the contract proved in C02 (byte-wise decoding, at most one unit per byte)', 'std::basic_string members behave as the standard says; allocation succeeds',
                      'input shorter than 2^50 units', 'wchar_t is 32 bits wide, as on this platform']
    jobs = [('lemmas', lambda c: lemmas(c, mod))]
    for form in 'si':
        for a, b in PAIRS:
            for wf in (True, False):
                if wf and form == 's' and a == '8' and b in ('16', '32'): continue
                jobs.append(('%s %s %s %s' % (form, a, b, 'wf' if wf else 'any'), lambda c, form=form, a=a, b=b, wf=wf: convert(c, mod, form, a, b, wf)))

    def nat(c):
        k = 300000 if c.tier == 'thorough' else 20000
        r = native(c, k)
        c.bounded.append('native comparison of every conversion with the standard encodings on %d pseudo-random strings placed against guard pages (backstop, not counted as proof)' % k)
        if r: c.hints.append(r); c.failed.append(('native comparison', str(r)[:300]))
    c.parallel(jobs + [('native', nat)])
