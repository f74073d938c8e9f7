"""iterating the clusters of a byte string equals decoding it and segmenting the code points"""
import ctypes, re, subprocess
import z3
from engine import ir
from engine.build import CORE
from engine.sym import *
from engine.exec import Verifier
from engine.cands import generic, indices, pidx
from engine.strings import StringModel, MEMBERS
from engine.props import Props
from . import utf8
from .seg import *
from .partition import ptr_at, pidx_of

INIT = r'^_ZN7unicode21grapheme_process_initEDi'
STEP = r'^_ZN7unicode26grapheme_process_breakableEDi'
TU = '''#include "utf8.cpp"
#include <libunicode/utf8_grapheme_segmenter.h>
#include <new>
#include <cstddef>
using namespace unicode; using I = utf8_grapheme_segmenter::iterator;
extern "C" {
unsigned z_size() { return sizeof(I); }
unsigned z_ssize() { return sizeof(grapheme_segmenter_state); }
unsigned z_off(int k) { switch (k) {
 case 0: return offsetof(I, _clusterStart); case 1: return offsetof(I, _nextCodepointStart); case 2: return offsetof(I, _nextUtf8); case 3: return offsetof(I, _end);
 case 4: return offsetof(I, _utf8_decoder_state); case 5: return offsetof(I, _nextCodepoint); case 6: return offsetof(I, _cluster); case 7: return offsetof(I, _segmenter_state);
 case 8: return offsetof(utf8_decoder_state, expectedLength); case 9: return offsetof(utf8_decoder_state, currentLength); case 10: return offsetof(utf8_decoder_state, character); }
 return 0; }
void z_begin(char const* p, size_t n, I* o) { new (o) I(utf8_grapheme_segmenter(std::string_view(p, n)).begin()); }
void z_end(char const* p, size_t n, I* o) { new (o) I(utf8_grapheme_segmenter(std::string_view(p, n)).end()); }
void z_inc(I* o) { ++*o; }
void z_post(I* o, I* r) { new (r) I((*o)++); }
char32_t const* z_ptr(I const* o) { return (**o).data(); }
size_t z_len(I const* o) { return (**o).size(); }
char32_t const* z_vptr(I const* o) { return o->value().data(); }
size_t z_vlen(I const* o) { return o->value().size(); }
bool z_eq(I const* o, I const* p) { return *o == *p; }
bool z_ne(I const* o, I const* p) { return *o != *p; }
}
'''
NAT = r'''
#include <libunicode/utf8_grapheme_segmenter.h>
#include <libunicode/grapheme_segmenter.h>
#include <sys/mman.h>
#include <csignal>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <random>
#include <unistd.h>
#include <vector>
using namespace unicode;
static std::string t;
static void show(char const* w, long a, long b) { printf("FAIL %s cluster=%ld expected=%ld bytes=", w, a, b); for (unsigned char c: t) printf("%02X", c); printf("\n"); fflush(stdout); _exit(3); }
static void segv(int) { show("crash or read outside the text", 0, 0); }
static std::u32string decode(std::string const& s) {
  std::u32string r; unsigned need = 0, seen = 0; char32_t acc = 0; bool pend = false;
  for (unsigned char b: s) {
    bool lead = b >= 0xC0 && b < 0xF8; pend = false;
    if (b < 0x80) { r += b; need = 0; }
    else if (b >= 0xF8) { r += 0xFFFD; need = 0; }
    else if (lead) { if (need) r += 0xFFFD; else pend = true; need = b < 0xE0 ? 2 : b < 0xF0 ? 3 : 4; seen = 1; acc = b & (b < 0xE0 ? 0x1F : b < 0xF0 ? 15 : 7); }
    else if (!need) r += 0xFFFD;
    else { acc = acc << 6 | (b & 63); if (++seen == need) { r += acc; need = 0; } else pend = true; } }
  if (pend) r += 0xFFFD;
  return r; }
int main(int, char** argv) {
  signal(SIGSEGV, segv); signal(SIGABRT, segv);
  std::mt19937 g(atoi(argv[1])); long iters = atol(argv[2]); long pg = 4096 * 4;
  char* page = (char*) mmap(nullptr, pg + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(page + pg, 4096, PROT_NONE);
  std::vector<std::string> pool = {"a", "e\xCC\x81", "\xCC\x81", "\r", "\n", "\r\n", "\xF0\x9F\x91\xA8", "\xE2\x80\x8D", "\xF0\x9F\x91\xA9", "\xEF\xB8\x8F", "\xF0\x9F\x87\xA6", "\xE0\xA4\x95", "\xE0\xA5\x8D", "\xE1\x84\x80", "\xE1\x85\xA1", "\xEA\xB0\x80", "\xD8\x80", "\xE2\x82", "\xF0\x9F\x91", "\xF0", "\x80", "\xFF", "\xC3", "\xED\xA0\x80", "\xE4\xB8\x80", std::string(1, '\0'), "\xEF\xBF\xBD", "\xF4\x8F\xBF\xBF", "\xF5\x80\x80\x80", "\xC0\x80"};
  for (long it = 0; it < iters; ++it) {
    t.clear(); size_t n = it % 199 == 0 ? g() % 500 : g() % 9; bool rep = g() % 16 == 0; auto& w = pool[g() % pool.size()];
    for (size_t i = 0; i < n; ++i) { if (rep && g() % 8) t += w; else if (g() % 8) t += pool[g() % pool.size()]; else t += char(g() % 256); }
    if (t.size() > (size_t) pg) t.resize(pg);
    char* p = page + pg - t.size(); memcpy(p, t.data(), t.size()); std::string_view sv(p, t.size());
    auto cp = decode(t); std::vector<std::u32string> want; size_t pos = 0;
    if (!cp.empty()) { grapheme_segmenter s(cp); while (true) { auto c = *s; want.emplace_back(c); pos += c.size(); if (!s.codepointsAvailable()) break; ++s; } if (pos != cp.size()) continue; }
    utf8_grapheme_segmenter u(sv); size_t k = 0; auto i = u.begin(), e = u.end();
    for (; i != e; ) { if (k >= want.size()) show("more clusters than expected", k, want.size()); if (*i != want[k] || i.value() != want[k]) show("cluster contents", k, k); ++k; if (k % 3 == 0) { auto o = i++; if (*o != want[k - 1]) show("post-increment value", k - 1, k - 1); } else ++i; }
    if (k != want.size()) show("fewer clusters than expected", k, want.size());
    if (!(i == e)) show("end comparison", k, k);
    auto copy = u.begin(); if (!want.empty()) { auto c2 = copy; ++c2; if (copy == c2) show("distinct positions compare equal", 0, 1); if (*copy != want[0]) show("copies share state", 0, 0); }
  }
  printf("ok\n"); return 0; }
'''


def native(c, n):
    r = subprocess.run([c.build().exe(NAT, CORE), str(c.seed), str(n)], capture_output=True, text=True, timeout=150)
    if r.stdout.strip() == 'ok': return None
    return {'utf8_grapheme_segmenter': r.stdout.strip() or 'crashed with status %d' % r.returncode}


class Proof:
    def __init__(self, c, mod, so, props, M):
        self.c, self.mod, self.so, self.props = c, mod, so, props
        self.fresh0, self.pad = bytes(M.native['construct'](0)), M.pad
        names = ('left', 'next', 'read', 'end', 'dec', 'cp', 'cluster', 'seg', 'need', 'seen', 'acc')
        self.at = {k: so.z_off(i) for i, k in enumerate(names)}
        for k in ('need', 'seen', 'acc'): self.at[k] += self.at['dec']
        self.size, self.ssize = so.z_size(), so.z_ssize()

    def env(self):
        B = z3.BitVecSort
        S = self.SB = 8 * self.ssize
        self.v = v = Verifier(self.mod, [])
        self.n = n = z3.BitVec('n', 64); v.fact(z3.ULT(n, z3.BitVecVal(1 << 60, 64)))
        self.text = text = v.reg(v.new_arr('text', 1, n)); self.T = T = text.init.a
        self.need = z3.Function('need', B(64), B(8)); self.seen = z3.Function('seen', B(64), B(8)); self.acc = z3.Function('acc', B(64), B(32))
        self.K = z3.Function('Delivered', B(64), B(64)); self.CP = z3.Function('CodePoint', B(64), B(32)); self.P = z3.Function('Unfinished', B(64), z3.BoolSort())
        self.Rp = z3.Function('StateAfter', B(S), B(64), z3.BoolSort()); self.Brk = z3.Function('Boundary', B(64), z3.BoolSort())
        z = z3.BitVecVal(0, 64)
        self.N = z3.If(self.P(n), self.K(n) + 1, self.K(n))
        for f in (self.need(z) == 0, self.seen(z) == 0, self.acc(z) == 0, self.K(z) == 0, z3.Not(self.P(z)), self.Brk(z), z3.Implies(self.P(n), self.CP(self.K(n)) == 0xFFFD), self.K(n) <= n): v.fact(f)
        v.fact(self.lemma(n))
        self.k0, self.j0 = z3.BitVecs('k0 j0', 64)
        v.load_hook = lambda ex, o, i, val, g: self.unfold(i) if o is text else None
        self.S = StringModel()
        v.contracts = [self.props.get_contract(), (re.compile(INIT), self.hinit), (re.compile(STEP), self.hstep)] + self.S.contracts()
        v.loop_hook = generic(extra=self.extra, pairs=False)
        self.entry = z          # index of the code point the running operation starts its cluster with
        return v

    def s(self, i): return self.need(i), self.seen(i), self.acc(i)

    def unfold(self, i):
        i = bv(i, 64)
        out, val, s2 = utf8.step(self.s(i), z3.Select(self.T, i))
        d = Not(eqv(out, 1, 8))
        f = And(*[eqv(x(i + 1), y, w) for x, y, w in zip((self.need, self.seen, self.acc), s2, (8, 8, 32))],
                self.K(i + 1) == z3.If(zb(d), self.K(i) + 1, self.K(i)), self.P(i + 1) == Not(d),
                Implies(d, eqv(self.CP(self.K(i)), ite(eqv(out, 2, 8), val, 0xFFFD, 32), 32)))
        self.v.fact(z3.Implies(z3.ULT(i, self.n), z3.And(zb(f), self.lemma(i), self.lemma(i + 1))))

    def lemma(self, i):
        """by induction over the positions: the decoder state is valid; no more code points than bytes; delivery never decreases"""
        return z3.And(zb(utf8.inv(self.s(i))), z3.ULE(self.K(i), i), z3.Implies(z3.ULE(i, self.n), z3.ULE(self.K(i), self.K(self.n))))

    def induction(self):
        v = self.env(); i = z3.BitVec('i', 64); b = z3.BitVec('b', 8)
        out, val, s2 = utf8.step(self.s(i), b); K2 = z3.If(zb(Not(eqv(out, 1, 8))), self.K(i) + 1, self.K(i))
        self.c.prove('the decoder state stays valid, code points never outrun bytes and never become fewer: induction step',
                     [z3.ULT(i, z3.BitVecVal(1 << 60, 64)), utf8.inv(self.s(i)), z3.ULE(self.K(i), i)], And(utf8.inv(s2), z3.ULE(K2, i + 1), z3.ULE(self.K(i), K2)), 'specification')

    # ------------------------------------------------------------ break machine by contract
    def machine(self, ex, st, cp, p, first, name):
        size = bv(self.field(ex, st, self.o, self.at['cluster'] + 8, 8), 64)
        k = self.entry + size - (1 if first else 0)
        ex.oblige('the break machine is given the next code point of the decoded text', st.g, eqv(cp, self.CP(k), 32), 'pre', name)
        s = bv(ex.mat(ex.load_bytes(st, p.obj, p.off, self.ssize, True)), self.SB)
        return k, s

    def put(self, ex, st, p, k):
        x = fresh('state', self.SB)
        ex.store_bytes(st, p.obj, p.off, self.ssize, x, st.g)
        ex.fact(Implies(st.g, self.Rp(bv(x, self.SB), k)))

    def hinit(self, ex, st, name, a, i):
        k, s = self.machine(ex, st, a[0], a[1], True, name)
        freshs = And(*[eqv(extract(s, 8 * q + 7, 8 * q, self.SB), self.fresh0[q], 8) for q in range(self.ssize) if q not in self.pad])
        ex.oblige('the machine is (re)started at the beginning of the text or at a boundary it has reported', st.g, Or(And(eqv(k, 0, 64), freshs), And(self.Brk(k), self.Rp(s, k), Not(eqv(k, 0, 64)))), 'pre', name)
        self.put(ex, st, a[1], k)

    def hstep(self, ex, st, name, a, i):
        k, s = self.machine(ex, st, a[0], a[1], False, name)
        ex.oblige('the machine is stepped with the code point following the last one', st.g, And(Not(eqv(k, 0, 64)), self.Rp(s, k - 1)), 'pre', name)
        self.put(ex, st, a[1], k)
        return self.Brk(k)

    # ------------------------------------------------------------ representation
    def field(self, ex, st, o, off, size):
        return ex.mat(ex.load_bytes(st, o, Off(0, None, off), size, True))

    def ptr(self, ex, st, o, what): return ex.load1(st, Ptr(o, Off(0, None, self.at[what])), ir.PTR, True)

    def decrel(self, ex, st, o, u):
        e, c, a = [bv(self.field(ex, st, o, self.at[k], 4), 32) for k in ('need', 'seen', 'acc')]
        return And(eqv(e, zext(self.need(u), 8, 32), 32), Or(self.need(u) == 0, And(eqv(c, zext(self.seen(u), 8, 32), 32), eqv(a, self.acc(u), 32))))

    def lookahead(self, x, p, u):
        """code point x, starting at byte p, has been decoded up to byte u"""
        n, K = self.n, self.K
        return z3.And(z3.ULE(p, u), z3.ULE(u, n), z3.Or(p == n, z3.Not(self.P(p))),
                      z3.If(p == n, u == n, z3.And(x == self.CP(K(p)), z3.ULT(p, u), z3.If(self.P(u), z3.And(u == n, K(n) == K(p)), K(u) == K(p) + 1))))

    def rep(self, ex, st, o, kc):
        """class invariant with the cluster starting at code point kc; list of (what, condition)"""
        n, K = self.n, self.K
        l, p, u, e = [pidx_of(ex, self.ptr(ex, st, o, x), self.text) for x in ('left', 'next', 'read', 'end')]
        x = bv(self.field(ex, st, o, self.at['cp'], 4), 32)
        q, A, size = self.S.get(ex, st, Ptr(o, Off(0, None, self.at['cluster'])), 4); size = bv(size, 64)
        s = bv(self.field(ex, st, o, self.at['seg'], self.ssize), self.SB)
        kn = K(p)
        N = self.N
        pos = z3.If(p == n, N, kn)      # index of the code point after the cluster
        return [('the end of the text is kept', e == n),
                ('the positions lie inside the text', z3.And(z3.ULE(l, p), z3.ULE(p, n), z3.ULE(u, n))),
                ('the cluster starts at a code point', z3.And(z3.Or(l == n, z3.Not(self.P(l))), z3.If(l == n, kc == N, z3.And(K(l) == kc, z3.ULT(kc, N))))),
                ('the look-ahead code point is the one after the cluster', self.lookahead(x, p, u)),
                ('the decoder has consumed the bytes up to the read position', self.decrel(ex, st, o, u)),
                ('the cluster is not empty before the end', z3.If(l == n, size == 0, size != 0)),
                ('the cluster ends where the look-ahead starts', pos == kc + size),
                ('the code points of the cluster are those of the decoded text', z3.Implies(z3.ULT(self.j0, size), z3.Select(A, self.j0) == self.CP(kc + self.j0))),
                ('there is no boundary inside the cluster', z3.Implies(z3.And(z3.ULT(kc, self.k0), z3.ULT(self.k0, kc + size)), z3.Not(self.Brk(self.k0)))),
                ('the cluster ends at a boundary or at the end of the text', z3.Or(p == n, z3.And(self.Brk(kn), self.Rp(s, kn))))]

    def extra(self, ex, info):
        out = []; o = self.o; n, K = self.n, self.K
        def St(w): return State(True, w.mem)
        def mp(w, what): return pidx_of(ex, self.ptr(ex, St(w), o, what), self.text)
        def size(w): return bv(self.field(ex, St(w), o, self.at['cluster'] + 8, 8), 64)
        def chars(w): return ex.content(St(w), self.S.back(ex, Ptr(o, Off(0, None, self.at['cluster'])), 4)).a
        def near(w, I):
            i = bv(I(w), 64); ex.fact(z3.Implies(z3.ULE(i, n), self.lemma(i))); return i
        ix = [(nm, lambda w, I=I: near(w, I)) for nm, I in indices(info, [self.text])]
        ix = [x for x in ix if True]
        ints = [x for x in info.cells if x.kind == 'int' and x.bits == 32]
        ps = ix + [('next', lambda w: mp(w, 'next'))]
        us = ix + [('read', lambda w: mp(w, 'read'))]
        for nm, U in us:
            out.append(('decoded up to %s' % nm, lambda w, U=U: self.decrel(ex, St(w), o, U(w))))
            for f, fb, gd in ((self.need, 8, 0), (self.seen, 8, 1), (self.acc, 32, 1)):
                for x in ints: out.append(('%s == %s(%s)' % (x.name, f.name(), nm), lambda w, x=x, U=U, f=f, fb=fb, gd=gd: Or(And(bool(gd), self.need(U(w)) == 0), eqv(ex.mat(w[x.key]), zext(f(U(w)), fb, 32), 32))))
            out.append(('%s within the text' % nm, lambda w, U=U: z3.ULE(U(w), n)))
            for pn, P in ps:
                if pn == nm: continue
                out.append(('%s <= %s' % (pn, nm), lambda w, U=U, P=P: z3.ULE(P(w), U(w))))
                out.append(('nothing delivered between %s and %s' % (pn, nm), lambda w, U=U, P=P: z3.And(K(U(w)) == K(P(w)), z3.Or(U(w) == P(w), self.P(U(w))))))
                for xn, X in [(x.name, (lambda w, x=x: bv(ex.mat(w[x.key]), 32))) for x in ints] + [('cp', lambda w: bv(self.field(ex, St(w), o, self.at['cp'], 4), 32))]:
                    out.append(('%s is the code point from %s to %s' % (xn, pn, nm), lambda w, U=U, P=P, X=X: self.lookahead(X(w), P(w), U(w))))
        ke = self.entry
        for pn, P in ps:
            pos = lambda w, P=P: z3.If(P(w) == n, self.N, K(P(w)))
            out.append(('%s starts a code point' % pn, lambda w, P=P: z3.Or(P(w) == n, z3.Not(self.P(P(w))))))
            out.append(('the cluster ends at %s' % pn, lambda w, pos=pos: z3.And(pos(w) == ke + size(w))))
            out.append(('the cluster is not empty at %s' % pn, lambda w: size(w) != 0))
            out.append(('no boundary inside up to %s' % pn, lambda w, pos=pos: z3.Implies(z3.And(z3.ULT(ke, self.k0), z3.ULT(self.k0, pos(w))), z3.Not(self.Brk(self.k0)))))
            out.append(('%s after the cluster start' % pn, lambda w, P=P: z3.ULE(mp(w, 'left'), P(w))))
        def seg(w): return bv(self.field(ex, St(w), o, self.at['seg'], self.ssize), self.SB)
        out.append(('the machine has seen the cluster', lambda w: self.Rp(seg(w), ke + size(w) - 1)))
        out.append(('the machine has seen everything before the cluster', lambda w: z3.Or(ke == 0, z3.And(self.Brk(ke), self.Rp(seg(w), ke)))))
        out.append(('the cluster holds the code points of the decoded text', lambda w: z3.Implies(z3.ULT(self.j0, size(w)), z3.Select(chars(w), self.j0) == self.CP(ke + self.j0))))
        return out

    def object(self, name):
        v = self.v; o = v.reg(v.new_cells(name, self.size))
        l, p, u = [z3.BitVec('%s.%s' % (name, x), 64) for x in ('l', 'p', 'u')]; size = z3.BitVec(name + '.size', 64)
        back = self.S.back(v, Ptr(o, Off(0, None, self.at['cluster'])), 4)
        o.cinit = {self.at['left']: (Ptr(self.text, Off(1, l, 0)), 8), self.at['next']: (Ptr(self.text, Off(1, p, 0)), 8), self.at['read']: (Ptr(self.text, Off(1, u, 0)), 8),
                   self.at['end']: (Ptr(self.text, Off(1, self.n, 0)), 8), self.at['cluster']: (Ptr(back), 8), self.at['cluster'] + 8: (size, 8), self.at['seg']: (z3.BitVec(name + '.state', self.SB), self.ssize),
                   0: (Ptr(self.text), 8)}
        self.o = o
        v.fact(z3.ULT(size, z3.BitVecVal(1 << 60, 64)))
        for x in (l, p, u): v.fact(z3.Implies(z3.ULE(x, self.n), self.lemma(x)))
        kc = z3.BitVec(name + '.cluster', 64)
        for w, f in self.rep(v, State(True, {}), o, kc): v.fact(f)
        return o, l, p, kc, size

    def post(self, st, o, kc, what):
        v = self.v
        q, A, size = self.S.get(v, st, Ptr(o, Off(0, None, self.at['cluster'])), 4); size = bv(size, 64)
        for w, f in self.rep(v, st, o, kc): v.oblige('%s: %s' % (what, w), st.g, f, fn=what)
        l = pidx_of(v, self.ptr(v, st, o, 'left'), self.text)
        v.oblige('%s: the cluster is empty exactly at the end of the decoded text' % what, st.g, And(eqv(size == 0, kc == self.N, 1), eqv(l == self.n, kc == self.N, 1)), fn=what)
        v.oblige('%s: the cluster ends at a boundary or at the end of the decoded text' % what, st.g, Or(kc + size == self.N, self.Brk(kc + size)), fn=what)

    def prove(self):
        c = self.c; C = 'utf8_grapheme_segmenter::iterator'
        self.induction()
        v = self.env(); self.o = v.reg(v.new_cells('iterator', self.size))
        r, st = v.call_fn(self.mod.fn('z_begin'), [Ptr(self.text), self.n, Ptr(self.o)], State(True, {}))
        self.post(st, self.o, self.entry, 'begin()')
        c.satisfiable('begin()', v.facts); c.discharge(v, timeout=60)
        v = self.env(); o, l, p, kc, size = self.object('iterator'); self.entry = kc + size
        r, st = v.call_fn(self.mod.fn('z_inc'), [Ptr(o)], State(True, {}))
        self.post(st, o, kc + size, 'operator++')
        c.satisfiable('operator++', v.facts + [z3.UGT(self.n, 3), l != self.n, p != self.n]); c.discharge(v, timeout=60)
        v = self.env(); o, l, p, kc, size = self.object('iterator'); self.entry = kc + size
        ret = v.reg(v.new_cells('result', self.size)); A0 = self.S.back(v, Ptr(o, Off(0, None, self.at['cluster'])), 4).init.a
        r, st = v.call_fn(self.mod.fn('z_post'), [Ptr(o), Ptr(ret)], State(True, {}))
        self.post(st, o, kc + size, 'operator++(int)')
        q, A, sz = self.S.get(v, st, Ptr(ret, Off(0, None, self.at['cluster'])), 4)
        v.oblige('operator++(int) returns the previous position with its cluster', st.g, And(eqv(sz, size, 64), z3.Implies(z3.ULT(self.j0, size), z3.Select(A, self.j0) == z3.Select(A0, self.j0)), ptr_at(v, self.ptr(v, st, ret, 'left'), self.text, l)), fn='operator++(int)')
        c.satisfiable('operator++(int)', v.facts); c.discharge(v, timeout=60)
        # observers and comparison
        v = self.env(); o, l, p, kc, size = self.object('iterator'); a = o; l1, k1 = l, kc
        for f, g in (('z_ptr', 'z_len'), ('z_vptr', 'z_vlen')):
            r, st = v.call_fn(self.mod.fn(f), [Ptr(a)], State(True, {}))
            v.oblige('the reported cluster is the stored one', st.g, ptr_at(v, r, self.S.back(v, Ptr(a, Off(0, None, self.at['cluster'])), 4), 0), fn='operator*')
            r, st = v.call_fn(self.mod.fn(g), [Ptr(a)], State(True, {}))
            v.oblige('the reported cluster has the stored size', st.g, eqv(r, size, 64), fn='operator*')
        e = v.reg(v.new_cells('end', self.size))
        r, st = v.call_fn(self.mod.fn('z_end'), [Ptr(self.text), self.n, Ptr(e)], State(True, {}))
        r, st2 = v.call_fn(self.mod.fn('z_eq'), [Ptr(a), Ptr(e)], st)
        v.oblige('equal to end() exactly when every code point has been delivered', st2.g, eqv(r, kc == self.N, 1), fn='operator==')
        r, st2 = v.call_fn(self.mod.fn('z_ne'), [Ptr(a), Ptr(e)], st)
        v.oblige('different from end() exactly when code points are left', st2.g, eqv(r, kc != self.N, 1), fn='operator!=')
        c.discharge(v, timeout=60)
        c.contracts += [C + '::' + x for x in ('iterator', 'consumeCodepoint', 'consumeGraphemeCluster', 'operator++', 'operator++(int)', 'operator*', 'value', 'operator==', 'operator!=')] + ['utf8_grapheme_segmenter::begin', 'utf8_grapheme_segmenter::end']


def main(c):
    B = c.build()
    st = [MEMBERS, INIT, STEP, 'codepoint_properties3getE']
    p = Props(c); M = grapheme_machine(c, p); M.build()
    mod = ir.Module(open(B.ir(TU, noinline=st, strip=st)).read())
    so = ctypes.CDLL(B.so(TU, [s for s in CORE if "utf8.cpp" not in s]))
    c.searcher = lambda ch: native(c, 300000)
    c.assumptions += ['grapheme_process_init and grapheme_process_breakable decide the UAX #29 boundary before a code point from the state after the previous one (C05)', 'std::basic_string by contract: allocation succeeds']

    def nat(c):
        k = 1000000 if c.tier == 'thorough' else 100000
        r = native(c, k)
        c.bounded.append('native comparison with decoding and grapheme_segmenter on %d pseudo-random byte strings in front of a guard page (backstop, not counted as proof)' % k)
        if r: c.hints.append(r); c.failed.append(('native comparison', str(r)[:300]))
    c.parallel([('iterator', lambda c: Proof(c, mod, so, p, M).prove()), ('decoder', lambda c: utf8.U8(c).step_contract('from_utf8')), ('native', nat)])
