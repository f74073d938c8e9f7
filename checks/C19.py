"""emoji segmentation partitions the text; every scan takes the longest match of the emoji presentation grammar"""
import ctypes, random, re
import numpy as np
import z3
from oracle import emoji
from engine import ir
from engine.sym import *
from engine.exec import Verifier
from engine.cands import generic
from engine.props import Props
from .tables import N

STD = ''.join('#include <%s>\n' % x for x in 'algorithm array cassert cstddef cstdint cstring functional iterator map memory new optional ostream span sstream string string_view tuple type_traits utility variant vector format iostream'.split())
TU = STD + '''#define private public
#include "emoji_segmenter.cpp"
#undef private
using namespace unicode; using ES = emoji_segmenter;
extern "C" {
unsigned z_off(int k) { switch (k) { case 0: return sizeof(ES); case 1: return offsetof(ES, buffer_); case 2: return offsetof(ES, size_); case 3: return offsetof(ES, currentCursorBegin_); case 4: return offsetof(ES, currentCursorEnd_);
 case 5: return offsetof(ES, nextCursorBegin_); case 6: return offsetof(ES, isEmoji_); case 7: return offsetof(ES, isNextEmoji_); case 8: return sizeof(PresentationStyle); case 9: return (unsigned) PresentationStyle::Emoji; case 10: return (unsigned) PresentationStyle::Text;
 case 11: return sizeof(RagelIterator); } return 0; }
void n_iterator(unsigned char* o, size_t b, size_t n, size_t c) { RagelIterator x(reinterpret_cast<char32_t const*>(b), n, c); std::memcpy(o, &x, sizeof x); }
size_t z_scan(char32_t const* b, size_t n, size_t i, bool* e) { return scan_emoji_presentation(RagelIterator(b, n, i), RagelIterator(b, n, n), e).cursor(); }
size_t z_once(ES* o) { return o->consume_once(); }
void z_ctor(ES* o, char32_t const* p, size_t n) { new (o) ES(p, n); }
void z_view(ES* o, char32_t const* p, size_t n) { new (o) ES(std::u32string_view(p, n)); }
void z_default(ES* o) { new (o) ES(); }
bool z_consume(ES* o, size_t* n, PresentationStyle* s) { return o->consume(out<size_t>(*n), out<PresentationStyle>(*s)); }
void z_substr(ES const* o, char32_t const** p, size_t* n, bool* e, bool* t) { auto x = o->substr(); *p = x.data(); *n = x.size(); *e = o->isEmoji(); *t = o->isText(); }
void z_deref(ES const* o, char32_t const** p, size_t* n, bool* e, bool* t) { auto x = **o; *p = x.data(); *n = x.size(); *e = o->isEmoji(); *t = o->isText(); }
}
'''
NAT = '''
extern "C" void n_cat(signed char* o) { for (unsigned c = 0; c < 0x110000; ++c) o[c] = (signed char) codepoint_properties::get(c).emoji_segmentation_category; }
extern "C" int n_enum(int k) { using E = EmojiSegmentationCategory; switch (k) { %s } return 99; }
extern "C" unsigned n_run(unsigned const* s, unsigned n, unsigned* b, unsigned* e, unsigned* st, unsigned cap) { ES x((char32_t const*)s, n); unsigned k = 0; while (k < cap) { size_t z = 0; PresentationStyle p {}; if (!x.consume(out<size_t>(z), out<PresentationStyle>(p))) break; b[k] = (unsigned) (x.substr().data() - (char32_t const*) s); e[k] = z; st[k++] = p == PresentationStyle::Emoji; } return k; }
''' % ' '.join('case %d: return (int) E::%s;' % (v, k) for k, v in emoji.CATS.items())
SCAN, ONCE, GET = r'^_ZN7unicode12_GLOBAL__N_1\d+scan_emoji_presentation', r'^_ZN7unicode15emoji_segmenter12consume_onceEv$', 'codepoint_properties3getE'
PIPE = 'cgscc(inline),function(sroa,early-cse,instcombine,simplifycfg,sroa,early-cse,lowerswitch,fix-irreducible,simplifycfg,lowerswitch,loop-simplify,lcssa)'
BV64 = z3.BitVecSort(64)
K = lambda x: z3.BitVecVal(x, 64)


class Proof:
    def __init__(self, c, so):
        self.c, self.so = c, so
        o = [so.z_off(i) for i in range(12)]
        raw = (ctypes.c_ubyte * 128)(); vals = (0x1122334455667788, 0x1020304050607080, 0x2030405060708090)
        so.n_iterator(raw, *[ctypes.c_size_t(x) for x in vals]); raw = bytes(raw[:o[11]])
        at = [raw.find(x.to_bytes(8, 'little')) for x in vals]
        free = [k for k in range(o[11]) if raw[k] == 0xFF and not any(a <= k < a + 8 for a in at)]
        if min(at) < 0 or not free: raise Unsupported('layout of the scanner iterator')
        o += [free[0]] + at
        (self.size, self.buf, self.len, self.b, self.e, self.nx, self.is_, self.isn, self.ps, self.E, self.T, self.itn, self.icat, self.ibuf, self.isz, self.icur) = o
        self.props = Props(c); self.off = self.props.off['emoji_segmentation_category']
        self.Cat = z3.Function('Category', z3.BitVecSort(32), z3.BitVecSort(8))

    def category(self, cp): return self.Cat(bv(cp, 32))

    def get(self):
        """contract of codepoint_properties::get: a record whose category is one of the enumerated ones (ground)"""
        def f(ex, st, name, args, i):
            x = self.category(args[-1]); ex.fact(z3.ULE(x + 1, 16))
            r = z3.Concat(*[x if k == self.off else fresh('property', 8) for k in range(10, -1, -1)])
            if len(args) == 2: ex.store(st, args[0], extract(r, 63, 0, 88), ir.I(64)); ex.store(st, Ptr(args[0].obj, args[0].off.addc(8)), extract(r, 87, 64, 88), ir.I(24)); return None
            if i.ty.k == 'struct': return [extract(r, 63, 0, 88), zext(extract(r, 87, 64, 88), 24, i.ty.e[1].n)]
            raise Unsupported('shape of codepoint_properties::get')
        return re.compile('_ZN7unicode20' + GET), f

    # ------------------------------------------------------------ one scan
    def scan(self):
        c = self.c; w = 'scan_emoji_presentation'

        mod = ir.Module(open(c.build().ir(TU, noinline=[GET], strip=[GET], pipe=PIPE)).read())
        delta, acc, frozen = emoji.automaton()
        v = Verifier(mod, [self.get()], {'unroll': 64, 'cvc5': 5000})
        n, i = z3.BitVecs('n i', 64); v.fact(z3.And(z3.ULT(n, K(1 << 60)), z3.ULT(i, n)))
        text = v.reg(v.new_arr('text', 4, n)); T = text.init.a
        fl = v.reg(v.new_cells('is_emoji', 1))
        Q = z3.Function('State', BV64, z3.BitVecSort(8)); L = z3.Function('Longest', BV64, BV64); S = z3.Function('Style', BV64, z3.BoolSort())
        cat = lambda k: self.category(z3.Select(T, k))
        v.fact(z3.And(Q(i) == 0, L(i) == i))
        nq = len(acc); q8 = lambda q: z3.BitVecVal(q, 8)

        def rec(k, q, l):
            """definition of State, Longest and Style at k + 1 from those at k (i <= k < n), for state q and category l at k"""
            x, y = cat(k), delta[q, l]
            return z3.Implies(z3.And(z3.ULE(i, k), z3.ULT(k, n), Q(k) == q, x == z3.BitVecVal(l & 0xFF, 8)),
                z3.And(Q(k + 1) == y, *([L(k + 1) == L(k), S(k + 1) == S(k)] if acc[y] is None else [L(k + 1) == k + 1, S(k + 1) == acc[y]])))

        def letters(k): return z3.Implies(z3.ULT(k, n), z3.Or(*[cat(k) == z3.BitVecVal(l & 0xFF, 8) for l in emoji.LETTERS]))

        def closed(k):      # lemma 'frozen' (below)
            return z3.Implies(z3.And(z3.ULE(i, k), z3.ULE(k, n), z3.Or(*[Q(k) == q for q in frozen])), z3.And(L(n) == L(k), S(n) == S(k)))

        class Ctl: pass

        def control(ex, fn, header, g0, m0, entry_phi):
            if 'scan_emoji_presentation' not in fn.name: return None
            st = State(True, m0)
            if len(ex.stack) != 2 or getattr(ex, 'scan_header', header) != header: return None
            ex.scan_header = header
            its = [o for o in v.objs.values() if o.kind == 'cells' and o.size == self.itn]
            w0 = None
            # the iterator that walks over the text: by-value argument p
            P = ex.scan_args[0].obj
            ctl = Ctl(); ctl.cells = [(P.id, self.icat, 1, [l & 0xFF for l in emoji.LETTERS])]
            mem = lambda w_, ob, off, k: ex.load_bytes(State(True, w_.mem), ob, Off(0, None, off), k, True)
            cur = lambda w_, ob=P: bv(ex.mat(mem(w_, ob, self.icur, 8)), 64)
            ctl.ghosts = lambda w_: [Q(cur(w_))]
            ctl.assume = lambda w_, key, sp: [rec(cur(w_), key[-1], sp[0] - 256 if sp[0] > 127 else sp[0]), closed(cur(w_)), closed(cur(w_) + 1)]
            others = [o for o in list(v.objs.values()) if getattr(o, 'size', None) == self.itn and o is not P]

            def cands(w_):
                k = cur(w_); x = bv(mem(w_, P, self.icat, 1), 8)
                out = [('inside the text', And(z3.ULE(i, k), z3.ULE(k, n))), ('before the end', z3.ULT(k, n)), ('at the end', k == n),
                       ('category of the current code point', x == z3.If(z3.ULT(k, n), cat(k), z3.BitVecVal(-1, 8))),
                       ('something is read', z3.ULT(i, k)), ('longest match so far is not empty', And(z3.ULT(i, L(k)), z3.ULE(L(k), k))), ('text', z3.Not(S(k))), ('emoji', S(k)),
                       ('the match ends here', L(k) == k), ('the match ends before', z3.ULT(L(k), k))]
                for o in others:
                    if (o.id not in w_.mem): continue
                    try: t = bv(ex.mat(mem(w_, o, self.icur, 8)), 64)
                    except Unsupported: continue
                    out += [('%s is the end of the longest match' % o.name, t == L(k))]
                return out
            ctl.candidates = cands
            R = ex.scan_result.obj
            ctl.post = lambda w_, r_: [bv(ex.mat(mem(w_, R, self.icur, 8)), 64) == L(n), bv(mem(w_, fl, 0, 1), 8) == z3.If(S(n), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)), z3.ULT(i, L(n)), z3.ULE(L(n), n)]
            self.ctl = ctl
            return ctl
        v.opts['control'] = control
        call = v.call_fn

        def cf(fn, args, st):
            if 'scan_emoji_presentation' in fn.name: its = [a for a in args if isinstance(a, Ptr) and a.obj.size == self.itn]; v.scan_result, v.scan_args = its[0], its[1:]
            return call(fn, args, st)
        v.call_fn = cf
        v.loop_hook = generic(); pre = list(v.facts)
        r, st = v.call_fn(mod.fn('z_scan'), [Ptr(text), n, i, Ptr(fl)], State(True, {}))
        r = bv(v.mat(r), 64); e = bv(v.load1(st, Ptr(fl), ir.I(8), True), 8)
        v.oblige('the scan ends at the longest match of the grammar', st.g, r == L(n), fn=w)
        v.oblige('the style is that of the longest match, a text presentation sequence taking precedence', st.g, e == z3.If(S(n), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)), fn=w)
        v.oblige('at least one code point is taken and the end is not passed', st.g, z3.And(z3.ULT(i, r), z3.ULE(r, n)), fn=w)
        c.satisfiable(w, pre); c.contracts.append(w); c.discharge(v, timeout=60)


    # ------------------------------------------------------------ the segmenter
    def env(self, fns):
        """scan by contract: from i < n it ends at Tok(i), i < Tok(i) <= n, with style Emoji(i)"""
        mod = ir.Module(open(self.c.build().ir(TU, noinline=[GET] + fns, strip=[GET] + [f for f in fns if f == ONCE])).read())
        Tok, Sty = self.Tok, self.Sty = z3.Function('Tok', BV64, BV64), z3.Function('Emoji', BV64, z3.BoolSort())
        n = self.n = z3.BitVec('n', 64)
        ld = lambda ex, st, p, off, k: ex.load_bytes(st, p.obj, p.off.addc(off), k, st.g)
        step = lambda ex, g, i: ex.fact(Implies(g, z3.Implies(z3.ULT(i, n), z3.And(z3.ULT(i, Tok(i)), z3.ULE(Tok(i), n)))))

        def hscan(ex, st, nm, a, inst):
            its = [x for x in a if isinstance(x, Ptr) and x.obj.size == self.itn]; r, p, q = its; e = a[-1]
            u = lambda x, k: bv(ex.mat(ld(ex, st, x, k, 8)), 64)
            for x, t in ((p, 'begin'), (q, 'end')):
                b = ld(ex, st, x, self.ibuf, 8)
                ex.oblige('scan: %s iterates over the text' % t, st.g, And(isinstance(b, Ptr) and b.obj is self.text and b.off.t is None and b.off.c == 0, u(x, self.isz) == n), 'pre', nm)
            i = u(p, self.icur)
            ex.oblige('scan: something is left', st.g, z3.ULT(i, n), 'pre', nm); ex.oblige('scan: up to the end', st.g, u(q, self.icur) == n, 'pre', nm)
            ex.oblige('scan: category of the first code point', st.g, bv(ex.mat(ld(ex, st, p, self.icat, 1)), 8) == self.Cat(z3.Select(self.text.init.a, i)), 'pre', nm)
            step(ex, st.g, i)
            ex.store_bytes(st, r.obj, r.off.addc(self.icat), 1, fresh('category', 8), st.g)
            ex.store_bytes(st, r.obj, r.off.addc(self.ibuf), 8, Ptr(self.text), st.g); ex.store_bytes(st, r.obj, r.off.addc(self.isz), 8, n, st.g); ex.store_bytes(st, r.obj, r.off.addc(self.icur), 8, Tok(i), st.g)
            ex.store_bytes(st, e.obj, e.off, 1, z3.If(Sty(i), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)), st.g)

        def honce(ex, st, nm, a, inst):
            o = a[0]; u = lambda k: bv(ex.mat(ld(ex, st, o, k, 8)), 64)
            b = ld(ex, st, o, self.buf, 8); i = u(self.e)
            ex.oblige('consume_once: the text is the one given', st.g, And(isinstance(b, Ptr) and b.obj is self.text and b.off.t is None and b.off.c == 0, u(self.len) == n), 'pre', nm)
            ex.oblige('consume_once: something is left', st.g, z3.ULT(i, n), 'pre', nm)
            step(ex, st.g, i)
            ex.store_bytes(st, o.obj, o.off.addc(self.isn), 1, z3.If(Sty(i), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)), st.g)
            self.on_token(ex, st.g, i)
            return Tok(i)
        self.on_token = lambda ex, g, i: None
        v = Verifier(mod, [self.get(), (re.compile(SCAN), hscan)] + ([(re.compile(ONCE), honce)] if ONCE in fns else []), {})
        v.fact(z3.ULT(n, K(1 << 60)))
        self.text = v.reg(v.new_arr('text', 4, n)); self.o = v.reg(v.new_cells('segmenter', self.size)); self.o.cinit = {}
        v.loop_hook = generic()
        return v, mod

    def state(self, e, isn, extra=None):
        self.o.cinit = {**{self.buf: (Ptr(self.text), 8), self.len: (self.n, 8), self.e: (e, 8), self.nx: (e, 8), self.isn: (isn, 1)}, **(extra or {})}

    def val(self, v, st, k, m=8): return bv(v.mat(v.load_bytes(st, self.o, Off(0, None, k), m, True)), 8 * m)

    def kept(self, v, st):
        d = v.load_bytes(st, self.o, Off(0, None, self.buf), 8, True)
        return And(isinstance(d, Ptr) and d.obj is self.text and d.off.t is None and d.off.c == 0, self.val(v, st, self.len) == self.n)

    def once(self):
        c = self.c; w = 'emoji_segmenter::consume_once'
        v, mod = self.env([SCAN]); i = z3.BitVec('i', 64); v.fact(z3.ULT(i, self.n))
        rest = {k: z3.BitVec('f%d' % k, 8 * m) for k, m in ((self.b, 8), (self.nx, 8), (self.is_, 1))}
        self.state(i, z3.BitVec('isn', 8), {k: (x, x.size() // 8) for k, x in rest.items()})
        r, st = v.call_fn(mod.fn('z_once'), [Ptr(self.o)], State(True, {}))
        v.oblige('one token is scanned where the last one ended', st.g, bv(v.mat(r), 64) == self.Tok(i), fn=w)
        v.oblige('its style is remembered', st.g, self.val(v, st, self.isn, 1) == z3.If(self.Sty(i), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)), fn=w)
        v.oblige('nothing else changes', st.g, And(self.kept(v, st), self.val(v, st, self.e) == i, *[self.val(v, st, k, x.size() // 8) == x for k, x in rest.items()]), fn=w)
        c.satisfiable(w, v.facts); c.contracts.append(w); c.discharge(v)

    def consume(self):
        c = self.c; w = 'emoji_segmenter::consume'
        v, mod = self.env([SCAN, ONCE]); n, Tok, Sty = self.n, self.Tok, self.Sty
        E, isn = z3.BitVec('E', 64), z3.BitVec('isn', 8)
        b8 = lambda p: z3.If(p, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
        v.fact(z3.And(z3.ULE(E, n), z3.ULE(isn, 1), z3.Implies(z3.ULT(E, n), isn == b8(Sty(E)))))
        Run = z3.Function('Run', BV64, z3.BoolSort())         # reached from E by tokens of its style (least such set: only introduced)
        v.fact(Run(E))
        def tok(ex, g, i): ex.fact(Implies(g, z3.Implies(z3.And(Run(i), z3.ULT(i, n), Sty(i) == Sty(E)), Run(Tok(i)))))
        self.on_token = tok
        self.state(E, isn, {self.b: (z3.BitVec('B', 64), 8), self.is_: (z3.BitVec('old', 8), 1)})
        sz, ps = v.reg(v.new_cells('size', 8)), v.reg(v.new_cells('style', self.ps))

        def extra(ex, info):
            S = lambda w_: State(True, w_.mem); u = lambda w_, k, m=8: self.val(v, S(w_), k, m)
            return [('end is reached by tokens of the style', lambda w_: Run(u(w_, self.e))), ('end inside', lambda w_: z3.And(z3.ULE(E, u(w_, self.e)), z3.ULE(u(w_, self.e), n))), ('something is left', lambda w_: z3.ULT(u(w_, self.e), n)),
                    ('begin', lambda w_: u(w_, self.b) == E), ('style', lambda w_: u(w_, self.is_, 1) == b8(Sty(E))), ('begin of the next', lambda w_: u(w_, self.nx) == E),
                    ('text', lambda w_: u(w_, self.len) == n), ('progress', lambda w_: z3.ULT(E, u(w_, self.e)))]
        v.loop_hook = generic(extra=extra)
        r, st = v.call_fn(mod.fn('z_consume'), [Ptr(self.o), Ptr(sz), Ptr(ps)], State(True, {}))
        r = zb(r) if not isinstance(r, z3.BitVecRef) else r != 0
        e = bv(v.mat(v.load_bytes(st, sz, Off(0, None, 0), 8, True)), 64); s = bv(v.mat(v.load_bytes(st, ps, Off(0, None, 0), self.ps, True)), 8 * self.ps)
        u = lambda k, m=8: self.val(v, st, k, m)
        ob = lambda nm, p: v.oblige(nm, st.g, p, fn=w)
        ob('a segment is reported exactly while text is left', r == z3.ULT(E, n))
        ob('the segment is not empty and ends inside the text', z3.Implies(r, z3.And(z3.ULT(E, e), z3.ULE(e, n))))
        ob('the segment consists of tokens of one style', z3.Implies(r, Run(e)))
        ob('the segment ends at the end of the text or where the style changes', z3.Implies(r, z3.Or(e == n, Sty(e) != Sty(E))))
        ob('the style reported is that of the segment', z3.Implies(r, s == z3.If(Sty(E), z3.BitVecVal(self.E, 8 * self.ps), z3.BitVecVal(self.T, 8 * self.ps))))
        ob('the segment is the current one: from where the last one ended', z3.Implies(r, z3.And(u(self.b) == E, u(self.e) == e, u(self.is_, 1) == b8(Sty(E)))))
        ob('the next segment begins where this one ends', z3.Implies(r, z3.And(u(self.nx) == e, z3.Implies(z3.ULT(e, n), u(self.isn, 1) == b8(Sty(e))))))
        ob('at the end nothing is left to report later', z3.Implies(z3.Not(r), z3.And(u(self.nx) == E, u(self.e) == E)))
        ob('the text is kept', self.kept(v, st))
        c.satisfiable(w, v.facts + [z3.ULT(E, n)]); c.contracts.append(w); c.discharge(v)
        for fn, args in (('z_ctor', 2), ('z_view', 2), ('z_default', 0)):
            w = {'z_ctor': 'emoji_segmenter(pointer, size)', 'z_view': 'emoji_segmenter(u32string_view)', 'z_default': 'emoji_segmenter()'}[fn]
            v, mod = self.env([SCAN, ONCE]); n = self.n
            _, st = v.call_fn(mod.fn(fn), [Ptr(self.o)] + ([Ptr(self.text), n] if args else []), State(True, {}))
            v.oblige('construction: at the beginning', st.g, And(*[self.val(v, st, k) == 0 for k in (self.b, self.e, self.nx)]), fn=w)
            if args:
                v.oblige('construction: over the whole text', st.g, self.kept(v, st), fn=w)
                v.oblige('construction: the style of the first token is known', st.g, z3.And(z3.ULE(self.val(v, st, self.isn, 1), 1), z3.Implies(n != 0, self.val(v, st, self.isn, 1) == b8(self.Sty(K(0))))), fn=w)
            else: v.oblige('construction: without text', st.g, self.val(v, st, self.len) == 0, fn=w)
            c.contracts.append(w); c.discharge(v)
        for fn in ('z_substr', 'z_deref'):
            w = 'emoji_segmenter::' + fn[2:]
            v, mod = self.env([SCAN, ONCE]); n = self.n
            B, E = z3.BitVecs('B E', 64); em = z3.BitVec('is', 8); v.fact(z3.And(z3.ULE(B, E), z3.ULE(E, n), z3.ULE(em, 1)))
            self.state(E, z3.BitVec('isn', 8), {self.b: (B, 8), self.is_: (em, 1)})
            p, k, x, y = [v.reg(v.new_cells(a, m)) for a, m in (('data', 8), ('count', 8), ('emoji', 1), ('textual', 1))]
            _, st = v.call_fn(mod.fn(fn), [Ptr(self.o), Ptr(p), Ptr(k), Ptr(x), Ptr(y)], State(True, {}))
            ld = lambda ob, m: bv(v.mat(v.load_bytes(st, ob, Off(0, None, 0), m, True)), 8 * m)
            v.oblige('the current segment is the text from its begin to its end', st.g, ld(k, 8) == E - B, fn=w)
            d = v.load_bytes(st, p, Off(0, None, 0), 8, True)
            for g, q in leaves(d):
                v.oblige('the current segment lies in the text', And(st.g, g), z3.Or(E == B, And(q.obj is self.text, bv(q.off.idx(4), 64) == B)) if q.obj is self.text else E == B, fn=w)
            v.oblige('isEmoji() and isText() tell the style of the segment', st.g, z3.And(ld(x, 1) == em, ld(y, 1) == 1 - em), fn=w)
            c.contracts.append(w); c.discharge(v)

    def lemmas(self):
        """Longest and Style do not change any more once no longer match is possible"""
        c = self.c; delta, acc, frozen = emoji.automaton()
        q, x = z3.BitVecs('q x', 8); L, k = z3.BitVecs('L k', 64); S = z3.Bool('S')
        q8 = lambda v_: z3.BitVecVal(v_, 8)
        d = q8(0)
        for (p, l), t in delta.items(): d = z3.If(z3.And(q == p, x == q8(l & 0xFF)), q8(t), d)
        y = z3.BitVec('y', 8); isf = lambda z: z3.Or(*[z == f for f in frozen])
        a_ = z3.Or(*[y == p for p in acc if acc[p] is not None]); t_ = z3.Or(*[y == p for p in acc if acc[p]])
        c.prove('frozen: no longer match is possible from a state without a way to an accepting one, induction step', [isf(q), y == d, z3.Or(*[x == q8(l & 0xFF) for l in emoji.LETTERS])],
                z3.And(isf(y), z3.If(a_, k + 1, L) == L, z3.If(a_, t_, S) == S), 'specification')


def main(c):
    from engine.build import CORE
    B = c.build()
    so = ctypes.CDLL(B.so(TU + NAT, [x for x in CORE if x != 'emoji_segmenter.cpp']))
    P = Proof(c, so)
    cats = np.zeros(N, np.int8); so.n_cat(cats.ctypes.data_as(ctypes.c_void_p))
    bad = np.nonzero((cats < -1) | (cats > 15))[0]
    c.ground('the category of every code point is one of the enumerated ones', len(bad) == 0, str(bad[:3]), 'codepoint_properties', N)
    c.ground('the categories are numbered as the scanner expects', all(so.n_enum(v) == v for v in emoji.CATS.values()), '', 'EmojiSegmentationCategory', 16)
    by = {l: np.nonzero(cats == l)[0] for l in emoji.LETTERS}; by = {l: a for l, a in by.items() if len(a)}
    A = emoji.automaton()

    def spec(s):
        cs = [int(cats[x]) for x in s]; out = []; i = 0
        while i < len(s):
            e, em = emoji.scan(cs, i, A)
            if out and out[-1][2] == em: out[-1][1] = e
            else: out.append([i, e, em])
            i = e
        return [tuple(x) for x in out]

    def native(s):
        n = len(s); a = (ctypes.c_uint * max(1, n))(*s); b, e, st = [(ctypes.c_uint * (n + 3))() for _ in range(3)]
        k = so.n_run(a, n, b, e, st, n + 3); got = [(b[i], e[i], bool(st[i])) for i in range(k)]; w = spec(s)
        return None if got == w else {'text': ['U+%04X' % x for x in s], 'segments reported (begin, end, emoji)': got, 'segments expected': w}

    def search(ch):
        rnd = random.Random(c.seed); ls = sorted(by); t = __import__('time').time()
        follow = {2: [12, 11, 9, 10], 7: [12, 8], 13: [14, 15, 12, 11, 10, 14], 14: [14, 15], 12: [8, 10], 10: [2, 3, 1, 0], 3: [4, 12, 11, 10], 6: [6], 4: [10], 1: [12, 11, 9, 10], 0: [12, 11, 9, 10]}
        def pick(l): a = by[l]; return int(a[rnd.randrange(len(a))])
        while __import__('time').time() - t < 150:
            n = rnd.choice((1, 2, 2, 3, 3, 4, 5, 6, 8, 12)); s = []; l = rnd.choice(ls)
            for _ in range(n):
                s.append(pick(l)); l = rnd.choice([x for x in follow.get(l, ls) if x in by] or ls) if rnd.random() < .7 else rnd.choice(ls)
            x = native(s)
            if x:
                i = 0
                while i < len(s):
                    y = native(s[:i] + s[i + 1:])
                    if y: s, x, i = s[:i] + s[i + 1:], y, 0
                    else: i += 1
                return x
        return None
    c.searcher = search
    c.assumptions += ['text lengths below 2^60', 'the emoji segmentation category of a code point is what codepoint_properties::get says (C18); out-of-range code points behave like U+0000']
    c.notes.append('the grammar of oracle/emoji.py (UTS #51 as documented in emoji_presentation_scanner.rl) is turned into an automaton by derivatives; the generated scanner is related to it, one inductive invariant per reachable control state')
    c.parallel([('scan', lambda c: P.scan()), ('consume_once', lambda c: P.once()), ('consume', lambda c: P.consume()), ('lemmas', lambda c: P.lemmas())])
