"""cluster width: specification machine, layout of the accumulator, contract of push()"""
import ctypes, random, re
import numpy as np
import z3
from engine import ir, layout
from engine.sym import *
from engine.exec import Verifier
from engine.props import Props

TU = '''#include "width.cpp"
#include <new>
using namespace unicode;
extern "C" {
unsigned a_size() { return sizeof(grapheme_cluster_width_accumulator); }
void a_new(grapheme_cluster_width_accumulator* a) { new (a) grapheme_cluster_width_accumulator(); }
void a_push(grapheme_cluster_width_accumulator* a, char32_t c) { a->push(c); }
unsigned a_width(grapheme_cluster_width_accumulator const* a) { return a->width(); }
void a_reset(grapheme_cluster_width_accumulator* a) { a->reset(); }
unsigned a_cluster(char32_t const* p, size_t n) { return grapheme_cluster_width(std::u32string_view(p, n)); }
unsigned a_utf8(char const* p, size_t n) { return grapheme_cluster_width(std::string_view(p, n)); }
}
'''
SRC = ['codepoint_properties.cpp', 'codepoint_properties_data.cpp', 'codepoint_properties_names.cpp', 'grapheme_segmenter.cpp', 'convert.cpp', 'convert256.cpp', 'convert512.cpp', 'simd_detector.cpp', 'utf8.cpp']
PUSH = r'^_ZN7unicode34grapheme_cluster_width_accumulator4pushEDi$'
COMPS = [('ri', 32), ('skip', 8), ('vir', 8), ('base', 32), ('basew', 32), ('open', 8), ('total', 32), ('cur', 32)]
SPECIAL = [0, 0x200D, 0xFE0E, 0xFE0F] + list(range(0x1F3FB, 0x1F400))


class Width:
    def __init__(self, check):
        self.c = check
        self.p = Props(check)
        self.B = check.build()
        self.so = ctypes.CDLL(self.B.so(TU, SRC))
        self.size = self.so.a_size()
        self.ri_ = self.p.enums('grapheme_cluster_break')['Regional_Indicator']
        self.mc_ = self.p.enums('general_category')['Mc']
        self.bits = {n: self.p_bit(n) for n in ('Extended_Pictographic', 'virama', 'vsbase')}
        self.names = [n for n, _ in COMPS]
        self.w = dict(COMPS)

    def p_bit(self, name):
        """(byte, bit) of the record that carries a flag of the UCD"""
        a = self.p.flag_lemma(name)
        for k in range(11):
            col = self.p.tab[:, k]
            for b in range(8):
                if np.array_equal((col >> b) & 1, a): return 8 * k + b
        raise Unsupported('flag %s is not a bit of the record' % name)

    def P(self, cp): return self.p.rec(cp) if is_c(cp) else self.p.P(cp)

    def bit(self, cp, name):
        r = self.P(cp); k = self.bits[name]
        return bool(r >> k & 1) if is_c(r) else z3.Extract(k, k, r) == 1

    def wd(self, cp): return zext(self.p.f(self.P(cp), 'char_width'), 8, 32)

    def isri(self, cp): return eqv(self.p.f(self.P(cp), 'grapheme_cluster_break'), self.ri_, 8)

    def start(self): return (0,) * len(COMPS)

    def step(self, s, cp):
        """the documented algorithm; s = (length of the regional indicator run, skip, virama, base, base width, open, total, current)"""
        ri, skip, vir, base, bw, op, tot, cur = s
        W = lambda c, a, b, n: ite(c, a, b, n)
        t = lambda x: Not(eqv(x, 0, 8))
        r = self.isri(cp)
        w = self.wd(cp)
        ri2 = W(r, binop('add', ri, 1, 32), 0, 32)
        zwj, v16, v15 = eqv(cp, 0x200D, 32), And(eqv(cp, 0xFE0F, 32), t(op)), And(eqv(cp, 0xFE0E, 32), t(op))
        even = eqv(binop('and', ri, 1, 32), 1, 32)
        skin = And(cmpop('uge', cp, 0x1F3FB, 32), cmpop('ule', cp, 0x1F3FF, 32), Or(self.bit(base, 'Extended_Pictographic'), self.isri(base)))
        conds = [('skip', t(skip)), ('zwj', zwj), ('v16', v16), ('v15', v15), ('ri', And(r, even)), ('skin', skin), ('w', Not(eqv(w, 0, 32))), ('vir', self.bit(cp, 'virama')),
                 ('mc', And(eqv(self.p.f(self.P(cp), 'general_category'), self.mc_, 8), t(op)))]
        g = {}; none = True
        for n, x in conds: g[n] = And(none, x); none = And(none, Not(x))
        vb = self.bit(base, 'vsbase')
        z = And(g['zwj'], Not(t(vir)))
        skip2 = W(g['skip'], 0, W(z, 1, skip, 8), 8)
        bw2 = W(z, 0, W(g['w'], w, bw, 32), 32)
        cur2 = W(And(g['v16'], vb, eqv(self.wd(base), 1, 32)), 2, W(g['mc'], 2, W(g['w'], W(t(vir), 2, w, 32), cur, 32), 32), 32)
        op2 = W(Or(g['v16'], g['mc']), 0, W(g['w'], 1, op, 8), 8)
        tot2 = W(And(g['v15'], vb, eqv(bw, 2, 32)), binop('sub', tot, 1, 32), W(And(g['w'], Not(t(vir)), Not(eqv(cur, 0, 32))), binop('add', tot, cur, 32), tot, 32), 32)
        base2 = W(Or(g['ri'], g['w']), cp, base, 32)
        vir2 = W(g['vir'], 1, W(Or(g['w'], g['mc'], none), 0, vir, 8), 8)
        return (ri2, skip2, vir2, base2, bw2, op2, tot2, cur2)

    def width(self, s):
        x = binop('add', s[6], s[7], 32)
        return ite(cmpop('sgt', x, 0, 32), x, 0, 32)

    # ------------------------------------------------------------ native
    def nat_push(self, b, cp):
        a = (ctypes.c_ubyte * self.size).from_buffer_copy(b); self.so.a_push(a, ctypes.c_uint(cp)); return bytes(a)

    def nat_width(self, b):
        a = (ctypes.c_ubyte * self.size).from_buffer_copy(b); return self.so.a_width(a)

    def nat_new(self, fill=0):
        a = (ctypes.c_ubyte * self.size)(*([fill] * self.size)); self.so.a_new(a); return bytes(a)

    def reps(self):
        f = {'char_width': 255, 'flags': 255, 'flags2': 255, 'grapheme_cluster_break': 255, 'general_category': 255}
        m, vals, t = self.p.domain(f)
        out = list(SPECIAL) + sorted(vals.values())
        mc = [int(x) for x in np.flatnonzero(self.p.tab[:, self.p.off['general_category']] == self.mc_)[:3]]
        return out + mc + [0x915, 0x94D, 0x1F1E6, 0x1F1E7, 0x2714, 0x2764, 0x4E00, 0x1100, 0x41, 0x110000]

    def history(self, rnd, n, reps):
        sub = rnd.choice([reps, rnd.sample(reps, 4), SPECIAL + rnd.sample(reps, 4), [0x1F1E6, 0x200D, 0xFE0F, 0xFE0E, 0x1F3FB, 0x41, 0x2714, 0x1F60A, 0x915, 0x94D, 0x93E]])
        return [rnd.choice(sub) for _ in range(n)]

    def check_native(self, s, oneshot=True):
        """a failing code point sequence or None"""
        b = self.nat_new(255); st = self.start()
        for k, cp in enumerate(s):
            b = self.nat_push(b, cp); st = self.step(st, cp)
            if self.nat_width(b) != self.width(st):
                return {'function': 'grapheme_cluster_width_accumulator', 'input': ['U+%04X' % x for x in s[:k + 1]], 'got': self.nat_width(b), 'expected': int(self.width(st))}
        if oneshot:
            a = (ctypes.c_uint * max(1, len(s)))(*s); self.so.a_cluster.argtypes = [ctypes.c_void_p, ctypes.c_size_t]
            r = self.so.a_cluster(a, len(s))
            if r != self.width(st): return {'function': 'grapheme_cluster_width', 'input': ['U+%04X' % x for x in s], 'got': r, 'expected': int(self.width(st))}
        return None

    def search(self, n=150000):
        rnd = random.Random(self.c.seed); reps = self.reps()
        r = self.check_native([])
        if r: return r
        for cp in reps:
            r = self.check_native([cp])
            if r: return r
        for i in range(n):
            r = self.check_native(self.history(rnd, rnd.randint(2, 9), reps))
            if r: return r
        for cp in range(0x110000):
            r = self.check_native([cp])
            if r: return r
        return None

    def layout(self):
        rnd = random.Random(3); reps = self.reps(); traces = []
        z = {n: v for n, v in zip(self.names, self.start())}
        traces.append((self.nat_new(), z)); traces.append((self.nat_new(255), z))
        for i in range(400):
            b = self.nat_new(255 if i % 2 else 0); st = self.start()
            for cp in self.history(rnd, rnd.randint(1, 12), reps):
                b = self.nat_push(b, cp); st = self.step(st, cp)
                traces.append((b, dict(zip(self.names, [int(x) & mask(w) for x, (_, w) in zip(st, COMPS)]))))
        self.lay = layout.match(self.names, traces, self.size)
        miss = [n for n in self.names if n not in self.lay]
        if miss: self.c.failed.append(('the accumulator holds no slot for the specification component %s' % ', '.join(miss), str(self.lay)))
        return not miss

    def rel(self, v, st, o, s, base=0):
        out = []
        for (n, w), x in zip(COMPS, s):
            off, k = self.lay[n]
            y = bv(v.load_bytes(st, o, Off(0, None, base + off), k, True), 8 * k)
            out.append(eqv(y, zext(x, w, 8 * k) if 8 * k > w else (trunc(x, w, 8 * k) if 8 * k < w else x), 8 * k))
        return And(*out)

    def comps(self, v, st, o, base=0):
        out = []
        for n, w in COMPS:
            off, k = self.lay[n]
            y = bv(v.load_bytes(st, o, Off(0, None, base + off), k, True), 8 * k)
            out.append(y if 8 * k == w else (trunc(y, 8 * k, w) if 8 * k > w else zext(y, 8 * k, w)))
        return tuple(out)

    def put(self, v, st, o, s, base=0):
        for (n, w), x in zip(COMPS, s):
            off, k = self.lay[n]
            y = zext(x, w, 8 * k) if 8 * k > w else (trunc(x, w, 8 * k) if 8 * k < w else x)
            v.store_bytes(st, o, Off(0, None, base + off), k, y, True)

    def inv(self, s): return And(cmpop('ule', s[1], 1, 8), cmpop('ule', s[2], 1, 8), cmpop('ule', s[5], 1, 8))

    def module(self, noinline=(PUSH,)):
        m = ir.Module(open(self.B.ir(TU, noinline=['codepoint_properties3getE'] + list(noinline), strip=['codepoint_properties3getE'])).read())
        return m

    def dom(self, cp):
        if not hasattr(self, '_dom'):
            f = {'char_width': 255, 'flags': 255, 'flags2': 255, 'grapheme_cluster_break': 255, 'general_category': 255}
            self._dom = self.p.domain(f)[:2]
        m, vals = self._dom
        p = self.p.P(cp)
        return [z3.Or(*[(p & m) == x for x in vals])] + [z3.Implies(cp == k, p == self.p.rec(k)) for k in SPECIAL] + [z3.Implies(z3.UGT(cp, 0x10FFFF), p == self.p.rec(0))]

    def push_contract(self, c):
        """push() refines the documented step from every related state"""
        m = self.module(())
        for what in ('step', 'new', 'width', 'reset'):
            v = Verifier(m, [self.p.get_contract()])
            o = v.reg(v.new_cells('accumulator', self.size)); st = State(True, {})
            s = tuple(z3.BitVec('s_' + n, w) for n, w in COMPS); cp = z3.BitVec('cp', 32)
            for i, (n, w) in enumerate(COMPS):   # the slots are the specification state
                pass
            if what in ('step', 'width'):
                v.fact(zb(self.rel(v, st, o, s))); v.fact(zb(self.inv(s)))
                for x in (cp, s[3]):
                    for f in self.dom(x): v.fact(f)
                c.satisfiable('push precondition', v.facts)
            if what == 'step':
                r, st = v.call_fn(m.fn('a_push'), [Ptr(o), cp], st); s2 = self.step(s, cp)
                for i, (n, w) in enumerate(COMPS):
                    a = self.comps(v, st, o)[i]
                    v.oblige('push: component %s follows the documented rule' % n, st.g, eqv(a, s2[i], w), fn='grapheme_cluster_width_accumulator::push')
                v.oblige('push: the state invariant is kept', st.g, And(self.inv(s2), self.rel(v, st, o, s2)), fn='grapheme_cluster_width_accumulator::push')
            elif what == 'width':
                r, st = v.call_fn(m.fn('a_width'), [Ptr(o)], st)
                v.oblige('width() is the total of the segments, never negative', st.g, eqv(r, self.width(s), 32), fn='grapheme_cluster_width_accumulator::width')
            else:
                r, st = v.call_fn(m.fn('a_' + what), [Ptr(o)], st)
                v.oblige('%s: the accumulator is in the start state' % what, st.g, self.rel(v, st, o, self.start()), fn='grapheme_cluster_width_accumulator::' + what)
            c.discharge(v, timeout=60)
        c.contracts += ['grapheme_cluster_width_accumulator::push', 'grapheme_cluster_width_accumulator::width', 'grapheme_cluster_width_accumulator::reset']

    def push_handler(self):
        def h(ex, st, name, args, i):
            o = args[0].obj; b = args[0].off.c
            s = self.comps(ex, st, o, b)
            old = dict(st.m)
            self.put(ex, st, o, self.step(s, bv(args[1], 32)), b)
            if st.g is not True: st.m = ex.merge_mem([(st.g, st.m), (Not(st.g), old)])
            return None
        return (re.compile(PUSH), h)
