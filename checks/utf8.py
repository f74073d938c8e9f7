"""UTF-8: specification of the standard encoding and of incremental decoding, harness functions, contracts of the step functions"""
import ctypes
import z3
from engine import ir
from engine.sym import *
from engine.exec import Verifier

TU = '''#include "utf8.cpp"
#include <libunicode/convert.h>
using namespace unicode;
extern "C" {
unsigned x_to_utf8(char32_t c, uint8_t* p) { return to_utf8(c, p); }
long x_enc(char32_t c, char* p) { return encoder<char>{}(c, p) - p; }
int x_step(utf8_decoder_state* s, uint8_t b, unsigned* v) { auto r = from_utf8(*s, b); if (std::holds_alternative<Success>(r)) { *v = std::get<Success>(r).value; return 2; }
  if (std::holds_alternative<Incomplete>(r)) return 1; if (std::holds_alternative<Invalid>(r)) return 0; return 9; }
unsigned x_stepi(utf8_decoder_state* s, uint8_t b) { return from_utf8i(*s, b); }
int x_dec(decoder<char>* s, uint8_t b, unsigned* v) { auto r = (*s)(b); if (r.has_value()) { *v = *r; return 1; } return 0; }
int x_once(uint8_t const* p, size_t* n, unsigned* v) { auto r = from_utf8(p, n); if (std::holds_alternative<Success>(r)) { *v = std::get<Success>(r).value; return 2; } return std::holds_alternative<Incomplete>(r); }
int x_range(char const* p, long* used, unsigned* v) { auto q = p; auto r = decoder<char>{}(q); *used = q - p; if (r.has_value()) { *v = *r; return 1; } return 0; }
void x_new(utf8_decoder_state* s) { *s = utf8_decoder_state{}; }
void x_newd(decoder<char>* s) { *s = decoder<char>{}; }
unsigned x_size() { return sizeof(utf8_decoder_state); }
unsigned x_sized() { return sizeof(decoder<char>); }
unsigned x_exp(utf8_decoder_state const* s) { return s->expectedLength; }
unsigned x_cur(utf8_decoder_state const* s) { return s->currentLength; }
unsigned x_chr(utf8_decoder_state const* s) { return s->character; }
unsigned x_expd(decoder<char> const* s) { return s->expectedLength; }
unsigned x_curd(decoder<char> const* s) { return s->currentLength; }
unsigned x_chrd(decoder<char> const* s) { return s->character; }
}
'''


# ------------------------------------------------------------------ specification (works on ints and z3 terms)
def scalar(cp):
    return And(cmpop('ule', cp, 0x10FFFF, 32), Not(And(cmpop('uge', cp, 0xD800, 32), cmpop('ule', cp, 0xDFFF, 32))))


def enc_len(cp):
    return ite(cmpop('ule', cp, 0x7F, 32), 1, ite(cmpop('ule', cp, 0x7FF, 32), 2, ite(cmpop('ule', cp, 0xFFFF, 32), 3, 4, 32), 32), 32)


def enc_byte(cp, n, k):
    """byte k of the n-byte form (n, k Python ints)"""
    if n == 1: return trunc(cp, 32, 8)
    lead = {2: 0xC0, 3: 0xE0, 4: 0xF0}[n]
    x = binop('lshr', cp, 6 * (n - 1 - k), 32)
    if k == 0: return trunc(binop('or', binop('and', x, {2: 0x1F, 3: 0x0F, 4: 0x07}[n], 32), lead, 32), 32, 8)
    return trunc(binop('or', binop('and', x, 0x3F, 32), 0x80, 32), 32, 8)


def step(s, b):
    """incremental decoding: s = (need, seen, acc) (8, 8, 32 bits); result (out, value, s'); out 0 invalid, 1 incomplete, 2 complete.
    A lead byte always begins a new character, an ASCII byte is always complete."""
    need, seen, acc = s
    none = eqv(need, 0, 8)
    asc = cmpop('ult', b, 0x80, 8); cont = And(cmpop('uge', b, 0x80, 8), cmpop('ult', b, 0xC0, 8)); bad = cmpop('uge', b, 0xF8, 8)
    l2 = And(cmpop('uge', b, 0xC0, 8), cmpop('ult', b, 0xE0, 8)); l3 = And(cmpop('uge', b, 0xE0, 8), cmpop('ult', b, 0xF0, 8)); l4 = And(cmpop('uge', b, 0xF0, 8), cmpop('ult', b, 0xF8, 8))
    lead = Or(l2, l3, l4)
    b32 = zext(b, 8, 32)
    acc2 = binop('or', binop('shl', acc, 6, 32), binop('and', b32, 0x3F, 32), 32)
    seen2 = binop('add', seen, 1, 8)
    done = eqv(seen2, need, 8)
    last = And(cont, Not(none), done)
    mid = And(cont, Not(none), Not(done))
    out = ite(asc, 2, ite(bad, 0, ite(lead, ite(none, 1, 0, 8), ite(none, 0, ite(done, 2, 1, 8), 8), 8), 8), 8)
    val = ite(asc, b32, acc2, 32)
    n2 = ite(lead, ite(l2, 2, ite(l3, 3, 4, 8), 8), ite(mid, need, 0, 8), 8)
    s2 = ite(lead, 1, ite(mid, seen2, 0, 8), 8)
    a2 = ite(lead, binop('and', b32, 0, 32) if False else ite(l2, binop('and', b32, 0x1F, 32), ite(l3, binop('and', b32, 0xF, 32), binop('and', b32, 7, 32), 32), 32), ite(mid, acc2, 0, 32), 32)
    return out, val, (n2, s2, a2)


def inv(s):
    """need in {0,2,3,4}, fewer seen than needed, the accumulated bits fit"""
    need, seen, acc = s
    ok = Or(And(eqv(need, 0, 8), eqv(seen, 0, 8), eqv(acc, 0, 32)),
            And(eqv(need, 2, 8), eqv(seen, 1, 8), cmpop('ult', acc, 32, 32)),
            And(eqv(need, 3, 8), Or(And(eqv(seen, 1, 8), cmpop('ult', acc, 16, 32)), And(eqv(seen, 2, 8), cmpop('ult', acc, 1024, 32)))),
            And(eqv(need, 4, 8), Or(And(eqv(seen, 1, 8), cmpop('ult', acc, 8, 32)), And(eqv(seen, 2, 8), cmpop('ult', acc, 512, 32)), And(eqv(seen, 3, 8), cmpop('ult', acc, 1 << 15, 32)))))
    return ok


class U8:
    def __init__(self, check):
        self.c = check
        self.B = check.build()
        self.mod = ir.Module(open(self.B.ir(TU)).read())
        self.so = ctypes.CDLL(self.B.so(TU))

    def call(self, v, st, name, args):
        r, st2 = v.call_fn(self.mod.fn(name), args, st)
        return r, st2

    def state(self, v, kind):
        d = 'd' if kind == 'decoder' else ''
        return v.reg(v.new_cells('state', getattr(self.so, 'x_size' + d)()))

    def fields(self, v, st, o, kind):
        d = 'd' if kind == 'decoder' else ''
        return [bv(self.call(v, st, f + d, [Ptr(o)])[0], 32) for f in ('x_exp', 'x_cur', 'x_chr')]

    def rel(self, fields, s):
        e, c, a = fields; need, seen, acc = s
        return And(eqv(e, zext(need, 8, 32), 32), Or(eqv(need, 0, 8), And(eqv(c, zext(seen, 8, 32), 32), eqv(a, acc, 32))))

    def step_contract(self, kind):
        """proves: one step of the real decoder refines the specification step from every state in relation"""
        c = self.c
        v = Verifier(self.mod, [])
        o = self.state(v, kind); st = State(True, {})
        s = tuple(z3.BitVec('s_' + n, w) for n, w in (('need', 8), ('seen', 8), ('acc', 32)))
        b = z3.BitVec('byte', 8)
        v.fact(zb(inv(s))); v.fact(zb(self.rel(self.fields(v, st, o, kind), s)))
        c.satisfiable('%s step precondition' % kind, [inv(s)])
        val = v.reg(v.new_cells('value', 4)); 
        r, st = self.call(v, st, {'from_utf8': 'x_step', 'decoder': 'x_dec'}[kind], [Ptr(o), b, Ptr(val)])
        out, sv, s2 = step(s, b)
        got = v.load_bytes(st, val, Off(0, None, 0), 4, True)
        nm = {'from_utf8': 'from_utf8(state, byte)', 'decoder': 'decoder<char>::operator()(byte)'}[kind]
        if kind == 'from_utf8': v.oblige('result classification equals the specification', st.g, eqv(r, zext(out, 8, 32), 32), fn=nm)
        else: v.oblige('a value is delivered exactly when a character is complete', st.g, eqv(r, ite(eqv(out, 2, 8), 1, 0, 32), 32), fn=nm)
        v.oblige('the delivered value equals the specification', And(st.g, eqv(out, 2, 8)), eqv(got, sv, 32), fn=nm)
        f2 = self.fields(v, st, o, kind)
        v.oblige('the state relation is re-established', st.g, self.rel(f2, s2), fn=nm)
        v.oblige('the state invariant is re-established', st.g, inv(s2), fn=nm)
        if kind == 'from_utf8':
            v.oblige('a completed character has consumed one to four bytes', And(st.g, eqv(out, 2, 8)), And(eqv(f2[1], ite(cmpop('ult', b, 0x80, 8), 1, zext(s[0], 8, 32), 32), 32), cmpop('uge', f2[1], 1, 32), cmpop('ule', f2[1], 4, 32)), fn=nm)
        c.contracts.append(nm); c.discharge(v)
        # construction establishes the relation
        v = Verifier(self.mod, []); o = self.state(v, kind)
        r, st = self.call(v, State(True, {}), {'from_utf8': 'x_new', 'decoder': 'x_newd'}[kind], [Ptr(o)])
        v.oblige('a new decoder is between characters', st.g, self.rel(self.fields(v, st, o, kind), (0, 0, 0)), fn=nm + ' construction'); c.discharge(v)

    # ------------------------------------------------------------ native
    def native(self, kind):
        so = self.so; d = 'd' if kind == 'decoder' else ''
        n = getattr(so, 'x_size' + d)()
        stp = so.x_dec if kind == 'decoder' else so.x_step

        def run(bs):
            st = (ctypes.c_ubyte * n)(); getattr(so, 'x_new' + d)(st)
            out = []; val = ctypes.c_uint()
            for b in bs:
                r = stp(st, ctypes.c_ubyte(b), ctypes.byref(val))
                out.append((r, val.value if r == (1 if kind == 'decoder' else 2) else None))
            return out
        return run

    def spec(self, kind, bs):
        s = (0, 0, 0); out = []
        for b in bs:
            o, v, s = step(s, b)
            if kind == 'decoder': out.append((1, v) if o == 2 else (0, None))
            else: out.append((o, v if o == 2 else None))
        return out

    def search(self, kinds=('from_utf8', 'decoder')):
        """failing byte history, after an obligation failed"""
        import random, itertools
        rnd = random.Random(self.c.seed)
        B = [0, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC2, 0xDF, 0xE0, 0xE2, 0xED, 0xEF, 0xF0, 0xF1, 0xF4, 0xF5, 0xF7, 0xF8, 0xFC, 0xFE, 0xFF]
        runs = {k: self.native(k) for k in kinds}

        def test(bs):
            for k in kinds:
                if runs[k](bs) != self.spec(k, bs): return {'decoder': k, 'bytes': bytes(bs).hex(), 'got': runs[k](bs), 'expected': self.spec(k, bs)}
        for n in (1, 2, 3):
            for bs in itertools.product(B, repeat=n):
                r = test(bs)
                if r: return r
        for cp in list(range(0x20, 0x3000, 7)) + list(range(0x3000, 0x110000, 211)):
            if not 0xD800 <= cp < 0xE000:
                r = test(chr(cp).encode() + chr(cp ^ 1 if not 0xD800 <= cp ^ 1 < 0xE000 else 65).encode())
                if r: return r
        for i in range(200000):
            bs = [rnd.choice(B) if rnd.random() < .7 else rnd.randrange(256) for _ in range(rnd.randint(3, 12))]
            r = test(bs)
            if r: return r
        return None
