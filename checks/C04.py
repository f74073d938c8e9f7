"""incremental UTF-8 decoding: totality and resynchronisation"""
import z3
from engine.sym import *
from .utf8 import *


def main(c):
    u = U8(c)
    c.searcher = lambda ch: u.search()
    c.notes.append('lemmas about the specification step function are proved for all states and bytes; the real step functions are proved to refine it from every related state')
    for k in ('from_utf8', 'decoder'): u.step_contract(k)
    # from_utf8i is from_utf8 with the result folded into an integer
    v = Verifier(u.mod, []); o = u.state(v, 'from_utf8'); st = State(True, {})
    s = tuple(z3.BitVec('s_' + n, w) for n, w in (('need', 8), ('seen', 8), ('acc', 32))); b = z3.BitVec('byte', 8)
    v.fact(zb(inv(s))); v.fact(zb(u.rel(u.fields(v, st, o, 'from_utf8'), s)))
    r, st = u.call(v, st, 'x_stepi', [Ptr(o), b]); out, val, s2 = step(s, b)
    v.oblige('from_utf8i encodes the same result', st.g, eqv(r, ite(eqv(out, 2, 8), val, ite(eqv(out, 1, 8), 0xFFFFFFFF, 0xFFFFFFFE, 32), 32), 32), fn='from_utf8i')
    v.oblige('from_utf8i leaves the same state', st.g, u.rel(u.fields(v, st, o, 'from_utf8'), s2), fn='from_utf8i')
    c.discharge(v); c.contracts.append('from_utf8i')
    # lemmas over the specification
    c.prove('a byte is classified as exactly one of incomplete, complete, invalid', [inv(s)], cmpop('ule', out, 2, 8), 'step')
    c.prove('incomplete results count up to at most three consecutive ones', [inv(s), zb(eqv(out, 1, 8))], And(eqv(s2[1], binop('add', s[1], 1, 8), 8), cmpop('ule', s2[1], 3, 8)), 'step')
    c.prove('after a complete result the decoder is between characters', [inv(s), zb(eqv(out, 2, 8))], eqv(s2[0], 0, 8), 'step')
    c.prove('after an invalid result the decoder is between characters or has begun the character of this byte', [inv(s), zb(eqv(out, 0, 8))], Or(eqv(s2[0], 0, 8), And(eqv(s2[1], 1, 8), cmpop('uge', b, 0xC0, 8))), 'step')
    cp = z3.BitVec('cp', 32)
    for n in (1, 2, 3, 4):
        t = s; outs = []
        for k in range(n):
            o_, val, t = step(t, enc_byte(cp, n, k)); outs.append(o_)
        asm = [inv(s), zb(scalar(cp)), zb(eqv(enc_len(cp), n, 32))]
        c.prove('from any state whatsoever a well-formed %d-byte character is decoded' % n, asm, And(eqv(outs[-1], 2, 8), eqv(val, cp, 32), eqv(t[0], 0, 8), *[Not(eqv(x, 2, 8)) for x in outs[:-1]]), 'step')
        c.satisfiable('%d-byte characters exist' % n, asm)
