"""UAX #29 word boundary rules (15.1) as a specification automaton with look-ahead; works on ints and on z3 terms.

The text is given one code point at a time together with the Word_Break class of the next code point that is not Extend, Format or ZWJ
(or NONE).  State: A  class of the last code point that is not transparent (OTHER-like start of text when there is none, and for a
transparent one directly after the start of the text or a newline), AA  the class of the one before A inside the same segment (X when none),
ri  parity of the Regional_Indicator run ending in A, brk  whether a boundary precedes the last code point."""
import z3
from engine.sym import And, Or, Not, ite, eqv, is_c

NONE = 255


class WB:
    small = [('A', 8), ('AA', 8), ('ri', 1), ('brk', 1)]

    def __init__(self, props):
        self.p = props
        self.w = props.enums('word_break')
        self.X = 254          # no class at all
        self.nx = z3.BitVec('nx', 8)
        w = self.w
        nxs = [('none', NONE)] + [(k, w[k]) for k in ('ALetter', 'Hebrew_Letter', 'Numeric', 'Other')]
        self.mine_ops = {'init': {'pre': self.pre_first, 'next': self.first}}
        for nm, k in nxs: self.mine_ops['step@%d' % k] = {'pre': self.pre_step, 'next': lambda s, l, c, k=k: self.step(s, l, c, k), 'from_start': False}
        self.mine_ops['reinit'] = {'pre': self.pre_reinit, 'next': self.reinit, 'use_last': True, 'from_start': False}
        self.ops = {'init': self.mine_ops['init'], 'step': {'pre': self.pre_step, 'next': lambda s, l, c: self.step(s, l, c, self.nx), 'from_start': False}, 'reinit': self.mine_ops['reinit']}

    def concrete(self, op, m):
        k = m.eval(self.nx, model_completion=True).as_long(); n = 'step@%d' % k
        return n if n in self.mine_ops else 'step@%d' % NONE

    def start(self): return (self.X, self.X, 0, 0)

    def P(self, cp): return self.p.rec(cp) if is_c(cp) else self.p.P(cp)

    def cls(self, cp): return self.p.f(self.P(cp), 'word_break')

    def ext(self, cp):
        fl = self.p.f(self.P(cp), 'flags')
        return bool(fl & 0x20) if is_c(fl) else (fl & 0x20) != 0

    def is_(self, v, *names): return Or(*[eqv(v, self.w[n], 8) for n in names])

    def ahl(self, v): return self.is_(v, 'ALetter', 'Hebrew_Letter')

    def transp(self, v): return self.is_(v, 'Extend', 'Format', 'ZWJ')

    def newline(self, v): return self.is_(v, 'Newline', 'CR', 'LF')

    def pre_first(self, s, last, cp): return last is None

    def pre_step(self, s, last, cp): return last is not None and (not s[3] if is_c(s[3]) else s[3] == 0)

    def pre_reinit(self, s, last, cp): return last is not None and (bool(s[3]) if is_c(s[3]) else s[3] == 1)

    def is_break(self, s, last, cp, nx):
        A, AA, ri = s[:3]
        R = self.cls(last); B = self.cls(cp); i = self.is_; ahl = self.ahl
        mlq = lambda v: i(v, 'MidLetter', 'MidNumLet', 'Single_Quote'); mnq = lambda v: i(v, 'MidNum', 'MidNumLet', 'Single_Quote')
        wb3 = And(i(R, 'CR'), i(B, 'LF'))
        nl = Or(self.newline(R), self.newline(B))                                   # WB3a WB3b
        wb3c = And(i(R, 'ZWJ'), self.ext(cp))
        wb3d = And(i(R, 'WSegSpace'), i(B, 'WSegSpace'))
        wb4 = self.transp(B)
        join = Or(wb3c, wb3d, wb4,
                  And(ahl(A), ahl(B)),                                              # WB5
                  And(ahl(A), mlq(B), ahl(nx)),                                     # WB6
                  And(ahl(AA), mlq(A), ahl(B)),                                     # WB7
                  And(i(A, 'Hebrew_Letter'), i(B, 'Single_Quote')),                 # WB7a
                  And(i(A, 'Hebrew_Letter'), i(B, 'Double_Quote'), i(nx, 'Hebrew_Letter')),
                  And(i(AA, 'Hebrew_Letter'), i(A, 'Double_Quote'), i(B, 'Hebrew_Letter')),
                  And(i(A, 'Numeric'), i(B, 'Numeric')), And(ahl(A), i(B, 'Numeric')), And(i(A, 'Numeric'), ahl(B)),
                  And(i(AA, 'Numeric'), mnq(A), i(B, 'Numeric')),                   # WB11
                  And(i(A, 'Numeric'), mnq(B), i(nx, 'Numeric')),                   # WB12
                  And(i(A, 'Katakana'), i(B, 'Katakana')),
                  And(Or(ahl(A), i(A, 'Numeric', 'Katakana', 'ExtendNumLet')), i(B, 'ExtendNumLet')),
                  And(i(A, 'ExtendNumLet'), Or(ahl(B), i(B, 'Numeric', 'Katakana'))),
                  And(i(A, 'Regional_Indicator'), i(B, 'Regional_Indicator'), eqv(ri, 1, 1)))
        return And(Not(wb3), Or(nl, Not(join)))

    def first(self, s, last, cp):
        B = self.cls(cp)
        return None, self.norm(ite(self.transp(B), self.X, B, 8), self.X, ite(self.is_(B, 'Regional_Indicator'), 1, 0, 8), 0)

    def step(self, s, last, cp, nx):
        A, AA, ri = s[:3]
        b = self.is_break(s, last, cp, nx)
        B = self.cls(cp); R = self.cls(last)
        t = self.transp(B); keep = And(t, Not(self.newline(R)))
        A2 = ite(t, ite(self.newline(R), self.X, A, 8), B, 8)
        AA2 = ite(keep, AA, ite(Or(b, t), self.X, A, 8), 8)
        ri8 = ri if is_c(ri) else z3.ZeroExt(7, ri)
        ri2 = ite(keep, ri8, ite(self.is_(B, 'Regional_Indicator'), ite(And(self.is_(A, 'Regional_Indicator'), eqv(ri8, 1, 8)), 0, 1, 8), 0, 8), 8)
        return b, self.norm(A2, AA2, ri2, ite(b, 1, 0, 8) if not isinstance(b, bool) else int(b))

    def reinit(self, s, last, cp): return None, (s[0], s[1], s[2], 0)

    def norm(self, A, AA, ri, brk):
        t = lambda v: int(v) & 1 if is_c(v) else (v if v.size() == 1 else z3.Extract(0, 0, v))
        return (A, AA, t(ri), t(brk))


def boundaries(cls, ext, w):
    """independent formulation over a whole text: the rules applied with WB4 skipping at every position; cls: class values, ext: flags"""
    n = len(cls); name = {v: k for k, v in w.items()}
    c = [name[x] for x in cls]
    T = ('Extend', 'Format', 'ZWJ'); NL = ('CR', 'LF', 'Newline'); AHL = ('ALetter', 'Hebrew_Letter')
    MLQ = ('MidLetter', 'MidNumLet', 'Single_Quote'); MNQ = ('MidNum', 'MidNumLet', 'Single_Quote')

    def back(i):      # position of the last non-ignored code point before i, or None
        i -= 1
        while i >= 0 and c[i] in T:
            if i == 0 or c[i - 1] in NL: return None if i == 0 or True else None
            i -= 1
        return i if i >= 0 else None

    def fwd(i):
        i += 1
        while i < n and c[i] in T: i += 1
        return c[i] if i < n else None
    out = []
    for i in range(1, n):
        a, b = c[i - 1], c[i]
        if a == 'CR' and b == 'LF': continue
        if a in NL or b in NL: out.append(i); continue
        if a == 'ZWJ' and ext[i]: continue
        if a == b == 'WSegSpace': continue
        if b in T: continue
        ai = back(i)
        A = c[ai] if ai is not None else None
        bi = back(ai) if ai is not None else None
        AA = c[bi] if bi is not None else None
        nx = fwd(i)
        if A in AHL and b in AHL: continue
        if A in AHL and b in MLQ and nx in AHL: continue
        if AA in AHL and A in MLQ and b in AHL: continue
        if A == 'Hebrew_Letter' and b == 'Single_Quote': continue
        if A == 'Hebrew_Letter' and b == 'Double_Quote' and nx == 'Hebrew_Letter': continue
        if AA == 'Hebrew_Letter' and A == 'Double_Quote' and b == 'Hebrew_Letter': continue
        if A == 'Numeric' and b == 'Numeric': continue
        if A in AHL and b == 'Numeric': continue
        if A == 'Numeric' and b in AHL: continue
        if AA == 'Numeric' and A in MNQ and b == 'Numeric': continue
        if A == 'Numeric' and b in MNQ and nx == 'Numeric': continue
        if A == b == 'Katakana': continue
        if (A in AHL or A in ('Numeric', 'Katakana', 'ExtendNumLet')) and b == 'ExtendNumLet': continue
        if A == 'ExtendNumLet' and (b in AHL or b in ('Numeric', 'Katakana')): continue
        if A == b == 'Regional_Indicator':
            k = 0; j = i
            while True:
                j = back(j)
                if j is None or c[j] != 'Regional_Indicator': break
                k += 1
            if k % 2 == 1: continue
        out.append(i)
    return out
