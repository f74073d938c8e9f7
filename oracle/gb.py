"""UAX #29 grapheme cluster boundary rules (15.1) as a specification automaton; works on ints and on z3 terms."""
from engine.sym import And, Or, Not, ite, eqv, is_c


class GB:
    """small state: ri  parity of the run of Regional_Indicator ending at the last code point
                    ep  0 none, 1 text ends in ExtPict Extend*, 2 text ends in ExtPict Extend* ZWJ
                    inc 0 none, 1 text ends in Consonant [Extend Linker]* without a Linker, 2 with one
                    brk whether there is a boundary before the last code point"""
    small = [('ri', 1), ('ep', 2), ('inc', 2), ('brk', 1)]

    def __init__(self, props):
        self.p = props
        self.g = props.enums('grapheme_cluster_break'); self.i = props.enums('indic_conjunct_break')
        self.ops = {
            'init': {'pre': self.pre_first, 'next': self.first},
            'step': {'pre': self.pre_step, 'next': self.step, 'from_start': False},
            'reinit': {'pre': self.pre_reinit, 'next': self.reinit, 'use_last': True, 'from_start': False},
        }

    def P(self, cp):
        return self.p.rec(cp) if is_c(cp) else self.p.P(cp)

    def start(self): return (0, 0, 0, 0)

    def f(self, cp, field): return self.p.f(self.P(cp), field)

    def isg(self, v, *names): return Or(*[eqv(v, self.g[n], 8) for n in names])

    def isi(self, v, *names): return Or(*[eqv(v, self.i[n], 8) for n in names])

    def ext(self, cp):
        fl = self.f(cp, 'flags')
        return bool(fl & 0x20) if is_c(fl) else (fl & 0x20) != 0

    # ---- operations
    def pre_first(self, s, last, cp): return last is None

    def pre_step(self, s, last, cp): return last is not None

    def pre_reinit(self, s, last, cp):
        """the segmenter starts a new cluster at a code point before which a boundary was reported"""
        return last is not None and (bool(s[3]) if is_c(s[3]) else s[3] == 1)

    def after(self, s, last, cp):
        B = self.f(cp, 'grapheme_cluster_break'); I = self.f(cp, 'indic_conjunct_break'); E = self.ext(cp)
        ri, ep, inc = s[:3]
        ri2 = ite(self.isg(B, 'Regional_Indicator'), ite(eqv(ri, 1, 1) if last is not None else False, 0, 1, 8) if last is not None else 1, 0, 8)
        if last is None: ep = inc = 0
        ep2 = ite(E, 1, ite(And(eqv(ep, 1, 2), self.isg(B, 'Extend')), 1, ite(And(eqv(ep, 1, 2), self.isg(B, 'ZWJ')), 2, 0, 2), 2), 2)
        inc2 = ite(self.isi(I, 'Consonant'), 1,
                   ite(And(Not(eqv(inc, 0, 2)), self.isi(I, 'Linker')), 2, ite(And(Not(eqv(inc, 0, 2)), self.isi(I, 'Extend')), inc, 0, 2), 2), 2)
        return ri2, ep2, inc2

    def is_break(self, s, last, cp):
        ri, ep, inc = s[:3]
        A = self.f(last, 'grapheme_cluster_break'); B = self.f(cp, 'grapheme_cluster_break')
        g = self.isg
        join = False
        # GB9b, GB9a, GB9, GB9c, GB11, GB12/13, GB6..8 (lower priority first does not matter: they all say "no break")
        join = Or(
            And(g(A, 'L'), g(B, 'L', 'V', 'LV', 'LVT')), And(g(A, 'LV', 'V'), g(B, 'V', 'T')), And(g(A, 'LVT', 'T'), g(B, 'T')),
            g(B, 'Extend', 'ZWJ'), g(B, 'SpacingMark'), g(A, 'Prepend'),
            And(eqv(inc, 2, 2), self.isi(self.f(cp, 'indic_conjunct_break'), 'Consonant')),
            And(eqv(ep, 2, 2), self.ext(cp)),
            And(g(A, 'Regional_Indicator'), g(B, 'Regional_Indicator'), eqv(ri, 1, 1)))
        ctl = Or(g(A, 'Control', 'CR', 'LF'), g(B, 'Control', 'CR', 'LF'))
        return Not(And(Not(And(g(A, 'CR'), g(B, 'LF'))), Or(ctl, Not(join)))) if False else \
            And(Not(And(g(A, 'CR'), g(B, 'LF'))), Or(ctl, Not(join)))

    def _1(self, b): return ite(b, 1, 0, 8) if not isinstance(b, bool) else int(b)

    def norm(self, ri, ep, inc, brk):
        from engine.sym import trunc
        t = lambda v, n, m: (v & ((1 << m) - 1)) if is_c(v) else (v if v.size() == m else trunc1(v, m))
        return (t(ri, 8, 1), t(ep, 2, 2), t(inc, 2, 2), t(brk, 8, 1))

    def first(self, s, last, cp):
        return None, self.norm(*self.after(s, None, cp), 1)

    def step(self, s, last, cp):
        b = self.is_break(s, last, cp)
        return b, self.norm(*self.after(s, last, cp), self._1(b))

    def reinit(self, s, last, cp):
        return None, s


def trunc1(v, m):
    import z3
    return z3.Extract(m - 1, 0, v)
