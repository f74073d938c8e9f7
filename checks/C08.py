"""word segmentation partitions the text at exactly the UAX #29 word boundaries"""
import random
import z3
from engine.props import Props
from engine.sym import *
from oracle.wb import boundaries
from .seg import *
from .partition import Partition, texts


def main(c):
    p = Props(c)
    M = word_machine(c, p)
    M.build()
    f0 = bytes(M.native['construct'](0))
    part = lambda: Partition(c, 'word_segmenter', '#include "word_segmenter.cpp"\n', WB_INIT, WB_STEP, True, M.n, M.pad, f0, [s for s in WB_SRC if s != 'word_segmenter.cpp'], p)
    ext = lambda cp: bool((p.rec(cp) >> (8 * p.off['flags'])) & 0x20)
    want = lambda t: boundaries([M.cls(x) for x in t], [ext(x) for x in t], M.spec.w)

    def search(c):
        rnd = random.Random(c.seed); P = part()
        import itertools
        for L in (1, 2, 3):
            for t in itertools.product(M.reps, repeat=L):
                r = P.check_native(list(t), want(t))
                if r: return r
        seps = [0x301, 0x200D, 0xAD]
        for k in (40, 17, 9, 300):
            for a, b, e in itertools.product([x for x in M.reps if x not in seps], repeat=3):
                for x in seps[:1] if k != 17 else seps:
                    for t in ([a, b] + [x] * k + [e], [a] + [x] * k + [b, e]):
                        r = P.check_native(t, want(t))
                        if r: return r
            if len(M.reps) > 30: break
        for t in texts(rnd, M.reps, 40000):
            r = P.check_native(t, want(t))
            if r: return r
        return M.search(60, c.seed)
    c.searcher = search
    c.notes.append('%d representative code points, %d reachable (state, history class) pairs proposed' % (len(M.reps), len(M.T)))

    def machine(c):
        p.get_safe(); p.field_lemma('word_break'); p.flag_lemma('Extended_Pictographic')
        M.prove(M.dom, M.kterm, M.kb)

    def cleared(c):
        """WB7, WB7c and WB11 reach back over a boundary only where WB6, WB7b or WB12 would have prevented it:
        the automaton, which forgets the class before A at a boundary, decides like the rules"""
        s = M.spec; A0, A, B, AA, ri = [z3.BitVec(x, 8) for x in ('A0', 'A', 'B', 'AA', 'ri')]
        last, cp = z3.BitVecs('last cp', 32); i = s.is_; ahl = s.ahl
        fires = Or(And(ahl(A0), i(A, 'MidLetter', 'MidNumLet', 'Single_Quote'), ahl(B)), And(i(A0, 'Hebrew_Letter'), i(A, 'Double_Quote'), i(B, 'Hebrew_Letter')),
                   And(i(A0, 'Numeric'), i(A, 'MidNum', 'MidNumLet', 'Single_Quote'), i(B, 'Numeric')))
        # at the step onto A: previous effective class A0, look-ahead B (the next code point that is not transparent), a boundary was reported
        brk = s.is_break((A0, AA, z3.BitVecVal(0, 1), 0), last, cp, B)
        R = s.cls(last)
        c.prove('no rule reaches back over a boundary', M.dom(last) + M.dom(cp) + [s.cls(cp) == A, zb(brk), zb(Not(s.newline(R))), zb(Not(s.newline(A)))], Not(fires), 'specification')
        c.prove('no rule reaches back over a newline', [zb(s.newline(A))], Not(fires), 'specification')
    c.parallel([('break machine', machine), ('segmenter', lambda c: part().prove()), ('boundaries', cleared)])
