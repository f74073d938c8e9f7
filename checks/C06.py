"""grapheme segmentation partitions the text at exactly the boundaries of the break machine"""
import random
from engine.props import Props
from .seg import *
from .partition import Partition, texts

INIT = r'^_ZN7unicode21grapheme_process_initEDi'
STEP = r'^_ZN7unicode26grapheme_process_breakableEDi'


def bounds(M, text):
    out = []; s = M.spec.start(); last = None
    for i, cp in enumerate(text):
        b, s = M.spec.ops['step' if i else 'init']['next'](s, last, cp); s = tuple(int(x) for x in s); last = cp
        if i and b: out.append(i)
    return out


def main(c):
    p = Props(c)
    M = grapheme_machine(c, p)
    M.build()
    f0 = bytes(M.native['construct'](0))
    def search(c):
        rnd = random.Random(c.seed); P = part()
        for t in texts(rnd, M.reps, 30000):
            r = P.check_native(t, bounds(M, t))
            if r: return r
        return M.search(60, c.seed)
    c.searcher = search
    part = lambda: Partition(c, 'grapheme_segmenter', '#include "grapheme_segmenter.cpp"\n', INIT, STEP, False, M.n, M.pad, f0, [s for s in GB_SRC if s != 'grapheme_segmenter.cpp'], p)

    def machine(c):
        p.get_safe()
        for f in ('grapheme_cluster_break', 'indic_conjunct_break'): p.field_lemma(f)
        p.flag_lemma('Extended_Pictographic')
        M.prove(M.dom, M.kterm, M.kb)
    c.parallel([('break machine', machine), ('segmenter', lambda c: part().prove())])
