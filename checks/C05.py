from engine.props import Props
from .seg import *


def main(c):
    p = Props(c)
    p.get_safe()
    for f in ('grapheme_cluster_break', 'indic_conjunct_break'): p.field_lemma(f)
    p.flag_lemma('Extended_Pictographic')
    M = grapheme_machine(c, p)
    c.searcher = lambda c: M.search(150, c.seed)
    M.build()
    c.notes.append('%d representative code points, %d reachable (state, history class) pairs proposed, %d small bytes, %d copied bytes, %d padding bytes' %
                   (len(M.reps), len(M.T), len(M.small), len(M.wide), len(M.pad)))
    M.prove(M.dom, M.kterm, M.kb)
