"""display width of a grapheme cluster"""
import z3
from engine.sym import *
from engine.exec import Verifier
from engine.cands import generic, along
from .width import *
from .C10 import expected
from .tables import Native, N


def main(c):
    w = Width(c)
    c.searcher = lambda ch: w.search()
    for f in ('grapheme_cluster_break', 'general_category'): w.p.field_lemma(f)
    want = expected(); col = w.p.tab[:, w.p.off['char_width']]
    bad = np.flatnonzero(col != want)
    if len(bad): c.hints.append({'function': 'width', 'code_point': 'U+%04X' % bad[0], 'got': int(col[bad[0]]), 'expected': int(want[bad[0]])})
    c.ground('base width of every code point follows its properties', not len(bad), '', 'codepoint_properties table', N)
    # mining the layout also compares thousands of native histories; a deviation is a failing input
    if not w.layout(): return
    c.assumptions.append('a cluster has fewer than 2^30 code points, so that the int totals of the accumulator do not overflow')

    def cluster(c):
        m = w.module()
        fn = [x for x in m.functions if re.match(r'^_ZN7unicode22grapheme_cluster_widthESt17basic_string_viewIDi', x)]
        if len(fn) != 1: raise Unsupported('grapheme_cluster_width not found')
        v = Verifier(m, [w.p.get_contract(), w.push_handler()])
        n = z3.BitVec('n', 64); v.fact(z3.ULT(n, z3.BitVecVal(1 << 30, 64)))
        text = v.reg(v.new_arr('cluster', 4, n)); T = text.init.a
        S = [z3.Function('S_' + nm, BV64, z3.BitVecSort(k)) for nm, k in COMPS]
        seq = lambda i: tuple(f(bv(i, 64)) for f in S)
        for f, x, (nm, k) in zip(S, w.start(), COMPS): v.fact(f(z3.BitVecVal(0, 64)) == bv(x, k))

        def unfold(i):
            i = bv(i, 64); s2 = w.step(seq(i), z3.Select(T, i))
            v.fact(z3.Implies(z3.ULT(i, n), z3.And(*[f(i + 1) == bv(x, k) for f, x, (nm, k) in zip(S, s2, COMPS)])))
        unfold(0)
        for x in w.dom(z3.Select(T, z3.BitVecVal(0, 64))): v.fact(x)
        v.fact(w.p.P(z3.BitVecVal(0, 32)) == w.p.rec(0))
        v.load_hook = lambda ex, obj, i, val, g: unfold(i) if obj is text else None
        v.loop_hook = along([text], eqs=[(nm, (lambda i, f=f: f(bv(i, 64))), k) for f, (nm, k) in zip(S, COMPS)], invs=[('inside', lambda x, i: z3.ULE(bv(i, 64), n))], lengths=[n])
        r, st = v.call_fn(m.fn(fn[0]), [n, Ptr(text)], State(True, {}))
        v.oblige('the one-shot width is the width of the documented algorithm over the whole cluster', st.g, eqv(r, w.width(seq(n)), 32), fn='grapheme_cluster_width(u32string_view)')
        c.contracts.append('grapheme_cluster_width(u32string_view)')
        c.discharge(v, timeout=60)
    c.parallel([('push', w.push_contract), ('cluster', cluster)])
    c.prove('the empty cluster has width zero', [], eqv(w.width(w.start()), 0, 32), 'specification')
