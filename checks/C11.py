"""string normalisation equals the UAX #15 algorithm"""
import ctypes, random, re
import numpy as np
import z3
from oracle import ucd
from engine import ir
from engine.sym import *
from engine.exec import Verifier, Forall
from engine.cands import generic, along, indices, spans
from engine.strings import StringModel, MEMBERS
from .tables import Native, N
from .C12 import PRE, NORM_SRC, FORM, normfn, pair_contract, hangul, comp_excl

STR = r'NSt7__cxx1112basic_stringIDiSt11char_traitsIDiESaIDiEEE'
ANON = r'^_ZN7unicode12_GLOBAL__N_1\d+\w*?'
SIG = {'decompose': ANON + 'EDiR' + STR + 'b$', 'order': ANON + 'ER' + STR + '$', 'compose': ANON + r'(?:B5cxx11)?ERK' + STR + '$', 'pair': r'GLOBAL__N_1\w*EDiDi$'}
NORM32 = r'^_ZN7unicode9normalizeB5cxx11ESt17basic_string_viewIDi'
CCCN = r'^_ZN7unicode25canonical_combining_classEDi$'
EXN = r'^_ZN7unicode24is_composition_exclusionEDi$'
AS = z3.ArraySort(BV64, z3.BitVecSort(32))
BV32, BV8 = z3.BitVecSort(32), z3.BitVecSort(8)
TU = '''#include "normalization.cpp"
#include <new>
using namespace unicode; using std::u32string; using std::u32string_view; using std::string; using std::string_view;
extern "C" {
void z_norm(char32_t const* p, size_t n, Normalization_Form f, u32string* o) { new (o) u32string(normalize(u32string_view(p, n), f)); }
void y_norm(char const* p, size_t n, Normalization_Form f, string* o) { new (o) string(normalize(string_view(p, n), f)); }
}
'''
CCC = z3.Function('CCC', BV32, BV8)
TC = z3.Function('PairEntry', BV32, BV32, BV32)
EX = z3.Function('Excluded', BV32, z3.BoolSort())
P = z3.Function('PrimaryComposite', BV32, BV32, BV32)
hccc = (re.compile(CCCN), lambda ex, st, name, a, i: CCC(bv(a[0], 32)))
hex_ = (re.compile(EXN), lambda ex, st, name, a, i: EX(bv(a[0], 32)))


def find(mod, k):
    r = [n for n in mod.functions if re.search(SIG[k], n) and mod.fn(n)]
    if len(r) != 1: raise Unsupported('function for step "%s": %s' % (k, r))
    return r[0]


def compose(c, mod):
    """one step per code point of the composition algorithm (D114-D117) over an arbitrary text"""
    S = StringModel()

    def htc(ex, st, name, a, i):
        x, y = bv(a[0], 32), bv(a[1], 32)
        t = TC(x, y)
        ex.fact(z3.Implies(CCC(x) == 0, z3.And(P(x, y) == z3.If(z3.And(t != 0, z3.Not(EX(t))), t, z3.BitVecVal(0, 32)), z3.Implies(P(x, y) != 0, CCC(P(x, y)) == 0))))
        return t
    v = Verifier(mod, [hccc, hex_, (re.compile('.*' + SIG['pair']), htc)] + S.contracts(), {})
    out = v.reg(v.new_cells('out', 32)); ob = S.back(v, Ptr(out), 4)
    src, sb, n = S.string(v, 'decomposed', 4)
    v.fact(z3.ULT(n, z3.BitVecVal(1 << 58, 64)))
    T = sb.init.a
    R, Nn, Si, L = z3.Function('Result', BV64, AS), z3.Function('Size', BV64, BV64), z3.Function('Starter', BV64, BV64), z3.Function('LastClass', BV64, BV8)
    HS = z3.Function('HasStarter', BV64, z3.BoolSort())
    z = z3.BitVecVal(0, 64); z8 = z3.BitVecVal(0, 8)
    v.fact(z3.And(R(z) == ob.init.a, Nn(z) == 0, z3.Not(HS(z)), L(z) == 0, Si(z) == 0))

    def unfold(i):
        i = bv(i, 64)
        x = z3.Select(T, i); k = CCC(x)
        free = z3.Or(L(i) == 0, z3.ULT(L(i), k))                       # not blocked from the last starter (D115)
        comp = z3.If(z3.And(HS(i), free), P(z3.Select(R(i), Si(i)), x), z3.BitVecVal(0, 32))
        done = comp != 0; st = k == 0
        v.fact(z3.Implies(z3.ULT(i, n), z3.And(
            R(i + 1) == z3.If(done, z3.Store(R(i), Si(i), comp), z3.Store(R(i), Nn(i), x)), Nn(i + 1) == z3.If(done, Nn(i), Nn(i) + 1),
            HS(i + 1) == z3.Or(HS(i), st), Si(i + 1) == z3.If(z3.And(z3.Not(done), st), Nn(i), Si(i)),
            L(i + 1) == z3.If(done, L(i), z3.If(z3.Not(z3.Or(HS(i), st)), z8, z3.If(st, z8, k))), z3.ULE(Nn(i), i))))
    v.load_hook = lambda ex, obj, i, val, g: unfold(i) if obj is sb else None
    v.loop_hook = along([sb], eqs=[('Size', Nn, 64), ('Starter', Si, 64), ('LastClass', L, 8)], arrs=[('Result', ob, R)], lengths=[], plus=True,
                        invs=[('a starter was seen', lambda w, i: HS(bv(i, 64))), ('no starter yet', lambda w, i: z3.And(z3.Not(HS(bv(i, 64))), L(bv(i, 64)) == 0)),
                              ('the last starter is a starter', lambda w, i: z3.And(CCC(z3.Select(R(bv(i, 64)), Si(bv(i, 64)))) == 0, z3.ULT(Si(bv(i, 64)), Nn(bv(i, 64))))),
                              ('inside', lambda w, i: z3.And(z3.ULE(bv(i, 64), n), z3.ULE(Nn(bv(i, 64)), bv(i, 64))))])
    r, st = v.call_fn(mod.fn(find(mod, 'compose')), [Ptr(out), Ptr(src)], State(True, {}))
    o, a, k = S.get(v, st, Ptr(out), 4)
    v.oblige('the result has the length of the composed text', st.g, eqv(k, Nn(n), 64), fn='compose')
    v.oblige('the result is the composed text', And(st.g, n != 0), a == R(n), fn='compose')
    c.satisfiable('compose', v.facts); c.contracts.append('compose'); c.discharge(v, timeout=60)


def order(c, mod):
    """every change is an exchange of a reorderable pair (D108), and none is left (D109)"""
    S = StringModel()
    v = Verifier(mod, [hccc] + S.contracts(), {})
    s, sb, n = S.string(v, 'text', 4)
    v.fact(z3.ULT(n, z3.BitVecVal(1 << 58, 64)))
    T = sb.init.a
    Reach = z3.Function('Reached', AS, z3.BoolSort())
    v.fact(Reach(T))
    K = lambda a, i: CCC(z3.Select(a, bv(i, 64)))
    swp = lambda a, j: z3.Store(z3.Store(a, j - 1, z3.Select(a, j)), j, z3.Select(a, j - 1))

    def lh(ex, obj, i, val, g):
        if obj is not sb: return
        i = z3.simplify(bv(i, 64))
        for t in (i - 1, i, i + 1): ex.term(t)
        if not z3.is_select(val) or val.arg(0).num_args(): return
        a = val.arg(0)
        for q in (i, z3.simplify(i + 1)):
            v.fact(z3.Implies(z3.And(Reach(a), z3.UGE(q, 1), z3.ULT(q, n), K(a, q) != 0, z3.UGT(K(a, q - 1), K(a, q))), Reach(swp(a, q))))
    v.load_hook = lh
    ok = lambda a, q: z3.Or(K(a, q) == 0, z3.ULE(K(a, q - 1), K(a, q)))

    def cand(ex, info):
        out = []
        a0 = lambda w: ex.content(State(True, w.mem), sb).a
        out.append(('the text is reached by exchanging reorderable pairs', lambda w: Reach(a0(w))))
        # invariants over unmodified objects, too: the bounds may live outside this loop
        terms = [(x.name, lambda w, x=x: bv(ex.mat(w[x.key]), 64)) for x in info.cells if x.kind == 'int' and x.bits == 64]
        terms += [(nm + '+1', lambda w, t=t: t(w) + 1) for nm, t in terms]
        for nm, t in terms:
            out.append(('ordered before %s' % nm, lambda w, t=t: Forall(lambda q: z3.Implies(z3.And(z3.UGE(q, 1), z3.ULT(q, t(w))), ok(a0(w), q)))))
            out.append(('%s <= n' % nm, lambda w, t=t: z3.ULE(t(w), n)))
            for on, up in outer:
                # j: the element being moved; (q-1, q) ordered for every other q up to i, and its neighbours fit around it
                out.append(('%s moved down from %s' % (nm, on), lambda w, t=t, up=up: z3.And(z3.ULE(t(w), up()), z3.ULT(up(), n))))
                out.append(('the neighbours of %s fit, %s' % (nm, on), lambda w, t=t, up=up: z3.Or(t(w) == up(), t(w) == 0, K(a0(w), t(w) + 1) == 0, z3.ULE(K(a0(w), t(w) - 1), K(a0(w), t(w) + 1)))))
                out.append(('the element at %s fits behind, %s' % (nm, on), lambda w, t=t, up=up: z3.Or(t(w) == up(), K(a0(w), t(w) + 1) == 0, z3.ULE(K(a0(w), t(w)), K(a0(w), t(w) + 1)))))
                out.append(('ordered up to %s except at %s' % (on, nm), lambda w, t=t, up=up: Forall(lambda q: z3.Implies(z3.And(z3.UGE(q, 1), z3.ULE(q, up()), q != t(w)), ok(a0(w), q)))))
            out.append(('a mark is being moved, %s' % nm, lambda w, t=t: K(a0(w), t(w)) != 0))
            for rn, val in list(saved): out.append(('class of the moved element %s == %s' % (nm, rn), lambda w, t=t, val=val: K(a0(w), t(w)) == val))
        return out
    outer, saved = [], []

    def hook(ex, info):
        # terms of the enclosing loop: the entry values of this loop's integers and the classes loaded so far
        outer.clear()
        for x in info.cells:
            e = info.entry.get(x.key)
            if x.kind == 'int' and x.bits == 64 and e is not None and not isinstance(e, (Scaled, PInt)): outer.append((x.name + '@entry', lambda e=e: bv(ex.mat(e), 64)))
        saved[:] = [(r, x) for r, x in info.env.items() if z3.is_bv(x) and x.size() == 8]
        return generic()(ex, info) + cand(ex, info)
    v.loop_hook = hook
    r, st = v.call_fn(mod.fn(find(mod, 'order')), [Ptr(s)], State(True, {}))
    o, a, k = S.get(v, st, Ptr(s), 4)
    w = z3.BitVec('position', 64)
    for t in (w - 1, w, w + 1): v.term(t)
    v.oblige('the length is unchanged', st.g, eqv(k, n, 64), fn='canonical_order')
    v.oblige('the result is reached by exchanging reorderable pairs only', st.g, Reach(a), fn='canonical_order')
    v.oblige('no reorderable pair is left', And(st.g, z3.UGE(w, 1), z3.ULT(w, n)), ok(a, w), fn='canonical_order')
    c.satisfiable('canonical_order', v.facts[:4]); c.contracts.append('canonical_order'); c.discharge(v, timeout=60)


def whole(c, mod, form, fv):
    """normalize(u32string_view) = composition of the steps, over an arbitrary text"""
    S = StringModel()
    compat = form in ('NFKC', 'NFKD'); comp = form in ('NFC', 'NFKC')
    FA = z3.Function('Decomposed', AS, BV64, BV32, z3.BoolSort(), AS); FL = z3.Function('DecomposedLength', BV32, z3.BoolSort(), BV64)
    CO = z3.Function('Ordered', AS, BV64, AS)
    CA, CN = z3.Function('Composed', AS, BV64, AS), z3.Function('ComposedSize', AS, BV64, BV64)

    def hdec(ex, st, name, a, i):
        o, x, k = S.get(ex, st, a[1], 4); cp, b = bv(a[0], 32), zb(eqv(a[2], 1, 1) if not isinstance(a[2], bool) else a[2])
        ex.fact(z3.ULE(FL(cp, b), 32))
        S.seta(ex, st, o, FA(x, bv(k, 64), cp, b)); S.setn(ex, st, a[1], binop('add', k, FL(cp, b), 64))

    def hord(ex, st, name, a, i):
        o, x, k = S.get(ex, st, a[0], 4)
        S.seta(ex, st, o, CO(x, bv(k, 64)))

    def hcomp(ex, st, name, a, i):
        o, x, k = S.get(ex, st, a[1], 4); k = bv(k, 64)
        ex.fact(z3.ULE(CN(x, k), k))
        S.make(ex, st, a[0], 4, CA(x, k), CN(x, k))
    v = Verifier(mod, [(re.compile(SIG['decompose']), hdec), (re.compile(SIG['order']), hord), (re.compile(SIG['compose']), hcomp)] + S.contracts(), {})
    n = z3.BitVec('n', 64); v.fact(z3.ULT(n, z3.BitVecVal(1 << 50, 64)))
    text = v.reg(v.new_arr('text', 4, n)); T = text.init.a
    out = v.reg(v.new_cells('out', 32))
    A, Nn = z3.Function('A', BV64, AS), z3.Function('N', BV64, BV64)
    z = z3.BitVecVal(0, 64); k_ = z3.BoolVal(compat)
    v.fact(Nn(z) == 0)
    first = []

    def lh(ex, obj, i, val, g):
        if obj is not text: return
        i = bv(i, 64); x = bv(val, 32)
        ex.fact(z3.Implies(z3.ULT(i, n), z3.And(A(i + 1) == FA(A(i), Nn(i), x, k_), Nn(i + 1) == Nn(i) + FL(x, k_), z3.ULE(Nn(i), i * 32), z3.ULE(FL(x, k_), 32))))
    v.load_hook = lh
    base = along([text], eqs=[('N', Nn, 64)], lengths=[n])

    def hook(ex, info):
        r = base(ex, info)
        for c_ in info.cells:
            if c_.kind != 'arr': continue
            if c_.key not in init:
                init[c_.key] = True; v.fact(A(z) == c_.obj.init.a)      # the empty string's (irrelevant) backing contents
            for nm, I in indices(info, [text]):
                r.append(('%s == A(%s)' % (c_.name, nm), lambda w, c_=c_, I=I: w[c_.key] == A(bv(I(w), 64))))
        return r
    init = {}
    v.loop_hook = hook
    fn = [x for x in mod.functions if re.match(r'^z_norm$', x)][0]
    r, st = v.call_fn(mod.fn(fn), [Ptr(text), n, fv, Ptr(out)], State(True, {}))
    if len(init) > 1: raise Unsupported('several strings are built by the loop')
    o, a, k = S.get(v, st, Ptr(out), 4)
    co = CO(A(n), Nn(n))
    lab = 'normalize(u32string_view, %s)' % form
    v.fact(z3.Implies(n == 0, CN(co, Nn(n)) == 0))
    v.oblige('the size is that of the %s text' % ('composed' if comp else 'ordered'), st.g, eqv(k, CN(co, Nn(n)) if comp else Nn(n), 64), fn=lab)
    v.oblige('the result is the %s, ordered%s text' % ('compatibility decomposed' if compat else 'decomposed', ', composed' if comp else ''), And(st.g, n != 0), a == (CA(co, Nn(n)) if comp else co), fn=lab)
    c.satisfiable(lab, v.facts); c.contracts.append(lab); c.discharge(v, timeout=60)


def utf8(c, mod, form, fv):
    """normalize(string_view) is the encoding of the normalised decoded text"""
    S = StringModel()
    A8 = z3.ArraySort(BV64, BV8)

    def op(name, es, rs):
        fa, fn = z3.Function(name, A8 if es == 1 else AS, BV64, AS if rs == 4 else A8), z3.Function(name + '.size', A8 if es == 1 else AS, BV64, BV64)

        def h(ex, st, nm, a, i):
            dst, k, q = a[0], bv(ex.mat(a[1]), 64), a[2]
            if isinstance(q, PtrIte): q = ex.collapse(q)
            if q.obj.kind != 'arr' or not is_c(q.off.idx(es)) or int(q.off.idx(es)) != 0: raise Unsupported('a whole string is expected')
            x = ex.content(st, q.obj).a
            ex.oblige('%s is given the whole string' % name, st.g, eqv(k, S.length(ex, st, q.obj), 64), 'pre', nm)
            if len(a) > 3: ex.oblige('the requested form is passed on', st.g, eqv(a[3], fv, 32), 'pre', nm)
            ex.fact(z3.ULT(fn(x, k), z3.BitVecVal(1 << 60, 64)))
            S.make(ex, st, dst, rs, fa(x, k), fn(x, k))
        return fa, fn, h
    dec, decn, hdec = op('Decode', 1, 4); enc, encn, henc = op('Encode', 4, 1); nrm, nrmn, hn = op('Normalised', 4, 4)
    v = Verifier(mod, [(re.compile(r'^_ZN7unicode10convert_toIDicEE'), hdec), (re.compile(r'^_ZN7unicode10convert_toIcDiEE'), henc), (re.compile(NORM32), hn)] + S.contracts(), {})
    n = z3.BitVec('n', 64); v.fact(z3.ULT(n, z3.BitVecVal(1 << 58, 64)))
    t = v.reg(v.new_arr('text', 1, n)); out = v.reg(v.new_cells('out', 32))
    r, st = v.call_fn(mod.fn('y_norm'), [Ptr(t), n, fv, Ptr(out)], State(True, {}))
    o, a, k = S.get(v, st, Ptr(out), 1)
    y, j = dec(t.init.a, n), decn(t.init.a, n); z, l = nrm(y, j), nrmn(y, j)
    v.oblige('the result is the encoding of the normalised decoded text', st.g, And(eqv(k, encn(z, l), 64), a == enc(z, l)), fn='normalize(string_view, %s)' % form)
    c.contracts.append('normalize(string_view, %s)' % form); c.discharge(v)


def frame(c, mod):
    """the decomposition step touches its output only by appending, so what it appends is a function of the code point and the flag"""
    S = StringModel()
    name = find(mod, 'decompose')
    E = r'^_ZNSt7__cxx1112basic_stringIDiSt11char_traitsIDiESaIDiEE'
    outp = []

    def grow(ex, st, nm, a, i):
        ex.oblige('only the output is appended to', st.g, isinstance(a[0], Ptr) and a[0].obj is outp[0], 'frame', nm)
        return a[0]

    def rec(ex, st, nm, a, i):
        ex.oblige('the recursion appends to the same output with the same flag', st.g, And(isinstance(a[1], Ptr) and a[1].obj is outp[0], eqv(a[2], flag, 1)), 'frame', nm)
    H = [(re.compile(E + r'(?:9push_backEDi|6append\w+|pLE\w+|7reserveEm)$'), grow)]
    flag = z3.Bool('compat'); cp = z3.BitVec('cp', 32)
    H.append((re.compile(r'^%s$' % re.escape(name)), rec))
    v = Verifier(mod, H, {'table_facts': True})
    v.loop_hook = generic(key=cp, extra=spans)
    o = v.reg(v.new_cells('output', 32)); outp.append(o)
    o.opaque = True
    old = v.load_bytes

    def guard(st, ob, off, size, g, *a, **k):
        if ob is o: v.oblige('the output is not read', And(st.g, g), False, 'frame', 'decompose')
        return old(st, ob, off, size, g, *a, **k)
    v.load_bytes = guard
    olds = v.store_bytes

    def guards(st, ob, off, size, val, g, *a, **k):
        if ob is o: v.oblige('the output is not written directly', And(st.g, g), False, 'frame', 'decompose')
        return olds(st, ob, off, size, val, g, *a, **k)
    v.store_bytes = guards
    r, st = v.call_fn(mod.fn(name), [cp, Ptr(o), flag], State(True, {}))
    c.contracts.append('decompose_recursive'); c.discharge(v)


def full(cp, compat, ud, memo={}):
    """the full decomposition of one code point, straight from UnicodeData (not reordered)"""
    if (cp, compat) in memo: return memo[cp, compat]
    h = hangul(cp)
    if h: return h
    u = ud.get(cp)
    if u is None or not u.decomp or (u.dtype != 'canonical' and not compat): r = (cp,)
    else: r = tuple(y for x in u.decomp for y in full(x, compat, ud))
    memo[cp, compat] = r
    return r


def searcher(c, so):
    nf = normfn(so); ccc = ucd.ccc()
    marks = [x for x in range(N) if ccc[x]]
    ud = ucd.unicode_data()
    dec = [x for x in ud if ud[x].decomp]
    want = ucd.compositions(); firsts = sorted({a for a, b in want}); seconds = sorted({b for a, b in want})
    byc = {}
    for m in marks: byc.setdefault(ccc[m], []).append(m)
    few = [0x41, 0x61, 0x65, 0x20, 0x1100, 0x1161, 0x11A7, 0x11A8, 0x11C2, 0xAC00, 0xAC01, 0x9C7, 0x9BE, 0x9D7, 0x1112, 0x1175, 0xD788, 0xDDD, 0xDD9, 0xDCA, 0x340, 0x344, 0xF73, 0xF75, 0xF81, 0xF71, 0xF72, 0xFB1D, 0x1D15E, 0x2126, 0xFDFA, 0x3099, 0x304B, 0x1E9B, 0x323, 0x307]

    def run(ch, n=60000):
        rnd = random.Random(c.seed)
        for it in range(n):
            k = rnd.choice((2, 3, 4, 5, 7, 12, 40, 300) if it % 50 == 0 else (1, 2, 3, 4, 5, 6, 9))
            s = []
            mp = rnd.random()
            cl = rnd.sample(sorted(byc), 3)
            for _ in range(k):
                r = rnd.random()
                if r < mp * .8: s.append(rnd.choice(rnd.choice([byc[rnd.choice(cl)], byc[230], [0x301, 0x300, 0x308, 0x327, 0x323, 0x345]])))
                elif r < .6: s.append(rnd.choice(few))
                elif r < .75: s.append(rnd.choice(firsts))
                elif r < .9: s.append(rnd.choice(seconds))
                elif r < .97: s.append(rnd.choice(dec))
                else: s.append(rnd.choice((rnd.randrange(0xD800), rnd.randrange(0xE000, N))))
            if it % 4 == 0 and s:
                a = rnd.choice(list(want)); s[rnd.randrange(len(s)):1] = a
            for f in FORM:
                w = ucd.normalize(tuple(s), f); g = nf(s, f)
                if list(w) != g: return shrink(s, f, nf)
        return None
    return run


def shrink(s, f, nf):
    ch = True
    while ch and len(s) > 1:
        ch = False
        for i in range(len(s)):
            t = s[:i] + s[i + 1:]
            if list(ucd.normalize(tuple(t), f)) != nf(t, f): s = t; ch = True; break
    return {'function': 'normalize(%s)' % f, 'input': ['U+%04X' % x for x in s], 'got': ['U+%04X' % x for x in nf(s, f)], 'expected': ['U+%04X' % x for x in ucd.normalize(tuple(s), f)]}


def main(c):
    B = c.build()
    S = [MEMBERS] + [SIG[k] for k in SIG] + [CCCN, EXN]
    mod = ir.Module(open(B.ir(TU, noinline=S, strip=[MEMBERS])).read())
    W = [MEMBERS, NORM32, r'^_ZN7unicode10convert_toI']
    mod8 = ir.Module(open(B.ir(TU, noinline=W, strip=W)).read())
    dname = re.match(r'^_ZN7unicode12_GLOBAL__N_1(\d+)(\w+)$', find(mod, 'decompose'))
    dname = dname.group(2)[:int(dname.group(1))]
    pre = PRE + 'extern "C" unsigned full1(char32_t c, int k, unsigned* o) { std::u32string r; unicode::%s(c, r, k != 0); for (size_t i = 0; i < r.size() && i < 32; ++i) o[i] = r[i]; return (unsigned)r.size(); }\n' % dname
    pre += 'static unsigned fsum(char32_t c, bool k) { std::u32string r; unicode::%s(c, r, k); unsigned h = (unsigned)r.size(); for (auto x: r) h = h * 1000003u + x; return h; }\n' % dname
    pre += 'extern "C" unsigned fval(int k) { return (unsigned)(k == 0 ? Normalization_Form::NFC : k == 1 ? Normalization_Form::NFD : k == 2 ? Normalization_Form::NFKC : Normalization_Form::NFKD); }\n'
    nat = Native(c, ['normalization.cpp'], {'ccc': 'canonical_combining_class(c)', 'ce': 'is_composition_exclusion(c)', 'fc': 'fsum(c, false)', 'fk': 'fsum(c, true)'}, [x for x in NORM_SRC if x != 'normalization.cpp'], pre)
    so = nat.so
    run = searcher(c, so)
    c.searcher = run
    c.assumptions += ['D109: exchanging reorderable pairs until none is left has a unique result (the canonical ordering), as the standard states',
                      'convert_to between UTF-8 and UTF-32 is a function of the string (C02, C03)', 'std::basic_string members behave as the standard says (allocation succeeds, sizes below 2^60)', 'termination of the recursion over the (acyclic, evaluated) decomposition tables is shown by evaluating every code point']
    from .C12 import h
    ccc = ucd.ccc(); ud = ucd.unicode_data()
    nat.lemma('ccc', np.frombuffer(bytes(ccc), np.uint8), 'combining class of every code point equals the UCD', 'canonical_combining_class', 0)
    ce = np.zeros(N, np.uint32); ce[list(comp_excl())] = 1
    nat.lemma('ce', ce, 'composition exclusions equal the UCD', 'is_composition_exclusion', 0)
    for key, k in (('fc', False), ('fk', True)):
        a = np.fromiter((h(full(x, k, ud)) for x in range(N)), np.uint32, N)
        nat.lemma(key, a, 'what the decomposition step appends for every code point is its full %s decomposition' % ('compatibility' if k else 'canonical'), 'decompose_recursive')
        ml = max(len(full(x, k, ud)) for x in ud)
        c.ground('no full decomposition is longer than 32 code points', ml <= 32, str(ml), 'UCD', len(ud))
    want = ucd.compositions(); fce = set(ucd.comp_ex()); CE = set(comp_excl())

    def pairs(c):
        ent = pair_contract(c, ir.Module(open(B.ir('#include "normalization.cpp"\n', noinline=[SIG['pair']])).read()))
        if ent is None: raise Unsupported('composition table not recognised')
        bad = [e for e in ent if ccc[e[0]] == 0 and not (e[2] in CE or (want.get(e[:2]) == e[2] and ccc[e[2]] == 0))]
        c.ground('every entry of the composition table with a starter is a primary composite (itself a starter) or an exclusion', not bad and len({e[:2] for e in ent}) == len(ent), str(bad[:3]), 'composition_table', len(ent))
        have = {e[:2]: e[2] for e in ent}
        miss = [k for k, x in want.items() if have.get(k) != x or x in CE or ccc[k[0]]]
        c.ground('every primary composite is in the table and not excluded', not miss, str(miss[:3]), 'composition_table', len(want))
        nf = normfn(so)
        bad = [k for k, x in want.items() if nf(k, 'NFC') != list(ucd.normalize(k, 'NFC'))]
        c.ground('the pair lookup finds every entry', not bad, str(bad[:2]), 'try_compose', len(want))
        if bad: c.hints.append(shrink(list(bad[0]), 'NFC', nf))
    jobs = [('compose', lambda c: compose(c, mod)), ('canonical_order', lambda c: order(c, mod)), ('try_compose', pairs), ('decompose_recursive', lambda c: frame(c, mod))]
    for f in FORM:
        jobs.append(('normalize ' + f, lambda c, f=f: whole(c, mod, f, so.fval(FORM[f]))))
        jobs.append(('UTF-8 ' + f, lambda c, f=f: utf8(c, mod8, f, so.fval(FORM[f]))))
    c.parallel(jobs)
