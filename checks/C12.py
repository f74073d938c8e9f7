"""decomposition mappings, combining class, pair composition, Hangul arithmetic"""
import ctypes, itertools, re
import numpy as np
import z3
from oracle import ucd
from engine import ir
from engine.sym import *
from engine.exec import Verifier
from engine.cands import generic
from .tables import Native, sym_above, N, OUT
from oracle.ucd import SB, LB, VB, TB, LC, VC, TC, NC, SC

NORM_SRC = ['normalization.cpp', 'convert.cpp', 'convert256.cpp', 'convert512.cpp', 'simd_detector.cpp', 'utf8.cpp']
PRE = '''#include <string>
#include <vector>
#include <cstring>
extern "C" unsigned get_decomp(char32_t c, int compat, unsigned* o) { auto v = compat ? compatibility_decomposition(c) : canonical_decomposition(c);
  for (size_t i = 0; i < v.size() && i < 24; ++i) o[i] = v[i]; return (unsigned)v.size(); }
static unsigned dsum(char32_t c, int compat) { auto v = compat ? compatibility_decomposition(c) : canonical_decomposition(c); unsigned h = (unsigned)v.size(); for (auto x: v) h = h * 1000003u + x; return h; }
extern "C" unsigned norm32(unsigned const* s, unsigned n, int form, unsigned* o, unsigned cap) { std::u32string t((char32_t const*)s, n); auto r = normalize(std::u32string_view(t), (Normalization_Form)form);
  for (size_t i = 0; i < r.size() && i < cap; ++i) o[i] = r[i]; return (unsigned)r.size(); }
'''
FORM = {'NFC': 0, 'NFD': 1, 'NFKC': 2, 'NFKD': 3}


def h(t):
    r = len(t)
    for x in t: r = (r * 1000003 + x) & 0xFFFFFFFF
    return r


def hangul(cp):
    if SB <= cp < SB + SC:
        s = cp - SB
        return (LB + s // NC, VB + s % NC // TC) + ((TB + s % TC,) if s % TC else ())
    return None


def normfn(so):
    so.norm32.argtypes = [ctypes.c_void_p, ctypes.c_uint, ctypes.c_int, ctypes.c_void_p, ctypes.c_uint]; so.norm32.restype = ctypes.c_uint

    def f(s, form):
        a = (ctypes.c_uint * max(1, len(s)))(*s); cap = 64 + 20 * len(s); o = (ctypes.c_uint * cap)()
        n = so.norm32(a, len(s), FORM[form], o, cap)
        return list(o[:n])
    return f


def pair_contract(c, mod, label='try_compose'):
    """pair composition: symbolic proof that a result is the Hangul formula or an entry of the table"""
    cands = [n for n in mod.functions if re.search(r'GLOBAL__N_1\w*EDiDi$', n) and mod.fn(n) and mod.fn(n).ret.k == 'int' and mod.fn(n).ret.n == 32]
    if len(cands) != 1: raise Unsupported('pair composition function: %s' % cands)
    a, b = z3.BitVecs('first second', 32)
    C = z3.Function('Composite', z3.BitVecSort(32), z3.BitVecSort(32), z3.BitVecSort(32))
    used = {}

    def th(ex, key, i, e, g):
        name, gg, cc, size = key
        if 'composition_table' not in name or size != 4: return
        used[name] = gg
        base = (cc // 4) * 4 - (cc % 12 if gg == 12 else 0)
        col = []
        for k in range(3):
            kk = (name, gg, base + 4 * k, 4)
            if kk not in ex.tables: ex.tables[kk] = (z3.Function('tbl_%s_%d_%d_%d' % (name, gg, base + 4 * k, 4), BV64, z3.BitVecSort(32)), ex.tables[key][1], gg, base + 4 * k, 4)
            col.append(ex.tables[kk][0](i))
        nel = ex.tables[key][1].size // gg
        ex.fact(z3.Implies(z3.ULT(i, nel), C(col[0], col[1]) == col[2]))
    v = Verifier(mod, [], {'table_facts': True, 'table_hook': th, 'table_ite': 0})
    v.loop_hook = generic()
    r, st = v.call_fn(mod.fn(cands[0]), [a, b], State(True, {}))
    r = bv(r, 32)
    isl = z3.And(z3.UGE(a, LB), z3.ULT(a, LB + LC)); isv = z3.And(z3.UGE(b, VB), z3.ULT(b, VB + VC))
    islv = z3.And(z3.UGE(a, SB), z3.ULT(a, SB + SC), z3.URem(a - SB, z3.BitVecVal(TC, 32)) == 0); ist = z3.And(z3.UGT(b, TB), z3.ULT(b, TB + TC))
    lv = SB + ((a - LB) * VC + (b - VB)) * TC
    v.oblige('L + V composes to the LV syllable', And(st.g, isl, isv), r == lv, fn=label)
    v.oblige('LV + T composes to the LVT syllable', And(st.g, islv, ist), r == a + (b - TB), fn=label)
    v.oblige('any other non-zero result is the table entry of exactly this pair', And(st.g, z3.Not(z3.And(isl, isv)), z3.Not(z3.And(islv, ist)), r != 0), r == C(a, b), fn=label)
    c.contracts.append(label)
    if len(used) == 1:
        nm, g = list(used.items())[0]
        cols = [v.table_column((nm, g, 4 * k, 4)) for k in range(3)]
        ent = list(zip(*cols))
    else: ent = None
    c.discharge(v)
    return ent


def main(c):
    dts = ['None', 'Canonical', 'Compat', 'Font', 'Nobreak', 'Initial', 'Medial', 'Final', 'Isolated', 'Circle', 'Super', 'Sub', 'Vertical', 'Wide', 'Narrow', 'Small', 'Square', 'Fraction']
    ex = {'ccc': 'canonical_combining_class(c)', 'can': 'dsum(c, 0)', 'compat': 'dsum(c, 1)', 'dt': '(unsigned)decomposition_type(c)', 'ce': 'is_composition_exclusion(c)',
          'fce': 'is_full_composition_exclusion(c)', 'syl': 'is_hangul_syllable(c)', 'l': 'is_hangul_l_jamo(c)', 'v': 'is_hangul_v_jamo(c)', 't': 'is_hangul_t_jamo(c)'}
    pre = PRE + 'extern "C" unsigned dtval(int i) { switch (i) {' + ''.join('case %d: return (unsigned)Decomposition_Type::%s;' % (i, d) for i, d in enumerate(dts)) + '} return 999; }\n'
    nat = Native(c, ['libunicode/normalization.h'], ex, NORM_SRC, pre)
    nf = normfn(nat.so)
    ud = ucd.unicode_data()
    z = lambda: np.zeros(N, np.uint32)
    nat.lemma('ccc', np.frombuffer(bytes(ucd.ccc()), np.uint8), 'combining class of every code point equals the UCD', 'canonical_combining_class', 0)
    can, com, dt = np.full(N, h(()), np.uint32), np.full(N, h(()), np.uint32), z()
    dt[:] = nat.so.dtval(0)
    name = {'canonical': 'Canonical', 'compat': 'Compat', 'noBreak': 'Nobreak'}
    for cp, u in ud.items():
        if not u.decomp: continue
        if u.dtype == 'canonical': can[cp] = h(u.decomp)
        com[cp] = h(u.decomp)
        n = name.get(u.dtype, u.dtype[0].upper() + u.dtype[1:])
        dt[cp] = nat.so.dtval(dts.index(n))
    for cp in range(SB, SB + SC): can[cp] = com[cp] = h(hangul(cp)); dt[cp] = nat.so.dtval(1)
    nat.lemma('can', can, 'canonical decomposition mapping of every code point equals the UCD', 'canonical_decomposition', h(()))
    nat.lemma('compat', com, 'compatibility decomposition mapping of every code point equals the UCD', 'compatibility_decomposition', h(()))
    nat.lemma('dt', dt, 'decomposition type of every code point equals the UCD', 'decomposition_type', nat.so.dtval(0))
    def setarr(s):
        a = z(); a[list(s)] = 1; return a
    nat.lemma('ce', setarr(comp_excl()), 'composition exclusions equal the UCD', 'is_composition_exclusion', 0)
    nat.lemma('fce', setarr(ucd.comp_ex()), 'full composition exclusions equal the UCD', 'is_full_composition_exclusion', 0)
    for k, r in (('syl', range(SB, SB + SC)), ('l', range(LB, LB + LC)), ('v', range(VB, VB + VC)), ('t', range(TB + 1, TB + TC))):
        nat.lemma(k, setarr(r), 'Hangul class query', 'is_hangul_' + k, 0)
    # pairs, through the public API
    want = ucd.compositions()
    bad = None; n = 0
    cc = ucd.ccc()
    hp = [(l, v) for l in range(LB - 1, LB + LC + 1) for v in range(VB - 1, VB + VC + 1)] + [(SB + s, t) for s in range(SC) for t in ((TB - 1, TB, TB + 1, TB + 13, TB + TC - 1, TB + TC) if s % 5 else range(TB - 1, TB + TC + 1))]
    firsts = sorted({a for a, b in want}); seconds = sorted({b for a, b in want})
    dec2 = [u.decomp for u in ud.values() if u.dtype == 'canonical' and len(u.decomp) == 2]
    for a, b in itertools.chain(want, dec2, hp):
        n += 1
        if nf((a, b), 'NFC') != ucd.normalize((a, b), 'NFC'): bad = (a, b); break
    if bad: c.hints.append({'function': 'normalize(NFC)', 'input': ['U+%04X' % x for x in bad], 'got': ['U+%04X' % x for x in nf(bad, 'NFC')], 'expected': ['U+%04X' % x for x in ucd.normalize(bad, 'NFC')]})
    c.ground('every pair with a primary composite, every canonical pair mapping and the Hangul pairs compose as Unicode defines', bad is None, str(bad), 'normalize(NFC)', n)
    bad = [s for s in range(SB, SB + SC) if nf(nf((s,), 'NFD'), 'NFC') != [s]]
    c.ground('composing the decomposition of every Hangul syllable returns it', not bad, str(bad[:3]), 'normalize', SC)
    if bad: c.hints.append({'function': 'normalize', 'input': ['U+%04X' % bad[0]]})
    mod = ir.Module(open(c.build().ir('#include "normalization.cpp"\n', noinline=[r'GLOBAL__N_1\w*EDiDi$'])).read())

    def pairs(c):
        ent = pair_contract(c, mod)
        ce = set(ucd.comp_ex())
        if ent is None: raise Unsupported('composition table not recognised')
        bad = [e for e in ent if want.get(e[:2]) != e[2] and e[2] not in ce]
        c.ground('every entry of the composition table is a primary composite of Unicode or an excluded one', not bad and len({e[:2] for e in ent}) == len(ent), str(bad[:3]), 'composition_table', len(ent))
    jobs = [('try_compose', pairs)]
    D = lambda n, fn, exp=0: jobs.append((n, lambda c, n=n, fn=fn: sym_above(c, mod, fn, (), exp, n)))
    D('canonical_combining_class', r'^_ZN7unicode25canonical_combining_classEDi$')
    D('decomposition_type', r'^_ZN7unicode18decomposition_typeEDi$', nat.so.dtval(0))
    D('is_composition_exclusion', r'^_ZN7unicode24is_composition_exclusionEDi$', False)
    D('is_full_composition_exclusion', r'^_ZN7unicode29is_full_composition_exclusionEDi$', False)

    def hang(c):
        s = z3.BitVec('s', 32)
        v = Verifier(mod, [])
        out = v.reg(v.new_cells('output', 12))
        r, st = v.call_fn(mod.fn('_ZN7unicode16hangul_decomposeEDiPDi'), [s, Ptr(out)], State(True, {}))
        w = lambda k: bv(v.load_bytes(st, out, Off(0, None, 4 * k), 4, True), 32)
        syl = z3.And(z3.UGE(s, SB), z3.ULT(s, SB + SC)); x = s - SB
        tc = z3.URem(x, z3.BitVecVal(TC, 32))
        v.oblige('not a syllable: nothing is written and the count is 0', z3.Not(syl), And(eqv(r, 0, 64), *[w(k) == bv(concat([(v.initbyte(out, 4 * k + j), 8) for j in (3, 2, 1, 0)]), 32) for k in range(3)]), fn='hangul_decompose')
        v.oblige('syllable: L, V and optional T jamo as the standard defines', syl,
                 And(eqv(r, z3.If(tc == 0, z3.BitVecVal(2, 64), z3.BitVecVal(3, 64)), 64), w(0) == LB + z3.UDiv(x, z3.BitVecVal(NC, 32)),
                     w(1) == VB + z3.UDiv(z3.URem(x, z3.BitVecVal(NC, 32)), z3.BitVecVal(TC, 32)), z3.Implies(tc != 0, w(2) == TB + tc)), fn='hangul_decompose')
        l, vv, t = z3.BitVecs('l v t', 32)
        r2, st2 = v.call_fn(mod.fn('_ZN7unicode14hangul_composeEDiDiDi'), [l, vv, t], State(True, {}))
        isl = z3.And(z3.UGE(l, LB), z3.ULT(l, LB + LC)); isv = z3.And(z3.UGE(vv, VB), z3.ULT(vv, VB + VC)); ist = z3.And(z3.UGT(t, TB), z3.ULT(t, TB + TC))
        v.oblige('hangul_compose is the standard formula, 0 for anything else', True,
                 eqv(r2, z3.If(z3.And(isl, isv, z3.Or(t == 0, ist)), SB + ((l - LB) * NC + (vv - VB) * TC) + z3.If(t == 0, z3.BitVecVal(0, 32), t - TB), z3.BitVecVal(0, 32)), 32), fn='hangul_compose')
        c.contracts += ['hangul_decompose', 'hangul_compose']
        c.discharge(v)
    jobs.append(('hangul', hang))
    c.parallel(jobs)


def comp_excl():
    return [int(l.split()[0], 16) for l in ucd.lines('CompositionExclusions.txt')]
