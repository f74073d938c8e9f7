"""normalisation quick check of a string equals the UAX #15 algorithm"""
import ctypes, random, re
import numpy as np
import z3
from oracle import ucd
from engine import ir
from engine.sym import *
from engine.exec import Verifier
from engine.cands import generic, along
from .tables import Native, sym_above, N
from .C12 import PRE, NORM_SRC, FORM

PRE13 = '''
extern "C" unsigned qc32(unsigned const* s, unsigned n, int form) { return (unsigned)quick_check(std::u32string_view((char32_t const*)s, n), (Normalization_Form)form); }
extern "C" unsigned qval(int k) { return (unsigned)(k == 0 ? Quick_Check_Result::Yes : k == 1 ? Quick_Check_Result::No : Quick_Check_Result::Maybe); }
extern "C" unsigned fval(int k) { return (unsigned)(k == 0 ? Normalization_Form::NFC : k == 1 ? Normalization_Form::NFD : k == 2 ? Normalization_Form::NFKC : Normalization_Form::NFKD); }
static unsigned m3(NFC_Quick_Check q) { return q == NFC_Quick_Check::Yes ? 0 : q == NFC_Quick_Check::No ? 1 : q == NFC_Quick_Check::Maybe ? 2 : 9; }
static unsigned m3(NFKC_Quick_Check q) { return q == NFKC_Quick_Check::Yes ? 0 : q == NFKC_Quick_Check::No ? 1 : q == NFKC_Quick_Check::Maybe ? 2 : 9; }
extern "C" unsigned nfcv(int k) { return (unsigned)(k == 0 ? NFC_Quick_Check::Yes : k == 1 ? NFC_Quick_Check::No : NFC_Quick_Check::Maybe); }
extern "C" unsigned nfkcv(int k) { return (unsigned)(k == 0 ? NFKC_Quick_Check::Yes : k == 1 ? NFKC_Quick_Check::No : NFKC_Quick_Check::Maybe); }
'''


def qc_table(form):
    a = np.zeros(N, np.uint32)
    for (lo, hi), v in dnp_qc(form + '_QC'):
        a[lo:hi + 1] = {'N': 1, 'M': 2, 'Y': 0}[v]
    return a


def dnp_qc(name):
    out = []
    for l in ucd.lines('DerivedNormalizationProps.txt'):
        f = [x.strip() for x in l.split('#')[0].split(';')]
        if len(f) >= 3 and f[1] == name:
            r = f[0].split('..'); out.append(((int(r[0], 16), int(r[-1], 16)), f[2]))
    return out


def spec_quick_check(s, form, ccc, qc):
    """UAX #15 section 9"""
    last = 0; r = 0
    for ch in s:
        k = ccc[ch] if ch < N else 0
        if last > k and k != 0: return 1
        q = qc[form][ch] if ch < N else 0
        if q == 1: return 1
        if q == 2: r = 2
        last = k
    return r


def main(c):
    nat = Native(c, ['libunicode/normalization.h'], {'ccc': 'canonical_combining_class(c)', 'NFC': 'm3(nfc_quick_check(c))', 'NFKC': 'm3(nfkc_quick_check(c))',
                                                      'NFD': 'nfd_quick_check(c) ? 0 : 1', 'NFKD': 'nfkd_quick_check(c) ? 0 : 1'}, NORM_SRC, PRE + PRE13)
    so = nat.so
    ccc = np.frombuffer(bytes(ucd.ccc()), np.uint8)
    qc = {f: qc_table(f) for f in FORM}
    nat.lemma('ccc', ccc, 'combining class of every code point equals the UCD', 'canonical_combining_class', 0)
    for f in FORM: nat.lemma(f, qc[f], f + '_Quick_Check of every code point equals the UCD', f.lower() + '_quick_check', 0)
    QV = [so.qval(k) for k in range(3)]

    def native(s, form):
        a = (ctypes.c_uint * max(1, len(s)))(*s)
        r = so.qc32(a, len(s), so.fval(FORM[form])); return QV.index(r) if r in QV else 9

    def search(ch):
        rnd = random.Random(c.seed)
        marks = [int(x) for x in np.flatnonzero(ccc)]
        special = {f: [int(x) for x in np.flatnonzero(qc[f])] for f in FORM}
        for i in range(300000):
            form = rnd.choice(list(FORM)); n = rnd.randint(1, 8)
            s = []
            for _ in range(n):
                k = rnd.random()
                s.append(rnd.choice(marks) if k < .45 else rnd.choice(special[form]) if k < .6 and special[form] else rnd.choice([0x41, 0x61, 0x1100, 0x1161, 0x11A8, 0x4E00, 0x10FFFF, 0x110000]))
            if rnd.random() < .3: s = sorted(s, key=lambda x: int(ccc[x]) if x < N else 0)
            w = spec_quick_check(s, form, ccc, qc)
            g = native(s, form)
            if g != w: return {'function': 'quick_check', 'form': form, 'input': ['U+%04X' % x for x in s], 'got': g, 'expected': w, 'encoding': '0 Yes, 1 No, 2 Maybe'}
        return None
    c.searcher = search
    c.assumptions.append('UAX #15: for Unicode data the quick-check algorithm answering Yes implies that the string is normalised (stated by the standard, not re-proved)')
    mod = ir.Module(open(c.build().ir('#include "normalization.cpp"\n', noinline=[r'^_ZN7unicode25canonical_combining_classEDi$', r'^_ZN7unicode\d+nfk?[cd]_quick_checkEDi$', r'quick_checkESt17basic_string_viewIDi'])).read())
    jobs = []
    D = lambda n, fn, exp=0: jobs.append((n, lambda c, n=n, fn=fn: sym_above(c, mod, fn, (), exp, n)))
    D('canonical_combining_class', r'^_ZN7unicode25canonical_combining_classEDi$')
    D('nfc_quick_check', r'^_ZN7unicode15nfc_quick_checkEDi$', so.nfcv(0)); D('nfkc_quick_check', r'^_ZN7unicode16nfkc_quick_checkEDi$', so.nfkcv(0))
    D('nfd_quick_check', r'^_ZN7unicode15nfd_quick_checkEDi$', True); D('nfkd_quick_check', r'^_ZN7unicode16nfkd_quick_checkEDi$', True)

    def whole(c, form):
        fn = [x for x in mod.functions if re.match(r'^_ZN7unicode11quick_checkESt17basic_string_viewIDi', x)]
        if len(fn) != 1: raise Unsupported('quick_check not found')
        CCC = z3.Function('CCC', z3.BitVecSort(32), z3.BitVecSort(8))
        QC = z3.Function('QC_' + form, z3.BitVecSort(32), z3.BitVecSort(8))   # 0 Yes 1 No 2 Maybe
        nm = form.lower() + '_quick_check'
        enc = {'NFC': [so.nfcv(k) for k in range(3)], 'NFKC': [so.nfkcv(k) for k in range(3)]}.get(form)

        def hccc(ex, st, name, a, i): return CCC(bv(a[0], 32))

        def hqc(ex, st, name, a, i):
            x = QC(bv(a[0], 32)); ex.fact(z3.ULE(x, 2))
            if enc: return ite(x == 0, enc[0], ite(x == 1, enc[1], enc[2], 8), 8)
            ex.fact(x != 2)
            return x == 0

        def other(ex, st, name, a, i): return fresh('otherqc', i.ty.n)
        v = Verifier(mod, [(re.compile(r'^_ZN7unicode25canonical_combining_classEDi$'), hccc), (re.compile(r'^_ZN7unicode\d+%sEDi$' % nm), hqc),
                           (re.compile(r'^_ZN7unicode\d+nfk?[cd]_quick_checkEDi$'), other)])
        n = z3.BitVec('n', 64)
        v.fact(z3.ULT(n, z3.BitVecVal(1 << 60, 64)))
        text = v.reg(v.new_arr('text', 4, n))
        T = text.init.a
        # specification sequences: before position i, some violation / some Maybe
        Bd = z3.Function('BadBefore', BV64, z3.BoolSort()); Mb = z3.Function('MaybeBefore', BV64, z3.BoolSort())
        one = z3.BitVecVal(1, 64)
        prev = lambda i: z3.If(i == 0, z3.BitVecVal(0, 8), CCC(z3.Select(T, i - 1)))
        bad = lambda i: z3.Or(z3.And(CCC(z3.Select(T, i)) != 0, z3.UGT(prev(i), CCC(z3.Select(T, i)))), QC(z3.Select(T, i)) == 1)
        v.fact(Bd(0) == False); v.fact(Mb(0) == False)

        def unfold(i):
            i = bv(i, 64)
            for t in (i,):
                v.fact(z3.Implies(z3.ULT(t, n), z3.And(Bd(t + 1) == z3.Or(Bd(t), bad(t)), Mb(t + 1) == z3.Or(Mb(t), QC(z3.Select(T, t)) == 2))))
                v.fact(z3.Implies(z3.And(z3.ULT(t, n), Bd(t + 1)), Bd(n)))      # monotone, by induction on the recurrence
        seen = set()

        def lh(ex, obj, i, val, g):
            if obj is text:
                ii = bv(i, 64)
                unfold(ii)
        v.load_hook = lh
        Y, No, Mv = QV
        v.loop_hook = along([text], eqs=[('maybe', lambda i: z3.If(Mb(bv(i, 64)), z3.BitVecVal(Mv, 8), z3.BitVecVal(Y, 8)), 8), ('previous class', lambda i: prev(bv(i, 64)), 8)],
                            invs=[('no violation before', lambda w, i: z3.Not(Bd(bv(i, 64)))), ('inside', lambda w, i: z3.ULE(bv(i, 64), n))], lengths=[n])
        r, st = v.call_fn(mod.fn(fn[0]), [n, Ptr(text), so.fval(FORM[form])], State(True, {}))
        v.oblige('the result is the one of the UAX #15 quick-check algorithm (%s)' % form, st.g,
                 eqv(r, z3.If(Bd(n), z3.BitVecVal(No, 8), z3.If(Mb(n), z3.BitVecVal(Mv, 8), z3.BitVecVal(Y, 8))), 8), fn='quick_check(u32string_view)')
        c.satisfiable('quick_check precondition', v.facts)
        c.contracts.append('quick_check(u32string_view)')
        c.discharge(v)
    for f in FORM: jobs.append(('quick_check ' + f, lambda c, f=f: whole(c, f)))
    c.parallel(jobs)
    # the recurrence is monotone (the fact used above)
    B = z3.Function('B', BV64, z3.BoolSort()); k, a = z3.BitVecs('k a', 64); x = z3.Bool('x')
    c.prove('violations persist: induction step', [B(k + 1) == z3.Or(B(k), x), B(k)], B(k + 1), 'specification')
