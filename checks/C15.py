"""per code point case mappings"""
import numpy as np
from oracle import ucd
from engine import ir
from engine.sym import *
from .tables import Native, sym_above, N

CW = {'uppercase': 'changes_when_uppercased', 'lowercase': 'changes_when_lowercased', 'titlecase': 'changes_when_titlecased', 'casefold': 'changes_when_casefolded'}
K = ['uppercase', 'lowercase', 'titlecase', 'casefold']


def main(c):
    ex = {}
    for k in K:
        ex['simple_' + k] = 'simple_%s(c)' % k
        ex['len_' + k] = 'full_%s(c).length' % k
        for i in range(3): ex['cp%d_%s' % (i, k)] = 'full_%s(c).length > %d ? (unsigned)full_%s(c).codepoints[%d] : 0u' % (k, i, k, i)
        ex['view_' + k] = 'full_%s(c).view().size()' % k
        ex['id_' + k] = 'full_%s(c).is_identity()' % k
        ex['cw_' + k] = CW[k] + '(c)'
    ex['cased'] = 'is_cased(c)'; ex['ci'] = 'is_case_ignorable(c)'
    nat = Native(c, ['libunicode/case_mapping.h'], ex, ['case_mapping.cpp', 'ucd.cpp', 'convert.cpp', 'convert256.cpp', 'convert512.cpp', 'simd_detector.cpp', 'utf8.cpp',
                                                        'word_segmenter.cpp', 'codepoint_properties.cpp', 'codepoint_properties_data.cpp', 'codepoint_properties_names.cpp'])
    ident = np.arange(N, dtype=np.uint32)
    simple = {k: ident.copy() for k in K}
    for cp, u in ucd.unicode_data().items():
        if u.upper: simple['uppercase'][cp] = u.upper
        if u.lower: simple['lowercase'][cp] = u.lower
        simple['titlecase'][cp] = u.title or u.upper or cp
    sf, ff = ucd.casefold()
    for a, b in sf.items(): simple['casefold'][a] = b
    lo, ti, up = ucd.special_casing()
    full = {}
    for k, d in (('lowercase', lo), ('titlecase', ti), ('uppercase', up), ('casefold', ff)):
        f = {int(a): (int(b),) for a, b in enumerate(simple[k]) if a != b}
        f.update(d)
        full[k] = {a: b for a, b in f.items() if b != (a,)}
    for k in K:
        nat.lemma('simple_' + k, simple[k], 'simple %s mapping of every code point equals the UCD' % k, 'simple_' + k)
        ln = np.zeros(N, np.uint32); t = [np.zeros(N, np.uint32) for _ in range(3)]
        for a, b in full[k].items():
            ln[a] = len(b)
            for i, x in enumerate(b): t[i][a] = x
        nat.lemma('len_' + k, ln, 'length of the full %s mapping (0 exactly for identity)' % k, 'full_' + k, 0)
        nat.lemma('view_' + k, ln, 'view of the full %s mapping has its length' % k, 'case_mapping_result::view', 0)
        for i in range(3): nat.lemma('cp%d_%s' % (i, k), t[i], 'code point %d of the full %s mapping equals the UCD' % (i, k), 'full_' + k, 0)
        ch = (ln != 0).astype(np.uint32)
        nat.lemma('id_' + k, 1 - ch, '%s identity exactly when the code point maps to itself' % k, 'case_mapping_result::is_identity', 1)
        nat.lemma('cw_' + k, np.maximum(ch, (simple[k] != ident)).astype(np.uint32), 'changes_when_%s agrees with the mappings' % k, 'changes_when_' + k, 0)
    gc, wb = ucd.gc(), ucd.wb()
    nat.lemma('cased', [g in ('Lu', 'Ll', 'Lt') for g in gc], 'is_cased holds exactly for the cased letter categories', 'is_cased', 0)
    nat.lemma('ci', [g in ('Mn', 'Me', 'Cf', 'Lm', 'Sk') or w in ('MidLetter', 'MidNumLet', 'Single_Quote') for g, w in zip(gc, wb)],
              'is_case_ignorable holds exactly for the documented categories and classes', 'is_case_ignorable', 0)
    mod = ir.Module(open(c.build().ir('#include "case_mapping.cpp"\n')).read())
    import z3
    jobs = []

    def ident_post(v, st, r, cp, args):
        v.oblige('identity above U+10FFFF', And(st.g, z3.UGT(cp, 0x10FFFF)), eqv(r, cp, 32), fn='simple')

    def full_post(v, st, r, cp, args):
        v.oblige('identity (length 0) above U+10FFFF', And(st.g, z3.UGT(cp, 0x10FFFF)), eqv(trunc(trunc(v.mat(r[1]), 64, 64) if False else extract(v.mat(r[1]), 39, 32, 64), 8, 8), 0, 8), fn='full')
    for k in K:
        n = 'simple_' + k
        jobs.append((n, lambda c, n=n: sym_above(c, mod, r'^_ZN7unicode%d%sEDi$' % (len(n), n), (), None, n, post=ident_post)))
        f = 'full_' + k
        jobs.append((f, lambda c, n=f: sym_above(c, mod, r'^_ZN7unicode%d%sEDi$' % (len(n), n), (), None, n, post=full_post)))
        w = CW[k]
        jobs.append((w, lambda c, n=w: sym_above(c, mod, r'^_ZN7unicode%d%sEDi$' % (len(n), n), (), False, n)))
    c.parallel(jobs)
