"""range based property queries of ucd.cpp"""
import re, ctypes
import numpy as np
from oracle import ucd
from engine import ir
from engine.sym import *
from .tables import Native, sym_above, N

CORE = ['Alphabetic', 'Case_Ignorable', 'Cased', 'Changes_When_Casefolded', 'Changes_When_Casemapped', 'Changes_When_Lowercased', 'Changes_When_Titlecased',
        'Changes_When_Uppercased', 'Default_Ignorable_Code_Point', 'Grapheme_Base', 'Grapheme_Extend', 'Grapheme_Link', 'ID_Continue', 'ID_Start', 'Lowercase', 'Math',
        'Uppercase', 'XID_Continue', 'XID_Start']
PLANES = ['Basic_Multilingual_Plane', 'Supplementary_Multilingual_Plane', 'Supplementary_Ideographic_Plane', 'Tertiary_Ideographic_Plane'] + ['Unassigned'] * 10 + \
    ['Supplementary_Special_purpose_Plane', 'Supplementary_Private_Use_Area_Plane', 'Supplementary_Private_Use_Area_Plane']
EAW = {'N': 'Neutral', 'Na': 'Narrow', 'W': 'Wide', 'F': 'FullWidth', 'H': 'HalfWidth', 'A': 'Ambiguous', None: 'Unspecified'}


def blockname(b): return re.sub(r'[^A-Za-z0-9]', '_', b)


def main(c):
    gca = ucd.aliases('gc'); sca = ucd.aliases('sc')
    gc = ucd.gc(); gcn = sorted({gca[v] for v in gc})
    ex = {'plane': '(unsigned char)plane(c)', 'script': '(unsigned char)script(c)', 'block': '(unsigned)block(c)', 'gcb': '(unsigned char)grapheme_cluster_break(c)',
          'eaw': '(unsigned char)east_asian_width(c)', 'gc': '(unsigned char)general_category::get(c)', 'mirrored': 'is_mirrored(c)', 'glyph': '(unsigned)bidi_mirroring_glyph(c)',
          'sce': 'sce_len(c)', 'gcUnspecified': 'contains(General_Category::Unspecified, c)'}
    EM = ['Emoji', 'Emoji_Component', 'Emoji_Modifier', 'Emoji_Modifier_Base', 'Emoji_Presentation', 'Extended_Pictographic']
    for e in EM: ex['is_' + e.lower()] = 'is_%s(c)' % e.lower()
    for g in gcn: ex['gc.' + g] = 'contains(General_Category::%s, c)' % g; ex['is.' + g] = 'general_category::is_%s(c)' % g.lower()
    for p in CORE: ex['core.' + p] = 'contains(Core_Property::%s, c)' % p
    enums = {}
    for g in gcn + ['Unspecified']: enums['General_Category::' + g] = 0
    for p in set(PLANES): enums['Plane::' + p] = 0
    scripts = sorted(set(ucd.script()))
    for s in scripts: enums['Script::' + s] = 0
    blocks = sorted({b for b in ucd.block() if b})
    for b in blocks: enums['Block::' + blockname(b)] = 0
    enums['Block::Unspecified'] = 0
    gba = ucd.aliases('GCB')
    for g in sorted(set(ucd.gcb())): enums['Grapheme_Cluster_Break::' + gba.get(g, g)] = 0
    enums['Grapheme_Cluster_Break::Undefined'] = 0
    for e in EAW.values(): enums['EastAsianWidth::' + e] = 0
    pre = '''#include <cstring>
static unsigned sce_len(char32_t c) { auto s = script_extensions(c); return s ? (unsigned)s->size() : 0xFFFFu; }
extern "C" unsigned sce_get(char32_t c, unsigned i) { auto s = script_extensions(c); return (unsigned)(*s)[i]; }
'''
    names = list(enums)
    pre += 'extern "C" unsigned enumval(int i) { switch (i) {' + ''.join('case %d: return (unsigned)%s;\n' % (i, n) for i, n in enumerate(names)) + '} return 0xFFFFFFFF; }\n'
    nat = Native(c, ['libunicode/ucd.h', 'libunicode/ucd_enums.h', 'span', 'optional'], ex, ['ucd.cpp'], pre)
    for i, n in enumerate(names): enums[n] = nat.so.enumval(i)
    E = lambda t, n: enums[t + '::' + n]
    L = nat.lemma
    L('plane', [E('Plane', PLANES[k >> 16]) for k in range(N)], 'plane of every code point', 'plane', E('Plane', 'Unassigned'))
    L('script', [E('Script', s) for s in ucd.script()], 'script of every code point equals the UCD', 'script', E('Script', 'Unknown'))
    L('block', [E('Block', blockname(b)) if b else E('Block', 'Unspecified') for b in ucd.block()], 'block of every code point equals the UCD', 'block', E('Block', 'Unspecified'))
    g = ucd.gcb(); listed = ucd.table('auxiliary/GraphemeBreakProperty.txt', None)
    L('gcb', [E('Grapheme_Cluster_Break', gba.get(x, x)) if x else E('Grapheme_Cluster_Break', 'Undefined') for x in listed],
      'grapheme cluster break of every listed code point equals the UCD, Undefined for the others', 'grapheme_cluster_break', E('Grapheme_Cluster_Break', 'Undefined'))
    L('eaw', [E('EastAsianWidth', EAW[x]) for x in ucd.eaw_file()], 'East Asian width of every listed code point equals the UCD, Unspecified for the others', 'east_asian_width',
      E('EastAsianWidth', 'Unspecified'))
    L('gc', [E('General_Category', gca[x]) for x in gc], 'general category of every code point equals the UCD', 'general_category::get', E('General_Category', 'Unspecified'))
    zeros = np.zeros(N, np.uint32)
    L('gcUnspecified', zeros, 'no code point has category Unspecified', 'contains(General_Category)', 0)
    gl = np.array([gca[x] for x in gc])
    for n in gcn:
        w = (gl == n).astype(np.uint32)
        L('gc.' + n, w, 'contains(%s) is the UCD set' % n, 'contains(General_Category)', 0)
        L('is.' + n, w, 'is_%s is the UCD set' % n.lower(), 'general_category::is_*', 0)
    for p in CORE: L('core.' + p, np.frombuffer(bytes(ucd.core(p)), np.uint8), 'contains(%s) is the UCD set' % p, 'contains(Core_Property)', 0)
    for e in EM: L('is_' + e.lower(), np.frombuffer(bytes(ucd.emoji(e)), np.uint8), 'is_%s is the UCD set' % e.lower(), 'is_' + e.lower(), 0)
    m = zeros.copy()
    for k, u in ucd.unicode_data().items(): m[k] = u.mirrored
    L('mirrored', m, 'Bidi_Mirrored of every code point equals the UCD', 'is_mirrored', 0)
    w = np.arange(N, dtype=np.uint32)
    for a, b in ucd.mirror().items(): w[a] = b
    L('glyph', w, 'mirroring glyph of every code point equals the UCD', 'bidi_mirroring_glyph')
    se = ucd.script_ext()
    w = np.full(N, 0xFFFF, np.uint32)
    for k, l in se.items(): w[k] = len(l)
    L('sce', w, 'number of script extensions of every code point', 'script_extensions', 0xFFFF)
    bad = [k for k, l in se.items() if nat.one('sce', k) == len(l) and {nat.so.sce_get(k, i) for i in range(len(l))} != {E('Script', sca[s]) for s in l}]
    if bad: c.hints.append({'query': 'script_extensions', 'code_point': 'U+%04X' % bad[0]})
    c.ground('script extensions of every code point equal the UCD set', not bad, str([hex(b) for b in bad[:3]]), 'script_extensions', len(se))

    mod = ir.Module(open(c.build().ir('#include "ucd.cpp"\n')).read())
    A = lambda fn, exp, label, pre=(), **k: (label, lambda c: sym_above(c, mod, fn, pre, exp, label, **k))
    jobs = []
    # the two dispatchers over all tables, for every value of the property argument
    def disp(fn, label, vals):
        def f(c):
            for p in vals: sym_above(c, mod, fn, [p], False, label)
        return ('%s %d..%d' % (label, vals[0], vals[-1]), f)
    for fn, label in ((r'^_ZN7unicode8containsENS_13Core_PropertyEDi$', 'contains(Core_Property)'), (r'^_ZN7unicode8containsENS_16General_CategoryEDi$', 'contains(General_Category)')):
        for k in range(0, 32, 2): jobs.append(disp(fn, label, list(range(k, k + 2))))
        jobs.append(disp(fn, label, list(range(32, 256))))

    def post_sce(v, st, r, cp, args):
        has = v.load_bytes(st, args[0].obj, Off(0, None, 16), 1, True)
        v.oblige('no extensions above U+10FFFF', And(st.g, z3.UGT(cp, 0x10FFFF)), eqv(extract(has, 0, 0, 8), 0, 1 if False else 8) if is_c(has) else (has & 1) == 0, fn='script_extensions')
    import z3
    jobs.append(('script_extensions', lambda c: sym_above(c, mod, r'^_ZN7unicode17script_extensionsEDi$', (), None, 'script_extensions', outsize=24, post=post_sce)))
    for fn, t, d in (('5plane', 'Plane', 'Unassigned'), ('6script', 'Script', 'Unknown'), ('5block', 'Block', 'Unspecified'),
                     ('22grapheme_cluster_break', 'Grapheme_Cluster_Break', 'Undefined'), ('16east_asian_width', 'EastAsianWidth', 'Unspecified')):
        jobs.append(A(r'^_ZN7unicode%sEDi$' % fn, E(t, d), fn.lstrip('0123456789')))
    jobs.append(A(r'^_ZN7unicode16general_category3getEDi$', E('General_Category', 'Unspecified'), 'general_category::get'))
    for e in EM + ['Mirrored']:
        n = 'is_' + e.lower(); jobs.append(A(r'^_ZN7unicode%d%sEDi$' % (len(n), n), False, n))

    def post_glyph(v, st, r, cp, args):
        v.oblige('identity above U+10FFFF', And(st.g, z3.UGT(cp, 0x10FFFF)), eqv(r, cp, 32), fn='bidi_mirroring_glyph')
    jobs.append(('bidi_mirroring_glyph', lambda c: sym_above(c, mod, r'^_ZN7unicode20bidi_mirroring_glyphEDi$', (), None, 'bidi_mirroring_glyph', post=post_glyph)))
    c.parallel(jobs)
