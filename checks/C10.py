"""column width of every code point"""
import numpy as np
from oracle import ucd
from engine import ir
from engine.sym import *
from engine.props import Props
from .tables import Native, sym_above, N

ZERO = {'Cc', 'Me', 'Cf', 'Zl', 'Mn', 'Zp', 'Mc', 'Cs'}


def expected():
    gc, ep, ea, hst, gcb = ucd.gc(), ucd.emoji('Emoji_Presentation'), ucd.eaw(), ucd.hst(), ucd.gcb()
    w = np.ones(N, np.uint32)
    for c in range(N):
        if c == 0xAD or (gc[c] == 'Cf' and gcb[c] == 'Prepend'): continue
        if gc[c] in ZERO or hst[c] in ('V', 'T'): w[c] = 0
        elif ep[c] or ea[c] in ('W', 'F'): w[c] = 2
    return w


def main(c):
    want = expected()
    nat = Native(c, ['libunicode/width.h', 'libunicode/codepoint_properties.h'], {'width': 'width(c)', 'char_width': 'codepoint_properties::get(c).char_width'},
                 ['width.cpp', 'codepoint_properties.cpp', 'codepoint_properties_data.cpp', 'codepoint_properties_names.cpp', 'grapheme_segmenter.cpp', 'convert.cpp', 'convert256.cpp',
                  'convert512.cpp', 'simd_detector.cpp', 'utf8.cpp'])
    nat.lemma('width', want, 'width of every code point follows its properties', 'width', int(want[0]))
    nat.lemma('char_width', want, 'char_width column of every code point follows its properties', 'codepoint_properties table', int(want[0]))
    p = Props(c)
    p.get_safe()
    mod = ir.Module(open(c.build().ir('#include "width.cpp"\n', noinline=['codepoint_properties3getE'], strip=['codepoint_properties3getE'])).read())

    def post(v, st, r, cp, args):
        v.oblige('width is the char_width field of the record', st.g, eqv(r, zext(p.f(p.P(cp), 'char_width'), 8, 32), 32), fn='width')
    sym_above(c, mod, r'^_ZN7unicode5widthEDi$', (), None, 'width', contracts=[p.get_contract()], post=post)
