"""the property record equals the UCD; lookup is memory safe for every 32-bit argument"""
import random
from engine.props import Props, FIELDS, FLAGS

NAT = '''#include <libunicode/codepoint_properties.h>
#include <cstring>
using namespace unicode;
extern "C" int same0(unsigned c) { return codepoint_properties::get(c) == codepoint_properties::get(0); }
extern "C" unsigned sweep(unsigned from, unsigned step, unsigned n) { for (unsigned k = 0; k < n; ++k) { unsigned c = from + k * step; if (c > 0x10FFFF && !same0(c)) return c; } return 0; }
'''


def main(c):
    p = Props(c)

    def search(ch):
        import ctypes
        so = ctypes.CDLL(c.build().so(NAT, ['codepoint_properties.cpp', 'codepoint_properties_data.cpp', 'codepoint_properties_names.cpp']))
        so.sweep.restype = ctypes.c_uint
        for a in ((0x110000, 1, 0x400000), (0xFFF00000, 1, 0x100000), (0x110000, 4099, 900000), (0x7FF00000, 1, 0x200000)):
            x = so.sweep(*[ctypes.c_uint(y) for y in a])
            if x: return {'function': 'codepoint_properties::get', 'argument': '0x%X' % x, 'got': 'a record different from that of U+0000', 'expected': 'the record of U+0000'}
        return None
    c.searcher = search
    p.get_safe()
    for f in FIELDS: p.field_lemma(f)
    for n in list(FLAGS) + ['virama', 'vsbase', 'gext']: p.flag_lemma(n)
