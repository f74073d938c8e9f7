"""codepoint_properties: contract of get(), its table evaluated for every code point, and the field lemmas (table field == UCD)."""
import ctypes, re, functools
import numpy as np
import z3
from oracle import ucd
from . import ir
from .sym import *
from .exec import Verifier
from .build import CORE

FIELDS = {   # field -> (enum type, UCD alias property or None, oracle)
    'grapheme_cluster_break': ('Grapheme_Cluster_Break', 'GCB', ucd.gcb),
    'word_break': ('Word_Break', 'WB', ucd.wb),
    'indic_conjunct_break': ('Indic_Conjunct_Break', 'InCB', ucd.incb),
    'general_category': ('General_Category', 'gc', ucd.gc),
    'script': ('Script', None, ucd.script),
    'east_asian_width': ('East_Asian_Width', 'ea', ucd.eaw),
    'age': ('Age', None, ucd.age),
}
ALLF = ['char_width', 'flags', 'flags2', 'script', 'grapheme_cluster_break', 'east_asian_width', 'general_category',
        'emoji_segmentation_category', 'age', 'indic_conjunct_break', 'word_break']
FLAGS = {'Emoji': ('flags', 'is_emoji'), 'Emoji_Presentation': ('flags', 'is_emoji_presentation'), 'Emoji_Component': ('flags', 'is_emoji_component'),
         'Emoji_Modifier': ('flags', 'is_emoji_modifier'), 'Emoji_Modifier_Base': ('flags', 'is_emoji_modifier_base'),
         'Extended_Pictographic': ('flags', 'is_extended_pictographic')}


def value_names(field):
    """UCD value as found in the data files -> enumerator name"""
    en, al, orc = FIELDS[field]
    vals = sorted({v for v in orc() if v is not None})
    if al:
        a = ucd.aliases(al)
        return {v: a.get(v, v) for v in vals}
    if field == 'age': return {v: 'V' + v.replace('.', '_') for v in vals}
    return {v: v for v in vals}


ENUM_EXTRA = {'age': {None: 'Unassigned'}}


def native_tu():
    t = ['#include <libunicode/codepoint_properties.h>', '#include <cstddef>', '#include <cstring>', 'using namespace unicode;', 'extern "C" {',
         'void props_all(unsigned char* o) { for (unsigned c = 0; c < 0x110000; ++c) { auto p = codepoint_properties::get(c); std::memcpy(o + 11 * c, &p, 11); } }',
         'void props_one(unsigned c, unsigned char* o) { auto p = codepoint_properties::get(c); std::memcpy(o, &p, 11); }',
         'int props_size() { return sizeof(codepoint_properties); }']
    for f in ALLF: t.append('int off_%s() { return offsetof(codepoint_properties, %s); }' % (f, f))
    for f in FIELDS:
        names = dict(value_names(f)); names.update(ENUM_EXTRA.get(f, {}))
        for v, n in names.items():
            t.append('int e_%s_%s() { return (int)%s::%s; }' % (f, n, FIELDS[f][0], n))
    for n, (fld, fn) in FLAGS.items():
        t.append('void flag_%s(unsigned char* o) { for (unsigned c = 0; c < 0x110000; ++c) o[c] = codepoint_properties::get(c).%s(); }' % (n, fn))
    t.append('void flag_virama(unsigned char* o) { for (unsigned c = 0; c < 0x110000; ++c) o[c] = codepoint_properties::get(c).is_virama(); }')
    t.append('void flag_vsbase(unsigned char* o) { for (unsigned c = 0; c < 0x110000; ++c) o[c] = codepoint_properties::get(c).is_emoji_variation_base(); }')
    t.append('void flag_gext(unsigned char* o) { for (unsigned c = 0; c < 0x110000; ++c) o[c] = codepoint_properties::get(c).is_core_grapheme_extend(); }')
    t.append('}')
    return '\n'.join(t)


class Props:
    def __init__(self, check):
        self.check = check
        B = check.build()
        self.so = ctypes.CDLL(B.so(native_tu(), ['codepoint_properties.cpp', 'codepoint_properties_data.cpp', 'codepoint_properties_names.cpp']))
        self.size = self.so.props_size()
        if self.size != 11: raise Unsupported('codepoint_properties has %d bytes' % self.size)
        self.tab = np.zeros((0x110000, 11), np.uint8)
        self.so.props_all(self.tab.ctypes.data_as(ctypes.c_void_p))
        self.off = {f: getattr(self.so, 'off_' + f)() for f in ALLF}
        self.nbits = 88
        self.P = z3.Function('P', z3.BitVecSort(32), z3.BitVecSort(88))
        check.contracts.append('codepoint_properties::get')

    def enum(self, field, name):
        return getattr(self.so, 'e_%s_%s' % (field, name))() & 255

    def enums(self, field):
        """UCD value -> code value"""
        names = dict(value_names(field)); names.update(ENUM_EXTRA.get(field, {}))
        return {v: self.enum(field, n) for v, n in names.items()}

    def f(self, p, field):
        """field of a symbolic or concrete 88-bit record"""
        o = self.off[field]
        if is_c(p): return (p >> (8 * o)) & 255
        return z3.Extract(8 * o + 7, 8 * o, p)

    def rec(self, cp):
        return int.from_bytes(bytes(self.tab[cp if cp < 0x110000 else 0]), 'little')

    # ------------------------------------------------------------ lemmas
    def get_safe(self):
        """get(): reads stay inside the tables for every 32-bit argument, and arguments above U+10FFFF behave like U+0000"""
        c = self.check
        tu = '''#include "codepoint_properties.cpp"
#include "codepoint_properties_data.cpp"
extern "C" void h_get(unsigned c, unicode::codepoint_properties* o) { *o = unicode::codepoint_properties::get(c); }'''
        m = ir.Module(open(c.build().ir(tu)).read())
        cp = z3.BitVec('cp', 32)
        res = []
        v = Verifier(m, [], {'global_init': 'configured_tables', 'table_ite': 0})
        for a in (cp, 0):
            o = v.reg(v.new_cells('out', 11))
            r, st = v.call_fn(m.fn('h_get'), [a, Ptr(o)], State(True, {}))
            res.append(bv(v.load_bytes(st, o, Off(0, None, 0), 11, True), 88))
        hi = Implies(z3.UGT(cp, 0x10FFFF), res[0] == res[1])
        v.oblige('arguments above U+10FFFF give the record of U+0000', True, hi, fn='codepoint_properties::get')
        # ground facts about the tables: value range per table
        self.table_ranges(v, c)
        for o in v.obls: o.nfacts = len(v.facts)
        c.discharge(v)
        c.assumptions.append('codepoint_properties::configured_tables keeps its initial value (nothing in the library writes it)') if \
            'codepoint_properties::configured_tables keeps its initial value (nothing in the library writes it)' not in c.assumptions else None

    def table_ranges(self, v, c):
        """value-range facts for every uninterpreted table application occurring so far (ground lemma over the constant table)"""
        apps = {}
        def walk(e, seen):
            st = [e]
            while st:
                x = st.pop()
                if x.get_id() in seen: continue
                seen.add(x.get_id())
                if z3.is_app(x) and x.decl().name().startswith('tbl_'): apps.setdefault(x.decl().name(), []).append(x)
                st += x.children()
        seen = set()
        for o in v.obls:
            for e in (o.guard, o.prop):
                if isinstance(e, z3.ExprRef): walk(e, seen)
        for key, (f, o, g, cc, size) in v.tables.items():
            if f.name() not in apps: continue
            nel = (o.size - cc - size) // g + 1
            vals = [const_read(o.gl.ty, o.gl.init, g * k + cc, size) for k in range(nel)]
            mx = max(vals)
            c.ground('values of table %s stay below %d' % (o.name[:60], mx + 1), True, n=nel)
            for a in apps[f.name()]:
                v.fact(Implies(z3.ULT(a.arg(0), nel), z3.ULE(a, mx)))
                v.fact(f(z3.BitVecVal(0, 64)) == vals[0])
                if z3.is_bv_value(a.arg(0)) and a.arg(0).as_long() < nel: v.fact(a == vals[a.arg(0).as_long()])
            for i in {0} | {v0 for v0 in vals[:1]}:
                if i < nel: v.fact(f(z3.BitVecVal(i, 64)) == vals[i])

    def field_lemma(self, field, upto=None):
        """for every code point the table field equals the UCD value"""
        c = self.check
        en = self.enums(field)
        orc = FIELDS[field][2]()
        lut = {}
        col = self.tab[:, self.off[field]]
        want = np.fromiter((en[v] for v in orc), np.uint8, 0x110000)
        bad = np.nonzero(col != want)[0]
        if len(bad):
            b = int(bad[0])
            c.hints.append({'function': 'codepoint_properties::get', 'code_point': 'U+%04X' % b, 'field': field, 'got': int(col[b]), 'expected': '%s (%d)' % (orc[b], want[b])})
        c.ground('field %s equals the UCD value of every code point' % field, len(bad) == 0,
                 '%d code points differ, first U+%04X' % (len(bad), int(bad[0])) if len(bad) else '', 'codepoint_properties table', 0x110000)
        return len(bad) == 0

    def flag_lemma(self, name):
        c = self.check
        a = np.zeros(0x110000, np.uint8)
        if name == 'virama':
            self.so.flag_virama(a.ctypes.data_as(ctypes.c_void_p)); want = np.fromiter((x in ('Virama', 'Invisible_Stacker') for x in ucd.insc()), np.uint8, 0x110000)
        elif name == 'vsbase':
            self.so.flag_vsbase(a.ctypes.data_as(ctypes.c_void_p)); want = np.zeros(0x110000, np.uint8); want[list(ucd.emoji_vs_bases())] = 1
        elif name == 'gext':
            self.so.flag_gext(a.ctypes.data_as(ctypes.c_void_p)); want = np.frombuffer(bytes(ucd.core('Grapheme_Extend')), np.uint8)
        else:
            getattr(self.so, 'flag_' + name)(a.ctypes.data_as(ctypes.c_void_p)); want = np.frombuffer(bytes(ucd.emoji(name)), np.uint8)
        bad = np.nonzero(a != want)[0]
        if len(bad):
            b = int(bad[0])
            c.hints.append({'function': 'codepoint_properties flag ' + name, 'code_point': 'U+%04X' % b, 'got': int(a[b]), 'expected': int(want[b])})
        c.ground('flag %s equals the UCD property of every code point' % name, len(bad) == 0, '%d differ, first U+%04X' % (len(bad), int(bad[0])) if len(bad) else '',
                 'codepoint_properties table', 0x110000)
        return a

    def domain(self, mask_fields):
        """distinct values of the record restricted to some fields: list of (mask, values), values -> first code points"""
        m = 0
        for f, bits in mask_fields.items(): m |= bits << (8 * self.off[f])
        mb = np.frombuffer(m.to_bytes(11, 'little'), np.uint8)
        t = self.tab & mb
        u, idx = np.unique(t, axis=0, return_index=True)
        return m, {int.from_bytes(bytes(r), 'little'): int(i) for r, i in zip(u, idx)}, t

    def get_contract(self):
        """contract of codepoint_properties::get for callers: returns P(cp)"""
        P = self.P

        def h(ex, st, name, args, i):
            ps = P(bv(args[-1], 32))
            ex.get_calls = getattr(ex, 'get_calls', []); ex.get_calls.append(args[-1])
            if is_c(args[-1]): ps = z3.BitVecVal(self.rec(args[-1]), 88)
            ps = fold(ps)
            if len(args) == 2:     # sret pointer
                ex.store(st, args[0], extract(ps, 63, 0, 88), I(64)); ex.store(st, Ptr(args[0].obj, args[0].off.addc(8)), extract(ps, 87, 64, 88), I(24)); return None
            if i.ty.k == 'struct': return [extract(ps, 63, 0, 88), zext(extract(ps, 87, 64, 88), 24, i.ty.e[1].n)]
            raise Unsupported('shape of codepoint_properties::get')
        return (re.compile(r'_ZN7unicode20codepoint_properties3getE'), h)
