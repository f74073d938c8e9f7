"""shared by the segmentation checks: native and symbolic access to the grapheme state machine"""
import ctypes, re
import z3
from engine import ir
from engine.sym import *
from engine.exec import Verifier
from engine.fsm import Machine
from engine.props import Props
from oracle.gb import GB

GB_NATIVE = '''#include <libunicode/grapheme_segmenter.h>
#include <new>
#include <cstring>
using namespace unicode;
extern "C" {
int gs_size() { return sizeof(grapheme_segmenter_state); }
void gs_new(void* p) { new (p) grapheme_segmenter_state; }
void gs_init(unsigned c, void* p) { grapheme_process_init(c, *(grapheme_segmenter_state*)p); }
int gs_step(unsigned c, void* p) { return grapheme_process_breakable(c, *(grapheme_segmenter_state*)p); }
}'''
GB_SRC = ['grapheme_segmenter.cpp', 'codepoint_properties.cpp', 'codepoint_properties_data.cpp', 'codepoint_properties_names.cpp']


def byte_ops(so, size, new, ops):
    """ctypes wrappers over byte states"""
    def construct(fill):
        b = (ctypes.c_ubyte * size)(*([fill] * size)); getattr(so, new)(b); return bytearray(b)
    d = {'construct': construct}
    for nm, fn in ops.items():
        def f(st, cp, fn=fn):
            b = (ctypes.c_ubyte * size).from_buffer(st); r = getattr(so, fn)(ctypes.c_uint(cp), b); return r, st
        d[nm] = f
    return d


def sym_op(check, mod, fname, size, contracts, ret=True, tag=''):
    """executes mod.fname(cp, state*) symbolically on given state bytes; its safety obligations are discharged under asm"""
    f = [x for x in mod.functions if re.search(fname, x)]
    if len(f) != 1: raise Unsupported('function %s not found' % fname)

    def op(bs, cp, asm):
        v = Verifier(mod, contracts)
        o = v.reg(v.new_cells('state', size))
        o.cinit = {k: (b, 1) for k, b in enumerate(bs)}
        for a in asm: v.fact(zb(a)) if a is not True else None
        r, st = v.call_fn(mod.fn(f[0]), [cp, Ptr(o)], State(True, {}))
        check.discharge(v)
        if st.g is not True: asm.append(zb(st.g))
        st = State(True, st.m)
        nb = [v.load_bytes(st, o, Off(0, None, k), 1, True) for k in range(size)]
        return r, nb
    check.contracts.append(re.sub(r'\W', '', fname))
    return op


def source_reps(irtext, klass, field=None):
    """code points for the search: around every constant the current source compares with, and every class within every interval between them"""
    ks = sorted({int(x) for l in irtext.split('\n') if ' icmp ' in l or ' switch ' in l or re.match(r'\s+i32 \d+, label', l) for x in re.findall(r'(?<![%\w.])(\d+)\b', l) if 2 < int(x) < 0x110000})
    out = []
    for k in ks: out += [x for x in (k - 1, k, k + 1) if 0 <= x < 0x110000]
    seen = set()
    if len(ks) < 60:
        import bisect
        for cp in list(range(0, 0x3400)) + list(range(0xA000, 0xB000)) + list(range(0xD7B0, 0xD7FF)) + list(range(0x1F000, 0x1FB00)) + list(range(0x11000, 0x11100)):
            k = (bisect.bisect_right(ks, cp), klass(cp))
            if k not in seen: seen.add(k); out.append(cp)
    return sorted(set(out))


def grapheme_machine(check, props):
    B = check.build()
    so = ctypes.CDLL(B.so(GB_NATIVE, GB_SRC))
    size = so.gs_size()
    irtext = None
    nat = byte_ops(so, size, 'gs_new', {'init': 'gs_init', 'step': 'gs_step', 'reinit': 'gs_init'})
    irtext = open(B.ir('#include "grapheme_segmenter.cpp"\n', noinline=['codepoint_properties3getE'], strip=['codepoint_properties3getE'])).read()
    m = ir.Module(irtext)
    con = [props.get_contract()]
    so_init = sym_op(check, m, r'grapheme_process_initEDi', size, con)
    so_step = sym_op(check, m, r'grapheme_process_breakableEDi', size, con)
    fields = {'grapheme_cluster_break': 255, 'indic_conjunct_break': 255, 'flags': 255, 'flags2': 255, 'char_width': 255, 'general_category': 255, 'east_asian_width': 255,
              'word_break': 255, 'emoji_segmentation_category': 255}
    # class: the fields the specification reads, and whether the code point is ASCII
    cm, cvals, ct = props.domain({'grapheme_cluster_break': 255, 'indic_conjunct_break': 255, 'flags': 0x20})
    fm, fvals, ft = props.domain(fields)
    import numpy as np
    key = np.frombuffer(np.ascontiguousarray(ct).tobytes(), dtype='V11')
    asc = {}
    classes = sorted(cvals); cid = {v: i for i, v in enumerate(classes)}
    kb = 8

    def klass(cp):
        return cid[props.rec(cp) & cm] * 2 + (1 if cp < 128 else 0)

    def kterm(cp):
        if is_c(cp): return klass(cp)
        p = props.P(cp) & cm
        r = z3.BitVecVal(0, kb)
        for v, i in cid.items(): r = z3.If(p == v, z3.BitVecVal(i * 2, kb), r)
        return z3.If(z3.ULT(cp, 128), r | 1, r)

    # which restricted records occur below / from U+0080
    low = {int.from_bytes(bytes(r), 'little') for r in ft[:128]}
    high = {int.from_bytes(bytes(r), 'little') for r in np.unique(ft[128:], axis=0)}

    def dom(cp):
        if is_c(cp): return [props.P(z3.BitVecVal(cp, 32)) == props.rec(cp)]
        p = props.P(cp) & fm
        return [z3.Or(z3.And(z3.ULT(cp, 128), z3.Or(*[p == v for v in low])), z3.And(z3.UGE(cp, 128), z3.ULE(cp, 0x10FFFF), z3.Or(*[p == v for v in high])),
                      z3.And(z3.UGT(cp, 0x10FFFF), props.P(cp) == props.rec(0)))]
    # representatives: two per (class, ascii)
    reps = []
    seen = {}
    order = list(range(0, 128)) + [int(x) for x in np.unique(ft[128:], axis=0, return_index=True)[1] + 128]
    for cp in order:
        k = klass(cp)
        if seen.get(k, 0) < (2 if cp >= 128 else 1): seen[k] = seen.get(k, 0) + 1; reps.append(cp)
    reps += [0x110000, 0xA5B6C7D8, 0xFFFFFFFF]
    M = Machine(check, 'grapheme_segmenter_state', size, nat, {'init': so_init, 'step': so_step, 'reinit': so_init}, GB(props), reps, props, klass)
    M.first_op, M.step_op = 'init', 'step'
    M.dom, M.kterm, M.kb = dom, kterm, kb
    M.so = so
    M.extra_reps = source_reps(irtext, klass)
    check.ground('the restricted property records occurring below and above U+0080 are the listed ones', True, fn='codepoint_properties table', n=0x110000)
    return M


WB_NATIVE = '''#include <libunicode/word_segmenter.h>
#include <new>
using namespace unicode;
extern "C" {
int ws_size() { return sizeof(word_segmenter_state); }
void ws_new(void* p) { new (p) word_segmenter_state; }
void ws_init(unsigned c, void* p) { word_process_init(c, *(word_segmenter_state*)p); }
int ws_step(unsigned c, unsigned x, unsigned n, void* p) { char32_t r = x; return word_process_breakable(c, &r, n, *(word_segmenter_state*)p); }
}'''
WB_SRC = ['word_segmenter.cpp', 'codepoint_properties.cpp', 'codepoint_properties_data.cpp', 'codepoint_properties_names.cpp']
WB_INIT = r'^_ZN7unicode17word_process_initEDi'
WB_STEP = r'^_ZN7unicode22word_process_breakableEDi'


def word_machine(check, props):
    """the word break machine; its step has the Word_Break class of the next code point that is not transparent as an extra input"""
    import numpy as np
    from engine.cands import along
    from oracle.wb import WB, NONE
    B = check.build()
    so = ctypes.CDLL(B.so(WB_NATIVE, WB_SRC)); size = so.ws_size()
    spec = WB(props)
    m, vals, t = props.domain({'word_break': 255, 'flags': 0x20})
    classes = sorted(vals); cid = {v: i for i, v in enumerate(classes)}; kb = 8
    klass = lambda cp: cid[props.rec(cp) & m]

    def kterm(cp):
        if is_c(cp): return klass(cp)
        p = props.P(cp) & m; r = z3.BitVecVal(0, kb)
        for v, i in cid.items(): r = z3.If(p == v, z3.BitVecVal(i, kb), r)
        return r

    def dom(cp):
        if is_c(cp): return [props.P(z3.BitVecVal(cp, 32)) == props.rec(cp)]
        p = props.P(cp) & m
        return [z3.Or(z3.And(z3.ULE(cp, 0x10FFFF), z3.Or(*[p == v for v in vals])), z3.And(z3.UGT(cp, 0x10FFFF), props.P(cp) == props.rec(0)))]
    order = {}
    for cp in [int(x) for x in vals.values()]: order[klass(cp)] = cp
    reps = sorted(order.values()) + [0x110000]
    wrep = {}
    for cp in reps:
        if cp < 0x110000: wrep.setdefault((props.rec(cp) >> (8 * props.off['word_break'])) & 255, cp)
    nat = byte_ops(so, size, 'ws_new', {'init': 'ws_init', 'reinit': 'ws_init'})
    for op in spec.mine_ops:
        if op.startswith('step@'):
            k = int(op[5:]); x = wrep.get(k, 0x41); n = 0 if k == NONE else 1

            def f(st, cp, x=x, n=n):
                b = (ctypes.c_ubyte * size).from_buffer(st); return so.ws_step(ctypes.c_uint(cp), x, n, b), st
            nat[op] = f
    irtext = open(B.ir('#include "word_segmenter.cpp"\n', noinline=['codepoint_properties3getE', 'word_process_'], strip=['codepoint_properties3getE'])).read()
    mod = ir.Module(irtext); con = [props.get_contract()]
    sinit = sym_op(check, mod, WB_INIT[1:], size, con)
    fn = [x for x in mod.functions if re.search(WB_STEP[1:], x)]
    if len(fn) != 1: raise Unsupported('word_process_breakable not found')

    def sstep(bs, cp, asm):
        v = Verifier(mod, con)
        o = v.reg(v.new_cells('state', size)); o.cinit = {k: (b, 1) for k, b in enumerate(bs)}
        for a in asm: v.fact(zb(a)) if a is not True else None
        n = z3.BitVec('n', 64); v.fact(z3.ULT(n, z3.BitVecVal(1 << 60, 64)))
        rest = v.reg(v.new_arr('rest', 4, n)); T = rest.init.a
        NX = z3.Function('nextClass', BV64, z3.BitVecSort(8))      # class of the first code point at or after an index that is not transparent
        v.fact(NX(z3.BitVecVal(0, 64)) == spec.nx); v.fact(NX(n) == NONE)

        def lh(ex, obj, i, val, g):
            if obj is rest:
                j = bv(i, 64); w = props.f(props.P(z3.Select(T, j)), 'word_break')
                for d in dom(z3.Select(T, j)): ex.fact(d)
                ex.fact(z3.Implies(z3.ULT(j, n), NX(j) == z3.If(zb(spec.transp(w)), NX(j + 1), w)))
        v.load_hook = lh
        v.loop_hook = along([rest], invs=[('the look-ahead is still the one from the start', lambda w, i: NX(bv(i, 64)) == spec.nx), ('inside', lambda w, i: z3.ULE(bv(i, 64), n))], lengths=[n])
        r, st = v.call_fn(mod.fn(fn[0]), [cp, Ptr(rest), n, Ptr(o)], State(True, {}))
        sstep.facts = list(v.facts)
        check.discharge(v)
        nb = [v.load_bytes(State(True, st.m), o, Off(0, None, k), 1, True) for k in range(size)]
        asm += [f for f in v.facts if not any(f is a for a in asm)] + [zb(st.g)]     # the iteration of each loop is the one that leaves it
        return r, nb
    check.contracts.append('word_process_breakable')
    M = Machine(check, 'word_segmenter_state', size, nat, {'init': sinit, 'step': sstep, 'reinit': sinit}, spec, reps, props, klass)
    M.first_op, M.step_op = 'init', 'step'
    M.dom, M.kterm, M.kb = dom, kterm, kb
    M.cls = lambda cp: (props.rec(cp) >> (8 * props.off['word_break'])) & 255
    return M
